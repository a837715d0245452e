# adds to /tmp/mut/skip the mutants that do not compile
import json, re, os, sys
bad = set(); seen = 0
for l in open('/tmp/mut/build.json'):
    try: m = json.loads(l)
    except Exception: continue
    m = m.get('message')
    if not isinstance(m, dict) or m.get('level') != 'error': continue
    seen += 1
    for sp in m['spans']:
        f = sp['file_name']
        f = f if os.path.isabs(f) else os.path.normpath(os.path.join('/tmp/mut/verif/ws', f))
        if not os.path.exists(f) or '/mut/repo/' not in f: continue
        t = open(f, 'rb').read()
        a, b = sp['byte_start'], sp['byte_end']
        pat = rb'__m \((\d+)\)'
        before = list(re.finditer(pat, t[:a]))
        inside = list(re.finditer(pat, t[a:b]))
        if sp.get('is_primary') or True:
            if before: bad.add(int(before[-1][1]))
            if inside and not sp.get('is_primary'): pass
            if inside: bad.add(int(inside[0][1]))
if not bad:
    print('no culprit', seen); sys.exit(1)
old = set(map(int, open('/tmp/mut/skip').read().split()))
if not bad - old: print('no new culprit', bad); sys.exit(1)
open('/tmp/mut/skip', 'w').write(' '.join(map(str, sorted(old | bad))))
print('excluded', sorted(bad - old))
