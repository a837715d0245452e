# runs the checks on every mutant until one reports it; usage: run.py [lo hi]
import subprocess, sys, os, time, threading, queue
fast = 'P13 P15 P06 P12 P16 P14 P07 P08 P09 P10 P11 P17 P18 P20 P21 P19 P24 P25 P23 P05 P01 P26 P22 P02 P03 P04'.split()
if os.environ.get('MUT_CLIENT'): fast = 'P27 P28 P29'.split()
# which check reaches which mutant
cover = {}
def run(c, m, root, **kw):
    return subprocess.run(['bash', '-c', 'ulimit -v 16000000; exec /tmp/mut/target/release/mc ' + c], env=dict(os.environ, MC_MUT=m, MC_ROOT=root, MC_MAX='1', MC_HANG='8', MC_WORKERS='2', **kw), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240).returncode
def root(k):
    r = f'/tmp/mut/root{k}'
    os.makedirs(r + '/evidence', exist_ok=True)
    subprocess.run(['cp', '/tmp/mut/verif/KNOWN_FINDINGS.txt', r])
    return r
for c in fast:
    p = f'/tmp/mut/cover.{c}'
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime('/tmp/mut/target/release/mc'):
        assert run(c, '0', root(0), MC_COVER=p) == 0, c
    cover[c] = set(open(p).read().split())
muts = [l.rstrip('\n').split('\t') for l in open('/tmp/mut/list')]
lo, hi = (int(sys.argv[1]), int(sys.argv[2])) if len(sys.argv) > 2 else (0, 10**9)
done = {}
out = '/tmp/mut/result'
if os.path.exists(out):
    for l in open(out):
        p = l.rstrip('\n').split('\t'); done[p[0]] = p[1]
q = queue.Queue()
for m in muts:
    if lo <= int(m[0]) <= hi and m[0] not in done: q.put(m)
recent = []
lock = threading.Lock()
def work(k):
    r = root(k)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        with lock: order = recent[-3:][::-1]
        order = list(dict.fromkeys(order)) + [c for c in fast if c not in order]
        order = [c for c in order if m[0] in cover[c]]
        auth = 'authority' in m[1] and 'actions' not in m[1]
        if 'r1.rs' not in m[1]: order = [c for c in order if c != 'P04']
        if not auth: order = [c for c in order if c not in ('P02', 'P03', 'P24')]
        res = 'SURVIVED' if order else 'UNREACHED'
        for c in order:
            try:
                rc = run(c, m[0], r)
            except subprocess.TimeoutExpired: rc = 'timeout'
            if rc != 0:
                res = f'{c}:{rc}'
                with lock: recent.append(c)
                break
        with lock:
            open(out, 'a').write('\t'.join([m[0], res] + m[1:]) + '\n')
ts = [threading.Thread(target=work, args=(k,)) for k in range(3)]
[t.start() for t in ts]; [t.join() for t in ts]
