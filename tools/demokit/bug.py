#!/usr/bin/env python3
"""bug.py SPEC.py: defines planted changes. SPEC.py calls bug(id, property, edits, needs, breaks, main) for each.
For every one: writes seeded/ID/{patch.diff,meta.json,main.rs} and assembles the kit. /repo is left clean."""
import json, os, subprocess, sys
TOP = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = "/repo"
def git(*a): return subprocess.run(["git", "-C", R, *a], check=True, capture_output=True, text=True).stdout
HEAD = """mod align;
mod d;
mod progs;
mod sw;
mod vm;
#[allow(unused_imports)]
use d::*;
fn main() {
    align::install();
    vm::quiet_panics();
    run();
    println!("the scenario behaves as it should");
}
"""
def bug(id, prop, edits, needs, breaks, main):
    if len(sys.argv) > 2 and id not in sys.argv[2:]: return
    assert not git("status", "--porcelain").strip(), "repo not clean"
    d = f"{TOP}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    try:
        for e in edits:
            f, a, b = e[:3]; nth = e[3] if len(e) > 3 else None
            p = f"{R}/{f}"; s = open(p).read()
            n = s.count(a)
            if nth is None:
                assert n == 1, (id, f, a, n)
                s = s.replace(a, b)
            else:
                parts = s.split(a); assert n > nth, (id, n)
                s = a.join(parts[:nth + 1]) + b + a.join(parts[nth + 1:])
            open(p, "w").write(s)
        open(f"{d}/patch.diff", "w").write(git("diff"))
    finally:
        git("checkout", "--", ".")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/main.rs", "w").write(HEAD + main.strip() + "\n")
    subprocess.run([f"{TOP}/tools/demokit/assemble.sh", id], check=True)
    print("planted", id)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
