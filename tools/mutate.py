#!/usr/bin/env python3
"""Apply each mutation to /repo's working tree, run the checks, undo. For developing only.
usage: mutate.py FILE.py [name...]   FILE defines M = [(name, file, old, new, [props])]"""
import subprocess, sys, os
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
env = dict(os.environ, LOKKY_SIM_MINIMISE=os.environ.get("LOKKY_SIM_MINIMISE", "2"), LOKKY_SIM_DIR="/tmp/lokky-mutate")
os.makedirs("/tmp/lokky-mutate", exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
for (name, f, *edits, props) in ns["M"]:
    if only and name not in only: continue
    path = "/repo/src/" + f
    s = open(path).read()
    orig = s
    try:
        ok = True
        for i in range(0, len(edits), 2):
            old, new = edits[i], edits[i+1]
            if old not in s:
                print(name, "OLD TEXT NOT FOUND", repr(old[:50])); ok = False; break
            s = s.replace(old, new, 1)
        if not ok: continue
        open(path, "w").write(s)
        b = subprocess.run(["/verif/sim/build.sh"], capture_output=True, text=True)
        if b.returncode:
            print(name, "BUILD FAILED", b.stdout[:800]); continue
        res = []
        for p in props:
            r = subprocess.run(["/verif/target-fast/release/lokky-sim", "check", p, "quick"], capture_output=True, text=True, env=env)
            line = [l for l in r.stdout.splitlines() if l.startswith("found")]
            res.append(f"{p}:{'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERROR ' + r.stderr[:200]} {line[0][:110] if line else ''}")
        print(name, "|", " | ".join(res), flush=True)
    finally:
        open(path, "w").write(orig)
subprocess.run(["/verif/sim/build.sh"])
