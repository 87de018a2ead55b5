#!/usr/bin/env python3
"""Writes the folders of /verif/seeded from the bugs in bugs_*.py beside this file.
usage: gen.py [id...]"""
import os, sys, json, subprocess, shutil, difflib, glob
here = os.path.dirname(os.path.abspath(__file__))
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, mode="run", flags=""):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, mode=mode, flags=flags))
for f in sorted(glob.glob(os.path.join(here, "bugs_*.py"))):
    exec(open(f).read())
DEMO = """#!/bin/bash
# Builds and runs demo.rs, with lokky as it is in the current directory. Exit 0: the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/support.rs" "$tmp/src/support.rs"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
lokky = {{ path = "$repo" }}
[workspace]
END
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
{run}
"""
RUN = {
 "run": "cargo build -q --offline 2>/dev/null || exit 3\ntimeout 100 target/debug/demo\nexit $?",
 "release": "cargo build -q --release --offline 2>/dev/null || exit 3\ntimeout 120 target/release/demo\nexit $?",
 "miri": "export MIRIFLAGS=\"-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks {flags}\"\ntimeout 280 cargo +nightly miri run -q --offline > out 2>&1\nrc=$?\ntail -n 12 out\nexit $rc",
}
only = sys.argv[1:]
for b in BUGS:
    if only and b["id"] not in only: continue
    counts = True
    diff = ""
    files = {}
    for f, old, new in b["edits"]:
        p = "src/" + f
        s = files.get(p)
        if s is None:
            s = [subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + p], capture_output=True, text=True).stdout] * 2
        assert s[1].count(old) >= 1, (b["id"], "old text not found", old)
        assert s[1].count(old) == 1, (b["id"], "old text not unique", old)
        files[p] = [s[0], s[1].replace(old, new)]
    for p, (a, n) in files.items():
        diff += "diff --git a/%s b/%s\n" % (p, p)
        diff += "".join(difflib.unified_diff(a.splitlines(True), n.splitlines(True), "a/" + p, "b/" + p))
        # Only lines of the original may be changed.
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", p], capture_output=True, text=True).stdout.splitlines()
        base = [("26d11ee" in l.split()[0]) for l in blame]
        sm = difflib.SequenceMatcher(None, a.splitlines(), n.splitlines(), autojunk=False)
        ch = [i for t, i1, i2, _, _ in sm.get_opcodes() if t != "equal" for i in range(i1, i2)]
        # Those that change what the repairs have written go elsewhere.
        counts &= bool(ch) and all(base[i] for i in ch)
    d = os.path.join("/verif/seeded" if counts else "/tmp/seeded-extra", b["id"])
    if not counts: print(b["id"], "changes lines that are not of the original")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write("#[macro_use]\nmod support;\n#[allow(unused_imports)]\nuse support::*;\n" + b["demo"].lstrip("\n"))
    shutil.copy(os.path.join(here, "support.rs"), d)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.format(run=RUN[b["mode"]].format(flags=b["flags"])))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
