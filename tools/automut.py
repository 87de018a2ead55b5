#!/usr/bin/env python3
"""Mechanical mutants of lokky, to find what the checks do not notice.

usage: automut.py WORKDIR PART PARTS [file...]

Works on copies of /repo and /verif/sim in WORKDIR, never on /repo itself. Prints one line per
mutant: caught (by which check), missed, or nothing if it does not compile. Mutants PART of PARTS,
in an order that is random but always the same."""
import os, re, sys, subprocess, random, shutil
work, part, parts = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
PROPS = {
 "arc.rs": "C01 C02 C04 C03 C08 C12 C21 C20",
 "urc.rs": "C05 C06 C07 C08 C12 C21 C20",
 "rc.rs": "C09 C10 C21 C20",
 "vec.rs": "C14 C17 C18 C13 C12 C11 C20 C21 C15",
 "small_vec.rs": "C15 C17 C18 C13 C12 C20 C21",
 "string.rs": "C16 C13 C12 C21 C20",
 "ptr.rs": "C12 C11 C13 C14 C20 C01 C19",
 "boxed.rs": "C11 C20 C21",
 "marker.rs": "C09 C01 C05 C19",
 "scope.rs": "C19 C20 C08",
}
sim, repo = work + "/sim", work + "/repo"
if not os.path.exists(repo):
    os.makedirs(work, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    shutil.copytree("/verif/sim", sim)
    t = open(sim + "/Cargo.toml").read()
    open(sim + "/Cargo.toml", "w").write(t.replace('"/repo"', f'"{repo}"').replace('"../../repo"', f'"{repo}"'))

def sites():
    out = []
    for f in PROPS:
        if only and f not in only: continue
        lines = open(f"{repo}/src/{f}").read().split("\n")
        for n, l in enumerate(lines):
            if "cfg(test)" in l or l.startswith("mod test"): break
            c = l.split("//")[0]
            if not c.strip() or "trace!" in c or "debug_assert" in c or c.strip().startswith(("use ", "#", "impl", "pub use", "fn ", "pub fn", "where")):
                continue
            def add(a, b, repl):
                new = l[:a] + repl + l[b:]
                if new != l: out.append((f, n, new))
            for m in re.finditer(r" (<=|>=|==|!=|<|>|&&|\|\||\+|-|\*) ", c):
                for r in {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="],
                          "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["+"]}[m[1]]:
                    add(m.start(1), m.end(1), r)
            for m in re.finditer(r" [+-] 1\b", c): add(m.start(), m.end(), "")
            for m in re.finditer(r"(?<![\w.<])([012])(?![\w.>x])", c):
                add(m.start(1), m.end(1), str(int(m[1]) + 1))
                if m[1] != "0": add(m.start(1), m.end(1), "0")
            for a, b in (("true", "false"), ("false", "true"), ("Acquire", "Relaxed"), ("Release", "Relaxed"), ("AcqRel", "Relaxed"),
                         ("capacity()", "len()"), ("len()", "capacity()"), ("Included", "Excluded"), ("reserve_exact(", "reserve("),
                         ("start", "end"), ("end", "start"), ("read", "write"), ("write", "read"), ("strong", "weak"), ("weak", "strong"),
                         ("other", "self"), ("min(", "max("), ("max(", "min("), ("if ", "if !"), ("Some(", "None.or("), ("try_new", "new"),
                         ("Stack", "Heap"), ("as_ptr().add", "as_ptr().sub"), ("self.marker()", "Default::default()"), ("marker", "Default::default()"),
                         ("fence()", "fence()"), ("?", ".unwrap()"), ("next()", "next_back()"), ("next_back()", "next()")):
                for m in re.finditer(re.escape(a), c):
                    if a[0].isalpha() and m.start() and (c[m.start() - 1].isalnum() or c[m.start() - 1] == "_") : continue
                    if a[-1].isalpha() and m.end() < len(c) and (c[m.end()].isalnum() or c[m.end()] == "_"): continue
                    if a == "if " and c[m.end():].startswith("let"): continue
                    add(m.start(), m.end(), b)
            s = c.strip()
            if s.endswith(";") and not s.startswith(("let ", "pub ", "type", "}", ")", "static", "const", ".")):
                ind = len(c) - len(c.lstrip())
                # Only whole statements.
                prev = lines[n - 1].split("//")[0].rstrip() if n else ""
                if prev.endswith((";", "{", "}", "")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                    out.append((f, n, l[:ind] + "// " + s))
            if s.startswith("unsafe {") and s.endswith("};"):
                out.append((f, n, ""))
    return out

def sh(cmd, t):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None

all_sites = sites()
random.Random(int(os.environ.get("SEED", 7))).shuffle(all_sites)
# Without optimisations, as to build takes longer than to run. What is missed may need more runs.
env = 'CARGO_PROFILE_RELEASE_OPT_LEVEL=0 CARGO_PROFILE_RELEASE_INCREMENTAL=true RUSTFLAGS="--cfg lokky_sim" CARGO_TERM_COLOR=never '
print(len(all_sites), "mutants", flush=True)
for k, (f, n, new) in enumerate(all_sites):
    if k % parts != part: continue
    p = f"{repo}/src/{f}"
    old = open(p).read()
    lines = old.split("\n")
    was = lines[n]
    lines[n] = new
    open(p, "w").write("\n".join(lines))
    try:
        b = sh(f"cd {sim} && {env} cargo build --offline -q --profile release --target-dir {work}/e", 300)
        if b is None or b.returncode: continue
        res = "missed"
        for prop in PROPS[f].split():
            r = sh(f"mkdir -p {work}/d/evidence {work}/d/replays; cp -n /verif/known_findings.txt {work}/d/; LOKKY_SIM_OTHER={work}/e/release/lokky-sim LOKKY_SIM_MINIMISE=1 LOKKY_SIM_DIR={work}/d LOKKY_SIM_RUNS=120000 LOKKY_SIM_MILLIS=12000 {work}/e/release/lokky-sim check {prop} quick", 240)
            if r is None: res = f"{prop}:timeout"; break
            if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout: res = f"{prop}"; break
            if r.returncode not in (0, 1): res = f"{prop}:error{r.returncode}"; break
        print(f"{res} | {f}:{n + 1} | {was.strip()}  =>  {new.strip()}", flush=True)
    finally:
        open(p, "w").write(old)
