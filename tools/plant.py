#!/usr/bin/env python3
"""plant.py [ID...]: (re)make the planted bugs of tools/bugs.py in /verif/seeded, confirming each in a scratch copy:
it changes lines of the original repository, builds, passes the tests, and its demonstration tells the two apart."""
import os, sys, subprocess, shutil, tempfile, json, stat
HERE = os.path.dirname(os.path.abspath(__file__)); SEED = HERE + "/../seeded"
sys.path.insert(0, HERE)
from bugs import BUGS
BASE = subprocess.run("git -C /repo log --format=%H --reverse | head -1", shell=True, capture_output=True, text=True).stdout.strip()
def run(c, cwd=None, t=120): return subprocess.run(c, cwd=cwd, shell=isinstance(c, str), capture_output=True, text=True, errors="replace", timeout=t)
def demo(b):
    s = "#!/bin/sh\n# %s\n# run in the repository's directory after its build: 0 = as it should be\n" % b["breaks"]
    s += 'CR="$PWD/src/crasm"\nd=$(mktemp -d) || exit 2\ntrap \'rm -rf "$d"\' EXIT\ncd "$d" || exit 2\n'
    for n, c in b["files"].items():
        if c.endswith("\n"): s += "cat > '%s' <<'END_OF_FILE'\n%sEND_OF_FILE\n" % (n, c)
        else: s += "printf '%%s' '%s' > '%s'\n" % (c.replace("'", "'\\''"), n)
    if "script" in b: return s + b["script"]
    s += 'timeout 20 "$CR" %s > out 2>/dev/null; echo "status $?" > got\n' % b.get("args", "-l -o code a.asm")
    s += b.get("show", 'cat code >> got 2>/dev/null\n')
    return s
def main():
    names = sys.argv[1:]
    bad = 0
    for b in BUGS:
        if names and b["id"] not in names: continue
        w = tempfile.mkdtemp(prefix="plant.")
        try:
            run("cp -a /repo/. %s/" % w)
            f = w + "/" + b["file"]
            t = open(f).read(); edits = b["edit"] if isinstance(b["edit"], list) else [b["edit"]]
            d = demo(b)
            if "script" not in b:
                p = w + "/d.sh"; open(p, "w").write(d + "cat got\n")
                run("bash /opt/vp/build.sh", "/repo")
                want = run(["sh", p], "/repo").stdout
                os.remove(p)
                d += "cat > want <<'END_OF_FILE'\n" + want + "END_OF_FILE\nif cmp -s got want; then exit 0; fi\necho 'expected:'; cat want; echo 'got:'; cat got\nexit 1\n"
            for e in edits:
                if len(e) == 3: ff, o, n = e
                else: ff, (o, n) = b["file"], e
                ff = w + "/" + ff; t = open(ff).read()
                if t.count(o) != 1: print(b["id"], "old text occurs", t.count(o), "times:", o); bad = 1; break
                open(ff, "w").write(t.replace(o, n))
            else:
                diff = run("git diff", w).stdout
                # removed lines must be in the base
                for l in run("git diff -U0", w).stdout.split("\n"):
                    if l.startswith("-") and not l.startswith("---"):
                        g = run(["git", "grep", "-F", "-q", "-e", l[1:].strip(), BASE, "--", "src"], w)
                        if g.returncode: print(b["id"], "not a line of the original:", l)
                o = SEED + "/" + b["id"]; os.makedirs(o, exist_ok=True)
                open(o + "/patch.diff", "w").write(diff)
                open(o + "/demo.sh", "w").write(d); os.chmod(o + "/demo.sh", 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
                r1 = run(["sh", o + "/demo.sh"], "/repo")
                r = run("make -C src clean >/dev/null 2>&1; make -C src", w)
                if r.returncode: print(b["id"], "does not build", r.stderr[-400:]); bad = 1; continue
                r2 = run(["sh", o + "/demo.sh"], w)
                # tests, with the copy's binary
                fails = tests(w)
                print("%-4s %-26s clean %d, patched %d, tests failed %s" % (b["property"], b["id"], r1.returncode, r2.returncode, fails or "none"), flush=True)
                if names: print(d); print(r2.stdout)
                if r1.returncode or not r2.returncode or fails: bad = 1
        finally: shutil.rmtree(w, ignore_errors=True)
    return bad
STABLE = json.load(open("/opt/vp/BASELINE.json"))
def tests(w):
    out = []
    names = [f[:-4] for f in sorted(os.listdir(w + "/test")) if f.endswith(".asm")]
    for t in names:
        if run("unset MAKEFLAGS; LC_ALL=C timeout 60 make -B CC=gcc %s.out" % t, w + "/test").returncode: out.append(t)
    return [t for t in out if t in json.dumps(STABLE)]
sys.exit(main())
