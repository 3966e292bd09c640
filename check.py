#!/usr/bin/env python3
"""check.py ID [quick|thorough]   - decide one property on /repo's current working tree
   check.py --build                - build everything once (setup)

Builds crasm from /repo/src (a copy of the sources and of its Makefile, in /verif/build), twice: the
normal program, and the same sources as a shared object for the explorer.  Then runs the
property's driver and passes its verdict on: exit 0, or exit 1 with a VIOLATION line."""
import os, sys, subprocess, hashlib, shutil, glob, tempfile, fcntl, json, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CRASM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
MC = os.path.join(HERE, "mc")
ASAN = {"C22"}
AUTO = {"C24"}
LEVEL = {"C23": "fault_enumeration"}
WRAP = "exit _exit fopen fopen64 fdopen tmpfile fclose malloc calloc free realloc strdup strndup".split()

def sh(cmd, cwd=None, what=""):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode:
        sys.stderr.write("check: cannot build %s\n%s\n" % (what, r.stdout.decode(errors="replace")[-3000:]))
        sys.exit(4)

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b"\0")
        with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]

def cached(name, make):
    """BUILD/name, made by make(dir) if it is not there yet"""
    d = os.path.join(BUILD, name)
    if not os.path.exists(os.path.join(d, ".ok")):
        t = tempfile.mkdtemp(prefix="tmp.", dir=BUILD)
        make(t)
        open(os.path.join(t, ".ok"), "w").close()
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    os.utime(d)
    return d

def under_test(asan, auto=False):
    src = [f for f in glob.glob(REPO + "/src/*") if os.path.isfile(f) and (f.endswith((".c", ".h")) or os.path.basename(f) == "Makefile")]
    san = ["-fsanitize=address"] if asan else []
    base = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=all" if asan else "-O -Wall"
    # auto: what automatic variables hold before they are set differs between the explored library and the program started afresh
    b_real, b_so = (base + " -ftrivial-auto-var-init=zero", base + " -ftrivial-auto-var-init=pattern") if auto else (base, base)
    def make(d):
        for sub in ("real", "so"):
            os.mkdir(d + "/" + sub)
            for f in src: shutil.copy(f, d + "/" + sub)
        env = ["env", "-u", "MAKEFLAGS", "-u", "MAKELEVEL", "-u", "MFLAGS", "-u", "CFLAGS", "-u", "LDFLAGS"]
        ps = [subprocess.Popen(env + ["make", "-j8", "CC=gcc", "CFLAGS=" + b_real, "crasm"], cwd=d + "/real",
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT),
              subprocess.Popen(env + ["make", "-j8", "CC=gcc", "CFLAGS=" + b_so + " -fPIC -Dmain=crasm_main",
                               "LDFLAGS=-shared -Wl,-soname,libut.so -Wl,-z,now -Wl,-z,relro " + " ".join("-Wl,--wrap=" + w for w in WRAP), "crasm"],
                               cwd=d + "/so", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)]
        for p in ps:
            o = p.communicate()[0]
            if p.returncode:
                sys.stderr.write("check: crasm does not build\n" + o.decode(errors="replace")[-3000:] + "\n"); sys.exit(4)
        os.rename(d + "/so/crasm", d + "/libut.so"); os.rename(d + "/real/crasm", d + "/crasm")
        shutil.rmtree(d + "/so"); shutil.rmtree(d + "/real")
    return cached("ut%s-%s" % ("-asan" if asan else "-auto" if auto else "", digest(src, b_real + b_so + " ".join(WRAP))), make)

def flags(asan): return ["g++", "-std=c++17", "-O1" if asan else "-O2", "-w"] + (["-g", "-fsanitize=address"] if asan else [])

def obj(name, asan):
    f = MC + "/" + name + ".cpp"
    h = digest([f] + glob.glob(MC + "/*.hpp") + glob.glob(MC + "/*.inc"), " ".join(flags(asan)))
    return cached("%s%s-%s" % (name, "-asan" if asan else "", h),
                  lambda d: sh(flags(asan) + ["-c", f, "-o", d + "/o.o"], what=name)) + "/o.o"

def objects(names, asan):
    # compile in parallel
    pids = []
    for n in names:
        p = os.fork()
        if p == 0:
            try: obj(n, asan)
            except SystemExit as e: os._exit(e.code or 0)
            except BaseException as e: sys.stderr.write(repr(e)); os._exit(4)
            os._exit(0)
        pids.append(p)
    bad = [os.waitpid(p, 0)[1] for p in pids]
    if any(bad): sys.exit(4)
    return [obj(n, asan) for n in names]

def program(pid, ut, objs, asan):
    h = digest([ut + "/libut.so"] + objs, pid)
    h2 = hashlib.sha256((h + "".join(objs) + ut).encode()).hexdigest()[:16]
    return cached("prog-%s-%s" % (pid, h2),
                  lambda d: sh(flags(asan) + ["-rdynamic", "-o", d + "/mc"] + objs + [ut + "/libut.so", "-Wl,-rpath," + ut], what=pid)) + "/mc"

def gc():
    ds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD))
    for t, d in ds[:-150]:
        if time.time() - t > 1800: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)

def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1:] == ["--build"]:
        ids = sorted(os.path.basename(f)[2:-4] for f in glob.glob(MC + "/p_*.cpp"))
        plain = objects(["engine", "ref"] + ["p_" + i for i in ids if i not in ASAN], False)
        ut = {a: under_test(False, a) for a in (False, True)}
        for n, i in enumerate([i for i in ids if i not in ASAN]): program(i, ut[i in AUTO], plain[:2] + [plain[2 + n]], False)
        for i in ids:
            if i in ASAN: program(i, under_test(True), objects(["engine", "ref", "p_" + i], True), True)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    scope = sys.argv[3:4]
    asan = pid in ASAN
    seed = os.environ.get("VERIF_SEED", "1")
    gc()
    ut = under_test(asan, pid in AUTO)
    exe = program(pid, ut, objects(["engine", "ref", "p_" + pid], asan), asan)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    replays = HERE + "/replays"
    os.makedirs(replays, exist_ok=True)
    for old in glob.glob(replays + "/" + pid + "-*"): shutil.rmtree(old, ignore_errors=True)
    shm = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    work = tempfile.mkdtemp(prefix="mc." + pid + ".", dir=shm)
    try:
        env = dict(os.environ, MC_LEVEL=LEVEL.get(pid, "model_checking"), LC_ALL="C", TZ="UTC")
        if asan: env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=4:allow_user_segv_handler=0"
        r = subprocess.run([exe, tier, seed, work, ut + "/crasm", replays, HERE + "/evidence/" + pid + ".json", HERE + "/known-findings.txt"] + scope,
                           env=env, stdin=subprocess.DEVNULL, cwd=work)
        rc = r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if rc not in (0, 1): sys.stderr.write("check: the explorer ended with %d\n" % rc); rc = 5
    return rc

sys.exit(main())
