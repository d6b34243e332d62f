#!/usr/bin/env python3
"""Build the instrumented library from /repo's working tree, and the simulator.

Usage: build.py WORKDIR.  Everything is written below WORKDIR; nothing in /repo."""
import fcntl, hashlib, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DFPSIM_REPO", "/repo")
SKIP = {".git", "_build", "autom4te.cache"}

LOCALES = {  # name: (decimal point, thousands separator)
    "sim_comma": ("<U002C>", "<U002E>"), "sim_mb": ("<U066B>", "<U066C>"),
    "sim_point": ("<U002E>", "<U002C>"), "sim_comma_ns": ("<U002C>", ""),
}

def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".o", ".os", ".so", ".a", ".dep", ".pyc")) or os.path.islink(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()

def run(cmd, cwd, log, env=None):
    with open(log, "ab") as lf:
        lf.write(("$ %s\n" % (cmd,)).encode())
        return subprocess.Popen(cmd, cwd=cwd, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=env)

def need(p, what, log):
    if p.wait() != 0:
        sys.stderr.write("build failed: %s (see %s)\n" % (what, log))
        try:
            sys.stderr.write(open(log, errors="replace").read()[-3000:])
        except OSError:
            pass
        sys.exit(3)

def build(work):
    os.makedirs(work, exist_ok=True)
    lock = open(os.path.join(work, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp_f = os.path.join(work, "stamp")
    stamp = tree_hash(REPO) + tree_hash(HERE)
    out = os.path.join(work, "bin")
    if os.path.exists(stamp_f) and open(stamp_f).read() == stamp and os.path.exists(os.path.join(out, "dfpsim")):
        return out
    if os.path.exists(stamp_f):
        os.unlink(stamp_f)
    obj = os.path.join(work, "lib")
    for d in (obj, out, os.path.join(work, "o")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    env = dict(os.environ, LC_ALL="C", CC="gcc", CXX="g++", AWK="gawk", CFLAGS="-O2 -g1", CXXFLAGS="-O2")
    for k in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS", "LD_PRELOAD", "GCC_COLORS"):
        env.pop(k, None)
    jobs = []
    # simulator objects and locales, while configure runs
    o = os.path.join(work, "o")
    log = os.path.join(work, "sim.log")
    open(log, "w").close()
    inc = ["-I", HERE]
    for f in ("engine", "gen", "main", "ctor", "hooks", "oracle", "errno"):
        jobs.append((f, run(["g++", "-std=gnu++17", "-O2", "-g1", "-Wall", "-fno-builtin-malloc", '-DLIBNAME="libdfp.so.1"', *inc, "-c", f"{HERE}/{f}.cpp", "-o", f"{o}/{f}.o"], HERE, log, env)))
    jobs.append(("ops", run(["gcc", "-O2", "-g1", *inc, "-c", f"{HERE}/ops.c", "-o", f"{o}/ops.o"], HERE, log, env)))
    jobs.append(("cxx", run(["g++", "-std=gnu++17", "-O1", "-g1", "-D__STDC_WANT_DEC_FP__", "-D__STDC_WANT_IEC_60559_DFP_EXT__", *inc, "-I", f"{REPO}/dfp", "-c", f"{HERE}/cxx.cpp", "-o", f"{o}/cxx.o"], HERE, log, env)))
    ldir = os.path.join(out, "locale")
    os.makedirs(ldir, exist_ok=True)
    for name, (dp, ts) in LOCALES.items():
        src = os.path.join(work, name + ".src")
        with open(src, "w") as f:
            f.write('comment_char %\nescape_char /\n')
            for cat in ("IDENTIFICATION", "CTYPE", "COLLATE", "MONETARY", "TIME", "MESSAGES", "PAPER", "NAME", "ADDRESS", "TELEPHONE", "MEASUREMENT"):
                base = "en_US"
                f.write('LC_%s\ncopy "%s"\nEND LC_%s\n' % (cat, base, cat))
            f.write('LC_NUMERIC\ndecimal_point "%s"\nthousands_sep "%s"\ngrouping %s\nEND LC_NUMERIC\n' % (dp, ts, "3;3" if ts else "-1"))
        jobs.append(("locale", run(["localedef", "--no-archive", "-c", "-f", "UTF-8", "-i", src, os.path.join(ldir, name)], work, os.path.join(work, "locale.log"), env)))
    clog = os.path.join(work, "configure.log")
    open(clog, "w").close()
    need(run([f"{REPO}/configure", f"--prefix={work}/inst"], obj, clog, env), "configure", clog)
    if not os.path.exists(f"{REPO}/libbid/bid_binarydecimal.c"):
        open(os.path.join(obj, "bid_binarydecimal.c"), "w").write("/* */\n")
    mlog = os.path.join(work, "make.log")
    open(mlog, "w").close()
    need(run(["make", f"-j{os.cpu_count() or 4}", f"CC={HERE}/simcc", "libdfp.so"], obj, mlog, env), "make libdfp.so", mlog)
    for what, p in jobs:
        if what == "locale":
            p.wait()
        else:
            need(p, what, log)
    for n in LOCALES:
        if not os.path.exists(os.path.join(ldir, n, "LC_NUMERIC")):
            sys.stderr.write("locale %s was not built\n" % n); sys.exit(3)
    so = os.path.join(obj, "libdfp.so")
    shutil.copy(so, os.path.join(out, "libdfp.so.1"))
    objs = [f"{o}/{f}.o" for f in ("engine", "gen", "main", "ctor", "hooks", "oracle", "errno", "ops", "cxx")]
    need(run(["g++", "-rdynamic", "-Wl,-z,now", "-o", f"{out}/dfpsim.tmp", *objs, f"{out}/libdfp.so.1", f"-Wl,-rpath,{out}", "-ldl", "-lpthread"], work, log, env), "link", log)
    need(run(["gcc", "-O1", "-w", "-rdynamic", "-o", f"{out}/dfpreload", f"{HERE}/reload.c", "-ldl"], work, log, env), "build dfpreload", log)
    os.rename(f"{out}/dfpsim.tmp", f"{out}/dfpsim")
    open(stamp_f, "w").write(stamp)
    return out

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(HERE), "_work")))
