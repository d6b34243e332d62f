#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--wall SECONDS]

Builds the instrumented library from /repo's working tree, searches simulated
runs with several workers, confirms every violation by replaying its file in a
fresh process, and writes evidence/PROPERTY.json.
Exit: 0 held on everything explored, 1 violated, 2 the check itself failed."""
import argparse, array, json, os, re, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild
QUICK_WALL, THOROUGH_WALL = 45.0, 600.0
KNOWN = os.path.join(HERE, "known-findings.txt")
COUNTS = ["runs", "nontrivial", "epochs", "refs", "rechecked", "mismatched", "calls", "callbacks", "switches", "stalls",
          "nests", "allocfails", "locfails", "devfaults", "threads", "modesets", "locsets"]

def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) op=(\S+) msg=/(.*)/ replay=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append({"class": m.group(2), "op": m.group(3), "msg": m.group(4), "replay": m.group(5), "what": m.group(6)})
    return out

def is_known(v, known):
    return any(v["class"] == k["class"] and re.fullmatch(k["op"], v["op"]) and re.search(k["msg"], v["msg"]) for k in known)

def replay(exe, f, timeout=90):
    try:
        p = subprocess.run([exe, "replay", f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return p.returncode, p.stdout.decode("latin-1")
    except subprocess.TimeoutExpired:
        return 97, ""

def confirm(exe, f):
    """True: same violation and same history in two fresh processes."""
    rcs = [replay(exe, f)[0] for _ in range(2)]
    if rcs == [1, 1]:
        return "exact"
    rcs.append(replay(exe, f)[0])
    if rcs.count(1) >= 2:
        return "exact"
    return "inexact" if all(r in (1, 2) for r in rcs) else None

def process_run(bind, env, args):
    """One run of a whole process: the program ARGS[0] of the build with ENV added."""
    p = subprocess.run([os.path.join(bind, args[0])] + [os.path.join(bind, x) if x.startswith("lib") else x for x in args[1:]],
                       env=dict(os.environ, **env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    return p.returncode, p.stdout.decode("latin-1")

def process_replay(bind, f):
    spec = json.loads(open(f).readline()[len("process: "):])
    rc, t = process_run(bind, spec["env"], spec["args"])
    return (1 if rc else 0), t + "exit status %d\n" % rc

def process_violation(outdir, name, env, args, rc, t, what):
    f = os.path.join(outdir, name)
    open(f, "w").write("process: %s\n# %s\n# %s\n# exit status %d\n" % (json.dumps({"env": env, "args": args}), what, t.strip().replace("\n", "\n# "), rc))
    m = re.search(r"violation: .*", t)
    return {"class": "register", "op": "register_printf_dfp", "file": f, "msg": "%s: %s" % (what, m.group(0) if m else "process died, status %d" % rc)}

def ctor_faults(bind, outdir):
    """Every allocation made while the load-time registration runs, failed one at a time."""
    res = {"runs": 0, "fired": 0, "retry_ok": 0}
    for k in range(-1, 24):
        env, args = {"DFPSIM_CTOR_FAIL": str(k)}, ["dfpsim", "ctor"]
        rc, t = process_run(bind, env, args)
        res["runs"] += 1
        if rc != 0:
            return res, process_violation(outdir, "register-ctor.replay", env, args, rc, t, "allocation %d during registration fails" % k)
        m = re.search(r"fired (\d+) retry (-?\d+)", t)
        res["fired"] += int(m.group(1)); res["retry_ok"] += m.group(2) == "0"
        if k >= 0 and m.group(1) == "0":
            break
    return res, None

def reloads(bind, outdir, seed, count):
    """Histories of loading, unloading, registering and formatting in a process of their own."""
    res = {"histories": 0, "loads": 0}
    for k in range(count):
        s = str(seed * 1000003 + k)
        args = ["dfpreload", "libdfp.so.1", s]
        rc, t = process_run(bind, {}, args)
        res["histories"] += 1
        if rc != 0:
            for n in range(1, 60):                      # the shortest history that fails
                r, u = process_run(bind, {}, args + [str(n)])
                if r:
                    args, rc, t = args + [str(n)], r, u
                    break
            return res, process_violation(outdir, "register-reload.replay", {}, args, rc, t, "loading and unloading, seed %s" % s)
        res["loads"] += int(re.search(r"loads (\d+)", t).group(1))
    return res, None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = os.environ.get("DFPSIM_WORK", os.path.join(HERE, "_work"))
    bind = simbuild.build(work)
    exe = os.path.join(bind, "dfpsim")
    if a.replay:
        rc, t = process_replay(bind, a.replay) if open(a.replay, errors="replace").readline().startswith("process: ") else replay(exe, a.replay)
        sys.stdout.write(t)
        return rc
    t_build = time.time() - t0
    wall = a.wall or (QUICK_WALL if tier == "quick" else THOROUGH_WALL)
    outdir = os.path.join(work, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    known = known_for(prop)
    stable = os.path.join(work, "replays", prop)
    os.makedirs(stable, exist_ok=True)
    nw = os.cpu_count() or 4
    tr = time.time()
    procs = [subprocess.Popen([exe, "run", "--prop", prop, "--seed", str(seed), "--worker", str(i), "--nworkers", str(nw), "--wall", str(wall),
                               "--out", f"{outdir}/w{i}"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(f"{outdir}/w{i}.err", "w"))
             for i in range(nw)]
    found, unconfirmed, known_hits, handled, ctor, rel = [], [], [], set(), None, None

    def look():
        for i in range(nw):
            f = f"{outdir}/w{i}.viol"
            if not os.path.exists(f):
                continue
            for l in open(f, errors="replace"):
                if not l.endswith("\n"):
                    continue
                try:
                    v = json.loads(l)
                except ValueError:
                    continue
                if v["file"] in handled:
                    continue
                handled.add(v["file"])
                if is_known(v, known):
                    known_hits.append(v); continue
                if any(x["class"] == v["class"] and x["op"] == v["op"] for x in found):
                    continue
                how = confirm(exe, v["file"])
                if how:
                    v["how"] = how
                    d = os.path.join(stable, "%s-%s-%d.replay" % (v["class"], re.sub(r"\W", "_", v["op"]), len(found)))
                    shutil.copy(v["file"], d); v["file"] = d
                    found.append(v)
                else:
                    unconfirmed.append(v)

    if prop == "C12":
        ctor, v = ctor_faults(bind, outdir)
        rel, w = reloads(bind, outdir, seed, 60 if tier == "quick" else 3000)
        for v in (v, w):
            if v and not is_known(v, known):
                d = os.path.join(stable, os.path.basename(v["file"])); shutil.copy(v["file"], d); v["file"] = d
                v["how"] = "exact"; found.append(v)
    deadline = tr + wall + 60
    while any(p.poll() is None for p in procs) and time.time() < deadline:
        look()
        if found and (tier == "quick" or len(found) >= 8):
            time.sleep(1.0); look()
            for p in procs:
                if p.poll() is None:
                    p.send_signal(signal.SIGTERM)
            deadline = min(deadline, time.time() + 15)
        time.sleep(0.3)
    late = [p for p in procs if p.poll() is None]
    for p in late:
        p.kill()
    for p in procs:
        p.wait()
    look()
    search = time.time() - tr
    rcs = [p.returncode for p in procs]
    tot = {c: 0 for c in COUNTS}
    inter, sigs, cov, ops, samples, secs = set(), set(), set(), set(), [], 0.0
    for i in range(nw):
        pre = f"{outdir}/w{i}"
        if not os.path.exists(pre + ".json"):
            continue
        s = json.load(open(pre + ".json"))
        for c in COUNTS:
            tot[c] += s.get(c, 0)
        secs += s["wall"]
        for st, ext, ty in ((inter, ".inter", "Q"), (sigs, ".sigs", "Q"), (cov, ".cov", "I")):
            arr = array.array(ty); arr.frombytes(open(pre + ext, "rb").read()); st.update(arr)
        ops.update(open(pre + ".ops").read().split())
        samples += [x for x in re.split(r"(?m)^(?=run \d+/)", open(pre + ".samples", errors="replace").read()) if x.strip()][:1]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(sigs),
            "rule": "one evaluation = one simulated run (a forked process executing a seeded plan of calls, preemptions, signals, mode/locale changes and injected faults); "
                    "non-trivial = the run had at least one preemption, stop, signal, injected fault, mode or locale change, stack/heap fill or a history of two calls; "
                    "distinct = different (interleaving hash, outcome hash)",
            "samples": samples[:4] or ["(no sample recorded)"],
            "simulated_runs_per_hour": round(tot["runs"] / search * 3600) if search > 0 else 0,
            "seeds_per_hour": round(tot["epochs"] / search * 3600) if search > 0 else 0,
            "epochs": tot["epochs"],
            "simulated_time": {"library_calls": tot["calls"], "instrumented_steps": tot["callbacks"],
                               "note": "the code reads no clock; simulated time is counted in instrumented steps"},
            "faults_injected": {"preemptions": tot["switches"], "threads_stopped_forever": tot["stalls"], "signals_delivered": tot["nests"],
                                "allocation_failures": tot["allocfails"], "locale_object_refusals": tot["locfails"], "device_faults": tot["devfaults"]},
            "environment_changes": {"rounding_mode_changes": tot["modesets"], "locale_changes": tot["locsets"]},
            "distinct_interleavings": len(inter), "basic_blocks_reached": len(cov), "operations_drawn": len(ops),
            "reference_runs": tot["refs"], "determinism": {"runs_repeated": tot["rechecked"], "different": tot["mismatched"]},
            "real_code": "all of libdfp.so built from /repo (instrumented with -fsanitize=thread and -fsanitize-coverage=trace-pc, without the sanitizer run time), dfp/decimal/decimal, glibc and libstdc++",
            "stubs": "malloc family, newlocale, pthread_mutex_lock/pthread_once, stream devices (cookie FILEs, streambufs), scheduler, signal source",
        },
        "assumptions": ["preemption and signal points are the memory accesses, basic blocks, function entries and exits of libdfp; libc internals run atomically",
                        "sequentially consistent memory: one simulated thread runs at a time"],
        "wall_s": round(time.time() - t0, 2), "violations": len(found),
    }
    if ctor:
        ev["coverage"]["constructor_faults"] = ctor
        ev["coverage"]["load_histories"] = rel
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = [v["msg"] for v in unconfirmed][:5]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        n = sum(1 for v in known_hits if is_known(v, [k]))
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, k["what"], n))
    print("%s %s seed %d: %d runs (%d distinct non-trivial), %d calls, %d interleavings, %d blocks; build %.0f s, search %.0f s" %
          (prop, tier, seed, tot["runs"], len(sigs), tot["calls"], len(inter), len(cov), t_build, search))
    for v in found:
        print("  %s %s: %s" % (v["class"], v["op"], v["msg"]))
        if v["how"] == "inexact":
            print("  (the violation repeats, the rest of the history varies: the code under test is not deterministic here)")
        print("VIOLATION property=%s replay=%s" % (prop, v["file"]))
    if found:
        return 1
    bad = [r for r in rcs if r not in (0, 93)]
    if bad or late:
        print("check error: worker status %s%s" % (rcs, " (late)" if late else "")); return 2
    if tot["mismatched"] or 93 in rcs:
        print("check error: %d repeated runs differed" % tot["mismatched"]); return 2
    if unconfirmed:
        print("check error: violations that do not replay: %s" % [v["msg"] for v in unconfirmed][:3]); return 2
    if not tot["runs"]:
        print("check error: no runs"); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
