#!/usr/bin/env python3
"""Deterministic simulation checks for jnz/q3vm.

  check.py --prop S01 [--tier quick|thorough]   run the seeded search for one property
  check.py --replay FILE                        reproduce a replay file
  check.py --build                              build every simulator

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check itself could not be carried out.
"""
import argparse, fcntl, glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
WORKERS = 8
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, BACKENDS  # noqa: E402


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(backend):
    h = hashlib.sha256()
    files = []
    for pat in BACKENDS[backend]["sources"]:
        files += glob.glob(pat.replace("$REPO", REPO).replace("$HERE", HERE), recursive=True)
    for f in sorted(set(files)):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def build(backend):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, backend + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = os.path.join(BUILD, "%s-%s" % (backend, tree_hash(backend)))
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out
        for old in sorted(glob.glob(os.path.join(BUILD, backend + "-*")), key=os.path.getmtime)[:-2]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        r = subprocess.run([os.path.join(HERE, BACKENDS[backend]["build"]), tmp], env=dict(os.environ, VERIF_REPO=REPO),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            print(r.stdout[-3000:])
            die("cannot build the simulator from " + REPO)
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


def sim(bdir, backend, *args):
    return [os.path.join(bdir, BACKENDS[backend]["exe"]), "--build", bdir] + [str(a) for a in args]


def read_replay_outcome(bdir, backend, path, timeout=120):
    """(kind, text, hash): kind is None when the replay ends without a violation."""
    with open(path) as f:
        rep = json.load(f)
    if rep.get("seeded"):  # a run that takes the simulator down with it is replayed from its seed
        cmd = sim(bdir, backend, "--prop", rep["property"], "--seed", rep["seed"], "--from", rep["run"], "--to", rep["run"] + 1,
                  "--step", 1, "--fail", path + ".fail")
    else:
        cmd = sim(bdir, backend, "--replay", path)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return ("no end", "the run does not end", "")
    if r.returncode < 0:
        return ("crash", "the simulated process died with signal %d" % -r.returncode, "")
    if rep.get("seeded"):
        if r.returncode == 10:
            return ("violation", r.stderr.strip()[-500:], "")
        return (None, r.stdout[-500:], "")
    h = ""
    for line in r.stdout.splitlines():
        if line.startswith("hash "):
            h = line[5:].strip()
    if r.returncode == 1:
        i = r.stdout.find("violation ")
        return (rep["violation"]["kind"], r.stdout[i:].strip(), h)
    if r.returncode == 0:
        return (None, "", h)
    return ("error", (r.stdout + r.stderr)[-500:], h)


def run_check(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    backend = P["backend"]
    bdir = build(backend)
    tb = time.time() - t0
    runs = P["runs"][tier]
    cap = P["cap"][tier]
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run_in(prop, tier, seed, P, backend, bdir, runs, cap, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_in(prop, tier, seed, P, backend, bdir, runs, cap, work, t0, tb):
    ts = time.time()
    procs = []
    for w in range(WORKERS):
        f = lambda n: os.path.join(work, "%s.%d" % (n, w))
        cmd = sim(bdir, backend, "--prop", prop, "--seed", seed, "--from", w, "--to", runs, "--step", WORKERS, "--cap", cap,
                  "--fail", f("fail"), "--stats", f("stats"), "--progress", f("progress"))
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f("err"), "w"), cwd=work))
    fails = []  # (run, kind, worker)
    deadline = ts + cap + 90
    pending = set(range(WORKERS))
    lastprog = {w: (0, time.time()) for w in pending}
    while pending:
        time.sleep(0.05)
        now = time.time()
        for w in sorted(pending):
            rc = procs[w].poll()
            pr = 0
            try:
                with open(os.path.join(work, "progress.%d" % w), "rb") as fh:
                    pr = struct.unpack("<Q", fh.read(8))[0]
            except (OSError, struct.error):
                pass
            if rc is None:
                if pr != lastprog[w][0]:
                    lastprog[w] = (pr, now)
                if now - lastprog[w][1] > 60 or now > deadline:
                    procs[w].kill()
                    procs[w].wait()
                    fails.append((pr - 1, "hang", w))
                    pending.discard(w)
                continue
            pending.discard(w)
            if rc == 10:
                fails.append((pr - 1, "violation", w))
            elif rc < 0:
                fails.append((pr - 1, "crash", w))
            elif rc != 0:
                with open(os.path.join(work, "err.%d" % w)) as fh:
                    die("worker %d ended with %d: %s" % (w, rc, fh.read()[-1500:]))
        if fails and now - ts > cap:  # the others cannot find a smaller run any more
            pass
    wall = time.time() - ts
    stats = gather(work, P)
    status = 0
    lines = []
    if fails:
        status = report(prop, seed, tier, backend, bdir, work, sorted(fails)[0], lines)
    evidence(prop, tier, seed, P, stats, wall, time.time() - t0, tb, backend, bdir, runs, 1 if status == 1 else 0)
    for l in known_findings(prop, bdir, backend):
        print(l)
    for l in lines:
        print(l)
    print("%s %s: %d runs (%d distinct, non-trivial) in %.1f s, %s" % (prop, tier, stats["done"], stats["distinct"], wall,
          "violation" if status == 1 else "held" if status == 0 else "check failed"))
    return status


def report(prop, seed, tier, backend, bdir, work, fail, lines):
    run, how, w = fail
    out = os.path.join(EVID, "replay-%s-%d-%d.json" % (prop, seed, run))
    raw = os.path.join(work, "fail.%d" % w)
    if how == "violation" and os.path.exists(raw):
        mini = os.path.join(work, "mini.json")
        try:
            r = subprocess.run(sim(bdir, backend, "--minimise", raw, "--out", mini, "--limit", 20 if tier == "quick" else 90, "--seed", seed, "--run", run),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
            ok = r.returncode == 0 and os.path.exists(mini)
        except subprocess.TimeoutExpired:
            ok = False
        for cand in ([mini] if ok else []) + [raw]:
            a = read_replay_outcome(bdir, backend, cand)
            b = read_replay_outcome(bdir, backend, cand)
            if a[0] and a == b and a[0] != "error":
                shutil.copyfile(cand, out)
                lines.append("run %d of seed %d: %s" % (run, seed, a[1]))
                lines.append("VIOLATION property=%s replay=%s" % (prop, out))
                return 1
    # the run took the simulator down: repeat it alone
    with open(out, "w") as f:
        json.dump({"tool": BACKENDS[backend]["exe"], "property": prop, "seed": seed, "run": run, "seeded": True, "violation": {"kind": how}}, f, indent=1)
    a = read_replay_outcome(bdir, backend, out)
    b = read_replay_outcome(bdir, backend, out)
    if a[0] and b[0] and a[0] == b[0]:
        lines.append("run %d of seed %d: %s" % (run, seed, a[1]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, out))
        return 1
    lines.append("ERROR: run %d of seed %d (%s) did not repeat: %s / %s" % (run, seed, how, a, b))
    return 2


def gather(work, P):
    tot, ors = {}, P.get("or", ())
    sets = {"traces": set(), "scheds": set()}
    guards = None
    for w in range(WORKERS):
        p = os.path.join(work, "stats.%d" % w)
        if not os.path.exists(p):
            continue
        with open(p) as f:
            d = json.load(f)
        for k, v in d.items():
            if k in ("opSeen", "branchTaken"):
                tot[k] = tot.get(k, 0) | v
            elif k in ("maxNest", "guardsTotal", "maxProcs"):
                tot[k] = max(tot.get(k, 0), v)
            elif isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for n in sets:
            q = p + "." + n
            if os.path.exists(q):
                with open(q, "rb") as f:
                    b = f.read()
                sets[n].update(struct.unpack("<%dQ" % (len(b) // 8), b))
        q = p + ".guards"
        if os.path.exists(q):
            with open(q, "rb") as f:
                b = f.read()
            guards = b if guards is None else bytes(x | y for x, y in zip(guards, b))
    return {"tot": tot, "done": int(tot.get("done", 0)), "distinct": len(sets["traces"]), "scheds": len(sets["scheds"]),
            "guards": sum(1 for x in (guards or b"")[1:] if x)}


def known_findings(prop, bdir, backend):
    """Listed findings that the tree still shows: 'finding: property=S13 [name] text'; the simulator runs the demonstration called name."""
    res = []
    shown = []
    if PROPS[prop].get("known"):
        try:
            shown = subprocess.run(sim(bdir, backend, "--known", prop), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout.split()
        except subprocess.TimeoutExpired:
            pass
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                if l.startswith("finding: property=%s [" % prop) and l[l.index("[") + 1:l.index("]")] in shown:
                    res.append("KNOWN-FINDING: " + l[len("finding: "):].strip())
    return res


def evidence(prop, tier, seed, P, stats, wall, total, tb, backend, bdir, runs, viol):
    t = stats["tot"]
    samples = []
    for k in (0, 1, 2):
        try:
            r = subprocess.run(sim(bdir, backend, "--prop", prop, "--seed", seed, "--from", k, "--show", 14), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, errors="replace", timeout=60)
            samples.append([l[:220] for l in r.stdout.splitlines()][:40])
        except subprocess.TimeoutExpired:
            samples.append(["(run %d does not end)" % k])
    cov = {
        "evaluations": stats["done"],
        "distinct_nontrivial": stats["distinct"],
        "rule": P["rule"],
        "samples": samples,
        "runs_requested": runs,
        "simulated_runs_per_hour": int(stats["done"] / max(wall, 0.001) * 3600),
        "seeds_per_hour": int(stats["done"] / max(wall, 0.001) * 3600),
        "seed_derivation": "run k of the check uses the seed mix(VERIF_SEED*1000003+17, k)",
        "simulated_time": {k: t[v] for k, v in P["time"].items() if v in t},
        "faults_injected": {k: t[v] for k, v in P["faults"].items() if v in t},
        "observed": {k: t[v] for k, v in P["observed"].items() if v in t},
        "distinct_interleavings": stats["scheds"] if stats["scheds"] else None,
        "distinct_states_measure": P["states"],
        "code_edges_reached": stats["guards"] or None,
        "code_edges_total": t.get("guardsTotal") or None,
        "real_components": P["real"],
        "stubbed_components": P["stub"],
        "build_s": round(tb, 1),
        "search_s": round(wall, 1),
    }
    if "opSeen" in t and t["opSeen"]:
        cov["instructions_executed_of_60"] = bin(t["opSeen"]).count("1")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {k: v for k, v in cov.items() if v is not None},
          "assumptions": P["assumptions"], "wall_s": round(total, 1), "violations": viol}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build:
        for b in BACKENDS:
            print(build(b))
        return 0
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        backend = PROPS[rep["property"]]["backend"]
        r = read_replay_outcome(build(backend), backend, a.replay)
        print(r[1] or "no violation")
        if r[0] and r[0] != "error":
            print("VIOLATION property=%s replay=%s" % (rep["property"], a.replay))
            return 1
        return 2 if r[0] else 0
    seed = a.seed
    if seed is None:
        s = os.environ.get("VERIF_SEED", "1")
        seed = int(s) if s.lstrip("-").isdigit() else int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    return run_check(a.prop, tier, abs(seed))


if __name__ == "__main__":
    sys.exit(main())
