#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py P01 [--tier quick|thorough] [--time S] [--seed N]
  check.py --replay FILE

Builds the simulator from /repo's current working tree, runs seeded simulated
executions on all cores, gates and minimises every violation, writes the
evidence file.  Exit 0: held on everything explored (known findings are
printed).  Exit 1: VIOLATION line.  Any other exit: the check itself failed.
"""
import argparse, fcntl, json, os, re, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "sim"))
import props  # noqa: E402

JOBS = int(os.environ.get("SIM_JOBS", "0")) or min(8, os.cpu_count() or 8)
MASK = (1 << 64) - 1


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "gen_ninja.py"), BUILD])
        if r.returncode:
            die("gen_ninja failed")
        r = subprocess.run(["ninja", "-C", BUILD] + variants, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
            die("build failed")


def binary(variant):
    return os.path.join(BUILD, "sim_" + variant)


def run_one(variant, prop, seed, tape=None, log=False):
    cmd = [binary(variant), "one", "--prop", prop, "--seed", str(seed), "--full", "1"]
    tf = None
    if tape is not None:
        tf = tempfile.NamedTemporaryFile("w", dir=BUILD, suffix=".tape", delete=False)
        tf.write(" ".join(map(str, tape)) + "\n")
        tf.close()
        cmd += ["--tape", tf.name]
    if log:
        cmd += ["--log", "1"]
    try:
        out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
    finally:
        if tf:
            os.unlink(tf.name)
    lines = out.splitlines()
    if not lines or not lines[-1].startswith("{"):
        die("simulator produced no result for seed %d" % seed)
    return json.loads(lines[-1]), lines[:-1]


class TapeServer:
    """A long-lived simulator process that runs candidate tapes."""

    def __init__(self, variant, prop, seed):
        self.p = subprocess.Popen([binary(variant), "tapes", "--prop", prop, "--seed", str(seed)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, tape):
        self.p.stdin.write((" ".join(map(str, tape)) + "\n").encode() if tape else b"0\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.wait()


def minimise(variant, prop, first, budget):
    """Greedy delta debugging on the choice tape, keeping the violation class."""
    seed, cls = first["seed"], first["cls"]
    best = first
    deadline = time.time() + budget
    servers = [TapeServer(variant, prop, seed) for _ in range(JOBS)]
    tried = 0
    seen = set()
    free = list(servers)
    lk = threading.Lock()

    def size(r):
        return (len(r["tape"]), sum(r["tape"]))

    def attempt(tape):
        with lk:
            s = free.pop()
        try:
            return s.run(tape)
        finally:
            with lk:
                free.append(s)

    pool = ThreadPoolExecutor(JOBS)

    def try_many(cands):
        """Runs candidates in groups; returns True when best improved."""
        nonlocal best, tried
        group = []
        for c in cands:
            k = hash(tuple(c))
            if k in seen:
                continue
            seen.add(k)
            group.append(c)
            if len(group) == JOBS:
                if flush(group):
                    return True
                group = []
            if time.time() > deadline:
                return False
        return flush(group)

    def flush(group):
        nonlocal best, tried
        if not group:
            return False
        rs = list(pool.map(attempt, group))
        tried += len(rs)
        ok = [r for r in rs if r["cls"] == cls and r["result"] in ("violation", "crash") and size(r) < size(best)]
        if ok:
            best = min(ok, key=size)
            return True
        return False

    def gen():
        t = best["tape"]
        n = len(t)
        for k in (0, 1, 2, 4, 8):
            yield t[: n * k // 16]
        for a, b in sorted(best["spans"], key=lambda s: s[0] - s[1]):
            if b <= n:
                yield t[:a] + t[b:]
        ch = max(1, n // 2)
        while ch >= 1:
            for i in range(0, n, ch):
                yield t[:i] + t[i + ch:]
            for i in range(0, n, ch):
                if any(t[i:i + ch]):
                    yield t[:i] + [0] * len(t[i:i + ch]) + t[i + ch:]
            if ch == 1:
                break
            ch //= 2
        for i in range(n):
            if t[i]:
                for v in (0, 1, t[i] // 2, t[i] - 1):
                    if v < t[i]:
                        yield t[:i] + [v] + t[i + 1:]

    while time.time() < deadline and try_many(gen()):
        pass
    pool.shutdown()
    for s in servers:
        s.close()
    return best, tried


def known_findings():
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                r.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return r


def load_set(paths):
    s = set()
    for p in paths:
        try:
            b = open(p, "rb").read()
        except OSError:
            continue
        s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        os.unlink(p)
    return s


def batch(prop, variant, seed, secs, tmp):
    procs, outs = [], []
    for w in range(JOBS):
        out = os.path.join(tmp, "%s.%s.%d" % (prop, variant, w))
        outs.append(out)
        procs.append(subprocess.Popen(
            [binary(variant), "batch", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--stride", str(JOBS),
             "--time", str(secs), "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    for p in procs:
        err = p.communicate()[1]
        if p.returncode:
            die("worker failed: rc=%s %s" % (p.returncode, err.decode(errors="replace")[-500:]))
    tot, runs = None, []
    for o in outs:
        for line in open(o, errors="replace"):
            j = json.loads(line)
            if j["t"] == "run":
                j["variant"] = variant
                runs.append(j)
            else:
                if tot is None:
                    tot = j
                else:
                    for k, v in j.items():
                        if isinstance(v, (int, float)) and k != "wall":
                            tot[k] += v
                    for k, v in j["counters"].items():
                        tot["counters"][k] = tot["counters"].get(k, 0) + v
                    tot["wall"] = max(tot["wall"], j["wall"])
        os.unlink(o)
    sets = {k: load_set([o + "." + k for o in outs]) for k in ("hist", "states", "inter")}
    return tot, runs, sets


def check(prop, tier, seed, secs):
    t0 = time.time()
    meta = props.PROPS[prop]
    variants = meta["variants"]
    build(variants)
    t_build = time.time() - t0
    if secs is None:
        secs = meta.get("quick_s", 35) if tier == "quick" else meta.get("thorough_s", 420)
    tmp = tempfile.mkdtemp(prefix="run.", dir=BUILD)
    tots, runs = {}, []
    hist, states, inter = set(), set(), set()
    for v in variants:
        share = secs / len(variants)
        tot, rs, sets = batch(prop, v, seed, share, tmp)
        tots[v] = tot
        runs += rs
        hist |= {(v, h) for h in sets["hist"]}
        states |= sets["states"]
        inter |= {(v, h) for h in sets["inter"]}
    os.rmdir(tmp)

    # Samples and a determinism recheck on this very run's seeds.
    samples, recheck = [], []
    hangs = any(r.get("cls") == "hang" for r in runs)  # each such execution takes the whole CPU limit of a run
    base_seeds = [first_seed(seed, prop, i) for i in range(1 if hangs else 4)]
    for s in base_seeds:
        a, log = run_one(variants[0], prop, s, log=True)
        b, _ = run_one(variants[0], prop, s)
        recheck.append(a["log_hash"] == b["log_hash"] and a["result"] == b["result"])
        if len(samples) < 2:
            samples.append({"run_seed": s, "result": a["result"], "log_hash": a["log_hash"], "log": [l[:160] for l in log[:14]]})

    bad = [r for r in runs if r["result"] in ("violation", "crash")]
    harness = [r for r in runs if r["result"] == "harness"]
    known = [k for k in known_findings() if k[0] == prop]
    reported, known_hit, nonrep = [], {}, []
    classes = {}
    for r in bad:
        for _, rx, text in known:
            if rx.search(r["cls"] + ": " + r["msg"]):
                known_hit[text] = known_hit.get(text, 0) + 1
                break
        else:
            classes.setdefault((r["variant"], r["cls"]), []).append(r)
    for (v, cls), rs in sorted(classes.items(), key=lambda kv: -len(kv[1]))[:3]:
        rs.sort(key=lambda r: len(r["tape"]))
        done = False
        for r in rs[:3]:
            a, _ = run_one(v, prop, r["seed"])
            b = a if cls == "hang" else run_one(v, prop, r["seed"], tape=r["tape"])[0]
            if not (a["cls"] == b["cls"] == cls and a["log_hash"] == b["log_hash"] == r["log_hash"]):
                nonrep.append((cls, r["seed"]))
                continue
            budget = 0 if cls == "hang" else (25 if tier == "quick" else 90)
            m, tried = minimise(v, prop, dict(r), budget) if budget else (r, 0)
            f1, log = run_one(v, prop, r["seed"], tape=m["tape"], log=True)
            f2 = f1 if cls == "hang" else run_one(v, prop, r["seed"], tape=m["tape"])[0]
            if not (f1["cls"] == f2["cls"] == cls and f1["log_hash"] == f2["log_hash"]):
                m = r
                f1, log = run_one(v, prop, r["seed"], tape=m["tape"], log=True)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, re.sub(r"[^A-Za-z0-9_-]", "_", cls), r["seed"]))
            json.dump({"property": prop, "variant": v, "run_seed": r["seed"], "verif_seed": seed, "class": cls,
                       "message": f1["msg"], "log_hash": f1["log_hash"], "tape": m["tape"],
                       "original_tape_len": len(r["tape"]), "minimise_attempts": tried,
                       "trace": log[-400:]}, open(path, "w"), indent=1)
            reported.append((cls, f1["msg"], path, len(r["tape"]), len(m["tape"])))
            done = True
            break
        if not done:
            print("note: violation class %s did not reproduce" % cls)

    wall = time.time() - t0
    tot_runs = sum(t["runs"] for t in tots.values())
    nontriv = sum(t["nontrivial"] for t in tots.values())
    counters = {}
    for t in tots.values():
        for k, c in t["counters"].items():
            counters[k] = counters.get(k, 0) + c
    search_wall = sum(t["wall"] for t in tots.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot_runs,
            "distinct_nontrivial": len(hist),
            "rule": meta["rule"] + " One evaluation is one simulated run in its own process, a pure function of its run seed. "
                    "distinct_nontrivial counts runs flagged non-trivial by the scenario with pairwise different event-log hashes.",
            "samples": samples,
            "nontrivial_runs": nontriv,
            "runs_per_hour": round(tot_runs / max(search_wall, 1e-9) * 3600),
            "seeds_per_hour": round(tot_runs / max(search_wall, 1e-9) * 3600),
            "simulated_time_s": round(sum(t["sim_us"] for t in tots.values()) / 1e6, 3),
            "choices_drawn": sum(t["draws"] for t in tots.values()),
            "log_events": sum(t["log_lines"] for t in tots.values()),
            "task_switches": sum(t["switches"] for t in tots.values()),
            "distinct_interleavings": len(inter),
            "distinct_interleavings_measure": "hash of the sequence (task resumed, simulated time, instrumented steps taken) of a run",
            "distinct_abstract_states": len(states),
            "distinct_abstract_states_measure": meta.get("state_measure", "scenario-defined hash of the abstract state after each operation"),
            "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")},
            "probes": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault:")},
            "real_components": meta["real"],
            "stub_components": meta["stub"],
            "variants": {v: {"runs": t["runs"], "wall_s": round(t["wall"], 2)} for v, t in tots.items()},
            "workers": JOBS,
            "same_seed_rechecks": {"seeds": len(recheck), "identical": sum(recheck)},
            "known_finding_hits": known_hit,
            "build_s": round(t_build, 1),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for _, _, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s: %d runs (%d distinct non-trivial), %.1f runs/s, faults %s" % (
        prop, tot_runs, len(hist), tot_runs / max(search_wall, 1e-9),
        json.dumps(ev["coverage"]["faults_injected"])))
    if reported:
        for cls, msg, path, n0, n1 in reported:
            print("class=%s tape %d -> %d: %s" % (cls, n0, n1, msg.splitlines()[0][:300] if msg else ""))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        sys.exit(1)
    if nonrep:
        die("violations that do not replay: %s" % nonrep[:5])
    if harness:
        die("harness errors: %s" % [(r["cls"], r["msg"], r["seed"]) for r in harness[:3]])
    if not all(recheck):
        die("same seed gave different runs")
    sys.exit(0)


def first_seed(base, prop, i):
    """Run seeds are computed by the simulator; ask it."""
    out = subprocess.run([binary(props.PROPS[prop]["variants"][0]), "seedof", "--prop", prop, "--seed", str(base),
                          "--start", str(i)], stdout=subprocess.PIPE).stdout
    return int(out)


def replay(path):
    j = json.load(open(path))
    build([j["variant"]])
    r, log = run_one(j["variant"], j["property"], j["run_seed"], tape=j["tape"], log=True)
    print("\n".join(log))
    same = r["cls"] == j["class"] and r["log_hash"] == j["log_hash"]
    print("class=%s msg=%s" % (r["cls"], r["msg"]))
    print("log_hash=%s recorded=%s" % (r["log_hash"], j["log_hash"]))
    if r["result"] in ("violation", "crash") and same:
        print("reproduced exactly")
        print("VIOLATION property=%s replay=%s" % (j["property"], path))
        sys.exit(1)
    if r["result"] in ("violation", "crash"):
        print("reproduced with a different trace")
        sys.exit(1)
    print("not reproduced")
    sys.exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--time", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.build_only:
        build(["asan", "sched"])
        return
    if a.replay:
        replay(a.replay)
    if a.prop not in props.PROPS:
        die("unknown property %r" % a.prop)
    check(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed, a.time)


if __name__ == "__main__":
    main()
