#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property by seeded search.

    check.py <property> [quick|thorough]     exit 0: held; 1: VIOLATION; 2 or 3: error of the check
    check.py replay <file>                   re-runs a recorded violation
    check.py setup                           builds everything once

Tier and seed also come from VERIF_TIER and VERIF_SEED.
"""
import json, os, subprocess, sys, time, tempfile, shutil, struct

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, CONFIGS, REAL, STUB  # noqa: E402

TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
WORKERS = 8
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def binary(cfg):
    return os.path.join(TARGET, cfg, CONFIGS[cfg]["profile"], "imapsim")


def build(cfgs):
    procs = []
    for c in cfgs:
        k = CONFIGS[c]
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", os.path.join(TARGET, c)]
        if k["features"]:
            cmd += ["--features", k["features"]]
        if k["profile"] == "release":
            cmd += ["--release"]
        procs.append((c, subprocess.Popen(cmd, cwd=os.path.join(HERE, "sim"), env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    ok = True
    for c, p in procs:
        _, err = p.communicate()
        if p.returncode != 0:
            ok = False
            log(f"build of configuration {c} failed:\n" + err.decode(errors="replace")[-6000:])
    if not ok:
        print("ERROR: the simulator does not build against /repo")
        sys.exit(2)


def die(msg, code=3):
    print("ERROR:", msg)
    sys.exit(code)


# ---------------------------------------------------------------------------------------------------------------------


def exec_tape(cfg, prop, tape, extra, tmp, trace=True):
    """Runs one tape in a fresh process. Returns (kind, class, result)."""
    f = os.path.join(tmp, "tape.json")
    with open(f, "w") as h:
        json.dump({"tape": tape}, h)
    cmd = [binary(cfg), "exec", "--prop", prop, "--tape", f, "--mem-gb", "4"] + extra
    if not trace:
        cmd.append("--no-trace")
    return classify(subprocess.run(cmd, capture_output=True, env=ENV))


def classify(p):
    err = p.stderr.decode(errors="replace")
    if p.returncode in (0, 1):
        r = json.loads(p.stdout)
        v = r.get("violation")
        return ("ok", None, r) if not v else ("violation", v["class"], r)
    if p.returncode == 86:
        return "dead", "hang: a call did not return in time", {}
    if p.returncode == 3:
        return "harness", err + p.stdout.decode(errors="replace"), {}
    why = "stack overflow" if "overflowed its stack" in err else "out of memory" if "memory allocation of" in err else f"signal {-p.returncode}"
    return "dead", "abort: " + why, {}


def dead_run(cfg, prop, seed, index, extra, tmp, offset):
    """A worker died. Reproduce it alone, with the tape written through to a file, and minimise it with one process per attempt."""
    lf = os.path.join(tmp, "tape.log")
    p = subprocess.run([binary(cfg), "exec", "--prop", prop, "--seed", str(seed), "--index", str(index), "--log", lf, "--no-trace", "--mem-gb", "4"] + extra, capture_output=True, env=ENV)
    kind, cls, _ = classify(p)
    if kind != "dead":
        return history(cfg, prop, seed, index, extra, offset) or die(f"a worker died at run {index}, but does not when the runs are repeated")
    raw = open(lf, "rb").read()
    best = list(struct.unpack("<%dQ" % (len(raw) // 8), raw[: len(raw) // 8 * 8]))
    ex = [e for e in extra]
    if cls.startswith("hang"):
        ex += ["--hang-secs", "5"]
    deadline = time.time() + 60

    def fails(t):
        k, c, _ = exec_tape(cfg, prop, t, ex, tmp, trace=False)
        return k == "dead" and c == cls

    tries = 0
    for span in [len(best) // 2, len(best) // 4, 64, 16, 4, 1]:
        i = 0
        while span and i < len(best) and time.time() < deadline:
            t = best[:i] + best[i + span:]
            tries += 1
            if fails(t):
                best = t
            else:
                i += span
    i = 0
    while i < len(best) and time.time() < deadline:
        if best[i]:
            t = best[:]
            t[i] = 0
            tries += 1
            if fails(t):
                best = t
        i += 1
    return {"prop": prop, "index": index, "base_seed": seed, "class": cls, "detail": f"the process does not survive: {cls}", "tape": best, "shrink_attempts": tries, "trace": None, "trace_hash": None, "faults": {}}


def history_once(cfg, prop, seed, h, extra):
    """A series of runs in one fresh process. Returns (class, violation) of the first that fails, or (None, None)."""
    p = subprocess.run([binary(cfg), "run", "--prop", prop, "--seed", str(seed), "--from", str(h["from"]), "--stride", str(h["stride"]), "--count", str(h["count"]), "--shrink-secs", "0", "--mem-gb", "4"] + extra, capture_output=True, env=ENV)
    if p.returncode == 0:
        v = json.loads(p.stdout).get("violation")
        return (v["class"], v) if v else (None, None)
    kind, cls, _ = classify(p)
    return (cls, {"class": cls, "detail": f"the process does not survive: {cls}"}) if kind == "dead" else (None, None)


def history(cfg, prop, seed, index, extra, offset):
    """A run fails only behind other runs of its process: the code under test keeps something. The replay is then the shortest series of runs that fails."""
    before = (index - offset) // WORKERS
    n = 0
    while True:
        n = min(n, before)
        h = {"from": index - n * WORKERS, "stride": WORKERS, "count": n + 1}
        cls, v = history_once(cfg, prop, seed, h, extra)
        if cls:
            again, _ = history_once(cfg, prop, seed, h, extra)
            if again == cls:
                return {"prop": prop, "index": index, "base_seed": seed, "class": cls, "detail": f"{v['detail']} (only in a process that has done {n} other runs: it depends on history)", "tape": [], "history": h, "shrink_attempts": 0, "trace": None, "trace_hash": None, "faults": {}}
        if n == before:
            return None
        n = n * 2 or 1


def report(prop, cfg, v, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{cfg}-{v['base_seed']}-{v['index']}.json")
    v = dict(v, property=prop, config=cfg, extra=extra, how=f"python3 {HERE}/check.py replay {path}")
    with open(path, "w") as h:
        json.dump(v, h, indent=1)
    print(f"{prop} [{cfg}] run {v['index']} (seed {v['base_seed']}): {v['class']}")
    print("  " + str(v["detail"])[:2000])
    print(f"  minimised to {len(v['tape'])} choices in {v['shrink_attempts']} attempts; faults in the minimised run: {v.get('faults')}")
    for line in (v.get("trace") or [])[:40]:
        print("    " + line[:600])
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def search(prop, cfg, runs, secs, seed, extra, tmp, offset):
    """Runs `runs` seeds over all workers. Returns (stats, violation or None)."""
    procs = []
    per = (runs + WORKERS - 1) // WORKERS
    for w in range(WORKERS):
        st = os.path.join(tmp, f"{cfg}.status{w}")
        cmd = [binary(cfg), "run", "--prop", prop, "--seed", str(seed), "--from", str(offset + w), "--stride", str(WORKERS), "--count", str(per), "--secs", str(secs),
               "--status", st, "--sets", os.path.join(tmp, f"{cfg}.{w}"), "--mem-gb", "4"] + extra
        out = open(os.path.join(tmp, f"{cfg}.out{w}"), "wb")
        procs.append((w, st, subprocess.Popen(cmd, stdout=out, stderr=subprocess.PIPE, env=ENV)))
    total = {"runs": 0, "nontrivial": 0, "sim_us": 0, "steps": 0, "faults": {}, "probes": {}, "samples": []}
    found, dead = [], []
    for w, st, p in procs:
        _, err = p.communicate()
        if p.returncode == 3:
            die("harness error: " + open(os.path.join(tmp, f"{cfg}.out{w}")).read() + err.decode(errors="replace"))
        if p.returncode != 0:
            dead.append((w, int(open(st).read().strip()), err.decode(errors="replace")[-500:]))
            continue
        r = json.load(open(os.path.join(tmp, f"{cfg}.out{w}")))
        for k in ("runs", "nontrivial", "sim_us", "steps"):
            total[k] += r[k]
        for k in ("faults", "probes"):
            for n, c in r[k].items():
                total[k][n] = total[k].get(n, 0) + c
        total["samples"] += r["samples"]
        if r.get("violation"):
            found.append(r["violation"])
    total["dead"] = dead
    if found:
        # The same choice every time, whatever the timing of the workers.
        found.sort(key=lambda v: (len(v["tape"]), v["index"]))
        return total, found[0]
    if dead:
        dead.sort(key=lambda d: d[1])
        total["runs"] += 1
        return total, dead_run(cfg, prop, seed, dead[0][1], extra, tmp, offset)
    return total, None


def distinct(tmp, cfgs, name):
    seen = set()
    for c in cfgs:
        for w in range(WORKERS):
            f = os.path.join(tmp, f"{c}.{w}.{name}")
            if os.path.exists(f):
                b = open(f, "rb").read()
                seen.update((c if name == "states" else "", x) for x in struct.unpack("<%dQ" % (len(b) // 8), b))
    return len(seen)


def determinism(prop, cfg, seed, n, extra):
    """The event logs of the same seeds, in different processes, side by side."""
    ps = [subprocess.Popen([binary(cfg), "digest", "--prop", prop, "--seed", str(seed), "--from", "0", "--count", str(n), "--mem-gb", "4"] + extra, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV) for _ in range(3)]
    # One more process that starts in the middle: a run must not depend on the runs before it.
    ps.append(subprocess.Popen([binary(cfg), "digest", "--prop", prop, "--seed", str(seed), "--from", str(n // 2), "--count", str(n - n // 2), "--mem-gb", "4"] + extra, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV))
    outs = [p.communicate()[0].decode().splitlines() for p in ps]
    full = outs[0]
    same = all(o == full for o in outs[1:3]) and outs[3] == full[n // 2:] and len(full) == n
    return same, full, outs


def known_findings(prop, cfgs):
    """Prints the recorded findings that are still there; returns them."""
    path = os.path.join(HERE, "known_findings.json")
    entries = [e for e in json.load(open(path))["known"] if e["property"] == prop]
    ids = {e["id"]: e for e in entries}
    lines = []
    for c in cfgs:
        if not ids or c == "miri":
            continue
        p = subprocess.run([binary(c), "findings", "--prop", prop], capture_output=True, env=ENV)
        if p.returncode != 0:
            die("findings: " + p.stderr.decode(errors="replace"))
        for f in json.loads(p.stdout):
            e = ids.get(f["id"])
            if e and f["present"] and f["id"] not in [x[0] for x in lines]:
                lines.append((f["id"], f"KNOWN-FINDING: property={prop} {e['what']}"))
    for _, text in lines:
        print(text)
    return [x[0] for x in lines]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    cfgs = plan["configs"]
    build(list(cfgs))
    built = time.time()
    extra = plan.get("extra", [])
    tmp = tempfile.mkdtemp(prefix="imapsim.")
    try:
        known = known_findings(prop, cfgs)
        runs = plan["runs"][tier]
        cap = plan.get("cap", {}).get(tier, 150 if tier == "quick" else 3000)
        agg = {"runs": 0, "nontrivial": 0, "sim_us": 0, "steps": 0, "faults": {}, "probes": {}, "samples": []}
        per_cfg, violation, vcfg = {}, None, None
        share = sum(cfgs.values())
        for c, weight in cfgs.items():
            s0 = time.time()
            st, v = search(prop, c, runs * weight // share, max(10, cap * weight // share), seed, extra, tmp, 10**9 * list(CONFIGS).index(c))
            per_cfg[c] = {"runs": st["runs"], "wall_s": round(time.time() - s0, 2), "features": CONFIGS[c]["features"], "profile": CONFIGS[c]["profile"]}
            for k in ("runs", "nontrivial", "sim_us", "steps"):
                agg[k] += st[k]
            for k in ("faults", "probes"):
                for n, x in st[k].items():
                    agg[k][n] = agg[k].get(n, 0) + x
            agg["samples"] += st["samples"][:2]
            if v:
                violation, vcfg = v, c
                break
        searched = time.time()
        det = None
        if not violation:
            n = 40 if tier == "quick" else 400
            det = {}
            for c in cfgs:
                same, full, outs = determinism(prop, c, seed, n, extra)
                det[c] = {"seeds": n, "processes": 4, "identical": same}
                if not same:
                    diff = [(i, [o[i] if i < len(o) else None for o in outs[:3]]) for i in range(n) if len({o[i] if i < len(o) else None for o in outs[:3]}) > 1]
                    # The simulator is deterministic; so it is the code under test that is not.
                    if plan.get("determinism_is_property"):
                        i = diff[0][0] if diff else n // 2
                        violation = {"prop": prop, "index": i, "base_seed": seed, "class": "determinism: the same run behaves differently in another process", "detail": str(diff[:2]), "tape": [], "shrink_attempts": 0, "trace": None, "trace_hash": None, "side_by_side": n}
                        vcfg = c
                    else:
                        die(f"runs are not repeatable in configuration {c}: {diff[:2]}")
        else:
            # A fresh process must reproduce it exactly.
            k, c, r = exec_tape(vcfg, prop, violation["tape"], extra, tmp) if not violation.get("history") else (None, violation["class"], {})
            if c != violation["class"] or (violation["trace_hash"] and r.get("trace_hash") != violation["trace_hash"]):
                was = violation["class"]
                violation = history(vcfg, prop, seed, violation["index"], extra, 10**9 * list(CONFIGS).index(vcfg))
                if not violation:
                    die(f"the violation does not replay: {was} vs {k} {c}")
        threads = None
        if plan.get("miri") and not violation:
            import miri_check
            try:
                threads, violation = miri_check.explore(prop, plan["miri"], tier, seed)
            except miri_check.BuildError as e:
                log(str(e))
                die("the thread simulation does not build against /repo", 2)
            vcfg = "miri"
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": agg["runs"],
                "distinct_nontrivial": distinct(tmp, cfgs, "sigs"),
                "rule": plan["rule"],
                "samples": [s for s in agg["samples"]][:6] or ["(none)"],
                "nontrivial_runs": agg["nontrivial"],
                "distinct_states": distinct(tmp, cfgs, "states"),
                "state_measure": plan["states"],
                "runs_per_hour": int(agg["runs"] / max(searched - built, 0.001) * 3600),
                "simulated_hours": round(agg["sim_us"] / 3.6e9, 3),
                "simulation_steps": agg["steps"],
                "faults_injected": agg["faults"],
                "probes": agg["probes"],
                "configurations": per_cfg,
                "determinism": det,
                "known_findings_present": known,
                "real_code": REAL, "stubs": plan.get("stub", STUB),
                "build_s": round(built - t0, 1),
            },
            "assumptions": plan.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": 1 if violation else 0,
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{prop}.json"), "w") as h:
            json.dump(ev, h, indent=1)
        if threads:
            ev["coverage"]["threads"] = threads
            ev["coverage"]["evaluations"] += threads["runs"]
            ev["coverage"]["distinct_nontrivial"] += threads["distinct_interleavings"]
            with open(os.path.join(EVID, f"{prop}.json"), "w") as h:
                json.dump(ev, h, indent=1)
        if violation:
            report(prop, vcfg, violation, extra)
            return 1
        missing = [p for p in plan.get("must_reach", []) if not (agg["probes"].get(p) or agg["faults"].get(p))]
        if missing:
            log(f"note: not reached in this run: {missing}")
        print(f"OK property={prop} tier={tier} seed={seed}: {agg['runs']} runs, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, {ev['coverage']['distinct_states']} states, {sum(agg['faults'].values())} faults, {wall:.0f} s")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    if v.get("driver") == "miri":
        import miri_check
        bad = miri_check.replay(v)
        if bad:
            print(f"VIOLATION property={v['property']} replay={path}")
        return 1 if bad else 0
    build([v["config"]])
    tmp = tempfile.mkdtemp(prefix="imapsim.")
    try:
        if v.get("side_by_side"):
            same, _, _ = determinism(v["property"], v["config"], v["base_seed"], v["side_by_side"], v.get("extra", []))
            print("the runs are the same in every process" if same else f"VIOLATION property={v['property']} replay={path}")
            return 0 if same else 1
        if v.get("history"):
            c, _ = history_once(v["config"], v["property"], v["base_seed"], v["history"], v.get("extra", []))
            print(f"recorded: {v['class']}\nreplayed: {c}")
            if c == v["class"]:
                print(f"VIOLATION property={v['property']} replay={path}")
                return 1
            return 0
        k, c, r = exec_tape(v["config"], v["property"], v["tape"], v.get("extra", []), tmp)
        for line in r.get("trace") or []:
            print(line)
        print(f"recorded: {v['class']}\nreplayed: {k} {c}")
        if c == v["class"]:
            same = v["trace_hash"] is None or v["trace_hash"] == r.get("trace_hash")
            print("detail:", (r.get("violation") or {}).get("detail"))
            print("event log identical to the recorded one" if same else "event log differs from the recorded one (the code has changed)")
            print(f"VIOLATION property={v['property']} replay={path}")
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        build([c for c in CONFIGS])
        import miri_check
        miri_check.one(["tags", 1, 1, 1], False, "0.1", 0)
        return 0
    if a[0] == "replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
