"""Thread schedules: runs /verif/mirisim inside Miri, whose seeded scheduler decides every preemption and weak memory effect."""
import os, re, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target", "miri")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
RATES = ["0.1", "0.02", "0.4"]


class BuildError(Exception):
    pass


def cargo(args, release, flags, timeout):
    cmd = ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--target-dir", TARGET] + (["--release"] if release else []) + ["--"] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "mirisim"), env=dict(ENV, MIRIFLAGS=flags), capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def judge(rc, out, err):
    """None, or what went wrong."""
    bad = re.findall(r"^BAD (.*)$", out, re.M)
    if bad:
        return "threads: " + ("a tag is generated twice" if "twice" in bad[0] else bad[0].split(":")[0][:60]), bad[0]
    if "error: could not compile" in err or "error: failed to" in err:
        raise BuildError(err[-4000:])
    if rc == 0:
        return None
    m = re.search(r"^error: (.*)$", err, re.M)
    if rc is None:
        return "threads: no progress within the time limit", err[-500:]
    return "threads: " + (m.group(1)[:80] if m else f"exit code {rc}"), err[-1500:]


def many(args, release, rate, lo, hi, timeout):
    rc, out, err = cargo(args, release, f"-Zmiri-many-seeds={lo}..{hi} -Zmiri-preemption-rate={rate}", timeout)
    runs = re.findall(r"^RUN ([0-9a-f]+) (\d+) (\S*)$", out, re.M)
    return judge(rc, out, err), [int(s) for s in re.findall(r"FAILING SEED: (\d+)", out + err)], runs


def one(args, release, rate, seed, timeout=300):
    rc, out, err = cargo(args, release, f"-Zmiri-seed={seed} -Zmiri-preemption-rate={rate}", timeout)
    return judge(rc, out, err), out


def explore(prop, plan, tier, seed):
    """Returns (statistics, violation or None)."""
    t0 = time.time()
    n = plan["seeds"][tier]
    base = (seed % 1000) * 100_000
    st = {"runs": 0, "batches": [], "operations": 0, "scheduler": "Miri, one seed per execution; weak memory emulation on"}
    sigs = set()
    cap = plan.get("cap", {}).get(tier, 240 if tier == "quick" else 3000)
    k = 0
    for release in plan.get("profiles", [False]):
        firsts = []
        for args in plan["sizes"]:
            # Chunks, so that the time limit holds.
            todo = max(8, int(n * plan.get("weights", {}).get(" ".join(map(str, args)), 1)) // len(plan.get("profiles", [False])))
            chunk = 256
            done = 0
            while done < todo and time.time() - t0 < cap:
                rate = RATES[k % len(RATES)]
                k += 1
                lo, hi = base + 1000 * k, base + 1000 * k + min(chunk, todo - done)
                bad, seeds, runs = many(args, release, rate, lo, hi, max(120, cap))
                done += hi - lo
                st["runs"] += len(runs)
                st["operations"] += sum(int(r[1]) for r in runs)
                sigs.update((tuple(args), release, r[0]) for r in runs)
                firsts += [r[2] for r in runs if r[2] != "-"]
                st["batches"].append({"args": args, "release": release, "preemption_rate": rate, "seeds": [lo, hi], "ok": not bad})
                if bad:
                    return finish(st, sigs, t0), minimise(prop, plan, args, release, rate, seeds or [lo], bad, seed)
        if release and plan.get("unpredictable"):
            # The random part of a tag: another one in each execution, although generator and count are the same.
            if len(set(firsts)) != len(firsts):
                dup = [f for f in firsts if firsts.count(f) > 1][0]
                return finish(st, sigs, t0), {
                    "prop": prop, "driver": "miri", "predictable": True, "args": plan["sizes"][0], "release": True, "rate": RATES[0], "miri_seeds": [base + 1, base + 17], "index": base, "base_seed": seed, "class": "threads: tags can be predicted",
                    "detail": f"the first tag is {dup!r} in two executions with different randomness", "tape": [], "shrink_attempts": 0, "trace": None, "trace_hash": None}
            st["unpredictable_tags_compared"] = len(firsts)
    # One seed is one execution.
    args = plan["sizes"][0]
    outs = [one(args, False, RATES[0], base + 7)[1] for _ in range(2)]
    st["determinism"] = {"seed": base + 7, "identical": outs[0] == outs[1]}
    return finish(st, sigs, t0), None


def finish(st, sigs, t0):
    st["distinct_interleavings"] = len(sigs)
    st["wall_s"] = round(time.time() - t0, 1)
    st["runs_per_hour"] = int(st["runs"] / max(st["wall_s"], 0.1) * 3600)
    st["batches"] = st["batches"][:20]
    return st


def minimise(prop, plan, args, release, rate, seeds, bad, seed):
    best = (args, rate, min(seeds), bad)
    tries = 0
    for small in plan.get("minimal", []):
        tries += 1
        b, s, _ = many(small, release, rate, 0, 128, 120)
        if b and s:
            best = (small, rate, min(s), b)
            break
    a, r, s, b = best
    got, out = one(a, release, r, s)
    return {"prop": prop, "driver": "miri", "args": a, "release": release, "rate": r, "miri_seed": s, "index": s, "base_seed": seed, "class": (got or b)[0], "detail": (got or b)[1], "tape": [], "shrink_attempts": tries,
            "trace": out.splitlines()[-20:], "trace_hash": None, "reproduced_alone": bool(got)}


def replay(v):
    if v.get("predictable"):
        _, _, runs = many(v["args"], True, v["rate"], v["miri_seeds"][0], v["miri_seeds"][1], 300)
        firsts = [r[2] for r in runs]
        print("first tags:", firsts)
        return len(set(firsts)) != len(firsts)
    got, out = one(v["args"], v["release"], v["rate"], v["miri_seed"])
    print(out)
    print("recorded:", v["class"], "\nreplayed:", got)
    return bool(got)
