"""Parts of a check other than a plain sweep."""
import concurrent.futures
import os


class PairExec:
    """One tape in two configurations; the state of a run is what it printed."""

    def __init__(self, chk, prop, tier, a, b):
        self.names = (a["name"], b["name"])
        self.ex = []
        for p in (a, b):
            cmd, env, _ = chk.native(p)
            self.ex.append(chk.Exec(cmd, prop, tier, env, 30, p.get("tty")))
        self.tmp = self.ex[0].tmp

    def _both(self, f):
        with concurrent.futures.ThreadPoolExecutor(2) as pool:
            x, y = pool.map(f, self.ex)
        return self.judge(x, y)

    def judge(self, x, y):
        if x["class"] or y["class"]:
            z = x if x["class"] else y
            return {**z, "class": "one-sided:" + z["class"]}
        if x["state"] != y["state"]:
            log = ["--- %s" % self.names[0], *x.get("log", []), "--- %s" % self.names[1], *y.get("log", [])]
            return {**x, "class": "configurations-differ", "hash": x["state"] + y["state"], "log": log,
                    "msg": "the same runs print different text in the configurations %s and %s" % self.names}
        return {**x, "class": None}

    def tape(self, tape, log=False):
        return self._both(lambda e: e.tape(tape, log))

    def seed(self, *a, **kw):
        return self.ex[0].seed(*a, **kw)

    def close(self):
        for e in self.ex:
            e.close()


def named(chk, prop, name):
    return next(p for p in chk.props.PROPS[prop]["parts"] if p["name"] == name)


def cross(chk, prop, part, tier, seed):
    """Compares what earlier parts printed for the same seeds."""
    base = part["against"][0]
    first = chk.ORDERED.get(base, {})
    compared = 0
    for other in part["against"][1:]:
        second = chk.ORDERED.get(other)
        if not second:
            continue  # it could not run here
        both = sorted(set(first) & set(second))
        compared += len(both)
        bad = [i for i in both if first[i] != second[i]]
        if not bad:
            continue
        a, b = named(chk, prop, base), named(chk, prop, other)
        ex = PairExec(chk, prop, tier, a, b)
        try:
            i = bad[0]
            tp = os.path.join(ex.tmp, "pair-tape")
            ex.seed(seed, i, "-", tape_out=tp)
            with open(tp) as f:
                tape = [int(x) for x in f.read().split()]
            r = ex.tape(tape)
            if r["class"] != "configurations-differ":
                raise chk.HarnessError("run %d differs between %s and %s, but not when repeated" % (i, base, other))
            cls = r["class"]
            mtape, tests = chk.minimise(ex, tape, cls, 25 if tier == "quick" else 90)
            r = ex.tape(mtape, log=True)
            r2 = ex.tape(mtape, log=True)
            if r["class"] != cls or r2["class"] != cls or r["hash"] != r2["hash"]:
                raise chk.HarnessError("the minimised trace does not replay exactly")
        finally:
            ex.close()
        path = chk.write_replay(prop, part["name"], {
            "property": prop, "part": part["name"], "tier": tier, "seed": seed, "index": i, "forced": "-",
            "pair": [base, other], "class": cls, "msg": r["msg"], "tape": mtape, "original_length": len(tape),
            "minimisation_runs": tests, "trace": r["log"], "hash": r["hash"],
        })
        cov = {"name": part["name"], "runs": 0, "compared": compared, "nontrivial": 0, "steps": 0}
        return cov, {"class": cls, "msg": r["msg"], "replay": path, "trace": r["log"]}
    return {"name": part["name"], "runs": 0, "compared": compared, "nontrivial": 0, "steps": 0}, None


def replay_cross(chk, d, part):
    prop = d["property"]
    a, b = (named(chk, prop, n) for n in d["pair"])
    ex = PairExec(chk, prop, d["tier"], a, b)
    try:
        r = ex.tape(d["tape"], log=True)
    finally:
        ex.close()
    for line in r.get("log", []):
        print("    | " + line)
    print("class: %s (recorded: %s)" % (r["class"], d["class"]))
    if r["class"] == d["class"]:
        print("VIOLATION property=%s replay=%s" % (prop, d["path"]))
        return 1
    return 0


# ------------------------------------------------- threads under Miri's scheduler


def race_command(chk, part):
    """Returns (command, environment), or (None, why not)."""
    d = os.path.join(chk.VERIF, "sim", part["crate"])
    e = dict(chk.ENV)
    e["CARGO_TARGET_DIR"] = os.path.join(chk.TARGET, "miri-" + part["crate"])
    sysroot, why = chk.miri_sysroot()
    if not sysroot:
        return None, why
    e["MIRI_SYSROOT"] = sysroot

    def clean():
        e2 = {**e, "CARGO_TARGET_DIR": os.path.join(e["CARGO_TARGET_DIR"], "miri")}
        chk.sh(["cargo", "+nightly", "clean", "--offline", "-p", "matreex", "--target", "x86_64-unknown-linux-gnu"], cwd=d, env=e2)

    commit = chk.stamped(e["CARGO_TARGET_DIR"], clean)
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", os.path.join(d, "Cargo.toml"), "--"]
    r = race_run(chk, (cmd, e), "C16", 0, 0, 0)
    if r["rc"] != 0:
        return None, "a probe under Miri failed: " + r["err"][-500:]
    commit()
    return (cmd, e), None


def race_run(chk, ce, prop, mseed, first, count, timeout=120):
    import subprocess

    cmd, env = ce
    env = {**env, "MIRIFLAGS": "-Zmiri-seed=%d -Zmiri-preemption-rate=0.%02d -Zmiri-disable-stacked-borrows" % (mseed, (1, 5, 20, 50)[mseed % 4])}
    try:
        r = subprocess.run([*cmd, prop, str(first), str(count)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, preexec_fn=chk.limits)
    except subprocess.TimeoutExpired as x:
        return {"rc": None, "out": (x.stdout or b"").decode(errors="replace"), "err": "", "class": "hang", "msg": "no result within %d s" % timeout}
    out, err = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    cls = msg = None
    if r.returncode:
        ub = chk.miri_error(err)
        if ub:
            cls, msg = ("data-race" if "Data race" in ub else "undefined-behaviour"), ub
        elif "MISMATCH" in out:
            cls, msg = "not-as-sequential", out[out.index("MISMATCH"):].strip()
        elif "evaluated program deadlocked" in err:
            cls, msg = "deadlock", err[-1500:]
        elif "panicked at" in err:
            cls, msg = "unexpected-panic", err[:1500]
        else:
            cls, msg = "exit:%d" % r.returncode, err[-1500:]
    return {"rc": r.returncode, "out": out, "err": err, "class": cls, "msg": msg}


def miri_seeds(chk, prop, part, tier, seed):
    import time

    t0 = time.time()
    ce, why = race_command(chk, part)
    if ce is None:
        return {"name": part["name"], "runs": 0, "nontrivial": 0, "steps": 0, "skipped": why}, None
    build_s = time.time() - t0
    t0 = time.time()
    batch, limit, jobs = part["batch"], part["secs"][tier], part[tier]
    runs = []
    bad = None

    def job(j):
        if time.time() - t0 > limit or bad:
            return None
        mseed = (seed * 1_000_003 + j * 7_919) & 0x7FFF_FFFF
        return j, mseed, race_run(chk, ce, prop, mseed, j * batch, batch)

    with concurrent.futures.ThreadPoolExecutor(chk.NPROC) as pool:
        for got in pool.map(job, range(jobs)):
            if got:
                runs.append(got)
                if got[2]["class"] and bad is None:
                    bad = got
    lines = [x for _, _, r in runs for x in r["out"].splitlines() if x.startswith("OK ")]
    cov = {
        "name": part["name"],
        "runs": len(lines),
        "seeds": len(runs),
        "steps": 0,
        "nontrivial": len({x for x in lines if " 1 threads" not in x and " mode 4" not in x}),
        "distinct_interleavings": len(set(lines)),
        "sweep_s": round(time.time() - t0, 2),
        "build_s": round(build_s, 1),
        "runs_per_hour": int(len(lines) / max(time.time() - t0, 0.01) * 3600),
        "seeds_per_hour": int(len(runs) / max(time.time() - t0, 0.01) * 3600),
        "counters": {"thread_preemptive_workloads": len(lines)},
    }
    if runs:
        j, mseed, r = runs[0]
        cov["samples"] = [{"part": part["name"], "miri_seed": mseed, "first": j * batch, "trace": r["out"].splitlines()[:20]}]
    if bad is None:
        if runs:
            j, mseed, r = runs[-1]
            again = race_run(chk, ce, prop, mseed, j * batch, batch)
            if again["out"] != r["out"]:
                raise chk.HarnessError("Miri seed %d did not repeat exactly" % mseed)
            cov["determinism_rechecks"] = 1
        return cov, None
    j, mseed, r = bad
    cls = r["class"]
    if cls.startswith("exit:"):
        raise chk.HarnessError("Miri seed %d, workload %d..: %s" % (mseed, j * batch, r["msg"]))
    # one workload, and the lowest Miri seed, if that is enough
    first, count = j * batch, batch
    begun = [int(x.split()[1]) for x in r["out"].splitlines() if x.startswith("BEGIN ")]
    tests = 0
    if begun:
        count = begun[-1] - first + 1
        for s in [mseed, *range(0 if cls == "hang" else 24)]:
            tests += 1
            r2 = race_run(chk, ce, prop, s, begun[-1], 1)
            if r2["class"] == cls:
                mseed, first, count, r = s, begun[-1], 1, r2
                break
    a = race_run(chk, ce, prop, mseed, first, count)
    b = race_run(chk, ce, prop, mseed, first, count)
    if a["class"] != cls or a["out"] != b["out"] or a["class"] != b["class"]:
        raise chk.HarnessError("Miri seed %d does not replay exactly" % mseed)
    path = chk.write_replay(prop, part["name"], {
        "property": prop, "part": part["name"], "tier": tier, "seed": seed, "miri_seed": mseed, "first": first, "count": count,
        "class": cls, "msg": a["msg"], "minimisation_runs": tests, "trace": a["out"].splitlines(),
    })
    return cov, {"class": cls, "msg": a["msg"], "replay": path, "trace": a["out"].splitlines()}


def replay_miri_seeds(chk, d, part):
    ce, why = race_command(chk, part)
    if ce is None:
        raise chk.HarnessError(why)
    r = race_run(chk, ce, d["property"], d["miri_seed"], d["first"], d["count"])
    print(r["out"])
    print("class: %s (recorded: %s)" % (r["class"], d["class"]))
    if r["class"] == d["class"]:
        print(r["msg"])
        print("VIOLATION property=%s replay=%s" % (d["property"], d["path"]))
        return 1
    return 0
