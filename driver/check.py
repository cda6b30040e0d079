#!/usr/bin/env python3
"""Runs one check:   check <property> [quick|thorough]
Replays a finding:   check replay <file>

Exit 0: the property held on everything explored. Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it is broken. Exit 2: the check itself
failed (build error, nondeterminism, ...)."""
import re
import concurrent.futures
import hashlib
import json
import os
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
NPROC = min(os.cpu_count() or 8, 16)
HANG_S = 40
# exit status of a run that visits a vast matrix position by position (sim/simrt/src/vast.rs)
ABANDONED = 97
MAX_RESUMED = 12

sys.path.insert(0, os.path.join(VERIF, "driver"))
import props  # noqa: E402


class HarnessError(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    # two simulation binaries replace the out-of-memory hook, an unstable feature
    e["RUSTC_BOOTSTRAP"] = "cap,par"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("NO_COLOR", "FORCE_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "COLORTERM"):
        e.pop(k, None)
    e["TERM"] = "dumb"
    return e


ENV = base_env()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    for f in ("Cargo.toml",):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def stamped(target, clean):
    """Never trust time stamps for the code under test. Returns a commit function."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "source.hash")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        clean()
    if os.path.exists(stamp):
        os.remove(stamp)

    def commit():
        with open(stamp, "w") as f:
            f.write(now)

    return commit


def cargo_build(crate, args=(), target=None, env=None, toolchain="+stable"):
    """Builds a harness crate against /repo's working tree."""
    d = os.path.join(VERIF, "sim", crate)
    target = target or os.path.join(TARGET, crate)
    e = dict(env or ENV)
    e["CARGO_TARGET_DIR"] = target

    def clean():
        for name, profile in (("debug", "dev"), ("ship", "ship")):
            if os.path.isdir(os.path.join(target, name)):
                sh(["cargo", toolchain, "clean", "--offline", "-p", "matreex", "--profile", profile], cwd=d, env=e)

    commit = stamped(target, clean)
    t0 = time.time()
    r = sh(["cargo", toolchain, "build", "--offline", "--locked", *args], cwd=d, env=e)
    if r.returncode != 0:
        raise HarnessError("building %s failed:\n%s" % (crate, r.stderr[-6000:]))
    commit()
    return target, time.time() - t0


MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance"


def miri_sysroot():
    """Prepares Miri's standard library. Returns (path, why not)."""
    path = os.path.join(TARGET, "miri-sysroot")
    if not os.path.isdir(path):
        os.makedirs(TARGET, exist_ok=True)
        e = dict(ENV)
        e["XDG_CACHE_HOME"] = os.path.join(TARGET, "miri-cache")
        r = sh(["cargo", "+nightly", "miri", "setup", "--print-sysroot"], cwd=os.path.join(VERIF, "sim", "simrt"), env=e)
        if r.returncode != 0:
            return None, "cargo miri setup failed: " + r.stderr[-500:]
        os.symlink(r.stdout.strip().splitlines()[-1], path)
    return path, None


def miri_build(part):
    """Prepares a command that runs a simulation binary under Miri.
    Returns (command, environment, seconds), or None if Miri does not work here."""
    d = os.path.join(VERIF, "sim", part["crate"])
    target = os.path.join(TARGET, "miri-" + part["crate"])
    e = dict(ENV)
    e["CARGO_TARGET_DIR"] = target
    e["MIRIFLAGS"] = MIRI_BASE + " " + part.get("miriflags", "-Zmiri-disable-stacked-borrows")
    e["MIRI_SYSROOT"] = os.path.join(TARGET, "miri-sysroot")
    t0 = time.time()

    def clean():
        e2 = dict(e)
        e2["CARGO_TARGET_DIR"] = os.path.join(target, "miri")
        sh(["cargo", "+nightly", "clean", "--offline", "-p", "matreex", "--target", "x86_64-unknown-linux-gnu"], cwd=d, env=e2)

    commit = stamped(target, clean)
    sysroot, why = miri_sysroot()
    if not sysroot:
        return None, why
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", os.path.join(d, "Cargo.toml"), "--bin", part["bin"], "--"]
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="miri-", dir=OUT)
    r = sh(cmd + ["worker", part["probe"], "quick", "1", "0", "1", "0", "1", tmp + "/p", tmp + "/o"], env=e)
    ok = r.returncode == 0 and os.path.exists(tmp + "/o")
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)
    if not ok:
        return None, "a probe under Miri failed: " + r.stderr[-500:]
    commit()
    return (cmd, e, time.time() - t0), None


def miri_error(stderr):
    """The error Miri reports, without the noise."""
    lines = stderr.splitlines()
    for i, line in enumerate(lines):
        if line.startswith("error:") and "Undefined Behavior" in line:
            out = [line]
            for x in lines[i + 1:i + 60]:
                y = x.strip()
                if y.startswith("-->") or y.startswith("= note: inside") or y.startswith("at ") or "/repo/src" in y:
                    out.append(y)
            return "\n".join(out[:14])
    return None


# ------------------------------------------------------------- one execution


class Terminal:
    """A simulated terminal on standard output or standard error."""

    def __init__(self, which):
        self.which = which
        self.fds = os.openpty() if which else ()

    def streams(self, default):
        io = {"stdout": default, "stderr": default}
        if self.which:
            io[self.which] = self.fds[1]
        return io

    def close(self):
        for fd in self.fds:
            os.close(fd)


class Exec:
    """Runs single executions of a simulation binary."""

    def __init__(self, cmd, prop, tier, env=None, timeout=30, tty=None):
        self.cmd, self.prop, self.tier, self.tty = cmd, prop, tier, tty
        self.env, self.timeout = env or ENV, timeout
        self.tmp = tempfile.mkdtemp(prefix="sim-", dir=OUT)
        self.n = 0

    def _run(self, args):
        self.n += 1
        report = os.path.join(self.tmp, "r%d-%d" % (self.n, id(args)))
        term = Terminal(self.tty)
        try:
            r = subprocess.run(
                [*self.cmd, "exec", self.prop, self.tier, *args],
                env={**self.env, "SIM_REPORT": report}, timeout=self.timeout,
                preexec_fn=limits, **term.streams(subprocess.PIPE),
            )
        except subprocess.TimeoutExpired:
            return {"class": "hang", "msg": "no result within %d s" % self.timeout, "log": []}
        finally:
            term.close()
        if r.returncode == 0:
            with open(report) as f:
                text = f.read()
            os.remove(report)
            return json.loads(text)
        err = (r.stderr or b"").decode(errors="replace")
        ub = miri_error(err)
        if ub:
            return {"class": "undefined-behaviour", "msg": ub, "log": []}
        tail = err[-1500:]
        if r.returncode < 0:
            sig = signal.Signals(-r.returncode).name
            return {"class": "crash:" + sig, "msg": "the process died with %s: %s" % (sig, tail.strip()), "log": []}
        return {"class": "exit:%d" % r.returncode, "msg": tail, "log": []}

    def tape(self, tape, log=False):
        self.n += 1
        p = os.path.join(self.tmp, "t%d-%d" % (self.n, id(tape)))
        with open(p, "w") as f:
            f.write("\n".join(map(str, tape)))
        r = self._run(["tape", p] + (["log"] if log else []))
        os.remove(p)
        return r

    def seed(self, seed, index, forced, log=False, tape_out=None):
        a = ["seed", str(seed), str(index), forced]
        if log or tape_out:
            a.append("log" if log else "nolog")
        if tape_out:
            a.append(tape_out)
        return self._run(a)

    def close(self):
        for f in os.listdir(self.tmp):
            os.remove(os.path.join(self.tmp, f))
        os.rmdir(self.tmp)


def limits():
    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


# -------------------------------------------------------------- minimisation


def minimise(ex, tape, cls, budget_s):
    """Deletes and lowers choices while the same class of violation persists."""
    t_end = time.time() + budget_s
    pool = concurrent.futures.ThreadPoolExecutor(NPROC)
    tried = set()
    tests = [0]

    def fails(t):
        return ex.tape(t).get("class") == cls

    def first(cands):
        """First candidate that still fails, evaluated NPROC at a time."""
        batch = []
        for c in cands:
            k = tuple(c)
            if k in tried:
                continue
            tried.add(k)
            batch.append(c)
            if len(batch) == NPROC:
                got = run(batch)
                if got is not None:
                    return got
                batch = []
                if time.time() > t_end:
                    return None
        return run(batch) if batch else None

    def run(batch):
        tests[0] += len(batch)
        for c, ok in zip(batch, pool.map(fails, batch)):
            if ok:
                return c
        return None

    cur = list(tape)
    # how much of the tail matters
    lo, hi = 0, len(cur)
    while lo < hi and time.time() < t_end:
        mid = (lo + hi) // 2
        tests[0] += 1
        if fails(cur[:mid]):
            hi = mid
        else:
            lo = mid + 1
    if hi < len(cur) and fails(cur[:hi]):
        cur = cur[:hi]
    changed = True
    while changed and time.time() < t_end:
        changed = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            while time.time() < t_end:
                got = first(cur[:i] + cur[i + size:] for i in range(max(0, len(cur) - size), -1, -1) if i + size <= len(cur))
                if got is None:
                    break
                cur, changed = got, True
        while time.time() < t_end:
            got = first(cur[:i] + [0] + cur[i + 1:] for i in range(len(cur)) if cur[i])
            if got is None:
                break
            cur, changed = got, True

        def lower():
            for i, v in enumerate(cur):
                for nv in (v // 2, v - (v // 4 or 1), v - 1):
                    if 0 <= nv < v:
                        yield cur[:i] + [nv] + cur[i + 1:]

        while time.time() < t_end:
            got = first(lower())
            if got is None:
                break
            cur, changed = got, True
    pool.shutdown()
    while cur and cur[-1] == 0:
        cur.pop()
    return cur, tests[0]


# ------------------------------------------------------------------- a sweep


def read_set(path):
    with open(path, "rb") as f:
        b = f.read()
    return {b[i:i + 8] for i in range(0, len(b), 8)}


def sweep(cmd, prop, tier, seed, total, secs, env=None, hang=HANG_S, tty=None):
    """Runs indices 0..total over NPROC worker processes."""
    env = env or ENV
    term = Terminal(tty)
    d = tempfile.mkdtemp(prefix="sweep-", dir=OUT)
    procs = []
    t0 = time.time()
    for w in range(NPROC):
        prog, out = os.path.join(d, "p%d" % w), os.path.join(d, "o%d" % w)

        def start(first, prog=prog, out=out):
            left = max(1, secs - (time.time() - t0))
            return subprocess.Popen(
                [*cmd, "worker", prop, tier, str(seed), str(first), str(NPROC), str(total), str(left), prog, out],
                env=env, preexec_fn=limits, **term.streams(subprocess.DEVNULL),
            )

        procs.append({"p": start(w), "start": start, "resumed": 0, "prog": prog, "out": out, "last": None, "at": time.time(), "state": "run"})
    suspects = []  # (index, forced, why)
    abandoned = 0
    found = []
    while any(w["state"] == "run" for w in procs):
        time.sleep(0.02)
        for w in procs:
            if w["state"] != "run":
                continue
            rc = w["p"].poll()
            if rc is None:
                try:
                    cur = open(w["prog"]).read()
                except OSError:
                    cur = ""
                if cur != w["last"]:
                    w["last"], w["at"] = cur, time.time()
                elif time.time() - w["at"] > hang:
                    w["p"].kill()
                    w["p"].wait()
                    w["state"] = "hang"
                    i, f = cur.split()[:2]
                    suspects.append((int(i), f, "hang"))
                continue
            if rc == ABANDONED:
                abandoned += 1
                if "SIM_MODEST" in env and w["resumed"] < MAX_RESUMED:
                    w["resumed"] += 1
                    w["p"] = w["start"](int(open(w["prog"]).read().split()[0]) + NPROC)
                    w["at"] = time.time()
                else:
                    w["state"] = "abandoned"
                continue
            if rc == 0 and os.path.exists(w["out"]):
                w["state"] = "done"
                w["sum"] = json.load(open(w["out"]))
                if w["sum"]["found"]:
                    found.append(w["sum"]["found"])
            else:
                w["state"] = "crash"
                parts = open(w["prog"]).read().split()[:2]
                if len(parts) < 2:
                    raise HarnessError("worker died before its first run (exit %s)" % rc)
                suspects.append((int(parts[0]), parts[1], "exit %s" % rc))
        if (found or suspects or (abandoned and "SIM_MODEST" not in env)) and any(w["state"] == "run" for w in procs):
            time.sleep(0.3)
            for w in procs:
                if w["state"] == "run" and w["p"].poll() is None:
                    w["p"].kill()
                    w["p"].wait()
                    w["state"] = "stopped"
    tot = {"runs": 0, "indices": 0, "steps": 0, "stats": {}, "found": found, "suspects": suspects, "abandoned": abandoned}
    sets = {"hashes": set(), "states": set(), "nontrivial": set()}
    done = []
    ordered = {}
    term.close()
    for w in procs:
        s = w.get("sum")
        if not s:
            continue
        if os.path.exists(w["out"] + ".ordered"):
            with open(w["out"] + ".ordered", "rb") as f:
                ordered.update(struct.iter_unpack("<QQ", f.read()))
        done.append(s["indices"])
        for k in ("runs", "indices", "steps"):
            tot[k] += s[k]
        for k, v in s["stats"].items():
            tot["stats"][k] = tot["stats"].get(k, 0) + v
        for k in sets:
            sets[k] |= read_set(w["out"] + "." + k)
    tot["sets"] = sets
    tot["ordered"] = ordered
    # every index below this has been run
    tot["solid"] = min(done) * NPROC if len(done) == NPROC and not abandoned else 0
    tot["secs"] = time.time() - t0
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    os.rmdir(d)
    return tot


def write_replay(prop, kind, data):
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    body = json.dumps(data, indent=1)
    h = hashlib.sha256(body.encode()).hexdigest()[:10]
    p = os.path.join(OUT, "replay", "%s-%s-%s.json" % (prop, re.sub("[^a-z0-9]+", "-", kind.lower()), h))
    with open(p, "w") as f:
        f.write(body)
    return p


def native(part):
    """Builds a simulation binary. Returns (command, environment, seconds)."""
    target = os.path.join(TARGET, part.get("target", part["crate"]))
    target, build_s = cargo_build(part["crate"], ["--bin", part["bin"], *part.get("build", [])], target)
    env = {**ENV, **part.get("env", {})}
    for k in [k for k, v in env.items() if v is None]:
        del env[k]
    if part.get("ordered"):
        env["SIM_ORDERED"] = "1"
    return [os.path.join(target, part.get("dir", "debug"), part["bin"])], env, build_s


# what each part printed, by index, for comparison between parts
ORDERED = {}
# set when an implementation visits vast matrices position by position
MODEST = {}


def sim_part(prop, part, tier, seed):
    """A part decided by seeded simulation. Returns (coverage, violation)."""
    miri = part.get("miri", False)
    if miri:
        got, why = miri_build(part)
        if got is None:
            return {"name": part["name"], "runs": 0, "nontrivial": 0, "steps": 0, "skipped": why}, None
        cmd, env, build_s = got
    else:
        cmd, env, build_s = native(part)
        if part.get("tty"):
            try:
                Terminal(part["tty"]).close()
            except OSError as e:
                return {"name": part["name"], "runs": 0, "nontrivial": 0, "steps": 0, "skipped": "no terminal: %s" % e}, None
    total = part[tier]
    secs = part.get("secs", {}).get(tier, 150 if tier == "quick" else 600)
    env = {**env, **MODEST}
    t = sweep(cmd, prop, tier, seed, total, secs, env, 240 if miri else HANG_S, part.get("tty"))
    if t["abandoned"] and not MODEST and not (t["found"] or t["suspects"]):
        # too slow for vast extents, which is no violation: again, without those that are not needed
        MODEST["SIM_MODEST"] = "1"
        env = {**env, **MODEST}
        t = sweep(cmd, prop, tier, seed, total, secs, env, 240 if miri else HANG_S, part.get("tty"))
    ORDERED[part["name"]] = t["ordered"]
    ex = Exec(cmd, prop, tier, env, 120 if miri else 30, part.get("tty"))
    try:
        violation = None
        cands = []
        for f in sorted(t["found"], key=lambda f: (f["index"], f["forced"])):
            cands.append((f["index"], f["forced"], f["report"]["tape"], f["report"]["class"]))
        for i, forced, why in sorted(t["suspects"]):
            tp = os.path.join(ex.tmp, "crash-tape")
            r = ex.seed(seed, i, forced, tape_out=tp)
            if r["class"] is None:
                raise HarnessError("a worker stopped (%s) at run %d/%s, but the run alone is fine" % (why, i, forced))
            tape = [int(x) for x in open(tp).read().split()]
            cands.append((i, forced, tape, r["class"]))
        if cands:
            i, forced, tape, cls = cands[0]
            if cls.startswith("exit:"):
                raise HarnessError("run %d/%s: %s" % (i, forced, cls))
            r = ex.tape(tape)
            if r["class"] != cls:
                raise HarnessError("run %d/%s: class %s does not replay from its tape (%s)" % (i, forced, cls, r["class"]))
            if cls == "hang":
                ex.timeout = 10
                mtape, tests = minimise(ex, tape, cls, 60)
            else:
                budget = 25 if tier == "quick" else 90
                mtape, tests = minimise(ex, tape, cls, budget * 2 if miri else budget)
            r = ex.tape(mtape, log=True)
            r2 = ex.tape(mtape, log=True)
            if r["class"] != cls or r2["class"] != cls or r.get("hash") != r2.get("hash"):
                raise HarnessError("the minimised trace does not replay exactly")
            path = write_replay(prop, part["name"], {
                "property": prop, "part": part["name"], "tier": tier, "seed": seed, "index": i, "forced": forced, "modest": bool(MODEST),
                "class": cls, "msg": r["msg"], "tape": mtape, "original_length": len(tape),
                "minimisation_runs": tests, "trace": r.get("log", []), "hash": r.get("hash"),
            })
            violation = {"class": cls, "msg": r["msg"], "replay": path, "trace": r.get("log", [])}
        # determinism: the same seed again, in other processes
        rechecked = mismatched = 0
        if not violation and t["solid"]:
            idx = sorted({(k * 7919 + seed) % t["solid"] for k in range(4 if miri else 24)})
            forced = "0" if part.get("faults") else "-"
            with concurrent.futures.ThreadPoolExecutor(NPROC) as pool:
                rs = list(pool.map(lambda i: (ex.seed(seed, i, forced), ex.seed(seed, i, forced, log=True)), idx))
            for a, b in rs:
                rechecked += 1
                if a.get("hash") != b.get("hash") or bytes.fromhex(a["hash"])[::-1] not in t["sets"]["hashes"]:
                    mismatched += 1
            if mismatched:
                raise HarnessError("%d of %d runs did not repeat exactly" % (mismatched, rechecked))
        samples = []
        if t["indices"]:
            for i in (1,) if miri else (1, t["indices"] // 2):
                forced = "3" if part.get("faults") else "-"
                r = ex.seed(seed, i, forced, log=True)
                samples.append({"part": part["name"], "seed": seed, "index": i, "forced": forced, "trace": r.get("log", [])[:40]})
    finally:
        ex.close()
    cov = {
        "name": part["name"],
        "runs": t["runs"],
        "seeds": t["indices"],
        "planned_seeds": total,
        "abandoned_vast_runs": t["abandoned"],
        "steps": t["steps"],
        "distinct_traces": len(t["sets"]["hashes"]),
        "distinct_states": len(t["sets"]["states"]),
        "nontrivial": len(t["sets"]["nontrivial"]),
        "counters": t["stats"],
        "sweep_s": round(t["secs"], 2),
        "build_s": round(build_s, 1),
        "runs_per_hour": int(t["runs"] / max(t["secs"], 0.01) * 3600),
        "seeds_per_hour": int(t["indices"] / max(t["secs"], 0.01) * 3600),
        "determinism_rechecks": rechecked,
        "samples": samples,
    }
    return cov, violation


# ----------------------------------------------------------------- the check


def run_check(prop, tier, seed):
    spec = props.PROPS[prop]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    t0 = time.time()
    covs, violation = [], None
    for part in spec["parts"]:
        kind = part.get("kind", "sim")
        if kind == "sim":
            cov, violation = sim_part(prop, part, tier, seed)
        else:
            import parts

            cov, violation = getattr(parts, kind)(sys.modules[__name__], prop, part, tier, seed)
        covs.append(cov)
        if violation:
            break
    samples = [s for c in covs for s in c.pop("samples", [])]
    fault_kinds = {}
    for c in covs:
        for k, v in c.get("counters", {}).items():
            if k.startswith(("cb_", "fault_", "rayon_", "thread_", "sink_", "lie_", "cancel_", "heap_", "stream_", "env_")):
                fault_kinds[k] = fault_kinds.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec["level"],
        "coverage": {
            "evaluations": sum(c.get("runs", 0) for c in covs),
            "distinct_nontrivial": sum(c.get("nontrivial", 0) for c in covs),
            "rule": spec["rule"],
            "samples": samples,
            "parts": covs,
            "injected_and_scheduled": fault_kinds,
            "simulated_time": "the code under test reads no clock and has no timers; simulated time is counted in events: %d"
            % sum(c.get("steps", 0) for c in covs),
            "distinctness_measure": "64-bit hash of the whole event trace of a run (distinct_traces), of the model states it passed through (distinct_states)",
            "real_components": spec["real"],
            "stub_components": spec["stubs"],
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for c in covs:
        if c.get("skipped"):
            print("%s: SKIPPED: %s" % (c["name"], c["skipped"]))
            continue
        print("%s: %s runs, %s distinct non-trivial, %s events, %.1f s (build %.1f s)" % (
            c["name"], c.get("runs"), c.get("nontrivial"), c.get("steps"), c.get("sweep_s", 0), c.get("build_s", 0)))
    if violation:
        print("violation class: %s" % violation["class"])
        print("  " + violation["msg"].replace("\n", "\n  ")[:3000])
        for line in violation.get("trace", [])[:60]:
            print("    | " + line)
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    print("%s: held on everything explored" % prop)
    return 0


def replay(path):
    d = json.load(open(path))
    d["path"] = path
    prop = d["property"]
    part = next(p for p in props.PROPS[prop]["parts"] if p["name"] == d["part"])
    os.makedirs(OUT, exist_ok=True)
    modest = {"SIM_MODEST": "1"} if d.get("modest") else {}
    if part.get("kind", "sim") != "sim":
        import parts

        return getattr(parts, "replay_" + part["kind"])(sys.modules[__name__], d, part)
    if part.get("miri"):
        got, why = miri_build(part)
        if got is None:
            raise HarnessError(why)
        ex = Exec(got[0], prop, d["tier"], {**got[1], **modest}, 120)
    else:
        cmd, env, _ = native(part)
        ex = Exec(cmd, prop, d["tier"], {**env, **modest}, tty=part.get("tty"))
    try:
        r = ex.tape(d["tape"], log=True)
    finally:
        ex.close()
    for line in r.get("log", []):
        print("    | " + line)
    print("class: %s (recorded: %s)" % (r["class"], d["class"]))
    if r["class"] == d["class"]:
        print(r["msg"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def setup():
    """Warms the build directories; every check also builds what it needs."""
    os.makedirs(OUT, exist_ok=True)
    seen = set()
    for s in props.PROPS.values():
        for p in s["parts"]:
            if p.get("kind", "sim") != "sim" or p.get("miri"):
                continue
            key = p.get("target", p["crate"])
            if (key, p.get("dir")) in seen:
                continue
            seen.add((key, p.get("dir")))
            _, s_ = cargo_build(p["crate"], p.get("build", []), os.path.join(TARGET, key))
            print("%s: %.1f s" % (key, s_))
    done = set()
    for s in props.PROPS.values():
        for p in s["parts"]:
            if p.get("miri") and "sim" not in done:
                done.add("sim")
                got, why = miri_build(p)
                print("miri: %s" % (why or "%.1f s" % got[2]))
            elif p.get("kind") == "miri_seeds" and "race" not in done:
                done.add("race")
                import parts

                _, why = parts.race_command(sys.modules[__name__], p)
                print("miri, threads: %s" % (why or "ready"))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "setup":
            return setup()
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return run_check(sys.argv[1], tier, seed)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
