"""Seeded search over simulated runs: generation, workers, minimisation, replay files, evidence, known findings."""

import fcntl
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import time as _t
import traceback
import zlib

import harness

monotonic = harness.monotonic
ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.realpath(__file__)), ".."))
KNOWN = os.path.join(ROOT, "known_findings.txt")
CPU_LIMIT = 90.0  # processor seconds per simulated world; see max_world_cpu_s in the evidence for what runs need
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

REAL = [
    "all Python code of /repo (one private module set per simulated rank)",
    "the compiled C++ kernels of /repo (rebuilt from the working tree)",
    "numpy, scipy, sqlite3, netCDF4/HDF5",
]
STUB = [
    "mpi4py / the MPI library (simulated ranks, messages, collectives, sub-communicators)",
    "thread scheduler (one rank runs at a time, seeded choice at every MPI call and file operation)",
    "clock (time.time/perf_counter advance with simulated events)",
    "file operations below open()/os/sqlite3.connect go through a fault-injecting layer on a scratch directory",
    "the C++ compiler invocation (setuptools.setup) inside simulated runs",
]


class Violation:
    """key: stable identification (used for known findings and while minimising); what: one line."""

    def __init__(self, key, what, detail=None):
        self.key = key
        self.what = what
        self.detail = detail

    def d(self):
        return {"key": self.key, "what": self.what, "detail": self.detail}


class Harness(Exception):
    pass


# ------------------------------------------------------------------------------------------------ one run
class Ctx:
    """Handed to a property's run(): executes simulated worlds, keeps what is needed to replay and to report."""

    def __init__(self, scenario, replay=None, overrides=None):
        self.sc = scenario
        self.replay = replay  # {label: decisions}
        self.over = overrides or {}
        self.decisions = {}
        self.worlds = []
        self.viol = []
        self.dirs = []
        self.stats = {"worlds": 0, "steps": 0, "switches": 0, "sim_time": 0.0, "faults": {}, "events": {}, "hash": 0}
        self.sig = []

    # -- violations
    def fail(self, key, what, detail=None):
        self.viol.append(Violation(key, what, detail))

    # -- scratch
    def dir(self):
        d = harness.scratch()
        self.dirs.append(d)
        return d

    def cleanup(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []

    # -- worlds
    def world(self, label, n, body, policy=None, **kw):
        seed = zlib.crc32(repr((self.sc.get("seed", 0), label)).encode())
        pol = policy if policy is not None else self.sc.get("policy")
        dec = None
        if self.replay is not None:
            dec = {int(k): v for k, v in self.replay.get(label, {}).items()}
        kw.setdefault("timeout", CPU_LIMIT)
        fresh = kw.pop("fresh", None)
        if fresh is not None:
            r = self._fresh(fresh, n, dict(kw, seed=seed, policy=pol, decisions=dec))
        else:
            r = harness.run_world(n, body, seed=seed, policy=pol, decisions=dec, **kw)
        if r["end"]["kind"] == "wall_timeout":
            raise Harness("wall clock limit in world %r (processor time limit %s not reached)" % (label, r["end"]["detail"]))
        self.decisions[label] = r["decisions"]
        s = self.stats
        s["cpu"] = max(s.get("cpu", 0.0), r["cpu"])
        s["worlds"] += 1
        s["steps"] += r["steps"]
        s["switches"] += r["switches"]
        s["sim_time"] += abs(r["sim_time"])
        s["hash"] = zlib.crc32(repr((label, r["hash"])).encode(), s["hash"])
        for f in r["fired"]:
            k = "disk:%s/%s" % (f.get("op"), f.get("kind"))
            s["faults"][k] = s["faults"].get(k, 0) + 1
        for k, v in r["counts"].items():
            t = "faults" if k in ("job_kill", "clock_jump", "injected", "late_rooted") or k.startswith("fault:") else "events"
            s[t][k] = s[t].get(k, 0) + v
        return r

    def _fresh(self, spec, n, kw):
        """Run a plain job in a new interpreter, whose string hashes (and so the order of sets) are different."""
        cfg, after, hashseed = spec
        d = self.dir()
        names = [os.path.join(d, x) for x in ("spec", "result")]
        with open(names[0], "wb") as f:
            pickle.dump({"n": n, "cfg": cfg, "after": after and (after.__module__, after.__name__), "kw": kw}, f)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.path.dirname(os.path.abspath(__file__)), "fresh.py")] + names,
                           env=env, capture_output=True, text=True, cwd=harness.REPO)
        if p.returncode != 0:
            raise Harness("new interpreter failed: " + p.stderr[-1500:])
        self.stats["events"]["new_interpreter"] = self.stats["events"].get("new_interpreter", 0) + 1
        with open(names[1], "rb") as f:
            return pickle.load(f)

    def job(self, label, n, conf, workdir, *, after=None, before=None, comm=None, policy=None, hashseed=None, **kw):
        """A whole simulation (object built, run to the end) on n ranks. Value per rank: after(sim) or None.

        hashseed: run it in a new interpreter with that hash seed."""
        cfg = os.path.join(workdir, "w", "c_%s.ini" % label)
        with open(cfg, "w") as f:
            f.write(conf)

        def body(rank, world):
            import simulation

            c = comm(rank, world) if comm is not None else None
            if comm is not None and c is None:
                return ("outside",)
            s = simulation.Simulation(cfg) if c is None else simulation.Simulation(cfg, comm=c)
            if before is not None:
                before(s, rank, world)
            s.run()
            return after(s) if after is not None else None

        kw.setdefault("disk_root", os.path.join(workdir, "w"))
        kw.setdefault("cwd", workdir)
        if hashseed is not None:
            assert before is None and comm is None
            kw["fresh"] = (cfg, after, hashseed)
        return self.world(label, n, body, policy=policy, **kw)


def ended_ok(r):
    return r["end"]["kind"] == "completed" and all(o == "returned" for o in r["outcome"])


def failed_everywhere(r):
    """Every rank ended by itself, each with an error."""
    return r["end"]["kind"] == "completed" and all(o in ("raised", "exit") for o in r["outcome"])


def describe_end(r):
    k = r["end"]["kind"]
    oc = {}
    for i, o in enumerate(r["outcome"]):
        oc.setdefault((str(o), (r["exc"][i] or "")[:160]), []).append(i)
    s = "; ".join("%s%s on ranks %s" % (o, (" [" + e + "]") if e else "", rk if len(rk) < 9 else "%s.. (%d)" % (rk[:4], len(rk)))
                  for (o, e), rk in oc.items())
    if k == "fatal_signal":
        return "fatal_signal: the process was ended by " + r["end"]["detail"]
    if k == "cpu_limit":
        return "cpu_limit: still computing after %s of processor time" % r["end"]["detail"]
    if k in ("deadlock", "step_cap", "collective_mismatch"):
        b = [x for x in r["blocked"] if "blocked" in x][:3]
        s += " | waiting: " + " / ".join(b)
        if k == "collective_mismatch":
            s += " | %s" % (r["end"]["detail"],)
    return k + ": " + s


# ------------------------------------------------------------------------------------------------ policies
def gen_policy(rng, n, clock=True, reduce_random=False):
    """A random environment: scheduler, delivery, rooted-collective synchronisation, clock."""
    p = {"sched": rng.choice(["random", "random", "sticky", "priority", "starve", "plain"]),
         "deliver": rng.choice(["random", "random", "lazy", "eager"]),
         "sync_p": rng.choice([0.0, 0.3, 0.5, 1.0]),
         "switch_p": rng.choice([0.03, 0.1, 0.3]),
         "prio_changes": rng.choice([0, 3, 10]),
         "clock": rng.choice(["steady", "slow", "jumpy", "wild", "coarse"]) if clock else "steady",
         "t0": rng.choice([1.7e9, 1.7e9, 9.9e8, 4.2e9]) if clock else 1.7e9,
         "poison": rng.choice([0, 0, 1, 2])}
    if p["sched"] == "starve":
        k = rng.randrange(1, max(2, n // 3))
        p["starve"] = sorted(rng.sample(range(n), k))
    if reduce_random:
        p["reduce"] = rng.choice(["linear", "random"])
    return p


# ------------------------------------------------------------------------------------------------ running scenarios
def scenario_rng(seed, prop, tier, index):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, "", index)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def execute(mod, sc, replay=None, slack=1):
    """Run one scenario: (violations, ctx). Harness problems raise."""
    ctx = Ctx(sc, replay, {"slack": slack})
    try:
        mod.run(sc, ctx)
    finally:
        ctx.cleanup()
    return ctx.viol, ctx


def execute_safe(mod, sc, replay=None, slack=1):
    try:
        v, c = execute(mod, sc, replay, slack)
        return v, c, None
    except Exception:
        return [], None, traceback.format_exc()


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            d = dict(x.split("=", 1) for x in parts[1:3])
            if d.get("property") == prop:
                out[d["key"]] = parts[3]
    return out


# ------------------------------------------------------------------------------------------------ minimisation
def minimise(mod, sc, ctx, key, budget):
    """Smaller scenario + decisions that still give a violation with the same key."""
    t_end = monotonic() + budget
    best = (sc, ctx.decisions)
    tried = 0

    def attempt(s, rep):
        nonlocal tried, best
        if monotonic() > t_end:
            return False
        tried += 1
        v, c, err = execute_safe(mod, s, rep)
        if err is None and any(x.key == key for x in v):
            best = (s, c.decisions)
            return True
        return False

    # 1. property-specific shrinking (fewer ranks, steps, faults...), keeping the seeded policy
    if hasattr(mod, "shrink"):
        progress = True
        while progress and monotonic() < t_end:
            progress = False
            for s2 in mod.shrink(best[0]):
                if monotonic() > t_end:
                    break
                if attempt(s2, None):
                    progress = True
                    break
    # 2. drop faults
    fs = best[0].get("faults") or []
    i = 0
    while i < len(fs) and monotonic() < t_end:
        s2 = dict(best[0])
        s2["faults"] = fs[:i] + fs[i + 1:]
        if attempt(s2, None):
            fs = s2["faults"]
        else:
            i += 1
    # 3. no scheduling decision at all
    if any(best[1].values()):
        if not attempt(best[0], {}):
            # 4. delta debugging over the non-default decisions
            items = [(l, k, v) for l, d in best[1].items() for k, v in d.items()]
            n = 2
            while len(items) >= 1 and monotonic() < t_end:
                size = max(1, len(items) // n)
                cut = False
                for a in range(0, len(items), size):
                    rest = items[:a] + items[a + size:]
                    rep = {}
                    for l, k, v in rest:
                        rep.setdefault(l, {})[k] = v
                    if attempt(best[0], rep):
                        items = [(l, k, v) for l, d in best[1].items() for k, v in d.items()]
                        n = max(2, n - 1)
                        cut = True
                        break
                    if monotonic() > t_end:
                        break
                if not cut:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
    return best, tried


# ------------------------------------------------------------------------------------------------ workers
def _worker(w, nw, mod, prop, seed, tier, indices, deadline, fd):
    import simdisk

    def send(obj):
        data = pickle.dumps(obj)
        data = len(data).to_bytes(8, "big") + data
        off = 0
        while off < len(data):
            off += os.write(fd, data[off:])

    for i in indices:
        if monotonic() > deadline:
            send(("late", i))
            break
        rng = scenario_rng(seed, prop, tier, i)
        t0 = monotonic()
        try:
            sc = mod.gen(rng, i, tier)
        except Exception:
            send(("harness", i, None, traceback.format_exc()))
            continue
        sc["seed"] = rng.getrandbits(31)
        sc["index"] = i
        v, c, err = execute_safe(mod, sc)
        if err is not None:
            v, c, err2 = execute_safe(mod, sc, slack=2)
            if err2 is not None:
                send(("harness", i, sc, err2))
                continue
        send(("run", i, sc, [x.d() for x in v], c.decisions if v else {}, c.stats, c.sig, monotonic() - t0))
    send(("done", w))


def run_pool(mod, prop, seed, tier, count, wall, stop_on=None):
    """Run indices 0..count-1 over forked workers. Yields messages."""
    deadline = monotonic() + wall
    nw = min(NWORKERS, count)
    pids, fds = [], []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                _worker(w, nw, mod, prop, seed, tier, range(w, count, nw), deadline, wr)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        fds.append(r)
    bufs = {fd: b"" for fd in fds}
    live = set(fds)
    finished = set()
    try:
        while live:
            ready, _, _ = select.select(list(live), [], [], 30)
            for fd in ready:
                c = os.read(fd, 1 << 20)
                if not c:
                    live.discard(fd)
                    if fd not in finished:
                        yield ("died", fds.index(fd))
                    continue
                bufs[fd] += c
                while len(bufs[fd]) >= 8:
                    ln = int.from_bytes(bufs[fd][:8], "big")
                    if len(bufs[fd]) < 8 + ln:
                        break
                    m = pickle.loads(bufs[fd][8 : 8 + ln])
                    bufs[fd] = bufs[fd][8 + ln :]
                    if m[0] == "done":
                        finished.add(fd)
                    else:
                        yield m
    finally:
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        for fd in fds:
            os.close(fd)


# ------------------------------------------------------------------------------------------------ replay
def write_replay(prop, sc, decisions, viol, stats, extra):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%08x.json" % (prop, sc.get("index", "x"), zlib.crc32(json.dumps(sc, sort_keys=True).encode())))
    with open(p, "w") as f:
        json.dump({"property": prop, "scenario": sc, "decisions": decisions, "violation": viol, "history_hash": stats["hash"],
                   "faults_fired": stats["faults"], **extra}, f, indent=1)
    return p


def load_mod(prop):
    import importlib

    p = os.path.join(ROOT, "props")
    if p not in sys.path:
        sys.path.insert(0, p)
    return importlib.import_module(prop.lower())


def prepare(mod, tier):
    ok, msg = harness.build_kernels()
    if not ok:
        raise Harness("the kernels do not build:\n" + msg)
    harness.template(getattr(mod, "max_ranks", lambda t: 6)(tier))


def replay_file(path):
    d = json.load(open(path))
    mod = load_mod(d["property"])
    prepare(mod, "thorough")
    v, c, err = execute_safe(mod, d["scenario"], d["decisions"], slack=4)
    if err:
        print(err)
        return 2
    hit = [x for x in v if x.key == d["violation"]["key"]]
    same = c.stats["hash"] == d["history_hash"]
    for x in v:
        print("violation: %s: %s" % (x.key, x.what))
        if x.detail:
            print("   ", x.detail)
    print("history hash %s (%s)" % (c.stats["hash"], "identical to the recorded one" if same else "DIFFERENT from the recorded one"))
    if hit:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation")
    return 0


# ------------------------------------------------------------------------------------------------ main check
def hashes(prop, seed, count):
    """History hash of each of the first runs, as {index: hash} (for the determinism self-check)."""
    mod = load_mod(prop)
    prepare(mod, "quick")
    out = {}
    for m in run_pool(mod, prop, seed, "quick", count, 600):
        if m[0] == "run":
            out[m[1]] = "%08x/%d/%d" % (m[5]["hash"], m[5]["steps"], len(m[3]))
        elif m[0] in ("harness", "died"):
            out[m[1]] = m[0]
    return out


def determinism(props, count):
    """Each property's first runs, executed twice: other number of workers, other string hashing. Same histories?"""
    import subprocess

    bad = 0
    for prop in props:
        res = []
        for workers, hs in (("8", "0"), ("3", "12345")):
            env = dict(os.environ, VERIF_WORKERS=workers, PYTHONHASHSEED=hs, VERIF_REEXEC="1")
            o = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "hashes", prop, str(count)], env=env, capture_output=True, text=True)
            res.append(json.loads(o.stdout.strip().split("\n")[-1]) if o.returncode == 0 else {"error": o.stderr[-2000:]})
        diff = [k for k in sorted(set(res[0]) | set(res[1])) if res[0].get(k) != res[1].get(k)]
        print("%s: %d runs twice, %s" % (prop, len(res[0]), "identical" if not diff else "DIFFERENT: %s" % diff[:5]), flush=True)
        bad += bool(diff)
    return 1 if bad else 0


def check(prop, tier, seed):
    t0 = monotonic()
    mod = load_mod(prop)
    try:
        prepare(mod, tier)
    except Exception as e:
        print("CHECK-ERROR: %s" % e)
        return 2
    t_prep = monotonic() - t0
    known = known_findings(prop)
    count, wall = mod.budget(tier)
    if os.environ.get("VERIF_RUNS"):
        count = int(os.environ["VERIF_RUNS"])
    agg = {"worlds": 0, "steps": 0, "switches": 0, "sim_time": 0.0, "faults": {}, "events": {}}
    hashes, sigs, samples, kinds = set(), {}, [], {}
    runs = late = 0
    herr = []
    viols = []
    known_hit = {}
    times, cpus = [], []
    t1 = monotonic()

    # Listed findings: replay each one's own scenario
    for key, what in known.items():
        sc = mod.known_scenario(key)
        sc.setdefault("seed", 1)
        v, c, err = execute_safe(mod, sc, slack=4)
        if err:
            herr.append(("known " + key, err))
            continue
        for x in v:
            if x.key == key:
                known_hit[key] = x.what
            elif x.key not in known:
                viols.append((-1, sc, x.d(), c.decisions, c.stats))

    first = None
    if not viols:
        for m in run_pool(mod, prop, seed, tier, count, wall):
            if m[0] == "run":
                _, i, sc, vs, dec, st, sig, dt = m
                runs += 1
                times.append(dt)
                cpus.append(st.get("cpu", 0.0))
                if os.environ.get("VERIF_TIMES"):
                    print("%6.1f s run %d %s" % (dt, i, sig))
                for k in ("worlds", "steps", "switches", "sim_time"):
                    agg[k] += st[k]
                for t in ("faults", "events"):
                    for k, v in st[t].items():
                        agg[t][k] = agg[t].get(k, 0) + v
                hashes.add(st["hash"])
                for s in sig:
                    sigs[s] = sigs.get(s, 0) + 1
                if len(samples) < 4:
                    samples.append({"scenario": sc, "worlds": st["worlds"], "sim_steps": st["steps"], "faults_fired": st["faults"]})
                for x in vs:
                    if x["key"] in known:
                        known_hit.setdefault(x["key"], x["what"])
                    else:
                        viols.append((i, sc, x, dec, st))
                if viols:
                    break
            elif m[0] == "harness":
                herr.append((m[1], m[3]))
            elif m[0] == "late":
                late += 1
            elif m[0] == "died":
                herr.append((m[1], "worker died"))
    t_search = monotonic() - t1

    for key in known:
        if key in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))

    rc = 0
    if viols:
        i, sc, x, dec, st = sorted(viols, key=lambda q: q[0])[0]
        print("violated in run %s: %s: %s" % (i, x["key"], x["what"]))
        c0 = Ctx(sc)
        c0.decisions = dec
        (sc2, dec2), tried = minimise(mod, sc, c0, x["key"], 60 if tier == "quick" else 300)
        v, c, err = execute_safe(mod, sc2, dec2, slack=4)
        hit = [y for y in v if y.key == x["key"]]
        if not hit:  # fall back to the original, exactly as found
            sc2, dec2 = sc, dec
            v, c, err = execute_safe(mod, sc2, dec2, slack=4)
            hit = [y for y in v if y.key == x["key"]]
        if not hit:
            print("CHECK-ERROR: the violation did not reproduce when replayed (%s)" % (err or "no violation"))
            rc = 2
        else:
            nd = sum(len(d) for d in dec2.values())
            p = write_replay(prop, sc2, dec2, hit[0].d(), c.stats, {
                "tier": tier, "verif_seed": seed, "nondefault_decisions": nd, "minimisation_attempts": tried,
                "original": {"scenario": sc, "nondefault_decisions": sum(len(d) for d in dec.values())}})
            r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "replay", p], capture_output=True, text=True)
            print("minimised: %d scheduling decisions, scenario %s" % (nd, json.dumps({k: v for k, v in sc2.items() if k != "policy"})[:600]))
            print("  %s" % hit[0].what)
            if hit[0].detail:
                print("  %s" % (str(hit[0].detail)[:1500]))
            print("  replayed in a fresh process: %s" % ("reproduced" if r.returncode == 1 else "NOT reproduced: " + r.stdout[-500:]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            rc = 1
    elif herr:
        print("CHECK-ERROR: %d harness failures; first: %s\n%s" % (len(herr), herr[0][0], herr[0][1]))
        if len(herr) > max(1, runs // 50) or runs == 0:
            rc = 2

    wall_s = monotonic() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE + " Distinct: different CRC of the complete event history (every MPI call, message delivery, "
                    "file operation and rank switch, in order) over all simulated worlds of the run.",
            "samples": samples,
            "planned_runs": count, "workers_stopped_by_wall_limit": late,
            "simulated_worlds": agg["worlds"],
            "runs_per_hour": round(runs / max(t_search, 1e-9) * 3600),
            "worlds_per_hour": round(agg["worlds"] / max(t_search, 1e-9) * 3600),
            "simulated_seconds": round(agg["sim_time"], 3),
            "scheduling_steps": agg["steps"], "rank_switches": agg["switches"],
            "faults_injected": agg["faults"], "mpi_and_io_events": agg["events"],
            "distinct_scenario_signatures": len(sigs),
            "scenario_signatures": dict(sorted(sigs.items(), key=lambda kv: -kv[1])[:60]),
            "real_components": REAL, "stubbed_components": STUB,
            "known_findings_seen": sorted(known_hit), "harness_errors": len(herr),
            "prepare_s": round(t_prep, 1), "max_world_cpu_s": round(max(cpus, default=0.0), 2),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall_s, 2),
        "violations": len(viols),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d runs (%d worlds, %d distinct histories), %d steps, faults %s, %.0f s%s" % (
        prop, tier, runs, agg["worlds"], len(hashes), agg["steps"], agg["faults"], wall_s,
        " | max run %.1f s, max world %.1f CPU s" % (max(times), max(cpus)) if times else ""))
    return rc
