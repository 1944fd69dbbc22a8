"""A NaN on any process stops every process in that very step, before anything of it is written."""

import glob
import os
import re

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: in a random job (6 or 24 ranks, all integrator families, all outputs on) the result of one time step is corrupted with NaN at "
        "random points of one or several ranks (or, for explicit integrators, the state entering it, so that the NaN travels through the "
        "halo exchange; or what the filters make of it); scheduler, delivery and clock random; one run in six has no NaN, half of these extreme finite values. Checked: every rank stops with an error in that "
        "step, none starts another one, no saved state / netCDF record / printed diagnostic of that step exists, those of the earlier steps "
        "are complete and finite; without NaN the job completes.")
ASSUMPTIONS = ["solver statistics of a failing step may be recorded (they describe the solver, not the state)"]


def max_ranks(tier):
    return 24


def budget(tier):
    return (160, 100) if tier == "quick" else (6000, 1200)


def gen(rng, i, tier):
    n = rng.choice([6, 6, 6, 24])
    sc = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT * 2 + (jobs.ALL_INT if n == 6 else []), steps=rng.choice([1, 2, 3, 4]),
                          expsolvers=["pmex", "kiops", "pmex_ne1s", "icwy_ne"])
    if rng.random() < 0.06:
        n = 1
        sc = jobs.gen_cart(rng, jobs.EXPLICIT * 2 + jobs.ALL_INT, steps=rng.choice([1, 2, 3, 4]))
    sc["kw"].update(output_freq=rng.choice([1, 1, 2, 0]), save_state_freq=rng.choice([1, 1, 2, 0]), stat_freq=rng.choice([0, 1]),
                    store_solver_stats=rng.choice([0, 1]))
    sc["control"] = i % 6 == 5
    sc["at"] = rng.randrange(1, jobs.steps_of(sc) + 1)
    sc["ranks"] = sorted(rng.sample(range(n), rng.choice([1, 1, 1, 2, n])))
    sc["points"] = rng.choice([1, 1, 3])
    sc["where"] = "in" if sc["kw"]["time_integrator"] in jobs.EXPLICIT and rng.random() < 0.3 else "out"
    if rng.random() < 0.2:
        sc["where"] = "filter"
    if sc["control"] and rng.random() < 0.5:
        # extreme but finite values in the last step are no reason to stop
        sc["where"] = "huge"
        sc["at"] = jobs.steps_of(sc)
        sc["kw"].update(output_freq=0, stat_freq=0)
    sc["sign"] = rng.choice([1, -1])
    sc["policy"] = frame.gen_policy(rng, n)
    return sc


def shrink(sc):
    if len(sc["ranks"]) > 1:
        yield {**sc, "ranks": sc["ranks"][:1]}
    for k in ("stat_freq", "store_solver_stats", "output_freq", "save_state_freq"):
        if sc["kw"].get(k):
            yield {**sc, "kw": {**sc["kw"], k: 0}}
    kw = sc["kw"]
    if sc["at"] > 1:
        yield {**sc, "at": sc["at"] - 1, "kw": {**kw, "t_end": kw["dt"] * max(1, jobs.steps_of(sc) - 1)}}


def run(sc, ctx):
    d = ctx.dir()
    n = sc["n"]
    kw = sc["kw"]
    cfg = os.path.join(d, "w", "c.ini")
    with open(cfg, "w") as f:
        f.write(jobs.conf(sc, output_dir="w/out", base_output_file="o", solver_stats_file="s.db"))

    def body(rank, world):
        import simulation

        s = simulation.Simulation(cfg)
        notes = world.__dict__.setdefault("notes", {})
        notes[rank] = [0, None, False]  # steps performed, first one whose result has NaN, whether one had infinities
        real = s.integrator.step

        def stepped(Q, dt):
            notes[rank][0] += 1
            now = notes[rank][0] == sc["at"] and rank in sc["ranks"]
            bad = now and not sc["control"]
            g = numpy.random.RandomState((sc["seed"] + rank) % (1 << 31))

            def spoil(q):
                q = numpy.array(q)
                flat = q.reshape(-1)
                for _ in range(sc["points"]):
                    flat[g.randint(flat.size)] = numpy.copysign(1e290 if sc["control"] else numpy.nan, sc["sign"])
                return q

            if bad and sc["where"] == "in":
                Q = spoil(Q)
            r = real(Q, dt)
            if bad and sc["where"] == "out" or now and sc["where"] == "huge":
                r = spoil(r)
            if notes[rank][1] is None and numpy.isnan(r).any():
                notes[rank][1] = notes[rank][0]
            if numpy.isinf(r).any():
                notes[rank][2] = True
            return r

        if sc["where"] == "filter" and hasattr(s.operators, "apply_filters"):
            filt = s.operators.apply_filters

            def filtered(*a, **k):
                r = filt(*a, **k)
                if notes[rank][0] == sc["at"] and rank in sc["ranks"] and not sc["control"]:
                    q = numpy.array(r)
                    q.reshape(-1)[(sc["seed"] + rank) % q.size] = numpy.nan
                    r = q
                    if notes[rank][1] is None:
                        notes[rank][1] = notes[rank][0]
                return r

            s.operators.apply_filters = filtered
        s.integrator.step = stepped
        try:
            s.run()
        except BaseException:
            if rank == 0 and world.end is None:
                s.output.finalize(0.0)
            raise
        return s.step_id

    r = ctx.world("x", n, body, disk_root=os.path.join(d, "w"), cwd=d, collect=lambda w, k: dict(w.__dict__.get("notes", {})))
    ctx.sig.append("%s/%s/%d/%s/%s" % (sc["eq"], kw["time_integrator"], n, "control" if sc["control"] else sc["where"], len(sc["ranks"])))
    steps = jobs.steps_of(sc)
    notes = r["post"] or {}
    if not sc["control"]:
        ctx.stats["faults"]["nan"] = ctx.stats["faults"].get("nan", 0) + len(sc["ranks"])
    nan_at = [v[1] for v in notes.values() if v[1] is not None]
    at = min(nan_at) if nan_at else None
    if at is None:
        if not frame.ended_ok(r):
            msgs = " ".join(str(e) for e in r["exc"] if e)
            if frame.failed_everywhere(r) and (any(v[2] for v in notes.values()) or re.search("infs|ingular|verflow", msgs)):
                return  # the numerical method itself broke down
            ctx.fail("control", "a job without NaN did not complete: " + frame.describe_end(r))
            return
        last = steps + 1
    else:
        if not frame.failed_everywhere(r):
            ctx.fail("stop", "NaN on ranks %s in step %d does not stop every process: %s" % (
                [k for k, v in notes.items() if v[1] == at][:8], at, frame.describe_end(r)))
            return
        done = sorted({v[0] for v in notes.values()})
        if done != [at]:
            ctx.fail("late", "NaN in step %d, but processes performed %s steps" % (at, done))
            return
        last = at
    # what was written: steps 0 .. last-1
    out = os.path.join(d, "w", "out")
    if kw.get("save_state_freq"):
        f = kw["save_state_freq"]
        want = [k for k in range(last) if k % f == 0]
        got = sorted(int(p.rsplit(".", 2)[1]) for p in glob.glob(os.path.join(out, "state_vector_*.npy")))
        if got != want:
            ctx.fail("states", "saved states after a NaN in step %s: %s, expected %s" % (last, got, want))
        for p in glob.glob(os.path.join(out, "state_vector_*.npy")):
            with open(p, "rb") as fh:
                if numpy.isnan(numpy.load(fh)).any():
                    ctx.fail("nan_state", "a saved state contains NaN")
    if kw.get("output_freq") and sc["eq"] == "cart":
        got = sorted(int(x[:-4].split("_")[-1]) for x in os.listdir(out) if x.endswith(".png"))
        want = [k for k in range(last) if k % kw["output_freq"] == 0 and kw["case_number"] == 2]
        if got != want:
            ctx.fail("images", "images after a NaN in step %s: %s, expected %s" % (last, got, want))
    elif kw.get("output_freq"):
        f = kw["output_freq"]
        nc = jobs.read_nc(os.path.join(out, "o.nc"))
        want = [min(k * kw["dt"], kw["t_end"]) for k in range(last) if k % f == 0]
        if list(nc["time"][1]) != want:
            ctx.fail("records", "netCDF records after a NaN in step %s: times %s, expected %s" % (last, list(nc["time"][1]), want))
        else:
            k = "h" if sc["eq"] == "sw" else "rho"  # (quantities computed from a finite state may overflow)
            if numpy.isnan(nc[k][1]).any():
                ctx.fail("nan_record", "netCDF variable %s contains NaN or missing values" % k)
    if kw.get("stat_freq") and sc["eq"] == "sw":
        f = kw["stat_freq"]
        got = [int(x) for x in re.findall(r"^Blockstats for timestep (\d+)", r["out"][0], re.M)]
        want = [k for k in range(last) if k % f == 0]
        if got != want:
            ctx.fail("diagnostics", "diagnostics printed for steps %s, expected %s" % (got, want))
