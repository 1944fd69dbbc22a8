"""Steps: as many as announced, ending exactly at the end time, everything at its frequency, on all processes alike."""

import os
import re
from fractions import Fraction

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: time step and end time at random (whole numbers, decimal fractions whose ratio is whole only up to round-off, thirds, tiny or almost "
        "complete last steps, end time below one step, no step at all), random output, saved-state and diagnostic frequencies, random starting step "
        "(restart), driven by run(), by single steps, or by a few steps and then run(); 6 or 24 ranks, random scheduler, delivery and a clock that "
        "runs slowly or jumps (also backwards). The steps each process performs (number, length, time) are recorded and compared with exact rational "
        "arithmetic; output, saved states, diagnostics and announcements must exist for exactly the right steps.")
ASSUMPTIONS = ["remainders between 1e-12 and 1e-6 of a time step are not generated (the model rounds them off)",
               "times are compared to 1e-9 of a time step; the final time must be exactly the configured one"]


def max_ranks(tier):
    return 24


def budget(tier):
    return (260, 110) if tier == "quick" else (6000, 1500)


def gen(rng, i, tier):
    n = 24 if rng.random() < 0.08 else 6
    k = rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 13]) if n == 6 else rng.choice([1, 2, 3])
    mode = rng.choice(["whole", "decimal", "decimal", "decimal", "third", "remainder", "remainder", "almost", "tiny", "short", "none"])
    if mode == "whole":
        dt = rng.choice([300, 450, 600, 37])
        te = dt * k
    elif mode == "decimal":
        # both written as decimals: their ratio is whole, the ratio of the doubles almost
        m = rng.choice([1, 3, 7, 11, 13, 29, 49, 57])
        e = rng.choice([10, 100, 1000])
        if n == 6 and rng.random() < 0.5:
            k = rng.choice([3, 6, 7, 9, 12, 14, 17, 19, 23])
        dt = "%r" % (m / e)
        te = str(Fraction(m * k, e).numerator / Fraction(m * k, e).denominator)
    elif mode == "third":
        dt = "%.17g" % (100.0 / 3.0)
        te = "%.17g" % (100.0 / 3.0 * k)
    elif mode == "remainder":
        dt = rng.choice([300, 0.7, 12.5])
        te = dt * (k - 1) + dt * rng.choice([0.25, 0.5, 0.9])
    elif mode == "almost":
        dt = rng.choice([300, 45])
        te = dt * (k - 1) + dt * 0.999
    elif mode == "tiny":
        dt = rng.choice([300, 45])
        te = dt * k + dt * 0.001
    elif mode == "short":
        dt, te = 300, rng.choice([100, 299.0, 0.5])
    else:
        dt, te = 300, 0
    kw = {"num_elements_horizontal": 2 if n == 6 else 4, "num_solpts": 2, "case_number": rng.choice([2, 5, 6]), "time_integrator": rng.choice(["tvdrk3", "euler1"]),
          "dt": dt, "t_end": te}
    sc = {"n": n, "eq": "sw", "kw": kw, "mode": mode}
    if n == 6 and rng.random() < 0.1:
        # two-dimensional problem on one process (shorter time steps)
        n = 1
        sc.update(n=1, eq="cart")
        a, b = float(dt), float(te)
        while a > 0.15:
            a, b = a / 2, b / 2
        kw.update(dt="%r" % a, t_end="%r" % b)
        kw.update(case_number=2, num_elements_vertical=2)
    for f in ("output_freq", "save_state_freq", "stat_freq"):
        kw[f] = rng.choice([0, 1, 1, 2, 3, 5])
    N = expected(kw)
    sc["start"] = rng.randrange(1, N + 2) if rng.random() < 0.35 and N > 0 else 0
    sc["drive"] = rng.choice(["run", "run", "run", "step", "step_run"])
    sc["some"] = rng.randrange(0, 4)
    sc["policy"] = frame.gen_policy(rng, n)
    return sc


def shrink(sc):
    kw = sc["kw"]
    if sc["n"] > 6:
        yield {**sc, "n": 6, "kw": {**kw, "num_elements_horizontal": 2}}
    for f in ("output_freq", "save_state_freq", "stat_freq"):
        if kw[f]:
            yield {**sc, "kw": {**kw, f: 0}}
    if sc["start"]:
        yield {**sc, "start": 0}
    if sc["drive"] != "run":
        yield {**sc, "drive": "run"}


def expected(kw):
    q = Fraction(float(kw["t_end"])) / Fraction(float(kw["dt"]))
    r = round(q)
    if abs(q - r) < Fraction(1, 10**8):
        return int(r)
    return int(q.__ceil__())


def run(sc, ctx):
    n, kw = sc["n"], sc["kw"]
    N = expected(kw)
    dt, te = float(kw["dt"]), float(kw["t_end"])
    d = ctx.dir()
    start = sc["start"]
    conf = lambda **o: jobs.conf(sc, output_dir="w/out", base_output_file="o", **o)
    if start:
        # a saved state of that step must exist: take any state
        def state(s):
            from output.state import save_state

            q = jobs.full_state(s)
            if q is not None:
                save_state(q[0] if s.process_topo is None else q, s.config, s.output.state_file_name(start), device=s.device)

        r0 = ctx.job("first", n, conf(t_end=0, output_freq=0, save_state_freq=0, stat_freq=0), d, after=state, policy={"sched": "plain"})
        if not frame.ended_ok(r0):
            ctx.sig.append("does not run")
            return

    cfg = os.path.join(d, "w", "c.ini")
    with open(cfg, "w") as f:
        f.write(conf(starting_step=start))

    def body(rank, world):
        import simulation

        notes = world.__dict__.setdefault("notes", {})
        s = simulation.Simulation(cfg)
        rec = notes[rank] = {"steps": [], "begin": (s.step_id, float(s.t)), "phase": 0}
        real = s.integrator.step

        def step(Q, h):
            rec["steps"].append((rec["phase"], s.step_id, float(h), float(s.t)))
            return real(Q, h)

        s.integrator.step = step
        if sc["drive"] == "step_run":
            for _ in range(sc["some"]):
                s.step()
            rec["phase"] = 1
            rec["mark"] = len("".join(world.ranks[rank].out))
            s.run()
        elif sc["drive"] == "step":
            k = 0
            while s.step():
                k += 1
                if k > 60:
                    break
            s.step()  # nothing left to do
            s.output.finalize(0.0)
        else:
            rec["mark"] = 0
            s.run()
        rec["end"] = (s.step_id, float(s.t), [int(x) for x in re.findall(r"^Step \d+ of (-?\d+)", "".join(world.ranks[rank].out), re.M)])
        return rec

    r = ctx.world("x", n, body, disk_root=os.path.join(d, "w"), cwd=d)
    ctx.sig.append("%s/%s%s" % (sc["mode"], sc["drive"], "/restart" if start else ""))
    if not frame.ended_ok(r):
        ctx.fail("end", "a supported job does not complete: " + frame.describe_end(r), [t[-400:] for t in r["tb"] if t][:1])
        return
    recs = r["value"]
    what = "dt %s, end time %s, starting step %d" % (kw["dt"], kw["t_end"], start)
    for k, rec in enumerate(recs):
        if (rec["steps"], rec["begin"], rec["end"][:2]) != (recs[0]["steps"], recs[0]["begin"], recs[0]["end"][:2]):
            ctx.fail("ranks", "%s: processes 0 and %d perform different steps: %s / %s" % (what, k, recs[0]["steps"][:3], rec["steps"][:3]))
            return
    rec = recs[0]
    tiny = 1e-9 * dt
    if rec["begin"][0] != start or abs(rec["begin"][1] - min(start * dt, te)) > tiny:
        ctx.fail("begin", "%s: begins at step %d, time %r" % (what, *rec["begin"]))
        return
    left = max(0, N - start)
    for phase in (0, 1):
        st = [x[1:] for x in rec["steps"] if x[0] == phase]
        if phase == 1 and sc["drive"] != "step_run":
            continue
        m = left
        if sc["drive"] == "step_run" and phase == 0:
            m = min(left, sc["some"])
        if [x[0] for x in st] != list(range(start + 1, start + m + 1)):
            ctx.fail("count", "%s: performs steps %s, expected %d to %d" % (what, [x[0] for x in st], start + 1, start + m))
            return
        for j, h, t in st:
            want_t = min(j * dt, te) if j < N else te
            want_h = dt if j < N else te - (N - 1) * dt
            if abs(h - want_h) > tiny * 10 or abs(t - want_t) > tiny * 10:
                ctx.fail("length", "%s: step %d has length %r and ends at %r instead of %r and %r" % (what, j, h, t, want_h, want_t))
                return
    if sc["drive"] != "step_run" or True:
        if rec["end"][0] != start + left or (left and rec["end"][1] != te):
            ctx.fail("final", "%s: ends at step %d and time %r instead of %d and %r" % (what, rec["end"][0], rec["end"][1], start + left, te))
            return
    if any(a != N for a in rec["end"][2]):
        ctx.fail("announced", "%s: announces %s steps and performs %d" % (what, sorted(set(rec["end"][2])), N))
        return
    # --- output
    out = os.path.join(d, "w", "out")
    steps = list(range(start, start + left + 1))
    wrong = []
    if kw["output_freq"]:
        cart = sc["eq"] == "cart"
        t = [] if cart else list(jobs.read_nc(os.path.join(out, "o.nc"))["time"][1])
        want = [j for j in steps if j % kw["output_freq"] == 0]
        if sc["drive"] == "step_run":
            early = [j for j in steps if j <= start + sc["some"]]
            want = [j for j in early if j % kw["output_freq"] == 0] + [j for j in steps[1:] if j % kw["output_freq"] == 0]
        if cart:
            t = sorted(int(x[:-4].split("_")[-1]) for x in os.listdir(out) if x.endswith(".png"))
            want = sorted(set(want))
            if t != want:
                wrong.append("images for steps %s instead of %s" % (t, want))
            t, want = [], []
        want = [te if j >= N else j * dt for j in want]
        if len(t) != len(want) or any(abs(a - b) > 10 * tiny for a, b in zip(t, want)):
            wrong.append("netCDF records at %s instead of %s" % (t, want))
    if kw["save_state_freq"]:
        got = sorted(int(x.split(".")[-2]) for x in os.listdir(out) if x.endswith(".npy"))
        want = sorted({j for j in steps if j % kw["save_state_freq"] == 0} | ({start} if start else set()))
        if got != want:
            wrong.append("saved states of steps %s instead of %s" % (got, want))
    text = r["out"][0]
    if kw["stat_freq"]:
        got = [int(x) for x in re.findall(r"^ ?Blockstats for timestep (\d+)", text, re.M)]
        want = [j for j in steps if j % kw["stat_freq"] == 0]
        if sc["drive"] == "step_run":
            want = [j for j in steps if j <= start + sc["some"] and j % kw["stat_freq"] == 0] + [j for j in steps[1:] if j % kw["stat_freq"] == 0]
        if got != want:
            wrong.append("diagnostics for steps %s instead of %s" % (got, want))
    if wrong:
        ctx.fail("frequency", "%s: %s" % (what, "; ".join(wrong)))
