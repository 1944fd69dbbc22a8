"""Producing output never changes the simulation."""

import os

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: a random job (all equations, cases with topography, integrators, filters, 6 or 24 ranks) is run without any output and with a "
        "random combination of netCDF output, saved states, printed diagnostics, solver statistics and total time at random frequencies, the "
        "two in independently seeded environments (scheduler, delivery, clock). Checked bitwise on every rank: state after every step, "
        "topography and initial state.")
ASSUMPTIONS = ["reductions combine contributions in rank order"]


def max_ranks(tier):
    return 24


def budget(tier):
    return (80, 110) if tier == "quick" else (4000, 1500)


def gen(rng, i, tier):
    n = rng.choice([6, 6, 6, 24])
    sc = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT * 4 + (jobs.ALL_INT if n == 6 else []))
    if rng.random() < 0.08:
        sc = jobs.gen_cart(rng, jobs.EXPLICIT * 2 + jobs.ALL_INT)
        n = 1
    kw = sc["kw"]
    if sc["eq"] == "euler" and rng.random() < 0.3:
        kw.update(expfilter_apply=1, expfilter_order=4, expfilter_strength=2.0, expfilter_cutoff=0.25)
    if sc["eq"] != "cart" and rng.random() < 0.4:
        kw["case_number"] = 5 if sc["eq"] == "sw" else 21  # topography
        kw["dt"] = kw["dt"] if sc["eq"] == "sw" else min(kw["dt"], 5)
        kw["t_end"] = kw["dt"] * rng.choice([1, 2, 3])
    while True:
        o = {"output_freq": rng.choice([0, 1, 1, 2]), "save_state_freq": rng.choice([0, 1, 2]), "stat_freq": rng.choice([0, 1, 2]),
             "store_solver_stats": rng.choice([0, 1]), "store_total_time": rng.choice([0, 1])}
        if any(o.values()):
            break
    sc["out"] = o
    sc["policy"] = frame.gen_policy(rng, n)
    sc["policy2"] = frame.gen_policy(rng, n)
    return sc


def shrink(sc):
    yield from jobs.shrink_problem(sc)
    for k, v in sc["out"].items():
        if v and sum(1 for x in sc["out"].values() if x) > 1:
            yield {**sc, "out": {**sc["out"], k: 0}}


def run(sc, ctx):
    n = sc["n"]

    def before(s, rank, world):
        notes = world.__dict__.setdefault("notes", {})
        rec = notes.setdefault(rank, [])
        rec.append(jobs.local_bytes(s))
        real = s.step

        def step():
            r = real()
            rec.append(jobs.local_bytes(s))
            return r

        s.step = step

    def after(s):
        return None

    ctx.sig.append("%s/%s/%d/case%s/%s" % (sc["eq"], sc["kw"]["time_integrator"], n, sc["kw"]["case_number"], "".join(k[0] + k[-6] for k, v in sc["out"].items() if v)))
    res = []
    zero = {k: 0 for k in sc["out"]}
    for lab, o, pol in (("quiet", zero, sc["policy"]), ("output", sc["out"], sc["policy2"])):
        d = ctx.dir()
        r = ctx.job(lab, n, jobs.conf(sc, output_dir="w/out", base_output_file="o", solver_stats_file="s.db", **o), d, before=before, after=after,
                    policy=pol, collect=lambda w, q: w.__dict__.get("notes"))
        res.append((r["end"]["kind"] + str(sorted(set(r["outcome"]))), r["post"], r))
    (ea, a, ra), (eb, b, rb) = res
    if ea != eb:
        ctx.fail("end", "with output the job ends differently: %s <> %s" % (frame.describe_end(ra), frame.describe_end(rb)))
        return
    if a is None or b is None:
        return
    for rank in range(n):
        x, y = a.get(rank, []), b.get(rank, [])
        if len(x) != len(y):
            ctx.fail("steps", "rank %d performs %d steps without output and %d with it" % (rank, len(x) - 1, len(y) - 1))
            return
        for k, (p, q) in enumerate(zip(x, y)):
            if p != q:
                u, v = numpy.frombuffer(p), numpy.frombuffer(q)
                ctx.fail("state", "output %s changes the state of rank %d after step %d (max difference %g)" % (
                    {m: w for m, w in sc["out"].items() if w}, rank, k, numpy.nanmax(numpy.abs(u - v)) if u.shape == v.shape else float("nan")))
                return
