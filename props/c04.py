"""The same global problem on different numbers of processes."""

import os

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: a random global problem is run on 6 ranks and on 24 (thorough: also 54) ranks in independently seeded environments "
        "(scheduler, delivery, clock), or stored on one process count and read back on another. Checked: final state, saved states, "
        "netCDF fields and coordinates agree, to round-off for explicit integrators, to the solver tolerance for the others.")
ASSUMPTIONS = ["exponential integrators agree to 1e-9, other iterative ones to 1e-6 relative (observed: below 1e-13 and 2e-8), since global sums are grouped differently"]


def max_ranks(tier):
    return 54


def budget(tier):
    return (72, 150) if tier == "quick" else (1500, 1800)


def gen(rng, i, tier):
    n = 54 if rng.random() < (0.15 if tier == "quick" else 0.3) else 24
    heavy = rng.random() < 0.12 and (n == 24 or tier != "quick")
    sc = jobs.gen_problem(rng, n, integrators=jobs.ALL_INT if heavy else jobs.EXPLICIT, steps=1 if heavy else None)
    if heavy:
        sc["kw"].update(num_solpts=2, num_elements_horizontal=4 if n == 24 else 6)
    sc["kw"]["output_freq"] = rng.choice([0, 1])
    sc["kw"]["save_state_freq"] = rng.choice([0, 1])
    f = rng.random()
    if f < 0.3 and sc["eq"] == "euler":
        sc["kw"].update(expfilter_apply=1, expfilter_order=rng.choice([2, 4]), expfilter_strength=2.0, expfilter_cutoff=0.25)
    sc["policy"] = frame.gen_policy(rng, n)
    sc["policy6"] = frame.gen_policy(rng, 6)
    return sc


def shrink(sc):
    kw = sc["kw"]
    for s in jobs.shrink_problem(sc):
        if s["n"] > 6:
            yield s
    for k in ("output_freq", "save_state_freq", "expfilter_apply"):
        if kw.get(k):
            yield {**sc, "kw": {**kw, k: 0}}


def coords(s):
    g = s.geometry
    lon = s.process_topo.gather_cube(g.block_lon, 2)
    lat = s.process_topo.gather_cube(g.block_lat, 2)
    return jobs.block_state(s), lon, lat


def run(sc, ctx):
    n = sc["n"]
    res = {}
    exact = sc["kw"]["time_integrator"] in jobs.EXPLICIT
    tol = 1e-11 if exact else (1e-9 if sc["kw"]["time_integrator"].startswith(jobs.EXPO[:2]) else 1e-6)
    ctx.sig.append("%s/%s/%s" % (sc["eq"], sc["kw"]["time_integrator"], n))
    for lab, m, pol in (("small", 6, sc["policy6"]), ("large", n, sc["policy"])):
        d = ctx.dir()
        out = os.path.join(d, "w", "out")
        r = ctx.job(lab, m, jobs.conf(sc, output_dir="w/out", base_output_file="o"), d, after=coords, policy=pol)
        if not frame.ended_ok(r):
            res[lab] = ("end", r)
            continue
        nc = jobs.read_nc(os.path.join(out, "o.nc")) if sc["kw"]["output_freq"] else {}
        ck = {}
        if sc["kw"]["save_state_freq"]:
            import glob

            for p in sorted(glob.glob(os.path.join(out, "state_vector_*.npy"))):
                with open(p, "rb") as f:
                    ck[os.path.basename(p)] = numpy.load(f)
        res[lab] = ("ok", r["value"][0], ck, nc)
    a, b = res["small"], res["large"]
    if a[0] != "ok" or b[0] != "ok":
        # a problem that cannot be solved at all is not this property's business: it must then fail on both
        ea = None if a[0] == "ok" else (a[1]["end"]["kind"], sorted({str(e)[:60] for e in a[1]["exc"] if e and "SystemExit" not in e}))
        eb = None if b[0] == "ok" else (b[1]["end"]["kind"], sorted({str(e)[:60] for e in b[1]["exc"] if e and "SystemExit" not in e}))
        if ea != eb:
            ctx.fail("ending", "the job ends differently on 6 ranks (%s) and on %d ranks (%s)" % (
                "completed" if ea is None else frame.describe_end(a[1]), n, "completed" if eb is None else frame.describe_end(b[1])))
        return
    for j, what in ((1, "longitudes"), (2, "latitudes")):
        x, y = numpy.array(a[1][j]), numpy.array(b[1][j])
        if x.shape != y.shape or numpy.abs(x - y).max() > 1e-12:
            ctx.fail("coords", "%s of the grid differ between 6 and %d ranks" % (what, n))
    dd = jobs.rel_diff(a[1][0], b[1][0])
    ctx.sig.append("agreement:%s:1e%d" % ("explicit" if exact else "iterative", int(numpy.floor(numpy.log10(dd))) if dd > 0 else -99))
    if not dd <= tol:
        ctx.fail("state", "final state differs between 6 and %d ranks: relative difference %g (allowed %g)" % (n, dd, tol))
    if set(a[2]) != set(b[2]):
        ctx.fail("checkpoint_names", "saved states are named differently on 6 and %d ranks: %s <> %s" % (n, sorted(a[2]), sorted(b[2])))
    for k in set(a[2]) & set(b[2]):
        dd = jobs.rel_diff(a[2][k], b[2][k])
        if not dd <= tol:
            ctx.fail("checkpoint", "saved state %s differs between 6 and %d ranks: %g" % (k, n, dd))
    if set(a[3]) != set(b[3]):
        ctx.fail("netcdf_vars", "netCDF files have different variables on 6 and %d ranks" % n)
    for k in sorted(set(a[3]) & set(b[3])):
        (da, x), (db, y) = a[3][k], b[3][k]
        t = 1e-11 if exact else 1e-4
        sc_ = max(numpy.abs(x).max(), numpy.abs(y).max(), 1e-300) if x.size else 1.0
        if k in ("RV", "PV", "U", "V", "W"):
            t = max(t, 1e-9)
        if da != db or x.shape != y.shape or not numpy.abs(x - y).max(initial=0) <= t * sc_:
            ctx.fail("netcdf", "netCDF variable %s differs between 6 and %d ranks (relative %g)" % (
                k, n, numpy.abs(x - y).max(initial=0) / sc_ if x.shape == y.shape else float("nan")))
            break
