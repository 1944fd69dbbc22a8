"""Global mass and the printed global diagnostics."""

import math
import re

import numpy

import cube
import frame
import jobs
from c12 import blocks, panels

LEVEL = "exploration"
RULE = ("Seeded: a random job (shallow water with and without topography, Euler with and without topography, rotated grids, all conservative "
        "integrators with their solvers, 6 / 24 (thorough: 54) ranks, optionally on a subgroup of the job or restarted) under a random scheduler, "
        "delivery and clock. Every rank's state is recorded at every step; mass (and, for shallow water, energy, potential enstrophy and error norms) is integrated over "
        "all ranks with an independent gnomonic metric and quadrature. Checked: total mass constant to round-off at every step; printed initial "
        "mass, energy and enstrophy, their normalized errors and l1, l2, linf norms equal the independent integrals of the right step.")
ASSUMPTIONS = ["filters are off (they are not required to conserve mass)", "tolerances: mass 3e-13 relative (3e-11 for the Rosenbrock and implicit integrators)"]
INTS = ["tvdrk3", "tvdrk3", "euler1", "epi2", "epi3", "ros2", "rosexp2", "srerk3", "backward_euler", "crank_nicolson", "bdf2", "epi_stiff3", "epi4"]
G = 9.80616


def max_ranks(tier):
    return 54


def budget(tier):
    return (110, 110) if tier == "quick" else (3000, 1500)


def gen(rng, i, tier):
    n = rng.choice([6] * 9 + [24] * 3 + [54] if tier == "quick" else [6, 6, 24, 24, 54])
    eq = "sw" if rng.random() < 0.7 or n > 24 else "euler"
    sc = jobs.gen_problem(rng, n, eq=eq, integrators=jobs.EXPLICIT if n > 24 or (n == 24 and rng.random() < 0.7) else INTS, steps=rng.choice([1, 2, 3]))
    kw = sc["kw"]
    if eq == "sw":
        kw["stat_freq"] = rng.choice([1, 1, 2])
        if n > 24 and rng.random() < 0.6:
            kw["case_number"] = 2
    sc["sub"] = n == 6 and rng.random() < 0.15 and kw["time_integrator"] not in ("epi_stiff3",)
    sc["restart"] = rng.random() < 0.15 and jobs.steps_of(sc) > 1 and kw["time_integrator"] in jobs.ONESTEP
    sc["policy"] = frame.gen_policy(rng, n + (6 if sc["sub"] else 0))
    return sc


def shrink(sc):
    yield from jobs.shrink_problem(sc)
    if sc["sub"]:
        yield {**sc, "sub": False}
    if sc["restart"]:
        yield {**sc, "restart": False}


def metric(ne, ns):
    """Area element (unit sphere, w.r.t. element reference coordinates) times quadrature weights: (6, y, x); and g11, g12, g22."""
    q, w = numpy.polynomial.legendre.leggauss(ns)
    x = cube.line(1, 0, ne, q)
    ww = numpy.tile(w, ne)
    X, Y = numpy.meshgrid(numpy.tan(x), numpy.tan(x))
    h = (math.pi / 2) / ne / 2
    d2 = 1 + X**2 + Y**2
    area = (1 + X**2) * (1 + Y**2) / d2**1.5 * h * h
    g11 = (1 + X**2) ** 2 * (1 + Y**2) / d2**2 * h * h
    g22 = (1 + X**2) * (1 + Y**2) ** 2 / d2**2 * h * h
    g12 = -X * Y * (1 + X**2) * (1 + Y**2) / d2**2 * h * h
    return area * ww[None, :] * ww[:, None], g11, g12, g22


def run(sc, ctx):
    n, kw = sc["n"], sc["kw"]
    ndim = 2 if sc["eq"] == "sw" else 3
    d = ctx.dir()
    start = 0
    if sc["restart"]:
        r0 = ctx.job("first", n, jobs.conf(sc, output_dir="w/out", base_output_file="p", save_state_freq=1), d, policy={"sched": "plain"})
        if not frame.ended_ok(r0):
            return
        start = 1
    off = 6 if sc["sub"] else 0

    def before(s, rank, world):
        notes = world.__dict__.setdefault("notes", {})
        rec = notes.setdefault(s.comm.rank, {"Q": {}})
        rec["Q"][s.step_id] = numpy.array(s.Q)
        rec["a"] = float(s.geometry.earth_radius)
        rec["lat"], rec["omega"] = numpy.array(s.geometry.block_lat), float(s.geometry.rotation_speed)
        t = s.topography
        rec["hsurf"] = numpy.array(t.hsurf) if ndim == 2 and t is not None else None
        if ndim == 3:
            rec["zbot"] = numpy.array(s.geometry.zbot)
        real = s.step

        def step():
            r = real()
            rec["Q"][s.step_id] = numpy.array(s.Q)
            return r

        s.step = step

    def comm(rank, world):
        from mpi4py import MPI

        c = MPI.COMM_WORLD.Split(0 if rank < off else 1, rank)
        return c if rank >= off else None

    r = ctx.job("x", n + off, jobs.conf(sc, output_dir="w/out", base_output_file="o", starting_step=start), d, before=before,
                comm=comm if off else None, collect=lambda w, q: w.__dict__.get("notes"))
    ctx.sig.append("%s/%d/%s%s" % (sc["eq"], n, kw["time_integrator"], "/sub" if off else ""))
    if not frame.ended_ok(r):
        ctx.sig.append("does not run")
        return
    notes = r["post"]
    ns, ne = kw["num_solpts"], kw["num_elements_horizontal"]
    area, g11, g12, g22 = metric(ne, ns)
    a = notes[0]["a"]
    first = start
    steps = sorted(notes[0]["Q"])
    Q = {k: panels([blocks(notes[rk]["Q"][k], ns, ndim) for rk in range(n)], n) for k in steps}
    if ndim == 3:
        nv = kw["num_elements_vertical"]
        _, w = numpy.polynomial.legendre.leggauss(ns)
        zb = panels([notes[rk]["zbot"] for rk in range(n)], n)
        vol = a * a * area * ((10000.0 - zb) / nv / 2)
        vol = vol[:, None] * numpy.tile(w, nv)[None, :, None, None]
    else:
        vol = a * a * area
    mass = {k: (Q[k][:, 0] * vol).sum() for k in steps}
    if not all(math.isfinite(m) for m in mass.values()) or any((q[:, 0] <= 0).any() for q in Q.values()):
        ctx.sig.append("unphysical state")
        return
    tol = 3e-13 if kw["time_integrator"].startswith(("tvd", "euler", "epi", "srerk")) else 3e-11
    for k in steps:
        e = abs(mass[k] - mass[first]) / mass[first]
        ctx.stats.setdefault("drift", {})[kw["time_integrator"]] = e
        if e > tol:
            ctx.fail("mass", "total mass changes by %.2g relative between steps %d and %d (%s, case %s)" % (e, first, k, kw["time_integrator"], kw["case_number"]))
            return
    if ndim == 3:
        return
    # --- printed diagnostics
    text = r["out"][off]
    hs = 0.0
    if notes[0]["hsurf"] is not None:
        hs = panels([blocks(notes[rk]["hsurf"], ns, 2) for rk in range(n)], n)
    nrg, ens = {}, {}
    cor = None if ndim == 3 else 2 * notes[0]["omega"] * numpy.sin(panels([notes[rk]["lat"] for rk in range(n)], n))
    for k in steps:
        h = Q[k][:, 0]
        u, v = Q[k][:, 1] / h, Q[k][:, 2] / h
        kin = 0.5 * h * a * a * (g11 * u * u + 2 * g12 * u * v + g22 * v * v)
        nrg[k] = ((kin + 0.5 * G * ((h + hs) ** 2 - hs * hs)) * vol).sum()
        ens[k] = ((cube.vorticity(u, v, ne, ns, a) + cor) ** 2 / (2 * h) * vol).sum()
    want_steps = [k for k in steps if k % kw["stat_freq"] == 0]
    got_steps = [int(x) for x in re.findall(r"^Blockstats for timestep (\d+)", text, re.M)]
    if got_steps != want_steps:
        ctx.fail("steps", "diagnostics are printed for steps %s instead of %s" % (got_steps, want_steps))
        return
    if not want_steps:
        return
    s0 = want_steps[0]
    num = r"([-+0-9.eE]+|nan|inf)"

    def compare(name, got, want, scale):
        if len(got) != len(want):
            ctx.fail("printed:" + name, "%d values of %s printed, expected %d" % (len(got), name, len(want)))
            return
        for k, (g, x) in enumerate(zip(got, want)):
            if not abs(float(g) - x) <= scale:
                ctx.fail("printed:" + name, "%s of step %d is printed as %s, the integral over the sphere gives %.17g" % (name, want_steps[k], g, x))
                return

    f = lambda p: re.findall(p, text, re.M)
    compare("mass", f(r"^Integral of mass = (?:np.float64\()?" + num), [mass[s0]], 1e-11 * mass[s0])
    compare("energy", f(r"^Integral of energy = (?:np.float64\()?" + num), [nrg[s0]], 1e-11 * nrg[s0])
    compare("mass error", f(r"^normalized error for mass = (?:np.float64\()?" + num), [(mass[k] - mass[s0]) / mass[s0] for k in want_steps], 1e-12)
    compare("energy error", f(r"^normalized error for energy = (?:np.float64\()?" + num), [(nrg[k] - nrg[s0]) / nrg[s0] for k in want_steps], 1e-12)
    compare("enstrophy", f(r"^Integral of enstrophy = (?:np.float64\()?" + num), [ens[s0]], 1e-10 * ens[s0])
    compare("enstrophy error", f(r"^normalized error for enstrophy = (?:np.float64\()?" + num), [(ens[k] - ens[s0]) / ens[s0] for k in want_steps], 1e-10)
    if kw["case_number"] == 2 and start == 0:
        h0 = Q[0][:, 0]
        l1, l2, li = [], [], []
        for k in want_steps:
            e = numpy.abs(Q[k][:, 0] - h0)
            l1.append((e * vol).sum() / (h0 * vol).sum())
            l2.append(math.sqrt((e * e * vol).sum() / (h0 * h0 * vol).sum()))
            li.append(e.max() / h0.max())
        got = re.findall(r"^l1 = " + num + r"\s+l2 = " + num + r"\s+linf = " + num, text, re.M)
        for q, (name, want) in enumerate((("l1", l1), ("l2", l2), ("linf", li))):
            compare(name, [x[q] for x in got], want, 1e-13 + 1e-9 * max(want))
