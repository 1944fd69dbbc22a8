"""The netCDF file holds the simulation's fields: right values, right place, right time, whatever the number of processes."""

import math
import os

import numpy

import cube
import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: a random job (shallow water and Euler, rotated grids, topography, 6 / 24 (thorough: 54) ranks, restart or not, random output "
        "frequency and time step) writes netCDF output under a random scheduler, delivery and clock while every rank's state is recorded after "
        "each step. An independent model (own tile layout, gnomonic geometry fitted by one rotation of the sphere) computes what the file must "
        "contain: times, coordinates, longitudes/latitudes, height or density, potential temperature, pressure, winds, relative and potential vorticity, "
        "topography, vertical velocity over flat ground. Checked: every value of every record, the number and order of records, only rank 0 writes.")
ASSUMPTIONS = ["grid angles are rounded to 24 bits by the configuration (1e-6 allowed)", "vorticity is the derivative, within each element, of the state's velocity polynomials",
               "the vertical velocity is checked for cases without topography"]


def max_ranks(tier):
    return 54


def budget(tier):
    return (90, 110) if tier == "quick" else (3000, 1500)


def gen(rng, i, tier):
    n = rng.choice([6] * 7 + [24] * 3 + [54] if tier == "quick" else [6, 24, 24, 54])
    sc = jobs.gen_problem(rng, n, eq="sw" if i % 2 else "euler", integrators=jobs.EXPLICIT, steps=rng.choice([1, 2, 3]))
    kw = sc["kw"]
    if sc["eq"] == "sw":
        kw["lambda0"], kw["phi0"], kw["alpha0"] = [(0.0, math.pi / 4, 0.0), (0.0, 0.0, 0.0), (0.3, 0.2, 0.1), (-1.0, 0.5, 0.4)][rng.randrange(4)]
    elif rng.random() < 0.5:
        kw["lambda0"], kw["phi0"], kw["alpha0"] = (0.3, 0.2, 0.1)
    if rng.random() < 0.3:
        kw["t_end"] -= kw["dt"] * rng.choice([0.25, 0.5])
    kw["output_freq"] = rng.choice([1, 1, 2, 3])
    sc["restart"] = rng.random() < 0.2 and jobs.steps_of(sc) > 1
    sc["policy"] = frame.gen_policy(rng, n)
    return sc


def shrink(sc):
    yield from jobs.shrink_problem(sc)
    if sc["restart"]:
        yield {**sc, "restart": False}


def blocks(q, ns, ndim):
    """Elements -> points: (..., ej, ei, p) or (..., ek, ej, ei, p)."""
    q = numpy.asarray(q)
    lead = q.shape[: -(ndim + 1)]
    e = q.shape[-(ndim + 1) : -1]
    out = numpy.empty(lead + tuple(k * ns for k in e))
    it = numpy.ndindex(*((ns,) * ndim))
    for p, idx in enumerate(it):
        sl = tuple(slice(o, None, ns) for o in idx)
        out[(Ellipsis,) + sl] = q[..., p]
    return out


def panels(parts, n):
    """Local point blocks of all ranks -> (6, ..., ny, nx)."""
    per = n // 6
    side = int(round(math.sqrt(per)))
    res = []
    for p in range(6):
        rows = [numpy.concatenate([parts[p * per + r * side + c] for c in range(side)], axis=-1) for r in range(side)]
        res.append(numpy.concatenate(rows, axis=-2))
    return numpy.stack(res)


def run(sc, ctx):
    n, kw = sc["n"], sc["kw"]
    steps = jobs.steps_of(sc)
    ndim = 2 if sc["eq"] == "sw" else 3
    d = ctx.dir()
    start = 0
    if sc["restart"]:
        r0 = ctx.job("first", n, jobs.conf(sc, output_dir="w/out", base_output_file="p", save_state_freq=1, output_freq=0), d)
        if not frame.ended_ok(r0):
            return
        start = 1

    def before(s, rank, world):
        notes = world.__dict__.setdefault("notes", {})
        rec = notes.setdefault(rank, {"Q": {}})
        rec["Q"][s.step_id] = numpy.array(s.Q)
        rec["a"] = float(s.geometry.earth_radius)
        rec["omega"] = float(s.geometry.rotation_speed)
        t = s.topography
        rec["hsurf"] = numpy.array(t.hsurf) if sc["eq"] == "sw" and t is not None else None
        if sc["eq"] == "euler":
            rec["zbot"] = numpy.array(s.geometry.zbot)
            rec["elev"] = numpy.array(s.geometry.coordVec_latlon[2])
        real = s.step

        def step():
            r = real()
            rec["Q"][s.step_id] = numpy.array(s.Q)
            return r

        s.step = step

    r = ctx.job("x", n, jobs.conf(sc, output_dir="w/out", base_output_file="o", starting_step=start), d, before=before, collect=lambda w, q: w.__dict__.get("notes"))
    ctx.sig.append("%s/%d/case%s/%s" % (sc["eq"], n, kw["case_number"], "restart" if start else "fresh"))
    if not frame.ended_ok(r):
        ctx.sig.append("does not run")  # C05's business
        return
    notes = r["post"]
    bad = {k: v for k, v in r["writers"].items() if v != [0]}
    if bad:
        ctx.fail("writers", "output files are written by other processes than rank 0: %s" % bad)
    path = os.path.join(d, "w", "out", "o.nc")
    nc = {k: v[1] for k, v in jobs.read_nc(path).items()}
    want_steps = [k for k in range(start, steps + 1) if k % kw["output_freq"] == 0]
    want_t = [min(k * kw["dt"], kw["t_end"]) for k in want_steps]
    if list(nc["time"]) != want_t:
        ctx.fail("time", "netCDF times %s, expected %s" % (list(nc["time"]), want_t))
        return
    if any(set(v["Q"]) != set(range(start, steps + 1)) for v in notes.values()):
        ctx.fail("steps", "processes went through steps %s" % sorted({tuple(sorted(v["Q"])) for v in notes.values()})[:3])
        return
    # grid
    ns = kw["num_solpts"]
    side = int(round(math.sqrt(n // 6)))
    ne = kw["num_elements_horizontal"]
    q, _ = numpy.polynomial.legendre.leggauss(ns)
    x = cube.line(1, 0, ne, q)
    for c in ("Xdim", "Ydim"):
        if nc[c].shape != x.shape or not numpy.abs(nc[c] - x).max() < 1e-12:
            ctx.fail("coord:" + c, "netCDF coordinate %s is wrong" % c)
    X, Y = numpy.meshgrid(numpy.tan(x), numpy.tan(x))  # [row, col] = [x2, x1]
    dirs = numpy.stack([cube.direction(p, X, Y) for p in range(6)])
    lon, lat = numpy.radians(nc["lons"]), numpy.radians(nc["lats"])
    pos = numpy.stack([numpy.cos(lat) * numpy.cos(lon), numpy.cos(lat) * numpy.sin(lon), numpy.sin(lat)], axis=-1)
    if pos.shape != dirs.shape:
        ctx.fail("grid_shape", "longitudes have shape %s" % (lon.shape,))
        return
    U, _, Vt = numpy.linalg.svd(pos.reshape(-1, 3).T @ dirs.reshape(-1, 3))
    R = U @ Vt
    if not (numpy.linalg.det(R) > 0 and numpy.abs(pos - dirs @ R.T).max() < 1e-10):
        ctx.fail("lonlat", "longitudes and latitudes are not those of a (rotated) cubed sphere: off by %g" % numpy.abs(pos - dirs @ R.T).max())
        return
    l0, p0_ = kw.get("lambda0", 0.0), kw.get("phi0", 0.0)
    ctr = numpy.array([math.cos(p0_) * math.cos(l0), math.cos(p0_) * math.sin(l0), math.sin(p0_)])
    if not numpy.abs(R @ numpy.array([1.0, 0, 0]) - ctr).max() < 1e-6:
        ctx.fail("rotation", "panel 0 of the grid is not centred at the configured longitude and latitude")
        return

    def check(name, i, want, tol):
        got = nc[name][i] if i is not None else nc[name]
        sc_ = max(numpy.abs(want).max(), 1e-300)
        if got.shape != want.shape or not numpy.abs(got - want).max() <= tol * sc_:
            ctx.fail("field:" + name, "netCDF field %s (record %s, step %s) is not the simulation's: relative difference %g" % (
                name, i, None if i is None else want_steps[i], numpy.abs(got - want).max() / sc_ if got.shape == want.shape else float("nan")))
            return False
        return True

    east = numpy.stack([-numpy.sin(lon), numpy.cos(lon), 0 * lon], axis=-1)
    north = numpy.stack([-numpy.sin(lat) * numpy.cos(lon), -numpy.sin(lat) * numpy.sin(lon), numpy.cos(lat)], axis=-1)
    b = [cube.basis(p, X, Y) for p in range(6)]
    e1 = numpy.stack([v[0] for v in b]) @ R.T
    e2 = numpy.stack([v[1] for v in b]) @ R.T
    a = notes[0]["a"]
    half = (math.pi / 2) / ne / 2  # contravariant components refer to elements of width 2
    if ndim == 3:
        nv = kw["num_elements_vertical"]
        z = numpy.array([10000.0 / nv * (e + 0.5 * (1 + w)) for e in range(nv) for w in q])
        flat = not any(numpy.any(notes[rk]["zbot"]) for rk in range(n))
        if flat:
            if nc["Zdim"].shape != z.shape or not numpy.abs(nc["Zdim"] - z).max() < 1e-6:
                ctx.fail("coord:Zdim", "netCDF coordinate Zdim is wrong")
            if not numpy.abs(nc["elev"] - z[None, :, None, None]).max() < 1e-6:
                ctx.fail("field:elev", "netCDF elevations are wrong")
        if not check("topo", None, panels([notes[rk]["zbot"] for rk in range(n)], n), 1e-13) or not check(
                "elev", None, panels([notes[rk]["elev"] for rk in range(n)], n), 1e-13):
            return
    for i, k in enumerate(want_steps):
        Q = panels([blocks(notes[rk]["Q"][k], ns, ndim) for rk in range(n)], n)  # (6, var, [z,] y, x)
        m = Q[:, 0]
        u1, u2 = Q[:, 1] / m * half, Q[:, 2] / m * half
        if ndim == 3:
            ex = lambda v: v[:, None]
        else:
            ex = lambda v: v
        vec = a * (u1[..., None] * ex(e1) + u2[..., None] * ex(e2))
        uu, vv = (vec * ex(east)).sum(-1), (vec * ex(north)).sum(-1)
        spd = numpy.abs(vec).max()
        if not numpy.isfinite(Q).all():
            return
        ok = True
        if ndim == 2:
            hs = 0.0
            if notes[0]["hsurf"] is not None:
                hs = panels([blocks(notes[rk]["hsurf"], ns, 2) for rk in range(n)], n)
            ok &= check("h", i, m + hs, 1e-13)
            rv = cube.vorticity(Q[:, 1] / m, Q[:, 2] / m, ne, ns, a)
            pv = (rv + 2 * notes[0]["omega"] * numpy.sin(lat)) / m
            big = max(spd * ne / a, 2 * notes[0]["omega"])
            for name, want, tol in (("RV", rv, 1e-9 * big), ("PV", pv, 1e-9 * big / numpy.abs(m).min())):
                got = nc[name][i]
                if got.shape != want.shape or not numpy.abs(got - want).max() <= tol:
                    ctx.fail("field:" + name, "netCDF field %s (record %d, step %d) is not the simulation's vorticity: difference %g" % (
                        name, i, k, numpy.abs(got - want).max() if got.shape == want.shape else float("nan")))
                    ok = False
        else:
            th = Q[:, 4] / m
            ok &= check("rho", i, m, 1e-13)
            ok &= check("theta", i, th, 1e-13)
            if (Q[:, 4] <= 0).any():
                ctx.sig.append("unphysical state")
                return  # unstable run: pressure undefined
            ok &= check("P", i, 1e5 * (Q[:, 4] * 287.05 / 1e5) ** (1005.46 / (1005.46 - 287.05)), 1e-11)
            if kw["case_number"] in (31, 77) and spd > 1e-6:
                nv = kw["num_elements_vertical"]
                w = Q[:, 3] / m * (10000.0 / nv / 2)
                if not numpy.abs(nc["W"][i] - w).max() <= 1e-9 * max(spd, numpy.abs(w).max()):
                    ctx.fail("field:W", "netCDF field W (record %d, step %d) is not the simulation's vertical velocity" % (i, k))
        if spd > 1e-6:
            for name, want in (("U", uu), ("V", vv)):
                got = nc[name][i]
                if got.shape != want.shape or not numpy.abs(got - want).max() <= 1e-9 * spd:
                    ctx.fail("field:" + name, "netCDF field %s (record %d, step %d) is not the simulation's wind: difference %g m/s" % (
                        name, i, k, numpy.abs(got - want).max() if got.shape == want.shape else float("nan")))
                    ok = False
        if not ok:
            return
