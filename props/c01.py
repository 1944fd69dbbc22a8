"""Halo exchange between the tiles of the cubed sphere."""

import zlib

import numpy

import cube
import frame

LEVEL = "exploration"
RULE = ("Seeded: number of ranks (6, 24, 54), element and point counts, 1-6 exchanges in flight (scalars, contravariant or covariant "
        "vectors, 2 or 3 components, linear or element-shaped boundaries, real or complex, strided or Fortran-ordered inputs), per-rank completion order, "
        "inputs overwritten after the start, optional sub-communicator; scheduler/delivery policy random. Every received value on every "
        "side of every rank is compared with an independent gnomonic-geometry model. Every run is non-trivial (all four sides of all ranks).")
ASSUMPTIONS = ["sends read the send buffer at any time until delivery (as MPI allows); receive buffers hold NaN until completion",
               "points are symmetric within an element, as in the model's own grid"]


def max_ranks(tier):
    return 56


def budget(tier):
    return (360, 60) if tier == "quick" else (6000, 900)


def gen(rng, i, tier):
    n = rng.choice([6, 6, 24, 24, 24, 54]) if i % 8 else 24
    ex = []
    for _ in range(rng.randrange(1, 7)):
        kind = rng.choice(["scalar", "contra", "contra", "cov"])
        ex.append({"kind": kind, "ncomp": rng.choice([2, 3]), "style": rng.choice(["line", "split", "elem"]), "lead": rng.choice([[], [1], [2], [3], [2, 2]]),
                   "dtype": rng.choice(["f8", "f8", "c16", "f4", "i8"] if kind == "scalar" else ["f8", "f8", "c16"]), "layout": rng.choice(["C", "C", "strided", "F"])})
    return {"n": n, "nelem": rng.choice([1, 2, 3]), "npts": rng.choice([1, 2, 3, 4]), "ex": ex, "overwrite": rng.random() < 0.6,
            "extra": rng.random() < 0.3, "subcomm": rng.random() < 0.2, "policy": frame.gen_policy(rng, n), "rounds": rng.choice([1, 1, 2])}


def shrink(sc):
    if len(sc["ex"]) > 1:
        for k in range(len(sc["ex"])):
            yield {**sc, "ex": sc["ex"][:k] + sc["ex"][k + 1:]}
    if sc["n"] > 6:
        yield {**sc, "n": 6}
        if sc["n"] > 24:
            yield {**sc, "n": 24}
    for k in ("overwrite", "extra", "subcomm"):
        if sc[k]:
            yield {**sc, k: False}
    if sc["rounds"] > 1:
        yield {**sc, "rounds": 1}


def data(sc, k, rnd, rank, side, shape, ncomp, dtype):
    r = numpy.random.RandomState(zlib.crc32(repr((sc["seed"], k, rnd, rank, side)).encode()))
    if dtype == "i8":
        return r.randint(-(1 << 62), 1 << 62, size=(ncomp,) + shape, dtype="i8")
    a = r.uniform(-1, 1, size=(ncomp,) + shape)
    if dtype == "c16":
        a = a + 1j * r.uniform(-1, 1, size=a.shape)
    return a.astype(dtype)


def shapes(sc, e):
    L = sc["nelem"] * sc["npts"]
    lead = tuple(e["lead"])
    if e["style"] == "line":
        return lead + (L,), (L,), -1
    if e["style"] == "split":
        return lead + (sc["nelem"], sc["npts"]), (L,), -1
    return lead + (sc["nelem"], sc["npts"], sc["npts"]), (sc["nelem"], sc["npts"], sc["npts"]), (-3, -1)


def along(sc, e, a):
    """(..., edge-shaped) -> (..., L) or, element style, (..., npts_vertical, L)."""
    if e["style"] in ("line", "split"):
        return a.reshape(a.shape[: a.ndim - (1 if e["style"] == "line" else 2)] + (-1,))
    ne, q = sc["nelem"], sc["npts"]
    b = numpy.moveaxis(a, -2, -3)  # (..., q vertical, nelem, q)
    return b.reshape(b.shape[:-2] + (ne * q,))


def coord(sc, e, c):
    if e["style"] in ("line", "split"):
        return c
    ne, q = sc["nelem"], sc["npts"]
    return numpy.ascontiguousarray(numpy.broadcast_to(c.reshape(ne, 1, q), (ne, q, q)))


def run(sc, ctx):
    n = sc["n"]
    geo, nb = cube.edges(n, sc["nelem"], sc["npts"])
    off = 1 if sc["subcomm"] else 0
    total = n + 2 * off

    def body(rank, world):
        from mpi4py import MPI
        from device import CpuDevice
        from process_topology import ProcessTopology
        import random

        comm = MPI.COMM_WORLD
        if off:
            comm = comm.Split(0 if off <= rank < n + off else 1, rank)
            if not off <= rank < n + off:
                return []
        me = comm.rank
        topo = ProcessTopology(CpuDevice(comm), comm=comm)
        rr = random.Random(sc["seed"] * 1000 + me)
        bad = []
        results = []
        for rnd in range(sc["rounds"]):
            reqs = []
            for k, e in enumerate(sc["ex"]):
                shape, bshape, flip = shapes(sc, e)
                nc = 1 if e["kind"] == "scalar" else e["ncomp"]
                ins = []
                for s in range(4):
                    a = data(sc, k, rnd, me, s, shape, nc, e["dtype"])
                    if e["layout"] == "F":
                        a = [numpy.asfortranarray(c) for c in a]
                    elif e["layout"] == "strided":
                        big = numpy.full(a.shape + (2,), 7.5, dtype=a.dtype)
                        big[..., 0] = a
                        a = big[..., 0]
                    ins.append(a)
                if e["kind"] == "scalar":
                    req = topo.start_exchange_scalars(*[a[0] for a in ins], boundary_shape=bshape, flip_dim=flip)
                else:
                    bsn = coord(sc, e, geo[me, 0][1])
                    bwe = coord(sc, e, geo[me, 2][2])
                    req = topo.start_exchange_vectors(*[tuple(a) for a in ins], bsn, bwe, flip_dim=flip, covariant=e["kind"] == "cov")
                if sc["overwrite"]:
                    for a in ins:
                        for c in a:
                            c[...] = 1e6 + k
                reqs.append(req)
                if sc["extra"]:
                    comm.allreduce(me)
            order = list(range(len(reqs)))
            rr.shuffle(order)
            got = {}
            for k in order:
                got[k] = reqs[k].wait()
            results.append(got)
        # Check everything at the end: later exchanges must not disturb earlier results
        for rnd, got in enumerate(results):
            for k, e in enumerate(sc["ex"]):
                shape, _, _ = shapes(sc, e)
                nc = 1 if e["kind"] == "scalar" else e["ncomp"]
                for s in range(4):
                    (ot, os_), perm = nb[me, s]
                    sent = data(sc, k, rnd, ot, os_, shape, nc, e["dtype"])
                    exp = along(sc, e, sent)[..., perm]
                    if e["kind"] != "scalar":
                        po, Xo, Yo, _ = geo[ot, os_]
                        pm, Xm, Ym, _ = geo[me, s]
                        if (po, os_) != (pm, s):
                            exp = cube.convert(e["kind"], (po, Xo[perm], Yo[perm]), (pm, Xm, Ym), exp)
                    g = got[k][s]
                    dts = {numpy.asarray(x).dtype for x in ([g] if e["kind"] == "scalar" else g)}
                    if dts != {sent.dtype}:
                        bad.append(("type", rnd, k, s, me, "sent %s, received %s" % (sent.dtype, dts)))
                        continue
                    g = numpy.stack([g] if e["kind"] == "scalar" else [numpy.asarray(x) for x in g])
                    if g.shape != (nc,) + shape:
                        bad.append(("shape", rnd, k, s, me, str(g.shape)))
                        continue
                    gl = along(sc, e, g)
                    tol = 0.0 if e["kind"] == "scalar" else 1e-11
                    if e["dtype"] == "i8":
                        d = (gl != exp).astype(float)
                    else:
                        d = numpy.abs(gl - exp)
                    if not numpy.all(d <= tol):
                        w = numpy.unravel_index(numpy.argmax(numpy.where(numpy.isnan(d), numpy.inf, d)), d.shape)
                        bad.append((e["kind"], rnd, k, s, me, "got %s expected %s" % (gl[w], exp[w])))
        return bad

    r = ctx.world("x", total, body)
    ctx.sig.append("n%d" % n)
    for e in sc["ex"]:
        ctx.sig.append("%s/%s" % (e["kind"], e["style"]))
    if not frame.ended_ok(r):
        ctx.fail("end:" + r["end"]["kind"], "exchange did not complete on every rank: " + frame.describe_end(r), (r["tb"][off] or "")[-800:])
        return
    bad = [b for v in r["value"] for b in v]
    if bad:
        b = bad[0]
        ctx.fail("wrong:" + b[0], "%d wrong edges; first: rank %d side %s exchange %d round %d (%s): %s" % (
            len(bad), b[4], "SNWE"[b[3]], b[2], b[1], b[0], b[5]), bad[:6])
