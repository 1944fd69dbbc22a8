"""Assembling tiles into a cube on one process and splitting a cube into tiles."""

import zlib

import numpy

import frame

LEVEL = "exploration"
RULE = ("Seeded: 6, 24 or 54 ranks, tile size, leading/trailing dimensions, dtype, memory layout, a random sequence of 2-6 gather, "
        "distribute, round-trip and rejected (malformed) operations, optional sub-communicator, random scheduler. The gathered cube and "
        "every distributed tile are compared with a globally known array; malformed cubes must be refused on every rank and leave the "
        "group usable.")
ASSUMPTIONS = ["rooted collectives may complete early on non-root ranks or synchronise (chosen per call)"]


def max_ranks(tier):
    return 56


def budget(tier):
    return (1600, 60) if tier == "quick" else (6000, 900)


BAD = ["five", "seven", "rect", "indivisible", "lowdim", "none", "object"]


def gen(rng, i, tier):
    n = rng.choice([6, 24, 24, 54])
    ops = []
    for _ in range(rng.randrange(2, 7)):
        ops.append({"op": rng.choice(["gather", "distribute", "roundtrip", "roundtrip", "bad", "panel"]),
                    "m": rng.choice([1, 2, 3, 4]), "lead": rng.choice([[], [], [3], [2], [5, 2], [1], [2, 3]]),
                    "trail": rng.choice([[], [], [4], [2, 3], [1]]), "dtype": rng.choice(["f8", "f8", "c16", "f4", "i4"]),
                    "layout": rng.choice(["C", "C", "strided", "F"]), "bad": rng.choice(BAD), "line": rng.choice([0, 0, 1, 2])})
    return {"n": n, "ops": ops, "subcomm": rng.random() < 0.25, "policy": frame.gen_policy(rng, n)}


def shrink(sc):
    for k in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            yield {**sc, "ops": sc["ops"][:k] + sc["ops"][k + 1:]}
    if sc["subcomm"]:
        yield {**sc, "subcomm": False}
    for n in (6, 24):
        if n < sc["n"]:
            yield {**sc, "n": n}


def cube_of(sc, k, op, side):
    r = numpy.random.RandomState(zlib.crc32(repr((sc["seed"], k)).encode()))
    M = op["m"] * side
    g = r.uniform(-100, 100, size=(6,) + tuple(op["lead"]) + (M, M) + tuple(op["trail"]))
    if op["dtype"] == "c16":
        g = g + 1j * r.uniform(-1, 1, size=g.shape)
    return g.astype(op["dtype"])


def tile_of(g, op, side, t):
    p, rest = divmod(t, side * side)
    row, col = divmod(rest, side)
    m, nl = op["m"], len(op["lead"])
    ix = (p,) + (slice(None),) * nl + (slice(row * m, (row + 1) * m), slice(col * m, (col + 1) * m))
    return g[ix]


def lay(a, how):
    if how == "F":
        return numpy.asfortranarray(a)
    if how == "strided":
        b = numpy.full(a.shape + (2,), 77, dtype=a.dtype)
        b[..., 1] = a
        return b[..., 1]
    return numpy.ascontiguousarray(a)


def run(sc, ctx):
    n = sc["n"]
    side = int(round((n // 6) ** 0.5))
    off = 1 if sc["subcomm"] else 0

    def body(rank, world):
        from mpi4py import MPI
        from device import CpuDevice
        from process_topology import ProcessTopology

        comm = MPI.COMM_WORLD
        if off:
            comm = comm.Split(0 if off <= rank < n + off else 1, rank)
            if not off <= rank < n + off:
                return []
        me = comm.rank
        topo = ProcessTopology(CpuDevice(comm), comm=comm)
        bad = []
        kept = []

        def same(k, what, got, exp):
            if got is None or not hasattr(got, "shape"):
                bad.append((what, k, me, "got %r" % (got,)))
            elif got.shape != exp.shape or got.dtype != exp.dtype or not numpy.array_equal(got, exp):
                bad.append((what, k, me, "shape %s/%s dtype %s/%s" % (got.shape, exp.shape, got.dtype, exp.dtype)))

        for k, op in enumerate(sc["ops"]):
            nd = len(op["lead"]) + 2
            if op["op"] == "bad":
                m = op["m"]
                M = m * side
                f = None
                if me == 0:
                    f = {"five": numpy.zeros((5,) + tuple(op["lead"]) + (M, M)), "seven": numpy.zeros((7,) + tuple(op["lead"]) + (M, M)),
                         "rect": numpy.zeros((6,) + tuple(op["lead"]) + (M, M + side)),
                         "indivisible": numpy.zeros((6,) + tuple(op["lead"]) + (M + 1, M + 1)) if side > 1 else numpy.zeros((6,) + tuple(op["lead"]) + (M, M + 1)),
                         "lowdim": numpy.zeros((6,) + (M,) * (nd - 1)), "none": None, "object": {"a": 1}}[op["bad"]]
                try:
                    topo.distribute_cube(f, nd)
                    bad.append(("accepted", k, me, op["bad"]))
                except (Exception, SystemExit):
                    pass
                continue
            g = cube_of(sc, k, op, side)
            mine = tile_of(g, op, side, me)
            if op["op"] in ("gather", "roundtrip"):
                inp = lay(mine, op["layout"])
                snap = inp.copy()
                got = topo.gather_cube(inp, nd)
                if not numpy.array_equal(inp, snap):
                    bad.append(("input changed", k, me, ""))
                if me == 0:
                    same(k, "gather", got, g)
                elif got is not None:
                    bad.append(("gather non-root", k, me, str(type(got))))
                kept.append((k, "gather", got if me == 0 else None, g))
                if op["op"] == "roundtrip":
                    t = topo.distribute_cube(got if me == 0 else None, nd)
                    same(k, "roundtrip", t, mine)
            elif op["op"] == "distribute":
                # "has to be contiguous in memory": only the root's array matters
                t = topo.distribute_cube(numpy.ascontiguousarray(g) if me == 0 else (g * 0 if me % 2 else None), nd)
                same(k, "distribute", t, mine)
                kept.append((k, "distribute", t, mine))
                if op["layout"] == "strided":
                    back = topo.gather_cube(t, nd)
                    if me == 0:
                        same(k, "distribute+gather", back, g)
            elif op["op"] == "panel" and op["line"]:
                # one-dimensional data (e.g. coordinates along the panel): the tiles of the first row end to end
                lines = [tile_of(g, op, side, t).ravel() for t in range(n)]
                got = topo.gather_tiles_to_panel(lines[me].copy(), op["line"])
                first = me - me % (side * side)
                if me == first:
                    same(k, "panel, one dimension", got, numpy.concatenate(lines[first : first + side]))
                elif got is not None:
                    bad.append(("panel non-root", k, me, ""))
            elif op["op"] == "panel":
                got = topo.gather_tiles_to_panel(lay(mine, op["layout"]), nd)
                if me % (side * side) == 0:
                    same(k, "panel", got, g[me // (side * side)])
                elif got is not None:
                    bad.append(("panel non-root", k, me, ""))
        for k, what, got, exp in kept:
            if got is not None:
                same(k, what + " (later)", got, exp)
        comm.barrier()
        return bad

    r = ctx.world("x", n + 2 * off, body)
    for op in sc["ops"]:
        ctx.sig.append("%d/%s%s" % (n, op["op"], "/" + op["bad"] if op["op"] == "bad" else "/%dd+%d" % (len(op["lead"]) + 2, len(op["trail"]))))
    if not frame.ended_ok(r):
        ctx.fail("end:" + r["end"]["kind"], "operations did not complete on every rank: " + frame.describe_end(r),
                 [t[-700:] for t in r["tb"] if t][:1])
        return
    bad = [b for v in r["value"] for b in v]
    if bad:
        b = bad[0]
        ctx.fail("wrong:" + b[0], "%d mismatches; first: %s at rank %d, operation %d %s: %s" % (len(bad), b[0], b[2], b[1], sc["ops"][b[1]], b[3]), bad[:6])
