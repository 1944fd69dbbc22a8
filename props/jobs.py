"""Random whole-simulation jobs and what to look at in their results."""

import glob
import os
import re

import numpy

import wxconf

EXPLICIT = ["tvdrk3", "euler1"]
ONESTEP = ["tvdrk3", "euler1", "epi2", "ros2", "rosexp2", "srerk3", "backward_euler", "crank_nicolson"]
ALL_INT = ONESTEP + ["epi3", "epi4", "epi_stiff3", "epi_stiff4", "srerk6", "bdf2"]
EXPSOLVERS = ["pmex", "kiops", "pmex_ne1s", "kiops_ne", "pmex_ne", "pmex_1s", "icwy_ne", "icwy_1s", "icwy_ne1s", "icwy_neiop",
              "cwy_ne", "cwy_1s", "cwy_ne1s", "exode"]
# exponential solvers that work on the communicator they are given
EXPSOLVERS_COMM = ["pmex", "kiops", "pmex_ne"]
EXPO = ("epi", "srerk", "rosexp")


def conf(sc, **over):
    base = {"sw": wxconf.SW, "euler": wxconf.EULER, "cart": wxconf.CART}[sc["eq"]]
    return wxconf.ini(base, **{**sc["kw"], **over})


def gen_problem(rng, n, eq=None, integrators=None, steps=None, cheap=True, expsolvers=("pmex", "kiops")):
    """A problem that n ranks can run: {"n","eq","kw"}."""
    side = int(round((n // 6) ** 0.5))
    eq = eq or ("sw" if rng.random() < 0.7 else "euler")
    kw = {}
    mult = {1: [2, 2, 3, 4], 2: [2, 2, 3], 3: [2], 4: [2]}[side]
    kw["num_elements_horizontal"] = max(2, side * rng.choice(mult))
    integ = rng.choice(integrators or EXPLICIT)
    kw["time_integrator"] = integ
    k = steps or rng.randrange(1, 4)
    if eq == "sw":
        kw["num_solpts"] = rng.choice([2, 3, 3, 4]) if side < 3 else rng.choice([2, 3])
        kw["case_number"] = rng.choice([2, 5, 6])
        kw["dt"] = rng.choice([300, 600, 450])
        kw["lambda0"], kw["phi0"], kw["alpha0"] = rng.choice([(0.0, 0.7853981633974483, 0.0), (0.0, 0.0, 0.0), (0.3, 0.2, 0.1)])
    else:
        kw["num_solpts"] = 2 if side > 1 else rng.choice([2, 2, 3])
        if kw["num_elements_horizontal"] > 2 * side:
            kw["num_elements_horizontal"] = 2 * side
        kw["num_elements_vertical"] = rng.choice([1, 2, 3])
        kw["case_number"] = rng.choice([31, 31, 21, 22, 77])
        kw["dt"] = rng.choice([2, 5, 10])
        if kw["case_number"] == 77 or side > 2:
            kw["dt"] = 2
        if rng.random() < 0.15:
            kw.update(expfilter_apply=1, expfilter_order=rng.choice([2, 4, 8]), expfilter_strength=rng.choice([0.5, 2.0, 36.0]),
                      expfilter_cutoff=rng.choice([0.0, 0.25]))
    if integ not in EXPLICIT:
        # keep the implicit solvers cheap
        if eq == "euler":
            kw["num_elements_vertical"] = 1
            kw["dt"] = min(kw["dt"], 5)
        else:
            kw["dt"] = 300
            kw["num_solpts"] = min(kw["num_solpts"], 3)
    if integ.startswith(EXPO):
        kw["exponential_solver"] = rng.choice([x for x in expsolvers if not (integ.startswith("srerk") and x in ("exode", "pmex_ne"))])
    kw["t_end"] = kw["dt"] * k
    return {"n": n, "eq": eq, "kw": kw}


def gen_cart(rng, integrators=None, steps=None, expsolvers=("pmex", "kiops")):
    """A two-dimensional problem on one process."""
    integ = rng.choice(integrators or EXPLICIT)
    kw = {"time_integrator": integ, "num_solpts": rng.choice([2, 3, 3, 4]), "num_elements_horizontal": rng.choice([2, 3, 4]),
          "num_elements_vertical": rng.choice([2, 3, 5]), "case_number": rng.choice([2, 2, 5, 6]), "dt": rng.choice([0.0625, 0.125])}
    kw["t_end"] = kw["dt"] * (steps or rng.randrange(1, 4))
    if integ.startswith(EXPO):
        kw["exponential_solver"] = rng.choice([x for x in expsolvers if not (integ.startswith("srerk") and x in ("exode", "pmex_ne"))])
    return {"n": 1, "eq": "cart", "kw": kw}


def steps_of(sc):
    import math

    return int(math.ceil(sc["kw"]["t_end"] / sc["kw"]["dt"] - 1e-9))


def full_state(s):
    """The whole state on global rank 0 (collective)."""
    if s.process_topo is None:
        return numpy.array(s.Q)[None]
    q = s.process_topo.gather_cube(s.Q, s.output.num_dim + 1)
    return None if q is None else numpy.array(q)


def block_state(s):
    """The whole state in geographic (single block) order, on rank 0: comparable between process counts."""
    if s.process_topo is None:
        return numpy.array(s.geometry.to_single_block(s.Q))[None]
    q = s.process_topo.gather_cube(s.geometry.to_single_block(s.Q), s.output.num_dim + 1)
    return None if q is None else numpy.array(q)


def local_bytes(s):
    return numpy.ascontiguousarray(s.Q).tobytes()


TIMING = re.compile(r"Elapsed time|Output time|Write solution|Save state|Blockstats:|Start time|solve_time|[Cc]omputation time"
                    r"|Time-to-solution| secs| s\)|time:")


DURATION = re.compile(r"\s*[-+0-9.e]+ s\b")


def transcript(out):
    """Printed lines without the ones that report how long something took."""
    return [DURATION.sub("_ s", l) for l in out.split("\n") if not TIMING.search(l)]


def read_nc(path):
    """Everything stored in a netCDF file except its creation date."""
    import netCDF4

    d = {}
    with netCDF4.Dataset(path) as f:
        for k, v in f.variables.items():
            a = v[:]
            a = numpy.ma.filled(a, numpy.nan if a.dtype.kind == "f" else -1)
            d[k] = (v.dimensions, numpy.array(a))
    return d


def checkpoint_files(outdir):
    return {os.path.basename(p): open(p, "rb").read() for p in sorted(glob.glob(os.path.join(outdir, "state_vector_*.npy")))}


def rel_diff(a, b):
    """Largest difference relative to each variable's magnitude; the components of the momentum share one scale.

    Axis 0 is the panel, axis 1 the variable (mass, momentum components, anything else)."""
    a = numpy.asarray(a)
    b = numpy.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if numpy.isnan(a).any() or numpy.isnan(b).any():
        return float("inf")
    nmom = 3 if a.shape[1] == 5 else 2
    scale = [max(numpy.abs(a[:, v]).max(), numpy.abs(b[:, v]).max()) for v in range(a.shape[1])]
    m = max(scale[1 : 1 + nmom])
    worst = 0.0
    for v in range(a.shape[1]):
        sc = m if 1 <= v <= nmom else scale[v]
        dd = numpy.abs(a[:, v] - b[:, v]).max()
        if dd > 0:
            worst = max(worst, dd / sc)
    return worst


def shrink_problem(sc):
    kw = sc["kw"]
    if steps_of(sc) > 1:
        yield {**sc, "kw": {**kw, "t_end": kw["dt"] * (steps_of(sc) - 1)}}
    side = int(round((sc["n"] // 6) ** 0.5))
    if sc["eq"] == "cart":
        if kw["num_elements_horizontal"] > 2:
            yield {**sc, "kw": {**kw, "num_elements_horizontal": 2}}
    elif kw["num_elements_horizontal"] > 2 * side:
        yield {**sc, "kw": {**kw, "num_elements_horizontal": 2 * side}}
    if sc["n"] > 6:
        yield {**sc, "n": 6}
    if kw.get("num_elements_vertical", 1) > 1:
        yield {**sc, "kw": {**kw, "num_elements_vertical": 1}}
    if kw["num_solpts"] > 2:
        yield {**sc, "kw": {**kw, "num_solpts": 2}}
