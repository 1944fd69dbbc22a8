"""Distributed solvers: one decision, one answer, and the right one."""

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: a random dense operator is distributed over 1-8 ranks (optionally a sub-group of the job), with decoupled or idle ranks, zero or "
        "lopsided right-hand sides, random tolerance, restart length, initial guess, several output times, and sometimes one on which no progress is possible, and handed to one of the "
        "project's solvers (FGMRES, Newton-Krylov, KIOPS, PMEX and the low-synchronisation variants, global norms) under a random "
        "scheduler and message timing. Checked: it ends on all ranks; iteration counts, flags, residuals and error estimates are identical "
        "on all ranks; the assembled answer matches a dense single-process oracle within the requested tolerance, and the residual "
        "reported is the true one.")
ASSUMPTIONS = ["all processes own equally many unknowns (the case in the model)", "the dcgs2 and gcrot solvers are excluded (see C05/C16 findings and DESIGN.md)"]

WORLD_ONLY = ["pmex_1s", "pmex_ne1s", "icwy_ne", "icwy_1s", "icwy_ne1s", "icwy_neiop", "cwy_ne", "cwy_1s", "cwy_ne1s", "kiops_nest"]


def max_ranks(tier):
    return 10


def budget(tier):
    return (1200, 90) if tier == "quick" else (20000, 1500)


def gen(rng, i, tier):
    kind = rng.choice(["fgmres"] * 4 + ["kiops", "pmex"] * 3 + ["newton"] * 2 + ["low"] * 3 + ["norms"])
    n = rng.choice([1, 2, 3, 4, 6, 8])
    sc = {"kind": kind, "n": n, "mseed": rng.getrandbits(30), "local": rng.choice([24, 30, 40]),
          "sub": kind != "low" and rng.random() < 0.25, "coupling": rng.choice(["full", "full", "blocks", "idle", "lowrank"]),
          "policy": frame.gen_policy(rng, n + 2)}
    if kind == "fgmres":
        sc.update(tol=rng.choice([1e-3, 1e-7, 1e-12, 1e-15]), restart=rng.choice([3, 8, 20]), b=rng.choice(["normal", "normal", "zero", "one_rank", "tiny"]),
                  x0=rng.choice([None, None, "random", "exact"]), hegedus=rng.random() < 0.2, maxiter=rng.choice([None, None, 1, 3]))
        if rng.random() < 0.15:
            # a cyclic shift: no progress at all before as many iterations as there are unknowns
            sc.update(coupling="shift", x0="random", b="normal", hegedus=False, restart=rng.choice([3, 8]))
        elif rng.random() < 0.25:
            # a few small isolated eigenvalues: recurrences drift away from what they are meant to follow
            sc.update(coupling="isolated", x0=rng.choice([None, None, "random"]), b=rng.choice(["normal", "one_rank"]), tol=rng.choice([1e-7, 1e-10, 1e-12, 1e-13]),
                      restart=rng.choice([8, 20]), decades=rng.choice([2, 4, 5, 6]), maxiter=rng.choice([None, 30]))
        elif rng.random() < 0.1:
            sc.update(x0="solution", b="normal", coupling=rng.choice(["full", "blocks"]))
    elif kind == "newton":
        sc.update(tol=rng.choice([1e-4, 1e-7]))
    elif kind in ("kiops", "pmex", "low"):
        sc.update(tol=rng.choice([1e-5, 1e-8, 1e-10]), p=rng.choice([1, 2, 3]), scale=rng.choice([0.3, 2.0, 8.0]),
                  taus=rng.choice([[1.0], [1.0], [0.5, 1.0], [0.25, 0.4, 1.0]]), m=rng.choice([1, 10, 16]), u=rng.choice(["normal", "normal", "one_rank", "zero0"]),
                  solver=rng.choice(WORLD_ONLY) if kind == "low" else kind, reuse=rng.random() < 0.3)
        if kind == "low":
            sc["taus"] = [1.0]
    return sc


def shrink(sc):
    if sc["sub"]:
        yield {**sc, "sub": False}
    if sc["n"] > 2:
        yield {**sc, "n": 2}
    if sc["local"] > 24:
        yield {**sc, "local": 24}


def problem(sc):
    rng = numpy.random.default_rng(sc["mseed"])
    n, m = sc["n"], sc["local"]
    N = n * m
    R = rng.standard_normal((N, N)) / numpy.sqrt(N)
    if sc["coupling"] == "blocks":
        for a in range(n):
            for b in range(n):
                if a != b:
                    R[a * m : (a + 1) * m, b * m : (b + 1) * m] = 0
    elif sc["coupling"] == "idle" and n > 1:
        k = int(rng.integers(n))
        sl = slice(k * m, (k + 1) * m)
        R[sl, :] = 0
        R[:, sl] = 0
        R[sl, sl] = numpy.diag(rng.uniform(-1, 1, m))
    elif sc["coupling"] == "lowrank":
        # few distinct eigenvalues: the Krylov space is exhausted after a handful of vectors
        k = 1 + int(rng.integers(4))
        Q = numpy.linalg.qr(rng.standard_normal((N, k)))[0]
        R = (Q * rng.uniform(-1, 1, k)) @ Q.T
    return rng, N, R


def phi_oracle(A, u, taus):
    """sum_j tau^j phi_j(tau A) u_j via the augmented exponential."""
    import scipy.linalg

    N = A.shape[0]
    p = u.shape[0] - 1
    out = []
    for t in taus:
        M = numpy.zeros((N + p, N + p))
        M[:N, :N] = t * A
        for j in range(p):
            M[:N, N + j] = t ** (p - j) * u[p - j]  # column j multiplies phi_{p-j}
        for j in range(p - 1):
            M[N + j, N + j + 1] = 1.0
        e = scipy.linalg.expm(M)
        out.append(e[:N, :N] @ u[0] + e[:N, N + p - 1])
    return numpy.array(out)


def phi_reference(A, u, taus):
    # straightforward definition, independent of the trick above: Taylor series with scaling by sub-steps of the ODE
    # w' = A w + u1 + t u2 + t^2/2 u3 ..., w(0) = u0   whose solution is  sum t^j phi_j(tA) u_j
    import scipy.integrate
    import math

    def f(t, w):
        r = A @ w
        for j in range(1, u.shape[0]):
            r = r + t ** (j - 1) / math.factorial(j - 1) * u[j]
        return r

    s = scipy.integrate.solve_ivp(f, (0, max(taus)), u[0], method="DOP853", t_eval=sorted(taus), rtol=1e-12, atol=1e-13)
    return s.y.T


def run(sc, ctx):
    rng, N, R = problem(sc)
    n, m, kind = sc["n"], sc["local"], sc["kind"]
    off = 1 if sc["sub"] else 0
    ctx.sig.append("%s/%s/%s" % (sc.get("solver", kind), sc["coupling"], "sub" if off else "world"))
    if kind == "fgmres":
        A = 2.0 * numpy.eye(N) + 0.7 * R
        b = rng.standard_normal(N)
        if sc["b"] == "zero":
            b[:] = 0
        elif sc["b"] == "one_rank":
            k = int(rng.integers(n))
            b[: k * m] = 0
            b[(k + 1) * m :] = 0
        elif sc["b"] == "tiny":
            b *= 1e-12
        if sc["coupling"] == "shift":
            A = numpy.roll(numpy.eye(N), 1, axis=0)
        elif sc["coupling"] == "isolated":
            k = 3 + int(rng.integers(4))
            Q = numpy.linalg.qr(rng.standard_normal((N, N)))[0]
            A = (Q * numpy.concatenate([numpy.logspace(0, -sc["decades"], k), numpy.ones(N - k)])) @ Q.T
        elif sc["x0"] == "solution":
            # whole numbers: the residual of the initial guess is exactly zero
            A = numpy.rint(64 * A)
        sol = numpy.linalg.solve(A, b)
        x0 = None if sc["x0"] is None else (rng.standard_normal(N) if sc["x0"] == "random" else sol)
        if sc["x0"] == "solution":
            sol = x0 = numpy.rint(9 * rng.standard_normal(N))
            b = A @ x0
        if sc["coupling"] == "shift":
            b = A @ x0
            b[int(rng.integers(N))] += 1.0
            sol = numpy.linalg.solve(A, b)
    elif kind in ("kiops", "pmex", "low"):
        A = sc["scale"] * (R - 0.5 * numpy.eye(N))
        u = rng.standard_normal((sc["p"] + 1, N))
        if sc["u"] == "one_rank":
            k = int(rng.integers(n))
            u[:, : k * m] = 0
            u[:, (k + 1) * m :] = 0
        elif sc["u"] == "zero0":
            u[0] = 0
        ref = phi_reference(A, u, sc["taus"])
    elif kind == "newton":
        A = 2.0 * numpy.eye(N) + 0.5 * R
        b = rng.standard_normal(N)
    else:
        v1, v2 = rng.standard_normal(N), rng.standard_normal(N)

    def body(rank, world):
        import math

        from mpi4py import MPI
        import solvers
        from device import CpuDevice

        comm = MPI.COMM_WORLD
        if off:
            comm = comm.Split(0 if off <= rank < n + off else 1, rank)
            if not off <= rank < n + off:
                return None
        me = comm.rank
        sl = slice(me * m, (me + 1) * m)
        device = CpuDevice(comm)

        def mv(x):
            full = numpy.concatenate(comm.allgather(numpy.array(x).ravel()))
            return A[sl] @ full

        if kind == "fgmres":
            x, nr, nb, it, flag, res = solvers.fgmres(
                mv, b[sl].copy(), x0=None if x0 is None else x0[sl].copy(), tol=sc["tol"], restart=sc["restart"], maxiter=sc["maxiter"],
                hegedus=sc["hegedus"] and x0 is not None, device=device)
            return x, (float(nr), float(nb), it, flag, tuple(q[0] for q in res))
        if kind == "newton":
            F = lambda x: mv(x) + 0.1 * numpy.tanh(x).ravel() - b[sl]
            out = solvers.newton_krylov(F, numpy.zeros(m), f_tol=sc["tol"], fgmres_restart=15, maxiter=60, device=device)
            x = out[0]
            info = tuple(float(q) if not isinstance(q, (list, tuple)) else len(q) for q in out[2:4])
            return numpy.ravel(x), info
        if kind in ("kiops", "pmex", "low"):
            uu = u[:, sl].copy()
            fn = getattr(solvers, sc["solver"])
            kw = dict(tol=sc["tol"], m_init=sc["m"], mmin=10, mmax=64, task1=False)
            if kind != "low":
                kw["device"] = device
            if "pmex" in sc["solver"]:
                kw["reuse_info"] = sc["reuse"]
            w, st = fn(sc["taus"], mv, uu, **kw)
            return numpy.array(w), tuple(float(q) for q in st[:6])
        g = (float(solvers.global_norm(v1[sl], device=device)), float(solvers.global_dotprod(v1[sl], v2[sl], comm=comm)),
             float(solvers.global_inf_norm(v1[sl], comm=comm)))
        return numpy.zeros(1), g

    r = ctx.world("x", n + 2 * off, body)
    if kind == "fgmres" and (sc["x0"] == "exact" or sc["tol"] < 1e-14):
        # nothing left to improve: the Krylov space is made of round-off and may break down, on all processes alike
        ex = [str(r["exc"][k]) for k in range(off, n + off)]
        if r["end"]["kind"] == "completed" and all("infs or NaNs" in e or "ingular" in e for e in ex):
            ctx.sig.append("breakdown on all ranks")
            return
    if not frame.ended_ok(r):
        ctx.fail("end:" + kind, "%s on %d ranks did not end properly: %s" % (sc.get("solver", kind), n, frame.describe_end(r)), [t[-800:] for t in r["tb"] if t][:1])
        return
    vals = r["value"][off : n + off]
    infos = [v[1] for v in vals]
    if any(repr(q) != repr(infos[0]) for q in infos):
        ctx.fail("disagree:" + kind, "%s: processes report different results: %s" % (sc.get("solver", kind), [q for q in infos][:3]))
        return
    info = infos[0]
    if kind == "fgmres":
        x = numpy.concatenate([v[0] for v in vals])
        nr, nb, it, flag, res = info
        if sc["b"] == "zero":
            if numpy.any(x != 0) or flag != 0:
                ctx.fail("fgmres_zero", "FGMRES with a zero right-hand side does not return zero")
            return
        # the same arithmetic as that of the operator, so that round-off does not blur the comparison
        true = numpy.linalg.norm(numpy.concatenate([b[k * m : k * m + m] - A[k * m : k * m + m] @ x for k in range(n)]))
        if not (abs(true - nr) <= 1e-8 * nr + 1e-13 * nb and abs(nb - numpy.linalg.norm(b)) <= 1e-12 * nb):
            ctx.fail("fgmres_residual", "FGMRES reports residual %g for |b|=%g, the true one is %g" % (nr, nb, true))
        if flag == 0 and not true <= sc["tol"] * nb * (1 + 1e-6) + 1e-14 * nb:
            ctx.fail("fgmres_tol", "FGMRES claims convergence with relative residual %g > %g" % (true / nb, sc["tol"]))
        if flag != 0 and nr < sc["tol"] * nb * (1 - 1e-6):
            ctx.fail("fgmres_flag", "FGMRES reports a failure with relative residual %g, wanted %g" % (nr / nb, sc["tol"]))
        if sc["x0"] == "solution" and (flag != 0 or numpy.any(x != x0)):
            ctx.fail("fgmres_start", "FGMRES started from the solution does not return it")
        if flag == 0 and sc["coupling"] != "isolated" and not numpy.linalg.norm(x - sol) <= 4 * max(sc["tol"], 1e-13) * numpy.linalg.norm(b) + 1e-14 * numpy.linalg.norm(sol):
            ctx.fail("fgmres_solution", "FGMRES solution is off by %g" % numpy.linalg.norm(x - sol))
        if flag != 0 and sc["maxiter"] is None and sc["tol"] >= 1e-12 and sc["x0"] != "exact" and sc["coupling"] not in ("shift", "isolated"):
            ctx.fail("fgmres_fails", "FGMRES gives up (relative residual %g, wanted %g) on a well-conditioned system" % (true / nb, sc["tol"]))
    elif kind == "newton":
        x = numpy.concatenate([v[0] for v in vals])
        F = A @ x + 0.1 * numpy.tanh(x) - b
        if not numpy.abs(F).max() <= sc["tol"] * (1 + 1e-6):
            ctx.fail("newton", "Newton-Krylov stops at |F| = %g, wanted %g" % (numpy.abs(F).max(), sc["tol"]))
    elif kind in ("kiops", "pmex", "low"):
        w = numpy.concatenate([v[0] for v in vals], axis=-1)
        if w.shape != ref.shape:
            ctx.fail("phi_shape", "%s returns shape %s" % (sc["solver"], w.shape))
            return
        err = numpy.abs(w - ref).max() / max(numpy.abs(ref).max(), 1e-300)
        ctx.sig.append("err/tol:%s:1e%d" % (sc["solver"], int(numpy.floor(numpy.log10(max(err, 1e-16) / sc["tol"])))))
        if not err <= 30 * sc["tol"] + 1e-10:
            ctx.fail("phi:" + sc["solver"], "%s on %d ranks is off by %g (tolerance %g)" % (sc["solver"], n, err, sc["tol"]))
    else:
        want = (numpy.linalg.norm(v1), v1 @ v2, numpy.abs(v1).max())
        if not all(abs(a - c) <= 1e-10 * (1 + abs(c)) for a, c in zip(info, want)):
            ctx.fail("norms", "global norm/dot product/max norm are %s, should be %s" % (info, want))
