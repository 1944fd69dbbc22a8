"""Same job, different interleavings, message timings and clocks: bitwise identical results."""

import os

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: a random job (equations, case, grid rotation, resolution, integrator and solver, outputs; 6, 24 or 54 ranks) is run twice "
        "from the same configuration in two independently seeded environments: scheduler, message delivery order and delay, whether rooted "
        "collectives and sends synchronise, clock speed and jumps; what memory contains before it is written; sometimes the second time after another simulation in the same processes, or in a new interpreter (other string hashes). Checked bitwise: state on every rank, saved states, netCDF variables, "
        "printed diagnostics, solver statistics that are not durations.")
ASSUMPTIONS = ["reductions combine contributions in rank order (as MPI libraries do for a fixed process count)"]

DIAG = ("Integral of", "normalized error", "l1 =", "Blockstats for timestep", "Step ")


COMBOS = [(a, None) for a in jobs.ALL_INT if not a.startswith(jobs.EXPO)]
COMBOS += [(["epi2", "epi_stiff3"][k % 2] if x in ("pmex", "kiops", "exode") else ["epi2", "epi3"][k % 2], x)
           for k, x in enumerate(jobs.EXPSOLVERS)]
COMBOS += [("srerk3", "kiops"), ("srerk6", "pmex"), ("rosexp2", "kiops"), ("epi_stiff4", "kiops"), ("epi2", "kiops")]
ADAPTIVE = [("epi2", "kiops"), ("epi2", "pmex"), ("ros2", None), ("epi2", "exode"), ("epi3", "kiops"), ("srerk3", "pmex"), ("epi2", "pmex_ne1s"),
            ("rosexp2", "kiops"), ("epi_stiff3", "pmex"), ("crank_nicolson", None)]


def max_ranks(tier):
    return 54


def budget(tier):
    return (170, 200) if tier == "quick" else (4000, 1500)


def gen(rng, i, tier):
    n = rng.choice([6] * 16 + [24] * 3 + [54] if tier == "quick" else [6, 6, 6, 24, 24, 54])
    sc = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT * 3 + jobs.ALL_INT if n == 6 else jobs.EXPLICIT,
                          expsolvers=jobs.EXPSOLVERS)
    wild = rng.random() < 0.4
    if i % 2 and n == 6:
        # every integrator and every exponential solver in turn
        integ, ex = COMBOS[i // 2 % len(COMBOS)]
        sc = jobs.gen_problem(rng, n, integrators=[integ], expsolvers=[ex or "pmex"])
        if ex and sc["eq"] == "sw" and rng.random() < 0.7:
            # several sub-steps and rejected attempts
            sc["kw"].update(dt=3600, t_end=3600 * rng.choice([1, 1, 2]), tolerance=rng.choice([1e-8, 1e-9, 1e-10, 1e-11]))
            wild = rng.random() < 0.7
    elif rng.random() < 0.16:
        sc = jobs.gen_cart(rng, jobs.ALL_INT, expsolvers=jobs.EXPSOLVERS)
        n = 1
    if i % 5 == 3:
        # adaptive algorithms at work, with clocks that disagree
        n = 6
        integ, ex = ADAPTIVE[i // 5 % len(ADAPTIVE)]
        sc = jobs.gen_problem(rng, n, eq="sw", integrators=[integ], expsolvers=[ex or "pmex"])
        sc["kw"].update(num_solpts=3, num_elements_horizontal=rng.choice([2, 3, 4]), dt=3600 if ex else 900, tolerance=rng.choice([1e-8, 1e-9, 1e-10]),
                        case_number=rng.choice([5, 6]))
        sc["kw"]["t_end"] = sc["kw"]["dt"]
        wild = True
    sc["kw"]["stat_freq"] = rng.choice([0, 1])
    sc["kw"]["output_freq"] = rng.choice([0, 1, 2])
    sc["kw"]["save_state_freq"] = rng.choice([0, 1])
    sc["kw"]["store_solver_stats"] = rng.choice([0, 1])
    if n == 6 and rng.random() < 0.2:
        # the second time, the same processes have already run another simulation
        sc["warm"] = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT + jobs.ALL_INT, steps=1, expsolvers=jobs.EXPSOLVERS)
        sc["warm"]["kw"]["num_solpts"] = 2
        if sc["kw"]["time_integrator"].startswith("epi") and rng.random() < 0.5:
            sc["kw"]["exponential_solver"] = rng.choice(["exode", "pmex", "pmex_ne1s"])
    elif rng.random() < 0.08:
        sc["hashseed"] = rng.randrange(1, 1000)
    sc["policy"] = frame.gen_policy(rng, n)
    sc["policy2"] = frame.gen_policy(rng, n)
    if wild:
        # one quiet clock, one that jumps at every reading
        sc["policy"]["clock"] = "steady"
        sc["policy2"]["clock"] = "wild"
    return sc


def shrink(sc):
    if "hashseed" in sc:
        yield {k: v for k, v in sc.items() if k != "hashseed"}
    if "warm" in sc:
        yield {k: v for k, v in sc.items() if k != "warm"}
        yield {**sc, "warm": {**sc["warm"], "kw": {**sc["warm"]["kw"], "time_integrator": "tvdrk3"}}}
    yield from jobs.shrink_problem(sc)
    for k in ("stat_freq", "output_freq", "save_state_freq", "store_solver_stats"):
        if sc["kw"].get(k):
            yield {**sc, "kw": {**sc["kw"], k: 0}}


def stats_rows(path):
    import sqlite3

    if not os.path.exists(path):
        return None
    c = sqlite3.connect(path)
    cols = [r[1] for r in c.execute("pragma table_info(results_param)")]
    keep = [k for k in cols if "time" not in k or k == "simulation_time" or k == "time_integrator"]
    a = c.execute("select %s from results_param order by entry_id" % ",".join(keep)).fetchall()
    b = c.execute("select run_id, step_id, iteration, residual, work from results_data").fetchall()
    n = c.execute("select run_id, step_id, iteration from rhs_timing").fetchall()
    c.close()
    return a, b, n


def one(sc, ctx, lab, txt, d, pol):
    if lab == "b" and "hashseed" in sc:
        ctx.sig.append("new interpreter")
        return ctx.job(lab, sc["n"], txt, d, after=jobs.local_bytes, policy=pol, hashseed=sc["hashseed"])
    if lab == "a" or "warm" not in sc:
        return ctx.job(lab, sc["n"], txt, d, after=jobs.local_bytes, policy=pol)
    cfg = [os.path.join(d, "w", "c%d.ini" % k) for k in range(2)]
    for c, t in zip(cfg, (jobs.conf(sc["warm"], output_dir="w/out0", base_output_file="o"), txt)):
        with open(c, "w") as f:
            f.write(t)

    def body(rank, world):
        import simulation

        try:
            simulation.Simulation(cfg[0]).run()
        except ValueError:
            pass
        rk = world.ranks[rank]
        rk.out[:] = []
        s = simulation.Simulation(cfg[1])
        s.run()
        return jobs.local_bytes(s)

    ctx.sig.append("after another simulation")
    return ctx.world(lab, sc["n"], body, disk_root=os.path.join(d, "w"), cwd=d, policy=pol)


def run(sc, ctx):
    res = []
    for lab, pol in (("a", sc["policy"]), ("b", sc["policy2"])):
        d = ctx.dir()
        out = os.path.join(d, "w", "out")
        txt = jobs.conf(sc, output_dir="w/out", base_output_file="o", solver_stats_file="st.db")
        r = one(sc, ctx, lab, txt, d, pol)
        if not frame.ended_ok(r):
            # identical endings are required too (whether the job can run at all is C05's business)
            res.append(("end", r["end"]["kind"], [str(e)[:100] for e in r["exc"]], frame.describe_end(r)))
            continue
        nc = jobs.read_nc(os.path.join(out, "o.nc")) if sc["kw"]["output_freq"] and sc["eq"] != "cart" else {}
        diag = [l for l in r["out"][0].split("\n") if l.strip().startswith(DIAG) or sc["eq"] == "cart" and l.startswith("  ")]
        res.append(("ok", r["value"], jobs.checkpoint_files(out), nc, diag, stats_rows(os.path.join(out, "st.db"))))
    ctx.sig.append("%s/%s/%s/%d" % (sc["eq"], sc["kw"]["time_integrator"], sc["kw"].get("exponential_solver"), sc["n"]))
    a, b = res
    if a[0] != "ok" or b[0] != "ok":
        if a[:3] != b[:3]:
            ctx.fail("ending", "the same job ends differently under another schedule: %s <> %s" % (a[-1] if a[0] == "end" else "completed",
                                                                                                     b[-1] if b[0] == "end" else "completed"))
        return
    bad = [r for r in range(sc["n"]) if a[1][r] != b[1][r]]
    if bad:
        x, y = numpy.frombuffer(a[1][bad[0]]), numpy.frombuffer(b[1][bad[0]])
        ctx.fail("state", "final state differs between two schedules of the same job on ranks %s (max difference %g)" % (
            bad[:8], numpy.nanmax(numpy.abs(x - y)) if x.shape == y.shape else float("nan")))
    if a[2] != b[2]:
        ctx.fail("checkpoint", "saved states differ between two schedules of the same job: %s" % sorted(
            k for k in set(a[2]) | set(b[2]) if a[2].get(k) != b[2].get(k)))
    for k in set(a[3]) | set(b[3]):
        if k not in a[3] or k not in b[3] or a[3][k][0] != b[3][k][0] or a[3][k][1].tobytes() != b[3][k][1].tobytes():
            ctx.fail("netcdf", "netCDF variable %s differs between two schedules of the same job" % k)
            break
    if a[4] != b[4]:
        ctx.fail("diagnostics", "printed diagnostics differ: %s" % [(x, y) for x, y in zip(a[4], b[4]) if x != y][:2])
    if a[5] != b[5]:
        ctx.fail("solver_stats", "recorded solver statistics differ between two schedules")
