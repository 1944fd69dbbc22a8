"""Every job ends, and ends the same way on all processes."""

import os
import re

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: a random configuration (all equations, cases, integrators, exponential and linear solvers, tolerances, restart lengths, "
        "Jacobian methods, filters, outputs; linear solvers with unreachable tolerances; supported and unsupported ones; allowed and disallowed process counts, 1-54 ranks) is run under "
        "a random scheduler, message delivery, collective synchronisation and clock. Checked: no deadlock, no mismatched collective, all "
        "processes complete the announced steps or all stop with an error; configurations known to be supported complete.")
ASSUMPTIONS = ["a run is declared stuck when no process can proceed (exact), or after 1 million scheduling steps or 90 s of processor time in one job (supported ones need under 20 s)",
               "linear_solver=gcrot is exercised by its known finding only"]

TRIES = ["supported", "supported", "supported", "tuned", "tuned", "unsupported", "ranks", "stagnant", "supported", "supported", "supported", "tuned", "tuned", "unsupported", "ranks"]


def max_ranks(tier):
    return 54


def budget(tier):
    return (260, 120) if tier == "quick" else (4000, 1800)


def gen(rng, i, tier):
    kind = TRIES[i % len(TRIES)]
    n = rng.choice([6, 6, 6, 6, 24])
    light = n > 6
    sc = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT if light and rng.random() < 0.8 else jobs.EXPLICIT + jobs.ALL_INT,
                          expsolvers=jobs.EXPSOLVERS)
    if kind in ("supported", "ranks") and rng.random() < 0.12:
        sc = jobs.gen_cart(rng, jobs.EXPLICIT + jobs.ALL_INT, expsolvers=jobs.EXPSOLVERS)
        n = 1
        light = False
    kw = sc["kw"]
    if light and kw["time_integrator"] not in jobs.EXPLICIT:
        kw.update(num_solpts=2, t_end=kw["dt"], num_elements_horizontal=4)
        if "exponential_solver" in kw:
            kw["exponential_solver"] = rng.choice(["pmex", "kiops"])
    sc["kind"] = kind
    kw["stat_freq"] = rng.choice([0, 1, 2])
    kw["output_freq"] = rng.choice([0, 0, 1, 2])
    kw["save_state_freq"] = rng.choice([0, 1])
    kw["store_solver_stats"] = rng.choice([0, 1])
    kw["store_total_time"] = rng.choice([0, 1])
    kw["verbose_solver"] = rng.choice([0, 1])
    if kind == "tuned":
        kw["time_integrator"] = rng.choice(jobs.ALL_INT)
        kw.pop("exponential_solver", None)
        if kw["time_integrator"].startswith(jobs.EXPO):
            kw["exponential_solver"] = rng.choice(jobs.EXPSOLVERS)
        kw["num_solpts"] = 2
        kw["num_elements_vertical"] = 1
        sc["n"] = n = 6
        kw["num_elements_horizontal"] = 2
        kw["t_end"] = kw["dt"]
        kw["tolerance"] = rng.choice([1e-3, 1e-5, 1e-8, 1e-8])
        kw["gmres_restart"] = rng.choice([4, 8, 20])
        kw["jacobian_method"] = rng.choice(["complex", "fd"])
        kw["krylov_size"] = rng.choice([1, 3, 10])
        kw["dt"] *= rng.choice([1, 1, 3 if sc["eq"] == "sw" else 1])
        kw["t_end"] = kw["dt"]
        if kw.get("exponential_solver") == "exode":
            kw["exode_method"] = rng.choice(["bs3(2)", "dp5(4)", "m4(3)", "exlrk3(2)", "dp8(7)"])
            kw["tolerance"] = max(kw["tolerance"], 1e-7)
            kw["krylov_size"] = 1
    elif kind == "unsupported":
        u = rng.choice(["integ", "precond", "fst", "case", "grid", "fv", "equations", "filter", "missing", "value"])
        if u == "integ":
            kw["time_integrator"] = rng.choice(["nothing", "epi1", "epi_stiff9", "srerk1", "srerk2", "srerkx", "imex2", "partrosexp2", "strang_epi2_ros2"])
        elif u == "precond":
            kw["preconditioner"] = rng.choice(["fv", "p-mg", "lu"])
        elif u == "fst":
            kw["output_format"] = "fst"
            kw["output_freq"] = 1
        elif u == "case":
            kw["case_number"] = rng.choice([-1, 0, 3, 8, 9, 10, 99] if sc["eq"] == "sw" else [0, 13, 20, 99])
        elif u == "grid":
            kw["grid_type"] = "icosahedral"
        elif u == "fv":
            kw["discretization"] = "fv"
        elif u == "equations":
            kw["equations"] = "navier_stokes"
        elif u == "filter":
            kw["expfilter_apply"] = 1
        elif u == "missing":
            kw[rng.choice(["dt", "t_end", "num_solpts", "grid_type"])] = None
        else:
            k, v = rng.choice([("dt", "abc"), ("num_solpts", "0"), ("num_elements_horizontal", "-2"), ("tolerance", "x")])
            kw[k] = v
        sc["what"] = u
    elif kind == "stagnant":
        # a linear solver that cannot reach its tolerance: the job goes through all its steps or says that it did not
        out = {k: kw[k] for k in ("stat_freq", "output_freq", "save_state_freq", "store_solver_stats", "store_total_time", "verbose_solver")}
        sc = {**jobs.gen_problem(rng, 6, eq="sw", integrators=["ros2"]), "kind": kind}
        kw = sc["kw"]
        n = 6
        kw.update(out, tolerance=1e-15, gmres_restart=20, num_solpts=2, num_elements_horizontal=2, dt=rng.choice([100, 200, 200, 250]), case_number=6)
        kw["t_end"] = kw["dt"] * rng.choice([3, 4, 5])
    elif kind == "ranks":
        sc["n"] = n = rng.choice([2, 3, 6, 7, 24] if sc["eq"] == "cart" else [1, 2, 3, 5, 7, 8, 12, 18, 23, 24, 24, 54])
        if n in (24, 54):
            kw["num_elements_horizontal"] = rng.choice([5, 7, 3, 2, 1] if n == 24 else [8, 7, 4, 2])
    elif sc["eq"] == "euler" and rng.random() < 0.3:
        kw.update(expfilter_apply=1, expfilter_order=4, expfilter_strength=2.0, expfilter_cutoff=0.25)
    sc["policy"] = frame.gen_policy(rng, n)
    return sc


def known_scenario(key):
    if key == "hang:gcrot":
        return {"n": 6, "eq": "sw", "kind": "supported", "kw": {"time_integrator": "ros2", "linear_solver": "gcrot", "dt": 600, "t_end": 600,
                                                              "num_solpts": 3, "num_elements_horizontal": 2, "case_number": 6},
                "policy": {"sched": "plain"}}
    raise KeyError(key)


def shrink(sc):
    if sc["kind"] in ("supported", "tuned"):
        yield from jobs.shrink_problem(sc)
    for k in ("stat_freq", "output_freq", "save_state_freq", "store_solver_stats", "store_total_time", "verbose_solver", "expfilter_apply"):
        if sc["kw"].get(k):
            yield {**sc, "kw": {**sc["kw"], k: 0}}


def run(sc, ctx):
    d = ctx.dir()
    n = sc["n"]
    txt = jobs.conf(sc, output_dir="w/out", base_output_file="o", solver_stats_file="s.db")
    r = ctx.job("x", n, txt, d, after=lambda s: (s.step_id, s.t, s.integrator.failure_flag), max_steps=1_000_000)
    ctx.sig.append("%s/%s/%s/%s" % (sc["kind"], sc["eq"], sc["kw"]["time_integrator"], sc["kw"].get("exponential_solver", "")))
    if "what" in sc:
        ctx.sig.append("unsupported:" + sc["what"])
    k = r["end"]["kind"]
    tag = ":gcrot" if sc["kw"].get("linear_solver") == "gcrot" else ""
    if k in ("deadlock", "step_cap", "cpu_limit", "fatal_signal", "collective_mismatch"):
        ctx.fail("hang" + tag, "the job never ends (%s)" % frame.describe_end(r))
        return
    if not (frame.ended_ok(r) or frame.failed_everywhere(r)):
        ctx.fail("split" + tag, "processes end differently: " + frame.describe_end(r), [t[-600:] for t in r["tb"] if t][:2])
        return
    ctx.sig.append("end:%s:%s" % (sc["kind"], "completed" if frame.ended_ok(r) else "stopped"))
    if frame.failed_everywhere(r):
        msgs = " ".join(str(e) for e in r["exc"] if e).lower()
        numerical = re.search(r"nan|infs|infinity|overflow|singular|solver failed", msgs)
        if sc["kind"] == "supported" and numerical:
            ctx.sig.append("numerical breakdown")
        elif sc["kind"] == "supported":
            ctx.fail("unsupported" + tag, "a supported configuration does not run: " + frame.describe_end(r), [t[-600:] for t in r["tb"] if t][:2])
        return
    if sc["kind"] == "ranks":
        ctx.fail("ranks", "the job ran on %d processes, which its grid cannot be divided into" % n)
        return
    if len(set(r["value"])) != 1:
        ctx.fail("steps", "processes ended at different steps, times or failure flags: %s" % sorted(set(r["value"])))
        return
    step, t, flag = r["value"][0]
    if sc["kind"] == "stagnant":
        ctx.sig.append("solver flag %d at the end" % flag)
    if sc["kind"] in ("supported", "tuned", "stagnant"):
        want = jobs.steps_of(sc)
        if step != want:
            ctx.fail("count", "the job ended at step %d instead of %d" % (step, want))
        seen = [int(x) for x in re.findall(r"^Step (\d+) of", r["out"][0], re.M)]
        if seen and seen != list(range(1, want + 1)):
            ctx.fail("count", "steps announced: %s, expected 1..%d" % (seen, want))
