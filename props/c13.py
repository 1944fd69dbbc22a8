"""Solver statistics database: whole steps, separately identified runs, whatever happens to the runs."""

import math
import os
import sqlite3

import numpy

import frame
import jobs
import simmpi

LEVEL = "exploration"
RULE = ("Seeded: a history of 1-4 jobs (random integrators, solvers, problems, 6 or 24 ranks, random scheduler, delivery and clock) record their "
        "solver statistics in one database. Some are killed at a random scheduling step or database operation, or meet a database error (locked, "
        "full, I/O error, corrupt) there; or two jobs use the database at the same time; sometimes the table lacks columns, as if made by an older version, or an earlier run was deleted from it by hand; solvers that report no, repeated, extreme or many residuals; or a job carries on from a state saved by the one before. After every job the database is "
        "compared with what the solvers of all jobs so far produced (recorded at the integrators): one whole entry per step whose recording "
        "ended, at most one more for a step in flight, numbered from 0, under a run number of its own; earlier rows byte for byte unchanged; a "
        "database error stops every process; a job without fault completes.")
ASSUMPTIONS = ["SQLite itself is trusted to be atomic and durable per transaction", "durations are recorded but not judged",
               "the statistics of a step are those the integrator publishes as its solver_info"]
INTS = ["ros2", "ros2", "rosexp2", "epi2", "backward_euler", "crank_nicolson", "tvdrk3", "euler1", "srerk3", "epi3"]


def max_ranks(tier):
    return 24


def budget(tier):
    return (110, 110) if tier == "quick" else (4000, 1500)


def gen(rng, i, tier):
    if i % 6 == 5:
        # several jobs at the same time
        js = []
        for k in range(2):
            r = jobs.gen_problem(rng, 6, eq="sw", integrators=["tvdrk3", "euler1", "ros2"], steps=rng.choice([1, 2, 3]))
            r["kw"].update(num_elements_horizontal=2, num_solpts=2)
            js.append(r)
        order = list(range(12))
        rng.shuffle(order)
        return {"pair": js, "first": sorted(order[:6]), "policy": frame.gen_policy(rng, 12), "again": rng.random() < 0.3, "meet": rng.random() < 0.7}
    runs = []
    for k in range(rng.choice([1, 2, 2, 3, 3, 4])):
        n = 24 if rng.random() < 0.06 else 6
        r = jobs.gen_problem(rng, n, integrators=["tvdrk3", "euler1"] if n > 6 else INTS, steps=rng.choice([1, 2, 3]))
        r["kw"]["num_elements_horizontal"] = 2 if n == 6 else 4
        r["kw"]["num_solpts"] = 2
        if rng.random() < 0.1:
            n = 1
            r = jobs.gen_cart(rng, INTS, steps=rng.choice([1, 2, 3]))
        if rng.random() < 0.3:
            r["kw"]["t_end"] -= r["kw"]["dt"] * 0.25
        if rng.random() < 0.5:
            r["kw"].update(tolerance=rng.choice([1e-3, 1e-9, 1e-11]), gmres_restart=rng.choice([5, 20, 30]))
        if runs and rng.random() < 0.3:
            # carries on from a state saved by the job before it
            runs[-1]["kw"]["save_state_freq"] = 1
            r = {"n": runs[-1]["n"], "eq": runs[-1]["eq"], "kw": dict(runs[-1]["kw"])}
            n = r["n"]
            r["kw"]["starting_step"] = rng.randrange(1, jobs.steps_of(r) + 1)
        c = rng.random()
        if c < 0.25:
            r["kill"] = {"op": "sql", "kind": "kill", "nth": rng.randrange(1, 10 + 7 * jobs.steps_of(r))}
        elif c < 0.35:
            r["kill_at"] = rng.random()
        elif c < 0.55:
            r["error"] = {"op": "sql", "kind": rng.choice(["full", "locked", "ioerr", "corrupt"]), "nth": rng.randrange(1, 9 + 6 * jobs.steps_of(r))}
        if rng.random() < 0.25:
            r["synthetic"] = True
        if rng.random() < 0.2:
            r["forget"] = True  # a run is deleted from the database by hand afterwards
        r["policy"] = frame.gen_policy(rng, n)
        runs.append(r)
    sc = {"runs": runs, "drop": rng.choice([None, None, None, ["num_procs"], ["backend", "num_procs"], ["ztop"]])}
    return sc


def shrink(sc):
    if "pair" in sc:
        for k in range(2):
            for r2 in jobs.shrink_problem(sc["pair"][k]):
                yield {**sc, "pair": [r2 if q == k else sc["pair"][q] for q in range(2)]}
        if sc["again"]:
            yield {**sc, "again": False}
        return
    rs = sc["runs"]
    for k in range(len(rs)):
        if len(rs) > 1:
            yield {**sc, "runs": rs[:k] + rs[k + 1 :]}
    for k, r in enumerate(rs):
        for f in ("kill", "error", "kill_at"):
            if f in r:
                yield {**sc, "runs": rs[:k] + [{a: b for a, b in r.items() if a != f}] + rs[k + 1 :]}
        for r2 in jobs.shrink_problem(r):
            yield {**sc, "runs": rs[:k] + [r2] + rs[k + 1 :]}
    if sc["drop"]:
        yield {**sc, "drop": None}


def dump(path):
    """{table: (columns, rows)} or None."""
    if not os.path.exists(path):
        return {}
    c = sqlite3.connect(path)
    try:
        names = [r[0] for r in c.execute("select name from sqlite_master where type='table' order by name")]
        d = {}
        for t in names:
            cols = [r[1] for r in c.execute("pragma table_info(%s)" % t)]
            d[t] = [dict(zip(cols, row)) for row in c.execute("select * from %s order by rowid" % t)]
        ok = c.execute("pragma integrity_check").fetchall()
        if ok != [("ok",)]:
            raise sqlite3.DatabaseError(str(ok))
        return d
    finally:
        c.close()


def close(a, b):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def run_pair(sc, ctx):
    """Two jobs share the database at the same time."""
    d = ctx.dir()
    db = os.path.join(d, "w", "out", "stats.db")
    used = set()
    for rnd in range(2 if sc["again"] else 1):
        cfgs = []
        for k, j in enumerate(sc["pair"]):
            cfgs.append(os.path.join(d, "w", "c%d.ini" % k))
            with open(cfgs[-1], "w") as f:
                f.write(jobs.conf(j, output_dir="w/out", base_output_file="o%d" % k, store_solver_stats=1, solver_stats_file="stats.db"))

        def body(rank, world):
            from mpi4py import MPI
            import simulation

            k = 0 if rank in sc["first"] else 1
            comm = MPI.COMM_WORLD.Split(k, rank)
            s = simulation.Simulation(cfgs[k], comm=comm)
            s.run()
            return k, comm.rank, s.step_id

        def hook(world):
            there = set()

            def at(w):
                # the first to come to the database waits for the other
                rank = simmpi.current().rank
                if w.startswith("disk:sql") and rank not in there:
                    there.add(rank)
                    for _ in range(4000):
                        if len(there) > 1:
                            break
                        world.yield_("waits")

            return at

        r = ctx.world("pair%d" % rnd, 12, body, disk_root=os.path.join(d, "w"), cwd=d, fault_hook=hook if sc["meet"] else None)
        ctx.sig.append("two jobs at once")
        if not frame.ended_ok(r):
            ctx.fail("pair_end", "two jobs using the database at the same time: " + frame.describe_end(r))
            return
        par = [p for p in dump(db).get("results_param", []) if p["run_id"] not in used]
        by = {}
        for p in par:
            by.setdefault(p["run_id"], []).append(p)
        want = sorted((j["kw"]["time_integrator"], j["kw"]["case_number"], tuple(range(jobs.steps_of(j)))) for j in sc["pair"])
        got = sorted((v[0]["time_integrator"], v[0]["case_number"], tuple(p["step_id"] for p in v)) for v in by.values())
        if got != want:
            ctx.fail("pair", "two jobs used the database at the same time: it shows runs %s instead of %s" % (got, want))
            return
        used |= set(by)


def run(sc, ctx):
    if "pair" in sc:
        return run_pair(sc, ctx)
    d = ctx.dir()
    db = os.path.join(d, "w", "out", "stats.db")
    earlier = {}
    used = set()
    for k, job in enumerate(sc["runs"]):
        n = job["n"]
        kw = job["kw"]
        steps = jobs.steps_of(job)
        faults = [job[f] for f in ("kill", "error") if f in job]
        crash = None
        synth = numpy.random.RandomState((sc["seed"] + k) % (1 << 31)) if job.get("synthetic") else None
        if "kill_at" in job:
            crash = int(200 + job["kill_at"] * 900 * steps)
        before_size = {t: len(v) for t, v in earlier.items()}

        def before(s, rank, world):
            if rank != 0:
                return
            notes = world.__dict__.setdefault("notes", {"steps": [], "done": 0, "start": int(s.starting_step)})
            integ = s.integrator
            inner = getattr(integ, "__step__", None)
            outer = integ.step

            def note(integ):
                if synth is not None and inner is not None:
                    # what a solver might report: no residuals, repeated ones, extreme ones, many
                    from solvers import SolverInfo

                    m = int(synth.choice([0, 1, 2, 5, 60]))
                    v = [float(x) for x in synth.choice([1.0, 0.5, 0.5, 1e-300, 3e-17, 1e30, 0.0], size=m)]
                    integ.solver_info = SolverInfo(int(synth.randint(0, 3)), 0.25, int(synth.randint(0, 1000)), [(x, 0.0, 0.0) for x in v])
                i = getattr(integ, "solver_info", None)
                notes["steps"][-1]["info"] = None if i is None else (int(i.total_num_it), int(i.flag), [tuple(float(y) for y in x[:1]) for x in i.iterations])
                notes["steps"][-1]["passed"] = True

            def __step__(*a, **k):
                r = inner(*a, **k)
                note(integ)
                return r

            def step(Q, dt):
                notes["steps"].append({"dt": float(dt), "t": (notes["start"] + len(notes["steps"])) * kw["dt"], "info": None, "passed": False})
                r = outer(Q, dt)
                if inner is None:
                    note(integ)
                notes["done"] += 1
                return r

            if inner is not None:
                integ.__step__ = __step__
            integ.step = step

        r = ctx.job("j%d" % k, n, jobs.conf(job, output_dir="w/out", base_output_file="o", store_solver_stats=1, solver_stats_file="stats.db"), d,
                    before=before, policy=job["policy"], faults=faults, crash_at=crash, collect=lambda w, q: w.__dict__.get("notes"))
        notes = r["post"] or {"steps": [], "done": 0}
        start = notes.get("start", 0)
        if start not in (0, kw.get("starting_step", 0)):
            ctx.fail("start", "job %d starts from step %d" % (k, start))
            return
        if start:
            ctx.sig.append("resumed")
            steps = max(0, steps - start)
        kind = r["end"]["kind"]
        fired = r["fired"]
        what = "job %d (%s, %s%s)" % (k, job["eq"], kw["time_integrator"], ", %s at %s" % (fired[0]["kind"], fired[0]["op"]) if fired else "")
        ctx.sig.append("%s/%s" % (kw["time_integrator"], fired[0]["kind"] if fired else ("kill" if kind == "crashed" else "ok")))
        if kind not in ("completed", "crashed"):
            ctx.fail("hang", what + ": " + frame.describe_end(r))
            return
        errored = any(f["kind"] != "kill" for f in fired)
        if kind == "completed":
            if errored:
                if not frame.failed_everywhere(r):
                    ctx.fail("split", "%s: a database error does not stop every process: %s" % (what, frame.describe_end(r)))
                    return
            elif not frame.ended_ok(r):
                if frame.failed_everywhere(r) and not any("sqlite" in (t or "") for t in r["tb"]):
                    ctx.sig.append("does not run")
                else:
                    ctx.fail("unusable", "%s does not complete although nothing is wrong with it: %s" % (what, frame.describe_end(r)))
                    return
        # --- what the database must contain now
        try:
            now = dump(db)
        except sqlite3.Error as e:
            ctx.fail("damaged", "after %s the database is damaged: %s" % (what, e))
            return
        for t, rows in earlier.items():
            got = now.get(t, [])[: len(rows)]
            if [{c: g[c] for c in w if c in g} for g, w in zip(got, rows)] != rows:
                ctx.fail("disturbed", "%s changed or removed entries of earlier runs in %s" % (what, t))
                return
        new = {t: v[before_size.get(t, 0) :] for t, v in now.items()}
        par = new.get("results_param", [])
        data = new.get("results_data", [])
        tim = new.get("rhs_timing", [])
        done = notes["done"]
        begun = sum(1 for s in notes["steps"] if s["passed"])
        if not (done <= len(par) <= begun):
            ctx.fail("missing", "%s: %d steps had their statistics recorded (%d begun), the database has %d entries" % (what, done, begun, len(par)))
            return
        rid = None
        if par:
            rid = par[0]["run_id"]
            if {p["run_id"] for p in par} != {rid} or rid in used or rid is None or rid < 0:
                ctx.fail("run_id", "%s: entries carry run numbers %s, numbers of earlier runs are %s" % (what, sorted({p["run_id"] for p in par}), sorted(used)))
                return
            used.add(rid)
        if [p["step_id"] for p in par] != list(range(len(par))):
            ctx.fail("step_id", "%s: entries are numbered %s" % (what, [p["step_id"] for p in par]))
            return
        for t, rows in (("results_data", data), ("rhs_timing", tim)):
            if any(x["run_id"] != rid or not 0 <= x["step_id"] < len(par) for x in rows):
                ctx.fail("orphan", "%s: rows of %s belong to no entry: %s" % (what, t, [(x["run_id"], x["step_id"]) for x in rows][:6]))
                return
        for p, s in zip(par, notes["steps"]):
            mine = [x for x in data if x["step_id"] == p["step_id"]]
            if [x["iteration"] for x in mine] != list(range(len(mine))):
                ctx.fail("iterations", "%s step %d: residuals are numbered %s" % (what, p["step_id"], [x["iteration"] for x in mine]))
                return
            exp = {"dt": s["dt"], "simulation_time": s["t"], "num_procs": n, "dg_order": kw["num_solpts"], "num_elem_h": kw["num_elements_horizontal"],
                   "case_number": kw["case_number"], "initial_dt": kw["dt"]}
            if s["info"] is not None:
                exp["num_solver_it"], exp["solver_flag"] = s["info"][:2]
                res = [x[0] for x in s["info"][2]]
                if len(res) != len(mine) or not all(close(x["residual"], w) for x, w in zip(mine, res)):
                    ctx.fail("residuals", "%s step %d: the residuals recorded are not the solver's (%d instead of %d, or other values)" % (what, p["step_id"], len(mine), len(res)))
                    return
            for c, v in exp.items():
                if not close(p.get(c), v):
                    ctx.fail("value:" + c, "%s step %d: %s is %s, should be %s" % (what, p["step_id"], c, p.get(c), v))
                    return
            if p.get("time_integrator") != kw["time_integrator"]:
                ctx.fail("value:integrator", "%s: recorded integrator %s" % (what, p.get("time_integrator")))
        if kind == "completed" and frame.ended_ok(r) and len(par) != steps and not (notes["steps"] and notes["steps"][-1]["info"] and notes["steps"][-1]["info"][1] != 0):
            ctx.fail("count", "%s made %d steps, the database has %d entries" % (what, steps, len(par)))
            return
        if sc["drop"] and now.get("results_param") and k == 0:
            c = sqlite3.connect(db)
            for col in sc["drop"]:
                c.execute("alter table results_param drop column " + col)
            c.commit()
            c.close()
            now = dump(db)
        if job.get("forget") and len(used) > 1:
            gone = min(used)
            c = sqlite3.connect(db)
            for t in ("results_param", "results_data", "rhs_timing"):
                c.execute("delete from %s where run_id = ?" % t, [gone])
            c.commit()
            c.close()
            used.discard(gone)
            ctx.sig.append("a run deleted")
            now = dump(db)
        earlier = now
        for f in ("-journal", "-wal"):
            if os.path.exists(db + f):
                ctx.sig.append("journal left")
