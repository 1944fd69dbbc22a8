"""A simulation stays within the communicator it is given."""

import os

import numpy

import frame
import jobs
import simmpi

LEVEL = "exploration"
RULE = ("Seeded: a simulation (equations, integrator, every exponential solver, outputs) runs on 6 ranks picked in random order out of a "
        "job of 6-14, while the others do nothing, exchange unrelated messages (also addressed to the simulation's processes, on the global "
        "communicator), run collectives of their own or run a second simulation (also in the same directory, with both made to write at the same time); under a random scheduler, delivery and clock. Checked: it "
        "ends, and states, printed lines and files equal bit for bit those of the same simulation alone on 6 processes.")
ASSUMPTIONS = ["reductions are performed in the order of the ranks, so results are comparable bit for bit",
               "two simulations of a job write to different files (in the same or different directories)"]

OTHERS = ["idle", "traffic", "collective", "second", "late", "noise"]


def max_ranks(tier):
    return 14


def budget(tier):
    return (110, 140) if tier == "quick" else (2500, 1800)


def sim(rng, which):
    x = rng.random()
    if which == "solver":
        sc = jobs.gen_problem(rng, 6, integrators=["epi2", "epi3", "srerk3", "epi_stiff3"], steps=1, expsolvers=jobs.EXPSOLVERS)
        sc["kw"]["num_elements_horizontal"] = 2
        sc["kw"]["num_solpts"] = 2
    else:
        sc = jobs.gen_problem(rng, 6, integrators=jobs.EXPLICIT if x < 0.4 else jobs.ALL_INT)
        if x >= 0.4:
            sc["kw"]["num_elements_horizontal"] = 2
    kw = sc["kw"]
    for k in ("output_freq", "stat_freq", "save_state_freq"):
        kw[k] = rng.choice([0, 1, 2])
    kw["store_solver_stats"] = rng.choice([0, 1])
    kw["store_total_time"] = rng.choice([0, 1])
    if sc["eq"] == "euler" and rng.random() < 0.3:
        kw.update(expfilter_apply=1, expfilter_order=4, expfilter_strength=2.0, expfilter_cutoff=0.25)
    return sc


def gen(rng, i, tier):
    others = OTHERS[i % len(OTHERS)]
    a = sim(rng, "solver" if rng.random() < 0.5 else "any")
    size = rng.choice([6, 7, 8, 9, 12]) if others in ("idle", "noise", "late") else rng.choice([8, 9, 12])
    sims = [a]
    if others == "second":
        size = rng.choice([12, 12, 13, 14])
        sims.append(sim(rng, "any"))
        same_dir = rng.random() < 0.6
        if same_dir:
            for s in sims:
                s["kw"]["save_state_freq"] = rng.choice([1, 1, 2])
    ranks = list(range(size))
    rng.shuffle(ranks)
    if rng.random() < 0.3 and others != "second":
        ranks.sort()
        if size > 6:
            ranks = ranks[1:7] + ranks[:1] + ranks[7:]
    return {"same_dir": others == "second" and same_dir, "size": size, "others": others, "sims": sims, "group": [ranks[:6], ranks[6:12]] if others == "second" else [ranks[:6]],
            "traffic": rng.randrange(1, 40), "policy": frame.gen_policy(rng, size), "alone": frame.gen_policy(rng, 6)}


def shrink(sc):
    for k, s in enumerate(sc["sims"]):
        for t in jobs.shrink_problem({**s, "n": 6}):
            yield {**sc, "sims": [t if j == k else x for j, x in enumerate(sc["sims"])]}
        for o in ("output_freq", "stat_freq", "save_state_freq", "store_solver_stats", "store_total_time"):
            if s["kw"].get(o):
                t = {**s, "kw": {**s["kw"], o: 0}}
                yield {**sc, "sims": [t if j == k else x for j, x in enumerate(sc["sims"])]}
    if sc["others"] not in ("idle", "second"):
        yield {**sc, "others": "idle"}
    if sc["traffic"] > 1:
        yield {**sc, "traffic": sc["traffic"] // 2}


def files(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, d)
            if n.endswith(".nc"):
                try:
                    v = jobs.read_nc(p)
                    out[rel] = {k: (x[0], x[1].shape, x[1].tobytes()) for k, x in v.items()}
                except (OSError, RuntimeError) as e:
                    out[rel] = "broken: %s" % e
            elif n.endswith(".db"):
                import sqlite3

                c = sqlite3.connect(p)
                try:
                    out[rel] = sorted((t, c.execute("select count(*) from %s" % t).fetchone()[0])
                                      for (t,) in c.execute("select name from sqlite_master where type='table' and name not like 'sqlite%'").fetchall())
                except sqlite3.Error as e:
                    out[rel] = "broken: %s" % e
                c.close()
            elif n.endswith(".npy"):
                out[rel] = open(p, "rb").read()
            else:
                out[rel] = "present"
    return out


def conf_of(sc, k):
    """Two simulations in the same directory use different file names."""
    names = "ab"
    if sc.get("same_dir"):
        o = {"output_dir": "w/out", "base_output_file": "o" + names[k], "solver_stats_file": "s_%s.db" % names[k]}
        return jobs.conf(sc["sims"][k], **o), "w/out"
    return jobs.conf(sc["sims"][k], output_dir="w/out_" + names[k], base_output_file="o", solver_stats_file="s.db"), "w/out_" + names[k]


def run(sc, ctx):
    names = "ab"
    want = []
    for k, s in enumerate(sc["sims"]):
        d = ctx.dir()
        txt, where = conf_of(sc, k)
        r = ctx.job("alone_" + names[k], 6, txt, d, after=lambda m: (jobs.local_bytes(m), m.step_id, m.t), policy=sc["alone"])
        want.append((r, files(os.path.join(d, where))))
        ctx.sig.append("%s/%s/%s" % (s["eq"], s["kw"]["time_integrator"], s["kw"].get("exponential_solver", "")))
    if sc.get("same_dir"):
        ctx.sig.append("same directory")
        for f in set(want[0][1]) & set(want[1][1]):
            if not f.startswith("runtime_"):
                ctx.sig.append("same files")
                return
    ctx.sig.append("%s/%d/%s" % (sc["others"], sc["size"], "sorted" if sc["group"][0] == sorted(sc["group"][0]) else "permuted"))

    d = ctx.dir()
    for k, s in enumerate(sc["sims"]):
        with open(os.path.join(d, "w", "c_alone_%s.ini" % names[k]), "w") as f:
            f.write(conf_of(sc, k)[0])
    others, size = sc["others"], sc["size"]
    inside = [x for g in sc["group"] for x in g]
    outside = [x for x in range(size) if x not in inside]

    def body(rank, world):
        import simulation
        from mpi4py import MPI

        w = MPI.COMM_WORLD
        mine = next((k for k, g in enumerate(sc["group"]) if rank in g), None)
        color = mine if mine is not None else 7
        key = sc["group"][mine].index(rank) if mine is not None else outside.index(rank)
        comm = w.Split(color, key)
        if mine is None:
            if others in ("traffic", "noise"):
                for m in range(sc["traffic"]):
                    if others == "traffic" and len(outside) > 1:
                        k = outside.index(rank)
                        req = w.isend((rank, m), dest=outside[(k + 1) % len(outside)], tag=m % 5)
                        src = outside[(k - 1) % len(outside)]
                        got = w.recv(source=src, tag=m % 5)
                        req.wait()
                        assert got == (src, m), (got, src, m)
                    # messages for the simulation's processes, which only look at them at the end
                    w.isend((rank, m), dest=inside[m % len(inside)], tag=m)
            elif others == "collective":
                for m in range(sc["traffic"]):
                    assert comm.allreduce(m) == m * comm.size
                    comm.Barrier()
            if others == "late":
                for m in range(sc["traffic"]):
                    MPI.Wtime()
            return ("outside",)
        s = simulation.Simulation(os.path.join(d, "w", "c_alone_%s.ini" % names[mine]), comm=comm)
        s.run()
        if others in ("traffic", "noise"):
            k = inside.index(rank)
            for o in outside:
                for m in range(sc["traffic"]):
                    if m % len(inside) == k:
                        assert w.recv(source=o, tag=m) == (o, m)
        return ("inside", mine, key, jobs.local_bytes(s), s.step_id, s.t)

    def hook(world):
        at_file = {0: 0, 1: 0}

        def at(w):
            # whoever comes to open a file for the k-th time waits for the other simulation to do so too
            if not w.startswith("disk:open:"):
                return
            mine = next((k for k, g in enumerate(sc["group"]) if simmpi.current().rank in g), None)
            if mine is None:
                return
            at_file[mine] += 1
            if at_file[mine] <= 4:
                for _ in range(3000):
                    if at_file[1 - mine] >= at_file[mine]:
                        break
                    world.yield_("waits")

        return at

    r = ctx.world("shared", size, body, disk_root=os.path.join(d, "w"), cwd=d, fault_hook=hook if sc.get("same_dir") and sc["traffic"] % 4 else None)
    bad = [x for x in outside if r["outcome"][x] not in ("returned", None)]
    if bad:
        ctx.fail("others", "processes outside the simulation are disturbed: " + frame.describe_end(r))
        return
    for k, g in enumerate(sc["group"]):
        ra, fa = want[k]
        alone = [str(o) for o in ra["outcome"]]
        here = [str(r["outcome"][x]) for x in g]
        if ra["end"]["kind"] != "completed":
            return  # C05's concern
        if r["end"]["kind"] in ("deadlock", "step_cap", "cpu_limit", "fatal_signal", "collective_mismatch"):
            ctx.fail("hang", "simulation %s on ranks %s of %d never ends, but does when alone: %s" % (names[k], g, size, frame.describe_end(r)))
            return
        if alone != here:
            ctx.fail("end", "on ranks %s of %d the simulation ends differently (alone: %s): %s" % (g, size, frame.describe_end(ra), frame.describe_end(r)))
            return
        ctx.sig.append("end:%s" % alone[0])
        for j, x in enumerate(g):
            if here[j] != "returned":
                continue
            v = r["value"][x]
            b, step, t = ra["value"][j]
            if (step, t) != v[4:6]:
                ctx.fail("steps", "process %d of the group: step and time %s instead of %s" % (j, v[4:6], (step, t)))
                return
            if b != v[3]:
                p, q = numpy.frombuffer(b), numpy.frombuffer(v[3])
                ctx.fail("state", "process %d of the group (rank %d of %d, others: %s): the state differs from the run alone, max difference %s" % (
                    j, x, size, others, numpy.nanmax(numpy.abs(p - q)) if p.shape == q.shape else "shape"))
                return
            ta, tb = jobs.transcript(ra["out"][j]), jobs.transcript(r["out"][x])
            if ta != tb:
                diff = next(((p, q) for p, q in zip(ta, tb) if p != q), (len(ta), len(tb)))
                ctx.fail("printed", "process %d of the group (rank %d of %d) prints something else than when alone: %r <> %r" % (j, x, size, *diff))
                return
        if "returned" in here:
            fb = files(os.path.join(d, conf_of(sc, k)[1]))
            if sc.get("same_dir"):
                fb = {f: v for f, v in fb.items() if f not in want[1 - k][1] or f in fa}
            if fa != fb:
                diff = [n for n in sorted(set(fa) | set(fb)) if fa.get(n) != fb.get(n)]
                ctx.fail("files", "files differ from those written by the run alone: %s" % diff)
                return
