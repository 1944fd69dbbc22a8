"""Kill, restart from a saved state, same or other number of processes: the same simulation."""

import os
import re
import shutil

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: a random job saving its state every 1-3 steps is run uninterrupted (reference) and, in another "
        "directory, killed after a random number of scheduling steps or file operations and restarted from a saved state found there (the "
        "latest one, or an older one), up to three times, each incarnation on its own number of ranks (6 or 24), scheduler, delivery and "
        "clock, and (sometimes) with its own end time, save frequency and other outputs. Checked: the restarted job reports starting from that step, its state right after start is bitwise the saved one, it performs "
        "the remaining steps only, and final state and later saved states equal the reference (bitwise for explicit integrators on the same "
        "process count, else to round-off or solver tolerance).")
ASSUMPTIONS = ["multi-step integrators (epi3+, bdf2) lose their history at a restart by design: they may differ by up to 0.3 of one step's change",
               "after a kill, whatever was handed to the operating system survives"]


MULTISTEP = ["epi3", "epi4", "epi_stiff3", "epi_stiff4", "bdf2", "bdf2"]


def max_ranks(tier):
    return 24


def budget(tier):
    return (70, 120) if tier == "quick" else (3000, 1500)


def gen(rng, i, tier):
    big = rng.random() < 0.35
    n = 24 if big else 6
    sc = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT if big else jobs.EXPLICIT * 3 + jobs.ONESTEP, steps=rng.choice([2, 3, 4, 5]))
    if not big and rng.random() < 0.15:
        sc = jobs.gen_problem(rng, n, integrators=MULTISTEP, steps=rng.choice([3, 4, 5]))
    if not big and rng.random() < 0.12:
        sc = jobs.gen_cart(rng, jobs.EXPLICIT * 2 + jobs.ONESTEP + MULTISTEP, steps=rng.choice([3, 4, 5]))
        n = 1
    kw = sc["kw"]
    kw.update(save_state_freq=rng.choice([1, 1, 2, 3]), output_freq=rng.choice([0, 0, 1]), stat_freq=rng.choice([0, 1]))
    if kw["time_integrator"] in MULTISTEP:
        kw["save_state_freq"] = 1
    elif rng.random() < 0.3:
        kw["t_end"] = kw["t_end"] - kw["dt"] * rng.choice([0.5, 0.25, 0.7])  # last step shorter
    explicit = kw["time_integrator"] in jobs.EXPLICIT
    sc["lives"] = [{"n": rng.choice([6, 24]) if big and explicit else n, "kill": rng.random(), "pick": rng.choice(["last", "last", "any"]),
                    "policy": frame.gen_policy(rng, n)} for _ in range(rng.choice([1, 1, 2, 3]))]
    sc["lastn"] = rng.choice([6, 24]) if big else n
    sc["policy"] = frame.gen_policy(rng, n)
    sc["policy2"] = frame.gen_policy(rng, sc["lastn"])
    if rng.random() < 0.4 and kw["time_integrator"] not in MULTISTEP and kw["t_end"] % kw["dt"] == 0:
        # the lives differ in what has nothing to do with the saved state: end of the simulation, outputs
        steps = jobs.steps_of(sc)
        for life in sc["lives"] + [sc]:
            life["over"] = {"save_state_freq": rng.choice([1, 1, 2, 3, 4]), "output_freq": rng.choice([0, 0, 1, 2]), "stat_freq": rng.choice([0, 1, 3]),
                            "store_solver_stats": rng.choice([0, 1]), "solver_stats_file": "s.db", "store_total_time": rng.choice([0, 1]),
                            "base_output_file": rng.choice(["o", "p"]), "verbose_solver": rng.choice([0, 1])}
            if life is not sc:
                life["over"]["t_end"] = kw["dt"] * rng.choice([steps, steps, steps + 2] + list(range(1, steps + 1)))
        kw["save_state_freq"] = 1
    if rng.random() < 0.25:
        sc["hashseed"] = rng.randrange(1, 1000)  # the last life is a new interpreter
    return sc


def shrink(sc):
    if "hashseed" in sc:
        yield {k: v for k, v in sc.items() if k != "hashseed"}
    if len(sc["lives"]) > 1:
        for k in range(len(sc["lives"])):
            yield {**sc, "lives": sc["lives"][:k] + sc["lives"][k + 1:]}
    for k in ("stat_freq", "output_freq"):
        if sc["kw"].get(k):
            yield {**sc, "kw": {**sc["kw"], k: 0}}
    if "over" in sc:
        for k in ("output_freq", "stat_freq", "store_solver_stats", "store_total_time", "verbose_solver"):
            yield {**sc, "over": {**sc["over"], k: 0}, "lives": [{**l, "over": {**l["over"], k: 0}} for l in sc["lives"]]}


def after(s):
    names = {k: os.path.basename(s.output.state_file_name(k)) for k in range(s.num_steps + s.starting_step + 20)}
    return jobs.full_state(s), names, s.step_id, s.t, s.starting_step


def run(sc, ctx):
    kw = sc["kw"]
    n = sc["n"]
    explicit = kw["time_integrator"] in jobs.EXPLICIT
    steps = jobs.steps_of(sc)

    ref_dir = ctx.dir()
    r = ctx.job("ref", n, jobs.conf(sc, output_dir="w/out", base_output_file="o"), ref_dir, after=after)
    ctx.sig.append("%s/%s/%d/%s" % (sc["eq"], kw["time_integrator"], n, [l["n"] for l in sc["lives"]] + [sc["lastn"]]))
    if not frame.ended_ok(r):
        ctx.sig.append("reference does not run")  # C05's business
        return
    ref, names, _, ref_t, _ = r["value"][0]
    total = r["steps"]
    ref_files = jobs.checkpoint_files(os.path.join(ref_dir, "w", "out"))
    want = {names[k] for k in range(steps + 1) if k % kw["save_state_freq"] == 0}
    if set(ref_files) != want:
        ctx.fail("saved", "saved states: %s, expected %s" % (sorted(ref_files), sorted(want)))
        return

    d = ctx.dir()
    out = os.path.join(d, "w", "out")
    start = 0
    g = numpy.random.RandomState(sc["seed"] % (1 << 31))
    history = []
    lives = sc["lives"] + [{"n": sc["lastn"], "kill": None, "pick": "last", "policy": sc["policy2"], "over": sc.get("over", {})}]
    mixed = len({n} | {l["n"] for l in lives}) > 1
    if explicit:
        tol = 1e-11 if mixed else 0.0
    elif kw["time_integrator"] in MULTISTEP:
        # their history is lost, and a starting procedure of lower order replaces it: the error must stay well under one step's change
        saved = [_arr(ref_files[names[k]]) for k in range(steps + 1)]
        tol = 1e-6 + 0.3 * len(sc["lives"]) * max(jobs.rel_diff(a, b) for a, b in zip(saved, saved[1:]))
    else:
        tol = 1e-6 if not kw["time_integrator"].startswith(("epi", "srerk")) else 1e-7
    for k, life in enumerate(lives):
        before = None
        loaded = {}

        def note(s, rank, world, loaded=loaded):
            q = jobs.full_state(s)
            if rank == 0:
                world.notes = (s.starting_step, s.step_id, s.t, q)

        label = "life%d" % k
        crash = None
        if life["kill"] is not None:
            frac = (steps - start) / max(steps, 1)
            scale = (life["n"] / n) ** 0.5
            crash = int(min(60, total * 0.2) + life["kill"] * total * max(frac, 0.15) * scale)
        over = life.get("over", {})
        txt = jobs.conf(sc, **{"output_dir": "w/out", "base_output_file": "o", "starting_step": start, **over})
        end = steps if "t_end" not in over else int(round(over["t_end"] / kw["dt"]))
        if over:
            ctx.sig.append("other settings")
        if life["kill"] is None and sc.get("hashseed"):
            ctx.sig.append("new interpreter")
            rr = ctx.job(label, life["n"], txt, d, after=after, policy=life["policy"], hashseed=sc["hashseed"])
        else:
            rr = ctx.job(label, life["n"], txt, d, before=note, after=after, policy=life["policy"], crash_at=crash,
                         collect=lambda w, q: getattr(w, "notes", None))
        if rr["post"] is not None:
            st, sid, t, q = rr["post"]
            if (st, sid) != (start, start) or abs(t - min(start * kw["dt"], over.get("t_end", kw["t_end"]))) > 1e-9 * kw["dt"]:
                ctx.fail("start", "restarted from step %d: begins at step %s, time %s" % (start, (st, sid), t))
                return
            if start > 0:
                with open(os.path.join(out, names[start]), "rb") as f:
                    saved = numpy.load(f)
                if sc["eq"] == "cart":
                    q = q.reshape(saved.shape) if q.size == saved.size else q
                if saved.shape != q.shape or saved.tobytes() != q.tobytes():
                    ctx.fail("load", "state after restart from step %d on %d ranks is not the one that was saved" % (start, life["n"]))
                    return
        if rr["end"]["kind"] == "crashed" or (life is not lives[-1] and "t_end" in over and frame.ended_ok(rr)):
            if rr["end"]["kind"] != "crashed" and rr["value"][0][2] != max(end, start):
                ctx.fail("steps", "a job from step %d to %d ended at step %d" % (start, end, rr["value"][0][2]))
                return
            history.append("%d ranks %s" % (life["n"], rr["end"]["kind"]))
            have = sorted(s for s in range(1, steps + 1) if os.path.exists(os.path.join(out, names[s])))
            if not have:
                start = 0
            else:
                start = have[-1] if life["pick"] == "last" else have[g.randint(len(have))]
            ctx.sig.append("restart at %d/%d" % (start, steps))
            continue
        if not frame.ended_ok(rr):
            ctx.fail("restart_end", "job (re)started at step %d on %d ranks does not complete: %s" % (start, life["n"], frame.describe_end(rr)))
            return
        q, _, sid, t, st = rr["value"][0]
        if st != start:
            ctx.fail("start", "restarted from step %d: begins at step %d" % (start, st))
            return
        seen = [int(x) for x in re.findall(r"^Step (\d+) of", rr["out"][0], re.M)]
        if seen and seen != list(range(start + 1, steps + 1)) or sid != steps or t != ref_t:
            ctx.fail("steps", "job restarted at step %d performed steps %s and ended at step %d, time %s (reference %d, %s)" % (start, seen, sid, t, steps, ref_t))
            return
        dd = jobs.rel_diff(ref, q)
        if not dd <= tol:
            ctx.fail("final", "final state after %s and a restart at step %d on %d ranks differs from the uninterrupted run: %g (allowed %g)" % (
                history, start, life["n"], dd, tol))
        got = jobs.checkpoint_files(out)
        if "over" in sc:
            # not every life saves the same steps
            f = over["save_state_freq"]
            lack = [s for s in range(start, steps + 1) if s % f == 0 and names[s] not in got]
            odd = [nm for nm in got if nm not in names.values()]
            if lack or odd:
                ctx.fail("files", "job restarted at step %d, saving every %d steps up to %d: states of steps %s are not there, unexpected files %s" % (start, f, steps, lack, odd))
            got = {k: v for k, v in got.items() if k in ref_files}
        elif set(got) != set(ref_files):
            ctx.fail("files", "saved states at the end: %s, uninterrupted run: %s" % (sorted(got), sorted(ref_files)))
        if set(got) <= set(ref_files):
            for nm in got:
                a, b = _arr(ref_files[nm]), _arr(got[nm])
                dd = jobs.rel_diff(a, b)
                if not dd <= tol:
                    ctx.fail("file", "saved state %s after restart(s) differs from the uninterrupted run: %g" % (nm, dd))
                    break
        return


def _arr(b):
    import io

    a = numpy.load(io.BytesIO(b))
    return a[None] if a.shape[0] == 4 else a  # (one process: there is no axis for the panels)
