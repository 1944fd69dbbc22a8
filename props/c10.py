"""Saved states are all or nothing: under crashes, full disks and I/O errors, and when read back damaged."""

import io
import os
import re

import numpy

import frame
import jobs

LEVEL = "exploration"
RULE = ("Seeded: (a) a job overwriting saved states of an earlier run is killed, loses power (unsynchronised data lost or torn, later directory "
        "operations undone), or meets ENOSPC/EIO/EDQUOT/EACCES at a random open, write, close, fsync or rename of a saved state, or a kill at "
        "a random scheduling step: every file under a saved state's name must be byte for byte the old or the new complete one; after a kill "
        "the states of all steps already passed must be the new ones; an I/O error ends the job on all ranks with an error; the same job run again with the left-overs of the first completes and leaves its own states. (b) a job is "
        "started from a state that is missing, truncated anywhere, empty, garbage, of another shape or unreadable: all ranks start from step 0 "
        "and the initial state (or all from the right state, if the damage spares it), and the final state and all states saved on the way are those of such a run.")
ASSUMPTIONS = ["a power loss keeps a prefix of the directory operations and all synchronised file contents",
               "silent corruption of bytes within the array is not detected by the file format and not required to be"]


def max_ranks(tier):
    return 24


def budget(tier):
    return (130, 110) if tier == "quick" else (6000, 1500)


def gen(rng, i, tier):
    n = rng.choice([6, 6, 6, 6, 24])
    sc = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT, steps=rng.choice([1, 2, 3]))
    kw = sc["kw"]
    kw["save_state_freq"] = 1
    if sc["eq"] == "sw":
        kw["case_number"], sc["old_case"] = rng.choice([(2, 6), (6, 2), (5, 6), (6, 5), (2, 5)])
    else:
        kw["case_number"], sc["old_case"] = rng.choice([(31, 77), (77, 31), (21, 31), (31, 22)])
        kw["dt"] = 2
    kw["t_end"] = kw["dt"] * max(1, jobs.steps_of({"kw": kw}) if kw["t_end"] % kw["dt"] == 0 else 2)
    if kw["t_end"] > 4 * kw["dt"]:
        kw["t_end"] = 3 * kw["dt"]
    if i % 3 == 2:
        sc["kind"] = "damaged"
        sc["damage"] = rng.choice(["missing", "truncate", "truncate", "truncate_tail", "empty", "garbage", "shape", "unreadable", "ioerror"])
        sc["frac"] = rng.random()
        sc["step"] = rng.randrange(1, jobs.steps_of(sc) + 1)
    else:
        sc["kind"] = "crash"
        sc["old"] = rng.random() < 0.7
        c = rng.random()
        if c < 0.15:
            sc["kill_at"] = rng.random()
        else:
            op = rng.choice(["open", "write", "write", "write", "close", "fsync", "replace", "post_replace"])
            kind = rng.choice(["kill", "power", "power"]) if c < 0.6 or op == "post_replace" else rng.choice(["enospc", "eio", "edquot", "eacces"])
            sc["fault"] = {"op": op, "kind": kind, "frac": rng.random()}
            if kind in ("enospc", "edquot") and rng.random() < 0.5:
                sc["fault"]["sticky"] = True
    sc["policy"] = frame.gen_policy(rng, n)
    return sc


def shrink(sc):
    if sc.get("old"):
        yield {**sc, "old": False}
    if sc["n"] > 6:
        yield {**sc, "n": 6}


def arr(b):
    return numpy.load(io.BytesIO(b))


def arr_or_none(b):
    try:
        return arr(b).tobytes()
    except (ValueError, OSError, EOFError):
        return None


def run(sc, ctx):
    kw = sc["kw"]
    n = sc["n"]
    steps = jobs.steps_of(sc)
    conf = lambda **o: jobs.conf(sc, output_dir="w/out", base_output_file="o", **o)

    def after(s):
        return jobs.full_state(s), {k: os.path.basename(s.output.state_file_name(k)) for k in range(steps + 1)}, s.starting_step, s.step_id

    d0 = ctx.dir()
    r0 = ctx.job("ref", n, conf(), d0, after=after, policy={"sched": "plain"})
    ctx.sig.append("%s/%s" % (sc["kind"], sc.get("damage") or (sc["fault"]["op"] + "/" + sc["fault"]["kind"] if "fault" in sc else "kill")))
    if not frame.ended_ok(r0):
        ctx.sig.append("reference does not run")
        return
    ref, names, _, _ = r0["value"][0]
    new = jobs.checkpoint_files(os.path.join(d0, "w", "out"))
    if set(new) != set(names.values()):
        ctx.fail("saved", "states saved every step for %d steps: %s" % (steps, sorted(new)))
        return
    if arr(new[names[steps]]).tobytes() != ref.tobytes():
        ctx.fail("content", "the state saved after the last step is not the state of the simulation")
        return
    d = ctx.dir()
    out = os.path.join(d, "w", "out")
    os.mkdir(out)

    if sc["kind"] == "crash":
        old = {}
        if sc["old"]:
            d1 = ctx.dir()
            ro = ctx.job("old", n, conf(case_number=sc["old_case"]), d1, after=after, policy={"sched": "plain"})
            if not frame.ended_ok(ro):
                return
            old = jobs.checkpoint_files(os.path.join(d1, "w", "out"))
            for k, v in old.items():
                with open(os.path.join(out, k), "wb") as f:
                    f.write(v)
        faults = []
        crash = None
        if "fault" in sc:
            f = sc["fault"]
            op = f["op"]
            total = r0["disk_ops"].get("replace" if op == "post_replace" else op, 0)
            if not total:
                ctx.sig.append("no such operation")
            nth = 1 + int(f["frac"] * max(1, total))
            faults = [{"op": op, "kind": f["kind"], "nth": nth, **({"sticky": True} if f.get("sticky") else {})}]
        else:
            crash = int(30 + sc["kill_at"] * r0["steps"])

        r = ctx.job("x", n, conf(), d, after=after, faults=faults, crash_at=crash, bufsize=[8192, 1 << 16, 512][sc["seed"] % 3],
                    collect=lambda w, q: "".join(w.ranks[0].out))
        got = jobs.checkpoint_files(out)
        if r["end"]["kind"] == "crashed" and sc["seed"] % 2:
            again(ctx, sc, n, conf(), out, d, names, new, r)
        text = r["post"] or ""
        begun = [int(x) for x in re.findall(r"^Step (\d+) of", text, re.M)]
        fired = bool(r["fired"])
        kind = r["end"]["kind"]
        for k, v in got.items():
            if v != new.get(k) and v != old.get(k):
                ctx.fail("torn", "after %s, %s is neither the old nor the new saved state (%d bytes, complete ones have %s)" % (
                    _what(sc, r), k, len(v), sorted({len(x) for x in [new.get(k, b""), old.get(k, b"")]})))
                return
        for k in old:
            if k not in got:
                ctx.fail("lost", "after %s, the saved state %s of the earlier run is gone" % (_what(sc, r), k))
                return
        if kind == "crashed" and fired and r["fired"][0]["kind"] == "power":
            pass
        elif kind == "crashed":
            # steps passed before the kill: their state must be there
            for k in range(0, max(begun) if begun else 0):
                if got.get(names[k]) != new[names[k]]:
                    ctx.fail("unsaved", "killed in step %d, but the state of step %d is not saved" % (max(begun), k))
                    return
        elif kind == "completed" and fired and not frame.ended_ok(r):
            if not frame.failed_everywhere(r):
                ctx.fail("split", "an error while saving the state leaves processes in different situations: " + frame.describe_end(r))
                return
            last = max(begun) if begun else 0
            for k in range(0, last):
                if got.get(names[k]) != new[names[k]]:
                    ctx.fail("unsaved", "stopped in step %d, but the state of step %d is not saved" % (last, k))
                    return
        elif kind == "completed":
            # no fault met, or one that was coped with: everything must be there
            if not frame.ended_ok(r):
                ctx.fail("end", "the job does not complete although no fault occurred: " + frame.describe_end(r))
            elif any(got.get(k) != v for k, v in new.items()):
                ctx.fail("silent", "after %s the job completes normally, but saved states are missing or old: %s" % (
                    _what(sc, r), [k for k, v in new.items() if got.get(k) != v]))
        else:
            ctx.fail("hang", "after %s: %s" % (_what(sc, r), frame.describe_end(r)))
        return

    # --- damaged state
    k = sc["step"]
    good = new[names[k]]
    path = os.path.join(out, names[k])
    ncut = len(good)
    head = 128 + arr(good).nbytes
    data = good
    faults = []
    dm = sc["damage"]
    if dm == "truncate":
        data = good[: int(sc["frac"] * head)]
    elif dm == "truncate_tail":
        data = good[: head + int(sc["frac"] * (ncut - head))]
    elif dm == "empty":
        data = b""
    elif dm == "garbage":
        data = numpy.random.RandomState(sc["seed"] % (1 << 31)).bytes(ncut)
    elif dm == "shape":
        b = io.BytesIO()
        a = arr(good)
        numpy.save(b, [a[:-1], a[..., :-1], a[:, :1], a.ravel()][sc["seed"] % 4])
        data = b.getvalue() + good[head:]
    elif dm == "unreadable":
        faults = [{"op": "open_r", "kind": "eacces", "nth": 0, "match": "state_vector"}]
    elif dm == "ioerror":
        faults = [{"op": "open_r", "kind": "eio", "nth": 0, "match": "state_vector"}]
    if dm != "missing":
        with open(path, "wb") as f:
            f.write(data)
    if faults:
        # the read of the saved state is the last file opened for reading
        faults = [{**faults[0], "nth": q} for q in range(1, 8)]
    r = ctx.job("x", n, conf(starting_step=k), d, after=lambda s: after(s) + (jobs.local_bytes(s), s.initial_Q.tobytes()), faults=faults)
    if not frame.ended_ok(r):
        if frame.failed_everywhere(r) and dm in ("shape", "truncate_tail"):
            ctx.sig.append("refused")
            return  # stopping everywhere is a safe answer too
        ctx.fail("start", "started from a damaged state (%s): %s" % (dm, frame.describe_end(r)), [t[-500:] for t in r["tb"] if t][:1])
        return
    starts = {v[2] for v in r["value"]}
    ends = {v[3] for v in r["value"]}
    if len(starts) != 1 or ends != {steps}:
        ctx.fail("mixed", "started from a damaged state (%s): processes begin at steps %s and end at %s" % (dm, sorted(starts), sorted(ends)))
        return
    s0 = starts.pop()
    ctx.sig.append("start at %s" % ("0" if s0 == 0 else "k"))
    if s0 != 0 and dm not in ("truncate_tail",):
        ctx.fail("accepted", "a damaged state (%s) is taken as the state of step %d" % (dm, s0))
        return
    if r["value"][0][0].tobytes() != ref.tobytes():
        ctx.fail("wrong", "started from a damaged state (%s): the final state is neither that of a run from 0 nor from the saved state" % dm)
        return
    if not faults:
        got = jobs.checkpoint_files(out)
        bad = [names[j] for j in range(s0, steps + 1) if names[j] not in got or arr_or_none(got[names[j]]) != arr(new[names[j]]).tobytes()]
        if bad:
            ctx.fail("not rewritten", "started from a damaged state (%s): at the end saved states are missing or not those of the simulation: %s" % (dm, bad))


def again(ctx, sc, n, txt, out, d, names, new, r):
    """The same job once more, with whatever the crash left behind (and that somewhat longer than it was)."""
    g = numpy.random.RandomState(sc["seed"] % (1 << 31))
    rest = [f for f in sorted(os.listdir(out)) if f not in set(names.values()) and not f.endswith(".nc")]
    for f in rest:
        with open(os.path.join(out, f), "ab") as h:
            h.write(g.bytes(int(g.randint(0, 3 * max(len(v) for v in new.values())))))
    if rest:
        ctx.sig.append("left-overs")
    rr = ctx.job("again", n, txt, d)
    if not frame.ended_ok(rr):
        ctx.fail("again", "after %s, the same job does not complete in the same directory: %s" % (_what(sc, r), frame.describe_end(rr)))
        return
    got = jobs.checkpoint_files(out)
    bad = [k for k, v in new.items() if got.get(k) != v]
    if bad:
        ctx.fail("again", "after %s, the same job run again leaves saved states that are not those of the simulation: %s (left over before it: %s)" % (_what(sc, r), bad, rest))


def _what(sc, r):
    if r["fired"]:
        f = r["fired"][0]
        return "%s at %s of %s" % (f["kind"], f["op"], f["path"])
    return "a kill" if r["end"]["kind"] == "crashed" else "no fault"
