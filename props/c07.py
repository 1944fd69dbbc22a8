"""Sections executed by one (or the first few) processes of a group."""

import numpy

import frame

LEVEL = "exploration"
RULE = ("Seeded: 1-12 ranks split into 1-3 disjoint groups, each running its own random program of 1-6 single-process sections, do-once "
        "calls and multi-process sections (random root, returned value, failure on random ranks, file reads and delays inside), under a "
        "random scheduler. Each rank's execution log is compared with a reference model of the section semantics.")
ASSUMPTIONS = ["a broadcast may complete on the root before the others enter it, or synchronise (chosen per call)"]


def max_ranks(tier):
    return 12


def budget(tier):
    return (2400, 60) if tier == "quick" else (40000, 900)


VALUES = ["none", "zero", "false", "empty", "str", "dict", "array", "exc", "nested", "int"]
EXC = ["ValueError", "KeyError", "SystemExit", "KeyboardInterrupt", "OSError", "custom"]


def value(kind, tag):
    return {"none": None, "zero": 0, "false": False, "empty": [], "str": "s%s" % tag, "dict": {"k": tag}, "array": numpy.arange(4.0) + tag,
            "exc": ValueError("just a value"), "nested": [{"a": (tag, None)}], "int": tag + 1}[kind]


def same(a, b):
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray) and numpy.array_equal(a, b)
    if isinstance(a, BaseException):
        return type(a) is type(b) and a.args == b.args
    return type(a) is type(b) and a == b


def gen(rng, i, tier):
    n = rng.randrange(1, 13)
    ng = rng.randrange(1, min(3, n) + 1)
    groups = [[] for _ in range(ng)]
    for r in range(n):
        groups[r if r < ng else rng.randrange(ng)].append(r)
    progs = []
    for g in groups:
        ops = []
        for _ in range(rng.randrange(1, 7)):
            kind = rng.choice(["single", "single", "once", "multi"])
            k = rng.choice([0, rng.randrange(1, len(g) + 1), len(g)])
            active = len(g) if k == 0 else k
            fail = rng.random() < 0.35
            ops.append({"op": kind, "root": rng.randrange(len(g)), "value": rng.choice(VALUES), "delay": rng.randrange(0, 4), "num": k,
                        "exc": rng.choice(EXC) if fail else None, "where": sorted(rng.sample(range(active), rng.randrange(1, active + 1))),
                        "sub": rng.random() < 0.5, "set_before": rng.random() < 0.3})
            if kind == "once" and rng.random() < 0.5:
                # the same function with the same arguments once more
                ops[-1]["repeat"] = rng.randrange(1, 4)
        progs.append(ops)
    return {"n": n, "groups": groups, "progs": progs, "world_comm": ng == 1 and rng.random() < 0.5, "policy": frame.gen_policy(rng, n)}


def shrink(sc):
    for g in range(len(sc["progs"])):
        for k in range(len(sc["progs"][g])):
            p = [list(x) for x in sc["progs"]]
            del p[g][k]
            yield {**sc, "progs": p}


def run(sc, ctx):
    where = {r: (gi, g.index(r)) for gi, g in enumerate(sc["groups"]) for r in g}
    shared = {"done": {}, "ran": {}}

    def body(rank, world):
        from mpi4py import MPI
        import wx_mpi

        class Custom(Exception):
            pass

        exc = {"ValueError": ValueError, "KeyError": KeyError, "SystemExit": SystemExit, "KeyboardInterrupt": KeyboardInterrupt,
               "OSError": OSError, "custom": Custom}
        gi, me = where[rank]
        if sc["world_comm"]:
            comm, default = MPI.COMM_WORLD, True
        else:
            comm, default = MPI.COMM_WORLD.Split(gi, me), False
        bad = []
        size = len(sc["groups"][gi])
        for k, op in enumerate(sc["progs"][gi]):
            key = (gi, k)
            exp_val = value(op["value"], k)
            counter = {"x": 0}
            root = 0 if op["op"] == "once" else op["root"]

            def work():
                shared["ran"].setdefault(key, []).append(me)
                for _ in range(op["delay"]):
                    world.yield_("work")
                if op["exc"] and not op["set_before"] and (op["op"] != "multi" or me in op["where"]):
                    raise exc[op["exc"]]("x")
                return value(op["value"], k)

            got, err = None, None
            try:
                if op["op"] == "single":
                    a = () if default and op["root"] == 0 and op["sub"] else (comm,)
                    with wx_mpi.SingleProcess(*a, root_rank=op["root"]) as s, wx_mpi.Conditional(s):
                        s.return_value = work()
                        if op["exc"] and op["set_before"]:
                            raise exc[op["exc"]]("x")
                        shared["done"][key] = True
                    got = s.return_value
                elif op["op"] == "once":
                    def act(a, b):
                        v = work()
                        if op["exc"] and op["set_before"]:
                            raise exc[op["exc"]]("x")
                        shared["done"][key] = True
                        return v if a + b == 3 else "wrong arguments"

                    got = wx_mpi.do_once(act, 1, 2, comm=comm) if not (default and op["sub"]) else wx_mpi.do_once(act, 1, 2)
                    for j in range(op.get("repeat", 0)):
                        def again(tag=(gi, k, j)):
                            counter["x"] += 1
                            return (tag[1], counter["x"])

                        again.__qualname__ = again.__name__ = "again"
                        first = wx_mpi.do_once(again, comm=comm)
                        second = wx_mpi.do_once(again, comm=comm)
                        world.yield_("work")
                        here = 2 * (j + 1) if me == 0 else 0
                        if (first, second) != ((k, 2 * j + 1), (k, 2 * j + 2)) or counter["x"] != here:
                            bad.append(("repeated", key, me, "%s, %s, executed %d times here instead of %d" % (first, second, counter["x"], here)))
                else:
                    with wx_mpi.MultipleProcesses(comm, num_procs=op["num"]) as s, wx_mpi.Conditional(s):
                        work()
                        if op["sub"] and not op["exc"]:
                            act_n = op["num"] or size
                            if s.sub_comm.allreduce(1) != act_n:
                                bad.append(("subcomm", key, me, ""))
                        if op["exc"] and op["set_before"] and me in op["where"]:
                            raise exc[op["exc"]]("x")
                        shared["done"].setdefault(key, []).append(me)
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                err = e
            # --- reference model
            active = [root] if op["op"] != "multi" else list(range(op["num"] or size))
            if op["exc"]:
                if err is None:
                    bad.append(("failure not seen", key, me, op["exc"]))
                thrower = (me == root) if op["op"] != "multi" else (me in op["where"])
                if thrower and err is not None and not isinstance(err, exc[op["exc"]]):
                    bad.append(("error replaced", key, me, repr(err)))
            else:
                if err is not None:
                    bad.append(("spurious failure", key, me, repr(err)))
                if op["op"] != "multi" and not same(got, exp_val):
                    bad.append(("value", key, me, "got %r expected %r" % (got, exp_val)))
                d = shared["done"].get(key)
                if op["op"] != "multi" and not d:
                    bad.append(("left before the work was done", key, me, ""))
                if op["op"] == "multi" and sorted(d or []) != active:
                    bad.append(("left before the work was done", key, me, "%s of %s" % (d, active)))
            ran = shared["ran"].get(key, [])
            if sorted(ran) != active:
                bad.append(("executed by", key, me, "%s instead of %s" % (sorted(ran), active)))
        # whole-group consistency afterwards
        if comm.allreduce(1) != size:
            bad.append(("group size", None, me, ""))
        return bad

    def collect(world, disk):
        return shared["ran"]

    r = ctx.world("x", sc["n"], body, collect=collect)
    for p in sc["progs"]:
        for op in p:
            ctx.sig.append("%s/%s" % (op["op"], op["exc"] or "ok"))
    if not frame.ended_ok(r):
        ctx.fail("end:" + r["end"]["kind"], "program did not complete: " + frame.describe_end(r), [t[-700:] for t in r["tb"] if t][:1])
        return
    bad = [b for v in r["value"] for b in v]
    for (gi, k), ran in r["post"].items():
        op = sc["progs"][gi][k]
        act = 1 if op["op"] != "multi" else (op["num"] or len(sc["groups"][gi]))
        if len(ran) != act:
            bad.append(("executed more than once", (gi, k), ran, ""))
    if bad:
        b = bad[0]
        gi, k = b[1] if b[1] else (0, 0)
        ctx.fail("wrong:" + b[0], "%s: group %s operation %s, rank %s: %s" % (b[0], gi, sc["progs"][gi][k] if sc["progs"][gi] else None, b[2], b[3]), bad[:5])
