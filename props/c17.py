"""Compilation and loading of the kernels by a group of processes."""

import os

import frame

LEVEL = "exploration"
RULE = ("Seeded: 1-12 ranks (optionally a sub-group of the job), 1-3 rounds of compile / device creation, forced or not, compiler stub "
        "that takes several scheduling points, publishes the library at its end and may fail in different ways, random scheduler. "
        "Checked: exactly one compiler run per request, nobody returns or loads before it ended, a failure stops every process.")
ASSUMPTIONS = ["the compiler itself (setuptools) is a stub that writes a marker; the extension's folders are redirected to a scratch directory"]


def max_ranks(tier):
    return 14


def budget(tier):
    return (1500, 60) if tier == "quick" else (20000, 900)


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 6, 6, 8, 12])
    ops = []
    for _ in range(rng.randrange(1, 4)):
        ops.append({"op": rng.choice(["compile", "device", "device"]), "force": rng.random() < 0.4, "work": rng.randrange(1, 8),
                    "fail": rng.choice([None, None, None, "ValueError", "SystemExit", "OSError", "late"])})
    return {"n": n, "ops": ops, "subcomm": rng.random() < 0.3, "policy": frame.gen_policy(rng, n)}


def shrink(sc):
    for k in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            yield {**sc, "ops": sc["ops"][:k] + sc["ops"][k + 1:]}
    if sc["subcomm"]:
        yield {**sc, "subcomm": False}


class Proxy:
    """A module, some of whose functions are replaced."""

    def __init__(self, module, **kw):
        self.__dict__.update(kw, _module=module)

    def __getattr__(self, name):
        return getattr(self.__dict__["_module"], name)


def run(sc, ctx):
    n = sc["n"]
    off = 1 if sc["subcomm"] else 0
    d = ctx.dir()
    st = {"runs": {}, "active": 0, "lib": None, "bad": []}

    def body(rank, world):
        import importlib
        import shutil
        import types

        from mpi4py import MPI
        import compiler.compile_kernels as ck
        import device
        from device import CpuDevice

        comm = MPI.COMM_WORLD
        if off:
            comm = comm.Split(0 if off <= rank < n + off else 1, rank)
            if not off <= rank < n + off:
                return None
        me = comm.rank
        cur = {"k": None}

        if hasattr(ck, "_verif_real_compile_extension"):
            ck.compile_extension = ck._verif_real_compile_extension
        for kt in ("cpp", "cuda"):
            e = ck.get_extension("pde", kt)
            e.build_dir = os.path.join(d, "w", "build", kt)
            e.build_temp = os.path.join(e.build_dir, "tmp")
            e.lib_dir = os.path.join(d, "w", "lib", kt)

        def fake_setup(*a, **kw):
            k = cur["k"]
            op = sc["ops"][k]
            st["runs"].setdefault(k, []).append(me)
            st["active"] += 1
            if st["active"] > 1:
                st["bad"].append(("two compilers at the same time", k, me))
            for j in range(op["work"]):
                world.yield_("compiling")
                if op["fail"] and op["fail"] != "late" and j == op["work"] // 2:
                    st["active"] -= 1
                    world.count("fault:compiler_failure")
                    raise {"ValueError": ValueError, "SystemExit": SystemExit, "OSError": OSError}[op["fail"]]("compiler failed")
            st["active"] -= 1
            if op["fail"] == "late":
                world.count("fault:compiler_failure")
                raise RuntimeError("linker failed")
            st["lib"] = k

        ck.setup = fake_setup
        import setuptools

        setuptools.setup = fake_setup
        real_rmtree = shutil.rmtree

        def guarded(p, *a, **kw):
            if not os.path.realpath(p).startswith(os.path.realpath(d)):
                raise RuntimeError("refused: rmtree " + p)
            if st["active"]:
                st["bad"].append(("library removed while compiling", cur["k"], me))
            return real_rmtree(p, *a, **kw)

        ck.shutil = Proxy(shutil, rmtree=guarded)
        real_import = importlib.import_module

        def fake_import(name, *a):
            if name.startswith("lib."):
                world.yield_("load")
                if st["lib"] != cur["k"]:
                    st["bad"].append(("library loaded before it was compiled", cur["k"], me))
                return types.ModuleType("kernels")
            return real_import(name, *a)

        ck.importlib = Proxy(importlib, import_module=fake_import)
        out = []
        for k, op in enumerate(sc["ops"]):
            cur["k"] = k
            err = None
            try:
                if op["op"] == "compile":
                    ck.compile("pde", "cpp", force=op["force"], comm=comm)
                else:
                    CpuDevice(comm)
            except (Exception, SystemExit) as e:
                err = repr(e)
            if op["fail"]:
                if err is None:
                    st["bad"].append(("compilation failure not reported", k, me))
            else:
                if err is not None:
                    st["bad"].append(("spurious failure " + err, k, me))
                if st["lib"] != k:
                    st["bad"].append(("returned before the compilation ended", k, me))
            comm.barrier()
        return None

    def collect(world, disk):
        return st["bad"], st["runs"]

    r = ctx.world("x", n + 2 * off, body, collect=collect, cwd=d)
    for op in sc["ops"]:
        ctx.sig.append("%s/%s/%s" % (op["op"], op["fail"], op["force"]))
    if not frame.ended_ok(r):
        ctx.fail("end:" + r["end"]["kind"], "compilation request did not end on every rank: " + frame.describe_end(r), [t[-900:] for t in r["tb"] if t][:1])
        return
    bad, runs = r["post"]
    for k in range(len(sc["ops"])):
        if len(runs.get(k, [])) != 1:
            bad.append(("%d compiler runs" % len(runs.get(k, [])), k, runs.get(k)))
    if bad:
        ctx.fail("wrong:" + str(bad[0][0])[:30], "%s (operation %s %s, rank %s)" % (bad[0][0], bad[0][1], sc["ops"][bad[0][1]], bad[0][2]), bad[:5])
