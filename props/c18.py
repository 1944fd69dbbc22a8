"""An I/O failure on one process ends the whole program with an error."""

import os
import re
import shutil

import frame
import harness
import jobs
from c16 import files

LEVEL = "exploration"
RULE = ("Seeded: the program itself (WxFactory's main(), arguments and all) runs with a random set of outputs (netCDF, saved states, solver "
        "statistics database, run time file, profiles) on 6 or 24 ranks under a random scheduler, delivery and clock. One operation out of all "
        "it performs - reading the configuration or its schema, creating a directory, opening, writing, synchronising, renaming or closing a "
        "file, defining, writing or closing the netCDF file, any database operation - fails (EACCES, EIO, ENOSPC, EDQUOT, HDF error, locked, "
        "full or corrupt database), once or from then on. Checked: all processes end; the exit status is that of success only if every output "
        "file has the content of the run without failure; after the failure no further step is performed; when the output directory may not "
        "be created, all output is in the fall-back directory instead. Also: bad arguments, missing or invalid configuration, and the options "
        "that print something and stop.")
ASSUMPTIONS = ["standard output does not fail", "the exit status of the program is non-zero if that of one of its processes is (mpirun)",
               "netCDF errors are raised at the Python interface of the netCDF4 package; cProfile is a stand-in that writes a file"]

OUT = ["output_freq", "save_state_freq", "store_solver_stats", "store_total_time", "stat_freq"]


def max_ranks(tier):
    return 24


def budget(tier):
    return (150, 120) if tier == "quick" else (5000, 1500)


def gen(rng, i, tier):
    n = rng.choice([6] * 8 + [24])
    sc = jobs.gen_problem(rng, n, integrators=jobs.EXPLICIT if n > 6 or rng.random() < 0.7 else ["ros2", "epi2", "rosexp2"], steps=rng.choice([1, 2, 3]))
    kw = sc["kw"]
    sc["policy"] = frame.gen_policy(rng, n)
    if i % 10 == 9:
        sc["kind"] = "arguments"
        sc["what"] = rng.choice(["none", "missing", "unknown", "help", "options", "options_md", "count", "directory", "broken", "unreadable"])
        return sc
    sc["kind"] = "fault"
    kw["num_elements_horizontal"] = 2 if n == 6 else 4
    for k in OUT:
        kw[k] = 1 if rng.random() < 0.6 else 0
    if rng.random() < 0.3:
        kw["output_freq"], kw["save_state_freq"] = rng.choice([(1, 2), (2, 1)])
    sc["profile"] = rng.random() < 0.25
    sc["what"] = what = rng.choice(["nc", "nc", "nc", "sql", "sql", "state", "state", "state", "runtime", "runtime", "read", "mkdir", "mkdir_denied", "profile"])
    need = {"nc": "output_freq", "sql": "store_solver_stats", "state": "save_state_freq", "runtime": "store_total_time"}
    if what in need and not kw[need[what]]:
        kw[need[what]] = 1
    if what == "profile":
        sc["profile"] = True
    if what == "sql":
        kw["time_integrator"] = rng.choice(["ros2", "tvdrk3", "rosexp2"]) if n == 6 else "tvdrk3"
        if kw["time_integrator"] == "rosexp2":
            kw["exponential_solver"] = "pmex"
        else:
            kw.pop("exponential_solver", None)
        if kw["time_integrator"] != "tvdrk3":
            kw["num_solpts"] = 2
    sc["op"] = {"nc": "nc", "sql": "sql", "state": rng.choice(["open", "write", "write", "close", "fsync", "replace"]),
                "runtime": rng.choice(["open", "write", "write", "close"]), "read": "open_r", "mkdir": "mkdir", "mkdir_denied": "mkdir",
                "profile": rng.choice(["open", "write", "close"])}[what]
    sc["err"] = {"sql": rng.choice(["full", "locked", "ioerr", "corrupt"]), "mkdir": rng.choice(["eio", "enospc", "edquot"]),
                 "mkdir_denied": "eacces"}.get(what) or rng.choice(["enospc", "eio", "eacces", "edquot"])
    sc["frac"] = rng.random()
    sc["sticky"] = what in ("state", "runtime", "profile") and rng.random() < 0.4
    return sc


def shrink(sc):
    if sc["n"] > 6:
        yield {**sc, "n": 6, "kw": {**sc["kw"], "num_elements_horizontal": 2}}
    for k in OUT:
        if sc["kw"].get(k):
            yield {**sc, "kw": {**sc["kw"], k: 0}}
    if sc.get("profile") and sc["what"] != "profile":
        yield {**sc, "profile": False}
    if jobs.steps_of(sc) > 1:
        yield {**sc, "kw": {**sc["kw"], "t_end": sc["kw"]["dt"]}}


def prepare_dir(ctx):
    """w/ is the working directory, with a copy of the schema in it (so that reading it is seen too)."""
    d = os.path.join(ctx.dir(), "w")
    shutil.copytree(os.path.join(harness.REPO, "config"), os.path.join(d, "config"))
    return d


def program(world, argv):
    """WxFactory's main(), as one process executes it."""
    path = os.path.join(harness.REPO, "WxFactory")
    with open(path) as f:
        src = f.read()
    g = {"__name__": "wxfactory_program", "__file__": path}
    exec(compile(src, path, "exec"), g)
    g["main"]()
    return "done"


def status(r):
    """Exit status per process."""
    out = []
    for o, c in zip(r["outcome"], r["exit_code"]):
        if o == "returned":
            out.append(0)
        elif o == "exit":
            out.append(0 if c is None else c if isinstance(c, int) else 1)
        elif o == "raised":
            out.append(1)
        else:
            out.append(None)
    return out


def launch(ctx, sc, label, d, argv, **kw):
    return ctx.world(label, sc["n"], lambda rank, world: program(world, argv), cwd=d, disk_root=d, argv=["WxFactory"] + argv, max_steps=4_000_000, **kw)


def produced(d):
    """Output files: everything except the configuration."""
    f = {k: v for k, v in files(d).items() if not k.startswith("config" + os.sep) and k != "c.ini"}
    for k in list(f):
        if os.path.basename(k).startswith("runtime_"):
            with open(os.path.join(d, k)) as fh:
                f[k] = [x.endswith("\n") for x in fh.readlines()]
        elif os.path.basename(k).startswith("prof_"):
            f[k] = os.path.getsize(os.path.join(d, k))
        elif f[k] == "present":
            del f[k]  # journals, temporary files
    return f


def run_arguments(sc, ctx):
    d = prepare_dir(ctx)
    what = sc["what"]
    ctx.sig.append("arguments/" + what)
    txt = jobs.conf(sc, output_dir="out", base_output_file="o", output_freq=1, save_state_freq=1)
    if what == "broken":
        txt = txt.replace("[", "(", 1)
    with open(os.path.join(d, "c.ini"), "w") as f:
        f.write(txt)
    argv = {"none": [], "missing": ["nothere.ini"], "unknown": ["c.ini", "--nonsense"], "help": ["--help"], "options": ["--config-options"],
            "options_md": ["--config-options", "md"], "count": ["c.ini", "--allowed-proc-count"], "directory": ["config"],
            "broken": ["c.ini"], "unreadable": ["c.ini"]}[what]
    faults = [{"op": "open_r", "nth": k, "kind": "eacces", "match": "c.ini"} for k in range(1, 6)] if what == "unreadable" else []
    r = launch(ctx, sc, "x", d, argv, faults=faults)
    if r["end"]["kind"] != "completed":
        ctx.fail("hang", "the program never ends with arguments %s (%s): %s" % (argv, what, frame.describe_end(r)))
        return
    st = status(r)
    good = what in ("help", "options", "options_md", "count")
    if good and any(st):
        ctx.fail("status", "arguments %s: exit status %s" % (argv, st))
    if not good and not any(st):
        ctx.fail("status", "arguments %s (%s): the program reports success" % (argv, what))
    if what in ("help", "options", "options_md", "count") and len("".join(r["out"])) < 20:
        ctx.fail("silent", "arguments %s: nothing is printed" % argv)
    left = sorted(produced(d))
    if left or os.path.exists(os.path.join(d, "out")):
        ctx.fail("output", "arguments %s (%s): the program stops, but creates output: %s" % (argv, what, left))


def run(sc, ctx):
    if sc["kind"] == "arguments":
        return run_arguments(sc, ctx)
    what, op = sc["what"], sc["op"]
    txt = jobs.conf(sc, output_dir="out", base_output_file="o", solver_stats_file="s.db")
    argv = ["c.ini"] + (["--profile"] if sc["profile"] else [])
    d0 = prepare_dir(ctx)
    with open(os.path.join(d0, "c.ini"), "w") as f:
        f.write(txt)
    r0 = launch(ctx, sc, "ref", d0, argv, policy={"sched": "plain"})
    st0 = status(r0)
    if r0["end"]["kind"] != "completed" or any(st0):
        ctx.sig.append("reference does not run")
        if "isfinite" not in str(r0["exc"]) and "NaN" not in "".join(r0["out"]):
            ctx.fail("reference", "the program fails without any fault: " + frame.describe_end(r0), [t[-800:] for t in r0["tb"] if t][:1])
        return
    want = produced(d0)
    # the operations of the reference run that are of the wanted type, and on the wanted file
    pick = {"state": "state_vector", "runtime": "runtime_", "profile": "prof_"}.get(what, "")
    idx, k = [], 0
    for rank, kind, path in r0["disk_log"]:
        if kind == op:
            k += 1
            if pick in os.path.basename(path):
                idx.append(k)
    if not idx:
        ctx.sig.append("no %s operation" % what)
        return
    total = k
    nth = idx[int(sc["frac"] * len(idx))]
    if what == "profile":
        match, nths = "prof_%04d" % (int(sc["frac"] * sc["n"])), range(1, total + 1)
        faults = [{"op": op, "nth": j, "kind": sc["err"], "match": match} for j in nths]
    else:
        faults = [{"op": op, "nth": nth, "kind": sc["err"], "sticky": sc["sticky"]}]
    ctx.sig.append("%s/%s/%s%s" % (what, op, sc["err"], "/sticky" if sc["sticky"] else ""))
    d = prepare_dir(ctx)
    with open(os.path.join(d, "c.ini"), "w") as f:
        f.write(txt)
    r = launch(ctx, sc, "x", d, argv, faults=faults)
    if not r["fired"]:
        ctx.sig.append("fault not reached")
    hit = ["%s of %s (%s) on rank %d" % (f["op"], f["path"], f["kind"], f["rank"]) for f in r["fired"][:1]]
    if r["end"]["kind"] != "completed":
        ctx.fail("hang", "after a failing %s the program never ends: %s" % (hit, frame.describe_end(r)))
        return
    st = status(r)
    got = produced(d)
    if what == "mkdir_denied" and [f["path"] for f in r["fired"]] == ["out"]:
        ctx.sig.append("fall-back")
        if any(st):
            ctx.fail("fallback", "the output directory may not be created: the program stops (%s)" % frame.describe_end(r), [t[-600:] for t in r["tb"] if t][:1])
            return
        moved = {re.sub(r"^out/", "results/", k): v for k, v in want.items()}
        if got != moved:
            bad = [k for k in sorted(set(got) | set(moved)) if got.get(k) != moved.get(k)]
            ctx.fail("fallback", "the output directory may not be created: files of the fall-back directory missing or wrong: %s (there: %s)" % (bad, sorted(got)))
        return
    if not any(st):
        if got != want:
            bad = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            ctx.fail("success", "the program reports success after a failing %s, but output is missing or incomplete: %s" % (hit, bad))
        return
    ctx.sig.append("stopped")
    if not r["fired"]:
        ctx.fail("spurious", "the program fails although no operation failed: " + frame.describe_end(r))
        return
    steps = "".join(r["out"][0]).count("Step ")
    if steps > r["fired"][0]["printed"]:
        ctx.fail("continues", "after a failing %s the program goes on for %d steps before it stops" % (hit, steps - r["fired"][0]["printed"]))
