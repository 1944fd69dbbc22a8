"""Input files are read by one process and all processes get the same input."""

import os
import shutil

import frame
import harness
import jobs
import simmpi
import wxconf
from c18 import prepare_dir, program, status

LEVEL = "exploration"
RULE = ("Seeded: a simulation is created (or the whole program run) on the global communicator or a group of ranks in random order, under a "
        "random scheduler, delivery and clock. The configuration file or its schema is replaced by another valid one, damaged or removed at a "
        "random moment after the reading process has read it, or cannot be opened by the other processes; or is replaced just before it is "
        "read, or between two simulations of the same processes; or cannot be read at all, or is invalid. Checked: exactly one process of the group opens each file; the configuration of every "
        "process is option by option the one written to the file (whichever was there when it was read; the schema's default for options left out), of "
        "the schema's type, and the same text everywhere; if "
        "it cannot be read or is invalid, all processes stop with an error and no output file or directory is created.")
ASSUMPTIONS = ["a file is read in one piece once opened (replaced atomically or before being opened)"]

INVALID = ["empty", "garbage", "bad_option", "bad_option", "bad_option", "bad_option", "bad_option", "missing", "directory", "eacces", "eio", "schema_garbage",
           "schema_missing", "schema_eio", "bytes"]


# values an option may be given, besides those of the problem itself: what is written
EXTRA = {"krylov_size": ["1", "7"], "jacobian_method": ["complex", "fd", "FD", "Complex"], "exode_method": ["BS3(2)", "DP5(4)", "dp8(7)", "EXLRK4(3)"],
         "exode_controller": ["", "deadbeat", "PI3333"], "filter_apply": ["0"], "filter_order": ["8"], "expfilter_apply": ["0", "1"],
         "expfilter_order": ["4", "16"], "expfilter_strength": ["36", "1.7e-3"], "expfilter_cutoff": ["0", "0.25"], "sponge_tscale": ["2.5", "1e-3"],
         "sponge_zscale": ["100.125"], "precond_flux": ["ausm", "upwind", "Rusanov"], "precond_tolerance": ["0.5", "1e-9"], "num_pre_smoothe": ["0", "3"],
         "num_post_smoothe": ["0", "2"], "mg_smoother": ["exp", "kiops"], "exp_smoothe_spectral_radii": ["[2.0, 3.5]", "2.25", "[1]"],
         "exp_smoothe_num_iters": ["[4, 2]", "3"], "mg_solve_coarsest": ["0", "1"], "kiops_dt_factor": ["1.5"], "pseudo_cfl": ["0.75"],
         "dg_to_fv_interp": ["L2-norm", "lagrange"], "store_total_time": ["0", "1"], "base_output_file": ["o", "My_Out-1.Fields"],
         "solver_stats_file": ["s.db", "Stats.DB"], "output_dir": ["out", "Out_Dir"], "bubble_theta": ["303.15"], "bubble_rad": ["1e-7", "250"]}


def schema_fields(text):
    import json

    return [(s["name"], f) for s in json.loads(text)["sections"] for f in s["fields"]]


def gen_bad(rng):
    """An option that the schema does not allow to be like this: (option, what is written; None: left out)."""
    with open(os.path.join(harness.REPO, "config", "config-format.json")) as f:
        fields = [f for _, f in schema_fields(f.read()) if "dependency" not in f]
    ways = []
    for f in fields:
        if f["name"] not in wxconf.WHERE:
            continue
        if "selectables" in f:
            ways.append((f["name"], "nonsense"))
        if f["type"] in ("int", "float", "bool"):
            ways.append((f["name"], rng.choice(["many", "1,5", ""])))
        if f["type"] == "int":
            ways.append((f["name"], "2.5"))
        if "min" in f:
            ways.append((f["name"], str(f["min"] - 1)))
        if "default" not in f:
            ways.append((f["name"], None))
    return rng.choice(ways)


def expected(sc_text, schema_text):
    """What each option must be: {option: value}, worked out from the two texts alone."""
    import configparser
    import json

    p = configparser.ConfigParser()
    p.read_string(sc_text)
    res = {}
    for dep in (False, True):
        for sec, f in schema_fields(schema_text):
            if ("dependency" in f) != dep:
                continue
            if dep and res.get(f["dependency"]["name"]) not in f["dependency"]["values"]:
                continue
            t = f["type"]
            if not p.has_option(sec, f["name"]):
                if "default" in f:
                    res[f["name"]] = f["default"].lower() if t == "str" else f["default"]
                continue
            raw = p.get(sec, f["name"])
            if t.startswith("list"):
                v = json.loads(raw)
                res[f["name"]] = v if isinstance(v, list) else [v]
            elif t == "int":
                res[f["name"]] = int(raw)
            elif t == "bool":
                res[f["name"]] = bool(int(raw))
            elif t == "case-sensitive-str":
                res[f["name"]] = raw
            elif t == "str":
                res[f["name"]] = raw.lower()
            elif t == "angle24":
                res[f["name"]] = ("angle", float(raw))
            else:
                res[f["name"]] = float(raw)
    return res


def max_ranks(tier):
    return 24


def budget(tier):
    return (260, 100) if tier == "quick" else (8000, 1200)


def gen(rng, i, tier):
    n = rng.choice([6, 6, 6, 6, 24])
    sc = jobs.gen_problem(rng, n, integrators=["tvdrk3", "euler1"], steps=1)
    kw = sc["kw"]
    kw["tolerance"] = rng.choice([1e-3, 1e-6, 1e-9])
    kw["gmres_restart"] = rng.choice([5, 20, 33])
    kw["stat_freq"] = rng.choice([0, 1, 7])
    kw["output_freq"] = rng.choice([0, 1])
    kw["save_state_freq"] = rng.choice([0, 1, 5])
    for k in rng.sample(sorted(EXTRA), rng.randrange(0, 9)):
        kw[k] = rng.choice(EXTRA[k])
    if sc["eq"] == "sw":
        kw.pop("expfilter_apply", None)
    if kw.get("expfilter_apply") == "1":
        for k in ("expfilter_order", "expfilter_strength", "expfilter_cutoff"):
            kw.setdefault(k, rng.choice(EXTRA[k]))
    for k in ("output_dir", "base_output_file"):
        kw.setdefault(k, EXTRA[k][0])
    sc["other"] = {"dt": kw["dt"] * 2 + 1, "tolerance": 1e-2, "gmres_restart": 7, "t_end": kw["t_end"] * 3 + 1}
    sc["kind"] = ["after", "denied", "before", "invalid", "after"][i % 5]
    sc["file"] = rng.choice(["c.ini", "c.ini", "config-format.json"])
    sc["how"] = rng.choice(["other", "other", "garbage", "removed", "empty"])
    sc["delay"] = rng.choice([0, 0, 1, 3, 10, 30])
    sc["program"] = rng.random() < 0.25
    sc["size"] = n
    sc["group"] = list(range(n))
    if n == 6 and not sc["program"] and rng.random() < 0.4:
        sc["size"] = rng.choice([6, 7, 8, 10])
        g = list(range(sc["size"]))
        rng.shuffle(g)
        sc["group"] = g[:6]
    if sc["kind"] == "denied" and not sc["program"]:
        sc["earlier"] = rng.random() < 0.5  # the processes have read another content of the file before
    if sc["kind"] == "invalid":
        sc["what"] = rng.choice(INVALID)
        if sc["what"] == "bad_option":
            sc["bad"] = gen_bad(rng)
    sc["policy"] = frame.gen_policy(rng, sc["size"])
    return sc


def shrink(sc):
    if sc["n"] > 6:
        yield {**sc, "n": 6, "size": 6, "group": list(range(6)), "kw": {**sc["kw"], "num_elements_horizontal": 2}}
    if sc["size"] > 6 and sc["n"] == 6:
        yield {**sc, "size": 6, "group": list(range(6))}
    if sc["delay"]:
        yield {**sc, "delay": 0}
    for k in ("output_freq", "save_state_freq", "stat_freq"):
        if sc["kw"][k]:
            yield {**sc, "kw": {**sc["kw"], k: 0}}


def same(value, want):
    """The angles of the grid are rounded to 24 bits; everything else is exact."""
    if isinstance(want, tuple):
        return abs(float(value) - want[1]) <= 1e-6
    if isinstance(want, bool):
        return isinstance(value, bool) and value == want
    if isinstance(want, str):
        return value == want
    if isinstance(want, list):
        return isinstance(value, list) and len(value) == len(want) and all(float(a) == float(b) for a, b in zip(value, want))
    return not isinstance(value, (str, bool, list)) and float(value) == float(want)


def run(sc, ctx):
    d = prepare_dir(ctx)
    kw = dict(sc["kw"])
    kind, size, group = sc["kind"], sc["size"], sc["group"]
    cpath = os.path.join(d, "c.ini")
    spath = os.path.join(d, "config", "config-format.json")
    over = {}
    what = sc.get("what", "")
    if what == "bad_option":
        over[sc["bad"][0]] = sc["bad"][1]
    txt = jobs.conf({"eq": sc["eq"], "kw": kw}, **over)
    if what == "empty":
        txt = ""
    elif what == "garbage":
        txt = "no section here\n" + txt[:40]
    if what == "directory":
        os.mkdir(cpath)
    elif what == "bytes":
        with open(cpath, "wb") as f:
            f.write(b"\xff\xfe\x00\x81" * 50)
    elif what != "missing":
        with open(cpath, "w") as f:
            f.write(txt)
    if what == "schema_garbage":
        with open(spath, "w") as f:
            f.write("{ this is not json")
    elif what == "schema_missing":
        os.remove(spath)
    faults = []
    if what in ("eacces", "eio"):
        faults = [{"op": "open_r", "nth": k, "kind": what, "match": "c.ini"} for k in range(1, 60)]
    elif what == "schema_eio":
        faults = [{"op": "open_r", "nth": k, "kind": "eio", "match": "config-format"} for k in range(1, 60)]
    target = cpath if sc["file"] == "c.ini" else spath
    with open(spath if os.path.exists(spath) else os.path.join(harness.REPO, "config", "config-format.json")) as f:
        schema_text = f.read()
    if kind == "denied":
        # whoever opens the file second is refused
        faults = [{"op": "open_r", "nth": k, "kind": "eacces", "match": os.path.basename(target)} for k in range(1, 200)]

    def change():
        if sc["how"] == "removed":
            os.unlink(target) if os.path.exists(target) else None
            return
        if sc["how"] == "other":
            new = jobs.conf({"eq": sc["eq"], "kw": {**kw, **sc["other"]}}) if target == cpath else \
                schema_text.replace('"version"', '"verzion"', 1) + "\n"
        else:
            new = "" if sc["how"] == "empty" else "{[ nonsense"
        with open(target, "w") as f:
            f.write(new)

    def hook(world):
        state = {"reader": None, "left": sc["delay"], "done": False, "seen": 0}
        name = "disk:open_r:" + os.path.basename(target)

        def real(fn):
            e, world.disk.enabled = world.disk.enabled, False
            try:
                fn()
            finally:
                world.disk.enabled = e

        def at(w):
            if state["done"]:
                return
            rank = simmpi.current().rank
            if kind == "before":
                if w == name:
                    state["done"] = True
                    real(lambda: overwrite_other())
                    world.count("fault:changed before it is read")
                return
            if w == name and state["reader"] is None:
                state["reader"] = rank
                return
            if state["reader"] is not None and (rank == state["reader"] or state["seen"]):
                # the reader has come back from its read
                state["seen"] += 1
                if state["seen"] > sc["delay"]:
                    state["done"] = True
                    real(change)
                    world.count("fault:%s after it was read" % sc["how"])

        return at

    def overwrite_other():
        if target == cpath:
            with open(target, "w") as f:
                f.write(jobs.conf({"eq": sc["eq"], "kw": {**kw, **sc["other"]}}))

    def body(rank, world):
        if sc["program"]:
            if kind == "denied":
                limit_to_first(world)
            return program(world, ["c.ini"])
        import simulation
        from mpi4py import MPI

        if kind == "denied":
            limit_to_first(world)
        comm = MPI.COMM_WORLD
        if group != list(range(size)):
            mine = rank in group
            comm = comm.Split(0 if mine else 1, group.index(rank) if mine else rank)
            if not mine:
                return ("outside",)
        if sc.get("earlier"):
            def put(text):
                if comm.rank == 0:
                    e, world.disk.enabled = world.disk.enabled, False
                    with open(cpath, "w") as f:
                        f.write(text)
                    world.disk.enabled = e
                comm.Barrier()

            put(jobs.conf({"eq": sc["eq"], "kw": {**kw, **sc["other"], "base_output_file": "earlier"}}))
            simulation.Simulation("c.ini", comm=comm)
            comm.Barrier()
            put(txt)
        s = simulation.Simulation("c.ini", comm=comm)
        opts = {o: getattr(s.config, o) for sec in s.config.sections.values() for o in sec}
        plain = lambda v: v.item() if hasattr(v, "item") else [plain(x) for x in v] if isinstance(v, list) else v if isinstance(v, bool) else \
            float(v) if isinstance(v, float) else int(v) if isinstance(v, int) else str(v)
        opts = {o: plain(v) for o, v in opts.items()}
        return ("inside", str(s.config), opts)

    def limit_to_first(world):
        """The faults of `denied` only concern processes other than the first that opens the file."""
        dk = world.disk
        if getattr(dk, "_limited", False):
            return
        dk._limited = True
        orig = dk.op
        first = {}

        def op(k, path):
            if k == "open_r":
                me = simmpi.current().rank
                first.setdefault(path, me)
                if first[path] == me:
                    keep, dk.faults = dk.faults, []
                    try:
                        return orig(k, path)
                    finally:
                        dk.faults = keep
            return orig(k, path)

        dk.op = op

    r = ctx.world("x", size, body, cwd=d, disk_root=d, argv=["WxFactory", "c.ini"], faults=faults,
                  fault_hook=hook if kind in ("after", "before") else None)
    if sc.get("earlier"):
        ctx.sig.append("second simulation")
    ctx.sig.append("%s/%s/%s" % (kind, what or sc["file"] + ("/" + sc["how"] if kind == "after" else ""), "program" if sc["program"] else "%d of %d" % (len(group), size)))
    if r["end"]["kind"] != "completed":
        ctx.fail("hang", "the job never ends: " + frame.describe_end(r))
        return
    # who opened what
    for name in ("c.ini", "config-format.json"):
        ranks = [rk for rk, k, path in r["disk_log"] if k == "open_r" and os.path.basename(path) == name]
        if len(set(ranks)) > 1:
            ctx.fail("readers", "%s is opened by processes %s" % (name, sorted(set(ranks))))
            return
        if not ranks and what not in ("schema_missing", "schema_garbage", "schema_eio", "missing"):
            ctx.fail("readers", "%s is not opened by any process" % name)
            return
    if kind == "invalid":
        inside = [r["outcome"][x] for x in group]
        if sc["program"]:
            if not any(status(r)):
                ctx.fail("accepted", "the program reports success with an invalid configuration (%s)" % what)
        elif any(o not in ("raised", "exit") for o in inside):
            ctx.fail("accepted", "not all processes stop although the configuration is invalid (%s): %s" % (what, frame.describe_end(r)))
        made = [x for x in r["disk_log"] if x[1] in ("mkdir", "open", "sql", "nc")]
        if made:
            ctx.fail("output", "output is created although the configuration is invalid (%s): %s" % (what, made[:4]))
        return
    if sc["program"]:
        if any(status(r)):
            ctx.fail("stopped", "the program stops (file %s, %s): %s" % (sc["file"], kind, frame.describe_end(r)), [t[-600:] for t in r["tb"] if t][:1])
        return
    if any(r["outcome"][x] != "returned" for x in group):
        ctx.fail("stopped", "not all processes got the configuration (file %s, %s): %s" % (sc["file"], kind, frame.describe_end(r)), [t[-600:] for t in r["tb"] if t][:1])
        return
    texts = {r["value"][x][1] for x in group}
    if len(texts) != 1:
        ctx.fail("differ", "processes have different configurations (file %s changed: %s)" % (sc["file"], kind))
        return
    used = {**kw, **sc["other"]} if kind == "before" and target == cpath else kw
    want = expected(jobs.conf({"eq": sc["eq"], "kw": used}), schema_text)
    for x in group:
        opts = r["value"][x][2]
        for k, v in want.items():
            if k == "num_elements_horizontal":
                v = v // int(round((len(group) // 6) ** 0.5))  # each process has its own part
            if k not in opts or not same(opts[k], v):
                ctx.fail("value", "rank %d: option %s is %r, should be %r" % (x, k, opts.get(k), v))
                return
