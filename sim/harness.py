"""Process-level machinery: building the kernels, per-rank module sets, and running one incarnation of a job in a
forked child so that nothing but the scratch directory survives it."""

import fcntl
import hashlib
import importlib
import io
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "wx_factory")
HERE = os.path.dirname(os.path.realpath(__file__))

real_time = _time.time
monotonic = _time.monotonic


# ------------------------------------------------------------------------------------------ kernels
def kernel_hash():
    h = hashlib.sha256()
    for sub in ("pde", "compiler"):
        for base, _, files in sorted(os.walk(os.path.join(SRC, sub))):
            if "__pycache__" in base:
                continue
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hpp", ".cu", ".py")):
                    p = os.path.join(base, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def _build_stamp_ok(lib):
    """Whether /opt/vp/build.sh compiled exactly these sources (it leaves their hash next to the library)."""
    p = os.path.join(lib, ".source-hash")
    if not os.path.exists(p):
        return False
    cmd = ("find wx_factory/pde wx_factory/compiler -type f \\( -name '*.cpp' -o -name '*.h' -o -name '*.hpp' -o -name '*.cu' "
           "-o -name '*.py' \\) -print0 | LC_ALL=C.UTF-8 sort -z | xargs -0 sha256sum | sha256sum")
    r = subprocess.run(["bash", "-c", cmd], cwd=REPO, capture_output=True, text=True)
    return r.returncode == 0 and r.stdout.strip() == open(p).read().strip()


def build_kernels():
    """Compile the C++ kernels of the current tree with the project's own build (into the ignored /repo/lib)."""
    lib = os.path.join(REPO, "lib")
    lock = os.path.join("/tmp", "verif-kernels-%s.lock" % hashlib.sha1(REPO.encode()).hexdigest()[:8])
    with open(lock, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(lib, ".verif-hash")
        hsh = kernel_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        import glob

        have = glob.glob(os.path.join(lib, "pde", "*", "cpp", "*.so"))
        if have and (old == hsh or _build_stamp_ok(lib)):
            return True, ""
        shutil.rmtree(lib, ignore_errors=True)
        os.makedirs(lib, exist_ok=True)
        code = (
            "import sys\n"
            f"sys.path[:0]=[{REPO!r},{SRC!r}]\n"
            "import compiler.compile_kernels as k\n"
            "k.compile('pde','cpp')\nk.load_module('pde','cpp')\n"
        )
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], cwd=REPO, capture_output=True, text=True)
        if r.returncode != 0:
            return False, r.stdout[-2000:] + r.stderr[-4000:]
        with open(stamp, "w") as fh:
            fh.write(hsh)
    return True, ""


# ------------------------------------------------------------------------------------------ module sets
class ModuleSets:
    """One private copy of the project's modules per simulated rank (module globals are per process in reality)."""

    def __init__(self):
        self.top = set()
        for e in os.listdir(SRC):
            if e.startswith((".", "_")):
                continue
            if e.endswith(".py"):
                self.top.add(e[:-3])
            elif os.path.isdir(os.path.join(SRC, e)):
                self.top.add(e)
        self.sets = {}
        self.active = None
        self.count_at_activation = 0
        self.random = None  # per rank: state of the global random number generators, if the project uses any
        self.uses_random = any(b"random" in open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(SRC) for f in fs if f.endswith(".py"))
        self._code_cache = {}
        self._install_code_cache()

    def _install_code_cache(self):
        cache = self._code_cache
        ldr = importlib.machinery.SourceFileLoader
        orig = ldr.get_code

        def get_code(self_, fullname):
            path = self_.path
            if not path.startswith(SRC):
                return orig(self_, fullname)
            c = cache.get(path)
            if c is None:
                c = cache[path] = orig(self_, fullname)
            return c

        ldr.get_code = get_code

    def _scan(self):
        return {k: m for k, m in sys.modules.items() if k.split(".", 1)[0] in self.top}

    def load(self, n):
        for r in range(n):
            if r in self.sets:
                continue
            self._park()
            importlib.import_module("simulation")
            self.sets[r] = self._scan()
            self.active = r
            self._patch(self.sets[r])
        self._park()

    def _patch(self, mods):
        """The compiler is a stub in simulation (the kernels were built by the check itself, from the same tree)."""
        ck = mods.get("compiler.compile_kernels")
        if ck is not None and hasattr(ck, "compile_extension"):
            ck._verif_real_compile_extension = ck.compile_extension
            ck.compile_extension = lambda module_name, kernel_type: None
        if ck is not None and hasattr(ck, "setup"):
            ck._verif_real_setup = ck.setup
            ck.setup = lambda *a, **k: None

    def _park(self):
        if self.active is not None:
            self.sets[self.active] = self._scan()
        for k in self._scan():
            del sys.modules[k]
        self.active = None

    def seed_random(self, seed):
        """Unseeded random numbers differ from process to process and from run to run."""
        import random

        src = random.Random(seed)
        os.urandom = random._urandom = lambda k: src.randbytes(k)
        if self.uses_random:
            self.random = {}
            self.random_seed = seed

    def _switch_random(self, r):
        import random

        import numpy

        if self.active is not None:
            self.random[self.active] = (random.getstate(), numpy.random.get_state())
        if r in self.random:
            random.setstate(self.random[r][0])
            numpy.random.set_state(self.random[r][1])
        else:
            random.seed(self.random_seed * 1000 + r)
            numpy.random.seed((self.random_seed * 1000 + r) % 2**32)

    def activate(self, r):
        if r == self.active:
            return
        if self.active is not None:
            cur = self.sets[self.active]
            if len(sys.modules) != self.count_at_activation:
                cur = self.sets[self.active] = self._scan()
            for k in cur:
                sys.modules.pop(k, None)
        sys.modules.update(self.sets[r])
        if self.random is not None:
            self._switch_random(r)
        self.active = r
        self.count_at_activation = len(sys.modules)


_template = None


def template(n):
    """Prepare this process as a template to fork incarnations from, with module sets for n ranks."""
    global _template
    if _template is None:
        sys.path[:0] = [REPO, SRC, HERE] if HERE not in sys.path else [REPO, SRC]
        import simmpi

        pkg, mod = simmpi.make_mpi_module()
        sys.modules["mpi4py"] = pkg
        sys.modules["mpi4py.MPI"] = mod
        warnings.simplefilter("ignore")
        import numpy, scipy, scipy.linalg, scipy.sparse.linalg, scipy.special, sympy, sqlite3, netCDF4, pybind11  # noqa
        import setuptools.command.build_ext  # noqa

        import setuptools

        setuptools.setup = lambda *a, **k: None
        numpy.seterr(all="ignore")
        for k in ("time", "perf_counter", "monotonic", "process_time", "thread_time"):
            setattr(_time, k, simmpi.sim_time)
            setattr(_time, k + "_ns", simmpi.sim_time_ns)
        _time.sleep = simmpi.sim_sleep
        _template = ModuleSets()
        import glob

        so = glob.glob(os.path.join(REPO, "lib", "pde", "*", "cpp", "*.so"))
        for p in so:
            rel = os.path.relpath(p, REPO)
            name = rel.split(".", 1)[0].replace(os.sep, ".")
            importlib.import_module(name)
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        _template.load(n)
    finally:
        sys.stdout = old
    return _template


class StubProfile:
    """cProfile.Profile stand-in: the real one cannot run once per simulated rank within one process."""

    def enable(self, *a, **k):
        pass

    def disable(self):
        pass

    def dump_stats(self, file):
        with open(file, "wb") as f:
            f.write(b"profile")


class RankStdout:
    """stdout that keeps one transcript per rank."""

    def __init__(self, ranks):
        self.ranks = ranks

    def write(self, s):
        import simmpi

        c = simmpi.current()
        if c is not None:
            c.out.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = "utf-8"


# ------------------------------------------------------------------------------------------ incarnations
def in_child(fn, timeout):
    """Run fn() in a forked child with a limit on processor time.

    Returns (status, value): status in ok | error | cpu_limit | wall_timeout | fatal_signal | died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                val = ("ok", fn())
            except BaseException as e:  # harness failure
                import traceback

                val = ("error", traceback.format_exc())
            try:
                data = pickle.dumps(val)
            except Exception as e:
                data = pickle.dumps(("error", "result cannot be passed on: %r" % e))
            off = 0
            import simdisk

            while off < len(data):
                off += simdisk._real["oswrite"](w, data[off : off + (1 << 20)])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = monotonic() + WALL_FACTOR * timeout
    status = None
    while True:
        ready, _, _ = select.select([r], [], [], 5.0)
        if not ready:
            if cpu_time(pid) > timeout:
                status = "cpu_limit"
                break
            if monotonic() > deadline:
                status = "wall_timeout"
                break
            continue
        c = os.read(r, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    if status is not None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return status, None
    _, st, ru = os.wait4(pid, 0)
    if not chunks:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            return "fatal_signal", os.WTERMSIG(st)
        return "died", st
    status, val = pickle.loads(b"".join(chunks))
    if isinstance(val, dict):
        val["cpu"] = ru.ru_utime + ru.ru_stime
    return status, val


WALL_FACTOR = 6  # a run may take this many times its limit of processor time when the machine is busy


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def poison_memory(kind):
    """Memory that is allocated but not yet written contains garbage."""
    import numpy

    def fill(a):
        if a.dtype.kind in "fc":
            a.fill(numpy.nan if kind == 1 else 1.7e19)
        elif a.dtype.kind in "iu":
            a.fill(numpy.iinfo(a.dtype).max // 3)
        elif a.dtype.kind == "b":
            a.fill(True)
        return a

    empty, empty_like = numpy.empty, numpy.empty_like
    numpy.empty = lambda *a, **k: fill(empty(*a, **k))
    numpy.empty_like = lambda *a, **k: fill(empty_like(*a, **k))


class Incarnation:
    """What one simulated job run produced (picklable)."""


def run_world(n, body, *, seed, policy=None, decisions=None, disk_root=None, faults=(), crash_at=None, max_steps=400_000,
              collect=None, cwd=None, argv=None, fault_hook=None, post=None, bufsize=8192, timeout=90.0, crash_kind="kill"):
    """Run body(rank) on n simulated ranks in a forked child.

    Returns a dict: end, outcomes per rank, stdout per rank, decisions, counters and `collect(world, disk)`'s value.
    """
    mods = template(n)

    def child():
        import simmpi, simdisk

        ch = simmpi.Chooser(seed, replay=decisions)
        world = simmpi.World(n, ch, policy, max_steps=max_steps, module_sets=mods, crash_at=crash_at)
        disk = None
        if cwd:
            os.chdir(cwd)
        if argv:
            sys.argv = list(argv)
        if disk_root:
            disk = simdisk.Disk(disk_root, faults, seed=seed, bufsize=bufsize)
            disk.install(world)
        if fault_hook is not None:
            world.fault_hook = fault_hook(world)
        sys.stdout = RankStdout(world.ranks)
        sys.stderr = RankStdout(world.ranks)
        world.disk = disk
        mods.seed_random(seed)
        if world.policy["poison"]:
            poison_memory(world.policy["poison"])
        import cProfile

        cProfile.Profile = StubProfile
        end = world.run(lambda rank: body(rank, world))
        if disk is not None:
            disk.enabled = False
            if end["kind"] == "crashed":
                k = disk.crashed or crash_kind
                disk.apply_crash(k, seed ^ 0xC4A5)
        res = {
            "end": end,
            "outcome": [c.outcome for c in world.ranks],
            "value": [c.value for c in world.ranks],
            "exc": [None if c.exc is None else f"{type(c.exc).__name__}: {c.exc}" for c in world.ranks],
            "exit_code": [getattr(c.exc, "code", None) if c.outcome == "exit" else None for c in world.ranks],
            "tb": [c.tb for c in world.ranks],
            "out": ["".join(c.out) for c in world.ranks],
            "decisions": dict(ch.nonzero),
            "picks": ch.pos,
            "steps": world.steps,
            "switches": world.nswitch,
            "hash": world.hash,
            "counts": dict(world.counts),
            "sim_time": world.clock - world.policy["t0"],
            "fired": disk.fired if disk else [],
            "disk_ops": dict(disk.counts) if disk else {},
            "writers": {os.path.relpath(k, disk.root): sorted(v) for k, v in disk.writers.items()} if disk else {},
            "disk_log": list(disk.log) if disk else [],
            "blocked": world.describe(),
            "tail": world.trace[-40:],
            "post": None,
        }
        if collect is not None:
            res["post"] = collect(world, disk)
        return res

    status, val = in_child(child, timeout)
    if status == "ok":
        return val
    if status in ("cpu_limit", "wall_timeout", "fatal_signal"):
        return {"end": {"kind": status, "detail": f"{timeout} s" if val is None else "signal %d" % val}, "cpu": timeout, "outcome": [None] * n, "value": [None] * n,
                "exc": [None] * n, "exit_code": [None] * n, "tb": [None] * n, "out": [""] * n, "decisions": {}, "picks": 0,
                "steps": 0, "switches": 0, "hash": 0, "counts": {}, "sim_time": 0, "fired": [], "disk_ops": {},
                "writers": {}, "disk_log": [], "blocked": [], "tail": [], "post": None}
    raise RuntimeError(f"harness failure in child ({status}): {val}")


def scratch():
    """A scratch working directory with the project's `config` folder visible in it (the schema path is relative)."""
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    d = tempfile.mkdtemp(prefix="vsim-", dir=base)
    os.symlink(os.path.join(REPO, "config"), os.path.join(d, "config"))
    os.mkdir(os.path.join(d, "w"))
    return d
