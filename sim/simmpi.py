"""A simulated MPI whose every decision is taken by one seeded chooser.

`World` runs N ranks as real Python threads, but exactly one of them holds the baton at any time: the
baton only moves inside `World._dispatch`, and where it moves is decided by the `Chooser`.  Message
delivery of non-blocking operations is an event of its own that competes with the ranks for being next.

The module object returned by `make_mpi_module()` is what the code under test sees as `mpi4py.MPI`.
It implements MPI semantics at their most hostile *legal* end:
  - a non-blocking send buffer may be read at any time until the sender's Wait returns,
  - a receive buffer holds poison (NaN / 0xA5) until the receiver's Wait returns,
  - rooted collectives may or may not synchronise (chosen per call),
  - reductions may be evaluated in any order (same result on every member of the communicator),
  - any rank may be slow for as long as somebody else can make progress.
Collective mismatches (different operation, root, reduction, size or communicator order) and deadlocks
are detected and end the run.
"""

import hashlib
import pickle
import random
import sys
import threading
import types
import zlib

import numpy

_tls = threading.local()


def current():
    return getattr(_tls, "ctx", None)


class SimAbort(BaseException):
    """Raised inside ranks when the simulated world has ended under them."""


class Chooser:
    """Source of every decision.  Index 0 is always the 'plain' choice, so that zeroing decisions simplifies a run."""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.replay = replay  # None, or {position: value} (missing => 0)
        self.pos = 0
        self.nonzero = {}

    def pick(self, n, weights=None, p_other=None):
        """Choose in range(n).  `weights`: relative weights; `p_other`: probability of not choosing 0."""
        pos = self.pos
        self.pos += 1
        if self.replay is not None:
            v = self.replay.get(pos, 0)
            if v >= n:
                v = 0
        elif n <= 1:
            v = 0
        elif p_other is not None:
            v = 0 if self.rng.random() >= p_other else 1 + self.rng.randrange(n - 1)
        elif weights is not None:
            tot = sum(weights)
            x = self.rng.random() * tot
            v = 0
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    v = i
                    break
        else:
            v = self.rng.randrange(n)
        if v:
            self.nonzero[pos] = v
        return v


DEFAULT_POLICY = {
    "sched": "random",  # plain | random | sticky | priority | starve
    "switch_p": 0.3,  # sticky: probability of moving the baton
    "starve": [],  # ranks that only run when nobody else can
    "deliver": "random",  # eager | random | lazy
    "sync_p": 0.5,  # probability that a rooted collective synchronises fully
    "reduce": "linear",  # linear | random : evaluation order of reductions
    "prio_changes": 6,
    "clock": "steady",  # steady | slow | jumpy | wild (every reading may be far off) | coarse (stands still for a while)
    "t0": 1.7e9,  # when the job starts
    "poison": 0,  # what memory contains before it is written: 0 whatever the system gives | 1 NaN | 2 large numbers
}


class Ctx:
    __slots__ = ("world", "rank", "sem", "state", "pred", "what", "thread", "outcome", "value", "exc", "tb", "out", "prio",
                 "modules", "nmods")

    def __init__(self, world, rank):
        self.world = world
        self.rank = rank
        self.sem = threading.Semaphore(0)
        self.state = "ready"  # ready | blocked | done
        self.pred = None
        self.what = "start"
        self.outcome = None
        self.value = None
        self.exc = None
        self.tb = None
        self.out = []
        self.prio = 0.0


class World:
    def __init__(self, n, chooser, policy=None, max_steps=2_000_000, module_sets=None, crash_at=None):
        self.n = n
        self.ch = chooser
        self.policy = dict(DEFAULT_POLICY)
        self.policy.update(policy or {})
        self.max_steps = max_steps
        self.steps = 0
        self.end = None  # None | dict(kind=..., detail=...)
        self.done_evt = threading.Semaphore(0)
        self.ranks = [Ctx(self, r) for r in range(n)]
        self.current = None
        self.pending = []  # undelivered messages
        self.clock = self.policy["t0"]
        self.ticks = 0
        self.nswitch = 0
        self.ndeliver = 0
        self.trace = []  # bounded tail of events
        self.hash = 0
        self.counts = {}
        self.module_sets = module_sets
        self.crash_at = crash_at  # step number at which the whole job is killed
        self.on_crash = None
        self._commid = 0
        self.world_state = CommState(self, list(range(n)))
        self.fault_hook = None  # called at every yield with (kind); may raise in the rank
        self.stop_requested = None
        pol = self.policy
        self.prio = None
        if pol["sched"] == "priority":
            prng = random.Random(chooser.seed ^ 0x5EED)
            self.prio = [prng.random() for _ in range(n)]
            self.prio_points = sorted(prng.randrange(1, 4000) for _ in range(pol["prio_changes"]))
            self.prio_rng = prng

    # ---------------------------------------------------------------- bookkeeping
    def count(self, kind, k=1):
        self.counts[kind] = self.counts.get(kind, 0) + k

    def log(self, *ev):
        self.hash = zlib.crc32(repr(ev).encode(), self.hash)
        self.trace.append(ev)
        if len(self.trace) > 4000:
            del self.trace[:2000]

    def tick(self, reading=False):
        pol = self.policy["clock"]
        if pol == "steady":
            self.clock += 1e-4
        elif pol == "coarse":
            self.ticks += 1
            if self.ticks % 5000 == 0:
                self.clock += 0.5
        elif pol == "wild":
            j = self.ch.pick(6, p_other=0.5) if reading else 0
            self.clock += [1e-4, 0.8, 60.0, -0.5, 5000.0, -40.0][j]
            if j:
                self.count("clock_jump")
        elif pol == "slow":
            self.clock += 7.3  # every event takes seconds: long jobs
        else:
            j = self.ch.pick(4, p_other=0.02)
            self.clock += [1e-4, 5000.0, -3.0, 86400.0][j]
            if j:
                self.count("clock_jump")
        return self.clock

    # ---------------------------------------------------------------- running
    def run(self, target):
        """Run target(rank) on every rank; returns the end record."""
        for c in self.ranks:
            c.thread = threading.Thread(target=self._main, args=(c, target), daemon=True)
            c.thread.start()
        self._dispatch(None)
        self.done_evt.acquire()
        return self.end

    def _main(self, ctx, target):
        _tls.ctx = ctx
        ctx.sem.acquire()
        if self.end is not None:
            return
        try:
            ctx.value = target(ctx.rank)
            ctx.outcome = "returned"
        except SimAbort:
            ctx.outcome = "aborted"
        except SystemExit as e:
            ctx.outcome = "exit"
            ctx.exc = e
        except BaseException as e:  # noqa
            ctx.outcome = "raised"
            ctx.exc = e
            import traceback

            ctx.tb = traceback.format_exc()
        if self.end is not None:
            return
        ctx.state = "done"
        self.log(ctx.rank, "end", ctx.outcome)
        self._dispatch(ctx)

    def finish(self, kind, detail=None):
        """End the world: nobody gets the baton any more."""
        if self.end is None:
            self.end = {"kind": kind, "detail": detail}
            self.done_evt.release()

    def _enabled(self):
        out = []
        for c in self.ranks:
            if c.state == "ready":
                out.append(c)
            elif c.state == "blocked" and c.pred():
                out.append(c)
        return out

    def _dispatch(self, me):
        """Decide what happens next.  Called by the rank holding the baton (or by run() at the start)."""
        while True:
            if self.end is not None:
                if me is not None and me.state != "done":
                    raise SimAbort
                return
            self.steps += 1
            if self.crash_at is not None and self.steps >= self.crash_at:
                self.count("job_kill")
                self.finish("crashed", "step %d" % self.steps)
                continue
            if self.steps > self.max_steps:
                self.finish("step_cap", self.describe())
                continue
            en = self._enabled()
            nd = len(self.pending)
            if not en and not nd:
                if all(c.state == "done" for c in self.ranks):
                    self.finish("completed")
                else:
                    self.finish("deadlock", self.describe())
                continue
            idx = self._choose(en, nd, me)
            if idx >= len(en):
                self._deliver(self.pending.pop(idx - len(en)))
                continue
            nxt = en[idx]
            if nxt.state == "blocked":
                nxt.state = "ready"
                nxt.pred = None
            if nxt is me:
                return
            self._switch(me, nxt)
            return

    def _choose(self, en, nd, me):
        pol = self.policy
        # Put "me" first so that index 0 means: keep going
        if me is not None and me in en and en[0] is not me:
            en.remove(me)
            en.insert(0, me)
        ne = len(en)
        n = ne + nd
        if n == 1:
            return 0
        mode = pol["sched"]
        if nd and ne:
            dm = pol["deliver"]
            if dm == "lazy":
                nd_eff = 1e-3  # only when nobody else can run (almost surely)
            elif dm == "eager":
                # deliver the oldest first, still through the chooser for replay
                k = self.ch.pick(n, weights=[0.0] * ne + [1.0] + [0.0] * (nd - 1))
                return k
            else:
                nd_eff = nd
        else:
            nd_eff = nd
        if mode == "plain":
            return self.ch.pick(n, p_other=0.0)
        if mode == "sticky":
            if self.ch.rng.random() >= pol["switch_p"] and ne:
                return self.ch.pick(n, p_other=0.0)
            w = [1.0] * ne + [1.0 if nd_eff >= 1 else float(nd_eff)] * nd
        elif mode == "starve":
            st = pol["starve"]
            w = [2e-3 if c.rank in st else 1.0 for c in en] + [1.0 if nd_eff >= 1 else float(nd_eff)] * nd
        elif mode == "priority":
            while self.prio_points and self.steps > self.prio_points[0]:
                self.prio_points.pop(0)
                self.prio[self.prio_rng.randrange(self.n)] = -self.prio_rng.random()
            if ne:
                best = max(range(ne), key=lambda i: self.prio[en[i].rank])
                if nd_eff >= 1 and self.ch.rng.random() < 0.3:
                    best = ne + self.ch.rng.randrange(nd)
                w = [0.0] * n
                w[best] = 1.0
            else:
                w = [1.0] * n
        else:
            w = [1.0] * ne + [1.0 if nd_eff >= 1 else float(nd_eff)] * nd
        return self.ch.pick(n, weights=w)

    def _switch(self, me, nxt):
        self.nswitch += 1
        self.current = nxt
        if self.module_sets is not None:
            self.module_sets.activate(nxt.rank)
        nxt.sem.release()
        if me is None or me.state == "done":
            return
        me.sem.acquire()
        if self.end is not None:
            raise SimAbort

    def _deliver(self, msg):
        self.ndeliver += 1
        self.count("message_delivery")
        self.log("deliver", msg.label)
        msg.deliver()

    def describe(self):
        return [f"rank {c.rank}: {c.state}/{c.outcome or ''} {c.what}" for c in self.ranks]

    # ---------------------------------------------------------------- primitives used by MPI ops and seams
    def yield_(self, what):
        ctx = current()
        if self.end is not None:
            raise SimAbort
        ctx.what = what
        self.log(ctx.rank, what)
        self.tick()
        if self.fault_hook is not None:
            self.fault_hook(what)
        self._dispatch(ctx)

    def block(self, pred, what):
        ctx = current()
        if self.end is not None:
            raise SimAbort
        ctx.what = what
        ctx.pred = pred
        ctx.state = "blocked"
        self._dispatch(ctx)

    def violation(self, kind, detail):
        self.finish(kind, detail)
        raise SimAbort


# ======================================================================================= MPI objects
class Op:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)


class Datatype:
    def __init__(self, name, dtype):
        self.name = name
        self.dtype = numpy.dtype(dtype) if dtype else None

    def Get_size(self):
        return self.dtype.itemsize


IN_PLACE = type("InPlaceType", (), {})()


def _buf(spec):
    """Return a flat ndarray view on a buffer specification."""
    dt = None
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        for x in spec[1:]:
            if isinstance(x, Datatype):
                dt = x
    else:
        arr = spec
    if not isinstance(arr, numpy.ndarray):
        if isinstance(arr, numpy.generic):
            arr = numpy.asarray(arr)
        else:
            arr = numpy.frombuffer(arr, dtype=numpy.uint8) if isinstance(arr, (bytes, bytearray, memoryview)) else None
    if arr is None:
        raise TypeError("simmpi: expecting buffer or list/tuple")
    if arr.flags.c_contiguous:
        flat = arr.reshape(-1)
    elif arr.flags.f_contiguous:
        flat = arr.T.reshape(-1)
    else:
        raise ValueError("ndarray is not contiguous")
    if dt is not None and dt.dtype is not None and flat.dtype != dt.dtype:
        flat = flat.view(dt.dtype)
    return flat


def _poison(flat):
    if flat.dtype.kind in "fc":
        flat[...] = numpy.nan
    else:
        flat.view(numpy.uint8)[...] = 0xA5


class CommState:
    def __init__(self, world, members, parent=None):
        self.world = world
        world._commid += 1
        self.id = world._commid
        self.members = members  # global ranks
        self.index = {g: i for i, g in enumerate(members)}
        self.n = len(members)
        self.seq = [0] * self.n
        self.colls = {}
        self.topo = None  # per local rank (sources, destinations)
        self.p2p = {}  # (src, dst) -> list of messages in flight (matched in order, by tag)
        self.recvs = []


class Coll:
    __slots__ = ("name", "sig", "first", "arrived", "contrib", "nfin", "sync", "result", "msgs", "aux")

    def __init__(self, name, sig, first):
        self.name = name
        self.sig = sig
        self.first = first
        self.arrived = set()
        self.contrib = {}
        self.nfin = 0
        self.sync = False
        self.result = None
        self.msgs = {}
        self.aux = {}


class Msg:
    __slots__ = ("label", "fn", "delivered")

    def __init__(self, label, fn):
        self.label = label
        self.fn = fn
        self.delivered = False

    def deliver(self):
        self.fn()
        self.delivered = True


class Request:
    """A simulated request: `ready` says when Wait may return, `fin` yields the result."""

    def __init__(self, world, ready, fin, what, keep=None):
        self._world = world
        self._ready = ready
        self._fin = fin
        self._what = what
        self._done = False
        self._val = None
        self._keep = keep

    def Wait(self, status=None):
        self.wait()
        return True

    def wait(self, status=None):
        if self._done:
            return self._val
        w = self._world
        w.yield_("wait:" + self._what)
        w.block(self._ready, "Wait " + self._what)
        self._val = self._fin()
        self._done = True
        return self._val

    def Test(self, status=None):
        if self._done:
            return True
        self._world.yield_("test:" + self._what)
        if self._ready():
            self._val = self._fin()
            self._done = True
            return True
        return False

    def test(self, status=None):
        f = self.Test()
        return (f, self._val)

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    def Free(self):
        pass

    def Cancel(self):
        pass


REQUEST_NULL = None


class Comm:
    """Handle on a communicator, for one rank (`_g`: global rank) or, for COMM_WORLD, for whoever calls."""

    def __init__(self, state=None, g=None):
        self._s = state
        self._g = g

    # -- resolution
    def _st(self):
        if self._s is None:
            raise RuntimeError("simmpi: null communicator")
        return self._s

    def _me(self):
        return self._st().index[self._g]

    @property
    def rank(self):
        return self._me()

    @property
    def size(self):
        return self._st().n

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def __eq__(self, other):
        if not isinstance(other, Comm):
            return NotImplemented
        try:
            a = self._st()
        except RuntimeError:
            a = None
        try:
            b = other._st()
        except RuntimeError:
            b = None
        return a is b

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return id(self)

    def __bool__(self):
        try:
            self._st()
        except RuntimeError:
            return False
        return True

    def __deepcopy__(self, memo):
        return self

    # -- generic collective machinery
    def _post(self, name, sig, contrib, check=None):
        st = self._st()
        w = st.world
        me = self._me()
        seq = st.seq[me]
        label = f"{name}@c{st.id}#{seq}"
        w.yield_(label)
        st.seq[me] += 1
        c = st.colls.get(seq)
        if c is None:
            c = st.colls[seq] = Coll(name, sig, me)
            c.sync = w.ch.pick(2, p_other=w.policy["sync_p"]) == 1
        elif c.name != name or c.sig != sig:
            w.violation(
                "collective_mismatch",
                f"communicator {st.id} (members {st.members}), collective #{seq}: rank {me} calls {name}{sig}, "
                f"rank {c.first} called {c.name}{c.sig}",
            )
        c.arrived.add(me)
        c.contrib[me] = contrib
        return st, w, me, c, seq, label

    def _fin(self, st, c, seq):
        c.nfin += 1
        if c.nfin == st.n:
            st.colls.pop(seq, None)

    def _all(self, st, c):
        n = st.n
        return lambda: len(c.arrived) == n

    def _root_done(self, st, c, root, me):
        """Completion of a rooted one-to-all operation."""
        if c.sync:
            return self._all(st, c)
        return lambda: root in c.arrived

    def _reduce_value(self, st, c, op, w):
        if c.result is None:
            order = list(range(st.n))
            if w.policy["reduce"] == "random":
                # Fisher-Yates through the chooser (0 = identity)
                for i in range(st.n - 1):
                    j = i + w.ch.pick(st.n - i)
                    order[i], order[j] = order[j], order[i]
                tree = w.ch.pick(2)
            else:
                tree = 0
            vals = [c.contrib[i] for i in order]
            if tree:
                while len(vals) > 1:
                    nv = [op(vals[i], vals[i + 1]) for i in range(0, len(vals) - 1, 2)]
                    if len(vals) % 2:
                        nv.append(vals[-1])
                    vals = nv
                r = vals[0]
            else:
                r = vals[0]
                for v in vals[1:]:
                    r = op(r, v)
            c.result = (r,)
            w.count("reduction")
        return c.result[0]

    # -- object collectives
    def bcast(self, obj=None, root=0):
        data = pickle.dumps(obj) if self.rank == root else None
        st, w, me, c, seq, label = self._post("bcast", (root,), data)
        if me == root:
            if c.sync:
                w.block(self._all(st, c), label)
            self._fin(st, c, seq)
            return obj
        w.block(self._root_done(st, c, root, me), label)
        out = pickle.loads(c.contrib[root])
        self._fin(st, c, seq)
        return out

    def gather(self, sendobj, root=0):
        st, w, me, c, seq, label = self._post("gather", (root,), pickle.dumps(sendobj))
        if me == root:
            w.block(self._all(st, c), label)
            out = [pickle.loads(c.contrib[i]) for i in range(st.n)]
        else:
            if c.sync:
                w.block(lambda: root in c.arrived, label)
            out = None
        self._fin(st, c, seq)
        return out

    def allgather(self, sendobj):
        st, w, me, c, seq, label = self._post("allgather", (), pickle.dumps(sendobj))
        w.block(self._all(st, c), label)
        out = [pickle.loads(c.contrib[i]) for i in range(st.n)]
        self._fin(st, c, seq)
        return out

    def scatter(self, sendobj=None, root=0):
        data = None
        if self.rank == root:
            lst = list(sendobj)
            if len(lst) != self.size:
                raise ValueError(f"expecting {self.size} items, got {len(lst)}")
            data = [pickle.dumps(x) for x in lst]
        st, w, me, c, seq, label = self._post("scatter", (root,), data)
        if me == root:
            if c.sync:
                w.block(self._all(st, c), label)
        else:
            w.block(self._root_done(st, c, root, me), label)
        out = pickle.loads(c.contrib[root][me])
        self._fin(st, c, seq)
        return out

    def alltoall(self, sendobj):
        data = [pickle.dumps(x) for x in sendobj]
        st, w, me, c, seq, label = self._post("alltoall", (), data)
        w.block(self._all(st, c), label)
        out = [pickle.loads(c.contrib[i][me]) for i in range(st.n)]
        self._fin(st, c, seq)
        return out

    def allreduce(self, sendobj, op=None):
        op = op or SUM
        st, w, me, c, seq, label = self._post("allreduce", (op.name,), pickle.loads(pickle.dumps(sendobj)))
        w.block(self._all(st, c), label)
        out = pickle.loads(pickle.dumps(self._reduce_value(st, c, op, w)))
        self._fin(st, c, seq)
        return out

    def reduce(self, sendobj, op=None, root=0):
        op = op or SUM
        st, w, me, c, seq, label = self._post("reduce", (op.name, root), pickle.loads(pickle.dumps(sendobj)))
        out = None
        if me == root:
            w.block(self._all(st, c), label)
            out = pickle.loads(pickle.dumps(self._reduce_value(st, c, op, w)))
        elif c.sync:
            w.block(lambda: root in c.arrived, label)
        self._fin(st, c, seq)
        return out

    def barrier(self):
        st, w, me, c, seq, label = self._post("barrier", (), None)
        w.block(self._all(st, c), label)
        self._fin(st, c, seq)

    Barrier = barrier

    def Ibarrier(self):
        st, w, me, c, seq, label = self._post("ibarrier", (), None)
        return Request(w, self._all(st, c), lambda: self._fin(st, c, seq), label)

    # -- buffer collectives
    def _pair(self, sendbuf, recvbuf):
        r = _buf(recvbuf)
        s = r if sendbuf is IN_PLACE else _buf(sendbuf)
        if s.size != r.size or s.dtype.itemsize != r.dtype.itemsize:
            raise ValueError(f"message: mismatch in send count {s.size} and receive count {r.size}")
        return s, r

    def Allreduce(self, sendbuf, recvbuf, op=None):
        op = op or SUM
        s, r = self._pair(sendbuf, recvbuf)
        st, w, me, c, seq, label = self._post("Allreduce", (op.name, s.size, s.dtype.str), s.copy())
        if sendbuf is not IN_PLACE and not numpy.shares_memory(s, r):
            _poison(r)
        w.block(self._all(st, c), label)
        r[...] = self._reduce_value(st, c, op, w)
        self._fin(st, c, seq)

    def Iallreduce(self, sendbuf, recvbuf, op=None):
        op = op or SUM
        s, r = self._pair(sendbuf, recvbuf)
        st, w, me, c, seq, label = self._post("Iallreduce", (op.name, s.size, s.dtype.str), None)
        # the send buffer is read as late as possible: when the last member has arrived and the sender is asked
        inplace = sendbuf is IN_PLACE
        c.aux[me] = s

        def ready():
            return len(c.arrived) == st.n

        def materialise():
            if c.contrib[st.n - 1] is None or any(v is None for v in c.contrib.values()):
                for i in range(st.n):
                    if c.contrib[i] is None:
                        c.contrib[i] = c.aux[i].copy()

        def fin():
            materialise()
            r[...] = self._reduce_value(st, c, op, w)
            self._fin(st, c, seq)

        if not inplace:
            _poison(r)
        return Request(w, ready, fin, label)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        op = op or SUM
        me0 = self.rank
        s = _buf(recvbuf) if sendbuf is IN_PLACE else _buf(sendbuf)
        st, w, me, c, seq, label = self._post("Reduce", (op.name, root, s.size, s.dtype.str), s.copy())
        if me == root:
            w.block(self._all(st, c), label)
            r = _buf(recvbuf)
            r[...] = self._reduce_value(st, c, op, w)
        elif c.sync:
            w.block(lambda: root in c.arrived, label)
        self._fin(st, c, seq)

    def Bcast(self, buf, root=0):
        b = _buf(buf)
        st, w, me, c, seq, label = self._post("Bcast", (root, b.nbytes), b.copy() if self.rank == root else None)
        if me == root:
            if c.sync:
                w.block(self._all(st, c), label)
        else:
            _poison(b)
            w.block(self._root_done(st, c, root, me), label)
            b[...] = c.contrib[root].view(b.dtype)
        self._fin(st, c, seq)

    def Gather(self, sendbuf, recvbuf, root=0):
        s = _buf(sendbuf)
        st, w, me, c, seq, label = self._post("Gather", (root, s.nbytes), s.copy())
        if me == root:
            r = _buf(recvbuf)
            w.block(self._all(st, c), label)
            r[...] = numpy.concatenate([c.contrib[i] for i in range(st.n)])
        elif c.sync:
            w.block(lambda: root in c.arrived, label)
        self._fin(st, c, seq)

    def Allgather(self, sendbuf, recvbuf):
        s = _buf(sendbuf)
        st, w, me, c, seq, label = self._post("Allgather", (s.nbytes,), s.copy())
        r = _buf(recvbuf)
        w.block(self._all(st, c), label)
        r[...] = numpy.concatenate([c.contrib[i] for i in range(st.n)])
        self._fin(st, c, seq)

    def Scatter(self, sendbuf, recvbuf, root=0):
        r = _buf(recvbuf)
        data = _buf(sendbuf).copy() if self.rank == root else None
        st, w, me, c, seq, label = self._post("Scatter", (root, r.nbytes), data)
        if me == root:
            if c.sync:
                w.block(self._all(st, c), label)
        else:
            w.block(self._root_done(st, c, root, me), label)
        r[...] = c.contrib[root].reshape(st.n, -1)[me]
        self._fin(st, c, seq)

    # -- neighbourhood collectives
    def Create_dist_graph_adjacent(self, sources, destinations, sourceweights=None, destweights=None, info=None,
                                   reorder=False):
        st, w, me, c, seq, label = self._post("Create_dist_graph", (), (list(sources), list(destinations)))
        w.block(self._all(st, c), label)
        if c.result is None:
            ns = CommState(w, list(st.members))
            ns.topo = [c.contrib[i] for i in range(st.n)]
            for i, (src, dst) in enumerate(ns.topo):
                for d in dst:
                    if dst.count(d) != ns.topo[d][0].count(i):
                        w.violation("collective_mismatch", f"inconsistent neighbour graph between {i} and {d}: {ns.topo}")
            c.result = (ns,)
        ns = c.result[0]
        self._fin(st, c, seq)
        return type(self)._make(ns, st.members[me])

    @classmethod
    def _make(cls, state, g):
        return Comm(state, g)

    def _ineighbor(self, name, sendbuf, recvbuf, blocking):
        s = _buf(sendbuf)
        r = _buf(recvbuf)
        st0 = self._st()
        if st0.topo is None:
            raise RuntimeError("simmpi: communicator has no topology")
        src, dst = st0.topo[self._me()]
        if len(dst) == 0 or s.nbytes % len(dst) or r.nbytes % len(src):
            raise ValueError("simmpi: buffer does not divide among neighbours")
        chunk = s.nbytes // len(dst)
        st, w, me, c, seq, label = self._post(name, (chunk,), None)
        if not blocking:
            _poison(r)
        c.aux[me] = (s, r)
        sb = s.view(numpy.uint8)
        w.count("neighbour_exchange")
        # create the messages that have both ends posted
        out_msgs = c.msgs.setdefault(("o", me), [])
        in_msgs = c.msgs.setdefault(("i", me), [])

        def mk(a, b, ka, kb):
            """message a->b, k-th occurrence ka in a's destinations, kb in b's sources"""

            def fn():
                sa, _ = c.aux[a]
                _, rb = c.aux[b]
                rb.view(numpy.uint8)[kb * chunk : (kb + 1) * chunk] = sa.view(numpy.uint8)[ka * chunk : (ka + 1) * chunk]

            m = Msg(f"{st.members[a]}->{st.members[b]} {label}", fn)
            c.msgs.setdefault(("o", a), []).append(m)
            c.msgs.setdefault(("i", b), []).append(m)
            w.pending.append(m)

        def occurrences(lst, x):
            return [i for i, y in enumerate(lst) if y == x]

        for d in sorted(set(dst)):
            if d in c.arrived and (("x", me, d) not in c.aux):
                c.aux[("x", me, d)] = True
                for ka, kb in zip(occurrences(dst, d), occurrences(st.topo[d][0], me)):
                    mk(me, d, ka, kb)
        for q in sorted(set(src)):
            if q in c.arrived and (("x", q, me) not in c.aux):
                c.aux[("x", q, me)] = True
                for ka, kb in zip(occurrences(st.topo[q][1], me), occurrences(src, q)):
                    mk(q, me, ka, kb)

        def ready():
            return (
                len(in_msgs) == len(src)
                and len(out_msgs) == len(dst)
                and all(m.delivered for m in in_msgs)
                and all(m.delivered for m in out_msgs)
            )

        return Request(w, ready, lambda: self._fin(st, c, seq), label, keep=(sendbuf, recvbuf))

    def Ineighbor_alltoall(self, sendbuf, recvbuf):
        return self._ineighbor("Ineighbor_alltoall", sendbuf, recvbuf, False)

    def Neighbor_alltoall(self, sendbuf, recvbuf):
        self._ineighbor("Neighbor_alltoall", sendbuf, recvbuf, True).wait()

    def neighbor_alltoall(self, objs):
        st0 = self._st()
        src, dst = st0.topo[self._me()]
        data = {}
        for d, o in zip(dst, objs):
            data.setdefault(d, []).append(pickle.dumps(o))
        st, w, me, c, seq, label = self._post("neighbor_alltoall", (), data)
        w.block(lambda: all(q in c.arrived for q in src), label)
        seen = {}
        out = []
        for q in src:
            k = seen.get(q, 0)
            out.append(pickle.loads(c.contrib[q][me][k]))
            seen[q] = k + 1
        self._fin(st, c, seq)
        return out

    # -- communicator management
    def Split(self, color=0, key=0):
        st, w, me, c, seq, label = self._post("Split", (), (color, key))
        w.block(self._all(st, c), label)
        if c.result is None:
            groups = {}
            for i in range(st.n):
                col, k = c.contrib[i]
                if col is UNDEFINED or (isinstance(col, int) and col == UNDEFINED):
                    continue
                groups.setdefault(int(col), []).append((k, i))
            c.result = ({col: CommState(w, [st.members[i] for _, i in sorted(g)]) for col, g in sorted(groups.items())},)
        ns = c.result[0].get(int(color)) if color != UNDEFINED else None
        self._fin(st, c, seq)
        if ns is None:
            return COMM_NULL
        return Comm(ns, st.members[me])

    def Dup(self, info=None):
        st, w, me, c, seq, label = self._post("Dup", (), None)
        w.block(self._all(st, c), label)
        if c.result is None:
            ns = CommState(w, list(st.members))
            ns.topo = st.topo
            c.result = (ns,)
        ns = c.result[0]
        self._fin(st, c, seq)
        return Comm(ns, st.members[me])

    Clone = Dup

    def Free(self):
        pass

    def Disconnect(self):
        pass

    def Abort(self, errorcode=0):
        st = self._st()
        st.world.count("mpi_abort")
        st.world.finish("mpi_abort", f"rank {current().rank} code {errorcode}")
        raise SimAbort

    def Get_name(self):
        return "sim"

    def Set_errhandler(self, h):
        pass

    # -- point to point
    def _send(self, data, dest, tag, buffered, label):
        st = self._st()
        w = st.world
        me = self._me()
        w.yield_(label)
        box = st.p2p.setdefault((me, dest), [])
        rec = {"tag": tag, "data": data, "arrived": False, "taken": False}
        box.append(rec)
        m = Msg(label, lambda: rec.__setitem__("arrived", True))
        w.pending.append(m)
        return st, w, rec

    def _match(self, st, me, source, tag):
        srcs = range(st.n) if source == ANY_SOURCE else [source]
        for s in srcs:
            for rec in st.p2p.get((s, me), []):
                if rec["taken"]:
                    continue
                if tag in (ANY_TAG, rec["tag"]):
                    if rec["arrived"]:
                        return s, rec
                    break  # non-overtaking
        return None

    def send(self, obj, dest, tag=0):
        st, w, rec = self._send(pickle.dumps(obj), dest, tag, True, f"send->{dest}t{tag}")
        if w.ch.pick(2, p_other=w.policy["sync_p"]):
            w.block(lambda: rec["taken"], f"send->{dest} (rendezvous)")

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        st = self._st()
        w = st.world
        me = self._me()
        w.yield_(f"recv<-{source}t{tag}")
        w.block(lambda: self._match(st, me, source, tag) is not None, f"recv<-{source}t{tag}")
        s, rec = self._match(st, me, source, tag)
        rec["taken"] = True
        st.p2p[(s, me)].remove(rec)
        return pickle.loads(rec["data"])

    def isend(self, obj, dest, tag=0):
        st, w, rec = self._send(pickle.dumps(obj), dest, tag, True, f"isend->{dest}t{tag}")
        return Request(w, lambda: rec["arrived"], lambda: None, f"isend->{dest}")

    def irecv(self, buf=None, source=-1, tag=-1):
        st = self._st()
        w = st.world
        me = self._me()
        w.yield_(f"irecv<-{source}t{tag}")

        def fin():
            s, rec = self._match(st, me, source, tag)
            rec["taken"] = True
            st.p2p[(s, me)].remove(rec)
            return pickle.loads(rec["data"])

        return Request(w, lambda: self._match(st, me, source, tag) is not None, fin, f"irecv<-{source}t{tag}")

    def Send(self, buf, dest, tag=0):
        b = _buf(buf)
        st, w, rec = self._send(b.copy(), dest, tag, True, f"Send->{dest}t{tag}")
        if w.ch.pick(2, p_other=w.policy["sync_p"]):
            w.block(lambda: rec["taken"], f"Send->{dest} (rendezvous)")

    def Isend(self, buf, dest, tag=0):
        b = _buf(buf)
        st, w, rec = self._send(b, dest, tag, False, f"Isend->{dest}t{tag}")

        def deliver():
            rec["data"] = b.copy()  # read as late as delivery
            rec["arrived"] = True

        w.pending[-1].fn = deliver
        return Request(w, lambda: rec["arrived"], lambda: None, f"Isend->{dest}", keep=buf)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        self.Irecv(buf, source, tag).wait()

    def Irecv(self, buf, source=-1, tag=-1):
        b = _buf(buf)
        st = self._st()
        w = st.world
        me = self._me()
        w.yield_(f"Irecv<-{source}t{tag}")
        _poison(b)

        def fin():
            s, rec = self._match(st, me, source, tag)
            rec["taken"] = True
            st.p2p[(s, me)].remove(rec)
            d = rec["data"].view(numpy.uint8)
            b.view(numpy.uint8)[: d.size] = d

        return Request(w, lambda: self._match(st, me, source, tag) is not None, fin, f"Irecv<-{source}t{tag}", keep=buf)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        r = self.isend(sendobj, dest, sendtag)
        v = self.recv(None, source, recvtag)
        r.wait()
        return v

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        s = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag)
        s.wait()


class _WorldComm(Comm):
    """MPI.COMM_WORLD: resolves to the world of the calling rank."""

    def __init__(self):
        self._s = None
        self._g = None

    def _st(self):
        ctx = current()
        if ctx is None:
            return _solo_state()
        return ctx.world.world_state

    def _me(self):
        ctx = current()
        return 0 if ctx is None else ctx.rank

    def __reduce__(self):
        return (_get_world_comm, ())


class _SelfComm(Comm):
    pass


_solo = None


class _SoloWorld:
    """Stand-in used outside any world (module import time): size 1, no communication."""

    _commid = 0


def _solo_state():
    global _solo
    if _solo is None:
        _solo = CommState(_SoloWorld(), [0])
    return _solo


COMM_WORLD = _WorldComm()
COMM_NULL = Comm(None, None)


def _get_world_comm():
    return COMM_WORLD


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", lambda a, b: numpy.maximum(a, b) if isinstance(a, numpy.ndarray) else max(a, b))
MIN = Op("MIN", lambda a, b: numpy.minimum(a, b) if isinstance(a, numpy.ndarray) else min(a, b))
LAND = Op("LAND", lambda a, b: numpy.logical_and(a, b) if isinstance(a, numpy.ndarray) else (a and b))
LOR = Op("LOR", lambda a, b: numpy.logical_or(a, b) if isinstance(a, numpy.ndarray) else (a or b))
BOR = Op("BOR", lambda a, b: a | b)
BAND = Op("BAND", lambda a, b: a & b)
UNDEFINED = -32766
ANY_SOURCE = -1
ANY_TAG = -1


def sim_time():
    ctx = current()
    if ctx is None:
        return 1.7e9
    return ctx.world.tick(True)


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_sleep(secs):
    ctx = current()
    if ctx is not None:
        ctx.world.clock += max(0.0, secs)
        ctx.world.yield_("sleep")


def make_mpi_module():
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    mod = types.ModuleType("mpi4py.MPI")
    g = globals()
    for k in ["Comm", "Request", "Op", "Datatype", "COMM_WORLD", "COMM_NULL", "SUM", "PROD", "MAX", "MIN", "LAND", "LOR",
              "BOR", "BAND", "UNDEFINED", "ANY_SOURCE", "ANY_TAG", "IN_PLACE", "REQUEST_NULL"]:
        setattr(mod, k, g[k])
    mod.Intracomm = Comm
    mod.Distgraphcomm = Comm
    mod.Exception = type("Exception", (RuntimeError,), {})
    mod.PROC_NULL = -2
    mod.THREAD_MULTIPLE = 3
    mod.Wtime = sim_time
    mod.Is_initialized = lambda: True
    mod.Is_finalized = lambda: False
    mod.Get_processor_name = lambda: "sim"
    mod.Status = type("Status", (), {})
    for name, dt in [("DOUBLE", "f8"), ("FLOAT", "f4"), ("INT", "i4"), ("INT32_T", "i4"), ("INT64_T", "i8"), ("LONG", "i8"),
                     ("BYTE", "u1"), ("CHAR", "u1"), ("C_DOUBLE_COMPLEX", "c16"), ("DOUBLE_COMPLEX", "c16"),
                     ("COMPLEX16", "c16"), ("BOOL", "u1"), ("C_BOOL", "u1"), ("SHORT", "i2"), ("UNSIGNED_CHAR", "u1")]:
        setattr(mod, name, Datatype(name, dt))
    pkg.MPI = mod
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True, threads=True)
    pkg.__version__ = "4.1.2"
    return pkg, mod
