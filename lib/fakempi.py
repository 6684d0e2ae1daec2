"""A simulated MPI: ranks are threads, one runs at a time, collectives are rendezvous.

install() must run before tbplas is imported.  World(n, order).run(fn) executes
fn(rank) for every rank; between two collectives the ranks run one after the
other in the given order.  The automaton checked on every run: all ranks enter
the same collective with the same signature, none is left waiting.
"""
import copy
import os
import sys
import time
import threading
import types

import numpy as np

_local = threading.local()


class MPIError(Exception):
    """The ranks disagree: mismatch or deadlock."""


class Abort(BaseException):
    pass


class World:
    def __init__(self, n, order=None):
        self.n = n
        self.order = list(order) if order is not None else list(range(n))
        self.cv = threading.Condition()
        self.turn = None
        self.state = ["ready"] * n          # ready, wait, done
        self.call = [None] * n
        self.result = [None] * n
        self.error = [None] * n
        self.back = [None] * n
        self.dead = None
        self.log = []                       # sequence of collectives
        self.writes = [set() for _ in range(n)]

    # ---- scheduling
    def _next(self):
        """Called with the lock held by a rank which cannot go on."""
        ready = [r for r in self.order if self.state[r] == "ready"]
        if ready:
            self.turn = ready[0]
        else:
            waiting = [r for r in range(self.n) if self.state[r] == "wait"]
            if waiting:
                if len(waiting) < self.n:
                    fin = [r for r in range(self.n) if self.state[r] == "done"]
                    self.dead = (f"ranks {waiting} wait in {self.call[waiting[0]][0]} while ranks {fin} have finished"
                                 + "".join(f"; rank {r} raised {self.error[r]!r}" for r in fin if self.error[r] is not None))
                else:
                    self._rendezvous()
                if self.dead is None:
                    for r in waiting:
                        self.state[r] = "ready"
                    self.turn = self.order[0]
        self.cv.notify_all()

    def _rendezvous(self):
        sigs = {c[:2] for c in self.call}
        if len(sigs) > 1:
            self.dead = "ranks disagree on the collective: " + "; ".join(f"rank {r}: {c[:2]}" for r, c in enumerate(self.call))
            return
        name, sig, _, combine = self.call[0]
        self.log.append((name, sig))
        try:
            self.back = combine([c[2] for c in self.call])
        except Exception as e:                # noqa: BLE001
            self.dead = f"{name}: {e!r}"

    def collective(self, name, sig, payload, combine):
        r = _local.rank
        with self.cv:
            self.call[r] = (name, sig, payload, combine)
            self.state[r] = "wait"
            self._next()
            while self.dead is None and not (self.state[r] == "ready" and self.turn == r):
                self.cv.wait()
            if self.dead is not None:
                raise Abort()
            return self.back[r]

    def _main(self, r, fn):
        _local.rank = r
        _local.world = self
        with self.cv:
            while self.dead is None and self.turn != r:
                self.cv.wait()
            if self.dead is not None:
                return
        try:
            self.result[r] = fn(r)
        except Abort:
            pass
        except BaseException as e:            # noqa: BLE001
            self.error[r] = e
        with self.cv:
            self.state[r] = "done"
            self._next()

    def run(self, fn):
        threading.stack_size(256 * 1024 * 1024)
        ts = [threading.Thread(target=self._main, args=(r, fn), daemon=True) for r in range(self.n)]
        for t in ts:
            t.start()
        with self.cv:
            self.turn = self.order[0]
            self.cv.notify_all()
        for t in ts:
            t.join()
        threading.stack_size(0)
        if self.dead is not None:
            raise MPIError(self.dead)
        return self.result, self.error


def world():
    return getattr(_local, "world", None)


def _flat(a):
    """Raw memory view of a contiguous array."""
    if isinstance(a, (list, tuple)):
        a = a[0]
    if not isinstance(a, np.ndarray):
        raise TypeError("buffer expected")
    if a.flags.c_contiguous:
        return a.reshape(-1)
    if a.flags.f_contiguous:
        return a.T.reshape(-1)
    raise ValueError("the buffer is not contiguous")


IN_PLACE = object()


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


OPS = {"SUM": Op("SUM", lambda x, y: x + y), "MAX": Op("MAX", np.maximum), "MIN": Op("MIN", np.minimum),
       "PROD": Op("PROD", lambda x, y: x * y), "LOR": Op("LOR", np.logical_or), "LAND": Op("LAND", np.logical_and)}


def fold(op, xs):
    out = xs[0]
    for x in xs[1:]:
        out = op.f(out, x)
    return out


class Comm:
    def Get_rank(self):
        return _local.rank if world() else 0

    def Get_size(self):
        return world().n if world() else 1

    rank = property(Get_rank)
    size = property(Get_size)

    def _do(self, name, sig, payload, combine):
        w = world()
        if w is None:
            return combine([payload])[0]
        return w.collective(name, sig, payload, combine)

    def Barrier(self):
        self._do("Barrier", (), None, lambda xs: [None] * len(xs))

    barrier = Barrier

    def Bcast(self, buf, root=0):
        b = _flat(buf)
        if not isinstance(buf, np.ndarray):
            buf = buf[0]
        x = self._do("Bcast", (b.size, b.dtype.str, root), b.copy(), lambda xs: [xs[root].copy() for _ in xs])
        b[:] = x

    def bcast(self, obj=None, root=0):
        return self._do("bcast", (root,), obj, lambda xs: [copy.deepcopy(xs[root]) for _ in xs])

    def Allreduce(self, send, recv, op=OPS["SUM"]):
        s = _flat(recv if send is IN_PLACE else send).copy()
        x = self._do("Allreduce", (s.size, s.dtype.str, op.name), s, lambda xs: [fold(op, xs)] * len(xs))
        _flat(recv)[:] = x

    def Reduce(self, send, recv, op=OPS["SUM"], root=0):
        s = _flat(recv if send is IN_PLACE else send).copy()
        x = self._do("Reduce", (s.size, s.dtype.str, op.name, root), s, lambda xs: [fold(op, xs)] * len(xs))
        if self.Get_rank() == root:
            _flat(recv)[:] = x

    def allreduce(self, obj, op=OPS["SUM"]):
        return self._do("allreduce", (op.name,), obj, lambda xs: [fold(op, xs)] * len(xs))

    def reduce(self, obj, op=OPS["SUM"], root=0):
        x = self._do("reduce", (op.name, root), obj, lambda xs: [fold(op, xs)] * len(xs))
        return x if self.Get_rank() == root else None

    def gather(self, obj, root=0):
        x = self._do("gather", (root,), obj, lambda xs: [list(xs)] * len(xs))
        return x if self.Get_rank() == root else None

    def allgather(self, obj):
        return list(self._do("allgather", (), obj, lambda xs: [list(xs)] * len(xs)))

    def scatter(self, objs, root=0):
        return self._do("scatter", (root,), objs, lambda xs: list(xs[root]))

    def Allgather(self, send, recv):
        s = _flat(send).copy()
        x = self._do("Allgather", (s.size, s.dtype.str), s, lambda xs: [np.concatenate(xs)] * len(xs))
        _flat(recv)[:] = x

    def Gather(self, send, recv, root=0):
        s = _flat(send).copy()
        x = self._do("Gather", (s.size, s.dtype.str, root), s, lambda xs: [np.concatenate(xs)] * len(xs))
        if self.Get_rank() == root:
            _flat(recv)[:] = x

    def Scatter(self, send, recv, root=0):
        r = _flat(recv)
        s = _flat(send).copy() if self.Get_rank() == root else None
        x = self._do("Scatter", (r.size, r.dtype.str, root), s, lambda xs: [xs[root][i * r.size:(i + 1) * r.size] for i in range(len(xs))])
        r[:] = x

    def alltoall(self, objs):
        return list(self._do("alltoall", (), list(objs), lambda xs: [[x[i] for x in xs] for i in range(len(xs))]))

    def Dup(self):
        return self

    Clone = Dup

    def Free(self):
        pass


def install():
    m = types.ModuleType("mpi4py")
    mm = types.ModuleType("mpi4py.MPI")
    mm.COMM_WORLD = Comm()
    mm.IN_PLACE = IN_PLACE
    mm.Wtime = time.time
    mm.Is_initialized = lambda: True
    mm.Is_finalized = lambda: False
    for n in ("DOUBLE", "DOUBLE_COMPLEX", "COMPLEX16", "C_DOUBLE_COMPLEX", "INT", "LONG", "FLOAT", "BYTE"):
        setattr(mm, n, n)
    mm.Intracomm = mm.Comm = Comm
    for n, o in OPS.items():
        setattr(mm, n, o)
    m.MPI = mm
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = mm

    def hook(event, args):
        if event == "open" and world() is not None:
            path, mode, flags = args
            wr = isinstance(mode, str) and any(c in mode for c in "wax+") or \
                (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if wr and isinstance(path, (str, bytes, os.PathLike)):
                p = os.path.abspath(os.fsdecode(path))
                if not p.startswith(("/dev/", "/proc/")):
                    world().writes[_local.rank].add(p)
    sys.addaudithook(hook)
