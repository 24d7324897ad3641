"""Deterministic simulated MPI world.

All ranks run as threads of one process, parked and released one at a time: exactly one rank thread is
ever runnable, and which one is decided by the Chooser at every MPI call.  The semantics implemented are
those of the MPI standard / mpi4py which the code under test relies on:

* point-to-point messages between one (source, destination, tag) never overtake each other; a standard
  send may be buffered (returns at once) or synchronous (returns when matched) - the simulator decides;
* pickled (lower case) communication copies the object at call time;
* buffer (upper case) communication moves raw memory of any contiguous buffer, whatever its order;
* rooted collectives need not synchronise: a root of a broadcast (a leaf of a reduction) may leave early;
* collectives must be called in the same order with the same root by all ranks;
* one-sided transfers may complete at any time between the call and the end of the access epoch;
* window memory is uninitialised.
"""

import io
import logging
import pickle
import sys
import threading
import traceback

import numpy as np


class SimError(BaseException):
    """Base for conditions detected by the simulator itself. Not an Exception, so that code under test does
    not swallow it."""


class SimAbort(SimError):
    """Raised inside a rank to unwind it when the run is over."""


class MPIMisuse(Exception):
    """What a real MPI library reports as an MPI error (raised inside the rank)."""


ACTIVE = None  # the World of the current run (one per process at a time)

ANY_SOURCE = -2
ANY_TAG = -1


def _tb_site(exc, prefix="/vayesta/"):
    """(innermost vayesta frame, innermost frame) of an exception."""
    site = None
    for f in traceback.extract_tb(exc.__traceback__):
        if prefix in f.filename:
            site = "%s:%s" % (f.filename[f.filename.index(prefix) + 1 :], f.name)
    return site


class Msg:
    __slots__ = ("src", "dst", "tag", "data", "matched", "sync", "seq", "raw")

    def __init__(self, src, dst, tag, data, sync, seq, raw):
        self.src, self.dst, self.tag, self.data, self.sync, self.seq, self.raw = src, dst, tag, data, sync, seq, raw
        self.matched = False


class World:
    def __init__(self, size, universes, chooser, policy=None, max_steps=400000):
        self.size = size
        self.universes = universes
        self.ch = chooser
        self.policy = dict(policy or {})
        self.max_steps = max_steps
        self.locks = [threading.Semaphore(0) for _ in range(size)]
        self.done = threading.Semaphore(0)
        self.cur = None
        self.blocked = [None] * size  # (predicate, description)
        self.finished = [False] * size
        self.results = [None] * size
        self.errors = [None] * size
        self.violation = None  # detected by the simulator: deadlock, mismatch, ...
        self.aborting = False
        self.steps = 0
        self.events = []  # global event log
        self.mail = [[] for _ in range(size)]
        self.msgseq = 0
        self.comms = {}
        self.wins = []
        self.stats = {}
        self.now = 0.0
        self.tls = threading.local()
        self.switches = 0
        self.prio = None
        if self.policy.get("sched") == "prio":
            self.prio = list(range(size))
            # initial priority permutation, decided by the chooser
            for i in range(size - 1, 0, -1):
                j = i - self.ch.choose(i + 1, "prio-init")
                self.prio[i], self.prio[j] = self.prio[j], self.prio[i]

    # ---------------------------------------------------------------- clock
    def clock(self):
        """Simulated monotonic clock of the running rank."""
        self.now += 1e-6
        return self.now

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def event(self, *ev):
        self.events.append(ev)

    # ---------------------------------------------------------------- scheduling
    def _runnable(self):
        out = []
        for r in range(self.size):
            if self.finished[r]:
                continue
            b = self.blocked[r]
            if b is None or b[0]():
                out.append(r)
        return out

    def _pick(self, me, runnable):
        """Choose who continues; index 0 = the current rank if possible."""
        if me in runnable:
            order = [me] + [r for r in runnable if r != me]
        else:
            order = runnable
        if len(order) == 1:
            return order[0]
        sched = self.policy.get("sched", "uniform")
        if sched == "prio":
            best = min(range(len(order)), key=lambda i: self.prio[order[i]])
            w = [0.02] * len(order)
            w[best] = 1.0
        elif sched == "sticky":
            w = [1.0] + [0.05] * (len(order) - 1)
        elif sched == "starve":
            victim = self.policy.get("victim", 0) % self.size
            w = [0.01 if r == victim else 1.0 for r in order]
        else:
            w = None
        return order[self.ch.choose(len(order), "sched", weights=w)]

    def _switch(self, me):
        """Called by the thread of rank `me` (which is parked or finished on return to the scheduler)."""
        self.steps += 1
        self.now += 1e-4
        if self.steps > self.max_steps and not self.aborting:
            self._violate("no-progress", "step budget of %d exceeded" % self.max_steps)
        if self.aborting:
            nxt = next((r for r in range(self.size) if not self.finished[r]), None)
        else:
            runnable = self._runnable()
            if not runnable:
                if all(self.finished):
                    nxt = None
                else:
                    self._deadlock()
                    nxt = next((r for r in range(self.size) if not self.finished[r]), None)
            else:
                nxt = self._pick(me, runnable)
        if nxt is None:
            self.done.release()
            return
        if nxt != me:
            self.switches += 1
            self.universes[me].leave()
            self.locks[nxt].release()
            if not self.finished[me]:
                self.locks[me].acquire()
                self.cur = me
                self.universes[me].enter()

    def _deadlock(self):
        who = ["rank %d waits in %s" % (r, self.blocked[r][1]) for r in range(self.size) if not self.finished[r]]
        gone = ["rank %d %s" % (r, "failed" if self.errors[r] else "has finished") for r in range(self.size) if self.finished[r]]
        self._violate("deadlock", "; ".join(who + gone))

    def _violate(self, kind, text):
        if self.violation is None:
            self.violation = (kind, text)
        self.aborting = True

    def yield_point(self, desc):
        if self.aborting:
            raise SimAbort()
        me = self.tls.rank
        self._switch(me)
        if self.aborting:
            raise SimAbort()

    def wait(self, pred, desc):
        """Block the calling rank until pred() holds (a scheduling point even if it already does)."""
        if self.aborting:
            raise SimAbort()
        me = self.tls.rank
        self.blocked[me] = (pred, desc)
        self._switch(me)
        if self.aborting:
            self.blocked[me] = None
            raise SimAbort()
        assert pred()
        self.blocked[me] = None

    # ---------------------------------------------------------------- running
    def _body(self, rank, prog):
        self.locks[rank].acquire()
        self.tls.rank = rank
        self.cur = rank
        self.universes[rank].enter()
        try:
            if not self.aborting:
                self.results[rank] = prog(rank)
        except SimAbort:
            pass
        except BaseException as e:  # noqa
            self.errors[rank] = e
        finally:
            self.finished[rank] = True
            self.event("exit", rank, type(self.errors[rank]).__name__ if self.errors[rank] is not None else "ok")
            self.universes[rank].leave_final()
            # hand over
            self._switch_final(rank)

    def _switch_final(self, me):
        if self.aborting:
            nxt = next((r for r in range(self.size) if not self.finished[r]), None)
        else:
            runnable = self._runnable()
            if runnable:
                nxt = self._pick(me, runnable)
            elif all(self.finished):
                nxt = None
            else:
                self._deadlock()
                nxt = next((r for r in range(self.size) if not self.finished[r]), None)
        if nxt is None:
            self.done.release()
        else:
            self.locks[nxt].release()

    def run(self, prog):
        """Run prog(rank) on every rank. Returns self."""
        global ACTIVE
        ACTIVE = self
        threading.stack_size(64 * 1024 * 1024)
        threads = [threading.Thread(target=self._body, args=(r, prog), daemon=True) for r in range(self.size)]
        for t in threads:
            t.start()
        first = self.ch.choose(self.size, "sched-first")
        self.locks[first].release()
        self.done.acquire()
        for t in threads:
            t.join()
        if self.violation is None and not any(self.errors):
            left = [m for box in self.mail for m in box if not m.matched]
            if left:
                self.violation = (
                    "undelivered",
                    "%d message(s) were sent but never received: %s"
                    % (len(left), ", ".join("rank %d->%d tag %d" % (m.src, m.dst, m.tag) for m in left[:6])),
                )
            for c in self.comms.values():
                for seq, s in c.slots.items():
                    if len(s["in"]) != self.size and self.violation is None:
                        self.violation = (
                            "unmatched-collective",
                            "%s was entered only by ranks %s" % (s["op"], sorted(s["in"])),
                        )
        ACTIVE = None
        return self


# ------------------------------------------------------------------------------------------ MPI objects


class Op:
    def __init__(self, name, func, npfunc):
        self.name, self.func, self.npfunc = name, func, npfunc

    def __call__(self, a, b):
        return self.func(a, b)

    def Is_commutative(self):
        return True

    def __repr__(self):
        return "<Op %s>" % self.name


SUM = Op("SUM", lambda a, b: a + b, np.add)
PROD = Op("PROD", lambda a, b: a * b, np.multiply)
MAX = Op("MAX", lambda a, b: a if a >= b else b, np.maximum)
MIN = Op("MIN", lambda a, b: a if a <= b else b, np.minimum)
LAND = Op("LAND", lambda a, b: bool(a) and bool(b), np.logical_and)
LOR = Op("LOR", lambda a, b: bool(a) or bool(b), np.logical_or)
LXOR = Op("LXOR", lambda a, b: bool(a) ^ bool(b), np.logical_xor)
BAND = Op("BAND", lambda a, b: a & b, np.bitwise_and)
BOR = Op("BOR", lambda a, b: a | b, np.bitwise_or)
OPS = {o.name: o for o in (SUM, PROD, MAX, MIN, LAND, LOR, LXOR, BAND, BOR)}

# one pickle cache per process is not needed: objects are small


def _dumps(obj):
    return pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)


def _loads(b):
    return pickle.loads(b)


def _rawbuf(buf):
    """Raw memory of a buffer argument (array or [array, ...] spec), as a flat uint8 view. Any contiguous order
    is accepted, as PyBUF_ANY_CONTIGUOUS does."""
    if buf is None:
        return None
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    a = np.asarray(buf)
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    flat = a.reshape(-1, order="A") if a.size else a.reshape(-1)
    if a.size and not np.shares_memory(flat, a):
        raise ValueError("ndarray is not contiguous")
    return flat.view(np.uint8) if a.size else np.zeros(0, dtype=np.uint8)


def _typedflat(buf):
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    a = np.asarray(buf)
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    return a.reshape(-1, order="A")


class _CommState:
    def __init__(self, size):
        self.seq = [0] * size
        self.slots = {}


class Status:
    def __init__(self):
        self._src = self._tag = None

    def Get_source(self):
        return self._src

    def Get_tag(self):
        return self._tag

    source = property(Get_source)
    tag = property(Get_tag)


class Request:
    def __init__(self, comm, done, finish):
        self._comm, self._done, self._finish = comm, done, finish
        self._val = None
        self._completed = False

    def wait(self, status=None):
        if not self._completed:
            self._comm.w.wait(self._done, "wait")
            self._val = self._finish()
            self._completed = True
        return self._val

    Wait = wait

    def test(self, status=None):
        self._comm.w.yield_point("test")
        if not self._completed and self._done():
            self._val = self._finish()
            self._completed = True
        return self._completed, self._val

    def Test(self, status=None):
        return self.test()[0]

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    Waitall = waitall


class Comm:
    def __init__(self, rank, size, name="world"):
        self._rank, self._size, self._name = rank, size, name

    # identity
    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return "MPI_COMM_WORLD"

    name = property(Get_name)

    def Dup(self):
        return self

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        w = self.w
        w._violate("abort", "rank %d called Abort(%r)" % (self._rank, errorcode))
        raise SimAbort()

    @property
    def w(self):
        w = ACTIVE
        if w is None:
            raise RuntimeError("MPI used outside of a simulated run")
        if w.tls.rank != self._rank:
            raise RuntimeError("simulator error: communicator of rank %d used by rank %d" % (self._rank, w.tls.rank))
        return w

    # ------------------------------------------------------------ collectives
    def _coll(self, op, root=None, data=None, sig=None):
        w = self.w
        st = w.comms.setdefault(self._name, _CommState(self._size))
        me = self._rank
        seq = st.seq[me]
        st.seq[me] += 1
        s = st.slots.get(seq)
        if s is None:
            s = st.slots[seq] = dict(op=op, root=root, sig=sig, first=me, **{"in": {}, "out": set()})
        else:
            if s["op"] != op or s["root"] != root or s["sig"] != sig:
                w._violate(
                    "collective-mismatch",
                    "rank %d calls %s(root=%s, %s) while rank %d calls %s(root=%s, %s)"
                    % (me, op, root, sig, s["first"], s["op"], s["root"], s["sig"]),
                )
                raise SimAbort()
        s["in"][me] = data
        w.count("coll:" + op)
        w.event("coll", me, op, seq, root)
        return w, s, seq

    def _all_in(self, w, s, op):
        w.wait(lambda: len(s["in"]) == self._size, op)

    def _root_in(self, w, s, op, root):
        w.wait(lambda: root in s["in"], "%s(root=%d)" % (op, root))

    def _leave(self, s, op, root=None):
        """Seeded choice: leave a rooted collective early, or synchronise."""
        w = self.w
        if w.ch.coin(w.policy.get("p_sync_coll", 0.3), "sync-coll"):
            w.count("fault:sync-collective")
            w.wait(lambda: len(s["in"]) == self._size, "%s(root=%s)" % (op, root))
        else:
            w.count("fault:early-leave")
            w.yield_point(op)

    def barrier(self):
        w, s, _ = self._coll("barrier")
        self._all_in(w, s, "barrier")

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        me = self._rank
        w, s, _ = self._coll("bcast", root=root, data=_dumps(obj) if me == root else None)
        if me == root:
            self._leave(s, "bcast", root)
            return _loads(s["in"][root])
        self._root_in(w, s, "bcast", root)
        return _loads(s["in"][root])

    def Bcast(self, buf, root=0):
        me = self._rank
        raw = _rawbuf(buf)
        w, s, _ = self._coll("Bcast", root=root, data=raw.tobytes() if me == root else None)
        if me == root:
            self._leave(s, "Bcast", root)
            return
        self._root_in(w, s, "Bcast", root)
        data = np.frombuffer(s["in"][root], dtype=np.uint8)
        if len(data) > len(raw):
            raise MPIMisuse("MPI_ERR_TRUNCATE: Bcast of %d bytes into %d" % (len(data), len(raw)))
        raw[: len(data)] = data

    def _fold(self, w, s, op):
        """Combine contributions; the association order is the library's choice."""
        order = list(range(self._size))
        if "order" not in s:
            if self._size > 2 and w.ch.coin(w.policy.get("p_reorder", 0.3), "reduce-order"):
                k = 1 + w.ch.choose(self._size - 1, "reduce-rot")
                order = order[k:] + order[:k]
                w.count("fault:reduction-order")
            s["order"] = order
        order = s["order"]
        vals = [_loads(s["in"][r]) for r in order]
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def allreduce(self, sendobj, op=SUM):
        w, s, _ = self._coll("allreduce", data=_dumps(sendobj), sig=op.name)
        self._all_in(w, s, "allreduce")
        return self._fold(w, s, op)

    def reduce(self, sendobj, op=SUM, root=0):
        w, s, _ = self._coll("reduce", root=root, data=_dumps(sendobj), sig=op.name)
        if self._rank != root:
            self._leave(s, "reduce", root)
            return None
        self._all_in(w, s, "reduce(root=%d)" % root)
        return self._fold(w, s, op)

    def _bufreduce(self, w, s, op, recvbuf):
        order = s.setdefault("order", list(range(self._size)))
        parts = [s["in"][r] for r in order]
        acc = parts[0].copy()
        for p in parts[1:]:
            acc = op.npfunc(acc, p)
        out = _typedflat(recvbuf)
        out[: acc.size] = acc.astype(out.dtype, copy=False)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        w, s, _ = self._coll("Allreduce", data=_typedflat(src).copy(), sig=op.name)
        self._all_in(w, s, "Allreduce")
        self._bufreduce(w, s, op, recvbuf)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        w, s, _ = self._coll("Reduce", root=root, data=_typedflat(src).copy(), sig=op.name)
        if self._rank != root:
            self._leave(s, "Reduce", root)
            return
        self._all_in(w, s, "Reduce(root=%d)" % root)
        self._bufreduce(w, s, op, recvbuf)

    def gather(self, sendobj, root=0):
        w, s, _ = self._coll("gather", root=root, data=_dumps(sendobj))
        if self._rank != root:
            self._leave(s, "gather", root)
            return None
        self._all_in(w, s, "gather(root=%d)" % root)
        return [_loads(s["in"][r]) for r in range(self._size)]

    def allgather(self, sendobj):
        w, s, _ = self._coll("allgather", data=_dumps(sendobj))
        self._all_in(w, s, "allgather")
        return [_loads(s["in"][r]) for r in range(self._size)]

    def Allgather(self, sendbuf, recvbuf):
        w, s, _ = self._coll("Allgather", data=_rawbuf(sendbuf).tobytes())
        self._all_in(w, s, "Allgather")
        out = _rawbuf(recvbuf)
        data = np.frombuffer(b"".join(s["in"][r] for r in range(self._size)), dtype=np.uint8)
        out[: len(data)] = data

    def scatter(self, sendobj=None, root=0):
        me = self._rank
        w, s, _ = self._coll("scatter", root=root, data=[_dumps(x) for x in sendobj] if me == root else None)
        if me == root:
            self._leave(s, "scatter", root)
        else:
            self._root_in(w, s, "scatter", root)
        return _loads(s["in"][root][me])

    def alltoall(self, sendobj):
        w, s, _ = self._coll("alltoall", data=[_dumps(x) for x in sendobj])
        self._all_in(w, s, "alltoall")
        return [_loads(s["in"][r][self._rank]) for r in range(self._size)]

    # ------------------------------------------------------------ point to point
    def _post(self, data, dest, tag, raw, force_sync=False, nonblocking=False):
        w = self.w
        if not 0 <= dest < self._size:
            raise MPIMisuse("MPI_ERR_RANK: invalid rank %r" % (dest,))
        sync = force_sync or w.ch.coin(w.policy.get("p_sync_send", 0.5), "sync-send")
        w.msgseq += 1
        m = Msg(self._rank, dest, tag, data, sync, w.msgseq, raw)
        w.mail[dest].append(m)
        w.count("p2p:send")
        w.count("fault:synchronous-send" if sync else "fault:buffered-send")
        w.event("send", self._rank, dest, tag, sync)
        return w, m

    def send(self, obj, dest, tag=0):
        w, m = self._post(_dumps(obj), dest, tag, False)
        if m.sync:
            w.wait(lambda: m.matched, "send(dest=%d, tag=%d)" % (dest, tag))
        else:
            w.yield_point("send")

    def ssend(self, obj, dest, tag=0):
        w, m = self._post(_dumps(obj), dest, tag, False, force_sync=True)
        w.wait(lambda: m.matched, "ssend(dest=%d, tag=%d)" % (dest, tag))

    def isend(self, obj, dest, tag=0):
        w, m = self._post(_dumps(obj), dest, tag, False)
        w.yield_point("isend")
        return Request(self, lambda: m.matched or not m.sync, lambda: None)

    def Send(self, buf, dest, tag=0):
        w, m = self._post(_rawbuf(buf).tobytes(), dest, tag, True)
        if m.sync:
            w.wait(lambda: m.matched, "Send(dest=%d, tag=%d)" % (dest, tag))
        else:
            w.yield_point("Send")

    Ssend = Send

    def Isend(self, buf, dest, tag=0):
        raw = _rawbuf(buf)
        w, m = self._post(raw.tobytes(), dest, tag, True)
        if m.sync:
            m.data = raw  # the library reads the buffer when the message is matched
        w.yield_point("Isend")
        return Request(self, lambda: m.matched or not m.sync, lambda: None)

    def _candidates(self, w, source, tag):
        seen, out = set(), []
        for m in w.mail[self._rank]:
            if m.matched or m.src in seen:
                continue
            if source not in (ANY_SOURCE, m.src):
                continue
            if tag not in (ANY_TAG, m.tag):
                continue
            seen.add(m.src)
            out.append(m)
        return out

    def _match(self, w, source, tag):
        cand = self._candidates(w, source, tag)
        m = cand[w.ch.choose(len(cand), "any-source")]
        m.matched = True
        w.mail[self._rank].remove(m)
        w.count("p2p:recv")
        w.event("recv", self._rank, m.src, m.tag)
        return m

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self.w
        w.wait(lambda: bool(self._candidates(w, source, tag)), "recv(source=%d, tag=%d)" % (source, tag))
        m = self._match(w, source, tag)
        if status is not None:
            status._src, status._tag = m.src, m.tag
        return _loads(m.data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        w = self.w
        return Request(
            self,
            lambda: bool(self._candidates(w, source, tag)),
            lambda: _loads(self._match(w, source, tag).data),
        )

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self.w
        raw = _rawbuf(buf)
        w.wait(lambda: bool(self._candidates(w, source, tag)), "Recv(source=%d, tag=%d)" % (source, tag))
        m = self._match(w, source, tag)
        if status is not None:
            status._src, status._tag = m.src, m.tag
        data = m.data if isinstance(m.data, np.ndarray) else np.frombuffer(m.data, dtype=np.uint8)
        if len(data) > len(raw):
            raise MPIMisuse("MPI_ERR_TRUNCATE")
        raw[: len(data)] = data

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag)
        out = self.recv(source=source, tag=recvtag, status=status)
        r.wait()
        return out

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self.w
        w.yield_point("iprobe")
        return bool(self._candidates(w, source, tag))


LOCK_EXCLUSIVE = 1
LOCK_SHARED = 2
IN_PLACE = object()


class _WinState:
    def __init__(self, size):
        self.mem = [None] * size
        self.holders = [dict() for _ in range(size)]  # target -> {rank: lock_type}
        self.pending = {}  # (origin, target) -> list of thunks
        self.freed = set()
        self.id = None


class Win:
    """MPI window. One Win object per rank, shared _WinState."""

    def __init__(self, comm, state):
        self._comm, self._st = comm, state

    @classmethod
    def _create(cls, nbytes, comm, opname, mem=None):
        w, s, seq = comm._coll(opname, data=int(nbytes))
        st = s.get("win")
        if st is None:
            st = s["win"] = _WinState(comm._size)
            st.id = len(w.wins)
            w.wins.append(st)
        if mem is None:
            mem = np.full(int(nbytes), 0xFF, dtype=np.uint8)  # uninitialised memory: NaN pattern
        st.mem[comm._rank] = mem
        comm._all_in(w, s, opname)
        w.count("rma:windows")
        return cls(comm, st)

    @classmethod
    def Allocate(cls, size, disp_unit=1, info=None, comm=None):
        return cls._create(size, comm, "Win.Allocate")

    @classmethod
    def Create(cls, memory, disp_unit=1, info=None, comm=None):
        raw = _rawbuf(memory) if memory is not None else np.zeros(0, dtype=np.uint8)
        return cls._create(len(raw), comm, "Win.Create", mem=raw)

    def _check(self, target=None):
        if self._comm._rank in self._st.freed:
            raise MPIMisuse("MPI_ERR_WIN: window used after Free")

    def _can_lock(self, target, lock_type):
        held = self._st.holders[target]
        if not held:
            return True
        if lock_type == LOCK_EXCLUSIVE:
            return False
        return all(t == LOCK_SHARED for t in held.values())

    def Lock(self, rank, lock_type=LOCK_EXCLUSIVE, assertion=0):
        self._check()
        w = self._comm.w
        me = self._comm._rank
        if me in self._st.holders[rank]:
            raise MPIMisuse("MPI_ERR_RMA_SYNC: window already locked by rank %d" % me)
        w.wait(lambda: self._can_lock(rank, lock_type), "Win.Lock(target=%d)" % rank)
        self._st.holders[rank][me] = lock_type
        w.count("rma:lock")
        w.event("lock", me, rank, self._st.id, lock_type)

    def _flush(self, rank):
        for f in self._st.pending.pop((self._comm._rank, rank), []):
            f()

    def Unlock(self, rank):
        self._check()
        w = self._comm.w
        me = self._comm._rank
        if me not in self._st.holders[rank]:
            raise MPIMisuse("MPI_ERR_RMA_SYNC: Unlock without Lock")
        w.yield_point("Win.Unlock")
        self._flush(rank)
        del self._st.holders[rank][me]
        w.event("unlock", me, rank, self._st.id)

    def Flush(self, rank):
        self._check()
        self._comm.w.yield_point("Win.Flush")
        self._flush(rank)

    def Lock_all(self, assertion=0):
        for r in range(self._comm._size):
            self.Lock(r, LOCK_SHARED)

    def Unlock_all(self):
        for r in range(self._comm._size):
            self.Unlock(r)

    def Fence(self, assertion=0):
        w, s, _ = self._comm._coll("Win.Fence")
        for r in range(self._comm._size):
            self._flush(r)
        self._comm._all_in(w, s, "Win.Fence")
        self._st.fenced = True

    def _epoch(self, rank):
        if self._comm._rank not in self._st.holders[rank] and not getattr(self._st, "fenced", False):
            raise MPIMisuse("MPI_ERR_RMA_SYNC: access outside of an epoch")

    def _disp(self, target):
        if target is None:
            return 0
        if isinstance(target, (list, tuple)):
            return int(target[0])
        return int(target)

    def Put(self, origin, target_rank, target=None):
        self._check()
        self._epoch(target_rank)
        w = self._comm.w
        raw = _rawbuf(origin)
        off = self._disp(target)
        mem = self._st.mem[target_rank]
        if off + len(raw) > len(mem):
            raise MPIMisuse("MPI_ERR_RMA_RANGE: put of %d bytes at %d into a window of %d" % (len(raw), off, len(mem)))

        def do():
            mem[off : off + len(raw)] = raw

        self._xfer(w, target_rank, do, "put")

    def Get(self, origin, target_rank, target=None):
        self._check()
        self._epoch(target_rank)
        w = self._comm.w
        raw = _rawbuf(origin)
        off = self._disp(target)
        mem = self._st.mem[target_rank]
        if off + len(raw) > len(mem):
            raise MPIMisuse("MPI_ERR_RMA_RANGE: get of %d bytes at %d from a window of %d" % (len(raw), off, len(mem)))

        def do():
            raw[:] = mem[off : off + len(raw)]

        if len(raw):
            raw[:] = 0xFF  # undefined until the epoch ends
        self._xfer(w, target_rank, do, "get")

    def Accumulate(self, origin, target_rank, target=None, op=SUM):
        self._check()
        self._epoch(target_rank)
        w = self._comm.w
        src = _typedflat(origin)
        off = self._disp(target)
        mem = self._st.mem[target_rank]

        def do():
            view = mem[off : off + src.nbytes].view(src.dtype)
            view[:] = op.npfunc(view, src)

        self._xfer(w, target_rank, do, "accumulate")

    def _xfer(self, w, target, do, kind):
        w.count("rma:" + kind)
        w.event(kind, self._comm._rank, target, self._st.id)
        pend = self._st.pending.setdefault((self._comm._rank, target), [])
        if w.ch.coin(w.policy.get("p_defer_rma", 0.5), "defer-rma"):
            w.count("fault:deferred-rma")
            pend.append(do)
        else:
            for f in pend:
                f()
            pend.clear()
            do()
        w.yield_point(kind)

    def Free(self):
        self._check()
        w, s, _ = self._comm._coll("Win.Free", sig="win%d" % self._st.id)
        if any(self._comm._rank in h for h in self._st.holders):
            raise MPIMisuse("MPI_ERR_RMA_SYNC: Free of a locked window")
        self._comm._all_in(w, s, "Win.Free")
        self._st.freed.add(self._comm._rank)
        w.count("rma:free")

    def tomemory(self):
        return memoryview(self._st.mem[self._comm._rank])


def make_mpi4py(rank, size):
    """Module objects `mpi4py` and `mpi4py.MPI` for one rank of one world size."""
    import types

    pkg = types.ModuleType("mpi4py")
    pkg.__version__ = "3.1.6-sim"
    pkg.__file__ = "/vsim/mpi4py/__init__.py"
    pkg.__path__ = []
    pkg.rc = types.SimpleNamespace(threads=True, initialize=True, finalize=None, thread_level="multiple")
    mod = types.ModuleType("mpi4py.MPI")
    mod.COMM_WORLD = Comm(rank, size)
    mod.COMM_SELF = Comm(0, 1, "self%d" % rank)
    mod.Comm = mod.Intracomm = Comm
    mod.Win = Win
    mod.Status = Status
    mod.Request = Request
    mod.ANY_SOURCE, mod.ANY_TAG = ANY_SOURCE, ANY_TAG
    mod.LOCK_EXCLUSIVE, mod.LOCK_SHARED = LOCK_EXCLUSIVE, LOCK_SHARED
    mod.IN_PLACE = IN_PLACE
    mod.INFO_NULL = None
    mod.Op = Op
    mod.Exception = MPIMisuse
    for name, o in OPS.items():
        setattr(mod, name, o)
    for t in ("DOUBLE", "COMPLEX", "INT", "LONG", "BYTE", "CHAR", "FLOAT", "BOOL", "DOUBLE_COMPLEX", "INT64_T"):
        setattr(mod, t, t)
    mod.Wtime = lambda: ACTIVE.clock() if ACTIVE is not None else 0.0
    mod.Get_processor_name = lambda: "simnode%d" % rank
    mod.Is_initialized = lambda: True
    mod.Is_finalized = lambda: False
    pkg.MPI = mod
    return pkg, mod
