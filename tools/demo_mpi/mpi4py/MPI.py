import os, pickle, socket, struct, time
import numpy as np

_rank = int(os.environ.get("DEMO_RANK", "0"))
_size = int(os.environ.get("DEMO_SIZE", "1"))
_sock = None


def _conn():
    global _sock
    if _sock is None:
        _sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        _sock.connect(os.environ["DEMO_SOCK"])
        _send(_sock, _rank)
    return _sock


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack("<q", len(b)) + b)


def _recvn(s, n):
    out = b""
    while len(out) < n:
        c = s.recv(n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(s):
    return pickle.loads(_recvn(s, struct.unpack("<q", _recvn(s, 8))[0]))


def _call(*req):
    s = _conn()
    _send(s, req)
    status, val = _recv(s)
    if status != "ok":
        raise RuntimeError("MPI error: %s" % (val,))
    return val


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", max)
MIN = Op("MIN", min)
LAND = Op("LAND", lambda a, b: bool(a) and bool(b))
LOR = Op("LOR", lambda a, b: bool(a) or bool(b))
LOCK_EXCLUSIVE, LOCK_SHARED = 1, 2
ANY_SOURCE, ANY_TAG = -1, -1
Exception = RuntimeError


def _raw(a):
    a = np.asarray(a)
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    return a.reshape(-1, order="A").view(np.uint8) if a.size else np.zeros(0, np.uint8)


class Comm:
    _seq = 0

    def Get_rank(self):
        return _rank

    def Get_size(self):
        return _size

    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, op, root, data):
        Comm._seq += 1
        return _call("coll", Comm._seq, op, root, pickle.dumps(data))

    def barrier(self):
        self._coll("barrier", None, None)

    Barrier = barrier

    def allgather(self, x):
        return [pickle.loads(b) for b in self._coll("allgather", None, x)]

    def gather(self, x, root=0):
        r = [pickle.loads(b) for b in self._coll("gather", root, x)]
        return r if _rank == root else None

    def bcast(self, x=None, root=0):
        return pickle.loads(self._coll("bcast", root, x if _rank == root else None)[root])

    def Bcast(self, buf, root=0):
        raw = _raw(buf)
        data = pickle.loads(self._coll("Bcast", root, raw.tobytes() if _rank == root else None)[root])
        if _rank != root:
            raw[:] = np.frombuffer(data, np.uint8)

    def _fold(self, bs, op):
        vals = [pickle.loads(b) for b in bs]
        acc = vals[0]
        for v in vals[1:]:
            acc = op.f(acc, v)
        return acc

    def allreduce(self, x, op=SUM):
        return self._fold(self._coll("allreduce-" + op.name, None, x), op)

    def reduce(self, x, op=SUM, root=0):
        r = self._coll("reduce-" + op.name, root, x)
        return self._fold(r, op) if _rank == root else None

    def send(self, x, dest, tag=0):
        _call("send", dest, tag, pickle.dumps(x))

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return pickle.loads(_call("recv", source, tag))


class Win:
    def __init__(self, wid, comm):
        self.wid, self.comm = wid, comm

    @classmethod
    def Allocate(cls, size, disp_unit=1, info=None, comm=None):
        r = comm._coll("win", None, int(size))
        return cls(_call("winid"), comm)

    def Lock(self, rank, lock_type=LOCK_EXCLUSIVE, assertion=0):
        pass

    def Unlock(self, rank):
        pass

    def Put(self, origin, target_rank, target=None):
        _call("put", self.wid, target_rank, _raw(origin).tobytes())

    def Get(self, origin, target_rank, target=None):
        raw = _raw(origin)
        data = np.frombuffer(_call("get", self.wid, target_rank, len(raw)), np.uint8)
        raw[:] = data

    def Free(self):
        self.comm._coll("free%d" % self.wid, None, None)
        _call("freed", self.wid)


COMM_WORLD = Comm()
Wtime = time.time
