"""A simulated disk: a scratch directory behind seams at the places where the package writes files.

Below the seams everything is real (Python's buffered and text layers, HDF5, the directory entries of the kernel); at
them the simulator decides whether an operation fails, is cut short, or is the last thing the process does, and (under
MPI) who runs next.  The seams are `open`, raw writes, directory creation, and for HDF5 the creation of files, groups,
data sets and attributes.  HDF5 files are locked like HDF5 locks them: exclusively while a process has them open for
writing."""

import builtins
import errno
import io
import os
import pickle
import sys

from . import world as W

ERR = {
    "ENOSPC": lambda: OSError(errno.ENOSPC, "simulated: No space left on device"),
    "EIO": lambda: OSError(errno.EIO, "simulated: Input/output error"),
    "EACCES": lambda: PermissionError(errno.EACCES, "simulated: Permission denied"),
    "MemoryError": lambda: MemoryError("simulated: out of memory"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated: interrupt"),
}


class Died(BaseException):
    """Not raised: the process which dies ends at once."""


class Disk:
    def __init__(self):
        self.root = None
        self.plan = []
        self.n = {}
        self.fired = []
        self.log = []
        self.open_h5 = []  # (path, rank, file)
        self.shorts = 0

    def start(self, root):
        self.root = os.path.realpath(root)
        os.makedirs(self.root, exist_ok=True)
        self.open_h5 = []
        self.arm([])

    def stop(self):
        self.root = None
        self.plan = []

    def arm(self, plan):
        """plan: list of dict(kind, n, what). The n-th event of that kind fails."""
        self.plan = list(plan)
        self.n = {}
        self.fired = []
        self.log = []

    def path(self, name):
        return os.path.join(self.root, name)

    def mine(self, path):
        if self.root is None or not isinstance(path, (str, bytes, os.PathLike)):
            return False
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.realpath(p).startswith(self.root + os.sep)

    def event(self, kind, after=False):
        """Something happens on the disk. Returns None, or 'short'."""
        i = self.n.get(kind, 0)
        self.n[kind] = i + 1
        self.log.append(kind)
        for f in self.plan:
            if f["kind"] == kind and f["n"] <= i <= f.get("last", 0) + f["n"]:
                self.fired.append((kind, i, f["what"]))
                if f["what"] == "die":
                    os._exit(77)
                if f["what"] == "short":
                    self.shorts += 1
                    return "short"
                raise ERR[f["what"]]()
        return None

    @staticmethod
    def yield_point(what):
        w = W.ACTIVE
        if w is not None and not w.aborting:
            w.event("disk", w.cur, what)
            w.yield_point(what)


DISK = Disk()


class FaultFile(io.FileIO):
    sim_tag = "write"

    def write(self, b):
        if DISK.root is not None:
            r = DISK.event(self.sim_tag)
            if r == "short":
                b = bytes(b)[: max(1, len(bytes(b)) // 2)]
        return super().write(b)


_open = builtins.open
_makedirs = os.makedirs


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not DISK.mine(file) or not (set(mode) & set("wax+")):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    DISK.yield_point("open")
    DISK.event("open")
    raw = FaultFile(file, mode.replace("t", "").replace("b", ""), closefd, opener)
    try:
        line = False
        if buffering == 1 and "b" not in mode:
            line = True
        if buffering == 0:
            return raw
        buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw, 8192 if buffering < 2 else buffering)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def sim_makedirs(name, mode=0o777, exist_ok=False):
    if DISK.mine(name):
        DISK.yield_point("makedirs")
        DISK.event("makedirs")
    return _makedirs(name, mode, exist_ok)


def install():
    """Permanent seams, which do nothing for files outside the simulated disk."""
    import h5py

    if getattr(h5py, "_vsim", False):
        return
    h5py._vsim = True
    builtins.open = sim_open
    io.open = sim_open
    os.makedirs = sim_makedirs
    base = h5py.File

    class File(base):
        def __init__(self, name, mode="r", *args, **kwargs):
            if not DISK.mine(name):
                super().__init__(name, mode, *args, **kwargs)
                return
            DISK.yield_point("h5-open")
            DISK.event("h5-open")
            p = os.path.realpath(os.fspath(name))
            rank = W.ACTIVE.cur if W.ACTIVE is not None else 0
            write = mode != "r"
            DISK.open_h5 = [o for o in DISK.open_h5 if o[2]]
            for q, r, f, wr in DISK.open_h5:
                if q == p and r != rank and (write or wr):
                    raise BlockingIOError(
                        errno.EAGAIN,
                        "Unable to synchronously open file (unable to lock file, errno = 11, error message = "
                        "'Resource temporarily unavailable')",
                    )
            exists = os.path.exists(p)
            if mode in ("w-", "x") and os.path.exists(p):
                raise FileExistsError(errno.EEXIST, "Unable to create file (file exists)", p)
            if mode == "r+" and not os.path.exists(p) or mode == "r" and not os.path.exists(p):
                raise FileNotFoundError(errno.ENOENT, "Unable to open file (No such file or directory)", p)
            raw = FaultFile(p, "r" if mode == "r" else ("w+" if mode in ("w", "w-", "x") or not os.path.exists(p) else "r+"))
            raw.sim_tag = "h5-write"
            m = {"r": "r", "r+": "r+", "w": "w", "w-": "w", "x": "w"}.get(mode, "r+" if exists else "w")
            try:
                super().__init__(raw, m, *args, **kwargs)
            except BaseException:
                raw.close()
                raise
            self._vsim_raw = raw
            DISK.open_h5.append((p, rank, self, write))

        def close(self):
            raw = self.__dict__.pop("_vsim_raw", None)
            if raw is None:
                return super().close()
            try:
                super().close()
            finally:
                raw.close()
            # No scheduling point here: h5py calls this with its global lock held

    File.__name__ = File.__qualname__ = "File"
    File.__module__ = base.__module__
    h5py.File = File
    import h5py._hl.files

    h5py._hl.files.File = File

    def seam(cls, name, kind):
        orig = getattr(cls, name)

        def method(self, *args, **kwargs):
            # Calls from within h5py hold its global lock, and temporary files of libraries are not on the simulated disk
            if not sys._getframe(1).f_globals.get("__name__", "").startswith("vayesta"):
                return orig(self, *args, **kwargs)
            if DISK.root is None or not DISK.plan and W.ACTIVE is None:
                if DISK.root is not None:
                    DISK.event(kind)
                return orig(self, *args, **kwargs)
            DISK.yield_point(kind)
            DISK.event(kind)
            res = orig(self, *args, **kwargs)
            DISK.event(kind + "-done")
            return res

        method.__name__ = name
        setattr(cls, name, method)

    seam(h5py.Group, "create_group", "h5-group")
    seam(h5py.Group, "create_dataset", "h5-dataset")
    seam(h5py.Group, "__setitem__", "h5-dataset")
    seam(h5py.AttributeManager, "__setitem__", "h5-attr")


def in_child(fn):
    """fn() in a copy of this process, which may die. Returns ('ok', result), ('raised', text) or ('died', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("raised", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if code == 77:
        return ("died", None)
    if not data:
        raise RuntimeError("process ended with status %r" % code)
    return pickle.loads(data)
