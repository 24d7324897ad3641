"""runmpi.py N PROGRAM [ARGS]: runs PROGRAM on N processes (coordinator + stand-in mpi4py beside this file).
Exit 0 if all processes exit 0; 1 if one fails, or if they wait for each other for ever.
DEMO_ORDER=reverse makes the coordinator answer the highest ranks first; DEMO_SYNC=1 makes sends synchronous."""
import os, pickle, select, shutil, socket, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))


def recvn(s, n):
    out = b""
    while len(out) < n:
        c = s.recv(n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def recv(s):
    return pickle.loads(recvn(s, struct.unpack("<q", recvn(s, 8))[0]))


def send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack("<q", len(b)) + b)


def main():
    n, prog = int(sys.argv[1]), sys.argv[2:]
    sync = os.environ.get("DEMO_SYNC") == "1"
    tmp = tempfile.mkdtemp(prefix="demo_mpi_")
    procs = []
    try:
        path = os.path.join(tmp, "s")
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        srv.bind(path)
        srv.listen(n)
        py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        for r in range(n):
            env = dict(os.environ, DEMO_RANK=str(r), DEMO_SIZE=str(n), DEMO_SOCK=path, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                       PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE + ":/repo", DEMO_TMP=tmp)
            d = os.path.join(tmp, "r%d" % r)
            os.mkdir(d)
            procs.append(subprocess.Popen([py, "-W", "ignore", os.path.abspath(prog[0])] + prog[1:] , env=env, cwd=d))
        conns, colls, mail, waiting, wins = {}, {}, [], {}, []
        lastwin = {}
        err = None
        idle = time.time()
        while any(p.poll() is None for p in procs):
            rd, _, _ = select.select([srv] + list(conns), [], [], 0.2)
            if not rd:
                done = [r for r, p in enumerate(procs) if p.poll() is not None]
                if any(procs[r].poll() for r in done):
                    err = "a process failed"
                    break
                live = [r for r in range(n) if procs[r].poll() is None]
                if set(waiting) >= set(live) and live:
                    err = "deadlock: " + "; ".join("rank %d in %s" % (r, waiting[r][1][:4]) for r in live)
                    break
                if time.time() - idle > 200:
                    err = "timeout"
                    break
                continue
            idle = time.time()
            for s in rd:
                if s is srv:
                    c, _ = srv.accept()
                    conns[c] = recv(c)
                    continue
                r = conns[s]
                try:
                    q = recv(s)
                except (EOFError, ConnectionError):
                    del conns[s]
                    continue
                k = q[0]
                if k == "coll":
                    slot = colls.setdefault(q[1], dict(op=q[2:4], data={}))
                    if slot["op"] != q[2:4]:
                        err = "collective mismatch: %r and %r" % (slot["op"], q[2:4])
                        break
                    slot["data"][r] = q[4]
                    waiting[r] = (s, q)
                    if len(slot["data"]) == n:
                        if q[2] == "win":
                            wins.append([bytearray(b"\xff" * pickle.loads(slot["data"][i])) for i in range(n)])
                        res = [slot["data"][i] for i in range(n)]
                        for i in range(n):
                            lastwin[i] = len(wins) - 1
                            send(waiting.pop(i)[0], ("ok", res))
                        del colls[q[1]]
                elif k == "winid":
                    send(s, ("ok", lastwin[r]))
                elif k == "put":
                    m = wins[q[1]][q[2]]
                    if len(q[3]) > len(m):
                        send(s, ("err", "put out of range"))
                    else:
                        m[: len(q[3])] = q[3]
                        send(s, ("ok", None))
                elif k == "get":
                    m = wins[q[1]][q[2]] if wins[q[1]] else None
                    if m is None or q[3] > len(m):
                        send(s, ("err", "get out of range"))
                    else:
                        send(s, ("ok", bytes(m[: q[3]])))
                elif k == "freed":
                    send(s, ("ok", None))
                elif k == "send":
                    mail.append([r, q[1], q[2], q[3], s if sync else None])
                    if not sync:
                        send(s, ("ok", None))
                    else:
                        waiting[r] = (s, ("send", q[1], q[2]))
                elif k == "recv":
                    waiting[r] = (s, q)
                # match
                for d in list(waiting):
                    ws, wq = waiting[d]
                    if wq[0] != "recv":
                        continue
                    for m in mail:
                        if m[1] == d and wq[1] in (-1, m[0]) and wq[2] in (-1, m[2]):
                            mail.remove(m)
                            del waiting[d]
                            send(ws, ("ok", m[3]))
                            if m[4] is not None:
                                del waiting[m[0]]
                                send(m[4], ("ok", None))
                            break
            if err:
                break
        if not err and mail:
            err = "%d messages were never received" % len(mail)
        if err:
            print("MPI:", err)
        rcs = []
        for p in procs:
            if err:
                p.kill()
            rcs.append(p.wait())
        if err or any(rcs):
            print("exit codes", rcs)
            return 1
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
