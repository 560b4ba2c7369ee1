"""P21: an agent that loses its server reconnects and loses no process."""
import json, os, random, socket, struct, threading, time
from core import *
from mgr import *
from agentsrv import *

HTTP = {"404": b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n", "500": b"HTTP/1.1 500 Oops\r\nContent-Length: 0\r\n\r\n", "200": b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi",
        "bad-key": b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAA\r\n\r\n"}
FAIL = ["close", "rst", "junk", "tls-close", "tls-rst", *HTTP, "upgrade-close", "upgrade-rst", "register-close", "register-rst", "register-frame", "wrong-message", "wrong-start", "wrong-start", "wrong-bytes", "wrong-text", "close-frame-first"]
LOSE = ["close-frame", "fin", "rst", "half-frame", "bad-frame", "close-1011", "fin-amid-output", "shutdown-write"]


class Model:
    """Processes that live through it all."""
    def __init__(self, ck, rng, m, slack):
        self.ck, self.rng, self.m, self.slack = ck, rng, m, slack
        self.procs, self.n = {}, 0
        self.most = rng.choice([0, 2, 7, 7, 14])
        if self.most == 14:
            for _ in range(10):
                self.start()

    def start(self):
        self.n += 1
        k = self.rng.choice([f"p{self.n}", f"p/{self.n}", f"ü {self.n}"])
        m, tag = self.m, self.n
        kind = self.rng.choice(["writer", "writer", "done", "failed", "pause"])
        gate = m.dir / f"g{tag}"
        size = self.rng.choice([500, 60000])
        if kind == "writer":
            spec = sp(m, "chunk=200", "chunkus=300", f"w=1:{size}:{tag}:0", f"waitfile={gate}", f"w=1:{size}:{tag}:0:{size}", f"exit={tag % 100}", fds=[["stdout", cap(self.rng.choice(["memory", "tempfile"]))]])
        elif kind == "done":
            spec = sp(m, f"w=1:{size}:{tag}:0", f"exit={tag % 100}", fds=[["stdout", cap("memory")]])
        elif kind == "failed":
            spec = {"argv": ["/nonexistent/p21"]}
        else:
            spec = sp(m, "pause")
        m.start({k: spec})
        self.procs[k] = {"kind": kind, "tag": tag, "size": size, "gate": gate, "pid": m.get(k)["pid"], "over": False}
        return k

    def end(self, k):
        p = self.procs[k]
        if not p["over"]:
            if p["kind"] == "writer":
                p["gate"].touch()
                os.chmod(p["gate"], 0o666)
            elif p["kind"] == "pause":
                self.m.signal(k, 9)
            self.m.wait_done(k)
            p["over"] = True

    def delete(self, k):
        self.end(k)
        if self.m.delete(k).status != 200:
            raise Broken("delete-refused", k)
        del self.procs[k]

    def step(self):
        a = self.rng.choice(["start", "start", "end", "delete", "nothing"])
        if a == "start" and len(self.procs) < self.most:
            self.start()
        elif a == "end" and self.procs:
            self.end(self.rng.choice(list(self.procs)))
        elif a == "delete" and self.procs:
            self.delete(self.rng.choice(list(self.procs)))

    def check(self, where):
        l = self.m.list()
        if set(l) != set(self.procs):
            raise Broken("process-lost", f"{where}: records {sorted(set(l) ^ set(self.procs))!r} differ")
        for k, p in self.procs.items():
            r = l[k]
            if r["pid"] != p["pid"]:
                raise Broken("process-lost", f"{where}: {k!r} has another pid")
            if p["kind"] in ("writer", "pause") and not p["over"]:
                if r["state"] != "running":
                    raise Broken("process-lost", f"{where}: {k!r} ended: {r['status']}")
            if p["kind"] in ("writer", "done"):
                b = fd_bytes(r["fds"]["stdout"])
                total = p["size"] * (2 if p["kind"] == "writer" else 1)
                want = pattern(total, p["tag"])
                if not want.startswith(b) or p["over"] and len(b) != total:
                    raise Broken("output-lost", f"{where}: {k!r}: {diff_at(b, want)}")

    def finish(self, where):
        for k in list(self.procs):
            self.end(k)
        self.check(where)
        for k, p in self.procs.items():
            r = self.m.get(k)
            st = r["status"]
            good = {"writer": lambda: st["exit_code"] == p["tag"] % 100, "done": lambda: st["exit_code"] == p["tag"] % 100, "pause": lambda: st["signum"] == 9, "failed": lambda: r["state"] == "error"}[p["kind"]]()
            if not good:
                raise Broken("process-lost", f"{where}: {k!r} {p['kind']} {r['state']} {st}")


def identity(c, first, model_ids, where, conn_id="agent-1"):
    """The registration is first, the same as ever, and complete."""
    if c.frames[0][1]["type"] != "Register":
        raise Broken("register-first", f"{where}: first message is {c.frames[0][1]['type']}")
    if len(c.msgs("Register")) != 1:
        raise Broken("register-first", f"{where}: {len(c.msgs('Register'))} registrations on one connection")
    r = c.register
    if first is not None:
        for f in ("conn", "proc", "access_token"):
            if r[f] != first[f]:
                raise Broken("identity", f"{where}: {f} was {first[f]!r}, now {r[f]!r}")
    if conn_id and r["conn"]["conn_id"] != conn_id or r["access_token"] != TOKEN or r["shutdown_state"] != "active":
        raise Broken("identity", f"{where}: {r['conn']} {r['shutdown_state']}")
    if model_ids is not None and (sorted(r["proc_ids"]) != sorted(model_ids)):
        raise Broken("register-list", f"{where}: registered {sorted(r['proc_ids'])!r}, has {sorted(model_ids)!r}")


def works(c, md, where, slack):
    """Requests and notices work as before on this connection."""
    c.barrier(20 * slack)
    ids = c.request("ProcidListRequest", lambda x: x["type"] == "ProcidList", 20 * slack)["proc_ids"]
    if sorted(ids) != sorted(md.procs):
        raise Broken("register-list", f"{where}: list {sorted(ids)!r}, has {sorted(md.procs)!r}")
    for k in list(md.procs)[:3]:
        r = c.request("ProcResultRequest", lambda x: x["type"] in ("ProcResult", "ProcUnknown") and x["proc_id"] == k, 20 * slack, proc_id=k)
        if r["type"] != "ProcResult" or r["res"]["pid"] != md.procs[k]["pid"]:
            raise Broken("process-lost", f"{where}: request about {k!r}: {str(r)[:200]}")
    # an unprompted notice for each of start, end and deletion, once
    k = f"n{random.random()}"
    c.send("ProcStartRequest", specs={k: {"argv": ["/bin/true"]}})
    c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == k and x["res"]["state"] == "terminated", 15 * slack, 0, "notice of the end")
    wait_for(lambda: len(c.msgs("ProcResult", proc_id=k)) >= 2, 10 * slack, "notices of start and end")
    c.send("ProcDeleteRequest", proc_id=k)
    c.wait(lambda x: x["type"] == "ProcDelete" and x["proc_id"] == k, 15 * slack, 0, "notice of deletion")
    c.barrier(20 * slack)
    n = len(c.msgs("ProcResult", proc_id=k)), len(c.msgs("ProcDelete", proc_id=k))
    if n != (2, 1):
        raise Broken("notices", f"{where}: {n} results and deletions noticed for one process")


def fail(conn, how):
    """One way for a connection attempt to fail."""
    rst = how.endswith("rst")
    if how == "junk":
        conn.raw.sendall(b"HTTP/1.0 400 no TLS here\r\n\r\n")
        return conn.drop(rst=False)
    if how in ("close", "rst"):
        return conn.drop(rst=rst)
    conn.start_tls()
    if how.startswith("tls"):
        return conn.drop(rst=rst)
    conn.read_request()
    if how in HTTP:
        conn.send_raw(HTTP[how])
        time.sleep(0.01)
        return conn.drop(rst=False)
    conn.send_raw(conn.answer())
    if how.startswith("upgrade"):
        return conn.drop(rst=rst)
    conn.read_register()
    if how == "wrong-message":
        conn.send("ProcidListRequest")
    elif how == "wrong-start":
        # Nothing is to be done for it before it confirms.
        conn.send("ProcStartRequest", specs={"intruder": {"argv": ["/bin/true"]}})
    elif how == "wrong-bytes":
        conn.send_frame(2, b"\xc1")
    elif how == "wrong-text":
        conn.send_frame(1, b"Registered")
    elif how == "register-frame":
        conn.send_raw(b"\x83\x00")
    elif how == "close-frame-first":
        conn.send_frame(8, b"\x03\xe8")
    if how.startswith("wrong") or how in ("register-frame", "close-frame-first"):
        # It hangs up of its own accord.
        try:
            conn.phase = "failing"
            while True:
                conn.read_message()
        except Closed:
            return
    conn.drop(rst=rst)


def lose(conn, how):
    """One way to lose an established connection."""
    if how == "close-frame":
        conn.close(1000)
    elif how == "close-1011":
        conn.close(1011)
    elif how == "fin":
        conn.drop(rst=False)
    elif how == "rst":
        conn.drop(rst=True)
    elif how == "half-frame":
        conn.send_raw(Conn.frame(2, b"x" * 100)[:50])
        conn.drop(rst=False)
    elif how == "bad-frame":
        conn.send_raw(b"\xf3\x00")
        wait_for(lambda: conn.closed, 5, "agent hangs up after a bad frame")
        conn.drop(rst=False)
    elif how == "fin-amid-output":
        conn.send("ProcidListRequest")
        conn.drop(rst=False)
    elif how == "shutdown-write":
        # No more from the server, which still reads.
        socket.socket.shutdown(conn.s, socket.SHUT_WR)
        wait_for(lambda: conn.closed, 5, "agent hangs up after the end of the stream")
        conn.drop(rst=False)


def timing(ck, rng, slack):
    """Attempts fail and connections are lost in planned ways; intervals measured."""
    def fails(n):
        return [("fail", rng.choice(FAIL)) for _ in range(n)]

    def losses(n):
        return [("ok", rng.choice(LOSE)) for _ in range(n)]
    shape = rng.choice(["any", "any", "reset", "at once", "capped"])
    if shape == "any":
        start = rng.choice([0.05, 0.1, 0.2])
        mult = rng.choice([1.0, 1.5, 2.0, 3.0])
        mx = start * rng.choice([1.0, 1.7, 4.0])
        plan = []
        for _ in range(rng.choice([2, 3])):
            plan += fails(rng.choice([0, 1, 2, 4, 6])) + losses(1)
    elif shape == "reset":      # a success undoes a long interval
        start, mult, mx = 0.05, 3.0, 1.35
        plan = fails(rng.choice([4, 5])) + losses(rng.choice([1, 2])) + fails(rng.choice([2, 3])) + losses(rng.choice([0, 1]))
    elif shape == "at once":    # no interval after a loss, however long it is after a failure
        start, mult, mx = 1.2, rng.choice([1.0, 2.0]), 1.2
        plan = losses(rng.choice([1, 2, 3])) + fails(rng.choice([0, 1])) + losses(1)
    else:
        start, mult, mx = 0.5, 3.9, 1.0
        plan = fails(rng.choice([3, 4])) + losses(1)
    plan += [("ok", None)]
    late = 0.5 * min(slack, 1.6)
    ended = {}      # index -> time at which the server was done with it
    lock = threading.Lock()

    def policy(c):
        k = c.index
        kind, how = plan[k] if k < len(plan) else ("ok", None)
        if kind == "ok":
            return ok(c)
        try:
            fail(c, how)
        finally:
            ended[k] = time.monotonic()
    cid, group = rng.choice(["agent-1", "agent-1", None]), rng.choice([None, "grp", "g/ü 1"])
    with AgentServer(policy) as srv, agent(ck, srv, serve=True, interval=(start, mult, mx), conn_id=cid, group=group) as m:
        os.chmod(m.dir, 0o777)
        md = Model(ck, rng, m, slack)
        first, state = None, {"fails": 0}
        ready = m.t_start
        for k, (kind, how) in enumerate(plan):
            prev = plan[k - 1] if k else None
            want = 0.0 if state["fails"] == 0 else min(start * mult ** (state["fails"] - 1), mx) if state["fails"] > 1 else start
            where = f"attempt {k} ({kind} {how}) after {prev}, {state['fails']} failures in a row, intervals {start:g} x {mult:g} up to {mx:g}"
            c = wait_for(lambda: len(srv.conns) > k and srv.conns[k], want + (2 if k == 0 else 0.7) * slack + 0.5, lambda: f"{where}: next attempt after {want:g} s")
            since = ready
            gap = c.t_accept - since
            if k and gap < want * 0.9 - 0.003:
                raise Broken("too-soon", f"{where}: {gap:.3f} s, expected {want:.3f} s")
            if k and gap > want + late:
                raise Hang(f"{where}: {gap:.3f} s, expected {want:.3f} s")
            ck.seen("intervals measured")
            if kind == "fail":
                wait_for(lambda: k in ended, 15 * slack, lambda: f"{where}: attempt is over")
                ready = min(ended[k], c.t_closed or ended[k])
                # (the agent may have given up on it a moment before)
                ready = c.t_register or c.t_accept if how.startswith("wrong") or how in ("register-frame", "close-frame-first") else ready
                state["fails"] += 1
                if c.register:
                    identity(c, first, None, where, cid)
                if how == "wrong-start":
                    md.check(where)
                if rng.random() < 0.3:
                    md.step()
                # However the clock is set.
                m.ctl.set_clock(rng.choice([0, 0, 86400, -86400]))
            else:
                wait_for(lambda: c.phase == "connected" or c.closed, 15 * slack, lambda: f"{where}: registers")
                if c.closed:
                    raise Broken("agent-connection-lost", f"{where}: the agent gave up a good connection: {c.error}")
                identity(c, first, None if c.index and state.get("racy") else list(md.procs), where, cid)
                first = first or c.register
                if (r := c.register["conn"]["group_id"]) != (group or "default"):
                    raise Broken("identity", f"{where}: group {r!r}, told {group!r}")
                works(c, md, where, slack)
                for _ in range(rng.choice([0, 2, 4])):
                    md.step()
                md.check(where)
                state["fails"] = 0
                if how:
                    ready = time.monotonic()
                    lose(c, how)
            if not m.alive():
                raise Broken("manager-died", f"{where}: agent exited {m.p.returncode}: {m.stderr()[-300:]}")
            ck.case(("timing", kind, how, prev, min(state["fails"], 4)), {"attempt": kind, "how": how, "before it": prev, "gap s": round(gap, 3), "expected s": round(want, 3)})
            state["racy"] = kind == "fail"
            if state["racy"] and k + 1 < len(plan) and plan[k + 1][0] == "ok":
                # No changes from now until registration, so that the list is certain.
                pass
        md.finish("at the end")
        time.sleep(0.05)
        if len(srv.conns) != len(plan):
            raise Broken("too-soon", f"connected again ({len(srv.conns)} connections for {len(plan)}) though none was lost")


class Proxy:
    """Forwards bytes between agent and server, cutting where told to."""
    def __init__(self, target, rng):
        self.port, self.target, self.rng = free_port(), target, rng
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", self.port))
        self.s.listen(64)
        self.cuts = []      # what was done, per connection
        self.accepts = []
        self.calm = False
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                a, _ = self.s.accept()
            except OSError:
                return
            self.accepts.append(time.monotonic())
            try:
                b = socket.create_connection(("127.0.0.1", self.target), 5)
            except OSError:
                a.close()
                continue
            cut = None if self.calm else (self.rng.choice(["up", "down"]), int(10 ** self.rng.uniform(0, self.rng.choice([3, 4, 5.5]))), self.rng.choice(["fin", "rst"]), self.rng.choice([0, 0, 0.002]))
            self.cuts.append(cut)
            both = [a, b]
            for d, src, dst in (("up", a, b), ("down", b, a)):
                threading.Thread(target=self.pump, args=(d, src, dst, cut, both), daemon=True).start()

    def pump(self, d, src, dst, cut, both):
        n = 0
        try:
            while True:
                x = src.recv(65536)
                if not x:
                    break
                if cut and cut[0] == d and n + len(x) >= cut[1]:
                    dst.sendall(x[: cut[1] - n])
                    time.sleep(cut[3])
                    if cut[2] == "rst":
                        for s in both:
                            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    break
                dst.sendall(x)
                n += len(x)
        except OSError:
            pass
        for s in both:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            if cut and cut[2] == "rst":
                try:
                    s.close()
                except OSError:
                    pass

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


def cuts(ck, rng, slack):
    """The connection breaks at arbitrary bytes, in either direction, under load."""
    with AgentServer() as srv:
        px = Proxy(srv.port, rng)
        real = srv.port

        class Via:
            port = px.port
        try:
            with agent(ck, Via, serve=True, interval=(0.03, 1.5, 0.1)) as m:
                os.chmod(m.dir, 0o777)
                md = Model(ck, ck.rng("m", rng.random()), m, slack)
                for _ in range(4):
                    md.start()
                first, seen, want = None, 0, rng.choice([15, 30])
                t_end = time.monotonic() + 6 * slack
                while len(px.cuts) < want and time.monotonic() < t_end:
                    if rng.random() < 0.4:
                        md.step()
                    c = srv.conns[-1] if srv.conns else None
                    try:
                        if c and c.phase == "connected" and not c.closed:
                            for k in list(md.procs)[:4]:
                                c.send("ProcResultRequest", proc_id=k)
                            c.send("ProcidListRequest")
                    except (Closed, Hang, OSError):
                        pass
                    time.sleep(0.01)
                    srv.check()
                    if not m.alive():
                        raise Broken("manager-died", f"agent exited {m.p.returncode} after cuts {px.cuts[-3:]}: {m.stderr()[-300:]}")
                    t = px.accepts[-1] if px.accepts else m.t_start
                px.calm = True
                for c in list(srv.conns):
                    if c.register:
                        identity(c, first, None, "amid cuts")
                        first = first or c.register
                # Whatever state it is in, drop it once more, then it must settle.
                for c in srv.conns:
                    c.drop()
                n0 = len(srv.conns)
                c = wait_for(lambda: next((x for x in srv.conns[n0:] if x.phase == "connected" and not x.closed), None), 5 * slack, lambda: f"agent comes back after cuts {px.cuts[-4:]}; {len(srv.conns)} connections")
                identity(c, first, list(md.procs), "after cuts")
                works(c, md, f"after cuts {px.cuts[-3:]}", slack)
                md.finish("after cuts")
                # never two at a time
                ck.seen("connections cut", len([x for x in px.cuts if x]))
                for x in px.cuts:
                    if x:
                        ck.case(("cut", x[0], x[2], len(str(x[1])), x[1] % 97), {"cut direction": x[0], "after bytes": x[1], "how": x[2]})
        finally:
            px.close()


def giving_up(ck, rng, slack):
    """Exactly the configured number of consecutive failures, then an error."""
    count = rng.choice([1, 2, 3, 4, 5, 6])
    start, mult, mx = 0.06, rng.choice([1.0, 2.0]), 0.15
    refuse = rng.random() < 0.3
    good_at = rng.choice([None, 0, count - 1, count - 1, count - 1]) if not refuse else None
    plan = []
    if good_at is not None:
        plan = ["fail"] * good_at + ["ok"]
    hows = [rng.choice(FAIL) for _ in range(20)]

    def policy(c):
        if c.index < len(plan) and plan[c.index] == "ok":
            return ok(c)
        fail(c, hows[c.index % 20])
    with AgentServer(policy, listen=not refuse) as srv:
        with agent(ck, srv, "--connect-count-max", count, serve=False, interval=(start, mult, mx), spec={"specs": {"p": {"argv": ["/bin/sleep", "100"]}}} if rng.random() < 0.5 else None, wait_ready=False) as m:
            if plan:
                c = srv.wait_conn(len(plan) - 1, timeout=10 * slack)
                c.barrier(10 * slack)
                if rng.random() < 0.5:
                    time.sleep(0.1)
                lose(c, rng.choice(["fin", "rst", "close-frame"]))
            t = time.monotonic() if plan else m.t_start
            least = sum(min(start * mult ** j, mx) for j in range(count - 1))
            try:
                rc = m.p.wait(least + 3 * slack)
            except Exception:
                raise Hang(f"still trying after {least + 3 * slack:.1f} s; {len(srv.conns)} attempts, limit {count}")
            d = time.monotonic() - t
            n = len(srv.conns) - len(plan)
            if rc <= 0:
                raise Broken("exit-status", f"gave up with exit status {rc} ({count} attempts allowed, {n} made)")
            if not refuse and n != count:
                raise Broken("attempts", f"{n} failed attempts{' after a success' if plan else ''}, configured {count}: {hows[len(plan):len(plan) + n]}")
            if d < least * 0.9:
                raise Broken("too-soon", f"gave up after {d:.3f} s; {count} attempts take at least {least:.3f} s")
            if not m.stderr().strip():
                raise Broken("no-message", "gave up silently")
            ck.case(("give up", count, refuse, good_at), {"count": count, "refused": refuse, "success first": good_at is not None, "attempts": n, "exit status": rc})


def refused(ck, rng, slack):
    """Nobody listens for a while; then somebody does."""
    start, mult, mx = 0.05, 2.0, 0.2
    with AgentServer(listen=False) as srv, agent(ck, srv, serve=True, interval=(start, mult, mx)) as m:
        os.chmod(m.dir, 0o777)
        md = Model(ck, rng, m, slack)
        first = None
        for rnd in range(rng.choice([1, 2])):
            for _ in range(3):
                md.step()
            time.sleep(rng.choice([0.02, 0.3]))
            n0 = len(srv.conns)
            srv.listen()
            t = time.monotonic()
            c = srv.wait_conn(n0, timeout=mx + 1.0 * slack + 1)
            if c.t_accept - t > mx + 0.5 * slack:
                raise Hang(f"server back, agent came only after {c.t_accept - t:.2f} s; longest interval {mx}")
            identity(c, first, list(md.procs), "server back")
            first = first or c.register
            works(c, md, "server back", slack)
            srv.unlisten()
            lose(c, rng.choice(["fin", "rst", "close-frame"]))
            time.sleep(rng.choice([0, 0.2]))
            md.check("server gone")
            ck.case(("refused", rnd, len(md.procs)), {"server away": "twice" if rnd else "once", "processes kept": len(md.procs)})
        md.finish("at the end")


def main(ck):
    def make(i):
        c = i % 8
        return (f"cuts#{i}", cuts) if c in (1, 5) else (f"giving_up#{i}", giving_up) if c in (2, 6) else (f"refused#{i}", refused) if c == 7 else (f"timing#{i}", timing)
    ck.run_many(make, workers=7, at_least=14)


if __name__ == "__main__":
    run_check("P21", "one connection attempt or loss: how it failed and after what, with the interval to the next attempt, the registration, the process list and the processes themselves judged; "
              "or one cut at a byte of the stream; distinct by kind and position", main, quick_s=18, thorough_s=240)
