"""P22: an agent's shutdown completes, and is announced, in any connection state."""
import os, random, signal, socket, ssl, threading, time
from core import *
from mgr import *
from agentsrv import *

GRACE, LAST, STOP = 60.0, 5.0, 5.0
ORDER = ["active", "idling", "done"]
NEVER = (600.0, 2.0, 6000.0)    # a retry that is never due


def hold(c):
    """Neither reads nor writes nor hangs up."""
    c.reached.set()
    while not c.closed and not c.srv.closing:
        time.sleep(0.01)


def tls_partial(c, frac):
    inb, outb = ssl.MemoryBIO(), ssl.MemoryBIO()
    o = c.srv.ctx.wrap_bio(inb, outb, server_side=True)
    while True:
        inb.write(c.raw.recv(65536))
        try:
            o.do_handshake()
        except ssl.SSLWantReadError:
            pass
        d = outb.read()
        if d:
            c.raw.sendall(d[: max(1, int(len(d) * frac))])
            return hold(c)


def up_to(c, phase, rng):
    """Brings connection `c` to `phase` and keeps it there."""
    if phase == "accepted":
        return hold(c)
    if phase == "tls-partial":
        return tls_partial(c, rng.random())
    c.start_tls()
    if phase == "tls":
        return hold(c)
    c.read_request()
    if phase == "request":
        return hold(c)
    a = c.answer()
    if phase == "half-answer":
        c.send_raw(a[: rng.randrange(1, len(a))])
        return hold(c)
    c.send_raw(a)
    if phase == "upgraded":
        return hold(c)
    c.read_register()
    if phase == "registering":
        return hold(c)
    if phase == "half-registered":
        f = Conn.frame(2, msgpack.packb({"type": "Registered"}))
        c.send_raw(f[: rng.randrange(1, len(f))])
        return hold(c)
    c.send("Registered")
    if phase == "half-frame":
        c.send_raw(Conn.frame(2, b"x" * 5000)[: rng.randrange(1, 5000)])
    if phase == "flood":
        def flood():
            try:
                while not c.closed:
                    c.send("ProcidListRequest")
                    c.send("ProcResultRequest", proc_id="nobody")
            except (Closed, Hang):
                pass
        threading.Thread(target=flood, daemon=True).start()
    c.reached.set()
    if phase == "mute":
        # Reads, but neither answers a close nor hangs up.
        c.send_raw = lambda *a, **k: None
        try:
            c.loop()
        except Closed:
            c.over = True
            return hold(c)
    c.loop()


SILENT = ["accepted", "tls-partial", "tls", "request", "half-answer", "upgraded", "registering", "half-registered"]
LIVE = ["connected", "connected", "half-frame", "flood", "mute"]
AWAY = ["retry", "refused", "backlog", "lookup", "lost"]
MODES = ["TERM", "TERM", "INT", "QUIT", "QUIT", "USR1", "USR1+delete", "USR1+delete", "USR1+TERM", "wait", "exit"]


def states(c):
    return ([c.register["shutdown_state"]] if c.register else []) + [m["shutdown_state"] for m in c.msgs("ShutDown")]


def coherent(c, where):
    s = states(c)
    if any(x not in ORDER for x in s) or [ORDER.index(x) for x in s] != sorted(ORDER.index(x) for x in s):
        raise Broken("announcements", f"{where}: shutdown states told on one connection: {s}")
    if s.count("done") > 1 or c.register and c.frames[0][1]["type"] != "Register":
        raise Broken("announcements", f"{where}: {s}")


def refuses(m):
    """Does it refuse new processes?  (Cleans up if not.)"""
    if m.post({"x": {"argv": ["/bin/true"]}}).status != 200:
        return True
    m.wait_done("x")
    m.delete("x")


def shut(ck, rng, slack):
    """One shutdown, in one phase."""
    phase = rng.choice(SILENT + LIVE * 2 + ["stalled", "stalled"] + AWAY)
    mode = rng.choice(MODES)
    procs = rng.choice(["none", "meek", "meek", "deaf", "done"]) if mode not in ("wait", "exit") else rng.choice(["meek", "done"])
    if mode == "USR1":
        procs = "none"
    if mode == "USR1+delete" and procs in ("none", "deaf"):
        procs = "done"
    deaf = procs == "deaf" and mode in ("TERM", "INT", "USR1+TERM")
    records = procs != "none"
    owed = (GRACE if deaf else 0) + (LAST if records and mode in ("TERM", "INT", "QUIT", "USR1+TERM") else 0)
    owed += STOP if phase in ("stalled", "mute") else 0
    scale = rng.choice([20, 30]) if owed > 0.5 else rng.choice([None, None, 20])
    where = f"{phase}, {mode}, processes {procs}"
    lookup = phase == "lookup"
    lsock, fill = None, []
    policy = lambda c: (setattr(c, "reached", threading.Event()), up_to(c, phase if phase in SILENT + LIVE else "connected", rng))
    if phase in ("retry", "lost"):
        def policy(c):
            c.reached = threading.Event()
            if phase == "retry" or c.index:
                if phase == "retry":
                    c.start_tls()
                return c.drop(rst=rng.random() < 0.5)
            up_to(c, "connected", rng)
    spec = {}
    with AgentServer(policy, listen=phase not in ("refused", "backlog"), rcvbuf=4096 if phase == "stalled" else None) as srv:
        if phase == "backlog":
            lsock = socket.socket()
            lsock.bind(("127.0.0.1", srv.port))
            lsock.listen(0)
            for _ in range(4):
                s = socket.socket()
                s.setblocking(False)
                s.connect_ex(("127.0.0.1", srv.port))
                fill.append(s)
            time.sleep(0.02)
        probe = str(ck.probe)
        gate = ck.scratch / f"g{rng.getrandbits(60):x}"
        # Records made before the agent connects.
        if procs == "meek":
            spec = {"p": {"argv": [probe, "pause"]}} if mode not in ("exit",) else {"p": {"argv": [probe, f"waitfile={gate}"]}}
        elif procs == "deaf":
            spec = {"p": {"argv": [probe, "ign=15", "pause"]}}
        elif procs == "done":
            spec = {"p": {"argv": [probe, f"waitfile={gate}"] if mode == "exit" else [probe]}}
        if phase == "stalled":
            spec["big"] = {"argv": [probe, "w=1:3000000:1:0"], "fds": [["stdout", cap("memory")]]}
            records = True
        if phase == "stalled" and mode in ("USR1",):
            where += " (big record)"
        args = ["--wait"] if mode == "wait" else ["--exit"] if mode == "exit" else []
        serve = phase in ("refused", "backlog", "lookup", "retry") or mode in ("wait", "USR1+delete") or "deaf" in procs or rng.random() < 0.4 or phase == "stalled"
        with agent(ck, srv, *args, serve=serve, spec={"specs": spec} if spec else None, interval=NEVER, scale=scale, seed=rng.getrandbits(30), wait_ready=False,
                   extra_env={}) as m:
            if lookup:
                m.ctl.delay("lookup", 40_000_000)
            m.cleanup = gate
            if serve:
                m.wait_ready(20 * slack)
            c = None
            if phase in SILENT + LIVE + ["stalled"]:
                c = wait_for(lambda: srv.conns and srv.conns[0], 15 * slack, f"{where}: agent connects")
                wait_for(lambda: getattr(c, "reached", None) and c.reached.is_set() or c.closed, 15 * slack, f"{where}: phase reached")
                if c.closed:
                    srv.check()
                    raise Broken("agent-connection-lost", f"{where}: {c.error}")
            elif phase == "lookup":
                wait_for(lambda: any(e[2] == "lookup" for e in m.events()), 15 * slack, "agent looks its server up")
            elif phase == "retry":
                c0 = wait_for(lambda: srv.conns and srv.conns[0].t_closed and srv.conns[0], 15 * slack, "an attempt fails")
                time.sleep(0.05)
            elif phase == "lost":
                c0 = srv.wait_conn(0, timeout=15 * slack)
                c0.barrier(15 * slack)
                c0.drop(rst=rng.random() < 0.5)
                wait_for(lambda: len(srv.conns) > 1 and srv.conns[1].closed, 15 * slack, "the next attempt fails")
                time.sleep(0.05)
            else:
                time.sleep(0.1)
            if phase in ("connected", "flood"):
                c.barrier(20 * slack)
            if procs in ("deaf", "done") and serve:
                wait_for(lambda: m.list()["p"]["state"] != "running" or procs == "deaf" or mode == "exit", 10 * slack, "process ends")
            if procs == "deaf":
                time.sleep(0.05)
            if phase == "stalled":
                c.barrier(20 * slack)
                wait_for(lambda: m.list()["big"]["state"] != "running", 20 * slack, "output is complete")
                c.stalled = True
                # Requests whose replies cannot all be sent.
                for _ in range(20):
                    c.send("ProcResultRequest", proc_id="big")
                time.sleep(0.1)
            if not m.alive():
                raise Broken("manager-died", f"{where}: exited {m.p.returncode} before the signal: {m.stderr()[-300:]}")
            time.sleep(rng.choice([0, 0, 0.005, 0.03, 0.1]))

            # Now shut it down.
            silent_big = phase == "stalled"
            t = time.monotonic()
            if mode in ("TERM", "INT", "QUIT", "USR1"):
                os.kill(m.pid, {"TERM": 15, "INT": 2, "QUIT": 3, "USR1": 10}[mode])
                if mode == "USR1" and silent_big:
                    wait_for(lambda: refuses(m), 10 * slack, f"{where}: starts are refused")
                    t = time.monotonic()
                    m.delete("big")
                elif mode == "QUIT" and silent_big or mode in ("TERM", "INT") and silent_big:
                    owed += 0 if records and owed >= LAST + STOP else LAST
            elif mode == "USR1+TERM":
                os.kill(m.pid, 10)
                time.sleep(rng.choice([0, 0.02]))
                if records:
                    if not m.alive():
                        raise Broken("early-exit", f"{where}: exited with records left")
                    t = time.monotonic()
                if m.alive():
                    os.kill(m.pid, 15)
            elif mode == "USR1+delete":
                os.kill(m.pid, 10)
                if procs == "meek":
                    time.sleep(0.05)
                    m.signal("p", 9)
                    m.wait_done("p")
                wait_for(lambda: refuses(m), 10 * slack, f"{where}: starts are refused")
                if not m.alive():
                    raise Broken("early-exit", f"{where}: exited with records left")
                if silent_big:
                    m.delete("big")
                t = time.monotonic()
                m.delete("p")
            elif mode == "wait":
                if procs == "meek":
                    m.signal("p", 9)
                m.wait_done("p")
                if silent_big:
                    m.delete("big")
                t = time.monotonic()
                m.delete("p")
            elif mode == "exit":
                gate.touch()
                os.chmod(gate, 0o666)
                if procs == "meek" or True:
                    pass
            bound = owed / (scale or 1) + 1.2 * slack
            rc = None
            try:
                rc = m.p.wait(max(0.1, t + bound - time.monotonic()))
            except Exception:
                raise Hang(f"{where}: agent has not exited {bound:.2f} s after the request (grace periods {owed:g} s at {scale or 1} times the clock)")
            took = time.monotonic() - t
            gate.unlink(missing_ok=True)
            if rc != 0:
                raise Broken("exit-status", f"{where}: exit status {rc}: {m.stderr()[-400:]}")
            if mode not in ("wait", "exit") and [p for p, v in m.descendants().items() if v[1] != "Z" and v[0] in (1, m.pid)]:
                raise Broken("left-behind", f"{where}: {m.descendants()}")
            if c and phase in ("connected", "flood", "mute"):
                wait_for(lambda: c.closed or getattr(c, "over", False), 10 * slack, "connection ends with the agent")
                if isinstance(c.error, Broken):
                    raise c.error
                coherent(c, where)
                s = states(c)
                want = [["active", "done"]] if mode in ("wait", "exit") else [["active", "idling", "done"]] + ([["active", "idling", "idling", "done"]] if mode == "USR1+TERM" else [])
                if s not in want:
                    raise Broken("announcements", f"{where}: told {s}, expected {want[0]}")
                kinds = [(x["type"], x.get("proc_id"), x.get("shutdown_state"), (x.get("res") or {}).get("state")) for _, x in c.frames]
                end = next(i for i, x in enumerate(kinds) if x[2] == "done" and x[0] == "ShutDown")
                if mode in ("USR1+delete", "wait") and ("ProcDelete", "p", None, None) not in kinds[:end]:
                    raise Broken("announcements", f"{where}: deletion not told before 'done'")
                if procs in ("meek", "deaf") and mode != "exit" and not any(x[0] == "ProcResult" and x[1] == "p" and x[3] == "terminated" for x in kinds[:end]):
                    raise Broken("announcements", f"{where}: the end of the process not told before 'done'")
                ck.seen("announcements checked", len(s))
            for x in srv.conns:
                if x.register:
                    coherent(x, where)
            srv.check()
            if len(srv.conns) > (2 if phase == "lost" else 1):
                raise Broken("reconnect", f"{where}: {len(srv.conns)} connections")
            ck.case((phase, mode, procs), {"phase": phase, "request": mode, "processes": procs, "grace due s": owed, "clock x": scale or 1, "exit after s": round(took, 3)})
        for s in fill + [lsock] * (lsock is not None):
            s.close()


def sweep(ck, rng, slack):
    """The signal falls at a random moment of a jittery handshake."""
    mode = rng.choice(["TERM", "QUIT", "USR1"])
    jit = rng.choice([0, 0.001, 0.01])
    lose_p = rng.choice([0, 0.3])

    def policy(c):
        r = random.Random(c.index)
        z = lambda: time.sleep(r.random() * jit)
        z()
        if c.index % 3 == 2 and lose_p:
            return c.drop()
        c.start_tls()
        z()
        c.read_request()
        c.send_raw(c.answer())
        z()
        c.read_register()
        z()
        c.t_told = time.monotonic()
        c.send("Registered")
        if lose_p and r.random() < 0.5:
            z()
            return c.drop()
        c.loop()
    with AgentServer(policy) as srv, agent(ck, srv, interval=(0.002, 1.0, 0.002), seed=rng.getrandbits(30), wait_ready=False) as m:
        c = wait_for(lambda: srv.conns and srv.conns[0], 15 * slack, "agent connects")
        if lose_p and rng.random() < 0.6:
            n = rng.randrange(1, 5)
            wait_for(lambda: len(srv.conns) > n or srv.conns[-1].phase == "connected", 15 * slack, "agent comes back")
        time.sleep(rng.random() * rng.choice([0.002, 0.01, 0.04]))
        srv.check()
        t = time.monotonic()
        if not m.alive():
            raise Broken("manager-died", f"exited {m.p.returncode}: {m.stderr()[-300:]}")
        os.kill(m.pid, {"TERM": 15, "QUIT": 3, "USR1": 10}[mode])
        bound = 1.2 * slack
        try:
            rc = m.p.wait(bound)
        except Exception:
            raise Hang(f"{mode} in phase {srv.conns[-1].phase} of connection {len(srv.conns) - 1}: not over in {bound:.2f} s")
        if rc != 0:
            raise Broken("exit-status", f"{mode}: exit status {rc}: {m.stderr()[-400:]}")
        end = time.monotonic()
        c = srv.conns[-1]
        wait_for(lambda: all(x.closed for x in srv.conns), 10 * slack, "connections end with the agent")
        srv.check()
        for x in srv.conns:
            if x.register:
                coherent(x, f"{mode}, jittery")
                if x.t_accept > t and states(x)[0] == "active" and x.t_accept - t > 0.5:
                    raise Broken("stale-register", f"{mode}: registered as active {x.t_accept - t:.3f} s after the signal")
        # Told on a live connection: registered well before the signal.
        tt = getattr(c, "t_told", None)
        sure = tt is not None and t - tt > 0.25 and not lose_p
        if sure or c.register and len(states(c)) > 1:
            if states(c)[-1] != "done":
                raise Broken("announcements", f"{mode}, jittery: last told {states(c)}")
            ck.seen("announcements checked")
        ck.case(("sweep", mode, c.phase, len(states(c)), len(srv.conns)), {"signal": mode, "found the connection": c.phase, "connections": len(srv.conns), "told": states(c)})


def grace(ck, rng, slack):
    """Connections are lost and made while shutdown is under way."""
    how = rng.choice(["USR1", "USR1", "TERM"])
    scale = 20 if how == "TERM" else None
    with AgentServer() as srv:
        with agent(ck, srv, serve=True, interval=(0.03, 1.0, 0.03), scale=scale, seed=rng.getrandbits(30)) as m:
            os.chmod(m.dir, 0o777)
            got = m.dir / "got"
            rd = m.dir / "ready"
            n_extra = rng.choice([0, 2])
            m.start({"late": sp(m, f"log=15:{got}", f"touch={rd}", f"waitfile={got}", "us=1200000", "exit=7") if how == "TERM" else sp(m, "pause"), **{f"e{i}": {"argv": ["/bin/true"]} for i in range(n_extra)}})
            if how == "TERM":
                wait_for(rd.exists, 10 * slack, "process is ready")
            c = srv.wait_conn(0, timeout=15 * slack)
            c.barrier()
            if rng.random() < 0.3:
                srv.unlisten()
                c.drop()
                os.kill(m.pid, 10 if how == "USR1" else 15)
                wait_for(lambda: refuses(m), 10 * slack, "starts are refused")
                srv.listen()
            else:
                os.kill(m.pid, 10 if how == "USR1" else 15)
                c.wait(lambda x: x["type"] == "ShutDown" and x["shutdown_state"] == "idling", 10 * slack, 0, "'idling' is announced")
            known = time.monotonic()
            n = 0
            while n < (rng.choice([2, 5]) if how == "USR1" else 3):
                if how == "TERM" and time.monotonic() - known > 0.6:
                    break
                cur = srv.conns[-1]
                if cur.t_accept > known or rng.random() < 0.8:
                    k = len(srv.conns)
                    cur.drop(rst=rng.random() < 0.5)
                    if rng.random() < 0.3:
                        srv.unlisten()
                        time.sleep(0.1)
                        srv.listen()
                    cur = wait_for(lambda: len(srv.conns) > k and srv.conns[-1].phase == "connected" and srv.conns[-1], 10 * slack, "agent comes back")
                    if cur.register["shutdown_state"] != "idling":
                        raise Broken("stale-register", f"{how}: registered as {cur.register['shutdown_state']!r} while idling")
                    want = ["late"] + [f"e{i}" for i in range(n_extra)]
                    if sorted(cur.register["proc_ids"]) != sorted(want):
                        raise Broken("register-list", f"{how}: {cur.register['proc_ids']} instead of {want}")
                    cur.barrier(10 * slack)
                    ck.seen("registrations while idling")
                n += 1
            cur = wait_for(lambda: srv.conns[-1].phase == "connected" and not srv.conns[-1].closed and srv.conns[-1], 10 * slack, "agent comes back")
            t = time.monotonic()
            if how == "USR1":
                cur.request("ProcSignalRequest", lambda x: x["type"] == "ProcResult" and x["proc_id"] == "late" and x["res"]["state"] == "terminated", 10 * slack, proc_id="late", signum=9)
                for k in list(m.list()):
                    cur.send("ProcDeleteRequest", proc_id=k)
            bound = (1.2 + LAST / scale if scale else 0) + 1.2 * slack
            try:
                rc = m.p.wait(bound)
            except Exception:
                raise Hang(f"{how} with {n} reconnections: not over in {bound:.2f} s")
            if rc != 0:
                raise Broken("exit-status", f"{how}: exit status {rc}: {m.stderr()[-400:]}")
            wait_for(lambda: all(x.closed for x in srv.conns), 10 * slack, "connections end with the agent")
            srv.check()
            for x in srv.conns:
                if x.register:
                    coherent(x, how)
            if states(cur)[-1] != "done":
                raise Broken("announcements", f"{how} with {n} reconnections: last told {states(cur)}")
            ck.seen("announcements checked", len(states(cur)))
            ck.case(("grace", how, n, n_extra), {"request": how, "reconnections meanwhile": n, "told at last": states(cur)})


def main(ck):
    def make(i):
        c = i % 8
        return (f"sweep#{i}", sweep) if c in (1, 4, 6) else (f"grace#{i}", grace) if c == 3 else (f"shut#{i}", shut)
    ck.run_many(make, workers=8, at_least=24)


if __name__ == "__main__":
    run_check("P22", "one shutdown of an agent: by what request, in which phase of its connection, with which processes; exit time, exit status and announced states judged; "
              "distinct by these three", main, quick_s=16, thorough_s=240)
