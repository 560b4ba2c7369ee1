"""P24: the Python agent server tracks agents and processes truthfully."""
import asyncio, collections, random, socket, threading, time
from core import *
from mgr import *
from agentsrv import Closed, Hang
import agentsrv
from pysrv import PyServer, RefAgent, pexc, pproc

ENDS = ("end", "unknown", "timeout")


async def consume(proc, log, impatient):
    """Logs everything the stream of updates yields or raises."""
    while True:
        try:
            if impatient:
                try:
                    u = await asyncio.wait_for(anext(proc.updates), impatient)
                except asyncio.TimeoutError:
                    continue
            else:
                u = await anext(proc.updates)
        except StopAsyncIteration:
            log.append(("end",))
            return
        except pexc.ProcessUnknownError as e:
            log.append(("unknown",) if e.proc_id == proc.proc_id else ("unknown of", e.proc_id))
            return
        except pproc.ConnectionTimeoutError as e:
            log.append(("timeout",) if e.conn_id == proc.conn_id else ("timeout of", e.conn_id))
            return
        except pproc.AgentMessageError as e:
            log.append(("error", e.err))
            continue
        except asyncio.CancelledError:
            raise
        except BaseException as e:
            log.append(("raised", repr(e)))
            return
        if isinstance(u, pproc.Result):
            log.append(("result", u.n, u.procstar.conn.conn_id))
        elif isinstance(u, pproc.FdData):
            log.append(("data", u.fd, u.interval.start, u.interval.stop, u.encoding, u.data))
        else:
            log.append(("other", repr(u)))


class Watch:
    """Consumers for every Process object ever seen in the server's table."""
    def __init__(self, srv, rng):
        self.srv, self.rng = srv, rng
        self.logs = {}      # id(obj) -> (obj, log)
        self.told, self.gone = collections.Counter(), collections.Counter()   # what subscribers hear, by connection
        srv.do(lambda: asyncio.ensure_future(self.listen()))

    async def listen(self):
        with self.srv.server.connections.subscription() as sub:
            async for k, c in sub:
                if c is None:
                    self.gone[k] += 1
                else:
                    self.told[k] += 1

    def attach(self):
        """Runs in the loop's thread."""
        for p in list(self.srv.server.processes.values()):
            self.add(p)

    def add(self, p):
        if id(p) not in self.logs:
            log = []
            self.logs[id(p)] = (p, log)
            asyncio.ensure_future(consume(p, log, self.rng.choice([None, None, 0.003])))
        return self.logs[id(p)][1]

    def snap(self):
        def f():
            self.attach()
            s = self.srv.server
            return ({k: (c.info.conn.group_id, c.open, c.shutdown_state.name, c.info.proc.pid, c.info.stats.num_connections, c.info.stats.connected) for k, c in s.connections.items()},
                    {k: (p.conn_id, id(p)) for k, p in s.processes.items()},
                    {g: sorted(v) for g, v in s.connections.groups.items()})
        return self.srv.do(f)


class MProc:
    def __init__(self, pid, cid):
        self.pid, self.cid = pid, cid
        self.items, self.obj, self.over = [], None, False


class MAgent:
    """What an agent knows of itself."""
    def __init__(self, cid, group):
        self.cid, self.group = cid, group
        self.sock, self.state, self.ids, self.old = None, "active", {f"bar/{cid}"}, []
        self.inst = 1


class World:
    """The model, the server and the agents."""
    def __init__(self, ck, rng, srv, slack, rt):
        self.ck, self.rng, self.srv, self.slack, self.rt = ck, rng, srv, slack, rt
        self.watch = Watch(srv, rng)
        self.conns = {}     # cid -> dict(group, open, state, inst, n)
        self.procs = {}     # pid -> MProc
        self.all = []
        self.agents = []
        self.n = 0
        self.ops = []
        self.away = {}      # cid -> time of loss
        self.told, self.gone = collections.Counter(), collections.Counter()     # changes subscribers must hear of

    def seq(self):
        self.n += 1
        return self.n

    def where(self):
        return " | ".join(self.ops[-7:])

    def wait(self, pred, what, timeout=8):
        return wait_for(pred, timeout * self.slack, lambda: f"{what} after {self.where()}")

    # -- model ------------------------------------------------------------
    def create(self, pid, cid):
        p = self.procs[pid] = MProc(pid, cid)
        self.all.append(p)
        return p

    def finish(self, pid, how):
        p = self.procs.pop(pid)
        p.items.append((how,))
        p.over = True

    def live(self):
        return [a for a in self.agents if a.sock]

    # -- comparison -------------------------------------------------------
    def settle(self):
        """Server and model agree, in every detail."""
        want_c = {k: (c["group"], c["open"], c["state"], c["inst"], c["n"], c["open"]) for k, c in self.conns.items()}
        want_p = {k: p.cid for k, p in self.procs.items()}
        want_g = {}
        for k, c in self.conns.items():
            want_g.setdefault(c["group"], []).append(k)
        want_g = {g: sorted(v) for g, v in want_g.items()}
        last = [None]

        def agree():
            c, p, g = self.watch.snap()
            diff = []
            if c != want_c:
                diff.append(f"connections {sorted(set(c.items()) - set(want_c.items()))} instead of {sorted(set(want_c.items()) - set(c.items()))}")
            if {k: v[0] for k, v in p.items()} != want_p:
                diff.append(f"processes {sorted(set((k, v[0]) for k, v in p.items()) ^ set(want_p.items()))}")
            if g != want_g:
                diff.append(f"groups {g} instead of {want_g}")
            t = {k: (self.watch.told[k], n) for k, n in self.told.items() if self.watch.told[k] < n}
            if t or self.watch.gone != self.gone:
                diff.append(f"changes told to subscribers {t}, connections dropped {dict(self.watch.gone)} instead of {dict(self.gone)}")
            if not diff:
                for k, m in self.procs.items():
                    if m.obj is None:
                        m.obj = p[k][1]
                    elif m.obj != p[k][1]:
                        diff.append(f"process {k!r} was replaced")
                for m in self.all:
                    if m.obj is not None:
                        log = self.watch.logs[m.obj][1]
                        if log != m.items:
                            diff.append(f"updates of {m.pid!r}: {log[-4:]} instead of {m.items[-4:]}, {len(log)} and {len(m.items)} in all")
                if len(self.watch.logs) != len([m for m in self.all if m.obj]):
                    seen = {m.obj for m in self.all}
                    diff.append(f"unexpected processes {[o.proc_id for i, (o, _) in self.watch.logs.items() if i not in seen]}")
            last[0] = diff
            return not diff
        try:
            wait_for(agree, 4 * self.slack, "agreement")
        except Hang:
            if self.slack == 1:
                raise Hang(f"server and agents disagree: {last[0]} after {self.where()}")
            raise Broken("disagreement", f"{'; '.join(last[0])} after {self.where()}")
        if self.srv.errors:
            raise Broken("server-error", f"{self.srv.errors[:2]} after {self.where()}")
        for a in self.live():
            if a.sock.closed is not None:
                raise Broken("server-dropped", f"{a.cid}'s connection was dropped ({a.sock.closed}, {a.sock.control}) after {self.where()}")

    def barrier(self, a):
        """Everything `a` sent on its current socket has been handled."""
        pid = f"bar/{a.cid}"
        m = self.procs[pid]
        n = self.seq()
        a.sock.send("ProcResult", proc_id=pid, res={"n": n, "state": "running"})
        m.items.append(("result", n, a.cid))
        if m.obj is None:
            self.settle()
        log = self.watch.logs[m.obj][1]
        self.wait(lambda: log and log[-1] == m.items[-1] or a.sock.closed is not None, f"{a.cid}: server handles its messages")

    # -- operations -------------------------------------------------------
    def register(self, a, supersede=False):
        """Connects `a`, which lists what it has."""
        rng = self.rng
        old = a.sock
        s = RefAgent(self.srv.port)
        if old is not None and a.state == "active" and rng.random() < 0.1:
            # It was told to shut down, meanwhile.
            a.state = "idling"
            self.ops.append(f"{a.cid}: idling when it returns")
        if rng.random() < 0.1:
            s.send_frame(9, b"?")
        s.register(a.cid, group=a.group, proc_ids=rng.sample(sorted(a.ids), len(a.ids)), state=a.state, pid=a.inst)
        s.wait_registered(8 * self.slack)
        a.sock = s
        if old is not None:
            a.old.append(old)
        c = self.conns.get(a.cid)
        if c is None:
            c = self.conns[a.cid] = {"group": a.group, "n": 0}
        c.update(open=True, state=a.state, inst=a.inst, n=c["n"] + 1)
        self.told[a.cid] += 1
        self.away.pop(a.cid, None)
        mine = {k for k, p in self.procs.items() if p.cid == a.cid}
        foreign = {k for k, p in self.procs.items() if p.cid != a.cid}
        for k in mine - a.ids:
            self.finish(k, "unknown")
        for k in sorted(a.ids - mine - foreign):
            self.create(k, a.cid)
        want = sorted(mine & a.ids)
        self.wait(lambda: len([m for m in s.msgs if m["type"] == "ProcResultRequest"]) >= len(want) or s.closed is not None, f"{a.cid}: requests for results of {want}")
        self.settle()
        got = sorted(m["proc_id"] for m in s.msgs if m["type"] == "ProcResultRequest")
        if got != want:
            raise Broken("reconcile", f"{a.cid}: server asked for results of {got}, both know {want}, after {self.where()}")
        for k in want:
            if rng.random() < 0.7:
                self.result(a, k)
        self.barrier(a)
        self.ck.seen("registrations")

    def owned(self, a):
        return [k for k in sorted(a.ids) if k in self.procs and self.procs[k].cid == a.cid]

    def result(self, a, k):
        n = self.seq()
        a.sock.send("ProcResult", proc_id=k, res={"n": n, "state": self.rng.choice(["running", "terminated"])})
        if k in self.procs and self.procs[k].cid != a.cid:
            return
        if k not in self.procs:
            self.create(k, a.cid)
        self.procs[k].items.append(("result", n, a.cid))

    def data(self, a, k):
        n = self.seq()
        enc = self.rng.choice([None, "utf-8"])
        d = f"d{n}" if enc else f"d{n}".encode()
        a.sock.send("ProcFdData", proc_id=k, fd=f"fd{n}", start=n, stop=n + 5, encoding=enc, data=d)
        if k in self.procs and self.procs[k].cid != a.cid:
            return
        if k not in self.procs:
            self.create(k, a.cid)
        self.procs[k].items.append(("data", f"fd{n}", n, n + 5, enc, d))

    def delete(self, a, k, how="ProcDelete"):
        a.sock.send(how, proc_id=k)
        if k in self.procs and self.procs[k].cid == a.cid:
            self.finish(k, "end" if how == "ProcDelete" else "unknown")
        a.ids.discard(k)

    def message(self, a):
        """One or more messages from agent `a`."""
        rng = self.rng
        bar = f"bar/{a.cid}"
        for _ in range(rng.choice([1, 1, 3, 12])):
            own = [k for k in self.owned(a) if k != bar]
            k = rng.choice(own) if own else None
            what = rng.choice(["result", "result", "data", "delete", "delete", "unknown", "new", "list", "again", "nobody", "foreign", "error", "error-nobody", "register"])
            if what == "new" and len(a.ids) < 9:
                k = f"n{self.seq()}"
                a.ids.add(k)
                rng.choice([self.result, self.data])(a, k)
            elif what == "list":
                new = f"l{self.seq()}"
                if len(a.ids) < 9:
                    a.ids.add(new)
                a.sock.send("ProcidList", proc_ids=sorted(a.ids))
                for k in sorted(a.ids):
                    if k not in self.procs:
                        self.create(k, a.cid)
            elif what == "nobody":
                self.delete(a, f"nobody{rng.randrange(4)}", rng.choice(["ProcDelete", "ProcUnknown"]))
            elif what == "foreign":
                others = [k for k, p in self.procs.items() if p.cid != a.cid]
                if others:
                    k = rng.choice(others)
                    f = rng.choice(["result", "data", "ProcDelete", "ProcUnknown", "error"])
                    what += " " + f
                    if f == "error":
                        a.sock.send("RequestError", msg={"type": "ProcSignalRequest", "proc_id": k, "signum": 1}, err="not mine")
                    elif f in ("result", "data"):
                        getattr(self, f)(a, k)
                    else:
                        a.sock.send(f, proc_id=k)
            elif what == "error-nobody":
                a.sock.send("RequestError", msg=rng.choice([{"type": "ProcSignalRequest", "proc_id": f"nobody{rng.randrange(4)}", "signum": 99}, {"type": "ProcidListRequest"}, {"type": "Registered"}]), err="nobody's")
            elif what == "register":
                a.sock.register(a.cid, group=a.group, proc_ids=[], state="active")
            elif k is not None:
                if what == "result":
                    self.result(a, k)
                elif what == "data":
                    self.data(a, k)
                elif what in ("delete", "unknown"):
                    self.delete(a, k, {"delete": "ProcDelete", "unknown": "ProcUnknown"}[what])
                    if rng.random() < 0.3:
                        self.delete(a, k, rng.choice(["ProcDelete", "ProcUnknown"]))
                elif what == "again":
                    self.delete(a, k)
                    a.ids.add(k)
                    self.result(a, k)
                elif what == "error":
                    e = f"e{self.seq()}"
                    a.sock.send("RequestError", msg=rng.choice([{"type": "ProcSignalRequest", "proc_id": k, "signum": 99}, {"type": "ProcFdDataRequest", "proc_id": k, "fd": "x", "start": 0, "stop": None}]), err=e)
                    self.procs[k].items.append(("error", e))
            self.ops.append(f"{a.cid}: {what} {k or ''}")
            self.ck.seen("agent messages")
        self.barrier(a)

    def lose(self, a):
        how = self.rng.choice(["close", "fin", "rst", "half"])
        s, a.sock = a.sock, None
        self.ops.append(f"{a.cid}: lost by {how}")
        if how == "close":
            s.close(self.rng.choice([1000, 1001, 1011]))
        elif how == "half":
            s.send_raw(s.frame(2, b"x" * 50)[:20])
            s.drop(rst=False)
        else:
            s.drop(rst=how == "rst")
        self.conns[a.cid]["open"] = False
        self.away[a.cid] = time.monotonic()
        self.pending_close(a)

    def pending_close(self, a):
        try:
            self.wait(lambda: not self.srv.do(lambda: self.srv.server.connections[a.cid].open), f"{a.cid}: loss is noticed")
        except KeyError:
            raise Broken("disagreement", f"{a.cid} was dropped at once, reconnect timeout {self.rt}, after {self.where()}")
        self.settle()

    def offline(self, a):
        """Things change while nobody is told."""
        rng = self.rng
        for _ in range(rng.choice([0, 1, 3])):
            if rng.random() < 0.5 and len(a.ids) < 9:
                a.ids.add(f"o{self.seq()}")
            else:
                x = [k for k in sorted(a.ids) if not k.startswith("bar/")]
                if x:
                    a.ids.discard(rng.choice(x))
        if rng.random() < 0.1:      # a new instance, with no processes
            a.inst += 1
            a.ids = {f"bar/{a.cid}"}
            a.state = "active"

    def expire(self):
        """Whoever is away stays away too long."""
        for cid, t0 in sorted(self.away.items(), key=lambda x: x[1]):
            self.ops.append(f"{cid}: stays away")

            def gone():
                return self.srv.do(lambda: cid not in self.srv.server.connections)
            end = t0 + self.rt * 0.9 - 0.02
            while True:
                early = gone()
                if time.monotonic() >= end:
                    break
                if early:
                    raise Broken("dropped-early", f"{cid} dropped {time.monotonic() - t0:.3f} s after its loss, timeout {self.rt} s, after {self.where()}")
                time.sleep(0.02)
            # (Not twice that late, either.)
            limit = self.rt * 1.8
            while not gone():
                if time.monotonic() - t0 > limit and not gone():
                    raise Hang(f"{cid}: not dropped {time.monotonic() - t0:.2f} s after its loss, timeout {self.rt} s, after {self.where()}")
                time.sleep(0.01)
            del self.away[cid]
            del self.conns[cid]
            self.gone[cid] += 1
            for k in [k for k, p in self.procs.items() if p.cid == cid]:
                self.finish(k, "timeout")
            self.ck.seen("connections timed out")
        self.settle()

    def supersede(self, a):
        """Connects again while the old socket lingers, with something to say."""
        rng = self.rng
        old = a.sock
        old.answer_close = rng.random() < 0.4
        old.paused = rng.random() < 0.3
        self.offline(a)
        self.ops.append(f"{a.cid}: connects again")
        self.register(a, True)
        gone = rng.random() < 0.25
        if gone:
            # The new socket is lost, too.
            self.lose(a)
        late = rng.choice(["ShutDown", "ShutDown", "ProcDelete", "ProcUnknown", "ProcResult", "nothing", "close", "junk"])
        self.ops.append(f"{a.cid}: its old socket: {late}")
        k = rng.choice(sorted(a.ids))
        try:
            if late == "ShutDown":
                old.send("ShutDown", shutdown_state=rng.choice(["done", "idling"]))
            elif late in ("ProcDelete", "ProcUnknown"):
                old.send(late, proc_id=k)
            elif late == "ProcResult":
                old.send("ProcResult", proc_id=k, res={"n": -1, "state": "running"})
            elif late == "junk":
                old.send_frame(2, b"\xc1")
            elif late == "close":
                old.close()
            time.sleep(rng.choice([0, 0.005, 0.03]))
        except (Closed, Hang):
            pass
        if not old.paused and late == "nothing":
            self.wait(lambda: old.closed is not None or any(o == 8 for _, o, _ in old.control), f"{a.cid}: its old socket is closed")
        if rng.random() < 0.7:
            old.drop(rst=rng.random() < 0.5)
        if gone:
            time.sleep(0.01)
        else:
            self.barrier(a)
        self.settle()
        self.ck.seen("sockets superseded")

    def other_group(self, a):
        """Somebody connects under the ID of `a` but another group."""
        self.ops.append(f"{a.cid}: impostor of another group")
        s = RefAgent(self.srv.port)
        s.register(a.cid, group=rng_group(self.rng, a.group), proc_ids=["zz"], pid=99)
        s.wait_closed(8 * self.slack, "impostor's connection is closed")
        s.drop()
        self.settle()

    def shutdown(self, a):
        a.state = self.rng.choice(["idling", "done", "done"])
        self.ops.append(f"{a.cid}: shutdown {a.state}")
        a.sock.send("ShutDown", shutdown_state=a.state)
        self.conns[a.cid]["state"] = a.state
        self.told[a.cid] += 1
        self.barrier(a)
        self.settle()
        if a.state == "done":
            s, a.sock = a.sock, None
            s.close() if self.rng.random() < 0.5 else s.drop(rst=self.rng.random() < 0.5)
            del self.conns[a.cid]
            self.gone[a.cid] += 1
            for k in [k for k, p in self.procs.items() if p.cid == a.cid]:
                self.finish(k, "unknown")
            self.settle()
            a.ids, a.state = {f"bar/{a.cid}"}, "active"
            a.inst += 1
            self.ck.seen("agents shut down")

    def start(self):
        """The server starts a process in some group."""
        rng, srv = self.rng, self.srv
        g = rng.choice(["g0", "g1", "nobody"])
        can = [k for k, c in self.conns.items() if c["group"] == g and c["open"] and c["state"] == "active"]
        dup = rng.random() < 0.15 and self.procs and can
        pid = rng.choice(sorted(self.procs)) if dup else f"s{self.seq()}"
        self.ops.append(f"start {pid} in {g}")
        spec = {"argv": ["x", pid, "é"], "fds": [["stdout", {"null": {}}]]}
        at = {a.cid: len(a.sock.msgs) for a in self.live()}
        try:
            p = srv.co(srv.server.request_start(pid, spec, group_id=g))
        except pexc.NoOpenConnectionInGroup:
            if can:
                raise Broken("assignment", f"no connection found in {g} though {can} are open, after {self.where()}")
            self.settle()
            self.ck.seen("starts without a connection")
            return
        except ValueError:
            if not dup:
                raise
            self.settle()
            return
        if dup:
            raise Broken("assignment", f"process {pid!r} started again, after {self.where()}")
        if p.conn_id not in can:
            raise Broken("assignment", f"assigned to {p.conn_id!r}, of {g} are open {can}, after {self.where()}")
        a = next(a for a in self.agents if a.cid == p.conn_id)
        m = self.create(pid, a.cid)
        m.obj = id(p)
        srv.do(self.watch.add, p)
        got = a.sock.wait(lambda x: x["type"] == "ProcStartRequest", 8 * self.slack, at[a.cid], f"start request of {pid}")
        if got["specs"] != {pid: spec}:
            raise Broken("request", f"{a.cid} was sent {got} for {pid}: {spec}")
        for b in self.live():
            x = [y for y in b.sock.msgs[at[b.cid]:] if y["type"] == "ProcStartRequest"]
            if len(x) != (b is a):
                raise Broken("request", f"{b.cid} was sent {x} though {a.cid} was chosen")
        self.ck.seen("starts assigned")
        r = rng.random()
        if r < 0.65:
            a.ids.add(pid)
            self.result(a, pid)
            self.barrier(a)
        elif r < 0.75:
            e = f"refused {self.seq()}"
            a.sock.send("RequestError", msg={"type": "ProcStartRequest", "specs": {pid: spec}}, err=e)
            m.items.append(("error", e))
            del self.procs[pid]
            self.barrier(a)
            self.ck.seen("starts refused")
        elif rng.random() < 0.7:
            # It refuses several at once.
            ks = [pid]
            for _ in range(rng.choice([1, 2, 3])):
                pid = f"s{self.seq()}"
                q = srv.co(srv.server.request_start(pid, spec, group_id=g))
                m = self.create(pid, q.conn_id)
                m.obj = id(q)
                srv.do(self.watch.add, q)
                if q.conn_id == a.cid:
                    ks.append(pid)
            e = f"refused {self.seq()}"
            both = ks + rng.sample([f"nobody{j}" for j in range(3)], rng.choice([0, 1]))
            rng.shuffle(both)
            a.sock.send("RequestError", msg={"type": "ProcStartRequest", "specs": {x: {"argv": ["x"]} for x in both}}, err=e)
            for x in ks:
                self.procs.pop(x).items.append(("error", e))
            self.barrier(a)
            self.ck.seen("processes refused together", len(ks))
        # (else it never says)
        self.settle()

    def ask(self):
        """A call on a Process object sends just what it says, to its agent."""
        rng, srv = self.rng, self.srv
        ks = [k for k in self.procs if not k.startswith("bar/")]
        if not ks:
            return
        k = rng.choice(sorted(ks))
        m = self.procs[k]
        self.settle()
        obj = self.watch.logs[m.obj][0]
        a = next(a for a in self.agents if a.cid == m.cid)
        what = rng.choice(["result", "data", "signal", "delete"])
        self.ops.append(f"{what} request for {k} of {a.cid}")
        mark = len(a.sock.msgs) if a.sock else 0
        sig, lo, hi = rng.randrange(1, 64), rng.randrange(100), rng.choice([None, 200])
        if rng.random() < 0.3:
            lo, hi = rng.choice([(0, 0), (5, 5), (0, 1), (0, None)])
        want = {"result": {"type": "ProcResultRequest", "proc_id": k}, "data": {"type": "ProcFdDataRequest", "proc_id": k, "fd": "out", "start": lo, "stop": hi},
                "signal": {"type": "ProcSignalRequest", "proc_id": k, "signum": sig}, "delete": {"type": "ProcDeleteRequest", "proc_id": k}}[what]
        from procstar.lib.py import Interval

        async def call():
            await {"result": lambda: obj.request_result(), "data": lambda: obj.request_fd_data("out", interval=Interval(lo, hi)), "signal": lambda: obj.send_signal(sig), "delete": lambda: obj.request_delete()}[what]()
        try:
            srv.co(call())
            if not a.sock and what in ("signal", "delete"):
                raise Broken("request", f"{what} on a lost connection was accepted silently, after {self.where()}")
        except (pexc.WebSocketNotOpen, pexc.NotConnectedError):
            if a.sock or what in ("result", "data"):
                raise Broken("request", f"{what} refused though {a.cid} is {'open' if a.sock else 'tried only'}, after {self.where()}")
        if a.sock:
            got = a.sock.wait(lambda x: x["type"] == want["type"], 8 * self.slack, mark, f"{want}")
            if got != want:
                raise Broken("request", f"{a.cid} was sent {got} instead of {want}")
        self.settle()


def rng_group(rng, g):
    return rng.choice([x for x in (g + "x", "g0", "g1", "", g.upper(), "default") if x != g])


def history(ck, rng, slack):
    rt = rng.choice([None, 0.4, 0.4, 0.7])
    rt = rt and rt * slack
    with PyServer(reconnect_timeout=rt) as srv:
        w = World(ck, rng, srv, slack, rt)
        # (Some prefixes of others.)
        for i, k in enumerate(rng.sample(["a", "a0", "a01", "A", "b", "b ü", "0"], rng.choice([1, 2, 3, 4]))):
            w.agents.append(MAgent(k, f"g{i % 2}"))
        try:
            for step in range(rng.choice([15, 30])):
                # Whoever has been away too long is gone, in a moment.
                if rt and w.away and time.monotonic() - min(w.away.values()) > rt * 0.3:
                    w.expire()
                a = rng.choice(w.agents)
                if a.sock is None:
                    op = rng.choice(["register", "register", "expire", "start", "ask", "offline", "other_group"])
                    if op == "other_group" and a.cid not in w.conns:
                        op = "register"
                else:
                    op = rng.choice(["message", "message", "message", "lose", "supersede", "supersede", "other_group", "shutdown", "start", "start", "ask"])
                if op in ("start", "ask"):
                    w.ops.append(op)
                    getattr(w, op)()
                elif op == "offline":
                    w.offline(a)
                elif op == "expire":
                    if rt and w.away:
                        w.expire()
                elif op == "register":
                    w.offline(a)
                    w.ops.append(f"{a.cid}: register {sorted(a.ids)}")
                    w.register(a)
                else:
                    getattr(w, op)(a)
                w.settle()
                ck.case(("op", op, rt is None, len(w.agents), len(w.procs) // 3, a.sock is None), {"operation": (w.ops or [""])[-1][:80], "connections": len(w.conns), "processes": len(w.procs)})
            ck.seen("updates compared", sum(len(m.items) for m in w.all))
        finally:
            for a in w.agents:
                for s in [a.sock, *a.old]:
                    if s:
                        s.drop()


def waiters(ck, rng, slack):
    """Calls under way while connections come and go."""
    rt = 0.6 * slack
    kind = rng.choice(["start over reconnect", "start, never back", "delete over reconnect", "wait for connection", "wait in vain", "reconnect call", "reconnect in vain", "two start", "lost while waiting", "start, agent restarted", "several", "several", "lost in the act", "lost in the act"])
    with PyServer(reconnect_timeout=rt) as srv:
        s = srv.server
        a = b = None
        spec = {"argv": ["x"]}

        def reg(ids=(), state="active", cid="a", group="g", pid=1):
            x = RefAgent(srv.port)
            x.register(cid, group=group, proc_ids=list(ids), state=state, pid=pid)
            x.wait_registered(8 * slack)
            return x

        def done(f, timeout=8):
            try:
                wait_for(f.done, timeout * slack, f"{kind}: call returns")
                return ("ok", f.result())
            except Hang:
                raise
            except BaseException as e:
                return (type(e).__name__, e)
        if kind.startswith("start") or kind in ("lost while waiting", "two start"):
            a = reg()
            wait_for(lambda: srv.do(lambda: "a" in s.connections), 8 * slack, "registered")
            f = srv.task(s.start("p", spec, group_id="g"))
            a.wait(lambda m: m["type"] == "ProcStartRequest", 8 * slack, 0, "start request")
            if kind == "two start":
                f2 = srv.task(s.start("p", spec, group_id="g"))
                r = done(f2)
                if r[0] != "ValueError":
                    raise Broken("two-starts", f"second start of one ID: {r}")
                if len([m for m in a.msgs if m["type"] == "ProcStartRequest"]) != 1:
                    raise Broken("two-starts", "the agent was asked twice")
                a.send("ProcResult", proc_id="p", res={"n": 1})
                if done(f)[0] != "ok":
                    raise Broken("waiter", f"{kind}: {done(f)}")
            else:
                a.drop(rst=rng.random() < 0.5)
                time.sleep(rng.choice([0, 0.05, 0.2]))
                if f.done():
                    raise Broken("waiter", f"{kind}: loss of the connection ended the call: {done(f)}")
                if kind == "start over reconnect":
                    b = reg(["p"])
                    b.wait(lambda m: m["type"] == "ProcResultRequest" and m["proc_id"] == "p", 8 * slack, 0, "result request")
                    b.send("ProcResult", proc_id="p", res={"n": 7})
                    r = done(f)
                    if r[0] != "ok" or r[1][1].n != 7 or r[1][0].proc_id != "p":
                        raise Broken("waiter", f"{kind}: {r}")
                    time.sleep(rt * 1.3)
                    if srv.do(lambda: "a" not in s.connections or not s.connections["a"].open or "p" not in s.processes):
                        raise Broken("dropped", f"{kind}: back in time, yet dropped")
                elif kind == "start, agent restarted":
                    b = reg([], pid=2)
                    r = done(f)
                    if r[0] != "ProcessUnknownError":
                        raise Broken("waiter", f"{kind}: {r}")
                else:
                    r = done(f)
                    if r[0] != "ConnectionTimeoutError":
                        raise Broken("waiter", f"{kind}: {r}")
                    if srv.do(lambda: len(s.connections) + len(s.processes)):
                        raise Broken("dropped", f"{kind}: still in the tables")
        elif kind == "several":
            # Everyone who waits for updates learns of the end, and so does who asks later.
            a = reg(["p"])
            p = wait_for(lambda: srv.do(lambda: s.processes.get("p")), 8 * slack, "process known")

            async def nxt():
                return await anext(p.updates)
            fs = [srv.task(nxt()) for _ in range(rng.choice([2, 3, 5]))]
            time.sleep(0.03)
            how = rng.choice(["ProcDelete", "ProcUnknown", "unlisted", "timeout", "done"])
            if how == "timeout":
                a.drop(rst=rng.random() < 0.5)
            elif how == "done":
                a.send("ShutDown", shutdown_state="done")
                a.close()
            elif how == "unlisted":
                b = reg([])
            else:
                a.send(how, proc_id="p")
            want = {"ProcDelete": "StopAsyncIteration", "timeout": "ConnectionTimeoutError"}.get(how, "ProcessUnknownError")
            for i in range(len(fs) + 2):
                f = fs[i] if i < len(fs) else srv.task(nxt())
                r = done(f)
                # (A coroutine can't raise StopAsyncIteration as it is.)
                if r[0] == "RuntimeError" and isinstance(r[1].__cause__, StopAsyncIteration):
                    r = ("StopAsyncIteration", r[1])
                if r[0] != want:
                    raise Broken("waiter", f"{kind} ({how}): waiter {i} of {len(fs)} got {r}")
            if srv.do(lambda: "p" in s.processes):
                raise Broken("dropped", f"{kind} ({how}): still in the table")
        elif kind == "lost in the act":
            # A send blocked by an agent that doesn't read, until its connection is lost: a start that
            # fails leaves nothing behind.
            a = reg()
            wait_for(lambda: srv.do(lambda: "a" in s.connections), 8 * slack, "registered")
            a.paused = True
            big = {"argv": ["x", "y" * rng.choice([300_000, 1_000_000, 3_000_000])]}
            fs = {f"p{i}": srv.task(s.request_start(f"p{i}", big, group_id="g")) for i in range(rng.choice([2, 5, 12]))}
            ask = srv.task(s.request_start("q", spec, group_id="g"))
            fs["q"] = ask
            time.sleep(rng.choice([0.02, 0.1, 0.2]))
            if rng.random() < 0.5:
                a.drop(rst=True)
            else:
                b = reg(sorted(fs))
                a.drop(rst=True)
            res = {k: done(f, 15) for k, f in fs.items()}
            bad = {k: r for k, r in res.items() if r[0] not in ("ok", "WebSocketNotOpen", "NoOpenConnectionInGroup")}
            if bad:
                raise Broken("waiter", f"{kind}: {str(bad)[:300]}")
            ck.seen("starts failed as the connection was lost", len([r for r in res.values() if r[0] == "WebSocketNotOpen"]))
            if b is None:
                # Before it's given up.
                tab, up = srv.do(lambda: (dict(s.processes), "a" in s.connections))
                for k, r in res.items():
                    if r[0] == "ok" and up and tab.get(k) is not r[1]:
                        raise Broken("dropped", f"{kind}: {k} was started, but isn't known")
                    if r[0] != "ok" and k in tab:
                        raise Broken("dropped", f"{kind}: start of {k} failed with {r[0]}, but it's in the table")
        elif kind == "delete over reconnect":
            a = reg(["p"])
            p = wait_for(lambda: srv.do(lambda: s.processes.get("p")), 8 * slack, "process known")
            f = srv.task(p.delete())
            a.wait(lambda m: m["type"] == "ProcDeleteRequest", 8 * slack, 0, "delete request")
            a.send("ProcResult", proc_id="p", res={"n": 1})
            if rng.random() < 0.5:
                a.drop()
                b = reg(["p"])
                b.send("ProcDelete", proc_id="p")
            else:
                a.send("ProcDelete", proc_id="p")
            r = done(f)
            if r[0] != "ok" or srv.do(lambda: "p" in s.processes):
                raise Broken("waiter", f"{kind}: {r}")
        elif kind == "wait for connection":
            n = rng.choice([1, 3])
            fs = [srv.task(s.request_start(f"p{i}", spec, group_id="g", conn_timeout=5 * slack)) for i in range(n)]
            time.sleep(rng.choice([0, 0.05]))
            decoys = [reg(cid="d1", group="other"), reg(cid="d2", group="g", state="idling")]
            time.sleep(0.05)
            if any(f.done() for f in fs):
                raise Broken("assignment", f"{kind}: assigned without an open, active agent in the group")
            a = reg()
            for f in fs:
                r = done(f)
                if r[0] != "ok" or r[1].conn_id != "a":
                    raise Broken("waiter", f"{kind}: {r}")
            wait_for(lambda: len([m for m in a.msgs if m["type"] == "ProcStartRequest"]) == n, 8 * slack, "start requests")
            for d in decoys:
                if any(m["type"] == "ProcStartRequest" for m in d.msgs):
                    raise Broken("assignment", f"{kind}: sent to another")
                d.drop()
        elif kind == "wait in vain":
            decoys = [reg(cid="d1", group="other"), reg(cid="d2", group="g", state="idling")]
            t = time.monotonic()
            to = rng.choice([0, 0.04, 0.1, 0.3])
            f = srv.task(s.request_start("p", spec, group_id="g", conn_timeout=to))
            r = done(f)
            if r[0] != "NoOpenConnectionInGroup" or time.monotonic() - t < to * 0.95 or srv.do(lambda: "p" in s.processes):
                raise Broken("waiter", f"{kind}: {r} after {time.monotonic() - t:.3f} of {to} s")
            for d in decoys:
                d.drop()
        elif kind == "reconnect call":
            early = rng.random() < 0.5
            if early:
                a = reg(["p"])
                wait_for(lambda: srv.do(lambda: "a" in s.connections and "p" in s.processes), 8 * slack, "registered")
                if rng.random() < 0.5:
                    a.drop()
                    wait_for(lambda: srv.do(lambda: not s.connections["a"].open), 8 * slack, "loss noticed")
                    early = False
            f = srv.task(s.reconnect("a", "p", conn_timeout=rng.choice([0, 3 * slack]) if early else 4 * slack))
            if not early:
                time.sleep(0.05)
                if f.done():
                    raise Broken("waiter", f"{kind}: {done(f)} without an open connection")
                b = reg(["p"])
            r = done(f)
            if r[0] != "ok" or r[1].proc_id != "p" or r[1].conn_id != "a" or srv.do(lambda: s.processes.get("p")) is not r[1]:
                raise Broken("waiter", f"{kind}: {r}")
        elif kind == "reconnect in vain":
            to = rng.choice([0, 0.1])
            f = srv.task(s.reconnect("a", "p", conn_timeout=to))
            r = done(f)
            if r[0] != "NoConnectionError" or srv.do(lambda: "p" in s.processes):
                raise Broken("waiter", f"{kind}: {r}")
        for x in (a, b):
            if x:
                x.drop()
        # (A detached close of a superseded socket, full with what nobody reads, may fail as it likes.)
        errs = [e for e in srv.errors if not (kind == "lost in the act" and "never retrieved" in e)]
        if errs:
            raise Broken("server-error", f"{kind}: {errs[:2]}")
        ck.case(("waiters", kind, rng.random() < 0.5), {"call": kind, "outcome": "as it must be"})


def slow_return(ck, rng, slack):
    """An agent comes back in time, but takes in slowly what the server has to ask."""
    rt = 0.7 * slack
    with PyServer(reconnect_timeout=rt) as srv:
        watch = Watch(srv, rng)
        n = rng.choice([45, 60])
        ids = {f"{j}/" + "x" * 150_000 for j in range(n)}
        a = RefAgent(srv.port)
        a.register("a", group="g", proc_ids=sorted(ids))
        a.wait_registered(8 * slack)
        wait_for(lambda: len(watch.snap()[1]) == n, 8 * slack, "processes are known")
        before = watch.snap()[1]
        a.drop(rst=rng.random() < 0.5)
        wait_for(lambda: not srv.do(lambda: srv.server.connections["a"].open), 8 * slack, "loss is noticed")
        t = time.monotonic()
        time.sleep(rt * rng.choice([0, 0.2, 0.4]))
        b = RefAgent(srv.port)
        b.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 17)
        b.register("a", group="g", proc_ids=sorted(ids))
        b.wait_registered(8 * slack)
        if time.monotonic() - t > rt * 0.85:
            b.drop()
            raise Inconclusive("too slow to return in time")
        b.paused = True
        time.sleep(max(0, t + rt * 1.7 - time.monotonic()))
        b.paused = False
        wait_for(lambda: len([m for m in b.msgs if m["type"] == "ProcResultRequest"]) == n or b.closed is not None, 20 * slack, "requests for results")
        first = sorted(ids)[0]
        b.send("ProcResult", proc_id=first, res={"n": 1, "state": "running"})
        wait_for(lambda: any(o.proc_id == first and l for o, l in watch.logs.values()), 8 * slack, "a result arrives")
        c, p, g = watch.snap()
        if watch.gone["a"] or p != before or list(c) != ["a"] or not c["a"][1]:
            raise Broken("timeout-kept", f"agent returned in time, was slow to read: dropped {watch.gone['a']} times, {len(p)} processes known of {n}, {sum(p.get(k) == v for k, v in before.items())} of them the same; connections {c}")
        for o, log in watch.logs.values():
            if [i for i in log if i[0] != "result"]:
                raise Broken("updates", f"{o.proc_id[:20]}: {log[:3]}")
        if srv.errors:
            raise Broken("server-error", str(srv.errors[:3])[:500])
        ck.seen("slow returns")
        ck.case(("slow return", n), {"processes": n})
        b.drop()


def chaos(ck, rng, slack):
    """Agents come, talk and go as fast as they can, all at once."""
    with PyServer(reconnect_timeout=rng.choice([None, 30])) as srv:
        s = srv.server
        watch = Watch(srv, rng)
        stop = threading.Event()
        sent, problems, final = {}, [], {}

        def one(i, r):
            cid, ids, n = f"c{i}", {f"c{i}/p{j}" for j in range(3)}, 0
            x = None
            olds = []
            try:
                while not stop.is_set():
                    try:
                        y = RefAgent(srv.port)
                        y.register(cid, group="g", proc_ids=sorted(ids))
                        y.wait_registered(10 * slack)
                    except (Closed, OSError):
                        continue
                    if x is not None:
                        olds.append(x)
                        if r.random() < 0.7:
                            x.drop(rst=r.random() < 0.5)
                    x = y
                    for _ in range(r.choice([0, 1, 10, 40])):
                        k = r.choice(sorted(ids))
                        n += 1
                        sent.setdefault(k, []).append(n)
                        try:
                            x.send("ProcResult", proc_id=k, res={"n": n})
                            if r.random() < 0.05:
                                x.send(r.choice(["ProcUnknown", "ProcDelete"]), proc_id="nobody")
                        except Closed:
                            break
                    if r.random() < 0.5:
                        x.drop(rst=r.random() < 0.5)
                # Settle: one last connection.
                y = RefAgent(srv.port)
                y.register(cid, group="g", proc_ids=sorted(ids))
                y.wait_registered(10 * slack)
                x and x.drop()
                n += 1
                for k in sorted(ids):
                    y.send("ProcResult", proc_id=k, res={"n": n})
                final[cid] = (y, n, ids)
            except BaseException as e:
                problems.append(e)
            for o in olds:
                o.drop()

        def caller(r):
            j = 0
            while not stop.is_set():
                j += 1
                try:
                    p = srv.co(s.request_start(f"x{j}", {"argv": ["x"]}, group_id="g", conn_timeout=0.2))
                    ck.seen("starts amid chaos")
                except (pexc.NoOpenConnectionInGroup, pexc.WebSocketNotOpen, pexc.NotConnectedError):
                    pass
                except BaseException as e:
                    problems.append(e)
                    return
                srv.do(watch.attach)
                time.sleep(r.random() * 0.01)
        n = rng.choice([2, 4])
        ts = [threading.Thread(target=one, args=(i, ck.rng("chaos", i, rng.random())), daemon=True) for i in range(n)]
        ts.append(threading.Thread(target=caller, args=(ck.rng("caller", rng.random()),), daemon=True))
        for t in ts:
            t.start()
        time.sleep(1.0)
        stop.set()
        for t in ts:
            t.join(40 * slack)
        if problems:
            raise problems[0]

        def agree():
            srv.do(watch.attach)
            for cid, (y, k, ids) in final.items():
                for pid in ids:
                    logs = [l for o, l in watch.logs.values() if o.proc_id == pid]
                    if len(logs) != 1 or not logs[0] or logs[0][-1] != ("result", k, cid):
                        return False
            return True
        try:
            wait_for(agree, 6 * slack, "last results arrive")
        except Hang:
            bad = {pid: [l[-3:] for o, l in watch.logs.values() if o.proc_id == pid] for cid, (y, k, ids) in final.items() for pid in ids}
            raise Hang(f"last results {[v[1] for v in final.values()]}: {bad}")
        total = 0
        for o, log in watch.logs.values():
            ns = [i[1] for i in log if i[0] == "result"]
            total += len(ns)
            if ns != sorted(set(ns)):
                raise Broken("updates", f"{o.proc_id}: results out of order or repeated: {[(a, b) for a, b in zip(ns, ns[1:]) if a >= b][:3]}")
            if not o.proc_id.startswith("x") and [i for i in log if i[0] != "result"]:
                raise Broken("updates", f"{o.proc_id}: {[i for i in log if i[0] != 'result'][:3]}")
            if o.proc_id.startswith("x") and [i for i in log if i[0] != "unknown"]:
                raise Broken("updates", f"{o.proc_id}: {log[:3]}")
        c, p, g = watch.snap()
        if sorted(c) != sorted(final) or not all(v[1] and v[2] == "active" for v in c.values()):
            raise Broken("disagreement", f"connections {c}, agents {sorted(final)}")
        missing = {pid for _, _, ids in final.values() for pid in ids} - set(p)
        if missing or any(p[pid][0] != cid for cid, (_, _, ids) in final.items() for pid in ids):
            raise Broken("disagreement", f"processes {p}")
        for cid, (y, _, _) in final.items():
            if y.closed is not None or any(x[1] == 8 for x in y.control):
                raise Broken("server-dropped", f"{cid}'s last connection: {y.closed} {y.control}")
            y.drop()
        if srv.errors:
            raise Broken("server-error", str(srv.errors[:3]))
        ck.seen("updates amid chaos", total)
        ck.case(("chaos", n, total % 50), {"agents": n, "connections": sum(v[4] for v in c.values()), "updates": total})


def main(ck):
    def make(i):
        c = i % 8
        return (f"waiters#{i}", waiters) if c in (1, 4, 6) else (f"slow_return#{i}", slow_return) if i % 24 == 5 else (f"chaos#{i}", chaos) if c == 3 else (f"history#{i}", history)
    ck.run_many(make, workers=6, at_least=16)


if __name__ == "__main__":
    run_check("P24", "one operation of a history of agents and server calls, with the server's tables, groups, streams of updates and messages sent compared with a model; or one call under way while connections come and go; "
              "distinct by kind and sizes", main, quick_s=16, thorough_s=240)
