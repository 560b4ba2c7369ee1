"""P28: processes are independent of one another."""
import json, os, random, signal as sg, socket, threading, time
from core import *
from mgr import *
from agentsrv import *
from p06 import Bed

BOUND = 2.0


class Nb:
    """A misbehaving neighbour: processes, how to let it go, and how each of its processes must end then."""
    def __init__(self, kind, w, tag, rng):
        self.kind, self.w, self.tag, self.rng = kind, w, tag, rng
        self.m, self.d = w.m, w.m.dir
        self.specs, self.ends, self.letgo = {}, {}, []
        self.ready = []             # files that appear when it has begun to misbehave
        self.at_once = set()        # processes that end at once, whatever they leave behind
        getattr(self, kind)()

    def id(self, s=""):
        # Sorted before or after the others of the same request.
        return f"{self.rng.choice('amz')}-{self.kind}{self.tag}{s}"

    def f(self, n):
        return f"{self.d}/{self.kind}{self.tag}{n}"

    def put(self, spec, end, s=""):
        k = self.id(s)
        self.specs[k] = spec
        self.ends[k] = end
        return k

    def gate(self, n="go"):
        p = self.f(n)
        self.letgo.append(lambda: open(p, "w").close())
        return f"waitfile={p}"

    def fifo(self):
        n = self.rng.choice([1, 1, 2])
        for i in range(n):
            p = self.f(f"fifo{i}")
            os.mkfifo(p, 0o666)
            os.chmod(p, 0o666)
            fd, fl = self.rng.choice([("0", "Read"), ("1", "Append"), ("7", "Read"), ("3", "Write"), ("2", "Append")])
            pre = self.rng.choice([[], [["5", cap("memory")]], [["4", cap("tempfile")], ["6", cap("memory")]]])
            c = self.rng.randrange(1, 90)
            self.put(sp(self.m, f"exit={c}", fds=[*pre, [fd, {"file": {"path": p, "flags": fl}}]]), ("exit", c), i)

            def go(p=p):
                self.w.keep.append(os.open(p, os.O_RDWR | os.O_NONBLOCK))
            self.letgo.append(go)

    def stopped(self):
        c = self.rng.randrange(90)
        out = self.rng.choice(["memory", "tempfile"])
        k = self.put(sp(self.m, "w=1:5000:1:0", f"touch={self.f('up')}", "stop", "w=1:5000:2:0", f"exit={c}", fds=[["1", cap(out)]]), ("exit", c))
        self.ready.append(self.f("up"))

        def cont():
            pid = self.m.get(k)["pid"]
            wait_for(lambda: proc_stat(pid) and proc_stat(pid)[1][0] == "T", 20, "it stops")
            os.kill(pid, sg.SIGCONT)
        self.letgo.append(cont)

    def flood(self):
        mode = self.rng.choice(["memory", "memory", "tempfile"])
        size = self.rng.choice([64, 512, 65536])
        k = self.put(sp(self.m, f"touch={self.f('up')}", f"chunk={size}", f"chunkus={1 if size < 1000 else 2000}", f"w=1:{40_000_000 if size > 1000 else 3_000_000}:7:0", "pause",
                        fds=[["1", cap(mode, None, False)]]), ("signal", 9))
        self.ready.append(self.f("up"))
        self.letgo.append(lambda: self.m.signal(k, 9))

    def burst(self):
        k = self.put(sp(self.m, "w=1:3000000:3:0", "w=2:2000000:4:0", f"touch={self.f('up')}", "pause", fds=[["1", cap("memory", None, False)], ["2", cap("tempfile", None, False)]]), ("signal", 15))
        self.ready.append(self.f("up"))
        self.letgo.append(lambda: self.m.signal(k, 15))

    def orphan(self):
        """Ends, but leaves a descendant with its output, perhaps writing."""
        writes = self.rng.choice([None, "chunk=100 chunkus=300 w=1:100000000:3:0", "chunk=60000 chunkus=1000 w=1:100000000:3:0"])
        c = self.rng.randrange(90)
        k = self.put(sp(self.m, "w=1:100:1:0", "fork{", "setsid", "ign=13", *(writes.split() if writes else []), f"waitfile={self.f('never')}", "}", f"exit={c}",
                        fds=[["1", cap(self.rng.choice(["memory", "memory", "tempfile"]), None, False)], ["2", cap("memory")]]), ("exit", c))
        self.at_once.add(k)

    def full(self):
        """A writer to a pipe whose reader never reads."""
        r, wr = self.id("r"), self.id("w")
        self.specs[wr] = sp(self.m, "ign=13", f"touch={self.f('up')}", "wx=1:5000000:5:0", fds=[["1", "pipe-write"]])
        self.specs[r] = sp(self.m, "pause", fds=[["0", {"pipe-read": {"proc_id": wr, "fd": "1"}}]])
        self.ends[wr], self.ends[r] = ("exit", 77), ("signal", 9)
        self.ready.append(self.f("up"))
        self.letgo.append(lambda: self.m.signal(r, 9))

    def reads(self):
        """A reader whose writer never writes."""
        r, wr = self.id("r"), self.id("w")
        self.specs[wr] = sp(self.m, self.gate(), "exit=3", fds=[["1", "pipe-write"]])
        self.specs[r] = sp(self.m, "cp=0:1", "exit=5", fds=[["0", {"pipe-read": {"proc_id": wr, "fd": "1"}}], ["1", cap("memory")]])
        self.ends[wr], self.ends[r] = ("exit", 3), ("exit", 5)

    def fails(self):
        for i in range(self.rng.choice([1, 3, 10])):
            name, spec, _ = self.rng.choice(self.w.bed.bad(self.rng, self.f("mark")))
            self.put(spec, ("error", None), i)

    def deaf(self):
        k = self.put(sp(self.m, *[f"ign={s}" for s in range(1, 32) if s not in (9, 17, 19)], f"touch={self.f('up')}", "pause"), ("signal", 9))
        self.ready.append(self.f("up"))
        self.letgo.append(lambda: self.m.signal(k, 9))

    def nagger(self):
        """Sends the manager SIGCHLD though nothing ended."""
        c = self.rng.randrange(90)
        self.put(sp(self.m, f"touch={self.f('up')}", "killp=17:%d:%d" % self.rng.choice([(300, 1000), (3000, 50)]), self.gate(), f"exit={c}"), ("exit", c))
        self.ready.append(self.f("up"))

    def crowd(self):
        """Many that end at the same moment, while the others are at work."""
        g = self.f("now")
        for i in range(self.rng.choice([10, 30])):
            self.put(sp(self.m, f"waitfile={g}", f"exit={i}", fds=[["1", cap("memory")], ["2", cap("tempfile")]]), ("exit", i), i)
        self.letgo.append(lambda: open(g, "w").close())

    def yoyo(self):
        """Is stopped and continued all the time."""
        k = self.put(sp(self.m, f"touch={self.f('up')}", self.gate(), "exit=6"), ("exit", 6))
        self.ready.append(self.f("up"))
        over = threading.Event()

        def churn():
            try:
                pid = self.m.get(k)["pid"]
                while not over.is_set() and self.m.alive() and not self.w.over:
                    os.kill(pid, sg.SIGSTOP)
                    time.sleep(0.002)
                    os.kill(pid, sg.SIGCONT)
                    time.sleep(0.001)
            except (OSError, Broken, Hang, *SHAPE):
                pass
        self.then = lambda: threading.Thread(target=churn, daemon=True).start()
        self.letgo.insert(0, over.set)

    def parent(self):
        """Has children of its own that end and are never waited for."""
        self.put(sp(self.m, *["fork{", "}"] * self.rng.choice([3, 30]), f"touch={self.f('up')}", self.gate(), "exit=8"), ("exit", 8))
        self.ready.append(self.f("up"))

    then = staticmethod(lambda: None)


KINDS = ["fifo", "fifo", "fifo", "stopped", "flood", "burst", "orphan", "orphan", "full", "full", "reads", "fails", "deaf", "nagger", "crowd", "yoyo", "parent"]


class Norm:
    """A well-behaved process, or a pair of them, and what must be reported."""
    def __init__(self, w, rng, n):
        m, self.w, self.n = w.m, w, n
        self.base = f"{m.dir}/n{n}"
        self.code = rng.randrange(1, 90)
        self.len, self.len2 = rng.choice([0, 10, 5000, 70_000, 300_000]), rng.choice([0, 10, 3000])
        self.mode, self.mode2 = rng.choice(["memory", "tempfile"]), rng.choice(["memory", "tempfile"])
        self.gated = rng.random() < 0.5
        self.pair = rng.random() < 0.4
        pre = rng.choice("bny")
        self.k = f"{pre}norm{n}"
        ops = [f"fds={self.base}.fds", f"touch={self.base}.up", *([f"waitfile={self.base}.go"] if self.gated else []), f"w=1:{self.len}:{n}:0", f"w=2:{self.len2}:{n + 1}:0", f"exit={self.code}"]
        fds = [["1", cap(self.mode)], ["2", cap(self.mode2)]]
        self.specs = {}
        if self.pair:
            self.j = f"{rng.choice('bny')}partner{n}"
            self.specs[self.j] = sp(m, f"fds={self.base}.jfds", "cp=0:1", "exit=4", fds=[["0", {"pipe-read": {"proc_id": self.k, "fd": "1"}}], fds[0]])
            fds[0] = ["1", "pipe-write"]
        self.specs[self.k] = sp(m, *ops, fds=fds)
        self.desc = f"{'pair ' if self.pair else ''}{self.mode} {self.len} {self.mode2} {self.len2}{' gated' if self.gated else ''}"

    def fds_ok(self, path, want, kinds):
        rows = [l.split(" ", 7) for l in open(path).read().splitlines()]
        if rows[-1] != ["END"]:
            raise Inconclusive("descriptors not dumped")
        got = {int(r[0]): r[-1] for r in rows[:-1]}
        if set(got) != want:
            raise Broken("descriptors", f"{self.k} has descriptors {got}, not {sorted(want)}")
        for fd, kind in kinds.items():
            if not got[fd].startswith(kind):
                raise Broken("descriptors", f"{self.k} has {got[fd]} as {fd}")

    def check(self, rk, rj):
        def done(k, r, code):
            if r["state"] != "terminated" or r["status"]["exit_code"] != code or r["errors"]:
                raise Broken("altered", f"{k}: {r['state']} {r['status']} {r['errors']}, expected exit {code}")
        done(self.k, rk, self.code)
        o, e = rk["fds"].get("1") or rk["fds"].get("stdout"), rk["fds"].get("2") or rk["fds"].get("stderr")
        if self.pair:
            done(self.j, rj, 4)
            o = rj["fds"].get("1") or rj["fds"].get("stdout")
        for what, x, want in (("output", o, pattern(self.len, self.n)), ("standard error", e, pattern(self.len2, self.n + 1))):
            b = fd_bytes(x) if not isinstance(x.get("data"), bytes) else x["data"]
            if b != want:
                raise Broken("altered", f"{self.k} {what}: {diff_at(b, want)}")
        self.fds_ok(self.base + ".fds", {0, 1, 2}, {1: "pipe:" if self.pair or self.mode == "memory" else "/tmp/", 2: "pipe:" if self.mode2 == "memory" else "/tmp/"})
        if self.pair:
            self.fds_ok(self.base + ".jfds", {0, 1, 2}, {0: "pipe:"})


class World:
    def __init__(self, ck, rng, m, slack):
        self.ck, self.rng, self.m, self.slack = ck, rng, m, slack
        self.bed = Bed(m)
        self.keep = []
        self.nbs, self.n = [], 0
        self.over = False
        self.worst = 0.0

    def end(self):
        self.over = True
        for f in self.keep:
            os.close(f)

    @property
    def T(self):
        return BOUND * self.slack

    def timed(self, what, fn, *a, **kw):
        t = time.monotonic()
        r = fn(*a, timeout=self.T, **kw)
        dt = time.monotonic() - t
        self.worst = max(self.worst, dt)
        if dt > self.T:
            raise Hang(f"{what} took {dt:.1f} s")
        return r

    def neighbours(self, kinds):
        out = []
        for k in kinds:
            self.n += 1
            out.append(Nb(k, self, self.n, self.rng))
        return out

    def around(self):
        return ", ".join(sorted(nb.kind for nb in self.nbs))


def raw_exchange(m, text, timeout):
    """One request on a connection of its own, to its end."""
    s = socket.create_connection(("127.0.0.1", m.port), timeout)
    try:
        s.settimeout(timeout)
        s.sendall(text)
        out = b""
        while True:
            b = s.recv(65536)
            if not b:
                return out
            out += b
    except TimeoutError:
        raise Hang(f"the connection is not closed within {timeout:g} s, after {len(out)} bytes")
    finally:
        s.close()


def neighbours(ck, rng, slack, use_agent, first):
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    w = None
    try:
        with m:
            os.chmod(m.dir, 0o777)
            w = World(ck, rng, m, slack)
            T = w.T
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            kinds = [first, *rng.sample(KINDS, rng.choice([0, 1, 2, 4]))]
            rng.shuffle(kinds)
            ids = set()
            norms = []
            sent = [0]

            def start(specs, how=None):
                how = how or rng.choice(["post", "post", "raw", *(["agent"] * 2 if c else [])])
                ids.update(specs)
                if how == "agent":
                    c.send("ProcStartRequest", specs=specs)
                elif how == "raw":
                    body = json.dumps({"specs": specs}).encode()
                    r = raw_exchange(m, b"POST /procs HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(body) + body, T)
                    if not r.startswith(b"HTTP/1.1 200"):
                        raise Broken("start-refused", f"{r[:300]!r}")
                else:
                    w.timed("a start", m.start, specs)
                return how

            def poll():
                """The manager's answers to a bystander."""
                r = random.Random(1)
                try:
                    while not w.over:
                        k = r.choice(sorted(ids)) if ids else "none"
                        x = r.randrange(4)
                        if x == 0:
                            w.timed("the list", m.list)
                        elif x == 1:
                            w.timed("an unknown process", m.http, "GET", "/procs/none")
                        elif x == 2:
                            raw_exchange(m, b"GET /procs/none HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", T)
                        else:
                            w.timed(f"the result of {k}", m.http, "GET", "/procs/" + k)
                        ck.seen("bystander answers")
                        time.sleep(0.02)
                except (Broken, Hang) as e:
                    if not w.over:
                        errs.append(e)
                except OSError:
                    pass
            errs = []

            def settled():
                if errs:
                    raise errs[0]

            # Neighbours first, together with normal ones, or one after another.
            together = rng.random() < 0.5
            if together:
                w.nbs += w.neighbours(kinds)
                specs = {}
                for nb in w.nbs:
                    specs.update(nb.specs)
                for i in range(rng.choice([1, 2])):
                    w.n += 1
                    norms.append((Norm(w, rng, w.n), time.monotonic()))
                    specs.update(norms[-1][0].specs)
                items = list(specs.items())
                rng.shuffle(items)
                start(dict(items))
            else:
                for k in kinds:
                    w.nbs += w.neighbours([k])
                    start(w.nbs[-1].specs)
            pt = threading.Thread(target=poll, daemon=True)
            pt.start()
            for nb in w.nbs:
                for f in nb.ready:
                    wait_for(lambda: os.path.exists(f), T, lambda: f"{nb.kind} gets going, among {w.around()}")
                if c:
                    wait_for(lambda: all(m.get(k) for k in nb.specs), T, "neighbours are there")
                nb.then()
            if rng.random() < 0.5:
                time.sleep(0.05)
            for i in range(rng.choice([1, 2, 4])):
                w.n += 1
                norms.append((Norm(w, rng, w.n), time.monotonic()))
                start(norms[-1][0].specs)
            # Every one of the normal ones gets through its life.
            for nm, t0 in norms:
                where = f"{nm.k} [{nm.desc}] among {w.around()}"
                wait_for(lambda: os.path.exists(nm.base + ".up"), T, lambda: f"{where} starts")
                settled()
                if nm.gated:
                    if rng.random() < 0.3:
                        r = w.timed("deletion of a running process", m.delete, nm.k)
                        if r.status != 400:
                            raise Broken("altered", f"{where}: deletion while it runs: {r.status}")
                    open(nm.base + ".go", "w").close()
                end = time.monotonic() + T
                res = {}
                for k in nm.specs:
                    try:
                        res[k] = m.wait_done(k, max(0.1, end - time.monotonic()))
                    except Hang as e:
                        raise Hang(f"{where}: {e}")
                if c:
                    for k in nm.specs:
                        _, r = c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == k and x["res"]["state"] != "running", T, 0, f"the end of {where} from the agent")
                nm.check(res[nm.k], res.get(getattr(nm, "j", None)))
                settled()
                for k in nm.specs:
                    r = w.timed("a deletion", m.delete, k)
                    if r.status != 200 or m.get(k) is not None:
                        raise Broken("altered", f"{where}: deletion: {r.status} {r.body[:200]!r}")
                    ids.discard(k)
                ck.case(f"{where.split(' ', 1)[1]} {'together' if together else ''}", {"normal process": nm.desc, "neighbours": w.around(), "started": "together" if together else "apart"})
                ck.seen("normal processes")
            # Those that end at once, whoever survives them.
            for nb in w.nbs:
                for k in nb.at_once:
                    try:
                        r = m.wait_done(k, T)
                    except Hang as e:
                        raise Hang(f"{nb.kind} among {w.around()}: {e}")
                    if (r["state"], r["status"] and r["status"]["exit_code"]) != ("terminated", nb.ends[k][1]):
                        raise Broken("wrong-end", f"{k} among {w.around()}: {r['state']} {r['status']} {r['errors']}, expected {nb.ends[k]}")
                    if c:
                        c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == k and x["res"]["state"] != "running", T, 0, f"the end of {k} from the agent")
                    ck.seen("ends with surviving descendants")
            # A neighbour lives on meanwhile; let them go one after another.
            order = list(w.nbs)
            rng.shuffle(order)
            for nb in order:
                for k, (how, v) in nb.ends.items():
                    if how != "error" and k not in nb.at_once and m.get(k)["state"] != "running":
                        r = m.get(k)
                        raise Broken("wrong-end", f"{k} among {w.around()} already ended: {r['state']} {r['status']} {r['errors']}")
                for f in nb.letgo:
                    f()
                end = time.monotonic() + T
                for k, (how, v) in nb.ends.items():
                    try:
                        r = m.wait_done(k, max(0.1, end - time.monotonic()))
                    except Hang as e:
                        raise Hang(f"{nb.kind} among {w.around()}: {e}")
                    st = r["status"] or {}
                    good = r["state"] == "error" if how == "error" else r["state"] == "terminated" and (st["signum"] if how == "signal" else st["exit_code"]) == v
                    if not good:
                        raise Broken("wrong-end", f"{k} among {w.around()}: {r['state']} {r['status']} {r['errors']}, expected {how} {v}")
                    if rng.random() < 0.5:
                        r = w.timed("a deletion", m.delete, k)
                        if r.status != 200:
                            raise Broken("altered", f"{k} among {w.around()}: deletion: {r.status} {r.body[:200]!r}")
                        ids.discard(k)
                    ck.seen("neighbours' processes")
                settled()
            if c and c.closed:
                raise Broken("agent-connection-lost", f"connection ended among {w.around()}")
            ck.worst = max(getattr(ck, "worst", 0), w.worst)
    finally:
        if w:
            w.end()
        if srv:
            srv.close()


def reconnect(ck, rng, slack):
    """A process that blocks before it executes must not hold the agent's connections."""
    with AgentServer() as srv:
        m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30))
        w = None
        with m:
            try:
                os.chmod(m.dir, 0o777)
                w = World(ck, rng, m, slack)
                c = srv.wait_conn(0, timeout=15 * slack)
                w.nbs += w.neighbours(["fifo"])
                specs = w.nbs[0].specs
                c.send("ProcStartRequest", specs=specs)
                for k in specs:
                    c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == k, w.T, 0, f"start of {k}")
                if rng.random() < 0.5:
                    c.close()
                else:
                    c.drop()
                c = srv.wait_conn(1, timeout=10 * slack)
                for k in specs:
                    r = c.request("ProcResultRequest", lambda x: x.get("proc_id") == k and x["type"] in ("ProcResult", "ProcUnknown"), w.T, proc_id=k)
                    if r["type"] != "ProcResult" or r["res"]["state"] != "running":
                        raise Broken("altered", f"{k} after reconnection: {r}")
                n = Norm(w, rng, 1)
                c.send("ProcStartRequest", specs=n.specs)
                wait_for(lambda: os.path.exists(n.base + ".up"), w.T, "a process starts after reconnection")
                open(n.base + ".go", "w").close()
                res = {k: m.wait_done(k, w.T) for k in n.specs}
                n.check(res[n.k], res.get(getattr(n, "j", None)))
                for f in w.nbs[0].letgo:
                    f()
                for k, (_, v) in w.nbs[0].ends.items():
                    r = m.wait_done(k, w.T)
                    if r["state"] != "terminated" or r["status"]["exit_code"] != v:
                        raise Broken("wrong-end", f"{k}: {r['state']} {r['status']}")
                ck.case("reconnection beside a blocked start")
            finally:
                if w:
                    w.end()


def main(ck):
    def make(i):
        rng = ck.rng("plan", i)
        if i % 20 == 7:
            return (f"reconnect#{i}", reconnect)
        ks = sorted(set(KINDS))
        return (f"neighbours#{i}", neighbours, rng.random() < 0.35, "fifo" if i % 3 == 0 else ks[i % len(ks)])
    ck.run_many(make, workers=6, at_least=2 * len(set(KINDS)))
    ck.seen("slowest answer (ms)", int(1000 * getattr(ck, "worst", 0)))


if __name__ == "__main__":
    run_check("P28", "one well-behaved process or piped pair (outputs, sizes, gate) that lived its whole life among a random set of misbehaving neighbours, with the time of each step bounded and its "
              "descriptors, outputs and end compared with what they are alone; distinct by its own description and its neighbours", main, quick_s=18, thorough_s=240)
