"""P16: the HTTP API behaves like one sequential registry under concurrency."""
import http.client, json, os, socket, threading, time
from core import *
from mgr import *

INF = float("inf")


class Op:
    __slots__ = ("kind", "ids", "incs", "inv", "resp", "status", "seen", "why", "sig", "fd", "who", "solo")

    def __init__(self, kind, ids=(), incs=(), **kw):
        self.kind, self.ids, self.incs = kind, ids, incs
        self.inv = self.resp = self.status = self.seen = self.sig = self.fd = None
        self.why, self.who, self.solo = "", 0, False
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return f"[{self.who}] {self.inv:.6f}..{self.resp:.6f} {self.kind} {list(self.ids)!r} incs={list(self.incs)} sig={self.sig} fd={self.fd} -> {self.status} {self.seen!r}"


# State: tuple of (id, inc, killed, ended) sorted by id.

class Solver:
    """Wing & Gong search with memory, over a registry whose processes may also
    end of their own accord once they are able to."""
    def __init__(self, can_end):
        self.can_end = can_end  # inc -> monotonic time from which it may end of itself
        self.steps = 0

    def ends(self, ent, limit):
        """The entry after ending, if it may have ended before time `limit`."""
        i, inc, killed, ended = ent
        if ended:
            return ent
        if killed or self.can_end(inc) < limit:
            return (i, inc, killed, True)
        return None

    def apply(self, st, op, limit):
        """Successor states in which `op`'s response is right."""
        d = {e[0]: e for e in st}
        k = op.kind
        if k == "start":
            free = not any(i in d for i in op.ids)
            if op.status == 200:
                if not free:
                    return []
                for i, inc in zip(op.ids, op.incs):
                    d[i] = (i, inc, False, False)
                return [d]
            return [] if free or op.status != 400 else [d]
        if k == "list":
            if op.status != 200 or set(op.seen) != set(d):
                return []
            for i, (inc, ended) in op.seen.items():
                if d[i][1] != inc:
                    return []
                if ended:
                    e = self.ends(d[i], limit)
                    if e is None:
                        return []
                    d[i] = e
                elif d[i][3]:
                    return []
            return [d]
        i = op.ids[0]
        e = d.get(i)
        if e is None:
            return [d] if op.status == 404 else []
        if op.status == 404:
            return []
        done = self.ends(e, limit)
        if k == "get":
            inc, ended = op.seen
            if inc != e[1]:
                return []
            if not ended:
                return [] if e[3] else [d]
            if done is None:
                return []
            d[i] = done
            return [d]
        if k == "delete":
            if op.status == 200:
                if done is None:
                    return []
                del d[i]
                return [d]
            return [] if op.status != 400 or e[3] else [d]
        if k == "signal":
            if op.status == 200:
                if e[3]:
                    return []
                if op.sig == 9:
                    d[i] = (i, e[1], True, False)
                return [d]
            if op.status != 400 or done is None:
                return []
            d[i] = done
            return [d]
        if k == "data":
            ours = e[1] == op.fd - 100
            if op.status == 200:
                return [d] if ours else []
            return [] if ours or op.status != 400 else [d]
        raise AssertionError(k)

    def run(self, states, ops):
        """Possible final states, from any of `states`."""
        ops = sorted(ops, key=lambda o: o.inv)
        n = len(ops)
        full = (1 << n) - 1
        memo, out = set(), set()
        stack = [(0, s) for s in states]
        best = 0, None
        while stack:
            mask, st = stack.pop()
            if (mask, st) in memo:
                continue
            memo.add((mask, st))
            self.steps += 1
            if self.steps > 3_000_000:
                raise Inconclusive("search too long")
            if mask == full:
                out.add(st)
                continue
            k = bin(mask).count("1")
            if k >= best[0]:
                best = k, (mask, st)
            limit = min(o.resp for j, o in enumerate(ops) if not mask >> j & 1)
            nxt = []
            for j, o in enumerate(ops):
                if mask >> j & 1:
                    continue
                if o.inv > limit:
                    break
                for d in self.apply(st, o, limit):
                    nxt.append((mask | 1 << j, tuple(sorted(d.values()))))
                    if nxt[-1][1] == st and not (o.sig == 9 and o.status == 200):
                        # Changes nothing (a kill could, elsewhere) and is right here, so it may as well come now.
                        nxt = [nxt[-1]]
                        break
                else:
                    continue
                break
            stack += nxt
        if not out:
            mask, st = best[1]
            stuck = [o for j, o in enumerate(ops) if not mask >> j & 1]
            raise Broken("not-linearizable", f"no sequential order of the registry explains the responses; {best[0]} of {n} explained up to {st}, not {stuck[:3]}",
                         {"ops": [repr(o) for o in ops], "states": [repr(s) for s in states]})
        return out


NAMES = ["a", "b/c", "b%2Fc", "d e", "d+e", "ü𝄞", "?q=1", "#f", "..", ".", "%", "%41", "A", "x;y:z", "a/../b", "\t\n", "\"'\\", "&=", "stdout", "procs/a", "é", "e\u0301", "~", "*", "0", "-1", "é\u0000z"]


def enc(rng, s):
    how = rng.randrange(4)
    if how == 3:
        # What may stand for itself in a path does.
        return quote(s, safe="+~!$&'()*,;=:@-._")  if s not in (".", "..") else quote(s, safe="").replace(".", "%2E")
    if how == 0:
        return quote(s, safe="")
    if how == 1:
        return "".join(f"%{b:02x}" for b in s.encode())
    return "".join(chr(b) if chr(b).isalnum() and b < 128 and rng.random() < 0.7 else f"%{b:02X}" for b in s.encode())


class World:
    def __init__(self, ck, rng, m, slack):
        self.ck, self.rng, self.m, self.slack = ck, rng, m, slack
        self.lock = threading.Lock()
        self.serial = 0
        self.kinds = {}
        self.released = {}
        self.clock = time.monotonic
        self.live = []

    def new(self, rng):
        with self.lock:
            self.serial += 1
            s = self.serial
            k = self.kinds[s] = rng.choice(["quick", "quick", "gated", "gated", "forever", "bad"])
        key = [str(100 + s), cap("memory")]
        if k == "quick":
            spec = sp(self.m, f"w={100+s}:20:{s}:0", f"exit={s % 7}", fds=[key])
        elif k == "bad":
            spec = {"argv": ["/nonexistent/p16"], "fds": [key]}
        elif k == "gated":
            spec = sp(self.m, f"waitfile={self.m.dir}/g{s}", "exit=0", fds=[key])
        else:
            spec = sp(self.m, "pause", fds=[key])
        return s, spec

    def can_end(self, inc):
        k = self.kinds[inc]
        if k in ("quick", "bad"):
            return -INF
        return self.released.get(inc, INF)

    def release(self, inc):
        with self.lock:
            if inc in self.released:
                return
            self.released[inc] = self.clock()
        p = self.m.dir / f"g{inc}"
        p.touch()
        os.chmod(p, 0o666)

    def read(self, op, status, body):
        """Fills in what a response says."""
        op.status = status
        if op.kind == "data" and status == 200:
            inc = op.fd - 100
            want = pattern(20, inc) if self.kinds.get(inc) == "quick" else b""
            if not want.startswith(body):
                raise Broken("wrong-output", f"output {op.fd} of {op.ids[0]!r} (incarnation {inc}): {body[:100]!r}")
            return
        j = json.loads(body)
        if status != 200:
            if "errors" not in j or "data" in j:
                raise Broken("response-shape", f"{op.kind} {op.ids}: {status} {body[:200]!r}")
            return
        d = j["data"]
        if op.kind in ("get", "list"):
            seen = {}
            for i, r in d["procs"].items():
                incs = [int(k) - 100 for k in r["fds"] if k.isdigit() and int(k) > 100]
                if len(incs) != 1 or incs[0] not in self.kinds:
                    raise Broken("wrong-record", f"{op.kind}: {i!r} has fds {sorted(r['fds'])}")
                seen[i] = (incs[0], r["state"] != "running")
            if op.kind == "get":
                if list(seen) != [op.ids[0]]:
                    raise Broken("wrong-id", f"GET {op.ids[0]!r} answered about {list(seen)!r}")
                seen = seen[op.ids[0]]
            op.seen = seen

    def request(self, rng, op, specs=None):
        """(method, path, body)"""
        k = op.kind
        if k == "start":
            return "POST", "/procs", json.dumps({"specs": dict(zip(op.ids, specs))}, ensure_ascii=rng.random() < 0.5).encode()
        if k == "list":
            return "GET", "/procs", None
        i = enc(rng, op.ids[0])
        return {"get": ("GET", f"/procs/{i}"), "delete": ("DELETE", f"/procs/{i}"), "signal": ("POST", f"/procs/{i}/signals/{op.sig}"),
                "data": ("GET", f"/procs/{i}/output/{op.fd}/data")}[k] + (None,)

    def make(self, rng, ids, who):
        k = rng.choice(["start"] * 5 + ["get"] * 3 + ["delete"] * 5 + ["signal"] * 3 + ["list"] * 2 + ["data"])
        specs = None
        if k == "start":
            n = rng.choice([1, 1, 1, 2, 3])
            those = rng.sample(ids, min(n, len(ids)))
            made = [self.new(rng) for _ in those]
            op = Op(k, tuple(those), tuple(x[0] for x in made))
            specs = [x[1] for x in made]
        elif k == "list":
            op = Op(k)
        else:
            op = Op(k, (rng.choice(ids),))
            if k == "signal":
                op.sig = rng.choice([9, 9, 9, 18])
            if k == "data":
                op.fd = 100 + rng.randrange(max(1, self.serial - 12), self.serial + 2)
                if self.live and rng.random() < 0.7:
                    i, inc = rng.choice(self.live)
                    op.ids, op.fd = (i,), 100 + inc
        op.who = who
        return op, self.request(rng, op, specs)


class Client:
    """One client: own connection, keep-alive or not, plain, dribbled or pipelined."""
    def __init__(self, w, n):
        self.w, self.n, self.s, self.f = w, n, None, None

    def connect(self):
        if self.s is None:
            self.s = socket.create_connection(("127.0.0.1", self.w.m.port), timeout=30 * self.w.slack)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def close(self):
        if self.s:
            self.s.close()
            self.s = None

    def head(self, method, path, body):
        h = f"{method} {path} HTTP/1.1\r\nHost: localhost\r\n".encode()
        if body is not None:
            h += b"Content-Type: application/json\r\nContent-Length: %d\r\n" % len(body)
        return h + b"\r\n" + (body or b"")

    def response(self, method):
        r = http.client.HTTPResponse(self.s, method=method)
        r.begin()
        b = r.read()
        return r, b

    def run(self, rng, items):
        """Runs (op, request) pairs; pipelined together if more than one."""
        w = self.w
        self.connect()
        try:
            raw = [self.head(*req) for _, req in items]
            t = w.clock()
            for op, _ in items:
                op.inv = t
            data = b"".join(raw)
            if rng.random() < 0.25:
                cut = rng.randrange(1, len(data))
                self.s.sendall(data[:cut])
                time.sleep(rng.choice([0, 0.001, 0.004]))
                self.s.sendall(data[cut:])
            else:
                self.s.sendall(data)
            for j, (op, req) in enumerate(items):
                if len(items) == 1:
                    r, b = self.response(req[0])
                else:
                    r, b = self.pipelined(req[0])
                op.resp = w.clock()
                w.read(op, r.status, b)
                if j + 1 < len(items):
                    # One connection's requests are handled in order.
                    items[j + 1][0].inv = max(items[j + 1][0].inv, t)
        except (socket.timeout, TimeoutError):
            raise Hang(f"no response to {items[0][0].kind}")
        except (OSError, http.client.HTTPException) as e:
            time.sleep(0.1)
            w.m.check_alive()
            raise Broken("connection-dropped", f"{[o.kind for o, _ in items]}: {type(e).__name__} {e}")

    def pipelined(self, method):
        """Reads one response without taking bytes of the next."""
        buf = b""
        while b"\r\n\r\n" not in buf:
            x = self.s.recv(1)
            if not x:
                raise OSError("closed amid pipelined responses")
            buf += x
        head = buf.decode("latin-1").split("\r\n")
        n = next((int(h.split(":", 1)[1]) for h in head if h.lower().startswith("content-length:")), 0)
        b = b""
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x:
                raise OSError("closed amid pipelined responses")
            b += x

        class R:
            status = int(head[0].split()[1])
        return R, b


def overlaps(ops):
    ev = sorted([(o.inv, 1) for o in ops] + [(o.resp, -1) for o in ops])
    n = best = 0
    for _, x in ev:
        n += x
        best = max(best, n)
    return best


def history(ck, rng, slack):
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        w = World(ck, rng, m, slack)
        if rng.random() < 0.7:
            for site in rng.sample(["fork", "read", "write", "wait4", "epoll", "accept"], 3):
                m.ctl.delay(site, rng.choice([100, 500, 2000]), rng.choice([50, 200]))
        nthreads = rng.choice([4, 6, 8])
        ids = rng.sample(NAMES, rng.choice([1, 2, 3, 5]))
        clients = [Client(w, i) for i in range(nthreads)]
        states = {()}
        sol = Solver(w.can_end)
        try:
            for rnd in range(25 if ck.quick else 60):
                if rng.random() < 0.15:
                    ids = sorted(set(ids) & {e[0] for s in states for e in s}) + rng.sample(NAMES, 2)
                    ids = sorted(set(ids))
                style = rng.choice(["mixed", "mixed", "mixed", "same-start", "same-delete"])
                plan = []
                for c in clients:
                    r = ck.rng("plan", m.uid, rnd, c.n, rng.randrange(1 << 30))
                    groups = []
                    for _ in range(rng.choice([1, 2, 3])):
                        g = []
                        for _ in range(rng.choice([1, 1, 1, 2, 3])):
                            op, req = w.make(r, ids, c.n)
                            if style != "mixed":
                                i = ids[0]
                                if style == "same-start":
                                    s, spec = w.new(r)
                                    op = Op("start", (i,), (s,), who=c.n)
                                    req = w.request(r, op, [spec])
                                else:
                                    op = Op("delete", (i,), who=c.n)
                                    req = w.request(r, op)
                            g.append((op, req))
                        groups.append(g)
                    plan.append((c, r, groups))
                w.live = [e[:2] for s in states for e in s]
                live = [e for s in states for e in s if w.kinds[e[1]] == "gated"]
                bar = threading.Barrier(nthreads + 1)
                errs = []

                def work(c, r, groups):
                    try:
                        c.connect()
                        bar.wait(20)
                        for g in groups:
                            if r.random() < 0.2:
                                time.sleep(r.random() * 0.003)
                            c.run(r, g)
                            if r.random() < 0.15:
                                c.close()
                                c.connect()
                            for op, _ in g:
                                for inc in op.incs:
                                    if w.kinds[inc] == "gated" and r.random() < 0.5:
                                        w.release(inc)
                    except BaseException as e:
                        errs.append(e)
                ts = [threading.Thread(target=work, args=p) for p in plan]
                for t in ts:
                    t.start()
                try:
                    bar.wait(20)
                except threading.BrokenBarrierError:
                    pass
                for e in live:
                    if rng.random() < 0.5:
                        w.release(e[1])
                for t in ts:
                    t.join()
                if errs:
                    raise errs[0]
                ops = [op for _, _, gs in plan for g in gs for op, _ in g]
                end = Op("list", solo=True)
                Client_ = clients[0]
                Client_.run(ck.rng("end", rnd), [(end, w.request(rng, end))])
                ops.append(end)
                states = sol.run(states, ops)
                ck.seen("operations judged", len(ops))
                ck.seen("rounds")
                ck.seen(f"rounds with at least {min(8, overlaps(ops) // 2 * 2)} requests at once")
                for o in ops:
                    ck.seen(f"{o.kind} {o.status}")
                ck.case((style, nthreads, tuple((o.kind, o.status) for o in ops)), {"style": style, "threads": nthreads, "ops": [f"{o.kind} {list(o.ids)} -> {o.status}" for o in ops][:12]})
                if len(states) > 50:
                    states = set(list(states))
        finally:
            for c in clients:
                c.close()
        if sum(e[2] == "fork" for e in m.events()) < 1:
            raise Inconclusive("nothing started")


def identities(ck, rng, slack):
    """Every operation on every kind of ID names exactly that ID."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        names = rng.sample(NAMES, 10) + ["".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(128, 0xd800), rng.randrange(0xe000, 0x11000), rng.randrange(0x10000, 0x110000)]))
                                                 for _ in range(rng.choice([1, 3, 20, 200]))) for _ in range(12)]
        names = list(dict.fromkeys(names))
        # and near misses of each
        for n in list(names):
            v = rng.choice([quote(n, safe=""), n + " ", n + "/", n.upper(), n + "\0"])
            if v not in names:
                names.append(v)
        rng.shuffle(names)
        pids, gone = {}, set()
        conn = m.connection(20 * slack)
        absent = set(rng.sample(names, len(names) // 4))
        for j, n in enumerate(names):
            if n not in absent:
                m.start({n: sp(m, f"w=1:{20+j}:{j}:0", "pause", fds=[["stdout", cap("memory")]])})
                pids[n] = m.get(n, conn=conn)["pid"]
        rng.shuffle(names)
        for n in names:
            p = "/procs/" + enc(rng, n)
            j = None
            for method, path in rng.sample([("GET", p), ("POST", p + "/signals/" + rng.choice(["9", "SIGKILL"])), ("GET", p + "/output/stdout/data"), ("DELETE", p)], 4):
                r = m.http(method, path, conn=conn)
                want = 404 if n in absent else 400 if method == "DELETE" and m.get(n, conn=conn) is not None and n not in gone else 200
                if method == "DELETE" and n not in absent and r.status == 200:
                    gone.add(n)
                    absent.add(n)
                    continue
                if "signals" in path and n not in absent and r.status == 200:
                    want = 200
                if r.status != want:
                    raise Broken("wrong-id", f"{method} {path} ({n!r}): {r.status}, expected {want}")
                if method == "GET" and r.status == 200 and path == p:
                    d = r.data["procs"]
                    if list(d) != [n] or d[n]["pid"] != pids[n]:
                        raise Broken("wrong-id", f"{method} {path} answered about {list(d)!r}")
            ck.case(("id", n), {"id": n, "path": p, "operations": "get, signal, output, delete"})
            left = m.list(conn=conn)
            if set(left) != set(pids) - gone:
                raise Broken("wrong-id", f"after operating on {n!r}: {sorted(set(left) ^ (set(pids) - gone))!r}")
        for n in list(left):
            if m.wait_done(n)["status"]["signum"] != 9:
                raise Broken("wrong-id", f"{n!r} not signalled")
            if m.http("DELETE", "/procs/" + enc(rng, n), conn=conn).status != 200:
                raise Broken("wrong-id", f"{n!r} not deleted")
        if m.list(conn=conn):
            raise Broken("wrong-id", f"left: {list(m.list())!r}")
        conn.close()


def snapshots(ck, rng, slack):
    """One client changes the registry; every listing others get meanwhile is one
    of the states it went through, at that time, and none goes back."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        bad = {"argv": ["/nonexistent"], "fds": []}
        names = [f"{c}{i}" for c in "AMaz~" for i in range(4)]
        fill = {f"{c}-{i}": bad for c in "BQm" for i in range(rng.choice([0, 10, 40]))}
        if fill:
            m.start(fill)
            m.wait_all(30 * slack)
        fill = frozenset(fill)
        states, inv, resp = [fill], [-INF], [-INF]   # state k holds once change k was made
        done = {}                                   # (id, pid) -> when it was known to have ended
        stop, errors = threading.Event(), []
        obs = []

        def reader():
            try:
                conn = m.connection(30 * slack)
                while not stop.is_set():
                    t0 = time.monotonic()
                    d = m.list(conn=conn)
                    obs.append((t0, time.monotonic(), frozenset(d), {i: (r["pid"], r["state"]) for i, r in d.items() if i not in fill}))
                conn.close()
            except BaseException as e:
                errors.append(e)
        ts = [threading.Thread(target=reader) for _ in range(3)]
        for t in ts:
            t.start()
        kinds = {}
        conn = m.connection(30 * slack)

        def change(to, f):
            t = time.monotonic()
            r = f()
            states.append(frozenset(to))
            inv.append(t)
            resp.append(time.monotonic())
            if r.status != 200:
                raise Broken("refused", f"{r.status} {r.body[:200]!r}")
        end = time.monotonic() + 2.5
        try:
            while time.monotonic() < end and not errors:
                now = states[-1]
                free = [n for n in names if n not in now]
                held = [n for n in names if n in now]
                what = rng.random()
                if free and (what < 0.4 or not held):
                    new = rng.sample(free, min(len(free), rng.choice([1, 2, 3, 8])))
                    for n in new:
                        kinds[n] = rng.choice(["bad", "bad", "brief", "held"])
                    spec = {n: bad if kinds[n] == "bad" else sp(m, "exit=3" if kinds[n] == "brief" else "pause") for n in new}
                    if held and rng.random() < 0.3:
                        r = m.post({**spec, rng.choice(held): bad}, conn=conn)
                        if r.status != 400:
                            raise Broken("refused", f"a start with an ID in use: {r.status}")
                    change(now | set(new), lambda: m.post(spec, conn=conn))
                elif what < 0.5:
                    n = rng.choice(held)
                    if kinds[n] == "held":
                        r = m.delete(n, conn=conn)
                        if r.status != 400:
                            raise Broken("refused", f"deletion of running {n}: {r.status}")
                else:
                    out = rng.sample(held, min(len(held), rng.choice([1, 2, 3, 8])))
                    for n in out:
                        if kinds[n] == "held":
                            m.signal(n, "SIGKILL", conn=conn)
                    for n in out:
                        r = m.wait_done(n, 20 * slack)
                        done[n, r["pid"]] = time.monotonic()
                    for n in out:
                        change(states[-1] - {n}, lambda: m.delete(n, conn=conn))
        finally:
            stop.set()
            for t in ts:
                t.join(60 * slack)
        if errors:
            raise errors[0]
        for n in states[-1] - fill:
            if kinds[n] == "held":
                m.signal(n, "SIGKILL")
        # Each listing is given the first state it can be of: one that might have
        # held while it was made, no older than any that a listing before it had.
        obs.sort(key=lambda o: o[1])
        low, lows, passed = 0, [], 0
        by_start = sorted(range(len(obs)), key=lambda j: obs[j][0])
        given, j = [None] * len(obs), 0
        ends = []
        for o in by_start:
            t0, t1, ids, recs = obs[o]
            # Given in the order of starts; those that ended before this started have all been given.
            while j < len(obs) and obs[j][1] < t0:
                if given[j] is not None:
                    low = max(low, given[j])
                j += 1
            k = low
            while k + 1 < len(states) and resp[k + 1] < t0:
                k += 1
            while k < len(states) and inv[k] <= t1 and states[k] != ids:
                k += 1
            if k == len(states) or inv[k] > t1:
                near = [(round(a - t0, 5), round(b - t0, 5), sorted(s - fill)) for a, b, s in zip(inv, resp, states) if b >= t0 - 0.02 and a <= t1]
                raise Broken("no-such-state", f"a listing made in {t1 - t0:.5f} s shows {sorted(ids - fill)} ({len(ids & fill)} of {len(fill)} others); the states then were {near}"[:1500])
            given[o] = k
            for i, (pid, state) in recs.items():
                if (i, pid) in done and done[i, pid] < t0 and state == "running":
                    raise Broken("went-back", f"{i} (pid {pid}) runs in a listing made after it was seen to have ended")
        conn.close()
        ck.seen("listings judged", len(obs))
        ck.seen("registry states", len(states))
        ck.case(("snapshots", tuple(given)), {"others": len(fill), "states": len(states), "listings": len(obs), "distinct states seen": len(set(given))})


def main(ck):
    ck.run_many(lambda i: (f"identities#{i}", identities) if i % 5 == 4 else (f"snapshots#{i}", snapshots) if i % 5 == 2 else (f"history#{i}", history),
                workers=4, at_least=8)


if __name__ == "__main__":
    run_check("P16", "a round of concurrent requests on several connections (kept, new, dribbled, pipelined) whose responses were explained by some sequential order consistent with real time; "
              "distinct by the sequence of operations and responses; or one ID through all operations, or the listings amid one client's changes, each a state of that time", main, quick_s=18, thorough_s=240)
