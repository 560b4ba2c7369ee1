"""P20: a connected agent reports every start, end and deletion, in order, without loss."""
import collections, http.client, json, os, threading, time
from core import *
from mgr import *
from agentsrv import *


NEVER = ("bad", "badfd", "badfds", "nofork")


class Inc:
    """One incarnation of an ID."""
    def __init__(self, w, rng, k, big):
        self.id, self.serial = k, w.serial()
        self.kind = rng.choice(["quick", "quick", "gated", "gated", "orphan", "killed", "bad", "badfd", "badfds"])
        self.fill = rng.choice([0, 0, 1, 5, 20])
        self.len = rng.choice([0, 30, 2000, 2000] + ([100_000, 400_000] if big else []))
        self.mode = rng.choice(["memory", "tempfile"])
        self.enc = rng.choice([None, "utf-8"])
        self.gate = w.m.dir / f"g{self.serial}"
        self.w = w
        self.deleted = self.over = False
        self.starts = 1     # a start is reported

    def no_fork(self):
        self.kind, self.starts, self.over = "nofork", 0, True

    def spec(self):
        m = self.w.m
        fds = [["stdout", cap(self.mode, self.enc)], [str(1000 + self.serial), cap("memory")], *([str(20 + j), {"null": {}}] for j in range(self.fill))]
        s = self.serial
        if self.kind == "badfds":
            return sp(m, "exit=0", fds=[*fds, *([str(50 + j), {"file": {"path": "/nonexistent/d/f", "flags": "Read"}}] for j in range(2 + self.fill))])
        if self.kind in ("bad", "nofork"):
            return {"argv": ["/nonexistent/p20"], "fds": fds}
        if self.kind == "badfd":
            return sp(m, "exit=0", fds=[*fds, ["9", {"file": {"path": "/nonexistent/d/f", "flags": "Read"}}]])
        ops = [f"w=1:{self.len}:{s}:0"]
        if self.kind == "orphan":
            # Its descendant keeps the captured output open.
            ops += ["fork{", "us=60000000", "}"]
        if self.kind in ("gated", "orphan"):
            ops += [f"waitfile={self.gate}", f"exit={s % 100}"]
        elif self.kind == "killed":
            ops += ["pause"]
        else:
            ops += [f"exit={s % 100}"]
        return sp(m, *ops, fds=fds)

    def release(self):
        if self.kind in ("gated", "orphan"):
            self.gate.touch()
            os.chmod(self.gate, 0o666)
        elif self.kind == "killed":
            self.w.m.signal(self.id, 9)

    def check(self, r):
        """r is a result of this incarnation; returns whether it is final."""
        w = f"{self.id!r} incarnation {self.serial} ({self.kind})"
        if r["state"] == "running":
            return False
        if self.kind in NEVER:
            if r["state"] != "error" or not r["errors"]:
                raise Broken("wrong-result", f"{w}: {r['state']} {r['errors']}")
        else:
            st = r["status"]
            good = st and (st["signum"] == 9 if self.kind == "killed" else st["exit_code"] == self.serial % 100)
            if r["state"] != "terminated" or not good:
                raise Broken("wrong-result", f"{w}: {r['state']} {st} {r['errors']}")
            f = r["fds"]["stdout"]
            b = f["text"].encode() if f["type"] == "text" else (f["data"] if isinstance(f["data"], bytes) else __import__("base64").b64decode(f["data"]))
            if self.kind != "killed" and b != pattern(self.len, self.serial):
                raise Broken("wrong-result", f"{w} output: {diff_at(b, pattern(self.len, self.serial))}")
        return True


def inc_of(r):
    x = [int(k) - 1000 for k in r["fds"] if k.isdigit() and int(k) > 1000]
    if len(x) != 1:
        raise Broken("unattributable", f"result with fds {sorted(r['fds'])}")
    return x[0]


class World:
    def __init__(self, ck, rng, m, srv, slack):
        self.ck, self.rng, self.m, self.srv, self.slack = ck, rng, m, srv, slack
        self.n = 0
        self.lock = threading.Lock()
        self.incs = collections.defaultdict(list)   # id -> incarnations in order
        self.asked = collections.Counter()          # id -> result requests sent
        self.refusals = collections.Counter()       # id -> refused starts or deletions expected
        self.expect = []                            # replies expected in order: (kind, key)

    def serial(self):
        with self.lock:
            self.n += 1
            return self.n

    def cur(self, k):
        l = self.incs[k]
        return l[-1] if l and not l[-1].deleted else None


def judge(w, c, since=0):
    """Everything the server was told, per process and in order."""
    with c.cv:
        frames = [m for _, m in c.frames[since:]]
    at = collections.defaultdict(int)       # id -> index of the current incarnation
    prs = collections.Counter()             # (id, serial) -> results
    final = set()
    total, unknown = collections.Counter(), collections.Counter()
    replies = []
    for f in frames:
        t = f["type"]
        if t == "ProcResult":
            k, r = f["proc_id"], f["res"]
            s = inc_of(r)
            total[k] += 1
            l = w.incs.get(k) or []
            if at[k] >= len(l):
                raise Broken("after-deletion", f"result of {k!r} (incarnation {s}) after all {len(l)} were deleted")
            inc = l[at[k]]
            if s != inc.serial:
                raise Broken("misattributed", f"{k!r}: result of incarnation {s} while the current one, as the server was told, is {inc.serial}")
            prs[k, s] += 1
            if inc.check(r):
                final.add((k, s))
            elif (k, s) in final:
                raise Broken("back-to-life", f"{k!r} incarnation {s} was reported final, then running")
        elif t == "ProcDelete":
            k = f["proc_id"]
            l = w.incs.get(k) or []
            if at[k] >= len(l):
                raise Broken("deleted-twice", f"{k!r}: {at[k] + 1} deletion notices for {len(l)} processes")
            inc = l[at[k]]
            if prs[k, inc.serial] < 1 + inc.starts or (k, inc.serial) not in final:
                raise Broken("lost-notice", f"{k!r} incarnation {inc.serial} ({inc.kind}): deletion reported after {prs[k, inc.serial]} results, final state {'reported' if (k, inc.serial) in final else 'never reported'}")
            if not inc.deleted:
                raise Broken("false-deletion", f"{k!r} incarnation {inc.serial} was not deleted")
            at[k] += 1
        elif t == "ProcUnknown":
            unknown[f["proc_id"]] += 1
            replies.append(("unknown", f["proc_id"]))
        elif t == "RequestError":
            replies.append(("error", f["msg"].get("proc_id") or tuple(sorted(f["msg"].get("specs") or ()))))
        elif t == "ProcidList":
            replies.append(("list", len(replies)))
        elif t == "ProcFdData":
            replies.append(("data", f["proc_id"], f["start"]))
    for k, l in w.incs.items():
        nd = sum(i.deleted for i in l)
        if at[k] != nd:
            raise Broken("lost-notice", f"{k!r}: {nd} deletions, {at[k]} reported")
        for i in l:
            if i.over or i.deleted:
                if (k, i.serial) not in final:
                    raise Broken("lost-notice", f"{k!r} incarnation {i.serial} ({i.kind}): its end was never reported ({prs[k, i.serial]} results)")
            if prs[k, i.serial] < i.starts + (i.over or i.deleted):
                raise Broken("lost-notice", f"{k!r} incarnation {i.serial} ({i.kind}): {prs[k, i.serial]} results")
        want = sum(i.starts + (i.over or i.deleted) for i in l) + w.asked[k] - unknown[k]
        # (The start of what could not be forked may be reported or not.)
        if not want <= total[k] <= want + sum(not i.starts for i in l):
            raise Broken("duplicate-or-lost", f"{k!r}: {total[k]} results for {[(i.serial, i.kind) for i in l]}, {w.asked[k]} requests ({unknown[k]} unknown), expected {want}")
    got = [r[:2] if r[0] != "list" else ("list",) for r in replies]
    want = [e[:2] if e[0] != "list" else ("list",) for e in w.expect]
    if got != want:
        j = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Broken("reply-order", f"replies differ from requests at {j}: got {got[j:j+4]}, expected {want[j:j+4]} ({len(got)} vs {len(want)})")
    return len(frames)


def history(ck, rng, slack):
    stall = rng.random() < 0.5
    with AgentServer(rcvbuf=rng.choice([None, 4096])) as srv, agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        if rng.random() < 0.5:
            for s in rng.sample(["fork", "read", "write", "wait4", "epoll"], 2):
                m.ctl.delay(s, rng.choice([100, 1000]), 100)
        c = srv.wait_conn(0, timeout=15 * slack)
        w = World(ck, rng, m, srv, slack)
        ids = [f"i{j}" for j in range(rng.choice([1, 2, 4, 8]))] + rng.sample(["a b", "ü", "x/y", "", "\n"], 2)
        ids = [i for i in ids if i]
        conn = m.connection(20 * slack)
        steps = rng.choice([20, 40]) if ck.quick else 80
        big = rng.random() < 0.5
        stalled_at = None
        did = collections.Counter()
        qn = 0
        for step in range(steps):
            if stall and stalled_at is None and rng.random() < 0.15:
                c.stalled, stalled_at = True, step
                did["stalls"] += 1
            elif stalled_at is not None and step - stalled_at > rng.choice([3, 8, 15]):
                c.stalled, stalled_at = False, None
            a = rng.choice(["start", "start", "start", "end", "end", "delete", "delete", "delete", "ask", "ask", "unknown", "data", "list", "pause", "recycle", "batch", "dup"])
            k = rng.choice(ids)
            i = w.cur(k)
            if stalled_at is not None and a in ("ask", "data") and rng.random() < 0.7:
                continue
            via = "http" if stalled_at is not None and rng.random() < 0.8 else rng.choice(["http", "agent"])
            did[a] += 1
            if a in ("start", "batch"):
                free = [x for x in ids if w.cur(x) is None]
                these = rng.sample(free, min(len(free), 1 if a == "start" else rng.choice([2, 4])))
                if not these:
                    continue
                new = [Inc(w, rng, x, big) for x in these]
                nofork = via == "http" and rng.random() < 0.15
                if nofork:
                    for n in new:
                        n.no_fork()
                specs = {n.id: n.spec() for n in new}
                if via == "http":
                    # Whatever was sent before by the server must have been handled.
                    sync(w, c, stalled_at)
                    if nofork:
                        m.ctl.fail("fork", rng.choice([11, 12]), 0, False, 1)
                    m.start(specs, conn=conn)
                    if nofork:
                        m.ctl.disarm("fork", False)
                        ck.seen("starts for want of a process", len(new))
                else:
                    c.send("ProcStartRequest", specs=specs)
                    w.dirty = True
                for n in new:
                    w.incs[n.id].append(n)
            elif a == "dup" and i is not None and stalled_at is None:
                sync(w, c, stalled_at)
                c.send("ProcStartRequest", specs={k: {"argv": ["/bin/true"]}})
                w.expect.append(("error", (k,)))
            elif a == "end" and i is not None and not i.over:
                sync(w, c, stalled_at)
                i.release()
                i.over = True
                w.m.wait_done(k)
            elif a == "delete" and i is not None:
                sync(w, c, stalled_at)
                if not i.over:
                    i.release()
                    i.over = True
                m.wait_done(k)
                if via == "http":
                    if m.delete(k, conn=conn).status != 200:
                        raise Broken("delete-refused", k)
                else:
                    c.send("ProcDeleteRequest", proc_id=k)
                    w.dirty = True
                i.deleted = True
            elif a == "recycle":
                # Several lives of one ID in quick succession.
                sync(w, c, stalled_at)
                if i is not None:
                    if not i.over:
                        i.release()
                        i.over = True
                    m.wait_done(k)
                    m.delete(k, conn=conn)
                    i.deleted = True
                for _ in range(rng.choice([1, 2, 4])):
                    n = Inc(w, rng, k, False)
                    m.start({k: n.spec()}, conn=conn)
                    w.incs[k].append(n)
                    n.release()
                    n.over = True
                    m.wait_done(k)
                    if m.delete(k, conn=conn).status != 200:
                        raise Broken("delete-refused", k)
                    n.deleted = True
            elif a == "ask" and i is not None:
                c.send("ProcResultRequest", proc_id=k)
                w.dirty = True
                w.asked[k] += 1
            elif a == "unknown":
                qn += 1
                t = rng.choice(["ProcResultRequest", "ProcDeleteRequest", "ProcSignalRequest", "ProcFdDataRequest"])
                kw = {"signum": 0} if t == "ProcSignalRequest" else {"fd": "stdout", "start": 0, "stop": None} if t == "ProcFdDataRequest" else {}
                c.send(t, proc_id=f"q{qn}", **kw)
                w.expect.append(("unknown", f"q{qn}"))
            elif a == "data" and i is not None:
                c.send("ProcFdDataRequest", proc_id=k, fd="stdout", start=0, stop=0)
                w.dirty = True
                w.expect.append(("data", k))
            elif a == "list":
                c.send("ProcidListRequest")
                w.expect.append(("list",))
            elif a == "pause":
                time.sleep(rng.choice([0, 0.01, 0.05]))
        # Everything ends, and is deleted in part; then all must have been reported.
        c.stalled = False
        sync(w, c, None)
        for k in ids:
            i = w.cur(k)
            if i is not None:
                if rng.random() < 0.7:
                    if not i.over:
                        i.release()
                        i.over = True
                    m.wait_done(k)
                elif i.kind in ("quick", *NEVER):
                    m.wait_done(k)
                    i.over = True
        finish(ck, w, c, slack)
        for what, n in did.items():
            ck.seen(f"steps: {what}", n)
        ck.case((stall, big, tuple(sorted(did.items())), tuple(sorted((k, len(l)) for k, l in w.incs.items()))),
                {"steps": dict(did), "incarnations": {k: [i.kind for i in l] for k, l in list(w.incs.items())[:4]}, "server stalls": did["stalls"]})
        conn.close()


def sync(w, c, stalled_at):
    """Requests sent to the agent so far have taken effect."""
    if not getattr(w, "dirty", False):
        return
    was = c.stalled
    c.stalled = False
    c.barrier(30 * w.slack)
    w.expect.append(("unknown", "no such proc/barrier"))
    c.stalled = was
    w.dirty = False


def finish(ck, w, c, slack):
    """Waits until the notices should be in, then judges."""
    for _ in range(2):
        c.barrier(40 * slack)
        w.expect.append(("unknown", "no such proc/barrier"))
    # Quick processes nobody waited for may end at any time.
    for l in w.incs.values():
        for i in l:
            if not i.over and not i.deleted and i.kind in ("quick", *NEVER):
                w.m.wait_done(i.id)
                i.over = True

    def complete():
        try:
            judge(w, c)
            return True
        except Broken as e:
            if e.sig not in ("lost-notice", "duplicate-or-lost", "reply-order"):
                raise
            return False
    if not wait_for(complete, 1.5 * slack):
        n = c.mark()
        time.sleep(0.3)
        judge(w, c)
    time.sleep(0.02)
    n = judge(w, c)
    ck.seen("messages judged", n)
    ck.seen("processes followed", sum(len(l) for l in w.incs.values()))
    if len(w.srv.conns) != 1:
        raise Broken("agent-connection-lost", "the agent connected again")


def burst(ck, rng, slack):
    """Very many start and end at once, results large, server slow."""
    with AgentServer(rcvbuf=rng.choice([None, 4096])) as srv, agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        c = srv.wait_conn(0, timeout=15 * slack)
        w = World(ck, rng, m, srv, slack)
        n = rng.choice([60, 150, 300])
        gate = m.dir / "all"
        size = rng.choice([0, 100, 20000])
        via = rng.choice(["http", "agent", "agent-each"])
        for j in range(n):
            i = Inc(w, rng, f"b{j}", False)
            i.kind, i.len, i.gate = "gated", size, gate
            w.incs[i.id].append(i)
        if rng.random() < 0.5:
            c.stalled = True
        specs = {k: l[0].spec() for k, l in w.incs.items()}
        if via == "http":
            m.start(specs, timeout=60 * slack)
        elif via == "agent":
            c.send("ProcStartRequest", specs=specs)
        else:
            for k, s in specs.items():
                c.send("ProcStartRequest", specs={k: s})
        if rng.random() < 0.5 and not (c.stalled and via == "agent-each"):
            wait_for(lambda: len(m.list()) == n, 30 * slack, "all start")
        gate.touch()
        os.chmod(gate, 0o666)
        time.sleep(rng.choice([0, 0.3]))
        c.stalled = False
        wait_for(lambda: len(c.msgs("ProcResult")) >= 2 * n, 40 * slack, None)
        for l in w.incs.values():
            m.wait_done(l[0].id)
            l[0].over = True
        ids = list(w.incs)
        rng.shuffle(ids)
        if rng.random() < 0.3:
            c.stalled = True
        mode = rng.choice(["http", "agent"])
        if mode == "agent":
            c.stalled = False
        for k in ids[: n // 2]:
            if mode == "http":
                m.delete(k)
            else:
                c.send("ProcDeleteRequest", proc_id=k)
            w.incs[k][0].deleted = True
        c.stalled = False
        finish(ck, w, c, slack)
        ck.case(("burst", n, size, via, mode), {"processes": n, "output each": size, "started by": via, "deleted by": mode})


def pending(ck, rng, slack):
    """Things happen between registration and its confirmation."""
    hold = threading.Event()

    def policy(conn):
        conn.start_tls()
        conn.read_request()
        conn.send_raw(conn.answer())
        conn.read_register()
        hold.wait(20)
        conn.send("Registered")
        conn.loop()
    with AgentServer(policy) as srv, agent(ck, srv, serve=True) as m:
        os.chmod(m.dir, 0o777)
        w = World(ck, rng, m, srv, slack)
        c = wait_for(lambda: srv.conns and srv.conns[-1].register and srv.conns[-1], 15 * slack, "agent registers")
        if c.register["proc_ids"]:
            raise Broken("false-register", f"{c.register['proc_ids']}")
        for j in range(rng.choice([1, 3, 6])):
            k = f"p{j % 4}"
            i = w.cur(k)
            if i is not None:
                if not i.over:
                    i.release()
                    i.over = True
                m.wait_done(k)
                m.delete(k)
                i.deleted = True
            n = Inc(w, rng, k, False)
            m.start({k: n.spec()})
            w.incs[k].append(n)
            if rng.random() < 0.5:
                n.release()
                n.over = True
                m.wait_done(k)
        hold.set()
        c = srv.wait_conn(0, timeout=15 * slack)
        finish(ck, w, c, slack)
        ck.case(("pending", tuple(sorted((k, len(l)) for k, l in w.incs.items()))), {"while registering": {k: [i.kind for i in l] for k, l in w.incs.items()}})


def gap(ck, rng, slack):
    """What happened while there was no connection is not told to the next as news."""
    allow, first = threading.Event(), rng.random() < 0.5

    def policy(conn):
        if not allow.is_set() and (conn.index or not first):
            conn.drop()
            return
        conn.start_tls()
        conn.read_request()
        conn.send_raw(conn.answer())
        conn.read_register()
        conn.send("Registered")
        conn.loop()
    with AgentServer(policy) as srv, agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        w = World(ck, rng, m, srv, slack)
        if first:
            wait_for(lambda: srv.conns and srv.conns[0].register, 15 * slack, "agent registers")
            srv.conns[0].barrier(15 * slack)
        drop = rng.randrange(6) if first else None
        for j in range(rng.choice([2, 6, 12])):
            if j == drop:
                srv.conns[0].drop(rst=rng.random() < 0.5)
                time.sleep(rng.choice([0, 0.02]))
            k = f"p{j % 4}"
            i = w.cur(k)
            if i is not None:
                if not i.over:
                    i.release()
                    i.over = True
                m.wait_done(k)
                m.delete(k)
                i.deleted = True
                if rng.random() < 0.3:
                    continue
            n = Inc(w, rng, k, False)
            if n.kind == "quick":
                n.kind = "gated"
            m.start({k: n.spec()})
            w.incs[k].append(n)
            if n.kind in NEVER or rng.random() < 0.5:
                n.release()
                n.over = True
                m.wait_done(k)
        if first and not srv.conns[0].closed:
            srv.conns[0].drop()
        # The next connection knows what is there when it begins, and hears of what happens from then on.
        for k in list(w.incs):
            i = w.cur(k)
            w.incs[k] = [i] if i else []
            if i:
                i.starts = -1 if i.over else 0
        allow.set()
        c = wait_for(lambda: next((x for x in srv.conns[first:] if x.register), None), 15 * slack, "agent registers again")
        if sorted(c.register["proc_ids"]) != sorted(k for k, l in w.incs.items() if l):
            raise Broken("false-register", f"{c.register['proc_ids']}, there are {[k for k, l in w.incs.items() if l]}")
        c.barrier(15 * slack)
        w.expect.append(("unknown", "no such proc/barrier"))
        for k, l in w.incs.items():
            if l:
                c.send("ProcResultRequest", proc_id=k)
                w.asked[k] += 1
                w.dirty = True
        sync(w, c, None)
        for k in sorted(w.incs):
            i = w.cur(k)
            if i and rng.random() < 0.8:
                if not i.over:
                    i.release()
                    i.over = True
                m.wait_done(k)
                if rng.random() < 0.5:
                    m.delete(k)
                    i.deleted = True
                    n = Inc(w, rng, k, False)
                    m.start({k: n.spec()})
                    w.incs[k].append(n)
        known = [x for x in srv.conns if x.register]
        w.srv = type("S", (), {"conns": [c]})
        finish(ck, w, c, slack)
        if len(known) != 1 + first:
            raise Broken("agent-connection-lost", f"{len(known)} registrations")
        ck.seen("connections followed from a gap on")
        ck.case(("gap", first, tuple(sorted((k, len(l)) for k, l in w.incs.items()))), {"after a gap": {k: [i.kind for i in l] for k, l in w.incs.items()}})


class Ahead:
    """Stands for the manager before it runs."""
    def __init__(self, d):
        self.dir, self.probe = d, None


def ending(ck, rng, slack):
    """The agent exits by itself once its work is done; all of it must have been reported."""
    how = rng.choice(["exit", "exit", "exit", "wait", "idle"])
    d = ck.scratch / f"end{ck.next_uid()}"
    d.mkdir()
    os.chmod(d, 0o777)
    with AgentServer(rcvbuf=rng.choice([None, 4096])) as srv:
        w = World(ck, rng, Ahead(d), srv, slack)
        hold = Inc(w, rng, "hold", False)
        hold.kind, hold.starts, hold.len = "gated", 0, 100
        w.m = str(ck.probe)
        spec = {"hold": dict(argv=[str(ck.probe), f"w=1:100:{hold.serial}:0", f"waitfile={hold.gate}", f"exit={hold.serial % 100}"],
                             fds=[["stdout", cap(hold.mode, hold.enc)], [str(1000 + hold.serial), cap("memory")]])}
        args = {"exit": ["--exit"], "wait": ["--wait"]}.get(how, [])
        with agent(ck, srv, *args, serve=True, spec={"specs": spec}, seed=rng.randrange(1 << 30)) as m:
            os.chmod(m.dir, 0o777)
            w.m = m
            w.incs["hold"].append(hold)
            c = srv.wait_conn(0, timeout=15 * slack)
            if c.register["proc_ids"] != ["hold"]:
                raise Broken("false-register", f"{c.register['proc_ids']}")
            # (Its registration isn't a result.)
            c.send("ProcResultRequest", proc_id="hold")
            w.asked["hold"] += 1
            w.dirty = True
            n = rng.choice([1, 2, 4, 8, 30])
            new = [Inc(w, rng, f"e{j}", rng.random() < 0.1) for j in range(n)]
            for i in new:
                if i.kind == "orphan" and how != "exit":
                    i.kind = "gated"
            sync(w, c, None)
            if rng.random() < 0.5:
                m.start({i.id: i.spec() for i in new})
            else:
                c.send("ProcStartRequest", specs={i.id: i.spec() for i in new})
                w.dirty = True
            for i in new:
                w.incs[i.id].append(i)
            sync(w, c, None)
            early = rng.sample(new, rng.randrange(n + 1))
            for i in early:
                i.release()
                i.over = True
                m.wait_done(i.id)
                if rng.random() < 0.4:
                    m.delete(i.id)
                    i.deleted = True
            if rng.random() < 0.3:
                # Its reason to exit comes up while it cannot send.
                c.stalled = True
            rest = [hold, *(i for i in new if not i.over)]
            rng.shuffle(rest)
            if how == "idle":
                os.kill(m.pid, 10)
            rest.sort(key=lambda i: i.kind not in ("bad", "badfd", "badfds", "quick", "killed"))
            for i in rest:
                try:
                    i.release()
                except (OSError, http.client.HTTPException):
                    # Nothing was left running, so it may be exiting.
                    if how != "exit" or i is not rest[-1]:
                        raise
                i.over = True
            if how == "exit":
                for i in w.incs.values():
                    i[-1].deleted = True
            else:
                left = [l[-1] for l in w.incs.values() if not l[-1].deleted]
                for i in left:
                    m.wait_done(i.id)
                rng.shuffle(left)
                for i in left:
                    try:
                        if m.delete(i.id).status != 200:
                            raise Broken("delete-refused", i.id)
                    except (OSError, http.client.HTTPException):
                        if i is not left[-1]:
                            raise
                    i.deleted = True
            time.sleep(rng.choice([0, 0.01, 0.2]))
            c.stalled = False
            st = m.wait_exit(20 * slack)
            if st != 0:
                raise Broken("exit-status", f"{how}: {st}: {m.stderr()[-200:]}")
            wait_for(lambda: c.closed or getattr(c, "over", False), 10 * slack, "the connection ends")
            k = judge(w, c)
            last = c.frames[-1][1]
            if last["type"] != "ShutDown":
                raise Broken("after-the-end", f"the last message is {last['type']}")
            ck.seen("messages judged", k)
            ck.seen("processes followed", n + 1)
            ck.seen("exits followed to the end")
            ck.case(("ending", how, tuple(i.kind for i in new), len(early)), {"exit by": how, "processes": [i.kind for i in new][:8], "ended before": len(early)})


def main(ck):
    def make(i):
        c = i % 8
        return (f"burst#{i}", burst) if c == 3 else (f"pending#{i}", pending) if c == 5 else (f"gap#{i}", gap) if c == 2 else (f"ending#{i}", ending) if c in (1, 7) else (f"history#{i}", history)
    ck.run_many(make, workers=6, at_least=16)


if __name__ == "__main__":
    run_check("P20", "one history of starts, ends, deletions, ID reuse and requests over agent and HTTP, with the server slow or stalled, all messages to the server compared with it; "
              "distinct by the steps taken", main, quick_s=16, thorough_s=240)
