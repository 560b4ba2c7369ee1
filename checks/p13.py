"""P13: a record is deleted only on request, only when not running, and completely."""
import collections, os, threading, time
from core import *
from mgr import *
from agentsrv import *

FDKINDS = ["memory", "tempfile"]


class Inc:
    """One incarnation of an ID."""
    def __init__(self, m, rng, tag, serial):
        self.serial, self.gate = serial, m.dir / f"gate{tag}{serial}"
        self.kind = rng.choice(["ok", "ok", "ok", "fail-exec", "fail-fd", "kill"])
        self.len = rng.choice([0, 50, 5000])
        self.len2 = rng.choice([0, 70])
        self.mode = rng.choice(FDKINDS)
        self.enc = rng.choice([None, "utf-8"])
        fds = [["stdout", cap(self.mode, self.enc)]]
        if self.kind == "fail-exec":
            self.spec = {"argv": ["/nonexistent/p13"], "fds": fds}
        elif self.kind == "fail-fd":
            self.spec = sp(m, "exit=0", fds=fds + [[str(7 + j), {"file": {"path": "/nonexistent/d/f", "flags": "Read"}}] for j in range(rng.choice([1, 1, 2, 5]))])
        else:
            self.spec = sp(m, f"w=1:{self.len}:{serial}:0", f"waitfile={self.gate}", f"w=1:{self.len2}:{serial}:0:{self.len}",
                           *(["kill=9"] if self.kind == "kill" else [f"exit={serial % 90}"]), fds=fds)
        self.ended = self.kind.startswith("fail")
        self.pid = None

    def release(self):
        self.gate.touch()
        os.chmod(self.gate, 0o666)
        self.ended = True

    def check(self, k, r, final):
        """r is a result of this incarnation, and of no other."""
        w = f"{k!r} incarnation {self.serial} ({self.kind})"
        if self.pid is None:
            self.pid = r["pid"]
        if r["pid"] != self.pid:
            raise Broken("trace-of-old", f"{w}: pid {r['pid']}, was {self.pid}")
        if self.kind.startswith("fail"):
            if final and (r["state"] != "error" or not r["errors"]):
                raise Broken("trace-of-old", f"{w}: {r['state']} {r['errors']}")
            return
        if r["errors"]:
            raise Broken("trace-of-old", f"{w}: errors {r['errors']}")
        b = fd_bytes(r["fds"]["stdout"])
        want = pattern(self.len + self.len2, self.serial)
        if not want.startswith(b) or final and b != want:
            raise Broken("trace-of-old", f"{w}: output {diff_at(b, want)}")
        if final:
            st = r["status"]
            if r["state"] != "terminated" or (st["signum"] != 9 if self.kind == "kill" else st["exit_code"] != self.serial % 90):
                raise Broken("trace-of-old", f"{w}: {r['state']} {st}")


def unknown(m, c, rng, k, slack, why):
    """Every operation says that k is unknown."""
    p = "/procs/" + quote(k, safe="")
    for meth, path in (("GET", p), ("DELETE", p), ("POST", p + "/signals/15"), ("GET", p + "/output/1/data")):
        r = m.http(meth, path)
        if r.status != 404:
            raise Broken("not-unknown", f"{why}: {meth} {path} gives {r.status} {r.body[:150]!r}")
    if k in m.list():
        raise Broken("not-unknown", f"{why}: {k!r} is listed")
    if c:
        for t, f in (("ProcResultRequest", {}), ("ProcSignalRequest", {"signum": 15}), ("ProcFdDataRequest", {"fd": "stdout", "start": 0, "stop": None}), ("ProcDeleteRequest", {})):
            since = c.mark()
            c.send(t, proc_id=k, **f)
            c.barrier(20 * slack)
            got = [x for x in c.msgs()[since:] if x["type"] == "ProcUnknown" and x["proc_id"] == k]
            if len(got) != 1:
                raise Broken("not-unknown", f"{why}: {t} answered {[x['type'] for x in c.msgs()[since:]]}")
        x = c.request("ProcidListRequest", lambda x: x["type"] == "ProcidList", 20 * slack)
        if k in x["proc_ids"]:
            raise Broken("not-unknown", f"{why}: {k!r} is in the agent's list")


def delete(m, c, rng, k, slack, via=None):
    """ok, running or unknown."""
    if c and (via == "agent" or via is None and rng.random() < 0.5):
        since = c.mark()
        c.send("ProcDeleteRequest", proc_id=k)
        c.barrier(20 * slack)
        for x in c.msgs()[since:]:
            if x["type"] == "RequestError" and x["msg"].get("proc_id") == k and x["msg"].get("type") == "ProcDeleteRequest":
                return "running"
            if x["type"] == "ProcUnknown" and x["proc_id"] == k:
                return "unknown"
        return "ok"
    st = m.delete(k).status
    if st == 200:
        return "ok"
    if st == 404:
        return "unknown"
    if 400 <= st < 500:
        return "running"
    raise Broken("bad-status", f"DELETE: {st}")


def model(ck, rng, slack, use_agent):
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    try:
        with m:
            os.chmod(m.dir, 0o777)
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            m.start({"warm": sp(m, "exit=0", fds=[["1", cap()]])})
            m.wait_done("warm")
            m.delete("warm")
            wait_for(lambda: not any(t.startswith("pipe:") for f, t in m.fds().items() if f > 12), 2)
            base = m.fds()
            ids = rng.sample(["a", "b c", "x/y", "é", "..", "%41", "A", "w"], 3)
            recs, dels, serial = {}, collections.Counter(), rng.randrange(1000) * 1000
            trace = []
            for step in range(60 if ck.quick else 150):
                k = rng.choice(ids)
                op = rng.choice(["start", "start", "delete", "delete", "end", "query", "signal", "list", "near"])
                cur = recs.get(k)
                trace.append(f"{op} {k!r}")
                if op == "start" and cur is None:
                    serial += 1
                    x = Inc(m, rng, f"{ids.index(k)}-", serial)
                    if x.kind == "fail-exec" and rng.random() < 0.4:
                        # Not even forked.
                        m.ctl.fail("fork", 11)
                    if c and rng.random() < 0.4:
                        c.send("ProcStartRequest", specs={k: x.spec})
                        c.barrier(20 * slack)
                    else:
                        m.start({k: x.spec})
                    recs[k] = x
                    r = m.get(k)
                    if r is None:
                        raise Broken("record-lost", f"no record right after the start; {trace[-6:]}")
                    x.check(k, r, False)
                    if x.ended:
                        m.wait_done(k, 20 * slack)
                elif op == "start":
                    if m.post({k: sp(m, "exit=0")}).status == 200:
                        raise Broken("id-reused", f"{k!r} started over an existing record; {trace[-6:]}")
                elif op == "end" and cur and not cur.ended:
                    cur.release()
                    m.wait_done(k, 20 * slack)
                elif op == "signal" and cur and not cur.ended:
                    if rng.random() < 0.3:
                        m.signal(k, 18)
                elif op == "query":
                    r = m.get(k)
                    if (r is None) != (cur is None):
                        raise Broken("record-lost" if r is None else "not-unknown", f"{k!r}: record {'missing' if r is None else 'present'}; {trace[-6:]}")
                    if cur:
                        cur.check(k, r, cur.ended)
                        if not cur.ended and r["state"] != "running":
                            raise Broken("ended-early", f"{k!r} {r['state']}; {trace[-6:]}")
                elif op == "near" and cur:
                    # No other spelling means this record.
                    near = rng.choice([k + "/", k + " ", " " + k, "/" + k, k + "0", k[:-1], k.swapcase(), k + "\0", quote(k + "/", safe=""), k + "\u0301", "./" + k])
                    if near and near not in recs:
                        unknown(m, c, rng, near, slack, f"{near!r}, while there is {k!r}")
                        cur.check(k, m.get(k), cur.ended)
                        ck.seen("names near a record's")
                elif op == "list":
                    l = m.list()
                    if set(l) != set(recs):
                        raise Broken("record-lost", f"listed {set(l)}, kept {set(recs)}; {trace[-6:]}")
                elif op == "delete":
                    want = "unknown" if cur is None else "ok" if cur.ended else "running"
                    if want == "ok":
                        cur.check(k, m.get(k), True)
                    got = delete(m, c, rng, k, slack)
                    if got != want:
                        raise Broken("wrong-deletion", f"deleting {k!r} ({'no record' if not cur else cur.kind + (' ended' if cur.ended else ' running')}): {got}, expected {want}; {trace[-6:]}")
                    ck.case(f"delete {cur and cur.kind} {cur and cur.ended} {cur and cur.mode} {c is not None} {got}", {"record": cur and cur.kind, "ended": cur and cur.ended, "outcome": got})
                    if got == "ok":
                        dels[k] += 1
                        del recs[k]
                        unknown(m, c, rng, k, slack, f"after deleting it ({trace[-4:]})")
                    elif got == "running":
                        r = m.get(k)
                        if r is None or r["state"] != "running" or not os.path.exists(f"/proc/{cur.pid}"):
                            raise Broken("refused-but-affected", f"{k!r} after a refused deletion: {r and r['state']}")
                        cur.check(k, r, False)
                ck.seen("operations compared")
            for k, x in recs.items():
                if not x.ended:
                    x.release()
                x.check(k, m.wait_done(k, 20 * slack), True)
                if delete(m, c, rng, k, slack) != "ok":
                    raise Broken("wrong-deletion", f"final deletion of {k!r}")
                dels[k] += 1
            if m.list():
                raise Broken("not-unknown", f"records left: {list(m.list())}")

            def back():
                return {f: t for f, t in m.fds().items() if not t.startswith("socket:")} == {f: t for f, t in base.items() if not t.startswith("socket:")}
            if not wait_for(back, 5 * slack):
                raise Broken("not-released", f"descriptors {({f: t for f, t in m.fds().items() if base.get(f) != t})} after all was deleted")
            if c:
                c.barrier(20 * slack)
                got = collections.Counter(x["proc_id"] for x in c.msgs("ProcDelete"))
                got.pop("warm", None)
                if got != dels:
                    raise Broken("announced", f"deletions announced {dict(got)}, made {dict(dels)}")
                ck.seen("deletions announced once", sum(dels.values()))
    finally:
        if srv:
            srv.close()


def races(ck, rng, slack, use_agent):
    """Several deleters of one ID, racing its end."""
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    try:
        with m:
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            if rng.random() < 0.5:
                m.ctl.delay("wait4", rng.choice([500, 5000, 20000]), 700)
            nd = rng.choice([2, 4])
            lives = []
            for j in range(12 if ck.quick else 30):
                k = f"r{j % 2}"
                us = rng.choice([0, 1000, 10000, 30000])
                mode = rng.choice(FDKINDS)
                m.start({k: sp(m, f"w=1:400:{j}:0", f"us={us}", f"mark={m.dir}/end{j}:end", f"exit={j}", fds=[["1", cap(mode)]])})
                r0 = m.get(k)
                pid = r0["pid"]
                out, errs, won = [], [], threading.Event()

                def deleter(r):
                    try:
                        conn = m.connection(20 * slack)
                        while not won.is_set():
                            t0 = time.monotonic_ns()
                            st = m.delete(k, conn=conn).status
                            t1 = time.monotonic_ns()
                            out.append((t0, t1, st, "http"))
                            if st == 200:
                                won.set()
                            if st == 404:
                                if not c and not wait_for(won.is_set, 10):
                                    raise Broken("record-lost", "unknown though nobody deleted it")
                                return
                        # Once more, after it is known to be gone.
                        if m.delete(k, conn=conn).status != 404:
                            raise Broken("deleted-twice", f"{k} deleted again")
                        conn.close()
                    except BaseException as e:
                        errs.append(e)

                def query(r):
                    try:
                        while True:
                            was = won.is_set()
                            x = m.get(k)
                            if x is None:
                                if not c and not wait_for(won.is_set, 10):
                                    raise Broken("record-lost", "unknown though nobody deleted it")
                                return
                            if was:
                                raise Broken("not-unknown", f"{k} found after its deletion")
                            b = fd_bytes(x["fds"]["stdout"])
                            if not pattern(400, j).startswith(b) or x["pid"] != pid:
                                raise Broken("trace-of-old", f"pid {x['pid']} of {pid}; {diff_at(b, pattern(400, j))}")
                            if x["state"] == "terminated" and (x["status"]["exit_code"] != j or len(b) != 400):
                                raise Broken("trace-of-old", f"{x['status']}")
                    except BaseException as e:
                        errs.append(e)

                def agent_deleter(r):
                    try:
                        while not won.is_set():
                            t0 = time.monotonic_ns()
                            x = delete(m, c, r, k, slack, "agent")
                            t1 = time.monotonic_ns()
                            out.append((t0, t1, {"ok": 200, "unknown": 404, "running": 400}[x], "agent"))
                            if x == "ok":
                                won.set()
                            if x != "running":
                                return
                    except BaseException as e:
                        errs.append(e)
                ts = [threading.Thread(target=deleter, args=(rng,), daemon=True) for _ in range(nd)] + [threading.Thread(target=query, args=(rng,), daemon=True)]
                if c:
                    ts.append(threading.Thread(target=agent_deleter, args=(rng,), daemon=True))
                [t.start() for t in ts]
                [t.join(40 * slack) for t in ts]
                if errs:
                    raise errs[0]
                if any(t.is_alive() for t in ts):
                    raise Hang(f"a finished process can be deleted: {collections.Counter(x[2] for x in out)}")
                wins = [x for x in out if x[2] == 200]
                if len(wins) != 1:
                    raise Broken("deleted-times", f"{k} deleted {len(wins)} times: {wins}")
                mark = open(f"{m.dir}/end{j}").read().split()
                if wins[0][1] < int(mark[2]):
                    raise Broken("deleted-running", f"deleted {int(mark[2]) - wins[0][1]} ns before it ended")
                lives.append((pid, wins[0], mark))
                ck.case(f"race {nd} {us} {mode} {wins[0][3]} refused{min(9, sum(1 for x in out if x[2] == 400))}",
                        {"deleters": nd, "process ends after us": us, "refusals before": sum(1 for x in out if x[2] == 400), "winner": wins[0][3]})
                ck.seen("racing deletions", len(out))
            reaps = {int(a[0]): t for t, p, kk, a in m.events() if kk == "reap" and p == m.pid}
            for pid, w, _ in lives:
                if pid not in reaps or w[1] < reaps[pid]:
                    raise Broken("deleted-running", f"record of {pid} deleted before it was reaped")
            if c:
                c.barrier(20 * slack)
                n = len(c.msgs("ProcDelete"))
                if n != len(lives):
                    raise Broken("announced", f"{n} deletions announced of {len(lives)}")
    finally:
        if srv:
            srv.close()


def lingering(ck, rng, slack):
    """Deleting a record whose descendants still write, and starting its ID afresh."""
    with Manager(ck) as m:
        for j in range(4):
            gate = m.dir / f"gate{j}"
            mode = rng.choice(FDKINDS)
            m.start({"k": sp(m, f"w=1:100:{j}1:0", "fork{", f"waitfile={gate}", f"w=1:100000:{j}2:0", f"touch={m.dir}/wrote{j}", "}", "exit=0", fds=[["1", cap(mode)]])})
            m.wait_done("k", 20 * slack)
            if m.delete("k").status != 200:
                raise Broken("wrong-deletion", "ended process with a living descendant")
            if m.get("k") is not None:
                raise Broken("not-unknown", "after deletion")
            m.start({"k": sp(m, f"w=1:50:{j}3:0", f"waitfile={m.dir}/again{j}", f"w=1:50:{j}3:0:50", "exit=5", fds=[["1", cap(mode)]])})
            m.as_user("/bin/touch", str(gate))
            # The old descendant can still write, or is told that nobody reads; either way nothing shows in the new record.
            wait_for(lambda: (m.dir / f"wrote{j}").exists() or not [p for p in m.descendants().values() if p[0] != m.pid], 10 * slack, "descendant of a deleted process goes on")
            m.as_user("/bin/touch", f"{m.dir}/again{j}")
            r = m.wait_done("k", 20 * slack)
            if fd_bytes(r["fds"]["stdout"]) != pattern(100, int(f"{j}3")) or r["status"]["exit_code"] != 5:
                raise Broken("trace-of-old", f"new record of a reused ID: {str(r['fds'])[:300]}")
            m.delete("k")
            ck.case(f"lingering {mode}")


def crowd(ck, rng, slack):
    """Very many records, deleted in any order."""
    with AgentServer() as srv, agent(ck, srv, serve=True) as m:
        a = srv.wait_conn(0, timeout=15 * slack)
        n = rng.choice([70, 130, 300])
        ids = [f"c{j}" for j in range(n)]
        m.start({k: sp(m, f"exit={j % 100}", fds=[["stdout", {"null": {}}]]) for j, k in enumerate(ids)}, timeout=60 * slack)
        m.wait_all(60 * slack)
        c = m.connection(30 * slack)
        left, gone = set(ids), 0
        order = ids[:]
        rng.shuffle(order)
        for step, k in enumerate(order):
            if rng.random() < 0.3:
                a.send("ProcDeleteRequest", proc_id=k)
                a.barrier(20 * slack)
            elif m.delete(k, conn=c).status != 200:
                raise Broken("wrong-deletion", f"one of {len(left)} ended records")
            left.discard(k)
            gone += 1
            if m.get(k, conn=c) is not None or m.delete(k, conn=c).status != 404:
                raise Broken("not-unknown", f"{k} after its deletion, among {len(left)}")
            if step % 16 == 0 or len(left) < 4:
                l = m.http("GET", "/procs", conn=c).data["procs"]
                if set(l) != left or any(r["status"]["exit_code"] != int(x[1:]) % 100 for x, r in l.items()):
                    raise Broken("registry", f"{len(l)} records left, expected {len(left)}: {sorted(set(l) ^ left)[:5]}")
            if rng.random() < 0.05:
                m.start({k: sp(m, "exit=7")}, conn=c)
                m.wait_done(k)
                if m.delete(k, conn=c).status != 200:
                    raise Broken("wrong-deletion", f"{k}, started afresh")
                gone += 1
        wait_for(lambda: len(a.msgs("ProcDelete")) >= gone, 20 * slack, "deletions are announced")
        a.barrier(20 * slack)
        if len(a.msgs("ProcDelete")) != gone:
            raise Broken("announced", f"{len(a.msgs('ProcDelete'))} deletions announced of {gone}")
        c.close()
        ck.seen("records deleted from a crowd", gone)
        ck.case(("crowd", n), {"records": n})


def main(ck):
    def make(i):
        c = i % 6
        if c in (0, 1, 3):
            return (f"model#{i}", model, c != 0)
        if c == 5 and i % 12 == 5:
            return (f"lingering#{i}", lingering)
        if i % 18 == 4:
            return (f"crowd#{i}", crowd)
        return (f"races#{i}", races, c == 4)
    ck.run_many(make, workers=6, at_least=14)


if __name__ == "__main__":
    run_check("P13", "each case is one deletion request: state and kind of the record, interface and outcome in a random history compared with a model, or one incarnation "
              "deleted by several clients as it ends; after each deletion every operation must report the ID unknown; distinct by those", main, quick_s=14, thorough_s=200)
