"""P14: finished and deleted processes leave nothing behind."""
import collections, os, socket, threading, time
from core import *
from mgr import *
from agentsrv import *


def temp_files(m):
    """Files of this manager's user in the temp directory."""
    out = []
    for e in os.scandir("/tmp"):
        try:
            if e.stat(follow_symlinks=False).st_uid == m.uid:
                out.append(e.name)
        except OSError:
            pass
    return out


class Zombies:
    """Watches for ended children that stay unreaped."""
    def __init__(self, m, limit):
        self.m, self.limit, self.since, self.bad, self.stop, self.looks = m, limit, {}, None, False, 0
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while not self.stop:
            try:
                kids = open(f"/proc/{self.m.pid}/task/{self.m.pid}/children").read().split()
            except OSError:
                break
            z = set()
            for p in kids:
                st = proc_stat(int(p))
                if st and st[1][0] == "Z":
                    z.add(p)
            now = time.monotonic()
            self.since = {p: self.since.get(p, now) for p in z}
            self.looks += 1
            for p, t in self.since.items():
                if now - t > self.limit:
                    self.bad = (p, now - t)
            time.sleep(0.02)

    def check(self):
        if self.bad:
            raise Hang(f"ended process {self.bad[0]} is reaped; a zombie for {self.bad[1]:.1f} s")


def sorts(m, fds):
    c = collections.Counter()
    for t in fds.values():
        if t.startswith("pipe:"):
            c["pipe"] += 1
        elif t.endswith("(deleted)"):
            c["file"] += 1
        elif t.startswith("socket:"):
            c["socket"] += 1
        else:
            c[t] += 1
    return c


def quiesce(ck, m, base, slack, kept, what, sockets=0):
    """`kept`: (tempfile captures of records kept, memory captures whose writers live)."""
    last = [None]

    def ok():
        fds = m.fds()
        extra = sorts(m, fds)
        extra.subtract(sorts(m, base))
        extra = {k: v for k, v in extra.items() if v}
        last[0] = extra, {f: t for f, t in fds.items() if base.get(f) != t}
        n = dict(extra)
        n["file"] = max(0, n.get("file", 0) - kept[0])
        n["pipe"] = max(0, n.get("pipe", 0) - kept[1])
        n["socket"] = n.get("socket", 0) - sockets if n.get("socket", 0) > 0 else n.get("socket", 0)
        return not any(n.values())
    if not wait_for(ok, 4 * slack):
        raise Broken("descriptors-left", f"{what}: beyond its fixed descriptors the manager holds {last[0][1]}, where at most {kept[0]} capture files and {kept[1]} pipes are due")
    t = temp_files(m)
    if t:
        raise Broken("temp-file-left", f"{what}: {t[:5]}")
    z = {p: v for p, v in m.children().items() if v[1] == "Z"}
    if z and not wait_for(lambda: not [v for v in m.children().values() if v[1] == "Z"], 3 * slack):
        raise Hang(f"ended children are reaped ({what}): {z}")
    ck.seen("quiescent points checked")


def reap_log(m, ck):
    """Every child reaped exactly once."""
    live, n = set(), 0
    for t, p, k, a in m.events():
        if p != m.pid:
            continue
        if k == "fork" and a[0] != "-1":
            live.add(int(a[0]))
        elif k == "reap":
            if int(a[0]) not in live:
                raise Broken("reaped-twice", f"{a[0]}")
            live.discard(int(a[0]))
            n += 1
    ck.seen("children reaped once", n)
    return live


def load(m, rng, tag):
    """A batch of processes: (specs, tempfile captures by id)."""
    specs, temps = {}, {}
    n = rng.choice([1, 2, 5])
    ks = [f"{tag}.{i}" for i in range(n)]
    for i, k in enumerate(ks):
        fds, t = [], 0
        for fd in rng.sample(range(0, 20), rng.choice([0, 1, 2, 5])):
            x = rng.choice(["mem", "temp", "temp", "null", "close", "file"])
            if x == "mem":
                fds.append([str(fd), cap("memory")])
            elif x == "temp":
                fds.append([str(fd), cap("tempfile", attached=rng.random() < 0.5)])
                t += 1
            elif x == "null":
                fds.append([str(fd), {"null": {}}])
            elif x == "close":
                fds.append([str(fd), "close"])
            else:
                fds.append([str(fd), {"file": {"path": str(m.dir / f"f{fd}"), "flags": "CreateWrite" if False else "Write"}}])
        how = rng.choice(["ok", "ok", "ok", "noexec", "badfd", "kill", "slow", "pipe"])
        if how == "noexec":
            specs[k] = {"argv": ["/nonexistent/p14"], "fds": fds}
        elif how == "badfd":
            specs[k] = sp(m, fds=fds + [["33", {"file": {"path": "/nonexistent/x/y", "flags": "Read"}}], ["34", cap("tempfile")], ["35", cap("memory")]])
            t += 1
        elif how == "kill":
            specs[k] = sp(m, f"kill={rng.choice([9, 15, 6])}", fds=fds)
        elif how == "slow":
            specs[k] = sp(m, f"us={rng.choice([1000, 20000, 100000])}", fds=fds)
        elif how == "pipe" and i:
            w = ks[i - 1]
            specs[w]["fds"] = specs[w].get("fds", []) + [[str(40 + i), "pipe-write"]]
            specs[k] = sp(m, fds=fds + [["60", {"pipe-read": {"proc_id": w, "fd": str(40 + i)}}]])
        else:
            specs[k] = sp(m, *[f"wx={f}:200:1:0" for f, s in fds if isinstance(s, dict) and "capture" in s], "exit=1", fds=fds)
        temps[k] = t
    return specs, temps


FAULTS = [("fork", False, [11, 12]), ("pipe", False, [24, 23]), ("mkstemp", False, [24, 28, 13]), ("open", True, [24, 13]), ("dup2", True, [24, 9]), ("setsid", True, [1]),
          ("execve", True, [12, 7, 2]), ("pread", False, [5]), ("fcntl", True, [24])]


def history(ck, rng, slack, faults, use_agent):
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    clients = []
    try:
        with m:
            os.chmod(m.dir, 0o777)
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            m.start({"warm": sp(m, fds=[["1", cap()], ["2", cap("tempfile")]])})
            m.wait_done("warm")
            m.delete("warm")
            base = wait_for(lambda: (lambda f: f if not sorts(m, f)["file"] else None)(m.fds()), 5)
            time.sleep(0.1)
            base = m.fds()
            z = Zombies(m, 2.5 * slack)
            if rng.random() < 0.4:
                m.ctl.delay("wait4", 3000, 300)
            kept, serial = {}, 0
            desc = collections.Counter()
            for step in range(40 if ck.quick else 150):
                op = rng.choice(["start", "start", "start", "delete", "delete", "client", "hang", "signal", "read", "refused"])
                desc[op] += 1
                if op == "start":
                    serial += 1
                    specs, temps = load(m, rng, f"s{serial}")
                    f = None
                    if faults and rng.random() < 0.6:
                        f = rng.choice(FAULTS)
                        all_ = rng.random() < 0.2     # every time from then on
                        m.ctl.fail(f[0], rng.choice(f[2]), rng.choice([0, 0, 1, 2, 4]), f[1], int(all_))
                        desc["fault " + f[0]] += 1
                    if c and rng.random() < 0.4:
                        c.send("ProcStartRequest", specs=specs)
                        c.barrier(20 * slack)
                    else:
                        m.start(specs)
                    if f and (all_ or rng.random() < 0.7):
                        m.ctl.disarm(f[0], f[1])
                    kept.update(temps)
                elif op == "delete" and kept:
                    for k in rng.sample(sorted(kept), min(len(kept), rng.choice([1, 3, 8]))):
                        m.wait_done(k, 20 * slack)
                        if c and rng.random() < 0.4:
                            c.send("ProcDeleteRequest", proc_id=k)
                            c.barrier(20 * slack)
                        else:
                            m.delete(k)
                        del kept[k]
                elif op == "client":
                    s = socket.create_connection(("127.0.0.1", m.port))
                    s.sendall(rng.choice([b"", b"GET /pro", b"GET /procs HTTP/1.1\r\nHost: x\r\n\r\n", b"garbage\r\n\r\n", b"POST /procs HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 900\r\n\r\n{"]))
                    if rng.random() < 0.5:
                        s.close()
                    else:
                        clients.append(s)
                elif op == "hang" and clients:
                    clients.pop(rng.randrange(len(clients))).close()
                elif op == "signal" and kept:
                    m.signal(rng.choice(sorted(kept)), rng.choice([15, 9, 0, 18]))
                elif op == "read" and kept:
                    k = rng.choice(sorted(kept))
                    m.data(k, rng.choice(["stdout", "3", "34"]))
                    m.get(k)
                elif op == "refused":
                    m.post({"x": sp(m, fds=[["1", cap("tempfile")], ["1", cap("tempfile")]]), "y": sp(m, fds=[["1", "pipe-write"]])})
                if step % 13 == 12:
                    for k in kept:
                        m.wait_done(k, 20 * slack)
                    for s in clients:
                        s.close()
                    clients.clear()
                    quiesce(ck, m, base, slack, (sum(kept.values()), 0), f"with {len(kept)} records kept after {dict(desc)}")
                    ck.case(f"kept {len(kept)} {sorted(desc.items())}", {"records kept": len(kept), "history": dict(desc)})
                z.check()
            for site, child, _ in FAULTS:
                m.ctl.disarm(site, child)
            for k in kept:
                m.wait_done(k, 20 * slack)
                m.delete(k)
            for s in clients:
                s.close()
            quiesce(ck, m, base, slack, (0, 0), f"with everything deleted after {dict(desc)}")
            z.stop = True
            z.check()
            left = reap_log(m, ck)
            if left:
                raise Broken("not-reaped", f"{left}")
            ck.case(f"end {sorted(desc.items())}")
            if faults:
                ck.seen("faults injected", sum(m.ctl.get(s, ch)["failed"] for s, ch, _ in FAULTS))
    finally:
        if srv:
            srv.close()
        for s in clients:
            s.close()


def soak(ck, rng, slack, what):
    """Many rounds of one thing."""
    with Manager(ck, nofile=64 if what == "flood" else 256) as m:
        os.chmod(m.dir, 0o777)
        m.start({"warm": sp(m, fds=[["1", cap()], ["2", cap("tempfile")]])})
        m.wait_done("warm")
        m.delete("warm")
        time.sleep(0.1)
        base = m.fds()
        n = {"flood": 8, "reap burst": 4}.get(what, 250 if ck.quick else 1500)
        conn = m.connection(20 * slack)
        if what == "nofork":
            n = 120
            m.ctl.fail("fork", 11, 0, False, 1)
        for j in range(n):
            if what == "flood":
                cs = []
                for _ in range(100):
                    s = socket.socket()
                    s.settimeout(10)
                    try:
                        s.connect(("127.0.0.1", m.port))
                        if rng.random() < 0.5:
                            s.sendall(b"GET /procs HTTP/1.1\r\nHost: x\r\n\r\n")
                        cs.append(s)
                    except OSError:
                        s.close()
                if j % 2:
                    time.sleep(0.1)
                for s in cs:
                    s.close()
                # Starved of descriptors or not, in the end it serves again.
                wait_for(lambda: m.http("GET", "/procs").status == 200, 10 * slack, "serves after a flood")
            elif what == "reap burst":
                m.start({f"b{i}": sp(m, f"waitfile={m.dir}/go{j}", fds=[["1", cap("memory")], ["2", cap("tempfile")]]) for i in range(40)})
                m.as_user("/bin/touch", f"{m.dir}/go{j}")
                m.wait_all(30 * slack)
                for i in range(40):
                    m.delete(f"b{i}", conn=conn)
            elif what == "nofork":
                # Nothing of a request can be started.
                ids = [f"k{i}" for i in range(rng.choice([1, 2, 4]))]
                m.start({k: sp(m, fds=[["1", cap("tempfile")], ["2", cap("memory")], ["3", "pipe-write"], ["4", {"pipe-read": {"proc_id": ids[i - 1], "fd": "3"}}]]) for i, k in enumerate(ids)}, conn=conn)
                for k in ids:
                    r = m.get(k, conn=conn)
                    if r["state"] != "error":
                        raise Broken("state", f"never forked, yet {r['state']}")
                    m.delete(k, conn=conn)
            else:
                fds = {"tempfile": [["1", cap("tempfile")]], "memory": [["1", cap("memory")]], "noexec": [["1", cap("tempfile")], ["2", cap()]],
                       "badfd": [["1", cap("tempfile")], ["3", {"file": {"path": "/nonexistent/z", "flags": "Read"}}], ["2", cap()]],
                       "pipe": [["3", "pipe-write"], ["4", {"pipe-read": {"proc_id": "k", "fd": "3"}}]], "plain": []}[what]
                s = {"argv": ["/nonexistent/p"], "fds": fds} if what == "noexec" else sp(m, fds=fds)
                m.start({"k": s}, conn=conn)

                def over():
                    r = m.get("k", conn=conn)
                    return r["state"] != "running"
                wait_for(over, 20 * slack, "process ends", interval=0.001)
                m.delete("k", conn=conn)
        conn.close()
        quiesce(ck, m, base, slack, (0, 0), f"after {n} rounds of {what}")
        if reap_log(m, ck):
            raise Broken("not-reaped", what)
        ck.case(f"soak {what}", {"rounds": n, "of": what})
        ck.seen("soak rounds", n)


def memory_kb(m):
    return int(next(l for l in open(f"/proc/{m.pid}/status") if l.startswith("RssAnon")).split()[1])


def volume(ck, rng, slack, use_agent):
    """Much output, round after round: the memory it took is used again.

    A leak of the outputs (or of the messages with them) would add at least one
    output per round; the limit is a quarter of that.
    """
    MB = 1 << 20
    n = MB
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck)
    try:
        with m:
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            rounds = 24 if ck.quick else 150
            conn = m.connection(30 * slack)
            order = [rng.choice(["memory", "tempfile", "both", "descendant", "killed"]) for _ in range(2)]

            def once(j):
                how = order[j % len(order)]
                a = rng.random() < 0.5
                fds = [["1", cap("tempfile" if how == "tempfile" else "memory", rng.choice(["utf-8", None]), a)]]
                if how == "both":
                    fds.append(["2", cap("tempfile", None, False)])
                ops = [f"w=1:{n}:7:63:32"]
                if how == "both":
                    ops.append(f"w=2:{n}:7:63:32")
                if how == "descendant":
                    ops = ["fork{", *ops, "us=20000", "}", f"w=1:{n}:7:63:32"]
                s = sp(m, *ops, "kill=9" if how == "killed" else "exit=0", fds=fds)
                k = f"v{j}"
                if c:
                    since = c.mark()
                    c.send("ProcStartRequest", specs={k: s})
                    _, msg = c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == k and x.get("res", {}).get("state") == "terminated", 30 * slack, since)
                    if rng.random() < 0.5:
                        since = c.mark()
                        c.send("ProcFdDataRequest", proc_id=k, fd="stdout", start=0, stop=None)
                        c.wait(lambda x: x["type"] == "ProcFdData", 30 * slack, since)
                    if how == "descendant":
                        time.sleep(0.05)
                    since = c.mark()
                    c.send("ProcDeleteRequest", proc_id=k)
                    c.wait(lambda x: x["type"] == "ProcDelete", 30 * slack, since)
                    # Don't keep it all here.
                    with c.cv:
                        for _, x in c.frames:
                            x.pop("res", None)
                            x.pop("data", None)
                else:
                    m.start({k: s}, conn=conn)
                    m.wait_done(k, 30 * slack)
                    if rng.random() < 0.5:
                        conn.request("GET", f"/procs/{k}/output/stdout/data")
                        r = conn.getresponse()
                        r.read()
                    # A large request, too, which is refused.
                    if rng.random() < 0.3:
                        conn.request("POST", "/procs", body=b"[" + b"0," * MB + b"0]", headers={"Content-Type": "application/json"})
                        conn.getresponse().read()
                    if how == "descendant":
                        time.sleep(0.05)
                    m.delete(k, conn=conn)
                return memory_kb(m)

            high, j = max(once(j) for j in range(8)), 8
            for times in 1, 2, 3:
                # Grown more than it should?  Then see that it goes on growing.
                more = rounds * times
                for _ in range(more):
                    once(j)
                    j += 1
                try:
                    wait_for(lambda: memory_kb(m) < high + more * n // 1024 // 4, 2, "")
                    break
                except Hang:
                    ck.seen("grown, watched for longer")
                    was, high = high, memory_kb(m)
            else:
                raise Broken("memory", f"{more} rounds of {n >> 20} MB of output ({', '.join(sorted(set(order)))}), each deleted: anonymous memory grew from {was >> 10} to {high >> 10} MB")
            conn.close()
            ck.case(f"volume {use_agent} {order}", {"rounds": j, "of": order, "agent": use_agent, "before_kb": high, "end_kb": memory_kb(m)})
            ck.seen("rounds of large outputs, memory watched", j)
    finally:
        if srv:
            srv.close()


def lingering(ck, rng, slack):
    """Descendants that outlive their process hold captures, but not for ever."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        m.start({"warm": sp(m, fds=[["1", cap()], ["2", cap("tempfile")]])})
        m.wait_done("warm")
        m.delete("warm")
        time.sleep(0.1)
        base = m.fds()
        for j in range(3):
            nm = rng.choice([1, 2, 4])
            fds = [[str(i + 1), cap("memory")] for i in range(nm)] + [["9", cap("tempfile")]]
            m.start({"k": sp(m, "fork{", f"waitfile={m.dir}/go{j}", "}", "exit=0", fds=fds)})
            m.wait_done("k", 20 * slack)
            quiesce(ck, m, base, slack, (1, nm), "with a descendant holding captures")
            early = rng.random() < 0.5
            if early:
                m.delete("k")
                quiesce(ck, m, base, slack, (0, nm), "record deleted, descendant holding captures")
            m.as_user("/bin/touch", f"{m.dir}/go{j}")
            quiesce(ck, m, base, slack, (0 if early else 1, 0), "after the descendant ended")
            if not early:
                m.delete("k")
            quiesce(ck, m, base, slack, (0, 0), "after deletion")
            ck.case(f"lingering {nm} {early}")
        # Processes still running hold one descriptor for each capture at most.
        nr = rng.choice([1, 5])
        m.start({f"r{i}": sp(m, "pause", fds=[["1", cap("memory")], ["2", cap("tempfile")], ["3", "pipe-write"], ["4", {"pipe-read": {"proc_id": f"r{i}", "fd": "3"}}]]) for i in range(nr)})
        quiesce(ck, m, base, slack, (nr, nr), f"{nr} processes running")
        for i in range(nr):
            m.signal(f"r{i}", 9)
            m.wait_done(f"r{i}", 20 * slack)
        quiesce(ck, m, base, slack, (nr, 0), f"{nr} processes ended")
        for i in range(nr):
            m.delete(f"r{i}")
        quiesce(ck, m, base, slack, (0, 0), "all deleted")
        ck.case(f"running {nr}")


def reconnects(ck, rng, slack):
    """An agent that loses and regains its server many times."""
    with AgentServer() as srv, agent(ck, srv, serve=True, interval=(0.02, 1.0, 0.02)) as m:
        c = srv.wait_conn(0, timeout=15 * slack)
        m.start({"k": sp(m, "pause", fds=[["1", cap("tempfile")]])})
        time.sleep(0.2)
        c.barrier(20 * slack)
        base = m.fds()
        idx = 0
        n = 15 if ck.quick else 60
        for j in range(n):
            how = rng.choice(["rst", "close", "fin", "down"])
            if how == "down":
                srv.unlisten()
            {"rst": lambda: c.drop(True), "close": lambda: c.close(), "fin": lambda: c.drop(False), "down": lambda: c.drop(True)}[how]()
            if how == "down":
                time.sleep(0.1)
                srv.listen()

            def latest():
                x = srv.conns[-1]
                return x if x is not c and x.phase == "connected" and not x.closed else None
            c = wait_for(latest, 20 * slack, "agent reconnects")
            c.barrier(20 * slack)
            ck.case(f"reconnect {how}")
        quiesce(ck, m, base, slack, (0, 0), f"after {n} reconnections")
        ck.seen("reconnections", n)


SOAKS = ["tempfile", "flood", "memory", "noexec", "badfd", "pipe", "plain", "reap burst", "nofork"]


def main(ck):
    def make(i):
        c = i % 8
        if i % 32 in (9, 25):
            return (f"volume#{i}", volume, i % 32 == 25)
        if c in (0, 4):
            return (f"history#{i}", history, False, c == 4)
        if c in (1, 5):
            return (f"faults#{i}", history, True, False)
        if c == 2:
            return (f"lingering#{i}", lingering)
        if c == 6:
            return (f"reconnects#{i}", reconnects)
        return (f"soak#{i}", soak, SOAKS[(i // 4 + (0 if i % 8 == 3 else 5)) % len(SOAKS)])
    ck.run_many(make, workers=7, at_least=32)


if __name__ == "__main__":
    run_check("P14", "each case is one quiescent point of a history (starts, failures, injected faults, deletions, clients, reconnections) at which the manager's descriptors, "
              "temporary files and children are compared with what the kept records allow, or one soak of hundreds of rounds; distinct by history", main, quick_s=16, thorough_s=240)
