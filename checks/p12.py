"""P12: signals reach exactly the addressed, still-live process."""
import collections, os, signal, threading, time
from core import *
from mgr import *
from agentsrv import *

NAMES = {s.name: int(s) for s in signal.Signals if s.name.startswith("SIG") and not s.name.startswith("SIGRT") and s.name not in ("SIGCLD", "SIGPOLL", "SIGIOT")}
CATCH = [s for s in range(1, 32) if s not in (9, 19)]
RT = [s for s in range(34, 65)]
INVALID = ["65", "129", "137", "143", "265", "271", "65545", "4294967305", "-119", "-241", "99", "1000", "-1", "-15", "2147483647", "2147483648", "99999999999999999999", "-9999999999", "SIGFOO", "SIG", "FOO", "1.5", "15x", "x15", "0x0f0f", "SIGTERM ", "é", "%", "null",
           "SIG15SIG", "15,9", "*"]


def siglog(path):
    """[(signal, sender, mono)]"""
    try:
        return [tuple(map(int, l.split())) for l in open(path) if l.endswith("\n")]
    except FileNotFoundError:
        return []


def kills(m):
    """[(mono, pid, sig, ok)]"""
    return [(t, int(a[0]), int(a[1]), a[2] == "ok") for t, p, k, a in m.events() if k == "kill" and p == m.pid]


def no_strays(m):
    bad = [(p, s) for _, p, s, ok in kills(m) if not ok]
    if bad:
        raise Broken("stray-signal", f"signals sent to processes that are not unreaped children: (pid, signal) {bad[:5]}")


class Sender:
    """Sends signal requests over a random interface and spelling."""
    def __init__(self, m, c, rng, slack):
        self.m, self.c, self.rng, self.slack = m, c, rng, slack
        self.conn = m.connection(20 * slack)

    def send(self, pid_s, sig):
        """True if accepted."""
        if self.c and self.rng.random() < 0.4:
            since = self.c.mark()
            with AG:
                self.c.send("ProcSignalRequest", proc_id=pid_s, signum=sig)
                self.c.barrier(20 * self.slack)
                bad = [x for x in self.c.msgs()[since:] if x["type"] == "RequestError" and x["msg"].get("proc_id") == pid_s and x["msg"].get("signum") == sig
                       or x["type"] == "ProcUnknown" and x["proc_id"] == pid_s]
            return not bad
        s = str(sig)
        if self.rng.random() < 0.5:
            s = next((n for n, v in NAMES.items() if v == sig), s)
        try:
            r = self.m.signal(pid_s, s, conn=self.conn)
        except Broken:
            raise
        if r.status == 200:
            return True
        if not 400 <= r.status < 500:
            raise Broken("bad-status", f"signal {s}: {r.status} {r.body[:200]!r}")
        return False


AG = threading.Lock()


def delivery(ck, rng, slack, use_agent):
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    try:
        with m:
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            n = rng.choice([2, 4, 7])
            ids = [rng.choice(["p", "x/y", "é", "..", "a b", "%31", "1"]) + str(i) for i in range(n)]
            specs = {}
            for i, k in enumerate(ids):
                logs = [f"log={s}:{m.dir}/log{i}" for s in CATCH + RT]
                # A child of its own, in its group and session, must get nothing.
                specs[k] = sp(m, *logs, "fork{", *[f"log={s}:{m.dir}/log{i}c" for s in CATCH + RT], f"touch={m.dir}/c{i}", "pause", "}", f"touch={m.dir}/u{i}", "pause")
            bystanders = [f"dead{i}" for i in range(3)]
            for k in bystanders:
                specs[k] = sp(m, "exit=0")
            m.start(specs)
            wait_for(lambda: all((m.dir / f"{x}{i}").exists() for i in range(n) for x in "uc"), 20 * slack, "probes ready")
            for k in bystanders:
                m.wait_done(k, 20 * slack)
            fails = m.ctl.get("fork")["failed"]
            m.ctl.fail("fork", 11)
            m.start({"unforked": sp(m, "pause")})
            if m.ctl.get("fork")["failed"] == fails:
                raise Inconclusive("fork fault did not fire")
            m.start({"unexeced": {"argv": ["/nonexistent/x"]}})
            for k in ("unforked", "unexeced"):
                if m.wait_done(k, 20 * slack)["state"] != "error":
                    raise Broken("start", f"{k} is not an error")
            pids = {k: m.get(k)["pid"] for k in ids}
            want = {k: collections.Counter() for k in ids}
            locks = {(k, s): threading.Lock() for k in ids for s in CATCH}
            lock, errs = threading.Lock(), []

            def client(r):
                try:
                    snd = Sender(m, c, r, slack)
                    for _ in range(25 if ck.quick else 60):
                        x = r.random()
                        if x < 0.72:
                            i = r.randrange(n)
                            k, s = ids[i], r.choice(CATCH) if r.random() < 0.7 else r.choice(RT)
                            if s in CATCH:
                                with locks[k, s]:
                                    with lock:
                                        want[k][s] += 1
                                        w = want[k][s]
                                    if not snd.send(k, s):
                                        raise Broken("wrongly-refused", f"signal {s} for the running {k!r}")
                                    wait_for(lambda: sum(1 for y in siglog(m.dir / f"log{i}") if y[0] == s) >= w, 15 * slack, f"signal {s} reaches {k!r}")
                            else:
                                with lock:
                                    want[k][s] += 1
                                if not snd.send(k, s):
                                    raise Broken("wrongly-refused", f"signal {s} for the running {k!r}")
                            ck.case(f"deliver {s} {c is not None}", {"signal": s, "to": k, "expected": "delivered once"})
                        elif x < 0.8:
                            k = r.choice(bystanders + ["unforked", "unexeced"])
                            s = r.choice(CATCH + RT + [9, 19])
                            if snd.send(k, s):
                                raise Broken("wrongly-accepted", f"signal {s} for {k!r}, which has ended")
                            ck.case(f"ended {k[:4]} {s}", {"signal": s, "to": k, "expected": "refused"})
                        elif x < 0.88:
                            k = r.choice(["nobody", ids[0] + "x", "", "-1", "0", str(m.pid), str(r.choice(list(pids.values())))])
                            s = r.choice(CATCH + RT + [9, 19])
                            if k and snd.send(k, s):
                                raise Broken("wrongly-accepted", f"signal {s} for the unknown {k!r}")
                            ck.case(f"unknown {k[:2]} {s}")
                        else:
                            k, s = r.choice(ids), r.choice(INVALID)
                            if c and s.lstrip("-").isdigit() and abs(int(s)) < 1 << 31 and r.random() < 0.5:
                                if snd_agent(c, k, int(s), slack):
                                    raise Broken("wrongly-accepted", f"invalid signal {s} by agent")
                            else:
                                rr = m.http("POST", f"/procs/{quote(k, safe='')}/signals/{quote(s, safe='')}", conn=snd.conn)
                                if not 400 <= rr.status < 500:
                                    raise Broken("wrongly-accepted", f"invalid signal {s!r}: {rr.status}")
                            ck.case(f"invalid {s}", {"signal": s, "expected": "refused"})
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=client, args=(random.Random(rng.random()),), daemon=True) for _ in range(rng.choice([1, 4]))]
            [t.start() for t in ts]
            [t.join(120) for t in ts]
            if errs:
                raise errs[0]

            def logs():
                return {k: collections.Counter(y[0] for y in siglog(m.dir / f"log{i}")) for i, k in enumerate(ids)}
            if not wait_for(lambda: all(not (want[k] - v) for k, v in logs().items()), 10 * slack):
                raise Hang("signals arrive: " + str({k: (want[k] - v) for k, v in logs().items()}))
            time.sleep(0.05)
            got = logs()
            for i, k in enumerate(ids):
                if got[k] != want[k]:
                    raise Broken("wrong-deliveries", f"{k!r} got more than it was sent: extra {got[k] - want[k]}, missing {want[k] - got[k]}")
                ext = [y for y in siglog(m.dir / f"log{i}") if y[1] != m.pid]
                if ext:
                    raise Broken("wrong-sender", f"{k!r}: {ext[:3]}")
                if siglog(m.dir / f"log{i}c"):
                    raise Broken("wrong-target", f"child of {k!r} got {siglog(m.dir / f'log{i}c')[:3]}")
            ck.seen("signals delivered", sum(sum(v.values()) for v in got.values()))
            # What the kernel was asked to do is just that.
            kk = collections.Counter((p, s) for _, p, s, ok in kills(m) if ok and 0 < s < 65)
            ww = collections.Counter({(pids[k], s): cnt for k in ids for s, cnt in want[k].items()})
            if kk != ww:
                raise Broken("wrong-kills", f"kill calls beyond the requests {dict(kk - ww)}, missing {dict(ww - kk)}")
            # Stop, continue, kill.
            snd = Sender(m, c, rng, slack)
            k = rng.choice(ids)
            state = lambda: proc_stat(pids[k])[1][0]
            for s, st in ((19, "T"), (18, "S"), (19, "T")):
                if not snd.send(k, s):
                    raise Broken("wrongly-refused", f"signal {s} for the running {k!r}")
                wait_for(lambda: state() == st, 10 * slack, f"{k!r} in state {st} after signal {s}")
                if m.get(k)["state"] != "running":
                    raise Broken("state", f"stopped process is {m.get(k)['state']}")
            if not snd.send(k, 9):
                raise Broken("wrongly-refused", "SIGKILL to a stopped process")
            r = m.wait_done(k, 15 * slack)
            if r["status"]["signum"] != 9:
                raise Broken("wrong-end", f"{r['status']} after SIGKILL")
            for o in ids:
                if o != k and m.get(o)["state"] != "running":
                    raise Broken("wrong-target", f"{o!r} ended by a signal to {k!r}")
            no_strays(m)
    finally:
        if srv:
            srv.close()


def snd_agent(c, k, s, slack):
    with AG:
        since = c.mark()
        c.send("ProcSignalRequest", proc_id=k, signum=s)
        c.barrier(20 * slack)
        return not [x for x in c.msgs()[since:] if x["type"] in ("RequestError",) and x["msg"].get("signum") == s]


def early(ck, rng, slack):
    """Signals that arrive between fork and exec."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        where = rng.choice(["execve", "fork", "setsid"])
        m.ctl.delay(where, rng.choice([3000, 20000, 60000]), 1000, child=True)
        sigs = [s for s in CATCH + RT if s not in (17, 18, 20, 21, 22, 23, 28)]
        pick = rng.sample(sigs, 8) + rng.sample([1, 2, 3, 10, 12, 13, 15], 4)
        specs = {f"p{i}": sp(m, f"mark={m.dir}/m{i}:ran", "pause") for i in range(len(pick))}
        ids = list(specs)
        rng.shuffle(ids)
        one = rng.random() < 0.5
        if not one:
            m.start(specs)
        for i, s in enumerate(pick):
            k = f"p{i}"
            if one:
                m.start({k: specs[k]})
            if rng.random() < 0.5:
                time.sleep(rng.random() * 0.03)
            r = m.signal(k, s)
            if r.status != 200:
                raise Broken("wrongly-refused", f"signal {s} right after the start: {r.status} {r.body[:100]!r}")
        for i, s in enumerate(pick):
            r = m.wait_done(f"p{i}", 15 * slack)
            if r["state"] != "terminated" or r["status"]["signum"] != s:
                raise Broken("lost-early-signal", f"signal {s} sent right after the start: {r['state']} {r['status']} {r['errors']}")
            ck.case(f"early {s} {where} {(m.dir / f'm{i}').exists()}", {"signal": s, "when": f"before or around {where}", "expected": "ends by it"})
        no_strays(m)
        if collections.Counter((p, s) for _, p, s, _ in kills(m)) != collections.Counter((m.get(f"p{i}")["pid"], s) for i, s in enumerate(pick)):
            raise Broken("wrong-kills", f"{kills(m)}")
        m.check_alive()
        ck.seen("signals before exec", len(pick))


def races(ck, rng, slack):
    """Requests racing exit, reaping, deletion and reuse of IDs."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        if rng.random() < 0.5:
            m.ctl.delay("wait4", rng.choice([300, 3000, 15000]), 500)
        if rng.random() < 0.3:
            m.ctl.delay("kill", 2000, 500)
        ids = [f"r{i}" for i in range(3)]
        stop, errs = threading.Event(), []
        owners, lock = collections.defaultdict(set), threading.Lock()   # pid -> ids
        calls = []                                                      # (t0, t1, id, sig, accepted)
        t_end = time.monotonic() + (2.0 if ck.quick else 5.0)

        def owner(k, r):
            """Starts, ends and deletes incarnations of k."""
            try:
                j = 0
                while time.monotonic() < t_end and not errs:
                    j += 1
                    ign = [f"ign={s}" for s in RT]
                    us = r.choice([0, 200, 2000, 10000, 40000])
                    m.start({k: sp(m, *ign, f"us={us}", "exit=0")})
                    x = m.get(k)
                    with lock:
                        owners[x["pid"]].add(k)
                    if r.random() < 0.3:
                        m.wait_done(k, 20 * slack)
                    while True:
                        d = m.delete(k)
                        if d.status == 200:
                            break
                        if m.get(k) is None:
                            raise Broken("record-lost", f"{k} vanished")
                        time.sleep(r.random() * 0.002)
                ck.seen("incarnations", j)
            except BaseException as e:
                errs.append(e)

        def sender(me, r):
            try:
                mine = RT[me * 6 : me * 6 + 6]
                conn = m.connection(20 * slack)
                out = []
                while time.monotonic() < t_end and not errs:
                    k, s = r.choice(ids), r.choice(mine)
                    t0 = time.monotonic_ns()
                    st = m.signal(k, s, conn=conn).status
                    t1 = time.monotonic_ns()
                    if st not in (200, 400, 404) and not 400 <= st < 500:
                        raise Broken("bad-status", f"{st}")
                    out.append((t0, t1, k, s, st))
                with lock:
                    calls.extend(out)
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=owner, args=(k, random.Random(rng.random())), daemon=True) for k in ids]
        ts += [threading.Thread(target=sender, args=(i, random.Random(rng.random())), daemon=True) for i in range(3)]
        [t.start() for t in ts]
        [t.join(60 * slack) for t in ts]
        if errs:
            raise errs[0]
        no_strays(m)
        by = collections.defaultdict(list)
        for t, p, s, ok in kills(m):
            if s:
                by[s].append((t, p))
        # Reaps, from the log: nothing is sent to a PID after its reaping.
        reaped = {}
        for t, p, k, a in m.events():
            if k == "reap" and p == m.pid:
                reaped[int(a[0])] = t
            elif k == "fork" and p == m.pid and a[0] != "-1":
                reaped.pop(int(a[0]), None)
            elif k == "kill" and p == m.pid and int(a[0]) in reaped:
                raise Broken("signal-after-reap", f"signal {a[1]} to {a[0]} after it was reaped")
        n = 0
        for t0, t1, k, s, st in calls:
            hit = [(t, p) for t, p in by[s] if t0 <= t <= t1]
            if st == 200:
                if len(hit) != 1:
                    raise Broken("not-once", f"accepted signal {s} for {k}: {len(hit)} kill calls")
                if k not in owners[hit[0][1]]:
                    raise Broken("wrong-target", f"signal {s} for {k} went to pid {hit[0][1]} of {owners[hit[0][1]]}")
                n += 1
            elif hit:
                raise Broken("refused-but-sent", f"refused ({st}) signal {s} for {k} was sent: {hit}")
        if sum(map(len, by.values())) != n:
            raise Broken("wrong-kills", f"{sum(map(len, by.values()))} signals sent, {n} accepted")
        ck.seen("racing requests", len(calls))
        ck.seen("racing requests accepted", n)
        cnt = collections.Counter((k, s, st) for _, _, k, s, st in calls)
        for key in cnt:
            ck.case(f"race {key}", {"id": key[0], "signal": key[1], "status": key[2], "times": cnt[key]})


def main(ck):
    def make(i):
        c = i % 6
        if c in (0, 3):
            return (f"delivery#{i}", delivery, i % 12 in (3, 6))
        if c in (1, 4):
            return (f"early#{i}", early)
        return (f"races#{i}", races)
    ck.run_many(make, workers=6, at_least=18)


if __name__ == "__main__":
    run_check("P12", "each case is one signal request (number, target: running, ended, never started, unknown; valid or not; interface; race outcome) compared with "
              "the target's own log of signals received and with every kill call the manager made; distinct by those", main, quick_s=14, thorough_s=200)
