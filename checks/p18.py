"""P18: idle shutdown refuses new work and exits exactly when the last record goes."""
import http.client, json, os, signal, threading, time
from core import *
from mgr import *
from agentsrv import *

USR1 = signal.SIGUSR1


class Rec:
    def __init__(self, m, rng, k):
        self.id, self.kind = k, rng.choice(["gated", "gated", "forever", "done", "failed", "deaf"])
        self.gate, self.ready = m.dir / f"{k}.gate", m.dir / f"{k}.ready"
        self.tag = rng.randrange(1, 90)
        r = f"touch={self.ready}"
        self.ops = {"gated": [r, f"waitfile={self.gate}", f"w=1:700:{self.tag}:0", f"exit={self.tag}"], "forever": [r, "pause"], "deaf": ["ign=15", "ign=10", r, "pause"],
                    "done": [f"w=1:700:{self.tag}:0", f"exit={self.tag}"], "failed": None}[self.kind]
        self.m = m
        self.live = self.kind in ("gated", "forever", "deaf")

    def spec(self):
        return sp(self.m, *self.ops, fds=[["stdout", cap("memory")]]) if self.ops else {"argv": ["/nonexistent/p18"]}


def refused(m, r, what):
    if r.status == 200:
        raise Broken("accepted", f"{what}: accepted after idle shutdown was requested")
    if r.status != 400 or "shut" not in json.dumps(r.json()).lower():
        raise Broken("refusal", f"{what}: {r.status} {r.body[:200]!r}, expected a refusal as shutting down")


def gone(m, slack, t, what):
    """The manager exits at once."""
    try:
        m.p.wait(1.5 * slack)
    except Exception:
        raise Hang(f"still running {1.5 * slack} s after {what}; records {sorted(m.list())}")
    if m.p.returncode != 0:
        raise Broken("exit-status", f"exited {m.p.returncode} after {what}: {m.stderr()[-400:]}")
    return time.monotonic() - t


def life(ck, rng, slack):
    """Records of every kind live on, then go one by one."""
    with_agent = rng.random() < 0.5
    srv = AgentServer() if with_agent else None
    try:
        m = (agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if with_agent
             else Manager(ck, seed=rng.randrange(1 << 30)))
        with m:
            os.chmod(m.dir, 0o777)
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            recs = {k: Rec(m, rng, k) for k in (f"r{j}" for j in range(rng.choice([0, 1, 2, 4, 6])))}
            if recs:
                m.start({k: r.spec() for k, r in recs.items()})
            for r in recs.values():
                if r.live:
                    wait_for(r.ready.exists, 15 * slack, "starts")
                else:
                    m.wait_done(r.id)
            idle = m.connection()
            m.http("GET", "/procs", conn=idle)
            pids = {k: m.get(k)["pid"] for k in recs}
            t0 = time.monotonic()
            how = rng.choice(["once", "once", "twice"])
            m.p.send_signal(USR1)
            if how == "twice":
                time.sleep(0.01)
                if m.alive():
                    m.p.send_signal(USR1)
            if not recs:
                d = gone(m, slack, t0, "the signal, with no records")
                if c:
                    wait_for(lambda: c.closed, 3, None)
                    if not c.msgs("ShutDown", shutdown_state="done"):
                        raise Broken("no-announcement", f"agent exited without announcing it: {[f[1]['type'] for f in c.frames]}")
                ck.case(("life", 0, with_agent, how), {"records": 0, "exit after s": round(d, 3)})
                return
            if c:
                c.wait(lambda x: x["type"] == "ShutDown" and x["shutdown_state"] == "idling", 5 * slack, 0, "notice of idling")
            # The request has been acted on once a start is refused.
            wait_for(lambda: m.post({"x": {"argv": ["/nonexistent/p18"]}}).status != 200 or m.wait_done("x") and m.delete("x") and None, 5 * slack, "a start is refused")
            forks = sum(e[2] == "fork" for e in m.events())
            log = []
            order = list(recs.values())
            rng.shuffle(order)
            serial = 0

            def probe_one():
                nonlocal serial
                serial += 1
                k = rng.choice([f"n{serial}", rng.choice(order).id, f"n{serial}"])
                spec = rng.choice([sp(m, f"touch={m.dir}/evil{serial}"), {"argv": ["/bin/true"]}, {"argv": []}])
                if k in recs or spec["argv"] == []:
                    # refused for one reason or another
                    r = m.post({k: spec})
                    if r.status != 400:
                        raise Broken("accepted", f"start of {k!r} {spec}: {r.status}")
                elif c and rng.random() < 0.5:
                    x = c.request("ProcStartRequest", lambda f: f["type"] in ("RequestError", "ProcResult") and (f.get("proc_id") == k or k in str(f.get("msg"))), 10 * slack, specs={k: spec})
                    if x["type"] != "RequestError" or "shut" not in x["err"].lower():
                        raise Broken("accepted", f"agent start: {str(x)[:200]}")
                else:
                    refused(m, m.post({k: spec, **{f"{k}.{j}": spec for j in range(rng.choice([0, 0, 1, 2, 5, 30]))}}), "start")
                ck.seen("starts refused while idling")

            for _ in range(rng.choice([1, 3])):
                probe_one()
            t_quiet = rng.choice([0, 0, 0.3])
            time.sleep(t_quiet)
            while order:
                r = order[-1]
                k = r.id
                if not m.alive():
                    raise Broken("early-exit", f"exited {m.p.returncode} with records {[x.id for x in order]} left ({[x.kind for x in order]})")
                g = m.get(k)
                if g is None or g["pid"] != pids[k]:
                    raise Broken("record-lost", f"{k} after {log}: {g}")
                if r.live:
                    if g["state"] != "running":
                        raise Broken("disturbed", f"{r.kind} process ended by itself: {g['status']} after {log}")
                    if m.delete(k).status != 400:
                        raise Broken("deleted-running", f"delete of running {k}")
                    if r.kind == "gated":
                        r.gate.touch()
                        os.chmod(r.gate, 0o666)
                        want = (r.tag, None)
                    else:
                        if m.signal(k, "SIGKILL").status != 200:
                            raise Broken("signal-refused", f"signal to {k} while idling")
                        want = (None, 9)
                    g = m.wait_done(k, 15 * slack)
                    if (g["status"]["exit_code"] or None, g["status"]["signum"] or None) != want:
                        raise Broken("disturbed", f"{r.kind}: {g['status']}, expected {want}")
                    r.live = False
                if r.kind in ("gated", "done"):
                    b = m.data(k, "stdout").body
                    if b != pattern(700, r.tag):
                        raise Broken("disturbed", f"output of {k}: {diff_at(b, pattern(700, r.tag))}")
                if rng.random() < 0.5:
                    probe_one()
                if set(m.list()) != {x.id for x in order}:
                    raise Broken("record-lost", f"{sorted(m.list())} vs {[x.id for x in order]}")
                if len(order) == 1:
                    if sum(e[2] == "fork" for e in m.events()) != forks:
                        raise Broken("started", "a process was started while idling")
                    evil = [f for f in os.listdir(m.dir) if f.startswith("evil")]
                    if evil:
                        raise Broken("started", f"refused processes ran: {evil}")
                    time.sleep(rng.choice([0, 0.3]))
                    if not m.alive():
                        raise Broken("early-exit", f"exited {m.p.returncode} with one record left")
                by_agent = c and rng.random() < 0.5
                if by_agent:
                    c.send("ProcDeleteRequest", proc_id=k)
                    if len(order) > 1:
                        c.wait(lambda x: x["type"] == "ProcDelete" and x["proc_id"] == k, 10 * slack, 0, "deletion notice")
                else:
                    try:
                        x = m.delete(k)
                    except Broken as e:
                        if len(order) > 1 or m.alive():
                            raise
                        raise Broken("last-answer", f"the deletion of the last record was not answered: {e}")
                    if x.status != 200:
                        raise Broken("delete-refused", f"{k}: {x.status} {x.body[:100]!r}")
                t = time.monotonic()
                order.pop()
                log.append((k, r.kind))
            d = gone(m, slack, t, f"the last record was deleted ({log})")
            idle.close()
            if c:
                wait_for(lambda: c.closed, 3, None)
                states = [x["shutdown_state"] for x in c.msgs("ShutDown")]
                if states[-1:] != ["done"] or any(s != "idling" for s in states[:-1]):
                    raise Broken("no-announcement", f"shutdown states announced: {states}")
                for k, _ in log:
                    if len(c.msgs("ProcDelete", proc_id=k)) != 1:
                        raise Broken("no-announcement", f"deletion of {k} announced {len(c.msgs('ProcDelete', proc_id=k))} times")
            ck.seen("records outlived the request", len(log))
            ck.case(("life", with_agent, how, tuple(x[1] for x in log)), {"agent": with_agent, "records": [x[1] for x in log], "exit after last deletion s": round(d, 3)})
    finally:
        if srv:
            srv.close()


def race(ck, rng, slack):
    """Starts and deletions keep coming while the signal arrives."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        if rng.random() < 0.7:
            for s in rng.sample(["fork", "read", "write", "epoll"], 2):
                m.ctl.delay(s, rng.choice([300, 2000]), 200)
        anchor = rng.random() < 0.6
        if anchor:
            m.start({"anchor": sp(m, "pause")})
        stop, books, errs = threading.Event(), [], []
        keep = rng.choice([0.0, 0.4, 1.0])

        def work(n):
            r = ck.rng("race", m.uid, n, rng.random())
            j = 0
            try:
                while not stop.is_set():
                    j += 1
                    k = f"t{n}.{j}"
                    t = time.monotonic()
                    try:
                        x = m.post({k: {"argv": ["/bin/true"]}} if r.random() < 0.7 else {k: {"argv": ["/bin/true"]}, k + "b": {"argv": ["/nonexistent/p18"]}}, timeout=10 * slack)
                    except (Broken, OSError) as e:
                        if m.p.poll() is None:
                            time.sleep(0.3)
                        if m.p.poll() is None:
                            raise
                        books.append((t, time.monotonic(), k, "gone"))
                        return
                    st = x.status
                    if st not in (200, 400) or st == 400 and "shut" not in x.body.decode().lower():
                        raise Broken("refusal", f"{st} {x.body[:200]!r}")
                    books.append((t, time.monotonic(), k, st))
                    if st == 400:
                        return
                    if r.random() >= keep:
                        y = m.wait_done(k)
                        d = m.delete(k)
                        if d.status != 200:
                            raise Broken("delete-refused", f"{k}: {d.status}")
                        books.append((t, time.monotonic(), k, "deleted"))
            except (Broken, OSError) as e:
                if m.p.poll() is None:
                    errs.append(e)
                else:
                    books.append((0, time.monotonic(), k, f"gone while {k} was there: {e}"))
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=work, args=(n,), daemon=True) for n in range(rng.choice([2, 4, 6]))]
        for t in ts:
            t.start()
        time.sleep(rng.random() * 0.15)
        t_sig = time.monotonic()
        m.p.send_signal(USR1)
        for t in ts:
            t.join(20 * slack)
        if errs:
            raise errs[0]
        if any(t.is_alive() for t in ts):
            stop.set()
            raise Hang("clients get through")
        refusals = [b for b in books if b[3] == 400]
        accepted = [b for b in books if b[3] == 200]
        if refusals:
            t_ref = min(b[1] for b in refusals)
            after = [b for b in accepted if b[0] > t_ref]
            if after:
                raise Broken("accepted", f"start accepted {after[0][0] - t_ref:.4f} s after one was refused as shutting down")
        was = {k for _, _, k, s in books if s == 200}
        deleted = {k for _, _, k, s in books if s == "deleted"}
        lost = [b for b in books if isinstance(b[3], str) and b[3].startswith("gone while")]
        if m.alive() or anchor or was - deleted:
            if not m.alive():
                if lost and not anchor and was - deleted == {lost[0][2]} and not m.alive():
                    # Its own deletion may have been the last thing answered.
                    pass
                raise Broken("early-exit", f"exited {m.p.returncode} while records {sorted(was - deleted)[:5]}{' and anchor' if anchor else ''} were there; {books[-6:]}")
            refused(m, m.post({"more": {"argv": ["/bin/true"]}}), "start after the signal")
            l = m.list()
            base = {k for k in l if not k.endswith("b")} - {"anchor"}
            if base != was - deleted:
                raise Broken("record-lost", f"records {sorted(base ^ (was - deleted))} differ after the race")
            if anchor:
                m.signal("anchor", 9)
            l = m.wait_all(15 * slack)
            t = time.monotonic()
            ids = list(l)
            for k in ids:
                if not m.alive():
                    raise Broken("early-exit", f"exited with {k} undeleted")
                if m.delete(k).status != 200:
                    raise Broken("delete-refused", k)
            d = gone(m, slack, t, "the last record was deleted")
        else:
            d = 0
            if m.p.returncode != 0:
                raise Broken("exit-status", f"exited {m.p.returncode}")
        ck.seen("starts accepted before or amid the signal", len(accepted))
        ck.seen("starts refused", len(refusals))
        ck.case(("race", anchor, keep, len(accepted), len(refusals)), {"accepted": len(accepted), "refused": len(refusals), "kept": keep, "anchor": anchor})


def then_term(ck, rng, slack):
    """A termination signal while idling (or idling requested amid termination) still ends everything."""
    with Manager(ck, scale=20) as m:
        os.chmod(m.dir, 0o777)
        ready = m.dir / "r"
        m.start({"a": sp(m, "ign=15", f"touch={ready}", "pause"), "b": sp(m, "exit=0")})
        wait_for(ready.exists, 15 * slack, "starts")
        m.wait_done("b")
        first, then = rng.choice([(USR1, signal.SIGTERM), (USR1, signal.SIGQUIT), (signal.SIGTERM, USR1), (USR1, signal.SIGINT)])
        t = time.monotonic()
        m.p.send_signal(first)
        time.sleep(rng.choice([0.01, 0.3]))
        if not m.alive():
            raise Broken("early-exit", f"exited {m.p.returncode} on {first!r} with a running process")
        m.p.send_signal(then)
        try:
            m.p.wait(65 / 20 + 3 * slack)
        except Exception:
            raise Hang(f"{first!r} then {then!r}: not over")
        left = {p: v for p, v in m.descendants().items() if v[0] == m.pid}
        reaps = [int(e[3][1]) for e in m.events() if e[2] == "reap"]
        if sorted(reaps) != [0, 9] or m.p.returncode:
            raise Broken("early-exit", f"{first!r} then {then!r}: reaped {reaps}, exit {m.p.returncode}")
        if signal.SIGQUIT != then and time.monotonic() - t < 60 / 20 * 0.98:
            raise Broken("early-exit", f"{first!r} then {then!r}: over after {(time.monotonic() - t) * 20:.0f} s (scaled)")
        ck.case(("then", first, then))


def main(ck):
    def make(i):
        c = i % 8
        return (f"race#{i}", race) if c in (1, 4, 6) else (f"then_term#{i}", then_term) if c == 7 else (f"life#{i}", life)
    ck.run_many(make, workers=6, at_least=16)


if __name__ == "__main__":
    run_check("P18", "one idle-shutdown request to a manager holding records of several kinds, or amid concurrent starts and deletions; refusals, continued service and the moment of exit judged; "
              "distinct by records, interface and outcome of the race", main, quick_s=16, thorough_s=240)
