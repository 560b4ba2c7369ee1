"""P17: termination signals end every process, in time, and then the manager."""
import os, signal, threading, time
from core import *
from mgr import *

GRACE, LAST = 60.0, 5.0
TERM, INT, QUIT = signal.SIGTERM, signal.SIGINT, signal.SIGQUIT


class P:
    """A process, how it reacts to SIGTERM, and what must become of it."""
    def __init__(self, m, rng, k, scale, kinds):
        self.id, self.m, self.scale = k, m, scale
        self.kind = rng.choice(kinds)
        self.ready, self.got = m.dir / f"{k}.ready", m.dir / f"{k}.sig"
        self.code = rng.randrange(1, 60)
        self.pid = None
        self.delay = 0.0
        r = f"touch={self.ready}"
        kind = self.kind
        if kind == "default":
            self.ops, self.end = [r, "pause"], (None, 15)
        elif kind == "late":
            self.delay = rng.choice([0.02, 0.2, 0.5, 0.8]) * GRACE
            self.ops, self.end = [f"log=15:{self.got}", r, f"waitfile={self.got}", f"us={int(self.delay / scale * 1e6)}", f"w=1:3000:{self.code}:0", f"exit={self.code}"], (self.code, None)
        elif kind == "prompt":
            self.ops, self.end = [f"log=15:{self.got}", r, f"waitfile={self.got}", f"exit={self.code}"], (self.code, None)
        elif kind == "ignore":
            self.ops, self.end = ["ign=15", r, "pause"], (None, 9)
        elif kind == "log":
            self.ops, self.end = [f"log=15:{self.got}", r, "pause"], (None, 9)
        elif kind == "blocked":
            self.ops, self.end = ["blk=15", r, "pause"], (None, 9)
        elif kind == "stopped":
            self.ops, self.end = [r, "stop", "pause"], (None, 9)
        elif kind == "spin":
            self.ops, self.end = ["ign=15", r, "spin=100000"], (None, 9)
        elif kind == "tree":
            self.ops, self.end = ["fork{", "ign=15", "pause", "}", r, "pause"], (None, 15)
        elif kind == "flood":
            self.ops, self.end = ["ign=15", r, "chunk=1000", "chunkus=1000", "w=1:100000000:1:0"], (None, 9)
        elif kind == "done":
            self.ops, self.end = [f"exit={self.code}"], (self.code, None)
        elif kind == "failed":
            self.ops, self.end = None, None
        self.stubborn = self.end is not None and self.end[1] == 9

    def spec(self):
        if self.ops is None:
            return {"argv": ["/nonexistent/p17"]}
        return sp(self.m, *self.ops, fds=[["stdout", cap("memory", attached=False)]])

    @property
    def ran(self):
        return self.kind not in ("done", "failed")


ALL = ["default", "default", "late", "late", "prompt", "ignore", "log", "blocked", "stopped", "spin", "tree", "flood", "done", "failed"]
MEEK = ["default", "default", "prompt", "tree", "done", "failed"]


def settle(m, ps, slack):
    """Everything is running (or over) as planned; notes the pids."""
    for p in ps:
        if p.ran:
            wait_for(p.ready.exists, 20 * slack, lambda: f"{p.id} ({p.kind}) starts")
    if m.port:
        def look():
            l = m.list()
            for p in ps:
                if not p.ran and l[p.id]["state"] == "running":
                    return None
                p.pid = l[p.id]["pid"]
            return True
        wait_for(look, 20 * slack, "processes that end at once are over")
    else:
        reaped = [p for p in ps if p.kind in ("done", "failed")]
        wait_for(lambda: sum(e[2] == "reap" for e in m.events()) >= len(reaped), 20 * slack, "ended processes are reaped")
    for p in ps:
        if p.kind == "stopped":
            wait_for(lambda: any(v[1] == "T" for v in m.children().values()), 10 * slack, "stopped process stops")


def kids_left(m):
    return {p: v for p, v in m.descendants().items() if v[0] == m.pid and v[1] != "Z"}


def watch_exit(m, until, poll=None):
    """Waits for the manager's exit; returns its time.  `poll` is called meanwhile."""
    while True:
        if m.p.poll() is not None:
            return time.monotonic()
        if time.monotonic() > until:
            return None
        if poll:
            poll()
        time.sleep(0.004)


def judge(ck, m, ps, t_sig, t_exit, scale, slack, how, second=None, kept=True, out=None, pids=True):
    """The whole history, from the kill log, the reap log and the processes' own books."""
    w = f"{how} scale {scale}"
    ev = m.events()
    kills = [(e[0] / 1e9, int(e[3][0]), int(e[3][1]), e[3][2]) for e in ev if e[2] == "kill" and e[0] / 1e9 > t_sig]
    reaps = {int(e[3][0]): (e[0] / 1e9, int(e[3][1])) for e in ev if e[2] == "reap"}
    if m.p.returncode != 0:
        raise Broken("exit-status", f"{w}: manager exited {m.p.returncode}: {m.stderr()[-400:]}")
    if any(k[3] == "STRAY" for k in kills):
        raise Broken("stray-kill", f"{w}: signal to a process already reaped: {[k for k in kills if k[3] == 'STRAY']}")
    for p in ps:
        if p.pid is None or p.kind == "failed":
            continue
        at, st = reaps.get(p.pid, (None, None))
        mine = [(k[2], k[0] - t_sig) for k in kills if k[1] == p.pid]
        v = f"{w}: {p.kind} process {p.id}"
        if not p.ran:
            if mine:
                raise Broken("signal-to-ended", f"{v} had ended, yet was sent {mine}")
            continue
        terms = [t for s, t in mine if s == 15]
        ninths = [t for s, t in mine if s == 9]
        if [s for s, _ in mine if s not in (9, 15)]:
            raise Broken("other-signal", f"{v} was sent {mine}")
        if at is None:
            raise Broken("left-behind", f"{v} was not reaped before the manager exited; sent {mine}")
        killed_at = None
        if how == "QUIT":
            if terms:
                raise Broken("term-on-quit", f"{v} was sent SIGTERM")
            if st != 9:
                raise Broken("not-killed", f"{v}: wait status {st}; sent {mine}")
            killed_at = 0.0
        else:
            if not terms:
                raise Broken("no-term", f"{v} was never sent SIGTERM; sent {mine}")
            if terms[0] > 1.0 * slack and terms[0] * scale > 5:
                raise Hang(f"{v} was sent SIGTERM only after {terms[0]:.2f} s")
            if p.kind in ("log", "late", "prompt"):
                n = len(p.got.read_text().splitlines()) if p.got.exists() else 0
                if n != len(terms) and not (n < len(terms) and second):
                    raise Broken("term-count", f"{v} got {n} SIGTERM, was sent {len(terms)}")
            limit = GRACE / scale
            if second == "QUIT":
                limit = min(limit, second_at(m))
            code, sig = p.end
            want = sig if code is None else code << 8
            early = second == "QUIT" and (p.stubborn or p.delay / scale >= limit * 0.5)
            if early:
                if st not in (want, 9):
                    raise Broken("wrong-end", f"{v}: wait status {st}, expected {want} or 9")
            elif st != want:
                raise Broken("wrong-end", f"{v}: wait status {st} at {(at - t_sig) * scale:.1f} s (scaled), expected {want}; sent {[(s, round(t * scale, 1)) for s, t in mine]}")
            if ninths:
                if at - t_sig < ninths[0]:
                    raise Broken("kill-after-end", f"{v} was sent SIGKILL after its end")
                if ninths[0] < limit * 0.98 and not (second == "QUIT" and ninths[0] >= limit * 0.98):
                    raise Broken("kill-early", f"{v} was sent SIGKILL {ninths[0] * scale:.2f} s (scaled) after the request; its grace is {GRACE}")
                # (Little more patience on repetition; otherwise a QUIT without effect would pass for a late one.)
                if ninths[0] > limit + (0.75 + 0.25 * slack if second == "QUIT" else 1.0 * slack):
                    raise Hang(f"{v} was sent SIGKILL only {ninths[0] - limit:.2f} s after its grace")
            elif p.stubborn:
                raise Broken("no-kill", f"{v} outlived its grace but was not sent SIGKILL; wait status {st}")
    ck.seen("processes judged", len(ps))
    ck.seen(f"processes ended after {how}", sum(p.ran for p in ps))


def second_at(m):
    return m.t_second


def shutdown(ck, rng, slack):
    """The signal arrives at a busy manager; time runs faster for it."""
    scale = rng.choice([20, 30])
    which = rng.choice(["TERM", "TERM", "TERM", "INT", "INT", "QUIT"])
    with Manager(ck, scale=scale, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        n = rng.choice([0, 1, 2, 3, 5, 8])
        if rng.random() < 0.08:
            n = 40
        kinds = rng.choice([ALL, ALL, MEEK, ["late", "prompt", "default", "done"], ["ignore", "late"]])
        ps = [P(m, rng, f"p{j}", scale, kinds) for j in range(n)]
        if rng.random() < 0.5 and ps:
            m.start({p.id: p.spec() for p in ps})
        else:
            for p in ps:
                m.start({p.id: p.spec()})
        settle(m, ps, slack)
        conns = [m.connection() for _ in range(rng.choice([0, 3]))]
        for c in conns:
            m.http("GET", "/procs", conn=c)  # left open
        if rng.random() < 0.3:
            m.ctl.delay("wait4", 2000, 300)
        deleting = rng.random() < 0.5
        second = rng.choice([None, "TERM", "INT", "QUIT", "QUIT"]) if which == "TERM" and rng.random() < 0.6 else None
        idle = bool(ps) and rng.random() < 0.25
        if idle:
            # It was asked to exit when idle, before.
            m.p.send_signal(signal.SIGUSR1)
            time.sleep(rng.choice([0, 0.05, 0.05, 0.3]))
        t_sig = time.monotonic()
        m.p.send_signal(getattr(signal, "SIG" + which))
        m.t_second, t2 = None, rng.choice([0.1] if second == "QUIT" else [0.1, 0.4]) * GRACE / scale
        m.ctl.set_clock(rng.choice([0, 0, 100, -100, 86400]))      # the grace period is no matter of the wall clock
        left = {p.id for p in ps}
        last_delete, last_end, refused, late = [None], [None], [], []
        st = {"stop": False, "served": 0}
        poll_conn = [None]

        def poll():
            now = time.monotonic()
            if second and m.t_second is None and now - t_sig > t2:
                m.t_second = time.monotonic() - t_sig
                m.p.send_signal(getattr(signal, "SIG" + second))
            try:
                if poll_conn[0] is None:
                    poll_conn[0] = m.connection(timeout=10 * slack)
                c = poll_conn[0]
                l = m.http("GET", "/procs", conn=c).data["procs"]
                st["served"] += 1
                if set(l) - set(late) != left:
                    raise Broken("record-lost", f"during shutdown records are {sorted(l)}, expected {sorted(left)}")
                if any(r["state"] == "running" for r in l.values()):
                    last_end[0] = None
                elif last_end[0] is None:
                    last_end[0] = time.monotonic()
                if deleting:
                    for k, r in l.items():
                        if r["state"] != "running" and m.http("DELETE", f"/procs/{k}", conn=c).status == 200:
                            left.discard(k)
                            if not left:
                                last_delete[0] = time.monotonic()
                if rng.random() < 0.02 and not late:
                    k = f"late{len(refused)}"
                    r = m.http("POST", "/procs", {"specs": {k: sp(m, "ign=15", "pause")}}, conn=c)
                    refused.append(r.status)
                    if r.status == 200:
                        late.append(k)
            except Hang:
                raise
            except (OSError, Broken) as e:
                # The manager may be gone by now; nothing else excuses this.
                poll_conn[0] = None
                if isinstance(e, Broken) and e.sig not in ("connection-dropped", "manager-died"):
                    raise
                if m.p.poll() is None:
                    time.sleep(0.05)
                    if m.p.poll() is None and isinstance(e, Broken):
                        raise
        limit = t_sig + (GRACE + LAST) / scale + 3.0 * slack
        t_exit = watch_exit(m, limit, poll)
        for c in conns:
            c.close()
        if t_exit is None:
            raise Hang(f"{which}: manager still runs {time.monotonic() - t_sig:.1f} s after the signal (scale {scale}); children {kids_left(m)}")
        orphans = kids_left(m)
        if orphans:
            raise Broken("left-behind", f"{which}: children outlive the manager: {orphans}")
        if late and m.descendants():
            pass
        if m.t_second is None:
            second = None
        judge(ck, m, ps, t_sig, t_exit, scale, slack, which, second)
        d = t_exit - t_sig
        running = [p for p in ps if p.ran]
        if not deleting and ps and last_end[0] is not None and second is None and not late:
            # Records were kept: it waited for their deletion.
            ends = max([e[0] / 1e9 for e in m.events() if e[2] == "reap"] + [t_sig])
            since = max(ends, t_sig)
            if t_exit - since < LAST / scale * 0.9 and t_exit - t_sig < GRACE / scale * 0.95:
                raise Broken("no-last-wait", f"{which}: exited {(t_exit - since) * scale:.2f} s (scaled) after the last end, records undeleted")
        if not ps and d > 1.0 * slack + (LAST / scale if late else 0):
            raise Hang(f"{which}: nothing to wait for, yet {d:.2f} s to exit")
        if last_delete[0] and t_exit - last_delete[0] > 1.0 * slack:
            raise Hang(f"{which}: exits {t_exit - last_delete[0]:.2f} s after the last record was deleted")
        ck.seen("lists served during shutdown", st["served"])
        ck.case((which, idle, second, scale, deleting, tuple(sorted(p.kind for p in ps))),
                {"signal": which, "idling before": idle, "second": second, "scale": scale, "deleting": deleting, "processes": [p.kind for p in ps], "exit after (scaled s)": round(d * scale, 1)})


def unscaled(ck, rng, slack):
    """Real time: exits at once when the last record goes; waits 5 s for records, not longer."""
    which = rng.choice(["TERM", "INT", "QUIT"])
    variant = rng.choice(["deleted", "deleted", "kept", "late", "none"])
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        ps = [] if variant == "none" else [P(m, rng, f"p{j}", 1, MEEK) for j in range(rng.choice([1, 3, 6]))]
        for p in ps:
            m.start({p.id: p.spec()})
        settle(m, ps, slack)
        t_sig = time.monotonic()
        m.p.send_signal(getattr(signal, "SIG" + which))
        if variant == "none":
            t_exit = watch_exit(m, t_sig + 1.5 * slack)
            if t_exit is None:
                raise Hang(f"{which}: no processes, yet no exit in {1.5 * slack} s")
        else:
            l = m.wait_all(2 * slack)
            dt = time.monotonic() - t_sig
            if variant == "deleted":
                hold = rng.choice([0.0, 0.7, 2.0])
                time.sleep(hold)
                if not m.alive():
                    raise Broken("no-last-wait", f"{which}: exited within {time.monotonic() - t_sig:.2f} s with records left")
                ids = list(l)
                rng.shuffle(ids)
                for k in ids[:-1]:
                    if m.delete(k).status != 200:
                        raise Broken("delete-refused", k)
                time.sleep(0.2)
                if not m.alive():
                    raise Broken("no-last-wait", f"{which}: exited with a record left, {time.monotonic() - t_sig:.2f} s after the signal")
                r = m.delete(ids[-1])
                t = time.monotonic()
                if r.status != 200:
                    raise Broken("delete-refused", ids[-1])
                t_exit = watch_exit(m, t + 1.5 * slack)
                if t_exit is None:
                    raise Hang(f"{which}: no exit {1.5 * slack} s after the last record was deleted")
            else:
                if variant == "late":
                    # Whatever is accepted now must not outlive the manager either.
                    time.sleep(rng.choice([0.0, 0.5, 2.0]))
                    st = m.post({"late": sp(m, "ign=15", "ign=1", "pause")}).status
                    ck.seen(f"starts amid shutdown answered {st}")
                t_exit = watch_exit(m, t_sig + dt + LAST + 1.5 * slack)
                if t_exit is None:
                    raise Hang(f"{which}: no exit {dt + LAST + 1.5 * slack:.1f} s after the signal; all processes had ended after {dt:.1f} s")
                if t_exit - t_sig < LAST * 0.95:
                    raise Broken("no-last-wait", f"{which}: exited {t_exit - t_sig:.2f} s after the signal with records left")
                left = [v for v in m.descendants().values() if v[1] != "Z" and all(p.kind != "tree" for p in ps)]
                if left:
                    raise Broken("left-behind", f"{which}: a process started amid shutdown outlives the manager: {left}")
        judge(ck, m, ps, t_sig, t_exit, 1, slack, which)
        ck.case(("unscaled", which, variant, tuple(sorted(p.kind for p in ps))), {"signal": which, "variant": variant, "processes": [p.kind for p in ps], "exit after s": round(t_exit - t_sig, 2)})


def unsignalled(ck, rng, slack):
    """A process that can't be sent the signal keeps no other from being sent it."""
    scale = 20
    which = rng.choice(["TERM", "INT"])
    with Manager(ck, scale=scale, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        ps = [P(m, rng, f"p{j}", scale, ["default", "default", "prompt", "done"]) for j in range(rng.choice([2, 4, 8]))]
        m.start({p.id: p.spec() for p in ps})
        settle(m, ps, slack)
        n = sum(p.ran for p in ps)
        m.ctl.fail("kill", 1, rng.randrange(max(n, 1)), False)
        t_sig = time.monotonic()
        m.p.send_signal(getattr(signal, "SIG" + which))
        spared = min(n, 1)
        wait_for(lambda: sum(p["state"] == "running" for p in m.list().values()) <= spared, 1.5 * slack, "processes that can be signalled are")
        t_exit = watch_exit(m, t_sig + (GRACE + LAST) / scale + 2 * slack)
        if t_exit is None:
            raise Hang(f"{which}: manager still runs {time.monotonic() - t_sig:.1f} s after the signal")
        reaps = {int(e[3][0]): int(e[3][1]) for e in m.events() if e[2] == "reap"}
        if sum(p.ran and p.pid not in reaps for p in ps):
            raise Broken("left-behind", f"{which}: processes {[p.id for p in ps if p.pid not in reaps]} were not reaped")
        killed = [p.id for p in ps if p.ran and reaps[p.pid] == 9]
        if len(killed) > spared:
            raise Broken("no-term", f"{which}: one SIGTERM could not be sent, yet {killed} were killed unasked")
        ck.seen("signals that could not be sent", spared)
        ck.case(("unsignalled", which, tuple(sorted(p.kind for p in ps))), {"signal": which, "processes": [p.kind for p in ps]})


def batch(ck, rng, slack):
    """With an output requested: results are still produced."""
    scale = 30
    which = rng.choice(["TERM", "INT", "QUIT"])
    to = rng.choice(["print", "output", "exit", "wait"])
    tag = rng.randrange(1 << 30)
    serve = rng.random() < 0.4
    holder = type("H", (), {})()
    holder.dir = ck.scratch / f"b{tag}"
    holder.dir.mkdir()
    os.chmod(holder.dir, 0o777)
    holder.probe = str(ck.probe)
    ps = [P(holder, rng, f"p{j}", scale, [k for k in ALL if k != "failed"]) for j in range(rng.choice([1, 2, 4, 7]))]
    if not any(p.ran for p in ps):
        ps.append(P(holder, rng, "px", scale, ["default"]))
    out = holder.dir / "out.json"
    args = {"print": ["--print"], "output": ["--output", out], "exit": ["--exit"], "wait": ["--wait"]}[to]
    with Manager(ck, args, serve=serve, scale=scale, spec={"specs": {p.id: p.spec() for p in ps}}) as m:
        settle(m, ps, slack)
        if not serve:
            forks = [int(e[3][0]) for e in m.events() if e[2] == "fork"]
            if len(forks) != len(ps):
                raise Broken("fork-count", f"{len(forks)} processes started of {len(ps)}")
            # processes are started in some order; find whose pid is whose by its arguments
            for pid in forks:
                try:
                    a = open(f"/proc/{pid}/cmdline", "rb").read().split(b"\0")
                except OSError:
                    continue
                for p in ps:
                    if p.ops and str(p.ready).encode() in b" ".join(a):
                        p.pid = pid
        t_sig = time.monotonic()
        m.p.send_signal(getattr(signal, "SIG" + which))
        t_exit = watch_exit(m, t_sig + (GRACE + LAST) / scale + 3 * slack)
        if t_exit is None:
            raise Hang(f"{which}: manager with --{to} still runs {time.monotonic() - t_sig:.1f} s after the signal (scale {scale})")
        judge(ck, m, ps, t_sig, t_exit, scale, slack, which)
        if kids_left(m):
            raise Broken("left-behind", f"{which}: children outlive the manager")
        if to in ("print", "output"):
            raw = m.stdout() if to == "print" else out.read_bytes()
            try:
                res = json.loads(raw)
            except ValueError as e:
                raise Broken("no-output", f"{which} with --{to}: {e}: {raw[:200]!r}")
            if set(res) != {p.id for p in ps}:
                raise Broken("no-output", f"{which} with --{to}: results of {sorted(res)}, expected {sorted(p.id for p in ps)}")
            for p in ps:
                r = res[p.id]
                want = (p.end if which != "QUIT" or not p.ran else (None, 9))
                st = r["status"] or {}
                if r["state"] != "terminated" or (st.get("exit_code") or None, st.get("signum") or None) != (want[0] or None, want[1]):
                    raise Broken("wrong-result", f"{which} with --{to}: {p.kind} process reported {r['state']} {st}, expected {want}")
            ck.seen("results checked in outputs", len(ps))
        ck.case(("batch", which, to, serve, tuple(sorted(p.kind for p in ps))), {"signal": which, "mode": to, "processes": [p.kind for p in ps]})
    import shutil
    shutil.rmtree(holder.dir, ignore_errors=True)


def early(ck, rng, slack):
    """The signal arrives while the manager is starting its input processes."""
    which = rng.choice(["TERM", "INT", "QUIT"])
    n = rng.choice([3, 20, 60])
    with Manager(ck, ["--exit"], serve=False, wait_ready=False, scale=30,
                 spec={"specs": {f"e{j}": sp(str(ck.probe), "pause") for j in range(n)}}) as m:
        m.ctl.delay("fork", 1000, 500)
        time.sleep(rng.random() * rng.choice([0.01, 0.06]))
        t_sig = time.monotonic()
        m.p.send_signal(getattr(signal, "SIG" + which))
        t_exit = watch_exit(m, t_sig + 4 * slack)
        if t_exit is None:
            raise Hang(f"{which} during start: manager still runs after {time.monotonic() - t_sig:.1f} s")
        time.sleep(0.01)
        left = {p: v for p, v in m.descendants().items() if v[1] != "Z"}
        forks = sum(e[2] == "fork" for e in m.events())
        if left:
            raise Broken("left-behind", f"{which} during start: manager ended {m.p.returncode} after {forks} forks, leaving {len(left)} processes")
        if forks and m.p.returncode != 0:
            raise Broken("exit-status", f"{which} during start after {forks} forks: manager ended {m.p.returncode}")
        if forks not in (0, n):
            raise Broken("partial-start", f"{which} during start: {forks} of {n} started")
        ck.seen("signals during start, " + ("before any process" if not forks else "with processes"))
        ck.case(("early", which, n, bool(forks), int((t_sig - m.t_start) * 1000)), {"signal": which, "processes": n, "started": forks, "after ms": round((t_sig - m.t_start) * 1000, 1)})


def main(ck):
    def make(i):
        c = i % 8
        if c == 3:
            return (f"unscaled#{i}", unscaled)
        if c == 5 or c == 7:
            return (f"batch#{i}", batch)
        if c == 6:
            return (f"early#{i}", early) if i % 16 == 6 else (f"unsignalled#{i}", unsignalled)
        return (f"shutdown#{i}", shutdown)
    ck.run_many(make, workers=8, at_least=24)


if __name__ == "__main__":
    run_check("P17", "one termination signal (and what followed) to a manager with a mix of processes that obey, delay, ignore, block or cannot hear it; every signal sent, every wait status and the moment "
              "of exit judged; distinct by signal, mix, deletions and mode", main, quick_s=18, thorough_s=240,
              assumptions=["grace periods of 60 s and 5 s are observed with the manager's monotonic clock and epoll timeouts running 20-30 times faster (interposed); a part of the runs uses real time",
                           "resolution at those speeds is about 1 s of the manager's time"])
