"""P01: a finished process's result says exactly how it ended."""
import os, signal, time
from core import *
from mgr import *

SIGNAMES = {int(s): s.name for s in signal.Signals if not s.name.startswith("SIGRT")}
# Signals whose default action ends the process.
FATAL = [s for s in range(1, 65)
         if s not in (signal.SIGCHLD, signal.SIGCONT, signal.SIGURG, signal.SIGWINCH, signal.SIGSTOP,
                      signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU, 32, 33)]
CORE = {signal.SIGQUIT, signal.SIGILL, signal.SIGTRAP, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGSEGV,
        signal.SIGXCPU, signal.SIGXFSZ, signal.SIGSYS}


def rt_names(n):
    """Names that identify a real-time signal."""
    r = {f"SIG{n}", f"SIGRTMIN+{n - 34}", f"SIGRTMAX-{64 - n}", f"SIGRT{n - 34}"}
    return r | {34: {"SIGRTMIN"}, 64: {"SIGRTMAX"}}.get(n, set())


def reaps(m):
    return {int(a[0]): int(a[1]) for _, _, k, a in m.events() if k == "reap"}


def check_final(ck, m, pid_s, r, exp, reap):
    """exp: ("exit", code) or ("signal", signum)."""
    kind, n = exp
    what = f"{pid_s} ({kind} {n})"
    if r["state"] != "terminated":
        raise Broken("state", f"{what}: state {r['state']!r}, errors {r['errors']}", r)
    if r["errors"]:
        raise Broken("errors", f"{what}: terminated with errors {r['errors']}", r)
    st = r["status"]
    if st is None:
        raise Broken("no-status", f"{what}: terminated without a status", r)
    if kind == "exit":
        want = {"status": n << 8, "exit_code": n, "signum": None, "core_dump": False}
    else:
        core = st["status"] & 0x80
        want = {"status": n | core, "exit_code": None, "signum": n, "core_dump": bool(core)}
    got = {k: st[k] for k in want}
    if got != want:
        raise Broken("status", f"{what}: status {st}, expected {want}", r)
    name = st.get("signal")
    if kind == "exit":
        if name is not None:
            raise Broken("signame", f"{what}: signal name {name!r}", r)
    elif n in SIGNAMES:
        if name not in (SIGNAMES[n], {"SIGIOT": "SIGABRT"}.get(SIGNAMES[n]), {29: "SIGIO", 6: "SIGABRT"}.get(n, SIGNAMES[n])):
            raise Broken("signame", f"{what}: signal name {name!r}, expected {SIGNAMES[n]}", r)
    elif not (isinstance(name, str) and name in rt_names(n)):
        raise Broken("signame", f"{what}: signal name {name!r}", r)
    if r["pid"] in reap and reap[r["pid"]] != st["status"]:
        raise Broken("status-vs-kernel", f"{what}: status {st['status']}, kernel delivered {reap[r['pid']]}", r)
    if r["times"]["stop"] is None or r["rusage"] is None:
        raise Broken("no-stop", f"{what}: terminated without stop time or rusage", r)


FIXED = ("state", "errors", "pid", "status", "rusage", "fds")


def fixed_part(r):
    d = {k: r[k] for k in FIXED}
    d["start"], d["stop"], d["elapsed"] = r["times"]["start"], r["times"]["stop"], r["times"]["elapsed"]
    return d


def check_finality(m, first, later, pid_s):
    a, b = fixed_part(first), fixed_part(later)
    if a != b:
        diff = {k: (a[k], b[k]) for k in a if a[k] != b[k]}
        raise Broken("changed-after-end", f"{pid_s}: result changed after termination: {diff}")


def check_running(r, pid_s):
    if r["state"] != "running" or r["status"] is not None or r["times"]["stop"] is not None or r["rusage"] is not None:
        raise Broken("ended-early", f"{pid_s}: still running but reported "
                     f"{r['state']} {r['status']} stop {r['times']['stop']} rusage {r['rusage'] is not None}", r)


def ops_for(kind, n, rng):
    if kind == "signal" and n in CORE and rng.random() < 0.6:
        return ["core=10000000", f"kill={n}"]
    pre = rng.choice([[], [], ["us=2000"], ["core=0"], ["ign=13"], ["us=15000"], ["core=10000000"]])
    return pre + ([f"exit={n}"] if kind == "exit" else [f"kill={n}"])


def batch(ck, rng, slack, ends, delayed):
    """Many processes end at the same moment, each in its own way."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        if delayed:
            m.ctl.delay("wait4", rng.choice([300, 2000]), 300)
            m.ctl.delay("epoll", rng.choice([200, 5000]), 500)
        gate = m.dir / "gate"
        specs, exp = {}, {}
        for i, (kind, n) in enumerate(ends):
            k = f"{kind}-{n}-{i}"
            specs[k] = sp(m, f"waitfile={gate}", *ops_for(kind, n, rng))
            exp[k] = (kind, n)
        keys = list(specs)
        while keys:
            part, keys = keys[:60], keys[60:]
            m.start({k: specs[k] for k in part})
        for k, r in m.list().items():
            check_running(r, k)
        ck.seen("running-observations", len(specs))
        gate.touch()
        res = m.wait_all(30 * slack)
        if set(res) != set(exp):
            raise Broken("records", f"records {sorted(set(res) ^ set(exp))[:5]} differ")
        pids = [r["pid"] for r in res.values()]
        if len(set(pids)) != len(pids):
            raise Broken("pids", "two processes report the same pid")
        reap = reaps(m)
        for k, r in res.items():
            check_final(ck, m, k, r, exp[k], reap)
            ck.case(f"end {exp[k][0]} {exp[k][1]} core={r['status']['core_dump']} delayed={delayed}",
                    {"id": k, "status": r["status"], "kernel": reap.get(r["pid"])} if exp[k][1] % 37 == 0 else None)
        # Anything later leaves these results as they are.
        m.start({f"later{i}": sp(m, f"exit={i}") for i in range(8)})
        m.signal(rng.choice(list(exp)), "SIGTERM")
        for i in range(8):
            m.wait_done(f"later{i}", 20 * slack)
        again = m.list()
        for k in exp:
            check_finality(m, res[k], again[k], k)
        ck.seen("finality-comparisons", len(exp))
        ck.seen("kernel-statuses-compared", len([k for k in exp if res[k]["pid"] in reap]))


def polled(ck, rng, slack, kind, n, stops):
    """One process, polled all through its life, possibly stopped and continued,
    with children and orphans of its own."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        gate = m.dir / "gate"
        kids = rng.choice([[], ["fork{", "exit=9", "}"], ["fork{", "exit=9", "}", "wait"],
                           ["fork{", "us=300000", "exit=5", "}"], ["fork{", "kill=9", "}", "fork{", "us=100000", "exit=1", "}"]])
        m.start({"p": sp(m, *kids, f"waitfile={gate}", *ops_for(kind, n, rng)), "q": sp(m, "us=30000", "exit=17")})
        pid = m.get("p")["pid"]
        life = proc_stat(pid)
        polls = 0

        def poll(times):
            nonlocal polls
            for _ in range(times):
                r = m.get("p")
                check_running(r, "p")
                polls += 1
                time.sleep(rng.choice([0, 0.002, 0.01]))
        poll(5)
        for _ in range(stops):
            if m.signal("p", "SIGSTOP").status != 200:
                raise Broken("stop-refused", "SIGSTOP refused")
            wait_for(lambda: proc_stat(pid)[1][0] in "tT", 10 * slack, "process stops")
            time.sleep(0.03)
            poll(4)
            m.signal("p", "SIGCONT")
            wait_for(lambda: proc_stat(pid)[1][0] not in "tT", 10 * slack, "process continues")
            time.sleep(0.03)
            poll(4)
        other = m.wait_done("q", 20 * slack)
        if other["status"]["exit_code"] != 17:
            raise Broken("status", f"neighbour exit code {other['status']}")
        gate.touch()
        first = None
        end = time.monotonic() + 20 * slack
        after = 0
        while after < 12:
            r = m.get("p")
            polls += 1
            if first is None:
                if r["state"] == "running":
                    check_running(r, "p")
                    if time.monotonic() > end:
                        raise Hang("p is reported as terminated")
                    continue
                first = r
                now = proc_stat(pid)
                if now and now[1][0] not in "ZX" and now[1][19] == life[1][19]:
                    raise Broken("ended-early", f"reported {r['state']} while pid {pid} is still in state {now[1][0]}")
                check_final(ck, m, "p", r, (kind, n), reaps(m))
            else:
                check_finality(m, first, r, "p")
                after += 1
                time.sleep(0.01)
        ck.seen("polls", polls)
        ck.case(f"polled {kind} {n} stops={stops} kids={len(kids)}")


def brief(ck, rng, slack):
    """Processes that are over before the manager takes another look: everything
    there is to learn about them arrives at once, and nothing comes later."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        m.ctl.delay("forked", rng.choice([15000, 40000, 80000]))
        for i in range(12):
            k = rng.choice([1, 1, 1, 2, 5])
            ends = {f"b{i}-{j}": rng.choice([("exit", rng.randrange(256)), ("signal", rng.choice(FATAL))]) for j in range(k)}
            m.start({p: sp(m, "core=0", f"exit={n}" if kind == "exit" else f"kill={n}") for p, (kind, n) in ends.items()})
            for p, e in ends.items():
                r = m.wait_done(p, 20 * slack)
                check_final(ck, m, p, r, e, reaps(m))
                ck.case(f"brief {e[0]} {e[1]} of {k}")
            if rng.random() < 0.3:
                m.ctl.delay("epoll", rng.choice([0, 20000]))
            ck.seen("processes over before the manager looked", k)


def chain(ck, rng, slack):
    """Processes that end one right after another, the last with nothing to follow it."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        for i in range(30):
            k = rng.choice([2, 2, 2, 3, 5])
            codes = [rng.randrange(256) for _ in range(k)]
            specs = {}
            for j, n in enumerate(codes):
                fds = [["0", {"pipe-read": {"proc_id": f"c{i}-{j - 1}", "fd": "1"}}]] if j else []
                if j < k - 1:
                    fds.append(["1", "pipe-write"])
                gap = rng.choice([0, 0, 30, 100, 250, 600, 1500])
                specs[f"c{i}-{j}"] = sp(m, "rdn=0:1:/dev/null" if j else "us=8000", *([f"us={gap}"] if gap else []), f"exit={n}", fds=fds)
            m.start(specs)
            for j, n in enumerate(codes):
                r = m.wait_done(f"c{i}-{j}", 20 * slack)
                check_final(ck, m, f"c{i}-{j}", r, ("exit", n), reaps(m))
            ck.case(f"chain of {k} {codes}")
            ck.seen("processes ending right after another", k - 1)


def inherited_child(ck, rng, slack):
    """The manager's process already has children of its own when it starts."""
    n = rng.randrange(1, 4)
    with Manager(ck, wrapper=["/bin/sh", "-c", "(sleep 0.%d; exit 3) & " % rng.randrange(1, 5) * n + 'exec "$0" "$@"']) as m:
        codes = [rng.randrange(256) for _ in range(12)]
        for i, c in enumerate(codes):
            m.start({f"p{i}": sp(m, f"us={rng.randrange(120000)}", f"exit={c}")})
        res = m.wait_all(30 * slack)
        reap = reaps(m)
        for i, c in enumerate(codes):
            check_final(ck, m, f"p{i}", res[f"p{i}"], ("exit", c), reap)
        m.check_alive()
        ck.case(f"inherited children {n}")


def signalled(ck, rng, slack, sig):
    """Ended by a signal sent through procstar itself."""
    with Manager(ck) as m:
        m.start({"p": sp(m, "core=0", "pause"), "v": sp(m, "pause")})
        arg = rng.choice([str(sig), SIGNAMES.get(sig, str(sig))])
        r = m.signal("p", arg)
        if r.status != 200:
            raise Broken("signal-refused", f"signal {arg}: {r.status} {r.body[:200]!r}")
        check_final(ck, m, "p", m.wait_done("p", 20 * slack), ("signal", sig), reaps(m))
        check_running(m.get("v"), "v")
        ck.case(f"signalled {sig}")


def main(ck):
    rng = ck.rng("plan")
    codes = [("exit", c) for c in range(256)]
    sigs = [("signal", s) for s in FATAL]
    for i in range(2):
        part = codes[i::2] + sigs + [("signal", s) for s in CORE for _ in range(3)]
        rng.shuffle(part)
        ck.scenario(f"batch#{i}", batch, part, i == 1)

    def make(i):
        r = ck.rng("make", i)
        kind, n = r.choice(codes) if r.random() < 0.5 else r.choice(sigs)
        c = i % 10
        if c == 8:
            return (f"brief#{i}", brief)
        if c == 9:
            return (f"chain#{i}", chain)
        if c in (0, 1, 3, 4):
            return (f"polled#{i}", polled, kind, n, r.choice([0, 1, 2]))
        if c == 2:
            return (f"inherited#{i}", inherited_child)
        if c in (5, 6):
            return (f"signalled#{i}", signalled, r.choice(FATAL))
        k = r.choice([40, 100, 180])
        return (f"crowd#{i}", batch, [r.choice(codes + sigs) for _ in range(k)], r.random() < 0.6)
    ck.run_many(make, workers=5, at_least=16)


if __name__ == "__main__":
    run_check("P01", "each case ends one probe process in a chosen way (exit code or signal, alone or in a crowd, with stops, "
              "children and injected delays) and compares every observed result with the ending the probe performed and with "
              "the wait status the interposer saw the kernel deliver; distinct by way of ending and circumstances",
              main, quick_s=16, thorough_s=240,
              assumptions=["the core-dump flag is taken from the raw status the kernel delivered",
                           "signals 32 and 33 are reserved by libc and not exercised"])
