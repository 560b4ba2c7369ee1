"""P26: reported times, resource usage and process information are true."""
import datetime, os, pty, re, signal as sg, time
from core import *
from mgr import *
from agentsrv import *

PAGE = os.sysconf("SC_PAGESIZE")
TICK = os.sysconf("SC_CLK_TCK")
OTHER = {"SIGPOLL": "SIGIO", "SIGIOT": "SIGABRT", "SIGCLD": "SIGCHLD"}
STD = {i: sg.Signals(i).name for i in range(1, 32)}
TOL = 0.03      # clocks read at different moments, file systems' coarse clock


def ts(s):
    """Seconds of an RFC 3339 time of any number of decimals."""
    m = re.fullmatch(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(\.\d+)?(Z|\+00:00)", s)
    if not m:
        raise Broken("bad-time", f"not a UTC time: {s!r}")
    return datetime.datetime.fromisoformat(m[1] + "+00:00").timestamp() + float(m[2] or 0)


def names(mask):
    return [STD[i] for i in range(1, 32) if mask & 1 << (i - 1)]


def raw_stat(m, pid):
    """The kernel's view, as the manager's user sees it: (stat text, statm text)."""
    r = m.as_user("/bin/cat", f"/proc/{pid}/stat", f"/proc/{pid}/statm")
    if r.returncode or not r.stdout:
        raise Inconclusive("process is gone")
    a, b = r.stdout.rstrip(b"\n").rsplit(b"\n", 1)
    return a, b


def parse(text):
    i, j = text.index(b"("), text.rindex(b")")
    f = [None, int(text[:i]), text[i + 1:j].decode("utf-8", "replace"), *text[j + 2:].decode().split()]
    n = lambda k: int(f[k])
    tty = n(7) & 0xffffffff
    with open("/proc/uptime") as u:
        boot = time.time() - float(u.read().split()[0])
    return {
        "pid": f[1], "comm": f[2], "state": f[3], "ppid": n(4), "pgrp": n(5), "session": n(6),
        "tty_nr": [tty >> 8 & 0xfff, (tty & 0xff) | (tty >> 12 & 0xfff00)], "tpgid": None if n(8) == -1 else n(8), "flags": n(9), "minflt": n(10), "cminflt": n(11),
        "majflt": n(12), "cmajflt": n(13), "utime": n(14) / TICK, "stime": n(15) / TICK, "cutime": n(16) / TICK, "cstime": n(17) / TICK, "priority": n(18), "nice": n(19),
        "num_threads": n(20), "starttime": boot + n(22) / TICK, "vsize": n(23), "rss": n(24) * PAGE, "rsslim": n(25), "signal": names(n(31)), "blocked": names(n(32)),
        "sigignore": names(n(33)), "sigcatch": names(n(34)), "wchan": n(35), "exit_signal": STD.get(n(38)), "processor": n(39), "rt_priority": n(40), "policy": n(41),
        "delayacct_blkio_ticks": n(42) / TICK, "guest_time": n(43) / TICK, "exit_code": n(52)}


GROWING = ["minflt", "cminflt", "majflt", "cmajflt", "utime", "stime", "cutime", "cstime", "delayacct_blkio_ticks", "guest_time"]
FIXED = ["pid", "comm", "ppid", "pgrp", "session", "tty_nr", "flags", "priority", "nice", "num_threads", "rsslim", "signal", "blocked", "sigignore", "sigcatch", "exit_signal", "rt_priority", "policy",
         "exit_code", "vsize", "tpgid"]
IDENTITY = ["pid", "comm", "ppid", "session", "exit_signal", "rsslim"]


def same(a, b):
    return abs(a - b) < 1e-6 * max(1, abs(a)) if isinstance(a, float) or isinstance(b, float) else a == b


def check_stat(what, got, before, after, quiet, still):
    if got is None:
        raise Broken("no-stat", f"{what}: no process information though it is running")
    for k, v in before.items():
        if k not in got:
            raise Broken("stat-missing", f"{what}: {k} missing")
        g, w = got[k], after[k]
        if k == "starttime":
            if abs(ts(g) - v) > 0.3:
                raise Broken("stat-starttime", f"{what}: starttime {g}, by the kernel {datetime.datetime.fromtimestamp(v, datetime.UTC).isoformat()}")
        elif k in GROWING:
            if not (g >= v - 1e-9 and g <= w + 1e-9):
                raise Broken("stat-" + k, f"{what}: {k} {g!r}, the kernel's went from {v!r} to {w!r}")
        elif k == "processor":
            if not 0 <= g < os.cpu_count():
                raise Broken("stat-processor", f"{what}: {g!r}")
        elif k == "state" and not still:
            if g not in ("R", "S", "D"):
                raise Broken("stat-state", f"{what}: state {g!r}")
        elif k == "wchan" and not still:
            pass
        elif same(v, w) and (quiet or k in FIXED):
            if not same(g, v):
                raise Broken("stat-" + k, f"{what}: {k} {g!r}, the kernel's is {v!r}")


def check_statm(what, got, before, after, quiet):
    names = ["size", "resident", "shared", "text", None, "data", None]
    for n, b, a in zip(names, before.split(), after.split()):
        if n and a == b and (quiet or n in ("text",)):
            if got[n] != int(b) * PAGE:
                raise Broken("statm-" + n, f"{what}: {n} {got[n]}, by the kernel {int(b) * PAGE}")


COMMS = [b"a", b"(", b")", b") R 1 2 3", b"a) S (b", b"()", b"a b", b" ", b"a\nb", b"\n", b"\xff\xfe", "é".encode() * 8, "𝄞".encode() * 4, b"x" * 15, b"x" * 14 + "é".encode(), b"\t", b"\x01", b"'\"",
         b"%s", b")) Z 0 0", b"(((((", b"12 34", b"\\", b"", b"\x7f\x80", b"R"]


def profile(m, rng, d, i):
    """(ops before settling, desc, whether it is quiet when settled)"""
    ops, desc, quiet = [], [], True
    c = rng.choice(COMMS)
    if rng.random() < 0.7:
        ops.append("nameh=" + c.hex())
        desc.append(f"comm {c!r}")
    for s in rng.sample([x for x in range(1, 32) if x not in (9, 19)], rng.choice([0, 0, 1, 3, 10, 29])):
        how = rng.choice(["ign", "blk", "blk raise", "log", "dfl"])
        if how == "blk raise":
            ops += [f"blk={s}", f"raise={s}"]
        elif how == "log":
            ops.append(f"log={s}:{d}/sig{i}")
        else:
            ops.append(f"{how}={s}")
        desc.append(f"{s}{how}")
    if rng.random() < 0.3:
        n = rng.choice([1, 5, 10, 19])
        ops.append(f"nice={n}")
        desc.append(f"nice{n}")
    if rng.random() < 0.2:
        n = rng.choice([3, 5])
        ops.append(f"sched={n}")
        desc.append(f"sched{n}")
    if rng.random() < 0.2:
        ops.append(f"rsslim={rng.choice([0, 1 << 20, 1 << 33, 12345])}")
    if rng.random() < 0.3:
        n = rng.choice([1, 8, 40])
        ops.append(f"alloc={n}")
        desc.append(f"alloc{n}")
    if rng.random() < 0.3:
        n = rng.choice([10, 60, 150])
        ops.append(f"spin={n}")
        desc.append(f"spin{n}")
    kids = rng.random()
    if kids < 0.25:
        n = rng.choice([20, 80])
        ops += ["fork{", f"spin={n}", "alloc=3", "}", "fork{", "}", "wait"]
        desc.append(f"children{n}")
    elif kids < 0.4:
        ops += ["fork{", f"waitfile={d}/never", "}"]
        desc.append("child left")
    if rng.random() < 0.3:
        ops.append(f"vmiss={rng.choice([20, 300])}")
    if rng.random() < 0.2:
        n = rng.choice([1, 3, 30])
        ops.append(f"threads={n}")
        desc.append(f"threads{n}")
    return ops, desc, quiet


def window(m, a, b, what, x, lo_why, hi_why, tol=TOL):
    if not a - tol <= x:
        raise Broken("time-too-early", f"{what} {a - x:.3f} s before {lo_why}")
    if not x <= b + tol:
        raise Broken("time-too-late", f"{what} {x - b:.3f} s after {hi_why}")


class Clock:
    """Wall-clock time of the moments on the monotonic clock."""
    def __init__(self):
        self.off = min((time.time() - time.monotonic() for _ in range(5)), key=abs)

    def wall(self, ns):
        return ns / 1e9 + self.off


def times_ok(what, t, state):
    start, now = ts(t["start"]), ts(t["now"])
    stop = ts(t["stop"]) if t["stop"] is not None else None
    if (stop is None) != (state == "running"):
        raise Broken("stop-time", f"{what}: {state}, stop time {t['stop']}")
    if not start <= now + 1e-6 or (stop is not None and not start <= stop <= now + 1e-6):
        raise Broken("times-order", f"{what}: {t}")
    ref = (stop if stop is not None else now) - start
    if t["elapsed"] < 0 or abs(t["elapsed"] - ref) > 0.1:
        raise Broken("elapsed", f"{what}: elapsed {t['elapsed']:.4f}, but {ref:.4f} s between start and {'stop' if stop else 'now'}")
    return start, stop, now


def life(ck, rng, slack, use_tty):
    """Processes from start to end: every field compared at random moments."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        d = m.dir
        os.chmod(d, 0o777)
        if rng.random() < 0.3:
            m.ctl.delay("fork", rng.choice([2000, 20000]), 500)
        if rng.random() < 0.3:
            m.ctl.delay("wait4", rng.choice([1000, 10000]), 500)
        ptys = []
        try:
            n = rng.choice([1, 3, 6])
            specs, info = {}, {}
            for i in range(n):
                k = f"p{i}"
                ops, desc, quiet = profile(m, rng, d, i)
                if use_tty and i == 0:
                    mfd, sfd = pty.openpty()
                    ptys += [mfd, sfd]
                    os.fchown(sfd, m.uid, m.uid)
                    os.fchmod(sfd, 0o666)
                    ops.append(f"tty={os.ttyname(sfd)}")
                    desc.append("tty")
                way = rng.choice(["pause", "pause", "file", "file", "stop", "spin"])
                ops.append(f"touch={d}/up{i}")
                ops += {"pause": ["pause"], "file": [f"waitfile={d}/go{i}"], "stop": ["stop", f"waitfile={d}/go{i}"], "spin": ["spin=100000"]}[way]
                code = rng.randrange(256)
                ops += [f"touch={d}/down{i}", f"exit={code}"]
                specs[k] = sp(m, *ops, fds=[["1", cap(rng.choice(["memory", "tempfile"]))], ["2", "close"]])
                info[k] = dict(desc=" ".join([*desc, way]), way=way, i=i, code=code)
            clock = Clock()
            t0 = time.time()
            m.start(specs)
            t1 = time.time()
            for k, x in info.items():
                wait_for(lambda: os.path.exists(f"{d}/up{x['i']}"), 30 * slack, f"{k} [{x['desc']}] gets going")
                if x["way"] == "stop":
                    wait_for(lambda: proc_stat(m.get(k)["pid"])[1][0] == "T", 20 * slack, f"{k} stops")
            time.sleep(0.02)
            last = {}
            for k, x in sorted(info.items(), key=lambda _: rng.random()):
                what = f"[{x['desc']}]"
                prev = None
                for rep in range(rng.choice([1, 2, 4])):
                    pid = m.get(k)["pid"]
                    b, bm = raw_stat(m, pid)
                    qa = time.time()
                    r = m.get(k)
                    qb = time.time()
                    a, am = raw_stat(m, pid)
                    if r["state"] != "running" or r["status"] is not None or r["rusage"] is not None:
                        raise Broken("not-running", f"{what}: {r['state']} {r['status']} {r['rusage']} while it runs")
                    if parse(b)["ppid"] != m.pid:
                        raise Broken("wrong-pid", f"{what}: pid {pid} is not the manager's child")
                    check_stat(what, r["proc_stat"], parse(b), parse(a), x["way"] != "spin", x["way"] in ("pause", "stop"))
                    if r["proc_statm"] is None:
                        raise Broken("no-statm", what)
                    check_statm(what, r["proc_statm"], bm.decode(), am.decode(), x["way"] != "spin")
                    start, stop, now = times_ok(what, r["times"], "running")
                    window(m, qa, qb, f"{what}: now", now, "the query", "the response")
                    window(m, t0, t1, f"{what}: start", start, "the request", "its response")
                    e = r["times"]["elapsed"]
                    window(m, qa - t1, qb - t0, f"{what}: elapsed while running", e, "possible", "possible")
                    if prev and (r["times"]["start"] != prev[0] or e <= prev[1]):
                        raise Broken("elapsed", f"{what}: start {prev[0]} elapsed {prev[1]}, then {r['times']}")
                    prev = (r["times"]["start"], e)
                    last[k] = (parse(a), r)
                    ck.seen("live comparisons")
            # Forks, as they happened.
            ev = m.events()
            forks = {int(e[3][0]): e[0] for e in ev if e[2] == "fork" and e[3][0] != "-1"}
            calls = sorted(e[0] for e in ev if e[2] == "fork-call")
            for k, (st, r) in last.items():
                f = forks.get(r["pid"])
                if f is None:
                    raise Broken("wrong-pid", f"{info[k]['desc']}: pid {r['pid']} was never forked; {sorted(forks)}")
                call = max(c for c in calls if c <= f)
                window(m, clock.wall(call), clock.wall(f) + 1.0 * slack, f"[{info[k]['desc']}]: start", ts(r["times"]["start"]), "its fork", "its fork by over a second")
            if rng.random() < 0.12:
                time.sleep(1.7)     # not so young any more
            # Ends.
            ends = {}
            for k, x in sorted(info.items(), key=lambda _: rng.random()):
                pid = last[k][1]["pid"]
                ends[k] = [time.time(), None]
                if x["way"] in ("pause", "spin"):
                    s = rng.choice([9, 9, 15 if not any(f"15{h}" in x["desc"] for h in ("ign", "blk", "log")) else 9])
                    x["sig"] = s
                    if rng.random() < 0.5:
                        os.kill(pid, s)
                    else:
                        m.signal(k, s)
                else:
                    open(f"{d}/go{x['i']}", "w").close()
                    if x["way"] == "stop":
                        os.kill(pid, sg.SIGCONT)
                if rng.random() < 0.5:
                    wait_for(lambda: proc_stat(pid) is None, 20 * slack, f"{k} [{x['desc']}] is reaped")
                    ends[k][1] = time.time()
            lazy = rng.random() < 0.3
            if lazy:
                wait_for(lambda: all(proc_stat(last[k][1]["pid"]) is None for k in info), 20 * slack, "all are reaped")
                tl = time.time()
                time.sleep(2.3)
            fin = {}
            for k, x in info.items():
                what = f"[{x['desc']}] ended"
                r = fin[k] = m.wait_done(k, 20 * slack)
                seen = min(ends[k][1] or 9e99, tl if lazy else time.time())
                st = r["status"]
                if r["state"] != "terminated" or (x.get("sig"), None if x.get("sig") else x["code"]) != (st["signum"], st["exit_code"]):
                    raise Broken("wrong-end", f"{what}: {r['state']} {st}, expected {x.get('sig')}/{x['code']}")
                start, stop, now = times_ok(what, r["times"], "terminated")
                if r["times"]["start"] != last[k][1]["times"]["start"] or r["pid"] != last[k][1]["pid"]:
                    raise Broken("start-changed", f"{what}: {last[k][1]['times']} then {r['times']}")
                lo = ends[k][0]
                if x["way"] in ("file", "stop"):
                    lo = os.stat(f"{d}/down{x['i']}").st_mtime
                window(m, lo, seen + 1.0 * slack, f"{what}: stop", stop, "it ended", "it was gone, by over a second")
                # Memory information is about a running process only; identity remains.
                if r["proc_statm"] is not None:
                    raise Broken("statm-after", f"{what}: {r['proc_statm']}")
                ps = r["proc_stat"]
                if ps is not None:
                    for f in IDENTITY:
                        if ps[f] != last[k][0][f]:
                            raise Broken("stat-" + f, f"{what}: {f} {ps[f]!r}, it was {last[k][0][f]!r}")
                    if abs(ts(ps["starttime"]) - last[k][0]["starttime"]) > 0.3:
                        raise Broken("stat-starttime", f"{what}: {ps['starttime']}")
                    if ps["state"] == "Z":
                        ck.seen("last stat of a zombie")
                        if ps["exit_code"] != st["status"]:
                            raise Broken("stat-exit_code", f"{what}: exit code {ps['exit_code']}, status {st}")
                else:
                    raise Broken("no-stat", f"{what}: no process information of its end")
            # What the kernel said when each was reaped.
            reaps = {int(e[3][0]): e for e in m.events() if e[2] == "reap"}
            for k, r in fin.items():
                what = f"[{info[k]['desc']}] ended"
                e = reaps.get(r["pid"])
                if e is None:
                    raise Broken("not-reaped", f"{what}: {r['pid']} was not reaped; {sorted(reaps)}")
                v = e[3][2:]
                want = {"utime": float(v[0]), "stime": float(v[1]), "maxrss": int(v[2]) * 1024}
                want.update(zip(["minflt", "majflt", "nswap", "inblock", "oublock", "nvcsw", "nivcsw"], map(int, v[3:])))
                for f, w in want.items():
                    if not same(r["rusage"][f], w):
                        raise Broken("rusage-" + f, f"{what}: {f} {r['rusage'][f]!r}, the kernel said {w!r}")
                if r["status"]["status"] != int(e[3][1]):
                    raise Broken("status", f"{what}: {r['status']}, the kernel said {e[3][1]}")
                window(m, ends[k][0], clock.wall(e[0]) + 1.0 * slack, f"{what}: stop", ts(r["times"]["stop"]), "it was made to end", "it was reaped by over a second")
                ck.seen("rusage compared")
            # Fixed from then on.
            time.sleep(rng.choice([0, 0.05]))
            for k, r in fin.items():
                q = m.get(k)
                for x in (q, r):
                    x["times"] = {**x["times"], "now": None}
                if q != r:
                    df = {f: (r[f], q[f]) for f in r if r[f] != q.get(f)}
                    raise Broken("not-fixed", f"[{info[k]['desc']}] ended: later {str(df)[:500]}")
                ck.case(info[k]["desc"], {"process": info[k]["desc"], "end": info[k].get("sig") or info[k]["code"]})
        finally:
            for f in ptys:
                os.close(f)


def failed(ck, rng, slack):
    """Times of processes that never ran."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        for how in rng.sample(["exe", "fork", "fd"], 3):
            k = f"x{how}"
            if how == "fork":
                m.ctl.fail("fork", 11)
            t0 = time.time()
            m.start({k: {"argv": ["/no/such"]} if how == "exe" else sp(m, "exit=0", fds=[["1", {"file": {"path": "/no/such/file", "flags": "Read"}}]]) if how == "fd" else sp(m, "exit=0")})
            t1 = time.time()
            r = m.wait_done(k, 20 * slack)
            t2 = time.time()
            if how == "fork":
                m.ctl.disarm("fork")
                if r["state"] != "error":
                    raise Inconclusive("fork did not fail")
            if r["state"] != "error":
                raise Broken("not-error", f"{how}: {r['state']}")
            start, stop, now = times_ok(f"failed {how}", r["times"], "error")
            window(m, t0, t1, f"failed {how}: start", start, "the request", "its response")
            window(m, t0, t2, f"failed {how}: stop", stop, "the request", "it was seen")
            time.sleep(rng.choice([0, 0.1]))
            q = m.get(k)
            if {**q["times"], "now": 0} != {**r["times"], "now": 0}:
                raise Broken("not-fixed", f"failed {how}: {r['times']} then {q['times']}")
            ck.case(f"failed {how}")


def clock_set(ck, rng, slack):
    """The wall clock is set meanwhile: elapsed times go on.  Or much time goes by."""
    sc = rng.choice([None, None, 300, 20_000])
    f = sc or 1
    with Manager(ck, seed=rng.randrange(1 << 30), scale=sc) as m:
        os.chmod(m.dir, 0o777)
        n = rng.choice([1, 2, 4])
        off = 0
        t0 = time.time()
        m.start({f"p{i}": sp(m, f"waitfile={m.dir}/go{i}", "exit=0") for i in range(n)})
        t1 = time.time()
        start, last, done = {}, {}, {}
        for step in range(rng.choice([3, 6])):
            if not sc:
                off += rng.choice([0, 3600, -3600, 1, -1, 86400 * 400, -40])
                m.ctl.set_clock(off)
            i = rng.randrange(n)
            k = f"p{i}"
            if rng.random() < 0.4 and k not in done:
                e0 = time.time()
                open(f"{m.dir}/go{i}", "w").close()
                wait_for(lambda: m.get(k)["state"] == "terminated", 20 * slack, "ends")
                done[k] = (e0, time.time())
            time.sleep(rng.choice([0, 0.05, 0.3]))
            for k in [f"p{i}" for i in range(n)]:
                qa = time.time()
                t = m.get(k)["times"]
                qb = time.time()
                what = f"{k}, clock set {off} s off" if not sc else f"{k}, time going {sc} times as fast"
                now = ts(t["now"])
                window(m, qa + off, qb + off, f"{what}: now", now, "the query", "the response")
                if start.setdefault(k, t["start"]) != t["start"]:
                    raise Broken("start-changed", f"{what}: start {start[k]}, then {t['start']}")
                window(m, t0, t1, f"{what}: start", ts(t["start"]), "the request", "its response")
                if k in done:
                    a, b = done[k]
                    if k in last and last[k][0] and (t["stop"], t["elapsed"]) != last[k][0]:
                        raise Broken("not-fixed", f"{what}: stop and elapsed {last[k][0]}, then {t}")
                    window(m, (a - t1) * f, (b - t0) * f, f"{what}: elapsed when it ended", t["elapsed"], "possible", "possible", TOL * f)
                    last[k] = ((t["stop"], t["elapsed"]), t["elapsed"])
                else:
                    if t["stop"] is not None:
                        raise Broken("stop-time", f"{what}: running, stopped {t['stop']}")
                    window(m, (qa - t1) * f, (qb - t0) * f, f"{what}: elapsed while running", t["elapsed"], "possible", "possible", TOL * f)
                    if k in last and t["elapsed"] <= last[k][1]:
                        raise Broken("elapsed", f"{what}: elapsed {last[k][1]}, then {t['elapsed']}")
                    last[k] = (None, t["elapsed"])
                ck.seen("results with the clock set")
        ck.case(f"clock set {n} {off} {sc}", {"processes": n, "clock off by": off, "time goes by": f})


def identity(ck, rng, slack):
    """What an agent says of itself when it registers."""
    host = rng.choice(["h", "host-1.example.com", "x" * 63, "y" * 64, "A.b", "0"])
    ns = rng.choice([True, True, False])
    how = ["unshare", "-r", "-u", "sh", "-c", 'hostname "$1" && shift && exec "$@"', "sh", host] if ns else []
    if ns:
        import subprocess
        t = subprocess.run(how + ["hostname"], user=ck.next_uid(), extra_groups=[], cwd="/", capture_output=True, stdin=subprocess.DEVNULL)
        if t.returncode or t.stdout.decode().strip() != host:
            ck.seen("no user namespaces here")
            ns, how = False, []
    mixed = not ns and rng.random() < 0.6
    with AgentServer() as srv:
        if mixed:       # real and effective IDs differ
            u, g, e, h = (ck.next_uid() for _ in range(4))
            how = ["setpriv", f"--ruid={u}", f"--euid={e}", f"--rgid={g}", f"--egid={h}", "--clear-groups"]
        m = agent(ck, srv, wrapper=how, preload=False, as_root=mixed)
        with m:
            try:
                c = srv.wait_conn(0, timeout=15 * slack)
            except Hang:
                m.check_alive()
                raise
            p = c.register["proc"]
            want = {"pid": m.pid, "ppid": os.getpid(), "uid": 0 if ns else m.uid, "euid": 0 if ns else m.uid, "gid": 0 if ns else m.uid, "egid": 0 if ns else m.uid,
                    "username": "root" if ns else None, "groupname": "root" if ns else None, "hostname": host if ns else os.uname().nodename}
            if mixed:
                want.update(uid=u, euid=e, gid=g, egid=h)
            bad = {f: (p.get(f), v) for f, v in want.items() if p.get(f) != v}
            if ns and set(bad) <= {"gid", "egid", "groupname"} and p.get("gid") == p.get("egid"):
                bad = {}
            if bad:
                raise Broken("identity", f"registered as (got, true) {bad}")
            ck.case(f"identity {host if ns else ''} {mixed}", {"proc": p})


def main(ck):
    plan = [("identity", identity), ("life", life, True), ("life", life, False), ("failed", failed), ("identity", identity), ("clock_set", clock_set), ("identity", identity), ("life", life, False)]

    def make(i):
        if i < len(plan):
            n, f, *a = plan[i]
        else:
            rng = ck.rng("plan", i)
            n, f, *a = rng.choice([("life", life, rng.random() < 0.4)] * 8 + [("failed", failed), ("identity", identity), ("clock_set", clock_set)])
        return (f"{n}#{i}", f, *a)
    ck.run_many(make, workers=6, at_least=18)


if __name__ == "__main__":
    run_check("P26", "one process of random name, signal masks, resource profile and end, whose result at several moments is compared with what the kernel showed just before and after, with the "
              "usage the kernel gave when it was reaped, and with the moments of its fork and end; distinct by that profile", main, quick_s=14, thorough_s=180)
