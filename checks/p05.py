"""P05: an accepted start runs each process exactly once, a refused one runs nothing."""
import shutil, threading, time
from core import *
from mgr import *
from agentsrv import *

ODD = ["", " ", "a b", "\t\n", "é€𝄞", "--", "-x", "\\", "\"q\"", "'", "$HOME", "%s%n", "\x01\x7f", "*", "x" * 5000, "\u202e", "=", "a=b", "\r", "{}", "\ufeff"]
IDS = ["p", "a b", "é", "x/y", "..", "%2F", "日本", "q?r#s", "\"", "\\", "a" * 300, " ", "1", "true", "null", "a\nb", "\x01", "+", "&=;"]


def arg(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice(ODD)
    if k == 1:
        return "".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(1, 0xD800), rng.randrange(0xE000, 0x110000)])) for _ in range(rng.randrange(12)))
    if k == 2:
        return "v" * rng.choice([1, 100, 4096, 30000])
    return f"arg{rng.randrange(1000)}"


ALT = None       # a second executable, made before any thread runs


class Run:
    """One process expected to run: what it will report of itself."""
    def __init__(self, m, rng, i, tag):
        self.base = m.dir / f"r{tag}-{i}"
        self.args = [arg(rng) for _ in range(rng.choice([0, 0, 1, 3, 12]))]
        self.exit = rng.randrange(99)
        ops = [f"argv={self.base}.argv", f"exe={self.base}.exe", f"sid={self.base}.sid"]
        if rng.random() < 0.3:
            ops.append(f"us={rng.choice([100, 5000, 60000])}")
        ops += [f"mark={self.base}.mark:ran", f"exit={self.exit}", "--"]
        how = rng.randrange(7) // 2
        if how == 0:
            self.exe, a0, exe = str(m.probe), str(m.probe), None
        elif how == 1:
            alt = ALT
            self.exe, a0, exe = str(alt), rng.choice(["", "argv zero", "/bin/false", str(m.probe), "-sh", "/dir/", "é/é", " x "]), str(alt)
        else:
            self.exe, a0, exe = str(m.probe), "/nonexistent", str(m.probe)
        if how == 3:
            # An executable but no arguments at all: a script, since the probe needs some.
            import shlex
            path = f"{self.base}.sh"
            self.args, self.exe = [], str(m.probe)
            script(path, "#!/bin/sh\nexec " + " ".join(map(shlex.quote, [str(m.probe), *ops])) + "\n")
            self.argv = [str(m.probe), *ops]
            self.spec = {"exe": path, **rng.choice([{"argv": []}, {}])}
            self.how = how
            return
        # Ops end with exit=, so further arguments are never looked at.
        self.argv = [a0, *ops, *self.args]
        self.spec = {"argv": self.argv}
        if exe:
            self.spec["exe"] = exe
        if rng.random() < 0.1:
            # The key is its ID, whatever else it's called.
            self.spec["id"] = rng.choice(["other", "p1", None])
        self.how = how

    def verify(self, m, pid_s, r, how):
        what = f"{pid_s!r} started by {how}"
        if r["state"] != "terminated" or r["status"]["exit_code"] != self.exit:
            raise Broken("did-not-run", f"{what}: {r['state']} {r['errors']} {r['status']}, expected exit {self.exit}")
        marks = (self.base.with_name(self.base.name + ".mark")).read_text().splitlines()
        if len(marks) != 1:
            raise Broken("ran-times", f"{what}: ran {len(marks)} times")
        pid = int(marks[0].split()[1])
        if pid != r["pid"]:
            raise Broken("pid", f"{what}: ran as {pid}, reported as {r['pid']}")
        got = (self.base.with_name(self.base.name + ".argv")).read_bytes().split(b"\0")[:-1]
        want = [a.encode() for a in self.argv]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Broken("argv", f"{what}: argument {i} of {len(want)} is {got[i:i+1]!r:.200}, specified {want[i:i+1]!r:.200} ({len(got)} given)")
        exe = (self.base.with_name(self.base.name + ".exe")).read_text()
        if exe != self.exe:
            raise Broken("exe", f"{what}: runs {exe}, specified {self.exe}")
        p, pp, pg, sid = map(int, (self.base.with_name(self.base.name + ".sid")).read_text().split())
        if pp != m.pid:
            raise Broken("parent", f"{what}: parent is {pp}, manager is {m.pid}")
        if not (p == sid == pg):
            raise Broken("session", f"{what}: pid {p} group {pg} session {sid}")


def accepted(ck, rng, slack, use_agent, nthreads):
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    try:
        with m:
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            dist = rng.randrange(4)
            if dist == 1:
                m.ctl.delay("fork", 3000, 500)
            elif dist == 2:
                m.ctl.delay("fork", 3000, 500, child=True)
            elif dist == 3:
                m.ctl.delay("execve", 20000, 300, child=True)
            runs, errs, lock = {}, [], threading.Lock()

            def client(t, r):
                try:
                    for k in range(r.choice([1, 2, 4])):
                        ids = [f"{r.choice(IDS)}{t}.{k}.{j}" for j in range(r.choice([1, 1, 3, 12] if r.random() < 0.97 else [150]))]
                        rs = {pid: Run(m, r, j, f"{t}.{k}") for j, pid in enumerate(ids)}
                        with lock:
                            runs.update(rs)
                        if c and r.random() < 0.5:
                            c.send("ProcStartRequest", specs={p: x.spec for p, x in rs.items()})
                            # Requests are handled in order; the list that follows must have them.
                            since = c.mark()
                            c.send("ProcidListRequest")
                            _, lst = c.wait(lambda x: x["type"] == "ProcidList", 20 * slack, since)
                            while not set(rs) <= set(lst["proc_ids"]) and (nthreads > 1):
                                # Another client's earlier list, perhaps.
                                since = c.mark()
                                c.send("ProcidListRequest")
                                _, lst = c.wait(lambda x: x["type"] == "ProcidList", 20 * slack, since)
                                if r.random() < 0.01:
                                    break
                            if not set(rs) <= set(lst["proc_ids"]):
                                raise Broken("not-listed", f"started by agent but not listed: {set(rs) - set(lst['proc_ids'])}")
                        else:
                            m.start({p: x.spec for p, x in rs.items()})
                            if r.random() < 0.5:
                                l = m.list()
                                if not set(rs) <= set(l):
                                    raise Broken("not-listed", f"started but not listed: {set(rs) - set(l)}")
                            else:
                                for p in ids:
                                    if m.get(p) is None:
                                        raise Broken("not-listed", f"{p!r} started but unknown")
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=client, args=(t, random.Random(rng.random())), daemon=True) for t in range(nthreads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
            if errs:
                raise errs[0]
            # One without any argument, which the kernel makes an empty one.
            m.start({"no args": {"exe": "/bin/cat", "argv": [], "env": {"inherit": [], "vars": {}}, "fds": [["0", {"file": {"path": "/proc/self/cmdline", "flags": "Read"}}], ["1", cap("memory")]]}})
            # One whose executable can't be run, though its first argument could.
            bad = rng.choice(["", "", f"{m.dir}/missing", "/etc/passwd", str(m.dir), "true"])
            other = m.dir / "other.mark"
            m.start({"no exe": {"exe": bad, "argv": [str(m.probe), f"mark={other}:ran", "exit=0"]}})
            res = m.wait_all(60 * slack)
            r = res.pop("no exe")
            if other.exists() or (bad != "true" and r["state"] != "error"):
                raise Broken("exe", f"executable {bad!r}: {r['state']} {r['errors']} {r['status']}" + (", ran its argv[0] instead" if other.exists() else ""))
            r = res.pop("no args")
            if r["state"] != "terminated" or fd_bytes(r["fds"]["stdout"]) not in (b"", b"\0"):
                raise Broken("argv", f"a process started without arguments: {r['state']} {r['errors']}; arguments {fd_bytes(r['fds']['stdout'])!r}")
            if set(res) != set(runs):
                raise Broken("records", f"records {set(res) ^ set(runs)} differ from what was started")
            for p, x in runs.items():
                x.verify(m, p, res[p], "agent/HTTP" if c else "HTTP")
                ck.case(f"accepted how{x.how} {[a[:20] for a in x.args]} {p[:20]}", {"id": p[:60], "argv": [a[:40] for a in x.argv[-len(x.args):]] if x.args else []})
            ck.seen("processes that ran exactly once", len(runs))
            n = sum(1 for e in m.events() if e[2] == "execve" and e[1] != m.pid)
            ck.seen("exec calls observed", n)
    finally:
        if srv:
            srv.close()


def bad_specs(m, rng, valid):
    """(name, specs document or raw body) pairs, each to be refused as a whole."""
    ok = lambda: valid()
    pw, pr = "pipe-write", lambda p, fd: {"pipe-read": {"proc_id": p, "fd": fd}}
    good = ok()
    def w(fds, **kw):
        s = ok()
        s["fds"] = fds
        s.update(kw)
        return s
    out = [
        ("in use", {"old": ok(), "n1": ok()}),
        ("in use by a failed start", {"n1": ok(), "broken": ok()}),
        ("in use, last", {"a1": ok(), "a2": ok(), "zombie": ok()}),
        ("no exe or argv", {"n1": ok(), "n2": {"argv": []}}),
        ("nothing", {"n1": ok(), "n2": {}}),
        ("duplicate fd", {"n1": ok(), "n2": w([["1", "close"], ["stdout", "close"]])}),
        ("duplicate fd numbers", {"n0": ok(), "n2": w([["5", "close"], ["5", {"null": {}}]])}),
        ("bad fd name", {"n1": ok(), "n2": w([["out", "close"]])}),
        ("empty fd name", {"n1": ok(), "n2": w([["", "close"]])}),
        ("unmatched write", {"n1": ok(), "n2": w([["1", pw]])}),
        ("unmatched read", {"n1": ok(), "n2": w([["0", pr("n1", "1")]])}),
        ("read of unknown", {"n1": w([["1", pw]]), "n2": w([["0", pr("zz", "1")]])}),
        ("read of wrong fd", {"n1": w([["1", pw]]), "n2": w([["0", pr("n1", "2")]])}),
        ("two readers", {"n1": w([["1", pw]]), "n2": w([["0", pr("n1", "1")]]), "n3": w([["0", pr("n1", "1")]])}),
        ("bad pipe fd", {"n1": w([["1", pw]]), "n2": w([["0", pr("n1", "xx")]])}),
        ("pipe from an existing process", {"n2": w([["0", pr("old", "1")]])}),
        ("unknown field", {"n1": ok(), "n2": dict(ok(), extra=1)}),
        ("unknown fd kind", {"n1": ok(), "n2": w([["1", {"tee": {}}]])}),
        ("unknown flag", {"n1": ok(), "n2": w([["1", {"file": {"path": "/dev/null", "flags": "Bogus"}}]])}),
        ("bad mode", {"n1": ok(), "n2": w([["1", {"capture": {"mode": "disk"}}]])}),
        ("argv not strings", {"n1": ok(), "n2": {"argv": [m.probe, 5]}}),
        ("argv string", {"n1": ok(), "n2": {"argv": m.probe}}),
        ("env wrong", {"n1": ok(), "n2": dict(ok(), env={"inherit": 5})}),
        ("exe number", {"n1": ok(), "n2": dict(ok(), exe=7)}),
        ("spec null", {"n1": ok(), "n2": None}),
        ("fds pairs wrong", {"n1": ok(), "n2": w([["1"]])}),
    ]
    # Many good ones, and one that isn't.
    n = rng.choice([40, 70, 140])
    at = rng.choice([0, n - 1, n - 1, rng.randrange(n)])
    wrong = rng.choice([{"argv": []}, w([["1", "close"], ["stdout", "close"]]), w([["1", pw]]), w([["0", pr("m000", "7")]]), w([["x", "close"]])])
    out.append((f"number {at} of {n} is wrong", {f"m{i:03}": wrong if i == at else ok() for i in range(n)}))
    out.append((f"one of {n} is in use", {**{f"m{i:03}": ok() for i in range(n)}, rng.choice(["zombie", "old"]): ok()}))
    return out


def refused(ck, rng, slack, use_agent):
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True) if use_agent else Manager(ck)
    try:
        with m:
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            gone = m.dir / "gone"
            mark = m.dir / "forbidden"
            os.chmod(m.dir, 0o777)

            def valid():
                return sp(m, f"mark={mark}:ran", fds=[["stdout", cap(rng.choice(["memory", "tempfile"]))]])

            def check_dark(names):
                if mark.exists():
                    raise Broken("refused-but-ran", f"a process of a refused request ran ({names})")
            m.start({"old": sp(m, "w=1:1000:7:0", "pause", fds=[["stdout", cap("memory")]]),
                     "zombie": sp(m, "w=1:500:8:0", "exit=3", fds=[["stdout", cap("tempfile")]]),
                     "broken": {"argv": ["/no/such/program"]}})
            m.wait_done("zombie", 20 * slack)
            m.wait_done("broken", 20 * slack)
            wait_for(lambda: len(m.data("old", "stdout").body) == 1000, 20 * slack, "canary output")

            def state():
                # The processes' own state; times.now and such move.
                r = m.list()
                return {k: (v["state"], v["pid"], v["errors"], v["status"], v["rusage"], v["times"]["start"], v["times"]["stop"], v["fds"]) for k, v in r.items()}
            before, fds0 = state(), wait_for(lambda: m.fds(), 10)
            forks0 = m.ctl.get("fork")["calls"]
            kids0 = set(m.children())
            cases = bad_specs(m, rng, valid)
            rng.shuffle(cases)
            for name, specs in cases:
                if c and rng.random() < 0.6:
                    since = c.mark()
                    c.send("ProcStartRequest", specs=specs)
                    c.barrier(20 * slack)
                    via = "agent"
                    bad = [x for x in c.msgs()[since:] if x["type"] in ("ProcResult",) and x["proc_id"] not in ("old", "zombie", "broken")]
                    if bad:
                        raise Broken("refused-but-started", f"{name}: agent reports {bad[0]['proc_id']}")
                else:
                    r = m.post(specs)
                    via = "HTTP"
                    if r.status == 200 or not 400 <= r.status < 500:
                        raise Broken("not-refused", f"{name}: status {r.status} {r.body[:200]!r}")
                now = state()
                if now != before:
                    raise Broken("record-changed", f"refused request ({name}, {via}): records now {[(k, v[0]) for k, v in now.items()]}; "
                                 + str([(k, now.get(k), before.get(k)) for k in set(now) | set(before) if now.get(k) != before.get(k)])[:500])
                check_dark(name)
                ck.case(f"refused {name} {via}")
            if set(m.children()) != kids0 or m.ctl.get("fork")["calls"] != forks0:
                raise Broken("refused-but-forked", f"children {set(m.children()) - kids0}, forks {m.ctl.get('fork')['calls'] - forks0}")

            def same():
                now = m.fds()
                return {f for f in now if now[f] != fds0.get(f)} <= {f for f, t in now.items() if t.startswith("socket:")}
            try:
                wait_for(same, 5 * slack, "descriptors back")
            except Hang:
                now = m.fds()
                raise Broken("leak", f"after refused requests: { {f: t for f, t in now.items() if fds0.get(f) != t} }")
            # The names of refused requests are free.
            ok = Run(m, rng, 0, "after")
            m.start({"n1": ok.spec})
            ok.verify(m, "n1", m.wait_done("n1", 20 * slack), "HTTP after refusals")
            check_dark("end")
            ck.seen("refused requests", len(cases))
            if "old" not in m.list() or m.get("old")["state"] != "running":
                raise Broken("record-changed", "existing process disturbed")
            # While shutting down.
            before = None
            m.p.send_signal(signal.SIGUSR1)
            time.sleep(0.05)
            def refused_now():
                r = m.post({"late": valid()})
                return r.status != 200
            # The signal is asynchronous; until it is handled a start may succeed.
            n = 0
            while not refused_now():
                n += 1
                m.wait_done("late", 20 * slack)
                m.delete("late")
                mark.unlink()
                if n > 200:
                    raise Hang("SIGUSR1 takes effect")
            for i in range(5):
                r = m.post({f"late{i}": valid(), "n9": valid()})
                if not 400 <= r.status < 500:
                    raise Broken("not-refused", f"start while shutting down: {r.status}")
                if c:
                    since = c.mark()
                    c.send("ProcStartRequest", specs={f"late{i}": valid()})
                    c.barrier(20 * slack)
                    if not [x for x in c.msgs()[since:] if x["type"] == "RequestError"]:
                        raise Broken("not-refused", "agent start while shutting down not answered with an error")
            time.sleep(0.05)
            check_dark("shutting down")
            if set(m.list()) != {"old", "zombie", "broken", "n1"}:
                raise Broken("record-changed", f"records while shutting down: {list(m.list())}")
            ck.case(f"refused while shutting down {use_agent}")
    finally:
        if srv:
            srv.close()


def reuse(ck, rng, slack):
    """IDs used again and again; starts of one ID race each other."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        pid_s = rng.choice(IDS)
        pids = set()
        for k in range(8):
            runs = [Run(m, random.Random(rng.random()), j, f"u{k}") for j in range(4)]
            out = [None] * 4

            def go(j):
                try:
                    out[j] = m.post({pid_s: runs[j].spec}).status
                except BaseException as e:
                    out[j] = e
            ts = [threading.Thread(target=go, args=(j,)) for j in range(4)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            for o in out:
                if isinstance(o, BaseException):
                    raise o
            if sorted(out) != [200, 400, 400, 400]:
                raise Broken("duplicate-start", f"four concurrent starts of {pid_s!r}: statuses {out}")
            win = out.index(200)
            r = m.wait_done(pid_s, 20 * slack)
            runs[win].verify(m, pid_s, r, "one of four concurrent starts")
            for j, x in enumerate(runs):
                if j != win and x.base.with_name(x.base.name + ".mark").exists():
                    raise Broken("refused-but-ran", f"a losing start of {pid_s!r} ran")
            # Finished but not deleted: still taken.
            x = Run(m, rng, 9, f"v{k}")
            if m.post({pid_s: x.spec}).status == 200:
                raise Broken("id-not-unique", f"{pid_s!r} started again before deletion")
            d = m.delete(pid_s)
            if d.status != 200:
                raise Broken("delete", f"{d.status} {d.body[:100]!r}")
            pids.add(r["pid"])
            ck.case(f"reuse {pid_s[:20]} {k} winner{win}")
        ck.seen("starts raced", 32)


def spec_input(ck, rng, slack, how):
    """The same from an input file, stdin, and with services running."""
    class D:
        pass
    m0 = D()
    m0.dir = ck.scratch / f"in{ck.next_uid()}"
    m0.dir.mkdir()
    os.chmod(m0.dir, 0o777)
    m0.probe = ck.probe
    runs = {f"{rng.choice(IDS)}{i}": Run(m0, rng, i, "in") for i in range(rng.choice([1, 5, 20]))}
    doc = json.dumps({"specs": {k: x.spec for k, x in runs.items()}}, ensure_ascii=rng.random() < 0.5).encode()
    if how == "serve":
        with Manager(ck, spec=doc) as m:
            res = m.wait_all(40 * slack)
            for k, x in runs.items():
                x.verify(m, k, res[k], "input file")
    else:
        rd = None
        args = ["--print"]
        kw = dict(spec=doc)
        if how == "stdin":
            f = m0.dir / "doc"
            f.write_bytes(doc)
            rd = open(f, "rb")
            args.append("-")
            kw = dict(stdin=rd)
        with Manager(ck, args, serve=False, **kw) as m:
            if m.wait_exit(40 * slack) != 0:
                raise Broken("exit-status", m.stderr()[-500:])
            res = json.loads(m.stdout())
            for k, x in runs.items():
                x.verify(m, k, res[k], how)
        if rd:
            rd.close()
    if set(res) != set(runs):
        raise Broken("records", f"{set(res) ^ set(runs)}")
    for k, x in runs.items():
        ck.case(f"{how} how{x.how} {[a[:20] for a in x.args]} {k[:20]}")
    ck.seen("processes that ran exactly once", len(runs))


def main(ck):
    global ALT
    ALT = ck.scratch / "other probe é"
    shutil.copy(ck.probe, ALT)
    os.chmod(ALT, 0o755)

    def make(i):
        r = ck.rng("make", i)
        c = i % 8
        if c in (0, 4):
            return (f"accepted#{i}", accepted, False, r.choice([1, 3, 6]))
        if c == 2:
            return (f"accepted-agent#{i}", accepted, True, 1)
        if c in (1, 5):
            return (f"refused#{i}", refused, c == 1)
        if c in (3, 6):
            return (f"reuse#{i}", reuse)
        return (f"input#{i}", spec_input, ["serve", "file", "stdin"][i // 8 % 3])
    ck.run_many(make, workers=6, at_least=16)


if __name__ == "__main__":
    run_check("P05", "each case is one process started (how its executable is given, arguments, ID) whose own record of argv, executable, session "
              "and number of runs is compared with the spec, one refused request (reason, interface) after which nothing may have run or "
              "changed, or one round of concurrent starts of an ID",
              main, quick_s=15, thorough_s=240)
