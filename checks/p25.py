"""P25: the Python spec builder, HTTP clients and protocol messages say what they mean."""
import asyncio, json, os, pathlib, shlex, stat
import msgpack
from core import *
from mgr import *
from agentsrv import agent
from pysrv import PyServer, RefAgent, pproc, pproto
import procstar.spec as pspec
import procstar.http.client as pclient
import procstar.lib.json as pjson
import httpx, requests
from p07 import Entry, check_table, table_of
from p10 import compare, expected, read_env, VALUES

NAMES = {0: "stdin", 1: "stdout", 2: "stderr"}
FD = pspec.Proc.Fd
ACC = {"Read": 0, "Write": 1, "Create": 1, "Replace": 1, "CreateAppend": 1, "Append": 1, "ReadWrite": 2}
DEFAULT = {0: "Read", 1: "Write", 2: "Write"}
ARGS = ["", " ", "a b", "é€𝄞", "\n", "'", '"', "$HOME", "--", "-c", "\\", "%s", "*", "\t", "true", "null", "\u202e", "{}", "[]", "\x7f", "x" * 3000]
ENV = {b"PATH": b"/usr/bin:/bin", b"HOME": b"/home/x", b"SHELL": b"/bin/sh", b"USER": b"me", b"LANG": b"C.UTF-8", b"X1": b"one", b"X2": b"two = 2", b"7": b"seven",
       b"UN": "é€".encode(), b"EMPTY": b"", b"True": b"t", b"None": b"n", b"x y": b"z"}
SHELLISH = ["PATH", "LANG", "X1", "X2", "UN", "EMPTY", "True", "None", "NEW1", "NEW2"]


def fd_key(rng, fd):
    """Any of the spellings the builder takes."""
    return rng.choice([fd, str(fd)] + ([NAMES[fd]] * 2 if fd in NAMES else rng.choice([[], [], [f"0{fd}", f" {fd}", f"{fd:04}"]])))


class Built:
    """One process made with the builder, along with what it means."""
    def __init__(self, m, rng, d, k, pool, pipes):
        self.k, self.base = k, str(d / k)
        t = self.table = {0: Entry("null", "stdin"), 1: Entry("file", str(m.out_path)), 2: Entry("file", str(m.err_path))}
        self.make, self.shell = rng.random() < 0.5, False
        nums = [f for f in rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 3, 5, 8]))) if f not in pipes] + list(pipes)
        rng.shuffle(nums)
        fds, desc, self.caps, self.modes = {}, [], {}, {}
        plan = [(f, None) for f in nums]
        if self.make:
            # Unless given, a null stdin and captured text output, after the others.
            plan += [(f, "std") for f in (0, 1, 2) if f not in nums]
        for fd, kind in plan:
            std = kind == "std"
            if fd in pipes:
                way, key = pipes[fd]
                o = FD.PipeWrite() if way == "w" else FD.PipeRead(key[0], fd_key(rng, key[1]))
                t[fd] = Entry("pipe-" + way, key, 1 if way == "w" else 0)
                desc.append(f"{fd}p{way}")
                fds[fd_key(rng, fd)] = o
                continue
            kind = ("null" if fd == 0 else "cap") if std else rng.choice(["inherit", "close", "null", "file", "file", "dup", "cap", "cap"])
            if kind == "dup" and not t:
                kind = "close"
            if kind == "inherit":
                o = FD.Inherit()
            elif kind == "close":
                o = FD.Close()
                t.pop(fd, None)
            elif kind == "null":
                fl = "Default" if std else rng.choice(["Default", "Read", "Write", "ReadWrite", None])
                o = FD.Null() if fl is None else FD.Null(fl) if rng.random() < 0.5 else FD.Null(flags=fl)
                t[fd] = Entry("null", fd, ACC[DEFAULT.get(fd, "ReadWrite") if fl in (None, "Default") else fl])
            elif kind == "file":
                fl = rng.choice([None, "Default", *ACC])
                eff = DEFAULT.get(fd, "ReadWrite") if fl in (None, "Default") else fl
                p = pathlib.Path(f"{self.base}.{rng.choice(['f', 'é', 'a b', '%41'])}{fd}")
                mode = rng.choice([None, 0o666, 0o600, 0o640, 0o777, 0o400, 0o1644, 0o2755, 0o4750])
                if eff in ("Read", "Replace", "Append") or (eff != "Create" and rng.random() < 0.4):
                    p.write_bytes(b"old")
                    os.chmod(p, 0o666)
                else:
                    self.modes[fd] = (p, (0o666 if mode is None else mode) & ~0o022)
                kw = {} if fl is None else {"flags": fl}
                if mode is not None:
                    kw["mode"] = mode
                o = FD.File(rng.choice([str, pathlib.Path])(p), **kw)
                t[fd] = Entry("file", str(p), ACC[eff])
                desc.append(f"{fl}/{mode}")
            elif kind == "dup":
                src = rng.choice(sorted(t))
                o = FD.Dup(src)
                t[fd] = t[src]
            else:
                mode, enc, att = ("memory", "utf-8", True) if std else (rng.choice(["memory", "tempfile"]), rng.choice([None, "utf-8"]), rng.choice([True, False, None]))
                o = FD.Capture(mode, enc) if att is None else FD.Capture(mode, enc, attached=att)
                t[fd] = Entry(mode, fd, 1 if mode == "memory" else None)
                self.caps[fd] = (t[fd], enc, att is not False)
                desc.append(f"{mode[0]}{enc}{att}")
            if not std:
                fds[fd_key(rng, fd)] = o
            desc.append(f"{fd}{kind[:3]}")
        # What it does.
        ops = [f"fds={self.base}.fds", f"env={self.base}.env", f"argv={self.base}.argv"]
        self.sent = {}
        for fd, e in sorted(t.items()):
            if e.kind in ("memory", "tempfile", "pipe-w"):
                n = self.sent.get(id(e), 0)
                ops.append(f"{'wx' if e.kind == 'pipe-w' else 'w'}={fd}:{50 + fd % 3}:{7 + len(self.sent)}:{0 if n else fd % 2 * 3}")
                self.sent[id(e)] = n + 50 + fd % 3
        self.nsent = {id(e): self.sent.get(id(e), 0) for e in t.values()}
        extra = [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 3, 8]))]
        argv = [m.probe, "ign=13", *ops, "exit=4", "--", *extra]
        # The same environment, by the choice made here.
        spec = {}
        kw = {"fds": fds} if fds or rng.random() < 0.5 else {}
        if self.make:
            self.shell = rng.random() < 0.4
            names = SHELLISH if self.shell else [n.decode() for n in ENV] + ["NEW1", "x.y", "\u00e9"]
            ev = {}
            for _ in range(rng.choice([0, 1, 2, 5])):
                n = rng.choice(names)
                ev[n] = rng.choice([True, None, "v", "", "a=b", 5, -1.5, pathlib.Path("/x y"), rng.choice(VALUES[:16])])
            if ev or rng.random() < 0.3:
                kw["env_vars"] = ev
            spec = {"inherit": ["HOME", "SHELL", "USER", *(n for n, v in ev.items() if v is True)],
                    "vars": {n: None if v is None else str(v) for n, v in ev.items() if v is not True}}
            if self.shell:
                # Words quoted one way or another, amid blanks; the last may end in an escaped blank.
                if rng.random() < 0.3:
                    argv.append(rng.choice(["end ", " ", "\t", "x\\ "]))
                words = [shlex.quote(w) if rng.random() < 0.6 or "\n" in w or not w or not w.isascii() else "".join("\\" + c for c in w) for w in argv[:-1]] + [
                    "".join("\\" + c if c != "\n" else "'\n'" for c in argv[-1]) if argv[-1].isascii() and argv[-1] else shlex.quote(argv[-1])]
                self.proc = pspec.make_proc(rng.choice(["", "", " ", "\n\n", ":;\t"]) + "exec " + rng.choice([" ", "  ", " \\\n "]).join(words), **kw)
            else:
                given = [rng.choice([str, pathlib.Path])(argv[0]), *argv[1:]] + ([77, -3] if rng.random() < 0.3 else [])
                argv = [str(a) for a in given]
                self.proc = pspec.make_proc(rng.choice([list, tuple, iter])(given), **kw)
        else:
            given = [rng.choice([str, pathlib.Path])(argv[0]), *argv[1:]] + ([77, pathlib.Path("/p q")] if rng.random() < 0.3 else [])
            argv = [str(a) for a in given]
            if rng.random() < 0.8:
                ek = {}
                if rng.random() < 0.8:
                    inh = rng.choice([True, False, [], ["X1"], ["X1", "UN", "x y", "GONE"], [7, "HOME"], [n.decode() for n in ENV], ["True", None]])
                    if isinstance(inh, list):
                        spec["inherit"] = [str(n) for n in inh]
                        inh = rng.choice([list, tuple, iter, lambda x: dict.fromkeys(x)])(inh)
                    else:
                        spec["inherit"] = inh
                    ek["inherit"] = inh
                if rng.random() < 0.7:
                    vs = {rng.choice(["X1", "NEW", "UN", "é", 7, "EMPTY", "x y", "HOME"]): rng.choice([None, "v", "", 12, 0, False, 2.5, pathlib.Path("/a/b"), rng.choice(VALUES)])
                          for _ in range(rng.choice([0, 1, 3, 6]))}
                    spec["vars"] = {}
                    for n, v in vs.items():
                        spec["vars"][str(n)] = None if v is None else str(v)
                    ek["vars"] = vs
                kw["env"] = pspec.Proc.Env(**ek)
            self.proc = pspec.Proc(rng.choice([list, tuple, iter])(given), **kw)
        self.argv, self.env = argv, expected(ENV, spec)
        self.desc = f"{'make ' if self.make else ''}{'shell ' if self.shell else ''}[{' '.join(desc)}] keys {sorted(type(x).__name__ + ':' + str(x) for x in fds)} env {spec!r:.150}"

    def verify(self, ck, m, res, how, ids):
        w = f"{self.desc} {how}"
        if res["state"] != "terminated" or res["status"]["exit_code"] not in (4, 77):
            raise Broken("did-not-run", f"{w}: {res['state']} {res['status']} {res['errors']} {str(res['fds'])[:300]}")
        # Arguments.
        got = pathlib.Path(self.base + ".argv").read_bytes().split(b"\0")
        if got.pop() != b"" or got != [a.encode() for a in self.argv]:
            raise Broken("arguments", f"{w}: arguments {got[3:]!r:.500}, expected {self.argv[3:]!r:.500}")
        # Environment.
        env, _ = read_env(pathlib.Path(self.base + ".env"))
        want = dict(self.env)
        if self.shell:
            # The shell's own.
            for n in (b"_", b"PWD", b"SHLVL", b"OLDPWD"):
                for e in [e for e in env if e.partition(b"=")[0] == n]:
                    del env[e]
                want.pop(n, None)
        compare(env, want, w)
        # Descriptors.
        check_table(m, self, table_of(pathlib.Path(self.base + ".fds")), ids, how + " by the builder")
        for fd, (p, mode) in self.modes.items():
            st = os.stat(p)
            if stat.S_IMODE(st.st_mode) != mode:
                raise Broken("file-mode", f"{w}: fd {fd} created {oct(stat.S_IMODE(st.st_mode))}, expected {oct(mode)}")
        for fd, (e, enc, att) in self.caps.items():
            n = self.nsent.get(id(e), 0)
            fr = res["fds"][NAMES.get(fd, str(fd))]
            kind = ("text" if enc else "data") if att else "detached"
            if fr["type"] != kind or (att and res["status"]["exit_code"] == 4 and enc is None and len(fd_bytes(fr)) != n):
                raise Broken("capture", f"{w}: fd {fd}: {str(fr)[:200]}, expected {kind} of {n} bytes")
        ck.case(self.desc, {"spec": self.desc[:400], "how": how})
        ck.seen("built processes", 1)
        ck.seen("descriptors", len(self.table))


def build(ck, rng, slack, how):
    """Builder compositions against a real manager, over each way in."""
    srv = PyServer() if how == "agent" else None
    try:
        for rnd in range(3 if ck.quick else 8):
            n = rng.choice([1, 1, 2, 4]) if how != "agent" else rng.choice([1, 3])
            pool = rng.choice([list(range(0, 10)), [0, 1, 2, 3, 4, 17, 63, 100, 255], [0, 1, 2, 3, 5, 255, 256, 257, 258, 300, 512, 700]])
            kw = dict(env={k.decode(): v.decode() for k, v in ENV.items()}, preload=False)
            keys = [f"p{i}" for i in range(n)]
            pipes = {k: {} for k in keys}
            if how != "agent" and n > 1:
                for _ in range(rng.choice([1, 2, 3])):
                    a, b = rng.sample(keys, 2)
                    wf, rf = rng.choice(pool), rng.choice(pool)
                    if wf not in pipes[a] and rf not in pipes[b]:
                        pipes[a][wf] = ("w", (a, wf))
                        pipes[b][rf] = ("r", (a, wf))

            def make(m):
                d = _dir(m, rnd)
                return [Built(m, rng, d, k, pool, pipes[k]) for k in keys]
            ids = {}
            if how == "file":
                # The paths are known only once there is a manager: its input is a FIFO.
                fifo = ck.scratch / f"in{ck.next_uid()}.json"
                os.mkfifo(fifo)
                os.chmod(fifo, 0o644)
                with Manager(ck, [fifo], wait_ready=False, **kw) as m:
                    bs = make(m)
                    text = json.dumps(pspec.to_jso(**{b.k: b.proc for b in bs})).encode()

                    def feed():
                        try:
                            fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
                        except OSError:
                            m.check_alive()
                            return None
                        os.set_blocking(fd, True)
                        with open(fd, "wb") as f:
                            f.write(text)
                        return True
                    wait_for(feed, 15 * slack, "the manager opens its input")
                    m.wait_ready(15 * slack)
                    wait_for(lambda: set(m.list()) == set(keys), 15 * slack, "the manager starts its input")
                    for b in bs:
                        b.verify(ck, m, m.wait_done(b.k, 20 * slack), how, ids)
                    for x, s in ids.items():
                        if len(s) != 1:
                            raise Broken("wrong-pipe", f"{x} is several things: {s}; {[b.desc for b in bs]}")
            elif how == "http":
                with Manager(ck, **kw) as m:
                    bs = make(m)
                    jso = pspec.to_jso(**{b.k: b.proc for b in bs})
                    r = m.http("POST", "/procs", jso)
                    if r.status != 200:
                        raise Broken("refused", f"{[b.desc for b in bs]}: {r.status} {r.body[:300]!r}")
                    for b in bs:
                        b.verify(ck, m, m.wait_done(b.k, 20 * slack), how, ids)
                    for x, s in ids.items():
                        if len(s) != 1:
                            raise Broken("wrong-pipe", f"{x} is several things: {s}; {[b.desc for b in bs]}")
            elif how == "client":
                with Manager(ck, **kw) as m:
                    bs = make(m) if not any(pipes.values()) else [Built(m, rng, _dir(m, rnd), keys[0], pool, {})]

                    async def go():
                        async with httpx.AsyncClient(timeout=20) as h:
                            c = pclient.AsyncClient(("127.0.0.1", m.port), h)
                            for b in bs:
                                try:
                                    got = await c.start_proc(b.proc, proc_id=b.k)
                                except httpx.HTTPStatusError as e:
                                    raise Broken("refused", f"{b.desc}: {e.response.status_code} {e.response.content[:300]!r}")
                                if got != b.k:
                                    raise Broken("wrong-id", f"started {b.k!r}, got {got!r}")
                    asyncio.run(go())
                    for b in bs:
                        b.verify(ck, m, m.wait_done(b.k, 20 * slack), how, ids)
                    for x, s in ids.items():
                        if len(s) != 1:
                            raise Broken("wrong-pipe", f"{x} is several things: {s}; {[b.desc for b in bs]}")
            elif how == "agent":
                with agent(ck, srv, conn_id=f"a{rnd}", token="tok", serve=True, group=f"g{rnd}", **kw) as m:
                    bs = make(m)

                    async def start():
                        return [await srv.server.request_start(b.k, b.proc, group_id=f"g{rnd}", conn_timeout=15 * slack) for b in bs]
                    procs = srv.co(start(), 20 * slack)

                    async def results(p):
                        while True:
                            try:
                                u = await asyncio.wait_for(anext(p.updates), 20 * slack)
                            except asyncio.TimeoutError:
                                raise Hang(f"{p.proc_id}: no final result")
                            except pproc.AgentMessageError as e:
                                raise Broken("refused", f"{[b.desc for b in bs]}: {e.err}")
                            if isinstance(u, pproc.Result) and u.state != "running":
                                return u
                    for b, p in zip(bs, procs):
                        u = srv.co(results(p), 25 * slack)
                        res = vars(u)
                        b.verify(ck, m, res, how, ids)
                        srv.co(p.delete(), 15 * slack)
    finally:
        if srv:
            srv.close()


def _dir(m, rnd):
    d = m.dir / f"b{rnd}"
    d.mkdir()
    os.chmod(m.dir, 0o777)
    os.chmod(d, 0o777)
    return d


# -- HTTP clients ---------------------------------------------------------

IDS = ["a/b", "a%2Fb", "a%252Fb", "a", "b", "a?b", "a#b", ".", "..", "...", "a/..", "a/../b", "./a", "a+b", "a b", "a%20b", "é", "%C3%A9", "e\u0301", "\n", "\r\n", "a;b", "a&b", "a=b", "~", "%",
       "%%", "%2", "%2e", "%2E%2E", "signals", "a/signals/15", "x/output/1/data", "procs", "/", "//", "/a", "a/", "\\", '"', "'", "{}", "[x]", "@", ":", "a:80", "\x7f", "\x01", "\t", "𝄞", "A", "*",
       "\u200d", "\ufeff", "0", "x" * 300, "é" * 100, "null", "a,b", "(a)", "$", "!", "|", "^", "`", "<a>", " ", " a", "a "]


def client(ck, rng, slack):
    """Operations of the HTTP clients on near-miss IDs; the whole registry compared after each."""
    with Manager(ck, preload=False) as m:
        pool = rng.sample(IDS, rng.choice([8, 16, 30])) + [f"{x}{y}" for x, y in zip(rng.sample(IDS, 4), rng.sample(IDS, 4))]
        pool = sorted(set(pool))
        have = {}       # id -> dict(pid, state, outs)
        path = m.dir / "go"

        def snapshot():
            return {k: (r["pid"], r["state"], r["status"] and (r["status"]["exit_code"], r["status"]["signum"])) for k, r in m.list().items()}

        def spec(k):
            outs, fds, ops = {}, {}, []
            for fd in rng.sample([1, 2, 3, 10], rng.choice([0, 1, 2])):
                enc, n, mask = rng.choice([None, "utf-8"]), rng.choice([0, 1, 33, 5000, 100_000]), rng.choice([0, 0, 3, 131])
                fds[fd] = FD.Capture(rng.choice(["memory", "tempfile"]), enc, rng.choice([True, False]))
                seed = rng.randrange(1, 90000)
                data = pattern(n, seed, mask)
                ops.append(f"w={fd}:{n}:{seed}:{mask}")
                if enc and rng.random() < 0.5:
                    tail = rng.choice(["é€𝄞".encode(), b"\xff\xfe", b"\xef\xbb\xbfx", b"\r\n\0", b"\xe2\x82"])
                    ops.append(f"wh={fd}:{tail.hex()}")
                    data += tail
                outs[fd] = (enc, data)
            ends = rng.random() < 0.5
            return pspec.Proc([m.probe, *ops, *(["exit=3"] if ends else ["dfl=10", "dfl=12", f"touch={path}{len(have)}", "pause"])], fds={FD.normalize(f): x for f, x in fds.items()}), outs, ends

        async def go():
            async with httpx.AsyncClient(timeout=20) as h:
                c = pclient.AsyncClient(("127.0.0.1", m.port), h)

                async def call(what, want, coro):
                    """The call's value; or None if it failed as it should."""
                    try:
                        v = await coro
                    except httpx.HTTPStatusError as e:
                        if e.response.status_code != want:
                            raise Broken("wrong-outcome", f"{what}: {e.response.status_code} {e.response.content[:200]!r}, expected {want}")
                        return None
                    except httpx.TimeoutException:
                        raise Hang(f"{what}: no response")
                    except (httpx.HTTPError, httpx.InvalidURL) as e:
                        raise Broken("client-failed", f"{what}: {type(e).__name__} {e}")
                    if want != 200:
                        raise Broken("wrong-outcome", f"{what}: succeeded with {v!r:.200}, expected {want}")
                    return v if v is not None else True

                steps = 60 if ck.quick else 200
                for step in range(steps):
                    op = rng.choice(["start", "start", "get", "list", "data", "signal", "delete"]) if len(have) > 4 else "start"
                    k = rng.choice(sorted(have)) if have and rng.random() < 0.6 else rng.choice(pool)
                    i = have.get(k)
                    before = snapshot()
                    what = f"{op} {k!r} among {sorted(have)!r:.400}"
                    if op == "start":
                        p, outs, ends = spec(k)
                        own = rng.random() < 0.15
                        v = await call(what, 400 if i and not own else 200, c.start_proc(p, **({} if own else {"proc_id": k})))
                        if v is not None:
                            if own:
                                if v in have or not isinstance(v, str) or len(v) < 8:
                                    raise Broken("wrong-id", f"start without ID: {v!r}")
                                k = v
                            elif v != k:
                                raise Broken("wrong-id", f"{what}: returned {v!r}")
                            await asyncio.to_thread(wait_for, lambda: m.get(k) is not None, 10 * slack, f"{k!r} exists")
                            if ends:
                                r = await asyncio.to_thread(m.wait_done, k, 20 * slack)
                                if r["state"] != "terminated" or r["status"]["exit_code"] != 3:
                                    raise Broken("did-not-run", f"{what}: {r['state']} {r['status']} {r['errors']}")
                            else:
                                t = pathlib.Path(f"{path}{len(have)}")
                                await asyncio.to_thread(wait_for, t.exists, 20 * slack, f"{k!r} gets going")
                                t.unlink()
                            have[k] = {"outs": outs, "pid": m.get(k)["pid"], "state": "terminated" if ends else "running"}
                            before = {**before, k: snapshot().get(k)}
                    elif op == "get":
                        v = await call(what, 200 if i else 404, c.get_proc(k))
                        if v is not None:
                            raw = m.get(k)
                            if v["pid"] != i["pid"] or (i["state"] != "running" and strip(v) != strip(raw)):
                                raise Broken("wrong-result", f"{what}: {v!r:.300} is not {raw!r:.300}")
                    elif op == "list":
                        v = await call(what, 200, c.get_procs())
                        s = await asyncio.to_thread(pclient.Client(("127.0.0.1", m.port)).get_procs) if rng.random() < 0.5 else v
                        raw = m.list()
                        for got in (v, s):
                            if {x: r["pid"] for x, r in got.items()} != {x: r["pid"] for x, r in raw.items()} or any(
                                    strip(r) != strip(raw[x]) for x, r in got.items() if have[x]["state"] != "running"):
                                raise Broken("wrong-result", f"{what}: {got!r:.300} is not {raw!r:.300}")
                    elif op == "data":
                        fd = rng.choice([1, 2, 3, 10, "1", "stdout", "stderr", "3", "99", "x/y", "..", "%31", ""])
                        withdata = sorted(x for x in have if have[x]["outs"] and have[x]["state"] != "running")
                        if withdata and rng.random() < 0.6:
                            k = rng.choice(withdata)
                            i = have[k]
                            fd = rng.choice(sorted(i["outs"]))
                            fd = rng.choice([fd, str(fd), NAMES.get(fd, fd)])
                        n = {"stdout": 1, "stderr": 2}.get(fd, int(fd) if str(fd).isdigit() else None)
                        o = i and i["outs"].get(n)
                        what = f"data {fd!r} of {what}"
                        raw = m.http("GET", f"/procs/{quote(k, safe='')}/output/{quote(str(fd), safe='')}/data") if k not in (".", "..") and fd not in ("..", "") else None
                        try:
                            v = await c.get_output_data(k, fd)
                        except httpx.HTTPStatusError as e:
                            if o is not None or (raw and raw.status != e.response.status_code):
                                raise Broken("wrong-outcome", f"{what}: {e.response.status_code} {e.response.content[:200]!r}; expected {o and (o[0], len(o[1]))}")
                        else:
                            if o is None:
                                raise Broken("wrong-outcome", f"{what}: {v!r:.200} though there is no such output")
                            enc, data = o
                            want = data.decode("utf-8", "replace") if enc else data
                            if type(v) is not type(want) or v != want:
                                raise Broken("wrong-data", f"{what}: {diff_at(v.encode() if isinstance(v, str) else v, want.encode() if isinstance(want, str) else want)}")
                            ck.seen("output reads compared")
                    elif op == "signal":
                        sig = rng.choice([10, 12, "SIGUSR1", "SIGUSR2", "10"])
                        num = {"SIGUSR1": 10, "SIGUSR2": 12, "10": 10}.get(sig, sig)
                        v = await call(f"signal {sig} {what}", 404 if not i else 400 if i["state"] != "running" else 200, c.send_signal(k, sig))
                        if v is not None:
                            r = await asyncio.to_thread(m.wait_done, k, 20 * slack)
                            if r["status"]["signum"] != num:
                                raise Broken("wrong-signal", f"{what}: ended with {r['status']}, sent {sig}")
                            i["state"] = "terminated"
                            before[k] = snapshot().get(k)
                    elif op == "delete":
                        v = await call(what, 404 if not i else 400 if i["state"] == "running" else 200, c.delete_proc(k))
                        if v is not None:
                            have.pop(k)
                            before.pop(k)
                    after = snapshot()
                    if after != before:
                        d = {x: (before.get(x), after.get(x)) for x in set(before) | set(after) if before.get(x) != after.get(x)}
                        raise Broken("something-else", f"{what}: also changed {d!r:.400}")
                    ck.case(f"{op} {k!r} {i and i['state']}", {"op": op, "id": k, "state": i and i["state"]})
                    ck.seen("client operations")
        asyncio.run(go())
        m.check_alive()


def strip(r):
    r = dict(r)
    r.pop("procstar", None)
    if r.get("times"):
        r["times"] = {k: v for k, v in r["times"].items() if k != "now"}
    return r


# -- the protocol between both sides --------------------------------------

def proto(ck, rng, slack):
    """What a real agent sends, as decoded and handed out by the Python server."""
    with PyServer() as srv:
        cid = rng.choice(["agent", "é€𝄞", "a b/c", "\n", '"', "x" * 2000])
        gid = rng.choice(["g", "é/ü", " ", "{}", "y" * 500])
        with agent(ck, srv, conn_id=cid, group=gid, token="tok", serve=True, env={"PATH": "/usr/bin:/bin", "HOME": "/"}, preload=False) as m:
            ids = [rng.choice(IDS) + f"{i}" for i in range(6)]
            wait_for(lambda: srv.do(lambda: cid in srv.server.connections), 15 * slack, "the agent registers")

            def info():
                c = srv.server.connections[cid]
                return c.info.conn.to_jso(), c.info.proc.to_jso()
            conn, proc = srv.do(info)
            want = {"conn_id": cid, "group_id": gid, "restricted_exe": None}
            if conn != want:
                raise Broken("registration", f"connection info {conn!r:.400}, expected {want!r:.400}")
            wp = {"pid": m.pid, "ppid": os.getpid(), "uid": m.uid, "euid": m.uid, "gid": m.uid, "egid": m.uid, "hostname": os.uname().nodename}
            if any(proc.get(x) != v for x, v in wp.items()):
                raise Broken("registration", f"process info {proc}, expected {wp}")

            async def nxt(p, pred, what):
                while True:
                    try:
                        u = await asyncio.wait_for(anext(p.updates), 20 * slack)
                    except asyncio.TimeoutError:
                        raise Hang(f"no {what} for {p.proc_id!r}")
                    except pproc.AgentMessageError as e:
                        u = e
                    if pred(u):
                        return u

            for k in ids:
                enc, n, mask, seed = rng.choice([None, "utf-8"]), rng.choice([0, 1, 500, 70_000, 400_000, 5_000_000]), rng.choice([0, 7, 131]), rng.randrange(1, 90000)
                data = pattern(n, seed, mask)
                p = srv.co(srv.server.request_start(k, pspec.Proc([m.probe, f"w=1:{n}:{seed}:{mask}", "exit=9"], fds={
                    "stdout": FD.Capture(rng.choice(["memory", "tempfile"]), enc, rng.random() < 0.5), "stdin": FD.Null()}), group_id=gid, conn_timeout=10))
                u = srv.co(nxt(p, lambda u: isinstance(u, pproc.Result) and u.state != "running", "final result"), 30 * slack)
                raw, got = m.get(k), strip(vars(u))
                if got != strip(raw):
                    d = {x: (got.get(x), raw.get(x)) for x in set(got) | set(raw) if got.get(x) != strip(raw).get(x)}
                    raise Broken("result-differs", f"result of {k!r} by agent and by HTTP: {d!r:.500}")
                if u.status.exit_code != 9 or u.pid != raw["pid"] or u.times.stop != raw["times"]["stop"] or u.fds.stdin is not None and u.fds.stdin.type is None:
                    raise Broken("attributes", f"attributes of the result of {k!r} differ from its items")
                # Output, all and part of it.
                a, b = sorted((rng.randrange(n + 2), rng.randrange(n + 2)))
                for iv in (None, (0, None), (0, 0), (a, b), (a, None)):
                    start, stop = iv or (0, None)
                    srv.co(p.request_fd_data("stdout", **({} if iv is None else {"interval": pproc.Interval(*iv)})))
                    u = srv.co(nxt(p, lambda u: not isinstance(u, pproc.Result), "output"), 30 * slack)
                    if isinstance(u, pproc.AgentMessageError):
                        if start <= n and (stop is None or stop <= n):
                            raise Broken("data-refused", f"output {iv} of {n} bytes: {u.err}")
                        ck.seen("ranges refused")
                        continue
                    w = data[start:stop]
                    if u.fd != "stdout" or u.encoding != enc or bytes(u.data) != w or u.interval.start != min(start, n) and w or u.interval.stop - u.interval.start != len(w):
                        raise Broken("data-differs", f"output {iv} of {n} bytes of {k!r}: fd {u.fd} {u.interval} {u.encoding} {diff_at(bytes(u.data), w)}")
                    ck.seen("data messages")
                # Requests that fail come back with the request itself.
                for send, orig in ((lambda: p.send_signal(10), {"type": "ProcSignalRequest", "proc_id": k, "signum": 10}),
                                   (lambda: p.request_fd_data("77", interval=pproc.Interval(3, None)), {"type": "ProcFdDataRequest", "proc_id": k, "fd": "77", "start": 3, "stop": None}),
                                   (lambda: p.request_fd_data("é", interval=pproc.Interval(0, 1 << 40)), {"type": "ProcFdDataRequest", "proc_id": k, "fd": "é", "start": 0, "stop": 1 << 40})):
                    async def doit():
                        await send()
                    srv.co(doit())
                    e = srv.co(nxt(p, lambda u: not isinstance(u, pproc.Result), "error"), 30 * slack)
                    if not isinstance(e, pproc.AgentMessageError) or e.msg != orig or not isinstance(e.err, str) or not e.err:
                        raise Broken("error-differs", f"{orig}: answered {getattr(e, 'msg', e)!r:.300} {getattr(e, 'err', '')!r:.200}")
                    ck.seen("error messages")
                ck.case(f"{k!r} {enc} {n} {mask}", {"id": k, "encoding": enc, "bytes": n})
            # A refused start.
            k = rng.choice(IDS) + "bad"
            p = srv.co(srv.server.request_start(k, {"argv": ["x"], "fds": [["stdout", "pipe-write"]]}, group_id=gid))
            e = srv.co(nxt(p, lambda u: True, "error"), 30 * slack)
            if not isinstance(e, pproc.AgentMessageError) or e.msg["type"] != "ProcStartRequest" or list(e.msg["specs"]) != [k] or e.msg["specs"][k]["argv"] != ["x"]:
                raise Broken("error-differs", f"bad start of {k!r}: {e!r:.300}")
            # Deletion, and what is then unknown.
            gone = [ids[0], ids[1]]
            for k in gone:
                srv.co(srv.server.processes[k].delete(), 20 * slack)
            left = srv.do(lambda: sorted(srv.server.processes))
            if left != sorted(ids[2:]) or sorted(m.list()) != left:
                raise Broken("ids-differ", f"deleted {gone!r}: the server has {left!r}, the agent {sorted(m.list())!r}")
            if srv.errors:
                raise Broken("server-errors", str(srv.errors[:3]))


# -- codec ----------------------------------------------------------------

def value(rng, depth=0):
    k = rng.randrange(9 if depth < 4 else 6)
    if k == 0:
        return rng.choice([None, True, False])
    if k == 1:
        return rng.choice([0, 1, -1, 127, 128, 255, 65535, 1 << 31, 1 << 32, (1 << 63) - 1, (1 << 64) - 1, -(1 << 63), -32, -33])
    if k == 2:
        return rng.choice([0.5, -1e300, 1e-300, 0.1])
    if k in (3, 4):
        return rng.choice(IDS + VALUES)
    if k == 5:
        return os.urandom(rng.choice([0, 1, 300])) if rng.random() < 0.1 else rng.randbytes(rng.choice([0, 1, 255, 256, 70000]) if rng.random() < .2 else 5)
    if k == 6:
        return [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 3, 16]))]
    return {rng.choice(IDS + VALUES): value(rng, depth + 1) for _ in range(rng.choice([0, 1, 3, 16]))}


def text(rng):
    return rng.choice(IDS + VALUES)


def incoming(rng):
    """(type name, wire dict, expected object)"""
    P = pproto
    t = rng.choice(["RequestError", "ProcDelete", "ProcResult", "ProcFdData", "ProcUnknown", "ProcidList", "Register", "ShutDown"])
    if t == "RequestError":
        d = {"msg": {"type": text(rng), text(rng): value(rng)}, "err": text(rng)}
        return t, d, P.RequestError(**d)
    if t == "ProcDelete":
        d = {"proc_id": text(rng)}
        return t, d, P.ProcDelete(**d)
    if t == "ProcUnknown":
        d = {"proc_id": text(rng)}
        return t, d, P.ProcUnknown(**d)
    if t == "ProcResult":
        d = {"proc_id": text(rng), "res": {text(rng): value(rng) for _ in range(rng.randrange(5))}}
        return t, d, P.ProcResult(**d)
    if t == "ProcFdData":
        d = {"proc_id": text(rng), "fd": text(rng), "start": rng.randrange(1 << 40), "stop": rng.randrange(1 << 40), "encoding": rng.choice([None, "utf-8"]), "data": rng.randbytes(rng.choice([0, 1, 70000] + [3_000_000] * (rng.random() < 0.05)))}
        return t, d, P.ProcFdData(**d)
    if t == "ProcidList":
        d = {"proc_ids": [text(rng) for _ in range(rng.choice([0, 1, 20, 70000]) if rng.random() < .1 else 3)]}
        return t, d, P.ProcidList(**d)
    if t == "ShutDown":
        s = rng.choice(["active", "idling", "done"])
        return t, {"shutdown_state": s}, P.ShutDown(P.ShutdownState[s])
    c = {"conn_id": text(rng), "group_id": text(rng), "restricted_exe": rng.choice([None, text(rng)])}
    p = {"pid": 5, "ppid": 4, "uid": 1 << 31, "euid": 0, "username": text(rng), "gid": 3, "egid": 9, "groupname": text(rng), "hostname": text(rng)}
    s = rng.choice(["active", "idling", "done"])
    d = {"conn": c, "proc": p, "proc_ids": [text(rng)], "access_token": text(rng), "shutdown_state": s}
    return t, d, P.Register(P.ConnectionInfo(**c), P.ProcessInfo(**p), d["proc_ids"], d["access_token"], P.ShutdownState[s])


def outgoing(rng):
    P = pproto
    t = rng.choice(["Registered", "ProcStartRequest", "ProcidListRequest", "ProcResultRequest", "ProcSignalRequest", "ProcFdDataRequest", "ProcDeleteRequest"])
    d = {"Registered": {}, "ProcidListRequest": {}, "ProcStartRequest": {"specs": {text(rng): value(rng)}}, "ProcResultRequest": {"proc_id": text(rng)},
         "ProcSignalRequest": {"proc_id": text(rng), "signum": rng.randrange(65)}, "ProcDeleteRequest": {"proc_id": text(rng)},
         "ProcFdDataRequest": {"proc_id": text(rng), "fd": text(rng), "start": rng.randrange(1 << 40), "stop": rng.choice([None, 7])}}[t]
    return t, d, getattr(P, t)(**d)


def codec(ck, rng, slack):
    """Messages through the Python codec; broken ones raise ProtocolError and nothing else."""
    for i in range(400 if ck.quick else 4000):
        if ck.left() < -20:
            break
        t, d, obj = outgoing(rng)
        got = msgpack.unpackb(pproto.serialize_message(obj), strict_map_key=False)
        if got != {"type": t, **d}:
            raise Broken("serialised", f"{obj!r:.300} serialised as {got!r:.300}")
        t, d, obj = incoming(rng)
        wire = msgpack.packb({"type": t, **d})
        name, got = pproto.deserialize_message(wire)
        if name != t or type(got) is not type(obj) or got != obj:
            raise Broken("deserialised", f"{d!r:.300} decoded as {got!r:.300}")
        repr(got), str(got) if not (t == "ProcResult") else None
        # Broken in some way.
        bad = bytearray(wire)
        how = rng.randrange(6)
        if how == 0:
            bad = bad[:rng.randrange(len(bad))]
        elif how == 1:
            for _ in range(rng.choice([1, 3])):
                bad[rng.randrange(len(bad))] = rng.randrange(256)
        elif how == 2:
            bad += rng.randbytes(rng.choice([1, 5]))
        elif how == 3:
            x = {"type": t, **d}
            k = rng.choice(sorted(x))
            r = rng.random()
            if r < 0.4:
                x.pop(k)
            elif r < 0.8:
                x[k] = value(rng)
            else:
                x[text(rng)] = value(rng)
            bad = msgpack.packb(x)
        elif how == 4:
            bad = msgpack.packb(value(rng))
        else:
            bad = rng.randbytes(rng.choice([0, 1, 5, 40])) + rng.choice([b"", b"\xc1", b"\x91" * 2000, b"\xd6\xff\0\0\0\1", b"\xc7\x0c\xff" + b"\xff" * 12, b"\xdf\xff\xff\xff\xff"])
        arg = bytes(bad) if rng.random() < 0.97 else bytes(bad).decode("latin-1")
        try:
            name, got = pproto.deserialize_message(arg)
            if not isinstance(arg, bytes) or type(got).__name__ != name or name not in pproto.INCOMING_MESSAGE_TYPES:
                raise Broken("accepted", f"{arg!r:.200} decoded as {name!r} {got!r:.200}")
            ck.seen("odd messages accepted")
        except pproto.ProtocolError:
            ck.seen("broken messages refused")
        except Broken:
            raise
        except BaseException as e:
            raise Broken("wrong-exception", f"{arg!r:.300}: {type(e).__name__}: {e}")
        ck.case(f"codec {t} {how} {len(wire)}")
        ck.seen("messages round-tripped", 2)
    # Objects made of JSON.
    for i in range(100):
        x = {text(rng): value(rng) for _ in range(rng.randrange(6))}
        x.update({"b": {"c": {"d": i}}, "l": [1, {"q": 2}]})
        for j, inner in ((pjson.Jso(x), 0), (pjson.Jso.wrap(x), 1), (pproc.Result(x), 0)):
            ok = j.b.c.d == i and set(dir(j)) == set(x) and not hasattr(j, "nope") and (not inner or j.l[1].q == 2)
            for k, v in x.items():
                g = getattr(j, k)
                if not isinstance(v, (dict, list)) and (type(g) is not type(v) or g != v):
                    ok = False
            if not ok:
                raise Broken("attributes", f"{x!r:.300} by attribute")
    ck.seen("attribute objects", 300)


def main(ck):
    hows = ["http", "client", "agent", "file"]
    plan = [("build", build, "http"), ("client", client), ("proto", proto), ("build", build, "agent"), ("codec", codec), ("build", build, "file"), ("build", build, "client"), ("client", client),
            ("build", build, "http")]

    def make(i):
        if i < len(plan):
            n, f, *a = plan[i]
        else:
            rng = ck.rng("plan", i)
            n, f, *a = rng.choice([("build", build, rng.choice(hows)), ("build", build, rng.choice(hows)), ("client", client), ("proto", proto), ("codec", codec)])
        return (f"{n}#{i}", f, *a)
    ck.run_many(make, workers=7, at_least=len(plan) + 6)


if __name__ == "__main__":
    run_check("P25", "a process built with the builder and run (its arguments, environment, descriptor table and captures compared with what was built), one operation of an HTTP client with the whole "
              "registry compared before and after, one message through the codec; distinct by composition, operation and ID, or message kind", main, quick_s=14, thorough_s=180)
