"""P19: batch runs end at the right moment with a complete report."""
import json, os, shutil, signal, socket, struct, subprocess, threading, time
from core import *
from mgr import *


class Box:
    """A scratch directory that processes of any user may write in."""
    def __init__(self, ck, rng):
        self.dir = ck.scratch / f"x{rng.randrange(1 << 40):x}"
        self.dir.mkdir()
        os.chmod(self.dir, 0o777)
        self.probe = str(ck.probe)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


class P:
    def __init__(self, b, rng, j, hold):
        self.id = rng.choice([f"p{j}", f"p {j}", f"ü{j}", f"a/b{j}", f"\"q{j}\"", f"{j}", f"\n{j}\\"])
        self.b, self.serial = b, rng.randrange(1, 5_000_000)
        self.kind = rng.choice(["exit", "exit", "exit", "signal", "no-exec", "no-fd", "orphan", "zero"])
        self.mode = rng.choice(["memory", "tempfile"])
        self.enc = rng.choice([None, "utf-8"])
        self.mask = 0 if self.enc else rng.choice([0, 7])
        self.len = rng.choice([0, 1, 100, 5000, 70000, 300000])
        self.errlen = rng.choice([0, 40])
        self.code = rng.randrange(1, 256)
        self.sig = rng.choice([1, 2, 3, 6, 9, 13, 15, 34])
        self.hold = hold and self.kind in ("exit", "signal", "orphan", "zero")
        self.nulls = rng.choice([0, 0, 1, 8])
        self.gate, self.ready, self.desc = b.dir / f"g{j}", b.dir / f"r{j}", b.dir / f"desc{j}"

    def spec(self):
        fds = [["stdin", {"null": {}}], ["stdout", cap(self.mode, self.enc)], ["stderr", cap("memory", "utf-8")], *([str(20 + j), {"null": {}}] for j in range(self.nulls))]
        if self.kind == "no-exec":
            return {"argv": [str(self.b.dir / "nothing"), "x"], "fds": fds}
        if self.kind == "no-fd":
            return sp(self.b, "exit=0", fds=[*fds, ["5", {"file": {"path": "/nonexistent/d/f", "flags": "Read"}}]])
        ops = [f"w=1:{self.len}:{self.serial}:{self.mask}", f"w=2:{self.errlen}:{self.serial}:0", f"touch={self.ready}"]
        if self.kind == "orphan":
            # Its descendant keeps the captured output open and is not waited for.
            ops += ["fork{", f"touch={self.desc}", "us=40000000", "}", f"waitfile={self.desc}"]
        if self.hold:
            ops.append(f"waitfile={self.gate}")
        ops.append({"signal": f"kill={self.sig}", "zero": "exit=0", "orphan": "exit=0"}.get(self.kind, f"exit={self.code}"))
        return sp(self.b, *ops, fds=fds)

    def release(self):
        self.gate.touch()
        os.chmod(self.gate, 0o666)

    def judge(self, r):
        w = f"{self.id!r} ({self.kind})"
        if self.kind in ("no-exec", "no-fd"):
            if r["state"] != "error" or not r["errors"]:
                raise Broken("wrong-report", f"{w}: {r['state']} {r['errors']}")
            return
        st = r["status"]
        if r["state"] != "terminated" or r["errors"]:
            raise Broken("not-final", f"{w}: reported {r['state']}, errors {r['errors']}")
        want = (None, self.sig) if self.kind == "signal" else (self.code if self.kind == "exit" else 0, None)
        if (st["exit_code"], st["signum"]) != want:
            raise Broken("wrong-report", f"{w}: {st}, expected {want}")
        for name, n, mask in (("stdout", self.len, self.mask), ("stderr", self.errlen, 0)):
            b = fd_bytes(r["fds"][name])
            if b != pattern(n, self.serial, mask):
                raise Broken("wrong-report", f"{w} {name}: {diff_at(b, pattern(n, self.serial, mask))}")


def make_procs(b, rng, n, hold):
    ps = {}
    for j in range(n):
        p = P(b, rng, j, hold and rng.random() < 0.6)
        while p.id in ps:
            p.id += "'"
        ps[p.id] = p
    return ps


def one_document(raw, what):
    try:
        return json.loads(raw)
    except ValueError as e:
        raise Broken("not-one-document", f"{what}: {e}: {raw[:100]!r} … {raw[-100:]!r}")


def judge_report(raw, ps, what, extra=()):
    res = one_document(raw, what)
    if not isinstance(res, dict) or set(res) - set(extra) != set(ps):
        raise Broken("incomplete-report", f"{what}: results of {sorted(res)!r}, expected {sorted(ps)!r}")
    for k, p in ps.items():
        p.judge(res[k])


def rogue(m, rng):
    """Clients that misbehave must not mar the report."""
    for _ in range(rng.choice([1, 3])):
        s = socket.create_connection(("127.0.0.1", m.port), 5)
        s.sendall(rng.choice([b"garbage\r\n\r\n", b"GET / HTTP/9.9\r\n\r\n", b"GET /procs HTTP/1.1\r\nHost: x\r\n", b"\x16\x03\x01\x02\x00",
                              b"POST /procs HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 90\r\n\r\n{",
                              b"GET /procs/nobody HTTP/1.1\r\nHost: x\r\n\r\n", b"PATCH /procs HTTP/1.1\r\nHost: x\r\n\r\n"]))
        if rng.random() < 0.5:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        else:
            s.shutdown(socket.SHUT_WR)
        time.sleep(0.01)
        s.close()


def batch(ck, rng, slack):
    modes = rng.choice([["--exit"], ["--print"], ["--print"], ["--output"], ["--output"], ["--print", "--output"], ["-x", "--print"], ["--exit", "--output"]])
    serve = rng.random() < 0.35
    source = rng.choice(["file", "file", "stdin", "stdin-slow"])
    n = rng.choice([0, 1, 1, 2, 3, 6, 6, 12]) if rng.random() < 0.9 else 50
    with Box(ck, rng) as b:
        ps = make_procs(b, rng, n, rng.random() < 0.7)
        if n == 50:
            for p in ps.values():
                p.len = min(p.len, 5000)
        doc = json.dumps({"specs": {k: p.spec() for k, p in ps.items()}}, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1])).encode()
        out = b.dir / rng.choice(["out.json", "o ü.json"])
        kind_out = rng.choice(["new", "new", "longer", "fifo"]) if "--output" in modes else None
        if kind_out == "longer":
            out.write_bytes(b"[1, 2, 3]\n" * 300000)
            os.chmod(out, 0o666)
        got_fifo = []
        if kind_out == "fifo":
            os.mkfifo(out)
            os.chmod(out, 0o666)

            def read_fifo():
                with open(out, "rb") as f:
                    while True:
                        d = f.read(4000)
                        if not d:
                            return
                        got_fifo.append(d)
                        if len(got_fifo) < 40:
                            time.sleep(0.001)
            ft = threading.Thread(target=read_fifo, daemon=True)
            ft.start()
        args = []
        for x in modes:
            args += [x, out] if x == "--output" else [x]
        kw = {}
        if source == "file":
            kw["spec"] = doc
            tail = []
        else:
            r, wr = os.pipe()
            kw["stdin"] = r
            if rng.random() < 0.4:
                # That's not what - means.
                cwd = b.dir / "cwd"
                cwd.mkdir()
                (cwd / "-").write_text(rng.choice(['{"specs": {"not this": {"argv": ["/bin/true"]}}}', ""]))
                os.chmod(cwd, 0o777)
                kw["cwd"] = str(cwd)
            tail = ["-"]

            def feed():
                try:
                    if source == "stdin":
                        os.write(wr, doc) if len(doc) < 60000 else [os.write(wr, doc[i : i + 4096]) for i in range(0, len(doc), 4096)]
                    else:
                        for i in range(0, len(doc), 997):
                            os.write(wr, doc[i : i + 997])
                            time.sleep(0.002)
                except OSError:
                    pass
                finally:
                    os.close(wr)
            threading.Thread(target=feed, daemon=True).start()
        held = [p for p in ps.values() if p.hold]
        if tail and serve:
            serve = False
        try:
            m = Manager(ck, [*args, *tail], serve=serve, wait_ready=False, seed=rng.randrange(1 << 30), **kw)
        finally:
            if source != "file":
                os.close(r)
        with m:
            what = f"{modes} {n} processes from {source}"
            extra = []
            for p in held:
                wait_for(p.ready.exists, 20 * slack, lambda: f"{p.id} starts; {m.stderr()[-300:]}")
            if held and serve and rng.random() < 0.6:
                # One more, from outside: it must be waited for too.
                m.wait_ready(10 * slack)
                extra = ["over http"]
                rogue(m, rng)
                g = b.dir / "extra-gate"
                m.start({"over http": sp(b, f"waitfile={g}", "exit=0")})
            else:
                g = None
            rng.shuffle(held)
            while held or g:
                if rng.random() < 0.5:
                    time.sleep(rng.choice([0.01, 0.1]))
                if not m.alive():
                    raise Broken("early-exit", f"{what}: exited {m.p.returncode} while {len(held)} processes{' and one over HTTP' if g else ''} ran: {m.stderr()[-300:]}")
                if m.stdout() and "--print" in modes or got_fifo or kind_out == "new" and out.exists() and out.stat().st_size:
                    raise Broken("early-report", f"{what}: reported while {len(held)} processes ran")
                if g and (not held or rng.random() < 0.3):
                    g.touch()
                    os.chmod(g, 0o666)
                    g = None
                else:
                    held.pop().release()
            t = time.monotonic()
            last = m.t_start if not any(p.hold for p in ps.values()) else t
            big = sum(p.len for p in ps.values() if p.kind not in ("no-exec", "no-fd")) / 1e6
            limit = (1.5 + 1.5 * big) * slack + (3 * slack if last == m.t_start else 0)
            try:
                m.p.wait(limit)
            except subprocess.TimeoutExpired:
                raise Hang(f"{what}: still running {limit:.1f} s after the last process could end; children {m.children()}; {m.stderr()[-300:]}")
            d = time.monotonic() - t
            if m.p.returncode != 0:
                raise Broken("exit-status", f"{what}: exited {m.p.returncode}: {m.stderr()[-400:]}")
            if "--print" in modes:
                judge_report(m.stdout(), ps, what + ": standard output", extra)
                ck.seen("documents on standard output")
            elif m.stdout():
                raise Broken("stdout-noise", f"{what}: standard output has {m.stdout()[:200]!r}")
            if "--output" in modes:
                if kind_out == "fifo":
                    ft.join(10 * slack)
                judge_report(b"".join(got_fifo) if kind_out == "fifo" else out.read_bytes(), ps, what + f": output file ({kind_out})", extra)
                ck.seen("documents in files")
            left = {p: v for p, v in m.descendants().items() if v[0] == m.pid}
            if left:
                raise Broken("left-running", f"{what}: {left}")
            runs = sum(e[2] == "fork" for e in m.events())
            if runs != len(ps) + len(extra):
                raise Broken("fork-count", f"{what}: {runs} processes started")
            ck.seen("results judged", len(ps))
            ck.case((tuple(modes), source, kind_out, serve, tuple(sorted((p.kind, p.hold) for p in ps.values()))),
                    {"modes": modes, "input": source, "output": kind_out, "processes": [p.kind for p in ps.values()], "exit after last end s": round(d, 3)})


def waiting(ck, rng, slack):
    """--wait: until the last record is deleted."""
    with Box(ck, rng) as b:
        ps = make_procs(b, rng, rng.choice([0, 1, 2, 5]), True)
        with Manager(ck, ["--wait"], serve=bool(ps), spec={"specs": {k: p.spec() for k, p in ps.items()}}) as m:
            if ps:
                for p in ps.values():
                    p.release()
                m.wait_all(20 * slack)
                time.sleep(rng.choice([0, 0.2]))
                order = list(ps)
                rng.shuffle(order)
                extra = rng.random() < 0.4
                if extra:
                    m.start({"more": {"argv": ["/bin/true"]}})
                    m.wait_done("more")
                    order.insert(rng.randrange(len(order) + 1), "more")
                for j, k in enumerate(order):
                    if not m.alive():
                        raise Broken("early-exit", f"--wait: exited {m.p.returncode} with {len(order) - j} records left")
                    r = m.get(k)
                    if r is None:
                        raise Broken("record-lost", k)
                    if k in ps:
                        ps[k].judge(r)
                    if m.delete(k).status != 200:
                        raise Broken("delete-refused", k)
                    if j + 1 < len(order) and rng.random() < 0.3:
                        time.sleep(0.15)
            try:
                m.p.wait(1.5 * slack + (1.5 if not ps else 0))
            except subprocess.TimeoutExpired:
                raise Hang(f"--wait: still running after the last of {len(ps)} records was deleted")
            if m.p.returncode != 0 or m.stdout():
                raise Broken("exit-status", f"--wait: exited {m.p.returncode}, standard output {m.stdout()[:100]!r}")
            ck.case(("wait", tuple(sorted(p.kind for p in ps.values()))), {"mode": "--wait", "processes": [p.kind for p in ps.values()]})


def invalid(ck, rng, slack):
    """Invalid input: a message, a status, and nothing started."""
    with Box(ck, rng) as b:
        evil = b.dir / "evil"
        good = sp(b, f"touch={evil}", "exit=0")
        ok = {"specs": {"good": good}}
        raw = json.dumps(ok).encode()

        def bad(x):
            return json.dumps({"specs": {"good": good, "zz": x, "aa": good}}).encode()
        p = good["argv"]
        docs = {
            "empty": b"", "cut": raw[: rng.randrange(1, len(raw))], "list": b"[]", "null": b"null", "number": b"12", "trailing": raw + b" {}", "trailing-junk": raw + b"]",
            "no-specs": b"{\"spec\": {}}", "specs-list": b"{\"specs\": []}", "specs-null": b"{\"specs\": null}", "not-utf8": raw.replace(b"good", b"\xff\xfe"), "binary": bytes(range(256)),
            "argv-missing": bad({"env": {}}), "argv-string": bad({"argv": "true"}), "argv-numbers": bad({"argv": [1, 2]}), "argv-empty": bad({"argv": []}), "spec-null": bad(None), "spec-list": bad([p]),
            "fd-name": bad({"argv": p, "fds": [["stdlog", {"null": {}}]]}), "fd-twice": bad({"argv": p, "fds": [["1", {"null": {}}], ["stdout", {"null": {}}]]}),
            "fd-kind": bad({"argv": p, "fds": [["1", {"nope": {}}]]}), "fd-shape": bad({"argv": p, "fds": {"1": 3}}), "mode": bad({"argv": p, "fds": [["1", {"capture": {"mode": "disk"}}]]}),
            "flags": bad({"argv": p, "fds": [["1", {"file": {"path": "/tmp/x", "flags": "Sideways"}}]]}), "env-list": bad({"argv": p, "env": ["A=1"]}), "inherit": bad({"argv": p, "env": {"inherit": 3}}),
            "control-char": raw.replace(b"good", b"go\nod"), "half-surrogate": raw.replace(b"good", b"\\ud800"),
        }
        for name in rng.sample(sorted(docs) + ["missing-file", "directory", "unreadable"], 5):
            evil.unlink(missing_ok=True)
            mode = rng.choice([["--exit"], ["--print"], ["--wait"], ["--output", b.dir / "o"]])
            kw, tail = {}, []
            if name == "missing-file":
                tail = [b.dir / "no such"]
            elif name == "directory":
                tail = [b.dir]
            elif name == "unreadable":
                f = b.dir / "secret"
                f.write_bytes(raw)
                os.chmod(f, 0)
                tail = [f]
            elif rng.random() < 0.5:
                kw["spec"] = docs[name]
            else:
                r, wr = os.pipe()
                os.write(wr, docs[name])
                os.close(wr)
                kw["stdin"], tail = r, ["-"]
            with Manager(ck, [*mode, *tail], serve=False, **kw) as m:
                if "stdin" in kw:
                    os.close(kw["stdin"])
                try:
                    rc = m.p.wait(3 * slack)
                except subprocess.TimeoutExpired:
                    raise Hang(f"invalid input ({name}): manager does not exit")
                err = m.stderr()
                if rc <= 0:
                    raise Broken("invalid-accepted", f"invalid input ({name}, {mode}): exit status {rc}; {err[-200:]}")
                if not err.strip():
                    raise Broken("no-message", f"invalid input ({name}): exit status {rc}, no message")
                if "panicked" in err:
                    raise Broken("panic", f"invalid input ({name}): {err[-300:]}")
                if m.stdout():
                    raise Broken("stdout-noise", f"invalid input ({name}): {m.stdout()[:100]!r}")
                if evil.exists() or any(e[2] == "fork" for e in m.events()):
                    raise Broken("invalid-started", f"invalid input ({name}): a process was started")
            ck.seen("invalid inputs refused")
            ck.case(("invalid", name, mode[0], bool(tail)), {"invalid input": name, "mode": mode[0], "exit status": rc})


def unwritable(ck, rng, slack):
    """A report that cannot be written is an error, never a silent success."""
    with Box(ck, rng) as b:
        ps = make_procs(b, rng, 2, False)
        (b.dir / "dir").mkdir()
        (b.dir / "ro").touch()
        os.chmod(b.dir / "ro", 0o444)
        where = rng.choice(["/dev/full", "/nonexistent/d/out", str(b.dir / "dir"), str(b.dir / "ro")])
        with Manager(ck, ["--output", where], serve=False, spec={"specs": {k: p.spec() for k, p in ps.items()}}) as m:
            try:
                rc = m.p.wait(6 * slack)
            except subprocess.TimeoutExpired:
                raise Hang(f"--output {where}: manager does not exit")
            if rc <= 0 or not m.stderr().strip():
                raise Broken("silent-failure", f"--output {where}: exit status {rc}, stderr {m.stderr()[-200:]!r}")
            ck.case(("unwritable", where.split("/")[-1]), {"unwritable output": where, "exit status": rc})


def burst(ck, rng, slack):
    """Everything ends at the same moment."""
    with Box(ck, rng) as b:
        n = rng.choice([30, 80, 150])
        gate = b.dir / "gate"
        with Manager(ck, ["--print"], serve=False, wait_ready=False, spec={"specs": {f"b{j}": sp(b, f"waitfile={gate}", f"w=1:40:{j}:0", f"exit={j % 200}", fds=[["stdout", cap("memory")]]) for j in range(n)}}) as m:
            if rng.random() < 0.5:
                m.ctl.delay("wait4", 500, 100)
            wait_for(lambda: sum(e[2] == "fork" for e in m.events()) == n, 20 * slack, "all start")
            gate.touch()
            os.chmod(gate, 0o666)
            try:
                rc = m.p.wait(6 * slack)
            except subprocess.TimeoutExpired:
                raise Hang(f"{n} processes end at once: manager does not exit; children {list(m.children().items())[:5]}")
            res = one_document(m.stdout(), "burst")
            if rc or set(res) != {f"b{j}" for j in range(n)}:
                raise Broken("incomplete-report", f"burst of {n}: exit {rc}, {len(res)} results")
            for j in range(n):
                r = res[f"b{j}"]
                if r["state"] != "terminated" or r["status"]["exit_code"] != j % 200 or fd_bytes(r["fds"]["stdout"]) != pattern(40, j):
                    raise Broken("wrong-report", f"burst of {n}, b{j}: {r['state']} {r['status']} {r['fds']}")
            ck.seen("results judged", n)
            ck.case(("burst", n), {"ending at once": n})


def main(ck):
    def make(i):
        c = i % 10
        return ((f"waiting#{i}", waiting) if c in (3, 7) else (f"invalid#{i}", invalid) if c in (1, 6) else (f"unwritable#{i}", unwritable) if c == 9 else
                (f"burst#{i}", burst) if c == 4 else (f"batch#{i}", batch))
    ck.run_many(make, workers=8, at_least=20)


if __name__ == "__main__":
    run_check("P19", "one batch run: input, mode, processes (held until released) and where the report goes; moment of exit, exit status, standard output and report judged, or an invalid input refused; "
              "distinct by mode, input, output and kinds of processes", main, quick_s=16, thorough_s=240)
