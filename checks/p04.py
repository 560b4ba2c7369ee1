"""P04: range reads of captured output return exactly the requested bytes."""
import time
from core import *
from mgr import *
from agentsrv import *

TOP = 2**63 - 1        # positions are signed 64-bit on the wire


def is_data(pid, fd):
    return lambda m: (m["type"] == "ProcFdData" and m["proc_id"] == pid) or m["type"] in ("RequestError", "ProcUnknown")


def read(c, pid, fd, start, stop, timeout=30):
    since = c.mark()
    c.send("ProcFdDataRequest", proc_id=pid, fd=fd, start=start, stop=stop)
    return c.wait(is_data(pid, fd), timeout, since, f"reply to data request {pid} {fd} [{start}, {stop})")[1]


def check_reply(r, full, start, stop, enc, what, growing=None):
    """growing: (lo, hi) bounds of the length if the output still grows."""
    if r["type"] == "RequestError":
        # A client error is an allowed answer only to a range that isn't one.
        if stop is not None and stop < start or start > len(full) or start < 0:
            return "error"
        raise Broken("refused", f"{what}: RequestError {r.get('err')}")
    if r["type"] != "ProcFdData":
        raise Broken("wrong-reply", f"{what}: {r['type']}")
    n = len(full)
    lo = min(max(start, 0), n)
    hi = n if stop is None else max(lo, min(stop, n))
    want = full[lo:hi]
    data = bytes(r["data"])
    if growing is None:
        if data != want:
            raise Broken("range-bytes", f"{what}: {diff_at(data, want)}")
    else:
        if data != want[: len(data)]:
            raise Broken("range-bytes", f"{what}: {diff_at(data, want[:len(data)])}")
        g0, g1 = growing
        need = max(0, min(hi, g0) - lo)
        most = max(0, min(hi, g1) - lo)
        if not need <= len(data) <= most:
            raise Broken("range-length", f"{what}: {len(data)} bytes, expected {need} to {most}")
    if r["stop"] - r["start"] != len(data):
        raise Broken("bounds", f"{what}: bounds [{r['start']}, {r['stop']}) for {len(data)} bytes")
    if data and r["start"] != lo:
        raise Broken("bounds", f"{what}: start {r['start']}, the data begin at {lo}")
    if r["encoding"] != enc:
        raise Broken("encoding", f"{what}: encoding {r['encoding']}, expected {enc}")
    return "data"


def ranges(rng, n):
    edge = [0, 1, 2, n - 1, n, n + 1, n // 2, 65535, 65536, 65537, 4096, TOP, TOP - 1, 2**62, 2**32, 2**31, n + 10**6]
    edge = [x for x in edge if x >= 0]
    k = rng.randrange(10)
    a = rng.choice(edge) if k < 6 else rng.randrange(n + 2)
    b = None if k in (0, 7) else rng.choice(edge) if k < 5 else a + rng.randrange(n + 2) if k < 9 else a
    if b is not None:
        b = min(b, TOP)
    return a, b


ENC = {"utf-8": "utf-8", None: None}


def finished(ck, rng, slack, sizes):
    """All kinds of ranges on finished output, interleaved over processes and fds."""
    with AgentServer() as srv, agent(ck, srv, serve=True) as m:
        c = srv.wait_conn(0, timeout=15 * slack)
        todo, specs = [], {}
        for i, n in enumerate(sizes):
            mode, enc, att = rng.choice(["memory", "tempfile"]), rng.choice(["utf-8", None]), rng.random() < 0.6
            fd = rng.choice([1, 2, 3, 10])
            mask = 0 if enc and rng.random() < 0.7 else rng.randrange(256)
            seed = rng.randrange(1, 90000)
            name = {1: "stdout", 2: "stderr"}.get(fd, str(fd))
            specs[f"f{i}"] = sp(m, f"w={fd}:{n}:{seed}:{mask}", fds=[[name, cap(mode, enc, att)]])
            todo.append((f"f{i}", name, fd, mode, enc, pattern(n, seed, mask)))
        m.start(specs)
        for pid, *_ in todo:
            r = m.wait_done(pid, 30 * slack)
            if r["status"] is None or r["status"]["exit_code"] != 0:
                raise Inconclusive(f"probe: {r}")
        for _ in range(60 if ck.quick else 200):
            pid, name, fd, mode, enc, full = rng.choice(todo)
            a, b = ranges(rng, len(full))
            what = f"{mode} {'text' if enc else 'binary'} output of {len(full)} bytes, range [{a}, {b})"
            r = read(c, pid, name, a, b, 30 * slack)
            k = check_reply(r, full, a, b, enc, what)
            if r["type"] == "ProcFdData" and (r["fd"] != name):
                raise Broken("fd-name", f"{what}: reply for fd {r['fd']}")
            n = len(full)
            def cl(x):
                return "none" if x is None else "0" if x == 0 else "<n" if x < n else "=n" if x == n else ">n" if x < 2**31 else "huge"
            ck.case(f"{mode} {enc} n~{n.bit_length()} {cl(a)} {cl(b)} {'inv' if b is not None and b < a else ''}", what)
            ck.seen("replies: " + k)
        # Reassembly from consecutive pieces.
        for pid, name, fd, mode, enc, full in todo:
            step = rng.choice([1, 7, 100, 4096, 65536, 100000])
            step = max(step, len(full) // 40)
            got, at = b"", 0
            while True:
                r = read(c, pid, name, at, at + step, 30 * slack)
                if r["type"] != "ProcFdData":
                    if at >= len(full):
                        break
                    raise Broken("refused", f"{mode} range [{at}, {at+step}) of {len(full)}: {r['type']}")
                d = bytes(r["data"])
                if not d:
                    break
                got += d
                at = r["stop"]
            if got != full:
                raise Broken("reassembly", f"{mode} in steps of {step}: {diff_at(got, full)}")
            # Everything else still intact.
            d = m.data(pid, name).body
            if d != full:
                raise Broken("later-read", f"{mode} raw data after range reads: {diff_at(d, full)}")
            ck.seen("outputs reassembled")
        if len(srv.conns) != 1:
            raise Broken("connection-dropped", f"agent reconnected: {len(srv.conns)} connections; {m.stderr()[-500:]}")


def hostile(ck, rng, slack):
    """Ranges and targets that aren't: answered or refused, nothing lost."""
    with AgentServer() as srv, agent(ck, srv, serve=True) as m:
        c = srv.wait_conn(0, timeout=15 * slack)
        mode = rng.choice(["memory", "tempfile"])
        full = pattern(70000, 5)
        m.start({"h": sp(m, "w=1:70000:5:0", fds=[["stdout", cap(mode, None, True)], ["5", {"file": {"path": "/dev/null"}}]])})
        m.wait_done("h", 30 * slack)
        bad = [(0, -1), (-1, 5), (-5, None), (-2**63, 2**63), (1.5, 2), ("0", "5"), (None, None), ([], {}), (True, False), (5, 4), (70000, 0), (0, -2**63), (5, -1), (-5, -1), (-1, -5), (-70000, 70000), (-69000, None), (-3, 3), (-2**63, None), (-2**63, 0), (-2**63, 10), (0, -70000), (100, -200), (TOP, 0), (TOP, TOP), (2**64 - 1, 0), (0, 2**64 - 1), (2**63, 2**63)]
        for a, b in rng.sample(bad, len(bad)):
            if type(a) is int and type(b) in (int, type(None)) and all(-TOP - 1 <= x <= TOP for x in (a, b or 0)):
                check_reply(read(c, "h", "stdout", a, b, 20 * slack), full, a, b, None, f"{mode} odd range [{a}, {b})")
            else:
                c.send("ProcFdDataRequest", proc_id="h", fd="stdout", start=a, stop=b)
            ck.case(f"hostile {a!r} {b!r} {mode}")
            # The connection works and later reads are right.
            c.barrier(20 * slack)
            s = rng.randrange(70000)
            # Skip any reply to the odd one: the barrier has passed, so what follows is ours.
            r = read(c, "h", "stdout", s, s + 500, 20 * slack)
            check_reply(r, full, s, s + 500, None, f"{mode} range [{s}, {s+500}) after odd range [{a!r}, {b!r})")
        for pid, fd in [("h", "stderr"), ("h", "5"), ("h", "99"), ("h", "-1"), ("h", "x"), ("h", ""), ("nope", "stdout"), ("h", "99999999999"), ("h", "1 ")]:
            since = c.mark()
            c.send("ProcFdDataRequest", proc_id=pid, fd=fd, start=0, stop=10)
            c.barrier(20 * slack)
            for x in c.msgs("ProcFdData")[0:]:
                if (x["proc_id"], x["fd"]) == (pid, fd) and x["data"]:
                    raise Broken("wrong-target", f"data for {pid} fd {fd!r}: {x['data'][:40]!r}")
            ck.case(f"target {pid} {fd!r} {mode}")
        ms = c.msgs("ProcFdData", fd="stdout")
        for x in ms:
            d = bytes(x["data"])
            if x["stop"] - x["start"] != len(d) or d != full[x["start"] : x["stop"]]:
                raise Broken("range-bytes", f"reply [{x['start']}, {x['stop']}) carries {len(d)} bytes not those of the output")
        m.check_alive()
        if len(srv.conns) != 1:
            raise Broken("connection-dropped", f"agent reconnected: {m.stderr()[-500:]}")
        if m.data("h", "stdout").body != full:
            raise Broken("later-read", "raw data after odd range reads")


def growing(ck, rng, slack):
    """Following a growing output by ranges, tail -f style, while it is written."""
    from ledger import cells
    with AgentServer() as srv, agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) as m:
        c = srv.wait_conn(0, timeout=15 * slack)
        if rng.random() < 0.3:
            m.ctl.short("pread", rng.choice([1000, 4096]))
        if rng.random() < 0.3:
            m.ctl.short("read", rng.choice([1000, 4096]))
        n = rng.choice([300_000, 1_500_000])
        seed, mode, enc = rng.randrange(1, 90000), rng.choice(["memory", "tempfile"]), rng.choice([None, "utf-8"])
        led = m.dir / "led"
        full = pattern(n, seed)
        m.start({"g": sp(m, "chunk=0", "jitterus=500", f"wlog=1:{n}:{seed}:0:{led}", fds=[["stdout", cap(mode, enc, rng.random() < 0.5)]])})
        got, at, k, end = b"", 0, 0, time.monotonic() + 60 * slack
        seen = 0
        while at < n:
            if time.monotonic() > end:
                raise Hang(f"following: {at} of {n}")
            lo = cells(led)[0] if mode == "tempfile" else seen
            stop = rng.choice([None, at + 1, at + 1000, at + 65536, at + 10**7])
            r = read(c, "g", "stdout", at, stop, 30 * slack)
            hi = cells(led)[1]
            if r["type"] == "RequestError":
                raise Broken("refused", f"growing {mode}: range [{at}, {stop}): {r.get('err')}")
            check_reply(r, full, at, stop, enc, f"growing {mode} output, range [{at}, {stop})", growing=(lo, hi))
            d = bytes(r["data"])
            got += d
            at += len(d)
            seen = max(seen, at)
            k += 1
            if rng.random() < 0.1:
                # An old range again.
                a = rng.randrange(at + 1)
                b = rng.randrange(a, at + 1)
                check_reply(read(c, "g", "stdout", a, b, 30 * slack), full, a, b, enc, f"growing {mode} output, old range [{a}, {b})", growing=(at, n))
        if got != full:
            raise Broken("reassembly", f"followed {mode}: {diff_at(got, full)}")
        r = m.wait_done("g", 30 * slack)
        if m.data("g", "stdout").body != full:
            raise Broken("later-read", f"{mode} raw data after {k} range reads while running")
        ck.seen("ranges of growing output", k)
        ck.seen("replies: data", k)
        ck.case(f"growing {mode} {enc} {n} {k // 20}")


def main(ck):
    S = [0, 1, 2, 15, 16, 17, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200001, 1_000_003]

    def make(i):
        r = ck.rng("make", i)
        c = i % 5
        if c in (0, 2):
            return (f"finished#{i}", finished, [r.choice(S) for _ in range(r.choice([2, 4, 6]))])
        if c == 1:
            return (f"hostile#{i}", hostile)
        return (f"growing#{i}", growing)
    ck.run_many(make, workers=6, at_least=15)


if __name__ == "__main__":
    run_check("P04", "each case is one range request, distinguished by capture mode, encoding, size class of the output and where start and stop "
              "lie (0, inside, at the end, beyond, huge, absent, inverted), or an ill-typed request or target, or one output followed while "
              "it grows; replies are compared byte for byte with the position-coded pattern",
              main, quick_s=14, thorough_s=240)
