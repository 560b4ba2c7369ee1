"""P15: no client input can take the manager down or corrupt it."""
import copy, http.client, json, msgpack, os, socket, struct, threading, time
from core import *
from mgr import *
from agentsrv import *
from ledger import cells

STR = ["", " ", "x", "procs", "é", "\u0000", "\ud7ff", "𝄞", "../..", "a" * 300, "%", "%2", "%zz", "%00", "%ff", "-1", "0", "1", "99999999999999999999", "1e9", "null", "true", "[]", "{}", "\n", "\r\n",
       "stdout", "SIGTERM", "\\", "\"", "'", ";", "${x}", "%s%n%n", "\x7f", "canary"]
NUM = [0, 1, -1, 2, 63, 64, 65, 255, 256, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, 1 << 53, (1 << 63) - 1, -(1 << 63), (1 << 64) - 1, 1.5, -0.0, 1e308, 1e-320]
BIGNUM = [1 << 64, 10 ** 40, -(10 ** 30)]


def junk(rng, depth=3, big=False):
    k = rng.randrange(9 if depth else 6)
    if k < 2:
        return rng.choice(STR)
    if k < 4:
        return rng.choice(NUM + (BIGNUM if big else []))
    if k == 4:
        return rng.choice([None, True, False])
    if k == 5:
        return rng.choice([[], {}])
    if k < 8:
        return {rng.choice(STR + ["type", "specs", "argv", "proc_id", "fd"]): junk(rng, depth - 1, big) for _ in range(rng.randrange(4))}
    return [junk(rng, depth - 1, big) for _ in range(rng.randrange(5))]


# Names for descriptors; few of them are any.
FDS = ["2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1e1", "0x1",
       "+1", "01", "-0", "-1", "", " 1", "1 ", "1.0", "stdOut", "stdout ", "std", "STDIN", "\u0661", "\u00b2", "nan", "/", "..", "1\u0000", "\U0001d7d9", "9" * 400, "s" * 5000]


def paths_of(d, at=()):
    yield at
    if isinstance(d, dict):
        for k in d:
            yield from paths_of(d[k], at + (k,))
    elif isinstance(d, list):
        for i in range(len(d)):
            yield from paths_of(d[i], at + (i,))


def mutate(rng, doc, n=None, big=False):
    """A copy of doc with a few places replaced, removed, doubled or added."""
    doc = copy.deepcopy(doc)
    for _ in range(n or rng.choice([1, 1, 1, 2, 5])):
        ps = [p for p in paths_of(doc) if p]
        if not ps:
            return junk(rng, 3, big)
        p = rng.choice(ps)
        x = doc
        for k in p[:-1]:
            x = x[k]
        op = rng.randrange(5)
        if op < 2:
            x[p[-1]] = junk(rng, 3, big)
        elif op == 2:
            del x[p[-1]]
        elif op == 3 and isinstance(x, dict):
            x[rng.choice(STR)] = x[p[-1]]
        elif isinstance(x, list):
            x.insert(rng.randrange(len(x) + 1), rng.choice([x[p[-1]], junk(rng, 2, big)]))
        elif isinstance(x, dict):
            x[str(p[-1]) + rng.choice(["", "x", " "])] = junk(rng, 2, big)
    return doc


class Canary:
    """A running process whose output must not suffer."""
    def __init__(self, m, seed):
        self.m, self.seed, self.log = m, seed, str(m.dir / "canary.log")
        # Slow enough to last, always writing.
        m.start({"canary": sp(m, "chunk=400", "chunkus=4000", f"wlog=1:40000000:{seed}:0:{self.log}", fds=[["stdout", cap("memory", "utf-8")], ["stderr", cap("tempfile")]])})
        self.pid = m.get("canary")["pid"]
        wait_for(lambda: os.path.exists(self.log) and os.path.getsize(self.log) == 16 and cells(self.log)[0] > 0, 10, "canary sings")

    def check(self, what):
        sure = cells(self.log)[0]

        def seen():
            # The manager reads the pipe in its own time.
            b = self.m.data("canary", "stdout").body
            if b != pattern(len(b), self.seed):
                raise Broken("canary-corrupt", f"{what}: {diff_at(b, pattern(len(b), self.seed))}")
            return len(b) >= sure
        wait_for(seen, 10, f"output of a running process is captured ({what})")
        r = self.m.get("canary")
        if r is None or r["state"] != "running" or r["pid"] != self.pid:
            raise Broken("canary-harmed", f"{what}: {r and r['state']}")


def no_panic(m, what):
    m.check_alive()
    seen = getattr(m, "seen_err", 0)
    try:
        with open(m.err_path, "rb") as f:
            f.seek(max(0, seen - 20))
            e = f.read()
    except OSError:
        return
    m.seen_err = max(seen, max(0, seen - 20) + len(e))
    if b"panicked at" in e:
        raise Broken("panic", f"{what}: {e[e.index(b'panicked at'):][:300]}")


def exchange(m, raw, method, what, timeout=20):
    """Sends a complete well-formed request; returns (status, headers, body)."""
    s = socket.create_connection(("127.0.0.1", m.port), timeout)
    try:
        err = None
        try:
            s.sendall(raw)
        except OSError as e:
            err = e
        r = http.client.HTTPResponse(s, method=method)
        try:
            r.begin()
            b = r.read()
        except (socket.timeout, TimeoutError):
            raise Hang(f"no response to {what}")
        except (OSError, http.client.HTTPException) as e:
            time.sleep(0.15)
            no_panic(m, what)
            raise Broken("no-response", f"{what}: {type(e).__name__} {e} {err or ''}")
        return r.status, {k.lower(): v for k, v in r.getheaders()}, b
    finally:
        s.close()


def well_formed(status, h, b, method, what, data_route=False):
    if not (status == 200 or 400 <= status < 500):
        raise Broken("bad-status", f"{what}: status {status} {b[:150]!r}")
    if method == "HEAD":
        return
    if h.get("content-type") == "application/json":
        try:
            d = json.loads(b)
        except ValueError:
            raise Broken("bad-response", f"{what}: body {b[:150]!r}")
        if set(d) != ({"data"} if status == 200 else {"errors"}):
            raise Broken("bad-response", f"{what}: status {status} with {b[:150]!r}")
    elif status == 200 and not data_route:
        raise Broken("bad-response", f"{what}: content type {h.get('content-type')}")


def req(method, target, headers, body=b"", version="1.1"):
    h = "".join(f"{k}: {v}\r\n" for k, v in headers)
    return f"{method} {target} HTTP/{version}\r\n{h}\r\n".encode("latin-1", "replace") + body


def target(rng):
    seg = lambda: quote(rng.choice(STR) if rng.random() < 0.94 else rng.choice(["y", "é", "1"]) * rng.choice([1000, 5000, 20000]), safe="%" if rng.random() < 0.2 else "")
    k = rng.randrange(9)
    t = [lambda: "/procs", lambda: f"/procs/{seg()}", lambda: f"/procs/{seg()}/signals/{seg()}", lambda: f"/procs/{seg()}/output/{seg()}/data", lambda: "/", lambda: f"/{seg()}/{seg()}",
         lambda: "/procs/canary" + rng.choice(["/", "//", "/signals", "/output", "/output/stdout", "/output/stdout/data/x", "?x=1", "/output/nofd/data", "/output/-1/data",
                                               "/output/99999999999/data", "/signals/", "/signals/xyz", "/output/stdout/data?start=-1"]),
         lambda: "/procs" + rng.choice(["/", "//", "?", "?a=b&c", ";x", "%2Fcanary", "/../procs", "/%2e%2e", "/" + "y" * 8000]), lambda: rng.choice(["*", "http://x/procs", "http://[::1]:1/procs/q"])][k]()
    return t


def base_spec(m, rng):
    return {"specs": {f"h{rng.randrange(3)}": {"exe": m.probe, "argv": ["probe", "exit=0"], "env": {"inherit": rng.choice([True, False, ["PATH"]]), "vars": {"A": "b", "C": None}},
            "fds": [["stdin", {"null": {"flags": "Read"}}], ["1", cap("memory", "utf-8")], ["2", {"dup": {"fd": 1}}], ["5", "close"], ["6", cap("tempfile")],
                    ["7", {"file": {"path": "t", "flags": "Write", "mode": 438, "format": "text"} if False else {"path": str(m.dir / "t"), "flags": "Write", "mode": 438}}]]}}}


def cleanup(m):
    """Ends and deletes whatever mutated requests managed to start."""
    for k, r in m.list().items():
        if k == "canary":
            continue
        if r["state"] == "running":
            m.signal(k, 9) if k else None
        elif k:
            m.delete(k)


def http_invalid(ck, rng, slack):
    """Complete, well-formed HTTP requests that mean nothing, or worse."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        can = Canary(m, rng.randrange(1 << 20))
        huge = 0
        for i in range(150 if ck.quick else 500):
            kind = rng.choice(["target", "target", "method", "body", "body", "body", "json-text", "type", "headers", "encoding", "big", "fd"])
            H = [("Host", "localhost")]
            J = H + [("Content-Type", "application/json")]
            method, t, b, ver = "GET", "/procs", b"", "1.1"
            with_len = lambda b: [("Content-Length", str(len(b)))]
            if kind == "target":
                method, t = rng.choice(["GET", "POST", "DELETE", "PUT", "HEAD", "PATCH"]), target(rng)
                if method == "DELETE" and "canary" in t:
                    method = "GET"
                if "/signals/" in t and "canary" in t:
                    method = "GET"
                h = H + ([("Content-Length", "0")] if method != "GET" else [])
            elif kind == "method":
                method = rng.choice(["PUT", "PATCH", "OPTIONS", "TRACE", "HEAD", "get", "POST", "FOO", "X-Y", "DELETE", "M" * 200])
                t = rng.choice(["/procs", "/procs/canary", "/procs/canary/output/stdout/data", "/procs/canary/signals/15", "/nope"])
                if method == "DELETE" and t == "/procs/canary":
                    pass    # refused: it is running
                if method == "POST" and "signals" in t:
                    t = "/procs"
                h = H + [("Content-Length", "0")]
            elif kind == "body":
                d = mutate(rng, base_spec(m, rng), big=True)
                b = json.dumps(d, ensure_ascii=rng.random() < 0.5).encode("utf-8", "surrogatepass")
                method, h = "POST", J + with_len(b)
            elif kind == "json-text":
                good = json.dumps(base_spec(m, rng)).encode()
                x = bytearray(good)
                for _ in range(rng.choice([1, 2, 8])):
                    op, p = rng.randrange(4), rng.randrange(len(x))
                    if op == 0:
                        x[p] = rng.randrange(256)
                    elif op == 1:
                        del x[p : p + rng.choice([1, 3, 40])]
                    elif op == 2:
                        x[p:p] = rng.choice([b"{", b"}", b"[", b"]", b'"', b",", b"\\u0000", b"\\ud800", b"\xff", b"\0", b"1e999", b"-", b"//", b"NaN", x[: rng.randrange(30)]])
                    else:
                        del x[p:]
                    if not x:
                        x = bytearray(b"{")
                b = rng.choice([bytes(x), b"", b"[" * rng.choice([10, 127, 129, 5000, 200000]), b'{"specs":' * rng.choice([5, 200, 20000]), b'{"specs":{"a":{"argv":' + b"[" * 100000,
                                b'{"specs":{"a":{"env":' + b'{"x":' * 50000, b'{"specs":{"h0":{"argv":["/bin/true"]},"h0":{"argv":["/bin/true"]}}}', b"null", b"\xef\xbb\xbf{}", good[: rng.randrange(len(good))], good + good])
                method, h = "POST", J + with_len(b)
            elif kind == "type":
                b = json.dumps(base_spec(m, rng)).encode()
                ct = rng.choice([None, "text/plain", "", "application/json; charset=utf-8", "APPLICATION/JSON", "application/msgpack", "a" * 3000, "application/jsonx", "\xff"])
                method, h = "POST", H + ([("Content-Type", ct)] if ct is not None else []) + with_len(b)
            elif kind == "headers":
                h = H + [(f"X-{j}", "v" * rng.choice([0, 10])) for j in range(rng.choice([1, 50, 90]))]
                h += rng.choice([[], [("Connection", "close")], [("Connection", "upgrade"), ("Upgrade", "websocket"), ("Sec-WebSocket-Key", "x"), ("Sec-WebSocket-Version", "13")], [("Expect", "nonsense")],
                                 [("Accept", "\xe9")], [("Cookie", "z" * 9000)], [("Range", "bytes=5-2")], [("Upgrade", "h2c"), ("HTTP2-Settings", "AAMAAABkAARAAAAA"), ("Connection", "Upgrade, HTTP2-Settings")]])
                t = rng.choice(["/procs", "/procs/canary", "/procs/none"])
                if rng.random() < 0.2:
                    ver = "1.0"
            elif kind == "fd":
                f = rng.choice(FDS)
                if rng.random() < 0.4:
                    t = f"/procs/canary/output/{quote(f, safe='')}/data"
                    h = H
                else:
                    f2 = rng.choice(FDS)
                    d = {"specs": {"h0": {"argv": [m.probe, "exit=0"], "fds": [[f, rng.choice([cap(), cap("tempfile"), {"null": {"flags": "Read"}}, "close", "inherit", "pipe-write", {"dup": {"fd": rng.choice([1, -1, 2**31 - 1, 2**31, -2**31, 2**63])}}, {"pipe-read": {"proc_id": "h1", "fd": f2}}])]]},
                                   "h1": {"argv": [m.probe, "exit=0"], "fds": [[f2, "pipe-write"]]}}}
                    b = json.dumps(d).encode()
                    method, h = "POST", J + with_len(b)
            elif kind == "encoding":
                g = json.dumps(rng.choice([base_spec(m, rng), {}, mutate(rng, base_spec(m, rng))])).encode()
                parts = [g[j : j + 7] for j in range(0, len(g), 7)]
                b = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
                method, h = "POST", J + [("Transfer-Encoding", "chunked")]
            else:
                n = rng.choice([100_000, 3_000_000] + ([20_000_000] if huge < 1 else []))
                huge += n > 10_000_000
                d = base_spec(m, rng)
                d["specs"]["h0"] = {"argv": ["x" * n]} if rng.random() < 0.5 else {"argv": [m.probe, "exit=0"] + ["y"] * (n // 10)}
                if rng.random() < 0.4:
                    d = {"specs": {f"h0{'z' * (n // 2)}": {"argv": []}}}
                b = json.dumps(d).encode()
                method, h = "POST", J + with_len(b)
            raw = req(method, t, h, b, ver)
            what = f"{kind}: {method} {t[:80]} {[x for x in h if x[0] not in ('Host',)][:3]!r:.150} body {b[:150]!r}"
            if kind == "type":
                time.sleep(0)
            st, hh, body = exchange(m, raw, method, what, 30 * slack)
            well_formed(st, hh, body, method, what, "/output/" in t)
            if method in ("HEAD", "PUT", "PATCH", "OPTIONS", "TRACE", "FOO", "get", "X-Y") and st == 200:
                raise Broken("bad-status", f"{what}: accepted")
            ck.case(f"{kind} {method} {st} {t[:30] if kind in ('target', 'method') else ''} {hash_(b)}", {"kind": kind, "method": method, "target": t[:60], "body": repr(b[:60]), "status": st})
            ck.seen(f"responses {st}")
            no_panic(m, what)
            if i % 25 == 24:
                can.check(what)
                cleanup(m)
        can.check("at the end")


def hash_(b):
    import zlib
    return zlib.crc32(b) % 1000 if b else ""


def http_broken(ck, rng, slack):
    """Bytes that are no HTTP, requests cut short, clients that vanish or dawdle."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        can = Canary(m, rng.randrange(1 << 20))
        held = []
        try:
            for i in range(120 if ck.quick else 400):
                good = json.dumps(base_spec(m, rng)).encode()
                full = rng.choice([req("GET", "/procs", [("Host", "x")]), req("GET", "/procs/canary/output/stdout/data", [("Host", "x")]),
                                   req("POST", "/procs", [("Host", "x"), ("Content-Type", "application/json"), ("Content-Length", str(len(good)))], good),
                                   req("DELETE", "/procs/none", [("Host", "x"), ("Content-Length", "0")])])
                kind = rng.choice(["cut", "cut", "random", "flip", "nl", "length", "chunk", "vanish", "dawdle", "tls", "pipeline", "accept"])
                if kind == "cut":
                    data = full[: rng.randrange(len(full))]
                elif kind == "random":
                    data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 1000, 100000 // 10])))
                elif kind == "flip":
                    x = bytearray(full)
                    for _ in range(rng.choice([1, 3])):
                        x[rng.randrange(len(x))] = rng.randrange(256)
                    data = bytes(x)
                elif kind == "nl":
                    data = rng.choice([full.replace(b"\r\n", b"\n"), full.replace(b"\r\n", b"\r"), b"\r\n" * 500, b"\n", b" " * 1000, b"GET /procs\r\n\r\n", b"GET\r\n\r\n", b"GET /procs HTTP/9.9\r\n\r\n", b"GET /pr\xffcs HTTP/1.1\r\nHost: x\r\n\r\n",
                                       b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"GET " + b"/x" * 100000 + b" HTTP/1.1\r\n\r\n", b"GET /procs HTTP/1.1\r\n" + b"X: " + b"y" * 1000000, b"GET /procs HTTP/1.1\r\n" + b"A: b\r\n" * 5000 + b"\r\n"])
                elif kind == "length":
                    data = req("POST", "/procs", [("Host", "x"), ("Content-Type", "application/json"), *rng.choice([[("Content-Length", "5")], [("Content-Length", "-1")], [("Content-Length", "x")], [("Content-Length", "99999999999999999999")], [("Content-Length", "1000000000000000")], [("Content-Length", "9223372036854775807")], [("Content-Length", "18446744073709551613")],
                               [("Content-Length", "3"), ("Content-Length", "5")], [("Content-Length", "9"), ("Transfer-Encoding", "chunked")], [("Transfer-Encoding", "gzip")], [("Content-Length", "1000000000")]])], good)
                elif kind == "chunk":
                    data = req("POST", "/procs", [("Host", "x"), ("Content-Type", "application/json"), ("Transfer-Encoding", "chunked")],
                               rng.choice([b"zz\r\n", b"-5\r\nhello\r\n", b"fffffffffffffffff\r\n", b"5\r\nhel", b"0\r\n", b"5;x=y\r\nhello\r\n0\r\nA: b\r\n\r\n", b"7fffffffffffffff\r\nx"]))
                elif kind == "pipeline":
                    data = req("GET", "/procs/canary", [("Host", "x")]) * rng.choice([2, 50])
                elif kind == "tls":
                    data = bytes.fromhex("1603010200010001fc0303") + bytes(rng.randrange(256) for _ in range(500))
                else:
                    data = full
                if kind == "accept":
                    m.ctl.fail("accept", rng.choice([24, 23, 103, 12]), sticky=0)
                s = socket.create_connection(("127.0.0.1", m.port), 20)
                try:
                    if kind == "dawdle":
                        for k in range(0, min(len(data), 60), 7):
                            s.sendall(data[k : k + 7])
                            time.sleep(0.001)
                    else:
                        s.sendall(data)
                    how = rng.choice(["close", "rst", "half", "read", "hold"])
                    if how == "rst":
                        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    elif how == "half":
                        s.shutdown(socket.SHUT_WR)
                        s.settimeout(0.2)
                        try:
                            while s.recv(65536):
                                pass
                        except OSError:
                            pass
                    elif how == "read":
                        s.settimeout(0.05)
                        try:
                            s.recv(100)
                        except OSError:
                            pass
                    elif how == "hold":
                        held.append(s)
                        if len(held) > 40:
                            held.pop(0).close()
                        s = None
                except OSError:
                    pass
                finally:
                    if s:
                        s.close()
                what = f"{kind} {how}: {data[:120]!r}"
                no_panic(m, what)
                # Others are served as ever.
                t0 = time.monotonic()
                r = m.http("GET", "/procs/canary", timeout=15 * slack)
                if r.status != 200:
                    raise Broken("not-served", f"after {what}: {r.status}")
                ck.case(f"{kind} {how} {hash_(data)}", {"kind": kind, "then": how, "sent": repr(data[:60])})
                if i % 30 == 29:
                    can.check(what)
                    cleanup(m)
            can.check("at the end")
        finally:
            for s in held:
                s.close()


def msgs(m, rng):
    k = rng.choice(["canary", "none", "h0", "", "é"])
    return rng.choice([
        {"type": "ProcStartRequest", **base_spec(m, rng)}, {"type": "ProcidListRequest"}, {"type": "ProcResultRequest", "proc_id": k},
        {"type": "ProcSignalRequest", "proc_id": k if k != "canary" else "none", "signum": rng.choice([0, 15, 65, -1])},
        {"type": "ProcFdDataRequest", "proc_id": k, "fd": rng.choice(["stdout", "stderr", "7", "x", "-1", ""]), "start": rng.choice(NUM[:17]), "stop": rng.choice([None, *NUM[:17]])},
        {"type": "ProcDeleteRequest", "proc_id": k}, {"type": "Registered"}])


def unsafe(x):
    """Would legitimately harm the canary."""
    return isinstance(x, dict) and x.get("type") == "ProcSignalRequest" and x.get("proc_id") == "canary" and x.get("signum") != 0


def agent_hostile(ck, rng, slack):
    with AgentServer() as srv, agent(ck, srv, serve=True) as m:
        os.chmod(m.dir, 0o777)
        c = srv.wait_conn(0, timeout=15 * slack)
        can = Canary(m, rng.randrange(1 << 20))
        ncon = 0
        for i in range(150 if ck.quick else 500):
            kind = rng.choice(["mutated", "mutated", "mutated", "junk", "bytes", "flip", "flip", "cut", "trail", "deep", "text", "ping", "pong", "fragments", "extremes", "fd", "empty", "big", "outgoing"])
            frames = None
            x = mutate(rng, msgs(m, rng))
            while unsafe(x):
                x = mutate(rng, msgs(m, rng))
            good = msgpack.packb(msgs(m, rng), unicode_errors="surrogatepass")
            if kind == "mutated":
                data = pack(x)
            elif kind == "junk":
                data = pack(junk(rng, 4))
            elif kind == "bytes":
                data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 9, 100])))
            elif kind == "flip":
                b = bytearray(good)
                for _ in range(rng.choice([1, 1, 4])):
                    b[rng.randrange(len(b))] = rng.choice([rng.randrange(256), 0xc1, 0xdf, 0xdd, 0xdb, 0xc9, 0xff, 0xc6])
                data = bytes(b)
            elif kind == "cut":
                data = good[: rng.randrange(len(good))]
            elif kind == "trail":
                data = good + rng.choice([b"\xc0", good, b"\xff" * 50])
            elif kind == "deep":
                n = rng.choice([50, 900, 1100, 20000, 1000000])
                o = rng.choice([b"\x91", b"\x81\xa1a", b"\x82\xa4type\xafProcStartRequest\xa5specs"])
                n = min(n, 8_000_000 // len(o))  # a larger frame may be refused
                data = rng.choice([b"", b"\x82\xa4type\xb0ProcStartRequest\xa5specs", b"\x82\xa5specs", b"\x82\xa1x"]) + o * n + b"\xc0"
            elif kind == "text":
                frames = [(1, rng.choice([b"", b"hello", json.dumps({"type": "ProcidListRequest"}).encode(), "é𝄞".encode()]), {})]
            elif kind == "ping":
                frames = [(9, bytes(rng.randrange(256) for _ in range(rng.choice([0, 5, 125]))), {})]
            elif kind == "pong":
                frames = [(10, b"x" * rng.choice([0, 125]), {})]
            elif kind == "fragments":
                d, cut = pack(x), 0
                frames = []
                n = rng.choice([1, 2, 5])
                for j in range(n):
                    e = len(d) if j == n - 1 else rng.randrange(cut, len(d) + 1)
                    frames.append((2 if j == 0 else 0, d[cut:e], {"fin": j == n - 1}))
                    cut = e
                    if j < n - 1 and rng.random() < 0.4:
                        frames.append((9, b"amid", {}))
            elif kind == "extremes":
                data = pack({"type": "ProcFdDataRequest", "proc_id": "canary", "fd": rng.choice(["stdout", "1", "stderr"]), "start": rng.choice(NUM[:17]), "stop": rng.choice([None, *NUM[:17]])})
            elif kind == "fd":
                f = rng.choice(FDS)
                data = pack(rng.choice([{"type": "ProcFdDataRequest", "proc_id": rng.choice(["canary", "none"]), "fd": f, "start": 0, "stop": None},
                                        {"type": "ProcStartRequest", "specs": {"h2": {"argv": [m.probe, "exit=0"], "fds": [[f, rng.choice([cap(), "close", {"pipe-read": {"proc_id": "h2", "fd": f}}])]]}}}]))
            elif kind == "empty":
                data = b""
            elif kind == "big":
                data = pack({"type": rng.choice(["ProcStartRequest", "ProcResultRequest"]), "proc_id": "z" * 3_000_000, "specs": {"h1": {"argv": ["y" * 3_000_000]}}})
            else:
                data = pack(rng.choice([{"type": "ProcUnknown", "proc_id": "canary"}, {"type": "ProcDelete", "proc_id": "canary"}, {"type": "Register"}, {"type": "ShutDown", "shutdown_state": "done"}, {"type": "RequestError"}]))
            if frames is None:
                frames = [(2, data, {})]
            what = f"{kind}: {frames[0][1][:150]!r}"
            try:
                seen = len(c.control)
                for op, d, kw in frames:
                    c.send_frame(op, d, **kw)
                c.barrier(20 * slack)
                if kind == "ping" and not [x for x in c.control[seen:] if x[1] == 10 and bytes(x[2]) == frames[0][1]]:
                    raise Broken("no-pong", f"ping of {len(frames[0][1])} bytes answered by {c.control[seen:]}")
            except Broken as e:
                no_panic(m, what)
                raise Broken(e.sig, f"after {what}: {e}")
            except Closed as e:
                no_panic(m, what)
                raise Broken("agent-connection-lost", f"after {what}: {e}")
            no_panic(m, what)
            ck.case(f"agent {kind} {hash_(frames[0][1])}", {"kind": kind, "sent": repr(frames[0][1][:60]), "expected": "connection stays"})
            if i % 25 == 24:
                can.check(what)
                cleanup(m)
        ck.seen("hostile messages answered or ignored", 150)
        if len(srv.conns) != 1:
            raise Broken("agent-connection-lost", "connected again")
        # Things after which it may hang up; then it comes back.
        for kind, data in (("reserved opcode", Conn.frame(3, b"x")), ("rsv", Conn.frame(2, b"\xc0", rsv=4)), ("masked", b"\x82\x81\0\0\0\0\xc0"), ("long ping", Conn.frame(9, b"x" * 126)), ("bad utf-8", Conn.frame(1, b"\xff\xfe")),
                           ("continuation", Conn.frame(0, b"x")), ("huge", b"\x82\x7f" + struct.pack(">Q", 1 << 62)), ("bad close", Conn.frame(8, b"\x01")), ("close code", Conn.frame(8, struct.pack(">H", 5))),
                           ("garbage", bytes(rng.randrange(256) for _ in range(300)))):
            c = wait_for(lambda: next((x for x in reversed(srv.conns) if x.phase == "connected" and not x.closed), None), 20 * slack, f"agent is connected again")
            c.barrier(20 * slack)
            try:
                c.send_raw(data)
                c.send("ProcidListRequest")
            except (Closed, Hang):
                pass
            wait_for(lambda: c.closed or c.msgs("ProcidList"), 3) or c.drop()
            c.drop()
            no_panic(m, kind)
            ck.case(f"agent breach {kind}")
        c = wait_for(lambda: next((x for x in reversed(srv.conns) if x.phase == "connected" and not x.closed), None), 20 * slack, f"agent is connected again")
        c.barrier(20 * slack)
        can.check("at the end")


def pack(x):
    return msgpack.packb(clean(x), unicode_errors="surrogatepass")


def clean(x):
    """Only what msgpack can express."""
    if isinstance(x, dict):
        return {clean(k): clean(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clean(v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool) and not -(1 << 63) <= x < 1 << 64:
        return float(x)
    return x


def hostile_server(ck, rng, slack):
    """Servers that answer the agent's opening with nonsense."""
    seq = []

    def policy(c):
        k = c.index
        if k >= len(seq):
            return ok(c)
        how = seq[k]
        if how == "raw":
            c.raw.sendall(bytes(rng.randrange(256) for _ in range(200)))
            time.sleep(0.02)
            return
        if how == "shut":
            return
        c.start_tls()
        if how == "tls-junk":
            c.send_raw(b"\0" * 500)
            return
        c.read_request()
        if how.startswith("http"):
            c.send_raw({"http404": b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n", "http200": b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", "httpjunk": b"\xff\xfe nonsense\r\n\r\n",
                        "httplong": b"HTTP/1.1 101 X\r\n" + b"A: " + b"b" * 200000 + b"\r\n\r\n", "httpkey": b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAA\r\n\r\n",
                        "httpredirect": b"HTTP/1.1 302 Found\r\nLocation: wss://localhost:1/\r\n\r\n"}[how])
            time.sleep(0.02)
            return
        c.send_raw(c.answer())
        c.read_register()
        c.send_frame(*{"first-text": (1, b"hi"), "first-junk": (2, b"\xc1\xc1"), "first-list": (2, msgpack.packb({"type": "ProcidListRequest"})), "first-close": (8, b"\x03\xe8"), "first-empty": (2, b""),
                       "first-start": (2, msgpack.packb({"type": "ProcStartRequest", "specs": {"evil": {"argv": ["/bin/true"]}}}))}[how])
        time.sleep(0.05)
    seq = ["raw", "shut", "tls-junk", "http404", "http200", "httpjunk", "httplong", "httpkey", "httpredirect", "first-text", "first-junk", "first-list", "first-close", "first-empty", "first-start"]
    rng.shuffle(seq)
    with AgentServer(policy) as srv, agent(ck, srv, serve=True, interval=(0.02, 1.0, 0.02)) as m:
        os.chmod(m.dir, 0o777)
        can = Canary(m, 5)
        c = wait_for(lambda: next((x for x in srv.conns if x.phase == "connected"), None), 30 * slack, lambda: f"agent gets through hostile servers (at {len(srv.conns)}: {seq[max(0, len(srv.conns) - 1):len(srv.conns)]})")
        c.barrier(20 * slack)
        can.check("after hostile servers")
        no_panic(m, f"hostile servers {seq}")
        for s in seq:
            ck.case(f"server {s}")


def main(ck):
    def make(i):
        c = i % 6
        if c in (0, 3):
            return (f"http_invalid#{i}", http_invalid)
        if c in (1, 4):
            return (f"http_broken#{i}", http_broken)
        if c == 2 or i % 12 == 11:
            return (f"agent_hostile#{i}", agent_hostile)
        return (f"hostile_server#{i}", hostile_server)
    ck.run_many(make, workers=6, at_least=12)


if __name__ == "__main__":
    run_check("P15", "each case is one hostile input (invalid but well-formed request, broken bytes, agent message or frame, server answer) after which the manager must have answered "
              "properly, keep serving, and a running process's output be intact; distinct by kind, outcome and content", main, quick_s=16, thorough_s=280)
