"""P02: captured output is exactly what the process wrote."""
import mmap, os, struct, time
from core import *
from mgr import *
from agentsrv import *

SIZES = [0, 1, 15, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200001]
BIG = [1 << 20, (1 << 20) + 7, 3_000_003]


class Stream:
    """What one captured descriptor should contain."""
    def __init__(self, fd, mode, enc, attached):
        self.fd, self.mode, self.enc, self.attached = fd, mode, enc, attached
        self.parts = []

    @property
    def name(self):
        return {0: "stdin", 1: "stdout", 2: "stderr"}.get(self.fd, str(self.fd))

    def spec(self):
        return [self.name, cap(self.mode, self.enc, self.attached)]

    def data(self):
        return b"".join(self.parts)


def compare(got, want, what, sig="bytes"):
    if got != want:
        raise Broken(sig, f"{what}: {diff_at(got, want)}")


def check_stream(m, pid_s, r, s, want=None, how="HTTP result"):
    """want: exact bytes (default: the stream's)."""
    want = s.data() if want is None else want
    what = f"{pid_s} fd {s.fd} ({s.mode} {s.enc or 'binary'} {'attached' if s.attached else 'detached'}) by {how}"
    if s.name not in r["fds"]:
        raise Broken("fd-missing", f"{what}: no result among {list(r['fds'])}")
    f = r["fds"][s.name]
    if s.attached:
        if s.enc:
            if f["type"] != "text" or f["encoding"] != "utf-8":
                raise Broken("fd-type", f"{what}: {f['type']} {f['encoding']}")
            if f["text"] != want.decode("utf-8", "replace"):
                compare(f["text"].encode(), want.decode("utf-8", "replace").encode(), what, "text")
        else:
            if f["type"] != "data":
                raise Broken("fd-type", f"{what}: {f['type']}")
            compare(fd_bytes(f), want, what, "binary")
            if f["data"] != base64.b64encode(want).decode():
                raise Broken("base64", f"{what}: not the canonical base64")
    else:
        if f["type"] != "detached" or "text" in f or "data" in f:
            raise Broken("fd-type", f"{what}: {f['type']}")
        if f["length"] != len(want):
            raise Broken("detached-length", f"{what}: length {f['length']}, wrote {len(want)}")
        if f["encoding"] != ("utf-8" if s.enc else "base64"):
            raise Broken("encoding", f"{what}: encoding {f['encoding']}")


def check_raw(m, pid_s, s, want=None):
    want = s.data() if want is None else want
    d = m.data(pid_s, s.name)
    if d.status != 200:
        raise Broken("raw-status", f"{pid_s} fd {s.fd}: raw data {d.status} {d.body[:100]!r}")
    compare(d.body, want, f"{pid_s} fd {s.fd} ({s.mode}) raw data", "raw")
    ct = d.headers.get("content-type", "")
    if s.enc and "charset" not in ct or not s.enc and "charset" in ct:
        raise Broken("raw-type", f"{pid_s} fd {s.fd}: content-type {ct!r} for encoding {s.enc}")


def utf8_chunks(rng):
    """Hex chunks of mixed valid and invalid UTF-8, cut anywhere."""
    bits = []
    for _ in range(rng.randrange(1, 40)):
        bits.append(rng.choice([
            "é".encode(), "€uro".encode(), "𝄞🎉".encode(), b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x8e", b"\xed\xa0\x80",
            b"\xc0\xaf", b"\x00", b"\r\n", b"\x7f\x1b[0m", b"\\u0000\"", "\ufeff\u2028".encode(), b"\xf4\x90\x80\x80",
            bytes(rng.randrange(256) for _ in range(rng.randrange(9))), b"plain ascii text"]))
    data = b"".join(bits)
    out, i = [], 0
    while i < len(data):
        n = rng.choice([1, 2, 3, 7, 30, 400])
        out.append(data[i : i + n])
        i += n
    return out


EDGES = [b"\xc3", b"\xe2\x82", b"\xf0\x9f\x8e", b"\xf0", b"\x80", b"\xff", b"\n", b"\r\n", b"\n\n\n", b" ", b"\t \n", b"\0", b"\0\0", b"\x1a", b"\x04", "\ufeff".encode(),
         b"\xff\xfe", "\u0301".encode(), "\U0010ffff".encode(), b"=", b"==", b"\\", b'"', b"\x1b[0m", "\u2028".encode(), b"\xed\xa0\x80", b"\xed\xa0\xbd\xed\xb8\x80"]


def make_proc(m, rng, seed, big):
    """A random writer: (spec, streams, description)."""
    fds = [1, 2]
    for _ in range(rng.choice([0, 0, 1, 2])):
        fds.append(rng.choice([3, 4, 7, 9, 10, 63, 200]))
    fds = sorted(set(fds))
    if rng.random() < 0.3:
        rng.shuffle(fds)
    streams = [Stream(f, rng.choice(["memory", "tempfile"]), rng.choice(["utf-8", None]), rng.random() < 0.7) for f in fds]
    ops = [f"chunk={rng.choice([0, 0, 1000, 4096, 65536, 100000])}"]
    if rng.random() < 0.2:
        ops.append(f"jitterus={rng.choice([50, 300])}")
    kinds = []
    if rng.random() < 0.2:
        # One stream mostly small, with odd text.
        s = rng.choice(streams)
        for c in utf8_chunks(rng):
            ops.append(f"wh={s.fd}:{c.hex()}")
            s.parts.append(c)
        kinds.append("utf8")
    def edge(p):
        """Now and then, output starts or ends with something easily lost."""
        for s in streams:
            if rng.random() < p:
                c = b"".join(rng.choices(EDGES, k=rng.choice([1, 1, 2])))
                ops.append(f"wh={s.fd}:{c.hex()}")
                s.parts.append(c)
                kinds.append("edge")
    edge(0.1)
    pos = {}
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        s = rng.choice(streams)
        n = rng.choice(BIG if big and rng.random() < 0.5 else SIZES)
        if n < 20000 and rng.random() < 0.5:
            n = rng.randrange(n + 1)
        if len(ops) > 1 and n > 70000 and ops[1].startswith("jitter"):
            n = 70000
        mask = 0 if s.enc and rng.random() < 0.8 else rng.randrange(256)
        o = pos.get(s.fd, 0)
        sd = seed * 31 + s.fd
        where = ""
        child = rng.random() < 0.12
        ops += (["fork{"] if child else []) + [f"w={s.fd}:{n}:{sd}:{mask}:{o}"] + (["}", "wait"] if child else [])
        s.parts.append(pattern(n, sd, mask, o))
        pos[s.fd] = o + n
        kinds.append(f"{n}{'c' if child else ''}")
    edge(0.25)
    end = rng.choice(["exit=0", "exit=3", "kill=9", "kill=15", "kill=6", "kill=11"])
    if rng.random() < 0.15:
        ops.append("us=3000")
    if rng.random() < 0.15:
        for s in streams:
            ops.append(f"close={s.fd}")
        kinds.append("closed")
    spec = sp(m, "core=0", *ops, end, fds=[s.spec() for s in streams])
    desc = " ".join(f"{s.fd}:{s.mode[0]}{'u' if s.enc else 'b'}{'a' if s.attached else 'd'}" for s in streams)
    return spec, streams, f"{desc} | {' '.join(kinds)} | {end}"


def disturb(m, rng):
    c = rng.randrange(7)
    if c == 6:
        m.ctl.short("pread", rng.choice([1000, 30_000, 1 << 20]))
        return "short file reads"
    if c == 0:
        m.ctl.short("read", rng.choice([1000, 4096, 333]))
    elif c == 1:
        m.ctl.delay("read", 2000, 300)
    elif c == 2:
        m.ctl.delay("wait4", 3000, 500)
    elif c == 3:
        m.ctl.delay("epoll", 4000, 500)
    elif c == 4:
        m.ctl.delay("fork", 1500, 1000, child=True)
    return ["short reads", "slow reads", "slow wait4", "slow epoll", "slow child", "none"][c]


def http(ck, rng, slack, n, big):
    """Several writers at once, watched over HTTP; checked the moment each ends."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        dist = disturb(m, rng)
        todo = {}
        for i in range(n):
            spec, streams, desc = make_proc(m, rng, rng.randrange(1, 90000), big and i < 2)
            todo[f"p{i}"] = (spec, streams, desc)
        if rng.random() < 0.5:
            m.start({k: v[0] for k, v in todo.items()})
        else:
            for k, v in todo.items():
                m.start({k: v[0]})
        end = time.monotonic() + 60 * slack
        total = 0
        left = dict(todo)
        while left:
            if time.monotonic() > end:
                raise Hang(f"writers end: {list(left)}")
            res = m.list() if rng.random() < 0.3 else None
            for k in list(left):
                r = res[k] if res else m.get(k)
                if r["state"] == "running":
                    continue
                _, streams, desc = left.pop(k)
                if r["state"] != "terminated":
                    raise Broken("state", f"{k} ({desc}): {r['state']} {r['errors']}")
                if r["status"]["exit_code"] == 99:
                    raise Inconclusive(f"probe failed: {r['fds']}")
                for s in streams:
                    check_stream(m, k, r, s)
                    total += len(s.data())
                if set(r["fds"]) != {s.name for s in streams}:
                    raise Broken("fds", f"{k}: results for {list(r['fds'])}")
                for s in streams:
                    check_raw(m, k, s)
                ck.case(desc, {"writer": desc, "bytes": sum(len(s.data()) for s in streams)})
            time.sleep(0.001)
        # And it stays.
        res = m.list()
        for k, (_, streams, desc) in todo.items():
            for s in streams:
                check_stream(m, k, res[k], s, how="later result")
        ck.seen("bytes-compared", total)
        ck.seen("streams", sum(len(v[1]) for v in todo.values()))
        ck.seen("disturbance: " + dist)
        ck.seen("pipe reads by the manager", m.ctl.get("read")["calls"])


def read_cells(path):
    with open(path, "rb") as f:
        a, b = struct.unpack("<QQ", f.read(16))
    return a, b


def killed(ck, rng, slack):
    """Killed while writing: everything written counts, and nothing else."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        dist = disturb(m, rng)
        n = rng.choice([1, 3, 6])
        ss = {}
        for i in range(n):
            mode = rng.choice(["memory", "tempfile"])
            s = Stream(rng.choice([1, 2, 5]), mode, rng.choice([None, "utf-8"]), rng.random() < 0.6)
            s.seed = rng.randrange(1, 90000)
            s.led = m.dir / f"led{i}"
            ss[f"k{i}"] = s
            m.start({f"k{i}": sp(m, f"chunk={rng.choice([0, 512, 4096, 30000])}", f"jitterus={rng.choice([1, 200, 1000])}",
                                 f"wlog={s.fd}:400000000:{s.seed}:0:{s.led}", fds=[s.spec()])})
        time.sleep(rng.choice([0.02, 0.1, 0.3]))
        for k in ss:
            m.signal(k, rng.choice(["SIGKILL", "SIGTERM", "SIGHUP"]))
        for k, s in ss.items():
            r = m.wait_done(k, 40 * slack)
            lo, hi = read_cells(s.led) if s.led.exists() and s.led.stat().st_size >= 16 else (0, 0)
            length = r["fds"][s.name]["length"] if not s.attached else None
            d = m.data(k, s.name).body
            if length is not None and length != len(d):
                raise Broken("detached-length", f"{k}: detached length {length}, raw data {len(d)}")
            if not lo <= len(d) <= hi:
                raise Broken("killed-length", f"{k} ({s.mode}): {len(d)} bytes captured; the process had written at least {lo}, at most {hi}")
            compare(d, pattern(len(d), s.seed), f"{k} ({s.mode}, killed)")
            check_stream(m, k, r, s, want=d)
            ck.seen("bytes-compared", len(d))
            ck.case(f"killed {s.fd} {s.mode} {s.enc} {s.attached} {dist} {len(d) // 65536}")


def shared(ck, rng, slack):
    """Two descriptors on one capture, and descendants writing through it."""
    with Manager(ck) as m:
        mode = rng.choice(["memory", "tempfile"])
        s = Stream(1, mode, None, rng.random() < 0.7)
        seed = rng.randrange(1, 90000)
        ops, want, off = [f"chunk={rng.choice([0, 4096])}"], [], 0
        for i in range(rng.randrange(2, 12)):
            n = rng.choice([1, 100, 5000, 70000])
            w = f"w={rng.choice([1, 2])}:{n}:{seed}:0:{off}"
            ops += ["fork{", w, "}", "wait"] if rng.random() < 0.4 else [w]
            off += n
        s.parts.append(pattern(off, seed))
        m.start({"d": sp(m, *ops, "exit=0", fds=[s.spec(), ["2", {"dup": {"fd": 1}}]])})
        r = m.wait_done("d", 30 * slack)
        check_stream(m, "d", r, s)
        check_raw(m, "d", s)
        # A surviving descendant holds the capture open; what the process wrote is complete anyway.
        s2 = Stream(1, mode, None, True)
        n = rng.choice([1, 5000, 300000])
        s2.parts.append(pattern(n, seed + 1))
        m.start({"o": sp(m, "fork{", "setsid", "us=400000", "}", f"w=1:{n}:{seed + 1}:0", "exit=0", fds=[s2.spec()])})
        r = m.wait_done("o", 30 * slack)
        check_stream(m, "o", r, s2, how="result with the capture still open")
        check_raw(m, "o", s2)
        ck.case(f"shared {mode} {len(ops)} {off // 65536} {n}")
        ck.seen("bytes-compared", off + n)


def last_words(ck, rng, slack, use_agent):
    """Processes that write a burst and end while the manager is busy noticing:
    nothing it has to catch up with may be missing from the very first result,
    whether asked for or sent unprompted."""
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    try:
        with m:
            c = srv.wait_conn(0) if srv else None
            # SIGCHLDs at any moment, and a slow wait: a process may write and end inside it.
            m.start({"noise": sp(m, "killp=17:100000:700", "exit=0")})
            m.ctl.delay("wait4", rng.choice([2000, 8000, 20000]), rng.choice([400, 1000]))
            if rng.random() < 0.5:
                m.ctl.short("read", rng.choice([500, 1000, 4096, 30000]))
            for rd in range(6):
                todo, specs = {}, {}
                for i in range(rng.choice([1, 3, 8])):
                    # On one descriptor, or on each of several.
                    ss, pre, ops = [], [], []
                    for fd in rng.sample([1, 2, 4, 5, 7, 30, 31], rng.choice([1, 1, 1, 4, 7])):
                        s = Stream(fd, rng.choice(["memory", "memory", "memory", "tempfile"]), rng.choice([None, "utf-8"]), rng.random() < 0.7)
                        seed = rng.randrange(1, 90000)
                        big = s.mode == "memory" and rng.random() < 0.4
                        n = rng.choice([65537, 200_000, 700_000, 1 << 20]) if big else rng.choice([1, 100, 4096, 20_000, 65536])
                        s.parts.append(pattern(n, seed))
                        pre += [f"pipesz={s.fd}:1048576"] if big else []
                        ops.append(f"w={s.fd}:{n}:{seed}:0")
                        ss.append(s)
                    k = f"l{rd}-{i}"
                    specs[k] = sp(m, *pre, "chunk=1048576", f"us={rng.randrange(40000)}", *ops, rng.choice(["exit=0", "kill=9"]), fds=[s.spec() for s in ss])
                    todo[k] = ss
                m.start(specs)
                end = time.monotonic() + 40 * slack
                left = dict(todo)
                if c:
                    for k, ss in todo.items():
                        _, x = c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == k and x["res"]["state"] != "running",
                                   40 * slack, what=f"result of {k}")
                        x = plain(x["res"])
                        for s in ss:
                            check_stream(m, k, x, s, how="unprompted agent result")
                else:
                    while left:
                        if time.monotonic() > end:
                            raise Hang(f"writers end: {list(left)}")
                        for k in list(left):
                            r = m.get(k)
                            if r["state"] == "running":
                                continue
                            for s in left.pop(k):
                                check_stream(m, k, r, s, how="first result")
                for k, s in ((k, s) for k, ss in todo.items() for s in ss):
                    check_raw(m, k, s)
                    ck.case(f"last words {s.fd} {s.mode} {s.enc} {s.attached} {len(s.data())} {bool(c)}")
                    ck.seen("bytes-compared", len(s.data()))
            m.signal("noise", "SIGKILL")
            ck.seen("last words under SIGCHLD noise", 6)
    finally:
        if srv:
            srv.close()


def plain(res):
    """An agent's result as HTTP would show it."""
    for f in res["fds"].values():
        if f["type"] == "data" and isinstance(f["data"], bytes):
            f["data"] = base64.b64encode(f["data"]).decode()
    return res


def huge(ck, rng, slack):
    """Outputs far beyond any buffer."""
    with Manager(ck) as m:
        mode, enc, att = rng.choice(["memory", "tempfile", "tempfile"]), rng.choice([None, "utf-8"]), rng.random() < 0.6
        s = Stream(1, mode, enc, att)
        seed, n = rng.randrange(1, 90000), rng.choice([9_000_001, 16_777_216, 16_777_217, 25_000_000, 34_000_001])
        s.parts.append(pattern(n, seed))
        if rng.random() < 0.8:
            m.ctl.short("pread", rng.choice([100_000, 1 << 22]))
        m.start({"h": sp(m, f"chunk={rng.choice([65536, 1 << 20, 1 << 23])}", f"w=1:{n}:{seed}:0", fds=[s.spec()])})
        r = m.wait_done("h", 60 * slack)
        check_stream(m, "h", r, s)
        check_raw(m, "h", s)
        ck.case(f"huge {mode} {enc} {att} {n}")
        ck.seen("bytes-compared", n)


def trickle(ck, rng, slack):
    """A few bytes at a time, of values that might mean something to somebody."""
    with Manager(ck) as m:
        todo = []
        for j in range(rng.choice([4, 8])):
            streams = [Stream(fd, rng.choice(["memory", "memory", "tempfile"]), rng.choice([None, None, "utf-8"]), rng.random() < 0.8) for fd in (1, 2)]
            ops = []
            for _ in range(rng.choice([20, 60])):
                s, v, n = rng.choice(streams), rng.choice([0, 0, 0, 4, 10, 13, 26, 27, 127, 128, 255, 239]), rng.choice([1, 1, 1, 2, 7])
                ops += [f"w={s.fd}:{n}:0:{(v - 240) & 255}:0", f"us={rng.choice([300, 1000, 4000])}"]
                s.parts.append(bytes([v]) * n)
            todo.append((f"t{j}", sp(m, *ops, fds=[s.spec() for s in streams]), streams))
        m.start({k: x for k, x, _ in todo})
        for k, _, streams in todo:
            r = m.wait_done(k, 20 * slack)
            for s in streams:
                check_stream(m, k, r, s)
                check_raw(m, k, s)
                ck.seen("bytes-compared", len(s.data()))
                ck.seen("trickled writes", len(s.parts))
            ck.case(f"trickle {[(s.mode, s.enc, s.attached) for s in streams]} {len(streams[0].parts)}")


def silence(ck, rng, slack):
    """Outputs with long silences in them."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        limit = 11 if ck.quick else 70
        specs, streams = {}, {}
        for i in range(10):
            enc, att, seed = rng.choice(["utf-8", None]), rng.random() < 0.6, rng.randrange(1, 90000)
            s = Stream(rng.choice([1, 2, 5]), "memory" if i % 3 else "tempfile", enc, att)
            gaps, ops, off = [], [], 0
            while sum(gaps) < limit - 1 and len(gaps) < 4:
                gaps.append(rng.choice([0.3, 1.1, 2.2, 3.3, 5.5, limit]))
            gaps = [min(g, limit - sum(gaps[:j])) for j, g in enumerate(gaps)]
            for g in gaps + [0]:
                n = 16 * rng.randrange(1, 300)
                ops.append(f"w={s.fd}:{n}:{seed}:0:{off}")
                off += n
                if g > 0:
                    ops.append(f"us={int(g * 1e6)}")
            specs[f"s{i}"] = sp(m, *ops, "exit=0", fds=[s.spec()])
            s.parts.append(pattern(off, seed, 0))
            streams[f"s{i}"] = (s, gaps)
        m.start(specs)
        for k, (s, gaps) in streams.items():
            r = m.wait_done(k, (limit + 20) * slack)
            check_stream(m, k, r, s)
            check_raw(m, k, s)
            ck.case(f"silences {gaps} {s.mode}", {"seconds of silence": gaps, "mode": s.mode})
            ck.seen("outputs with silences")


def batch(ck, rng, slack, output):
    """The same through --print and --output."""
    with Manager(ck, serve=False, spec={"specs": {}}, args=["--exit"]) as m0:
        m0.wait_exit(20 * slack)
    class M:
        probe = str(ck.probe)
    specs, todo = {}, {}
    for i in range(rng.choice([1, 4, 8])):
        spec, streams, desc = make_proc(M, rng, rng.randrange(1, 90000), i == 0 and rng.random() < 0.5)
        specs[f"p{i}"], todo[f"p{i}"] = spec, (streams, desc)
    out = ck.scratch / f"out{ck.next_uid()}"
    out.mkdir()
    os.chmod(out, 0o777)
    args = ["--output", out / "o.json"] if output else ["--print"]
    with Manager(ck, args, serve=False, spec={"specs": specs}) as m:
        rc = m.wait_exit(60 * slack)
        if rc != 0:
            raise Broken("exit-status", f"batch run exited {rc}: {m.stderr()[-300:]}")
        text = (out / "o.json").read_bytes() if output else m.stdout()
    res = json.loads(text)
    for k, (streams, desc) in todo.items():
        if res[k]["state"] != "terminated":
            raise Broken("state", f"{k}: {res[k]['state']} {res[k]['errors']}")
        for s in streams:
            check_stream(None, k, res[k], s, how="batch report")
        ck.case("batch " + desc)
        ck.seen("bytes-compared", sum(len(s.data()) for s in streams))


def main(ck):
    def make(i):
        r = ck.rng("make", i)
        if i == 2 or i % 60 == 50 and not ck.quick:
            return (f"silence#{i}", silence)
        c = i % 14
        if c == 13:
            return (f"trickle#{i}", trickle)
        if c == 10:
            return (f"lastwords-agent#{i}", last_words, True)
        if c == 11:
            return (f"lastwords#{i}", last_words, False)
        if c == 12:
            return (f"huge#{i}", huge)
        if c in (0, 1, 4, 6, 8):
            return (f"http#{i}", http, r.choice([1, 4, 10, 20]), ck.tier == "thorough" or i % 4 == 0)
        if c in (2, 7):
            return (f"killed#{i}", killed)
        if c in (3, 5):
            return (f"shared#{i}", shared)
        return (f"batch#{i}", batch, r.random() < 0.5)
    ck.run_many(make, workers=6, at_least=20)


if __name__ == "__main__":
    run_check("P02", "each case is one writer process with a random set of captured descriptors (mode, encoding, attachment), volumes "
              "around pipe-buffer boundaries, write chunking, descendants and way of ending; at the first result that shows it "
              "terminated, every stream is compared byte for byte with the position-coded pattern it wrote; distinct by that description",
              main, quick_s=18, thorough_s=300)
