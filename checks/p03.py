"""P03: watching a running process never disturbs its captured output."""
import struct, threading, time
from core import *
from mgr import *
from agentsrv import *

TARGET_BYTES = [3_000_000, 800_000, 200_000]


def cells(path):
    try:
        with open(path, "rb") as f:
            b = f.read(16)
        return struct.unpack("<QQ", b) if len(b) == 16 else (0, 0)
    except OSError:
        return 0, 0


class Watched:
    """One writer and everything seen of it so far."""
    def __init__(self, pid, fd, mode, enc, attached, total, seed, led, mask=0):
        self.pid, self.fd, self.mode, self.enc, self.attached = pid, fd, mode, enc, attached
        self.total, self.seed, self.led, self.mask = total, seed, led, mask
        self.name = {0: "stdin", 1: "stdout", 2: "stderr"}.get(fd, str(fd))
        self.full = pattern(total, seed, mask)
        self.lock = threading.Lock()
        self.longest = 0            # longest snapshot whose reply has arrived
        self.snaps = 0
        self.mid = 0

    def desc(self):
        return f"{self.fd}:{self.mode}{'/text' if self.enc else '/bin'}{'/att' if self.attached else '/det'} {self.total}"

    def observe(self, how, get):
        """get() -> (length, bytes or None, state or None)."""
        with self.lock:
            floor = self.longest
        n, data, state = get()
        _, hi = cells(self.led)
        what = f"{self.pid} ({self.desc()}) by {how}"
        if n > hi:
            raise Broken("ahead", f"{what}: snapshot of {n} bytes when at most {hi} had been written")
        if data is not None and data != self.full[:n]:
            raise Broken("not-a-prefix", f"{what}: {diff_at(data, self.full[:n])}")
        if n < floor:
            raise Broken("shrank", f"{what}: snapshot of {n} bytes after one of {floor}")
        with self.lock:
            self.longest = max(self.longest, n)
            self.snaps += 1
            if 0 < n < self.total:
                self.mid += 1
        return n, state


def from_result(w, r):
    if r is None:
        raise Broken("record-lost", f"record of {w.pid} vanished")
    f = r["fds"][w.name]
    if not w.attached:
        if f["type"] != "detached":
            raise Broken("fd-type", f"{w.pid}: {f}")
        return f["length"], None, r["state"]
    b = fd_bytes(f)
    return len(b), b, r["state"]


def o_result(m, c, w):
    return "HTTP result", lambda: from_result(w, m.get(w.pid))


def o_list(m, c, w):
    return "HTTP list", lambda: from_result(w, m.list()[w.pid])


def o_raw(m, c, w):
    def get():
        d = m.data(w.pid, w.name)
        if d.status != 200:
            raise Broken("raw-status", f"{w.pid}: raw data {d.status} {d.body[:100]!r}")
        return len(d.body), d.body, None
    return "HTTP raw data", get


def o_agent_result(m, c, w):
    def get():
        r = c.request("ProcResultRequest", lambda x: x["type"] == "ProcResult" and x["proc_id"] == w.pid, 60, proc_id=w.pid)
        f = r["res"]["fds"][w.name]
        if not w.attached:
            return f["length"], None, r["res"]["state"]
        t = f["text"].encode() if f["type"] == "text" else f["data"] if isinstance(f["data"], bytes) else base64.b64decode(f["data"])
        return len(t), t, r["res"]["state"]
    return "agent result", get


def o_agent_data(m, c, w):
    def get():
        r = c.request("ProcFdDataRequest", lambda x: x["type"] == "ProcFdData" and x["proc_id"] == w.pid, 60,
                      proc_id=w.pid, fd=w.name, start=0, stop=None)
        return len(r["data"]), bytes(r["data"]), None
    return "agent data", get


def o_agent_range(m, c, w):
    """A range read: its bytes must be right; only its end says something about length."""
    def get():
        lo = cells(w.led)[0]
        start = random.randrange(lo + 1)
        r = c.request("ProcFdDataRequest", lambda x: x["type"] == "ProcFdData" and x["proc_id"] == w.pid, 60,
                      proc_id=w.pid, fd=w.name, start=start, stop=start + 70000)
        d = bytes(r["data"])
        if w.full[start : start + len(d)] != d:
            raise Broken("range-bytes", f"{w.pid} ({w.desc()}) range from {start}: {diff_at(d, w.full[start:start+len(d)])}")
        with w.lock:
            keep = w.longest
        return max(keep, start + len(d) if d else 0), None, None
    return "agent range", get


def o_pipelined(m, c, w):
    """The result and the data, asked for in one go: as though at one moment."""
    def get():
        import socket
        first = f"GET /procs/{w.pid} HTTP/1.1\r\nHost: x\r\n\r\n"
        with socket.create_connection(("127.0.0.1", m.port), 60) as s:
            s.sendall((first + f"GET /procs/{w.pid}/output/{w.name}/data HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n").encode())
            buf = b""
            while True:
                d = s.recv(1 << 18)
                if not d:
                    break
                buf += d
        docs = []
        while buf:
            head, _, rest = buf.partition(b"\r\n\r\n")
            n = next(int(l.split(b":")[1]) for l in head.split(b"\r\n") if l.lower().startswith(b"content-length"))
            docs.append((int(head.split()[1]), rest[:n]))
            buf = rest[n:]
        if [s for s, _ in docs] != [200, 200]:
            raise Broken("raw-status", f"{w.pid}: pipelined: {[(s, b[:100]) for s, b in docs]}")
        n, _, state = from_result(w, json.loads(docs[0][1])["data"]["procs"][w.pid])
        data = docs[1][1]
        if len(data) < n:
            raise Broken("shrank", f"{w.pid} ({w.desc()}): a result of {n} bytes, the data asked for with it {len(data)}")
        return len(data), data, None
    return "HTTP result and raw data together", get


HTTP_OBS = [o_result, o_list, o_raw, o_pipelined]
AGENT_OBS = [o_agent_result, o_agent_data, o_agent_range]


def make_watched(m, rng, i, total, wait=None):
    mode = rng.choice(["memory", "tempfile", "tempfile"])
    fd = rng.choice([1, 2, 3, 7, 50])
    enc = rng.choice([None, "utf-8"])
    w = Watched(f"w{i}", fd, mode, enc, rng.random() < 0.7, total, rng.randrange(1, 90000), m.dir / f"led{i}",
                0 if enc else rng.choice([0, 0, 77]))
    ops = [f"chunk={rng.choice([0, 700, 4096, 65536])}"]
    if rng.random() < 0.8:
        ops.append(f"jitterus={rng.choice([100, 500, 2000])}")
    spec = sp(m, *ops, f"wlog={fd}:{total}:{w.seed}:{w.mask}:{w.led}", *([f"waitfile={wait}"] if wait else []),
              rng.choice(["exit=0", "exit=5", "kill=15"]),
              fds=[[w.name, cap(mode, enc, w.attached)]])
    return w, spec


def watch(ck, rng, slack, nproc, use_agent, hammer):
    """Writers polled continuously by several observers at once."""
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    try:
        with m:
            c = srv.wait_conn(0) if srv else None
            dist = rng.randrange(4)
            if dist == 1:
                m.ctl.short("read", rng.choice([500, 4096]))
            elif dist == 2:
                m.ctl.delay("pread", 1500, 400)
            elif dist == 3:
                m.ctl.delay("epoll", 2000, 400)
            ws, specs = [], {}
            for i in range(nproc):
                w, spec = make_watched(m, rng, i, rng.choice(TARGET_BYTES))
                ws.append(w)
                specs[w.pid] = spec
            errs = []
            over = threading.Event()

            def poll(seed):
                r = random.Random(seed)
                try:
                    while not over.is_set():
                        w = r.choice(ws)
                        how, get = r.choice(HTTP_OBS)(m, None, w)
                        w.observe(how, get)
                        if not hammer:
                            time.sleep(r.random() * 0.02)
                except BaseException as e:
                    errs.append(e)
                    over.set()

            def poll_agent(seed):
                r = random.Random(seed)
                try:
                    for w in ws:        # the unprompted start results must not be taken for replies
                        c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == w.pid, 20 * slack, what="start result")
                    while not over.is_set():
                        w = r.choice(ws)
                        how, get = r.choice(AGENT_OBS)(m, c, w)
                        w.observe(how, get)
                except BaseException as e:
                    errs.append(e)
                    over.set()

            m.start(specs)
            ts = [threading.Thread(target=poll, args=(rng.random(),), daemon=True) for _ in range(3)]
            if c:
                ts.append(threading.Thread(target=poll_agent, args=(rng.random(),), daemon=True))
            for t in ts:
                t.start()
            end = time.monotonic() + 90 * slack
            left = {w.pid: w for w in ws}
            while left and not errs:
                if time.monotonic() > end:
                    over.set()
                    raise Hang(f"watched writers end: {list(left)}")
                for k in list(left):
                    w = left[k]
                    r = m.get(k)
                    if r["state"] == "running":
                        continue
                    del left[k]
                    if r["state"] != "terminated" or r["status"]["exit_code"] == 99:
                        raise Broken("state", f"{k} ({w.desc()}): {r['state']} {r['errors']} {r['status']}")
                    n, b, _ = from_result(w, r)
                    if n != w.total or (b is not None and b != w.full):
                        raise Broken("final", f"{k} ({w.desc()}) after {w.snaps} snapshots: "
                                     + (diff_at(b, w.full) if b is not None else f"length {n}, wrote {w.total}"))
                time.sleep(0.003)
            over.set()
            for t in ts:
                t.join(60)
            if errs:
                raise errs[0]
            for w in ws:
                d = m.data(w.pid, w.name).body
                if d != w.full:
                    raise Broken("final", f"{w.pid} ({w.desc()}) raw after {w.snaps} snapshots: {diff_at(d, w.full)}")
                ck.seen("snapshots", w.snaps)
                ck.seen("snapshots while output was partial", w.mid)
                if w.mid:
                    ck.case(f"{w.desc()} dist{dist} agent{bool(c)} {nproc}", {"writer": w.desc(), "snapshots": w.snaps, "partial": w.mid})
    finally:
        if srv:
            srv.close()


def stepped(ck, rng, slack, use_agent):
    """The writer pauses; what it wrote so far becomes visible, exactly, and stays."""
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True) if use_agent else Manager(ck)
    try:
        with m:
            c = srv.wait_conn(0) if srv else None
            mode, enc, att = rng.choice(["memory", "tempfile"]), rng.choice([None, "utf-8"]), rng.random() < 0.7
            fd = rng.choice([1, 2, 4])
            w = Watched("s", fd, mode, enc, att, 0, rng.randrange(1, 90000), m.dir / "none")
            ops, sizes, off = ["chunk=0"], [], 0
            few = rng.random() < 0.5
            for i in range(12):
                n = rng.choice([1, 10, 4096, 65536, 65537, 150000]) if few else int(2 ** rng.uniform(0, 13))
                ops += [f"w={fd}:{n}:{w.seed}:0:{off}", f"touch={m.dir}/at{i}", f"waitfile={m.dir}/go{i}"]
                off += n
                sizes.append(off)
            w.total, w.full = off, pattern(off, w.seed)
            os.chmod(m.dir, 0o777)
            m.start({"s": sp(m, *ops, "exit=0", fds=[[w.name, cap(mode, enc, att)]])})
            obs = HTTP_OBS + (AGENT_OBS[:2] if c else [])
            if c:
                c.wait(lambda x: x["type"] == "ProcResult", 20 * slack, what="start result")
            for i, n in enumerate(sizes):
                # Watch during the step, too.
                end = time.monotonic() + 30 * slack
                while not (m.dir / f"at{i}").exists():
                    if time.monotonic() > end:
                        raise Hang(f"writer reaches step {i}")
                    how, get = rng.choice(obs)(m, c, w)
                    ln, b, _ = get()
                    if ln > n or (b is not None and b != w.full[:ln]):
                        raise Broken("not-a-prefix", f"{w.desc()} by {how} in step {i}: {ln} of {n}")
                for o in rng.sample(obs, len(obs)):
                    how, get = o(m, c, w)

                    def see():
                        ln, b, st = get()
                        if ln > n or (b is not None and b != w.full[:ln]):
                            raise Broken("not-a-prefix", f"{w.desc()} by {how} at step {i}: {ln} bytes, wrote {n}")
                        if st not in (None, "running"):
                            raise Broken("state", f"paused writer is {st}")
                        return ln == n
                    wait_for(see, 8 * slack, f"{n} bytes written by a pausing process visible by {how} ({w.desc()})")
                    # And a second look is the same.
                    if not see():
                        raise Broken("shrank", f"{w.desc()} by {how}: fewer than {n} bytes on a second look")
                    ck.seen("pauses observed")
                (m.dir / f"go{i}").touch()
            r = m.wait_done("s", 30 * slack)
            ln, b, _ = from_result(w, r)
            if ln != off or (b is not None and b != w.full):
                raise Broken("final", f"{w.desc()}: {diff_at(b, w.full) if b is not None else ln}")
            if m.data("s", w.name).body != w.full:
                raise Broken("final", f"{w.desc()} raw data after the end")
            ck.case(f"stepped {w.desc()} {sizes} {use_agent}")
    finally:
        if srv:
            srv.close()


def rewriter(ck, rng, slack):
    """A process that moves about in its own output file: being watched doesn't
    move it, and everyone sees the file as it stands."""
    with Manager(ck) as m:
        enc, att, fd = rng.choice([None, "utf-8"]), rng.random() < 0.5, rng.choice([1, 2, 6])
        w = Watched("r", fd, "tempfile", enc, att, 0, rng.randrange(1, 90000), m.dir / "none")
        os.chmod(m.dir, 0o777)
        ops, states, cur, pos = ["chunk=65536"], [], bytearray(), 0
        for i in range(10):
            if cur and rng.random() < 0.6:
                pos = rng.choice([0, rng.randrange(len(cur) + 1), len(cur) // 2])
                ops.append(f"lseek={fd}:{pos}")
                if rng.random() < 0.3:
                    del cur[pos:]
                    ops.append(f"trunc={fd}:{pos}")
                # Watched between the move and the write, too.
                ops += [f"touch={m.dir}/at{i}m", f"waitfile={m.dir}/go{i}m"]
                states.append((f"{i}m", bytes(cur)))
            n = rng.choice([1, 16, 1000, 4096, 70000])
            ops += [f"w={fd}:{n}:{w.seed + i}:0", f"touch={m.dir}/at{i}", f"waitfile={m.dir}/go{i}"]
            cur[pos : pos + n] = pattern(n, w.seed + i)
            pos += n
            states.append((str(i), bytes(cur)))
        m.start({"r": sp(m, *ops, "exit=0", fds=[[w.name, cap("tempfile", enc, att)]])})
        for tag, want in states:
            wait_for(lambda: (m.dir / f"at{tag}").exists(), 30 * slack, f"writer reaches step {tag}")
            for o in rng.choices(HTTP_OBS, k=4):
                how, get = o(m, None, w)
                ln, b, st = get()
                if ln != len(want) or (b is not None and b != want):
                    raise Broken("not-the-file", f"{w.desc()} by {how} at step {tag}: " + (diff_at(b, want) if b is not None else f"length {ln}, is {len(want)}"))
                ck.seen("pauses observed")
            (m.dir / f"go{tag}").touch()
        r = m.wait_done("r", 30 * slack)
        ln, b, _ = from_result(w, r)
        d = m.data("r", w.name).body
        if d != bytes(cur) or ln != len(cur) or (b is not None and b != d):
            raise Broken("final", f"{w.desc()} rewriting its output: {diff_at(d, bytes(cur))}, result length {ln}")
        ck.case(f"rewriter {fd} {enc} {att} {[len(x) for _, x in states]}")


def text(ck, rng, slack):
    """Multi-byte text cut anywhere: a text snapshot decodes some prefix."""
    with Manager(ck) as m:
        enc = rng.choice([None, "utf-8"])
        mode = rng.choice(["memory", "tempfile"])
        data = "".join(rng.choice(["é", "€", "𝄞", "x", "\n", "ß", "日本"]) for _ in range(120)).encode()
        data += rng.choice([b"", b"\xff\xfe", b"\xe2\x82", b"\xf0\x9f", b"\xc3"])
        ops, i = [], 0
        while i < len(data):
            n = rng.choice([1, 1, 2, 3, 5])
            ops += [f"wh=1:{data[i:i+n].hex()}", "us=1500"]
            i += n
        allowed = {data[:n].decode("utf-8", "replace"): n for n in range(len(data) + 1)}
        m.start({"t": sp(m, *ops, fds=[["stdout", cap(mode, enc, True)]])})
        last, seen, end = 0, set(), time.monotonic() + 40 * slack
        raw = b""
        while True:
            r = m.get("t")
            if enc:
                t = r["fds"]["stdout"]["text"]
            else:
                b = fd_bytes(r["fds"]["stdout"])
                if not data.startswith(b):
                    raise Broken("not-a-prefix", f"binary {mode}: {diff_at(b, data[:len(b)])}")
                t = b.decode("utf-8", "replace")
            if (allowed.get(t, len(data)) if enc else len(b)) < len(raw):
                raise Broken("shrank", f"{mode} {enc}: result of {len(t)} characters after raw data of {len(raw)} bytes")
            raw = m.data("t", "stdout").body
            if not data.startswith(raw):
                raise Broken("not-a-prefix", f"raw {mode}: {diff_at(raw, data[:len(raw)])}")
            if t not in allowed:
                raise Broken("text-snapshot", f"{mode}: {t[-40:]!r} is no decoding of a prefix of the output")
            n = len(data[: allowed[t]].decode("utf-8", "ignore"))
            if n < last:
                raise Broken("shrank", f"text snapshot of {n} characters after one of {last}")
            last = n
            seen.add(t)
            if r["state"] != "running":
                break
            if time.monotonic() > end:
                raise Hang("text writer ends")
        if t != data.decode("utf-8", "replace"):
            raise Broken("final", f"text {mode}: {t[-60:]!r}")
        ck.seen("distinct text snapshots", len(seen))
        ck.case(f"text {mode} {enc} {len(ops)} {data[-2:].hex()}")


def twins(ck, rng, slack):
    """A watched process and an identical unwatched one end alike."""
    with Manager(ck) as m:
        mode = rng.choice(["memory", "tempfile"])
        seed, n = rng.randrange(1, 90000), rng.choice([300_000, 1_500_000])
        # Writes at both ends: stdout and stderr share one file; a child writes too.
        ops = ["chunk=3000", "jitterus=300", f"w=1:{n//3}:{seed}:0:0", "fork{", f"w=2:{n//3}:{seed}:0:{n//3}", "}", "wait",
               f"w=1:{n - 2*(n//3)}:{seed}:0:{2*(n//3)}", "exit=4"]
        fds = [["stdout", cap(mode, None, True)], ["stderr", {"dup": {"fd": 1}}]]
        m.start({"watched": sp(m, *ops, fds=fds), "alone": sp(m, *ops, fds=fds)})
        full = pattern(n, seed)
        k, end = 0, time.monotonic() + 60 * slack
        while True:
            how = rng.randrange(3)
            if how == 0:
                d = m.data("watched", "stdout").body
            else:
                r = m.get("watched")
                d = fd_bytes(r["fds"]["stdout"])
                if r["state"] != "running":
                    break
            k += 1
            if d != full[: len(d)]:
                raise Broken("not-a-prefix", f"{mode} shared by two descriptors: {diff_at(d, full[:len(d)])}")
            if time.monotonic() > end:
                raise Hang("watched twin ends")
        if d != full:
            raise Broken("final", f"watched {mode} {k} times: {diff_at(d, full)}")
        a = m.wait_done("alone", 60 * slack)
        if fd_bytes(a["fds"]["stdout"]) != full:
            raise Broken("final", f"unwatched {mode}: {diff_at(fd_bytes(a['fds']['stdout']), full)}")
        if a["status"]["status"] != r["status"]["status"]:
            raise Broken("status", f"{a['status']} {r['status']}")
        ck.seen("snapshots", k)
        ck.case(f"twins {mode} {n} {k // 10}")


def main(ck):
    def make(i):
        r = ck.rng("make", i)
        c = i % 9
        if c == 8:
            return (f"rewriter#{i}", rewriter)
        if c in (0, 3, 6):
            return (f"watch#{i}", watch, r.choice([1, 2, 4]), False, c == 0)
        if c == 1:
            return (f"watch-agent#{i}", watch, r.choice([1, 3]), True, r.random() < 0.5)
        if c in (2, 5):
            return (f"stepped#{i}", stepped, i % 16 > 7 or c == 5)
        if c == 4:
            return (f"text#{i}", text)
        return (f"twins#{i}", twins)
    ck.run_many(make, workers=5, at_least=16)


if __name__ == "__main__":
    run_check("P03", "each case is one writer (capture kind, volume, write pattern) polled while its output was partial, by HTTP result, list, raw "
              "data and agent requests concurrently; every snapshot is checked to be a prefix, within what was written, not shorter than "
              "any snapshot already received; pausing writers must become fully visible; final output must be whole",
              main, quick_s=18, thorough_s=300)
