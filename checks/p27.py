"""P27: the manager touches only memory and descriptors that are its own."""
import glob, os, re, subprocess, threading, time
from core import *
from mgr import *
from agentsrv import *
from p06 import Bed

ASAN = {"binary": None, "done": threading.Event(), "why": None}
TRIPLE = "x86_64-unknown-linux-gnu"


def build_asan(ck):
    """The same sources, with AddressSanitizer and the compiler's own checks of unsafe preconditions."""
    try:
        env = build_env()
        env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=str(BUILD / "asan"), RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes -Cforce-frame-pointers=yes")
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "procstar", "--target", TRIPLE], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=600)
        if r.returncode:
            ASAN["why"] = r.stdout.decode("utf-8", "replace")[-400:]
            return
        b = ck.scratch / "procstar-asan"
        install(BUILD / "asan" / TRIPLE / "debug" / "procstar", b)
        ASAN["binary"] = b
    except Exception as e:
        ASAN["why"] = repr(e)
    finally:
        ASAN["done"].set()


class Watch:
    """One way of watching a manager: how to start it, and what was seen."""
    def __init__(self, ck, how):
        self.ck, self.how, self.n = ck, how, ck.next_uid()
        self.dir = ck.scratch / f"watch{self.n}"
        self.dir.mkdir()
        os.chmod(self.dir, 0o777)
        self.kw = {"preload": True}
        self.slow = 1
        if how == "memcheck":
            # Its child processes are watched until they execute something.
            self.kw["wrapper"] = ["valgrind", "-q", "--tool=memcheck", "--trace-children=no", "--child-silent-after-fork=no", "--vgdb=no", "--error-limit=no", "--num-callers=30",
                                  "--redzone-size=64", "--freelist-vol=100000000", f"--log-file={self.dir}/vg.%p"]
            self.slow = 5
        elif how == "asan":
            self.kw["binary"] = ASAN["binary"]
            self.kw["extra_env"] = {"ASAN_OPTIONS": f"detect_leaks=0:log_path={self.dir}/asan:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:exitcode=97"}
            self.slow = 2
        elif how == "quarantine":
            self.kw.update(quarantine=True, nofile=16000)

    def judge(self, m, events=()):
        """Raises what the instrument saw."""
        for p in sorted(glob.glob(f"{self.dir}/vg.*")):
            text = open(p, errors="replace").read()
            lines = [re.sub(r"^==\d+== ?", "", l) for l in text.splitlines() if re.match(r"==\d+==", l)]
            # Blocks; our own interposer is not the manager.
            for block in "\n".join(lines).split("\n\n"):
                if not block.strip() or "Process terminating with default action of signal" in block:
                    continue
                first = block.strip().splitlines()[0]
                # What valgrind itself cannot do is no error of the manager's.
                if re.match(r"(FILE DESCRIPTORS|Open |Warning|execve\(|EXEC FAILED)", first):
                    continue
                where = next((w for w in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*)", block) if "procstar::" in w), "")
                raise Broken("memcheck", f"{first} {where}", block[:6000])
        for p in sorted(glob.glob(f"{self.dir}/asan*")):
            text = open(p, errors="replace").read()
            e = re.search(r"ERROR: (AddressSanitizer.*)", text)
            if e:
                where = next((w for w in re.findall(r" in (.*)", text) if "procstar" in w), "")
                raise Broken("asan", f"{e[1][:160]} {where[:160]}", text[:6000])
        for e in events:
            if e[2] == "badfd":
                raise Broken("descriptor", f"{e[3][0]} on descriptor {e[3][1]}, which had been closed, by the {'manager' if e[1] == m.pid else 'child process before it executed its program'}",
                             [x[1:] for x in events if x[1] in (m.pid, e[1]) and x[0] <= e[0]][-60:])
        err = m.stderr()
        for sign in ("unsafe precondition", "IO Safety", "free(): ", "malloc(): ", "malloc_consolidate", "munmap_chunk", "double free", "corrupted", "stack smashing", "buffer overflow detected",
                     "misaligned pointer", "null pointer dereference"):
            if sign in err:
                raise Broken("abort", err[-800:])
        rc = m.p.poll()
        if rc is not None and rc in (-11, -7, -6, -4, -8, 97):
            raise Broken("crash", f"manager ended by {rc}: {err[-600:]}")
        if "panicked at" in err:
            ck = self.ck
            ck.seen("panics (not a matter of memory)")
            if os.environ.get("VERIF_DEBUG"):
                print("PANIC", err[-1500:])


SIZES = [0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 200_000]


def spec_of(m, rng, d, bed, tag, ids):
    """A spec, of any kind."""
    k = rng.random()
    if k < 0.3:
        name, spec, _ = rng.choice(bed.bad(rng, f"{d}/mark"))
        return spec, name
    fds, desc, used = [], [], set()
    ops = []
    for _ in range(rng.choice([0, 1, 2, 3, 6, 12])):
        fd = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 50, 100, 255])
        if fd in used:
            continue
        used.add(fd)
        kind = rng.choice(["inherit", "close", "null", "file", "dup", "mem", "mem", "temp", "temp", "pw", "pr"])
        n = str(fd)
        if kind in ("inherit", "close"):
            fds.append([n, kind])
        elif kind == "null":
            fds.append([n, {"null": {"flags": rng.choice(["Default", "Read", "Write", "ReadWrite", "Append"])}}])
        elif kind == "file":
            fds.append([n, {"file": {"path": f"{d}/f{tag}-{fd}", "flags": rng.choice(["Default", "Write", "Create", "CreateAppend", "ReadWrite", "Read"]), "mode": rng.choice([0o600, 0o666, 0, 0o7777])}}])
        elif kind == "dup":
            fds.append([n, {"dup": {"fd": rng.choice([0, 1, 2, fd, fd - 1, *used])}}])
        elif kind == "pw":
            fds.append([n, "pipe-write"])
        elif kind == "pr":
            fds.append([n, {"pipe-read": {"proc_id": rng.choice([*ids, "nobody"]), "fd": rng.choice(["1", "stdout", n])}}])
        else:
            fds.append([n, cap({"mem": "memory", "temp": "tempfile"}[kind], rng.choice(["utf-8", None]), rng.random() < 0.7)])
            if rng.random() < 0.7:
                ops.append(f"w={fd}:{rng.choice(SIZES)}:{tag}:{rng.choice([0, 0, 128])}")
        desc.append(f"{fd}{kind}")
    env = rng.choice([None, {"inherit": rng.choice([True, False, ["PATH", "HOME", "NO"]])}, {"inherit": True, "vars": {f"V{i}": "é" * rng.randrange(300) for i in range(rng.choice([1, 30, 500]))}}, {"vars": {"": "x", "A=B": "y"}}])
    args = ["x" * rng.choice([0, 1, 7, 8, 15, 16, 4095, 100_000]) for _ in range(rng.choice([0, 1, 3, 100]) if rng.random() < 0.5 else 0)][:100]
    while sum(map(len, args)) > 1_000_000:
        args.pop()
    end = rng.choice(["exit=0", "exit=7", "pause", "us=30000", "raise=11", "x"])
    if end == "raise=11":
        ops.insert(0, "core=0")
    return sp(m, "ign=13", *ops, end, *args, fds=fds, env=env), f"{' '.join(desc)} {end}"


FAULTS = [("fork", [11, 12]), ("pipe", [24, 23]), ("mkstemp", [24, 28, 17]), ("open", [4, 24, 12]), ("unlink", [13, 2]), ("wait4", [4]), ("read", [4, 5, 11]), 
          ("accept", [24, 103]), ("pread", [4, 5, 1000]), ("pread", [1000]), ("kill", [1, 3])]
CHILD = [("dup2", [9, 16, 4]), ("open", [4, 13]), ("execve", [2, 12, 26]), ("setsid", [1]), ("write", [4, 32])]
RAW = ["POST /procs HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 5\r\n\r\n{\"a\":", "GET /procs\0 HTTP/1.1\r\n\r\n", "\r\n\r\n", "\0" * 100, "GET /" + "a" * 70000 + " HTTP/1.1\r\n\r\n",
       "POST /procs HTTP/1.1\r\nHost: x\r\nContent-Length: 18446744073709551615\r\n\r\n", "GET /procs/%00 HTTP/1.1\r\nHost: x\r\n\r\n", "GET /procs/%ff%fe/output/1/data HTTP/1.1\r\nHost: x\r\n\r\n",
       "GET /procs HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\r\n"]
NUMS = [0, 1, 5, 4096, 65536, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1]


def quiet(fn, *a, **kw):
    """Whatever the answer, or that there is none: other checks judge it."""
    try:
        return fn(*a, **kw)
    except (Broken, Hang, Inconclusive, OSError, Closed, *SHAPE):
        return None


def session(ck, rng, slack, how, use_agent):
    w = Watch(ck, how)
    srv = AgentServer() if use_agent else None
    args = []
    seed = rng.randrange(1 << 30)
    if srv:
        # A host name of the greatest length.
        kw = {**w.kw, "extra_env": {**w.kw.get("extra_env", {}), "VI_HOST": "h" * rng.choice([64, 64, 63, 9])}}
        m = agent(ck, srv, serve=True, seed=seed, ready_timeout=60 * w.slow * slack, **kw)
    else:
        m = Manager(ck, args, seed=seed, ready_timeout=60 * w.slow * slack, **w.kw)
    T = 12 * slack          # nothing that takes longer is judged here
    try:
        with m:
            os.chmod(m.dir, 0o777)
            bed = Bed(m)
            c = None
            if srv:
                c = quiet(srv.wait_conn, 0, timeout=T)
            ids, used = [], []
            steps = {"quarantine": 60, "asan": 50, "memcheck": 25}[how]
            for step in range(steps):
                if not m.alive():
                    break
                k = rng.random()
                if k < 0.3:
                    new = [f"p{step}-{i}" for i in range(rng.choice([1, 1, 2, 5]))]
                    specs, names = {}, []
                    for p in new:
                        specs[p], n = spec_of(m, rng, m.dir, bed, step * 10 + len(names), new)
                        names.append(n)
                    if c and rng.random() < 0.5:
                        quiet(c.send, "ProcStartRequest", specs=specs)
                    else:
                        quiet(m.post, specs, timeout=T)
                    ids += new
                    used += names
                    for n in names:
                        ck.case(f"{how}: {n}", {"watched by": how, "spec": n})
                elif k < 0.5 and ids:
                    p = rng.choice(ids)
                    fd = rng.choice(["stdout", "1", "stderr", "2", "3", "4", "7", "9", "100", "77777777777777", "-1", "x"])
                    h = {}
                    if rng.random() < 0.8:
                        a, b = rng.choice(NUMS), rng.choice(NUMS)
                        h["Range"] = rng.choice([f"bytes={a}-{b}", f"bytes={min(a, b)}-{max(a, b)}", f"bytes={a}-", f"bytes={min(a, 5)}-{min(b, 9)}"])
                    quiet(m.data, p, fd, headers=h, timeout=T)
                    if c and rng.random() < 0.5:
                        quiet(c.send, "ProcFdDataRequest", proc_id=p, fd=fd, start=rng.choice(NUMS), stop=rng.choice([None, *NUMS]))
                elif k < 0.62 and ids:
                    quiet(m.signal, rng.choice(ids), rng.choice([0, 1, 9, 15, 15, 18, 19, 64, 65, 31, 2**31, "SIGKILL", "SIGTERM", "x"]), timeout=T)
                elif k < 0.72 and ids:
                    p = rng.choice(ids)
                    if rng.random() < 0.5:
                        quiet(m.signal, p, 9, timeout=T)
                    r = quiet(m.delete, p, timeout=T)
                    if r and r.status == 200:
                        ids.remove(p)
                elif k < 0.82:
                    quiet(m.list, timeout=T)
                    if ids:
                        quiet(m.get, rng.choice(ids), timeout=T)
                    if c:
                        quiet(c.send, rng.choice(["ProcidListRequest", "Nonsense"]))
                        if ids:
                            quiet(c.send, rng.choice(["ProcResultRequest", "ProcDeleteRequest"]), proc_id=rng.choice(ids))
                elif k < 0.93:
                    child = rng.random() < 0.4
                    site, errs = rng.choice(CHILD if child else FAULTS)
                    m.ctl.fail(site, rng.choice(errs), rng.choice([0, 0, 1, 3]), child=child)
                    ck.seen("faults armed")
                elif k < 0.97:
                    def raw():
                        s = socket.create_connection(("127.0.0.1", m.port), 5)
                        s.sendall(rng.choice(RAW).encode("latin-1"))
                        s.settimeout(0.3)
                        s.recv(100)
                        s.close()
                    quiet(raw)
                elif c:
                    i = len(srv.conns)
                    quiet(c.drop)
                    c = quiet(srv.wait_conn, i, timeout=T)
                else:
                    m.ctl.short("read", rng.choice([1, 2, 7]))
                    quiet(m.list, timeout=T)
                    m.ctl.short("read", 0)
                ck.seen(f"steps under {how}")
            for site, _ in FAULTS:
                m.ctl.disarm(site)
            for site, _ in CHILD:
                m.ctl.disarm(site, child=True)
            # Ends of processes and of the manager.
            for p in ids:
                quiet(m.signal, p, 9, timeout=T)
            if m.alive():
                quiet(wait_for, lambda: all(x["state"] != "running" for x in m.list(timeout=T).values()), T, "end")
            for p in ids[: len(ids) // 2]:
                quiet(m.delete, p, timeout=T)
            quiet(m.list, timeout=T)
            if m.alive():
                if c and rng.random() < 0.5:
                    quiet(c.send, "ShutDownRequest")
                    for p in ids:
                        quiet(m.delete, p, timeout=T)
                m.p.send_signal(rng.choice([2, 15, 3]))
                quiet(m.wait_exit, 10 + T)
            ev = m.events()
            for e in ev:
                if e[2] in ("fork", "reap", "execve", "mkstemp", "inject", "kill"):
                    ck.seen(f"{how}: {e[2]}")
            w.judge(m, ev)
            if not ev:
                raise Inconclusive("nothing was logged")
    finally:
        if srv:
            srv.close()


def reads(ck, rng, slack, how):
    """Captured data read in every way while the files change under the manager."""
    w = Watch(ck, how)
    T = 12 * slack
    with Manager(ck, seed=rng.randrange(1 << 30), ready_timeout=60 * w.slow * slack, **w.kw) as m:
        os.chmod(m.dir, 0o777)
        modes = [(rng.choice(["tempfile", "tempfile", "memory"]), rng.choice(["utf-8", None]), rng.random() < 0.8, rng.choice([1, 100, 4096, 65537, 300_000])) for _ in range(4)]
        quiet(m.post, {f"r{i}": sp(m, f"w=1:{n}:{i + 1}:{rng.choice([0, 128])}", *([f"trunc=1:{rng.choice([0, 1, n // 2, n * 2])}"] if mode == "tempfile" and rng.random() < 0.3 else []),
                                   rng.choice(["exit=0", "pause"]), fds=[["1", cap(mode, enc, att)]]) for i, (mode, enc, att, n) in enumerate(modes)}, timeout=T)
        quiet(wait_for, lambda: m.list(timeout=T), T, "")
        for _ in range(25):
            k = f"r{rng.randrange(4)}"
            f = rng.random()
            if f < 0.5:
                m.ctl.fail("pread", rng.choice([1000, 1000, 4, 5]), rng.choice([0, 0, 1, 2]))
            elif f < 0.8:
                m.ctl.short("pread", rng.choice([97, 1000, 4096, 0]) if rng.random() < 0.8 else 0)
            x = rng.random()
            if x < 0.4:
                quiet(m.get, k, timeout=T)
            elif x < 0.5:
                quiet(m.list, timeout=T)
            else:
                a, b = rng.choice(NUMS), rng.choice(NUMS)
                quiet(m.data, k, "1", headers=rng.choice([{}, {"Range": f"bytes={a}-{b}"}, {"Range": f"bytes={a}-"}]), timeout=T)
            m.ctl.disarm("pread")
            ck.seen(f"reads under {how}")
        m.ctl.short("pread", 0)
        # The usage and status of what is killed.
        for k in range(4):
            quiet(m.signal, f"r{k}", rng.choice([9, 15]), timeout=T)
        quiet(wait_for, lambda: all(x["state"] != "running" for x in m.list(timeout=T).values()), T, "")
        ck.case(f"{how} reads {sorted(modes, key=str)}", {"watched by": how, "captures read": str(modes)})
        m.p.send_signal(3)
        quiet(m.wait_exit, 10 + T)
        w.judge(m, m.events())


def batch(ck, rng, slack, how):
    """Without a service: an input file, results printed or written."""
    w = Watch(ck, how)
    kind = rng.choice(["print", "output", "exit", "garbage", "restrict", "missing"])
    T = 12 * slack

    class M:
        probe, dir, out_path, err_path = str(ck.probe), ck.scratch, "", ""
    d = w.dir
    bed_dir = d / "bed"
    bed_dir.mkdir()
    os.chmod(bed_dir, 0o777)
    M.dir = bed_dir
    bed = Bed(M)
    specs = {}
    for i in range(rng.choice([0, 1, 4, 12])):
        s, n = spec_of(M, rng, bed_dir, bed, i, [f"q{j}" for j in range(4)])
        s["argv"] = [a if a != "pause" else "exit=3" for a in s["argv"]]
        specs[f"q{i}"] = s
        ck.case(f"{how} batch {kind}: {n}", {"watched by": how, "batch": kind, "spec": n})
    spec = {"specs": specs} if kind != "garbage" else rng.choice([b"", b"{", b"\xff\xfe", b"[" * 100, b'{"specs": {"a": {"argv": []}}}', b'{"specs": 1}'])
    args = {"print": ["--print"], "output": ["--output", f"{d}/out.json"], "exit": ["--exit"], "garbage": ["--exit"], "restrict": ["--exit", "--restrict-exe", M.probe], "missing": ["--exit", "/no/such/input"]}[kind]
    with Manager(ck, args, serve=False, spec=None if kind == "missing" else spec, seed=rng.randrange(1 << 30), **w.kw) as m:
        quiet(m.wait_exit, T)
        # Pipes without a partner may leave processes waiting.
        ev = m.events()
        w.judge(m, ev)
        ck.case(f"{how} batch {kind}")
        ck.seen(f"batches under {how}")


def main(ck):
    threading.Thread(target=build_asan, args=(ck,), daemon=True).start()
    plan = [("reads", "memcheck"), ("session", "memcheck", False), ("session", "memcheck", True), ("session", "quarantine", False), ("session", "quarantine", True), ("batch", "memcheck"), ("session", "memcheck", False),
            ("batch", "quarantine"), ("session", "quarantine", True), ("batch", "memcheck"), ("session", "memcheck", True), ("session", "quarantine", False), ("batch", "memcheck")]
    first = threading.Event()

    def item(i, x):
        return (f"{'-'.join(map(str, x[:2]))}#{i}", {"session": session, "batch": batch, "reads": reads}[x[0]], *x[1:])

    def make(i):
        if i < len(plan):
            return item(i, plan[i])
        rng = ck.rng("plan", i)
        return item(i, rng.choice([("session", rng.choice(["memcheck", "quarantine"]), rng.random() < 0.4), ("batch", rng.choice(["memcheck", "quarantine"])), ("reads", rng.choice(["memcheck", "memcheck", "quarantine"]))]))
    ck.run_many(make, workers=7, at_least=len(plan))
    if ck.violations:
        return
    ASAN["done"].wait(620)
    if not ASAN["binary"]:
        ck.inconclusive.append(f"no AddressSanitizer build: {ASAN['why']}")
        return
    plan2 = [("reads", "asan"), ("session", "asan", False), ("session", "asan", True), ("batch", "asan"), ("session", "asan", False), ("session", "asan", True), ("batch", "asan")]
    end = time.monotonic() + ck.budget_s / 2
    ck.budget_s = end - ck.t0

    def make2(i):
        if i < len(plan2):
            return item(1000 + i, plan2[i])
        rng = ck.rng("plan2", i)
        return item(1000 + i, rng.choice([("session", "asan", rng.random() < 0.4), ("batch", "asan"), ("reads", "asan")]))
    ck.run_many(make2, workers=7, at_least=len(plan2) * 2)


if __name__ == "__main__":
    run_check("P27", "one process specification (descriptors, environment, arguments, how it ends or fails) run in a random session of requests, signals, deletions, agent messages and injected faults while the manager "
              "is watched by memcheck, by AddressSanitizer or with every closed descriptor number quarantined; distinct by instrument and specification", main, quick_s=20, thorough_s=300)
