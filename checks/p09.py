"""P09: descriptors attached to files follow their open flags and mode."""
import errno, os, stat, time
from core import *
from mgr import *
from agentsrv import *

FLAGS = {  # acc, creat, excl, trunc, append
    "Read": ("r", 0, 0, 0, 0), "Write": ("w", 1, 0, 1, 0), "Create": ("w", 1, 1, 0, 0), "Replace": ("w", 0, 0, 1, 0),
    "Append": ("w", 0, 0, 0, 1), "CreateAppend": ("w", 1, 0, 0, 1), "ReadWrite": ("rw", 1, 0, 1, 0)}
STATES = ["absent", "empty", "content", "big", "dir", "readonly", "writeonly", "symlink", "dangling", "in-readonly-dir", "content", "absent"]
ACC = {"r": 0, "w": 1, "rw": 2}


def semantics(flag, fd):
    if flag == "Default":
        return FLAGS["Read"] if fd == 0 else FLAGS["Write"] if fd in (1, 2) else FLAGS["ReadWrite"]
    return FLAGS[flag]


class Case:
    def __init__(self, m, rng, d, i, umask):
        self.i, self.m = i, m
        self.flag = rng.choice(["Default", *FLAGS])
        self.fd = rng.choice([0, 1, 2, 3, 4, 9, 77])
        self.state = rng.choice(STATES)
        self.mode = rng.choice([None, 0o666, 0o600, 0o644, 0o777, 0o640, 0o400, 0o222, 0, 0o755, 0o1644, 0o1777])
        self.umask = umask
        self.acc, self.creat, self.excl, self.trunc, self.append = semantics(self.flag, self.fd)
        self.dir = d / f"c{i}"
        self.dir.mkdir()
        os.chmod(self.dir, 0o777)
        self.path = self.target = self.dir / rng.choice(["file", "a b", "é", "-", "x\ny"])
        seed = rng.randrange(1, 90000)
        self.old = pattern({"content": rng.choice([1, 30, 5000]), "big": 150_000, "symlink": 40, "readonly": 50, "writeonly": 50}.get(self.state, 0), seed)
        self.exists = self.state in ("empty", "content", "big", "readonly", "writeonly", "symlink")
        if self.state == "symlink":
            self.target = self.dir / "real"
            self.path.symlink_to(rng.choice(["real", str(self.target)]))
        elif self.state == "dangling":
            self.target = self.dir / "real"
            self.path.symlink_to("real")
        elif self.state == "dir":
            self.path.mkdir()
            os.chmod(self.path, 0o777)
        if self.exists:
            self.target.write_bytes(self.old)
            os.chmod(self.target, {"readonly": 0o444, "writeonly": 0o222}.get(self.state, 0o666))
            os.utime(self.target, (1_000_000_000, 1_000_000_000))
        if self.state == "in-readonly-dir":
            os.chmod(self.dir, 0o555)
        self.slash = rng.random() < 0.06
        self.err = self.expected_error()
        self.before = self.snapshot()
        # The relative spelling is the manager's working directory's.
        rel = os.path.relpath(self.path, m.dir)
        spelled = rel if rng.random() < 0.2 else str(self.path)
        if rng.random() < 0.15:
            spelled = spelled.replace("/", rng.choice(["//", "/./", "///"]))
        if self.slash:
            spelled += "/"
        f = {"path": spelled}
        if self.flag != "Default" or rng.random() < 0.5:
            f["flags"] = self.flag
        if self.mode is not None:
            f["mode"] = self.mode
        self.base = m.dir / f"out{d.name}.{i}"
        ops = [f"fds={self.base}.fds"]
        self.n, self.seed = rng.choice([0, 1, 16, 5000, 70000]), rng.randrange(1, 90000)
        self.read = None
        if self.state != "dir":
            if self.acc in ("w", "rw"):
                ops.append(f"w={self.fd}:{self.n}:{self.seed}:0")
            if self.acc == "rw":
                ops.append(f"lseek={self.fd}:0")
            if "r" in self.acc:
                ops.append(f"rd={self.fd}:{self.base}.read")
        fds = [[str(self.fd), {"file": f}]]
        if rng.random() < 0.3:
            fds.insert(rng.randrange(2), ["50", {"null": {}}])
        self.spec = sp(m, *ops, "exit=6", fds=fds)
        self.desc = f"{self.flag} fd{self.fd if self.fd < 3 else '>2'} {self.state} mode {self.mode if self.mode is None else oct(self.mode)} umask {oct(umask)}{' slash' if self.slash else ''}"

    def expected_error(self):
        if self.state == "dir":
            if self.excl:
                return errno.EEXIST
            return errno.EISDIR if self.creat or self.acc != "r" else None
        if self.slash:      # which names no file
            return errno.ENOTDIR
        if self.excl and (self.exists or self.state == "dangling"):
            return errno.EEXIST
        if not self.exists:
            if not self.creat:
                return errno.ENOENT
            return errno.EACCES if self.state == "in-readonly-dir" else None
        if self.state == "readonly" and "w" in self.acc:
            return errno.EACCES
        if self.state == "writeonly" and "r" in self.acc:
            return errno.EACCES
        return None

    def snapshot(self):
        out = {}
        for p in sorted(self.dir.iterdir()):
            st = os.lstat(p)
            c = p.read_bytes() if stat.S_ISREG(st.st_mode) else None
            out[p.name] = (st.st_mode, st.st_ino, st.st_mtime_ns if stat.S_ISREG(st.st_mode) else 0, c)
        return out

    def verify(self, r):
        what = f"{self.desc}"
        if self.err:
            if r["state"] != "error":
                raise Broken("not-error", f"{what}: {r['state']} instead of an error ({os.strerror(self.err)})")
            if self.snapshot() != self.before:
                raise Broken("touched", f"{what}: failed ({r['errors']}) but changed the file or directory")
            return
        if r["state"] != "terminated" or r["status"]["exit_code"] != 6:
            raise Broken("start-failed", f"{what}: {r['state']} {r['errors']} {r['status']}")
        line = next(l for l in self.base.with_name(self.base.name + ".fds").read_text().splitlines() if l.split()[0] == str(self.fd))
        fl = int(line.split()[1])
        if fl & 3 != ACC[self.acc]:
            raise Broken("access", f"{what}: open for access {fl & 3}, expected {ACC[self.acc]}")
        if bool(fl & os.O_APPEND) != bool(self.append):
            raise Broken("append", f"{what}: O_APPEND is {bool(fl & os.O_APPEND)}")
        if self.state == "dir":
            return
        st = os.stat(self.target)
        if not self.exists:
            want = (0o666 if self.mode is None else self.mode) & ~self.umask
            if stat.S_IMODE(st.st_mode) != want:
                raise Broken("mode", f"{what}: created with {oct(stat.S_IMODE(st.st_mode))}, expected {oct(want)}")
            if st.st_uid != self.m.uid:
                raise Broken("owner", f"{what}: owner {st.st_uid}")
        elif (st.st_mode, st.st_ino) != self.before[self.target.name][:2]:
            raise Broken("replaced", f"{what}: mode or inode of an existing file changed")
        new = pattern(self.n, self.seed) if "w" in self.acc else b""
        want = new if self.trunc else self.old + new if self.append else self.old if self.acc == "r" else new + self.old[len(new):]
        got = self.target.read_bytes()
        if got != want:
            raise Broken("content", f"{what}, {self.n} bytes written: {diff_at(got, want)}")
        if self.acc == "r" and st.st_mtime_ns != self.before[self.target.name][2]:
            raise Broken("touched", f"{what}: opened for reading, modified")
        if "r" in self.acc:
            back = self.base.with_name(self.base.name + ".read").read_bytes()
            if back != (self.old if self.acc == "r" else new):
                raise Broken("read", f"{what}: read {diff_at(back, self.old if self.acc == 'r' else new)}")
        names = set(os.listdir(self.dir))
        extra = names - set(self.before) - {self.target.name}
        if extra:
            raise Broken("extra-file", f"{what}: created {extra}")


def files(ck, rng, slack, use_agent):
    umask = rng.choice([0o022, 0, 0o077, 0o027, 0o002])
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, umask=umask) if use_agent else Manager(ck, umask=umask)
    try:
        with m:
            os.chmod(m.dir, 0o777)
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            for rnd in range(3):
                d = m.dir / f"r{rnd}"
                d.mkdir()
                os.chmod(d, 0o777)
                cs = [Case(m, rng, d, i, umask) for i in range(rng.choice([1, 8, 16]))]
                req = {f"f{rnd}.{x.i}": x.spec for x in cs}
                if c:
                    c.send("ProcStartRequest", specs=req)
                    c.barrier(20 * slack)
                else:
                    m.start(req)
                for x in cs:
                    x.verify(m.wait_done(f"f{rnd}.{x.i}", 20 * slack))
                    ck.case(x.desc, {"file": x.desc, "expected": os.strerror(x.err) if x.err else "opens"})
                    ck.seen("expected failures" if x.err else "expected successes")
    finally:
        if srv:
            srv.close()


def appenders(ck, rng, slack):
    """Several processes append to one file at once; nothing is lost."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        f = m.dir / "log"
        flag = rng.choice(["Append", "CreateAppend"])
        head = b""
        if flag == "Append" or rng.random() < 0.5:
            head = pattern(160, 99999)
            f.write_bytes(head)
            os.chmod(f, 0o666)
        n, k = rng.choice([2, 5, 10]), rng.choice([100, 1000])
        m.start({f"a{i}": sp(m, "chunk=16", *(["jitterus=20"] if i % 2 else []), f"w={rng.choice([1, 2, 5])}:{16 * k}:{i + 1}:0".replace("w=5", "w=1").replace("w=2", "w=1"), "exit=0",
                             fds=[["1", {"file": {"path": str(f), "flags": flag}}]]) for i in range(n)})
        for i in range(n):
            r = m.wait_done(f"a{i}", 30 * slack)
            if r["state"] != "terminated" or r["status"]["exit_code"]:
                raise Broken("start-failed", f"appender: {r['errors']} {r['status']}")
        data = f.read_bytes()
        if not data.startswith(head):
            raise Broken("content", f"{flag}: existing content changed: {diff_at(data[:len(head)], head)}")
        lines = data[len(head):].split(b"\n")[:-1]
        by = {}
        for l in lines:
            by.setdefault(l[:7], []).append(l + b"\n")
        for i in range(n):
            got = b"".join(by.get(b"%07d" % (i + 1), []))
            if got != pattern(16 * k, i + 1):
                raise Broken("append-lost", f"{flag} by {n} processes at once: writer {i}: {diff_at(got, pattern(16 * k, i + 1))}")
        ck.case(f"appenders {flag} {n} {k} {bool(head)}")
        ck.seen("concurrent appends", n * k)


def fifos(ck, rng, slack):
    """Descriptors attached to named pipes: opening waits for the other side, and
    everything written arrives."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        for i in range(4):
            f, n, seed = m.dir / f"fifo{i}", rng.choice([1, 5000, 200_000]), rng.randrange(1, 90000)
            os.mkfifo(f)
            os.chmod(f, 0o666)
            rflag, wflag = "Read", rng.choice(["Append", "Replace", "Write", "CreateAppend"])
            rfd, wfd = rng.choice([0, 3, 9]), rng.choice([1, 2, 5])
            r = sp(m, f"fds={m.dir}/r{i}.fds", f"rd={rfd}:{m.dir}/got{i}", "exit=2", fds=[[str(rfd), {"file": {"path": str(f), "flags": rflag}}]])
            w = sp(m, f"fds={m.dir}/w{i}.fds", f"us={rng.choice([0, 50000])}", f"w={wfd}:{n}:{seed}:0", "exit=3", fds=[[str(wfd), {"file": {"path": str(f), "flags": wflag}}]])
            order = [(f"r{i}", r), (f"w{i}", w)]
            rng.shuffle(order)
            for k, s in order:
                m.start({k: s})
                time.sleep(rng.choice([0, 0.05]))
            for k, e in ((f"r{i}", 2), (f"w{i}", 3)):
                x = m.wait_done(k, 20 * slack)
                if x["state"] != "terminated" or x["status"]["exit_code"] != e:
                    raise Broken("start-failed", f"named pipe, {wflag}: {k}: {x['state']} {x['errors']} {x['status']}")
            got = (m.dir / f"got{i}").read_bytes()
            if got != pattern(n, seed):
                raise Broken("content", f"named pipe opened for {rflag}/{wflag}, {order[0][0][0]} first: {diff_at(got, pattern(n, seed))}")
            for k, fd in (("r", rfd), ("w", wfd)):
                line = next(l for l in (m.dir / f"{k}{i}.fds").read_text().splitlines() if l.split()[0] == str(fd))
                if int(line.split()[1]) & os.O_NONBLOCK:
                    raise Broken("access", f"named pipe: {line}: does not block")
            ck.case(f"fifo {wflag} {rfd} {wfd} {n} {order[0][0][0]}")


def null(ck, rng, slack):
    """A null descriptor reads empty and discards, whatever flag it is given."""
    with Manager(ck) as m:
        os.chmod(m.dir, 0o777)
        req, want = {}, {}
        for i in range(16):
            fd, flag = rng.choice([0, 1, 2, 3, 30]), rng.choice(["Default", *FLAGS])
            acc, creat, excl, *_ = semantics(flag, fd)
            ops = [f"fds={m.dir}/n{i}"]
            if "w" in acc:
                ops.append(f"w={fd}:100000:1:0")
            if "r" in acc:
                ops.append(f"rd={fd}:{m.dir}/r{i}")
            req[f"n{i}"] = sp(m, *ops, "exit=3", fds=[[str(fd), {"null": {"flags": flag} if flag != "Default" or rng.random() < .5 else {}}]])
            want[f"n{i}"] = (fd, flag, acc, excl)
        m.start(req)
        for i, (k, (fd, flag, acc, excl)) in enumerate(want.items()):
            r, what = m.wait_done(k, 20 * slack), f"null {flag} fd {fd}"
            if excl:
                if r["state"] != "error":
                    raise Broken("not-error", f"{what}: {r['state']}")
            else:
                if r["state"] != "terminated" or r["status"]["exit_code"] != 3:
                    raise Broken("start-failed", f"{what}: {r['state']} {r['errors']} {r['status']}")
                line = next(l for l in (m.dir / f"n{i}").read_text().splitlines() if l.split()[0] == str(fd))
                if not line.endswith(" /dev/null") or int(line.split()[1]) & 3 != ACC[acc]:
                    raise Broken("null", f"{what}: {line}")
                if "r" in acc and (m.dir / f"r{i}").read_bytes():
                    raise Broken("null", f"{what}: reads data")
            ck.case(f"{what}")
        st = os.stat("/dev/null")
        if not stat.S_ISCHR(st.st_mode) or st.st_rdev != os.makedev(1, 3):
            raise Broken("null", "/dev/null itself was replaced")


def main(ck):
    def make(i):
        c = i % 7
        if c == 6:
            return (f"fifos#{i}", fifos)
        if c == 4:
            return (f"appenders#{i}", appenders)
        if c == 5:
            return (f"null#{i}", null)
        return (f"files#{i}", files, c == 1)
    ck.run_many(make, workers=6, at_least=18)


if __name__ == "__main__":
    run_check("P09", "each case is one combination of open flag, descriptor class, initial state of the path, requested mode and umask; state, content, "
              "mode, access and directory afterwards are compared with a model of the flags; distinct by that combination", main, quick_s=12, thorough_s=180)
