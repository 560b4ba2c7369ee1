"""P07: a process gets exactly the descriptors its spec names, and no others."""
import os, stat, threading, time, zlib
from core import *
from mgr import *
from agentsrv import *

NAMES = {0: "stdin", 1: "stdout", 2: "stderr"}
GIVEN = "/etc/passwd"
DEFACC = {0: 0, 1: 1, 2: 1}


class Entry:
    """What a descriptor is connected to.  Descriptors dup'ed share one."""
    def __init__(self, kind, key, acc=None):
        self.kind, self.key, self.acc = kind, key, acc
        self.sent = 0

    def __repr__(self):
        return f"{self.kind}({self.key})"


def fdname(rng, fd):
    return NAMES[fd] if fd in NAMES and rng.random() < 0.5 else str(fd)


class Plan:
    """One process: its spec, a model of its table, and what it will do."""
    def __init__(self, m, rng, k, base, pool, pipes, may_err):
        self.k, self.base, self.error = k, base, None
        nums = rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 3, 4, 6, 9, 14])))
        nums = [f for f in nums if f not in pipes] + list(pipes)
        rng.shuffle(nums)
        if rng.random() < 0.3:
            nums.sort(reverse=rng.random() < 0.5)
        fds = []
        self.mentioned = set()
        t = self.table = {0: Entry("null", "stdin"), 1: Entry("file", str(m.out_path)), 2: Entry("file", str(m.err_path))}
        # Descriptors the manager itself was given pass on if nothing is said of them; whether they do is not judged.
        t.update({fd: Entry("given", path) for fd, path in getattr(m, "given", {}).items()})
        self.caps, desc = {}, []
        for fd in nums:
            self.mentioned.add(fd)
            name = fdname(rng, fd)
            if fd in pipes:
                way, key = pipes[fd]
                fds.append([name, "pipe-write" if way == "w" else {"pipe-read": {"proc_id": key[0], "fd": fdname(rng, key[1])}}])
                t[fd] = Entry("pipe-" + way, key, 1 if way == "w" else 0)
                desc.append(f"{fd}p{way}")
                continue
            kind = rng.choice(["inherit", "close", "null", "file", "dup", "dup", "cap", "cap", "cap"])
            if kind == "dup":
                src = rng.choice(pool + [fd]) if may_err and rng.random() < 0.3 else rng.choice(sorted(t)) if t else None
                if src is None:
                    kind = "close"
                elif src not in t:
                    self.error = self.error or f"dup of unopened {src}"
            if kind == "inherit":
                fds.append([name, "inherit"])
            elif kind == "close":
                fds.append([name, "close"])
                t.pop(fd, None)
            elif kind == "null":
                fl = rng.choice(["Default", "Read", "Write", "ReadWrite"])
                fds.append([name, {"null": {"flags": fl}}])
                t[fd] = Entry("null", fd, {"Read": 0, "Write": 1, "ReadWrite": 2, "Default": DEFACC.get(fd, 2)}[fl])
            elif kind == "file":
                p, fl = f"{base}.f{fd}", rng.choice(["Write", "ReadWrite", "CreateAppend", "Create"])
                fds.append([name, {"file": {"path": p, "flags": fl}}])
                t[fd] = Entry("file", p, 2 if fl == "ReadWrite" else 1)
            elif kind == "dup":
                fds.append([name, {"dup": {"fd": src}}])
                t[fd] = t.get(src) or Entry("none", src)
            elif kind == "cap":
                mode = rng.choice(["memory", "tempfile"])
                fds.append([name, cap(mode)])
                t[fd] = Entry(mode, fd, 1 if mode == "memory" else None)
                self.caps[fd] = t[fd]
            desc.append(f"{fd}{kind[:3]}{'<' + str(src) if kind == 'dup' else ''}")
        self.desc = " ".join(desc)
        # Ops: its table; a message to everything writable of its own; then read the pipes.
        ops, self.reads = [f"fds={base}.fds"], {}
        for fd, e in sorted(t.items()):
            if e.kind in ("memory", "tempfile", "pipe-w"):
                seed = self.seed(e.key)
                ops.append(f"{'wx' if e.kind == 'pipe-w' else 'w'}={fd}:60:{seed}:0:{e.sent}")
                e.sent += 60
        self.writers = {e.key: e.sent for e in t.values() if e.kind == "pipe-w"}
        self.pipe_in = sorted({e.key: (fd, e) for fd, e in t.items() if e.kind == "pipe-r"}.items())
        self.ops, self.fds = ops, fds

    @staticmethod
    def seed(key):
        return zlib.crc32(repr(key).encode()) % 80000 + 1

    def finish(self, m, plans):
        by = {p.k: p for p in plans}
        for key, (fd, e) in self.pipe_in:
            n = by[key[0]].writers.get(key, 0)
            if n:
                self.ops.append(f"rdn={fd}:{n}:{self.base}.in{fd}")
                self.reads[fd] = (key, n)
        return sp(m, *self.ops, "exit=4", fds=self.fds)


def table_of(path):
    out = {}
    lines = path.read_text("utf-8", "replace").splitlines()
    if not lines or lines[-1] != "END":
        raise Inconclusive("incomplete table")
    for l in lines[:-1]:
        fd, fl, fdfl, dev, ino, mode, pos, target = l.split(" ", 7)
        out[int(fd)] = (int(fl), int(fdfl), int(dev), int(ino), int(mode, 8), target)
    return out


def check_table(m, p, got, pipe_ids, how):
    what = f"process with [{p.desc}] started {how}"
    silent = {fd for fd, e in p.table.items() if e.kind == "given" and fd not in p.mentioned}
    got = {fd: x for fd, x in got.items() if fd not in silent}
    table = {fd: e for fd, e in p.table.items() if fd not in silent}
    if set(got) != set(table):
        extra = {f: got[f][5] for f in set(got) - set(table)}
        raise Broken("extra-fd" if extra else "missing-fd", f"{what}: open though not specified {extra}; specified but not open {sorted(set(table) - set(got))}")
    ids = {}
    for fd, e in table.items():
        fl, fdfl, dev, ino, mode, target = got[fd]
        w = f"{what}: fd {fd} should be {e}, is {target} (flags {fl:o}, mode {mode:o})"
        if e.kind == "null":
            ok = target == "/dev/null" and stat.S_ISCHR(mode)
        elif e.kind == "given":
            ok = target == e.key
        elif e.kind == "file":
            ok = target == e.key and stat.S_ISREG(mode)
        elif e.kind == "tempfile":
            ok = stat.S_ISREG(mode) and target.endswith("(deleted)")
        elif e.kind in ("memory", "pipe-w", "pipe-r"):
            ok = stat.S_ISFIFO(mode) and target.startswith("pipe:")
        else:
            ok = False
        if not ok:
            raise Broken("wrong-fd", w)
        if e.acc is not None and fl & 3 != e.acc:
            raise Broken("access-mode", w + f"; access {fl & 3}, expected {e.acc}")
        if e.kind == "tempfile" and fl & 3 == 0:
            raise Broken("access-mode", w)
        if fl & os.O_NONBLOCK and e.key != "stdin":
            raise Broken("nonblocking", w)
        # Same thing, same inode; different things, different inodes.
        if e.kind != "null":
            x = ids.setdefault((e.kind, e.key), (dev, ino))
            if x != (dev, ino):
                raise Broken("wrong-fd", w + "; descriptors that should be one differ")
            if e.kind in ("pipe-w", "pipe-r"):
                pipe_ids.setdefault(("pipe", e.key), set()).add((dev, ino))
            else:
                pipe_ids.setdefault((p.k, e.kind, e.key) if e.kind != "file" else ("file", e.key), set()).add((dev, ino))


def batch(ck, m, rng, tag, pool, slack, c, how):
    n = rng.choice([1, 1, 2, 3, 6])
    d = m.dir / f"t{tag}"
    d.mkdir()
    os.chmod(d, 0o777)
    keys = [f"{rng.choice('abyz')}{tag}.{i}" for i in range(n)]
    errs = {k for k in keys if rng.random() < 0.15}
    pipes = {k: {} for k in keys}
    ok = [k for k in keys if k not in errs]
    if len(ok) > 1:
        for _ in range(rng.choice([0, 1, 2, 4])):
            w, r = rng.sample(ok, 2)
            wf, rf = rng.choice(pool), rng.choice(pool)
            if wf in pipes[w] or rf in pipes[r]:
                continue
            pipes[w][wf] = ("w", (w, wf))
            pipes[r][rf] = ("r", (w, wf))
    plans = [Plan(m, rng, k, str(d / str(i)), pool, pipes[k], k in errs) for i, k in enumerate(keys)]
    # Pipes whose only copy was replaced are read by nobody: writers get EPIPE and end with 77; that's not our business.
    req = {p.k: p.finish(m, plans) for p in plans}
    if c and rng.random() < 0.5:
        c.send("ProcStartRequest", specs=req)
        c.barrier(20 * slack)
    else:
        m.start(req)
    ids = {}
    res = {p.k: m.wait_done(p.k, 30 * slack) for p in plans}
    for p in plans:
        r = res[p.k]
        if p.error:
            if r["state"] != "error":
                raise Broken("not-error", f"[{p.desc}] ({p.error}): {r['state']} {r['status']}")
        elif r["state"] != "terminated":
            raise Broken("start-failed", f"[{p.desc}]: {r['state']} {r['errors']}")
        else:
            f = d / (os.path.basename(p.base) + ".fds")
            check_table(m, p, table_of(f), ids, how)
            if r["status"]["exit_code"] == 4:
                for fd, e in p.caps.items():
                    nm = NAMES.get(fd, str(fd))
                    want = pattern(e.sent, p.seed(e.key))
                    if fd_bytes(r["fds"][nm]) != want:
                        raise Broken("wrong-capture", f"[{p.desc}] capture of {fd}: {diff_at(fd_bytes(r['fds'][nm]), want)}")
                for fd, (key, cnt) in p.reads.items():
                    b = open(f"{p.base}.in{fd}", "rb").read()
                    if b != pattern(cnt, p.seed(key)):
                        raise Broken("wrong-pipe", f"[{p.desc}] read from {key} on {fd}: {diff_at(b, pattern(cnt, p.seed(key)))}")
            elif r["status"]["exit_code"] != 77:
                raise Broken("wrong-end", f"[{p.desc}]: {r['status']} {str(r['fds'])[:300]}")
            ck.seen("descriptors checked", len(p.table))
        ck.case(p.desc, {"spec": p.desc, "expected": p.error or {f: repr(e) for f, e in sorted(p.table.items())}})
        m.delete(p.k)
    # Distinct things have distinct inodes.
    seen = {}
    for what, s in ids.items():
        if len(s) != 1:
            raise Broken("wrong-fd", f"{what} is several things: {s}")
        x = s.pop()
        if x in seen and not {what[0], what[1], seen[x][0], seen[x][1]} & {"file", "given"}:
            raise Broken("mixed-up", f"{what} and {seen[x]} are connected to the same thing")
        seen[x] = what


def tables(ck, rng, slack, use_agent, busy):
    srv = AgentServer() if use_agent else None
    kw = {"seed": rng.randrange(1 << 30)}
    given = {fd: GIVEN for fd in rng.sample([3, 4, 11, 13, 20, 33], rng.choice([1, 2, 4]))} if rng.random() < 0.3 else {}
    if given:
        kw["wrapper"] = ["/bin/bash", "-c", "exec " + " ".join(f"{fd}<{GIVEN}" for fd in given) + '; exec "$0" "$@"']
    m = agent(ck, srv, serve=True, **kw) if use_agent else Manager(ck, **kw)
    m.given = given
    conns, stop, errs = [], threading.Event(), []
    try:
        with m:
            os.chmod(m.dir, 0o777)
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            dist = rng.randrange(3)
            if dist == 1:
                m.ctl.delay("fork", 5000, 500, child=True)
            elif dist == 2:
                m.ctl.delay("fork", 5000, 500)
            if rng.random() < 0.5:
                # Descriptors in the manager: clients, captures, running processes.
                for _ in range(rng.choice([3, 20])):
                    cn = m.connection()
                    m.http("GET", "/procs", conn=cn)
                    conns.append(cn)
                m.start({f"bg{i}": sp(m, "w=1:100:1:0", "w=2:100:2:0", "pause", fds=[["1", cap("memory")], ["2", cap("tempfile")], ["3", cap("memory")]]) for i in range(rng.choice([1, 8]))})
            pool = rng.choice([list(range(0, 12)), list(range(0, 40)), list(range(0, 8)) + [17, 63, 64, 100, 255, 256, 700], list(range(3, 30))])

            def churn():
                r = random.Random(rng.random())
                try:
                    k = 0
                    while not stop.is_set():
                        k += 1
                        s = f"churn{threading.get_ident()}.{k}"
                        m.start({s: sp(m, "w=1:10:1:0", fds=[["1", cap(r.choice(["memory", "tempfile"]))], ["4", "pipe-write"], ["5", {"pipe-read": {"proc_id": s, "fd": "4"}}]])})
                        m.wait_done(s, 30 * slack)
                        m.delete(s)
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=churn, daemon=True) for _ in range(busy)]
            [t.start() for t in ts]
            for tag in range(6 if ck.quick else 12):
                batch(ck, m, rng, tag, pool, slack, c, f"{'with an agent connection ' if c else ''}{'while others start' if busy else 'alone'}")
                if errs:
                    raise errs[0]
            stop.set()
            [t.join(30) for t in ts]
            if errs:
                raise errs[0]
    finally:
        stop.set()
        for cn in conns:
            cn.close()
        if srv:
            srv.close()


def batch_input(ck, rng, slack):
    """Processes of an input file, started before any service runs."""
    pool = list(range(0, 20))
    d = ck.scratch / f"in{ck.next_uid()}"
    d.mkdir()
    os.chmod(d, 0o777)

    class M:
        probe, out_path, err_path = str(ck.probe), None, None
    # The manager's own stdout and stderr are known only afterwards.
    plans = [Plan(M, rng, f"p{i}", str(d / str(i)), pool, {}, False) for i in range(rng.choice([1, 4, 10]))]
    req = {p.k: p.finish(M.probe, plans) for p in plans}
    with Manager(ck, ["--exit", "--output", str(d / "o.json")], serve=False, spec={"specs": req}) as m:
        if m.wait_exit(30 * slack) != 0:
            raise Broken("batch-exit", m.stderr()[-300:])
        res = json.loads((d / "o.json").read_bytes())
        ids = {}
        for p in plans:
            for e in p.table.values():
                if e.key == "None":
                    pass
            inh = {id(e): e for e in p.table.values() if e.kind == "file" and e.key == "None"}
            if res[p.k]["state"] != "terminated":
                raise Broken("start-failed", f"[{p.desc}]: {res[p.k]['errors']}")
            got = table_of(d / (os.path.basename(p.base) + ".fds"))
            for fd, e in p.table.items():
                if id(e) in inh:
                    # Inherited 1 or 2, whichever it is a copy of.
                    if got.get(fd, (0,) * 6)[5] not in (str(m.out_path), str(m.err_path)):
                        raise Broken("wrong-fd", f"[{p.desc}] fd {fd}: {got.get(fd)}")
            p.table = {fd: e for fd, e in p.table.items()}
            t2, g2 = dict(p.table), dict(got)
            for fd, e in list(t2.items()):
                if id(e) in inh:
                    del t2[fd]
                    g2.pop(fd, None)
            p.table = t2
            check_table(m, p, g2, ids, "from an input file")
            ck.case("input " + p.desc)
            ck.seen("descriptors checked", len(got))


def main(ck):
    def make(i):
        r = ck.rng("make", i)
        c = i % 6
        if c == 5:
            return (f"input#{i}", batch_input)
        return (f"tables#{i}", tables, c in (1, 4), r.choice([0, 0, 2]))
    ck.run_many(make, workers=7, at_least=14)


if __name__ == "__main__":
    run_check("P07", "each case is one process with a random set, order and combination of descriptor specs (over numbers the manager itself uses), "
              "whose whole table at exec (numbers, identity by inode and path, access mode) is compared with a model, alone or amid other starts; "
              "distinct by that spec", main, quick_s=15, thorough_s=240)
