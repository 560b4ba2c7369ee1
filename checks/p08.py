"""P08: pipes between processes carry exactly what is written, then end-of-file."""
import os, threading, time
from core import *
from mgr import *
from agentsrv import *


def pr(k, fd):
    return {"pipe-read": {"proc_id": k, "fd": str(fd)}}


def fd_for(rng, used):
    return next(f for f in iter(lambda: rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 63, 100]), None) if f not in used)


class Net:
    """A random network of sources, relays, joins and sinks with expected flows."""
    def __init__(self, m, rng, tag, d):
        self.m, self.rng, self.d = m, rng, d
        self.specs, self.expect, self.desc, self.status = {}, {}, [], {}
        self.tag, self.n = tag, 0
        self.stuck = []     # FIFOs that hold up who opens them

    def name(self):
        self.n += 1
        return f"{self.rng.choice('abmyz')}{self.tag}.{self.n}"

    def size(self):
        return self.rng.choice([0, 1, 100, 4096, 65536, 65537, 200_000, 1_000_000])

    def pre(self):
        r = self.rng
        ops = [f"chunk={r.choice([0, 100, 4096, 65536]) or 0}"]
        if r.random() < 0.3:
            ops.append(f"us={r.choice([1000, 20000, 80000])}")
        return ops

    def chain(self, length):
        """source -> relays -> sink"""
        r, n, seed = self.rng, self.size(), self.rng.randrange(1, 90000)
        names = [self.name() for _ in range(length + 2)]
        fds = [(fd_for(r, ()), fd_for(r, ())) for _ in names]
        prev = None
        for i, k in enumerate(names):
            inn, out = fds[i]
            if inn == out:
                out = inn + 1
                fds[i] = (inn, out)
            sp_fds, ops = [], self.pre()
            if i:
                sp_fds.append([str(inn), pr(*prev)])
            if i < len(names) - 1:
                sp_fds.append([str(out), "pipe-write"])
                prev = (k, out)
            r.shuffle(sp_fds)
            if i == 0:
                ops += self.write(out, n, seed)
            elif i < len(names) - 1:
                ops += [f"cp={inn}:{out}"]
            else:
                f = f"{self.d}/{k}.out"
                ops += [f"rd={inn}:{f}"]
                self.expect[k] = [(f, pattern(n, seed))]
            self.specs[k] = sp(self.m, *ops, f"exit={i % 50}", fds=sp_fds)
            self.status[k] = i % 50
        self.desc.append(f"chain{length}/{n}")

    def write(self, out, n, seed):
        """Ops writing n bytes: at once, or partly by descendants, the last of which outlives the process."""
        r = self.rng
        k = r.randrange(4)
        if k == 0 and n > 10:
            a = n // 3
            return [f"w={out}:{a}:{seed}:0:0", "fork{", f"w={out}:{a}:{seed}:0:{a}", "}", "wait", f"w={out}:{n-2*a}:{seed}:0:{2*a}"]
        if k == 1 and n > 10:
            a = n // 2
            # The descendant goes on after its parent ended: EOF must wait for it.
            return [f"w={out}:{a}:{seed}:0:0", "fork{", "setsid", f"us={r.choice([1000, 60000])}", f"w={out}:{n-a}:{seed}:0:{a}", "}"]
        return [f"w={out}:{n}:{seed}:0"]

    def fan_out(self, width):
        """One source, a pipe to each of several sinks."""
        r, k = self.rng, self.name()
        used, fds, ops = set(), [], self.pre()
        sinks = []
        for j in range(width):
            fd = fd_for(r, used)
            used.add(fd)
            n, seed = self.size(), r.randrange(1, 90000)
            fds.append([str(fd), "pipe-write"])
            # Each sink reads on its own, so writing one after the other cannot deadlock.
            ops += [f"w={fd}:{n}:{seed}:0"] + ([f"close={fd}"] if r.random() < 0.5 else [])
            sinks.append((self.name(), fd, n, seed))
        self.specs[k] = sp(self.m, *ops, "exit=7", fds=fds)
        self.status[k] = 7
        for s, fd, n, seed in sinks:
            inn = fd_for(r, ())
            f = f"{self.d}/{s}.out"
            self.specs[s] = sp(self.m, *self.pre(), f"rd={inn}:{f}", "exit=8", fds=[[str(inn), pr(k, fd)]])
            self.expect[s] = [(f, pattern(n, seed))]
            self.status[s] = 8
        self.desc.append(f"out{width}")

    def fan_in(self, width):
        """Several sources into one sink, read one after the other."""
        r, k = self.rng, self.name()
        used, fds, ops, exp = set(), [], self.pre(), []
        for j in range(width):
            s, out, inn = self.name(), fd_for(r, ()), fd_for(r, used)
            used.add(inn)
            n, seed = self.size(), r.randrange(1, 90000)
            fds.append([str(inn), pr(s, out)])
            f = f"{self.d}/{k}.{j}.out"
            ops.append(f"rd={inn}:{f}")
            exp.append((f, pattern(n, seed)))
            self.specs[s] = sp(self.m, *self.pre(), *self.write(out, n, seed), "exit=5", fds=[[str(out), "pipe-write"]])
            self.status[s] = 5
        r.shuffle(fds)
        self.specs[k] = sp(self.m, *ops, "exit=6", fds=fds)
        self.expect[k], self.status[k] = exp, 6
        self.desc.append(f"in{width}")

    def early_close(self):
        """The writer closes its end and lives on: the reader must not wait for it."""
        r, w, k = self.rng, self.name(), self.name()
        out, inn, n, seed = fd_for(r, ()), fd_for(r, ()), self.size(), r.randrange(1, 90000)
        f = f"{self.d}/{k}.out"
        self.specs[w] = sp(self.m, f"w={out}:{n}:{seed}:0", f"close={out}", f"waitfile={self.d}/end", "exit=3", fds=[[str(out), "pipe-write"]])
        self.specs[k] = sp(self.m, *self.pre(), f"rd={inn}:{f}", "exit=4", fds=[[str(inn), pr(w, out)]])
        self.expect[k], self.status[k], self.status[w] = [(f, pattern(n, seed))], 4, 3
        self.desc.append("close")
        return w

    def reader_leaves(self, how):
        """The reader ends or closes after some bytes: the writer must learn of it."""
        r, w, k = self.rng, self.name(), self.name()
        out, inn, seed = fd_for(r, ()), fd_for(r, ()), r.randrange(1, 90000)
        n = r.choice([0, 1, 5000, 100_000])
        f = f"{self.d}/{k}.out"
        ign = r.random() < 0.5
        self.specs[w] = sp(self.m, *(["ign=13"] if ign else []), *self.pre(), f"wx={out}:500000000:{seed}:0", "exit=3", fds=[[str(out), "pipe-write"]])
        self.status[w] = 77 if ign else -13
        late = {"ends": [], "closes": [f"close={inn}", f"waitfile={self.d}/end"], "killed": []}[how]
        self.specs[k] = sp(self.m, f"rdn={inn}:{n}:{f}", *late, "kill=9" if how == "killed" else "exit=2", fds=[[str(inn), pr(w, out)]])
        self.status[k] = -9 if how == "killed" else 2
        if how == "closes":
            self.wait_end = getattr(self, "wait_end", set()) | {k}
        self.expect[k] = [(f, pattern(n, seed))]
        self.desc.append(f"reader {how}{' ign' if ign else ''}")

    def reader_never(self):
        """The reader cannot be started: the writer must learn of it."""
        r, w, k = self.rng, self.name(), self.name()
        out, inn = fd_for(r, ()), fd_for(r, ())
        self.specs[w] = sp(self.m, "us=30000", f"wx={out}:500000000:1:0", "exit=3", fds=[[str(out), "pipe-write"]])
        self.status[w] = -13
        self.specs[k] = {"argv": ["/no/such/program"], "fds": [[str(inn), pr(w, out)]]}
        self.status[k] = "error"
        self.desc.append("reader never")

    def writer_never(self):
        r, w, k = self.rng, self.name(), self.name()
        out, inn = fd_for(r, ()), fd_for(r, ())
        f = f"{self.d}/{k}.out"
        self.specs[w] = {"argv": ["/no/such/program"], "fds": [[str(out), "pipe-write"]]}
        self.specs[k] = sp(self.m, f"rd={inn}:{f}", "exit=4", fds=[[str(inn), pr(w, out)]])
        self.status[w], self.status[k] = "error", 4
        self.expect[k] = [(f, b"")]
        self.desc.append("writer never")

    def bystander(self):
        k = self.name()
        fds = [[str(i), cap(self.rng.choice(["memory", "tempfile"]))] for i in self.rng.sample(range(1, 12), self.rng.choice([0, 2, 4]))]
        if self.stuck is not None and self.rng.random() < 0.4:
            # It is still being set up all the while.
            p = f"{self.d}/{k}.fifo"
            os.mkfifo(p)
            os.chmod(p, 0o666)
            self.stuck.append(p)
            self.desc.append("stuck")
            fds.insert(self.rng.randrange(len(fds) + 1), ["40", {"file": {"path": p, "flags": self.rng.choice(["Read", "Append"])}}])
        self.specs[k] = sp(self.m, f"waitfile={self.d}/end", "exit=1", fds=fds)
        self.status[k] = 1
        self.wait_end = getattr(self, "wait_end", set()) | {k}


def unforked(ck, rng, slack):
    """One process at the end of a pipe cannot even be forked: the other learns of it."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        m.start({"warm": sp(m, "exit=0")})
        m.wait_done("warm")
        for i in range(8 if ck.quick else 20):
            width = rng.choice([1, 1, 2, 3])
            w, k = rng.sample([f"a{i}", f"z{i}"], 2)
            outs, inns = rng.sample(range(0, 12), width), rng.sample(range(0, 12), width)
            extra = lambda: [[str(f), rng.choice([cap("memory"), cap("tempfile"), {"null": {}}])] for f in rng.sample(range(20, 40), rng.choice([0, 1, 3]))]
            fw = [*extra(), *[[str(o), "pipe-write"] for o in outs]]
            fk = [*extra(), *[[str(n), pr(w, o)] for n, o in zip(inns, outs)]]
            rng.shuffle(fw)
            rng.shuffle(fk)
            files = [f"{m.dir}/u{i}.{j}" for j in range(width)]
            specs = {w: sp(m, "ign=13", f"wx={outs[0]}:500000000:1:0", "exit=3", fds=fw),
                     k: sp(m, *[f"rd={n}:{f}" for n, f in zip(inns, files)], "exit=4", fds=fk)}
            m.ctl.fail("fork", rng.choice([11, 12]), after=rng.choice([0, 1]))
            m.start(specs)
            res = {x: m.wait_done(x, 20 * slack) for x in specs}
            bad = [x for x in specs if res[x]["state"] == "error"]
            if len(bad) != 1:
                raise Inconclusive(f"{len(bad)} failed starts")
            if bad == [k]:
                st = res[w]["status"]
                if st["exit_code"] != 77:
                    raise Broken("writer-not-told", f"reader not forked: the writer ended with {st}")
            else:
                st = res[k]["status"]
                if st["exit_code"] != 4 or any(open(f, "rb").read() for f in files):
                    raise Broken("bytes", f"writer not forked: the reader ended with {st}, read {[os.path.getsize(f) for f in files]}")
            for x in specs:
                m.delete(x)
            ck.case(f"{'reader' if bad == [k] else 'writer'} not forked, {width} {[f for f, _ in fw]} {[f for f, _ in fk]}")
            ck.seen("pipes with an end never forked", width)


def network(ck, rng, slack, use_agent):
    srv = AgentServer() if use_agent else None
    m = agent(ck, srv, serve=True, seed=rng.randrange(1 << 30)) if use_agent else Manager(ck, seed=rng.randrange(1 << 30))
    try:
        with m:
            os.chmod(m.dir, 0o777)
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            dist = rng.randrange(4)
            if dist == 1:
                m.ctl.delay("fork", 10000, 500, child=True)
            elif dist == 2:
                m.ctl.delay("fork", 5000, 500)
            elif dist == 3:
                m.ctl.delay("execve", 30000, 400, child=True)
            def dressed(specs):
                """Pipes are not all a process has."""
                for s in specs.values():
                    if rng.random() < 0.4:
                        have = {f for f, _ in s.get("fds", [])}
                        for f in rng.sample(range(30, 60), rng.choice([1, 2, 5])):
                            if str(f) not in have:
                                s.setdefault("fds", []).insert(rng.randrange(len(s["fds"]) + 1), [str(f), rng.choice([cap("memory"), cap("tempfile"), {"null": {}}, "close"])])
                return specs
            for rnd in range(3 if ck.quick else 6):
                nets = []
                for j in range(rng.choice([1, 1, 2])):
                    d = m.dir / f"n{rnd}.{j}"
                    d.mkdir()
                    os.chmod(d, 0o777)
                    net = Net(m, rng, f"{rnd}.{j}", d)
                    net.wait_end = set()
                    if rng.random() < 0.7:
                        net.bystander()
                    for _ in range(rng.choice([1, 2, 4])):
                        k = rng.randrange(9)
                        if k <= 1:
                            net.chain(rng.choice([0, 1, 2, 5]))
                        elif k == 2:
                            net.fan_out(rng.choice([2, 5]))
                        elif k == 3:
                            net.fan_in(rng.choice([2, 5]))
                        elif k == 4:
                            net.wait_end.add(net.early_close())
                        elif k in (5, 6):
                            net.reader_leaves(rng.choice(["ends", "closes", "killed"]))
                        elif k == 7:
                            net.reader_never()
                        else:
                            net.writer_never()
                    if rng.random() < 0.7:
                        net.bystander()
                    nets.append(net)
                # Two networks in one request or in two that overlap.
                errs = []

                def go(specs):
                    try:
                        dressed(specs)
                        if c and rng.random() < 0.4:
                            c.send("ProcStartRequest", specs=specs)
                            c.barrier(20 * slack)
                        else:
                            m.start(specs)
                    except BaseException as e:
                        errs.append(e)
                if len(nets) > 1 and rng.random() < 0.5:
                    go({k: v for n in nets for k, v in n.specs.items()})
                else:
                    ts = [threading.Thread(target=go, args=(n.specs,)) for n in nets]
                    [t.start() for t in ts]
                    [t.join(60) for t in ts]
                if errs:
                    raise errs[0]
                for net in nets:
                    what = f"[{' '.join(net.desc)}]"
                    # Everything but those told to wait must end by itself.
                    end = time.monotonic() + 25 * slack
                    left = set(net.specs) - net.wait_end
                    while left:
                        r = m.list()
                        left = {k for k in left if r[k]["state"] == "running"}
                        if time.monotonic() > end:
                            raise Hang(f"{what}: {sorted(left)} end, though every writer (or reader) of theirs is gone")
                        time.sleep(0.005)
                    (net.d / "end").touch()
                    held = [os.open(p, os.O_RDWR | os.O_NONBLOCK) for p in net.stuck]
                    ck.seen("bystanders stuck in set-up", len(held))
                    for k in net.specs:
                        x, want = m.wait_done(k, 20 * slack), net.status[k]
                        if want == "error":
                            if x["state"] != "error":
                                raise Broken("not-error", f"{what} {k}: {x['state']}")
                            continue
                        if x["state"] != "terminated":
                            raise Broken("start-failed", f"{what} {k}: {x['errors']}")
                        got = x["status"]["exit_code"] if x["status"]["exit_code"] is not None else -x["status"]["signum"]
                        if got != want:
                            raise Broken("status", f"{what} {k}: ended with {x['status']}, expected {want} ({'SIGPIPE' if want == -13 else 'EPIPE' if want == 77 else 'normal end'}); {net.specs[k]['argv'][1:]}")
                    for k, l in net.expect.items():
                        for f, data in l:
                            got = open(f, "rb").read()
                            if got != data:
                                raise Broken("bytes", f"{what} reader {k}: {diff_at(got, data)}")
                            ck.seen("bytes through pipes", len(data))
                            ck.seen("pipes read to their end")
                    for k in net.specs:
                        m.delete(k)
                    for f in held:
                        os.close(f)
                    ck.case(f"{what} dist{dist} {len(nets)}", {"network": net.desc, "processes": len(net.specs)})
    finally:
        if srv:
            srv.close()


def batch(ck, rng, slack):
    """The same from an input file."""
    class D:
        pass
    d = D()
    d.dir = ck.scratch / f"b{ck.next_uid()}"
    d.dir.mkdir()
    os.chmod(d.dir, 0o777)
    net = Net(str(ck.probe), rng, "0", d.dir)
    net.wait_end = set()
    for _ in range(rng.choice([1, 3])):
        rng.choice([lambda: net.chain(rng.choice([0, 1, 4])), lambda: net.fan_out(3), lambda: net.fan_in(3), lambda: net.reader_leaves("ends"), net.reader_never, net.writer_never])()
    with Manager(ck, ["--print"], serve=False, spec={"specs": net.specs}) as m:
        if m.wait_exit(40 * slack, f"batch run of {net.desc} exits") != 0:
            raise Broken("batch-exit", m.stderr()[-300:])
        res = json.loads(m.stdout())
    for k, want in net.status.items():
        x = res[k]
        got = "error" if x["state"] == "error" else x["status"]["exit_code"] if x["status"]["exit_code"] is not None else -x["status"]["signum"]
        if got != want:
            raise Broken("status", f"batch {net.desc} {k}: {x['state']} {x['status']}, expected {want}")
    for k, l in net.expect.items():
        for f, data in l:
            got = open(f, "rb").read()
            if got != data:
                raise Broken("bytes", f"batch {net.desc} reader {k}: {diff_at(got, data)}")
            ck.seen("bytes through pipes", len(data))
            ck.seen("pipes read to their end")
    ck.case(f"batch {net.desc}")


def main(ck):
    def make(i):
        c = i % 6
        if c == 5:
            return (f"batch#{i}", batch)
        if i % 12 == 3:
            return (f"unforked#{i}", unforked)
        return (f"network#{i}", network, c in (1, 4))
    ck.run_many(make, workers=7, at_least=14)


if __name__ == "__main__":
    run_check("P08", "each case is one network of piped processes (chains, fans, early close, reader leaving, partners that never start, surviving "
              "descendants) with bystanders started before and after; every reader's bytes are compared with the pattern written and every "
              "process must end as the pipes dictate", main, quick_s=16, thorough_s=240)
