"""P06: a process that cannot be started is reported as an error and contained."""
import errno, os, threading, time
from core import *
from mgr import *
from agentsrv import *


class Bed:
    """A manager with a directory of things that cannot be opened or executed."""
    def __init__(self, m):
        self.m, d = m, m.dir
        os.chmod(d, 0o777)
        (d / "plain").write_text("no program\n")
        os.chmod(d / "plain", 0o644)
        (d / "garbage").write_bytes(b"\x7fELF" + b"\0" * 100)
        os.chmod(d / "garbage", 0o755)
        (d / "badinterp").write_text("#!/no/such/interpreter\n")
        os.chmod(d / "badinterp", 0o755)
        (d / "bare").write_text(f"echo > {d}/forbidden\n")
        os.chmod(d / "bare", 0o755)
        # Somebody still writes this program.
        (d / "busy").write_bytes(open("/bin/true", "rb").read())
        os.chmod(d / "busy", 0o755)
        self.busy = open(d / "busy", "r+b")
        (d / "sub").mkdir(exist_ok=True)
        (d / "secret").write_text("x")
        os.chmod(d / "secret", 0o600)
        (d / "loop").symlink_to("loop")
        self.d = d

    def bad(self, rng, mark):
        """(name, spec, words): spec that must fail; one of `words` must be named."""
        d, m = self.d, self.m
        def p(*ops, **kw):
            return sp(m, f"mark={mark}:ran", *ops, **kw)
        def f(fd, path, flags="Default", mode=0o666):
            return [[str(fd), {"file": {"path": str(path), "flags": flags, "mode": mode}}]]
        E = os.strerror
        nul = ["nul", "null", "\\0", "invalid"]
        L = [
            ("missing exe", dict(p(), exe=str(d / "nothing")), [E(errno.ENOENT), "not found"]),
            ("missing argv0", {"argv": [str(d / "nothing")]}, [E(errno.ENOENT), "not found"]),
            ("relative missing", {"argv": ["no-such-program-anywhere"]}, [E(errno.ENOENT), "not found"]),
            ("name found on PATH", dict(p(), exe="true"), [E(errno.ENOENT), "not found"]),
            ("argv0 found on PATH", {"argv": ["true", "x"]}, [E(errno.ENOENT), "not found"]),
            ("script without interpreter", dict(p(), exe=str(d / "bare")), [E(errno.ENOEXEC), "os error", "exec"]),
            ("busy exe", dict(p(), exe=str(d / "busy")), [E(errno.ETXTBSY), "busy"]),
            ("empty exe", dict(p(), exe=""), [E(errno.ENOENT), "not found", "exe"]),
            ("not executable", dict(p(), exe=str(d / "plain")), [E(errno.EACCES), "permission"]),
            ("directory", dict(p(), exe=str(d / "sub")), [E(errno.EACCES), "permission", "directory"]),
            ("not a program", dict(p(), exe=str(d / "garbage")), [E(errno.ENOEXEC), "os error", "exec"]),
            ("bad interpreter", dict(p(), exe=str(d / "badinterp")), [E(errno.ENOENT), "not found"]),
            ("below a file", dict(p(), exe=str(d / "plain" / "x")), [E(errno.ENOTDIR), "directory"]),
            ("symlink loop", dict(p(), exe=str(d / "loop")), [E(errno.ELOOP), "loop", "symbolic", "os error"]),
            ("long exe", dict(p(), exe="/" + "x" * 5000), [E(errno.ENAMETOOLONG), "long", "filename"]),
            ("very long exe", dict(p(), exe="/" + "y" * 70000), [E(errno.ENAMETOOLONG), "yyyy"]),
            ("very long wide exe", dict(p(), exe="/" + "é" * 40000), [E(errno.ENAMETOOLONG), "éé"]),
            ("long argument", p("exit=0", "x=" + "a" * 140000), [E(errno.E2BIG), "long"]),
            ("NUL in exe", dict(p(), exe=str(m.probe) + "\0"), nul),
            ("NUL in argv0", {"argv": [str(m.probe) + "\0x", f"mark={mark}:ran"]}, nul),
            ("NUL in argument", p("exit=0", "a\0b"), nul),
            ("NUL in env value", p(env={"vars": {"A": "x\0y"}}), nul),
            ("NUL in env name", p(env={"vars": {"A\0": "x"}}), nul),
            ("NUL in path", p(fds=f(1, str(d) + "/a\0b")), nul),
            ("open missing", p(fds=f(0, d / "nofile", "Read")), [E(errno.ENOENT), "not found"]),
            ("open missing for replace", p(fds=f(1, d / "nofile", "Replace")), [E(errno.ENOENT), "not found"]),
            ("open missing for append", p(fds=f(1, d / "nofile", "Append")), [E(errno.ENOENT), "not found"]),
            ("create existing", p(fds=f(1, d / "plain", "Create")), [E(errno.EEXIST), "exists"]),
            ("write unwritable", p(fds=f(1, d / "secret", "Write")), [E(errno.EACCES), "permission"]),
            ("read unreadable", p(fds=f(0, d / "secret", "Read")), [E(errno.EACCES), "permission"]),
            ("write directory", p(fds=f(1, d / "sub", "Write")), [E(errno.EISDIR), "directory"]),
            ("write in missing dir", p(fds=f(4, d / "none" / "x", "Write")), [E(errno.ENOENT), "not found"]),
            ("empty path", p(fds=f(1, "", "Write")), [E(errno.ENOENT), "not found"]),
            ("long path", p(fds=f(1, "/" + "z" * 5000, "Write")), [E(errno.ENAMETOOLONG), "long", "filename"]),
            ("dup of unopened", p(fds=[["1", {"dup": {"fd": 77}}]]), [E(errno.EBADF), "bad", "77"]),
            ("dup of negative", p(fds=[["1", {"dup": {"fd": -1}}]]), [E(errno.EBADF), "bad", "-1"]),
            ("dup of closed", p(fds=[["5", "close"], ["1", {"dup": {"fd": 5}}]]), [E(errno.EBADF), "bad", "5"]),
            ("fd out of range", p(fds=[["999999", {"null": {}}]]), [E(errno.EBADF), "bad", "999999"]),
            ("negative fd", p(fds=[["-3", {"null": {}}]]), [E(errno.EBADF), "bad", "-3"]),
            ("negative capture fd", p(fds=[["-1", cap("memory")]]), [E(errno.EBADF), "bad", "-1"]),
            ("second of many fds", p(fds=[["1", cap("tempfile")], ["2", cap("memory")], *f(7, d / "none" / "x", "Write"), ["8", {"null": {}}]]),
             [E(errno.ENOENT), "not found"]),
            ("late exe failure", dict(p(fds=[["0", {"null": {}}], ["1", cap("memory")], ["9", cap("tempfile")]]), exe=str(d / "nothing")), [E(errno.ENOENT), "not found"]),
        ]
        return L


def leftovers(m, allowed, slack, what):
    """No process of this manager's but itself and `allowed`."""
    def gone():
        d = {p: v for p, v in m.descendants().items() if p not in allowed}
        return not d
    try:
        wait_for(gone, 5 * slack, "processes gone")
    except Hang:
        d = {p: v for p, v in m.descendants().items() if p not in allowed}
        raise Broken("leftover", f"{what}: processes left behind (pid: ppid, state, name): {d}")


def settle(m, names, slack, history):
    """Polls to the end, keeping every process's sequence of states."""
    end = time.monotonic() + 40 * slack
    while True:
        r = m.list()
        for k in names:
            if k not in r:
                raise Broken("record-lost", f"{k} has no record")
            h = history.setdefault(k, [])
            if not h or h[-1] != r[k]["state"]:
                h.append(r[k]["state"])
        if all(r[k]["state"] != "running" for k in names):
            return r
        if time.monotonic() > end:
            raise Hang(f"{[k for k in names if r[k]['state'] == 'running']} stop running")


def check_failed(m, k, r, words, what, hist):
    if r["state"] != "error":
        raise Broken("not-error", f"{what}: state {r['state']}, status {r['status']}")
    if not r["errors"] or not any(e.strip() for e in r["errors"]):
        raise Broken("no-message", f"{what}: errors {r['errors']}")
    if words:
        text = " ".join(r["errors"]).lower()
        if not any(w.lower() in text for w in words):
            raise Broken("cause", f"{what}: message {r['errors']!r:.400} does not name the cause ({words[0]})")
    if hist and hist not in (["running", "error"], ["error"]):
        raise Broken("state-order", f"{what}: seen as {hist}")


def check_record(m, k, what, rng):
    """A failed record is like any other."""
    if k not in m.list():
        raise Broken("record-lost", f"{what}: not listed")
    s = m.signal(k, "SIGTERM")
    if not 400 <= s.status < 500:
        raise Broken("signal", f"{what}: signal to a failed process: {s.status}")
    for fd in ("stdout", "9"):
        d = m.data(k, fd)
        if d.status == 200 and d.body:
            raise Broken("data", f"{what}: output {d.body[:80]!r} of a process that never ran")
    d = m.delete(k)
    if d.status != 200 or m.get(k) is not None:
        raise Broken("delete", f"{what}: delete gives {d.status}, record {m.get(k) is not None}")


def specs(ck, rng, slack, use_agent):
    """Every kind of spec that cannot work, among healthy processes."""
    srv = AgentServer() if use_agent else None
    kw = dict(seed=rng.randrange(1 << 30), nofile=1024)
    m = agent(ck, srv, serve=True, **kw) if use_agent else Manager(ck, **kw)
    try:
        with m:
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            bed = Bed(m)
            if rng.random() < 0.4:
                m.ctl.delay("fork", 3000, 500, child=True)
            m.start({"canary": sp(m, "pause", fds=[["stdout", cap("memory")]])})
            cpid = m.get("canary")["pid"]
            mark = m.dir / "forbidden"
            L = bed.bad(rng, mark)
            rng.shuffle(L)
            hist = {}
            at = 0
            while at < len(L):
                group = L[at : at + rng.choice([1, 1, 2, 5])]
                at += len(group)
                req, want = {}, {}
                for i, (name, spec, words) in enumerate(group):
                    k = f"{rng.choice('am')}bad{at}.{i}"
                    req[k], want[k] = spec, (name, words)
                good = {f"{x}good{at}": sp(m, f"w=1:3000:{at}:0", "exit=7", fds=[["stdout", cap(rng.choice(["memory", "tempfile"]))]]) for x in "abz"}
                req.update(good)
                via = "agent" if c and rng.random() < 0.5 else "HTTP"
                if via == "agent":
                    since = c.mark()
                    c.send("ProcStartRequest", specs=req)
                    c.barrier(30 * slack)
                    status = 400 if [x for x in c.msgs()[since:] if x["type"] == "RequestError"] else 200
                else:
                    status = m.post(req).status
                what = f"{[n for n, _, _ in group]} by {via}"
                m.check_alive()
                if status != 200:
                    if not 400 <= status < 500:
                        raise Broken("status", f"{what}: {status}")
                    # Refused as a whole.
                    if set(m.list()) != {"canary"}:
                        raise Broken("refused-but-recorded", f"{what}: {list(m.list())}")
                    ck.seen("refused")
                    for n, _, _ in group:
                        ck.case(f"refused {n} {via}")
                    continue
                res = settle(m, list(req), slack, hist)
                for k, (name, words) in want.items():
                    check_failed(m, k, res[k], words, f"{name} by {via}", hist[k])
                    if c:
                        _, x = c.wait(lambda x: x["type"] == "ProcResult" and x["proc_id"] == k and x["res"]["state"] != "running", 20 * slack, what="result of failed start")
                        if x["res"]["state"] != "error" or not x["res"]["errors"]:
                            raise Broken("not-error", f"{name}: agent told {x['res']['state']} {x['res']['errors']}")
                    check_record(m, k, f"{name} by {via}", rng)
                    ck.case(f"error {name} {via} among {len(req)}", {"failing spec": name, "errors": [e[:120] for e in res[k]["errors"]]})
                for k in good:
                    r = res[k]
                    if r["state"] != "terminated" or r["status"]["exit_code"] != 7 or fd_bytes(r["fds"]["stdout"]) != pattern(3000, int(k[5:])):
                        raise Broken("neighbour", f"{what}: healthy process {k} of the request: {r['state']} {r['errors']} {r['status']}")
                    m.delete(k)
                if mark.exists():
                    raise Broken("ran-anyway", f"{what}: the program ran")
                leftovers(m, {cpid}, slack, what)
            r = m.get("canary")
            if r["state"] != "running" or r["pid"] != cpid:
                raise Broken("canary", f"{r['state']}")
            m.signal("canary", "SIGKILL")
            m.wait_done("canary", 20 * slack)
            ck.seen("failed starts", len(L))
    finally:
        if srv:
            srv.close()


FAULTS = [("fork", False, [errno.EAGAIN, errno.ENOMEM]), ("pipe", False, [errno.EMFILE, errno.ENFILE]),
          ("mkstemp", False, [errno.EMFILE, errno.ENOSPC, errno.EACCES, errno.EROFS]), ("unlink", False, [errno.EIO, errno.EACCES]),
          ("open", True, [errno.EMFILE, errno.ENOSPC, errno.EIO, errno.ENFILE]), ("dup2", True, [errno.EMFILE, errno.EBADF]),
          ("setsid", True, [errno.EPERM]), ("execve", True, [errno.ENOMEM, errno.ETXTBSY, errno.EACCES, errno.EIO, errno.E2BIG]),
          ("fcntl", True, [errno.EMFILE]),
          ("watch", False, [errno.ENOSPC, errno.ENOMEM])]


def faults(ck, rng, slack, site, child, err):
    """A system call fails at each point it is made; every process either runs
    fully set up or is an error that never ran."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        m.start({"canary": sp(m, "pause")})
        cpid = m.get("canary")["pid"]
        # Started only once it is executed: a fault armed before that could hit it.
        wait_for(lambda: b"pause" in Path(f"/proc/{cpid}/cmdline").read_bytes(), 20 * slack, "canary executed")
        fired = missed = 0
        for after in range(40 if not ck.quick else 14):
            if ck.left() < -10:
                break
            d = m.dir / f"f{after}"
            d.mkdir()
            os.chmod(d, 0o777)
            # Numbers that the manager is using, too.
            nulls = list(range(10, 26)) if site == "fcntl" or rng.random() < 0.3 else []
            n = rng.choice([1, 3])
            req, chain = {}, {}
            for i in range(n):
                b = d / str(i)
                fds = [["0", {"null": {}}], ["stdout", cap("memory")], ["2", cap("tempfile")], ["5", {"file": {"path": f"{b}.file", "flags": "Write"}}],
                       ["6", {"dup": {"fd": 5}}], ["9", {"null": {}}]]
                fds += [[str(f), {"null": {}}] for f in nulls]
                req[f"{'bpz'[i]}{after}"] = sp(m, f"sid={b}.sid", f"fds={b}.fds", f"mark={b}.mark:x", "w=1:5000:1:0", "w=2:5000:2:0", "w=6:5000:3:0", "exit=9", fds=fds)
            # A pipe pair whose members may fail too.
            req["r"] = sp(m, f"rd=0:{d}/r.out", f"mark={d}/r.mark:x", "exit=9", fds=[["0", {"pipe-read": {"proc_id": "w", "fd": "stdout"}}]])
            req["w"] = sp(m, f"mark={d}/w.mark:x", "wx=1:200000:4:0", "exit=9", fds=[["1", "pipe-write"]])
            failed0 = m.ctl.get(site, child)["failed"]
            m.ctl.fail(site, err, after=after, child=child)
            r = m.post(req)
            hit = None
            if r.status == 200:
                hist = {}
                res = settle(m, list(req), slack, hist)
                m.ctl.disarm(site, child)
            else:
                m.ctl.disarm(site, child)
                m.check_alive()
                if not 400 <= r.status < 600:
                    raise Broken("status", f"{r.status}")
                time.sleep(0.05)
                if set(m.list()) != {"canary"} or list(d.glob("*.mark")):
                    raise Broken("refused-but-ran", f"{site} {err}: {list(m.list())} {list(d.glob('*.mark'))}")
                res = {}
            hit = m.ctl.get(site, child)["failed"] - failed0
            fired += hit
            if not hit:
                missed += 1
            what0 = f"{site}() fails with {errno.errorcode[err]} at its call {after} ({'child' if child else 'manager'}; fired {hit})"
            nerr = 0
            for i, k in enumerate(k for k in req if k not in "rw"):
                if not res:
                    break
                what, b, x = f"{what0}: {k}", d / str(i), res[k]
                ran = (d / f"{i}.mark").exists()
                if x["state"] == "error":
                    nerr += 1
                    check_failed(m, k, x, [os.strerror(err), f"os error {err}", site], what, hist[k])
                    if ran or (d / f"{i}.sid").exists():
                        raise Broken("ran-anyway", f"{what} ran although it is an error: {x['errors']}")
                    check_record(m, k, what, rng)
                    continue
                if x["state"] != "terminated" or x["status"]["exit_code"] != 9:
                    raise Broken("outcome", f"{what}: {x['state']} {x['status']} {x['errors']}; ran: {ran}")
                p, pp, pg, sid = map(int, (d / f"{i}.sid").read_text().split())
                if not (p == pg == sid and pp == m.pid):
                    raise Broken("partial-setup", f"{what}: ran with pid {p} ppid {pp} group {pg} session {sid}")
                table = {int(l.split()[0]): l.split(" ", 7)[-1] for l in (d / f"{i}.fds").read_text().splitlines() if l != "END"}
                if set(table) != {0, 1, 2, 5, 6, 9, *nulls} or any(table[f] != "/dev/null" for f in nulls) or table[0] != "/dev/null" or table[9] != "/dev/null" or table[5] != f"{b}.file" or table[6] != f"{b}.file" \
                        or not table[1].startswith("pipe:"):
                    raise Broken("partial-setup", f"{what}: ran with descriptors {table}")
                for fd, sd in (("stdout", 1), ("stderr", 2)):
                    if fd_bytes(x["fds"][fd]) != pattern(5000, sd):
                        raise Broken("partial-setup", f"{what}: {fd} {diff_at(fd_bytes(x['fds'][fd]), pattern(5000, sd))}")
                if (d / f"{i}.file").read_bytes() != pattern(5000, 3):
                    raise Broken("partial-setup", f"{what}: file")
            if res:
                for k, other in (("r", "w"), ("w", "r")):
                    x, what = res[k], f"{what0}: pipe {'reader' if k == 'r' else 'writer'}"
                    if x["state"] == "error":
                        nerr += 1
                        check_failed(m, k, x, [os.strerror(err), f"os error {err}", site], what, hist[k])
                        if (d / f"{k}.mark").exists():
                            raise Broken("ran-anyway", what)
                    elif x["state"] != "terminated":
                        raise Broken("outcome", f"{what}: {x['state']}")
                    elif k == "r":
                        if x["status"]["exit_code"] != 9:
                            raise Broken("outcome", f"{what}: {x['status']}")
                        got = (d / "r.out").read_bytes()
                        if got != (pattern(200000, 4) if res["w"]["state"] != "error" else b""):
                            raise Broken("neighbour", f"{what} got {len(got)} bytes; writer is {res['w']['state']}")
                    else:
                        ok = x["status"]["exit_code"] == 9 if res["r"]["state"] != "error" else (x["status"]["signum"] == 13 or x["status"]["exit_code"] in (77, 9))
                        if not ok:
                            raise Broken("neighbour", f"{what}: {x['status']}; reader is {res['r']['state']}")
                if nerr and not hit:
                    raise Broken("spurious-error", f"{what0}: {[(k, x['errors']) for k, x in res.items() if x['state'] == 'error']}")
            m.check_alive()
            leftovers(m, {cpid}, slack, what0)
            for k in (x for x in res if x in req):
                if m.get(k) is not None and m.delete(k).status != 200:
                    raise Broken("delete", f"{what0}: {k}")
            ck.case(f"fault {site} {'child' if child else 'parent'} {errno.errorcode[err]} call {after} {'refused' if not res else nerr}",
                    {"fault": what0, "errors": [x["errors"] for x in res.values() if x["state"] == "error"][:2]})
            if missed > 2:
                break
        # The manager still works.
        m.start({"final": sp(m, "w=1:10:1:0", "exit=1", fds=[["1", cap("memory")]])})
        r = m.wait_done("final", 20 * slack)
        if r["state"] != "terminated" or r["status"]["exit_code"] != 1:
            raise Broken("afterwards", f"after {site} faults: {r['state']} {r['errors']}")
        if m.get("canary")["state"] != "running":
            raise Broken("canary", "disturbed")
        ck.seen(f"faults fired: {site}", fired)


def killed_failing(ck, rng, slack):
    """A child that has already failed is killed before it is gone: still an error."""
    with Manager(ck, seed=rng.randrange(1 << 30)) as m:
        bed = Bed(m)
        mark = m.dir / "forbidden"
        m.ctl.delay("exit", 400_000, child=True)
        L = [x for x in bed.bad(rng, mark) if "NUL" not in x[0] and "bad" not in str(x[2])]
        for i, (name, spec, words) in enumerate(rng.sample(L, 6)):
            k = f"k{i}"
            at = m.ctl.get("exit", True)["calls"]
            if m.post({k: spec}).status != 200:
                continue
            # Having failed and said so, it is about to end.
            wait_for(lambda: m.ctl.get("exit", True)["calls"] > at, 20 * slack, "failed child ends")
            s = rng.choice(["SIGKILL", "SIGTERM", "SIGSEGV"])
            got = m.signal(k, s).status
            r = m.wait_done(k, 20 * slack)
            check_failed(m, k, r, words, f"{name}, sent {s} ({got}) while failing", None)
            ck.seen("failed starts signalled before they were gone")
            if mark.exists():
                raise Broken("ran-anyway", f"{name}, sent {s}")
            m.delete(k)
            ck.case(f"signalled while failing {name} {s}")


def starved(ck, rng, slack):
    """Really out of descriptors: some starts fail, the manager goes on."""
    with Manager(ck, nofile=rng.choice([24, 32, 48]), seed=rng.randrange(1 << 30)) as m:
        os.chmod(m.dir, 0o777)
        conn = m.connection(60)
        m.http("GET", "/procs", conn=conn)
        n = 20
        mode = rng.choice(["memory", "tempfile"])
        for rnd in range(3):
            req = {f"s{i:02}": sp(m, f"mark={m.dir}/s{rnd}.{i}:x", "w=1:2000:1:0", f"waitfile={m.dir}/go{rnd}", "exit=5", fds=[["1", cap(mode)], ["2", cap("memory")]]) for i in range(n)}
            r = m.post(req, conn=conn)
            (m.dir / f"go{rnd}").touch()
            if r.status != 200:
                raise Broken("status", f"start with few descriptors: {r.status} {r.body[:200]!r}")
            end = time.monotonic() + 30 * slack
            while True:
                res = m.http("GET", "/procs", conn=conn).json()["data"]["procs"]
                if all(x["state"] != "running" for x in res.values()):
                    break
                if time.monotonic() > end:
                    raise Hang("processes started with few descriptors end")
                time.sleep(0.01)
            bad = 0
            for i in range(n):
                x = res[f"s{i:02}"]
                ran = (m.dir / f"s{rnd}.{i}").exists()
                if x["state"] == "error":
                    bad += 1
                    check_failed(m, f"s{i:02}", x, None, f"start {i} of {n} out of descriptors", None)
                    if ran:
                        raise Broken("ran-anyway", f"start {i} of {n} out of descriptors: {x['errors']}")
                elif x["state"] != "terminated" or x["status"]["exit_code"] != 5 or fd_bytes(x["fds"]["stdout"]) != pattern(2000, 1):
                    raise Broken("outcome", f"start {i} of {n} out of descriptors: {x['state']} {x['status']} {x['errors']} {str(x['fds'])[:200]}")
                ck.case(f"starved {mode} {rnd} {i} {x['state']}")
            for i in range(n):
                if m.delete(f"s{i:02}", conn=conn).status != 200:
                    raise Broken("delete", f"s{i:02}")
            ck.seen("starts failed for lack of descriptors", bad)
            leftovers(m, set(), slack, "out of descriptors")
        conn.close()
        m.start({"final": sp(m, "exit=1", fds=[["1", cap(mode)]])})
        if m.wait_done("final", 20 * slack)["status"]["exit_code"] != 1:
            raise Broken("afterwards", "start after the shortage")


def batch(ck, rng, slack):
    """Failed starts in a batch run's report."""
    class D:
        pass
    d = D()
    d.dir, d.probe = ck.scratch / f"b{ck.next_uid()}", str(ck.probe)
    d.dir.mkdir()
    bed = Bed(d)
    mark = d.dir / "forbidden"
    L = [x for x in bed.bad(rng, mark)]
    rng.shuffle(L)
    L = L[: rng.choice([1, 5, len(L)])]
    req = {f"{rng.choice('am')}{i}": s for i, (_, s, _) in enumerate(L)}
    keys = list(req)
    req.update({f"{x}good": sp(d.probe, "exit=7") for x in "abz"})
    with Manager(ck, ["--print"], serve=False, spec={"specs": req}, nofile=1024) as m:
        rc = m.wait_exit(40 * slack)
        if rc != 0:
            raise Broken("batch-exit", f"batch run with failing processes exits {rc}: {m.stderr()[-300:]}")
        res = json.loads(m.stdout())
        if set(res) != set(req):
            raise Broken("record-lost", f"report lacks {set(req) - set(res)}")
        for k, (name, _, words) in zip(keys, L):
            check_failed(m, k, res[k], words, f"{name} in a batch run", None)
            ck.case(f"batch {name} {len(L)}")
        for x in "abz":
            if res[f"{x}good"]["state"] != "terminated" or res[f"{x}good"]["status"]["exit_code"] != 7:
                raise Broken("neighbour", f"{x}good: {res[f'{x}good']['state']}")
        if mark.exists():
            raise Broken("ran-anyway", "in a batch run")
        leftovers(m, set(), slack, "batch run")


def main(ck):
    plan = [(f"faults-{s}-{'child' if ch else 'parent'}-{errno.errorcode[e]}", faults, s, ch, e) for s, ch, es in FAULTS for e in (es[:1] if ck.quick else es)]
    def make(i):
        if i < len(plan):
            return plan[i]
        r = ck.rng("make", i)
        j = i - len(plan)
        c = j % 6
        if c == 5:
            return (f"killed-failing#{j}", killed_failing)
        if c in (0, 2):
            return (f"specs#{j}", specs, c == 2)
        if c == 1:
            return (f"starved#{j}", starved)
        if c == 3:
            return (f"batch#{j}", batch)
        s, ch, es = r.choice(FAULTS)
        e = r.choice(es)
        return (f"faults-{s}#{j}", faults, s, ch, e)
    ck.run_many(make, workers=8, at_least=len(plan) + 8)


if __name__ == "__main__":
    run_check("P06", "each case is one spec that cannot be started (by kind and interface), or one injected failure of one system call at one point "
              "of starting several processes, or one start out of descriptors; the record, the absence of any run or surviving copy, and the "
              "health of all other processes are checked",
              main, quick_s=16, thorough_s=300, level="fault_enumeration")
