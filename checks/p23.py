"""P23: agents talk to verified servers only, and servers to authorised agents only."""
import os, random, select, socket, ssl, string, threading, time
from core import *
from mgr import *
from agentsrv import *
from certs import *
import pysrv
from pysrv import PyServer, RefAgent, pexc

HOST = "agents.example.test"
PAST, FUTURE = "20210101000000Z", "20440101000000Z"


def authorities(ck):
    """Everything that can be presented, and whether it may be accepted."""
    a = Authority(ck.scratch / "certs")
    w = {}
    root = a.root("Trusted")
    inter = a.root("Intermediate", issuer=root)
    evil = a.root("Trusted")            # the same name, another key
    evil_inter = a.root("Intermediate", issuer=evil)
    not_ca = a.leaf(f"DNS:{HOST},DNS:localhost", root, cn="not a CA")
    plen0 = a.root("No further", plen=",pathlen:0", issuer=root)
    beyond = a.root("Beyond", issuer=plen0)
    constrained = a.root("Constrained", extra="nameConstraints=critical,permitted;DNS:elsewhere.test\n", issuer=root)
    old_inter = a.root("Expired intermediate", issuer=root, end=PAST)
    new_inter = a.root("Future intermediate", issuer=root, start=FUTURE)
    no_sign = a.make("May not sign", "basicConstraints=critical,CA:TRUE\nkeyUsage=critical,digitalSignature\n", root)
    names = {HOST: f"DNS:{HOST}", "localhost": "DNS:localhost", "127.0.0.1": "IP:127.0.0.1"}
    for h, san in names.items():
        d = w[h] = {}
        d["good"] = (True, a.leaf(san, root))
        d["good, several names"] = (True, a.leaf(f"DNS:other.test,{san},DNS:third.test", root))
        d["good, by an intermediate"] = (True, a.leaf(san, inter))
        d["good, server usage"] = (True, a.leaf(san, root, extra="extendedKeyUsage=serverAuth\n"))
        d["other name"] = (False, a.leaf("DNS:other.test", root))
        d["other name, its own host as common name"] = (False, a.leaf("DNS:other.test", root, cn=h))
        d["other address"] = (False, a.leaf("IP:10.1.2.3", root))
        d["wildcard not matching"] = (False, a.leaf(f"DNS:*.{h},DNS:*", root))
        d["name as prefix"] = (False, a.leaf(f"DNS:{h}.evil.test,DNS:evil{h}", root))
        d["parent name"] = (False, a.leaf("DNS:example.test,DNS:test", root))
        d["expired"] = (False, a.leaf(san, root, end=PAST))
        d["not yet valid"] = (False, a.leaf(san, root, start=FUTURE))
        d["self-signed"] = (False, a.leaf(san))
        d["unknown root"] = (False, a.leaf(san, evil))
        d["unknown root, by an intermediate"] = (False, a.leaf(san, evil_inter))
        d["issued by no CA"] = (False, a.leaf(san, not_ca))
        d["path too long"] = (False, a.leaf(san, beyond))
        d["name constraints"] = (False, a.leaf(san, constrained)) if ":127" not in san else (False, a.leaf("DNS:other.test", root))
        d["expired intermediate"] = (False, a.leaf(san, old_inter))
        d["future intermediate"] = (False, a.leaf(san, new_inter))
        d["issuer may not sign"] = (False, a.leaf(san, no_sign))
        d["client usage only"] = (False, a.leaf(san, root, extra="extendedKeyUsage=clientAuth\n"))
        g = a.leaf(san, inter)
        d["intermediate missing"] = (False, g, g.pem())
        f = a.leaf(san, evil)
        d["foreign chain glued on"] = (False, f, f.pem() + root.pem())
        d["root itself sent along"] = (False, a.leaf(san, evil_inter), None)
        bad = bytearray(ssl.PEM_cert_to_DER_cert(g.pem().decode()))
        bad[-5] ^= 1
        d["broken signature"] = (False, g, ssl.DER_cert_to_PEM_cert(bytes(bad)).encode() + inter.pem())
        if h == HOST:
            d["good, wildcard"] = (True, a.leaf("DNS:*.example.test", root))
            d["wildcard too high"] = (False, a.leaf("DNS:*.test", root))
            d["wildcard elsewhere"] = (False, a.leaf("DNS:*.example.org", root))
    selfs = {h: a.leaf(san) for h, san in names.items()}
    return a, w, root, evil, selfs


PLAIN = ["plain-http", "plain-eager", "plain-frames", "plain-echo", "redirect", "anonymous", "no-cipher"]


class Hostile:
    """One connection of an unverified server, which does all it can to be obeyed."""
    def __init__(self, c, mark):
        self.c, self.mark = c, mark
        self.raw_in, self.app, self.shook = b"", b"", False
        self.over = None

    def temptation(self):
        return (self.c_answer + Conn.frame(2, msgpack.packb({"type": "Registered"}))
                + Conn.frame(2, msgpack.packb({"type": "ProcStartRequest", "specs": {"evil": {"argv": ["/bin/sh", "-c", f"echo >{self.mark}"]}}})))

    @property
    def c_answer(self):
        self.c.handshake = self.app.split(b"\r\n\r\n")[0]
        return self.c.answer()

    def tls(self, ctx):
        inb, outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        o = ctx.wrap_bio(inb, outb, server_side=True)
        raw, end, tempted = self.c.raw, time.monotonic() + 6, 0
        raw.settimeout(0.2)
        try:
            while time.monotonic() < end:
                try:
                    d = raw.recv(65536)
                    if not d:
                        self.over = "eof"
                        return
                    self.raw_in += d
                    inb.write(d)
                except socket.timeout:
                    pass
                try:
                    if not self.shook:
                        o.do_handshake()
                        self.shook = True
                    while True:
                        x = o.read(65536)
                        if not x:
                            break
                        self.app += x
                except ssl.SSLWantReadError:
                    pass
                if self.shook and tempted < 1 + (b"\r\n\r\n" in self.app):
                    tempted += 1
                    o.write(self.temptation())
                x = outb.read()
                if x:
                    raw.sendall(x)
            self.over = "timeout"
        except ssl.SSLError as e:
            self.over = f"tls: {e}"
            try:
                raw.sendall(outb.read())
            except OSError:
                pass
        except OSError as e:
            self.over = str(e)

    def plain(self, how):
        raw, end = self.c.raw, time.monotonic() + 6
        raw.settimeout(0.2)
        try:
            if how == "plain-eager":
                raw.sendall(self.temptation())
            elif how == "plain-frames":
                raw.sendall(Conn.frame(2, msgpack.packb({"type": "Registered"})))
            while time.monotonic() < end:
                try:
                    d = raw.recv(65536)
                except socket.timeout:
                    continue
                if not d:
                    self.over = "eof"
                    return
                self.raw_in += d
                if how == "plain-echo":
                    raw.sendall(d)
                elif how == "redirect":
                    raw.sendall(f"HTTP/1.1 301 Moved\r\nLocation: ws://localhost:{self.c.srv.port}/\r\nContent-Length: 0\r\n\r\n".encode())
                elif how == "plain-http":
                    raw.sendall(self.temptation())
            self.over = "timeout"
        except OSError as e:
            self.over = str(e)


def trust(ck, rng, slack, world):
    """An agent meets a sequence of servers, genuine and not, on one address."""
    a, certs, root, evil, selfs = world
    host = rng.choice([HOST, HOST, "localhost", "127.0.0.1"])
    config = rng.choice(["explicit", "explicit", "system", "both", "self-signed", "none", "missing", "garbage", "wrong root"])
    tag = "".join(rng.choice(string.ascii_letters) for _ in range(24))
    # Configured with a token, an empty one, or none.
    token = tag if rng.random() < 0.7 else rng.choice(["", None])
    env, can = {"VI_HOSTS": "1"}, config in ("explicit", "system", "both")
    copy = lambda cert, n: (ck.scratch / n).write_bytes(cert.pem()) and str(ck.scratch / n)
    explicit = None
    if config in ("explicit", "both"):
        explicit = copy(root, f"r{tag}.pem")
    if config == "self-signed":
        explicit = copy(selfs[host], f"r{tag}.pem")
    if config == "wrong root":
        explicit = copy(evil, f"r{tag}.pem")
    if config == "system":
        env["SSL_CERT_FILE"] = copy(root, f"r{tag}.pem")
    if config == "both":
        env["SSL_CERT_FILE"] = copy(evil, f"e{tag}.pem")
    if config == "missing":
        explicit = "/nonexistent/cert.pem"
    if config == "garbage":
        (ck.scratch / f"r{tag}.pem").write_bytes(rng.choice([b"", b"nonsense", root.pem()[:200], b"\xff\xfe"]))
        explicit = str(ck.scratch / f"r{tag}.pem")
    if explicit:
        env["PROCSTAR_AGENT_CERT"] = explicit
        if explicit.startswith(str(ck.scratch)):
            os.chmod(explicit, 0o644)
    if "SSL_CERT_FILE" in env:
        os.chmod(env["SSL_CERT_FILE"], 0o644)
    book = certs[host]
    evils = [k for k, v in book.items() if not v[0]]
    if config == "both":       # the "system" trusts the other root as well
        evils = [k for k in evils if k not in ("unknown root", "unknown root, by an intermediate", "foreign chain glued on", "root itself sent along")]
    if config == "wrong root":
        evils = [k for k in evils if k not in ("unknown root", "unknown root, by an intermediate", "foreign chain glued on", "root itself sent along")] + ["good", "good, by an intermediate"]
    if config == "self-signed":
        evils = evils + ["good", "good, by an intermediate"]
    if config in ("none", "missing", "garbage"):
        evils = evils + ["good"]
    goods = [k for k, v in book.items() if v[0]] if can else ["self-signed, configured"] if config == "self-signed" else []
    plan = []
    for _ in range(rng.choice([4, 7])):
        plan.append(("bad", rng.choice(evils + PLAIN)))
        if goods and rng.random() < 0.3:
            plan.append(("good", rng.choice(goods)))
    if goods:
        plan.append(("good", rng.choice(goods)))
    mark = ck.scratch / f"mark-{tag}"
    met = {}
    lock = threading.Lock()

    def policy(c):
        kind, how = plan[c.index] if c.index < len(plan) else ("bad", "plain-http")
        if kind == "good":
            with lock:
                c.ctx = a.context(selfs[host] if how == "self-signed, configured" else book[how][1])
            met[c.index] = "good"
            return ok(c)
        h = Hostile(c, mark)
        try:
            if how in PLAIN:
                if how in ("anonymous", "no-cipher"):
                    with lock:
                        ctx = a.context(None, ciphers="aNULL:@SECLEVEL=0" if how == "anonymous" else "NULL:@SECLEVEL=0")
                    h.tls(ctx)
                else:
                    h.plain(how)
            else:
                e = book[how]
                with lock:
                    ctx = a.context(e[1], *e[2:3])
                h.tls(ctx)
        finally:
            h.over = h.over or "error"
            met[c.index] = h
    with AgentServer(policy) as srv, agent(ck, srv, cert=None, host=host, token=token, serve=True, extra_env=env, interval=(0.01, 1.0, 0.01)) as m:
        for k, (kind, how) in enumerate(plan):
            where = f"host {host}, trust {config}: {how}" + (f" after {plan[k - 1]}" if k else "")
            if config in ("missing", "garbage"):
                # May not even try.
                try:
                    wait_for(lambda: len(srv.conns) > k, 0.4, "connection")
                except Hang:
                    m.check_alive()
                    ck.case(("no attempt", config), {"trust": config, "outcome": "no attempt without a usable root"})
                    break
            c = wait_for(lambda: len(srv.conns) > k and srv.conns[k], 10 * slack, f"{where}: agent connects")
            if kind == "good":
                wait_for(lambda: c.phase == "connected" or c.closed, 10 * slack, f"{where}: registers")
                if c.closed:
                    raise Broken("good-refused", f"{where}: the agent did not accept it: {c.error}; {m.stderr()[-300:]}")
                if c.register["access_token"] != (token or ""):
                    raise Broken("token", f"{where}: presented token {c.register['access_token']!r} instead of {token!r}")
                c.barrier(10 * slack)
                c.drop(rst=rng.random() < 0.5)
            else:
                h = wait_for(lambda: met.get(k), 12 * slack, f"{where}: it is over")
                if h.app:
                    raise Broken("talked-to-unverified", f"{where}: the agent sent it {h.app[:200]!r}")
                if token and token.encode() in h.raw_in or b"agent-1" in h.raw_in or b"GET " in h.raw_in:
                    raise Broken("sent-in-clear", f"{where}: the agent sent {h.raw_in[:200]!r}")
                if h.raw_in and h.raw_in[:2] != b"\x16\x03":
                    raise Broken("sent-in-clear", f"{where}: not a TLS greeting: {h.raw_in[:60]!r}")
                if h.over == "timeout":
                    raise Hang(f"{where}: the agent stays with it")
                if mark.exists() or m.list():
                    raise Broken("obeyed-unverified", f"{where}: the agent ran its process")
                ck.seen("handshakes completed by an unverified server", int(h.shook))
                ck.seen("bytes received by unverified servers", len(h.raw_in))
            ck.case((host, config, how, bool(token)), {"host": host, "trust": config, "token": "some" if token else token, "server": how, "outcome": "registered" if kind == "good" else "nothing sent"})
        m.check_alive()
        srv.check()


def wrong_tokens(rng, t):
    """Everything but `t`."""
    out = ["", t + "x", "x" + t, t[:-1], t[1:], t.swapcase(), t + " ", " " + t, t + "\0", "\0" + t, t + "\n", t.upper() + "-", t[::-1] + "!", t * 2, t.encode() + b"", t.encode(), [t], {t: t}, None, 0, 1, True, False,
           1.5, [], {}, t.replace("e", "é"), "*", "s3cret", "null", "None", t[: len(t) // 2], t + "\u200b", "\ufeff" + t, t[:1]]
    return [x for x in out if not (isinstance(x, str) and x == t)]


def tokens(ck, rng, slack, world):
    """The Python server against unauthorised connections, amid an authorised one."""
    t = rng.choice(["", "s3cret-Token", "".join(rng.choice(string.printable) for _ in range(40)), "токен é", "x" * 5000, "0", "None", "a"])
    src = rng.choice(["argument", "env"])
    if src == "env" and "\0" in t:
        src = "argument"
    with env_lock:
        if src == "env":
            os.environ["PROCSTAR_AGENT_TOKEN"] = t
            if t == "" and rng.random() < 0.5:
                del os.environ["PROCSTAR_AGENT_TOKEN"]
        srv = PyServer(token=t if src == "argument" else ...)
        os.environ.pop("PROCSTAR_AGENT_TOKEN", None)
    with srv:
        s = srv.server
        good = RefAgent(srv.port)
        good.register("good", group="G", token=t, proc_ids=["gp"])
        good.wait_registered(10 * slack)
        wait_for(lambda: srv.do(lambda: "good" in s.connections and "gp" in s.processes), 10 * slack, "authorised agent is known")
        good.send("ProcResult", proc_id="gp", res={"state": "running", "n": 0})

        def snap():
            return ([(k, id(c), id(c.ws), c.open, c.shutdown_state, c.info.stats.num_connections) for k, c in s.connections.items()], [(k, id(p), p.conn_id) for k, p in s.processes.items()],
                    {g: sorted(i) for g, i in s.connections.groups.items()})
        events = []

        async def watch():
            with s.connections.subscription() as sub:
                async for e in sub:
                    events.append(e[0])
        watcher = srv.task(watch())
        before = srv.do(snap)
        rounds = 0
        wrongs = wrong_tokens(rng, t)
        while rounds < 14:
            rounds += 1
            kind = rng.choice(["token", "token", "token", "missing", "first", "raw"])
            cid = rng.choice(["good", "intruder", ""])
            group = rng.choice(["G", "default", "X"])
            x = RefAgent(srv.port)
            what = None
            try:
                if rng.random() < 0.2:
                    x.send_frame(9, b"ping")
                if kind == "token":
                    what = rng.choice(wrongs)
                    x.register(cid, group=group, token=what, proc_ids=rng.choice([[], ["gp"], ["evil"]]), state=rng.choice(["active", "done"]), over=rng.choice([{}, {"extra": 1}, {"token": t}, {"accessToken": t}]))
                elif kind == "missing":
                    what = rng.choice(["no token", "no conn", "no state", "conn is a list"])
                    d = {"type": "Register", "conn": {"conn_id": cid, "group_id": group, "restricted_exe": None}, "proc": pysrv.PROC, "proc_ids": [], "access_token": t, "shutdown_state": "active"}
                    if what == "no token":
                        del d["access_token"]
                    elif what == "no conn":
                        del d["conn"]
                    elif what == "no state":
                        del d["shutdown_state"]
                    else:
                        d["conn"] = [cid, group, None]
                    x.send_frame(2, msgpack.packb(d))
                elif kind == "first":
                    what = rng.choice(["ProcResult", "ProcDelete", "ShutDown", "ProcidList", "Registered", "register", "Nothing", "ProcUnknown", "ConnectionTimeout"])
                    x.send(what, **rng.choice([{"proc_id": "gp"}, {"proc_id": "gp", "res": {"state": "terminated"}}, {"proc_ids": ["evil"]}, {"shutdown_state": "done"}, {"access_token": t}]))
                else:
                    what = rng.choice([b"", b"\xc1", b"\x80", b"\x90", b"null", b"\xdc\xff\xff", b"\x81\xa4type\xa8Register", b"x" * 1000])
                    x.send_frame(rng.choice([1, 2]), what if rng.random() < 0.7 else b"{}")
                # ... and whatever it goes on to say.
                for _ in range(rng.choice([0, 2])):
                    x.send("ProcResult", proc_id=rng.choice(["gp", "evil2"]), res={"state": "error"})
                    x.send("ProcDelete", proc_id="gp")
                    x.send("ShutDown", shutdown_state="done")
            except Closed:
                pass
            where = f"token {t[:40]!r} from {src}: {kind} {what!r:.100} as {cid!r} in {group!r}"
            x.wait_closed(10 * slack, f"{where}: refused connection is closed")
            if x.msgs:
                raise Broken("unauthorised-served", f"{where}: the server sent {str(x.msgs)[:300]}")
            x.drop()
            after = srv.do(snap)
            if after != before:
                raise Broken("unauthorised-recorded", f"{where}: server's tables before {before}, after {after}")
            if group != "G":
                try:
                    srv.co(s.request_start("q", {"argv": ["true"]}, group_id=group))
                    raise Broken("unauthorised-chosen", f"{where}: a process was assigned to it")
                except pexc.NoOpenConnectionInGroup:
                    pass
            ck.case(("token", src, t == "", kind, str(what)[:30] if kind != "token" else wrongs.index(what) if not isinstance(what, bool) else str(what), cid, group), {"configured": repr(t)[:30], "presented": f"{kind} {what!r:.60}", "as": cid})
        # An unfinished connection is nobody either.
        y = RefAgent(srv.port)
        time.sleep(0.02)
        if srv.do(snap) != before:
            raise Broken("unauthorised-recorded", "an unregistered connection is recorded")
        y.drop()
        if events:
            raise Broken("unauthorised-recorded", f"connection events published: {events}")
        watcher.cancel()
        # The authorised one has not noticed.
        p = srv.co(s.request_start("r", {"argv": ["true"]}, group_id="G"))
        good.wait(lambda m: m.get("type") == "ProcStartRequest" and "r" in m["specs"], 10 * slack, 0, "start request to the authorised agent")
        good.send("ProcResult", proc_id="r", res={"state": "running", "fds": {}})
        srv.co(anext(p.updates))
        r = srv.co(anext(s.processes["gp"].updates))
        if r.state != "running" or r.n != 0:
            raise Broken("unauthorised-recorded", f"update of another's process: {r}")
        if good.closed is not None or good.control:
            raise Broken("authorised-disturbed", f"{good.closed} {good.control}")
        good.drop()
        if srv.errors:
            raise Broken("server-error", str(srv.errors[:2]))


env_lock = threading.Lock()


def both(ck, rng, slack, world):
    """The real agent and the real server: together only with the same token."""
    t = rng.choice(["", "tök en", "T" * 300, "abc"])
    wrong = rng.choice([None, "", t + "x", t[:-1], t.upper(), " " + t])
    if (wrong or "") == t:
        wrong = t + "!"
    with PyServer(token=t) as srv:
        s = srv.server

        class P:
            port = srv.port
        with agent(ck, P, conn_id="right", token=t if t or rng.random() < 0.5 else None, interval=(0.02, 1.0, 0.02)) as m, agent(ck, P, conn_id="wrong", group="W", token=wrong, interval=(0.02, 1.0, 0.02)) as w:
            wait_for(lambda: srv.do(lambda: "right" in s.connections), 15 * slack, "agent with the right token is registered")
            proc, res = srv.co(s.start("p", {"argv": ["/bin/true"]}))
            time.sleep(0.3)
            l = srv.do(lambda: sorted(s.connections))
            if l != ["right"]:
                raise Broken("unauthorised-recorded", f"token {t!r}, presented {wrong!r}: connections {l}")
            m.check_alive()
            w.check_alive()
            ck.case(("both", t, wrong), {"configured": t[:20], "presented": str(wrong)[:20], "outcome": "refused"})


def main(ck):
    world = authorities(ck)
    ck.seen("kinds of certificate", sum(len(v) for v in world[1].values()))

    def make(i):
        c = i % 6
        return (f"tokens#{i}", tokens, world) if c in (1, 4) else (f"both#{i}", both, world) if c == 5 else (f"trust#{i}", trust, world)
    ck.run_many(make, workers=7, at_least=14)


if __name__ == "__main__":
    run_check("P23", "one meeting of an agent and a server: the certificate or plaintext trick under a trust configuration, or the token or first message presented; bytes received, tables, replies and effects judged; "
              "distinct by these", main, quick_s=16, thorough_s=240)
