"""P10: a process's environment is exactly as specified and never contains secrets."""
import collections, os, threading
from core import *
from mgr import *
from agentsrv import *

SECRETS = ["PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_TOKEN"]
NEAR = ["PROCSTAR_AGENT_TOKENS", "PROCSTAR_AGENT_TOKE", "procstar_agent_token", "PROCSTAR_AGENT_HOST", "PROCSTAR_AGENT", "XPROCSTAR_AGENT_KEY",
        "PROCSTAR_AGENT_CERT_", "PROCSTAR_AGENT_TOKEN ", " PROCSTAR_AGENT_KEY", "Procstar_Agent_Cert"]
NAMES = ["A", "a", "PATH", "HOME", "LANG", "_", "X_Y", "FOO", "foo", "a b", "é", "名", "𝄞", "x.y", "x-y", "1", "TAB\tX", "NL\nX", "\x01", "LD_LIBRARY_PATH",
         "IFS", "SHELL", "PWD", "TZ", "RUST_LOG", "RUST_BACKTRACE", "X" * 300, "%s", "$HOME", "\\", "\"", "'", "*", "\u00e9", "e\u0301"]
ODD = ["=", "A=B", "=A", "FOO=", "", "PATH==", "PROCSTAR_AGENT_KEY=x"]     # only ever set
VALUES = ["", "x", "=", "a=b", "==", "é€𝄞", "a b", "\n", "\r\n", "\t", "x\n y=z", "$HOME", "%d%s", "\x7f", "\x01", "\ufeff", "\u202e", "true", "null", " lead", "trail ", "\\n",
          "/usr/bin:/bin", "0", "y" * 5000]
RAW = [b"\xff", b"\xfe\xff", b"a\x80b", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9d\x84", b"ok\xffok", b"\x80" * 50]


def manager_env(rng, probe_dir):
    env = {}
    for n in rng.sample(NAMES, min(len(NAMES), rng.choice([0, 3, 12, 30]))):
        env[n.encode()] = rng.choice(VALUES).encode() if rng.random() < 0.75 else rng.choice(RAW)
    for n in rng.sample(NEAR, rng.choice([0, 2, len(NEAR)])):
        env[n.encode()] = b"near " + n.encode()
    for i in range(rng.choice([0, 0, 2, 5])):
        env[rng.choice(RAW) + b"%d" % i] = rng.choice([rng.choice(RAW), b"v", b""])
    if rng.random() < 0.15:
        for i in range(500):
            env[b"MANY_%d" % i] = b"%d" % (i * i)
    if rng.random() < 0.15:
        env[b"HUGE"] = b"h" * 100_000
    return env


def expected(menv, spec):
    inh = spec.get("inherit", True)
    if inh is True:
        out = dict(menv)
    elif inh is False:
        out = {}
    else:
        names = {n.encode() for n in inh}
        out = {k: v for k, v in menv.items() if k in names}
    for s in SECRETS:
        out.pop(s.encode(), None)
    for k, v in spec.get("vars", {}).items():
        if v is None:
            out.pop(k.encode(), None)
        else:
            out[k.encode()] = v.encode()
    return out


def env_spec(rng, menv):
    """(env spec or None, short description)"""
    if rng.random() < 0.08:
        return None, "default"
    names = [k.decode() for k in menv if _utf8(k)]
    spec = {}
    mode = rng.choice(["all", "all", "default", "none", "vars", "vars"])
    if mode == "all":
        spec["inherit"] = True
    elif mode == "none":
        spec["inherit"] = False
    elif mode == "vars":
        pool = names + NAMES[:5] + NEAR[:4] + SECRETS + ["NOT_SET", ""]
        spec["inherit"] = [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 10, 40]))]
        if rng.random() < 0.3:
            spec["inherit"] += SECRETS
        if rng.random() < 0.1:
            spec["inherit"] = names
    if rng.random() < 0.7:
        v = {}
        for _ in range(rng.choice([0, 1, 2, 6, 20])):
            n = rng.choice((names or NAMES) if rng.random() < 0.5 else NAMES + NEAR + SECRETS + [f"NEW{rng.randrange(9)}"])
            if rng.random() < 0.03:
                n = rng.choice(ODD)
            v[n] = None if rng.random() < 0.3 else rng.choice(VALUES)
        spec["vars"] = v
    nv = len(spec.get("vars", {}))
    return spec, f"{mode} {len(spec['inherit']) if mode == 'vars' else ''} vars{nv} {sorted(spec.get('vars', {}))!r:.80}"


def _utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def read_env(path):
    raw = path.read_bytes()
    items = raw.split(b"\0")
    if items.pop() != b"":
        raise Inconclusive("incomplete environment dump")
    return collections.Counter(items), raw


def compare(got, want, how):
    want = collections.Counter(k + b"=" + v for k, v in want.items())
    if got != want:
        raise Broken("wrong-environment", f"{how}: unexpected {str([x[:60] for x in got - want])[:400]}, missing {str([x[:60] for x in want - got])[:400]}")


def envs(ck, rng, slack, use_agent, preload, how):
    menv = {b"HOME": b"/x", **manager_env(rng, None)}
    secret = b"SECRET-" + bytes(rng.choice(b"abcdefgh") for _ in range(16))
    for s in rng.sample(SECRETS, rng.choice([1, 2, 3])):
        menv[s.encode()] = secret + s.encode()
    srv = None
    d = ck.scratch / f"env{ck.next_uid()}"
    d.mkdir()
    os.chmod(d, 0o777)
    specs, plan = {}, {}
    rounds = 1 if how == "input" else 8

    def make(n, tag, menv):
        out = {}
        for i in range(n):
            e, desc = env_spec(rng, menv)
            k = f"{tag}.{i}"
            f = d / k
            plan[k] = (f, e, desc)
            s = {"argv": [str(ck.probe), f"env={f}", "exit=3"]}
            if e is not None:
                s["env"] = e
            out[k] = s
        return out

    def verify(k, r, menv):
        f, e, desc = plan[k]
        if r["state"] != "terminated" or r["status"]["exit_code"] != 3:
            raise Broken("start-failed", f"env {e!r:.300}: {r['state']} {r['errors']} {r['status']}")
        got, raw = read_env(f)
        if secret in raw:
            raise Broken("secret-leaked", f"env {e!r:.300}: {[x[:60] for x in raw.split(bytes(1)) if secret in x]}")
        compare(got, expected(menv, e or {}), f"env spec {e!r:.400}")
        ck.case(f"{len(menv)} {desc}", {"spec": repr(e)[:300], "manager variables": len(menv), "received": len(got)})
        ck.seen("variables compared", len(got))
    try:
        if how == "input":
            doc = {"specs": make(12, "i", menv)}
            with Manager(ck, ["--exit", "--output", str(d / "o")], serve=False, spec=doc, env=menv, preload=preload) as m:
                if m.wait_exit(30 * slack):
                    raise Broken("batch-exit", m.stderr()[-400:])
                for k, r in json.loads((d / "o").read_bytes()).items():
                    verify(k, r, menv)
            return
        kw = dict(env=menv, preload=preload)
        if use_agent:
            srv = AgentServer()
            # The agent's own credentials, which it must use but not pass on.
            for k in SECRETS:
                menv.pop(k.encode(), None)
            tok = secret.decode() + "tok"
            m = agent(ck, srv, serve=True, token=tok, **kw)
        else:
            m = Manager(ck, **kw)
        with m:
            c = srv.wait_conn(0, timeout=15 * slack) if srv else None
            if c and c.register["access_token"] != tok:
                raise Broken("token", "registered with another token")
            for t in range(rounds):
                reqs = make(rng.choice([1, 4, 12]), f"r{t}", menv)
                if t == rounds - 1:
                    # The manager's own environment is what it was.
                    k = "last"
                    plan[k] = (d / k, {}, "last")
                    reqs = {k: {"argv": [str(ck.probe), f"env={d / k}", "exit=3"], "env": {}}}
                if c and rng.random() < 0.5:
                    c.send("ProcStartRequest", specs=reqs)
                    c.barrier(20 * slack)
                elif rng.random() < 0.3 and len(reqs) > 1:
                    ts = [threading.Thread(target=m.start, args=({k: s},)) for k, s in reqs.items()]
                    [x.start() for x in ts]
                    [x.join() for x in ts]
                else:
                    m.start(reqs)
                for k in reqs:
                    verify(k, m.wait_done(k, 20 * slack), menv)
                    m.delete(k)
            if secret.decode() in m.stderr():
                ck.seen("secret on stderr")
    finally:
        if srv:
            srv.close()


def main(ck):
    def make(i):
        c = i % 8
        return (f"envs#{i}", envs, c in (2, 6), c % 2 == 0, "input" if c in (3, 7) else "http")
    ck.run_many(make, workers=7, at_least=16)


if __name__ == "__main__":
    run_check("P10", "each case is one process whose environ at exec, byte for byte, is compared with a model of its env spec over a random manager "
              "environment (empty, non-UTF-8, newline, huge, near-credential names); distinct by spec mode, variables and manager environment size", main,
              quick_s=12, thorough_s=200, assumptions=["variable names are without NUL"])
