"""P11: under a restricted executable nothing else is ever executed."""
import os, shutil, threading
from core import *
from mgr import *
from agentsrv import *


def spellings(rng, exe, other, d):
    """Strings that are not the restricted executable, many naming the same file."""
    base, name = os.path.dirname(exe), os.path.basename(exe)
    rel = os.path.relpath(exe, "/")
    out = [
        exe + "/", exe + "/.", exe + " ", " " + exe, exe + "\n", exe + "\t", "/" + exe, exe.replace("/", "//"), exe.replace("/", "/./"),
        f"{base}/../{os.path.basename(base)}/{name}", f"./{rel}", rel, name, f"./{name}", exe.upper(), exe.swapcase(), exe[:-1], exe[1:], exe + "x",
        exe + "\u200b", "", " ", ".", "/", other, os.path.join(d, "link"), os.path.join(d, "hard"), os.path.join(d, "script"), "/bin/sh", "/bin/true", "sh",
        f"/proc/self/root{exe}", f"/proc/{os.getpid()}/root{exe}", "file://" + exe, exe * 2, exe + ":" + other, exe + "," + exe, f"{exe} --", f"\"{exe}\"", f"{exe}\\",
        "*", "null", "None", "/proc/self/exe", exe + "%00", "~" + exe, "$HOME", "/dev/null", "/nonexistent/x", base,
        unicode_variant(exe),
    ]
    out = [x for x in dict.fromkeys(out) if x != exe]
    return out


def unicode_variant(s):
    import unicodedata
    for f in ("NFD", "NFC", "NFKD"):
        t = unicodedata.normalize(f, s)
        if t != s:
            return t
    return s + "\u0301"


def restricted(ck, rng, slack, kind, use_agent):
    d = str(ck.scratch / f"r{ck.next_uid()}")
    os.mkdir(d)
    os.chmod(d, 0o777)
    name = rng.choice(["prog", "my prog", "prög\u00e9", "p-1.0_x", "x" * 60, "a=b", "P\u0301"])
    exe = os.path.join(d, name)
    other = os.path.join(d, "other")
    install(ck.probe, exe)
    install(ck.probe, other)
    os.symlink(exe, os.path.join(d, "link"))
    os.link(exe, os.path.join(d, "hard"))
    script(os.path.join(d, "script"), f"#!/bin/sh\necho script >> '{d}/forbidden'\nexec '{exe}' \"$@\"\n")
    limit = exe
    if kind == "relative":
        limit = f"./{name}" if rng.random() < 0.5 else name
    elif kind == "missing":
        limit = os.path.join(d, "not there")
    elif kind == "empty":
        limit = ""
    elif kind == "odd":
        limit = exe + "/"
    forb = os.path.join(d, "forbidden")
    bads = [x for x in spellings(rng, exe, other, d) + [exe] if x != limit]
    rng.shuffle(bads)
    n = [0]
    plan = {}

    def good():
        n[0] += 1
        k = f"g{n[0]}"
        f = os.path.join(d, k)
        argv = [limit if rng.random() < 0.5 else rng.choice(["zero", other, "", "/bin/sh"]), f"mark={f}:ran", "w=1:100:3:0", "exit=6"]
        s = {"argv": argv, "fds": [["stdout", cap("memory")]]}
        if argv[0] != limit or rng.random() < 0.5:
            s["exe"] = limit
        plan[k] = ("good", f, s)
        return k, s

    def bad(x):
        n[0] += 1
        k = f"b{n[0]}"
        how = rng.choice(["argv0", "exe", "exe-argv0-ok", "exe-no-argv", "both"])
        ops = [f"mark={forb}:{k}", "exit=6"]
        s = {"argv0": {"argv": [x, *ops]}, "exe": {"exe": x, "argv": ["z", *ops]}, "exe-argv0-ok": {"exe": x, "argv": [limit, *ops]},
             "exe-no-argv": {"exe": x, "argv": []}, "both": {"exe": x, "argv": [x, *ops]}}[how]
        if rng.random() < 0.3:
            s["fds"] = [["stdout", cap(rng.choice(["memory", "tempfile"]))], ["stderr", {"dup": {"fd": 1}}]]
        if rng.random() < 0.2:
            s["env"] = {"inherit": False, "vars": {"PATH": d, "LD_PRELOAD": "x", "RESTRICT_EXE": x}}
        plan[k] = ("bad", (x, how), s)
        return k, s

    def check(k, r):
        what, info, s = plan[k]
        if what == "bad":
            x, how = info
            if r["state"] != "error":
                raise Broken("not-refused", f"restricted to {limit!r}, exe {x!r} ({how}): state {r['state']} {r['errors']} {r['status']}")
            if not any(limit in e for e in r["errors"]):
                raise Broken("not-named", f"restricted to {limit!r}, exe {x!r} ({how}): errors {r['errors']}")
            ck.case(f"bad {kind} {how} {x.replace(d, 'D')}", {"limit": limit, "exe": x, "how": how, "errors": r["errors"]})
        elif kind in ("absolute", "relative"):
            if r["state"] != "terminated" or r["status"]["exit_code"] != 6 or fd_bytes(r["fds"]["stdout"]) != pattern(100, 3):
                raise Broken("wrongly-refused", f"restricted to {limit!r}, spec {s!r:.300}: {r['state']} {r['errors']} {r['status']} {str(r['fds'])[:200]}")
            if open(info).read().split()[0] != "ran":
                raise Broken("wrongly-refused", "did not run")
            ck.case(f"good {kind} exe={'exe' in s} {s['argv'][0] == limit}")
        else:
            if r["state"] != "error":
                raise Broken("not-refused", f"restricted to the unusable {limit!r}: {r['state']} {r['status']}")
            ck.case(f"unusable {kind}")
    srv = None
    args = ["--restrict-exe", limit] if limit or True else []
    if rng.random() < 0.5:
        args = [f"--restrict-exe={limit}"]
    try:
        if use_agent == "input":
            reqs = dict([good() for _ in range(3)] + [bad(x) for x in bads[:25]])
            m = Manager(ck, ["--exit", "--output", d + "/out", *args], serve=False, spec={"specs": reqs}, cwd=d)
            with m:
                if m.wait_exit(30 * slack):
                    raise Broken("batch-exit", m.stderr()[-400:])
                res = json.loads(open(d + "/out").read())
                ev = m.events()
                if set(res) != set(reqs):
                    raise Broken("records", f"{set(res) ^ set(reqs)}")
                for k, r in res.items():
                    check(k, r)
        else:
            if use_agent:
                srv = AgentServer()
                m = agent(ck, srv, *args, serve=True, cwd=d)
            else:
                m = Manager(ck, args, cwd=d)
            with m:
                c = srv.wait_conn(0, timeout=15 * slack) if srv else None
                if c and c.register["conn"]["restricted_exe"] != limit:
                    raise Broken("not-registered", f"registered restriction {c.register['conn']['restricted_exe']!r}, is {limit!r}")
                while bads:
                    part, bads = bads[:12], bads[12:]
                    reqs = [bad(x) for x in part] + [good() for _ in range(2)]
                    rng.shuffle(reqs)
                    reqs = dict(reqs)
                    # An allowed process connected to a refused one.
                    if rng.random() < 0.5 and kind == "absolute":
                        w = next(k for k in reqs if plan[k][0] == "bad")
                        k, s = good()
                        s["argv"][2:2] = [f"rd=0:{d}/{k}.in"]
                        s["fds"] = s["fds"] + [["stdin", {"pipe-read": {"proc_id": w, "fd": "7"}}]]
                        reqs[w] = dict(reqs[w], fds=[["7", "pipe-write"]])
                        reqs[k] = s
                    if c and rng.random() < 0.5:
                        c.send("ProcStartRequest", specs=reqs)
                        c.barrier(20 * slack)
                    elif rng.random() < 0.4:
                        errs = []

                        def one(k, s):
                            try:
                                m.start({k: s})
                            except BaseException as e:
                                errs.append(e)
                        if any("fds" in s and any(isinstance(f[1], dict) and "pipe-read" in f[1] or f[1] == "pipe-write" for f in s["fds"]) for s in reqs.values()):
                            m.start(reqs)
                        else:
                            ts = [threading.Thread(target=one, args=x) for x in reqs.items()]
                            [t.start() for t in ts]
                            [t.join() for t in ts]
                            if errs:
                                raise errs[0]
                    else:
                        m.start(reqs)
                    # Requests that try to change the restriction.
                    if rng.random() < 0.5:
                        x = other
                        k, s = bad(x)
                        for doc in ({"specs": {k: s}, "restrict_exe": x}, {"specs": {k: s}, "restricted_exe": None},
                                    {"specs": {k: dict(s, restrict_exe=x)}}, {"specs": {k: dict(s, restricted_exe="")}}):
                            m.http("POST", "/procs?restrict_exe=" + quote(x, safe=""), doc, headers={"X-Restrict-Exe": "none"})
                        if m.get(k):
                            reqs[k] = s
                        else:
                            del plan[k]
                        if c:
                            c.send("Register", conn={"restricted_exe": None})
                            c.send("Registered", restricted_exe=None)
                            c.barrier(20 * slack)
                    for k in reqs:
                        check(k, m.wait_done(k, 20 * slack))
                if c and rng.random() < 0.7:
                    # It reports the same when it registers again.
                    c.drop()
                    c2 = srv.wait_conn(1, timeout=20 * slack)
                    if c2.register["conn"]["restricted_exe"] != limit:
                        raise Broken("not-registered", f"registered again with {c2.register['conn']['restricted_exe']!r}, is {limit!r}")
                m.check_alive()
                ev = m.events()
        bad_exec = [" ".join(a) for _, p, k, a in ev if k == "execve" and p != m.pid and " ".join(a) != limit and "\n" not in limit]
        ck.seen("exec calls observed", sum(1 for e in ev if e[2] == "execve"))
        if bad_exec:
            raise Broken("executed", f"restricted to {limit!r} but executed {bad_exec[:4]}")
        if os.path.exists(forb):
            raise Broken("executed", f"restricted to {limit!r} but a program ran: {open(forb).read()[:200]}")
    finally:
        if srv:
            srv.close()


def unrestricted(ck, rng, slack):
    """Without a restriction there is none, and the agent reports none."""
    with AgentServer() as srv, agent(ck, srv, serve=True) as m:
        c = srv.wait_conn(0, timeout=15 * slack)
        if c.register["conn"]["restricted_exe"] is not None:
            raise Broken("not-registered", f"unrestricted but registered {c.register['conn']['restricted_exe']!r}")
        m.start({"a": sp(m, "exit=6")})
        if m.wait_done("a", 20 * slack)["status"]["exit_code"] != 6:
            raise Broken("wrongly-refused", "unrestricted")
        ck.case("unrestricted")


def main(ck):
    kinds = ["absolute", "absolute", "relative", "absolute", "missing", "absolute", "empty", "odd"]

    def make(i):
        if i % 16 == 15:
            return (f"unrestricted#{i}", unrestricted)
        return (f"restricted#{i}", restricted, kinds[i % 8], [False, True, "input", True, False, "input", True][i % 7])
    ck.run_many(make, workers=7, at_least=16)


if __name__ == "__main__":
    run_check("P11", "each case is one process under a restricted executable: a spelling (aliases of the same file, links, other programs, odd strings), the way it "
              "is given and the interface; judged by its record, by every exec call observed and by marks a program leaves if it runs; distinct by those", main,
              quick_s=12, thorough_s=200)
