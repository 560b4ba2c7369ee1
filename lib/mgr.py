"""Runs procstar instances as unprivileged users in scratch directories."""
import base64, http.client, json, mmap, os, re, signal, socket, struct, subprocess, threading, time
import random
from pathlib import Path
from urllib.parse import quote

from core import Broken, Hang, Inconclusive, wait_for

SITES = ["fork", "wait4", "kill", "execve", "close", "dup2", "pipe", "mkstemp", "open", "setsid",
         "read", "write", "epoll", "fcntl", "accept", "unlink", "lseek", "pread", "lookup", "forked", "exit", "watch"]


class Ctl:
    """The interposer's shared control page."""
    SLOT = struct.Struct("<iiiIIIII")

    def __init__(self, path):
        with open(path, "wb") as f:
            f.write(b"".join(self.SLOT.pack(0, -1, 0, 0, 0, 0, 0, 0) for _ in range(127)) + bytes(32))
        os.chmod(path, 0o666)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)

    def _at(self, site, child):
        return (SITES.index(site) * 2 + int(child)) * 32

    def get(self, site, child=False):
        v = self.SLOT.unpack_from(self.m, self._at(site, child))
        return dict(zip(("errno", "after", "sticky", "delay_us", "delay_pm", "calls", "failed", "short"), v))

    def fail(self, site, errno, after=0, child=False, sticky=0):
        o = self._at(site, child)
        struct.pack_into("<i", self.m, o, errno)
        struct.pack_into("<i", self.m, o + 8, sticky)
        struct.pack_into("<i", self.m, o + 4, after)

    def disarm(self, site, child=False):
        struct.pack_into("<i", self.m, self._at(site, child) + 4, -1)

    def delay(self, site, us, pm=1000, child=False):
        struct.pack_into("<II", self.m, self._at(site, child) + 12, us, pm)

    def set_clock(self, seconds):
        """Sets the manager's wall clock off by so much."""
        struct.pack_into("<q", self.m, 127 * 32, seconds)

    def short(self, site, n, child=False):
        struct.pack_into("<I", self.m, self._at(site, child) + 28, n)


_ports = set()
_ports_lock = threading.Lock()


def free_port():
    """A free port, given to no one else in this process before."""
    for _ in range(500):
        p = random.SystemRandom().randint(20000, 31999)
        with _ports_lock:
            if p in _ports:
                continue
            _ports.add(p)
            if len(_ports) > 10000:
                _ports.clear()
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", p))
            return p
        except OSError:
            continue
        finally:
            s.close()
    raise Inconclusive("no free port")


def pids_of_uid(uid):
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if os.stat(f"/proc/{d}").st_uid == uid or _status_uid(d) == uid:
                    out.append(int(d))
            except OSError:
                pass
    return out


def _status_uid(pid):
    try:
        with open(f"/proc/{pid}/status", errors="replace") as f:
            for line in f:
                if line.startswith("Uid:"):
                    return int(line.split()[1])
    except OSError:
        pass
    return None


def proc_stat(pid):
    """(comm, fields after comm) of /proc/PID/stat, or None."""
    try:
        with open(f"/proc/{pid}/stat", "rb") as f:
            t = f.read()
    except OSError:
        return None
    i, j = t.index(b"("), t.rindex(b")")
    return t[i + 1 : j], t[j + 2 :].decode().split()


class Response:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body

    def json(self):
        return json.loads(self.body)

    @property
    def data(self):
        return self.json()["data"]

    @property
    def error(self):
        return self.json()["errors"]


class Manager:
    """One procstar process."""
    def __init__(self, ck, args=(), *, serve=True, env=None, spec=None, stdin=None, preload=True, scale=None,
                 seed=0, nofile=None, wrapper=(), wait_ready=True, input_name="input.json", extra_env=None,
                 cwd=None, ready_timeout=20, umask=0o022, binary=None, quarantine=False,
                 as_root=False):
        self.ck = ck
        self.uid = ck.next_uid()
        self.dir = ck.scratch / f"m{self.uid}"
        self.dir.mkdir()
        os.chown(self.dir, self.uid, self.uid)
        self.probe = str(ck.probe)
        self.closed = False
        self.port = None
        self.ctl = None
        self.log_path = None
        self.lock = threading.Lock()
        self.spec_path = None
        exe = str(binary or ck.binary)
        argv = [*map(str, wrapper), exe, *map(str, args)]
        if serve:
            self.port = free_port()
            argv += ["--serve", "--serve-port", str(self.port)]
        if spec is not None:
            self.spec_path = self.dir / input_name
            self.spec_path.write_bytes(spec if isinstance(spec, bytes) else json.dumps(spec).encode())
            os.chmod(self.spec_path, 0o644)
            argv.append(str(self.spec_path))
        self.env = {"PATH": "/usr/bin:/bin", "HOME": str(self.dir)} if env is None else dict(env)
        if extra_env:
            self.env.update(extra_env)
        e = dict(self.env)
        if preload:
            self.log_path = self.dir / "events.log"
            self.log_path.touch()
            os.chown(self.log_path, self.uid, self.uid)
            ctl = self.dir / "ctl"
            self.ctl = Ctl(ctl)
            e.update(LD_PRELOAD=str(ck.interposer), VI_LOG=str(self.log_path), VI_CTL=str(ctl), VI_SEED=str(seed))
            if wrapper:
                e["VI_ONLY"] = exe
            if quarantine:
                e["VI_QUAR"] = "1"
            if scale:
                e["VI_SCALE"] = str(scale)
        self.err_path, self.out_path = self.dir / "stderr", self.dir / "stdout"
        import resource

        def pre():
            os.umask(umask)
            if nofile:
                resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
            # Python leaves SIGPIPE ignored in itself; start from defaults.
            for s in range(1, 65):
                try:
                    signal.signal(s, signal.SIG_DFL)
                except (OSError, ValueError):
                    pass

        self.t_start = time.monotonic()
        with open(self.err_path, "wb") as err, open(self.out_path, "wb") as out:
            os.chown(self.err_path, self.uid, self.uid)
            os.chown(self.out_path, self.uid, self.uid)
            self.p = subprocess.Popen(
                argv, env=e, cwd=str(cwd or self.dir), stdin=stdin if stdin is not None else subprocess.DEVNULL,
                stdout=out, stderr=err, **({} if as_root else dict(user=self.uid, group=self.uid, extra_groups=[])),
                preexec_fn=pre, start_new_session=True)
        self.pid = self.p.pid
        ck.managers.add(self)
        if serve and wait_ready:
            try:
                self.wait_ready(ready_timeout)
            except BaseException:
                self.close()
                raise

    # -- life -------------------------------------------------------------
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def alive(self):
        return self.p.poll() is None

    def stderr(self):
        try:
            return self.err_path.read_text("utf-8", "replace")
        except OSError:
            return ""

    def stdout(self):
        return self.out_path.read_bytes()

    def wait_ready(self, timeout):
        def up():
            if not self.alive():
                if "Address" in self.stderr() or "AddrInUse" in self.stderr():
                    raise Inconclusive("port taken")
                raise Broken("manager-died", f"manager exited {self.p.returncode} at start: {self.stderr()[-600:]}")
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return True
            except OSError:
                return False
        wait_for(up, timeout, "manager serves HTTP")

    def check_alive(self):
        if not self.alive():
            if self.port and "AddrInUse" in self.stderr():
                raise Inconclusive("port taken")
            raise Broken("manager-died", f"manager ended with {self.p.returncode}: {self.stderr()[-800:]}")

    def wait_exit(self, timeout, what="manager exits"):
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            raise Hang(f"not within {timeout:g} s: {what}")

    def kill_all(self):
        for _ in range(4):
            pids = pids_of_uid(self.uid)
            if not pids:
                break
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(0.01)

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.p.kill()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        self.kill_all()
        if self.ctl:
            try:
                self.ctl.m.close()
                self.ctl.f.close()
            except Exception:
                pass
        self.ck.managers.discard(self)
        if not os.environ.get("VERIF_KEEP"):
            import shutil
            shutil.rmtree(self.dir, ignore_errors=True)

    def descendants(self):
        """pids of this manager's user other than itself, with ppid and state."""
        out = {}
        for p in pids_of_uid(self.uid):
            if p != self.pid:
                st = proc_stat(p)
                if st:
                    out[p] = (int(st[1][1]), st[1][0], st[0])
        return out

    def children(self):
        return {p: v for p, v in self.descendants().items() if v[0] == self.pid}

    def as_user(self, *argv, timeout=20):
        """Runs a helper as this manager's user (root may not trace it here)."""
        return subprocess.run(argv, user=self.uid, group=self.uid, extra_groups=[], cwd="/", timeout=timeout,
                              stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def fds_of(self, *pids):
        """pid -> {fd: link target}; pids that are gone are left out."""
        out = {}
        for pid in pids:
            r = self.as_user(self.probe, f"lsfd={pid}")
            if r.returncode:
                continue
            d = out.setdefault(pid, {})
            for line in r.stdout.decode("utf-8", "replace").splitlines():
                _, fd, target = line.split(" ", 2)
                d[int(fd)] = target
        return out

    def fds(self):
        """fd -> link target of the manager, without the monitor's own log."""
        d = self.fds_of(self.pid).get(self.pid)
        if d is None:
            self.check_alive()
            raise Inconclusive("cannot list the manager's descriptors")
        return {f: t for f, t in d.items() if not (self.log_path and t == str(self.log_path))}

    def events(self):
        """Parsed interposer log: (mono_ns, pid, kind, [args])."""
        out = []
        if self.log_path:
            for line in self.log_path.read_text("utf-8", "replace").splitlines():
                w = line.split(" ")
                if len(w) >= 3:
                    out.append((int(w[0]), int(w[1]), w[2], w[3:]))
        return out

    # -- HTTP -------------------------------------------------------------
    def http(self, method, path, body=None, headers=None, timeout=20, conn=None):
        """One request.  A dropped connection while the manager lives is Broken."""
        own = conn is None
        if own:
            conn = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        h = dict(headers or {})
        if body is not None and not isinstance(body, (bytes, str)):
            body = json.dumps(body).encode()
            h.setdefault("Content-Type", "application/json")
        try:
            conn.request(method, path, body, h)
            r = conn.getresponse()
            data = r.read()
            return Response(r.status, dict((k.lower(), v) for k, v in r.getheaders()), data)
        except (socket.timeout, TimeoutError):
            raise Hang(f"{method} {path}: no response in {timeout:g} s")
        except (OSError, http.client.HTTPException) as e:
            time.sleep(0.15)
            self.check_alive()
            raise Broken("connection-dropped", f"{method} {path}: {type(e).__name__} {e}; stderr: {self.stderr()[-500:]}")
        finally:
            if own:
                conn.close()

    def connection(self, timeout=20):
        return http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)

    def post(self, specs, **kw):
        return self.http("POST", "/procs", {"specs": specs}, **kw)

    def start(self, specs, **kw):
        r = self.post(specs, **kw)
        if r.status != 200:
            raise Broken("start-refused", f"valid start refused: {r.status} {r.body[:300]!r}")
        return r

    def get(self, proc_id, **kw):
        r = self.http("GET", "/procs/" + quote(proc_id, safe=""), **kw)
        if r.status == 404:
            return None
        if r.status != 200:
            raise Broken("get-failed", f"GET {proc_id}: {r.status} {r.body[:200]!r}")
        return r.json()["data"]["procs"][proc_id]

    def list(self, **kw):
        r = self.http("GET", "/procs", **kw)
        if r.status != 200:
            raise Broken("list-failed", f"GET /procs: {r.status} {r.body[:200]!r}")
        return r.json()["data"]["procs"]

    def delete(self, proc_id, **kw):
        return self.http("DELETE", "/procs/" + quote(proc_id, safe=""), **kw)

    def signal(self, proc_id, sig, **kw):
        return self.http("POST", f"/procs/{quote(proc_id, safe='')}/signals/{sig}", **kw)

    def data(self, proc_id, fd, **kw):
        return self.http("GET", f"/procs/{quote(proc_id, safe='')}/output/{fd}/data", **kw)

    def wait_done(self, proc_id, timeout=20):
        """Polls until the process is not running; returns its result."""
        last = [None]

        def done():
            r = self.get(proc_id)
            last[0] = r
            if r is None:
                raise Broken("record-lost", f"record of {proc_id} vanished")
            return r["state"] != "running" and r
        return wait_for(done, timeout, lambda: f"{proc_id} stops running (state {last[0] and last[0]['state']})")

    def wait_all(self, timeout=30):
        def done():
            r = self.list()
            return all(x["state"] != "running" for x in r.values()) and r
        return wait_for(done, timeout, "all processes stop running")


# -- specs ---------------------------------------------------------------

def cap(mode="memory", encoding=None, attached=True):
    return {"capture": {"mode": mode, "encoding": encoding, "attached": attached}}


def sp(m, *ops, fds=None, env=None, exe=None):
    """Spec of a probe running `ops`."""
    d = {"argv": [m.probe if hasattr(m, "probe") else str(m), *ops]}
    if fds is not None:
        d["fds"] = [list(x) for x in fds]
    if env is not None:
        d["env"] = env
    if exe is not None:
        d["exe"] = exe
    return d


def fd_bytes(fdres):
    """Bytes of an attached fd result (text re-encoded)."""
    t = fdres["type"]
    if t == "text":
        return fdres["text"].encode()
    if t == "data":
        if fdres["encoding"] != "base64":
            raise Broken("bad-encoding", f"binary encoding {fdres['encoding']!r}")
        return base64.b64decode(fdres["data"], validate=True)
    raise Broken("bad-fd-result", f"unexpected fd result type {t!r}")
