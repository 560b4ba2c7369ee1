"""The repository's Python agent server, run in a thread, and reference agents for it."""
import asyncio, base64, logging, os, select, socket, ssl, struct, sys, threading, time
import msgpack

from core import REPO, Broken, Hang, Inconclusive, wait_for
from agentsrv import CERT, KEY, Closed, Conn
from mgr import free_port

sys.dont_write_bytecode = True
if str(REPO / "python") not in sys.path:
    sys.path.insert(0, str(REPO / "python"))
logging.getLogger().addHandler(logging.NullHandler())
logging.getLogger().setLevel(logging.CRITICAL + 1)

import warnings
warnings.simplefilter("ignore", DeprecationWarning)
import procstar.agent.server as pserver     # noqa: E402
import procstar.agent.proc as pproc         # noqa: E402
import procstar.agent.exc as pexc           # noqa: E402
import procstar.proto as pproto             # noqa: E402

CLIENT_CTX = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
CLIENT_CTX.check_hostname = False
CLIENT_CTX.verify_mode = ssl.CERT_NONE


class PyServer:
    """Server() in its own event loop; `do` and `co` run things in there."""
    def __init__(self, token="tok", cert=(CERT, KEY), listen=True, **kw):
        self.loop = asyncio.new_event_loop()
        self.errors = []
        self.loop.set_exception_handler(self._exc)
        self.thread = threading.Thread(target=self.loop.run_forever, daemon=True)
        self.thread.start()
        self.kw = dict(host="127.0.0.1", port=free_port(), tls_cert=cert, **kw)
        if token is not ...:
            self.kw["access_token"] = token
        self.port = self.kw["port"]
        self.server = self.do(pserver.Server)
        self.ws = None
        if listen:
            self.listen()

    def _exc(self, loop, ctx):
        e = ctx.get("exception")
        # (Errors of lost connections only; the server closes an old web socket in the background.)
        if e is not None and not isinstance(e, (OSError, ssl.SSLError)) and not type(e).__name__.startswith("ConnectionClosed"):
            self.errors.append(f"{ctx.get('message')}: {type(e).__name__}: {e}")

    def do(self, fn, *a, timeout=20):
        async def f():
            return fn(*a)
        return self.co(f(), timeout)

    def co(self, coro, timeout=20):
        fut = asyncio.run_coroutine_threadsafe(coro, self.loop)
        try:
            return fut.result(timeout)
        except TimeoutError as e:
            if fut.done() and fut.exception() is e:
                raise
            fut.cancel()
            raise Hang(f"server call not done in {timeout:g} s")

    def task(self, coro):
        return asyncio.run_coroutine_threadsafe(coro, self.loop)

    def listen(self):
        async def f():
            for _ in range(50):
                try:
                    return await self.server.run(**self.kw)
                except OSError:
                    await asyncio.sleep(0.05)
            raise Inconclusive("cannot bind the server's port")
        self.ws = self.co(f())

    def unlisten(self):
        if self.ws is not None:
            ws, self.ws = self.ws, None

            async def f():
                ws.close()
                await asyncio.wait_for(ws.wait_closed(), 15)
            self.co(f(), 20)

    def close(self):
        async def stop():
            if self.ws is not None:
                self.ws.close()
            for t in asyncio.all_tasks():
                if t is not asyncio.current_task():
                    t.cancel()
        try:
            asyncio.run_coroutine_threadsafe(stop(), self.loop).result(5)
        except Exception:
            pass
        self.loop.call_soon_threadsafe(self.loop.stop)
        self.thread.join(5)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


PROC = {"pid": 1, "ppid": 0, "uid": 1, "euid": 1, "username": "u", "gid": 1, "egid": 1, "groupname": "g", "hostname": "h"}


class RefAgent:
    """A hand-driven agent connection: raw TLS, WebSocket and msgpack."""
    def __init__(self, port, host="127.0.0.1", ctx=CLIENT_CTX, read=True, upgrade=True, timeout=10):
        self.t0 = time.monotonic()
        self.raw = socket.create_connection((host, port), timeout)
        self.raw.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            self.s = ctx.wrap_socket(self.raw, server_hostname="localhost") if ctx else self.raw
        except (OSError, ssl.SSLError) as e:
            self.raw.close()
            raise Closed(f"tls: {e}")
        self.buf = b""
        self.lock = threading.Lock()
        self.cv = threading.Condition()
        self.msgs = []
        self.control = []
        self.closed = None      # reason, once the server's side is over
        self.dropped = False
        self.answer_close = True
        self.paused = False
        if upgrade:
            key = base64.b64encode(os.urandom(16))
            self.s.sendall(b"GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                           b"Sec-WebSocket-Key: " + key + b"\r\nSec-WebSocket-Version: 13\r\n\r\n")
            while b"\r\n\r\n" not in self.buf:
                d = self.s.recv(4096)
                if not d:
                    raise Closed("no upgrade")
                self.buf += d
            head, self.buf = self.buf.split(b"\r\n\r\n", 1)
            if b" 101 " not in head.split(b"\r\n")[0]:
                raise Closed(f"no upgrade: {head[:100]!r}")
        self.s.setblocking(False)
        if read:
            threading.Thread(target=self._read, daemon=True).start()

    # -- out --------------------------------------------------------------
    def send_raw(self, data, timeout=10):
        end = time.monotonic() + timeout
        mv = memoryview(data)
        while mv:
            if self.dropped:
                raise Closed("dropped")
            try:
                with self.lock:
                    n = self.s.send(mv)
                mv = mv[n:]
            except (ssl.SSLWantWriteError, ssl.SSLWantReadError, BlockingIOError):
                if time.monotonic() > end:
                    raise Hang("the server does not read what its agent sends")
                select.select([], [self.s], [], 0.05)
            except (OSError, ValueError) as e:
                raise Closed(str(e))

    @staticmethod
    def frame(op, payload=b"", fin=True, mask=None):
        mask = os.urandom(4) if mask is None else mask
        n = len(payload)
        h = bytes([(128 if fin else 0) | op])
        h += bytes([128 | n]) if n < 126 else b"\xfe" + struct.pack(">H", n) if n < 65536 else b"\xff" + struct.pack(">Q", n)
        if n:
            payload = (int.from_bytes(payload, "little") ^ int.from_bytes((mask * (n // 4 + 1))[:n], "little")).to_bytes(n, "little")
        return h + mask + payload

    def send_frame(self, op, payload=b"", **kw):
        self.send_raw(self.frame(op, payload, **kw))

    def send(self, type, **fields):
        self.send_frame(2, msgpack.packb({"type": type, **fields}))

    def register(self, conn_id, group="default", token="tok", proc_ids=(), state="active", pid=1, over={}):
        self.send(**({"type": "Register", "conn": {"conn_id": conn_id, "group_id": group, "restricted_exe": None}, "proc": {**PROC, "pid": pid},
                      "proc_ids": list(proc_ids), "access_token": token, "shutdown_state": state} | over))

    # -- in ---------------------------------------------------------------
    def _recv(self):
        while True:
            if self.dropped:
                raise Closed("dropped")
            if self.paused:
                time.sleep(0.005)
                continue
            try:
                with self.lock:
                    d = self.s.recv(1 << 16)
                if self.dropped:
                    raise Closed("dropped")
                if not d:
                    raise Closed("eof")
                return d
            except (ssl.SSLWantReadError, BlockingIOError, ssl.SSLWantWriteError):
                try:
                    select.select([self.s], [], [], 0.1)
                except (OSError, ValueError) as e:
                    raise Closed(f"{type(e).__name__} {e}")
            except (OSError, ValueError) as e:
                raise Closed(f"{type(e).__name__} {e}")

    def _need(self, n):
        while len(self.buf) < n:
            self.buf += self._recv()
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def _read(self):
        try:
            while True:
                b0, b1 = self._need(2)
                n = b1 & 127
                if n == 126:
                    n = struct.unpack(">H", self._need(2))[0]
                elif n == 127:
                    n = struct.unpack(">Q", self._need(8))[0]
                p = self._need(n)
                op = b0 & 15
                with self.cv:
                    if op in (0, 1, 2):
                        try:
                            m = msgpack.unpackb(p, strict_map_key=False)
                        except Exception as e:
                            m = {"type": f"undecodable {e}", "op": op}
                        self.msgs.append(m)
                    else:
                        self.control.append((time.monotonic(), op, p))
                    self.cv.notify_all()
                if op == 9:
                    self.send_frame(10, p)
                elif op == 8 and self.answer_close:
                    try:
                        self.send_frame(8, p)
                    except (Closed, Hang):
                        pass
        except (Closed, Hang) as e:
            with self.cv:
                self.closed = str(e)
                self.t_closed = time.monotonic()
                self.cv.notify_all()

    def wait(self, pred, timeout=10, since=0, what="message"):
        end = time.monotonic() + timeout
        i = since
        with self.cv:
            while True:
                while i < len(self.msgs):
                    if pred(self.msgs[i]):
                        return self.msgs[i]
                    i += 1
                if self.closed is not None:
                    raise Broken("server-dropped", f"the server ended the connection ({self.closed}) while waiting for {what}")
                left = end - time.monotonic()
                if left <= 0:
                    raise Hang(f"not within {timeout:g} s from the server: {what}")
                self.cv.wait(min(left, 0.25))

    def wait_registered(self, timeout=10):
        return self.wait(lambda m: m.get("type") == "Registered", timeout, 0, "Registered")

    def wait_closed(self, timeout=10, what="the server ends the connection"):
        wait_for(lambda: self.closed is not None, timeout, what)

    def close(self, code=1000):
        try:
            self.send_frame(8, struct.pack(">H", code) if code else b"")
        except (Closed, Hang):
            pass
        self.drop(rst=False)

    def drop(self, rst=True):
        self.dropped = True
        try:
            if rst:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            else:
                socket.socket.shutdown(self.s, socket.SHUT_RDWR)
        except OSError:
            pass
        with self.lock:
            try:
                self.s.close()
            except OSError:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.drop(rst=False)


def connect(srv, conn_id, **kw):
    """A registered reference agent."""
    a = RefAgent(srv.port)
    a.register(conn_id, **kw)
    a.wait_registered()
    return a
