"""A reference agent server: TLS + WebSocket + msgpack, in threads, able to
misbehave at any point and recording every frame with its time."""
import base64, hashlib, os, select, shutil, socket, ssl, struct, threading, time
import msgpack

from core import REPO, Broken, Hang, Inconclusive, wait_for
from mgr import Manager, free_port

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
CERT = REPO / "python/procstar/testing/localhost.crt"
KEY = REPO / "python/procstar/testing/localhost.key"
TOKEN = "s3cret-Token-for-checks"


class Closed(Exception):
    pass


class Conn:
    """One accepted connection."""
    def __init__(self, srv, raw, index):
        self.srv, self.raw, self.index = srv, raw, index
        self.t_accept = time.monotonic()
        self.t_closed = None
        self.s = None
        self.buf = b""
        self.ssl_lock = threading.Lock()
        self.cv = threading.Condition()
        self.frames = []        # (mono, msg dict) for decoded binary messages
        self.control = []       # (mono, opcode, payload)
        self.register = None
        self.t_register = None
        self.closed = False
        self.error = None
        self.stalled = False
        self.rx_bytes = 0
        self.handshake = b""
        self.phase = "accepted"

    # -- bytes ------------------------------------------------------------
    def _recv(self, deadline=None):
        while True:
            if self.closed:
                raise Closed("closed")
            if self.stalled:
                time.sleep(0.01)
                continue
            try:
                with self.ssl_lock:
                    d = self.s.recv(1 << 18)
                if self.closed:     # (d may not have been decrypted)
                    raise Closed("closed")
                if not d:
                    raise Closed("eof")
                self.rx_bytes += len(d)
                return d
            except (ssl.SSLWantReadError, BlockingIOError):
                if deadline and time.monotonic() > deadline:
                    raise Closed("timeout")
                select.select([self.raw if self.s is None else self.s], [], [], 0.1)
            except ssl.SSLWantWriteError:
                time.sleep(0.001)
            except (OSError, ValueError) as e:
                raise Closed(f"{type(e).__name__} {e}")

    def _need(self, n):
        if len(self.buf) < n:
            parts, have = [self.buf], len(self.buf)
            while have < n:
                d = self._recv()
                parts.append(d)
                have += len(d)
            self.buf = b"".join(parts)
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def send_raw(self, data, timeout=20):
        end = time.monotonic() + timeout
        mv = memoryview(data)
        while mv:
            if self.closed:
                raise Closed("closed")
            try:
                with self.ssl_lock:
                    n = self.s.send(mv)
                mv = mv[n:]
            except (ssl.SSLWantWriteError, ssl.SSLWantReadError, BlockingIOError):
                if time.monotonic() > end:
                    raise Hang("the agent does not read what its server sends")
                select.select([], [self.s], [], 0.05)
            except (OSError, ValueError) as e:
                raise Closed(f"{type(e).__name__} {e}")

    @staticmethod
    def frame(opcode, payload, fin=True, rsv=0):
        n = len(payload)
        h = bytes([(0x80 if fin else 0) | rsv << 4 | opcode])
        if n < 126:
            h += bytes([n])
        elif n < 65536:
            h += b"\x7e" + struct.pack(">H", n)
        else:
            h += b"\x7f" + struct.pack(">Q", n)
        return h + payload

    def send_frame(self, opcode, payload=b"", **kw):
        self.send_raw(self.frame(opcode, payload, **kw))

    def send(self, type, **fields):
        self.send_frame(2, msgpack.packb({"type": type, **fields}))

    # -- protocol ---------------------------------------------------------
    def start_tls(self):
        ctx = getattr(self, "ctx", None) or self.srv.ctx
        self.raw.settimeout(10)
        try:
            self.s = ctx.wrap_socket(self.raw, server_side=True)
        except (OSError, ValueError) as e:
            raise Closed(f"tls: {type(e).__name__} {e}")
        self.s.setblocking(False)
        self.phase = "tls"

    def read_request(self):
        while b"\r\n\r\n" not in self.buf:
            self.buf += self._recv(time.monotonic() + 20)
        self.handshake, self.buf = self.buf.split(b"\r\n\r\n", 1)
        self.phase = "request"

    def answer(self):
        key = b""
        for line in self.handshake.split(b"\r\n")[1:]:
            k, _, v = line.partition(b":")
            if k.strip().lower() == b"sec-websocket-key":
                key = v.strip()
        acc = base64.b64encode(hashlib.sha1(key + GUID).digest())
        return (b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                b"Sec-WebSocket-Accept: " + acc + b"\r\n\r\n")

    def read_message(self):
        """Next data message as bytes; control frames are handled."""
        data, op0 = b"", None
        while True:
            b0, b1 = self._need(2)
            n = b1 & 127
            if n == 126:
                n = struct.unpack(">H", self._need(2))[0]
            elif n == 127:
                n = struct.unpack(">Q", self._need(8))[0]
            mask = self._need(4) if b1 & 128 else None
            p = self._need(n)
            if mask is None:
                raise Broken("unmasked-frame", "agent sent an unmasked frame")
            if n:
                p = (int.from_bytes(p, "little") ^ int.from_bytes((mask * (n // 4 + 1))[:n], "little")).to_bytes(n, "little")
            op = b0 & 15
            if op in (8, 9, 10):
                with self.cv:
                    self.control.append((time.monotonic(), op, p))
                    self.cv.notify_all()
                if op == 9:
                    self.send_frame(10, p)
                elif op == 8:
                    try:
                        self.send_frame(8, p)
                    except (Closed, Hang):
                        pass
                    raise Closed("close frame")
                continue
            if op:
                op0 = op
            data += p
            if b0 & 128:
                return op0, data

    def read_register(self):
        op, d = self.read_message()
        msg = self.decode(op, d)
        with self.cv:
            self.register, self.t_register = msg, time.monotonic()
            self.frames.append((self.t_register, msg))
            self.cv.notify_all()
        self.phase = "register"
        return msg

    def decode(self, op, d):
        if op != 2:
            raise Broken("text-frame", f"agent sent a frame of opcode {op}: {d[:80]!r}")
        try:
            m = msgpack.unpackb(d, strict_map_key=False)
            m["type"]
            return m
        except Exception as e:
            raise Broken("bad-msgpack", f"agent sent an undecodable message: {e}: {d[:120]!r}")

    def loop(self):
        self.phase = "connected"
        while True:
            op, d = self.read_message()
            m = self.decode(op, d)
            with self.cv:
                self.frames.append((time.monotonic(), m))
                self.cv.notify_all()

    # -- use --------------------------------------------------------------
    def msgs(self, type=None, **eq):
        with self.cv:
            return [m for _, m in self.frames
                    if (type is None or m["type"] == type) and all(m.get(k) == v for k, v in eq.items())]

    def mark(self):
        with self.cv:
            return len(self.frames)

    def wait(self, pred, timeout=15, since=0, what="message"):
        """First message from index `since` on that satisfies pred: (index, msg)."""
        end = time.monotonic() + timeout
        i = since
        with self.cv:
            while True:
                while i < len(self.frames):
                    if pred(self.frames[i][1]):
                        return i, self.frames[i][1]
                    i += 1
                if self.closed:
                    if isinstance(self.error, Broken):
                        raise self.error
                    raise Broken("agent-connection-lost", f"connection ended ({self.error}) while waiting for {what}")
                left = end - time.monotonic()
                if left <= 0:
                    raise Hang(f"not within {timeout:g} s from the agent: {what}")
                self.cv.wait(min(left, 0.25))

    def request(self, type, reply, timeout=15, **fields):
        """Sends a request and waits for a reply satisfying `reply`."""
        since = self.mark()
        try:
            self.send(type, **fields)
        except Closed as e:
            raise Broken("agent-connection-lost", f"connection ended before {type} {fields}: {e}")
        return self.wait(reply, timeout, since, f"reply to {type} {str(fields)[:120]}")[1]

    def barrier(self, timeout=15):
        """Everything sent before has been handled when this returns."""
        return self.request("ProcResultRequest",
                            lambda m: m["type"] == "ProcUnknown" and m["proc_id"] == "no such proc/barrier",
                            timeout, proc_id="no such proc/barrier")

    def close(self, code=1000, frame=True):
        if frame and self.s is not None and not self.closed:
            try:
                self.send_frame(8, struct.pack(">H", code))
            except (Closed, Hang):
                pass
        self.drop(rst=False)

    def drop(self, rst=True):
        self.closed = True
        s = self.s or self.raw
        try:
            if rst:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            else:
                # (SSLSocket.shutdown() would turn it into a plain socket under
                # the reader's feet)
                socket.socket.shutdown(s, socket.SHUT_RDWR)
        except OSError:
            pass
        try:
            with self.ssl_lock:
                s.close()
        except OSError:
            pass
        with self.cv:
            self.t_closed = self.t_closed or time.monotonic()
            self.cv.notify_all()

    def run(self, policy):
        try:
            policy(self)
        except Closed as e:
            self.error = e
        except Broken as e:
            self.error = e
            self.srv.broken.append(e)
        except Hang as e:
            self.error = e
        except Exception as e:
            self.error = e
            self.srv.harness_errors.append(e)
        finally:
            with self.cv:
                self.t_closed = self.t_closed or time.monotonic()
            self.drop(rst=False)


def ok(conn):
    """The normal policy: accept and serve."""
    conn.start_tls()
    conn.read_request()
    conn.send_raw(conn.answer())
    conn.read_register()
    conn.send("Registered")
    conn.loop()


class AgentServer:
    def __init__(self, policy=ok, cert=CERT, key=KEY, port=None, listen=True, rcvbuf=None):
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(cert, key)
        self.policy = policy        # conn -> None, runs in its own thread
        self.port = port or free_port()
        self.conns = []
        self.broken = []
        self.harness_errors = []
        self.cv = threading.Condition()
        self.lsock = None
        self.rcvbuf = rcvbuf
        self.closing = False
        if listen:
            self.listen()

    def listen(self):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if self.rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, self.rcvbuf)
        for _ in range(50):
            try:
                s.bind(("127.0.0.1", self.port))
                break
            except OSError:
                time.sleep(0.02)
        else:
            raise Inconclusive("cannot bind the agent server's port")
        s.listen(64)
        self.lsock = s
        threading.Thread(target=self._accept, args=(s,), daemon=True).start()

    def unlisten(self):
        if self.lsock:
            s, self.lsock = self.lsock, None
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()

    def _accept(self, ls):
        while True:
            try:
                raw, _ = ls.accept()
            except OSError:
                return
            with self.cv:
                c = Conn(self, raw, len(self.conns))
                self.conns.append(c)
                self.cv.notify_all()
            threading.Thread(target=c.run, args=(self.policy,), daemon=True).start()

    def wait_conn(self, index=0, registered=True, timeout=15):
        """The index-th connection, once registered."""
        end = time.monotonic() + timeout

        def get():
            if self.broken:
                raise self.broken[0]
            if self.harness_errors:
                raise Inconclusive(f"agent server: {self.harness_errors[0]!r}")
            c = self.conns[index] if len(self.conns) > index else None
            return c if c and (not registered or c.phase == "connected") else None
        return wait_for(get, max(0.1, end - time.monotonic()), f"agent connection {index}"
                        + (" registers" if registered else ""))

    def check(self):
        if self.broken:
            raise self.broken[0]

    def close(self):
        self.closing = True
        self.unlisten()
        for c in self.conns:
            c.drop(rst=False)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def agent(ck, srv, *args, conn_id="agent-1", group=None, token=TOKEN, cert=CERT, host="localhost", serve=False,
          interval=(0.05, 1.0, 0.05), extra_env=None, **kw):
    """A manager running as agent of `srv`."""
    a = ["--agent", "--agent-host", host, "--agent-port", srv.port]
    if conn_id is not None:
        a += ["--conn-id", conn_id]
    if group:
        a += ["--group-id", group]
    if interval:
        a += ["--connect-interval-start", interval[0], "--connect-interval-mult", interval[1],
              "--connect-interval-max", interval[2]]
    env = dict(extra_env or {})
    if cert:
        p = ck.scratch / ("cert-" + hashlib.sha1(str(cert).encode()).hexdigest()[:8] + ".pem")
        if not p.exists():
            t = p.with_suffix(f".{threading.get_ident()}")
            shutil.copy(cert, t)
            os.chmod(t, 0o644)
            os.replace(t, p)
        env["PROCSTAR_AGENT_CERT"] = str(p)
    if token is not None:
        env["PROCSTAR_AGENT_TOKEN"] = token
    return Manager(ck, [*a, *args], serve=serve, extra_env=env, **kw)
