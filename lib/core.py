"""Check framework: seeds, budgets, verdicts, known findings, evidence, replay."""
import collections, contextlib, hashlib, itertools, json, os, random, shutil, subprocess, sys, tempfile
import threading, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
TARGET = REPO / "target"
BUILD = Path(os.environ.get("VERIF_BUILD", VERIF / ".build"))


class Hang(Exception):
    """Bounded progress was not observed.  Only a violation if it repeats."""


class Broken(Exception):
    """Direct evidence that a property is broken."""
    def __init__(self, sig, msg, data=None):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg, self.data = sig, msg, data


class Inconclusive(Exception):
    """The harness could not do its job; says nothing about the property."""


class Stop(Exception):
    pass


SHAPE = (KeyError, TypeError, IndexError, AttributeError, ValueError)


def build_env():
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    env.update(
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=str(TARGET),
    )
    return env


def build_native():
    BUILD.mkdir(parents=True, exist_ok=True)
    for src, out, flags in (
        ("probe.c", "probe", ["-O1", "-g"]),
        ("interpose.c", "interpose.so", ["-O1", "-g", "-shared", "-fPIC", "-ldl"]),
    ):
        s, o = VERIF / "native" / src, BUILD / out
        if o.exists() and o.stat().st_mtime > s.stat().st_mtime:
            continue
        tmp = BUILD / f"{out}.{os.getpid()}"
        subprocess.run(["gcc", "-w", str(s), "-o", str(tmp), *flags], check=True)
        os.replace(tmp, o)


def build_procstar():
    r = subprocess.run(
        ["cargo", "build", "--workspace", "--offline", "--locked", "--bin", "procstar"],
        cwd=REPO, env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode("utf-8", "replace")[-4000:])
        raise Inconclusive("procstar does not build")
    return TARGET / "debug" / "procstar"


def pattern(length, seed, mask=0, off=0):
    """The bytes the probe's w=/wlog= operations write."""
    if length <= 0:
        return b""
    seed %= 10_000_000
    first, last = off // 16, (off + length - 1) // 16
    out = b"".join(b"%07d:%07d\n" % (seed, i % 10_000_000) for i in range(first, last + 1))
    lo = off - first * 16
    out = out[lo : lo + length]
    if mask:
        out = out.translate(bytes((c * 5 + mask) & 255 for c in range(256)))
    return out


def install(src, dst):
    """Makes an executable copy.  In a process of its own, so that no thread's
    fork can hold it open for writing when it is executed (ETXTBSY)."""
    subprocess.run(["/bin/sh", "-c", 'cp -- "$1" "$2" && chmod 755 -- "$2"', "sh", str(src), str(dst)], check=True, stdin=subprocess.DEVNULL)


def script(dst, text):
    """Makes an executable script, likewise."""
    subprocess.run(["/bin/sh", "-c", 'cat > "$1" && chmod 755 -- "$1"', "sh", str(dst)], check=True, input=text.encode())


def diff_at(a, b):
    """Describes the first difference between two byte strings."""
    n = min(len(a), len(b))
    lo, hi = 0, n
    if a[:n] == b[:n]:
        i = n
    else:
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if a[:mid] == b[:mid]:
                lo = mid
            else:
                hi = mid
        i = lo
    return (f"lengths {len(a)} vs expected {len(b)}, first difference at {i}: "
            f"got {a[i:i+32]!r}, expected {b[i:i+32]!r}")


def load_known():
    out = []
    p = VERIF / "KNOWN_FINDINGS.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("known: "):
                parts = line[7:].split(" ", 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                out.append((d["property"], d["sig"], parts[2] if len(parts) > 2 else ""))
    return out


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=(), quick_s=30, thorough_s=240):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.only = os.environ.get("VERIF_ONLY")
        self.t0 = time.monotonic()
        self.quick = self.tier == "quick"
        self.budget_s = float(os.environ.get("VERIF_BUDGET", quick_s if self.quick else thorough_s))
        self.lock = threading.RLock()
        self.counts = collections.Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.inconclusive = []
        self.kinds = collections.Counter()
        self.known = [(s, w) for p, s, w in load_known() if p == pid]
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/tmp"))
        os.chmod(self.scratch, 0o755)
        self.managers = set()
        self._uid = 1_000_000 + (os.getpid() % 40000) * 1000
        self.stopping = False

    # -- books ------------------------------------------------------------
    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.pid, key)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def next_uid(self):
        with self.lock:
            self._uid += 1
            return self._uid

    def left(self):
        return self.budget_s - (time.monotonic() - self.t0)

    def case(self, key, sample=None):
        """One evaluated, non-trivial case identified by `key`."""
        with self.lock:
            self.evaluations += 1
            k = key if isinstance(key, str) else repr(key)
            new = k not in self.distinct
            self.distinct.add(k)
            if new and (len(self.samples) < 4 or (sample is not None and len(self.samples) < 8)):
                self.samples.append(sample if sample is not None else k)

    def seen(self, what, n=1):
        with self.lock:
            self.counts[what] += n

    def violate(self, sig, msg, data=None, where=None):
        with self.lock:
            for s, w in self.known:
                if s == sig:
                    if sig not in self.known_hits:
                        self.known_hits[sig] = w
                        print(f"KNOWN-FINDING: property={self.pid} {w or msg}", flush=True)
                    return
            if any(v["sig"] == sig for v in self.violations) or len(self.violations) > 5:
                return
            d = VERIF / "replay"
            d.mkdir(exist_ok=True)
            name = "".join(c if c.isalnum() or c in "-_" else "_" for c in sig)[:60]
            path = d / f"{self.pid}-{name}-{self.seed}.json"
            v = {"property": self.pid, "sig": sig, "what": msg, "seed": self.seed, "tier": self.tier,
                 "scenario": where,
                 "replay": f"cd {VERIF} && VERIF_SEED={self.seed} VERIF_TIER={self.tier}"
                           + (f" VERIF_ONLY='{where}'" if where else "") + f" ./check {self.pid}",
                 "data": data}
            path.write_text(json.dumps(v, indent=1, default=repr) + "\n")
            self.violations.append(v)
            if len(self.violations) == 1:
                self.t_violation = time.monotonic()
            print(f"  {sig}: {msg}"[:2000], flush=True)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            self.stopping = True

    # -- scenarios --------------------------------------------------------
    def scenario(self, name, fn, *args):
        """Runs fn(self, rng, slack, *args) with verdict discipline.

        Direct evidence (Broken) counts at once.  Lack of progress (Hang) or an
        answer the oracle cannot even read counts only if it repeats, with three
        times the patience, on a fresh manager.
        """
        if self.only and self.only != name:
            return
        self.kinds[name.split("#")[0]] += 1
        for attempt in range(3):
            try:
                try:
                    fn(self, self.rng(name), 1 if attempt == 0 else 3, *args)
                except Exception:
                    if os.environ.get("VERIF_DEBUG"):
                        traceback.print_exc()
                    raise
                return
            except Stop:
                return
            except Broken as e:
                if "AddrInUse" in e.msg and attempt < 2:
                    self.seen("harness-retries")      # someone else took the port
                    continue
                self.violate(e.sig, e.msg, e.data, name)
                return
            except Hang as e:
                self.seen("hang-retries")
                # Repeated with three times the patience; once more if it is the only one.
                if attempt == 2 or (attempt == 1 and self.counts["hang-retries"] >= 5):
                    self.violate("no-progress-" + name.split("#")[0], str(e), None, name)
                    return
            except SHAPE as e:
                self.seen("shape-retries")
                if attempt == 2:
                    self.violate("unreadable-" + name.split("#")[0],
                                 f"{type(e).__name__}: {e}", traceback.format_exc(), name)
            except (Inconclusive, OSError, subprocess.SubprocessError, MemoryError) as e:
                self.seen("harness-retries")
                if attempt == 2:
                    self.inconclusive.append(f"{name}: {type(e).__name__}: {e}")
            if self.stopping and attempt == 0 and self.violations:
                return
            time.sleep(0.2)

    def run_many(self, make, workers=6, at_least=0):
        """Runs scenarios from make(i) -> (name, fn, args...) or None in threads
        until the budget is used (but at least `at_least` of them)."""
        counter = itertools.count()

        def work():
            while not self.stopping:
                i = next(counter)
                if self.left() <= 0 and i >= at_least:
                    return
                item = make(i)
                if item is None:
                    return
                self.scenario(*item)

        ts = [threading.Thread(target=self._guard, args=(work,), daemon=True) for _ in range(workers)]
        for t in ts:
            t.start()
        for t in ts:
            # Once there is a verdict, don't wait for scenarios that hang.
            while t.is_alive():
                t.join(0.2)
                if self.violations and time.monotonic() - self.t_violation > 15:
                    return
                if time.monotonic() - self.t0 > self.budget_s + 480:
                    self.late()
                    return

    def late(self):
        """The workload takes minutes longer than it should."""
        with self.lock:
            if self.counts["hang-retries"]:
                self.violate("no-progress", f"still no progress after {time.monotonic() - self.t0:.0f} s")
            else:
                self.inconclusive.append("HARNESS too slow")
            self.stopping = True

    def _guard(self, fn):
        try:
            fn()
        except BaseException as e:  # a harness bug: an error of the check, not a verdict
            self.inconclusive.append("HARNESS " + traceback.format_exc())

    # -- end --------------------------------------------------------------
    def finish(self):
        for m in list(self.managers):
            m.close()
        shutil.rmtree(self.scratch, ignore_errors=True)
        wall = time.monotonic() - self.t0
        cov = {
            "evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
            "rule": self.rule, "samples": self.samples[:8] or ["none"],
            "observed": dict(sorted(self.counts.items())), "scenarios": dict(self.kinds),
            "inconclusive": self.inconclusive[:10],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
        print(f"{self.pid} {self.tier} seed={self.seed}: {self.evaluations} evaluations, "
              f"{len(self.distinct)} distinct, {len(self.violations)} violations, "
              f"{len(self.inconclusive)} inconclusive, {wall:.1f} s")
        print("  observed:", dict(sorted(self.counts.items())), "scenarios:", dict(self.kinds))
        for x in self.inconclusive[:5]:
            print("  inconclusive:", x)
        if self.violations:
            return 1
        harness = [x for x in self.inconclusive if x.startswith("HARNESS")]
        if harness or self.evaluations == 0 or len(self.inconclusive) > max(3, self.evaluations // 4):
            print("no verdict: too little was observed")
            return 2
        return 0


def wait_for(pred, timeout, what=None, interval=0.004):
    """Polls until pred() is truthy.  Raises Hang if `what` is given."""
    end = time.monotonic() + timeout
    while True:
        v = pred()
        if v:
            return v
        if time.monotonic() > end:
            if what is None:
                return None
            raise Hang(f"not within {timeout:g} s: {what() if callable(what) else what}")
        time.sleep(interval)
        interval = min(interval * 1.3, 0.05)


def run_check(pid, rule, main, **kw):
    """Entry point of a check module."""
    ck = Check(pid, rule, **kw)
    try:
        try:
            build_native()
            binary = build_procstar()
            ck.binary = ck.scratch / "procstar"
            shutil.copy(binary, ck.binary)
            os.chmod(ck.binary, 0o755)
            ck.probe = ck.scratch / "probe"
            shutil.copy(BUILD / "probe", ck.probe)
            os.chmod(ck.probe, 0o755)
            ck.interposer = ck.scratch / "interpose.so"
            shutil.copy(BUILD / "interpose.so", ck.interposer)
            os.chmod(ck.interposer, 0o755)
            ck.t0 = time.monotonic()  # the budget starts after the build
            main(ck)
        except Stop:
            pass
    except Inconclusive as e:
        ck.inconclusive.append("HARNESS " + str(e))
    except Exception:
        ck.inconclusive.append("HARNESS " + traceback.format_exc())
    rc = ck.finish()
    sys.stdout.flush()
    os._exit(rc)
