"""Support for black-box monitoring of the real server: launcher, client, protocol model."""
import collections, json, mmap, os, random, re, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time, hashlib

REPLY_TIMEOUT = 40.0      # a server that answers nothing for this long, being alive, does not answer


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Out(object):
    """what the monitors observed"""
    def __init__(self):
        self.evaluations = 0; self.distinct = set(); self.counters = {}; self.samples = []

    def count(self, k, n=1): self.counters[k] = self.counters.get(k, 0) + n

    def maxi(self, k, n): self.counters[k] = max(self.counters.get(k, 0), n)

    def sig(self, *a): self.distinct.add(hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest())

    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)

    def check(self, cond, msg, *a):
        self.evaluations += 1
        if not cond: raise Violation(msg % a if a else msg)

    def dump(self):
        print("HARNESS-SUMMARY " + json.dumps({"evaluations": self.evaluations, "distinct": sorted(self.distinct)[:20000], "counters": self.counters, "samples": self.samples}))
        sys.stdout.flush()


def show(b, n=80):
    if isinstance(b, str): b = b.encode()
    return repr(bytes(b[:n]))[2:-1] + ("...(%dB)" % len(b) if len(b) > n else "")


SLOT = [0]
DIED = []                 # servers found dead by the way


def free_port(rng):
    # ports below the ephemeral range; each parallel workload has a range of its own
    base = 11000 + (SLOT[0] % 64) * 300
    for _ in range(200):
        p = base + rng.randrange(300)
        ok = True
        for typ in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
            s = socket.socket(socket.AF_INET, typ)
            try:
                s.bind(("0.0.0.0", p))
            except OSError:
                ok = False
            finally:
                s.close()
        if ok: return p
    raise HarnessError("no free port")


VALGRIND = ["valgrind", "-q", "--vgdb=no", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=full", "--errors-for-leak-kinds=definite", "--show-leak-kinds=definite", "--num-callers=20"]


def prefix(binary):
    """what has to be run under valgrind"""
    return VALGRIND if "_vg" in os.path.basename(binary) else []


class Server(object):
    def __init__(self, binary, out, rng, args=(), tcp=True, udp=True, unix=True, env=None, faults=True):
        self.binary, self.out, self.rng = binary, out, rng
        self.dir = tempfile.mkdtemp(prefix="s-")
        self.user_args = list(args); self.use = (tcp, udp, unix); self.extra_env = env or {}
        self.offset_s = 0
        self.vfile = os.path.join(self.dir, "vclock")
        # socket calls of the server that are cut short or have to be tried again
        permille = rng.choice([0, 0, 30, 200, 500]) if faults else 0
        with open(self.vfile, "wb") as f: f.write(struct.pack("<qqq", 0, permille, rng.randrange(1, 1 << 40)).ljust(4096, b"\0"))
        self.proc = None
        for attempt in range(4):
            if self._start(): return
        self.stop(check=False)
        raise HarnessError("server does not start: %s" % self.stderr()[-1500:])

    def _start(self):
        tcp, udp, unix = self.use
        self.port = free_port(self.rng) if tcp else 0
        self.uport = free_port(self.rng) if udp else 0
        self.upath = os.path.join(self.dir, "u%d.sock" % self.rng.randrange(10**6)) if unix else None
        cmd = prefix(self.binary) + [self.binary, "-p", str(self.port), "-U", str(self.uport)]
        if unix: cmd += ["-s", self.upath]
        cmd += self.user_args
        env = dict(os.environ); env["VCLOCK_FILE"] = self.vfile; env.update(self.extra_env)
        self.errf = open(os.path.join(self.dir, "stderr"), "ab+")
        self.outf = open(os.path.join(self.dir, "stdout"), "ab+")
        self.cmd = cmd
        self.proc = subprocess.Popen(cmd, stdout=self.outf, stderr=self.errf, stdin=subprocess.DEVNULL, env=env)
        t0 = time.time()
        while time.time() - t0 < 40:
            if self.proc.poll() is not None:
                if "ddress already in use" in self.stderr(): return False
                raise Violation("server with valid options %s exited with %s at start: %s" % (" ".join(cmd[1:]), self.proc.returncode, self.stderr()[-1500:]))
            try:
                # a reply, not a mere connection, shows that all the listeners and signal handlers are there
                if tcp or unix:
                    if tcp: s = socket.create_connection(("127.0.0.1", self.port), timeout=15)
                    else: s = socket.socket(socket.AF_UNIX); s.settimeout(15); s.connect(self.upath)
                    req, sep = b"version\r\n", b"\n"
                else:
                    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.settimeout(1); s.connect(("127.0.0.1", self.uport))
                    req, sep = b"\0\1\0\0\0\1\0\0version\r\n", b"V"
                with s:
                    s.sendall(req)
                    if sep in s.recv(4096): return True
            except OSError:
                time.sleep(0.02)
        raise Violation("server with valid options %s serves nobody 40 s after its start" % " ".join(cmd[1:]))

    def stderr(self):
        try: return open(os.path.join(self.dir, "stderr"), "rb").read().decode("utf-8", "replace")
        except OSError: return ""

    def stdout(self):
        return open(os.path.join(self.dir, "stdout"), "rb").read().decode("utf-8", "replace")

    def alive(self):
        return self.proc.poll() is None

    def assert_alive(self, what=""):
        self.out.evaluations += 1
        if not self.alive():
            raise Violation("server terminated (status %s) %s: %s" % (self.proc.returncode, what, report(self.stderr())))

    def advance(self, seconds):
        self.offset_s += seconds
        with open(self.vfile, "r+b") as f:
            m = mmap.mmap(f.fileno(), 4096); m[:8] = struct.pack("<q", self.offset_s * 1000000000); m.close()

    def _count_faults(self):
        try: v = struct.unpack("<8q", open(self.vfile, "rb").read(64))
        except (OSError, struct.error): return
        for n, k in enumerate(("send_again", "send_short", "recv_again", "recv_short"), 3):
            if v[n]: self.out.count("injected_" + k, v[n])

    def tcp(self): return Client(self, socket.create_connection(("127.0.0.1", self.port), timeout=REPLY_TIMEOUT), "tcp")

    def unix(self):
        s = socket.socket(socket.AF_UNIX); s.settimeout(REPLY_TIMEOUT); s.connect(self.upath); return Client(self, s, "unix")

    def any_client(self, rng): return self.tcp() if rng.random() < 0.6 or not self.upath else self.unix()

    def fds(self):
        return len(os.listdir("/proc/%d/fd" % self.proc.pid))

    def rss_kb(self):
        for l in open("/proc/%d/status" % self.proc.pid):
            if l.startswith("VmRSS:"): return int(l.split()[1])
        return 0

    def stop(self, check=True, sig=signal.SIGTERM):
        """ends the server; with check: a clean, prompt, sanitizer-silent exit is part of every property"""
        was_alive = self.proc is not None and self.alive()
        try:
            if self.proc is None: return
            if check: self.assert_alive("before shutdown")
            if self.alive():
                self.proc.send_signal(sig)
                try: self.proc.wait(30)
                except subprocess.TimeoutExpired:
                    self.proc.kill(); self.proc.wait()
                    if check: raise Violation("server did not exit within 30 s of signal %d" % sig)
            if check:
                self.out.check(self.proc.returncode == 0, "server exited with status %s after signal %d: %s", self.proc.returncode, sig, report(self.stderr()))
        finally:
            if self.proc is not None and not check and not self.alive() and self.proc.returncode != 0 and not (was_alive and self.proc.returncode < 0): DIED.append("status %s: %s" % (self.proc.returncode, report(self.stderr())))
            if self.proc is not None and self.alive(): self.proc.kill(); self.proc.wait()
            self.errf.close(); self.outf.close()
            self._count_faults()
            self.last_stderr = self.stderr()
            shutil.rmtree(self.dir, ignore_errors=True)


def report(err):
    i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error:"), err.find("Assertion"), err.find("ninitialised"), err.find("Invalid "), err.find("definitely lost"))
    return err[max(0, i - 200):i + 1500] if i >= 0 else err[-1500:]


# ---------------------------------------------------------------- expected replies: sequences of tokens
class Tok(object):
    pass


class Lit(Tok):
    def __init__(self, b): self.b = b
    def match(self, buf, pos):
        n = len(self.b)
        have = buf[pos:pos + n]
        if have == self.b: return pos + n
        if self.b.startswith(bytes(have)) and len(have) < n: return None
        raise Mismatch(self.b, buf[pos:pos + max(n, 60)])


class Cas(Tok):
    """a decimal unique; handed to a callback"""
    def __init__(self, cb): self.cb = cb
    def match(self, buf, pos):
        i = pos
        while i < len(buf) and 48 <= buf[i] <= 57: i += 1
        if i == len(buf): return None
        if i == pos or i - pos > 20: raise Mismatch(b"<unique>", buf[pos:pos + 60])
        self.cb(int(buf[pos:i])); return i


class Line(Tok):
    """one line with the given prefix"""
    def __init__(self, *prefixes): self.p = prefixes
    def match(self, buf, pos):
        e = buf.find(b"\r\n", pos)
        if e < 0:
            if len(buf) - pos > 4096: raise Mismatch(self.p[0] + b"...", buf[pos:pos + 60])
            return None
        line = bytes(buf[pos:e])
        if not any(line.startswith(p) for p in self.p): raise Mismatch(b" or ".join(self.p) + b"...", line)
        return e + 2


class Stats(Tok):
    def __init__(self, cb=None): self.cb = cb
    def match(self, buf, pos):
        d = {}; i = pos
        while True:
            e = buf.find(b"\r\n", i)
            if e < 0: return None
            line = bytes(buf[i:e]); i = e + 2
            if line == b"END":
                if self.cb: self.cb(d)
                return i
            m = re.match(rb"^STAT (\w+) (\d+)$", line)
            if not m: raise Mismatch(b"STAT <name> <value>", line)
            d[m.group(1).decode()] = int(m.group(2))


class Mismatch(Exception):
    def __init__(self, want, got): self.want, self.got = bytes(want), bytes(got)


class Client(object):
    def __init__(self, server, sock, kind):
        self.server, self.sock, self.kind = server, sock, kind
        self.buf = bytearray(); self.eof = False
        if kind == "tcp": sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def close(self):
        try: self.sock.close()
        except OSError: pass

    def _recv(self, timeout):
        r, _, _ = select.select([self.sock], [], [], timeout)
        if not r: return False
        try: d = self.sock.recv(1 << 20)
        except (ConnectionResetError, BrokenPipeError): d = b""
        if not d: self.eof = True; return True
        self.buf += d; return True

    def exchange(self, fragments, toks, pause=0.0, what="", shut=False):
        """sends the fragments while receiving; the bytes received must be exactly what toks describe"""
        out = self.server.out
        self.sock.setblocking(False)
        pend = [memoryview(f) for f in fragments if len(f)]
        pi = 0; ti = 0; pos = 0; deadline = time.time() + REPLY_TIMEOUT; hold = 0.0
        try:
            while ti < len(toks) or pi < len(pend):
                now = time.time()
                if now > deadline:
                    self.server.assert_alive(what)
                    raise Violation("no reply to request %d of %d within %.0f s (%s) %s; received so far %s" % (ti, len(toks), REPLY_TIMEOUT, self.kind, what, show(self.buf[pos:])))
                w = [self.sock] if pi < len(pend) and now >= hold else []
                to = 1.0 if not (pi < len(pend)) else max(0.0, min(1.0, hold - now)) if now < hold else 1.0
                r, ww, _ = select.select([self.sock], w, [], to)
                if ww:
                    try:
                        n = self.sock.send(pend[pi])
                        if n == len(pend[pi]):
                            pi += 1; out.count("segments_sent")
                            if pause: hold = time.time() + pause * self.server.rng.random()
                            if shut and pi == len(pend): self.sock.shutdown(socket.SHUT_WR)
                        else: pend[pi] = pend[pi][n:]
                        deadline = time.time() + REPLY_TIMEOUT
                    except BlockingIOError: pass
                    except (ConnectionResetError, BrokenPipeError):
                        self.eof = True
                if r:
                    if not self._recv(0): pass
                    deadline = time.time() + REPLY_TIMEOUT
                while ti < len(toks):
                    try: np = toks[ti].match(self.buf, pos)
                    except Mismatch as m:
                        self.server.assert_alive(what)
                        raise Violation("reply %d of %d (%s) is %s, expected %s %s" % (ti, len(toks), self.kind, show(m.got, 200), show(m.want, 200), what))
                    if np is None: break
                    pos = np; ti += 1; out.evaluations += 1
                if pos > (1 << 20): del self.buf[:pos]; pos = 0
                if self.eof and (ti < len(toks) or pi < len(pend)):
                    time.sleep(0.2); self.server.assert_alive(what)
                    raise Violation("connection closed (%s) before reply %d of %d %s" % (self.kind, ti, len(toks), what))
            del self.buf[:pos]
        finally:
            try: self.sock.setblocking(True); self.sock.settimeout(REPLY_TIMEOUT)
            except OSError: pass

    def expect_silence(self, seconds, what=""):
        """nothing more may arrive"""
        self.server.out.evaluations += 1
        if not self.buf: self._recv(seconds)
        if self.buf: raise Violation("unexpected bytes after the last reply (%s): %s %s" % (self.kind, show(self.buf, 200), what))

    def expect_eof(self, what=""):
        t = time.time() + REPLY_TIMEOUT
        while not self.eof and time.time() < t: self._recv(1.0)
        if self.buf: raise Violation("unexpected bytes before the end of connection: %s %s" % (show(self.buf, 200), what))
        self.server.out.check(self.eof, "connection was not closed %s", what)

    def command(self, req, *toks): self.exchange([req], list(toks), what="(request %s)" % show(req, 120))

    def line(self, req):
        got = []
        class L(Line):
            def match(s, buf, pos):
                e = buf.find(b"\r\n", pos)
                if e < 0: return None
                got.append(bytes(buf[pos:e])); return e + 2
        self.exchange([req], [L(b"")], what="(request %s)" % show(req, 120))
        return got[0]

    def get(self, key, gets=False):
        """-> None or (value, flags[, unique])"""
        res = []
        class G(Tok):
            def match(s, buf, pos):
                if buf[pos:pos + 5] == b"END\r\n": res.append(None); return pos + 5
                e = buf.find(b"\r\n", pos)
                if e < 0: return None
                m = re.match(rb"^VALUE (\S+) (\d+) (\d+)( \d+)?$", bytes(buf[pos:e]), re.S)
                if not m: raise Mismatch(b"VALUE/END", bytes(buf[pos:e]))
                n = int(m.group(3))
                if len(buf) < e + 2 + n + 7: return None
                if buf[e + 2 + n:e + 2 + n + 7] != b"\r\nEND\r\n": raise Mismatch(b"\r\nEND\r\n", buf[e + 2 + n:e + 20 + n])
                if m.group(1) != key: raise Mismatch(key, m.group(1))
                r = (bytes(buf[e + 2:e + 2 + n]), int(m.group(2)))
                res.append(r + (int(m.group(4)),) if gets else r)
                return e + 2 + n + 7
        self.exchange([(b"gets " if gets else b"get ") + key + b"\r\n"], [G()], what="(get %s)" % show(key))
        return res[0]


class Udp(object):
    def __init__(self, server):
        self.server = server; self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); self.sock.connect(("127.0.0.1", server.uport)); self.id = server.rng.randrange(65536)

    def close(self): self.sock.close()

    def send(self, payload, rid=None, seq=0, total=1, res=0):
        if rid is None: self.id = rid = (self.id + 1) & 0xffff
        self.last = struct.pack(">HHHH", rid, seq, total, res)
        self.sock.send(self.last + payload); return rid

    def recv(self, timeout):
        self.sock.settimeout(timeout)
        try: return self.sock.recv(70000)
        except socket.timeout: return None
        except ConnectionRefusedError: return None

    def ask(self, payload, retries=3, idempotent=True):
        """reply body to one request or None"""
        for _ in range(retries):
            rid = self.send(payload)
            t = time.time() + 10
            while time.time() < t:
                d = self.recv(max(0.05, t - time.time()))
                if d is None: break
                if len(d) >= 8 and struct.unpack(">H", d[:2])[0] == rid: return d
            if not idempotent: return None
        return None


def udp_dead(server):
    """the server answers no datagram: its fault, unless the host delivers none"""
    a = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); b = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        a.bind(("127.0.0.1", 0)); b.sendto(b"x", a.getsockname()); a.settimeout(10)
        try: a.recv(10)
        except socket.timeout: raise HarnessError("UDP is not delivered on this host")
    finally: a.close(); b.close()
    server.assert_alive("[UDP]")
    raise Violation("the server answers no datagram any more")


# ---------------------------------------------------------------- the reference model
U64 = (1 << 64) - 1


class Item(object):
    __slots__ = ("v", "flags", "exp", "cas")
    def __init__(self, v, flags, exp): self.v, self.flags, self.exp, self.cas = v, flags, exp, None


def numeric(v):
    """True / False / None: too long to tell"""
    if not v or not v.isdigit(): return False
    if len(v) > 20: return None
    return int(v) <= U64


class Model(object):
    def __init__(self, max_item=None): self.d = {}; self.now = 0; self.max_item = max_item; self.uniq = {}; self.st = collections.Counter()

    def live(self, k):
        i = self.d.get(k)
        if i is not None and i.exp is not None and i.exp <= self.now: del self.d[k]; i = None
        return i

    def learn(self, k, item, u, out):
        """uniques: stable while the item is not changed, never reused for another content of the key"""
        if item.cas is not None: out.check(item.cas == u, "unique of unchanged %s was %s and is %s", show(k), item.cas, u)
        else:
            seen = self.uniq.setdefault(k, set())
            out.check(u not in seen, "unique %s of %s was already used for another content", u, show(k))
            seen.add(u); item.cas = u
