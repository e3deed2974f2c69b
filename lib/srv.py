#!/usr/bin/env python3
"""Black-box monitors of the real, sanitizer-instrumented server.

srv.py --scenario S --binary B --seed N --cases K [--first F] [--slot P] [--profile X]
exit 0 with HARNESS-SUMMARY; 77 violation; 78 the harness could not decide.
"""
import argparse, collections, itertools, os, random, re, select, signal, socket, struct, subprocess, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
from mc import *

OUT = Out()
KEYCH = bytes(c for c in range(256) if c not in (32, 13, 10))
SMALL = b"abcdefghijklmnopqrstuvwxyz0123456789"


def rbytes(rng, n): return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def logint(rng, hi):
    return min(hi, int(2 ** (rng.random() * (hi.bit_length() + 0.01))) - 1 + rng.randrange(2)) if hi else 0


class Gen(object):
    """generates requests together with the exact replies the reference model predicts"""
    def __init__(self, rng, model, keys=30, page=1 << 20, ttl=False, errors=True, stats=True, big=True, weights=None, maxval=3000):
        self.rng, self.m, self.page, self.ttl, self.errors, self.stats, self.big, self.maxval = rng, model, page, ttl, errors, stats, big, maxval
        self.keys = [self.mk(i) for i in range(keys)]
        self.keys = list(dict.fromkeys(self.keys))
        self.n = collections.Counter()
        w = {"get": 14, "gets": 8, "mget": 5, "set": 16, "add": 6, "replace": 6, "append": 5, "prepend": 5, "cas": 8, "delete": 6, "touch": 4, "incr": 5, "decr": 5, "num": 5, "version": 1, "flush": 1, "stats": 1, "err": 2, "huge": 0.3}
        if weights: w.update(weights)
        if not errors: w["err"] = w["huge"] = 0
        if not stats: w["stats"] = 0
        self.ops = [k for k, v in w.items() if v > 0]; self.w = [w[k] for k in self.ops]
        self.vno = 0; self.hugeleft = 4

    def mk(self, i):
        r = self.rng; t = r.randrange(10)
        if t < 5: return b"k%d" % i
        if t < 7: return bytes(r.choice(SMALL) for _ in range(r.randrange(1, 30))) + b"%d" % i
        n = 250 if t == 7 else r.randrange(1, 251)
        k = bytes(r.choice(KEYCH) for _ in range(n))
        return k

    def key(self):
        r = self.rng
        return r.choice(self.keys[:max(1, len(self.keys) // 4)]) if r.random() < 0.5 else r.choice(self.keys)

    def value(self, big=True):
        r = self.rng; t = r.random(); self.vno += 1
        if t < 0.1: return b""
        if t < 0.2: return r.choice([b"\r\n", b"END\r\n", b"\r\nEND\r\nget k1\r\n", b"VALUE k1 0 2\r\nxx", b"\0", b"\r", b"\n", b"\r\r\n", b"quit\r\n", b"\x80\x81"]) + b"%d" % self.vno
        if t < 0.3: return b"v%d" % self.vno
        if self.big and big and t > 0.985: n = r.randrange(20000, 200000)
        elif self.big and big and t > 0.95: n = r.choice([2040, 2046, 2047, 2048, 2049, 4090, 4096, 8192, 16384, 65536]) + r.randrange(-4, 5)
        else: n = logint(r, self.maxval)
        return rbytes(r, n)

    def ttl_of(self):
        r = self.rng
        if not self.ttl or r.random() < 0.4: return 0, None
        t = r.choice([500, 1500, 2500, 3500, 10500, 100500])
        x = r.random()
        if x < 0.08: t = r.choice([0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff])
        elif x < 0.25: t = r.choice([86500, 2591500, 2592500, 3000500, 31536500, 1700000500])      # a day, a month, a year and what looks like a date
        return t, self.m.now + t

    def get_toks(self, key, gets):
        m = self.m; it = m.live(key); m.st["cmd_get"] += 1
        if it is None: m.st["get_misses"] += 1; return []
        m.st["get_hits"] += 1
        head = b"VALUE %s %d %d" % (key, it.flags, len(it.v))
        if not gets: return [Lit(head + b"\r\n" + it.v + b"\r\n")]
        return [Lit(head + b" "), Cas(lambda u, it=it, key=key: m.learn(key, it, u, OUT)), Lit(b"\r\n" + it.v + b"\r\n")]

    def put(self, key, v, flags, exp):
        self.m.d[key] = Item(v, flags, exp)

    # -> bytes, [tokens], kind
    def request(self, replying=False):
        r, m = self.rng, self.m
        op = r.choices(self.ops, self.w)[0]
        self.n[op] += 1
        nore = (not replying) and r.random() < 0.15
        nr = b" noreply" if nore else b""

        def rep(b): return [] if nore else [Lit(b + b"\r\n")]
        k = self.key(); it = m.live(k)
        if op in ("get", "gets"):
            return b"%s %s\r\n" % (op.encode(), k), self.get_toks(k, op == "gets") + [Lit(b"END\r\n")], op + ("+" if it else "-")
        if op == "mget":
            ks = [self.key() for _ in range(r.randrange(2, 12))]; g = r.random() < 0.5
            if self.big and r.random() < 0.12:      # many keys: the request line is long, too
                long = r.random() < 0.4; room = 400000; line = 400000 if long else 60000
                for _ in range(r.choice([300, 1100, 2500] if long else [60, 130, 300, 1100])):
                    x = self.key() if r.random() < (0.05 if long else 0.5) else b"none%d" % r.randrange(100000) + (b"-" * r.randrange(240) if long else b"")
                    i = m.live(x); room -= len(i.v) + 300 if i else 0; line -= len(x) + 1
                    if room < 0 or line < 0: break
                    ks.append(x)
                r.shuffle(ks); self.n["mget_long"] += 1; OUT.maxi("request_line_max", sum(map(len, ks)) + len(ks))
            toks = []
            for x in ks: toks += self.get_toks(x, g)
            return (b"gets " if g else b"get ") + b" ".join(ks) + b"\r\n", toks + [Lit(b"END\r\n")], "mget"
        if op in ("set", "add", "replace", "append", "prepend", "cas", "num"):
            v = self.value(); flags = r.choice([0, 1, 65535, r.randrange(65536)]); t, exp = self.ttl_of()
            if op == "num":
                op = "set"; v = b"%d" % r.choice([0, 9, 10, 99, 10 ** 18, 10 ** 19, U64, U64 - 5, r.randrange(1 << 64), r.randrange(1000)])
            extra = b""; reply = None; kind = op
            if op == "set":
                m.st["cmd_set"] += 1; m.st["set_existing" if it else "set_new"] += 1
                self.put(k, v, flags, exp); reply = b"STORED"
            elif op == "add":
                m.st["cmd_add"] += 1
                if it: reply = b"NOT_STORED"; m.st["add_not_stored"] += 1
                else: self.put(k, v, flags, exp); reply = b"STORED"; m.st["add_stored"] += 1
            elif op == "replace":
                m.st["cmd_replace"] += 1
                if it: self.put(k, v, flags, exp); reply = b"STORED"; m.st["replace_stored"] += 1
                else: reply = b"NOT_STORED"; m.st["replace_not_stored"] += 1
            elif op in ("append", "prepend"):
                m.st["cmd_" + op] += 1
                if it is None: reply = b"NOT_STORED"; m.st[op + "_misses"] += 1
                else:
                    if len(it.v) + len(v) > self.page // 3: v = b""
                    nv = it.v + v if op == "append" else v + it.v
                    self.put(k, nv, it.flags, it.exp); reply = b"STORED"; m.st[op + "_stored"] += 1
            elif op == "cas":
                m.st["cmd_cas"] += 1
                stale = sorted(m.uniq.get(k, set()) - ({it.cas} if it else set()))
                if it is not None and it.cas is not None and r.random() < 0.6: u = it.cas
                elif it is not None and it.cas is not None and r.random() < 0.4: u = it.cas ^ (1 << r.randrange(64)) if r.random() < 0.5 else (it.cas + (r.randrange(1, 1000) << 32)) & U64
                elif stale and r.random() < 0.8: u = r.choice(stale)
                else: u = (1 << 63) + r.randrange(1 << 62)
                extra = b" %d" % u
                if it is None: reply = b"NOT_FOUND"; m.st["cas_misses"] += 1
                elif it.cas == u and u is not None: self.put(k, v, flags, exp); reply = b"STORED"; m.st["cas_stored"] += 1
                else: reply = b"EXISTS"; m.st["cas_badval"] += 1
            kind = op + "+" + reply.decode()
            return b"%s %s %d %d %d%s%s\r\n%s\r\n" % (op.encode(), k, flags, t, len(v), extra, nr, v), rep(reply), kind
        if op == "huge":
            if self.hugeleft == 0 or not self.big: return self.request(replying)
            self.hugeleft -= 1
            c = r.choice([b"set", b"add", b"replace", b"append", b"cas"]); n = self.page + r.randrange(1, 30000)
            v = (b"\r\nset %s 0 0 1\r\nZ\r\nget %s\r\n" % (k, k)) * (n // 20 + 1)
            return b"%s %s 0 0 %d%s\r\n%s\r\n" % (c, k, n, b" 7" if c == b"cas" else b"", v[:n]), [Line(b"SERVER_ERROR ")], "huge"
        if op == "delete":
            m.st["cmd_delete"] += 1; m.st["delete_hits" if it else "delete_misses"] += 1
            if it: del m.d[k]
            return b"delete %s%s\r\n" % (k, nr), rep(b"DELETED" if it else b"NOT_FOUND"), "delete" + ("+" if it else "-")
        if op == "touch":
            t, exp = self.ttl_of(); m.st["cmd_touch"] += 1; m.st["touch_hits" if it else "touch_misses"] += 1
            if it: it.exp = exp
            return b"touch %s %d%s\r\n" % (k, t, nr), rep(b"TOUCHED" if it else b"NOT_FOUND"), "touch" + ("+" if it else "-")
        if op in ("incr", "decr"):
            ns = [x for x in self.keys if m.live(x) is not None and numeric(m.d[x].v)]
            if ns and r.random() < 0.8: k = r.choice(ns); it = m.d[k]
            if it is not None:
                c = numeric(it.v)
                if c is None or (c is False and not (it.v[:1].isalpha() and self.errors)): return self.request(replying)
                if c is False:
                    return b"%s %s 1\r\n" % (op.encode(), k), [Line(b"CLIENT_ERROR ")], op + "-nonnum"
            d = r.choice([0, 1, 9, 10, U64, r.randrange(1 << 64), r.randrange(1000), 1 << 63])
            if it and r.random() < 0.3: d = min(U64, int(it.v) + r.randrange(0, 2)) if op == "decr" else min(U64, U64 - int(it.v) + r.randrange(0, 2))
            m.st["cmd_" + op] += 1; m.st[op + ("_hits" if it else "_misses")] += 1
            if it is None: return b"%s %s %d%s\r\n" % (op.encode(), k, d, nr), rep(b"NOT_FOUND"), op + "-"
            n = min(U64, int(it.v) + d) if op == "incr" else max(0, int(it.v) - d)
            self.put(k, b"%d" % n, it.flags, it.exp)
            return b"%s %s %d%s\r\n" % (op.encode(), k, d, nr), rep(b"%d" % n), op + ("+sat" if n in (0, U64) else "+")
        if op == "version": return b"version\r\n", [Line(b"VERSION ")], op
        if op == "flush": m.st["cmd_flush"] += 1; return b"flush_all%s\r\n" % nr, rep(b"OK"), op
        if op == "stats": return b"stats\r\n", [Stats(lambda d: None)], op
        if op == "err":
            e = r.randrange(4)
            if e == 0: return b"incr %s %s\r\n" % (k, r.choice([b"abc", b"x1", b"99999999999999999999999"])), [Line(b"CLIENT_ERROR ")], "err0"
            if e == 1: return b"touch %s zz\r\n" % k, [Line(b"CLIENT_ERROR ")], "err1"
            if e == 2: return b"stats foo\r\n", [Line(b"SERVER_ERROR ")], "err2"
            return b"decr %s %s\r\n" % (k, b"18446744073709551616"), [Line(b"CLIENT_ERROR ")], "err3"
        raise HarnessError(op)

    def last_error(self):
        """errors after which the rest of the buffered input is discarded: only legal at the end of a batch"""
        r = self.rng; e = r.randrange(12); L = b"L" * r.choice([251, 252, 300, 1000])
        if e == 0: return r.choice([b"bogus\r\n", b"GET k1\r\n", b"\r\n", b"getx k1\r\n", b"get_ k1\r\n", b" get k1\r\n"]), [Lit(b"ERROR\r\n")]
        if e == 1: return b"get %s\r\n" % L, [Line(b"CLIENT_ERROR ")]
        if e == 2: return b"delete %s\r\n" % L, [Line(b"CLIENT_ERROR ")]
        if e == 3: return b"delete %s nope\r\n" % self.key(), [Line(b"CLIENT_ERROR ")]
        if e == 4: return b"get\r\n", [Line(b"CLIENT_ERROR ")]
        if e == 5: return b"get %s %s\r\n" % (b" ".join(self.key() for _ in range(r.randrange(1, 5))), L), [Line(b"CLIENT_ERROR ")]
        if e == 6: return r.choice([b"incr %s 1\r\n", b"decr %s 1\r\n", b"touch %s 1\r\n"]) % L, [Line(b"CLIENT_ERROR ")]
        if e == 7: return b"gets %s %s %s\r\n" % (self.key(), L, self.key()), [Line(b"CLIENT_ERROR ")]
        if e == 8: return b"%s  %s\r\n" % (r.choice([b"get", b"delete"]), self.key()), [Line(b"CLIENT_ERROR ")]
        if e > 9:      # the value does not end where it was announced to end
            v = rbytes(r, r.choice([0, 0, 1, 2, 7, 300])); end = r.choice([b"ab", b"\n\r", b"\rx", b"x\n", b"\r\r", b"\n\n", b"  "])
            return b"%s %s 0 0 %d\r\n%s%s" % (r.choice([b"set", b"add", b"append", b"replace"]), self.key(), len(v), v, end), [Line(b"CLIENT_ERROR ")]
        return b"version 1\r\n", [Line(b"CLIENT_ERROR ")]


def fragments(rng, data, bounds):
    """cuts a byte stream; returns (fragments, pause, strategy)"""
    s = rng.randrange(7); n = len(data)
    if s == 0 or n < 2: return [data], 0, "whole"
    if s == 1 and n < 400: return [data[i:i + 1] for i in range(n)], 0.0015 if n < 150 else 0, "bytes"
    if s == 2: cuts = bounds; st = "requests"
    elif s == 3:      # around CR LF
        cuts = []
        for i in [i for i in range(n) if data[i] == 13][:60]:
            cuts.append(i + rng.choice([0, 1, 1, 2]))
        st = "crlf"
    elif s == 4: cuts = [rng.randrange(n) for _ in range(rng.randrange(1, 6))]; st = "few"
    elif s == 5:      # one byte before/after a request boundary
        cuts = [b + rng.choice([-2, -1, 1, 2]) for b in bounds]; st = "edges"
    else:
        step = rng.choice([7, 100, 1000, 1448, 2047, 2048, 2049, 4096]); cuts = list(range(step, n, step)); st = "step%d" % step
    cuts = sorted({c for c in cuts if 0 < c < n})
    if len(cuts) > 400: cuts = sorted(rng.sample(cuts, 400))
    fr = [data[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    return fr, (0.002 if len(fr) < 80 else 0), st


def batch(gen, rng, client, server, n, allow_last=True):
    reqs, toks, kinds = [], [], []
    for i in range(n):
        q, t, k = gen.request(); reqs.append(q); toks += t; kinds.append(k)
    closing = None
    if allow_last and rng.random() < 0.12:
        q, t = gen.last_error(); reqs.append(q); toks += t; kinds.append("lasterr")
    elif allow_last and rng.random() < 0.05:
        reqs.append(b"quit\r\n"); closing = "quit"
    elif allow_last and rng.random() < 0.06:
        reqs.append(b"version\r\n"); toks.append(Line(b"VERSION ")); closing = "halfclose"
    elif not t or rng.random() < 0.4:     # often the last request is the one whose reply ends the batch: it must come without further input
        k = gen.key(); reqs.append(b"get %s\r\n" % k); toks += gen.get_toks(k, False) + [Lit(b"END\r\n")]
    data = b"".join(reqs); bounds = list(itertools.accumulate(len(x) for x in reqs))
    fr, pause, st = fragments(rng, data, bounds)
    what = "[batch of %d: %s; %s, %d fragments]" % (len(reqs), " | ".join(show(x, 60) for x in reqs[-8:]), st, len(fr))
    client.exchange(fr, toks, pause, what, shut=closing == "halfclose")
    OUT.count("batches"); OUT.count("requests", len(reqs)); OUT.count("cut_" + re.sub(r"\d", "", st))
    for a, b in zip(kinds, kinds[1:]): OUT.sig(a, b, st)
    if closing: client.expect_eof(what); client.close(); OUT.count("closed_" + closing); return None
    return client


def over_buffer(rng, sv, probe):
    """a value announced bigger than anything the server can hold: no part of what follows is taken for a request"""
    want = rbytes(rng, 20); probe.command(b"set guard 3 0 20\r\n%s\r\n" % want, Lit(b"STORED\r\n"))
    n = rng.choice([30 << 20, (30 << 20) + 1, 31 << 20, 40000000, 1 << 30, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 3, (1 << 32) - 2, (1 << 32) - 1])
    c = rng.choice([b"set", b"add", b"replace", b"append", b"prepend", b"cas"]); evil = b"set guard 0 0 3\r\nBAD\r\ndelete guard\r\nget guard\r\nversion\r\n"
    head = b"%s %s 0 0 %d%s%s\r\n" % (c, rng.choice([b"guard", b"other"]), n, b" 7" if c == b"cas" else b"", rng.choice([b"", b" noreply"]))
    body = rng.choice([b"", b"abc\r\n", b"x" * 3000]) + evil * rng.choice([1, 1, 30, 4000])
    x = sv.any_client(rng); sk = x.sock; sk.settimeout(20); got = b""
    try:
        if rng.random() < 0.5: sk.sendall(head + body)
        else: sk.sendall(head); time.sleep(0.01 * rng.randrange(3)); sk.sendall(body)
        sk.shutdown(socket.SHUT_WR)
    except OSError: OUT.count("over_buffer_cut")
    try:
        while True:
            b = sk.recv(65536)
            if not b: break
            got += b
    except socket.timeout: raise Violation("a value of %d bytes was announced and the connection shut down: the server neither answers nor closes" % n)
    except OSError: pass
    x.close()
    OUT.check(re.match(rb"^(SERVER_ERROR [^\r\n]*\r\n)?$", got) is not None, "content of a value announced with %d bytes was taken for requests: %s", n, show(got, 200))
    probe.command(b"get guard\r\n", Lit(b"VALUE guard 3 20\r\n%s\r\nEND\r\n" % want)); OUT.count("over_buffer"); OUT.sig("over_buffer", n, c)


def endless(rng, sv):
    """more than any buffer holds goes through one connection, and the last request received is never complete"""
    c = sv.any_client(rng); total = 0; have = {}; left = b""; i = 0
    while total < 36 << 20:
        reqs = []
        for _ in range(rng.randrange(4, 24)):
            k = b"e%d" % rng.randrange(5); v = rbytes(rng, rng.choice([10, 3000, 60000, 90000])); have[k] = v; i += 1
            reqs.append(b"set %s 0 0 %d noreply\r\n%s\r\n" % (k, len(v), v))
        k = rng.choice(sorted(have)); reqs.append(b"get %s\r\n" % k); tok = Lit(b"VALUE %s 0 %d\r\n%s\r\nEND\r\n" % (k, len(have[k]), have[k]))
        nk = b"e%d" % rng.randrange(5); nv = rbytes(rng, 5000); nxt = b"set %s 0 0 5000 noreply\r\n%s\r\n" % (nk, nv); at = rng.randrange(1, len(nxt))
        data = left + b"".join(reqs) + nxt[:at]; left = nxt[at:]
        c.exchange([data], [tok], what="[%d MB into a stream whose last request is always incomplete]" % (total >> 20))
        have[nk] = nv; total += len(data)
    k = nk; c.exchange([left + b"get %s\r\n" % k], [Lit(b"VALUE %s 0 %d\r\n%s\r\nEND\r\n" % (k, len(have[k]), have[k]))], what="[end of the stream]")
    c.close(); OUT.count("endless_streams"); OUT.count("endless_mb", total >> 20)


def sc_framing(rng, a, n):
    page = 1 << 20
    args = ["-m", "256", "-H", str(1 << rng.randrange(0, 17))]
    if rng.random() < 0.2: args += ["-C"]
    if rng.random() < 0.3: page = 1 << 22; args += ["-P", "4"]
    sv = Server(a.binary, OUT, rng, args)
    try:
        ttl = a.profile == "expire"
        weights = {"cas": {"cas": 40, "gets": 30}, "arith": {"incr": 30, "decr": 30, "num": 20}, "expire": {"touch": 15, "set": 25, "flush": 3}, "limits": {"huge": 6}}.get(a.profile)
        g = Gen(rng, Model(), keys=rng.choice([3, 12, 40]), page=page, ttl=ttl, weights=weights)
        if a.profile == "limits": g.hugeleft = 12
        if not a.profile and n % 8 == 0 and not a.binary.endswith(("_vg", "_vgm")): endless(rng, sv)
        cl = [sv.any_client(rng) for _ in range(rng.randrange(1, 5))]
        t0 = time.time(); jumps = 0
        for b in range(a.batches):
            i = rng.randrange(len(cl))
            if cl[i] is None or rng.random() < 0.02:
                if cl[i]: cl[i].close()
                cl[i] = sv.any_client(rng)
            if ttl and rng.random() < 0.3:
                s = rng.choice([1000, 1000, 1000, 2000, 5000, 100000])
                soon = [it.exp - g.m.now for it in (g.m.d.get(k) for k in g.keys) if it and it.exp is not None and 500 <= it.exp - g.m.now < 40000000]
                if soon and rng.random() < 0.4:      # the last moment before one expires, or just after
                    s = rng.choice(soon) // 1000 * 1000 + rng.choice([0, 1000]); OUT.count("jumps_to_an_expiration")
                    if s == 0: s = 1000
                sv.advance(s); g.m.now += s; jumps += 1
                if rng.random() < 0.5:
                    sweep = [k for k in g.keys]
                    toks = []
                    for k in sweep: toks += g.get_toks(k, False) + [Lit(b"END\r\n")]
                    if cl[i] is None: cl[i] = sv.any_client(rng)
                    cl[i].exchange([b"".join(b"get %s\r\n" % k for k in sweep)], toks, what="[sweep after the clock moved]")
            size = rng.choice([1, 1, 2, 3, 5, 8, 20, 60])
            cl[i] = batch(g, rng, cl[i], sv, size)
            if ttl and time.time() - t0 > 250: OUT.count("cut_short"); break
        for c in cl:
            if c: c.expect_silence(0.02); c.close()
        c = sv.tcp()
        if a.profile == "limits":
            for _ in range(8): over_buffer(rng, sv, c)
        for k in g.keys:
            toks = g.get_toks(k, True) + [Lit(b"END\r\n")]
            c.exchange([b"gets %s\r\n" % k], toks, what="[final sweep]")
        if a.profile == "stats": check_stats(c, g)
        c.close()
        if ttl: OUT.count("clock_jumps", jumps)
        for k, v in g.n.items(): OUT.count("op_" + k, v)
        OUT.sample("server %s, %d keys, %d requests over %d batches" % (" ".join(args), len(g.keys), sum(g.n.values()), a.batches))
        sv.stop()
    finally:
        sv.stop(check=False)


# ---------------------------------------------------------------- statistics
def check_stats(c, g, also=None):
    got = {}
    c.exchange([b"stats\r\n"], [Stats(got.update)], what="[stats]")
    for k, v in sorted(g.m.st.items()):
        OUT.check(k in got, "stats do not contain %s", k)
        OUT.check(got[k] == v, "stats report %s = %d, %d happened", k, got[k], v)
    for k in ("cmd_get", "get_hits", "get_misses", "cmd_set", "set_new", "set_existing", "cmd_add", "add_stored", "add_not_stored", "cmd_replace", "cmd_cas", "cas_misses", "cas_stored", "cas_badval", "cmd_delete", "delete_hits",
              "delete_misses", "cmd_touch", "touch_hits", "touch_misses", "cmd_incr", "incr_hits", "incr_misses", "cmd_decr", "cmd_append", "cmd_prepend", "cmd_flush", "evictions"):
        OUT.check(got.get(k, -1) == g.m.st.get(k, 0), "stats report %s = %s, %d happened", k, got.get(k), g.m.st.get(k, 0))
    live = sum(1 for k in list(g.m.d) if g.m.live(k))
    OUT.check(got["curr_items"] == live, "stats report curr_items = %d, the cache holds %d", got["curr_items"], live)
    OUT.count("stats_compared"); OUT.sig("stats", live, tuple(sorted(g.m.st.items()))[:4])
    return got


def sc_stats(rng, a, n):
    page = 1 << rng.choice([12, 14, 16, 20]); mem = max(page * 4, 1 << 26)
    hs = 1 << rng.randrange(0, 15)
    sv = Server(a.binary, OUT, rng, ["-m", "%dK" % (mem >> 10), "-P", "%dK" % (page >> 10), "-H", str(hs)])
    try:
        g = Gen(rng, Model(), keys=rng.choice([5, 40, 300]), page=page, errors=False, stats=False, big=False, maxval=500)
        cl = [sv.any_client(rng) for _ in range(3)]
        first = {}
        cl[0].exchange([b"stats\r\n"], [Stats(first.update)])
        OUT.check(first["limit_maxbytes"] == mem, "limit_maxbytes %d with %d of memory", first["limit_maxbytes"], mem)
        OUT.check(first["page_size"] == page, "page_size %d with pages of %d", first["page_size"], page)
        OUT.check(first["curr_items"] == 0, "curr_items of an empty server is %d", first["curr_items"])
        OUT.check(first["hash_capacity"] == hs, "hash_capacity %d of %d asked for", first["hash_capacity"], hs)
        for b in range(a.batches):
            i = rng.randrange(3)
            batch(g, rng, cl[i], sv, rng.choice([1, 5, 30]), allow_last=False)
            if rng.random() < 0.4: check_stats(cl[rng.randrange(3)], g)
        got = check_stats(cl[0], g)
        OUT.check(got["hash_capacity"] >= hs and got["hash_capacity"] & (got["hash_capacity"] - 1) == 0, "hash_capacity %d", got["hash_capacity"])
        sv.proc.send_signal(signal.SIGUSR1)
        t = time.time(); want = "curr_items"
        while time.time() - t < 20 and want not in sv.stdout() + sv.stderr(): time.sleep(0.05)
        txt = sv.stdout() + sv.stderr()
        OUT.check(want in txt, "SIGUSR1 printed no statistics")
        for c in cl: c.close()
        sv.stop()
    finally:
        sv.stop(check=False)


# ---------------------------------------------------------------- hostile input
REPLY_LINES = re.compile(rb"^(END|STORED|NOT_STORED|EXISTS|NOT_FOUND|DELETED|TOUCHED|OK|ERROR|CLIENT_ERROR [^\r\n]+|SERVER_ERROR [^\r\n]+|VERSION [^\r\n]+|STAT \w+ \d+|\d{1,20})$")


def parse_replies(buf, closed):
    """the bytes a server sent must be a sequence of well-formed replies (the last may be cut by the end of connection)"""
    i = 0; kinds = collections.Counter()
    while i < len(buf):
        e = buf.find(b"\r\n", i)
        if e < 0: break
        line = bytes(buf[i:e])
        if line.startswith(b"VALUE "):
            m = re.match(rb"^VALUE ([^ \r\n]{1,250}) (\d+) (\d+)( \d+)?$", line)
            if not m: raise Violation("malformed reply line %s" % show(line, 200))
            n = int(m.group(3))
            if len(buf) < e + 2 + n + 2: break
            if buf[e + 2 + n:e + 4 + n] != b"\r\n": raise Violation("value of %d bytes is not followed by CRLF in the reply: %s" % (n, show(buf[e + n:e + n + 20])))
            kinds["VALUE"] += 1; i = e + 4 + n; continue
        if not REPLY_LINES.match(line): raise Violation("malformed reply line %s" % show(line, 200))
        kinds[line.split(b" ")[0].decode() if not line[:1].isdigit() else "num"] += 1; i = e + 2
    OUT.evaluations += sum(kinds.values()) + 1
    for k in kinds: OUT.count("reply_" + k, kinds[k])
    return kinds


def hostile_bytes(rng, g, mkkey):
    t = rng.randrange(12); r = rng
    verbs = [b"get", b"gets", b"set", b"add", b"replace", b"append", b"prepend", b"cas", b"delete", b"touch", b"incr", b"decr", b"flush_all", b"version", b"stats", b"quit", b"verbosity", b"g", b"", b"sett", b"seT", b"gett"]
    nums = [b"0", b"1", b"5", b"-1", b"4294967295", b"4294967296", b"4294967294", b"2147483648", b"65535", b"65536", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999999", b"0x10", b"1e3", b"+5", b"", b"a", b"\0", b"33554432", b"33554431", b"1073741824"]
    eol = [b"\r\n", b"\r\n", b"\r\n", b"\n", b"\r", b"", b"\r\r\n", b" \r\n"]
    if t < 4:
        k = mkkey()
        parts = [r.choice(verbs), k] + [r.choice(nums) for _ in range(r.randrange(0, 6))]
        if r.random() < 0.2: parts.append(b"noreply")
        s = r.choice([b" ", b" ", b" ", b"  ", b"\t"]).join(parts) + r.choice(eol)
        if r.random() < 0.6: s += rbytes(r, r.randrange(0, 9)) + r.choice(eol)
        return s, "tokens"
    if t == 4:
        k = mkkey(); n = r.choice([0, 1, 5, 100, 5000]); d = n + r.choice([-2, -1, 0, 1, 2, 50])
        return b"%s %s 0 0 %d\r\n%s\r\n" % (r.choice(verbs[2:8]), k, max(0, d), rbytes(r, n)), "length"
    if t == 5: return rbytes(r, r.choice([1, 2, 8, 100, 3000])), "random"
    if t == 6: return rbytes(r, r.choice([1, 10, 100])) + b"\r\n", "randomline"
    if t == 7: return b"\x80" + rbytes(r, r.choice([0, 23, 60])), "binary"
    if t == 8: return r.choice([b"get ", b"set ", b"delete ", b"", b"get k "]) + r.choice([b"A", b" ", b"\0", b"\r", b"\n", b"k "]) * r.choice([300, 2048, 5000, 70000]) + r.choice(eol), "long"
    if t == 9: return b"get " + b" ".join(mkkey() for _ in range(r.choice([2, 50, 1500]))) + r.choice(eol), "manykeys"
    if t == 10:   # mutate a valid request
        q = bytearray(g.request()[0][:3000])
        for _ in range(r.randrange(1, 4)):
            if not q: break
            w = r.randrange(4); i = r.randrange(len(q))
            if w == 0: q[i] = r.randrange(256)
            elif w == 1: del q[i:i + r.randrange(1, 4)]
            elif w == 2: q[i:i] = rbytes(r, r.randrange(1, 4))
            else: q = q[:i]
        return bytes(q), "mutated"
    return b"set %s 0 0 %s\r\n" % (mkkey(), r.choice([b"4294967295", b"4294967293", b"40000000", b"33554430", b"1048576", b"2000000"])) + rbytes(r, r.choice([0, 10, 5000])), "declared"


def sc_hostile(rng, a, n):
    args = ["-m", "64", "-M"] if rng.random() < 0.6 else ["-m", "16", "-P", "256K", "-M"]
    sv = Server(a.binary, OUT, rng, args)
    try:
        model = Model(); g = Gen(rng, Model(), keys=20, big=False, maxval=400)
        canary = {}
        c = sv.tcp()
        for i in range(40):
            k = b"canary-%d-" % i + bytes(rng.choice(SMALL) for _ in range(200)); v = rbytes(rng, rng.randrange(0, 3000))
            c.command(b"set %s %d 0 %d\r\n%s\r\n" % (k, i, len(v), v), Lit(b"STORED\r\n")); canary[k] = (v, i)
        mkkey = lambda: rng.choice([b"k1", b"h%d" % rng.randrange(20), bytes(rng.choice(KEYCH) for _ in range(rng.choice([1, 20, 250]))), b"x" * rng.choice([1, 249, 250, 251, 255, 256, 300, 506, 5000])])
        for b in range(a.batches):
            t = rng.random()
            if t < 0.2:      # datagrams
                u = Udp(sv)
                for _ in range(rng.randrange(1, 6)):
                    s, kind = hostile_bytes(rng, g, mkkey); s = s[:60000]
                    w = rng.randrange(5)
                    try:
                        if w == 0: u.sock.send(s[:rng.randrange(0, 12)])
                        elif w == 1: u.send(s, seq=rng.choice([1, 65535]), total=rng.choice([0, 2, 65535]), res=rng.choice([0, 1, 256]))
                        else: u.send(s)
                    except OSError: pass
                    OUT.count("hostile_udp"); OUT.sig("udp", kind, w)
                while True:
                    d = u.recv(0.01)
                    if d is None: break
                    OUT.check(len(d) >= 8, "datagram of %d bytes received", len(d)); parse_replies(d[8:], True)
                u.close()
            else:
                c2 = sv.any_client(rng)
                data = b""; kinds = []
                for _ in range(rng.choice([1, 1, 1, 2, 4, 10])):
                    s, kind = hostile_bytes(rng, g, mkkey); data += s; kinds.append(kind)
                fr, pause, st = fragments(rng, data, [len(data)])
                if len(fr) > 40: fr = [data]
                got = bytearray(); c2.sock.settimeout(5)
                try:
                    for f in fr:
                        c2.sock.sendall(f)
                        if pause: time.sleep(pause * rng.random())
                except OSError: pass
                mode = rng.randrange(3)
                try:
                    if mode == 0: c2.sock.shutdown(socket.SHUT_WR)
                except OSError: pass
                dl = time.time() + (8 if mode == 0 else 0.02)
                closed = False
                while time.time() < dl:
                    rr, _, _ = select.select([c2.sock], [], [], max(0, dl - time.time()))
                    if not rr: break
                    try: d = c2.sock.recv(1 << 20)
                    except OSError: closed = True; break
                    if not d: closed = True; break
                    got += d
                    if len(got) > 40 << 20: break
                if mode == 0 and not closed:
                    sv.assert_alive("after hostile input %s" % show(data, 200))
                    raise Violation("connection not closed within 8 s after the client finished sending %s; received %s" % (show(data, 300), show(got, 100)))
                parse_replies(got, closed)
                if mode == 2:
                    try: c2.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    except OSError: pass
                c2.close()
                OUT.count("hostile_stream"); OUT.sig(tuple(kinds[:2]), st, mode)
            sv.assert_alive("after hostile input")
            ck = rng.sample(sorted(canary), 3)
            toks = [Lit(b"VALUE %s %d %d\r\n%s\r\n" % (k, canary[k][1], len(canary[k][0]), canary[k][0])) for k in ck]
            c.exchange([b"get " + b" ".join(ck) + b"\r\n"], toks + [Lit(b"END\r\n")], what="[an unrelated client after hostile input]")
        for k, (v, f) in canary.items():
            c.command(b"get %s\r\n" % k, Lit(b"VALUE %s %d %d\r\n%s\r\nEND\r\n" % (k, f, len(v), v)))
        OUT.count("canaries_verified", len(canary)); c.close()
        sv.stop()
    finally:
        sv.stop(check=False)


# ---------------------------------------------------------------- slow readers
def sc_slow(rng, a, n):
    """clients which do not read their replies: the others are served, memory stays bounded, nothing is lost"""
    sv = Server(a.binary, OUT, rng, ["-m", "64"])
    try:
        c = sv.tcp(); vals = {}
        for i in range(10):
            k = b"big%d" % i; v = rbytes(rng, rng.choice([1000, 50000, 100000, 200000])); vals[k] = v
            c.command(b"set %s %d 0 %d\r\n%s\r\n" % (k, i, len(v), v), Lit(b"STORED\r\n"))
        base = sv.rss_kb(); slow = []
        want_total = a.batches * (1 << 20)
        for j in range(rng.randrange(1, 4)):
            s = sv.any_client(rng); s.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 14)
            reqs, toks, total = [], [], 0
            while total < want_total:
                k = rng.choice(sorted(vals)); i = int(k[3:])
                if rng.random() < 0.1: reqs.append(b"incr nokey 1\r\n"); toks.append(Lit(b"NOT_FOUND\r\n"))
                elif rng.random() < (0.5 if not reqs else 0.02):      # one reply of megabytes
                    ks = [rng.choice(sorted(vals)) for _ in range(rng.choice([10, 40, 100]))]
                    while sum(len(vals[x]) for x in ks) > 12 << 20: ks.pop()
                    one = b"".join(b"VALUE %s %d %d\r\n%s\r\n" % (x, int(x[3:]), len(vals[x]), vals[x]) for x in ks) + b"END\r\n"
                    reqs.append(b"get " + b" ".join(ks) + b"\r\n"); toks.append(Lit(one)); total += len(one); OUT.count("slow_big_replies"); OUT.maxi("slow_reply_kb_max", len(one) >> 10)
                else:
                    reqs.append(b"get %s\r\n" % k); toks.append(Lit(b"VALUE %s %d %d\r\n%s\r\nEND\r\n" % (k, i, len(vals[k]), vals[k]))); total += len(vals[k])
            data = b"".join(reqs); s.sock.setblocking(False); sent = 0
            t = time.time() + 3
            while sent < len(data) and time.time() < t:
                try: sent += s.sock.send(data[sent:])
                except BlockingIOError: time.sleep(0.05)
            OUT.check(sent > 0, "nothing sent")
            slow.append((s, data[sent:], toks, total))
        # the others are served while the slow ones are stuck
        peak = base
        o = [sv.any_client(rng), c]
        for i in range(150):
            k = b"other%d" % rng.randrange(20); v = b"v%d" % i
            t = time.time()
            o[i % 2].command(b"set %s 0 0 %d\r\n%s\r\nget %s\r\n" % (k, len(v), v, k), Lit(b"STORED\r\nVALUE %s 0 %d\r\n%s\r\nEND\r\n" % (k, len(v), v)))
            OUT.count("served_during_stall"); OUT.maxi("reply_ms_max", int(1000 * (time.time() - t)))
            if i % 10 == 0: peak = max(peak, sv.rss_kb())
        peak = max(peak, sv.rss_kb())
        grown = (peak - base) // 1024
        OUT.maxi("rss_growth_mb_max", grown)
        OUT.check(grown < 48 + 40 * len(slow), "memory of the server grew by %d MB while %d clients with %d MB of outstanding replies did not read", grown, len(slow), sum(x[3] for x in slow) >> 20)
        # now they read: every reply, in order, whole
        for s, rest, toks, total in slow:
            if rng.random() < 0.25:
                s.close(); OUT.count("slow_gone"); continue
            s.exchange([rest], toks, what="[slow reader resumes]"); s.expect_silence(0.02); s.close(); OUT.count("slow_bytes_mb", total >> 20)
        o[0].command(b"version\r\n", Line(b"VERSION "))
        OUT.sig("slow", len(slow), len(vals)); OUT.sample("%d slow readers, %d MB each, rss +%d MB" % (len(slow), want_total >> 20, grown))
        for x in o: x.close()
        sv.stop()
    finally:
        sv.stop(check=False)


# ---------------------------------------------------------------- concurrent clients
class Op(object):
    __slots__ = ("t0", "t1", "kind", "arg", "res", "who")
    def __init__(self, who, kind, arg): self.who, self.kind, self.arg, self.t0, self.t1, self.res = who, kind, arg, 0.0, float("inf"), None


def lin_step(state, op):
    """state: value bytes or None. -> list of (new state) for which the observed result is legal; res None = unknown outcome"""
    k, a, r = op.kind, op.arg, op.res
    def ok(expected, new): return [new] if r is None or r == expected else []
    if k == "get": return ok(state, state)
    if k == "set": return ok(b"STORED", a)
    if k == "add": return ok(b"STORED", a) if state is None else ok(b"NOT_STORED", state)
    if k == "replace": return ok(b"NOT_STORED", state) if state is None else ok(b"STORED", a)
    if k == "append": return ok(b"NOT_STORED", state) if state is None else ok(b"STORED", state + a)
    if k == "prepend": return ok(b"NOT_STORED", state) if state is None else ok(b"STORED", a + state)
    if k == "delete": return ok(b"NOT_FOUND", None) if state is None else ok(b"DELETED", None)
    if k == "touch": return ok(b"NOT_FOUND", None) if state is None else ok(b"TOUCHED", state)
    if k == "cas":
        base, new = a
        if state is None: return ok(b"NOT_FOUND", None)
        return ok(b"STORED", new) if state == base else ok(b"EXISTS", state)
    raise HarnessError(k)


def linearizable(ops, init=None, limit=400000):
    """Wing & Gong search with memoisation; None = gave up"""
    ops = sorted(ops, key=lambda o: o.t0); n = len(ops)
    must = 0
    for i, o in enumerate(ops):
        if o.t1 != float("inf"): must |= 1 << i
    seen = set(); stack = [(0, init)]; steps = 0
    while stack:
        done, st = stack.pop()
        if done & must == must: return True
        if (done, st) in seen: continue
        seen.add((done, st)); steps += 1
        if steps > limit: return None
        # candidates: pending ops which were invoked before every other pending op returned
        first_ret = float("inf"); cand = []
        i = 0
        low = (~done & (done + 1)).bit_length() - 1
        for i in range(low, n):
            if done >> i & 1: continue
            o = ops[i]
            if o.t0 > first_ret: break
            cand.append(i); first_ret = min(first_ret, o.t1)
        for i in cand:
            if ops[i].t0 <= first_ret:
                for ns in lin_step(st, ops[i]): stack.append((done | 1 << i, ns))
    return False


def sc_concurrent(rng, a, n):
    sv = Server(a.binary, OUT, rng, ["-m", "256", "-H", str(1 << rng.choice([1, 4, 16]))])
    try:
        nthreads = rng.choice([4, 6, 10]); keys = [b"lin%d" % i for i in range(rng.choice([2, 4, 8]))]
        hist = {k: [] for k in keys}; fails = []; lock = threading.Lock()
        uniq_of = {k: {} for k in keys}
        c = sv.tcp(); c.command(b"set cnt 7 0 1\r\n0\r\nset log 0 0 0\r\n\r\nset casn 0 0 1\r\n0\r\nset dec 0 0 7\r\n1000000\r\n", *[Lit(b"STORED\r\n")] * 4)
        per = a.batches * 3
        added = {"incr": 0, "dec": 0, "cas": 0}; adds = {}; logs = []; got_counts = []; dels = []
        start = threading.Barrier(nthreads + 1)

        def worker(w, wseed):
            r = random.Random(wseed)
            try:
                start.wait()
                kind = "udp" if w % 4 == 3 else ("unix" if w % 4 == 1 else "tcp")
                cl = Udp(sv) if kind == "udp" else (sv.tcp() if kind == "tcp" else sv.unix())
                seenval = {}; last = 0; key = None; unconfirmed = []; twokeys = False

                def confirm():      # a reply shows that what was sent before on this connection has been done
                    now = time.monotonic()
                    for x in unconfirmed: x.t1 = now
                    del unconfirmed[:]

                def ask(q):
                    """-> reply line / None when the outcome is unknown (a lost datagram)"""
                    if kind == "udp":
                        d = cl.ask(q, retries=1, idempotent=False)
                        if d is None: OUT.count("udp_lost"); return None
                        return d[8:]
                    if r.random() < 0.3 and len(q) > 2:       # let others in between the halves of the request
                        x = r.randrange(1, len(q)); cl.sock.sendall(q[:x]); time.sleep(r.random() * 0.001); q = q[x:]
                    cl.sock.sendall(q); return None

                for i in range(per):
                    t = r.random(); polled = key is not None and r.random() < 0.25; key = key if polled else r.choice(keys)
                    if t < 0.7:
                        op_kind = "get" if polled and r.random() < 0.7 else r.choices(["get", "set", "add", "replace", "append", "prepend", "delete", "cas", "touch"], [30, 18, 10, 8, 5, 5, 12, 12, 3])[0]
                        val = b"<%d.%d>" % (w, i) + b"." * r.choice([0, 0, 5, 200, 3000] if op_kind in ("append", "prepend") else [0, 0, 5, 200, 3000, 20000])
                        u = 0; base = None
                        if op_kind == "cas":
                            if key not in seenval: op_kind = "get"
                            else: base, u = seenval[key]
                        op = Op(w, op_kind, (base, val) if op_kind == "cas" else val)
                        gets = r.random() < 0.6
                        if op_kind == "set" and kind != "udp" and r.random() < 0.2:
                            op.t0 = time.monotonic(); op.res = b"STORED"
                            with lock: hist[key].append(op)
                            ask(b"set %s 0 0 %d noreply\r\n%s\r\n" % (key, len(val), val)); unconfirmed.append(op); OUT.count("noreply_sets"); continue
                        if op_kind == "get" and kind != "udp" and (twokeys := polled and twokeys or r.random() < 0.2):
                            other = keys[(keys.index(key) + 1) % len(keys)]; op2 = Op(w, "get", b"")
                            op.t0 = op2.t0 = time.monotonic(); ask(b"%s %s %s\r\n" % (b"gets" if gets else b"get", key, other))
                            got = read_gets(cl); op.t1 = op2.t1 = time.monotonic(); confirm(); OUT.count("gets_of_two_keys")
                            OUT.check(set(got) <= {key, other}, "reply to get %s %s has %s", show(key), show(other), show(b" ".join(got)))
                            for k, o in ((key, op), (other, op2)):
                                if k in got: o.res = got[k][0]
                                else: o.res = None; o.kind = "miss"
                                with lock: hist[k].append(o)
                            continue
                        if op_kind == "get": q = b"%s %s\r\n" % (b"gets" if gets else b"get", key)
                        elif op_kind == "delete": q = b"delete %s\r\n" % key
                        elif op_kind == "touch": q = b"touch %s 0\r\n" % key
                        elif op_kind == "cas": q = b"cas %s 0 0 %d %d\r\n%s\r\n" % (key, len(val), u, val)
                        else: q = b"%s %s 0 0 %d\r\n%s\r\n" % (op_kind.encode(), key, len(val), val)
                        op.t0 = time.monotonic()
                        body = ask(q)
                        if kind != "udp":
                            if op_kind == "get": body = read_get(cl)
                            else: body = read_line(cl)
                        if body is not None:
                            op.t1 = time.monotonic(); confirm()
                            if op_kind == "get":
                                val_u = parse_get(body, key)
                                op.res = None if val_u is None else val_u[0]
                                if val_u is None: op.kind = "miss"
                                else:
                                    OUT.check((val_u[1] is not None) == gets, "reply to %s has a wrong number of fields", show(q))
                                    if gets: seenval[key] = val_u
                                    if gets: OUT.count("gets_seen")
                                    else: OUT.count("get_seen")
                                    if polled: OUT.count("polled")
                                    if gets:
                                      with lock:
                                        prev = uniq_of[key].setdefault(val_u[1], val_u[0])
                                        OUT.check(prev == val_u[0], "unique %d of %s identifies two different values %s and %s", val_u[1], show(key), show(prev), show(val_u[0]))
                            else: op.res = body[:-2]
                        with lock: hist[key].append(op)
                    elif t < 0.8:
                        q = b"incr cnt 3\r\n"; body = ask(q)
                        if kind != "udp": body = read_line(cl); confirm()
                        with lock:
                            if body is None: added["lost"] = 1
                            else: added["incr"] += 3; got_counts.append((w, i, int(body)))
                        if body is not None:
                            OUT.check(int(body) > last, "counter went from %d to %d", last, int(body)); last = int(body)
                    elif t < 0.85:
                        body = ask(b"decr dec 1\r\n")
                        if kind != "udp": body = read_line(cl)
                        with lock:
                            if body is None: added["lost"] = 1
                            else: added["dec"] += 1
                    elif t < 0.92:
                        tag = b"[%d.%d]" % (w, i); body = ask(b"append log 0 0 %d\r\n%s\r\n" % (len(tag), tag))
                        if kind != "udp": body = read_line(cl)
                        with lock:
                            if body is None: added["lost"] = 1
                            else: logs.append((w, i, tag)); OUT.check(body == b"STORED\r\n", "append replied %s", show(body))
                    elif t < 0.96:
                        k = b"once%d" % (i // 8); tag = b"%d.%d" % (w, i); body = ask(b"add %s 0 0 %d\r\n%s\r\n" % (k, len(tag), tag))
                        if kind != "udp": body = read_line(cl)
                        with lock:
                            if body is None: added["lost"] = 1
                            elif body == b"STORED\r\n":
                                OUT.check(k not in adds, "two adds of %s succeeded", show(k)); adds[k] = tag
                    elif kind != "udp":      # read-modify-write through cas
                        for _ in range(50):
                            cl.sock.sendall(b"gets casn\r\n"); v, u = parse_get(read_get(cl), b"casn")
                            nv = b"%d" % (int(v) + 1)
                            cl.sock.sendall(b"cas casn 0 0 %d %d\r\n%s\r\n" % (len(nv), u, nv)); x = read_line(cl)
                            if x == b"STORED\r\n":
                                with lock: added["cas"] += 1
                                break
                            OUT.check(x == b"EXISTS\r\n", "cas replied %s", show(x)); OUT.count("cas_conflicts")
                if unconfirmed: cl.sock.sendall(b"touch none 0\r\n"); read_line(cl); confirm()
                cl.close()
            except BaseException as e:
                with lock: fails.append(e if isinstance(e, (Violation, HarnessError)) else HarnessError("client thread: %s" % traceback.format_exc()))

        ths = [threading.Thread(target=worker, args=(w, rng.randrange(1 << 60)), daemon=True) for w in range(nthreads)]
        for t in ths: t.start()
        start.wait()
        for t in ths: t.join(200)
        if any(t.is_alive() for t in ths):
            sv.assert_alive("concurrent clients"); raise Violation("clients of the server are stuck")
        sv.assert_alive("concurrent clients")
        for e in fails: raise e
        # conservation
        lost = added.get("lost")
        v = {k: c.get(k)[0] for k in (b"cnt", b"log", b"casn", b"dec")}
        if not lost:
            OUT.check(int(v[b"cnt"]) == added["incr"], "counter is %s, increments acknowledged sum to %d", show(v[b"cnt"]), added["incr"])
            OUT.check(int(v[b"dec"]) == 1000000 - added["dec"], "countdown is %s after %d decrements", show(v[b"dec"]), added["dec"])
            OUT.check(len({x for _, _, x in got_counts}) == len(got_counts), "two increments returned the same number")
        OUT.check(int(v[b"casn"]) == added["cas"], "cas counter is %s, %d cas succeeded", show(v[b"casn"]), added["cas"])
        pieces = re.findall(rb"\[\d+\.\d+\]", v[b"log"])
        OUT.check(b"".join(pieces) == v[b"log"], "appended log is torn: %s", show(v[b"log"], 200))
        cnt = collections.Counter(pieces)
        for w, i, tag in logs: OUT.check(cnt[tag] == 1, "acknowledged append %s is %d times in the log", show(tag), cnt[tag])
        pos = {p: i for i, p in enumerate(pieces)}; lastpos = {}
        for w, i, tag in logs:
            OUT.check(lastpos.get(w, -1) < pos[tag], "appends of client %d are out of order", w); lastpos[w] = pos[tag]
        for k, tag in adds.items():
            x = c.get(k); OUT.check(x is not None and x[0] == tag, "add of %s by %s succeeded but the value is %s", show(k), show(tag), x)
        # per-key linearizability
        for k, ops in hist.items():
            fin = Op(-1, "get", None); fin.t0 = time.monotonic(); x = c.get(k); fin.t1 = time.monotonic()
            if x is None: fin.kind = "miss"
            else: fin.res = x[0]
            ops.append(fin)
            r = linearizable(ops)
            OUT.evaluations += len(ops); OUT.count("lin_ops", len(ops))
            overlap = sum(1 for p, q in zip(sorted(ops, key=lambda o: o.t0), sorted(ops, key=lambda o: o.t0)[1:]) if q.t0 < p.t1)
            OUT.count("lin_overlaps", overlap)
            if r is None: OUT.count("lin_undecided")
            elif r is False:
                raise Violation("history of %s is not linearizable: %s" % (show(k), "; ".join("%d:%s(%s)->%s@%.6f-%.6f" % (o.who, o.kind, show(o.arg, 24) if isinstance(o.arg, bytes) else "", show(o.res, 24) if o.res is not None else None, o.t0, o.t1) for o in sorted(ops, key=lambda o: o.t0)[-60:])))
            else: OUT.count("lin_ok")
            for p, q in zip(ops, ops[1:]): OUT.sig(p.kind, q.kind, p.who != q.who, q.t0 < p.t1, p.res in (b"STORED", b"DELETED"))
        OUT.sample("%d clients, %d keys, %d ops, counter %s, log of %d appends" % (nthreads, len(keys), sum(map(len, hist.values())), v[b"cnt"].decode(), len(pieces)))
        c.close(); sv.stop()
    finally:
        sv.stop(check=False)


_lin_step0 = lin_step


def lin_step(state, op):
    if op.kind == "miss": return [None] if state is None else []
    if op.kind == "get" and op.res is None: return [state]
    return _lin_step0(state, op)


def read_line(cl):
    b = cl.buf
    while b"\r\n" not in b:
        if not cl._recv(REPLY_TIMEOUT): raise Violation("no reply within %.0f s" % REPLY_TIMEOUT)
        if cl.eof: raise Violation("connection closed instead of a reply")
    e = b.find(b"\r\n") + 2; r = bytes(b[:e]); del b[:e]; return r


def read_get(cl):
    b = cl.buf
    while True:
        if b.startswith(b"END\r\n"): r = bytes(b[:5]); del b[:5]; return r
        e = b.find(b"\r\n")
        if e >= 0:
            m = re.match(rb"^VALUE \S+ \d+ (\d+)( \d+)?$", bytes(b[:e]))
            if not m: raise Violation("malformed reply to gets: %s" % show(b, 200))
            tot = e + 2 + int(m.group(1)) + 7
            if len(b) >= tot: r = bytes(b[:tot]); del b[:tot]; return r
        if not cl._recv(REPLY_TIMEOUT): raise Violation("no reply within %.0f s" % REPLY_TIMEOUT)
        if cl.eof: raise Violation("connection closed instead of a reply")


def read_gets(cl):
    got = {}
    while True:
        b = cl.buf
        while b"\r\n" not in b:
            if not cl._recv(REPLY_TIMEOUT): raise Violation("no reply within %.0f s" % REPLY_TIMEOUT)
            if cl.eof: raise Violation("connection closed instead of a reply")
        e = b.find(b"\r\n"); head = bytes(b[:e])
        if head == b"END": del b[:5]; return got
        m = re.match(rb"^VALUE (\S+) \d+ (\d+)(?: (\d+))?$", head)
        if not m or m.group(1) in got: raise Violation("malformed reply to get: %s" % show(b, 200))
        n = int(m.group(2))
        while len(b) < e + 4 + n:
            if not cl._recv(REPLY_TIMEOUT): raise Violation("no reply within %.0f s" % REPLY_TIMEOUT)
            if cl.eof: raise Violation("connection closed in the middle of a reply")
        if b[e + 2 + n:e + 4 + n] != b"\r\n": raise Violation("malformed end of a value: %s" % show(b[e + 2 + n:], 100))
        got[m.group(1)] = (bytes(b[e + 2:e + 2 + n]), m.group(3)); del b[:e + 4 + n]


def parse_get(body, key):
    if body == b"END\r\n": return None
    e = body.find(b"\r\n"); m = re.match(rb"^VALUE (\S+) \d+ (\d+)(?: (\d+))?$", body[:e])
    if not m or m.group(1) != key: raise Violation("malformed reply to gets %s: %s" % (show(key), show(body, 200)))
    n = int(m.group(2))
    if body[e + 2 + n:] != b"\r\nEND\r\n": raise Violation("malformed end of the reply to gets: %s" % show(body[e + 2 + n:], 100))
    return body[e + 2:e + 2 + n], int(m.group(3)) if m.group(3) else None


# ---------------------------------------------------------------- UDP
def sc_udp(rng, a, n):
    sv = Server(a.binary, OUT, rng, ["-m", "256"])
    try:
        g = Gen(rng, Model(), keys=rng.choice([3, 20]), big=False, errors=True, weights={"err": 4}, maxval=1200)
        us = [Udp(sv) for _ in range(3)]; c = sv.tcp()

        class Buf(object): pass

        def exchange(u, q, toks, what):
            """one datagram, one reply datagram with the same header"""
            for attempt in range(2):
                rid = u.send(q, total=rng.choice([0, 1]))
                hdr = u.last
                d = u.recv(20 if attempt == 0 else 5)
                if d is not None: break
                sv.assert_alive(what)
                # lost or unanswered? a datagram can be dropped by the kernel only under pressure; ask again something harmless
                if u.ask(b"version\r\n") is None: udp_dead(sv)
                raise Violation("no reply to the datagram %s %s" % (show(q, 100), what))
            judge(d, hdr, toks, what)

        def judge(d, hdr, toks, what):
            OUT.check(d[:8] == hdr, "reply has the header %s, request had %s %s", show(d[:8]), show(hdr), what)
            pos = 0; body = bytearray(d[8:])
            for t in toks:
                try: np = t.match(body, pos)
                except Mismatch as m: raise Violation("UDP reply is %s, expected %s %s" % (show(m.got, 200), show(m.want, 200), what))
                if np is None: raise Violation("UDP reply is cut: %s (expected %s) %s" % (show(body[pos:], 200), show(getattr(t, "b", b"?"), 200), what))
                pos = np; OUT.evaluations += 1
            OUT.check(pos == len(body), "UDP reply has extra bytes %s %s", show(body[pos:], 200), what)

        def burst(count):
            """several datagrams on their way at once: each has a reply of its own, to its own sender"""
            want = {}; size = 0
            for _ in range(count):
                q, toks, kind = g.request()
                while len(q) > 20000: q, toks, kind = g.request()
                u = rng.choice(us); u.send(q, total=rng.choice([0, 1])); size += len(q)
                if toks: want[(u, u.last[:2])] = (q, toks, u.last)
                OUT.sig("burst", kind)
                if size > 40000: break
            u = rng.choice(us); u.send(b"version\r\n"); want[(u, u.last[:2])] = (b"version\r\n", [Line(b"VERSION ")], u.last)
            n = len(want)
            while want:
                u = next(iter(want))[0]; d = u.recv(20)
                if d is None:
                    sv.assert_alive("[burst]")
                    if u.ask(b"version\r\n") is None: udp_dead(sv)
                    raise Violation("%d of %d datagrams sent at once have no reply, e.g. %s" % (len(want), n, show(next(iter(want.values()))[0], 100)))
                e = want.pop((u, d[:2]), None)
                OUT.check(e is not None, "a datagram with the request id %s answers nothing its receiver asked [burst of %d]: %s", show(d[:2]), n, show(d, 100))
                judge(d, e[2], e[1], "[one of %d datagrams sent at once: %s]" % (n, show(e[0], 120)))
            for u in us:
                d = u.recv(0.001)
                OUT.check(d is None, "one more datagram after every request was answered [burst of %d]: %s", n, show(d or b"", 100))
            OUT.count("udp_bursts"); OUT.count("udp_requests", n); OUT.maxi("udp_burst_max", n)

        for b in range(a.batches * 5):
            u = rng.choice(us); t = rng.random()
            if t >= 0.96: burst(rng.choice([2, 3, 5, 10, 30])); continue
            if t < 0.08:       # datagrams which are no requests: no reply, no effect, no influence on the next one
                w = rng.randrange(6); k = g.key()
                bad = b"set %s 9 0 3\r\nBAD\r\n" % k
                if w == 0: u.sock.send(struct.pack(">HHHH", 1, 0, 1, 0)[:rng.randrange(0, 8)])
                elif w == 1: u.send(bad, seq=rng.choice([1, 2, 65535]))
                elif w == 2: u.send(bad, total=rng.choice([2, 3, 65535]))
                elif w == 3: u.send(bad, res=rng.choice([1, 256, 65535]))
                elif w == 4: u.send(b"set %s 9 0 30\r\nBAD\r\n" % k)       # incomplete value
                else: u.send(b"get %s" % k)                                 # incomplete line
                rid = u.send(b"version\r\n"); d = u.recv(20)
                if d is None: sv.assert_alive(); raise Violation("no reply to version after a malformed datagram")
                OUT.check(struct.unpack(">H", d[:2])[0] == rid and d[8:].startswith(b"VERSION "), "malformed datagram (kind %d) was answered or disturbed the next one: %s", w, show(d, 100))
                OUT.count("udp_malformed"); OUT.sig("malformed", w); continue
            q, toks, kind = g.request()
            if len(q) > 60000: continue
            if t < 0.2:        # the same history continues over TCP
                c.exchange([q] + ([] if toks else [b"version\r\n"]), toks or [Line(b"VERSION ")], what="[tcp]"); continue
            if not toks:       # noreply: no datagram
                u.send(q); rid = u.send(b"version\r\n"); d = u.recv(20)
                if d is None: sv.assert_alive(); raise Violation("no reply to version after a noreply datagram")
                OUT.check(struct.unpack(">H", d[:2])[0] == rid and d[8:].startswith(b"VERSION "), "noreply request was answered: %s", show(d, 100))
                OUT.count("udp_noreply")
            else: exchange(u, q, toks, "[request %s]" % show(q, 120))
            OUT.count("udp_requests"); OUT.sig("udp", kind)
        for k in g.keys:
            exchange(rng.choice(us), b"gets %s\r\n" % k, g.get_toks(k, True) + [Lit(b"END\r\n")], "[final]")
        # large datagrams in both directions
        for size in (400, 499, 500, 501, 1400, 2040, 2048, 4000, 9000, 30000, 60000):
            v = rbytes(rng, size); k = b"large%d" % size
            exchange(us[0], b"set %s 3 0 %d\r\n%s\r\n" % (k, size, v), [Lit(b"STORED\r\n")], "[large request of %d]" % size)
            exchange(us[1], b"get %s\r\n" % k, [Lit(b"VALUE %s 3 %d\r\n%s\r\nEND\r\n" % (k, size, v))], "[large reply of %d]" % size); OUT.count("udp_large")
        # a reply that fits no datagram must not poison the following ones
        v = rbytes(rng, 80000); c.command(b"set toolarge 0 0 80000\r\n" + v + b"\r\n", Lit(b"STORED\r\n"))
        us[2].send(b"get toolarge\r\n"); d = us[2].recv(0.3)
        exchange(us[1], b"get large400\r\n", [Lit(b"VALUE large400 3 400\r\n")] + [Lit(c.get(b"large400")[0] + b"\r\nEND\r\n")], "[after a too large reply]")
        for u in us: u.close()
        c.close(); OUT.sample("%d keys over 3 UDP sockets and TCP" % len(g.keys))
        sv.stop()
    finally:
        sv.stop(check=False)


# ---------------------------------------------------------------- options
def sc_config(rng, a, n):
    def runfail(args, why):
        d = tempfile.mkdtemp(prefix="s-")
        try:
            port = free_port(rng); full = [a.binary] + args
            if not any(x.startswith("-p") or x.startswith("--tcp") for x in args): full += ["-p", str(port)]
            if not any(x.startswith("-U") or x.startswith("--udp") for x in args): full += ["-U", "0"]
            p = subprocess.Popen(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
            try: o, e = p.communicate(timeout=25)
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate(); raise Violation("server started with the invalid options %s (%s)" % (" ".join(args), why))
            OUT.check(p.returncode == 1, "server with options %s (%s) exited with %s: %s", " ".join(args), why, p.returncode, report(e.decode("utf-8", "replace")))
            OUT.check(len(e) > 0, "server rejected %s without a message", " ".join(args)); OUT.count("rejected"); OUT.sig("rejected", " ".join(args))
        finally: shutil.rmtree(d, ignore_errors=True)

    bad = [(["-m", "0"], "zero memory"), (["-m", "3"], "not a power of 2"), (["-m", "100M"], "not a power of 2"), (["-m", "2"], "2 pages of 1M"), (["-m", "2M"], "less than 4 pages"), (["-P", "0"], "zero page"), (["-P", "3K"], "page not a power of 2"),
           (["-P", "64M"], "one page"), (["-P", "32"], "two pages"), (["-m", "8G", "-P", "4G"], "page above 2G"), (["-m", "16G", "-P", "4G"], "page above 2G"), (["-m", "64X"], "unknown unit"), (["-m", "abc"], "no number"), (["-m", "K"], "no number"), (["-m", ""], "empty"),
           (["-m", "-64"], "negative"), (["-m", "17179869184G"], "overflow"), (["-m", "17592186044416M"], "overflow to 0"), (["-m", "18014398509481984K"], "overflow"), (["-H", "0"], "zero hash table"), (["-H", "3"], "not a power of 2"), (["-H", "1000"], "not a power of 2"), (["-H", "-1"], "negative"),
           (["-H", "x"], "no number"), (["-p", "65536"], "port out of range"), (["-p", "x"], "no port"), (["--bogus"], "unknown option"), (["-m", "64", "-m", "128"], "twice"), (["-U", "70000"], "port out of range"), (["-h"], "help"), (["-V"], "version"), (["-m", "1.5G"], "fraction"), (["-m", "0x40"], "hex")]
    np2 = lambda hi: next(x for x in iter(lambda: 1 + logint(rng, hi), None) if x & (x - 1))
    for _ in range(4):
        bad += [([rng.choice(["-m", "--memory"]), "%d%s" % (np2(10 ** 6), u)], "not a power of 2") for u in rng.sample(["", "K", "M"], 2)]
        bad += [([rng.choice(["-P", "--page"]), "%dK" % np2(16383)], "not a power of 2"), ([rng.choice(["-H", "--hashtable"]), str(np2(1 << rng.choice([8, 16, 24, 40, 63])))], "not a power of 2")]
        pg = rng.randrange(2, 21); bad.append((["-m", "%dK" % (1 << pg + rng.randrange(-2, 2)), "-P", "%dK" % (1 << pg)], "less than 4 pages"))
    bad = [(x, why) for x, why in bad if x[1:2] != ["0K"]]
    for args, why in bad: runfail(args, why)
    # a busy port is an error, not a silent half-started server
    s = socket.socket(); s.bind(("0.0.0.0", 0)); s.listen(1); runfail(["-p", str(s.getsockname()[1])], "port in use"); s.close()
    runfail(["-s", "/nonexistent-dir-%d/x.sock" % rng.randrange(10 ** 9)], "no such folder")
    good = []
    for _ in range(a.batches):
        pg = rng.choice([12, 13, 14, 16, 18, 20, 22]); mem = rng.randrange(pg + 2, 28)
        fmt = lambda b: rng.choice(([str(1 << (b - 20)), "%dM" % (1 << (b - 20))] if b >= 20 else []) + ["%dK" % (1 << (b - 10))])
        good.append((fmt(mem), fmt(pg), 1 << mem, 1 << pg, 1 << rng.randrange(0, 20), rng.random() < 0.5, rng.random() < 0.3))
    for m, p, mem, page, hs, noev, nocas in good:
        lo = rng.random() < 0.5
        args = (["--memory", m, "--page", p, "--hashtable", str(hs)] if lo else ["-m", m, "-P", p, "-H", str(hs)]) + (["-M"] if noev else []) + (["-C"] if nocas else [])
        use = rng.choice([(True, True, True), (True, False, False), (False, False, True), (True, False, True), (True, True, False)])
        sv = Server(a.binary, OUT, rng, args, *use)
        try:
            cl = []
            if use[0]: cl.append(sv.tcp())
            if use[2]: cl.append(sv.unix())
            st = {}; cl[0].exchange([b"stats\r\n"], [Stats(st.update)])
            OUT.check(st["limit_maxbytes"] == mem and st["page_size"] == page and st["hash_capacity"] == hs, "options %s give limit_maxbytes %d, page_size %d, hash_capacity %d", " ".join(args), st["limit_maxbytes"], st["page_size"], st["hash_capacity"])
            for i, c in enumerate(cl):
                v = rbytes(rng, 300); c.command(b"set opt%d 5 0 300\r\n%s\r\nget opt%d\r\n" % (i, v, i), Lit(b"STORED\r\nVALUE opt%d 5 300\r\n%s\r\nEND\r\n" % (i, v)))
            if use[1]:
                u = Udp(sv); d = u.ask(b"get opt0\r\n"); OUT.check(d is not None and d[8:].startswith(b"VALUE opt0 5 300\r\n"), "enabled UDP does not answer"); u.close()
            # disabled listeners are not there
            ino = set()
            for fd in os.listdir("/proc/%d/fd" % sv.proc.pid):
                try: l = os.readlink("/proc/%d/fd/%s" % (sv.proc.pid, fd))
                except OSError: continue
                mm = re.match(r"socket:\[(\d+)\]", l)
                if mm: ino.add(mm.group(1))
            def socks(f, state):
                try: lines = open("/proc/net/" + f).read().splitlines()[1:]
                except OSError: return None
                return [x.split() for x in lines if x.split()[9] in ino and (state is None or x.split()[3] == state)]
            t, ud = socks("tcp", "0A"), socks("udp", None)
            if t is not None:
                OUT.check(len(t) == (1 if use[0] else 0), "server listens on %d TCP sockets with %s", len(t), " ".join(sv.cmd[1:]))
                OUT.check(len(ud) == (1 if use[1] else 0), "server has %d UDP sockets with %s", len(ud), " ".join(sv.cmd[1:]))
            # the memory limit is really available and really a limit; -M decides between eviction and error
            if sv_arena(a):
                c = cl[0]; vl = page // 4; v = b"x" * vl; stored = oom = 0; i = 0
                cap = mem // page * 4 + 8
                total = min(cap * 2, 3000) if page >= 1 << 14 else 0
                if total and cap * 2 <= total:
                    for i in range(total):
                        rline = c.line(b"set fill%d 0 0 %d\r\n%s\r\n" % (i, vl, v))
                        if rline == b"STORED": stored += 1
                        elif rline.startswith(b"SERVER_ERROR"): oom += 1
                        else: raise Violation("set replied %s" % show(rline))
                    c.exchange([b"stats\r\n"], [Stats(st.update)])
                    if noev:
                        OUT.check(oom > 0, "%d items of %d bytes were stored in %d of memory with evictions disabled", stored, vl, mem)
                        OUT.check(st["evictions"] == 0, "%d evictions with evictions disabled", st["evictions"])
                        OUT.check(stored * vl >= mem // 4, "out of memory with only %d of %d bytes stored", stored * vl, mem)
                        for j in range(0, stored, max(1, stored // 20)): OUT.check(c.get(b"fill%d" % j) == (v, 0), "item stored before out of memory is lost with evictions disabled")
                    else:
                        OUT.check(oom == 0, "set failed with evictions enabled")
                        OUT.check(st["evictions"] > 0, "%d items of %d bytes were stored in %d of memory without an eviction", stored, vl, mem)
                        OUT.check(st["curr_items"] * vl <= mem, "%d items of %d bytes are kept in %d of memory", st["curr_items"], vl, mem)
                        OUT.check(c.get(b"fill%d" % (total - 1)) == (v, 0), "the item stored last is not there")
                    OUT.count("filled")
            for c in cl: c.close()
            OUT.count("accepted"); OUT.sig(mem, page, hs, noev, nocas, use)
            OUT.sample(" ".join(args))
            sv.stop()
        finally:
            sv.stop(check=False)


def sv_arena(a): return "mal" not in os.path.basename(a.binary)


# ---------------------------------------------------------------- signals and lifecycle
def sc_signals(rng, a, n):
    for sig in [signal.SIGTERM, signal.SIGINT, signal.SIGQUIT]:
        sv = Server(a.binary, OUT, rng, ["-m", "64"])
        try:
            c = sv.tcp(); k = b"sig"; v = rbytes(rng, 5000)
            c.command(b"set sig 1 0 5000\r\n%s\r\n" % v, Lit(b"STORED\r\n"))
            nusr = rng.choice([1, 2, 3, 6, 9]); gets = 0
            for i in range(nusr):
                have = len(sv.stdout() + sv.stderr())
                sv.proc.send_signal(signal.SIGUSR1)
                t = time.time()
                printed = lambda: dict(re.findall(r"\b(\w+?)\.* +(\d+) ", (sv.stdout() + sv.stderr())[have:]))
                while time.time() - t < 20 and not ("get_hits" in printed() and "cmd_set" in printed()): time.sleep(0.02)
                time.sleep(0.02); pr = printed()
                OUT.check("cmd_get" in pr and "get_hits" in pr, "SIGUSR1 number %d printed no statistics: %s", i + 1, show((sv.stdout() + sv.stderr())[have:], 200))
                for name, want in (("cmd_get", gets), ("get_hits", gets), ("cmd_set", 1)):
                    OUT.check(int(pr.get(name, -1)) == want, "SIGUSR1 number %d printed %s for %s, expected %d", i + 1, pr.get(name), name, want)
                for _ in range(rng.randrange(1, 5)): c.command(b"get sig\r\n", Lit(b"VALUE sig 1 5000\r\n" + v + b"\r\nEND\r\n")); gets += 1
                OUT.count("usr1")
            # a storm of them while requests come in pieces and replies are long
            stop = threading.Event()
            def storm():
                while not stop.is_set():
                    try: sv.proc.send_signal(signal.SIGUSR1)
                    except OSError: return
                    OUT.count("usr1_storm"); time.sleep(0.0005 * (1 + len(idle0)))
            idle0 = []; th = threading.Thread(target=storm); th.start()
            try:
                for j in range(30):
                    x = c if j % 3 else sv.any_client(rng); w = rbytes(rng, rng.choice([10, 5000, 200000])); q = b"set storm 2 0 %d\r\n%s\r\nget storm sig\r\n" % (len(w), w)
                    cut = sorted(rng.randrange(len(q)) for _ in range(4)); fr = [q[i:k] for i, k in zip([0] + cut, cut + [len(q)])]
                    x.exchange(fr, [Lit(b"STORED\r\nVALUE storm 2 %d\r\n" % len(w) + w + b"\r\nVALUE sig 1 5000\r\n" + v + b"\r\nEND\r\n")], 0.0005, "[during SIGUSR1s]")
                    if x is not c: x.close()
            finally: stop.set(); th.join()
            # connections in every state at the moment of the signal
            idle = [sv.any_client(rng) for _ in range(rng.randrange(0, 20))]
            half = sv.tcp(); half.sock.sendall(b"set half 0 0 100\r\nabc")
            stuck = sv.tcp(); stuck.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096); stuck.sock.setblocking(False)
            try: stuck.sock.send(b"get sig\r\n" * 4000)
            except OSError: pass
            u = Udp(sv); u.send(b"get sig\r\n")
            if rng.random() < 0.5: time.sleep(rng.random() * 0.1)
            port, upath = sv.port, sv.upath
            sv.proc.send_signal(sig); t = time.time()
            try: sv.proc.wait(20)
            except subprocess.TimeoutExpired: raise Violation("server did not exit within 20 s of signal %d" % sig)
            OUT.check(sv.proc.returncode == 0, "server exited with status %s after signal %d: %s", sv.proc.returncode, sig, report(sv.stderr()))
            OUT.count("shutdowns"); OUT.sig(sig, nusr, len(idle) > 0); OUT.maxi("exit_ms_max", int(1000 * (time.time() - t)))
            for x in idle + [half, stuck, c]: x.close()
            u.close()
            # the address is free at once for the next server, which starts empty
            p = subprocess.Popen([a.binary, "-p", str(port), "-U", "0"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            try:
                ok = False; t = time.time()
                while time.time() - t < 20 and p.poll() is None:
                    try: s = socket.create_connection(("127.0.0.1", port), timeout=5); ok = True; break
                    except OSError: time.sleep(0.03)
                OUT.check(ok, "a new server cannot take over the port right after the exit: %s", p.stderr.read().decode()[-300:] if p.poll() is not None else "no answer")
                s.sendall(b"get sig\r\n"); OUT.check(s.recv(100) == b"END\r\n", "a new server is not empty"); s.close()
                p.terminate(); OUT.check(p.wait(20) == 0, "restarted server exited with %s", p.returncode); OUT.count("restarts")
            finally:
                if p.poll() is None: p.kill(); p.wait()
        finally:
            if sv.alive(): sv.stop(check=False)
            else: sv.errf.close(); sv.outf.close(); shutil.rmtree(sv.dir, ignore_errors=True)
    OUT.sample("TERM, INT and QUIT with idle, half-sent and unread connections")


# ---------------------------------------------------------------- disconnects
def sc_disconnect(rng, a, n):
    sv = Server(a.binary, OUT, rng, ["-m", "64"])
    try:
        c = sv.tcp(); g = Gen(rng, Model(), keys=15, big=False, errors=False, stats=False, maxval=1500, weights={"flush": 0})
        for k in g.keys:
            v = g.value(); g.put(k, v, 1, None); g.m.st["cmd_set"] += 1; g.m.st["set_new"] += 1; c.command(b"set %s 1 0 %d\r\n%s\r\n" % (k, len(v), v), Lit(b"STORED\r\n"))
        sv.any_client(rng).close(); time.sleep(0.2); base = sv.fds(); peak = base; rss0 = None
        for b in range(a.batches * 4):
            x = sv.any_client(rng)
            # some complete requests, then a request cut at an arbitrary byte, then the connection goes away
            reqs, toks = [], []
            for _ in range(rng.choice([0, 0, 1, 3])):
                q, t, kind = g.request(replying=True); reqs.append(q); toks += t
            if reqs: x.exchange([b"".join(reqs)], toks, what="[before the cut]")
            k = g.key(); v = b"MUST-NOT-APPEAR" + rbytes(rng, rng.choice([0, 0, 10, 10, 3000, 3000, 3000, 150000, 600000]))
            w = rng.randrange(7)
            cut = {0: b"set %s 0 0 %d\r\n%s\r\n" % (k, len(v), v), 1: b"delete %s\r\n" % k, 2: b"append %s 0 0 %d\r\n%s\r\n" % (k, len(v), v), 3: b"incr %s 1\r\n" % k, 4: b"set %s 0 0 %d noreply\r\n%s\r\n" % (k, len(v), v),
                   5: b"prepend %s 0 0 %d\r\n%s\r\n" % (k, len(v), v), 6: b"replace %s 0 0 %d\r\n%s\r\n" % (k, len(v), v)}[w]
            at = rng.choice([rng.randrange(0, len(cut)), len(cut) - 1, len(cut) - 2, cut.find(b"\r\n") + 1, min(len(cut) - 1, cut.find(b"\r\n") + 2)])
            at = max(0, min(at, len(cut) - 1))
            try: x.sock.sendall(cut[:at])
            except OSError: pass
            how = rng.randrange(4)
            if how == 0: x.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif how == 1 and rng.random() < 0.5: time.sleep(0.003)
            elif how == 2:
                try: x.sock.shutdown(socket.SHUT_WR); x.expect_eof("[after a cut request]")
                except OSError: pass
            elif how == 3:    # leave with replies unread
                try: x.sock.setblocking(False); x.sock.send(b"" if at else b"version\r\n" * 200)
                except OSError: pass
            x.close(); OUT.count("disconnects"); OUT.sig(w, how, at == len(cut) - 1, at == 0)
            if b % 5 == 0:
                k2 = rng.choice([k, g.key()])
                c.exchange([b"get %s\r\n" % k2], g.get_toks(k2, False) + [Lit(b"END\r\n")], what="[after %s was cut at byte %d]" % (show(cut, 60), at))
            peak = max(peak, sv.fds())
        for k in g.keys: c.exchange([b"get %s\r\n" % k], g.get_toks(k, False) + [Lit(b"END\r\n")], what="[after all the disconnects]")
        check_stats(c, g)
        # many connections at once, then gone: descriptors come back
        many = [sv.any_client(rng) for _ in range(150)]
        for m in rng.sample(many, 60): m.command(b"version\r\n", Line(b"VERSION "))
        for m in many:
            if rng.random() < 0.3:
                try: m.sock.sendall(b"set zz 0 0 500\r\nabc")
                except OSError: pass
            m.close()
        t = time.time()
        while time.time() - t < 20 and sv.fds() > base: time.sleep(0.05)
        OUT.check(sv.fds() <= base, "server keeps %d descriptors open after all the clients left (%d before)", sv.fds(), base)
        check_stats(c, g); OUT.check(c.get(b"zz") is None, "an incomplete set had an effect")
        OUT.maxi("fds_max", max(peak, base + 150)); OUT.sample("fds %d -> peak %d -> %d" % (base, peak, sv.fds()))
        c.close(); sv.stop()
    finally:
        sv.stop(check=False)


# ---------------------------------------------------------------- replies around the limit of the send buffer
def sc_giant(rng, a, n):
    """one request whose reply is larger than anything: complete and exact, or one error; never a part of it"""
    LIMIT = 30 << 20
    sv = Server(a.binary, OUT, rng, ["-m", "64"])
    try:
        c, o = sv.any_client(rng), sv.tcp(); vals = []
        for i in range(6):
            v = rbytes(rng, rng.choice([1000, 100000, 300000, 700000, 1000000]) + rng.randrange(500)); k = b"g%d" % i; vals.append((k, v))
            c.command(b"set %s %d 0 %d\r\n%s\r\n" % (k, i, len(v), v), Lit(b"STORED\r\n"))
        one = {k: b"VALUE %s %d %d\r\n%s\r\n" % (k, i, len(v), v) for i, (k, v) in enumerate(vals)}
        big = sorted(one, key=lambda k: -len(one[k]))
        for b in range(a.batches):
            target = rng.choice([rng.randrange(1 << 20, 28 << 20), LIMIT + rng.randrange(-400000, 400000), LIMIT + rng.randrange(-3000, 3000), rng.randrange(31 << 20, 60 << 20)])
            ks, total = [], 5
            while total < target:
                fit = [k for k in big if total + len(one[k]) <= target]
                k = rng.choice(fit[:3]) if fit else None
                if k is None: break
                ks.append(k); total += len(one[k])
                if len(ks) > 4000: break
            if not ks: continue
            whole = b"".join(one[k] for k in ks) + b"END\r\n"
            head = Lit(whole) if total < 28 << 20 else OneOf(whole, b"SERVER_ERROR ")
            c.exchange([b"get " + b" ".join(ks) + b"\r\nversion\r\nget g0\r\n"], [head, Line(b"VERSION "), Lit(one[b"g0"] + b"END\r\n")], what="[get of %d keys, %d bytes of reply]" % (len(ks), total))
            o.command(b"get nokey\r\n", Lit(b"END\r\n"))
            OUT.count("giant_refused" if isinstance(head, OneOf) and head.err else "giant_complete"); OUT.sig("giant", total >> 20, isinstance(head, OneOf) and head.err)
        sv.assert_alive("after giant replies"); c.close(); o.close(); sv.stop()
    finally:
        sv.stop(check=False)


class OneOf(Tok):
    """either exactly these bytes or one error line"""
    def __init__(self, b, err): self.lit, self.errp, self.err = Lit(b), err, False
    def match(self, buf, pos):
        if buf[pos:pos + 1] == self.errp[:1]: self.err = True; return Line(self.errp).match(buf, pos)
        return self.lit.match(buf, pos)


# ---------------------------------------------------------------- out of descriptors, churn
def sc_exhaust(rng, a, n):
    """more clients than descriptors: those connected go on, and when some leave others are served"""
    import resource
    sv = Server(a.binary, OUT, rng, ["-m", "64"])
    try:
        c = sv.any_client(rng); v = rbytes(rng, 500)
        c.command(b"set keep 3 0 500\r\n%s\r\n" % v, Lit(b"STORED\r\n"))
        room = rng.randrange(5, 30); base = sv.fds()
        resource.prlimit(sv.proc.pid, resource.RLIMIT_NOFILE, (base + room, base + room))
        for rnd in range(3):
            many = []
            for i in range(room + rng.randrange(1, 40)):
                try: many.append(sv.any_client(rng))
                except OSError: pass
            served = many[:room // 2]
            for m in served: m.command(b"get keep\r\n", Lit(b"VALUE keep 3 500\r\n%s\r\nEND\r\n" % v))
            for _ in range(10): c.command(b"get keep\r\n", Lit(b"VALUE keep 3 500\r\n%s\r\nEND\r\n" % v)); OUT.count("served_while_exhausted")
            OUT.maxi("fds_max", sv.fds())
            rng.shuffle(many)
            for m in many:
                if rng.random() < 0.3: m.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                m.close()
            for mk in (sv.tcp, sv.unix):      # both listeners accept again
                x = mk(); x.command(b"get keep\r\n", Lit(b"VALUE keep 3 500\r\n%s\r\nEND\r\n" % v)); x.close(); OUT.count("served_after_exhaustion")
            OUT.sig("exhaust", room, len(many))
        t = time.time()
        while time.time() - t < 20 and sv.fds() > base: time.sleep(0.05)
        OUT.check(sv.fds() <= base, "server keeps %d descriptors open after all the clients left (%d before)", sv.fds(), base)
        c.close(); sv.stop()
    finally:
        sv.stop(check=False)


def sc_churn(rng, a, n):
    """memory of the server does not grow with the number of connections that came and went"""
    sv = Server(a.binary, OUT, rng, ["-m", "64"])
    try:
        def wave(count):
            for i in range(count):
                x = sv.any_client(rng); w = rng.choice([0, 1, 2, 3, 4] * 4 + [5, 6])
                try:
                    if w == 0: x.sock.sendall(b"set z 0 0 30000\r\n" + b"y" * 20000)
                    elif w == 1: x.sock.sendall(b"get z\r\n" * 50)
                    elif w == 2: x.sock.sendall(b"A" * 20000); time.sleep(0.0005)
                    elif w == 5: x.sock.sendall(b"set z 0 0 800000\r\n" + b"y" * 500000)
                    elif w == 6: x.sock.settimeout(2); x.sock.sendall(b"set big 0 0 400000\r\n" + b"y" * 400000 + b"\r\n" + b"get big\r\n" * 4); time.sleep(0.002)
                    elif w == 3: x.command(b"version\r\n", Line(b"VERSION "))
                    else: x.sock.sendall(b"set z 0 0 20000\r\n" + b"y" * 20000 + b"\r\nget z\r\nquit\r\n"); x.sock.shutdown(socket.SHUT_WR)
                except OSError: pass
                if rng.random() < 0.3: x.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                x.close(); OUT.count("connections_churned")
        wave(600); time.sleep(0.3); r0, f0 = sv.rss_kb(), sv.fds()
        wave(a.batches * 50); time.sleep(0.3)
        t = time.time()
        while time.time() - t < 20 and sv.fds() > f0: time.sleep(0.05)
        r1 = sv.rss_kb(); OUT.maxi("rss_growth_kb_max", max(0, r1 - r0))
        OUT.check(r1 - r0 < 12 << 10, "memory of the server grew by %d kB over %d connections that are gone", r1 - r0, a.batches * 50)
        OUT.sig("churn", n); OUT.sample("%d connections, rss %d -> %d kB, fds %d -> %d" % (a.batches * 50, r0, r1, f0, sv.fds()))
        sv.stop()
    finally:
        sv.stop(check=False)


SCENARIOS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("sc_")}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--scenario"); ap.add_argument("--binary"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--cases", type=int, default=1)
    ap.add_argument("--first", type=int, default=0); ap.add_argument("--slot", type=int, default=0); ap.add_argument("--profile", default=""); ap.add_argument("--batches", type=int, default=60)
    ap.add_argument("--budget", type=float, default=1e9); ap.add_argument("--tmp", default="")
    a = ap.parse_args()
    mc.SLOT[0] = a.slot
    if a.tmp: tempfile.tempdir = a.tmp
    fn = SCENARIOS[a.scenario]; t0 = time.time()
    for n in range(a.first, a.first + a.cases):
        if time.time() - t0 > a.budget: OUT.count("cases_skipped_budget", a.first + a.cases - n); break
        rng = random.Random("%d/%s/%s/%d" % (a.seed, a.scenario, a.profile, n))
        try:
            fn(rng, a, n); OUT.count("cases")
        except Violation as e:
            sys.stderr.write("HARNESS-VIOLATION: scenario %s%s seed %d case %d: %s\n" % (a.scenario, "/" + a.profile if a.profile else "", a.seed, n, e)); sys.stderr.flush(); os._exit(77)
        except Exception as e:
            why = "" if isinstance(e, HarnessError) else "server terminated, %s" % mc.DIED[0] if mc.DIED else "connection failed: %s\n%s" % (e, traceback.format_exc()) if isinstance(e, (ConnectionError, socket.timeout)) else ""
            if why: sys.stderr.write("HARNESS-VIOLATION: scenario %s%s seed %d case %d: %s\n" % (a.scenario, "/" + a.profile if a.profile else "", a.seed, n, why)); sys.stderr.flush(); os._exit(77)
            sys.stderr.write("HARNESS-ERROR: scenario %s case %d: %s\n%s\n" % (a.scenario, n, e, traceback.format_exc())); sys.stderr.flush(); os._exit(78)
    OUT.dump(); sys.stdout.flush(); os._exit(0)


if __name__ == "__main__":
    main()
