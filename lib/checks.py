"""Which workloads decide which property. Every workload is a pure function of (seed, shard)."""
import os, sys
import mc
HERE = os.path.dirname(os.path.abspath(__file__))
SRV = os.path.join(HERE, "srv.py")

COMMON_ASSUMPTIONS = [
    "clang's AddressSanitizer and UndefinedBehaviorSanitizer report the errors they instrument",
    "the monitored binaries are compiled from /repo/src with clang, C++11, -O1; configuration headers are generated by the harness",
    "histories are sampled: seeds, shards and sizes below bound what was explored",
]


class H(object):
    """C++ harness: cases split over shards"""
    def __init__(self, target, profile="", cases=40, shards=4, mult=8, extra=()):
        self.target, self.profile, self.cases, self.shards, self.mult, self.extra = target, profile, cases, shards, mult, list(extra)

    def targets(self): return [self.target]

    def jobs(self, pid, tier, seed, bins, scratch, Job):
        cases = self.cases * (self.mult if tier == "thorough" else 1) * (2 if self.cases > 20 else 1)
        shards = self.shards if tier == "quick" else max(8, self.shards)
        per = max(1, (cases + shards - 1) // shards)
        out = []
        for s in range(shards):
            name = "%s%s-%d" % (self.target, "-" + self.profile if self.profile else "", s)
            cmd = mc.prefix(bins[self.target]) + [bins[self.target], "--property=" + pid, "--seed=%d" % seed, "--first=%d" % (s * per), "--cases=%d" % per, "--budget=%d" % (150 if tier == "quick" else 2400)]
            if self.profile: cmd += ["--profile=" + self.profile]
            out.append(Job(name, cmd + self.extra, 220 if tier == "quick" else 3600))
        return out


class S(object):
    """scenario against the real server"""
    slot = 0

    def __init__(self, scenario, target="server", profile="", cases=2, shards=2, batches=60, mult=10):
        self.scenario, self.target, self.profile, self.cases, self.shards, self.batches, self.mult = scenario, target, profile, cases, shards, batches, mult

    def targets(self): return [self.target]

    def jobs(self, pid, tier, seed, bins, scratch, Job):
        cases = self.cases * (self.mult if tier == "thorough" else 1)
        shards = self.shards if tier == "quick" else max(6, self.shards)
        per = max(1, (cases + shards - 1) // shards)
        out = []
        for s in range(shards):
            S.slot += 1
            tmp = os.path.join(scratch, "s%d" % S.slot); os.makedirs(tmp, exist_ok=True)
            out.append(Job("%s-%s%s-%d" % (self.target, self.scenario, "-" + self.profile if self.profile else "", s),
                           [sys.executable, SRV, "--scenario", self.scenario, "--binary", bins[self.target], "--seed", str(seed), "--first", str(s * per), "--cases", str(per),
                            "--slot", str(S.slot), "--batches", str(self.batches), "--tmp", tmp, "--budget", "120" if tier == "quick" else "2400"] + (["--profile", self.profile] if self.profile else []),
                           220 if tier == "quick" else 3600))
        return out


class Spec(object):
    workers = 8

    def __init__(self, parts, rule, must_observe=(), assumptions=()):
        self.parts, self.rule, self.must_observe = parts, rule, list(must_observe)
        self.assumptions = COMMON_ASSUMPTIONS + list(assumptions)

    def targets(self):
        out = []
        for p in self.parts:
            for t in p.targets():
                if t not in out: out.append(t)
        return out

    def jobs(self, *a):
        out = []
        for p in self.parts: out += p.jobs(*a)
        return out


MODEL = "after every operation the online checker compares the reply with a sequential reference model"
CHECKS = {
    "C01": Spec([H("cache", "store", 360, 4), H("cache_mal", "store", 180, 2), H("cache_dbg", "store", 180, 2), S("framing", "server", "", 8, 2, 50)],
                MODEL + "; distinct = (operation, outcome, presence, size class, geometry) signatures", ["cases"]),
    "C02": Spec([H("cache", "evict", 720, 6), H("cache_dbg", "evict", 240, 2), H("cache", "grow", 12, 3)], MODEL + "; items lost without an eviction report, reported while still there, or reported twice are violations", ["cases"]),
    "C03": Spec([H("alloc", "", 720, 4), H("alloc_dbg", "", 360, 3), H("alloc_plain", "big", 60, 1), H("cache_dbg", "evict", 120, 2)],
                "every block: inside the arena, disjoint from all live blocks, contents (pattern) unchanged until freed or reported evicted", ["cases"]),
    "C04": Spec([H("cache", "capacity", 576, 8), H("alloc", "", 240, 2), H("alloc_dbg", "", 120, 1)], "items of three sizes stored by a new cache and, after an arbitrary history and emptying, again", ["capacity_cycles"]),
    "C05": Spec([H("cache", "cas", 600, 4), H("cache_mal", "cas", 240, 2), H("cache_plain", "long", 1, 1, 4), S("framing", "server", "cas", 12, 3, 60)], MODEL + "; every unique seen is recorded per key", ["cas_stored", "cas_stale_refused", "versions_of_one_key"]),
    "C06": Spec([H("cache", "expire", 600, 4), H("cache_mal", "expire", 240, 2), S("framing", "server", "expire", 16, 4, 60)], MODEL + " under a virtual clock which also moves inside operations", ["cases", "clock_jumps"],
                ["real time passed during a server case is below 250 s; time to live in the server cases is away from the boundary by 500 s of virtual time"]),
    "C07": Spec([H("cache", "arith", 600, 4), H("cache_mal", "arith", 240, 2), S("framing", "server", "arith", 12, 3, 60)], MODEL + "; results against 128-bit arithmetic", ["cases"]),
    "C08": Spec([H("cache", "limits", 720, 5), H("cache_mal", "limits", 240, 2), S("framing", "server", "limits", 12, 3, 40)], MODEL + "; sizes concentrated around every limit", ["cases", "op_huge"]),
    "C09": Spec([H("cache", "hash", 480, 4), H("cache_mal", "hash", 120, 1), H("dict", "", 360, 4), H("dict_plain", "big", 1, 1), H("cache", "grow", 12, 3)], MODEL + "; hash functions with collisions, clusters, zero and constant", ["cases"]),
    "C10": Spec([S("framing", "server", "", 32, 4, 60), S("framing", "server_mal", "", 16, 2, 60), S("framing", "server_dbg", "", 16, 2, 60)], "each reply byte is compared with the model; distinct = (request kind, next request kind, way the stream was cut)", ["cut_bytes", "cut_crlf", "cut_edges", "closed_quit", "closed_halfclose"]),
    "C11": Spec([S("hostile", "server", "", 12, 3, 150), S("hostile", "server_mal", "", 12, 3, 150), S("hostile", "server_dbg", "", 8, 2, 150), S("giant", "server", "", 2, 1, 12), S("giant", "server_mal", "", 1, 1, 12)], "server alive and sanitizer-silent, replies well-formed, canary items exact for an unrelated client after each hostile burst", ["hostile_stream", "hostile_udp", "reply_CLIENT_ERROR"]),
    "C12": Spec([S("slow", "server_plain", "", 4, 2, 100), S("slow", "server", "", 4, 2, 20), S("slow", "server_mal", "", 2, 1, 20), S("giant", "server", "", 2, 1, 12)], "bytes of every delayed reply, latency of other clients, resident memory of the server", ["served_during_stall", "slow_bytes_mb"]),
    "C13": Spec([S("concurrent", "server", "", 72, 3, 60), S("concurrent", "server_mal", "", 32, 2, 60), S("concurrent", "server_dbg", "", 32, 2, 60)], "recorded invocation/response histories per key are checked for linearizability (Wing & Gong search); conservation of counters, appends, adds and cas", ["lin_ok", "lin_overlaps", "cas_conflicts"]),
    "C14": Spec([H("cache", "stats", 480, 5), H("cache_dbg", "stats", 180, 2), H("cache", "grow", 12, 3), H("alloc", "", 120, 1), S("stats", "server", "", 24, 3, 60)], "every counter against the operations performed", ["stats_compared"]),
    "C15": Spec([H("cache", "lru", 360, 4), H("cache", "hot", 360, 3), H("cache_dbg", "lru", 120, 1)], "identity of every evicted item against the access history", ["hot_rounds", "evictions_observed"]),
    "C16": Spec([H("capi", "", 1600, 4), H("capi_mal", "", 800, 4), H("capi_vgm", "", 16, 2)], MODEL + " through the C API", ["cases"]),
    "C17": Spec([S("udp", "server", "", 32, 4, 80), S("udp", "server_mal", "", 16, 2, 80), S("udp", "server_dbg", "", 16, 2, 80)], "every datagram received is compared with the model byte by byte", ["udp_requests", "udp_noreply", "udp_malformed", "udp_large"]),
    "C18": Spec([H("util", "conv", 192, 8)], "round trips and rejection against 128-bit reference arithmetic", ["cases"]),
    "C19": Spec([H("util", "iobuf", 6400, 8)], "contents against a byte-string model", ["cases"]),
    "C20": Spec([S("config", "server", "", 4, 2, 30), S("config", "server_dbg", "", 2, 1, 15)], "accepted options are in force (observed through stats, sockets, stored amount); invalid ones end the process with status 1 and a message", ["accepted", "rejected", "filled"]),
    "C21": Spec([S("signals", "server", "", 32, 4), S("signals", "server_dbg", "", 8, 1)], "exit status, time to exit, statistics printed, restart", ["usr1", "shutdowns", "restarts"]),
    "C22": Spec([H("util", "misc", 9600, 8)], "results against byte-string and list models", ["cases"]),
    "C23": Spec([H("fault", "", 2400, 8)], "failures injected at every n-th host allocation; state compared with the model after each", ["cases"]),
    "C25": Spec([H("cache", "multi", 240, 4), H("cache_mal", "multi", 120, 2), H("cache_dbg", "multi", 120, 2), H("cache_vgm", "multi", 6, 2)], "every cache against a reference model of its own while the others are used, moved, emptied and destroyed", ["moves", "replaced", "emptied"]),
    "C26": Spec([H("cache_vg", "store", 10, 2, 12), H("cache_vgm", "store", 10, 2, 12), H("cache_vg", "evict", 10, 2, 12), H("cache_vg", "grow", 2, 2), H("cache_vgm", "arith", 8, 1), H("cache_vgm", "expire", 8, 1), H("cache_vgm", "cas", 8, 1), H("cache_vg", "multi", 4, 1),
                 H("capi_vgm", "", 16, 2), H("dict_vg", "", 10, 1), H("alloc_vg", "", 8, 1), H("util_vg", "conv", 4, 1), H("util_vg", "misc", 16, 1), H("util_vg", "iobuf", 16, 1),
                 S("framing", "server_vgm", "", 8, 3, 40), S("framing", "server_vg", "", 4, 1, 40), S("udp", "server_vgm", "", 4, 1, 40), S("hostile", "server_vgm", "", 4, 2, 60), S("disconnect", "server_vgm", "", 4, 1, 20), S("concurrent", "server_vg", "", 2, 1, 20), S("signals", "server_vg", "", 1, 1), S("churn", "server_plain", "", 1, 1, 40), H("fault", "", 200, 1)],
                "memcheck follows every bit that was never written through the real code: none may decide a branch, an address or a byte handed to the kernel; whatever is lost at exit is reported; replies are compared with the model as well",
                ["cases", "requests", "udp_requests"], ["valgrind's memcheck reports the uses of undefined memory it observes"]),
    "C24": Spec([S("disconnect", "server", "", 36, 3, 60), S("disconnect", "server_mal", "", 24, 2, 60), S("disconnect", "server_dbg", "", 24, 2, 60), S("exhaust", "server_nov", "", 8, 1), S("churn", "server_plain", "", 1, 1, 40), S("disconnect", "server_vgm", "", 4, 2, 20)], "contents and statistics against the model of complete requests; descriptors of the server process", ["disconnects", "served_after_exhaustion", "connections_churned"]),
}
