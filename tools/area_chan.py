"""N01, N03, N08: channels.  Real channels over simulated or real sockets against Channel.tla."""
import json
from core import *
from area_net import COOP

WRAP = ["-Wl,--wrap=" + x for x in "read recv write send close shutdown socket setsockopt bind listen accept connect sendto recvfrom sendmsg recvmsg readv writev accept4 getpeername poll".split()]
KINDS = [("mem", "mem"), ("self", "self"), ("tcp", "tcp"), ("thr", "thr"), ("tcp", "thr"), ("thr", "tcp")]


def coop_exe():
    return build("chan_run", srcs=["coop_rt.cc", "simsock.cc"], flags=COOP, variant="coop", libs=["-lpthread"] + WRAP)


def big_exe():
    return build("chan_big", libs=["-lpthread"] + WRAP[:4])


def collect(exe, heads, progs, timeout=800):
    text = "".join("run p%d %s\n%send\n" % (i, h, "".join("%d %s\n" % (e, " ".join(ops)) for e, ops in p)) for i, (h, p) in enumerate(zip(heads, progs)))
    # spread over the cores
    chunks = [[] for _ in range(CORES)]
    for i, blk in enumerate(text.split("end\n")[:-1]):
        chunks[i % CORES].append(blk + "end\n")
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(lambda t: run_cmd([exe], timeout, stdin="".join(t)), [t for t in chunks if t]))
    out, runs = [[] for _ in progs], 0
    for r in rs:
        if r.returncode:
            raise CheckError("%s failed (%d): %s" % (exe, r.returncode, r.stderr[-300:]))
        for l in r.stdout.split("\n"):
            if not l:
                continue
            n, x = l.split("\t", 1)
            if x == "done":
                continue
            d = json.loads(x)
            if "runs" in d:
                runs += d["runs"]
            elif d.get("e") == "crash":
                out[int(n[1:])].append({"ev": [[0, 2, "end", 0, 0, 0, []]], "blocked": [], "trouble": "crash: " + d["why"], "schedule": ""})
            else:
                out[int(n[1:])].append(d)
    return out, runs


def judge(c, progs, kinds, caps, out, label):
    lines, where = [], []
    for i, hs in enumerate(out):
        for h in hs:
            lines.append(json.dumps({"kinds": kinds[i], "cap": caps[i], "ev": h["ev"], "blocked": h["blocked"], "trouble": h["trouble"]}))
            where.append((i, h.get("schedule", "")))
    c.cov["distinct_histories"] = c.cov.get("distinct_histories", 0) + len(lines)

    def describe(k, d, ev):
        i, s = where[k]
        return ("%s/%s" % (c.pid, json.dumps([kinds[i], progs[i]])), "channels %s, program %s, history %s, blocked %s %s" % (
            kinds[i], json.dumps(progs[i])[:300], json.dumps(d["ev"])[:700], d["blocked"], d["trouble"]), "schedule: " + s)
    if lines:
        c.sample({"channels": kinds[0], "program": progs[0], "history": json.loads(lines[0])["ev"][:40]})
    c.validate("ChannelTrace", lines, describe, label=label)


def explore(c, cases, label):
    """cases: (kinds, capacity, budget, max_runs, random_runs, program)"""
    heads = ["%s %s %d %d %d %d %d" % (k[0], k[1], cap, b, m, rnd, SEED * 1000 + i) for i, (k, cap, b, m, rnd, p) in enumerate(cases)]
    out, runs = collect(coop_exe(), heads, [x[5] for x in cases])
    c.cov["schedules_executed"] = c.cov.get("schedules_executed", 0) + runs
    judge(c, [x[5] for x in cases], [list(x[0]) for x in cases], [x[1] for x in cases], out, label)


def design(c):
    big = dict(TOTAL=5, MAXS=3, MAXR=3, CAP=2) if not c.thorough else dict(TOTAL=8, MAXS=4, MAXR=4, CAP=3)
    inv = ["InOrder", "Nothing", "AllBeforeEof"]
    c.model("ChannelDesign", "in-memory channel, all cuts of the stream", consts=dict(MODE='"mem"', PEERDIES="FALSE", **big), invariants=inv)
    for m in ("tcp", "thr"):
        for p in ("FALSE", "TRUE"):
            c.model("ChannelDesign", "%s channel, all cuts, partial reads and writes, peer may vanish: %s" % (m, p), spec="Spec", nxt=None,
                    consts=dict(MODE='"%s"' % m, PEERDIES=p, **big), invariants=inv, props=["CloseEnds", "Delivered"])


def cuts(rng, total, k, zero=True):
    """total bytes in k or so calls, some of them empty"""
    ops, left = [], total
    while left > 0:
        n = rng.choice([1, 1, 2, 3, left])
        n = min(n, left)
        ops.append(n)
        left -= n
    if zero and rng.randrange(2):
        ops.insert(rng.randrange(len(ops) + 1), 0)
    return ops


def merge(rng, *seqs):
    seqs = [list(s) for s in seqs]
    r = []
    while any(seqs):
        s = rng.choice([s for s in seqs if s])
        r.append(s.pop(0))
    return r


# ---------------------------------------------------------------- N01
def N01(c):
    design(c)
    cases = []
    m = c.pick(500, 6000)
    for k in KINDS:
        cases.append((k, 3, 2, m, 0, [[0, ["s5", "s0", "s2"]], [1, ["r3", "r0", "r4"]]]))
        cases.append((k, 2, 2, m, 0, [[0, ["s1", "s1", "s4"]], [1, ["r6"]]]))
        cases.append((k, 8, 2, m, 0, [[0, ["s6"]], [1, ["r1", "r2", "r1", "r2"]]]))
        cases.append((k, 3, 2, m, 0, [[0, ["s3", "r2"]], [1, ["s2", "r3"]]]))
        cases.append((k, 1, 2, m, 0, [[0, ["s3"]], [0, ["r4"]], [1, ["s4"]], [1, ["r3"]]]))
        cases.append((k, 4, 2, m, 0, [[0, ["s2"]], [1, ["r3"]]]))                # one byte never comes
    cases = [x if x[0][0] != "self" else x[:5] + ([[0, o] for e, o in x[5]],) for x in cases]
    cases = [x for x in cases if not (x[0][0] == "self" and sum(any(o[0] == "s" for o in ops) for _, ops in x[5]) > 1)]   # one sender per direction
    # throwing away what was received
    cases.append((("self", "self"), 4, 2, m, 0, [[0, ["s4", "s2", "r3", "f", "s3", "r3"]]]))
    cases.append((("self", "self"), 4, 2, m, 0, [[0, ["s4", "f", "s1", "s3", "r2", "f", "f", "s2", "r2"]]]))
    for _ in range(c.pick(90, 600)):
        k = c.rng.choice(KINDS)
        a, b = c.rng.randrange(0, 8), c.rng.randrange(0, 8)
        cap = c.rng.choice([1, 2, 3, 5, 8])
        if k[0] == "self":
            ra = max(0, a - c.rng.choice([0, 0, 1]))
            p = [[0, ["s%d" % n for n in cuts(c.rng, a, 3)]], [0, ["r%d" % n for n in cuts(c.rng, ra, 3)]]]
        else:
            ra, rb = (max(0, x + c.rng.choice([0, 0, 0, 0, -1, 1])) for x in (a, b))
            s0, r0 = ["s%d" % n for n in cuts(c.rng, a, 3)], ["r%d" % n for n in cuts(c.rng, rb, 3)]
            s1, r1 = ["s%d" % n for n in cuts(c.rng, b, 3)], ["r%d" % n for n in cuts(c.rng, ra, 3)]
            p = []
            for e, s, r in ((0, s0, r0), (1, s1, r1)):
                if c.rng.randrange(2):
                    p += [[e, s], [e, r]]
                else:
                    p += [[e, merge(c.rng, s, r)]]
        p = [x for x in p if x[1]]
        if p:
            cases.append((k, cap, 1, c.pick(120, 800), c.pick(80, 1500), p))
    explore(c, cases, "histories of channels under explored schedules, short reads and writes")
    # long messages, real sockets and threads
    heads, progs, kinds = [], [], []
    for i in range(c.pick(24, 150)):
        k = KINDS[i % len(KINDS)]
        big = c.rng.choice([100, 70000, 300000, c.pick(1 << 20, 12 << 20)]) if i >= 6 else 3000000
        def chop(n):
            ops, left = [], n
            while left > 0:
                x = min(left, c.rng.choice([1, 7, 4095, 4096, 65536, 65537, left, max(1, left // 2)]))
                if len(ops) > 40:
                    x = left
                ops.append(x)
                left -= x
            return ops
        a, b = big + c.rng.randrange(100), c.rng.choice([0, 50, big // 2])
        p = [[0, ["s%d" % n for n in chop(a)]]]
        if k[0] == "self":
            p += [[0, ["r%d" % n for n in chop(a)]]]
        else:
            p += [[1, ["r%d" % n for n in chop(a)]], [1, ["s%d" % n for n in chop(b)]], [0, ["r%d" % n for n in chop(b)]]]
        p = [x for x in p if x[1]]
        heads.append("%s %s %d" % (k[0], k[1], SEED * 100 + i if i % 4 else 0))
        progs.append(p)
        kinds.append(list(k))
    out, _ = collect(big_exe(), heads, progs)
    judge(c, progs, kinds, [0] * len(progs), out, "long messages over real sockets and threads")


def big_closing(c, kinds):
    """Long messages over real sockets and threads, the sender goes away right after sending."""
    heads, progs, ks = [], [], []
    for i in range(c.pick(18, 120)):
        k = kinds[i % len(kinds)]
        n = c.rng.choice([1, 5000, 65536, 70001, 300000, c.pick(1 << 20, 6 << 20)])
        ops = []
        left = n
        while left > 0:
            x = min(left, c.rng.choice([1, 4096, 65537, 100000, left, left]))
            ops.append("s%d" % (x if len(ops) < 20 else left))
            left -= int(ops[-1][1:])
        rd, left = [], n + c.rng.choice([0, 0, 1, 5000])
        while left > 0:
            x = min(left, c.rng.choice([1, 4096, 65536, 200000, left])) if len(rd) < 20 else left
            rd.append("r%d" % x)
            left -= x
        e = c.rng.randrange(2) if k[0] == k[1] else 0
        progs.append([[e, ops + c.rng.choice([["c"], ["x"], ["c", "c"], ["c", "x"]])], [1 - e, rd + c.rng.choice([[], ["r1"], ["r0", "c"]])]])
        heads.append("%s %s %d" % (k[0], k[1], SEED * 1000 + i if i % 3 else 0))
        ks.append(list(k))
    out, _ = collect(big_exe(), heads, progs)
    judge(c, progs, ks, [0] * len(progs), out, "long messages and closing over real sockets and threads")


# ---------------------------------------------------------------- N03
def N03(c):
    big_closing(c, [("thr", "tcp"), ("thr", "thr")])
    design(c)
    m = c.pick(500, 8000)
    cases = []
    for k in (("thr", "tcp"), ("thr", "thr")):
        last = [["c"], ["x"], ["c", "c"], ["c", "x"], ["c", "c", "c", "x"]]
        for i, z in enumerate(last):
            cases.append((k, [2, 4, 1][i % 3], 2, m, 0, [[0, ["s3", "s0", "s2"] + z], [1, ["r5", "r1"]]]))
            cases.append((k, 2, 2, m, 0, [[0, ["s1", "s1", "s1", "s1"] + z], [1, ["r1", "r3", "r1", "c"]]]))
            cases.append((k, 3, 2, m, 0, [[0, z], [1, ["r1", "x"]]]))                           # nothing was sent
            cases.append((k, 2, 2, m, 0, [[0, ["s3", "s3"] + z], [1, ["r2", "x"]]]))             # the peer leaves early
            cases.append((k, 2, 2, m, 0, [[0, ["s3", "s3"] + z], [1, ["x"]]]))
            cases.append((k, 2, 2, m, 0, [[0, ["s3", "s2"] + z], [1, ["r2", "a"]]]))             # the connection fails
            cases.append((k, 2, 2, m, 0, [[0, ["s2", "a", "s1"] + z]]))
            cases.append((k, 4, 2, m, 0, [[0, ["s3"] + z]]))                                     # the peer does not read, it fits
            cases.append((k, 2, 2, m, 0, [[0, ["s3"] + z]]))                                     # ... or not
            cases.append((k, 3, 2, m, 0, [[0, ["s2"] + z[:1] + ["n", "s3"] + z[1:]], [1, ["r2", "r1"]]] if z[0] == "c"
                          else [[0, ["s2"] + z], [1, ["r2", "r1"]]]))
            cases.append((k, 2, 2, m, 0, [[0, ["s3", "r2"] + z], [1, ["s2", "r3", "r1", "x"]]]))
        cases.append((k, 2, 2, m, 0, [[0, ["s3", "s3", "s3"]], [1, ["r2"]]]))                    # sends do not wait
        cases.append((k, 1, 2, m, 0, [[0, ["s2", "s1", "r1"]], [1, ["s1"]]]))
    for _ in range(c.pick(70, 500)):
        k = c.rng.choice([("thr", "tcp"), ("thr", "thr"), ("thr", "thr")])
        a, b = c.rng.randrange(0, 8), c.rng.choice([0, 0, 2, 4])
        z = c.rng.choice([["c"], ["x"], ["c", "c"], ["c", "x"], ["c", "s2", "c"]])
        s0, r0 = ["s%d" % n for n in cuts(c.rng, a, 3)], ["r%d" % n for n in cuts(c.rng, b, 3)]
        ra = max(0, a + c.rng.choice([0, 0, 1, -1, -3]))
        s1, r1 = ["s%d" % n for n in cuts(c.rng, b, 3)], ["r%d" % n for n in cuts(c.rng, ra, 3)]
        e1 = merge(c.rng, s1, r1) + c.rng.choice([["r1"], ["c"], ["x"], [], ["a"]])
        p = [[0, merge(c.rng, s0, r0) + z], [1, e1]]
        cases.append((k, c.rng.choice([1, 2, 3, 5, 8]), 2, c.pick(150, 1500), c.pick(150, 3000), [x for x in p if x[1]]))
    explore(c, cases, "histories of closing asynchronous channels under explored schedules")


# ---------------------------------------------------------------- N08
def N08(c):
    big_closing(c, [("tcp", "tcp"), ("tcp", "thr"), ("thr", "tcp")])
    design(c)
    m = c.pick(400, 6000)
    cases = []
    for k in (("tcp", "tcp"), ("thr", "tcp"), ("tcp", "thr"), ("thr", "thr")):
        for z in ("c", "x", "a"):
            for got in range(0, 5):
                cases.append((k, 4, 2, m // 2, 0, [[0, (["s%d" % got] if got else []) + [z]], [1, ["r4", "r1"]]]))
            cases.append((k, 3, 2, m, 0, [[0, ["s2", "s2", z]], [1, ["r1", "r2", "r3", "r0", "r1"]]]))
            cases.append((k, 2, 2, m, 0, [[0, [z]], [1, ["s3", "s3", "s3", "s1", "x"]]]))        # sending to a peer that is gone
            cases.append((k, 2, 2, m, 0, [[0, ["r1", z]], [1, ["s1", "s2", "r1", "s2", "s2", "c"]]]))
            cases.append((k, 1, 2, m, 0, [[0, ["r2", z]], [1, ["s5", "s1"]]]))                   # ... in the middle of a message
            cases.append((k, 4, 2, m, 0, [[0, ["s2", "r3", z]], [1, ["r2", "s1", "r1"]]]))
        for e in (0, 1):                                                                          # after closing oneself
            cases.append((k, 4, 2, m, 0, [[e, ["c", "s2", "r1", "c", "s1"]], [1 - e, ["r1"]]]))
            cases.append((k, 4, 2, m, 0, [[e, ["s1", "c", "n", "s2", "r1", "c", "n", "s3", "r2", "x"]], [1 - e, ["r1", "r1"]]]))
            cases.append((k, 4, 2, m, 0, [[1 - e, ["s2", "c"]], [e, ["c", "n", "r1", "s1"]]]))
    for _ in range(c.pick(60, 500)):
        k = c.rng.choice([("tcp", "tcp"), ("thr", "tcp"), ("tcp", "thr"), ("thr", "thr")])
        p = []
        for e in (0, 1):
            s = merge(c.rng, ["s%d" % n for n in cuts(c.rng, c.rng.randrange(0, 6), 3)], ["r%d" % n for n in cuts(c.rng, c.rng.randrange(0, 6), 3)])
            p.append([e, s + c.rng.choice([["c"], ["x"], ["a"], ["c", "s1", "r1"], ["c", "n", "r2", "s2"], []])])
        cases.append((k, c.rng.choice([1, 2, 4, 8]), 2, c.pick(150, 1500), c.pick(150, 3000), [x for x in p if x[1]]))
    explore(c, cases, "histories of channels whose peer goes away, under explored schedules")


CHECKS = {"N01": N01, "N03": N03, "N08": N08}
HARNESSES = [coop_exe, big_exe]
SCHED = "schedules, short reads and short writes with up to 2 deviations plus random ones; streams of a few bytes (N01 also megabytes over real sockets); EINTR and resets that destroy delivered data are not modelled"
TECH = "TLA+ model of the channel algorithms checked by TLC (all cuts of a stream, partial reads and writes, vanishing peer; safety and liveness); histories of the real classes over simulated sockets under a cooperative scheduler validated by TLC against the abstract channel"
ABOUT = {k: (TECH, SCHED) for k in CHECKS}
