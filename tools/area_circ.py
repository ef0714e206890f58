"""C01..C04: circuits and their public interface."""
import json, os, re
from core import *
import tpgen
from tpgen import value

PARAMS = [(1, 0, 1), (3, 0, 2), (4, 1, 2), (5, 2, 2), (5, 0, 3), (6, 1, 3), (7, 2, 3), (8, 3, 3)]


class Hist:
    """A random legal history of calls (the specification decides every result)."""

    def __init__(self, rng, n, k):
        self.r, self.n, self.k = rng, n, k
        self.s = ["circuit %d %d" % (n, k)]
        self.gates, self.lay, self.muls = [], 0, [[]]
        self.ins = [[] for _ in range(n)]
        self.outs = [[] for _ in range(n)]
        self.inC = self.outC = self.last = self.net = self.corr = False
        self.set = {}
        self.mus = set()
        self.nb = [0, 0, 0]
        self.used = {"ib": [], "ob": [], "mb": []}
        self.layered, self.lev = False, []     # layered: operands of a multiplication come from earlier layers

    def o(self, s):
        self.s.append(s)

    def gate(self, kind, *ops):
        self.gates.append(kind)
        self.lev.append(len(self.muls) if kind == "mul" else max([self.lev[x - 1] for x in ops] or [0]))
        return len(self.gates)

    def pick(self, mul=False):
        g = self.gates
        if self.layered:
            c = [i + 1 for i in range(len(g)) if g[i] != "out" and (not mul or self.lev[i] < len(self.muls))]
            return self.r.choice(c[-8:] if c and self.r.random() < 0.8 else c)
        return self.r.randint(max(1, len(g) - 7), len(g)) if self.r.random() < 0.7 else self.r.randint(1, len(g))

    def inp(self):
        p = self.r.randrange(self.n)
        self.o("in %d" % p)
        self.ins[p].append(self.gate("in"))

    def grow(self, out=True):
        r = self.r
        if "in" not in self.gates:
            if self.inC:
                return
            return self.inp()
        x = r.random()
        if x < 0.2 and not self.inC:
            self.inp()
        elif x < 0.45:
            a, b = self.pick(), self.pick()
            self.o("add %d %d" % (a, b))
            self.gate("add", a, b)
        elif x < 0.8 and not self.last:
            self.o("mul %d %d" % (self.pick(True), self.pick(True)))
            self.muls[-1].append(self.gate("mul"))
        elif x < 0.87 and not self.last:
            self.o("layer")
            self.muls.append([])
        elif out and not self.outC:
            p = r.randrange(self.n)
            a = self.pick()
            self.o("out %d %d" % (p, a))
            self.outs[p].append(self.gate("out", a))

    def close(self):
        todo = [x for x, d in (("closein", self.inC), ("last", self.last), ("closeout", self.outC)) if not d]
        self.r.shuffle(todo)
        for t in todo:
            self.o(t)
        self.inC = self.last = self.outC = True

    def vec(self, m):
        return "%d %s" % (m, " ".join(str(value(self.r)) for _ in range(m)))

    def setclear(self, bad=False):
        r, rep = self.r, self.r.randrange(self.n)
        ls = [len(x) for x in self.ins]
        if bad:
            c = r.random()
            if c < 0.3:
                ls.append(0)
            elif c < 0.5:
                ls.pop()
            else:
                i = len(ls) - 1 if r.random() < 0.6 else r.randrange(len(ls))
                ls[i] += 1 if ls[i] == 0 or r.random() < 0.5 else -1
            self.o("setclear %d %d %s" % (rep, len(ls), " ".join(self.vec(m) for m in ls)))
        elif r.random() < 0.5:
            self.o("setclear %d %d %s" % (rep, len(ls), " ".join(self.vec(m) for m in ls)))
            self.set[rep] = "all"
        else:
            self.o("setflat %d %s" % (rep, self.vec(sum(ls))))
            self.set[rep] = "all"
        return rep

    def read(self, rep=None):
        r = self.r
        rep = r.randrange(self.n) if rep is None else rep
        x = r.random()
        if x < 0.35 or not self.gates:
            self.o("outs %d" % rep)
        elif x < 0.6:
            self.o("outsflat %d" % rep)
        else:
            self.o("getclear %d %d" % (rep, r.randint(1, len(self.gates))))

    def misuse(self):
        r = self.r
        c = r.randrange(9)
        if c == 0 and not self.outC:
            self.o("net")
        elif c == 1 and not self.net:
            self.o("corr")
        elif c == 2:
            self.setclear(bad=True)
        elif c == 3:
            self.read()
        elif c == 4 and self.gates:
            g = r.randint(1, len(self.gates))
            self.o("getmu %d" % g)
        elif c == 5:
            w, n = r.choice([0, 2, 3, 4, 6]), r.randint(1, 3)
            inp = [r.randrange(3) for _ in range(n + r.choice([0, 0, 0, 1, -1]) if n > 1 else n)]
            out = [r.randrange(3) for _ in range(n + r.choice([0, 0, 0, 1]))]
            if sum(inp) and sum(inp) % 2 == 0 and w and w % sum(inp) == 0 and len(inp) == n == len(out):
                w += 1
            self.o("cfg %d %d %d %d %d %s %d %s" % (n, 2, w, r.choice([0, 1, 2]), len(inp), " ".join(map(str, inp)), len(out), " ".join(map(str, out))))
            if sum(inp) and sum(inp) % 2 == 0 and w and w % sum(inp) == 0:
                self.s.pop()
        elif c == 6:
            self.batch()
        elif c == 7:
            n = r.randint(1, 9)
            self.o("dnew %d %d" % (n, r.randint(0, n)))
        elif c == 8 and self.gates:
            leaf = [i + 1 for i, k in enumerate(self.gates) if k in ("in", "mul") and i + 1 not in self.mus]
            if leaf:
                g = r.choice(leaf)
                self.mus.add(g)
                self.o("learned %d" % g)
                self.o("mu %d %d" % (g, value(r)))
                self.o("learned %d" % g)
                self.o("getmu %d" % r.randint(1, len(self.gates)))

    def batch(self):
        r = self.r
        i = r.randrange(3)
        kk = "iom"[i]
        if self.nb[i] == 0 or r.random() < 0.15:
            k = r.randint(1, 4)
            own = r.randrange(3)
            self.o("%sbatch %s%d" % (kk, "" if i == 2 else "%d " % own, k))
            self.used[kk + "b"].append(own)
            self.nb[i] += 1
        b = r.randrange(self.nb[i])
        own = self.used[kk + "b"][b]
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.7:
                self.o("%sapp %d%s" % (kk, b, "" if i == 2 else " %d" % (own if r.random() < 0.7 else r.randrange(3))))
            elif x < 0.85:
                self.o("%sroom %d" % (kk, b))
            else:
                self.o("%sprep %d" % (kk, b))

    def look(self):
        r = self.r
        for p in range(self.n):
            for i in range(len(self.ins[p])):
                self.o("lookin %d %d" % (p, i))
            for i in range(len(self.outs[p])):
                self.o("lookout %d %d" % (p, i))
        for i in range(sum(map(len, self.ins))):
            self.o("lookinf %d" % i)
        for i in range(sum(map(len, self.outs))):
            self.o("lookoutf %d" % i)
        for l in range(len(self.muls)):
            for i in range(len(self.muls[l])):
                self.o("lookmul %d %d" % (l, i))
        for g in range(1, len(self.gates) + 1):
            self.o("parents %d" % g)

    def script(self, rid):
        return "run %s\n%s\nend\n" % (rid, "\n".join(self.s))


def h_clear(rng, rid, size):
    h = Hist(rng, rng.randint(1, 5), rng.randint(1, 4))
    for _ in range(size):
        h.grow()
        if rng.random() < 0.05 and h.gates:
            h.read(h.setclear()) if rng.random() < 0.7 else h.read()
    if rng.random() < 0.3:           # inputs given one by one
        rep = rng.randrange(h.n)
        if rep not in h.set:
            gs = [g for p in h.ins for g in p]
            rng.shuffle(gs)
            done = set()
            for g in gs[:rng.randint(0, len(gs))]:
                h.o("gin %d %d %d" % (rep, g, value(rng)))
                h.read(rep)
    if rng.random() < 0.7:
        h.close()
    for _ in range(rng.randint(2, 6)):
        rep = h.setclear(bad=rng.random() < 0.1)
        for _ in range(rng.randint(1, 4)):
            h.read(rep)
        h.o("outs %d" % rep)
        h.o("outsflat %d" % rep)
    return h.script(rid)


def h_shape(rng, rid, size):
    h = Hist(rng, rng.randint(1, 6), rng.randint(1, 6))
    for _ in range(size):
        h.grow()
    h.close()
    h.o("metrics")
    h.look()
    h.o("net")
    h.o("corr")
    h.o("batches")
    h.o("metrics")
    return h.script(rid)


def h_misuse(rng, rid, size):
    n, t, k = rng.choice(PARAMS)
    dn = rng.random() < 0.35
    if dn:
        t = rng.randint(0, 3)
        n, k = 2 * t + 1, rng.randint(1, 3)
    h = Hist(rng, n, k)
    h.layered = True
    for _ in range(size):
        h.grow()
        if rng.random() < 0.35:
            h.misuse()
    if not any(h.ins):
        h.inp()
    proto = not any(s.startswith("mu ") for s in h.s) and rng.random() < 0.85
    if proto:
        h.mus = set(range(1, len(h.gates) + 1))
    todo = [x for x, d in (("closein", h.inC), ("last", h.last), ("closeout", h.outC)) if not d]
    rng.shuffle(todo)
    for x in todo:
        if rng.random() < 0.5 and not h.outC:
            h.o("net")
        h.o(x)
        h.outC |= x == "closeout"
        if rng.random() < 0.3:
            h.o("corr")
    h.inC = h.last = True
    for _ in range(3):
        h.misuse()
    h.o("net")
    h.net = True
    h.o("metrics")
    if not proto:
        h.look()
        return h.script(rid)
    h.mus = set(range(1, len(h.gates) + 1))
    ins = lambda p, op: h.o("%s %d %s" % (op, p, h.vec(len(h.ins[p]))))

    def badin(op):
        p = rng.randrange(n)
        m = len(h.ins[p])
        h.o("%s %d %s" % (op, p, h.vec(m + 1 if m == 0 or rng.random() < 0.5 else m - 1)))
    if dn:
        if rng.random() < 0.5:
            h.o("dn %d" % rng.randint(t + 1, 2 * t + 2))
        h.o("dn %d" % t)
        if rng.random() < 0.5:
            h.o("dn %d" % rng.randint(t + 1, 2 * t + 2))
        for p in range(n):
            if rng.random() < 0.4:
                badin("dnsetin")
            ins(p, "dnsetin")
        badin("dnsetin")
        h.o("dnrun")
        for p in range(n):
            h.o("dnresult %d %d" % (p, len(h.outs[p])))
        return h.script(rid)
    h.o("corr")

    def badthr():
        x = rng.choice([t + 1, t + 2, t - 1, t - 2, t + 3, 2 * t + 1, n, n - 1, 0, rng.randint(0, 12)])
        if x >= 0 and x != t:
            h.o("thr %d" % x)
    for _ in range(rng.randint(0, 4)):
        badthr()
    if rng.random() < 0.5:
        h.o("thr %d" % t)
        for _ in range(rng.randint(0, 3)):
            badthr()
        h.o("prep")
        badthr()
    else:
        h.o("dummy %d" % value(rng))
    for p in range(n):
        if rng.random() < 0.4:
            badin("setin")
        ins(p, "setin")
    badin("setin")
    if rng.random() < 0.4:
        h.setclear(bad=True)
    h.o("online")
    for p in range(n):
        h.o("result %d" % p)
    if rng.random() < 0.4:
        rep = h.setclear()
        h.o("outs %d" % rep)
    return h.script(rid)


def h_threshold(rng, rid):
    """Every threshold for every number of parties and packing factor, on a minimal circuit."""
    n, k = rng.randint(1, 14), rng.randint(1, 7)
    s = ["circuit %d %d" % (n, k), "in 0", "closein", "mul 1 1", "last", "out 0 2", "closeout", "net", "corr"]
    ts = list(range(0, n + 3))
    rng.shuffle(ts)
    s += ["thr %d" % t for t in ts]
    s += ["dnew %d %d" % (n, t) for t in ts[:6]]
    return "run %s\n%s\nend\n" % (rid, "\n".join(s))


def cfg_call(rng, valid=True, n=None, k=None):
    n = n or rng.randint(1, 6)
    k = k or rng.randint(1, 6)
    inp = [rng.randrange(4) for _ in range(n)]
    if valid:
        if sum(inp) == 0:
            inp[rng.randrange(n)] = 2
        if sum(inp) % 2:
            inp[rng.randrange(n)] += 1
    out = [rng.randrange(5) for _ in range(n)]
    w = max(1, sum(inp)) * rng.choice([1, 1, 2, 3])
    d = rng.randint(1, 5)
    if not valid:
        c = rng.randrange(7)
        if c == 0:
            inp.append(2)
        elif c == 1:
            out.append(0)
        elif c == 2:
            out.pop()
        elif c == 3:
            w += rng.randint(1, 3)
        elif c == 4:
            inp = [0] * n
        elif c == 5:
            w, d = (0, d) if rng.random() < 0.5 else (w, 0)
        else:
            inp[0] += 1 - sum(inp) % 2
            w = sum(inp)
    return n, k, w, d, inp, out, "cfg %d %d %d %d %d %s %d %s" % (
        n, k, w, d, len(inp), " ".join(map(str, inp)), len(out), " ".join(map(str, out)))


def cfg_ok(n, w, d, inp, out):
    s = sum(inp)
    return len(inp) == n == len(out) and s > 0 and w > 0 and d > 0 and w % s == 0 and s % 2 == 0


def h_cfg(rng, rid, proto=False):
    npk = rng.choice(PARAMS)
    while True:
        n, k, w, d, inp, out, call = cfg_call(rng, True, *((npk[0], npk[2]) if proto else (None, None)))
        if w * d <= 60:
            break
    h = Hist(rng, n, k)
    h.s = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        bad = cfg_call(rng, False)
        if not cfg_ok(bad[0], bad[2], bad[3], bad[4], bad[5]):
            if not h.s:
                h.o("circuit 1 1")
            h.o(bad[6])
    h.o(call)
    h.inC = h.outC = h.last = True
    h.ins = [[h.gate("in") for _ in range(x)] for x in inp]
    h.muls = []
    for _ in range(d):
        row = []
        for _ in range(w // 2):
            h.gate("add")
            row += [h.gate("mul"), h.gate("mul")]
        h.muls.append(row)
    h.outs = [[h.gate("out") for _ in range(x)] for x in out]
    h.o("metrics")
    h.look()
    for _ in range(2):
        rep = h.setclear()
        h.o("outs %d" % rep)
        h.o("outsflat %d" % rep)
        h.o("getclear %d %d" % (rep, rng.randint(1, len(h.gates))))
    h.o("net")
    h.o("corr")
    h.o("batches")
    if proto:
        h.s.pop()
        h.o("dummy %d" % value(rng))
        for p in range(n):
            h.o("setin %d %s" % (p, h.vec(len(h.ins[p]))))
        h.o("online")
        for p in range(n):
            h.o("result %d" % p)
    return h.script(rid)


def execute(exe, scripts, tmp, tag="run"):
    a, b = os.path.join(tmp, tag + ".txt"), os.path.join(tmp, tag + ".ndjson")
    with open(a, "w") as f:
        f.write("".join(scripts))
    r = run_cmd([exe, a, b], 800)
    out = open(b).read().split("\n")[:-1] if os.path.exists(b) else []
    if r.returncode or len(out) != len(scripts):
        raise CheckError("circ_run failed: %d, %d of %d runs: %s" % (r.returncode, len(out), len(scripts), r.stderr[-500:]))
    return out


def conform(c, scripts, label):
    exe = build("circ_run")
    lines = execute(exe, scripts, c.tmp)
    for l, s in list(zip(lines, scripts))[:2]:
        c.sample({"run": json.loads(l)["id"], "script": s[:400], "calls": len(json.loads(l)["ev"])})

    def describe(i, d, ev):
        e = d["ev"][ev - 1] if 0 < ev <= len(d["ev"]) else {}
        pre = "\n".join("%s %s -> %s %s" % (x["op"], json.dumps(x["a"])[:200], "ok" if x["ok"] else "refused", json.dumps(x["v"])[:200]) for x in d["ev"][:ev])
        return "circ/%s" % e.get("op", "?"), "run %s: call %d (%s %s) gave %s %s" % (
            d["id"], ev, e.get("op"), json.dumps(e.get("a"))[:200], "ok" if e.get("ok") else "refused " + e.get("why", ""), json.dumps(e.get("v"))[:200]), pre + "\n\n" + scripts[i]
    c.validate("CircTrace", lines, describe, rerun=lambda i: execute(exe, [scripts[i]], c.tmp, "again")[0],
               consts={"E": "61"}, label=label)


def design(c, inv):
    sets = [(2, 2, 6), (1, 3, 6)] if not c.thorough else [(2, 2, 8), (1, 3, 8), (3, 2, 7), (2, 1, 8)]
    for n, k, d in sets:
        c.model("CircDesign", "all histories of up to %d calls, %d clients, batches of %d" % (d, n, k),
                consts=dict(E=3, N=n, K=k, DEPTH=d), invariants=inv, deadlock=False, timeout=850)


def generated(c, num):
    r = tlc("CircDesign", consts=dict(E=3, N=2, K=2, DEPTH=40), invariants=["EmitHist"], nxt="NextEmit", deadlock=False,
            simulate="num=%d" % num, extra=["-depth", "42", "-seed", str(SEED)], timeout=400, workers=1)
    tlc_ok(r, "history generation")
    out = []
    for m in re.finditer(r'"HIST (.*)"', r["out"]):
        calls = json.loads(m.group(1).replace('\\"', '"'))
        s = ["circuit 2 2"]
        for x in calls:
            s.append(x["op"] + " " + flat(x["op"], x["a"]))
        out.append("run tlc%d\n%s\nend\n" % (len(out), "\n".join(s)))
    if not out:
        raise CheckError("no histories generated:\n" + r["out"][-1500:])
    c.states += r["states"]
    return out[:num]


def num61(limbs):
    return sum(x << (13 * i) for i, x in enumerate(limbs))


def flat(op, a):
    if op == "setclear":
        return "%d %d %s" % (a[0], len(a[2]), " ".join("%d %s" % (len(v), " ".join(str(num61(x)) for x in v)) for v in a[2]))
    if op == "setflat":
        return "%d %d %s" % (a[0], len(a[2]), " ".join(str(num61(x)) for x in a[2]))
    if op in ("gin", "mu"):
        return " ".join(map(str, a[:-1])) + " " + str(num61(a[-1][0]))
    return " ".join(map(str, a))


def C01(c):
    design(c, ["ClearOk"])
    conform(c, generated(c, c.pick(60, 1500)), "call histories generated from the specification, replayed on the code")
    conform(c, [h_clear(c.rng, "c%d" % i, c.rng.choice([6, 15, 40, 90])) for i in range(c.pick(150, 2500))] +
            [h_clear(c.rng, "b%d" % i, c.rng.choice([250, 400, 700])) for i in range(c.pick(4, 40))],
            "random circuits, inputs set again and again")
    conform(c, [h_cfg(c.rng, "g%d" % i) for i in range(c.pick(25, 300))], "generated circuits")


def C02(c):
    design(c, ["BatchesOk", "MetricsOk"])
    conform(c, [h_shape(c.rng, "s%d" % i, c.rng.choice([5, 12, 30, 60, 100])) for i in range(c.pick(120, 1500))], "metrics, look-ups and batches of random circuits")
    conform(c, [h_cfg(c.rng, "g%d" % i) for i in range(c.pick(20, 200))], "generated circuits")


def C03(c):
    design(c, ["RefusedOk"])
    conform(c, generated(c, c.pick(60, 1500)), "call histories generated from the specification, replayed on the code")
    conform(c, [h_misuse(c.rng, "m%d" % i, c.rng.choice([5, 10, 25])) for i in range(c.pick(150, 2500))], "misuse between, before and after all steps of building and running a circuit")
    conform(c, [h_threshold(c.rng, "t%d" % i) for i in range(c.pick(40, 300))], "all thresholds")
    bad = [cfg_call(c.rng, i % 3 == 0) for i in range(c.pick(150, 1500))]
    conform(c, ["run b%d\ncircuit 1 2\nin 0\n%s\nend\n" % (i, b[6]) for i, b in enumerate(bad) if b[2] * b[3] < 100], "synthetic parameters")


def C04(c):
    design(c, ["GenOk"])
    conform(c, [h_cfg(c.rng, "g%d" % i) for i in range(c.pick(120, 1500))], "generated circuits: metrics, every gate, batches and clear outputs")
    conform(c, [h_cfg(c.rng, "p%d" % i, True) for i in range(c.pick(20, 200))], "generated circuits evaluated by the protocol")


CHECKS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04}
HARNESSES = ["circ_run"]
_T = "TLA+ state machine of the circuit interface, bounded histories explored by TLC; recorded call histories of the code (random, and generated from the specification) validated against it"
ABOUT = {"C01": (_T, "clear values of every gate and output under repeated input settings"),
         "C02": (_T, "batches, padding, metrics and look-ups after random construction histories"),
         "C03": (_T, "refusals and everything that follows them, including full protocol runs after misuse"),
         "C04": (_T, "generated circuits compared gate by gate with the specified construction")}
