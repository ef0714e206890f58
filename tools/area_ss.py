"""S01..S05: Shamir, packed and additive secret sharing."""
import itertools, json
from core import *
from area_math import ring, modulus, bsize, limbs_of, hexle, conv


class Calls:
    """A list of calls; each has its tokens for the harness and the fields of its event."""

    def __init__(self, name, t):
        self.name, self.t = name, t
        self.toks, self.evs = [], []
        self.e, self.n, self.p = ring(t)["e"], bsize(t), modulus(t)

    def h(self, v):
        return "".join(hexle(x % self.p, self.n) for x in v) or "-"

    def L(self, v):
        return [limbs_of(x % self.p, self.e) for x in v]

    def add(self, toks, **ev):
        self.toks.append(" ".join(str(x) for x in toks))
        ev["op"] = toks[0]
        self.evs.append(ev)

    def text(self):
        return "run %s %s\n%s\nend\n" % (self.name, self.t, "\n".join(self.toks))

    # -- calls
    def share(self, s, n, t, count, seed):
        self.add(["share", self.h([s]), n, t, count, seed], s=self.L([s])[0], n=n, t=t, count=count)

    def sharep(self, s, t, xs, count, seed):
        self.add(["sharep", self.h([s]), t, self.h(xs), count, seed], s=self.L([s])[0], t=t, xs=self.L(xs), count=count)

    def rec(self, op, t, sh, xs=None, pos=0, truth=None):
        canon = xs is None
        toks = [op, t, self.h(sh), "*" if canon else self.h(xs)]
        if not canon and op != "rob":
            toks.append(self.h([pos]))
        f = dict(t=t, sh=self.L(sh), canon=1 if canon else 0)
        if not canon:
            f.update(xs=self.L(xs), pos=self.L([pos])[0])
        if truth is not None:
            tr = [x % self.p for x in truth]
            while len(tr) > 1 and tr[-1] == 0:
                tr.pop()
            f["truth"] = self.L(tr)
        self.add(toks, **f)

    def pack(self, kind, s, pts, deg, n, count, seed, slots):
        self.add(["pack", kind, self.h(s), self.h(pts), deg, n, count, seed], s=self.L(s), pts=self.L(slots), deg=deg, n=n, count=count)

    def unpack(self, kind, sh, length, pts, slots):
        self.add(["unpack", kind, self.h(sh), length, self.h(pts)], sh=self.L(sh), pts=self.L(slots))


def execute(exe, runs):
    r = run_cmd([exe], 600, stdin="".join(c.text() for c in runs))
    if r.returncode:
        raise CheckError("ss_run failed (%d): %s" % (r.returncode, r.stderr[-500:]))
    out = r.stdout.strip().split("\n")
    if len(out) != len(runs):
        raise CheckError("ss_run gave %d lines for %d runs" % (len(out), len(runs)))
    lines = []
    for c, l in zip(runs, out):
        evs = []
        for i, x in enumerate(l.split("\t")[1:]):
            d = json.loads(x)
            if d.get("e") == "bad":
                raise CheckError("ss_run: " + d["why"])
            if d.get("e") == "crash":
                evs.append({"op": "crash", "why": d["why"]})
                break
            if "end" in d:
                evs.append({"op": "end"})
            else:
                ev = dict(c.evs[i])
                ev["ok"] = d["ok"]
                ev["r"] = conv(d["r"], c.e) if d["ok"] else []
                evs.append(ev)
        if not evs or evs[-1]["op"] not in ("crash", "end"):
            evs.append({"op": "crash", "why": "ended early"})
        lines.append(json.dumps({"id": c.name, "type": c.t, "ring": ring(c.t), "ev": evs}))
    return lines


def conform(c, runs, label):
    exe = build("ss_run")
    runs = [r for r in runs if r.toks]
    lines = execute(exe, runs)
    c.cov["calls"] = c.cov.get("calls", 0) + sum(len(r.toks) for r in runs)
    for r in runs[:2]:
        c.sample({"run": r.name, "type": r.t, "calls": r.toks[:4]})

    def describe(i, d, ev):
        r = runs[i]
        call = r.toks[ev - 1] if 0 < ev <= len(r.toks) else "end"
        e = d["ev"][ev - 1] if 0 < ev <= len(d["ev"]) else {}
        return ("ss/%s/%s" % (r.t, call.split()[0]), "%s on %s: call %d, %s gave ok=%s %s" % (
            r.name, r.t, ev, call[:200], e.get("ok"), json.dumps(e.get("r", e.get("why")))[:300]), r.text())
    c.validate("SSTrace", lines, describe, rerun=lambda i: execute(exe, [runs[i]])[0], label=label)


def split(runs, name, t, size):
    """a fresh Calls object once the last one is full"""
    if not runs or len(runs[-1].toks) >= size or runs[-1].t != t or not runs[-1].name.startswith(name + "-"):
        runs.append(Calls("%s-%d" % (name, len(runs)), t))
    return runs[-1]


def ev(p, f, x):
    r = 0
    for c in reversed(f):
        r = (r * x + c) % p
    return r


def close(c, p, f, xs, honest):
    """another polynomial of the same degree that agrees with f at as many of the honest points as it can"""
    k = len(f) - 1
    g = [c.rng.randrange(1, p)]
    for j in c.rng.sample(honest, min(k, len(honest))):
        g = [((g[i - 1] if i else 0) - xs[j] * (g[i] if i < len(g) else 0)) % p for i in range(len(g) + 1)]
    return [(a + b) % p for a, b in zip(f, g + [0] * (k + 1 - len(g)))]


def seed(c):
    return c.rng.randbytes(16).hex()


def value(c, p):
    return c.rng.choice([0, 1, p - 1, c.rng.randrange(p), c.rng.randrange(p), c.rng.randrange(p)])


def points(c, p, n, zero=False):
    """n distinct evaluation points"""
    if p < 1000:
        return c.rng.sample(range(0 if zero else 1, p), n)
    k = c.rng.randrange(3)
    if k == 0:
        return [x + 1 for x in c.rng.sample(range(3 * n + 3), n)]
    if k == 1:
        return [(p - x) % p for x in c.rng.sample(range(1, 3 * n + 3), n)]
    return list({c.rng.randrange(1, p): 0 for _ in range(3 * n)})[:n]


def design(c, *modes):
    table = {
        "shamir": [(3, 1, 4, 0), (3, 2, 4, 0)] + c.pick([], [(3, 3, 5, 0), (5, 1, 6, 0), (5, 2, 4, 0)]),
        "detect": [(3, 1, 3, 0)] + c.pick([], [(5, 1, 4, 0), (3, 2, 5, 0)]),
        "correct": [(3, 1, 4, 0)] + c.pick([], [(3, 1, 5, 0)]),
        "word": [(3, 1, 4, 0)],
        "packed": [(3, 1, 4, 1), (3, 1, 4, 2), (3, 2, 4, 2)] + c.pick([], [(3, 2, 4, 1), (3, 2, 4, 3), (5, 2, 5, 2)]),
        "additive": [(3, 0, 1, 0), (3, 0, 2, 0), (3, 0, 3, 0)] + c.pick([], [(3, 0, 4, 0), (5, 0, 3, 0)]),
    }
    for m in modes:
        for (e, t, n, k) in table[m]:
            c.model("SSDesign", "%s over GF(%d), t=%d n=%d k=%d, all secrets, randomness, subsets and errors" % (m, 2 ** e - 1, t, n, k),
                    consts=dict(EXP=e, T=t, N=n, K=k, MODE='"%s"' % m),
                    invariants=["Shamir", "Detection", "Correction", "AnyWord", "Packed", "Additive"], deadlock=False, timeout=850)


FIELDS = ["M61", "M127", "S5", "S3"]


def S01(c):
    design(c, "shamir")
    runs = []
    # distribution over a small field: all combinations of t shares occur, for every secret
    for s in range(7):
        r = split(runs, "dist", "S3", 2)
        r.share(s, 4, 1, 250, seed(c))
        r.share(s, 3, 2, 900, seed(c))
        if c.thorough:
            r.share(s, 5, 3, 6300, seed(c))
    for t in ("M61", "M127"):
        p = modulus(t)
        for i in range(c.pick(30, 250)):
            r = split(runs, "share-" + t, t, 12)
            k = c.rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10]) if i else 0
            n = k + c.rng.choice([1, 1, 2, 3, 2 * k])
            r.share(value(c, p), n, k, c.rng.choice([2, k + 2, 12]), seed(c))
            r.sharep(value(c, p), k, points(c, p, c.rng.randint(1, 2 * k + 2)), c.rng.choice([2, k + 2, 14]), seed(c))
            r.add(["alphas", n], n=n)
        for k, n in ((17, 40), (33, 66)):
            r = Calls("large-%d-%s" % (k, t), t)
            r.share(value(c, p), n, k, 3, seed(c))
            r.sharep(value(c, p), k, points(c, p, n), 3, seed(c))
            r.add(["alphas", 300], n=300)
            runs.append(r)
        r = Calls("bits-" + t, t)
        r.share(value(c, p), 3, 1, 64, seed(c))
        r.sharep(value(c, p), 3, [1, 2], 64, seed(c))
        runs.append(r)
    for t in FIELDS:
        p = modulus(t)
        for i in range(c.pick(60, 500)):
            r = split(runs, "rec-" + t, t, 40)
            k = c.rng.choice([0, 1, 1, 2, 2, 3, 4, 6] if p > 7 else [0, 1, 1, 2, 3])
            n = c.rng.randint(k + 1, min(p - 1, 3 * k + 3))
            f = [value(c, p) for _ in range(k + 1)]
            xs = points(c, p, n, zero=c.rng.randrange(3) == 0)
            ys = [ev(p, f, x) for x in xs]
            r.rec("recp", k, ys, xs, 0)
            sub = c.rng.sample(range(n), k + 1)
            r.rec("recp", k, [ys[j] for j in sub], [xs[j] for j in sub], c.rng.choice([0, 0, value(c, p), xs[sub[0]], xs[-1]]))
            r.rec("recp", k, [value(c, p) for _ in range(k + 1)], xs[:k + 1], value(c, p))    # any k+1 values
            r.rec("recp", k, [ev(p, f, x + 1) for x in range(n)])
            r.rec("recp", k, ys[:k], xs, 0)          # too few
            if c.rng.randrange(2):
                r.rec("recp", k, ys, xs[:k], 0)
        if p > 100:
            for k in (9, 17, 33):
                r = Calls("large-%d-%s" % (k, t), t)
                f = [value(c, p) for _ in range(k + 1)]
                xs = points(c, p, k + 5)
                ys = [ev(p, f, x) for x in xs]
                r.rec("recp", k, ys, xs, 0)
                r.rec("recp", k, ys[::-1], xs[::-1], value(c, p))
                r.rec("recp", k, [ev(p, f, x + 1) for x in range(k + 5)])
                runs.append(r)
        # every subset of a sharing
        f = [value(c, p) for _ in range(3)]
        xs = points(c, p, 5)
        r = Calls("subsets-" + t, t)
        for sub in itertools.permutations(range(5), 3):
            r.rec("recp", 2, [ev(p, f, xs[j]) for j in sub], [xs[j] for j in sub], 0)
            # linearity: sums and multiples of shares
            g = [value(c, p) for _ in range(3)]
            m = value(c, p)
            r.rec("recp", 2, [(m * ev(p, f, xs[j]) + ev(p, g, xs[j])) % p for j in sub], [xs[j] for j in sub], 0)
        runs.append(r)
    conform(c, runs, "sharings and reconstructions")


def S02(c):
    design(c, "detect")
    runs = []
    full = list(itertools.product(range(7), repeat=2))
    for f in (full if c.thorough else c.rng.sample(full, 12)):      # all single errors, t = 1 over GF(7)
        r = split(runs, "all-S3", "S3", 60)
        ys = [ev(7, f, x) for x in (1, 2, 3)]
        r.rec("rec", 1, ys, None, 0, f)
        for i in range(3):
            for d in range(1, 7):
                w = list(ys)
                w[i] = (w[i] + d) % 7
                r.rec("rec", 1, w, None, 0, f)
    for t in FIELDS:
        p = modulus(t)
        for i in range(c.pick(70, 700)):
            r = split(runs, "rec-" + t, t, 40)
            k = c.rng.choice([0, 1, 1, 2, 2, 3, 4, 5] if p > 7 else [0, 1, 2, 3])
            n = 2 * k + 1 + (c.rng.choice([0, 0, 0, 1, 2]) if p > 7 else 0)
            f = [value(c, p) for _ in range(k + 1)]
            if c.rng.randrange(3) == 0:
                f = f[:1] + [0] * k
            xs = points(c, p, n) if n < p else list(range(1, n + 1))
            canon = c.rng.randrange(3) == 0
            if canon:
                xs = list(range(1, n + 1))
            ys = [ev(p, f, x) for x in xs]
            pos = 0 if canon else c.rng.choice([0, 0, value(c, p), xs[0], xs[-1]])
            errs = c.rng.sample(range(2 * k + 1), c.rng.choice([0, 1, k, c.rng.randint(0, k)]) if k else 0)
            w = list(ys)
            q = c.rng.choice([0, 1, 2, 2, 2, 3])
            honest = [j for j in range(2 * k + 1) if j not in errs]
            g = close(c, p, f, xs, honest)                # errors that lie on another polynomial of degree k close to f
            for j in errs:
                w[j] = (w[j] + 1) % p if q == 0 else (w[j] - 1) % p if q == 1 else ev(p, g, xs[j]) if q == 2 else value(c, p)
            r.rec("rec", k, w, None if canon else xs, pos, f)
            if c.rng.randrange(5) == 0:
                r.rec("rec", k, ys[:2 * k], xs, 0, f)
                r.rec("rec", k, ys, xs[:2 * k], 0, f)
            # every single position
            if k and c.rng.randrange(4) == 0:
                for j in range(2 * k + 1):
                    w = list(ys)
                    w[j] = (w[j] + c.rng.choice([1, p - 1, c.rng.randrange(1, p)])) % p
                    r.rec("rec", k, w, None if canon else xs, pos, f)
        for k in (7, 10, 17) if p > 100 else ():
            r = Calls("large-%d-%s" % (k, t), t)
            n = 2 * k + 1
            f = [value(c, p) for _ in range(k + 1)]
            for cnt in (0, 1, k // 2, k):
                errs = c.rng.sample(range(n), cnt)
                xs = points(c, p, n + 2)
                w = [ev(p, f, x) for x in xs]
                for j in errs:
                    w[j] = c.rng.choice([(w[j] + 1) % p, value(c, p)])
                r.rec("rec", k, w, xs, 0, f)
            for j in sorted({0, 1, k - 1, k, k + 1, n - 2, n - 1}):
                w = [ev(p, f, x + 1) for x in range(n)]
                w[j] = (w[j] + 1) % p
                r.rec("rec", k, w, None, 0, f)
            runs.append(r)
    conform(c, runs, "reconstruction with up to t errors")


def S03(c):
    design(c, "correct", "word")
    runs = []
    full = list(itertools.product(range(7), repeat=4))     # every word, t = 1 over GF(7); the truth is the nearest codeword
    words = c.rng.sample(full, c.pick(500, 1300))
    code = {tuple(ev(7, f, x) for x in (1, 2, 3, 4)): f for f in itertools.product(range(7), repeat=2)}
    for w in words:
        r = split(runs, "word-S3", "S3", 100)
        y = min(code, key=lambda q: sum(a != b for a, b in zip(q, w)))
        r.rec("rob", 1, list(w), [1, 2, 3, 4], 0, code[y])
    for t in ("M61", "M127", "S5"):
        p = modulus(t)
        for i in range(c.pick(70, 330)):
            r = split(runs, "rob-" + t, t, 25)
            k = c.rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4] + ([5, 6] if c.thorough else []))
            n = 3 * k + 1 + c.rng.choice([0, 0, 0, 1, 2])
            f = [value(c, p) for _ in range(k + 1)]
            z = c.rng.randrange(5)
            if z == 0:
                f = f[:1] + [0] * k
            elif z == 1:
                f = [0] * (k + 1)
            canon = c.rng.randrange(3) == 0
            xs = list(range(1, n + 1)) if canon else points(c, p, n, zero=c.rng.randrange(4) == 0)
            ys = [ev(p, f, x) for x in xs]
            over = c.rng.randrange(8) == 0
            cnt = c.rng.randint(k + 1, 3 * k + 1) if over and k else c.rng.choice([0, k, k, c.rng.randint(0, k)])
            errs = c.rng.sample(range(3 * k + 1), cnt)
            q = c.rng.choice([0, 1, 2, 2, 3])
            g = close(c, p, f, xs, [j for j in range(3 * k + 1) if j not in errs])
            w = list(ys)
            for j in errs:
                w[j] = (w[j] + 1) % p if q == 0 else 0 if q == 1 else ev(p, g, xs[j]) if q == 2 else value(c, p)
            if canon and not over:
                r.rec("rob", k, w, None, 0, f)
            r.rec("rob", k, w, xs, 0, f)
            if c.rng.randrange(8) == 0 and k:
                r.rec("rob", k, ys[:3 * k], xs, 0, f)
                r.rec("rob", k, ys, xs[:3 * k], 0, f)
        for k in (5, 7) if p > 100 else ():
            r = Calls("large-%d-%s" % (k, t), t)
            n = 3 * k + 1
            f = [value(c, p) for _ in range(k + 1)]
            for cnt in (0, 1, k - 1, k):
                w = [ev(p, f, x + 1) for x in range(n + 1)]
                for j in c.rng.sample(range(n), cnt):
                    w[j] = (w[j] + c.rng.choice([1, p - 1, c.rng.randrange(1, p)])) % p
                r.rec("rob", k, w, None, 0, f)
            runs.append(r)
        # every set of wrong positions, t = 2
        f = [value(c, p) for _ in range(3)]
        r = Calls("pos-" + t, t)
        for errs in c.rng.sample(list(itertools.combinations(range(7), 2)), c.pick(10, 21)) + [(i,) for i in range(7)]:
            w = [(ev(p, f, x) + (c.rng.randrange(1, p) if x - 1 in errs else 0)) % p for x in range(1, 8)]
            r.rec("rob", 2, w, list(range(1, 8)), 0, f)
        runs.append(r)
    conform(c, runs, "robust reconstruction, all words over GF(7) and error patterns over the fields")


def S04(c):
    design(c, "packed")
    runs = []
    for s in itertools.product(range(7), repeat=2) if c.thorough else c.rng.sample(list(itertools.product(range(7), repeat=2)), 10):
        r = split(runs, "dist", "S3", 3)
        slots = [0, 6]
        r.pack("deg", list(s), [], 2, 4, 150, seed(c), slots)
        r.pack("deg", list(s), [], 3, 4, 900, seed(c), slots)
        r.pack("sec", [s[0]], [], 2, 3, 900, seed(c), [0])
    for t in FIELDS[:3]:
        p = modulus(t)
        big = p > 100
        for i in range(c.pick(45, 400)):
            r = split(runs, "pack-" + t, t, 12)
            k = c.rng.choice([1, 1, 2, 3, 4, 5])
            d = k - 1 + c.rng.choice([0, 1, 1, 2, 3, 5])
            n = d + 1 + c.rng.choice([0, 1, 2])
            if not big and n + k > 29:
                continue
            s = [value(c, p) for _ in range(k)]
            cnt = c.rng.choice([2, d - k + 3, 12])
            slots = [-x % p for x in range(k)]
            r.pack("deg", s, [], d, n, cnt, seed(c), slots)
            if c.rng.randrange(4) == 0:        # too many secrets
                r.pack("deg", s, [], max(k - 2, 0), n, 1, seed(c), slots)
            pt = c.rng.choice([0, p - 1, p - 2, p - 3, p - 4 - d])
            r.pack("at", s[:1], [pt], d, n, cnt, seed(c), [pt])
            r.pack("sec", s[:1], [], d, n, cnt, seed(c), [0])
            neg = [(p - x) % p for x in c.rng.sample(range(0, 2 * d + 3), d + 1)] if big else [(p - x) % p for x in c.rng.sample(range(0, 12), min(d + 1, 12))]
            if len(neg) == d + 1 and (big or n < 19):
                r.pack("pts", s, neg, d, n, cnt, seed(c), neg[:k])
            if c.rng.randrange(4) == 0:
                r.pack("pts", s, neg[:k - 1], k - 2 if k > 1 else 0, n, 1, seed(c), neg[:k - 1]) if k > 1 else None
        for i in range(c.pick(30, 300)):
            r = split(runs, "unpack-" + t, t, 40)
            n = c.rng.randint(1, 8)
            sh = [value(c, p) for _ in range(n)]
            k = c.rng.randint(1, 5)
            r.unpack("len", sh, k, [], [-x % p for x in range(k)])
            pts = [c.rng.choice([0, 1, n, n + 1, p - 1, value(c, p)]) % p for _ in range(k)]
            r.unpack("pts", sh, 0, pts, pts)
            r.unpack("at", sh, 0, pts[:1], pts[:1])
            r.unpack("poly", sh, 0, pts, pts)
            r.unpack("sec", sh, 0, [], [0])
            # evaluation form
            x, y = points(c, p, n, zero=True), [value(c, p) for _ in range(n)]
            z = pts + [x[0]]
            r.add(["ev", "xy", r.h(x), r.h(y)], kind="xy", x=r.L(x), y=r.L(y))
            r.add(["ev", "xy", r.h(x), r.h(y[1:])], kind="xy", x=r.L(x), y=r.L(y[1:]))
            r.add(["ev", "start", r.h(x[:1]), r.h(y)], kind="start", x=r.L(x[:1]), y=r.L(y))
            r.add(["ev", "y", "-", r.h(y)], kind="y", x=[], y=r.L(y))
            r.add(["ev", "const", "-", r.h(y[:1])], kind="const", x=[], y=r.L(y[:1]))
            if c.rng.randrange(4) == 0:
                r.add(["ev", "xy", "-", "-"], kind="xy", x=[], y=[])
                r.add(["ev", "start", r.h(x[:1]), "-"], kind="start", x=r.L(x[:1]), y=[])
                r.add(["ev", "none", "-", "-"], kind="none", x=[], y=[])
            r.add(["evat", r.h(x), r.h(y), r.h(z)], x=r.L(x), y=r.L(y), z=r.L(z))
            u = x if c.rng.randrange(3) else c.rng.choice([x[1:] + x[:1], points(c, p, n, zero=True), x[:-1] + [x[-1] + 1], x + [(max(x) + 1) % p]] if n > 1 else [[(x[0] + 1) % p]])
            if len(set(v % p for v in u)) == len(u):
                u = [v % p for v in u]
                v = [value(c, p) for _ in u]
                for op in ("evadd", "evsub"):
                    r.add([op, r.h(x), r.h(y), r.h(u), r.h(v), r.h(z)], x=r.L(x), y=r.L(y), u=r.L(u), v=r.L(v), z=r.L(z))
        if big:
            # many points at once, more values than fit in a byte
            for n in (20, 40):
                r = Calls("many-%d-%s" % (n, t), t)
                x, y = points(c, p, n, zero=True), [value(c, p) for _ in range(n)]
                z = [c.rng.choice([0, 1, x[0], x[-1], p - 1, value(c, p), value(c, p)]) for _ in range(24)] + [0, 0, 1, 1]
                r.add(["evat", r.h(x), r.h(y), r.h(z)], x=r.L(x), y=r.L(y), z=r.L(z))
                r.unpack("pts", y[:12], 0, z, z)
                r.unpack("poly", y[:12], 0, z, z)
                r.unpack("len", y[:12], 18, [], [-v % p for v in range(18)])
                runs.append(r)
            r = Calls("wide-" + t, t)
            y = [value(c, p) for _ in range(300)]
            r.add(["ev", "start", r.h([p - 5]), r.h(y)], kind="start", x=r.L([p - 5]), y=r.L(y))
            r.add(["ev", "y", "-", r.h(y)], kind="y", x=[], y=r.L(y))
            runs.append(r)
            r = Calls("bits-" + t, t)
            r.pack("deg", [value(c, p), value(c, p)], [], 3, 4, 64, seed(c), [0, p - 1])
            runs.append(r)
    conform(c, runs, "packed sharings and polynomials in evaluation form")


def S05(c):
    design(c, "additive")
    runs = []
    for s in range(7):
        r = split(runs, "dist", "S3", 4)
        for n, cnt in ((0, 1), (1, 2), (2, 150), (3, 900)):
            r.add(["add", r.h([s]), n, cnt, seed(c)], s=r.L([s])[0], n=n, count=cnt)
    for t in ["M61", "M127", "Z1", "Z7", "Z32", "Z64", "Z65", "Z128"]:
        p = modulus(t)
        for i in range(c.pick(25, 250)):
            r = split(runs, "add-" + t, t, 25)
            n = c.rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 9]) if i else 0
            cnt = c.rng.choice([1, 3, n + 1]) if i > 2 else 64
            s = value(c, p)
            r.add(["add", r.h([s]), n, cnt, seed(c)], s=r.L([s])[0], n=n, count=cnt)
            v = [value(c, p) for _ in range(c.rng.randint(1, 9))]
            r.add(["addrec", r.h(v)], sh=r.L(v))
    conform(c, runs, "additive sharings")


CHECKS = {"S01": S01, "S02": S02, "S03": S03, "S04": S04, "S05": S05}
HARNESSES = ["ss_run"]
_S = "TLA+ model of the sharing schemes checked by TLC over all secrets, randomness, subsets and errors in a small field; recorded calls validated against the same specification"
ABOUT = {"S01": (_S, "sharings over GF(7), GF(31), 2^61-1 and 2^127-1, all orders of subsets, freshness of the coefficients"),
         "S02": (_S, "all single errors for t=1 over GF(7); generated error patterns of weight <= t for larger t and fields"),
         "S03": (_S, "all words for t=1 over GF(7); generated error patterns, also beyond t, for larger t and fields"),
         "S04": (_S, "all kinds of packed sharing, refused calls, evaluation-form polynomials"),
         "S05": (_S, "fields and power-of-two rings, freshness of all but one share")}
