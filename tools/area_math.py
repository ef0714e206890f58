"""M01..M06: rings, vectors, matrices, polynomials, linear algebra."""
import json, re
from core import *

LB = 13
ZK = [1, 2, 3, 5, 7, 8, 9, 13, 16, 31, 32, 33, 48, 61, 62, 63, 64, 65, 72, 100, 126, 127, 128]


def ring(t):
    return {"k": "M", "e": {"M61": 61, "M127": 127, "S3": 3, "S5": 5}[t]} if t[0] != "Z" else {"k": "Z", "e": int(t[1:])}


def modulus(t):
    r = ring(t)
    return 2 ** r["e"] - (1 if r["k"] == "M" else 0)


def bsize(t):
    r = ring(t)
    return (r["e"] + 7) // 8 if r["k"] == "Z" else {3: 1, 5: 1, 61: 8, 127: 16}[r["e"]]


def limbs_of(v, e):
    o = []
    while v:
        o.append(v & 8191)
        v >>= LB
    return o + [0] * ((e + LB - 1) // LB - len(o))


def hexle(v, n):
    return v.to_bytes(n, "little").hex()


def conv(j, e):
    """hex of one element -> limbs, recursively."""
    if isinstance(j, str):
        if j.endswith("!"):
            return ["wrote outside the buffer"]
        return limbs_of(int.from_bytes(bytes.fromhex(j), "little"), e)
    if isinstance(j, list):
        return [conv(x, e) for x in j]
    if isinstance(j, dict):
        return {k: conv(v, e) for k, v in j.items()}
    return j


TEXT = {"xstr", "xstream", "vwrite", "mwrite"}


def to_event(op, res, t):
    """One op (list of tokens) and its recorded result -> the event checked by MathTrace."""
    e = ring(t)["e"]
    name = op[0]
    ev = {"op": name, "ok": res.get("ok", 0)}
    a, b = [], []
    toks = op[1:]
    if name in ("xload", "xraw", "vload", "mload", "xtext"):
        a = [int(x) for x in toks[:-1]]
        b = list(bytes.fromhex(toks[-1])) if toks[-1] != "-" else []
    elif name == "xint":
        v = int(toks[1])
        a = [int(toks[0]), 1 if v < 0 else 0]
        b = list(abs(v).to_bytes(8, "little"))
    elif name in ("xrand", "vrand", "vprand", "mrand"):
        a = [int(x) for x in toks[1:]]
        ev["from"] = a[1] if name == "vprand" else 0
    else:
        a = [int(x) for x in toks]
    ev["a"], ev["b"] = a, b
    if ev["ok"]:
        r = res["r"]
        if name in TEXT:
            ev["r"] = list(bytes.fromhex(r)) if not r.endswith("!") else ["outside"]
        elif name == "mrand":
            ev["dim"] = [r[0]["r"], r[0]["c"]]
            ev["r"] = [conv(x["d"], e) for x in r]
        else:
            ev["r"] = conv(r, e)
    return ev


class Prog:
    """A program for the register machine; tracks shapes so that only legal calls are made."""

    def __init__(self, rng, t, name):
        self.rng, self.t, self.name = rng, t, name
        self.p, self.n = modulus(t), bsize(t)
        self.ops = []
        self.vl, self.ml = [0] * 5, [(0, 0)] * 5

    def do(self, *toks):
        self.ops.append([str(x) for x in toks])

    def val(self):
        """A byte-string value: boundary values and random ones, canonical or not."""
        r, p, full = self.rng, self.p, 256 ** self.n
        k = r.randrange(10)
        if k < 3:
            v = r.randrange(p)
        elif k < 6:
            v = r.choice([0, 1, 2, 3, p - 1, p - 2, p - 3, p // 2, p // 2 + 1, (p + 1) // 2, p, p + 1, full - 1, full - 2, full // 2])
        elif k < 8:
            v = (1 << r.randrange(8 * self.n)) + r.choice([-1, 0, 1])
        elif k < 9:
            v = r.randrange(8)
        else:
            a, b = sorted((r.randrange(8 * self.n + 1), r.randrange(8 * self.n + 1)))
            v = (1 << b) - (1 << a)
        return v % full

    def small(self):
        return self.rng.choice([0, 0, 1, 1, 2, 3, self.p - 1, self.rng.randrange(self.p)]) % self.p

    def load(self, d, v=None):
        self.do("xload", d, hexle((self.val() if v is None else v) % 256 ** self.n, self.n))

    def vload(self, d, n, f=None):
        f = f or self.val
        self.do("vload", d, n, "".join(hexle(f() % 256 ** self.n, self.n) for _ in range(n)) or "-")
        self.vl[d] = n

    def mload(self, d, r, c, f=None, rows=None):
        f = f or self.val
        vals = [f() for _ in range(r * c)] if rows is None else [x for row in rows for x in row]
        self.do("mload", d, r, c, "".join(hexle(x % 256 ** self.n, self.n) for x in vals))
        self.ml[d] = (r, c)

    def text(self):
        o = ["run %s %s" % (self.name, self.t)] + [" ".join(x) for x in self.ops] + ["end"]
        return "\n".join(o) + "\n"


def execute(exe, progs):
    r = run_cmd([exe], 600, stdin="".join(p.text() for p in progs))
    if r.returncode:
        raise CheckError("math_run failed (%d): %s" % (r.returncode, r.stderr[-500:]))
    out = r.stdout.strip().split("\n")
    if len(out) != len(progs):
        raise CheckError("math_run gave %d lines for %d programs" % (len(out), len(progs)))
    lines = []
    for p, l in zip(progs, out):
        parts = l.split("\t")
        if parts[0] != p.name:
            raise CheckError("math_run lines out of order")
        evs = []
        e = ring(p.t)["e"]
        for i, x in enumerate(parts[1:]):
            d = json.loads(x)
            if d.get("e") == "bad":
                raise CheckError("math_run: " + d["why"])
            if d.get("e") == "crash":
                evs.append({"op": "crash", "why": d["why"]})
                break
            if "dump" in d:
                q = {k: conv(v, e) for k, v in d["dump"].items()}
                q["op"] = "dump"
                evs.append(q)
            else:
                evs.append(to_event(p.ops[i], d, p.t))
        if not evs or evs[-1]["op"] not in ("crash", "dump"):
            evs.append({"op": "crash", "why": "the program ended early"})
        lines.append(json.dumps({"id": p.name, "type": p.t, "ring": ring(p.t), "ev": evs}))
    return lines


def conform(c, progs, label, exe=None):
    exe = exe or build("math_run")
    lines = execute(exe, progs)
    c.cov["operations"] = c.cov.get("operations", 0) + sum(len(p.ops) for p in progs)
    for p in progs[:2]:
        c.sample({"program": p.name, "type": p.t, "ops": [" ".join(x) for x in p.ops[:8]]})

    def describe(i, d, ev):
        p = progs[i]
        op = p.ops[ev - 1] if 0 < ev <= len(p.ops) else ["final state"]
        e = d["ev"][ev - 1] if 0 < ev <= len(d["ev"]) else {}
        return ("math/%s/%s" % (p.t, op[0]), "%s on %s: call %d, %s gave %s" % (p.name, p.t, ev, " ".join(op)[:200], json.dumps(e)[:300]), p.text())
    c.validate("MathTrace", lines, describe, rerun=lambda i: execute(exe, [progs[i]])[0], label=label)


# ---------------------------------------------------------------- elements
XBIN = ["xadd", "xsub", "xmul", "xdiv"]
XINP = ["xaddi", "xsubi", "xmuli", "xdivi"]


def xstep(P, text=True):
    r = P.rng
    a, b, d = r.randrange(6), r.randrange(6), r.randrange(6)
    k = r.randrange(16)
    if k < 3:
        P.load(d)
    elif k < 7:
        P.do(r.choice(XBIN), d, a, b)
    elif k < 10:
        P.do(r.choice(XINP), a, b)
    elif k < 11:
        P.do(r.choice(["xneg", "xnegated"]), d, a)
    elif k < 12:
        P.do(r.choice(["xnegi", "xinvi"]), a)
    elif k < 13:
        P.do(r.choice(["xinv", "xcopy", "xround"]), d, a)
    elif k < 15:
        P.do(r.choice(["xeq", "xne"]), a, b)
    elif P.t[0] == "Z":
        if r.randrange(2):
            P.do("xlsb", a)
        else:
            w = 8 if ring(P.t)["e"] <= 64 else 16
            P.do("xraw", d, hexle(r.choice([r.randrange(256 ** w), 256 ** w - 1, P.p % 256 ** w, (P.p + 1) % 256 ** w, P.val()]), w))
    elif P.t[0] == "M":
        P.do("xint", d, r.choice([0, 1, -1, 2, -2, 2 ** 31 - 1, -2 ** 31, 2 ** 31 - 2, 1 - 2 ** 31, r.randrange(-2 ** 31, 2 ** 31), r.randrange(-9, 10)]))
    else:
        P.load(d)


def boundary(t):
    p, n = modulus(t), bsize(t)
    bits = ring(t)["e"]
    s = {0, 1, 2, 3, p - 1, p - 2, p - 3, p // 2, p // 2 + 1, p // 2 - 1}
    for i in (7, 8, 13, 16, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 95, 96, 120, 125, 126, 127):
        if i <= bits:
            s |= {(2 ** i - 1) % p, 2 ** i % p, (2 ** i + 1) % p}
    return sorted(x for x in s if 0 <= x < p)


def pairs(c, t, name, vals, ops, limit=None):
    """Every operator on pairs of the given values, in both operand orders and with the operand itself."""
    out = []
    P = Prog(c.rng, t, "%s-0" % name)
    todo = [(a, b) for a in vals for b in vals]
    if limit and len(todo) > limit:
        todo = c.rng.sample(todo, limit)
    for i, (a, b) in enumerate(todo):
        P.load(0, a)
        P.load(1, b)
        for op in ops:
            P.do(op, *((2, 0, 1) if op in XBIN else (0, 1)))
            if op in XINP:
                P.load(0, a)
        if len(P.ops) > 300:
            out.append(P)
            P = Prog(c.rng, t, "%s-%d" % (name, len(out)))
    out.append(P)
    return out


def singles(c, t, name, vals):
    out, P = [], Prog(c.rng, t, "%s-0" % name)
    for v in vals:
        P.load(0, v)
        for op in ("xneg", "xnegated", "xinv", "xround"):
            P.do(op, 1, 0)
        P.do("xinvi", 0)
        P.load(2, v)
        P.do("xnegi", 2)
        P.do("xsubi", 2, 2)
        P.load(3, v)
        P.do("xdivi", 3, 3)
        P.do("xaddi", 3, 3)
        P.do("xmuli", 3, 3)
        P.do("xeq", 0, 3)
        if t[0] == "Z":
            P.do("xlsb", 0)
        if len(P.ops) > 300:
            out.append(P)
            P = Prog(c.rng, t, "%s-%d" % (name, len(out)))
    out.append(P)
    return out


def walk(c, t, name, runs, length, step):
    out = []
    for i in range(runs):
        P = Prog(c.rng, t, "%s-%s-%d" % (name, t, i))
        for _ in range(length):
            step(P)
        out.append(P)
    return out


def ring_model(c):
    c.model("RingDesign", "ring axioms, canonical forms and encodings, all elements of GF(7), GF(31) and Z/2^K", consts=dict(BIG="TRUE" if c.thorough else "FALSE"),
            invariants=["Laws", "Codec"], deadlock=False)


def M04(c):
    ring_model(c)
    ps = []
    for t in ("M61", "M127"):
        b = boundary(t)
        ps += pairs(c, t, "pair-" + t, b, XBIN + XINP + ["xeq", "xne"], c.pick(450, None))
        ps += singles(c, t, "one-" + t, b)
        ps += walk(c, t, "walk", c.pick(30, 300), c.pick(60, 120), xstep)
        P = Prog(c.rng, t, "int-" + t)
        for v in [0, 1, -1, 2, -2, 2 ** 31 - 1, -2 ** 31, 1 - 2 ** 31, 65536, -65536] + [c.rng.randrange(-2 ** 31, 2 ** 31) for _ in range(40)]:
            P.do("xint", 0, v)
            P.do("xint", 1, -v if v > -2 ** 31 else 0)
            P.do("xadd", 2, 0, 1)
            P.do("xmul", 3, 0, 1)
        ps.append(P)
    conform(c, ps, "field operators on boundary pairs and random programs")


def mangle(r, s):
    if not s:
        return "x"
    i = r.randrange(len(s))
    return s[:i] + r.choice(list(":;/@G`g{}.,-+ xzOI[]^_!~=") + ["\n", "\x7f", "é"[:1]]) + s[i + 1:]


def texts(P, count):
    import base64
    r = P.rng
    full = 2 ** (64 if ring(P.t)["e"] <= 64 else 128)
    for _ in range(count):
        v = r.choice([P.val(), r.randrange(full), r.randrange(P.p), full - 1, P.p, P.p + 1, P.p - 1, 0, 1, r.randrange(256), r.randrange(70000)]) % full
        base = r.choice([2, 10, 10, 16, 16, 64, 64])
        if base == 2:
            s = bin(v)[2:]
        elif base == 10:
            s = str(v)
        elif base == 16:
            s = "%x" % v
            s = "0" * (len(s) % 2) + s
            s = "".join(x.upper() if r.randrange(2) else x for x in s)
        else:
            n = max(1, (v.bit_length() + 7) // 8)
            n = r.choice([n, n, min(n + 1, full.bit_length() // 8)])
            s = base64.b64encode(v.to_bytes(max(n, (v.bit_length() + 7) // 8), "big")).decode()
        k = r.randrange(8)
        if k == 0:
            s = mangle(r, s)
        elif k == 1 and base in (16, 64):
            s = s[:-1]
        elif k == 2:
            s = {2: "0" * r.randrange(4) + s, 10: "0" * r.randrange(3) + s, 16: "00" * r.randrange(3) + s, 64: "AAAA" * r.randrange(2) + s}[base]
        elif k == 3 and r.randrange(4) == 0:
            s = ""
        elif k == 4 and base == 64:
            s = r.choice(["====", "A===", "=A==", "A=A=", "AA=A", "=AAA", "AAA=", "AA==", "AAAA", "//8=", "+/+/", "/w==", "AAA=AAAA", "AA==AAAA", s + s[-4:] if len(s) <= 8 else s])
        elif k == 5 and base == 2:
            s = s.replace("1", r.choice("12"), 1)
        P.do("xtext", r.randrange(3), base, s.encode("latin1", "replace").hex() or "-")
        if r.randrange(4) == 0:
            P.do("xstr", r.randrange(3))


def M05(c):
    ring_model(c)
    ps = []
    for t in ("M61", "M127"):
        b = boundary(t)
        full = 256 ** bsize(t)
        p = modulus(t)
        raw = sorted(set(b + [p, p + 1, p + 2, 2 * p - 1, 2 * p, 2 * p + 1, full - 1, full - 2, full // 2, full - p] + [2 ** i for i in range(8 * bsize(t))] + [c.rng.randrange(full) for _ in range(c.pick(40, 400))]))
        P = Prog(c.rng, t, "codec-" + t)
        P.do("xsizes")
        for v in raw:
            if v < full:
                P.load(0, v)
                P.do("xwrite", 0)
                P.do("xround", 1, 0)
                P.do("xretext", 2, 0)
                P.do("xstr", 0)
                P.do("xstream", 0)
                P.do("xeq", 0, 1)
            if len(P.ops) > 280:
                ps.append(P)
                P = Prog(c.rng, t, "codec-%s-%d" % (t, len(ps)))
        ps.append(P)
        for i in range(c.pick(20, 200)):
            P = Prog(c.rng, t, "text-%s-%d" % (t, i))
            texts(P, 30)
            ps.append(P)
        for i in range(c.pick(4, 30)):
            P = Prog(c.rng, t, "rand-%s-%d" % (t, i))
            for _ in range(3):
                seed = c.rng.randbytes(16).hex()
                P.do("xrand", seed, 80)
                P.do("vrand", seed, 70)
                P.do("vprand", seed, 90, c.rng.randrange(20))
                P.do("mrand", seed, 9, 8)
            ps.append(P)
    conform(c, ps, "encodings, texts and sampling of field elements")


def M06(c):
    ring_model(c)
    ps = []
    for k in ZK:
        t = "Z%d" % k
        if k <= (3 if not c.thorough else 5):
            ps += pairs(c, t, "all-" + t, range(2 ** k), XBIN + XINP + ["xeq", "xne"])
        else:
            ps += pairs(c, t, "pair-" + t, boundary(t), XBIN + XINP + ["xeq"], c.pick(16, 120))
        ps += singles(c, t, "one-" + t, range(2 ** k) if k <= c.pick(7, 9) else boundary(t)[::c.pick(3, 1)])
        ps += walk(c, t, "walk", c.pick(3, 25), c.pick(50, 100), xstep)
        P = Prog(c.rng, t, "enc-" + t)
        P.do("xsizes")
        for _ in range(c.pick(12, 80)):
            P.load(0)
            P.do("xwrite", 0)
            P.do("xround", 1, 0)
            P.do("xstr", 0)
            P.do("xretext", 3, 0)
            if P.ops[-1] and c.rng.randrange(3) == 0:
                texts(P, 1)
        P.do("xrand", c.rng.randbytes(16).hex(), 80)
        P.do("vrand", c.rng.randbytes(16).hex(), 70)
        ps.append(P)
    conform(c, ps, "operators, inverses, encodings and sampling for every width",
            exe=build("math_run", flags=["-fsanitize=shift", "-fno-sanitize-recover=shift"], variant="shift"))


# ---------------------------------------------------------------- vectors and matrices
def vstep(P, maxlen=5):
    r = P.rng
    d, a, b, x = r.randrange(5), r.randrange(5), r.randrange(5), r.randrange(6)
    L = P.vl
    k = r.randrange(24)
    if k < 3:
        P.vload(d, r.choice([0, 1, 2, 3, 3, 4, maxlen, r.randint(0, 13)]))
        if r.randrange(4) == 0 and L[d]:        # equal but for one entry
            P.do("vcopy", (d + 1) % 5, d)
            L[(d + 1) % 5] = L[d]
            P.load(x)
            P.do("vset", (d + 1) % 5, r.randrange(L[d]), x)
            P.do("veq", d, (d + 1) % 5)
    elif k < 4:
        P.load(x)
    elif k < 5:
        n = r.randrange(4)
        P.do("vnew", d, n)
        L[d] = n
    elif k < 6:
        P.do("vlist", d, r.randrange(6), x, r.randrange(6))
        L[d] = 3
    elif k < 7:
        op = r.choice(["vcopy", "vstd", "vrev", "vround"])
        P.do(op, d, a)
        L[d] = L[a]
    elif k < 8:
        i = r.randrange(L[a] + 1)
        j = r.randrange(i, L[a] + 1)
        P.do("vrange", d, a, i, j)
        L[d] = j - i
    elif k < 9 and L[a] < 9:
        P.do("vemp", a, x)
        L[a] += 1
    elif k < 10:
        P.do(r.choice(["vsize", "vwrite"]), a)
    elif k < 11 and L[a]:
        if r.randrange(2):
            P.do("vset", a, r.randrange(L[a]), x)
        else:
            P.do("vget", x, a, r.randrange(L[a]))
    elif k < 15:
        if r.randrange(4):
            b2 = [i for i in range(5) if L[i] == L[a]]
            b = r.choice(b2)
        P.do(r.choice(["vadd", "vsub", "vmul"]), d, a, b)
        if L[a] == L[b]:
            L[d] = L[a]
    elif k < 17:
        if r.randrange(4):
            b = r.choice([i for i in range(5) if L[i] == L[a]])
        P.do(r.choice(["vaddi", "vsubi", "vmuli"]), a, b)
    elif k < 18:
        if r.randrange(4):
            b = r.choice([i for i in range(5) if L[i] == L[a]])
        P.do("vdot", x, a, b)
    elif k < 19:
        P.do("vsum", x, a)
    elif k < 20:
        P.do("vscale", d, a, x)
        L[d] = L[a]
    elif k < 21:
        P.do("vscalei", a, x)
    elif k < 22 and L[a]:
        P.do("vscalea", a, r.randrange(L[a]))
    elif k < 23:
        P.do("veq", a, b)
    elif L[a]:
        m = r.randrange(5)
        op = r.choice(["vrow", "vcol"])
        P.do(op, m, a)
        P.ml[m] = (1, L[a]) if op == "vrow" else (L[a], 1)


def mstep(P, maxdim=4):
    r = P.rng
    d, a, b, x = r.randrange(5), r.randrange(5), r.randrange(5), r.randrange(6)
    D = P.ml
    k = r.randrange(24)
    full = [i for i in range(5) if D[i][0]]
    if k < 4 or not full:
        P.mload(d, r.randint(1, maxdim), r.randint(1, maxdim), r.choice([P.val, P.small]))
        q = r.randrange(8)
        if q == 0:          # equal but for one entry
            P.do("mcopy", b, d)
            D[b] = D[d]
            P.load(x)
            P.do("mset", b, r.randrange(D[d][0]), r.randrange(D[d][1]), x)
            P.do("meq", d, b)
        elif q == 1:        # the identity but for one entry
            P.do("mid", d, D[d][0])
            D[d] = (D[d][0], D[d][0])
            P.do("misid", d)
            P.load(x, P.small())
            P.do("mset", d, r.randrange(D[d][0]), r.randrange(D[d][1]), x)
            P.do("misid", d)
        return
    a = r.choice(full)
    same = [i for i in range(5) if D[i] == D[a]]
    if k < 5:
        op = r.choice(["mnew", "mid", "mnone", "msq"])
        if op == "mnone":
            P.do(op, d)
            D[d] = (0, 0)
        elif op == "mnew":
            q = (r.randrange(4), r.randrange(4))
            P.do(op, d, *q)
            if q[0] and q[1]:
                D[d] = q
        else:
            n = r.randrange(4)
            P.do(op, d, n)
            if n:
                D[d] = (n, n)
    elif k < 6:
        P.do(r.choice(["mcopy", "mround"]), d, a)
        D[d] = D[a]
    elif k < 7:
        v = r.randrange(5)
        q = r.choice([(1, max(1, P.vl[v])), (max(1, P.vl[v]), 1), (2, max(1, P.vl[v] // 2)), (r.randint(1, 3), r.randint(1, 3))])
        P.do("mvec", d, *q, v)
        if q[0] * q[1] == P.vl[v]:
            D[d] = q
    elif k < 8:
        P.do("mget", x, a, r.randrange(D[a][0]), r.randrange(D[a][1]))
    elif k < 9:
        P.do("mset", a, r.randrange(D[a][0]), r.randrange(D[a][1]), x)
    elif k < 12:
        b = r.choice(same) if r.randrange(4) else b
        P.do(r.choice(["madd", "msub", "mmule"]), d, a, b)
        if D[a] == D[b]:
            D[d] = D[a]
    elif k < 14:
        b = r.choice(same) if r.randrange(4) else b
        P.do(r.choice(["maddi", "msubi", "mmulei"]), a, b)
    elif k < 17:
        cand = [i for i in full if D[i][0] == D[a][1]]
        if cand and r.randrange(5):
            b = r.choice(cand)
        else:
            b = r.choice(full)
            if r.randrange(2) and D[b][0] != D[a][1]:
                P.mload(b, D[a][1], r.randint(1, maxdim))
        P.do("mmul", d, a, b)
        if D[a][1] == D[b][0]:
            D[d] = (D[a][0], D[b][1])
    elif k < 18:
        P.do("mscale", d, a, x)
        D[d] = D[a]
    elif k < 19:
        if r.randrange(2):
            P.do("mscalei", a, x)
        else:
            P.do("mscalea", a, r.randrange(D[a][0]), r.randrange(D[a][1]))
    elif k < 20:
        P.do("mtr", d, a)
        D[d] = (D[a][1], D[a][0])
    elif k < 21:
        n = D[a][0] * D[a][1]
        q = r.choice([(i, n // i) for i in range(1, n + 1) if n % i == 0] + [(D[a][1], D[a][0]), (D[a][0] + 1, D[a][1]), (n + 1, 1)])
        P.do("mres", a, *q)
        if q[0] * q[1] == n:
            D[a] = q
    elif k < 22:
        P.do("meq", a, b)
    elif k < 23:
        P.do(r.choice(["misid", "mdim", "mwrite"]), a)
    else:
        P.load(x, P.small())


M03TYPES = ["M61", "M127", "Z64", "Z7", "Z33", "Z100", "Z128", "Z1"]


def M03(c):
    c.model("LinDesign", "laws of vectors and matrices over GF(7) (2x2 and 2x3)", consts=dict(BIG="TRUE" if c.thorough else "FALSE", KIND='"mat"'),
            invariants=["MatLaws"], deadlock=False)
    ps = []
    for t in M03TYPES:
        lib = t in ("M61", "M127")
        ps += walk(c, t, "vec", c.pick(14 if lib else 5, 120), 60, vstep)
        ps += walk(c, t, "mat", c.pick(14 if lib else 5, 120), 50, lambda P: (vstep if P.rng.randrange(5) == 0 else mstep)(P))
        P = Prog(c.rng, t, "long-" + t)      # longer objects
        for n in (1, 2, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 33, 64, 65):
            P.vload(0, n)
            P.vload(1, n)
            for op in ("vadd", "vsub", "vmul"):
                P.do(op, 2, 0, 1)
            P.do("vdot", 0, 0, 1)
            P.do("vsum", 1, 0)
            P.do("vwrite", 0)
            P.do("vround", 3, 0)
            P.do("veq", 3, 0)
        for (a, b, d) in ((1, 5, 1), (5, 1, 5), (2, 7, 3), (6, 3, 2)):
            P.mload(0, a, b)
            P.mload(1, b, d)
            P.do("mmul", 2, 0, 1)
            P.do("mtr", 3, 2)
            P.do("mround", 4, 0)
            P.do("meq", 4, 0)
        ps.append(P)
        P = Prog(c.rng, t, "large-" + t)
        for (a, b, d) in ((17, 3, 9), (3, 18, 2), (12, 12, 12), (1, 40, 1), (40, 1, 2)):
            P.mload(0, a, b)
            P.mload(1, b, d)
            P.mload(3, a, b)
            P.do("mmul", 2, 0, 1)
            P.do("mtr", 3, 2)
            P.do("mround", 4, 0)
            P.do("meq", 4, 0)
            P.do("misid", 4)
            P.mload(3, a, b)
            for op in ("madd", "msub", "mmule"):
                P.do(op, 4, 0, 3)
            P.do("msubi", 4, 3)
            P.do("mres", 4, b, a)
            P.do("mid", 3, a)
            P.do("misid", 3)
            P.load(0)
            P.do("mset", 3, a - 1, a - 1, 0)
            P.do("misid", 3)
            P.do("mwrite", 3) if a < 20 else None
        ps.append(P)
    conform(c, ps, "random programs over vectors and matrices of every element type")


# ---------------------------------------------------------------- linear algebra
def rank_rows(P, r, c, k, p, sp=None):
    """r x c rows of rank at most k"""
    f = sp or P.small
    base = [[f() for _ in range(c)] for _ in range(k)]
    rows = []
    for _ in range(r):
        co = [P.rng.choice([0, 1, p - 1, P.rng.randrange(p)]) for _ in range(k)]
        rows.append([sum(x * b[j] for x, b in zip(co, base)) % p for j in range(c)])
    return rows


def lin_prog(c, t, name, count, maxn):
    P = Prog(c.rng, t, name)
    r, p = c.rng, modulus(t)
    for _ in range(count):
        n = r.randint(1, maxn)
        k = r.randrange(8)
        f = r.choice([P.small, lambda: r.randrange(p), lambda: r.choice([0, 0, 0, 1, p - 1]), lambda: r.choice([0, 1])])
        if k < 5:       # a square system, often singular, sometimes inconsistent
            rows = rank_rows(P, n, n, r.choice([n, n, max(0, n - 1), r.randint(0, n)]), p, f) if r.randrange(3) else [[f() for _ in range(n)] for _ in range(n)]
            if r.randrange(4) == 0:
                r.shuffle(rows)
            if r.randrange(4) == 0:      # upper/lower triangular with zeros on the diagonal
                rows = [[x if j >= i + r.choice([0, 0, 1]) else 0 for j, x in enumerate(row)] for i, row in enumerate(rows)]
            P.mload(0, n, n, rows=rows)
            if r.randrange(2):
                b = [sum(x * y for x, y in zip(row, [f() for _ in range(n)])) % p for row in rows]
            else:
                b = [f() for _ in range(n)]
            it = iter(b)
            P.vload(0, n, lambda: next(it))
            if r.randrange(8) == 0:
                P.vload(1, n + r.choice([-1, 1]))
                P.do("lsolve", 2, 0, 1)
            P.do("lsolve", 0 if r.randrange(4) == 0 else 1, 0, 0)
            if r.randrange(3) == 0:
                P.do("vcol", 1, 0)
                P.do("laug", 2, 0, 1)
                P.do("lrref", 2)
                P.do("lhas", 2, 1)
                P.do("lhas", 2, 0)
            if r.randrange(3) == 0:      # inverse by reducing [A | I]
                P.do("mid", 1, n)
                P.do("laug", 2, 0, 1)
                P.do("lrref", 2)
        else:
            m = r.randint(1, maxn + 1)
            P.mload(0, n, m, rows=rank_rows(P, n, m, r.randint(0, min(n, m)), p, f) if r.randrange(2) else [[f() for _ in range(m)] for _ in range(n)])
            if k == 5:
                P.load(0, P.small())
                P.do("lswap", 0, r.randrange(n), r.randrange(n))
                P.do("lmulrow", 0, r.randrange(n), 0)
                if n > 1:
                    i, j = r.sample(range(n), 2)
                    P.do("laddrow", 0, i, j, 0)
            P.do("lrref", 0)
            P.do("lrref", 0)
    return P


def all_matrices(c, t, n, m, vals, limit):
    import itertools
    p = modulus(t)
    todo = list(itertools.product(vals, repeat=n * m)) if len(vals) ** (n * m) <= 20000 else [tuple(c.rng.choice(vals) for _ in range(n * m)) for _ in range(limit)]
    if len(todo) > limit:
        todo = c.rng.sample(todo, limit)
    out, P = [], Prog(c.rng, t, "all-%s-%dx%d-0" % (t, n, m))
    for q in todo:
        P.mload(0, n, m, rows=[q[i * m:(i + 1) * m] for i in range(n)])
        if m == n + 1:      # augmented system: solve it and reduce it
            P.mload(1, n, n, rows=[q[i * m:(i + 1) * m - 1] for i in range(n)])
            it = iter(q[i * m + n] for i in range(n))
            P.vload(0, n, lambda: next(it))
            P.do("lsolve", 1, 1, 0)
        P.do("lrref", 0)
        if len(P.ops) > 400:
            out.append(P)
            P = Prog(c.rng, t, "all-%s-%dx%d-%d" % (t, n, m, len(out)))
    out.append(P)
    return out


def M02(c):
    c.model("LinDesign", "reduction, rank and solvability of all small systems", consts=dict(BIG="TRUE" if c.thorough else "FALSE", KIND='"lin"'),
            invariants=["LinLaws"], deadlock=False)
    ps = []
    ps += all_matrices(c, "S3", 1, 2, range(7), 60)
    ps += all_matrices(c, "S3", 2, 3, range(7), c.pick(900, 20000))
    ps += all_matrices(c, "S3", 3, 4, [0, 1], c.pick(700, 4096))
    ps += all_matrices(c, "S3", 3, 3, [0, 1, 6], c.pick(300, 6000))
    for t, cnt in (("M61", c.pick(14, 150)), ("M127", c.pick(14, 150)), ("S5", c.pick(8, 60)), ("S3", c.pick(8, 60))):
        ps += [lin_prog(c, t, "lin-%s-%d" % (t, i), 25, 3 if i % 3 else 6) for i in range(cnt)]
        ps += [lin_prog(c, t, "large-%s-%d" % (t, i), 4, 14) for i in range(c.pick(2, 20))]
    conform(c, ps, "systems of equations and eliminations")


# ---------------------------------------------------------------- polynomials
def pstep(P, maxdeg=5):
    r = P.rng
    d, e, a, b = r.randrange(5), r.randrange(5), r.randrange(5), r.randrange(5)
    k = r.randrange(16)
    if k < 4:
        n = r.choice([0, 1, 1, 2, 2, 3, 4, maxdeg + 1])
        z = r.randrange(3)
        vals = [P.small() for _ in range(n)] + [0] * z
        it = iter(vals)
        v = r.randrange(5)
        P.vload(v, n + z, lambda: next(it))
        P.do("pnew", d, v)
    elif k < 5:
        x = r.randrange(6)
        P.load(x, P.small())
        P.do("pconst", d, x)
    elif k < 6:
        P.do(*r.choice([("pzero", d), ("pcopy", d, a)]))
    elif k < 8:
        P.do("padd", d, a, b)
    elif k < 10:
        P.do("psub", d, a, b)
    elif k < 11:
        if sum(1 for o in P.ops if o[0] == "pmul") < 6:
            P.do("pmul", d, a, b)
    elif k < 13:
        if d == e:
            e = (d + 1) % 5
        P.do("pdiv", d, e, a, b)
    elif k < 15:
        P.load(0, P.small())
        P.do("peval", r.randrange(6), a, 0)
    else:
        P.do("pinfo", a)


def M01(c):
    c.model("PolyDesign", "division with remainder and evaluation, all polynomials of small degree", consts=dict(BIG="TRUE" if c.thorough else "FALSE"),
            invariants=["PolyLaws"], deadlock=False)
    import itertools
    ps = []
    # all pairs of polynomials of degree <= 1 over GF(7), some of degree <= 2 by <= 1
    cs = list(itertools.product(range(7), repeat=2))
    todo = [(a, b) for a in cs for b in cs]
    more = [(a, b) for a in itertools.product(range(7), repeat=3) for b in cs]
    todo = c.rng.sample(todo, c.pick(250, len(todo))) + c.rng.sample(more, c.pick(250, 8000))
    P = Prog(c.rng, "S3", "pairs-0")
    for a, b in todo:
        P.vload(0, len(a), iter(a).__next__)
        P.vload(1, len(b), iter(b).__next__)
        P.do("pnew", 0, 0)
        P.do("pnew", 1, 1)
        P.do("pdiv", 2, 3, 0, 1)
        P.do("pmul", 4, 2, 1)
        P.do("padd", 4, 4, 3)
        P.do("psub", 4, 4, 0)
        P.do("pinfo", 4)
        if len(P.ops) > 400:
            ps.append(P)
            P = Prog(c.rng, "S3", "pairs-%d" % len(ps))
    ps.append(P)
    for t, cnt in (("M61", c.pick(50, 500)), ("M127", c.pick(40, 400)), ("S3", c.pick(40, 300)), ("S5", c.pick(20, 100))):
        ps += walk(c, t, "poly", cnt, 60, pstep)
        for i in range(c.pick(1, 8)):
            P = Prog(c.rng, t, "large-%s-%d" % (t, i))
            for a, b in ((12, 5), (33, 16), (24, 24), (40, 9)):
                z = c.rng.choice([0, 0, 3])
                for q, n in ((0, a), (1, b)):
                    it = iter([c.rng.randrange(1, P.p) if j == n - 1 else P.val() for j in range(n)] + [0] * z)
                    P.vload(q, n + z, lambda: next(it))
                    P.do("pnew", q, q)
                P.do("pdiv", 2, 3, 0, 1)
                P.do("pmul", 4, 2, 1)
                P.do("padd", 4, 4, 3)
                P.do("psub", 3, 4, 0)
                P.do("pinfo", 3)
                P.load(0, P.val())
                P.do("peval", 1, 0, 0)
                P.do("padd", 2, 0, 1)
                P.do("psub", 3, 1, 0)
                P.do("pdiv", 2, 3, 1, 0)
            ps.append(P)
    conform(c, ps, "polynomial programs")


CHECKS = {"M01": M01, "M02": M02, "M03": M03, "M04": M04, "M05": M05, "M06": M06}
HARNESSES = ["math_run"]
_M = "TLA+ register machine (rings, encodings, vectors, matrices, polynomials); recorded runs of generated programs validated by TLC; "
ABOUT = {"M01": (_M + "laws model-checked exhaustively over GF(7)", "all small polynomials over GF(7), random programs over both Mersenne fields"),
         "M02": (_M + "rank and solvability laws model-checked exhaustively", "all small systems, singular and random ones up to 6x6"),
         "M03": (_M + "laws model-checked exhaustively over GF(7)", "random programs with aliasing, refused calls and final dumps of all registers"),
         "M04": (_M + "ring axioms model-checked on small instances", "pairs of boundary values and random programs, both fields"),
         "M05": (_M + "codecs model-checked on small instances", "canonical and non-canonical byte strings, texts in all four bases, sampling"),
         "M06": (_M + "ring axioms model-checked on small instances", "23 widths, small ones exhaustively, encodings against guard pages")}
