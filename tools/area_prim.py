"""H01 (SHA-3) and R01 (the pseudorandom generator)."""
import hashlib, json
from core import *


class Run:
    def __init__(self, name, **head):
        self.name, self.head, self.toks, self.evs = name, head, [], []

    def add(self, tok, **ev):
        self.toks.append(tok)
        ev["op"] = "upd" if tok.split()[0] in ("updv", "chain") else tok.split()[0]
        self.evs.append(ev)


def execute(exe, runs, arg):
    text = "".join("run %s %s\n%s\nend\n" % (r.name, arg(r), "\n".join(r.toks)) for r in runs)
    p = run_cmd([exe], 600, stdin=text)
    out = p.stdout.strip().split("\n")
    if p.returncode or len(out) != len(runs):
        raise CheckError("%s failed (%d): %s" % (exe, p.returncode, p.stderr[-500:]))
    lines = []
    for r, l in zip(runs, out):
        evs = []
        for i, x in enumerate(l.split("\t")[1:]):
            d = json.loads(x)
            if "end" in d:
                evs.append({"op": "end"})
            elif d.get("e") == "crash":
                evs.append({"op": "crash", "why": d["why"]})
                break
            else:
                e = dict(r.evs[i])
                e.update(d)
                if e["op"] == "upd" and d["r"] != []:
                    e["op"] = "returned another object"
                evs.append(e)
        if not evs or evs[-1]["op"] not in ("crash", "end"):
            evs.append({"op": "crash", "why": "ended early"})
        lines.append(json.dumps(dict(r.head, ev=evs)))
    return lines


def conform(c, exe, module, runs, arg, label):
    lines = execute(exe, runs, arg)
    c.cov["calls"] = c.cov.get("calls", 0) + sum(len(r.toks) for r in runs)
    for r in runs[:2]:
        c.sample({"run": r.name, "calls": [t[:60] for t in r.toks[:5]]})

    def describe(i, d, ev):
        r = runs[i]
        call = r.toks[ev - 1] if 0 < ev <= len(r.toks) else "end"
        return ("%s/%s" % (module, r.name), "%s: call %d (%s) gave %s" % (r.name, ev, call[:100], json.dumps(d["ev"][ev - 1])[:300] if 0 < ev <= len(d["ev"]) else "?"),
                "\n".join(r.toks))
    c.validate(module, lines, describe, rerun=lambda i: execute(exe, [runs[i]], arg)[0], label=label)


# ---------------------------------------------------------------- H01
def data(c, n):
    k = c.rng.randrange(6)
    return bytes(n) if k == 0 else b"\xff" * n if k == 1 else c.rng.randbytes(n)


def hx(b):
    return b.hex() or "-"


def feed(c, r, s, m, cuts):
    o = 0
    parts = []
    for k in sorted(cuts) + [len(m)]:
        parts.append(m[o:k])
        o = k
    i = 0
    while i < len(parts):
        if i + 1 < len(parts) and parts[i] and parts[i + 1] and c.rng.randrange(4) == 0:
            r.add("chain %d %s %s" % (s, hx(parts[i]), hx(parts[i + 1])), s=s, d=list(parts[i] + parts[i + 1]))
            i += 2
            continue
        r.add("%s %d %s" % (c.rng.choice(["upd", "updv"]), s, hx(parts[i])), s=s, d=list(parts[i]))
        i += 1


def H01(c):
    for (w, rate) in c.pick([(2, 2), (3, 2)], [(2, 1), (2, 2), (2, 3), (3, 2), (4, 2), (4, 3), (8, 2)]):
        c.model("HashDesign", "all ways of cutting all message lengths, %d bytes per word, %d words per block" % (w, rate),
                consts=dict(W=w, RATE=rate, MAXLEN=3 * w * rate + 2, MAXUPD=2 * w * rate + 1), invariants=["Buffered", "Padded"])
    # the specification itself against an independent implementation
    own = []
    for b in (256, 384, 512):
        for n in (0, 1, 71, 72, 73, 103, 104, 135, 136, 137, 300):
            m = c.rng.randbytes(n)
            d = list(hashlib.new("sha3_%d" % b, m).digest())
            own.append(json.dumps({"b": b, "ev": [{"op": "upd", "s": 1, "d": list(m)}, {"op": "fin", "s": 1, "r": d}, {"op": "end"}]}))
    before = c.traces
    c.validate("HashTrace", own, lambda i, d, ev: (_ for _ in ()).throw(CheckError("Keccak.tla disagrees with hashlib")), label="specification against hashlib")
    c.traces = before
    exe = build("hash_run", with_lib=True)
    runs = []
    for b in (256, 384, 512):
        rate = 200 - b // 4

        def new():
            if not runs or runs[-1].head["b"] != b or len(runs[-1].toks) > 40:
                runs.append(Run("h%d-%d" % (b, len(runs)), b=b))
            return runs[-1]
        # every length up to two words, in one piece and byte by byte
        for n in range(0, c.pick(18, 40)):
            m = data(c, n)
            r = new()
            feed(c, r, 1, m, [])
            r.add("fin 1", s=1)
            if n % 3 == 0:
                feed(c, r, 2, m, list(range(1, n)))
                r.add("fin 2", s=2)
        # around the block boundaries, cut near words and blocks
        for i in range(c.pick(45, 500)):
            n = c.rng.choice([rate, rate, 2 * rate, 3 * rate, 8, 16, rate - 8]) + c.rng.choice([-9, -8, -7, -2, -1, 0, 0, 1, 2, 7, 8, 9])
            m = data(c, max(n, 0))
            cuts = []
            for _ in range(c.rng.choice([1, 1, 2, 3, 6])):
                cuts.append(min(max(0, c.rng.choice([c.rng.randrange(n + 1) if n > 0 else 0, 8 * c.rng.randrange(1 + n // 8 if n > 0 else 1) + c.rng.choice([-1, 0, 1]), rate + c.rng.randint(-1, 1)])), len(m)))
            r = new()
            feed(c, r, 1, m, cuts)
            if c.rng.randrange(3) == 0:      # a copy goes its own way
                r.add("copy 3 1 %s" % c.rng.choice(["c", "="]), s=3, f=1)
                x, y = data(c, c.rng.choice([1, 5, 8, rate])), data(c, c.rng.choice([0, 3, 8, rate + 1]))
                feed(c, r, 3, x, [])
                feed(c, r, 1, y, [])
                r.add("fin 3", s=3)
            r.add("fin 1", s=1)
        # interleaved objects
        for i in range(c.pick(3, 20)):
            r = new()
            for _ in range(10):
                s = c.rng.choice([1, 2, 3])
                feed(c, r, s, data(c, c.rng.choice([0, 1, 3, 7, 8, 9, 20, rate])), [])
            for s in (1, 2, 3):
                r.add("fin %d" % s, s=s)
    if c.thorough:
        for b in (256, 384, 512):
            r = Run("long-%d" % b, b=b)
            feed(c, r, 1, c.rng.randbytes(6000), [c.rng.randrange(6000) for _ in range(9)])
            r.add("fin 1", s=1)
            runs.append(r)
    conform(c, exe, "HashTrace", runs, lambda r: r.head["b"], "hash objects: updates, copies, digests")


# ---------------------------------------------------------------- R01
def R01(c):
    for (bs, mx, ctr) in c.pick([(2, 5, 4), (3, 7, 3)], [(2, 5, 5), (3, 7, 4), (4, 9, 3), (1, 3, 4)]):
        c.model("PRGDesign", "two generators, all requests up to %d bytes, blocks of %d" % (mx, bs),
                consts=dict(BS=bs, MAXREQ=mx, MAXCTR=ctr), invariants=["NoRepeat", "Deterministic", "CountsBlocks", "Ascending"])
    variants = [("plain", [], 0, 0x0123456789ABCDEF),
                ("prgc", ["-DPRG_INITIAL_COUNTER=4294967293", "-DPRG_NONCE=0x8877665544332211"], 4294967293, 0x8877665544332211)]
    if c.thorough:
        variants.append(("prgc", ["-DPRG_INITIAL_COUNTER=-3", "-DPRG_NONCE=5"], -3, 5))
    for (variant, flags, ctr, nonce) in variants:
        exe = build("prg_run", flags=flags, variant=variant)
        head = dict(ctr=list((ctr % 2 ** 64).to_bytes(8, "little")), nonce=list(nonce.to_bytes(8, "little")))
        runs = []

        def seedtok():
            k = c.rng.randrange(5)
            return bytes([0] * 16) if k == 0 else bytes([c.rng.randrange(256)] + [0] * 15) if k == 1 else c.rng.randbytes(16)
        for i in range(c.pick(20, 150) if not flags else c.pick(4, 30)):
            r = Run("prg-%x-%d" % (ctr, i), **head)
            runs.append(r)
            s1 = seedtok()
            for s in (1, 2):
                r.add("new %d %s" % (s, s1.hex()), s=s, seed=list(s1))
            for _ in range(c.pick(22, 30)):
                s = c.rng.choice([1, 1, 2, 3])
                z = c.rng.randrange(14)
                if z < 8:
                    n = c.rng.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 80, 96, 128, 160, c.rng.randrange(80), c.rng.randrange(200)])
                    kind = c.rng.choice(["ptr", "vec", "part", "ret"])
                    size = c.rng.choice([n, n + 1, n + 20, max(n - 1, 0), 0]) if kind == "part" else n
                    r.add("next %d %s %d %d" % (s, kind, n, size), s=s, kind=kind, n=n, size=size)
                elif z == 8:
                    r.add("reset %d" % s, s=s)
                elif z == 9:
                    r.add("ctr %d" % s, s=s)
                elif z == 10:
                    r.add("seed %d" % s, s=s)
                elif z == 11:
                    f = c.rng.choice([1, 2, 3])
                    r.add("copy %d %d" % (s, f), s=s, f=f)
                elif z == 12:
                    x = seedtok()
                    r.add("new %d %s" % (s, x.hex()), s=s, seed=list(x))
                else:
                    r.add("def %d" % s, s=s)
        for n in c.pick([700, 512] + ([] if flags else [4112]), [1000, 5000, 4096, 20000]):
            r = Run("long-%x-%d" % (ctr, n), **head)
            for _ in range(3):
                r.add("next 1 ptr %d %d" % (n, n), s=1, kind="ptr", n=n, size=n)
            runs.append(r)
        conform(c, exe, "PRGTrace", runs, lambda r: "", "generators: requests of all kinds, resets, copies; initial counter %d" % ctr)


CHECKS = {"H01": H01, "R01": R01}
HARNESSES = ["hash_run", "prg_run"]
ABOUT = {"H01": ("TLA+ model of the buffering checked by TLC for all cuts, FIPS 202 written in TLA+; recorded updates and digests of the real objects validated against it",
                 "the buffering model over small words exhaustively; digests of lengths up to three blocks (thorough: 6000 bytes), cut around word and block boundaries, with copies"),
         "R01": ("TLA+ model of the counter discipline checked by TLC, AES-128 counter mode written in TLA+; recorded requests validated against it byte by byte",
                 "all request-size histories of a small model; recorded histories of requests, resets, copies, also with an initial counter that carries across 32 bits")}
