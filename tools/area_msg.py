"""N07: typed messages."""
import json
from core import *

WRAP = ["-Wl," + ",".join("--wrap=" + x for x in ("read", "write", "recv", "send"))]
LV, LM = 20, 12


def plain_exe():
    return build("msg_run", libs=["-lpthread"] + WRAP)


def small_exe():
    return build("msg_run", flags=["-DMAX_VEC_READ_SIZE=%d" % LV, "-DMAX_MAT_READ_SIZE=%d" % LM], variant="lim", libs=["-lpthread"] + WRAP)


PLAIN, RINGS = ["u8", "i32", "u64", "f64", "enum", "pod"], ["m61", "m127", "z5", "z61", "z128", "s7"]


def message(rng, big, cap):
    what = rng.choice("svVMVM")
    t = rng.choice(PLAIN + RINGS if what in "sv" else RINGS)
    a, b = 0, 0
    if what == "M":
        a, b = rng.choice([1, 2, 3, rng.randrange(1, 9)]), rng.choice([1, 2, 3, rng.randrange(1, 9)])
        while a * b > cap[1]:
            a, b = 1 + a // 2, b // 2 or 1
    elif what != "s":
        a = rng.choice([0, 1, 2, 3, rng.randrange(12), rng.randrange(big)])
        if what == "V":
            a = min(a, cap[0])
    return [t, what, a, b, rng.randrange(1, 2 ** 40)]


def N07(c):
    runs = []
    lines = []
    for exe, cap, cnt in ((plain_exe(), (10 ** 9, 10 ** 9), c.pick(260, 5000)), (small_exe(), (LV, LM), c.pick(60, 800))):
        text, meta = [], []

        def seq(kind, ms, seed, split):
            # ms: list of (direction, message); with `split` every endpoint's sends and receives run in threads of their own
            rx = lambda d: 0 if kind[0] == "self" else 1 - d
            th = {}
            for d, m in ms:
                th.setdefault((d, 1) if split or kind[0] == "self" else (d, 2), []).append([1, d] + m)
                th.setdefault((rx(d), 0) if split or kind[0] == "self" else (rx(d), 2), []).append([0, rx(d)] + m[:4] + [m[4] + 1])
            text.append("seq %s %s %d\n%s\nend" % (kind[0], kind[1], seed, "\n".join(" ".join(str(x) for o in v for x in o) for v in th.values())))
            meta.append((kind, ms))
        ks = [("mem", "mem"), ("self", "self"), ("tcp", "tcp"), ("thr", "tcp"), ("tcp", "thr"), ("thr", "thr")]
        # every kind of message, every element type, followed by another
        for i, (t, w) in enumerate([(t, w) for t in PLAIN + RINGS for w in "sv"] + [(t, w) for t in RINGS for w in "VM"]):
            for n in (0, 1, 2, 5):
                if (w == "s" and n > 1) or (w == "M" and n == 0):
                    continue
                m = [t, w, min(n, 3) if w == "M" else n, 1 + (n + i) % 4 if w == "M" else 0, 1000 + i]
                seq(ks[(i + n) % 6], [(0, m), (0, message(c.rng, 40, cap)), (0, m)], i % 3, True)
        for i in range(cnt):
            k = ks[i % 6]
            ms = [(0 if k[0] == "self" else c.rng.randrange(2), message(c.rng, c.rng.choice([8, 60, 400]), cap)) for _ in range(c.rng.randrange(1, 12))]
            seq(k, ms, c.rng.choice([0, i + 1, i + 1]), k[0] in ("self", "tcp", "thr") and (i // 6) % 3 != 0)
        if cap[0] > LV:
            for i, n in enumerate([255, 256, 257, 4095, 4096, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 70000, 131072]):
                a = [i for i in range(int(n ** .5), 0, -1) if n % i == 0][0]
                for j in range(c.pick(2, 6)):
                    t, w = c.rng.choice([(x, y) for x in PLAIN + RINGS for y in "vVM" if y == "v" or x in RINGS])
                    x, y = c.rng.choice([(n, 1), (1, n), (a, n // a), (n // a, a)])
                    k = ks[(i + j) % 6]
                    seq(k, [(0, message(c.rng, 9, cap)), (0, [t, w, x if w == "M" else n, y if w == "M" else 0, 7000 + i]), (0, message(c.rng, 9, cap)),
                            (0 if k[0] == "self" else 1, message(c.rng, 9, cap))], j, True)
        # announced sizes
        B = 2 ** 25
        anns = []
        if cap[0] == LV:
            odd = [LV - 1, LV, LV + 1, 2 ** 16, 2 ** 25, 2 ** 31, 2 ** 32 - 1]
            for t in ("s7", "m61", "m127", "z5", "z128"):
                for a in sorted(set(list(range(45)) + odd + [2 ** k for k in range(5, 32)] + [2 ** 32 - k for k in range(1, 20)])):
                    anns.append((t, "V", a, 0))
                side = list(range(28)) + [2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 30, 2 ** 24, 2 ** 25, 2 ** 26, 3 * 2 ** 30,
                                          0x55555556, 0x55555555, 0xAAAAAAAB, 0x33333334, 0xCCCCCCCD, 1431655766, 306783379]
                if t in ("m61", "s7") or c.thorough:
                    anns += [(t, "M", a, b) for a in side for b in side]
                else:
                    anns += [(t, "M", c.rng.choice(side), c.rng.choice(side)) for _ in range(200)]
            for _ in range(c.pick(300, 6000)):
                # products that are small modulo 2^32
                a = c.rng.randrange(1, 2 ** 32) | 1
                w = c.rng.randrange(0, 2 * LM)
                b = (pow(a, -1, 2 ** 32) * w) % 2 ** 32
                s = c.rng.randrange(0, 32)
                anns.append((c.rng.choice(["m61", "s7", "m127"]), "M", *c.rng.choice([(a, b), (b, a), (2 ** s, 2 ** (32 - s) if s else 0), (2 ** s * 3, 2 ** (31 - s))])))
            anns = [(t, k, a, b) for t, k, a, b in anns if a < 2 ** 32 and b < 2 ** 32]
        else:
            for t, full in (("s7", True), ("m61", c.thorough), ("z128", False)):
                anns += [(t, "V", a, 0) for a in ([B - 1, B] if full else []) + [B + 1, B + 2, 2 * B - 1, 2 * B, 2 * B + 3, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - B]]
                mid = [2 ** k + d for k in range(6, 21) for d in (-1, 0, 1)]
                anns += [(t, "V", a, 0) for a in c.rng.sample(mid, c.pick(12, len(mid)))] + [(t, "M", *c.rng.choice([(1, a), (a, 1), (a // 3, 3), (2, a // 2), (a // 64, 64)])) for a in c.rng.sample(mid, c.pick(12, len(mid)))]
                yes = [(1, B), (B, 1), (4096, 8192), (5792, 5793), (2, B // 2), (3, B // 3)]
                no = [(1, B + 1), (B + 1, 1), (4097, 8192), (5793, 5793), (2, B // 2 + 1), (3, B // 3 + 1), (65536, 65536), (2 ** 31, 2), (2, 2 ** 31), (65537, 65536), (65536, 65537),
                      (2 ** 32 - 1, 2 ** 32 - 1), (2 ** 32 - 1, 1), (1, 2 ** 32 - 1), (2 ** 31, 2 ** 31), (2 ** 16 + 1, 2 ** 16 - 1), (3, 1431655766), (1431655766, 3), (B, B), (2 ** 30, 4),
                      (641, 6700417), (6700417, 641), (2 ** 31 + 1, 2)]
                zero = [(0, 0), (0, 5), (5, 0), (0, 2 ** 32 - 1), (2 ** 32 - 1, 0), (0, B + 1)]
                anns += [(t, "M", a, b) for a, b in (yes if full else []) + no + zero]
        text += ["ann %s %s %d %d" % x for x in anns]
        r = run_cmd([exe], 800, stdin="\n".join(text) + "\n")
        if r.returncode:
            raise CheckError("msg_run: code %d %s" % (r.returncode, r.stderr[-300:]))
        cur, seqs, res = [], [], []
        for l in r.stdout.split("\n"):
            if l == "seq\tdone":
                seqs.append(cur)
                cur = []
            elif l.startswith("seq\t"):
                cur.append(json.loads(l[4:]))
            elif l.startswith("ann\t"):
                res.append(json.loads(l[4:]))
        if len(seqs) != len(meta) or len(res) != len(anns):
            raise CheckError("msg_run: %d of %d histories, %d of %d sizes" % (len(seqs), len(meta), len(res), len(anns)))
        for (k, ms), x in zip(meta, seqs):
            o = x[0] if x and "ev" in x[0] else {"ev": [], "done": 0, "ann": {}, "why": x[-1].get("why", "") if x else ""}
            if len(x) > 1:
                o["done"] = 0
                o["why"] = x[-1].get("why", "")
            if o["done"] and len(o["ev"]) != 2 * len(ms):
                o["done"] = 0
            runs.append(("seq", k, ms))
            lines.append(json.dumps(o))
        for a, x in zip(anns, res):
            crash = x.get("why") if "e" in x else None
            runs.append(("ann", cap, a, x))
            lines.append(json.dumps({"ev": [] if crash else [["announced", 0, "", ""]], "done": 0 if crash else 1, "ann": {} if crash else x, **({"why": crash} if crash else {})}))
        c.cov["announced sizes"] = c.cov.get("announced sizes", 0) + len(anns)
        c.cov["histories"] = c.cov.get("histories", 0) + len(meta)
    c.sample(json.loads(lines[0]))
    c.sample(json.loads(lines[-1]))

    def describe(k, d, ev):
        x = runs[k]
        if x[0] == "seq":
            e = d["ev"][ev - 1] if 0 < ev <= len(d["ev"]) else None
            return ("typed/%s-%s/%s" % (x[1][0], x[1][1], e[2] if e else d.get("why")), "messages %s over %s-%s: %s" % (
                json.dumps(x[2])[:300], x[1][0], x[1][1], "event %d is %s" % (ev, json.dumps(e)[:300]) if e else "did not finish: %s" % d.get("why", "")), None)
        t, w, a, b = x[2]
        lim = x[1][0 if w == "V" else 1]
        what = "%s of %s, limit %s, announced size %s" % ("vector" if w == "V" else "matrix", t, lim if lim < 10 ** 9 else "2^25", a if w == "V" else "%d x %d" % (a, b))
        return ("announced/%s/%s/%d/%d" % (w, t, a, b), what + ": " + (d.get("why") or "%s after reading %d bytes, largest allocation %d" % (
            "accepted" if d["ann"]["ok"] else "refused", d["ann"]["read"], d["ann"]["most"])), None)
    c.validate("MsgTrace", lines, describe, label="typed message histories and announced sizes")


CHECKS = {"N07": N07}
HARNESSES = [plain_exe, small_exe]
ABOUT = {"N07": ("TLA+ model of typed message queues and of the size limits; histories of real channels and answers to announced sizes validated by TLC",
                 "every message kind and element type, histories of up to 11 messages sampled; announced sizes: exhaustive around small limits, boundary and overflowing sizes for the default limit 2^25; matrices with a zero side may be accepted or refused")}
