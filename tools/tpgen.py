"""Random circuits and run scripts for the TurboPack and DN07 harnesses."""
import random

P61 = (1 << 61) - 1


def value(rng):
    return rng.choice([0, 1, 2, P61 - 1, P61 - 2, 1 << 60, rng.randrange(P61), rng.randrange(P61), rng.randrange(P61)])


def circuit(rng, n, layers, width, n_in, n_out, adds=0.6, empty_layer=0.1, late_inputs=False):
    """List of script commands; gates are numbered from 1 in declaration order."""
    cmds, avail, gid = [], [], 0          # avail: gates usable as operands
    for _ in range(n_in):
        cmds.append("in %d" % rng.randrange(n))
        gid += 1
        avail.append(gid)
    cmds.append("closein")
    for lay in range(layers):
        if lay:
            cmds.append("layer")
        w = 0 if (rng.random() < empty_layer or not avail) else rng.randint(1, max(1, width))
        muls = []
        for _ in range(w):
            while rng.random() < adds and len(cmds) < 4000:
                a, b = rng.choice(avail), rng.choice(avail[-6:])
                cmds.append("add %d %d" % (a, b))
                gid += 1
                avail.append(gid)
            a = rng.choice(avail)
            b = a if rng.random() < 0.1 else rng.choice(avail[-8:])
            cmds.append("mul %d %d" % (a, b))
            gid += 1
            muls.append(gid)
        avail += muls
        if avail:
            for _ in range(rng.randrange(3)):
                cmds.append("add %d %d" % (rng.choice(avail), rng.choice(avail[-5:])))
                gid += 1
                avail.append(gid)
    cmds.append("last")
    if avail:
        for _ in range(n_out):
            cmds.append("out %d %d" % (rng.randrange(n), rng.choice(avail[-10:] + avail[:2])))
            gid += 1
    cmds.append("closeout")
    return cmds


def inputs(rng, cmds, n):
    cnt = [0] * n
    for c in cmds:
        if c.startswith("in "):
            cnt[int(c.split()[1])] += 1
    return ["input %d %s" % (p, " ".join(str(value(rng)) for _ in range(cnt[p]))) for p in range(n)]


def mask_gates(cmds):
    out, gid = [], 0
    for c in cmds:
        k = c.split()[0]
        if k in ("in", "add", "mul", "out"):
            gid += 1
            if k in ("in", "mul"):
                out.append(gid)
    return out


PARAMS = [(1, 0, 1), (3, 0, 2), (4, 1, 2), (5, 2, 2), (5, 0, 3), (6, 1, 3), (7, 2, 3), (8, 3, 3), (9, 4, 3),
          (7, 0, 4), (10, 3, 4), (13, 6, 4), (9, 0, 5), (12, 3, 5), (14, 3, 6), (17, 8, 5), (21, 8, 7)]


def script(rid, mode, variant, npk, seed, yieldp, cmds, extra):
    n, t, k = npk
    if (mode == "fi" or (mode == "dn" and variant == "sep")) and random.Random(seed).random() < (0.5 if mode == "fi" else 1):
        extra = extra + ["scale %d" % (seed + 1)]
    return "\n".join(["run %s %s %s %d %d %d %d %d" % (rid, mode, variant, n, t, k, seed, yieldp)] + cmds + extra + ["end"]) + "\n"


def random_run(rng, rid, mode, variant, npk, size="small", yieldp=None):
    n, t, k = npk
    if size == "small":
        L, W, I, O = rng.randint(1, 3), rng.randint(1, 2 * k + 1), rng.randint(1, 2 * n), rng.randint(0, n + 2)
    elif size == "mid":
        L, W, I, O = rng.randint(2, 5), rng.randint(k, 4 * k + 2), rng.randint(n, 4 * n), rng.randint(1, 3 * n)
    elif size == "many":          # for few parties: many batches of every kind
        L, W, I, O = rng.randint(5, 8), 18 * k, 16 * n, 14 * n
    else:
        L, W, I, O = rng.randint(4, 9), rng.randint(4 * k, 12 * k), rng.randint(4 * n, 10 * n), rng.randint(n, 6 * n)
    cmds = circuit(rng, n, L, W, I, O, empty_layer=0.15 if L > 1 else 0.02)
    ex = inputs(rng, cmds, n)
    if mode == "dummy" or variant == "d5":
        if variant == "d3":
            ex += ["lam %d %d" % (g, value(rng)) for g in mask_gates(cmds)]
        elif variant in ("d1", "d2"):
            ex.append("lamc %d" % value(rng))
        elif variant == "d5" and rng.random() < 0.8:
            ex.append("lamc %d" % value(rng))
    if yieldp is None:
        yieldp = rng.choice([0, 0, 30, 200, 600] if size == "small" and n < 9 else [0, 0, 0, 30])
    return script(rid, mode, variant, npk, rng.randrange(1 << 30), yieldp, cmds, ex)


def cfg_run(rng, rid, mode, variant, npk, yieldp=0):
    n = npk[0]
    cin = [rng.randrange(3) for _ in range(n)]
    if sum(cin) == 0:
        cin[rng.randrange(n)] = 2
    if sum(cin) % 2:
        cin[rng.randrange(n)] += 1
    w = sum(cin) * rng.choice([1, 1, 2, 3])
    cout = [rng.randrange(4) for _ in range(n)]
    ins = ["input %d %s" % (p, " ".join(str(value(rng)) for _ in range(cin[p]))) for p in range(n)]
    if variant == "d3":
        variant = "d5"
    if variant in ("d1", "d2", "d5"):
        ins.append("lamc %d" % value(rng))
    cfg = "cfg %d %d %s %s" % (w, rng.randint(1, 4), " ".join(map(str, cin)), " ".join(map(str, cout)))
    return script(rid, mode, variant, npk, rng.randrange(1 << 30), yieldp, [cfg], ins)


def from_gates(gates, layers, sched, n, rid, npk, rng):
    """A circuit of the design model, with one of its schedules."""
    cmds, lay, closed = [], 1, False
    for g in gates:
        if g["g"] == "in":
            cmds.append("in %d" % (g["a"] - 1))
        elif g["g"] == "add":
            cmds.append("add %d %d" % (g["a"], g["b"]))
        elif g["g"] == "mul":
            while lay < g["lay"]:
                cmds.append("layer")
                lay += 1
            cmds.append("mul %d %d" % (g["a"], g["b"]))
        else:
            cmds.append("out %d %d" % (g["a"] - 1, g["b"]))
    while lay < layers:
        cmds.append("layer")
        lay += 1
    cmds += ["closein", "last", "closeout"]
    ex = inputs(rng, cmds, n)
    if sched:
        ex.append("order " + " ".join(str(x - 1) for x in sched))
    return script(rid, "fi", "sep", npk, 1, 0, cmds, ex)
