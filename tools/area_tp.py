"""T01..T09: TurboPack."""
import json, os, re, concurrent.futures
from core import *
import tpgen


def execute(exe, scripts, tmp, tag="s"):
    """Runs the harness on the run scripts (in parallel); one JSON line per run."""
    n = min(CORES, max(1, len(scripts)))
    parts = [list(range(i, len(scripts), n)) for i in range(n)]

    def one(i):
        sp, op = os.path.join(tmp, "%s%d.txt" % (tag, i)), os.path.join(tmp, "%s%d.nd" % (tag, i))
        with open(sp, "w") as f:
            f.write("".join(scripts[j] for j in parts[i]))
        r = run_cmd([exe, sp, op], 700)
        if r.returncode:
            raise CheckError("harness failed (%d): %s" % (r.returncode, (r.stdout + r.stderr)[-1000:]))
        ls = [x for x in open(op).read().split("\n") if x]
        os.unlink(op)
        if len(ls) != len(parts[i]):
            raise CheckError("harness wrote %d of %d runs" % (len(ls), len(parts[i])))
        return ls
    out = [None] * len(scripts)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for i, ls in enumerate(ex.map(one, range(n))):
            for j, l in zip(parts[i], ls):
                out[j] = l
    return out


def brief(d, ev):
    evs = d["ev"]
    e = evs[ev - 1] if 0 < ev <= len(evs) else {"e": "?"}
    s = {k: e[k] for k in ("e", "p", "op", "lay", "why", "who", "left") if k in e}
    return "n=%d t=%d k=%d %s/%s event %d of %d not allowed: %s" % (
        d["n"], d["t"], d["k"], d["mode"], d["variant"], ev, len(evs), json.dumps(s))


def conform(c, scripts, label, mutate=None):
    exe = build("tp_run")
    post = mutate or (lambda lines: lines)
    lines = post(execute(exe, scripts, c.tmp))
    for l, s in list(zip(lines, scripts))[:2]:
        d = json.loads(l)
        c.sample({"run": d["id"], "n": d["n"], "t": d["t"], "k": d["k"], "mode": d["mode"], "variant": d["variant"],
                  "script": s[:300], "events": len(d["ev"])})

    def describe(i, d, ev):
        return "tp/%s/%s" % (d["mode"], d["id"]), brief(d, ev), scripts[i]

    def rerun(i):
        return post(execute(exe, [scripts[i]], c.tmp, "again"))[0] if mutate is None else lines[i]
    c.validate("TPTrace", lines, describe, rerun=rerun, consts={"E": "61"}, label=label)
    return lines


WIDE = [(17, 0, 9), (19, 2, 9), (27, 4, 12)]       # many secrets in one sharing
MANY = [(4, 1, 2), (3, 0, 2), (5, 2, 2), (1, 0, 1), (6, 1, 3)]        # few parties, so that circuits can have many batches


def pool(c, mode, variants, small, mid, params, cfgs=0, big=0, wide=0, many=0):
    out = []
    for i in range(wide):
        out.append(tpgen.random_run(c.rng, "w%d" % i, mode, variants[i % len(variants)], WIDE[(i + SEED) % len(WIDE)]))
    for i in range(many):
        out.append(tpgen.random_run(c.rng, "n%d" % i, mode, variants[i % len(variants)], MANY[(i + SEED) % len(MANY)], "many"))
    for i in range(small):
        out.append(tpgen.random_run(c.rng, "s%d" % i, mode, variants[i % len(variants)], params[i % len(params)]))
    for i in range(mid):
        out.append(tpgen.random_run(c.rng, "m%d" % i, mode, variants[i % len(variants)], params[(i * 5 + 1) % len(params)], "mid"))
    for i in range(cfgs):
        out.append(tpgen.cfg_run(c.rng, "c%d" % i, mode, variants[i % len(variants)], params[(i * 3 + 2) % len(params)]))
    for i in range(big):
        out.append(tpgen.random_run(c.rng, "b%d" % i, mode, variants[i % len(variants)], params[(i * 7 + 3) % len(params)], "big"))
    return out


def norecord(s):
    return s.replace("\nend\n", "\nnorecord\nwhole\nend\n")


SM = tpgen.PARAMS[:9]
MD = tpgen.PARAMS[:14]
DESIGN_INV = ["Correct", "Drained", "Online", "Triples", "OwnMasks", "EnoughOfEach"]


def design(c, inv, thorough_extra=True):
    """The protocol design itself, all interleavings, small field."""
    sets = [(3, 0, 2, "TRUE", 5, "{1}", "{1,3,4}"), (4, 1, 2, "FALSE", 5, "{2}", "{1}")]
    if c.thorough:
        sets = [(3, 0, 2, "TRUE", 5, "{1,2,3}", "{1,2,3,4}"), (4, 1, 2, "FALSE", 5, "{1,2}", "{1,2}"),
                (4, 1, 2, "TRUE", 5, "{1}", "{3}"), (5, 2, 2, "FALSE", 5, "{1}", "{1}"), (5, 0, 3, "FALSE", 5, "{1}", "{4}"),
                (4, 1, 2, "FALSE", 3, "{1,2,3}", "{1}")]
    for (n, t, k, h, e, s, cs) in sets:
        c.model("TPDesign", "n=%d t=%d k=%d halves=%s GF(2^%d-1) seeds %s circuits %s: all interleavings" % (n, t, k, h, e, s, cs),
                consts=dict(N=n, T=t, K=k, HALVES=h, E=e, SEEDS=s, CIRCS=cs), view="NoHist", invariants=inv, timeout=850)
    c.assume.append("the design model uses a field of 31 (or 7) elements, up to 5 parties and pseudo-random dealers")


def schedules(c, count):
    """Operation schedules that the design model allows, from TLC's simulator."""
    out = []
    for (n, t, k, cs) in ((3, 0, 2, "{1,2,3}"), (4, 1, 2, "{1,2}"), (5, 2, 2, "{1}")):
        r = tlc("TPDesign", consts=dict(N=n, T=t, K=k, HALVES="FALSE", E=5, SEEDS="{1}", CIRCS=cs), invariants=["Emit"],
                simulate="num=%d" % count, extra=["-depth", "400", "-seed", str(SEED)], deadlock=True, timeout=400, workers=1)
        tlc_ok(r, "schedule generation")
        got = []
        for m in re.finditer(r'"SCHED (.*)"', r["out"]):
            g, L, s = json.loads(m.group(1).replace('\\"', '"'))
            got.append(tpgen.from_gates(g, L, s, n, "sched-%d-%d" % (n, len(got)), (n, t, k), c.rng))
        if not got:
            raise CheckError("no schedules generated:\n" + r["out"][-1500:])
        out += got[:count]
        c.states += r["states"]
    return out


def only(script, op, party, idx, neg=0):
    return "\n".join(x for x in script.split("\n") if not x.startswith("scale")).replace("\nend", "\nonly %s %d %d %d\nend" % (op, party, idx, neg))


def matrices(exe, c, jobs, column):
    """jobs: (name, n, t, op list, script, blocks per op); measures the extraction of every kind of dealing."""
    scripts, meta = [], []
    for (name, n, t, script, blocks) in jobs:
        for op, idxs in blocks:
            for p in range(n):
                for b in idxs:
                    for neg in ((0, 1) if op in TWICE else (0,)):
                        scripts.append(only(script, op.split("/")[0], p, b, neg))
                        meta.append((name, n, t, op, p + 1, script))
    lines = execute(exe, scripts, c.tmp)
    out, where = {}, {}
    pairs = list(zip(lines, meta))
    while pairs:
        l, m = pairs.pop(0)
        d = json.loads(l)
        key = (m[0], m[3])
        row = column(d, m[3])
        if m[3] in TWICE:
            row = with_masks(row, d, json.loads(pairs.pop(0)[0]))
        o = out.setdefault(key, {"id": "%s-%s" % (m[0], m[3].replace("/", "_")), "n": m[1], "t": m[2], "ok": True, "dealer": [], "m": [], "ev": [],
                                 "mode": "extract", "k": d["k"], "variant": m[3], "cols": 0})
        where[key] = m[5]
        if row is None:
            o["ok"] = False
            row = []
        o["cols"] = max(o["cols"], len(row))
        o["dealer"].append(m[4])
        o["m"].append(row)
    ls = []
    for k, o in out.items():
        if any(len(r) != o["cols"] for r in o["m"]):
            o["ok"] = False
            o["m"], o["dealer"], o["cols"] = [], [], 0
        ls.append((json.dumps(o), where[k]))
    return ls


TWICE = ("UnpS",)


def with_masks(row, d, d2):
    """The opened products are a*b + mask: with one dealt sharing and its opposite, half the difference is the mask."""
    u, v = tp_column(d, "ZProdS"), tp_column(d2, "ZProdS")
    if row is None or u is None or v is None or len(u) != len(v):
        return None
    num = lambda x: sum(y << (13 * i) for i, y in enumerate(x))
    half = (tpgen.P61 + 1) // 2
    out = []
    for x, y in zip(u, v):
        z = (num(x) - num(y)) * half % tpgen.P61
        out.append([(z >> (13 * i)) & 8191 for i in range(4)] + [z >> 52])
    return row + out


def extraction(c, exe, jobs, column, label):
    ls = matrices(exe, c, jobs, column)

    def describe(i, d, ev):
        return "extract/%s" % d["id"], "n=%d t=%d %s: some %d dealers' sharings do not determine the correlations by a full-rank combination%s" % (
            d["n"], d["t"], d["variant"], d["n"] - d["t"], "" if d["ok"] else " (a run did not produce them)"), ls[i][1]
    c.validate("Extraction", [x[0] for x in ls], describe, consts={"E": "61"}, label=label)


def tp_column(d, op):
    corr = [e for e in d["ev"] if e["e"] == "corr" and e["p"] == 2]
    if op == "ZProdS":
        v = []
        for e in d["ev"]:
            if e["e"] == "slice" and e["op"] == "ProdS" and e["p"] == 2:
                v += e["s"][0]
        return v or None
    if not corr:
        return None
    e = corr[0]
    if op == "IndS":
        gs = d["gates"]
        return [e["ind"][i] for i in range(len(gs)) if gs[i]["g"] in ("in", "mul")]
    if op == "UnpS":
        return [x for b in e["mb"] for x in (b["a"], b["b"])]
    return [x for b in e["mb"] for x in b["o"]] + [x["o"] for x in e["io"]]


def tp_jobs(c, cnt):
    jobs = []
    for i in range(cnt):
        n, t, k = [(4, 1, 2), (5, 2, 2), (3, 0, 2), (6, 1, 3), (7, 2, 3)][i % 5]
        nin, nmul = c.rng.randint(1, t + 2), c.rng.randint(1, k + 1)
        cmds = ["in %d" % c.rng.randrange(n) for _ in range(nin)] + ["closein"]
        cmds += ["mul %d %d" % (c.rng.randint(1, nin), c.rng.randint(1, nin)) for _ in range(nmul)]
        cmds += ["last", "out %d %d" % (c.rng.randrange(n), nin + 1), "closeout"]
        s = tpgen.script("x%d" % i, "fi", "sep", (n, t, k), i, 0, cmds, tpgen.inputs(c.rng, cmds, n))
        cd = lambda a: (a + t) // (t + 1)
        nmb = (nmul + k - 1) // k
        nio = sum(max(1, -(-sum(1 for x in cmds if x == "in %d" % p) // k)) for p in range(n)) + n
        jobs.append(("x%d" % i, n, t, s, [("IndS", range(cd(nin + nmul))), ("UnpS", range(k * cd(3 * nmb))),
                                           ("ZeroS", range(cd(3 * nmb + nio))), ("ZProdS", range(k * cd(nmb)))]))
    return jobs


def T01(c):
    design(c, ["Correct"])
    conform(c, pool(c, "fi", ["sep", "seq", "conc"], c.pick(34, 200), c.pick(6, 60), MD, cfgs=c.pick(10, 60)), "full runs, every message recorded")
    big = [norecord(s) for s in pool(c, "fi", ["sep", "seq", "conc"], 0, c.pick(8, 60), tpgen.PARAMS, cfgs=c.pick(6, 40), big=c.pick(8, 60))]
    conform(c, big, "large circuits and many parties, whole online phase in one call, outputs recorded")


def T02(c):
    design(c, ["Correct", "Drained"])
    sch = schedules(c, c.pick(12, 150))
    conform(c, sch, "operation schedules generated from the specification, replayed on the code")
    # the same computation under a lock-step and under random schedules with yields inside operations
    groups = []
    for i in range(c.pick(12, 90)):
        npk = MD[i % len(MD)]
        base = tpgen.random_run(c.rng, "g%d" % i, "fi", "sep", npk, "mid" if i % 4 == 3 else "small", yieldp=0)
        groups.append(base)
    scripts, ref_of = [], []
    for gi, b in enumerate(groups):
        head, rest = b.split("\n", 1)
        h = head.split()
        for j in range(c.pick(4, 8)):
            hh = list(h)
            hh[1] += "-%d" % j
            hh[3] = ["sep", "conc", "seq", "conc"][j % 4]
            hh[7] = str(c.rng.randrange(1 << 30))
            hh[8] = str([0, 150, 500, 900][j % 4])
            r2 = rest
            if j == 0:      # reference: the parties take turns operation by operation
                r2 = rest.replace("\nend\n", "\norder %s\nend\n" % "0")
            scripts.append(" ".join(hh) + "\n" + rest)
            ref_of.append(gi * c.pick(4, 8))

    def add_ref(lines):
        tots = []
        for l in lines:
            d = json.loads(l)
            n = d["n"]
            t = [[[] for _ in range(n)] for _ in range(n)]
            for e in d["ev"]:
                if e["e"] == "slice":
                    for q in range(n):
                        t[e["p"] - 1][q] += e["s"][q]
            tots.append(t)
        out = []
        for i, l in enumerate(lines):
            out.append(l[:-1] + ',"tot":%s,"ref":%s}' % (json.dumps(tots[i], separators=(",", ":")),
                                                          json.dumps(tots[ref_of[i]], separators=(",", ":"))))
        return out
    conform(c, scripts, "random schedules with yields at every message, compared with the reference order", mutate=add_ref)
    c.assume.append("channels are reliable and in order (N01); threads of one party interleave at message boundaries")


def T03(c):
    design(c, ["Online"])
    s = pool(c, "fi", ["sep", "seq"], c.pick(24, 150), c.pick(6, 60), MD, cfgs=c.pick(6, 40), wide=c.pick(1, 4), many=c.pick(1, 8))
    s += pool(c, "dummy", ["d3", "d5"], c.pick(12, 80), c.pick(4, 30), SM, cfgs=2)
    conform(c, s, "every masked value, hand-out and returned share of the online phase")


def T04(c):
    design(c, ["Online"])
    s = pool(c, "dummy", ["d1", "d2", "d3", "d4", "d5"], c.pick(45, 300), c.pick(15, 100), MD, cfgs=c.pick(15, 60), wide=c.pick(1, 4), many=c.pick(1, 8))
    conform(c, s, "dummy preprocessing of every kind, arbitrary masks")


def T05(c):
    design(c, ["Triples", "EnoughOfEach"])
    conform(c, pool(c, "fi", ["sep", "conc", "seq"], c.pick(30, 200), c.pick(10, 60), MD, cfgs=c.pick(6, 30), big=c.pick(2, 10), wide=c.pick(1, 6), many=c.pick(2, 12)), "preprocessing held by all parties")


def T06(c):
    design(c, ["OwnMasks"])
    s = pool(c, "fi", ["sep", "seq"], c.pick(30, 200), c.pick(8, 60), MD, cfgs=c.pick(6, 30), wide=c.pick(1, 4), many=c.pick(1, 8))
    s += pool(c, "dummy", ["d5"], c.pick(10, 60), c.pick(2, 20), SM)
    conform(c, s, "openings and hand-backs of the function-dependent phase")


def T07(c):
    design(c, ["EnoughOfEach"])
    conform(c, pool(c, "fi", ["sep", "conc"], c.pick(30, 200), c.pick(10, 60), MD, cfgs=c.pick(6, 30), big=c.pick(2, 10), many=c.pick(2, 12)), "assignment of correlations to wires and batches")


def T08(c):
    design(c, ["Triples"])
    conform(c, pool(c, "fi", ["sep"], c.pick(30, 200), c.pick(8, 60), MD, cfgs=c.pick(4, 30), wide=c.pick(1, 4), many=c.pick(1, 8)), "every dealt sharing")
    extraction(c, build("tp_run"), tp_jobs(c, c.pick(5, 25)), tp_column, "extraction of every kind of correlation, one dealt sharing at a time")


def T09(c):
    design(c, ["Online"])
    conform(c, pool(c, "fi", ["sep"], c.pick(30, 200), c.pick(8, 60), MD, cfgs=c.pick(4, 30), wide=c.pick(1, 4), many=c.pick(1, 8)), "every vector of shares opened, and who sends to whom")


def T10(c):
    design(c, ["Costs"])
    s = pool(c, "fi", ["sep", "seq", "conc"], c.pick(40, 250), c.pick(10, 80), MD, cfgs=c.pick(10, 60), big=c.pick(3, 12), wide=c.pick(1, 4), many=c.pick(1, 8))
    s += pool(c, "dummy", ["d1", "d2", "d3", "d4", "d5"], c.pick(20, 100), c.pick(4, 30), MD, cfgs=c.pick(4, 20))
    s += [x.replace("\nend\n", "\nwhole\nend\n") for x in pool(c, "dummy", ["d4", "d1"], c.pick(10, 60), c.pick(4, 30), MD, cfgs=c.pick(4, 20))]
    conform(c, s, "number of values sent in each phase")


CHECKS = {k: v for k, v in globals().items() if re.fullmatch(r"T\d\d", k)}
HARNESSES = ["tp_run"]
_D = "TLA+ model of the protocol checked by TLC over all interleavings (small fields); recorded executions of the real parties validated against the specification"
ABOUT = {k: (_D, n) for k, n in {
    "T01": "outputs of every party equal the clear value, for generated circuits, parameters and schedules",
    "T02": "schedules generated by TLC replayed on the code; random schedules compared with a reference order; channels end empty",
    "T03": "every masked value, hand-out and returned share at the first party",
    "T04": "dummy preprocessing of five kinds with arbitrary masks",
    "T05": "the preprocessing held by all parties, gate by gate and batch by batch",
    "T06": "openings, hand-backs and masks of the function-dependent phase",
    "T07": "all correlations assigned to wires and batches pairwise distinct (64-bit field, collision probability negligible)",
    "T08": "every dealt sharing has full degree and fresh values",
    "T10": "values sent in each phase, by all parties, against the closed formula; the online phase is linear in batches",
    "T09": "every opened vector equals the bare sharing plus its own sharing of zero; nobody else receives anything",
}.items()}
