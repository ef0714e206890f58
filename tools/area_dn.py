"""D01..D03: DN07."""
import json, os, re
from core import *
import tpgen
from area_tp import execute, brief, extraction

PARAMS = [(1, 0, 2), (3, 1, 1), (3, 1, 2), (5, 2, 2), (7, 3, 3), (5, 2, 4), (9, 4, 3), (13, 6, 4), (17, 8, 5)]


def conform(c, scripts, label):
    exe = build("dn_run")
    lines = execute(exe, scripts, c.tmp)
    for l, s in list(zip(lines, scripts))[:2]:
        d = json.loads(l)
        c.sample({"run": d["id"], "n": d["n"], "t": d["t"], "variant": d["variant"], "script": s[:300], "events": len(d["ev"])})

    def describe(i, d, ev):
        return "dn/%s/%s" % (d["variant"], d["id"]), brief(d, ev), scripts[i]
    c.validate("DNTrace", lines, describe, rerun=lambda i: execute(exe, [scripts[i]], c.tmp, "again")[0],
               consts={"E": "61"}, label=label)


def pool(c, small, mid, cfgs, variants):
    out = []
    v = lambda i: variants[i % len(variants)]
    for i in range(small):
        out.append(tpgen.random_run(c.rng, "s%d" % i, "dn", v(i), PARAMS[(i * 4) % 7]))
    for i in range(mid):
        out.append(tpgen.random_run(c.rng, "m%d" % i, "dn", v(i), PARAMS[(i * 5 + 1) % len(PARAMS)], "mid"))
    for i in range(cfgs):
        out.append(tpgen.cfg_run(c.rng, "c%d" % i, "dn", v(i), PARAMS[(i * 2 + 1) % len(PARAMS)]))
    for i in range(c.pick(2, 12)):          # few parties and many gates
        out.append(tpgen.random_run(c.rng, "n%d" % i, "dn", v(i), [(3, 1, 2), (5, 2, 2), (1, 0, 2)][(i + SEED) % 3], "many"))
    out.append(tpgen.random_run(c.rng, "w", "dn", v(0), (21, 10, 4), "mid"))
    out = [s.replace("\nend\n", "\nlamc %d\nend\n" % tpgen.value(c.rng)) if " dc " in s.split("\n")[0] else s for s in out]
    return [s.replace("\nend\n", "\nwhole\nend\n") if i % 3 == 2 else s for i, s in enumerate(out)]


def design(c, inv):
    sets = [(3, 1, 5, "{1,2}", "{1,2,3,4}", "FALSE"), (5, 2, 5, "{1}", "{1}", "FALSE")]
    if c.thorough:
        sets = [(3, 1, 5, "{1,2,3,4,5}", "{1,2,3,4}", "FALSE"), (3, 1, 3, "{1,2,3}", "{1,2,3,4}", "FALSE"),
                (5, 2, 5, "{1,2,3}", "{1,2,3}", "FALSE"), (7, 3, 5, "{1}", "{1}", "TRUE")]
    for (n, t, e, s, cs, co) in sets:
        c.model("DNDesign", "n=%d t=%d GF(2^%d-1) seeds %s circuits %s: %s" % (n, t, e, s, cs, "all interleavings" if co == "FALSE" else "fused local steps"),
                consts=dict(N=n, T=t, E=e, SEEDS=s, CIRCS=cs, FUSED=co), view="NoHist", invariants=inv, timeout=850)


def schedules(c, count):
    out = []
    for (n, t, cs) in ((3, 1, "{1,2,3}"), (5, 2, "{1,2}")):
        r = tlc("DNDesign", consts=dict(N=n, T=t, E=5, SEEDS="{1}", CIRCS=cs, FUSED="FALSE"), invariants=["Emit"],
                simulate="num=%d" % count, extra=["-depth", "400", "-seed", str(SEED)], timeout=400, workers=1)
        tlc_ok(r, "schedule generation")
        got = []
        for m in re.finditer(r'"SCHED (.*)"', r["out"]):
            g, L, s = json.loads(m.group(1).replace('\\"', '"'))
            x = tpgen.from_gates(g, L, s, n, "sched-%d-%d" % (n, len(got)), (n, t, 2), c.rng)
            got.append(x.replace(" fi sep ", " dn sep "))
        if not got:
            raise CheckError("no schedules generated:\n" + r["out"][-1500:])
        out += got[:count]
        c.states += r["states"]
    return out


def dn_column(d, op):
    n = d["n"]
    sh = [e for e in d["ev"] if e["e"] == "shares" and e["p"] == n]
    if not sh:
        return None
    v, g = sh[0]["v"], d["gates"]
    if op == "PrepS/r":
        return [v[i] for i in range(len(g)) if g[i]["g"] == "in"]
    if op == "PrepS/lo":
        return [v[i] for i in range(len(g)) if g[i]["g"] == "mul"]
    o = []
    for e in d["ev"]:
        if e["e"] == "slice" and e["op"] == "FDS" and e["p"] == n:
            o += e["s"][0]
    return o


def dn_jobs(c, cnt):
    jobs = []
    for i in range(cnt):
        n, t, k = [(3, 1, 2), (5, 2, 2), (3, 1, 1), (7, 3, 2)][i % 4]
        nin, nmul = c.rng.randint(1, 2 * t + 3), c.rng.randint(1, 2 * t + 3)
        cmds = ["in %d" % c.rng.randrange(n) for _ in range(nin)] + ["closein"]
        cmds += ["mul %d %d" % (c.rng.randint(1, nin), c.rng.randint(1, nin)) for _ in range(nmul)]
        cmds += ["last", "closeout"]
        s = tpgen.script("x%d" % i, "dn", "sep", (n, t, k), i, 0, cmds, tpgen.inputs(c.rng, cmds, n))
        nr, nd = (nin + t) // (t + 1), (nmul + t) // (t + 1)
        jobs.append(("x%d" % i, n, t, s, [("PrepS/r", range(nr)), ("PrepS/lo", range(nr, nr + 2 * nd, 2)), ("PrepS/hi", range(nr + 1, nr + 2 * nd, 2))]))
    return jobs


def D01(c):
    design(c, ["Correct", "Drained"])
    conform(c, schedules(c, c.pick(12, 150)), "operation schedules generated from the specification, replayed on the code")
    conform(c, pool(c, c.pick(40, 250), c.pick(10, 80), c.pick(12, 60), ["sep", "dc", "sep", "dz"]), "full runs under random schedules")


def D02(c):
    design(c, ["Doubles"])
    conform(c, pool(c, c.pick(36, 250), c.pick(10, 80), c.pick(8, 60), ["sep"]), "dealt sharings and the masks behind the wires")
    extraction(c, build("dn_run"), dn_jobs(c, c.pick(5, 25)), dn_column, "extraction of masks and double sharings, one dealt sharing at a time")


def D03(c):
    design(c, ["Wires"])
    conform(c, pool(c, c.pick(36, 250), c.pick(10, 80), c.pick(8, 60), ["sep", "sep", "dc"]), "openings, hand-outs and all parties' shares of every wire")


CHECKS = {"D01": D01, "D02": D02, "D03": D03}
HARNESSES = ["dn_run"]
_D = "TLA+ model of DN07 checked by TLC over all interleavings (small fields); recorded executions validated against the specification"
ABOUT = {"D01": (_D, "outputs, termination and drained channels for generated circuits, n = 2t+1 and schedules"),
         "D02": (_D, "degrees, matching secrets and single use of every mask and double sharing (distinct in a 61-bit field)"),
         "D03": (_D, "owners' and first party's openings, and the shares of every wire at the end of the run")}
