"""N02: the shared queue under all schedules.  (Other network properties: area_chan.py.)"""
import json
from core import *

COOP = ["-include", VERIF + "/harness/coop.h", "-O1"]


def coop_build(name, **kw):
    return build(name, srcs=["coop_rt.cc"], flags=COOP, variant="coop", **kw)


def execute(exe, progs):
    text = "".join("run p%d %d %d %d %d\n%s\nend\n" % (i, b, m, rnd, SEED + i, "\n".join(" ".join(t) for t in p)) for i, (p, b, m, rnd) in enumerate(progs))
    r = run_cmd([exe], 700, stdin=text)
    if r.returncode:
        raise CheckError("dq_run failed (%d): %s" % (r.returncode, r.stderr[-300:]))
    out, runs = [[] for _ in progs], 0
    for l in r.stdout.split("\n"):
        if not l:
            continue
        n, x = l.split("\t", 1)
        i = int(n[1:])
        if x == "done":
            continue
        d = json.loads(x)
        if "runs" in d:
            runs += d["runs"]
        elif d.get("e") == "crash":
            out[i].append({"ev": [[0, 2, "end", 0]], "blocked": [], "trouble": "crash: " + d["why"], "schedule": ""})
        else:
            out[i].append(d)
    return out, runs


def N02(c):
    inv = ["Exclusive", "Linearizable", "NoLostWakeup"]
    cases = [(3, 4, '{"push","pop","size","await"}'), (2, 4, '{"push","pop","popfront","peek","size"}'), (3, 5, '{"push","pop"}')]
    if c.thorough:
        cases += [(3, 5, '{"push","pop","await"}'), (4, 5, '{"push","pop"}'), (3, 5, '{"push","popfront","size"}'), (2, 6, '{"push","pop","peek"}')]
    for (nt, no, k) in cases:
        c.model("SharedQueueDesign", "all programs of %d threads with up to %d operations of %s, all interleavings, one spurious wake-up" % (nt, no, k),
                consts=dict(NT=nt, NOPS=no, Kinds=k, NOTIFY='"all"', SPURIOUS=1), invariants=inv)
    progs = [
        ([["push:1", "push:2"], ["pop"], ["pop"]], 3, c.pick(9000, 60000), 0),
        ([["push:1"], ["pushc:2"], ["pop", "pop"]], 3, c.pick(9000, 60000), 0),
        ([["push:1"], ["await"], ["pop"]], 3, c.pick(9000, 60000), 0),
        ([["pushc:1"], ["await"], ["pop"]], 3, c.pick(9000, 60000), 0),
        ([["pushc:1", "push:2"], ["pop"], ["popfront"]], 2, c.pick(9000, 60000), 0),
        ([["push:1"], ["pop"], ["pop"]], 3, c.pick(9000, 60000), 0),          # one of them stays blocked
        ([["push:1", "pop"], ["pushc:2", "pop"]], 3, c.pick(9000, 60000), 0),
        ([["push:1", "size", "push:2"], ["peek", "popfront", "pop"], ["size"]], 2, c.pick(9000, 60000), 0),
        ([["push:1", "push:2", "push:3"], ["peek", "popfront", "peek", "popfront", "pop"]], 2, c.pick(9000, 60000), 0),
        ([["push:1"], ["push:2"], ["pop"], ["await", "pop"]], 2, c.pick(9000, 60000), 0),
        ([["popfront"], ["await"], ["await"], ["pushc:1", "push:2"]], 2, c.pick(9000, 60000), 0),
    ]
    for _ in range(c.pick(14, 80)):
        nt = c.rng.choice([2, 3, 3, 4])
        peeker = c.rng.randrange(nt) if c.rng.randrange(3) == 0 else None
        p, v = [], 0
        for t in range(nt):
            ops = []
            for _ in range(c.rng.choice([1, 1, 2, 2, 3])):
                if peeker is None:
                    o = c.rng.choice(["push", "pushc", "push", "pop", "pop", "popfront", "size", "await"])
                elif t == peeker:
                    o = c.rng.choice(["peek", "peek", "pop", "popfront", "push", "size"])
                else:
                    o = c.rng.choice(["push", "pushc", "size"])
                if o.startswith("push"):
                    v += 1
                    o += ":%d" % v
                ops.append(o)
            p.append(ops)
        progs.append((p, 2, c.pick(2500, 20000), c.pick(1500, 20000)))
    exe = coop_build("dq_run", with_lib=False)
    out, runs = execute(exe, progs)
    lines, where = [], []
    for i, hs in enumerate(out):
        for h in hs:
            lines.append(json.dumps({"n": len(progs[i][0]), "ev": h["ev"], "blocked": h["blocked"], "trouble": h["trouble"]}))
            where.append((i, h["schedule"]))
    c.cov["schedules_executed"] = runs
    c.cov["distinct_histories"] = len(lines)
    c.sample({"program": progs[0][0], "history": json.loads(lines[0])["ev"]})

    def describe(k, d, ev):
        i, s = where[k]
        return ("queue/%s" % json.dumps(progs[i][0]), "program %s: history %s, blocked %s %s is not one of a queue" % (
            json.dumps(progs[i][0]), json.dumps([e[:3] + [e[3]] for e in d["ev"]])[:400], d["blocked"], d["trouble"]), "schedule: " + s)
    c.validate("SharedQueueTrace", lines, describe, label="histories of the real queue under explored schedules")


CHECKS = {"N02": N02}
HARNESSES = [lambda: coop_build("dq_run", with_lib=False)]
ABOUT = {"N02": ("TLA+ model of the algorithm checked by TLC against an abstract queue for all small programs; the real class run under a cooperative scheduler, every distinct history checked for linearizability by TLC",
                 "schedules with up to 3 preemptions or spurious wake-ups for 9 fixed programs and 2 plus random ones for generated programs of up to 4 threads")}
