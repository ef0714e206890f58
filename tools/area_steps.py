"""P01: protocols as chains of steps."""
import json
from core import *


def P01(c):
    for n in (2, 3) if not c.thorough else (1, 2, 3, 4, 5):
        c.model("StepsDesign", "all chains of up to %d steps of five kinds, with failures and nested chains" % n, consts=dict(MAXLEN=n), invariants=["Result"])
    cases = []
    for i in range(c.pick(1500, 20000)):
        n = i % 10
        nested = c.rng.random() < 0.4
        plan = [[c.rng.randrange(1009), c.rng.randrange(1009), 1 if c.rng.random() < 0.05 else 0,
                 c.rng.randrange(3) if nested and c.rng.random() < 0.5 else -1] for _ in range(n + 1)]
        plan += [[c.rng.randrange(1009), c.rng.randrange(1009), 1 if c.rng.random() < 0.02 else 0, -1] for _ in range(3)]
        cases.append((n, c.rng.randrange(1009), plan))
    text = "".join("%d %d %d %s\n" % (n, k, len(p), " ".join(str(x) for q in p for x in q)) for n, k, p in cases)
    r = run_cmd([build("steps_run", with_lib=False)], 600, stdin=text)
    res = [json.loads(l) for l in r.stdout.split("\n") if l]
    if r.returncode or len(res) != len(cases):
        raise CheckError("steps_run failed (%d): %s" % (r.returncode, r.stderr[-300:]))
    lines = []
    for (n, k, p), x in zip(cases, res):
        if x.get("e") == "crash":
            x = {"log": [], "ok": False, "r": -1, "value": -1, "why": x["why"]}
        lines.append(json.dumps(dict(x, len=n, carry=k, plan=p)))
    c.sample(json.loads(lines[3]))

    def describe(i, d, ev):
        return ("P01/%s" % json.dumps(cases[i]), "chain of %d steps, plan %s: log %s, result %s (ok %s), context %s" % (
            cases[i][0], json.dumps(cases[i][2]), json.dumps(d["log"])[:500], d["r"], d["ok"], d["value"]), None)
    c.validate("StepsTrace", lines, describe, label="evaluations of chains of steps")


CHECKS = {"P01": P01}
HARNESSES = ["steps_run"]
ABOUT = {"P01": ("TLA+ model of the evaluation of chains checked by TLC against their meaning; real chains of steps evaluated and their logs validated by TLC",
                 "chains of up to 9 steps with move-only steps, one context, failures at any step and nested chains")}
