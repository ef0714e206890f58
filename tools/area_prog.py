"""E01: the shipped programs, all parties at once on simulated sockets."""
import concurrent.futures as cf
import json
from core import *
from area_net import COOP
from area_chan import WRAP
import vlib


def exe():
    srcs = ['-DREPO_%s="%s/experiments/%s.cc"' % (x.upper(), vlib.REPO, x) for x in ("ours", "dn07")]
    return build("prog_run", srcs=["coop_rt.cc", "simsock.cc", "prog_ours.cc", "prog_dn07.cc"], flags=COOP + srcs, variant="coop", libs=["-lpthread"] + WRAP)


def run_all(cases, timeout=860):
    """cases: dict(prog, kind, n, size, depth, delays, args, cap, budget, runs, random)"""
    e = exe()
    blocks = ["run p%d %s %d %d %d %d %d\n%send\n" % (i, c["prog"], c["cap"], c["budget"], c["runs"], c["random"], SEED * 1000 + i,
              "".join("%d %s\n" % (d, " ".join(a)) for d, a in zip(c["delays"], c["args"]))) for i, c in enumerate(cases)]
    order = sorted(range(len(cases)), key=lambda i: -cases[i]["n"] ** 2 * cases[i]["size"] * (cases[i]["runs"] + cases[i]["random"]))
    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(lambda i: run_cmd([e], timeout, stdin=blocks[i]), order))
    out, runs = [[] for _ in cases], 0
    for r in rs:
        if r.returncode:
            raise CheckError("prog_run failed (%d): %s" % (r.returncode, r.stderr[-300:]))
        for l in r.stdout.split("\n"):
            if not l or l.endswith("\tdone"):
                continue
            n, x = l.split("\t", 1)
            d = json.loads(x)
            if "runs" in d:
                runs += d["runs"]
            elif d.get("e") == "crash":
                k = cases[int(n[1:])]["n"]
                out[int(n[1:])].append({"res": ["crash"] * k, "blocked": 0, "open": 0, "sent": [], "left": [], "trouble": "crash: " + d["why"], "schedule": ""})
            else:
                out[int(n[1:])].append(d)
    return out, runs


def E01(c):
    cases = []
    q = c.pick

    def add(prog, n, size, depth, delays, budget, runs, rnd, cap=1 << 22):
        cases.append(dict(prog=prog, kind="whole", n=n, size=size, depth=depth, delays=delays, budget=budget, runs=runs, random=rnd, cap=cap,
                          args=[["x", str(n), str(i), str(size), str(depth)] for i in range(n)]))
    for prog in ("ours", "dn07"):
        for n in (5, 9) if not c.thorough else (5, 9, 13, 17):
            for w in (2, 4, 6, 10, 16):
                for d in (1, 2, 3):
                    big = n * n * w * d > 1500
                    add(prog, n, w * d, d, [c.rng.randrange(3) for _ in range(n)], 0 if big else 1, q(2, 6) if big else q(10, 60), q(2, 10) if big else q(10, 60))
        for n, w, d in [(13, 8, 1), (17, 10, 2), (5, 200, 1), (5, 2, 40)] + q([], [(21, 12, 1), (29, 16, 2), (37, 20, 1), (5, 2000, 2), (9, 600, 1)]):
            add(prog, n, w * d, d, [c.rng.randrange(3) for _ in range(n)], 0, 1, q(1, 3), 1 << 26)
        for _ in range(q(6, 30)):              # somebody starts late
            late = c.rng.randrange(5)
            add(prog, 5, 8, 2, [c.rng.choice([12, 60]) if p == late else c.rng.randrange(3) for p in range(5)], 1, q(4, 20), q(6, 20))
        for a in ([], ["5"], ["5", "0"], ["9", "1", "20"]):
            cases.append(dict(prog=prog, kind="usage", n=1, size=0, depth=1, delays=[0], args=[["x"] + a], budget=0, runs=1, random=0, cap=4096))
        for n, i in ((5, 5), (5, 6), (9, 9), (9, 1000), (13, 13)):
            cases.append(dict(prog=prog, kind="refused", n=1, size=4, depth=1, delays=[0], args=[["x", str(n), str(i), "4", "1"]], budget=0, runs=1, random=0, cap=4096))
    out, runs = run_all(cases)
    c.cov["schedules_executed"] = runs
    lines, where = [], []
    for i, hs in enumerate(out):
        k = cases[i]
        for h in hs:
            d = {x: k[x] for x in ("prog", "kind", "n", "size", "depth")}
            d.update({x: h[x] for x in ("res", "blocked", "open", "sent", "left", "trouble")})
            lines.append(json.dumps(d))
            where.append((i, h.get("schedule", "")))
    c.sample(json.loads(lines[0]))

    def describe(k, d, ev):
        i, s = where[k]
        x = cases[i]
        return ("E01/%s" % json.dumps([x["prog"], x["args"], x["delays"]]), "%s: arguments %s, late %s: results %s, %d threads blocked, %d sockets open, bytes sent %s, not received %s %s" % (
            x["prog"], json.dumps(x["args"])[:200], x["delays"], d["res"], d["blocked"], d["open"], json.dumps(d["sent"])[:200], json.dumps(d["left"])[:200], d["trouble"]),
            "schedule: " + s)
    c.validate("ProgramTrace", lines, describe, consts={"E": "61"}, label="runs of the programs by all parties")


CHECKS = {"E01": E01}
HARNESSES = [exe]
TECH = "the real programs run by all parties under a cooperative scheduler with simulated sockets; outcome and every byte count validated by TLC against the protocols' specification"
ABOUT = {"E01": (TECH, "5 to 17 parties (37 thorough); connections hold what a phase sends, as the programs send whole phases before they read; result compared by the program's own assertion (compiled in)")}
