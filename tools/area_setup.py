"""N04, N05: creating networks and discovery among simulated hosts."""
import itertools, json
from core import *
from area_net import COOP
from area_chan import WRAP


def exe():
    return build("net_run", srcs=["coop_rt.cc", "simsock.cc"], flags=COOP, variant="coop", libs=["-lpthread"] + WRAP)


def run_all(cases, timeout=800):
    """cases: dict(kind, dport, cap, budget, runs, random, me, order, parties=[(host, port, delay, [op])])"""
    blocks = []
    for i, c in enumerate(cases):
        blocks.append("run p%d %s %d %d %d %d %d %d %d\norder %s\n%send\n" % (
            i, c["kind"], c.get("dport", 0), c.get("cap", 4096), c["budget"], c["runs"], c["random"], SEED * 1000 + i, c.get("me", 0),
            " ".join(map(str, c.get("order", []))), "".join("%d:%d %d %s\n" % (h, p, d, " ".join(ops)) for h, p, d, ops in c["parties"])))
    import concurrent.futures as cf
    e = exe()
    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(lambda t: run_cmd([e], timeout, stdin="".join(t)), [blocks[k::CORES] for k in range(CORES) if blocks[k::CORES]]))
    out, runs = [[] for _ in cases], 0
    for r in rs:
        if r.returncode:
            raise CheckError("net_run failed (%d): %s" % (r.returncode, r.stderr[-300:]))
        for l in r.stdout.split("\n"):
            if not l:
                continue
            n, x = l.split("\t", 1)
            if x == "done":
                continue
            d = json.loads(x)
            if "runs" in d:
                runs += d["runs"]
            elif d.get("e") == "crash":
                out[int(n[1:])].append({"ev": [[-1, "end", 0, 0]], "blocked": [], "listening": 0, "trouble": "crash: " + d["why"], "schedule": ""})
            else:
                out[int(n[1:])].append(d)
    return out, runs


def judge(c, cases, out, module, label):
    lines, where = [], []
    for i, hs in enumerate(out):
        k = cases[i]
        for h in hs:
            lines.append(json.dumps({"n": k["n"], "kind": k["kind"], "me": k.get("me", 0), "hosts": ["10.0.0.%d" % (p[0] + 1) for p in k["parties"]],
                                     "ev": h["ev"], "blocked": h["blocked"], "listening": h["listening"], "trouble": h["trouble"]}))
            where.append((i, h.get("schedule", "")))
    c.cov["distinct_histories"] = c.cov.get("distinct_histories", 0) + len(lines)
    c.sample({"case": cases[0]["parties"], "history": json.loads(lines[0])["ev"][:30]})

    def describe(k, d, ev):
        i, s = where[k]
        x = cases[i]
        return ("%s/%s" % (c.pid, json.dumps([x["kind"], x.get("order"), x["parties"]])), "%s network, parties (host, port, lateness, operations) %s: history %s blocked %s listening %s %s" % (
            x["kind"], json.dumps(x["parties"])[:400], json.dumps(d["ev"])[:700], d["blocked"], d["listening"], d["trouble"]), "schedule: " + s)
    c.validate(module, lines, describe, label=label)


def everybody(n, rng, size, thr):
    """every party sends to everyone and receives from everyone; sends first if the channels are asynchronous"""
    sends = {p: [[j, rng.randrange(1, 250), rng.randrange(1, size)] for j in range(n) for _ in range(rng.choice([1, 1, 2]))] for p in range(n)}
    for p in sends:
        rng.shuffle(sends[p])
    ops = []
    for p in range(n):
        s = ["s%d:%d:%d" % tuple(x) for x in sends[p]]
        rc = [[q] + x for q in range(n) for x in sends[q] if x[0] == p]
        # the messages from one party keep their order
        by = {}
        for x in rc:
            by.setdefault(x[0], []).append(x)
        r, qs = [], [q for q in by for _ in by[q]]
        rng.shuffle(qs)
        for q in qs:
            x = by[q].pop(0)
            r.append("r%d:0:%d" % (q, x[3]))
        ops.append(s + r)
    return ops


def N04(c):
    for n, b in [(3, 1), (4, 1)] if not c.thorough else [(2, 0), (3, 0), (3, 1), (4, 0), (4, 3)]:
        c.model("NetDesign", "creation of a network of %d parties with any start order, backlog %d" % (n, b), spec="Spec", nxt=None,
                consts=dict(N=n, BACKLOG=b, BYID="TRUE"), invariants=["RightEntry", "Complete", "NoRefusal"], props=["Terminates"])
    cases = []

    def add(kind, n, hosts, ports, order, delays, size, budget, runs, rnd, cap=1 << 16, me=0):
        cases.append(dict(kind=kind, n=n, cap=cap, budget=budget, runs=runs, random=rnd, order=order, me=me,
                          parties=[(hosts[p], ports[p], delays[p], o) for p, o in enumerate(everybody(n, c.rng, size, kind == "thr"))]))
    q = c.pick
    for kind in ("tcp", "thr"):
        for delays in itertools.permutations(range(3)):
            add(kind, 3, [0, 1, 2], [7000] * 3, [0, 1, 2], list(delays), 6, 1, q(60, 600), q(60, 600))
        for order in itertools.permutations(range(3)):
            add(kind, 3, [0, 1, 2], [7000, 7100, 7200], list(order), [c.rng.randrange(3) for _ in range(3)], 6, 1, q(30, 600), q(60, 600))
        for n in (1, 2, 4, 5):
            for _ in range(q(3, 10)):
                order = list(range(n))
                c.rng.shuffle(order)
                same = c.rng.randrange(2)
                add(kind, n, [0] * n if same else [(7 * p + 2) % 11 for p in range(n)], [7000 + 3 * p for p in range(n)], order,
                    [c.rng.randrange(3) for _ in range(n)], 5, 1, q(20, 100), q(60, 800))
    for kind in ("tcp", "thr"):         # somebody starts when the others have tried for long
        for late in range(3):
            for long in (12, 60, 400) + ((5000,) if c.thorough else ()):
                add(kind, 3, [0, 1, 2], [7000] * 3, [0, 1, 2], [long if p == late else c.rng.randrange(3) for p in range(3)], 4, 0, 1, 4)
    for _ in range(q(6, 40)):          # more than the connections hold: asynchronous channels never wait for the peer
        n = c.rng.choice([2, 3])
        add("thr", n, list(range(n)), [7000] * n, list(range(n)), [c.rng.randrange(3) for _ in range(n)], 40, 1, q(30, 200), q(60, 800), cap=8)
    for a, b, d in itertools.permutations(range(3)):      # a's long message to b is read only after a has gone on
        ops = {a: ["s%d:11:30" % b, "s%d:12:2" % d], d: ["r%d:0:2" % a, "s%d:13:2" % b], b: ["r%d:0:2" % d, "r%d:0:30" % a]}
        cases.append(dict(kind="thr", n=3, cap=8, budget=1, runs=q(20, 200), random=q(20, 400), order=[0, 1, 2],
                          parties=[(x, 7000, c.rng.randrange(3), ops[x]) for x in range(3)]))
    for n in range(1, 7):
        add("full", n, [0] * n, [0] * n, [], [0] * n, 5, 1, q(20, 200), q(20, 200))
        for me in range(n):
            ops = everybody(n, c.rng, 5, False)
            keep = []
            for p in range(n):
                if p == me:
                    keep.append(ops[p])
                else:
                    keep.append([o for o in ops[p] if int(o[1:].split(":")[0]) == me])
            cases.append(dict(kind="mock", n=n, budget=1, runs=q(20, 100), random=q(20, 100), me=me, parties=[(0, 0, 0, o) for o in keep]))
    if c.thorough:
        for _ in range(40):
            n = c.rng.choice([6, 7, 8])
            order = list(range(n))
            c.rng.shuffle(order)
            add(c.rng.choice(["tcp", "thr"]), n, [p % 4 for p in range(n)], [7000 + p for p in range(n)], order, [c.rng.randrange(4) for _ in range(n)], 4, 0, 1, 300)
    out, runs = run_all(cases)
    c.cov["schedules_executed"] = runs
    judge(c, cases, out, "NetTrace", "runs of networks among simulated hosts")


def N05(c):
    for n in (1, 2, 3) if not c.thorough else (1, 2, 3, 4):
        c.model("DiscoveryDesign", "all announcements of the clients of a discovery among %d parties, in any order" % n, spec="Spec", nxt=None,
                consts=dict(N=n), invariants=["SameTable", "RightTable", "Refusal"], props=["Answered"])
    cases = []
    q = c.pick

    def port():
        return c.rng.choice([7777, 8000, 8000, c.rng.randrange(1, 65536), c.rng.randrange(1, 65536)])      # hosts often use the same one

    def add(n, server, clients, hosts, delays, runs, rnd, quit=()):
        """server: (id, port); clients: [(id, port)]; hosts, delays: server first"""
        parties = [(hosts[0], 0, delays[0], ["S%d:%d:%d" % (server[0], server[1], n)])]
        for k, (i, p) in enumerate(clients):
            parties.append((hosts[k + 1], 0, delays[k + 1], ["C%d:%d:%d" % (i, p, hosts[0])]))
        for k, (b, i) in enumerate(quit):
            parties.append((hosts[len(clients) + 1 + k], 0, delays[len(clients) + 1 + k], ["Q%d:%d:%d" % (hosts[0], b, i)]))
        cases.append(dict(kind="disc", n=n, dport=7777, budget=1, runs=runs, random=rnd, cap=4096, parties=parties))
    for n in (1, 2, 3, 4) + ((5, 6) if c.thorough else ()):
        for me in range(n):
            ids = [i for i in range(n) if i != me]
            perms = list(itertools.permutations(ids))
            c.rng.shuffle(perms)
            for p in perms[:q(6, 24)]:
                # clients come one after the other in this order, or all together
                for late in (True, False):
                    add(n, (me, port()), [(i, port()) for i in p], list(range(n)),
                        [0] + [k + 1 if late else c.rng.randrange(2) for k in range(n - 1)], q(20, 300), q(30, 400))
    for _ in range(q(20, 150)):                 # some hosts are shared, the server may be late
        n = c.rng.choice([2, 3, 4, 5])
        ids = list(range(n))
        c.rng.shuffle(ids)
        add(n, (ids[0], port()), [(i, port()) for i in ids[1:]], [c.rng.randrange(n) for _ in range(n)],
            [c.rng.randrange(3) for _ in range(n)], q(10, 100), q(40, 500))
    for n in (2, 3):                            # somebody is very late
        for late in range(n):
            for long in (12, 60, 400):
                add(n, (0, port()), [(i, port()) for i in range(1, n)], list(range(n)), [long if p == late else 0 for p in range(n)], 1, 4)
    for _ in range(q(60, 500)):                 # wrong announcements
        n = c.rng.choice([2, 3, 3, 4])
        ids = list(range(n))
        c.rng.shuffle(ids)
        me, ids = ids[0], ids[1:]
        what = c.rng.choice(["range", "range", "dup", "own", "quit"]) if n > 2 else c.rng.choice(["range", "own", "quit"])
        k = c.rng.randrange(n - 1)
        quitters = []
        if what == "range":
            ids[k] = c.rng.choice([n, n + 1, 255, 65536, 2 ** 31, 2 ** 32 - 1])
        elif what == "own":
            ids[k] = me
        elif what == "dup":
            ids[k] = c.rng.choice([x for j, x in enumerate(ids) if j != k])
        else:
            quitters = [(c.rng.randrange(8), ids.pop(k))]
        add(n, (me, 4000), [(i, 5000 + i % 100) for i in ids], list(range(n)), [c.rng.randrange(2)] + [c.rng.randrange(3) for _ in range(n - 1)], q(10, 60), q(30, 200), quitters)
    for n in (1, 2, 3):
        add(n, (n, 4000), [], [0], [0], 20, 5)          # the server itself has no place in the table
        add(n, (n + 7, 4000), [], [0], [0], 20, 5)
    out, runs = run_all(cases)
    c.cov["schedules_executed"] = runs
    judge(c, cases, out, "DiscoveryTrace", "runs of discovery among simulated hosts")
    tables(c)


def tables(c):
    """What a client makes of the table of a server, well formed or not."""
    cases = []
    for _ in range(c.pick(400, 5000)):
        n = c.rng.choice([1, 2, 3, 4, 5])
        ids = list(range(n))
        c.rng.shuffle(ids)
        me = c.rng.randrange(n)
        rows = [[i, c.rng.randrange(1, 65536), c.rng.choice(["", "h", "10.0.0.%d" % i, "host-%d.example.org" % i, "x" * c.rng.randrange(60)])] for i in ids]
        for _ in range(c.rng.choice([0, 0, 1, 1, 2])):
            k = c.rng.randrange(n)
            w = c.rng.randrange(4)
            if w == 0:
                rows[k][0] = c.rng.randrange(n)
            elif w == 1:
                rows[k][0] = c.rng.choice([n, n + 1, 255, 2 ** 31, 2 ** 32 - 1, 100000])
            elif w == 2:
                me = c.rng.choice([n, n + 3, c.rng.randrange(n)])
            else:
                rows[k][0] = 0
        cases.append((me, rows))
    cases += [(0, []), (3, [])]
    text = "".join("%d %d%s\n" % (me, len(rows), "".join(" %d %d %s" % (i, p, "." + h) for i, p, h in rows)) for me, rows in cases)
    r = run_cmd([build("table_run")], 600, stdin=text)
    if r.returncode:
        raise CheckError("table_run failed (%d): %s" % (r.returncode, r.stderr[-300:]))
    res = [json.loads(l) for l in r.stdout.split("\n") if l]
    if len(res) != len(cases):
        raise CheckError("table_run gave %d answers for %d cases" % (len(res), len(cases)))
    lines = []
    for (me, rows), x in zip(cases, res):
        # ids beyond TLC's integers stand for themselves minus 2^32
        f = lambda i: i - 2 ** 32 if i >= 2 ** 31 else i
        lines.append(json.dumps({"me": me, "rows": [[f(i), p, h] for i, p, h in rows], "ok": x["ok"], "id": x.get("id", 0), "got": x.get("got", [])}))

    def describe(k, d, ev):
        return ("table/%s" % json.dumps(cases[k]), "a client with id %d given the table %s answered %s" % (cases[k][0], json.dumps(cases[k][1])[:400], json.dumps(res[k])[:400]), None)
    c.validate("TableTrace", lines, describe, label="tables given to a client")


CHECKS = {"N04": N04, "N05": N05}
HARNESSES = [exe, "table_run"]
TECH = "TLA+ model of the protocol checked by TLC (safety, termination under fairness); the real classes run by simulated hosts under a cooperative scheduler, every distinct history validated by TLC"
ABOUT = {"N04": (TECH, "2 to 5 parties (8 in the thorough tier), start orders, delays and schedules explored with one deviation and at random; refused connections are retried, lost packets and failing hosts are not modelled"),
         "N05": (TECH, "up to 5 parties (6 thorough); clients vanish only before their announcement is complete; a consistent table is one with every id once")}
