"""N06: network configurations."""
import itertools, json, os
from core import *


def parts(rng, n):
    ids = list(range(n))
    if rng.randrange(2):
        rng.shuffle(ids)
    host = lambda: rng.choice(["1.2.3.4", "127.0.0.1", "a", "host-%d.example" % rng.randrange(99), "10.0.%d.%d" % (rng.randrange(256), rng.randrange(256)), "::1"])
    return [[str(i), host(), str(rng.choice([1, 80, 8000, 65535, 9, rng.randrange(1, 65536)]))] for i in ids]


BADNUM = ["", "x", "-1", "1x", "x1", "1.5", "0x1", "1e1", "99999999999999999999", "4294967296", "4294967295", "-4294967295", "65536", "70000", "-80", "--1",
          "1-", "- 1", "18446744073709551616", "18446744073709551615", "1 2", "1\t2", "8000;", "8000\x00"]
MAYBE = [" 1", "1 ", "+1", "01", "0", "\t1", "1\r", "00", "-0", "000000000000001", "1\x0b"]


def mutate(rng, rows, n):
    k = rng.randrange(max(1, len(rows)))
    if len(rows[k]) < 3:
        return
    w = rng.randrange(13)
    if w == 0:
        rows[k][0] = rng.choice(BADNUM + MAYBE)
    elif w == 1:
        rows[k][2] = rng.choice(BADNUM + MAYBE)
    elif w == 2:
        rows[k][1] = rng.choice(["", " ", "a,b", "a b", " a", ",", "a,", "h\x7f", "\xe9"])
    elif w == 3:
        rows[k][0] = str(rng.randrange(n + 2))
    elif w == 4:
        del rows[k]
    elif w == 5:
        rows.insert(k, list(rows[k]))
    elif w == 6:
        rows[k] = rows[k][:rng.randrange(3)]
    elif w == 7:
        rows.insert(k, [""])
    elif w == 8:
        rows[k].append(rng.choice(["", "1", "x"]))
    elif w == 9:
        rows[k] = [rng.choice(["#comment", " ", ",", ",,", ",,,", "0", "0,", ",a,", "0,,1", "0,a,"])]
    elif w == 10:
        rows[k][0] = str(int(rows[k][0]) + rng.choice([2 ** 32, -(2 ** 32), 2 ** 31, 10 ** 9])) if rows[k][0].isdigit() else "0"
    elif w == 11:
        rows[k][2] = str(rng.choice([0, 65535, 65536, 65537, 99999, 2 ** 31, 2 ** 32 + 80, -1]))
    else:
        rows[k][rng.randrange(3) if len(rows[k]) == 3 else 0] += rng.choice([" ", "x", "\r", "-", "+", "."])


def N06(c):
    reqs = []          # (line for the harness, dict for the specification)

    def load(me, text):
        b = text.encode("latin1")
        reqs.append(("load %d .%s" % (me, b.hex()), {"op": "load", "me": me, "file": list(b)}))
    # all files of up to two lines put together from a few pieces
    idp, hp, pp = ["0", "1", "", "x", "-1", "2", "4294967296", " 1", "1x"], ["a", "", "a,b"], ["7", "", "65536", "-7", "7x", " 7"]
    lines = [",".join(x) for x in itertools.product(idp, hp, pp)] + ["", ",", "0", "0,7", "0,,", ",,"]
    few = [",".join(x) for x in itertools.product(["0", "1", "2", "x"], ["a", ""], ["7", "8x"])] + ["", "0,7"]
    for a in lines:
        for me in (0, 1):
            load(me, a + "\n")
        load(0, a)
        load(0, a + "\n1,h,9\n")
        load(1, "0,h,9\n" + a)
    for a, b in itertools.product(few, few):
        load(0, a + "\n" + b + "\n")
        load(1, a + "\n" + b)
    for t in ("", "\n", "\n\n", "0,a,7\n\n", "\n0,a,7", "0,a,7\r\n1,b,8\r\n", "0,a,7\n1,b,8\n\n"):
        for me in (0, 1, 2):
            load(me, t)
    for _ in range(c.pick(3000, 40000)):
        n = c.rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 10, 12])
        rows = parts(c.rng, n)
        for _ in range(c.rng.choice([0, 0, 1, 1, 1, 2])):
            if rows:
                mutate(c.rng, rows, n)
        load(c.rng.choice([0, n - 1, c.rng.randrange(n), c.rng.randrange(n), n, n + 1, 4294967295 if c.rng.randrange(4) == 0 else 0]),
             "\n".join(",".join(r) for r in rows) + c.rng.choice(["\n", "\n", "", "\n\n"] if c.rng.randrange(3) == 0 else ["\n"]))
    # lists of parties
    for n in (0, 1, 2, 3):
        for ids in itertools.product(range(n + 1), repeat=n):
            for me in range(n + 2):
                rows = [[i, [104, 48 + k], 80 + k] for k, i in enumerate(ids)]
                reqs.append(("list %d %d %s" % (me, n, " ".join("%d %d .%s" % (i, p, bytes(h).hex()) for i, h, p in rows)), {"op": "list", "me": me, "rows": rows}))
    for _ in range(c.pick(150, 2000)):
        n = c.rng.choice([4, 5, 6, 8, 15])
        ids = list(range(n))
        c.rng.shuffle(ids)
        if c.rng.randrange(2):
            ids[c.rng.randrange(n)] = c.rng.choice([n, c.rng.randrange(n), 1000])
        me = c.rng.choice([0, n - 1, n, c.rng.randrange(n)])
        rows = [[i, [97 + k % 26] * c.rng.randrange(1, 20), c.rng.randrange(65536)] for k, i in enumerate(ids)]
        reqs.append(("list %d %d %s" % (me, n, " ".join("%d %d .%s" % (i, p, bytes(h).hex()) for i, h, p in rows)), {"op": "list", "me": me, "rows": rows}))
    for n in list(range(0, 7)) + [20, 100]:
        for me in sorted({0, 1, n // 2, n, n + 1, max(0, n - 1)}):
            for base in (1, 9900, 65000):
                reqs.append(("local %d %d %d" % (me, n, base), {"op": "local", "me": me, "n": n, "base": base}))
    r = run_cmd([build("cfg_run"), os.path.join(c.tmp, "config.txt")], 800, stdin="\n".join(x for x, _ in reqs) + "\n")
    res = [json.loads(l) for l in r.stdout.split("\n") if l]
    if r.returncode or len(res) != len(reqs):
        raise CheckError("cfg_run: %d answers for %d requests, code %d" % (len(res), len(reqs), r.returncode))
    c.cov["accepted"] = sum(x["ok"] == 1 for x in res)
    out = []
    for (_, d), x in zip(reqs, res):
        d = dict(d)
        if d["me"] >= 2 ** 31:
            d["me"] -= 2 ** 32
        d.update({"ok": x["ok"], "id": x.get("id", 0), "size": x.get("size", 0), "parties": x.get("parties", []), "get": x.get("get", []), "text": x.get("text", [])})
        out.append(json.dumps(d))
    show = lambda d: repr(bytes(d["file"]).decode("latin1")) if d["op"] == "load" else json.dumps({k: d[k] for k in d if k in ("rows", "n", "base")})
    c.sample({"file": show(reqs[3][1]), "accepted": res[3]["ok"]})

    def describe(k, d, ev):
        return ("config/%s/%d/%s" % (d["op"], d["me"], show(d)), "configuration of party %d from %s: %s" % (
            d["me"], show(d)[:400], "refused" if d["ok"] == 0 else "crash" if d["ok"] == 7 else "accepted as %s, looked up as %s" % (
                [[x[0], bytes(x[1]).decode("latin1"), x[2]] for x in d["parties"]], [[x[0], bytes(x[1]).decode("latin1"), x[2]] for x in d["get"]])), None)
    c.validate("ConfigTrace", out, describe, label="configurations from files and lists")


CHECKS = {"N06": N06}
HARNESSES = ["cfg_run"]
ABOUT = {"N06": ("TLA+ grammar of configuration files on character codes; answers of the real loader and lookups on enumerated and mutated files validated by TLC",
                 "files of up to two lines put together from fixed pieces exhaustively, longer ones sampled; blanks around numbers, plus signs, leading zeros, port 0 and blanks or commas in host names are left to the implementation")}
