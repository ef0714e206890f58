"""A check: collects coverage, rejections and known findings, and writes the evidence file."""
import hashlib, json, os, random, re, subprocess, sys, tempfile, time
from vlib import *

KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assume, self.cov = [], [], {}
        self.violations, self.known_hits = [], []
        self.known = []
        if os.path.exists(KNOWN):
            self.known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
        self.rng = random.Random("%s/%s/%d" % (pid, tier, SEED))
        self.tmp = tempfile.mkdtemp(prefix="chk-%s." % pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violate(self, key, what, replay=None):
        """key identifies the failing input or call site; a listed known finding is not an alarm."""
        for k in self.known:
            if re.fullmatch(k["key"], key):
                if key not in [x[0] for x in self.known_hits]:
                    self.known_hits.append((key, k["what"]))
                return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        text = "property: %s\nkey: %s\nwhat: %s\n\n%s\n" % (self.pid, key, what, replay or "")
        path = os.path.join(d, "%s-%s.txt" % (self.pid, hashlib.sha256(text.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(text)
        self.violations.append((what, path))
        log("rejected: %s  %s" % (key, what[:600]))

    # -- design model checking
    def model(self, module, what="", **kw):
        t = time.time()
        r = tlc(module, **kw)
        if r["code"] in REJECT:
            # the design itself is inconsistent: that is an error of the specification, not of the code
            raise CheckError("the specification %s violates its own invariants:\n%s" % (module, r["out"][-3000:]))
        tlc_ok(r, module)
        self.states += r["distinct"] or r["states"]
        self.transitions += r["states"]
        self.cov.setdefault("models", []).append(
            {"module": module, "what": what, "states": r["distinct"] or r["states"], "transitions": r["states"],
             "depth": r["depth"], "wall_s": round(time.time() - t, 1)})
        return r

    # -- conformance
    def validate(self, module, lines, describe, rerun=None, limit=3, consts=None, env=None, label=None, nxt="Next",
                 init="Init", heap="12g", timeout=800):
        """Every recorded run (one JSON line each) must be a behaviour of `module`."""
        lines = list(lines)
        idx = list(range(len(lines)))
        total = len(lines)
        t = time.time()
        tries = 0
        while idx:
            path = os.path.join(self.tmp, "trace.ndjson")
            with open(path, "w") as f:
                f.write("\n".join(lines[i] for i in idx) + "\n")
            e = {"TRACE": path, "PROP": self.pid}
            e.update(env or {})
            r = tlc(module, consts=consts, env=e, view="View", alias="Alias", init=init, nxt=nxt, heap=heap, timeout=timeout)
            self.states += r["distinct"]
            self.transitions += r["states"]
            if r["code"] == 0:
                break
            rs, ls = re.findall(r"/\\ run = (\d+)", r["out"]), re.findall(r"/\\ l = (\d+)", r["out"])
            ms = [(rs[-1], ls[-1])] if rs and ls else []
            if r["code"] == 255 and not ms:
                # evaluation error in the initial state or before: find the run by bisection
                if len(idx) == 1:
                    ms = [("1", "0")]
                else:
                    raise CheckError("TLC failed on %s:\n%s" % (module, r["out"][-3000:]))
            if not ms:
                m = r["out"].find("Error:")
                raise CheckError("TLC failed on %s (code %d):\n%s" % (module, r["code"], r["out"][max(0, m - 200):][:3000]))
            k, ev = int(ms[-1][0]) - 1, int(ms[-1][1])
            i = idx.pop(k)
            total -= 1
            line = lines[i]
            if rerun is not None and tries < 6:
                again = rerun(i)
                with open(path, "w") as f:
                    f.write(again + "\n")
                r2 = tlc(module, consts=consts, env=e, view="View", alias="Alias", init=init, nxt=nxt, heap=heap, timeout=timeout)
                if r2["code"] == 0:
                    total += 1
                    self.cov["unconfirmed"] = self.cov.get("unconfirmed", 0) + 1
                    continue
                line = again
            tries += 1
            extra = ""
            if r["code"] not in REJECT:
                m = re.search(r"Error: .*?(?=\nError: The behavior|\Z)", r["out"], re.S)
                extra = "the event is outside the domain of the specification: " + (m.group(0)[:300] if m else "")
            key, what, rep = describe(i, json.loads(line), ev)
            self.violate(key, what + (" | " + extra if extra else ""), rep)
            if len(self.violations) >= limit:
                break
        self.traces += total
        self.cov.setdefault("conformance", []).append(
            {"module": module, "what": label or "", "traces": total, "wall_s": round(time.time() - t, 1)})
        return total

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"]}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, what in self.known_hits:
            log("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for what, path in self.violations:
            log("VIOLATION property=%s replay=%s" % (self.pid, path))
        log("%s %s: %s, %d states, %d traces validated, %.1fs" % (
            self.pid, self.tier, "VIOLATED" if self.violations else "held", self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def run_cmd(cmd, timeout, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd, input=stdin)
    except subprocess.TimeoutExpired:
        raise CheckError("timed out: %s" % " ".join(cmd)[:200])
