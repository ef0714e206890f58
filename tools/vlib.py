"""Shared machinery: building harnesses from /repo's working tree, running TLC, verdicts, evidence."""
import concurrent.futures, glob, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = 8


class CheckError(Exception):
    """The check could not be carried out (no verdict)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def _hash_tree(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def repo_sources():
    out = []
    for base in ("src", "experiments", "secure-computation-library/src", "secure-computation-library/include"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".cc", ".hpp", ".cpp", ".c", ".inc"))]
    return out


def lib_sources():
    s = sorted(glob.glob(REPO + "/src/tp/**/*.cc", recursive=True))
    s += sorted(glob.glob(REPO + "/secure-computation-library/src/**/*.cc", recursive=True))
    return s


BASE_FLAGS = ["-std=gnu++17", "-march=native", "-include", "cstdint", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE",
              "-I" + REPO + "/src", "-I" + REPO + "/secure-computation-library/include", "-I" + VERIF + "/harness"]


def _cc(args):
    src, obj, flags = args
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode == 0:
        os.replace(tmp, obj)
    return src, r.returncode, r.stderr


def compile_all(jobs):
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for src, rc, err in ex.map(_cc, jobs):
            if rc != 0:
                raise CheckError("cannot compile %s:\n%s" % (src, err[-3000:]))


def build(name, srcs=None, flags=(), variant="plain", with_lib=True, libs=("-lpthread",)):
    """Builds harness/<name>.cc (plus srcs) against /repo's current tree; returns the executable's path."""
    flags = BASE_FLAGS + list(flags)
    forced = [a for a in flags if a.startswith(VERIF + "/harness/")]      # headers included before every source
    libs_cc = lib_sources() if with_lib else []
    tree = _hash_tree([x for x in repo_sources() if x not in set(lib_sources())] + forced)
    fl = hashlib.sha256((" ".join(flags) + REPO).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, "obj", variant + "-" + fl + "-" + tree)
    os.makedirs(d, exist_ok=True)
    prune(os.path.join(BUILD, "obj"), keep=d)
    hs = sorted(glob.glob(VERIF + "/harness/*.h"))
    mains = [VERIF + "/harness/" + name + ".cc"] + [VERIF + "/harness/" + s for s in (srcs or [])]
    hh = _hash_tree(hs + mains + libs_cc)
    exe = os.path.join(d, name + "-" + hh)
    if os.path.exists(exe):
        return exe
    jobs, objs = [], []
    for s in libs_cc:
        o = os.path.join(d, _hash_tree([s]) + "_" + os.path.basename(s) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags))
    for m in mains:
        o = os.path.join(d, os.path.basename(m) + "-" + hh + ".o")
        objs.insert(0, o)
        if not os.path.exists(o):
            jobs.insert(0, (m, o, flags))
    compile_all(jobs)
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *flags, *objs, "-o", tmp, *libs], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("cannot link %s:\n%s" % (name, r.stderr[-3000:]))
    os.replace(tmp, exe)
    return exe


def prune(base, keep, limit=6):
    try:
        ds = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
        os.utime(keep)
        old = [x for x in ds if x != keep]
        for x in old[:max(0, len(ds) - limit)]:
            shutil.rmtree(x, ignore_errors=True)
    except OSError:
        pass


def java_build():
    src = sorted(glob.glob(VERIF + "/java/*.java"))
    d = os.path.join(BUILD, "java-" + _hash_tree(src))
    if not os.path.exists(d):
        tmp = d + ".%d.tmp" % os.getpid()
        os.makedirs(tmp)
        r = subprocess.run(["javac", "-cp", TLA, "-d", tmp, *src], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac: " + r.stderr[-2000:])
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


# ---------------------------------------------------------------- TLC
def tlc(module, consts=None, env=None, extra=(), init="Init", nxt="Next", invariants=(), props=(), view=None,
        constraint=None, deadlock=True, workers=CORES, heap="8g", timeout=800, simulate=None, override=True, spec=None,
        symmetry=None, alias=None, defs=None, postcondition=None):
    """Runs TLC; returns dict(code, out, states, distinct, depth)."""
    td = tempfile.mkdtemp(prefix="tlc.")
    try:
        cfg = []
        for k, v in (consts or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, v))
        for k, v in (defs or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        cfg.append("SPECIFICATION " + spec if spec else "INIT %s\nNEXT %s" % (init, nxt))
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for p in props:
            cfg.append("PROPERTY " + p)
        if view:
            cfg.append("VIEW " + view)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if alias:
            cfg.append("ALIAS " + alias)
        if symmetry:
            cfg.append("SYMMETRY " + symmetry)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        if not deadlock:
            cfg.append("CHECK_DEADLOCK FALSE")
        with open(td + "/m.cfg", "w") as f:
            f.write("\n".join(cfg) + "\n")
        cp = TLA + ":" + CM + ((":" + java_build()) if override else "")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-cp", cp, "tlc2.TLC", "-metadir", td + "/meta",
               "-noGenerateSpecTE", "-workers", str(workers), "-config", td + "/m.cfg", *extra]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=SPEC, timeout=timeout)
            code, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timed out on %s after %ds" % (module, timeout))
        res = {"code": code, "out": out, "wall": time.time() - t0, "states": 0, "distinct": 0, "depth": 0}
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            res["states"], res["distinct"] = (int(x.replace(",", "")) for x in m.groups())
        if simulate:
            for m in re.finditer(r"([\d,]+) states checked", out):
                res["states"] = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            res["depth"] = int(m.group(1))
        return res
    finally:
        shutil.rmtree(td, ignore_errors=True)


REJECT = (10, 11, 12, 13)


def tlc_ok(res, what):
    if res["code"] == 0:
        return
    raise CheckError("TLC failed on %s (code %d):\n%s" % (what, res["code"], res["out"][-3500:]))
