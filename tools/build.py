#!/usr/bin/env python3
"""Builds the conformance drivers of /verif/driver against /repo's *current* working tree.

Everything is compiled from /repo/src/PLASMA (never from /repo/_build) into the
git-ignored directory /verif/build, incrementally (keyed by file contents).  The source lists are
read from the project's own CMakeLists.txt, so a source file added there is picked up.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EUROPA_REPO", "/repo")
SRC = os.path.join(REPO, "src", "PLASMA")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MODULES = ["TinyXml", "Utils", "ConstraintEngine", "PlanDatabase", "RulesEngine",
           "TemporalNetwork", "NDDL", "Solvers", "Resource"]
# driver -> modules it links (dependants first)
DRIVERS = {
    "drv_core": ["ConstraintEngine", "Utils", "TinyXml"],
    "drv_plan": ["Resource", "Solvers", "NDDL", "TemporalNetwork", "RulesEngine", "PlanDatabase",
                 "ConstraintEngine", "Utils", "TinyXml"],
}

def sources(mod):
    d = os.path.join(SRC, mod)
    out = []
    txt = ""
    try:
        txt = open(os.path.join(d, "CMakeLists.txt")).read()
    except OSError:
        pass
    txt = re.sub(r"(?m)^\s*#.*$", "", txt)
    for var, sub in (("root_sources", ""), ("base_sources", "base"), ("component_sources", "component")):
        m = re.search(r"set\(\s*%s\s+([^)]*)\)" % var, txt)
        if not m:
            continue
        for f in re.findall(r'[^\s"]+', m.group(1)):
            p = os.path.join(d, sub, f)
            if f.endswith((".cc", ".cpp", ".c")) and os.path.exists(p):
                out.append(p)
    if not out:
        for sub in ("", "base", "component"):
            p = os.path.join(d, sub)
            if os.path.isdir(p):
                out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith((".cc", ".cpp"))]
    return out

def _sha(path, memo={}):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return "missing"

class Hashes:
    def __init__(self):
        self.m = {}
    def __call__(self, p):
        if p not in self.m:
            self.m[p] = _sha(p)
        return self.m[p]

def _fresh(out, cmd, H):
    """An output is up to date iff it exists and the command and the *contents* of everything it read are as recorded
    (contents, not time stamps: the tree may be a fresh checkout)."""
    try:
        d = json.load(open(out + ".dep"))
    except (OSError, ValueError):
        return False
    return os.path.exists(out) and d["cmd"] == cmd and all(H(p) == h for p, h in d["deps"].items())

def _record(out, cmd, deps, H):
    json.dump({"cmd": cmd, "deps": {p: H(p) for p in deps}}, open(out + ".dep", "w"))

def _run(cmd):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (cmd, r.stdout[-6000:]))

def _compile(job):
    src, out, flags, H = job
    cmd = "g++ -x c++ %s -MMD -MF %s.d -c %s -o %s" % (flags, out, src, out)
    if _fresh(out, cmd, H):
        return False
    os.makedirs(os.path.dirname(out), exist_ok=True)
    _run(cmd)
    txt = open(out + ".d").read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]
    _record(out, cmd, deps, H)
    return True

def _build(target):
    H = Hashes()
    mods = DRIVERS[target]
    inc = []
    for m in MODULES:
        for sub in ("", "base", "component", "component/NDDL", "component/Solvers"):
            p = os.path.join(SRC, m, sub)
            if os.path.isdir(p):
                inc.append("-I" + p.rstrip("/"))
    antlr_out = os.path.join(BUILD, "antlr")
    inc += ["-I" + antlr_out, "-I" + os.path.join(VERIF, "driver")]
    flags = ("-O0 -g0 -w -fno-omit-frame-pointer -m64 -DEUROPA_64_BIT_PLATFORM -DTIXML_USE_STL=1 " + " ".join(inc))
    extra = {}
    if "NDDL" in mods:
        os.makedirs(antlr_out, exist_ok=True)
        jar = os.path.join(REPO, "ext", "lib", "antlr-3.jar")
        g = os.path.join(SRC, "NDDL", "base", "antlr")
        for gf, outs, more in (("NDDL3.g", ("NDDL3Lexer.c", "NDDL3Parser.c"), ()),
                               ("NDDL3Tree.g", ("NDDL3Tree.c",), (os.path.join(g, "NDDL3.g"),))):
            src = os.path.join(g, gf)
            cmd = "java -cp %s org.antlr.Tool -fo %s %s" % (jar, antlr_out, src)
            o0 = os.path.join(antlr_out, outs[0])
            if not _fresh(o0, cmd, H):
                _run(cmd)
                H.m.clear()
                _record(o0, cmd, [src, *more], H)
            extra.setdefault("NDDL", []).extend(os.path.join(antlr_out, o) for o in outs)
    jobs, libobjs = [], {}
    for m in mods:
        libobjs[m] = []
        for s in sources(m) + extra.get(m, []):
            o = os.path.join(BUILD, "obj", m, os.path.relpath(s, SRC).replace("/", "_").replace("..", "up") + ".o")
            libobjs[m].append(o)
            jobs.append((s, o, flags, H))
    dd = os.path.join(VERIF, "driver", target)
    dobjs = []
    for f in sorted(os.listdir(dd)):
        if f.endswith(".cc"):
            o = os.path.join(BUILD, "obj", target, f + ".o")
            dobjs.append(o)
            jobs.append((os.path.join(dd, f), o, flags, H))
    # biggest sources first, so the longest compilation does not come last
    jobs.sort(key=lambda j: (0 if "/driver/" in j[0] or "antlr" in j[0] else 1, -os.path.getsize(j[0])))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(_compile, jobs))
    libs = []
    for m in mods:
        lib = os.path.join(BUILD, "lib%s.a" % m)
        cmd = "rm -f %s && ar crs %s %s" % (lib, lib, " ".join(libobjs[m]))
        if not _fresh(lib, cmd, H):
            _run(cmd)
            _record(lib, cmd, libobjs[m], H)
        libs.append(lib)
    out = os.path.join(BUILD, target)
    cmd = "g++ -m64 -o %s %s -Wl,--start-group %s -Wl,--end-group %s -ldl -lpthread" % (
        out, " ".join(dobjs), " ".join(libs), "-lantlr3c" if "NDDL" in mods else "")
    H.m.clear()
    if not _fresh(out, cmd, H):
        _run(cmd)
        _record(out, cmd, dobjs + libs, H)
    return out

def build(target):
    """Returns the path of the built driver; raises RuntimeError with the log if it does not build."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(target)

if __name__ == "__main__":
    for t in (sys.argv[1:] or list(DRIVERS)):
        print(build(t))
