"""Harness shared by all checks: run scripts through a driver (the real code), judge the recorded
traces with TLC against a trace specification, run the model-checking configurations, write the
evidence file and report.  See DESIGN.md."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)

class Ep:
    """One episode: a session kind and a list of operation lines."""
    __slots__ = ("kind", "lines")
    def __init__(self, kind, lines):
        self.kind, self.lines = kind, lines

class MachineryError(Exception):
    pass

# ------------------------------------------------------------------ running the real code
def _chunk(binary, eps, limit, env):
    """eps: [(id, Ep)].  Returns a list of JSON lines.  A crash ends the episode it happens in with a
    'crash' event; the remaining episodes go on in a new process."""
    out, i, crashes, hangs = [], 0, 0, 0
    while i < len(eps):
        script = []
        for n, ep in eps[i:]:
            script.append("begin %s %s" % (n, ep.kind))
            script += ep.lines
            script.append("end")
        try:
            r = subprocess.run([binary, str(limit)], input="\n".join(script) + "\n", stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, env=env, timeout=600, errors="replace")
            text, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as t:
            text = t.stdout.decode("utf8", "replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
            rc = -9
        if rc == 0:
            out += text.splitlines()
            break
        lines = text.splitlines()
        if lines and not lines[-1].endswith("}"):
            lines.pop()
        nb = sum(1 for x in lines if x.startswith('{"op":"begin"'))
        done = bool(lines) and lines[-1].startswith('{"op":"end"')
        if nb == 0 or done:      # died in the constructor of the next episode's session
            if i + nb < len(eps):
                lines.append(json.dumps({"op": "begin", "ep": str(eps[i + nb][0]), "a": [], "err": ""}))
                nb += 1
        if not lines[-1].startswith('{"op":"crash"'):
            lines.append(json.dumps({"op": "crash", "sig": rc, "err": "process died, status %d" % rc}))
        out += lines
        out.append('{"op":"end","err":""}')
        i += max(nb, 1)
        crashes += 1
        hangs += '"sig":14' in lines[-1] or rc == -14
        if crashes > 40 or hangs > 3:
            break                # enough evidence
    return out

def run_driver(driver, eps, limit=10, nshard=NPROC, tmp=None):
    """Runs all episodes, sharded.  Returns list of (path, n_events)."""
    env = dict(os.environ, MALLOC_PERTURB_="165")
    shards = [[] for _ in range(nshard)]
    for k, ep in enumerate(eps):
        shards[k % nshard].append(("%d" % k, ep))
    shards = [s for s in shards if s]
    with cf.ThreadPoolExecutor(nshard) as ex:
        res = list(ex.map(lambda s: _chunk(driver, s, limit, env), shards))
    files = []
    for k, lines in enumerate(res):
        p = os.path.join(tmp, "shard%d.ndjson" % k)
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        files.append((p, len(lines)))
    return files

# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, workers=1, heap="2g", timeout=840, extra=(), tmp=None):
    """Runs TLC; returns (ok, output, states, distinct)."""
    md = tempfile.mkdtemp(dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR,
           "-Djava.io.tmpdir=" + md, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as t:
        out = t.stdout.decode("utf8", "replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
        rc = -1
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc == 0, out, gen, dist, rc

def clean(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", '"FAIL', '"GEN', "Progress(")) and not re.match(r"\d+\. Line", l))

FAILRE = re.compile(r'^"FAIL\|([^|]*)\|([^|]*)\|([^|]*)\|(.*)"?$')
def judge(module, files, tmp, heap="3g"):
    """Trace-checks every shard.  Returns (fails, states); fails = [(tag, ep, idx, detail)]."""
    def one(f):
        ok, out, gen, dist, rc = tlc(module, env={"TRACE": f[0]}, heap=heap, tmp=tmp, timeout=1500)
        fails = []
        for line in out.splitlines():
            m = FAILRE.match(line.strip())
            if m:
                fails.append((m.group(1), m.group(2), int(m.group(3)), m.group(4).rstrip('"')))
        if not ok:
            if rc == -1:
                raise MachineryError("TLC timed out on " + f[0])
            raise MachineryError("TLC did not accept the trace format of %s:\n%s" % (f[0], clean(out)[-3000:]))
        return fails, gen
    with cf.ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(one, files))
    return [x for r in rs for x in r[0]], sum(r[1] for r in rs)

def generate(module, cfg, tmp, workers=4, heap="4g", timeout=800, extra=(), env=None):
    """Model-checks a configuration; returns (ok, output, generated, distinct, printed 'GEN|' lines)."""
    ok, out, gen, dist, rc = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra, tmp=tmp, env=env)
    gens = [l.strip()[5:].rstrip('"') for l in out.splitlines() if l.strip().startswith('"GEN|')]
    return ok, out, gen, dist, gens
