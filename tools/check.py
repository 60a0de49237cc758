#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property: model-checks the specification, drives the real code (built from /repo's working
tree) with behaviours generated from it and at random, and judges the recorded traces with TLC."""
import argparse, hashlib, json, os, random, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, vt
from suites import SUITES
import suites_load  # noqa: F401  (registers every suite)

VERIF = B.VERIF

def findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) tag=(\S+) detail=/(.*)/ script=/(.*)/ :: (.*)", line.strip())
        if m:
            out.append(m.groups())
    return out

def match_known(known, prop, tag, detail, lines):
    for p, t, d, s, what in known:
        if p == prop and re.fullmatch(t, tag) and re.search(d, detail) and re.search(s, ";".join(lines)):
            return what
    return None

class Run:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.parts, self.fails = [], [], []
        self.kinds = {}
    def drive(self, name, driver, module, eps, rule=""):
        t = time.time()
        binary = B.build(driver)
        d = tempfile.mkdtemp(dir=self.tmp)
        BATCH = 24000
        for b in range(0, len(eps), BATCH):
            part = eps[b:b + BATCH]
            files = vt.run_driver(binary, part, tmp=d)
            try:
                fails, st = vt.judge(module, files, d)
            except vt.MachineryError as e:
                # a trace whose shape the specification cannot even read is a deviation of the code, provided the
                # specification itself works (it does on the unchanged tree); narrow it down to one episode
                fails, st = self.unreadable(binary, module, part, str(e)), 0
            ne = sum(f[1] for f in files)
            self.events += ne; self.traces += len(part); self.states += st; self.trans += st
            mine = [f for f in fails if f[0].startswith((self.prop + ".", "ERR."))]
            for tag, ep, idx, detail in mine:
                self.fails.append((tag, part[int(ep)], idx, detail, driver, module))
            other = sorted({f[0] for f in fails} - {f[0] for f in mine})
            self.parts.append(dict(part=name, episodes=len(part), events=ne, judged_by=module, seconds=round(time.time() - t, 1), deviations=len(mine), other_tags=other))
        if eps and len(self.samples) < 6:
            e = eps[len(eps) // 2]
            self.samples.append({"part": name, "session": e.kind, "script": e.lines[:40]})
        shutil.rmtree(d, ignore_errors=True)
    def unreadable(self, binary, module, part, msg):
        def bad(eps):
            d = tempfile.mkdtemp(dir=self.tmp)
            try:
                vt.judge(module, vt.run_driver(binary, eps, tmp=d), d)
                return False
            except vt.MachineryError:
                return True
            finally:
                shutil.rmtree(d, ignore_errors=True)
        lo, n = part, 0
        while len(lo) > 1 and n < 24:
            n += 1
            h = lo[:len(lo) // 2]
            lo = h if bad(h) else lo[len(lo) // 2:]
        if not bad(lo):
            raise vt.MachineryError(msg)
        k = part.index(lo[0])
        return [("ERR.unreadable", str(k), 1, "the recorded trace cannot be evaluated: " + vt.clean(msg)[-300:].replace("\n", " "))]
    def confirm(self, ep, driver, module, tag):
        """does the episode deviate on its own, in a fresh process?"""
        d = tempfile.mkdtemp(dir=self.tmp)
        try:
            fails, _ = vt.judge(module, vt.run_driver(B.build(driver), [ep], nshard=1, tmp=d), d)
            return any(f[0] == tag for f in fails)
        except vt.MachineryError:
            return tag == "ERR.unreadable"
        finally:
            shutil.rmtree(d, ignore_errors=True)

def write_replay(prop, tag, ep, idx, detail, driver, module, alone):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    body = "\n".join(ep.lines)
    h = hashlib.sha1((ep.kind + body + tag).encode()).hexdigest()[:12]
    p = os.path.join(d, h + ".txt")
    with open(p, "w") as f:
        f.write("# property=%s tag=%s step=%d alone=%s\n# %s\n# driver=%s judge=%s\nbegin 0 %s\n%s\nend\n" % (prop, tag, idx, alone, detail, driver, module, ep.kind, body))
    return p

def replay(path, tmp):
    head = [l for l in open(path) if l.startswith("#")]
    m = re.search(r"driver=(\S+) judge=(\S+)", "".join(head))
    body = [l.rstrip("\n") for l in open(path) if not l.startswith("#")]
    ep = vt.Ep(body[0].split(" ", 2)[2], body[1:-1])
    files = vt.run_driver(B.build(m.group(1)), [ep], nshard=1, tmp=tmp)
    print(open(files[0][0]).read())
    for f in vt.judge(m.group(2), files, tmp)[0]:
        print(f)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="vt_")
    try:
        if a.replay:
            return replay(a.replay, tmp)
        return check(a.prop, a.tier, seed, tmp, t0)
    except vt.MachineryError as e:
        print("MACHINERY: " + str(e)[-3000:])
        return 2
    except RuntimeError as e:
        print("BUILD: " + str(e)[-3000:])
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, tmp, t0):
    mcs, parts = SUITES[prop](tier)
    run = Run(prop, tier, seed, tmp)
    mcinfo = []
    for mc in mcs:
        cfg = mc.tcfg if tier == "thorough" and mc.tcfg else mc.cfg
        ok, out, gen, dist, lines = vt.generate(mc.module, cfg, tmp, workers=8, timeout=800 if tier == "quick" else 7200)
        if not ok:
            raise vt.MachineryError("model checking of %s failed:\n%s" % (cfg, vt.clean(out)[-2000:]))
        run.states += dist; run.trans += gen
        mcinfo.append(dict(config=cfg, what=mc.what, states_generated=gen, distinct_states=dist, behaviours=len(lines)))
        if mc.replay:
            if tier == "quick" and mc.limit and len(lines) > mc.limit:
                lines = random.Random("%d/%s" % (seed, prop)).sample(lines, mc.limit)
            run.drive("model:" + cfg, mc.driver, mc.judge, mc.replay(lines))
    for k, part in enumerate(parts):
        rng = random.Random("%s/%d/%s" % (part.name, seed, prop))
        run.drive(part.name, part.driver, part.module, part.eps(rng), part.rule)
    known, shown, viol = findings(), {}, []
    run.fails.sort(key=lambda f: (f[0].startswith("ERR."), len(f[1].lines)))
    seen = set()
    for tag, ep, idx, detail, driver, module in run.fails:
        what = match_known(known, prop, tag, detail, ep.lines[:idx])
        if what:
            shown[what] = shown.get(what, 0) + 1
            continue
        if tag in seen and len(viol) >= 1 or len(viol) >= 5:
            viol.append(None)
            continue
        seen.add(tag)
        alone = run.confirm(ep, driver, module, tag)
        viol.append((tag, write_replay(prop, tag, ep, idx, detail, driver, module, alone), detail, idx))
    for k, part in enumerate(known):
        if part[0] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, part[4]))
    real = [v for v in viol if v]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=run.states, transitions=run.trans, traces_validated_against_impl=run.traces,
                            trace_events=run.events, model_checking=mcinfo, parts=run.parts, samples=run.samples,
                            known_findings_seen=shown),
              assumptions=["the driver reports the public observers of the code faithfully", "TLC evaluates the specification correctly"],
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for tag, path, detail, idx in real:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s at step %d: %s" % (tag, idx, detail[:300]))
    print("%s %s: %d model/trace states, %d traces of the real code, %d events, %d deviations, %.0f s" %
          (prop, tier, run.states, run.traces, run.events, len(viol), time.time() - t0))
    return 1 if real else 0

if __name__ == "__main__":
    sys.exit(main())
