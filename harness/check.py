"""Decides a property: model checking of the specification, and validation of
behaviours of the implementation, random and generated from the specification,
against it.  See DESIGN.md."""
import collections
import concurrent.futures as cf
import fnmatch
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import plans                            # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SRC = os.environ.get("UCIS_SRC", "/repo/src")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Trouble(Exception):
    """the check itself failed: no verdict"""


def env(scratch, **more):
    e = dict(os.environ, PYTHONPATH=SRC, UCIS_SRC=SRC, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), LANG="C.UTF-8", LC_ALL="C.UTF-8",
             TMPDIR=scratch)
    e.update(more)
    return e


# ------------------------------------------------------------------------ TLC

class Tlc:
    def __init__(self, scratch):
        self.scratch = scratch
        self.n = 0

    def run(self, module, cfg, args, workers, heap, limit, **more):
        self.n += 1
        d = os.path.join(self.scratch, "tlc%d-%d" % (os.getpid(), self.n))
        os.makedirs(d)
        for f in os.listdir(os.path.join(ROOT, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(ROOT, "spec", f), d)
        with open(os.path.join(d, "run.cfg"), "w") as fp:
            fp.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", CP,
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
               "-config", "run.cfg"] + args + [module]
        out = os.path.join(d, "out")
        try:
            with open(out, "w") as fp:
                rc = subprocess.run(cmd, cwd=d, stdout=fp, stderr=subprocess.STDOUT, timeout=limit,
                                    env=env(self.scratch, **more)).returncode
        except subprocess.TimeoutExpired:
            raise Trouble("TLC did not finish in %d s: %s" % (limit, module))
        with open(out) as fp:
            text = fp.read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, text


def tail(text):
    return "\n".join(text.splitlines()[-40:])


def stats(text):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
    if not m:
        raise Trouble("TLC gave no result:\n" + tail(text))
    return int(m[-1][0]), int(m[-1][1])


CFG = """INIT Init
NEXT NextB
CONSTANTS
 MaxDbs = %(dbs)d MaxNodes = %(nodes)d MaxBins = %(bins)d MaxHits = %(hits)d MaxHist = %(hist)d MaxSrcs = %(srcs)d
 NameSet = {%(names)s} WeightSet = {%(ws)s} AtLeastSet = {%(als)s} AmountSet = {%(amts)s}
 KindSet = {%(kinds)s} FileSet = {"f", "e"} FmtNames = {"fa", "xml", "txt"}
 Record = %(rec)s Random = %(rnd)s GenLen = %(len)d
 Frame = "%(frame)s" Arity = %(arity)d Sample = %(s1)d Sample2 = %(s2)d Focus = {%(focus)s}
 MaxLevel = %(level)d
 Start <- StartDbs
CHECK_DEADLOCK FALSE
"""
SMALL = dict(dbs=4, srcs=3, nodes=14, bins=12, hits=3, hist=2, names='"a", "p"', ws="1, 2", als="1, 2", amts="1",
             kinds='"bin", "ign"', rec="FALSE", rnd="FALSE", len=0)
LARGE = dict(dbs=7, srcs=3, nodes=30, bins=30, hits=30, hist=3, names='"a", "p", "r"', ws="0, 1, 3", als="0, 1, 2",
             amts="1, 3", kinds='"bin", "ign", "ill"', rec="TRUE", rnd="TRUE")
WHOLE = dict(SMALL, dbs=5, srcs=2, rec="TRUE", rnd="FALSE")


def quoted(l):
    return ", ".join('"%s"' % x for x in l)


def model_check(tlc, plan, tier, seed, workers):
    """the specification has the properties; it does not depend on the code"""
    out = []
    for frame, arity, focus, quick, thorough, invs, props in plan["mc"]:
        s1, s2, level = quick if tier == "quick" else thorough
        cfg = CFG % dict(SMALL, frame=frame, arity=arity, s1=s1, s2=s2, focus=quoted(focus), level=level)
        cfg += "VIEW View\n" + "".join("INVARIANT %s\n" % i for i in invs) + "".join(
            "PROPERTY %s\n" % p for p in props)
        rc, text = tlc.run("MC.tla", cfg, ["-seed", str(seed), "-fp", "1"], workers, "5g",
                           240 if tier == "quick" else 3 * 3600)
        if rc != 0 or "No error has been found" not in text:
            raise Trouble("model checking of the specification failed (%s, %s %s):\n%s" % (
                frame, invs, props, tail(text)))
        gen, dist = stats(text)
        out.append(dict(frame=frame, databases=arity, operations=focus, depth=level, invariants=invs,
                        action_properties=props, distinct=dist, generated=gen,
                        sample=[s1, s2]))
    return out


def behaviours(tlc, kind, entry, tier, seed):
    """programs: behaviours of the specification"""
    frame, arity, focus, length, quick, thorough = entry
    amount = quick if tier == "quick" else thorough
    if kind == "sim":
        cfg = CFG % dict(LARGE, frame=frame, arity=arity, s1=12 if tier == "quick" else 60,
                         s2=12 if tier == "quick" else 60, focus=quoted(focus), level=100000, len=length)
        rc, text = tlc.run("MC.tla", cfg, ["-simulate", "num=%d" % amount, "-depth", str(length + 2),
                                           "-seed", str(seed)], 1, "3g", 240 if tier == "quick" else 3600)
    else:
        cfg = CFG % dict(WHOLE, frame=frame, arity=arity, s1=amount[0], s2=amount[1], focus=quoted(focus),
                         level=100000, len=length)
        rc, text = tlc.run("MC.tla", cfg, ["-seed", str(seed), "-fp", "1"], 1, "4g",
                           240 if tier == "quick" else 3600)
    import tlagen
    out = list(tlagen.programs(text.splitlines()))
    if rc != 0 or not out:
        raise Trouble("no behaviours from the specification (%s):\n%s" % (entry, tail(text)))
    cap = 160 if tier == "quick" else 4000
    if kind == "all" and len(out) > cap:
        out = random.Random("%s/%s" % (seed, entry)).sample(out, cap)
    # the same behaviour only once
    seen, res = set(), []
    for p in out:
        k = json.dumps(p)
        if k not in seen:
            seen.add(k)
            res.append(p)
    return res


# -------------------------------------------------------------- implementation

def run_impl(scens, scratch, jobs=8):
    d = tempfile.mkdtemp(prefix="impl", dir=scratch)
    with open(os.path.join(d, "scen.ndjson"), "w") as fp:
        for s in scens:
            fp.write(json.dumps(s) + "\n")
    r = subprocess.run([sys.executable, os.path.join(HERE, "worker.py"), os.path.join(d, "scen.ndjson"), d],
                       env=env(scratch, JOBS=str(jobs)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Trouble("the library could not be run:\n" + tail(r.stdout))
    with open(os.path.join(d, "log.json")) as fp:
        log = json.load(fp)
    return os.path.join(d, "trace.ndjson"), log


TRACE_CFG = "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def validate(tlc, trace, log, tier, workers):
    """events that the specification does not allow: (scenario, event, clauses)"""
    rc, text = tlc.run("Trace.tla", TRACE_CFG, [], workers, "8g", 600 if tier == "quick" else 3600, TRACE=trace)
    if rc != 0 or "No error has been found" not in text:
        raise Trouble("validation of traces failed:\n" + tail(text))
    gen, dist = stats(text)
    want = sum(l["n"] + 1 for l in log.values())
    if dist != want:
        raise Trouble("%d states of the traces were visited, not %d" % (dist, want))
    fails = []
    for l in text.splitlines():
        if l.startswith('"FAIL '):
            s, i, cl = json.loads(json.loads(l)[5:])
            fails.append((s, int(i), cl))
    return fails, gen, dist


def execute(tlc, scens, scratch, tier, workers=8):
    """runs and validates scenarios, in batches"""
    fails, gen, dist, logs = [], 0, 0, {}
    size = 500
    batches = [scens[i:i + size] for i in range(0, len(scens), size)]
    with cf.ThreadPoolExecutor(1) as ex:
        nxt = ex.submit(run_impl, batches[0], scratch)
        for i in range(len(batches)):
            trace, log = nxt.result()
            if i + 1 < len(batches):
                nxt = ex.submit(run_impl, batches[i + 1], scratch)
            f, a, b = validate(tlc, trace, log, tier, workers)
            fails += f
            gen += a
            dist += b
            logs.update(log)
            shutil.rmtree(os.path.dirname(trace), ignore_errors=True)
    return fails, gen, dist, logs


# ----------------------------------------------------------------------- check

def relevant(clauses, pats):
    return [c for c in clauses if any(fnmatch.fnmatchcase(c, p) for p in pats)]


def known(pid):
    """[(clause, regular expression over the log of the event)]"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fp:
            for l in fp:
                m = re.match(r"finding: property=(\S+) clause=(\S+) scenario=(\S+) (.*)", l.strip())
                if m and m[1] == pid:
                    out.append((m[2], m[3], m[4]))
    return out


def brief(op):
    op = {k: v for k, v in op.items() if k not in ("val", "text", "steps")}
    return op


def main():
    t0 = time.time()
    args = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="vcheck-")
    try:
        if args[0] == "--replay":
            rc = replay(args[1], scratch)
        else:
            pid = args[0]
            tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
            rc = check(pid, tier, int(os.environ.get("VERIF_SEED", "1")), scratch, t0)
    except Trouble as e:
        print("no verdict: %s" % e)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def replay(path, scratch):
    with open(path) as fp:
        r = json.load(fp)
    fails, _, _, logs = execute(Tlc(scratch), [r["scenario"]], scratch, "quick")
    pats = plans.PLANS[r["property"]]["clauses"] + plans.ALWAYS
    bad = [(s, i, relevant(c, pats)) for s, i, c in fails if relevant(c, pats)]
    for s, i, c in bad:
        print("event %d: %s" % (i, " ".join(c)))
    for l in logs[r["scenario"]["id"]]["log"]:
        print("  " + l)
    if bad:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1 if bad else 0


def check(pid, tier, seed, scratch, t0):
    plan = plans.PLANS[pid]
    import gen
    import tlagen
    rseed = "%s" % seed
    with cf.ThreadPoolExecutor(8) as ex:
        mc = ex.submit(model_check, Tlc(os.path.join(scratch, "mc")), plan, tier, seed, 4)
        beh = [(k, e, ex.submit(behaviours, Tlc(os.path.join(scratch, "g%s%d" % (k, j))), k, e, tier,
                                seed * 100 + j))
               for k in ("sim", "all") for j, e in enumerate(plan[k])]
        scens, parts = [], []
        for suite, q, t in plan["suites"]:
            l = gen.scenarios(suite, rseed, q if tier == "quick" else t)
            scens += l
            parts.append(dict(kind="random", suite=suite, scenarios=len(l)))
        for j, (k, e, f) in enumerate(beh):
            ps = f.result()
            scens += [tlagen.convert(p, "%s%d-%s-%d" % (k, j, rseed, n), gen.SUITES[plan["suites"][0][0]][2],
                                     plan.get("native", False))
                      for n, p in enumerate(ps)]
            parts.append(dict(kind="behaviours of the specification, " + (
                "simulated" if k == "sim" else "all up to the length"),
                start=e[0], databases=e[1], operations=e[2], length=e[3], scenarios=len(ps)))
        fails, gen_n, dist, logs = execute(Tlc(os.path.join(scratch, "tr")), scens, scratch, tier)
        mcs = mc.result()
    byid = {s["id"]: s for s in scens}
    pats = plan["clauses"] + plans.ALWAYS
    broken = [f for f in fails if any(c.startswith("harness:") for c in f[2])]
    if broken:
        raise Trouble("the harness misbehaved: %s" % (broken[:3],))
    bad = collections.OrderedDict()
    for s, i, c in fails:
        c = relevant(c, pats)
        if c:
            bad.setdefault(s, []).append((i, c))
    # a scenario that timed out or died is tried once more, on its own
    for s in list(bad):
        if all(set(c) <= set(plans.ALWAYS) for _, c in bad[s]):
            f2, _, _, l2 = execute(Tlc(os.path.join(scratch, "again" + s)), [byid[s]], scratch, tier)
            again = [(i, relevant(c, pats)) for _, i, c in f2 if relevant(c, pats)]
            if again:
                bad[s], logs[s] = again, l2[s]
            else:
                del bad[s]
    found = []
    kn = known(pid)
    for s in list(bad):
        rest = []
        for i, c in bad[s]:
            hit = [k for k in kn if k[1] == s and set(c) <= set(k[0].split(","))]
            if hit:
                found.append(hit[0])
            else:
                rest.append((i, c))
        bad[s] = rest
        if not rest:
            del bad[s]
    for k in dict.fromkeys(found):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))

    ops = collections.Counter(o for l in logs.values() for o in l["ops"])
    rnd = random.Random(seed)
    samples = []
    for s in rnd.sample(scens, min(4, len(scens))):
        samples.append(dict(id=s["id"], operations=[brief(o) for o in s["ops"]][:6], events=logs[s["id"]]["n"]))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(m["distinct"] for m in mcs) + dist,
            transitions=sum(m["generated"] for m in mcs) + gen_n - len(scens),
            traces_validated_against_impl=len(scens),
            samples=samples,
            model_checking=mcs, scenarios=parts, trace_states=dist, events=dict(ops),
            clauses=plan["clauses"]),
        assumptions=[
            "the observations the harness makes through the public interface are what a user sees",
            "the specification says what the property says (spec/Cov.tla, spec/Files.tla)",
            "TLC, lxml's schema validator and the XML, YAML and JSON parsers used by the harness are right"],
        wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)

    if not bad:
        print("%s: held on %d behaviours (%d events) and %d states of the specification, %.1f s" % (
            pid, len(scens), dist - len(scens), sum(m["distinct"] for m in mcs), time.time() - t0))
        return 0
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    shown = set()
    for s, l in bad.items():
        key = tuple(sorted(set(c for _, cs in l for c in cs)))
        if key in shown or len(shown) >= 5:
            continue
        shown.add(key)
        p = os.path.join(ROOT, "replay", "%s-%s.json" % (pid, s))
        with open(p, "w") as fp:
            json.dump(dict(property=pid, events=[dict(event=i, clauses=c) for i, c in l], log=logs[s]["log"],
                           scenario=byid[s]), fp, indent=1)
        print("%s: event %d breaks %s" % (s, l[0][0], " ".join(l[0][1])))
        for x in logs[s]["log"][:3]:
            print("    " + x[:300])
        print("VIOLATION property=%s replay=%s" % (pid, p))
    print("%s: violated by %d of %d behaviours" % (pid, len(bad), len(scens)))
    return 1


if __name__ == "__main__":
    main()
