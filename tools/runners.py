"""Jobs other than drawing histories at random."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor

from check import NoVerdict, sample_of


def explore(run, theme, depth, timeout, module="MC"):
    """The states of a small world (MC.tla, SMC.tla), each by the requests that lead there."""
    world = os.path.join(run.dir, "world-%s-%s.json" % (module, theme))
    rc, out = run.tlc(module + ".tla", module + ".cfg", env={"THEME": theme, "DEPTH": str(depth), "OUT": world}, timeout=timeout, heap="8g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc != 0 or not m or "Error:" in out:
        raise NoVerdict("TLC did not finish with %s:\n" % theme + "\n".join(l[:400] for l in out.split("\n") if "@@" not in l)[-3000:])
    paths = sorted({tuple(int(x) for x in re.findall(r"\d+", p)) for p in re.findall(r'"@@S (<<.*?>>)"', out)})
    run.cov["states"] += int(m.group(2))
    run.cov["transitions"] += int(m.group(1))
    run.cov["model: distinct states of " + theme] = int(m.group(2))
    return world, paths


DESIGN = """SPECIFICATION Spec
CONSTANTS
  Ops = %(ops)d
  Writers = {%(writers)s}
  Readers = {%(readers)s}
  LockReads = %(LockReads)s
  CloneTypes = %(CloneTypes)s
  CloneIndexes = %(CloneIndexes)s
  SnapInLock = %(SnapInLock)s
INVARIANTS NoRace SnapshotsAtomic SnapshotsKeep NothingLost NotStuck
%(more)s
CHECK_DEADLOCK FALSE
"""


def design(run, job, n, jn):
    """Explores how processes share a database (Concurrency.tla), with and without the precautions of the code."""
    care = ("LockReads", "CloneTypes", "CloneIndexes", "SnapInLock")
    sizes = [(1, 2, 1), (1, 1, 2)] if run.tier == "quick" else [(2, 2, 1), (1, 2, 2), (2, 1, 2), (1, 3, 1)]
    cases = [(None, s) for s in sizes] + [("CloneIndexes", (1, 2, 1))] + [(c, (1, 2, 1)) for c in care if c != "CloneIndexes"]

    def go(case):
        without, (ops, ws, rs) = case
        d = dict(ops=ops, writers=", ".join('"w%d"' % i for i in range(ws)), readers=", ".join('"r%d"' % i for i in range(rs)),
                 more="PROPERTIES Finishes" if without is None and ops * (ws + rs) < 5 else "")
        d.update({c: "FALSE" if c == without else "TRUE" for c in care})
        path = os.path.join(run.dir, "design-%s-%d%d%d.cfg" % (without, ops, ws, rs))
        with open(path, "w") as f:
            f.write(DESIGN % d)
        rc, out = run.tlc("Concurrency.tla", path, workers=2, timeout=3600 if run.tier != "quick" else 600, heap="4g")
        done = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if without in (None, "CloneIndexes"):
            if rc != 0 or not done or "Error:" in out:
                raise NoVerdict("the design model fails:\n" + out[-3000:])
            return int(done.group(2)), int(done.group(1)), "model: states of the design with %d operations each of %d writers and %d readers" % (ops, ws, rs) + (" in place" if without else "")
        if "is violated" not in out:
            raise NoVerdict("the design model does without %s:\n%s" % (without, out[-3000:]))
        return 0, 0, "model: design without %s refuted" % without

    with ThreadPoolExecutor(4) as ex:
        for distinct, generated, what in ex.map(go, cases):
            run.cov["states"] += distinct
            run.cov["transitions"] += generated
            run.cov[what] += distinct or 1


def replay(run, job, n, jn):
    """Tries n requests of a small world in the code, in states that the model reaches."""
    depth = 1 if run.tier == "quick" else 2
    module, mode = job.get("model", "MC"), job.get("replays", "replay")
    world, paths = explore(run, job["theme"], depth, 800 if run.tier == "quick" else 7200, module)
    w = json.load(open(world))
    nr, nq = len(w["requests"]), len(w.get("queries", []))
    rnd = random.Random("%s/%s/%s/%d" % (run.prop, run.tier, job["theme"], run.seed))
    total = nr * len(paths)
    pairs = range(total) if n >= total else rnd.sample(range(total), n)
    run.cov["model: requests in states of " + job["theme"]] = total
    run.cov["model: of which tried in the code"] += len(pairs)
    by = {}
    for p in pairs:
        by.setdefault(p // nr, []).append(p % nr + 1)
    # Queries: all of them in the states where there are requests to try, as long as there are not too many.
    asked = job.get("queries", 4000) * (1 if run.tier == "quick" else 10)
    states = list(by)
    rnd.shuffle(states)
    errands = []
    for s in states:
        qs = list(range(1, nq + 1))
        if asked < nq * len(states):
            rnd.shuffle(qs)
            qs = qs[: max(1, asked // len(states))]
        rs = sorted(by[s])
        for k in range(0, len(rs), 60):
            errands.append({"path": list(paths[s]), "requests": rs[k: k + 60], "queries": qs if k == 0 else []})
    size = 360 if run.tier == "quick" else 600
    for k in range(0, len(errands), size):
        batch = errands[k: k + size]
        shards = [batch[i::6] for i in range(6)]
        binary = run.binary()

        def go(i):
            name = "r%d-%d-%d" % (jn, k, i)
            plan = os.path.join(run.dir, name + ".plan")
            with open(plan, "w") as f:
                f.write("".join(json.dumps(e) + "\n" for e in shards[i]))
            extra = ["-world", world, "-plan", plan]
            return run.drive(dict(job, mode=mode, timeout=1500), 0, run.seed * 1000003 + k + i, name, extra)

        with ThreadPoolExecutor(6) as ex:
            hs = [h for part in ex.map(go, range(6)) for h in part]
        if not run.samples:
            run.samples = sample_of(hs)
        if hs:
            run.judge(dict(job, mode=mode), hs, "r%d-%d" % (jn, k))


def beside(run, job, n, jn):
    """Drives the databases of several histories in one process. A failure is one of independence if the history alone conforms."""
    chunk = job.get("chunk", 120)
    for k, first in enumerate(range(0, n, chunk)):
        seed, before = run.seed * 1000003 + k, len(run.fails)
        extra = ["-beside", str(job.get("beside", 4))] + (["-parallel"] if job.get("race") else [])
        hs = run.drive(job, min(chunk, n - first), seed, "b%d-%d" % (jn, k), extra)
        if not run.samples:
            run.samples = sample_of(hs)
        for f in run.fails[before:]:
            f["props"] = set(f["props"]) | ({"C31"} if job.get("race") else set())  # each process has its own database
        before = len(run.fails)
        if hs:
            run.judge(job, hs, "b%d-%d" % (jn, k))
        fails, run.fails = run.fails[before:], run.fails[:before]
        alone = {}
        for f in fails:
            h = f["h"]
            if h not in alone and len(alone) < 12:
                alone[h] = conforms_alone(run, job, seed, int(hs[h - 1]["seed"].rsplit("/", 1)[1]), "a%d-%d-%d" % (jn, k, h))
            if alone.get(h):
                f["props"] = set(f["props"]) | {"C31"}
        run.fails += fails


def conforms_alone(run, job, seed, i, name):
    """Whether the history conforms every time it has the process to itself."""
    before, cov = len(run.fails), run.cov.copy()
    for again in range(3):
        hs = run.drive(dict(job, race=False), 1, seed, "%s-%d" % (name, again), ["-from", str(i)])
        if hs:
            run.judge(job, hs, "%s-%d" % (name, again))
    ok = len(run.fails) == before
    del run.fails[before:]
    run.cov = cov
    return ok
