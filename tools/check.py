#!/usr/bin/env python3
"""Decides one property: check.py <property> [quick|thorough].

Builds the harness against /repo's working tree, has it drive the code, and has TLC judge what was
recorded against the specification in /verif/spec.  Exit 0: everything explored conforms.  Exit 1, with
a VIOLATION line: the code does not conform in a way that breaks the property.  Exit 2: no verdict.
"""
import collections, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN  # noqa: E402


class NoVerdict(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOENV="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    env["PATH"] = "/opt/veriftools/go1.25.14/bin:" + env["PATH"]
    env.pop("GOEXPERIMENT", None)
    return env


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.bins = {}
        self.fails = []          # (job, history index, event index, kind, props, detail, history)
        self.cov = collections.Counter()
        self.samples = []
        self.distinct = set()
        self.lock = threading.Lock()

    # -- building

    def binary(self, race=False, stirred=False):
        """The harness, compiled with the sources of the working tree; with its schedules stirred, if so wanted."""
        if (race, stirred) in self.bins:
            return self.bins[race, stirred]
        src = os.path.join(VERIF, "harness")
        name = "harness" + ("-race" if race else "") + ("-stirred" if stirred else "")
        replace = {}
        for d, to in ((src, "internal/verifharness"), (os.path.join(src, "verifsync"), "internal/verifsync")):
            replace.update({os.path.join(REPO, to, n): os.path.join(d, n) for n in os.listdir(d) if n.endswith(".go")})
        if stirred:
            copies = os.path.join(self.dir, name + "-src")
            os.makedirs(copies, exist_ok=True)
            r = subprocess.run(["go", "run", "chaos.go", REPO, copies], cwd=os.path.join(VERIF, "tools", "chaos"), env=go_env(),
                               capture_output=True, text=True, timeout=600)
            if r.returncode != 0:
                raise NoVerdict("the sources cannot be stirred:\n" + r.stderr[-3000:])
            replace.update(json.loads(r.stdout))
        overlay = os.path.join(self.dir, name + ".json")
        with open(overlay, "w") as f:
            json.dump({"Replace": replace}, f)
        out = os.path.join(self.dir, name)
        cmd = ["go", "build", "-overlay", overlay, "-o", out] + (["-race"] if race else []) + ["./internal/verifharness"]
        r = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            if stirred:  # the schedules as they come will have to do
                self.cov["not stirred"] += 1
                out = self.binary(race)
            else:
                raise NoVerdict("the harness does not build:\n" + r.stderr[-3000:])
        self.bins[race, stirred] = out
        return out

    # -- driving the code

    def drive(self, job, n, seed, name, extra=()):
        out = os.path.join(self.dir, name + ".ndjson")
        env = go_env()
        env["GORACE"] = "halt_on_error=0 exitcode=66 history_size=4"
        cmd = [self.binary(job.get("race", False), job["mode"] in ("conc", "pconc")), "-mode", job["mode"], "-profile", job.get("profile", "all"),
               "-seed", str(seed), "-n", str(n), "-len", str(job.get("len", 100)), "-out", out] + list(extra)
        r = subprocess.run(cmd, cwd=self.dir, env=env, capture_output=True, text=True, errors="replace",
                           timeout=job.get("timeout", 600))
        crash = None
        if r.returncode != 0 or "WARNING: DATA RACE" in r.stderr:
            crash = self.crash(r, job["mode"])
            if crash is None:
                raise NoVerdict("the harness ended with %d:\n%s" % (r.returncode, r.stderr[-3000:]))
        if not os.path.exists(out):
            open(out, "w").close()
        lines = [l for l in open(out, encoding="utf-8").read().split("\n") if l.strip()]
        hs = []
        for l in lines:
            try:
                hs.append(json.loads(l))
            except json.JSONDecodeError:
                pass  # the last line of a driver that crashed
        if crash is not None:
            # No specified behaviour of the system ends in this way: there is nothing left for TLC to judge.
            self.fails.append(dict(job=job, h=0, i=1, kind="crash", props=set(crash["props"]), detail=crash["what"],
                                   history={"mode": job["mode"], "seed": seed, "events": [dict(crash, k="crash", stderr=r.stderr[-6000:])]}))
        return hs

    def crash(self, r, mode):
        """What the code under test died of, if it was the code under test."""
        err = r.stderr
        if "WARNING: DATA RACE" in err:
            for block in err.split("WARNING: DATA RACE")[1:]:
                block = block.split("==================")[0]
                frames = [f for f in re.findall(r"github.com/dball/destructive/(\S+?)\(\)$", block, re.M) if "/verif" not in f]
                if frames:
                    return {"what": "data race at " + ", ".join(sorted(set(frames))[:6]), "props": ["C20"]}
            return None
        m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", err, re.M)
        if not m:
            return None
        frames = [f for f in re.findall(r"github.com/dball/destructive/([^\s(]+)\(", err) if "/verif" not in f]
        if not frames:
            return None
        what = m.group(1)[:200]
        props = ["C20", "C29"]
        if "stack" in what:
            props += ["C23", "C22"]
        if mode == "index":
            props.append("C21")
        return {"what": what + " at " + frames[0], "props": props}

    # -- judging

    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=800, heap="6g"):
        meta = tempfile.mkdtemp(dir=self.dir)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", cfg] + list(args) + [module]
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def judge(self, job, histories, name):
        path = os.path.join(self.dir, name + ".trace")
        with open(path, "w", encoding="utf-8") as f:
            for h in histories:
                f.write(json.dumps({"events": h["events"]}, ensure_ascii=True) + "\n")
        module = job.get("spec", "Trace")
        rc, out = self.tlc(module + ".tla", module + ".cfg", env={"TRACE": path})
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m or "Error:" in out:
            raise NoVerdict("TLC did not finish:\n" + "\n".join(l[:400] for l in out.split("\n") if "@@" not in l)[-3000:])
        events = sum(len(h["events"]) for h in histories)
        if int(m.group(2)) != events + len(histories):
            raise NoVerdict("TLC saw %s states for %d events of %d histories" % (m.group(2), events, len(histories)))
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += events
        self.cov["traces_validated_against_impl"] += len(histories)
        for l in out.split("\n"):
            l = l.strip()
            if l.startswith('"@@FAIL '):
                s = json.loads(l) if '\\' in l or True else l
                self.note(job, s[len("@@FAIL "):], histories)
            elif l.startswith('"@@'):
                s = json.loads(l)
                kind, _, rest = s[2:].partition(" ")
                self.cov["judged:" + kind] += 1
                body = re.sub(r"^<<\d+, \d+, ", "", rest)
                self.distinct.add(kind + body)
                self.count(kind, body)

    def count(self, kind, body):
        if kind == "W":
            m = re.match(r"(TRUE|FALSE), \{(.*?)\}, (TRUE|FALSE)", body)
            if m:
                self.cov["writes accepted" if m.group(1) == "TRUE" else "writes rejected"] += 1
                for why in re.findall(r'"(.*?)"', m.group(2)):
                    self.cov["reason to reject: " + why] += 1

    def note(self, job, s, histories):
        m = re.match(r'<<(\d+), (\d+), "(.*?)", \{(.*?)\}, (.*)>>$', s, re.S)
        if not m:
            raise NoVerdict("cannot read " + s[:300])
        hi, ei = int(m.group(1)), int(m.group(2))
        props = set(re.findall(r'"(C\d+)"', m.group(4)))
        e = histories[hi - 1]["events"][ei - 1]
        if e.get("conc") or e["k"] in ("cw", "cr"):
            props.add("C19")  # what several processes did has to be explained as if they had taken turns
        self.fails.append(dict(job=job, h=hi, i=ei, kind=m.group(3), props=props, detail=m.group(5)[:4000],
                               history=histories[hi - 1]))

    # -- the verdict

    def known(self):
        path = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(path):
            for l in open(path):
                m = re.match(r"known: property=(C\d+) match=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
        return out

    def finish(self, meta):
        mine = [f for f in self.fails if self.prop in f["props"]]
        known, new = {}, []
        for f in mine:
            for rx, text in self.known():
                if rx.search(f["kind"] + " " + f["detail"]):
                    known[text] = f
                    break
            else:
                new.append(f)
        for text in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {k: v for k, v in sorted(self.cov.items())}
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        cov["evaluations"] = sum(v for k, v in self.cov.items() if k.startswith("judged:"))
        cov["distinct_nontrivial"] = len(self.distinct)
        cov["rule"] = meta.get("rule", "events generated by seeded choice and judged by TLC against the specification; distinct by "
                               "kind of event, verdict, reasons, references used and size of the answer")
        cov["samples"] = self.samples[:3]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": meta["level"], "coverage": cov,
              "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        others = collections.Counter(p for f in self.fails for p in f["props"] if p != self.prop)
        if others:
            print("note: failures that concern other properties: " + ", ".join("%s (%d)" % x for x in sorted(others.items())))
        if not new:
            print("%s: %d states, %d events of %d histories judged in %.1f s: no violation" % (
                self.prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], ev["wall_s"]))
            return 0
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        f = new[0]
        path = os.path.join(rdir, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
        with open(path, "w") as out:
            h = dict(f["history"])
            h["events"] = h["events"][: f["i"]]
            json.dump({"property": self.prop, "job": {k: v for k, v in f["job"].items()}, "kind": f["kind"], "detail": f["detail"],
                       "at_event": f["i"], "history": h, "all": [{"kind": g["kind"], "detail": g["detail"][:500]} for g in new[:20]]},
                      out, indent=1)
        for g in new[:5]:
            print("%s at event %d of %s: %s" % (g["kind"], g["i"], g["history"].get("seed"), g["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def sample_of(histories):
    out = []
    for h in histories[:1]:
        for e in h["events"]:
            if e.get("k") not in ("init", "snap", "drop"):
                out.append(json.loads(json.dumps(e))) if len(json.dumps(e)) < 3000 else None
            if len(out) >= 2:
                break
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = PLAN[prop]
    run = Run(prop, tier, seed)
    try:
        run.binary()
        code = None
        for jn, job in enumerate(meta["jobs"]):
            n = job["quick"] if tier == "quick" else job["thorough"]
            runner = job.get("runner", "trace")
            if runner == "trace":
                chunk = job.get("chunk", 120)
                k = 0
                while n > 0:
                    hs = run.drive(job, min(n, chunk), seed * 1000003 + k, "j%d-%d" % (jn, k))
                    if not run.samples:
                        run.samples = sample_of(hs)
                    if hs:
                        run.judge(job, hs, "j%d-%d" % (jn, k))
                    n -= chunk
                    k += 1
            else:
                import runners
                getattr(runners, runner)(run, job, n, jn)
        return run.finish(meta)
    except (NoVerdict, subprocess.TimeoutExpired) as e:
        what = str(e) if isinstance(e, NoVerdict) else "out of time: %s" % (e.cmd[0],)
        print("no verdict: " + what, file=sys.stderr)
        # What was found before is a violation nonetheless.
        return (run.finish(meta) if any(prop in f["props"] for f in run.fails) else 0) or 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
