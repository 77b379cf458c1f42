#!/usr/bin/env python3
"""Runner: python3 check.py <property> <quick|thorough>

1. builds the harness against /repo's current working tree,
2. lets it drive the real code and record traces of public calls (one event per call),
3. has TLC check every trace against spec/DDTrace.tla (or another trace module), enforcing
   the requirements of <property>, and runs the property's exhaustive TLC models,
4. writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: tool error.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

import scenarios

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EXTRA_JARS = sorted(glob.glob("/opt/veriftools/tla/*.jar"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


EVAL_ERROR = re.compile("TLC threw an unexpected exception|Evaluating (?:expression|invariant)|Attempted to|In applying the function|"
                        "The first argument of|TLC encountered (?:an unexpected|the following)")


class ToolError(Exception):
    pass


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        env.pop("RUSTC_WRAPPER", None)
        r = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--quiet"],
            cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-3000:])
    return os.path.join(TARGET, "release", "ddh")


def tlc(module, cfg, metadir, env=None, timeout=600, xmx="2g", workers=1, extra=()):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    os.makedirs(metadir, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + metadir, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-Xss256m", "-Xmx" + xmx,
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", metadir,
           "-config", cfg, *extra, module]
    if workers != 1:
        cmd = [c for c in cmd if not c.startswith("-XX:ParallelGC") and not c.startswith("-XX:CIC")]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        return 124, out
    finally:
        shutil.rmtree(metadir, ignore_errors=True)
    return r.returncode, r.stdout


def schedules(cfg):
    """histories generated by TLC from the engine model: one per line (see spec/ForestGen.tla)"""
    h = hashlib.md5()
    for f in ("Forest.tla", "ForestMC.tla", "ForestGen.tla", cfg + ".cfg"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    d = os.path.join(TARGET, "sched")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.txt" % (cfg, h.hexdigest()[:12]))
    with open(os.path.join(d, cfg + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(path):
            rc, out = tlc("ForestGen.tla", os.path.join(SPEC, cfg + ".cfg"), os.path.join(d, "m-" + cfg), workers=1,
                          timeout=600, xmx="3g")
            if "Model checking completed. No error has been found." not in out:
                raise ToolError("schedule generation %s failed\n%s" % (cfg, out[-2000:]))
            rows = sorted(";".join(" ".join(str(x) for x in a) for a in json.loads(json.loads(l)[6:]))
                          for l in out.split("\n") if l.startswith('"SCHED '))
            if len(rows) < 100:
                raise ToolError("schedule generation %s: only %d schedules" % (cfg, len(rows)))
            open(path + ".tmp", "w").write("\n".join(rows) + "\n")
            os.replace(path + ".tmp", path)
    return path


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(ROOT, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
        self.lock = threading.Lock()
        self.violations, self.errors, self.notes = [], [], []
        self.states = self.transitions = self.traces = self.events = 0
        self.kinds, self.models, self.samples = {}, [], []
        self.distinct = set()

    def replay(self, name, files, text):
        d = os.path.join(ROOT, "replays", "%s-%s" % (self.prop, name))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in files:
            if os.path.exists(f):
                shutil.copy(f, d)
        with open(os.path.join(d, "README.txt"), "w") as f:
            f.write(text)
        return d

    # ---------------------------------------------------------------- traces
    def shard(self, ddh, sc):
        name = sc["name"]
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        tr, it = os.path.join(d, "trace.ndjson"), os.path.join(d, "intent.txt")
        if "sched" in sc:
            sc["args"]["file"] = schedules(sc["sched"])
        args = [ddh, sc["mode"], tr, it] + ["%s=%s" % kv for kv in sorted(sc["args"].items())]
        cmdline = " ".join(args)
        limit = sc.get("timeout", 240)
        try:
            r = subprocess.run(["bash", "-c", 'ulimit -v 12000000; exec "$@"', "x"] + args,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 124
        if rc == 3 and not os.path.exists(it):
            raise ToolError("harness failed: " + cmdline + "\n" + r.stderr[-500:])
        if rc != 0:
            intent = open(it).read().strip() if os.path.exists(it) else ""
            tags = set(intent.split(" ")[0].split(",")) if intent else set()
            how = "did not return within %d s" % limit if rc == 124 else "ended the process (status %d)" % rc
            if self.prop in tags and not (rc == 124 and sc["mode"] == "huge"):
                p = self.replay(name, [tr, it], "%s\ncall: %s\n%s\n" % (cmdline, intent, how))
                with self.lock:
                    self.violations.append((p, "a call %s: %s" % (how, intent)))
                return
            with self.lock:
                self.notes.append("%s: a call of another property %s: %s" % (name, how, intent))
            lines = open(tr).read().split("\n")[:-1] if os.path.exists(tr) else []
            if not lines:
                return
            open(tr, "w").write("\n".join(lines) + "\n")
        module = sc.get("module", "DDTrace")
        cfg = os.path.join(d, "T.cfg")

        def judge(focus):
            with open(cfg, "w") as f:
                f.write("SPECIFICATION TraceSpec\nVIEW TraceView\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
                        "CONSTANTS\n Focus = {%s}\n Verbose = TRUE\n" % focus)
            return tlc(module + ".tla", cfg, os.path.join(d, "m"), env={"TRACE": tr},
                       timeout=sc.get("tlc_timeout", 800), xmx=sc.get("xmx", "2g"))

        rc, out = judge('"%s"' % self.prop)
        with open(tr) as f:
            lines = f.read().split("\n")
        n = len([x for x in lines if x])
        gen, dist = stats(out)
        rejected = re.search(r'"REJECTED-AT", (\d+)', out)
        at = int(rejected.group(1)) if rejected else 0
        if not rejected and EVAL_ERROR.search(out) and not re.search("StackOverflow|OutOfMemory", out):
            # an observation on which the specification cannot even be evaluated: is it this
            # property's requirement that fails, or is the event malformed for every property?
            where = re.findall(r"(?m)^/\\ l = (\d+)", out)
            rc0, out0 = judge("")
            open(cfg, "w").write(open(cfg).read().replace("Focus = {}", 'Focus = {"%s"}' % self.prop))
            if where and (rc0 == 0 or int((re.findall(r"(?m)^/\\ l = (\d+)", out0) or ["0"])[-1]) > int(where[-1])):
                at = int(where[-1])
        if at:
            why = out[max(0, out.rfind('<< "MISMATCH"')):]
            if '<< "MISMATCH"' not in out:
                why = out[max(0, out.rfind('<<"MISMATCH"')):]
            first = max([i for i in range(at) if lines[i].startswith('{"e":"reset"')] or [0])
            epi = os.path.join(d, "episode.ndjson")
            open(epi, "w").write("\n".join(lines[first:at]) + "\n")
            log = os.path.join(d, "tlc.txt")
            open(log, "w").write(out)
            if not rejected:
                why = "TLC cannot evaluate the requirement on this observation: " + " ".join(
                    x for x in out.split("\n") if EVAL_ERROR.search(x) or "line" in x)[:3000]
            p = self.replay(name, [epi, cfg, log],
                            "generated by: %s\nrejected event: line %d of the trace, the last line of episode.ndjson\n"
                            "event: %s\nmismatch: %s\nre-check: cd %s && TRACE=<dir>/episode.ndjson java -cp %s tlc2.TLC "
                            "-workers 1 -config <dir>/T.cfg %s.tla\n" % (cmdline, at, lines[at - 1][:2000], why[:6000], SPEC, CP, module))
            m = re.search(r'"MISMATCH",\s*(\{[^}]*\}),\s*"([^"]*)"', why)
            with self.lock:
                self.violations.append((p, m.group(2) if m else lines[at - 1][:160]))
            return
        if rc != 0 or "Model checking completed. No error has been found." not in out:
            if os.environ.get("VERIF_KEEP"):
                open(os.path.join(d, "tlc.txt"), "w").write(out)
            raise ToolError("TLC (%s, %s) failed:\n%s\n%s" % (name, module, cmdline, out[-2500:]))
        kinds = {}
        for x in lines:
            m = re.match(r'\{"e":"(\w+)"(?:,"(?:op|w)":"(\w+)")?', x)
            if m:
                k = m.group(1) + (":" + m.group(2) if m.group(2) else "")
                kinds[k] = kinds.get(k, 0) + 1
        with self.lock:
            self.traces += kinds.get("reset", 1)
            self.events += n
            self.states += dist
            self.transitions += max(0, gen - 1)
            for k, v in kinds.items():
                self.kinds[k] = self.kinds.get(k, 0) + v
            for x in lines:
                if x and not x.startswith(('{"e":"drop', '{"e":"reset')):
                    self.distinct.add(hashlib.md5(re.sub(r'"(h|id|st|no)":\[?[\d,]+\]?', "", x).encode()).digest()[:8])
            if len(self.samples) < 6 and n > 3:
                i = (self.seed * 37 + len(self.samples) * 11) % max(1, n - 3)
                self.samples.append({"shard": name, "cmd": " ".join(args[1:2] + args[4:])[:300],
                                     "events": [x[:300] for x in lines[i:i + 3]]})
        shutil.rmtree(d, ignore_errors=True)

    # ---------------------------------------------------------------- models
    def model(self, mo):
        d = os.path.join(self.work, "model-" + mo["name"])
        os.makedirs(d, exist_ok=True)
        t0 = time.time()
        rc, out = tlc(mo["module"] + ".tla", os.path.join(SPEC, mo["cfg"]), os.path.join(d, "m"),
                      timeout=mo.get("timeout", 800), xmx=mo.get("xmx", "3g"), workers=mo.get("workers", 2),
                      extra=mo.get("extra", ()))
        gen, dist = stats(out)
        ok = "Model checking completed. No error has been found." in out
        if mo.get("sim"):
            m = re.findall(r"(\d[\d,]*) states checked", out)
            gen = dist = int(m[-1].replace(",", "")) if m else 0
            ok = rc in (0, 124) and "Error:" not in out
        if not ok:
            raise ToolError("model %s (%s): not verified\n%s" % (mo["name"], mo["cfg"], out[-3000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({"module": mo["module"], "config": mo["cfg"], "distinct_states": dist, "generated": gen,
                                "exhaustive": not mo.get("sim", False), "wall_s": round(time.time() - t0, 1)})
        shutil.rmtree(d, ignore_errors=True)

    def main(self):
        t0 = time.time()
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        ddh = build()
        plan = scenarios.plan(self.prop, self.tier, self.seed)
        budget = float(os.environ.get("VERIF_BUDGET", "700" if self.tier == "quick" else "7200"))
        jobs = [("m", m) for m in plan["models"]] + [("t", s) for s in plan["shards"]]
        # the longest first
        jobs.sort(key=lambda j: 0 if j[0] == "m" or j[1]["mode"] == "huge" or j[1]["args"].get("tall") else 1)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            def go(j):
                if self.violations and self.tier == "quick":
                    return
                if time.time() - t0 > budget:
                    with self.lock:
                        self.notes.append("time budget reached; skipped " + j[1]["name"])
                    return
                t1 = time.time()
                try:
                    self.shard(ddh, j[1]) if j[0] == "t" else self.model(j[1])
                except ToolError as e:
                    with self.lock:
                        self.errors.append(str(e))
                except Exception as e:
                    with self.lock:
                        self.errors.append("%s: %r" % (j[1]["name"], e))
                if os.environ.get("VERIF_TIMES"):
                    print("time %6.1f end %6.1f %s" % (time.time() - t1, time.time() - t0, j[1]["name"]), file=sys.stderr)
            list(ex.map(go, jobs))
        wall = time.time() - t0
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "trace_events": self.events, "distinct_events": len(self.distinct),
                "events_by_action": dict(sorted(self.kinds.items())),
                "models": self.models,
                "rule": "a trace is one manager's random or enumerated history of public calls (an episode); every event "
                        "must be a step of the specification with the logged arguments and result, requirements of %s enforced"
                        % self.prop,
                "samples": self.samples or [{"note": "no trace completed"}],
                "notes": self.notes,
            },
            "assumptions": plan["assumptions"],
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        for n in self.notes:
            print("note:", n)
        if self.violations:
            for p, w in self.violations[:5]:
                print("  " + w)
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][0]))
            return 1
        if self.errors:
            for e in self.errors[:3]:
                print("ERROR:", e, file=sys.stderr)
            return 2
        print("%s %s: held; %d traces, %d events, %d states, %d models, %.1f s" %
              (self.prop, self.tier, self.traces, self.events, self.states, len(self.models), wall))
        return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop == "build":
        build()
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(schedules, scenarios.SCHEDULES))
        return 0
    try:
        return Run(prop, tier, seed).main()
    except ToolError as e:
        print("ERROR:", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
