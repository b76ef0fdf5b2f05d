"""What all checks share: building the driver from /repo's working tree, running TLC, running scenarios on the
real code, judging the recorded traces with a specification, and writing evidence."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")  # another tree only for trying out the checks by hand
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not do its work; it is neither a pass nor a violation."""


def goenv():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", CGO_ENABLED="0")
    env.setdefault("HOME", "/root")
    env["PATH"] = env.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
    return env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(seed * 1000003 + 17)
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.started = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.models = [], {}, []
        self.violations = []
        self.known = []
        self.driver = None
        self.lock = threading.Lock()
        self.budget = 780  # seconds this check may take in all
        shutil.copytree(os.path.join(VERIF, "spec"), os.path.join(self.tmp, "spec"))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def left(self):
        return self.budget - (time.time() - self.started)

    def log(self, *args):
        print("[%5.1fs]" % (time.time() - self.started), *args, flush=True)

    # ---------------------------------------------------------------- building
    def build(self):
        if self.driver:
            return
        src = self.path("harness")
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        if REPO != "/repo":
            with open(os.path.join(src, "go.mod")) as f:
                text = f.read().replace("=> /repo", "=> " + REPO)
            with open(os.path.join(src, "go.mod"), "w") as f:
                f.write(text)
        out = self.path("driver")
        p = subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise ToolError("the driver does not build:\n" + p.stdout + p.stderr)
        self.driver = out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=CORES, env=None, timeout=600, extra=(), heap="6g", sink=None, expect=None):
        """Runs TLC. Returns its output without the lines given to sink. expect: None for "no error", or a
        regular expression that its error has to match."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(self.path("spec")):
            os.symlink(os.path.join(self.path("spec"), f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m",
               "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-config", "run.cfg"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        timer = None
        killed = []
        def kill():
            killed.append(1)
            os.killpg(p.pid, signal.SIGKILL)
        timer = threading.Timer(timeout, kill)
        timer.start()
        keep = []
        try:
            for line in p.stdout:
                if sink is not None and line.startswith('"'):
                    try:
                        text = json.loads(line)
                    except ValueError:
                        raise ToolError("TLC printed " + line[:300])
                    sink(text)
                else:
                    keep.append(line)
            p.wait()
        finally:
            timer.cancel()
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        out = "".join(keep)
        if killed:
            raise ToolError("TLC took longer than %d s on %s" % (timeout, module))
        shutil.rmtree(d, ignore_errors=True)
        if expect is None:
            if p.returncode != 0:
                raise ToolError("TLC ends with %d on %s:\n%s" % (p.returncode, module, out[out.find("Starting..."):][:5000]))
        else:
            if p.returncode == 0 or not re.search(expect, out):
                raise ToolError("TLC was to find %r in %s but ended with %d:\n%s" % (expect, module, p.returncode, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            with self.lock:
                self.transitions += int(m.group(1))
                self.states += int(m.group(2))
            self.models.append({"module": module, "transitions": int(m.group(1)), "states": int(m.group(2)),
                                "cfg": " ".join(cfg.split())[:200]})
        return out

    # ---------------------------------------------------------------- real code
    def drive(self, suite, scenarios, workers=32, timeout=None, extra=()):
        """Runs scenarios on the real code; returns the trace events, and the crash report if the driver died."""
        self.build()
        fin, fout = self.path("%s-in.jsonl" % suite), self.path("%s-out.jsonl" % suite)
        with open(fin, "w") as f:
            for s in scenarios:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        if os.path.exists(fout):
            os.unlink(fout)
        timeout = timeout or max(60, self.left() - 60)
        cmd = [self.driver, "-in", fin, "-out", fout, "-seed", str(self.seed), "-workers", str(workers),
               "-budget", "%ds" % int(timeout * 0.6)] + list(extra) + [suite]
        env = goenv()
        env["GOTRACEBACK"] = "all"
        env["TMPDIR"] = self.tmp
        errf = open(self.path("driver.err"), "w+b")
        p = subprocess.Popen(cmd, cwd=self.tmp, env=env, stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        errf.seek(0)
        err = errf.read(400000).decode("utf-8", "replace")
        errf.close()
        if rc == 0:
            with open(fout) as f:
                return [json.loads(l) for l in f], None
        if rc == 3:
            raise ToolError("driver: " + err[-2000:])
        if rc == "timeout":
            return [], "timeout"
        m = re.search(r"^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*)$", err, re.M)
        if m:
            return [], m.group(1) + "\n" + err[m.start():m.start() + 4000]
        raise ToolError("driver ended with %s: %s" % (rc, err[-2000:]))

    def judge(self, module, events, shards=CORES, timeout=600, heap="3g"):
        """Validates trace events with a trace specification; returns the violations it prints."""
        groups, cur = [], None
        for e in events:
            if e["e"] == "begin":
                cur = []
                groups.append(cur)
            cur.append(e)
        if not groups:
            return []
        self.traces += len(groups)
        self.events += len(events)
        n = max(1, min(shards, len(events) // 400 + 1))
        buckets = [[] for _ in range(n)]
        for i, g in enumerate(groups):
            buckets[i % n].append(g)
        found = []

        def one(i):
            path = self.path("trace-%d.ndjson" % i)
            with open(path, "w") as f:
                for g in buckets[i]:
                    for e in g:
                        f.write(json.dumps(e, separators=(",", ":")) + "\n")
            got = []

            def sink(text):
                if text.startswith("VIOLATION-AT "):
                    got.append(json.loads(text[len("VIOLATION-AT "):]))
            with open(os.path.join(VERIF, "spec", module + ".cfg")) as f:
                cfg = f.read()
            self.tlc(module, cfg, workers=1, env={"TRACE": path}, timeout=timeout, heap=heap, sink=sink)
            os.unlink(path)
            return got
        with ThreadPoolExecutor(n) as ex:
            for got in ex.map(one, range(n)):
                found += got
        return found

    def parallel(self, jobs, n=4):
        """Runs functions side by side and returns their results in order."""
        with ThreadPoolExecutor(n) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    # ---------------------------------------------------------------- verdicts
    def violation(self, why, props, data):
        self.violations.append({"why": why, "props": sorted(props), "data": data})

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)


def finish(ctx, level):
    ev = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    mine = [v for v in ctx.violations if ctx.prop in v["props"]]
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "trace_events": ctx.events, "samples": ctx.samples, "models": ctx.models}
    cov.update(ctx.notes)
    with open(os.path.join(ev, ctx.prop + ".json"), "w") as f:
        json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
                   "wall_s": round(time.time() - ctx.started, 1), "violations": len(mine)}, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    if mine:
        os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
        for i, v in enumerate(mine[:5]):
            path = os.path.join(ev, "replay", "%s-%d.json" % (ctx.prop, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("   ", v["why"], json.dumps(v["data"])[:600])
        if len(mine) > 5:
            print("    and %d more" % (len(mine) - 5))
        return 1
    others = sorted({v["why"] for v in ctx.violations})
    if others:
        print("note: obligations of other properties are broken:", ", ".join(others))
    print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" %
          (ctx.prop, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - ctx.started))
    return 0
