"""Common machinery of the checks: build, run the real oclint, run TLC, evidence, verdicts."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import obuild

VERIF = obuild.VERIF
REPO = obuild.REPO
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def find_tla_cp():
    import glob
    jars = sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    return ":".join(jars) if jars else TLA_CP


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s-%d-%s" % (pid, self.seed, self.tier))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.makedirs(os.path.join(self.work, "home"))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.bad = []          # (key, text, replay object)
        self.assumptions = []
        self.known = self._known()
        self.thorough = self.tier == "thorough"
        self.b = None
        self.hung = False

    # -- known findings -----------------------------------------------------------------
    def _known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    # -- building and running -----------------------------------------------------------
    def build(self, **kw):
        t = time.time()
        self.b = obuild.build(os.path.join(self.work, "build"), **kw)
        self.log("build %.1fs (%d compiled, %d reused)" % (time.time() - t, self.b["compiled"], self.b["reused"]))
        return self.b

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    def env(self, **kw):
        e = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(self.work, "home"), "LC_ALL": "C",
             "ASAN_OPTIONS": "detect_leaks=0"}
        e.update(kw)
        return e

    def run(self, cmd, timeout=300, cwd=None, env=None, input=None):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                              cwd=cwd or self.work, env=env or self.env(), input=input)

    def oclint(self, files, rules_dir=None, args=(), cflags=(), reporter="verif", cwd=None, env=None, timeout=120, b=None):
        """Runs the real binary with the verif reporter; returns (rc, records, stderr)."""
        b = b or self.b
        cmd = [b["oclint"], "-report-type", reporter] + list(args)
        for d in ([rules_dir] if isinstance(rules_dir, str) else rules_dir or []):
            cmd += ["-R", d]
        cmd += list(files) + ["--"] + list(cflags)
        try:
            r = self.run(cmd, timeout=min(timeout, 20) if self.hung else timeout, cwd=cwd, env=env)
        except subprocess.TimeoutExpired:
            self.hung = True      # later runs are not waited for as long
            return -1, None, "oclint did not end in time"
        recs, ended = [], False
        for ln in r.stdout.decode("latin-1").split("\n"):
            if ln.startswith("{"):
                d = json.loads(ln)
                if d["t"] == "end":
                    ended = True
                else:
                    recs.append(d)
        return r.returncode, recs if ended else None, r.stderr.decode("latin-1")

    def install_reporter(self, name="verifrep_plugin"):
        """Puts the verif reporter beside the real ones (reporters are looked up in the prefix)."""
        d = self.b["reporters_dir"]
        shutil.copy(os.path.join(self.b["plugins"], "lib%s.so" % name), d)

    # -- TLC ----------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=NCPU, timeout=600, simulate=None, heap="6g", want_ok=True, depth=None):
        """Returns dict(ok, generated, distinct, out, lines) where lines are the values printed as "@@...".
        Any TLC error (parse error, evaluation error, time out) raises CheckError; a violated
        invariant is returned as ok=False."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", find_tla_cp(), "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-config", module + ".cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s: timeout after %ds" % (module, timeout))
        out = r.stdout.decode("utf-8", "replace")
        lines, rest = [], []
        for ln in out.split("\n"):
            if ln.startswith('"@@'):
                lines.append(json.loads(ln)[2:])
            else:
                rest.append(ln)
        rest = "\n".join(rest)
        viol = re.search(r"Error: (Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|The postcondition)", rest)
        done = "Model checking completed. No error has been found" in rest or (simulate and "Error" not in rest)
        if not done and not viol:
            raise CheckError("TLC %s failed:\n%s" % (module, rest[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", rest)
        if not m:
            m2 = re.search(r"(\d+) states checked", rest) or re.search(r"The number of states generated: (\d+)", rest)
            gen = dis = int(m2.group(1)) if m2 else 0
        else:
            gen, dis = int(m.group(1)), int(m.group(2))
        res = {"ok": not viol, "generated": gen, "distinct": dis, "out": rest, "lines": lines, "wall": time.time() - t}
        if want_ok and viol:
            raise CheckError("specification %s violates its own property:\n%s" % (module, rest[-4000:]))
        shutil.rmtree(d, ignore_errors=True)
        return res

    def model(self, module, cfg, **kw):
        """Exhaustive exploration of a specification; its printed lines are decoded as JSON."""
        r = self.tlc(module, cfg, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.log("TLC %s: %d distinct states, %d generated, %d emitted, %.1fs" %
                 (module, r["distinct"], r["generated"], len(r["lines"]), r["wall"]))
        return [json.loads(x) for x in r["lines"]]

    def validate(self, module, lines, cfgextra="", env=None, timeout=600):
        """Stateless trace validation (one event per line): returns {index: expected} of the rejected lines."""
        if not lines:
            return {}
        p = tempfile.mkstemp(suffix=".ndjson", dir=self.work)[1]
        with open(p, "w") as f:
            for x in lines:
                f.write(json.dumps(x) + "\n")
        cfg = "INIT Init\nNEXT Next\nINVARIANT Check\nCHECK_DEADLOCK FALSE\n" + cfgextra
        r = self.tlc(module, cfg, env=dict({"TRACE": p}, **(env or {})), timeout=timeout)
        if r["distinct"] != len(lines):
            raise CheckError("trace validation consumed %d of %d lines\n%s" % (r["distinct"], len(lines), r["out"][-3000:]))
        os.unlink(p)
        self.transitions += r["generated"]
        self.log("TLC %s: %d trace lines validated, %d rejected, %.1fs" % (module, len(lines), len(r["lines"]), r["wall"]))
        out = {}
        for x in r["lines"]:
            d = json.loads(x)
            out[d["l"] - 1] = d["exp"]
        return out

    # -- verdict ------------------------------------------------------------------------
    def violation(self, key, text, replay):
        self.bad.append((key, text, replay))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self, exhaustive=None):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces, "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1)}
        if exhaustive is not None:
            ev["coverage"]["exhaustive"] = exhaustive
        listed, fresh = [], []
        for key, text, replay in self.bad:
            hit = [k for k in self.known if k[0] == key]
            (listed if hit else fresh).append((key, text, replay))
        for key, txt in self.known:
            if any(k == key for k, _, _ in listed):
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, key, txt))
        ev["violations"] = len(fresh)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if fresh:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (key, text, replay) in enumerate(fresh[:5]):
                rp = os.path.join(rd, "%s-%d.json" % (self.pid, i))
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "key": key, "text": text, "replay": replay}, f, indent=1)
                print("  " + text[:1500].replace("\n", "\n  "))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            if os.environ.get("VERIF_DEBUG"):
                with open(os.environ["VERIF_DEBUG"], "w") as f:
                    for key, text, replay in fresh:
                        f.write("=== %s %s\n" % (key, text))
            if len(fresh) > 5:
                print("  (%d more violations)" % (len(fresh) - 5))
            rc = 1
        self.log("done: %d states, %d traces validated, %d violations" % (self.states, self.traces, len(fresh)))
        self.cleanup()
        sys.stdout.flush()
        sys.exit(rc)

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


def pmap(fn, items, jobs=NCPU):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def main(pid, fn):
    """fn(check) fills in the check; any error exits 2 (an error of the check, not a verdict)."""
    c = Check(pid)
    try:
        fn(c)
    except SystemExit:
        raise
    except BaseException as e:
        if isinstance(e, obuild.BuildError):
            print("BUILD ERROR", str(e)[-5000:])
        else:
            traceback.print_exc()
        if c.bad:
            print("(violations found before the error)")
            c.finish()
        c.cleanup()
        sys.stdout.flush()
        sys.exit(2)
    c.finish()
