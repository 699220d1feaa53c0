"""C25: a run writes nothing but its report."""
import hashlib
import json
import os
import re
import subprocess
import sys

import vlib

# what compile commands ask their build to write; {o} stands for a path, absolute or relative to the build's directory
REQUESTS = ["-o {o}.o", "-c", "-S", "-S -o {o}.s", "-E", "-E -o {o}.i", "-M", "-MM", "-MD", "-MMD", "-M -MF {o}.d", "-MD -MF {o}.d", "-MMD -MF {o}.d -MT t", "-MD -MP -MF{o}.d",
            "-Wp,-MD,{o}.d", "-Wp,-MMD,{o}.d", "-MJ {o}.json", "-MJ{o}.json", "--serialize-diagnostics {o}.dia", "-serialize-diagnostics {o}.dia", "-save-temps",
            "-save-temps=obj -o {o}.o", "--save-temps", "-ftime-trace", "-ftime-trace={o}.json", "-fstack-usage", "--coverage", "-ftest-coverage", "-fprofile-arcs", "-fprofile-generate",
            "-fprofile-instr-generate={o}.profraw", "-g -gsplit-dwarf", "-fsave-optimization-record", "-foptimization-record-file={o}.yaml", "-emit-llvm", "-emit-llvm -S", "-emit-ast",
            "-emit-ast -o {o}.ast", "-Xclang -dependency-dot -Xclang {o}.dot", "-Xclang -header-include-file -Xclang {o}.txt -H", "-Xclang -diagnostic-log-file -Xclang {o}.log",
            "-Xclang -stats-file={o}.stats", "-save-stats", "-Xclang -emit-pch -o {o}.pch", "-x c-header -o {o}.gch", "--analyze", "--analyze -o {o}", "--analyze -Xclang -analyzer-output=html -o {o}",
            "-Xclang -analyzer-output=plist-multi-file -o {o}.plist", "-Xclang -analyzer-output=sarif -o {o}.sarif", "-fproc-stat-report={o}.txt", "-gen-reproducer", "-fsyntax-only",
            "-Xclang -ast-dump", "-H", "-v", "-fmodule-output={o}.pcm", "-flto -o {o}.bc", "-Xclang -module-dependency-dir -Xclang {o}", "-Xclang -main-file-name -Xclang {o}",
            "-fdiagnostics-format=sarif", "-fcrash-diagnostics-dir={o}", "-fdebug-compilation-dir={o}", "-MD -MQ t -MF {o}.d -MJ {o}.json --serialize-diagnostics {o}.dia -o {o}.o -save-temps",
            "-o{o}.o -Wp,-MD,{o}.d,-MT,t", "--output={o}.o", "--output {o}.o", "-dM -E", "-imultilib x", "-Xclang -code-completion-at=x"][:-2]
OK = "int f%d(int a) { char *p = 0; %sif (a) { goto x; } if (a > 1) { *p = 1; } x: return 1 / a; }\n"


def tree(d):
    """everything below d"""
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            key = os.path.relpath(p, d)
            if os.path.islink(p):
                out[key] = (st.st_mode, os.readlink(p))
            elif os.path.isdir(p):
                out[key] = (st.st_mode, sorted(os.listdir(p)))
            else:
                with open(p, "rb") as f:
                    out[key] = (st.st_mode, st.st_mtime_ns, st.st_ino, hashlib.sha1(f.read()).hexdigest())
    return out


def clean(b):
    return re.sub(rb"\w{3} \w{3} +\d+ \d\d:\d\d:\d\d \d{4}|\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?Z?|\d+(\.\d+)? seconds|\"timestamp\":\d+", b"DATE", b)


class Run:
    def __init__(self, c, i, case, rng):
        self.c, self.i, self.case, self.rng = c, i, case, rng
        self.d = os.path.join(c.work, "r%d" % i)

    def go(self):
        c, rng, case, d = self.c, self.rng, self.case, self.d
        for x in ("src", "build", "cwd", "home", "tmp", "out", "empty", "build/sub"):
            os.makedirs(os.path.join(d, x))
        db, srcs = [], []
        for j, m in enumerate(case["cmds"]):
            ext = rng.choice(["c", "c", "cpp", "m"])
            p = os.path.join(d, "src", "s%d.%s" % (j, ext))
            with open(p, "w") as f:
                f.write("#warning w\n" * rng.choice([0, 0, 1]))
                f.write("#error e\n" * (m["kind"] == "err"))
                f.write(OK % (j, "if (!a) goto x; " * (25 if case["over"] else 0)))
            o = rng.choice(["{d}/out/y%d", "x%d", "sub/x%d"]).replace("{d}", d) % j
            req = m["prod"].replace("{o}", o)
            flags = ["-dumpmachine"] if m["kind"] == "nojob" else []
            args = req.split(" ") if req else []
            pos = rng.choice([0, 1, 2])
            args = {0: args + ["-c", p], 1: ["-c", p] + args, 2: args + [p]}[pos]
            cmd = ["clang++" if ext == "cpp" else "clang", "-w"] + flags + args
            entry = {"directory": os.path.join(d, "nowhere" if m["kind"] == "baddir" else "build"), "file": p}
            if rng.random() < .5:
                entry["arguments"] = cmd
            else:
                entry["command"] = " ".join(cmd)
            db.append(entry)
            srcs.append(p)
        if not srcs:
            p = os.path.join(d, "src", "none.c")
            open(p, "w").close()
            srcs.append(p)
        with open(os.path.join(d, "compile_commands.json"), "w") as f:
            json.dump(db, f)
        kind = case["out"]
        rel = {"new": "REPORT", "old": "REPORT", "nodir": "missing/REPORT", "dir": "adir"}.get(kind)
        place = rng.choice(["cwd", "out"])
        rep = os.path.join(d, place, rel) if rel else None
        if kind == "old":
            with open(rep, "w") as f:
                f.write("old report\n" * rng.choice([1, 2000]))
        if kind == "dir":
            os.mkdir(rep)
        rtype = rng.choice(["text", "xcode", "html", "json", "xml", "pmd"])
        cmd = [c.b["oclint"], "-p", d, "-R", c.b["rules_dir"] if case["rules"] else os.path.join(d, "empty"),
               "-report-type", rtype if case["reporter"] else "nosuch"]
        cmd += ["-enable-global-analysis"] * case["glob"] + ["-enable-clang-static-analyzer"] * case["analyze"]
        cmd += ["-allow-duplicated-violations"] * (rng.random() < .3) + ["-max-priority-3=%d" % (20 if case["over"] else 1000)]
        ref = cmd + srcs
        cfg = None
        if rep:
            arg = rng.choice([rep, rel if place == "cwd" else "../out/" + rel])
            if rng.random() < .3:
                with open(os.path.join(d, "cwd", ".oclint"), "w") as f:
                    f.write("output: %s\n" % arg)
            else:
                cmd += [rng.choice(["-o=" + arg, "--o=" + arg]) if rng.random() < .5 else "-o"] + [arg]
                if cmd[-2] != "-o":
                    cmd.pop()
        cmd += srcs
        env = c.env(HOME=os.path.join(d, "home"), TMPDIR=os.path.join(d, "tmp"), XDG_CACHE_HOME=os.path.join(d, "home", "cache"))
        before = tree(d)
        self.cmd = " ".join(cmd) + "\n" + json.dumps(db)

        def call(x):
            try:
                r = c.run(x, timeout=120, cwd=os.path.join(d, "cwd"), env=env)
                return r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired:
                return -999, b"", b""
        rc, out, err = call(cmd)
        after = tree(d)
        changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        repkey = os.path.relpath(rep, d) if rep else None
        if kind in ("new", "old") and rc in (0, 5, 6):
            # a new report also shows in its directory; the run without -o tells what is to be in it
            if kind == "new" and place in changed:
                ls = after[place][1]
                if sorted(set(ls) - {"REPORT"}) == before[place][1]:
                    changed.discard(place)
            os.rename(rep, os.path.join(d, "was"))
            if os.path.exists(os.path.join(d, "cwd", ".oclint")):
                os.unlink(os.path.join(d, "cwd", ".oclint"))
            rrc, rout, _ = call(ref)
            got = open(os.path.join(d, "was"), "rb").read()
            same = clean(got) == clean(rout) and rrc == rc and (len(got) > 20 or rtype == "xcode")
            to = "file" if same and not out else "file and stdout" if same else "another file"
        else:
            to = "stdout" if out else "nowhere"
            if out and (rc not in (0, 5, 6) or len(out) < 20):
                # the driver of the compiler answers some options itself
                to = "nowhere" if not re.search(rb"OCLint|oclint|violation|pmd", out) else "stdout"
            if not out and rtype == "xcode" and rc in (0, 5, 6):
                to = "stdout"
        obs = {"rc": rc, "to": to, "changed": sorted("REPORT" if k == repkey else k for k in changed)}
        return {"run": case, "obs": obs}


def check(c):
    th = c.thorough
    c.build(rules=["GotoStatement", "ShortVariableName"], reporters="all")
    q = "{" + ",".join(json.dumps(x) for x in ("-o {o}.o", "-MD -MF {o}.d")) + "}"
    cases = c.model("GenDisk", "CONSTANTS MaxCmds=%d\nProducts=%s\nINIT Init\nNEXT Next\nINVARIANT Emit Laws\nPROPERTY Monotone\n" % (3 if th else 2, q), heap="12g")
    rng = c.rng
    runs = []
    # every request, compiled and failing, with and without the analyzer and the global mode
    for r in REQUESTS:
        for an in (False, True):
            for gl in (False, True):
                for k in ("ok", "err"):
                    if k == "err" and (gl or rng.random() < .5) and not th:
                        continue
                    runs.append({"rules": True, "reporter": True, "cmds": [{"kind": k, "prod": r}], "glob": gl, "analyze": an, "over": rng.random() < .3,
                                 "out": rng.choice(["stdout", "new", "old"])})
    n = len(runs)
    for x in rng.sample(cases, min(len(cases), 4000 if th else 700)):
        for m in x["cmds"]:
            m["prod"] = rng.choice(REQUESTS) if m["prod"] or rng.random() < .5 else ""
        runs.append(x)
    for _ in range(600 if th else 80):
        runs.append({"rules": True, "reporter": True, "glob": rng.random() < .4, "analyze": rng.random() < .4, "over": rng.random() < .4, "out": rng.choice(["stdout", "new", "old", "old"]),
                     "cmds": [{"kind": rng.choice(["ok", "ok", "ok", "err"] + ["baddir", "nojob"] * (rng.random() < .1)), "prod": rng.choice(REQUESTS + [""])} for _ in range(rng.randint(3, 6))]})
    prefix = tree(os.path.dirname(os.path.dirname(c.b["oclint"])))
    rs = [Run(c, i, x, __import__("random").Random("%d-%d" % (c.seed, i))) for i, x in enumerate(runs)]
    lines = vlib.pmap(lambda r: r.go(), rs)
    c.extra.update(runs_of_the_model=len(cases), requests=len(REQUESTS), runs=len(runs))
    c.traces += len(lines)
    bad = c.validate("DiskTrace", lines)
    for i, exp in sorted(bad.items()):
        c.violation("disk", "observed %s\nexpected %s\n%s" % (lines[i]["obs"], exp, rs[i].cmd), lines[i])
    after = tree(os.path.dirname(os.path.dirname(c.b["oclint"])))
    if prefix != after:
        c.violation("prefix", "files of the installation changed: %s" % sorted(k for k in set(prefix) | set(after) if prefix.get(k) != after.get(k)), {})
    for i in (0, n, n + 1, len(lines) - 1):
        c.sample(lines[i])
    c.assumptions.append("writes are looked for in the directories of sources, build, working directory, home, temporary files and the installation")


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
