"""Scenarios of whole runs (spec/Run.tla): materialise, run the real oclint, record, validate."""
import json
import os
import random
import re
import shutil
import tempfile
import subprocess

import vlib

MASK = {"C": 1, "CXX": 2, "OBJC": 4}
FIELDS = ["out", "type", "p1", "p2", "p3", "glob", "dup"]
KEYS = {"out": "output", "type": "report-type", "p1": "max-priority-1", "p2": "max-priority-2", "p3": "max-priority-3",
        "glob": "enable-global-analysis", "dup": "allow-duplicated-violations"}
LAWS = "Config Select Load ExitStatus Analysis Views Life Ends"
GENCFG = 'CONSTANT Family="%s"\nINIT Init\nNEXT Next\nINVARIANT Emit ' + LAWS + "\n"


def name_of(r):
    return "".join(r["name"])


def decl_name(d):
    return d["n"] + "_" + "".join(t + "_" for t in d["tags"])


def source_text(src, rng):
    """INT is a macro of common.h for int (of the same length): a declaration may begin in a macro's expansion"""
    ls = ['#include "stamp.h"', "int STAMP;", '#include "common.h"']
    for k, c in enumerate(src["cmds"], 1):
        ls.append("#if CMD == %d" % k)
        if c["kind"] == "err":
            ls.append("#error e%d" % k)
        elif c["kind"] == "warn":
            ls.append("#warning w%d" % k)
        elif c["kind"] == "fatal":
            ls.append('#include "missing.h"')
        elif c["kind"] == "hwarn":
            ls.append('#include "warnhdr.h"')
        ls += ["%s %s;" % (rng.choice(["int", "int", "INT"]), decl_name(d)) for d in c["decls"]]
        ls.append("#endif")
    return "\n".join(ls) + "\n"


def scalar(rng, s):
    return rng.choice(["%s", "'%s'", '"%s"'] if "\\" not in s and "'" not in s and '"' not in s else ["%s"]) % s


def yaml_list(rng, key, items, flow):
    if flow:
        return "%s: [ %s ]\n" % (key, ", ".join(items))
    return key + ":\n" + "".join("  - %s\n" % x for x in items)


# versions of the languages
STDS = {"c": ["gnu89", "gnu89", "c99", "gnu11", "c17", "gnu2x"], "cpp": ["gnu++98", "c++11", "gnu++17", "c++20"],
        "m": ["gnu89", "gnu99", "c11"], "mm": ["gnu++11", "c++17"]}


class Scenario:
    """One materialised scenario below d."""

    def __init__(self, d, sc, pool, b, rng):
        self.d, self.sc, self.pool, self.b, self.rng = d, sc, pool, b, rng
        # the working directory may be a deep one
        self.cwd = os.path.join(d, *["deep%d%s" % (i, "x" * 70) for i in range(4)], "cwd") if rng.random() < .12 else os.path.join(d, "cwd")

    def dir_path(self, i):
        if i == self.sc["defdir"]:
            return os.path.join(self.d, "prefix/lib/oclint/rules")
        return os.path.join(self.d, "D%d" % i)

    def out_path(self, tag):
        return {"stdout": "-", "nodir": "nowhere/r.txt", "isdir": "sub", "full": "/dev/full", "sub": "sub/r.txt",
                "abs": os.path.join(self.d, "elsewhere/r.txt"), "longname": "r" * 200 + ".txt"}.get(tag, "r-%s.txt" % tag)

    def value(self, f, v):
        if f == "out":
            return self.out_path(v)
        if isinstance(v, bool):
            return "true" if v else "false"
        return str(v)

    def yaml(self, y):
        rng, parts = self.rng, []
        for f in FIELDS:
            for v in y["set"][f]:
                s = self.value(f, v)
                parts.append("%s: %s\n" % (KEYS[f], s if f in ("glob", "dup", "p1", "p2", "p3") else ("'%s'" % s if s == "-" else scalar(rng, s))))
        if y["rc"]:
            parts.append("rule-configurations:\n" + "".join("  - key: %s\n    value: %s\n" % (scalar(rng, k), scalar(rng, v)) for k, v in y["rc"]))
        flow = rng.random() < .3
        if y["paths"]:
            parts.append(yaml_list(rng, "rule-paths", [scalar(rng, self.dir_path(p)) for p in y["paths"]], flow))
        if y["en"]:
            parts.append(yaml_list(rng, "rules", [scalar(rng, x) if " " not in x else "'%s'" % x for x in y["en"]], flow))
        if y["dis"]:
            parts.append(yaml_list(rng, "disable-rules", [scalar(rng, x) if " " not in x else "'%s'" % x for x in y["dis"]], flow))
        rng.shuffle(parts)
        if not parts:
            return ""
        if rng.random() < .3:
            parts.insert(rng.randrange(len(parts) + 1), "# a comment\n")
        if y["pad"]:
            text = "".join(parts)
            pad = y["pad"] - len(text)
            lines = []
            while pad > 0:
                n = min(pad, 80)
                lines.append("#" * (n - 1) + "\n")
                pad -= n
            parts = lines + parts if rng.random() < .5 else parts + lines
        text = "".join(parts)
        return text if not text.endswith("\n") or rng.random() < .8 or y["pad"] else text[:-1]

    def write(self, rel, text):
        p = os.path.join(self.d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p

    def link(self, kind, key, dest):
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        os.link(self.pool.get(kind, key), dest)

    def materialise(self):
        sc, d, rng = self.sc, self.d, self.rng
        for x in (self.cwd + "/sub", "build", "home", "stamp", "prefix/bin", "prefix/etc", "elsewhere", "inc"):
            os.makedirs(os.path.join(d, x), exist_ok=True)
        os.symlink(self.b["oclint"], os.path.join(d, "prefix/bin/oclint"))
        # rule libraries
        for i, dd in enumerate(sc["dirs"], 1):
            p = self.dir_path(i)
            if not dd["ok"]:
                if rng.random() < .3:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w").close()
                continue
            os.makedirs(p, exist_ok=True)
            slots = list(enumerate(dd["libs"], 1))
            rng.shuffle(slots)
            for j, lib in slots:
                n = "lib%d_%d.so" % (i, j)
                if not lib["ok"]:
                    self.write(os.path.join(p, n), "this is not a library\n")
                    continue
                self.link("rule", (i, j), os.path.join(p, n))
                rules = []
                for r in lib["rules"]:
                    rules.append("|".join([r["kind"], name_of(r), r["id"], r["cat"], str(r["prio"]),
                                           str(sum(MASK[l] for l in r["langs"])), " ".join(r["keys"]) if r["kind"] == "conf" else r["tag"]]))
                self.write(os.path.join(p, "." + n + ".cfg"), "".join(x + "\n" for x in rules))
        # reporters
        rp = os.path.join(d, "prefix/lib/oclint/reporters")
        if sc["reps"]["ok"]:
            os.makedirs(rp, exist_ok=True)
            slots = list(enumerate(sc["reps"]["libs"], 1))
            rng.shuffle(slots)
            for j, lib in slots:
                n = "rep%d.so" % j
                if not lib["ok"]:
                    self.write(os.path.join(rp, n), "this is not a library\n")
                    continue
                self.link("rep", j, os.path.join(rp, n))
                self.write(os.path.join(rp, "." + n + ".cfg"), lib["name"] + "\n")
        # configuration
        for i, rel in enumerate(["prefix/etc/oclint", "home/.oclint", self.cwd + "/.oclint"]):
            y = sc["lay"][i]
            if y["kind"] == "file":
                self.write(rel, self.yaml(y))
            elif y["kind"] == "empty":
                self.write(rel, "")
            elif y["kind"] == "blank":
                self.write(rel, rng.choice([" ", "\n", "\n\n  \t\n", "\t", " \r\n \f\v\n"]))
        # sources
        self.write("stamp/stamp.h", "#define STAMP stamp_0\n")
        self.write("inc/common.h", "#ifndef COMMON_H\n#define COMMON_H\nextern int h_x_y_z_;\nextern int h2_x_;\n#define INT int\n#endif\n")
        self.write("inc/warnhdr.h", "#warning hw\nextern int wh_x_y_z_;\n")
        self.write("inc/other.c", "int o;\n")
        db = []
        self.files = []
        for s, src in enumerate(sc["srcs"], 1):
            p = self.write(self.cwd + "/src/s%d.%s" % (s, src["lang"]), source_text(src, rng))
            self.files.append(p)
            for k, c in enumerate(src["cmds"], 1):
                args = ["clang", "-I" + os.path.join(d, "stamp"), "-I" + os.path.join(d, "inc"), "-DCMD=%d" % k]
                wd = rng.choice(["build", self.cwd, self.cwd + "/src"])
                if c["kind"] == "nojob":
                    args += [rng.choice(["-c", "-g"]), "x.o"] if rng.random() < .5 else ["-c", p, os.path.join(d, "inc/other.c")]
                else:
                    if rng.random() < .5:
                        args.append("-std=" + rng.choice(STDS[src["lang"]]))
                    args += rng.choice([["-c", p], ["-c", "-o", "x.o", p], ["-fsyntax-only", p], [p, "-c"]])
                db.append({"directory": os.path.join(d, "gone/away" if c["kind"] == "baddir" else wd), "file": p, "arguments": args})
        self.write("db/compile_commands.json", json.dumps(db))
        if rng.random() < .5:
            for t in ("file", "file1", "file2", "file3", "file4", "sub", "abs", "longname"):
                self.write(os.path.join(self.cwd, self.out_path(t)), "junk that was here before\n" * 400)

    def command(self):
        sc, rng = self.sc, self.rng
        cl = sc["lay"][3]
        a = []
        for f in FIELDS:
            for v in cl["set"][f]:
                s = self.value(f, v)
                if f == "out":
                    a.append(rng.choice([["-o", s], ["-o=" + s]]))
                elif f in ("glob", "dup"):
                    a.append(["-%s%s" % (KEYS[f], "" if v and rng.random() < .5 else "=" + s)])
                else:
                    a.append(rng.choice([["-%s=%s" % (KEYS[f], s)], ["--%s" % KEYS[f], s]]))
        groups = {"rc": [rng.choice([["-rc=%s=%s" % (k, v)], ["-rc", "%s=%s" % (k, v)]]) for k, v in cl["rc"]],
                  "R": [rng.choice([["-R", self.dir_path(p)], ["-R" + self.dir_path(p)], ["-R=" + self.dir_path(p)]][:2]) for p in cl["paths"]],
                  "en": [["-rule", x] for x in cl["en"]], "dis": [["-disable-rule", x] for x in cl["dis"]]}
        if sc["list"]:
            a.append(["-list-enabled-rules"])
        order = list(groups)
        rng.shuffle(order)
        for g in order:
            a += groups[g]
        self.exe = rng.choice(["abs", "abs", "abs", "path", "rel"])
        exe = os.path.join(self.d, "prefix/bin/oclint")
        head = [{"abs": exe, "path": "oclint", "rel": os.path.relpath(exe, self.cwd)}[self.exe], "-p", os.path.join(self.d, "db")]
        files = list(self.files)
        opts = [x for g in a for x in g]
        if sc["badargs"]:
            v = rng.randrange(3)
            if v == 0:
                opts.append("-no-such-option")
            elif v == 1:
                opts.append("-max-priority-2=many")
            else:
                files = []
        return head + opts + files if rng.random() < .7 else head + files + opts

    def run(self, timeout=60):
        d = self.d
        self.cmd = self.command()
        env = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(d, "home"), "LC_ALL": "C", "OCLINT_VSTAMP": os.path.join(d, "stamp"),
               "OCLINT_VTRACE": os.path.join(d, "trace")}
        if self.exe == "path":
            env["PATH"] = os.path.join(d, "prefix/bin") + ":" + env["PATH"]
        if self.sc["lay"][1]["kind"] == "absent":
            # no home layer: an empty home directory, an empty HOME or none at all
            v = self.rng.randrange(4)
            if v == 0:
                del env["HOME"]
            elif v == 1:
                env["HOME"] = ""
        try:
            r = subprocess.run(self.cmd, cwd=self.cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            rc, out, err = r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("latin-1")
        except subprocess.TimeoutExpired:
            rc, out, err = -999, "", "timeout"
        self.err = err
        ev = []
        tp = os.path.join(d, "trace")
        if os.path.exists(tp):
            for ln in open(tp, encoding="latin-1"):
                try:
                    ev.append(json.loads(ln))
                except ValueError:
                    ev.append({"e": "garbled", "r": "", "x": ln})
        listing = []
        m = re.search(r"^Enabled rules:\n((?:- .*\n)*)\n", out, re.M)
        if m:
            listing = [x[2:] for x in m.group(1).split("\n")[:-1]]
            out = out[:m.start()] + out[m.end():]
        skipped = [os.path.basename(x) for x in re.findall(r"^Skipping (.*)\. Compile command not found\.$", err, re.M)]
        places = [("stdout", out)]
        for t in sorted({v for y in self.sc["lay"] for v in y["set"]["out"]} | {"file1", "file", "sub", "abs"}):
            if t not in ("stdout", "full", "nodir", "isdir"):
                p = os.path.join(self.cwd, self.out_path(t))
                if os.path.exists(p):
                    places.append((t, open(p, encoding="latin-1").read()))
        dest, report = [], []
        for t, text in places:
            rep, extra = parse_report(text)
            if rep:
                dest.append(t + ("+extra" if extra else ""))
                report += rep
            elif text and t == "stdout":
                dest.append("stdout+garbage")
            elif rep is None:
                dest.append(t + "+partial")
        m = re.search(r"^P1=(-?\d+)\[(-?\d+)\] P2=(-?\d+)\[(-?\d+)\] P3=(-?\d+)\[(-?\d+)\] *$", err, re.M)
        return {"ev": ev, "fin": {"rc": rc, "listing": listing, "skipped": skipped, "dest": ",".join(dest), "report": report,
                                  "exceeded": [int(x) for x in m.groups()] if m else []}}


def parse_report(text):
    """([report], extra text) ; [] if there is none; None if it is not complete."""
    name, cur, reps, extra, seen = "verif", None, [], False, False
    for ln in text.split("\n"):
        if not ln.startswith("{"):
            if ln:
                extra = True
            continue
        seen = True
        try:
            x = json.loads(ln)
        except ValueError:
            return None, True
        if x["t"] == "rep":
            name = x["name"]
        elif x["t"] == "summary":
            cur = {"name": name, "files": x["files"], "dirty": x["dirty"], "n": x["n"], "p1": x["p1"], "p2": x["p2"], "p3": x["p3"],
                   "violations": [], "errors": [], "warnings": []}
        elif x["t"] == "end":
            reps.append(cur)
            cur = None
        elif cur is None:
            return None, True
        elif x["t"] == "v":
            cur["violations"].append({"r": x["rule"], "cat": x["cat"], "prio": x["prio"], "p": os.path.basename(x["path"]), "l": x["l"], "c": x["c"],
                                      "el": x["el"], "ec": x["ec"], "m": x["msg"]})
        elif x["t"] in ("error", "warning"):
            cur[x["t"] + "s"].append({"p": os.path.basename(x["path"]), "l": x["l"], "m": x["msg"]})
        else:
            cur.setdefault("bugs", []).append(x["msg"])
    if cur is not None or (seen and not reps):
        return None, True
    return reps, extra and bool(reps)


class Pool:
    """One copy (its own inode) of a plug-in per slot; scenarios link to them."""

    def __init__(self, c):
        self.c, self.m = c, {}
        self.d = os.path.join(c.work, "pool")
        os.makedirs(self.d, exist_ok=True)

    def get(self, kind, key):
        return self.m[kind, key]

    def fill(self, scs):
        for sc in scs:
            for i, dd in enumerate(sc["dirs"], 1):
                for j, lib in enumerate(dd["libs"], 1):
                    self.add("rule", (i, j), "script_plugin")
            for j in range(1, len(sc["reps"]["libs"]) + 1):
                self.add("rep", j, "verifrep_plugin")

    def add(self, kind, key, plug):
        if (kind, key) not in self.m:
            fd, p = tempfile.mkstemp(prefix=kind, suffix=".so", dir=self.d)
            os.close(fd)
            shutil.copy(os.path.join(self.c.b["plugins"], "lib%s.so" % plug), p)
            self.m[kind, key] = p


def run_all(c, scs, tag, pool=None, ids=None):
    """Runs every scenario; returns the trace lines (ids: their numbers, where they are run again)."""
    pool = pool or Pool(c)
    pool.fill(scs)

    def one(a):
        i, sc = a
        rng = random.Random("%s-%d-%s-%d" % (c.pid, c.seed, tag, i if ids is None else ids[i]))
        d = os.path.join(c.work, "%s%d%s" % (tag, i, "" if ids is None else "again"))
        s = Scenario(d, sc, pool, c.b, rng)
        s.materialise()
        o = s.run()
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return dict(sc=sc, **o), s
    res = vlib.pmap(one, list(enumerate(scs)))
    return [r[0] for r in res], [r[1] for r in res]


def accepted(c, lines, diag=False):
    p = os.path.join(c.work, "trace.ndjson")
    with open(p, "w") as f:
        for x in lines:
            f.write(json.dumps(x) + "\n")
    env = {"TRACE": p}
    if diag:
        env["DIAG"] = "1"
    r = c.tlc("RunTrace", "INIT Init\nNEXT Next\nINVARIANT Accept Config Select Load ExitStatus Analysis Views\n", env=env, timeout=600)
    c.transitions += r["generated"]
    return [json.loads(x) for x in r["lines"]], r


def validate(c, lines, scs, what, rerun=True):
    """Every trace must be a behaviour of Run; reports those that are not (and are not when run again)."""
    step = 400
    bad = []
    for b in range(0, len(lines), step):
        part = lines[b:b + step]
        acc, r = accepted(c, part)
        ok = {x["t"] for x in acc}
        c.log("TLC RunTrace: %d recorded runs (%d states), %d rejected, %.1fs" % (len(part), r["distinct"], len(part) - len(ok), r["wall"]))
        bad += [b + i - 1 for i in range(1, len(part) + 1) if i not in ok]
    c.traces += len(lines)
    if bad and rerun:
        again, runs = run_all(c, [lines[i]["sc"] for i in bad[:20]], "s", ids=bad[:20])
        acc, _ = accepted(c, again)
        ok = {x["t"] - 1 for x in acc}
        if ok:
            c.log("%d rejected runs were accepted when repeated" % len(ok))
        for j in range(len(again)):
            if j not in ok:
                lines[bad[j]], scs[bad[j]] = again[j], runs[j]
        bad = [i for j, i in enumerate(bad) if j not in ok]
    for n, i in enumerate(bad):
        if n < 5:
            d, _ = accepted(c, [lines[i]], diag=True)
            m = max(x["l"] for x in d)
            best = [x for x in d if x["l"] == m]
            best = [x for x in best if x["ph"] == "done"] or best[-1:]
            exp = [x["exp"] for x in best]
            ev = lines[i]["ev"]
            if m < len(ev) and best[0]["ph"] != "done":
                text = "event %d of the run is %s; the specification allows %s" % (m + 1, json.dumps(ev[m]), json.dumps(exp)[:600])
            elif m < len(ev):
                text = "the run goes on with event %s where the specification ends with %s" % (json.dumps(ev[m]), json.dumps(exp)[:600])
            else:
                text = "the run ends with\n%s\nthe specification ends with\n%s" % (json.dumps(lines[i]["fin"]), json.dumps(exp))
        else:
            text = "run %d is not a behaviour of the specification" % i
        c.violation("%s-%d" % (what, i), "%s\nstderr: %s\ncommand: %s" % (text, scs[i].err[-600:], " ".join(scs[i].cmd)),
                    {"scenario": lines[i]["sc"], "events": lines[i]["ev"], "outcome": lines[i]["fin"], "command": scs[i].cmd})
    return bad


# -- random scenarios beyond the enumerated families -------------------------------------
def rand_rule(rng, n):
    kind = rng.choice(["visitor", "matcher", "reader", "plain"])
    name = rng.choice(["rule", "a long name", "x-ray 2", "B", "no1 left", "camelCase name", "iOS 9 thing"]) + rng.choice(["", " %s" % "abc"[n % 3], " %s" % "xyz"[n % 3]])
    return {"kind": kind, "name": list(name), "id": rng.choice(["", "", "", "", "Custom%s" % "ABC"[n % 3]]), "cat": rng.choice(["one", "two"]),
            "prio": rng.choice([1, 2, 3]), "langs": rng.sample(["C", "CXX", "OBJC"], rng.randint(1, 3)) if kind in ("visitor", "matcher") else ["C", "CXX", "OBJC"],
            "tag": rng.choice("xyz"), "keys": []}


def camel(name):
    out, prev = "", False
    for ch in name:
        a = ch.isalpha() and ch.isascii()
        if a:
            out += ch if prev else ch.upper()
        prev = a
    return out


def random_scenario(rng):
    nd = rng.randint(1, 3)
    dirs, n = [], 0
    for _ in range(nd):
        if rng.random() < .06:
            dirs.append({"ok": False, "libs": []})
            continue
        libs = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            if rng.random() < .02:
                libs.append({"ok": False, "rules": []})
                continue
            rules = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                rules.append(rand_rule(rng, n))
                n += 1
            if rng.random() < .3:
                rules.append({"kind": "conf", "name": list("conf"), "id": "", "cat": "c", "prio": 3, "langs": ["C", "CXX", "OBJC"], "tag": "nothing", "keys": ["K1", "K2"]})
            libs.append({"ok": True, "rules": rules})
        dirs.append({"ok": True, "libs": libs})
    ids = sorted({r["id"] or camel("".join(r["name"])) for d in dirs for l in d["libs"] for r in l["rules"]} | {"Unknown"})
    reps = ["text", "alpha", "beta"]

    def layer(cl):
        y = {"kind": "absent", "pad": 0, "set": {f: [] for f in FIELDS}, "rc": [], "paths": [], "en": [], "dis": []}
        if not cl and rng.random() < .4:
            y["kind"] = rng.choice(["absent", "empty", "blank"])
            return y
        y["kind"] = "absent" if cl else "file"
        if rng.random() < .3:
            y["set"]["out"] = [rng.choice(["stdout", "file1", "file2", "sub", "abs"] + (["nodir", "full", "isdir"] if rng.random() < .3 else []))]
        if rng.random() < .3:
            y["set"]["type"] = [rng.choice(reps + (["other", "textual", "al", "betas"] if rng.random() < .2 else []))]
        for f in ("p1", "p2", "p3"):
            if rng.random() < .4:
                y["set"][f] = [rng.choice([0, 1, 2, 3, 5, 8, 13])]
        for f in ("glob", "dup"):
            if rng.random() < .4:
                y["set"][f] = [rng.random() < .6]
        y["rc"] = [["K%d" % rng.randint(1, 2), str(rng.randint(0, 9999))] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        y["paths"] = [rng.randint(1, nd) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        y["en"] = [rng.choice(ids) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
        y["dis"] = [rng.choice(ids) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if not cl:
            y["pad"] = rng.choice([0, 0, 0, 100, 4096, 16384, 20000, 32768])
        return y
    srcs, nocmd, k = [], rng.random() < .03, 0
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        cmds = []
        for _ in range(0 if nocmd else rng.choice([1, 1, 1, 2, 3])):
            decls = []
            for _ in range(rng.choice([0, 1, 2, 3, 5])):
                k += 1
                decls.append({"n": "d%d" % k, "tags": [rng.choice("xyzw") for _ in range(rng.choice([0, 1, 1, 2, 3]))]})
            cmds.append({"kind": rng.choice(["ok"] * 6 + ["warn", "hwarn", "err", "fatal"] + (["baddir", "nojob"] if rng.random() < .2 else [])), "decls": decls})
        srcs.append({"lang": rng.choice(["c", "cpp", "m", "mm"]), "cmds": cmds})
    libs = [{"ok": rng.random() > .01, "name": x} for x in rng.sample(reps, rng.choice([2, 3, 3, 3, 3]))]
    return {"badargs": rng.random() < .02, "lay": [layer(False), layer(False), layer(False), layer(True)], "list": rng.random() < .5,
            "dirs": dirs, "defdir": rng.randint(1, nd), "reps": {"ok": rng.random() > .02, "libs": libs}, "srcs": srcs}
