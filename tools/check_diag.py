"""C07: compiler and analyzer diagnostics."""
import json
import os
import random
import shutil
import subprocess
import sys

import vlib

GROUPS = ["#warnings", "constant-conversion", "unused-variable", "unused-function", "parentheses"]
PLAIN = {"wall": False, "w": False, "werror": False, "fatal": False, "sys": False, "limit": 0, "off": [], "up": []}
SETS = [{}, {}, {"wall": True}, {"wall": True}, {"wall": True, "sys": True}, {"wall": True, "off": ["unused-variable"]}, {"up": ["unused-variable"]},
        {"wall": True, "limit": 1}, {"fatal": True}, {"wall": True, "up": ["#warnings", "unused-function"]}, {"wall": True, "werror": True}, {"w": True},
        {"w": True, "werror": True}, {"werror": True}, {"werror": True, "fatal": True}, {"werror": True, "limit": 2, "wall": True}]
COMMON = ["#define MAC(x) char x = 300;", "#define ARG(v, x) char x = v;", "#define NEST(x) MAC(x)", "static inline int hdiv(int d) { return 1 / d; }"]
HDR = {"f": "common.h", "l": 4, "c": COMMON[3].index("/") + 1}
KINDS = ["ok", "warn", "const", "macro", "marg", "nested", "unused", "late", "paren", "errd", "undecl", "redef", "fatal", "bug", "hbug", "goto", "inc", "sinc",
         "push", "pop", "igW", "erW", "igC", "waU", "erL"]


def flags(fl):
    a = []
    if fl["wall"]:
        a.append("-Wall")
    a += ["-Wno-" + g for g in fl["off"]] + ["-Werror=" + g for g in fl["up"]]
    if fl["w"]:
        a.append("-w")
    if fl["werror"]:
        a.append("-Werror")
    if fl["fatal"]:
        a.append("-Wfatal-errors")
    if fl["sys"]:
        a.append("-Wsystem-headers")
    if fl["limit"]:
        a.append("-ferror-limit=%d" % fl["limit"])
    return a


def line(it, rng, names):
    """text of an item; sets its column"""
    k, n = it["k"], it["n"]
    at = None
    if k == "ok":
        t = "int %s;" % n
    elif k == "warn":
        t, at = "#warning %s" % n, "warning"
    elif k == "const":
        t, at = "char %s = 300;" % n, "300"
    elif k in ("macro", "marg", "nested"):
        t = {"macro": "MAC(%s)", "marg": "ARG(300, %s)", "nested": "NEST(%s)"}[k] % n
    elif k == "unused":
        t, at = "void u%s(void) { int %s; } extern int x%s;" % (n, n, n), " %s;" % n
    elif k == "late":
        t, at = "static void %s(void) { }" % n, " %s(" % n
    elif k == "paren":
        t, at = "int %s(int a) { if (a = 1) return a; return 0; }" % n, "= 1"
    elif k == "errd":
        t, at = "#error %s" % n, "error"
    elif k == "undecl":
        t, at = "int y%s = undeclared_%s;" % (n, n), " und"
    elif k == "redef":
        t, at = "int %s; float %s;" % (n, n), "t %s;" % n
        it["c"] = len("int %s; float " % n) + 1
        return t
    elif k == "fatal":
        t, at = '#include "missing.h"', '"m'
    elif k == "bug":
        t, at = "int %s(void) { int q = 0; return 1 / q; }" % n, "/"
    elif k == "hbug":
        t = "int %s(void) { return hdiv(0); }" % n
    elif k == "goto":
        t, at = "void %s(void) { goto x; x: ; }" % n, "goto"
    elif k in ("inc", "sinc"):
        t = '#include "%s"' % names[it["h"] - 1]
    elif k in ("push", "pop"):
        t = "#pragma clang diagnostic " + k
    else:
        t = '#pragma clang diagnostic %s "-W%s"' % (k, it["g"])
    if at is None:
        it["c"] = 1
        return t
    i = t.index(at)
    if at[0] == " ":
        i += 1
    it["c"] = i + 1
    return t


class Run:
    def __init__(self, c, d, rng):
        self.c, self.d, self.rng = c, d, rng
        self.names, self.files, self.cmds, self.n = [], [], [], 0

    def file(self, items, name):
        """a file of its own; returns its number"""
        self.names.append(name)
        out = []
        for it in items:
            self.n += 1
            out.append(dict(it, n="n%d" % self.n))
        self.files.append(out)
        return len(self.files)

    def header(self, items, sys):
        return self.file(items, "%s%d.h" % ("s" if sys else "h", len(self.files)))

    def write(self):
        for x in ("inc", "sys", "src", "build"):
            os.makedirs(os.path.join(self.d, x), exist_ok=True)
        with open(os.path.join(self.d, "inc", "common.h"), "w") as f:
            f.write("\n".join(COMMON) + "\n")
        for name, items in zip(self.names, self.files):
            hdr = name.endswith(".h")
            ls = ["#pragma once" if hdr else '#include "common.h"']
            for it in items:
                while self.rng.random() < .15:
                    # lines are those of the file, whatever a directive claims
                    ls.append("" if self.rng.random() < .7 else '#line %d "elsewhere.y"' % self.rng.randint(1, 20))
                ls.append(line(it, self.rng, self.names))
                it["l"] = len(ls)
            with open(os.path.join(self.d, "src" if not hdr else "sys" if name[0] == "s" else "inc", name), "w", newline="\r\n" if len(ls) % 3 == 1 else "\n") as f:
                f.write("\n".join(ls) + "\n")

    def go(self, analyze, glob, dup):
        self.write()
        db, srcs = [], []
        for cm in self.cmds:
            p = os.path.join(self.d, "src", self.names[cm["main"] - 1])
            fl = flags(cm["fl"])
            db.append({"directory": os.path.join(self.d, "build"), "file": p,
                       "arguments": ["clang"] + fl + ["-I", os.path.join(self.d, "inc"), "-isystem", os.path.join(self.d, "sys"), "-c", p, "-o", "x.o"]})
            if p not in srcs:
                srcs.append(p)
        with open(os.path.join(self.d, "compile_commands.json"), "w") as f:
            json.dump(db, f)
        args = ["-p", self.d, "-rule", "GotoStatement", "-max-priority-3=0"]
        args += ["-enable-clang-static-analyzer"] * analyze + ["-enable-global-analysis"] * glob + ["-allow-duplicated-violations"] * dup
        cmd = [self.c.b["oclint"], "-report-type", "verif"] + args + srcs
        self.cmd = " ".join(cmd)
        try:
            r = self.c.run(cmd, timeout=120, cwd=os.path.join(self.d, "src"))
            rc, out = r.returncode, r.stdout.decode("latin-1")
        except subprocess.TimeoutExpired:
            rc, out = -999, ""
        obs = {"errors": [], "warnings": [], "bugs": [], "v": [], "rc": rc}
        ended = False
        for ln in out.split("\n"):
            if ln.startswith("{"):
                x = json.loads(ln)
                if x["t"] in ("error", "warning", "bug"):
                    obs[x["t"] + "s"].append({"f": os.path.basename(x["path"]), "l": x["l"], "c": x["c"], "m": x["msg"]})
                elif x["t"] == "v":
                    obs["v"].append({"f": os.path.basename(x["path"]), "l": x["l"], "c": x["c"], "m": x["msg"]})
                ended |= x["t"] == "end"
        if not ended:
            obs["rc"] = -1 if rc == 0 else rc
        self.run = {"dup": dup, "analyze": analyze, "files": self.files, "names": self.names, "cmds": self.cmds, "hdr": HDR}
        return {"run": self.run, "obs": obs}

    def text(self):
        return "\n".join("--- %s\n%s" % (n, open(os.path.join(self.d, "src" if not n.endswith(".h") else "sys" if n[0] == "s" else "inc", n)).read())
                         for n in self.names)


def raw(k, rng=None, h=0):
    t = {"igW": ("ignored", "#warnings"), "erW": ("error", "#warnings"), "igC": ("ignored", "constant-conversion"), "waU": ("warning", "unused-variable"),
         "erL": ("error", "unused-function")}.get(k)
    return {"k": t[0] if t else k, "n": "", "l": 0, "c": 0, "h": h, "g": t[1] if t else ""}


def rand_items(rng, n, hdrs, main, sys=False):
    out, depth = [], 0
    for _ in range(n):
        k = rng.choice(["ok", "warn", "const", "macro", "marg", "nested", "unused", "late", "paren", "push", "pop", "prag", "prag", "inc", "inc"]
                       + (["bug", "hbug", "goto", "goto"] if main else [])
                       + (["errd", "undecl", "redef", "fatal"] if rng.random() < .25 else []))
        if sys and k in ("macro", "marg", "nested"):
            k = "const"     # what is a system header's within a macro is a matter of its own
        if k == "pop":
            if not depth:
                continue
            depth -= 1
        depth += k == "push"
        if k == "inc":
            if not hdrs:
                continue
            h, sys = rng.choice(hdrs)
            out.append(raw("sinc" if sys else "inc", h=h))
        elif k == "prag":
            out.append(dict(raw(rng.choice(["ignored", "warning", "error"])), g=rng.choice(GROUPS)))
        else:
            out.append(raw(k))
    return out + ([raw("pop")] * depth if rng.random() < .5 or not main else [])


def rand_flags(rng):
    fl = dict(PLAIN)
    for k, p in (("wall", .6), ("w", .08), ("werror", .15), ("fatal", .08), ("sys", .15)):
        fl[k] = rng.random() < p
    if rng.random() < .15:
        fl["limit"] = rng.randint(1, 3)
    gs = rng.sample(GROUPS, rng.choice([0, 0, 0, 1, 2]))
    fl["off"] = gs[:1] if rng.random() < .5 else []
    fl["up"] = gs[1:]
    return fl


def minus(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out


def check(c):
    th = c.thorough
    c.build(rules=["GotoStatement"], plugins=("verifrep_plugin",))
    c.install_reporter()
    q = lambda xs: "{" + ",".join('"%s"' % x for x in xs) + "}"
    progs = []
    for ml, ks in ((1, KINDS), (2, KINDS), (3, KINDS)) + (((4, [k for k in KINDS if k not in ("ok", "macro", "marg", "nested", "hbug")]),) if th else ()):
        progs.append(c.model("GenDiag", "CONSTANTS MaxLen=%d\nKinds=%s\nINIT Init\nNEXT Next\nINVARIANT Emit Laws\n" % (ml, q(ks))))
    c.extra["programs_of_the_model"] = sum(map(len, progs))
    rng = c.rng
    chosen = progs[0] * 4 + progs[1] + rng.sample(progs[2], min(len(progs[2]), 12000 if th else 2000)) + [x for p in progs[3:] for x in rng.sample(p, 8000)]
    rng.shuffle(chosen)
    runs = []

    def new():
        i = len(runs)
        r = Run(c, os.path.join(c.work, "r%d" % i), random.Random("%d-%d" % (c.seed, i)))
        runs.append(r)
        return r
    step = 25
    for b in range(0, len(chosen), step):
        r = new()
        r.header(rand_items(rng, rng.choice([0, 1, 2]), [], False), False)
        r.header(rand_items(rng, rng.choice([0, 1, 2]), [], False, True), True)
        r.mode = (rng.random() < .5, rng.random() < .3, rng.random() < .8)
        for j, p in enumerate(chosen[b:b + step]):
            m = r.file(p, "m%d.%s" % (j, rng.choice(["c", "c", "m", "cpp"])))
            r.cmds.append({"main": m, "fl": dict(PLAIN, **rng.choice(SETS))})
    n = len(runs)
    for _ in range(2500 if th else 400):
        r = new()
        hdrs = []
        for _ in range(rng.randint(0, 4)):
            sys = rng.random() < .3
            hdrs.append((r.header(rand_items(rng, rng.randint(0, 4), hdrs, False, sys), sys), sys))
        r.mode = (rng.random() < .5, rng.random() < .4, rng.random() < .5)
        for j in range(rng.choice([1, 1, 2, 3])):
            m = r.file(rand_items(rng, rng.randint(0, 10), hdrs, True), "m%d.%s" % (j, rng.choice(["c", "c", "m", "cpp"])))
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r.cmds.append({"main": m, "fl": rand_flags(rng)})
    c.extra["runs"] = len(runs)
    c.extra["compilations"] = sum(len(r.cmds) for r in runs)
    lines = vlib.pmap(lambda r: r.go(*r.mode), runs)
    c.log("%d runs of %d compilations done" % (len(runs), c.extra["compilations"]))
    for k in ("errors", "warnings", "bugs", "v"):
        c.extra["reported_" + k] = sum(len(x["obs"][k]) for x in lines)
    # the message of a violation is the rule's affair, not this property's
    for x in lines:
        for v in x["obs"]["v"]:
            v["m"] = ""
    bad = c.validate("DiagTrace", lines)
    c.traces += len(lines)
    for i, exp in sorted(bad.items()):
        o = lines[i]["obs"]
        diff = []
        for k in ("errors", "warnings", "bugs", "v"):
            if o[k] != exp[k]:
                lack, more = minus(exp[k], o[k]), minus(o[k], exp[k])
                diff.append("%s: lacks %s; has besides %s%s" % (k, lack[:4], more[:4], "" if lack or more else "; other order or number"))
        if o["rc"] != exp["rc"]:
            diff.append("exit status %s, expected %s" % (o["rc"], exp["rc"]))
        involved = {x["f"] for k in ("errors", "warnings", "bugs", "v") for x in [y for y in o[k] if y not in exp[k]] + [y for y in exp[k] if y not in o[k]]}
        c.violation("diag", "%s\n%s\n%s\n%s" % ("\n".join(diff), runs[i].cmd[:300], [(runs[i].names[m["main"] - 1], " ".join(flags(m["fl"]))) for m in runs[i].cmds
                    if runs[i].names[m["main"] - 1] in involved or len(runs[i].cmds) < 4], "\n".join(t for t in runs[i].text().split("--- ") if t.split("\n")[0] in involved or t[0:1] in "hs" or len(runs[i].names) < 5)), lines[i])
    for r in runs[:2] + runs[n:n + 2]:
        c.sample({"flags": [" ".join(flags(m["fl"])) for m in r.cmds][:5], "modes": r.mode})
    c.assumptions += ["which diagnostics the compiler and the analyzer give for the constructs used is part of the specification (the kinds of Diag.tla)"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
