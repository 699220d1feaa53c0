"""C22: the report of a run is the composition of what each rule says about each piece of source alone
(spec/Compose.tla)."""
import bisect
import json
import os
import re
import sys

import blocks
import gen
import render
import rulelib
import vlib

CFG = """CONSTANTS NF=%d NR=2 MaxLen=%d
INIT Init
NEXT Next
INVARIANT Composed OneSet Alone Nothing Modes Prefix Emit
"""
LOW = ["LONG_LINE=20", "LONG_METHOD=2", "LONG_CLASS=4", "TOO_MANY_FIELDS=1", "TOO_MANY_METHODS=1", "TOO_MANY_PARAMETERS=1",
       "LONG_VARIABLE_NAME=4", "SHORT_VARIABLE_NAME=4", "CYCLOMATIC_COMPLEXITY=1", "NPATH_COMPLEXITY=1", "NCSS_METHOD=1",
       "NESTED_BLOCK_DEPTH=1", "MINIMUM_CASES_IN_SWITCH=9", "MAXIMUM_IF_LENGTH=0", "RAII_CUSTOM_CLASSES=none"]
FLAGS = ["-w", "-fblocks", "-fobjc-exceptions", "-fobjc-runtime=gnustep-2.0"]
PER = {"c": [], "cpp": ["-std=c++14", "-fcxx-exceptions", "-fexceptions"], "m": [], "mm": ["-std=c++14", "-fcxx-exceptions", "-fexceptions"]}
EXTRA = """#ifdef __OBJC__
#ifdef __cplusplus
typedef signed char BOOL;
#endif
#endif
"""


def random_blocks(c, n):
    """functions of the generators of the rule families, as blocks"""
    STM = ["null", "e", "expr", "break", "continue", "return", "decl", "block", "if", "ifelse", "while", "do", "for", "switch"]
    EX = ["v", "int", "land", "lor", "bin", "asg", "cond", "un", "par", "cast", "call", "sub", "elvis"]
    out = {l: {} for l in blocks.EXT}
    for langs, ks, ex in ((("c", "cpp", "m", "mm"), STM + ["label", "goto"], EX), (("cpp", "mm"), STM + ["try", "throw", "rfor"], EX + ["bool", "lambda"]),
                          (("m", "mm"), STM + ["attry", "forin", "sync", "pool", "atthrow"], EX)):
        r = gen.Rand(c.rng, ks, ex)
        made = 0
        while made < n:
            b = rulelib.elaborate(r.function(c.rng.randint(2, 5)))
            if not b or not gen.valid(b):
                continue
            ok = [l for l in langs if render.compatible(l, b)]
            for l in ok:
                lines, rec = rulelib.render_function(b, "rnd$$", l, made % 3, c.rng)
                out[l]["rnd%d%s" % (made, ks[-1])] = "\n".join(lines)
            made += bool(ok)
    return out


class World:
    def __init__(self, c, R):
        self.c, self.R = c, R
        self.pool = {}          # lang -> names
        self.ids = {}           # (lang, name) -> block id
        self.text = []
        self.verdicts = {}      # (rule, position, message) -> id
        self.names = []
        self.dirs = {}

    def add(self, lang, name, text):
        self.ids[(lang, name)] = len(self.text) + 1
        self.text.append((lang, name, text))
        self.pool.setdefault(lang, []).append(name)

    def write(self, path, lang, names, start=0, broken=False):
        """Returns the line numbers at which the blocks begin."""
        ls = ['#include "pre.h"']
        base = []
        for k, n in enumerate(names):
            base.append(len(ls) + 1)
            ls += blocks.text(self.text[self.ids[(lang, n)] - 1][2], (start + k) % 100)
        if broken:
            ls.append("int broken(void) { return nosuchthing; }")
        with open(path, "w") as f:
            f.write("\n".join(ls) + "\n")
        return base

    def verdict(self, r, b0, nn):
        """verdict id of a record of a block that begins at line b0 and has suffix nn"""
        msg = r["msg"].replace("Z%02d" % nn, "$$")
        key = (r["rule"], "%d:%d-%d:%d" % (r["l"] - b0, r["c"], r["el"] - b0, r["ec"]), msg, r["cat"], r["prio"])
        if key not in self.verdicts:
            self.verdicts[key] = len(self.verdicts) + 1
            self.names.append(key)
        return self.verdicts[key]


def observe(W, recs, files):
    """files: path -> (file id, bases, start suffix).  Report entries <<file, position, verdict>>."""
    out = []
    for r in recs:
        if r["t"] != "v":
            continue
        if r["path"] not in files:
            out.append([0, 0, W.verdict(r, 0, 0)])
            continue
        fid, base, start = files[r["path"]]
        k = bisect.bisect_right(base, r["l"])
        out.append([fid, k, W.verdict(r, base[k - 1] if k else 0, (start + k - 1) % 100)])
    return out


def check(c):
    th = c.thorough
    c.build(rules="all", plugins=("verifrep_plugin",))
    c.install_reporter()
    rdir = c.b["rules_dir"]
    W = World(c, None)
    src = os.path.join(c.work, "src")
    os.makedirs(src)
    with open(os.path.join(src, "pre.h"), "w") as f:
        f.write(rulelib.HEADER + EXTRA + blocks.HEADER2)
    rnd = random_blocks(c, 40 if th else 10)
    for lang in blocks.EXT:
        for n, t in list(blocks.blocks(lang).items()) + list(rnd[lang].items()):
            W.add(lang, n, t)

    def flags(lang):
        return FLAGS + ["-I" + src] + PER[lang]

    def database(d, entries):
        with open(os.path.join(d, "compile_commands.json"), "w") as f:
            json.dump([{"directory": d, "file": p, "arguments": ["clang"] + flags(l) + ["-c", p]} for p, l in entries], f)

    def go(d, paths, args, rd):
        cmd = [c.b["oclint"], "-report-type", "verif", "-p", d, "-R", rd, "-max-priority-1=99999", "-max-priority-2=99999", "-max-priority-3=99999"] + args + paths
        try:
            r = c.run(cmd, cwd=d, timeout=120)
        except vlib.subprocess.TimeoutExpired:
            return -1, None, "oclint did not end in time"
        recs, ended = [], False
        for ln in r.stdout.decode("latin-1").split("\n"):
            if ln.startswith("{"):
                x = json.loads(ln)
                if x["t"] == "end":
                    ended = True
                else:
                    recs.append(x)
        return r.returncode, recs if ended else None, r.stderr.decode("latin-1")

    # the rules in registration order, and under which name they report
    def listing(rd):
        r = c.run([c.b["oclint"], "-list-enabled-rules", "-report-type", "verif", "-R", rd, os.path.join(src, "pre.h"), "--"])
        return re.findall(r"^- (\w+)$", r.stdout.decode(), re.M)
    order = listing(rdir)
    libs = sorted(x for x in os.listdir(rdir) if x.endswith(".so"))
    if len(order) < len(libs) or len(set(order)) != len(order):
        raise vlib.CheckError("enabled rules: %s" % order)
    # directories with one rule library each
    one = {}
    for x in libs:
        d = os.path.join(c.work, "one", x)
        os.makedirs(d)
        os.symlink(os.path.join(rdir, x), os.path.join(d, x))
        one[x] = d
    lib_rules = dict(zip(libs, vlib.pmap(lambda x: listing(one[x]), libs)))
    ident = {}
    for rs in lib_rules.values():
        for x in rs:
            ident[x] = order.index(x) + 1
    LIM = [[], sum((["-rc", k] for k in LOW), [])]

    # every block alone, with one rule library per run for the default thresholds of a part, all rules otherwise
    table = [[None] * len(W.text) for _ in LIM]
    rule_of = {}            # reported rule name -> index in registration order

    def alone(job):
        bi, lim, lib = job
        lang, name, text = W.text[bi]
        d = os.path.join(src, "a%d-%d-%s" % (bi, lim, lib or "all"))
        os.makedirs(d)
        p = os.path.join(d, "x" + blocks.EXT[lang])
        base = W.write(p, lang, [name], start=7)
        database(d, [(p, lang)])
        rc, recs, err = go(d, [p], ["-allow-duplicated-violations"] + LIM[lim], one[lib] if lib else rdir)
        return job, p, base, rc, recs, err
    # names of rules, from the reports of single libraries over the hand-written blocks in one file per language
    names_jobs = []
    for lang in blocks.EXT:
        d = os.path.join(src, "n-" + lang)
        os.makedirs(d)
        p = os.path.join(d, "x" + blocks.EXT[lang])
        W.write(p, lang, W.pool[lang])
        database(d, [(p, lang)])
        names_jobs += [(d, p, x, l, r) for x in libs for l in (0, 1) for r in lib_rules[x]]
    for (d, p, x, l, rid), (rc, recs, err) in zip(names_jobs, vlib.pmap(lambda j: go(j[0], [j[1]], LIM[j[3]] + ["-rule", j[4]], one[j[2]]), names_jobs)):
        if recs is None:
            c.violation("crash", "oclint fails with %s on blocks of %s: %s" % (x, p, err[-800:]), {"source": open(p).read(), "rule": x})
            continue
        e = [r for r in recs if r["t"] == "error"]
        if e:
            raise vlib.CheckError("blocks do not compile: %s\n%s" % (e[0], open(p).read().split("\n")[max(0, e[0]["l"] - 5):e[0]["l"] + 3]))
        for r in recs:
            if r["t"] == "v":
                rule_of.setdefault(r["rule"], ident[rid])
    if c.bad:
        return
    c.log("%d rules, %d of them speak; %d blocks" % (len(order), len(set(rule_of.values())), len(W.text)))
    silent = [r for r in order if ident[r] not in rule_of.values()]
    c.extra["rules"] = len(order)
    c.extra["rules_without_a_verdict"] = silent
    res = vlib.pmap(alone, [(b, l, None) for b in range(len(W.text)) for l in (0, 1)])
    for (bi, lim, lib), p, base, rc, recs, err in res:
        if recs is None:
            c.violation("crash", "oclint fails on a block: %s\n%s" % (err[-800:], W.text[bi][2]), {"source": W.text[bi][2]})
            continue
        row = [[] for _ in order]
        for fid, k, v in observe(W, recs, {p: (1, base, 7)}):
            key = W.names[v - 1]
            if fid != 1 or k != 1 or key[0] not in rule_of:
                c.violation("stray", "violation outside the block, or by no rule of the run: %s\n%s" % (key, W.text[bi][2]), {"source": W.text[bi][2], "verdict": key})
                continue
            row[rule_of[key[0]] - 1].append(v)
        table[lim][bi] = row
    if c.bad:
        return
    c.log("blocks analysed alone: %d verdicts" % sum(len(v) for t in table for b in t for v in b))

    # scenarios: (files, cmds, rules selection, modes)
    # a file: lang, block names, start suffix, broken?
    def a_file(lang, n, broken=False):
        return {"lang": lang, "names": [c.rng.choice(W.pool[lang]) for _ in range(n)], "start": c.rng.randrange(100), "broken": broken}
    scen = []
    langs = list(blocks.EXT)

    def some_rules():
        k = c.rng.random()
        if k < .3:
            x = c.rng.choice(libs)
            return {"dir": one[x], "args": [], "rules": [ident[r] for r in lib_rules[x]], "how": x}
        names = c.rng.sample(order, c.rng.choice([1, 2, 3, 10, 40]))
        if k < .65:
            return {"dir": rdir, "args": sum((["-rule", x] for x in names), []), "rules": sorted(ident[x] for x in names), "how": "-rule"}
        return {"dir": rdir, "args": sum((["-disable-rule", x] for x in names), []), "rules": sorted(ident[x] for x in order if x not in names), "how": "-disable-rule"}
    everything = {"dir": rdir, "args": [], "rules": list(range(1, len(order) + 1)), "how": "all"}
    # 1. every run of the model, over one file per language and a file that does not compile
    NF = 5
    runs = c.model("GenCompose", CFG % (NF, 3))
    runs.sort(key=json.dumps)
    c.extra["runs_of_the_model"] = len(runs)
    if not th:
        short = [r for r in runs if len(r["cmds"]) < 3]
        runs = short + c.rng.sample([r for r in runs if len(r["cmds"]) == 3], 350)
    fs = None
    for n, r in enumerate(runs):
        if n % 40 == 0:
            fs = [a_file(l, c.rng.randint(3, 14)) for l in langs] + [a_file(c.rng.choice(langs), 4, True)]
            cut = c.rng.randint(1, len(order) - 1)
            perm = order[:]
            c.rng.shuffle(perm)
            halves = [sorted(perm[:cut]), sorted(perm[cut:])]
        sel = everything if len(r["rules"]) == 2 else \
            {"dir": rdir, "args": sum((["-rule", x] for x in halves[r["rules"][0] - 1]), []), "rules": sorted(ident[x] for x in halves[r["rules"][0] - 1]), "how": "-rule half"}
        scen.append({"files": fs, "cmds": r["cmds"], "sel": sel, "glob": r["glob"], "dups": r["dups"], "lim": n % 2, "twice": n % 8 == 0})
    # 2. long files in one language, several in one run, with all rules and with some
    for n in range(400 if th else 60):
        l = c.rng.choice(langs)
        fs = [a_file(l if c.rng.random() < .7 else c.rng.choice(langs), c.rng.randint(20, 60)) for _ in range(c.rng.randint(1, 5))]
        cmds = [c.rng.randint(1, len(fs)) for _ in range(c.rng.randint(1, 7))]
        scen.append({"files": fs, "cmds": cmds, "sel": everything if n % 3 else some_rules(), "glob": c.rng.random() < .3, "dups": c.rng.random() < .6,
                     "lim": c.rng.randrange(2), "twice": n % 3 == 0})
    # 3. each rule alone, over files with all blocks in random order
    for n, x in enumerate(libs * (4 if th else 1)):
        fs = []
        for l in langs:
            ns = W.pool[l][:]
            c.rng.shuffle(ns)
            fs.append({"lang": l, "names": ns[:90], "start": 0, "broken": False})
        cmds = [1, 2, 3, 4]
        c.rng.shuffle(cmds)
        scen.append({"files": fs, "cmds": cmds + [c.rng.randint(1, 4)], "sel": {"dir": one[x], "args": [], "rules": [ident[r] for r in lib_rules[x]], "how": x},
                     "glob": n % 4 == 0, "dups": True, "lim": n % 2, "twice": False})
    # 4. some rules over mixed files
    for n in range(400 if th else 80):
        fs = [a_file(c.rng.choice(langs), c.rng.randint(1, 30), c.rng.random() < .1) for _ in range(c.rng.randint(2, 6))]
        cmds = [c.rng.randint(1, len(fs)) for _ in range(c.rng.randint(2, 8))]
        scen.append({"files": fs, "cmds": cmds, "sel": some_rules(), "glob": c.rng.random() < .3, "dups": c.rng.random() < .6, "lim": c.rng.randrange(2), "twice": n % 5 == 0})

    def play(s):
        d = vlib.tempfile.mkdtemp(prefix="run-", dir=src)
        where, entries, paths = {}, [], []
        for k, f in enumerate(s["files"], 1):
            p = os.path.join(d, "f%d%s" % (k, blocks.EXT[f["lang"]]))
            base = W_write(p, f)
            where[p] = (k, base, f["start"])
            entries.append((p, f["lang"]))
            paths.append(p)
        database(d, entries)
        args = (["-allow-duplicated-violations"] if s["dups"] else []) + (["-enable-global-analysis"] if s["glob"] else []) + LIM[s["lim"]] + s["sel"]["args"]
        cmds = [paths[k - 1] for k in s["cmds"]]
        a = go(d, cmds, args, s["sel"]["dir"])
        b = go(d, cmds, args, s["sel"]["dir"]) if s["twice"] else None
        vlib.shutil.rmtree(d)
        return where, args, a, b

    def W_write(p, f):
        return W.write(p, f["lang"], f["names"], f["start"], f["broken"])
    played = vlib.pmap(play, scen)
    c.log("%d runs of several files and rules" % len(scen))
    lines, owner = [], []
    for s, (where, args, a, b) in zip(scen, played):
        if a[1] is None or (b and b[1] is None):
            c.violation("crash", "oclint fails on a run of %d files that it analyses alone: %s" % (len(s["cmds"]), (a if a[1] is None else b)[2][-800:]), {"scenario": s, "args": args})
            continue
        n_ok = len([k for k in s["cmds"] if not s["files"][k - 1]["broken"]])
        summ = [r for r in a[1] if r["t"] == "summary"][0]
        if summ["files"] != n_ok:
            errs = [r for r in a[1] if r["t"] == "error" and not s["files"][where[r["path"]][0] - 1]["broken"]] if not n_ok else []
            errs = [r for r in a[1] if r["t"] == "error" and r["path"] in where and not s["files"][where[r["path"]][0] - 1]["broken"]]
            if errs:
                raise vlib.CheckError("generated file does not compile: %s" % errs[0])
            c.violation("files", "%d of %d files analysed: %s" % (summ["files"], n_ok, a[2][-500:]), {"scenario": s, "args": args})
            continue
        lines.append({"files": [[W.ids[(f["lang"], n)] for n in f["names"]] for f in s["files"]],
                      "cmds": [k for k in s["cmds"] if not s["files"][k - 1]["broken"]],
                      "rules": s["sel"]["rules"], "dups": s["dups"], "lim": s["lim"] + 1, "obs": observe(W, a[1], where),
                      "twice": s["twice"], "again": observe(W, b[1], where) if b else []})
        owner.append((s, args, where))
    tp = os.path.join(c.work, "table.ndjson")
    with open(tp, "w") as f:
        for t in table:
            f.write(json.dumps({"t": t}) + "\n")
    rejected = c.validate("ComposeTrace", lines, env={"TABLE": tp})
    c.traces += len(lines)
    c.extra["violations_matched"] = sum(len(l["obs"]) for l in lines)
    c.extra["runs_repeated"] = sum(1 for l in lines if l["twice"])
    c.sample({"commands": lines[-1]["cmds"], "blocks": [f["names"][:6] for f in owner[-1][0]["files"]], "first_entries": lines[-1]["obs"][:5]})
    for i, e in sorted(rejected.items()):
        s, args, where = owner[i]
        o = lines[i]["obs"]
        if e["k"] == 0:
            txt = "the same run gave another report when repeated"
        else:
            nr = len(lines[i]["rules"])
            fi = lines[i]["cmds"][(e["k"] - 1) // nr] if (e["k"] - 1) // nr < len(lines[i]["cmds"]) else 0
            ru = order[lines[i]["rules"][(e["k"] - 1) % nr] - 1]
            got = o[e["at"]:e["at"] + len(e["want"]) + 2]

            def say(x):
                return "file %d block %d (%s): %s" % (x[0], x[1], s["files"][x[0] - 1]["names"][x[1] - 1] if x[0] and x[1] else "?", W.names[x[2] - 1][:3])
            txt = "%s on file %s, one of commands %s: expected %s, reported there %s" % (
                ru, fi, s["cmds"], [say(x) for x in e["want"] if x not in got][:4], [say(x) for x in got if x not in e["want"]][:4])
        c.violation("compose", "%s\n(%d files, %s, rules by %s, global %s, duplicates %s)" % (txt, len(s["files"]), " ".join(args)[:300], s["sel"]["how"], s["glob"], s["dups"]),
                    {"scenario": {k: s[k] for k in ("files", "cmds", "glob", "dups", "lim")}, "args": args})


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
