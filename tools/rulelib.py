"""Conformance of rules: model programs -> source -> real oclint -> trace -> TLC."""
import copy
import json
import os
import random
import shutil
import tempfile
import zlib

import gen
import render
from render import node, kinds, freeze, fmt, Printer
import vlib

HEADER = """#ifndef V_PRE_H
#define V_PRE_H
#ifdef __cplusplus
extern "C" { int f(); } int g(...); void h(...); void use(...);
#else
int f(); int g(); void h(); void use();
#endif
extern int arr[4], i, j;
enum E { E1, E2, E3 };
extern enum E en;
#ifndef __cplusplus
typedef signed char BOOL;
#endif
#ifdef __OBJC__
@interface NSObject
+ (id)alloc;
- (id)init;
- (int)value;
@end
extern id coll;
@interface NSException : NSObject
+ (int)raise;
- (int)raise;
+ (int)value;
@end
extern NSException *exc;
@interface Other : NSObject
- (int)raise;
@end
extern Other *other;
#endif
#endif
"""
EXT = {"c": ".c", "cpp": ".cpp", "m": ".m", "mm": ".mm"}
STDS = {"c": ["gnu89", "gnu89", "gnu89", "gnu89", "gnu11", "gnu2x"], "cpp": ["gnu++98", "gnu++11", "gnu++14", "gnu++20", "gnu++2b"],
        "m": ["gnu89", "gnu89", "gnu99", "gnu2x"], "mm": ["gnu++11", "gnu++14", "gnu++20", "gnu++2b"]}
FLAGS = {"c": [], "cpp": [], "m": ["-fobjc-exceptions", "-fblocks"], "mm": ["-fobjc-exceptions", "-fcxx-exceptions", "-fexceptions", "-fblocks"]}


def elaborate(n):
    """Fills in what the generator leaves open: case values, label and variable names, one kind of
    return per function.  Returns None if that is impossible."""
    n = copy.deepcopy(n)
    ctr = {"x": 0}

    def fresh(p):
        ctr["x"] += 1
        return "%s%d" % (p, ctr["x"])

    labels, gotos, rets = [], [], []

    def walk(x, inl):
        k = x["k"]
        if k in ("lambda", "objcblock"):
            inl = True
        if k == "label":
            if not x["v"]:
                x["v"] = fresh("L")
            labels.append(x["v"])
        elif k == "attr" and not x["v"]:
            ctr["a"] = ctr.get("a", len(str(n))) + 1
            x["v"] = gen.ATTRS[ctr["a"] % 3]
        elif k == "goto":
            gotos.append(x)
        elif k == "return":
            (rets if not inl else ctr.setdefault("lr", [])).append(x)
        elif k in ("decl", "rfor", "forin", "atcatch", "cvar") and not x["v"]:
            x["v"] = fresh({"decl": "d", "rfor": "x", "forin": "x", "atcatch": "ex", "cvar": "w"}[k])
        if x["v"] == "ce":
            x["c"] = [y if y["k"] in ("block", "none") else node("block", y) for y in x["c"]]
        if k == "switch":
            used = set()

            def cases(y):
                if y["k"] == "case":
                    if not y["v"]:
                        i = 1
                        while str(i) in used:
                            i += 1
                        y["v"] = str(i)
                    used.add(y["v"])
                if y["k"] != "switch":
                    for z in y["c"]:
                        cases(z)
            cases(x["c"][1])
        for y in x["c"]:
            walk(y, inl)
    walk(n, False)
    for g in gotos:
        if not g["v"]:
            if not labels:
                return None
            g["v"] = labels[0]
    if any(r["c"] for r in rets):
        for r in rets:
            if not r["c"]:
                r["c"] = [node("v", v="a")]
    for r in ctr.get("lr", []):
        r["c"] = []
    n["rt"] = "int" if any(r["c"] for r in rets) else "void"
    return n


def render_function(body, name, lang, style=0, rng=None, params="int a, int b, int c", head=None, rt=None):
    """Returns (lines, frozen record of the function)."""
    body = copy.deepcopy(body)
    p = Printer(rng, style, lang)
    h = head or "%s %s(%s)" % (rt or body.get("rt", "void"), name, params)
    b = p.t(h)
    p.stmt(body)
    lines = p.finish()
    return lines, {"fp": fmt((b, p.last)), "body": freeze(body)}


def batches(items, size):
    return [items[i:i + size] for i in range(0, len(items), size)]


class Runner:
    """Runs functions through the real binary and collects what was reported for each."""
    def __init__(self, c, rules, header=HEADER, dups=True):
        self.c = c
        self.dups = dups
        c.build(rules=rules, reporters=(), plugins=("verifrep_plugin",))
        c.install_reporter()
        self.header = header
        self.dir = os.path.join(c.work, "src")
        os.makedirs(self.dir, exist_ok=True)
        with open(os.path.join(self.dir, "pre.h"), "w") as f:
            f.write(header)
        self.n = 0

    def tu(self, funcs, lang, args, cflags=(), keep=None, rules_dir=None, default=False):
        """funcs: list of source-line lists.  Returns (list of observation lists, stray list, error)"""
        self.n += 1
        d = tempfile.mkdtemp(prefix="tu-", dir=self.dir)
        src = os.path.join(d, "t" + EXT[lang])
        text = ['#include "pre.h"']
        base = []
        for i, fl in enumerate(funcs):
            if i % 7 == 3:
                # lines are those of the file, whatever generated sources claim
                text.append("#line %d" % (1 + i % 5) + (' "y"' if i % 2 else ""))
            base.append(len(text) + 1)
            text += fl
        # some files have the line ends of other systems
        with open(src, "w", newline="\r\n" if zlib.crc32(repr(funcs).encode()) % 4 == 1 else "\n") as f:
            f.write("\n".join(text) + "\n")
        # another version of the language for some, when the program is one of that version, too
        pick = zlib.crc32("\n".join(text).encode()) % 20
        old = [] if default or any(x.startswith("-std") for x in cflags) or pick >= len(STDS[lang]) else ["-std=" + STDS[lang][pick]]
        rc, recs, err = self.c.oclint([src], rules_dir=rules_dir or self.c.b["rules_dir"],
                                      args=(["-allow-duplicated-violations"] if self.dups else []) + ["-max-priority-1=999999", "-max-priority-2=999999", "-max-priority-3=999999"] + list(args),
                                      cflags=["-w", "-I" + self.dir] + FLAGS[lang] + list(cflags) + old, cwd=d)
        res = {"rc": rc, "err": err[-1500:], "src": "\n".join(text)}
        if recs is None:
            res["fail"] = "oclint ended with status %s and no report: %s" % (rc, err[-1500:])
            return None, None, res
        errs = [r for r in recs if r["t"] == "error"]
        if errs and old:
            shutil.rmtree(d)
            return self.tu(funcs, lang, args, cflags, keep, rules_dir, True)
        if errs:
            raise vlib.CheckError("generated program does not compile (%s): %s\n%s" %
                                  (lang, errs[0], "\n".join(text[max(0, errs[0]["l"] - 12):errs[0]["l"] + 2])))
        summ = [r for r in recs if r["t"] == "summary"][0]
        if summ["files"] != 1:
            raise vlib.CheckError("file was not analysed: " + err)
        obs = [[] for _ in funcs]
        stray = []
        import bisect
        for r in recs:
            if r["t"] != "v":
                continue
            i = bisect.bisect_right(base, r["l"]) - 1
            if i < 0 or r["path"] != src or not (1 <= r["prio"] <= 3):
                stray.append(r)
                continue
            b0 = base[i]
            obs[i].append([r["rule"], "%d:%d-%d:%d" % (r["l"] - b0, r["c"], r["el"] - b0, r["ec"]), r["msg"]])
        shutil.rmtree(d)
        return obs, stray, res


def conformance(c, R, fam, jobs, check_module="RuleTrace", per_tu=300, label=""):
    """jobs: list of dict(lang, lines (source), rec (record for the trace), args (oclint args), cflags).
    Jobs with equal (lang, args, cflags) share translation units."""
    groups = {}
    for j in jobs:
        groups.setdefault((j["lang"], tuple(j.get("args", ())), tuple(j.get("cflags", ()))), []).append(j)
    work = []
    for (lang, args, cflags), js in groups.items():
        for b in batches(js, per_tu):
            work.append((lang, args, cflags, b))

    def one(w):
        lang, args, cflags, js = w
        obs, stray, res = R.tu([j["lines"] for j in js], lang, args, cflags)
        return obs, stray, res
    results = vlib.pmap(one, work)
    lines, owners = [], []
    for (lang, args, cflags, js), (obs, stray, res) in zip(work, results):
        if obs is None:
            # find the function(s) that break the run
            bad = bisect_crash(R, lang, args, cflags, js)
            c.violation("crash", "oclint fails on a %s program: %s" % (lang, res["fail"]),
                        {"args": list(args), "lang": lang, "source": bad})
            continue
        for s in stray[:3]:
            c.violation("stray", "violation outside every analysed function: %s" % json.dumps(s), {"source": res["src"], "record": s})
        for j, o in zip(js, obs):
            lines.append(dict(j["rec"], fam=fam, obs=o))
            owners.append((w_key(lang, args, cflags), j))
    rejected = c.validate(check_module, lines)
    c.traces += len(lines)
    c.extra["violations_matched"] = c.extra.get("violations_matched", 0) + sum(len(l["obs"]) for l in lines)
    if lines:
        k = max(range(len(lines)), key=lambda i: min(len(lines[i]["obs"]), 4))
        c.sample({"source": owners[k][1]["lines"], "observed": lines[k]["obs"]}, 4)
    # confirm every rejection on its own, in a fresh process
    items = sorted(rejected.items())
    fresh = []
    for i, exp in items[:40]:
        (lang, args, cflags), j = owners[i]
        obs, stray, res = R.tu([j["lines"]], lang, args, cflags)
        if obs is None:
            c.violation("crash", res["fail"], {"source": res["src"]})
            continue
        fresh.append((i, dict(j["rec"], fam=fam, obs=obs[0])))
    again = c.validate(check_module, [x for _, x in fresh]) if fresh else {}
    for n, (i, ln) in enumerate(fresh):
        (lang, args, cflags), j = owners[i]
        if n in again:
            exp = again[n]
            obs = [tuple(x) for x in ln["obs"]]
            miss = [e for e in map(tuple, exp) if e not in obs]
            extra = [o for o in obs if list(o) not in exp] or ([o for o in obs if obs.count(o) > 1])
            how = ("not reported: %s" % miss if miss else "") + (" wrongly reported: %s" % extra if extra else "")
        else:
            how = "reported differently when analysed after other functions: %s, expected %s" % (lines[i]["obs"], rejected[i])
        c.violation(j.get("key", "x"), "%s%s\n%s\n(oclint %s, %s)" % (label, how, "\n".join(j["lines"]), " ".join(args), lang),
                    {"args": list(args), "lang": lang, "cflags": list(cflags), "source": j["lines"], "observed": ln["obs"],
                     "expected": again.get(n, rejected[i]), "record": j["rec"]})
    return lines


def w_key(lang, args, cflags):
    return (lang, args, cflags)


def bisect_crash(R, lang, args, cflags, js):
    while len(js) > 1:
        h = len(js) // 2
        obs, _, _ = R.tu([j["lines"] for j in js[:h]], lang, args, cflags)
        if obs is None:
            js = js[:h]
        else:
            obs, _, _ = R.tu([j["lines"] for j in js[h:]], lang, args, cflags)
            if obs is not None:
                return [j["lines"] for j in js]
            js = js[h:]
    return [j["lines"] for j in js]


def make_jobs(progs, langs, rng, fam_rec, styles=(0, 1, 2), all_langs=False, byl=False, name="fn"):
    """fam_rec(program) -> dict(args, extra record fields)"""
    jobs = []
    for i, b in enumerate(progs):
        ok = [l for l in langs if render.compatible(l, b)]
        if not ok:
            continue
        use = ok if all_langs else [ok[i % len(ok)]]
        for l in use:
            fr = fam_rec(b, i, l) if byl else fam_rec(b, i)
            lines, rec = render_function(b, "%s%d" % (name, i), l, styles[i % len(styles)], rng, rt=fr.get("rt"), params=fr.get("params", "int a, int b, int c"))
            rec.update(fr.get("rec", {}))
            cflags = fr.get("cflags", ())
            if render.has(b, "ce") and not cflags:
                cflags = ("-std=c++2b",) if i % 2 else ("-std=c++20",)
            jobs.append({"lang": l, "lines": lines, "rec": rec, "args": fr.get("args", ()), "cflags": cflags, "key": fr.get("key", "x")})
    return jobs
