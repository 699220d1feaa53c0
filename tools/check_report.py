"""C08, C09: the reports are read back and compared with what the specification has a reader find."""
import glob
import html.parser
import json
import os
import random
import re
import sys
import xml.parsers.expat

import vlib

FORMATS = {"C08": ["json", "xml", "pmd", "html"], "C09": ["text", "xcode"]}
LIBS = {"json": "JSON", "xml": "XML", "pmd": "PMD", "html": "HTML", "text": "Text", "xcode": "Xcode"}


def u(s):
    return list(s.encode("utf-8", "surrogatepass"))


# -- readers: bytes of a report -> the document of the specification ---------------------------------
def no_dup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("a key twice")
    return d


def entry(x):
    ks = {"path", "startLine", "startColumn", "message"}
    e = ["endLine", "endColumn"]
    r = ["rule", "category", "priority"]
    known = ks | set(e) | set(r)
    if set(x) - known or ks - set(x) or len([k for k in e if k in x]) == 1 or len([k for k in r if k in x]) in (1, 2):
        raise ValueError("members %s" % sorted(x))
    return {"path": u(x["path"]), "l": x["startLine"], "c": x["startColumn"], "msg": u(x["message"]),
            "end": [x[k] for k in e if k in x], "rule": [u(x["rule"]), u(x["category"]), x["priority"]] if "rule" in x else []}


def read_json(b):
    d = json.loads(b.decode("utf-8"), object_pairs_hook=no_dup)
    s = d["summary"]
    p = {x["priority"]: x["number"] for x in s["numberOfViolationsWithPriority"]}
    return {"counts": [s["numberOfFiles"], s["numberOfFilesWithViolations"], p[1], p[2], p[3]],
            "v": [entry(x) for x in d["violation"]], "b": [entry(x) for x in d["clangStaticAnalyzer"]]}


def elements(b):
    """(path of names, attributes, text) of the elements in order"""
    out, stack = [], []
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True

    def start(n, a):
        x = ["/".join([s[3] for s in stack] + [n]), a, "", n]
        stack.append(x)
        out.append(x)

    def text(t):
        stack[-1][2] += t
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: stack.pop()
    p.CharacterDataHandler = text
    p.Parse(b, True)
    return out


def read_xml(b):
    counts, lists = {}, {"violations": [], "clangstaticanalyzer": []}
    names = {"startline": "startLine", "startcolumn": "startColumn", "endline": "endLine", "endcolumn": "endColumn"}
    for path, a, text, n in elements(b):
        if path == "oclint/summary/property":
            counts[a["name"]] = int(text)
        m = re.match(r"oclint/(violations|clangstaticanalyzer)/violation$", path)
        if m:
            e = {names.get(k, k): v for k, v in a.items()}
            for k in ("startLine", "startColumn", "endLine", "endColumn", "priority"):
                if k in e:
                    e[k] = int(e[k])
            lists[m.group(1)].append(entry(e))
    return {"counts": [counts[k] for k in ("number of files", "files with violations", "number of priority 1 violations", "number of priority 2 violations",
                                           "number of priority 3 violations")], "v": lists["violations"], "b": lists["clangstaticanalyzer"]}


def read_pmd(b):
    out, f = [], None
    for path, a, text, n in elements(b):
        if path == "pmd/file":
            f = a["name"]
        if path == "pmd/file/violation":
            if not (text.startswith("\n") and text.endswith("\n")):
                raise ValueError("message %r" % text)
            out.append({"path": u(f), "l": int(a["beginline"]), "c": int(a["begincolumn"]), "el": int(a["endline"]), "ec": int(a["endcolumn"]),
                        "rule": u(a["rule"]), "set": u(a["ruleset"]), "prio": int(a["priority"]), "msg": u(text[1:-1])})
    return out


class Rows(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tables, self.cell, self.stray = [], None, []

    def handle_starttag(self, tag, attrs):
        if tag == "table":
            self.tables.append([])
        elif tag == "tr":
            self.tables[-1].append([])
        elif tag == "td":
            if self.cell is not None:
                raise ValueError("cell within a cell")
            self.cell = []
        elif self.cell is not None:
            raise ValueError("element %s in a cell" % tag)

    def handle_endtag(self, tag):
        if tag == "td":
            self.tables[-1][-1].append("".join(self.cell))
            self.cell = None
        elif self.cell is not None:
            raise ValueError("end of %s in a cell" % tag)

    def handle_data(self, d):
        if self.cell is not None:
            self.cell.append(d)

    def other(self, d):
        if self.cell is not None:
            raise ValueError("markup %r in a cell" % d)
    handle_comment = handle_pi = unknown_decl = other


def read_html(b):
    cs = re.search(rb"<meta\s+charset=['\"]?([-\w]+)", b[:1024])
    t = b.decode(cs.group(1).decode() if cs else "windows-1252")
    t = t.replace("\r\n", "\n").replace("\r", "\n")       # as the standard has the input preprocessed
    p = Rows()
    p.feed(t)
    p.close()
    if not t.startswith("<!DOCTYPE html>") or len(p.tables) != 2:
        raise ValueError("%d tables" % len(p.tables))
    a, d = ([r for r in t if r] for t in p.tables)
    if len(a) != 1:
        raise ValueError("%d rows of counts" % len(a))
    return {"counts": [u(x) for x in a[0]], "rows": [[u(x) for x in r] for r in d]}


def read_text(b):
    m = re.search(rb"\[OCLint \([^\n]*\) v[^\n]*\]\n\Z", b)
    if not m:
        raise ValueError("no last line")
    return list(b[:m.start()])


READ = {"json": read_json, "xml": read_xml, "pmd": read_pmd, "html": read_html, "text": read_text, "xcode": list}


def hx(b):
    return "x" + bytes(b).hex()


def feed(R):
    out = ["X"] + ["R %s %s %d" % (hx(r["name"]), hx(r["cat"]), r["prio"]) for r in R["rules"]]

    def v(k, x):
        out.append("%s %d %s %d %d %d %d %s" % (k, x["r"], hx(x["path"]), x["l"], x["c"], x["el"], x["ec"], hx(x["msg"])))
    for s in R["sets"]:
        out.append("S")
        for x in s:
            v("v", x)
    for k in "ewb":
        for x in R[k]:
            v(k, x)
    return out + ["G %d" % R["uniq"]]


def record(c, libs, Rs):
    """the documents of all reports of the result sets"""
    chunks = [Rs[i::vlib.NCPU] for i in range(vlib.NCPU)]

    def go(rs):
        if not rs:
            return []
        r = c.run([os.path.join(c.b["out"], "report_main")] + libs, input="\n".join(sum((feed(x) for x in rs), [])).encode() + b"\n", timeout=800)
        b, at, res = r.stdout, 0, []
        for x in rs:
            docs = {}
            for _ in libs:
                m = re.compile(rb"(\w+) (\d+)\n").match(b, at)
                if not m:
                    c.violation("crash", "the reporters ended with status %d\n%s" % (r.returncode, r.stderr.decode("latin-1")[-500:]), x)
                    return res
                at = m.end() + int(m.group(2))
                docs[m.group(1).decode()] = b[m.end():at]
            res.append((x, docs))
        return res
    return [y for z in vlib.pmap(go, chunks) for y in z]


def check(c):
    th = c.thorough
    fmts = FORMATS[c.pid]
    c.build(harness=("report_main",), reporters=[LIBS[f] for f in fmts], exe=False)
    libs = []
    for f in fmts:
        p = [x for x in glob.glob(os.path.join(c.b["reporters_dir"], "*")) if LIBS[f] + "Reporter" in os.path.basename(x)]
        if len(p) != 1:
            raise vlib.CheckError("reporter %s: %s" % (f, p))
        libs.append(p[0])
    ops = '{"S","v1","v2","v3","e1","e2","w1","b1"}'
    rng = c.rng
    texts = c.model("GenReport", 'CONSTANTS MaxText=%d\nMaxOps=0\nOps={}\nINIT Init\nNEXT Next\nINVARIANT EmitText TextLaws\n' % (3 if th else 2))
    hists = c.model("GenReport", 'CONSTANTS MaxText=0\nMaxOps=%d\nOps=%s\nINIT Init\nNEXT Next\nINVARIANT EmitOps DocLaws\n' % (5 if th else 4, ops))
    c.model("GenReport", 'CONSTANTS MaxText=1\nMaxOps=3\nOps=%s\nINIT Init\nNEXT Next\nINVARIANT TextLaws DocLaws\n' % ops)
    pieces = [t for t in texts if len(t) <= 5]
    Rs = []
    A = lambda s: list(s.encode())
    plain = [{"name": A("long line"), "cat": A("size"), "prio": 1}, {"name": A("goto statement"), "cat": A("basic"), "prio": 2}, {"name": A("x"), "cat": A("y"), "prio": 3}]
    V = lambda r, path, l, cc, el, ec, m: {"r": r, "path": path, "l": l, "c": cc, "el": el, "ec": ec, "msg": m}
    table = {"v1": V(1, A("/a/f.c"), 3, 4, 5, 6, A("m one")), "v2": V(2, A("/a/f.c"), 3, 4, 0, 6, A("m two")), "v3": V(3, A("g.c"), 30, 4, 7, 0, A("")),
             "e1": V(0, A("/a/f.c"), 1, 2, 0, 0, A("error one")), "e2": V(0, A("h.h"), 10, 20, 0, 0, A("error two")), "w1": V(0, A("h.h"), 10, 20, 0, 0, A("warning one")),
             "b1": V(0, A("h.h"), 10, 20, 10, 20, A("bug one"))}
    for h in hists:
        R = {"rules": plain, "sets": [], "e": [], "w": [], "b": [], "uniq": rng.random() < .5}
        for o in h:
            if o == "S":
                R["sets"].append([])
            elif o[0] == "v":
                R["sets"][-1].append(table[o])
            else:
                R[o[0]].append(table[o])
        Rs.append(R)
    n = len(Rs)
    # every text in every place
    order = list(texts)
    rng.shuffle(order)
    for i in range(0, len(order), 3):
        ts = order[i:i + 3]
        R = {"rules": [{"name": t, "cat": rng.choice(ts), "prio": rng.randint(1, 3)} for t in ts], "sets": [[]], "e": [], "w": [], "b": [], "uniq": False}
        for j, t in enumerate(ts):
            R["sets"][0].append(V(j + 1, t, 1, 2, 3, 4, rng.choice(ts)))
            R["sets"][0].append(V(j + 1, rng.choice(ts), 1, 2, 0, 0, t))
            for k in rng.sample("ewb", 2):
                R[k].append(V(0, t, 5, 6, 7, 8, t))
        Rs.append(R)
    m = len(Rs)

    def text():
        k = rng.random()
        if k < .3:
            return A(rng.choice(["/src/a.c", "b.m", "message of `x`", "Avoid this", "dir with space/é.cpp", "C:\\x\\y.c", "<T> & \"u\"", ""]))
        if k < .8:
            return sum((rng.choice(pieces) for _ in range(rng.randint(0, 6))), [])
        if k < .9:
            return [rng.randint(1, 255) for _ in range(rng.randint(0, 12))]
        return u("".join(chr(rng.choice([rng.randint(1, 0x2ff), rng.randint(0x2000, 0xd7ff), rng.randint(0xe000, 0x10ffff)])) for _ in range(rng.randint(0, 8))))
    num = lambda: rng.choice([0, 1, 2, 7, 80, 1000, 1234567, 2147483647])
    for _ in range(6000 if th else 700):
        k = rng.randint(1, 4)
        R = {"rules": [{"name": text(), "cat": text(), "prio": rng.randint(1, 3)} for _ in range(k)], "sets": [], "e": [], "w": [], "b": [], "uniq": rng.random() < .5}
        paths = [text() for _ in range(3)]
        pool = [V(rng.randint(1, k), rng.choice(paths), num(), num(), num(), num(), text()) for _ in range(rng.randint(1, 6))]
        for _ in range(rng.choice([0, 1, 2, 5])):
            R["sets"].append([rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 6]))])
        for kk in "ewb":
            dp = [V(0, rng.choice(paths), num(), num(), num(), num(), text()) for _ in range(2)]
            R[kk] = [rng.choice(dp) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        Rs.append(R)
    lines, raws = [], []
    for R, docs in record(c, libs, Rs):
        obs = {}
        for f in fmts:
            if f not in docs:
                c.violation("name", "there is no reporter of the name %s" % f, {})
                return
            try:
                obs[f] = READ[f](docs[f])
            except (ValueError, KeyError, IndexError, LookupError, TypeError, xml.parsers.expat.ExpatError) as e:
                c.violation("unreadable", "the %s report cannot be read (%s): %r\n%r" % (f, e, docs[f][-600:] if f != "html" else docs[f][4000:][:1000], R), {"run": R, "format": f})
        if len(obs) == len(fmts):
            lines.append({"run": R, "obs": obs})
            raws.append(docs)
    bad = c.validate("ReportTrace", lines)
    c.traces += len(lines)
    c.extra.update(texts_of_the_model=len(texts), histories_of_the_model=len(hists), result_sets=len(Rs), reports=len(Rs) * len(fmts), formats=fmts, random_result_sets=len(Rs) - m)
    for i, exp in sorted(bad.items()):
        for f in sorted(exp):
            c.violation("report", "%s report of %s\nreads %s\nexpected %s\n%r" % (f, json.dumps(lines[i]["run"])[:900], json.dumps(lines[i]["obs"][f])[:900], json.dumps(exp[f])[:900],
                        raws[i][f][-400:]), {"run": lines[i]["run"], "format": f, "observed": lines[i]["obs"][f], "expected": exp[f]})
    if raws:
        c.sample({f: raws[len(raws) // 2][f][-160:].decode("latin-1") for f in fmts})
    c.assumptions += ["reports are read back with Python's json, expat and html.parser (input preprocessed as HTML prescribes)", "texts hold no NUL byte"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
