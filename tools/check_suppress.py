"""C06: inline suppressions silence exactly what they cover (spec/Suppress.tla)."""
import bisect
import json
import os
import sys

import rulelib
import vlib

CFG = """CONSTANTS Family="%s" MaxN=%d
INIT Init
NEXT Next
INVARIANT TreeSaysTheSame NoMark Local OtherFiles Emit
"""
RULES = {"EmptyIfStatement": "empty if statement", "ConstantIfExpression": "constant if expression",
         "ConstantConditionalOperator": "constant conditional operator", "UnusedLocalVariable": "unused local variable",
         "UnusedMethodParameter": "unused method parameter", "ShortVariableName": "short variable name", "LongLine": "long line",
         "RedundantConditionalOperator": "redundant conditional operator", "BitwiseOperatorInConditional": "bitwise operator in conditional",
         "GotoStatement": "goto statement", "AvoidPrivateStaticMembers": "avoid private static members",
         "CyclomaticComplexity": "high cyclomatic complexity", "NestedBlockDepth": "deep nested block", "LongMethod": "long method",
         "TooManyFields": "too many fields", "ParameterReassignment": "parameter reassignment",
         "ObjCAssignIvarOutsideAccessors": "ivar assignment outside accessors or init", "EmptyForStatement": "empty for statement",
         "UselessParentheses": "useless parentheses", "TooManyMethods": "too many methods"}
LIM = ["CYCLOMATIC_COMPLEXITY=0", "NESTED_BLOCK_DEPTH=0", "LONG_METHOD=1", "TOO_MANY_FIELDS=0", "TOO_MANY_METHODS=0"]
NAMES = sorted(RULES.values())
# what the two rules of the model stand for, by the construct a declaration contains
EOL = ("\n", "\r\n", "\n")
EXT = {"c": ".c", "cpp": ".cpp", "m": ".m", "mm": ".mm"}
FLAGS = {"c": [], "cpp": ["-std=c++14", "-fexceptions"], "m": ["-fblocks", "-fobjc-runtime=gnustep-2.0"],
         "mm": ["-std=c++14", "-fblocks", "-fobjc-runtime=gnustep-2.0"]}
HEADER = """#ifndef PRE
#define PRE
#ifdef __cplusplus
extern "C" {
#endif
void use(int); int f(void);
#ifdef __cplusplus
}
#endif
#ifdef __OBJC__
@interface NSObject
@end
#endif
#define VOIDM void
#endif
"""


class Src:
    """Source text with declarations; lines count from 1 within the piece."""
    def __init__(self, rng, lang, k):
        self.rng, self.lang, self.k = rng, lang, k
        self.rows = [""]
        self.pre = []           # macro definitions
        self.ds = []            # declarations
        self.cs = []            # lines with comments
        self.ctr = 0
        self.pending = None     # comment owed to the current line

    def name(self, p):
        self.ctr += 1
        return "%s%d_%d" % (p, self.k, self.ctr)

    def t(self, s):
        self.rows[-1] += s

    def nl(self, comment=None):
        if comment:
            self.t(" " + comment)
            if "//!OCLINT" in comment:
                self.cs.append(len(self.rows))
        if self.rng.random() < .03:
            # a directive that renumbers what follows: lines are those of the file all the same
            self.rows.append('#line %d "elsewhere.y"' % self.rng.randint(1, 9))
        self.rows.append("")

    def here(self):
        return len(self.rows), len(self.rows[-1]) + 1

    def ann(self, a, macro):
        """the text of annotations a (sequence of strings)"""
        if not a:
            return ""
        s = " ".join('__attribute__((annotate("%s")))' % x for x in a)
        if macro:
            m = self.name("SUP")
            self.pre.append("#define %s %s" % (m, s))
            s = m
        return s + " "

    def open(self, at=(), prev=()):
        self.ds.append({"at": list(at), "prev": list(prev), "l1": self.here()[0], "c1": self.here()[1], "l2": 0, "c2": 0})
        return len(self.ds)

    def close(self, d):
        l, c = self.here()
        self.ds[d - 1]["l2"], self.ds[d - 1]["c2"] = l, c


class Tree:
    """Prints a tree of declarations: node = dict(k, at, c=[...], cmt=bool)"""
    def __init__(self, rng, lang, k, rich):
        self.s = Src(rng, lang, k)
        self.rng, self.lang, self.rich = rng, lang, rich
        self.cxx = lang in ("cpp", "mm")
        self.objc = lang in ("m", "mm")
        self.local = 0

    def comment(self, n):
        if not n.get("cmt"):
            return None
        return self.rng.choice(["//!OCLINT", "//!OCLINT", "//!OCLINT(reason)", "//!OCLINT see #12", "//!<  //!OCLINT"])

    def near(self):
        """comments that are not suppressions"""
        return self.rng.choice([None, None, None, "// OCLINT", "//! OCLINT", "//!oclint", "/* !OCLINT */"])

    def end(self, n, own):
        self.s.nl(self.comment(n) if own else self.near())

    def declarator(self, n, pre, post, prev=(), pointer=False):
        """opens a declaration with its annotations before or within the specifiers"""
        s, rng = self.s, self.rng
        d = s.open(n["at"], prev)
        a = s.ann(n["at"], rng.random() < .5)
        v = rng.random()
        if v < .5:
            s.t(a + pre + post)
        else:
            s.t(pre + a + post)
        return d

    def statements(self, n, own=True):
        """constructs of n itself: the one that may carry the comment comes first"""
        s, rng = self.s, self.rng
        opts = ["if (1) { }", "int q;", "use(1 ? 2 : 3);", "if (1 & 2) { use(1); }", "use(1 ? 1 : 1);", "for (;;) { }", "int w = (1 == 2);",
                "use(1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10 + 11 + 12 + 13 + 14 + 15 + 16 + 17 + 18 + 19 + 20 + 21 + 22 + 23 + 24 + 25 + 26);",
                "if (1) { if (2) { } }", "{ int u; if (3) { } }", "int v[1 ? 2 : 3];", "use((int) sizeof(int[1 ? 2 : 3]));",
                "for (int e = 0; e < 2; e++) { }", "if (1 ? 2 : 3) { }"]
        if self.cxx:
            opts += ["decltype(1 ? 2 : 3) x1 = 4;", "use(static_cast<int>(1 ? 2 : 3));", "(void) new int[1 ? 2 : 3];", "struct { int i = 1 ? 2 : 3; } x2;",
                     "try { use(1); } catch (int e) { if (1) { } }", "use([] { return 1 ? 2 : 3; }());", "enum { E = 1 ? 2 : 3 };"]
        k = rng.randint(1, 3 if self.rich else 2)
        for i, o in enumerate(rng.sample(opts, k)):
            s.t(o)
            self.end(n, own and i == 0)
        return n

    def body(self, n):
        s = self.s
        self.statements(n)
        for ch in n["c"]:
            self.node(ch, "fn")

    def params(self, n, protos=()):
        """parameters: those of the tree, and unmarked ones"""
        s, rng = self.s, self.rng
        ids = []
        first = True
        for i, ch in enumerate([c for c in n["c"] if c["k"] == "par"]):
            if not first:
                s.t(", ")
            first = False
            d = self.declarator(ch, "int ", "p%d" % i, prev=protos[i:i + 1])
            s.close(d)
            ids.append(d)
        if first or rng.random() < .4:
            s.t(("" if first else ", ") + rng.choice(["int z", "int zz", "int unused", "void (*cb)(int x, int y)", "int arr[]"]))
            if self.cxx and not protos and rng.random() < .3 and not self.rows_end_fn():
                s.t(" = 1 ? 2 : 3")
        return ids

    def rows_end_fn(self):
        return self.s.rows[-1].endswith((")", "[]"))

    def node(self, n, where):
        getattr(self, n["k"])(n, where)

    def par(self, n, where):
        pass                    # printed with its function

    def fn(self, n, where):
        s, rng = self.s, self.rng
        if where == "impl":
            return self.method(n)
        nm = s.name("fn")
        prev, pprev = [], []
        ch = dict(n)
        plain = where in ("", "ns")
        tmpl = self.cxx and plain and rng.random() < .15
        rt = "void " if self.rich is False or tmpl else rng.choice(["void ", "void ", "static void ", "VOIDM ", "inline void ", "auto " if self.cxx and not plain else "void "])
        if where == "cls":
            rt = rng.choice(["void ", "static void ", "void "])
        proto = plain and not tmpl and rt == "void " and self.rich and rng.random() < .35
        if proto:
            # the prototype may be the one that is annotated
            pn = dict(n, at=n["at"] if rng.random() < .6 else [])
            if pn["at"]:
                ch["at"] = [] if rng.random() < .6 else n["at"]
            d = self.declarator(pn, "void ", nm + "(")
            np = len([c for c in n["c"] if c["k"] == "par"])
            pars = [dict(c, at=c["at"] if rng.random() < .6 else []) for c in n["c"] if c["k"] == "par"]
            for i, p in enumerate(pars):
                s.t(", " if i else "")
                e = self.declarator(p, "int ", "p%d" % i)
                s.close(e)
                pprev.append(e)
            tail = ", int zz" if np else "int zz"
            s.t(tail + ")")
            s.close(d)
            s.t(";")
            s.nl()
            prev = [d]
            orig = self.params_fixed(ch, nm, prev, pprev, tail)
            d = orig
        else:
            if tmpl:
                s.t("template <typename T> ")
            d = self.declarator(ch, rt, nm + "(")
            self.params(n)
            s.t(")")
            if rt == "auto ":
                s.t(" -> decltype(1 ? 2 : 3)")
        if rng.random() < .5:
            s.nl(self.near())
        s.t(" {")
        s.nl()
        self.body(ch)
        if rt == "auto ":
            s.t("return 1;")
            s.nl()
        s.t("}")
        s.close(d)
        s.nl()
        if self.rich and proto and rng.random() < .3 and not n["at"]:
            # a later declaration does not reach back
            e = self.declarator(dict(n, at=["oclint:suppress"]), "void ", nm + "(")
            for i, pp in enumerate(pprev):
                s.t(", " if i else "")
                s.close(self.declarator(dict(n, at=[]), "int ", "p%d" % i, prev=[pp]))
            s.t(tail + ");")
            s.close(e)
            s.ds[e - 1]["prev"] = [d]
            s.ds[e - 1]["at"] = []      # clang ignores an attribute added after the definition
            s.nl()

    def params_fixed(self, ch, nm, prev, pprev, tail):
        s = self.s
        d = self.declarator(ch, "void ", nm + "(", prev)
        ps = [c for c in ch["c"] if c["k"] == "par"]
        for i, p in enumerate(ps):
            s.t(", " if i else "")
            e = self.declarator(dict(p, at=p["at"] if self.rng.random() < .6 else []), "int ", "p%d" % i, prev=[pprev[i]])
            s.close(e)
            pprev[i] = e
        s.t(tail + ")")
        return d

    def cls(self, n, where):
        s, rng = self.s, self.rng
        if self.objc and (self.lang == "m" or rng.random() < .4) and where == "":
            return self.impl(n)
        nm = s.name("Cls")
        prev = []
        if self.rich and where in ("", "ns") and rng.random() < .2 and n["at"]:
            # the annotation is inherited from a forward declaration
            d = s.open(n["at"])
            s.t("class " + s.ann(n["at"], rng.random() < .5) + nm)
            s.close(d)
            s.t(";")
            s.nl()
            prev = [d]
            n = dict(n, at=[] if rng.random() < .6 else n["at"])
        d = s.open(n["at"], prev)
        s.t(rng.choice(["class ", "struct "]) + s.ann(n["at"], rng.random() < .5) + nm + " {")
        s.nl()
        if where == "fn":
            self.local += 1
        s.t(rng.choice(["int fld = 1 ? 2 : 3;", "int cnt;" if self.local else "static int cnt;", "static void hid();", "int z;", "int g1; int g2;", "enum { E = 1 ? 2 : 3 };"]))
        self.end(n, True)
        if rng.random() < .4:
            s.t("int m1; %s() : m1(1 ? 2 : 3) { if (1) { } }" % nm)
            s.nl()
        later = []
        for ch in n["c"]:
            if ch["k"] == "fn" and where == "" and rng.random() < .3 and not [c for c in ch["c"] if c["k"] == "par"]:
                # declared here, defined outside: the definition inherits, but is not enclosed
                mn = s.name("mth")
                e = self.declarator(ch, "void ", mn + "(int zz)")
                s.close(e)
                s.t(";")
                s.nl()
                later.append((ch, mn, e))
            else:
                self.node(ch, "cls")
        if where == "fn":
            self.local -= 1
        s.t("}")
        s.close(d)
        s.t(";")
        s.nl()
        for ch, mn, e in later:
            m = dict(ch, at=ch["at"] if rng.random() < .4 else [])
            g = self.declarator(m, "void ", "%s::%s(int zz)" % (nm, mn), [e])
            s.t(" {")
            s.nl()
            self.body(m)
            s.t("}")
            s.close(g)
            s.nl()

    def impl(self, n):
        """an Objective-C class: its interface may be annotated, which does not reach the implementation"""
        s, rng = self.s, self.rng
        nm = s.name("Obj")
        s.t(s.ann(n["at"], False))
        d = s.open(n["at"])
        s.t("@interface %s : NSObject {" % nm)
        s.nl()
        s.t("int ivar;")
        s.nl()
        s.t("}")
        s.nl()
        sels = []
        for ch in n["c"]:
            if ch["k"] == "fn":
                sel = s.name("msg")
                if rng.random() < .6:
                    e = s.open(ch["at"] if rng.random() < .7 else [])
                    s.t("- (void)%s:(int)z " % sel + s.ann(s.ds[e - 1]["at"], rng.random() < .5) + ";")
                    s.close(e)
                    s.nl()
                    sels.append((ch, sel, [e]))
                else:
                    sels.append((ch, sel, []))
        s.t("@end")
        s.close(d)
        s.nl()
        d = s.open()
        s.t("@implementation " + nm)
        s.nl()
        for ch, sel, prev in sels:
            at = ch["at"] if not prev or rng.random() < .5 else []
            e = s.open(at, prev)
            s.t("- (void)%s:(int)z %s{" % (sel, s.ann(at, rng.random() < .5)))
            s.nl()
            s.t("ivar = 1;")
            self.end(ch, True)
            self.body(dict(ch, cmt=False))
            s.t("}")
            s.close(e)
            s.nl()
        for ch in n["c"]:
            if ch["k"] == "var":
                self.node(ch, "")
        s.t("@end")
        s.close(d)
        s.nl()
        for ch in n["c"]:
            if ch["k"] not in ("fn", "var"):
                self.node(ch, "")

    def ns(self, n, where):
        s = self.s
        nm = s.name("ns")
        d = s.open(n["at"])
        s.t("namespace " + s.ann(n["at"], self.rng.random() < .5) + nm + " {")
        s.nl()
        s.t("void %s(int z) { if (1) { } }" % s.name("nf"))
        self.end(n, True)
        for ch in n["c"]:
            self.node(ch, "ns")
        s.t("}")
        s.close(d)
        s.nl()

    def var(self, n, where):
        s, rng = self.s, self.rng
        nm = s.name("v")
        if where == "cls":
            pre = "int "
        else:
            pre = rng.choice(["int ", "static int ", "int "]) if where != "lam" else "int "
        lams = [c for c in n["c"] if c["k"] == "lam"]
        if not self.cxx and where == "" or not self.cxx and pre == "static int ":
            lams = []
        d = self.declarator(n, pre, nm)
        if where == "cls" and not self.cxx:
            pass
        elif lams and self.cxx:
            s.t(" = ")
            self.lam(lams[0], "var")
            s.t("(4)")
        else:
            s.t(" = " + (rng.choice(["1 ? 2 : 3", "1 ? 1 : 1", "(1 == 2)"]) if self.cxx or where else "1 ? 2 : 3"))
        s.close(d)
        s.t(";")
        self.end(n, True)

    def lam(self, n, where):
        """a lambda or block; it takes no annotation of its own here"""
        s, rng = self.s, self.rng
        if self.cxx:
            s.t(("[](int z) -> int {" if where == "var" else "auto %s = [](int z) {" % s.name("lam")))
        else:
            s.t("void (^%s)(int) = ^(int z) {" % s.name("blk"))
        s.nl()
        self.statements(n)
        for ch in n["c"]:
            self.node(ch, "lam")
        if where == "var":
            s.t("return z; }")
        else:
            s.t("};")
            s.nl()


def tree_of(w, rng, anns):
    nodes = [None]
    roots = []
    for i, k in enumerate(w["kind"], 1):
        a = w["ann"][i - 1]
        n = {"k": k, "at": anns(a), "c": [], "cmt": w["cmt"] == i}
        nodes.append(n)
        (nodes[w["par"][i - 1]]["c"] if w["par"][i - 1] else roots).append(n)
    return roots


def bare(text):
    """the same text with the suppressions made ineffective, at equal length"""
    return text.replace("oclint:suppress", "xclint:suppress").replace("//!OCLINT", "//?OCLINT")


def random_world(rng, fam):
    kinds = {"c": ["fn", "par", "var"], "cxx": ["fn", "cls", "ns", "var", "lam", "par"], "objc": ["cls", "fn", "var", "lam"]}[fam]
    may = {"ns": ["", "ns"], "cls": [""] if fam == "objc" else ["", "ns", "cls", "fn"], "fn": ["", "ns", "cls"], "var": ["", "ns", "fn", "cls", "lam"],
           "lam": ["fn", "var", "lam"], "par": ["fn"]}
    par, kind, ann = [], [], []
    stack = [0]
    for i in range(1, rng.randint(2, 9) + 1):
        for _ in range(30):
            k = rng.choice(kinds)
            p = rng.choice(stack)
            if (kind[p - 1] if p else "") in may[k]:
                break
        else:
            continue
        while stack[-1] != p:
            stack.pop()
        par.append(p)
        kind.append(k)
        ann.append(rng.choice(["", "", "", "oclint:suppress", "A", "B", "near", "two"]))
        stack.append(len(kind))
    return {"par": par, "kind": kind, "ann": ann, "cmt": rng.choice([0, 0, rng.randint(1, len(kind))])}


NEAR = ["oclint:suppress[]", "oclint:suppress ", "oclint:suppressed", "oclint::suppress", "OCLint:suppress", "oclint:suppress[long]", "oclint:suppress[empty if]",
        "oclint:suppress[EmptyIfStatement]", "oclint:enforce", "oclint:suppress[long line", " oclint:suppress", "oclint:suppress[ long line]"]


def check(c):
    th = c.thorough
    c.build(rules=list(RULES), plugins=("verifrep_plugin",))
    c.install_reporter()
    rdir = c.b["rules_dir"]
    src = os.path.join(c.work, "src")
    os.makedirs(src)
    with open(os.path.join(src, "pre.h"), "w") as f:
        f.write(HEADER)
    rng = c.rng

    def named(r):
        return "oclint:suppress[%s]%s" % (r, rng.choice(["", "", "[because]", " later"]))

    common = ["constant if expression", "short variable name", "empty if statement", "constant conditional operator", "unused local variable", "unused method parameter", "long line", "high cyclomatic complexity"]

    def near():
        """an annotation a step away from one that silences (some still do)"""
        if rng.random() < .3:
            return rng.choice(NEAR)
        r = rng.choice(common)
        i = rng.randrange(len(r))
        k = rng.randrange(9)
        r = [r + rng.choice("sx ]"), r[:-1], r[1:], " " + r, r[:i] + r[i + 1:], r[:i] + rng.choice("a X") + r[i:], r.title(), r.replace(" ", rng.choice(["", "_", "  "])), r][k]
        a = "oclint:suppress[%s]" % r
        return a if k < 8 else rng.choice([a[:-1], a[1:], "x" + a, a.upper(), a.replace(":", ": "), a.replace("suppress[", "suppress [")])

    def anns(a):
        if a.startswith("oclint:suppress[") and rng.random() < .25:
            a = "near"
        if a in ("", "oclint:suppress"):
            return [a] if a else []
        if a == "near":
            return [near()]
        if a == "two":
            return [named(rng.choice(NAMES)), rng.choice([named(rng.choice(NAMES)), "unrelated", near()])]
        # A and B of the model: rules that speak in most declarations, or any
        return [named(rng.choice(common if rng.random() < .8 else NAMES))]
    pieces = []
    for fam, langs, n in (("cxx", ["cpp", "mm"], 3), ("objc", ["m", "mm"], 3), ("c", ["c", "m"], 3)):
        worlds = c.model("GenSuppress", CFG % (fam, n + (1 if th and fam == "c" else 0)), timeout=1200)
        worlds.sort(key=json.dumps)
        c.extra["trees_of_the_model"] = c.extra.get("trees_of_the_model", 0) + len(worlds)
        cap = 12000 if th else 1300
        if len(worlds) > cap:
            worlds = rng.sample(worlds, cap)
        worlds += [random_world(rng, fam) for _ in range(4000 if th else 400)]
        for i, w in enumerate(worlds):
            pieces.append((langs[i % len(langs)], w))
    by = {}
    for k, (lang, w) in enumerate(pieces):
        t = Tree(rng, lang, k, rng.random() < .8)
        for n in tree_of(w, rng, anns):
            t.node(n, "")
        by.setdefault(lang, []).append((t.s, w))
    tus = []
    for lang, ps in by.items():
        tus += [(lang, b) for b in rulelib.batches(ps, 100)]

    def text_of(ps):
        rows = ['#include "pre.h"']
        base = []
        for s, w in ps:
            rows += s.pre
            if len(base) % 9 == 4:
                rows.append("#line %d" % (1 + len(base) % 13))
            base.append(len(rows))
            rows += s.rows
            assert len(s.ds) == 0 or all(d["l2"] for d in s.ds)
        return rows, base

    def oclint(d, paths, entries, extra=()):
        with open(os.path.join(d, "compile_commands.json"), "w") as f:
            json.dump([{"directory": d, "file": p, "arguments": ["clang", "-w", "-I" + src] + FLAGS[l] + list(a) + ["-c", p]} for p, l, a in entries], f)
        cmd = [c.b["oclint"], "-report-type", "verif", "-p", d, "-R", rdir, "-allow-duplicated-violations",
               "-max-priority-1=99999", "-max-priority-2=99999", "-max-priority-3=99999"] + sum((["-rc", x] for x in LIM), []) + list(extra) + paths
        try:
            r = c.run(cmd, cwd=d, timeout=120)
        except vlib.subprocess.TimeoutExpired:
            return None, "oclint did not end in time"
        recs = [json.loads(x) for x in r.stdout.decode("latin-1").split("\n") if x.startswith("{")]
        if not recs or recs[-1]["t"] != "end":
            return None, "status %d: %s" % (r.returncode, r.stderr.decode("latin-1")[-600:])
        for e in recs:
            if e["t"] == "error":
                raise vlib.CheckError("generated program does not compile: %s\n%s" % (e, "\n".join(open(e["path"]).read().split("\n")[max(0, e["l"] - 12):e["l"] + 2])))
        n = [x for x in recs if x["t"] == "summary"][0]["files"]
        if n != len(paths):
            raise vlib.CheckError("%d files analysed of %d: %s" % (n, len(paths), r.stderr.decode("latin-1")[-600:]))
        return [x for x in recs if x["t"] == "v"], ""

    def both(tu):
        lang, ps = tu
        d = vlib.tempfile.mkdtemp(prefix="t-", dir=src)
        rows, base = text_of(ps)
        res = []
        for w in ("base", "marked"):
            e = os.path.join(d, w)
            os.makedirs(e)
            p = os.path.join(e, "x" + EXT[lang])
            with open(p, "w", newline=EOL[len(rows) % 3]) as f:
                t = "\n".join(rows) + "\n"
                f.write(bare(t) if w == "base" else t)
            vs, err = oclint(e, [p], [(p, lang, ())])
            res.append((vs, err))
        vlib.shutil.rmtree(d)
        return rows, base, res

    def ids(table, r, b0):
        k = (r["rule"], r["l"] - b0, r["c"], r["el"] - b0, r["ec"], r["msg"])
        return table.setdefault(k, len(table) + 1)

    def verdict(table, r, b0, main=True, at=None):
        l, c1, el, ec = (r["l"] - b0, r["c"], r["el"] - b0, r["ec"]) if at is None else at
        return {"id": ids(table, r, b0), "rule": r["rule"], "lines": r["rule"] == "long line", "main": main, "l": r["l"] - b0,
                "g1": l, "h1": c1, "g2": el, "h2": ec}
    lines, owner = [], []
    for (lang, ps), (rows, base, res) in zip(tus, vlib.pmap(both, tus)):
        bad = [err for vs, err in res if vs is None]
        if bad:
            c.violation("crash", "oclint fails on generated declarations: " + bad[0], {"source": rows})
            continue
        per = [([], []) for _ in ps]
        tables = [{} for _ in ps]
        for w in (0, 1):
            for r in res[w][0]:
                k = bisect.bisect_right(base, r["l"] - 1) - 1
                per[k][w].append(r)
        for (s, world), (vb, va), b0, tb in zip(ps, per, base, tables):
            lines.append({"views": [{"ds": s.ds, "cs": s.cs, "vs": [verdict(tb, r, b0) for r in vb]}], "obs": [ids(tb, r, b0) for r in va]})
            owner.append((lang, s.pre + s.rows, tb))
    c.log("%d pieces: %d verdicts, %d left" % (len(lines), sum(len(l["views"][0]["vs"]) for l in lines), sum(len(l["obs"]) for l in lines)))

    # several compilations in one run, and parts of functions in other files
    def run_world(k):
        r = vlib.random.Random("%d-%d-run" % (c.seed, k))
        d = os.path.join(src, "r%d" % k)
        os.makedirs(d)
        files, entries, views = [], [], []
        nf = r.randint(1, 3)
        frag_lines = {}
        for i in range(nf):
            lang = r.choice(["c", "cpp", "m"])
            rows, cs, ds = [], {1: [], 2: []}, {1: [], 2: []}
            # macros that are suppressions in one of the compilations
            rows.append('#include "pre.h"')
            rows.append("#if V == 1")
            rows.append('#define S1 __attribute__((annotate("oclint:suppress")))')
            rows.append('#define S2 __attribute__((annotate("oclint:suppress[%s]")))' % r.choice(["empty if statement", "constant if expression"]))
            name2 = rows[-1][rows[-1].index("oclint:"):-4]
            rows.append("#else")
            rows.append("#define S1")
            rows.append("#define S2")
            rows.append("#endif")
            frags = {}
            for j in range(r.randint(2, 6)):
                k2 = r.choice(["S1", "S2", "cond", "frag", "comment", "plain", "header"])
                start = len(rows) + 1
                nm = "g%d_%d_%d" % (k, i, j)
                if k2 == "cond":
                    rows.append("void %s(void) {" % nm)
                    for v in (1, 2):
                        rows.append("#if V == %d" % v)
                        m = r.random() < .5
                        rows.append("if (1) { }" + (" //!OCLINT" if m else ""))
                        if m:
                            cs[v].append(len(rows))
                        rows.append("#endif")
                    rows.append("}")
                elif k2 == "frag":
                    fr = "frag%d_%d.inc" % (i, j)
                    n = r.randint(1, 9)
                    ft = ["" for _ in range(n)] + ["if (1) { }%s" % r.choice(["", " //!OCLINT"])] + ["int q;"]
                    with open(os.path.join(d, fr), "w") as f:
                        f.write("\n".join(ft) + "\n")
                    at = r.choice(["", "S1 "])
                    rows.append("%svoid %s(void) {" % (at, nm))
                    rows.append('#include "%s"' % fr)
                    frags[os.path.join(d, fr)] = len(rows)
                    rows.append("}")
                    if at:
                        ds[1].append({"at": ["oclint:suppress"], "prev": [], "l1": start, "c1": 1, "l2": len(rows), "c2": 2})
                elif k2 == "header":
                    # annotated in a header: the definition inherits, in every compilation
                    hn = "h%d_%d.h" % (i, j)
                    with open(os.path.join(d, hn), "w") as f:
                        f.write('__attribute__((annotate("oclint:suppress"))) void %s(int);\n' % nm)
                    rows.append('#include "%s"' % hn)
                    start = len(rows) + 1
                    rows.append("void %s(int z) { if (1) { } }" % nm)
                    for v in (1, 2):
                        ds[v].append({"at": ["oclint:suppress"], "prev": [], "l1": start, "c1": 1, "l2": start, "c2": 80})
                else:
                    cm = k2 == "comment"
                    rows.append("%svoid %s(int z) {" % (k2 + " " if k2[0] == "S" else "", nm))
                    rows.append("if (1) { }" + (" //!OCLINT" if cm else ""))
                    if cm:
                        cs[1].append(len(rows))
                        cs[2].append(len(rows))
                    rows.append("use(1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10 + 11 + 12 + 13 + 14 + 15 + 16 + 17 + 18 + 19 + 20 + 21 + 22 + 23 + 24 + 25 + 26);")
                    rows.append("}")
                    if k2[0] == "S":
                        ds[1].append({"at": ["oclint:suppress" if k2 == "S1" else name2], "prev": [], "l1": start, "c1": 1, "l2": len(rows), "c2": 2})
            for _ in range(r.randint(0, 2)):
                rows.insert(0, "//!OCLINT" if False else "")
            shift = len(rows) - len([x for x in rows]) or 0
            # comments at the line numbers of the fragments' constructs
            p = os.path.join(d, "f%d%s" % (i, EXT[lang]))
            off = 0
            while rows[0] == "":
                rows.pop(0)
            top = []
            for _ in range(10):
                top.append(r.choice(["//!OCLINT", "", ""]))
            rows = top + rows
            off = len(top)
            for v in (1, 2):
                cs[v] = [x + off for x in cs[v]] + [n for n, x in enumerate(top, 1) if x]
                for x in ds[v]:
                    x["l1"] += off
                    x["l2"] += off
            frags = {q: n + off for q, n in frags.items()}
            frag_lines.update(frags)
            with open(p, "w", newline=EOL[len(rows) % 3]) as f:
                f.write("\n".join(rows) + "\n")
            vs = r.choice([[1], [2], [1, 2], [2, 1]])
            files.append((p, lang, rows))
            for v in vs:
                entries.append((p, lang, ["-DV=%d" % v]))
                views.append((p, lang, v, cs[v], ds[v]))
        table = {}
        # without suppressions: each compilation alone
        bd = os.path.join(d, "bare")
        os.makedirs(bd)
        for x in os.listdir(d):
            if os.path.isfile(os.path.join(d, x)):
                with open(os.path.join(bd, x), "w") as f:
                    f.write(bare(open(os.path.join(d, x)).read()))
        vout = []

        def tag(x):
            rr = dict(x)
            rr["msg"] = os.path.basename(x["path"]) + ": " + x["msg"]
            return rr
        for p, lang, v, cs, ds in views:
            q = os.path.join(bd, os.path.basename(p))
            sub = os.path.join(bd, "db%d" % v)
            os.makedirs(sub, exist_ok=True)
            vs, err = oclint(sub, [q], [(q, lang, ["-DV=%d" % v])])
            if vs is None:
                return None, err, files, table
            out = []
            for x in vs:
                here = x["path"] == q
                if here:
                    out.append(verdict(table, tag(x), 0))
                else:
                    n = frag_lines[os.path.join(d, os.path.basename(x["path"]))]
                    out.append(verdict(table, tag(x), 0, False, (n, 1, n, 1)))
            vout.append({"ds": ds, "cs": sorted(set(cs)), "vs": out})
        db = os.path.join(d, "db")
        os.makedirs(db)
        paths = []
        for p, _, _ in entries:
            if p not in paths:
                paths.append(p)
        with open(os.path.join(db, "compile_commands.json"), "w") as f:
            json.dump([{"directory": d, "file": p, "arguments": ["clang", "-w", "-I" + src] + FLAGS[l] + a + ["-c", p]} for p, l, a in entries], f)
        cmd = [c.b["oclint"], "-report-type", "verif", "-p", db, "-R", rdir, "-allow-duplicated-violations",
               "-max-priority-1=99999", "-max-priority-2=99999", "-max-priority-3=99999"] + sum((["-rc", x] for x in LIM), []) + \
            (["-enable-global-analysis"] if r.random() < .3 else []) + paths
        try:
            o = c.run(cmd, cwd=d, timeout=120)
        except vlib.subprocess.TimeoutExpired:
            return None, "oclint did not end in time", files, table
        recs = [json.loads(x) for x in o.stdout.decode("latin-1").split("\n") if x.startswith("{")]
        if not recs or recs[-1]["t"] != "end":
            return None, o.stderr.decode("latin-1")[-600:], files, table
        n = [x for x in recs if x["t"] == "summary"][0]["files"]
        if n != len(entries):
            raise vlib.CheckError("%d compilations analysed of %d: %s" % (n, len(entries), o.stderr.decode("latin-1")[-600:]))
        obs = [ids(table, tag(x), 0) for x in recs if x["t"] == "v"]
        vlib.shutil.rmtree(d)
        return {"views": vout, "obs": obs}, None, files, table
    n_runs = 0
    for ln, err, files, table in vlib.pmap(run_world, range(1500 if th else 200)):
        if ln is None:
            c.violation("crash", "oclint fails on several compilations: %s" % err, {"files": [[p, rows] for p, _, rows in files]})
            continue
        n_runs += 1
        lines.append(ln)
        owner.append(("several", sum(([p] + rows for p, _, rows in files), []), table))
    c.extra["runs_of_several_compilations"] = n_runs
    c.log("runs done")
    rejected = c.validate("SuppressTrace", lines)
    c.traces += len(lines)
    c.extra["verdicts_without_suppression"] = sum(len(v["vs"]) for l in lines for v in l["views"])
    c.extra["verdicts_left"] = sum(len(l["obs"]) for l in lines)
    for i in (0, len(lines) // 2, len(lines) - 1):
        c.sample({"source": owner[i][1][:40], "left": len(lines[i]["obs"]), "of": sum(len(v["vs"]) for v in lines[i]["views"])})
    for i, exp in sorted(rejected.items()):
        lang, rows, table = owner[i]
        back = {v: k for k, v in table.items()}
        o = lines[i]["obs"]
        wrongly = [back[x] for x in set(exp) if exp.count(x) > o.count(x)]
        kept = [back[x] for x in set(o) if o.count(x) > exp.count(x)]
        c.violation("suppress", "%s%s\n%s (%s)" % ("silenced although nothing covers it: %s " % sorted(wrongly)[:3] if wrongly else "",
                                                 "reported although suppressed: %s" % sorted(kept)[:3] if kept else "", "\n".join(rows), lang),
                    {"source": rows, "lang": lang, "silenced": wrongly, "reported": kept, "declarations": lines[i]["views"][0]["ds"]})


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
