"""C24: null and nil checks."""
import copy
import sys
import rulelib
import vlib
from render import node

CFG = """CONSTANTS MaxWeight=%d
MaxStack=3
ObjC=%s
Vars={%s}
Tests={%s}
UsesOf={%s}
Forms={%s}
Stmts={%s}
INIT Init
NEXT Next
INVARIANT Emit Laws
"""
q = lambda xs: ",".join('"%s"' % x for x in xs)
AT = ["==", "!=", "0==", "(==", "!", "v", "!("]
AU = ["call", "mem", "(mem", "deep"]
ENUM = [(3, AT, AU, ["land", "lor"], ["p", "q"]),
        (4, ["==", "!=", "!", "v"], ["call"], ["land", "lor", "par", "not(", "not", "arg", "cmp"], ["p"]),
        (4, ["==", "!=", "0==", "v"], ["mem", "deep"], ["land", "lor", "par", "gt"], ["p"]),
        (5, ["==", "!=", "v"], ["call"], ["land", "lor"], ["p"]),
        (5, ["=="], ["mem"], ["land", "lor"], ["p", "q"]),
        (5, ["!="], ["call"], ["land", "lor"], ["p", "q"]),
        (4, ["==", "!=", "!", "v"], ["null"], ["land", "lor", "par"], ["p"])]
PRE = """#ifndef V_PRE_H
#define V_PRE_H
#undef NULL
#ifdef __cplusplus
int f(); int g(...);
#define NULL __null
struct S; struct B { int m; S *next; int f() const; int bf(); virtual ~B(); int arr[3]; };
struct S : B { int om; int of(); int cf() const; };
#else
int f(); int g();
#define NULL ((void*)0)
struct S { int m, om; struct S *next; int (*f)(void); int (*of)(void); int arr[3]; };
#endif
extern int a, b;
#ifdef __OBJC__
#ifndef __cplusplus
#define nil NULL
#else
#define nil nullptr
#endif
@interface O
- (int)value;
- (O *)me;
- (int)with:(int)i;
@end
#endif
#endif
"""
NULS = {"c": ["0", "NULL", "((void*)0)", "(struct S*)0", "(void*)0"], "cpp": ["0", "NULL", "nullptr"],
        "m": ["nil", "0", "((id)0)", "(O*)0", "((void*)0)"], "mm": ["nil", "0", "nullptr", "((id)0)"]}
PARAMS = {"c": ["struct S *p, struct S *q", "const struct S *p, struct S *const q"],
          "cpp": ["S *p, S *q", "S *&p, const S *q", "const S *p, S *const &q"], "m": ["O *p, id q", "O *p, O *q"], "mm": ["O *p, id q", "O *p, O *q"]}


class Rand:
    def __init__(self, r, objc):
        self.r, self.objc = r, objc

    def v(self):
        x = node("v", v=self.r.choice("pq"))
        return node("par", x) if self.r.random() < 0.1 else x

    def prim(self, d):
        r = self.r
        k = r.choice(["use", "use", "use", "v", "!", "par", "par", "a", "arg", "!("])
        if d <= 0 and k in ("par", "arg", "!("):
            k = "use"
        if k == "use":
            if self.objc:
                x = self.v()
                for _ in range(r.choice([0, 0, 0, 1])):
                    x = node("msg", x, v="me")
                return node("msg", x, v="value")
            x = self.v()
            y = r.choice(["mem", "memcall", "deep"])
            return node("memcall", x, v="f") if y == "memcall" else node("mem", node("mem", x, v="next") if y == "deep" else x, v="m")
        if k == "v":
            return self.v()
        if k == "!":
            return node("un", self.v(), v="!")
        if k == "a":
            return node("v", v=r.choice("ab"))
        e = node("par", self.e(d - 1))
        if k == "arg":
            return node("call", e, v="g")
        return node("un", e, v="!") if k == "!(" else e

    def cmp(self, d):
        r = self.r
        x = r.random()
        if x < 0.55:
            s = [self.v(), node("nul")]
            if r.random() < 0.3:
                s.reverse()
            return node("bin", *s, v=r.choice(["==", "!="]))
        if x < 0.62:
            s = [node("msg", self.v(), v="me") if self.objc else node("mem", self.v(), v="next"), node("nul")]
            if r.random() < 0.2:
                s.reverse()
            return node("bin", *s, v=r.choice(["==", "!="]))
        if x < 0.7:
            return node("bin", self.prim_int(d), node("int", v="1"), v=r.choice([">", "==", "!="]))
        return self.prim(d)

    def prim_int(self, d):
        return node("msg", self.v(), v="value") if self.objc else node("mem", self.v(), v="m")

    def land(self, d):
        n = self.r.choice([1, 2, 2, 3])
        x = self.cmp(d)
        for _ in range(n - 1):
            x = node("land", x, self.cmp(d))
        return x

    def e(self, d):
        n = self.r.choice([1, 1, 2, 3])
        x = self.land(d)
        for _ in range(n - 1):
            x = node("lor", x, self.land(d))
        return x

    def boolean(self):
        x = self.e(2)
        return x if x["k"] in ("land", "lor") else node("call", x, v="g")

    def stmt(self, d):
        r = self.r
        k = r.choice(["if", "if", "ifelse", "while", "return", "expr", "for", "do", "del", "block", "asg"])
        if k == "del" and not self.objc:
            return self.guarded(d)
        if k in ("del", "asg"):
            return node("expr", node("asg", node("v", v="a"), node("call", self.e(2), v="g"), v="="))
        if k == "if":
            return node("if", self.e(2), self.body(d - 1))
        if k == "ifelse":
            return node("ifelse", self.e(2), self.body(d - 1), self.body(d - 1))
        if k == "while":
            return node("while", self.e(2), self.body(d - 1))
        if k == "do":
            return node("do", self.body(d - 1), self.e(2))
        if k == "for":
            return node("for", node("none"), self.e(2), node("none"), self.body(d - 1))
        if k == "return":
            return node("return", self.boolean())
        if k == "expr":
            return node("expr", node("call", self.e(2), v="g"))
        return self.body(d - 1)

    def lv(self):
        x = node("v", v=self.r.choice("pq"))
        return node("mem", x, v="next") if self.r.random() < 0.3 else x

    def guarded(self, d):
        r = self.r
        x = self.lv()
        y = lambda: copy.deepcopy(x) if r.random() < 0.8 else self.lv()
        c = r.choice([y(), node("bin", y(), node("nul"), v=r.choice(["!=", "!=", "=="])), node("bin", node("nul"), y(), v="!="), node("bin", y(), y(), v="!=")])
        dl = node("delete", y())
        if r.random() < 0.7:
            ss = [dl]
            if r.random() < 0.5:
                ss.append(node("expr", node("asg", node("v", v="p") if r.random() < 0.5 or x["k"] == "v" else copy.deepcopy(x), node("nul"), v="=")))
            if r.random() < 0.2:
                ss.append(node("e"))
            if r.random() < 0.15:
                r.shuffle(ss)
            dl = node("block", *ss)
        if r.random() < 0.2 and dl["k"] == "block":
            return node("ifelse", c, dl, self.body(d - 1))
        k = r.random()
        if k < 0.06:      # if consteval has no condition to test the pointer with
            return node("if", node("none"), dl if dl["k"] == "block" else node("block", dl), v="ce")
        if k < 0.15:
            c = node("cinit", r.choice([node("decl", y(), v="y", ty="S *"), node("e"), node("null")]), c)
        return node("if", c, dl)

    def body(self, d):
        if d <= 0:
            return node("block", node("e"))
        return node("block", *[self.stmt(d) for _ in range(self.r.choice([0, 1, 1, 2]))])


def names(n):
    return {n["v"]}.union(*[names(x) for x in n["c"]])


def has(n, f):
    return f(n) or any(has(x, f) for x in n["c"])


def dress(n, lang, rng):
    """language-specific spelling of nulls and members"""
    n = copy.deepcopy(n)
    cm = {"c": (["m", "om"], ["f", "of"]), "cpp": (["m", "om"], ["f", "bf", "of", "cf"])}

    def walk(x):
        if x["k"] == "nul":
            x["v"] = rng.choice(NULS[lang])
        elif x["k"] == "mem" and x["v"] == "m" and lang in cm:
            x["v"] = rng.choice(cm[lang][0])
        elif x["k"] == "memcall" and x["v"] == "f" and lang in cm:
            x["v"] = rng.choice(cm[lang][1])
        if x["k"] == "ifelse" and x["c"][1]["k"] != "block":
            x["c"][1] = node("block", x["c"][1])
        for y in x["c"]:
            walk(y)
    walk(n)
    return n


def check(c):
    th = c.thorough
    R = rulelib.Runner(c, ["BrokenNullCheck", "MisplacedNullCheck", "RedundantNilCheck", "UnnecessaryNullCheckForCXXDealloc"], header=PRE)
    jobs = []
    cap = 6000 if th else 900
    n = 0

    def add(p, lang, i):
        p = dress(p, lang, c.rng)
        pr = c.rng.choice(PARAMS[lang])
        ks = {x for x in rulelib.kinds(p)}
        if lang == "cpp" and names(p) & {"of", "bf"}:
            pr = c.rng.choice(["S *p, S *q", "S *&p, S *q", "S *p, S *const &q"])
        if lang in ("c", "cpp") and ("delete" in ks or has(p, lambda x: x["k"] == "asg" and x["c"][0]["v"] not in ("a", "b"))):
            if lang == "c" and "delete" in ks:
                return
            pr = "S *p, S *q"
        lines, rec = rulelib.render_function(p, "fn%d" % i, lang, i % 3, c.rng, params=pr, rt="int")
        rec["lang"] = lang
        jobs.append({"lang": lang, "lines": lines, "rec": rec, "key": "x", "cflags": ("-std=c++20",) if has(p, lambda x: x["v"] == "ce") else ()})
    i = 0
    for objc in (False, True):
        for (w, ts, us, fs, vs) in ENUM:
            out = c.model("GenNulls", CFG % (w + (1 if th else 0), "TRUE" if objc else "FALSE", q(vs), q(ts), q(us + ([] if objc else ["dot"])), q(fs), q(["if"])))
            n += len(out)
            for p in (c.rng.sample(out, cap) if len(out) > cap else out):
                add(p, (["m", "mm"] if objc else ["c", "cpp"])[i % 2], i)
                i += 1
    out = c.model("GenNulls", CFG % (4 if not th else 5, "FALSE", q(["p", "q"]), "", "", "", q(["del"])))
    n += len(out)
    for p in (c.rng.sample(out, cap * 2) if len(out) > cap * 2 else out):
        add(p, "cpp", i)
        i += 1
    c.extra["programs_of_the_model"] = n
    c.extra["programs_enumerated"] = len(jobs)
    k = len(jobs)
    for lang in ("c", "cpp", "m", "mm"):
        r = Rand(c.rng, lang in ("m", "mm"))
        for _ in range(3000 if th else 400):
            p = node("block", *[r.stmt(3) for _ in range(3)])
            add(p, lang, i)
            i += 1
    c.extra["programs_random"] = len(jobs) - k
    rulelib.conformance(c, R, "nulls", jobs)
    c.assumptions += ["clang's parse of the printed program is the tree the specification was given (checked through the ranges of reported nodes)"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
