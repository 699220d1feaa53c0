"""C19: use of variables and parameters."""
import copy
import sys
import rulelib
import vlib
from render import node, Printer, fmt

CFG = """CONSTANTS MaxWeight=%d
MaxStack=3
Vars={%s}
Forms={%s}
Params_={%s}
INIT Init
NEXT Next
INVARIANT Emit Laws
"""
q = lambda xs: ",".join('"%s"' % x for x in xs)
ENUM = [(7, ["x"], ["asg", "expr", "init", "return"], [0, 1]),
        (6, ["x", "y"], ["expr", "init", "return", "two"], [0, 1]),
        (6, ["x"], ["expr", "init", "for", "if", "asg"], [1]),
        (6, ["x"], ["expr", "asg", "sizeof", "lambda", "caps"], [0, 1]),
        (6, ["x"], ["expr", "asg", "objcblock", "static"], [0, 1]),
        (6, ["x"], ["expr", "asg", "lclass", "static", "return"], [0, 1]),
        (6, ["x"], ["expr", "rfor", "try"], [0, 1]),
        (6, ["x", "y"], ["asg", "expr"], [2])]
PRE = """#ifndef V_PRE_H
#define V_PRE_H
extern int x, y, z, arr[4];
#ifdef __cplusplus
extern "C" int g(...);
struct M {};
#define CLS(N) struct N { N(int = 0); operator int() const; N &operator=(int); ~N(); }
CLS(Guard); CLS(Other);
namespace ns { CLS(Guard); }
template <class T> CLS(TG);
typedef Guard Alias;
namespace std { template <class T> CLS(lock_guard); template <class T> CLS(unique_lock); }
#else
int g();
struct Guard { int i; };
#endif
#ifdef __OBJC__
extern id coll;
#endif
#endif
"""
RULES = ["UnusedLocalVariable", "UnusedMethodParameter", "ParameterReassignment", "RedundantLocalVariable"]


class P(Printer):
    def expr(self, n):
        k, c = n["k"], n["c"]
        if k == "sizeof":
            b = self.t("sizeof")
            self.t("(", False)
            self.expr(c[0])
            self.t(")", False)
        elif k == "addr":
            b = self.t("g")
            self.t("(", False)
            self.t("&")
            self.expr(c[0])
            self.t(")", False)
        else:
            return Printer.expr(self, n)
        n["p"] = (b, self.last)
        return b

    def params(self, ps, void=False):
        self.t("(", False)
        for i, d in enumerate(ps["c"]):
            if i:
                self.t(",", False)
            self.pdecl(d)
        if not ps["c"] and void and self.lang in ("c", "m"):
            self.t("void", False)
        self.t(")", False)

    def pdecl(self, d):
        if d.get("fp"):        # a function pointer with a named parameter of its own
            b = self.t("int")
            self.t("(")
            self.t("*", False)
            self.t(d["v"], False)
            self.t(")", False)
            self.t("(", False)
            self.t("int", False)
            self.t("inner")
            self.t(")", False)
            d["p"] = (b, self.last)
            return
        if d["un"] and self.rng.random() < 0.5:
            self.t("[[maybe_unused]]" if self.lang == "cpp" else "__attribute__((unused))")
            un = False
        else:
            un = d["un"]
        b = self.t("int")
        if d["v"]:
            self.t(d["v"])
        d["p"] = (b, self.last)
        if un:
            self.t("__attribute__((unused))")
        if d.get("def"):
            self.t("=")
            self.t("sizeof")
            self.t("(int", False)
            d["p"] = (b, self.t(")", False))

    def ldecl(self, d, first=None):
        b = first
        if b is None:
            b = self.t(d["st"]) if d["st"] else None
            for w in d["ty"].split(" "):
                if w in ("*", "&"):
                    self.t(w)
                elif w != "[2]":
                    x = self.t(w)
                    b = b or x
        self.t(d["v"])
        if d["ty"].endswith("[2]"):
            for w in "[2]":
                self.t(w, False)
        if d["c"]:
            self.t("=")
            self.expr(d["c"][0])
        d["p"] = (b, self.last)
        return b

    def decls(self, n):
        b = None
        for i, d in enumerate(n["c"]):
            if i:
                self.t(",", False)
            b = self.ldecl(d, b)
        self.cur += ";"
        n["p"] = (b, (len(self.out), len(self.cur)))
        self.last = n["p"][1]

    def stmt(self, n):
        k, c = n["k"], n["c"]
        if k == "decls":
            return self.decls(n)
        if k == "asg":
            self.expr(n)
            return self.semi()
        if k == "for":
            b = self.t("for")
            self.t("(")
            if c[0]["k"] == "decls":
                self.decls(c[0])
            else:
                if c[0]["k"] != "none":
                    self.expr(c[0])
                self.semi()
            for x in (1, 2):
                if c[x]["k"] != "none":
                    self.expr(c[x])
                if x == 1:
                    self.semi()
            self.t(")", False)
            self.body(c[3])
        elif k == "rfor":
            b = self.t("for")
            self.t("(")
            d = c[0]
            s = None
            for w in d["ty"].split(" "):
                x = self.t(w)
                s = s or x
            self.t(d["v"])
            d["p"] = (s, self.t(":"))
            self.t("arr")
            self.t(")", False)
            self.body(c[1])
        elif k == "forin":
            b = self.t("for")
            self.t("(")
            s = self.t("id", False)
            c[0]["p"] = (s, self.t(c[0]["v"]))
            self.t("in")
            self.t("coll")
            self.t(")", False)
            self.body(c[1])
        elif k == "catch":
            b = self.t("catch")
            self.t("(")
            if c[0]["k"] == "none":
                self.t("...", False)
            else:
                s = self.t("int", False)
                c[0]["p"] = (s, self.t(c[0]["v"]))
            self.t(")", False)
            self.stmt(c[1])
        elif k == "atcatch":
            b = self.t("@catch")
            self.t("(")
            self.t("id", False)
            c[0]["p"] = None
            self.t(c[0]["v"])
            self.t(")", False)
            self.stmt(c[1])
        elif k == "lambda":
            b = self.t("(void)")
            self.t("[")
            if c[0]["c"]:
                for i, x in enumerate(c[0]["c"]):
                    if i:
                        self.t(",", False)
                    self.t("&")
                    self.t(x["v"], False)
            else:
                self.t("&", False)
            self.t("]", False)
            self.params(c[1])
            self.t("-> int")
            self.stmt(c[2])
            self.semi()
        elif k == "objcblock":
            b = self.t("(void)")
            self.t("^int")
            self.params(c[1], True)
            self.stmt(c[2])
            self.semi()
        elif k == "lclass":
            b = self.t("struct")
            self.t(n["v"])
            self.t("{")
            if n.get("vir"):
                self.t("virtual")
            self.t("int")
            self.t("m")
            self.params(c[1])
            self.stmt(c[2])
            self.t("}")
            self.semi()
        elif k == "lproto":
            b = self.t("int")
            self.t(n["v"])
            self.params(c[0])
            self.semi()
        elif k == "fpdecl":     # a local function pointer: its parameter is none of the function's
            b = self.t("(void)")
            self.t("(")
            self.t("int", False)
            self.t("(*)", False)
            self.t("(int", False)
            self.t(n["v"])
            self.t(")", False)
            self.t(")", False)
            self.t("0")
            self.semi()
        else:
            return Printer.stmt(self, n)
        n["p"] = (b, self.last)


def freeze(n):
    d = {"k": n["k"], "v": n["v"], "p": fmt(n["p"]) if n.get("p") and n["p"][0] else "", "c": [freeze(x) for x in n["c"]]}
    for a in ("ty", "st", "un"):
        if a in n:
            d[a] = n[a]
    return d


FREE = {"k": "free"}
OBJC = ["super", "grandsuper", "supercat", "superprot", "prot", "inhprot", "extprot", "catprot", "own"]


def contexts(lang, rng):
    """(context record of the specification, how to write it)"""
    if lang == "c":
        return FREE, rng.choice(["int %s", "static int %s", "extern int %s", "inline static int %s"])
    if lang == "cpp":
        k = rng.choice(["free", "free", "out", "out", "out", "inline", "template", "ctemplate"])
        if k == "free":
            return FREE, rng.choice(["int %s", "static int %s", "extern \"C\" int %s", "namespace nn { int %s", "inline int %s", "int %s noexcept"])
        if k == "out":
            v = rng.random() < 0.3
            bs = [{"virt": rng.random() < 0.6, "same": rng.random() < 0.6} for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            return {"k": "out", "virt": v, "bases": bs}, rng.choice(["method", "method", "static", "chain"] if not v else ["method", "chain"])
        if k == "ctemplate":
            return {"k": "out", "virt": False, "bases": []}, "ctemplate"
        return {"k": k}, k
    if rng.random() < 0.3:
        return FREE, rng.choice(["int %s", "static int %s", "objcfree"])
    ds = [{"where": rng.choice(OBJC), "kind": rng.choice("-+")} for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    kind = rng.choice("--+")
    return {"k": "objc", "kind": kind, "ib": kind == "-" and rng.random() < 0.15, "decls": ds}, "objc"


def render(fun, lang, i, style, rng):
    fun = copy.deepcopy(fun)
    ctx, how = contexts(lang, rng)
    p = P(rng, style, lang)
    ps, body = fun["c"]
    nm = "fn%d" % i
    sig = "(" + ", ".join("int" for _ in ps["c"]) + ")"
    fp = any(d.get("fp") for d in ps["c"])
    tail = ""

    def line(s):
        p.cur += s
        p.nl()
    if ctx["k"] == "out" and fp:
        ctx, how = FREE, "int %s"
    if ctx["k"] == "objc":
        def decl(kind):
            return "%s (int)%s%s;" % (kind, nm, "".join(" :(int)%s" % "uvw"[j] if j else ":(int)u" for j in range(len(ps["c"]))))
        if fp:
            ctx = {"k": "objc", "kind": ctx["kind"], "ib": ctx["ib"], "decls": []}
        at = {}
        for d in ctx["decls"]:
            at.setdefault(d["where"], set()).add(decl(d["kind"]))
        w = lambda x: " ".join(sorted(at.get(x, ())))
        line("@protocol A%s %s @end @protocol B%s <A%s> %s @end @protocol E%s %s @end @protocol C%s %s @end @protocol S%s %s @end" %
             (nm, w("inhprot"), nm, nm, w("prot"), nm, w("extprot"), nm, w("catprot"), nm, w("superprot")))
        line("@interface G%s %s @end @interface H%s : G%s <S%s> %s @end @interface H%s (Cat) %s @end" % (nm, w("grandsuper"), nm, nm, nm, w("super"), nm, w("supercat")))
        line("@interface I%s : H%s <B%s> %s @end @interface I%s () <E%s> @end @interface I%s (K) <C%s> @end" % (nm, nm, nm, w("own"), nm, nm, nm, nm))
        line("@implementation I%s" % nm)
        p.t(ctx["kind"])
        p.t("(int)__attribute__((ibaction))" if ctx["ib"] else "(int)")
        p.t(nm)
        for j, d in enumerate(ps["c"]):
            p.t(":", j > 0)
            if d.get("fp"):
                p.t("(", False)
                b = p.t("int", False)
                p.t("(*)(int")
                p.t("inner")
                p.t("))", False)
            else:
                p.t("(", False)
                b = p.t("int", False)
                p.t(")", False)
            if d["un"]:
                p.t("__attribute__((unused))", False)
            d["v"] = d["v"] or "unnamed"
            d["p"] = (b, p.t(d["v"], bool(d["un"])))
        p.stmt(body)
        p.nl()
        line("@end")
    else:
        if how == "objcfree":
            line("@interface J%s @end" % nm)
            line("@implementation J%s" % nm)
            p.t("int " + nm)
            tail = "@end"
        elif how in ("method", "static", "chain"):
            bases = []
            for j, b in enumerate(ctx["bases"]):
                line("struct B%d%s { %sint %s(%s); int other; };" % (j, nm, "virtual " if b["virt"] else "",
                                                                      nm, ", ".join(["int"] * len(ps["c"]) + ([] if b["same"] else ["int"]))))
                bases.append("B%d%s" % (j, nm))
            if how == "static" and any(b["virt"] and b["same"] for b in ctx["bases"]):
                how = "method"
            if how == "chain" and bases:
                line("struct D%s : %s { };" % (nm, ", ".join(bases)))
                bases = ["D" + nm]
            line("struct C%s %s{ %sint %s%s; };" % (nm, ": " + ", ".join(bases) + " " if bases else "",
                                                    "virtual " if ctx["virt"] else "static " if how == "static" else "", nm, sig))
            p.t("int C%s::%s" % (nm, nm))
        elif how == "inline":
            line("struct C%s {" % nm)
            p.t(rng.choice(["int ", "static int ", "virtual int "]) + nm)
            tail = "};"
        elif how == "template":
            p.t("template <class T> int " + nm)
        elif how == "ctemplate":
            if fp:
                sig = "(" + ", ".join("int (*)(int)" if d.get("fp") else "int" for d in ps["c"]) + ")"
            line("template <class T> struct C%s { int %s%s; };" % (nm, nm, sig))
            p.t("template <class T> int C%s<T>::%s" % (nm, nm))
        else:
            p.t(how.split("%s")[0] + nm)
            if how.startswith("namespace"):
                tail = "}"
        if how in ("method", "static", "chain", "ctemplate") or how.startswith("extern"):
            for d in ps["c"]:
                d.pop("def", None)
        p.params(ps, True)
        if "noexcept" in how:
            p.t("noexcept")
        p.stmt(body)
        p.nl() if p.cur else None
        if tail:
            line(tail)
    return p.finish(), {"fun": freeze(fun), "ctx": ctx}


def pd(v, un=False, **kw):
    return node("pdecl", v=v, un=un, **kw)


class Rand:
    """random legal functions"""
    def __init__(self, r, lang):
        self.r, self.lang = r, lang
        self.cxx = lang in ("cpp", "mm")
        self.n = 0

    NAMES = ["x", "y", "z"]

    def ty(self):
        r = self.r
        if r.random() < 0.6:
            return "int"
        if self.cxx:
            return r.choice(["const int", "long", "short", "Guard", "const Guard", "ns::Guard", "TG<int>", "Alias", "Other", "Guard *", "Guard [2]", "int [2]",
                             "std::lock_guard<M>", "std::unique_lock<M>", "struct Guard", "auto", "Guard &"])
        return r.choice(["const int", "long", "short", "struct Guard", "struct Guard *", "int [2]", "unsigned"])

    # scopes: list of dict name -> [type, level, static, assignable]
    def find(self, name, sc):
        for s in reversed(sc):
            if name in s:
                return s[name]
        return ("int", 0, True)

    def usable(self, name, sc, lvl, mode):
        """may `name` be mentioned here?  mode: closure rules in force, list of (kind, level, caps)"""
        t, l, st = self.find(name, sc)
        if l == 0 or st and "[2]" not in t:
            return True
        for (kind, cl, caps) in mode:
            if l < cl:     # declared outside that closure
                if kind == "lclass" or kind == "objcblock" and "[2]" in t:
                    return False
                if caps is not None and not any(self.find(name, s2) is self.find(name, sc) for (n2, s2) in caps if n2 == name):
                    return False
        return True

    def pick(self, sc, lvl, mode, num=True, asg=False):
        xs = [n for n in self.NAMES if self.usable(n, sc, lvl, mode)]
        if num:
            xs = [n for n in xs if self.find(n, sc)[0] in NUM]
        if asg:
            xs = [n for n in xs if self.find(n, sc)[0] in ("int", "long", "short", "unsigned")]
            xs = [n for n in xs if not any(k == "objcblock" and self.find(n, sc)[1] < cl and self.find(n, sc)[1] and not self.find(n, sc)[2] for (k, cl, _) in mode)]
        return self.r.choice(xs) if xs else None

    def e(self, sc, lvl, mode, d=2):
        r = self.r
        k = r.choice(["v", "v", "v", "int", "bin", "sizeof", "call", "addr", "asg", "par"]) if d else r.choice(["v", "v", "int"])
        x = self.pick(sc, lvl, mode)
        if k == "v" and x:
            return node("v", v=x)
        if k == "sizeof":
            y = self.pick(sc, lvl, mode, False)
            if y:
                return node("sizeof", node("v", v=y))
        if k == "addr":
            y = self.pick(sc, lvl, mode, False)
            if y:
                return node("addr", node("v", v=y))
        if k == "bin":
            a, b = self.e(sc, lvl, mode, 0), self.e(sc, lvl, mode, 0)
            return node("bin", a, b, v="+")
        if k == "call":
            return node("call", self.e(sc, lvl, mode, d - 1), v="g")
        if k == "par":
            return node("par", self.e(sc, lvl, mode, d - 1))
        if k == "asg":
            y = self.pick(sc, lvl, mode, True, True)
            if y:
                t = node("v", v=y)
                return node("par", node("asg", t if r.random() < 0.9 else node("par", t), self.e(sc, lvl, mode, d - 1), v=r.choice(["=", "=", "=", "+="])))
        return node("int", v="1")

    def decls(self, here, sc, lvl, mode, forb=(), multi=True, stat=True):
        r = self.r
        xs = [n for n in self.NAMES if n not in here and n not in forb]
        if not xs:
            return None
        r.shuffle(xs)
        t = self.ty()
        st = "static" if stat and r.random() < 0.1 and t != "auto" and t != "Guard &" else ""
        out = []
        for n in xs[:r.choice([1, 1, 1, 2]) if multi else 1]:
            if t in ("Guard *", "Guard &", "Guard [2]", "int [2]", "struct Guard *") and out:
                break
            here[n] = (t, lvl, st == "static")
            c = []
            if t in ("auto",):
                c = [node("call", v="Guard")]
            elif t == "Guard &":
                c = [node("un", node("cast", node("int", v="0"), v="Guard*"), v="*")]
            elif t in ("Guard *", "struct Guard *"):
                c = []
            elif "[2]" in t or t == "struct Guard" and not self.cxx:
                c = []
            elif t.startswith("const") or t in NUM and r.random() < 0.5:
                c = [self.e(sc, lvl, mode) if st == "" else node("int", v="1")]
            out.append({"k": "ldecl", "v": n, "ty": t, "st": st, "c": c})
            if t == "auto":
                break
        return node("decls", *out)

    def block(self, sc, lvl, mode, d, head=()):
        here = {}
        sc = sc + [here]
        out = []
        r = self.r
        for _ in range(r.choice([0, 1, 2, 2, 3, 4]) if d else r.choice([0, 1])):
            s = None
            if r.random() < 0.35:
                s = self.decls(here, sc, lvl, mode, head)
            out.append(s or self.stmt(sc, lvl, mode, d))
        if r.random() < 0.25:
            s = self.decls(here, sc, lvl, mode, head)
            if s:
                out.append(s)
            y = s["c"][-1]["v"] if s else None
            if y and self.find(y, sc)[0] in NUM and r.random() < 0.8:
                e = node("v", v=y)
                out.append(node("return", e if r.random() < 0.85 else node("par", e)))
            else:
                out.append(node("return", self.e(sc, lvl, mode)))
        return node("block", *out)

    def sub(self, sc, lvl, mode, d, head=()):
        if self.r.random() < 0.7:
            return self.block(sc, lvl, mode, d - 1, head)
        s = self.stmt(sc, lvl, mode, 0)
        return s

    def plist(self, k):
        r = self.r
        xs = r.sample(self.NAMES, k)
        return node("params", *[pd(v) for v in xs])

    def stmt(self, sc, lvl, mode, d):
        r = self.r
        ks = ["expr", "expr", "asg", "return"]
        if d:
            ks += ["if", "ifelse", "while", "for", "block", "lproto", "fpdecl"]
            if self.cxx:
                ks += ["lambda", "lambda", "lclass", "rfor", "try"]
            if self.lang in ("m", "mm"):
                ks += ["objcblock", "objcblock", "forin", "attry"]
        k = r.choice(ks)
        if k == "asg":
            y = self.pick(sc, lvl, mode, True, True)
            if y:
                t = node("v", v=y)
                return node("asg", t if r.random() < 0.9 else node("par", t), self.e(sc, lvl, mode), v=r.choice(["=", "=", "=", "-="]))
            k = "expr"
        if k == "expr":
            return node("expr", self.e(sc, lvl, mode))
        if k == "return":
            return node("return", self.e(sc, lvl, mode))
        if k in ("if", "while"):
            return node(k, self.e(sc, lvl, mode), self.sub(sc, lvl, mode, d))
        if k == "ifelse":
            return node(k, self.e(sc, lvl, mode), self.block(sc, lvl, mode, d - 1), self.sub(sc, lvl, mode, d))
        if k == "block":
            return self.block(sc, lvl, mode, d - 1)
        if k == "for":
            here = {}
            s2 = sc + [here]
            ini = node("none")
            if r.random() < 0.7:
                ini = self.decls(here, s2, lvl, mode, stat=False)
            c = self.e(s2, lvl, mode) if r.random() < 0.7 and all(t[0] in NUM for t in here.values()) else node("none")
            return node("for", ini, c, self.e(s2, lvl, mode) if r.random() < 0.5 else node("none"), self.sub(s2, lvl, mode, d, tuple(here)))
        if k == "lproto":
            self.n += 1
            return node("lproto", self.plist(r.choice([0, 1, 2])), v="proto%d" % self.n)
        if k == "fpdecl":
            return node("fpdecl", v=r.choice(self.NAMES))
        if k in ("rfor", "forin"):
            v = r.choice(self.NAMES)
            here = {v: ("int" if k == "rfor" else "id", lvl, False)}
            return node(k, {"k": "ldecl", "v": v, "ty": r.choice(["int", "const int"]) if k == "rfor" else "id", "st": "", "c": []},
                        self.sub(sc + [here if k == "forin" else {v: ("const int", lvl, False)}], lvl, mode, d, (v,)))
        if k in ("try", "attry"):
            hs = []
            for _ in range(1):
                v = r.choice(self.NAMES)
                if k == "try":
                    hs.append(node("catch", {"k": "ldecl", "v": v, "ty": "int", "st": "", "c": []}, self.block(sc + [{v: ("int", lvl, False)}], lvl, mode, d - 1, (v,))))
                else:
                    hs.append(node("atcatch", node("adecl", v=v, ty="id", st=""), self.block(sc + [{v: ("id", lvl, False)}], lvl, mode, d - 1, (v,))))
            if k == "try" and r.random() < 0.5:
                hs.append(node("catch", node("none"), self.block(sc, lvl, mode, d - 1)))
            return node(k, self.block(sc, lvl, mode, d - 1), *hs)
        # closures
        ps = self.plist(r.choice([0, 1, 1, 2]))
        caps = None
        cn = node("caps")
        if k == "lambda" and r.random() < 0.4:
            xs = [n for n in self.NAMES if self.usable(n, sc, lvl, mode) and not self.find(n, sc)[2] and n not in [p["v"] for p in ps["c"]]]
            xs = r.sample(xs, r.randrange(len(xs) + 1)) if xs else []
            if xs:
                caps = [(n, sc) for n in xs]
                cn = node("caps", *[node("v", v=n) for n in xs])
        m2 = mode + [(k, lvl + 1, caps if k == "lambda" else None)]
        b = self.block(sc + [{p["v"]: ("int", lvl + 1, False) for p in ps["c"]}], lvl + 1, m2, d - 1, tuple(p["v"] for p in ps["c"]))
        x = node(k, cn, ps, b)
        if k == "lclass":
            self.n += 1
            x["v"] = "L%d" % self.n
            x["vir"] = r.random() < 0.3
        return x

    def fun(self, d):
        r = self.r
        ps = node("params")
        xs = r.sample(self.NAMES, r.choice([0, 1, 2, 2, 3]))
        for v in xs:
            y = r.random()
            ps["c"].append(pd(v) if y < 0.8 else pd(v, True) if y < 0.9 else pd("") if self.cxx else pd(v))
        if r.random() < 0.1:
            ps["c"].append(pd("cb", fp=1))
        if self.cxx and ps["c"] and r.random() < 0.2 and not ps["c"][-1].get("fp"):
            ps["c"][-1]["def"] = 1
        here = {p["v"]: ("int", 1, False) for p in ps["c"] if p["v"]}
        return node("fun", ps, self.block([here], 1, [], d, tuple(here)))


NUM = {"int", "const int", "long", "short", "unsigned"}
CLASSES = ["Guard", "ns::Guard", "TG", "Other"]


def raii(lang, rng):
    """configured classes: oclint arguments and what they mean"""
    if rng.random() < 0.4 or lang in ("c", "m"):
        return [], ["std::lock_guard", "std::unique_lock"]
    args, out = [], []
    if rng.random() < 0.4:
        dflt = rng.choice([["std::lock_guard"], ["Other", "std::unique_lock"], []])
        if dflt:
            args.append("-rc=RAII_DEFAULT_CLASSES=" + ", ".join(dflt))
            out += dflt
        else:
            out += ["std::lock_guard", "std::unique_lock"]
    else:
        out += ["std::lock_guard", "std::unique_lock"]
    cs = rng.sample(CLASSES, rng.choice([1, 2, 3]))
    sep = rng.choice([",", ";", " ", ", ", ";\t"])
    args.append("-rc=RAII_CUSTOM_CLASSES=" + sep.join(cs))
    return args, out + cs


def check(c):
    th = c.thorough
    R = rulelib.Runner(c, RULES, header=PRE)
    jobs = []
    cap = 5000 if th else 900
    n = i = 0
    cfgs = {l: [raii(l, c.rng) for _ in range(6 if th else 3)] for l in ("c", "cpp", "m", "mm")}

    def add(f, lang):
        nonlocal i
        lines, rec = render(f, lang, i, i % 3, c.rng)
        i += 1
        args, cs = c.rng.choice(cfgs[lang])
        rec["raii"] = cs
        jobs.append({"lang": lang, "lines": lines, "rec": rec, "args": args, "key": "x"})
    for (w, vs, fs, pl) in ENUM:
        out = c.model("GenUses", CFG % (w + (1 if th else 0), q(vs), q(fs), ",".join(map(str, pl))))
        n += len(out)
        cxx = {"lambda", "lclass", "rfor", "try"} & set(fs)
        langs = ["cpp", "mm"] if cxx else ["m", "mm"] if "objcblock" in fs else ["c", "cpp", "m"]
        for f in (c.rng.sample(out, cap) if len(out) > cap else out):
            for k, x in enumerate(nodes(f, "lclass")):
                x["v"] = "L%d" % k
            add(f, langs[i % len(langs)])
    c.extra["programs_of_the_model"] = n
    c.extra["programs_enumerated"] = len(jobs)
    k = len(jobs)
    for lang in ("c", "cpp", "m", "mm"):
        r = Rand(c.rng, lang)
        for _ in range(4000 if th else 600):
            add(r.fun(c.rng.choice([1, 2, 3])), lang)
    c.extra["programs_random"] = len(jobs) - k
    rulelib.conformance(c, R, "uses", jobs)
    c.assumptions += ["clang's parse of the printed program is the tree the specification was given (checked through the ranges of reported nodes)"]


def nodes(n, k):
    return ([n] if n["k"] == k else []) + [y for x in n["c"] for y in nodes(x, k)]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
