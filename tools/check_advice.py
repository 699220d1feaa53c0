"""C27: feature envy; C28: advice to use Objective-C literals, boxed expressions and subscripts."""
import copy
import sys
import rulelib
import vlib
from render import Printer, fmt

# ------------------------------------------------------------------------ feature envy
ENVY_PRE = """#ifndef V_PRE_H
#define V_PRE_H
#ifdef __cplusplus
extern "C" int g(...);
#else
int g();
#endif
__attribute__((objc_root_class)) @interface NSObject
+ (id)alloc;
@end
#endif
"""
ENVY_CFG = "CONSTANTS MaxLen=%d\nClasses_={\"A\",\"B\"}\nINIT Init\nNEXT Next\nINVARIANT Emit Laws\n"


def X(k, n="", *c, h=""):
    return {"k": k, "n": n, "c": list(c), "h": h}


def isobj(e):
    """is the value of this expression an object?"""
    return e["n"] != "" or e["k"] == "id" or (e["k"] == "set" and len(e["c"]) > 1 and e["c"][1]["n"] != "")


class Envy(Printer):
    """prints one world: a root class that declares everything, classes below it, and methods"""
    def world(self, W, idx):
        r, s = self.rng, "_%d" % idx
        self.sfx = s
        self.real = {c["n"]: c["n"] + s for c in W["cls"]}
        self.nq = 0
        cs = [self.real[c["n"]] for c in W["cls"]]
        root = "Root" + s
        self.t("@class %s; @protocol Pr%s; @class %s;" % (", ".join(cs), s, root))
        self.brk()
        inst = ["- (int)go%s;" % s, "- (int)with%s:(int)a and:(id)b;" % s, "- (int)imp%s; - (void)setImp%s:(int)x;" % (s, s), "@property int num%s;" % s,
                "- (instancetype)same%s;" % s]
        inst += ["- (%s *)to%s; @property (retain) %s *p%s;" % (c, c, c, c) for c in cs]
        clsm = ["+ (int)gone%s;" % s, "+ (int)cwith%s:(int)a and:(id)b;" % s, "@property (class) int shared%s;" % s, "+ (instancetype)fresh%s;" % s,
                "+ (int)cimp%s; + (void)setCimp%s:(int)x;" % (s, s)]
        clsm += ["+ (%s *)mk%s; @property (class, retain) %s *s%s;" % (c, c, c, c) for c in cs]
        self.t("@protocol Pr%s - (int)pm%s;" % (s, s))
        self.lines(inst)
        self.t("@end")
        self.brk()
        self.t("@interface %s : NSObject { @public int _iv%s; %s }" % (root, s, " ".join("%s *_iv%s;" % (c, c) for c in cs)))
        self.lines(inst + clsm)
        self.t("@end")
        self.brk()
        for c in W["cls"]:
            self.t("@interface %s : %s" % (self.real[c["n"]], self.real[c["sup"]] if c["sup"] else root))
            if r.random() < 0.3:
                self.t("<Pr%s>" % s)
            self.t("{ @public int _x%s; }" % self.real[c["n"]])
            self.lines([x for x in inst + clsm if not x.startswith("@") and r.random() < 0.2])
            self.t("@end")
            self.brk()
            n = self.real[c["n"]]
            self.t(r.choice(["typedef %s T%s;", "@compatibility_alias T%s %s;"][:1]) % (n, n))
            self.t("@compatibility_alias U%s %s;" % (n, n))
            self.t("typedef %s *Ptr%s; extern %s *v%s; extern Ptr%s w%s; extern %s<Pr%s> *y%s; extern __kindof %s *z%s;" % (n, n, n, n, n, n, n, s, n, n, n))
            self.brk()
        self.t("extern id i%s; extern id<Pr%s> pp%s; extern Class k%s;" % (s, s, s, s))
        self.brk()
        for c in W["cls"]:
            n = self.real[c["n"]]
            ms = [m for m in W["ms"] if m["own"] == c["n"]]
            if r.random() < 0.3:
                for m in ms:
                    m["cat"] = m["cat"] or "ext"
            cats = sorted({m["cat"] for m in ms}, reverse=True)
            for k in cats:
                if k:
                    self.t(("@interface %s (%s) @end" % (n, k)) if k != "ext" else "@interface %s () - (int)hidden%s; @end" % (n, s))
                    self.brk()
                self.t("@implementation %s %s" % (n, "(%s)" % k if k and k != "ext" else ""))
                self.ind += 1
                for m in [m for m in ms if m["cat"] == k]:
                    self.brk()
                    self.method(m)
                self.ind -= 1
                self.brk()
                self.t("@end")
                self.brk()
        for m in W["ms"]:
            self.fix(m["body"])
            m["own"] = self.real[m["own"]]

    def fix(self, es):
        for e in es:
            e["n"] = self.real.get(e["n"], e["n"])
            self.fix(e["c"])

    def lines(self, ls):
        for x in ls:
            self.brk()
            self.t(x)
        self.brk()

    def method(self, m):
        self.inst, self.own = m["inst"], m["own"]
        self.sp()
        b = self.pos()
        self.t("-" if m["inst"] else "+")
        self.t("(int)")
        parts = m["n"].split(":")
        self.t(parts[0], False)
        for i, x in enumerate(parts[:-1]):
            if i:
                self.t(x)
            self.t(":(int)a%d" % i, False)
        self.t("{")
        self.ind += 1
        for e in m["body"]:
            self.brk()
            self.stmt(e)
        self.brk()
        self.t("return 0;")
        self.ind -= 1
        self.brk()
        m["p"] = fmt((b, self.t("}")))

    def stmt(self, e):
        r = self.rng
        if e["k"] == "blk":
            o, c = r.choice([("^{", "}();"), ("if (g()) {", "}"), ("{", "}"), ("@autoreleasepool {", "}"), ("@try {", "} @finally { }"), ("while (g()) {", "}"), ("(void)^int(id q) {", "return 1; }(0);"),
                             ("@synchronized(i%s) {" % self.sfx, "}"), ("({", "});"), ("for (id q in i%s) {" % self.sfx, "}"), ("switch (g()) { default:;", "}"), ("do {", "} while (g());")] +
                            ([("[&]{", "}();")] if self.lang == "mm" else []))
            self.t(o)
            self.ind += 1
            for x in e["c"]:
                self.brk()
                self.stmt(x)
            self.ind -= 1
            self.brk()
            self.t(c)
            return
        x = r.random()
        obj = isobj(e)
        if x < 0.2:
            self.t("g(")
            self.ex(e)
            self.t(");", False)
        elif x < 0.3:
            self.t("if (")
            self.ex(e)
            self.t(") { }", False)
        elif x < 0.35 and not obj:
            self.t("return")
            self.ex(e)
            self.t(";", False)
        elif x < 0.42:
            self.nq += 1
            self.t("%s q%d =" % ("id" if obj else "int", self.nq))
            self.ex(e)
            self.t(";", False)
        else:
            self.ex(e)
            self.t(";", False)

    def isclass(self, e):
        return e["k"] == "name" or e["k"] in ("self", "super") and not self.inst

    def ex(self, e, dot=False):
        k, n, r, s = e["k"], e["n"], self.rng, self.sfx
        N = self.real.get(n, "")
        if k in ("self", "super"):
            self.t(k)
        elif k == "num":
            self.t(r.choice(["1", "g()"]))
        elif k == "id":
            self.t(r.choice(["i" + s, "i" + s, "k" + s, "[NSObject alloc]" if False else "(i%s)" % s]))
        elif k == "pid":
            self.t("pp" + s)
        elif k == "name":
            self.t(r.choice([N, N, "U" + N] + ["T" + N] * (not dot)))
        elif k == "var":
            self.t(r.choice(["v" + N, "v" + N, "w" + N, "y" + N, "z" + N, "(v%s)" % N, "((%s *)i%s)" % (N, s), "(g() ? v%s : v%s)" % (N, N)]))
        elif k == "own":
            self.t("_iv" + (N or s))
        elif k == "ivar":
            self.ex(e["c"][0])
            self.t("->", False)
            self.t("_iv" + (N or s), False)
        elif k == "send":
            self.t("[")
            rc = e["c"][0]
            self.ex(rc)
            c, args = self.isclass(rc), e["c"][1:]
            if e["h"] == "same":
                self.t(("fresh" if c else "same") + s)
            elif n:
                self.t(("mk" if c else "to") + N)
            elif args:
                self.t("cwith" if c else "with")
                self.cur += s + ":"
                self.value(args[0], False)
                self.t("and:")
                self.value(args[1] if len(args) > 1 else X("id"), True)
            elif rc["k"] == "pid":
                self.t(r.choice(["pm", "go"]) + s)
            else:
                self.t(("gone" if c else r.choice(["go", "go", "imp", "num"])) + s)
            self.t("]", False)
        elif k == "get":
            rc = e["c"][0]
            self.ex(rc, True)
            self.t(".", False)
            c = self.isclass(rc)
            self.t((("s" if c else "p") + N) if n else r.choice(["shared", "cimp", "gone"] if c else ["num", "imp", "go"]) + s, False)
        elif k == "set":
            self.t("(")
            rc = e["c"][0]
            self.ex(rc, True)
            self.t(".", False)
            c = self.isclass(rc)
            v = e["c"][1] if len(e["c"]) > 1 else None
            if v and v["n"]:
                V = self.real[v["n"]]
                self.t(("s" if c else "p") + V, False)
                self.t("=")
                self.ex(v)
            else:
                self.t(r.choice(["shared", "cimp"] if c else ["num", "imp"]) + s, False)
                if v is None:
                    self.t(r.choice(["++", "--"]), False)
                else:
                    self.t(r.choice(["=", "+=", "|="]))
                    self.value(v, False)
            self.t(")", False)
        else:
            raise ValueError(k)

    def value(self, e, obj):
        if obj == isobj(e):
            self.ex(e)
        elif obj:
            self.t("(")
            self.ex(e)
            self.t(", i%s)" % self.sfx, False)
        else:
            self.t("(")
            self.ex(e)
            self.t("!= 0)")


def envy_random(r):
    names = ["A", "B", "Cc", "D0"][:r.randint(2, 4)]
    W = {"cls": [{"n": n, "sup": r.choice([""] + names[:i])} for i, n in enumerate(names)], "ms": []}

    def ex(own, inst, d, val):
        """an expression; val: None any, "" a number, or it must be of a class"""
        k = r.random()
        n = "" if val == "" or val is None and r.random() < 0.6 else r.choice(names)
        if k < 0.12 and inst:
            return X("own", n)
        if k < 0.25 and inst:
            return X("ivar", n, recv(own, inst, d, lambda e: e["k"] in ("var", "get", "send", "own", "ivar") and e["n"] or e["k"] == "self"))
        if k < 0.5:
            return X("get", n, recv(own, inst, d, lambda e: e["k"] != "id"))
        if k < 0.6 and not n and d > 0:
            rc = recv(own, inst, d, lambda e: e["k"] not in ("id",))
            return X("set", "", rc, *r.choice([[], [X("num")], [ex(own, inst, d - 1, "")], [obj(own, inst, d - 1)]]))
        rc = recv(own, inst, d, lambda e: True)
        if r.random() < 0.12 and rc["k"] in ("self", "var", "name"):
            return X("send", own if rc["k"] == "self" else rc["n"], rc, h="same") if val != "" else X("send", "", rc)
        if not n and d > 0 and r.random() < 0.25 and rc["k"] not in ("pid",):
            return X("send", "", rc, *[ex(own, inst, d - 1, None) for _ in range(r.randint(1, 2))])
        return X("send", n, rc)

    def obj(own, inst, d):
        e = ex(own, inst, d, None)
        while not e["n"]:
            e = r.choice([X("var", r.choice(names)), ex(own, inst, d, None)])
        return e

    def recv(own, inst, d, ok):
        while True:
            x = r.random()
            if x < 0.3:
                e = X("self")
            elif x < 0.36:
                e = X("super")
            elif x < 0.42:
                e = X(r.choice(["id", "pid"]))
            elif x < 0.65 or d <= 0:
                e = X(r.choice(["var", "var", "name"]), r.choice(names))
            else:
                e = obj(own, inst, d - 1)
            if ok(e):
                return e

    def body(own, inst, n, d):
        out = []
        for _ in range(n):
            if r.random() < 0.2 and d > 0:
                out.append(X("blk", "", *body(own, inst, r.randint(0, 3), d - 1)))
            else:
                out.append(ex(own, inst, r.choice([0, 1, 1, 2, 3]), None))
        return out
    for i in range(r.randint(1, 5)):
        own, inst = r.choice(names), r.random() < 0.75
        W["ms"].append({"n": "m%d" % i + r.choice(["", ":", ":with:"]), "own": own, "inst": inst, "p": "", "cat": r.choice(["", "", "Cat"]), "body": body(own, inst, r.randint(0, 7), 2)})
    return W


def hint(e):
    e.setdefault("h", "")
    for x in e["c"]:
        hint(x)
    return e


def envy(c):
    th = c.thorough
    R = rulelib.Runner(c, ["FeatureEnvy"], header=ENVY_PRE, dups=False)
    ms = c.model("GenEnvy", ENVY_CFG % (3 if th else 2))
    c.extra["methods_of_the_model"] = len(ms)
    if len(ms) > 12000 * (3 if th else 1):
        ms = c.rng.sample(ms, 12000 * (3 if th else 1))
    c.extra["methods_enumerated"] = len(ms)
    c.rng.shuffle(ms)
    Ws = []
    for b in rulelib.batches(ms, 4):
        Ws.append({"cls": [{"n": "A", "sup": ""}, {"n": "B", "sup": c.rng.choice(["", "A"])}],
                   "ms": [{"n": "m%d" % i, "own": m["own"], "inst": m["inst"], "p": "", "cat": "", "body": [hint(e) for e in m["body"]]} for i, m in enumerate(b)]})
    Ws += [envy_random(c.rng) for _ in range(6000 if th else 1600)]
    c.extra["worlds"] = len(Ws)
    jobs = []
    for i, w in enumerate(Ws):
        lang = "mm" if i % 4 == 3 else "m"
        p = Envy(c.rng, c.rng.choice([0, 0, 1, 2]), lang)
        p.world(w, i)
        jobs.append({"lang": lang, "lines": p.finish(), "rec": {"ms": w["ms"]}, "key": "x", "cflags": ("-fobjc-runtime=gnustep-2.0",)})
    rulelib.conformance(c, R, "envy", jobs, per_tu=100)
    c.assumptions += ["the static class of a receiver is the one its declaration names (clang's typing of the printed expressions, which the specification states)"]


# ------------------------------------------------------------------------ literals
NUM = ["Int", "UnsignedInt", "Long", "UnsignedLong", "LongLong", "UnsignedLongLong", "Float", "Double", "Char", "Bool", "Short"]
CT = {"Int": "int", "UnsignedInt": "unsigned int", "Long": "long", "UnsignedLong": "unsigned long", "LongLong": "long long", "UnsignedLongLong": "unsigned long long", "Float": "float",
      "Double": "double", "Char": "char", "Bool": "BOOL", "Short": "short"}
ID = {v: k for k, v in CT.items()}
LIT = {"int": ["42", "0", "0x2A", "052", "1000000"], "unsigned int": ["42u", "0U"], "long": ["42l", "0L"], "unsigned long": ["42ul", "7LU"], "long long": ["42ll", "0LL"],
       "unsigned long long": ["42ull", "1LLU"], "float": ["4.2f", "1e3F"], "double": ["4.2", "1e3", ".5"]}
ELEM = ["- (id)objectAtIndex:(int)i;", "- (id)objectAtIndexedSubscript:(int)i;", "- (void)replaceObjectAtIndex:(int)i withObject:(id)o;", "- (void)setObject:(id)o atIndexedSubscript:(int)i;",
        "- (id)objectForKey:(id)k;", "- (id)objectForKeyedSubscript:(id)k;", "- (void)setObject:(id)o forKey:(id)k;", "- (void)setObject:(id)o forKeyedSubscript:(id)k;", "- (int)count;"]
LIT_PRE = """#ifndef V_PRE_H
#define V_PRE_H
#ifdef V_BOOL
typedef bool BOOL;
#else
typedef signed char BOOL;
#endif
#define YES __objc_yes
#define NO __objc_no
#ifdef __cplusplus
extern "C" int g(...);
#else
int g();
#endif
__attribute__((objc_root_class)) @interface NSObject
+ (id)alloc; + (id)new;
%s
@end
@interface NSNumber : NSObject
%s
@end
@interface MyNumber : NSNumber @end
@interface NSString : NSObject
+ (id)stringWithUTF8String:(const char *)s; + (id)stringWithCString:(const char *)s;
@end
@interface MyString : NSString @end
@interface NSArray : NSObject
+ (id)array; + (id)arrayWithObject:(id)o; + (id)arrayWithObjects:(id const *)os count:(int)n; + (id)arrayWithObjects:(id)o, ...; + (id)arrayWithArray:(id)a;
@end
@interface NSMutableArray : NSArray @end
@interface MyArray : NSArray @end
@interface NSDictionary : NSObject
+ (id)dictionary; + (id)dictionaryWithObject:(id)o forKey:(id)k; + (id)dictionaryWithObjects:(id const *)os forKeys:(id const *)ks count:(int)n;
+ (id)dictionaryWithObjectsAndKeys:(id)o, ...; + (id)dictionaryWithObjects:(id)os forKeys:(id)ks; + (id)dictionaryWithDictionary:(id)d;
@end
@interface NSMutableDictionary : NSDictionary @end
@interface NSOther : NSObject @end
typedef NSNumber Num_; typedef NSArray Arr_; typedef NSString Str_; typedef NSDictionary Dic_;
@compatibility_alias NumA_ NSNumber; @compatibility_alias StrA_ NSString; @compatibility_alias ArrA_ NSArray; @compatibility_alias DicA_ NSDictionary;
enum E { E1, E2 };
extern id ob, obs[4];
extern int vi; extern double vd; extern void *vp;
%s
extern char *cs; extern const char *ccs;
#ifdef __cplusplus
extern "C" {
#endif
char *getcs(void); const char *getccs(void);
%s
#ifdef __cplusplus
}
#endif
%s
#endif
""" % ("\n".join(ELEM),
       "\n".join("+ (NSNumber *)numberWith%s:(%s)x;" % (n, CT[n]) for n in NUM),
       "\n".join("extern %s v%s;" % (CT[n], n) for n in NUM),
       "\n".join("%s f%s(void);" % (CT[n], n) for n in NUM),
       "\n".join("typedef %s *Al%s; extern %s *e%s, **pe%s, *ae%s[3]; extern Al%s al%s; %s *fe%s(void); struct S%s { %s *m; }; extern struct S%s se%s;" % ((n,) * 14)
                 for n in ["NSArray", "NSMutableArray", "NSDictionary", "NSMutableDictionary", "MyArray"]).replace(" fe", " fe"))
ALIAS = {"NSNumber": ["Num_", "NumA_"], "NSString": ["Str_", "StrA_"], "NSArray": ["Arr_", "ArrA_"], "NSDictionary": ["Dic_", "DicA_"]}
LITS_CFG = "INIT Init\nNEXT Next\nINVARIANT Emit Laws\n"


class Lits(Printer):
    def stmt(self, m):
        r = self.rng
        x = r.random()
        if x < 0.2 and not m["sel"].startswith(("set", "replace")):
            self.t("g(")
            self.msg(m)
            self.t(");", False)
        elif x < 0.35 and m["sel"] != "count" and not m["sel"].startswith(("set", "replace")):
            self.nq += 1
            self.t("id q%d =" % self.nq)
            self.msg(m)
            self.t(";", False)
        elif x < 0.45:
            self.t("if (g()) {")
            self.msg(m)
            self.t("; }", False)
        elif x < 0.55:
            self.t("^{")
            self.msg(m)
            self.t("; }();", False)
        else:
            self.msg(m)
            self.t(";", False)

    def arg(self, a):
        r, k, t = self.rng, a["k"], a["t"]
        if k == "lit":
            self.t(r.choice(LIT[t]), False)
        elif k == "chr":
            self.t(r.choice(["'a'", "'\\n'", "'\\0'"]), False)
        elif k == "yes":
            self.t(r.choice(["((BOOL)1)", "((BOOL)0)"] if t else ["YES", "NO", "__objc_yes", "__objc_no"]), False)
        elif k == "enum":
            self.t(r.choice(["E1", "E2"]), False)
        elif k == "cmp":
            self.t(r.choice(["vi == 2", "vd < 1", "!vi", "vi && vd"]), False)
        elif k == "slit":
            self.t('"abc"', False)
        elif k == "par":
            self.t("(", False)
            self.arg(a["c"][0])
            self.t(")", False)
        elif t in ("char *", "const char *"):
            s = "cs" if t == "char *" else "ccs"
            self.t({"var": s, "call": "get%s()" % s, "cast": "(%s)vp" % t}[k], False)
        else:
            n = ID[t]
            self.t({"var": "v" + n, "call": "f%s()" % n, "cast": "(%s)%s" % (t, "vd" if t != "double" else "vi"), "bin": r.choice(["v%s + v%s", "v%s * v%s"]) % (n, n)}[k], False)

    def inner(self, m, j=0, dflt="ob"):
        """the j-th object among the arguments: one of the messages inside, or a plain object"""
        if j < len(m["c"]):
            self.msg(m["c"][j], False)
        else:
            self.t(dflt, False)

    def msg(self, m, sp=True):
        r = self.rng
        b = self.t("[", sp)
        k, s = m["k"], m["sel"]
        if k == "elem":
            rt = m["r"]
            n = rt.rstrip(" *") if rt.endswith("*") else r.choice(["NSArray", "NSMutableArray", "NSDictionary", "NSMutableDictionary"])
            self.t({"alias": "al" + n, "result": r.choice(["fe%s()" % n, "((%s *)ob)" % n])}.get(rt) or r.choice(["e" + n, "e" + n, "*pe" + n, "ae%s[1]" % n, "(e%s)" % n, "se%s.m" % n]), False)
        else:
            self.t(r.choice([m["r"]] * 3 + ALIAS.get(m["r"], [])), False)
        if k in ("num", "str"):
            self.t(s)
            self.t(":", False)
            self.arg(m["a"])
        elif s in ("arrayWithObjects:", "dictionaryWithObjectsAndKeys:"):
            self.t(s)
            self.inner(m)
            for j in range(1, max(2, len(m["c"]))):
                self.t(", ", False)
                self.inner(m, j)
            self.t(", (id)0", False)
        elif s == "arrayWithObjects:count:":
            self.t("arrayWithObjects:obs count:4")
        elif s == "dictionaryWithObjects:forKeys:count:":
            self.t("dictionaryWithObjects:obs forKeys:obs count:4")
        elif ":" not in s:
            self.t(s)
        else:
            j = 0
            for x in s.split(":")[:-1]:
                self.t(x)
                self.t(":", False)
                if x in ("objectAtIndex", "objectAtIndexedSubscript", "replaceObjectAtIndex", "atIndexedSubscript"):
                    self.t("2", False)
                else:
                    self.inner(m, j)
                    j += 1
        m["p"] = fmt((b, self.t("]", False)))


HOLDS = {"arrayWithObject:": 1, "arrayWithObjects:": 3, "arrayWithArray:": 1, "dictionaryWithObject:forKey:": 2, "dictionaryWithObjectsAndKeys:": 3, "dictionaryWithObjects:forKeys:": 2,
         "dictionaryWithDictionary:": 1, "replaceObjectAtIndex:withObject:": 1, "setObject:atIndexedSubscript:": 1, "objectForKey:": 1, "objectForKeyedSubscript:": 1, "setObject:forKey:": 2,
         "setObject:forKeyedSubscript:": 2}


def lits(c):
    th = c.thorough
    R = rulelib.Runner(c, ["ObjCNSNumberLiterals", "ObjCBoxedExpressions", "ObjCContainerLiterals", "ObjCObjectSubscripting"], header=LIT_PRE, dups=False)
    base = c.model("GenLiterals", LITS_CFG)
    r = c.rng
    for m in list(base):      # the other way to write YES
        if m["a"]["k"] == "yes":
            base.append(copy.deepcopy(m))
            base[-1]["a"]["t"] = "cast"
    pool = [m for m in base if m["sel"] != "count" and not m["sel"].startswith(("set", "replace"))]

    def nested(d):
        m = copy.deepcopy(r.choice(base if d else pool))
        n = HOLDS.get(m["sel"], 0)
        if d and n:
            m["c"] = [sub(d - 1) for _ in range(r.randint(0, n))]
        return m

    def sub(d):
        x = copy.deepcopy(r.choice(pool))
        n = HOLDS.get(x["sel"], 0)
        if d and n:
            x["c"] = [sub(d - 1) for _ in range(r.randint(0, n))]
        return x
    holders = [m for m in base if m["sel"] in HOLDS]
    groups = rulelib.batches(r.sample(base, len(base)) * 2, 6)
    for _ in range(5000 if th else 1500):
        g = []
        for _ in range(r.randint(1, 5)):
            m = copy.deepcopy(r.choice(holders))
            m["c"] = [sub(2) for _ in range(r.randint(1, HOLDS[m["sel"]]))]
            g.append(m)
        groups.append(g)
    jobs = []
    for i, g in enumerate(groups):
        g = copy.deepcopy(g)
        lang = "mm" if i % 3 == 1 else "m"
        p = Lits(r, r.choice([0, 0, 1, 2]), lang)
        p.nq = 0
        p.t(r.choice(["void fn%d(void)", "@interface W%d : NSObject @end @implementation W%d - (void)me"]).replace("%d", str(i)))
        wrap = "@implementation" in p.cur or any("@implementation" in x for x in p.out)
        p.t("{")
        p.ind += 1
        for m in g:
            p.brk()
            p.stmt(m)
        p.ind -= 1
        p.brk()
        p.t("} @end" if wrap else "}")
        jobs.append({"lang": lang, "lines": p.finish(), "rec": {"ms": g, "cxx": lang == "mm"}, "key": "x",
                     "cflags": ("-fobjc-runtime=gnustep-2.0",)})
    c.extra["functions"] = len(jobs)
    rulelib.conformance(c, R, "lits", jobs, per_tu=150)


def check(c):
    (envy if c.pid == "C27" else lits)(c)


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
