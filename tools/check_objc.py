"""C21: Objective-C contracts."""
import copy
import sys
import rulelib
import vlib
from render import Printer, fmt

CFG = 'CONSTANT Family="%s"\nINIT Init\nNEXT Next\nINVARIANT Emit Laws\n'
FAMS = [("base", 1400, 5444), ("abs", 700, 5444), ("proh", 1400, 9000), ("prot", 1400, 9056), ("ivar", 300, 300), ("hash", 400, 400)]
PRE = """#ifndef V_PRE_H
#define V_PRE_H
@interface NSObject
+ (id)alloc;
@end
#ifdef __cplusplus
extern "C" int g(...);
#else
int g();
#endif
#endif
"""
RULES = ["ObjCVerifyIsEqualHash", "ObjCVerifyMustCallSuper", "ObjCVerifyProhibitedCall", "ObjCVerifyProtectedMethod", "ObjCVerifySubclassMustImplement",
         "ObjCAssignIvarOutsideAccessors"]
KIND = {"base": "base method", "proh": "prohibited method", "prot": "protected method", "abs": "abstract method"}


class P(Printer):
    def ann(self, anns):
        for a in anns:
            self.t('__attribute__((annotate("oclint:enforce[%s]%s")))' % (KIND[a["k"]], "[%s]" % a["note"] if a["note"] else ""))

    def sig(self, m):
        self.t("-" if m["inst"] else "+")
        self.t("(%s)" % ("void" if m["sel"].startswith("set") else "int"))
        parts = m["sel"].split(":")
        if len(parts) == 1:
            self.t(parts[0], False)
        for i, x in enumerate(parts[:-1]):
            self.t(x, i > 0)
            self.t(":(int)a%d" % i, False)

    def decl(self, m):
        self.sig(m)
        self.ann(m["ann"])
        self.cur += ";"
        self.brk()

    def message(self, recv, s):
        b = self.t("[")
        self.t(recv, False)
        parts = s["sel"].split(":")
        if len(parts) == 1:
            self.t(parts[0])
        for x in parts[:-1]:
            self.t(x)
            self.t(":", False)
            self.t("1", False)
        s["p"] = fmt((b, self.t("]", False)))

    def stmts(self, ss):
        for s in ss:
            self.brk()
            self.stmt(s)

    def recv(self, s):
        W, i = self.W, s["ri"]
        return {"self": lambda: "self", "super": lambda: "super", "var": lambda: "v" + W["cls"][i - 1]["n"], "cls": lambda: W["cls"][i - 1]["n"],
                "proto": lambda: "p" + W["protos"][i - 1]["n"]}[s["rk"]]()

    def stmt(self, s):
        k, r = s["k"], self.rng
        if k == "call":
            style = r.random()
            if style < 0.2:
                self.t("g(")
                self.message(self.recv(s), s)
                self.t(");", False)
            elif style < 0.35 and not s["sel"].startswith("set"):
                self.t("if (")
                self.message(self.recv(s), s)
                self.t(") { }", False)
            else:
                self.message(self.recv(s), s)
                self.t(";", False)
        elif k == "prop":
            rd = not s["sel"].startswith("set")
            if rd and not s["sel2"]:
                self.t("g(")
                self.t(self.recv(s), False)
            else:
                self.t(self.recv(s))
            self.t(".", False)
            q = self.t(s["name"], False)
            s["p"] = fmt((q, q))
            self.t(")" if rd and not s["sel2"] else "+= 2" if s["sel2"] else "= 2")
            self.t(";", False)
        elif k == "fcall":
            b = self.t(self.W["fns"][s["ri"] - 1]["n"])
            self.t("(", False)
            self.t("1", False)
            s["p"] = fmt((b, self.t(")", False)))
            self.t(";", False)
        elif k == "asg":
            ivs = s["ivs"]
            if len(ivs) == 2:
                self.t("*(&")
                self.ivar(ivs[0])
                self.t("+")
                self.ivar(ivs[1], True)
                self.t(")")
            elif r.random() < 0.15:
                self.t("(")
                self.ivar(ivs[0])
                self.t(")", False)
            else:
                self.ivar(ivs[0], True)
            self.t(r.choice(["=", "=", "+=", "<<="]))
            if r.random() < 0.3:
                self.t(r.choice(ivs)["n"])
            else:
                self.t("1")
            self.t(";", False)
        elif k == "inc":
            v = s["ivs"][0]["n"]
            self.nq = getattr(self, "nq", 0) + 1
            self.t(r.choice([v + "++", "--" + v, "g(%s)" % v, "int q%d = %s" % (self.nq, v), "g(%s == 1)" % v]))
            self.t(";", False)
            s["ivs"] = []
        elif k == "blk":
            self.t("^{")
            self.stmts(s["c"])
            self.t("}();")
        elif k == "if":
            self.t(r.choice(["if (g())", "while (g())", ""]))
            self.t("{")
            self.stmts(s["c"])
            self.t("}")

    def ivar(self, v, sp=False):
        if self.rng.random() < 0.3:
            b = self.t("self", sp)
            self.t("->", False)
            e = self.t(v["n"], False)
        else:
            b = e = self.t(v["n"], sp)
        v["p"] = fmt((b, e))

    def defs(self, ms):
        for d in ms:
            self.brk()
            b = self.pos_of_sig(d)
            self.t("{")
            self.ind += 1
            self.stmts(d["body"])
            if not d["sel"].startswith("set"):
                self.brk()
                self.t("return 0;")
            self.ind -= 1
            self.brk()
            d["p"] = fmt((b, self.t("}")))

    def pos_of_sig(self, d):
        self.sp()
        b = self.pos()
        self.sig(d)
        return b


def ivars_of(ds):
    out = []

    def walk(ss):
        for s in ss:
            out.extend(v["n"] for v in s["ivs"])
            walk(s["c"])
    for d in ds:
        walk(d["body"])
    return out


def all_defs(c):
    return [d for i in c["impl"] for d in i["ms"]] + [d for k in c["cats"] for i in k["impl"] for d in i["ms"]]


def show(W, idx, rng, lang):
    W = copy.deepcopy(W)
    p = P(rng, rng.choice([0, 0, 1, 2]), lang)
    p.W = W
    for i, x in enumerate(W["protos"]):
        x["n"] = "P%d_%d" % (i + 1, idx)
    for i, x in enumerate(W["cls"]):
        x["n"] = "K%d_%d" % (i + 1, idx)
    for i, x in enumerate(W["fns"]):
        x["n"] = "fn%d_%d" % (i + 1, idx)
    names = lambda l, ix: "<%s>" % ", ".join(l[i - 1]["n"] for i in ix) if ix else ""
    for x in W["protos"]:
        p.t("@protocol %s %s" % (x["n"], names(W["protos"], x["ups"])))
        p.brk()
        for m in x["decl"]:
            p.decl(m)
        p.t("@end")
        p.brk()
    have = {}
    for i, c in enumerate(W["cls"], 1):
        iv = sorted(set(ivars_of(all_defs(c))) - have.get(c["sup"], set()))
        have[i] = have.get(c["sup"], set()) | set(iv)
        p.t("@interface %s : %s %s" % (c["n"], W["cls"][c["sup"] - 1]["n"] if c["sup"] else "NSObject", names(W["protos"], c["adopts"])))
        if iv:
            p.t("{ @public int %s; }" % ", ".join(iv))
        p.brk()
        items = [("d", m) for m in c["decl"]] + [("p", m) for m in c["props"]]
        rng.shuffle(items)
        for k, m in items:
            if k == "d":
                p.decl(m)
            else:
                at = (["getter=" + m["get"]] if m["get"] != m["n"] else []) + (["readonly"] if not m["set"] else [])
                p.t("@property %s int %s" % ("(%s)" % ", ".join(at) if at else "", m["n"]))
                p.ann(m["ann"])
                p.t(";", False)
                p.brk()
        p.t("@end")
        p.brk()
        for k in c["cats"]:
            p.t("@interface %s (%s) %s" % (c["n"], k["n"], names(W["protos"], k["adopts"])))
            p.brk()
            for m in k["decl"]:
                p.decl(m)
            p.t("@end")
            p.brk()
    for c in W["cls"]:
        p.t("extern %s *v%s;" % (c["n"], c["n"]))
    for c in W["protos"]:
        p.t("extern id<%s> p%s;" % (c["n"], c["n"]))
    p.brk()
    for f in W["fns"]:
        if lang == "mm":
            p.t('extern "C"')
        p.t("int %s(int)" % f["n"])
        p.ann(f["ann"])
        p.t(";")
        p.brk()
    units = [("i", c) for c in W["cls"] if c["impl"]] + [("c", (c, k)) for c in W["cls"] for k in c["cats"] if k["impl"]] + [("f", f) for f in W["fns"]]
    rng.shuffle(units)
    for k, x in units:
        if k == "i":
            b = p.t("@implementation")
            p.t(x["n"])
            p.ind += 1
            p.defs(x["impl"][0]["ms"])
            p.ind -= 1
            p.brk()
            x["impl"][0]["p"] = fmt((b, p.t("@end")))
            p.brk()
        elif k == "c":
            c, cat = x
            p.t("@implementation %s (%s)" % (c["n"], cat["n"]))
            p.defs(cat["impl"][0]["ms"])
            p.brk()
            p.t("@end")
            p.brk()
        else:
            for j, body in enumerate(x["defs"]):
                p.t("int fx%d_%s(int a)" % (j, x["n"]))
                p.t("{")
                p.stmts(body)
                p.brk()
                p.t("return 0; }")
                p.brk()
    lines = p.finish()
    return lines, W


# ---------------------------------------------------------------- random worlds
POOL = ["mm", "nn", "kk:", "two:parts:", "_u", "mmm"]


class World:
    def __init__(self, r):
        self.r = r
        self.note = r.choice(["", "", "other one", "[x y]", "a-b"])     # (which of several notes is quoted is not specified)
        np, nc, nf = r.choice([0, 0, 1, 2, 3]), r.randint(2, 5), r.choice([0, 1, 2])
        self.protos, self.cls, self.fns = [], [], []
        for i in range(np):
            self.protos.append({"n": "", "ups": [j + 1 for j in range(i) if r.random() < 0.4], "decl": self.meths(0.25)})
        for i in range(nc):
            taken = set()
            props = []
            for n in ["pp%d" % i, "q%dx" % i]:       # (a property of the superclass is not synthesized again)
                if r.random() < 0.25:
                    get = n if r.random() < 0.7 else "is" + n.capitalize()
                    props.append({"n": n, "get": get, "set": "" if r.random() < 0.3 else "set%s:" % n.capitalize(), "ann": self.anns()})
            decl = self.meths(0.4)
            for m in self.acc(props):       # an accessor may also be declared as a method; keep them apart
                taken.add((m, True))
            cats = []
            cd = set()
            for j in range(r.choice([0, 0, 1, 2])):
                ms = [m for m in self.meths(0.3) if (m["sel"], m["inst"]) not in cd]
                cd |= {(m["sel"], m["inst"]) for m in ms}
                cats.append({"n": "Cat%d" % j, "decl": ms, "impl": [],
                             # whether a class's own method overrides that of a protocol a later category adopts is left open
                             "adopts": [] if j else [q for q in self.adopts() if not any(self.pdeclared(q, m["sel"], m["inst"]) for m in decl)]})
            self.cls.append({"n": "", "sup": r.choice([0] + list(range(1, i + 1)) * 3) if i else 0, "adopts": self.adopts(), "decl": decl, "props": props,
                             "cats": cats, "impl": []})
        for i in range(nf):
            self.fns.append({"n": "", "ann": [a for a in self.anns() if a["k"] == "proh"], "defs": []})
        self.sels = [(s, i) for s in POOL for i in (True, False)]
        for c in range(1, nc + 1):
            C = self.cls[c - 1]
            if r.random() < 0.85:
                C["impl"] = [{"p": "", "ms": self.defs(c, 0.4)}]
                # a category implementation needs the class's to be useful only; any will do
            for k in C["cats"]:
                if r.random() < 0.4:
                    k["impl"] = [{"p": "", "ms": self.defs(c, 0.2)}]
        for f in self.fns:
            f["defs"] = [self.body(0, True, 2) for _ in range(r.choice([0, 1, 2]))]

    def acc(self, props):
        return [x for q in props for x in (q["get"], q["set"]) if x]

    def adopts(self):
        return [j + 1 for j in range(len(self.protos)) if self.r.random() < 0.3]

    def anns(self):
        r = self.r
        out = []
        for k in KIND:
            if r.random() < 0.18:
                out.append({"k": k, "note": self.note if k == "proh" else ""})
        r.shuffle(out)
        return out

    def meths(self, pr):
        r = self.r
        return [{"sel": s, "inst": i, "ann": self.anns()} for s in POOL for i in (True, False) if r.random() < pr * (1 if i else 0.4)]

    def declared(self, c, sel, inst):
        if c == 0:
            return False
        C = self.cls[c - 1]
        if any((m["sel"], m["inst"]) == (sel, inst) for m in C["decl"] + [m for k in C["cats"] for m in k["decl"]]):
            return True
        if inst and sel in self.acc(C["props"]):
            return True
        if any(self.pdeclared(q, sel, inst) for q in C["adopts"] + [a for k in C["cats"] for a in k["adopts"]]):
            return True
        return self.declared(C["sup"], sel, inst)

    def pdeclared(self, q, sel, inst):
        Q = self.protos[q - 1]
        return any((m["sel"], m["inst"]) == (sel, inst) for m in Q["decl"]) or any(self.pdeclared(u, sel, inst) for u in Q["ups"])

    def props_seen(self, c):
        out = []
        while c:
            out += [q for q in self.cls[c - 1]["props"] if q["n"] not in [o["n"] for o in out]]
            c = self.cls[c - 1]["sup"]
        return out

    def defs(self, c, pr):
        r = self.r
        cand = list(self.sels) + [("caller", True), ("caller", False), ("isEqual:", True), ("hash", True), ("isEqual:", False), ("initThing", True),
                                  ("setIv:", True), ("iv", True)]
        cand += [(s, True) for s in self.acc(self.cls[c - 1]["props"])]
        return [{"sel": s, "inst": i, "p": "", "body": self.body(c, i, 3, s)} for s, i in cand if r.random() < pr * (1 if i else 0.5)]

    def st(self, k, **kw):
        return dict({"k": k, "rk": "", "ri": 0, "sel": "", "sel2": "", "inst": True, "p": "", "c": [], "ivs": []}, **kw)

    def body(self, c, inst, depth, sel=None):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.25 and depth:
                out.append(self.st(r.choice(["blk", "if"]), c=self.body(c, inst, depth - 1, sel)))
            elif x < 0.35 and self.fns:
                out.append(self.st("fcall", ri=r.randint(1, len(self.fns))))
            elif x < 0.5 and c and inst:
                ivs = r.sample(["_iv", "iv", "iv_", "_two_words", "_b", "_initial"], r.choice([1, 1, 2]))
                out.append(self.st(r.choice(["asg", "asg", "inc"]), ivs=[{"n": v, "p": ""} for v in ivs]))
            elif x < 0.62:
                rk = r.choice(["var", "var"] + (["self", "super"] if c and inst else []))
                ri = r.randint(1, len(self.cls)) if rk == "var" else 0
                k = c if rk == "self" else self.cls[c - 1]["sup"] if rk == "super" else ri
                ps = self.props_seen(k)
                if ps:
                    q = r.choice(ps)
                    form = r.choice(["r", "w", "rw"]) if q["set"] else "r"
                    s = self.st("prop", rk=rk, ri=ri, sel=q["set"] if form == "w" else q["get"], sel2=q["set"] if form == "rw" else "")
                    s["name"] = q["n"]
                    out.append(s)
            else:
                rk = r.choice(["var", "var", "cls"] + (["self", "super", "super"] if c else []) + (["proto"] if self.protos else []))
                ri = r.randint(1, len(self.cls)) if rk in ("var", "cls") else r.randint(1, len(self.protos)) if rk == "proto" else 0
                i = {"var": True, "cls": False, "proto": True}.get(rk, inst)
                k = c if rk == "self" else self.cls[c - 1]["sup"] if rk == "super" else ri
                ok = [s for s in POOL if (self.pdeclared(ri, s, i) if rk == "proto" else self.declared(k, s, i))]
                if ok:
                    out.append(self.st("call", rk=rk, ri=ri, sel=sel if sel in ok and r.random() < 0.5 else r.choice(ok), inst=i))
        return out

    def world(self):
        return {"protos": self.protos, "cls": self.cls, "fns": self.fns}


def walk_stmts(W):
    todo = [d["body"] for c in W["cls"] for d in all_defs(c)] + [b for f in W["fns"] for b in f["defs"]]
    while todo:
        for s in todo.pop():
            yield s
            todo.append(s["c"])


def finish(W):
    """fills in what only the printer needs"""
    for s in walk_stmts(W):
        if s["k"] == "prop" and "name" not in s:
            s["name"] = s["sel"]
    return W


def check(c):
    th = c.thorough
    R = rulelib.Runner(c, RULES, header=PRE, dups=False)
    Ws = []
    n = 0
    for (fam, quick, full) in FAMS:
        out = c.model("GenObjc", CFG % fam)
        n += len(out)
        k = full if th else quick
        Ws += c.rng.sample(out, k) if len(out) > k else out
    c.extra["worlds_of_the_model"] = n
    c.extra["worlds_enumerated"] = len(Ws)
    Ws += [World(c.rng).world() for _ in range(6000 if th else 1200)]
    jobs = []
    for i, w in enumerate(Ws):
        lang = "mm" if i % 7 == 3 else "m"
        lines, ww = show(finish(copy.deepcopy(w)), i, c.rng, lang)
        jobs.append({"lang": lang, "lines": lines, "rec": {"W": ww}, "key": "x", "cflags": ("-fobjc-runtime=gnustep-2.0",)})
    rulelib.conformance(c, R, "objc", jobs, per_tu=200)
    c.assumptions += ["clang resolves messages and methods of the printed classes by Objective-C's lookup rules, which the specification states"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
