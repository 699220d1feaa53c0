"""Prints declaration trees (functions, classes, Objective-C containers, variables) as source,
and records the range p and the number of lines n of every node."""
import copy
from render import Printer, node, fmt

LET = "bcdkmnpqrstvwxzBCDGHJKMNPQRTVWXZ"


class Names:
    def __init__(self, rng, idx):
        self.rng, self.idx, self.used, self.n = rng, idx, set(), 0

    def var(self, length):
        for _ in range(400):
            s = "".join(self.rng.choice(LET) for _ in range(length))
            if s not in self.used:
                self.used.add(s)
                return s
        return None

    def typ(self, p="K"):
        self.n += 1
        return "%s%d_%d" % (p, self.idx, self.n)


def name_all(n, names):
    """Replaces the lengths "#n" by names; False when there are not enough names."""
    if n["v"].startswith("#"):
        k = int(n["v"][1:])
        n["v"] = names.var(k) if k else ""
        if n["v"] is None:
            return False
    return all(name_all(x, names) for x in n["c"])


class DeclPrinter(Printer):
    """names: a Names.  rng decides layout: style 0 one construct per line, 2 random."""
    def __init__(self, names, rng, style, lang):
        super().__init__(rng, style, lang)
        self.names = names

    def hard(self):
        if self.cur.strip():
            self.nl()
        self.cur = "  " * self.ind

    def params(self, ps):
        self.t("(", False)
        for i, x in enumerate(ps):
            if i:
                self.t(",", False)
            b = self.t("int")
            if x["v"]:
                self.t(x["v"])
            x["p"] = (b, self.last)
        if not ps and self.lang in ("c", "m"):
            self.t("void", False)
        self.t(")", False)

    def oparams(self, ps):
        nm = self.names.typ("m")
        if not ps:
            self.t(nm)
        for i, x in enumerate(ps):
            self.t(nm if i == 0 else "p%d" % i)
            self.t(":", False)
            self.t("(", False)
            b = self.t("int", False)
            self.t(")", False)
            self.t(x["v"], False)
            x["p"] = (b, self.last)

    def body(self, n):
        b = self.t("{")
        self.ind += 1
        for i in range(int(n["v"] or 0)):
            self.hard()
            self.cur += ["// " + "." * self.rng.randint(0, 20), "f();", "", "/* x */ ; "][self.rng.randrange(4)]
            self.out.append(self.cur)
            self.cur = "  " * self.ind
        for s in n["c"]:
            self.brk()
            self.item(s)
        self.ind -= 1
        if n["c"] or n["v"]:
            self.brk()
        self.t("}", False)
        n["p"] = (b, self.last)

    def sub(self, n):
        """substatement: a declaration needs braces"""
        if n["k"] in ("body",):
            self.item(n)
        else:
            self.t("{")
            self.item(n)
            self.t("}")

    def item(self, n):
        k, c, v = n["k"], n["c"], n["v"]
        if k == "body":
            self.body(n)
        elif k == "var":
            b = self.t("int")
            self.t(v)
            n["p"] = (b, self.last)
            self.semi()
        elif k == "vars":
            b = self.t("int")
            for i, x in enumerate(c):
                if i:
                    self.t(",", False)
                self.t(x["v"])
                if self.rng.random() < 0.5:
                    self.t("=")
                    self.t("1")
                x["p"] = (b, self.last)
            self.semi()
        elif k == "for":
            b = self.t("for")
            self.t("(")
            vs, bd = c[:-1], c[-1]
            if vs:
                vb = self.t("int", False)
                for i, x in enumerate(vs):
                    if i:
                        self.t(",", False)
                    self.t(x["v"])
                    self.t("=")
                    self.t("0")
                    x["p"] = (vb, self.last)
            self.t(";", False)
            self.t(";", False)
            self.t(")", False)
            self.sub(bd)
            n["p"] = (b, self.last)
        elif k == "rfor":
            b = self.t("for")
            self.t("(")
            vb = self.t("int", False)
            self.t(c[0]["v"])
            col = self.t(":")
            c[0]["p"] = (vb, col)
            self.t("arr")
            self.t(")", False)
            self.sub(c[1])
        elif k == "forin":
            self.t("for")
            self.t("(")
            vb = self.t("id", False)
            self.t(c[0]["v"])
            c[0]["p"] = (vb, self.last)
            self.t("in")
            self.t("coll")
            self.t(")", False)
            self.sub(c[1])
        elif k in ("try", "attry"):
            self.t("try" if k == "try" else "@try")
            self.t("{")
            self.t("}")
            self.t("catch" if k == "try" else "@catch")
            self.t("(")
            vb = self.t("int" if k == "try" else "NSException *", False)
            if c[0]["v"]:
                self.t(c[0]["v"])
            if k == "attry":
                self.last = self.last if c[0]["v"] else vb
            c[0]["p"] = (vb, self.last)
            self.t(")", False)
            self.sub(c[1])
        elif k in ("lambda", "blk"):
            self.t("[&]" if k == "lambda" else "^")
            self.params(c[:-1])
            self.body(c[-1])
            self.semi()
        else:
            self.decl(n)

    def member(self, n):
        k, c, v = n["k"], n["c"], n["v"]
        self.brk()
        if k == "fld":
            self.t("int")
            self.t(v)
            self.semi()
        elif k == "mdecl":
            b = self.t("int")
            self.t(self.names.typ("m"))
            self.params(c)
            n["p"] = (b, self.last)
            self.semi()
        elif k in ("ctor", "dtor"):
            self.t(("~" if k == "dtor" else "") + self.cls[-1])
            self.t("(" + ("" if k == "dtor" else self.ctor_args()) + ");", False)
        elif k == "smem":
            b = self.t("static")
            self.t("int")
            self.t(v)
            n["p"] = (b, self.last)
            self.semi()
        else:
            self.decl(n)

    def ctor_args(self):
        self.nctor = getattr(self, "nctor", 0) + 1
        return ", ".join(["int"] * self.nctor)

    def decl(self, n):
        k, c, v = n["k"], n["c"], n["v"]
        if k in ("fn", "tfn"):
            if k == "tfn":
                self.t("template <class %s>" % self.names.typ("T"))
            b = self.t("int")
            self.t(self.names.typ("fn"))
            self.params(c[:-1])
            self.body(c[-1])
            n["p"] = (b, self.last)
        elif k == "proto":
            b = self.t("int")
            self.t(self.names.typ("pr"))
            self.params(c)
            n["p"] = (b, self.last)
            self.semi()
        elif k == "gvar":
            b = self.t("int")
            self.t(v)
            n["p"] = (b, self.last)
            self.semi()
        elif k == "clsfwd":
            nm = self.names.typ()
            kw = c[0]["v"]
            if self.rng.random() < 0.7:
                self.t(kw + " " + nm + ";")
                self.brk()
            self.cname = nm
            self.decl(c[0])
            self.brk()
            self.t(kw + " " + nm + ";")
        elif k == "cls":
            nm = getattr(self, "cname", None) or self.names.typ()
            self.cname = None
            b = self.t(v)
            self.t(nm)
            self.cls = getattr(self, "cls", []) + [nm]
            self.t("{")
            self.ind += 1
            if v == "class" and self.rng.random() < 0.5:
                self.brk()
                self.t("public:")
            for x in c:
                self.member(x)
            self.ind -= 1
            self.brk()
            self.t("}")
            n["p"] = (b, self.last)
            self.cls.pop()
            self.semi()
            if not self.cls and self.lang in ("cpp", "mm") and self.rng.random() < 0.5:
                # a use that makes the compiler declare the class's implicit members
                self.brk()
                self.t("typedef char %s[sizeof(*(%s *)0 = *(%s *)0)];" % (self.names.typ("U"), nm, nm))
        elif k in ("oc", "ocfwd"):
            self.ocls = self.names.typ("O")
            if k == "ocfwd":
                self.t("@class " + self.ocls + ";")
                self.hard()
            for x in c:
                self.decl(x)
                self.hard()
                if k == "ocfwd":
                    self.t("@class " + self.ocls + ";")
                    self.hard()
        elif k in ("iface", "cat", "ext", "prot", "impl", "catimpl"):
            b = self.t({"prot": "@protocol", "impl": "@implementation", "catimpl": "@implementation"}.get(k, "@interface"))
            self.brk()
            if k == "prot":
                self.t(self.names.typ("P"))
            else:
                self.t(self.ocls)
            if k in ("cat", "catimpl"):
                if k == "cat":
                    self.ocat = self.names.typ("C")
                self.brk()
                self.t("(%s)" % self.ocat)
            if k == "ext":
                self.t("()")
            if k == "iface":
                self.brk()
                self.t(":")
                self.t("NSObject")
                iv = [x for x in c if x["k"] == "ivar"]
                self.ivars = [x["v"] for x in iv]
                if iv:
                    self.hard()
                    self.t("{")
                    for i, x in enumerate(iv):
                        self.brk()
                        self.t("int")
                        self.t(x["v"])
                        self.semi()
                    self.t("}")
                self.props = []
            self.hard()
            for x in c:
                if x["k"] == "ivar":
                    continue
                if x["k"] in ("proprw", "propro"):
                    nm = self.ivars[len(self.props)]
                    self.props.append(nm)
                    self.t("@property%s int %s;" % (" (readonly)" if x["k"] == "propro" else "", nm))
                elif x["k"] in ("synrw", "synro"):
                    self.t("@synthesize %s;" % self.props.pop(0))
                else:
                    self.omember(x)
                self.hard()
            at = self.t("@end")
            n["p"] = (b, at if k in ("impl", "catimpl") else (at[0], at[1] + 1))
        elif k == "omdecl":
            self.omember(n)
        else:
            raise ValueError("decl " + k)

    def omember(self, n):
        b = self.t("-" if self.rng.random() < 0.7 else "+")
        self.t("(int)")
        if n["k"] == "mdef":
            self.oparams(n["c"][:-1])
            self.body(n["c"][-1])
        else:
            self.oparams(n["c"])
            self.semi()
        n["p"] = (b, self.last)

    def unit(self, n):
        if n["k"] == "unit":
            for x in n["c"]:
                self.unit(x)
        else:
            self.decl(n)
            self.hard()
        return self.finish() if n["k"] != "unit" else self.out


def freeze(n):
    p = n.get("p")
    d = {"k": n["k"], "v": str(n["v"]), "p": fmt(p) if p else "", "n": p[1][0] - p[0][0] + 1 if p else 0, "c": [freeze(x) for x in n["c"]]}
    for a in ("a",):
        if a in n:
            d[a] = n[a]
    return d


def print_unit(tree, idx, rng, style, lang):
    """Returns (source lines, frozen tree) or None when names run out."""
    t = copy.deepcopy(tree)
    names = Names(rng, idx)
    if not name_all(t, names):
        return None
    p = DeclPrinter(names, rng, style, lang)
    p.unit(t)
    if p.cur.strip():
        p.nl()
    return p.out, freeze(t)
