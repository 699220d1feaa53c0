"""Prints model programs (trees of the specifications) as C, C++, Objective-C source and records,
in each node's field p, the source range "line:col-line:col" that clang gives to that node
(lines counted from the first line of the function)."""
import random
import re

EXPR = {"v", "int", "bool", "land", "lor", "bin", "asg", "cond", "un", "par", "call", "cast", "msg", "new", "lambda",
        "elvis", "str", "throw", "cmpnull", "sub", "post", "nul", "mem", "stmtexpr", "objcbool", "chr", "flt", "dot", "cvar", "cinit"}


def node(k, *c, v="", **kw):
    d = {"k": k, "v": v, "c": list(c)}
    d.update(kw)
    return d


class Printer:
    def __init__(self, rng=None, style=0, lang="cpp"):
        self.out = []          # finished lines
        self.cur = ""
        self.ind = 0
        self.last = (0, 1)     # start of the last token
        self.rng = rng or random.Random(0)
        self.style = style     # 0: one statement per line; 1: compact on one line; 2: random breaks
        self.lang = lang

    def pos(self):
        return (len(self.out), len(self.cur) + 1)

    def nl(self):
        self.out.append(self.cur)
        if self.style == 2 and self.rng.random() < 0.01:
            # a renumbering directive: the lines reported are those of the file all the same
            self.out.append("#line %d" % self.rng.randint(1, 99))
        self.cur = ""

    def brk(self):
        """possible line break between statements"""
        if self.style == 0 or (self.style == 2 and self.rng.random() < 0.5):
            if self.cur.strip():
                self.nl()
                self.cur = "  " * self.ind
        else:
            self.sp()

    def sp(self):
        if self.cur and not self.cur.endswith(" "):
            self.cur += " "

    def t(self, s, sp=True):
        if sp:
            self.sp()
        elif not self.cur:
            pass
        p = self.pos()
        self.cur += s
        self.last = p
        return p

    # ------------------------------------------------------------------ expressions
    def expr(self, n):
        b = None
        k, c, v = n["k"], n["c"], n["v"]
        if k in ("v", "int", "bool", "str", "objcbool", "chr", "flt"):
            b = self.t(str(v))
        elif k == "nul":      # a null constant may have several tokens
            for i, w in enumerate(re.findall(r"\w+|\W", v)):
                x = self.t(w, not i)
                b = b or x
        elif k == "cvar":     # the declaration of a variable as condition
            self.t("int")
            b = self.t(v)
            self.t("=")
            self.expr(c[0])
            self.last = b
        elif k == "cinit":    # if and switch with a statement before the condition
            self.stmt(c[0])
            b = self.expr(c[1])
        elif k == "dot":      # c[0].v
            b = self.expr(c[0])
            self.t(".", False)
            self.t(v, False)
        elif k in ("land", "lor", "bin", "asg", "cmpnull"):
            op = {"land": "&&", "lor": "||"}.get(k, v)
            b = self.expr(c[0])
            self.t(op)
            self.expr(c[1])
        elif k == "cond":
            b = self.expr(c[0])
            self.t("?")
            self.expr(c[1])
            self.t(":")
            self.expr(c[2])
        elif k == "elvis":
            b = self.expr(c[0])
            self.t("?:")
            self.expr(c[1])
        elif k == "un":
            b = self.t(v)
            self.expr_nosp(c[0], v)
        elif k == "post":
            b = self.expr(c[0])
            self.t(v, False)
        elif k == "par":
            b = self.t("(")
            self.expr(c[0])
            self.t(")", False)
        elif k == "cast":
            b = self.t("(")
            self.t(v, False)
            self.t(")", False)
            self.expr(c[0])
        elif k == "call":
            b = self.t(str(v))
            self.t("(", False)
            for i, a in enumerate(c):
                if i:
                    self.t(",", False)
                self.expr(a)
            self.t(")", False)
        elif k == "sub":
            b = self.expr(c[0])
            self.t("[", False)
            self.expr(c[1])
            self.t("]", False)
        elif k == "mem":      # c[0]->v
            b = self.expr(c[0])
            self.t("->", False)
            self.t(v, False)
        elif k == "memcall":  # c[0]->v()
            b = self.expr(c[0])
            self.t("->", False)
            self.t(v, False)
            self.t("(", False)
            self.t(")", False)
        elif k == "msg":      # [c0 v]
            b = self.t("[")
            self.expr(c[0])
            self.t(v)
            if len(c) > 1:
                self.t(":", False)
                self.expr(c[1])
            self.t("]", False)
        elif k == "throw":
            b = self.t("throw")
            if c:
                self.expr(c[0])
        elif k == "lambda":
            b = self.t("[&]")
            self.t("(", False)
            self.t(")", False)
            self.stmt(c[0])
        elif k == "objcblock":
            b = self.t("^")
            self.stmt(c[0])
        elif k == "stmtexpr":
            b = self.t("(")
            self.stmt(c[0])
            self.t(")", False)
        else:
            raise ValueError("expr " + k)
        n["p"] = (b, self.last)
        return b

    def expr_nosp(self, n, op=""):
        # a unary operator and its operand; keep a blank where the tokens would merge
        if n["k"] == "un" and op and op[-1] == n["v"][0]:
            return self.expr(n)
        return self.expr(n)

    # ------------------------------------------------------------------ statements
    def body(self, n):
        """substatement of a control statement"""
        if n["k"] == "block":
            self.stmt(n)
        else:
            self.ind += 1
            self.brk()
            self.stmt(n)
            self.ind -= 1

    def semi(self):
        self.cur += ";"

    def stmt(self, n):
        k, c, v = n["k"], n["c"], n["v"]
        b = None
        if k in EXPR or k in ("memcall", "objcblock"):
            self.expr(n)
            self.semi()
            return
        if k == "block":
            b = self.t("{")
            self.ind += 1
            for s in c:
                self.brk()
                self.stmt(s)
            self.ind -= 1
            if n.get("cm"):
                self.sp()
                self.cur += "/*" + n["cm"] + "*/"
            if c:
                self.brk()
            self.t("}")
        elif k == "null":
            b = self.t(";")
        elif k == "e":       # opaque expression statement
            b = self.t("f")
            self.t("(", False)
            self.t(")", False)
            self.semi()
        elif k == "expr":
            self.expr(c[0])
            n["p"] = c[0]["p"]
            self.semi()
            return
        elif k == "decl":
            b = self.t(n.get("ty", "int"))
            n["vp"] = None
            nm = self.t(v)
            last = self.last
            if c:
                self.t("=")
                self.expr(c[0])
                last = self.last
            n["vp"] = (b, last)     # the VarDecl's range
            self.cur += ";"
            self.last = (len(self.out), len(self.cur))
        elif k == "declm":   # several declarators in one statement; children are decl nodes
            b = self.t(n.get("ty", "int"))
            for i, x in enumerate(c):
                if i:
                    self.t(",", False)
                self.t(x["v"])
                if x["c"]:
                    self.t("=")
                    self.expr(x["c"][0])
            self.cur += ";"
            self.last = (len(self.out), len(self.cur))
        elif k == "delete":
            b = self.t("delete")
            self.expr(c[0])
            self.semi()
        elif k == "break":
            b = self.t("break")
            self.semi()
        elif k == "coret":
            b = self.t("co_return")
            self.semi()
        elif k == "continue":
            b = self.t("continue")
            self.semi()
        elif k == "return":
            b = self.t("return")
            if c:
                self.expr(c[0])
            self.semi()
        elif k == "goto":
            b = self.t("goto")
            self.t(v)
            self.semi()
        elif k == "label":
            b = self.t(v)
            self.t(":", False)
            if c[0]["k"] == "attr" and c[0]["v"] == "nomerge":
                c[0]["v"] = "likely"      # it would be the label's attribute
            self.stmt(c[0])
        elif k == "attr":     # a statement with an attribute, or a loop with a pragma
            if v == "pragma" and c[0]["k"] in ("while", "do", "for", "rfor"):
                if self.cur.strip():
                    self.nl()
                self.out.append("#pragma clang loop unroll(enable)")
                self.cur = ""
            else:
                b = self.t("__attribute__((nomerge))" if v == "nomerge" and c[0]["k"] in ("block", "if", "ifelse", "while", "do", "for", "switch", "return") else "[[clang::likely]]" if self.lang in ("c", "m") else "[[likely]]")
            self.stmt(c[0])
            b = b or c[0]["p"][0]
        elif k in ("if", "ifelse"):
            b = self.t("if")
            if v == "ce":
                self.t("consteval")
            else:
                if v == "cx":
                    self.t("constexpr")
                self.t("(")
                self.expr(c[0])
                self.t(")", False)
            self.body(c[1])
            if k == "ifelse":
                self.brk() if c[1]["k"] != "block" else None
                n["ep"] = self.t("else")
                if c[2]["k"] in ("if", "ifelse"):
                    self.stmt(c[2])
                else:
                    self.body(c[2])
        elif k == "while":
            b = self.t("while")
            self.t("(")
            self.expr(c[0])
            self.t(")", False)
            self.body(c[1])
        elif k == "do":
            b = self.t("do")
            self.body(c[0])
            self.brk() if c[0]["k"] != "block" else None
            self.t("while")
            self.t("(")
            self.expr(c[1])
            self.t(")", False)
            self.semi()
        elif k == "for":     # init, cond, inc, body; init: none | decl | expr ; cond, inc: none | expr
            b = self.t("for")
            self.t("(")
            if c[0]["k"] in ("decl", "declm"):
                self.stmt(c[0])
            else:
                if c[0]["k"] != "none":
                    self.expr(c[0])
                self.semi()
            if c[1]["k"] != "none":
                self.expr(c[1])
            self.semi()
            if c[2]["k"] != "none":
                self.expr(c[2])
            self.t(")", False)
            self.body(c[3])
        elif k == "rfor":
            b = self.t("for")
            self.t("(")
            self.t("int", False)
            self.t(v or "rv")
            self.t(":")
            self.t("arr")
            self.t(")", False)
            self.body(c[0])
        elif k == "forin":
            b = self.t("for")
            self.t("(")
            self.t("id", False)
            self.t(v or "fv")
            self.t("in")
            self.t("coll")
            self.t(")", False)
            self.body(c[0])
        elif k == "switch":
            b = self.t("switch")
            self.t("(")
            self.expr(c[0])
            self.t(")", False)
            self.body(c[1])
        elif k == "case":
            b = self.t("case")
            self.t(str(v))
            self.t(":", False)
            self.stmt(c[0])
        elif k == "default":
            b = self.t("default")
            self.t(":", False)
            self.stmt(c[0])
        elif k == "try":     # block, catch*
            b = self.t("try")
            self.stmt(c[0])
            for h in c[1:]:
                self.stmt(h)
        elif k == "catch":
            b = self.t("catch")
            self.t("(")
            self.t(v or "...", False)
            self.t(")", False)
            self.stmt(c[0])
        elif k == "attry":   # block, atcatch*, atfinally?
            b = self.t("@try")
            self.stmt(c[0])
            for h in c[1:]:
                self.stmt(h)
        elif k == "atcatch":
            b = self.t("@catch")
            self.t("(")
            for i, w in enumerate(n.get("ty", "id").split()):
                self.t(w, i > 0)
            self.t(v or "ex")
            self.t(")", False)
            self.stmt(c[0])
        elif k == "atfinally":
            b = self.t("@finally")
            self.stmt(c[0])
        elif k == "sync":
            b = self.t("@synchronized")
            self.t("(")
            self.t("coll", False)
            self.t(")", False)
            self.stmt(c[0])
        elif k == "pool":
            b = self.t("@autoreleasepool")
            self.stmt(c[0])
        elif k == "atthrow":
            b = self.t("@throw")
            if c:
                self.expr(c[0])
            self.semi()
        else:
            raise ValueError("stmt " + k)
        n["p"] = (b, self.last)
        if n.get("p")[0] is None:
            n["p"] = (self.last, self.last)

    def finish(self):
        if self.cur:
            self.nl()
        return self.out


def fmt(p):
    (a, b), (c, d) = p
    return "%d:%d-%d:%d" % (a, b, c, d)


def freeze(n):
    """The tree as the trace spec reads it: k, v, p, c (plus any extra string attributes)."""
    d = {"k": n["k"], "v": str(n["v"]), "p": fmt(n["p"]) if n.get("p") and n["p"][0] else "", "c": [freeze(x) for x in n["c"]]}
    if n.get("vp"):
        d["vp"] = fmt(n["vp"])
    if n["k"] == "if" and n.get("p"):
        d["n"] = n["p"][1][0] - n["p"][0][0] + 1
    for a in ("q", "ty"):
        if a in n:
            d[a] = n[a]
    return d


def kinds(n, s=None):
    s = set() if s is None else s
    s.add(n["k"])
    for x in n["c"]:
        kinds(x, s)
    return s


def has(n, v):
    return n["v"] == v or any(has(x, v) for x in n["c"])


ALL = {"c", "cpp", "m", "mm"}
KIND_LANGS = {}
for _k in ("try", "catch", "throw", "rfor", "lambda", "bool", "cvar", "cinit"):
    KIND_LANGS[_k] = {"cpp", "mm"}
for _k in ("forin", "attry", "atcatch", "atfinally", "sync", "pool", "atthrow", "msg", "objcblock"):
    KIND_LANGS[_k] = {"m", "mm"}
KIND_LANGS["objcbool"] = {"m"}


def langs_of(n):
    out = set(ALL)

    def walk(x):
        nonlocal out
        out &= KIND_LANGS.get(x["k"], ALL)
        if x["k"] == "cast" and x["v"] == "BOOL":
            out &= {"c", "m"}
        if x["v"] in ("cx", "ce"):
            out &= {"cpp", "mm"}
        for y in x["c"]:
            walk(y)
    walk(n)
    return out


def compatible(lang, n):
    return lang in langs_of(n)
