"""Validity of model programs (they must compile) and seeded random programs beyond the bound that
TLC enumerates."""
from render import node, kinds

ATTRS = ("likely", "nomerge", "pragma")
LOOPS = {"while", "do", "for", "forin", "rfor"}


def open_if(n):
    """does printing this statement leave an 'if' that would capture a following else?"""
    k, c = n["k"], n["c"]
    if k == "if":
        return True
    if k == "ifelse":
        return open_if(c[2])
    if k in ("while",):
        return open_if(c[1])
    if k == "for":
        return open_if(c[3])
    if k in ("forin", "rfor", "label", "attr", "case", "default"):
        return open_if(c[0])
    if k == "switch":
        return open_if(c[1])
    return False


class V:
    """validity of a function body"""
    def __init__(self, body):
        self.labels = []
        self.gotos = []
        self.ok = True
        self.hasdecl_init = self.static = False
        self.st(body, loop=False, brk=False, sw=None, dsw=0, fin=False)
        if len(set(self.labels)) != len(self.labels) or not set(self.gotos) <= set(self.labels):
            self.ok = False
        if self.labels and (self.hasdecl_init or self.static):
            self.ok = False

    def st(self, n, loop, brk, sw, dsw, fin):
        k, c = n["k"], n["c"]
        a = dict(loop=loop, brk=brk, sw=sw, dsw=dsw, fin=fin)
        if k == "break" and not brk or k == "continue" and not loop:
            self.ok = False
        elif k == "goto":
            self.gotos.append(n["v"])
        elif k == "label":
            self.labels.append(n["v"])
            if c[0]["k"] == "decl":
                self.ok = False
        elif k == "attr" and c[0]["k"] in ("decl", "label", "case", "default", "attr"):
            self.ok = False
        if k in ("case", "default"):
            if sw is None:
                self.ok = False
            else:
                key = n["v"] if k == "case" else "default"
                if key in sw:
                    self.ok = False
                sw.add(key)
            if c[0]["k"] == "decl":
                self.ok = False
        if k in ("if", "ifelse"):
            if k == "ifelse" and open_if(c[1]):
                self.ok = False
            if any(x["k"] == "decl" for x in c[1:]):
                self.ok = False
            self.ex(c[0], a)
            if n["v"]:
                self.static = True
                y = c[0]["c"][1] if c[0]["k"] == "cinit" else c[0]
                while y["k"] == "par":
                    y = y["c"][0]
                if n["v"] == "cx" and y["k"] not in ("int", "bool"):
                    self.ok = False
                a = dict(a, sw=None)
            for x in c[1:]:
                self.st(x, **a)
            return
        if k in LOOPS:
            b = {"while": 1, "do": 0, "for": 3, "forin": 0, "rfor": 0}[k]
            for i, x in enumerate(c):
                if i == b:
                    if x["k"] == "decl":
                        self.ok = False
                    self.st(x, **dict(a, loop=True, brk=True, sw=sw))
                elif x["k"] == "decl":
                    self.hasdecl_init = self.hasdecl_init or bool(x["c"])
                else:
                    self.ex(x, a)
            return
        if k == "switch":
            if c[1]["k"] == "decl":
                self.ok = False
            self.ex(c[0], a)
            self.st(c[1], **dict(a, brk=True, sw=set()))
            return
        if k == "decl":
            if c:
                if sw is not None:
                    self.ok = False
                self.hasdecl_init = True
                for x in c:
                    self.ex(x, a)
            return
        if k in ("try", "attry"):
            # jumps into a protected region are errors: cases may not be inside
            for x in c:
                self.st(x, **dict(a, sw=None))
            return
        if k == "atfinally":
            # no jumps that leave @finally except return/throw; labels may not be entered
            self.st(c[0], **dict(a, loop=False, brk=False, sw=None))
            return
        if k in ("sync", "pool", "catch", "atcatch"):
            self.st(c[0], **dict(a, sw=None))
            return
        if k == "lambda":
            v = V(c[0])
            self.ok = self.ok and v.ok
            return
        if k in ("block", "label", "attr", "case", "default"):
            for x in c:
                self.st(x, **a)
            return
        for x in c:
            self.ex(x, a)

    def ex(self, n, a):
        if n["k"] in ("lambda", "objcblock"):
            v = V(n["c"][0])
            self.ok = self.ok and v.ok
            return
        if n["k"] == "stmtexpr":
            self.ok = self.ok and V(n["c"][0]).ok
            return
        if n["k"] in ("cvar", "cinit"):
            self.hasdecl_init = True
        for x in n["c"]:
            self.ex(x, a)


def valid(body):
    if body["k"] != "block":
        return False
    ks = kinds(body)
    if "label" in ks and ks & {"try", "attry", "sync", "pool", "lambda", "rfor", "forin"}:
        return False     # jumps into protected scopes
    return V(body).ok


class Rand:
    """Random function bodies over the given statement and expression kinds."""
    def __init__(self, rng, stmts, exprs=("v",), wide=3, names=("a", "b", "c"), ints=("0", "1", "2", "7")):
        self.r = rng
        self.stmts = list(stmts)
        self.exprs = list(exprs)
        self.wide = wide
        self.names, self.ints = list(names), list(ints)
        self.ctr = 0

    def fresh(self, p="d"):
        self.ctr += 1
        return "%s%d" % (p, self.ctr)

    def function(self, depth, nmax=4):
        self.labels = []
        self.gotos = []
        self.nlabel = 0
        self.budget = 60
        for _ in range(200):
            self.ctr = 0
            self.labels, self.gotos = [], []
            self.budget = 60
            n = self.block(depth, dict(loop=False, brk=False, sw=False, fin=False))
            for g in self.gotos:
                if not self.labels:
                    lb = self.fresh("L")
                    self.labels.append(lb)
                    n["c"].append(node("label", node("null"), v=lb))
                g["v"] = self.r.choice(self.labels)
            if valid(n):
                return n
        raise RuntimeError("no valid program")

    def block(self, d, cx, k=None):
        k = self.r.randint(0, self.wide) if k is None else k
        return node("block", *[self.stmt(d - 1, cx, True) for _ in range(k)])

    def body(self, d, cx):
        if self.r.random() < 0.65:
            return self.block(d, cx)
        return self.stmt(d - 1, cx, False)

    def expr(self, d):
        r = self.r
        ks = self.exprs if d > 0 else [k for k in self.exprs if k in ("v", "int", "bool")] or ["v"]
        k = r.choice(ks)
        if k == "v":
            return node("v", v=r.choice(self.names))
        if k == "int":
            return node("int", v=r.choice(self.ints))
        if k == "bool":
            return node("bool", v=r.choice(["true", "false"]))
        if k in ("land", "lor"):
            return node(k, self.opnd(d - 1), self.opnd(d - 1))
        if k == "bin":
            return node("bin", self.opnd(d - 1), self.opnd(d - 1), v=r.choice(["+", "-", "*", "<", ">", "==", "!=", "&", "|", "^", "%", ","]) )
        if k == "asg":
            return node("asg", node("v", v=r.choice(self.names)), self.opnd(d - 1), v=r.choice(["=", "+=", "-="]))
        if k == "cond":
            return node("cond", self.opnd(d - 1), self.opnd(d - 1), self.opnd(d - 1))
        if k == "elvis":
            return node("elvis", self.opnd(d - 1), self.opnd(d - 1))
        if k == "un":
            return node("un", self.opnd(d - 1), v=r.choice(["!", "-", "~", "+"]))
        if k == "par":
            e = self.expr(d - 1)
            return node("par", node("par", e)) if r.random() < 0.25 else node("par", e)
        if k == "cast":
            return node("cast", self.opnd(d - 1), v="int")
        if k == "call":
            return node("call", *[self.arg(d - 1) for _ in range(r.randint(0, 2))], v="g")
        if k == "sub":
            return node("sub", node("v", v="arr"), self.expr(d - 1))
        if k == "lambda":
            return node("call", *([] if d < 2 else [node("lambda", self.block(d - 1, dict(loop=False, brk=False, sw=False, fin=False)))]), v="g")
        raise ValueError(k)

    def arg(self, d):
        e = self.expr(d)
        return node("par", e) if e["k"] == "bin" and e["v"] == "," else e

    def opnd(self, d):
        """operand that needs no parentheses to keep the tree shape"""
        e = self.expr(d)
        if e["k"] in ("v", "int", "bool", "par", "call", "sub") or (e["k"] == "un"):
            return e
        return node("par", node("par", e)) if self.r.random() < 0.1 else node("par", e)

    def stmt(self, d, cx, inblock):
        r = self.r
        self.budget -= 1
        ks = self.stmts
        if d <= 0 or self.budget <= 0:
            ks = [k for k in ks if k in ("null", "e", "expr", "break", "continue", "return", "goto", "throw", "atthrow", "decl")]
        for _ in range(50):
            k = r.choice(ks)
            if k == "break" and not cx["brk"] or k == "continue" and not cx["loop"]:
                continue
            if k == "decl" and not inblock:
                continue
            if k in ("case", "default", "atcatch", "catch"):
                continue
            break
        else:
            k = "e"
        inner = dict(cx, loop=True, brk=True)
        if k in ("null", "e", "break", "continue"):
            return node(k)
        if k == "expr":
            e = self.expr(2)
            return node("expr", e)
        if k == "return":
            if r.random() < 0.3:
                return node("return")
            return node("return", self.expr(2))
        if k == "goto":
            g = node("goto", v="?")
            self.gotos.append(g)
            return g
        if k == "throw":
            return node("expr", node("throw", self.opnd(1)))
        if k == "atthrow":
            return node("atthrow", node("v", v="coll"))
        if k == "decl":
            x = [self.opnd(1)] if r.random() < 0.5 else []
            return node("decl", *x, v=self.fresh())
        if k == "block":
            return self.block(d, cx)
        if k == "label":
            lb = self.fresh("L")
            self.labels.append(lb)
            return node("label", self.stmt(d - 1, cx, False), v=lb)
        if k == "attr":
            for _ in range(20):
                s = self.stmt(d - 1, cx, False)
                if s["k"] not in ("label", "attr"):
                    return node("attr", s, v=r.choice(ATTRS))
            return node("attr", node("e"), v=r.choice(ATTRS))
        if k == "if":
            return node("if", self.expr(2), self.body(d, cx))
        if k == "ifelse":
            t = self.body(d, cx)
            if open_if(t):
                t = node("block", t)
            return node("ifelse", self.expr(2), t, self.body(d, cx))
        if k == "while":
            return node("while", self.expr(2), self.body(d, inner))
        if k == "do":
            return node("do", self.body(d, inner), self.expr(2))
        if k == "for":
            i = r.choice(["none", "decl", "expr"])
            ini = node("none") if i == "none" else node("decl", self.opnd(1), v=self.fresh("i")) if i == "decl" else node("asg", node("v", v=r.choice(self.names)), node("int", v="0"), v="=")
            return node("for", ini, node("none") if r.random() < 0.3 else self.expr(2), node("none") if r.random() < 0.3 else self.expr(2), self.body(d, inner))
        if k in ("rfor", "forin"):
            return node(k, self.body(d, inner), v=self.fresh("x"))
        if k == "switch":
            return self.switch(d, cx)
        if k == "try":
            hs = [node("catch", self.block(d, cx), v=t) for t in r.sample(["int", "long", "char"], r.randint(0, 2))]
            if not hs or r.random() < 0.4:
                hs.append(node("catch", self.block(d, cx), v="..."))
            return node("try", self.block(d, cx), *hs)
        if k == "attry":
            ts = ["NSException *", "Other *", "id"][:r.choice([0, 1, 2, 2, 3])]
            if len(ts) == 1:
                ts = ["id"]
            hs = [node("atcatch", self.block(d, cx), v=self.fresh("ex"), ty=t) for t in ts]
            if not hs or r.random() < 0.6:
                hs.append(node("atfinally", self.block(d, dict(loop=False, brk=False, sw=False, fin=True))))
            return node("attry", self.block(d, cx), *hs)
        if k in ("sync", "pool"):
            return node(k, self.block(d, cx))
        raise ValueError(k)

    def switch(self, d, cx):
        r = self.r
        inner = dict(cx, brk=True, sw=True)
        if r.random() < 0.08:
            return node("switch", self.expr(1), node("case", self.stmt(d - 1, inner, False), v="1"))
        items = []
        vals = list(range(1, 10))
        n = r.randint(0, 4)
        tags = ["case"] * n
        if r.random() < 0.6:
            tags.insert(r.randint(0, n), "default")
        if r.random() < 0.1:
            items.append(self.stmt(d - 1, inner, False))
        for tg in tags:
            sub = self.stmt(d - 1, inner, False)
            if tg == "case":
                i = vals.pop(0)
                # a range of values now and then (GNU)
                cs = node("case", sub, v="%d ... %d" % (10 * i, 10 * i + 9) if r.random() < .08 else str(i))
                if r.random() < 0.15 and sub["k"] != "decl":
                    cs = node("case", cs, v=str(vals.pop(0)))
            else:
                cs = node("default", sub)
            items.append(cs)
            for _ in range(r.randint(0, 2)):
                items.append(self.stmt(d - 1, inner, False))
            if r.random() < 0.5:
                items.append(node("break"))
        return node("switch", self.expr(1), node("block", *items))


def modern(body, rng, fresh, p=0.3):
    """conditions of C++17 and later, in a random program"""
    import copy
    body = copy.deepcopy(body)
    jumps = "label" in kinds(body)

    def ini(x):
        i = rng.randrange(4)
        return node("decl", x, v=fresh("y")) if i < 2 else node("expr", x) if i == 2 else node("null")

    def val():
        x = node("v", v=rng.choice("abc"))
        y = rng.choice([x, x, node("par", x), node("land", x, node("v", v="b")), node("bin", x, node("v", v="b"), v=rng.choice("&+")),
                        node("un", x, v="!"), node("cond", x, node("v", v="b"), node("v", v="c"))])
        return y

    def walk(n):
        for x in n["c"]:
            walk(x)
        k = n["k"]
        if jumps or k not in ("if", "ifelse", "while", "for", "switch") or rng.random() >= p:
            return
        i = 1 if k == "for" else 0
        how = rng.choice(["init", "init", "var", "var", "initvar", "cx", "ce"])
        if how in ("cx", "ce"):
            if k not in ("if", "ifelse"):
                return
            n["v"] = how
            if how == "cx":
                n["c"][0] = rng.choice([node("int", v="1"), node("int", v="0"), node("bool", v="true"), node("par", node("bool", v="false"))])
                if rng.random() < .2:
                    n["c"][0] = node("cinit", ini(val()), n["c"][0])
            else:
                n["c"][0] = node("none")
                for j in range(1, len(n["c"])):
                    if n["c"][j]["k"] != "block":
                        n["c"][j] = node("block", n["c"][j])
            return
        if how in ("var", "initvar") and not (k == "switch" and n["v"]):
            n["c"][i] = node("cvar", val(), v=fresh("w"))
        if how in ("init", "initvar") and k in ("if", "ifelse", "switch"):
            n["c"][0] = node("cinit", ini(val()), n["c"][0])
    walk(body)
    return body


PRIM = ("v", "int", "bool", "par", "call", "sub", "objcbool", "str")


def mutate(body, rng, times=1, exprs=True):
    """A neighbour of a program: a statement added, removed, moved, doubled or wrapped, or an
    expression put in parentheses.  Validity is up to the caller."""
    import copy
    body = copy.deepcopy(body)

    def blocks(n, out):
        if n["k"] == "block":
            out.append(n)
        for x in n["c"]:
            blocks(x, out)
        return out

    def ops(n, out):
        for i, x in enumerate(n["c"]):
            if x["k"] in ("v", "int", "bool", "par", "land", "lor", "bin", "asg", "cond", "un", "post", "call", "cast", "sub", "elvis") \
                    and n["k"] not in ("msg", "sub", "throw", "atthrow", "post", "asg") and not (n["k"] == "un" and n["v"] in ("++", "--")) \
                    and not (n["k"] == "case"):
                out.append((n, i))
            ops(x, out)
        return out

    for _ in range(times):
        bs = blocks(body, [])
        b = rng.choice(bs)
        k = rng.choice(["ins", "ins", "ins", "del", "dup", "wrap", "swap", "par", "par", "lop", "body"])
        if k == "ins":
            x = rng.choice([node("null"), node("null"), node("e"), node("block"), node("block", node("null")), node("block", node("e")),
                            node("decl", v="m%d" % rng.randrange(1000)), node("return"), node("if", node("v", v="a"), node("null")),
                            node("expr", node("v", v="a")), node("while", node("v", v="b"), node("block"))])
            b["c"].insert(rng.randint(0, len(b["c"])), x)
        elif k == "del" and b["c"]:
            b["c"].pop(rng.randrange(len(b["c"])))
        elif k == "dup" and b["c"]:
            i = rng.randrange(len(b["c"]))
            if b["c"][i]["k"] not in ("decl", "label", "case", "default"):
                b["c"].insert(i, copy.deepcopy(b["c"][i]))
        elif k == "wrap" and b["c"]:
            i = rng.randrange(len(b["c"]))
            if b["c"][i]["k"] not in ("case", "default"):
                b["c"][i] = node("block", b["c"][i])
        elif k == "swap" and len(b["c"]) > 1:
            i = rng.randrange(len(b["c"]) - 1)
            b["c"][i], b["c"][i + 1] = b["c"][i + 1], b["c"][i]
        elif k == "body" and len(b["c"]) == 1:
            pass
        elif k in ("par", "lop") and exprs:
            es = ops(body, [])
            if es:
                n, i = rng.choice(es)
                if k == "par":
                    n["c"][i] = node("par", n["c"][i])
                    if rng.random() < 0.4:
                        n["c"][i] = node("par", n["c"][i])
                else:
                    x = n["c"][i]
                    y = x if x["k"] in PRIM else node("par", x)
                    n["c"][i] = node("par", node(rng.choice(["land", "lor"]), *rng.sample([y, node("v", v="b")], 2)))
    return body
