"""C14: size and naming limits."""
import sys
import declprint
import rulelib
import vlib
from render import node

CFG = """CONSTANTS MaxWeight=%d
MaxStack=%d
MaxArity=%d
Kinds={%s}
NameLens={%s}
Pads={%s}
INIT Init
NEXT Next
INVARIANT Emit Laws
"""
q = lambda xs: ",".join('"%s"' % x for x in xs)
RULES = ["LongLine", "LongMethod", "LongClass", "TooManyFields", "TooManyMethods", "TooManyParameters", "LongVariableName", "ShortVariableName"]
KEYS = {"line": ("LONG_LINE", 100), "method": ("LONG_METHOD", 50), "class": ("LONG_CLASS", 1000), "fields": ("TOO_MANY_FIELDS", 20),
        "methods": ("TOO_MANY_METHODS", 30), "params": ("TOO_MANY_PARAMETERS", 10), "long": ("LONG_VARIABLE_NAME", 20), "short": ("SHORT_VARIABLE_NAME", 3)}
#        weight stack arity kinds names pads
ENUM = [(4, 3, 3, ["par", "fn", "tfn", "proto", "unit"], [5], [0, 1]),
        (5, 3, 2, ["cls1", "fld", "mdecl", "ctor", "fn"], [5], [0, 2]),
        (5, 3, 3, ["cls1", "fld", "union", "fwd", "unit"], [5], [0]),
        (5, 3, 2, ["fn", "cls1", "fld"], [5], [0, 1, 3]),
        (5, 3, 2, ["oc", "oprop", "ocat", "mdef", "omdecl", "ofwd", "par"], [4], [0, 2]),
        (4, 3, 2, ["fn", "var", "for", "par"], [1, 2, 4], [0]),
        (4, 3, 1, ["fn", "rfor", "catch", "lambda", "par", "var", "gvar", "unit"], [1, 3], [0]),
        (4, 3, 1, ["fn", "forin", "atcatch", "blk", "par", "for", "oc", "mdef", "cls1", "smem"], [1, 3], [0])]
CXX = {"tfn", "ctor", "dtor", "mdecl", "smem", "clsfwd", "rfor", "try", "lambda"}
OBJC = {"oc", "ocfwd", "prot", "ext", "forin", "attry", "blk", "omdecl", "mdef", "iface", "impl"}


def langs(n):
    out = {"c", "cpp", "m", "mm"}
    dt = []

    def walk(x, inside, local):
        k = x["k"]
        if k in CXX or k == "cls" and x["v"] == "class" or inside == "cls" and k == "fn":
            out.difference_update({"c", "m"})
        if k in OBJC:
            out.difference_update({"c", "cpp"})
        if k == "smem" and (local or dt and dt[-1] == "union"):
            out.clear()
        if k == "dtor" and sum(y["k"] == "dtor" for y in inside_node[-1]["c"]) > 1:
            out.clear()
        if k in ("fn", "proto", "gvar", "tfn") and local and inside != "cls":
            out.clear()
        if k == "cls":
            dt.append(x["v"])
        inside_node.append(x)
        for y in x["c"]:
            walk(y, k, local or k == "body")
        inside_node.pop()
        if k == "cls":
            dt.pop()
    inside_node = [n]
    walk(n, "top", False)
    return sorted(out)


class Rand:
    """random units around given limits"""
    def __init__(self, rng, L):
        self.r, self.L = rng, L

    def near(self, lim, lo=0):
        return max(lo, lim + self.r.choice([-1, 0, 1, 1, 2, -lim // 2]))

    def nm(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            return "#%d" % self.near(self.L["long"], 1)
        if x < 0.35:
            return "#%d" % max(1, self.L["long"] + r.choice([9, 10, 11, 12, 25]))
        if x < 0.65:
            return "#%d" % self.near(self.L["short"], 1)
        return "#%d" % r.randint(2, 12)

    def body(self, depth, lang):
        r = self.r
        pad = self.near(self.L["method"] - 2) if r.random() < 0.4 else r.randint(0, 3)
        return node("body", *[self.item(depth - 1, lang) for _ in range(r.randint(0, 3))], v=str(pad))

    def pars(self, named=False):
        r = self.r
        k = self.near(self.L["params"]) if r.random() < 0.3 else r.randint(0, 3)
        return [node("par", v=self.nm() if named or r.random() < 0.9 else "#0") for _ in range(k)]

    def item(self, d, lang):
        r = self.r
        ks = ["var", "vars", "for"] + (["rfor", "try", "lambda"] if "pp" in lang or lang == "mm" else []) + (["forin", "attry", "blk"] if lang in ("m", "mm") else [])
        k = r.choice(ks + (["cls", "body", "for"] if d > 0 else []))
        sub = lambda: self.item(d - 1, lang) if d > 0 else node("var", v=self.nm())
        if k == "var":
            return node("var", v=self.nm())
        if k == "vars":
            return node("vars", *[node("var", v=self.nm()) for _ in range(r.randint(2, 3))])
        if k == "for":
            return node("for", *[node("loopvar", v=self.nm()) for _ in range(r.randint(0, 3))], sub())
        if k == "rfor":
            return node("rfor", node("rangevar", v=self.nm()), sub())
        if k == "forin":
            return node("forin", node("loopvar", v=self.nm()), sub())
        if k == "try":
            return node("try", node("caught", v=self.nm()), sub())
        if k == "attry":
            return node("attry", node("atcaught", v=self.nm()), sub())
        if k in ("lambda", "blk"):
            return node(k, *self.pars(), self.body(min(d, 1), lang))
        if k == "cls":
            return self.cls(d - 1, lang, True)
        return self.body(d, lang)

    def cls(self, d, lang, local=False):
        r = self.r
        cxx = lang in ("cpp", "mm")
        ms = [node("fld", v="#6") for _ in range(self.near(self.L["fields"]) if r.random() < 0.4 else r.randint(0, 3))]
        kw = r.choice(["struct", "union"] + (["class"] if cxx else []))
        if cxx:
            ms += [node("mdecl", *self.pars()) for _ in range(self.near(self.L["methods"]) if r.random() < 0.4 else r.randint(0, 3))]
            ms += [node("ctor") for _ in range(r.randint(0, 2))] + [node("dtor") for _ in range(r.randint(0, 1))]
            if not local and kw != "union":
                ms += [node("smem", v=self.nm()) for _ in range(r.randint(0, 2))]
            if d > 0:
                ms += [node("fn", *self.pars(), self.body(d - 1, lang)) for _ in range(r.randint(0, 2))]
                if r.random() < 0.3:
                    ms.append(self.cls(d - 1, lang, local))
        r.shuffle(ms)
        return node("cls", *ms, v=kw)

    def ocls(self, lang):
        r = self.r
        iv = self.near(self.L["fields"]) if r.random() < 0.4 else r.randint(0, 3)
        rw = r.randint(0, min(iv, 2))
        ro = r.randint(0, min(iv - rw, 2))
        meths = lambda: [node("mdef", *self.pars(True), self.body(1, lang)) for _ in range(self.near(self.L["methods"]) if r.random() < 0.4 else r.randint(0, 3))]
        dec = lambda: [node("omdecl", *self.pars(True)) for _ in range(r.randint(0, 3))]
        rep = lambda k, m: [node(k, v="#7" if k == "ivar" else "") for _ in range(m)]
        parts = [node("iface", *(rep("ivar", iv) + rep("proprw", rw) + rep("propro", ro) + dec()))]
        if r.random() < 0.3:
            parts.append(node("ext", *dec()))
        if r.random() < 0.8:
            parts.append(node("impl", *(rep("synrw", rw) + rep("synro", ro) + meths())))
        if r.random() < 0.3:
            parts += [node("cat", *dec()), node("catimpl", *meths())]
        return node(r.choice(["oc", "oc", "ocfwd"]), *parts)

    def unit(self, lang):
        r = self.r
        k = r.choice(["fn", "fn", "cls", "proto", "gvar"] + (["tfn", "clsfwd", "cls"] if lang in ("cpp", "mm") else []) + (["oc", "oc", "prot"] if lang in ("m", "mm") else []))
        if k in ("fn", "tfn"):
            return node(k, *self.pars(), self.body(2, lang))
        if k == "proto":
            return node(k, *self.pars())
        if k == "gvar":
            return node(k, v=self.nm())
        if k == "cls":
            return self.cls(1, lang)
        if k == "clsfwd":
            return node(k, self.cls(1, lang))
        if k == "prot":
            return node(k, *[node("omdecl", *self.pars(True)) for _ in range(r.randint(0, 3))])
        return self.ocls(lang)


def check(c):
    th = c.thorough
    R = rulelib.Runner(c, RULES, dups=False)
    trees = []
    cap = 5000 if th else 700
    n_emit = 0
    for (w, st, ar, ks, nl, pads) in ENUM:
        out = c.model("GenLimits", CFG % (w + (1 if th else 0), st, ar, q(ks), ",".join(map(str, nl)), ",".join(map(str, pads))))
        n_emit += len(out)
        out = [(t, ls) for t, ls in ((t, langs(t)) for t in out) if ls]
        if len(out) > cap:
            out = c.rng.sample(out, cap)
        trees += out
    c.extra["units_of_the_model"] = n_emit
    c.extra["units_enumerated"] = len(trees)
    rng = c.rng
    profiles = []
    for _ in range(24 if th else 8):
        profiles.append({"line": rng.choice([20, 25, 30, 40, 60]), "method": rng.randint(0, 4), "class": rng.randint(1, 5), "fields": rng.randint(0, 3),
                         "methods": rng.randint(0, 3), "params": rng.randint(0, 3), "long": rng.randint(0, 4), "short": rng.randint(0, 6)})
    jobs = []

    def job(t, ls, L, args):
        lang = rng.choice(ls)
        pr = declprint.print_unit(t, len(jobs), rng, rng.choice([0, 0, 1, 2]), lang)
        if pr is None:
            return
        lines, body = pr
        if "line" in L and rng.random() < 0.3:     # lines around the limit
            for _ in range(2):
                k = max(0, L["line"] + rng.choice([-1, 0, 1, 2, 40]))
                lines.insert(0 if rng.random() < 0 else len(lines), ("//" + rng.choice("x\t ") * k)[:k] if rng.random() < 0.8 else ("//" + "\u00e9" * k)[:max(2, k // 2 + 1)])
        rec = {"body": body, "lim": L, "cxx": lang in ("cpp", "mm"), "lens": [len(x.encode("utf-8")) for x in lines]}
        jobs.append({"lang": lang, "lines": lines, "rec": rec, "args": tuple(args), "key": "x"})
    for i, (t, ls) in enumerate(trees):
        L = profiles[i % len(profiles)]
        job(t, ls, L, [y for k in L for y in ("-rc", "%s=%d" % (KEYS[k][0], L[k]))])
    n = len(jobs)
    # the defaults, and single limits changed
    dflt = {k: v for k, (_, v) in KEYS.items()}
    for i in range(1200 if th else 160):
        L = dict(dflt)
        args = []
        if i % 2:
            k = list(KEYS)[i // 2 % 8]
            L[k] = max(1, {"line": 40, "method": 12, "class": 30, "fields": 6, "methods": 7, "params": 4, "long": 9, "short": 5}[k] + (i // 16 % 2))
            args = ["-rc", "%s=%d" % (KEYS[k][0], L[k])]
        lang = rng.choice(["c", "cpp", "cpp", "m", "mm"])
        t = Rand(rng, L).unit(lang)
        job(t, [lang], L, args)
    # class length at the default limit
    for extra in (-1, 0, 1):
        for kw, kind in (("struct", "cls"), ("iface", "oc"), ("impl", "oc"), ("prot", "prot")):
            lang = "cpp" if kind == "cls" else "m"
            pad = 1000 + extra - 2
            if kind == "cls":
                t = node("cls", *[node("smem", v="#9") for _ in range(pad)], v="struct")
            elif kw == "iface":
                t = node("oc", node("iface", *[node("omdecl") for _ in range(pad)]))
            elif kw == "prot":
                t = node("prot", *[node("omdecl") for _ in range(pad)])
            else:
                t = node("oc", node("iface"), node("impl", node("mdef", node("body", v=str(pad - 2)))))
            pr = declprint.print_unit(t, len(jobs), rng, 0, lang)
            lines, body = pr
            rec = {"body": body, "lim": dflt, "cxx": lang in ("cpp", "mm"), "lens": [len(x.encode("utf-8")) for x in lines]}
            jobs.append({"lang": lang, "lines": lines, "rec": rec, "args": (), "key": "x"})
    c.extra["units_random"] = len(jobs) - n
    rulelib.conformance(c, R, "limits", jobs, per_tu=150)
    c.assumptions += ["clang's parse of the printed declarations is the tree the specification was given (checked through the ranges of reported nodes)"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
