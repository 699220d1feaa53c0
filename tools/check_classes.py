"""C20: rules over C++ class hierarchies."""
import sys
import copy
import rulelib
import vlib
from render import Printer, fmt

CFG = """CONSTANTS MaxClasses=%d
MaxBases=%d
Dtors={%s}
Accs={%s}
Methods={%s}
Statics={%s}
INIT Init
NEXT Next
INVARIANT Emit Laws
"""
q = lambda xs: ",".join('"%s"' % x for x in xs)
ENUM = [(2, 1, ["none", "pub", "pubv", "prot", "protv", "priv", "privv"], ["public", "protected", "private"], ["none", "m", "vm"], ["none"]),
        (3, 2, ["none", "pubv", "prot"], ["public", "private"], ["none", "vm"], ["none"]),
        (4, 1, ["none", "pubv"], ["public"], ["none", "vm"], ["none"]),
        (2, 1, ["none", "pubv"], ["public", "private"], ["none", "m", "vm", "vmd", "md", "vo", "od"], ["none"]),
        (2, 1, ["none"], ["public"], ["none", "vmd"], ["none", "priv", "prot", "mix"])]


def show(H, idx, rng, lang):
    """prints a hierarchy; returns lines and the hierarchy with names and ranges"""
    H = copy.deepcopy(H)
    p = Printer(rng, rng.choice([0, 0, 1, 2]), lang)
    priv = any(d["acc"] == "private" for c in H for d in c["dtor"])    # then derived destructors cannot be defined
    local = rng.random() < 0.15 and not any(c["sd"] for c in H) and not priv
    ns = not local and rng.random() < 0.2
    for c in H:
        c["name"] = "%s_%d" % (c["name"], idx)
    if ns:
        p.t(rng.choice(["namespace N%d {" % idx, "namespace {", "namespace A%d { namespace B {" % idx]))
        closing = "}" * p.cur.count("{")
        p.brk()
    if local:
        p.t("void fn%d() {" % idx)
        p.brk()

    def rng_of(b):
        return (b, p.last)
    fwd = not local and rng.random() < 0.3
    if fwd:
        for c in H:
            if rng.random() < 0.7:
                p.t("class %s;" % c["name"])
                p.brk()
    for c in H:
        kw = rng.choice(["struct", "class"])
        b = p.t(kw)
        p.t(c["name"])
        if c["bases"]:
            p.t(":")
            for i, x in enumerate(c["bases"]):
                if i:
                    p.t(",", False)
                if x["virt"]:
                    p.t("virtual")
                if x["acc"] != ("public" if kw == "struct" else "private") or rng.random() < 0.5:
                    p.t(x["acc"])
                p.t(H[x["i"] - 1]["name"])
        p.t("{")
        p.ind += 1
        items = [("d", x, x["acc"]) for x in c["dtor"]] + [("m", x, x["acc"]) for x in c["ms"]] + [("s", x, x["acc"]) for x in c["sd"]]
        rng.shuffle(items)
        for j, x in enumerate(c["sd"]):
            x["name"] = "d%d" % j
        cur = "public" if kw == "struct" else "private"
        outs = []
        nested = rng.random() < 0.15
        for what, x, acc in items:
            p.brk()
            if acc != cur or rng.random() < 0.2:
                p.t(acc + ":")
                p.brk()
                cur = acc
            if what == "d":
                if x["virt"]:
                    p.t("virtual")
                p.t("~" + c["name"])
                p.t("()", False)
                if local or rng.random() < 0.3 and not priv:
                    p.t("{ }")
                p.semi()
            elif what == "m":
                ov = ""
                if x["stat"]:
                    b0 = p.t("static")
                    p.t("int")
                elif x["virt"]:
                    b0 = p.t("virtual")
                    p.t("int")
                else:
                    b0 = p.t("int")
                p.t(x["name"])
                p.t("(", False)
                n = {"m": 1, "o": 2}.get(x["name"], 1)
                for i in range(n):
                    if i:
                        p.t(",", False)
                    p.t("int")
                    p.t("a%d" % i)
                    if x["def"] and i == n - 1:
                        p.t("=")
                        p.t("1")
                p.t(")", False)
                if local or rng.random() < 0.4:
                    p.t("{")
                    p.t("return 0;")
                    p.t("}")
                    x["p"] = fmt(rng_of(b0))
                else:
                    x["p"] = fmt(rng_of(b0))
                    p.semi()
                    if rng.random() < 0.4:
                        outs.append(("m", x, n))
            else:
                b0 = p.t("static")
                p.t("int")
                p.t(x["name"])
                x["p"] = fmt(rng_of(b0))
                p.semi()
                if rng.random() < 0.5:
                    outs.append(("s", x, 0))
        p.ind -= 1
        p.brk()
        p.t("}")
        c["p"] = fmt(rng_of(b))
        p.semi()
        p.brk()
        if not local:
            for what, x, n in outs:
                b0 = p.t("int")
                p.t(c["name"] + "::" + x["name"])
                if what == "s":
                    p.t("=")
                    p.t("1")
                    x["out"] = [fmt(rng_of(b0))]
                    p.semi()
                else:
                    p.t("(" + ", ".join(["int"] * n) + ")", False)
                    p.t("{ return 1;")
                    p.t("}")
                    x["out"] = [fmt(rng_of(b0))]
                p.brk()
        if fwd and rng.random() < 0.5:
            p.t("class %s;" % c["name"])
            p.brk()
    if local:
        p.t("}")
    if ns:
        p.t(closing)
    for c in H:
        for x in c["sd"]:
            x.pop("name", None)
    lines = p.finish()
    return lines, H


def random_hierarchy(r):
    H = []
    n = r.randint(3, 9)
    virt = r.random() < 0.3
    for k in range(n):
        bases, seen = [], set()
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            if H:
                i = r.randrange(len(H))
                if i not in seen:
                    seen.add(i)
                    vb = virt and r.random() < 0.4
                    # (private inheritance of a virtual base would hide the most basic destructor from every later class)
                    bases.append({"i": i + 1, "acc": r.choice(["public"] * 4 + ["protected" if virt else "private", "protected"]), "virt": vb})
        dtor = [] if r.random() < 0.5 else [{"acc": r.choice(["public", "public", "protected"]), "virt": r.random() < 0.5}]
        ms = []
        for nm in ["m", "o", "k"]:
            if r.random() < 0.25:
                ms.append({"name": nm if not virt else "%s%d" % (nm, k), "p": "", "virt": r.random() < 0.5, "def": r.random() < 0.4, "stat": False,
                           "acc": r.choice(["public", "private", "protected"]), "out": []})
        for nm in ["s", "t"]:
            if r.random() < 0.15:
                ms.append({"name": nm, "p": "", "virt": False, "def": r.random() < 0.3, "stat": True, "acc": r.choice(["public", "private", "protected"]), "out": []})
        sd = [{"acc": r.choice(["public", "private", "protected"]), "p": "", "out": []} for _ in range(r.choice([0, 0, 0, 1, 2]))]
        H.append({"name": "K%d" % (k + 1), "p": "", "bases": bases, "dtor": dtor, "ms": ms, "sd": sd})
    return H


def check(c):
    th = c.thorough
    R = rulelib.Runner(c, ["BaseClassDestructorShouldBeVirtualOrProtected", "DestructorOfVirtualClass", "AvoidDefaultArgumentsOnVirtualMethods", "AvoidPrivateStaticMembers"], dups=False)
    Hs = []
    cap = 6000 if th else 1000
    n = 0
    for (mx, mb, ds, ac, ms, ss) in ENUM:
        out = c.model("GenClasses", CFG % (mx + (1 if th and mx == 2 else 0), mb, q(ds), q(ac), q(ms), q(ss)))
        n += len(out)
        big = [h for h in out if len(h) >= mx]
        Hs += c.rng.sample(big, cap) if len(big) > cap else big
    c.extra["hierarchies_of_the_model"] = n
    c.extra["hierarchies_enumerated"] = len(Hs)
    Hs += [random_hierarchy(c.rng) for _ in range(2000 if th else 400)]
    jobs = []
    for i, h in enumerate(Hs):
        lang = "mm" if i % 12 == 5 else "cpp"
        lines, hh = show(h, i, c.rng, lang)
        jobs.append({"lang": lang, "lines": lines, "rec": {"H": hh, "cxx": lang == "cpp"}, "key": "x"})
    rulelib.conformance(c, R, "classes", jobs, per_tu=150)
    c.assumptions += ["clang builds the class hierarchy that was printed (checked through the ranges of reported declarations)"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
