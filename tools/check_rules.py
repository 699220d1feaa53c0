"""C15-C18: rules over statements and conditions."""
import sys
import gen
import rulelib
import vlib
from render import node, kinds

q = lambda xs: ",".join('"%s"' % x for x in xs)
CFG = """CONSTANTS MaxWeight=%d
MaxStack=%d
MaxArity=%d
Kinds={%s}
Conditions={%s}
Exprs={%s}
Leaves0={%s}
INIT Init
NEXT Next
INVARIANT Emit %s
"""


def run(w, st, ar, ks, cs=("a",), ex=(), lv=()):
    return (w, st, ar, list(ks), list(cs), list(ex), list(lv))


STM = ["null", "e", "expr", "break", "continue", "return", "decl", "block", "if", "ifelse", "while", "do", "for", "switch", "if", "ifelse", "switch"]
EX = ["v", "int", "land", "lor", "bin", "asg", "cond", "un", "par", "cast", "call", "sub", "elvis"]
PAR = {
    "C15": dict(rules=["EmptyIfStatement", "EmptyElseBlock", "EmptyWhileStatement", "EmptyDoWhileStatement", "EmptyForStatement",
                       "EmptySwitchStatement", "EmptyTryStatement", "EmptyCatchStatement", "EmptyFinallyStatement"],
                fam="empty", inv="EmptyInv", dups=True,
                enum=[run(5, 5, 2, ["null", "if", "ifelse", "while", "do", "for", "switch"]),
                      run(5, 5, 2, ["null", "forin", "rfor", "label", "sync", "if", "decl"]),
                      run(5, 5, 1, ["e", "try", "attry", "null"], ("a",), ["lambda"], ["a"]),
                      run(4, 5, 1, ["null", "ifinit", "ifcx", "ifce", "swinit", "while", "for"], ("var",))]),
    "C16": dict(rules=["SwitchStatementsShouldHaveDefault", "CoveredSwitchStatementsDontNeedDefault", "TooFewBranchesInSwitchStatement",
                       "MissingBreakInSwitchStatement", "DefaultLabelNotLastInSwitchStatement", "NonCaseLabelInSwitchStatement"],
                fam="switch", inv="SwitchInv", dups=False,
                enum=[run(7, 5, 4, ["e", "break", "switch"]),
                      run(6, 5, 4, ["break", "enum"]),
                      run(6, 4, 2, ["break", "continue", "ret0", "while", "if", "ifelse", "switch", "swcase"]),
                      run(5, 4, 2, ["throw", "goto", "label", "e", "switch", "for"]),
                      run(6, 4, 2, ["atthrow", "label", "e", "switch", "sync"]),
                      run(5, 4, 3, ["break", "ifce", "swinit"])]),
    "C17": dict(rules=["CollapsibleIfStatements", "RedundantIfStatement", "RedundantConditionalOperator", "InvertedLogic", "UnnecessaryElseStatement",
                       "ConstantIfExpression", "ConstantConditionalOperator", "DoubleNegative", "MultipleUnaryOperator",
                       "BitwiseOperatorInConditional", "BrokenOddnessCheck", "UselessParentheses"],
                fam="conds", inv="CondsInv", dups=True,
                enum=[run(6, 4, 2, ["e", "if", "ifelse", "ret0"]),
                      run(6, 4, 2, ["null", "if", "ifelse"]),
                      run(5, 4, 2, ["if", "ifelse", "while", "null", "ret0"], ("a", "not", "ne", "one")),
                      run(5, 2, 1, ["ifelse", "ret"], ("a",), ["castbool", "par", "castint"], ["a", "0", "1", "true", "false", "yes", "no"]),
                      run(6, 2, 1, ["ifelse", "ret"], ("a",), ["castbool"], ["1", "true", "false", "yes", "no"]),
                      run(5, 2, 1, ["ifelse", "asgs"], ("a",), ["castbool", "par"], ["0", "1", "true", "false", "yes", "no", "q"]),
                      run(5, 2, 1, ["ifelse", "bins"], ("a",), ["castbool", "castint"], ["0", "1", "true", "false", "yes"]),
                      run(5, 2, 1, ["ifelse", "bins", "asgs", "ret"], ("a",), ["castbool"], ["true", "false"]),
                      run(5, 2, 1, ["if", "expr", "ret", "decle"], ("hole",), ["par", "u!", "u~", "u-", "u+", "inc", "castint"], ["a", "q"]),
                      run(4, 3, 1, ["if", "while", "expr"], ("hole",), ["par", "b&", "b+", "b!="], ["a"]),
                      run(4, 3, 1, ["if", "ret", "do", "for", "expr"], ("hole",), ["par", "b|", "b^", "cond", "call", "sub", "land"], ["a"]),
                      run(4, 3, 1, ["if"], ("hole",), ["par", "land", "lor", "u!", "b<", "b,"], ["a", "0", "1"]),
                      run(4, 3, 1, ["if"], ("hole",), ["land", "cond", "b==", "par", "b%"], ["a", "0", "2"]),
                      run(3, 3, 1, ["expr"], (), ["cond", "castbool", "str"], ["a", "b", "q", "0", "1", "true", "yes"]),
                      run(3, 3, 1, ["expr"], (), ["cond", "castbool"], ["true", "false", "yes", "no", "0"]),
                      run(3, 3, 1, ["expr"], (), ["cond", "par", "elvis"], ["a", "q", "1", "true"]),
                      run(4, 3, 1, ["ret", "decle"], (), ["cond", "par", "u!"], ["a", "q", "1", "true"]),
                      run(4, 3, 1, ["if", "expr", "ret"], ("hole",), ["odd", "par", "call"], ["a", "2"]),
                      run(4, 4, 2, ["if", "ifelse", "ifinit", "ifcx", "ifce", "ret0"], ("a", "var")),
                      run(4, 4, 1, ["ifelse", "ifinit", "ifcx", "ifce", "ret"], ("var", "ne"), (), ["true", "false"])]),
    "C18": dict(rules=["DeadCode", "GotoStatement", "ReturnFromFinallyBlock", "ThrowExceptionFromFinallyBlock", "AvoidBranchingStatementAsLastInLoop",
                       "ForLoopShouldBeWhileLoop", "JumbledIncrementer", "PreferEarlyExit"],
                fam="jumps", inv="JumpsInv", dups=False,
                enum=[run(6, 4, 2, ["e", "break", "continue", "ret0", "if", "ifelse", "while"]),
                      run(5, 4, 3, ["e", "goto", "label", "switch", "break", "do"]),
                      run(5, 4, 2, ["e", "throw", "ret0", "try", "ifelse", "rfor", "break"]),
                      run(6, 4, 2, ["e", "ret0", "atthrow", "raise", "finally", "if"]),
                      run(5, 4, 2, ["break", "forin", "sync", "atthrow", "for", "ifelse", "attry"]),
                      run(5, 4, 2, ["e", "forv", "break"]),
                      run(4, 4, 2, ["ret0", "break", "ifinit", "ifcx", "ifce", "while", "for"], ("a", "var"))]),
}


def enums(c, body):
    """switches over the enumeration in random programs"""
    def walk(n):
        if n["k"] == "switch" and not n["v"] and c.rng.random() < 0.35:
            own = []

            def cases(y):
                if y["k"] in ("case", "default"):
                    own.append(y)
                if y["k"] not in ("switch", "lambda"):
                    for z in y["c"]:
                        cases(z)
            cases(n["c"][1])
            cs = [x for x in own if x["k"] == "case"]
            if len(cs) <= 3:
                es = ["E1", "E2", "E3"]
                c.rng.shuffle(es)
                for x, e in zip(cs, es):
                    x["v"] = e
                n["v"] = "enum"
                n["c"][0] = node("v", v="en")
        for x in n["c"]:
            walk(x)
    walk(body)
    return body


def long_ifs(c, body):
    """makes some ifs long enough to matter for the early exit rule"""
    def walk(n):
        if n["k"] == "if" and n["c"][1]["k"] == "block" and c.rng.random() < 0.4:
            n["c"][1]["c"] = [node("e") for _ in range(c.rng.choice([1, 2, 3, 12, 13, 14, 15, 16]))] + n["c"][1]["c"][-2:]
        for x in n["c"]:
            walk(x)
    walk(body)
    return body


def literals(c, body, lang):
    """random programs: turn some operands into boolean constants of the language"""
    def lit():
        if c.rng.random() < 0.5:
            return node("v", v=c.rng.choice(["q", "r"]))
        return node("bool", v=c.rng.choice(["true", "false"]))

    def walk(n):
        for i, x in enumerate(n["c"]):
            if x["k"] in ("v", "int") and c.rng.random() < 0.2 and not (n["k"] in ("asg", "post", "sub") or n["k"] == "un" and n["v"] in ("++", "--") or n["k"] in ("switch", "atthrow", "throw") or n["k"] == "msg"):
                n["c"][i] = lit() if lang else node("v", v=c.rng.choice(["q", "r"]))
            else:
                walk(x)
    walk(body)
    return body


def forvars(c, body):
    """random for loops: nested loops that share or do not share their variables"""
    def walk(n):
        if n["k"] == "for" and c.rng.random() < 0.8:
            r = c.rng
            i = r.choice(["i", "j"])
            n["c"][0] = r.choice([node("decl", node("int", v="0"), v=i), node("none"), node("decl", node("int", v="0"), v=i),
                                  node("declm", node("decl", node("int", v="0"), v="i"), node("decl", node("int", v="0"), v="j")),
                                  node("asg", node("v", v="a"), node("int", v="0"), v="=")])
            st = node("v", v=r.choice(["i", "j", "a"]))
            n["c"][2] = r.choice([node("post", st, v="++"), node("un", st, v="++"), node("un", st, v="--"), node("none"),
                                  node("asg", st, node("int", v="1"), v="+="), node("un", st, v="-"), node("bin", node("post", st, v="++"), node("v", v="b"), v=",")])
        for x in n["c"]:
            walk(x)
    walk(body)
    return body


def check(c):
    P = PAR[c.pid]
    th = c.thorough
    R = rulelib.Runner(c, P["rules"], dups=P["dups"])
    groups = []
    cap = 6000 if th else 1200
    n_emit = 0
    for (w, st, ar, ks, cs, ex, lv) in P["enum"]:
        out = c.model("GenRules", CFG % (w + (1 if th else 0), st + (1 if th else 0), ar, q(ks), q(cs), q(ex), q(lv), P["inv"]))
        n_emit += len(out)
        if len(out) > cap * 4:
            out = c.rng.sample(out, cap * 4)
        out = [p for p in (rulelib.elaborate(x) for x in out) if p and gen.valid(p)]
        if len(out) > cap:
            out = c.rng.sample(out, cap)
        groups.append(out)
    progs = [p for g in groups for p in g]
    n_enum = len(progs)
    # neighbours of enumerated programs: one or two steps beyond the bound
    for b in (c.rng.choices(progs, k=9000 if th else 2500)):
        b = gen.mutate(b, c.rng, c.rng.choice([1, 1, 2, 3]))
        b = rulelib.elaborate(b)
        if b and gen.valid(b):
            progs.append(b)
    n_mut = len(progs) - n_enum
    CXX = STM + ["try", "throw", "rfor", "expr"]
    OBJ = STM + ["attry", "forin", "sync", "pool", "atthrow", "attry"]
    LBL = STM + ["label", "goto"]
    for ks, ex, cxx in ((STM, EX, False), (CXX, EX + ["bool", "lambda"], True), (OBJ, EX, False), (LBL, EX, False)):
        if c.pid in ("C17",):
            ks = [k for k in ks if k not in ("switch", "attry", "sync")] + ["expr", "return", "decl", "if", "ifelse", "expr"]
            ex = [e for e in ex if e != "lambda"] + ["cond", "un", "par", "un"]
        if c.pid == "C18":
            ks = ks + ["for", "while", "return", "for"]
        r = gen.Rand(c.rng, ks, ex)
        for _ in range(2500 if th else 500):
            b = r.function(c.rng.randint(2, 6))
            if c.pid == "C16":
                b = enums(c, b)
            if c.pid == "C18":
                b = long_ifs(c, forvars(c, b))
            if c.pid == "C17":
                b = literals(c, b, cxx)
            b = rulelib.elaborate(b)
            if b and gen.valid(b):
                progs.append(b)
                if cxx and c.rng.random() < .6:
                    progs.append(rulelib.elaborate(gen.modern(b, c.rng, r.fresh)))
    c.extra["programs_of_the_model"] = n_emit
    c.extra["programs_enumerated"] = n_enum
    c.extra["programs_mutated"] = n_mut
    c.extra["programs_random"] = len(progs) - n_enum - n_mut

    def rec(b, i, lang):
        if c.pid == "C15":
            return {}
        if c.pid == "C16":
            lim = [3, 3, 0, 1, 2, 5][c.rng.randrange(6)] if i % 2 else 3
            return {"args": () if lim == 3 else ("-rc", "MINIMUM_CASES_IN_SWITCH=%d" % lim), "rec": {"lim": {"cases": lim}}}
        if c.pid == "C18":
            lim = [15, 15, 0, 1, 2, 14][c.rng.randrange(6)] if i % 2 else 15
            return {"args": () if lim == 15 else ("-rc", "MAXIMUM_IF_LENGTH=%d" % lim), "rec": {"lim": {"early": lim}}}
        cxx = lang in ("cpp", "mm")
        bt = "bool" if cxx else "BOOL"
        rt = b["rt"]
        t = "void"
        if rt != "void":
            t = "bool" if c.rng.random() < 0.5 else "int"
        return {"rec": {"rt": t, "cxx": cxx}, "rt": bt if t == "bool" else t, "params": "int a, int b, int c, %s q, %s r" % (bt, bt)}
    jobs = rulelib.make_jobs(progs, ["c", "cpp", "m", "mm"], c.rng, rec, styles=(0, 1, 2) if c.pid != "C18" else (0, 0, 2), byl=True)
    rulelib.conformance(c, R, P["fam"], jobs)
    c.assumptions += ["clang's parse of the printed program is the tree the specification was given (checked through the ranges of reported nodes)"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
