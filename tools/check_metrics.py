"""C10-C13: the structural metrics."""
import sys
import gen
import rulelib
import vlib
from render import node, kinds

CFG = """CONSTANTS MaxWeight=%d
MaxStack=%d
MaxArity=%d
Kinds={%s}
Conds={%s}
INIT Init
NEXT Next
INVARIANT Emit NcssFlat CcnFlat DepthChain Seq2 NPathSane
"""
q = lambda xs: ",".join('"%s"' % x for x in xs)

PAR = {
    # rule sources, config key, limit name, enumeration runs (weight, arity, kinds, conds), default limit
    "C10": dict(rule="CyclomaticComplexity", key="CYCLOMATIC_COMPLEXITY", lim="ccn", dflt=10,
                enum=[(4, 2, ["if", "ifelse", "while", "do", "for", "switch"], ["a", "and"]),
                      (4, 2, ["if", "forin", "rfor", "try", "attry", "switch", "label", "attr"], ["a", "not"]),
                      (3, 3, ["ret", "exprs", "if", "while", "for", "decl"], ["a", "and", "or", "cond", "not"]),
                      (3, 2, ["modern"], ["a", "and"])]),
    "C11": dict(rule="NPathComplexity", key="NPATH_COMPLEXITY", lim="npath", dflt=200,
                enum=[(5, 3, ["if", "ifelse", "while", "do", "for", "switch"], ["a"]),
                      (4, 2, ["if", "ifelse", "while", "do", "for", "switch", "forin"], ["or", "cond", "not"]),
                      (4, 2, ["if", "switch", "label", "attr", "rfor", "try", "attry", "sync", "pool", "exprs", "ret"], ["a", "and"]),
                      (3, 2, ["modern"], ["a", "or", "cond"])]),
    "C12": dict(rule="NcssMethodCount", key="NCSS_METHOD", lim="ncss", dflt=30,
                enum=[(5, 3, ["null", "if", "ifelse", "while", "do", "for", "switch", "forin"], ["a"]),
                      (4, 3, ["null", "label", "attr", "rfor", "try", "attry", "sync", "pool", "exprs", "ret", "decl"], ["a", "and"]),
                      (3, 2, ["modern", "null"], ["a"])]),
    "C13": dict(rule="NestedBlockDepth", key="NESTED_BLOCK_DEPTH", lim="depth", dflt=5,
                enum=[(5, 2, ["if", "ifelse", "while", "do", "for", "switch", "forin"], ["a"]),
                      (5, 2, ["label", "attr", "rfor", "try", "attry", "sync", "pool", "if"], ["a"]),
                      (4, 2, ["modern"], ["a"])]),
}
CORO = """#if defined(__cpp_impl_coroutine)
namespace std {
template <class R, class... A> struct coroutine_traits { using promise_type = typename R::promise_type; };
template <class P = void> struct coroutine_handle { static coroutine_handle from_address(void *); template <class Q> operator coroutine_handle<Q>(); };
}
struct Sus { bool await_ready() noexcept; void await_suspend(std::coroutine_handle<>) noexcept; void await_resume() noexcept; };
struct Co { struct promise_type { Co get_return_object(); Sus initial_suspend(); Sus final_suspend() noexcept; void return_void(); void unhandled_exception(); }; };
#endif
"""
STM = ["null", "e", "expr", "break", "continue", "return", "decl", "block", "if", "ifelse", "while", "do", "for", "switch", "if", "ifelse", "switch"]
CXX = STM + ["try", "throw", "rfor", "expr", "attr"]
OBJ = STM + ["attry", "forin", "sync", "pool", "atthrow", "attr"]
LBL = STM + ["label", "goto", "attr"]
EX = ["v", "int", "land", "lor", "bin", "asg", "cond", "un", "par", "cast", "call", "sub", "elvis"]


def big_npath(n, k):
    """n sequential ifs with k-way decisions: products beyond 2**31"""
    return node("block", *[node("if", node("land", node("v", v="a"), node("v", v="b")) if i % k == 0 else node("v", v="a"), node("null")) for i in range(n)])


def check(c):
    P = PAR[c.pid]
    thorough = c.thorough
    R = rulelib.Runner(c, [P["rule"]], header=rulelib.HEADER.replace("#else", CORO + "#else", 1))
    progs = []
    for (w, ar, ks, cs) in P["enum"]:
        progs += c.model("GenMetrics", CFG % (w + (1 if thorough else 0), 5, ar, q(ks), q(cs)))
    progs = [p for p in (rulelib.elaborate(x) for x in progs) if p and gen.valid(p)]
    n_enum = len(progs)
    for b in c.rng.choices(progs, k=8000 if thorough else 2000):
        b = rulelib.elaborate(gen.mutate(b, c.rng, c.rng.choice([1, 1, 2, 3])))
        if b and gen.valid(b):
            progs.append(b)
    n_mut = len(progs) - n_enum
    for ks, ex in ((STM, EX), (CXX, EX + ["bool", "lambda"]), (OBJ, EX), (LBL, EX)):
        r = gen.Rand(c.rng, ks, ex)
        for _ in range(2500 if thorough else 400):
            progs.append(rulelib.elaborate(r.function(c.rng.randint(2, 7))))
            if ks is CXX and c.rng.random() < .5:
                progs.append(rulelib.elaborate(gen.modern(progs[-1], c.rng, r.fresh)))
    if c.pid == "C11":
        progs += [rulelib.elaborate(big_npath(n, k)) for n in (5, 15, 20, 29, 30, 31, 32, 33, 40, 61, 62, 63, 64, 65, 96, 128, 200) for k in (1, 2, 500)]
    if c.pid == "C13":
        for d in (4, 5, 6, 12, 30):
            b = node("block")
            for i in range(d):
                b = node("block", node(["if", "while"][i % 2], node("v", v="a"), b))
            progs.append(rulelib.elaborate(b))
    c.extra["programs_enumerated"] = n_enum
    c.extra["programs_mutated"] = n_mut
    c.extra["programs_random"] = len(progs) - n_enum - n_mut

    lims = [0, None, 1, 2, 3, 5, -1]

    def rec(b, i):
        # limit 0 makes every function show its value; the other limits probe the comparison
        lim = 0 if i % 3 else lims[c.rng.randrange(len(lims))]
        if lim is None:
            return {"args": (), "rec": {"lim": {P["lim"]: P["dflt"]}}}
        return {"args": ("-rc", "%s=%d" % (P["key"], lim)), "rec": {"lim": {P["lim"]: lim}}}
    jobs = rulelib.make_jobs(progs, ["c", "cpp", "m", "mm"], c.rng, rec)
    # the same bodies as coroutines, and as function try blocks
    co = [b for b in progs if not kinds(b) & {"return", "objcblock"}]
    co = [dict(b, c=b["c"] + [node("coret")], rt="Co") for b in c.rng.sample(co, min(len(co), 200))]
    jobs += rulelib.make_jobs(co, ["cpp"], c.rng, lambda b, i: dict(rec(b, i), rt="Co", cflags=("-std=c++20",)), name="co")
    tr = [dict(b["c"][0], rt=b["rt"]) for b in progs if len(b["c"]) == 1 and b["c"][0]["k"] == "try"]
    jobs += rulelib.make_jobs(c.rng.sample(tr, min(len(tr), 200)), ["cpp", "mm"], c.rng, rec, name="tr")
    c.extra["coroutines"], c.extra["function_try_blocks"] = len(co), min(len(tr), 200)
    rulelib.conformance(c, R, "metrics", jobs)
    c.assumptions += ["clang's parse of the printed program is the tree the specification was given (checked through the ranges of reported nodes)"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
