"""C26: CUDA sources."""
import json
import os
import shutil
import sys

import vlib

HEAD = {"macros": "#define __global__ __attribute__((global))\n#define __device__ __attribute__((device))\n#define __host__ __attribute__((host))\n",
        "none": "#define __global__\n#define __device__\n#define __host__\n"}
ATTR = {"host": ["", "", "__host__ "], "global": ["__global__ "], "device": ["__device__ "], "hd": ["__host__ __device__ ", "__device__ __host__ "]}
DEV = "#if defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)"
LANGS = {"C": 1, "CXX": 2, "OBJC": 4}
ATTRS = {"host": 1, "global": 2}


class Printer:
    """prints a source and fills in the ranges"""
    def __init__(self, lang, rng, styl):
        self.out, self.line, self.rng, self.lang = [], 1, rng, lang
        self.cu = lang in ("cu", "hip")
        self.add(HEAD["macros" if self.cu else "none"])

    def add(self, s):
        self.out.append(s)
        self.line += s.count("\n")

    def here(self):
        t = "".join(self.out[-3:])
        if "\n" not in t:
            t = "".join(self.out)
        return [self.line, len(t) - t.rfind("\n")]

    def decls(self, ds, member=False):
        for d in ds:
            self.decl(d, member)

    def decl(self, d, member):
        k, n = d["k"], d["n"]
        if d["v"] != "all":
            self.add("\n" + (DEV.replace("#if ", "#if !(") + ")\n" if d["v"] == "host" else DEV + "\n"))
        if self.rng.random() < .2:
            self.add("\n")
        a = self.here()
        if k in ("fn", "proto"):
            pre = self.rng.choice(ATTR[d["a"]]) if self.cu else ""    # (an empty macro is not part of the declaration)
            if member and d["a"] == "global":
                pre = self.rng.choice(["static " + pre, pre + "static "])
            if self.rng.random() < .15:
                pre = pre.replace("__global__", "__attribute__((global))").replace("__device__", "__attribute__((device))") if self.cu else pre
            self.add("%svoid %s(int a)" % (pre, n))
            if k == "proto":
                self.add(";")
            else:
                self.add(" {\n")
                self.stmts(d["b"])
                d["p"] = a + self.here()
                self.add("}")
            if d["v"] != "all" or self.rng.random() < .8:
                self.add("\n")
        elif k == "var":
            self.add("%sint %s;\n" % ("" if not member else "static ", n))
        elif k == "tpl":
            self.add("template <%s> " % self.rng.choice(["typename T", "class T", "int I"]))
            self.decls(d["c"], member)
        else:
            self.add({"ns": "namespace %s {\n" % n, "ext": 'extern "C" {\n', "cls": "struct %s {\n" % n, "ctpl": "template <typename U%s> struct %s {\n" % (n, n)}[k])
            self.decls(d["c"], k in ("cls", "ctpl"))
            self.add("};\n" if k in ("cls", "ctpl") else "}\n")
        if d["v"] != "all":
            self.add("\n#endif\n")

    def stmts(self, ss):
        for s in ss:
            k = s["k"]
            a = self.here()
            if k == "plain":
                self.add(self.rng.choice(["a++;\n", "; ", "{ }\n", "int x%d = a; " % self.rng.randrange(10 ** 9)]))
            elif k in ("if", "while"):
                self.add("%s (a) {\n" % k)
                self.stmts(s["c"])
                self.add("}\n")
            elif k == "ifelse":
                cut = self.rng.randint(0, len(s["c"]))
                self.add("if (a) {\n")
                self.stmts(s["c"][:cut])
                rest = s["c"][cut:]
                if len(rest) == 1 and rest[0]["k"] == "ifelse" and self.rng.random() < .5:
                    self.add("} else ")
                    self.stmts(rest)
                    s["p"] = a + rest[0]["p"][2:]
                else:
                    self.add("} else {\n")
                    self.stmts(rest)
                    s["p"] = a + self.here()
                    self.add("}\n")
            elif k == "lam":
                self.add("auto l%d = [=] () %s{\n" % (self.rng.randrange(10 ** 9), "mutable "))
                self.stmts(s["c"])
                self.add("};\n")
            elif k == "lcls":
                self.decls(s["d"])


class Grow:
    """larger sources than the model enumerates"""
    def __init__(self, rng, cxx):
        self.rng, self.cxx, self.i = rng, cxx, 0

    def node(self, k, a="host", v="all", c=(), b=()):
        self.i += 1
        return {"k": k, "n": "n%d" % self.i, "a": a, "v": v, "c": list(c), "b": list(b), "p": []}

    def body(self, depth):
        r, out = self.rng, []
        for _ in range(r.choice([0, 1, 1, 2, 3]) if depth else 0):
            k = r.choice(["plain", "if", "ifelse", "ifelse", "while"] + ["lam", "lcls"] * self.cxx)
            s = {"k": k, "d": [], "c": [], "p": []}
            if k == "lcls":
                s["d"] = [self.node("cls", c=[self.fn(depth - 1, "host", ["host", "device", "hd"]) for _ in range(r.randint(1, 2))])]
            elif k != "plain":
                s["c"] = self.body(depth - 1)
            out.append(s)
        return out

    def fn(self, depth, a=None, among=("host", "global", "global", "device", "hd")):
        a = a or self.rng.choice(among)
        return self.node("fn", a, b=self.body(depth))

    def decl(self, depth, ctx):
        r = self.rng
        k = r.choice(["fn", "fn", "fn", "var", "proto"] + (["ns", "ext", "cls", "ctpl", "tpl"] if self.cxx and depth else []))
        if ctx in ("ext", "cls", "ctpl") and k in ("ns", "ext"):
            k = "fn"
        if ctx == "ext" and k in ("tpl", "ctpl"):
            k = "cls"
        if ctx in ("cls", "ctpl") and k == "proto":
            k = "fn"
        if k == "var":
            return self.node("var") if ctx not in ("cls", "ctpl") else self.fn(1, "host")
        if k in ("fn", "proto"):
            d = self.fn(3 if k == "fn" else 0)
            d["k"] = k
            if k == "proto":
                d["b"] = []
            if r.random() < .2:
                d["v"] = r.choice(["dev", "host"])
            return d
        if k == "tpl":
            return self.node("tpl", c=[self.fn(2)])
        return self.node(k, c=[self.decl(depth - 1, k) for _ in range(r.randint(0, 3))])


def fix(src):
    """the model leaves the name of a template to its function"""
    for d in src:
        fix(d["c"])
        if d["k"] == "tpl":
            d["n"] = d["c"][0]["n"]
    return src


def kinds(src):
    for d in src:
        yield d
        yield from kinds(d["c"])
        for s in d["b"]:
            yield from kinds_s(s)


def kinds_s(s):
    yield s
    yield from kinds(s["d"])
    for x in s["c"]:
        yield from kinds_s(x)


def run(c, i, cmds, rules, limit, rng, glob):
    d = os.path.join(c.work, "r%d" % i)
    os.makedirs(os.path.join(d, "rules"))
    shutil.copy(os.path.join(c.b["plugins"], "libscript_plugin.so"), os.path.join(d, "rules", "libs.so"))
    with open(os.path.join(d, "rules", ".libs.so.cfg"), "w") as f:
        for r in rules:
            f.write("|".join([r["kind"], r["n"], r["n"], "cat", "3", str(sum(LANGS[x] for x in r["langs"])), "tag", str(sum(ATTRS[x] for x in r["attrs"]))]) + "\n")
    db, srcs = [], []
    for j, m in enumerate(cmds):
        styl = rng.choice(["macros"])
        p = Printer(m["lang"], rng, styl)
        p.decls(m["src"])
        explicit = m["lang"] == "hip" or rng.random() < .5
        name = "s%d.%s" % (j, m["lang"] if not explicit or m["lang"] not in ("cu", "hip") else "cpp")
        m["f"] = name
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write("".join(p.out))
        fl = []
        if m["lang"] == "cu":
            fl = (["-x", "cuda"] if explicit else []) + rng.choice([["-nocudainc", "-nocudalib"], ["-nocudalib", "-nocudainc"]])
            if rng.random() < .3:
                fl += ["--cuda-gpu-arch=sm_60"]
                if m["for"] != "dev" and rng.random() < .5:
                    fl += ["--cuda-gpu-arch=sm_70"]
        elif m["lang"] == "hip":
            fl = ["-x", "hip", "-nogpuinc", "-nogpulib"]
        if m["lang"] in ("cu", "hip"):
            fl += {"both": [], "host": ["--cuda-host-only"], "dev": ["--cuda-device-only"]}[m["for"]]
        db.append({"directory": d, "file": path, "arguments": ["clang++" if m["lang"] != "c" else "clang", "-w"] + fl + ["-c", path]})
        srcs.append(path)
    with open(os.path.join(d, "compile_commands.json"), "w") as f:
        json.dump(db, f)
    env = c.env(OCLINT_VTRACE=os.path.join(d, "trace"))
    cmd = [c.b["oclint"], "-report-type", "verif", "-p", d, "-R", c.b["rules_dir"], "-R", os.path.join(d, "rules"), "-max-priority-2=100000", "-max-priority-3=100000",
           "-max-priority-1=100000", "-rc", "CYCLOMATIC_COMPLEXITY=%d" % limit, "-allow-duplicated-violations"] + ["-enable-global-analysis"] * glob + srcs
    r = c.run(cmd, timeout=200, env=env)
    ev, div, ccn, other = [], [], [], []
    if os.path.exists(os.path.join(d, "trace")):
        cur = ""
        for ln in open(os.path.join(d, "trace")):
            e = json.loads(ln)
            if e["e"] in ("setup", "teardown"):
                cur = e["x"]
                ev.append([e["r"], cur, e["e"]])
            elif e["e"] == "visit":
                ev.append([e["r"], cur, e["x"]])
    for ln in r.stdout.decode("latin-1").split("\n"):
        if ln.startswith("{"):
            x = json.loads(ln)
            if x["t"] != "v":
                if x["t"] not in ("end", "summary"):
                    other.append([x["t"], x.get("path", ""), x.get("msg", "")])
                continue
            at = [x["l"], x["c"], x["el"], x["ec"]]
            f = os.path.basename(x["path"])
            if x["rule"] == "branch divergence":
                div.append([f, at])
            elif x["rule"] == "high cyclomatic complexity":
                w = x["msg"].split()
                ccn.append([f, [at, "%s/%s" % (w[3], w[-1])]])
            else:
                other.append([x["rule"], f, at])
    if r.returncode != 0 or other:
        ev.append(["", "", "exit %d %s %s" % (r.returncode, r.stderr.decode("latin-1")[:200], other[:3])])
    return {"run": {"rules": rules, "cmds": [{k: m[k] for k in ("lang", "for", "f", "src")} for m in cmds], "limit": limit},
            "obs": {"ev": ev, "div": div, "ccn": ccn}}


def check(c):
    th = c.thorough
    c.build(rules=["CudaBranchDivergence", "CyclomaticComplexity"], reporters=["Text"], plugins=("script_plugin", "verifrep_plugin"))
    c.install_reporter()

    def q(xs):
        return "{" + ",".join('"%s"' % x for x in xs.split()) + "}"
    conf = "CONSTANTS MaxDecls=%d\nAttrs=%s\nBodies=%s\nWraps=%s\nViews=%s\nINIT Init\nNEXT Next\nINVARIANT Emit Laws\n"
    srcs = c.model("GenCuda", conf % (2, q("host global device hd"), q("none if ie nest lam lcls loop"), q("ns ext cls ctpl tpl"), q("all dev host")), heap="12g")
    srcs += c.model("GenCuda", conf % (3, q("host global") if not th else q("host global hd"), q("ie lcls"), q("ns ext cls ctpl tpl"), q("all dev") if th else q("all")), heap="12g")
    if th:
        srcs += c.model("GenCuda", conf % (4, q("host global"), q("ie"), q("ns ext cls ctpl tpl"), q("all")), heap="12g")
    rng = c.rng
    files = []
    for s in srcs:
        ds = list(kinds(s))
        langs = [("cu", "both"), ("cu", "host"), ("cu", "dev"), ("hip", "both"), ("hip", "host"), ("hip", "dev"), ("cpp", "both"), ("mm", "both")]
        if not any(d["k"] in ("ns", "ext", "cls", "ctpl", "tpl", "lam", "lcls") for d in ds):
            langs += [("c", "both"), ("m", "both")]
        w = [6, 3, 3, 1, 1, 1, 1, .5, .5, .5]
        for _ in range(1):
            l = rng.choices(langs, w[:len(langs)])[0]
            files.append({"lang": l[0], "for": l[1], "src": s})
    n_model = len(files)
    for _ in range(4000 if th else 500):
        lang, fr = rng.choice([("cu", "both"), ("cu", "both"), ("cu", "host"), ("cu", "dev"), ("hip", "both"), ("cpp", "both"), ("c", "both"), ("mm", "both")])
        g = Grow(rng, lang not in ("c", "m"))
        files.append({"lang": lang, "for": fr, "src": [g.decl(2, "") for _ in range(rng.randint(1, 6))]})
    for f in files:
        f["src"] = fix(json.loads(json.dumps(f["src"])))
        for d in kinds(f["src"]):
            if f["lang"] in ("cu", "hip") and f["for"] == "both" and "v" in d:
                d["v"] = "all"
    rng.shuffle(files)
    per = 12
    jobs = []
    for i in range(0, len(files), per):
        rules = [{"n": "r%d" % k, "kind": rng.choice(["func", "func", "fmatch"]), "attrs": a,
                  "langs": rng.choice([["C", "CXX", "OBJC"], ["C", "CXX"], ["CXX"], ["CXX", "OBJC"], ["OBJC"], ["C"]]) if rng.random() < .5 else ["C", "CXX", "OBJC"]}
                 for k, a in enumerate(rng.sample([["host"], ["global"], ["host", "global"], [], ["host"], ["global"]], 4))]
        jobs.append((files[i:i + per], rules, rng.choice([1, 1, 1, 2]), rng.random() < .3))
    lines = vlib.pmap(lambda x: run(c, x[0], *x[1][:3], __import__("random").Random("%d-%d" % (c.seed, x[0])), x[1][3]), list(enumerate(jobs)))
    c.extra.update(sources_of_the_model=len(srcs), files=len(files), runs=len(lines), larger_sources=len(files) - n_model)
    c.traces += len(files)
    # lists of violations are grouped by rule and file, and the order within is the traversal's
    bad = c.validate("CudaTrace", lines)
    for i, exp in sorted(bad.items()):
        for k in ("ev", "div", "ccn"):
            o, e = lines[i]["obs"][k], exp[k]
            if o != e:
                at = next((j for j in range(min(len(o), len(e))) if o[j] != e[j]), min(len(o), len(e)))
                c.violation("cuda", "%s differ at %d: observed %s\nexpected %s\n%s" % (k, at, o[max(0, at - 3):at + 4], e[max(0, at - 3):at + 4], os.path.join(c.work, "r%d" % i)), lines[i])
                break
    for i in (0, 1, len(lines) - 1):
        c.sample(lines[i]["run"]["cmds"][0])


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
