"""Builds oclint from /repo's working tree for the checks (no cmake, no network).

Everything is compiled from the current sources.  Objects are kept in a content
addressed cache under /verif/.cache: the key is the hash of the compiler flags, of
the source file and of *every* header/includable file in /repo and /verif/harness,
so an entry can only be used for byte-identical inputs.  setup_cmd fills the cache;
without it a check simply compiles everything itself.

The repository's driver uses the LLVM 21 API in two files while LLVM 20 is what is
installed; an overlay of two clang headers adds the missing (inline) overloads.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OCLINT_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
LLVM = "/usr/lib/llvm-20"
CLANGXX = "/usr/bin/clang++-18"
JOBS = os.cpu_count() or 4

PCH_SRC = r"""
#include <clang/AST/AST.h>
#include <clang/AST/Attr.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtVisitor.h>
#include <clang/ASTMatchers/ASTMatchFinder.h>
#include <clang/Basic/Diagnostic.h>
#include <clang/Basic/SourceLocation.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Basic/TargetInfo.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/YAMLTraits.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
"""

BASE_FLAGS = ["-std=c++17", "-fno-rtti", "-fPIC", "-O0", "-w", "-D_GNU_SOURCE"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))


def _writable_cache():
    global CACHE
    try:
        os.makedirs(CACHE, exist_ok=True)
        t = os.path.join(CACHE, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
    except OSError:
        CACHE = tempfile.mkdtemp(prefix="verif-cache-")
    return CACHE


def overlay():
    """Two patched clang headers: LLVM 21 spellings on top of LLVM 20."""
    src = LLVM + "/include/clang/Basic/"
    diag = _read(src + "Diagnostic.h").decode()
    k = "  explicit DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> Diags,"
    if k not in diag:
        raise BuildError("unexpected clang Diagnostic.h")
    diag = diag.replace(k, """  explicit DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> Diags,
                             DiagnosticOptions &DiagOpts,
                             DiagnosticConsumer *client = nullptr,
                             bool ShouldOwnClient = true)
      : DiagnosticsEngine(std::move(Diags),
            IntrusiveRefCntPtr<DiagnosticOptions>(new DiagnosticOptions(DiagOpts)),
            client, ShouldOwnClient) {}
""" + k, 1)
    ti = _read(src + "TargetInfo.h").decode()
    k = "  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);"
    if k not in ti:
        raise BuildError("unexpected clang TargetInfo.h")
    ti = ti.replace(k, k + """
  void adjust(DiagnosticsEngine &Diags, LangOptions &Opts, const TargetInfo *) { adjust(Diags, Opts); }
""", 1)
    k = "  static TargetInfo *\n  CreateTargetInfo("
    if k not in ti:
        raise BuildError("unexpected clang TargetInfo.h")
    ti = ti.replace(k, """  static TargetInfo *CreateTargetInfo(DiagnosticsEngine &Diags, TargetOptions &Opts) {
    return CreateTargetInfo(Diags, std::make_shared<TargetOptions>(Opts));
  }
""" + k, 1)
    base = os.path.join(_writable_cache(), "overlay-" + _sha(diag, ti)[:16])
    d = os.path.join(base, "clang/Basic")
    for name, text in (("Diagnostic.h", diag), ("TargetInfo.h", ti)):
        p = os.path.join(d, name)
        if not os.path.exists(p):
            os.makedirs(d, exist_ok=True)
            t = p + ".%d" % os.getpid()
            with open(t, "w") as f:
                f.write(text)
            os.rename(t, p)
    return base


def sys_flags():
    return ["-I" + overlay(), "-I" + LLVM + "/include"]


def pch():
    flags = BASE_FLAGS + sys_flags() + ["-fpch-instantiate-templates"]
    key = _sha(PCH_SRC, " ".join(flags), subprocess.run([CLANGXX, "--version"], stdout=subprocess.PIPE).stdout)[:24]
    out = os.path.join(CACHE, "pch-%s.pch" % key)
    if not os.path.exists(out):
        hdr = os.path.join(CACHE, "pch-%s.h" % key)
        with open(hdr, "w") as f:
            f.write(PCH_SRC)
        tmp = out + ".%d" % os.getpid()
        _run([CLANGXX] + flags + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", hdr, "-o", tmp], "PCH")
        os.rename(tmp, out)
    return out


def repo_includes():
    r = REPO
    inc = [r + "/oclint-core/include", r + "/oclint-metrics/include", r + "/oclint-rules/include",
           r + "/oclint-rules", r + "/oclint-driver/include", r + "/oclint-driver",
           r + "/oclint-reporters/reporters", VERIF + "/harness"]
    return ["-I" + i for i in inc]


_names = None
_sums = {}


def header_names():
    """Names (not contents) of all headers: a new header could shadow another one."""
    global _names
    if _names is None:
        parts = []
        roots = [REPO + "/oclint-core", REPO + "/oclint-metrics", REPO + "/oclint-rules",
                 REPO + "/oclint-driver", REPO + "/oclint-reporters", VERIF + "/harness"]
        for root in roots:
            for dp, dn, fn in sorted(os.walk(root)):
                dn.sort()
                if "/test" in dp[len(root):] or "/template" in dp[len(root):]:
                    continue
                parts += [os.path.join(dp, f) for f in sorted(fn) if not f.endswith((".cpp", ".cc", ".txt", ".md"))]
        _names = _sha(*parts)
    return _names


def file_sum(p):
    if p not in _sums:
        try:
            _sums[p] = _sha(_read(p))
        except OSError:
            _sums[p] = "missing"
    return _sums[p]


class Builder:
    def __init__(self, out):
        self.out = out
        os.makedirs(out, exist_ok=True)
        self.compiled = 0
        self.reused = 0
        self.pch = pch()
        self.flags = BASE_FLAGS + sys_flags() + repo_includes()

    def obj(self, src, extra=(), use_pch=True):
        """Object for src; reused when the flags, the source and every file it includes are the same."""
        extra = list(extra)
        key = _sha(" ".join(self.flags), os.path.basename(self.pch), src, file_sum(src), header_names(),
                   " ".join(extra), CLANGXX)
        man = os.path.join(CACHE, "man", key[:2], key)
        try:
            entries = [json.loads(x) for x in open(man)]
        except (OSError, ValueError):
            entries = []
        for e in entries:
            o = os.path.join(CACHE, "obj", e["obj"] + ".o")
            if os.path.exists(o) and all(file_sum(p) == h for p, h in e["deps"]):
                self.reused += 1
                return o
        for p in (man, os.path.join(CACHE, "obj", "x")):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = os.path.join(CACHE, "obj", "%s.%d.tmp.o" % (key, os.getpid()))
        cmd = [CLANGXX] + self.flags + extra
        if use_pch:
            cmd += ["-include-pch", self.pch, "-fpch-instantiate-templates"]
        dep = tmp + ".d"
        _run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", tmp], "compiling " + src)
        deps = _read(dep).decode().replace("\\\n", " ").split()[1:]
        os.unlink(dep)
        self.compiled += 1
        deps = sorted({os.path.normpath(d) for d in deps if not d.startswith(LLVM) and not d.endswith(".pch")})
        deps = [(d, file_sum(d)) for d in deps]
        name = _sha(key, json.dumps(deps))
        o = os.path.join(CACHE, "obj", name + ".o")
        os.rename(tmp, o)
        with open(man, "a") as f:
            f.write(json.dumps({"obj": name, "deps": deps}) + "\n")
        return o

    def objs(self, srcs, extra=()):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda s: self.obj(s, extra), srcs))

    def archive(self, name, objs):
        p = os.path.join(self.out, "lib%s.a" % name)
        if os.path.exists(p):
            os.unlink(p)
        _run(["/usr/bin/ar", "rcs", p] + objs, "ar")
        return p


SHARED = [LLVM + "/lib/libclang-cpp.so.20.1", LLVM + "/lib/libLLVM.so.20.1"]


def rule_sources():
    out = {}
    for p in sorted(glob.glob(REPO + "/oclint-rules/rules/*/*Rule.cpp") +
                    glob.glob(REPO + "/oclint-rules/rules/*/*/*Rule.cpp")):
        out[os.path.basename(p)[:-len("Rule.cpp")]] = p
    return out


def reporter_sources():
    return {os.path.basename(p)[:-len("Reporter.cpp")]: p
            for p in sorted(glob.glob(REPO + "/oclint-reporters/reporters/*Reporter.cpp"))}


def build(out, rules=(), reporters=(), exe=True, harness=(), plugins=(), verbose=False):
    """Returns a dict of paths.  rules/reporters: 'all' or names; harness: names of
    /verif/harness/<n>.cpp to link as executables; plugins: names of
    /verif/harness/<n>.cpp to link as shared objects (into out/plugins)."""
    b = Builder(out)
    R = REPO
    allrules, allreps = rule_sources(), reporter_sources()
    rules = list(allrules) if rules == "all" else [r for r in rules]
    reporters = list(allreps) if reporters == "all" else list(reporters)
    core = sorted(glob.glob(R + "/oclint-core/lib/*.cpp"))
    rs = [p for p in core if os.path.basename(p) in ("RuleSet.cpp", "RuleConfiguration.cpp")]
    core = [p for p in core if p not in rs]
    metrics = sorted(glob.glob(R + "/oclint-metrics/lib/*.cpp"))
    absr = sorted(glob.glob(R + "/oclint-rules/lib/*.cpp"))
    helper = sorted(glob.glob(R + "/oclint-rules/lib/helper/*.cpp"))
    util = sorted(glob.glob(R + "/oclint-rules/lib/util/*.cpp"))
    driver = sorted(glob.glob(R + "/oclint-driver/lib/*.cpp"))
    need_rules = bool(rules) or bool(harness) or bool(plugins)
    groups = {"core": core, "rs": rs}
    if need_rules:
        groups.update(metrics=metrics, absr=absr, helper=helper, util=util)
    if exe or harness:
        groups["driver"] = driver
    if exe:
        groups["main"] = [R + "/oclint-driver/main.cpp", R + "/oclint-driver/reporters_dlfcn_port.cpp",
                          R + "/oclint-driver/rules_dlfcn_port.cpp"]
    for r in rules:
        if r not in allrules:
            raise BuildError("no rule source for " + r)
        groups["rule:" + r] = [allrules[r]]
    for r in reporters:
        groups["rep:" + r] = [allreps[r]]
    for h in list(harness) + list(plugins):
        groups["h:" + h] = [VERIF + "/harness/" + h + ".cpp"]
    flat = [s for g in groups.values() for s in g]
    done = dict(zip(flat, b.objs(flat)))
    O = {g: [done[s] for s in ss] for g, ss in groups.items()}
    lib = {"core": b.archive("OCLintCore", O["core"]), "rs": b.archive("OCLintRuleSet", O["rs"])}
    for g, n in (("metrics", "OCLintMetric"), ("absr", "OCLintAbstractRule"), ("helper", "OCLintHelper"),
                 ("util", "OCLintUtil"), ("driver", "OCLintDriver")):
        if g in O:
            lib[g] = b.archive(n, O[g])
    rulelibs = [lib[k] for k in ("absr", "metrics", "helper", "util", "core") if k in lib]
    prefix = os.path.join(out, "prefix")
    rd, pd, bd = (os.path.join(prefix, d) for d in ("lib/oclint/rules", "lib/oclint/reporters", "bin"))
    gd = os.path.join(out, "plugins")
    for d in (rd, pd, bd, gd, os.path.join(prefix, "etc")):
        os.makedirs(d, exist_ok=True)
    jobs = []
    ld = [CLANGXX, "-fuse-ld=/usr/bin/ld.lld-18", "-fno-rtti"]
    rp = ["-Wl,-rpath," + LLVM + "/lib"]
    for r in rules:
        jobs.append((ld + ["-shared", "-o", "%s/lib%sRule.so" % (rd, r)] + O["rule:" + r] + rulelibs + SHARED + rp, "link rule " + r))
    for r in reporters:
        jobs.append((ld + ["-shared", "-o", "%s/lib%sReporter.so" % (pd, r)] + O["rep:" + r] + [lib["core"]] + SHARED + rp, "link reporter " + r))
    for h in plugins:
        jobs.append((ld + ["-shared", "-o", "%s/lib%s.so" % (gd, h)] + O["h:" + h] + rulelibs + SHARED + rp, "link " + h))
    wholecore = ["-Wl,--whole-archive", lib["rs"], lib["core"], "-Wl,--no-whole-archive"]
    if exe:
        jobs.append((ld + ["-rdynamic", "-o", bd + "/oclint"] + O["main"] + [lib["driver"]] + wholecore + SHARED + rp + ["-ldl"], "link oclint"))
    for h in harness:
        jobs.append((ld + ["-rdynamic", "-o", os.path.join(out, h)] + O["h:" + h] + [lib["driver"]] +
                     [lib[k] for k in ("absr", "metrics", "helper", "util") if k in lib] + wholecore + SHARED + rp + ["-ldl"], "link " + h))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: _run(*j), jobs))
    return {"prefix": prefix, "oclint": bd + "/oclint", "rules_dir": rd, "reporters_dir": pd, "plugins": gd,
            "out": out, "compiled": b.compiled, "reused": b.reused, "objs": O, "lib": lib}


if __name__ == "__main__":
    import time
    t = time.time()
    out = sys.argv[1] if len(sys.argv) > 1 else tempfile.mkdtemp(prefix="verif-setup-")
    hs = sorted(os.path.basename(p)[:-4] for p in glob.glob(VERIF + "/harness/*_main.cpp"))
    ps = sorted(os.path.basename(p)[:-4] for p in glob.glob(VERIF + "/harness/*_plugin.cpp"))
    r = build(out, "all", "all", True, hs, ps)
    print("built in %.1fs: %d compiled, %d from cache -> %s" % (time.time() - t, r["compiled"], r["reused"], out))
    if len(sys.argv) <= 1:
        shutil.rmtree(out)
