// Scripted rules: each line "kind|name|identifier|category|priority|languages|tag" of the
// library's configuration registers one rule.  They record what the framework does with them and
// report every declaration whose name holds "_<tag>_" (once per occurrence).
//   visitor  AST visitor      matcher  AST matcher      reader  source lines      plain  RuleBase
//   func     AST visitor, fmatch AST matcher: record every function, class, namespace and variable
//            named n<digits> wherever it is declared; they have the CUDA attributes of an eighth field
//   conf     RuleBase that records the configured value of the keys in its tag
#include "oclint/AbstractASTMatcherRule.h"
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/AbstractSourceCodeReaderRule.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "vjson.h"
#include "vself.h"
#include <sstream>
using namespace clang;
using namespace clang::ast_matchers;
using namespace oclint;

struct Spec { std::string kind, name, id, cat, tag; int prio; unsigned langs, attrs; };

static int occurrences(const std::string &s, const std::string &tag)
{
    int n = 0;
    std::string t = "_" + tag;
    for (size_t p = s.find(t); p != std::string::npos; p = s.find(t, p + 1))
    {
        char c = p + t.size() < s.size() ? s[p + t.size()] : 0;
        if (c == '_' || c == 0) { n++; }
    }
    return n;
}
// Advances the number that the next compiled file sees (header "stamp.h" in $OCLINT_VSTAMP).
static void stamp()
{
    const char *d = getenv("OCLINT_VSTAMP");
    if (!d) { return; }
    static int dummy = 0;
    (void)dummy;
    std::string p = std::string(d) + "/count";
    int n = 0;
    { std::ifstream in(p); in >> n; }
    { std::ofstream o(p); o << ++n; }
    std::ofstream o(std::string(d) + "/stamp.h");
    o << "#define STAMP stamp_" << n << "\n";
}
#define COMMON(S) \
    const std::string name() const override { return S.name; } \
    const std::string identifier() const override { return S.id.empty() ? RuleBase::identifier() : S.id; } \
    const std::string category() const override { return S.cat; } \
    int priority() const override { return S.prio; }
static void ev(const char *e, const Spec &s, const std::string &x)
{
    vtrace(std::string("{\"e\":\"") + e + "\",\"r\":" + vq(s.name) + ",\"x\":" + vq(x) + "}");
}
static std::string base(const std::string &p) { return p.substr(p.rfind('/') + 1); }

class ScriptVisitor : public AbstractASTVisitorRule<ScriptVisitor>
{
    Spec s;
public:
    ScriptVisitor(const Spec &x) : s(x) {}
    COMMON(s)
    unsigned int supportedLanguages() const override { return s.langs; }
    void setUp() override { ev("setup", s, base(_carrier->getMainFilePath())); }
    void tearDown() override { ev("teardown", s, base(_carrier->getMainFilePath())); stamp(); }
    bool VisitNamedDecl(NamedDecl *d)
    {
        if (!d->getDeclContext()->isTranslationUnit()) { return true; }
        std::string n = d->getNameAsString();
        ev("visit", s, n);
        for (int i = occurrences(n, s.tag); i > 0; i--) { addViolation(d, this, s.tag + " in " + n); }
        return true;
    }
};
class ScriptMatcher : public AbstractASTMatcherRule
{
    Spec s;
public:
    ScriptMatcher(const Spec &x) : s(x) {}
    COMMON(s)
    unsigned int supportedLanguages() const override { return s.langs; }
    void setUpMatcher() override
    {
        ev("setup", s, base(_carrier->getMainFilePath()));
        addMatcher(namedDecl(hasDeclContext(translationUnitDecl())).bind("d"));
    }
    void tearDown() override
    {
        AbstractASTMatcherRule::tearDown();
        ev("teardown", s, base(_carrier->getMainFilePath()));
        stamp();
    }
    void callback(const MatchFinder::MatchResult &r) override
    {
        auto *d = r.Nodes.getNodeAs<NamedDecl>("d");
        std::string n = d->getNameAsString();
        ev("visit", s, n);
        for (int i = occurrences(n, s.tag); i > 0; i--) { addViolation(d, this, s.tag + " in " + n); }
    }
};
static std::string label(const NamedDecl *d)
{
    std::string n = d->getNameAsString();
    if (n.size() < 2 || n[0] != 'n' || !isdigit(n[1]) || d->isImplicit()) { return ""; }
    if (isa<FunctionTemplateDecl>(d)) { return "t:" + n; }
    if (isa<FunctionDecl>(d)) { return "f:" + n; }
    if (isa<ClassTemplateDecl>(d)) { return "u:" + n; }
    if (isa<NamespaceDecl>(d)) { return "n:" + n; }
    if (isa<RecordDecl>(d)) { return "c:" + n; }
    return isa<VarDecl>(d) ? "v:" + n : "";
}
class ScriptFunc : public AbstractASTVisitorRule<ScriptFunc>
{
    Spec s;
public:
    ScriptFunc(const Spec &x) : s(x) {}
    COMMON(s)
    unsigned int supportedLanguages() const override { return s.langs; }
    unsigned int supportedCUDAFunctionAttrs() const override { return s.attrs; }
    void setUp() override { ev("setup", s, base(_carrier->getMainFilePath())); }
    void tearDown() override { ev("teardown", s, base(_carrier->getMainFilePath())); }
    bool VisitNamedDecl(NamedDecl *d)
    {
        std::string l = label(d);
        if (!l.empty()) { ev("visit", s, l); }
        return true;
    }
};
class ScriptFuncMatcher : public AbstractASTMatcherRule
{
    Spec s;
public:
    ScriptFuncMatcher(const Spec &x) : s(x) {}
    COMMON(s)
    unsigned int supportedLanguages() const override { return s.langs; }
    unsigned int supportedCUDAFunctionAttrs() const override { return s.attrs; }
    void setUpMatcher() override
    {
        ev("setup", s, base(_carrier->getMainFilePath()));
        addMatcher(namedDecl().bind("d"));
    }
    void tearDown() override
    {
        AbstractASTMatcherRule::tearDown();
        ev("teardown", s, base(_carrier->getMainFilePath()));
    }
    void callback(const MatchFinder::MatchResult &r) override
    {
        std::string l = label(r.Nodes.getNodeAs<NamedDecl>("d"));
        if (!l.empty()) { ev("visit", s, l); }
    }
};
class ScriptReader : public AbstractSourceCodeReaderRule
{
    Spec s;
public:
    ScriptReader(const Spec &x) : s(x) {}
    COMMON(s)
    void apply() override
    {
        ev("setup", s, base(_carrier->getMainFilePath()));
        AbstractSourceCodeReaderRule::apply();
        ev("teardown", s, base(_carrier->getMainFilePath()));
        stamp();
    }
    void eachLine(int n, std::string l) override
    {
        std::ostringstream o;
        o << n << ":" << l.size();
        ev("line", s, o.str());
        for (int i = occurrences(l, s.tag); i > 0; i--) { addViolation(n, 1, n, (int)l.size(), this, s.tag + " in line"); }
    }
};
class ScriptPlain : public RuleBase
{
    Spec s;
public:
    ScriptPlain(const Spec &x) : s(x) {}
    COMMON(s)
    void apply() override
    {
        ev("setup", s, base(_carrier->getMainFilePath()));
        if (s.kind == "conf")
        {
            std::istringstream in(s.tag);
            std::string k;
            while (in >> k)
            {
                ev("conf", s, k + "=" + (RuleConfiguration::hasKey(k) ? RuleConfiguration::stringForKey(k) : "<none>"));
            }
        }
        else
        {
            for (auto *d : _carrier->getTranslationUnitDecl()->decls())
            {
                auto *nd = dyn_cast<NamedDecl>(d);
                if (!nd || !nd->getBeginLoc().isValid()) { continue; }
                auto &sm = _carrier->getSourceManager();
                if (!sm.isInMainFile(nd->getBeginLoc())) { continue; }
                std::string n = nd->getNameAsString();
                for (int i = occurrences(n, s.tag); i > 0; i--)
                {
                    int l = sm.getPresumedLineNumber(nd->getBeginLoc());
                    _carrier->addViolation(_carrier->getMainFilePath(), l, 1, l, 2, this, s.tag + " in " + n);
                }
            }
        }
        ev("teardown", s, base(_carrier->getMainFilePath()));
        stamp();
    }
};
static int registerAll()
{
    vtrace("{\"e\":\"load\",\"r\":" + vq(vselfName()) + ",\"x\":\"\"}");
    for (const std::string &l : vselfLines())
    {
        std::vector<std::string> f;
        std::string cur;
        for (char c : l) { if (c == '|') { f.push_back(cur); cur.clear(); } else { cur += c; } }
        f.push_back(cur);
        if (f.size() < 7) { continue; }
        Spec s{f[0], f[1], f[2], f[3], f[6], atoi(f[4].c_str()), (unsigned)atoi(f[5].c_str()),
               f.size() > 7 ? (unsigned)atoi(f[7].c_str()) : CUDA_HOST};
        if (s.kind == "visitor") { RuleSet r(new ScriptVisitor(s)); }
        else if (s.kind == "matcher") { RuleSet r(new ScriptMatcher(s)); }
        else if (s.kind == "func") { RuleSet r(new ScriptFunc(s)); }
        else if (s.kind == "fmatch") { RuleSet r(new ScriptFuncMatcher(s)); }
        else if (s.kind == "reader") { RuleSet r(new ScriptReader(s)); }
        else { RuleSet r(new ScriptPlain(s)); }
    }
    return 0;
}
static int registered = registerAll();
