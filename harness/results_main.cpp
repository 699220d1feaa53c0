// Drives the result collection of oclint-core: every line of standard input is a table of
// violations ("D rule|prio|path|sl|sc|el|ec|msg", "X" clears it) or a history of operations
// ("R how op op ..."), answered with both views, violations named by their table index.
#include "oclint/RawResults.h"
#include "oclint/ResultCollector.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/UniqueResults.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
#include <iostream>
#include <map>
#include <sstream>
#include <vector>
using namespace oclint;
struct R : RuleBase
{
    std::string n; int p;
    R(std::string a, int b) : n(a), p(b) {}
    void apply() override {}
    const std::string name() const override { return n; }
    int priority() const override { return p; }
    const std::string category() const override { return "c"; }
#ifdef DOCGEN
    virtual const std::string since() const override { return ""; }
    virtual const std::string description() const override { return ""; }
    virtual const std::string example() const override { return ""; }
#endif
};
struct C : ResultCollector { C() {} };
struct E { R *rule; std::string path; int sl, sc, el, ec; std::string msg; };
static std::vector<E> table;
static std::map<std::string, R *> rules;
static std::string idx(const std::vector<Violation> &vs, bool diag)
{
    std::string o = "[";
    for (auto &v : vs)
    {
        int k = -1;
        for (size_t i = 0; i < table.size(); i++)
        {
            const E &e = table[i];
            if ((diag ? v.rule == nullptr : v.rule == e.rule) && v.path == e.path && v.startLine == e.sl && v.startColumn == e.sc &&
                v.endLine == e.el && v.endColumn == e.ec && v.message == e.msg) { k = (int)i + 1; break; }
        }
        if (o.size() > 1) { o += ","; }
        o += std::to_string(k);
    }
    return o + "]";
}
static std::string b(bool x) { return x ? "true" : "false"; }
static std::string ask(const Results &r, int how)
{
    std::string v, e, w, g;
    int n = 0, p[4] = {0, 0, 0, 0}, ne = 0, nw = 0, nb = 0, f = 0, d = 0;
    bool he = false, hw = false, hb = false;
    auto lists = [&] { v = idx(r.allViolations(), false); e = idx(r.allErrors(), true); w = idx(r.allWarnings(), true); g = idx(r.allCheckerBugs(), true); };
    auto counts = [&] {
        n = r.numberOfViolations();
        for (int i = 1; i < 4; i++) { p[i] = r.numberOfViolationsWithPriority(i); }
        ne = r.numberOfErrors(); nw = r.numberOfWarnings(); nb = r.numberOfCheckerBugs();
        f = r.numberOfFiles(); d = r.numberOfFilesWithViolations();
        he = r.hasErrors(); hw = r.hasWarnings(); hb = r.hasCheckerBugs();
    };
    if (how % 2) { counts(); lists(); } else { lists(); counts(); }
    if (how > 1) { lists(); counts(); }
    std::ostringstream o;
    o << "{\"v\":" << v << ",\"e\":" << e << ",\"w\":" << w << ",\"b\":" << g << ",\"n\":" << n << ",\"p\":[" << p[1] << "," << p[2] << "," << p[3]
      << "],\"ne\":" << ne << ",\"nw\":" << nw << ",\"nb\":" << nb << ",\"files\":" << f << ",\"dirty\":" << d
      << ",\"he\":" << b(he) << ",\"hw\":" << b(hw) << ",\"hb\":" << b(hb) << "}";
    return o.str();
}
int main()
{
    std::string l;
    while (std::getline(std::cin, l))
    {
        if (l == "X") { table.clear(); continue; }
        if (l[0] == 'D')
        {
            std::vector<std::string> f;
            std::string cur;
            for (char c : l.substr(2)) { if (c == '|') { f.push_back(cur); cur.clear(); } else { cur += c; } }
            f.push_back(cur);
            R *&r = rules[f[0] + "|" + f[1]];
            if (!r) { r = new R(f[0], std::stoi(f[1])); }
            table.push_back(E{r, f[2], std::stoi(f[3]), std::stoi(f[4]), std::stoi(f[5]), std::stoi(f[6]), f[7]});
            continue;
        }
        std::istringstream in(l.substr(2));
        int how;
        in >> how;
        C c;
        std::unique_ptr<RuleCarrier> carrier;
        ViolationSet *set = nullptr;
        std::string op;
        while (in >> op)
        {
            if (op == "S")
            {
                if (set) { c.add(set); }
                set = new ViolationSet;
                carrier.reset(new RuleCarrier(nullptr, set));
                continue;
            }
            const E &e = table[std::stoi(op.substr(1)) - 1];
            Violation d(nullptr, e.path, e.sl, e.sc, e.el, e.ec, e.msg);
            if (op[0] == 'v') { carrier->addViolation(e.path, e.sl, e.sc, e.el, e.ec, e.rule, e.msg); }
            if (op[0] == 'e') { c.addError(d); }
            if (op[0] == 'w') { c.addWarning(d); }
            if (op[0] == 'b') { c.addCheckerBug(d); }
        }
        if (set) { c.add(set); }
        std::cout << "{\"raw\":" << ask(RawResults(c), how) << ",\"uni\":" << ask(UniqueResults(c), how) << "}\n";
    }
    return 0;
}
