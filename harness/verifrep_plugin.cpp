// Reporter plug-in "verif": the Results interface, field by field, as JSON lines.
#include "oclint/Reporter.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/Violation.h"
#include "vjson.h"
#include "vself.h"
#include <iostream>
using namespace oclint;

class VerifReporter : public Reporter
{
    void list(std::ostream &o, const char *kind, const std::vector<Violation> &vs)
    {
        for (const auto &v : vs)
        {
            o << "{\"t\":\"" << kind << "\",\"rule\":" << vq(v.rule ? v.rule->name() : "")
              << ",\"cat\":" << vq(v.rule ? v.rule->category() : "") << ",\"prio\":" << (v.rule ? v.rule->priority() : 0)
              << ",\"path\":" << vq(v.path) << ",\"l\":" << v.startLine << ",\"c\":" << v.startColumn
              << ",\"el\":" << v.endLine << ",\"ec\":" << v.endColumn << ",\"msg\":" << vq(v.message) << "}\n";
        }
    }
public:
    const std::string name() const override
    {
        auto l = vselfLines();
        return l.empty() ? "verif" : l[0];
    }
    void report(Results *r, std::ostream &o) override
    {
        if (name() != "verif") { o << "{\"t\":\"rep\",\"name\":" << vq(name()) << "}\n"; }
        o << "{\"t\":\"summary\",\"files\":" << r->numberOfFiles() << ",\"dirty\":" << r->numberOfFilesWithViolations()
          << ",\"n\":" << r->numberOfViolations() << ",\"p1\":" << r->numberOfViolationsWithPriority(1)
          << ",\"p2\":" << r->numberOfViolationsWithPriority(2) << ",\"p3\":" << r->numberOfViolationsWithPriority(3)
          << ",\"ne\":" << r->numberOfErrors() << ",\"nw\":" << r->numberOfWarnings() << ",\"nb\":" << r->numberOfCheckerBugs()
          << ",\"he\":" << (r->hasErrors() ? "true" : "false") << ",\"hw\":" << (r->hasWarnings() ? "true" : "false")
          << ",\"hb\":" << (r->hasCheckerBugs() ? "true" : "false") << "}\n";
        list(o, "v", r->allViolations());
        list(o, "error", r->allErrors());
        list(o, "warning", r->allWarnings());
        list(o, "bug", r->allCheckerBugs());
        o << "{\"t\":\"end\"}" << std::endl;
    }
};
extern "C" Reporter *create() { return new VerifReporter(); }
