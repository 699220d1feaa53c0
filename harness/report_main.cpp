// Gives result sets to the real reporter plug-ins.  Arguments: the plug-ins.  Every line of standard
// input adds to the current set (texts in hexadecimal) or, "G view", has every reporter report it:
// "name length" and the bytes.
#include "oclint/RawResults.h"
#include "oclint/Reporter.h"
#include "oclint/ResultCollector.h"
#include "oclint/RuleBase.h"
#include "oclint/UniqueResults.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
#include <dlfcn.h>
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>
using namespace oclint;
struct R : RuleBase
{
    std::string n, c; int p;
    R(std::string a, std::string b, int q) : n(a), c(b), p(q) {}
    void apply() override {}
    const std::string name() const override { return n; }
    int priority() const override { return p; }
    const std::string category() const override { return c; }
#ifdef DOCGEN
    virtual const std::string since() const override { return ""; }
    virtual const std::string description() const override { return ""; }
    virtual const std::string example() const override { return ""; }
#endif
};
struct C : ResultCollector { C() {} };
static std::string text(std::istringstream &in)
{
    std::string h, o;
    in >> h;
    for (size_t i = 1; i + 1 < h.size(); i += 2) { o += (char)std::stoi(h.substr(i, 2), nullptr, 16); }
    return o;
}
int main(int argc, char **argv)
{
    std::vector<Reporter *> reps;
    for (int i = 1; i < argc; i++)
    {
        void *h = dlopen(argv[i], RTLD_NOW);
        if (!h) { std::cerr << dlerror(); return 3; }
        reps.push_back(((Reporter *(*)())dlsym(h, "create"))());
    }
    std::unique_ptr<C> c(new C);
    std::vector<R *> rules;
    ViolationSet *set = nullptr;
    std::string l;
    while (std::getline(std::cin, l))
    {
        std::istringstream in(l);
        std::string op;
        in >> op;
        if (op == "X") { c.reset(new C); rules.clear(); set = nullptr; continue; }
        if (op == "R") { std::string n = text(in), g = text(in); int p; in >> p; rules.push_back(new R(n, g, p)); continue; }
        if (op == "S") { if (set) { c->add(set); } set = new ViolationSet; continue; }
        if (op == "G")
        {
            if (set) { c->add(set); set = nullptr; }
            int uni;
            in >> uni;
            std::unique_ptr<Results> r(uni ? (Results *)new UniqueResults(*c) : (Results *)new RawResults(*c));
            for (auto *p : reps)
            {
                std::ostringstream o;
                p->report(r.get(), o);
                std::cout << p->name() << " " << o.str().size() << "\n" << o.str();
            }
            std::cout.flush();
            continue;
        }
        int rule, sl, sc, el, ec;
        in >> rule;
        std::string path = text(in);
        in >> sl >> sc >> el >> ec;
        Violation v(rule ? rules[rule - 1] : nullptr, path, sl, sc, el, ec, text(in));
        if (op == "v") { set->addViolation(v); }
        if (op == "e") { c->addError(v); }
        if (op == "w") { c->addWarning(v); }
        if (op == "b") { c->addCheckerBug(v); }
    }
    return 0;
}
