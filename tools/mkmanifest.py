"""Writes MANIFEST.json from the table below (and nothing else)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification (TLC), conformance of the real oclint by trace validation"
RULE_NOTE = ("TLC enumerates every program up to the stated size from the specification and checks the specification's own laws on them; "
             "each program (and seeded larger ones) is printed as source, run through the real oclint built from the working tree, and the "
             "recorded report is validated against the specification by TLC. Assurance is exhaustive within the bounds, sampled beyond; "
             "trusts clang's parser and the printer (checked through the reported ranges).")
CHECKS = {
    "C10": ("check_metrics.py C10", RULE_NOTE), "C11": ("check_metrics.py C11", RULE_NOTE),
    "C12": ("check_metrics.py C12", RULE_NOTE), "C13": ("check_metrics.py C13", RULE_NOTE),
    "C15": ("check_rules.py C15", RULE_NOTE), "C16": ("check_rules.py C16", RULE_NOTE),
    "C17": ("check_rules.py C17", RULE_NOTE), "C18": ("check_rules.py C18", RULE_NOTE),
}
CHECKS["C19"] = ("check_uses.py C19", RULE_NOTE)
CHECKS["C24"] = ("check_nulls.py C24", RULE_NOTE)
CHECKS["C21"] = ("check_objc.py C21", RULE_NOTE)
CHECKS["C14"] = ("check_limits.py C14", RULE_NOTE)
CHECKS["C20"] = ("check_classes.py C20", RULE_NOTE)
RUN_NOTE = ("Whole runs of oclint are a state machine in TLA+; TLC explores every scenario of bounded families from it, checks declarative laws on "
            "every one, and emits the scenarios. Each is laid out on disk and given to the real oclint built from the working tree, with "
            "scripted rule plug-ins that record events; TLC validates every recorded event sequence against the state machine. Seeded larger "
            "scenarios beyond the bounds. Trusts clang's parsing of the small sources and the recording plug-ins.")
HIST_NOTE = ("TLC enumerates every history up to the bounds from the specification of the result collector and checks its laws; each history is "
             "replayed into the real library (built from the working tree) and what it answers is validated against the specification by TLC.")
for c in ("C02", "C03", "C04", "C05", "C23"):
    CHECKS[c] = ("check_run.py " + c, RUN_NOTE)
CHECKS["C01"] = ("check_results.py C01", HIST_NOTE)
CHECKS["C06"] = ("check_suppress.py C06",
    "TLC enumerates annotation and comment placements on nested declarations from the specification and checks its laws; each is printed as source and "
    "analysed with all rules twice, once with its marks neutralised at equal length, and TLC decides from the specification which of the unsuppressed "
    "verdicts must remain. Further runs put several compilations and files in one run. Exhaustive within the bounds, sampled beyond.")
CHECKS["C22"] = ("check_compose.py C22",
    "TLC enumerates rule sets and histories of files built from a library of blocks that make every rule speak; what each block yields alone under each "
    "rule is measured once, and TLC composes from it what each longer file, run, rule set and repetition must report, group by group. Trusts that the "
    "blocks are independent (each is closed and renamed apart).")
CHECKS["C27"] = ("check_advice.py C27", RULE_NOTE)
CHECKS["C28"] = ("check_advice.py C28", RULE_NOTE)
CHECKS["C07"] = ("check_diag.py C07",
    "TLC enumerates sources built from items that make the compiler speak, under flags and modes, from a specification of what is emitted and what is "
    "reported, and checks its laws; each is run through the real oclint and the report's lists are validated by TLC. Exhaustive within the bounds, sampled "
    "beyond; trusts the description of clang's own diagnostics for these items (any other would show as a rejected trace).")
for c in ("C08", "C09"):
    CHECKS[c] = ("check_report.py " + c,
        "TLC enumerates texts (byte sequences) in every field and histories of findings from a specification of what a reader finds in each format, and checks its "
        "laws; the real reporter plug-ins, built from the working tree, write each result set, independent readers (json, expat, html.parser, bytes) read it back, "
        "and TLC validates. Exhaustive within the bounds, sampled beyond; trusts those readers.")
CHECKS["C25"] = ("check_disk.py C25",
    "The stages of a run with the state of the disk are a state machine in TLA+; TLC checks its laws on every step (nothing but the report changes, and that only "
    "in the report stage) and emits the scenarios; the real oclint runs each in a scratch tree, and the differences of the whole tree are validated by TLC. Kinds of "
    "outputs are a fixed list of 59.")
CHECKS["C26"] = ("check_cuda.py C26",
    "TLC enumerates CUDA sources (functions of every kind at every place), rule sets and compile commands from the specification and checks its laws; each is compiled "
    "with clang's own CUDA/HIP support (no toolkit) and analysed by the real oclint with recording rules and the real CUDA rules; TLC validates who examined what. "
    "Exhaustive within the bounds, sampled beyond.")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/obuild.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        cmd, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/" + cmd, "thorough_cmd": "VERIF_TIER=thorough python3 tools/" + cmd,
                            "technique": TECH, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
