#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

C, D, R, M, U = "oclint-core/", "oclint-driver/", "oclint-reporters/reporters/", "oclint-metrics/", "oclint-rules/"

p("C01", "Every violation found is collected once, in order, with all its fields",
  "Whatever sequence of violation sets, compiler errors, warnings and analyzer bugs is collected, the duplicate-allowing view returns every rule violation in the order found with all fields unchanged, and the default view exactly the first occurrence of each distinct one (distinct in rule, path, start and end line and column, or message) in that order. In either view the count for a priority equals the number of its violations whose rule has that priority, and compiler errors, warnings and analyzer bugs stay in their own lists, in order, never mixed with each other or with rule violations. The number of files is the number of analysed translation units, and of files with violations the number of distinct files named by the first violation of each unit that produced any.",
  ["histories", "inputs"], "all sequences of collect operations, of any length, over any violations (equal, nearly equal in one field, different)",
  "The unit tests add at most two or three hand-written violations; they do not vary each field separately, do not interleave duplicates across sets, and never look at longer histories.",
  [C+"lib/ResultCollector.cpp", C+"lib/AbstractResults.cpp", C+"lib/RawResults.cpp", C+"lib/UniqueResults.cpp", C+"lib/ViolationSet.cpp", C+"lib/Violation.cpp"],
  [("first-occurrence filter", C+"lib/UniqueResults.cpp"), ("flattening of the violation sets", C+"lib/RawResults.cpp"), ("summary counts", C+"lib/AbstractResults.cpp")],
  [("collection", "violation set per analysed unit, plus error/warning/checker-bug sets", C+"lib/ResultCollector.cpp")],
  ["the Results interface (allViolations, allErrors, numberOf...)", "the report"])

p("C02", "The exit status states the outcome of the run",
  "A run that completes exits with the compilation-error status when any translation unit had a compiler error, otherwise with the threshold status when the number of reported violations of some priority is strictly greater than the maximum for that priority (defaults: 0 for P1, 10 for P2, 20 for P3), and otherwise with success. When a run cannot complete it exits with the status of the first stage that failed - command-line parsing, loading rules (including none loaded), loading the reporter, processing the sources, writing the report - and a run never reports success after such a failure. When thresholds are exceeded, standard error shows the three counts with their limits.",
  ["configurations", "inputs", "fault_sequences"], "all combinations of violation counts against limits, compiler errors and stage failures",
  "The driver has a single unit test (the rule filter); the main program, its stage order and its status codes are never executed by the tests.",
  [D+"main.cpp", D+"include/oclint/ExitCode.h", D+"lib/Options.cpp", D+"lib/Driver.cpp"],
  [("stage order and return codes", D+"main.cpp"), ("threshold comparison", D+"main.cpp numberOfViolationsExceedThreshold")],
  [], ["process exit status", "standard error"])

p("C03", "Configuration layers override each other in the documented order",
  "Settings come from the installation's configuration file, then the user's home .oclint, then the working directory's .oclint, then the command line; for a single-valued setting (output, report type, each priority limit, the three switches) the last of these that sets it wins and the command line always wins, and a setting given nowhere keeps its default. Rule thresholds are merged key by key with the last writer winning (a command-line key=value, split at its last equals sign, last of all), rule search paths from every layer accumulate (the command line's first) and replace the default path only if at least one is given, and rule selections from every layer apply in that order. A missing, empty or blank file changes nothing, and values are used exactly as written whatever the size of the file.",
  ["configurations", "inputs"], "all assignments of settings to the four layers, all file contents the format allows",
  "No test reads a configuration file or processes options at all.",
  [D+"lib/Options.cpp", D+"lib/ConfigFile.cpp", D+"include/oclint/ConfigFile.h", C+"lib/RuleConfiguration.cpp"],
  [("layer order", D+"lib/Options.cpp configFilePaths/processConfigFile"), ("command line wins", D+"lib/Options.cpp updateArgIfSet"), ("last writer wins", C+"lib/RuleConfiguration.cpp")],
  [("options", "effective settings after processing", D+"lib/Options.cpp"), ("rule configuration", "key/value map", C+"lib/RuleConfiguration.cpp")],
  ["report type and destination", "exit status", "thresholds quoted in violation messages", "set of enabled rules"])

p("C04", "Exactly the selected rules run, in registration order",
  "For every history of enable and disable requests, the rules that run are the registered rules, in registration order and without repetition, that are selected: if some rule remains explicitly enabled, exactly the enabled ones; otherwise all rules except the disabled ones, where the last request naming a rule decides for it. A rule is addressed by its identifier, which for a rule that does not override it is its display name in UpperCamelCase with everything but letters removed. Requests naming unknown rules are harmless, and the listing of enabled rules shows exactly the rules that run.",
  ["histories", "configurations"], "all sequences of enable/disable requests over any registered rule set and any names",
  "The single driver test exercises a handful of fixed enable/disable calls on three rules; identifier derivation is tested on a few names.",
  [D+"lib/RulesetFilter.cpp", D+"include/oclint/RulesetFilter.h", C+"lib/RuleSet.cpp", C+"lib/RuleBase.cpp", D+"main.cpp"],
  [("enabled/disabled sets", D+"include/oclint/RulesetFilter.h"), ("filtering", D+"lib/RulesetFilter.cpp"), ("registration order", C+"lib/RuleSet.cpp"), ("identifier", C+"lib/RuleBase.cpp")],
  [("filter", "enabled set, disabled set", D+"include/oclint/RulesetFilter.h"), ("registry", "registered rules in order", C+"lib/RuleSet.cpp")],
  ["rules that run", "-list-enabled-rules output"])

p("C05", "Every selected rule examines every compiled file exactly once",
  "Each compile command whose file compiles without errors is analysed exactly once by every selected rule, in command order (each file before the next is compiled in the default mode; all files compiled first in global mode), and yields exactly one violation set holding what those rules reported for it. A file that fails to compile is not analysed, is not counted as a file and stops nothing else; a source without a compile command is skipped with a notice; an unusable compile directory ends the run with the processing status. Within one application a rule is set up once, then visits each top-level declaration of the main file (and none from included headers) in order, then is torn down once - or is not entered at all when it does not support the file's language.",
  ["histories", "configurations", "fault_sequences"], "all lists of compile commands with any mixture of good, failing and missing files, both analysis modes, any rule selection and any of C, C++, Objective-C",
  "No test runs the driver or the analyzer; rule tests apply one rule to one in-memory file.",
  [D+"lib/Driver.cpp", D+"lib/CompilerInstance.cpp", D+"lib/RulesetBasedAnalyzer.cpp", U+"include/oclint/AbstractASTVisitorRule.h", U+"lib/AbstractASTRuleBase.cpp", U+"lib/AbstractSourceCodeReaderRule.cpp", U+"lib/AbstractASTMatcherRule.cpp"],
  [("per-command loop", D+"lib/Driver.cpp"), ("rule loop", D+"lib/RulesetBasedAnalyzer.cpp"), ("main-file filter, setUp/tearDown", U+"include/oclint/AbstractASTVisitorRule.h"), ("language filter", U+"lib/AbstractASTRuleBase.cpp")],
  [("analysis position", "command, rule and declaration being examined", D+"lib/Driver.cpp")],
  ["events seen by rules loaded as plug-ins", "numberOfFiles in the report"])

p("C06", "Inline suppressions silence exactly what they cover",
  "A violation is suppressed if and only if its first line lies in the main file and bears the text //!OCLINT within a comment (of several adjacent comment lines each counts for its own line), or the reported declaration, or a declaration enclosing the reported construct (for a parameter its function, for a constructor's initializer the constructor, for a default field initializer the field), carries an oclint:suppress annotation, its own or inherited from an earlier declaration of the same entity, or from the interface for an Objective-C method, that is either unqualified or names the reporting rule in brackets (a note may follow). For line-reading rules it is the violation's line that must lie in the extent of such a declaration. Nothing else is suppressed: not other lines, other declarations, other rules, other files, or other compilations of the same file. Lines are physical lines of the file, whatever #line directives it contains.",
  ["programs", "histories"], "all programs, annotation placements, nesting depths, rules and file sequences",
  "The tests suppress a handful of single declarations or lines, one rule and one file at a time, so neither nesting combinations nor state carried over between rules and files are reached.",
  [U+"lib/helper/SuppressHelper.cpp", U+"lib/helper/AttributeHelper.cpp", U+"lib/AbstractASTRuleBase.cpp", U+"lib/AbstractSourceCodeReaderRule.cpp"],
  [("comment lines", U+"lib/helper/SuppressHelper.cpp lineBasedShouldSuppress"), ("annotations on ancestors", U+"lib/helper/SuppressHelper.cpp markedParentsAsSuppress"), ("annotation parsing", U+"lib/helper/AttributeHelper.cpp")],
  [("suppression caches", "comment lines and annotated ranges remembered per file", U+"lib/helper/SuppressHelper.cpp")],
  ["the report"])

p("C07", "Compiler and analyzer diagnostics are reported as what they are",
  "Each compiler error (fatal or not) located in a source appears exactly once in the report's compiler errors and each compiler warning exactly once in its compiler warnings, in order of emission, with its file, line and column in that file (whatever #line directives say) and message; notes and remarks appear in neither. With the static analyzer enabled its findings appear as analyzer bugs and nowhere else, the errors and warnings are the ones reported without it, and ordinary compiler diagnostics are not presented as rule violations or analyzer bugs in any mode.",
  ["programs", "histories"], "all sequences of diagnostics over all files of a run, in both modes",
  "No test drives the diagnostic consumer.",
  [D+"lib/DiagnosticDispatcher.cpp", D+"lib/Driver.cpp", C+"lib/ResultCollector.cpp"],
  [("dispatch by level", D+"lib/DiagnosticDispatcher.cpp")],
  [("error/warning/checker lists", "three violation sets", C+"lib/ResultCollector.cpp")],
  ["the report's error, warning and analyzer sections", "exit status"])

p("C08", "Structured reports are well-formed and lose nothing",
  "For every result set and every text its strings may hold, the JSON report is valid JSON, the XML and PMD reports are well-formed XML and the HTML report is HTML whose cells can be read back, and reading it back yields exactly the reported violations in order with their path, line, column, rule, category, priority and message (end positions too where the format has them, except that JSON and XML leave them out when unknown), and, in the formats that carry them, the summary counts and the compiler errors, warnings and analyzer bugs. PMD expresses priority p as 2p-1. Each malformed UTF-8 byte, which none of these formats can hold, is replaced by U+FFFD, and so is, in XML and PMD, each character XML cannot represent; nothing else changes, and HTML reports declare their encoding.",
  ["inputs"], "all result sets and all strings, including quotes, markup characters, backslashes, control characters and bytes that are not UTF-8",
  "The reporter tests use a few fixed violations with plain-ASCII fields and compare substrings.",
  [R+"JSONReporter.cpp", R+"XMLReporter.cpp", R+"PMDReporter.cpp", R+"HTMLReporter.cpp"],
  [("JSON writer", R+"JSONReporter.cpp"), ("XML writer", R+"XMLReporter.cpp"), ("PMD writer", R+"PMDReporter.cpp"), ("HTML writer", R+"HTMLReporter.cpp")],
  [], ["report text"])

p("C09", "Text and Xcode reports list everything once, in order",
  "The text report shows the counts of files, of files with violations and of violations per priority, and one line per compiler error, compiler warning, analyzer bug and rule violation, each list in order in its own section, the heading of a diagnostic section only if it has entries; the Xcode report shows exactly one line per rule violation, in order. Every rule violation line gives path:line:column, the rule name, its category, its priority and the full message.",
  ["inputs"], "all result sets",
  "The reporter tests look at one or two violations and do not combine sections.",
  [R+"TextReporter.cpp", R+"XcodeReporter.cpp"], [("text writer", R+"TextReporter.cpp"), ("Xcode writer", R+"XcodeReporter.cpp")], [], ["report text"])

p("C10", "Cyclomatic complexity counts every decision and is compared to its limit",
  "The cyclomatic complexity of a function or method is one plus the number of if, for, while, do, case labels, Objective-C for-in, C++ range-based for, C++ and Objective-C catch clauses, conditional operators and logical && and || anywhere inside it, including nested blocks and lambdas. The rule reports a function exactly when this number is greater than the configured limit (default 10), at the function, with both numbers in the message.",
  ["programs", "configurations"], "all functions, all limits",
  "The tests contain a fixed list of tiny functions, mostly one construct each.",
  [M+"lib/CyclomaticComplexityMetric.cpp", U+"rules/size/CyclomaticComplexityRule.cpp"], [("visitor counts", M+"lib/CyclomaticComplexityMetric.cpp"), ("threshold", U+"rules/size/CyclomaticComplexityRule.cpp")], [], ["violation message"])

p("C11", "NPath complexity follows Nejmeh's composition rules and its limit",
  "The NPath complexity of a function body is the product over consecutive statements, with the published composition rule for each compound statement: if = condition + then + (else or 1); while and do = condition + body + 1; for = init + condition + increment + body + 1; switch = condition + the sum over case groups; for-in and range-based for = body + 2; labelled statements and those with attributes = what they contain; other statements 1; a condition contributes one per && or || and, for ?:, the sum of its parts plus 2, reached through parentheses and conversions only. The rule reports a function exactly when this number, however large, is greater than the configured limit (default 200), with both numbers in the message.",
  ["programs", "configurations"], "all function bodies of any size, all limits",
  "The tests contain a fixed list of tiny functions; nothing exercises large products.",
  [M+"lib/NPathComplexityMetric.cpp", M+"include/oclint/metric/NPathComplexityMetric.h", U+"rules/size/NPathComplexityRule.cpp"], [("recursive composition", M+"lib/NPathComplexityMetric.cpp"), ("threshold", U+"rules/size/NPathComplexityRule.cpp")], [], ["violation message"])

p("C12", "The statement count (NCSS) adds up over the function and its limit",
  "The NCSS of a function is one plus the sum over its statements: an empty statement and a block count nothing themselves, every other statement counts one, an attribute nothing, an if with else and a do-while count one more, and for-in and range-based for loops, labels, case labels, try, catch, finally, synchronized and autorelease statements count one each in addition to what they contain. The rule reports a function exactly when this number is greater than the configured limit (default 30), with both numbers in the message.",
  ["programs", "configurations"], "all functions, all limits",
  "The tests contain a fixed list of tiny functions.",
  [M+"lib/NcssMetric.cpp", M+"include/oclint/metric/NcssMetric.h", U+"rules/size/NcssMethodCountRule.cpp"], [("recursive sum", M+"lib/NcssMetric.cpp")], [], ["violation message"])

p("C13", "Nesting depth is the longest chain of nested blocks",
  "The depth of a block is one plus the greatest depth of a block nested in it through any statement (if and else branches, loops of every kind, switch, case and other labels, attributes, try, catch, finally, synchronized, autorelease), or one if there is none. Every block whose depth is greater than the configured limit (default 5), and no other, is reported, with both numbers in the message.",
  ["programs", "configurations"], "all statement trees, all limits",
  "The tests contain a fixed list of tiny functions.",
  [M+"lib/StmtDepthMetric.cpp", M+"include/oclint/metric/StmtDepthMetric.h", U+"rules/size/NestedBlockDepthRule.cpp"], [("recursive maximum", M+"lib/StmtDepthMetric.cpp")], [], ["violation message"])

p("C14", "Size and naming limits are enforced exactly at the limit",
  "A source line (without its line end), a function or method body (except member functions written inside their C++ class), class, parameter list, field list, method list or variable name is reported exactly when its length or count is beyond the configured or default limit (line 100, method 50 lines, class 1000 lines, 20 fields, 30 methods, 10 parameters, names longer than 20 or shorter than 3), never at the limit itself, once per item (at its definition where there are several declarations), with the measured value and the limit in the message. Counters declared in the head of a for or for-in loop and caught C++ exceptions are exempt from the short-name limit, and a name declared by an Objective-C @catch is not judged. Methods of an Objective-C implementation include its synthesized accessors, implicit members of a C++ class do not count, and instance variables count for the interface only.",
  ["programs", "configurations"], "all programs, all limits",
  "The tests check one or two sizes around an overridden limit.",
  [U+"rules/size/LongLineRule.cpp", U+"rules/size/LongMethodRule.cpp", U+"rules/size/LongClassRule.cpp", U+"rules/size/TooManyFieldsRule.cpp", U+"rules/size/TooManyMethodsRule.cpp", U+"rules/size/TooManyParametersRule.cpp", U+"rules/naming/LongVariableNameRule.cpp", U+"rules/naming/ShortVariableNameRule.cpp"],
  [("comparison with the limit", U+"rules/size/, "+U+"rules/naming/")], [], ["the report"])

p("C15", "Empty bodies are reported, and only those",
  "An if, else, for, Objective-C for-in, while or do whose body is an empty block or an empty statement, and a switch, try, catch (C++ or Objective-C) or finally whose body is an empty block, is reported by the rule for that construct, at that body, at every nesting level. A body containing anything - even a nested empty block, a declaration or an empty statement inside the block - is not reported.",
  ["programs"], "all statement trees",
  "Each rule is tested on a few one-construct functions, without nesting or combinations.",
  [U+"rules/empty/", U+"rules/abstract/AbstractEmptyBlockStmtRule.h"], [("emptiness test", U+"rules/abstract/AbstractEmptyBlockStmtRule.h")], [], ["the report"])

p("C16", "Switch statements are judged by their own cases",
  "For every switch: a missing default, a default that is not last, a default although all enumerators are covered, fewer cases than the configured minimum (default 3), an ordinary label among the cases, and a case that falls through are each reported exactly when they occur, at every nesting level. A case falls through when its group (the last one included) has no break, continue, return or throw after it or in it; a goto does not count as one.",
  ["programs", "configurations"], "all switch statements, nested in any way",
  "Each rule is tested on a few fixed switches.",
  [U+"rules/convention/SwitchStatementsShouldHaveDefaultRule.cpp", U+"rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp", U+"rules/convention/CoveredSwitchStatementsDontNeedDefaultRule.cpp", U+"rules/convention/TooFewBranchesInSwitchStatementRule.cpp", U+"rules/convention/NonCaseLabelInSwitchStatementRule.cpp", U+"rules/convention/MissingBreakInSwitchStatementRule.cpp"],
  [("case list walks", U+"rules/convention/")], [], ["the report"])

json_lines = lambda: "\n".join(json.dumps(x, ensure_ascii=False) for x in P) + "\n"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops2.py")).read())
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    f.write(json_lines())
print(len(P), "properties")
