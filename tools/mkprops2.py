p("C17", "Redundant and suspicious conditions are reported exactly where they occur",
  "Each of these is reported if and only if it occurs, at its own place and at every nesting level: an if whose only content is another if of the same kind (neither has an else, the inner condition declares nothing and is not consteval); an if/else or ?: that merely selects opposite boolean constants (or the same constant or variable); an if with else, or a ?:, whose condition is a negation or !=; a final else after branches that all return, in a chain without if constexpr or if consteval; an if or ?: with a constant condition. Likewise: doubled negation, chained unary operators, a bitwise operator in a condition, an oddness test by == 1, an if, return value or initializer wrapped in useless parentheses (those no conversion is applied to).",
  ["programs"], "all statement and expression trees built from these constructs, in any nesting",
  "Each rule is tested on a few one-construct functions, without nesting, mixtures of constructs or near misses in every position.",
  [U+"rules/basic/CollapsibleIfStatementsRule.cpp", U+"rules/redundant/RedundantIfStatementRule.cpp", U+"rules/redundant/RedundantConditionalOperatorRule.cpp", U+"rules/redundant/UnnecessaryElseStatementRule.cpp", U+"rules/redundant/UselessParenthesesRule.cpp", U+"rules/convention/InvertedLogicRule.cpp", U+"rules/basic/ConstantIfExpressionRule.cpp", U+"rules/basic/ConstantConditionalOperatorRule.cpp", U+"rules/basic/DoubleNegativeRule.cpp", U+"rules/basic/MultipleUnaryOperatorRule.cpp", U+"rules/basic/BitwiseOperatorInConditionalRule.cpp", U+"rules/basic/BrokenOddnessCheckRule.cpp"],
  [("pattern tests on statements and conditions", U+"rules/basic/, "+U+"rules/redundant/, "+U+"rules/convention/")], [], ["the report"])

p("C18", "Control flow rules judge jumps and loops by where control can go",
  "In every block the first statement after one that always leaves it (break, continue, return, goto, throw, a block containing one at its own level, or an if whose two branches both leave) is reported as dead unless it is a label or case. Every goto, every return or throw in a finally block, every for loop with only a condition, every inner for loop that steps the variable of the for loop directly around it, every for, for-in, while or do loop whose block ends in break, continue or return, and every long if without else (default: more than 15 lines) that ends a function's block, the body of a for, while or do loop, or is directly followed by the jump that ends its block is reported, each at its own place and at every nesting level, and nothing else is.",
  ["programs", "configurations"], "all statement trees built from these constructs, in any nesting",
  "Each rule is tested on a few small functions; combinations of nested jumps, branches and loops are not reached.",
  [U+"rules/basic/DeadCodeRule.cpp", U+"rules/basic/GotoStatementRule.cpp", U+"rules/basic/ForLoopShouldBeWhileLoopRule.cpp", U+"rules/basic/JumbledIncrementerRule.cpp", U+"rules/basic/ReturnFromFinallyBlockRule.cpp", U+"rules/basic/ThrowExceptionFromFinallyBlockRule.cpp", U+"rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp", U+"rules/convention/PreferEarlyExitRule.cpp"],
  [("exit classification of statements", U+"rules/basic/DeadCodeRule.cpp"), ("last statement of a loop body", U+"rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp")], [], ["the report"])

p("C19", "Variables and parameters are judged by how they are used",
  "A named local variable (also a static, range or caught one; a mention in sizeof or a capture is a use) that is never used is reported unless its class is one of the configured RAII classes or it belongs directly to a function template, and a used one never is; likewise a named parameter of a defined function or Objective-C method (not of a lambda, block or inline or template member) that is never used unless it is marked unused, the method is an IBAction, or the signature is imposed (virtual or overriding method; same-kind Objective-C method declared by a superclass or an adopted protocol, extensions and categories included). An assignment p = ... to a parameter is reported at the assignment exactly once, and an int-like variable alone in its declaration and returned, unconverted and unparenthesised, by the next and last statement of its block is reported at its declaration.",
  ["programs"], "all functions with any number of variables and parameters and any placement of their uses",
  "The tests use one variable or parameter at a time.",
  [U+"rules/unused/UnusedLocalVariableRule.cpp", U+"rules/unused/UnusedMethodParameterRule.cpp", U+"rules/convention/ParameterReassignmentRule.cpp", U+"rules/redundant/RedundantLocalVariableRule.cpp"],
  [("use test", U+"rules/unused/"), ("assignment target lookup", U+"rules/convention/ParameterReassignmentRule.cpp")], [], ["the report"])

p("C20", "C++ class rules follow the inheritance graph",
  "In C++ files a class without a virtual or protected destructor from which a polymorphic class (one with a virtual method or destructor, its own or inherited) publicly derives, directly or through non-polymorphic classes, is reported once for each such derived class, which the message names, and a polymorphic class whose destructor is not virtual is reported once, at its definition. A default argument on a virtual or overriding method is reported where it is written (C++ files). Every declaration of a private static data member or method is reported, and nothing else is.",
  ["programs"], "all class hierarchies with any bases, destructors, access and virtual methods",
  "The tests use one or two classes at a time.",
  [U+"rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp", U+"rules/convention/DestructorOfVirtualClassRule.cpp", U+"rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp", U+"rules/design/AvoidPrivateStaticMembersRule.cpp"],
  [("base class walk", U+"rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp")], [], ["the report"])

p("C21", "Objective-C contract rules enforce what the declarations say",
  "An implementation with an instance method isEqual: but no hash is reported, and for methods annotated with oclint:enforce (at the method, its property or a category's redeclaration, or inherited from a declaration they override) so are, each at its own place: every method definition, instance or class, that overrides one annotated must-call-super (of a superclass, category or adopted protocol) and never sends that message to super, and every call of a prohibited method (property accesses included) or function. Reported as well are every call of a protected method from a class implementation that is neither the class declaring it (for a protocol's method the topmost class of the receiver adopting the protocol) nor a subclass of that, and every class implementation that does not define, even by synthesis, an abstract method its direct superclass declares. An instance variable on the left of an assignment, not reached through a property, is reported outside methods whose name begins with init, its getter and its setter (found by its name without outer underscores), and nothing else is.",
  ["programs"], "all class hierarchies, annotations and calls among their methods",
  "The tests use fixed two- or three-class examples.",
  [U+"rules/cocoa/", U+"rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp", U+"lib/helper/EnforceHelper.cpp", U+"lib/helper/AttributeHelper.cpp"],
  [("annotation lookup", U+"lib/helper/EnforceHelper.cpp"), ("per-rule walks", U+"rules/cocoa/")], [], ["the report"])

p("C22", "Rules and files do not influence each other's verdicts",
  "Analysing any list of files with any set of rules yields, for every file and every rule, exactly the violations of that file and rule analysed alone, grouped by file in command order and within a file by rule, and repeating the run gives the same report. No verdict depends on which other files, rules or functions were analysed before.",
  ["histories", "configurations"], "all sequences of files and rule sets",
  "Rule tests apply one rule to one file in a fresh process state; no test analyses two files in one run.",
  [D+"lib/RulesetBasedAnalyzer.cpp", D+"lib/Driver.cpp", U+"include/oclint/AbstractASTVisitorRule.h", U+"rules/"],
  [("fresh rule context and violation set per file", D+"lib/RulesetBasedAnalyzer.cpp"), ("per-file reset in setUp", U+"rules/")],
  [("rule members", "data a rule keeps between visits", U+"rules/")], ["the report"])

p("C23", "Plug-ins are loaded and chosen by what they declare",
  "All rule libraries in every given directory are loaded and each registers its rules once (a directory that cannot be read contributes none); an unloadable library, or no rules at all, ends the run with the rule-loading status. The reporter used is the one whose name equals the requested type (default text); if there is none, or the reporter directory cannot be read, the run ends with the reporter-loading status. The report goes to the given file, replacing its content, or to standard output, and a report that cannot be opened or written ends the run with the report status.",
  ["configurations", "fault_sequences"], "all combinations of plug-in directories, libraries, requested types and output paths",
  "No test loads a plug-in or writes a report to a file.",
  [D+"rules_dlfcn_port.cpp", D+"reporters_dlfcn_port.cpp", D+"main.cpp", D+"lib/Options.cpp"],
  [("directory scan and dlopen", D+"rules_dlfcn_port.cpp"), ("reporter choice", D+"reporters_dlfcn_port.cpp"), ("output selection", D+"main.cpp")], [], ["report destination", "exit status", "rules that run"])

p("C24", "Null checks are recognised by operator order and operands",
  "A null (or nil) test combined by && or || with a use of the same variable is reported as broken when the use happens exactly if the variable is null (x == null && use, x != null || use), and as misplaced when the use precedes its test (use && x != null, use || x == null); a correctly guarded use never is. A nil test that guards with && an un-negated message to the same receiver is reported as redundant. So, in C++ files, is a null test (the bare variable or != null) of an if without else that guards only a delete of the same variable, optionally followed by resetting it to null.",
  ["programs"], "all combinations of comparison form, logical operator, operand order, variable and use, in any enclosing construct",
  "The tests list a few combinations.",
  [U+"rules/abstract/AbstractNullCheckRule.h", U+"rules/basic/BrokenNullCheckRule.cpp", U+"rules/basic/MisplacedNullCheckRule.cpp", U+"rules/redundant/RedundantNilCheckRule.cpp", U+"rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp"],
  [("operand extraction", U+"rules/abstract/AbstractNullCheckRule.h")], [], ["the report"])

p("C25", "A run leaves everything on disk as it found it, except its report",
  "Whatever the command line, the mode, the compile commands (with any outputs they ask for: objects, assembly, dependency files, diagnostics files, precompiled headers, split debug files, compilation database fragments) and however the run ends, no file or directory is created, changed or removed except the report named by -o. That one is written only if the run reaches its report stage and is otherwise left as it was; its content equals what the same run would write to standard output. (Module caches of -fmodules and dumps requested with -Xclang analyzer options are excluded.)",
  ["configurations", "fault_sequences"], "all command lines, compile commands, modes and outcomes",
  "No test runs the program or looks at the disk afterwards.",
  [D+"lib/Driver.cpp", D+"main.cpp", D+"lib/CompilerInstance.cpp"],
  [("adjustment of the compiler invocation", D+"lib/Driver.cpp"), ("output selection", D+"main.cpp")], [], ["file system", "report"])

p("C26", "CUDA kernels and other functions are examined by the rules made for them",
  "A command that compiles a CUDA source for host and devices is analysed once, as one of its compilations. In CUDA sources each kernel is examined exactly by the rules declaring support for kernels and every other function by those supporting C++ (host or device code), wherever it is declared (namespaces, templates, classes), and other declarations by every rule supporting C++; in sources of other languages a rule for kernels only is not run. Branch divergence reports every if with an else in a kernel and nothing else, and cyclomatic complexity is judged for both.",
  ["programs", "configurations"], "all CUDA sources, all sets of rules with any declared languages, all compile commands",
  "No test compiles a CUDA source.",
  [U+"include/oclint/AbstractASTVisitorRule.h", U+"include/oclint/AbstractASTRuleBase.h", U+"lib/AbstractASTRuleBase.cpp", D+"lib/Driver.cpp", U+"rules/cuda/"],
  [("language filter per function", U+"include/oclint/AbstractASTVisitorRule.h"), ("choice of the compilation", D+"lib/Driver.cpp")], [], ["declarations a rule visits", "the report"])

p("C27", "A method is called envious exactly of the classes it uses more than its own",
  "In each Objective-C method definition the messages written out, property accesses (a compound assignment or increment is one) and instance variable accesses, nested blocks and statements included, count for the class their receiver statically has, or that is named or stands behind an alias; those through super, to id or Class, or to an object known only by protocols count for none, and self is the method's own class in class methods too. The method is reported, once each and naming both, for every other class counted more often than its own class, and nothing else is.",
  ["programs"], "all methods with any uses of their own and other classes",
  "The tests hold methods of one to three messages.",
  [U+"rules/design/FeatureEnvyRule.cpp"], [("count per receiver class", U+"rules/design/FeatureEnvyRule.cpp")], [], ["the report"])

p("C28", "Literals are advised exactly where a call can be replaced by one",
  "A message creating a number is reported as replaceable by a literal exactly if its argument is a literal of the type its selector names (character literal, YES or NO for those), and by a boxed expression exactly if the argument is a parenthesised value of that type, an enumeration constant for int (in C), or, for strings, a called or parenthesised char *. The creation messages of NSArray and NSDictionary that container literals replace, and the element accesses of variables declared as (mutable) arrays and dictionaries that subscripts replace, are reported, each at the message, at any nesting, at most one advice per message, in Objective-C and Objective-C++, and nothing else is: not other classes (subclasses included), other selectors or other argument types.",
  ["programs"], "all messages to the four classes with any argument, nested in any way",
  "The tests sample a few selectors and argument forms each.",
  [U+"rules/migration/"], [("selector and argument type tables", U+"rules/migration/")], [], ["the report"])
