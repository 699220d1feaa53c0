From cf078a2d6043e2d0dba9dfd8389a56769eecb3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 01/51] fix: keep NPath complexity from overflowing int

---
 oclint-metrics/lib/NPathComplexityMetric.cpp | 43 ++++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 15bb38e..30a2777 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -1,14 +1,30 @@
 #include "oclint/metric/NPathComplexityMetric.h"
 
+#include <limits>
+
 using namespace oclint;
 
+// NPath multiplies over sequential statements, so it easily leaves the range of int;
+// the number stays at the largest int then
+static const int MAX_NPATH = std::numeric_limits<int>::max();
+
+static int add(int lhs, int rhs)
+{
+    return lhs > MAX_NPATH - rhs ? MAX_NPATH : lhs + rhs;
+}
+
+static int multiply(int lhs, int rhs)
+{
+    return rhs != 0 && lhs > MAX_NPATH / rhs ? MAX_NPATH : lhs * rhs;
+}
+
 int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
 {
     int npath = 1;
     for (clang::CompoundStmt::body_iterator body = stmt->body_begin(), bodyEnd = stmt->body_end();
         body != bodyEnd; body++)
     {
-        npath *= nPath(*body);
+        npath = multiply(npath, nPath(*body));
     }
     return npath;
 }
@@ -21,17 +37,17 @@ int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
     {
         nPathElseStmt = nPath(elseStmt);
     }
-    return nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt;
+    return add(add(nPath(stmt->getCond()), nPath(stmt->getThen())), nPathElseStmt);
 }
 
 int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return add(add(nPath(stmt->getCond()), nPath(stmt->getBody())), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return add(add(nPath(stmt->getCond()), nPath(stmt->getBody())), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
@@ -59,8 +75,8 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
     // As a conclusion, in my opinion, same logic in different formats should not reduce
     // the complexity. However, here, I will follow Nejmeh's NPath
 
-    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
-        + nPath(stmt->getBody()) + 1;
+    int nPathHead = add(add(nPath(stmt->getInit()), nPath(stmt->getCond())), nPath(stmt->getInc()));
+    return add(add(nPathHead, nPath(stmt->getBody())), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
@@ -73,7 +89,7 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     // So, convert to same logic in for statement, we assume the NPath complexity as below
     // NP(Foreach) := NP((for-range)) + 2
 
-    return nPath(stmt->getBody()) + 2;
+    return add(nPath(stmt->getBody()), 2);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
@@ -82,7 +98,7 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     clang::Stmt *body = stmt->getBody();
     if(!clang::isa<clang::CompoundStmt>(body))
     {
-        return nPathSwitchStmt + nPath(body);
+        return add(nPathSwitchStmt, nPath(body));
     }
     clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
     for (clang::CompoundStmt::body_iterator bodyStmt = compound->body_begin(),
@@ -90,15 +106,15 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     {
         if (clang::isa<clang::SwitchCase>(*bodyStmt))
         {
-            nPathSwitchStmt += internalNPath;
+            nPathSwitchStmt = add(nPathSwitchStmt, internalNPath);
             internalNPath = nPath(*bodyStmt);
         }
         else
         {
-            internalNPath *= nPath(*bodyStmt);
+            internalNPath = multiply(internalNPath, nPath(*bodyStmt));
         }
     }
-    return nPathSwitchStmt + internalNPath;
+    return add(nPathSwitchStmt, internalNPath);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
@@ -108,14 +124,15 @@ int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
 
 int NPathComplexityMetric::nPath(clang::ConditionalOperator *expr)
 {
-    return nPath(expr->getCond()) + nPath(expr->getTrueExpr()) + nPath(expr->getFalseExpr()) + 2;
+    return add(add(nPath(expr->getCond()), nPath(expr->getTrueExpr())),
+        add(nPath(expr->getFalseExpr()), 2));
 }
 
 int NPathComplexityMetric::nPath(clang::BinaryOperator *expr)
 {
     if (expr->getOpcode() == clang::BO_LAnd || expr->getOpcode() == clang::BO_LOr)
     {
-        return 1 + nPath(expr->getLHS()) + nPath(expr->getRHS());
+        return add(add(nPath(expr->getLHS()), nPath(expr->getRHS())), 1);
     }
     return 0;
 }
-- 
2.43.0


From 0c4baf93b07f9311bdbeffa4fb7e540a9a8537bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 02/51] fix: keep config file values alive after the file's
 buffer is gone

---
 oclint-driver/include/oclint/ConfigFile.h | 26 ++++++++++++-----------
 oclint-driver/lib/ConfigFile.cpp          | 15 ++++++-------
 oclint-driver/lib/Options.cpp             | 14 ++++++------
 3 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..17e85d1 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,8 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <optional>
+#include <string>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -14,12 +16,12 @@ namespace option
 class RuleConfigurationPair
 {
 private:
-    llvm::StringRef _key;
-    llvm::StringRef _value;
+    std::string _key;
+    std::string _value;
 
 public:
-    const llvm::StringRef &key() const;
-    const llvm::StringRef &value() const;
+    const std::string &key() const;
+    const std::string &value() const;
 
     void mapping(llvm::yaml::IO& io);
 };
@@ -30,12 +32,12 @@ class ConfigFile
 {
 private:
     std::string _path;
-    std::vector<llvm::StringRef> _rules;
-    std::vector<llvm::StringRef> _disableRules;
-    std::vector<llvm::StringRef> _rulePaths;
+    std::vector<std::string> _rules;
+    std::vector<std::string> _disableRules;
+    std::vector<std::string> _rulePaths;
     std::vector<RuleConfigurationPair> _ruleConfigurations;
-    llvm::StringRef _output;
-    llvm::StringRef _reportType;
+    std::string _output;
+    std::string _reportType;
     int _maxP1;
     int _maxP2;
     int _maxP3;
@@ -47,9 +49,9 @@ public:
     explicit ConfigFile(const std::string &path);
 
     const std::string &path() const;
-    const std::vector<llvm::StringRef> &rules() const;
-    const std::vector<llvm::StringRef> &disableRules() const;
-    const std::vector<llvm::StringRef> &rulePaths() const;
+    const std::vector<std::string> &rules() const;
+    const std::vector<std::string> &disableRules() const;
+    const std::vector<std::string> &rulePaths() const;
     const std::vector<RuleConfigurationPair> &ruleConfigurations() const;
     std::optional<std::string> output() const;
     std::optional<std::string> reportType() const;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..a19a412 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -31,12 +31,12 @@ struct MappingTraits<RuleConfigurationPair>
 }
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::key() const
+const std::string &oclint::option::RuleConfigurationPair::key() const
 {
     return _key;
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::value() const
+const std::string &oclint::option::RuleConfigurationPair::value() const
 {
     return _value;
 }
@@ -111,17 +111,17 @@ const std::string &oclint::option::ConfigFile::path() const
     return _path;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rules() const
+const std::vector<std::string> &oclint::option::ConfigFile::rules() const
 {
     return _rules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::disableRules() const
+const std::vector<std::string> &oclint::option::ConfigFile::disableRules() const
 {
     return _disableRules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rulePaths() const
+const std::vector<std::string> &oclint::option::ConfigFile::rulePaths() const
 {
     return _rulePaths;
 }
@@ -131,10 +131,9 @@ const std::vector<RuleConfigurationPair> &oclint::option::ConfigFile::ruleConfig
     return _ruleConfigurations;
 }
 
-static std::optional<std::string> createOptionalString(const llvm::StringRef &value)
+static std::optional<std::string> createOptionalString(const std::string &value)
 {
-    const std::string &string = value.str();
-    return string.size() ? std::optional<std::string>(string) : std::optional<std::string>();
+    return value.size() ? std::optional<std::string>(value) : std::optional<std::string>();
 }
 
 std::optional<std::string> oclint::option::ConfigFile::output() const
diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..748aee2 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -143,22 +143,22 @@ static void processConfigFile(const std::string &path)
     oclint::option::ConfigFile config(path);
     for (const oclint::option::RuleConfigurationPair &ruleConfig : config.ruleConfigurations())
     {
-        consumeRuleConfiguration(ruleConfig.key().str(), ruleConfig.value().str());
+        consumeRuleConfiguration(ruleConfig.key(), ruleConfig.value());
     }
-    for (const llvm::StringRef &rulePath : config.rulePaths())
+    for (const std::string &rulePath : config.rulePaths())
     {
-        argRulesPath.push_back(rulePath.str());
+        argRulesPath.push_back(rulePath);
     }
     std::vector<std::string> enableRules;
-    for (auto rule : config.rules())
+    for (const auto &rule : config.rules())
     {
-        enableRules.push_back(rule.str());
+        enableRules.push_back(rule);
     }
     filter.enableRules(enableRules.begin(), enableRules.end());
     std::vector<std::string> disableRules;
-    for (auto rule : config.disableRules())
+    for (const auto &rule : config.disableRules())
     {
-        disableRules.push_back(rule.str());
+        disableRules.push_back(rule);
     }
     filter.disableRules(disableRules.begin(), disableRules.end());
 
-- 
2.43.0


From 00ace7f5d5006d48e7da023f556faa7ae0935bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 03/51] fix: do not remember suppressed lines and ranges across
 compilations and rules

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 92 +++++++---------------
 1 file changed, 27 insertions(+), 65 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..63128c7 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -2,15 +2,12 @@
 
 #include <regex>
 #include <set>
-#include <unordered_map>
 #include <utility>
 
 #include <clang/AST/ParentMapContext.h>
 #include <clang/AST/RecursiveASTVisitor.h>
 #include <clang/Basic/SourceManager.h>
 
-#include "oclint/RuleCarrier.h"
-
 #include "oclint/helper/AttributeHelper.h"
 
 bool markedAsSuppress(const clang::Decl *decl, oclint::RuleBase *rule)
@@ -107,85 +104,50 @@ public:
     }
 };
 
-std::string getMainFilePath(clang::ASTContext &context)
-{
-    oclint::RuleCarrier ruleCarrier(&context, nullptr);
-    return ruleCarrier.getMainFilePath();
-}
-
-typedef std::unordered_map<std::string, std::set<int>> LineMap;
-static LineMap singleLineMapping;
-
-
-
 bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentLinesIt = singleLineMapping.find(filePath);
-    std::set<int> commentLines;
-    if (commentLinesIt == singleLineMapping.end())
+    auto mainFileID = context.getSourceManager().getMainFileID();
+    const auto commentMap = context.Comments.getCommentsInFile(mainFileID);
+    if (commentMap == nullptr)
+    {
+        return false;
+    }
+    for (const auto &c : *commentMap)
     {
-        auto mainFileID = context.getSourceManager().getMainFileID();
-        auto commentList = context.Comments;
-        const auto commentMap = commentList.getCommentsInFile(mainFileID);
-        if (commentMap != nullptr)
+        auto comment = c.second;
+        if (comment == nullptr)
         {
-            for (auto c : *commentMap)
-            {
-                auto comment = c.second;
-                if (comment == nullptr)
-                {
-                    continue;
-                }
+            continue;
+        }
 // g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
 // so we will ship this once Ubuntu 16.04 releases
 #if defined(__APPLE__) || defined(__MACH__)
-                std::string commentString = comment->getRawText(context.getSourceManager()).str();
-                std::regex oclintRegex =
-                    std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
-                if (std::regex_search(commentString, oclintRegex))
+        std::string commentString = comment->getRawText(context.getSourceManager()).str();
+        std::regex oclintRegex =
+            std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
+        if (std::regex_search(commentString, oclintRegex))
 #else
-                if (std::string::npos !=
-                    comment->getRawText(context.getSourceManager()).find("//!OCLINT"))
+        if (std::string::npos !=
+            comment->getRawText(context.getSourceManager()).find("//!OCLINT"))
 #endif
-                {
-                    clang::SourceLocation startLocation = comment->getBeginLoc();
-                    int startLocationLine =
-                        context.getSourceManager().getPresumedLineNumber(startLocation);
-                    commentLines.insert(startLocationLine);
-                }
+        {
+            clang::SourceLocation startLocation = comment->getBeginLoc();
+            int startLocationLine =
+                context.getSourceManager().getPresumedLineNumber(startLocation);
+            if (startLocationLine == beginLine)
+            {
+                return true;
             }
         }
-        singleLineMapping[filePath] = commentLines;
-    }
-    else
-    {
-        commentLines = commentLinesIt->second;
     }
 
-    return commentLines.find(beginLine) != commentLines.end();
+    return false;
 }
 
-typedef std::unordered_map<std::string, RangeSet> RangeMap;
-static RangeMap rangeMapping;
-
 bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentRangesIt = rangeMapping.find(filePath);
-    RangeSet commentRanges;
-    if (commentRangesIt == rangeMapping.end())
-    {
-        DeclAnnotationRangeCollector annotationCollector;
-        commentRanges = annotationCollector.collect(context, rule);
-        rangeMapping[filePath] = commentRanges;
-    }
-    else
-    {
-        commentRanges = commentRangesIt->second;
-    }
-
-    for (const auto& range : commentRanges)
+    DeclAnnotationRangeCollector annotationCollector;
+    for (const auto& range : annotationCollector.collect(context, rule))
     {
         if (beginLine >= range.first && beginLine <= range.second)
         {
-- 
2.43.0


From 18dd40a3954fab8b02147e1db3240de6b0e91524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 04/51] fix: compare suppressing comment lines of the main file
 with lines of the main file only

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..ce67b67 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -15,7 +15,9 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     clang::SourceLocation startFileLoc = sourceManager->getFileLoc(startLocation);
     clang::SourceLocation endFileLoc = sourceManager->getFileLoc(endLocation);
     int beginLine = sourceManager->getPresumedLineNumber(startFileLoc);
-    if (!shouldSuppress(beginLine, *_carrier->getASTContext()))
+    /* the suppressing comments are those of the main file */
+    if (!sourceManager->isInMainFile(startFileLoc) ||
+        !shouldSuppress(beginLine, *_carrier->getASTContext()))
     {
         llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
         _carrier->addViolation(filename.str(),
-- 
2.43.0


From 3052244fe1d88466b16051f59a232dc3e39cae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 05/51] fix: read configuration and write reports in working
 directories with long paths

---
 oclint-driver/lib/Options.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 748aee2..38113b9 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -1,5 +1,6 @@
 #include "oclint/Options.h"
 
+#include <climits>
 #include <unistd.h>
 
 #include <llvm/Option/OptTable.h>
@@ -180,8 +181,8 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    char path[PATH_MAX];
+    if (getcwd(path, sizeof(path)))
     {
         absoluteWorkingPath = std::string(path);
     }
-- 
2.43.0


From 44bd8683d3367585ca94fa03b34052eb04c251cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 06/51] fix: write the month of the XML report's date counted
 from one

---
 oclint-reporters/reporters/XMLReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..1bf7364 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
-- 
2.43.0


From a9a702ef5abdc4272020d94a1121e8dc5e26ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 07/51] fix: escape strings in JSON reports

---
 oclint-reporters/reporters/JSONReporter.cpp | 28 ++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..cdd20d7 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <ctime>
 
 #include "oclint/Constants.h"
@@ -72,10 +73,35 @@ public:
         }
     }
 
+    std::string escape(const std::string &value)
+    {
+        std::string output;
+        output.reserve(value.size());
+        for (const unsigned char c : value)
+        {
+            if (c == '"' || c == '\\')
+            {
+                output += '\\';
+                output += c;
+            }
+            else if (c < 0x20 || c == 0x7f)
+            {
+                char unicode[8];
+                snprintf(unicode, sizeof(unicode), "\\u%04x", c);
+                output += unicode;
+            }
+            else
+            {
+                output += c;
+            }
+        }
+        return output;
+    }
+
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << escape(value) << "\"";
         writeComma(out, last);
     }
 
-- 
2.43.0


From c5420e4fe3004d70f226a401288809643b93239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 08/51] fix: escape strings in XML reports

---
 oclint-reporters/reporters/XMLReporter.cpp | 50 ++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 1bf7364..ea7626a 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -89,6 +89,56 @@ public:
         out << "></violation>";
     }
 
+    std::string escape(const std::string &value)
+    {
+        std::string output;
+        output.reserve(value.size());
+        for (const unsigned char c : value)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                default:
+                    // XML has no representation for other control characters
+                    if (c < 0x20)
+                    {
+                        output += "\xEF\xBF\xBD";
+                    }
+                    else
+                    {
+                        output += c;
+                    }
+                    break;
+            }
+        }
+        return output;
+    }
+
+    void writeViolationAttribute(std::ostream &out, std::string key, const std::string &value)
+    {
+        out << " " << key << "=\"" << escape(value) << "\"";
+    }
+
     template <typename T>
     void writeViolationAttribute(std::ostream &out, std::string key, T value)
     {
-- 
2.43.0


From 321cda6532b286c51f234ee944ae9284c7886e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 09/51] fix: escape paths, rules and rulesets in PMD reports

---
 oclint-reporters/reporters/PMDReporter.cpp | 23 ++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..949e93f 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -29,8 +29,8 @@ private:
         void write(std::ostream &out) const
         {
             out << "priority=\"" << priority << "\" ";
-            out << "rule=\"" << name << "\" ";
-            out << "ruleset=\"" << category << "\" ";
+            out << "rule=\"" << xmlEscape(name) << "\" ";
+            out << "ruleset=\"" << xmlEscape(category) << "\" ";
         }
     };
 
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscape(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
@@ -97,7 +97,7 @@ private:
         out << "</file>" << std::endl;
     }
 
-    std::string xmlEscape(const std::string &data)
+    static std::string xmlEscape(const std::string &data)
     {
         std::string output;
         output.reserve(data.size());
@@ -120,7 +120,22 @@ private:
                 case '\'':
                     output += "&apos;";
                     break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
                 default:
+                    if (static_cast<unsigned char>(c) < 0x20)
+                    {
+                        // XML has no representation for other control characters
+                        output += "\xEF\xBF\xBD";
+                        break;
+                    }
                     output += c;
                     break;
             }
-- 
2.43.0


From 405332163cc349dfe62b0f9a85a9906ce7c5ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 10/51] fix: escape text in HTML reports

---
 oclint-reporters/reporters/HTMLReporter.cpp | 41 +++++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..5d80367 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -66,25 +66,50 @@ public:
             << "OCLint v" << version << "</a>.</p>";
     }
 
+    std::string escape(const std::string &text)
+    {
+        std::string output;
+        output.reserve(text.size());
+        for (const auto &c : text)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
-        out << "<td>" << rule->name() << "</td>"
-            << "<td>" << rule->category() << "</td>"
+        out << "<td>" << escape(rule->name()) << "</td>"
+            << "<td>" << escape(rule->category()) << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << escape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << escape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +125,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << escape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From 65c528de006e73badddf52f3522b1d26458ba03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 11/51] fix: end with the reporting status when the report
 cannot be written

---
 oclint-driver/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oclint-driver/main.cpp b/oclint-driver/main.cpp
index 0810174..7f93bcc 100644
--- a/oclint-driver/main.cpp
+++ b/oclint-driver/main.cpp
@@ -70,6 +70,14 @@ void disposeOutStream(ostream* out)
         ofstream *fout = (ofstream *)out;
         fout->close();
     }
+    else if (out)
+    {
+        out->flush();
+    }
+    if (out && out->fail())
+    {
+        throw oclint::GenericException("cannot write report");
+    }
 }
 
 void listRules()
-- 
2.43.0


From a3b6dbf5c9c2d419d8213fb00dbf4f403de7b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 12/51] fix: measure a function once, at its definition, and
 not at its other declarations

---
 oclint-rules/rules/size/LongMethodRule.cpp        | 5 ++++-
 oclint-rules/rules/size/NPathComplexityRule.cpp   | 5 ++++-
 oclint-rules/rules/size/NcssMethodCountRule.cpp   | 5 ++++-
 oclint-rules/rules/size/TooManyParametersRule.cpp | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index a645e00..6502056 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -87,7 +87,10 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 8bf664a..4eda0a3 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -126,7 +126,10 @@ Brian A. Nejmeh  (1988). `"NPATH: a measure of execution path complexity and its
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NcssMethodCountRule.cpp b/oclint-rules/rules/size/NcssMethodCountRule.cpp
index b84e450..99b1d2c 100644
--- a/oclint-rules/rules/size/NcssMethodCountRule.cpp
+++ b/oclint-rules/rules/size/NcssMethodCountRule.cpp
@@ -98,7 +98,10 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/TooManyParametersRule.cpp b/oclint-rules/rules/size/TooManyParametersRule.cpp
index 9edc21b..baecef1 100644
--- a/oclint-rules/rules/size/TooManyParametersRule.cpp
+++ b/oclint-rules/rules/size/TooManyParametersRule.cpp
@@ -101,7 +101,10 @@ Fowler, Martin (1999). *Refactoring: Improving the design of existing code.* Add
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
 
         return true;
     }
-- 
2.43.0


From 28447f2f5c7f03e9c0c1805635bd0290dc7b9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 13/51] fix: do not count the cases of nested switches as
 branches of the outer one

---
 .../TooFewBranchesInSwitchStatementRule.cpp   | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
index ca132e8..dbb00e0 100644
--- a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
@@ -9,25 +9,20 @@ using namespace oclint;
 class TooFewBranchesInSwitchStatementRule :
     public AbstractASTVisitorRule<TooFewBranchesInSwitchStatementRule>
 {
-    class CountCaseStmts : public RecursiveASTVisitor<CountCaseStmts>
+private:
+    int countCaseStmts(SwitchStmt *switchStmt)
     {
-    private:
-        int _count;
-
-    public:
-        int count(SwitchStmt *switchStmt)
+        int count = 0;
+        for (SwitchCase *switchCase = switchStmt->getSwitchCaseList(); switchCase;
+            switchCase = switchCase->getNextSwitchCase())
         {
-            _count = 0;
-            (void) /* explicitly ignore the return of this function */ TraverseStmt(switchStmt);
-            return _count;
+            if (isa<CaseStmt>(switchCase))
+            {
+                count++;
+            }
         }
-
-        bool VisitCaseStmt(CaseStmt *)
-        {
-            _count++;
-            return true;
-        }
-    };
+        return count;
+    }
 
 public:
     virtual const string name() const override
@@ -86,8 +81,7 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        CountCaseStmts countCaseStmts;
-        int numberOfCaseStmts = countCaseStmts.count(switchStmt);
+        int numberOfCaseStmts = countCaseStmts(switchStmt);
         int threshold = RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3);
         if (numberOfCaseStmts < threshold)
         {
-- 
2.43.0


From 8509f5cd2ea7ee8a6fa71f2b61d30c07f4a84d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 14/51] fix: exempt every loop counter and caught exception
 from the short variable name limit

---
 .../rules/naming/ShortVariableNameRule.cpp    | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..6053d3e 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -1,4 +1,4 @@
-#include <stack>
+#include <set>
 
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
@@ -12,21 +12,13 @@ using namespace oclint;
 class ShortVariableNameRule : public AbstractASTVisitorRule<ShortVariableNameRule>
 {
 private:
-    std::stack<VarDecl *> _suppressVarDecls;
-
-    void clearVarDeclsStack()
-    {
-        while (!_suppressVarDecls.empty())
-        {
-            _suppressVarDecls.pop();
-        }
-    }
+    std::set<VarDecl *> _suppressVarDecls;
 
     void handleVarDecl(VarDecl *varDecl)
     {
         if (varDecl)
         {
-            _suppressVarDecls.push(varDecl);
+            _suppressVarDecls.insert(varDecl);
         }
     }
 
@@ -99,6 +91,11 @@ public:
     }
 #endif
 
+    virtual void setUp() override
+    {
+        _suppressVarDecls.clear();
+    }
+
     bool VisitVarDecl(VarDecl *varDecl)
     {
         std::string varName = varDecl->getNameAsString();
@@ -109,14 +106,9 @@ public:
             return true;
         }
 
-        if (!_suppressVarDecls.empty())
+        if (_suppressVarDecls.count(varDecl) > 0)
         {
-            VarDecl *topVarDecl = _suppressVarDecls.top();
-            _suppressVarDecls.pop();
-            if (varDecl == topVarDecl)
-            {
-                return true;
-            }
+            return true;
         }
 
         string description = "Length of variable name `" + varName +
@@ -129,7 +121,6 @@ public:
 
     bool VisitForStmt(ForStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getInit());
 
         return true;
@@ -137,7 +128,6 @@ public:
 
     bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(forStmt->getLoopVariable());
 
         return true;
@@ -146,7 +136,6 @@ public:
 
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getElement());
 
         return true;
@@ -154,7 +143,6 @@ public:
 
     bool VisitCXXCatchStmt(CXXCatchStmt *catchStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(catchStmt->getExceptionDecl());
 
         return true;
-- 
2.43.0


From 0f842c2a1cf85c3900d8bc1d386af56be6461057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 15/51] fix: recognise the same variable or string in both
 branches of a C++ conditional operator

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f726478..be71799 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -114,8 +114,8 @@ private:
 
     bool isStringLiteralEquals(Expr *trueExpr, Expr *falseExpr)
     {
-        StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
-        StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
+        StringLiteral *trueStr = dyn_cast<StringLiteral>(trueExpr->IgnoreImpCasts());
+        StringLiteral *falseStr = dyn_cast<StringLiteral>(falseExpr->IgnoreImpCasts());
         return trueStr && falseStr && trueStr->getString() == falseStr->getString();
     }
 
@@ -139,8 +139,9 @@ private:
 
     bool isSameVariable(Expr *trueExpr, Expr *falseExpr)
     {
-        DeclRefExpr *trueDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(trueExpr);
-        DeclRefExpr *falseDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(falseExpr);
+        // in C++ lvalues of the same type are not converted
+        DeclRefExpr *trueDeclRef = dyn_cast<DeclRefExpr>(trueExpr->IgnoreImpCasts());
+        DeclRefExpr *falseDeclRef = dyn_cast<DeclRefExpr>(falseExpr->IgnoreImpCasts());
         return trueDeclRef && falseDeclRef && trueDeclRef->getDecl() == falseDeclRef->getDecl();
     }
 
-- 
2.43.0


From ebd036ffbbb1bc0e83619cf8b53035e7908b4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 16/51] fix: recognise a misplaced default whose statement
 holds later case labels

---
 ...faultLabelNotLastInSwitchStatementRule.cpp | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp b/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
index e62e1cb..e56eaef 100644
--- a/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
@@ -68,18 +68,27 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        // SwitchCaseList has a linked data structure in the reversed order
-
-        SwitchCase *currentSwitchCase = switchStmt->getSwitchCaseList();
+        // SwitchCaseList is not in source order when a label is nested in another label's statement
+        SwitchCase *defaultLabel = switchStmt->getSwitchCaseList();
+        while (defaultLabel && !isa<DefaultStmt>(defaultLabel))
+        {
+            defaultLabel = defaultLabel->getNextSwitchCase();
+        }
+        if (!defaultLabel)
+        {
+            return true;
+        }
 
-        while (currentSwitchCase && isa<CaseStmt>(currentSwitchCase))
+        SourceManager &sourceManager = _carrier->getSourceManager();
+        for (SwitchCase *label = switchStmt->getSwitchCaseList(); label;
+            label = label->getNextSwitchCase())
         {
-            SwitchCase *nextSwitchCase = currentSwitchCase->getNextSwitchCase();
-            if (nextSwitchCase && isa<DefaultStmt>(nextSwitchCase))
+            if (isa<CaseStmt>(label) && sourceManager.isBeforeInTranslationUnit(
+                defaultLabel->getKeywordLoc(), label->getKeywordLoc()))
             {
-                addViolation(nextSwitchCase, this);
+                addViolation(defaultLabel, this);
+                break;
             }
-            currentSwitchCase = nextSwitchCase;
         }
 
         return true;
-- 
2.43.0


From a76bb481352f75583a2b103c10adc78538b01024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 17/51] fix: keep the source file when the analyzer replaces a
 syntax check that is not the last argument

---
 oclint-driver/lib/Driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index d05445c..94df06b 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -190,11 +190,11 @@ static clang::CompilerInvocation *newCompilerInvocation(
         argv.push_back(commandLine[0].c_str());
         argv.push_back("--analyze");
         start = 1;
-        end -= 1;
     }
     for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
     {
-        if (commandLine[cmdIndex] != "-gmodules")
+        bool replacedByAnalyze = runClangChecker && commandLine[cmdIndex] == "-fsyntax-only";
+        if (commandLine[cmdIndex] != "-gmodules" && !replacedByAnalyze)
         {
             argv.push_back(commandLine[cmdIndex].c_str());
         }
-- 
2.43.0


From 68afa1760572b518bdf938cc085ce1c612b12c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 18/51] fix: count methods and fields of a class once, without
 its implicit methods

---
 oclint-rules/rules/size/TooManyFieldsRule.cpp  | 8 ++++++++
 oclint-rules/rules/size/TooManyMethodsRule.cpp | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/size/TooManyFieldsRule.cpp b/oclint-rules/rules/size/TooManyFieldsRule.cpp
index 5aa4707..aef7e9c 100644
--- a/oclint-rules/rules/size/TooManyFieldsRule.cpp
+++ b/oclint-rules/rules/size/TooManyFieldsRule.cpp
@@ -76,6 +76,10 @@ public:
 
     bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
         int fieldCount = decl->ivar_size();
         if (fieldCount > _threshold)
         {
@@ -88,6 +92,10 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
         int fieldCount = distance(decl->field_begin(), decl->field_end());
         if (fieldCount > _threshold)
         {
diff --git a/oclint-rules/rules/size/TooManyMethodsRule.cpp b/oclint-rules/rules/size/TooManyMethodsRule.cpp
index 2425b1e..0238b6b 100644
--- a/oclint-rules/rules/size/TooManyMethodsRule.cpp
+++ b/oclint-rules/rules/size/TooManyMethodsRule.cpp
@@ -96,7 +96,8 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
-        int methodCount = distance(decl->method_begin(), decl->method_end());
+        int methodCount = count_if(decl->method_begin(), decl->method_end(),
+            [](CXXMethodDecl *method) { return !method->isImplicit(); });
         if (methodCount > _threshold)
         {
             string description = "C++ class with " + toString<int>(methodCount) +
-- 
2.43.0


From fc5a86e224662d703ad9cb6c4178fa7db200d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 19/51] fix: report a class without virtual destructor once, at
 its definition

---
 oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index b1f0b92..46e15de 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -69,7 +69,7 @@ public:
     bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
     {
         if (cxxRecordDecl != nullptr
-            && cxxRecordDecl->hasDefinition()
+            && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic()
             && !hasVirtualDestructor(*cxxRecordDecl))
         {
-- 
2.43.0


From 9da4bf2749936dd33dddd7faa0b7e396a2ab956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 20/51] fix: report default arguments on virtual methods only
 where they are written

---
 .../rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp b/oclint-rules/rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp
index 79f0a20..df05937 100644
--- a/oclint-rules/rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp
+++ b/oclint-rules/rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp
@@ -10,7 +10,7 @@ namespace clang {
 namespace ast_matchers {
 AST_MATCHER(ParmVarDecl, hasDefaultArg)
 {
-    return Node.hasDefaultArg();
+    return Node.hasDefaultArg() && !Node.hasInheritedDefaultArg();
 }
 } // namespace ast_matchers
 } // namespace clang
-- 
2.43.0


From cf8ebfc91c2926fd5e80d4e3918b6a9bae693676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 21/51] fix: look through parentheses and implicit conversions
 in null checks

---
 .../rules/abstract/AbstractNullCheckRule.h    | 96 ++++++-------------
 .../rules/redundant/RedundantNilCheckRule.cpp |  2 +-
 2 files changed, 29 insertions(+), 69 deletions(-)

diff --git a/oclint-rules/rules/abstract/AbstractNullCheckRule.h b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
index dc0fe54..ad42b96 100644
--- a/oclint-rules/rules/abstract/AbstractNullCheckRule.h
+++ b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
@@ -7,53 +7,36 @@ class AbstractNullCheckRule : public oclint::AbstractASTVisitorRule<T>
 protected:
     bool isNullToPointer(clang::Expr *expr)
     {
-        clang::ImplicitCastExpr *implicitCastExpr =
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(expr);
-        if (implicitCastExpr)
+        while (expr)
         {
-            clang::CastKind castKind = implicitCastExpr->getCastKind();
-            if (castKind == clang::CK_NullToPointer)
+            clang::CastExpr *castExpr = clang::dyn_cast<clang::CastExpr>(expr->IgnoreParens());
+            if (!castExpr)
             {
-                return true;
+                return false;
             }
-            if (castKind == clang::CK_BitCast)
+            if (castExpr->getCastKind() == clang::CK_NullToPointer)
             {
-                clang::Expr *subExpr = implicitCastExpr->getSubExpr();
-                while (subExpr && clang::isa<clang::ParenExpr>(subExpr))
-                {
-                    clang::ParenExpr *parenExpr = clang::dyn_cast<clang::ParenExpr>(subExpr);
-                    subExpr = parenExpr->getSubExpr();
-                }
-                clang::CStyleCastExpr *cStyleCastExpr =
-                    clang::dyn_cast_or_null<clang::CStyleCastExpr>(subExpr);
-                return cStyleCastExpr && cStyleCastExpr->getCastKind() == clang::CK_NullToPointer;
+                return true;
             }
+            expr = castExpr->getSubExpr();
         }
         return false;
     }
 
-    bool isImplicitDeclRef(clang::Expr *expr)
+    clang::Expr *ignoreParens(clang::Expr *expr)
     {
-        clang::ImplicitCastExpr *implicitCastExpr =
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(expr);
-        if (implicitCastExpr)
-        {
-            clang::CastKind castKind = implicitCastExpr->getCastKind();
-            if (castKind == clang::CK_PointerToBoolean)
-            {
-                return true;
-            }
-            if (castKind == clang::CK_LValueToRValue)
-            {
-                clang::Expr *subExpr = implicitCastExpr->getSubExpr();
-                return subExpr && clang::isa<clang::DeclRefExpr>(subExpr);
-            }
-        }
-        return false;
+        return expr ? expr->IgnoreParens() : nullptr;
+    }
+
+    clang::DeclRefExpr *getDeclRef(clang::Expr *expr)
+    {
+        return clang::dyn_cast_or_null<clang::DeclRefExpr>(
+            expr ? expr->IgnoreParenImpCasts() : nullptr);
     }
 
     bool isEqNullCheck(clang::Expr *expr)
     {
+        expr = ignoreParens(expr);
         clang::BinaryOperator *binaryOperator = clang::dyn_cast_or_null<clang::BinaryOperator>(expr);
         if (binaryOperator)
         {
@@ -65,7 +48,7 @@ protected:
         clang::UnaryOperator *unaryOperator = clang::dyn_cast_or_null<clang::UnaryOperator>(expr);
         if (unaryOperator && unaryOperator->getOpcode() == clang::UO_LNot)
         {
-            return isImplicitDeclRef(unaryOperator->getSubExpr());
+            return getDeclRef(unaryOperator->getSubExpr()) != nullptr;
         }
 
         return false;
@@ -74,7 +57,7 @@ protected:
     bool isNeNullCheck(clang::Expr *expr)
     {
         clang::BinaryOperator *binaryOperator =
-            clang::dyn_cast_or_null<clang::BinaryOperator>(expr);
+            clang::dyn_cast_or_null<clang::BinaryOperator>(ignoreParens(expr));
         if (binaryOperator)
         {
             return binaryOperator->getOpcode() == clang::BO_NE &&
@@ -82,22 +65,12 @@ protected:
                 isNullToPointer(binaryOperator->getRHS());
         }
 
-        return isImplicitDeclRef(expr);
+        return getDeclRef(expr) != nullptr;
     }
 
-    std::string extractIdentifierFromImplicitCastExpr(clang::ImplicitCastExpr *implicitCastExpr)
+    std::string extractIdentifier(clang::Expr *expr)
     {
-        if (!implicitCastExpr)
-        {
-            return "";
-        }
-        if (implicitCastExpr->getCastKind() == clang::CK_PointerToBoolean)
-        {
-            return extractIdentifierFromImplicitCastExpr(
-                clang::dyn_cast_or_null<clang::ImplicitCastExpr>(implicitCastExpr->getSubExpr()));
-        }
-        clang::DeclRefExpr *declRefExpr =
-            clang::dyn_cast_or_null<clang::DeclRefExpr>(implicitCastExpr->getSubExpr());
+        clang::DeclRefExpr *declRefExpr = getDeclRef(expr);
         return declRefExpr ? declRefExpr->getFoundDecl()->getNameAsString() : "";
     }
 
@@ -108,27 +81,16 @@ protected:
         {
             refExpr = binaryOperator->getRHS();
         }
-        return extractIdentifierFromImplicitCastExpr(
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(refExpr));
-    }
-
-    std::string extractIdentifierFromUnaryOperator(clang::UnaryOperator *unaryOperator)
-    {
-        return extractIdentifierFromImplicitCastExpr(
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(unaryOperator->getSubExpr()));
+        return extractIdentifier(refExpr);
     }
 
     std::string extractIdentifierFromExpr(clang::Expr *expr)
     {
+        expr = ignoreParens(expr);
         if (!expr)
         {
             return "";
         }
-        if (clang::isa<clang::ImplicitCastExpr>(expr))
-        {
-            return extractIdentifierFromImplicitCastExpr(
-                clang::dyn_cast<clang::ImplicitCastExpr>(expr));
-        }
         if (clang::isa<clang::BinaryOperator>(expr))
         {
             return extractIdentifierFromBinaryOperator(
@@ -136,9 +98,9 @@ protected:
         }
         if (clang::isa<clang::UnaryOperator>(expr))
         {
-            return extractIdentifierFromUnaryOperator(clang::dyn_cast<clang::UnaryOperator>(expr));
+            return extractIdentifier(clang::dyn_cast<clang::UnaryOperator>(expr)->getSubExpr());
         }
-        return "";
+        return extractIdentifier(expr);
     }
 
     class VariableOfInterestInMemberExpr :
@@ -161,8 +123,7 @@ protected:
             if (memberExpr->isArrow())
             {
                 return _variableName !=
-                    _rule->extractIdentifierFromImplicitCastExpr(
-                        clang::dyn_cast_or_null<clang::ImplicitCastExpr>(memberExpr->getBase()));
+                    _rule->extractIdentifier(memberExpr->getBase());
             }
             return true;
         }
@@ -186,9 +147,8 @@ protected:
 
         bool VisitObjCMessageExpr(clang::ObjCMessageExpr *memberExpr)
         {
-            return _variableName != _rule->extractIdentifierFromImplicitCastExpr(
-                clang::dyn_cast_or_null<clang::ImplicitCastExpr>(
-                    memberExpr->getInstanceReceiver()));
+            return _variableName != _rule->extractIdentifier(
+                memberExpr->getInstanceReceiver());
         }
     };
 
diff --git a/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp b/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
index f948570..818ae55 100644
--- a/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
@@ -16,7 +16,7 @@ private:
         if(binaryOperator->getOpcode() == BO_LAnd && isNeNullCheck(binaryOperator->getLHS()))
         {
             UnaryOperator *unaryOperator =
-                dyn_cast_or_null<UnaryOperator>(binaryOperator->getRHS());
+                dyn_cast_or_null<UnaryOperator>(ignoreParens(binaryOperator->getRHS()));
             if (unaryOperator)
             {
                 return unaryOperator->getOpcode() != UO_LNot;
-- 
2.43.0


From dd7789753f239ef95d4203bbafb62fd9f1b95ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 22/51] fix: report assignments to a parameter, not to
 variables that share its name

---
 .../convention/ParameterReassignmentRule.cpp  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
index 3c0d6c8..d88121a 100644
--- a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
+++ b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
@@ -10,13 +10,13 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     class BinaryOperatorAnalyzer : public RecursiveASTVisitor<BinaryOperatorAnalyzer>
     {
     private:
-        vector<string> _names;
+        vector<ParmVarDecl*> _params;
         vector<BinaryOperator*> _binaryOperators;
 
     public:
-        vector<BinaryOperator*> analyze(Decl *decl, vector<string> &names)
+        vector<BinaryOperator*> analyze(Decl *decl, vector<ParmVarDecl*> &params)
         {
-            _names = names;
+            _params = params;
             _binaryOperators.clear();
             (void) /* explicitly ignore the return of this function */ TraverseDecl(decl);
             return _binaryOperators;
@@ -28,9 +28,9 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
             if (binaryOperator->getOpcode() == BO_Assign && leftExpr && isa<DeclRefExpr>(leftExpr))
             {
                 DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(leftExpr);
-                for (const auto& name : _names)
+                for (const auto& param : _params)
                 {
-                    if (declRefExpr->getFoundDecl()->getNameAsString() == name)
+                    if (declRefExpr->getDecl() == param)
                     {
                         _binaryOperators.push_back(binaryOperator);
                         break;
@@ -42,12 +42,12 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     };
 
 private:
-    void locateParamNames(Decl *decl, vector<string> &names)
+    void locateReassignments(Decl *decl, vector<ParmVarDecl*> &params)
     {
-        if (!names.empty())
+        if (!params.empty())
         {
             BinaryOperatorAnalyzer biOpAnalyzer;
-            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, names);
+            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, params);
             for (const auto& binaryOperator : binaryOperators)
             {
                 addViolation(binaryOperator, this);
@@ -100,33 +100,33 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        vector<string> names;
+        vector<ParmVarDecl*> params;
         for (size_t i = 0; i != decl->getNumParams(); ++i)
         {
             ParmVarDecl *parmVarDecl = decl->getParamDecl(i);
             if (parmVarDecl->getNameAsString() != "")
             {
-                names.push_back(parmVarDecl->getNameAsString());
+                params.push_back(parmVarDecl);
             }
         }
-        locateParamNames(decl, names);
+        locateReassignments(decl, params);
 
         return true;
     }
 
     bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
     {
-        vector<string> names;
+        vector<ParmVarDecl*> params;
         for (ObjCMethodDecl::param_iterator param = decl->param_begin(),
             paramEnd = decl->param_end(); param != paramEnd; param++)
         {
             ParmVarDecl *parmVarDecl = *param;
             if (parmVarDecl->getNameAsString() != "")
             {
-                names.push_back(parmVarDecl->getNameAsString());
+                params.push_back(parmVarDecl);
             }
         }
-        locateParamNames(decl, names);
+        locateReassignments(decl, params);
 
         return true;
     }
-- 
2.43.0


From 1a0f43f6c68b0a70f8e681c782aab8d5c3fe0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 23/51] fix: judge only the parameters of the function itself
 as unused

A parameter that is only used in a dependent context, or that is named in
the type of a function pointer or block, is not an unused one, and a class
method or a method of an extension's or category's protocol follows its
contract as well.
---
 oclint-rules/lib/util/ASTUtil.cpp             | 19 ++++++++++++++-----
 .../unused/UnusedMethodParameterRule.cpp      | 17 +++++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index e538545..dc80a7d 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -11,7 +11,8 @@ bool isObjCMethodDeclaredInSuperClass(clang::ObjCMethodDecl *decl)
         if (interfaceDecl)
         {
             clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass();
-            return superInterface && superInterface->lookupInstanceMethod(selector);
+            return superInterface &&
+                superInterface->lookupMethod(selector, decl->isInstanceMethod());
         }
     }
     return false;
@@ -28,15 +29,23 @@ bool isObjCMethodDeclaredInProtocol(clang::ObjCMethodDecl *decl)
     clang::ObjCInterfaceDecl *interfaceDecl = decl->getClassInterface();
     if (interfaceDecl)
     {
-        for (clang::ObjCProtocolList::iterator protocol = interfaceDecl->protocol_begin(),
-            protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
+        for (auto protocol : interfaceDecl->all_referenced_protocols())
         {
-            clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
-            if (protocolDecl->lookupInstanceMethod(selector))
+            if (protocol->lookupMethod(selector, decl->isInstanceMethod()))
             {
                 return true;
             }
         }
+        for (auto category : interfaceDecl->visible_categories())
+        {
+            for (auto protocol : category->protocols())
+            {
+                if (protocol->lookupMethod(selector, decl->isInstanceMethod()))
+                {
+                    return true;
+                }
+            }
+        }
     }
 
     return false;
diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index 866c0c1..22b6dbb 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -23,6 +23,21 @@ private:
         return true;
     }
 
+    bool isParameterOf(ParmVarDecl *varDecl, DeclContext *context)
+    {
+        // a parameter named in the type of something else, e.g. of a function pointer or a block,
+        // has the surrounding context, but it isn't a parameter of it
+        if (FunctionDecl *decl = dyn_cast<FunctionDecl>(context))
+        {
+            return llvm::is_contained(decl->parameters(), varDecl);
+        }
+        if (ObjCMethodDecl *decl = dyn_cast<ObjCMethodDecl>(context))
+        {
+            return llvm::is_contained(decl->parameters(), varDecl);
+        }
+        return false;
+    }
+
     bool isFunctionDeclaration(DeclContext *context)
     {
         FunctionDecl *decl = dyn_cast<FunctionDecl>(context);
@@ -175,8 +190,10 @@ public:
     bool VisitParmVarDecl(ParmVarDecl *varDecl)
     {
         if (!varDecl->isUsed() &&
+            !varDecl->isReferenced() &&
             !hasAttributeUnused(varDecl) &&
             hasVariableName(varDecl) &&
+            isParameterOf(varDecl, varDecl->getLexicalDeclContext()) &&
             isInNonTemplateFunction(varDecl) &&
             !isExistingByContract(varDecl) &&
             !isObjCMethodWithIBActionAttribute(varDecl))
-- 
2.43.0


From d4e8a2e89b8ffd29b70afecdaf6c8f4392944cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 24/51] fix: demand the call to super from method definitions
 only, and accept it in class methods

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 73935cf..b108316 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -26,7 +26,8 @@ public:
     bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
     {
         if(expr->getSelector().getAsString() == _selector
-        && expr->getReceiverKind() == ObjCMessageExpr::SuperInstance) {
+        && (expr->getReceiverKind() == ObjCMessageExpr::SuperInstance
+        || expr->getReceiverKind() == ObjCMessageExpr::SuperClass)) {
             _foundSuperCall = true;
         }
         return true;
@@ -129,7 +130,7 @@ public:
         string selectorName = decl->getSelector().getAsString();
 
         // Figure out if anything in the super chain is marked
-        if(declRequiresSuperCall(decl)) {
+        if(decl->hasBody() && declRequiresSuperCall(decl)) {
             // If so, start a separate checker to look for method sends just in the method body
             ContainsCallToSuperMethod checker(selectorName);
             checker.TraverseDecl(decl);
-- 
2.43.0


From 0d3071e052332b8fcf6f780f785db2a4a5388786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 25/51] fix: judge a protected method by the class that
 declares it, or adopts its protocol

---
 .../cocoa/ObjCVerifyProtectedMethodRule.cpp   | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..23ec759 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -11,6 +11,24 @@ using namespace oclint;
 
 namespace {
 
+    // The class that declares the method the message is sent to,
+    // for a method of a protocol the topmost class of the receiver that adopts it
+    const ObjCInterfaceDecl* methodOwner(ObjCMessageExpr* expr) {
+        const auto method = expr->getMethodDecl();
+        const ObjCInterfaceDecl* owner = expr->getReceiverInterface();
+        if(!owner || method->getClassInterface()) {
+            return owner ? method->getClassInterface() : nullptr;
+        }
+
+        auto parent = owner->getSuperClass();
+        while(parent &&
+            parent->lookupMethod(method->getSelector(), method->isInstanceMethod()) == method) {
+            owner = parent;
+            parent = owner->getSuperClass();
+        }
+        return owner;
+    }
+
     class CheckMethodsInsideClass : public RecursiveASTVisitor<CheckMethodsInsideClass>
     {
         private:
@@ -28,7 +46,7 @@ namespace {
                 return true;
             }
 
-            const auto interface = expr->getReceiverInterface();
+            const auto interface = methodOwner(expr);
             if(!interface) {
                 return true;
             }
@@ -58,7 +76,7 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                const auto sourceClass = expr->getMethodDecl()->getClassInterface();
+                const auto sourceClass = methodOwner(expr);
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-- 
2.43.0


From c79630768c1e4e2ec270d9c0cf5d677e6fee7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 26/51] fix: keep the inner underscores of an instance variable
 when looking for its accessors

---
 .../ObjCAssignIvarOutsideAccessorsRule.cpp          | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp b/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp
index aea37a9..45084bb 100644
--- a/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp
+++ b/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp
@@ -61,6 +61,17 @@ public:
 
 
 
+// Only the outer underscores are no part of the property's name
+static string trimUnderscores(const string& str)
+{
+    const auto first = str.find_first_not_of('_');
+    if (first == string::npos)
+    {
+        return "";
+    }
+    return str.substr(first, str.find_last_not_of('_') - first + 1);
+}
+
 // Main rule implementation.
 // Looks for methods then finds accesses in each method and sees if they're okay
 class ObjCAssignIvarOutsideAccessorsRule:
@@ -142,7 +153,7 @@ public:
             string ivarName = access->getDecl()->getNameAsString();
             // getterName is foo. Note this won't work for
             // properties that reassign getter= or setter=
-            string getterName = removeUnderscores(ivarName);
+            string getterName = trimUnderscores(ivarName);
             // setterName is setFoo
             string setterName = "set" + capitalizeFirstLetter(getterName) + ":";
             if((selectorName != getterName
-- 
2.43.0


From 0f26758b95543b15e2053917f896e4c57c3c04b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 27/51] fix: find the suppressing declaration through types,
 initializers and macros

A parameter, a constructor's initializer or an array bound is reached through
nodes that are neither declarations nor statements; the search for an
enclosing oclint:suppress annotation ended there.  Line-reading rules did not
see the annotation of a declaration that begins in a macro expansion.
---
 oclint-rules/lib/helper/SuppressHelper.cpp | 35 ++++++++--------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 63128c7..ca74619 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -19,8 +19,10 @@ bool markedAsSuppress(const clang::Decl *decl, oclint::RuleBase *rule)
     return false;
 }
 
-template <typename T>
-bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::RuleBase *rule)
+/* the way up also leads through nodes that are neither declarations nor statements,
+   such as the type of a function for its parameters, or a constructor's initializer */
+static bool markedParentsAsSuppress(const clang::DynTypedNode &node,
+    clang::ASTContext &context, oclint::RuleBase *rule)
 {
     clang::DynTypedNodeList parents = context.getParents(node);
     if (parents.empty())
@@ -28,33 +30,21 @@ bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::
         return false;
     }
 
-    const clang::DynTypedNode* dynTypedNode = parents.begin();
-    const clang::Decl *aDecl = dynTypedNode->get<clang::Decl>();
-    if (aDecl)
-    {
-        if (markedAsSuppress(aDecl, rule))
-        {
-            return true;
-        }
-        return markedParentsAsSuppress(*aDecl, context, rule);
-    }
-    const clang::Stmt *aStmt = dynTypedNode->get<clang::Stmt>();
-    if (aStmt)
-    {
-        return markedParentsAsSuppress(*aStmt, context, rule);
-    }
-
-    return false;
+    const clang::DynTypedNode &parent = *parents.begin();
+    const clang::Decl *aDecl = parent.get<clang::Decl>();
+    return (aDecl && markedAsSuppress(aDecl, rule)) ||
+        markedParentsAsSuppress(parent, context, rule);
 }
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return markedAsSuppress(decl, rule) || markedParentsAsSuppress(*decl, context, rule);
+    return markedAsSuppress(decl, rule) ||
+        markedParentsAsSuppress(clang::DynTypedNode::create(*decl), context, rule);
 }
 
 bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return markedParentsAsSuppress(*stmt, context, rule);
+    return markedParentsAsSuppress(clang::DynTypedNode::create(*stmt), context, rule);
 }
 
 typedef std::set<std::pair<int, int>> RangeSet;
@@ -77,7 +67,8 @@ public:
         for (clang::DeclContext::decl_iterator declIt = decl->decls_begin(),
             declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
         {
-            clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
+            clang::SourceLocation startLocation =
+                _sourceManager->getExpansionLoc((*declIt)->getBeginLoc());
             if (startLocation.isValid() &&
                 _sourceManager->getMainFileID() == _sourceManager->getFileID(startLocation))
             {
-- 
2.43.0


From dd522aca4461dfdbe0e8f39d491fccb4f703a0e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 28/51] fix: let a //!OCLINT mark in adjacent comment lines
 silence its own line

clang keeps adjacent comment lines as one comment; only its first line was
compared.
---
 oclint-rules/lib/helper/SuppressHelper.cpp | 36 +++++++++++++---------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index ca74619..0e708cb 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -95,6 +95,20 @@ public:
     }
 };
 
+static bool hasSuppressingMark(llvm::StringRef commentLine)
+{
+// g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
+// so we will ship this once Ubuntu 16.04 releases
+#if defined(__APPLE__) || defined(__MACH__)
+    std::string commentString = commentLine.str();
+    std::regex oclintRegex =
+        std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
+    return std::regex_search(commentString, oclintRegex);
+#else
+    return commentLine.contains("//!OCLINT");
+#endif
+}
+
 bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
 {
     auto mainFileID = context.getSourceManager().getMainFileID();
@@ -110,25 +124,17 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
         {
             continue;
         }
-// g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
-// so we will ship this once Ubuntu 16.04 releases
-#if defined(__APPLE__) || defined(__MACH__)
-        std::string commentString = comment->getRawText(context.getSourceManager()).str();
-        std::regex oclintRegex =
-            std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
-        if (std::regex_search(commentString, oclintRegex))
-#else
-        if (std::string::npos !=
-            comment->getRawText(context.getSourceManager()).find("//!OCLINT"))
-#endif
+        // adjacent comment lines are kept as one comment
+        int line = context.getSourceManager().getPresumedLineNumber(comment->getBeginLoc());
+        llvm::StringRef remaining = comment->getRawText(context.getSourceManager());
+        for (; !remaining.empty() && line <= beginLine; line++)
         {
-            clang::SourceLocation startLocation = comment->getBeginLoc();
-            int startLocationLine =
-                context.getSourceManager().getPresumedLineNumber(startLocation);
-            if (startLocationLine == beginLine)
+            std::pair<llvm::StringRef, llvm::StringRef> splitPair = remaining.split('\n');
+            if (line == beginLine && hasSuppressingMark(splitPair.first))
             {
                 return true;
             }
+            remaining = splitPair.second;
         }
     }
 
-- 
2.43.0


From f8c1942e44699e3604307433ebf3508ccd466698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 29/51] fix: find the annotation of a field through its default
 initializer

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 0e708cb..2e8eb35 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -4,6 +4,7 @@
 #include <set>
 #include <utility>
 
+#include <clang/AST/ExprCXX.h>
 #include <clang/AST/ParentMapContext.h>
 #include <clang/AST/RecursiveASTVisitor.h>
 #include <clang/Basic/SourceManager.h>
@@ -30,10 +31,17 @@ static bool markedParentsAsSuppress(const clang::DynTypedNode &node,
         return false;
     }
 
-    const clang::DynTypedNode &parent = *parents.begin();
-    const clang::Decl *aDecl = parent.get<clang::Decl>();
+    // a default member initializer is also a child of each constructor that makes use of it,
+    // but it is written in the declaration of its field
+    const clang::DynTypedNode *parent = parents.begin();
+    while (parent + 1 != parents.end() && parent->get<clang::CXXDefaultInitExpr>())
+    {
+        parent++;
+    }
+
+    const clang::Decl *aDecl = parent->get<clang::Decl>();
     return (aDecl && markedAsSuppress(aDecl, rule)) ||
-        markedParentsAsSuppress(parent, context, rule);
+        markedParentsAsSuppress(*parent, context, rule);
 }
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule)
-- 
2.43.0


From 612b755fd47964d5e7b772a42704342be5056233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 30/51] fix: list only findings of the analyzer as analyzer
 bugs, not compiler errors and notes

---
 oclint-driver/lib/DiagnosticDispatcher.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index 884f901..afda9b2 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -2,6 +2,7 @@
 
 #include <llvm/ADT/SmallString.h>
 #include <llvm/ADT/StringRef.h>
+#include <clang/Basic/DiagnosticIDs.h>
 #include <clang/Basic/SourceLocation.h>
 #include <clang/Basic/SourceManager.h>
 
@@ -78,7 +79,12 @@ void DiagnosticDispatcher::HandleDiagnostic(clang::DiagnosticsEngine::Level diag
     ResultCollector *results = ResultCollector::getInstance();
     if (_isCheckerCustomer)
     {
-        results->addCheckerBug(violation);
+        // the compiler's own diagnostics have been reported by the compilation already
+        bool fromCompiler = diagnosticInfo.getID() < clang::diag::DIAG_UPPER_LIMIT;
+        if (!fromCompiler && diagnosticLevel >= clang::DiagnosticsEngine::Warning)
+        {
+            results->addCheckerBug(violation);
+        }
     }
     else
     {
-- 
2.43.0


From 2f41da466fd3f068466515776e0196c4f73a56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 31/51] fix: compile the sources as without the static analyzer
 when it is enabled

---
 oclint-driver/lib/CompilerInstance.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oclint-driver/lib/CompilerInstance.cpp b/oclint-driver/lib/CompilerInstance.cpp
index 3c34b01..896d2a8 100644
--- a/oclint-driver/lib/CompilerInstance.cpp
+++ b/oclint-driver/lib/CompilerInstance.cpp
@@ -50,12 +50,10 @@
 #include <clang/Frontend/FrontendActions.h>
 #include <clang/StaticAnalyzer/Frontend/FrontendActions.h>
 
-#include "oclint/Options.h"
-
 using namespace oclint;
 
-static clang::FrontendAction *getFrontendAction() {
-    if (option::enableClangChecker()) {
+static clang::FrontendAction *getFrontendAction(const clang::FrontendOptions &options) {
+    if (options.ProgramAction == clang::frontend::RunAnalysis) {
         return new clang::ento::AnalysisAction();
     }
     return new clang::SyntaxOnlyAction();
@@ -94,7 +92,7 @@ void CompilerInstance::start() {
             getSourceManager().clearIDTables();
         }
 
-        clang::FrontendAction *frontendAction = getFrontendAction();
+        clang::FrontendAction *frontendAction = getFrontendAction(getFrontendOpts());
         if(frontendAction->BeginSourceFile(*this, input)) {
             static_cast<void>(frontendAction->Execute());
             _actions.emplace_back(frontendAction);
-- 
2.43.0


From 5cd40e5f931174af704ccaacdfd9c7e63bd9f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 32/51] fix: leave no .plist file behind for each source the
 static analyzer examines

---
 oclint-driver/lib/Driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 94df06b..2876cf3 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -95,6 +95,8 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     auto invocation = new clang::CompilerInvocation;
     clang::CompilerInvocation::CreateFromArgs(*invocation, argStringList, *diagnostics);
     invocation->getFrontendOpts().DisableFree = false;
+    // the findings go to the report, and not into a file of their own
+    invocation->getAnalyzerOpts().AnalysisDiagOpt = clang::PD_TEXT_MINIMAL;
     return invocation;
 }
 
-- 
2.43.0


From 5cd0e138340921c9b1a52e7d3424cd14db9fe04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 33/51] fix: do not write the dependency and diagnostics files
 the compile commands ask for

---
 oclint-driver/lib/Driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 2876cf3..132324c 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -97,6 +97,10 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     invocation->getFrontendOpts().DisableFree = false;
     // the findings go to the report, and not into a file of their own
     invocation->getAnalyzerOpts().AnalysisDiagOpt = clang::PD_TEXT_MINIMAL;
+    // neither do the by-products the build asks for with its compile command get written
+    invocation->getDependencyOutputOpts() = clang::DependencyOutputOptions();
+    invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
+    invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
     return invocation;
 }
 
-- 
2.43.0


From c448611cfcc397955da7eaf368b9f35dad5d7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 34/51] fix: do not write the compilation database fragments
 the compile commands ask for

---
 oclint-driver/lib/Driver.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 132324c..201aab7 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -268,13 +268,36 @@ static void printCompileCommandDebugInfo(
 }
 #endif
 
+// The compilation database fragment of -MJ is written by the compiler driver itself
+static clang::tooling::CommandLineArguments stripCompilationDatabaseOutput(
+    const clang::tooling::CommandLineArguments &args, llvm::StringRef /*filename*/)
+{
+    clang::tooling::CommandLineArguments adjusted;
+    bool hasOnlyInputsLeft = false;
+    for (size_t i = 0; i < args.size(); i++)
+    {
+        hasOnlyInputsLeft |= args[i] == "--";
+        if (hasOnlyInputsLeft || !llvm::StringRef(args[i]).starts_with("-MJ"))
+        {
+            adjusted.push_back(args[i]);
+        }
+        else if (args[i] == "-MJ")
+        {
+            i++;
+        }
+    }
+    return adjusted;
+}
+
 static std::vector<std::string> adjustArguments(std::vector<std::string> &unadjustedCmdLine,
 	const std::string& filename)
 {
     clang::tooling::ArgumentsAdjuster argAdjuster =
         clang::tooling::combineAdjusters(
-            clang::tooling::getClangStripOutputAdjuster(),
-            clang::tooling::getClangSyntaxOnlyAdjuster());
+            clang::tooling::combineAdjusters(
+                clang::tooling::getClangStripOutputAdjuster(),
+                clang::tooling::getClangSyntaxOnlyAdjuster()),
+            stripCompilationDatabaseOutput);
     return argAdjuster(unadjustedCmdLine, filename);
 }
 
-- 
2.43.0


From 3699f450fa3005f304ecd2ed18032d1f1dbf583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 35/51] fix: do not crash on sources compiled with
 -fdiagnostics-format=sarif

---
 oclint-driver/lib/Driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 201aab7..1210e09 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -101,6 +101,8 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     invocation->getDependencyOutputOpts() = clang::DependencyOutputOptions();
     invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
     invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
+    // clang takes the diagnostic consumer of this format for one of its own printers
+    invocation->getDiagnosticOpts().setFormat(clang::DiagnosticOptions::Clang);
     return invocation;
 }
 
-- 
2.43.0


From d3abb9a5fc74faf15780ea89b99d22db1add2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 36/51] fix: replace malformed UTF-8 in the JSON, XML, PMD and
 HTML reports

---
 oclint-reporters/reporters/HTMLReporter.cpp |  4 +-
 oclint-reporters/reporters/JSONReporter.cpp |  4 +-
 oclint-reporters/reporters/PMDReporter.cpp  |  4 +-
 oclint-reporters/reporters/UTF8.h           | 74 +++++++++++++++++++++
 oclint-reporters/reporters/XMLReporter.cpp  |  4 +-
 5 files changed, 86 insertions(+), 4 deletions(-)
 create mode 100644 oclint-reporters/reporters/UTF8.h

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index 5d80367..ca30ef0 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -6,6 +6,8 @@
 #include "oclint/RuleBase.h"
 #include "oclint/ViolationSet.h"
 
+#include "UTF8.h"
+
 using namespace oclint;
 
 class HTMLReporter : public Reporter
@@ -70,7 +72,7 @@ public:
     {
         std::string output;
         output.reserve(text.size());
-        for (const auto &c : text)
+        for (const auto &c : wellFormedUTF8(text))
         {
             switch (c)
             {
diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index cdd20d7..dcad843 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -7,6 +7,8 @@
 #include "oclint/RuleBase.h"
 #include "oclint/ViolationSet.h"
 
+#include "UTF8.h"
+
 using namespace oclint;
 
 class JSONReporter : public Reporter
@@ -77,7 +79,7 @@ public:
     {
         std::string output;
         output.reserve(value.size());
-        for (const unsigned char c : value)
+        for (const unsigned char c : wellFormedUTF8(value))
         {
             if (c == '"' || c == '\\')
             {
diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 949e93f..b4f24dc 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -4,6 +4,8 @@
 #include "oclint/RuleBase.h"
 #include "oclint/ViolationSet.h"
 
+#include "UTF8.h"
+
 using namespace oclint;
 
 class PMDReporter : public Reporter
@@ -101,7 +103,7 @@ private:
     {
         std::string output;
         output.reserve(data.size());
-        for (const auto &c : data)
+        for (const auto &c : wellFormedXMLText(data))
         {
             switch(c)
             {
diff --git a/oclint-reporters/reporters/UTF8.h b/oclint-reporters/reporters/UTF8.h
new file mode 100644
index 0000000..862f827
--- /dev/null
+++ b/oclint-reporters/reporters/UTF8.h
@@ -0,0 +1,74 @@
+#ifndef OCLINT_REPORTERS_UTF8_H
+#define OCLINT_REPORTERS_UTF8_H
+
+#include <cstddef>
+#include <string>
+
+namespace oclint
+{
+
+// Length of the well-formed UTF-8 sequence at the position, 0 if there is none
+inline std::size_t utf8Length(const std::string &text, std::size_t position)
+{
+    auto byte = [&text, position](std::size_t offset) -> unsigned
+    {
+        return position + offset < text.size() ?
+            static_cast<unsigned char>(text[position + offset]) : 0;
+    };
+    auto isTail = [&byte](std::size_t offset) { return byte(offset) >> 6 == 2; };
+    const unsigned first = byte(0);
+    if (first < 0x80)
+    {
+        return 1;
+    }
+    if (first >= 0xC2 && first <= 0xDF)
+    {
+        return isTail(1) ? 2 : 0;
+    }
+    if (first >= 0xE0 && first <= 0xEF)
+    {
+        const bool isOverlong = first == 0xE0 && byte(1) < 0xA0;
+        const bool isSurrogate = first == 0xED && byte(1) > 0x9F;
+        return isTail(1) && isTail(2) && !isOverlong && !isSurrogate ? 3 : 0;
+    }
+    if (first >= 0xF0 && first <= 0xF4)
+    {
+        const bool isOverlong = first == 0xF0 && byte(1) < 0x90;
+        const bool isTooLarge = first == 0xF4 && byte(1) > 0x8F;
+        return isTail(1) && isTail(2) && isTail(3) && !isOverlong && !isTooLarge ? 4 : 0;
+    }
+    return 0;
+}
+
+// The text with each byte that is no part of well-formed UTF-8 replaced by U+FFFD
+inline std::string wellFormedUTF8(const std::string &text)
+{
+    std::string output;
+    output.reserve(text.size());
+    for (std::size_t i = 0; i < text.size();)
+    {
+        const std::size_t length = utf8Length(text, i);
+        output += length > 0 ? text.substr(i, length) : "\xEF\xBF\xBD";
+        i += length > 0 ? length : 1;
+    }
+    return output;
+}
+
+// The same for XML, which does not allow U+FFFE and U+FFFF either
+inline std::string wellFormedXMLText(const std::string &text)
+{
+    std::string output = wellFormedUTF8(text);
+    for (const char *noncharacter : {"\xEF\xBF\xBE", "\xEF\xBF\xBF"})
+    {
+        for (std::size_t i = output.find(noncharacter); i != std::string::npos;
+            i = output.find(noncharacter, i))
+        {
+            output.replace(i, 3, "\xEF\xBF\xBD");
+        }
+    }
+    return output;
+}
+
+} // end namespace oclint
+
+#endif
diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index ea7626a..81515b7 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -7,6 +7,8 @@
 #include "oclint/RuleBase.h"
 #include "oclint/ViolationSet.h"
 
+#include "UTF8.h"
+
 using namespace oclint;
 
 class XMLReporter : public Reporter
@@ -93,7 +95,7 @@ public:
     {
         std::string output;
         output.reserve(value.size());
-        for (const unsigned char c : value)
+        for (const unsigned char c : wellFormedXMLText(value))
         {
             switch (c)
             {
-- 
2.43.0


From 87e98a0a046215f0e334ae6c6518041b1b7af0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 37/51] fix: declare the encoding of HTML reports and keep
 their carriage returns

---
 oclint-reporters/reporters/HTMLReporter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index ca30ef0..5c23fd4 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -85,6 +85,10 @@ public:
                 case '&':
                     output += "&amp;";
                     break;
+                case '\r':
+                    // parsers of HTML take a bare one for a line feed
+                    output += "&#13;";
+                    break;
                 default:
                     output += c;
                     break;
@@ -153,6 +157,7 @@ public:
     void writeHead(std::ostream &out)
     {
         out << "<head>";
+        out << "<meta charset='utf-8'>";
         out << "<title>OCLint Report</title>";
         out << "<style type='text/css'>"
             << "* { color: #4A4A4A ; }                                                  \
-- 
2.43.0


From 7ddfbd6bc07c6b76b96494a72cec766bc71e4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 38/51] fix: do not abort on commands that compile for a
 device, too

---
 oclint-driver/lib/Driver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 1210e09..339a819 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -156,7 +156,6 @@ static const llvm::opt::ArgStringList *getCC1Arguments(clang::driver::Compilatio
         {
             if (llvm::isa<clang::driver::OffloadAction>(action))
             {
-                assert(actions.size() > 1);
                 offloadCompilation = true;
                 break;
             }
-- 
2.43.0


From 2e605fc279667aa845fa3bb7a6de57e9f8004684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 39/51] fix: do not run rules on CUDA sources when they do not
 support C++

---
 oclint-rules/include/oclint/AbstractASTVisitorRule.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 2c1703b..02b45e9 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -35,6 +35,8 @@ protected:
     }
 
     void applyCUDA() {
+        if (!isLanguageSupported()) { return; }
+
         setUp();
         clang::DeclContext *tu = getTranslationUnit();
         for (clang::DeclContext::decl_iterator it = tu->decls_begin(), declEnd = tu->decls_end();
-- 
2.43.0


From 23b3b92b6331c2b8f3cc1869f3a32b858a1f023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 40/51] fix: judge CUDA functions by their attributes wherever
 they are declared

---
 .../include/oclint/AbstractASTVisitorRule.h   | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 02b45e9..f2ec90e 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -48,25 +48,14 @@ protected:
     }
 
     void applyCUDADecl(clang::Decl *decl) {
-        if (!isValidDecl(decl)) { return; }
-
-        if (clang::isa<clang::FunctionDecl>(decl)) {
-            auto funcDecl = clang::cast<clang::FunctionDecl>(decl);
-            if (funcDecl->hasAttr<clang::CUDAGlobalAttr>()) {
-                if (supportedCUDAFunctionAttrs() & CUDA_GLOBAL) {
-                    traverse(decl);
-                }
-            } else if (supportedCUDAFunctionAttrs() & CUDA_HOST) {
-                traverse(decl);
-            }
-        } else {
+        if (isValidDecl(decl)) {
             traverse(decl);
         }
     }
 
     void traverse(clang::Decl *decl) {
         (void) /* explicitly ignore the return of this function */
-            clang::RecursiveASTVisitor<T>::TraverseDecl(decl);
+            TraverseDecl(decl);
     }
 
 private:
@@ -82,7 +71,20 @@ private:
         return startLocation.isValid() && sourceManager->isInMainFile(startLocation);
     }
 
+    bool isSupportedDecl(clang::Decl *decl)
+    {
+        if (!decl || !clang::isa<clang::FunctionDecl>(decl) || !isCUDASourceFile()) { return true; }
+        return supportedCUDAFunctionAttrs() &
+            (decl->hasAttr<clang::CUDAGlobalAttr>() ? CUDA_GLOBAL : CUDA_HOST);
+    }
+
 public:
+    /* functions in namespaces, templates and classes have their attributes, too */
+    bool TraverseDecl(clang::Decl *decl)
+    {
+        return !isSupportedDecl(decl) || clang::RecursiveASTVisitor<T>::TraverseDecl(decl);
+    }
+
     virtual ~AbstractASTVisitorRule() {}
 
     virtual void setUp() {}
-- 
2.43.0


From 1dd0e0bdd2a764515a647b2b4855044f94340d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 41/51] fix: count properties, instance variables and class
 messages for the class they are sent to

---
 oclint-rules/rules/design/FeatureEnvyRule.cpp | 58 ++++++++-----------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/oclint-rules/rules/design/FeatureEnvyRule.cpp b/oclint-rules/rules/design/FeatureEnvyRule.cpp
index 54515c5..d18856e 100644
--- a/oclint-rules/rules/design/FeatureEnvyRule.cpp
+++ b/oclint-rules/rules/design/FeatureEnvyRule.cpp
@@ -16,6 +16,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
     class MessageAnalyzer : public RecursiveASTVisitor<MessageAnalyzer>
     {
         unordered_map<string, long> _receiversCount;
+        ObjCInterfaceDecl *_selfInterface = nullptr;
 
     public:
         vector<string> analyzeObjC(ObjCMethodDecl *decl)
@@ -23,6 +24,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
             ObjCInterfaceDecl *interface = getClassInterface(decl);
             if (interface)
             {
+                _selfInterface = interface;
                 return analyzeCommon(interface->getNameAsString(), decl);
             }
             return vector<string>();
@@ -40,15 +42,11 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
             {
                 if (node->getReceiverKind() == ObjCMessageExpr::Instance)
                 {
-                    if (node->getReceiverInterface())
-                    {
-                        countInterface(node->getReceiverInterface());
-                    }
+                    countReceiver(node->getInstanceReceiver());
                 }
                 else if (node->getReceiverKind() == ObjCMessageExpr::Class)
                 {
-                    QualType qualType = node->getClassReceiver();
-                    countClassName(qualType.getAsString());
+                    countInterface(node->getReceiverInterface());
                 }
             }
             return true;
@@ -56,20 +54,20 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
 
         bool VisitObjCIvarRefExpr(ObjCIvarRefExpr *node)
         {
-            countIvar(node->getDecl());
+            countReceiver(node->getBase());
 
             return true;
         }
 
         bool VisitObjCPropertyRefExpr(ObjCPropertyRefExpr *node)
         {
-            if (node->isMessagingSetter())
+            if (node->isClassReceiver())
             {
-                countInterface(getSetterInterface(node));
+                countInterface(node->getClassReceiver());
             }
-            else
+            else if (node->isObjectReceiver())
             {
-                countInterface(getGetterInterface(node));
+                countReceiver(node->getBase());
             }
 
             return true;
@@ -99,26 +97,6 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
             return decl->getClassInterface();
         }
 
-        ObjCInterfaceDecl *getSetterInterface(ObjCPropertyRefExpr *node)
-        {
-            if (node->isExplicitProperty())
-            {
-                ObjCPropertyDecl *decl = node->getExplicitProperty();
-                return getClassInterface(decl->getSetterMethodDecl());
-            }
-            return getClassInterface(node->getImplicitPropertySetter());
-        }
-
-        ObjCInterfaceDecl *getGetterInterface(ObjCPropertyRefExpr *node)
-        {
-            if (node->isExplicitProperty())
-            {
-                ObjCPropertyDecl *decl = node->getExplicitProperty();
-                return getClassInterface(decl->getGetterMethodDecl());
-            }
-            return getClassInterface(node->getImplicitPropertyGetter());
-        }
-
         void countClassName(const string& className)
         {
             ++_receiversCount[className];
@@ -132,9 +110,23 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
             }
         }
 
-        void countIvar(ObjCIvarDecl *ivarDecl)
+        void countReceiver(const Expr *receiver)
         {
-            countInterface(ivarDecl->getContainingInterface());
+            const OpaqueValueExpr *opaqueValueExpr = dyn_cast<OpaqueValueExpr>(receiver);
+            if (opaqueValueExpr)
+            {
+                receiver = opaqueValueExpr->getSourceExpr();
+            }
+            const ObjCObjectPointerType *pointerType =
+                receiver->getType()->getAs<ObjCObjectPointerType>();
+            if (pointerType && pointerType->getInterfaceDecl())
+            {
+                countInterface(pointerType->getInterfaceDecl());
+            }
+            else if (receiver->isObjCSelfExpr()) // self of a class method has no interface
+            {
+                countInterface(_selfInterface);
+            }
         }
 
         // void countCXXRecord(CXXRecordDecl *decl)
-- 
2.43.0


From 69ee9889073210a83529b1a5acf5af05a3939d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 42/51] fix: recognise character and boolean literals in
 Objective-C++ number literals

---
 .../rules/migration/ObjCNSNumberLiteralsRule.cpp     | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
index 23cf142..5532ded 100644
--- a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
+++ b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
@@ -10,13 +10,8 @@ class ObjCNSNumberLiteralsRule : public AbstractASTVisitorRule<ObjCNSNumberLiter
 private:
     bool isCharLiteral(Expr *expr, string &selectorString)
     {
-        if (selectorString == "numberWithChar:" && expr && isa<ImplicitCastExpr>(expr))
-        {
-            ImplicitCastExpr *implicitCastExpr = dyn_cast<ImplicitCastExpr>(expr);
-            Expr *subExpr = implicitCastExpr->getSubExpr();
-            return subExpr && isa<CharacterLiteral>(subExpr);
-        }
-        return false;
+        return selectorString == "numberWithChar:" && expr &&
+            isa<CharacterLiteral>(expr->IgnoreImpCasts());
     }
 
     template <typename T>
@@ -40,7 +35,8 @@ private:
             {
                 CStyleCastExpr *cStyleCastExpr =
                     dyn_cast<CStyleCastExpr>(dyn_cast<ParenExpr>(expr)->getSubExpr());
-                return cStyleCastExpr && isa<IntegerLiteral>(cStyleCastExpr->getSubExpr()) &&
+                return cStyleCastExpr &&
+                    isa<IntegerLiteral>(cStyleCastExpr->getSubExpr()->IgnoreImpCasts()) &&
                     cStyleCastExpr->getType().getAsString() == "BOOL";
             }
 
-- 
2.43.0


From aba82dc75f6ecfd64025664488c2db2babf1f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 43/51] fix: report lines of the file analysed, not those of
 #line directives

---
 oclint-driver/lib/DiagnosticDispatcher.cpp | 4 ++--
 oclint-rules/lib/AbstractASTRuleBase.cpp   | 8 ++++----
 oclint-rules/lib/helper/SuppressHelper.cpp | 6 +++---
 oclint-rules/lib/util/ASTUtil.cpp          | 4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index afda9b2..e09f21b 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -56,8 +56,8 @@ LocalSourceLocation populateSourceLocation(const clang::Diagnostic &diagnosticIn
         sourceLoc.filename = sourceFilename.str();
     }
 
-    sourceLoc.line = sourceManager->getPresumedLineNumber(location);
-    sourceLoc.column = sourceManager->getPresumedColumnNumber(location);
+    sourceLoc.line = sourceManager->getExpansionLineNumber(location);
+    sourceLoc.column = sourceManager->getExpansionColumnNumber(location);
 
     return sourceLoc;
 }
diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index ce67b67..b399e19 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -14,7 +14,7 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     /* if it is a macro location return the expansion location or the spelling location */
     clang::SourceLocation startFileLoc = sourceManager->getFileLoc(startLocation);
     clang::SourceLocation endFileLoc = sourceManager->getFileLoc(endLocation);
-    int beginLine = sourceManager->getPresumedLineNumber(startFileLoc);
+    int beginLine = sourceManager->getExpansionLineNumber(startFileLoc);
     /* the suppressing comments are those of the main file */
     if (!sourceManager->isInMainFile(startFileLoc) ||
         !shouldSuppress(beginLine, *_carrier->getASTContext()))
@@ -22,9 +22,9 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
         llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
         _carrier->addViolation(filename.str(),
             beginLine,
-            sourceManager->getPresumedColumnNumber(startFileLoc),
-            sourceManager->getPresumedLineNumber(endFileLoc),
-            sourceManager->getPresumedColumnNumber(endFileLoc),
+            sourceManager->getExpansionColumnNumber(startFileLoc),
+            sourceManager->getExpansionLineNumber(endFileLoc),
+            sourceManager->getExpansionColumnNumber(endFileLoc),
             rule,
             message);
     }
diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 2e8eb35..f0a1bdf 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -94,8 +94,8 @@ public:
         {
             clang::SourceLocation startLocation = decl->getBeginLoc();
             clang::SourceLocation endLocation = decl->getEndLoc();
-            unsigned startLineNumber = _sourceManager->getPresumedLineNumber(startLocation);
-            unsigned endLineNumber = _sourceManager->getPresumedLineNumber(endLocation);
+            unsigned startLineNumber = _sourceManager->getExpansionLineNumber(startLocation);
+            unsigned endLineNumber = _sourceManager->getExpansionLineNumber(endLocation);
             _range.insert(std::make_pair(startLineNumber, endLineNumber));
         }
 
@@ -133,7 +133,7 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
             continue;
         }
         // adjacent comment lines are kept as one comment
-        int line = context.getSourceManager().getPresumedLineNumber(comment->getBeginLoc());
+        int line = context.getSourceManager().getExpansionLineNumber(comment->getBeginLoc());
         llvm::StringRef remaining = comment->getRawText(context.getSourceManager());
         for (; !remaining.empty() && line <= beginLine; line++)
         {
diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index dc80a7d..30fd212 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -133,7 +133,7 @@ int getLineCount(clang::SourceRange sourceRange, const clang::SourceManager& sou
     clang::SourceLocation startLocation = sourceRange.getBegin();
     clang::SourceLocation endLocation = sourceRange.getEnd();
 
-    unsigned startLineNumber = sourceManager.getPresumedLineNumber(startLocation);
-    unsigned endLineNumber = sourceManager.getPresumedLineNumber(endLocation);
+    unsigned startLineNumber = sourceManager.getExpansionLineNumber(startLocation);
+    unsigned endLineNumber = sourceManager.getExpansionLineNumber(endLocation);
     return endLineNumber - startLineNumber + 1;
 }
-- 
2.43.0


From cf56568e065aecd536981d8d2587319e1088a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 44/51] fix: apply rules to C sources compiled for a standard
 before C99

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index b399e19..58e0715 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -79,11 +79,7 @@ bool AbstractASTRuleBase::isLanguageSupported() const
     {
         return supportsCXX();
     }
-    if (langOpts.C99)
-    {
-        return supportsC();
-    }
-    return false;
+    return supportsC();
 }
 
 unsigned int AbstractASTRuleBase::supportedCUDAFunctionAttrs() const
-- 
2.43.0


From fcf7c423288525f7f65690b185558d1c1e2f107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:07 +0000
Subject: [PATCH 45/51] fix: count C++ range-based for loops, labelled and
 attributed statements in the metrics

---
 .../oclint/metric/CyclomaticComplexityMetric.h   |  1 +
 .../oclint/metric/NPathComplexityMetric.h        |  6 ++++++
 .../include/oclint/metric/NcssMetric.h           |  6 ++++++
 .../include/oclint/metric/StmtDepthMetric.h      |  6 ++++++
 .../lib/CyclomaticComplexityMetric.cpp           |  6 ++++++
 oclint-metrics/lib/NPathComplexityMetric.cpp     | 16 ++++++++++++++++
 oclint-metrics/lib/NcssMetric.cpp                | 15 +++++++++++++++
 oclint-metrics/lib/StmtDepthMetric.cpp           | 15 +++++++++++++++
 8 files changed, 71 insertions(+)

diff --git a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
index 62aa5a3..93e9054 100644
--- a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
@@ -24,6 +24,7 @@ public:
     bool VisitIfStmt(clang::IfStmt *stmt);
     bool VisitForStmt(clang::ForStmt *stmt);
     bool VisitObjCForCollectionStmt(clang::ObjCForCollectionStmt *stmt);
+    bool VisitCXXForRangeStmt(clang::CXXForRangeStmt *stmt);
     bool VisitWhileStmt(clang::WhileStmt *stmt);
     bool VisitDoStmt(clang::DoStmt *stmt);
     bool VisitCaseStmt(clang::CaseStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index 4d57bff..b9aaea1 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -29,7 +29,10 @@ public:
             DISPATH(clang::ForStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::LabelStmt);
+            DISPATH(clang::AttributedStmt);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
         }
         return 1;
     }
@@ -52,8 +55,11 @@ public:
     int nPath(clang::DoStmt *stmt);
     int nPath(clang::ForStmt *stmt);
     int nPath(clang::ObjCForCollectionStmt *stmt);
+    int nPath(clang::CXXForRangeStmt *stmt);
     int nPath(clang::SwitchStmt *stmt);
     int nPath(clang::SwitchCase *stmt);
+    int nPath(clang::LabelStmt *stmt);
+    int nPath(clang::AttributedStmt *stmt);
     int nPath(clang::ConditionalOperator *expr);
     int nPath(clang::BinaryOperator *expr);
     int nPath(clang::ParenExpr *expr);
diff --git a/oclint-metrics/include/oclint/metric/NcssMetric.h b/oclint-metrics/include/oclint/metric/NcssMetric.h
index 5dd80ac..e2eb0fc 100644
--- a/oclint-metrics/include/oclint/metric/NcssMetric.h
+++ b/oclint-metrics/include/oclint/metric/NcssMetric.h
@@ -23,8 +23,11 @@ public:
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::LabelStmt);
+            DISPATH(clang::AttributedStmt);
             DISPATH(clang::CXXTryStmt);
             DISPATH(clang::CXXCatchStmt);
             DISPATH(clang::ObjCAtTryStmt);
@@ -44,8 +47,11 @@ public:
     int ncss(clang::DoStmt *stmt);
     int ncss(clang::ForStmt *stmt);
     int ncss(clang::ObjCForCollectionStmt *stmt);
+    int ncss(clang::CXXForRangeStmt *stmt);
     int ncss(clang::SwitchStmt *stmt);
     int ncss(clang::SwitchCase *stmt);
+    int ncss(clang::LabelStmt *stmt);
+    int ncss(clang::AttributedStmt *stmt);
     int ncss(clang::CXXTryStmt *stmt);
     int ncss(clang::CXXCatchStmt *stmt);
     int ncss(clang::ObjCAtTryStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
index 9a2efcc..904805b 100644
--- a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
+++ b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
@@ -22,8 +22,11 @@ public:
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::LabelStmt);
+            DISPATH(clang::AttributedStmt);
             DISPATH(clang::CXXTryStmt);
             DISPATH(clang::CXXCatchStmt);
             DISPATH(clang::ObjCAtTryStmt);
@@ -41,8 +44,11 @@ public:
     int depth(clang::DoStmt *stmt);
     int depth(clang::ForStmt *stmt);
     int depth(clang::ObjCForCollectionStmt *stmt);
+    int depth(clang::CXXForRangeStmt *stmt);
     int depth(clang::SwitchStmt *stmt);
     int depth(clang::SwitchCase *stmt);
+    int depth(clang::LabelStmt *stmt);
+    int depth(clang::AttributedStmt *stmt);
     int depth(clang::CXXTryStmt *stmt);
     int depth(clang::CXXCatchStmt *stmt);
     int depth(clang::ObjCAtTryStmt *stmt);
diff --git a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
index 5638fae..2a3e570 100644
--- a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
+++ b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
@@ -27,6 +27,12 @@ bool CyclomaticComplexityMetric::VisitObjCForCollectionStmt(clang::ObjCForCollec
     return true;
 }
 
+bool CyclomaticComplexityMetric::VisitCXXForRangeStmt(clang::CXXForRangeStmt *)
+{
+    _count++;
+    return true;
+}
+
 bool CyclomaticComplexityMetric::VisitWhileStmt(clang::WhileStmt *)
 {
     _count++;
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 30a2777..2e44bdb 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -92,6 +92,12 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     return add(nPath(stmt->getBody()), 2);
 }
 
+int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
+{
+    // NP(Range for) := NP((for-range)) + 2, same as foreach
+    return add(nPath(stmt->getBody()), 2);
+}
+
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
 {
     int internalNPath = 0, nPathSwitchStmt = nPath(stmt->getCond());
@@ -122,6 +128,16 @@ int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
     return nPath(expr->getSubStmt());
 }
 
+int NPathComplexityMetric::nPath(clang::LabelStmt *stmt)
+{
+    return nPath(stmt->getSubStmt());
+}
+
+int NPathComplexityMetric::nPath(clang::AttributedStmt *stmt)
+{
+    return nPath(stmt->getSubStmt());
+}
+
 int NPathComplexityMetric::nPath(clang::ConditionalOperator *expr)
 {
     return add(add(nPath(expr->getCond()), nPath(expr->getTrueExpr())),
diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 07a7fcf..28f0d49 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -49,6 +49,11 @@ int NcssMetric::ncss(clang::ObjCForCollectionStmt *stmt)
     return 1 + ncss(stmt->getBody());
 }
 
+int NcssMetric::ncss(clang::CXXForRangeStmt *stmt)
+{
+    return 1 + ncss(stmt->getBody());
+}
+
 int NcssMetric::ncss(clang::SwitchStmt *stmt)
 {
     return 1 + ncss(stmt->getBody());
@@ -59,6 +64,16 @@ int NcssMetric::ncss(clang::SwitchCase *stmt)
     return 1 + ncss(stmt->getSubStmt());
 }
 
+int NcssMetric::ncss(clang::LabelStmt *stmt)
+{
+    return 1 + ncss(stmt->getSubStmt());
+}
+
+int NcssMetric::ncss(clang::AttributedStmt *stmt)
+{
+    return ncss(stmt->getSubStmt());
+}
+
 int NcssMetric::ncss(clang::CXXTryStmt *stmt)
 {
     int ncssCatches = 0;
diff --git a/oclint-metrics/lib/StmtDepthMetric.cpp b/oclint-metrics/lib/StmtDepthMetric.cpp
index e41b431..446ee3e 100644
--- a/oclint-metrics/lib/StmtDepthMetric.cpp
+++ b/oclint-metrics/lib/StmtDepthMetric.cpp
@@ -49,6 +49,11 @@ int StmtDepthMetric::depth(clang::ObjCForCollectionStmt *stmt)
     return depth(stmt->getBody());
 }
 
+int StmtDepthMetric::depth(clang::CXXForRangeStmt *stmt)
+{
+    return depth(stmt->getBody());
+}
+
 int StmtDepthMetric::depth(clang::SwitchStmt *stmt)
 {
     return depth(stmt->getBody());
@@ -59,6 +64,16 @@ int StmtDepthMetric::depth(clang::SwitchCase *stmt)
     return depth(stmt->getSubStmt());
 }
 
+int StmtDepthMetric::depth(clang::LabelStmt *stmt)
+{
+    return depth(stmt->getSubStmt());
+}
+
+int StmtDepthMetric::depth(clang::AttributedStmt *stmt)
+{
+    return depth(stmt->getSubStmt());
+}
+
 int StmtDepthMetric::depth(clang::CXXTryStmt *stmt)
 {
     int maxDepth = depth(stmt->getTryBlock());
-- 
2.43.0


From e1f1c4a521895f6b3ec8b76771d8f413af1d7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 46/51] fix: measure the statements of coroutines

---
 .../oclint/metric/NPathComplexityMetric.h      |  2 ++
 .../include/oclint/metric/NcssMetric.h         |  2 ++
 oclint-metrics/lib/NPathComplexityMetric.cpp   |  5 +++++
 oclint-metrics/lib/NcssMetric.cpp              |  5 +++++
 .../rules/size/NPathComplexityRule.cpp         | 18 +++++++-----------
 5 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index b9aaea1..566928c 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -31,6 +31,7 @@ public:
             DISPATH(clang::SwitchCase);
             DISPATH(clang::LabelStmt);
             DISPATH(clang::AttributedStmt);
+            DISPATH(clang::CoroutineBodyStmt);
             DISPATH(clang::ObjCForCollectionStmt);
             DISPATH(clang::CXXForRangeStmt);
         }
@@ -60,6 +61,7 @@ public:
     int nPath(clang::SwitchCase *stmt);
     int nPath(clang::LabelStmt *stmt);
     int nPath(clang::AttributedStmt *stmt);
+    int nPath(clang::CoroutineBodyStmt *stmt);
     int nPath(clang::ConditionalOperator *expr);
     int nPath(clang::BinaryOperator *expr);
     int nPath(clang::ParenExpr *expr);
diff --git a/oclint-metrics/include/oclint/metric/NcssMetric.h b/oclint-metrics/include/oclint/metric/NcssMetric.h
index e2eb0fc..68d83a8 100644
--- a/oclint-metrics/include/oclint/metric/NcssMetric.h
+++ b/oclint-metrics/include/oclint/metric/NcssMetric.h
@@ -28,6 +28,7 @@ public:
             DISPATH(clang::SwitchCase);
             DISPATH(clang::LabelStmt);
             DISPATH(clang::AttributedStmt);
+            DISPATH(clang::CoroutineBodyStmt);
             DISPATH(clang::CXXTryStmt);
             DISPATH(clang::CXXCatchStmt);
             DISPATH(clang::ObjCAtTryStmt);
@@ -52,6 +53,7 @@ public:
     int ncss(clang::SwitchCase *stmt);
     int ncss(clang::LabelStmt *stmt);
     int ncss(clang::AttributedStmt *stmt);
+    int ncss(clang::CoroutineBodyStmt *stmt);
     int ncss(clang::CXXTryStmt *stmt);
     int ncss(clang::CXXCatchStmt *stmt);
     int ncss(clang::ObjCAtTryStmt *stmt);
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 2e44bdb..054f64a 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -138,6 +138,11 @@ int NPathComplexityMetric::nPath(clang::AttributedStmt *stmt)
     return nPath(stmt->getSubStmt());
 }
 
+int NPathComplexityMetric::nPath(clang::CoroutineBodyStmt *stmt)
+{
+    return nPath(stmt->getBody());
+}
+
 int NPathComplexityMetric::nPath(clang::ConditionalOperator *expr)
 {
     return add(add(nPath(expr->getCond()), nPath(expr->getTrueExpr())),
diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 28f0d49..b9552dd 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -74,6 +74,11 @@ int NcssMetric::ncss(clang::AttributedStmt *stmt)
     return ncss(stmt->getSubStmt());
 }
 
+int NcssMetric::ncss(clang::CoroutineBodyStmt *stmt)
+{
+    return ncss(stmt->getBody());
+}
+
 int NcssMetric::ncss(clang::CXXTryStmt *stmt)
 {
     int ncssCatches = 0;
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 4eda0a3..904b204 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -21,18 +21,14 @@ private:
     {
         if (decl->hasBody())
         {
-            CompoundStmt *bodyStmt = dyn_cast<CompoundStmt>(decl->getBody());
-            if (bodyStmt)
+            int npath = getNPathComplexity(decl->getBody());
+
+            int threshold = RuleConfiguration::intForKey("NPATH_COMPLEXITY", 200);
+            if (npath > threshold)
             {
-                int npath = getNPathComplexity(bodyStmt);
-
-                int threshold = RuleConfiguration::intForKey("NPATH_COMPLEXITY", 200);
-                if (npath > threshold)
-                {
-                    string description = "NPath Complexity Number " +
-                        toString<int>(npath) + " exceeds limit of " + toString<int>(threshold);
-                    addViolation(decl, this, description);
-                }
+                string description = "NPath Complexity Number " +
+                    toString<int>(npath) + " exceeds limit of " + toString<int>(threshold);
+                addViolation(decl, this, description);
             }
         }
     }
-- 
2.43.0


From e7da99080d46d1b71242b95cf7c79854f9985470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:41 +0000
Subject: [PATCH 47/51] fix: do not count the carriage return of CRLF line ends
 as a character of the line

---
 oclint-rules/lib/AbstractSourceCodeReaderRule.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp b/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
index ed36ee5..3f9dbb0 100644
--- a/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
+++ b/oclint-rules/lib/AbstractSourceCodeReaderRule.cpp
@@ -25,6 +25,7 @@ void AbstractSourceCodeReaderRule::apply()
     {
         std::pair<llvm::StringRef, llvm::StringRef> splitPair = remaining.split('\n');
         llvm::StringRef currentLine = splitPair.first;
+        currentLine.consume_back("\r"); // part of the line end in CRLF files
         eachLine(currentLineNumber++, currentLine.str());
         remaining = splitPair.second;
     }
-- 
2.43.0


From 155c51be640e38ba33c849e67f3a33dfc5c099a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 48/51] fix: recognise the returned variable of C++23, an
 xvalue, as a redundant local variable

---
 .../rules/redundant/RedundantLocalVariableRule.cpp     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
index b3539cf..06fb842 100644
--- a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
@@ -18,8 +18,14 @@ private:
                 dyn_cast_or_null<ImplicitCastExpr>(returnStmt->getRetValue());
             if (implicitCastExpr)
             {
-                DeclRefExpr *returnExpr =
-                    dyn_cast_or_null<DeclRefExpr>(implicitCastExpr->getSubExpr());
+                // since C++23 the variable is an xvalue first
+                Expr *subExpr = implicitCastExpr->getSubExpr();
+                ImplicitCastExpr *xvalueCastExpr = dyn_cast_or_null<ImplicitCastExpr>(subExpr);
+                if (xvalueCastExpr && xvalueCastExpr->getCastKind() == CK_NoOp)
+                {
+                    subExpr = xvalueCastExpr->getSubExpr();
+                }
+                DeclRefExpr *returnExpr = dyn_cast_or_null<DeclRefExpr>(subExpr);
                 if (returnExpr)
                 {
                     return returnExpr->getFoundDecl();
-- 
2.43.0


From 8d576cdf98148100f549f1ff49654b85cc414278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:28 +0000
Subject: [PATCH 49/51] fix: rules that read the condition of an if crash on if
 consteval, which has none

---
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp          | 3 ++-
 .../rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index a012e00..27e07b8 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -60,7 +60,8 @@ public:
         Expr *conditionExpr = ifStmt->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (conditionExpr &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
index 8734f1a..696357a 100644
--- a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
@@ -150,7 +150,7 @@ public:
 
     bool VisitIfStmt(IfStmt* ifStmt)
     {
-        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
+        if (ifStmt == nullptr || ifStmt->getElse() != nullptr || ifStmt->getCond() == nullptr)
         {
             return true;
         }
-- 
2.43.0


From 65a4e129782bac9a2352f8dff00753d62802fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:28 +0000
Subject: [PATCH 50/51] fix: conditions of ifs are collapsible only when they
 can be combined (if constexpr, declarations)

---
 .../rules/basic/CollapsibleIfStatementsRule.cpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/basic/CollapsibleIfStatementsRule.cpp b/oclint-rules/rules/basic/CollapsibleIfStatementsRule.cpp
index 4d09582..38fb033 100644
--- a/oclint-rules/rules/basic/CollapsibleIfStatementsRule.cpp
+++ b/oclint-rules/rules/basic/CollapsibleIfStatementsRule.cpp
@@ -36,6 +36,13 @@ private:
         return outerIf->getElse() || innerIf->getElse();
     }
 
+    // the condition of the inner if can be moved to the outer one
+    bool areConditionsCombinable(IfStmt *outerIf, IfStmt *innerIf)
+    {
+        return outerIf->getStatementKind() == innerIf->getStatementKind() &&
+            !innerIf->isConsteval() && !innerIf->hasInitStorage() && !innerIf->hasVarStorage();
+    }
+
 public:
     virtual const string name() const override
     {
@@ -86,7 +93,8 @@ public:
     bool VisitIfStmt(IfStmt *ifStmt)
     {
         IfStmt *innerIf = getInnerIfStmt(ifStmt);
-        if (innerIf && !checkElseBranch(ifStmt, innerIf))
+        if (innerIf && !checkElseBranch(ifStmt, innerIf) &&
+            areConditionsCombinable(ifStmt, innerIf))
         {
             addViolation(ifStmt, this);
         }
-- 
2.43.0


From bc1f76d7d1146253f976b37e9b64db2efb9a72bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:28 +0000
Subject: [PATCH 51/51] fix: the else branch of an if constexpr or if consteval
 is not unnecessary

---
 .../rules/redundant/UnnecessaryElseStatementRule.cpp         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-rules/rules/redundant/UnnecessaryElseStatementRule.cpp b/oclint-rules/rules/redundant/UnnecessaryElseStatementRule.cpp
index b2e30d1..aeaf13e 100644
--- a/oclint-rules/rules/redundant/UnnecessaryElseStatementRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryElseStatementRule.cpp
@@ -49,6 +49,11 @@ private:
     {
         for (const auto& ifStmt : ifStmts)
         {
+            // what is in the else branch is not compiled when the condition holds
+            if (ifStmt->isConstexpr() || ifStmt->isConsteval())
+            {
+                return false;
+            }
             if (!areAllBranchesReturn(ifStmt->getThen()))
             {
                 return false;
-- 
2.43.0

