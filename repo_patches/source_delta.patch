From 552114732a56a628d1333f0614deaa7cbf3883be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 01/33] fix: collect all nosec directives that apply to a line

---
 analyzer.go | 49 +++++++++++++++----------------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..b88212d 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -87,50 +87,31 @@ func (i ignores) parseLine(line string) (int, int) {
 }
 
 func (i ignores) add(file string, line string, suppressions map[string]issue.SuppressionInfo) {
-	is := []ignore{}
-	if _, ok := i[file]; ok {
-		is = i[file]
-	}
-	found := false
 	start, end := i.parseLine(line)
-	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
-			found = true
-			for r, s := range suppressions {
-				ss, ok := ig.suppressions[r]
-				if !ok {
-					ss = []issue.SuppressionInfo{}
-				}
-				ss = append(ss, s)
-				ig.suppressions[r] = ss
-			}
-			break
-		}
+	ig := ignore{
+		start:        start,
+		end:          end,
+		suppressions: map[string][]issue.SuppressionInfo{},
 	}
-	if !found {
-		ig := ignore{
-			start:        start,
-			end:          end,
-			suppressions: map[string][]issue.SuppressionInfo{},
-		}
-		for r, s := range suppressions {
-			ig.suppressions[r] = []issue.SuppressionInfo{s}
-		}
-		is = append(is, ig)
+	for r, s := range suppressions {
+		ig.suppressions[r] = []issue.SuppressionInfo{s}
 	}
-	i[file] = is
+	i[file] = append(i[file], ig)
 }
 
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
-	if is, ok := i[file]; ok {
-		for _, i := range is {
-			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+	// Several directives can apply to the same line (e.g. a directive on a statement
+	// within a block which has its own directive), so all of them are collected.
+	suppressions := map[string][]issue.SuppressionInfo{}
+	for _, ig := range i[file] {
+		if ig.start <= start && ig.end >= end || start <= ig.start && end >= ig.end {
+			for r, s := range ig.suppressions {
+				suppressions[r] = append(suppressions[r], s...)
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return suppressions
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
-- 
2.43.0


From 0cc2d5bf972af7e75dc23b4b29134b356e4c3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 02/33] fix: keep the SARIF rules sorted and the rule indexes
 of the results valid

---
 report/sarif/formatter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..bb24b05 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -53,6 +53,15 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		results = append(results, result)
 	}
 
+	// A rule inserted in order shifts the rules behind it, so the indexes are final only here.
+	ruleIndexes := map[string]int{}
+	for i, rule := range rules {
+		ruleIndexes[rule.ID] = i
+	}
+	for _, result := range results {
+		result.RuleIndex = ruleIndexes[result.RuleID]
+	}
+
 	sort.SliceStable(cweTaxa, func(i, j int) bool { return cweTaxa[i].ID < cweTaxa[j].ID })
 
 	tool := NewTool(buildSarifDriver(rules, data.GosecVersion))
@@ -70,7 +79,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 // addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
 // slice and the position where the rule was inserted
 func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
+	position := len(rules)
 	for i, r := range rules {
 		if r.ID < rule.ID {
 			continue
-- 
2.43.0


From a8977afe8c625a7a68665a8a3b123c784c838015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 03/33] fix: do not emit a null SARIF relationship for rules
 without CWE

---
 report/sarif/formatter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index bb24b05..3d8e32d 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -117,10 +117,15 @@ func parseSarifRule(i *issue.Issue) *ReportingDescriptor {
 		DefaultConfiguration: &ReportingConfiguration{
 			Level: getSarifLevel(i.Severity.String()),
 		},
-		Relationships: []*ReportingDescriptorRelationship{
-			buildSarifReportingDescriptorRelationship(i.Cwe),
-		},
+		Relationships: buildSarifRelationships(i.Cwe),
+	}
+}
+
+func buildSarifRelationships(weakness *cwe.Weakness) []*ReportingDescriptorRelationship {
+	if weakness == nil {
+		return nil
 	}
+	return []*ReportingDescriptorRelationship{buildSarifReportingDescriptorRelationship(weakness)}
 }
 
 func buildSarifReportingDescriptorRelationship(weakness *cwe.Weakness) *ReportingDescriptorRelationship {
-- 
2.43.0


From 1cb1e230cf2418df87ec453752b34b449199614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 04/33] fix: map rule G307 to a CWE

---
 issue/issue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..87e43eb 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -77,6 +77,7 @@ var ruleToCWE = map[string]string{
 	"G304": "22",
 	"G305": "22",
 	"G306": "276",
+	"G307": "276",
 	"G401": "328",
 	"G402": "295",
 	"G403": "310",
-- 
2.43.0


From dd09601b30820650efa25e765063395504b9878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 05/33] fix: keep the suppressed issues for reports created
 afterwards

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..c924928 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// The report data is shared with the reports in other formats.
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From 539ee7a9a5b05842201e8e6f06f6015323728124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 06/33] fix: report paths relative to the scan root regardless
 of sibling roots with a common prefix

---
 report/sarif/formatter.go | 6 ++++--
 report/sonar/formatter.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index 3d8e32d..cc02493 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -199,8 +199,10 @@ func parseSarifLocation(i *issue.Issue, rootPaths []string) (*Location, error) {
 func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLocation {
 	var filePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(i.File, rootPath) {
-			filePath = strings.Replace(i.File, rootPath+"/", "", 1)
+		if strings.HasPrefix(i.File, rootPath+"/") {
+			filePath = strings.TrimPrefix(i.File, rootPath+"/")
+		} else if filePath == "" && strings.HasPrefix(i.File, rootPath) {
+			filePath = i.File
 		}
 	}
 	return NewArtifactLocation(filePath)
diff --git a/report/sonar/formatter.go b/report/sonar/formatter.go
index d635d9d..69002c7 100644
--- a/report/sonar/formatter.go
+++ b/report/sonar/formatter.go
@@ -40,8 +40,10 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 func parseFilePath(issue *issue.Issue, rootPaths []string) string {
 	var sonarFilePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(issue.File, rootPath) {
-			sonarFilePath = strings.Replace(issue.File, rootPath+"/", "", 1)
+		if strings.HasPrefix(issue.File, rootPath+"/") {
+			sonarFilePath = strings.TrimPrefix(issue.File, rootPath+"/")
+		} else if sonarFilePath == "" && strings.HasPrefix(issue.File, rootPath) {
+			sonarFilePath = issue.File
 		}
 	}
 	return sonarFilePath
-- 
2.43.0


From 40557c595526fc008bc71ff392a5ad75a0d0af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 07/33] fix: honor the AI API key given on the command line

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..3154fab 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -505,7 +505,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From 978d635f28f44d7e753badbfd8f32615ce978837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:36 +0000
Subject: [PATCH 08/33] fix: order errors with a strict comparison, as
 sort.Slice requires

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 2f66727..4747f33 100644
--- a/errors.go
+++ b/errors.go
@@ -25,7 +25,7 @@ func sortErrors(allErrors map[string][]Error) {
 	for _, errors := range allErrors {
 		sort.Slice(errors, func(i, j int) bool {
 			if errors[i].Line == errors[j].Line {
-				return errors[i].Column <= errors[j].Column
+				return errors[i].Column < errors[j].Column
 			}
 			return errors[i].Line < errors[j].Line
 		})
-- 
2.43.0


From e92bb0fefb92d14b7d411dd14e9a1222e6bcb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 09/33] fix: keep the build tags for every package, not only
 for the first one

---
 analyzer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index b88212d..cba3c7c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -342,11 +342,13 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
-	// step 3/3 remove build tags from conf to proceed build correctly.
+	// step 3/3 remove build tags from conf to proceed build correctly. The conf is shared by
+	// all packages, so the tags are removed from a copy.
 	gosec.mu.Lock()
-	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
-	pkgs, err := packages.Load(conf, packageFiles...)
+	loadConf := *conf
+	loadConf.BuildFlags = nil
+	pkgs, err := packages.Load(&loadConf, packageFiles...)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-- 
2.43.0


From 01ed88f5d9970e52a9f26458d22d35d83a7f8fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:33 +0000
Subject: [PATCH 10/33] fix: take the nosec tag literally when looking for it
 in a comment

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index cba3c7c..33c120c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -630,7 +630,7 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
+	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
 		// Discard what's in front of the nosec tag.
 		return true, strings.SplitN(comment, tag, 2)[1]
 	}
-- 
2.43.0


From f30953b1010cd7f143f95ffcffacb1bb9b56a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 11/33] fix: use every nosec directive of a node, not only the
 first one

---
 analyzer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 33c120c..917521e 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -566,6 +566,8 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	// A node can have several comments (e.g. above it and at the end of its line).
+	ignores := make(map[string]issue.SuppressionInfo)
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -592,18 +594,20 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		}
 
 		// Find the rule IDs to ignore.
-		ignores := make(map[string]issue.SuppressionInfo)
 		for _, v := range matches {
-			ignores[v[1]] = suppression
+			if _, ok := ignores[v[1]]; !ok {
+				ignores[v[1]] = suppression
+			}
 		}
 
 		// If no specific rules were given, ignore everything.
 		if len(matches) == 0 {
-			ignores[aliasOfAllRules] = suppression
+			if _, ok := ignores[aliasOfAllRules]; !ok {
+				ignores[aliasOfAllRules] = suppression
+			}
 		}
-		return ignores
 	}
-	return nil
+	return ignores
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
-- 
2.43.0


From 2d0799a10f1dc94990b77146264e267f97c9415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 12/33] fix: report a gemini candidate without content as an
 error

---
 autofix/ai.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..5f77415 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -67,7 +67,7 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	if resp.Candidates[0].Content == nil || len(resp.Candidates[0].Content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
-- 
2.43.0


From 986a0d602f1c7d7d653a3d0f9c87b64e41089edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 13/33] fix: do not exit successfully in quiet mode when there
 were errors

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 3154fab..34dd90c 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -494,7 +494,7 @@ func main() {
 	}
 
 	// Exit quietly if nothing was found
-	if len(issues) == 0 && *flagQuiet {
+	if len(issues) == 0 && len(errors) == 0 && *flagQuiet {
 		os.Exit(0)
 	}
 
-- 
2.43.0


From 00f80cd023536afb5d39882cde4e639b5affde35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 14/33] fix: use the default path as root of the report when no
 path was given

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 34dd90c..1fc8a16 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -499,7 +499,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From 258e99389ba36bfdb750dbf517dfe8ed499a6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:14 +0000
Subject: [PATCH 15/33] fix: check the files of a package once when its tests
 are scanned too

---
 analyzer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 917521e..6c0011d 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -290,7 +290,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 			gosec.AppendError(r.pkgPath, r.err)
 		}
 		for _, pkg := range r.pkgs {
-			if pkg.Name != "" {
+			if pkg.Name != "" && !hasTestVariant(pkg, r.pkgs) {
 				err := gosec.ParseErrors(pkg)
 				if err != nil {
 					close(quit)
@@ -306,6 +306,17 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 	return nil
 }
 
+// hasTestVariant checks if there is another variant of the package which was compiled
+// together with its tests, and therefore has all its files.
+func hasTestVariant(pkg *packages.Package, pkgs []*packages.Package) bool {
+	for _, other := range pkgs {
+		if other.PkgPath == pkg.PkgPath && strings.HasPrefix(other.ID, pkg.ID+" [") {
+			return true
+		}
+	}
+	return false
+}
+
 func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.Package, error) {
 	abspath, err := GetPkgAbsPath(pkgPath)
 	if err != nil {
-- 
2.43.0


From 623e5a4f146e5bbe239a6f615bbcd333bfbdaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 16/33] fix: apply the G104 defaults also when a package is
 imported under another name

---
 rules/errors.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 2786426..96a7e7c 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -50,13 +50,19 @@ func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
 	return -1
 }
 
+// whitelisted reports whether the call is in the whitelist, either under the name
+// used in the code or under the path of its package when the import is renamed.
+func (r *noErrorCheck) whitelisted(n ast.Node, ctx *gosec.Context) bool {
+	return r.whitelist.ContainsCallExpr(n, ctx) != nil || r.whitelist.ContainsPkgCallExpr(n, ctx, false) != nil
+}
+
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch stmt := n.(type) {
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
 			for _, expr := range stmt.Rhs {
-				if callExpr, ok := expr.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(expr, ctx) == nil {
+				if callExpr, ok := expr.(*ast.CallExpr); ok && !r.whitelisted(expr, ctx) {
 					pos := returnsError(callExpr, ctx)
 					if pos < 0 || pos >= len(stmt.Lhs) {
 						return nil, nil
@@ -68,7 +74,7 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(stmt.X, ctx) == nil {
+		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && !r.whitelisted(stmt.X, ctx) {
 			pos := returnsError(callExpr, ctx)
 			if pos >= 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From 54c5965ffd2f5b7f0d03df0257dd31711bd3268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:56 +0000
Subject: [PATCH 17/33] fix: recognise os.ModePerm under a renamed import and
 nothing else

---
 rules/fileperms.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..b65c6a0 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -61,7 +61,7 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 	for _, pkg := range r.pkgs {
 		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
-			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
+			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg, c) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
@@ -70,10 +70,10 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 }
 
 // isOsPerm check if the provide ast node contains a os.PermMode symbol
-func isOsPerm(n ast.Node) bool {
+func isOsPerm(n ast.Node, c *gosec.Context) bool {
 	if node, ok := n.(*ast.SelectorExpr); ok {
 		if identX, ok := node.X.(*ast.Ident); ok {
-			if identX.Name == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
+			if path, ok := gosec.GetImportPath(identX.Name, c); ok && path == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
 				return true
 			}
 		}
-- 
2.43.0


From caa2b1d05e3d9fa2b6704818f8e7d481db3616a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 18/33] fix: skip the context of CommandContext under any
 import name and in execabs

---
 rules/subproc.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..333e88e 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -99,12 +99,10 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 // isContext checks whether or not the node is a CommandContext call or not
 // This is required in order to skip the first argument from the check.
 func (r *subprocess) isContext(n ast.Node, ctx *gosec.Context) bool {
-	selector, indent, err := gosec.GetCallInfo(n, ctx)
-	if err != nil {
-		return false
-	}
-	if selector == "exec" && indent == "CommandContext" {
-		return true
+	for _, pkg := range []string{"os/exec", "golang.org/x/sys/execabs"} {
+		if _, ok := gosec.MatchCallByPackage(n, ctx, pkg, "CommandContext"); ok {
+			return true
+		}
 	}
 	return false
 }
-- 
2.43.0


From 4653a8f5d69a23ec88c5078f03be7b8e990cdbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:37 +0000
Subject: [PATCH 19/33] fix: G104 checks the operand each call is assigned to

---
 rules/errors.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 96a7e7c..94fcc62 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -61,11 +61,18 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
-			for _, expr := range stmt.Rhs {
+			for i, expr := range stmt.Rhs {
 				if callExpr, ok := expr.(*ast.CallExpr); ok && !r.whitelisted(expr, ctx) {
 					pos := returnsError(callExpr, ctx)
-					if pos < 0 || pos >= len(stmt.Lhs) {
-						return nil, nil
+					if pos < 0 {
+						continue
+					}
+					if len(stmt.Rhs) > 1 {
+						// each expression is assigned to the operand at the same position
+						pos = i
+					}
+					if pos >= len(stmt.Lhs) {
+						continue
 					}
 					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
 						return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From 909e4dcef73142d1af5c539a967e488848afcd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:39 +0000
Subject: [PATCH 20/33] fix: recognise import paths written as raw strings

---
 import_tracker.go  | 2 +-
 rules/blocklist.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/import_tracker.go b/import_tracker.go
index 0d9ebfe..0d2a01d 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -52,7 +52,7 @@ func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 
 // TrackImport tracks imports.
 func (t *ImportTracker) TrackImport(imported *ast.ImportSpec) {
-	importPath := strings.Trim(imported.Path.Value, `"`)
+	importPath := strings.Trim(imported.Path.Value, "\"`")
 	if imported.Name != nil {
 		if imported.Name.Name != "_" {
 			// Aliased import
diff --git a/rules/blocklist.go b/rules/blocklist.go
index a4376b1..c474b1a 100644
--- a/rules/blocklist.go
+++ b/rules/blocklist.go
@@ -29,8 +29,7 @@ type blocklistedImport struct {
 
 func unquote(original string) string {
 	cleaned := strings.TrimSpace(original)
-	cleaned = strings.TrimLeft(cleaned, `"`)
-	return strings.TrimRight(cleaned, `"`)
+	return strings.Trim(cleaned, "\"`")
 }
 
 func (r *blocklistedImport) ID() string {
-- 
2.43.0


From 0c4136098b725ae0001f3e2f37351cf6f8defead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 21/33] fix: do not expect more arguments than a call has

---
 rules/decompression-bomb.go | 2 +-
 rules/integer_overflow.go   | 2 +-
 rules/rsa.go                | 2 +-
 rules/tempfiles.go          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..c1b46cd 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -69,7 +69,7 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 			}
 		}
 	case *ast.CallExpr:
-		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
 				if _, ok := readerVarObj[idt.Obj]; ok {
 					// Detect io.Copy(x, r)
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..bf3a782 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -60,7 +60,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 		}
 	case *ast.CallExpr:
 		if fun, ok := n.Fun.(*ast.Ident); ok {
-			if fun.Name == "int32" || fun.Name == "int16" {
+			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
 					if _, ok := atoiVarObj[idt.Obj]; ok {
 						// Detect int32(v) and int16(v)
diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..0d89f28 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -33,7 +33,7 @@ func (w *weakKeyStrength) ID() string {
 }
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
+	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) > 1 {
 		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..ac2af08 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,7 +50,7 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
-- 
2.43.0


From 51edd781134765eceb3f07744dede58ae58b7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 22/33] fix: do not take variables of other files for one
 another in G109 and G110

---
 rules/decompression-bomb.go | 2 +-
 rules/integer_overflow.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index c1b46cd..817ffe1 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -60,7 +60,7 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 	case *ast.AssignStmt:
 		for _, expr := range n.Rhs {
 			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
+				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" && idt.Obj != nil {
 					// Example:
 					//  r, _ := zlib.NewReader(buf)
 					//  Add r's Obj to readerVarObj map
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index bf3a782..c7373bc 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -50,7 +50,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 	case *ast.AssignStmt:
 		for _, expr := range n.Rhs {
 			if callExpr, ok := expr.(*ast.CallExpr); ok && i.calls.ContainsPkgCallExpr(callExpr, ctx, false) != nil {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
+				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" && idt.Obj != nil {
 					// Example:
 					//  v, _ := strconv.Atoi("1111")
 					// Add v's Obj to atoiVarObj map
-- 
2.43.0


From 727f8e4c5ff700b94d4865a0a194959f0cb8df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 23/33] fix: judge each TLS configuration by its own settings
 and find constants of packages imported under another name

The versions seen in a literal that was reported early, or in an assignment, were
taken over by the next literal. A version given by an undeclared name or by a field
of a field made the rule panic.
---
 rules/tls.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..f2345f8 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -118,18 +118,21 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 						}
 					}
 				}
+				if obj == nil {
+					return nil
+				}
 				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
 					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
-						sel := s.Sel.Name
-
-						for _, imp := range c.Pkg.Imports() {
-							if imp.Name() == x {
-								tObj := imp.Scope().Lookup(sel)
-								if cst, ok := tObj.(*types.Const); ok {
-									// ..got the value check if this can be translated
-									if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
-										t.actualMinVersion = minVersion
+						if x, ok := s.X.(*ast.Ident); ok {
+							path, _ := gosec.GetImportPath(x.Name, c)
+							for _, imp := range c.Pkg.Imports() {
+								if imp.Path() == path || path == "" && imp.Name() == x.Name {
+									tObj := imp.Scope().Lookup(s.Sel.Name)
+									if cst, ok := tObj.(*types.Const); ok {
+										// ..got the value check if this can be translated
+										if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
+											t.actualMinVersion = minVersion
+										}
 									}
 								}
 							}
@@ -212,15 +215,15 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
 		actualType := c.Info.TypeOf(complit.Type)
 		if actualType != nil && actualType.String() == t.requiredType {
+			// versions seen elsewhere do not belong to this configuration
+			t.resetVersion()
 			for _, elt := range complit.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
 					return issue, nil
 				}
 			}
-			issue := t.checkVersion(complit, c)
-			t.resetVersion()
-			return issue, nil
+			return t.checkVersion(complit, c), nil
 		}
 	} else {
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-- 
2.43.0


From 2760266dfcc8c5ab28edd0f14f23977988f19150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:34 +0000
Subject: [PATCH 24/33] fix: check conversions from and to byte and rune for
 overflows

---
 analyzers/conversion_overflow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..078d9da 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -116,6 +116,14 @@ func isIntOverflow(src string, dst string) bool {
 }
 
 func parseIntType(intType string) (integer, error) {
+	// byte and rune are other names of integer types.
+	switch intType {
+	case "byte":
+		intType = "uint8"
+	case "rune":
+		intType = "int32"
+	}
+
 	re := regexp.MustCompile(`^(?P<type>u?int)(?P<size>\d{1,2})?$`)
 	matches := re.FindStringSubmatch(intType)
 	if matches == nil {
-- 
2.43.0


From 12d0f09dc0792874f2391b4661f5619ad29cc2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 25/33] fix: constants converted to uint64 and uint are in
 range

---
 analyzers/conversion_overflow.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 078d9da..f00ddbc 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -210,10 +210,10 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 		return false
 	}
 
-	if dstInt.signed {
-		return value >= -(1<<(dstInt.size-1)) && value <= (1<<(dstInt.size-1))-1
+	if value < 0 {
+		return value >= int64(dstInt.min)
 	}
-	return value >= 0 && value <= (1<<dstInt.size)-1
+	return uint64(value) <= uint64(dstInt.max)
 }
 
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-- 
2.43.0


From 021a61479d52d54a5058d7fb6d6e69df0fed1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 26/33] fix: an integer parsed with a bit size comes from
 strconv, on every path

Bit size 0 is the size of int.
---
 analyzers/conversion_overflow.go | 79 +++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index f00ddbc..ad089df 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -217,41 +217,58 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 }
 
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-	// Traverse the SSA instructions to find the original variable.
-	original := instr.X
-	for {
-		switch v := original.(type) {
-		case *ssa.Call:
-			if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
-				if len(v.Call.Args) == 3 {
-					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
-						signed := v.Call.StaticCallee().Name() == "ParseInt"
-						bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
-						if err != nil {
-							return false
-						}
-						dstInt, err := parseIntType(dstType)
-						if err != nil {
-							return false
-						}
+	return isParsedInt(instr.X, dstType, make(map[*ssa.Phi]bool))
+}
 
-						// we're good if:
-						// - signs match and bit size is <= than destination
-						// - parsing unsigned and bit size is < than destination
-						isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
-							(bitSizeValue < dstInt.size && !signed)
-						return isSafe
-					}
-				}
-			}
+// isParsedInt traverses the SSA instructions to find out whether the value was parsed with a bit size which fits the destination.
+func isParsedInt(original ssa.Value, dstType string, visited map[*ssa.Phi]bool) bool {
+	switch v := original.(type) {
+	case *ssa.Call:
+		callee := v.Call.StaticCallee()
+		if callee == nil || callee.Object() == nil || callee.Object().Pkg() == nil || callee.Object().Pkg().Path() != "strconv" {
+			return false
+		}
+		if callee.Name() != "ParseInt" && callee.Name() != "ParseUint" || len(v.Call.Args) != 3 {
+			return false
+		}
+		bitSize, ok := v.Call.Args[2].(*ssa.Const)
+		if !ok {
+			return false
+		}
+		signed := callee.Name() == "ParseInt"
+		bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
+		if err != nil {
 			return false
-		case *ssa.Phi:
-			original = v.Edges[0]
-		case *ssa.Extract:
-			original = v.Tuple
-		default:
+		}
+		// bit size 0 stands for the size of int
+		if bitSizeValue == 0 {
+			bitSizeValue = strconv.IntSize
+		}
+		dstInt, err := parseIntType(dstType)
+		if err != nil {
 			return false
 		}
+
+		// we're good if:
+		// - signs match and bit size is <= than destination
+		// - parsing unsigned and bit size is < than destination
+		return (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
+			(bitSizeValue < dstInt.size && !signed)
+	case *ssa.Phi:
+		if visited[v] {
+			return true
+		}
+		visited[v] = true
+		for _, edge := range v.Edges {
+			if !isParsedInt(edge, dstType, visited) {
+				return false
+			}
+		}
+		return true
+	case *ssa.Extract:
+		return isParsedInt(v.Tuple, dstType, visited)
+	default:
+		return false
 	}
 }
 
-- 
2.43.0


From 7010eb96263c30ec7a5f0d190f0346c79a936574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:36 +0000
Subject: [PATCH 27/33] fix: heed range checks of values of named integer types

---
 analyzers/conversion_overflow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index ad089df..ece38f1 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -278,7 +278,7 @@ func hasExplicitRangeCheck(instr *ssa.Convert, dstType string) bool {
 		return false
 	}
 
-	srcInt, err := parseIntType(instr.X.Type().String())
+	srcInt, err := parseIntType(instr.X.Type().Underlying().String())
 	if err != nil {
 		return false
 	}
-- 
2.43.0


From e9e423d9fd054db1b55cf404cc0e2c8ec394f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:37 +0000
Subject: [PATCH 28/33] fix: a range check excludes the constant itself exactly
 when the comparison does

---
 analyzers/conversion_overflow.go | 44 +++++++++++++++++---------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index ece38f1..0cfc583 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -433,33 +433,37 @@ func updateExplicitValues(result *rangeResult, constVal *ssa.Const) {
 	}
 }
 
+// updateMin notes that the value is at least the constant, or more than it if strict is set.
+func updateMin(result *rangeResult, constVal *ssa.Const, strict bool) {
+	result.minValue = int(constVal.Int64())
+	if strict && result.minValue < math.MaxInt {
+		result.minValue++
+	}
+}
+
+// updateMax notes that the value is at most the constant, or less than it if strict is set. The bound is never below zero.
+func updateMax(result *rangeResult, constVal *ssa.Const, strict bool) {
+	result.maxValue = uint(constVal.Uint64())
+	if strict && result.maxValue > 0 {
+		result.maxValue--
+	}
+}
+
 func updateMinMaxForLessOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the maximum value.
-	if successPathConvert && !operandsFlipped {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LEQ {
-			result.maxValue--
-		}
+	// The comparison bounds the value from above if it holds for value <= const or does not hold for const <= value.
+	if successPathConvert != operandsFlipped {
+		updateMax(result, constVal, (op == token.LSS) == successPathConvert)
 	} else {
-		result.minValue = int(constVal.Int64())
-		if op == token.GTR {
-			result.minValue++
-		}
+		updateMin(result, constVal, (op == token.LSS) == successPathConvert)
 	}
 }
 
 func updateMinMaxForGreaterOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the minimum value.
-	if successPathConvert && !operandsFlipped {
-		result.minValue = int(constVal.Int64())
-		if op == token.GEQ {
-			result.minValue++
-		}
+	// The comparison bounds the value from below if it holds for value >= const or does not hold for const >= value.
+	if successPathConvert != operandsFlipped {
+		updateMin(result, constVal, (op == token.GTR) == successPathConvert)
 	} else {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LSS {
-			result.maxValue--
-		}
+		updateMax(result, constVal, (op == token.GTR) == successPathConvert)
 	}
 }
 
-- 
2.43.0


From bbae6609b54b4d4144396b170f13ce242c9c2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:37 +0000
Subject: [PATCH 29/33] fix: the range of a negated value is the negated range

Comparisons of other results of unary operators, like the complement, say nothing
about the value itself.
---
 analyzers/conversion_overflow.go | 58 +++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 0cfc583..62280af 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -18,6 +18,7 @@ import (
 	"cmp"
 	"fmt"
 	"go/token"
+	"go/types"
 	"math"
 	"regexp"
 	"strconv"
@@ -413,15 +414,36 @@ func updateResultFromBinOp(result *rangeResult, binOp *ssa.BinOp, instr *ssa.Con
 	}
 
 	if op == "neg" {
-		minVal := result.minValue
-		maxVal := result.maxValue
-
-		if minVal >= 0 {
-			result.maxValue = uint(minVal)
-		}
-		if maxVal <= math.MaxInt {
-			result.minValue = int(maxVal)
+		if basic, ok := instr.X.Type().Underlying().(*types.Basic); ok && basic.Info()&types.IsUnsigned != 0 {
+			// Negating an unsigned value wraps around.
+			*result = rangeResult{minValue: math.MinInt, maxValue: math.MaxUint, isRangeCheck: result.isRangeCheck}
+			return
 		}
+		negateRange(result)
+	}
+}
+
+// negateRange turns the range of a value into the range of the negated value.
+func negateRange(result *rangeResult) {
+	minVal, maxVal := result.minValue, result.maxValue
+	result.minValue, result.maxValue = math.MinInt, math.MaxUint
+
+	if minVal >= 0 {
+		result.maxValue = 0
+	} else if minVal > math.MinInt {
+		result.maxValue = uint(-minVal)
+	}
+	if maxVal <= math.MaxInt {
+		result.minValue = -int(maxVal)
+	}
+
+	positiveVals, negativeVals := result.explicitPositiveVals, result.explicitNegativeVals
+	result.explicitPositiveVals, result.explicitNegativeVals = nil, nil
+	for _, val := range positiveVals {
+		result.explicitNegativeVals = append(result.explicitNegativeVals, -int(val))
+	}
+	for _, val := range negativeVals {
+		result.explicitPositiveVals = append(result.explicitPositiveVals, uint(-val))
 	}
 }
 
@@ -518,11 +540,16 @@ func isRangeCheck(v ssa.Value, x ssa.Value) bool {
 func getRealValueFromOperation(v ssa.Value) (ssa.Value, string) {
 	switch v := v.(type) {
 	case *ssa.UnOp:
-		if v.Op == token.SUB {
-			val, _ := getRealValueFromOperation(v.X)
+		switch v.Op {
+		case token.SUB:
+			val, op := getRealValueFromOperation(v.X)
+			if op == "neg" {
+				return val, ""
+			}
 			return val, "neg"
+		case token.MUL:
+			return getRealValueFromOperation(v.X)
 		}
-		return getRealValueFromOperation(v.X)
 	case *ssa.FieldAddr:
 		return v, "field"
 	case *ssa.Alloc:
@@ -532,8 +559,13 @@ func getRealValueFromOperation(v ssa.Value) (ssa.Value, string) {
 }
 
 func isSameOrRelated(a, b ssa.Value) bool {
-	aVal, _ := getRealValueFromOperation(a)
-	bVal, _ := getRealValueFromOperation(b)
+	aVal, aOp := getRealValueFromOperation(a)
+	bVal, bOp := getRealValueFromOperation(b)
+
+	// A value says nothing about its negation.
+	if (aOp == "neg") != (bOp == "neg") {
+		return false
+	}
 
 	if aVal == bVal {
 		return true
-- 
2.43.0


From 18a2dfcaad40f86500ed9d61706848e9989cd433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:31 +0000
Subject: [PATCH 30/33] fix: the nonce check crashed on a nil nonce and did not
 end on recursive functions

---
 analyzers/hardcoded_nonce.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..e3eec7b 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -63,7 +63,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "")
+		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -73,7 +73,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 }
 
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string,
+	pass *analysis.Pass, issueDescription string, visited map[*ssa.Parameter]bool,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
@@ -124,7 +124,10 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 		// }
 		// save parameter position, by checking the name of the variable used in
 		// tracked functions and comparing it with the name of the arg
-		if valType.Parent() != nil {
+		// a recursive function leads back to a parameter which is being tracked already
+		if valType.Parent() != nil && !visited[valType] {
+			visited[valType] = true
+			defer delete(visited, valType)
 			trackedFunctions := make(map[string][]int)
 			for index, funcArgs := range valType.Parent().Params {
 				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
@@ -139,7 +142,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
+				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visited)
 				allIssues = append(allIssues, issues...)
 			}
 		}
@@ -196,13 +199,22 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
+// varsMapKey identifies a value. Constants and globals have no parent function.
+func varsMapKey(value ssa.Value) string {
+	key := value.Name() + value.Type().String() + value.String()
+	if parent := value.Parent(); parent != nil {
+		key += parent.String()
+	}
+	return key
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
+	key := varsMapKey(value)
 	mapToAddTo[key] = &value
 }
 
 func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
+	key := varsMapKey(value)
 	_, contained := mapToCheck[key]
 	return contained
 }
-- 
2.43.0


From d786b1beef17f372e2eee1cc92e2d7968152efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:31 +0000
Subject: [PATCH 31/33] fix: rule settings of an unexpected shape crashed G101
 and G111

---
 rules/directory-traversal.go   | 3 +--
 rules/hardcoded_credentials.go | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..5631d23 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -44,8 +44,7 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 // NewDirectoryTraversal attempts to find the use of http.Dir("/")
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
 	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..59b5de2 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -342,8 +342,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	perCharThreshold := 3.0
 	ignoreEntropy := false
 	truncateString := 16
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
@@ -371,7 +370,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 		}
 		if configTruncate, ok := conf["truncate"]; ok {
 			if cfgTruncate, ok := configTruncate.(string); ok {
-				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil {
+				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil && parsedInt >= 0 {
 					truncateString = parsedInt
 				}
 			}
-- 
2.43.0


From e60fe2969469519bbe6ac93e9fba61d95f793811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:39 +0000
Subject: [PATCH 32/33] fix: a shown but suppressed finding made gosec fail

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 1fc8a16..e76ad2d 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -348,7 +348,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 func exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
 	nsi := 0
 	for _, issue := range issues {
-		if len(issue.Suppressions) == 0 {
+		if !issue.NoSec && len(issue.Suppressions) == 0 {
 			nsi++
 		}
 	}
-- 
2.43.0


From 073080081b1343c132ffbd260abb33ed5daea4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:06 +0000
Subject: [PATCH 33/33] fix: the length of one slice does not guard another and
 a named length guards every time

---
 analyzers/slice_bounds.go | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 968102f..0723518 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -56,7 +56,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	}
 
 	issues := map[ssa.Instruction]*issue.Issue{}
-	ifs := map[ssa.If]*ssa.BinOp{}
+	ifs := map[ssa.If]lenCondition{}
 	for _, mcall := range ssaResult.SSA.SrcFuncs {
 		for _, block := range mcall.DomPreorder() {
 			for _, instr := range block.Instrs {
@@ -109,8 +109,8 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 		}
 	}
 
-	for ifref, binop := range ifs {
-		bound, value, err := extractBinOpBound(binop)
+	for ifref, cond := range ifs {
+		bound, value, err := extractBinOpBound(cond.binop)
 		if err != nil {
 			continue
 		}
@@ -126,6 +126,9 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 				depth++
 				for _, instr := range block.Instrs {
 					if _, ok := issues[instr]; ok {
+						if accessedSlice(instr) != cond.slice {
+							continue
+						}
 						switch bound {
 						case lowerUnbounded:
 							break
@@ -170,7 +173,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
+func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]lenCondition) {
 	if depth == maxDepth {
 		return
 	}
@@ -196,8 +199,10 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 					*violations = append(*violations, refinstr)
 				}
 			case *ssa.Call:
-				if ifref, cond := extractSliceIfLenCondition(refinstr); ifref != nil && cond != nil {
-					ifs[*ifref] = cond
+				if conds := extractSliceIfLenConditions(refinstr); len(conds) > 0 {
+					for ifref, cond := range conds {
+						ifs[*ifref] = cond
+					}
 				} else {
 					parPos := -1
 					for pos, arg := range refinstr.Call.Args {
@@ -217,7 +222,7 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 	}
 }
 
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
+func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]lenCondition) {
 	if depth == maxDepth {
 		return
 	}
@@ -254,7 +259,35 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	}
 }
 
-func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
+// lenCondition is a comparison of the length of a slice.
+type lenCondition struct {
+	binop *ssa.BinOp
+	slice ssa.Value
+}
+
+// slicedValue returns the value which the given slice is a part of.
+func slicedValue(value ssa.Value) ssa.Value {
+	for {
+		slice, ok := value.(*ssa.Slice)
+		if !ok {
+			return value
+		}
+		value = slice.X
+	}
+}
+
+func accessedSlice(instr ssa.Instruction) ssa.Value {
+	switch instr := instr.(type) {
+	case *ssa.Slice:
+		return slicedValue(instr.X)
+	case *ssa.IndexAddr:
+		return slicedValue(instr.X)
+	}
+	return nil
+}
+
+func extractSliceIfLenConditions(call *ssa.Call) map[*ssa.If]lenCondition {
+	conds := map[*ssa.If]lenCondition{}
 	if builtInLen, ok := call.Call.Value.(*ssa.Builtin); ok {
 		if builtInLen.Name() == "len" {
 			refs := call.Referrers()
@@ -264,7 +297,7 @@ func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
 						binoprefs := binop.Referrers()
 						for _, ref := range *binoprefs {
 							if ifref, ok := ref.(*ssa.If); ok {
-								return ifref, binop
+								conds[ifref] = lenCondition{binop: binop, slice: slicedValue(call.Call.Args[0])}
 							}
 						}
 					}
@@ -272,7 +305,7 @@ func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
 			}
 		}
 	}
-	return nil, nil
+	return conds
 }
 
 func computeSliceNewCap(l, h, oldCap int) int {
-- 
2.43.0

