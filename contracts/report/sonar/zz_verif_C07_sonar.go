package sonar

import (
	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C07_sonar(r *gv.Rand) ([]string, *gosec.ReportInfo) {
	d := &gosec.ReportInfo{}
	for n := r.Intn(7); n > 0; n-- {
		d.Issues = append(d.Issues, &issue.Issue{File: gv.Pick(r, "/a/a.go", "/a/b/b.go", "/b.go", "/c/x.go"), Line: gv.Pick(r, "1", "2-4", "1x"), Col: "7", What: gv.Pick(r, "x", "y", "z"), RuleID: gv.Pick(r, "G101", "G304"),
			Severity: issue.Score(r.Intn(4)), Confidence: issue.Score(r.Intn(4))})
	}
	return gv.Pick(r, []string{"/a"}, []string{"/a", "/c"}, []string{"/"}, nil), d
}

func spec_C07_inside(i *issue.Issue, roots []string) bool { return parseFilePath(i, roots) != "" }

// number of findings below a root among the first n
func spec_C07_count(issues []*issue.Issue, n int, roots []string) int {
	if n <= 0 {
		return 0
	}
	k := spec_C07_count(issues, n-1, roots)
	if parseFilePath(issues[n-1], roots) != "" {
		return k + 1
	}
	return k
}

func verif_C07_parseTextRange(i *issue.Issue) {
	gv.Requires(i != nil)
	gv.Mark()
	gv.NoPanic()
	r, err := parseTextRange(i)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("a range or an error", (r != nil) == (err == nil))
}

func verif_C07_sonar(roots []string, data *gosec.ReportInfo) {
	gv.Opaque(parseFilePath)
	gv.UseContract(parseTextRange, verif_C07_parseTextRange)
	gv.Requires(data != nil)
	gv.Requires(gv.All(0, len(data.Issues), func(i int) bool { return data.Issues[i] != nil }))
	in := gv.Snap(data.Issues)
	gv.Inv(func(it int, r *Report, l []*Issue) bool { return r != nil })
	gv.Inv(func(it int, r *Report) bool { return len(r.Issues) == spec_C07_count(in, it, roots) })
	gv.Inv(func(it int, r *Report) bool {
		return gv.All(0, it, func(k int) bool {
			n := spec_C07_count(in, k, roots)
			return parseFilePath(in[k], roots) == "" || n >= 0 && n < len(r.Issues) && spec_C07_entry(r.Issues[n], in[k], roots)
		})
	})
	gv.NoPanic()
	rep, err := GenerateReport(roots, data)
	gv.MayPanic()
	gv.Ensures("there is a report", rep != nil)
	gv.Ensures("every finding below a root is reported once, in order", err != nil || len(rep.Issues) == spec_C07_count(in, len(in), roots) &&
		gv.All(0, len(in), func(k int) bool {
			n := spec_C07_count(in, k, roots)
			return parseFilePath(in[k], roots) == "" || n >= 0 && n < len(rep.Issues) && spec_C07_entry(rep.Issues[n], in[k], roots)
		}))
}

func spec_C07_entry(e *Issue, i *issue.Issue, roots []string) bool {
	return e != nil && e.RuleID == i.RuleID && e.EngineID == "gosec" && e.Severity == getSonarSeverity(i.Severity.String()) &&
		e.PrimaryLocation != nil && e.PrimaryLocation.Message == i.What && e.PrimaryLocation.FilePath == parseFilePath(i, roots) && e.PrimaryLocation.TextRange != nil
}
