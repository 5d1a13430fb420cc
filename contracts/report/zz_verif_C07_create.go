package report

import (
	"bytes"
	stdjson "encoding/json"
	"errors"
	"io"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report/csv"
	"github.com/securego/gosec/v2/report/golint"
	"github.com/securego/gosec/v2/report/html"
	"github.com/securego/gosec/v2/report/json"
	"github.com/securego/gosec/v2/report/junit"
	"github.com/securego/gosec/v2/report/sarif"
	"github.com/securego/gosec/v2/report/sonar"
	"github.com/securego/gosec/v2/report/text"
	"github.com/securego/gosec/v2/report/yaml"
)

// number of unsuppressed issues among the first n
func spec_C07_count(issues []*issue.Issue, n int) int {
	if n <= 0 {
		return 0
	}
	k := spec_C07_count(issues, n-1)
	if len(issues[n-1].Suppressions) == 0 {
		return k + 1
	}
	return k
}

// res holds exactly the unsuppressed issues among the first n, in order
func spec_C07_filtered(issues []*issue.Issue, n int, res []*issue.Issue) bool {
	return len(res) == spec_C07_count(issues, n) && gv.All(0, n, func(i int) bool {
		k := spec_C07_count(issues, i)
		return len(issues[i].Suppressions) != 0 || (k >= 0 && k < len(res) && res[k] == issues[i])
	})
}

func gen_C07_filterOutSuppressedIssues(r *gv.Rand) []*issue.Issue {
	var l []*issue.Issue
	for n := r.Intn(6); n > 0; n-- {
		i := &issue.Issue{What: r.Str()}
		if r.Intn(2) == 0 {
			i.Suppressions = make([]issue.SuppressionInfo, r.Intn(3))
		}
		i.NoSec = r.Intn(2) == 0
		l = append(l, i)
	}
	return l
}

func verif_C07_filterOutSuppressedIssues(issues []*issue.Issue) {
	gv.Requires(gv.All(0, len(issues), func(i int) bool { return issues[i] != nil }))
	in := gv.Snap(issues)
	gv.Mark()
	gv.NoPanic()
	gv.Inv(func(it int, res []*issue.Issue) bool { return spec_C07_filtered(in, it, res) })
	res := filterOutSuppressedIssues(issues)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("exactly the unsuppressed findings are kept, in order", spec_C07_filtered(in, len(in), res))
}

func gen_C07_createReport(r *gv.Rand) (string, bool, []string, *gosec.ReportInfo, bool) {
	d := &gosec.ReportInfo{Issues: gen_C07_filterOutSuppressedIssues(r), Stats: &gosec.Metrics{}}
	for _, i := range d.Issues {
		i.File, i.Line, i.Col, i.RuleID = "/a/x.go", "3", "1", "G101"
	}
	return gv.Pick(r, "json", "yaml", "csv", "junit-xml", "html", "text", "sonarqube", "golint", "sarif", "other"), r.Intn(2) == 0, []string{"/a"}, d, r.Intn(4) == 0
}

type failingWriter struct{}

func (failingWriter) Write(p []byte) (int, error) { return 0, errors.New("full") }

func verif_C07_createReport(format string, color bool, roots []string, data *gosec.ReportInfo, fails bool) {
	gv.Requires(data != nil)
	gv.Requires(gv.All(0, len(data.Issues), func(i int) bool { return data.Issues[i] != nil }))
	known := format == "json" || format == "yaml" || format == "csv" || format == "junit-xml" || format == "html" ||
		format == "text" || format == "sonarqube" || format == "golint" || format == "sarif"
	in := gv.Snap(data.Issues)
	issues, errs, stats, version := data.Issues, data.Errors, data.Stats, data.GosecVersion
	werr := error(nil)
	if fails {
		werr = errors.New("write error")
	}
	calls := 0
	var kind string
	var got *gosec.ReportInfo
	var gotRoots []string
	rec := func(k string, d *gosec.ReportInfo) error {
		calls++
		kind, got = k, d
		return werr
	}
	gv.Stub(csv.WriteReport, func(w io.Writer, d *gosec.ReportInfo) error { return rec("csv", d) })
	gv.Stub(yaml.WriteReport, func(w io.Writer, d *gosec.ReportInfo) error { return rec("yaml", d) })
	gv.Stub(json.WriteReport, func(w io.Writer, d *gosec.ReportInfo) error { return rec("json", d) })
	gv.Stub(junit.WriteReport, func(w io.Writer, d *gosec.ReportInfo) error { return rec("junit-xml", d) })
	gv.Stub(html.WriteReport, func(w io.Writer, d *gosec.ReportInfo) error { return rec("html", d) })
	gv.Stub(golint.WriteReport, func(w io.Writer, d *gosec.ReportInfo) error { return rec("golint", d) })
	gv.Stub(text.WriteReport, func(w io.Writer, d *gosec.ReportInfo, c bool) error { return rec("text", d) })
	gv.Stub(sonar.WriteReport, func(w io.Writer, d *gosec.ReportInfo, r []string) error { gotRoots = r; return rec("sonarqube", d) })
	gv.Stub(sarif.WriteReport, func(w io.Writer, d *gosec.ReportInfo, r []string) error { gotRoots = r; return rec("sarif", d) })
	gv.UseContract(filterOutSuppressedIssues, verif_C07_filterOutSuppressedIssues)
	gv.NoPanic()
	if gv.Native() {
		// the real writers: the JSON and YAML reports are read back
		var b bytes.Buffer
		err := CreateReport(&b, format, color, roots, data)
		gv.Ensures("the report data stays complete for other reports", gv.Same(data.Issues, issues) && data.Stats == stats && data.GosecVersion == version &&
			gv.All(0, len(in), func(i int) bool { return data.Issues[i] == in[i] }))
		if format == "json" && err == nil {
			var back struct{ Issues []map[string]any }
			gv.Ensures("the JSON report is valid", stdjson.Unmarshal(b.Bytes(), &back) == nil)
			gv.Ensures("every finding is in the JSON report", len(back.Issues) == len(in))
		}
		gv.Ensures("a write error is reported", !(fails && err == nil && CreateReport(failingWriter{}, format, color, roots, data) == nil && b.Len() > 0 && format != "csv"))
		return
	}
	err := CreateReport(nil, format, color, roots, data)
	gv.MayPanic()
	gv.Ensures("exactly one report is written, in the format asked for", calls == 1 && (kind == format || !known && kind == "text"))
	gv.Ensures("a failing writer is reported", (err != nil) == fails)
	if format == "json" || format == "sarif" {
		gv.Ensures("suppressed findings stay in the JSON and SARIF reports", got.Issues != nil == (issues != nil) && len(got.Issues) == len(in) && gv.All(0, len(in), func(i int) bool { return got.Issues[i] == in[i] }))
	} else {
		gv.Ensures("exactly the unsuppressed findings are in the other reports", spec_C07_filtered(in, len(in), got.Issues))
	}
	gv.Ensures("errors, statistics and version are in every report", gv.AllKeys(errs, func(k string) bool { _, has := got.Errors[k]; return has }) && got.Stats == stats && got.GosecVersion == version)
	gv.Ensures("the roots are passed on", kind != "sarif" && kind != "sonarqube" || gv.Same(gotRoots, roots))
	gv.Ensures("the report data stays complete for other reports", gv.Same(data.Issues, issues) && data.Stats == stats && data.GosecVersion == version &&
		gv.All(0, len(in), func(i int) bool { return data.Issues[i] == in[i] }))
}
