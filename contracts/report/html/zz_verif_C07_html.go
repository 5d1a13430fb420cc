package html

import (
	"bytes"
	"encoding/json"
	"errors"
	"html/template"
	"io"
	"regexp"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C07_html(r *gv.Rand) (*gosec.ReportInfo, bool) {
	d := &gosec.ReportInfo{Stats: &gosec.Metrics{NumFound: r.Intn(4)}, GosecVersion: gv.Pick(r, "", "v1")}
	for n := r.Intn(5); n > 0; n-- {
		d.Issues = append(d.Issues, &issue.Issue{File: gv.Pick(r, "a.go", "b:c.go"), Line: gv.Pick(r, "1", "2-4"), Col: gv.Pick(r, "7", "8"), What: gv.Pick(r, "x", "<y> & \"z\"", "</script>"), RuleID: gv.Pick(r, "G101", "G304"),
			Severity: issue.Score(r.Intn(3)), Confidence: issue.Score(r.Intn(3)), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0")), Code: gv.Pick(r, "1: a\n", "")})
	}
	return d, false
}

var spec_C07_data = regexp.MustCompile(`var data = (.*);`)

func verif_C07_html(data *gosec.ReportInfo, fails bool) {
	gv.Requires(data != nil)
	if gv.Native() {
		var b bytes.Buffer
		gv.Ensures("a report is written", WriteReport(&b, data) == nil)
		m := spec_C07_data.FindSubmatch(b.Bytes())
		gv.Ensures("the report holds the data", m != nil)
		var got struct {
			Issues []struct {
				Severity, Confidence, Rule_id, Details, File, Code, Line, Column string
				Cwe                                                              *struct{ ID string }
			}
		}
		gv.Ensures("the data can be read back", json.Unmarshal(m[1], &got) == nil)
		gv.Ensures("the report covers every finding, in order", len(got.Issues) == len(data.Issues))
		for k, i := range data.Issues {
			g := got.Issues[k]
			gv.Ensures("a finding is described completely", g.Severity == i.Severity.String() && g.Confidence == i.Confidence.String() && g.Rule_id == i.RuleID &&
				g.Details == i.What && g.File == i.File && g.Code == i.Code && g.Line == i.Line && g.Column == i.Col && (g.Cwe == nil) == (i.Cwe == nil))
		}
		return
	}
	var dest io.Writer = &bytes.Buffer{}
	executed := 0
	gv.Stub((*template.Template).Execute, func(t *template.Template, w io.Writer, v any) error {
		if w == dest && v == any(data) {
			executed++
		}
		if fails {
			return errors.New("write error")
		}
		return nil
	})
	gv.Stub((*template.Template).Parse, func(t *template.Template, s string) (*template.Template, error) { return t, nil })
	err := WriteReport(dest, data)
	gv.Ensures("the template is executed once with the report data", executed == 1)
	gv.Ensures("a failure is reported", !fails || err != nil)
}
