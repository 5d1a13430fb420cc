package text

import (
	"bytes"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C07_text(r *gv.Rand) *gosec.ReportInfo {
	d := &gosec.ReportInfo{Stats: &gosec.Metrics{NumFound: r.Intn(4)}, GosecVersion: gv.Pick(r, "", "v1")}
	for n := r.Intn(5); n > 0; n-- {
		d.Issues = append(d.Issues, &issue.Issue{File: gv.Pick(r, "a.go", "b:c.go"), Line: gv.Pick(r, "1", "2-4", "9"), Col: gv.Pick(r, "7", "8"), What: gv.Pick(r, "x", "<y> & \"z\""), RuleID: gv.Pick(r, "G101", "G304"),
			Severity: issue.Score(r.Intn(3)), Confidence: issue.Score(r.Intn(3)), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0")), Code: gv.Pick(r, "1: a\n2: b\n3: c\n4: d\n", "", "8: x\n9: y\n10: z\n"), NoSec: r.Intn(2) == 0, Autofix: gv.Pick(r, "", "fix it")})
	}
	return d
}

// The templates are interpreted by the standard library, so the report is compared on generated inputs only.
func verif_C07_text(data *gosec.ReportInfo) {
	gv.Requires(data != nil)
	gv.Strings()
	if gv.Native() {
		var b bytes.Buffer
		gv.Ensures("a report is written", WriteReport(&b, data, false) == nil)
		rest := b.String()
		for _, i := range data.Issues {
			id := "CWE"
			if i.Cwe != nil {
				id = "CWE-" + i.Cwe.ID
			}
			head := "[" + i.File + ":" + i.Line + "] - " + i.RuleID
			tail := " (" + id + "): " + i.What + " (Confidence: " + i.Confidence.String() + ", Severity: " + i.Severity.String() + ")\n"
			at := strings.Index(rest, head)
			gv.Ensures("every finding is reported with its place and rule, in order", at >= 0)
			rest = rest[at+len(head):]
			at = strings.Index(rest, tail)
			gv.Ensures("every finding is reported with its weakness, description, confidence and severity", at >= 0 && at < 12)
			rest = rest[at+len(tail):]
			for _, l := range strings.Split(i.Code, "\n") {
				if l == "" {
					continue
				}
				at = strings.Index(rest, l+"\n")
				gv.Ensures("the code of a finding is shown", at >= 0)
				rest = rest[at+len(l)+1:]
			}
		}
		gv.Ensures("nothing is reported twice", !strings.Contains(rest, "Confidence: "))
	}
	for _, i := range data.Issues {
		if i != nil {
			gv.Ensures("the place of a finding is its file and line", i.FileLocation() == i.File+":"+i.Line)
		}
	}
}
