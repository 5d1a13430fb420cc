package golint

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func spec_C07_line(i *issue.Issue) string {
	what := i.What
	if i.Cwe != nil && i.Cwe.ID != "" {
		what = "[" + i.Cwe.SprintID() + "] " + i.What
	}
	return i.File + ":" + strings.Split(i.Line, "-")[0] + ":" + i.Col + ": " + what + " (Rule:" + i.RuleID + ", Severity:" + i.Severity.String() + ", Confidence:" + i.Confidence.String() + ")\n"
}

func gen_C07_golint(r *gv.Rand) (*gosec.ReportInfo, bool) {
	d := &gosec.ReportInfo{}
	for n := r.Intn(5); n > 0; n-- {
		d.Issues = append(d.Issues, &issue.Issue{File: gv.Pick(r, "a.go", "b:c.go"), Line: gv.Pick(r, "1", "2-4"), Col: "7", What: gv.Pick(r, "x", "100% y"), RuleID: gv.Pick(r, "G101", "G304"),
			Severity: issue.Score(r.Intn(4)), Confidence: issue.Score(r.Intn(4)), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0"))})
	}
	return d, r.Intn(4) == 0
}

func verif_C07_golint(data *gosec.ReportInfo, fails bool) {
	gv.Requires(data != nil)
	gv.Requires(gv.All(0, len(data.Issues), func(i int) bool { return data.Issues[i] != nil }))
	in := gv.Snap(data.Issues)
	if gv.Native() {
		var b bytes.Buffer
		want := ""
		for _, i := range in {
			want += spec_C07_line(i)
		}
		gv.Ensures("a report is written", WriteReport(&b, data) == nil)
		gv.Ensures("one line is written per finding, in order", b.String() == want)
		return
	}
	var lines []string
	var dest io.Writer = &bytes.Buffer{}
	gv.Stub(fmt.Fprintf, func(w io.Writer, format string, a ...any) (int, error) {
		if fails {
			return 0, errors.New("write error")
		}
		if w == dest {
			lines = append(lines, fmt.Sprintf(format, a...))
		}
		return 1, nil
	})
	gv.Inv(func(it int, lines []string) bool {
		return len(lines) == it && gv.All(0, it, func(k int) bool { return lines[k] == spec_C07_line(in[k]) })
	})
	gv.Inv(func(it int) bool { return it == 0 || !fails })
	gv.NoPanic()
	err := WriteReport(dest, data)
	gv.MayPanic()
	gv.Ensures("a failing writer is reported", (err != nil) == (fails && len(in) > 0))
	gv.Ensures("one line is written per finding, in order", err != nil || len(lines) == len(in) && gv.All(0, len(in), func(k int) bool {
		return lines[k] == spec_C07_line(in[k])
	}))
}
