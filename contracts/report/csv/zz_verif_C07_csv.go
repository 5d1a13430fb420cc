package csv

import (
	"bytes"
	"encoding/csv"
	"errors"
	"io"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func spec_C07_row(i *issue.Issue) []string {
	return []string{i.File, i.Line, i.What, i.Severity.String(), i.Confidence.String(), i.Code, i.Cwe.SprintID()}
}

func gen_C07_csv(r *gv.Rand) (*gosec.ReportInfo, bool) {
	d := &gosec.ReportInfo{}
	for n := r.Intn(5); n > 0; n-- {
		d.Issues = append(d.Issues, &issue.Issue{File: gv.Pick(r, "a.go", "b,c.go"), Line: gv.Pick(r, "1", "2-4"), What: gv.Pick(r, "x", "say \"x\"", "p, q"),
			Severity: issue.Score(r.Intn(4)), Confidence: issue.Score(r.Intn(4)), Code: gv.Pick(r, "1: a\n2: b\n", ""), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0"))})
	}
	return d, r.Intn(4) == 0
}

func verif_C07_csv(data *gosec.ReportInfo, fails bool) {
	gv.Requires(data != nil)
	gv.Requires(gv.All(0, len(data.Issues), func(i int) bool { return data.Issues[i] != nil }))
	in := gv.Snap(data.Issues)
	if gv.Native() {
		gv.Requires(!gv.Any(0, len(in), func(i int) bool { return strings.ContainsAny(spec_C07_all(in[i]), "\r") }))
		var b bytes.Buffer
		err := WriteReport(&b, data)
		rows, rerr := csv.NewReader(&b).ReadAll()
		gv.Ensures("the report can be read back", err == nil && rerr == nil)
		gv.Ensures("one row is written per finding, in order", len(rows) == len(in) && gv.All(0, len(in), func(k int) bool {
			return strings.Join(rows[k], "|") == strings.Join(spec_C07_row(in[k]), "|")
		}))
		return
	}
	var rows [][]string
	var out *csv.Writer
	var wrapped io.Writer
	flushed := false
	gv.Stub(csv.NewWriter, func(w io.Writer) *csv.Writer { wrapped = w; out = &csv.Writer{}; return out })
	gv.Stub((*csv.Writer).Write, func(w *csv.Writer, row []string) error {
		if fails {
			return errors.New("write error")
		}
		if w == out && !flushed {
			rows = append(rows, row)
		}
		return nil
	})
	gv.Stub((*csv.Writer).Flush, func(w *csv.Writer) { flushed = flushed || w == out })
	gv.Inv(func(it int, rows [][]string) bool {
		return len(rows) == it && gv.All(0, it, func(k int) bool { return spec_C07_isRow(rows[k], in[k]) })
	})
	gv.Inv(func(it int) bool { return it == 0 || !fails })
	gv.Inv(func(it int, flushed bool) bool { return !flushed })
	var dest io.Writer = &bytes.Buffer{}
	gv.NoPanic()
	err := WriteReport(dest, data)
	gv.MayPanic()
	gv.Ensures("the rows go to the given writer", wrapped == dest)
	gv.Ensures("the rows are flushed", flushed)
	gv.Ensures("a failing writer is reported", (err != nil) == (fails && len(in) > 0))
	gv.Ensures("one row is written per finding, in order", err != nil || len(rows) == len(in) && gv.All(0, len(in), func(k int) bool {
		return spec_C07_isRow(rows[k], in[k])
	}))
}

func spec_C07_isRow(row []string, i *issue.Issue) bool {
	return len(row) == 7 && row[0] == i.File && row[1] == i.Line && row[2] == i.What && row[3] == i.Severity.String() &&
		row[4] == i.Confidence.String() && row[5] == i.Code && row[6] == i.Cwe.SprintID()
}

func spec_C07_all(i *issue.Issue) string { return strings.Join(spec_C07_row(i), "") }
