package json

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C07_json(r *gv.Rand) (*gosec.ReportInfo, bool, bool) {
	d := &gosec.ReportInfo{Stats: &gosec.Metrics{NumFound: r.Intn(4)}, GosecVersion: gv.Pick(r, "", "v1")}
	for n := r.Intn(5); n > 0; n-- {
		i := &issue.Issue{File: gv.Pick(r, "a.go", "b:c.go"), Line: gv.Pick(r, "1", "2-4"), Col: gv.Pick(r, "7", "8"), What: gv.Pick(r, "x", "<y> & \"z\""), RuleID: gv.Pick(r, "G101", "G304"),
			Severity: issue.Score(r.Intn(3)), Confidence: issue.Score(r.Intn(3)), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0")), Code: gv.Pick(r, "1: a\n", ""), NoSec: r.Intn(2) == 0, Autofix: gv.Pick(r, "", "fix it")}
		for k := r.Intn(3); k > 0; k-- {
			i.Suppressions = append(i.Suppressions, issue.SuppressionInfo{Kind: gv.Pick(r, "inSource", "external"), Justification: gv.Pick(r, "", "because")})
		}
		d.Issues = append(d.Issues, i)
	}
	return d, false, false
}

func verif_C07_json(data *gosec.ReportInfo, encodingFails, writeFails bool) {
	gv.Requires(data != nil)
	if gv.Native() {
		var b bytes.Buffer
		gv.Ensures("a report is written", WriteReport(&b, data) == nil)
		var got struct {
			Issues []struct {
				Severity, Confidence, Rule_id, Details, File, Code, Line, Column, Autofix string
				Cwe                                                                       *struct{ ID, URL string }
				Nosec                                                                     bool
				Suppressions                                                              []issue.SuppressionInfo
			}
			Stats *struct {
				Found int
			}
			GosecVersion string
		}
		gv.Ensures("the report can be read back", json.Unmarshal(b.Bytes(), &got) == nil)
		gv.Ensures("the report covers every finding, in order", len(got.Issues) == len(data.Issues))
		gv.Ensures("the report has the version and the totals", got.GosecVersion == data.GosecVersion && got.Stats != nil && got.Stats.Found == data.Stats.NumFound)
		for k, i := range data.Issues {
			g := got.Issues[k]
			gv.Ensures("a finding is described completely", g.Severity == i.Severity.String() && g.Confidence == i.Confidence.String() && g.Rule_id == i.RuleID &&
				g.Details == i.What && g.File == i.File && g.Code == i.Code && g.Line == i.Line && g.Column == i.Col && g.Autofix == i.Autofix && g.Nosec == i.NoSec &&
				(g.Cwe == nil) == (i.Cwe == nil) && (g.Cwe == nil || g.Cwe.ID == i.Cwe.ID && g.Cwe.URL == i.Cwe.SprintURL()) &&
				len(g.Suppressions) == len(i.Suppressions))
			for n := range g.Suppressions {
				gv.Ensures("a suppression is described completely", g.Suppressions[n] == i.Suppressions[n])
			}
		}
		return
	}
	var encoded any
	var raw, written []byte
	writes := 0
	gv.Stub(json.MarshalIndent, func(v any, prefix, indent string) ([]byte, error) {
		if encodingFails {
			return nil, errors.New("encoding error")
		}
		encoded = v
		raw = make([]byte, 3)
		return raw, nil
	})
	gv.Stub((*bytes.Buffer).Write, func(b *bytes.Buffer, p []byte) (int, error) {
		if writeFails {
			return 0, errors.New("write error")
		}
		written = p
		writes++
		return len(p), nil
	})
	var dest io.Writer = &bytes.Buffer{}
	gv.NoPanic()
	err := WriteReport(dest, data)
	gv.MayPanic()
	gv.Ensures("a failure is reported", (err != nil) == (encodingFails || writeFails))
	gv.Ensures("the report data is encoded as it is", err != nil || encoded == any(data))
	gv.Ensures("the encoded report is written once", err != nil || writes == 1 && gv.SameArray(written, raw) && len(written) == len(raw))
}
