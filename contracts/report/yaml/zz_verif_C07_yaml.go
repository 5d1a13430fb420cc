package yaml

import (
	"bytes"
	"gopkg.in/yaml.v3"
	"errors"
	"io"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C07_yaml(r *gv.Rand) (*gosec.ReportInfo, bool, bool) {
	d := &gosec.ReportInfo{Stats: &gosec.Metrics{NumFound: r.Intn(4)}, GosecVersion: gv.Pick(r, "", "v1")}
	for n := r.Intn(5); n > 0; n-- {
		i := &issue.Issue{File: gv.Pick(r, "a.go", "b:c.go"), Line: gv.Pick(r, "1", "2-4"), Col: gv.Pick(r, "7", "8"), What: gv.Pick(r, "x", "<y> & \"z\""), RuleID: gv.Pick(r, "G101", "G304"),
			Severity: issue.Score(r.Intn(3)), Confidence: issue.Score(r.Intn(3)), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0")), Code: gv.Pick(r, "1: a\n", ""), NoSec: r.Intn(2) == 0, Autofix: gv.Pick(r, "", "fix it")}
		for k := r.Intn(3); k > 0; k-- {
			i.Suppressions = append(i.Suppressions, issue.SuppressionInfo{Kind: gv.Pick(r, "inSource", "external"), Justification: gv.Pick(r, "", "because")})
		}
		d.Issues = append(d.Issues, i)
	}
	return d, false, false
}

func verif_C07_yaml(data *gosec.ReportInfo, encodingFails, writeFails bool) {
	gv.Requires(data != nil)
	if gv.Native() {
		var b bytes.Buffer
		gv.Ensures("a report is written", WriteReport(&b, data) == nil)
		raw := b.Bytes()
		var lower map[string]any
		gv.Ensures("the report can be read back", yaml.Unmarshal(raw, &lower) == nil)
		issues, _ := lower["issues"].([]any)
		gv.Ensures("the report covers every finding, in order", len(issues) == len(data.Issues))
		for k, i := range data.Issues {
			g, _ := issues[k].(map[string]any)
			gv.Ensures("a finding is described completely", g["ruleid"] == i.RuleID && g["what"] == i.What && g["file"] == i.File && g["code"] == i.Code &&
				g["line"] == i.Line && g["col"] == i.Col && g["autofix"] == i.Autofix && g["nosec"] == i.NoSec && (g["cwe"] == nil) == (i.Cwe == nil) &&
				g["severity"] == int(i.Severity) && g["confidence"] == int(i.Confidence))
		}
		return
	}
	var encoded any
	var raw, written []byte
	writes := 0
	gv.Stub(yaml.Marshal, func(v any) ([]byte, error) {
		if encodingFails {
			return nil, errors.New("encoding error")
		}
		encoded = v
		raw = make([]byte, 3)
		return raw, nil
	})
	gv.Stub((*bytes.Buffer).Write, func(b *bytes.Buffer, p []byte) (int, error) {
		if writeFails {
			return 0, errors.New("write error")
		}
		written = p
		writes++
		return len(p), nil
	})
	var dest io.Writer = &bytes.Buffer{}
	gv.NoPanic()
	err := WriteReport(dest, data)
	gv.MayPanic()
	gv.Ensures("a failure is reported", (err != nil) == (encodingFails || writeFails))
	gv.Ensures("the report data is encoded as it is", err != nil || encoded == any(data))
	gv.Ensures("the encoded report is written once", err != nil || writes == 1 && gv.SameArray(written, raw) && len(written) == len(raw))
}
