package analyzers

import (
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C11_newIssue(r *gv.Rand) (string, string, *token.FileSet, token.Pos, issue.Score, issue.Score) {
	src := strings.Repeat("ab\n", 1+r.Intn(9))
	fset := token.NewFileSet()
	fset.AddFile("/nonexistent/w.go", -1, 7)
	f := fset.AddFile("/nonexistent/x.go", -1, len(src))
	f.SetLinesForContent([]byte(src))
	pos := f.Pos(r.Intn(len(src)))
	if r.Intn(9) == 0 {
		pos = token.NoPos
	}
	return gv.Pick(r, "G115", "G602", "X"), r.Str(), fset, pos, issue.Score(r.Intn(3)), issue.Score(r.Intn(3))
}

func verif_C11_newIssue(id, desc string, fset *token.FileSet, pos token.Pos, severity, confidence issue.Score) {
	gv.Opaque(issueCodeSnippet)
	gv.Opaque(issue.GetCweByRule)
	gv.Requires(fset != nil)
	f := fset.File(pos)
	gv.NoPanic()
	i := newIssue(id, desc, fset, pos, severity, confidence)
	gv.MayPanic()
	gv.Ensures("there is a finding", i != nil)
	if f != nil {
		gv.Ensures("a finding has the file, line and column of its position", i.File == f.Name() && i.Line == strconv.Itoa(f.Line(pos)) && i.Col == strconv.Itoa(f.Position(pos).Column))
		gv.Ensures("a finding has the given rule, description, severity and confidence", i.RuleID == id && i.What == desc && i.Severity == severity && i.Confidence == confidence)
		gv.Ensures("a finding has the weakness of its rule", i.Cwe == issue.GetCweByRule(id))
	}
}

func gen_C11_code(r *gv.Rand) (*token.FileSet, token.Pos, int, bool) {
	n := 1 + r.Intn(9)
	src := strings.Repeat("ab\n", n)
	fset := token.NewFileSet()
	dir, _ := os.MkdirTemp("", "gv")
	name := dir + "/x.go"
	_ = os.WriteFile(name, []byte(src), 0o600)
	f := fset.AddFile(name, -1, len(src))
	f.SetLinesForContent([]byte(src))
	return fset, f.Pos(r.Intn(len(src))), n, true
}

// The code shown with a finding of an analyzer is its line and the lines next to it.
func verif_C11_code(fset *token.FileSet, pos token.Pos, lines int, readable bool) {
	gv.Requires(fset != nil && fset.File(pos) != nil)
	line := int64(fset.File(pos).Line(pos))
	gv.Requires(line >= 1)
	if gv.Native() {
		name := fset.File(pos).Name()
		defer os.RemoveAll(filepath.Dir(name))
		want := ""
		for k := max(1, int(line)-1); k <= int(line)+1 && k <= lines; k++ {
			want += strconv.Itoa(k) + ": ab\n"
		}
		gv.Ensures("the code of a finding is its line and its neighbours", issueCodeSnippet(fset, pos) == want)
		return
	}
	var start, end int64
	var opened string
	file := &os.File{}
	gv.Stub(os.Open, func(name string) (*os.File, error) {
		opened = name
		if !readable {
			return nil, os.ErrNotExist
		}
		return file, nil
	})
	gv.Stub(issue.CodeSnippet, func(f *os.File, a, b int64) (string, error) {
		if f != file {
			return "", nil
		}
		start, end = a, b
		return "code", nil
	})
	gv.NoPanic()
	got := issueCodeSnippet(fset, pos)
	gv.MayPanic()
	gv.Ensures("the code is read from the file of the finding", opened == fset.File(pos).Name())
	gv.Ensures("the code of a finding is shown if the file can be read", (got == "code") == readable && (got == "") == !readable)
	gv.Ensures("the code of a finding is its line and its neighbours", !readable || end == line+1 && (start == line-1 || line == 1 && start == 1))
}
