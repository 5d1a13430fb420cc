package issue

import (
	"bufio"
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
)

// a file of up to 12 lines on disk and a node in it
func gen_C11_node(r *gv.Rand) (*token.File, ast.Node) {
	n := 1 + r.Intn(12)
	src := ""
	for i := 0; i < n; i++ {
		src += strings.Repeat("x", r.Intn(5)) + "\n"
	}
	fset := token.NewFileSet()
	f := fset.AddFile("/nonexistent/x.go", -1, len(src))
	f.SetLinesForContent([]byte(src))
	at := r.Intn(len(src))
	end := at + r.Intn(len(src)-at+1)
	return f, &ast.BadExpr{From: f.Pos(at), To: f.Pos(end)}
}

func gen_C11_getLine(r *gv.Rand) (*token.File, ast.Node) { return gen_C11_node(r) }

func verif_C11_getLine(fobj *token.File, node ast.Node) {
	gv.Requires(fobj != nil && node != nil)
	first, last := fobj.Line(node.Pos()), fobj.Line(node.End())
	gv.NoPanic()
	line := GetLine(fobj, node)
	gv.MayPanic()
	if first == last {
		gv.Ensures("one line is given by its number", line == strconv.Itoa(first))
	} else {
		gv.Ensures("several lines are given by the first and the last", line == strconv.Itoa(first)+"-"+strconv.Itoa(last))
	}
}

func gen_C11_snippetLines(r *gv.Rand) (*token.File, ast.Node) { return gen_C11_node(r) }

func verif_C11_snippetLines(fobj *token.File, node ast.Node) {
	gv.Requires(fobj != nil && node != nil)
	first, last := fobj.Line(node.Pos()), fobj.Line(node.End())
	gv.Requires(first >= 1 && last >= first)
	gv.NoPanic()
	start, end := codeSnippetStartLine(node, fobj), codeSnippetEndLine(node, fobj)
	gv.MayPanic()
	gv.Ensures("the snippet has the lines of the finding and at most one more on each side", start >= 1 && start <= int64(first) && start >= int64(first)-1 &&
		end >= int64(last) && end <= int64(last)+1)
	gv.Ensures("the line before is part of the snippet", first == 1 || start == int64(first)-1)
}

func gen_C11_new(r *gv.Rand) (*token.File, ast.Node, string, string, Score, Score) {
	f, n := gen_C11_node(r)
	return f, n, gv.Pick(r, "G101", "G304", "X"), r.Str(), Score(r.Intn(3)), Score(r.Intn(3))
}

func verif_C11_new(fobj *token.File, node ast.Node, ruleID, desc string, severity, confidence Score) {
	gv.Opaque(GetLine)
	gv.Opaque(CodeSnippet)
	gv.Opaque(GetCweByRule)
	gv.Requires(fobj != nil && node != nil)
	gv.Stub(os.Open, func(name string) (*os.File, error) {
		if len(name) == 3 {
			return nil, fmt.Errorf("no file")
		}
		return &os.File{}, nil
	})
	i := New(fobj, node, ruleID, desc, severity, confidence)
	gv.Ensures("a finding has the file and the lines of its node", i != nil && i.File == fobj.Name() && i.Line == GetLine(fobj, node))
	gv.Ensures("a finding has the column of its node", i.Col == strconv.Itoa(fobj.Position(node.Pos()).Column))
	gv.Ensures("a finding has the given rule, description, severity and confidence", i.RuleID == ruleID && i.What == desc && i.Severity == severity && i.Confidence == confidence)
	gv.Ensures("a finding has the weakness of its rule", i.Cwe == GetCweByRule(ruleID))
	gv.Ensures("a new finding is not suppressed", !i.NoSec && len(i.Suppressions) == 0 && i.Autofix == "")
}

func gen_C11_snippet(r *gv.Rand) ([]string, int64, int64) {
	var l []string
	for n := r.Intn(9); n > 0; n-- {
		l = append(l, gv.Pick(r, "", "a", "  b", "c // d"))
	}
	return l, int64(r.Intn(11)) - 1, int64(r.Intn(11)) - 1
}

// number of the first n lines that lie in [start,end]
func spec_C11_within(n int, start, end int64) int {
	return int(max(min(int64(n), end)-max(start, 1)+1, 0))
}

func spec_C11_snippetLine(n int, text string) string { return strconv.Itoa(n) + ": " + text + "\n" }

func verif_C11_snippet(lines []string, start, end int64) {
	gv.Requires(start <= end+1)
	if gv.Native() {
		f, err := os.CreateTemp("", "verif")
		gv.Requires(err == nil)
		defer os.Remove(f.Name())
		defer f.Close()
		text := strings.Join(lines, "\n")
		_, _ = f.WriteString(text)
		_, _ = f.Seek(0, 0)
		got, err := CodeSnippet(f, start, end)
		want := ""
		for n, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			if text != "" && int64(n+1) >= start && int64(n+1) <= end {
				want += spec_C11_snippetLine(n+1, l)
			}
		}
		gv.Ensures("the snippet has exactly the chosen lines with their numbers", err == nil && got == want)
		return
	}
	at := 0
	var out []string
	gv.Stub((*bufio.Scanner).Scan, func(s *bufio.Scanner) bool {
		if at < len(lines) {
			at++
			return true
		}
		return false
	})
	gv.Stub((*bufio.Scanner).Split, func(s *bufio.Scanner, f bufio.SplitFunc) {})
	gv.Stub((*bufio.Scanner).Text, func(s *bufio.Scanner) string { return lines[at-1] })
	gv.Stub((*bytes.Buffer).WriteString, func(b *bytes.Buffer, s string) (int, error) {
		out = append(out, s)
		return len(s), nil
	})
	gv.Inv(func(it int, at int, pos int64) bool { return at >= 0 && at <= len(lines) && pos == int64(at) && (at == 0 || pos <= end) })
	gv.Inv(func(it int, at int, out []string) bool { return len(out) == spec_C11_within(at, start, end) })
	gv.Inv(func(it int, at int, out []string) bool {
		return gv.All(0, at, func(k int) bool {
			return int64(k+1) < start || int64(k+1) > end || out[spec_C11_within(k, start, end)] == spec_C11_snippetLine(k+1, lines[k])
		})
	})
	_, err := CodeSnippet(&os.File{}, start, end)
	gv.Ensures("no error", err == nil)
	gv.Ensures("every chosen line is part of the snippet, in order", gv.All(0, len(lines), func(k int) bool {
		n := spec_C11_within(k, start, end)
		return int64(k+1) < start || int64(k+1) > end || n < len(out) && out[n] == spec_C11_snippetLine(k+1, lines[k])
	}))
	gv.Ensures("no other line is", len(out) == spec_C11_within(len(lines), start, end))
}
