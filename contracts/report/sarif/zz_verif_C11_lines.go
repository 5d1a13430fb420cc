package sarif

import (
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C11_sarifRegion(r *gv.Rand) (int, int, int, *issue.Issue) {
	a := 1 + r.Intn(300)
	b := a + r.Intn(4)*r.Intn(40)
	code := ""
	for l := a - r.Intn(2); l <= b+r.Intn(3); l++ {
		code += strconv.Itoa(l) + ": " + gv.Pick(r, "x", " y := 1", "") + "\n"
	}
	return a, b, r.Intn(90), &issue.Issue{Code: code}
}

func verif_C11_sarifRegion(first, last, col int, i *issue.Issue) {
	gv.Requires(first >= 1 && last >= first && col >= 0 && i != nil)
	gv.NoPanic()
	i.Col = strconv.Itoa(col)
	i.Line = strconv.Itoa(first) + "-" + strconv.Itoa(last)
	t, err := parseSarifRegion(i)
	gv.Ensures("a range is read back", err == nil && t != nil && t.StartLine == first && t.EndLine == last && t.StartColumn == col)
	i.Line = strconv.Itoa(first)
	t, err = parseSarifRegion(i)
	gv.Ensures("a single line is read back", err == nil && t != nil && t.StartLine == first && t.EndLine == first && t.StartColumn == col)
	if gv.Native() {
		want := ""
		for _, l := range strings.Split(i.Code, "\n") {
			if rest, ok := strings.CutPrefix(l, i.Line+":"); ok {
				want = strings.TrimSpace(rest)
				break
			}
		}
		gv.Ensures("the snippet is the code of the line", t.Snippet != nil && t.Snippet.Text == want)
	}
}

func gen_C11_sarifPath(r *gv.Rand) (*issue.Issue, []string) {
	var roots []string
	for n := r.Intn(4); n > 0; n-- {
		roots = append(roots, gv.Pick(r, "/a", "/a/b", "/ab", "/c", "", "/a/b/c"))
	}
	return &issue.Issue{File: gv.Pick(r, "/a/x.go", "/a/b/x.go", "/ab/x.go", "/abc.go", "/d/x.go", "/a/b/c/x.go", "x.go")}, roots
}

func verif_C11_sarifPath(i *issue.Issue, roots []string) {
	gv.Requires(i != nil)
	// the file is not a root directory itself
	gv.Requires(gv.All(0, len(roots), func(k int) bool { return i.File != roots[k]+"/" }))
	under := func(n int) bool {
		return gv.Any(0, n, func(k int) bool { return strings.HasPrefix(i.File, roots[k]+"/") })
	}
	gv.Inv(func(it int, path string) bool {
		return !under(it) || gv.Any(0, it, func(k int) bool { return i.File == roots[k]+"/"+path })
	})
	gv.Inv(func(it int, path string) bool { return under(it) || path == "" || path == i.File })
	gv.NoPanic()
	a := parseSarifArtifactLocation(i, roots)
	gv.MayPanic()
	gv.Ensures("there is a location", a != nil)
	path := a.URI
	if under(len(roots)) {
		gv.Ensures("a file below a root is given relative to one of its roots", gv.Any(0, len(roots), func(k int) bool { return i.File == roots[k]+"/"+path }))
	} else {
		gv.Ensures("another file is not given a relative path", path == "" || path == i.File)
	}
}
