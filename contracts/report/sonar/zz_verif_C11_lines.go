package sonar

import (
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C11_sonarLine(r *gv.Rand) (int, int, *issue.Issue) {
	a := 1 + r.Intn(300)
	return a, a + r.Intn(4)*r.Intn(40), &issue.Issue{}
}

func verif_C11_sonarLine(first, last int, i *issue.Issue) {
	gv.Requires(first >= 1 && last >= first && i != nil)
	gv.NoPanic()
	i.Line = strconv.Itoa(first) + "-" + strconv.Itoa(last)
	t, err := parseTextRange(i)
	gv.Ensures("a range is read back", err == nil && t != nil && t.StartLine == first && t.EndLine == last)
	i.Line = strconv.Itoa(first)
	t, err = parseTextRange(i)
	gv.Ensures("a single line is read back", err == nil && t != nil && t.StartLine == first && t.EndLine == first)
}

func gen_C11_sonarPath(r *gv.Rand) (*issue.Issue, []string) { return spec_C11_genPath(r) }

func spec_C11_genPath(r *gv.Rand) (*issue.Issue, []string) {
	var roots []string
	for n := r.Intn(4); n > 0; n-- {
		roots = append(roots, gv.Pick(r, "/a", "/a/b", "/ab", "/c", "", "/a/b/c"))
	}
	return &issue.Issue{File: gv.Pick(r, "/a/x.go", "/a/b/x.go", "/ab/x.go", "/abc.go", "/d/x.go", "/a/b/c/x.go", "x.go")}, roots
}

func verif_C11_sonarPath(i *issue.Issue, roots []string) {
	gv.Requires(i != nil)
	// the file is not a root directory itself
	gv.Requires(gv.All(0, len(roots), func(k int) bool { return i.File != roots[k]+"/" }))
	under := func(n int) bool {
		return gv.Any(0, n, func(k int) bool { return strings.HasPrefix(i.File, roots[k]+"/") })
	}
	gv.Inv(func(it int, path string) bool {
		return !under(it) || gv.Any(0, it, func(k int) bool { return i.File == roots[k]+"/"+path })
	})
	gv.Inv(func(it int, path string) bool { return under(it) || path == "" || path == i.File })
	gv.NoPanic()
	path := parseFilePath(i, roots)
	gv.MayPanic()
	if under(len(roots)) {
		gv.Ensures("a file below a root is given relative to one of its roots", gv.Any(0, len(roots), func(k int) bool { return i.File == roots[k]+"/"+path }))
	} else {
		gv.Ensures("another file is not given a relative path", path == "" || path == i.File)
	}
}
