package gosec

import (
	"errors"
	"fmt"
	"go/build"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C23_pos(r *gv.Rand) string {
	return gv.Pick(r, "a.go:1:2", "a.go:3:1", "b.go:10:20", "b.go:7", "a.go", "", "-", "c.go:x:1", "c.go:1:x", "a.go:1:2:3", "a.go:0:0", "b.go:-1:4")
}

func gen_C23_errors(r *gv.Rand) map[string][]Error {
	m := map[string][]Error{}
	for k := r.Intn(6); k > 0; k-- {
		f := gv.Pick(r, "a.go", "b.go", "", "-")
		m[f] = append(m[f], Error{r.Intn(4), r.Intn(4), gv.Pick(r, "x", "y")})
	}
	return m
}

func gen_C23_parse(r *gv.Rand) (*Analyzer, *packages.Package, string, int) {
	p := &packages.Package{}
	bad := r.Intn(5) == 0
	for k := 1 + r.Intn(4); k > 0; k-- {
		pos := gen_C23_pos(r)
		for !bad && strings.Contains(pos, "x") {
			pos = gen_C23_pos(r)
		}
		p.Errors = append(p.Errors, packages.Error{Pos: pos, Msg: gv.Pick(r, "m", " m ", "\tother\n", "")})
	}
	return &Analyzer{errors: gen_C23_errors(r)}, p, gv.Pick(r, "a.go", "b.go", "", "-"), r.Intn(len(p.Errors))
}

func spec_C23_num(pos string, n int) (int, error) {
	p := strings.Split(pos, ":")
	if len(p) <= n {
		return 0, nil
	}
	return strconv.Atoi(p[n])
}

func spec_C23_valid(pos string) bool {
	_, e1 := spec_C23_num(pos, 1)
	_, e2 := spec_C23_num(pos, 2)
	return e1 == nil && e2 == nil
}

// Every error of a package is recorded for its file, at its line and column.
func verif_C23_parse(g *Analyzer, p *packages.Package, file string, j int) {
	gv.Requires(g != nil && g.errors != nil && p != nil && 0 <= j && j < len(p.Errors))
	gv.Requires(gv.AllKeys(g.errors, func(k string) bool {
		return k == file || cap(g.errors[k]) == 0 || !gv.SameArray(g.errors[k], g.errors[file])
	}))
	errs := p.Errors
	before := gv.Snap(g.errors[file])
	line, _ := spec_C23_num(errs[j].Pos, 1)
	col, _ := spec_C23_num(errs[j].Pos, 2)
	want := Error{Line: line, Column: col, Err: strings.TrimSpace(errs[j].Msg)}
	mine := strings.Split(errs[j].Pos, ":")[0] == file
	gv.Inv(func(it int) bool { return len(g.errors[file]) >= len(before) })
	gv.Inv(func(it int) bool {
		return gv.All(0, len(before), func(k int) bool { return g.errors[file][k] == before[k] })
	})
	gv.Inv(func(it int) bool {
		_, has := g.errors[file]
		return has || len(before) == 0
	})
	gv.Inv(func(it int) bool {
		_, has := g.errors[file]
		return has || !(it > j && mine)
	})
	gv.Inv(func(it int) bool {
		return !(it > j && mine) || gv.Any(len(before), len(g.errors[file]), func(k int) bool { return g.errors[file][k] == want })
	})
	gv.Inv(func(it int) bool { return it <= j || spec_C23_valid(errs[j].Pos) })
	gv.Inv(func(it int) bool {
		return gv.AllKeys(g.errors, func(k string) bool {
			return k == file || cap(g.errors[k]) == 0 || !gv.SameArray(g.errors[k], g.errors[file])
		})
	})
	gv.Inv(func(it int) bool { return len(g.errors[file]) <= len(before)+it })
	err := g.ParseErrors(p)
	after := g.errors[file]
	gv.Ensures("the errors recorded earlier stay", len(after) >= len(before) && gv.All(0, len(before), func(k int) bool { return after[k] == before[k] }))
	if err == nil {
		gv.Ensures("every error is recorded for its file, at its line and column", !mine || gv.Any(len(before), len(after), func(k int) bool { return after[k] == want }))
		gv.Ensures("no error is made up", len(after) <= len(before)+len(errs))
	}
	gv.Ensures("a position that cannot be read is an error", err != nil || spec_C23_valid(errs[j].Pos))
	if gv.Native() {
		valid := true
		n := len(before)
		for _, e := range errs {
			valid = valid && spec_C23_valid(e.Pos)
			if strings.Split(e.Pos, ":")[0] == file {
				n++
			}
		}
		gv.Ensures("positions that can be read are no error", (err == nil) == valid)
		gv.Ensures("an error is recorded once", !valid || len(after) == n)
	}
}

func gen_C23_append(r *gv.Rand) (*Analyzer, string, string, error) {
	err := errors.New(gv.Pick(r, "x", "some error"))
	switch r.Intn(4) {
	case 0:
		err = &build.NoGoError{Dir: "d"}
	case 1:
		err = fmt.Errorf("importing: %w", &build.NoGoError{Dir: "d"})
	case 2:
		err = fmt.Errorf("importing: %w", err)
	}
	return &Analyzer{errors: gen_C23_errors(r)}, gv.Pick(r, "a.go", "b.go", "", "-"), gv.Pick(r, "a.go", "b.go", "", "-"), err
}

// An error that stops the search of a package is recorded, except that it has no Go files.
func verif_C23_append(g *Analyzer, file, other string, err error) {
	gv.Requires(g != nil && g.errors != nil && err != nil)
	gv.Requires(file == other || cap(g.errors[file]) == 0 || !gv.SameArray(g.errors[file], g.errors[other]))
	before := gv.Snap(g.errors[file])
	beforeOther := gv.Snap(g.errors[other])
	var none *build.NoGoError
	skip := errors.As(err, &none)
	g.AppendError(file, err)
	after := g.errors[file]
	gv.Ensures("the errors recorded earlier stay", len(after) >= len(before) && gv.All(0, len(before), func(k int) bool { return after[k] == before[k] }))
	if skip {
		gv.Ensures("a package without Go files is no error", len(after) == len(before))
	} else {
		gv.Ensures("the error is recorded once", len(after) == len(before)+1 && after[len(before)] == (Error{Err: err.Error()}))
	}
	o := g.errors[other]
	gv.Ensures("the errors of other files stay", file == other || len(o) == len(beforeOther) && gv.All(0, len(o), func(k int) bool { return o[k] == beforeOther[k] }))
}

func gen_C23_sort(r *gv.Rand) (map[string][]Error, string) {
	return gen_C23_errors(r), gv.Pick(r, "a.go", "b.go", "", "-")
}

// Errors are listed by line and column.
func verif_C23_sort(m map[string][]Error, file string) {
	gv.Requires(gv.AllKeys(m, func(k string) bool {
		return k == file || len(m[k]) == 0 || !gv.SameArray(m[k], m[file])
	}))
	before := gv.Snap(m[file])
	l := m[file]
	gv.Inv(func(it int, visited func(string) bool) bool {
		return visited(file) || gv.All(0, len(l), func(k int) bool { return l[k] == before[k] })
	})
	gv.Inv(func(it int, visited func(string) bool) bool {
		return !visited(file) || gv.All(0, len(l), func(k int) bool {
			return gv.All(0, k, func(n int) bool { return l[n].Line < l[k].Line || l[n].Line == l[k].Line && l[n].Column <= l[k].Column })
		})
	})
	gv.Inv(func(it int, visited func(string) bool) bool {
		return !visited(file) || gv.All(0, len(l), func(k int) bool {
			return gv.Any(0, len(before), func(n int) bool { return before[n] == l[k] })
		})
	})
	sortErrors(m)
	gv.Ensures("sorting adds no error", gv.All(0, len(l), func(k int) bool {
		return gv.Any(0, len(before), func(n int) bool { return before[n] == l[k] })
	}))
	gv.Ensures("the errors of a file are listed by line and column", gv.All(0, len(l), func(k int) bool {
		return gv.All(0, k, func(n int) bool { return l[n].Line < l[k].Line || l[n].Line == l[k].Line && l[n].Column <= l[k].Column })
	}))
	gv.Ensures("the lists stay in place", gv.Same(m[file], l))
	if gv.Native() {
		gv.Ensures("sorting keeps every error", gv.All(0, len(before), func(k int) bool {
			return gv.Any(0, len(l), func(n int) bool { return l[n] == before[k] })
		}))
	}
}
