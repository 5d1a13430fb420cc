package gosec

import (
	"go/build"
	"io"
	"io/fs"
	"log"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C25_excluded(r *gv.Rand) (string, []*regexp.Regexp) {
	var l []*regexp.Regexp
	for k := r.Intn(4); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			l = append(l, nil)
		case 1:
			l = append(l, ExcludedDirsRegExp([]string{gv.Pick(r, "a", "b/c", "vendor", "x.y")})...)
		default:
			l = append(l, regexp.MustCompile(gv.Pick(r, "a", "b/c", "vendor", "^x", "y$")))
		}
	}
	return gv.Pick(r, "", "a", "a/b", "b/c/d", "vendor", "src/vendor/x", "x", "xy", "q", "src/y"), l
}

// A directory is skipped exactly when one of the given expressions matches it.
func verif_C25_excluded(dir string, excludes []*regexp.Regexp) {
	gv.Inv(func(it int) bool {
		return gv.All(0, it, func(k int) bool { return excludes[k] == nil || !excludes[k].MatchString(dir) })
	})
	gv.Mark()
	gv.NoPanic()
	got := isExcluded(dir, excludes)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("a directory is skipped exactly when an exclusion matches it", got == gv.Any(0, len(excludes), func(k int) bool {
		return excludes[k] != nil && excludes[k].MatchString(dir)
	}))
}

func gen_C25_paths(r *gv.Rand) (string, []string, []*regexp.Regexp, int, string) {
	_, ex := gen_C25_excluded(r)
	var names []string
	for k := 1 + r.Intn(6); k > 0; k-- {
		names = append(names, gv.Pick(r, "", "a", "b/c", "vendor", "src/vendor/x", "q")+"/"+gv.Pick(r, "f.go", "g.go", "h.txt", "go", "m_test.go", "n.go.bak"))
	}
	if r.Intn(2) == 0 { // exclusions of a directory but not of what is below it
		ex = nil
		for range 1 + r.Intn(2) {
			ex = append(ex, regexp.MustCompile(gv.Pick(r, "c$", "^b$", "/vendor$", "^src/[a-z]+$", "^a$", "^./?$", "x$")))
		}
		for _, n := range names {
			if d := filepath.Dir(n); r.Intn(2) == 0 && d != "/" {
				names = append(names, gv.Pick(r, d, filepath.Dir(d))+"/"+gv.Pick(r, "a.go", "f.go", "z/f.go", "w/w/g.go", "z.go"))
			}
		}
	}
	return gv.Pick(r, "...", "./...", "./...", "q", "b/c", "q/...", "b/..."), names, ex, r.Intn(len(names)), gv.Pick(r, "a", "b/c", "vendor", "src/vendor/x", "q", "src")
}

// The directories that are searched: those with Go files below the given one, except the excluded ones.
func verif_C25_paths(root string, names []string, excludes []*regexp.Regexp, j int, dir string) {
	gv.Requires(0 <= j && j < len(names))
	gv.Requires(strings.HasSuffix(root, "..."))
	gv.UseContract(isExcluded, verif_C25_excluded)
	base := root[0 : len(root)-3]
	if gv.Native() {
		tmp, err := os.MkdirTemp("", "gv")
		if err != nil {
			return
		}
		defer os.RemoveAll(tmp)
		wd, _ := os.Getwd()
		defer func() { _ = os.Chdir(wd) }()
		if os.Chdir(tmp) != nil {
			return
		}
		var found []string
		for _, n := range names {
			n = filepath.Join(tmp, n)
			_ = os.MkdirAll(filepath.Dir(n), 0o700)
			_ = os.WriteFile(n, []byte("package p\n"), 0o600)
		}
		_ = filepath.Walk(base, func(path string, f os.FileInfo, err error) error {
			if err == nil {
				found = append(found, path)
			}
			return nil
		})
		names = found
		if j >= len(names) {
			j = 0
		}
		if len(names) == 0 {
			p, err := PackagePaths(root, excludes)
			gv.Ensures("nothing there, nothing found", err == nil && len(p) == 0)
			return
		}
	}
	gv.Stub(filepath.Walk, func(r string, fn filepath.WalkFunc) error {
		gv.Ensures("the search starts at the given directory", r == base)
		for i := 0; i < len(names); i++ {
			if err := fn(names[i], nil, nil); err != nil {
				return err
			}
		}
		return nil
	})
	want := func(k int) bool {
		return filepath.Ext(names[k]) == ".go" && !gv.Any(0, len(excludes), func(e int) bool {
			return excludes[e] != nil && excludes[e].MatchString(filepath.ToSlash(filepath.Dir(names[k])))
		})
	}
	gv.Inv(func(i int, paths map[string]bool) bool {
		return !(i > j && want(j)) || paths[filepath.Dir(names[j])]
	})
	gv.Inv(func(i int, paths map[string]bool) bool {
		_, has := paths[filepath.Dir(names[j])]
		return has == paths[filepath.Dir(names[j])]
	})
	gv.Inv(func(i int, paths map[string]bool) bool {
		_, has := paths[dir]
		return !has || gv.Any(0, i, func(k int) bool { return want(k) && filepath.Dir(names[k]) == dir })
	})
	gv.Inv(func(it int, result []string, visited func(string) bool) bool {
		return !visited(filepath.Dir(names[j])) || gv.Any(0, len(result), func(k int) bool { return result[k] == filepath.Dir(names[j]) })
	})
	gv.Inv(func(it int, result []string, visited func(string) bool) bool {
		return gv.All(0, len(result), func(k int) bool { return visited(result[k]) })
	})
	gv.Inv(func(it int, result []string, visited func(string) bool) bool { return len(result) == it })
	got, err := PackagePaths(root, excludes)
	gv.Ensures("no error", err == nil)
	if want(j) {
		gv.Ensures("every directory with a Go file is searched unless it is excluded", gv.Any(0, len(got), func(k int) bool { return got[k] == filepath.Dir(names[j]) }))
	}
	there := gv.Any(0, len(names), func(k int) bool { return want(k) && filepath.Dir(names[k]) == dir })
	gv.Ensures("no other directory is searched", there || gv.All(0, len(got), func(m int) bool { return got[m] != dir }))
	if gv.Native() {
		seen := map[string]bool{}
		for _, d := range got {
			gv.Ensures("a directory is searched once", !seen[d])
			seen[d] = true
		}
	}
}

func gen_C25_single(r *gv.Rand) (string, []*regexp.Regexp) {
	_, ex := gen_C25_excluded(r)
	return gv.Pick(r, "", ".", "a", "a/b", "/x", "..", "vendor"), ex
}

// A directory that is named is searched.
func verif_C25_single(root string, excludes []*regexp.Regexp) {
	gv.Requires(!strings.HasSuffix(root, "..."))
	got, err := PackagePaths(root, excludes)
	gv.Ensures("a directory that is named is searched", err == nil && len(got) == 1 && got[0] == root)
}

func gen_C25_dirs(r *gv.Rand) ([]string, int) {
	var l []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		l = append(l, gv.Pick(r, "a", "b", "vendor", "b/c", "x-y"))
	}
	return l, r.Intn(len(l))
}

// bounded: the directories of -exclude-dir and what is below them are excluded.
func verif_C25_dirs(dirs []string, j int) {
	gv.Requires(0 <= j && j < len(dirs))
	if !gv.Native() {
		gv.Inv(func(it int, exps []*regexp.Regexp) bool { return len(exps) == it })
	}
	exps := ExcludedDirsRegExp(dirs)
	gv.Ensures("every excluded directory has its expression", len(exps) == len(dirs))
	if gv.Native() {
		for _, p := range []string{"", "/", "src/", "/home/u/"} {
			for _, s := range []string{"", "/", "/x", "/x/y"} {
				gv.Ensures("an excluded directory and what is below it are skipped", isExcluded(p+dirs[j]+s, exps))
			}
		}
		gv.Ensures("other directories are not skipped", !isExcluded("/k/qq/mm", exps))
	}
}

func gen_C25_load(r *gv.Rand) (*Analyzer, *packages.Config, string, *build.Package, int) {
	g := &Analyzer{logger: log.New(io.Discard, "", 0), tests: r.Intn(2) == 0, errors: map[string][]Error{}}
	c := &packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedFiles | packages.NeedCompiledGoFiles, Tests: g.tests}
	for k := r.Intn(3); k > 0; k-- {
		c.BuildFlags = append(c.BuildFlags, gv.Pick(r, "one", "two", "three"))
	}
	var p build.Package
	for k := r.Intn(3); k >= 0; k-- {
		p.GoFiles = append(p.GoFiles, gv.Pick(r, "a.go", "b.go", "c.go"))
	}
	return g, c, "p", &p, 0
}

// The files of a package: with their build tags, cgo files and, when asked for, tests
// (which tests: their number here, their names in the native runs).
func verif_C25_load(g *Analyzer, conf *packages.Config, dir string, base *build.Package, j int) {
	gv.Requires(j >= 0)
	gv.Requires(g != nil && conf != nil && base != nil)
	if gv.Native() {
		spec_C25_native(g, conf)
		return
	}
	var files []string
	var tags []string
	called := false
	failed := false
	var lc packages.Config
	gv.Stub((*build.Context).ImportDir, func(c *build.Context, d string, m build.ImportMode) (*build.Package, error) {
		tags = c.BuildTags
		gv.Ensures("the files are the ones of the package", d == dir)
		if gv.Arbitrary[bool]() {
			failed = true
			return nil, fs.ErrInvalid
		}
		return base, nil
	})
	gv.Stub(packages.Load, func(c *packages.Config, patterns ...string) ([]*packages.Package, error) {
		called = true
		files = patterns
		lc = *c
		return nil, nil
	})
	flags, tests, mode := conf.BuildFlags, conf.Tests, conf.Mode
	ng, nc := len(base.GoFiles), len(base.CgoFiles)
	// the file at an arbitrary index of each list
	gv.Inv(func(it int, packageFiles []string) bool { return len(packageFiles) == it })
	gv.Inv(func(it int, packageFiles []string) bool { return len(packageFiles) == ng+it })
	gv.Inv(func(it int, packageFiles []string) bool { return len(packageFiles) == ng+nc+it })
	gv.Inv(func(it int, packageFiles []string) bool {
		return j >= ng || len(packageFiles) <= j || packageFiles[j] == path.Join(dir, base.GoFiles[j])
	})
	gv.Inv(func(it int, packageFiles []string) bool {
		return j >= nc || len(packageFiles) <= ng+j || packageFiles[ng+j] == path.Join(dir, base.CgoFiles[j])
	})
	var err error
	if g.tests {
		_, err = g.load(dir, conf)
		if called {
			gv.Ensures("all files and tests of the package are searched", len(files) == ng+nc+len(base.TestGoFiles)+len(base.XTestGoFiles))
			gv.Ensures("every Go file is searched", j >= ng || files[j] == path.Join(dir, base.GoFiles[j]))
			gv.Ensures("every cgo file is searched", j >= nc || files[ng+j] == path.Join(dir, base.CgoFiles[j]))
		}
	} else {
		_, err = g.load(dir, conf)
		if called {
			gv.Ensures("without tests the other files are searched", len(files) == ng+nc)
			gv.Ensures("without tests every Go file is searched", j >= ng || files[j] == path.Join(dir, base.GoFiles[j]))
			gv.Ensures("without tests every cgo file is searched", j >= nc || files[ng+j] == path.Join(dir, base.CgoFiles[j]))
		}
	}
	if called {
		gv.Ensures("the package is loaded as it is configured", lc.Tests == tests && lc.Mode == mode && len(lc.BuildFlags) == 0)
		gv.Ensures("the files are chosen with the build tags", gv.Same(tags, flags))
		gv.Ensures("no error", err == nil)
	}
	gv.Ensures("the build tags stay for the other packages", gv.Same(conf.BuildFlags, flags) && conf.Tests == tests && conf.Mode == mode)
	gv.Ensures("files that cannot be read are an error", !failed || err != nil)
}

func spec_C25_native(g *Analyzer, conf *packages.Config) {
	tmp, err := os.MkdirTemp("", "gv")
	if err != nil {
		return
	}
	defer os.RemoveAll(tmp)
	write := func(name, text string) { _ = os.WriteFile(filepath.Join(tmp, name), []byte(text), 0o600) }
	write("go.mod", "module m\n")
	write("plain.go", "package m\n")
	write("one.go", "//go:build one\n\npackage m\n")
	write("two.go", "//go:build two\n\npackage m\n")
	write("x_test.go", "package m\n")
	write("y_test.go", "package m_test\n")
	want := map[string]bool{"plain.go": true}
	for _, t := range conf.BuildFlags {
		if t == "one" || t == "two" {
			want[t+".go"] = true
		}
	}
	if g.tests {
		want["x_test.go"], want["y_test.go"] = true, true
	}
	for n := 0; n < 2; n++ {
		pkgs, err := g.load(tmp, conf)
		gv.Ensures("no error", err == nil)
		got := map[string]bool{}
		for _, p := range pkgs {
			for _, f := range p.GoFiles {
				if filepath.Dir(f) == tmp { // not the main program of the tests, which is in the build cache
					got[filepath.Base(f)] = true
				}
			}
		}
		for f := range want {
			gv.Ensures("all files of the package are searched", got[f])
		}
		for f := range got {
			gv.Ensures("only files of the package are searched", want[f])
		}
	}
}
