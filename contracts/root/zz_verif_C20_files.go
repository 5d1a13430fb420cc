package gosec

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"path/filepath"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C20_files(r *gv.Rand) (*Analyzer, *packages.Package, int) {
	fset := token.NewFileSet()
	p := &packages.Package{Name: "p", Fset: fset, TypesInfo: &types.Info{}}
	for k := 1 + r.Intn(4); k > 0; k-- {
		src := "package p\n"
		if r.Intn(3) == 0 {
			src = "// Code generated by x. DO NOT EDIT.\n\npackage p\n"
		}
		for m := r.Intn(3); m > 0; m-- {
			src += "func f() {}\n"
		}
		f, err := parser.ParseFile(fset, gv.Pick(r, "a.go", "b.go", "c.x", "d_test.go", "e.cgo1"), src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		if r.Intn(8) == 0 {
			f.Package = 0
		}
		p.Syntax = append(p.Syntax, f)
	}
	g := &Analyzer{ruleset: NewRuleSet(), analyzerSet: analyzers.NewAnalyzerSet(), stats: &Metrics{NumFiles: r.Intn(3)}, context: &Context{},
		logger: log.New(io.Discard, "", 0), errors: map[string][]Error{}, config: NewConfig(), excludeGenerated: r.Intn(2) == 0}
	return g, p, r.Intn(len(p.Syntax))
}

// Every Go file of a package is searched once, generated files only when they are not excluded.
func verif_C20_files(g *Analyzer, p *packages.Package, j int) {
	gv.Requires(g != nil && p != nil && p.Fset != nil && g.context != nil && g.stats != nil && 0 <= j && j < len(p.Syntax))
	files := p.Syntax
	f := files[j]
	gv.Requires(gv.All(0, len(files), func(k int) bool { return files[k] != nil && (k == j || files[k] != f) }))
	at := p.Fset.File(f.Pos())
	want := at != nil && filepath.Ext(at.Name()) == ".go" && !(g.excludeGenerated && ast.IsGenerated(f))
	count, total := 0, 0
	ready := true
	gv.Stub((*Analyzer).updateIgnores, func(g *Analyzer) {})
	gv.Stub(ast.NewCommentMap, func(fs *token.FileSet, n ast.Node, c []*ast.CommentGroup) ast.CommentMap { return nil })
	gv.Stub(ast.Walk, func(v ast.Visitor, n ast.Node) {
		total++
		if n == ast.Node(f) {
			count++
			c := g.context
			if v != ast.Visitor(g) || c.FileSet != p.Fset || c.Root != f || c.Info != p.TypesInfo || c.Pkg != p.Types || c.Imports == nil || len(c.Imports.Imported) != 0 || len(c.PassedValues) != 0 {
				ready = false
			}
		}
	})
	before := g.stats.NumFiles
	nosec, found := g.stats.NumNosec, g.stats.NumFound
	gv.Inv(func(it int) bool { return count == 1 == (it > j && want) && (count == 0 || count == 1) })
	gv.Inv(func(it int) bool { return ready })
	gv.Inv(func(it int) bool { return g.stats.NumFiles == before+total })
	gv.Inv(func(it int) bool { return g.stats.NumFound == found && g.stats.NumNosec == nosec })
	if gv.Native() {
		seen := map[*ast.File]int{}
		g.ruleset.Register(&specC20FileRule{seen, g, p, &ready}, false, (*ast.File)(nil))
		lines := g.stats.NumLines
		g.CheckRules(p)
		count = seen[f]
		total = 0
		for f, n := range seen {
			total += n
			lines += n * p.Fset.File(f.Pos()).LineCount()
		}
		gv.Ensures("the lines of the searched files are counted", g.stats.NumLines == lines)
	} else {
		g.CheckRules(p)
	}
	if want {
		gv.Ensures("every Go file that is not excluded is searched once", count == 1)
	} else {
		gv.Ensures("other and excluded files are not searched", count == 0)
	}
	gv.Ensures("a file is searched in its own context", ready)
	gv.Ensures("the files that are searched are counted", g.stats.NumFiles == before+total)
	gv.Ensures("the number of findings is left to the findings", g.stats.NumFound == found && g.stats.NumNosec == nosec)
}

type specC20FileRule struct {
	seen  map[*ast.File]int
	g     *Analyzer
	p     *packages.Package
	ready *bool
}

func (s *specC20FileRule) ID() string { return "G100" }

func (s *specC20FileRule) Match(n ast.Node, c *Context) (*issue.Issue, error) {
	f := n.(*ast.File)
	s.seen[f]++
	if c.FileSet != s.p.Fset || c.Root != f || c.Info != s.p.TypesInfo || c.Pkg != s.p.Types || c.Imports == nil || len(c.PassedValues) != 0 {
		*s.ready = false
	}
	return nil, nil
}
