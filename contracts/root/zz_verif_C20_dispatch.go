package gosec

import (
	"errors"
	"go/ast"
	"go/token"
	"io"
	"log"
	"reflect"

	"golang.org/x/tools/go/analysis"

	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

type specC20Rule struct {
	id    string
	out   *issue.Issue
	err   error
	calls *[]specC20Call
}

type specC20Call struct {
	rule *specC20Rule
	node ast.Node
	ctx  *Context
}

func (s *specC20Rule) ID() string { return s.id }

func (s *specC20Rule) Match(n ast.Node, c *Context) (*issue.Issue, error) {
	*s.calls = append(*s.calls, specC20Call{s, n, c})
	return s.out, s.err
}

func gen_C20_node(r *gv.Rand) ast.Node {
	switch r.Intn(5) {
	case 0:
		return &ast.CallExpr{Fun: ast.NewIdent("f")}
	case 1:
		return &ast.BasicLit{Kind: token.INT, Value: "1"}
	case 2:
		id := ast.NewIdent("y")
		id.NamePos = 5
		return &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{id}, Rhs: []ast.Expr{id}}
	case 3:
		return &ast.File{Name: ast.NewIdent("p")}
	}
	return ast.NewIdent("x")
}

func gen_C20_rule(r *gv.Rand, calls *[]specC20Call) Rule {
	s := &specC20Rule{id: gv.Pick(r, "G101", "G102", "G103"), calls: calls}
	if r.Intn(2) == 0 {
		s.out = &issue.Issue{RuleID: s.id, What: gv.Pick(r, "a", "b")}
	}
	if r.Intn(4) == 0 {
		s.err = errors.New("e")
	}
	return s
}

func gen_C20_set(r *gv.Rand) RuleSet {
	rs := NewRuleSet()
	calls := &[]specC20Call{}
	for k := r.Intn(5); k > 0; k-- {
		rule := gen_C20_rule(r, calls)
		rs.Register(rule, r.Intn(2) == 0, gen_C20_node(r))
	}
	return rs
}

func gen_C20_register(r *gv.Rand) (RuleSet, Rule, bool, []ast.Node, ast.Node, string) {
	var nodes []ast.Node
	for k := r.Intn(4); k > 0; k-- {
		nodes = append(nodes, gen_C20_node(r))
	}
	return gen_C20_set(r), gen_C20_rule(r, &[]specC20Call{}), r.Intn(2) == 0, nodes, gen_C20_node(r), gv.Pick(r, "G101", "G102", "G103", "")
}

// A registered rule is run on every node of its types, and the rules registered earlier stay.
func verif_C20_register(rs RuleSet, rule Rule, suppressed bool, nodes []ast.Node, n ast.Node, id string) {
	gv.Requires(rs.Rules != nil && rs.RuleSuppressedMap != nil && rule != nil)
	t := reflect.TypeOf(n)
	gv.Requires(gv.AllKeys(rs.Rules, func(k reflect.Type) bool {
		return k == t || cap(rs.Rules[k]) == 0 || !gv.SameArray(rs.Rules[k], rs.Rules[t])
	}))
	before := gv.Snap(rs.RegisteredFor(n))
	oldSup := rs.RuleSuppressedMap[id]
	gv.Inv(func(it int, rs RuleSet, nodes []ast.Node) bool {
		return gv.All(0, len(before), func(k int) bool { return k < len(rs.Rules[t]) && rs.Rules[t][k] == before[k] })
	})
	gv.Inv(func(it int, rs RuleSet, nodes []ast.Node) bool {
		return gv.All(len(before), len(rs.Rules[t]), func(k int) bool { return rs.Rules[t][k] == rule })
	})
	gv.Inv(func(it int, rs RuleSet, nodes []ast.Node) bool { return len(rs.Rules[t]) >= len(before) })
	gv.Inv(func(it int, rs RuleSet, nodes []ast.Node) bool {
		_, has := rs.Rules[t]
		return has || len(before) == 0
	})
	gv.Inv(func(it int, rs RuleSet, nodes []ast.Node) bool {
		return (len(rs.Rules[t]) > len(before)) == gv.Any(0, it, func(k int) bool { return reflect.TypeOf(nodes[k]) == t })
	})
	gv.Inv(func(it int, rs RuleSet, nodes []ast.Node) bool {
		return gv.AllKeys(rs.Rules, func(k reflect.Type) bool {
			return k == t || cap(rs.Rules[k]) == 0 || !gv.SameArray(rs.Rules[k], rs.Rules[t])
		})
	})
	rs.Register(rule, suppressed, nodes...)
	after := rs.RegisteredFor(n)
	added := gv.Any(0, len(nodes), func(k int) bool { return reflect.TypeOf(nodes[k]) == t })
	gv.Ensures("the rules registered earlier stay in their order", len(after) >= len(before) && gv.All(0, len(before), func(k int) bool { return after[k] == before[k] }))
	gv.Ensures("the rule is run on the nodes of its types and on no others", (len(after) > len(before)) == added)
	gv.Ensures("no other rule is added", gv.All(len(before), len(after), func(k int) bool { return after[k] == rule }))
	gv.Ensures("whether the rule is suppressed is kept", rs.IsRuleSuppressed(rule.ID()) == suppressed)
	gv.Ensures("the other rules stay suppressed or not", id == rule.ID() || rs.IsRuleSuppressed(id) == oldSup)
}

func gen_C20_visit(r *gv.Rand) (*Analyzer, ast.Node) {
	calls := &[]specC20Call{}
	g := &Analyzer{ruleset: NewRuleSet(), analyzerSet: analyzers.NewAnalyzerSet(), stats: &Metrics{}, ignoreNosec: true,
		logger: log.New(io.Discard, "", 0), errors: map[string][]Error{}}
	fset := token.NewFileSet()
	fset.AddFile("a.go", -1, 100)
	g.context = &Context{FileSet: fset, Imports: NewImportTracker(), Ignores: newIgnores()}
	for k := r.Intn(6); k > 0; k-- {
		g.ruleset.Register(gen_C20_rule(r, calls), false, gen_C20_node(r))
	}
	n := gen_C20_node(r)
	switch x := n.(type) {
	case *ast.CallExpr:
		x.Fun.(*ast.Ident).NamePos, x.Rparen = 3, 7
	case *ast.BasicLit:
		x.ValuePos = 4
	case *ast.File:
		x.Package = 1
		x.Name.NamePos = 9
		x.Imports = []*ast.ImportSpec{{Path: &ast.BasicLit{Kind: token.STRING, Value: `"crypto/md5"`}}}
	case *ast.Ident:
		x.NamePos = 6
	}
	return g, n
}

// Every rule registered for a node is run on it once, in order, and what it finds is recorded.
func verif_C20_visit(g *Analyzer, n ast.Node) {
	gv.Requires(g != nil && g.context != nil && g.stats != nil && n != nil)
	gv.Requires(g.context.Imports != nil)
	rules := g.ruleset.RegisteredFor(n)
	gv.Requires(gv.All(0, len(rules), func(k int) bool { return rules[k] != nil }))
	var got []*issue.Issue
	tracked := 0
	gv.Stub((*Analyzer).updateIssues, func(g *Analyzer, i *issue.Issue) { got = append(got, i) })
	gv.Stub((*ImportTracker).TrackFile, func(t *ImportTracker, f *ast.File) { tracked++ })
	gv.Stub(GetLocation, func(n ast.Node, ctx *Context) (string, int) { return gv.Arbitrary[string](), gv.Arbitrary[int]() })
	_, isFile := n.(*ast.File)
	ctx := g.context
	gv.Inv(func(it int) bool { return len(got) == it })
	gv.Inv(func(it int, rules []Rule) bool {
		return gv.All(0, it, func(k int) bool {
			want, _ := rules[k].Match(n, ctx)
			return got[k] == want
		})
	})
	if !gv.Native() {
		v := g.Visit(n)
		gv.Ensures("every rule of the node is run once", len(got) == len(rules))
		gv.Ensures("what the rules find is recorded in their order", gv.All(0, len(rules), func(k int) bool {
			want, _ := rules[k].Match(n, ctx)
			return got[k] == want
		}))
		gv.Ensures("the walk goes on below the node", v == ast.Visitor(g))
		gv.Ensures("the imports of a file are known before its rules run", (tracked == 1) == isFile && tracked <= 1)
		return
	}
	var calls *[]specC20Call
	for _, r := range rules {
		calls = r.(*specC20Rule).calls
		*calls = nil
	}
	before := len(g.issues)
	v := g.Visit(n)
	gv.Ensures("the walk goes on below the node", v == ast.Visitor(g))
	if isFile {
		gv.Ensures("the imports of a file are known before its rules run", len(g.context.Imports.Imported) == 1)
	}
	if calls == nil {
		gv.Ensures("without rules nothing is found", len(g.issues) == before)
		return
	}
	gv.Ensures("every rule of the node is run once", len(*calls) == len(rules))
	next := before
	for k, r := range rules {
		s := r.(*specC20Rule)
		c := (*calls)[k]
		gv.Ensures("a rule is given the node and its context", c.rule == s && c.node == n && c.ctx == ctx)
		if s.out != nil {
			gv.Ensures("what the rules find is recorded in their order", next < len(g.issues) && g.issues[next] == s.out)
			next++
		}
	}
	gv.Ensures("nothing else is recorded", next == len(g.issues))
}

func gen_C20_aset(r *gv.Rand) (*analyzers.AnalyzerSet, *analysis.Analyzer, bool, string) {
	as := analyzers.NewAnalyzerSet()
	name := func() string { return gv.Pick(r, "G115", "G602", "G407") }
	for k := r.Intn(3); k > 0; k-- {
		as.Register(&analysis.Analyzer{Name: name()}, r.Intn(2) == 0)
	}
	return as, &analysis.Analyzer{Name: name()}, r.Intn(2) == 0, name()
}

// The set of the analyzers.
func verif_C20_aset(as *analyzers.AnalyzerSet, a *analysis.Analyzer, suppressed bool, id string) {
	gv.Requires(as != nil && as.AnalyzerSuppressedMap != nil && a != nil)
	before := gv.Snap(as.Analyzers)
	old := as.IsSuppressed(id)
	as.Register(a, suppressed)
	gv.Ensures("the analyzer is added once", len(as.Analyzers) == len(before)+1 && as.Analyzers[len(before)] == a)
	gv.Ensures("the analyzers registered earlier stay in their order", gv.All(0, len(before), func(k int) bool { return as.Analyzers[k] == before[k] }))
	gv.Ensures("whether the analyzer is suppressed is kept", as.IsSuppressed(a.Name) == suppressed)
	gv.Ensures("the others stay suppressed or not", id == a.Name || as.IsSuppressed(id) == old)
}

func gen_C20_load(r *gv.Rand) (*Analyzer, map[string]bool, string, string, Rule, Rule, ast.Node, ast.Node) {
	g, n := gen_C20_visit(r)
	calls := &[]specC20Call{}
	id := gv.Pick(r, "G101", "G102", "G103")
	id2 := gv.Pick(r, "G101", "G102", "G103")
	g.ruleset = NewRuleSet()
	g.config = NewConfig()
	return g, map[string]bool{"G101": r.Intn(2) == 0, "G103": r.Intn(2) == 0}, id, id2,
		&specC20Rule{id: id, calls: calls}, &specC20Rule{id: id2, calls: calls}, n, gen_C20_node(r)
}

// bounded: loading the rules registers each of them with its own nodes and suppression.
func verif_C20_load(g *Analyzer, suppressed map[string]bool, id, id2 string, rule, rule2 Rule, n, n2 ast.Node) {
	gv.Requires(g != nil && rule != nil && rule2 != nil && g.config != nil && id != id2)
	gv.Requires(rule.ID() == id && rule2.ID() == id2)
	g.ruleset = NewRuleSet()
	g.config[id] = id2
	defs := map[string]RuleBuilder{
		id: func(i string, c Config) (Rule, []ast.Node) {
			gv.Ensures("a rule is built with its identifier and the configuration", i == id && c[id] == any(id2))
			return rule, []ast.Node{n}
		},
	}
	if !gv.Native() { // the builders are function values read from a map: checked in native runs only
		g.LoadRules(nil, suppressed)
		gv.Ensures("without rules nothing is run", len(g.ruleset.RegisteredFor(n)) == 0)
		return
	}
	g.LoadRules(defs, suppressed)
	got := g.ruleset.RegisteredFor(n)
	gv.Ensures("the rule is run on its nodes", len(got) == 1 && got[0] == rule)
	gv.Ensures("the rule is suppressed exactly when it is said to be", g.ruleset.IsRuleSuppressed(id) == suppressed[id])
	gv.Ensures("no rule is run on other nodes", reflect.TypeOf(n) == reflect.TypeOf(n2) || len(g.ruleset.RegisteredFor(n2)) == 0)
	{
		g.ruleset = NewRuleSet()
		defs[id2] = func(string, Config) (Rule, []ast.Node) { return rule2, []ast.Node{n, n2} }
		g.LoadRules(defs, suppressed)
		has := func(n ast.Node, r Rule) bool {
			for _, x := range g.ruleset.RegisteredFor(n) {
				if x == r {
					return true
				}
			}
			return false
		}
		gv.Ensures("every rule is run on its nodes", has(n, rule) && has(n, rule2) && has(n2, rule2))
		gv.Ensures("every rule is suppressed exactly when it is said to be", g.ruleset.IsRuleSuppressed(id) == suppressed[id] && g.ruleset.IsRuleSuppressed(id2) == suppressed[id2])
	}
}
