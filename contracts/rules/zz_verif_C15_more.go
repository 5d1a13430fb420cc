package rules

import (
	"errors"
	"go/ast"
	"regexp"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

const nonative_C15_bind = true

// G102: the address is a constant that means every interface.
func verif_C15_bind(args []ast.Expr, id, pkg, fn, text string, values []string, readable, nested bool) {
	call := &ast.CallExpr{Args: args}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	gv.Stub(gosec.GetString, func(m ast.Node) (string, error) {
		gv.Ensures("the address is looked at", len(args) > 1 && m == args[1])
		if readable {
			return text, nil
		}
		return "", errors.New("not a constant")
	})
	gv.Stub(gosec.GetIdentStringValues, func(i *ast.Ident) []string {
		gv.Ensures("the address is looked at", len(args) > 1 && args[1] == ast.Expr(i))
		return values
	})
	gv.Stub(gosec.GetCallStringArgsValues, func(m ast.Node, c *gosec.Context) []string {
		gv.Ensures("the only argument is looked at", len(args) == 1 && m == args[0] && c == ctx)
		return values
	})
	re := regexp.MustCompile(`^(0.0.0.0|:).*$`)
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return !re.MatchString(values[k]) }) })
	r, nodes := NewBindsToAllNetworkInterfaces(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	gv.NoPanic()
	got, err := r.Match(call, ctx)
	listens := (pkg == "net" || pkg == "crypto/tls") && fn == "Listen"
	every := gv.Any(0, len(values), func(k int) bool { return re.MatchString(values[k]) })
	want := false
	if len(args) == 1 {
		want = every
	}
	if len(args) > 1 {
		if _, ok := args[1].(*ast.BasicLit); ok {
			want = readable && re.MatchString(text)
		}
		if _, ok := args[1].(*ast.Ident); ok {
			want = every
		}
	}
	specC15Found(got, err, id, listens && want)
}

func gen_C15_everywhere(r *gv.Rand) (string, int) {
	return gv.Pick(r, "", ":", ":80", "0.0.0.0", "0.0.0.0:80", "10.0.0.0:1", "127.0.0.1:80", "localhost:80", "a:80", "100.0.0.0:1", " :80"), 0
}

// bounded: which addresses mean every interface.
func verif_C15_everywhere(addr string, n int) {
	if !gv.Native() {
		gv.Ensures("an address", addr == addr)
		return
	}
	r, _ := NewBindsToAllNetworkInterfaces("G102", nil)
	got := r.(*bindsToAllNetworkInterfaces).pattern.MatchString(addr)
	want := len(addr) > 0 && addr[0] == ':' || len(addr) >= 7 && addr[:7] == "0.0.0.0"
	gv.Ensures("an address without a host or 0.0.0.0 means every interface", got == want)
}

const nonative_C15_errors = true

// G104: a call whose result has an error and is not used, unless the function is on the list.
func verif_C15_errors(id string, pos int, listed bool, stmt ast.Stmt, exp *ast.ExprStmt, call *ast.CallExpr) {
	gv.Requires(exp != nil && call != nil && pos >= -1)
	ctx := &gosec.Context{}
	exp.X = call
	gv.Stub(gosec.CallList.ContainsCallExpr, func(l gosec.CallList, n ast.Node, c *gosec.Context) *ast.CallExpr {
		if listed {
			return call
		}
		return nil
	})
	gv.Stub(gosec.CallList.ContainsPkgCallExpr, func(l gosec.CallList, n ast.Node, c *gosec.Context, strip bool) *ast.CallExpr {
		if listed {
			return call
		}
		return nil
	})
	gv.Stub(returnsError, func(e *ast.CallExpr, c *gosec.Context) int {
		gv.Ensures("the result of the call is looked at", e == call && c == ctx)
		return pos
	})
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		gv.Ensures("the finding is at the statement", m == ast.Node(exp) && c == ctx)
		return &issue.Issue{RuleID: id, What: what}
	})
	r := &noErrorCheck{MetaData: issue.MetaData{ID: id}, whitelist: gosec.CallList{}}
	gv.NoPanic()
	got, err := r.Match(exp, ctx)
	specC15Found(got, err, id, !listed && pos >= 0)
}

const nonative_C15_audit = true

// G104 in audit mode: an error that is assigned to the blank identifier.
func verif_C15_audit(id string, pos int, listed, audit bool, lhs []ast.Expr, call *ast.CallExpr) {
	gv.Requires(call != nil && pos >= -1 && len(lhs) > 0 && gv.All(0, len(lhs), func(k int) bool {
		i, ok := lhs[k].(*ast.Ident)
		return !ok || i != nil
	}))
	ctx := &gosec.Context{Config: gosec.Config{}}
	stmt := &ast.AssignStmt{Lhs: lhs, Rhs: []ast.Expr{call}}
	gv.Stub(gosec.Config.IsGlobalEnabled, func(c gosec.Config, o gosec.GlobalOption) (bool, error) {
		gv.Ensures("audit mode is asked for", o == gosec.Audit)
		return audit, nil
	})
	gv.Stub(gosec.CallList.ContainsCallExpr, func(l gosec.CallList, n ast.Node, c *gosec.Context) *ast.CallExpr {
		if listed {
			return call
		}
		return nil
	})
	gv.Stub(gosec.CallList.ContainsPkgCallExpr, func(l gosec.CallList, n ast.Node, c *gosec.Context, strip bool) *ast.CallExpr {
		if listed {
			return call
		}
		return nil
	})
	gv.Stub(returnsError, func(e *ast.CallExpr, c *gosec.Context) int {
		gv.Ensures("the result of the call is looked at", e == call && c == ctx)
		return pos
	})
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		gv.Ensures("the finding is at the statement", m == ast.Node(stmt) && c == ctx)
		return &issue.Issue{RuleID: id, What: what}
	})
	r := &noErrorCheck{MetaData: issue.MetaData{ID: id}, whitelist: gosec.CallList{}}
	gv.NoPanic()
	got, err := r.Match(stmt, ctx)
	blank := false
	if pos >= 0 && pos < len(lhs) {
		i, ok := lhs[pos].(*ast.Ident)
		blank = ok && i.Name == "_"
	}
	specC15Found(got, err, id, audit && !listed && blank)
}
