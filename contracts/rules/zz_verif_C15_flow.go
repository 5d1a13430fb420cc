package rules

import (
	"go/ast"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

const nonative_C15_slowloris = true

// G112: an http.Server literal that sets neither timeout.
func verif_C15_slowloris(elts []ast.Expr, id string) {
	gv.Requires(gv.All(0, len(elts), func(k int) bool {
		kv, ok := elts[k].(*ast.KeyValueExpr)
		if !ok {
			return true
		}
		i, ok := kv.Key.(*ast.Ident)
		return kv != nil && (!ok || i != nil)
	}))
	sets := func(e ast.Expr) bool {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return false
		}
		i, ok := kv.Key.(*ast.Ident)
		return ok && (i.Name == "ReadHeaderTimeout" || i.Name == "ReadTimeout")
	}
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return !sets(elts[k]) }) })
	lit := &ast.CompositeLit{Elts: elts}
	gv.NoPanic()
	got := containsReadHeaderTimeout(lit)
	gv.Ensures("a timeout is set exactly if one of the fields is", got == gv.Any(0, len(elts), func(k int) bool { return sets(elts[k]) }))
	gv.Ensures("no literal sets none", !containsReadHeaderTimeout(nil))
}

const nonative_C15_blocked = true

// G501 to G507: the import with the rule's path.
func verif_C15_blocked(id, path string, which int, other bool) {
	gv.Requires(which >= 0 && which < 7)
	ctx := &gosec.Context{}
	imp := &ast.ImportSpec{Path: &ast.BasicLit{Value: path}}
	var n ast.Node = imp
	if other {
		n = imp.Path
	}
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		gv.Ensures("the finding is at the import", m == n && c == ctx)
		return &issue.Issue{RuleID: id, What: what}
	})
	gv.Stub(unquote, func(s string) string { return s })
	switch which {
	case 0:
		specC15Blocked(n, ctx, NewBlocklistedImportMD5, id, !other && path == "crypto/md5")
	case 1:
		specC15Blocked(n, ctx, NewBlocklistedImportDES, id, !other && path == "crypto/des")
	case 2:
		specC15Blocked(n, ctx, NewBlocklistedImportRC4, id, !other && path == "crypto/rc4")
	case 3:
		specC15Blocked(n, ctx, NewBlocklistedImportCGI, id, !other && path == "net/http/cgi")
	case 4:
		specC15Blocked(n, ctx, NewBlocklistedImportSHA1, id, !other && path == "crypto/sha1")
	case 5:
		specC15Blocked(n, ctx, NewBlocklistedImportMD4, id, !other && path == "golang.org/x/crypto/md4")
	case 6:
		specC15Blocked(n, ctx, NewBlocklistedImportRIPEMD160, id, !other && path == "golang.org/x/crypto/ripemd160")
	}
}

func specC15Blocked(n ast.Node, ctx *gosec.Context, build gosec.RuleBuilder, id string, want bool) {
	r, nodes := build(id, nil)
	_, isImport := nodes[0].(*ast.ImportSpec)
	gv.Ensures("imports are looked at", len(nodes) == 1 && isImport && r.ID() == id)
	gv.NoPanic()
	got, err := r.Match(n, ctx)
	specC15Found(got, err, id, want)
}

const nonative_C15_pprof = true

// G108: a blank import of net/http/pprof.
func verif_C15_pprof(id, path, name string, named, other bool) {
	ctx := &gosec.Context{}
	imp := &ast.ImportSpec{Path: &ast.BasicLit{Value: path}}
	if named {
		imp.Name = &ast.Ident{Name: name}
	}
	var n ast.Node = imp
	if other {
		n = imp.Path
	}
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		gv.Ensures("the finding is at the import", m == n && c == ctx)
		return &issue.Issue{RuleID: id, What: what}
	})
	gv.Stub(unquote, func(s string) string { return s })
	specC15Blocked(n, ctx, NewPprofCheck, id, !other && path == "net/http/pprof" && named && name == "_")
}

// The path of an import is what stands between its quotes.
func verif_C15_unquote(path string, raw bool) {
	gv.Requires(strings.Trim(path, "\"`") == path && strings.TrimSpace(path) == path)
	if !gv.Native() {
		gv.Ensures("a path", path == path)
		return
	}
	q := "\""
	if raw {
		q = "`"
	}
	gv.Ensures("the quotes go", unquote(q+path+q) == path)
}

const nonative_C15_overflow = true

// G109: a variable that was assigned the result of strconv.Atoi, later converted to int16 or int32.
func verif_C15_overflow(arg *ast.Ident, fun *ast.Ident, id string, marked bool, obj *ast.Object, other *ast.Object) {
	gv.Requires(arg != nil && fun != nil && obj != nil && other != nil)
	ctx := &gosec.Context{PassedValues: map[string]interface{}{}}
	m := map[*ast.Object]ast.Node{other: arg}
	if marked {
		m[obj] = fun
	}
	ctx.PassedValues[id] = m
	call := &ast.CallExpr{Fun: fun, Args: []ast.Expr{arg}}
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		gv.Ensures("the finding is at the conversion", m == ast.Node(call) && c == ctx)
		return &issue.Issue{RuleID: id, What: what}
	})
	r, _ := NewIntegerOverflowCheck(id, nil)
	gv.NoPanic()
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, (fun.Name == "int32" || fun.Name == "int16") && (arg.Obj == other || marked && arg.Obj == obj))
}

const nonative_C15_atoi = true

// The variables that are remembered are those assigned the result of strconv.Atoi.
func verif_C15_atoi(lhs *ast.Ident, id, pkg, fn string, probe *ast.Object, before bool) {
	gv.Requires(lhs != nil)
	ctx := &gosec.Context{PassedValues: map[string]interface{}{}}
	m := map[*ast.Object]ast.Node{}
	if before {
		m[probe] = lhs
	}
	ctx.PassedValues[id] = m
	call := &ast.CallExpr{}
	specC15Calls(call, call, ctx, pkg, fn)
	stmt := &ast.AssignStmt{Lhs: []ast.Expr{lhs, &ast.Ident{Name: "_"}}, Rhs: []ast.Expr{call}}
	r, _ := NewIntegerOverflowCheck(id, nil)
	gv.NoPanic()
	got, err := r.Match(stmt, ctx)
	_, after := m[probe]
	gv.Ensures("an assignment is not reported", got == nil && err == nil)
	gv.Ensures("exactly the results of Atoi are remembered", after == (before || pkg == "strconv" && fn == "Atoi" && lhs.Name != "_" && lhs.Obj != nil && lhs.Obj == probe))
}

const nonative_C15_bomb = true

// G110: a decompressing reader is copied from without a bound.
func verif_C15_bomb(src *ast.Ident, id, pkg, fn string, args int, marked bool, obj *ast.Object) {
	gv.Requires(src != nil && obj != nil && args >= 1 && args <= 3)
	ctx := &gosec.Context{PassedValues: map[string]interface{}{}}
	m := map[*ast.Object]struct{}{}
	if marked {
		m[obj] = struct{}{}
	}
	ctx.PassedValues[id] = m
	call := &ast.CallExpr{Args: []ast.Expr{src}}
	if args == 2 {
		call.Args = []ast.Expr{&ast.BasicLit{}, src}
	}
	if args == 3 {
		call.Args = []ast.Expr{&ast.BasicLit{}, src, &ast.BasicLit{}}
	}
	specC15Calls(call, call, ctx, pkg, fn)
	r, _ := NewDecompressionBombCheck(id, nil)
	gv.NoPanic()
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, args > 1 && pkg == "io" && (fn == "Copy" || fn == "CopyBuffer") && marked && src.Obj == obj)
}

const nonative_C15_reader = true

// The readers that are remembered are those of the decompressing packages.
func verif_C15_reader(lhs *ast.Ident, id, pkg, fn string, probe *ast.Object, before, method bool) {
	gv.Requires(lhs != nil)
	ctx := &gosec.Context{PassedValues: map[string]interface{}{}}
	m := map[*ast.Object]struct{}{}
	if before {
		m[probe] = struct{}{}
	}
	ctx.PassedValues[id] = m
	call := &ast.CallExpr{}
	specC15Calls(call, call, ctx, pkg, fn)
	gv.Stub(gosec.GetCallInfo, func(n ast.Node, c *gosec.Context) (string, string, error) {
		if method {
			return pkg, fn, nil
		}
		return "", "", nil
	})
	stmt := &ast.AssignStmt{Lhs: []ast.Expr{lhs, &ast.Ident{Name: "_"}}, Rhs: []ast.Expr{call}}
	r, _ := NewDecompressionBombCheck(id, nil)
	gv.NoPanic()
	got, err := r.Match(stmt, ctx)
	_, after := m[probe]
	reader := fn == "NewReader" && (pkg == "compress/gzip" || pkg == "compress/zlib" || pkg == "compress/bzip2" || pkg == "compress/flate" || pkg == "compress/lzw" || pkg == "archive/tar" || pkg == "archive/zip") ||
		fn == "NewReaderDict" && (pkg == "compress/zlib" || pkg == "compress/flate") || fn == "Open" && pkg == "*archive/zip.File"
	gv.Ensures("an assignment is not reported", got == nil && err == nil)
	gv.Ensures("exactly the decompressing readers are remembered", after == (before || reader && lhs.Name != "_" && lhs.Obj != nil && lhs.Obj == probe))
}
