package gosec

import (
	"go/ast"

	"github.com/securego/gosec/v2/internal/gv"
)

const nonative_C18_resolve = true

// What is known to be constant: literals; composites, operations and variables all of whose parts are; and names of anything but variables.
func verif_C18_resolve(known map[ast.Node]bool, exprs []ast.Expr, x, y ast.Expr, kind, which int) {
	gv.Requires(known != nil && which >= 0 && which < 5)
	ctx := &Context{}
	gv.Stub(TryResolve, func(n ast.Node, c *Context) bool {
		gv.Ensures("in the same context", c == ctx)
		return known[n]
	})
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return known[exprs[k]] }) })
	gv.NoPanic()
	all := len(exprs) > 0 && gv.All(0, len(exprs), func(k int) bool { return known[exprs[k]] })
	switch which {
	case 0:
		gv.Ensures("a declaration is constant when all its values are", resolveValueSpec(&ast.ValueSpec{Values: exprs}, ctx) == all)
	case 1:
		gv.Ensures("an assignment is constant when all its values are", resolveAssign(&ast.AssignStmt{Rhs: exprs}, ctx) == all)
	case 2:
		gv.Ensures("a composite is constant when all its elements are", resolveCompLit(&ast.CompositeLit{Elts: exprs}, ctx) == all)
	case 3:
		gv.Ensures("an operation is constant when both operands are", resolveBinExpr(&ast.BinaryExpr{X: x, Y: y}, ctx) == (known[x] && known[y]))
	case 4:
		gv.Ensures("the result of a call is not constant", !resolveCallExpr(&ast.CallExpr{Args: exprs}, ctx))
	}
}

const nonative_C18_name = true

func verif_C18_name(known map[ast.Node]bool, kind int, spec *ast.ValueSpec, assign *ast.AssignStmt, field *ast.Field, decl int) {
	gv.Requires(known != nil && spec != nil && assign != nil && field != nil && decl >= 0 && decl < 4 && kind >= 0 && kind < 3)
	ctx := &Context{}
	gv.Stub(TryResolve, func(n ast.Node, c *Context) bool {
		gv.Ensures("in the same context", c == ctx)
		return known[n]
	})
	gv.NoPanic()
	obj := &ast.Object{Kind: ast.Var}
	if kind == 1 {
		obj.Kind = ast.Con
	}
	var n ast.Node
	switch decl {
	case 0:
		obj.Decl, n = spec, spec
	case 1:
		obj.Decl, n = assign, assign
	case 2:
		obj.Decl, n = field, field
	}
	id := &ast.Ident{Obj: obj}
	if kind == 2 {
		id.Obj = nil
	}
	got := resolveIdent(id, ctx)
	gv.Ensures("a variable is as constant as its declaration, everything else is constant", got == (kind != 0 || decl < 3 && known[n]))
}

const nonative_C18_dispatch = true

// Each kind of node is resolved by its own parts; a node of another kind is not constant.
func verif_C18_dispatch(which int, ok bool, e ast.Expr) {
	gv.Requires(which >= 0 && which < 12)
	ctx := &Context{}
	lit, id, spec, assign, call, bin := &ast.CompositeLit{}, &ast.Ident{}, &ast.ValueSpec{}, &ast.AssignStmt{}, &ast.CallExpr{}, &ast.BinaryExpr{}
	gv.Stub(resolveCompLit, func(n *ast.CompositeLit, c *Context) bool { gv.Ensures("the node itself", n == lit && c == ctx); return ok })
	gv.Stub(resolveIdent, func(n *ast.Ident, c *Context) bool { gv.Ensures("the node itself", n == id && c == ctx); return ok })
	gv.Stub(resolveValueSpec, func(n *ast.ValueSpec, c *Context) bool { gv.Ensures("the node itself", n == spec && c == ctx); return ok })
	gv.Stub(resolveAssign, func(n *ast.AssignStmt, c *Context) bool { gv.Ensures("the node itself", n == assign && c == ctx); return ok })
	gv.Stub(resolveBinExpr, func(n *ast.BinaryExpr, c *Context) bool { gv.Ensures("the node itself", n == bin && c == ctx); return ok })
	gv.NoPanic()
	switch which {
	case 0:
		gv.Ensures("a literal is constant", TryResolve(&ast.BasicLit{}, ctx))
	case 1:
		gv.Ensures("a composite", TryResolve(lit, ctx) == ok)
	case 2:
		gv.Ensures("a name", TryResolve(id, ctx) == ok)
	case 3:
		gv.Ensures("a declaration", TryResolve(spec, ctx) == ok)
	case 4:
		gv.Ensures("an assignment", TryResolve(assign, ctx) == ok)
	case 5:
		gv.Ensures("a call", !TryResolve(call, ctx))
	case 6:
		gv.Ensures("an operation", TryResolve(bin, ctx) == ok)
	case 7:
		gv.Ensures("a selection is not constant", !TryResolve(&ast.SelectorExpr{}, ctx))
	case 8:
		gv.Ensures("an element is not constant", !TryResolve(&ast.IndexExpr{}, ctx))
	case 9:
		gv.Ensures("a parameter is not constant", !TryResolve(&ast.Field{}, ctx))
	case 10:
		gv.Ensures("an indirection is not constant", !TryResolve(&ast.StarExpr{}, ctx))
	case 11:
		gv.Ensures("nothing is not constant", !TryResolve(nil, ctx))
	}
}
