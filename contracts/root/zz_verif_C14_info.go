package gosec

import (
	"errors"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C14_pkgcall(r *gv.Rand) (CallList, *ast.CallExpr, string, string, string, bool, bool, bool) {
	s, i := gv.Pick(r, "os", "x", "a/vendor/crypto/md5.T", "crypto/md5", "a.B"), gv.Pick(r, "Create", "New", "Sum")
	return genC14List(r), &ast.CallExpr{Fun: &ast.SelectorExpr{X: &ast.Ident{Name: s}, Sel: &ast.Ident{Name: i}}}, s, i, gv.Pick(r, "os", "crypto/md5", "x/vendor/crypto/md5", "vendor/crypto/md5", "vendor/os"), r.Intn(4) > 0, false, r.Intn(2) == 0
}

// A call is in a list of package functions exactly when its package and name are.
func verif_C14_pkgcall(c CallList, call *ast.CallExpr, selector, ident, path string, imported, unknown, strip bool) {
	gv.Requires(call != nil && spec_C14_list(c))
	ctx := &Context{Imports: NewImportTracker()}
	if imported {
		ctx.Imports.Imported[path] = []string{selector}
	}
	gv.Stub(GetCallInfo, func(n ast.Node, _ *Context) (string, string, error) {
		if unknown {
			return "", "", errors.New("unknown")
		}
		return selector, ident, nil
	})
	gv.Stub(GetImportPath, func(name string, _ *Context) (string, bool) {
		gv.Ensures("the package of the call is looked up", name == selector)
		if imported {
			return path, true
		}
		return "", false
	})
	gv.NoPanic()
	got := c.ContainsPkgCallExpr(call, ctx, strip)
	gv.MayPanic()
	full := strings.ContainsRune(selector, '.')
	p := path
	if full {
		p = selector
	}
	if k := strings.Index(p, "vendor/"); strip && k >= 0 {
		p = p[k+len("vendor/"):]
	}
	want := !unknown && (full || imported) && spec_C14_has(c, p, ident)
	gv.Ensures("a call is found exactly when the list has its function under its package's path", (got != nil) == want)
	gv.Ensures("the call itself is returned", got == nil || got == call)
}

func gen_C14_call(r *gv.Rand) (CallList, *ast.CallExpr, string, string, bool) {
	s, i := gv.Pick(r, "os", "a.B", "crypto/md5"), gv.Pick(r, "Create", "New", "Sum")
	return genC14List(r), &ast.CallExpr{Fun: &ast.SelectorExpr{X: &ast.Ident{Name: s}, Sel: &ast.Ident{Name: i}}}, s, i, false
}

// A call is in a list exactly when its package or type and its name are, or it is called on a pointer to the type.
func verif_C14_call(c CallList, call *ast.CallExpr, selector, ident string, unknown bool) {
	gv.Requires(call != nil && spec_C14_list(c))
	gv.Stub(GetCallInfo, func(n ast.Node, _ *Context) (string, string, error) {
		if unknown {
			return "", "", errors.New("unknown")
		}
		return selector, ident, nil
	})
	gv.NoPanic()
	got := c.ContainsCallExpr(call, &Context{})
	gv.MayPanic()
	want := !unknown && (spec_C14_has(c, selector, ident) || strings.HasPrefix(selector, "*") && spec_C14_has(c, strings.TrimPrefix(selector, "*"), ident))
	gv.Ensures("a call is found exactly when the list has its function", (got != nil) == want)
	gv.Ensures("the call itself is returned", got == nil || got == call)
}

func genC14Type(r *gv.Rand) types.Type {
	t := types.Type(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("a/b", "b"), gv.Pick(r, "T", "U"), nil), types.NewStruct(nil, nil), nil))
	if r.Intn(2) == 0 {
		t = types.NewPointer(t)
	}
	return t
}

func gen_C14_info(r *gv.Rand) (ast.Expr, string, *Context) {
	ctx := &Context{Info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}, Pkg: types.NewPackage("p/q", "q")}
	typed := func(e ast.Expr) ast.Expr {
		if r.Intn(4) > 0 {
			ctx.Info.Types[e] = types.TypeAndValue{Type: genC14Type(r)}
		}
		return e
	}
	id := &ast.Ident{Name: gv.Pick(r, "x", "os", "md5")}
	switch r.Intn(3) {
	case 0:
		id.Obj = ast.NewObj(ast.Var, id.Name)
	case 1:
		id.Obj = ast.NewObj(gv.Pick(r, ast.Typ, ast.Pkg, ast.Con, ast.Fun), id.Name)
	}
	typed(id)
	var x ast.Expr = id
	switch r.Intn(6) {
	case 0:
		s := &ast.Ident{Name: "f"}
		typed(s)
		x = &ast.SelectorExpr{X: id, Sel: s}
	case 1:
		x = &ast.CallExpr{Fun: &ast.Ident{Name: "new"}, Args: []ast.Expr{typed(&ast.Ident{Name: "T"})}}
	case 2:
		fn := &ast.Ident{Name: "mk", Obj: ast.NewObj(ast.Fun, "mk")}
		fn.Obj.Decl = &ast.FuncDecl{Name: fn, Type: &ast.FuncType{Results: &ast.FieldList{List: []*ast.Field{{Type: typed(&ast.Ident{Name: "T"})}}}}}
		x = &ast.CallExpr{Fun: fn}
	case 3:
		x = gv.Pick[ast.Expr](r, &ast.ParenExpr{X: id}, &ast.CallExpr{Fun: &ast.SelectorExpr{X: id, Sel: &ast.Ident{Name: "g"}}}, &ast.IndexExpr{X: id, Index: id})
	}
	return x, gv.Pick(r, "New", "Sum"), ctx
}

// What a call calls: a function of its own package, of an imported package, or a method of a type.
func verif_C14_info(x ast.Expr, sel string, ctx *Context) {
	gv.Requires(x != nil && ctx != nil && ctx.Info != nil && ctx.Pkg != nil)
	p, n, err := GetCallInfo(&ast.CallExpr{Fun: &ast.Ident{Name: sel}}, ctx)
	gv.Ensures("a plain call is of its own package", err == nil && p == ctx.Pkg.Name() && n == sel)
	p, n, err = GetCallInfo(&ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: &ast.Ident{Name: sel}}}, ctx)
	gv.Ensures("the name of a call is the one after the dot", err != nil || n == sel)
	typed := func(e ast.Expr) bool {
		t := ctx.Info.TypeOf(e)
		if t == nil {
			return err != nil
		}
		return err == nil && p == t.String()
	}
	switch e := x.(type) {
	case *ast.Ident:
		if e.Obj != nil && e.Obj.Kind == ast.Var {
			gv.Ensures("a method of a variable is of the variable's type", typed(e))
		} else {
			gv.Ensures("a function of a package is of the package's name", err == nil && p == e.Name)
		}
	case *ast.SelectorExpr:
		gv.Ensures("a method of a field is of the field's type", e.Sel == nil || typed(e.Sel))
	case *ast.CallExpr:
		if f, ok := e.Fun.(*ast.Ident); ok && f.Name == "new" && len(e.Args) > 0 {
			gv.Ensures("a method of a new value is of the value's type", typed(e.Args[0]))
		} else if ok && f.Obj != nil {
			if d, ok := f.Obj.Decl.(*ast.FuncDecl); ok && d.Type.Results != nil && len(d.Type.Results.List) > 0 && d.Type.Results.List[0] != nil {
				gv.Ensures("a method of a result is of the result's type", typed(d.Type.Results.List[0].Type))
			} else {
				gv.Ensures("a call of something unknown is an error", err != nil)
			}
		} else {
			gv.Ensures("a call of something unknown is an error", err != nil)
		}
	default:
		gv.Ensures("a call of something unknown is an error", err != nil)
	}
}
