package rules

import (
	"errors"
	"go/ast"
	"go/types"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

//gv:uses C15

const nonative_C18_lists = true

// The functions whose arguments G107, G204 and G304 look at.
func verif_C18_lists(pkg, fn, id string) {
	r, nodes := NewSSRFCheck(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("G107 looks at calls", len(nodes) == 1 && isCall && r.ID() == id)
	gv.Ensures("G107 looks at requests", r.(*ssrf).Contains(pkg, fn) == (pkg == "net/http" && (fn == "Do" || fn == "Get" || fn == "Head" || fn == "Post" || fn == "PostForm" || fn == "RoundTrip")))
	r, nodes = NewSubproc(id, nil)
	_, isCall = nodes[0].(*ast.CallExpr)
	gv.Ensures("G204 looks at calls", len(nodes) == 1 && isCall && r.ID() == id)
	gv.Ensures("G204 looks at commands", r.(*subprocess).Contains(pkg, fn) == ((pkg == "os/exec" || pkg == "golang.org/x/sys/execabs") && (fn == "Command" || fn == "CommandContext") || pkg == "syscall" && (fn == "Exec" || fn == "ForkExec" || fn == "StartProcess")))
	r, nodes = NewReadFile(id, nil)
	_, isCall = nodes[0].(*ast.CallExpr)
	gv.Ensures("G304 looks at calls", len(nodes) == 1 && isCall && r.ID() == id)
	f := r.(*readfile)
	gv.Ensures("G304 looks at files being opened", f.Contains(pkg, fn) == (pkg == "io/ioutil" && fn == "ReadFile" || pkg == "os" && (fn == "ReadFile" || fn == "Open" || fn == "OpenFile" || fn == "Create")))
	gv.Ensures("G304 looks into joined paths", f.pathJoin.Contains(pkg, fn) == ((pkg == "path/filepath" || pkg == "path") && fn == "Join"))
	gv.Ensures("G304 trusts cleaned paths", f.clean.Contains(pkg, fn) == (pkg == "path/filepath" && (fn == "Clean" || fn == "Rel" || fn == "EvalSymlinks")))
}

const nonative_C18_ssrf = true

// G107: a request whose address is a variable of the package or not constant.
func verif_C18_ssrf(args []ast.Expr, id string, listed, known, variable bool) {
	call := &ast.CallExpr{Args: args}
	ctx := &gosec.Context{Info: &types.Info{}}
	v := &types.Var{}
	specC15Calls(call, call, ctx, "net/http", "Get")
	gv.Stub((*types.Info).ObjectOf, func(i *types.Info, e *ast.Ident) types.Object {
		if variable {
			return v
		}
		return &types.Const{}
	})
	gv.Stub((*types.Package).Scope, func(p *types.Package) *types.Scope { return nil })
	gv.Stub(gosec.TryResolve, func(n ast.Node, c *gosec.Context) bool {
		gv.Ensures("the address is looked at", len(args) > 0 && n == args[0] && c == ctx)
		return known
	})
	r := &ssrf{MetaData: issue.MetaData{ID: id}, CallList: gosec.NewCallList()}
	if listed {
		r.Add("net/http", "Get")
	}
	got, err := r.Match(call, ctx)
	name := false
	if len(args) > 0 {
		_, name = args[0].(*ast.Ident)
	}
	specC15Found(got, err, id, listed && name && variable && !known)
}

const nonative_C18_query = true

// The argument that is the query: the first, or the second after a context, of the methods of DB and Tx.
func verif_C18_query(args []ast.Expr, typ, fn string, unknown bool) {
	gv.Globals()
	call := &ast.CallExpr{Args: args}
	ctx := &gosec.Context{}
	gv.Stub(gosec.GetCallInfo, func(n ast.Node, c *gosec.Context) (string, string, error) {
		gv.Ensures("the call is looked at", n == ast.Node(call) && c == ctx)
		if unknown {
			return "", "", errors.New("unknown")
		}
		return typ, fn, nil
	})
	gv.NoPanic()
	got, err := findQueryArg(call, ctx)
	first := fn == "Exec" || fn == "Query" || fn == "QueryRow" || fn == "Prepare"
	second := fn == "ExecContext" || fn == "QueryContext" || fn == "QueryRowContext" || fn == "PrepareContext"
	db := typ == "*database/sql.DB" || typ == "*database/sql.Tx"
	gv.Ensures("other calls have no query", (err == nil) == (!unknown && db && (first || second)))
	if err == nil {
		i := 0
		if second {
			i = 1
		}
		gv.Ensures("the query is the documented argument", i >= len(args) && got == nil || i < len(args) && got == args[i])
	}
}

const nonative_C18_object = true

// A name counts as constant unless it is a variable or a function; for G201 only if it is a constant.
func verif_C18_object(name string, kind, other ast.ObjKind, local, found bool) {
	obj := &ast.Object{Kind: kind}
	id := &ast.Ident{Name: name}
	if local {
		id.Obj = obj
	}
	file := &ast.File{Scope: &ast.Scope{Objects: map[string]*ast.Object{}}}
	if found {
		file.Scope.Objects[name] = &ast.Object{Kind: other}
	}
	ctx := &gosec.Context{PkgFiles: []*ast.File{{Scope: &ast.Scope{Objects: map[string]*ast.Object{}}}, file}}
	gv.Stub((*ast.Ident).String, func(i *ast.Ident) string { return i.Name })
	gv.NoPanic()
	got := (&sqlStrConcat{}).checkObject(id, ctx)
	con := (&sqlStrFormat{}).constObject(id, ctx)
	if local {
		gv.Ensures("a name of the file", got == (kind != ast.Var && kind != ast.Fun))
		gv.Ensures("a constant of the file", con == (kind == ast.Con))
	} else if found {
		gv.Ensures("a name of another file", got == (other != ast.Var && other != ast.Fun))
		gv.Ensures("a constant of another file", con == (other == ast.Con))
	} else {
		gv.Ensures("an unknown name", !got && !con)
	}
	gv.Ensures("other expressions are no constants", !(&sqlStrFormat{}).constObject(&ast.CallExpr{}, ctx))
}

const nonative_C18_clean = true

// A path counts as cleaned when its variable was given to a cleaning function or assigned the result of one.
func verif_C18_clean(call *ast.CallExpr, decl *ast.AssignStmt, id string, tracked, isVar, assigned, cleans bool) {
	gv.Requires(call != nil && decl != nil)
	ctx := &gosec.Context{}
	r := &readfile{MetaData: issue.MetaData{ID: id}, cleanedVar: map[any]ast.Node{}}
	if tracked {
		r.cleanedVar[decl] = call
	}
	decl.Rhs = []ast.Expr{call}
	if !assigned {
		decl.Rhs = []ast.Expr{&ast.BasicLit{}}
	}
	gv.Stub(gosec.CallList.ContainsPkgCallExpr, func(l gosec.CallList, n ast.Node, c *gosec.Context, strip bool) *ast.CallExpr {
		gv.Ensures("the assigned call is looked at", n == ast.Node(call) && c == ctx)
		if cleans {
			return call
		}
		return nil
	})
	obj := &ast.Object{Kind: ast.Con, Decl: decl}
	if isVar {
		obj.Kind = ast.Var
	}
	gv.NoPanic()
	got := r.isFilepathClean(&ast.Ident{Obj: obj}, ctx)
	gv.Ensures("a cleaned path", got == (tracked || isVar && assigned && cleans))
}

const nonative_C18_track = true

func verif_C18_track(arg *ast.Ident, other ast.Expr, args int, decl *ast.AssignStmt, probe *ast.AssignStmt) {
	gv.Requires(arg != nil && decl != nil && probe != nil && args >= 0 && args < 3)
	r := &readfile{cleanedVar: map[any]ast.Node{}}
	arg.Obj = &ast.Object{Decl: decl}
	call := &ast.CallExpr{}
	switch args {
	case 1:
		call.Args = []ast.Expr{arg}
	case 2:
		call.Args = []ast.Expr{&ast.BasicLit{}, arg}
	}
	gv.NoPanic()
	r.trackFilepathClean(call)
	_, ok := r.cleanedVar[probe]
	gv.Ensures("exactly the variable given first is cleaned", ok == (args == 1 && probe == decl))
}
