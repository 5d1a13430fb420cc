package rules

import (
	"errors"
	"go/ast"
	"strconv"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
)

const nonative_C15_rsa = true

// G403: a key of fewer than 2048 bits.
func verif_C15_rsa(args []ast.Expr, pkg, fn, id string, bits int64, constant bool) {
	call := &ast.CallExpr{Args: args}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	gv.Stub(gosec.GetInt, func(m ast.Node) (int64, error) {
		gv.Ensures("the size of the key is looked at", len(args) > 1 && m == args[1])
		if constant {
			return bits, nil
		}
		return 0, errors.New("not a constant")
	})
	r, nodes := NewWeakKeyStrength(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	gv.NoPanic()
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, pkg == "crypto/rsa" && fn == "GenerateKey" && len(args) > 1 && constant && bits < 2048)
}

const nonative_C15_templates = true

// G203: an unescaped text that is not a literal.
func verif_C15_templates(args []ast.Expr, pkg, fn, id string) {
	call := &ast.CallExpr{Args: args}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	lit := func(e ast.Expr) bool { _, ok := e.(*ast.BasicLit); return ok }
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return lit(args[k]) }) })
	r, nodes := NewTemplateCheck(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	gv.NoPanic()
	got, err := r.Match(call, ctx)
	unescaped := fn == "CSS" || fn == "HTML" || fn == "HTMLAttr" || fn == "JS" || fn == "JSStr" || fn == "Srcset" || fn == "URL"
	specC15Found(got, err, id, pkg == "html/template" && unescaped && gv.Any(0, len(args), func(k int) bool { return !lit(args[k]) }))
}

// specC15Mode makes the last argument of the call a mode: a constant, os.ModePerm or neither.
func specC15Mode(call *ast.CallExpr, ctx *gosec.Context, mode int64, constant, perm bool) {
	args := call.Args
	gv.Stub(gosec.GetInt, func(m ast.Node) (int64, error) {
		gv.Ensures("the mode is looked at", m == args[len(args)-1])
		if constant {
			return mode, nil
		}
		return 0, errors.New("not a constant")
	})
	gv.Stub(isOsPerm, func(m ast.Node, c *gosec.Context) bool {
		gv.Ensures("the mode is looked at", m == args[len(args)-1] && c == ctx)
		return perm
	})
}

const nonative_C15_perms = true

// G301, G302, G306: a mode that has a bit the allowed mode has not, or os.ModePerm.
func verif_C15_perms(args []ast.Expr, pkg, fn, id string, mode, allowed int64, constant, perm bool, which int) {
	gv.Requires(len(args) > 0 && which >= 0 && which < 4)
	call := &ast.CallExpr{Args: args}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	specC15Mode(call, ctx, mode, constant, perm)
	gv.Stub(getConfiguredMode, func(conf map[string]interface{}, key string, def int64) int64 {
		gv.Ensures("the mode of this rule is asked for", key == id)
		gv.Ensures("the documented mode is the default", def == specC15Default(which))
		return allowed
	})
	switch which {
	case 0:
		specC15Perms(call, ctx, NewMkdirPerms, id, pkg == "os" && (fn == "Mkdir" || fn == "MkdirAll") && (constant && mode|allowed != allowed || perm))
	case 1:
		specC15Perms(call, ctx, NewFilePerms, id, pkg == "os" && (fn == "OpenFile" || fn == "Chmod") && (constant && mode|allowed != allowed || perm))
	case 2:
		specC15Perms(call, ctx, NewWritePerms, id, (pkg == "os" || pkg == "io/ioutil") && fn == "WriteFile" && (constant && mode|allowed != allowed || perm))
	case 3:
		specC15Perms(call, ctx, NewOsCreatePerms, id, pkg == "os" && fn == "Create" && 0o666|allowed != allowed)
	}
}

func specC15Default(which int) int64 {
	switch which {
	case 0:
		return 0o750
	case 3:
		return 0o666
	}
	return 0o600
}

func specC15Perms(call *ast.CallExpr, ctx *gosec.Context, build gosec.RuleBuilder, id string, want bool) {
	r, nodes := build(id, gosec.Config{})
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	gv.NoPanic()
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, want)
}

func gen_C15_osperm(r *gv.Rand) (string, string, string, bool) {
	return gv.Pick(r, "os", "x", "syscall"), gv.Pick(r, "ModePerm", "ModeDir", "O_CREATE"), gv.Pick(r, "os", "syscall", "io/fs"), r.Intn(3) > 0
}

// os.ModePerm is the constant of package os, whatever its name in the file.
func verif_C15_osperm(name, sel, path string, imported bool) {
	ctx := &gosec.Context{Imports: gosec.NewImportTracker()}
	if imported {
		ctx.Imports.Imported[path] = []string{name}
	}
	gv.Stub(gosec.GetImportPath, func(n string, c *gosec.Context) (string, bool) {
		if imported && n == name {
			return path, true
		}
		return "", false
	})
	gv.NoPanic()
	got := isOsPerm(&ast.SelectorExpr{X: &ast.Ident{Name: name}, Sel: &ast.Ident{Name: sel}}, ctx)
	gv.Ensures("ModePerm is package os's", got == (imported && path == "os" && sel == "ModePerm"))
	gv.Ensures("nothing else is", !isOsPerm(&ast.Ident{Name: sel}, ctx) && !isOsPerm(&ast.CallExpr{}, ctx) && !isOsPerm(&ast.BasicLit{}, ctx))
}

func gen_C15_mode(r *gv.Rand) (string, int64, string, bool, bool) {
	return gv.Pick(r, "G301", "G302"), int64(r.Intn(512)), gv.Pick(r, "0o600", "0644", "420", "x", "", "-1"), r.Intn(2) == 0, r.Intn(2) == 0
}

// The allowed mode is the configured one if that is a number, and the default otherwise.
func verif_C15_mode(id string, def int64, text string, set, number bool) {
	conf := map[string]interface{}{}
	if set {
		if number {
			conf[id] = int64(0o640)
		} else {
			conf[id] = text
		}
	}
	gv.NoPanic()
	got := getConfiguredMode(conf, id, def)
	gv.Ensures("without a setting it is the default", set || got == def)
	gv.Ensures("a number is taken", !set || !number || got == 0o640)
	n, err := strconv.ParseInt(text, 0, 64)
	gv.Ensures("a text is read as a number", !set || number || err != nil || got == n)
	gv.Ensures("an unreadable text counts as none", !set || number || err == nil || got == def)
}
