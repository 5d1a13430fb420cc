package gosec

import (
	"errors"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
)

func genC14List(r *gv.Rand) CallList {
	c := NewCallList()
	for k := r.Intn(4); k > 0; k-- {
		s := gv.Pick(r, "os", "crypto/md5", "*a.B", "a.B")
		if r.Intn(6) == 0 {
			c[s] = set{}
		}
		c.Add(s, gv.Pick(r, "Create", "New", "Sum"))
	}
	return c
}

func genC14Call(r *gv.Rand) (string, string) {
	return gv.Pick(r, "os", "crypto/md5", "*a.B", "a.B", "*os", "**a.B", ""), gv.Pick(r, "Create", "New", "Sum", "")
}

func spec_C14_has(c CallList, selector, ident string) bool {
	s, ok := c[selector]
	if !ok {
		return false
	}
	_, has := s[ident]
	return has
}

// An entry of a list is a set bit.
func spec_C14_list(c CallList) bool {
	return gv.AllKeys(c, func(k string) bool { return gv.AllKeys(c[k], func(i string) bool { return c[k][i] }) })
}

func gen_C14_add(r *gv.Rand) (CallList, string, string, string, string) {
	s, i := genC14Call(r)
	s2, i2 := genC14Call(r)
	return genC14List(r), s, i, s2, i2
}

// A list has exactly the calls that were added to it.
func verif_C14_add(c CallList, selector, ident, sel, id string) {
	gv.Requires(c != nil && gv.AllKeys(c, func(k string) bool { return c[k] != nil }) && spec_C14_list(c))
	// the sets of different packages are different
	had := spec_C14_has(c, sel, id)
	_, shared := c[sel]
	gv.Requires(gv.Native() || sel == selector || !shared)
	gv.NoPanic()
	c.Add(selector, ident)
	gv.Ensures("an entry that was added is set", c[sel] == nil || !spec_C14_has(c, sel, id) || c[sel][id])
	gv.Ensures("a call is in the list exactly when it was added", c.Contains(sel, id) == (had || sel == selector && id == ident))
	gv.Ensures("a pointer to a type is in the list exactly when it or the type is", c.ContainsPointer(sel, id) == (strings.HasPrefix(sel, "*") &&
		(c.Contains(sel, id) || c.Contains(strings.TrimPrefix(sel, "*"), id))))
}

func gen_C14_addall(r *gv.Rand) (CallList, string, []string, string) {
	s, i := genC14Call(r)
	var l []string
	for k := r.Intn(4); k > 0; k-- {
		_, x := genC14Call(r)
		l = append(l, x)
	}
	return genC14List(r), s, l, i
}

// All calls of a package that are added together are in the list.
func verif_C14_addall(c CallList, selector string, idents []string, id string) {
	gv.Requires(c != nil && gv.AllKeys(c, func(k string) bool { return c[k] != nil }))
	gv.Requires(!spec_C14_has(c, selector, id) || c[selector][id])
	had := spec_C14_has(c, selector, id)
	gv.Inv(func(it int) bool {
		return gv.AllKeys(c, func(k string) bool { return c[k] != nil })
	})
	gv.Inv(func(it int) bool { return !spec_C14_has(c, selector, id) || c[selector][id] })
	gv.Inv(func(it int) bool {
		return spec_C14_has(c, selector, id) == (had || gv.Any(0, it, func(k int) bool { return idents[k] == id }))
	})
	gv.NoPanic()
	c.AddAll(selector, idents...)
	gv.Ensures("the calls that are added are in the list, and no others", c.Contains(selector, id) == (had || gv.Any(0, len(idents), func(k int) bool { return idents[k] == id })))
}

func gen_C14_import(r *gv.Rand) (*ImportTracker, *ast.ImportSpec, string, string) {
	t := NewImportTracker()
	for k := r.Intn(3); k > 0; k-- {
		p := gv.Pick(r, "os", "math/rand", "crypto/md5")
		t.Imported[p] = append(t.Imported[p], gv.Pick(r, "os", "rand", "x"))
	}
	i := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(gv.Pick(r, "os", "math/rand", "math/rand/v2", "crypto/md5", "v2", "a/v22", "a/b/vx"))}}
	if r.Intn(2) == 0 {
		i.Name = &ast.Ident{Name: gv.Pick(r, "_", ".", "x", "rand")}
	}
	return t, i, gv.Pick(r, "os", "math/rand", "math/rand/v2", "crypto/md5", "v2"), gv.Pick(r, "os", "rand", "x", "md5", "v2", "_", ".")
}

// the names of an import: its alias, or the last element of its path that is not a version
func spec_C14_name(path string) string {
	parts := strings.Split(path, "/")
	last := parts[len(parts)-1]
	if len(parts) > 1 && versioningPackagePattern.MatchString(last) {
		return parts[len(parts)-2]
	}
	return last
}

// An import makes its package known under its name or alias, and changes no other package.
func verif_C14_import(t *ImportTracker, imp *ast.ImportSpec, path, name string) {
	gv.Requires(t != nil && t.Imported != nil && imp != nil && imp.Path != nil)
	gv.Opaque(importName)
	old := gv.Snap(t.Imported[path])
	had := gv.Any(0, len(old), func(k int) bool { return old[k] == name })
	_, oldok := t.Imported[path]
	p := strings.Trim(imp.Path.Value, "\"`")
	gv.Requires(p == path || len(old) == 0 || !gv.SameArray(t.Imported[p], t.Imported[path]))
	want := importName(p)
	blank := false
	if imp.Name != nil {
		want = imp.Name.String()
		blank = imp.Name.Name == "_"
	}
	gv.NoPanic()
	t.TrackImport(imp)
	gv.MayPanic()
	names, ok := GetImportedNames(path, &Context{Imports: t})
	gv.Ensures("a package is known when it is imported by name", ok == (oldok || p == path && !blank))
	gv.Ensures("an import adds exactly its name to its package", gv.Any(0, len(names), func(k int) bool { return names[k] == name }) == (had || p == path && !blank && name == want))
	if gv.Native() {
		gv.Ensures("a package is called by the last element of its path that is no version", importName(p) == spec_C14_name(p))
	}
}

func gen_C14_file(r *gv.Rand) (*ast.File, string) {
	f := &ast.File{}
	for k := r.Intn(5); k > 0; k-- {
		_, i, _, _ := gen_C14_import(r)
		f.Imports = append(f.Imports, i)
	}
	return f, gv.Pick(r, "os", "math/rand", "math/rand/v2", "crypto/md5")
}

func spec_C14_imports(i *ast.ImportSpec, path string) bool {
	return strings.Trim(i.Path.Value, "\"`") == path && (i.Name == nil || i.Name.Name != "_")
}

// All imports of a file are known.
func verif_C14_file(f *ast.File, path string) {
	gv.Requires(f != nil && gv.All(0, len(f.Imports), func(k int) bool { return f.Imports[k] != nil && f.Imports[k].Path != nil }))
	t := NewImportTracker()
	gv.Opaque(importName)
	gv.Inv(func(it int) bool {
		return (len(t.Imported[path]) > 0) == gv.Any(0, it, func(k int) bool { return spec_C14_imports(f.Imports[k], path) })
	})
	gv.Inv(func(it int) bool {
		_, ok := t.Imported[path]
		return ok == (len(t.Imported[path]) > 0)
	})
	gv.NoPanic()
	t.TrackFile(f)
	gv.MayPanic()
	_, ok := GetImportedNames(path, &Context{Imports: t})
	gv.Ensures("a package is known exactly when the file imports it by name", ok == gv.Any(0, len(f.Imports), func(k int) bool { return spec_C14_imports(f.Imports[k], path) }))
}

func gen_C14_match(r *gv.Rand) (*ast.CallExpr, *Context, string, []string, string, string, bool) {
	t, _, p, n := gen_C14_import(r)
	s, i := n, gv.Pick(r, "Create", "New")
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: &ast.Ident{Name: s}, Sel: &ast.Ident{Name: i}}}, &Context{Imports: t}, p, []string{gv.Pick(r, "Create", "Sum"), "New"}[:r.Intn(3)], s, i, false
}

// A call is matched exactly when it calls one of the functions of the package by one of the package's names.
func verif_C14_match(call *ast.CallExpr, ctx *Context, pkg string, names []string, selector, ident string, unknown bool) {
	gv.Requires(ctx != nil && ctx.Imports != nil && call != nil)
	gv.Stub(GetCallInfo, func(n ast.Node, _ *Context) (string, string, error) {
		if unknown {
			return "", "", errors.New("unknown")
		}
		return selector, ident, nil
	})
	in := ctx.Imports.Imported[pkg]
	imported := func(k int) bool { return in[k] == selector }
	named := func(k int) bool { return names[k] == ident }
	gv.Inv(func(it int) bool {
		return gv.All(0, it, func(k int) bool { return !imported(k) || !gv.Any(0, len(names), named) })
	})
	gv.Inv(func(it int, callName string) bool { return gv.All(0, it, func(k int) bool { return names[k] != callName }) })
	gv.Mark()
	gv.NoPanic()
	got, ok := MatchCallByPackage(call, ctx, pkg, names...)
	gv.MayPanic()
	gv.Frame()
	want := !unknown && gv.Any(0, len(in), imported) && gv.Any(0, len(names), named)
	gv.Ensures("a call matches exactly when it calls a listed function by a name of the package", ok == want)
	gv.Ensures("the call that matches is returned", ok && got == call || !ok && got == nil)
	_, ok = MatchCallByPackage(&ast.Ident{}, ctx, pkg, names...)
	gv.Ensures("only calls match", !ok)
}

func gen_C14_path(r *gv.Rand) (*Context, string) {
	t, _, _, n := gen_C14_import(r)
	return &Context{Imports: t}, n
}

// The package of a name is one that is imported by that name.
func verif_C14_path(ctx *Context, name string) {
	gv.Requires(ctx != nil && ctx.Imports != nil)
	m := ctx.Imports.Imported
	by := func(p string) bool { return gv.Any(0, len(m[p]), func(k int) bool { return m[p][k] == name }) }
	gv.Inv(func(it int, visited func(string) bool) bool {
		return gv.AllKeys(m, func(p string) bool { return !visited(p) || !by(p) })
	})
	gv.Inv(func(it int, imported []string) bool {
		return gv.All(0, it, func(k int) bool { return imported[k] != name })
	})
	gv.Mark()
	gv.NoPanic()
	path, ok := GetImportPath(name, ctx)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("a package is found exactly when some package is imported by the name", ok == gv.AnyKey(m, by))
	gv.Ensures("the package that is found is imported by the name", !ok && path == "" || ok && by(path))
}

var _ = types.NewPackage
