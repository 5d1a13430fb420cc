package gosec

import (
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C20_variant(r *gv.Rand) (*packages.Package, []*packages.Package) {
	var l []*packages.Package
	for k := 1 + r.Intn(4); k > 0; k-- {
		p := gv.Pick(r, "p", "q", "p_test", "p.test")
		l = append(l, &packages.Package{PkgPath: p, ID: p + gv.Pick(r, "", " [p.test]", " [q.test]")})
	}
	return l[r.Intn(len(l))], l
}

// A package is left out exactly when its variant with tests, which has the same files, is there.
func verif_C20_variant(pkg *packages.Package, pkgs []*packages.Package) {
	gv.Requires(pkg != nil && gv.All(0, len(pkgs), func(k int) bool { return pkgs[k] != nil }))
	is := func(k int) bool {
		return pkgs[k].PkgPath == pkg.PkgPath && strings.HasPrefix(pkgs[k].ID, pkg.ID+" [")
	}
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return !is(k) }) })
	gv.NoPanic()
	gv.Mark()
	got := hasTestVariant(pkg, pkgs)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("a package is left out exactly when its variant with tests is searched", got == gv.Any(0, len(pkgs), is))
	if gv.Native() {
		gv.Ensures("the variant with tests is not left out", !got || !strings.Contains(pkg.ID, "["))
	}
}
