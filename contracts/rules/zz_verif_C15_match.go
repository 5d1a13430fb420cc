package rules

import (
	"go/ast"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

// specC15Calls makes n a call of function fn of package pkg (C14 proves that this is what the helpers find out).
func specC15Calls(n ast.Node, call *ast.CallExpr, ctx *gosec.Context, pkg, fn string) {
	gv.Stub(gosec.MatchCallByPackage, func(m ast.Node, c *gosec.Context, p string, names ...string) (*ast.CallExpr, bool) {
		gv.Ensures("the call at hand is looked at", m == n && c == ctx)
		for _, x := range names {
			if p == pkg && x == fn {
				return call, true
			}
		}
		return nil, false
	})
	gv.Stub(gosec.CallList.ContainsPkgCallExpr, func(l gosec.CallList, m ast.Node, c *gosec.Context, strip bool) *ast.CallExpr {
		gv.Ensures("the call at hand is looked at", m == n && c == ctx && !strip)
		if l.Contains(pkg, fn) {
			return call
		}
		return nil
	})
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		gv.Ensures("the finding is at the call", m == n && c == ctx)
		return &issue.Issue{RuleID: id, What: what, Severity: sev, Confidence: conf}
	})
}

func specC15Found(got *issue.Issue, err error, id string, want bool) {
	gv.Ensures("reported exactly when documented", (got != nil) == want && err == nil)
	gv.Ensures("reported under the rule", got == nil || got.RuleID == id)
}

const nonative_C15_unsafe = true

// NewUsingUnsafe: every call of these functions is reported, and no other.
func verif_C15_unsafe(pkg, fn, id string) {
	call := &ast.CallExpr{}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	r, nodes := NewUsingUnsafe(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, pkg == "unsafe" && (fn == "Pointer" || fn == "String" || fn == "StringData" || fn == "Slice" || fn == "SliceData"))
}

const nonative_C15_ssh = true

// NewSSHHostKey: every call of these functions is reported, and no other.
func verif_C15_ssh(pkg, fn, id string) {
	call := &ast.CallExpr{}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	r, nodes := NewSSHHostKey(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, pkg == "golang.org/x/crypto/ssh" && fn == "InsecureIgnoreHostKey")
}

const nonative_C15_serve = true

// NewHTTPServeWithoutTimeouts: every call of these functions is reported, and no other.
func verif_C15_serve(pkg, fn, id string) {
	call := &ast.CallExpr{}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	r, nodes := NewHTTPServeWithoutTimeouts(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, pkg == "net/http" && (fn == "ListenAndServe" || fn == "ListenAndServeTLS" || fn == "Serve" || fn == "ServeTLS"))
}

const nonative_C15_hash = true

// NewUsesWeakCryptographyHash: every call of these functions is reported, and no other.
func verif_C15_hash(pkg, fn, id string) {
	want := (pkg == "crypto/md5" || pkg == "crypto/sha1") && (fn == "New" || fn == "Sum")
	gv.Inv(func(it int, m map[string][]string, visited func(string) bool) bool { return !want || !visited(pkg) })
	gv.Inv(func(it int, p string, names []string) bool {
		return gv.All(0, it, func(k int) bool { return !(p == pkg && names[k] == fn) })
	})
	call := &ast.CallExpr{}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	r, nodes := NewUsesWeakCryptographyHash(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, want)
}

const nonative_C15_cipher = true

// NewUsesWeakCryptographyEncryption: every call of these functions is reported, and no other.
func verif_C15_cipher(pkg, fn, id string) {
	want := pkg == "crypto/des" && (fn == "NewCipher" || fn == "NewTripleDESCipher") || pkg == "crypto/rc4" && fn == "NewCipher"
	gv.Inv(func(it int, m map[string][]string, visited func(string) bool) bool { return !want || !visited(pkg) })
	gv.Inv(func(it int, p string, names []string) bool {
		return gv.All(0, it, func(k int) bool { return !(p == pkg && names[k] == fn) })
	})
	call := &ast.CallExpr{}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	r, nodes := NewUsesWeakCryptographyEncryption(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, want)
}

const nonative_C15_oldhash = true

// NewUsesWeakDeprecatedCryptographyHash: every call of these functions is reported, and no other.
func verif_C15_oldhash(pkg, fn, id string) {
	want := (pkg == "golang.org/x/crypto/md4" || pkg == "golang.org/x/crypto/ripemd160") && fn == "New"
	gv.Inv(func(it int, m map[string][]string, visited func(string) bool) bool { return !want || !visited(pkg) })
	gv.Inv(func(it int, p string, names []string) bool {
		return gv.All(0, it, func(k int) bool { return !(p == pkg && names[k] == fn) })
	})
	call := &ast.CallExpr{}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	r, nodes := NewUsesWeakDeprecatedCryptographyHash(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, want)
}

const nonative_C15_rand = true

// NewWeakRandCheck: every call of these functions is reported, and no other.
func verif_C15_rand(pkg, fn, id string) {
	want := (pkg == "math/rand" || pkg == "math/rand/v2") && (fn == "New" || fn == "Float32" || fn == "Float64" || fn == "Int" || fn == "NormFloat64" || fn == "Uint32" || fn == "Uint64") ||
		pkg == "math/rand" && (fn == "Read" || fn == "Int31" || fn == "Int31n" || fn == "Int63" || fn == "Int63n" || fn == "Intn") ||
		pkg == "math/rand/v2" && (fn == "Int32" || fn == "Int32N" || fn == "Int64" || fn == "Int64N" || fn == "IntN" || fn == "N" || fn == "Uint32N" || fn == "Uint64N" || fn == "UintN")
	gv.Inv(func(it int, m map[string][]string, visited func(string) bool) bool { return !want || !visited(pkg) })
	gv.Inv(func(it int, p string, names []string) bool {
		return gv.All(0, it, func(k int) bool { return !(p == pkg && names[k] == fn) })
	})
	call := &ast.CallExpr{}
	ctx := &gosec.Context{}
	specC15Calls(call, call, ctx, pkg, fn)
	r, nodes := NewWeakRandCheck(id, nil)
	_, isCall := nodes[0].(*ast.CallExpr)
	gv.Ensures("calls are looked at", len(nodes) == 1 && isCall && r.ID() == id)
	got, err := r.Match(call, ctx)
	specC15Found(got, err, id, want)
}

