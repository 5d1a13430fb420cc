package rules

import (
	"crypto/tls"
	"errors"
	"fmt"
	"go/ast"
	"go/types"
	"slices"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

//gv:uses C15

const specC16Table = `
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12}
_ = &{crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS13, ServerName: s}
_ = &{crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS11} //!
_ = &{crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS10} //!
_ = {crypto/tls}.Config{} //!
_ = {crypto/tls}.Config{ServerName: s} //!
_ = {crypto/tls}.Config{MinVersion: 0x0303}
_ = {crypto/tls}.Config{MinVersion: 771}
_ = {crypto/tls}.Config{MinVersion: 770} //!
_ = {crypto/tls}.Config{MaxVersion: {crypto/tls}.VersionTLS13} //!
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, MaxVersion: {crypto/tls}.VersionTLS13}
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, MaxVersion: {crypto/tls}.VersionTLS12} //!
_ = {crypto/tls}.Config{MaxVersion: 0x0304, MinVersion: 0x0304}
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS13, MaxVersion: {crypto/tls}.VersionTLS10} //!
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, MaxVersion: 0}

_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, InsecureSkipVerify: true} //!
_ = {crypto/tls}.Config{InsecureSkipVerify: true, MinVersion: {crypto/tls}.VersionTLS12} //!
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, InsecureSkipVerify: false}
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, InsecureSkipVerify: n > 1} //!
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, PreferServerCipherSuites: true}
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, PreferServerCipherSuites: false} //!
_ = {crypto/tls}.Config{}  //!

_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, CipherSuites: []uint16{{crypto/tls}.TLS_RSA_WITH_RC4_128_SHA}} //!
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, CipherSuites: []uint16{{crypto/tls}.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}}
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, CipherSuites: []uint16{{crypto/tls}.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, {crypto/tls}.TLS_RSA_WITH_RC4_128_SHA}} //!
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, CipherSuites: []uint16{}}
_ = {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12, CipherSuites: nil}

c := {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12}
c.InsecureSkipVerify = true //!
c.InsecureSkipVerify = false
c.PreferServerCipherSuites = false //!
c.ServerName = s

c := {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS12}
c.MinVersion = {crypto/tls}.VersionTLS13
d := {crypto/tls}.Config{ServerName: s} //!
_ = d

c := {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS13}
c.MaxVersion = {crypto/tls}.VersionTLS10
d := {crypto/tls}.Config{MinVersion: {crypto/tls}.VersionTLS13}
_ = d

var c {crypto/tls}.Config
c.CipherSuites = []uint16{{crypto/tls}.TLS_RSA_WITH_RC4_128_SHA} //!
c.CipherSuites = []uint16{{crypto/tls}.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384}

_ = []{crypto/tls}.Config{{MinVersion: 0x0303}}

@
const minVersion# = {crypto/tls}.VersionTLS12
var lowVersion# = {crypto/tls}.VersionTLS11
const number# = 0x0304
var _ = {crypto/tls}.Config{MinVersion: minVersion#}
var _ = {crypto/tls}.Config{MinVersion: lowVersion#} //!
var _ = {crypto/tls}.Config{MinVersion: number#}

@
type versions# struct{ min uint16 }
var some# struct{ v versions# }
var deep# = some#.v.min
var _ = {crypto/tls}.Config{MinVersion: deep#} //!

@
type Config# struct { InsecureSkipVerify bool; MinVersion uint16 }
var _ = Config#{InsecureSkipVerify: true}
func g#(c Config#) {
	c.InsecureSkipVerify = true
}
`

func gen_C16_configs(r *gv.Rand) []string {
	blocks := specC15Blocks(specC16Table)
	var mixed []string
	for k, b := range blocks {
		mixed = append(mixed, b)
		if k < 3 {
			mixed = append(mixed, slices.Collect(func(yield func(string) bool) {
				for _, l := range splitLines(b) {
					if !yield(l) {
						return
					}
				}
			})...)
		}
	}
	srcs := []string{specC15Write(r, mixed, 0)}
	for r.Intn(4) == 0 {
		srcs = append(srcs, specC15Write(r, mixed, len(srcs)))
	}
	return srcs
}

const budget_C16_configs = 12

// bounded: packages made of the examples above, under any import names and in any order.
func verif_C16_configs(srcs []string) {
	if !gv.Native() {
		gv.Ensures("files are searched", len(srcs) >= 0)
		return
	}
	got, want := specC15Run("G402", gosec.NewConfig(), srcs...), specC15Want(srcs...)
	gv.Ensures(fmt.Sprintf("exactly the marked lines are reported (%v instead of %v)", got, want), slices.Equal(got, want))
}

func specC16Issues(n ast.Node) {
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		gv.Ensures("the finding is at the setting", m == n)
		return &issue.Issue{RuleID: id, What: what, Severity: sev, Confidence: conf}
	})
}

const nonative_C16_version = true

// A configuration is reported exactly when its lowest version is too low or a highest version is set and too low.
func verif_C16_version(lit *ast.CompositeLit, lo, hi, min, max int64) {
	gv.Requires(lit != nil && min >= 0 && max >= 0)
	ctx := &gosec.Context{}
	specC16Issues(lit)
	t := &insecureConfigTLS{MinVersion: lo, MaxVersion: hi, actualMinVersion: min, actualMaxVersion: max}
	gv.NoPanic()
	got := t.checkVersion(lit, ctx)
	gv.Ensures("reported exactly when a version is too low", (got != nil) == (min < lo || max != 0 && max < hi))
}

const nonative_C16_map = true

func verif_C16_map(name string) {
	v := (&insecureConfigTLS{}).mapVersion(name)
	gv.Ensures("the names of the versions", v == tls.VersionTLS13 == (name == "VersionTLS13") && v == tls.VersionTLS12 == (name == "VersionTLS12") &&
		v == tls.VersionTLS11 == (name == "VersionTLS11") && v == tls.VersionTLS10 == (name == "VersionTLS10"))
	gv.Ensures("other names are no version", v == 0 || v == tls.VersionTLS13 || v == tls.VersionTLS12 || v == tls.VersionTLS11 || v == tls.VersionTLS10)
}

const nonative_C16_switch = true

// The switches: a check that is turned off, or may be, is reported; the others are not.
func verif_C16_switch(field, text, id string, named bool, value *ast.Ident, other *ast.CallExpr, min, max int64) {
	gv.Requires(value != nil && other != nil)
	gv.Requires(field != "MinVersion" && field != "MaxVersion" && field != "CipherSuites")
	ctx := &gosec.Context{}
	t := &insecureConfigTLS{MetaData: issue.MetaData{ID: id}, actualMinVersion: min, actualMaxVersion: max}
	var e ast.Expr = other
	if named {
		e = value
	}
	specC16Issues(e)
	gv.NoPanic()
	got := t.processTLSConfVal(&ast.Ident{Name: field}, e, ctx)
	off := field == "InsecureSkipVerify" && (!named || value.Name != "false") || field == "PreferServerCipherSuites" && (!named || value.Name == "false")
	gv.Ensures("reported exactly when a check is or may be off", (got != nil) == off && (got == nil || got.RuleID == id))
	gv.Ensures("the versions stay", t.actualMinVersion == min && t.actualMaxVersion == max)
	gv.Ensures("only a named field is a setting", t.processTLSConfVal(&ast.CallExpr{}, e, ctx) == nil)
}

const nonative_C16_setting = true

// The versions: a number is taken as it is, a version of crypto/tls by its name, whatever the import is called.
func verif_C16_setting(key *ast.KeyValueExpr, sel *ast.SelectorExpr, lit *ast.BasicLit, pkg *ast.Ident, path, id string, number int64, isMin, literal, imported, numeric bool, min, max int64) {
	gv.Requires(sel != nil && lit != nil && pkg != nil && sel.Sel != nil)
	ctx := &gosec.Context{}
	sel.X = pkg
	t := &insecureConfigTLS{MetaData: issue.MetaData{ID: id}, actualMinVersion: min, actualMaxVersion: max}
	var e ast.Expr = sel
	if literal {
		e = lit
	}
	gv.Stub(gosec.GetInt, func(n ast.Node) (int64, error) {
		gv.Ensures("the value is looked at", n == ast.Node(e))
		if literal && numeric {
			return number, nil
		}
		return 0, errors.New("not a number")
	})
	gv.Stub(gosec.GetImportPath, func(name string, c *gosec.Context) (string, bool) {
		gv.Ensures("the package is looked up", name == pkg.Name && c == ctx)
		return path, imported
	})
	specC16Issues(e)
	field := "MaxVersion"
	if isMin {
		field = "MinVersion"
	}
	gv.NoPanic()
	got := t.processTLSConfVal(&ast.Ident{Name: field}, e, ctx)
	gv.Ensures("a version is not reported before all settings are known", got == nil)
	want := min
	if !isMin {
		want = max
	}
	if literal && numeric {
		want = number
	} else if !literal && imported && path == "crypto/tls" {
		want = t.mapVersion(sel.Sel.Name)
	}
	if isMin {
		gv.Ensures("the version is the one set", t.actualMinVersion == want && t.actualMaxVersion == max)
	} else {
		gv.Ensures("the version is the one set", t.actualMaxVersion == want && t.actualMinVersion == min)
	}
}

const nonative_C16_ciphers = true

// The cipher suites: reported exactly when one is not on the list.
func verif_C16_ciphers(elts []ast.Expr, good []string, id string) {
	gv.Requires(gv.All(0, len(elts), func(k int) bool {
		s, ok := elts[k].(*ast.SelectorExpr)
		return !ok || s != nil && s.Sel != nil
	}))
	ctx := &gosec.Context{}
	t := &insecureConfigTLS{MetaData: issue.MetaData{ID: id}, goodCiphers: good}
	gv.Stub((*gosec.Context).NewIssue, func(c *gosec.Context, m ast.Node, id, what string, sev, conf issue.Score) *issue.Issue {
		return &issue.Issue{RuleID: id, What: what, Severity: sev, Confidence: conf}
	})
	gv.Stub(stringInSlice, func(a string, list []string) bool { return a == "good" })
	bad := func(e ast.Expr) bool {
		s, ok := e.(*ast.SelectorExpr)
		return ok && s.Sel.Name != "good"
	}
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return !bad(elts[k]) }) })
	gv.NoPanic()
	got := t.processTLSCipherSuites(&ast.CompositeLit{Elts: elts}, ctx)
	gv.Ensures("reported exactly when a suite is not on the list", (got != nil) == gv.Any(0, len(elts), func(k int) bool { return bad(elts[k]) }))
	gv.Ensures("reported under the rule", got == nil || got.RuleID == id)
}

func verif_C16_member(a string, list []string) {
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return list[k] != a }) })
	gv.NoPanic()
	gv.Ensures("on the list", stringInSlice(a, list) == gv.Any(0, len(list), func(k int) bool { return list[k] == a }))
}

const nonative_C16_match = true

// Each configuration is judged by its own settings alone.
func verif_C16_match(elts []ast.Expr, typ ast.Expr, text, id string, leftMin, leftMax, min, max int64, known, low bool, bad int) {
	gv.Requires(typ != nil && bad >= -1 && bad < len(elts))
	ctx := &gosec.Context{Info: &types.Info{}}
	lit := &ast.CompositeLit{Type: typ, Elts: elts}
	found, version := &issue.Issue{}, &issue.Issue{}
	t := &insecureConfigTLS{MetaData: issue.MetaData{ID: id}, requiredType: "crypto/tls.Config", actualMinVersion: leftMin, actualMaxVersion: leftMax}
	named := &types.Named{}
	gv.Stub((*types.Info).TypeOf, func(i *types.Info, e ast.Expr) types.Type {
		if known && e == typ {
			return named
		}
		return nil
	})
	gv.Stub((*types.Named).String, func(n *types.Named) string { return text })
	seen := 0
	gv.Stub((*insecureConfigTLS).processTLSConf, func(r *insecureConfigTLS, n ast.Node, c *gosec.Context) *issue.Issue {
		gv.Ensures("nothing is known before the first setting", seen > 0 || r.actualMinVersion == 0 && r.actualMaxVersion == 0)
		gv.Ensures("every setting is looked at in turn", r == t && c == ctx && n == ast.Node(elts[seen]))
		seen++
		if seen-1 == bad {
			return found
		}
		return nil
	})
	gv.Stub((*insecureConfigTLS).checkVersion, func(r *insecureConfigTLS, n ast.Node, c *gosec.Context) *issue.Issue {
		gv.Ensures("the versions are judged when all settings are known", r == t && c == ctx && n == ast.Node(lit) && seen == len(elts))
		gv.Ensures("no setting leaves nothing known", len(elts) > 0 || r.actualMinVersion == 0 && r.actualMaxVersion == 0)
		if low {
			return version
		}
		return nil
	})
	gv.Inv(func(it int) bool { return seen == it && (bad < 0 || it <= bad) })
	gv.NoPanic()
	got, err := t.Match(lit, ctx)
	gv.Ensures("no error", err == nil)
	if !known || text != "crypto/tls.Config" {
		gv.Ensures("other types are not looked at", got == nil)
	} else if bad >= 0 {
		gv.Ensures("the first bad setting is reported", got == found)
	} else {
		gv.Ensures("the versions are reported", got == version == low && (got == nil) == !low)
	}
}

const nonative_C16_profile = true

// The profile of the rule: versions, cipher suites and nodes.
func verif_C16_profile(id string, conf gosec.Config) {
	gv.NoPanic()
	rule, nodes := NewIntermediateTLSCheck(id, conf)
	t, ok := rule.(*insecureConfigTLS)
	gv.Ensures("the rule is the one for configurations", ok && t.MetaData.ID == id && t.requiredType == "crypto/tls.Config")
	gv.Ensures("versions from 1.2 and up to 1.3", t.MinVersion == tls.VersionTLS12 && t.MaxVersion == tls.VersionTLS13 && t.actualMinVersion == 0 && t.actualMaxVersion == 0)
	good := []string{
		"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256",
		"TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256", "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256", "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384", "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384",
		"TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305", "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256",
		"TLS_DHE_RSA_WITH_AES_128_GCM_SHA256", "TLS_DHE_RSA_WITH_AES_256_GCM_SHA384",
	}
	gv.Ensures("the cipher suites with forward secrecy and authenticated encryption", len(t.goodCiphers) == len(good) && gv.All(0, len(good), func(k int) bool {
		return gv.Any(0, len(t.goodCiphers), func(j int) bool { return t.goodCiphers[j] == good[k] })
	}))
	_, lit := nodes[0].(*ast.CompositeLit)
	_, assign := nodes[1].(*ast.AssignStmt)
	gv.Ensures("literals and assignments are looked at", len(nodes) == 2 && lit && assign)
}

const nonative_C16_assign = true

// Assignments to a field of a configuration are settings of their own; the versions alone are not judged.
func verif_C16_assign(assign *ast.AssignStmt, sel *ast.SelectorExpr, text, id string, known, bad bool) {
	gv.Requires(assign != nil && sel != nil)
	ctx := &gosec.Context{Info: &types.Info{}}
	found := &issue.Issue{}
	t := &insecureConfigTLS{MetaData: issue.MetaData{ID: id}, requiredType: "crypto/tls.Config"}
	named := &types.Named{}
	field := len(assign.Lhs) > 0 && assign.Lhs[0] == ast.Expr(sel)
	other := len(assign.Lhs) == 0
	if len(assign.Lhs) > 0 && !field {
		_, s := assign.Lhs[0].(*ast.SelectorExpr)
		other = !s
	}
	gv.Requires(field || other)
	gv.Stub((*types.Info).TypeOf, func(i *types.Info, e ast.Expr) types.Type {
		gv.Ensures("the type is that of what has the field", e == sel.X)
		if known {
			return named
		}
		return nil
	})
	gv.Stub((*types.Named).String, func(n *types.Named) string { return text })
	seen := 0
	gv.Stub((*insecureConfigTLS).processTLSConf, func(r *insecureConfigTLS, n ast.Node, c *gosec.Context) *issue.Issue {
		gv.Ensures("the assignment is looked at", r == t && c == ctx && n == ast.Node(assign))
		seen++
		if bad {
			return found
		}
		return nil
	})
	gv.NoPanic()
	got, err := t.Match(assign, ctx)
	mine := field && known && text == "crypto/tls.Config"
	gv.Ensures("exactly assignments to fields of configurations are looked at", err == nil && (seen == 1) == mine && seen <= 1)
	gv.Ensures("a bad setting is reported", (got == found) == (mine && bad) && (got == nil) == !(mine && bad))
}

const nonative_C16_conf = true

// A setting is a keyed element, or an assignment to a field; only the first operand of an assignment is looked at.
func verif_C16_conf(kv *ast.KeyValueExpr, assign *ast.AssignStmt, sel *ast.SelectorExpr, lit *ast.BasicLit, keyed, assigned, bad bool) {
	gv.Requires(kv != nil && assign != nil && sel != nil && lit != nil)
	ctx := &gosec.Context{}
	found := &issue.Issue{}
	t := &insecureConfigTLS{}
	field := len(assign.Lhs) > 0 && assign.Lhs[0] == ast.Expr(sel)
	other := len(assign.Lhs) == 0
	if len(assign.Lhs) > 0 && !field {
		_, s := assign.Lhs[0].(*ast.SelectorExpr)
		other = !s
	}
	gv.Requires(field || other)
	key, value := kv.Key, kv.Value
	var n ast.Node = lit
	if keyed {
		n = kv
	} else if assigned {
		n = assign
		if field {
			key = sel.Sel
		}
		if len(assign.Rhs) > 0 {
			value = assign.Rhs[0]
		}
	}
	seen := 0
	gv.Stub((*insecureConfigTLS).processTLSConfVal, func(r *insecureConfigTLS, k, v ast.Expr, c *gosec.Context) *issue.Issue {
		gv.Ensures("the field and its value are looked at", r == t && c == ctx && k == key && v == value)
		seen++
		if bad {
			return found
		}
		return nil
	})
	gv.NoPanic()
	got := t.processTLSConf(n, ctx)
	mine := keyed || assigned && field && len(assign.Rhs) > 0
	gv.Ensures("exactly settings are looked at", (seen == 1) == mine && seen <= 1)
	gv.Ensures("a bad setting is reported", (got == found) == (mine && bad) && (got == nil) == !(mine && bad))
}
