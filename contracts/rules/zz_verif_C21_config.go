package rules

import (
	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
)

// Settings of any shape: no setting, one of another type, members of any type.

func verif_C21_credentials(id string, conf gosec.Config) {
	gv.Requires(conf != nil)
	gv.NoPanic()
	r, nodes := NewHardcodedCredentials(id, conf)
	c, ok := r.(*credentials)
	gv.Ensures("there is a rule", ok && c != nil && len(nodes) > 0)
	gv.Ensures("a text can be cut to the setting", c.truncate >= 0)
	gv.Ensures("there is a pattern", c.pattern != nil)
}

func verif_C21_truncate(s string, n int) {
	gv.Strings()
	gv.Requires(n >= 0)
	gv.NoPanic()
	t := truncate(s, n)
	gv.Ensures("no more than asked for is left", len(t) <= n)
	gv.Ensures("a short text is left alone", gv.Implies(len(s) <= n, t == s))
	gv.Ensures("it is the beginning", t == s[:len(t)])
}

func verif_C21_traversal(id string, conf gosec.Config) {
	gv.Requires(conf != nil)
	gv.NoPanic()
	r, nodes := NewDirectoryTraversal(id, conf)
	t, ok := r.(*traversal)
	gv.Ensures("there is a rule", ok && t != nil && t.pattern != nil && len(nodes) > 0)
}

func verif_C21_modes(id string, conf gosec.Config, def int64) {
	gv.Requires(conf != nil)
	gv.NoPanic()
	m := getConfiguredMode(conf, id, def)
	v, ok := conf[id]
	_, isInt := v.(int64)
	_, isStr := v.(string)
	gv.Ensures("settings of another type are ignored", gv.Implies(!ok || !isInt && !isStr, m == def))
}

func verif_C21_errors(id string, conf gosec.Config) {
	gv.Requires(conf != nil)
	gv.NoPanic()
	gv.Inv(func(it int, out []string) bool { return len(out) <= it })
	gv.Inv(func(it int, list gosec.CallList) bool { return list != nil })
	gv.Inv(func(it int, list gosec.CallList) bool { return gv.AllKeys(list, func(k string) bool { return list[k] != nil }) })
	r, nodes := NewNoErrorCheck(id, conf)
	e, ok := r.(*noErrorCheck)
	gv.Ensures("there is a rule", ok && e != nil && e.whitelist != nil && len(nodes) > 0)
}

func verif_C21_strings(values []any) {
	gv.NoPanic()
	gv.Inv(func(it int, out []string) bool { return len(out) <= it })
	got := toStringSlice(values)
	gv.Ensures("no more texts than members", len(got) <= len(values))
}
