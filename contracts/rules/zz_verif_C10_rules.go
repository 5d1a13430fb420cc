package rules

import (
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func spec_C10_known(id string) bool { w := issue.GetCweByRule(id); return w != nil && w.ID != "" }

func verif_C10_rules(track bool) {
	gv.Globals()
	gv.Inv(func(it int, m map[string]RuleDefinition) bool {
		return gv.AllKeys(m, func(k string) bool { return spec_C10_known(k) && m[k].ID == k })
	})
	rl := Generate(track)
	gv.Ensures("every rule has a weakness", gv.AllKeys(rl.Rules, func(k string) bool { return spec_C10_known(k) && rl.Rules[k].ID == k }))
}
