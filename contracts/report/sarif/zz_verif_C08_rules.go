package sarif

import (
	"github.com/securego/gosec/v2/internal/gv"
)

// sorted by identifier, without duplicates
func spec_C08_sorted(rules []*ReportingDescriptor) bool {
	return gv.All(0, len(rules), func(i int) bool {
		return gv.All(0, len(rules), func(j int) bool { return i >= j || rules[i].ID < rules[j].ID })
	})
}

func gen_C08_addRuleInOrder(r *gv.Rand) ([]*ReportingDescriptor, *ReportingDescriptor) {
	ids := []string{"G101", "G102", "G201", "G304", "G401", "G602"}
	rules := make([]*ReportingDescriptor, 0, r.Intn(8))
	for _, id := range ids {
		if r.Intn(2) == 0 {
			rules = append(rules, &ReportingDescriptor{ID: id})
		}
	}
	return rules, &ReportingDescriptor{ID: gv.Pick(r, "G101", "G102", "G103", "G201", "G304", "G401", "G602", "G700", "A")}
}

func verif_C08_addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) {
	gv.Requires(rule != nil)
	gv.Requires(gv.All(0, len(rules), func(i int) bool { return rules[i] != nil }))
	gv.Requires(spec_C08_sorted(rules))
	old := gv.Snap(rules)
	gv.Mark()
	gv.NoPanic()
	gv.Inv(func(it int) bool {
		return gv.All(0, it, func(k int) bool { return old[k].ID < rule.ID })
	})
	gv.Modifies(rules)
	res, pos := addRuleInOrder(rules, rule)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("the rules live in the given array or a new one", gv.Fresh(res) || gv.SameArray(res, rules))
	gv.Ensures("the index is valid and is that of the rule", pos >= 0 && pos < len(res) && res[pos] != nil && res[pos].ID == rule.ID)
	gv.Ensures("at most one rule is added", len(res) == len(old) || len(res) == len(old)+1)
	gv.Ensures("the rules before it stay", gv.All(0, pos, func(k int) bool { return k < len(old) && res[k] == old[k] }))
	gv.Ensures("the rules from it on shift when it is added", len(res) == len(old) || res[pos] == rule && gv.All(pos, len(old), func(k int) bool { return res[k+1] == old[k] }))
	gv.Ensures("nothing changes when it is listed already", len(res) != len(old) || gv.All(0, len(old), func(k int) bool { return res[k] == old[k] }))
	gv.Ensures("every rule listed before stays listed", gv.All(0, len(old), func(k int) bool {
		return res[k] == old[k] || k+1 < len(res) && res[k+1] == old[k]
	}))
	gv.Ensures("no rule is nil", gv.All(0, len(res), func(k int) bool { return res[k] != nil }))
	gv.Ensures("the rules stay sorted and distinct", spec_C08_sorted(res))
}
