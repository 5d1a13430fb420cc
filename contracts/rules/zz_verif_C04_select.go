package rules

import (
	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C04_select(r *gv.Rand) (bool, []string, []string, string) {
	ids := []string{"G101", "G102", "G103", "G401", "G501", "G601", "G307", "G999", ""}
	pick := func() []string {
		var l []string
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, ids[r.Intn(len(ids))])
		}
		return l
	}
	if r.Intn(3) > 0 {
		ids = []string{"G101", "G102", "G103", "G104", "G106", "G107", "G108", "G109", "G110", "G111", "G112", "G114",
			"G201", "G202", "G203", "G204", "G301", "G302", "G303", "G304", "G305", "G306", "G307",
			"G401", "G402", "G403", "G404", "G405", "G406", "G501", "G502", "G503", "G504", "G505", "G506", "G507", "G601", "G105", "G113", "G115", "G602"}
	}
	return r.Intn(2) == 0, pick(), pick(), ids[r.Intn(len(ids))]
}

func spec_C04_in(id string, ids []string) bool {
	return gv.Any(0, len(ids), func(k int) bool { return ids[k] == id })
}

func gen_C04_filter(r *gv.Rand) (bool, []string, string) {
	a, b, _, d := gen_C04_select(r)
	return a, b, d
}

func verif_C04_filter(action bool, ids []string, id string) {
	gv.Inv(func(it int, m map[string]bool) bool {
		_, has := m[id]
		return has == gv.Any(0, it, func(k int) bool { return ids[k] == id })
	})
	f := NewRuleFilter(action, ids...)
	gv.Ensures("a filter acts on exactly the listed rules", f(id) == (spec_C04_in(id, ids) == action))
}

// The filters of an inclusion and an exclusion list.
func verif_C04_select(track bool, include, exclude []string, id string) {
	gv.Inv(func(it int, m map[string]bool, ids []string) bool {
		_, has := m[id]
		return has == gv.Any(0, it, func(k int) bool { return ids[k] == id })
	})
	rl := Generate(track, NewRuleFilter(false, include...), NewRuleFilter(true, exclude...))
	def, has := rl.Rules[id]
	sup, listed := rl.RuleSuppressed[id]
	out := !spec_C04_in(id, include) || spec_C04_in(id, exclude)
	gv.Ensures("exactly the documented rules are listed", listed == spec_C04_documented(id))
	gv.Ensures("a rule is suppressed when it is excluded or not included", !listed || sup == out)
	gv.Ensures("a rule is loaded unless it is suppressed without tracking", has == (listed && (track || !out)))
	gv.Ensures("a rule is loaded under its identifier", !has || def.ID == id && def.Create != nil)
}

// Any two filters.
func gen_C04_filters(r *gv.Rand) (bool, map[string]bool, map[string]bool, string) {
	t, a, b, id := gen_C04_select(r)
	m1, m2 := map[string]bool{}, map[string]bool{}
	for _, k := range a {
		m1[k] = true
	}
	for _, k := range b {
		m2[k] = true
	}
	return t, m1, m2, id
}

func verif_C04_filters(track bool, m1, m2 map[string]bool, id string) {
	f1 := func(id string) bool { return m1[id] }
	rl := Generate(track, f1)
	_, has := rl.Rules[id]
	sup, listed := rl.RuleSuppressed[id]
	gv.Ensures("one filter decides alone", listed == spec_C04_documented(id) && (!listed || sup == m1[id]) && has == (listed && (track || !m1[id])))
	rl = Generate(track, f1, func(id string) bool { return m2[id] })
	_, has = rl.Rules[id]
	sup, listed = rl.RuleSuppressed[id]
	out := m1[id] || m2[id]
	gv.Ensures("a rule is suppressed when any filter matches it", !listed || sup == out)
	gv.Ensures("a rule is loaded unless it is suppressed without tracking", has == (listed && (track || !out)))
}

func gen_C04_default(r *gv.Rand) (bool, string) {
	t, _, _, id := gen_C04_select(r)
	return t, id
}

func verif_C04_default(track bool, id string) {
	rl := Generate(track)
	_, has := rl.Rules[id]
	gv.Ensures("without options every documented rule is loaded and none is suppressed", has == spec_C04_documented(id) && !rl.RuleSuppressed[id])
	builders, suppressed := rl.RulesInfo()
	s, ok := suppressed[id]
	gv.Ensures("the suppressed rules are passed on", ok == spec_C04_documented(id) && !s)
	if gv.Native() {
		b, ok := builders[id]
		gv.Ensures("every loaded rule has its builder", ok == has && (!ok || b != nil))
		if ok {
			rule, nodes := b(id, nil)
			gv.Ensures("a rule reports under its identifier and is run on some nodes", rule != nil && rule.ID() == id && len(nodes) > 0)
		}
	}
}

// the rules listed in README.md
func spec_C04_documented(id string) bool {
	switch id {
	case "G101", "G102", "G103", "G104", "G106", "G107", "G108", "G109", "G110", "G111", "G112", "G114",
		"G201", "G202", "G203", "G204", "G301", "G302", "G303", "G304", "G305", "G306", "G307",
		"G401", "G402", "G403", "G404", "G405", "G406", "G501", "G502", "G503", "G504", "G505", "G506", "G507", "G601":
		return true
	}
	return false
}
