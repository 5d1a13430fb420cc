package sarif

import (
	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C08_generateReport(r *gv.Rand) ([]string, *gosec.ReportInfo) {
	d := &gosec.ReportInfo{}
	ids := []string{"G101", "G102", "G201", "G304", "G401", "G602", "X1", "G307"}
	for n := r.Intn(8); n > 0; n-- {
		id := ids[r.Intn(len(ids))]
		i := &issue.Issue{File: gv.Pick(r, "/a/b.go", "/a/c/d.go", "/x.go"), Line: gv.Pick(r, "1", "2-3", "7"), Col: "4", RuleID: id, Cwe: issue.GetCweByRule(id), Severity: issue.Score(r.Intn(4)), Confidence: issue.Score(r.Intn(4)), What: r.Str()}
		if r.Intn(4) == 0 {
			i.Suppressions = make([]issue.SuppressionInfo, r.Intn(3))
		}
		d.Issues = append(d.Issues, i)
	}
	return []string{gv.Pick(r, "/a", "/b")}, d
}

func verif_C08_parseSarifLocation(i *issue.Issue, rootPaths []string) {
	gv.Requires(i != nil)
	gv.Mark()
	gv.NoPanic()
	loc, err := parseSarifLocation(i, rootPaths)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("a location or an error", loc != nil || err != nil)
}

func verif_C08_parseSarifRule(i *issue.Issue) {
	gv.Requires(i != nil)
	gv.Opaque(uuid3)
	gv.Opaque(issue.GetCweByRule)
	gv.Mark()
	gv.NoPanic()
	rule := parseSarifRule(i)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("the rule has the identifier of the issue's rule", rule != nil && gv.Fresh(rule) && rule.ID == i.RuleID)
	if i.Cwe == nil {
		gv.Ensures("a rule without weakness has no relationship", len(rule.Relationships) == 0)
	} else {
		gv.Ensures("the rule refers to the weakness of the issue", len(rule.Relationships) == 1 && rule.Relationships[0] != nil &&
			rule.Relationships[0].Target != nil && rule.Relationships[0].Target.ID == i.Cwe.ID &&
			rule.Relationships[0].Target.GUID == uuid3(i.Cwe.SprintID()))
	}
}

func verif_C08_buildSarifSuppressions(suppressions []issue.SuppressionInfo) {
	in := gv.Snap(suppressions)
	gv.Mark()
	gv.NoPanic()
	gv.Inv(func(it int, l []*Suppression) bool {
		return len(l) == it && gv.All(0, it, func(k int) bool {
			return l[k] != nil && l[k].Kind == in[k].Kind && l[k].Justification == in[k].Justification
		})
	})
	res := buildSarifSuppressions(suppressions)
	gv.MayPanic()
	gv.Frame()
	gv.Ensures("every suppression is listed in order", len(res) == len(in) && gv.All(0, len(in), func(k int) bool {
		return res[k] != nil && res[k].Kind == in[k].Kind && res[k].Justification == in[k].Justification
	}))
}

func verif_C08_generateReport(rootPaths []string, data *gosec.ReportInfo) {
	gv.Opaque(uuid3)
	gv.Opaque(cwe.Get)
	gv.Requires(data != nil)
	gv.Requires(gv.All(0, len(data.Issues), func(i int) bool {
		return data.Issues[i] != nil && (data.Issues[i].Cwe == nil || cwe.Get(data.Issues[i].Cwe.ID) != nil)
	}))
	gv.UseContract(addRuleInOrder, verif_C08_addRuleInOrder)
	gv.UseContract(parseSarifLocation, verif_C08_parseSarifLocation)
	gv.UseContract(parseSarifRule, verif_C08_parseSarifRule)
	gv.UseContract(buildSarifSuppressions, verif_C08_buildSarifSuppressions)
	in := gv.Snap(data.Issues)
	gv.Inv(func(it int, rules []*ReportingDescriptor) bool {
		return gv.All(0, len(rules), func(k int) bool { return rules[k] != nil }) &&
			spec_C08_sorted(rules)
	})
	gv.Inv(func(it int, rules []*ReportingDescriptor) bool {
		return gv.All(0, it, func(k int) bool {
			return gv.Any(0, len(rules), func(j int) bool { return rules[j].ID == in[k].RuleID })
		})
	})
	gv.Inv(func(it int, results []*Result) bool {
		return len(results) == it && gv.All(0, it, func(k int) bool { return results[k] != nil && results[k].RuleID == in[k].RuleID })
	})
	gv.Inv(func(it int, m map[string]int, rules []*ReportingDescriptor) bool {
		return gv.All(0, it, func(k int) bool {
			i, has := m[rules[k].ID]
			return has && i == k
		})
	})
	gv.Inv(func(it int, m map[string]int, results []*Result) bool {
		return gv.All(0, it, func(k int) bool { return results[k].RuleIndex == m[results[k].RuleID] })
	})
	gv.NoPanic()
	res, err := GenerateReport(rootPaths, data)
	gv.MayPanic()
	if err == nil {
		gv.Ensures("the report has one run with a driver", res != nil && len(res.Runs) == 1 && res.Runs[0] != nil && res.Runs[0].Tool != nil && res.Runs[0].Tool.Driver != nil)
		rules, results := res.Runs[0].Tool.Driver.Rules, res.Runs[0].Results
		gv.Ensures("every finding is reported once, in order", len(results) == len(in) &&
			gv.All(0, len(in), func(k int) bool { return results[k].RuleID == in[k].RuleID }))
		gv.Ensures("the rule of every finding is listed", gv.All(0, len(in), func(k int) bool {
			return gv.Any(0, len(rules), func(j int) bool { return rules[j].ID == in[k].RuleID })
		}))
		gv.Ensures("no rule is listed twice", spec_C08_sorted(rules))
		gv.Ensures("the rule index of every finding is that of its rule", gv.All(0, len(results), func(k int) bool {
			x := results[k].RuleIndex
			return x >= 0 && x < len(rules) && rules[x].ID == results[k].RuleID
		}))
	}
}
