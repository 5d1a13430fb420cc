package sarif

import (
	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

//gv:uses C08

func gen_C07_sarif(r *gv.Rand) ([]string, *gosec.ReportInfo) { return gen_C08_generateReport(r) }

func spec_C07_result(r *Result, i *issue.Issue) bool {
	return r.RuleID == i.RuleID && r.Level == getSarifLevel(i.Severity.String())
}

func verif_C07_sarif(rootPaths []string, data *gosec.ReportInfo) {
	gv.Opaque(uuid3)
	gv.Opaque(cwe.Get)
	gv.Opaque(buildCWETaxonomy)
	gv.Requires(data != nil)
	gv.Requires(gv.All(0, len(data.Issues), func(i int) bool {
		return data.Issues[i] != nil && (data.Issues[i].Cwe == nil || cwe.Get(data.Issues[i].Cwe.ID) != nil)
	}))
	gv.UseContract(addRuleInOrder, verif_C08_addRuleInOrder)
	gv.UseContract(parseSarifLocation, verif_C08_parseSarifLocation)
	gv.UseContract(parseSarifRule, verif_C08_parseSarifRule)
	gv.UseContract(buildSarifSuppressions, verif_C08_buildSarifSuppressions)
	in := gv.Snap(data.Issues)
	gv.Inv(func(it int, rules []*ReportingDescriptor) bool {
		return gv.All(0, len(rules), func(k int) bool { return rules[k] != nil }) && spec_C08_sorted(rules)
	})
	gv.Inv(func(it int, results []*Result) bool {
		return len(results) == it && gv.All(0, it, func(k int) bool { return results[k] != nil })
	})
	gv.Inv(func(it int, results []*Result) bool {
		return gv.All(0, it, func(k int) bool { return results[k].RuleID == in[k].RuleID })
	})
	gv.Inv(func(it int, results []*Result) bool {
		return gv.All(0, it, func(k int) bool { return results[k].Level == getSarifLevel(in[k].Severity.String()) })
	})
	res, err := GenerateReport(rootPaths, data)
	gv.Ensures("the report has one run", err != nil || res != nil && len(res.Runs) == 1 && res.Runs[0] != nil)
	gv.Ensures("every finding is reported once, in order, with its rule and level", err != nil || len(res.Runs[0].Results) == len(in) &&
		gv.All(0, len(in), func(k int) bool { return spec_C07_result(res.Runs[0].Results[k], in[k]) }))
	// the rest of a result is compared on generated findings only
	if gv.Native() && err == nil {
		for k, r := range res.Runs[0].Results {
			gv.Ensures("every finding has its message", r.Message != nil && r.Message.Text == in[k].What)
			gv.Ensures("every finding has its location and suppressions", len(r.Locations) == 1 && len(r.Suppressions) == len(in[k].Suppressions) &&
				r.Locations[0].PhysicalLocation.ArtifactLocation.URI == parseSarifArtifactLocation(in[k], rootPaths).URI)
			want, _ := parseSarifRegion(in[k])
			got := r.Locations[0].PhysicalLocation.Region
			gv.Ensures("every finding has its lines and column", got.StartLine == want.StartLine && got.EndLine == want.EndLine && got.StartColumn == want.StartColumn)
		}
	}
}
