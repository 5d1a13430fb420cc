package sarif

import (
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func spec_C09_level(s issue.Score) Level {
	switch s {
	case issue.Low:
		return "warning"
	case issue.Medium, issue.High:
		return "error"
	}
	return "note"
}

func verif_C09_sarifLevel(s issue.Score) {
	gv.NoPanic()
	l := getSarifLevel(s.String())
	gv.MayPanic()
	gv.Ensures("the level reflects the severity", l == spec_C09_level(s))
}

func verif_C09_sarifRule(i *issue.Issue) {
	gv.Requires(i != nil)
	gv.Opaque(uuid3)
	gv.Opaque(issue.GetCweByRule)
	gv.NoPanic()
	rule := parseSarifRule(i)
	gv.MayPanic()
	gv.Ensures("the rule has the level of the severity", rule != nil && rule.DefaultConfiguration != nil && rule.DefaultConfiguration.Level == spec_C09_level(i.Severity))
	gv.Ensures("the rule has properties", rule.Properties != nil)
	precision, ok := (*rule.Properties)["precision"].(string)
	gv.Ensures("the precision is the confidence", ok && precision == strings.ToLower(i.Confidence.String()))
	tags, ok := (*rule.Properties)["tags"].([]string)
	gv.Ensures("the tags name the severity", ok && len(tags) == 2 && tags[0] == "security" && tags[1] == i.Severity.String())
}
