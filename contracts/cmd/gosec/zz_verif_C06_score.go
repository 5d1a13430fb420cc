package main

import (
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C06_convertToScore(r *gv.Rand) string {
	return gv.Pick(r, "low", "medium", "high", "Low", "MEDIUM", "hIgH", "", "lo", "critical", " high", "undefined", "0")
}

func verif_C06_convertToScore(value string) {
	l := strings.ToLower(value)
	gv.NoPanic()
	s, err := convertToScore(value)
	gv.MayPanic()
	gv.Ensures("exactly the documented values are accepted", (err == nil) == (l == "low" || l == "medium" || l == "high"))
	gv.Ensures("low", l != "low" || s == issue.Low)
	gv.Ensures("medium", l != "medium" || s == issue.Medium)
	gv.Ensures("high", l != "high" || s == issue.High)
}
