package sonar

import (
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func spec_C09_severity(s issue.Score) string {
	switch s {
	case issue.Low:
		return "MINOR"
	case issue.Medium:
		return "MAJOR"
	case issue.High:
		return "BLOCKER"
	}
	return "INFO"
}

func verif_C09_sonarSeverity(s issue.Score) {
	gv.NoPanic()
	l := getSonarSeverity(s.String())
	gv.MayPanic()
	gv.Ensures("the severity is translated", l == spec_C09_severity(s))
}
