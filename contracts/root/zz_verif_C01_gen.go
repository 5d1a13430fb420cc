package gosec

import (
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func genC01Line(r *gv.Rand) string {
	return gv.Pick(r, "1", "2", "3", "5", "7", "1-3", "2-5", "1-7", "3-3", "5-4", "x", "2-x", "6-7", "-1", "0")
}

func genC01Rule(r *gv.Rand) string { return gv.Pick(r, "G101", "G102", "G401", "*") }

func genC01File(r *gv.Rand) string { return gv.Pick(r, "a.go", "b.go") }

func genC01Ignores(r *gv.Rand) ignores {
	is := newIgnores()
	for n := r.Intn(6); n > 0; n-- {
		s, e := is.parseLine(genC01Line(r))
		ig := ignore{start: s, end: e, suppressions: map[string][]issue.SuppressionInfo{}}
		for k := r.Intn(3); k > 0; k-- {
			ig.suppressions[genC01Rule(r)] = make([]issue.SuppressionInfo, r.Intn(3))
		}
		f := genC01File(r)
		is[f] = append(is[f], ig)
	}
	return is
}

func genC01Analyzer(r *gv.Rand) *Analyzer {
	g := &Analyzer{
		context: &Context{Ignores: genC01Ignores(r)}, ruleset: NewRuleSet(), analyzerSet: analyzers.NewAnalyzerSet(), stats: gv.Gen[*Metrics](r),
		showIgnored: r.Intn(2) == 0, trackSuppressions: r.Intn(2) == 0, ignoreNosec: r.Intn(2) == 0,
	}
	for n := r.Intn(3); n > 0; n-- {
		g.ruleset.RuleSuppressedMap[genC01Rule(r)] = r.Intn(2) == 0
		g.analyzerSet.AnalyzerSuppressedMap[genC01Rule(r)] = r.Intn(2) == 0
	}
	for n := r.Intn(3); n > 0; n-- {
		g.issues = append(g.issues, &issue.Issue{})
	}
	return g
}

func gen_C01_get(r *gv.Rand) (ignores, string, string, string) {
	return genC01Ignores(r), genC01File(r), genC01Line(r), genC01Rule(r)
}

func gen_C01_suppressions(r *gv.Rand) (*Analyzer, string, string, string) {
	return genC01Analyzer(r), genC01File(r), genC01Line(r), genC01Rule(r)
}
