package gosec

//gv:uses C01

import (
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C02_updateIssues(r *gv.Rand) (*Analyzer, *issue.Issue) {
	g := genC01Analyzer(r)
	if r.Intn(10) == 0 {
		return g, nil
	}
	return g, &issue.Issue{File: genC01File(r), Line: genC01Line(r), RuleID: genC01Rule(r), NoSec: r.Intn(2) == 0}
}

func verif_C02_updateIssues(g *Analyzer, i *issue.Issue) {
	gv.Requires(g != nil && g.context != nil && g.analyzerSet != nil && g.stats != nil)
	gv.UseContract((*Analyzer).getSuppressionsAtLineInFile, verif_C01_suppressions)
	var sup []issue.SuppressionInfo
	var ignored bool
	var old issue.Issue
	if i != nil {
		sup, ignored = g.getSuppressionsAtLineInFile(i.File, i.Line, i.RuleID)
		old = *i
	}
	before := gv.Snap(g.issues)
	found := g.stats.NumFound
	files, lines, nosec := g.stats.NumFiles, g.stats.NumLines, g.stats.NumNosec
	show, track, all := g.showIgnored, g.trackSuppressions, g.ignoreNosec
	gv.NoPanic()
	g.updateIssues(i)
	gv.MayPanic()
	reported := i != nil && (!ignored || track || show || all)
	if reported {
		gv.Ensures("an issue that is to be reported is appended once", len(g.issues) == len(before)+1 && g.issues[len(before)] == i)
	} else {
		gv.Ensures("a suppressed issue is dropped unless it is asked for", len(g.issues) == len(before))
	}
	gv.Ensures("issues found earlier stay reported", gv.All(0, len(before), func(k int) bool { return g.issues[k] == before[k] }))
	if i != nil && (!ignored || !show) {
		gv.Ensures("a finding is counted once", g.stats.NumFound == found+1)
	} else {
		gv.Ensures("nothing else is counted", g.stats.NumFound == found)
	}
	gv.Ensures("the other metrics are unaffected", g.stats.NumFiles == files && g.stats.NumLines == lines && g.stats.NumNosec == nosec)
	if i != nil {
		gv.Ensures("the nosec mark is the suppression status when shown", i.NoSec == (show && ignored || !show && old.NoSec))
		if ignored && track {
			gv.Ensures("a tracked issue carries its suppressions", len(i.Suppressions) == len(sup))
		} else {
			gv.Ensures("an issue that is not tracked gets no suppressions", len(i.Suppressions) == len(old.Suppressions))
		}
		gv.Ensures("the finding itself is unchanged", i.File == old.File && i.Line == old.Line && i.Col == old.Col && i.RuleID == old.RuleID &&
			i.Severity == old.Severity && i.Confidence == old.Confidence && i.What == old.What && i.Code == old.Code && i.Cwe == old.Cwe)
	}
}
