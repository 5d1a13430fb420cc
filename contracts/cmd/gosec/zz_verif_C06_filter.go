package main

import (
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

// number of issues among the first n that reach both thresholds
func spec_C06_count(issues []*issue.Issue, n int, s, c issue.Score) int {
	if n <= 0 {
		return 0
	}
	k := spec_C06_count(issues, n-1, s, c)
	if issues[n-1].Severity >= s && issues[n-1].Confidence >= c {
		return k + 1
	}
	return k
}

// number of those that count as actual findings
func spec_C06_true(issues []*issue.Issue, n int, s, c issue.Score, show bool) int {
	if n <= 0 {
		return 0
	}
	k := spec_C06_true(issues, n-1, s, c, show)
	i := issues[n-1]
	if i.Severity >= s && i.Confidence >= c && (!i.NoSec || !show) && len(i.Suppressions) == 0 {
		return k + 1
	}
	return k
}

func verif_C06_filterIssues(issues []*issue.Issue, s, c issue.Score, show bool) {
	gv.Requires(gv.All(0, len(issues), func(i int) bool { return issues[i] != nil }))
	*flagShowIgnored = show
	in := gv.Snap(issues)
	gv.NoPanic()
	gv.Inv(func(it int, res []*issue.Issue) bool {
		return len(res) == spec_C06_count(in, it, s, c)
	})
	gv.Inv(func(it int, res []*issue.Issue) bool {
		return gv.All(0, it, func(i int) bool {
			return !(in[i].Severity >= s && in[i].Confidence >= c) ||
				(spec_C06_count(in, i, s, c) >= 0 && spec_C06_count(in, i, s, c) < len(res) && res[spec_C06_count(in, i, s, c)] == in[i])
		})
	})
	gv.Inv(func(it int, n int) bool { return n == spec_C06_true(in, it, s, c, show) })
	res, n := filterIssues(issues, s, c)
	gv.MayPanic()
	gv.Ensures("exactly the issues reaching both thresholds are kept", len(res) == spec_C06_count(in, len(in), s, c))
	gv.Ensures("kept issues stay in order", gv.All(0, len(in), func(i int) bool {
		k := spec_C06_count(in, i, s, c)
		return !(in[i].Severity >= s && in[i].Confidence >= c) || (k >= 0 && k < len(res) && res[k] == in[i])
	}))
	gv.Ensures("the number of findings counts unsuppressed kept issues", n == spec_C06_true(in, len(in), s, c, show))
}
