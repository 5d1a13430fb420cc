package main

import (
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C22_issue(r *gv.Rand) *issue.Issue {
	return &issue.Issue{Severity: issue.Score(r.Intn(3)), What: gv.Pick(r, "a", "b"), File: gv.Pick(r, "x.go", "y.go"),
		Line: gv.Pick(r, "1", "2", "10", "9-12", "10-11", "3", "x", "")}
}

func gen_C22_sort(r *gv.Rand) []*issue.Issue {
	var l []*issue.Issue
	for k := r.Intn(7); k > 0; k-- {
		l = append(l, gen_C22_issue(r))
	}
	if r.Intn(20) == 0 {
		for k := 30; k > 0; k-- {
			l = append(l, gen_C22_issue(r))
		}
	}
	return l
}

func spec_C22_line(i *issue.Issue) int {
	n, _ := strconv.Atoi(strings.Split(i.Line, "-")[0])
	return n
}

// a is listed no later than b
func spec_C22_ordered(a, b *issue.Issue) bool {
	if a.Severity != b.Severity {
		return a.Severity > b.Severity
	}
	if a.What != b.What {
		return a.What > b.What
	}
	if a.File != b.File {
		return a.File > b.File
	}
	return spec_C22_line(a) >= spec_C22_line(b)
}

func verif_C22_sort(issues []*issue.Issue) {
	gv.Requires(gv.All(0, len(issues), func(k int) bool { return issues[k] != nil }))
	before := gv.Snap(issues)
	sortIssues(issues)
	gv.Ensures("sorting keeps every finding", gv.All(0, len(before), func(k int) bool {
		return gv.Any(0, len(issues), func(m int) bool { return issues[m] == before[k] })
	}))
	gv.Ensures("sorting adds no finding", gv.All(0, len(issues), func(k int) bool {
		return gv.Any(0, len(before), func(m int) bool { return before[m] == issues[k] })
	}))
	gv.Ensures("the most severe findings come first", gv.All(0, len(issues), func(k int) bool {
		return gv.All(0, k, func(m int) bool { return issues[m].Severity >= issues[k].Severity })
	}))
	gv.Ensures("findings are listed in the order of severity, text, file and line", gv.All(0, len(issues), func(k int) bool {
		return gv.All(0, k, func(m int) bool { return spec_C22_ordered(issues[m], issues[k]) })
	}))
	if gv.Native() {
		count := map[*issue.Issue]int{}
		for k := range issues {
			count[issues[k]]++
			count[before[k]]--
		}
		for _, n := range count {
			gv.Ensures("sorting is a permutation", n == 0)
		}
	}
}
