package junit

import (
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C07_junit(r *gv.Rand) *gosec.ReportInfo {
	d := &gosec.ReportInfo{}
	for n := r.Intn(7); n > 0; n-- {
		d.Issues = append(d.Issues, &issue.Issue{File: gv.Pick(r, "a.go", "b.go"), Line: gv.Pick(r, "1", "2-4"), Col: "7", What: gv.Pick(r, "x", "y", "z"), RuleID: gv.Pick(r, "G101", "G304"),
			Severity: issue.Score(r.Intn(4)), Confidence: issue.Score(r.Intn(4)), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0"))})
	}
	return d
}

// number of findings among the first n with the given description
func spec_C07_same(issues []*issue.Issue, n int, what string) int {
	if n <= 0 {
		return 0
	}
	k := spec_C07_same(issues, n-1, what)
	if issues[n-1].What == what {
		return k + 1
	}
	return k
}

// the suites are separate objects with separate names and test cases
func spec_C07_objects(suites []*Testsuite) bool {
	return gv.All(0, len(suites), func(i int) bool {
		return suites[i] != nil && gv.All(0, len(suites), func(j int) bool { return i == j || suites[i] != suites[j] })
	})
}

func spec_C07_names(suites []*Testsuite) bool {
	return gv.All(0, len(suites), func(i int) bool {
		return gv.All(0, len(suites), func(j int) bool { return i == j || suites[i].Name != suites[j].Name })
	})
}

func spec_C07_arrays(suites []*Testsuite) bool {
	return gv.All(0, len(suites), func(i int) bool {
		return gv.All(0, len(suites), func(j int) bool {
			return i == j || cap(suites[i].Testcases) == 0 || !gv.SameArray(suites[i].Testcases, suites[j].Testcases)
		})
	})
}

func verif_C07_junit(data *gosec.ReportInfo) {
	gv.Opaque(generatePlaintext)
	gv.Requires(data != nil)
	gv.Requires(gv.All(0, len(data.Issues), func(i int) bool { return data.Issues[i] != nil }))
	in := gv.Snap(data.Issues)
	// the suites are a field of the report under construction, or a variable
	gv.Inv(func(it int, r Report) bool { return spec_C07_objects(r.Testsuites) })
	gv.Inv(func(it int, r Report) bool { return spec_C07_names(r.Testsuites) })
	gv.Inv(func(it int, r Report) bool { return spec_C07_arrays(r.Testsuites) })
	gv.Inv(func(it int, r Report, m map[string]int) bool { return spec_C07_index(r.Testsuites, m) })
	gv.Inv(func(it int, r Report) bool { return spec_C07_counts(r.Testsuites, in, it) })
	gv.Inv(func(it int, r Report, m map[string]int) bool { return spec_C07_listed(r.Testsuites, m, in, it) })
	gv.Inv(func(it int, s []*Testsuite) bool { return spec_C07_objects(s) })
	gv.Inv(func(it int, s []*Testsuite) bool { return spec_C07_names(s) })
	gv.Inv(func(it int, s []*Testsuite) bool { return spec_C07_arrays(s) })
	gv.Inv(func(it int, s []*Testsuite, m map[string]int) bool { return spec_C07_index(s, m) })
	gv.Inv(func(it int, s []*Testsuite) bool { return spec_C07_counts(s, in, it) })
	gv.Inv(func(it int, s []*Testsuite, m map[string]int) bool { return spec_C07_listed(s, m, in, it) })
	gv.Inv(func(it int, m map[string]int) bool {
		return gv.AllOf(func(w string) bool { _, has := m[w]; return has || spec_C07_same(in, it, w) == 0 })
	})
	gv.NoPanic()
	rep := GenerateReport(data)
	gv.MayPanic()
	suites := rep.Testsuites
	gv.Ensures("there is one suite per description", spec_C07_objects(suites) && spec_C07_names(suites))
	gv.Ensures("a suite counts its test cases, one per finding", gv.All(0, len(suites), func(j int) bool {
		return len(suites[j].Testcases) == spec_C07_same(in, len(in), suites[j].Name) && suites[j].Tests == len(suites[j].Testcases)
	}))
	gv.Ensures("every finding has its own test case", gv.All(0, len(in), func(k int) bool {
		return gv.Any(0, len(suites), func(j int) bool {
			s := suites[j]
			n := spec_C07_same(in, k, in[k].What)
			return s.Name == in[k].What && n >= 0 && n < len(s.Testcases)
		})
	}))
	if gv.Native() {
		// the content of the test cases is compared on generated reports only
		gv.Ensures("the test case of a finding describes it", gv.All(0, len(in), func(k int) bool {
			return gv.Any(0, len(suites), func(j int) bool {
				return suites[j].Name == in[k].What && spec_C07_case(suites[j].Testcases[spec_C07_same(in, k, in[k].What)], in[k])
			})
		}))
	}
}

// the index finds the suite of every description
func spec_C07_index(suites []*Testsuite, m map[string]int) bool {
	return gv.AllKeys(m, func(k string) bool { return m[k] >= 0 && m[k] < len(suites) && suites[m[k]].Name == k }) &&
		gv.All(0, len(suites), func(j int) bool { i, has := m[suites[j].Name]; return has && i == j })
}

// every suite counts its test cases, one per finding
func spec_C07_counts(suites []*Testsuite, in []*issue.Issue, n int) bool {
	return gv.All(0, len(suites), func(j int) bool {
		return len(suites[j].Testcases) == spec_C07_same(in, n, suites[j].Name) && suites[j].Tests == len(suites[j].Testcases)
	})
}

// every finding has its own test case
func spec_C07_listed(suites []*Testsuite, m map[string]int, in []*issue.Issue, it int) bool {
	return gv.All(0, it, func(k int) bool {
		i, has := m[in[k].What]
		n := spec_C07_same(in, k, in[k].What)
		return has && n >= 0 && n < len(suites[i].Testcases)
	})
}

func spec_C07_case(c *Testcase, i *issue.Issue) bool {
	return c != nil && c.Name == i.File && c.Failure != nil && c.Failure.Text == generatePlaintext(i)
}

func gen_C07_plaintext(r *gv.Rand) *issue.Issue {
	return &issue.Issue{File: gv.Pick(r, "a.go", "b.go"), Line: gv.Pick(r, "1", "2-4"), Col: "7", What: gv.Pick(r, "x", "y", "z"), RuleID: gv.Pick(r, "G101", "G304"),
		Severity: issue.Score(r.Intn(4)), Confidence: issue.Score(r.Intn(4)), Cwe: cwe.Get(gv.Pick(r, "22", "798", "0")), Code: gv.Pick(r, "1: a\n", "2: x := \"<&>\"\n")}
}

func verif_C07_plaintext(i *issue.Issue) {
	gv.Strings()
	gv.Requires(i != nil)
	gv.NoPanic()
	s := generatePlaintext(i)
	gv.MayPanic()
	gv.Ensures("the test case names the place and the problem", strings.Contains(s, i.File+":"+i.Line) && strings.Contains(s, i.What))
	gv.Ensures("the test case names the weakness", i.Cwe == nil || strings.Contains(s, "CWE: "+i.Cwe.ID))
}
