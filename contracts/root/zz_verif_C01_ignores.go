package gosec

import (
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

// a directive over lines [a,b] applies to an issue over lines [s,e] when one range contains the other
func spec_C01_applies(a, b, s, e int) bool {
	return a <= s && b >= e || s <= a && e >= b
}

// some of the first n directives applies to [s,e] and names rule id
func spec_C01_named(is []ignore, n int, s, e int, id string) bool {
	if n <= 0 {
		return false
	}
	_, has := is[n-1].suppressions[id]
	return spec_C01_named(is, n-1, s, e, id) || has && spec_C01_applies(is[n-1].start, is[n-1].end, s, e)
}

// number of suppressions of rule id among the first n directives that apply to [s,e]
func spec_C01_count(is []ignore, n int, s, e int, id string) int {
	if n <= 0 {
		return 0
	}
	k := spec_C01_count(is, n-1, s, e, id)
	if spec_C01_applies(is[n-1].start, is[n-1].end, s, e) {
		return k + len(is[n-1].suppressions[id])
	}
	return k
}

func verif_C01_get(i ignores, file, line, id string) {
	in := gv.Snap(i[file])
	s, e := i.parseLine(line)
	gv.Mark()
	named := func(n int) bool { return gv.Old(func() bool { return spec_C01_named(in, n, s, e, id) }) }
	count := func(n int) int { return gv.Old(func() int { return spec_C01_count(in, n, s, e, id) }) }
	gv.Inv(func(it int, m map[string][]issue.SuppressionInfo) bool {
		_, has := m[id]
		return has == named(it)
	})
	gv.Inv(func(it int, m map[string][]issue.SuppressionInfo) bool {
		return len(m[id]) == count(it)
	})
	gv.Inv(func(it int, m map[string][]issue.SuppressionInfo, outer int, visited func(string) bool) bool {
		_, has := m[id]
		return has == (named(outer) || visited(id))
	})
	gv.Inv(func(it int, m map[string][]issue.SuppressionInfo, outer int, visited func(string) bool) bool {
		n := count(outer)
		if visited(id) {
			n += gv.Old(func() int { return len(in[outer].suppressions[id]) })
		}
		return len(m[id]) == n
	})
	gv.NoPanic()
	res := i.get(file, line)
	gv.MayPanic()
	gv.Frame()
	_, has := res[id]
	gv.Ensures("a rule is suppressed exactly when some directive of the file that applies to the lines names it", has == named(len(in)))
	gv.Ensures("the reported list does not share the directives' storage", gv.Fresh(res[id]))
	gv.Ensures("every suppression that applies is reported once", len(res[id]) == count(len(in)))
}

func spec_C01_ext(g *Analyzer, id string) bool {
	return g.ruleset.RuleSuppressedMap[id] || g.analyzerSet.AnalyzerSuppressedMap[id]
}

func verif_C01_suppressions(g *Analyzer, file, line, id string) {
	gv.Requires(g != nil && g.context != nil && g.analyzerSet != nil)
	gv.UseContract(ignores.get, verif_C01_get)
	in := gv.Snap(g.context.Ignores[file])
	s, e := g.context.Ignores.parseLine(line)
	gv.Mark()
	gv.NoPanic()
	res, ignored := g.getSuppressionsAtLineInFile(file, line, id)
	gv.MayPanic()
	gv.Frame()
	ext := gv.Old(func() bool { return spec_C01_ext(g, id) })
	named := func(id string) bool { return gv.Old(func() bool { return spec_C01_named(in, len(in), s, e, id) }) }
	count := func(id string) int { return gv.Old(func() int { return spec_C01_count(in, len(in), s, e, id) }) }
	gv.Ensures("an issue is suppressed exactly when a directive over its lines names its rule or all rules, or the rule is suppressed externally",
		ignored == (named(id) || named("*") || ext))
	n := count(id) + count("*")
	if ext {
		n++
	}
	gv.Ensures("every applicable suppression is reported", len(res) == n)
	gv.Ensures("an external suppression is reported as such", gv.Implies(ext, len(res) > 0 && res[len(res)-1].Kind == "external"))
}

func verif_C01_add(i ignores, file, line string, sup map[string]issue.SuppressionInfo, other, id string) {
	gv.Requires(i != nil)
	s, e := i.parseLine(line)
	before, after0 := gv.Snap(i[file]), gv.Snap(i[other])
	gv.Mark()
	gv.NoPanic()
	gv.Inv(func(it int, m map[string][]issue.SuppressionInfo, visited func(string) bool) bool {
		_, has := m[id]
		return has == visited(id) && len(m[id]) <= 1
	})
	gv.Inv(func(it int, m map[string][]issue.SuppressionInfo, visited func(string) bool) bool {
		return !visited(id) || len(m[id]) == 1 && m[id][0] == gv.Old(func() issue.SuppressionInfo { return sup[id] })
	})
	i.add(file, line, sup)
	gv.MayPanic()
	gv.Ensures("one directive is added to the file", len(i[file]) == len(before)+1)
	last := i[file][len(before)]
	gv.Ensures("the directive covers the given lines", last.start == s && last.end == e)
	want, named := sup[id]
	got, has := last.suppressions[id]
	gv.Ensures("the directive names exactly the given rules", has == named)
	gv.Ensures("the directive carries the given suppression", gv.Implies(named, len(got) == 1 && got[0] == want))
	gv.Ensures("earlier directives are kept", gv.All(0, len(before), func(k int) bool {
		return i[file][k].start == before[k].start && i[file][k].end == before[k].end
	}))
	gv.Ensures("other files are unaffected", other == file || len(i[other]) == len(after0))
}
