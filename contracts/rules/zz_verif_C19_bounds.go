package rules

import (
	"fmt"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
)

//gv:uses C15
//gv:uses C17

// One access: an index or two bounds; absent bounds are -1.
type specC19Step struct {
	index   int
	low, hi int
	isIndex bool
}

// A slice of known length, resliced along the way, and accessed.
type specC19Prog struct {
	how      int
	len, cap int
	steps    []specC19Step
}

func (p specC19Prog) text(n int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "func f%d() {\n", n)
	switch p.how {
	case 0:
		fmt.Fprintf(&b, "\ts0 := make([]int, %d)\n", p.len)
	case 1:
		fmt.Fprintf(&b, "\ts0 := make([]int, %d, %d)\n", p.len, p.cap)
	case 2:
		fmt.Fprintf(&b, "\ts0 := []int{%s}\n", strings.TrimSuffix(strings.Repeat("7, ", p.len), ", "))
	}
	k := 0
	for i, s := range p.steps {
		if s.isIndex {
			fmt.Fprintf(&b, "\tsink(s%d[%d]) // access %d\n", k, s.index, i)
			continue
		}
		lo, hi := "", ""
		if s.low >= 0 {
			lo = fmt.Sprint(s.low)
		}
		if s.hi >= 0 {
			hi = fmt.Sprint(s.hi)
		}
		fmt.Fprintf(&b, "\ts%d := s%d[%s:%s] // access %d\n", k+1, k, lo, hi, i)
		k++
	}
	fmt.Fprintf(&b, "\tsinks(s%d)\n}\n\n", k)
	return b.String()
}

// outcome: for every access, whether it is beyond the length, and the text.
func (p specC19Prog) outcome() []int {
	l, c := p.len, p.len
	if p.how == 1 {
		c = p.cap
	}
	var out []int
	for _, s := range p.steps {
		if s.isIndex {
			if s.index < l {
				out = append(out, 0)
			} else {
				out = append(out, 2)
			}
			continue
		}
		lo, hi := 0, l
		if s.low >= 0 {
			lo = s.low
		}
		if s.hi >= 0 {
			hi = s.hi
		}
		switch {
		case lo > hi || hi > c:
			out = append(out, 2) // panics
			return out
		case hi > l:
			return append(out, 1) // beyond the length, within the capacity
		default:
			out = append(out, 0)
		}
		l, c = hi-lo, c-lo
		if hi == 0 {
			return out // everything after [:0] is left open
		}
	}
	return out
}

func gen_C19_bounds(r *gv.Rand) []specC19Prog {
	var list []specC19Prog
	for range 12 {
		p := specC19Prog{how: r.Intn(3), len: 1 + r.Intn(6)}
		p.cap = p.len + r.Intn(4)
		l := p.len
		for range 1 + r.Intn(3) {
			if r.Intn(2) == 0 {
				p.steps = append(p.steps, specC19Step{isIndex: true, index: r.Intn(l + 3)})
				continue
			}
			s := specC19Step{low: -1, hi: -1}
			if r.Intn(3) > 0 {
				s.low = r.Intn(l + 2)
			}
			if r.Intn(3) > 0 {
				s.hi = max(s.low, 0) + r.Intn(l+2)
			}
			p.steps = append(p.steps, s)
		}
		list = append(list, p)
	}
	return list
}

const budget_C19_bounds = 8

func verif_C19_bounds(list []specC19Prog) {
	if !gv.Native() {
		gv.Ensures("accesses are looked at", len(list) >= 0)
		return
	}
	src := "package p\n\nfunc sink(x int) {}\nfunc sinks(x []int) {}\n"
	for n, p := range list {
		src += p.text(n)
	}
	got := specC17Run("G602", src)
	at := map[int]bool{}
	for _, l := range got {
		at[l] = true
	}
	n := -1
	for k, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "func f") {
			n++
		}
		if _, num, ok := strings.Cut(l, "// access "); ok {
			var i int
			fmt.Sscan(num, &i)
			out := list[n].outcome()
			if i >= len(out) {
				continue
			}
			if out[i] == 2 {
				gv.Ensures(fmt.Sprintf("an access out of range is reported: access %d of\n%s", i, list[n].text(0)), at[k+1])
			}
			if out[i] == 0 {
				gv.Ensures(fmt.Sprintf("an access in range is not reported: access %d of\n%s", i, list[n].text(0)), !at[k+1])
			}
		}
	}
}

// A slice, a comparison of its length with a constant, and an access in one of the branches.
type specC19Guard struct {
	len, k int
	op     string
	swap   bool
	form   int // 0 then, 1 else, 2 after leaving
	access specC19Step
	inCall bool
	named  bool // the length has a name and is compared twice
	other  int  // the length of another slice, which is compared instead, or -1
}

func (g specC19Guard) text(n int) string {
	of, before := "len(s)", ""
	if g.other >= 0 {
		of, before = "len(o)", fmt.Sprintf("\to := make([]int, %d)\n\tsinks(o)\n", g.other)
	}
	if g.named {
		before += fmt.Sprintf("\tn := %s\n\tif n > 1 {\n\t\tsink(1)\n\t}\n", of)
		of = "n"
	}
	cond := fmt.Sprintf("%s %s %d", of, g.op, g.k)
	if g.swap {
		cond = fmt.Sprintf("%d %s %s", g.k, g.op, of)
	}
	acc := fmt.Sprintf("sink(s[%d])", g.access.index)
	if !g.access.isIndex {
		acc = fmt.Sprintf("sinks(s[:%d])", g.access.hi)
	}
	acc = "\t" + acc + " // access 0\n"
	switch g.form {
	case 0:
		acc = "\tif " + cond + " {\n" + acc + "\t}\n"
	case 1:
		acc = "\tif " + cond + " {\n\tsink(0)\n\t} else {\n" + acc + "\t}\n"
	case 2:
		acc = "\tif " + cond + " {\n\t\treturn\n\t}\n" + acc
	case 3:
		before = ""
	}
	acc = before + acc
	if g.inCall {
		return fmt.Sprintf("func g%d(s []int) {\n%s}\nfunc f%d() {\n\tt := make([]int, %d)\n\tg%d(t)\n}\n\n", n, acc, n, g.len, n)
	}
	return fmt.Sprintf("func f%d() {\n\ts := make([]int, %d)\n%s}\n\n", n, g.len, acc)
}

// protects states that the access is in range whenever it is reached.
func (g specC19Guard) protects() bool {
	if g.other >= 0 {
		return false
	}
	need := g.access.index + 1
	if !g.access.isIndex {
		need = g.access.hi
	}
	some := false
	for n := range 40 {
		if g.reached(n) && n < need {
			return false
		}
		some = some || g.reached(n)
	}
	return some
}

func (g specC19Guard) reached(n int) bool {
	a, b := n, g.k
	if g.swap {
		a, b = b, a
	}
	holds := map[string]bool{"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[g.op]
	return g.form == 3 || holds == (g.form == 0)
}

func gen_C19_guards(r *gv.Rand) []specC19Guard {
	var list []specC19Guard
	for range 12 {
		g := specC19Guard{len: 1 + r.Intn(5), k: r.Intn(7), op: gv.Pick(r, "<", "<=", ">", ">=", "==", "!="), swap: r.Intn(3) == 0, form: r.Intn(4), inCall: r.Intn(4) == 0}
		g.access = specC19Step{isIndex: r.Intn(3) > 0, index: r.Intn(8), hi: 1 + r.Intn(8)}
		g.named, g.other = r.Intn(4) == 0, -1
		if r.Intn(4) == 0 {
			g.other = r.Intn(8)
		}
		list = append(list, g)
	}
	return list
}

const budget_C19_guards = 8

func verif_C19_guards(list []specC19Guard) {
	if !gv.Native() {
		gv.Ensures("accesses are looked at", len(list) >= 0)
		return
	}
	src := "package p\n\nfunc sink(x int) {}\nfunc sinks(x []int) {}\n"
	for n, g := range list {
		src += g.text(n)
	}
	at := map[int]bool{}
	for _, l := range specC17Run("G602", src) {
		at[l] = true
	}
	n := -1
	for k, l := range strings.Split(src, "\n") {
		if !strings.HasSuffix(l, "// access 0") {
			continue
		}
		n++
		g := list[n]
		in := g.access.isIndex && g.access.index < g.len || !g.access.isIndex && g.access.hi <= g.len
		if in {
			gv.Ensures("an access in range is not reported:\n"+g.text(0), !at[k+1])
		} else if g.protects() {
			gv.Ensures("an access protected by the length is not reported:\n"+g.text(0), !at[k+1])
		} else if g.other >= 0 && g.reached(g.other) {
			gv.Ensures("an access out of range is reported although another slice is long enough:\n"+g.text(0), at[k+1])
		} else if g.other < 0 && g.reached(g.len) && (g.form == 3 || g.upper()) {
			gv.Ensures("an access out of range is reported:\n"+g.text(0), at[k+1])
		}
	}
}

// upper states that the branch is taken for short slices only.
func (g specC19Guard) upper() bool {
	return g.reached(0) && !g.reached(30)
}
