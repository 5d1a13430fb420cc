package analyzers

import (
	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C04_aselect(r *gv.Rand) (bool, []string, []string, string) {
	ids := []string{"G115", "G602", "G407", "G101", "G999", ""}
	pick := func() []string {
		var l []string
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, ids[r.Intn(len(ids))])
		}
		return l
	}
	return r.Intn(2) == 0, pick(), pick(), ids[r.Intn(len(ids))]
}

func spec_C04_in(id string, ids []string) bool {
	return gv.Any(0, len(ids), func(k int) bool { return ids[k] == id })
}

func spec_C04_documented(id string) bool { return id == "G115" || id == "G602" || id == "G407" }

func verif_C04_aselect(track bool, include, exclude []string, id string) {
	gv.Inv(func(it int, m map[string]bool, ids []string) bool {
		_, has := m[id]
		return has == gv.Any(0, it, func(k int) bool { return ids[k] == id })
	})
	al := Generate(track, NewAnalyzerFilter(false, include...), NewAnalyzerFilter(true, exclude...))
	def, has := al.Analyzers[id]
	sup, listed := al.AnalyzerSuppressed[id]
	out := !spec_C04_in(id, include) || spec_C04_in(id, exclude)
	gv.Ensures("exactly the documented analyzers are listed", listed == spec_C04_documented(id))
	gv.Ensures("an analyzer is suppressed when it is excluded or not included", !listed || sup == out)
	gv.Ensures("an analyzer is loaded unless it is suppressed without tracking", has == (listed && (track || !out)))
	gv.Ensures("an analyzer is loaded under its identifier", !has || def.ID == id && def.Create != nil)
}

func gen_C04_afilters(r *gv.Rand) (bool, map[string]bool, map[string]bool, string) {
	t, a, b, id := gen_C04_aselect(r)
	m1, m2 := map[string]bool{}, map[string]bool{}
	for _, k := range a {
		m1[k] = true
	}
	for _, k := range b {
		m2[k] = true
	}
	return t, m1, m2, id
}

func verif_C04_afilters(track bool, m1, m2 map[string]bool, id string) {
	f1 := func(id string) bool { return m1[id] }
	al := Generate(track, f1)
	_, has := al.Analyzers[id]
	sup, listed := al.AnalyzerSuppressed[id]
	gv.Ensures("one filter decides alone", listed == spec_C04_documented(id) && (!listed || sup == m1[id]) && has == (listed && (track || !m1[id])))
	al = Generate(track, f1, func(id string) bool { return m2[id] })
	_, has = al.Analyzers[id]
	sup, listed = al.AnalyzerSuppressed[id]
	out := m1[id] || m2[id]
	gv.Ensures("an analyzer is suppressed when any filter matches it", !listed || sup == out)
	gv.Ensures("an analyzer is loaded unless it is suppressed without tracking", has == (listed && (track || !out)))
}

func gen_C04_adefault(r *gv.Rand) (bool, string) {
	t, _, _, id := gen_C04_aselect(r)
	return t, id
}

func verif_C04_adefault(track bool, id string) {
	al := Generate(track)
	_, has := al.Analyzers[id]
	gv.Ensures("without options every analyzer is loaded and none is suppressed", has == spec_C04_documented(id) && !al.AnalyzerSuppressed[id])
	defs, suppressed := al.AnalyzersInfo()
	s, ok := suppressed[id]
	gv.Ensures("the suppressed analyzers are passed on", ok == spec_C04_documented(id) && !s)
	if gv.Native() {
		d, ok := defs[id]
		gv.Ensures("every loaded analyzer has its builder", ok == has)
		if ok {
			a := d.Create(d.ID, d.Description)
			gv.Ensures("an analyzer reports under its identifier", a != nil && a.Name == id && d.ID == id)
		}
	}
}
