package issue

import (
	"sort"


	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C10_byRule(r *gv.Rand) string {
	if r.Intn(9) == 0 {
		return r.Str()
	}
	ids := make([]string, 0, len(ruleToCWE))
	for id := range ruleToCWE {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids[r.Intn(len(ids))]
}

func verif_C10_byRule(id string) {
	gv.Globals()
	gv.NoPanic()
	w := GetCweByRule(id)
	gv.MayPanic()
	want, known := ruleToCWE[id]
	gv.Ensures("a rule with a weakness has that weakness", !known || w != nil && w.ID == want)
	gv.Ensures("a rule without weakness has none", known || w == nil)
}
