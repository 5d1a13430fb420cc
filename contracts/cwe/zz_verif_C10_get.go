package cwe

import (
	"sort"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C10_get(r *gv.Rand) string {
	if r.Intn(9) == 0 {
		return r.Str()
	}
	ids := make([]string, 0, len(idWeaknesses))
	for id := range idWeaknesses {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids[r.Intn(len(ids))]
}

func verif_C10_get(id string) {
	gv.Globals()
	gv.NoPanic()
	w := Get(id)
	gv.MayPanic()
	if w != nil {
		gv.Ensures("a weakness is found under its own identifier", w.ID == id && w.Name != "" && w.Description != "")
		gv.Ensures("a weakness has its identifier and address", w.SprintID() == "CWE-"+id && w.SprintURL() == "https://cwe.mitre.org/data/definitions/"+id+".html")
	}
}
