package analyzers

import (
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func spec_C10_known(id string) bool { w := issue.GetCweByRule(id); return w != nil && w.ID != "" }

func verif_C10_analyzers(track bool) {
	gv.Globals()
	gv.Inv(func(it int, m map[string]AnalyzerDefinition) bool {
		return gv.AllKeys(m, func(k string) bool { return spec_C10_known(k) && m[k].ID == k })
	})
	al := Generate(track)
	gv.Ensures("every analyzer has a weakness", gv.AllKeys(al.Analyzers, func(k string) bool { return spec_C10_known(k) && al.Analyzers[k].ID == k }))
}
