package gosec

import (
	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C12_new(r *gv.Rand) (Config, map[GlobalOption]string, bool, bool, bool) {
	c, m, _, _, _, _ := gen_C12_global(r)
	return c, m, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
}

// The options of an analyzer are the ones of its configuration and its arguments.
func verif_C12_new(c Config, m map[GlobalOption]string, tests, generated, track bool) {
	gv.Requires(c != nil && m != nil)
	c[Globals] = m
	a := NewAnalyzer(c, tests, generated, track, 1, nil)
	nosec, show := m[Nosec], m[ShowIgnored]
	gv.Ensures("-nosec: the directives are ignored when the option is enabled", a.ignoreNosec == (nosec == "true" || nosec == "enabled"))
	gv.Ensures("-show-ignored: ignored findings are kept when the option is enabled", a.showIgnored == (show == "true" || show == "enabled"))
	gv.Ensures("the arguments are kept", a.tests == tests && a.excludeGenerated == generated && a.trackSuppressions == track)
	gv.Ensures("a new analyzer has found nothing", len(a.issues) == 0 && *a.stats == Metrics{} && len(a.errors) == 0)
	v, ok := a.Config()[Globals].(map[GlobalOption]string)
	gv.Ensures("the configuration is kept", ok && len(v) == len(m))
}
