package issue

import (
	"encoding/json"

	"github.com/securego/gosec/v2/internal/gv"
)

func spec_C09_name(s Score) string {
	if s == Low {
		return "LOW"
	}
	if s == Medium {
		return "MEDIUM"
	}
	if s == High {
		return "HIGH"
	}
	return "UNDEFINED"
}

func verif_C09_score(s Score, t Score) {
	gv.Ensures("scores are ordered", Low < Medium && Medium < High)
	gv.NoPanic()
	name := s.String()
	gv.MayPanic()
	gv.Ensures("a score has its own name", name == spec_C09_name(s))
	if s >= Low && s <= High {
		gv.Ensures("different scores have different names", (name == t.String()) == (s == t))
	}
}

func verif_C09_scoreJSON(s Score) {
	if gv.Native() {
		b, err := s.MarshalJSON()
		gv.Ensures("a score is encoded by name", err == nil && string(b) == `"`+spec_C09_name(s)+`"`)
		return
	}
	var encoded any
	var raw []byte
	gv.Stub(json.Marshal, func(v any) ([]byte, error) {
		encoded = v
		raw = make([]byte, 3)
		return raw, nil
	})
	gv.NoPanic()
	b, err := s.MarshalJSON()
	gv.MayPanic()
	gv.Ensures("a score is encoded by name", err == nil && encoded == any(spec_C09_name(s)) && gv.SameArray(b, raw))
}
