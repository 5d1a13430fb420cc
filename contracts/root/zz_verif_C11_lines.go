package gosec

import (
	"strconv"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C11_parseLine(r *gv.Rand) (int, int, ignores) {
	a := 1 + r.Intn(300)
	return a, a + r.Intn(4)*r.Intn(40), nil
}

// What a finding gives as its lines (see issue.GetLine) is read back unchanged.
func verif_C11_parseLine(first, last int, i ignores) {
	gv.Requires(first >= 1 && last >= first)
	gv.NoPanic()
	s, e := i.parseLine(strconv.Itoa(first) + "-" + strconv.Itoa(last))
	gv.Ensures("a range is read back", s == first && e == last)
	s, e = i.parseLine(strconv.Itoa(first))
	gv.Ensures("a single line is read back", s == first && e == first)
}
