package text

import (
	"strconv"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C11_textLine(r *gv.Rand) (int, int) {
	a := 1 + r.Intn(300)
	return a, a + r.Intn(4)*r.Intn(40)
}

func verif_C11_textLine(first, last int) {
	gv.Requires(first >= 1 && last >= first)
	gv.NoPanic()
	s, e := parseLine(strconv.Itoa(first) + "-" + strconv.Itoa(last))
	gv.Ensures("a range is read back", s == first && e == last)
	s, e = parseLine(strconv.Itoa(first))
	gv.Ensures("a single line is read back", s == first && e == first)
}
