package text

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func gen_C07_marks(r *gv.Rand) (int, int, int, int, string) {
	start := gv.Pick(r, 1, 2, 5, 9, 10, 11, 99, 100, 101, 1000) + r.Intn(3)
	return start, r.Intn(4), r.Intn(3), r.Intn(3), gv.Pick(r, "x := 1", "", "1", "  10", "> 9: y", "// 11")
}

// bounded: exactly the lines a finding is about are marked in its snippet.
func verif_C07_marks(start, more, before, after int, text string) {
	if !gv.Native() {
		gv.Ensures("a snippet is looked at", start == start)
		return
	}
	gv.Requires(start-before > 0 && more >= 0 && before >= 0 && after >= 0)
	code, want := "", ""
	for n := start - before; n <= start+more+after; n++ {
		mark := "    "
		if n >= start && n <= start+more {
			mark = "  > "
		}
		code += fmt.Sprintf("%d: %s\n", n, text)
		want += fmt.Sprintf("%s%d: %s\n", mark, n, text)
	}
	line := fmt.Sprint(start)
	if more > 0 {
		line = fmt.Sprintf("%d-%d", start, start+more)
	}
	got := printCodeSnippet(&issue.Issue{Line: line, Code: code})
	gv.Ensures(fmt.Sprintf("exactly the lines of the finding are marked:\n%s", got), got == want)
}

var specC07Colour = regexp.MustCompile("\x1b\\[[0-9;]*m")

func gen_C07_colour(r *gv.Rand) *gosec.ReportInfo { return gen_C07_text(r) }

// bounded: colours change nothing but the colours.
func verif_C07_colour(data *gosec.ReportInfo) {
	if !gv.Native() {
		gv.Ensures("a report is looked at", data == data)
		return
	}
	gv.Requires(data != nil)
	var plain, coloured bytes.Buffer
	gv.Ensures("a report is written", WriteReport(&plain, data, false) == nil && WriteReport(&coloured, data, true) == nil)
	a, b := plain.String(), specC07Colour.ReplaceAllString(coloured.String(), "")
	gv.Ensures("the report is the same but for its colours:\n"+a+"\n"+b, strings.TrimSpace(a) == strings.TrimSpace(b))
}
