package main

import (
	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func verif_C05_exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
	gv.Requires(gv.All(0, len(issues), func(i int) bool { return issues[i] != nil }))
	in := gv.Snap(issues)
	open := gv.Any(0, len(in), func(i int) bool { return !in[i].NoSec && len(in[i].Suppressions) == 0 })
	gv.Inv(func(it int, n int) bool {
		return n >= 0 && (n > 0) == gv.Any(0, it, func(i int) bool { return !in[i].NoSec && len(in[i].Suppressions) == 0 })
	})
	gv.NoPanic()
	gv.OnExit(func(code int) {
		gv.Ensures("exit status 1 exactly when something failed and failing is on", (code != 0) == ((open || len(errors) > 0) && !noFail))
		gv.Ensures("exit status is 0 or 1", code == 0 || code == 1)
	})
	exit(issues, errors, noFail)
	gv.Ensures("exit always ends the process", false)
}
