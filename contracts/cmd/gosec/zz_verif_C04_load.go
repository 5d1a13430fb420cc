package main

import (
	"io"
	"log"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C04_rules(r *gv.Rand) (bool, string, string, string) {
	ids := []string{"G101", "G102", "G304", "G401", "G501", "G601", "G115", "G602", "G407", "G999", ""}
	pick := func() string {
		var l []string
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, ids[r.Intn(len(ids))])
		}
		return strings.Join(l, ",")
	}
	return r.Intn(2) == 0, pick(), pick(), ids[r.Intn(len(ids))]
}

func gen_C04_analyzers(r *gv.Rand) (bool, string, string, string) { return gen_C04_rules(r) }

func spec_C04_in(id, list string) bool {
	ids := strings.Split(list, ",")
	return gv.Any(0, len(ids), func(k int) bool { return ids[k] == id })
}

func verif_C04_rules(track bool, include, exclude, id string) {
	gv.Inv(func(it int, m map[string]bool, ids []string) bool {
		_, has := m[id]
		return has == gv.Any(0, it, func(k int) bool { return ids[k] == id })
	})
	flagTrackSuppressions = &track
	if gv.Native() {
		logger = log.New(io.Discard, "", 0)
	}
	if include == "" {
		if exclude == "" {
			rl := loadRules(include, exclude)
			sup := rl.RuleSuppressed[id]
			_, listed := rl.RuleSuppressed[id]
			_, has := rl.Rules[id]
			gv.Ensures("nothing given: nothing suppressed, everything runs", !sup && has == listed)
		} else {
			rl := loadRules(include, exclude)
			sup, listed := rl.RuleSuppressed[id]
			_, has := rl.Rules[id]
			out := spec_C04_in(id, exclude)
			gv.Ensures("-exclude: a rule is suppressed exactly when it is listed", !listed || sup == out)
			gv.Ensures("-exclude: a rule runs unless it is suppressed and suppressions are not tracked", has == (listed && (track || !out)))
		}
	} else {
		if exclude == "" {
			rl := loadRules(include, exclude)
			sup, listed := rl.RuleSuppressed[id]
			_, has := rl.Rules[id]
			out := !spec_C04_in(id, include)
			gv.Ensures("-include: a rule is suppressed exactly when it is not listed", !listed || sup == out)
			gv.Ensures("-include: a rule runs unless it is suppressed and suppressions are not tracked", has == (listed && (track || !out)))
		} else {
			rl := loadRules(include, exclude)
			sup, listed := rl.RuleSuppressed[id]
			_, has := rl.Rules[id]
			out := !spec_C04_in(id, include) || spec_C04_in(id, exclude)
			gv.Ensures("both: a rule is suppressed exactly when -exclude lists it or -include does not", !listed || sup == out)
			gv.Ensures("both: a rule runs unless it is suppressed and suppressions are not tracked", has == (listed && (track || !out)))
		}
	}
}

func verif_C04_analyzers(track bool, include, exclude, id string) {
	gv.Inv(func(it int, m map[string]bool, ids []string) bool {
		_, has := m[id]
		return has == gv.Any(0, it, func(k int) bool { return ids[k] == id })
	})
	flagTrackSuppressions = &track
	if gv.Native() {
		logger = log.New(io.Discard, "", 0)
	}
	if include == "" {
		if exclude == "" {
			al := loadAnalyzers(include, exclude)
			sup := al.AnalyzerSuppressed[id]
			_, listed := al.AnalyzerSuppressed[id]
			_, has := al.Analyzers[id]
			gv.Ensures("nothing given: nothing suppressed, everything runs", !sup && has == listed)
		} else {
			al := loadAnalyzers(include, exclude)
			sup, listed := al.AnalyzerSuppressed[id]
			_, has := al.Analyzers[id]
			out := spec_C04_in(id, exclude)
			gv.Ensures("-exclude: an analyzer is suppressed exactly when it is listed", !listed || sup == out)
			gv.Ensures("-exclude: an analyzer runs unless it is suppressed and suppressions are not tracked", has == (listed && (track || !out)))
		}
	} else {
		if exclude == "" {
			al := loadAnalyzers(include, exclude)
			sup, listed := al.AnalyzerSuppressed[id]
			_, has := al.Analyzers[id]
			out := !spec_C04_in(id, include)
			gv.Ensures("-include: an analyzer is suppressed exactly when it is not listed", !listed || sup == out)
			gv.Ensures("-include: an analyzer runs unless it is suppressed and suppressions are not tracked", has == (listed && (track || !out)))
		} else {
			al := loadAnalyzers(include, exclude)
			sup, listed := al.AnalyzerSuppressed[id]
			_, has := al.Analyzers[id]
			out := !spec_C04_in(id, include) || spec_C04_in(id, exclude)
			gv.Ensures("both: an analyzer is suppressed exactly when -exclude lists it or -include does not", !listed || sup == out)
			gv.Ensures("both: an analyzer runs unless it is suppressed and suppressions are not tracked", has == (listed && (track || !out)))
		}
	}
}
