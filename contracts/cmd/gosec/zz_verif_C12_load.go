package main

import (
	"encoding/json"
	"errors"
	"io"
	"os"
	"path/filepath"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cmd/vflag"
	"github.com/securego/gosec/v2/internal/gv"
)

func gen_C12_flags(r *gv.Rand) (map[gosec.GlobalOption]string, bool, bool, bool, [3]string, string, gosec.GlobalOption) {
	opts := []gosec.GlobalOption{gosec.Nosec, gosec.ShowIgnored, gosec.Audit, gosec.NoSecAlternative, gosec.ExcludeRules, gosec.IncludeRules, "other"}
	vals := []string{"true", "enabled", "false", "", "G101", "G102,G304", "falsePositive"}
	m := map[gosec.GlobalOption]string{}
	for n := r.Intn(5); n > 0; n-- {
		m[opts[r.Intn(len(opts))]] = vals[r.Intn(len(vals))]
	}
	pick := func() string {
		if r.Intn(2) == 0 {
			return ""
		}
		return vals[r.Intn(len(vals))]
	}
	return m, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, [3]string{pick(), pick(), pick()}, pick(), opts[r.Intn(len(opts))]
}

func spec_C12_want(file map[gosec.GlobalOption]string, nosec, show, audit bool, alt, include, exclude string, opt gosec.GlobalOption) string {
	switch {
	case opt == gosec.Nosec && nosec, opt == gosec.ShowIgnored && show, opt == gosec.Audit && audit:
		return "true"
	case opt == gosec.NoSecAlternative && alt != "":
		return alt
	case opt == gosec.IncludeRules && include != "":
		return include
	case opt == gosec.ExcludeRules && exclude != "":
		return exclude
	}
	return file[opt]
}

func spec_C12_has(file map[gosec.GlobalOption]string, nosec, show, audit bool, alt string, opt gosec.GlobalOption) bool {
	_, ok := file[opt]
	return ok || opt == gosec.Nosec && nosec || opt == gosec.ShowIgnored && show || opt == gosec.Audit && audit ||
		opt == gosec.NoSecAlternative && alt != "" || opt == gosec.IncludeRules || opt == gosec.ExcludeRules
}

// The options of the command line go before the ones of the configuration file, which stay otherwise.
func verif_C12_flags(file map[gosec.GlobalOption]string, nosec, show, audit bool, text [3]string, exclude string, opt gosec.GlobalOption) {
	gv.Requires(file != nil)
	alt, include := text[0], text[1]
	flagIgnoreNoSec, flagShowIgnored, flagEnableAudit = &nosec, &show, &audit
	flagAlternativeNoSec, flagRulesInclude = &alt, &include
	flagRulesExclude = vflag.ValidatedFlag{Value: exclude}
	ex := exclude
	want := spec_C12_want(file, nosec, show, audit, alt, include, ex, opt)
	has := spec_C12_has(file, nosec, show, audit, alt, opt)
	name := "config.json"
	gv.Stub(gosec.Config.ReadFrom, func(c gosec.Config, r io.Reader) (int64, error) {
		c[gosec.Globals] = file
		if gv.Arbitrary[bool]() {
			return 0, errors.New("unreadable")
		}
		return 0, nil
	})
	if gv.Native() {
		dir, _ := os.MkdirTemp("", "gv")
		defer os.RemoveAll(dir)
		name = filepath.Join(dir, name)
		b, _ := json.Marshal(map[string]any{gosec.Globals: file})
		_ = os.WriteFile(name, b, 0o600)
	}
	c, err := loadConfig(name)
	gv.Ensures("a configuration or an error", (err == nil) == (c != nil))
	if err == nil {
		v, err := c.GetGlobal(opt)
		gv.Ensures("options of the command line win, the others are the ones of the file", (err == nil) == has && (!has || v == want))
	}
}

func gen_C12_noflags(r *gv.Rand) (bool, bool, bool, [3]string, string, gosec.GlobalOption) {
	_, a, b, c, t, e, o := gen_C12_flags(r)
	return a, b, c, t, e, o
}

// Without a configuration file only the command line counts.
func verif_C12_noflags(nosec, show, audit bool, text [3]string, exclude string, opt gosec.GlobalOption) {
	alt, include := text[0], text[1]
	flagIgnoreNoSec, flagShowIgnored, flagEnableAudit = &nosec, &show, &audit
	flagAlternativeNoSec, flagRulesInclude = &alt, &include
	flagRulesExclude = vflag.ValidatedFlag{Value: exclude}
	ex := exclude
	want := spec_C12_want(nil, nosec, show, audit, alt, include, ex, opt)
	has := spec_C12_has(nil, nosec, show, audit, alt, opt)
	c, err := loadConfig("")
	gv.Ensures("no file, no error", err == nil && c != nil)
	v, err := c.GetGlobal(opt)
	gv.Ensures("the options of the command line are taken", (err == nil) == has && (!has || v == want))
}
