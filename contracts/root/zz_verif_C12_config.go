package gosec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
)

func spec_C12_opts() []GlobalOption {
	return []GlobalOption{Nosec, ShowIgnored, Audit, NoSecAlternative, ExcludeRules, IncludeRules, SSA, "", "other"}
}

func spec_C12_vals() []string {
	return []string{"true", "enabled", "false", "disabled", "TRUE", "True", "", "1", "enable", "yes", "G101,G102"}
}

func gen_C12_global(r *gv.Rand) (Config, map[GlobalOption]string, GlobalOption, GlobalOption, string, string) {
	o, v := spec_C12_opts(), spec_C12_vals()
	m := map[GlobalOption]string{}
	for n := r.Intn(4); n > 0; n-- {
		m[o[r.Intn(len(o))]] = v[r.Intn(len(v))]
	}
	c := Config{}
	for n := r.Intn(3); n > 0; n-- {
		c[[]string{"G101", "G104", "global", "G999"}[r.Intn(4)]] = v[r.Intn(len(v))]
	}
	return c, m, o[r.Intn(len(o))], o[r.Intn(len(o))], v[r.Intn(len(v))], []string{"G101", "G104", "G999", "global"}[r.Intn(4)]
}

// Global options: what is set is what is read, and nothing else changes.
func verif_C12_global(c Config, m map[GlobalOption]string, opt, other GlobalOption, val, section string) {
	gv.Requires(c != nil && m != nil)
	c[Globals] = m
	oldv, oldok := m[other]
	olds, oldsok := c[section]
	v0, err0 := c.GetGlobal(other)
	gv.Ensures("an option that is set is read", !oldok || err0 == nil && v0 == oldv)
	gv.Ensures("an option that is not set is an error", oldok || err0 != nil && v0 == "")
	on0, err1 := c.IsGlobalEnabled(other)
	gv.Ensures("an option is enabled exactly when its value is true or enabled", on0 == (oldok && (oldv == "true" || oldv == "enabled")))
	gv.Ensures("asking for an option that is not set is an error", (err1 == nil) == oldok)
	c.SetGlobal(opt, val)
	v, err := c.GetGlobal(opt)
	gv.Ensures("an option has the value it was set to", err == nil && v == val)
	on, err := c.IsGlobalEnabled(opt)
	gv.Ensures("an option set to true or enabled is enabled", err == nil && on == (val == "true" || val == "enabled"))
	v, err = c.GetGlobal(other)
	gv.Ensures("the other options keep their values", other == opt || (err == nil) == oldok && v == oldv)
	s, sok := c[section]
	gv.Ensures("the sections of the rules keep their values", section == Globals || sok == oldsok && (!sok || s == olds))
}

func gen_C12_section(r *gv.Rand) (Config, string, string, string) {
	c, _, _, _, v, s := gen_C12_global(r)
	return c, s, []string{"G101", "G104", "G999", "global"}[r.Intn(4)], v
}

// The sections of the rules.
func verif_C12_section(c Config, section, other string, val string) {
	gv.Requires(c != nil)
	oldv, oldok := c[other]
	v0, err0 := c.Get(other)
	gv.Ensures("a section that is there is read", !oldok || err0 == nil && v0 == oldv)
	gv.Ensures("a section that is not there is an error", oldok || err0 != nil && v0 == nil)
	c.Set(section, val)
	v, err := c.Get(section)
	gv.Ensures("a section has the value it was set to", err == nil && v == any(val))
	v, err = c.Get(other)
	gv.Ensures("the other sections keep their values", other == section || (err == nil) == oldok && (!oldok || v == oldv))
}

func gen_C12_fresh(r *gv.Rand) (GlobalOption, string) {
	o, v := spec_C12_opts(), spec_C12_vals()
	return o[r.Intn(len(o))], v[r.Intn(len(v))]
}

// A new configuration accepts global options.
func verif_C12_fresh(opt GlobalOption, val string) {
	c := NewConfig()
	_, err := c.GetGlobal(opt)
	gv.Ensures("a new configuration sets no option", err != nil)
	c.SetGlobal(opt, val)
	v, err := c.GetGlobal(opt)
	gv.Ensures("a new configuration takes the value of an option", err == nil && v == val)
	gv.Ensures("another configuration is not affected", func() bool {
		_, err := NewConfig().GetGlobal(opt)
		return err != nil
	}())
}

func gen_C12_convert(r *gv.Rand) (Config, map[string]interface{}, string) {
	c, m, o, _, _, _ := gen_C12_global(r)
	s := map[string]interface{}{}
	for k, v := range m {
		switch r.Intn(4) {
		case 0:
			s[string(k)] = r.Intn(2) == 0
		case 1:
			s[string(k)] = float64(r.Intn(3))
		default:
			s[string(k)] = v
		}
	}
	return c, s, string(o)
}

// The globals read from a file keep their values as text.
func verif_C12_convert(c Config, settings map[string]interface{}, opt string) {
	gv.Requires(c != nil && settings != nil)
	gv.Inv(func(it int, m map[GlobalOption]string, visited func(string) bool) bool {
		_, ok := m[GlobalOption(opt)]
		return ok == visited(opt)
	})
	gv.Inv(func(it int, m map[GlobalOption]string, visited func(string) bool) bool {
		return !visited(opt) || m[GlobalOption(opt)] == fmt.Sprintf("%v", settings[opt])
	})
	c[Globals] = settings
	raw, ok := settings[opt]
	want := fmt.Sprintf("%v", raw)
	c.convertGlobals()
	v, err := c.GetGlobal(GlobalOption(opt))
	gv.Ensures("an option of the file has its value", (err == nil) == ok && (!ok || v == want))
	if s, isString := raw.(string); isString {
		gv.Ensures("text is taken as it is", v == s)
	}
	on, _ := c.IsGlobalEnabled(GlobalOption(opt))
	if b, isBool := raw.(bool); isBool && gv.Native() {
		gv.Ensures("true in the file enables an option", on == b)
	}
}

// bounded: reading and writing configurations as JSON.
func gen_C12_json(r *gv.Rand) (string, string, string) {
	c, s, o := gen_C12_convert(r)
	if r.Intn(3) > 0 {
		c[Globals] = s
	} else {
		delete(c, Globals)
	}
	if r.Intn(2) == 0 {
		c["G101"] = map[string]interface{}{"pattern": "(?i)pw", "entropy_threshold": "80.0"}
	}
	b, _ := json.Marshal(c)
	return string(b), o, []string{"G101", "G104", "G999"}[r.Intn(3)]
}

func verif_C12_json(text, opt, section string) {
	if !gv.Native() {
		c := NewConfig()
		c.Set(section, text)
		v, err := c.Get(section)
		gv.Ensures("a section is kept", section == Globals || err == nil && v == any(text))
		return
	}
	var want map[string]interface{}
	err0 := json.Unmarshal([]byte(text), &want)
	c := NewConfig()
	n, err := c.ReadFrom(strings.NewReader(text))
	gv.Ensures("a file that is not JSON is refused", (err == nil) == (err0 == nil))
	if err0 != nil {
		return
	}
	gv.Ensures("the whole file is read", n == int64(len(text)))
	sec, err := c.Get(section)
	wsec, ok := want[section]
	gv.Ensures("the section of a rule is the one of the file", (err == nil) == ok && reflect.DeepEqual(sec, wsec))
	globals, _ := want[Globals].(map[string]interface{})
	raw, ok := globals[opt]
	v, err := c.GetGlobal(GlobalOption(opt))
	gv.Ensures("a global option is the one of the file", (err == nil) == ok && (!ok || v == fmt.Sprint(raw)))
	var buf bytes.Buffer
	m, err := c.WriteTo(&buf)
	gv.Ensures("the whole configuration is written", err == nil && m == int64(buf.Len()))
	d := NewConfig()
	_, err = d.ReadFrom(&buf)
	gv.Ensures("what is written is read back", err == nil && reflect.DeepEqual(c, d))
}
