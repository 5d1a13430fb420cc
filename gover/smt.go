package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- SMT-LIB emission ----

type emitter struct {
	smtStrings bool
	decls      strings.Builder
	defs       strings.Builder
	declared   map[string]bool
	names      map[*Term]string
	refs       map[*Term]int
	lits       map[string]bool
	usesRank   bool
	hasQuant   bool
	order      []*Term
	seen       map[*Term]bool
}

func newEmitter(smtStrings bool) *emitter {
	return &emitter{smtStrings: smtStrings, declared: map[string]bool{}, names: map[*Term]string{},
		refs: map[*Term]int{}, lits: map[string]bool{}, seen: map[*Term]bool{}}
}

func q(n string) string { return "|" + n + "|" }

func (e *emitter) sort(s Sort) string {
	if e.smtStrings {
		return strings.ReplaceAll(string(s), "Str", "String")
	}
	return string(s)
}

func (e *emitter) visit(t *Term) {
	e.refs[t]++
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	for _, a := range t.args {
		e.visit(a)
	}
	e.order = append(e.order, t)
}

var strNative = map[string]string{
	"$len": "str.len", "$concat": "str.++", "$prefix": "str.prefixof", "$suffix": "str.suffixof",
	"$contains": "str.contains", "$substr": "str.substr", "$indexof": "str.indexof", "$replace1": "str.replace",
	"$replaceall": "str.replace_all", "$code": "str.to_code", "$at": "str.at", "$fromcode": "str.from_code", "$lt": "str.<", "$toint": "str.to_int", "$fromint": "str.from_int", "$isdigit": "str.is_digit",
	"$inre_digits": "INRE_DIGITS", "$inre_nodash": "INRE",
}

func smtStrLit(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c >= 32 && c < 127 && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *emitter) declare(t *Term) {
	switch t.op {
	case "var":
		if !e.declared[t.name] {
			e.declared[t.name] = true
			fmt.Fprintf(&e.decls, "(declare-fun %s () %s)\n", q(t.name), e.sort(t.sort))
		}
	case "str":
		e.lits[t.name] = true
	case "app":
		if t.name == "$lt" && !e.smtStrings {
			e.usesRank = true
			return
		}
		if e.smtStrings {
			if _, ok := strNative[t.name]; ok {
				return
			}
		}
		if !e.declared[t.name] {
			e.declared[t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, e.sort(a.sort))
			}
			fmt.Fprintf(&e.decls, "(declare-fun %s (%s) %s)\n", q(t.name), strings.Join(ss, " "), e.sort(t.sort))
		}
	case "forall", "exists":
		e.hasQuant = true
	}
}

// ref prints a reference to t, using lets in scope.
func (e *emitter) ref(t *Term, lets map[*Term]string) string {
	if n, ok := lets[t]; ok {
		return n
	}
	if n, ok := e.names[t]; ok {
		return n
	}
	return e.body(t, lets)
}

func (e *emitter) body(t *Term, lets map[*Term]string) string {
	switch t.op {
	case "int":
		if t.iv.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.iv.String(), "-") + ")"
		}
		return t.iv.String()
	case "true", "false":
		return t.op
	case "handle":
		return fmt.Sprintf("(- %d)", 1000000+t.id)
	case "str":
		if e.smtStrings {
			return smtStrLit(t.name)
		}
		return q("lit:" + litName(t.name))
	case "var", "bvar":
		return q(t.name)
	case "constarr":
		if v, ok := e.valueText(t.args[0]); ok {
			return fmt.Sprintf("((as const %s) %s)", e.sort(t.sort), v)
		}
		if t.bound {
			return fmt.Sprintf("((as const %s) %s)", e.sort(t.sort), e.ref(t.args[0], lets))
		}
		// cvc5 takes only values here: an array constant with a defining axiom
		n := fmt.Sprintf("ca%d", t.id)
		if !e.declared[n] {
			e.declared[n] = true
			fmt.Fprintf(&e.defs, "(declare-fun %s () %s)\n", n, e.sort(t.sort))
			ks := idxSort(t.sort)
			fmt.Fprintf(&e.defs, "(assert (forall ((k %s)) (! (= (select %s k) %s) :pattern ((select %s k)))))\n", e.sort(ks), n, e.ref(t.args[0], nil), n)
		}
		return n
	case "forall", "exists":
		vars := t.qvars()
		var vs []string
		for _, v := range vars {
			vs = append(vs, fmt.Sprintf("(%s %s)", q(v.name), e.sort(v.sort)))
		}
		body := e.quantBody(t.args[0], lets)
		if ps := t.qpats(); len(ps) > 0 {
			var pb strings.Builder
			for _, p := range ps {
				// a pattern may be a conjunction "pats" of several terms
				if p.op == "pats" {
					pb.WriteString(" :pattern (")
					for i, a := range p.args {
						if i > 0 {
							pb.WriteByte(' ')
						}
						pb.WriteString(e.tree(a))
					}
					pb.WriteString(")")
				} else {
					pb.WriteString(" :pattern (" + e.tree(p) + ")")
				}
			}
			if emitQid {
				fmt.Fprintf(&pb, " :qid q%d", t.id)
			}
			body = "(! " + body + pb.String() + ")"
		} else if emitQid {
			body = fmt.Sprintf("(! %s :qid q%d)", body, t.id)
		}
		return fmt.Sprintf("(%s (%s) %s)", t.op, strings.Join(vs, " "), body)
	}
	head := t.op
	switch t.op {
	case "app":
		head = q(t.name)
		if t.name == "$lt" && !e.smtStrings {
			return fmt.Sprintf("(< (rank %s) (rank %s))", e.ref(t.args[0], lets), e.ref(t.args[1], lets))
		}
		if e.smtStrings {
			if n, ok := strNative[t.name]; ok {
				head = n
				if n == "INRE_DIGITS" {
					return fmt.Sprintf("(str.in_re %s (re.+ (re.range \"0\" \"9\")))", e.ref(t.args[0], lets))
				}
			}
		}
		if len(t.args) == 0 {
			return head
		}
	case "mk":
		head = "mk_" + t.name
		if len(t.args) == 0 {
			return head
		}
	case "sel":
		head = selName(t.name)
	case "neg":
		head = "-"
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(head)
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(e.ref(a, lets))
	}
	b.WriteByte(')')
	return b.String()
}

// valueText prints t when it is an SMT value built from numerals and constructors.
func (e *emitter) valueText(t *Term) (string, bool) {
	switch t.op {
	case "int", "true", "false":
		return e.body(t, nil), true
	case "str":
		if e.smtStrings {
			return e.body(t, nil), true
		}
	case "mk":
		r := "(mk_" + t.name
		for _, a := range t.args {
			v, ok := e.valueText(a)
			if !ok {
				return "", false
			}
			r += " " + v
		}
		if len(t.args) == 0 {
			return r[1:], true
		}
		return r + ")", true
	}
	return "", false
}

func selName(n string) string { return "sel_" + n }

// tree prints with only global names (patterns may not use lets).
func (e *emitter) tree(t *Term) string { return e.ref(t, nil) }

func (e *emitter) quantBody(t *Term, outer map[*Term]string) string {
	// shared bound subterms not under inner quantifiers become lets
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.bound || x.op == "bvar" {
			return
		}
		if _, ok := outer[x]; ok {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		if x.op != "forall" && x.op != "exists" {
			for _, a := range x.args {
				walk(a)
			}
		}
		order = append(order, x)
	}
	walk(t)
	lets := map[*Term]string{}
	for k, v := range outer {
		lets[k] = v
	}
	var pre strings.Builder
	n := 0
	for _, x := range order {
		if cnt[x] > 1 && x != t && len(x.args) > 0 {
			def := e.body(x, lets)
			name := fmt.Sprintf("l%d", x.id)
			fmt.Fprintf(&pre, "(let ((%s %s)) ", name, def)
			lets[x] = name
			n++
		}
	}
	return pre.String() + e.ref(t, lets) + strings.Repeat(")", n)
}

var litNames = map[string]string{}
var litMu sync.Mutex

func litName(s string) string {
	litMu.Lock()
	defer litMu.Unlock()
	if n, ok := litNames[s]; ok {
		return n
	}
	n := strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, s)
	if len(n) > 24 {
		n = n[:24]
	}
	n = fmt.Sprintf("%s~%d", n, len(litNames))
	litNames[s] = n
	return n
}

// script builds an SMT-LIB script asserting all of ts.
func script(ts []*Term, smtStrings bool, getModel bool) string {
	e := newEmitter(smtStrings)
	for _, t := range ts {
		e.visit(t)
	}
	for _, t := range e.order {
		e.declare(t)
	}
	for _, t := range e.order {
		if t.bound || len(t.args) == 0 {
			continue
		}
		if t.op == "ite" && t.sort != SBool {
			// a constant with a defining equation, so that triggers may mention it
			def := e.body(t, nil)
			n := fmt.Sprintf("d%d", t.id)
			fmt.Fprintf(&e.defs, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, e.sort(t.sort), n, def)
			e.names[t] = n
			continue
		}
		if e.refs[t] > 1 || t.op == "forall" || t.op == "exists" {
			if t.op == "pats" {
				continue
			}
			def := e.body(t, nil)
			n := fmt.Sprintf("d%d", t.id)
			fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", n, e.sort(t.sort), def)
			e.names[t] = n
		}
	}
	var asserts strings.Builder
	named := false
	for _, t := range ts {
		if t.op == "var" && strings.HasPrefix(t.name, "act!") && !getModel {
			named = true
			fmt.Fprintf(&asserts, "(assert (! %s :named N%s))\n", e.ref(t, nil), t.name[4:])
			continue
		}
		fmt.Fprintf(&asserts, "(assert %s)\n", e.ref(t, nil))
	}
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n")
	if getModel {
		out.WriteString("(set-option :produce-models true)\n")
	}
	if named {
		out.WriteString("(set-option :produce-unsat-cores true)\n")
	}
	if !smtStrings {
		out.WriteString("(declare-sort Str 0)\n")
	}
	out.WriteString("(declare-sort Flt 0)\n")
	for _, d := range dtOrder {
		if len(d.fields) == 0 {
			fmt.Fprintf(&out, "(declare-datatypes ((%s 0)) (((mk_%s))))\n", d.name, d.name)
			continue
		}
		fmt.Fprintf(&out, "(declare-datatypes ((%s 0)) (((mk_%s", d.name, d.name)
		for i, s := range d.sorts {
			fmt.Fprintf(&out, " (%s %s)", selName(fmt.Sprintf("%s.%d", d.name, i)), e.sort(s))
		}
		out.WriteString("))))\n")
	}
	if !smtStrings {
		e.lits[""] = true
		ls := make([]string, 0, len(e.lits))
		for l := range e.lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			fmt.Fprintf(&out, "(declare-fun %s () Str)\n", q("lit:"+litName(l)))
		}
		if len(ls) > 1 {
			out.WriteString("(assert (distinct")
			for _, l := range ls {
				out.WriteString(" " + q("lit:"+litName(l)))
			}
			out.WriteString("))\n")
		}
		if e.usesRank {
			out.WriteString("(declare-fun rank (Str) Real)\n(declare-fun unrank (Real) Str)\n")
			out.WriteString("(assert (forall ((s Str)) (! (= (unrank (rank s)) s) :pattern ((rank s)))))\n")
			out.WriteString("(assert (forall ((s Str)) (! (>= (rank s) (rank " + q("lit:"+litName("")) + ")) :pattern ((rank s)))))\n")
			for i := 1; i < len(ls); i++ {
				fmt.Fprintf(&out, "(assert (< (rank %s) (rank %s)))\n", q("lit:"+litName(ls[i-1])), q("lit:"+litName(ls[i])))
			}
		}
		if e.declared["$len"] {
			for _, l := range ls {
				fmt.Fprintf(&asserts, "(assert (= (|$len| %s) %d))\n", q("lit:"+litName(l)), len(l))
			}
			asserts.WriteString("(assert (forall ((s Str)) (! (and (>= (|$len| s) 0) (=> (= (|$len| s) 0) (= s " + q("lit:"+litName("")) + "))) :pattern ((|$len| s)))))\n")
			if e.declared["$concat"] {
				asserts.WriteString("(assert (forall ((s Str) (t Str)) (! (= (|$len| (|$concat| s t)) (+ (|$len| s) (|$len| t))) :pattern ((|$concat| s t)))))\n")
			}
		}
	}
	if !smtStrings && e.declared["$concat"] && e.declared["$substr"] {
		z := q("lit:" + litName(""))
		fmt.Fprintf(&asserts, "(assert (forall ((s Str) (t Str)) (! (and (=> (= t %s) (= (|$concat| s t) s)) (=> (= s %s) (= (|$concat| s t) t))) :pattern ((|$concat| s t)))))\n", z, z)
	}
	out.WriteString(e.decls.String())
	out.WriteString(e.defs.String())
	out.WriteString(asserts.String())
	out.WriteString("(check-sat)\n")
	if getModel {
		out.WriteString("(get-model)\n")
	}
	if named {
		out.WriteString("(get-unsat-core)\n")
	}
	return out.String()
}

// unsatCore returns the numbers of the candidates an unsat answer used.
func unsatCore(out string) map[int]bool {
	i := strings.Index(out, "unsat")
	j := strings.IndexByte(out[max(i, 0):], '(')
	if i < 0 || j < 0 {
		return nil
	}
	k := strings.IndexByte(out[i+j:], ')')
	if k < 0 || strings.Contains(out[i+j:i+j+k], "error") {
		return nil
	}
	core := map[int]bool{}
	for _, w := range strings.Fields(out[i+j+1 : i+j+k]) {
		n, err := strconv.Atoi(strings.TrimPrefix(w, "N"))
		if err != nil {
			return nil
		}
		core[n] = true
	}
	return core
}

// ---- solver portfolio ----

type solverResult struct {
	verdict string // unsat, sat, unknown
	solver  string
	secs    float64
	output  string
}

type solverCmd struct {
	name string
	args []string
}

func solverCmds(timeout float64, quick bool) []solverCmd {
	ms := fmt.Sprintf("-t:%d", int(timeout*1000))
	z3 := solverCmd{"z3-new", []string{"z3-new", ms}}
	z3e := solverCmd{"z3-new-ematch", []string{"z3-new", ms, "smt.mbqi=false", "smt.auto_config=false"}}
	cvc := solverCmd{"cvc5", []string{"cvc5", "-q", "--lang=smt2", "--arrays-exp", "--strings-exp", fmt.Sprintf("--tlimit=%d", int(timeout*1000))}}
	z3o := solverCmd{"z3", []string{"z3", ms}}
	if quick {
		return []solverCmd{z3, z3e}
	}
	return []solverCmd{z3, z3e, cvc, z3o}
}

var (
	solverMu    sync.Mutex
	solverTime  = map[string]float64{}
	solverCount = map[string]int{}
	procSem     = make(chan struct{}, 10)
	queryN      int
)

var scratchDir string

// solverFirst is tried alone before the portfolio: pattern instantiation
// only and no array extensionality. It is fast where the full theory makes
// matching loops, and incomplete, so only its "unsat" counts.
func solverFirst(timeout float64) solverCmd {
	return solverCmd{"z3-new-noext", []string{"z3-new", fmt.Sprintf("-t:%d", int(timeout*1000)),
		"smt.mbqi=false", "smt.auto_config=false", "smt.array.extensional=false"}}
}

// solve runs a portfolio on a script; the first definite answer wins. The
// first two start at once, the others when the first has not answered soon.
func solve(text string, timeout float64, quick, hasty bool) solverResult {
	solverMu.Lock()
	queryN++
	f := filepath.Join(scratchDir, fmt.Sprintf("q%d.smt2", queryN))
	solverMu.Unlock()
	if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
		return solverResult{verdict: "unknown", output: err.Error()}
	}
	if os.Getenv("GOVER_KEEP") == "" {
		defer os.Remove(f)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmds := append([]solverCmd{solverFirst(timeout)}, solverCmds(timeout, quick)...)
	ch := make(chan solverResult, len(cmds))
	firstDone := make(chan struct{})
	t00 := time.Now()
	for i, c := range cmds {
		go func() {
			if i == 0 {
				defer close(firstDone)
			} else if i > 1 {
				select {
				case <-firstDone:
				case <-ctx.Done():
				case <-time.After(300 * time.Millisecond):
				}
			}
			procSem <- struct{}{}
			defer func() { <-procSem }()
			if ctx.Err() != nil {
				ch <- solverResult{verdict: "unknown", solver: c.name, output: "cancelled"}
				return
			}
			t0 := time.Now()
			c2, cancel2 := context.WithTimeout(ctx, time.Duration((timeout+3)*float64(time.Second)))
			defer cancel2()
			cmd := exec.CommandContext(c2, c.args[0], append(c.args[1:], f)...)
			out, _ := cmd.CombinedOutput()
			r := solverResult{verdict: "unknown", solver: c.name, secs: time.Since(t0).Seconds(), output: string(out)}
			for _, ln := range strings.Split(string(out), "\n") {
				ln = strings.TrimSpace(ln)
				if ln == "sat" && c.name == "z3-new-noext" {
					break
				}
				if ln == "unsat" || ln == "sat" {
					r.verdict = ln
					break
				}
				if ln == "unknown" || ln == "timeout" {
					break
				}
				if strings.HasPrefix(ln, "(error") {
					r.verdict = "error"
					break
				}
			}
			solverMu.Lock()
			solverTime[c.name] += r.secs
			solverMu.Unlock()
			if i == 0 && hasty && r.verdict == "unknown" && ctx.Err() == nil && time.Since(t00).Seconds() < timeout/2 {
				// no more instances: the others rarely find a proof
				time.AfterFunc(250*time.Millisecond, cancel)
			}
			ch <- r
		}()
	}
	best := solverResult{verdict: "unknown"}
	for range cmds {
		r := <-ch
		if r.verdict == "unsat" || r.verdict == "sat" {
			solverMu.Lock()
			solverCount[r.solver]++
			solverMu.Unlock()
			return r
		}
		if r.verdict == "error" && best.verdict != "error" {
			best = r
		} else if best.solver == "" && r.output != "cancelled" {
			best = r
		}
	}
	if best.verdict == "error" {
		fmt.Fprintln(os.Stderr, "gover: solver error:", firstLine(best.output))
		best.verdict = "unknown"
	}
	return best
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var emitQid = os.Getenv("GOVER_QID") != ""
