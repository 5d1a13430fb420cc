package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Sort is an SMT sort, written as SMT-LIB text.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str"
	SFlt  Sort = "Flt"
	SSl   Sort = "Slice"
	SIf   Sort = "Iface"
	SH    Sort = "H"
)

func arrSort(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

func elemSort(a Sort) Sort { _, e := splitArr(a); return e }
func idxSort(a Sort) Sort  { i, _ := splitArr(a); return i }

func splitArr(a Sort) (Sort, Sort) {
	s := string(a)
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	s = s[7 : len(s)-1]
	depth := 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(s[:i]), Sort(s[i+1:])
			}
		}
	}
	panic("bad array sort " + s)
}

// Term is a hash-consed term.
type Term struct {
	id    int
	op    string // see the constructors
	name  string // var / app / str literal / datatype
	args  []*Term
	sort  Sort
	iv    *big.Int
	h     any  // handle payload
	bound bool // mentions a bound variable
	depth int
}

var (
	termMu   sync.Mutex
	termTab  = map[string]*Term{}
	termList []*Term
)

func intern(op, name string, sort Sort, iv *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(sort))
	if iv != nil {
		b.WriteByte('|')
		b.WriteString(iv.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: len(termList), op: op, name: name, args: args, sort: sort, iv: iv}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	if op == "bvar" {
		t.bound = true
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

var (
	tTrue  = intern("true", "", SBool, nil)
	tFalse = intern("false", "", SBool, nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(i int64) *Term          { return intern("int", "", SInt, big.NewInt(i)) }
func mkBig(i *big.Int) *Term       { return intern("int", "", SInt, i) }
func mkStr(s string) *Term         { return intern("str", s, SStr, nil) }
func mkVar(n string, s Sort) *Term { return intern("var", n, s, nil) }
func mkApp(f string, s Sort, args ...*Term) *Term {
	return intern("app", f, s, nil, args...)
}

var freshN int

func fresh(hint string, s Sort) *Term {
	freshN++
	return mkVar(fmt.Sprintf("%s!%d", sanitize(hint), freshN), s)
}
func freshB(hint string, s Sort) *Term {
	freshN++
	return intern("bvar", fmt.Sprintf("%s?%d", sanitize(hint), freshN), s, nil)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, s)
}

// handles carry executor-level data (closures, addresses, ghost slices).
// Function values and addresses have sort Int (a unique constant each); ghost
// slices have the pseudo sort H, which never reaches the solver.
func mkHandle(kind string, sort Sort, h any) *Term {
	freshN++
	t := &Term{id: len(termList), op: "handle", name: fmt.Sprintf("%s#%d", kind, freshN), sort: sort, h: h}
	termList = append(termList, t)
	return t
}

func isInt(t *Term) bool { return t.op == "int" }

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return intern("not", "", SBool, nil, a)
}

func conjuncts(t *Term, out []*Term) []*Term {
	if t.op == "and" {
		for _, a := range t.args {
			out = conjuncts(a, out)
		}
		return out
	}
	if t.op == "not" && t.args[0].op == "or" {
		for _, a := range t.args[0].args {
			out = conjuncts(mkNot(a), out)
		}
		return out
	}
	return append(out, t)
}

func mkAnd(ts ...*Term) *Term {
	var flat []*Term
	for _, t := range ts {
		if t == tFalse {
			return tFalse
		}
		flat = conjuncts(t, flat)
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range flat {
		if t == tFalse {
			return tFalse
		}
		if t == tTrue || seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	// x == c1 and x == c2 with different constants is false
	eqc := map[*Term]*Term{}
	for _, t := range out {
		if seen[mkNot(t)] {
			return tFalse
		}
		if t.op == "=" {
			x, c := t.args[0], t.args[1]
			if isConst(x) {
				x, c = c, x
			}
			if isConst(c) {
				if p, ok := eqc[x]; ok && p != c {
					return tFalse
				}
				eqc[x] = c
			}
		}
	}
	if len(eqc) > 0 {
		// drop disequalities implied by an equality
		var o2 []*Term
		for _, t := range out {
			if t.op == "not" && t.args[0].op == "=" {
				e := t.args[0]
				x, c := e.args[0], e.args[1]
				if isConst(x) {
					x, c = c, x
				}
				if isConst(c) {
					if p, ok := eqc[x]; ok && p != c {
						continue
					}
				}
			}
			o2 = append(o2, t)
		}
		out = o2
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return intern("and", "", SBool, nil, out...)
}

func mkOr(ts ...*Term) *Term {
	if len(ts) == 0 {
		return tFalse
	}
	acc := ts[0]
	for _, t := range ts[1:] {
		acc = or2(acc, t)
	}
	return acc
}

func disjuncts(t *Term, out []*Term) []*Term {
	if t.op == "or" {
		for _, a := range t.args {
			out = disjuncts(a, out)
		}
		return out
	}
	return append(out, t)
}

// splitCommon returns the common conjuncts of a and b and the rests.
func splitCommon(a, b *Term) (common, ra, rb []*Term) {
	ca, cb := conjuncts(a, nil), conjuncts(b, nil)
	inB := map[*Term]bool{}
	for _, t := range cb {
		inB[t] = true
	}
	inA := map[*Term]bool{}
	for _, t := range ca {
		inA[t] = true
		if inB[t] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	return
}

func or2(a, b *Term) *Term {
	if a == tTrue || b == tTrue {
		return tTrue
	}
	if a == tFalse {
		return b
	}
	if b == tFalse {
		return a
	}
	if a == b {
		return a
	}
	common, ra, rb := splitCommon(a, b)
	if len(ra) == 0 || len(rb) == 0 {
		return mkAnd(common...)
	}
	if len(ra) == 1 && len(rb) == 1 && mkNot(ra[0]) == rb[0] {
		return mkAnd(common...)
	}
	// a = C&x , b = C&!x&R  =>  C & (x | R)
	if len(ra) == 1 {
		n := mkNot(ra[0])
		for i, t := range rb {
			if t == n {
				rest := append(append([]*Term{}, rb[:i]...), rb[i+1:]...)
				return mkAnd(append(common, or2(ra[0], mkAnd(rest...)))...)
			}
		}
	}
	if len(rb) == 1 {
		n := mkNot(rb[0])
		for i, t := range ra {
			if t == n {
				rest := append(append([]*Term{}, ra[:i]...), ra[i+1:]...)
				return mkAnd(append(common, or2(mkAnd(rest...), rb[0]))...)
			}
		}
	}
	x, y := mkAnd(ra...), mkAnd(rb...)
	var flat []*Term
	seen := map[*Term]bool{}
	for _, t := range disjuncts(y, disjuncts(x, nil)) {
		if !seen[t] {
			seen[t] = true
			flat = append(flat, t)
		}
	}
	for _, t := range flat {
		if seen[mkNot(t)] {
			return mkAnd(common...)
		}
	}
	o := intern("or", "", SBool, nil, flat...)
	if len(common) == 0 {
		return o
	}
	return mkAnd(append(common, o)...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	return intern("=>", "", SBool, nil, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return or2(c, b)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return or2(mkNot(c), a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == "ite" && b.args[1] == a {
		return mkIte(or2(c, b.args[0]), a, b.args[2])
	}
	// datatype constructors: merge component-wise
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkDT(a.name, args...)
	}
	s := a.sort
	if a.sort == SH || b.sort == SH {
		s = SH
	} else if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	return intern("ite", "", s, nil, c, a, b)
}

func hasHandle(t *Term) bool {
	if t.op == "handle" {
		return true
	}
	if t.op == "ite" {
		return hasHandle(t.args[1]) || hasHandle(t.args[2])
	}
	return false
}

func isConst(t *Term) bool {
	switch t.op {
	case "int", "str", "true", "false", "handle":
		return true
	case "mk":
		for _, a := range t.args {
			if !isConst(a) {
				return false
			}
		}
		return true
	}
	return false
}

// definitelyDistinct is a cheap syntactic disequality test.
func definitelyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isConst(a) && isConst(b) {
		return true
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		for i := range a.args {
			if definitelyDistinct(a.args[i], b.args[i]) {
				return true
			}
		}
		return false
	}
	if a.sort == SInt && b.sort == SInt {
		ba, ca := linBase(a)
		bb, cb := linBase(b)
		if ba == bb && ca.Cmp(cb) != 0 {
			return true
		}
		// references allocated after package initialisation differ from those allocated by it
		if ba == nil && isAllocBase(bb) && cb.Sign() >= 0 && ca.IsInt64() && ca.Int64() <= initLimit {
			return true
		}
		if bb == nil && isAllocBase(ba) && ca.Sign() >= 0 && cb.IsInt64() && cb.Int64() <= initLimit {
			return true
		}
	}
	return false
}

// initLimit bounds the references used by evaluated package initialisers.
var initLimit int64

func isAllocBase(t *Term) bool {
	return t != nil && t.op == "var" && (t.name == "A0" || strings.HasPrefix(t.name, "alloc!"))
}

// linBase splits x+c.
func linBase(t *Term) (*Term, *big.Int) {
	if t.op == "+" && len(t.args) == 2 && isInt(t.args[1]) {
		return t.args[0], t.args[1].iv
	}
	if isInt(t) {
		return nil, t.iv
	}
	return t, bigZero
}

var bigZero = big.NewInt(0)

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if definitelyDistinct(a, b) {
		return tFalse
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s vs %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
		if mkNot(a) == b {
			return tFalse
		}
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if a.sort == SInt && isInt(b) && a.op == "+" && len(a.args) == 2 && isInt(a.args[1]) {
		return mkEq(a.args[0], mkBig(new(big.Int).Sub(b.iv, a.args[1].iv)))
	}
	if a.sort == SInt && isInt(a) && b.op == "+" && len(b.args) == 2 && isInt(b.args[1]) {
		return mkEq(mkBig(new(big.Int).Sub(a.iv, b.args[1].iv)), b.args[0])
	}
	// equality of an ite with a constant
	if r := eqIteConst(a, b); r != nil {
		return r
	}
	if r := eqIteConst(b, a); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("=", "", SBool, nil, a, b)
}

func eqIteConst(a, c *Term) *Term {
	if a.op != "ite" || !isConst(c) {
		return nil
	}
	x, y := a.args[1], a.args[2]
	xc := isConst(x) || x.op == "ite"
	yc := isConst(y) || y.op == "ite"
	if x.sort == SInt || x.sort == SStr || x.sort == SIf {
		if (isConst(x) || isConst(y)) || (xc && yc) {
			return mkIte(a.args[0], mkEq(x, c), mkEq(y, c))
		}
	}
	return nil
}

// ---- arithmetic ----

func mkAdd(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBig(new(big.Int).Add(a.iv, b.iv))
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) {
		if b.iv.Sign() == 0 {
			return a
		}
		if a.op == "+" && isInt(a.args[1]) {
			return mkAdd(a.args[0], mkBig(new(big.Int).Add(a.args[1].iv, b.iv)))
		}
		if a.op == "ite" && isInt(a.args[1]) && isInt(a.args[2]) {
			return mkIte(a.args[0], mkAdd(a.args[1], b), mkAdd(a.args[2], b))
		}
		return intern("+", "", SInt, nil, a, b)
	}
	// float constants outwards
	if a.op == "+" && isInt(a.args[1]) {
		return mkAdd(mkAdd(a.args[0], b), a.args[1])
	}
	if b.op == "+" && isInt(b.args[1]) {
		return mkAdd(mkAdd(a, b.args[0]), b.args[1])
	}
	if a.op == "neg" && a.args[0] == b || b.op == "neg" && b.args[0] == a {
		return mkInt(0)
	}
	// (x + -y) + y = x
	if a.op == "+" && len(a.args) == 2 && a.args[1].op == "neg" && a.args[1].args[0] == b {
		return a.args[0]
	}
	if b.op == "+" && len(b.args) == 2 && b.args[1].op == "neg" && b.args[1].args[0] == a {
		return b.args[0]
	}
	if b.op == "neg" && a.op == "+" && a.args[0] == b.args[0] {
		return a.args[1]
	}
	if b.op == "neg" && a.op == "+" && a.args[1] == b.args[0] {
		return a.args[0]
	}
	return intern("+", "", SInt, nil, a, b)
}

func mkNeg(a *Term) *Term {
	if isInt(a) {
		return mkBig(new(big.Int).Neg(a.iv))
	}
	if a.op == "neg" {
		return a.args[0]
	}
	if a.op == "+" && isInt(a.args[1]) {
		return mkAdd(mkNeg(a.args[0]), mkBig(new(big.Int).Neg(a.args[1].iv)))
	}
	return intern("neg", "", SInt, nil, a)
}

func mkSub(a, b *Term) *Term { return mkAdd(a, mkNeg(b)) }

func mkMul(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBig(new(big.Int).Mul(a.iv, b.iv))
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) {
		if b.iv.Sign() == 0 {
			return b
		}
		if b.iv.IsInt64() && b.iv.Int64() == 1 {
			return a
		}
	}
	return intern("*", "", SInt, nil, a, b)
}

func mkLe(a, b *Term) *Term { return mkNot(mkLt(b, a)) }

func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if isInt(a) && isInt(b) {
		return mkBool(a.iv.Cmp(b.iv) < 0)
	}
	ba, ca := linBase(a)
	bb, cb := linBase(b)
	if ba == bb {
		return mkBool(ca.Cmp(cb) < 0)
	}
	// move constants to the right
	if a.op == "+" && isInt(a.args[1]) {
		d := new(big.Int).Sub(cb, ca)
		if bb == nil {
			return mkLt(a.args[0], mkBig(d))
		}
		return mkLt(a.args[0], mkAdd(bb, mkBig(d)))
	}
	if ba == nil && b.op == "+" && isInt(b.args[1]) {
		return mkLt(mkBig(new(big.Int).Sub(ca, cb)), b.args[0])
	}
	if a.op == "ite" && isInt(b) && (isInt(a.args[1]) || isInt(a.args[2])) {
		return mkIte(a.args[0], mkLt(a.args[1], b), mkLt(a.args[2], b))
	}
	if b.op == "ite" && isInt(a) && (isInt(b.args[1]) || isInt(b.args[2])) {
		return mkIte(b.args[0], mkLt(a, b.args[1]), mkLt(a, b.args[2]))
	}
	return intern("<", "", SBool, nil, a, b)
}

// Euclidean helpers; Go's truncated division is built from these in exec.
func mkDiv(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.iv.Sign() != 0 {
		q := new(big.Int)
		q.DivMod(a.iv, b.iv, new(big.Int))
		return mkBig(q)
	}
	return intern("div", "", SInt, nil, a, b)
}
func mkMod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.iv.Sign() != 0 {
		return mkBig(new(big.Int).Mod(a.iv, b.iv))
	}
	return intern("mod", "", SInt, nil, a, b)
}

// ---- arrays ----

// heapConst gives known initial contents for base arrays (package initialisers).
var heapConst = map[*Term]map[*Term]*Term{}

// selMemo remembers reads from merged arrays.
var (
	selMu   sync.Mutex
	selMemo = map[[2]int]*Term{}
)

func mkSelect(a, i *Term) *Term {
	switch a.op {
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if definitelyDistinct(a.args[1], i) {
			return mkSelect(a.args[0], i)
		}
		// a store of the value already there below
	case "constarr":
		return a.args[0]
	case "ite":
		key := [2]int{a.id, i.id}
		selMu.Lock()
		t := selMemo[key]
		selMu.Unlock()
		if t == nil {
			t = mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
			selMu.Lock()
			selMemo[key] = t
			selMu.Unlock()
		}
		return t
	case "var":
		if m := heapConst[a]; m != nil {
			if v, ok := m[i]; ok {
				return v
			}
		}
	}
	if i.op == "ite" && allConstLeaves(i) {
		return mkIte(i.args[0], mkSelect(a, i.args[1]), mkSelect(a, i.args[2]))
	}
	return intern("select", "", elemSort(a.sort), nil, a, i)
}

func allConstLeaves(t *Term) bool {
	if t.op == "ite" {
		return allConstLeaves(t.args[1]) && allConstLeaves(t.args[2])
	}
	return isConst(t)
}

func mkStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if v.sort != elemSort(a.sort) {
		panic(fmt.Sprintf("store sort mismatch: %s into %s (%s)", v.sort, a.sort, v))
	}
	return intern("store", "", a.sort, nil, a, i, v)
}

func mkConstArr(s Sort, v *Term) *Term { return intern("constarr", "", s, nil, v) }

// ---- datatypes ----

type DT struct {
	name   string
	fields []string
	sorts  []Sort
}

var dts, dtOrder = baseDTs()

func baseDTs() (map[string]*DT, []*DT) {
	s := &DT{"Slice", []string{"arr", "off", "len", "cap"}, []Sort{SInt, SInt, SInt, SInt}}
	i := &DT{"Iface", []string{"tid", "pl"}, []Sort{SInt, SInt}}
	return map[string]*DT{"Slice": s, "Iface": i}, []*DT{s, i}
}

func declDT(name string, fields []string, sorts []Sort) *DT {
	if d, ok := dts[name]; ok {
		return d
	}
	d := &DT{name, fields, sorts}
	dts[name] = d
	dtOrder = append(dtOrder, d)
	return d
}

func mkDT(name string, args ...*Term) *Term {
	d := dts[name]
	if len(args) != len(d.sorts) {
		panic("mkDT arity " + name)
	}
	// mk(sel0(x), sel1(x), ...) = x
	if len(args) > 0 && args[0].op == "sel" && args[0].name == name+".0" {
		x := args[0].args[0]
		same := true
		for i, a := range args {
			if a.op != "sel" || a.args[0] != x || a.name != fmt.Sprintf("%s.%d", name, i) {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("mkDT %s field %s: sort %s want %s (%s)", name, d.fields[i], a.sort, d.sorts[i], a))
		}
	}
	return intern("mk", name, Sort(name), nil, args...)
}

func mkSel(t *Term, i int) *Term {
	d := dts[string(t.sort)]
	if d == nil {
		panic("mkSel on " + string(t.sort) + ": " + t.String())
	}
	if t.op == "mk" {
		return t.args[i]
	}
	if t.op == "ite" {
		return mkIte(t.args[0], mkSel(t.args[1], i), mkSel(t.args[2], i))
	}
	return intern("sel", fmt.Sprintf("%s.%d", d.name, i), d.sorts[i], nil, t)
}

func slArr(s *Term) *Term { return mkSel(s, 0) }
func slOff(s *Term) *Term { return mkSel(s, 1) }
func slLen(s *Term) *Term { return mkSel(s, 2) }
func slCap(s *Term) *Term { return mkSel(s, 3) }
func ifTid(s *Term) *Term { return mkSel(s, 0) }
func ifPl(s *Term) *Term  { return mkSel(s, 1) }

// ---- quantifiers ----

// mkForall/mkExists: vars are bvar terms; pats is a list of patterns.
func mkQuant(q string, vars []*Term, body *Term, pats ...*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	used := map[*Term]bool{}
	collectBVars(body, used, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	names := make([]string, len(vs))
	for i, v := range vs {
		names[i] = v.name
	}
	args := append([]*Term{body}, vs...)
	args = append(args, pats...)
	t := intern(q, strings.Join(names, ","), SBool, nil, args...)
	// recompute boundness: free bound variables other than vs
	free := map[*Term]bool{}
	collectBVars(body, free, map[*Term]bool{})
	for _, v := range vs {
		delete(free, v)
	}
	t.bound = len(free) > 0
	return t
}

func (t *Term) qvars() []*Term {
	n := len(strings.Split(t.name, ","))
	return t.args[1 : 1+n]
}
func (t *Term) qpats() []*Term {
	n := len(strings.Split(t.name, ","))
	return t.args[1+n:]
}

func mkForall(vars []*Term, body *Term, pats ...*Term) *Term {
	return mkQuant("forall", vars, body, pats...)
}
func mkExists(vars []*Term, body *Term, pats ...*Term) *Term {
	return mkQuant("exists", vars, body, pats...)
}

func collectBVars(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] || !t.bound {
		return
	}
	seen[t] = true
	if t.op == "bvar" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sub := map[*Term]bool{}
		collectBVars(t.args[0], sub, map[*Term]bool{})
		for _, v := range t.qvars() {
			delete(sub, v)
		}
		for v := range sub {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		collectBVars(a, out, seen)
	}
}

// substitute replaces leaves.
func substitute(t *Term, m map[*Term]*Term) *Term {
	return substRec(t, m, map[*Term]*Term{})
}

func substRec(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = substRec(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "=":
		return mkEq(args[0], args[1])
	case "+":
		return mkAdd(args[0], args[1])
	case "neg":
		return mkNeg(args[0])
	case "*":
		return mkMul(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "div":
		return mkDiv(args[0], args[1])
	case "mod":
		return mkMod(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "constarr":
		return mkConstArr(t.sort, args[0])
	case "mk":
		return mkDT(t.name, args...)
	case "sel":
		var i int
		fmt.Sscanf(t.name[strings.LastIndexByte(t.name, '.')+1:], "%d", &i)
		return mkSel(args[0], i)
	case "app":
		return mkApp(t.name, t.sort, args...)
	case "forall", "exists":
		n := len(t.qvars())
		return mkQuant(t.op, args[1:1+n], args[0], args[1+n:]...)
	}
	return intern(t.op, t.name, t.sort, t.iv, args...)
}

// ---- printing ----

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	switch t.op {
	case "int":
		return t.iv.String()
	case "str":
		return fmt.Sprintf("%q", t.name)
	case "true", "false":
		return t.op
	case "var", "bvar", "handle":
		return t.name
	}
	if d == 0 {
		return "…"
	}
	h := t.op
	if t.op == "app" || t.op == "mk" || t.op == "sel" {
		h = t.name
	}
	if t.op == "forall" || t.op == "exists" {
		return "(" + t.op + " " + t.name + ": " + t.args[0].str(d-1) + ")"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	return "(" + h + " " + strings.Join(p, " ") + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
