package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is one symbolic path (or a merge of paths).
type State struct {
	pc    *Term
	heap  map[string]*Term
	alloc *Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{s.pc, h, s.alloc}
}

type Env map[ssa.Value]*Term

func (e Env) clone() Env {
	n := make(Env, len(e)+8)
	for k, v := range e {
		n[k] = v
	}
	return n
}

type Edge struct {
	from, to *ssa.BasicBlock
	st       *State
	env      Env
}

type Closure struct {
	fn       *ssa.Function
	bindings []*Term
	builtin  string // bound method etc.
}

type constCell struct{ val *Term }

type Addr struct {
	kind string // field, cell, elem, local, global, const
	key  string // heap key for local/global
	T    types.Type
	base *Term
	idx  *Term
	path []int
	typ  types.Type // pointee
	cell *constCell
}

type GSlice struct {
	content, off, len *Term
	elem              types.Type
}

type Tuple struct{ vals []*Term }

type GMap struct {
	dom, val, card *Term
	m              *types.Map
}

type MapIter struct {
	key   string // state var holding the index
	ord   string
	pos   string
	card  *Term
	dom   *Term
	ref   *Term
	m     *types.Map
	id    int
	isStr bool
	str   *Term
}

type Oblig struct {
	core   map[int]bool // candidates its proof used; nil when not known
	name   string
	kind   string // ensures, requires, panic, inv, frame
	pc     *Term
	goal   *Term
	nfacts int
	cand   int // candidate index for kind inv, else -1
	where  string
	status string
	solver string
	secs   float64
	detail string
	model  solverResult
}

type Cand struct {
	act     *Term
	desc    string
	alive   bool
	obls    []*Oblig
	active  bool
	failing bool
	user    bool // from a contract's template
	late    bool // tried only when the first pass fails
}

type deferred struct {
	block *ssa.BasicBlock
	pc    *Term
	call  *ssa.CallCommon
	env   Env
	args  []*Term
	fnv   *Term
}

type Frame struct {
	fn        *ssa.Function
	defers    []*deferred
	depth     int
	alloc0    *Term
	loops     map[*ssa.BasicBlock]*Loop
	rpo       []*ssa.BasicBlock
	mode      int // 0 normal, 1 contract application
	havoc     *ssa.Function
	returns   []*Edge
	retVals   [][]*Term
	escape    map[*ssa.Alloc]int
	iters     []*MapIter
	panicking bool
	parent    *Frame // the frame that made the call
	env       Env    // of the instruction being executed
}

type Exec struct {
	prog      *ssa.Program
	frame     *Frame
	facts     []*Term
	axioms    map[*Term]bool
	axiomList []*Term
	obls      []*Oblig
	cands     []*Cand
	dry       int
	binders   [][]*Term
	baseHeap  map[string]*Term
	heapSort  map[string]Sort
	stack     []*ssa.Function
	itStack   []*Term
	userPhase bool
	templates []*template
	alloc0    *Term
	oldState  *State
	modified  []*Term
	pkgInit   map[*ssa.Package]bool

	noPanic    bool
	exactInts  bool
	smtStrings bool
	useGlobals bool
	initMode   bool
	specDepth  int
	opaque     map[string]bool
	pureReads  map[string][]string
	contracts  map[*ssa.Function]*ssa.Function
	stubs      map[*ssa.Function]*Closure
	inStub     map[*ssa.Function]bool
	exitHook   *Term
	harness    *ssa.Function
	harnessSt  *State

	funcs         map[string]bool // repo functions executed
	contractsUsed map[string]bool
	externals     map[string]bool // assumed external functions
	notes         map[string]bool
	loopsCut      int
	loopsUnrolled int
	reads         map[string]bool
	recordReads   bool
	specInfo      map[*ssa.Function]*specFn
	implSeen      map[string]bool
	targetMods    map[string]bool
	covers        []*Oblig
	frameDepth    int
	iterN         int
	curPos        token.Pos
	steps         int
	inSpec        int
	specUnfolded  map[string]int
	contractStack []*contractCtx
	assumptions   map[string]bool
	labels        map[string]bool
	requiresSeen  int
	hasExitHook   bool
	events        int
}

type template struct {
	fn   *Term
	sig  *types.Signature
	name string
}

func newExec(prog *ssa.Program) *Exec {
	return &Exec{prog: prog, axioms: map[*Term]bool{}, baseHeap: map[string]*Term{}, heapSort: map[string]Sort{},
		pkgInit: map[*ssa.Package]bool{}, opaque: map[string]bool{}, contracts: map[*ssa.Function]*ssa.Function{}, stubs: map[*ssa.Function]*Closure{}, inStub: map[*ssa.Function]bool{},
		funcs: map[string]bool{}, contractsUsed: map[string]bool{}, externals: map[string]bool{}, notes: map[string]bool{},
		reads: map[string]bool{}, specInfo: map[*ssa.Function]*specFn{}, implSeen: map[string]bool{}, pureReads: map[string][]string{}}
}

func (x *Exec) note(s string) { x.notes[s] = true }

// ---- facts and obligations ----

func (x *Exec) fact(st *State, t *Term) {
	if t == tTrue || x.dry > 0 {
		return
	}
	f := t
	if st != nil {
		f = mkImp(st.pc, t)
	}
	if f == tTrue {
		return
	}
	if f.bound {
		return // facts about bound variables are emitted by the quantifier intrinsics only
	}
	if x.binderDepth() > 0 {
		x.axiom(f)
		return
	}
	x.facts = append(x.facts, f)
}

func (x *Exec) binderDepth() int { return len(x.binders) }

// axiom records an order-independent valid fact.
func (x *Exec) axiom(t *Term) {
	if t == tTrue || x.axioms[t] || t.bound {
		return
	}
	x.axioms[t] = true
	x.axiomList = append(x.axiomList, t)
}

func (x *Exec) oblige(st *State, name, kind string, goal *Term) *Oblig {
	if x.dry > 0 || x.initMode {
		return nil
	}
	if mkImp(st.pc, goal) == tTrue && kind == "panic" {
		return nil
	}
	o := &Oblig{name: name, kind: kind, pc: st.pc, goal: goal, nfacts: len(x.facts), cand: -1}
	if x.curPos.IsValid() {
		p := x.prog.Fset.Position(x.curPos)
		o.where = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
	}
	x.obls = append(x.obls, o)
	return o
}

// safety handles a potential panic: obligation in noPanic mode, then assumed.
func (x *Exec) safety(fr *Frame, st *State, what string, ok *Term) {
	if ok == tTrue {
		return
	}
	if x.binderDepth() > 0 || x.initMode || x.inSpec > 0 {
		return
	}
	if x.noPanic && !x.isSpecFn(fr) {
		x.oblige(st, "no-panic: "+what+" in "+fnName(fr.fn), "panic", ok)
	}
	if ok == tFalse {
		st.pc = tFalse
		return
	}
	x.fact(st, ok)
}

func (x *Exec) isSpecFn(fr *Frame) bool {
	return fr.fn.Pkg != nil && isContractFn(fr.fn)
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/securego/gosec/v2/", "")
	return strings.ReplaceAll(s, "github.com/securego/gosec/v2", "gosec")
}

// ---- heap ----

func (x *Exec) hget(st *State, key string, s Sort) *Term {
	x.heapSort[key] = s
	if x.recordReads {
		x.reads[key] = true
	}
	if v, ok := st.heap[key]; ok {
		return v
	}
	b, ok := x.baseHeap[key]
	if !ok {
		b = mkVar("H0:"+key, s)
		x.baseHeap[key] = b
	}
	return b
}

func (x *Exec) hset(st *State, key string, v *Term) {
	x.heapSort[key] = v.sort
	st.heap[key] = v
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = mkAdd(st.alloc, mkInt(1))
	return r
}

// typeFacts emits the range and well-formedness facts of a value of type t.
func (x *Exec) typeFacts(st *State, v *Term, t types.Type) {
	if x.dry > 0 || isConst(v) || v.sort == SH {
		return
	}
	if v.op == "ite" && (allConstLeaves(v)) {
		return
	}
	f := x.typeFact(st.alloc, v, t)
	if f == tTrue {
		return
	}
	if v.bound {
		x.boundFact(f, v)
		return
	}
	x.fact(st, f)
}

func (x *Exec) boundFact(f, trig *Term) {
	x.boundFactN(f, trig, 0)
}

// innerIte finds a conditional inside a trigger; solvers cannot match on it.
func innerIte(t *Term, seen map[*Term]bool) *Term {
	if seen[t] || !t.bound {
		if t.op == "ite" && !seen[t] {
			return t
		}
		return nil
	}
	seen[t] = true
	for _, a := range t.args {
		if r := innerIte(a, seen); r != nil {
			return r
		}
	}
	if t.op == "ite" {
		return t
	}
	return nil
}

func (x *Exec) boundFactN(f, trig *Term, depth int) {
	if trig.op != "select" && trig.op != "app" && trig.op != "sel" {
		return
	}
	if it := innerIte(trig, map[*Term]bool{}); it != nil {
		if depth >= 3 {
			return
		}
		c := it.args[0]
		for k, g := range []*Term{c, mkNot(c)} {
			m := map[*Term]*Term{it: it.args[k+1]}
			if g != tFalse {
				x.boundFactN(mkImp(g, substitute(f, m)), substitute(trig, m), depth+1)
			}
		}
		return
	}
	fv := map[*Term]bool{}
	collectBVars(f, fv, map[*Term]bool{})
	var vs []*Term
	tv := map[*Term]bool{}
	collectBVars(trig, tv, map[*Term]bool{})
	for _, bs := range x.binders {
		for _, b := range bs {
			if fv[b] {
				if !tv[b] {
					return
				}
				vs = append(vs, b)
			}
		}
	}
	if len(vs) != len(fv) {
		return
	}
	if len(vs) == 1 && vs[0].sort == SInt {
		nt := normIndex(vs[0], f, trig)
		cv := intern("bvar", "bf?", SInt, nil)
		m := map[*Term]*Term{vs[0]: cv}
		f, trig, vs = substitute(nt[0], m), substitute(nt[1], m), []*Term{cv}
	}
	x.axiom(mkForall(vs, f, trig))
}

func (x *Exec) typeFact(alloc *Term, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, _, _, ok := intRange(t); ok {
			return mkAnd(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi)))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if v.sort != SInt || v.op == "handle" || hasHandle(v) {
			return tTrue
		}
		return mkAnd(mkLe(mkInt(0), v), mkLt(v, alloc))
	case *types.Slice:
		z := mkInt(0)
		a, o, l, c := slArr(v), slOff(v), slLen(v), slCap(v)
		return mkAnd(mkLe(z, a), mkLt(a, alloc), mkLe(z, o), mkLe(z, l), mkLe(l, c), mkImp(mkEq(a, z), mkEq(c, z)))
	case *types.Interface:
		_ = u
		return mkAnd(mkLe(mkInt(0), ifTid(v)), mkImp(mkEq(ifTid(v), mkInt(0)), mkEq(ifPl(v), mkInt(0))))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			if f := x.typeFact(alloc, mkSel(v, i), u.Field(i).Type()); f != tTrue {
				cs = append(cs, f)
			}
		}
		if len(cs) > 40 {
			return tTrue
		}
		return mkAnd(cs...)
	}
	return tTrue
}

// ---- addresses ----

func asAddr(t *Term) *Addr {
	if t.op == "handle" {
		if a, ok := t.h.(*Addr); ok {
			return a
		}
	}
	return nil
}

func addrTerm(a *Addr) *Term { return mkHandle("addr", SInt, a) }

// distribute applies f over the handle leaves of an ite tree.
func distribute(t *Term, f func(*Term) *Term) *Term {
	if t.op == "ite" && hasHandle(t) {
		return mkIte(t.args[0], distribute(t.args[1], f), distribute(t.args[2], f))
	}
	return f(t)
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	unsup("not a pointer: %s", t)
	return nil
}

func (x *Exec) fieldAddr(fr *Frame, st *State, base *Term, structT types.Type, i int) *Term {
	return distribute(base, func(b *Term) *Term {
		ft := structOf(structT).Field(i).Type()
		if a := asAddr(b); a != nil {
			n := *a
			n.path = append(append([]int{}, a.path...), i)
			n.typ = ft
			return addrTerm(&n)
		}
		return addrTerm(&Addr{kind: "field", T: structT, base: b, path: []int{i}, typ: ft})
	})
}

func selPath(v *Term, path []int) *Term {
	for _, i := range path {
		v = mkSel(v, i)
	}
	return v
}

func updPath(v *Term, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	d := dts[string(v.sort)]
	args := make([]*Term, len(d.sorts))
	for i := range args {
		args[i] = mkSel(v, i)
	}
	args[path[0]] = updPath(args[path[0]], path[1:], nv)
	return mkDT(d.name, args...)
}

// load reads a value of type t through address term p.
func (x *Exec) load(st *State, p *Term, t types.Type) *Term {
	v := distribute(p, func(b *Term) *Term { return x.load1(st, b, t) })
	x.typeFacts(st, v, t)
	return v
}

func (x *Exec) loadField(st *State, base *Term, T types.Type, path []int, t types.Type) *Term {
	if s := structOf(t); s != nil {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = x.loadField(st, base, T, append(append([]int{}, path...), i), s.Field(i).Type())
		}
		return mkDT(structDT(t), args...)
	}
	k, _ := fieldKey(T, path)
	s := sortOf(t)
	h := x.hget(st, k, arrSort(SInt, s))
	v := mkSelect(h, base)
	x.initialFact(st, k, base, t)
	return v
}

// initialFact: references stored in pre-existing objects are pre-existing.
func (x *Exec) initialFact(st *State, key string, base *Term, t types.Type) {
	if x.dry > 0 || x.alloc0 == nil || base.bound {
		return
	}
	h0, ok := x.baseHeap[key]
	if !ok {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
	default:
		return
	}
	v := mkSelect(h0, base)
	if v.op != "select" {
		return
	}
	f := x.typeFact(x.alloc0, v, t)
	x.axiom(mkImp(mkLt(base, x.alloc0), f))
}

func (x *Exec) load1(st *State, b *Term, t types.Type) *Term {
	a := asAddr(b)
	if a == nil {
		if b.op == "handle" {
			unsup("load through non-address %s", b)
		}
		if isStruct(t) {
			return x.loadField(st, b, t, nil, t)
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			h := x.hget(st, elemKey(at.Elem()), arrSort(SInt, arrSort(SInt, sortOf(at.Elem()))))
			return mkSelect(h, b)
		}
		k := cellKey(t)
		v := mkSelect(x.hget(st, k, arrSort(SInt, sortOf(t))), b)
		x.initialFact(st, k, b, t)
		return v
	}
	switch a.kind {
	case "field":
		return x.loadField(st, a.base, a.T, a.path, t)
	case "elem":
		es := sortOf(a.T)
		h := x.hget(st, elemKey(a.T), arrSort(SInt, arrSort(SInt, es)))
		v := mkSelect(mkSelect(h, a.base), a.idx)
		x.initialElemFact(elemKey(a.T), a.base, a.idx, a.T)
		return selPath(v, a.path)
	case "aelem": // element of an array held in another location
		arr := x.load1(st, a.base, a.T)
		return selPath(mkSelect(arr, a.idx), a.path)
	case "local", "global":
		v := x.hget(st, a.key, sortOf(a.T))
		return selPath(v, a.path)
	case "const":
		if a.cell.val == nil {
			return selPath(zeroOf(a.T), a.path)
		}
		return selPath(a.cell.val, a.path)
	}
	unsup("load kind %s", a.kind)
	return nil
}

func (x *Exec) initialElemFact(key string, base, idx *Term, t types.Type) {
	if x.dry > 0 || x.alloc0 == nil || base.bound || idx.bound {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Struct:
	default:
		return
	}
	h0, ok := x.baseHeap[key]
	if !ok {
		return
	}
	v := mkSelect(mkSelect(h0, base), idx)
	if v.op != "select" {
		return
	}
	x.axiom(mkImp(mkLt(base, x.alloc0), x.typeFact(x.alloc0, v, t)))
}

func (x *Exec) storeField(st *State, base *Term, T types.Type, path []int, t types.Type, v *Term) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.storeField(st, base, T, append(append([]int{}, path...), i), s.Field(i).Type(), mkSel(v, i))
		}
		return
	}
	k, _ := fieldKey(T, path)
	h := x.hget(st, k, arrSort(SInt, sortOf(t)))
	x.hset(st, k, mkStore(h, base, v))
}

func (x *Exec) store(st *State, p *Term, t types.Type, v *Term) {
	if p.op == "ite" && hasHandle(p) {
		s1, s2 := st.clone(), st.clone()
		x.store(s1, p.args[1], t, v)
		x.store(s2, p.args[2], t, v)
		x.mergeHeapInto(st, p.args[0], s1, s2)
		return
	}
	x.checkEscape(v)
	a := asAddr(p)
	if a == nil {
		if p.op == "handle" {
			unsup("store through non-address")
		}
		if isStruct(t) {
			x.storeField(st, p, t, nil, t, v)
			return
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			k := elemKey(at.Elem())
			h := x.hget(st, k, arrSort(SInt, arrSort(SInt, sortOf(at.Elem()))))
			x.hset(st, k, mkStore(h, p, v))
			return
		}
		k := cellKey(t)
		x.hset(st, k, mkStore(x.hget(st, k, arrSort(SInt, sortOf(t))), p, v))
		return
	}
	switch a.kind {
	case "field":
		x.storeField(st, a.base, a.T, a.path, t, v)
	case "elem":
		es := sortOf(a.T)
		k := elemKey(a.T)
		h := x.hget(st, k, arrSort(SInt, arrSort(SInt, es)))
		arr := mkSelect(h, a.base)
		nv := updPath(mkSelect(arr, a.idx), a.path, v)
		x.hset(st, k, mkStore(h, a.base, mkStore(arr, a.idx, nv)))
	case "aelem":
		arr := x.load1(st, a.base, a.T)
		nv := updPath(mkSelect(arr, a.idx), a.path, v)
		x.store(st, a.base, a.T, mkStore(arr, a.idx, nv))
	case "local", "global":
		cur := x.hget(st, a.key, sortOf(a.T))
		if len(a.path) == 0 {
			x.hset(st, a.key, v)
		} else {
			x.hset(st, a.key, updPath(cur, a.path, v))
		}
	case "const":
		if len(a.path) != 0 {
			unsup("partial store to const cell")
		}
		a.cell.val = v
	default:
		unsup("store kind %s", a.kind)
	}
}

// checkEscape rejects interior addresses and ghost values stored into memory.
func (x *Exec) checkEscape(v *Term) {
	switch v.op {
	case "handle":
		switch v.h.(type) {
		case *Closure:
			return
		case *Addr:
			if v.h.(*Addr).kind == "global" {
				return
			}
			if v.h.(*Addr).kind == "elem" || v.h.(*Addr).kind == "field" || v.h.(*Addr).kind == "cellref" {
				x.note("interior addresses stored in memory are opaque")
				return
			}
			unsup("address of a local stored in memory")
		}
	case "ite":
		if hasHandle(v) {
			x.checkEscape(v.args[1])
			x.checkEscape(v.args[2])
		}
	}
}

func (x *Exec) mergeHeapInto(st *State, c *Term, s1, s2 *State) {
	keys := map[string]bool{}
	for k := range s1.heap {
		keys[k] = true
	}
	for k := range s2.heap {
		keys[k] = true
	}
	for k := range keys {
		v1, o1 := s1.heap[k]
		v2, o2 := s2.heap[k]
		if !o1 || !o2 {
			if isLocalKey(k) {
				if o1 {
					st.heap[k] = v1
				} else {
					st.heap[k] = v2
				}
				continue
			}
			if !o1 {
				v1 = x.hget(s1, k, x.heapSort[k])
			}
			if !o2 {
				v2 = x.hget(s2, k, x.heapSort[k])
			}
		}
		st.heap[k] = x.iteMix(st, c, v1, v2, s1, s2)
	}
	st.alloc = mkIte(c, s1.alloc, s2.alloc)
}

func isLocalKey(k string) bool { return strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "I:") }

// iteMix merges values that may be ghost slices or ordinary slices.
func (x *Exec) iteMix(st *State, c, a, b *Term, sa, sb *State) *Term {
	return mkIte(c, a, b)
}

// mergeEdges merges a list of edges into one state, using per-edge values for vals.
func (x *Exec) mergeStates(sts []*State) *State {
	acc := sts[0].clone()
	for _, s := range sts[1:] {
		if s.pc == tFalse {
			continue
		}
		if acc.pc == tFalse {
			acc = s.clone()
			continue
		}
		_, ra, _ := splitCommon(acc.pc, s.pc)
		c := mkAnd(ra...)
		n := &State{heap: map[string]*Term{}}
		n.pc = or2(acc.pc, s.pc)
		x.mergeHeapInto(n, c, acc, s)
		if acc.alloc != s.alloc {
			// keep a simple alloc term: a fresh upper bound
			n.alloc = x.mergeAlloc(acc, s)
		}
		acc = n
	}
	return acc
}

func (x *Exec) mergeAlloc(a, b *State) *Term {
	ba, ca := linBase(a.alloc)
	bb, cb := linBase(b.alloc)
	if ba == bb && ba != nil {
		if ca.Cmp(cb) > 0 {
			return a.alloc
		}
		return b.alloc
	}
	f := fresh("alloc", SInt)
	x.axiom(mkAnd(mkLe(a.alloc, f), mkLe(b.alloc, f)))
	return f
}

// mergeVals merges one value per state in lockstep with mergeStates.
func mergeVals(pcs []*Term, vals []*Term) *Term {
	accPc, acc := pcs[0], vals[0]
	for i := 1; i < len(vals); i++ {
		if pcs[i] == tFalse {
			continue
		}
		if accPc == tFalse {
			accPc, acc = pcs[i], vals[i]
			continue
		}
		_, ra, _ := splitCommon(accPc, pcs[i])
		acc = mergeTerm(mkAnd(ra...), acc, vals[i])
		accPc = or2(accPc, pcs[i])
	}
	return acc
}

func mergeTerm(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if ta, ok := tupleOf(a); ok {
		if tb, ok := tupleOf(b); ok && len(ta.vals) == len(tb.vals) {
			vs := make([]*Term, len(ta.vals))
			for i := range vs {
				vs[i] = mergeTerm(c, ta.vals[i], tb.vals[i])
			}
			return mkHandle("tuple", SH, &Tuple{vs})
		}
	}
	return mkIte(c, a, b)
}

func tupleOf(t *Term) (*Tuple, bool) {
	if t.op == "handle" {
		tp, ok := t.h.(*Tuple)
		return tp, ok
	}
	return nil, false
}

// ---- constants ----

func (x *Exec) constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case SBool:
		return mkBool(constant.BoolVal(c.Value))
	case SStr:
		return mkStr(constant.StringVal(c.Value))
	case SInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkInt(i)
		}
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return mkBig(b)
	case SFlt:
		return mkVar("flt:"+c.Value.ExactString(), SFlt)
	case SIf:
		unsup("interface constant %s", c)
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func (x *Exec) val(fr *Frame, st *State, env Env, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constTerm(v)
	case *ssa.Function:
		return x.funcTerm(v)
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Builtin:
		return mkHandle("builtin", SInt, &Closure{builtin: v.Name()})
	}
	t, ok := env[v]
	if !ok {
		unsup("no value for %s (%s) in %s", v.Name(), v, fr.fn)
	}
	return t
}

var funcHandles = map[*ssa.Function]*Term{}

func (x *Exec) funcTerm(f *ssa.Function) *Term {
	if t, ok := funcHandles[f]; ok {
		return t
	}
	t := mkHandle("func:"+f.Name(), SInt, &Closure{fn: f})
	funcHandles[f] = t
	return t
}

var globalHandles = map[*ssa.Global]*Term{}

func (x *Exec) globalAddr(g *ssa.Global) *Term {
	if t, ok := globalHandles[g]; ok {
		return t
	}
	et := derefType(g.Type())
	a := &Addr{kind: "global", key: "G:" + g.RelString(nil), T: et, typ: et}
	t := addrTerm(a)
	globalHandles[g] = t
	return t
}

func exprPos(i ssa.Instruction) token.Pos { return i.Pos() }
