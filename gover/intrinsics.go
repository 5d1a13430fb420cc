package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func constStr(t *Term) string {
	if t.op == "str" {
		return t.name
	}
	return "?"
}

func (x *Exec) closureSig(fn *Term) *types.Signature {
	if c, ok := fn.h.(*Closure); ok && c.fn != nil {
		return c.fn.Signature
	}
	unsup("intrinsic needs a function literal")
	return nil
}

// quantBody evaluates closure fn on bound variable(s) under guard.
func (x *Exec) quantBody(fr *Frame, st *State, fn *Term, vars []*Term, args []*Term, guard *Term) *Term {
	c := fn.h.(*Closure)
	x.binders = append(x.binders, vars)
	saved := x.noPanic
	x.noPanic = false
	defer func() { x.binders = x.binders[:len(x.binders)-1]; x.noPanic = saved }()
	s := st.clone()
	s.pc = mkAnd(st.pc, guard)
	rs, _ := x.execFn(c.fn, args, c.bindings, s)
	return rs[0]
}

func (x *Exec) contractMode() *contractCtx {
	if len(x.contractStack) > 0 {
		return x.contractStack[len(x.contractStack)-1]
	}
	return nil
}

func (x *Exec) intrinsic(fr *Frame, st *State, name string, f *ssa.Function, args []*Term, c *ssa.CallCommon) *Term {
	none := tuple()
	ctx := x.contractMode()
	switch name {
	case "Requires":
		if ctx != nil && fr.fn == ctx.harness {
			x.oblige(st, "requires of "+ctx.harness.Name()+" at call in "+x.callerName(), "requires", args[0])
			x.fact(st, args[0])
			return none
		}
		if args[0] == tFalse {
			x.assumptionsBroken(st)
		}
		x.fact(st, args[0])
		x.requiresSeen++
		return none
	case "Assume":
		x.noteAssume(constStr(args[0]))
		x.fact(st, args[1])
		return none
	case "Cover":
		if ctx == nil && x.dry == 0 {
			o := &Oblig{name: "cover: " + constStr(args[0]), kind: "cover", pc: st.pc, goal: args[1], nfacts: len(x.facts), cand: -1}
			x.covers = append(x.covers, o)
		}
		return none
	case "Ensures":
		if ctx != nil && fr.fn == ctx.harness || x.inAssumeMode() {
			x.ghostFact(st, ctx, args[1])
			return none
		}
		x.oblige(st, constStr(args[0]), "ensures", args[1])
		x.fact(st, args[1])
		return none
	case "All", "Any":
		lo, hi, fn := args[0], args[1], args[2]
		// small constant ranges expand
		if isInt(lo) && isInt(hi) && hi.iv.Int64()-lo.iv.Int64() <= 16 {
			var ts []*Term
			for i := lo.iv.Int64(); i < hi.iv.Int64(); i++ {
				ts = append(ts, x.quantBody(fr, st, fn, nil, []*Term{mkInt(i)}, tTrue))
			}
			if name == "All" {
				return mkAnd(ts...)
			}
			return mkOr(ts...)
		}
		i := freshB("i", SInt)
		g := mkAnd(mkLe(lo, i), mkLt(i, hi))
		body := x.quantBody(fr, st, fn, []*Term{i}, []*Term{i}, g)
		nt := normIndex(i, g, body)
		g, body = nt[0], nt[1]
		if name == "All" {
			return mkForall([]*Term{i}, mkImp(g, body), x.patterns([]*Term{i}, body)...)
		}
		return mkExists([]*Term{i}, mkAnd(g, body))
	case "AllKeys", "AnyKey":
		// all keys present in the map
		mt := c.Args[0].Type().Underlying().(*types.Map)
		k := freshB("k", sortOf(mt.Key()))
		has := x.mapHasQuiet(st, args[0], mt, k)
		body := x.quantBody(fr, st, args[1], []*Term{k}, []*Term{k}, has)
		if name == "AllKeys" {
			return mkForall([]*Term{k}, mkImp(has, body), x.patterns([]*Term{k}, mkAnd(has, body))...)
		}
		return mkExists([]*Term{k}, mkAnd(has, body))
	case "AllOf":
		// every value of the type (natively: sampled)
		t := x.closureSig(args[0]).Params().At(0).Type()
		k := freshB("v", sortOf(t))
		body := x.quantBody(fr, st, args[0], []*Term{k}, []*Term{k}, tTrue)
		return mkForall([]*Term{k}, body, x.patterns([]*Term{k}, body)...)
	case "Inv":
		if ctx != nil {
			return none
		}
		iface := args[0]
		fn := ifPl(iface)
		sig := x.closureSig(fn)
		x.templates = append(x.templates, &template{fn: fn, sig: sig, name: fn.h.(*Closure).fn.Name()})
		return none
	case "Snap":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if args[0].sort == SH {
			return args[0]
		}
		return x.toGhost(st, args[0], et)
	case "SnapMap":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		_, _, _, d, v, cd := x.mapArrs(st, mt)
		r := args[0]
		zero := mkEq(r, mkInt(0))
		dom := mkIte(zero, mkConstArr(arrSort(sortOf(mt.Key()), SBool), tFalse), mkSelect(d, r))
		n := mkIte(zero, mkInt(0), mkSelect(cd, r))
		return mkHandle("gmap", SInt, &GMap{dom, mkSelect(v, r), n, mt})
	case "NoPanic":
		if ctx == nil {
			x.noPanic = true
		} else {
			ctx.noPanic = true
		}
		return none
	case "MayPanic":
		if ctx == nil {
			x.noPanic = false
		}
		return none
	case "ExactInts":
		x.exactInts = true
		return none
	case "Globals":
		x.useGlobals = true
		return none
	case "Strings":
		x.smtStrings = true
		return none
	case "Opaque":
		fn := ifPl(args[0])
		cl := fn.h.(*Closure)
		x.opaque[extName(cl.fn)] = true
		return none
	case "UseContract":
		f1 := ifPl(args[0]).h.(*Closure).fn
		f2 := ifPl(args[1]).h.(*Closure).fn
		f1 = unthunk(f1)
		x.contracts[f1] = f2
		return none
	case "Native":
		return tFalse
	case "Stub":
		f1 := unthunk(ifPl(args[0]).h.(*Closure).fn)
		x.stubs[f1] = ifPl(args[1]).h.(*Closure)
		x.note("in contract " + fr.fn.Name() + " a recording stub stands for " + fnName(f1))
		return none
	case "OnExit":
		x.exitHook = args[0]
		x.hasExitHook = true
		return none
	case "Modifies":
		p := args[0] // interface holding pointer / map / slice
		if ctx != nil && fr.fn == ctx.harness {
			leaves := map[*Term]bool{}
			constLeaves(ifTid(p), leaves)
			for l := range leaves {
				t := tidType[int(l.iv.Int64())]
				pl := ifPl(p)
				ctx.mods = append(ctx.mods, func(s *State) { x.havocRef(s, pl, t) })
			}
		} else if ctx == nil {
			m := ifPl(p)
			if t := tidType[tidConst(ifTid(p))]; t != nil {
				if _, ok := t.Underlying().(*types.Slice); ok {
					m = slArr(x.decode(m, t))
				}
			}
			x.modified = append(x.modified, m)
		}
		return none
	case "Frame":
		if ctx == nil {
			x.frameObligations(st)
		} else {
			ctx.framed = true
		}
		return none
	case "Implies":
		return mkImp(args[0], args[1])
	case "Fresh":
		v := args[0]
		if v.op == "iface" || v.sort == SIf {
			v = ifPl(v)
		}
		if x.oldState == nil {
			unsup("gv.Fresh without gv.Mark")
		}
		r := v
		if v.sort == SSl {
			r = slArr(v)
		}
		return mkOr(mkEq(r, mkInt(0)), mkLe(x.oldState.alloc, r))
	case "Same": // physical equality of slices (same backing array window)
		return mkEq(args[0], args[1])
	case "SameArray": // both slices are windows of the same array
		return mkEq(slArr(args[0]), slArr(args[1]))
	case "Arbitrary":
		t := f.Signature.Results().At(0).Type()
		if n := c.Signature().Results(); n.Len() == 1 {
			t = n.At(0).Type()
		}
		v := fresh("arb", sortOf(t))
		x.typeFacts(st, v, t)
		if x.alloc0 != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				x.fact(st, mkLt(v, x.alloc0))
			}
		}
		return v
	case "Mark":
		x.oldState = st.clone()
		return none
	case "Old":
		// the closure is evaluated against the heap of the marked state (locals keep their current values)
		old := x.oldState
		if old == nil {
			unsup("gv.Old without gv.Mark")
		}
		cl := args[0].h.(*Closure)
		s := old.clone()
		s.pc, s.alloc = st.pc, st.alloc
		for k, v := range st.heap {
			if isLocalKey(k) {
				s.heap[k] = v
			}
		}
		saved := x.noPanic
		x.noPanic = false
		rs, _ := x.execFn(cl.fn, nil, cl.bindings, s)
		x.noPanic = saved
		return rs[0]
	case "Events":
		return x.hget(st, "EV:n", SInt)
	case "Event":
		return mkSelect(x.hget(st, "EV:s", arrSort(SInt, SStr)), args[0])
	case "EventArg":
		return mkSelect(x.hget(st, "EV:a", arrSort(SInt, SIf)), args[0])
	case "DigitsOnly":
		return mkApp("$inre_digits", SBool, args[0])
	case "init":
		return none
	}
	unsup("intrinsic gv.%s", name)
	return nil
}

func (x *Exec) inAssumeMode() bool { return false }

func unthunk(f *ssa.Function) *ssa.Function {
	// (T).m method expressions are thunks around the real method
	if f.Synthetic == "" {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Common().StaticCallee(); g != nil {
					return unthunk(g)
				}
			}
		}
	}
	return f
}

func (x *Exec) callerName() string {
	if len(x.stack) >= 2 {
		return fnName(x.stack[len(x.stack)-2])
	}
	return "?"
}

func (x *Exec) assumptionsBroken(st *State) {}

func (x *Exec) noteAssume(s string) {
	if x.assumptions == nil {
		x.assumptions = map[string]bool{}
	}
	x.assumptions[s] = true
}

func (x *Exec) mapHasQuiet(st *State, r *Term, m *types.Map, k *Term) *Term {
	if g := gmapOf(r); g != nil {
		return mkSelect(g.dom, k)
	}
	if isInt(r) && r.iv.Sign() == 0 {
		return tFalse
	}
	if r.op == "ite" {
		return mkIte(r.args[0], x.mapHasQuiet(st, r.args[1], m, k), x.mapHasQuiet(st, r.args[2], m, k))
	}
	_, _, _, d, _, _ := x.mapArrs(st, m)
	h := mkSelect(mkSelect(d, r), k)
	if !r.bound && !definitelyDistinct(r, mkInt(0)) {
		kk := freshB("k", sortOf(m.Key()))
		hh := mkSelect(mkSelect(d, r), kk)
		if hh.op == "select" {
			x.axiom(mkImp(mkEq(r, mkInt(0)), mkForall([]*Term{kk}, mkNot(hh), hh)))
		}
		return mkAnd(mkNot(mkEq(r, mkInt(0))), h)
	}
	return h
}

// havocRef forgets the contents of the object behind a reference.
func (x *Exec) havocRef(st *State, r *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x.havocObj(st, r, u.Elem(), u.Elem(), nil)
	case *types.Map:
		dk, vk, ck, d, v, c := x.mapArrs(st, u)
		x.hset(st, dk, mkStore(d, r, fresh("hd", elemSort(d.sort))))
		x.hset(st, vk, mkStore(v, r, fresh("hv", elemSort(v.sort))))
		n := fresh("hc", SInt)
		x.fact(st, mkLe(mkInt(0), n))
		x.hset(st, ck, mkStore(c, r, n))
	case *types.Slice:
		k := elemKey(u.Elem())
		es := arrSort(SInt, sortOf(u.Elem()))
		h := x.hget(st, k, arrSort(SInt, es))
		x.hset(st, k, mkStore(h, slArr(x.decode(r, t)), fresh("he", es)))
	default:
		unsup("Modifies of %s", t)
	}
}

func (x *Exec) havocObj(st *State, r *Term, T, t types.Type, path []int) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.havocObj(st, r, T, s.Field(i).Type(), append(append([]int{}, path...), i))
		}
		return
	}
	v := fresh("hv", sortOf(t))
	x.typeFacts(st, v, t)
	if len(path) == 0 {
		x.store(st, r, t, v)
		return
	}
	x.storeField(st, r, T, path, t, v)
}

// patterns picks triggers: select terms (or apps) that contain the variables and
// no arithmetic over them beyond variable+constant offsets.
func (x *Exec) patterns(vars []*Term, body *Term) []*Term {
	if len(vars) != 1 {
		return nil
	}
	v := vars[0]
	var cands []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			rec(t.args[0])
			return
		}
		if (t.op == "select" || t.op == "app") && len(t.args) > 0 {
			ok := true
			direct := false
			for _, a := range t.args {
				if a == v {
					direct = true
				} else if a.bound {
					ok = false
				}
			}
			if ok && direct && onlyVar(t, v) && !(t.op == "app" && strings.HasPrefix(t.name, "box:")) {
				cands = append(cands, t)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	// an array also read at a shifted index would make its own trigger loop
	shifted := map[*Term][]*Term{}
	var recS func(t *Term)
	seenS := map[*Term]bool{}
	recS = func(t *Term) {
		if seenS[t] || !t.bound {
			return
		}
		seenS[t] = true
		if t.op == "select" && t.args[1].op == "+" && isInt(t.args[1].args[1]) && t.args[1].args[0] == v && !t.args[0].bound {
			shifted[t.args[0]] = append(shifted[t.args[0]], t)
		}
		for _, a := range t.args {
			recS(a)
		}
	}
	recS(body)
	if len(shifted) > 0 {
		var safe, multi []*Term
		for _, c := range cands {
			if c.op != "select" || len(shifted[c.args[0]]) == 0 {
				safe = append(safe, c)
			} else {
				multi = append(multi, intern("pats", "", SBool, nil, c, shifted[c.args[0]][0]))
			}
		}
		cands = safe
		if len(safe) == 0 {
			cands = multi
		}
	}
	if len(cands) == 0 || len(cands) > 6 {
		return nil
	}
	return cands
}

func onlyVar(t, v *Term) bool {
	fv := map[*Term]bool{}
	collectBVars(t, fv, map[*Term]bool{})
	return len(fv) == 1 && fv[v]
}

// ghostFact assumes a postcondition at a call site, for all values of the contract's ghost parameters.
func (x *Exec) ghostFact(st *State, ctx *contractCtx, t *Term) {
	if ctx == nil || len(ctx.ghosts) == 0 || !t.bound && !st.pc.bound {
		x.fact(st, t)
		return
	}
	if x.dry > 0 {
		return
	}
	body := mkImp(st.pc, t)
	f := mkForall(ctx.ghosts, body, x.patterns(ctx.ghosts, body)...)
	if f.bound {
		return
	}
	if len(x.binders) > 1 {
		x.axiom(f)
	} else {
		x.facts = append(x.facts, f)
	}
}

// frameObligations: since gv.Mark only what gv.Modifies lists, and new objects, changed.
func (x *Exec) frameObligations(st *State) {
	old := x.oldState
	if old == nil {
		unsup("gv.Frame without gv.Mark")
	}
	for _, k := range sortedHeap(st.heap) {
		if isLocalKey(k) || strings.HasPrefix(k, "EV:") {
			continue
		}
		v := st.heap[k]
		o := x.hget(old, k, x.heapSort[k])
		if o == v {
			continue
		}
		if strings.HasPrefix(k, "G:") || !strings.HasPrefix(string(v.sort), "(Array Int") {
			if v.sort != SH {
				x.oblige(st, "frame: "+k, "frame", mkEq(o, v))
			}
			continue
		}
		r := freshB("r", SInt)
		g := []*Term{mkLe(mkInt(0), r), mkLt(r, old.alloc)}
		for _, m := range x.modified {
			g = append(g, mkNot(mkEq(r, m)))
		}
		b := mkSelect(v, r)
		x.oblige(st, "frame: "+k, "frame", mkForall([]*Term{r}, mkImp(mkAnd(g...), mkEq(b, mkSelect(o, r))), b))
	}
}

func sortedHeap(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func tidConst(t *Term) int {
	if isInt(t) {
		return int(t.iv.Int64())
	}
	return -1
}
