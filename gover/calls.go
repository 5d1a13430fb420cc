package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const gvPath = "github.com/securego/gosec/v2/internal/gv"

func (x *Exec) callInstr(fr *Frame, st *State, env Env, c *ssa.CallCommon, in *ssa.Call) *Term {
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = x.val(fr, st, env, a)
	}
	var fnv *Term
	if c.IsInvoke() {
		fnv = x.val(fr, st, env, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = x.val(fr, st, env, c.Value)
	}
	return x.doCall(fr, st, c, fnv, args, in)
}

func packResults(rs []*Term) *Term {
	if len(rs) == 1 {
		return rs[0]
	}
	return tuple(rs...)
}

// adopt copies the result state into st.
func adopt(st, n *State) {
	st.pc, st.heap, st.alloc = n.pc, n.heap, n.alloc
}

func (x *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, fnv *Term, args []*Term, in *ssa.Call) *Term {
	if c.IsInvoke() {
		return x.invoke(fr, st, c, fnv, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b.Name(), c, args)
	}
	if f := c.StaticCallee(); f != nil {
		var bs []*Term
		if cl, ok := fnv.h.(*Closure); ok && fnv.op == "handle" {
			bs = cl.bindings
		}
		return x.callFunc(fr, st, f, args, bs, c)
	}
	return x.callValue(fr, st, fnv, args, c)
}

// split executes f on the alternatives of an ite-tree condition and merges.
func (x *Exec) branch(st *State, cond *Term, f func(st *State) *Term, g func(st *State) *Term) *Term {
	if cond == tTrue {
		return f(st)
	}
	if cond == tFalse {
		return g(st)
	}
	s1, s2 := st.clone(), st.clone()
	s1.pc = mkAnd(st.pc, cond)
	s2.pc = mkAnd(st.pc, mkNot(cond))
	var r1, r2 *Term
	if s1.pc != tFalse {
		r1 = f(s1)
	}
	if s2.pc != tFalse {
		r2 = g(s2)
	}
	switch {
	case r1 == nil || s1.pc == tFalse && r2 != nil:
		adopt(st, s2)
		return r2
	case r2 == nil || s2.pc == tFalse:
		adopt(st, s1)
		return r1
	}
	pcs := []*Term{s1.pc, s2.pc}
	r := x.mergeMixedT(pcs, []*Term{r1, r2}, []*State{s1, s2})
	adopt(st, x.mergeStates([]*State{s1, s2}))
	return r
}

func (x *Exec) mergeMixedT(pcs, vs []*Term, sts []*State) *Term {
	if t0, ok := tupleOf(vs[0]); ok {
		out := make([]*Term, len(t0.vals))
		for i := range out {
			ws := make([]*Term, len(vs))
			for j := range vs {
				t, _ := tupleOf(vs[j])
				ws[j] = t.vals[i]
			}
			out[i] = x.mergeMixed(pcs, ws, sts)
		}
		return tuple(out...)
	}
	return x.mergeMixed(pcs, vs, sts)
}

func (x *Exec) callValue(fr *Frame, st *State, fnv *Term, args []*Term, c *ssa.CallCommon) *Term {
	if fnv.op == "ite" && hasHandle(fnv) {
		return x.branch(st, fnv.args[0],
			func(s *State) *Term { return x.callValue(fr, s, fnv.args[1], args, c) },
			func(s *State) *Term { return x.callValue(fr, s, fnv.args[2], args, c) })
	}
	if fnv.op == "handle" {
		cl, ok := fnv.h.(*Closure)
		if !ok {
			unsup("call of %s", fnv)
		}
		if cl.builtin == "visited" {
			vp := cl.bindings[0].h.(*visitedPred)
			p := mkApp(vp.mi.pos, SInt, args[0])
			return mkAnd(mkSelect(vp.mi.dom, args[0]), mkLt(p, vp.cur))
		}
		return x.callFunc(fr, st, cl.fn, args, cl.bindings, c)
	}
	if isInt(fnv) && fnv.iv.Sign() == 0 {
		x.safety(fr, st, "call of nil function", tFalse)
		return x.zeroResults(c.Signature())
	}
	// unknown function value: an uninterpreted deterministic function
	sig := c.Signature()
	x.note("unknown function values are deterministic and have no effect on modelled memory")
	if x.funcValueCases(fnv) != nil {
		fnv = x.funcValueCases(fnv)
		return x.callValue(fr, st, fnv, args, c)
	}
	return x.ufCall(st, "apply:"+typeKey(sig), append([]*Term{fnv}, args...), append([]types.Type{sig}, paramTypes(sig)...), sig.Results(), false)
}

func (x *Exec) funcValueCases(fnv *Term) *Term { return nil }

func paramTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (x *Exec) zeroResults(sig *types.Signature) *Term {
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, zeroOf(sig.Results().At(i).Type()))
	}
	return packResults(rs)
}

// ---- interface calls ----

func constLeaves(t *Term, out map[*Term]bool) bool {
	if t.op == "ite" {
		return constLeaves(t.args[1], out) && constLeaves(t.args[2], out)
	}
	if isInt(t) {
		out[t] = true
		return true
	}
	return false
}

func (x *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv *Term, args []*Term) *Term {
	tid := ifTid(recv)
	x.safety(fr, st, "method call on nil interface", mkNot(mkEq(tid, mkInt(0))))
	leaves := map[*Term]bool{}
	if constLeaves(tid, leaves) {
		var ls []*Term
		for l := range leaves {
			if l.iv.Sign() != 0 {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].iv.Cmp(ls[j].iv) < 0 })
		if len(ls) == 0 {
			st.pc = tFalse
			return x.zeroResults(c.Signature())
		}
		return x.invokeCases(fr, st, c, recv, args, ls)
	}
	if x.dispatchKnown(c) {
		// closed world over the repository's implementations is not assumed
	}
	return x.invokeUnknown(fr, st, c, recv, args)
}

func (x *Exec) dispatchKnown(c *ssa.CallCommon) bool { return false }

func (x *Exec) invokeCases(fr *Frame, st *State, c *ssa.CallCommon, recv *Term, args []*Term, ls []*Term) *Term {
	l := ls[0]
	one := func(s *State) *Term {
		t := tidType[int(l.iv.Int64())]
		m := x.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			unsup("no method %s on %s", c.Method.Name(), t)
		}
		// pick the payload of this alternative
		pl := ifPl(pruneTid(recv, l))
		r := x.decode(pl, t)
		return x.callFunc(fr, s, m, append([]*Term{r}, args...), nil, c)
	}
	if len(ls) == 1 {
		return one(st)
	}
	return x.branch(st, mkEq(ifTid(recv), l), one, func(s *State) *Term { return x.invokeCases(fr, s, c, recv, args, ls[1:]) })
}

func pruneTid(v *Term, l *Term) *Term {
	if v.op == "ite" {
		a, b := v.args[1], v.args[2]
		if definitelyNotTid(a, l) {
			return pruneTid(b, l)
		}
		if definitelyNotTid(b, l) {
			return pruneTid(a, l)
		}
	}
	if v.op == "mk" && v.args[0].op == "ite" {
		// component-wise ite: prune both components along the tid tree
		t, p := v.args[0], v.args[1]
		for t.op == "ite" && p.op == "ite" && t.args[0] == p.args[0] {
			if noLeaf(t.args[1], l) {
				t, p = t.args[2], p.args[2]
			} else if noLeaf(t.args[2], l) {
				t, p = t.args[1], p.args[1]
			} else {
				break
			}
		}
		return mkDT("Iface", t, p)
	}
	return v
}

func noLeaf(t, l *Term) bool {
	ls := map[*Term]bool{}
	return constLeaves(t, ls) && !ls[l]
}

func definitelyNotTid(v, l *Term) bool { return noLeaf(ifTid(v), l) }

func (x *Exec) invokeUnknown(fr *Frame, st *State, c *ssa.CallCommon, recv *Term, args []*Term) *Term {
	it := typeKey(c.Value.Type())
	m := c.Method.Name()
	name := it + "." + m
	if r, ok := x.invokeModel(fr, st, name, c, recv, args); ok {
		return r
	}
	x.externals["interface method "+name] = true
	sig := c.Signature()
	return x.ufCall(st, "invoke:"+name, append([]*Term{recv}, args...), append([]types.Type{c.Value.Type()}, paramTypes(sig)...), sig.Results(), false)
}

// ---- uninterpreted calls ----

// ufCall models a deterministic effect-free function of its arguments' contents.
func (x *Exec) ufCall(st *State, name string, args []*Term, ats []types.Type, res *types.Tuple, havoc bool) *Term {
	if havoc {
		var rs []*Term
		for i := 0; i < res.Len(); i++ {
			v := fresh("hv."+name, sortOf(res.At(i).Type()))
			x.typeFacts(st, v, res.At(i).Type())
			rs = append(rs, v)
		}
		return packResults(rs)
	}
	var fl []*Term
	for i, a := range args {
		fl = append(fl, x.flattenArg(st, a, ats[i])...)
	}
	suffix := ""
	for _, f := range fl {
		suffix += ":" + string(f.sort)
	}
	if len(suffix) > 60 {
		suffix = fmt.Sprintf(":%d", len(fl)) + suffix[len(suffix)-56:]
	}
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, x.ufResult(st, fmt.Sprintf("%s%s#%d", name, suffix, i), fl, res.At(i).Type()))
	}
	return packResults(rs)
}

func (x *Exec) ufResult(st *State, name string, fl []*Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		es := sortOf(u.Elem())
		c := mkApp(name+".c", arrSort(SInt, es), fl...)
		n := mkApp(name+".n", SInt, fl...)
		if n.bound {
			x.boundFact(mkLe(mkInt(0), n), n)
			return mkHandle("gslice", SH, &GSlice{c, mkInt(0), n, u.Elem()})
		}
		x.axiom(mkLe(mkInt(0), n))
		// a fresh backing array holding that content; nil when empty is not distinguished
		return x.newSlice(st, u.Elem(), c, n, n)
	case *types.Map:
		if len(fl) > 0 && anyBound(fl) {
			return mkApp(name, SInt, fl...)
		}
		r := x.newMap(st, u)
		dk, vk, ck, d, v, c := x.mapArrs(st, u)
		ks, vs := sortOf(u.Key()), sortOf(u.Elem())
		x.hset(st, dk, mkStore(d, r, mkApp(name+".d", arrSort(ks, SBool), fl...)))
		x.hset(st, vk, mkStore(v, r, mkApp(name+".v", arrSort(ks, vs), fl...)))
		n := mkApp(name+".n", SInt, fl...)
		x.axiom(mkLe(mkInt(0), n))
		x.hset(st, ck, mkStore(c, r, n))
		return r
	case *types.Tuple:
		unsup("tuple result")
	}
	v := mkApp(name, sortOf(t), fl...)
	if _, ok := t.Underlying().(*types.Pointer); ok && x.alloc0 != nil && !v.bound {
		x.axiom(mkAnd(mkLe(mkInt(0), v), mkLt(v, x.alloc0)))
		return v
	}
	if !v.bound {
		if f := x.typeFact(st.alloc, v, t); f != tTrue && v.sort != SSl {
			x.axiom(f)
		}
	}
	return v
}

func anyBound(ts []*Term) bool {
	for _, t := range ts {
		if t.bound {
			return true
		}
	}
	return false
}

func (x *Exec) flattenArg(st *State, a *Term, t types.Type) []*Term {
	if u, ok := t.Underlying().(*types.Slice); ok {
		if a.sort == SSl && isInt(slLen(a)) {
			// known length: pass the elements
			n := slLen(a).iv.Int64()
			if n <= 12 {
				c, o, _ := x.contentOf(st, a, u.Elem())
				out := []*Term{mkInt(n)}
				for i := int64(0); i < n; i++ {
					out = append(out, mkSelect(c, mkAdd(o, mkInt(i))))
				}
				return out
			}
		}
		c, o, n := x.contentOf(st, a, u.Elem())
		return []*Term{c, o, n}
	}
	if a.sort == SH {
		if g := gmapOf(a); g != nil {
			return []*Term{g.dom, g.val}
		}
		unsup("ghost argument to external function")
	}
	return []*Term{a}
}

// ---- static calls ----

func isGV(f *ssa.Function) (string, bool) {
	o := f
	if o.Origin() != nil {
		o = o.Origin()
	}
	if o.Pkg != nil && o.Pkg.Pkg.Path() == gvPath {
		return o.Name(), true
	}
	if ob := o.Object(); ob != nil && ob.Pkg() != nil && ob.Pkg().Path() == gvPath {
		return o.Name(), true
	}
	return "", false
}

func extName(f *ssa.Function) string {
	o := f
	if o.Origin() != nil {
		o = o.Origin()
	}
	return o.RelString(nil)
}

func (x *Exec) callFunc(fr *Frame, st *State, f *ssa.Function, args, bs []*Term, c *ssa.CallCommon) *Term {
	if name, ok := isGV(f); ok {
		return x.intrinsic(fr, st, name, f, args, c)
	}
	if len(x.contractStack) > 0 {
		top := x.contractStack[len(x.contractStack)-1]
		if f == top.target && fr.fn == top.harness {
			return x.havocTarget(st, f, args, top)
		}
	}
	if h, ok := x.contracts[f]; ok && !x.verifying(f) {
		return x.applyContract(fr, st, f, h, args)
	}
	if g, ok := x.stubs[f]; ok && !x.inStub[f] {
		x.inStub[f] = true
		rs, n := x.execFn(g.fn, args, g.bindings, st)
		delete(x.inStub, f)
		adopt(st, n)
		return packResults(rs)
	}
	name := extName(f)
	if x.opaque[name] {
		x.note("opaque: " + fnName(f) + " is treated as an uninterpreted effect-free function here")
		sig := f.Signature
		ats := sigTypes(f)
		return x.ufCall(st, "opaque:"+name, args, ats, sig.Results(), false)
	}
	if r, ok := x.model(fr, st, name, f, args, c); ok {
		return r
	}
	if len(f.Blocks) > 0 && (isRepoFn(f) || f.Synthetic != "" && x.inlinableSynthetic(f)) {
		if isContractFn(f) && isSelfRecursive(f) {
			return x.specCall(fr, st, f, args)
		}
		rs, n := x.execFn(f, args, bs, st)
		adopt(st, n)
		return packResults(rs)
	}
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil && len(args) == 0 && f.Synthetic != "" {
		return tuple()
	}
	return x.external(fr, st, name, f, args)
}

func (x *Exec) inlinableSynthetic(f *ssa.Function) bool {
	// wrappers, thunks and bound methods call through to the real method
	return strings.Contains(f.Synthetic, "wrapper") || strings.Contains(f.Synthetic, "thunk") || strings.Contains(f.Synthetic, "bound method")
}

func sigTypes(f *ssa.Function) []types.Type {
	var ts []types.Type
	for _, p := range f.Params {
		ts = append(ts, p.Type())
	}
	if len(f.Params) == 0 && f.Signature.Params().Len()+b2i(f.Signature.Recv() != nil) > 0 {
		if r := f.Signature.Recv(); r != nil {
			ts = append(ts, r.Type())
		}
		ts = append(ts, paramTypes(f.Signature)...)
	}
	return ts
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *Exec) external(fr *Frame, st *State, name string, f *ssa.Function, args []*Term) *Term {
	sig := f.Signature
	ats := sigTypes(f)
	if isPureExternal(name) {
		x.externals[name] = true
		return x.ufCall(st, "fn:"+name, args, ats, sig.Results(), false)
	}
	x.externals[name+" (arbitrary result, no effect on modelled memory)"] = true
	return x.ufCall(st, "fn:"+name, args, ats, sig.Results(), true)
}

func isSelfRecursive(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if c.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

// ---- recursive spec functions ----

type specFn struct {
	reads   []string
	scanned bool
}

func (x *Exec) specCall(fr *Frame, st *State, f *ssa.Function, args []*Term) *Term {
	info := x.specInfo[f]
	res := f.Signature.Results()
	if info == nil {
		info = &specFn{}
		x.specInfo[f] = info
		// find which heap locations the body reads
		savedR, savedRec := x.reads, x.recordReads
		x.reads, x.recordReads = map[string]bool{}, true
		x.dry++
		x.inSpec++
		func() {
			defer func() {
				x.dry--
				x.inSpec--
			}()
			s := &State{tTrue, map[string]*Term{}, mkVar("A!spec", SInt)}
			var as []*Term
			for i, p := range f.Params {
				a := x.specArg(st, args[i], p.Type())
				as = append(as, x.freshLike(a, p.Type()))
			}
			x.execFn(f, as, nil, s)
		}()
		for k := range x.reads {
			info.reads = append(info.reads, k)
			if savedRec {
				savedR[k] = true
			}
		}
		sort.Strings(info.reads)
		x.reads, x.recordReads = savedR, savedRec
		info.scanned = true
	}
	var fl []*Term
	as := make([]*Term, len(args))
	for i, p := range f.Params {
		as[i] = x.specArg(st, args[i], p.Type())
		fl = append(fl, x.specFlat(as[i], p.Type())...)
	}
	for _, k := range info.reads {
		fl = append(fl, x.hget(st, k, x.heapSort[k]))
	}
	name := "spec:" + f.Name()
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		n := fmt.Sprintf("%s#%d", name, i)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			g := &GSlice{mkApp(n+".c", arrSort(SInt, sortOf(sl.Elem())), fl...), mkInt(0), mkApp(n+".n", SInt, fl...), sl.Elem()}
			if !g.len.bound {
				x.axiom(mkLe(mkInt(0), g.len))
			}
			rs = append(rs, mkHandle("gslice", SH, g))
		} else {
			rs = append(rs, mkApp(n, sortOf(t), fl...))
		}
	}
	if !info.scanned || x.dry > 0 {
		return packResults(rs)
	}
	if anyBound(fl) {
		// under a quantifier: unfold once when the counting arguments are ground
		for _, t := range fl {
			if t.bound && t.sort == SInt {
				return packResults(rs)
			}
		}
		if len(rs) != 1 || rs[0].op != "app" || x.specDepth > 0 {
			return packResults(rs)
		}
		if x.specUnfolded == nil {
			x.specUnfolded = map[string]int{}
		}
		key := fmt.Sprintf("bound %d", rs[0].id)
		if x.specUnfolded[key] > 0 {
			return packResults(rs)
		}
		x.specUnfolded[key] = 1
		x.specDepth++
		x.inSpec++
		s := st.clone()
		s.pc = tTrue
		brs, _ := x.execFn(f, as, nil, s)
		x.inSpec--
		x.specDepth--
		x.boundFact(mkEq(rs[0], brs[0]), rs[0])
		return packResults(rs)
	}
	key := f.Name()
	for _, t := range fl {
		key += fmt.Sprintf(",%d", t.id)
	}
	if x.specUnfolded == nil {
		x.specUnfolded = map[string]int{}
	}
	limit := 2
	if x.specDepth < limit && (x.specUnfolded[key] == 0) {
		x.specUnfolded[key] = 1
		x.specDepth++
		x.inSpec++
		s := st.clone()
		s.pc = tTrue
		brs, _ := x.execFn(f, as, nil, s)
		x.inSpec--
		x.specDepth--
		for i := range rs {
			if g := anyGhost(rs[i]); g != nil {
				bg := brs[i]
				c, o, n := x.contentOf(s, bg, g.elem)
				if isConst(n) && n.op == "int" && n.iv.Sign() == 0 {
					x.axiom(mkEq(g.len, n))
					continue
				}
				if o != mkInt(0) && !isInt(o) {
					unsup("spec function %s returns a shifted slice", f.Name())
				}
				x.axiom(mkEq(g.len, n))
				x.axiom(mkImp(mkLt(mkInt(0), n), mkEq(g.content, c)))
			} else {
				x.axiom(mkEq(rs[i], brs[i]))
			}
		}
	}
	return packResults(rs)
}

func (x *Exec) specArg(st *State, a *Term, t types.Type) *Term {
	if s, ok := t.Underlying().(*types.Slice); ok && a.sort == SSl {
		return x.toGhost(st, a, s.Elem())
	}
	return a
}

func (x *Exec) specFlat(a *Term, t types.Type) []*Term {
	if a.op == "ite" && a.sort == SH {
		unsup("merged ghost argument")
	}
	if g := anyGhost(a); g != nil {
		return []*Term{g.content, g.off, g.len}
	}
	if g := gmapOf(a); g != nil {
		return []*Term{g.dom, g.val, g.card}
	}
	return []*Term{a}
}

func (x *Exec) freshLike(a *Term, t types.Type) *Term {
	if g := anyGhost(a); g != nil {
		return mkHandle("gslice", SH, &GSlice{fresh("sc", g.content.sort), fresh("so", SInt), fresh("sl", SInt), g.elem})
	}
	if g := gmapOf(a); g != nil {
		return mkHandle("gmap", SInt, &GMap{fresh("sd", g.dom.sort), fresh("sv", g.val.sort), fresh("sn", SInt), g.m})
	}
	if a.op == "handle" {
		return a
	}
	return fresh("sa", a.sort)
}

// ---- contracts at call sites ----

type contractCtx struct {
	target, harness *ssa.Function
	mods            []func(st *State)
	result          *Term
	ghosts          []*Term // extra contract parameters: the postconditions hold for all their values
	framed          bool
	noPanic         bool
}

func (x *Exec) verifying(f *ssa.Function) bool {
	// f is the function whose own contract is being verified
	return x.harness != nil && x.contracts[f] == x.harness
}

func (x *Exec) applyContract(fr *Frame, st *State, f, h *ssa.Function, args []*Term) *Term {
	x.contractsUsed[h.Name()+" for "+fnName(f)] = true
	ctx := &contractCtx{target: f, harness: h}
	x.contractStack = append(x.contractStack, ctx)
	old := x.oldState
	defer func() {
		x.contractStack = x.contractStack[:len(x.contractStack)-1]
		x.oldState = old
	}()
	if len(h.Params) < len(args) {
		unsup("contract %s does not match %s", h.Name(), fnName(f))
	}
	all := append([]*Term{}, args...)
	for _, p := range h.Params[len(args):] {
		g := freshB("g", sortOf(p.Type()))
		ctx.ghosts = append(ctx.ghosts, g)
		all = append(all, g)
	}
	saved := x.noPanic
	x.noPanic = false
	if len(ctx.ghosts) > 0 {
		x.binders = append(x.binders, ctx.ghosts)
	}
	x.oldState = st.clone()
	_, n := x.execFn(h, all, nil, st)
	if len(ctx.ghosts) > 0 {
		x.binders = x.binders[:len(x.binders)-1]
	}
	x.noPanic = saved
	adopt(st, n)
	if ctx.result == nil {
		unsup("contract %s never calls %s", h.Name(), fnName(f))
	}
	if !ctx.framed {
		unsup("contract %s states no frame", h.Name())
	}
	if saved && !ctx.noPanic {
		unsup("contract %s does not exclude panics", h.Name())
	}
	return ctx.result
}

func (x *Exec) havocTarget(st *State, f *ssa.Function, args []*Term, ctx *contractCtx) *Term {
	a := fresh("alloc", SInt)
	x.fact(nil, mkLe(st.alloc, a))
	st.alloc = a
	for _, m := range ctx.mods {
		m(st)
	}
	var rs []*Term
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v := fresh("res."+f.Name(), sortOf(res.At(i).Type()))
		x.typeFacts(st, v, res.At(i).Type())
		rs = append(rs, v)
	}
	ctx.result = packResults(rs)
	return ctx.result
}
