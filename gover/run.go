package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

func rpoOf(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*Loop
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: rpoOf(fn), loops: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

const maxDepth = 60

// execFn runs fn's body on st and returns the results and the final state.
func (x *Exec) execFn(fn *ssa.Function, args []*Term, bindings []*Term, st *State) ([]*Term, *State) {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if len(x.stack) > maxDepth {
		unsup("inlining depth exceeded at %s", fn)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 3 {
		unsup("recursive function %s needs a contract", fnName(fn))
	}
	if !x.initMode && isRepoFn(fn) && !isContractFn(fn) {
		x.funcs[fnName(fn)] = true
	}
	x.stack = append(x.stack, fn)
	savedPos, savedFrame := x.curPos, x.frame
	defer func() { x.stack = x.stack[:len(x.stack)-1]; x.curPos = savedPos; x.frame = savedFrame }()
	fi := infoOf(fn)
	fr := &Frame{fn: fn, parent: savedFrame, depth: len(x.stack), alloc0: st.alloc, loops: fi.loops, rpo: fi.rpo, escape: map[*ssa.Alloc]int{}}
	x.frame = fr
	env := Env{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		env[fv] = bindings[i]
	}
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		region[b] = true
	}
	out := x.execRegion(fr, fn.Blocks[0], region, nil, []*Edge{{nil, fn.Blocks[0], st.clone(), env}})
	if len(out) != 0 {
		unsup("irreducible control flow in %s", fn)
	}
	return x.mergeReturns(fr, st)
}

func (x *Exec) mergeReturns(fr *Frame, st *State) ([]*Term, *State) {
	fn := fr.fn
	nres := fn.Signature.Results().Len()
	var sts []*State
	var vals [][]*Term
	for i, r := range fr.returns {
		if r.st.pc == tFalse {
			continue
		}
		sts = append(sts, r.st)
		vals = append(vals, fr.retVals[i])
	}
	if len(sts) == 0 {
		n := st.clone()
		n.pc = tFalse
		var rs []*Term
		for i := 0; i < nres; i++ {
			rs = append(rs, zeroOf(fn.Signature.Results().At(i).Type()))
		}
		return rs, n
	}
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
	}
	res := make([]*Term, nres)
	for k := 0; k < nres; k++ {
		vs := make([]*Term, len(sts))
		for i := range sts {
			vs[i] = vals[i][k]
		}
		res[k] = x.mergeMixed(pcs, vs, sts)
	}
	return res, x.mergeStates(sts)
}

// mergeMixed merges values, converting ordinary slices to ghost slices when mixed.
func (x *Exec) mergeMixed(pcs, vs []*Term, sts []*State) *Term {
	ghost := false
	var elem types.Type
	for _, v := range vs {
		if v.sort == SH {
			if g := anyGhost(v); g != nil {
				ghost = true
				elem = g.elem
			}
		}
	}
	if ghost {
		n := make([]*Term, len(vs))
		for i, v := range vs {
			if v.sort == SSl {
				v = x.toGhost(sts[i], v, elem)
			}
			n[i] = v
		}
		vs = n
		// merge ghosts component-wise
		cs, os, ls := make([]*Term, len(vs)), make([]*Term, len(vs)), make([]*Term, len(vs))
		for i, v := range vs {
			g := v.h.(*GSlice)
			cs[i], os[i], ls[i] = g.content, g.off, g.len
		}
		return mkHandle("gslice", SH, &GSlice{mergeVals(pcs, cs), mergeVals(pcs, os), mergeVals(pcs, ls), elem})
	}
	return mergeVals(pcs, vs)
}

func anyGhost(v *Term) *GSlice {
	if v.op == "handle" {
		if g, ok := v.h.(*GSlice); ok {
			return g
		}
	}
	return nil
}

func (x *Exec) toGhost(st *State, v *Term, elem types.Type) *Term {
	if g := anyGhost(v); g != nil {
		return v
	}
	h := x.hget(st, elemKey(elem), arrSort(SInt, arrSort(SInt, sortOf(elem))))
	return mkHandle("gslice", SH, &GSlice{mkSelect(h, slArr(v)), slOff(v), slLen(v), elem})
}

// execRegion executes the blocks of region in topological order.
// Edges back to the region's own header (when loop != nil) and out of the region are returned.
func (x *Exec) execRegion(fr *Frame, header *ssa.BasicBlock, region map[*ssa.BasicBlock]bool, self *Loop, ins []*Edge) []*Edge {
	pending := map[*ssa.BasicBlock][]*Edge{header: ins}
	var outs []*Edge
	done := map[*ssa.BasicBlock]bool{}
	add := func(es []*Edge) {
		for _, e := range es {
			if e.st.pc == tFalse {
				continue
			}
			if e.to == header && done[header] || !region[e.to] {
				outs = append(outs, e)
			} else {
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	for _, b := range fr.rpo {
		if !region[b] || done[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			if l := fr.loops[b]; l != nil && (self == nil || l != self) {
				for lb := range l.blocks {
					done[lb] = true
				}
			}
			done[b] = true
			continue
		}
		if l := fr.loops[b]; l != nil && l != self {
			for lb := range l.blocks {
				done[lb] = true
			}
			add(x.execLoop(fr, l, es))
			continue
		}
		done[b] = true
		st, env := x.enterBlock(fr, b, es)
		if st.pc == tFalse {
			continue
		}
		add(x.execBlock(fr, b, st, env))
	}
	return outs
}

// enterBlock merges incoming edges and evaluates phis.
func (x *Exec) enterBlock(fr *Frame, b *ssa.BasicBlock, es []*Edge) (*State, Env) {
	if len(es) == 1 {
		e := es[0]
		env := e.env
		x.evalPhis(fr, b, es, env)
		return e.st, env
	}
	pcs := make([]*Term, len(es))
	sts := make([]*State, len(es))
	for i, e := range es {
		pcs[i] = e.st.pc
		sts[i] = e.st
	}
	env := Env{}
	// merge env entries present on all edges
	for k, v := range es[0].env {
		vs := make([]*Term, len(es))
		vs[0] = v
		ok, same := true, true
		for i := 1; i < len(es); i++ {
			w, has := es[i].env[k]
			if !has {
				ok = false
				break
			}
			vs[i] = w
			if w != v {
				same = false
			}
		}
		if !ok {
			continue
		}
		if same {
			env[k] = v
		} else {
			env[k] = x.mergeMixed(pcs, vs, sts)
		}
	}
	x.evalPhis(fr, b, es, env)
	return x.mergeStates(sts), env
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (x *Exec) evalPhis(fr *Frame, b *ssa.BasicBlock, es []*Edge, env Env) {
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]*Term, len(es))
		pcs := make([]*Term, len(es))
		sts := make([]*State, len(es))
		for i, e := range es {
			vs[i] = x.val(fr, e.st, e.env, p.Edges[predIndex(b, e.from)])
			pcs[i] = e.st.pc
			sts[i] = e.st
		}
		phis = append(phis, p)
		if len(vs) == 1 {
			vals = append(vals, vs[0])
		} else {
			vals = append(vals, x.mergeMixed(pcs, vs, sts))
		}
	}
	for i, p := range phis {
		env[p] = vals[i]
	}
}

// execBlock executes the non-phi instructions of b and returns outgoing edges.
func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, env Env) []*Edge {
	for _, in := range b.Instrs {
		if st.pc == tFalse {
			return nil
		}
		if p := in.Pos(); p.IsValid() && x.binderDepth() == 0 {
			x.curPos = p
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, st, env, in.Cond)
			if c == tTrue {
				return []*Edge{{b, b.Succs[0], st, env}}
			}
			if c == tFalse {
				return []*Edge{{b, b.Succs[1], st, env}}
			}
			base := st.pc
			pt, pf := mkAnd(base, c), mkAnd(base, mkNot(c))
			if pf == tFalse && pt != tFalse { // decided by the path taken so far
				return []*Edge{{b, b.Succs[0], st, env}}
			}
			if pt == tFalse && pf != tFalse {
				return []*Edge{{b, b.Succs[1], st, env}}
			}
			s2 := st.clone()
			e2 := env.clone()
			st.pc = pt
			s2.pc = pf
			return []*Edge{{b, b.Succs[0], st, env}, {b, b.Succs[1], s2, e2}}
		case *ssa.Jump:
			return []*Edge{{b, b.Succs[0], st, env}}
		case *ssa.Return:
			rs := make([]*Term, len(in.Results))
			for i, r := range in.Results {
				rs[i] = x.val(fr, st, env, r)
			}
			fr.returns = append(fr.returns, &Edge{b, nil, st, env})
			fr.retVals = append(fr.retVals, rs)
			return nil
		case *ssa.Panic:
			x.safety(fr, st, "explicit panic", tFalse)
			return nil
		default:
			fr.env = env
			x.instr(fr, st, env, in)
		}
	}
	return nil
}

// ---- loops ----

// headerDecided executes only the header block (dry) and reports whether its branch is decided.
func (x *Exec) headerDecided(fr *Frame, l *Loop, ins []*Edge) (decided bool) {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[l.header.Succs[0]] && l.blocks[l.header.Succs[1]] {
		return false
	}
	x.dry++
	defer func() {
		x.dry--
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				decided = false
				return
			}
			panic(r)
		}
	}()
	st, env := x.enterBlock(fr, l.header, cloneEdges(ins))
	if st.pc == tFalse {
		return true
	}
	nIter := len(fr.iters)
	x.execBlock(fr, l.header, st, env)
	fr.iters = fr.iters[:nIter]
	c := x.val(fr, st, env, iff.Cond)
	return c == tTrue || c == tFalse
}

func cloneEdges(es []*Edge) []*Edge {
	out := make([]*Edge, len(es))
	for i, e := range es {
		out[i] = &Edge{e.from, e.to, e.st.clone(), e.env.clone()}
	}
	return out
}

const maxUnroll = 400

func (x *Exec) execLoop(fr *Frame, l *Loop, ins []*Edge) []*Edge {
	var outs []*Edge
	for k := 0; k < maxUnroll; k++ {
		if !x.headerDecided(fr, l, ins) {
			return append(outs, x.cutLoop(fr, l, ins)...)
		}
		if k == 0 && x.dry == 0 {
			x.loopsUnrolled++
		}
		es := x.execRegion(fr, l.header, l.blocks, l, ins)
		ins = nil
		for _, e := range es {
			if e.to == l.header {
				ins = append(ins, e)
			} else {
				outs = append(outs, e)
			}
		}
		if len(ins) == 0 {
			return outs
		}
	}
	unsup("loop in %s unrolled %d times", fnName(fr.fn), maxUnroll)
	return nil
}

func headerPhis(l *Loop) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (x *Exec) havocVal(st *State, hint string, old *Term, t types.Type) *Term {
	if old != nil && old.sort == SH {
		if g := anyGhost(old); g != nil {
			v := &GSlice{fresh(hint+".c", g.content.sort), mkInt(0), fresh(hint+".n", SInt), g.elem}
			x.fact(st, mkLe(mkInt(0), v.len))
			return mkHandle("gslice", SH, v)
		}
		unsup("loop-carried %s", old)
	}
	if old != nil && hasHandle(old) && t != nil {
		if _, ok := t.Underlying().(*types.Signature); ok {
			unsup("loop-carried function value")
		}
		if a := findAddr(old); a != nil {
			if a.kind != "elem" {
				unsup("loop-carried interior address")
			}
			unsup("loop-carried interior address")
		}
	}
	v := fresh(hint, sortOf(t))
	x.typeFacts(st, v, t)
	return v
}

func findAddr(t *Term) *Addr {
	if a := asAddr(t); a != nil {
		return a
	}
	if t.op == "ite" {
		if a := findAddr(t.args[1]); a != nil {
			return a
		}
		return findAddr(t.args[2])
	}
	return nil
}

// mentions reports whether t contains any of the given leaves.
func mentions(t *Term, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if set[t] {
			return true
		}
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type candFn struct {
	user bool
	desc string
	eval func(st *State, env Env, it *Term) *Term
	late bool // tried only when the first pass fails
}

func (x *Exec) cutLoop(fr *Frame, l *Loop, ins []*Edge) []*Edge {
	entry, entryEnv := x.enterBlock(fr, l.header, cloneEdges(ins))
	phis := headerPhis(l)
	nIters := len(fr.iters)

	// 1. find the heap locations the body modifies (to a fixpoint)
	mod := map[string]bool{}
	allocMoves := false
	var dryHeader *State
	var dryEnv Env
	var dryBack *State
	var dryBackEnv Env
	var drySyms map[*Term]bool
	var headCond *Term
	runDry := func() {
		x.dry++
		defer func() { x.dry-- }()
		for round := 0; ; round++ {
			if round > 12 {
				unsup("no modification fixpoint for loop in %s", fnName(fr.fn))
			}
			st, env, syms := x.havocHeader(fr, l, entry, entryEnv, phis, mod, allocMoves)
			dryHeader, dryEnv, drySyms = st.clone(), env.clone(), syms
			es := x.loopBody(fr, l, st, env)
			fr.iters = fr.iters[:nIters]
			grew := false
			var backs []*Edge
			for _, e := range es {
				if e.to == l.header {
					backs = append(backs, e)
				}
			}
			if len(backs) == 0 {
				dryBack = nil
				return
			}
			for _, e := range backs {
				for k, v := range e.st.heap {
					if mod[k] {
						continue
					}
					old, ok := dryHeader.heap[k]
					if !ok {
						if isLocalKey(k) {
							continue
						}
						old = x.hget(dryHeader, k, v.sort)
					}
					if old != v {
						mod[k] = true
						grew = true
					}
				}
				if e.st.alloc != dryHeader.alloc && !allocMoves {
					allocMoves = true
					grew = true
				}
			}
			if !grew {
				dryBack, dryBackEnv = x.enterBlock(fr, l.header, cloneEdges(backs))
				return
			}
		}
	}
	runDry()
	if dryBack == nil {
		// the body never iterates: plain execution
		es := x.execRegion(fr, l.header, l.blocks, l, ins)
		return es
	}
	// header condition in terms of dry symbols
	if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		func() {
			x.dry++
			defer func() { x.dry--; recover() }()
			s, e := dryHeader.clone(), dryEnv.clone()
			x.execBlock(fr, l.header, s, e)
			fr.iters = fr.iters[:nIters]
			headCond = x.val(fr, s, e, iff.Cond)
			if !l.blocks[l.header.Succs[0]] {
				headCond = mkNot(headCond)
			}
		}()
	}
	if x.dry == 0 {
		x.loopsCut++
	}

	// 2. candidates
	var cands []candFn
	if x.dry == 0 {
		cands = x.loopCandidates(fr, l, phis, mod, entry, entryEnv, dryHeader, dryEnv, dryBack, dryBackEnv, drySyms, headCond)
	}

	// 3. the arbitrary iteration
	st, env, _ := x.havocHeader(fr, l, entry, entryEnv, phis, mod, allocMoves)
	it := fresh("it", SInt)
	x.fact(st, mkLe(mkInt(0), it))
	// inductive steps that are syntactic
	for i, p := range phis {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			dv := mkSub(dryBackEnv[p], dryEnv[p])
			if isInt(dv) {
				x.fact(st, mkEq(env[p], mkAdd(entryEnv[p], mkMul(it, dv))))
			}
		}
		_ = i
	}
	for _, mi := range fr.iters {
		if mod[mi.key] {
			if st.heap[mi.key] != nil && dryBack.heap[mi.key] != nil {
				if mkSub(dryBack.heap[mi.key], dryHeader.heap[mi.key]) == mkInt(1) {
					x.fact(st, mkEq(st.heap[mi.key], mkAdd(entry.heap[mi.key], it)))
				}
			}
		}
	}
	type live struct {
		c  *Cand
		cf candFn
	}
	var lives []live
	if x.dry == 0 {
		for _, cf := range cands {
			t0 := x.tryCand(cf, entry, entryEnv, mkInt(0))
			if t0 == nil {
				continue
			}
			th := x.tryCand(cf, st, env, it)
			if th == nil || th == tTrue {
				continue
			}
			if t0 == tFalse {
				continue
			}
			c := &Cand{act: mkVar(fmt.Sprintf("act!%d", len(x.cands)), SBool), desc: fnName(fr.fn) + " loop: " + cf.desc, alive: true, user: cf.user, late: cf.late}
			id := len(x.cands)
			x.cands = append(x.cands, c)
			if o := x.oblige(entry, "loop-init: "+c.desc, "inv", t0); o != nil {
				o.cand = id
				c.obls = append(c.obls, o)
			}
			lives = append(lives, live{c, cf})
		}
		for _, lv := range lives {
			th := x.tryCand(lv.cf, st, env, it)
			x.fact(st, mkImp(lv.c.act, th))
		}
	}
	x.itStack = append(x.itStack, it)
	es := x.loopBody(fr, l, st, env)
	x.itStack = x.itStack[:len(x.itStack)-1]
	fr.iters = fr.iters[:nIters]
	var backs, outs []*Edge
	for _, e := range es {
		if e.to == l.header {
			backs = append(backs, e)
		} else {
			outs = append(outs, e)
		}
	}
	if x.dry == 0 && len(backs) > 0 {
		bst, benv := x.enterBlock(fr, l.header, cloneEdges(backs))
		for _, lv := range lives {
			tb := x.tryCand(lv.cf, bst, benv, mkAdd(it, mkInt(1)))
			if tb == nil {
				tb = tFalse
			}
			for _, o := range x.obls {
				_ = o
				break
			}
			id := -1
			for i, c := range x.cands {
				if c == lv.c {
					id = i
				}
			}
			if o := x.oblige(bst, "loop-step: "+lv.c.desc, "inv", tb); o != nil {
				o.cand = id
				lv.c.obls = append(lv.c.obls, o)
			}
		}
	}
	return outs
}

func (x *Exec) tryCand(cf candFn, st *State, env Env, it *Term) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				if os.Getenv("GOVER_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "candidate", cf.desc, "dropped:", u.msg)
				}
				r = nil
				return
			}
			panic(e)
		}
	}()
	return cf.eval(st, env, it)
}

// loopBody executes one iteration from an already-havoced header state.
func (x *Exec) loopBody(fr *Frame, l *Loop, st *State, env Env) []*Edge {
	// the header block itself (phis are already in env)
	es := x.execBlock(fr, l.header, st, env)
	var outs []*Edge
	inner := map[*ssa.BasicBlock][]*Edge{}
	for _, e := range es {
		if e.to == l.header || !l.blocks[e.to] {
			outs = append(outs, e)
		} else {
			inner[e.to] = append(inner[e.to], e)
		}
	}
	// remaining blocks
	region := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		if b != l.header {
			region[b] = true
		}
	}
	outs = append(outs, x.execRest(fr, region, l, inner)...)
	return outs
}

func (x *Exec) execRest(fr *Frame, region map[*ssa.BasicBlock]bool, self *Loop, pending map[*ssa.BasicBlock][]*Edge) []*Edge {
	var outs []*Edge
	done := map[*ssa.BasicBlock]bool{}
	add := func(es []*Edge) {
		for _, e := range es {
			if e.st.pc == tFalse {
				continue
			}
			if !region[e.to] {
				outs = append(outs, e)
			} else {
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	for _, b := range fr.rpo {
		if !region[b] || done[b] {
			continue
		}
		es := pending[b]
		if l := fr.loops[b]; l != nil && l != self {
			for lb := range l.blocks {
				done[lb] = true
			}
			if len(es) > 0 {
				add(x.execLoop(fr, l, es))
			}
			continue
		}
		done[b] = true
		if len(es) == 0 {
			continue
		}
		st, env := x.enterBlock(fr, b, es)
		if st.pc == tFalse {
			continue
		}
		add(x.execBlock(fr, b, st, env))
	}
	return outs
}

func (x *Exec) havocHeader(fr *Frame, l *Loop, entry *State, entryEnv Env, phis []*ssa.Phi, mod map[string]bool, allocMoves bool) (*State, Env, map[*Term]bool) {
	st := entry.clone()
	env := entryEnv.clone()
	syms := map[*Term]bool{}
	if allocMoves {
		a := fresh("alloc", SInt)
		x.fact(nil, mkLe(entry.alloc, a))
		st.alloc = a
		syms[a] = true
	}
	for _, p := range phis {
		v := x.havocVal(st, "phi."+p.Name()+"."+p.Comment, entryEnv[p], p.Type())
		env[p] = v
		syms[v] = true
		if g := anyGhost(v); g != nil {
			syms[g.content] = true
			syms[g.len] = true
		}
	}
	for _, k := range sortedKeys(mod) {
		old := x.hget(st, k, x.heapSort[k])
		if old.sort == SH {
			unsup("loop modifies ghost local")
		}
		v := fresh("h."+k, old.sort)
		st.heap[k] = v
		syms[v] = true
		x.localFacts(st, k, v)
		if strings.HasPrefix(k, "MC:") {
			r := freshB("r", SInt)
			x.axiom(mkForall([]*Term{r}, mkLe(mkInt(0), mkSelect(v, r)), mkSelect(v, r)))
		}
	}
	return st, env, syms
}

var localTypes = map[string]types.Type{}

func (x *Exec) localFacts(st *State, key string, v *Term) {
	if t := localTypes[key]; t != nil {
		x.typeFacts(st, v, t)
	}
	if strings.HasPrefix(key, "I:") {
		x.fact(st, mkLe(mkInt(0), v))
	}
}

func (x *Exec) loopCandidates(fr *Frame, l *Loop, phis []*ssa.Phi, mod map[string]bool, entry *State, entryEnv Env,
	dh *State, denv Env, db *State, dbenv Env, syms map[*Term]bool, headCond *Term) []candFn {
	var cs []candFn
	// substitution from dry header symbols to a state's values
	subst := func(t *Term, st *State, env Env) *Term {
		m := map[*Term]*Term{}
		for _, p := range phis {
			if denv[p].op == "var" {
				m[denv[p]] = env[p]
			}
		}
		for k := range mod {
			m[dh.heap[k]] = x.hget(st, k, x.heapSort[k])
		}
		m[dh.alloc] = st.alloc
		return substitute(t, m)
	}
	// header condition bound: a < b  =>  a <= b is a candidate at the header
	if headCond != nil {
		for _, c := range conjuncts(headCond, nil) {
			var lo, hi *Term
			neg := false
			if c.op == "<" {
				lo, hi = c.args[0], c.args[1]
			} else if c.op == "not" && c.args[0].op == "<" {
				lo, hi = c.args[0].args[1], c.args[0].args[0]
				neg = true
			} else {
				continue
			}
			if !mentions(lo, syms) && !mentions(hi, syms) {
				continue
			}
			cs = append(cs, candFn{desc: "loop bound", eval: func(st *State, env Env, it *Term) *Term {
				a, b := subst(lo, st, env), subst(hi, st, env)
				if neg {
					return mkLe(mkSub(a, mkInt(1)), b)
				}
				return mkLe(a, b)
			}})
		}
	}
	cs = append(cs, x.searchCandidate(l, phis, entryEnv, dh, denv, db, dbenv, syms, headCond)...)
	// map iteration bound
	for _, mi := range fr.iters {
		if mod[mi.key] {
			cs = append(cs, candFn{desc: "range bound", eval: func(st *State, env Env, it *Term) *Term {
				return mkLe(x.hget(st, mi.key, SInt), mi.card)
			}})
		}
	}
	// heap frames
	for _, k := range sortedKeys(mod) {
		if isLocalKey(k) || strings.HasPrefix(k, "G:") || !strings.HasPrefix(string(x.heapSort[k]), "(Array Int") {
			continue
		}
		h0 := x.hget(entry, k, x.heapSort[k])
		var bounds []*Term
		for _, b := range []*Term{entry.alloc, fr.alloc0, x.alloc0} {
			dup := b == nil
			for _, o := range bounds {
				if o == b {
					dup = true
				}
			}
			if !dup {
				bounds = append(bounds, b)
			}
		}
		for i, b := range bounds {
			cs = append(cs, candFn{desc: fmt.Sprintf("frame %s (%d)", k, i), eval: func(st *State, env Env, it *Term) *Term {
				h := x.hget(st, k, x.heapSort[k])
				if h == h0 {
					return tTrue
				}
				r := freshB("r", SInt)
				return mkForall([]*Term{r}, mkImp(mkAnd(mkLe(mkInt(0), r), mkLt(r, b)), mkEq(mkSelect(h, r), mkSelect(h0, r))), mkSelect(h, r))
			}})
		}
		// all but one object
		for _, ref := range x.liveMapRefs(k, denv, x.modRefs(k, db, dh, syms), syms) {
			cs = append(cs, candFn{desc: "frame " + k + " except " + ref.str(2), eval: func(st *State, env Env, it *Term) *Term {
				h := x.hget(st, k, x.heapSort[k])
				if h == h0 {
					return tTrue
				}
				r := freshB("r", SInt)
				return mkForall([]*Term{r}, mkImp(mkAnd(mkLe(mkInt(0), r), mkLt(r, entry.alloc), mkNot(mkEq(r, ref))), mkEq(mkSelect(h, r), mkSelect(h0, r))), mkSelect(h, r))
			}})
		}
	}
	// values stored in maps are slices made by this function
	for _, k := range sortedKeys(mod) {
		if !strings.HasPrefix(k, "MV:") || elemSort(elemSort(x.heapSort[k])) != SSl {
			continue
		}
		for _, ref := range x.liveMapRefs(k, denv, x.modRefs(k, db, dh, syms), syms) {
			for bi, b := range []*Term{fr.alloc0, x.alloc0} {
				if b == nil || bi == 1 && b == fr.alloc0 {
					continue
				}
				cs = append(cs, candFn{desc: "fresh slices in map " + ref.str(2), eval: func(st *State, env Env, it *Term) *Term {
					kk := freshB("k", idxSort(elemSort(x.heapSort[k])))
					v := mkSelect(mkSelect(x.hget(st, k, x.heapSort[k]), ref), kk)
					dk := "MD:" + strings.TrimPrefix(k, "MV:")
					has := mkSelect(mkSelect(x.hget(st, dk, arrSort(SInt, arrSort(idxSort(elemSort(x.heapSort[k])), SBool))), ref), kk)
					a := slArr(v)
					return mkForall([]*Term{kk}, mkImp(has, mkOr(mkEq(a, mkInt(0)), mkLe(b, a))), v)
				}})
			}
		}
	}
	// freshness of slice and map phis
	for _, p := range phis {
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			if denv[p].sort != SSl {
				continue
			}
			cs = append(cs, candFn{desc: "fresh slice " + p.Name(), eval: func(st *State, env Env, it *Term) *Term {
				a := slArr(env[p])
				return mkAnd(mkOr(mkEq(a, mkInt(0)), mkLe(fr.alloc0, a)))
			}})
			if x.alloc0 != nil && x.alloc0 != fr.alloc0 {
				cs = append(cs, candFn{desc: "fresh slice(h) " + p.Name(), eval: func(st *State, env Env, it *Term) *Term {
					a := slArr(env[p])
					return mkAnd(mkOr(mkEq(a, mkInt(0)), mkLe(x.alloc0, a)))
				}})
			}
			cs = append(cs, candFn{desc: "slice offset " + p.Name(), eval: func(st *State, env Env, it *Term) *Term {
				return mkEq(slOff(env[p]), slOff(entryEnv[p]))
			}})
			cs = append(cs, candFn{desc: "slice unchanged array " + p.Name(), eval: func(st *State, env Env, it *Term) *Term {
				return mkEq(slArr(env[p]), slArr(entryEnv[p]))
			}})
		case *types.Pointer, *types.Map:
			cs = append(cs, candFn{desc: "non-nil " + p.Name(), eval: func(st *State, env Env, it *Term) *Term {
				return mkNot(mkEq(env[p], mkInt(0)))
			}})
		}
		if denv[p].sort == SBool {
			cs = append(cs, candFn{desc: "flag still entry " + p.Name(), eval: func(st *State, env Env, it *Term) *Term {
				return mkEq(env[p], entryEnv[p])
			}})
		}
	}
	for _, k := range sortedKeys(mod) {
		if t := localTypes[k]; t != nil && strings.HasPrefix(k, "L:") {
			if _, ok := t.Underlying().(*types.Slice); ok && x.heapSort[k] == SSl {
				cs = append(cs, candFn{desc: "fresh slice local", eval: func(st *State, env Env, it *Term) *Term {
					a := slArr(x.hget(st, k, SSl))
					return mkAnd(mkOr(mkEq(a, mkInt(0)), mkLe(fr.alloc0, a)))
				}})
				cs = append(cs, candFn{desc: "slice local offset", eval: func(st *State, env Env, it *Term) *Term {
					return mkEq(slOff(x.hget(st, k, SSl)), slOff(x.hget(entry, k, SSl)))
				}})
			}
			if sf := structOf(t); sf != nil && dts[string(x.heapSort[k])] != nil {
				for i := 0; i < sf.NumFields() && i < 8; i++ {
					if sortOf(sf.Field(i).Type()) != SSl {
						continue
					}
					cs = append(cs, candFn{desc: "fresh slice field " + sf.Field(i).Name(), eval: func(st *State, env Env, it *Term) *Term {
						a := slArr(mkSel(x.hget(st, k, x.heapSort[k]), i))
						return mkAnd(mkOr(mkEq(a, mkInt(0)), mkLe(fr.alloc0, a)))
					}})
					cs = append(cs, candFn{desc: "slice field offset " + sf.Field(i).Name(), eval: func(st *State, env Env, it *Term) *Term {
						return mkEq(slOff(mkSel(x.hget(st, k, x.heapSort[k]), i)), slOff(mkSel(x.hget(entry, k, x.heapSort[k]), i)))
					}})
				}
			}
		}
	}
	// slices of one element type that never share an array
	type sliceVar struct {
		name string
		elem string
		get  func(st *State, env Env) *Term
	}
	var svs []sliceVar
	for _, p := range phis {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && denv[p].sort == SSl {
			svs = append(svs, sliceVar{p.Name(), elemKey(sl.Elem()), func(st *State, env Env) *Term { return env[p] }})
		}
	}
	for _, k := range sortedKeys(mod) {
		if t := localTypes[k]; t != nil && strings.HasPrefix(k, "L:") && x.heapSort[k] == SSl {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				svs = append(svs, sliceVar{k, elemKey(sl.Elem()), func(st *State, env Env) *Term { return x.hget(st, k, SSl) }})
			}
		}
	}
	for i := range svs {
		for j := i + 1; j < len(svs) && j < i+4; j++ {
			a, b := svs[i], svs[j]
			if a.elem != b.elem {
				continue
			}
			cs = append(cs, candFn{desc: "separate slices " + a.name + " " + b.name, eval: func(st *State, env Env, it *Term) *Term {
				p, q := slArr(a.get(st, env)), slArr(b.get(st, env))
				return mkOr(mkEq(p, mkInt(0)), mkNot(mkEq(p, q)))
			}})
		}
	}
	// user templates
	for _, t := range x.templates {
		cs = append(cs, x.instantiate(fr, l, t, phis, mod, entry, entryEnv, dh, denv)...)
	}
	return cs
}

// searchCandidate: a loop that can leave from its body has not left it in any earlier iteration. The
// condition of going on is one over the index and things the loop does not change.
func (x *Exec) searchCandidate(l *Loop, phis []*ssa.Phi, entryEnv Env, dh *State, denv Env, db *State, dbenv Env, syms map[*Term]bool, headCond *Term) []candFn {
	leaves := false
	for b := range l.blocks {
		for _, s := range b.Succs {
			leaves = leaves || b != l.header && !l.blocks[s]
		}
	}
	if db == nil {
		return nil
	}
	last := dh.alloc.id
	for s := range syms {
		if s.id > last {
			last = s.id
		}
	}
	heads := map[*Term]bool{}
	if headCond != nil {
		for _, c := range conjuncts(headCond, nil) {
			heads[c] = true
		}
	}
	for _, c := range conjuncts(dh.pc, nil) {
		heads[c] = true
	}
	var cs []candFn
	for _, p := range phis {
		idx := denv[p]
		if idx == nil || idx.op != "var" || idx.sort != SInt || mkSub(dbenv[p], idx) != mkInt(1) {
			continue
		}
		others := map[*Term]bool{}
		for s := range syms {
			others[s] = s != idx
		}
		delete(others, idx)
		cs = append(cs, x.flagCandidates(p, idx, phis, entryEnv, denv, dbenv, others, last)...)
		if !leaves {
			continue
		}
		var keep []*Term
		for _, c := range conjuncts(db.pc, nil) {
			if heads[c] || !mentions(c, map[*Term]bool{idx: true}) || mentions(c, others) || newerThan(c, last) {
				continue
			}
			keep = append(keep, c)
		}
		if len(keep) == 0 {
			continue
		}
		body := mkAnd(keep...)
		cs = append(cs, candFn{desc: "not left before " + p.Name(), eval: func(st *State, env Env, it *Term) *Term {
			j := freshB("j", SInt)
			b := substitute(body, map[*Term]*Term{idx: mkAdd(entryEnv[p], j)})
			nt := normIndex(j, mkAnd(mkLe(mkInt(0), j), mkLt(j, it)), b)
			return mkForall([]*Term{j}, mkImp(nt[0], nt[1]), x.patterns([]*Term{j}, nt[1])...)
		}})
	}
	return cs
}

// flagCandidates says of a flag that a loop raises (or lowers) that it is up exactly when some step raised it
// (down exactly when some step lowered it).
func (x *Exec) flagCandidates(ip *ssa.Phi, idx *Term, phis []*ssa.Phi, entryEnv, denv, dbenv Env, others map[*Term]bool, last int) []candFn {
	var cs []candFn
	for _, p := range phis {
		flag, next := denv[p], dbenv[p]
		if flag == nil || next == nil || flag.op != "var" || flag.sort != SBool {
			continue
		}
		for _, up := range []bool{true, false} {
			// what one step does to a flag that is still down (up)
			step := substitute(next, map[*Term]*Term{flag: mkBool(!up)})
			rest := map[*Term]bool{}
			for s, b := range others {
				rest[s] = b && s != flag
			}
			delete(rest, flag)
			for s, b := range rest {
				if !b {
					delete(rest, s)
				}
			}
			if step.op == "true" || step.op == "false" || mentions(step, map[*Term]bool{flag: true}) || mentions(step, rest) || newerThan(step, last) {
				continue
			}
			up, p, ip := up, p, ip
			cs = append(cs, candFn{desc: fmt.Sprintf("flag %s raised by a step (%v)", p.Name(), up), eval: func(st *State, env Env, it *Term) *Term {
				j := freshB("j", SInt)
				b := substitute(step, map[*Term]*Term{idx: mkAdd(entryEnv[ip], j)})
				if up {
					b = mkNot(b)
				}
				nt := normIndex(j, mkAnd(mkLe(mkInt(0), j), mkLt(j, it)), b)
				all := mkForall([]*Term{j}, mkImp(nt[0], nt[1]), x.patterns([]*Term{j}, nt[1])...)
				if up {
					return mkEq(env[p], mkOr(entryEnv[p], mkNot(all)))
				}
				return mkEq(env[p], mkAnd(entryEnv[p], all))
			}})
		}
	}
	return cs
}

func newerThan(t *Term, last int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" && t.id > last && strings.Contains(t.name, "!") {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// liveMapRefs adds the maps of this kind that are in scope at a loop.
func (x *Exec) liveMapRefs(k string, denv Env, refs []*Term, syms map[*Term]bool) []*Term {
	if len(k) < 3 || k[0] != 'M' || k[2] != ':' {
		return refs
	}
	var vs []ssa.Value
	for v := range denv {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok || !mapHeapKey(m, k) || denv[v].sort != SInt || hasHandle(denv[v]) || mentions(denv[v], syms) {
			continue
		}
		dup := false
		for _, r := range refs {
			dup = dup || r == denv[v]
		}
		if !dup && len(refs) < 6 {
			refs = append(refs, denv[v])
		}
	}
	return refs
}

// modRefs finds loop-invariant references stored to in heap k during the dry iteration.
func (x *Exec) modRefs(k string, db, dh *State, syms map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	visited := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		switch t.op {
		case "store":
			r := t.args[1]
			if !seen[r] && !mentions(r, syms) && r != dh.alloc && !hasFreshAfter(r, dh) {
				seen[r] = true
				out = append(out, r)
			}
			rec(t.args[0])
		case "ite":
			rec(t.args[1])
			rec(t.args[2])
		}
	}
	if v, ok := db.heap[k]; ok {
		rec(v)
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// hasFreshAfter: symbols created inside the dry run are not loop invariant.
func hasFreshAfter(t *Term, dh *State) bool {
	seen := map[*Term]bool{}
	base := dh.alloc.id
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" && t.id > base && strings.Contains(t.name, "!") {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type choice struct {
	desc string
	get  func(st *State, env Env) *Term
	name string // of the variable, when known
}

// callerValues lists the values of type t of the functions that called this one: a callback's
// loop may be about a variable of the function that passed the callback.
func (x *Exec) callerValues(fr *Frame, t types.Type) []choice {
	var cs []choice
	for p := fr.parent; p != nil; p = p.parent {
		if isContractFn(p.fn) || p.env == nil {
			continue
		}
		env := p.env
		var vs []ssa.Value
		for v := range env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			tv := env[v]
			if sameType(v.Type(), t) {
				cs = append(cs, choice{p.fn.Name() + "." + v.Name(), func(*State, Env) *Term { return tv }, valueName(v)})
			} else if a, ok := v.(*ssa.Alloc); ok && tv != nil {
				if pt, ok := a.Type().Underlying().(*types.Pointer); ok && sameType(pt.Elem(), t) {
					cs = append(cs, choice{p.fn.Name() + "." + a.Comment, func(st *State, _ Env) *Term { return x.load(st, tv, pt.Elem()) }, a.Comment})
				}
			}
		}
	}
	return cs
}

// instantiate matches a template's parameters with loop values by type.
func (x *Exec) instantiate(fr *Frame, l *Loop, t *template, phis []*ssa.Phi, mod map[string]bool, entry *State, entryEnv Env, dh *State, denv Env) []candFn {
	np := t.sig.Params().Len()
	var opts [][]choice
	for i := 1; i < np; i++ {
		pt := t.sig.Params().At(i).Type()
		var cs []choice
		if sg, ok := pt.Underlying().(*types.Signature); ok && sg.Params().Len() == 1 && sg.Results().Len() == 1 {
			// visited predicate of a map range
			for _, mi := range fr.iters {
				if mi.m != nil && types.Identical(mi.m.Key(), sg.Params().At(0).Type()) && mod[mi.key] {
					cs = append(cs, choice{desc: "visited", get: func(st *State, env Env) *Term {
						return mkHandle("visited", SInt, &Closure{builtin: "visited", bindings: []*Term{mkHandle("iter", SInt, &visitedPred{mi, st.heap[mi.key]})}})
					}})
				}
			}
			opts = append(opts, cs)
			continue
		}
		for _, p := range phis {
			if sameType(p.Type(), pt) {
				cs = append(cs, choice{p.Name() + "/" + p.Comment, func(st *State, env Env) *Term { return env[p] }, p.Comment})
			}
		}
		for _, k := range sortedKeys(mod) {
			if lt := localTypes[k]; lt != nil && types.Identical(lt, pt) {
				cs = append(cs, choice{k, func(st *State, env Env) *Term { return x.hget(st, k, x.heapSort[k]) }, localName(k)})
			}
		}
		if b, ok := pt.(*types.Basic); ok && b.Kind() == types.Int {
			// iteration counts of the enclosing loops, innermost first
			for j := len(x.itStack) - 1; j >= 0; j-- {
				tv := x.itStack[j]
				cs = append(cs, choice{desc: "outer " + tv.name, get: func(st *State, env Env) *Term { return tv }})
			}
		}
		// other live values of this type defined in the function before the loop
		var vs []ssa.Value
		for v := range denv {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if !sameType(v.Type(), pt) {
				continue
			}
			isPhi := false
			for _, p := range phis {
				if p == v {
					isPhi = true
				}
			}
			if isPhi {
				continue
			}
			if b, ok := pt.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if _, ok := v.(*ssa.Phi); !ok {
					continue
				}
			}
			tv := denv[v]
			cs = append(cs, choice{v.Name(), func(st *State, env Env) *Term { return tv }, valueName(v)})
		}
		if len(cs) == 0 {
			cs = x.callerValues(fr, pt)
		}
		if len(cs) > 8 {
			cs = cs[:8]
		}
		opts = append(opts, cs)
	}
	var out []candFn
	idx := make([]int, len(opts))
	for _, o := range opts {
		if len(o) == 0 {
			return nil
		}
	}
	for n := 0; n < 48; n++ {
		sel := make([]choice, len(opts))
		desc := t.name
		late := false
		for i := range opts {
			sel[i] = opts[i][idx[i]]
			desc += " " + sel[i].desc
			// a variable with the parameter's name goes first
			if want := t.sig.Params().At(i + 1).Name(); sel[i].name != want {
				for _, o := range opts[i] {
					late = late || o.name == want
				}
			}
		}
		out = append(out, candFn{user: true, desc: desc, late: late, eval: func(st *State, env Env, it *Term) *Term {
			args := []*Term{it}
			for _, s := range sel {
				a := s.get(st, env)
				if a == nil {
					unsup("template value missing")
				}
				args = append(args, a)
			}
			return x.evalPred(t.fn, args, st)
		}})
		i := 0
		for ; i < len(idx); i++ {
			idx[i]++
			if idx[i] < len(opts[i]) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			break
		}
	}
	return out
}

// localName is the variable's name in a key L:Func.name#n.
func localName(k string) string {
	k = k[strings.LastIndexByte(k, '.')+1:]
	if i := strings.IndexByte(k, '#'); i >= 0 {
		k = k[:i]
	}
	return k
}

func valueName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Phi:
		return v.Comment
	case *ssa.Parameter:
		return v.Name()
	}
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if d, ok := r.(*ssa.DebugRef); ok {
				if id, ok := d.Expr.(*ast.Ident); ok && !d.IsAddr {
					return id.Name
				}
			}
		}
	}
	return ""
}

type visitedPred struct {
	mi  *MapIter
	cur *Term
}

// evalPred evaluates a pure boolean closure in st without side effects.
func (x *Exec) evalPred(fn *Term, args []*Term, st *State) *Term {
	c := fn.h.(*Closure)
	s := st.clone()
	saved := x.noPanic
	x.noPanic = false
	defer func() { x.noPanic = saved }()
	rs, _ := x.execFn(c.fn, args, c.bindings, s)
	return rs[0]
}

func isContractFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	if !f.Pos().IsValid() {
		return false
	}
	p := f.Prog.Fset.Position(f.Pos())
	return strings.Contains(p.Filename, "zz_verif")
}

func isRepoFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/securego/gosec")
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), "github.com/securego/gosec")
	}
	return false
}

var _ = token.NoPos

// sameType is types.Identical that tolerates go/ssa's internal iterator types.
func sameType(a, b types.Type) bool {
	for _, t := range []types.Type{a, b} {
		switch t.(type) {
		case *types.Basic, *types.Named, *types.Pointer, *types.Slice, *types.Array, *types.Map, *types.Signature, *types.Struct, *types.Interface, *types.Tuple, *types.Chan, *types.Alias, *types.TypeParam:
		default:
			return false
		}
	}
	return types.Identical(a, b)
}

func mapHeapKey(m *types.Map, k string) bool {
	a, b, c := mapKeys(m)
	return k == a || k == b || k == c
}
