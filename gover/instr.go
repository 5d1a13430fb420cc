package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(fr *Frame, st *State, env Env, in ssa.Instruction) {
	x.steps++
	get := func(v ssa.Value) *Term { return x.val(fr, st, env, v) }
	switch in := in.(type) {
	case *ssa.Alloc:
		env[in] = x.doAlloc(fr, st, in)
	case *ssa.BinOp:
		env[in] = x.binop(fr, st, in, get(in.X), get(in.Y))
	case *ssa.UnOp:
		env[in] = x.unop(fr, st, in, get(in.X))
	case *ssa.Call:
		env[in] = x.callInstr(fr, st, env, in.Common(), in)
	case *ssa.ChangeInterface:
		env[in] = get(in.X)
	case *ssa.ChangeType:
		v := get(in.X)
		env[in] = x.changeType(st, v, in.X.Type(), in.Type())
	case *ssa.Convert:
		env[in] = x.convert(fr, st, get(in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		env[in] = x.convert(fr, st, get(in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t := get(in.Tuple)
		env[in] = distTuple(t, in.Index)
	case *ssa.Field:
		env[in] = mkSel(get(in.X), in.Field)
		x.typeFacts(st, env[in], in.Type())
	case *ssa.FieldAddr:
		b := get(in.X)
		x.nilCheck(fr, st, b, "nil dereference")
		env[in] = x.fieldAddr(fr, st, b, derefType(in.X.Type()), in.Field)
	case *ssa.Index:
		v, i := get(in.X), get(in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(fr, st, "index out of range", mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(u.Len()))))
			env[in] = mkSelect(v, i)
			x.typeFacts(st, env[in], in.Type())
		case *types.Basic:
			x.safety(fr, st, "index out of range", mkAnd(mkLe(mkInt(0), i), mkLt(i, strLen(v))))
			env[in] = x.strByte(st, v, i)
		default:
			unsup("index of %s", in.X.Type())
		}
	case *ssa.IndexAddr:
		env[in] = x.indexAddr(fr, st, get(in.X), in.X.Type(), get(in.Index))
	case *ssa.Lookup:
		env[in] = x.lookup(fr, st, get(in.X), get(in.Index), in)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, get(b))
		}
		env[in] = mkHandle("closure", SInt, &Closure{fn: in.Fn.(*ssa.Function), bindings: bs})
	case *ssa.MakeInterface:
		env[in] = x.makeIface(st, get(in.X), in.X.Type())
	case *ssa.MakeMap:
		env[in] = x.newMap(st, in.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		n, c := get(in.Len), get(in.Cap)
		x.safety(fr, st, "makeslice: len out of range", mkAnd(mkLe(mkInt(0), n), mkLe(n, c)))
		et := in.Type().Underlying().(*types.Slice).Elem()
		env[in] = x.newSlice(st, et, mkConstArr(arrSort(SInt, sortOf(et)), zeroOf(et)), n, c)
	case *ssa.MakeChan:
		r := x.newRef(st)
		env[in] = r
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, get(in.Map), in.Map.Type().Underlying().(*types.Map), get(in.Key), get(in.Value))
	case *ssa.Next:
		env[in] = x.next(fr, st, in, get(in.Iter))
	case *ssa.Range:
		env[in] = x.rangeInstr(fr, st, in, get(in.X))
	case *ssa.Slice:
		env[in] = x.sliceInstr(fr, st, env, in)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.Store:
		a := get(in.Addr)
		x.nilCheck(fr, st, a, "nil dereference")
		v := get(in.Val)
		x.store(st, a, in.Val.Type(), v)
	case *ssa.TypeAssert:
		env[in] = x.typeAssert(fr, st, get(in.X), in)
	case *ssa.Defer:
		x.doDefer(fr, st, env, in)
	case *ssa.RunDefers:
		x.runDefers(fr, st, env, in.Block())
	case *ssa.Go:
		unsup("goroutine in %s", fnName(fr.fn))
	case *ssa.Select, *ssa.Send:
		unsup("channel operation in %s", fnName(fr.fn))
	default:
		unsup("instruction %T in %s", in, fnName(fr.fn))
	}
}

func distTuple(t *Term, i int) *Term {
	if tp, ok := tupleOf(t); ok {
		return tp.vals[i]
	}
	if t.op == "ite" {
		return mkIte(t.args[0], distTuple(t.args[1], i), distTuple(t.args[2], i))
	}
	unsup("extract from %s", t)
	return nil
}

func tuple(vs ...*Term) *Term { return mkHandle("tuple", SH, &Tuple{vs}) }

func (x *Exec) nilCheck(fr *Frame, st *State, p *Term, what string) {
	if p.sort != SInt {
		return
	}
	x.safety(fr, st, what, mkNot(mkEq(p, mkInt(0))))
}

// ---- allocation ----

// allocClass: 0 escapes, 1 local (state variable), 2 constant cell.
func (x *Exec) allocClass(fr *Frame, in *ssa.Alloc) int {
	if c, ok := fr.escape[in]; ok {
		return c
	}
	stores := 0
	initStore := true
	var uses func(v ssa.Value, top bool) bool
	uses = func(v ssa.Value, top bool) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return false
				}
				stores++
				if !top || r.Block() != in.Block() {
					initStore = false
				}
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				stores += 2 // partial stores: not a constant cell
				if !uses(r, false) {
					return false
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						if !uses(fn.FreeVars[i], false) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	cls := 0
	et := derefType(in.Type())
	if isArray(et) {
		// local arrays are addressed by IndexAddr/Slice: keep them on the heap
		cls = 0
	} else if uses(in, true) {
		cls = 1
		if stores == 1 && initStore && !isStruct(et) {
			cls = 2
		}
		if stores == 0 {
			cls = 1
		}
	}
	fr.escape[in] = cls
	return cls
}

var localN int

func (x *Exec) doAlloc(fr *Frame, st *State, in *ssa.Alloc) *Term {
	et := derefType(in.Type())
	switch x.allocClass(fr, in) {
	case 2:
		return addrTerm(&Addr{kind: "const", T: et, typ: et, cell: &constCell{}})
	case 1:
		localN++
		k := fmt.Sprintf("L:%s.%s#%d", in.Parent().Name(), in.Comment, localN)
		localTypes[k] = et
		st.heap[k] = zeroOf(et)
		x.heapSort[k] = sortOf(et)
		return addrTerm(&Addr{kind: "local", key: k, T: et, typ: et})
	}
	r := x.newRef(st)
	x.store(st, r, et, zeroOf(et))
	return r
}

func (x *Exec) newSlice(st *State, et types.Type, content, n, c *Term) *Term {
	r := x.newRef(st)
	k := elemKey(et)
	h := x.hget(st, k, arrSort(SInt, arrSort(SInt, sortOf(et))))
	x.hset(st, k, mkStore(h, r, content))
	return mkDT("Slice", r, mkInt(0), n, c)
}

func (x *Exec) indexAddr(fr *Frame, st *State, b *Term, t types.Type, i *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et := u.Elem()
		if b.sort == SH {
			return distribute2(b, func(b *Term) *Term {
				g := anyGhost(b)
				if g == nil {
					if b.sort == SSl {
						return x.indexAddr(fr, st, b, t, i)
					}
					unsup("index of %s", b)
				}
				return addrTerm(&Addr{kind: "const", T: et, typ: et, cell: &constCell{mkSelect(g.content, mkAdd(g.off, i))}})
			})
		}
		x.safety(fr, st, "index out of range", mkAnd(mkLe(mkInt(0), i), mkLt(i, slLen(b))))
		return addrTerm(&Addr{kind: "elem", T: et, base: slArr(b), idx: mkAdd(slOff(b), i), typ: et})
	case *types.Pointer: // pointer to array
		at := u.Elem().Underlying().(*types.Array)
		x.safety(fr, st, "index out of range", mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))))
		if asAddr(b) != nil {
			return addrTerm(&Addr{kind: "aelem", T: u.Elem(), base: b, idx: i, typ: at.Elem()})
		}
		return addrTerm(&Addr{kind: "elem", T: at.Elem(), base: b, idx: i, typ: at.Elem()})
	}
	unsup("IndexAddr on %s", t)
	return nil
}

func distribute2(t *Term, f func(*Term) *Term) *Term {
	if t.op == "ite" {
		return mkIte(t.args[0], distribute2(t.args[1], f), distribute2(t.args[2], f))
	}
	return f(t)
}

func (x *Exec) lenOf(v *Term) *Term {
	return distribute2(v, func(b *Term) *Term {
		if g := anyGhost(b); g != nil {
			return g.len
		}
		return slLen(b)
	})
}

// contentOf returns the element array, offset and length of a slice value.
func (x *Exec) contentOf(st *State, v *Term, et types.Type) (c, off, n *Term) {
	if v.op == "ite" && v.sort == SH {
		c1, o1, n1 := x.contentOf(st, v.args[1], et)
		c2, o2, n2 := x.contentOf(st, v.args[2], et)
		return mkIte(v.args[0], c1, c2), mkIte(v.args[0], o1, o2), mkIte(v.args[0], n1, n2)
	}
	if g := anyGhost(v); g != nil {
		return g.content, g.off, g.len
	}
	h := x.hget(st, elemKey(et), arrSort(SInt, arrSort(SInt, sortOf(et))))
	return mkSelect(h, slArr(v)), slOff(v), slLen(v)
}

// ---- operators ----

func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(ty)
	if !ok || isInt(t) && t.iv.Cmp(lo) >= 0 && t.iv.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		if bits == 64 && !x.exactInts && !isInt(t) {
			x.note("int and int64 arithmetic is mathematical (no 64-bit overflow)")
			return t
		}
		half := mkBig(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		return mkSub(mkMod(mkAdd(t, half), mkBig(m)), half)
	}
	return mkMod(t, mkBig(m))
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp, a, b *Term) *Term {
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		r := x.equal(st, a, b, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	}
	u, _ := t.Underlying().(*types.Basic)
	if u == nil {
		unsup("binop on %s", t)
	}
	switch {
	case u.Info()&types.IsString != 0:
		switch in.Op {
		case token.ADD:
			return mkConcat(a, b)
		case token.LSS:
			return strLt(a, b)
		case token.GTR:
			return strLt(b, a)
		case token.LEQ:
			return mkNot(strLt(b, a))
		case token.GEQ:
			return mkNot(strLt(a, b))
		}
	case u.Info()&types.IsInteger != 0:
		return x.intop(fr, st, in.Op, a, b, t, in.Y.Type())
	case u.Info()&types.IsBoolean != 0:
		switch in.Op {
		case token.AND, token.LAND:
			return mkAnd(a, b)
		case token.OR, token.LOR:
			return mkOr(a, b)
		}
	case u.Info()&types.IsFloat != 0:
		n := "flt" + in.Op.String()
		switch in.Op {
		case token.LSS:
			return mkApp("flt<", SBool, a, b)
		case token.GTR:
			return mkApp("flt<", SBool, b, a)
		case token.LEQ:
			return mkApp("flt<=", SBool, a, b)
		case token.GEQ:
			return mkApp("flt<=", SBool, b, a)
		}
		return mkApp(n, SFlt, a, b)
	}
	unsup("binop %s on %s", in.Op, t)
	return nil
}

func pow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// mkPow2 is 2^k for 0<=k<=64 and 0 above (callers wrap).
func mkPow2(k *Term) *Term {
	if isInt(k) {
		if k.iv.IsInt64() && k.iv.Int64() >= 0 && k.iv.Int64() <= 4096 {
			return mkBig(pow2(k.iv.Int64()))
		}
		return mkInt(0)
	}
	if k.op == "ite" && allConstLeaves(k) {
		return mkIte(k.args[0], mkPow2(k.args[1]), mkPow2(k.args[2]))
	}
	r := mkBig(pow2(64))
	for i := int64(63); i >= 0; i-- {
		r = intern("ite", "", SInt, nil, mkEq(k, mkInt(i)), mkBig(pow2(i)), r)
	}
	return r
}

func (x *Exec) intop(fr *Frame, st *State, op token.Token, a, b *Term, t, yt types.Type) *Term {
	switch op {
	case token.ADD:
		return x.wrap(mkAdd(a, b), t)
	case token.SUB:
		return x.wrap(mkSub(a, b), t)
	case token.MUL:
		return x.wrap(mkMul(a, b), t)
	case token.QUO:
		x.safety(fr, st, "division by zero", mkNot(mkEq(b, mkInt(0))))
		return x.wrap(truncDiv(a, b), t)
	case token.REM:
		x.safety(fr, st, "division by zero", mkNot(mkEq(b, mkInt(0))))
		if _, _, _, signed, _ := intRange(t); !signed {
			return mkMod(a, b)
		}
		return mkSub(a, mkMul(b, truncDiv(a, b)))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkLe(a, b)
	case token.GEQ:
		return mkLe(b, a)
	case token.SHL:
		if isInt(b) && b.iv.Sign() < 0 {
			st.pc = tFalse
			return mkInt(0)
		}
		if _, _, _, signed, _ := intRange(yt); signed && !isInt(b) {
			x.safety(fr, st, "negative shift", mkLe(mkInt(0), b))
		}
		r := mkMul(a, mkPow2(b))
		if isInt(a) && a.iv.Cmp(big.NewInt(1)) == 0 && !isInt(b) {
			r = mkPow2(b)
		}
		se := x.exactInts
		x.exactInts = true
		r = x.wrap(r, t)
		x.exactInts = se
		return r
	case token.SHR:
		if isInt(b) {
			return mkDiv(a, mkPow2(b))
		}
		if _, _, _, signed, _ := intRange(yt); signed {
			x.safety(fr, st, "negative shift", mkLe(mkInt(0), b))
		}
		return mkDiv(a, mkPow2(b))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, a, b, t)
	}
	unsup("int op %s", op)
	return nil
}

func truncDiv(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.iv.Sign() != 0 {
		return mkBig(new(big.Int).Quo(a.iv, b.iv))
	}
	q := mkDiv(a, b)
	// Euclidean div floors for positive b; fix up for negative a.
	if isInt(b) && b.iv.Sign() > 0 {
		return mkIte(mkLe(mkInt(0), a), q, mkNeg(mkDiv(mkNeg(a), b)))
	}
	return mkApp("$quo", SInt, a, b)
}

// bitop models bitwise operators: constants fold; otherwise an exact
// definition by BV is avoided in favour of algebraic laws.
func (x *Exec) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if isInt(a) && isInt(b) {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.iv, b.iv)
		case token.OR:
			r.Or(a.iv, b.iv)
		case token.XOR:
			r.Xor(a.iv, b.iv)
		case token.AND_NOT:
			r.AndNot(a.iv, b.iv)
		}
		return x.wrap(mkBig(r), t)
	}
	if op == token.AND_NOT {
		_, hi, _, signed, _ := intRange(t)
		if isInt(b) {
			m := new(big.Int).Not(b.iv)
			if !signed {
				m.And(m, hi)
			}
			return x.bitop(st, token.AND, a, mkBig(m), t)
		}
		return mkSub(a, x.bitop(st, token.AND, a, b, t))
	}
	if isInt(a) || !isInt(b) && a.id > b.id {
		a, b = b, a
	}
	// symbolic a, possibly constant b >= 0: expand bit by bit for small masks
	if isInt(b) && b.iv.Sign() >= 0 && b.iv.BitLen() <= 12 {
		var and *Term = mkInt(0)
		for i := 0; i < b.iv.BitLen(); i++ {
			if b.iv.Bit(i) == 1 {
				bit := mkMod(mkDiv(a, mkBig(pow2(int64(i)))), mkInt(2))
				and = mkAdd(and, mkMul(bit, mkBig(pow2(int64(i)))))
			}
		}
		switch op {
		case token.AND:
			return and
		case token.OR:
			return mkAdd(a, mkSub(b, and))
		case token.XOR:
			return mkAdd(a, mkSub(b, mkMul(mkInt(2), and)))
		}
	}
	n := map[token.Token]string{token.AND: "$bitand", token.OR: "$bitor", token.XOR: "$bitxor"}[op]
	if !isInt(b) {
		// the operators are commutative: order the operands by value
		a, b = mkIte(mkLe(a, b), a, b), mkIte(mkLe(a, b), b, a)
	}
	return mkApp(n, SInt, a, b)
}

// ---- strings ----

func strLen(s *Term) *Term {
	if s.op == "str" {
		return mkInt(int64(len(s.name)))
	}
	return mkApp("$len", SInt, s)
}

func mkConcat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return mkStr(a.name + b.name)
	}
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	if a.op == "app" && a.name == "$concat" {
		return mkConcat(a.args[0], mkConcat(a.args[1], b))
	}
	if a.op == "str" && b.op == "app" && b.name == "$concat" && b.args[0].op == "str" {
		return mkConcat(mkStr(a.name+b.args[0].name), b.args[1])
	}
	if a.op == "ite" && allConstLeaves(a) && b.op == "str" {
		return mkIte(a.args[0], mkConcat(a.args[1], b), mkConcat(a.args[2], b))
	}
	return mkApp("$concat", SStr, a, b)
}

func strLt(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return mkBool(a.name < b.name)
	}
	if a == b {
		return tFalse
	}
	return mkApp("$lt", SBool, a, b)
}

func mkSubstr(s, off, n *Term) *Term {
	if s.op == "str" && isInt(off) && isInt(n) {
		o, l := off.iv.Int64(), n.iv.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.name)) {
			return mkStr(s.name[o : o+l])
		}
	}
	if isInt(off) && off.iv.Sign() == 0 && n == strLen(s) {
		return s
	}
	if isInt(n) && n.iv.Sign() == 0 {
		return mkStr("")
	}
	return mkApp("$substr", SStr, s, off, n)
}

func (x *Exec) strByte(st *State, s, i *Term) *Term {
	if s.op == "str" && isInt(i) {
		k := i.iv.Int64()
		if k >= 0 && k < int64(len(s.name)) {
			return mkInt(int64(s.name[k]))
		}
	}
	if x.smtStrings {
		return mkApp("$code", SInt, mkApp("$at", SStr, s, i))
	}
	v := mkApp("$byte", SInt, s, i)
	x.fact(st, mkAnd(mkLe(mkInt(0), v), mkLe(v, mkInt(255))))
	return v
}

// ---- equality ----

func (x *Exec) equal(st *State, a, b *Term, ta, tb types.Type) *Term {
	ia, ib := types.IsInterface(ta), types.IsInterface(tb)
	if ia && !ib {
		b = x.makeIface(st, b, tb)
	}
	if ib && !ia {
		a = x.makeIface(st, a, ta)
	}
	if a.sort == SH || b.sort == SH {
		// comparison of a ghost slice with nil
		g, o := a, b
		if g.sort != SH {
			g, o = b, a
		}
		if o.sort == SSl && isConst(o) {
			return mkEq(x.lenOf(g), mkInt(0))
		}
		unsup("comparison of ghost values")
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		// only nil comparison is legal
		return mkEq(slArr(a), slArr(b))
	}
	return mkEq(a, b)
}

// ---- interfaces ----

func (x *Exec) makeIface(st *State, v *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return v
	}
	return mkDT("Iface", tidOf(t), x.encode(st, v, t))
}

// encode boxes a value of type t as an Int payload.
func (x *Exec) encode(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return v
		}
		if u.Info()&types.IsBoolean != 0 {
			return mkIte(v, mkInt(1), mkInt(0))
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return v
	}
	if v.sort == SH {
		unsup("ghost value boxed in interface")
	}
	// distribute over constants so that dynamic values stay visible
	if v.op == "ite" && allConstLeaves(v) {
		return mkIte(v.args[0], x.encode(st, v.args[1], t), x.encode(st, v.args[2], t))
	}
	s := string(v.sort)
	if v.op == "app" && v.name == "unbox:"+s {
		return v.args[0]
	}
	b := mkApp("box:"+s, SInt, v)
	un := mkApp("unbox:"+s, v.sort, b)
	f := mkEq(un, v)
	if f.bound {
		// general axiom for this sort
		bv := intern("bvar", "bx?"+s, v.sort, nil)
		g := mkApp("box:"+s, SInt, bv)
		x.axiom(mkForall([]*Term{bv}, mkEq(mkApp("unbox:"+s, v.sort, g), bv), g))
	} else {
		x.axiom(f)
	}
	return b
}

func (x *Exec) decode(pl *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return pl
		}
		if u.Info()&types.IsBoolean != 0 {
			return mkEq(pl, mkInt(1))
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return pl
	}
	s := sortOf(t)
	if pl.op == "app" && pl.name == "box:"+string(s) {
		return pl.args[0]
	}
	if pl.op == "ite" {
		return mkIte(pl.args[0], x.decode(pl.args[1], t), x.decode(pl.args[2], t))
	}
	if isInt(pl) {
		// payload of another type or nil: any value
		return zeroOf(t)
	}
	un := mkApp("unbox:"+string(s), s, pl)
	return un
}

// implements tests a dynamic type id against an interface type.
func (x *Exec) implements(tid *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	if iface.NumMethods() == 0 {
		return mkNot(mkEq(tid, mkInt(0)))
	}
	if isInt(tid) {
		t := tidType[int(tid.iv.Int64())]
		return mkBool(t != nil && types.Implements(t, iface))
	}
	if tid.op == "ite" && allConstLeaves(tid) {
		return mkIte(tid.args[0], x.implements(tid.args[1], it), x.implements(tid.args[2], it))
	}
	n := "impl:" + typeKey(it)
	p := mkApp(n, SBool, tid)
	if !x.implSeen[n] {
		x.implSeen[n] = true
		implIfaces[n] = iface
	}
	x.axiom(mkNot(mkApp(n, SBool, mkInt(0))))
	return p
}

var implIfaces = map[string]*types.Interface{}

// implAxioms emits ground facts for all type ids and tested interfaces.
func (x *Exec) implAxioms() []*Term {
	var out []*Term
	for _, n := range sortedKeys(x.implSeen) {
		iface := implIfaces[n]
		for id := 1; id <= len(tids); id++ {
			p := mkApp(n, SBool, mkInt(int64(id)))
			if types.Implements(tidType[id], iface) {
				out = append(out, p)
			} else {
				out = append(out, mkNot(p))
			}
		}
	}
	return out
}

func (x *Exec) typeAssert(fr *Frame, st *State, v *Term, in *ssa.TypeAssert) *Term {
	at := in.AssertedType
	var ok, r *Term
	if types.IsInterface(at) {
		ok = x.implements(ifTid(v), at)
		// static knowledge: if the source interface type already implies it
		r = mkIte(ok, v, zeroSort(SIf))
	} else {
		ok = mkEq(ifTid(v), tidOf(at))
		r = x.decode(ifPl(v), at)
		if ok != tFalse {
			if f := x.typeFact(st.alloc, r, at); f != tTrue && !r.bound {
				x.fact(st, mkImp(ok, f))
			}
			// payloads are canonical boxes
			s := sortOf(at)
			if r.op == "app" && strings.HasPrefix(r.name, "unbox:") && !r.bound {
				x.fact(st, mkImp(ok, mkEq(mkApp("box:"+string(s), SInt, r), ifPl(v))))
			}
		}
		if in.CommaOk {
			if r.sort == SInt && hasHandle(r) {
				// keep handles
			} else {
				r = mkIte(ok, r, zeroOf(at))
			}
		}
	}
	if in.CommaOk {
		return tuple(r, ok)
	}
	x.safety(fr, st, "failed type assertion to "+typeKey(at), ok)
	return r
}

// ---- conversions ----

func (x *Exec) changeType(st *State, v *Term, from, to types.Type) *Term {
	if v.sort == SH {
		return v
	}
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		if _, ok := from.Underlying().(*types.Map); ok {
			mf := from.Underlying().(*types.Map)
			mt := to.Underlying().(*types.Map)
			d1, _, _ := mapKeys(mf)
			d2, _, _ := mapKeys(mt)
			if d1 != d2 {
				unsup("map type change")
			}
		}
		return v
	}
	// struct datatypes with identical underlying types
	if isStruct(from) && isStruct(to) {
		n := structOf(to).NumFields()
		args := make([]*Term, n)
		for i := range args {
			args[i] = x.changeType(st, mkSel(v, i), structOf(from).Field(i).Type(), structOf(to).Field(i).Type())
		}
		return mkDT(structDT(to), args...)
	}
	unsup("ChangeType %s -> %s", from, to)
	return nil
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) convert(fr *Frame, st *State, v *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		lo1, hi1, _, _, _ := intRange(from)
		lo2, hi2, _, _, _ := intRange(to)
		if lo1.Cmp(lo2) >= 0 && hi1.Cmp(hi2) <= 0 {
			return v
		}
		se := x.exactInts
		x.exactInts = true
		r := x.wrap(v, to)
		x.exactInts = se
		return r
	}
	if isStringType(from) && isStringType(to) {
		return v
	}
	if isStringType(from) && isByteSlice(to) {
		r := x.newSlice(st, to.Underlying().(*types.Slice).Elem(), mkApp("$bytes", arrSort(SInt, SInt), v), strLen(v), strLen(v))
		if !v.bound {
			x.axiom(mkEq(mkApp("$ofbytes", SStr, mkApp("$bytes", arrSort(SInt, SInt), v), mkInt(0), strLen(v)), v))
		}
		return r
	}
	if isByteSlice(from) && isStringType(to) {
		c, o, n := x.contentOf(st, v, from.Underlying().(*types.Slice).Elem())
		if c.op == "app" && c.name == "$bytes" && isInt(o) && o.iv.Sign() == 0 && n == strLen(c.args[0]) {
			return c.args[0]
		}
		return mkApp("$ofbytes", SStr, c, o, n)
	}
	if isIntType(from) && isStringType(to) {
		return mkApp("$ofrune", SStr, v)
	}
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts && fs != SSl {
		return v
	}
	if fs == SFlt || ts == SFlt {
		return mkApp("conv:"+typeKey(from)+"->"+typeKey(to), ts, v)
	}
	if fs == SSl && isStringType(to) { // []rune
		c, o, n := x.contentOf(st, v, from.Underlying().(*types.Slice).Elem())
		return mkApp("$ofrunes", SStr, c, o, n)
	}
	if isStringType(from) && ts == SSl {
		et := to.Underlying().(*types.Slice).Elem()
		n := mkApp("$runecount", SInt, v)
		x.fact(st, mkLe(mkInt(0), n))
		return x.newSlice(st, et, mkApp("$runes", arrSort(SInt, SInt), v), n, n)
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp, v *Term) *Term {
	switch in.Op {
	case token.MUL:
		x.nilCheck(fr, st, v, "nil dereference")
		return x.load(st, v, in.Type())
	case token.NOT:
		return mkNot(v)
	case token.SUB:
		if v.sort == SFlt {
			return mkApp("flt-neg", SFlt, v)
		}
		return x.wrap(mkNeg(v), in.Type())
	case token.XOR:
		// ^x = -x-1 (signed) or max - x (unsigned)
		_, hi, _, signed, _ := intRange(in.Type())
		if signed {
			return mkSub(mkNeg(v), mkInt(1))
		}
		return mkSub(mkBig(hi), v)
	case token.ARROW:
		unsup("channel receive")
	}
	unsup("unop %s", in.Op)
	return nil
}

// ---- maps ----

func (x *Exec) mapArrs(st *State, m *types.Map) (dk, vk, ck string, d, v, c *Term) {
	dk, vk, ck = mapKeys(m)
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	d = x.hget(st, dk, arrSort(SInt, arrSort(ks, SBool)))
	v = x.hget(st, vk, arrSort(SInt, arrSort(ks, vs)))
	c = x.hget(st, ck, arrSort(SInt, SInt))
	return
}

func (x *Exec) newMap(st *State, m *types.Map) *Term {
	r := x.newRef(st)
	dk, vk, ck, d, v, c := x.mapArrs(st, m)
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	x.hset(st, dk, mkStore(d, r, mkConstArr(arrSort(ks, SBool), tFalse)))
	x.hset(st, vk, mkStore(v, r, mkConstArr(arrSort(ks, vs), zeroOf(m.Elem()))))
	x.hset(st, ck, mkStore(c, r, mkInt(0)))
	return r
}

func (x *Exec) mapHas(st *State, r *Term, m *types.Map, k *Term) *Term {
	if g := gmapOf(r); g != nil {
		return mkSelect(g.dom, k)
	}
	if isInt(r) && r.iv.Sign() == 0 {
		return tFalse
	}
	_, _, _, d, _, _ := x.mapArrs(st, m)
	h := mkSelect(mkSelect(d, r), k)
	// a nil map is empty
	if !isConst(h) && !definitelyDistinct(r, mkInt(0)) && !h.bound {
		x.fact(st, mkImp(mkEq(r, mkInt(0)), mkNot(h)))
	} else if h.bound && h.op == "select" {
		x.boundFact(mkImp(mkEq(r, mkInt(0)), mkNot(h)), h)
	}
	return h
}

func gmapOf(r *Term) *GMap {
	if r.op == "handle" {
		if g, ok := r.h.(*GMap); ok {
			return g
		}
	}
	return nil
}

func (x *Exec) mapGet(st *State, r *Term, m *types.Map, k *Term) (val, has *Term) {
	has = x.mapHas(st, r, m, k)
	var raw *Term
	if g := gmapOf(r); g != nil {
		raw = mkSelect(g.val, k)
	} else {
		_, vk, _, _, v, _ := x.mapArrs(st, m)
		raw = mkSelect(mkSelect(v, r), k)
		_ = vk
		if x.alloc0 != nil && x.dry == 0 && !raw.bound {
			if h0 := x.baseHeap[vk]; h0 != nil {
				switch m.Elem().Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Slice:
					rv := mkSelect(mkSelect(h0, r), k)
					if rv.op == "select" {
						x.axiom(mkImp(mkLt(r, x.alloc0), x.typeFact(x.alloc0, rv, m.Elem())))
					}
				}
			}
		}
	}
	if has != tFalse {
		x.typeFacts(st, raw, m.Elem())
	}
	val = mkIte(has, raw, zeroOf(m.Elem()))
	return
}

func (x *Exec) mapLen(st *State, r *Term, m *types.Map) *Term {
	if g := gmapOf(r); g != nil {
		return g.card
	}
	_, _, _, d, _, c := x.mapArrs(st, m)
	n := mkSelect(c, r)
	if !isConst(n) && !n.bound {
		x.fact(st, mkAnd(mkLe(mkInt(0), n), mkImp(mkEq(r, mkInt(0)), mkEq(n, mkInt(0)))))
		// empty iff no key
		k := freshB("k", sortOf(m.Key()))
		if x.dry == 0 && x.binderDepth() == 0 {
			dom := mkSelect(d, r)
			x.fact(st, mkImp(mkEq(n, mkInt(0)), mkForall([]*Term{k}, mkNot(mkSelect(dom, k)), mkSelect(dom, k))))
			w := fresh("witness", sortOf(m.Key()))
			x.fact(st, mkImp(mkLt(mkInt(0), n), mkSelect(dom, w)))
		}
	}
	return n
}

func (x *Exec) lookup(fr *Frame, st *State, v, k *Term, in *ssa.Lookup) *Term {
	if isStringType(in.X.Type()) {
		x.safety(fr, st, "index out of range", mkAnd(mkLe(mkInt(0), k), mkLt(k, strLen(v))))
		return x.strByte(st, v, k)
	}
	m := in.X.Type().Underlying().(*types.Map)
	val, has := x.mapGet(st, v, m, k)
	if in.CommaOk {
		return tuple(val, has)
	}
	return val
}

func (x *Exec) mapUpdate(fr *Frame, st *State, r *Term, m *types.Map, k, val *Term) {
	x.checkEscape(val)
	x.safety(fr, st, "assignment to entry in nil map", mkNot(mkEq(r, mkInt(0))))
	dk, vk, ck, d, v, c := x.mapArrs(st, m)
	has := mkSelect(mkSelect(d, r), k)
	x.hset(st, dk, mkStore(d, r, mkStore(mkSelect(d, r), k, tTrue)))
	x.hset(st, vk, mkStore(v, r, mkStore(mkSelect(v, r), k, val)))
	n := mkSelect(c, r)
	x.hset(st, ck, mkStore(c, r, mkIte(has, n, mkAdd(n, mkInt(1)))))
	if !n.bound {
		x.fact(st, mkLe(mkInt(0), n))
		x.fact(st, mkImp(has, mkLt(mkInt(0), n)))
	}
}

func (x *Exec) mapDelete(st *State, r *Term, m *types.Map, k *Term) {
	dk, _, ck, d, _, c := x.mapArrs(st, m)
	has := mkAnd(mkNot(mkEq(r, mkInt(0))), mkSelect(mkSelect(d, r), k))
	n := mkSelect(c, r)
	x.hset(st, dk, mkIte(mkEq(r, mkInt(0)), d, mkStore(d, r, mkStore(mkSelect(d, r), k, tFalse))))
	x.hset(st, ck, mkIte(mkEq(r, mkInt(0)), c, mkStore(c, r, mkIte(has, mkSub(n, mkInt(1)), n))))
	x.fact(st, mkImp(has, mkLt(mkInt(0), n)))
}

func (x *Exec) rangeInstr(fr *Frame, st *State, in *ssa.Range, v *Term) *Term {
	x.iterN++
	id := x.iterN
	key := fmt.Sprintf("I:%s#%d", in.Name(), id)
	st.heap[key] = mkInt(0)
	x.heapSort[key] = SInt
	if isStringType(in.X.Type()) {
		mi := &MapIter{key: key, isStr: true, str: v, id: id, card: strLen(v)}
		fr.iters = append(fr.iters, mi)
		return mkHandle("iter", SInt, mi)
	}
	m := in.X.Type().Underlying().(*types.Map)
	ks := sortOf(m.Key())
	var dom, card *Term
	if g := gmapOf(v); g != nil {
		dom, card = g.dom, g.card
	} else {
		_, _, _, d, _, c := x.mapArrs(st, m)
		dom = mkSelect(d, v)
		card = mkSelect(c, v)
		if isInt(v) && v.iv.Sign() == 0 {
			card = mkInt(0)
		}
	}
	mi := &MapIter{key: key, card: card, dom: dom, ref: v, m: m, id: id,
		ord: fmt.Sprintf("ord!%d", id), pos: fmt.Sprintf("pos!%d", id)}
	if x.dry == 0 && !isConst(card) || x.dry == 0 && isInt(card) && card.iv.Sign() != 0 {
		x.note("map iteration order is an arbitrary permutation of the keys")
		i := freshB("i", SInt)
		k := freshB("k", ks)
		ordI := mkApp(mi.ord, ks, i)
		posK := mkApp(mi.pos, SInt, k)
		x.fact(st, mkLe(mkInt(0), card))
		x.fact(st, mkImp(mkEq(v, mkInt(0)), mkEq(card, mkInt(0))))
		x.fact(st, mkForall([]*Term{i}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, card)),
			mkAnd(mkSelect(dom, ordI), mkEq(mkApp(mi.pos, SInt, ordI), i))), ordI))
		x.fact(st, mkForall([]*Term{k}, mkImp(mkSelect(dom, k),
			mkAnd(mkLe(mkInt(0), posK), mkLt(posK, card), mkEq(mkApp(mi.ord, ks, posK), k))), mkSelect(dom, k)))
		x.fact(st, mkForall([]*Term{k}, mkImp(mkSelect(dom, k),
			mkAnd(mkLe(mkInt(0), posK), mkLt(posK, card), mkEq(mkApp(mi.ord, ks, posK), k))), posK))
	}
	fr.iters = append(fr.iters, mi)
	return mkHandle("iter", SInt, mi)
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next, itv *Term) *Term {
	mi, ok := itv.h.(*MapIter)
	if !ok {
		unsup("merged iterator")
	}
	cur := x.hget(st, mi.key, SInt)
	if mi.isStr {
		k := mkApp("$runeidx", SInt, mi.str, cur)
		r := mkApp("$runeat", SInt, mi.str, cur)
		okT := mkLt(cur, mkApp("$runecount", SInt, mi.str))
		x.fact(st, mkLe(mkInt(0), k))
		x.fact(st, mkImp(okT, mkLt(k, strLen(mi.str))))
		x.hset(st, mi.key, mkAdd(cur, mkInt(1)))
		return tuple(okT, k, r)
	}
	okT := mkLt(cur, mi.card)
	k := mkApp(mi.ord, sortOf(mi.m.Key()), cur)
	v, _ := x.mapGet(st, mi.ref, mi.m, k)
	x.typeFacts(st, k, mi.m.Key())
	x.hset(st, mi.key, mkAdd(cur, mkInt(1)))
	return tuple(okT, k, v)
}

// ---- slicing ----

func (x *Exec) sliceInstr(fr *Frame, st *State, env Env, in *ssa.Slice) *Term {
	v := x.val(fr, st, env, in.X)
	var lo, hi, max *Term
	if in.Low != nil {
		lo = x.val(fr, st, env, in.Low)
	} else {
		lo = mkInt(0)
	}
	if in.High != nil {
		hi = x.val(fr, st, env, in.High)
	}
	if in.Max != nil {
		max = x.val(fr, st, env, in.Max)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = strLen(v)
		}
		x.safety(fr, st, "slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, strLen(v))))
		return mkSubstr(v, lo, mkSub(hi, lo))
	case *types.Slice:
		if v.sort == SH {
			return distribute2(v, func(b *Term) *Term {
				g := anyGhost(b)
				if g == nil {
					unsup("slicing %s", b)
				}
				h := hi
				if h == nil {
					h = g.len
				}
				return mkHandle("gslice", SH, &GSlice{g.content, mkAdd(g.off, lo), mkSub(h, lo), g.elem})
			})
		}
		if hi == nil {
			hi = slLen(v)
		}
		cp := slCap(v)
		if max == nil {
			max = cp
		}
		x.safety(fr, st, "slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, max), mkLe(max, cp)))
		return mkDT("Slice", slArr(v), mkAdd(slOff(v), lo), mkSub(hi, lo), mkSub(max, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := mkInt(at.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		if asAddr(v) != nil {
			unsup("slice of interior array")
		}
		x.safety(fr, st, "slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)))
		return mkDT("Slice", v, lo, mkSub(hi, lo), mkSub(max, lo))
	}
	unsup("slice of %s", in.X.Type())
	return nil
}

// ---- defer ----

func (x *Exec) doDefer(fr *Frame, st *State, env Env, in *ssa.Defer) {
	c := in.Common()
	d := &deferred{pc: st.pc, call: c, block: in.Block()}
	for _, a := range c.Args {
		d.args = append(d.args, x.val(fr, st, env, a))
	}
	if !c.IsInvoke() {
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			d.fnv = x.val(fr, st, env, c.Value)
		}
	} else {
		d.fnv = x.val(fr, st, env, c.Value)
	}
	fr.defers = append(fr.defers, d)
}

func (x *Exec) runDefers(fr *Frame, st *State, env Env, at *ssa.BasicBlock) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		_, ra, _ := splitCommon(d.pc, st.pc)
		if len(ra) != 0 && (at == nil || !d.block.Dominates(at)) {
			// the defer statement may not have been reached on this path
			if mkAnd(d.pc, st.pc) == tFalse {
				continue
			}
			if x.isPureDefer(d) {
				continue
			}
			unsup("conditional defer in %s", fnName(fr.fn))
		}
		if x.isPureDefer(d) {
			continue
		}
		x.doCall(fr, st, d.call, d.fnv, d.args, nil)
	}
}

// isPureDefer: closing files and unlocking have no modelled effect.
func (x *Exec) isPureDefer(d *deferred) bool {
	if d.call.IsInvoke() {
		return true
	}
	if f := d.call.StaticCallee(); f != nil && !isRepoFn(f) {
		return x.stubs[f] == nil
	}
	return false
}
