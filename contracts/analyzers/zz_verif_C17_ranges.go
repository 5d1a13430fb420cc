package analyzers

import (
	"errors"
	"fmt"
	"go/token"
	"math"
	"math/bits"

	"golang.org/x/tools/go/ssa"

	"github.com/securego/gosec/v2/internal/gv"
)

// specC17Const gives the constant of a comparison the value c, given by its sign and its size.
func specC17Const(neg bool, size uint) {
	gv.Stub((*ssa.Const).Int64, func(k *ssa.Const) int64 {
		if neg && size <= 1<<63 {
			return -int64(size)
		}
		if !neg && size < 1<<63 {
			return int64(size)
		}
		return 0
	})
	gv.Stub((*ssa.Const).Uint64, func(k *ssa.Const) uint64 {
		if neg {
			return 0
		}
		return uint64(size)
	})
}

// specC17Less compares two integers given by sign and size.
func specC17Less(aNeg bool, a uint, bNeg bool, b uint) bool {
	if aNeg != bNeg {
		return aNeg && (a != 0 || b != 0)
	}
	if aNeg {
		return a > b
	}
	return a < b
}

// specC17In states that the integer is in the range.
func specC17In(r *rangeResult, neg bool, size uint) bool {
	low := r.minValue < 0
	min := uint(r.minValue)
	if low {
		min = -min
	}
	return !specC17Less(neg, size, low, min) && !specC17Less(false, r.maxValue, neg, size)
}

const nonative_C17_order = true

// A comparison with a constant: every value for which it comes out as said stays in the range, whichever side the constant is on.
func verif_C17_order(k *ssa.Const, neg, vNeg bool, size, v uint, less, strict, flipped, success bool, exp, enp []uint) {
	gv.ExactInts()
	gv.Requires(k != nil && (!neg || size <= 1<<63) && (!vNeg || v <= 1<<63))
	specC17Const(neg, size)
	r := rangeResult{minValue: math.MinInt, maxValue: math.MaxUint, isRangeCheck: true}
	op := token.GEQ
	switch {
	case less && strict:
		op = token.LSS
	case less:
		op = token.LEQ
	case strict:
		op = token.GTR
	}
	gv.NoPanic()
	if less {
		updateMinMaxForLessOrEqual(&r, k, op, flipped, success)
	} else {
		updateMinMaxForGreaterOrEqual(&r, k, op, flipped, success)
	}
	// the comparison of the value with the constant, as it is written
	below := specC17Less(vNeg, v, neg, size)
	above := specC17Less(neg, size, vNeg, v)
	same := !below && !above
	lower := below
	if less == flipped {
		lower = above
	}
	holds := lower || same && !strict
	gv.Ensures("values for which the comparison comes out so are in the range", gv.Implies(holds == success, specC17In(&r, vNeg, v)))
	gv.Ensures("only one bound is known", r.minValue == math.MinInt || r.maxValue == math.MaxUint)
	if !neg && size > 0 && size < math.MaxInt {
		gv.Ensures("other values are not in the range, except below zero", gv.Implies(holds != success && !vNeg, !specC17In(&r, vNeg, v)))
	}
	gv.Ensures("it is still a comparison", r.isRangeCheck && !r.convertFound && len(r.explicitPositiveVals) == 0 && len(r.explicitNegativeVals) == 0)
}

// A conversion may lose the value exactly when the source type has values outside the destination type.
const nonative_C17_overflow = true

func verif_C17_overflow(src, dst string, a, b integer, aBad, bBad bool) {
	gv.Stub(parseIntType, func(s string) (integer, error) {
		if s == src && aBad || s == dst && bBad {
			return integer{}, errors.New("no integer")
		}
		if s == src {
			return a, nil
		}
		return b, nil
	})
	gv.Requires(src != dst)
	gv.NoPanic()
	got := isIntOverflow(src, dst)
	gv.Ensures("only integers are converted", gv.Implies(aBad || bBad, !got))
	gv.Ensures("a conversion may lose values exactly when the source has values outside the destination", aBad || bBad || got == (a.min < b.min || a.max > b.max))
}

func gen_C17_type(r *gv.Rand) string {
	return gv.Pick(r, "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune", "uintptr", "string", "float64", "int65", "uint7", "xint8", "int8x", "", "bool", r.Str())
}

const budget_C17_type = 1

// bounded: all integer types and some other names.
func verif_C17_type(name string) {
	if !gv.Native() {
		gv.Ensures("a name is looked at", len(name) >= 0)
		return
	}
	t, err := parseIntType(name)
	want, ok := map[string]integer{
		"int": {true, bits.UintSize, math.MinInt, math.MaxInt}, "int8": {true, 8, math.MinInt8, math.MaxInt8}, "int16": {true, 16, math.MinInt16, math.MaxInt16}, "int32": {true, 32, math.MinInt32, math.MaxInt32}, "int64": {true, 64, math.MinInt64, math.MaxInt64},
		"byte": {false, 8, 0, math.MaxUint8}, "rune": {true, 32, math.MinInt32, math.MaxInt32},
		"uint": {false, bits.UintSize, 0, math.MaxUint}, "uint8": {false, 8, 0, math.MaxUint8}, "uint16": {false, 16, 0, math.MaxUint16}, "uint32": {false, 32, 0, math.MaxUint32}, "uint64": {false, 64, 0, math.MaxUint64},
	}[name]
	gv.Ensures(fmt.Sprintf("%q is an integer type or not", name), ok == (err == nil))
	gv.Ensures(fmt.Sprintf("%q has its values", name), !ok || t == want)
}

const nonative_C17_negate = true

// The range of the negated value.
func verif_C17_negate(min int, max uint, vNeg bool, v uint) {
	gv.ExactInts()
	r := rangeResult{minValue: min, maxValue: max}
	gv.Requires(!vNeg || v <= 1<<63)
	gv.Requires(specC17In(&r, vNeg, v))
	gv.Requires(vNeg || v <= 1<<63)
	gv.NoPanic()
	negateRange(&r)
	gv.Ensures("the negated value is in the negated range", specC17In(&r, !vNeg, v))
}

const nonative_C17_explicit = true

// Explicit values: known to be safe exactly when there are some and all are in the destination type.
func verif_C17_explicit(pos []uint, negs []int, dst integer) {
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return pos[k] <= dst.max }) })
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return negs[k] >= dst.min }) })
	gv.NoPanic()
	got := explicitValsInRange(pos, negs, dst)
	gv.Ensures("safe exactly when all values fit", got == (len(pos)+len(negs) > 0 && gv.All(0, len(pos), func(k int) bool { return pos[k] <= dst.max }) && gv.All(0, len(negs), func(k int) bool { return negs[k] >= dst.min })))
}

const nonative_C17_compare = true

// A comparison is read as it is written: the constant is on the other side of the value, the operator and the branch decide.
func verif_C17_compare(bin *ssa.BinOp, conv *ssa.Convert, base ssa.Value, min int, max uint, operator int, neg, first, success bool) {
	gv.Requires(bin != nil && conv != nil && bin.X != nil && bin.Y != nil && conv.X != nil && base != nil)
	r := &rangeResult{minValue: min, maxValue: max, isRangeCheck: true}
	x, y := bin.X, bin.Y
	gv.Stub(getRealValueFromOperation, func(v ssa.Value) (ssa.Value, string) { return base, "" })
	gv.Stub(isSameOrRelated, func(a, b ssa.Value) bool {
		gv.Ensures("the left operand is compared with the converted value", a == x && b == base)
		return first
	})
	other := x
	if first {
		other = y
	}
	k, isConst := other.(*ssa.Const)
	known := isConst && k.Value != nil
	less, greater, equal := 0, 0, 0
	gv.Stub(updateMinMaxForLessOrEqual, func(q *rangeResult, c *ssa.Const, op token.Token, flipped, then bool) {
		gv.Ensures("what is compared stays", q == r && c == k && op == bin.Op && flipped == !first && then == success)
		less++
	})
	gv.Stub(updateMinMaxForGreaterOrEqual, func(q *rangeResult, c *ssa.Const, op token.Token, flipped, then bool) {
		gv.Ensures("what is compared stays", q == r && c == k && op == bin.Op && flipped == !first && then == success)
		greater++
	})
	gv.Stub(updateExplicitValues, func(q *rangeResult, c *ssa.Const) {
		gv.Ensures("what is compared stays", q == r && c == k)
		equal++
	})
	gv.NoPanic()
	updateResultFromBinOp(r, bin, conv, success)
	n := func(b bool) int {
		if b && known {
			return 1
		}
		return 0
	}
	op := bin.Op
	gv.Ensures("less is an upper or lower bound", less == n(op == token.LSS || op == token.LEQ))
	gv.Ensures("more is an upper or lower bound", greater == n(op == token.GTR || op == token.GEQ))
	gv.Ensures("values are known when they are equal", equal == n(op == token.EQL && success || op == token.NEQ && !success))
}

const nonative_C17_both = true

// The conversion is in one of the branches: the bounds of that branch are added to those of the comparison.
func verif_C17_both(check *ssa.If, conv *ssa.Convert, bin *ssa.BinOp, a, b branchResults, block, then, other *ssa.BasicBlock, min int, max uint, seen, binary, related bool) {
	gv.Requires(check != nil && conv != nil && bin != nil && block != nil && then != other)
	block.Succs = []*ssa.BasicBlock{then, other}
	gv.Stub((*ssa.If).Block, func(i *ssa.If) *ssa.BasicBlock { return block })
	if binary {
		check.Cond = bin
	} else {
		check.Cond = conv
	}
	visited := map[*ssa.If]bool{}
	if seen {
		visited[check] = true
	}
	gv.Stub(isRangeCheck, func(v, x ssa.Value) bool {
		gv.Ensures("the comparison is looked at", v == ssa.Value(bin) && x == conv.X)
		return related
	})
	gv.Stub(walkBranchForConvert, func(w *ssa.BasicBlock, c *ssa.Convert, m map[*ssa.If]bool) branchResults {
		gv.Ensures("both branches are looked at", c == conv && (w == then || w == other) && m[check])
		if w == then {
			return a
		}
		return b
	})
	gv.Stub(updateResultFromBinOp, func(r *rangeResult, w *ssa.BinOp, c *ssa.Convert, success bool) {
		gv.Ensures("the branch is the one with the conversion", w == bin && c == conv && success == a.convertFound)
		gv.Ensures("nothing is known before", r.minValue == math.MinInt && r.maxValue == math.MaxUint && r.isRangeCheck)
		r.minValue, r.maxValue = min, max
	})
	gv.NoPanic()
	got := getResultRange(check, conv, visited)
	if seen || !binary || !related {
		gv.Ensures("nothing is known", !got.isRangeCheck && !got.convertFound && got.minValue == math.MinInt && got.maxValue == math.MaxUint)
		return
	}
	gv.Ensures("it is a comparison", got.isRangeCheck && got.convertFound == (a.convertFound || b.convertFound))
	lo, hi := min, max
	br := b
	if a.convertFound {
		br = a
	}
	if br.convertFound {
		if br.minValue != nil && *br.minValue > lo {
			lo = *br.minValue
		}
		if br.maxValue != nil && *br.maxValue < hi {
			hi = *br.maxValue
		}
	}
	gv.Ensures("the bounds are those of the comparison and of the branch", got.minValue == lo && got.maxValue == hi)
}
