package analyzers

import (
	"errors"
	"fmt"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"github.com/securego/gosec/v2/internal/gv"
)

// An index is in range from the first up to, not including, the length.
func verif_C19_index(length, index int) {
	gv.Requires(length >= 0)
	gv.NoPanic()
	gv.Ensures("exactly the indices below the length are in range", isSliceIndexInsideBounds(0, length, index) == (0 <= index && index < length))
}

// Bounds are in range up to the length, including it; a missing upper bound is 0.
func verif_C19_slice(length, low, high int) {
	gv.Requires(length >= 0)
	gv.Requires(high == 0 || low <= high)
	gv.NoPanic()
	gv.Ensures("exactly bounds up to the length are in range", isSliceInsideBounds(0, length, low, high) == (0 <= low && low <= length && 0 <= high && high <= length))
}

// The length of what is left of a slice.
func verif_C19_left(low, high, length int) {
	gv.Requires(0 <= low && low <= length && 0 <= high && high <= length && (high == 0 || low <= high))
	gv.NoPanic()
	got := computeSliceNewCap(low, high, length)
	if high > 0 {
		gv.Ensures("the rest is as long as its bounds are apart", got == high-low)
	} else {
		gv.Ensures("without an upper bound the rest reaches to the end", got == length-low)
	}
	gv.Ensures("the rest is never longer", 0 <= got && got <= length)
}

// The other branch of a comparison knows the opposite.
func verif_C19_inverse(b bound) {
	gv.Requires(b == lowerUnbounded || b == upperUnbounded || b == unbounded || b == upperBounded)
	gv.NoPanic()
	o := invBound(b)
	gv.Ensures("the opposite is another one", o != b && invBound(o) == b)
	gv.Ensures("short and long are opposites", (b == lowerUnbounded) == (o == upperUnbounded))
}

const nonative_C19_compare = true

// What a comparison of a length with a constant says about the length: lowerUnbounded for short, upperUnbounded for long slices.
func verif_C19_compare(bin *ssa.BinOp, x, y ssa.Value, k *ssa.Const, text string, left bool) {
	gv.Requires(bin != nil && x != nil && y != nil && k != nil && k.Value != nil)
	bin.X, bin.Y = x, y
	if left {
		bin.X = k
		_, other := y.(*ssa.Const)
		gv.Requires(!other)
	} else {
		bin.Y = k
		_, other := x.(*ssa.Const)
		gv.Requires(!other)
	}
	number, bad := 0, false
	gv.Stub(strconv.Atoi, func(s string) (int, error) {
		if s == text {
			bad = true
			return 0, errors.New("no number")
		}
		number = 7
		return 7, nil
	})
	gv.NoPanic()
	b, v, err := extractBinOpBound(bin)
	op := bin.Op
	if bad {
		gv.Ensures("only numbers are compared", err != nil)
		return
	}
	below := op == token.LSS || op == token.LEQ
	above := op == token.GTR || op == token.GEQ
	if left {
		below, above = above, below
	}
	known := below || above || op == token.EQL || op == token.NEQ
	gv.Ensures("comparisons are understood", (err == nil) == known)
	if known {
		gv.Ensures("the constant is the one of the comparison", v == number)
		gv.Ensures("the length is compared as it is written", (b == lowerUnbounded) == below && (b == upperUnbounded) == above && (b == upperBounded) == (op == token.EQL) && (b == unbounded) == (op == token.NEQ))
	}
}

const nonative_C19_operands = true

// The bounds of a slice expression; a bound that is missing or not known is 0.
func verif_C19_operands(s *ssa.Slice, low, high int, noLow, noHigh bool) {
	gv.Requires(s != nil)
	calls := 0
	gv.Stub(extractIntValue, func(v string) (int, error) {
		calls++
		if s.Low != nil && calls == 1 {
			if noLow {
				return 0, errors.New("unknown")
			}
			return low, nil
		}
		if noHigh {
			return 0, errors.New("unknown")
		}
		return high, nil
	})
	gv.NoPanic()
	l, h := extractSliceBounds(s)
	wantL, wantH := low, high
	if s.Low == nil || noLow {
		wantL = 0
	}
	if s.High == nil || noHigh {
		wantH = 0
	}
	gv.Ensures("the bounds are the constants given", l == wantL && h == wantH)
}

func gen_C19_number(r *gv.Rand) string {
	return gv.Pick(r, strconv.Itoa(r.Intn(100)), strconv.Itoa(-r.Intn(9)), "t"+strconv.Itoa(r.Intn(9)), "x", "") + gv.Pick(r, ":int", ":int", ":int", ":int64", ":uint", ":", "", ":int:int")
}

const budget_C19_number = 1

// bounded: numbers, names and types.
func verif_C19_number(s string) {
	if !gv.Native() {
		gv.Ensures("a value is looked at", len(s) >= 0)
		return
	}
	n, err := extractIntValue(s)
	num, ok := strings.CutSuffix(s, ":int")
	want, bad := strconv.Atoi(num)
	ok = ok && bad == nil
	gv.Ensures(fmt.Sprintf("%q is a constant of type int or not", s), ok == (err == nil) && (!ok || n == want))
}

func gen_C19_alloc(r *gv.Rand) (int, string, string) {
	return r.Intn(1000), gv.Pick(r, "int", "byte", "[3]int", "*T", "map[string][4]int"), gv.Pick(r, "makeslice", "slicelit", "x")
}

const budget_C19_alloc = 1

// bounded: the arrays behind slices, as go/ssa writes them.
func verif_C19_alloc(n int, elem, comment string) {
	if !gv.Native() {
		gv.Ensures("an array is looked at", n == n)
		return
	}
	got, err := extractSliceCapFromAlloc("new [" + strconv.Itoa(n) + "]" + elem + " (" + comment + ")")
	gv.Ensures("the length of the array", err == nil && got == n)
	_, err = extractSliceCapFromAlloc("new " + strings.TrimLeft(elem, "[]0123456789") + " (" + comment + ")")
	gv.Ensures("other variables are no arrays", err != nil)
}
