package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

type unsupported struct{ msg string }

func unsup(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, nil)
	s = strings.ReplaceAll(s, "github.com/securego/gosec/v2/", "gosec/")
	s = strings.ReplaceAll(s, "github.com/securego/gosec/v2", "gosec")
	s = anyWord.ReplaceAllString(s, "${1}interface{}") // the two spellings are one type
	return strings.ReplaceAll(s, "|", "/")
}

var anyWord = regexp.MustCompile(`(^|[^\w./])any\b`)

var structDTs = map[string]string{} // type key -> datatype name
var structTypes = map[string]*types.Struct{}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SInt
		}
		unsup("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSl
	case *types.Interface:
		return SIf
	case *types.Array:
		return arrSort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		return Sort(structDT(t))
	case *types.TypeParam:
		unsup("type parameter %s", t)
	}
	unsup("type %s", t)
	return ""
}

func structDT(t types.Type) string {
	st := structOf(t)
	k := typeKey(t.Underlying())
	if _, ok := t.(*types.Named); ok {
		k = typeKey(t)
	} else if a, ok := t.(*types.Alias); ok {
		return structDT(types.Unalias(a))
	}
	if n, ok := structDTs[k]; ok {
		return n
	}
	var fs []string
	var ss []Sort
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i).Name())
		ss = append(ss, sortOf(st.Field(i).Type()))
	}
	n := fmt.Sprintf("S%d", len(structDTs))
	structDTs[k] = n
	declDT(n, fs, ss)
	return n
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return mkConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return mkDT(structDT(t), as...)
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s Sort) *Term {
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return mkInt(0)
	case SStr:
		return mkStr("")
	case SFlt:
		return mkVar("flt:0", SFlt)
	case SSl:
		z := mkInt(0)
		return mkDT("Slice", z, z, z, z)
	case SIf:
		return mkDT("Iface", mkInt(0), mkInt(0))
	}
	unsup("zero of sort %s", s)
	return nil
}

// ---- type ids ----

var tids = map[string]int{}
var tidType = map[int]types.Type{}

func tidOf(t types.Type) *Term {
	t = types.Unalias(t)
	k := typeKey(t)
	id, ok := tids[k]
	if !ok {
		id = len(tids) + 1
		tids[k] = id
		tidType[id] = t
	}
	return mkInt(int64(id))
}

func intRange(t types.Type) (lo, hi *big.Int, bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32, types.UntypedRune:
		bits, signed = 32, true
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, bits, signed, true
}

// fieldKey is the heap key of a field path inside an allocated struct type.
func fieldKey(t types.Type, path []int) (string, types.Type) {
	var b strings.Builder
	b.WriteString("F:")
	if n, ok := types.Unalias(t).(*types.Named); ok {
		b.WriteString(typeKey(n))
	} else {
		b.WriteString(typeKey(t.Underlying()))
	}
	cur := t
	for _, i := range path {
		st := structOf(cur)
		b.WriteByte('.')
		b.WriteString(st.Field(i).Name())
		cur = st.Field(i).Type()
	}
	return b.String(), cur
}

func isStruct(t types.Type) bool { return structOf(t) != nil }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

func elemKey(t types.Type) string { return "E:" + typeKey(types.Unalias(t)) }
func cellKey(t types.Type) string { return "C:" + typeKey(types.Unalias(t)) }
func mapKeys(m *types.Map) (dom, val, card string) {
	k := typeKey(types.Unalias(m.Key())) + "=>" + typeKey(types.Unalias(m.Elem()))
	return "MD:" + k, "MV:" + k, "MC:" + k
}
