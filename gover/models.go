package main

import (
	"go/types"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var purePrefixes = []string{
	"strings.", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Clean", "path/filepath.ToSlash", "path/filepath.FromSlash", "path/filepath.IsAbs", "path/filepath.Rel", "path/filepath.Abs", "path/filepath.Match", "path/filepath.VolumeName",
	"regexp.", "(*regexp.Regexp).", "go/token.", "(go/token.", "(*go/token.", "go/types.", "(*go/types.", "(go/types.", "go/constant.", "(*go/ast.", "(go/ast.", "go/ast.",
	"math.", "math/bits.", "fmt.Sprint", "errors.", "cmp.", "bytes.", "html.", "encoding/hex.", "encoding/base64.", "(*golang.org/x/tools/go/ssa.", "golang.org/x/tools/go/ssa.", "(golang.org/x/tools/go/ssa.", "(*golang.org/x/tools/go/packages.",
	"reflect.", "(reflect.", "(*go/build.", "go/version.", "github.com/gookit/color.", "(github.com/gookit/color.", "(*github.com/ccojocar/zxcvbn-go.", "github.com/ccojocar/zxcvbn-go.", "golang.org/x/text", "(golang.org/x/text", "(*text/template.", "crypto/", "github.com/google/uuid.", "path/filepath.", "unsafe.",
}

func isPureExternal(name string) bool {
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// bufferOf is the buffer an io.Writer is known to be, if it is one.
func bufferOf(w *Term) *Term {
	tid := ifTid(w)
	if !isInt(tid) {
		return nil
	}
	t := tidType[int(tid.iv.Int64())]
	if t == nil || t.String() != "*bytes.Buffer" && t.String() != "*strings.Builder" {
		return nil
	}
	return ifPl(w)
}

func (x *Exec) effect(s string) { x.note("no modelled effect: " + s) }

// elements of a variadic slice of known length
func (x *Exec) elems(st *State, s *Term, et types.Type) ([]*Term, bool) {
	n := x.lenOf(s)
	if !isInt(n) {
		return nil, false
	}
	c, o, _ := x.contentOf(st, s, et)
	var out []*Term
	for i := int64(0); i < n.iv.Int64(); i++ {
		out = append(out, mkSelect(c, mkAdd(o, mkInt(i))))
	}
	return out, true
}

var anyType = types.NewInterfaceType(nil, nil)
var stringT = types.Typ[types.String]

func (x *Exec) event(st *State, name string, arg *Term) {
	n := x.hget(st, "EV:n", SInt)
	x.fact(st, mkLe(mkInt(0), n))
	s := x.hget(st, "EV:s", arrSort(SInt, SStr))
	a := x.hget(st, "EV:a", arrSort(SInt, SIf))
	x.hset(st, "EV:s", mkStore(s, n, mkStr(name)))
	x.hset(st, "EV:a", mkStore(a, n, arg))
	x.hset(st, "EV:n", mkAdd(n, mkInt(1)))
}

func (x *Exec) errVal(st *State, name string, args ...*Term) *Term {
	pl := mkApp("err:"+name, SInt, args...)
	if !pl.bound {
		x.axiom(mkLt(mkInt(0), pl))
	}
	return mkDT("Iface", tidOf(types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorString", nil), types.NewStruct(nil, nil), nil))), pl)
}

var errType types.Type

func errTid() *Term {
	if errType == nil {
		errType = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))
	}
	return tidOf(errType)
}

func (x *Exec) mkErr(name string, args ...*Term) *Term {
	pl := mkApp("err:"+name+strconv.Itoa(len(args)), SInt, args...)
	if !pl.bound {
		x.axiom(mkLt(mkInt(0), pl))
	}
	return mkDT("Iface", errTid(), pl)
}

var nilIface = mkDT("Iface", mkInt(0), mkInt(0))

func (x *Exec) model(fr *Frame, st *State, name string, f *ssa.Function, args []*Term, c *ssa.CallCommon) (*Term, bool) {
	switch name {
	case "os.Exit":
		if x.exitHook != nil && x.dry == 0 {
			cl := x.exitHook.h.(*Closure)
			x.execFn(cl.fn, args, cl.bindings, st)
		}
		st.pc = tFalse
		return tuple(), true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
		if x.exitHook != nil && x.dry == 0 {
			cl := x.exitHook.h.(*Closure)
			x.execFn(cl.fn, []*Term{mkInt(1)}, cl.bindings, st)
		}
		st.pc = tFalse
		return tuple(), true
	case "log.Print", "log.Printf", "log.Println", "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println":
		x.effect("logging")
		return tuple(), true
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		if buf := bufferOf(args[0]); buf != nil {
			var out *Term
			switch name {
			case "io.WriteString":
				out = args[1]
			case "fmt.Fprintf":
				if args[1].op == "str" {
					if es, ok := x.elems(st, args[2], anyType); ok {
						out = x.sprintf(st, args[1].name, es)
					}
				}
				if out == nil {
					out = fresh("printed", SStr)
				}
			default:
				out = fresh("printed", SStr)
			}
			x.sbWrite(st, buf, out)
			return tuple(strLen(out), nilIface), true
		}
		x.effect("fmt output to a writer")
		n := fresh("n", SInt)
		return tuple(n, x.havocIface(st)), true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		x.effect("fmt output")
		return tuple(fresh("n", SInt), x.havocIface(st)), true
	case "runtime.GC", "runtime/debug.FreeOSMemory":
		return tuple(), true

	// ---- errors ----
	case "errors.New":
		return x.mkErr("new", args[0]), true
	case "fmt.Errorf":
		if es, ok := x.elems(st, args[1], anyType); ok {
			return x.mkErr("errorf", append([]*Term{args[0]}, es...)...), true
		}

	// ---- strings ----
	case "errors.As":
		tid := ifTid(args[1])
		if isInt(tid) && tid.iv.Sign() != 0 {
			if pt, ok := tidType[int(tid.iv.Int64())].Underlying().(*types.Pointer); ok {
				x.note("errors.As is a function of the error and the target's type; what it stores is arbitrary")
				r := mkApp("$errorsAs", SBool, args[0], tid)
				x.fact(st, mkImp(r, mkNot(mkEq(ifTid(args[0]), mkInt(0)))))
				v := fresh("as", sortOf(pt.Elem()))
				x.typeFacts(st, v, pt.Elem())
				a := x.decode(ifPl(args[1]), pt)
				x.store(st, a, pt.Elem(), mkIte(r, v, x.load(st, a, pt.Elem())))
				return r, true
			}
		}
	case "strings.HasPrefix":
		return strPred("$prefix", args[1], args[0], func(p, s string) bool { return strings.HasPrefix(s, p) }), true
	case "strings.HasSuffix":
		return strPred("$suffix", args[1], args[0], func(p, s string) bool { return strings.HasSuffix(s, p) }), true
	case "strings.Contains":
		return strPred("$contains", args[0], args[1], strings.Contains), true
	case "strings.Index":
		if args[0].op == "str" && args[1].op == "str" {
			return mkInt(int64(strings.Index(args[0].name, args[1].name))), true
		}
		r := mkApp("$indexof", SInt, args[0], args[1], mkInt(0))
		if !x.smtStrings {
			x.fact(st, mkAnd(mkLe(mkInt(-1), r), mkImp(mkLe(mkInt(0), r), mkLe(mkAdd(r, strLen(args[1])), strLen(args[0])))))
		}
		return r, true
	case "strings.TrimPrefix":
		p := strPred("$prefix", args[1], args[0], func(p, s string) bool { return strings.HasPrefix(s, p) })
		rest := mkSubstr(args[0], strLen(args[1]), mkSub(strLen(args[0]), strLen(args[1])))
		if !x.smtStrings && !args[0].bound && !args[1].bound {
			x.axiom(mkImp(p, mkEq(args[0], mkConcat(args[1], rest))))
		}
		return mkIte(p, rest, args[0]), true
	case "strings.TrimSuffix":
		p := strPred("$suffix", args[1], args[0], func(p, s string) bool { return strings.HasSuffix(s, p) })
		return mkIte(p, mkSubstr(args[0], mkInt(0), mkSub(strLen(args[0]), strLen(args[1]))), args[0]), true
	case "strings.CutPrefix", "strings.CutSuffix":
		trim := "strings.Trim" + strings.TrimPrefix(name, "strings.Cut")
		rest, _ := x.model(fr, st, trim, f, args, c)
		var has *Term
		if trim == "strings.TrimPrefix" {
			has = strPred("$prefix", args[1], args[0], func(p, s string) bool { return strings.HasPrefix(s, p) })
		} else {
			has = strPred("$suffix", args[1], args[0], func(p, s string) bool { return strings.HasSuffix(s, p) })
		}
		return tuple(rest, has), true
	case "strings.ContainsRune":
		if isInt(args[1]) {
			return strPred("$contains", args[0], mkStr(string(rune(args[1].iv.Int64()))), strings.Contains), true
		}
	case "(*go/ast.Ident).String":
		pt := f.Signature.Recv().Type()
		id := pt.(*types.Pointer).Elem()
		for i := 0; i < structOf(id).NumFields(); i++ {
			if structOf(id).Field(i).Name() == "Name" {
				a := x.fieldAddr(fr, st, args[0], id, i)
				return mkIte(mkEq(args[0], mkInt(0)), mkStr("<nil>"), x.load(st, a, stringT)), true
			}
		}
	case "strings.ToLower":
		return strFn("strings.ToLower", strings.ToLower, args[0]), true
	case "strings.ToUpper":
		return strFn("strings.ToUpper", strings.ToUpper, args[0]), true
	case "strings.TrimSpace":
		return strFn("strings.TrimSpace", strings.TrimSpace, args[0]), true
	case "strings.Title":
		return strFn("strings.Title", strings.Title, args[0]), true
	case "path/filepath.Base":
		return strFn("path/filepath.Base", filepath.Base, args[0]), true
	case "path.Base":
		return strFn("path.Base", path.Base, args[0]), true
	case "strings.ReplaceAll":
		if args[0].op == "str" && args[1].op == "str" && args[2].op == "str" {
			return mkStr(strings.ReplaceAll(args[0].name, args[1].name, args[2].name)), true
		}
		return mkApp("$replaceall", SStr, args...), true
	case "strings.Replace":
		if isInt(args[3]) && args[3].iv.Sign() < 0 {
			return mkApp("$replaceall", SStr, args[:3]...), true
		}
		if isInt(args[3]) && args[3].iv.Int64() == 1 {
			return mkApp("$replace1", SStr, args[:3]...), true
		}
	case "strings.EqualFold":
		// not definable from ToLower exactly; kept uninterpreted
	case "strings.Join":
		if es, ok := x.elems(st, args[0], stringT); ok {
			r := mkStr("")
			for i, e := range es {
				if i > 0 {
					r = mkConcat(r, args[1])
				}
				r = mkConcat(r, e)
			}
			return r, true
		}
	case "strings.Split":
		if args[0].op == "str" && args[1].op == "str" {
			return x.strSlice(st, strings.Split(args[0].name, args[1].name)), true
		}
		if x.smtStrings && args[1].op == "str" && args[1].name == "-" {
			return x.splitDash(st, args[0], args[1]), true
		}
		x.externals[name] = true
		r := x.ufCall(st, "fn:strings.Split", args, sigTypes(f), f.Signature.Results(), false)
		if args[1].op == "str" && args[1].name != "" {
			x.fact(st, mkLe(mkInt(1), x.lenOf(r)))
			if args[1].name == "-" {
				x.splitNumbers(st, args[0], r)
			}
		}
		return r, true
	case "strconv.Itoa":
		return x.itoa(args[0]), true
	case "strconv.FormatInt", "strconv.FormatUint":
		if isInt(args[1]) && args[1].iv.Int64() == 10 {
			return x.itoa(args[0]), true
		}
	case "strconv.Atoi":
		return x.atoi(st, args[0]), true
	case "fmt.Sprintf":
		if args[0].op == "str" {
			if es, ok := x.elems(st, args[1], anyType); ok {
				if r := x.sprintf(st, args[0].name, es); r != nil {
					return r, true
				}
			}
		}
	case "cmp.Compare":
		return x.cmpCompare(args[0], args[1]), true
	case "cmp.Less":
		return x.less(args[0], args[1]), true
	case "cmp.Or":
		et := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		if es, ok := x.elems(st, args[0], et); ok {
			r := zeroOf(et)
			for i := len(es) - 1; i >= 0; i-- {
				r = mkIte(mkEq(es[i], zeroOf(et)), r, es[i])
			}
			return r, true
		}
	case "unicode.IsSpace", "unicode.IsDigit", "unicode.IsUpper", "unicode.IsLetter":
		if isInt(args[0]) {
			r := rune(args[0].iv.Int64())
			return mkBool(map[string]func(rune) bool{"unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLetter": unicode.IsLetter}[name](r)), true
		}

	// ---- regexp ----
	case "regexp.MustCompile":
		r := mkApp("fn:regexp.MustCompile#0", SInt, args[0])
		x.externals[name] = true
		lim := mkInt(1 << 30)
		if x.alloc0 != nil {
			lim = x.alloc0
		}
		_ = lim
		x.axiom(mkLt(mkInt(0), r))
		return r, true

	// ---- slices, sort, maps ----
	case "slices.Contains":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return x.sliceContains(st, args[0], args[1], et), true
	case "slices.Clone":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		cc, o, n := x.contentOf(st, args[0], et)
		if isInt(o) && o.iv.Sign() == 0 {
			r := x.newSlice(st, et, cc, n, n)
			return mkIte(mkEq(slArr(args[0]), mkInt(0)), zeroSort(SSl), r), true
		}
		nc := fresh("clone", cc.sort)
		i := freshB("i", SInt)
		x.fact(st, mkForall([]*Term{i}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, n)), mkEq(mkSelect(nc, i), mkSelect(cc, mkAdd(o, i)))), mkSelect(nc, i)))
		r := x.newSlice(st, et, nc, n, n)
		return mkIte(mkEq(slArr(args[0]), mkInt(0)), zeroSort(SSl), r), true
	case "sort.Strings", "sort.Ints", "slices.Sort":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		x.sortModel(fr, st, args[0], et, func(s *State, a, b *Term) *Term { return x.less(a, b) })
		return tuple(), true
	case "slices.SortFunc", "slices.SortStableFunc":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		cmpf := args[1]
		less := func(s *State, a, b *Term) *Term {
			return mkLt(x.evalPred(cmpf, []*Term{a, b}, s), mkInt(0))
		}
		x.sortModel(fr, st, args[0], et, less)
		return tuple(), true
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(fr, st, args[0], args[1])
		return tuple(), true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		x.sbWrite(st, args[0], args[1])
		return tuple(strLen(args[1]), nilIface), true
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		ch := mkApp("$ofrune", SStr, args[1])
		if isInt(args[1]) && args[1].iv.Int64() < 128 {
			ch = mkStr(string(rune(args[1].iv.Int64())))
		}
		x.sbWrite(st, args[0], ch)
		if strings.HasSuffix(name, "Byte") {
			return nilIface, true
		}
		return tuple(mkInt(1), nilIface), true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return mkSelect(x.hget(st, "SB", arrSort(SInt, SStr)), args[0]), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		x.note("mutexes: verified sequentially")
		return tuple(), true
	case "context.Background", "context.TODO":
		return mkDT("Iface", mkInt(1<<20), mkInt(1)), true
	}
	if r, ok := x.constFold(name, args, st, f); ok {
		return r, true
	}
	return nil, false
}

func (x *Exec) havocIface(st *State) *Term {
	v := fresh("err", SIf)
	x.typeFacts(st, v, anyType)
	return v
}

func strPred(n string, a, b *Term, f func(a, b string) bool) *Term {
	if a.op == "str" && b.op == "str" {
		return mkBool(f(a.name, b.name))
	}
	if (n == "$prefix" || n == "$suffix") && a.op == "str" && a.name == "" {
		return tTrue
	}
	if n == "$contains" && b.op == "str" && b.name == "" {
		return tTrue
	}
	if a.op == "ite" && allConstLeaves(a) && b.op == "str" {
		return mkIte(a.args[0], strPred(n, a.args[1], b, f), strPred(n, a.args[2], b, f))
	}
	if b.op == "ite" && allConstLeaves(b) && a.op == "str" {
		return mkIte(b.args[0], strPred(n, a, b.args[1], f), strPred(n, a, b.args[2], f))
	}
	return mkApp(n, SBool, a, b)
}

func strFn(n string, f func(string) string, a *Term) *Term {
	if a.op == "str" {
		return mkStr(f(a.name))
	}
	if a.op == "ite" && allConstLeaves(a) {
		return mkIte(a.args[0], strFn(n, f, a.args[1]), strFn(n, f, a.args[2]))
	}
	return mkApp("fn:"+n, SStr, a)
}

func (x *Exec) strSlice(st *State, ss []string) *Term {
	c := mkConstArr(arrSort(SInt, SStr), mkStr(""))
	for i, s := range ss {
		c = mkStore(c, mkInt(int64(i)), mkStr(s))
	}
	n := mkInt(int64(len(ss)))
	return x.newSlice(st, stringT, c, n, n)
}

// splitNumbers describes the split at "-" of decimal numbers joined by "-".
func (x *Exec) splitNumbers(st *State, s, r *Term) {
	var parts []*Term
	cond := tTrue
	for {
		h, rest := s, (*Term)(nil)
		if s.op == "app" && s.name == "$concat" {
			h, rest = s.args[0], s.args[1]
		}
		if h.op != "app" || h.name != "$itoa" {
			return
		}
		parts = append(parts, h)
		cond = mkAnd(cond, mkLe(mkInt(0), h.args[0]))
		if rest == nil {
			break
		}
		if rest.op != "app" || rest.name != "$concat" || rest.args[0] != mkStr("-") {
			return
		}
		s = rest.args[1]
	}
	c, off, n := x.contentOf(st, r, stringT)
	fs := []*Term{mkEq(n, mkInt(int64(len(parts))))}
	for i, p := range parts {
		fs = append(fs, mkEq(mkSelect(c, mkAdd(off, mkInt(int64(i)))), p))
	}
	x.fact(st, mkImp(cond, mkAnd(fs...)))
}

func (x *Exec) itoa(a *Term) *Term {
	if isInt(a) {
		return mkStr(a.iv.String())
	}
	if x.smtStrings {
		return mkIte(mkLe(mkInt(0), a), mkApp("$fromint", SStr, a), mkConcat(mkStr("-"), mkApp("$fromint", SStr, mkNeg(a))))
	}
	r := mkApp("$itoa", SStr, a)
	if !r.bound {
		x.axiom(mkEq(mkApp("$atoi", SInt, r), a))
		x.axiom(mkApp("$atoiok", SBool, r))
		x.axiom(mkLt(mkInt(0), strLen(r)))
	}
	return r
}

func (x *Exec) atoi(st *State, s *Term) *Term {
	if s.op == "str" {
		if n, err := strconv.Atoi(s.name); err == nil {
			return tuple(mkInt(int64(n)), nilIface)
		}
	}
	if x.smtStrings {
		// decimal digits with an optional sign; values are mathematical
		digits := mkApp("$inre_digits", SBool, s)
		neg := strPred("$prefix", mkStr("-"), s, nil2)
		rest := mkSubstr(s, mkInt(1), mkSub(strLen(s), mkInt(1)))
		restD := mkApp("$inre_digits", SBool, rest)
		plus := strPred("$prefix", mkStr("+"), s, nil2)
		ok := mkOr(digits, mkAnd(mkOr(neg, plus), restD))
		v := mkIte(digits, mkApp("$toint", SInt, s), mkIte(mkAnd(neg, restD), mkNeg(mkApp("$toint", SInt, rest)), mkIte(mkAnd(plus, restD), mkApp("$toint", SInt, rest), mkInt(0))))
		x.note("strconv.Atoi: range errors ignored (values are mathematical)")
		return tuple(v, mkIte(ok, nilIface, x.mkErr("atoi", s)))
	}
	ok := mkApp("$atoiok", SBool, s)
	v := mkIte(ok, mkApp("$atoi", SInt, s), mkApp("$atoierrv", SInt, s))
	return tuple(v, mkIte(ok, nilIface, x.mkErr("atoi", s)))
}

func nil2(a, b string) bool { return strings.HasPrefix(b, a) }

// sprintf decomposes simple formats into concatenations.
func (x *Exec) sprintf(st *State, format string, es []*Term) *Term {
	r := mkStr("")
	ai := 0
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			r = mkConcat(r, mkStr(format[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		verb := format[i]
		if verb == '%' {
			r = mkConcat(r, mkStr("%"))
			continue
		}
		if ai >= len(es) {
			return nil
		}
		e := es[ai]
		ai++
		var part *Term
		tid := ifTid(e)
		var dt types.Type
		if isInt(tid) {
			dt = tidType[int(tid.iv.Int64())]
		}
		isStr := dt != nil && types.Identical(dt, types.Typ[types.String])
		isI := dt != nil && isIntType(dt) && !hasStringMethod(dt)
		switch {
		case (verb == 's' || verb == 'v') && isStr:
			part = x.decode(ifPl(e), dt)
		case (verb == 'd' || verb == 'v') && isI:
			part = x.itoa(ifPl(e))
		case strings.ContainsRune("sdvqtTxXfgcpU", rune(verb)):
			part = mkApp("$fmt"+string(verb), SStr, e)
			x.externals["fmt.Sprintf verb %"+string(verb)] = true
			if (verb == 's' || verb == 'v') && dt == nil {
				str := types.Typ[types.String]
				part = mkIte(mkEq(tid, tidOf(str)), x.decode(ifPl(e), str), part)
			}
		default:
			return nil
		}
		r = mkConcat(r, part)
	}
	if ai != len(es) {
		return nil
	}
	return r
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

func (x *Exec) less(a, b *Term) *Term {
	switch a.sort {
	case SInt:
		return mkLt(a, b)
	case SStr:
		return strLt(a, b)
	case SFlt:
		return mkApp("flt<", SBool, a, b)
	}
	unsup("ordering of %s", a.sort)
	return nil
}

func (x *Exec) cmpCompare(a, b *Term) *Term {
	return mkIte(x.less(a, b), mkInt(-1), mkIte(x.less(b, a), mkInt(1), mkInt(0)))
}

func (x *Exec) sliceContains(st *State, s, v *Term, et types.Type) *Term {
	if es, ok := x.elems(st, s, et); ok && len(es) <= 64 {
		var ts []*Term
		for _, e := range es {
			ts = append(ts, mkEq(e, v))
		}
		return mkOr(ts...)
	}
	c, o, n := x.contentOf(st, s, et)
	i := freshB("i", SInt)
	return mkExists([]*Term{i}, mkAnd(mkLe(mkInt(0), i), mkLt(i, n), mkEq(mkSelect(c, mkAdd(o, i)), v)))
}

// sortModel replaces the window of s by a sorted permutation and obliges the comparator to be a strict weak order.
func (x *Exec) sortModel(fr *Frame, st *State, s *Term, et types.Type, less func(s *State, a, b *Term) *Term) {
	if s.sort == SH {
		unsup("sorting a ghost slice")
	}
	es := sortOf(et)
	k := elemKey(et)
	h := x.hget(st, k, arrSort(SInt, arrSort(SInt, es)))
	old := mkSelect(h, slArr(s))
	o, n := slOff(s), slLen(s)
	if x.dry > 0 {
		x.hset(st, k, mkStore(h, slArr(s), fresh("sorted", old.sort)))
		return
	}
	x.note("sort: result is a permutation of the input that is ordered by the comparator (library contract)")
	// comparator obligations on arbitrary elements
	a, b, c := fresh("ca", es), fresh("cb", es), fresh("cc", es)
	for _, v := range []*Term{a, b, c} {
		x.typeFacts(st, v, et)
		if _, ok := et.Underlying().(*types.Pointer); ok {
			x.fact(st, mkLt(mkInt(0), v))
		}
	}
	lab, lba := less(st, a, b), less(st, b, a)
	lbc, lac := less(st, b, c), less(st, a, c)
	lcb, lca := less(st, c, b), less(st, c, a)
	x.oblige(st, "comparator asymmetric in "+fnName(fr.fn), "ensures", mkNot(mkAnd(lab, lba)))
	x.oblige(st, "comparator transitive in "+fnName(fr.fn), "ensures", mkImp(mkAnd(lab, lbc), lac))
	x.oblige(st, "comparator incomparability transitive in "+fnName(fr.fn), "ensures",
		mkImp(mkAnd(mkNot(lab), mkNot(lba), mkNot(lbc), mkNot(lcb)), mkAnd(mkNot(lac), mkNot(lca))))
	nw := fresh("sorted", old.sort)
	freshN++
	pf, qf := "perm!"+strconv.Itoa(freshN), "qerm!"+strconv.Itoa(freshN)
	i := freshB("i", SInt)
	// indices are the ones of the backing array
	in := func(t *Term) *Term { return mkAnd(mkLe(o, t), mkLt(t, mkAdd(o, n))) }
	P := mkApp(pf, SInt, i)
	Q := mkApp(qf, SInt, i)
	at := func(arr, j *Term) *Term { return mkSelect(arr, j) }
	fwd := mkImp(in(i), mkAnd(in(P), mkEq(mkApp(qf, SInt, P), i), mkEq(at(nw, i), at(old, P))))
	bwd := mkImp(in(i), mkAnd(in(Q), mkEq(mkApp(pf, SInt, Q), i), mkEq(at(nw, Q), at(old, i))))
	x.fact(st, mkForall([]*Term{i}, fwd, P))
	x.fact(st, mkForall([]*Term{i}, fwd, mkSelect(nw, i)))
	x.fact(st, mkForall([]*Term{i}, bwd, mkSelect(old, i)))
	x.fact(st, mkForall([]*Term{i}, bwd, Q))
	// outside the window nothing changes
	x.fact(st, mkForall([]*Term{i}, mkImp(mkOr(mkLt(i, o), mkLe(mkAdd(o, n), i)), mkEq(mkSelect(nw, i), mkSelect(old, i))), mkSelect(nw, i)))
	x.hset(st, k, mkStore(h, slArr(s), nw))
	// sortedness
	j := freshB("j", SInt)
	x.binders = append(x.binders, []*Term{i, j})
	nl := less(st, at(nw, j), at(nw, i))
	x.binders = x.binders[:len(x.binders)-1]
	pat := intern("pats", "", SBool, nil, at(nw, i), at(nw, j))
	x.fact(st, mkForall([]*Term{i, j}, mkImp(mkAnd(mkLe(o, i), mkLt(i, j), mkLt(j, mkAdd(o, n))), mkNot(nl)), pat))
}

func (x *Exec) sortSlice(fr *Frame, st *State, iface, lessFn *Term) {
	tid := ifTid(iface)
	if !isInt(tid) {
		unsup("sort.Slice of unknown type")
	}
	t := tidType[int(tid.iv.Int64())]
	et := t.Underlying().(*types.Slice).Elem()
	s := x.decode(ifPl(iface), t)
	// less(i,j) reads s[i], s[j]: evaluate it on a scratch array holding a and b
	less := func(sx *State, a, b *Term) *Term {
		k := elemKey(et)
		sc := sx.clone()
		h := x.hget(sc, k, arrSort(SInt, arrSort(SInt, sortOf(et))))
		arr := mkSelect(h, slArr(s))
		o := slOff(s)
		sc.heap[k] = mkStore(h, slArr(s), mkStore(mkStore(arr, o, a), mkAdd(o, mkInt(1)), b))
		cl := lessFn.h.(*Closure)
		x.inSpec++
		defer func() { x.inSpec-- }()
		rs, _ := x.execFn(cl.fn, []*Term{mkInt(0), mkInt(1)}, cl.bindings, sc)
		return rs[0]
	}
	x.sortModel(fr, st, s, et, less)
}

func (x *Exec) sbWrite(st *State, r, s *Term) {
	h := x.hget(st, "SB", arrSort(SInt, SStr))
	x.hset(st, "SB", mkStore(h, r, mkConcat(mkSelect(h, r), s)))
}

// splitDash models strings.Split(s, "-")[0] and [1] in string mode.
func (x *Exec) splitDash(st *State, s, sep *Term) *Term {
	idx := mkApp("$indexof", SInt, s, sep, mkInt(0))
	has := mkLe(mkInt(0), idx)
	first := mkIte(has, mkSubstr(s, mkInt(0), idx), s)
	rest := mkSubstr(s, mkAdd(idx, mkInt(1)), mkSub(mkSub(strLen(s), idx), mkInt(1)))
	idx2 := mkApp("$indexof", SInt, rest, sep, mkInt(0))
	has2 := mkLe(mkInt(0), idx2)
	second := mkIte(has2, mkSubstr(rest, mkInt(0), idx2), rest)
	n3 := fresh("nsplit", SInt)
	x.fact(st, mkLe(mkInt(3), n3))
	n := mkIte(has, mkIte(has2, n3, mkInt(2)), mkInt(1))
	c := fresh("split", arrSort(SInt, SStr))
	c = mkStore(mkStore(c, mkInt(0), first), mkInt(1), second)
	x.note("strings.Split(s, \"-\") is modelled exactly for its first two fields")
	return x.newSlice(st, stringT, c, n, n)
}

func (x *Exec) constFold(name string, args []*Term, st *State, f *ssa.Function) (*Term, bool) {
	for _, a := range args {
		if a.op != "str" {
			return nil, false
		}
	}
	switch name {
	case "strings.Fields":
		return x.strSlice(st, strings.Fields(args[0].name)), true
	case "strings.Trim":
		return mkStr(strings.Trim(args[0].name, args[1].name)), true
	case "strings.Count":
		return mkInt(int64(strings.Count(args[0].name, args[1].name))), true
	case "regexp.QuoteMeta":
		return nil, false
	}
	return nil, false
}

func (x *Exec) invokeModel(fr *Frame, st *State, name string, c *ssa.CallCommon, recv *Term, args []*Term) (*Term, bool) {
	switch name {
	case "error.Error":
		return mkApp("invoke:error.Error", SStr, recv), true
	}
	return nil, false
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []*Term) *Term {
	switch name {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			r := strLen(args[0])
			if r.op == "app" && !x.smtStrings && !r.bound {
				x.axiom(mkLe(mkInt(0), r))
			}
			return r
		case *types.Slice:
			return x.lenOf(args[0])
		case *types.Map:
			return x.mapLen(st, args[0], u)
		case *types.Array:
			return mkInt(u.Len())
		case *types.Pointer:
			return mkInt(u.Elem().Underlying().(*types.Array).Len())
		}
		unsup("len of %s", c.Args[0].Type())
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return slCap(args[0])
		}
	case "append":
		return x.appendBuiltin(fr, st, c, args)
	case "copy":
		return x.copyBuiltin(fr, st, c, args)
	case "delete":
		x.mapDelete(st, args[0], c.Args[0].Type().Underlying().(*types.Map), args[1])
		return tuple()
	case "panic":
		x.safety(fr, st, "explicit panic", tFalse)
		return tuple()
	case "print", "println":
		return tuple()
	case "recover":
		return nilIface
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			l := x.less(a, r)
			if name == "max" {
				l = x.less(r, a)
			}
			r = mkIte(l, a, r)
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "close":
		return tuple()
	case "clear":
		if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			r := args[0]
			dk, _, ck, d, _, cc := x.mapArrs(st, m)
			x.hset(st, dk, mkStore(d, r, mkConstArr(elemSort(d.sort), tFalse)))
			x.hset(st, ck, mkStore(cc, r, mkInt(0)))
			return tuple()
		}
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) appendBuiltin(fr *Frame, st *State, c *ssa.CallCommon, args []*Term) *Term {
	s := args[0]
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if len(args) == 1 {
		return s
	}
	t := args[1]
	es := sortOf(et)
	// the appended elements
	var tc, to, tn *Term
	if isStringType(c.Args[1].Type()) {
		tc, to, tn = mkApp("$bytes", arrSort(SInt, SInt), t), mkInt(0), strLen(t)
	} else {
		tc, to, tn = x.contentOf(st, t, et)
	}
	x.checkEscapeSlice(tc)
	if s.sort == SH {
		sc, so, sn := x.contentOf(st, s, et)
		if isInt(tn) {
			nc := sc
			for i := int64(0); i < tn.iv.Int64(); i++ {
				nc = mkStore(nc, mkAdd(mkAdd(so, sn), mkInt(i)), mkSelect(tc, mkAdd(to, mkInt(i))))
			}
			return mkHandle("gslice", SH, &GSlice{nc, so, mkAdd(sn, tn), et})
		}
		nc := x.concatContent(st, sc, so, sn, tc, to, tn)
		return mkHandle("gslice", SH, &GSlice{nc, so, mkAdd(sn, tn), et})
	}
	if isInt(tn) && tn.iv.Sign() == 0 {
		return s
	}
	k := elemKey(et)
	h := x.hget(st, k, arrSort(SInt, arrSort(SInt, es)))
	nlen := mkAdd(slLen(s), tn)
	fits := mkLe(nlen, slCap(s))
	if x.inSpec > 0 || x.binderDepth() > 0 {
		fits = tFalse
	}
	a := x.newRef(st)
	arr := mkIte(fits, slArr(s), a)
	old := mkSelect(h, slArr(s))
	end := mkAdd(slOff(s), slLen(s))
	var content *Term
	if isInt(tn) && tn.iv.Int64() <= 64 {
		content = old
		for i := int64(0); i < tn.iv.Int64(); i++ {
			content = mkStore(content, mkAdd(end, mkInt(i)), mkSelect(tc, mkAdd(to, mkInt(i))))
		}
	} else {
		content = x.concatContent(st, old, slOff(s), slLen(s), tc, to, tn)
	}
	ncap := fresh("cap", SInt)
	x.fact(st, mkLe(nlen, ncap))
	x.hset(st, k, mkStore(h, arr, content))
	r := mkDT("Slice", arr, slOff(s), nlen, mkIte(fits, slCap(s), ncap))
	if !isInt(tn) {
		// appending nothing returns s itself
		r = mkIte(mkEq(tn, mkInt(0)), s, r)
	}
	return r
}

func (x *Exec) checkEscapeSlice(c *Term) {}

func (x *Exec) concatContent(st *State, sc, so, sn, tc, to, tn *Term) *Term {
	nc := fresh("cat", sc.sort)
	i := freshB("i", SInt)
	end := mkAdd(so, sn)
	x.fact(st, mkForall([]*Term{i}, mkEq(mkSelect(nc, i), mkIte(mkAnd(mkLe(end, i), mkLt(i, mkAdd(end, tn))), mkSelect(tc, mkAdd(to, mkSub(i, end))), mkSelect(sc, i))), mkSelect(nc, i)))
	return nc
}

func (x *Exec) copyBuiltin(fr *Frame, st *State, c *ssa.CallCommon, args []*Term) *Term {
	d, s := args[0], args[1]
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var tc, to, tn *Term
	if isStringType(c.Args[1].Type()) {
		tc, to, tn = mkApp("$bytes", arrSort(SInt, SInt), s), mkInt(0), strLen(s)
	} else {
		tc, to, tn = x.contentOf(st, s, et)
	}
	n := mkIte(mkLt(tn, slLen(d)), tn, slLen(d))
	k := elemKey(et)
	h := x.hget(st, k, arrSort(SInt, arrSort(SInt, sortOf(et))))
	old := mkSelect(h, slArr(d))
	nc := fresh("copy", old.sort)
	i := freshB("i", SInt)
	o := slOff(d)
	x.fact(st, mkForall([]*Term{i}, mkEq(mkSelect(nc, i), mkIte(mkAnd(mkLe(o, i), mkLt(i, mkAdd(o, n))), mkSelect(tc, mkAdd(to, mkSub(i, o))), mkSelect(old, i))), mkSelect(nc, i)))
	x.hset(st, k, mkStore(h, slArr(d), nc))
	return n
}
