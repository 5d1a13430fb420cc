package rules

import (
	"fmt"
	"io"
	"log"
	"math/big"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/internal/gv"
)

//gv:uses C15

// specC17Run searches a package with one analyzer and lists the lines where it reports something.
func specC17Run(id string, srcs ...string) []int {
	an := gosec.NewAnalyzer(gosec.NewConfig(), false, false, false, 1, log.New(io.Discard, "", 0))
	list := analyzers.Generate(false, analyzers.NewAnalyzerFilter(false, id))
	defs, sup := list.AnalyzersInfo()
	an.LoadAnalyzers(defs, sup)
	var pkg *packages.Package = specC15Load(srcs...)
	an.CheckAnalyzers(pkg)
	issues, _, _ := an.Report()
	var got []int
	for _, i := range issues {
		if i.RuleID != id {
			got = append(got, -1)
			continue
		}
		n, _ := strconv.Atoi(i.Line)
		k, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(i.File, "/nowhere/f"), ".go"))
		got = append(got, k*100000+n)
	}
	slices.Sort(got)
	return got
}

var specC17Types = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune"}

func specC17Bounds(t string) (lo, hi *big.Int) {
	switch t {
	case "byte":
		t = "uint8"
	case "rune":
		t = "int32"
	}
	u := strings.HasPrefix(t, "u")
	n, _ := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(t, "u"), "int"))
	if n == 0 {
		n = strconv.IntSize
	}
	one := big.NewInt(1)
	if u {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)
	}
	h := new(big.Int).Lsh(one, uint(n-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

// A comparison of the converted value with a constant.
type specC17Cmp struct {
	op   string
	c    *big.Int
	swap bool
}

func (c specC17Cmp) text(x string) string {
	if c.swap {
		return c.c.String() + " " + c.op + " " + x
	}
	return x + " " + c.op + " " + c.c.String()
}

func (c specC17Cmp) holds(v *big.Int) bool {
	d := v.Cmp(c.c)
	if c.swap {
		d = -d
	}
	switch c.op {
	case "<":
		return d < 0
	case "<=":
		return d <= 0
	case ">":
		return d > 0
	case ">=":
		return d >= 0
	case "==":
		return d == 0
	}
	return d != 0
}

// A program with one conversion: src to dst, guarded.
type specC17Prog struct {
	src, dst string
	cmps     []specC17Cmp
	form     int
	kind     int
	neg      bool
}

// reached states that the value gets to the conversion; weak leaves out that the value differs from a constant.
func (p specC17Prog) reached(v *big.Int, weak bool) bool {
	fact := func(k int, yes bool) bool {
		if weak && (p.cmps[k].op == "!=" && yes || p.cmps[k].op == "==" && !yes) {
			return true
		}
		return p.cmps[k].holds(v) == yes
	}
	switch p.form {
	case 1:
		return fact(0, true)
	case 2, 7:
		return fact(0, true) && fact(1, true)
	case 3, 5:
		return fact(0, false)
	case 4, 6:
		return fact(0, false) && fact(1, false)
	}
	return true
}

func (p specC17Prog) text(n int) string {
	x, par := "x", "x "+p.src
	switch p.kind {
	case 1:
		par = "x my" + p.src
	case 2:
		x, par = "t.f", "t *struct{ f "+p.src+" }"
	case 3:
		par = "a, b " + p.src
	}
	c := func(k int) string { return p.cmps[k].text(x) }
	sign := ""
	if p.neg {
		sign = "-"
	}
	conv := "\tsink" + p.dst + "(" + p.dst + "(" + sign + x + ")) // convert\n"
	body := conv
	switch p.form {
	case 1:
		body = "\tif " + c(0) + " {\n" + conv + "\t}\n"
	case 2:
		body = "\tif " + c(0) + " && " + c(1) + " {\n" + conv + "\t}\n"
	case 3:
		body = "\tif " + c(0) + " {\n\t\treturn\n\t}\n" + conv
	case 4:
		body = "\tif " + c(0) + " || " + c(1) + " {\n\t\tpanic(1)\n\t}\n" + conv
	case 5:
		body = "\tif " + c(0) + " {\n\t\tsinkstring(\"\")\n\t} else {\n" + conv + "\t}\n"
	case 6:
		body = "\tif " + c(0) + " {\n\t\treturn\n\t}\n\tif " + c(1) + " {\n\t\treturn\n\t}\n" + conv
	case 7:
		body = "\tif " + c(0) + " {\n\tif " + c(1) + " {\n" + conv + "\t}\n\t}\n"
	}
	if p.kind == 3 {
		body = "\tx := a*b\n" + body
	}
	return fmt.Sprintf("func f%d(%s) {\n%s}\n\n", n, par, body)
}

// outcome states whether some value reaches the conversion, and whether one does which is not in the destination type.
func (p specC17Prog) outcome(weak bool) (reached, overflows bool) {
	slo, shi := specC17Bounds(p.src)
	dlo, dhi := specC17Bounds(p.dst)
	near := []*big.Int{slo, shi, dlo, dhi}
	for _, c := range p.cmps {
		near = append(near, c.c)
	}
	for _, n := range near {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Add(n, big.NewInt(d))
			if v.Cmp(slo) < 0 || v.Cmp(shi) > 0 || !p.reached(v, weak) {
				continue
			}
			if p.neg && v.Cmp(slo) == 0 {
				continue // wraps around
			}
			reached = true
			w := v
			if p.neg {
				w = new(big.Int).Neg(v)
			}
			overflows = overflows || w.Cmp(dlo) < 0 || w.Cmp(dhi) > 0
		}
	}
	return reached, overflows
}

func gen_C17_guards(r *gv.Rand) []specC17Prog {
	var list []specC17Prog
	for range 12 {
		p := specC17Prog{src: specC17Types[r.Intn(12)], dst: specC17Types[r.Intn(12)], form: r.Intn(8), kind: r.Intn(4)}
		p.neg = r.Intn(8) == 0 && !strings.HasPrefix(p.src, "u") && p.src != "byte"
		slo, shi := specC17Bounds(p.src)
		dlo, dhi := specC17Bounds(p.dst)
		for range 2 {
			c := specC17Cmp{op: gv.Pick(r, "<", "<=", ">", ">=", "<", "<=", ">", ">=", "==", "!="), swap: r.Intn(3) == 0}
			for {
				v := gv.Pick(r, dlo, dhi, dlo, dhi, slo, shi, big.NewInt(0), big.NewInt(100))
				c.c = new(big.Int).Add(v, big.NewInt(int64(r.Intn(3)-1)))
				if c.c.Cmp(slo) >= 0 && c.c.Cmp(shi) <= 0 {
					break
				}
			}
			p.cmps = append(p.cmps, c)
		}
		list = append(list, p)
	}
	return list
}

const budget_C17_guards = 10

func verif_C17_guards(list []specC17Prog) {
	if !gv.Native() {
		gv.Ensures("conversions are looked at", len(list) >= 0)
		return
	}
	src := "package p\n\n"
	for _, t := range append(specC17Types, "string") {
		src += "func sink" + t + "(x " + t + ") {}\ntype my" + t + " " + t + "\n"
	}
	for n, p := range list {
		src += p.text(n)
	}
	got := specC17Run("G115", src)
	at := map[int]bool{}
	for _, l := range got {
		at[l] = true
	}
	n := 0
	for k, l := range strings.Split(src, "\n") {
		if strings.HasSuffix(l, "// convert") {
			p := list[n]
			n++
			_, bad := p.outcome(false)
			if bad {
				gv.Ensures("a conversion which loses values is reported:\n"+p.text(0), at[k+1])
			}
			if reached, bad := p.outcome(true); reached && !bad && !p.neg {
				gv.Ensures("a conversion of values in range is not reported:\n"+p.text(0), !at[k+1])
			}
		}
	}
}

const specC17Table = `
v, _ := {strconv}.Atoi(s)
_ = int32(v) //!
_ = int64(v)
_ = uint(v) //!

v, _ := {strconv}.ParseInt(s, 10, 32)
_ = int32(v)
_ = int(v)
_ = int16(v) //!
_ = uint32(v) //!
_ = uint64(v) //!

v, _ := {strconv}.ParseInt(s, 10, 8)
_ = int8(v)
_ = int16(v)
_ = uint8(v) //!

v, _ := {strconv}.ParseUint(s, 10, 16)
_ = uint16(v)
_ = int16(v) //!
_ = int32(v)
_ = uint32(v)
_ = uint8(v) //!

v, _ := {strconv}.ParseUint(s, 10, 64)
_ = uint(v)
_ = int64(v) //!

v, _ := {strconv}.ParseInt(s, 10, 0)
_ = int(v)
_ = int32(v) //!
_ = int8(v) //!

v, _ := {example.com/numbers}.ParseInt(s, 10, 8)
_ = int8(v) //!

_ = byte(n) //!
_ = rune(n) //!
_ = byte(b[n])
_ = rune(b[n])

v, _ := {strconv}.ParseInt(s, 10, n)
_ = int32(v) //!

v, _ := {strconv}.ParseInt(s, 0, 16)
if n > 2 {
v, _ = {strconv}.ParseInt(s, 10, 64)
}
_ = int16(v) //!

v, _ := {strconv}.ParseInt(s, 10, 64)
if n > 2 {
v, _ = {strconv}.ParseInt(s, 10, 16)
}
_ = int16(v) //!

v, _ := {strconv}.ParseInt(s, 10, 16)
if n > 2 {
v, _ = {strconv}.ParseInt(s, 16, 8)
}
_ = int16(v)

v := len(s)
_ = uint(v)
_ = uint64(v)
_ = uint32(v) //!
_ = uint16(len(b)) //!
_ = uint64(len(b))
_ = uint64(cap(b))
_ = int32(cap(b)) //!

v := 300
_ = uint8(v) //!
_ = uint16(v)
_ = uint64(v)
_ = uint(v)
_ = int8(v) //!

v := -1
_ = uint8(v) //!
_ = uint64(v) //!
_ = int8(v)

v := 255
_ = uint8(v)
_ = int8(v) //!

v := uint64(1<<63)
_ = int64(v) //!
_ = uint(v)
_ = int(v) //!

v := -128
_ = int8(v)
v -= n
_ = int8(v) //!

v := -129
_ = int8(v) //!
_ = int16(v)

for _, c := range s {
_ = uint8(c) //!
_ = int64(c)
_ = uint32(c) //!
}

_ = float64(n)
_ = string(b)
_ = int64(n)
_ = int(b[0])
_ = uint8(b[n])
_ = int8(b[n]) //!
_ = rune(b[n])
_ = uintptr(n)

if n > 0 && n < 256 {
_ = uint8(n)
_ = int8(n) //!
}

if len(s) < 100 {
_ = int8(n) //!
}

switch n {
case 3:
_ = uint8(n)
case 300:
_ = uint16(n)
}

m := n
if m >= 0 && m <= 65535 {
_ = uint16(m)
_ = uint8(m) //!
}

if n >= 0 {
_ = uint64(n)
_ = uint(n)
_ = uint32(n) //!
}

func() {
if n < 0 || n > 127 {
return
}
_ = int8(n)
}()

@
func ParseInt#(s string, base, bits int) (int64, error) { return 1<<40, nil }
type own# struct{}
func (own#) ParseInt(s string, base, bits int) (int64, error) { return 1<<40, nil }
func h#(s string) int8 {
v, _ := own#{}.ParseInt(s, 10, 8)
return int8(v) //!
}

@
func G#[T int8 | int16](n int) T {
return T(n)
}
`

func gen_C17_others(r *gv.Rand) []string {
	srcs := []string{specC15Write(r, specC15Blocks(specC17Table), 0)}
	for r.Intn(4) == 0 {
		srcs = append(srcs, specC15Write(r, specC15Blocks(specC17Table), len(srcs)))
	}
	return srcs
}

const budget_C17_others = 8

// bounded: packages made of the examples above, under any import names and in any order.
func verif_C17_others(srcs []string) {
	if !gv.Native() {
		gv.Ensures("files are searched", len(srcs) >= 0)
		return
	}
	got, want := specC17Run("G115", srcs...), specC15Want(srcs...)
	at := ""
	for k, src := range srcs {
		for n, l := range strings.Split(src, "\n") {
			if m := k*100000 + n + 1; slices.Contains(got, m) != slices.Contains(want, m) {
				at = fmt.Sprintf(", see %q before %q", strings.Split(src, "\n")[:n], l)
			}
		}
	}
	gv.Ensures(fmt.Sprintf("exactly the marked lines are reported (%v instead of %v%s)", got, want, at), slices.Equal(got, want))
}

func gen_C17_after(r *gv.Rand) string {
	return "package p\nfunc f(x int) {\n\tif x > 127 {\n\t\tprintln(x)\n\t}\n\tif x < -128 {\n\t\treturn\n\t}\n\tprintln(int8(x))\n}\n"
}

const budget_C17_after = 0

func verif_C17_after(src string) {
	if !gv.Native() {
		gv.Ensures("a file is searched", len(src) >= 0)
	} else {
		gv.Ensures("a check that does not leave the function says nothing", slices.Equal(specC17Run("G115", src), []int{9}))
	}
}

func gen_C17_or(r *gv.Rand) string {
	return "package p\nfunc f(x, y int) {\n\tif x == 5 || y > 3 {\n\t\tprintln(int8(x))\n\t}\n}\n"
}

const budget_C17_or = 0

func verif_C17_or(src string) {
	if !gv.Native() {
		gv.Ensures("a file is searched", len(src) >= 0)
	} else {
		gv.Ensures("one of two alternatives says nothing", slices.Equal(specC17Run("G115", src), []int{4}))
	}
}
