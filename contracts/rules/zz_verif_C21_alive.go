package rules

import (
	"fmt"
	"go/types"
	"io"
	"log"
	"os"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/internal/gv"
)

//gv:uses C15
//gv:uses C16
//gv:uses C17
//gv:uses C18

// specC21Gen writes valid code which calls the functions the rules know in unusual ways.
type specC21Gen struct {
	r     *gv.Rand
	n     int
	decls []string
}

func specC21Qual(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Path() == "example.com/p" {
		return ""
	}
	return "{" + p.Path() + "}"
}

func (g *specC21Gen) typ(t types.Type) string {
	return types.TypeString(t, specC21Qual)
}

// decl adds a declaration and returns its name.
func (g *specC21Gen) decl(format string) string {
	g.n++
	name := "d" + strconv.Itoa(g.n) + "_#"
	g.decls = append(g.decls, strings.ReplaceAll(format, "$", name))
	return name
}

// expr writes an expression of a type.
func (g *specC21Gen) expr(t types.Type, depth int) string {
	r := g.r
	name := g.typ(t)
	if depth <= 0 {
		return "*new(" + name + ")"
	}
	switch r.Intn(13) {
	case 0:
		return g.decl("var $ " + name)
	case 1:
		return g.decl("func $() (_ "+name+") { return }") + "()"
	case 2:
		return "func() (x " + name + ") { return }()"
	case 3:
		return "(" + g.expr(t, depth-1) + ")"
	case 4:
		return g.decl("var $ struct{ f, g "+name+" }") + ".f"
	case 5:
		return g.decl("var $ []"+name) + "[" + gv.Pick(r, "0", "n", "len(s)") + "]"
	case 6:
		return g.decl("var $ map[string]"+name) + "[s]"
	case 7:
		return "w.(" + name + ")"
	case 8:
		return g.decl("func $[T any](x T) T { return x }") + "(" + g.expr(t, depth-1) + ")"
	case 9:
		return g.decl("var $ = " + g.expr(t, 0))
	case 10:
		if types.IsInterface(t) {
			return name + "(" + g.expr(t, depth-1) + ")"
		}
		return "<-" + g.decl("var $ chan "+name)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			var e string
			switch r.Intn(12) {
			case 0:
				e = `""`
			case 1:
				e = `s + "x"`
			case 2:
				e = "`raw`"
			case 3:
				e = `"SELECT * FROM t WHERE a = '" + s + "'"`
			case 4:
				e = `{fmt}.Sprintf("SELECT %s FROM %d", s, n)`
			case 5:
				e = "string(b)"
			case 6:
				e = g.decl(`const $ = "x"`)
			case 7:
				e = "s[n:]"
			case 8:
				e = g.decl(`var $, _ = "x", func() int { return 1 }()`)
			case 9:
				e = g.decl(`var $, _ = func() (string, int) { return "x", 1 }()`)
			case 10:
				e = "string(rune(n))"
			default:
				e = `"x"`
			}
			if u.Kind() == types.UntypedString || name == "string" {
				return e
			}
			return name + "(" + e + ")"
		case u.Info()&types.IsNumeric != 0:
			e := gv.Pick(r, "0", "1", "0o777", "0x10", "'x'", "1<<3", "len(s)", "n", "(2)", "+5", g.decl("const $ = 7"), "cap(b)", "-n", "^n", "n<<uint(n)", "len(b[1:])", "int(b[0])")
			return name + "(" + e + ")"
		case u.Info()&types.IsBoolean != 0:
			return gv.Pick(r, "true", "false", "n > 0", "!(n < 2)", "s == \"\"")
		}
	case *types.Slice:
		if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return name + "(" + gv.Pick(r, "nil", "b", "b[1:]", "[]byte(s)", "[]byte{1, 2}", "make([]byte, n)", "append(b, 1)", "[]byte(\"x\")", "make([]byte, 0, 4)", "append([]byte(nil), b...)") + ")"
		}
		return gv.Pick(r, name+"{}", "make("+name+", 3)", name+"("+"nil)", name+"{"+g.expr(u.Elem(), depth-1)+", "+g.expr(u.Elem(), depth-1)+"}")
	case *types.Pointer:
		return gv.Pick(r, "("+name+")(nil)", "new("+g.typ(u.Elem())+")", "func() "+name+" { x := *new("+g.typ(u.Elem())+"); return &x }()")
	case *types.Struct:
		if r.Intn(2) == 0 {
			var f []string
			for v := range u.Fields() {
				if v.Exported() && r.Intn(2) == 0 {
					f = append(f, v.Name()+": "+g.expr(v.Type(), depth-1))
				}
			}
			return name + "{" + strings.Join(f, ", ") + "}"
		}
		return name + "{}"
	}
	return "*new(" + name + ")"
}

// args writes the operands of a call.
func (g *specC21Gen) args(sig *types.Signature) string {
	r := g.r
	var plain []string
	var ts []string
	for k := range sig.Params().Len() {
		t := sig.Params().At(k).Type()
		if sig.Variadic() && k == sig.Params().Len()-1 {
			switch r.Intn(4) {
			case 0:
				plain = append(plain, g.expr(t, 2)+"...")
			case 1:
			default:
				for range 1 + r.Intn(2) {
					plain = append(plain, g.expr(t.(*types.Slice).Elem(), 2))
				}
			}
			continue
		}
		plain = append(plain, g.expr(t, 2))
		ts = append(ts, g.typ(t))
	}
	if len(ts) > 1 && r.Intn(3) == 0 {
		return g.decl("func $() (_ "+strings.Join(ts, ", _ ")+") { return }") + "()"
	}
	return strings.Join(plain, ", ")
}

// stmt uses a call with a number of results in a statement.
func (g *specC21Gen) stmt(call string, results int) string {
	r := g.r
	blank := strings.TrimSuffix(strings.Repeat("_, ", results), ", ")
	if results == 0 {
		return gv.Pick(r, call, "defer "+call, "go "+call, "func() { "+call+" }()")
	}
	var names []string
	for k := range results {
		names = append(names, gv.Pick(r, "_", "v"+strconv.Itoa(k)))
	}
	list := strings.Join(names, ", ")
	def := list + " := " + call
	if !strings.Contains(list, "v") {
		def = list + " = " + call
	}
	body := "{\n" + def + "\n_ = n\n}"
	switch r.Intn(8) {
	case 0:
		return call
	case 1:
		return "defer " + call
	case 2:
		return "go " + call
	case 3:
		return blank + " = " + call
	case 4:
		if results == 1 {
			return "if x := " + call + "; any(x) == nil {\n}"
		}
		return body
	case 5:
		if results == 1 {
			return "for range [1]any{" + call + "} {\n}"
		}
		return "switch " + blank + " = " + call + "; {\ncase n > 1:\n}"
	case 6:
		if results == 1 {
			return "_ = []any{" + call + ", map[any]any{1: " + call + "}}"
		}
		return "func(_ ...any) {}(" + call + ")"
	}
	return body
}

// block is the body of a function, with the declarations it needs.
func (g *specC21Gen) block() string {
	r := g.r
	g.decls = nil
	var paths []string
	for p := range specC15Std {
		if p != "unsafe" {
			paths = append(paths, p)
		}
	}
	slices.Sort(paths)
	var body []string
	for range 1 + r.Intn(3) {
		pkg, err := specC15Packages.Import(paths[r.Intn(len(paths))])
		if err != nil {
			panic(err)
		}
		names := pkg.Scope().Names()
		if len(names) == 0 {
			continue
		}
		o := pkg.Scope().Lookup(names[r.Intn(len(names))])
		if !o.Exported() {
			continue
		}
		q := "{" + pkg.Path() + "}." + o.Name()
		switch o := o.(type) {
		case *types.Func:
			sig := o.Type().(*types.Signature)
			f, pre := q, ""
			switch r.Intn(8) {
			case 0:
				f = "(" + q + ")"
			case 1:
				f, pre = "call", "call := "+q+"\n"
			case 2:
				f = g.decl("var $ = " + q)
			}
			body = append(body, "{\n"+pre+g.stmt(f+"("+g.args(sig)+")", sig.Results().Len())+"\n}")
		case *types.TypeName:
			body = append(body, "_ = "+g.expr(o.Type(), 2))
			ms := types.NewMethodSet(types.NewPointer(o.Type()))
			if types.IsInterface(o.Type()) {
				ms = types.NewMethodSet(o.Type())
			}
			if ms.Len() > 0 {
				m := ms.At(r.Intn(ms.Len())).Obj().(*types.Func)
				if !m.Exported() {
					continue
				}
				sig := m.Type().(*types.Signature)
				recv := "(&[]" + q + "{" + g.expr(o.Type(), 1) + "}[0])"
				if types.IsInterface(o.Type()) {
					recv = "(" + g.expr(o.Type(), 2) + ")"
				} else if _, isPtr := sig.Recv().Type().(*types.Pointer); isPtr && r.Intn(2) == 0 {
					recv = g.decl("func $() *"+q+" { return nil }") + "()"
				} else if r.Intn(2) == 0 {
					recv = g.decl("var $ " + q)
				}
				body = append(body, "{\n"+g.stmt(recv+"."+m.Name()+"("+g.args(sig)+")", sig.Results().Len())+"\n}")
			}
		default:
			body = append(body, "_ = "+q)
		}
	}
	if r.Intn(3) == 0 {
		body = append(body, specC21Odd[r.Intn(len(specC21Odd))])
	}
	text := strings.Join(g.decls, "\n")
	return "@\n" + text + "\nfunc k" + strconv.Itoa(g.n) + "_#(b []byte, s string, n int, w any, e error) {\n" + strings.Join(body, "\n") + "\n}"
}

// Statements of unusual shape.
var specC21Odd = []string{
	"L:\nfor {\nif n > 1 {\nbreak L\n}\ncontinue L\n}",
	"goto M\nM:\nif n > 2 {\ngoto M\n}",
	"switch x := w.(type) {\ncase nil:\ncase int, string:\n_ = x\ncase []byte:\n_ = int8(len(x))\ndefault:\n}",
	"select {\ncase v, ok := <-make(chan int):\n_, _ = v, ok\ndefault:\n}",
	"for i, c := range s {\n_, _ = &i, &c\n}",
	"for i := range n {\nw = &i\n}",
	"for _, x := range []struct{ a, b int }{{1, 2}, {}} {\nw = &x.a\nw = &x\n}",
	"for s = range map[string]int{} {\nw = &s\n}",
	"var p *[4]int\nfor i := range p {\n_ = p[i]\n}\n_ = p[:][n:]",
	"var m map[string]func(...string) error\n_ = m[s](s, s)\nm[s]()",
	"type t struct {\nerror\npassword string\n}\nx := t{e, s}\nx.password = \"secret\"\n_ = x.password == \"abc\"\n_ = x.Error()",
	"var password, user string = func() (string, string) { return \"a\", \"b\" }()\n_, _ = password, user",
	"var (\ntoken, secret = \"a\", n\n)\n_, _ = token, secret",
	"const (\na = iota\nsecret\n)\n_ = uint8(secret + n)",
	"var f func()\ndefer f()\nf()\nfunc(...int) {}()",
	"x := [...]string{2: \"a\", 5: s}\n_ = x[n]\n_ = x[:3]",
	"x := struct{ f func(int) (int, error) }{}\nx.f(n)\n_, _ = x.f(n)",
	"var i interface{ F(a, b int) (int, error) }\ni.F(func() (int, int) { return n, n }())",
	"if x, ok := w.(interface{ Close() error }); ok {\ndefer x.Close()\n}",
	"n++\nn <<= 3\nn &^= 7\n_ = uint8(n)\n_ = int8(-n)\n_ = int8(^n)\n_ = n > 3 && n < 5 || !(n == 4)",
	"x := make([]int, n, n+1)\n_ = x[1:2:3]\ny := make([]int, 3, 5)\n_ = y[1:2:5]\n_ = y[n]\n_ = y[7:]",
	"_ = s == \"\" || s != \"secretpassword\"\n_ = \"x\" == s",
	"{\n}\n;\nif n > 0 {\n} else if n < 0 {\n} else {\n}",
	"func() {\ndefer func() {\n_ = recover()\n}()\npanic(e)\n}()",
	"type own []byte\n_ = own(s)\n_ = string(own{1, 2})\n_ = [2]byte(own{1, 2, 3})",
	"var x, y = 1, \"password\"\nx, y = 2, s\n_, _ = x, y",
	"var c complex128 = complex(1, 2)\n_ = real(c)\n_ = 'a' + rune(n)\n_ = min(n, 3)",
	"type a = []byte\nvar z a = b\n_ = len(z) > 3 && z[2] == 1\nclear(z)",
}

// Functions which call each other.
var specC21Cycles = []string{
	"@\nfunc enc#(a {crypto/cipher}.AEAD, iv []byte, k int) {\nif k > 0 {\nenc#(a, iv, k-1)\n}\na.Seal(nil, iv, nil, nil)\n}",
	"@\nfunc ping#(k {crypto/cipher}.Block, iv []byte) {\npong#(iv, k)\n{crypto/cipher}.NewCTR(k, iv)\n}\nfunc pong#(iv []byte, k {crypto/cipher}.Block) {\nping#(k, iv)\npong#([]byte(\"abc\"), k)\n}",
	"@\nfunc loop#(s string) string {\n_, _ = {os}.Open(loop#(s + loop#(s)))\nreturn loop#(s)\n}",
	"@\nfunc bounds#(x []int, k int) {\nbounds#(x[1:], k-1)\nbounds#(x, 3)\n_ = x[3]\n}\nfunc start#() {\nbounds#(make([]int, 3), 1)\nx := make([]int, 5)\nfor len(x) > 1 {\nx = x[1:]\n_ = x[0]\n}\n}",
	"@\ntype list# struct{ next *list#; f func(*list#) string }\nfunc (l *list#) walk(s string) {\nl.next.walk(l.f(l))\n_, _ = {os}.Open(l.next.f(l.next) + s)\n{os/exec}.Command(l.next.next.f(nil))\n}",
	"for i := 0; i < n; i++ {\nfor j := i; j > 0; j-- {\nv, _ := {strconv}.ParseInt(s, 10, j)\nfor v > 3 {\nv = v / 2\n_ = int8(v)\n_ = uint8(i)\ni = int(int8(v))\n}\n}\n}",
	"x := s\nfor n > 0 {\nx = x + s\ny := x\nx = y\n_, _ = {os}.Open(x)\n{os/exec}.Command(y, x)\n}",
	"var f func(string) string\nf = func(s string) string {\n_, _ = {os}.Open(f(s))\nreturn f(f(s))\n}",
}

// Configurations of the rules in any shape.
func specC21Conf(r *gv.Rand) gosec.Config {
	conf := gosec.NewConfig()
	if r.Intn(2) == 0 {
		return conf
	}
	vals := []any{"x", "0600", "true", 3.0, 384, true, nil, map[string]interface{}{}, []interface{}{"fmt", 3, nil}, []string{"x"}, map[string]interface{}{"pattern": "x", "entropy_threshold": "1", "ignore_entropy": "true", "per_char_threshold": "x", "truncate": "-3"}, map[string]interface{}{"pattern": 3, "entropy_threshold": 5.0}, map[string]interface{}{"fmt": []interface{}{"Println", 3}, "os": "x"}}
	for _, id := range []string{"G101", "G104", "G111", "G301", "G302", "G306", "G307", "G407", "G115"} {
		if r.Intn(3) == 0 {
			conf.Set(id, vals[r.Intn(len(vals))])
		}
	}
	return conf
}

func gen_C21_alive(r *gv.Rand) (gosec.Config, []string) {
	var blocks []string
	for _, t := range [][]string{specC15Blocks(specC16Table), specC15Blocks(specC17Table)} {
		blocks = append(blocks, t[r.Intn(len(t))])
	}
	blocks = append(blocks, specC21Cycles[r.Intn(len(specC21Cycles))])
	g := &specC21Gen{r: r}
	for range 5 {
		blocks = append(blocks, g.block(), g.block())
	}
	srcs := []string{specC15Write(r, blocks, 0)}
	if r.Intn(3) == 0 {
		srcs = append(srcs, specC15Write(r, blocks, 1))
	}
	return specC21Conf(r), srcs
}

const budget_C21_alive = 25

// bounded: valid packages with unusual calls of everything the rules know.
func verif_C21_alive(conf gosec.Config, srcs []string) {
	if !gv.Native() {
		gv.Ensures("files are searched", len(srcs) >= 0)
		return
	}
	if os.Getenv("GOVER_SHOW") != "" {
		fmt.Println(strings.Join(srcs, "\n"))
	}
	defer func() {
		if r := recover(); r != nil {
			if s := string(debug.Stack()); strings.Contains(s, "specC15Load") && !strings.Contains(s, "CheckRules") && !strings.Contains(s, "CheckAnalyzers") {
				panic(r)
			}
			st := string(debug.Stack())
			gv.Ensures(fmt.Sprintf("the search ends without a panic (%v at %s) on\n%s", r, st, strings.Join(srcs, "\n----\n")), false)
		}
	}()
	debug.SetMaxStack(100 << 20)
	var out strings.Builder
	an := gosec.NewAnalyzer(conf, false, false, false, 1, log.New(io.Discard, "", 0))
	an.LoadRules(Generate(false).RulesInfo())
	an.LoadAnalyzers(analyzers.Generate(false).AnalyzersInfo())
	pkg := specC15Load(srcs...)
	an.CheckRules(pkg)
	an.CheckAnalyzers(pkg)
	issues, _, _ := an.Report()
	for _, i := range issues {
		gv.Ensures("every finding has a rule and a line: "+i.RuleID+" "+i.Line, i.RuleID != "" && i.Line != "" && i.File != "")
	}
	gv.Ensures("nothing is written", out.Len() == 0)
}
