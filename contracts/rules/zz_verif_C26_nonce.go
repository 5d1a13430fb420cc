package rules

import (
	"fmt"
	"slices"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
)

//gv:uses C15
//gv:uses C17

// specC26Source writes a nonce: the declarations it needs, the statements before its use, the value, and whether it is fixed.
func specC26Source(r *gv.Rand, k string) (decl, stmt, value string, fixed bool) {
	lit := gv.Pick(r, "[]byte{1, 2, 3, 4}", "[]byte(\"0123456789ab\")", "[]byte(s)", "[]byte{byte(n), 2}", "[]byte{}")
	fill := gv.Pick(r, "{crypto/rand}.Read(b)", "if n > 1 {\n{crypto/rand}.Read(b)\n}", "for range n {\nif _, err := {crypto/rand}.Read(b); err != nil {\npanic(err)\n}\n}", "_, _ = {crypto/rand}.Read(b)", "func() {}()\n{crypto/rand}.Read(b[:4])\nreturn b")
	other := gv.Pick(r, "{math/rand}.Read(b)", "_ = {crypto/rand}.Reader", "read"+k+"(b)", "b[0] = 1", "{crypto/rand}.Text()", "{crypto/rand}.Int(nil, nil)")
	helper := "\n\nfunc read" + k + "(b []byte) (int, error) {\nreturn 0, nil\n}"
	if !strings.HasPrefix(other, "read") {
		helper = ""
	}
	switch r.Intn(11) {
	case 0, 1:
		return "", "", lit, true
	case 2:
		return "", "iv := " + lit, "iv", true
	case 3:
		return "var g" + k + " = []byte{1, 2, 3}", "", "g" + k, true
	case 4:
		return "func fixed" + k + "(n int) []byte {\nb := make([]byte, n)\n" + other + "\nreturn b\n}" + helper, "", "fixed" + k + "(n)", true
	case 5:
		return strings.TrimPrefix(helper, "\n\n"), "iv := func(n int) []byte {\nb := make([]byte, n)\n" + other + "\nreturn b\n}(n)", "iv", true
	case 6:
		return "", "", "func() []byte { return []byte(\"abc\") }()", true
	case 7:
		return "func fresh" + k + "(n int) []byte {\nb := make([]byte, n)\n" + fill + "\nreturn b\n}", "iv := fresh" + k + "(n)", "iv", false
	case 8:
		return "func fresh" + k + "(n int) []byte {\nb := make([]byte, n)\n" + fill + "\nreturn b\n}", "", "fresh" + k + "(n)", false
	case 9:
		return "", "iv := func(n int) []byte {\nb := make([]byte, n)\n" + fill + "\nreturn b\n}(n)", "iv", false
	default:
		return "", "iv := make([]byte, n)\n{crypto/rand}.Read(iv)", "iv", false
	}
}

// specC26Sink writes a call: is its argument a nonce?
func specC26Sink(r *gv.Rand, iv string) (string, bool) {
	switch r.Intn(10) {
	case 0, 1:
		return "a.Seal(nil, " + iv + ", []byte(\"data\"), nil)", true
	case 2:
		return "{crypto/cipher}.NewCBCEncrypter(k, " + iv + ")", true
	case 3:
		return "{crypto/cipher}.NewCFBEncrypter(k, " + iv + ")", true
	case 4:
		return "{crypto/cipher}.NewCTR(k, " + iv + ")", true
	case 5:
		return "_ = {crypto/cipher}.NewOFB(k, " + iv + ")", true
	case 6:
		return "{crypto/cipher}.NewCBCDecrypter(k, " + iv + ")", false
	case 7:
		return "{crypto/cipher}.NewCFBDecrypter(k, " + iv + ")", false
	case 8:
		return "a.Open(nil, " + iv + ", []byte(\"data\"), nil)", false
	default:
		return "{crypto/cipher}.NewCTR(k, " + iv + ").XORKeyStream(nil, nil)", true
	}
}

// specC26Block writes a use of a nonce: directly, or handed on by functions.
func specC26Block(r *gv.Rand) string {
	const common = "k {crypto/cipher}.Block, a {crypto/cipher}.AEAD"
	var b strings.Builder
	b.WriteString("@")
	depth := r.Intn(4)
	name, method, at := "", false, 0
	nonce := false
	call := func(iv string) (string, bool) {
		if name == "" {
			return specC26Sink(r, iv)
		}
		args := []string{"k", "a"}
		args = slices.Insert(args, at, iv)
		// another slice which is not the nonce
		args = append(args, gv.Pick(r, "[]byte{9, 9}", "nil", "make([]byte, n)"), "n")
		f := name
		if method {
			f = "new(t" + name + ")." + name
		}
		return f + "(" + strings.Join(args, ", ") + ")", nonce
	}
	for d := 0; d < depth; d++ {
		c, n := call("iv")
		nonce = n
		name, method, at = fmt.Sprintf("w#_%d", d), r.Intn(3) == 0, r.Intn(3)
		params := slices.Insert([]string{"k {crypto/cipher}.Block", "a {crypto/cipher}.AEAD"}, at, "iv []byte")
		if at == 2 && r.Intn(2) == 0 { // declared together
			params = append(params[:2], "iv, data []byte", "n int")
		} else {
			params = append(params, "data []byte", "n int")
		}
		recv := ""
		if method {
			fmt.Fprintf(&b, "type t%s struct{}\n\n", name)
			recv = "(t *t" + name + ") "
		}
		body := c
		if r.Intn(3) == 0 {
			body = "if n > 3 {\n" + c + "\n}"
		}
		if !method && r.Intn(4) == 0 { // recursive
			args := slices.Insert([]string{"k", "a"}, at, "iv")
			body += "\nif n > 0 {\n" + name + "(" + strings.Join(args, ", ") + ", data, n-1)\n}"
		}
		if r.Intn(5) == 0 {
			body += "\n{crypto/cipher}.NewCBCDecrypter(k, data)"
		}
		fmt.Fprintf(&b, "func %s%s(%s) {\n%s\n}\n\n", recv, name, strings.Join(params, ", "), body)
	}
	for u := 0; u < 1+r.Intn(2); u++ {
		decl, stmt, value, fixed := specC26Source(r, fmt.Sprintf("#_%d", u))
		if decl != "" {
			b.WriteString(decl + "\n\n")
		}
		c, n := call(value)
		if fixed && n {
			c = strings.TrimSuffix(strings.Replace(c, "\n", " //!\n", 1), "\n")
			if !strings.Contains(c, "//!") {
				c += " //!"
			}
		}
		if stmt != "" {
			stmt += "\n"
		}
		body := stmt + c
		switch r.Intn(5) {
		case 0:
			body = stmt + "for range n {\n" + c + "\n}"
			if value == "iv" { // a closure would capture it
				break
			}
			body = "func() {\n_ = n\n}()\n" + body
		case 1:
			body = stmt + "if n > 2 {\n" + c + "\n} else {\nprintln(n)\n}"
		}
		fmt.Fprintf(&b, "func use#_%d(%s, s string, n int) {\n%s\n}\n\n", u, common, body)
	}
	return b.String()
}

func gen_C26_nonces(r *gv.Rand) []string {
	var blocks []string
	for range 6 {
		blocks = append(blocks, specC26Block(r))
	}
	return []string{specC15Write(r, blocks, 0)}
}

const budget_C26_nonces = 20

// Fixed nonces are reported where they are handed over, and no others.
func verif_C26_nonces(srcs []string) {
	if !gv.Native() {
		gv.Ensures("nonces are looked at", len(srcs) >= 0)
		return
	}
	gv.NoPanic()
	got := slices.Compact(specC17Run("G407", srcs...))
	want := specC15Want(srcs...)
	gv.Ensures("fixed nonces are reported and no others", slices.Equal(got, want))
}
