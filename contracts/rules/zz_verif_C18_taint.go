package rules

import (
	"fmt"
	"slices"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
)

//gv:uses C15

// What the injection rules report, by example: lines marked //! are reported, and no others.
var specC18Table = map[string]string{
	"G107": `
_, _ = {net/http}.Get("https://example.com")
_, _ = {net/http}.Get(s) //!
_, _ = {net/http}.Head("https://example.com")
_, _ = {net/http}.Post("https://example.com", s, nil)

url := {os}.Getenv("tainted")
_, _ = {net/http}.Get(url) //!
_, _ = {net/http}.Head(url) //!
_, _ = {net/http}.Post(url, s, nil) //!
_, _ = {net/http}.PostForm(url, nil) //!
_, _ = {net/http}.NewRequest({net/http}.MethodGet, url, nil)

url := "https://example.com"
_, _ = {net/http}.Get(url)
_, _ = {net/http}.Head(url)

const url = "https://example.com"
_, _ = {net/http}.Get(url)
_, _ = {net/http}.PostForm(url, nil)

url := "https://example.com/" + {os}.Args[1]
_, _ = {net/http}.Get(url) //!

var a, u = "https://example.com", s
_, _ = {net/http}.Get(u) //!
_ = a

var a, u = s, "https://example.com"
_, _ = {net/http}.Get(a) //!
_ = u

var a, u = "https://example.com", "https://example.com/b"
_, _ = {net/http}.Get(u)
_, _ = {net/http}.Get(a)

base := "https://example.com"
url := base + "/x"
_, _ = {net/http}.Get(url)

@
var url# = "https://example.com"
const curl# = "https://example.com"
func g#() {
	_, _ = {net/http}.Get(url#) //!
	_, _ = {net/http}.Get(curl#)
}

c := &{net/http}.Client{}
u := {os}.Getenv(s)
_, _ = c.Get(u)
`,
	"G201": `
var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", s)
_, _ = db.Query(q) //!-1

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where id = %d", n)
_, _ = db.Query(q)

var db *{database/sql}.DB
q := {fmt}.Sprintf("hello %s", s)
_, _ = db.Exec(q)

const c = "a"
var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", c)
_, _ = db.Query(q)

const c = "a"
var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM %s where name = '%s'", c, s)
_, _ = db.Exec(q) //!-1

var db *{database/sql}.DB
tx, _ := db.Begin()
q := {fmt}.Sprintf("DELETE FROM foo where name = '%v'", s)
_, _ = tx.Exec(q) //!-1

var db *{database/sql}.DB
q := {fmt}.Sprintf("UPDATE foo SET name = '%q'", s)
_, err := db.ExecContext({context}.Background(), q) //!-1
_ = err

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where " + "name = '%s'", s)
_, _ = db.QueryContext({context}.Background(), q) //!-1

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM %s", {github.com/lib/pq}.QuoteIdentifier(s))
_, _ = db.Query(q)

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM %s where name = '%s'", {github.com/lib/pq}.QuoteIdentifier(s), s)
_, _ = db.Query(q) //!-1

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", s)
_ = db.QueryRow(q) //!-1

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", s)
err := db.QueryRow(q).Scan(&n) //!-1
_ = err

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", s)
_, _ = db.Prepare(q) //!-1

var db *{database/sql}.DB
q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", s)
_ = db.Log(q)

var db *{database/sql}.DB
_, _ = db.Query("SELECT * FROM foo where name = ?", s)

q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", s)
_ = q

@
type other# struct{}
func (other#) Query(q string) (int, error) { return 0, nil }
func g#(s string) {
	var db other#
	q := {fmt}.Sprintf("SELECT * FROM foo where name = '%s'", s)
	_, _ = db.Query(q)
}
`,
	"G202": `
var db *{database/sql}.DB
_, _ = db.Query("SELECT * FROM foo WHERE name = " + s) //!
_, _ = db.Query("SELECT * FROM foo WHERE name = '" + s + "'") //!
_, _ = db.Query("SELECT * FROM foo WHERE name = " + "a")
_, _ = db.Query("SELECT * FROM foo WHERE name = ?", s)
_, _ = db.Exec("DELETE FROM foo WHERE name = " + {os}.Args[1]) //!
_, _ = db.ExecContext({context}.Background(), "delete from foo where name = " + {os}.Args[1]) //!
_ = db.QueryRow("SELECT age FROM foo WHERE name = " + s) //!
_, _ = db.Prepare("INSERT INTO foo " + s) //!
_, _ = db.Query("hello " + s)
_ = db.Log("SELECT * FROM foo WHERE name = " + s)

const c = "a"
var db *{database/sql}.DB
_, _ = db.Query("SELECT * FROM foo WHERE name = " + c)
_, _ = db.Query("SELECT * FROM " + c + " WHERE name = " + s) //!
tx, _ := db.Begin()
_, _ = tx.Query("SELECT * FROM foo WHERE name = " + s) //!
_, _ = tx.Query("SELECT * FROM foo WHERE name = " + c)
tx.QueryRowContext({context}.TODO(), "SELECT * FROM foo WHERE name = " + s) //!

var db *{database/sql}.DB
q := "SELECT * FROM foo WHERE name = '" + {os}.Args[0] + "' AND 1=1"
_, _ = db.Query(q) //!-1

var db *{database/sql}.DB
q := "SELECT * FROM foo WHERE name = 'a'"
_, _ = db.Query(q)

@
const con# = "name"
var vari# = "name"
func g#() {
	var db *{database/sql}.DB
	_, _ = db.Query("SELECT * FROM foo WHERE x = " + con#)
	_, _ = db.Query("SELECT * FROM foo WHERE x = " + vari#) //!
}

@
type other# struct{}
func (other#) Query(q string) (int, error) { return 0, nil }
func g#(s string) {
	var db other#
	_, _ = db.Query("SELECT * FROM foo WHERE x = " + s)
}
`,
	"G204": `
_ = {os/exec}.Command("ls", "-l")
_ = {os/exec}.Command("sh", "-c", {os}.Args[1]) //!
_ = {os/exec}.Command({os}.Getenv("x")) //!
_, _ = {os/exec}.LookPath({os}.Getenv("x"))

run := "sleep" + {os}.Getenv("SOMETHING")
_ = {os/exec}.Command(run, "5") //!
_ = {os/exec}.Command("echo", run) //!

run := "sleep"
_ = {os/exec}.Command(run, "5")
_ = {golang.org/x/sys/execabs}.Command(run, "5")

const run = "sleep"
_ = {os/exec}.Command(run, "5")
_ = {syscall}.Exec(run, nil, nil)

ctx := {context}.Background()
_ = {os/exec}.CommandContext(ctx, "ls")
_ = {os/exec}.CommandContext(ctx, {os}.Args[0]) //!
_ = {golang.org/x/sys/execabs}.CommandContext(ctx, "ls")
_ = {golang.org/x/sys/execabs}.CommandContext(ctx, {os}.Args[0]) //!

_ = {os/exec}.CommandContext({context}.Background(), "ls")
_ = {golang.org/x/sys/execabs}.CommandContext({context}.TODO(), "ls", "-l")

var run = {os}.Getenv("x")
_ = {os/exec}.Command(run) //!
_ = {golang.org/x/sys/execabs}.Command(run) //!

var c, d = "ls", {os}.Getenv("x")
_ = {os/exec}.Command("ls", d) //!
_ = {golang.org/x/sys/execabs}.Command(d) //!
_ = c

var c, d = {os}.Getenv("x"), "ls"
_ = {os/exec}.Command(c) //!
_ = d

a := "x"
b2 := a + "y"
_ = {os/exec}.Command(b2)
_ = {os/exec}.Command("a", "x" + a)

@
var cmd# = "ls"
func g#(p string) {
	_ = {os/exec}.Command(cmd#)
}

@
type exec# struct{}
func (exec#) Command(s string) {}
func g#(x exec#) {
	x.Command({os}.Args[0])
}
`,
	"G304": `
_, _ = {os}.Open("/etc/passwd")
_, _ = {os}.Open("/a" + "/b")
_, _ = {os}.Open({os}.Getenv("x"))
_, _ = {os}.Open({path/filepath}.Join("/a", "b"))

f := {os}.Getenv("tainted_file")
_, _ = {os}.ReadFile(f) //!
_, _ = {os}.Open(f) //!
_, _ = {os}.OpenFile(f, n, 0o600) //!
_, _ = {os}.Create(f) //!
_, _ = {io/ioutil}.ReadFile(f) //!
_ = {os}.WriteFile(f, nil, 0o600)
_ = {os}.Remove(f)

f := {os}.Getenv("tainted_file")
_, _ = {os}.ReadFile("/tmp/" + f) //!
_, _ = {os}.Open("/tmp/" + f + "/blob") //!
_, _ = {os}.Open({path/filepath}.Join("/tmp/", f)) //!
_, _ = {io/ioutil}.ReadFile({path}.Join("/tmp/", f, "x")) //!
_, _ = {os}.Open({path/filepath}.Join("/tmp/" + f, "x")) //!

f := "/etc/passwd"
_, _ = {os}.Open(f)
_, _ = {os}.Open({path/filepath}.Join("/a", f))

const f = "/etc/passwd"
_, _ = {os}.Open(f)
_, _ = {os}.ReadFile("/a" + f)

f := {path/filepath}.Clean({os}.Getenv("x"))
_, _ = {os}.Open(f)

f := {os}.Getenv("x")
{path/filepath}.Clean(f)
_, _ = {os}.Open(f)

f := {path}.Clean({os}.Getenv("x"))
_, _ = {os}.Open(f) //!

f, _ := {path/filepath}.EvalSymlinks({os}.Getenv("x"))
_, _ = {os}.Open(f)

f, _ := {path/filepath}.Rel("/", {os}.Getenv("x"))
_, _ = {os}.ReadFile(f)
`,
}

func specC18Want(srcs ...string) []int {
	var want []int
	for k, src := range srcs {
		for n, l := range strings.Split(src, "\n") {
			if _, m, ok := strings.Cut(l, "//!"); ok {
				if m == "-1" {
					n--
				}
				want = append(want, k*100000+n+1)
			}
		}
	}
	slices.Sort(want)
	return want
}

func gen_C18_taint(r *gv.Rand) (string, []string) {
	id := gv.Pick(r, "G107", "G201", "G202", "G204", "G304")
	blocks := specC15Blocks(specC18Table[id])
	srcs := []string{specC15Write(r, blocks, 0)}
	for r.Intn(4) == 0 {
		srcs = append(srcs, specC15Write(r, blocks, len(srcs)))
	}
	return id, srcs
}

const budget_C18_taint = 15

// bounded: packages made of the examples above, under any import names and in any order.
func verif_C18_taint(id string, srcs []string) {
	if !gv.Native() {
		gv.Ensures("a rule is run", id == id)
		return
	}
	got, want := specC15Run(id, gosec.NewConfig(), srcs...), specC18Want(srcs...)
	gv.Ensures(fmt.Sprintf("exactly the marked lines are reported (%v instead of %v)", got, want), slices.Equal(got, want))
}
