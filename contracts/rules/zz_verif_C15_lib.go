package rules

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"path"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/internal/gv"
)

// Stand-ins of the packages the rules know: only paths, names and types matter to the rules.
var specC15Std = map[string]string{
	"net":                          `type Listener interface{ Close() error }; func Listen(a, b string) (Listener, error) { return nil, nil }; func Dial(a, b string) (Listener, error) { return nil, nil }; func ListenPacket(a, b string) (Listener, error) { return nil, nil }`,
	"crypto/tls":                   `type Config struct { InsecureSkipVerify, PreferServerCipherSuites bool; MinVersion, MaxVersion uint16; CipherSuites []uint16; ServerName string }; const ( VersionTLS10 uint16 = 0x0301; VersionTLS11 uint16 = 0x0302; VersionTLS12 uint16 = 0x0303; VersionTLS13 uint16 = 0x0304; VersionSSL30 uint16 = 0x0300; TLS_RSA_WITH_RC4_128_SHA uint16 = 5; TLS_RSA_WITH_AES_128_CBC_SHA uint16 = 0x2f; TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 uint16 = 0xc02f; TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 uint16 = 0xc02c; TLS_AES_128_GCM_SHA256 uint16 = 0x1301 ); type Listener interface{ Close() error }; func Listen(a, b string, c *Config) (Listener, error) { return nil, nil }; func Dial(a, b string, c *Config) (Listener, error) { return nil, nil }`,
	"unsafe":                       "",
	"golang.org/x/crypto/ssh":      `type HostKeyCallback func(string) error; func InsecureIgnoreHostKey() HostKeyCallback { return nil }; func FixedHostKey(s string) HostKeyCallback { return nil }`,
	"net/http/pprof":               `func Index(s string) {}`,
	"net/http/cgi":                 `type Handler struct { Path string }`,
	"net/http":                     `import "time"; type Header map[string][]string; type Handler interface{ ServeHTTP() }; type Response struct { Body interface{ Close() error } }; type Request struct { URL string }; type Client struct{ Timeout int }; func (c *Client) Get(s string) (*Response, error) { return nil, nil }; func (c *Client) Do(r *Request) (*Response, error) { return nil, nil }; type Server struct { Addr string; Handler Handler; ReadHeaderTimeout, ReadTimeout, WriteTimeout, IdleTimeout time.Duration }; func (s *Server) ListenAndServe() error { return nil }; func (s *Server) Serve(l any) error { return nil }; func ListenAndServe(a string, h Handler) error { return nil }; func ListenAndServeTLS(a, b, c string, h Handler) error { return nil }; func Serve(l any, h Handler) error { return nil }; func ServeTLS(l any, h Handler, b, c string) error { return nil }; type Dir string; func FileServer(d Dir) Handler { return nil }; func Handle(s string, h Handler) {}; func Get(s string) (*Response, error) { return nil, nil }; func Head(s string) (*Response, error) { return nil, nil }; func Post(s, t string, b any) (*Response, error) { return nil, nil }; func PostForm(s string, b any) (*Response, error) { return nil, nil }; func NewRequest(m, u string, b any) (*Request, error) { return nil, nil }; const MethodGet = "GET"; type Transport struct{ Timeout int; ReadTimeout int }`,
	"time":                         `type Duration int64; const Second Duration = 1; type Time struct{}; func Now() Time { return Time{} }; func (t Time) UnixNano() int64 { return 0 }`,
	"crypto/cipher":       `type Block interface{ BlockSize() int }; type Stream interface{ XORKeyStream(a, b []byte) }; type BlockMode interface{ CryptBlocks(a, b []byte) }; type AEAD interface { NonceSize() int; Seal(dst, nonce, plaintext, data []byte) []byte; Open(dst, nonce, ciphertext, data []byte) ([]byte, error) }; func NewCBCEncrypter(b Block, iv []byte) BlockMode { return nil }; func NewCBCDecrypter(b Block, iv []byte) BlockMode { return nil }; func NewCFBEncrypter(b Block, iv []byte) Stream { return nil }; func NewCFBDecrypter(b Block, iv []byte) Stream { return nil }; func NewCTR(b Block, iv []byte) Stream { return nil }; func NewOFB(b Block, iv []byte) Stream { return nil }; func NewGCM(b Block) (AEAD, error) { return nil, nil }`,
	"example.com/numbers": `func ParseInt(s string, b, c int) (int64, error) { return 0, nil }`,
	"strconv":                      `func Atoi(s string) (int, error) { return 0, nil }; func ParseInt(s string, b, c int) (int64, error) { return 0, nil }; func ParseUint(s string, b, c int) (uint64, error) { return 0, nil }; func Itoa(i int) string { return "" }; func Quote(s string) string { return "" }`,
	"io":                           `type Reader interface{ Read(b []byte) (int, error) }; type Writer interface{ Write(b []byte) (int, error) }; type ReadCloser interface { Reader; Close() error }; func Copy(w Writer, r Reader) (int64, error) { return 0, nil }; func CopyN(w Writer, r Reader, n int64) (int64, error) { return 0, nil }; func CopyBuffer(w Writer, r Reader, b []byte) (int64, error) { return 0, nil }; func ReadAll(r Reader) ([]byte, error) { return nil, nil }; type PipeWriter struct{}; func (p *PipeWriter) CloseWithError(e error) error { return nil }; func (p *PipeWriter) Close() error { return nil }; func Pipe() (Reader, *PipeWriter) { return nil, nil }; func WriteString(w Writer, s string) (int, error) { return 0, nil }`,
	"io/ioutil":                    `import "os"; func WriteFile(s string, b []byte, p os.FileMode) error { return nil }; func ReadFile(s string) ([]byte, error) { return nil, nil }; func TempFile(a, b string) (*os.File, error) { return nil, nil }`,
	"compress/gzip":                `import "io"; type Reader struct{}; func (r *Reader) Read(b []byte) (int, error) { return 0, nil }; func NewReader(r io.Reader) (*Reader, error) { return nil, nil }`,
	"compress/zlib":                `import "io"; func NewReader(r io.Reader) (io.ReadCloser, error) { return nil, nil }; func NewReaderDict(r io.Reader, d []byte) (io.ReadCloser, error) { return nil, nil }`,
	"compress/bzip2":               `import "io"; func NewReader(r io.Reader) io.Reader { return nil }`,
	"compress/flate":               `import "io"; func NewReader(r io.Reader) io.ReadCloser { return nil }; func NewReaderDict(r io.Reader, d []byte) io.ReadCloser { return nil }`,
	"compress/lzw":                 `import "io"; type Order int; const LSB Order = 0; func NewReader(r io.Reader, o Order, n int) io.ReadCloser { return nil }`,
	"archive/tar":                  `import "io"; type Header struct { Name, Linkname string; Size int64 }; type Reader struct{}; func (r *Reader) Read(b []byte) (int, error) { return 0, nil }; func (r *Reader) Next() (*Header, error) { return nil, nil }; func NewReader(r io.Reader) *Reader { return nil }`,
	"archive/zip":                  `import "io"; type File struct { Name, Comment string }; func (f *File) Open() (io.ReadCloser, error) { return nil, nil }; type Reader struct { File []*File }; func OpenReader(s string) (*Reader, error) { return nil, nil }; func NewReader(r io.Reader, n int64) (*Reader, error) { return nil, nil }`,
	"html/template":                `type ( CSS string; HTML string; HTMLAttr string; JS string; JSStr string; Srcset string; URL string ); func HTMLEscapeString(s string) string { return s }; type Template struct{}; func New(s string) *Template { return nil }`,
	"text/template":                `type ( HTML string; JS string )`,
	"os":                           `type FileMode uint32; const ModePerm FileMode = 0o777; const ( O_RDONLY = 0; O_CREATE = 64; O_WRONLY = 1 ); type File struct{ Name string }; func (f *File) Close() error { return nil }; func (f *File) Write(b []byte) (int, error) { return 0, nil }; func (f *File) Chmod(m FileMode) error { return nil }; var Args []string; var Stdout, Stderr *File; func Mkdir(s string, m FileMode) error { return nil }; func MkdirAll(s string, m FileMode) error { return nil }; func OpenFile(s string, f int, m FileMode) (*File, error) { return nil, nil }; func Chmod(s string, m FileMode) error { return nil }; func Chown(s string, a, b int) error { return nil }; func Create(s string) (*File, error) { return nil, nil }; func CreateTemp(a, b string) (*File, error) { return nil, nil }; func Open(s string) (*File, error) { return nil, nil }; func WriteFile(s string, b []byte, m FileMode) error { return nil }; func ReadFile(s string) ([]byte, error) { return nil, nil }; func TempDir() string { return "" }; func Getenv(s string) string { return "" }; func Unsetenv(s string) error { return nil }; func Setenv(a, b string) error { return nil }; func Remove(s string) error { return nil }`,
	"os/exec":                      `import "context"; type Cmd struct{}; func (c *Cmd) Run() error { return nil }; func (c *Cmd) Start() error { return nil }; func Command(s string, a ...string) *Cmd { return nil }; func CommandContext(c context.Context, s string, a ...string) *Cmd { return nil }; func LookPath(s string) (string, error) { return "", nil }`,
	"golang.org/x/sys/execabs":     `import ("context"; "os/exec"); func Command(s string, a ...string) *exec.Cmd { return nil }; func CommandContext(c context.Context, s string, a ...string) *exec.Cmd { return nil }`,
	"context":                      `type Context interface{ Done() }; func Background() Context { return nil }; func TODO() Context { return nil }`,
	"syscall":                      `type ProcAttr struct{}; func Exec(s string, a, b []string) error { return nil }; func ForkExec(s string, a []string, p *ProcAttr) (int, error) { return 0, nil }; func StartProcess(s string, a []string, p *ProcAttr) (int, uintptr, error) { return 0, 0, nil }; func Getpid() int { return 0 }`,
	"path":                         `func Join(s ...string) string { return "" }; func Base(s string) string { return "" }; func Clean(s string) string { return s }`,
	"path/filepath":                `func Join(s ...string) string { return "" }; func Base(s string) string { return "" }; func Clean(s string) string { return s }; func Rel(a, b string) (string, error) { return a, nil }; func EvalSymlinks(a string) (string, error) { return a, nil }`,
	"crypto/md5":                   `type Hash interface{ Write(b []byte) (int, error); Sum(b []byte) []byte }; func New() Hash { return nil }; func Sum(b []byte) [16]byte { return [16]byte{} }; const Size = 16`,
	"crypto/sha1":                  `type Hash interface{ Write(b []byte) (int, error); Sum(b []byte) []byte }; func New() Hash { return nil }; func Sum(b []byte) [16]byte { return [16]byte{} }; const Size = 20`,
	"crypto/sha256":                `type Hash interface{ Write(b []byte) (int, error); Sum(b []byte) []byte }; func New() Hash { return nil }; func Sum256(b []byte) [16]byte { return [16]byte{} }; func Sum(b []byte) [16]byte { return [16]byte{} }; const Size = 20`,
	"crypto/des":                   `func NewCipher(b []byte) (any, error) { return nil, nil }; func NewTripleDESCipher(b []byte) (any, error) { return nil, nil }; const BlockSize = 8`,
	"crypto/rc4":                   `func NewCipher(b []byte) (any, error) { return nil, nil }`,
	"crypto/aes":                   `func NewCipher(b []byte) (any, error) { return nil, nil }; const BlockSize = 8`,
	"golang.org/x/crypto/md4":      `func New() any { return nil }; const Size = 16`,
	"golang.org/x/crypto/ripemd160": `func New() any { return nil }; const Size = 16`,
	"golang.org/x/crypto/sha3":     `func New() any { return nil }; const Size = 16`,
	"crypto/rsa":                   `type PrivateKey struct{}; func GenerateKey(r any, n int) (*PrivateKey, error) { return nil, nil }; func GenerateMultiPrimeKey(r any, k, n int) (*PrivateKey, error) { return nil, nil }`,
	"crypto/rand":                  `var Reader any; func Read(b []byte) (int, error) { return 0, nil }; func Int(r any, n any) (any, error) { return nil, nil }; func Text() string { return "" }`,
	"math/rand":                    `type Source interface{ Int63() int64 }; type Rand struct{}; func (r *Rand) Intn(n int) int { return 0 }; func NewSource(s int64) Source { return nil }; func New(s Source) *Rand { return nil }; func Read(b []byte) (int, error) { return 0, nil }; func Float32() float32 { return 0 }; func Float64() float64 { return 0 }; func Int() int { return 0 }; func Int31() int32 { return 0 }; func Int31n(n int32) int32 { return 0 }; func Int63() int64 { return 0 }; func Int63n(n int64) int64 { return 0 }; func Intn(n int) int { return 0 }; func NormFloat64() float64 { return 0 }; func Uint32() uint32 { return 0 }; func Uint64() uint64 { return 0 }; func Seed(n int64) {}`,
	"math/rand/v2":                 `type Source interface{ Uint64() uint64 }; type Rand struct{}; func (r *Rand) IntN(n int) int { return 0 }; func NewPCG(a, b uint64) Source { return nil }; func New(s Source) *Rand { return nil }; func Float32() float32 { return 0 }; func Float64() float64 { return 0 }; func Int() int { return 0 }; func Int32() int32 { return 0 }; func Int32N(n int32) int32 { return 0 }; func Int64() int64 { return 0 }; func Int64N(n int64) int64 { return 0 }; func IntN(n int) int { return 0 }; func N(n int) int { return 0 }; func NormFloat64() float64 { return 0 }; func Uint32() uint32 { return 0 }; func Uint32N(n uint32) uint32 { return 0 }; func Uint64() uint64 { return 0 }; func Uint64N(n uint64) uint64 { return 0 }; func UintN(n uint) uint { return 0 }`,
	"bytes":                        `type Buffer struct{}; func (b *Buffer) Write(p []byte) (int, error) { return 0, nil }; func (b *Buffer) WriteByte(c byte) error { return nil }; func (b *Buffer) WriteRune(c rune) (int, error) { return 0, nil }; func (b *Buffer) WriteString(s string) (int, error) { return 0, nil }; func (b *Buffer) ReadByte() (byte, error) { return 0, nil }; func (b *Buffer) Read(p []byte) (int, error) { return 0, nil }; func (b *Buffer) Len() int { return 0 }`,
	"strings":                      `type Builder struct{}; func (b *Builder) Write(p []byte) (int, error) { return 0, nil }; func (b *Builder) WriteByte(c byte) error { return nil }; func (b *Builder) WriteRune(c rune) (int, error) { return 0, nil }; func (b *Builder) WriteString(s string) (int, error) { return 0, nil }; func (b *Builder) String() string { return "" }; func ToUpper(s string) string { return s }`,
	"hash":                         `type Hash interface{ Write(b []byte) (int, error); Sum(b []byte) []byte }; func New() Hash { return nil }`,
	"fmt":                          `import "io"; func Print(a ...any) (int, error) { return 0, nil }; func Printf(s string, a ...any) (int, error) { return 0, nil }; func Println(a ...any) (int, error) { return 0, nil }; func Fprint(w io.Writer, a ...any) (int, error) { return 0, nil }; func Fprintf(w io.Writer, s string, a ...any) (int, error) { return 0, nil }; func Fprintln(w io.Writer, a ...any) (int, error) { return 0, nil }; func Sprint(a ...any) string { return "" }; func Sprintf(s string, a ...any) string { return "" }; func Sprintln(a ...any) string { return "" }; func Errorf(s string, a ...any) error { return nil }; func Sscan(s string, a ...any) (int, error) { return 0, nil }`,
	"database/sql":                 `import "context"; type DB struct{}; type Tx struct{}; type Rows struct{}; type Row struct{}; type Stmt struct{}; func (r *Row) Scan(a ...any) error { return nil }; func Open(a, b string) (*DB, error) { return nil, nil }; func (d *DB) Begin() (*Tx, error) { return nil, nil }; ` + specC15SQL("DB") + specC15SQL("Tx"),
	"github.com/lib/pq":            `func QuoteIdentifier(s string) string { return s }; func QuoteLiteral(s string) string { return s }`,
	"math":                         `const ( MaxInt8 = 127; MinInt8 = -128; MaxInt16 = 32767; MinInt16 = -32768; MaxInt32 = 1<<31-1; MinInt32 = -1<<31; MaxInt64 = 1<<63-1; MinInt64 = -1<<63; MaxUint8 = 255; MaxUint16 = 65535; MaxUint32 = 1<<32-1; MaxUint64 = 1<<64-1; MaxInt = 1<<63-1 )`,
}

func specC15SQL(t string) string {
	s := ""
	for _, f := range []string{"Exec(q string, a ...any) (any, error)", "ExecContext(c context.Context, q string, a ...any) (any, error)", "Query(q string, a ...any) (*Rows, error)", "QueryContext(c context.Context, q string, a ...any) (*Rows, error)", "Prepare(q string) (*Stmt, error)", "PrepareContext(c context.Context, q string) (*Stmt, error)"} {
		s += "func (d *" + t + ") " + f + " { return nil, nil }; "
	}
	for _, f := range []string{"QueryRow(q string, a ...any) *Row", "QueryRowContext(c context.Context, q string, a ...any) *Row"} {
		s += "func (d *" + t + ") " + f + " { return nil }; "
	}
	return s + "func (d *" + t + ") Log(q string) error { return nil }; "
}

type specC15Importer struct{ done map[string]*types.Package }

var specC15Packages = &specC15Importer{map[string]*types.Package{}}

var _ = importer.Default

func specC15Name(p string) string {
	if path.Base(p) == "v2" {
		p = path.Dir(p)
	}
	return path.Base(p)
}

func (i *specC15Importer) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if t := i.done[p]; t != nil {
		return t, nil
	}
	src, ok := specC15Std[p]
	if !ok {
		return nil, fmt.Errorf("no package %s", p)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p+".go", "package "+specC15Name(p)+"\n"+src, 0)
	if err != nil {
		panic(p + ": " + err.Error())
	}
	conf := types.Config{Importer: i}
	t, err := conf.Check(p, fset, []*ast.File{f}, nil)
	if err != nil {
		panic(p + ": " + err.Error())
	}
	i.done[p] = t
	return t, nil
}

// specC15Load parses and checks a package of one or more files.
func specC15Load(srcs ...string) *packages.Package {
	fset := token.NewFileSet()
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	var files []*ast.File
	for k, src := range srcs {
		f, err := parser.ParseFile(fset, fmt.Sprintf("/nowhere/f%d.go", k), src, parser.ParseComments)
		if err != nil {
			panic(err.Error() + "\n" + src)
		}
		files = append(files, f)
	}
	var hard []string
	conf := types.Config{Importer: specC15Packages, DisableUnusedImportCheck: true, Error: func(err error) {
		if !strings.Contains(err.Error(), "declared and not used") {
			hard = append(hard, err.Error())
		}
	}}
	pkg, _ := conf.Check("example.com/p", fset, files, info)
	if hard != nil {
		panic(strings.Join(hard, "\n") + "\n" + strings.Join(srcs, "\n----\n"))
	}
	return &packages.Package{ID: "example.com/p", Name: "p", PkgPath: "example.com/p", Fset: fset, Syntax: files, Types: pkg, TypesInfo: info}
}

// specC15Run searches a package with one rule and lists where it reports something: file*100000+line.
func specC15Run(id string, conf gosec.Config, srcs ...string) []int {
	an := gosec.NewAnalyzer(conf, false, false, false, 1, log.New(io.Discard, "", 0))
	list := Generate(false, NewRuleFilter(false, id))
	defs, sup := list.RulesInfo()
	an.LoadRules(defs, sup)
	an.CheckRules(specC15Load(srcs...))
	issues, _, _ := an.Report()
	var got []int
	for _, i := range issues {
		if i.RuleID != id {
			got = append(got, -1)
			continue
		}
		l, _, _ := strings.Cut(i.Line, "-")
		n, _ := strconv.Atoi(l)
		k, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(i.File, "/nowhere/f"), ".go"))
		got = append(got, k*100000+n)
	}
	slices.Sort(got)
	return got
}

// specC15Want lists the marked lines of a package; //! marks one finding, //!! two.
func specC15Want(srcs ...string) []int {
	var want []int
	for k, src := range srcs {
		for n, l := range strings.Split(src, "\n") {
			if _, m, ok := strings.Cut(l, "//!"); ok {
				for range len(m) + 1 {
					want = append(want, k*100000+n+1)
				}
			}
		}
	}
	slices.Sort(want)
	return want
}

var (
	specC15PkgRef = regexp.MustCompile(`\{[a-z0-9./]+\}`)
	specC15Alias  = []string{"md5", "rand", "os", "tls", "http", "net", "exec", "sha256", "x", "p", "gzip", "New", "_ä", "fmt", "io", "sql", "filepath"}
)

// specC15Write puts randomly chosen blocks into a file: each block is a function body or, if it starts with @, a declaration.
// {path} stands for a local name of the import of path, # for a number of its own.
func specC15Write(r *gv.Rand, blocks []string, file int) string {
	names := map[string][]string{}
	taken := map[string]bool{"string": true}
	var imports []string
	local := func(p string) string {
		if len(names[p]) == 0 || r.Intn(12) == 0 {
			n := specC15Name(p)
			spec := strconv.Quote(p)
			if r.Intn(10) == 0 {
				spec = "`" + p + "`"
			}
			if r.Intn(3) == 0 || taken[n] {
				for n = specC15Alias[r.Intn(len(specC15Alias))]; taken[n]; {
					n += "q"
				}
				spec = n + " " + spec
			}
			taken[n] = true
			names[p] = append(names[p], n)
			imports = append(imports, spec)
		}
		return names[p][r.Intn(len(names[p]))]
	}
	var body strings.Builder
	num := file * 1000
	for range 1 + r.Intn(6) {
		b := blocks[r.Intn(len(blocks))]
		num++
		b = strings.ReplaceAll(strings.Trim(b, "\n"), "#", strconv.Itoa(num))
		b = specC15PkgRef.ReplaceAllStringFunc(b, func(m string) string { return local(m[1 : len(m)-1]) })
		if rest, ok := strings.CutPrefix(b, "@"); ok {
			body.WriteString(strings.TrimPrefix(rest, "\n") + "\n\n")
			continue
		}
		switch r.Intn(6) {
		case 0:
			b = "if n > 0 {\n" + b + "\n}"
		case 1:
			b = "func() {\n" + b + "\n}()"
		case 2:
			b = "for range n {\n" + b + "\n}"
		case 3:
			b = "switch {\ncase n > 1:\n" + b + "\n}"
		}
		recv := ""
		if r.Intn(4) == 0 {
			recv = "(t T" + strconv.Itoa(file) + ") "
		}
		body.WriteString("func " + recv + "f" + strconv.Itoa(num) + "(b []byte, s string, n int, w any, e error) {\n" + b + "\n}\n\n")
	}
	head := "package p\n\n"
	switch {
	case r.Intn(2) == 0 && len(imports) > 0:
		head += "import (\n\t" + strings.Join(imports, "\n\t") + "\n)\n\n"
	default:
		for _, i := range imports {
			head += "import " + i + "\n"
		}
	}
	return head + "type T" + strconv.Itoa(file) + " struct{}\n\n" + body.String()
}

func specC15Blocks(s string) []string {
	return strings.Split(strings.Trim(s, "\n"), "\n\n")
}

func splitLines(s string) []string { return strings.Split(s, "\n") }
