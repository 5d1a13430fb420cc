package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/securego/gosec/v2"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	outDir   = ""
	verbose  bool
)

// overlayFiles maps files of /repo to the contract files shown in their place.
func overlayFiles(prop string) (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(verifDir, "contracts")
	want := map[string]bool{prop: true}
	for n := range sharedContracts(prop) {
		want[strings.Split(n, "_")[1]] = true
	}
	// a file's line "//gv:uses ID ..." brings in the contracts of other properties,
	// which are used at call sites and proved by those properties' own checks
	for again := true; again; {
		again = false
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return err
			}
			if ps := strings.Split(filepath.Base(p), "_"); len(ps) < 3 || !want[ps[2]] {
				return nil
			}
			b, _ := os.ReadFile(p)
			for _, ln := range strings.Split(string(b), "\n") {
				if u, ok := strings.CutPrefix(ln, "//gv:uses "); ok {
					for _, id := range strings.Fields(u) {
						again = again || !want[id]
						want[id] = true
					}
				}
			}
			return nil
		})
	}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		base := filepath.Base(p)
		dir := filepath.Dir(rel)
		if dir == "gv" {
			out[filepath.Join(repoDir, "internal/gv", base)] = p
			return nil
		}
		// zz_verif_<ID>_x.go belongs to a property, zz_verif_common_x.go to all
		parts := strings.Split(strings.TrimSuffix(base, ".go"), "_")
		if len(parts) < 3 || parts[0] != "zz" || parts[1] != "verif" {
			return nil
		}
		if !want[parts[2]] {
			return nil
		}
		if dir == "root" {
			dir = "."
		}
		out[filepath.Join(repoDir, dir, base)] = p
		return nil
	})
	return out, err
}

// sharedContracts are contracts of other properties which a property rests on too: lines "ID contract ..." of
// contracts/shared.txt.
func sharedContracts(prop string) map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "contracts", "shared.txt"))
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) > 1 && f[0] == prop {
			for _, n := range f[1:] {
				out["verif_"+n] = true
			}
		}
	}
	return out
}

func ownContract(prop, name string) bool {
	return strings.HasPrefix(name, "verif_"+prop+"_") || sharedContracts(prop)[name]
}

type Harness struct {
	name string
	fn   *ssa.Function
	file string
	pkg  *packages.Package
}

type loaded struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	harnesses []*Harness
	dropped   []string // contract declarations that no longer type-check
	overlay   map[string]string
	broken    []string
	content   map[string][]byte
}

func load(prop string) (*loaded, error) {
	ov, err := overlayFiles(prop)
	if err != nil {
		return nil, err
	}
	content := map[string][]byte{}
	dirs := map[string]bool{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		content[dst] = b
		if !strings.Contains(dst, "/internal/gv/") {
			dirs[filepath.Dir(dst)] = true
		}
	}
	var pats []string
	for d := range dirs {
		pats = append(pats, d)
	}
	sort.Strings(pats)
	ld := &loaded{overlay: ov, content: content}
	pats = append(pats, "./internal/gv")
	pats = append(pats, repoDeps(pats)...)
	for try := 0; ; try++ {
		cfg := &packages.Config{
			Mode:    packages.LoadSyntax | packages.NeedModule,
			Dir:     repoDir,
			Overlay: content,
			Env:     append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local"),
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []packages.Error
		for _, p := range pkgs {
			errs = append(errs, p.Errors...)
		}
		if len(errs) == 0 {
			// errors of dependencies (e.g. of a build that was interrupted) leave packages ill-typed
			ill := ""
			packages.Visit(pkgs, nil, func(p *packages.Package) {
				if p.IllTyped && ill == "" || len(p.Errors) > 0 {
					ill = fmt.Sprint(p.PkgPath, " ", p.Errors)
				}
			})
			if ill == "" || try >= 3 {
				ld.pkgs = pkgs
				break
			}
			fmt.Fprintln(os.Stderr, "gover: loading again:", ill)
			continue
		}
		if try > 6 {
			return nil, fmt.Errorf("load: %v", errs[0])
		}
		fixed := false
		for _, e := range errs {
			if ld.dropDecl(content, e) {
				fixed = true
			}
		}
		if !fixed {
			return nil, fmt.Errorf("load: %v", errs)
		}
	}
	var prog *ssa.Program
	prog, _ = ssautil.Packages(ld.pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	prog.Build()
	ld.prog = prog
	for _, p := range ld.pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			fmt.Fprintln(os.Stderr, "gover: not loaded:", p.PkgPath, p.IllTyped, len(p.Syntax), p.GoFiles)
			continue
		}
		for name, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !ownContract(prop, name) || !isContractFn(f) {
				continue
			}
			ld.harnesses = append(ld.harnesses, &Harness{name: name, fn: f, file: prog.Fset.Position(f.Pos()).Filename, pkg: p})
		}
	}
	sort.Slice(ld.harnesses, func(i, j int) bool { return ld.harnesses[i].name < ld.harnesses[j].name })
	return ld, nil
}

// repoDeps lists the repository packages (transitively) imported from the given directories.
func repoDeps(pats []string) []string {
	seen := map[string]bool{}
	var out []string
	var visit func(dir string)
	visit = func(dir string) {
		fset := token.NewFileSet()
		es, _ := os.ReadDir(dir)
		var files []string
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				files = append(files, filepath.Join(dir, e.Name()))
			}
		}
		for _, f := range files {
			af, err := parser.ParseFile(fset, f, nil, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, im := range af.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				if p != modPath && !strings.HasPrefix(p, modPath+"/") || seen[p] {
					continue
				}
				seen[p] = true
				d := filepath.Join(repoDir, strings.TrimPrefix(p, modPath))
				out = append(out, d)
				visit(d)
			}
		}
	}
	for _, p := range pats {
		if filepath.IsAbs(p) {
			visit(p)
		}
	}
	return out
}

// dropDecl blanks the contract declaration that holds a type error.
func (ld *loaded) dropDecl(content map[string][]byte, e packages.Error) bool {
	parts := strings.Split(e.Pos, ":")
	if len(parts) < 2 {
		return false
	}
	file := parts[0]
	src, ok := content[file]
	if !ok || strings.Contains(file, "/internal/gv/") {
		return false
	}
	line, _ := strconv.Atoi(parts[1])
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return false
	}
	for _, d := range af.Decls {
		from, to := fset.Position(d.Pos()), fset.Position(d.End())
		if line < from.Line || line > to.Line {
			continue
		}
		name := "declaration"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			// an unused import after dropping a declaration: blank it
			for _, s := range gd.Specs {
				if fset.Position(s.Pos()).Line == line {
					is := s.(*ast.ImportSpec)
					b := append([]byte{}, src...)
					lit := "_ " + is.Path.Value
					off, end := fset.Position(is.Pos()).Offset, fset.Position(is.End()).Offset
					content[file] = append(append(append([]byte{}, b[:off]...), lit...), b[end:]...)
					return true
				}
			}
			return false
		}
		b := append([]byte{}, src...)
		for i := from.Offset; i < to.Offset; i++ {
			if b[i] != '\n' {
				b[i] = ' '
			}
		}
		content[file] = b
		ld.dropped = append(ld.dropped, fmt.Sprintf("%s: %s", name, e.Msg))
		return true
	}
	return false
}

// ---- package initialisers ----

type initInfo struct {
	globals  map[string]*Term
	n        int64
	notes    []string
	heapSort map[string]Sort
}

var theInit *initInfo

func runInits(ld *loaded) {
	x := newExec(ld.prog)
	x.initMode = true
	st := &State{pc: tTrue, heap: map[string]*Term{}, alloc: mkInt(1)}
	mutable := mutatedGlobals(ld)
	done := map[*types.Package]bool{}
	initPkgs := map[string]bool{}
	for _, p := range ld.pkgs {
		initPkgs[p.PkgPath] = true
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] || !initPkgs[p.Path()] {
			return
		}
		done[p] = true
		for _, im := range p.Imports() {
			visit(im)
		}
		sp := ld.prog.Package(p)
		if sp == nil || sp.Func("init") == nil {
			return
		}
		st.heap["G:"+sp.Var("init$guard").RelString(nil)] = tFalse
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						x.note("package init of " + p.Path() + " not evaluated: " + u.msg)
						return
					}
					x.note(fmt.Sprintf("package init of %s not evaluated: internal: %v", p.Path(), r))
				}
			}()
			_, n := x.execFn(sp.Func("init"), nil, nil, st)
			if n.pc == tTrue {
				adopt(st, n)
			} else {
				x.note("package init of " + p.Path() + " not straight-line")
			}
		}()
	}
	for _, p := range ld.pkgs {
		visit(p.Types)
	}
	info := &initInfo{globals: map[string]*Term{}, heapSort: x.heapSort}
	if isInt(st.alloc) {
		info.n = st.alloc.iv.Int64()
	} else {
		info.n = 1
		x.note("package init allocation count unknown")
	}
	selMemo = map[[2]int]*Term{}
	drop := map[*Term]bool{}
	for k, v := range st.heap {
		if strings.HasPrefix(k, "G:") {
			if mutable[k] {
				if v.sort == SSl {
					drop[slArr(v)] = true
				}
				drop[v] = true
				continue
			}
			info.globals[k] = v
		}
	}
	if info.n > 1 {
		for k, v := range st.heap {
			if strings.HasPrefix(k, "G:") || isLocalKey(k) || strings.HasPrefix(k, "EV:") {
				continue
			}
			base := mkVar("H0:"+k, v.sort)
			m := map[*Term]*Term{}
			t := v
			for t.op == "store" {
				i := t.args[1]
				if isInt(i) && m[i] == nil && !drop[i] {
					m[i] = t.args[2]
				}
				t = t.args[0]
			}
			heapConst[base] = m
		}
	}
	for n := range x.notes {
		info.notes = append(info.notes, n)
	}
	sort.Strings(info.notes)
	if verbose {
		fmt.Fprintln(os.Stderr, "init:", info.n, "objects,", len(info.globals), "globals;", info.notes)
	}
	theInit = info
}

// mutatedGlobals finds globals written, or whose contents are written, outside init.
func mutatedGlobals(ld *loaded) map[string]bool {
	out := map[string]bool{}
	for f := range ssautil.AllFunctions(ld.prog) {
		if !isRepoFn(f) || f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					k := "G:" + g.RelString(nil)
					switch in := in.(type) {
					case *ssa.UnOp:
						if in.Op == token.MUL {
							if mutates(in, 0) {
								out[k] = true
							}
							continue
						}
						out[k] = true
					case *ssa.FieldAddr:
						if writesThrough(in, 0) {
							out[k] = true
						}
					case *ssa.DebugRef:
					default:
						out[k] = true
					}
				}
			}
		}
	}
	return out
}

func writesThrough(v ssa.Value, d int) bool {
	if d > 6 {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op == token.MUL && mutates(r, d+1) {
				return true
			}
		case *ssa.FieldAddr:
			if writesThrough(r, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(r, d+1) {
				return true
			}
		case *ssa.Store:
			return r.Addr == v || true
		case *ssa.DebugRef:
		default:
			// address passed to a call: methods with pointer receivers (e.g. a mutex, a regexp)
			if _, ok := r.(ssa.CallInstruction); ok {
				return true
			}
		}
	}
	return false
}

func mutates(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				return true
			}
		case *ssa.FieldAddr:
			if writesThrough(r, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(r, d+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "append" || b.Name() == "clear" || b.Name() == "copy") {
				return true
			}
		}
	}
	return false
}

// ---- running one harness ----

type Result struct {
	h         *Harness
	x         *Exec
	obls      []*Oblig // non-candidate obligations
	failed    []*Oblig
	unsup     string
	cands     int
	kept      int
	candObls  int
	rounds    int
	secs      float64
	vacuous   []string
	modelInts []int64
}

func runHarness(ld *loaded, h *Harness, all []*Harness) (res *Result) {
	t0 := time.Now()
	x := newExec(ld.prog)
	res = &Result{h: h, x: x}
	defer func() { res.secs = time.Since(t0).Seconds() }()
	x.alloc0 = mkVar("A0", SInt)
	initLimit = theInit.n
	x.axiom(mkLe(mkInt(theInit.n+1), x.alloc0))
	for k, v := range theInit.globals {
		x.baseHeap[k] = v
	}
	st := &State{pc: tTrue, heap: map[string]*Term{}, alloc: x.alloc0}
	x.harness = h.fn
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if u, isU := r.(unsupported); isU {
					res.unsup = u.msg
					if p := x.prog.Fset.Position(x.curPos); p.IsValid() {
						res.unsup += " (near " + strings.TrimPrefix(p.Filename, repoDir+"/") + ":" + strconv.Itoa(p.Line) + ")"
					}
					return
				}
				res.unsup = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GOVER_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
				}
			}
		}()
		var args []*Term
		for _, p := range h.fn.Params {
			v := mkVar("p."+p.Name(), sortOf(p.Type()))
			x.typeFacts(st, v, p.Type())
			args = append(args, v)
		}
		_, n := x.execFn(h.fn, args, nil, st)
		if n.pc != tFalse {
			x.covers = append(x.covers, &Oblig{name: "cover: end of contract reachable", kind: "cover", pc: n.pc, goal: tTrue, nfacts: len(x.facts), cand: -1})
		} else if !x.hasExitHook && x.exitHook == nil {
			res.vacuous = append(res.vacuous, "the contract never returns")
		}
		return true
	}()
	if !ok {
		return res
	}
	if os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, h.name, "executed in", time.Since(t0), "facts", len(x.facts), "axioms", len(x.axiomList), "obls", len(x.obls), "cands", len(x.cands))
	}
	for _, a := range x.implAxioms() {
		x.axiom(a)
	}
	if f := os.Getenv("GOVER_DUMP"); f != "" {
		x.dumpQueries("/tmp/gdump", f)
		return res
	}
	x.discharge(res)
	return res
}

func (x *Exec) query(o *Oblig, model bool) string {
	var ts []*Term
	ts = append(ts, x.axiomList...)
	ts = append(ts, x.facts[:o.nfacts]...)
	for _, c := range x.cands {
		if c.alive && (!c.user || x.userPhase) {
			ts = append(ts, c.act)
		}
	}
	ts = append(ts, o.pc)
	if o.kind == "cover" {
		ts = append(ts, o.goal)
	} else {
		ts = append(ts, mkNot(o.goal))
	}
	if x.useGlobals {
		ts = append(ts, globalFacts(ts)...)
	}
	return script(ts, x.smtStrings, model)
}

// globalFacts states the initial contents of the package variables whose memory ts
// reads at an address that is not constant.
func globalFacts(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	used := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op == "var" && heapConst[t] != nil && !used[t] {
			used[t] = true
			m := heapConst[t]
			if len(m) > 400 {
				return
			}
			keys := make([]*Term, 0, len(m))
			for k := range m {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
			for _, k := range keys {
				f := mkEq(intern("select", "", elemSort(t.sort), nil, t, k), m[k])
				out = append(out, f)
				rec(f)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

var (
	tierTimeout = 20.0
	houdiniTime = 4.0
	workers     = 4
)

var (
	modelInt = regexp.MustCompile(`\(define-fun \S+ \(\) Int\s+(\(- )?(\d+)`)
	noModels bool
)

var startTime = time.Now()

// softDeadline is when solver time limits start to shrink, so that a check always answers.
var softDeadline = 300.0

func limited(t float64) float64 {
	el := time.Since(startTime).Seconds()
	switch {
	case el > softDeadline*1.5:
		return 0.3
	case el > softDeadline:
		return min(t, 1.5)
	}
	return t
}

func parallel(n int, f func(i int)) {
	ch := make(chan int)
	done := make(chan bool)
	w := workers
	if n < w {
		w = n
	}
	for k := 0; k < w; k++ {
		go func() {
			for i := range ch {
				f(i)
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	for k := 0; k < w; k++ {
		<-done
	}
}

// discharge first tries short solver limits; only when an obligation stays open
// are the candidates restored and the search repeated with the full limits.
func (x *Exec) discharge(res *Result) {
	for _, c := range x.cands {
		c.alive = !c.late
	}
	x.dischargeWith(res, min(1.5, houdiniTime), min(6, tierTimeout), false)
	if os.Getenv("GOVER_DUMPFAIL") != "" {
		for _, o := range res.failed {
			x.dumpOne(o, "failed "+o.name)
		}
	}
	if len(res.failed) == 0 || os.Getenv("GOVER_FAST") != "" {
		return
	}
	hard := len(x.cands) > 0
	for _, o := range res.failed {
		hard = hard || o.status != "sat"
	}
	if !hard {
		x.models(res)
		return
	}
	for _, c := range x.cands {
		c.alive, c.failing = true, false
	}
	x.dischargeWith(res, houdiniTime, tierTimeout, true)
}

func (x *Exec) dischargeWith(res *Result, houdiniTime, tierTimeout float64, last bool) {
	res.obls, res.failed, res.vacuous = nil, nil, nil
	res.kept, res.candObls, res.rounds = 0, 0, 0
	// 1. Houdini over the loop-invariant candidates
	res.cands = len(x.cands)
	// first the built-in candidates (frames, bounds), then the contract's templates
	for _, user := range []bool{false, true} {
		x.userPhase = user
		x.houdini(res, user, houdiniTime, !last)
	}
	for _, c := range x.cands {
		if c.alive {
			res.kept++
			for _, o := range c.obls {
				_ = o
				res.candObls++
			}
			if os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "  kept", c.desc)
			}
		}
	}
	// 2. obligations
	for _, o := range x.obls {
		if o.cand < 0 {
			res.obls = append(res.obls, o)
		}
	}
	parallel(len(res.obls), func(i int) {
		o := res.obls[i]
		if mkImp(o.pc, o.goal) == tTrue {
			o.status, o.solver = "proved", "simplifier"
			return
		}
		if x.stillProved(o) {
			return
		}
		r := solve(x.query(o, false), limited(tierTimeout), false, false)
		o.status, o.solver, o.secs, o.detail = r.verdict, r.solver, r.secs, r.output
		if os.Getenv("GOVER_SLOW") != "" && r.secs > 0.6 {
			fmt.Fprintf(os.Stderr, "  slow %.1f %s %s %s\n", r.secs, r.verdict, r.solver, o.name)
		}
		if r.verdict == "unsat" {
			o.status = "proved"
			o.core = unsatCore(r.output)
		}
	})
	for _, o := range res.obls {
		if o.status != "proved" {
			res.failed = append(res.failed, o)
		}
	}
	if last {
		x.models(res)
	} else if len(res.failed) > 0 {
		return
	}
	// 3. covers
	parallel(len(x.covers), func(i int) {
		o := x.covers[i]
		r := solve(x.query(o, false), 2, true, false)
		o.status, o.solver, o.secs = r.verdict, r.solver, r.secs
	})
	for _, o := range x.covers {
		if o.status == "unsat" {
			res.vacuous = append(res.vacuous, o.name)
		}
	}
}

// stillProved reports whether o was proved from candidates that are all still assumed.
func (x *Exec) stillProved(o *Oblig) bool {
	if o.status != "proved" || o.core == nil {
		return false
	}
	for n := range o.core {
		if c := x.cands[n]; !c.alive || c.user && !x.userPhase {
			return false
		}
	}
	return true
}

func (x *Exec) models(res *Result) {
	// integers of the solvers' models seed the native replay
	if n := min(len(res.failed), 3); n > 0 && !noModels {
		parallel(n, func(i int) {
			m := solve(x.query(res.failed[i], true), limited(8), true, false)
			if m.verdict == "unknown" && len(m.output) < 20 {
				return
			}
			solverMu.Lock()
			defer solverMu.Unlock()
			res.failed[i].model = m
			seen := map[int64]bool{}
			for _, g := range modelInt.FindAllStringSubmatch(m.output, 400) {
				v, err := strconv.ParseInt(g[2], 10, 64)
				if err != nil || seen[v] || len(res.modelInts) > 60 {
					continue
				}
				if g[1] != "" {
					v = -v
				}
				seen[v] = true
				res.modelInts = append(res.modelInts, v)
			}
		})
	}
}

func (x *Exec) houdini(res *Result, user bool, houdiniTime float64, hasty bool) {
	for round := 0; ; round++ {
		res.rounds++
		var obls []*Oblig
		for _, c := range x.cands {
			if !c.alive || c.user != user {
				continue
			}
			for _, o := range c.obls {
				if mkImp(o.pc, o.goal) == tTrue {
					o.status = "proved"
					continue
				}
				obls = append(obls, o)
			}
		}
		parallel(len(obls), func(i int) {
			o := obls[i]
			c := x.cands[o.cand]
			if !c.alive || c.failing || x.stillProved(o) {
				return
			}
			r := solve(x.query(o, false), limited(houdiniTime), true, hasty)
			o.status, o.solver, o.secs = r.verdict, r.solver, r.secs
			if os.Getenv("GOVER_SLOW") != "" && r.secs > 0.6 {
				fmt.Fprintf(os.Stderr, "  slow %.1f %s %s %s %s\n", r.secs, r.verdict, r.solver, o.name, c.desc)
			}
			if r.verdict == "unsat" {
				o.status = "proved"
				o.core = unsatCore(r.output)
			} else {
				c.failing = true
			}
		})
		drops := 0
		for _, c := range x.cands {
			if !c.alive || !c.failing {
				continue
			}
			c.alive = false
			drops++
			if os.Getenv("GOVER_DEBUG") != "" {
				var s []string
				for _, o := range c.obls {
					s = append(s, o.name[:9]+"="+o.status)
				}
				fmt.Fprintln(os.Stderr, "  dropped", c.desc, s)
			}
			if f := os.Getenv("GOVER_DUMPDROP"); f != "" && strings.Contains(c.desc, f) {
				c.alive = true
				for _, o := range c.obls {
					if o.status != "proved" {
						x.dumpOne(o, "drop "+c.desc)
					}
				}
				c.alive = false
			}
		}
		if drops == 0 {
			break
		}
	}
}

func (x *Exec) dependsOnCands(o *Oblig) bool { return true }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "run only this contract")
	flag.StringVar(&repoDir, "repo", repoDir, "")
	flag.StringVar(&verifDir, "verif", verifDir, "")
	flag.BoolVar(&verbose, "v", false, "")
	noReplay := flag.Bool("noreplay", false, "")
	replay := flag.String("replay", "", "replay one trial seed of the contract given by -only")
	flag.StringVar(&outDir, "out", "", "")
	flag.Parse()
	if outDir == "" {
		outDir = verifDir
	}
	if *tier != "thorough" {
		*tier = "quick"
	} else {
		tierTimeout = 60
		houdiniTime = 10
		softDeadline = 500
	}
	d, err := os.MkdirTemp("", "gover")
	if err != nil {
		fatal(err)
	}
	scratchDir = d
	replaySeed = *replay
	code := check(*prop, *tier, *only, *noReplay)
	if os.Getenv("GOVER_KEEP") == "" {
		os.RemoveAll(scratchDir)
	} else {
		fmt.Fprintln(os.Stderr, "scratch:", scratchDir)
	}
	os.Exit(code)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gover:", err)
	if scratchDir != "" {
		os.RemoveAll(scratchDir)
	}
	os.Exit(2)
}

var _ = exec.Command
