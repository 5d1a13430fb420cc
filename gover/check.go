package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type nativeOut struct {
	Harness  string   `json:"harness"`
	Trials   int      `json:"trials"`
	Ran      int      `json:"ran"`
	Distinct int      `json:"distinct"`
	Failed   bool     `json:"failed"`
	Label    string   `json:"label,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	Seed     int64    `json:"seed,omitempty"`
	Args     []string `json:"args,omitempty"`
	Sample   []string `json:"sample,omitempty"`
}

// Known findings: obligations recorded as genuine defects of the unchanged tree.
type finding struct {
	prop, harness, label, text string
}

func knownFindings(prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, ln := range strings.Split(string(b), "\n") {
		// finding: property=<id> contract=<harness> obligation="<label>" <text>
		if !strings.HasPrefix(ln, "finding: property="+prop+" ") {
			continue
		}
		f := finding{prop: prop}
		rest := strings.TrimPrefix(ln, "finding: property="+prop+" ")
		if i := strings.Index(rest, "contract="); i >= 0 {
			s := rest[i+len("contract="):]
			f.harness = strings.Fields(s)[0]
		}
		if i := strings.Index(rest, `obligation="`); i >= 0 {
			s := rest[i+len(`obligation="`):]
			j := strings.IndexByte(s, '"')
			f.label = s[:j]
			f.text = strings.TrimSpace(s[j+1:])
		}
		out = append(out, f)
	}
	return out
}

func check(prop, tier, only string, noReplay bool) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ld, err := load(prop)
	if err != nil {
		rdir := filepath.Join(outDir, "replays", prop)
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, "load.txt")
		os.WriteFile(p, []byte("the code under contract could not be loaded:\n"+err.Error()+"\n"), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		return 1
	}
	tLoad := time.Since(t0).Seconds()
	runInits(ld)
	known := knownFindings(prop)
	prefix := "verif_" + prop + "_"
	var results []*Result
	var ran []*Harness
	for _, h := range ld.harnesses {
		if !ownContract(prop, h.name) || only != "" && h.name != only && h.name != prefix+only {
			continue
		}
		ran = append(ran, h)
	}
	type alarm struct {
		harness string
		labels  []string
		detail  string
	}
	var alarms []*alarm
	violations := 0
	dictFile = filepath.Join(outDir, "replays", prop, "dict.json")
	if replaySeed != "" {
		for _, h := range ran {
			results = append(results, &Result{h: h, x: newExec(ld.prog)})
		}
		return replayOne(ld, ran, results, only)
	}
	for _, h := range ran {
		r := runHarness(ld, h, ran)
		results = append(results, r)
		if verbose {
			fmt.Fprintf(os.Stderr, "%-50s obligations %d failed %d candidates %d/%d rounds %d  %.1fs %s\n", h.name, len(r.obls), len(r.failed), r.kept, r.cands, r.rounds, r.secs, r.unsup)
			for _, o := range r.failed {
				fmt.Fprintf(os.Stderr, "    FAILED [%s] %s (%s) %s\n", o.kind, o.name, o.where, o.status)
			}
			for _, v := range r.vacuous {
				fmt.Fprintln(os.Stderr, "    VACUOUS", v)
			}
		}
		var a *alarm
		if r.unsup != "" {
			a = &alarm{harness: h.name, labels: []string{"verifier cannot decide"}, detail: "outside the verifier's subset: " + r.unsup + "\n"}
		} else {
			for _, o := range r.failed {
				if a == nil {
					a = &alarm{harness: h.name}
				}
				a.labels = append(a.labels, o.name)
				a.detail += fmt.Sprintf("obligation %q (%s) at %s: solver answer %s (%s)\n", o.name, o.kind, o.where, o.status, o.solver)
			}
			for _, v := range r.vacuous {
				if a == nil {
					a = &alarm{harness: h.name}
				}
				a.labels = append(a.labels, "vacuous: "+v)
				a.detail += "vacuity check failed: " + v + "\n"
			}
			if a == nil && len(r.obls) == 0 {
				a = &alarm{harness: h.name, labels: []string{"no obligations generated"}}
			}
		}
		if a != nil {
			alarms = append(alarms, a)
		}
	}
	for _, d := range ld.dropped {
		if n := strings.SplitN(d, ":", 2)[0]; strings.HasPrefix(n, "verif_") && !ownContract(prop, n) {
			continue // a contract of another property
		}
		alarms = append(alarms, &alarm{harness: strings.SplitN(d, ":", 2)[0], labels: []string{"contract no longer matches the code"}, detail: d + "\n"})
	}
	if len(ran) == 0 && len(alarms) == 0 {
		fmt.Fprintln(os.Stderr, "gover: no contracts for", prop)
		return 2
	}
	// native runs of the same contracts on the real code
	native := map[string]*nativeOut{}
	nativeErr := ""
	if !noReplay {
		budget := 2.0
		if tier == "thorough" {
			budget = 20
		}
		bad := map[string]bool{}
		for _, a := range alarms {
			bad[a.harness] = true
		}
		native, nativeErr = runNative(ld, ran, results, budget, seed, bad)
	}
	if verbose && nativeErr != "" {
		fmt.Fprintln(os.Stderr, "native:", nativeErr)
	}
	isKnown := func(harness, label string) *finding {
		for i := range known {
			if known[i].harness == harness && (known[i].label == label) {
				return &known[i]
			}
		}
		return nil
	}
	reported := map[string]bool{}
	knownSeen := map[string]bool{}
	rdir := filepath.Join(outDir, "replays", prop)
	report := func(harness, label, body string, confirmed bool) {
		if reported[harness] {
			return
		}
		reported[harness] = true
		violations++
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, harness+".txt")
		os.WriteFile(p, []byte(body), 0o644)
		if confirmed {
			os.WriteFile(filepath.Join(rdir, "dict.json"), lastDict, 0o644)
		}
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, p)
		if !confirmed {
			line += " no-failing-input-found"
		}
		fmt.Println("  " + harness + ": " + label)
		fmt.Println(line)
	}
	for _, h := range ran {
		n := native[h.name]
		if n != nil && n.Failed {
			if f := isKnown(h.name, n.Label); f != nil {
				knownSeen[f.harness+f.label] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
			} else {
				body := fmt.Sprintf("property %s\ncontract %s\nobligation %s\nconfirmed by running the contract on the real code (trial seed %d)\ninputs:\n", prop, h.name, n.Label, n.Seed)
				for i, a := range n.Args {
					body += fmt.Sprintf("  %s = %s\n", h.fn.Params[i].Name(), a)
				}
				body += n.Detail + "\n"
				for _, a := range alarms {
					if a.harness == h.name {
						body += "verifier:\n" + a.detail
					}
				}
				body += fmt.Sprintf("replay: %s/run.sh %s replay %s %d\n", verifDir, prop, h.name, n.Seed)
				report(h.name, n.Label, body, true)
			}
		}
	}
	for _, a := range alarms {
		var left []string
		for _, l := range a.labels {
			if f := isKnown(a.harness, l); f != nil {
				if !knownSeen[f.harness+f.label] {
					knownSeen[f.harness+f.label] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
				}
				continue
			}
			left = append(left, l)
		}
		if len(left) == 0 {
			continue
		}
		body := fmt.Sprintf("property %s\ncontract %s\nfailed obligations:\n  %s\nno failing input was found by running the contract natively\n%s", prop, a.harness, strings.Join(left, "\n  "), a.detail)
		for _, r := range results {
			if r.h.name != a.harness {
				continue
			}
			for i, o := range r.failed {
				if i >= 2 {
					break
				}
				m := o.model
				body += fmt.Sprintf("\n---- solver output for %q: %s (%s)\n%s\n", o.name, m.verdict, m.solver, clip(m.output, 6000))
			}
		}
		if n := native[a.harness]; n != nil {
			body += fmt.Sprintf("\nnative search: %d trials, %d ran the contract\n", n.Trials, n.Ran)
		}
		body += nativeErr
		report(a.harness, left[0], body, false)
	}
	writeEvidence(prop, tier, seed, ld, results, native, violations, time.Since(t0).Seconds(), tLoad, len(known))
	if violations > 0 {
		return 1
	}
	tot, ok := 0, 0
	for _, r := range results {
		tot += len(r.obls) + r.candObls
		ok += len(r.obls) - len(r.failed) + r.candObls
	}
	fmt.Printf("OK property=%s contracts=%d obligations=%d discharged=%d wall=%.1fs\n", prop, len(ran), tot, ok, time.Since(t0).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

// dictionary collects the constants of the functions a contract reaches.
func dictionary(ld *loaded, results []*Result) (strs []string, ints []int64) {
	names := map[string]bool{}
	for _, r := range results {
		for n := range r.x.funcs {
			names[n] = true
		}
	}
	ss := map[string]bool{}
	is := map[int64]bool{}
	for f := range ssautil.AllFunctions(ld.prog) {
		if !isRepoFn(f) || !names[fnName(f)] && !isContractFn(f) {
			continue
		}
		label := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				if _, gv := isGV(c.Call.StaticCallee()); !gv {
					continue
				}
				for _, a := range c.Call.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						label[constant.StringVal(k.Value)] = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.String:
						if s := constant.StringVal(c.Value); len(s) < 60 && !label[s] {
							ss[s] = true
						}
					case constant.Int:
						if i, ok := constant.Int64Val(c.Value); ok {
							is[i] = true
						}
					}
				}
			}
		}
	}
	for s := range ss {
		strs = append(strs, s)
	}
	for i := range is {
		ints = append(ints, i)
	}
	sort.Strings(strs)
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	if len(strs) > 150 {
		strs = strs[:150]
	}
	if len(ints) > 100 {
		ints = ints[:100]
	}
	return
}

// runNative executes the contracts on generated inputs through go test.
func runNative(ld *loaded, ran []*Harness, results []*Result, budget float64, seed int, bad map[string]bool) (map[string]*nativeOut, string) {
	out := map[string]*nativeOut{}
	byPkg := map[string][]*Harness{}
	for _, h := range ran {
		byPkg[h.pkg.PkgPath] = append(byPkg[h.pkg.PkgPath], h)
	}
	strs, ints := dictionary(ld, results)
	for _, r := range results {
		ints = append(ints, r.modelInts...)
	}
	if replaySeed != "" {
		if b, err := os.ReadFile(dictFile); err == nil {
			var d struct {
				Strs []string
				Ints []int64
			}
			if json.Unmarshal(b, &d) == nil {
				strs, ints = d.Strs, d.Ints
			}
		}
	}
	lastDict, _ = json.Marshal(map[string]any{"Strs": strs, "Ints": ints})
	sj, _ := json.Marshal(strs)
	ij, _ := json.Marshal(ints)
	errs := ""
	for pp, hs := range byPkg {
		dir := filepath.Join(repoDir, strings.TrimPrefix(pp, modPath))
		rep := map[string]string{}
		for dst, src := range ld.overlay {
			rep[dst] = src
			if len(ld.dropped) > 0 {
				// contracts that no longer type-check are blanked out
				f := filepath.Join(scratchDir, "c_"+strings.ReplaceAll(dst, "/", "_"))
				os.WriteFile(f, ld.content[dst], 0o644)
				rep[dst] = f
			}
		}
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), "_test.go") {
				rep[filepath.Join(dir, e.Name())] = ""
			}
		}
		for _, r := range results {
			if r.h.pkg.PkgPath == pp && (r.x.hasExitHook || bytes.Contains(ld.content[filepath.Join(dir, filepath.Base(r.h.file))], []byte("gv.OnExit("))) {
				rewriteExits(dir, rep)
				break
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t%q\n)\n\nfunc TestGV(t *testing.T) {\n\tgv.Main([]gv.H{\n", hs[0].pkg.Name, gvPath)
		some := false
		scope := hs[0].pkg.Types.Scope()
		for _, h := range hs {
			if scope.Lookup("nonative_"+strings.TrimPrefix(h.name, "verif_")) != nil {
				continue
			}
			some = true
			fmt.Fprintf(&b, "\t\t{Name: %q, F: %s", h.name, h.name)
			if scope.Lookup("gen_"+strings.TrimPrefix(h.name, "verif_")) != nil {
				fmt.Fprintf(&b, ", Gen: gen_%s", strings.TrimPrefix(h.name, "verif_"))
			}
			b.WriteString("},\n")
		}
		b.WriteString("\t})\n}\n")
		if !some {
			continue
		}
		tag := strings.ReplaceAll(strings.TrimPrefix(pp, modPath), "/", "_")
		tf := filepath.Join(scratchDir, "run"+tag+"_test.go")
		os.WriteFile(tf, b.Bytes(), 0o644)
		rep[filepath.Join(dir, "zz_verif_run_test.go")] = tf
		oj, _ := json.Marshal(map[string]any{"Replace": rep})
		of := filepath.Join(scratchDir, "overlay"+tag+".json")
		os.WriteFile(of, oj, 0o644)
		bin := filepath.Join(scratchDir, "native"+tag+".test")
		build := exec.Command("go", "test", "-c", "-overlay", of, "-vet=off", "-o", bin, pp)
		build.Dir = repoDir
		build.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local")
		if o, err := build.CombinedOutput(); err != nil {
			errs += "native build failed: " + clip(string(o), 3000) + "\n"
			continue
		}
		ch := make(chan []*nativeOut)
		n := 0
		sem := make(chan bool, runtime.NumCPU())
		for _, h := range hs {
			if scope.Lookup("nonative_"+strings.TrimPrefix(h.name, "verif_")) != nil {
				continue
			}
			n++
			go func() {
				sem <- true
				defer func() { <-sem }()
				bg := budget
				if bad[h.name] {
					bg = budget*2 + 8
				}
				// a constant budget_<ID>_<name> in the contract's file is the least number of seconds
				if c, ok := scope.Lookup("budget_" + strings.TrimPrefix(h.name, "verif_")).(*types.Const); ok {
					if v, ok := constant.Int64Val(c.Val()); ok && float64(v) > bg {
						bg = float64(v)
					}
				}
				prog := bin + "." + h.name + ".trial"
				rep := replaySeed
			again:
				os.WriteFile(prog, nil, 0o644)
				cmd := exec.Command("timeout", "-k", "2", fmt.Sprint(int(bg*3)+150), bin, "-test.run", "^TestGV$", "-test.timeout", "600s")
				cmd.Dir = scratchDir
				cmd.Env = append(os.Environ(), "GV_PROGRESS="+prog, "GV_REPLAY="+rep, "GV_HARNESS="+h.name, fmt.Sprintf("GV_BUDGET=%g", bg), fmt.Sprintf("VERIF_SEED=%d", seed), "GV_STRS="+string(sj), "GV_INTS="+string(ij))
				o, err := cmd.CombinedOutput()
				var rs []*nativeOut
				for _, ln := range strings.Split(string(o), "\n") {
					if i := strings.Index(ln, "GVOUT "); i >= 0 {
						var no nativeOut
						if json.Unmarshal([]byte(ln[i+6:]), &no) == nil {
							rs = append(rs, &no)
						}
					}
				}
				if len(rs) == 0 {
					// the process died: in the trial the progress file names. Run that trial alone, and if it
					// dies again, the contract's function is what does not survive it.
					d := fmt.Sprintf("native run died: %v: %s", err, clip(string(o), 3000))
					t, _ := os.ReadFile(prog)
					ts, terr := strconv.ParseInt(string(t), 10, 64)
					switch {
					case terr != nil:
						rs = append(rs, &nativeOut{Harness: h.name, Detail: d})
					case rep == "":
						rep = fmt.Sprint(ts)
						goto again
					default:
						rs = append(rs, &nativeOut{Harness: h.name, Trials: 1, Ran: 1, Failed: true, Label: "the call ends", Detail: d, Seed: ts, Args: []string{"trial " + rep}})
					}
				}
				ch <- rs
			}()
		}
		for ; n > 0; n-- {
			for _, o := range <-ch {
				out[o.Harness] = o
				if verbose {
					fmt.Fprintf(os.Stderr, "native %-46s trials %d ran %d distinct %d failed %v %s %s\n", o.Harness, o.Trials, o.Ran, o.Distinct, o.Failed, o.Label, clip(o.Detail, 600))
					if o.Failed {
						for _, a := range o.Args {
							fmt.Fprintln(os.Stderr, "      ", a)
						}
					}
				}
			}
		}
	}
	return out, errs
}

// rewriteExits shows the native build copies of the package's files in which os.Exit is gv.Exit.
func rewriteExits(dir string, rep map[string]string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f := filepath.Join(dir, n)
		src, err := os.ReadFile(f)
		if err != nil || !bytes.Contains(src, []byte("os.Exit(")) {
			continue
		}
		out := bytes.ReplaceAll(src, []byte("os.Exit("), []byte("gvexit.Exit("))
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
		if err != nil {
			continue
		}
		off := fset.Position(af.Name.End()).Offset
		imp := fmt.Sprintf("; import gvexit %q", gvPath)
		out = append(append(append([]byte{}, out[:off]...), imp...), out[off:]...)
		out = append(out, "\nvar _ = os.Exit\n"...)
		t := filepath.Join(scratchDir, "exit_"+filepath.Base(dir)+"_"+n)
		os.WriteFile(t, out, 0o644)
		rep[f] = t
	}
}

func writeEvidence(prop, tier string, seed int, ld *loaded, results []*Result, native map[string]*nativeOut, violations int, wall, tLoad float64, known int) {
	obl, dis, unb := 0, 0, 0
	cands, kept, cut, unr := 0, 0, 0, 0
	bySolver := map[string]int{}
	var contracts []map[string]any
	funcs := map[string]bool{}
	ext := map[string]bool{}
	notes := map[string]bool{}
	assume := map[string]bool{}
	used := map[string]bool{}
	covers := 0
	var samples []string
	for _, r := range results {
		for _, o := range r.obls {
			obl++
			if o.status == "proved" {
				dis++
				bySolver[o.solver]++
				if len(samples) < 12 {
					samples = append(samples, fmt.Sprintf("%s: %s (%s, %s, %.2fs)", r.h.name, o.name, o.kind, o.solver, o.secs))
				}
			}
		}
		for _, c := range r.x.cands {
			if c.alive {
				for _, o := range c.obls {
					obl++
					dis++
					bySolver[o.solver]++
				}
			}
		}
		unb += b2i(r.unsup != "")
		cands += r.cands
		kept += r.kept
		cut += r.x.loopsCut
		unr += r.x.loopsUnrolled
		covers += len(r.x.covers)
		for f := range r.x.funcs {
			funcs[f] = true
		}
		for f := range r.x.externals {
			ext[f] = true
		}
		for f := range r.x.notes {
			notes[f] = true
		}
		for f := range r.x.assumptions {
			assume[f] = true
		}
		for f := range r.x.contractsUsed {
			used[f] = true
		}
		contracts = append(contracts, map[string]any{"contract": r.h.name, "obligations": len(r.obls), "failed": len(r.failed), "loop_invariants_kept": r.kept, "seconds": round(r.secs), "outside_subset": r.unsup})
	}
	var as []string
	for _, n := range theInit.notes {
		notes[n] = true
	}
	for a := range assume {
		as = append(as, "assumed in a contract: "+a)
	}
	for a := range notes {
		as = append(as, a)
	}
	for e := range ext {
		as = append(as, "external: "+e)
	}
	as = append(as, "go/ssa and gover's translation of its instructions to SMT are trusted", "package-level tables keep the contents given by their initialisers unless some function writes them", "termination is not proved")
	sort.Strings(as)
	var nat []map[string]any
	for _, r := range results {
		if n := native[r.h.name]; n != nil {
			nat = append(nat, map[string]any{"contract": n.Harness, "trials": n.Trials, "ran": n.Ran, "distinct": n.Distinct, "sample": n.Sample})
		}
	}
	solverMu.Lock()
	st := map[string]float64{}
	for k, v := range solverTime {
		st[k] = round(v)
	}
	solverMu.Unlock()
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": obl, "discharged": dis,
			"checker_cmd":               fmt.Sprintf("./run.sh %s %s", prop, tier),
			"trusted_base":              []string{"golang.org/x/tools/go/ssa v0.31.0", "gover (symbolic execution and VC generation, /verif/gover)", "z3 4.8.12 / 5.3.2", "cvc5 1.1.2", "contracts in /verif/contracts", "models of the library functions listed under assumptions"},
			"contracts":                 contracts,
			"functions_under_contract":  keys(funcs),
			"contracts_used_at_calls":   keys(used),
			"discharged_by":             bySolver,
			"solver_seconds":            st,
			"loop_invariant_candidates": cands, "loop_invariants_proved": kept,
			"loops_cut": cut, "loops_unrolled_exactly": unr,
			"reachability_checks":      covers,
			"contracts_outside_subset": unb,
			"dropped_contracts":        ld.dropped,
			"native_runs_of_contracts": nat,
			"known_findings":           known,
			"samples":                  samples,
		},
		"assumptions": as,
		"wall_s":      round(wall),
		"load_s":      round(tLoad),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(outDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(outDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var (
	replaySeed string
	dictFile   string
	lastDict   []byte
)

// replayOne runs one recorded trial of a contract on the real code.
func replayOne(ld *loaded, ran []*Harness, results []*Result, only string) int {
	for i, h := range ran {
		if h.name == only || strings.HasSuffix(h.name, "_"+only) {
			out, errs := runNative(ld, ran[i:i+1], results[i:i+1], 5, 0, nil)
			fmt.Print(errs)
			n := out[h.name]
			if n == nil {
				fmt.Println("no native run")
				return 2
			}
			for j, a := range n.Args {
				fmt.Printf("  %s = %s\n", h.fn.Params[j].Name(), a)
			}
			fmt.Println("failed:", n.Failed, n.Label, n.Detail)
			if n.Failed {
				return 1
			}
			return 0
		}
	}
	fmt.Println("no such contract")
	return 2
}
