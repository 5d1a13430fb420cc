package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/securego/gosec/v2/cmd/vflag"
	"github.com/securego/gosec/v2/internal/gv"
)

type specC13Input struct {
	NoFail, Quiet, Tests, Generated, Track, Sort, StdOut, NoSec, ShowIgnored, Stdin bool
	Severity, Confidence, Include, Exclude, Verbose                                 string
	Out, Broken, Test, Gen, Suppressed, Clean, Sub, Vendor                          bool
}

func gen_C13_run(r *gv.Rand) (specC13Input, string, string) {
	one := func(n int) bool { return r.Intn(n) == 0 }
	return specC13Input{
		NoFail: one(3), Quiet: one(3), Tests: one(2), Generated: one(2), Track: one(2), Sort: one(2), StdOut: one(2), NoSec: one(3), ShowIgnored: one(3),
		Severity: gv.Pick(r, "low", "low", "medium", "high", "HIGH"), Confidence: gv.Pick(r, "low", "low", "medium", "high"),
		Include: gv.Pick(r, "", "", "", "G101", "G101,G102", "G104"), Exclude: gv.Pick(r, "", "", "", "G101", "G102,G104"),
		Verbose: gv.Pick(r, "", "", "json", "csv"),
		Out:     one(2), Broken: one(3), Test: one(2), Gen: one(2), Suppressed: one(3), Clean: one(3), Sub: one(3), Vendor: one(3),
	}, gv.Pick(r, "", "json"), gv.Pick(r, "", "text")
}

type specC13Finding struct {
	Rule         string `json:"rule_id"`
	Severity     string `json:"severity"`
	Confidence   string `json:"confidence"`
	File         string `json:"file"`
	NoSec        bool   `json:"nosec"`
	Suppressions []any  `json:"suppressions"`
}

type specC13Report struct {
	Errors map[string][]any `json:"Golang errors"`
	Issues []specC13Finding
	Stats  struct{ Files, Lines, Nosec, Found int }
}

func specC13Rank(s string) int {
	return slices.Index([]string{"LOW", "MEDIUM", "HIGH"}, strings.ToUpper(s))
}

const budget_C13_run = 20

// bounded: whole searches of small trees of files.
func verif_C13_run(in specC13Input, format, verbose string) {
	if !gv.Native() {
		want := format
		if verbose != "" {
			want = verbose
		}
		gv.Ensures("the printed format is the one for printing, or else the common one", getPrintedFormat(format, verbose) == want)
		return
	}
	gv.Requires(in.Track || in.Include == "" || !strings.Contains(in.Exclude, in.Include)) // else there is nothing to run
	dir, err := os.MkdirTemp("", "gv")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	body := "import \"net\"\n\nvar password%d = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n\nfunc l%d() {\n\tnet.Listen(\"tcp\", \"0.0.0.0:2000\")%s\n}\n"
	var files []string
	write := func(name, src string) {
		_ = os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o700)
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o600); err != nil {
			panic(err)
		}
	}
	write("go.mod", "module p\n\ngo 1.23\n")
	want := map[string]int{}
	nosec, suppressed, excluded := 0, 0, 0
	add := func(name, head string, k int, counts bool) {
		directive := ""
		if in.Suppressed && k == 1 {
			directive = " // #nosec G102"
		}
		write(name, head+"package p\n\n"+fmt.Sprintf(body, k, k, directive))
		if !counts {
			return
		}
		files = append(files, name)
		for i, id := range []string{"G101", "G102", "G104"} {
			if []int{2, 1, 0}[i] < specC13Rank(in.Severity) || []int{0, 2, 2}[i] < specC13Rank(in.Confidence) {
				continue
			}
			if in.Include != "" && !strings.Contains(in.Include, id) || strings.Contains(in.Exclude, id) {
				excluded++
				continue
			}
			if directive != "" && id == "G102" && !in.NoSec {
				suppressed++
				continue
			}
			want[id+" "+filepath.Join(dir, name)]++
		}
		if directive != "" && !in.NoSec {
			nosec++
		}
	}
	if in.Clean {
		write("a.go", "package p\n")
		files = append(files, "a.go")
	} else {
		add("a.go", "", 1, true)
	}
	if in.Sub {
		add("s/b.go", "", 2, true)
	}
	if in.Vendor {
		add("vendor/c.go", "", 3, false)
	}
	if in.Test {
		add("d_test.go", "", 4, in.Tests)
	}
	if in.Gen {
		add("e.go", "// Code generated by x. DO NOT EDIT.\n\n", 5, !in.Generated)
	}
	if in.Broken {
		write("f/f.go", "package f\n\nfunc x( {\n")
	}
	empty, one, text, jsonFormat, out := "", 1, "text", "json", ""
	if in.Out {
		out = filepath.Join(dir, "out.json")
	}
	no := false
	flagVersion, flagQuiet, flagTerse, flagRecursive, flagColor = &no, &in.Quiet, &no, &no, &no
	flagScanTests, flagExcludeGenerated, flagTrackSuppressions, flagSortIssues = &in.Tests, &in.Generated, &in.Track, &in.Sort
	flagStdOut, flagNoFail, flagConcurrency = &in.StdOut, &in.NoFail, &one
	flagSeverity, flagConfidence, flagConfig, flagBuildTags, flagLogfile = &in.Severity, &in.Confidence, &empty, &empty, &empty
	flagOutput, flagFormat, flagVerbose = &out, &jsonFormat, &in.Verbose
	flagAiAPIProvider, flagAiAPIKey, flagAiEndpoint = &empty, &empty, &empty
	flagIgnoreNoSec, flagShowIgnored, flagEnableAudit, flagAlternativeNoSec, flagRulesInclude = &in.NoSec, &in.ShowIgnored, &no, &empty, &in.Include
	flagRulesExclude = vflag.ValidatedFlag{Value: in.Exclude}
	flagDirsExclude = nil
	_ = text

	wd, _ := os.Getwd()
	args, commandLine, stdout, stderr := os.Args, flag.CommandLine, os.Stdout, os.Stderr
	printed, err := os.CreateTemp(dir, "stdout")
	if err != nil {
		panic(err)
	}
	restore := func() {
		os.Args, flag.CommandLine, os.Stdout, os.Stderr = args, commandLine, stdout, stderr
		_ = os.Chdir(wd)
	}
	defer restore()
	os.Args = []string{"gosec", "./..."}
	flag.CommandLine = flag.NewFlagSet("gosec", flag.PanicOnError)
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, os.Stderr = printed, null
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	ended := false
	gv.OnExit(func(code int) {
		restore()
		ended = true
		n := 0
		for _, k := range want {
			n += k
		}
		gv.Ensures("the status is a failure exactly when something was found or broken, unless told otherwise", (code != 0) == ((n > 0 || in.Broken) && !in.NoFail) && (code == 0 || code == 1))
		text, _ := os.ReadFile(printed.Name())
		kept := n
		if in.Track || in.ShowIgnored {
			kept += suppressed
		}
		if in.Track {
			kept += excluded
		}
		if in.Quiet && kept == 0 && !in.Broken {
			gv.Ensures("nothing to report, nothing printed", len(text) == 0)
			return
		}
		gv.Ensures("the report is printed unless it is only saved", (len(text) > 0) == (!in.Out || in.StdOut) || n == 0 && in.Verbose == "csv")
		if in.Out {
			if in.StdOut && (in.Verbose == "" || in.Verbose == "json") {
				saved, _ := os.ReadFile(out)
				gv.Ensures("the printed and the saved report are the same", string(saved) == string(text))
			}
			text, _ = os.ReadFile(out)
		} else if in.Verbose == "csv" {
			return
		}
		var rep specC13Report
		err := json.Unmarshal(text, &rep)
		gv.Ensures("the report is in the chosen format", err == nil)
		got := map[string]int{}
		ignored := 0
		for i, f := range rep.Issues {
			if f.NoSec || len(f.Suppressions) > 0 {
				ignored++
				continue
			}
			got[f.Rule+" "+f.File]++
			gv.Ensures("the findings are sorted when asked for", !in.Sort || i == 0 || specC13Rank(rep.Issues[i-1].Severity) >= specC13Rank(f.Severity))
		}
		gv.Ensures(fmt.Sprintf("exactly the findings that the options select are reported: %v, not %v", got, want), fmt.Sprint(got) == fmt.Sprint(want))
		gv.Ensures("suppressed findings are reported exactly when asked for", ignored == kept-n)
		gv.Ensures("the counts are those of the search", rep.Stats.Found == n && rep.Stats.Files >= len(files) && (rep.Stats.Files == len(files) || in.Broken && rep.Stats.Files == len(files)+1) && rep.Stats.Nosec == nosec)
		gv.Ensures("errors are reported", (len(rep.Errors) > 0) == in.Broken)
	})
	main()
	gv.Ensures("the command ends with a status", ended)
}
