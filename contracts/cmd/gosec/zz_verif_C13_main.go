package main

import (
	"errors"
	"flag"
	"log"
	"os"
	"regexp"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
)

type specC13Options struct {
	version, quiet, terse, recursive, tests, generated, track, sort, stdout, color, noFail bool
	concurrency                                                                            int
	severity, confidence, conf, tags, output, format, verbose, provider, key, endpoint     string
}

// what the parts of the command were given and what they returned
type specC13Run struct {
	phase                int
	sorted, filtered, ai int
	printed, saved       int
	rules, analyzers     int
	ended                int
}

// number of packages found for the first n paths
func spec_C13_packages(found map[string][]string, paths []string, n int) int {
	if n <= 0 {
		return 0
	}
	return spec_C13_packages(found, paths, n-1) + len(found[paths[n-1]])
}

// The command hands each option to the part it controls, and the results from one part to the next.
func specC13Main(paths []string, o specC13Options, args []string, found map[string][]string, missing map[string]bool, config gosec.Config, rl rules.RuleList, al analyzers.AnalyzerList,
	issues, kept []*issue.Issue, counted int, metrics *gosec.Metrics, errs map[string][]gosec.Error, roots []string, p, q int, key, env string,
	builders map[string]gosec.RuleBuilder, suppressed map[string]bool, definitions map[string]analyzers.AnalyzerDefinition, suppressedA map[string]bool) {
	gv.Requires(!gv.Native())
	gv.Requires(metrics != nil && config != nil)
	gv.Requires(0 <= p && 0 <= q)
	before := *metrics
	flagVersion, flagQuiet, flagTerse, flagRecursive = &o.version, &o.quiet, &o.terse, &o.recursive
	flagScanTests, flagExcludeGenerated, flagTrackSuppressions, flagSortIssues = &o.tests, &o.generated, &o.track, &o.sort
	flagStdOut, flagColor, flagNoFail, flagConcurrency = &o.stdout, &o.color, &o.noFail, &o.concurrency
	flagSeverity, flagConfidence, flagConfig, flagBuildTags = &o.severity, &o.confidence, &o.conf, &o.tags
	flagOutput, flagFormat, flagVerbose = &o.output, &o.format, &o.verbose
	flagAiAPIProvider, flagAiAPIKey, flagAiEndpoint = &o.provider, &o.key, &o.endpoint
	logfile := ""
	flagLogfile = &logfile
	a := &gosec.Analyzer{}
	r := specC13Run{}
	badConfig := gv.Arbitrary[bool]()
	aiFails, badPrint, badSave := gv.Arbitrary[bool](), gv.Arbitrary[bool](), gv.Arbitrary[bool]()
	badProcess := gv.Arbitrary[bool]()
	gv.Opaque(convertToScore)
	gv.Opaque(gosec.Config.GetGlobal)
	in, _ := config.GetGlobal(gosec.IncludeRules)
	ex, _ := config.GetGlobal(gosec.ExcludeRules)
	var include, exclude [2]string
	var scan []string
	var wanted []*regexp.Regexp
	gv.Stub(prepareVersionInfo, func() {})
	gv.Stub(flag.Var, func(value flag.Value, name string, usage string) {})
	gv.Stub(flag.Set, func(name, value string) error { return nil })
	gv.Stub(flag.Parse, func() {})
	gv.Stub(flag.NArg, func() int { return len(args) })
	gv.Stub(flag.Args, func() []string { return args })
	gv.Stub(loadConfig, func(name string) (gosec.Config, error) {
		gv.Ensures("the configuration file is the given one", name == o.conf)
		if badConfig {
			return nil, errors.New("bad")
		}
		return config, nil
	})
	gv.Stub(loadRules, func(in, ex string) rules.RuleList {
		r.rules++
		include[0], exclude[0] = in, ex
		return rl
	})
	gv.Stub(loadAnalyzers, func(in, ex string) *analyzers.AnalyzerList {
		r.analyzers++
		include[1], exclude[1] = in, ex
		return &al
	})
	gv.Stub(gosec.ExcludedDirsRegExp, func(dirs []string) []*regexp.Regexp {
		gv.Ensures("the excluded directories are the given ones", gv.Same(dirs, []string(flagDirsExclude)))
		return wanted
	})
	gv.Stub(gosec.PackagePaths, func(root string, ex []*regexp.Regexp) ([]string, error) {
		gv.Ensures("the exclusions apply to every path", gv.Same(ex, wanted))
		if missing[root] {
			return nil, errors.New("missing")
		}
		return found[root], nil
	})
	gv.Stub(gosec.NewAnalyzer, func(c gosec.Config, tests, generated, track bool, concurrency int, _ *log.Logger) *gosec.Analyzer {
		r.phase++
		gv.Ensures("the analyzer follows the options", tests == o.tests && generated == o.generated && track == o.track && concurrency == o.concurrency)
		same := false
		if v, ok := c[key]; ok {
			w, ok := config[key]
			same = ok && v == w
		} else {
			_, ok := config[key]
			same = !ok
		}
		gv.Ensures("the analyzer has the configuration", same)
		return a
	})
	gv.Stub(rules.RuleList.RulesInfo, func(l rules.RuleList) (map[string]gosec.RuleBuilder, map[string]bool) {
		_, ok := l.Rules[key]
		_, has := rl.Rules[key]
		gv.Ensures("the rules are the chosen ones", ok == has && l.RuleSuppressed[key] == rl.RuleSuppressed[key])
		return builders, suppressed
	})
	gv.Stub((*analyzers.AnalyzerList).AnalyzersInfo, func(l *analyzers.AnalyzerList) (map[string]analyzers.AnalyzerDefinition, map[string]bool) {
		gv.Ensures("the analyzers are the chosen ones", l == &al)
		return definitions, suppressedA
	})
	gv.Stub((*gosec.Analyzer).LoadRules, func(g *gosec.Analyzer, defs map[string]gosec.RuleBuilder, sup map[string]bool) {
		r.phase += 10
		_, ok := defs[key]
		_, has := builders[key]
		gv.Ensures("the analyzer gets the chosen rules", g == a && ok == has && sup[key] == suppressed[key])
	})
	gv.Stub((*gosec.Analyzer).LoadAnalyzers, func(g *gosec.Analyzer, defs map[string]analyzers.AnalyzerDefinition, sup map[string]bool) {
		r.phase += 100
		_, ok := defs[key]
		_, has := definitions[key]
		gv.Ensures("the analyzer gets the chosen analyzers", g == a && ok == has && sup[key] == suppressedA[key])
	})
	gv.Stub((*gosec.Analyzer).Process, func(g *gosec.Analyzer, tags []string, pkgs ...string) error {
		scan = pkgs
		r.phase += 1000
		gv.Ensures("the analyzer that was set up runs", g == a && r.phase == 1111)
		if o.tags == "" {
			gv.Ensures("there are no build tags unless some are given", len(tags) == 0)
		} else {
			gv.Ensures("the build tags are the given ones", len(tags) == len(strings.Split(o.tags, ",")) && gv.All(0, len(tags), func(k int) bool { return tags[k] == strings.Split(o.tags, ",")[k] }))
		}
		if badProcess {
			return errors.New("bad")
		}
		return nil
	})
	gv.Stub((*gosec.Analyzer).Report, func(g *gosec.Analyzer) ([]*issue.Issue, *gosec.Metrics, map[string][]gosec.Error) {
		gv.Ensures("the results are those of the search", g == a && r.phase == 1111)
		r.phase += 10000
		return issues, metrics, errs
	})
	gv.Stub(sortIssues, func(l []*issue.Issue) {
		gv.Ensures("the findings are sorted", gv.Same(l, issues))
		r.sorted++
	})
	sev, badSev := convertToScore(o.severity)
	conf, badConf := convertToScore(o.confidence)
	gv.Stub(filterIssues, func(l []*issue.Issue, s, c issue.Score) ([]*issue.Issue, int) {
		gv.Ensures("findings are filtered as the options say", gv.Same(l, issues) && s == sev && c == conf)
		r.filtered++
		return kept, counted
	})
	gv.Stub(getRootPaths, func(l []string) []string {
		gv.Ensures("the roots of the report are the searched paths", len(l) == len(paths) && gv.All(0, len(paths), func(k int) bool { return l[k] == paths[k] }))
		return roots
	})
	gv.Stub(os.Getenv, func(name string) string {
		gv.Ensures("the key of the environment is the documented one", name == "GOSEC_AI_API_KEY")
		return env
	})
	gv.Stub(autofix.GenerateSolution, func(provider, apiKey, endpoint string, l []*issue.Issue) error {
		r.ai++
		gv.Ensures("the provider and its address are the given ones", provider == o.provider && endpoint == o.endpoint)
		gv.Ensures("the key is the one of the environment, or else the given one", apiKey == env && env != "" || env == "" && apiKey == o.key)
		gv.Ensures("solutions are made for the reported findings", gv.Same(l, kept))
		if aiFails {
			return errors.New("bad")
		}
		return nil
	})
	checkInfo := func(i *gosec.ReportInfo) {
		gv.Ensures("the report has the filtered findings", gv.Same(i.Issues, kept))
		gv.Ensures("the report has the errors", len(i.Errors) == len(errs))
		gv.Ensures("the report has the counts of the search", i.Stats == metrics && i.Stats.NumFound == counted && i.Stats.NumFiles == before.NumFiles &&
			i.Stats.NumLines == before.NumLines && i.Stats.NumNosec == before.NumNosec)
		gv.Ensures("the report has the version", i.GosecVersion == Version)
		wantAI := 0
		if o.provider != "" && (env != "" || o.key != "") {
			wantAI = 1
		}
		gv.Ensures("solutions are made before the report, when asked for", r.ai == wantAI)
	}
	gv.Stub(printReport, func(format string, color bool, rp []string, i *gosec.ReportInfo) error {
		r.printed++
		checkInfo(i)
		gv.Ensures("the printed format is the given one", o.verbose == "" && format == o.format || o.verbose != "" && format == o.verbose)
		gv.Ensures("colours and roots are the given ones", color == o.color && gv.Same(rp, roots))
		if badPrint {
			return errors.New("bad")
		}
		return nil
	})
	gv.Stub(saveReport, func(name, format string, rp []string, i *gosec.ReportInfo) error {
		r.saved++
		checkInfo(i)
		gv.Ensures("the saved report has the given name, format and roots", name == o.output && format == o.format && gv.Same(rp, roots))
		if badSave {
			return errors.New("bad")
		}
		return nil
	})
	gv.Stub(exit, func(l []*issue.Issue, e map[string][]gosec.Error, noFail bool) {
		r.ended++
		gv.Ensures("the status is that of the reported findings and all errors", gv.Same(l, kept) && len(e) == len(errs) && noFail == o.noFail)
		gv.Ensures("rules and analyzers are chosen by the same lists", include[0] == include[1] && exclude[0] == exclude[1])
		gv.Ensures("the lists are those of the configuration", include[0] == in && exclude[0] == ex)
		gv.Ensures("findings are sorted exactly when asked for", (r.sorted == 1) == o.sort && (r.sorted == 0) == !o.sort)
		gv.Ensures("findings are filtered once", r.filtered == 1)
		gv.Ensures("a report is printed unless it is only saved", (r.printed == 1) == (o.output == "" || o.stdout) && r.printed <= 1)
		gv.Ensures("a report is saved when a file is given", (r.saved == 1) == (o.output != "") && r.saved <= 1)
		gv.Ensures("a report that cannot be written is a failure", !(r.printed > 0 && badPrint) && !(r.saved > 0 && badSave))
		gv.Ensures("a search that fails is a failure", !badProcess && !badConfig && badSev == nil && badConf == nil)
		gv.Ensures("a path that cannot be searched is a failure", !(p < len(args) && missing[paths[p]]))
		gv.Ensures("all packages of all paths are searched", !(p < len(args) && q < len(found[paths[p]])) || spec_C13_packages(found, paths, p)+q < len(scan) && scan[spec_C13_packages(found, paths, p)+q] == found[paths[p]][q])
		gv.Ensures("each package is searched as often as it was found", len(scan) == spec_C13_packages(found, paths, len(paths)))
		os.Exit(7)
	})
	gv.Inv(func(it int, packages []string) bool { return len(packages) == 0 || gv.Fresh(packages) })
	gv.Inv(func(it int, packages []string) bool {
		return len(packages) == spec_C13_packages(found, paths, it)
	})
	gv.Inv(func(it int, packages []string) bool {
		return !(p < it && q < len(found[paths[p]])) || spec_C13_packages(found, paths, p)+q < len(packages) && packages[spec_C13_packages(found, paths, p)+q] == found[paths[p]][q]
	})
	gv.Inv(func(it int) bool { return !(p < it && missing[paths[p]]) })
	gv.OnExit(func(code int) {
		quiet := o.quiet && r.filtered == 1 && len(kept) == 0 && len(errs) == 0
		gv.Ensures("the command ends early with success only for its version and when it is quiet and there is nothing to report",
			r.ended == 1 && code == 7 || r.ended == 0 && (code != 0 || o.version || quiet))
	})
	gv.Mark()
	main()
	gv.Ensures("the command ends with a status", r.ended == 1)
}

// The command hands each option to the part it controls, and the results from one part to the next.
func verif_C13_main(o specC13Options, args []string, found map[string][]string, missing map[string]bool, config gosec.Config, rl rules.RuleList, al analyzers.AnalyzerList,
	issues, kept []*issue.Issue, counted int, metrics *gosec.Metrics, errs map[string][]gosec.Error, roots []string, p, q int, key, env string,
	builders map[string]gosec.RuleBuilder, suppressed map[string]bool, definitions map[string]analyzers.AnalyzerDefinition, suppressedA map[string]bool) {
	gv.Requires(len(args) > 0)
	specC13Main(gv.Snap(args), o, args, found, missing, config, rl, al, issues, kept, counted, metrics, errs, roots, p, q, key, env, builders, suppressed, definitions, suppressedA)
}

// Without paths everything below the working directory is searched, when asked for.
func verif_C13_default(o specC13Options, args []string, found map[string][]string, missing map[string]bool, config gosec.Config, rl rules.RuleList, al analyzers.AnalyzerList,
	issues, kept []*issue.Issue, counted int, metrics *gosec.Metrics, errs map[string][]gosec.Error, roots []string, p, q int, key, env string,
	builders map[string]gosec.RuleBuilder, suppressed map[string]bool, definitions map[string]analyzers.AnalyzerDefinition, suppressedA map[string]bool) {
	gv.Requires(p == 0)
	args = nil
	specC13Main(gv.Snap([]string{"./..."}), o, args, found, missing, config, rl, al, issues, kept, counted, metrics, errs, roots, p, q, key, env, builders, suppressed, definitions, suppressedA)
}
