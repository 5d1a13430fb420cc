prop("C01", "In-source and external suppressions are applied exactly",
  "A finding is treated as suppressed if and only if a suppression directive recorded for its file, whose line range contains the finding's lines or lies within them, names its rule or all rules, or the rule is suppressed externally. Every directive that applies contributes its justification, and no directive affects findings of other files, other lines or other rules.",
  ["inputs", "histories"], "every sequence of recorded directives, every file, every line range and every rule identifier",
  "The tests place one or two directives in a handful of snippets; the guarantee is over every list of directives (overlapping ranges, several directives over one line, several files), including the order in which they were recorded.",
  ["analyzer.go", "rule.go", "analyzers/analyzers_set.go"],
  [("recording a directive", "analyzer.go: ignores.add, ignores.parseLine"), ("looking up the directives of a line", "analyzer.go: ignores.get"), ("combining with external suppression", "analyzer.go: getSuppressionsAtLineInFile")],
  note="All obligations are proved for every input; strings.Split and strconv.Atoi are modelled, the rest of the code runs symbolically.")
prop("C02", "Every finding is accounted for exactly once",
  "Each finding a rule produces is either reported exactly once or, when it is suppressed and neither suppression tracking nor showing or ignoring suppressions was asked for, dropped; findings reported earlier are never lost. The count of findings grows by one for each finding that counts as found, and a tracked suppressed finding carries the suppressions that apply to it.",
  ["inputs", "histories", "configurations"], "every analyzer state, every finding and every combination of the reporting options",
  "Tests check totals for fixed snippets under one option at a time; the guarantee is about each step from every state under every combination of options.",
  ["analyzer.go", "issue/issue.go"],
  [("recording a finding", "analyzer.go: updateIssues"), ("attaching suppressions", "issue/issue.go: WithSuppressions")],
  note="Proved for every state and finding; the lookup of suppressions is used through its own contract (check C01).")
prop("C05", "The exit status reflects findings and errors",
  "The command ends with a failure status exactly when there is a finding that counts (not suppressed, shown or not) or an error, unless it was told not to fail, and with a success status otherwise.",
  ["inputs", "configurations"], "every number of findings, every set of errors and every value of the no-fail option",
  "The tests run the binary on no example at all for most combinations; the guarantee ranges over all counts and option values.",
  ["cmd/gosec/main.go"], [("exit status", "cmd/gosec/main.go: exit")],
  note="Proved for every input; os.Exit is modelled as ending the program with the given status.")
prop("C06", "Findings below the chosen severity or confidence are filtered exactly",
  "Exactly the findings whose severity and confidence both reach the chosen thresholds are kept, in their original order, and the number of counted findings is the number of kept ones that are not suppressed. The textual option values map to the matching thresholds and any other value is rejected.",
  ["inputs", "configurations"], "every list of findings and every pair of thresholds",
  "Tests filter a few short lists; the guarantee is for lists of any length and content.",
  ["cmd/gosec/main.go", "issue/issue.go"], [("filtering", "cmd/gosec/main.go: filterIssues"), ("thresholds", "cmd/gosec/main.go: convertToScore")],
  note="Proved for lists of every length by an inferred loop invariant.")
prop("C07", "Every report format contains every finding to report",
  "Whatever the output format, the report contains each finding to report exactly once and in order, with its file, lines, rule, description, severity and confidence; findings that are suppressed are left out of the formats that cannot mark them and kept in JSON and SARIF, and creating one report changes nothing for reports created afterwards. A failing encoder or writer is reported as an error.",
  ["inputs", "configurations"], "every list of findings (suppressed or not), every format and every set of scan roots",
  "The tests write one or two findings per format; the guarantee is for lists of any length with repeated rules, descriptions and files, and for several reports from one result.",
  ["report/formatter.go", "report/csv", "report/golint", "report/json", "report/junit", "report/sarif", "report/sonar", "report/text", "report/yaml", "report/html"],
  [("choosing and filtering", "report/formatter.go: CreateReport, filterOutSuppressedIssues"), ("tabular formats", "report/csv/writer.go, report/golint/writer.go: WriteReport"), ("grouping by description", "report/junit/builder.go, formatter.go: GenerateReport"), ("results", "report/sarif/formatter.go, report/sonar/formatter.go: GenerateReport"), ("encoders", "report/json/writer.go, report/yaml/writer.go: WriteReport")],
  note="Proved for lists of every length up to the calls of the encoders, which stand-ins replace; what the encoders and templates write (JSON fields, text template) is compared on generated reports only, as is the content of JUnit test cases and of SARIF locations. Sonar drops findings below no root.")
prop("C08", "SARIF reports are consistent",
  "In a SARIF report every result refers, by identifier and by index, to a rule that the report lists; no rule is listed twice and the rules are sorted; a rule refers to the weakness of its findings if there is one and lists no empty relationship otherwise; suppressions are listed in order.",
  ["inputs"], "every list of findings, in every order of rules",
  "Tests build reports with a few findings already in rule order; the indexes matter when rules are met out of order.",
  ["report/sarif"], [("rules and results", "report/sarif/formatter.go: GenerateReport, addRuleInOrder, parseSarifRule"), ("suppressions", "report/sarif/formatter.go: buildSarifSuppressions")],
  note="Proved for lists of every length; findings must carry weaknesses of gosec's own catalogue.")
prop("C09", "Severity and confidence keep their meaning in every format",
  "A severity or confidence has one name, different scores have different names, and SARIF level, SARIF rule properties, Sonar severity and JSON value all follow from the score of the finding: low is never shown as more severe than medium, nor medium as more severe than high.",
  ["inputs"], "every score value, including values outside the three defined ones",
  "The tests compare a report for one finding; the guarantee covers all scores in all mappings.",
  ["issue/issue.go", "report/sarif/formatter.go", "report/sonar/formatter.go"], [("names", "issue/issue.go: Score.String, Score.MarshalJSON"), ("SARIF", "report/sarif/formatter.go: getSarifLevel, parseSarifRule"), ("Sonar", "report/sonar/formatter.go: getSonarSeverity")],
  note="Proved for every score; strings.ToLower is uninterpreted.")
prop("C10", "Every rule has the weakness of the catalogue",
  "Every rule and analyzer gosec registers maps to a weakness of its catalogue, a weakness is found under its own identifier and has that identifier's name and address, and identifiers unknown to the mapping have no weakness.",
  ["inputs"], "every identifier, every registered rule and analyzer",
  "The tests look up a few rules; adding a rule without a weakness, or a weakness under another identifier, breaks reports only for findings of that rule.",
  ["issue/issue.go", "cwe/data.go", "cwe/types.go", "rules/rulelist.go", "analyzers/analyzerslist.go"], [("mapping", "issue/issue.go: GetCweByRule"), ("catalogue", "cwe/data.go: Get; cwe/types.go: SprintID, SprintURL"), ("registered rules", "rules/rulelist.go: Generate; analyzers/analyzerslist.go: Generate")],
  note="Proved over the tables of the current source, which the verifier evaluates.")
prop("C11", "Findings point at the right place",
  "A finding names the file, lines and column of the code it is about and has the rule, severity, confidence and weakness it was created with; its snippet consists of exactly the numbered lines around it; the line text it carries is read back as the same lines by suppression lookup and by every format; and a file below a scan root is reported relative to one of its roots.",
  ["inputs"], "every file, position, line range, snippet and set of scan roots",
  "The tests check positions for single-line findings; ranges, nested and similarly named roots and findings at the first and last line are outside them.",
  ["issue/issue.go", "analyzers/util.go", "analyzer.go", "report/sarif/formatter.go", "report/sonar/formatter.go", "report/text/writer.go"], [("places", "issue/issue.go: New, GetLine, CodeSnippet, codeSnippetStartLine, codeSnippetEndLine; analyzers/util.go: newIssue"), ("reading lines back", "analyzer.go: ignores.parseLine; report/sarif: parseSarifRegion; report/sonar: parseTextRange; report/text: parseLine"), ("relative paths", "report/sarif: parseSarifArtifactLocation; report/sonar: parseFilePath")],
  note="Proved for every input; go/token and the file scanner are stand-ins, and strconv and strings.Split are modelled on decimal numbers joined by a dash. The text of the SARIF snippet is compared on generated findings only.")
prop("C04", "Exactly the chosen rules run",
  "The rules and analyzers that run are the documented ones that the -include list names (all of them when no list is given) and the -exclude list does not name; with suppression tracking the others are loaded too, but marked as suppressed. Each is loaded under its own identifier, with its builder.",
  ["inputs", "configurations"], "every pair of include and exclude lists, every rule identifier, with and without suppression tracking",
  "The tests try one or two lists; the guarantee is for lists of any length, with repetitions, overlaps and unknown identifiers, and for the default of an empty list.",
  ["cmd/gosec/main.go", "rules/rulelist.go", "analyzers/analyzerslist.go"],
  [("reading the lists", "cmd/gosec/main.go: loadRules, loadAnalyzers"), ("filters", "rules/rulelist.go: NewRuleFilter, Generate; analyzers/analyzerslist.go: NewAnalyzerFilter, Generate"), ("handing the rules on", "rules/rulelist.go: RulesInfo; analyzers/analyzerslist.go: AnalyzersInfo")],
  note="Proved for every pair of lists; strings.Split is an uninterpreted function. That every loaded rule's builder returns a rule with its identifier and at least one node type is run for every rule.")
prop("C12", "Configuration values take effect",
  "A global option has the value it was last set to, wherever that came from: the command line goes before the configuration file, and what neither sets is not set. An option counts as enabled exactly when its value is true or enabled. Setting one option or section leaves the others alone; what a configuration file says is read as it is, and what is written is read back. The analyzer's own options follow the configuration.",
  ["inputs", "configurations"], "every configuration, every option, every combination of command-line options",
  "The tests set one option at a time; the guarantee covers every combination of file and command line, and that no option disturbs another.",
  ["config.go", "cmd/gosec/main.go", "analyzer.go"],
  [("options", "config.go: GetGlobal, SetGlobal, IsGlobalEnabled, Get, Set, NewConfig"), ("files", "config.go: ReadFrom, WriteTo, convertGlobals"), ("command line", "cmd/gosec/main.go: loadConfig"), ("analyzer", "analyzer.go: NewAnalyzer")],
  note="Proved for every configuration; reading a file is a stand-in in loadConfig, and encoding/json is compared on generated configurations only.")
prop("C20", "Every rule is run on everything it registered for",
  "A rule is run exactly once, in the order of registration, on every node of the types it was registered for and on no others, with the context of the file being searched, and what it finds is recorded in that order; the imports of a file are known before its rules run. Every Go file of a package is searched exactly once, unless it is generated and generated files are excluded, and is counted. Registering one rule or analyzer changes nothing for the others.",
  ["inputs", "histories"], "every rule set, every node, every package, every order of registration",
  "The tests run one rule on one file; the guarantee is that no rule, node or file is left out or repeated whatever else is registered.",
  ["rule.go", "analyzer.go", "analyzers/analyzers_set.go"],
  [("registration", "rule.go: Register, RegisteredFor, IsRuleSuppressed; analyzers/analyzers_set.go: Register, IsSuppressed; analyzer.go: LoadRules"), ("visiting", "analyzer.go: Visit"), ("files", "analyzer.go: CheckRules")],
  note="Proved for every rule set, node and package; rules are deterministic functions of node and context there, and ast.Walk is a stand-in that records its argument. LoadRules is run on generated rules only.")
prop("C22", "Findings are sorted, and only sorted",
  "Sorting the findings keeps each of them exactly once and lists more severe findings first, then by text, file and line in the documented order; the order does not depend on the order the findings were found in.",
  ["inputs"], "every list of findings",
  "The tests sort a few pairs; a comparison that is not a consistent order or forgets a key shows only on particular triples.",
  ["cmd/gosec/sort_issues.go"], [("sorting", "cmd/gosec/sort_issues.go: sortIssues, extractLineNumber")],
  note="Proved for lists of every length from the contract of slices.SortFunc, whose requirement (a strict weak order) is an obligation. strconv.Atoi and strings.Split are modelled.")
prop("C23", "Errors of the searched code are reported",
  "Every error the Go tool reports for a package is recorded for its file with its line, column and text; errors recorded earlier and errors of other files stay; a package without Go files is no error; a position that cannot be read is an error of the search; and the errors of a file are listed by line and column.",
  ["inputs", "histories"], "every list of package errors, every state of the recorded errors",
  "The tests record one or two errors; the guarantee is that none is lost, moved to another file or made up for any list.",
  ["analyzer.go", "errors.go"], [("recording", "analyzer.go: ParseErrors, AppendError"), ("order", "errors.go: sortErrors, NewError")],
  note="Proved for lists of every length; strings.Split, strconv.Atoi and errors.As are modelled. That sorting keeps every error, and that an error is recorded only once, is compared on generated lists.")
prop("C25", "The search covers exactly the chosen files",
  "For a path that ends in ... every directory below it that has a Go file is searched exactly once, unless one of the given exclusions matches it; a directory that is named is searched. Of a package, all Go and cgo files that its build tags select are searched, its tests exactly when asked for, and the build tags apply to every package of the search.",
  ["inputs", "configurations", "histories"], "every tree of files, every list of exclusions, every package and every list of build tags",
  "The tests search a few fixed trees for one package; the guarantee covers every tree and every sequence of packages.",
  ["helpers.go", "analyzer.go"], [("directories", "helpers.go: PackagePaths, isExcluded, ExcludedDirsRegExp"), ("files", "analyzer.go: load")],
  note="Proved for every tree, with filepath.Walk, build.Context.ImportDir and packages.Load as stand-ins and regular expressions uninterpreted. Which test files are loaded, and what the expressions of -exclude-dir match, is checked on generated inputs only.")
prop("C03", "A nosec directive suppresses exactly what it names",
  "A comment is a directive exactly when the tag (the default, the configured or the alternative one, taken literally) begins one of its lines or it is a gosec:disable comment. At the code it belongs to it suppresses the rules it names before its justification, and all rules exactly when it names none; every directive of the code counts, and none is used when directives are turned off. Every directive is counted, and its suppressions carry its justification.",
  ["inputs", "configurations"], "every comment, every list of comments of a node, every tag, every rule identifier",
  "The tests use a few comments; the guarantee covers every wording, every list of rules, tags with special characters and several comments at one place.",
  ["analyzer.go", "config.go"], [("finding directives", "analyzer.go: findNoSecTag, findNoSecDirective"), ("reading them", "analyzer.go: ignore"), ("recording them", "analyzer.go: updateIgnores, updateIgnoredRulesForNode")],
  note="Proved for every list of comments; regular expressions and the text of comment groups are uninterpreted there, and what they accept is compared with a line-by-line reading of generated comments and source files.")
prop("C24", "Solutions belong to their findings",
  "When solutions are asked for, every finding gets the provider's answer to its own text, texts that occur repeatedly are asked for once, a missing or failed answer is an error, an unknown provider is an error and nothing is sent; the key and the address are the given ones and findings do not change otherwise.",
  ["inputs", "histories"], "every list of findings, every behaviour of the provider",
  "The tests use one finding and one answer; the guarantee covers lists with repeated texts and failures in between.",
  ["autofix/ai.go", "cmd/gosec/main.go"], [("asking", "autofix/ai.go: generateSolutionByGemini, GenerateSolution, GenerateContent"), ("key", "cmd/gosec/main.go: main")],
  note="Proved for every list of findings and every table of answers; the client library is a stand-in. That main passes the key is proved under C13.")
prop("C13", "The command does what its options say",
  "Each option reaches the part it controls and no other: the chosen rules, analyzers, paths, exclusions, build tags and thresholds are the ones searched and filtered with, the printed and the saved report have their chosen formats and hold exactly the filtered findings, the errors and the counts of the search, solutions are made before the report when asked for, and whatever fails on the way ends in a failure status. The command ends early with success only for its version, or when it is quiet and there is nothing to report.",
  ["inputs", "configurations"], "every combination of options, every list of paths, every result of the search",
  "The tests of the command cover helper functions only; main is not run by any test.",
  ["cmd/gosec/main.go"], [("command", "cmd/gosec/main.go: main, getPrintedFormat")],
  note="main is proved for every value of the options with the parts it calls as stand-ins (they are under contract elsewhere); package flag is a stand-in. Whole searches of small trees with random options are run in addition (bounded).")
prop("C14", "Calls are recognised by package and name, whatever the import is called",
  "A call is recognised as one of the listed functions exactly when it is a call of that function or method of that package or type: under any import name, with several names for one package, and not when a different package or a method of another type has the same name. Adding names to a list never removes or changes other entries.",
  ["inputs", "histories"], "every list of calls, every import list, every call expression",
  "The tests recognise a handful of calls; a rule that misses a renamed import or confuses two packages does so only for particular import lists.",
  ["call_list.go", "import_tracker.go", "helpers.go"],
  [("lists", "call_list.go: Add, AddAll, Contains, ContainsPointer, ContainsPkgCallExpr, ContainsCallExpr"), ("imports", "import_tracker.go: TrackImport, TrackFile, TrackPackages, importName"), ("matching", "helpers.go: GetImportedNames, GetImportPath, MatchCallByPackage, GetCallInfo")],
  note="Proved for every list, import list and call; go/types answers are uninterpreted, and the printed form of a type is the library's.")
prop("C15", "A rule reports exactly the code it is documented for",
  "Each rule reports every place of the searched code that its documentation names, and no other: the calls, imports, literals and modes of its list (with configured modes, patterns and lists in place of the defaults), under whatever name a package is imported and wherever in the code they stand, each once and under the rule's identifier.",
  ["inputs", "configurations"], "every package of any number of files, every rule that looks at calls, imports, literals and modes (G101 to G112, G114, G203, G301 to G303, G305 to G307, G401, G403 to G406, G501 to G507), every configuration of it",
  "The tests run each rule on a few samples; the guarantee is for every use of a listed function and every other code.",
  ["rules/unsafe.go", "rules/errors.go", "rules/fileperms.go", "rules/weakcryptohash.go", "rules/rand.go", "rules/rsa.go", "rules/bind.go", "rules/decompression-bomb.go", "rules/integer_overflow.go", "rules/slowloris.go", "rules/tempfiles.go", "rules/archive.go", "rules/blocklist.go", "rules/pprof.go", "rules/hardcoded_credentials.go"],
  [("rules", "rules/*.go: the constructors and Match of the rules named above"), ("modes", "rules/fileperms.go: getConfiguredMode, modeIsSubset, isOsPerm"), ("errors", "rules/errors.go: whitelisted, returnsError")],
  note="The tables and decisions of G102 to G104, G106, G108 to G110, G112, G114, G203, G301, G302, G306, G307, G401, G403 to G406 and G501 to G507 are proved for every node, from the contracts of the matching helpers (C14). All rules named are also run, bounded, on generated packages with marked lines; G101, G111, G303 and G305 only so. The packages the searched code imports are stand-ins with the same paths, names and types.")
prop("C16", "G402 reports exactly the TLS configurations with an unsafe setting",
  "A crypto/tls.Config (literal or assignment to its fields) is reported exactly when InsecureSkipVerify is or may be true, PreferServerCipherSuites is or may be false, a cipher suite outside the list is named, the minimum version is unset or below the required one, or a maximum version is set and below the required one; each literal is judged by its own settings alone, numbers and the constants of crypto/tls mean the same version under any import name, and other types are never reported.",
  ["inputs"], "every configuration, every order of settings, every sequence of configurations in a package, every import list",
  "The rule keeps versions between the nodes it visits, so what it says about one literal can depend on what came before; tests check one literal per file.",
  ["rules/tls.go", "rules/tls_config.go", "helpers.go"],
  [("settings", "rules/tls.go: processTLSConfVal, processTLSCipherSuites, mapVersion"), ("versions", "rules/tls.go: checkVersion, resetVersion"), ("literals", "rules/tls.go: Match, processTLSConf")],
  note="Settings, versions, cipher suites and the loop over a literal are proved for every node and every state left by earlier nodes. The whole rule is also run, bounded, on generated packages with marked lines. Versions given by names of variables are only covered by the bounded check.")
prop("C17", "G115 reports the integer conversions which can lose values",
  "A conversion between integer types (byte and rune included) is reported exactly when the source type has values outside the destination type and the value is not known to fit: a constant in range, a strconv parse with a fitting bit size on every path, len or cap into 64 bits, or a value compared with constants so that only values of the destination type reach the conversion, in a branch of the comparison or after leaving the function otherwise. A comparison with a constant is read exactly: its operator, its side and its branch decide whether the constant itself is included.",
  ["inputs"], "every pair of integer types, every constant, every comparison operator on either side, every branch",
  "Off-by-one errors at the bounds of 12 types, 6 operators, 2 sides and 2 branches; tests sample a few.",
  ["analyzers/conversion_overflow.go"],
  [("types", "analyzers/conversion_overflow.go: isIntOverflow, parseIntType"), ("ranges", "analyzers/conversion_overflow.go: updateMinMaxForLessOrEqual, updateMinMaxForGreaterOrEqual, updateResultFromBinOp, explicitValsInRange"), ("branches", "analyzers/conversion_overflow.go: getResultRange, walkBranchForConvert, hasExplicitRangeCheck")],
  note="How comparisons are read, the negation of ranges, how the bounds of a comparison and a branch are combined, and the decision on types are proved for all constants and values with exact 64-bit arithmetic. Types by name, and the analyzer as a whole on generated functions (12 types, 8 forms of guards, constants around every bound, compared with a direct evaluation over the critical values), are bounded. Two findings are recorded: a check whose body does not leave the function, and alternatives.")
prop("C18", "Constants are not reported as tainted and variables are",
  "The injection rules (G107, G201, G202, G204, G304) report a call of their list exactly when the address, query, command or path given to it has a part that is not known to be constant: literals, constants and variables all of whose assigned values are such are known, results of calls, elements, fields and parameters are not; what the rules document as safe (numeric verbs, quoted identifiers, cleaned paths, contexts) is not reported.",
  ["inputs"], "every expression, every declaration of the variables in it, every import list",
  "The tests run each rule on a few samples; the guarantee is for every way a value is put together from constants and others.",
  ["resolve.go", "rules/ssrf.go", "rules/sql.go", "rules/subproc.go", "rules/readfile.go", "helpers.go"],
  [("constants", "resolve.go: TryResolve, resolveIdent, resolveValueSpec, resolveAssign, resolveCompLit, resolveBinExpr, resolveCallExpr"), ("requests", "rules/ssrf.go: Match, ResolveVar"), ("queries", "rules/sql.go: Match, findQueryArg, checkQuery, checkFormatting, checkObject, constObject"), ("commands", "rules/subproc.go: Match, isContext"), ("paths", "rules/readfile.go: Match, isJoinFunc, isFilepathClean, trackFilepathClean")],
  note="What counts as constant, the lists of functions, the argument that is the query, names of other files and cleaned paths are proved for every node, recursion by the contract of TryResolve. The Match functions of G201, G202, G204 and G304 are run, bounded, on generated packages with marked lines.")
prop("C19", "G602 reports the accesses outside a slice of known length",
  "An access to an element or a part of a slice made with a known length is reported exactly when its constant bounds lie outside what is there, also after the slice was resliced or handed to a function, and not when a comparison of the slice's length with a constant, in whatever form, makes sure the access is only reached when the element exists.",
  ["inputs"], "every length, index and pair of bounds, every comparison operator on either side, either branch",
  "Whether the last element and the empty part count are off-by-one questions at every length; tests sample a few lengths.",
  ["analyzers/slice_bounds.go"],
  [("bounds", "analyzers/slice_bounds.go: isSliceIndexInsideBounds, isSliceInsideBounds, computeSliceNewCap"), ("guards", "analyzers/slice_bounds.go: extractBinOpBound, invBound, extractSliceIfLenCondition"), ("tracking", "analyzers/slice_bounds.go: runSliceBounds, trackSliceBounds, extractSliceBounds, extractSliceCapFromAlloc")],
  note="The bound checks, the length of what is left, how comparisons are read and how operands and lengths are found are proved for all integers. The analyzer as a whole is run, bounded, on generated functions with slices of known length, accesses and guards, against a direct evaluation. Accesses after s[:0] and reslicing beyond the length but within the capacity are left open.")
prop("C21", "A run ends with a report on any valid Go code and any settings",
  "On every package that compiles, with every rule and analyzer enabled and settings of any shape, gosec ends without a crash: no statement form, missing type information, recursive function, unusual argument or setting of an unexpected type makes a rule or an analyzer panic, run forever or exhaust memory.",
  ["inputs", "configurations"], "every valid package, every configuration value",
  "A crash on one unusual construct loses the whole package's findings; tests only run code somebody thought of.",
  ["rules/hardcoded_credentials.go", "rules/directory-traversal.go", "rules/fileperms.go", "rules/errors.go", "analyzers/hardcoded_nonce.go", "analyzers/conversion_overflow.go", "analyzers/slice_bounds.go", "resolve.go"],
  [("settings", "rules/*.go: the constructors that read settings"), ("rules", "rules/*.go: Match"), ("analyzers", "analyzers/*.go: runHardCodedNonce, runConversionOverflow, runSliceBounds")],
  note="Proved for every setting: the constructors of G101, G104 and G111, the modes of G301, G302 and G306, and cutting texts. Patterns are taken to be regular expressions. That no rule or analyzer crashes or runs on is bounded: all of them are run on random packages that use every function and method of the stand-in library in unusual ways. The contracts of the other properties also prove, where they say NoPanic, that no panic is reached.")
prop("C26", "G407 reports fixed nonces wherever they are handed over",
  "A nonce given to Seal, NewCBCEncrypter, NewCFBEncrypter, NewCTR or NewOFB of crypto/cipher that is a literal, a converted string, a package variable or the result of a function that does not call Read of crypto/rand is reported where it is handed over, also when it is handed on as a parameter of any number of functions, methods and recursive functions included. The result of a function that calls Read of crypto/rand, a slice made for a length known at run time and the other arguments are not reported.",
  ["inputs"], "every function, call and chain of parameters of a package",
  "The tests have one sample for each kind of nonce with at most one function between; the guarantee is for every chain of functions, every position of the parameter and several nonces in one package.",
  ["analyzers/hardcoded_nonce.go"],
  [("random functions", "analyzers/hardcoded_nonce.go: isFuncContainsCryptoRand"), ("collecting nonces", "analyzers/hardcoded_nonce.go: getArgsFromTrackedFunctions, iterateTrackedFunctionsAndAddArgs"), ("reporting uses", "analyzers/hardcoded_nonce.go: iterateThroughReferrers, raiseIssue")],
  note="Proved for every package: what counts as a random function, that exactly the nonces of the tracked calls are collected, and that exactly the uses in tracked calls are reported. How a nonce is judged by its form and followed through parameters (raiseIssue) is covered, bounded, by running the analyzer on generated packages with marked lines.")
prop("C27", "Findings do not depend on the order in which packages are searched",
  "Whatever the number of workers and the order in which packages are searched, the same findings are reported.",
  ["schedules"], "every number of workers and every schedule",
  "A test sees one schedule at a time.",
  ["analyzer.go"],
  [("workers", "analyzer.go: Process")],
  na="Needs goroutines, channels and schedules. The verifier reads sequential functions only, and a contract on one function cannot speak about the order in which others run; the stateful rules it would concern are covered one package at a time by C15, C16 and C18.")
