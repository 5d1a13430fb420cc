package gosec

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"regexp"
	"slices"
	"strings"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

func genC03Comment(r *gv.Rand) string {
	t := gv.Pick(r, "#nosec", "#nosec", "#nosec", "#mynosec", "#a.b", "#axb", "nosec", "# nosec")
	s := gv.Pick(r, "//", "// ", "//  ", "/*", "/* ", "// see ", "//gosec:disable ", "//gosec:disable ", "// gosec:disable ", "//gosec:disabled ", "//gosec:disables ", "//x\n")
	if strings.Contains(s, "gosec:") || r.Intn(12) == 0 {
		t = ""
	}
	s += t
	for k := r.Intn(3); k > 0; k-- {
		s += gv.Pick(r, " ", ",", ", ", "  ") + gv.Pick(r, "G101", "G102", "G401", "G1", "101", "G2023")
	}
	if r.Intn(2) == 0 {
		s += gv.Pick(r, " -- ", "--", " --- ", " - ") + gv.Pick(r, "fine", "because of G101", "a -- b", "")
	}
	if r.Intn(12) == 0 {
		s = "//gosec:disable"
	}
	if strings.HasPrefix(s, "/*") {
		s += gv.Pick(r, "*/", " */", "\n*/")
	}
	return s
}

func genC03Group(r *gv.Rand) *ast.CommentGroup {
	g := &ast.CommentGroup{}
	for k := 1 + r.Intn(2); k > 0; k-- {
		for _, l := range strings.Split(genC03Comment(r), "\n//") {
			g.List = append(g.List, &ast.Comment{Text: l})
		}
	}
	return g
}

func genC03Tag(r *gv.Rand) string {
	return gv.Pick(r, "#nosec", "#nosec", "#mynosec", "#a.b", "#(", "#")
}

func gen_C03_tag(r *gv.Rand) (*ast.CommentGroup, string) { return genC03Group(r), genC03Tag(r) }

// the tag begins the comment or one of its lines
func spec_C03_tagged(comment, tag string) bool {
	if strings.HasPrefix(comment, tag) {
		return true
	}
	return regexp.MustCompile("\n *" + regexp.QuoteMeta(tag)).MatchString(comment)
}

// A comment has a tag exactly when the tag begins one of its lines.
func verif_C03_tag(group *ast.CommentGroup, tag string) {
	gv.Requires(group != nil && tag != "")
	gv.Mark()
	if gv.Native() {
		gv.NoPanic()
	}
	found, args := findNoSecTag(group, tag)
	gv.MayPanic()
	gv.Frame()
	comment := strings.TrimSpace(group.Text())
	gv.Ensures("a comment is a directive exactly when the tag begins it or one of its lines", found == spec_C03_tagged(comment, tag))
	if found {
		gv.Ensures("the arguments are what follows the tag", args == strings.SplitN(comment, tag, 2)[1])
	} else {
		gv.Ensures("without the tag there are no arguments", args == "")
	}
	if gv.Native() {
		lines := strings.Split(comment, "\n")
		any := false
		for i, l := range lines {
			if i > 0 {
				l = strings.TrimLeft(l, " ")
			}
			any = any || strings.HasPrefix(l, tag)
		}
		gv.Ensures("the tag is looked for at the beginning of every line", found == any)
	}
}

func gen_C03_directive(r *gv.Rand) (*ast.CommentGroup, string, string) {
	return genC03Group(r), genC03Tag(r), genC03Tag(r)
}

func spec_C03_disable(c *ast.Comment) bool {
	return len(directiveRegexp.FindStringSubmatch(c.Text)) > 0
}

// A group of comments is a directive when it has one of the two tags or a gosec:disable comment.
func verif_C03_directive(group *ast.CommentGroup, def, alt string) {
	gv.Opaque(findNoSecTag)
	gv.Requires(group != nil)
	gv.Requires(gv.All(0, len(group.List), func(k int) bool { return group.List[k] != nil }))
	gv.Inv(func(it int) bool {
		return gv.All(0, it, func(k int) bool { return !spec_C03_disable(group.List[k]) })
	})
	f1, a1 := findNoSecTag(group, def)
	f2, a2 := findNoSecTag(group, alt)
	gv.Mark()
	found, args := findNoSecDirective(group, def, alt)
	gv.Frame()
	gv.Ensures("a group is a directive exactly when it has one of the tags or a disable comment",
		found == (f1 || f2 || gv.Any(0, len(group.List), func(k int) bool { return spec_C03_disable(group.List[k]) })))
	if f1 {
		gv.Ensures("the arguments of the tag are taken", args == a1)
	} else if f2 {
		gv.Ensures("the arguments of the alternative tag are taken", args == a2)
	} else if found {
		gv.Ensures("the arguments of a disable comment are taken", gv.Any(0, len(group.List), func(k int) bool {
			return spec_C03_disable(group.List[k]) && args == directiveRegexp.FindStringSubmatch(group.List[k].Text)[0]
		}))
	} else {
		gv.Ensures("without a directive there are no arguments", args == "")
	}
	if gv.Native() {
		want := false
		for _, c := range group.List {
			want = want || c.Text == "//gosec:disable" || strings.HasPrefix(c.Text, "//gosec:disable ") && len(c.Text) > len("//gosec:disable ") && !strings.Contains(c.Text, "\n")
		}
		gv.Ensures("disable comments have the documented form", found == (f1 || f2 || want))
	}
}

func gen_C03_ignore(r *gv.Rand) (*Analyzer, ast.Node, string) {
	n := &ast.Ident{Name: "x"}
	g := &Analyzer{config: NewConfig(), context: &Context{Comments: ast.CommentMap{}}, stats: &Metrics{NumNosec: r.Intn(3)}, ignoreNosec: r.Intn(8) == 0}
	if r.Intn(3) == 0 {
		g.config.SetGlobal(Nosec, gv.Pick(r, "mynosec", "a.b"))
	}
	if r.Intn(3) == 0 {
		g.config.SetGlobal(NoSecAlternative, gv.Pick(r, "mynosec", "a.b", "nosec"))
	}
	if r.Intn(8) > 0 {
		for k := r.Intn(3); k >= 0; k-- {
			g.context.Comments[n] = append(g.context.Comments[n], genC03Group(r))
		}
	}
	return g, n, gv.Pick(r, "G101", "G102", "G401", "*", "G202", "G1")
}

func spec_C03_opt(c Config, o GlobalOption, unset string) string {
	v, err := c.GetGlobal(o)
	if err != nil {
		return unset
	}
	return "#" + v
}

func spec_C03_rules(args string) [][]string {
	return regexp.MustCompile(`(G\d{3})`).FindAllStringSubmatch(regexp.MustCompile(`-{2,}`).Split(args, 2)[0], -1)
}

func spec_C03_listed(m [][]string, id string) bool {
	return gv.Any(0, len(m), func(j int) bool { return m[j][1] == id })
}

func spec_C03_names(group *ast.CommentGroup, def, alt, id string) bool {
	found, args := findNoSecDirective(group, def, alt)
	m := spec_C03_rules(args)
	return found && (spec_C03_listed(m, id) || len(m) == 0 && id == "*")
}

// A node's directives suppress exactly the rules they name, or all rules when one names none.
func verif_C03_ignore(g *Analyzer, n ast.Node, id string) {
	gv.Requires(g != nil && g.context != nil && g.stats != nil)
	gv.Opaque(findNoSecDirective)
	gv.Opaque(Config.GetGlobal)
	gv.Opaque(NoSecTag)
	gv.Assume("regexp: Split returns at least one part, and a match of an expression with a group has two elements",
		gv.AllOf(func(s string) bool { return len(regexp.MustCompile(`-{2,}`).Split(s, 2)) > 0 }) &&
			gv.AllOf(func(s string) bool {
				m := regexp.MustCompile(`(G\d{3})`).FindAllStringSubmatch(s, -1)
				return gv.All(0, len(m), func(j int) bool { return len(m[j]) == 2 })
			}))
	groups, has := g.context.Comments[n]
	def := NoSecTag("nosec")
	if v, err := g.config.GetGlobal(Nosec); err == nil {
		def = NoSecTag(v)
	}
	alt := def
	if v, err := g.config.GetGlobal(NoSecAlternative); err == nil {
		alt = NoSecTag(v)
	}
	off := g.ignoreNosec
	gv.Mark()
	names := func(k int) bool { return gv.Old(func() bool { return spec_C03_names(groups[k], def, alt, id) }) }
	gv.Inv(func(it int, ignores map[string]issue.SuppressionInfo) bool {
		_, ok := ignores[id]
		return ok == gv.Any(0, it, names)
	})
	gv.Inv(func(it int, ignores map[string]issue.SuppressionInfo, matches [][]string, outer int) bool {
		_, ok := ignores[id]
		return ok == (gv.Any(0, outer, names) || gv.Any(0, it, func(j int) bool { return matches[j][1] == id }))
	})
	gv.Modifies(g.stats)
	res := g.ignore(n)
	gv.Frame()
	_, ok := res[id]
	gv.Ensures("a rule is suppressed at a node exactly when one of its directives names it, or names none",
		ok == (!off && has && gv.Any(0, len(groups), names)))
}

func gen_C03_count(r *gv.Rand) (*Analyzer, ast.Node, string) { return gen_C03_ignore(r) }

// the number of directives among the first n groups
func spec_C03_count(groups []*ast.CommentGroup, n int, def, alt string) int {
	if n <= 0 {
		return 0
	}
	k := spec_C03_count(groups, n-1, def, alt)
	if found, _ := findNoSecDirective(groups[n-1], def, alt); found {
		k++
	}
	return k
}

// Directives are counted once each, and marked as directives of the source.
func verif_C03_count(g *Analyzer, n ast.Node, id string) {
	gv.Requires(g != nil && g.context != nil && g.stats != nil)
	gv.Opaque(findNoSecDirective)
	gv.Opaque(Config.GetGlobal)
	gv.Opaque(NoSecTag)
	groups, has := g.context.Comments[n]
	def := NoSecTag("nosec")
	if v, err := g.config.GetGlobal(Nosec); err == nil {
		def = NoSecTag(v)
	}
	alt := def
	if v, err := g.config.GetGlobal(NoSecAlternative); err == nil {
		alt = NoSecTag(v)
	}
	off := g.ignoreNosec
	before := *g.stats
	want := before.NumNosec
	if has && !off {
		want += spec_C03_count(groups, len(groups), def, alt)
	}
	gv.Mark()
	count := func(k int) int { return gv.Old(func() int { return spec_C03_count(groups, k, def, alt) }) }
	gv.Inv(func(it int) bool { return g.stats.NumNosec == before.NumNosec+count(it) })
	gv.Inv(func(it int, ignores map[string]issue.SuppressionInfo) bool {
		v, ok := ignores[id]
		return !ok || v.Kind == "inSource"
	})
	gv.Modifies(g.stats)
	res := g.ignore(n)
	gv.Frame()
	v, ok := res[id]
	gv.Ensures("suppressions in the source are reported as such", !ok || v.Kind == "inSource")
	gv.Ensures("every directive is counted once", g.stats.NumNosec == want)
	gv.Ensures("the other counts stay", g.stats.NumFiles == before.NumFiles && g.stats.NumLines == before.NumLines && g.stats.NumFound == before.NumFound)
}

// bounded: comments of parsed source files suppress the findings on their lines.
func gen_C03_source(r *gv.Rand) (string, string, bool, []string, string, bool) {
	pre := gv.Pick(r, "", "", "// some words\n", "// #other words\n", "// words that mention #nosec later\n")
	tag := gv.Pick(r, "#nosec", "#nosec", "#mynosec", "#x.y")
	disable := r.Intn(4) == 0
	var ids []string
	for k := r.Intn(3); k > 0; k-- {
		ids = append(ids, gv.Pick(r, "G101", "G102", "G401", "G304"))
	}
	why := gv.Pick(r, "", "", "fine", "it is not G304 -- really", "G101")
	trailing := r.Intn(2) == 0
	return pre, tag, disable, ids, why, trailing
}

func verif_C03_source(pre, tag string, disable bool, ids []string, why string, trailing bool) {
	if !gv.Native() {
		gv.Ensures("tags begin with a number sign", NoSecTag(tag) == "#"+tag)
		return
	}
	c := "// " + tag
	if disable {
		c = "//gosec:disable"
	}
	if len(ids) > 0 {
		c += " " + strings.Join(ids, " ")
	}
	if why != "" {
		c += " -- " + why
	}
	src := "package p\n\nfunc f() {\n\tg()\n\t" + strings.ReplaceAll(pre, "\n", "\n\t") + c + "\n\tg()\n\tg()\n}\n"
	line := 6 + strings.Count(pre, "\n")
	if trailing {
		src = "package p\n\nfunc f() {\n\tg()\n\n\tg() " + c + "\n\n\tg()\n}\n"
		line = 6
		pre = ""
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "/a/x.go", src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	g := &Analyzer{config: NewConfig(), stats: &Metrics{}, context: &Context{FileSet: fset, Comments: ast.NewCommentMap(fset, f, f.Comments)}}
	g.config.SetGlobal(NoSecAlternative, "mynosec")
	known := tag == "#nosec" || tag == "#mynosec" || disable
	g.updateIgnores()
	for _, id := range []string{"G101", "G102", "G401", "G304", "*"} {
		for l := 1; l <= 9; l++ {
			_, got := g.context.Ignores.get("/a/x.go", fmt.Sprint(l))[id]
			want := known && l == line && (slices.Contains(ids, id) || len(ids) == 0 && id == "*")
			if strings.Contains(pre, "#nosec") && !disable {
				continue // the arguments are read from the first mention
			}
			gv.Ensures(fmt.Sprintf("a directive suppresses what it names on its line and nothing else (%s at line %d of %q: %v)", id, l, src, got), got == want)
		}
	}
	if known {
		gv.Ensures("a directive is counted", g.stats.NumNosec == 1)
	}
	if known && len(ids) > 0 {
		for _, s := range g.context.Ignores.get("/a/x.go", fmt.Sprint(line))[ids[0]] {
			gv.Ensures("the justification is kept", s.Kind == "inSource" && (s.Justification == why || strings.Contains(pre, "#nosec")))
		}
	}
}
