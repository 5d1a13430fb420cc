package autofix

import (
	"context"
	"errors"
	"fmt"

	"github.com/google/generative-ai-go/genai"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

// a model that answers prompts as its tables say, and records what it was asked
type specC24Model struct {
	answers map[string]string
	fails   map[string]bool
	asked   []string
}

func (m *specC24Model) GenerateContent(_ context.Context, prompt string) (string, error) {
	m.asked = append(m.asked, prompt)
	if m.fails[prompt] {
		return "", errors.New("failure")
	}
	return m.answers[prompt], nil
}

type specC24Client struct {
	m    *specC24Model
	name string
}

func (c *specC24Client) Close() error { return nil }

func (c *specC24Client) GenerativeModel(name string) GenAIGenerativeModel {
	c.name = name
	return c.m
}

func gen_C24_gemini(r *gv.Rand) (map[string]string, map[string]bool, []*issue.Issue) {
	a, f := map[string]string{}, map[string]bool{}
	for _, w := range []string{"a", "b", "c", ""} {
		if r.Intn(8) > 0 {
			a[fmt.Sprintf(AIPrompt, w)] = gv.Pick(r, "answer "+w, "other", "answer "+w)
		}
		if r.Intn(8) == 0 {
			f[fmt.Sprintf(AIPrompt, w)] = true
		}
	}
	var l []*issue.Issue
	for k := r.Intn(6); k > 0; k-- {
		l = append(l, &issue.Issue{What: gv.Pick(r, "a", "b", "c", ""), Autofix: gv.Pick(r, "", "old"), File: gv.Pick(r, "x", "y")})
		if r.Intn(6) == 0 {
			l = append(l, l[0])
		}
	}
	return a, f, l
}

func spec_C24_prompt(i *issue.Issue) string { return fmt.Sprintf(AIPrompt, i.What) }

func spec_C24_fails(a map[string]string, f map[string]bool, i *issue.Issue) bool {
	return f[spec_C24_prompt(i)] || a[spec_C24_prompt(i)] == ""
}

// the number of different texts among the first n findings
func spec_C24_texts(l []*issue.Issue, n int) int {
	if n <= 0 {
		return 0
	}
	k := spec_C24_texts(l, n-1)
	if !gv.Any(0, n-1, func(j int) bool { return l[j].What == l[n-1].What }) {
		k++
	}
	return k
}

// Every finding gets the answer to its own text, and each text is asked for once.
func verif_C24_gemini(answers map[string]string, fails map[string]bool, issues []*issue.Issue) {
	gv.Requires(gv.All(0, len(issues), func(k int) bool { return issues[k] != nil }))
	m := &specC24Model{answers: answers, fails: fails}
	c := &specC24Client{m: m}
	gv.Mark()
	bad := func(k int) bool { return gv.Old(func() bool { return spec_C24_fails(answers, fails, issues[k]) }) }
	gv.Inv(func(it int) bool { return gv.All(0, it, func(k int) bool { return !bad(k) }) })
	gv.Inv(func(it int) bool {
		return gv.All(0, it, func(k int) bool { return issues[k].Autofix == answers[spec_C24_prompt(issues[k])] })
	})
	gv.Inv(func(it int) bool {
		return gv.All(0, len(issues), func(k int) bool { return issues[k].What == gv.Old(func() string { return issues[k].What }) })
	})
	gv.Inv(func(it int, cachedAutofix map[string]string) bool {
		return gv.All(0, it, func(k int) bool {
			v, ok := cachedAutofix[issues[k].What]
			return ok && v == answers[spec_C24_prompt(issues[k])]
		})
	})
	gv.Inv(func(it int, cachedAutofix map[string]string) bool {
		return gv.AllKeys(cachedAutofix, func(w string) bool {
			return cachedAutofix[w] == answers[fmt.Sprintf(AIPrompt, w)]
		})
	})
	gv.Inv(func(it int, cachedAutofix map[string]string) bool {
		return gv.AllKeys(cachedAutofix, func(w string) bool {
			return gv.Any(0, it, func(k int) bool { return issues[k].What == w })
		})
	})
	gv.Inv(func(it int) bool {
		return len(m.asked) == gv.Old(func() int { return spec_C24_texts(issues, it) })
	})
	err := generateSolutionByGemini(c, issues)
	gv.Ensures("it fails exactly when the model does not answer for some finding", (err != nil) == gv.Any(0, len(issues), bad))
	if err == nil {
		gv.Ensures("every finding has the answer to its own text", gv.All(0, len(issues), func(k int) bool {
			return issues[k].Autofix == answers[spec_C24_prompt(issues[k])] && issues[k].Autofix != ""
		}))
		gv.Ensures("each text is asked for once", len(m.asked) == gv.Old(func() int { return spec_C24_texts(issues, len(issues)) }))
	}
}

func gen_C24_solution(r *gv.Rand) (string, string, string, []*issue.Issue, int) {
	_, _, l := gen_C24_gemini(r)
	return gv.Pick(r, "", "other", "Gemini", "gemini "), "key", "", append(l, &issue.Issue{What: "x"}), 0
}

// Only a known provider is asked, with the given key and address, and for all findings.
func verif_C24_solution(provider, key, endpoint string, issues []*issue.Issue, j int) {
	gv.Requires(gv.All(0, len(issues), func(k int) bool { return issues[k] != nil }))
	gv.Requires(0 <= j && j < len(issues))
	gv.Requires(!gv.Native() || provider != "gemini")
	created, asked := 0, 0
	down, bad := gv.Arbitrary[bool](), gv.Arbitrary[bool]()
	c := &specC24Client{}
	var withKey, withEndpoint string
	var client GenAIClient
	var given []*issue.Issue
	gv.Stub(NewGenAIClient, func(_ context.Context, key, endpoint string) (GenAIClient, error) {
		created++
		withKey, withEndpoint = key, endpoint
		if down {
			return nil, errors.New("down")
		}
		return c, nil
	})
	gv.Stub(generateSolutionByGemini, func(cl GenAIClient, l []*issue.Issue) error {
		asked++
		client, given = cl, l
		if bad {
			return errors.New("bad")
		}
		return nil
	})
	before := *issues[j]
	gv.NoPanic()
	err := GenerateSolution(provider, key, endpoint, issues)
	if provider != "gemini" {
		gv.Ensures("an unknown provider is an error", err != nil && created == 0 && asked == 0)
	} else {
		gv.Ensures("the provider gets the given key and address", created == 1 && withKey == key && withEndpoint == endpoint)
		gv.Ensures("the provider is asked about the findings", down && asked == 0 || !down && asked == 1 && client == GenAIClient(c) && gv.Same(given, issues))
		gv.Ensures("a failure of the provider is an error", (err != nil) == (down || bad))
	}
	gv.Ensures("the findings stay otherwise", issues[j].What == before.What && issues[j].Autofix == before.Autofix && issues[j].File == before.File && issues[j].Severity == before.Severity)
}

func gen_C24_content(r *gv.Rand) (string, int) { return "", 0 }

// What the provider returns is handed on, and an answer without content is an error.
func verif_C24_content(prompt string, n int) {
	gv.Requires(!gv.Native())
	down := gv.Arbitrary[bool]()
	resp := gv.Arbitrary[*genai.GenerateContentResponse]()
	gv.Requires(down || resp != nil && gv.All(0, len(resp.Candidates), func(k int) bool { return resp.Candidates[k] != nil }))
	gv.Stub((*genai.GenerativeModel).GenerateContent, func(m *genai.GenerativeModel, _ context.Context, parts ...genai.Part) (*genai.GenerateContentResponse, error) {
		if down {
			return nil, errors.New("down")
		}
		return resp, nil
	})
	w := &genAIGenerativeModelWrapper{model: &genai.GenerativeModel{}}
	gv.NoPanic()
	_, err := w.GenerateContent(context.Background(), prompt)
	has := !down && len(resp.Candidates) > 0 && resp.Candidates[0].Content != nil && len(resp.Candidates[0].Content.Parts) > 0
	gv.Ensures("an answer exactly when the provider gives one", (err == nil) == has)
}
