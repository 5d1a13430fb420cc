package analyzers

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"github.com/securego/gosec/v2/internal/gv"
	"github.com/securego/gosec/v2/issue"
)

// A call of Read of crypto/rand.
func specC26Read(i ssa.Instruction) bool {
	call, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	f, ok := call.Call.Value.(*ssa.Function)
	return ok && f.Pkg != nil && f.Pkg.Pkg.Path() == "crypto/rand" && f.Name() == "Read"
}

func specC26WellFormed(i ssa.Instruction) bool {
	call, ok := i.(*ssa.Call)
	if !ok {
		return true
	}
	if call == nil {
		return false
	}
	f, ok := call.Call.Value.(*ssa.Function)
	return !ok || f != nil && (f.Pkg == nil || f.Pkg.Pkg != nil)
}

const nonative_C26_random = true

// A function counts as random exactly when one of its instructions calls Read of crypto/rand.
func verif_C26_random(f *ssa.Function) {
	gv.Requires(f == nil || gv.All(0, len(f.Blocks), func(b int) bool {
		return f.Blocks[b] != nil && gv.All(0, len(f.Blocks[b].Instrs), func(i int) bool { return specC26WellFormed(f.Blocks[b].Instrs[i]) })
	}))
	gv.Inv(func(it int) bool {
		return gv.All(0, it, func(b int) bool {
			return gv.All(0, len(f.Blocks[b].Instrs), func(i int) bool { return !specC26Read(f.Blocks[b].Instrs[i]) })
		})
	})
	gv.NoPanic()
	got, err := isFuncContainsCryptoRand(f)
	gv.Ensures("a function is looked at unless there is none", (err != nil) == (f == nil))
	if f != nil {
		gv.Ensures("random exactly when it reads crypto/rand", got == gv.Any(0, len(f.Blocks), func(b int) bool {
			return gv.Any(0, len(f.Blocks[b].Instrs), func(i int) bool { return specC26Read(f.Blocks[b].Instrs[i]) })
		}))
	} else {
		gv.Ensures("nothing is not random", !got)
	}
}

// The instruction calls the function t, which takes a nonce.
func specC26Calls(i ssa.Instruction, t string, args []int) bool {
	call, ok := i.(*ssa.Call)
	if !ok || len(call.Call.Args) != args[0] {
		return false
	}
	if call.Call.Method != nil {
		return call.Call.Method.FullName() == t
	}
	return call.Call.Value.String() == t
}

func specC26Tracked(tracked map[string][]int) bool {
	return gv.AllKeys(tracked, func(t string) bool {
		return len(tracked[t]) == 2 && tracked[t][1] >= 0 && tracked[t][1] < tracked[t][0]
	})
}

func specC26Call(i ssa.Instruction) bool {
	call, ok := i.(*ssa.Call)
	return i != nil && (!ok || call != nil && (call.Call.Method != nil || call.Call.Value != nil) &&
		gv.All(0, len(call.Call.Args), func(k int) bool { return call.Call.Args[k] != nil }))
}

const nonative_C26_argument = true

// A call of a function which takes a nonce adds the nonce, unless it is there already; nothing else is added.
func verif_C26_argument(instr ssa.Instruction, tracked map[string][]int, values map[string]*ssa.Value, key string) {
	gv.Opaque(varsMapKey)
	gv.Requires(specC26Call(instr) && specC26Tracked(tracked) && values != nil)
	before, had := values[key]
	call, _ := instr.(*ssa.Call)
	adds := func(t string) bool {
		return specC26Calls(instr, t, tracked[t]) && varsMapKey(call.Call.Args[tracked[t][1]]) == key
	}
	gv.Inv(func(it int, seen func(string) bool) bool {
		_, has := values[key]
		return has == (had || gv.AnyKey(tracked, func(t string) bool { return seen(t) && adds(t) }))
	})
	gv.Inv(func(it int) bool { return !had || values[key] == before })
	gv.Inv(func(it int) bool {
		v, has := values[key]
		return had || !has || v != nil && varsMapKey(*v) == key && gv.AnyKey(tracked, func(t string) bool { return adds(t) && *v == call.Call.Args[tracked[t][1]] })
	})
	gv.NoPanic()
	iterateTrackedFunctionsAndAddArgs(instr, tracked, values)
	gv.MayPanic()
	after, has := values[key]
	gv.Ensures("a nonce is among the values exactly when it was before or the call takes it", has == (had || gv.AnyKey(tracked, adds)))
	gv.Ensures("what was there before stays", !had || after == before)
	gv.Ensures("what is added is the nonce", had || !has || after != nil && gv.AnyKey(tracked, func(t string) bool { return adds(t) && *after == call.Call.Args[tracked[t][1]] }))
}

const nonative_C26_arguments = true

// Every instruction of every function is looked at for the functions that are tracked.
func verif_C26_arguments(funcs []*ssa.Function, tracked map[string][]int, takes func(i ssa.Instruction) bool, key string, v *ssa.Value, f, b, i int) {
	gv.Requires(gv.All(0, len(funcs), func(f int) bool {
		return funcs[f] != nil && gv.All(0, len(funcs[f].Blocks), func(b int) bool { return funcs[f].Blocks[b] != nil })
	}))
	gv.Stub(iterateTrackedFunctionsAndAddArgs, func(i ssa.Instruction, t map[string][]int, values map[string]*ssa.Value) {
		if takes(i) && len(t) == len(tracked) {
			values[key] = v
		}
	})
	none := func(b *ssa.BasicBlock) bool {
		return gv.All(0, len(b.Instrs), func(i int) bool { return !takes(b.Instrs[i]) })
	}
	nowhere := func(f *ssa.Function) bool {
		return gv.All(0, len(f.Blocks), func(b int) bool { return none(f.Blocks[b]) })
	}
	gv.Requires(0 <= f && f < len(funcs) && 0 <= b && b < len(funcs[f].Blocks) && 0 <= i && i < len(funcs[f].Blocks[b].Instrs))
	one := takes(funcs[f].Blocks[b].Instrs[i])
	gv.Inv(func(it int, values map[string]*ssa.Value, block *ssa.BasicBlock) bool {
		_, has := values[key]
		return has || !one || block != funcs[f].Blocks[b] || it <= i
	})
	gv.Inv(func(it int, values map[string]*ssa.Value, fn *ssa.Function) bool {
		_, has := values[key]
		return has || !one || fn != funcs[f] || it <= b
	})
	gv.Inv(func(it, blocks int, values map[string]*ssa.Value, fn *ssa.Function) bool {
		_, has := values[key]
		return has || !one || fn != funcs[f] || blocks <= b
	})
	gv.Inv(func(it, fns int, values map[string]*ssa.Value) bool {
		_, has := values[key]
		return has || !one || fns <= f
	})
	gv.Inv(func(it int, values map[string]*ssa.Value) bool {
		_, has := values[key]
		return has || !one || it <= f
	})
	gv.Inv(func(it int, values map[string]*ssa.Value) bool {
		_, has := values[key]
		return !has || !gv.All(0, len(funcs), func(f int) bool { return nowhere(funcs[f]) })
	})
	gv.NoPanic()
	values := getArgsFromTrackedFunctions(funcs, tracked)
	gv.MayPanic()
	_, has := values[key]
	gv.Ensures("the nonce of every call in the package is collected", values != nil && (has || !one))
	gv.Ensures("what is collected is the nonce of some call", !has || !gv.All(0, len(funcs), func(f int) bool { return nowhere(funcs[f]) }))
}

const nonative_C26_uses = true

// Every use of a value by a function that is tracked is reported at its place, and no other use.
func verif_C26_uses(v ssa.Value, tracked map[string][]int, id, desc string, fset *token.FileSet, conf issue.Score, line func(p token.Pos) string, r int, t string) {
	gv.Requires(v != nil && tracked != nil && id != "" && desc != "" && fset != nil)
	refs := v.Referrers()
	gv.Requires(refs == nil || gv.All(0, len(*refs), func(i int) bool { return (*refs)[i] != nil }))
	gv.Stub(newIssue, func(i string, d string, f *token.FileSet, p token.Pos, severity, confidence issue.Score) *issue.Issue {
		if f != fset || severity != issue.High {
			return nil
		}
		return &issue.Issue{RuleID: i, What: d, Line: line(p), Confidence: confidence}
	})
	parts := strings.Split(t, ".")
	_, known := tracked[t]
	one := refs != nil && 0 <= r && r < len(*refs) && known && strings.Contains((*refs)[r].String(), parts[len(parts)-1])
	gv.Inv(func(it int, got []*issue.Issue) bool {
		return gv.All(0, len(got), func(k int) bool {
			return got[k] != nil && got[k].RuleID == id && got[k].What == desc && got[k].Confidence == conf && gv.Any(0, len(*refs), func(j int) bool { return got[k].Line == line((*refs)[j].Pos()) })
		})
	})
	gv.Inv(func(it int, got []*issue.Issue, ref ssa.Instruction, seen func(string) bool) bool {
		return !one || ref != (*refs)[r] || !seen(t) || gv.Any(0, len(got), func(k int) bool { return got[k].Line == line((*refs)[r].Pos()) })
	})
	gv.Inv(func(it int, got []*issue.Issue) bool {
		return !one || it <= r || gv.Any(0, len(got), func(k int) bool { return got[k].Line == line((*refs)[r].Pos()) })
	})
	gv.Inv(func(it, n int, got []*issue.Issue) bool {
		return !one || n <= r || gv.Any(0, len(got), func(k int) bool { return got[k].Line == line((*refs)[r].Pos()) })
	})
	gv.NoPanic()
	got, err := iterateThroughReferrers(v, tracked, id, desc, fset, conf)
	gv.MayPanic()
	gv.Ensures("uses are looked at", err == nil)
	gv.Ensures("every use by a function that is tracked is reported at its place", !one || gv.Any(0, len(got), func(k int) bool { return got[k].Line == line((*refs)[r].Pos()) }))
	gv.Ensures("only uses are reported, under the rule and with its confidence", gv.All(0, len(got), func(k int) bool {
		return got[k] != nil && got[k].RuleID == id && got[k].What == desc && got[k].Confidence == conf && refs != nil && gv.Any(0, len(*refs), func(j int) bool { return got[k].Line == line((*refs)[j].Pos()) })
	}))
}

const nonative_C26_untracked = true

// A value that no function uses by one of the names is not reported.
func verif_C26_untracked(v ssa.Value, tracked map[string][]int, id, desc string, fset *token.FileSet, conf issue.Score) {
	gv.Requires(v != nil && tracked != nil && id != "" && desc != "" && fset != nil)
	refs := v.Referrers()
	gv.Requires(refs == nil || gv.All(0, len(*refs), func(i int) bool {
		return (*refs)[i] != nil && gv.AllKeys(tracked, func(t string) bool {
			parts := strings.Split(t, ".")
			return !strings.Contains((*refs)[i].String(), parts[len(parts)-1])
		})
	}))
	got, _ := iterateThroughReferrers(v, tracked, id, desc, fset, conf)
	gv.Ensures("a value used by no function that is tracked is not reported", len(got) == 0)
}
