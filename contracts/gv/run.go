package gv

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Rand generates concrete inputs.
type Rand struct {
	*rand.Rand
	Strs []string
	Ints []int64
	strBias string
	vals map[reflect.Type][]reflect.Value
}

var defStrs = []string{"", "a", "b", "A", "low", "medium", "high", "LOW", "G101", "G104", "G401", "G999", "1", "2", "10", "1-3", "12-9", "3-7", "x.go", "/a/b.go", "/a", "/a/bb", "main", "crypto/md5", "nosec", "#nosec", " ", "-", "01", "true", "false", "enabled", "é"}
var defInts = []int64{0, 1, -1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 384, 400, 420, 493, 511, 600, 1000, 1023, 1024, 2047, 2048, 2049, 4096, 32767, 32768, 65535, 65536, 771, 772, 769, 770, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 - 1, 1<<63 - 1, -1 << 63, -128, -32768, -1 << 31}

// NewRand returns a generator for one trial.
func NewRand(seed int64, strs []string, ints []int64) *Rand {
	r := &Rand{Rand: rand.New(rand.NewSource(seed)), vals: map[reflect.Type][]reflect.Value{}}
	r.Strs = append(append([]string{}, defStrs...), strs...)
	r.Ints = append(append([]int64{}, defInts...), ints...)
	// a small working set per trial makes collisions likely
	r.Shuffle(len(r.Strs), func(i, j int) { r.Strs[i], r.Strs[j] = r.Strs[j], r.Strs[i] })
	if r.Intn(3) > 0 {
		r.Strs = r.Strs[:2+r.Intn(5)]
	}
	r.Shuffle(len(r.Ints), func(i, j int) { r.Ints[i], r.Ints[j] = r.Ints[j], r.Ints[i] })
	return r
}

// Str picks a string.
func (r *Rand) Str() string { return r.Strs[r.Intn(len(r.Strs))] }

// Pick picks one of its arguments.
func Pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Int picks an integer.
func (r *Rand) Int() int64 {
	switch r.Intn(4) {
	case 0:
		return int64(r.Intn(6))
	case 1:
		return int64(r.Intn(200)) - 50
	case 2:
		return r.Ints[r.Intn(len(r.Ints))] + int64(r.Intn(3)) - 1
	}
	return r.Ints[r.Intn(len(r.Ints))]
}

// Gen fills a value of type T.
func Gen[T any](r *Rand) T {
	var v T
	r.fill(reflect.ValueOf(&v).Elem(), 5)
	return v
}

// Factories build interface and library values by type.
var Factories = map[reflect.Type]func(r *Rand) any{}

// Factory registers a generator for T.
func Factory[T any](f func(r *Rand) T) {
	Factories[reflect.TypeOf((*T)(nil)).Elem()] = func(r *Rand) any { return f(r) }
}

func (r *Rand) fill(v reflect.Value, depth int) {
	t := v.Type()
	if f, ok := Factories[t]; ok {
		x := f(r)
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	}
	// reuse earlier values of pointer-like and comparable types to create aliasing and equality
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.String, reflect.Slice:
		if vs := r.vals[t]; len(vs) > 0 && r.Intn(4) == 0 {
			v.Set(vs[r.Intn(len(vs))])
			return
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(r.Int()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Int()))
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Slice:
		if depth <= 0 {
			return
		}
		n := r.Intn(5)
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		s := reflect.MakeSlice(t, n, n+r.Intn(3))
		for i := 0; i < n; i++ {
			r.fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if depth <= 0 || r.Intn(8) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		for n := r.Intn(5); n > 0; n-- {
			k := reflect.New(t.Key()).Elem()
			e := reflect.New(t.Elem()).Elem()
			r.fill(k, depth-1)
			r.fill(e, depth-1)
			if k.Kind() == reflect.Interface && k.IsNil() {
				continue
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Pointer:
		if depth <= 0 || r.Intn(8) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		v.Set(p)
		r.fill(p.Elem(), depth-1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				if pk := t.PkgPath(); pk == "" || !strings.HasPrefix(pk, "github.com/securego/") {
					continue
				}
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			r.fill(f, depth-1)
		}
	case reflect.Interface:
		if t.NumMethod() == 0 {
			switch r.Intn(4) {
			case 0:
				v.Set(reflect.ValueOf(r.Str()))
			case 1:
				v.Set(reflect.ValueOf(r.Intn(2) == 0))
			case 2:
				v.Set(reflect.ValueOf(float64(r.Int())))
			}
		} else if t == reflect.TypeOf((*error)(nil)).Elem() && r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(fmt.Errorf("error %s", r.Str())))
		}
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.String, reflect.Slice:
		if t.Kind() != reflect.Slice || r.Intn(2) == 0 {
			r.vals[t] = append(r.vals[t], v)
			if len(r.vals[t]) > 6 {
				r.vals[t] = r.vals[t][1:]
			}
		}
	}
}

// H is one contract.
type H struct {
	Name string
	F    any
	Gen  any // func(*Rand) (params...), optional
}

// Outcome of a native search.
type Outcome struct {
	Harness  string   `json:"harness"`
	Trials   int      `json:"trials"`
	Ran      int      `json:"ran"`
	Distinct int      `json:"distinct"`
	Failed   bool     `json:"failed"`
	Label    string   `json:"label,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	Seed     int64    `json:"seed,omitempty"`
	Args     []string `json:"args,omitempty"`
	Sample   []string `json:"sample,omitempty"`
}

// Try runs a contract once on the inputs of a seed.
func Try(h H, seed int64, strs []string, ints []int64) (fail *Failure, args []string, ran bool) {
	r := NewRand(seed, strs, ints)
	cur = &runState{rand: r}
	f := reflect.ValueOf(h.F)
	var in []reflect.Value
	ok := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				if _, isSkip := e.(skip); isSkip {
					return
				}
				panic(fmt.Sprintf("generator: %v\n%s", e, debug.Stack()))
			}
		}()
		if h.Gen != nil {
			in = reflect.ValueOf(h.Gen).Call([]reflect.Value{reflect.ValueOf(r)})
		} else {
			for i := 0; i < f.Type().NumIn(); i++ {
				v := reflect.New(f.Type().In(i)).Elem()
				r.fill(v, 5)
				in = append(in, v)
			}
		}
		return true
	}()
	if !ok {
		return nil, nil, false
	}
	for _, v := range in {
		args = append(args, Show(v.Interface()))
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(skip); ok {
					return
				}
				if cur.noPanic {
					st := string(debug.Stack())
					cur.failures = append(cur.failures, Failure{Label: "no-panic", Detail: fmt.Sprintf("panic: %v\n%s", e, trimStack(st))})
				}
			}
		}()
		f.Call(in)
	}()
	if len(cur.failures) > 0 {
		fl := cur.failures[0]
		return &fl, args, true
	}
	return nil, args, cur.ensured > 0
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

// Show prints a value for a replay file.
func Show(v any) string {
	s := show(reflect.ValueOf(v), 4)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func show(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	t := v.Type()
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case ast.Node:
			if v.Kind() == reflect.Pointer && v.IsNil() {
				return "nil"
			}
			return fmt.Sprintf("%T(%s)", x, nodeString(x))
		case error:
			return fmt.Sprintf("error(%q)", x.Error())
		}
	}
	if d <= 0 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem(), d)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem(), d)
	case reflect.Slice:
		if v.IsNil() {
			return t.String() + "(nil)"
		}
		fallthrough
	case reflect.Array:
		var ss []string
		for i := 0; i < v.Len(); i++ {
			ss = append(ss, show(v.Index(i), d-1))
		}
		return t.String() + "{" + strings.Join(ss, ", ") + "}"
	case reflect.Map:
		if v.IsNil() {
			return t.String() + "(nil)"
		}
		var ss []string
		for _, k := range v.MapKeys() {
			ss = append(ss, show(k, d-1)+": "+show(v.MapIndex(k), d-1))
		}
		sort.Strings(ss)
		return t.String() + "{" + strings.Join(ss, ", ") + "}"
	case reflect.Struct:
		var ss []string
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			ss = append(ss, t.Field(i).Name+": "+show(v.Field(i), d-1))
		}
		return t.String() + "{" + strings.Join(ss, ", ") + "}"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return t.String()
	}
	return fmt.Sprint(v)
}

// Main searches for inputs on which a contract fails; called from a generated test.
func Main(hs []H) {
	only := os.Getenv("GV_HARNESS")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("GV_BUDGET"), 64)
	if budget == 0 {
		budget = 5
	}
	replay := os.Getenv("GV_REPLAY")
	var strs []string
	var ints []int64
	_ = json.Unmarshal([]byte(os.Getenv("GV_STRS")), &strs)
	_ = json.Unmarshal([]byte(os.Getenv("GV_INTS")), &ints)
	watch := watchdog()
	for _, h := range hs {
		if only != "" && !strings.Contains(","+only+",", ","+h.Name+",") {
			continue
		}
		o := Outcome{Harness: h.Name}
		if replay != "" {
			s, _ := strconv.ParseInt(replay, 10, 64)
			watch(h.Name, s)
			f, args, _ := Try(h, s, strs, ints)
			watch("", s)
			o.Trials, o.Seed, o.Args = 1, s, args
			if f != nil {
				o.Failed, o.Label, o.Detail = true, f.Label, f.Detail
			}
			emit(o)
			continue
		}
		seen := map[string]bool{}
		end := time.Now().Add(time.Duration(budget * float64(time.Second)))
		for i := int64(0); time.Now().Before(end) && i < 2000000; i++ {
			s := seed*1000003 + i
			watch(h.Name, s)
			f, args, ran := Try(h, s, strs, ints)
			watch("", s)
			o.Trials++
			if ran {
				o.Ran++
				if len(seen) < 200000 {
					seen[strings.Join(args, "|")] = true
				}
				if o.Sample == nil && i > 10 {
					o.Sample = args
				}
			}
			if f != nil {
				o.Failed, o.Label, o.Detail, o.Seed, o.Args = true, f.Label, f.Detail, s, args
				break
			}
		}
		o.Distinct = len(seen)
		emit(o)
	}
}

// watchdog returns a function that notes the trial about to run (name "" after it). The trial's seed goes to the
// file GV_PROGRESS names, so that whoever started this process knows which trial it died in; a trial that takes
// over two minutes or over 4 GB is reported as a failure and ends the process.
func watchdog() func(string, int64) {
	var mu sync.Mutex
	var cur string
	var curSeed int64
	var since time.Time
	var pf *os.File
	if p := os.Getenv("GV_PROGRESS"); p != "" {
		pf, _ = os.Create(p)
	}
	sample := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			h, s, t := cur, curSeed, since
			mu.Unlock()
			if h == "" {
				continue
			}
			why := ""
			if d := time.Since(t); d > 120*time.Second {
				why = fmt.Sprintf("still running after %d s", int(d.Seconds()))
			}
			metrics.Read(sample)
			if m := sample[0].Value.Uint64() - sample[1].Value.Uint64(); m > 4<<30 {
				why = fmt.Sprintf("took %d MB of memory", m>>20)
			}
			if why != "" {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				if len(buf) > 3000 {
					buf = buf[:3000]
				}
				emit(Outcome{Harness: h, Trials: 1, Ran: 1, Failed: true, Label: "the call ends", Detail: why + "\n" + string(buf), Seed: s, Args: []string{fmt.Sprintf("trial %d", s)}})
				os.Exit(3)
			}
		}
	}()
	return func(h string, s int64) {
		mu.Lock()
		cur, curSeed, since = h, s, time.Now()
		mu.Unlock()
		if pf != nil && h != "" {
			fmt.Fprint(io.NewOffsetWriter(pf, 0), fmt.Sprintf("%020d", s))
		}
	}
}

func emit(o Outcome) {
	b, _ := json.Marshal(o)
	fmt.Printf("GVOUT %s\n", b)
}

func nodeString(n ast.Node) string {
	if e, ok := n.(ast.Expr); ok {
		return types.ExprString(e)
	}
	return fmt.Sprintf("@%d", n.Pos())
}
