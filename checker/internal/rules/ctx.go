// Package rules holds the property-specific static rules.
package rules

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"time"

	"zkcheck/internal/ai"
	"zkcheck/internal/load"
)

// Ob is one decided obligation: a rule applied to one construct.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

// Key identifies the obligation independently of line numbers.
func (o *Ob) Key() string { return o.Rule + "|" + o.Construct }

// Ctx is the context of one property check.
type Ctx struct {
	Prog     *load.Program
	Prop     string
	Thorough bool

	mu     sync.Mutex
	wg     sync.WaitGroup
	sem    chan struct{}
	Obs    []*Ob
	Funcs  map[string]bool
	Counts map[string]int
	floors map[string]int
	Assume []string
	Notes  []string

	consts map[string][]int64 // integers each package compares with (grid.go)

	running map[string]int // obligations being decided

	done bool // all are decided

	watch bool     // collect unconstrained bits of every machine
	loose []string // what was collected
}

// Rule is a property's decision procedure.
type Rule struct {
	Prop    string
	Explain string
	Run     func(c *Ctx)
}

// All registered property rules.
var All = map[string]*Rule{}

func register(prop, explain string, run func(c *Ctx)) {
	All[prop] = &Rule{prop, explain, run}
}

// NewCtx makes a context.
func NewCtx(p *load.Program, prop string, thorough bool) *Ctx {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return &Ctx{Prog: p, Prop: prop, Thorough: thorough, sem: make(chan struct{}, n),
		running: map[string]int{}, consts: map[string][]int64{}, Funcs: map[string]bool{}, Counts: map[string]int{}, floors: map[string]int{}}
}

// fail is used inside obligations.
type obFail struct{ msg string }

// Failf ends the current obligation with a failure.
func Failf(format string, args ...any) { panic(&obFail{fmt.Sprintf(format, args...)}) }

// T is the handle of a running obligation.
type T struct {
	C  *Ctx
	ms []*ai.Machine

	ord  int          // uses of values whose properties may be asserted later
	late map[int]bool // those for which they are
	more []int        // those found to be, by the current run
}

// M makes a machine over the given field.
func (t *T) M(mod *big.Int) *ai.Machine {
	m := ai.New(t.C.Prog, mod)
	m.Ordinal = func() int { t.ord++; return t.ord }
	m.IsLate = func(n int) bool { return t.late[n] }
	m.Late = func(n int) { t.more = append(t.more, n) }
	t.ms = append(t.ms, m)
	return m
}

// Run runs fn and fails the obligation when it aborts or is undecided.
func (t *T) Run(m *ai.Machine, pkg, fn string, args ...ai.Value) ai.Value {
	o := t.Try(m, pkg, fn, args...)
	if o.Abort != nil {
		Failf("%s.%s stops: %v (%s)", pkg, fn, o.Abort.Val, o.Abort.Pos)
	}
	return o.Ret
}

// Try runs fn; an undecided result fails the obligation.
func (t *T) Try(m *ai.Machine, pkg, fn string, args ...ai.Value) ai.Outcome {
	f := m.Func(pkg, fn)
	if f == nil {
		Failf("anchor %s.%s not found", pkg, fn)
	}
	o := m.Run(f, args...)
	if o.Undecided != nil {
		Failf("%s.%s undecided: %s (%s)", pkg, fn, o.Undecided.Msg, o.Undecided.Pos)
	}
	return o
}

// Ob schedules an obligation.
func (c *Ctx) Ob(rule, construct string, f func(t *T)) {
	if debugOnly != "" && !strings.Contains(rule+"|"+construct, debugOnly) {
		return
	}
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		c.sem <- struct{}{}
		defer func() { <-c.sem }()
		t0 := time.Now()
		if debugTime {
			fmt.Fprintf(os.Stderr, "start %s|%s\n", rule, construct)
		}
		c.mark(rule+"|"+construct, 1)
		c.run(rule, construct, f)
		c.mark(rule+"|"+construct, -1)
		if debugTime {
			fmt.Fprintf(os.Stderr, "%8.2fs %s|%s\n", time.Since(t0).Seconds(), rule, construct)
		}
	}()
}

func (c *Ctx) mark(key string, n int) {
	c.mu.Lock()
	c.running[key] += n
	if c.running[key] == 0 {
		delete(c.running, key)
	}
	c.mu.Unlock()
}

// Limits of a run. A change may make deciding an obligation explode; what
// is known by then must still be reported.
const (
	memLimit   = 16 << 30
	timeLimit  = 780 * time.Second // without any answer
	enoughTime = 400 * time.Second // with a violation found
)

// Guard watches the limits of the run and, when one is exceeded, reports
// what has been found (or, when nothing has, that the obligations being
// decided are undecided) and ends the process.
func (c *Ctx) Guard(root, tier string, seed int, start time.Time, rule *Rule) {
	known := map[string]bool{}
	for _, k := range LoadKnown(filepath.Join(root, "known-findings.txt")) {
		known[k.Prop+" "+k.Key] = true
	}
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(250 * time.Millisecond)
		metrics.Read(sample)
		mem, spent := sample[0].Value.Uint64(), time.Since(start)
		if mem < memLimit && spent < enoughTime {
			continue
		}
		c.mu.Lock()
		if c.done {
			c.mu.Unlock()
			return
		}
		found := false
		for _, o := range c.Obs {
			found = found || !o.OK && !known[c.Prop+" "+o.Key()]
		}
		if !found && mem < memLimit && spent < timeLimit {
			c.mu.Unlock()
			continue
		}
		why := fmt.Sprintf("%d MB in use after %.0f s", mem>>20, spent.Seconds())
		var keys []string
		for k := range c.running {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if !found {
			if len(keys) == 0 {
				keys = []string{"analyser|limits"}
			}
			for _, k := range keys {
				i := strings.Index(k, "|")
				c.Obs = append(c.Obs, &Ob{k[:i], k[i+1:], false, "undecided within the limits of the analysis: " + why})
			}
		}
		c.Notes = append(c.Notes, fmt.Sprintf("ended early (%s) while deciding %v", why, keys))
		sort.SliceStable(c.Obs, func(i, j int) bool { return c.Obs[i].Key() < c.Obs[j].Key() })
		os.Exit(c.Report(root, tier, seed, start, rule))
	}
}

// Development aids: ZKDBG_ONLY restricts the obligations (floors still
// apply, so a restricted run of a check with floors cannot pass).
var (
	debugOnly = os.Getenv("ZKDBG_ONLY")
	debugTime = os.Getenv("ZKDBG_TIME") != ""
)

func (c *Ctx) run(rule, construct string, f func(t *T)) {
	// A property of a value may be asserted after the value has been used
	// (constraints have no order). Such assertions are collected, and the
	// obligation is decided again knowing them from the start.
	late := map[int]bool{}
	for n := 0; ; n++ {
		o, t := c.decide(rule, construct, f, late)
		fresh := false
		for _, k := range t.more {
			fresh = fresh || !late[k]
			late[k] = true
		}
		if fresh && n < 3 {
			continue
		}
		c.record(construct, o, t)
		return
	}
}

func (c *Ctx) decide(rule, construct string, f func(t *T), late map[int]bool) (*Ob, *T) {
	o := &Ob{Rule: rule, Construct: construct, OK: true}
	t := &T{C: c, late: map[int]bool{}}
	for k := range late {
		t.late[k] = true
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.OK = false
				switch x := r.(type) {
				case *obFail:
					o.Detail = x.msg
				case *ai.Undecided:
					o.Detail = "undecided: " + x.Msg + " " + x.Pos
				case *ai.Abort:
					o.Detail = fmt.Sprintf("stops: %v %s", x.Val, x.Pos)
				default:
					o.Detail = fmt.Sprintf("analyser failure: %v\n%s", r, debug.Stack())
				}
			}
		}()
		f(t)
		for _, m := range t.ms {
			for _, g := range m.AtEnd {
				g()
			}
		}
	}()
	return o, t
}

func (c *Ctx) record(construct string, o *Ob, t *T) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Obs = append(c.Obs, o)
	if c.watch && o.OK {
		for _, m := range t.ms {
			if l := looseOf(m); l != "" {
				c.loose = append(c.loose, construct+": "+l)
			}
		}
	}
	for _, m := range t.ms {
		for k := range m.FuncsSeen {
			c.Funcs[k] = true
		}
		c.Counts["circuit_wires"] += len(m.Wires)
		c.Counts["circuit_constraints"] += len(m.Cons)
	}
}

// Fail records an immediate failure.
func (c *Ctx) Fail(rule, construct, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Obs = append(c.Obs, &Ob{rule, construct, false, detail})
}

// Pass records a discharged obligation.
func (c *Ctx) Pass(rule, construct string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Obs = append(c.Obs, &Ob{rule, construct, true, ""})
}

// Check records ok or failure.
func (c *Ctx) Check(rule, construct string, ok bool, detail string) {
	if ok {
		c.Pass(rule, construct)
	} else {
		c.Fail(rule, construct, detail)
	}
}

// Floor demands a minimum number of obligations of a rule.
func (c *Ctx) Floor(rule string, n int) { c.floors[rule] = n }

// Count adds to a coverage counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.Counts[name] += n
	c.mu.Unlock()
}

// SawFunc records an analysed function.
func (c *Ctx) SawFunc(name string) {
	c.mu.Lock()
	c.Funcs[name] = true
	c.mu.Unlock()
}

// Finish waits and applies floors.
func (c *Ctx) Finish() {
	c.wg.Wait()
	c.mu.Lock()
	c.done = true
	c.mu.Unlock()
	per := map[string]int{}
	for _, o := range c.Obs {
		per[o.Rule]++
	}
	for r, n := range c.floors {
		if per[r] < n {
			c.Obs = append(c.Obs, &Ob{r, "instance-count", false, fmt.Sprintf("rule matched %d instances, at least %d expected", per[r], n)})
		}
	}
	sort.SliceStable(c.Obs, func(i, j int) bool { return c.Obs[i].Key() < c.Obs[j].Key() })
}

// Known is one entry of the known-findings file.
type Known struct{ Prop, Key, Text string }

// LoadKnown reads known-findings.txt: lines
//
//	finding: property=<id> key=<rule|construct> :: text
//	fixed: property=<id> <commit> text
func LoadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		head, text := l[:i], l[i+4:]
		k := strings.Index(head, " key=")
		if k < 0 {
			continue
		}
		out = append(out, Known{strings.TrimPrefix(head[:k], "property="), head[k+5:], text})
	}
	return out
}

// Report prints the verdict, writes evidence, and returns the exit code.
func (c *Ctx) Report(root, tier string, seed int, start time.Time, rule *Rule) int {
	known := LoadKnown(filepath.Join(root, "known-findings.txt"))
	os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
	code := 0
	var viol []map[string]any
	dis := 0
	nv := 0
	old, _ := filepath.Glob(filepath.Join(root, "evidence", "replay", c.Prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	rules := map[string]int{}
	for _, o := range c.Obs {
		rules[o.Rule]++
		if o.OK {
			dis++
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.Prop == c.Prop && k.Key == o.Key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.Prop, o.Key(), k.Text)
				isKnown = true
				break
			}
		}
		if isKnown {
			continue
		}
		nv++
		code = 1
		path := filepath.Join(root, "evidence", "replay", fmt.Sprintf("%s-%d.json", c.Prop, nv))
		b, _ := json.MarshalIndent(o, "", " ")
		os.WriteFile(path, b, 0o644)
		if nv <= 12 {
			d := o.Detail
			if len(d) > 1200 {
				d = d[:1200] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n  rule %s on %s: %s\n", c.Prop, path, o.Rule, o.Construct, d)
		}
		viol = append(viol, map[string]any{"summary": o.Key() + ": " + trunc(o.Detail, 300), "replay": path})
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	repoFns := 0
	for _, f := range fns {
		if g := strings.TrimLeft(f, "(*"); strings.HasPrefix(g, "circuits/") || strings.HasPrefix(g, "common/") {
			repoFns++
		}
	}
	var samples []any
	for i, o := range c.Obs {
		if i%(len(c.Obs)/6+1) == 0 {
			samples = append(samples, o)
		}
	}
	cov := map[string]any{
		"explanation":             rule.Explain,
		"obligations":             len(c.Obs),
		"discharged":              dis,
		"obligations_by_rule":     rules,
		"functions_analysed":      repoFns,
		"function_names":          fns,
		"packages_loaded_in_repo": len(c.Prog.Repo),
		"samples":                 samples,
	}
	for k, v := range c.Counts {
		cov[k] = v
	}
	for i, n := range c.Notes {
		cov[fmt.Sprintf("note_%d", i+1)] = n
	}
	ev := map[string]any{
		"property": c.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
	}
	if len(c.Assume) > 0 {
		ev["assumptions"] = c.Assume
	}
	ev["violations"] = nv
	if len(viol) > 0 {
		cov["violation_details"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", c.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions analysed, %.1fs\n", c.Prop, len(c.Obs), dis, repoFns, time.Since(start).Seconds())
	return code
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
