// Package mon is the runtime of the monitors: it executes the deterministic
// case list of a property, collects what the monitors observed, and turns a
// failed oracle into a replayable violation.
package mon

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Prop is one checked property.
type Prop struct {
	ID    string
	Level string
	// Rule explains how cases are made and what makes one non-trivial.
	Rule string
	// Assumptions are recorded in the evidence.
	Assumptions []string
	// Cases is the number of cases of a tier.
	Quick, Thorough int
	// Need lists events that must have been observed for the run to count.
	Need []string
	// Serial runs the cases one at a time (allocation accounting).
	Serial bool
	// Race marks a property whose binary has to be built with -race.
	Race bool
	Run  func(c *Case)
}

var registry = map[string]*Prop{}

// Register adds a property to the registry.
func Register(p *Prop) {
	if _, ok := registry[p.ID]; ok {
		panic("duplicate property " + p.ID)
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = p
}

// Lookup finds a property.
func Lookup(id string) *Prop { return registry[id] }

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Case is one execution under observation.
type Case struct {
	Prop   *Prop
	Index  int
	Tier   string
	R      *rand.Rand
	Evals  int
	Events map[string]int
	States map[uint64]struct{}
	Trace  []string
	sample string
	lastOp string
}

// Violation describes a failed oracle.
type Violation struct {
	Case   int      `json:"case"`
	Msg    string   `json:"message"`
	Trace  []string `json:"trace,omitempty"`
	Stack  string   `json:"stack,omitempty"`
	Sample string   `json:"input,omitempty"`
}

type failure struct{ msg string }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// NewCase makes the case with the given index. Everything random in it is
// determined by the seed, the property and the index.
func NewCase(p *Prop, tier string, seed uint64, index int) *Case {
	s := splitmix(seed ^ hashString(p.ID))
	a := splitmix(s + uint64(index)*2)
	b := splitmix(s + uint64(index)*2 + 1)
	return &Case{
		Prop:   p,
		Index:  index,
		Tier:   tier,
		R:      rand.New(rand.NewPCG(a, b)),
		Events: map[string]int{},
		States: map[uint64]struct{}{},
	}
}

// Event counts an observation made by a monitor.
func (c *Case) Event(name string) { c.Events[name]++ }

// EventN counts n observations.
func (c *Case) EventN(name string, n int) {
	if n != 0 {
		c.Events[name] += n
	}
}

// Eval counts one execution judged by an oracle.
func (c *Case) Eval() { c.Evals++ }

// State records the signature of a distinct non-trivial situation.
func (c *Case) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	c.States[h.Sum64()] = struct{}{}
}

// Log appends to the trace of the case, which is part of a replay file.
func (c *Case) Log(format string, args ...any) {
	if len(c.Trace) > 400 {
		c.Trace = append(c.Trace[:50:50], c.Trace[len(c.Trace)-200:]...)
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	c.Trace = append(c.Trace, s)
}

// Sample describes the case for the evidence file.
func (c *Case) Sample(format string, args ...any) {
	if c.sample == "" {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.sample = s
	}
}

// Fail reports a violation and abandons the case.
func (c *Case) Fail(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 8000 {
		s = s[:8000] + "..."
	}
	panic(failure{s})
}

// Chance is true with probability 1/n.
func (c *Case) Chance(n int) bool { return c.R.IntN(n) == 0 }

// Thorough tells whether the deep tier runs.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// Guard runs f and converts a panic of the code under test into an error
// text. Failures of the oracle pass through.
func Guard(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			panicked = fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

// Try runs f and fails the case when the code under test panics.
func (c *Case) Try(what string, f func()) {
	if p := Guard(f); p != "" {
		c.Fail("%s panicked: %s", what, p)
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-wasm/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Execute runs one case and returns its violation, if any.
func Execute(c *Case) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			v = &Violation{Case: c.Index, Trace: c.Trace, Sample: c.sample}
			if fl, ok := r.(failure); ok {
				v.Msg = fl.msg
				return
			}
			v.Msg = fmt.Sprintf("panic: %v", r)
			v.Stack = trimStack(string(debug.Stack()))
		}
	}()
	c.Prop.Run(c)
	return nil
}

// Result aggregates a run.
type Result struct {
	Cases      int             `json:"cases"`
	Evals      int             `json:"evals"`
	Distinct   int             `json:"distinct"`
	Events     map[string]int  `json:"events"`
	Samples    []string        `json:"samples"`
	Violations []*Violation    `json:"violations"`
	states     map[uint64]bool `json:"-"`
}

// RunAll executes the cases with the given parallelism. progress is called
// before and after each case with the worker number.
func RunAll(p *Prop, tier string, seed uint64, n, workers int, progress func(worker, index int)) *Result {
	res := &Result{Events: map[string]int{}, states: map[uint64]bool{}}
	if p.Serial {
		workers = 1
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	stop := false
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= n || stop {
					mu.Unlock()
					progress(w, -1)
					return
				}
				i := next
				next++
				mu.Unlock()
				progress(w, i)
				c := NewCase(p, tier, seed, i)
				v := Execute(c)
				mu.Lock()
				res.Cases++
				res.Evals += c.Evals
				for k, x := range c.Events {
					res.Events[k] += x
				}
				for s := range c.States {
					res.states[s] = true
				}
				if c.sample != "" && (len(res.Samples) < 6 || (i%997 == 0 && len(res.Samples) < 10)) {
					res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, c.sample))
				}
				if v != nil {
					res.Violations = append(res.Violations, v)
					if len(res.Violations) >= 3 {
						stop = true
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	res.Distinct = len(res.states)
	sort.Slice(res.Violations, func(i, j int) bool { return res.Violations[i].Case < res.Violations[j].Case })
	sort.Strings(res.Samples)
	return res
}
