package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/leb128"
	rt "github.com/patrickhuber/go-wasm/runtime"
	wastparse "github.com/patrickhuber/go-wasm/wast/parse"
	watlex "github.com/patrickhuber/go-wasm/wat/lex"
	watparse "github.com/patrickhuber/go-wasm/wat/parse"
	witlex "github.com/patrickhuber/go-wasm/wit/lex"
	witparse "github.com/patrickhuber/go-wasm/wit/parse"

	"verif/harness/cabi"
	"verif/harness/mon"
	"verif/harness/wbin"
	"verif/harness/witext"
	"verif/harness/wtext"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "X01",
		Rule:     "a case prepares some pieces of work of any kind, some sharing types, values, codecs or modules, runs each alone, then several goroutines at once run all of them from a common start under the race detector; every outcome is compared with the one obtained alone; a state is the set of kinds that ran at the same time",
		Quick:    10000,
		Thorough: 100000,
		Need:     append(kindsOfWork(), "same work at once", "different work at once"),
		Race:     true,
		Run:      runX01,
	})
	mon.Register(&mon.Prop{
		ID:       "D01",
		Rule:     "a case prepares some pieces of work of any kind, does them, keeps the results, does other and malformed work and the same work again in another order, and compares new results and the kept ones with the first; inputs are overwritten in between; a state is the kind with the kinds done in between",
		Quick:    80000,
		Thorough: 800000,
		Need:     append(kindsOfWork(), "result kept", "repeated", "failure in between"),
		Run:      runD01,
	})
}

// work is a repeatable piece of work. Running it uses nothing but what was
// prepared and gives a function that shows the result.
type work struct {
	kind string
	run  func() func() string
}

// start runs the work and keeps the result.
func (w *work) start() (show func() string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprintf("panic: %v", r)
			show = func() string { return s }
		}
	}()
	return w.run()
}

// makers prepare work.
var makers = map[string]func(c *mon.Case) func() func() string{
	"module text":     watWork,
	"script":          wastWork,
	"interface text":  witWork,
	"tokens":          tokenWork,
	"numbers":         numberWork,
	"binary":          binaryWork,
	"integers":        lebWork,
	"codec":           codecWork,
	"memory":          memoryWork,
	"core values":     flatWork,
	"layout":          layoutWork,
	"signature":       signatureWork,
	"instance":        instanceWork,
	"case of a check": caseWork,
}

func kindsOfWork() []string {
	var s []string
	for k := range makers {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func newWork(c *mon.Case) *work {
	ks := kindsOfWork()
	k := ks[c.R.IntN(len(ks))]
	return &work{k, makers[k](c)}
}

func result(v any, err error) func() string {
	if err != nil {
		// the wording is not compared
		return func() string { return "error" }
	}
	return func() string { return dump(v, true) }
}

func watWork(c *mon.Case) func() func() string {
	g := wtext.NewGen(c.R)
	g.Directive()
	ts := g.T
	if c.Chance(4) {
		ts, _ = damage(c, ts, watVocabulary, "(", ")")
	}
	s := wtext.Render(c.R, ts, c.R.IntN(3))
	return func() func() string { return result(watparse.Parse(watlex.New(s))) }
}

func wastWork(c *mon.Case) func() func() string {
	g := wtext.NewGen(c.R)
	g.Small = true
	g.Script()
	ts := g.T
	if c.Chance(4) {
		ts, _ = damage(c, ts, watVocabulary, "(", ")")
	}
	s := wtext.Render(c.R, ts, c.R.IntN(3))
	return func() func() string { return result(wastparse.Parse(s)) }
}

func witWork(c *mon.Case) func() func() string {
	g := witext.NewGen(c.R)
	g.File()
	ts := g.T
	if c.Chance(4) {
		ts, _ = damage(c, ts, witVocabulary, "{", "}")
	}
	s := witext.Render(c.R, ts, c.R.IntN(3))
	return func() func() string { return result(witparse.Parse(s)) }
}

func tokenWork(c *mon.Case) func() func() string {
	s := watText(c)
	open := func() *family { return watFamily(watlex.New(s)) }
	if c.Chance(2) {
		s = witText(c)
		open = func() *family { return witFamily(witlex.New(s)) }
	}
	if len(s) > 1<<16 {
		// many tokens are kept for long
		s = strings.ToValidUTF8(s[:1<<16], "")
	}
	return func() func() string {
		f := open()
		var ts []lexeme
		for n := 0; n <= len(s)+1; n++ {
			if n%3 == 1 {
				f.peek()
			}
			t, err := f.next()
			if err != nil || t.end {
				break
			}
			ts = append(ts, t)
		}
		return func() string { return fmt.Sprint(ts) }
	}
}

func numberWork(c *mon.Case) func() func() string {
	g := wtext.NewGen(c.R)
	s := almostNumber(c, g)
	if c.Chance(2) {
		s, _ = g.Float(64)
	}
	return func() func() string {
		var b strings.Builder
		if x, err := watparse.ParseInt32(watlex.New(s)); err == nil {
			fmt.Fprintf(&b, "i32 %d ", x)
		}
		if x, err := watparse.ParseInt64(watlex.New(s)); err == nil {
			fmt.Fprintf(&b, "i64 %d ", x)
		}
		if x, err := watparse.ParseFloat32(watlex.New(s)); err == nil {
			fmt.Fprintf(&b, "f32 %x ", x)
		}
		if x, err := watparse.ParseFloat64(watlex.New(s)); err == nil {
			fmt.Fprintf(&b, "f64 %x ", x)
		}
		return b.String
	}
}

func binaryWork(c *mon.Case) func() func() string {
	m := (&wbin.Gen{R: c.R}).Module()
	b := (&wbin.Encoder{R: c.R, Noise: c.Chance(2)}).Module(m)
	if c.Chance(4) {
		b, _ = corrupt(c, b)
	}
	return func() func() string {
		in := append([]byte{}, b...)
		doc, err := binary.Read(bytes.NewReader(in))
		for i := range in {
			// the input is not needed any more
			in[i] = 0xee
		}
		if err != nil {
			return func() string { return "error" }
		}
		return func() string { return dumpModule(doc) }
	}
}

func lebWork(c *mon.Case) func() func() string {
	var ns []uint32
	for n := 1 + c.R.IntN(20); n > 0; n-- {
		ns = append(ns, number(c))
	}
	return func() func() string {
		var b bytes.Buffer
		w := bufio.NewWriter(&b)
		for _, n := range ns {
			if _, err := leb128.Encode(w, n); err != nil {
				return func() string { return "error" }
			}
		}
		w.Flush()
		enc := append([]byte{}, b.Bytes()...)
		var got []uint32
		r := bufio.NewReader(&b)
		for range ns {
			x, _, err := leb128.Decode(r)
			if err != nil {
				return func() string { return "error" }
			}
			got = append(got, x)
		}
		return func() string { return fmt.Sprintf("%x %v", enc, got) }
	}
}

// codecs are used by all work at once.
var codecs = encoding.DefaultFactory()

func codecWork(c *mon.Case) func() func() string {
	names := []encoding.Encoding{encoding.UTF8, encoding.UTF16, encoding.UTF16BE, encoding.UTF16LE, encoding.Latin1}
	name := names[c.R.IntN(len(names))]
	rs, _, _ := text(c)
	if len(rs) > 5000 {
		rs = rs[:5000]
	}
	s := string(rs)
	return func() func() string {
		codec, err := codecs.Get(name)
		if err != nil {
			return func() string { return "no codec" }
		}
		b, err := encoding.EncodeString(codec, s)
		if err != nil {
			return func() string { return "error" }
		}
		d, err := encoding.DecodeString(codec, bytes.NewReader(b))
		return func() string { return fmt.Sprintf("%x %q %v", b, d, err == nil) }
	}
}

// apart makes a case for work that does its own bookkeeping.
func apart(c *mon.Case, seed uint64) *mon.Case {
	return &mon.Case{Prop: c.Prop, Tier: c.Tier, R: rand.New(rand.NewPCG(seed, 7)), Events: map[string]int{}, States: map[uint64]struct{}{}}
}

func genValue(c *mon.Case) (*cabi.T, any) {
	gen := newGen(c, others()...)
	gen.Big = false
	t := gen.Type()
	gen.Budget = 100
	v := gen.Value(t)
	t.Val()
	return t, v
}

func memoryWork(c *mon.Case) func() func() string {
	t, v := genValue(c)
	val, size, align := t.Val(), t.Size(), t.Align()
	seed := c.R.Uint64()
	return func() func() string {
		g := newGuest(apart(c, seed))
		ptr := g.h.Alloc(size, align)
		if err := io.Store(g.cx(), v, val, uint32(ptr)); err != nil {
			return func() string { return "error" }
		}
		image := append([]byte{}, g.h.Mem()...)
		got, err := io.Load(g.cx(), val, uint32(ptr))
		mem := g.h.Mem()
		for i := range mem {
			mem[i] = 0xee
		}
		return func() string { return fmt.Sprintf("%x %s %v", image, dump(clean(got), true), err == nil) }
	}
}

func flatWork(c *mon.Case) func() func() string {
	t, v := genValue(c)
	val := t.Val()
	seed := c.R.Uint64()
	return func() func() string {
		g := newGuest(apart(c, seed))
		flat, err := io.LowerFlat(g.cx(), v, val)
		if err != nil {
			return func() string { return "error" }
		}
		got, err := io.LiftFlat(g.cx(), values.NewIterator(flat...), val)
		return func() string { return fmt.Sprintf("%v %s %v", flat, dump(clean(got), true), err == nil) }
	}
}

func layoutWork(c *mon.Case) func() func() string {
	t, _ := genValue(c)
	val := t.Val()
	return func() func() string {
		size, err1 := io.Size(val)
		align, err2 := io.Alignment(val)
		flat, err3 := io.FlattenType(val)
		return func() string { return fmt.Sprint(size, align, flat, err1 == nil, err2 == nil, err3 == nil) }
	}
}

func signatureWork(c *mon.Case) func() func() string {
	gen := newGen(c, others()...)
	gen.Big = false
	f := gen.Signature()
	ft := f.Type()
	maxP, maxR := c.R.IntN(20), c.R.IntN(4)
	return func() func() string {
		lower, err1 := io.FlattenFuncTypeLower(ft, maxP, maxR)
		lift, err2 := io.FlattenFuncTypeLift(ft, maxP, maxR)
		if err1 != nil || err2 != nil {
			return func() string { return "error" }
		}
		return func() string {
			return fmt.Sprint(lower.Params(), lower.Results(), lift.Params(), lift.Results())
		}
	}
}

func instanceWork(c *mon.Case) func() func() string {
	var ms []*api.Module
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		m := (&wbin.Gen{R: c.R}).Module()
		doc, err := binary.Read(bytes.NewReader((&wbin.Encoder{R: c.R}).Module(m)))
		if err == nil {
			ms = append(ms, doc.Directive.(*api.Module))
		}
	}
	return func() func() string {
		store := &rt.Store{}
		var is []*rt.ModuleInstance
		for _, m := range ms {
			mi, err := rt.NewModuleInstance(store, m)
			if err != nil {
				return func() string { return "error" }
			}
			is = append(is, mi)
		}
		return func() string {
			var b strings.Builder
			for k, mi := range is {
				for _, e := range ms[k].Exports {
					x, ok := mi.GetExport(e.Name)
					fmt.Fprintf(&b, "%d %q %v %v\n", k, x.Name, x.Value, ok)
				}
			}
			fmt.Fprint(&b, len(store.Funcs))
			return b.String()
		}
	}
}

// caseProps are checks whose cases are small.
var caseProps = []string{"A01", "A02", "A04", "A05", "A06", "A07", "A08", "A10", "A11", "A12", "A13", "E02", "L02", "B03", "R01", "W03", "W07", "W08", "S02", "I03", "I06"}

// caseWork is a case of one of the other checks: instances with memory,
// handles and calls between them.
func caseWork(c *mon.Case) func() func() string {
	p := mon.Lookup(caseProps[c.R.IntN(len(caseProps))])
	seed := c.R.Uint64()
	return func() func() string {
		sub := mon.NewCase(p, "quick", seed, 1)
		v := mon.Execute(sub)
		return func() string { return fmt.Sprint(p.ID, sub.Evals, sub.Events, len(sub.States), v == nil) }
	}
}

func runX01(c *mon.Case) {
	n := 1 + c.R.IntN(5)
	var ws []*work
	var want []string
	var names []string
	for i := 0; i < n; i++ {
		w := newWork(c)
		ws = append(ws, w)
		want = append(want, shorten(w.start()()))
		names = append(names, w.kind)
		c.Event(w.kind)
		c.Log("%s: %s", w.kind, want[i])
	}
	c.Sample("%d goroutines with %s", 4, strings.Join(names, ", "))
	const goroutines = 4
	orders := make([][]int, goroutines)
	for i := range orders {
		orders[i] = c.R.Perm(n)
	}
	if c.Chance(2) {
		// all begin with the same work
		for i := range orders {
			orders[i] = orders[0]
		}
		c.Event("same work at once")
	} else {
		c.Event("different work at once")
	}
	got := make([][]string, goroutines)
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < goroutines; g++ {
		got[g] = make([]string, n)
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-begin
			shows := make([]func() string, n)
			for _, i := range orders[g] {
				shows[i] = ws[i].start()
			}
			for i, s := range shows {
				got[g][i] = shorten(s())
			}
		}(g)
	}
	close(begin)
	wg.Wait()
	for g := range got {
		for i := range got[g] {
			c.Eval()
			if got[g][i] != want[i] {
				c.Fail("%s gives another result next to other work (goroutine %d of %s) %s", ws[i].kind, g, strings.Join(names, ", "), difference(got[g][i], want[i]))
			}
		}
	}
	sort.Strings(names)
	c.State(names)
}

func runD01(c *mon.Case) {
	n := 1 + c.R.IntN(4)
	var ws []*work
	var want []string
	var kept []func() string
	var names []string
	for i := 0; i < n; i++ {
		w := newWork(c)
		ws = append(ws, w)
		k := w.start()
		kept = append(kept, k)
		want = append(want, k())
		names = append(names, w.kind)
		c.Event(w.kind)
		c.Log("%s: %s", w.kind, shorten(want[i]))
	}
	c.Sample("%s", strings.Join(names, ", "))
	check := func(when string) {
		for i, k := range kept {
			if s := k(); s != want[i] {
				c.Fail("a result of %s changed %s (work: %s) %s", ws[i].kind, when, strings.Join(names, ", "), difference(s, want[i]))
			}
			c.Event("result kept")
		}
	}
	check("by doing other work")
	for m := c.R.IntN(4); m > 0; m-- {
		// work that is likely to fail in the middle
		w := newWork(c)
		if w.start()() == "error" {
			c.Event("failure in between")
		}
		names = append(names, "("+w.kind+")")
	}
	for _, i := range c.R.Perm(n) {
		s := ws[i].start()()
		c.Eval()
		if s != want[i] {
			c.Fail("%s gives another result the second time (work: %s) %s", ws[i].kind, strings.Join(names, ", "), difference(s, want[i]))
		}
		c.Event("repeated")
	}
	check("by doing the same work again")
	c.State(names)
}
