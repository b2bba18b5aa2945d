package checks

import (
	"strings"

	wast "github.com/patrickhuber/go-wasm/wast/ast"
	wastparse "github.com/patrickhuber/go-wasm/wast/parse"

	"verif/harness/mon"
	"verif/harness/wtext"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "S01",
		Rule:     "a case generates a script as tokens together with the syntax tree it denotes, writes it with varying trivia, parses it and compares the trees; a state is the set of constructs of the script",
		Quick:    150000,
		Thorough: 1500000,
		Need:     []string{"module directive", "assert_return", "assert_trap", "assert_invalid", "assert_malformed", "module quote", "component quote", "invoke on a named module", "i32 constant", "i64 constant", "f32 constant", "f64 constant", "nan class", "empty script", "trivia", "func", "component"},
		Run:      runS01,
	})
	mon.Register(&mon.Prop{
		ID:       "S02",
		Rule:     "a case damages the text of a script (tokens removed, repeated, exchanged, replaced, inserted, groups moved, bytes changed, cut off) and compares the library's verdict and tree with an independent parser, and the outcomes for different trivia with each other; a state is the kind of damage with the reference verdict and its reason",
		Quick:    120000,
		Thorough: 1500000,
		Need:     []string{"good", "bad", "unsure", "deep nesting", "damage delete", "damage duplicate", "damage swap", "damage replace", "damage insert", "damage truncate", "damage bytes", "damage move", "damage none", "foreign directive"},
		Run:      runS02,
	})
}

func runS01(c *mon.Case) {
	g := wtext.NewGen(c.R)
	want := g.Script()
	style := c.R.IntN(3)
	if style == 2 {
		c.Event("trivia")
	}
	if len(want.Directives) == 0 {
		c.Event("empty script")
	}
	s := wtext.Render(c.R, g.T, style)
	c.State(events(c, g.Seen))
	c.Log("text %s", s)
	c.Sample("%s", s)
	var got *wast.Wast
	var err error
	c.Try("parsing "+show(s), func() { got, err = wastparse.Parse(s) })
	c.Eval()
	if err != nil {
		c.Fail("script %s refused: %v", shorten(s), err)
	}
	if a, b := dump(got, g.Loose), dump(want, g.Loose); a != b {
		c.Fail("script %s parsed wrongly %s", shorten(s), difference(a, b))
	}
}

func runS02(c *mon.Case) {
	var texts []string
	var kind string
	if c.Chance(2000) {
		in, _ := deep(c.R, watNests)
		texts = []string{"(module (func " + in + "))", "(assert_invalid (module (func " + in + ")) \"x\")"}[c.R.IntN(2):][:1]
		kind = "nesting"
		c.Event("deep nesting")
	} else {
		g := wtext.NewGen(c.R)
		// damage should hit the script and not only its modules
		g.Small = c.R.IntN(3) > 0
		for len(g.T) == 0 {
			g.Script()
		}
		switch c.R.IntN(6) {
		case 0:
			texts = []string{damageBytes(c, wtext.Render(c.R, g.T, c.R.IntN(3)))}
			kind = "bytes"
		default:
			var ts []string
			if c.Chance(5) {
				c.Event("foreign directive")
				ts, kind = damage(c, foreignDirective(c), watVocabulary, "(", ")")
				if c.Chance(2) {
					ts = append(ts, g.T...)
				} else {
					ts = append(append([]string{}, g.T...), ts...)
				}
			} else {
				ts, kind = damage(c, g.T, watVocabulary, "(", ")")
			}
			texts = []string{wtext.Render(c.R, ts, c.R.IntN(2)), wtext.Render(c.R, ts, 2)}
		}
	}
	c.Event("damage " + kind)
	var first error
	for i, s := range texts {
		c.Log("text %s", s)
		c.Sample("%s", s)
		err := judgeWast(c, s, kind)
		if i > 0 && (err == nil) != (first == nil) {
			c.Fail("outcomes differ: %s gave %v, %s gave %v", shorten(texts[0]), first, shorten(s), err)
		}
		first = err
	}
}

// foreignDirective makes a directive with a part that is unknown or need not
// be supported.
func foreignDirective(c *mon.Case) []string {
	constant := func() string {
		return pickOf(c, "( i32.const 1 )", "( ref.null func )", "( ref.null extern )", "( ref.null )", "( ref.extern 1 )", "( ref.extern )", "( ref.foo )", "( foo )", "( nop )", "( i32.const )", "( i32 1 )", "( )", "( f32.const nan:canonical )")
	}
	constants := ""
	for n := c.R.IntN(3); n > 0; n-- {
		constants += " " + constant()
	}
	action := pickOf(c, "( invoke \"f\" "+constants+" )", "( invoke $m \"f\" "+constants+" )", "( get \"g\" )", "( get $m \"g\" )", "( get )", "( foo )", "( foo \"f\" )", "( nop )", "( )", "( invoke )", "( call \"f\" )")
	module := pickOf(c, "( module )", "( module $m )", "( module quote \"\" )", "( module binary \"\" )", "( func )", "( )", "( component )")
	message := pickOf(c, "\"x\"", "\"x\"", "\"x\"", "", "x")
	return strings.Fields(pickOf(c,
		"( register \"m\" )", "( register \"m\" $m )", "( register $m )",
		action, module,
		"( assert_return "+action+" )",
		"( assert_return "+action+" "+constant()+" )",
		"( assert_return "+action+" "+constant()+" "+constant()+" )",
		"( assert_trap "+action+" "+message+" )",
		"( assert_exhaustion "+action+" "+message+" )",
		"( assert_unlinkable "+module+" "+message+" )",
		"( assert_invalid "+module+" "+message+" )",
		"( assert_malformed "+module+" "+message+" )",
		"( assert_foo "+module+" "+message+" )",
		"( foo )", "( )"))
}

// judgeWast compares the parse of a script with the reference.
func judgeWast(c *mon.Case, s, kind string) error {
	want, loose, v, why := wtext.Wast(s)
	var got *wast.Wast
	var err error
	c.Try("parsing "+show(s), func() { got, err = wastparse.Parse(s) })
	c.Eval()
	c.Event(v.String())
	c.State(kind, v, why)
	switch v {
	case wtext.Bad:
		if err == nil {
			c.Fail("malformed script accepted (%s): %s gave %s", why, shorten(s), shorten(dump(got, loose)))
		}
	case wtext.Good:
		if err != nil {
			c.Fail("script %s refused: %v", shorten(s), err)
		}
		if kind != "nesting" {
			if a, b := dump(got, loose), dump(want, loose); a != b {
				c.Fail("script %s parsed wrongly %s", shorten(s), difference(a, b))
			}
		}
	}
	return err
}
