package checks

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand/v2"
	"strings"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/wat"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"github.com/patrickhuber/go-wasm/wat/token"

	"verif/harness/mon"
	"verif/harness/wtext"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "W01",
		Rule:     "a case lexes a text (tokens, trivia, broken pieces or arbitrary bytes) to its end and checks online that each token continues where the last one stopped, that its text, offset, line and column are those of the input, and that the end is sticky; a state is the set of token kinds seen with how the text ended",
		Quick:    300000,
		Thorough: 3000000,
		Need:     []string{"end", "error", "several lines", "tokens", "non-ascii", "end again", "long text"},
		Run:      runW01,
	})
	mon.Register(&mon.Prop{
		ID:       "W02",
		Rule:     "a case lexes a text and compares kind and content of every meaningful token, and where lexing fails, with an independent lexer; a state is the pair of consecutive kinds or the kind of failure",
		Quick:    400000,
		Thorough: 4000000,
		Need:     []string{"string", "id", "integer", "float", "word", "(", ")", "broken", "end", "almost a number", "nested comment", "comment at the end", "keyword", "long text"},
		Run:      runW02,
	})
	mon.Register(&mon.Prop{
		ID:       "W03",
		Rule:     "a case runs a random sequence of next, peek, clone and assign on a family of lexers over one text and compares every token with the sequence a fresh lexer gives; a state is the pair of consecutive operations with the kind of token",
		Quick:    150000,
		Thorough: 1500000,
		Need:     []string{"next", "peek", "clone", "assign", "peek error", "next error", "end", "clone after peek"},
		Run:      func(c *mon.Case) { lookahead(c, watText(c), watLexer) },
	})
	mon.Register(&mon.Prop{
		ID:       "W04",
		Rule:     "a case generates one to three modules or components as tokens together with the syntax tree they denote, writes them with varying trivia, parses them one after another and compares the trees; a state is the set of constructs of a directive",
		Quick:    150000,
		Thorough: 1500000,
		Need:     append(wtext.InstructionWords(), "func", "type", "table", "memory", "global", "mutable global", "export", "import", "local", "named param", "several results", "block", "loop", "if", "else", "folded", "plain instruction", "numeric index", "inline elements", "maximum", "component", "escape", "byte escape", "unicode escape", "second directive", "trivia", "long list", "deep instruction"),
		Run:      runW04,
	})
	mon.Register(&mon.Prop{
		ID:       "W05",
		Rule:     "a case takes the tokens of a module, often damaged, writes them with single blanks, as little trivia as possible and much trivia, and compares the outcomes of parsing; a state is the kind of damage with the outcome",
		Quick:    120000,
		Thorough: 1200000,
		Need:     []string{"accepted", "refused", "comments"},
		Run:      runW05,
	})
	mon.Register(&mon.Prop{
		ID:       "W06",
		Rule:     "a case spells numbers (all bases, signs, underscores, fractions, exponents, special values, numbers at the limits and half way between two floats) or almost numbers and compares what the four conversions give, also where modules and scripts have numbers, with exact rational arithmetic; a state is the conversion with the features of the spelling and the verdict",
		Quick:    1000000,
		Thorough: 10000000,
		Need:     []string{"good", "bad", "hexadecimal", "underscore", "leading zeros", "negative", "smallest", "plus", "upper half", "infinity", "nan", "subnormal or zero", "format x", "format e", "integer as float", "hexadecimal float", "decimal float", "half way", "empty fraction", "limit", "almost a number", "constant of a module", "limits", "index", "constant of a script"},
		Run:      runW06,
	})
	mon.Register(&mon.Prop{
		ID:       "W07",
		Rule:     "a case damages the text of a module (tokens removed, repeated, exchanged, replaced, inserted, bytes changed, cut off, deep nesting) and compares the library's verdict and tree with an independent parser; a state is the kind of damage with the reference verdict and its reason",
		Quick:    200000,
		Thorough: 2500000,
		Need:     []string{"good", "bad", "unsure", "deep nesting", "damage delete", "damage duplicate", "damage swap", "damage replace", "damage insert", "damage truncate", "damage bytes", "damage none", "damage number", "damage head", "damage spelling", "damage move", "foreign field", "string good", "string bad"},
		Run:      runW07,
	})
	mon.Register(&mon.Prop{
		ID:       "W08",
		Rule:     "a case decodes a text, well-formed or damaged, from a reader that delivers pieces or fails at some offset and compares the outcome with parsing the delivered text; a state is the way of delivery with kind of damage and outcome",
		Quick:    200000,
		Thorough: 2000000,
		Need:     []string{"module", "component", "refused", "fault reported", "fault after a complete text"},
		Run:      runW08,
	})
}

// watPiece makes a piece of text: a token, trivia or something broken.
func watPiece(c *mon.Case, g *wtext.Gen) string {
	switch c.R.IntN(16) {
	case 0:
		return "("
	case 1:
		return ")"
	case 2:
		return g.Id()
	case 3:
		s, _ := g.Str()
		return s
	case 4:
		s, _ := g.Integer(64)
		return s
	case 5:
		s, _ := g.Float(64)
		return s
	case 6, 7:
		c.Event("almost a number")
		return almostNumber(c, g)
	case 8:
		return pickOf(c, "module", "component", "func", "i32.add", "local.get", "$", "inf", "nan", "nan:canonical", "nan:arithmetic", "nan:0x", "0x", "+", "-", "_", ".", "e1", "offset=4", "modul", "Module", "module1", "inf1", "-inf", "+nan", "nan:0x0", "infinity", "NaN")
	case 9, 10, 11:
		return wtext.Trivia(c.R)
	case 12:
		return strings.Repeat(pickOf(c, " ", "\t", "\n", "\r\n"), 1+c.R.IntN(4))
	case 13:
		return "é€"[:c.R.IntN(6)]
	case 14:
		return pickOf(c, "[", "]", "{", "}", ",", ";", "\"", "(;", ";)", "\"\\", "\x00", "\x7f", "\xff", "\\", "'", "`", "~", "|")
	}
	return " "
}

func pickOf(c *mon.Case, s ...string) string { return s[c.R.IntN(len(s))] }

// almostNumber makes a word that is a number or nearly so.
func almostNumber(c *mon.Case, g *wtext.Gen) string {
	var s string
	switch c.R.IntN(3) {
	case 0:
		s, _ = g.Integer(64)
	case 1:
		s, _ = g.Float(64)
	default:
		const chars = "0123456789abcdefxXpPeE+-_.:naif"
		b := make([]byte, 1+c.R.IntN(8))
		for i := range b {
			b[i] = chars[c.R.IntN(len(chars))]
		}
		return string(b)
	}
	b := []byte(s)
	for n := 1 + c.R.IntN(2); n > 0 && len(b) > 0; n-- {
		i := c.R.IntN(len(b))
		const chars = "0189afAFxXpPeE+-__..:ng/:@GZ`gz"
		ch := chars[c.R.IntN(len(chars))]
		switch c.R.IntN(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = ch
		case 2:
			b = append(b[:i], append([]byte{ch}, b[i:]...)...)
		default:
			b = append(b, ch)
		}
	}
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}

// longText makes a text with something very long in it.
func longText(c *mon.Case, piece func() string, runs []string, open, end string) string {
	n := []int{250, 1000, 4080, 16370, 32750, 65520}[c.R.IntN(6)] + c.R.IntN(40)
	mega := c.Chance(12)
	c.Event("long text")
	var b strings.Builder
	before := func() {
		for k := c.R.IntN(4); k > 0; k-- {
			b.WriteString(piece() + " ")
		}
	}
	before()
	switch k := c.R.IntN(len(runs) + 3); {
	case k < len(runs):
		if mega {
			n = 1<<20 - 20 + c.R.IntN(40)
			c.Event("text of a megabyte")
		}
		parts := strings.Split(runs[k], "…")
		b.WriteString(parts[0] + strings.Repeat(parts[1], max(1, n/len(parts[1]))) + parts[2])
	case k == len(runs):
		// comments in comments
		b.WriteString(strings.Repeat(open, n) + strings.Repeat(end, n-c.R.IntN(40)/39))
	default:
		// very many tokens
		for ; n > 0; n-- {
			b.WriteString(piece())
			b.WriteByte(" \n"[c.R.IntN(2)])
		}
	}
	b.WriteString(pickOf(c, " ", "\n", "\r\n"))
	before()
	return b.String()
}

// watText makes a text of any kind.
func watText(c *mon.Case) string {
	g := wtext.NewGen(c.R)
	if c.Chance(1500) {
		return longText(c, func() string {
			for {
				p := watPiece(c, g)
				if ts := wtext.Lex(p); len(ts) == 0 || ts[len(ts)-1].Kind != wtext.Broken {
					return p
				}
			}
		}, []string{"… …", "…\n…", "…\r\n…", "…\t\n …", "$…a…", "a…bc…", "\"…x…\"", "\"…\\n…\"", "\"…\\u{e9}…\"", "\"…é…\"", "1…0…", "0x…f…", "1…_1…", "1.…5…", "0.…0…1e5", ";;…x…\n", ";;…(;…\n", "(;…x…;)", "(;…\n…;)", "(;…;;\n…;)", "…(…", "…)…", "…a …", "…(;x;)…", "…;;\n…"}, "(;", ";)")
	}
	switch c.R.IntN(12) {
	case 0:
		b := make([]byte, c.R.IntN(60))
		for i := range b {
			b[i] = byte(c.R.IntN(256))
		}
		return string(b)
	case 1:
		const chars = "();\"\\$ \n\ta0x-+.;;(("
		b := make([]byte, c.R.IntN(60))
		for i := range b {
			b[i] = chars[c.R.IntN(len(chars))]
		}
		return string(b)
	case 2, 3:
		g.Directive()
		return wtext.Render(c.R, g.T, c.R.IntN(3))
	}
	var b strings.Builder
	tame := c.R.IntN(3) > 0
	for n := c.R.IntN(25); n > 0; n-- {
		p := watPiece(c, g)
		if tame {
			// most texts are without broken pieces
			if ts := wtext.Lex(p); len(ts) > 0 && ts[len(ts)-1].Kind == wtext.Broken {
				continue
			}
			b.WriteString(" ")
		}
		b.WriteString(p)
		if c.R.IntN(3) == 0 {
			b.WriteString(" ")
		}
	}
	if c.Chance(6) {
		b.WriteString(";; the end")
		if c.Chance(2) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

var watKinds = map[token.Type]wtext.Kind{
	token.LineComment: wtext.Line, token.BlockComment: wtext.Block, token.Whitespace: wtext.Space,
	token.OpenParen: wtext.Open, token.CloseParen: wtext.Close, token.String: wtext.Str, token.Id: wtext.Id,
	token.Reserved: wtext.Word, token.Module: wtext.Word, token.Component: wtext.Word,
	token.Integer: wtext.Int, token.Float: wtext.Float, token.EndOfStream: wtext.End,
}

// lexeme is a token of any of the lexers.
type lexeme struct {
	kind           string
	text           string
	pos, line, col int
	end            bool
}

func (l lexeme) String() string {
	return fmt.Sprintf("%s %s at %d (%d:%d)", l.kind, show(l.text), l.pos, l.line, l.col)
}

// place gives line and column of an offset.
func place(s string, pos int) (line, col int) {
	before := s[:pos]
	line = strings.Count(before, "\n")
	return line, pos - (strings.LastIndexByte(before, '\n') + 1)
}

// conserve lexes a text and checks that nothing is lost.
func conserve(c *mon.Case, s string, next func() (lexeme, error)) {
	c.Log("text %q", s)
	c.Sample("%q", s)
	c.Eval()
	pos := 0
	line, col := 0, 0
	kinds := map[string]bool{}
	if strings.IndexFunc(s, func(r rune) bool { return r > 127 }) >= 0 {
		c.Event("non-ascii")
	}
	for n := 0; ; n++ {
		if n > len(s)+1 {
			c.Fail("more tokens than bytes in %s", show(s))
		}
		t, err := next()
		if err != nil {
			c.Event("error")
			c.State("error", kinds)
			return
		}
		c.Log("%v", t)
		c.Event("tokens")
		kinds[t.kind] = true
		if t.pos != pos {
			c.Fail("token %v starts at %d, the last one ended at %d", t, t.pos, pos)
		}
		if pos+len(t.text) > len(s) || s[pos:pos+len(t.text)] != t.text {
			c.Fail("token %v is not the text at its position, which is %s", t, show(s[pos:min(len(s), pos+len(t.text)+1)]))
		}
		if t.line != line || t.col != col {
			wl, wc := place(s, pos)
			c.Fail("token %v is on line %d, column %d", t, wl, wc)
		}
		if t.end {
			if pos != len(s) || t.text != "" {
				c.Fail("end reported at %d of %d: %v", pos, len(s), t)
			}
			c.Event("end")
			if line > 0 {
				c.Event("several lines")
			}
			for i := 0; i < 2; i++ {
				again, err := next()
				if err != nil || again != t {
					c.Fail("after the end %v came %v, %v", t, again, err)
				}
				c.Event("end again")
			}
			c.State("end", kinds)
			return
		}
		if t.text == "" {
			c.Fail("empty token %v", t)
		}
		pos += len(t.text)
		if k := strings.Count(t.text, "\n"); k > 0 {
			line += k
			col = len(t.text) - strings.LastIndexByte(t.text, '\n') - 1
		} else {
			col += len(t.text)
		}
	}
}

func watLexeme(t *token.Token, err error) (lexeme, error) {
	if err != nil {
		return lexeme{}, err
	}
	return lexeme{kind: string(t.Type), text: t.Capture, pos: t.Position, line: t.Line, col: t.Column, end: t.Type == token.EndOfStream}, nil
}

func runW01(c *mon.Case) {
	s := watText(c)
	c.Try("lexing "+show(s), func() {
		l := lex.New(s)
		conserve(c, s, func() (lexeme, error) { return watLexeme(l.Next()) })
	})
}

func runW02(c *mon.Case) {
	s := watText(c)
	c.Log("text %q", s)
	c.Sample("%q", s)
	want := wtext.Lex(s)
	l := lex.New(s)
	last := wtext.End
	for i, w := range want {
		if w.Kind == wtext.Block && strings.Count(w.Text, "(;") > 1 {
			c.Event("nested comment")
		}
		if w.Kind == wtext.Line && i == len(want)-2 && !strings.HasSuffix(w.Text, "\n") {
			c.Event("comment at the end")
		}
		if w.Glued || w.Kind == wtext.Space && strings.ContainsAny(w.Text, "\f\v") {
			c.Event("unsure")
			return
		}
		if w.Trivia() {
			continue
		}
		var got lexeme
		var err error
		c.Try("lexing "+show(s), func() {
			for {
				got, err = watLexeme(l.Next())
				if err != nil || got.kind != string(token.Whitespace) && got.kind != string(token.LineComment) && got.kind != string(token.BlockComment) {
					return
				}
				if got.text == "" {
					c.Fail("empty token %v in %s", got, show(s))
				}
			}
		})
		c.Eval()
		c.Event(w.Kind.String())
		c.State(last, w.Kind)
		last = w.Kind
		if w.Kind == wtext.Broken {
			if err == nil {
				c.Fail("%s is broken at %d, the lexer found %v", show(s), w.Pos, got)
			}
			return
		}
		if err != nil {
			c.Fail("%s has the %v %s at %d, the lexer failed: %v", show(s), w.Kind, show(w.Text), w.Pos, err)
		}
		if watKinds[token.Type(got.kind)] != w.Kind || got.text != w.Text || got.pos != w.Pos {
			c.Fail("%s has the %v %s at %d, the lexer found %v", show(s), w.Kind, show(w.Text), w.Pos, got)
		}
		if w.Kind == wtext.Word {
			// the two words that begin a directive are told apart
			kind := token.Reserved
			switch w.Text {
			case "module":
				kind = token.Module
			case "component":
				kind = token.Component
			}
			if kind != token.Reserved {
				c.Event("keyword")
			}
			if got.kind != string(kind) {
				c.Fail("word %s is of kind %s, not %s", show(w.Text), got.kind, kind)
			}
		}
	}
}

// family is a lexer with lookahead.
type family struct {
	next, peek func() (lexeme, error)
	clone      func() *family
	assign     func(from *family)
	self       any
}

func watLexer(s string) *family { return watFamily(lex.New(s)) }

func watFamily(l *lex.Lexer) *family {
	return &family{
		next:   func() (lexeme, error) { return watLexeme(l.Next()) },
		peek:   func() (lexeme, error) { return watLexeme(l.Peek()) },
		clone:  func() *family { return watFamily(l.Clone()) },
		assign: func(from *family) { *l = *from.self.(*lex.Lexer) },
		self:   l,
	}
}

// lookahead runs random operations on lexers.
func lookahead(c *mon.Case, s string, open func(string) *family) {
	c.Log("text %q", s)
	c.Sample("%q", s)
	var want []lexeme
	failed := false
	c.Try("lexing "+show(s), func() {
		l := open(s)
		for len(want) <= len(s)+1 {
			t, err := l.next()
			if err != nil {
				failed = true
				return
			}
			want = append(want, t)
			if t.end {
				return
			}
		}
		c.Fail("more tokens than bytes in %s", show(s))
	})
	type member struct {
		f      *family
		at     int
		peeked bool
	}
	ms := []*member{{f: open(s)}}
	lastOp := ""
	check := func(op string, m *member, t lexeme, err error) bool {
		c.Eval()
		c.Event(op)
		if m.at >= len(want) {
			if !failed {
				// the end repeats
				m.at = len(want) - 1
			} else {
				if err == nil {
					c.Fail("%s gave %v where lexing fails", op, t)
				}
				c.Event(op + " error")
				c.State(lastOp, op, "error")
				return false
			}
		}
		if err != nil {
			c.Fail("%s failed with %v where %v comes", op, err, want[m.at])
		}
		if t != want[m.at] {
			c.Fail("%s gave %v where %v comes", op, t, want[m.at])
		}
		if t.end {
			c.Event("end")
		}
		c.State(lastOp, op, t.kind)
		return true
	}
	for n := 3 + c.R.IntN(40); n > 0 && len(ms) > 0; n-- {
		i := c.R.IntN(len(ms))
		m := ms[i]
		op := pickOf(c, "next", "next", "next", "peek", "peek", "clone", "assign")
		alive := true
		c.Try(op+" on "+show(s), func() {
			switch op {
			case "next":
				t, err := m.f.next()
				c.Log("lexer %d next: %v, %v", i, t, err)
				if alive = check(op, m, t, err); alive {
					m.at++
					m.peeked = false
				}
			case "peek":
				t, err := m.f.peek()
				c.Log("lexer %d peek: %v, %v", i, t, err)
				alive = check(op, m, t, err)
				m.peeked = true
			case "clone":
				if len(ms) > 5 {
					return
				}
				c.Log("lexer %d cloned as %d", i, len(ms))
				c.Event(op)
				if m.peeked {
					c.Event("clone after peek")
				}
				ms = append(ms, &member{f: m.f.clone(), at: m.at, peeked: m.peeked})
			case "assign":
				j := c.R.IntN(len(ms))
				if i == j {
					return
				}
				c.Log("lexer %d becomes %d", i, j)
				c.Event(op)
				m.f.assign(ms[j].f)
				m.at = ms[j].at
				m.peeked = ms[j].peeked
			}
		})
		lastOp = op
		if !alive {
			// what a lexer does after an error is not specified
			ms = append(ms[:i], ms[i+1:]...)
		}
	}
	// all of them have to give the rest of the text
	for i, m := range ms {
		for {
			var t lexeme
			var err error
			c.Try("next", func() { t, err = m.f.next() })
			c.Log("lexer %d drains: %v, %v", i, t, err)
			if !check("next", m, t, err) || t.end {
				break
			}
			m.at++
		}
	}
}

func events(c *mon.Case, seen map[string]int) string {
	var names []string
	for k, n := range seen {
		c.EventN(k, n)
		names = append(names, k)
	}
	return fmt.Sprint(sorted(names))
}

func sorted(s []string) []string {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

func runW04(c *mon.Case) {
	n := 1
	if c.Chance(4) {
		n = 2 + c.R.IntN(2)
	}
	style := c.R.IntN(3)
	if style == 2 {
		c.Event("trivia")
	}
	var all []string
	var want []string
	for i := 0; i < n; i++ {
		g := wtext.NewGen(c.R)
		d := g.Directive()
		all = append(all, g.T...)
		want = append(want, dump(d, false))
		c.State(events(c, g.Seen))
	}
	s := wtext.Render(c.R, all, style)
	c.Log("text %s", s)
	c.Sample("%s", s)
	l := lex.New(s)
	for i, w := range want {
		var d ast.Directive
		var err error
		c.Try("parsing "+show(s), func() { d, err = parse.Parse(l) })
		c.Eval()
		if err != nil {
			c.Fail("directive %d of %s refused: %v", i, shorten(s), err)
		}
		if got := dump(d, false); got != w {
			c.Fail("directive %d of %s parsed wrongly %s", i, shorten(s), difference(got, w))
		}
		if i > 0 {
			c.Event("second directive")
		}
	}
	c.Try("peek at the end", func() {
		t, err := parse.Peek(l)
		if err != nil || t.Type != token.EndOfStream {
			c.Fail("after the last directive of %s comes %v, %v", shorten(s), t, err)
		}
	})
}

// watVocabulary holds tokens to damage a text with.
var watVocabulary = append(wtext.InstructionWords(), "(", ")", "(", ")", "(", ")", "module", "component", "func", "type", "table", "memory", "global", "param", "result", "local", "export", "import", "mut", "elem", "then", "else", "block", "loop", "if", "end", "nop", "unreachable", "i32", "i64", "f32", "f64", "funcref", "externref", "v128", "start", "data", "offset=4", "$a", "$b", "$", "\"x\"", "\"\"", "\"\\zz\"", "\"\\u{d800}\"", "0", "1", "-1", "+1", "0x10", "4294967295", "4294967296", "-2147483648", "-2147483649", "18446744073709551615", "18446744073709551616", "1.5", "inf", "nan", "-0x1p3", "1e400", "1e39", "nan:0x0", "nan:0x400000", "nan:0x800000", "i32.foo", "i32.ad", "i32.addd", "funk", "local.geT", "foo", "assert_return", "assert_trap", "assert_invalid", "assert_malformed", "invoke", "get", "quote", "binary", "nan:canonical", "register", "assert_foo", "ref.null")

// damage changes a list of tokens.
func damage(c *mon.Case, ts []string, vocabulary []string, open, shut string) ([]string, string) {
	ts = append([]string{}, ts...)
	kind := ""
	for n := 1 + c.R.IntN(2)*c.R.IntN(2); n > 0; n-- {
		if len(ts) == 0 {
			ts = []string{open}
		}
		i := c.R.IntN(len(ts))
		kind = pickOf(c, "delete", "duplicate", "swap", "replace", "replace", "insert", "truncate", "none", "neighbours", "move", "number", "head", "spelling", "siblings", "hollow", "nothing", "again", "wrap", "unwrap")
		switch kind {
		case "delete":
			ts = append(ts[:i], ts[i+1:]...)
		case "duplicate":
			ts = append(ts[:i+1], ts[i:]...)
		case "swap":
			j := c.R.IntN(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case "neighbours":
			j := min(i+1, len(ts)-1)
			ts[i], ts[j] = ts[j], ts[i]
		case "replace":
			ts[i] = vocabulary[c.R.IntN(len(vocabulary))]
		case "insert":
			ts = append(ts[:i], append([]string{vocabulary[c.R.IntN(len(vocabulary))]}, ts[i:]...)...)
		case "truncate":
			ts = ts[:i]
		case "number":
			// a number becomes another one
			var at []int
			for j, t := range ts {
				if numeric(t) {
					at = append(at, j)
				}
			}
			v := vocabulary[c.R.IntN(len(vocabulary))]
			for k := 0; k < 50 && !numeric(v); k++ {
				v = vocabulary[c.R.IntN(len(vocabulary))]
			}
			if len(at) > 0 {
				ts[at[c.R.IntN(len(at))]] = v
			}
		case "head":
			// what follows a parenthesis becomes something else
			for j := range ts {
				k := (i + j) % len(ts)
				if ts[k] == open && k+1 < len(ts) {
					ts[k+1] = vocabulary[c.R.IntN(len(vocabulary))]
					break
				}
			}
		case "spelling":
			// a token loses, gains or changes a character
			t := ts[i]
			if strings.Trim(t, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.$") != "" {
				break // not a word
			}
			j := c.R.IntN(len(t) + 1)
			switch c.R.IntN(3) {
			case 0:
				t = t[:j] + pickOf(c, "a", "s", "1", "_", "x") + t[j:]
			case 1:
				if j < len(t) {
					t = t[:j] + t[j+1:]
				}
			default:
				if j < len(t) && t[j] >= 'a' && t[j] <= 'z' {
					t = t[:j] + pickOf(c, "a", "b", "A", "e", "1", "2", "6") + t[j+1:]
				}
			}
			if t == "" {
				ts = append(ts[:i], ts[i+1:]...)
			} else {
				ts[i] = t
			}
		case "siblings":
			// exchange two groups that follow each other
			var at []int
			for j := 1; j < len(ts); j++ {
				if ts[j-1] == shut && ts[j] == open {
					at = append(at, j)
				}
			}
			if len(at) == 0 {
				break
			}
			j := at[c.R.IntN(len(at))]
			first, second := before(ts, j, open, shut), group(ts, j, open, shut)
			if first < 0 || second == nil {
				break
			}
			out := append([]string{}, ts[:first]...)
			out = append(out, ts[j:second[1]]...)
			out = append(out, ts[first:j]...)
			ts = append(out, ts[second[1]:]...)
		case "hollow":
			// a group loses what it holds
			if g := group(ts, i, open, shut); g != nil {
				ts = append(ts[:g[0]+1], ts[g[1]-1:]...)
			}
		case "nothing":
			// a group that holds nothing
			ts = append(ts[:i], append([]string{open, shut}, ts[i:]...)...)
		case "again":
			// a group is repeated
			if g := group(ts, i, open, shut); g != nil {
				ts = append(ts[:g[1]], append(append([]string{}, ts[g[0]:g[1]]...), ts[g[1]:]...)...)
			}
		case "wrap", "unwrap":
			// a group gains or loses parentheses
			if g := group(ts, i, open, shut); g != nil {
				out := append([]string{}, ts[:g[0]]...)
				if kind == "wrap" {
					out = append(append(append(out, open), ts[g[0]:g[1]]...), shut)
				} else {
					out = append(out, ts[g[0]+1:g[1]-1]...)
				}
				ts = append(out, ts[g[1]:]...)
			}
		case "move":
			// move a group in parentheses somewhere else
			g := group(ts, i, open, shut)
			if g == nil {
				break
			}
			part := append([]string{}, ts[g[0]:g[1]]...)
			ts = append(ts[:g[0]], ts[g[1]:]...)
			if len(ts) == 0 {
				ts = part
				break
			}
			j := c.R.IntN(len(ts))
			ts = append(ts[:j], append(part, ts[j:]...)...)
		}
	}
	return ts, kind
}

func numeric(t string) bool {
	t = strings.TrimLeft(t, "+-")
	return t != "" && t[0] >= '0' && t[0] <= '9'
}

// before finds the start of the group that ends in front of a token.
func before(ts []string, i int, open, shut string) int {
	depth := 0
	for i--; i >= 0; i-- {
		if ts[i] == shut {
			depth++
		}
		if ts[i] == open {
			depth--
			if depth == 0 {
				return i
			}
		}
	}
	return -1
}

// group finds the parentheses around a token.
func group(ts []string, i int, open, shut string) []int {
	depth := 0
	for ; i >= 0; i-- {
		if ts[i] == shut {
			depth++
		}
		if ts[i] == open {
			if depth == 0 {
				break
			}
			depth--
		}
	}
	if i <= 0 {
		return nil
	}
	depth = 0
	for j := i; j < len(ts); j++ {
		if ts[j] == open {
			depth++
		}
		if ts[j] == shut {
			depth--
			if depth == 0 {
				return []int{i, j + 1}
			}
		}
	}
	return nil
}

func runW05(c *mon.Case) {
	g := wtext.NewGen(c.R)
	g.Directive()
	ts, kind := g.T, "none"
	if c.Chance(2) {
		ts, kind = damage(c, ts, watVocabulary, "(", ")")
	}
	trivia(c, ts, kind, func(style int) string { return wtext.Render(c.R, ts, style) }, func(s string) (string, error) {
		d, err := parse.Parse(lex.New(s))
		return dump(d, false), err
	})
}

// trivia compares the outcomes for texts that differ in trivia only.
func trivia(c *mon.Case, ts []string, kind string, render func(int) string, run func(string) (string, error)) {
	var first, firstText string
	var firstErr error
	for style := 0; style < 3; style++ {
		s := render(style)
		c.Log("text %s", s)
		c.Sample("%s", s)
		var got string
		var err error
		c.Try("parsing "+show(s), func() { got, err = run(s) })
		c.Eval()
		if style == 0 {
			first, firstText, firstErr = got, s, err
			continue
		}
		if (err == nil) != (firstErr == nil) {
			c.Fail("outcomes differ: %s gave %v, %s gave %v", shorten(firstText), firstErr, shorten(s), err)
		}
		if err == nil && got != first {
			c.Fail("trees of %s and %s differ %s", shorten(firstText), shorten(s), difference(got, first))
		}
		if style == 2 {
			c.Event("comments")
		}
	}
	outcome := "accepted"
	if firstErr != nil {
		outcome = "refused"
	}
	c.Event(outcome)
	c.State(kind, outcome, min(len(ts), 100))
}

func runW06(c *mon.Case) {
	g := wtext.NewGen(c.R)
	var s string
	size := 32 << c.R.IntN(2)
	var exact *uint64
	isFloat := false
	switch c.R.IntN(5) {
	case 0:
		var x uint64
		s, x = g.Integer(size)
		exact = &x
	case 1, 2:
		var x uint64
		s, x = g.Float(size)
		exact = &x
		isFloat = true
	case 3:
		// around the limits
		c.Event("limit")
		p := uint(31 + 32*c.R.IntN(2) + c.R.IntN(2))
		n := new(big.Int).Lsh(big.NewInt(1), p)
		n.Add(n, big.NewInt(int64(c.R.IntN(3)-1)))
		s = pickOf(c, "", "", "-", "+") + g.Magnitude(n)
		if c.Chance(3) {
			s = pickOf(c, "", "-") + pickOf(c, "3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973365e38", "3.40282356779733661637539395458142568448e38", "3.40282356779733661637539395458142568447e38", "1.7976931348623157e308", "1.7976931348623159e308", "1.797693134862315808e308", "0x1.fffffep127", "0x1.ffffffp127", "0x1.fffffefffffffp127", "0x1.fffffffffffffp1023", "0x1.fffffffffffff8p1023", "0x1.fffffffffffff7p1023", "1e-45", "7e-46", "7.006e-46", "0x1p-149", "0x1p-150", "0x1.8p-150", "0x1p-1074", "0x1p-1075", "0x1.1p-1075", "5e-324", "2e-324", "0e99999", "0x0p99999", "1e-99999", "1e99999", "nan:0x7fffff", "nan:0x800000", "nan:0xfffffffffffff", "nan:0x10000000000000", "nan:0x0", "nan:0x1", "nan:0x400000", "nan:0x8000000000000", "nan:0x00001")
		}
	default:
		c.Event("almost a number")
		s = almostNumber(c, g)
	}
	events(c, g.Seen)
	// separate the literal from what follows
	rest := pickOf(c, " 7", ")", "(", "\n8", ";; x", "(;;)9", "", " ")
	lead := pickOf(c, "", " ", "(; c ;)", "\n;;\n")
	text := lead + s + rest
	ref := wtext.Lex(text)
	var tok wtext.Token
	for _, t := range ref {
		if !t.Trivia() {
			tok = t
			break
		}
	}
	c.Log("text %q", text)
	c.Sample("%q", text)
	for _, f := range []string{"i32", "i64", "f32", "f64"} {
		bits := 32
		if f[1] == '6' {
			bits = 64
		}
		var want uint64
		v := wtext.Bad
		anyNaN := false
		switch {
		case f[0] == 'i' && tok.Kind == wtext.Int:
			want, v = wtext.Integer(tok.Text, bits)
		case f[0] == 'f' && (tok.Kind == wtext.Int || tok.Kind == wtext.Float):
			want, anyNaN, v = wtext.Floating(tok.Text, bits)
		}
		if exact != nil && bits == size && (f[0] == 'f') == isFloat {
			// the generator knows the number independently of the reference
			if v == wtext.Bad || want != *exact && !anyNaN {
				c.Fail("the reference contradicts the generator for %s: %v %x, %x", s, v, want, *exact)
			}
		}
		var got uint64
		var err error
		l := lex.New(text)
		c.Try("converting "+show(text), func() {
			switch f {
			case "i32":
				var x int32
				x, err = parse.ParseInt32(l)
				got = uint64(uint32(x))
			case "i64":
				var x int64
				x, err = parse.ParseInt64(l)
				got = uint64(x)
			case "f32":
				var x float32
				x, err = parse.ParseFloat32(l)
				got = uint64(math.Float32bits(x))
			case "f64":
				var x float64
				x, err = parse.ParseFloat64(l)
				got = math.Float64bits(x)
			}
		})
		c.Eval()
		c.Event(v.String())
		c.State(f, tok.Kind, v, spelling(tok.Text))
		switch v {
		case wtext.Bad:
			if err == nil {
				c.Fail("%s as %s gave %#x instead of an error", show(text), f, got)
			}
		case wtext.Good:
			if err != nil {
				c.Fail("%s as %s failed: %v", show(text), f, err)
			}
			if anyNaN {
				if bits == 32 && !math.IsNaN(float64(math.Float32frombits(uint32(got)))) || bits == 64 && !math.IsNaN(math.Float64frombits(got)) {
					c.Fail("%s as %s gave %#x instead of a NaN", show(text), f, got)
				}
			} else if got != want {
				c.Fail("%s as %s gave %#x instead of %#x", show(text), f, got, want)
			}
			// what follows is still there
			c.Try("next", func() {
				t, err := l.Next()
				if err == nil && t.Position != tok.Pos+len(tok.Text) {
					c.Fail("after %s in %s the lexer is at %d", s, show(text), t.Position)
				}
			})
		}
	}
	// the same literal where modules and scripts have numbers
	f := pickOf(c, "i32", "i64", "f32", "f64")
	switch c.R.IntN(8) {
	case 0:
		c.Event("constant of a module")
		judgeWat(c, "(module (func "+f+".const "+s+"))", "constant "+f)
	case 1:
		c.Event("constant of a module")
		judgeWat(c, "(module (global "+f+" ("+f+".const "+s+")))", "constant "+f)
	case 2:
		c.Event("limits")
		judgeWat(c, "(module (memory "+pickOf(c, "", "1 ", "0x0 ")+s+"))", "memory")
	case 3:
		c.Event("index")
		judgeWat(c, "(module (func ("+pickOf(c, "br", "local.get", "call", "br_table 0", "global.set")+" "+s+")))", "index")
	case 4:
		c.Event("constant of a script")
		judgeWast(c, "(assert_return (invoke \"f\" ("+f+".const "+s+")))", "argument "+f)
	case 5:
		c.Event("constant of a script")
		judgeWast(c, "(assert_return (invoke \"f\") (i32.const 0) ("+f+".const "+s+"))", "result "+f)
	}
}

// spelling gives the features of a number.
func spelling(s string) string {
	var b strings.Builder
	for _, f := range []string{"-", "+", "0x", "_", ".", "e", "p", "nan:", "inf"} {
		if strings.Contains(s, f) {
			b.WriteString(f)
		}
	}
	return fmt.Sprintf("%s/%d", b.String(), min(len(s), 40))
}

// damageBytes changes single bytes of a text.
func damageBytes(c *mon.Case, s string) string {
	b := []byte(s)
	for n := 1 + c.R.IntN(3); n > 0 && len(b) > 0; n-- {
		i := c.R.IntN(len(b))
		ch := "();\"\\$ \n{}[],a0x-+.%/*:@<>_=\x00\xff"[c.R.IntN(30)]
		switch c.R.IntN(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = ch
		case 2:
			b = append(b[:i], append([]byte{ch}, b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return string(b)
}

// deep nests a construct.
func deep(r *rand.Rand, forms [][3]string) (string, int) {
	f := forms[r.IntN(len(forms))]
	n := 1000 + r.IntN(19000)
	return strings.Repeat(f[0], n) + f[1] + strings.Repeat(f[2], n), n
}

var watNests = [][3]string{
	{"(drop ", "", ")"}, {"(block ", "", ")"}, {"(if (then ", "", "))"}, {"(loop (result i32)", "(drop)", ")"}, {"(;", "", ";)"}, {"(", "", ")"}, {"(if (then) (else ", "", "))"},
	{"(drop ", "", ""}, {"(;", "", ""}, {"(block ", "foo", ")"},
}

func runW07(c *mon.Case) {
	var s, kind string
	if c.Chance(2000) {
		var in string
		in, _ = deep(c.R, watNests)
		s = "(module (func " + in + "))"
		kind = "nesting"
		c.Event("deep nesting")
	} else {
		g := wtext.NewGen(c.R)
		g.Directive()
		switch c.R.IntN(6) {
		case 0:
			s = damageBytes(c, wtext.Render(c.R, g.T, c.R.IntN(3)))
			kind = "bytes"
		case 1:
			s = watText(c)
			kind = "text"
		default:
			var ts []string
			if c.Chance(5) && len(g.T) > 2 && g.T[1] == "module" {
				c.Event("foreign field")
				part := foreignField(c)
				ts, kind = damage(c, part, watVocabulary, "(", ")")
				ts = append([]string{"(", "module"}, append(ts, g.T[2:]...)...)
			} else {
				ts, kind = damage(c, g.T, watVocabulary, "(", ")")
			}
			s = wtext.Render(c.R, ts, c.R.IntN(2))
		}
	}
	c.Event("damage " + kind)
	c.Log("text %s", s)
	c.Sample("%s", s)
	judgeWat(c, s, kind)
	if c.Chance(3) {
		judgeString(c, wtext.NewGen(c.R))
	}
}

// judgeString reads a text that may begin with a string as a string.
func judgeString(c *mon.Case, g *wtext.Gen) {
	s := watPiece(c, g)
	if c.Chance(2) {
		s, _ = g.Str()
		if c.Chance(3) {
			s = damageBytes(c, s)
		}
	} else if c.Chance(2) {
		// escapes that are right, nearly right and wrong
		s = "\""
		for n := 1 + c.R.IntN(3); n > 0; n-- {
			s += pickOf(c, "a", "0", "\\t", "\\n", "\\00", "\\fF", "\\u{0}", "\\u{10ffff}", "\\u{d7ff}", "\\u{e000}", "\\u{1_0}",
				"\\4", "\\f", "\\0g", "\\g0", "\\x41", "\\+1", "\\-1", "\\_1", "\\1_", "\\ ", "\\a", "\\v", "\\T", "\\N", "\\uu", "\\u", "\\u{", "\\u{}", "\\u{g}", "\\u{ 1}", "\\u{1 }",
				"\\u{_1}", "\\u{1_}", "\\u{_}", "\\u{d800}", "\\u{dbff}", "\\u{dc00}", "\\u{dfff}", "\\u{110000}", "\\u{ffffffff}", "\\u{100000000}", "\\u{10000000000000041}", "\\u{+1}", "\\u{-1}", "\\u{0x1}", "\\u0041", "\\U{41}", "\\u(41)", "\\u{41", "\\u41}")
		}
		s += "\""
	}
	s = wtext.Trivia(c.R) + s
	if c.Chance(3) {
		s += " " + watPiece(c, g)
	}
	c.Log("string %s", s)
	var first wtext.Token
	for _, first = range wtext.Lex(s) {
		if !first.Trivia() {
			break
		}
	}
	want, v := "", wtext.Bad
	if first.Kind == wtext.Str {
		want, v = wtext.Unescape(first.Text)
	}
	var got string
	var err error
	c.Try("reading the string "+show(s), func() { got, err = parse.ParseString(lex.New(s)) })
	c.Eval()
	switch {
	case v == wtext.Bad && err == nil:
		c.Fail("%s read as the string %q", show(s), got)
	case v == wtext.Good && (err != nil || got != want):
		c.Fail("%s read as the string %q, %v, expected %q", show(s), got, err, want)
	}
	c.Event("string " + v.String())
}

// foreignField makes a field, well-formed as such, that need not be supported.
func foreignField(c *mon.Case) []string {
	idx := func() string { return pickOf(c, "0", "1", "$a", "$f") }
	id := func() []string {
		if c.Chance(2) {
			return []string{pickOf(c, "$x", "$y")}
		}
		return nil
	}
	cat := func(parts ...any) []string {
		var out []string
		for _, p := range parts {
			switch p := p.(type) {
			case string:
				out = append(out, strings.Fields(p)...)
			case []string:
				out = append(out, p...)
			}
		}
		return out
	}
	body := pickOf(c, "i32.const 1", "( i32.const 1 )", "drop", "nop", "local.get 0", "( call $f )")
	switch c.R.IntN(18) {
	case 0:
		return cat("( start", idx(), ")")
	case 1:
		return cat("( export \"e\" (", pickOf(c, "func", "table", "memory", "global"), idx(), ") )")
	case 2:
		return cat("( import \"m\" \"n\" ( func", id(), pickOf(c, "", "( type 0 )", "( param i32 )", "( param i32 i64 ) ( result f32 )"), ") )")
	case 3:
		return cat("( import \"m\" \"n\" ( memory", id(), "1 ) )")
	case 4:
		return cat("( import \"m\" \"n\" ( table", id(), "1 2 funcref ) )")
	case 5:
		return cat("( import \"m\" \"n\" ( global", id(), pickOf(c, "i32", "( mut i64 )"), ") )")
	case 6:
		return cat("( data", id(), pickOf(c, "", "( i32.const 0 )", "( memory 0 ) ( i32.const 0 )"), pickOf(c, "", "\"a\"", "\"a\" \"b\""), ")")
	case 7:
		return cat("( memory", id(), pickOf(c, "( export \"a\" )", "( import \"m\" \"n\" )", "( export \"a\" ) ( export \"b\" )"), "1 )")
	case 8:
		return cat("( memory", id(), "( data \"abc\" ) )")
	case 9:
		return cat("( table", id(), pickOf(c, "( export \"a\" )", "( import \"m\" \"n\" )"), "1 funcref )")
	case 10:
		return cat("( global", id(), "( export \"a\" ) i32 ( i32.const 1 ) )")
	case 11:
		return cat("( func ( type", idx(), ") ( param i32 )", body, ")")
	case 12:
		return cat("( func ( local", pickOf(c, "$x i32", "", "i32 i64"), ")", body, ")")
	case 13:
		return cat("( func (", pickOf(c, "block", "loop"), id(), pickOf(c, "( type 0 )", "( param i32 )", "( result i32 )"), body, ") )")
	case 14:
		return cat("( func", pickOf(c, "i32.load offset=4", "i32.store offset=1 align=2", "memory.grow 0", "i32.load $m"), ")")
	case 15:
		return cat("( func", pickOf(c, "call_indirect", "call_indirect $t ( type $a )", "call_indirect ( type 0 )", "call_indirect ( param i32 )", "call_indirect ( type $a ) ( result i32 )", "( call_indirect ( i32.const 0 ) )"), ")")
	case 16:
		return cat("( func select ( result i32 )", body, ")")
	}
	return cat("( table", id(), pickOf(c, "funcref ( elem 0 1 )", "funcref ( elem $f $g )", "funcref ( elem )", "1 funcref"), ")")
}

// judgeWat compares the parse of a text with the reference.
func judgeWat(c *mon.Case, s, kind string) {
	want, end, v, why := wtext.Wat(s)
	var d ast.Directive
	var err error
	l := lex.New(s)
	c.Try("parsing "+show(s), func() { d, err = parse.Parse(l) })
	c.Eval()
	c.Event(v.String())
	c.State(kind, v, why)
	switch v {
	case wtext.Bad:
		if err == nil {
			c.Fail("malformed text accepted (%s): %s gave %s", why, shorten(s), shorten(dump(d, false)))
		}
	case wtext.Good:
		if err != nil {
			c.Fail("%s refused: %v", shorten(s), err)
		}
		if kind != "nesting" {
			if got, w := dump(d, false), dump(want, false); got != w {
				c.Fail("%s parsed wrongly %s", shorten(s), difference(got, w))
			}
		}
		c.Try("next", func() {
			t, err := l.Next()
			if err == nil && t.Position != end {
				c.Fail("the directive in %s ends at %d, the lexer is at %d", shorten(s), end, t.Position)
			}
		})
	}
}

func runW08(c *mon.Case) {
	g := wtext.NewGen(c.R)
	g.Small = c.R.IntN(3) > 0
	g.Directive()
	ts, kind := g.T, "none"
	if c.Chance(3) {
		ts, kind = damage(c, ts, watVocabulary, "(", ")")
	}
	s := wtext.Render(c.R, ts, c.R.IntN(3))
	if c.Chance(6) {
		s = damageBytes(c, s)
		kind = "bytes"
	}
	if c.Chance(30) {
		// more than the usual buffers hold
		s += strings.Repeat(pickOf(c, " ", "\n", ";; x\n", "(; y ;)"), 1+c.R.IntN(9000))
		c.Event("long")
	}
	if c.Chance(2500) {
		// the end is far away
		s = strings.Repeat(pickOf(c, " ", "\n", "(; y ;)"), 1<<20/7+c.R.IntN(1<<20)) + s
		c.Event("megabyte")
	}
	r := &chunks{c: c, b: []byte(s), mode: c.R.IntN(chunkModes), err: io.EOF}
	fault := c.Chance(3)
	if fault {
		at := len(s)
		if !c.Chance(3) {
			at = c.R.IntN(len(s) + 1)
		}
		s = s[:at]
		r.b = r.b[:at]
		r.err = errInjected
	}
	c.Log("text %s, mode %d, fault %v", s, r.mode, fault)
	c.Sample("text %s, mode %d, fault %v", s, r.mode, fault)
	var d ast.Directive
	var want error
	var got api.Directive
	var err error
	c.Try("parsing "+show(s), func() { d, want = parse.Parse(lex.New(s)) })
	c.Try("decoding "+show(s), func() { got, err = wat.NewDecoder(r).Decode(r) })
	c.Eval()
	outcome := "refused"
	switch {
	case fault:
		if err == nil {
			c.Fail("the reader failed after %s and decoding succeeded", shorten(s))
		}
		if !errors.Is(err, errInjected) {
			c.Fail("the reader failed after %s, decoding reports %v", shorten(s), err)
		}
		outcome = "fault reported"
		if want == nil {
			c.Event("fault after a complete text")
		}
	case want != nil:
		if err == nil {
			c.Fail("%s is refused by the parser (%v), decoding gave %T", shorten(s), want, got)
		}
	default:
		if err != nil {
			c.Fail("%s is accepted by the parser, decoding failed: %v", shorten(s), err)
		}
		switch d.(type) {
		case *ast.Module:
			if m, ok := got.(*api.Module); !ok || m == nil {
				c.Fail("decoding the module %s gave %T", shorten(s), got)
			}
			outcome = "module"
		case *ast.Component:
			if _, ok := got.(*api.Module); ok {
				c.Fail("decoding the component %s gave %T", shorten(s), got)
			}
			outcome = "component"
		}
	}
	c.Event(outcome)
	c.State(r.mode, kind, outcome)
}
