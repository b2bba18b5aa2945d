package checks

import (
	"strings"

	"github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/lex"
	wit "github.com/patrickhuber/go-wasm/wit/parse"
	"github.com/patrickhuber/go-wasm/wit/token"

	"verif/harness/mon"
	"verif/harness/witext"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "I01",
		Rule:     "a case lexes a text (tokens, trivia, broken pieces or arbitrary bytes) to its end and checks online that each token continues where the last one stopped, that its text, offset, line and column are those of the input, and that the end is sticky; a state is the set of token kinds seen with how the text ended",
		Quick:    400000,
		Thorough: 4000000,
		Need:     []string{"end", "error", "several lines", "tokens", "non-ascii", "end again", "long text"},
		Run: func(c *mon.Case) {
			s := witText(c)
			c.Try("lexing "+show(s), func() {
				l := lex.New(s)
				conserve(c, s, func() (lexeme, error) { return witLexeme(l.Next()) })
			})
		},
	})
	mon.Register(&mon.Prop{
		ID:       "I02",
		Rule:     "a case lexes a text and compares kind and content of every meaningful token, and where lexing fails, with an independent lexer; a state is the pair of consecutive kinds or the keyword or punctuation",
		Quick:    500000,
		Thorough: 5000000,
		Need:     append([]string{"id", "explicit id", "keyword", "integer", "punctuation", "broken", "end", "nested comment", "comment at the end", "->", "long text"}, witext.Keywords...),
		Run:      runI02,
	})
	mon.Register(&mon.Prop{
		ID:       "I03",
		Rule:     "a case runs a random sequence of next, peek, clone and assign on a family of lexers over one text and compares every token with the sequence a fresh lexer gives; a state is the pair of consecutive operations with the kind of token",
		Quick:    150000,
		Thorough: 1500000,
		Need:     []string{"next", "peek", "clone", "assign", "peek error", "next error", "end", "clone after peek"},
		Run:      func(c *mon.Case) { lookahead(c, witText(c), func(s string) *family { return witFamily(lex.New(s)) }) },
	})
	mon.Register(&mon.Prop{
		ID:       "I04",
		Rule:     "a case generates a file as tokens together with the syntax tree it denotes, writes it with varying trivia, parses it and compares the trees; a state is the set of constructs of the file",
		Quick:    250000,
		Thorough: 2500000,
		Need:     []string{"package", "version", "top level use", "interface", "world", "use", "use as", "package path", "import", "export", "include", "include with", "extern function", "extern interface", "extern path", "type", "record", "flags", "enum", "variant", "case with payload", "resource", "constructor", "static method", "method", "function", "one result", "named results", "list", "option", "tuple", "future", "own", "borrow", "result form 0", "result form 1", "result form 2", "result form 3", "stream form 0", "stream form 1", "stream form 2", "stream form 3", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "float32", "float64", "char", "bool", "string", "named type", "explicit name", "trailing comma", "trivia", "long list", "deep type"},
		Run:      runI04,
	})
	mon.Register(&mon.Prop{
		ID:       "I05",
		Rule:     "a case takes the tokens of a file, often damaged, writes them with single blanks, as little trivia as possible and much trivia, and compares the outcomes of parsing; a state is the kind of damage with the outcome",
		Quick:    150000,
		Thorough: 1500000,
		Need:     []string{"accepted", "refused", "comments"},
		Run: func(c *mon.Case) {
			g := witext.NewGen(c.R)
			g.File()
			ts, kind := g.T, "none"
			if c.Chance(2) {
				ts, kind = damage(c, ts, witVocabulary, "{", "}")
			}
			trivia(c, ts, kind, func(style int) string { return witext.Render(c.R, ts, style) }, func(s string) (string, error) {
				a, err := wit.Parse(s)
				return dump(a, false), err
			})
		},
	})
	mon.Register(&mon.Prop{
		ID:       "I06",
		Rule:     "a case damages the text of a file (tokens removed, repeated, exchanged, replaced, inserted, groups moved, bytes changed, cut off, deep nesting) and compares the library's verdict and tree with an independent parser; a state is the kind of damage with the reference verdict and its reason",
		Quick:    250000,
		Thorough: 2500000,
		Need:     []string{"good", "bad", "unsure", "deep nesting", "damage delete", "damage duplicate", "damage swap", "damage replace", "damage insert", "damage truncate", "damage bytes", "damage move", "damage none"},
		Run:      runI06,
	})
}

var witVocabulary = append(append([]string{}, witext.Keywords...), "{", "}", "{", "}", "(", ")", "<", ">", ";", ";", ":", ",", ".", "=", "@", "->", "*", "-", "+", "/", "a", "b", "foo-bar", "%use", "%a", "1.2.3", "18446744073709551615.0.0", "18446744073709551616.0.0", "f32", "async")

func witLexeme(t *token.Token, err error) (lexeme, error) {
	if err != nil {
		return lexeme{}, err
	}
	return lexeme{kind: string(t.Type), text: t.Capture, pos: t.Position, line: t.Line, col: t.Column, end: t.Type == token.EndOfStream}, nil
}

func witFamily(l *lex.Lexer) *family {
	return &family{
		next:   func() (lexeme, error) { return witLexeme(l.Next()) },
		peek:   func() (lexeme, error) { return witLexeme(l.Peek()) },
		clone:  func() *family { return witFamily(l.Clone()) },
		assign: func(from *family) { *l = *from.self.(*lex.Lexer) },
		self:   l,
	}
}

func witPiece(c *mon.Case, g *witext.Gen) string {
	switch c.R.IntN(12) {
	case 0, 1:
		return g.Name()
	case 2, 3:
		return witext.Keywords[c.R.IntN(len(witext.Keywords))]
	case 4, 5:
		return pickOf(c, "=", ",", ":", ".", ";", "(", ")", "{", "}", "<", ">", "*", "@", "-", "+", "/", "->", "->")
	case 6:
		return pickOf(c, "0", "1", "007", "1234567890", "18446744073709551616")
	case 7, 8:
		return witext.Trivia(c.R)
	case 9:
		return pickOf(c, "%", "%%", "%1", "#", "$", "!", "\"", "'", "&", "|", "~", "^", "\\", "?", "[", "]", "\x00", "\xff", "/*", "*/", "//", "é", "€", "_a", "a_b", "-a", "a--b", "a-", "A1", "aB", "٣", " ", "%é", "%-a", "`")
	case 10:
		return "é€"[:c.R.IntN(6)]
	}
	return " "
}

// witText makes a text of any kind.
func witText(c *mon.Case) string {
	g := witext.NewGen(c.R)
	if c.Chance(1500) {
		return longText(c, func() string {
			for {
				p := witPiece(c, g)
				if ts := witext.Lex(p); ts[len(ts)-1].Kind == witext.End {
					return p
				}
			}
		}, []string{"… …", "…\n…", "…\r\n…", "…\t\n …", "a…b…", "a…-b…", "%a…b…", "1…0…", "//…x…\n", "//…/*…\n", "/*…x…*/", "/*…\n…*/", "/*…//\n…*/", "/*…*x…*/", "…{…", "…a …", "…/*x*/…", "…//\n…", "…->…", "…use …"}, "/*", "*/")
	}
	switch c.R.IntN(12) {
	case 0:
		b := make([]byte, c.R.IntN(60))
		for i := range b {
			b[i] = byte(c.R.IntN(256))
		}
		return string(b)
	case 1:
		const chars = "/*/*//\n {};:.,<>()=%-_a1@+"
		b := make([]byte, c.R.IntN(60))
		for i := range b {
			b[i] = chars[c.R.IntN(len(chars))]
		}
		return string(b)
	case 2, 3:
		g.File()
		return witext.Render(c.R, g.T, c.R.IntN(3))
	}
	var b strings.Builder
	tame := c.R.IntN(3) > 0
	for n := c.R.IntN(25); n > 0; n-- {
		p := witPiece(c, g)
		if tame {
			if ts := witext.Lex(p); ts[len(ts)-1].Kind != witext.End {
				continue
			}
			b.WriteString(" ")
		}
		b.WriteString(p)
		if c.R.IntN(3) == 0 {
			b.WriteString(" ")
		}
	}
	if c.Chance(6) {
		b.WriteString(" // the end")
		if c.Chance(2) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func runI02(c *mon.Case) {
	s := witText(c)
	c.Log("text %q", s)
	c.Sample("%q", s)
	want := witext.Lex(s)
	l := lex.New(s)
	last := witext.End
	for i, w := range want {
		if w.Kind == witext.Block && strings.Count(w.Text, "/*") > 1 {
			c.Event("nested comment")
		}
		if w.Kind == witext.Line && i == len(want)-2 {
			c.Event("comment at the end")
		}
		if w.Kind == witext.Unclear {
			c.Event("unsure")
			return
		}
		if w.Trivia() {
			continue
		}
		var got lexeme
		var err error
		c.Try("lexing "+show(s), func() {
			for {
				got, err = witLexeme(l.Next())
				if err != nil || got.kind != string(token.Whitespace) && got.kind != string(token.LineComment) && got.kind != string(token.BlockComment) {
					return
				}
				if got.text == "" {
					c.Fail("empty token %v in %s", got, show(s))
				}
			}
		})
		c.Eval()
		c.Event(w.Kind.String())
		c.State(last, w.Kind)
		last = w.Kind
		if w.Kind == witext.Broken {
			if err == nil {
				c.Fail("%s is broken at %d, the lexer found %v", show(s), w.Pos, got)
			}
			return
		}
		if err != nil {
			c.Fail("%s has the %v %s at %d, the lexer failed: %v", show(s), w.Kind, show(w.Text), w.Pos, err)
		}
		// the type of a keyword or of punctuation is its text
		kind := w.Text
		switch w.Kind {
		case witext.Id:
			kind = string(token.Id)
		case witext.Explicit:
			kind = string(token.ExplicitId)
		case witext.Int:
			kind = string(token.Integer)
		case witext.End:
			kind = string(token.EndOfStream)
		default:
			c.Event(w.Text)
			c.State(w.Text)
		}
		if got.kind != kind || got.text != w.Text || got.pos != w.Pos {
			c.Fail("%s has the %v %s at %d, the lexer found %v", show(s), w.Kind, show(w.Text), w.Pos, got)
		}
	}
}

func runI04(c *mon.Case) {
	g := witext.NewGen(c.R)
	want := g.File()
	style := c.R.IntN(3)
	if style == 2 {
		c.Event("trivia")
	}
	s := witext.Render(c.R, g.T, style)
	c.State(events(c, g.Seen))
	c.Log("text %s", s)
	c.Sample("%s", s)
	var got *ast.Ast
	var err error
	c.Try("parsing "+show(s), func() { got, err = wit.Parse(s) })
	c.Eval()
	if err != nil {
		c.Fail("%s refused: %v", shorten(s), err)
	}
	if a, b := dump(got, false), dump(want, false); a != b {
		c.Fail("%s parsed wrongly %s", shorten(s), difference(a, b))
	}
}

var witNests = [][3]string{
	{"list<", "u8", ">"}, {"option<", "a", ">"}, {"tuple<u8,", "u8", ">"}, {"result<_,", "u8", ">"}, {"/*", "", "*/u8 "}, {"stream<", "u8", ">"},
	{"list<", "u8", ""}, {"/*", "", ""}, {"option<", "", ">"},
}

func runI06(c *mon.Case) {
	var s, kind string
	if c.Chance(2000) {
		in, _ := deep(c.R, witNests)
		s = "interface a { type t = " + in + "; }"
		kind = "nesting"
		c.Event("deep nesting")
	} else {
		g := witext.NewGen(c.R)
		for len(g.T) == 0 {
			g.File()
		}
		switch c.R.IntN(6) {
		case 0:
			s = damageBytes(c, witext.Render(c.R, g.T, c.R.IntN(3)))
			kind = "bytes"
		case 1:
			s = witText(c)
			kind = "text"
		default:
			var ts []string
			ts, kind = damage(c, g.T, witVocabulary, "{", "}")
			s = witext.Render(c.R, ts, c.R.IntN(2))
		}
	}
	c.Event("damage " + kind)
	c.Log("text %s", s)
	c.Sample("%s", s)
	want, v, why := witext.Parse(s)
	var got *ast.Ast
	var err error
	c.Try("parsing "+show(s), func() { got, err = wit.Parse(s) })
	c.Eval()
	c.Event(v.String())
	c.State(kind, v, why)
	switch v {
	case witext.Bad:
		if err == nil {
			c.Fail("malformed text accepted (%s): %s gave %s", why, shorten(s), shorten(dump(got, false)))
		}
	case witext.Good:
		if err != nil {
			c.Fail("%s refused: %v", shorten(s), err)
		}
		if kind != "nesting" {
			if a, b := dump(got, false), dump(want, false); a != b {
				c.Fail("%s parsed wrongly %s", shorten(s), difference(a, b))
			}
		}
	}
}
