package checks

import (
	"fmt"

	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "W09",
		Rule:     "a case gives a lexer generated rules (words, chains of words, automata, nested delimiters) in a generated order, lexes text made of fragments the rules match, and compares each token or error with a model that runs the rules side by side; a state is the kind of the winning rule with the number of rules alive and the outcome",
		Quick:    400000,
		Thorough: 4000000,
		Need:     []string{"word", "chain", "automaton", "nested", "first of several wins", "ends inside", "no rule starts", "stuck", "end", "nested twice"},
		Run:      runW09,
	})
}

// machine is the model of a rule: a state, nil when it has failed.
type machine struct {
	kind  string
	start func(ch byte) bool
	// run reports whether the text can be continued to a match, and is one
	run func(s string) (alive, accepted bool)
}

func wordMachine(kind, w string) *machine {
	return &machine{
		kind:  kind,
		start: func(ch byte) bool { return len(w) > 0 && w[0] == ch },
		run: func(s string) (bool, bool) {
			return len(s) <= len(w) && w[:len(s)] == s, s == w
		},
	}
}

const ruleBytes = "ab(;)\n\x00"

func ruleText(c *mon.Case, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ruleBytes[c.R.IntN(len(ruleBytes))]
	}
	return string(b)
}

// newRule generates a rule, its model and a text it probably matches.
func newRule(c *mon.Case, ty token.Type) (lex.Rule, *machine, string) {
	switch c.R.IntN(4) {
	case 0:
		w := ruleText(c, c.R.IntN(4))
		return &lex.StringRule{String: w, TokenType: ty}, wordMachine("word", w), w
	case 1:
		w := ruleText(c, 1+c.R.IntN(4))
		start, end := lex.FromString(w)
		end.Final = true
		return &lex.DfaRule{Dfa: &lex.Dfa{Start: start}, TokenType: ty}, wordMachine("chain", w), w
	case 2:
		pairs := []string{"ab", "(;", ";)", "ba", "()", ")(", "a;"}
		i := c.R.IntN(len(pairs))
		open, cls := pairs[i], pairs[(i+1+c.R.IntN(len(pairs)-1))%len(pairs)]
		m := &machine{
			kind:  "nested",
			start: func(ch byte) bool { return open[0] == ch },
			run: func(s string) (bool, bool) {
				if len(s) < 2 {
					return s == open[:len(s)], false
				}
				if s[:2] != open {
					return false, false
				}
				depth := 1
				for i := 2; i < len(s); {
					if depth == 0 {
						return false, false
					}
					switch {
					case i+1 < len(s) && s[i:i+2] == open:
						depth++
						i += 2
						if depth == 2 {
							c.Event("nested twice")
						}
					case i+1 < len(s) && s[i:i+2] == cls:
						depth--
						i += 2
					default:
						i++
					}
				}
				return true, depth == 0
			},
		}
		inner := ruleText(c, c.R.IntN(5))
		if c.Chance(3) {
			inner += open + ruleText(c, c.R.IntN(3)) + cls
		}
		return &lex.NestedRule{Open: open, Close: cls, TokenType: ty}, m, open + inner + cls
	}
	// an automaton with a table
	n := 1 + c.R.IntN(4)
	nodes := make([]*lex.Node, n)
	final := make([]bool, n)
	table := make([]map[byte]int, n)
	for i := range nodes {
		final[i] = c.Chance(2)
		nodes[i] = &lex.Node{Final: final[i]}
		table[i] = map[byte]int{}
	}
	for i := range nodes {
		for k := c.R.IntN(4); k > 0; k-- {
			to := c.R.IntN(n)
			set := ruleText(c, 1+c.R.IntN(2))
			taken := false
			for _, ch := range []byte(set) {
				if _, ok := table[i][ch]; ok {
					taken = true
				}
			}
			if taken {
				// not deterministic
				continue
			}
			for _, ch := range []byte(set) {
				table[i][ch] = to
			}
			if len(set) == 1 {
				nodes[i].Edges = append(nodes[i].Edges, &lex.ByteEdge{Byte: set[0], Node: nodes[to]})
				continue
			}
			nodes[i].Edges = append(nodes[i].Edges, &lex.FuncEdge{Func: func(ch byte) bool { return ch == set[0] || ch == set[1] }, Node: nodes[to]})
		}
	}
	m := &machine{
		kind: "automaton",
		start: func(ch byte) bool {
			_, ok := table[0][ch]
			return ok
		},
		run: func(s string) (bool, bool) {
			at := 0
			for i := 0; i < len(s); i++ {
				to, ok := table[at][s[i]]
				if !ok {
					return false, false
				}
				at = to
			}
			return true, final[at]
		},
	}
	// a walk
	var w []byte
	at := 0
	for k := c.R.IntN(6); k > 0 && len(table[at]) > 0; k-- {
		for _, ch := range []byte(ruleBytes) {
			if to, ok := table[at][ch]; ok && c.Chance(2) {
				w = append(w, ch)
				at = to
				break
			}
		}
	}
	return &lex.DfaRule{Dfa: &lex.Dfa{Start: nodes[0]}, TokenType: ty}, m, string(w)
}

func runW09(c *mon.Case) {
	n := 1 + c.R.IntN(5)
	var rules []lex.Rule
	var ms []*machine
	text := ""
	var frags []string
	for i := 0; i < n; i++ {
		r, m, f := newRule(c, token.Type(fmt.Sprintf("rule%d", i)))
		rules, ms, frags = append(rules, r), append(ms, m), append(frags, f)
	}
	for k := c.R.IntN(6); k > 0; k-- {
		if c.Chance(5) {
			text += ruleText(c, 1+c.R.IntN(3))
		} else {
			text += frags[c.R.IntN(n)]
		}
	}
	if len(text) > 60 {
		text = text[:60]
	}
	kinds := ""
	for _, m := range ms {
		kinds += m.kind + " "
	}
	c.Log("%q with %s", text, kinds)
	c.Sample("%q with %s", text, kinds)
	l := lex.New(text)
	l.Rules = rules
	at, line, col := 0, 0, 0
	for {
		// the model
		var alive []int
		end := at
		if at < len(text) {
			for i, m := range ms {
				if m.start(text[at]) {
					alive = append(alive, i)
				}
			}
			for len(alive) > 0 {
				end++
				if end == len(text) {
					break
				}
				var next []int
				for _, i := range alive {
					if ok, _ := ms[i].run(text[at : end+1]); ok {
						next = append(next, i)
					}
				}
				if len(next) == 0 {
					break
				}
				alive = next
			}
		}
		win, accepted := -1, 0
		for _, i := range alive {
			if _, ok := ms[i].run(text[at:end]); ok {
				accepted++
				if win < 0 {
					win = i
				}
			}
		}
		// the lexer
		var tok *token.Token
		var err error
		c.Try("Next", func() {
			if c.Chance(4) {
				tok, err = l.Peek()
				if err != nil {
					return
				}
			}
			tok, err = l.Next()
		})
		c.Eval()
		switch {
		case at == len(text):
			if err != nil || tok.Type != token.EndOfStream {
				c.Fail("at the end of %q: %v, %v", text, tok, err)
			}
			c.Event("end")
			return
		case win < 0:
			if err == nil {
				c.Fail("no rule matches at %d of %q and the lexer gave %q of type %s", at, text, tok.Capture, tok.Type)
			}
			switch {
			case len(alive) == 0:
				c.Event("no rule starts")
			case end == len(text):
				c.Event("ends inside")
			default:
				c.Event("stuck")
			}
			c.State("error", len(alive), end == len(text))
			return
		}
		if err != nil {
			c.Fail("rule %d (%s) matches %q at %d of %q and the lexer fails: %v", win, ms[win].kind, text[at:end], at, text, err)
		}
		if tok.Capture != text[at:end] || string(tok.Type) != fmt.Sprintf("rule%d", win) {
			c.Fail("rule %d (%s) matches %q at %d of %q and the lexer gave %q of type %s", win, ms[win].kind, text[at:end], at, text, tok.Capture, tok.Type)
		}
		if tok.Position != at || tok.Line != line || tok.Column != col {
			c.Fail("the token at %d, line %d, column %d of %q is said to be at %d, %d, %d", at, line, col, text, tok.Position, tok.Line, tok.Column)
		}
		for ; at < end; at++ {
			if text[at] == '\n' {
				line, col = line+1, 0
			} else {
				col++
			}
		}
		c.Event(ms[win].kind)
		if accepted > 1 {
			c.Event("first of several wins")
		}
		c.State(ms[win].kind, len(alive), accepted)
	}
}
