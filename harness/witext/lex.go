// Package witext is an independent model of the interface description
// language: a reference lexer and parser for the constructs the library
// supports, and generators.
package witext

import (
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Kind classifies a token.
type Kind int

const (
	Space Kind = iota
	Line
	Block
	Punct
	Id
	Explicit
	Keyword
	Int
	Broken
	Unclear
	End
)

var kindNames = []string{"space", "line comment", "block comment", "punctuation", "id", "explicit id", "keyword", "integer", "broken", "unclear", "end"}

func (k Kind) String() string { return kindNames[k] }

// Token is a piece of text.
type Token struct {
	Kind Kind
	Text string
	Pos  int
}

// Trivia tells whether the token has no meaning.
func (t Token) Trivia() bool { return t.Kind == Space || t.Kind == Line || t.Kind == Block }

// Keywords of the language.
var Keywords = []string{"use", "type", "func", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "float32", "float64", "char", "resource", "own", "borrow", "record", "flags", "variant", "enum", "union", "bool", "string", "option", "result", "future", "stream", "list", "_", "as", "from", "static", "interface", "tuple", "world", "import", "export", "package", "constructor", "include", "with"}

var keywords = map[string]bool{}

func init() {
	for _, k := range Keywords {
		keywords[k] = true
	}
}

var (
	kebab   = regexp.MustCompile(`^(?:[a-z][a-z0-9]*|[A-Z][A-Z0-9]*)(?:-(?:[a-z][a-z0-9]*|[A-Z][A-Z0-9]*))*$`)
	spaceRE = regexp.MustCompile(`^[ \t\r\n]+`)
	intRE   = regexp.MustCompile(`^[0-9]+`)
	wordRE  = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_-]*`)
	lineRE  = regexp.MustCompile(`^//[^\n]*`)
)

// Lex splits a text. The last token is End, Broken or Unclear.
func Lex(s string) []Token {
	var out []Token
	pos := 0
	emit := func(k Kind, n int) {
		out = append(out, Token{k, s[pos : pos+n], pos})
		pos += n
	}
	// unclear ends the comparison: the text is not in the language, but
	// the library splits it all the same
	unclear := func() []Token {
		emit(Unclear, 0)
		return out
	}
	for pos < len(s) {
		rest := s[pos:]
		if m := spaceRE.FindString(rest); m != "" {
			if r, _ := utf8.DecodeRuneInString(rest[len(m):]); unicode.IsSpace(r) {
				return unclear()
			}
			emit(Space, len(m))
			continue
		}
		if m := lineRE.FindString(rest); m != "" {
			emit(Line, len(m))
			continue
		}
		if strings.HasPrefix(rest, "/*") {
			depth, i := 1, 2
			for i < len(rest) && depth > 0 {
				switch {
				case strings.HasPrefix(rest[i:], "/*"):
					depth++
					i += 2
				case strings.HasPrefix(rest[i:], "*/"):
					depth--
					i += 2
				default:
					i++
				}
			}
			if depth > 0 {
				emit(Broken, 0)
				return out
			}
			emit(Block, i)
			continue
		}
		if strings.HasPrefix(rest, "->") {
			emit(Punct, 2)
			continue
		}
		if strings.IndexByte("=,:.;(){}<>*@-+/", rest[0]) >= 0 {
			emit(Punct, 1)
			continue
		}
		if m := intRE.FindString(rest); m != "" {
			if r, _ := utf8.DecodeRuneInString(rest[len(m):]); r == '_' || r >= 128 && r != utf8.RuneError || wordRE.MatchString(rest[len(m):]) {
				return unclear()
			}
			emit(Int, len(m))
			continue
		}
		off := 0
		if rest[0] == '%' {
			off = 1
		}
		if m := wordRE.FindString(rest[off:]); m != "" {
			if r, _ := utf8.DecodeRuneInString(rest[off+len(m):]); r >= 128 && r != utf8.RuneError {
				return unclear()
			}
			switch {
			case off == 0 && keywords[m]:
				emit(Keyword, len(m))
			case !kebab.MatchString(m):
				return unclear()
			case off == 1:
				emit(Explicit, 1+len(m))
			default:
				emit(Id, len(m))
			}
			continue
		}
		r, _ := utf8.DecodeRuneInString(rest[off:])
		if unicode.IsLetter(r) || unicode.IsDigit(r) && r >= 128 || unicode.IsSpace(r) && off == 0 || off == 1 && r == '-' {
			return unclear()
		}
		emit(Broken, 0)
		return out
	}
	emit(End, 0)
	return out
}

// Verdict is the reference's judgement.
type Verdict int

const (
	Bad Verdict = iota
	Good
	Unsure
)

func (v Verdict) String() string { return []string{"bad", "good", "unsure"}[v] }
