// Package wtext is an independent model of the wasm text format: a reference
// lexer and parser for the constructs the library supports, and generators.
package wtext

import (
	"math"
	"math/big"
	"regexp"
	"strings"
)

// Kind classifies a token.
type Kind int

const (
	Space Kind = iota
	Line
	Block
	Open
	Close
	Str
	Id
	Int
	Float
	Word
	Broken
	End
)

var kindNames = []string{"space", "line comment", "block comment", "(", ")", "string", "id", "integer", "float", "word", "broken", "end"}

func (k Kind) String() string { return kindNames[k] }

// Token is a piece of text.
type Token struct {
	Kind Kind
	Text string
	// Pos, Row and Col are zero based; Col counts bytes.
	Pos, Row, Col int
	// Glued is set when the token follows a string, or is a string that
	// follows a token, without separation; newer versions of the format
	// read such text differently.
	Glued bool
}

// Trivia tells whether the token has no meaning.
func (t Token) Trivia() bool { return t.Kind == Space || t.Kind == Line || t.Kind == Block }

var (
	dec      = `[0-9](?:_?[0-9])*`
	hex      = `[0-9a-fA-F](?:_?[0-9a-fA-F])*`
	intRE    = regexp.MustCompile(`^[+-]?(?:` + dec + `|0x` + hex + `)$`)
	floatRE  = regexp.MustCompile(`^[+-]?(?:inf|nan|nan:canonical|nan:arithmetic|nan:0x` + hex + `|` + dec + `(?:\.(?:` + dec + `)?)?(?:[eE][+-]?` + dec + `)?|0x` + hex + `(?:\.(?:` + hex + `)?)?(?:[pP][+-]?` + dec + `)?)$`)
	idCharRE = regexp.MustCompile("^[0-9A-Za-z!#$%&'*+\\-./:<=>?@\\\\^_`|~]+")
	spaceRE  = regexp.MustCompile(`^[ \t\r\n\f\v]+`)
)

// Classify gives the kind of a run of identifier characters.
func Classify(s string) Kind {
	switch {
	case intRE.MatchString(s):
		return Int
	case floatRE.MatchString(s):
		return Float
	case len(s) > 1 && s[0] == '$':
		return Id
	}
	return Word
}

// Lex splits a text. The last token is End or Broken.
func Lex(s string) []Token {
	var out []Token
	row, col, pos := 0, 0, 0
	glue := false
	emit := func(k Kind, n int) {
		t := Token{Kind: k, Text: s[pos : pos+n], Pos: pos, Row: row, Col: col}
		if len(out) > 0 && k != End && k != Broken {
			last := out[len(out)-1].Kind
			word := func(k Kind) bool { return k == Id || k == Int || k == Float || k == Word || k == Str }
			if glue = word(last) && word(k); glue {
				t.Glued = true
			}
		}
		out = append(out, t)
		for i := pos; i < pos+n; i++ {
			if s[i] == '\n' {
				row++
				col = 0
			} else {
				col++
			}
		}
		pos += n
	}
	for pos < len(s) {
		rest := s[pos:]
		if m := spaceRE.FindString(rest); m != "" {
			emit(Space, len(m))
			continue
		}
		if m := idCharRE.FindString(rest); m != "" {
			emit(Classify(m), len(m))
			continue
		}
		switch {
		case strings.HasPrefix(rest, ";;"):
			n := strings.IndexByte(rest, '\n') + 1
			if n == 0 {
				n = len(rest)
			}
			emit(Line, n)
		case strings.HasPrefix(rest, "(;"):
			depth, i := 0, 0
			for i < len(rest) {
				if strings.HasPrefix(rest[i:], "(;") {
					depth++
					i += 2
				} else if strings.HasPrefix(rest[i:], ";)") {
					depth--
					i += 2
					if depth == 0 {
						break
					}
				} else {
					i++
				}
			}
			if depth > 0 {
				emit(Broken, 0)
				return out
			}
			emit(Block, i)
		case rest[0] == '(':
			emit(Open, 1)
		case rest[0] == ')':
			emit(Close, 1)
		case rest[0] == '"':
			i := 1
			for i < len(rest) && rest[i] != '"' {
				if rest[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(rest) {
				emit(Broken, 0)
				return out
			}
			emit(Str, i+1)
		default:
			emit(Broken, 0)
			return out
		}
	}
	emit(End, 0)
	return out
}

// Verdict is the reference's judgement.
type Verdict int

const (
	Bad Verdict = iota
	Good
	Unsure
)

func (v Verdict) String() string { return []string{"bad", "good", "unsure"}[v] }

// Unescape gives the bytes a string token denotes.
func Unescape(tok string) (string, Verdict) {
	s := tok[1 : len(tok)-1]
	v := Good
	var b []byte
	hexv := func(c byte) int { return strings.IndexByte("0123456789abcdef", c|0x20) }
	isHex := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
	}
	for i := 0; i < len(s); {
		c := s[i]
		if c != '\\' {
			if c < 0x20 || c == 0x7f {
				// not allowed by the format, the library passes it through
				v = Unsure
			}
			b = append(b, c)
			i++
			continue
		}
		i++
		if i >= len(s) {
			return "", Bad
		}
		switch s[i] {
		case 't':
			b = append(b, 9)
		case 'n':
			b = append(b, 10)
		case 'r':
			b = append(b, 13)
		case '"', '\'', '\\':
			b = append(b, s[i])
		case 'u':
			end := strings.IndexByte(s[i:], '}')
			if i+1 >= len(s) || s[i+1] != '{' || end < 0 {
				return "", Bad
			}
			digits := s[i+2 : i+end]
			if !regexp.MustCompile(`^` + hex + `$`).MatchString(digits) {
				if regexp.MustCompile(`^[0-9a-fA-F][0-9a-fA-F_]*$`).MatchString(digits) {
					return "", Unsure
				}
				return "", Bad
			}
			n := 0
			for _, d := range []byte(digits) {
				if d == '_' {
					continue
				}
				n = n*16 + hexv(d)
				if n > 0x10ffff {
					return "", Bad
				}
			}
			if n >= 0xd800 && n < 0xe000 {
				return "", Bad
			}
			b = append(b, string(rune(n))...)
			i += end
		default:
			if i+1 >= len(s) || !isHex(s[i]) || !isHex(s[i+1]) {
				return "", Bad
			}
			b = append(b, byte(hexv(s[i])*16+hexv(s[i+1])))
			i++
		}
		i++
	}
	return string(b), v
}

// magnitude gives the value of digits with optional fraction and exponent.
func magnitude(s string) *big.Rat {
	base := int64(10)
	exps := "eE"
	expBase := int64(10)
	if strings.HasPrefix(s, "0x") {
		s = s[2:]
		base = 16
		exps = "pP"
		expBase = 2
	}
	s = strings.ReplaceAll(s, "_", "")
	e := ""
	if i := strings.IndexAny(s, exps); i >= 0 {
		e = s[i+1:]
		s = s[:i]
	}
	frac := 0
	if i := strings.IndexByte(s, '.'); i >= 0 {
		frac = len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	m := new(big.Int)
	for _, c := range []byte(s) {
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c >= '0' && c <= '9' {
			d = int(c - '0')
		}
		m.Mul(m, big.NewInt(base))
		m.Add(m, big.NewInt(int64(d)))
	}
	r := new(big.Rat).SetInt(m)
	r.Quo(r, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(base), big.NewInt(int64(frac)), nil)))
	if e != "" && m.Sign() != 0 {
		neg := e[0] == '-'
		x, _ := new(big.Int).SetString(strings.TrimLeft(e, "+-"), 10)
		if x.Cmp(big.NewInt(20000)) > 0 {
			x.SetInt64(20000)
		}
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(expBase), x, nil))
		if neg {
			r.Quo(r, p)
		} else {
			r.Mul(r, p)
		}
	}
	return r
}

func cut(s string) (neg bool, rest string) {
	if s[0] == '+' || s[0] == '-' {
		return s[0] == '-', s[1:]
	}
	return false, s
}

// Integer gives the bits of an integer literal of the given size.
func Integer(s string, size int) (uint64, Verdict) {
	neg, m := cut(s)
	n := magnitude(m).Num()
	limit := new(big.Int).Lsh(big.NewInt(1), uint(size))
	half := new(big.Int).Rsh(limit, 1)
	if neg {
		if n.Cmp(half) > 0 {
			return 0, Bad
		}
		n = new(big.Int).Sub(limit, n)
		n.And(n, new(big.Int).Sub(limit, big.NewInt(1)))
		return n.Uint64(), Good
	}
	if n.Cmp(limit) >= 0 {
		return 0, Bad
	}
	v := Good
	if s[0] == '+' && n.Cmp(half) >= 0 {
		v = Unsure
	}
	return n.Uint64(), v
}

// Floating gives the bits of a float literal of the given size, and whether
// only its being a NaN matters.
func Floating(s string, size int) (bits uint64, anyNaN bool, v Verdict) {
	neg, m := cut(s)
	mant, exp := 23, uint64(0xff)
	if size == 64 {
		mant, exp = 52, 0x7ff
	}
	sign := uint64(0)
	if neg {
		sign = 1 << (size - 1)
	}
	switch {
	case m == "inf":
		return sign | exp<<mant, false, Good
	case m == "nan":
		return sign | exp<<mant | 1<<(mant-1), false, Good
	case m == "nan:canonical", m == "nan:arithmetic":
		return exp<<mant | 1<<(mant-1), true, Good
	case strings.HasPrefix(m, "nan:"):
		p := magnitude(m[4:]).Num()
		if p.Sign() == 0 || p.BitLen() > mant {
			return 0, false, Bad
		}
		return sign | exp<<mant | p.Uint64(), false, Good
	}
	r := magnitude(m)
	if size == 32 {
		f, _ := r.Float32()
		if math.IsInf(float64(f), 0) {
			return 0, false, Bad
		}
		return sign | uint64(math.Float32bits(f)), false, Good
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return 0, false, Bad
	}
	return sign | math.Float64bits(f), false, Good
}
