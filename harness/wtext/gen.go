package wtext

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"strconv"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	wast "github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wat/ast"
)

// Gen generates text together with its meaning. T collects the tokens.
type Gen struct {
	R     *rand.Rand
	T     []string
	Loose bool
	// Seen counts the constructs used.
	Seen map[string]int
	// Budget bounds the number of instructions.
	Budget int
	// Small makes modules with at most one field.
	Small bool
	// Extra is how many more items may be used for unusually long lists.
	Extra int
}

// NewGen makes a generator.
func NewGen(r *rand.Rand) *Gen {
	b := 40
	if r.IntN(20) == 0 {
		b = 400
	}
	g := &Gen{R: r, Seen: map[string]int{}, Budget: b}
	if r.IntN(150) == 0 {
		g.Extra = 1000
		if r.IntN(20) == 0 {
			g.Extra = 70000
		}
	}
	return g
}

// many makes a number of items unusually large now and then.
func (g *Gen) many(n int) int {
	if g.Extra == 0 || !g.one(4) {
		return n
	}
	k := 120 + g.n(300)
	if g.one(2) {
		k = g.Extra
	}
	k = min(k, g.Extra)
	g.Extra -= k
	g.saw("long list")
	return n + k
}

func (g *Gen) n(n int) int         { return g.R.IntN(n) }
func (g *Gen) one(n int) bool      { return g.R.IntN(n) == 0 }
func (g *Gen) e(ts ...string)      { g.T = append(g.T, ts...) }
func (g *Gen) saw(what string)     { g.Seen[what]++ }
func pick[T any](g *Gen, v ...T) T { return v[g.R.IntN(len(v))] }

const idChars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&'*+-./:<=>?@\\^_`|~"

var words = []string{"func", "module", "component", "param", "result", "block", "then", "i32", "0", "0x1", "inf", "nan", "+1", "quote", "end"}

// Id makes an identifier.
func (g *Gen) Id() string {
	switch g.n(6) {
	case 0:
		return "$" + pick(g, words...)
	case 1:
		return "$" + string(idChars[g.n(len(idChars))])
	case 2:
		var b strings.Builder
		b.WriteByte('$')
		for n := g.many(1 + g.n(30)); n > 0; n-- {
			b.WriteByte(idChars[g.n(len(idChars))])
		}
		return b.String()
	}
	return "$" + string(rune('a'+g.n(6)))
}

func (g *Gen) optId() types.Option[string] {
	if g.one(2) {
		id := g.Id()
		g.e(id)
		g.saw("name")
		return option.Some(id)
	}
	return option.None[string]()
}

// underscore puts underscores between digits.
func (g *Gen) underscore(digits string) string {
	if !g.one(4) {
		return digits
	}
	g.saw("underscore")
	var b strings.Builder
	for i, c := range digits {
		if i > 0 && g.one(3) {
			b.WriteByte('_')
		}
		b.WriteRune(c)
	}
	return b.String()
}

// Magnitude spells an unsigned integer.
func (g *Gen) Magnitude(n *big.Int) string {
	zeros := ""
	if g.one(6) {
		zeros = strings.Repeat("0", g.many(1+g.n(40)))
		g.saw("leading zeros")
	}
	if g.one(2) {
		g.saw("hexadecimal")
		s := n.Text(16)
		if g.one(2) {
			s = strings.ToUpper(s)
		}
		return "0x" + g.underscore(zeros+s)
	}
	return g.underscore(zeros + n.Text(10))
}

// bits chooses a number with interesting ones included.
func (g *Gen) bits(size int) uint64 {
	var x uint64
	switch g.n(5) {
	case 0:
		x = uint64(g.n(300))
	case 1:
		x = -uint64(g.n(300))
	case 2:
		x = uint64(1)<<g.n(size) + uint64(g.n(5)) - 2
	default:
		x = g.R.Uint64() >> g.n(size)
	}
	return x & (^uint64(0) >> (64 - size))
}

// Integer spells an integer constant.
func (g *Gen) Integer(size int) (string, uint64) {
	x := g.bits(size)
	half := uint64(1) << (size - 1)
	switch {
	case x >= half && g.one(2) || x == 0 && g.one(4):
		g.saw("negative")
		m := new(big.Int).SetUint64(x)
		if x != 0 {
			m.Sub(new(big.Int).Lsh(big.NewInt(1), uint(size)), m)
		}
		if x == half {
			g.saw("smallest")
		}
		return "-" + g.Magnitude(m), x
	case x < half && g.one(5):
		g.saw("plus")
		return "+" + g.Magnitude(new(big.Int).SetUint64(x)), x
	}
	if x >= half {
		g.saw("upper half")
	}
	return g.Magnitude(new(big.Int).SetUint64(x)), x
}

func (g *Gen) digits(n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[g.n(len(alphabet))]
	}
	return string(b)
}

// Float spells a floating point constant. The value is exact.
func (g *Gen) Float(size int) (string, uint64) {
	for {
		s, x, ok := g.float(size)
		if ok {
			return s, x
		}
	}
}

func (g *Gen) float(size int) (string, uint64, bool) {
	mant := 23
	if size == 64 {
		mant = 52
	}
	signBit := uint64(1) << (size - 1)
	exp := (signBit - 1) &^ (uint64(1)<<mant - 1)
	sign := pick(g, "", "", "+", "-")
	s := uint64(0)
	if sign == "-" {
		s = signBit
	}
	switch g.n(8) {
	case 0:
		g.saw("infinity")
		return sign + "inf", s | exp, true
	case 1:
		g.saw("nan")
		if g.one(2) {
			return sign + "nan", s | exp | 1<<(mant-1), true
		}
		p := 1 + g.R.Uint64N(1<<mant-1)
		if g.one(3) {
			p = pick(g, 1, uint64(1)<<mant-1, uint64(1)<<(mant-1), uint64(1)<<(mant-1)-1)
		}
		return sign + "nan:0x" + g.underscore(fmt.Sprintf(pick(g, "%x", "%X", "0%x"), p)), s | exp | p, true
	case 2, 3:
		// a given number, spelled so that it is exact or the shortest
		x := g.R.Uint64() & (signBit - 1)
		if g.one(3) {
			x = pick(g, 0, 1, uint64(1)<<mant-1, uint64(1)<<mant, exp-1, uint64(1)<<mant+1, 2)
		}
		if x >= exp {
			return "", 0, false
		}
		var f float64
		if size == 32 {
			f = float64(math.Float32frombits(uint32(x)))
		} else {
			f = math.Float64frombits(x)
		}
		if x < 1<<mant {
			g.saw("subnormal or zero")
		}
		fm := pick(g, byte('g'), 'e', 'f', 'x', 'G', 'E', 'X')
		text := strconv.FormatFloat(f, fm, -1, size)
		g.saw("format " + string(fm|0x20))
		if fm == 'X' {
			// the prefix has to be in lower case
			text = "0x" + text[2:]
		}
		return sign + text, s | x, true
	case 4:
		// an integer
		m := g.big(1 + g.n(size*2))
		text := g.Magnitude(m)
		x, _, v := Floating(text, size)
		g.saw("integer as float")
		return sign + text, s | x, v == Good
	case 5:
		// hexadecimal with a fraction and an exponent
		text := "0x" + g.underscore(g.digits(1+g.n(24), "0123456789abcdefABCDEF"))
		if g.one(4) {
			text += "."
			g.saw("empty fraction")
		} else if g.one(4) {
		} else {
			text += "." + g.underscore(g.digits(1+g.n(24), "0123456789abcdefABCDEF"))
		}
		if !g.one(4) {
			text += pick(g, "p", "P") + g.exponent(size+mant*3)
		}
		g.saw("hexadecimal float")
		x, _, v := Floating(text, size)
		return sign + text, s | x, v == Good
	case 6:
		// half way between two numbers, or next to it
		x := g.R.Uint64() & (signBit - 1)
		if x >= exp-1 {
			return "", 0, false
		}
		mid := g.between(x, size)
		text := mid.FloatString(0)
		if !mid.IsInt() {
			// exact decimal expansion
			text = mid.FloatString(mid.Denom().BitLen())
			text = strings.TrimRight(text, "0")
		}
		if g.one(2) && strings.Contains(text, ".") {
			text += "0000000000000000000000" + pick(g, "", "1")
		}
		g.saw("half way")
		y, _, v := Floating(text, size)
		return sign + text, s | y, v == Good
	}
	text := g.underscore(g.digits(1+g.n(25), "0123456789"))
	if g.one(4) {
		text += "."
		g.saw("empty fraction")
	} else if !g.one(4) {
		text += "." + g.underscore(g.digits(1+g.n(25), "0123456789"))
	}
	if !g.one(4) {
		text += pick(g, "e", "E") + g.exponent(size*5)
	}
	g.saw("decimal float")
	x, _, v := Floating(text, size)
	return sign + text, s | x, v == Good
}

func (g *Gen) between(x uint64, size int) *big.Rat {
	var a, b *big.Rat
	if size == 32 {
		a = new(big.Rat).SetFloat64(float64(math.Float32frombits(uint32(x))))
		b = new(big.Rat).SetFloat64(float64(math.Float32frombits(uint32(x + 1))))
	} else {
		a = new(big.Rat).SetFloat64(math.Float64frombits(x))
		b = new(big.Rat).SetFloat64(math.Float64frombits(x + 1))
	}
	a.Add(a, b)
	return a.Quo(a, big.NewRat(2, 1))
}

func (g *Gen) exponent(limit int) string {
	n := g.n(limit)
	if g.one(2) {
		n = g.n(8)
	}
	return pick(g, "", "+", "-") + g.underscore(strings.Repeat("0", g.n(2)*g.n(3))+strconv.Itoa(n))
}

func (g *Gen) big(bits int) *big.Int {
	m := new(big.Int)
	for i := 0; i < bits; i++ {
		m.Lsh(m, 1)
		if g.one(2) {
			m.SetBit(m, 0, 1)
		}
	}
	return m
}

// Str spells a string.
func (g *Gen) Str() (string, string) {
	var text, val strings.Builder
	text.WriteByte('"')
	n := g.n(8)
	if g.one(30) {
		n = g.n(500)
	}
	for n = g.many(n); n > 0; n-- {
		switch g.n(9) {
		case 0:
			g.saw("escape")
			k := g.n(6)
			text.WriteString(`\` + string(`tnr"'\`[k]))
			val.WriteByte("\t\n\r\"'\\"[k])
		case 1:
			g.saw("byte escape")
			b := byte(g.n(256))
			text.WriteString(fmt.Sprintf(pick(g, `\%02x`, `\%02X`), b))
			val.WriteByte(b)
		case 2:
			g.saw("unicode escape")
			r := pick(g, rune(g.n(0x80)), rune(g.n(0x800)), rune(g.n(0xd800)), rune(0xe000+g.n(0x110000-0xe000)), 0x10ffff, 0xd7ff, 0xe000, 0)
			text.WriteString(`\u{` + g.underscore(strings.Repeat("0", g.n(2)*g.n(9))+fmt.Sprintf(pick(g, "%x", "%X"), r)) + `}`)
			val.WriteRune(r)
		case 3:
			s := pick(g, ";;", "(;", ";)", "(", ")", "é", "€", "\U0001f600", "'", " ", "$x", "0x")
			text.WriteString(s)
			val.WriteString(s)
		default:
			c := byte('a' + g.n(26))
			if g.one(3) {
				// any other visible character
				c = byte('!' + g.n(0x7f-'!'))
				if c == '"' || c == '\\' {
					c = '/'
				}
			}
			text.WriteByte(c)
			val.WriteByte(c)
		}
	}
	text.WriteByte('"')
	return text.String(), val.String()
}

func (g *Gen) str() string {
	t, v := g.Str()
	g.e(t)
	return v
}

func (g *Gen) valType() ast.ValType {
	t := pick(g, "i32", "i64", "f32", "f64")
	g.e(t)
	return ValTypes[t]
}

func (g *Gen) valTypes() []ast.ValType {
	var out []ast.ValType
	for n := g.many(pick(g, 0, 1, 1, 2, 3, 7)); n > 0; n-- {
		out = append(out, g.valType())
	}
	return out
}

func (g *Gen) u32() uint32 {
	x := g.bits(32)
	g.e(g.Magnitude(new(big.Int).SetUint64(x)))
	return uint32(x)
}

func (g *Gen) index() ast.Index {
	if g.one(2) {
		id := g.Id()
		g.e(id)
		return ast.IDIndex{ID: id}
	}
	g.saw("numeric index")
	return ast.RawIndex{Index: g.u32()}
}

func (g *Gen) params() []ast.Parameter {
	var out []ast.Parameter
	for n := g.many(pick(g, 0, 0, 1, 2, 4)); n > 0; n-- {
		g.e("(", "param")
		p := ast.Parameter{ID: g.optId()}
		if p.ID.IsSome() {
			g.saw("named param")
			p.Types = []ast.ValType{g.valType()}
		} else {
			p.Types = g.valTypes()
		}
		g.e(")")
		out = append(out, p)
	}
	return out
}

func (g *Gen) results() []ast.Result {
	var out []ast.Result
	for n := g.many(pick(g, 0, 0, 1, 1, 2, 3)); n > 0; n-- {
		g.e("(", "result")
		out = append(out, ast.Result{Types: g.valTypes()})
		g.e(")")
	}
	if len(out) > 1 {
		g.saw("several results")
	}
	return out
}

// Module generates a module.
func (g *Gen) Module() *ast.Module {
	m := &ast.Module{}
	g.e("(", "module")
	n := g.n(5)
	if g.one(20) {
		n = g.n(60)
	}
	if g.Small {
		n = g.n(2)
	}
	for n = g.many(n); n > 0; n-- {
		g.e("(")
		switch g.n(8) {
		case 0:
			g.e("type")
			g.saw("type")
			t := ast.Type{ID: g.optId()}
			g.e("(", "func")
			t.FuncType.Parameters = g.params()
			t.FuncType.Results = g.results()
			g.e(")")
			m.Types = append(m.Types, t)
		case 1:
			g.e("table")
			g.saw("table")
			m.Tables = append(m.Tables, g.table())
		case 2:
			g.e("memory")
			g.saw("memory")
			m.Memory = append(m.Memory, ast.Memory{ID: g.optId(), Limits: g.limits()})
		case 3:
			g.e("global")
			g.saw("global")
			x := ast.Global{ID: g.optId()}
			if g.one(2) {
				g.saw("mutable global")
				x.Type.Mutable = true
				g.e("(", "mut")
				x.Type.Type = g.valType()
				g.e(")")
			} else {
				x.Type.Type = g.valType()
			}
			x.Instructions = g.folds(2)
			m.Globals = append(m.Globals, x)
		default:
			g.e("func")
			g.saw("func")
			m.Functions = append(m.Functions, g.function())
		}
		g.e(")")
	}
	g.e(")")
	return m
}

func (g *Gen) limits() ast.Limits {
	l := ast.Limits{Min: g.u32(), Max: option.None[uint32]()}
	if g.one(2) {
		g.saw("maximum")
		l.Max = option.Some(g.u32())
	}
	return l
}

func (g *Gen) table() ast.Table {
	t := ast.Table{ID: g.optId()}
	elem := g.one(3)
	if !elem {
		t.TableType.Limits = g.limits()
	}
	if g.one(2) {
		g.e("funcref")
		t.TableType.RefType = ast.FuncRef{}
	} else {
		g.e("externref")
		t.TableType.RefType = ast.ExternRef{}
	}
	if elem {
		g.saw("inline elements")
		id := g.Id()
		g.e("(", "elem", id, ")")
		t.Elements = []ast.Element{{ID: id}}
	}
	return t
}

func (g *Gen) function() ast.Function {
	f := ast.Function{ID: g.optId()}
	for n := g.many(pick(g, 0, 0, 1, 2, 3)); n > 0; n-- {
		g.saw("export")
		g.e("(", "export")
		f.Exports = append(f.Exports, ast.InlineExport{Name: g.str()})
		g.e(")")
	}
	imported := g.one(6)
	if imported {
		g.saw("import")
		g.e("(", "import")
		f.Imports = append(f.Imports, ast.InlineImport{Module: g.str(), Field: g.str()})
		g.e(")")
	}
	f.Parameters = g.params()
	f.Results = g.results()
	if imported {
		return f
	}
	for n := g.many(pick(g, 0, 0, 1, 3)); n > 0; n-- {
		g.saw("local")
		g.e("(", "local")
		f.Locals = append(f.Locals, ast.Local{Type: g.valType()})
		g.e(")")
	}
	n := g.n(6)
	if g.one(20) {
		n = g.n(80)
	}
	if g.Extra > 0 && g.one(2) {
		f.Instructions = append(f.Instructions, g.chain(min(g.Extra, 100+g.n(300))))
	}
	for n = g.many(n); n > 0; n-- {
		if g.one(2) {
			f.Instructions = append(f.Instructions, g.fold(3))
		} else {
			g.saw("plain instruction")
			f.Instructions = append(f.Instructions, g.instr())
		}
	}
	return f
}

func (g *Gen) folds(depth int) []ast.Instruction {
	var out []ast.Instruction
	if g.Budget <= 0 {
		return nil
	}
	for n := g.many(g.n(4)); n > 0; n-- {
		out = append(out, g.fold(depth))
	}
	return out
}

// chain makes instructions nested in each other.
func (g *Gen) chain(depth int) ast.Instruction {
	g.e("(")
	defer g.e(")")
	if depth == 0 {
		return g.instr()
	}
	g.saw("deep instruction")
	switch g.n(4) {
	case 0:
		g.e("block")
		return ast.Block{Name: g.optId(), Instructions: []ast.Instruction{g.chain(depth - 1)}}
	case 1:
		g.e("loop")
		return ast.Loop{Name: g.optId(), Instructions: []ast.Instruction{g.chain(depth - 1)}}
	}
	in := g.instr()
	return ast.Folded{Instruction: in, Parameters: []ast.Instruction{g.chain(depth - 1)}}
}

func (g *Gen) fold(depth int) ast.Instruction {
	g.e("(")
	defer g.e(")")
	if depth > 0 && g.one(4) {
		word := pick(g, "block", "loop", "if")
		g.saw(word)
		g.e(word)
		name := g.optId()
		bt := ast.BlockType{Results: g.results()}
		switch word {
		case "block":
			return ast.Block{Name: name, BlockType: bt, Instructions: g.folds(depth - 1)}
		case "loop":
			return ast.Loop{Name: name, BlockType: bt, Instructions: g.folds(depth - 1)}
		}
		x := ast.If{Name: name, BlockType: bt, Clause: g.folds(depth - 1), Else: option.None[ast.Else]()}
		g.e("(", "then")
		x.Then.Instructions = g.folds(depth - 1)
		g.e(")")
		if g.one(2) {
			g.saw("else")
			g.e("(", "else")
			x.Else = option.Some(ast.Else{Instructions: g.folds(depth - 1)})
			g.e(")")
		}
		return x
	}
	in := g.instr()
	var ps []ast.Instruction
	if depth > 0 {
		ps = g.folds(depth - 1)
	}
	if len(ps) == 0 {
		return in
	}
	g.saw("folded")
	return ast.Folded{Instruction: in, Parameters: ps}
}

var plainWords, indexedWords []string

func init() {
	for w := range Plain {
		plainWords = append(plainWords, w)
	}
	for w := range Indexed {
		indexedWords = append(indexedWords, w)
	}
	sortStrings(plainWords)
	sortStrings(indexedWords)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// InstructionWords lists the supported instructions, without blocks.
func InstructionWords() []string {
	out := append(append([]string{}, plainWords...), indexedWords...)
	return append(out, "br_table", "call_indirect", "i32.const", "i64.const", "f32.const", "f64.const")
}

func (g *Gen) instr() ast.Instruction {
	g.Budget--
	switch g.n(8) {
	case 0, 1:
		w := pick(g, indexedWords...)
		g.e(w)
		g.saw(w)
		return Indexed[w](g.index())
	case 2:
		g.e("i32.const")
		s, x := g.Integer(32)
		g.e(s)
		g.saw("i32.const")
		return ast.I32Const{Value: int32(x)}
	case 3:
		w := pick(g, "i64.const", "f32.const", "f64.const")
		g.e(w)
		g.saw(w)
		switch w {
		case "i64.const":
			s, x := g.Integer(64)
			g.e(s)
			return ast.I64Const{Value: int64(x)}
		case "f32.const":
			s, x := g.Float(32)
			g.e(s)
			return ast.F32Const{Value: math.Float32frombits(uint32(x))}
		}
		s, x := g.Float(64)
		g.e(s)
		return ast.F64Const{Value: math.Float64frombits(x)}
	case 4:
		if g.one(2) {
			g.e("br_table")
			g.saw("br_table")
			b := ast.BrTable{}
			for n := g.many(1 + g.n(5)); n > 0; n-- {
				b.Indicies = append(b.Indicies, g.index())
			}
			return b
		}
		g.saw("call_indirect")
		id := g.Id()
		g.e("call_indirect", "(", "type", id, ")")
		return ast.CallIndirect{Type: ast.TypeUse{Index: id}}
	}
	w := pick(g, plainWords...)
	g.e(w)
	g.saw(w)
	return Plain[w]
}

// Directive generates a module or component.
func (g *Gen) Directive() ast.Directive {
	if g.one(25) {
		g.saw("component")
		g.e("(", "component", ")")
		return &ast.Component{}
	}
	return g.Module()
}

// Script generates a script.
func (g *Gen) Script() *wast.Wast {
	w := &wast.Wast{}
	n := g.n(5)
	if g.one(20) {
		n = g.n(40)
	}
	for n = g.many(n); n > 0; n-- {
		switch g.n(7) {
		case 0, 1:
			g.saw("module directive")
			w.Directives = append(w.Directives, wast.WatDirective{Wat: g.quoteWat()})
		case 2, 3, 4:
			g.saw("assert_return")
			g.e("(", "assert_return")
			a := wast.AssertReturn{Action: g.action()}
			for k := g.many(pick(g, 0, 1, 1, 2, 4)); k > 0; k-- {
				a.Results = append(a.Results, g.constant(true).(wast.Result))
			}
			g.e(")")
			w.Directives = append(w.Directives, a)
		case 5:
			g.saw("assert_trap")
			g.e("(", "assert_trap")
			w.Directives = append(w.Directives, wast.AssertTrap{Action: g.action(), Failure: g.str()})
			g.e(")")
		case 6:
			word := pick(g, "assert_invalid", "assert_malformed")
			g.saw(word)
			g.e("(", word)
			q := g.quoteWat()
			s := g.str()
			g.e(")")
			if word == "assert_invalid" {
				w.Directives = append(w.Directives, wast.AssertInvalid{Module: q, Failure: s})
			} else {
				w.Directives = append(w.Directives, wast.AssertMalformed{Module: q, Failure: s})
			}
		}
	}
	return w
}

func (g *Gen) quoteWat() wast.QuoteWat {
	if g.one(3) {
		word := pick(g, "module", "component")
		g.saw(word + " quote")
		g.e("(", word, "quote")
		s := g.str()
		g.e(")")
		if word == "module" {
			return &wast.QuoteModule{Quote: s}
		}
		return &wast.QuoteComponent{Quote: s}
	}
	return &wast.Wat{Wat: g.Directive()}
}

func (g *Gen) action() wast.Action {
	g.e("(", "invoke")
	inv := wast.Invoke{Name: g.optId()}
	if inv.Name.IsSome() {
		g.saw("invoke on a named module")
	}
	inv.String = g.str()
	for k := g.many(pick(g, 0, 1, 1, 2, 5)); k > 0; k-- {
		inv.Const = append(inv.Const, g.constant(false).(wast.Const))
	}
	g.e(")")
	return inv
}

func (g *Gen) constant(result bool) any {
	g.e("(")
	defer g.e(")")
	w := pick(g, "i32", "i64", "f32", "f64")
	g.e(w + ".const")
	g.saw(w + " constant")
	switch w {
	case "i32":
		s, x := g.Integer(32)
		g.e(s)
		return wast.I32Const{Value: int32(x)}
	case "i64":
		s, x := g.Integer(64)
		g.e(s)
		return wast.I64Const{Value: int64(x)}
	}
	class := result && g.one(5)
	if class {
		g.Loose = true
		g.saw("nan class")
		g.e(pick(g, "nan:canonical", "nan:arithmetic"))
	}
	if w == "f32" {
		if class {
			return wast.F32Const{Value: float32(math.NaN())}
		}
		s, x := g.Float(32)
		g.e(s)
		return wast.F32Const{Value: math.Float32frombits(uint32(x))}
	}
	if class {
		return wast.F64Const{Value: math.NaN()}
	}
	s, x := g.Float(64)
	g.e(s)
	return wast.F64Const{Value: math.Float64frombits(x)}
}

const splitters = "\x00\x01\t\r\n\v\x1a\x1b !\"#$\\x\x7f"

// lineInner are characters that do not end a line.
var lineInner = []string{"\x00", "\x01", "\b", "\t", "\v", "\f", "\r", "\x1a", "\x1b", "\x7f", "\u0085", "\u2028", "\u2029", "\\", "\\n"}

// comment makes the inside of a block comment.
func comment(r *rand.Rand, depth int) string {
	var b strings.Builder
	for n := r.IntN(5); n > 0; n-- {
		switch r.IntN(9) {
		case 0:
			if depth > 0 {
				b.WriteString("(;" + comment(r, depth-1) + ";)")
			}
		case 1:
			if r.IntN(2) == 0 {
				b.WriteString(";x")
				break
			}
			// delimiters that are not, because of the byte between
			m := string(splitters[r.IntN(len(splitters))])
			b.WriteString([]string{";" + m + ")", "(" + m + ";" + m}[r.IntN(2)])
		case 2:
			b.WriteString("( ")
		case 3:
			b.WriteString("\n")
		case 4:
			b.WriteString("\"")
		case 5:
			b.WriteString("é€")
		case 6:
			b.WriteString(";;y")
		case 7:
			b.WriteString("*)\\")
		default:
			b.WriteString("module")
		}
	}
	if r.IntN(6) == 0 {
		b.WriteString(";")
	}
	if r.IntN(6) == 0 {
		return ")" + b.String()
	}
	return b.String()
}

// Trivia makes text without meaning, which starts with a blank.
func Trivia(r *rand.Rand) string {
	var b strings.Builder
	b.WriteByte(" \t\n\r"[r.IntN(4)])
	for n := r.IntN(4); n > 0; n-- {
		switch r.IntN(5) {
		case 0:
			b.WriteString("(;" + comment(r, 2) + ";)")
		case 1:
			b.WriteString(";;" + []string{"", " x", "(module", ")", "\"", "(;", ";)", ";", " é€", "\r", lineInner[r.IntN(len(lineInner))] + ")"}[r.IntN(11)] + "\n")
		case 2:
			b.WriteString("\r\n")
		default:
			b.WriteString(strings.Repeat(string(" \t\n\r"[r.IntN(4)]), 1+r.IntN(3)))
		}
	}
	return b.String()
}

// Separate tells whether two tokens need separation.
func Separate(a, b string) bool {
	paren := func(s string) bool { return s == "(" || s == ")" }
	return !paren(a) && !paren(b)
}

// Render writes tokens with different amounts of trivia: 0 single blanks,
// 1 as little as possible, 2 much.
func Render(r *rand.Rand, ts []string, style int) string {
	var b strings.Builder
	for i, t := range ts {
		need := i > 0 && Separate(ts[i-1], t)
		switch {
		case style == 0 && i > 0, style == 1 && need:
			b.WriteByte(' ')
		case style == 2:
			switch {
			case need || r.IntN(3) == 0:
				b.WriteString(Trivia(r))
			case r.IntN(6) == 0:
				b.WriteString("(;" + comment(r, 1) + ";)")
			}
		}
		b.WriteString(t)
	}
	if style == 2 {
		b.WriteString(Trivia(r))
		if r.IntN(4) == 0 {
			b.WriteString(";; the end")
		}
	}
	return b.String()
}
