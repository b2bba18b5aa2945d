package wtext

import (
	"math"
	"regexp"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	wast "github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wat/ast"
)

// Plain holds the instructions without operands.
var Plain = map[string]ast.Instruction{
	"return": ast.Return{}, "drop": ast.Drop{}, "select": ast.Select{},
	"memory.grow": ast.MemoryGrow{}, "i32.load": ast.I32Load{}, "i32.store": ast.I32Store{},
	"f32.add": ast.F32Add{}, "f32.sub": ast.F32Sub{}, "f32.mul": ast.F32Mul{}, "f32.div": ast.F32Div{},
	"f32.sqrt": ast.F32Sqrt{}, "f32.min": ast.F32Min{}, "f32.max": ast.F32Max{}, "f32.ceil": ast.F32Ceil{},
	"f32.floor": ast.F32Floor{}, "f32.trunc": ast.F32Trunc{}, "f32.nearest": ast.F32Nearest{},
	"i32.add": ast.I32Add{}, "i32.sub": ast.I32Sub{}, "i32.mul": ast.I32Mul{}, "i32.div_s": ast.I32DivS{},
	"i32.div_u": ast.I32DivU{}, "i32.rem_s": ast.I32RemS{}, "i32.rem_u": ast.I32RemU{}, "i32.and": ast.I32And{},
	"i32.or": ast.I32Or{}, "i32.xor": ast.I32Xor{}, "i32.shl": ast.I32Shl{}, "i32.shr_s": ast.I32ShrS{},
	"i32.shr_u": ast.I32ShrU{}, "i32.rotl": ast.I32Rotl{}, "i32.rotr": ast.I32Rotr{}, "i32.clz": ast.I32Clz{},
	"i32.ctz": ast.I32Ctz{}, "i32.popcnt": ast.I32Popcnt{}, "i32.extend8_s": ast.I32Extend8S{},
	"i32.extend16_s": ast.I32Extend16S{}, "i32.eqz": ast.I32Eqz{}, "i32.eq": ast.I32Eq{}, "i32.ne": ast.I32Ne{},
	"i32.lt_s": ast.I32LtS{}, "i32.lt_u": ast.I32LtU{}, "i32.le_s": ast.I32LeS{}, "i32.le_u": ast.I32LeU{},
	"i32.gt_s": ast.I32GtS{}, "i32.gt_u": ast.I32GtU{}, "i32.ge_s": ast.I32GeS{}, "i32.ge_u": ast.I32GeU{},
}

// Indexed holds the instructions with an index.
var Indexed = map[string]func(ast.Index) ast.Instruction{
	"br":         func(i ast.Index) ast.Instruction { return ast.Br{Index: i} },
	"br_if":      func(i ast.Index) ast.Instruction { return ast.BrIf{Index: i} },
	"call":       func(i ast.Index) ast.Instruction { return ast.Call{Index: i} },
	"local.get":  func(i ast.Index) ast.Instruction { return ast.LocalGet{Index: i} },
	"local.set":  func(i ast.Index) ast.Instruction { return ast.LocalSet{Index: i} },
	"local.tee":  func(i ast.Index) ast.Instruction { return ast.LocalTee{Index: i} },
	"global.get": func(i ast.Index) ast.Instruction { return ast.GlobalGet{Index: i} },
	"global.set": func(i ast.Index) ast.Instruction { return ast.GlobalSet{Index: i} },
}

// ValTypes holds the value types.
var ValTypes = map[string]ast.ValType{"i32": ast.I32{}, "i64": ast.I64{}, "f32": ast.F32{}, "f64": ast.F64{}}

// words of the format the library does not support, which it may learn
var foreign = regexp.MustCompile(`^(?:` +
	`(?:i64|f64|v128|i8x16|i16x8|i32x4|i64x2|f32x4|f64x2|table|elem|data|ref|struct|array|i31|any|extern|memory|atomic|cont)\..*|` +
	`i32\.(?:load8_[su]|load16_[su]|store8|store16|wrap_i64|trunc_.*|reinterpret_f32|atomic\..*)|` +
	`f32\.(?:load|store|abs|neg|copysign|eq|ne|lt|gt|le|ge|convert_.*|demote_f64|reinterpret_i32)|` +
	`offset=.*|align=.*|` +
	`unreachable|nop|block|loop|if|then|else|end|try|try_table|catch.*|throw.*|rethrow|delegate|do|let|` +
	`return_call.*|call_.*|br_on_.*|suspend|resume.*|select|local|param|result|type|item|` +
	`import|export|start|elem|data|rec|tag|sub|final|struct|array|field|shared|func|memory|table|global|` +
	`binary|quote|definition|instance|register|invoke|get|assert_.*|script|input|output|thread|wait|either|` +
	`v128|i8|i16|.*ref)$`)

// heap types of references and words that begin a constant in a script, which
// the library may learn
var heap = regexp.MustCompile(`^(?:(?:no)?(?:func|extern|exn)|any|eq|i31|struct|array|none|cont|nocont)$`)
var literal = regexp.MustCompile(`^(?:v128\.const|ref\..*|either)$`)

type stop struct {
	v   Verdict
	why string
}

type parser struct {
	t []Token
	i int
	// loose notes that only the class of NaNs matters
	loose bool
	// doubt notes a well-formed construct outside of the supported syntax:
	// what follows can still be malformed
	doubt string
}

// later goes on behind a well-formed construct that need not be supported.
func (p *parser) later(why string) {
	if p.doubt == "" {
		p.doubt = why
	}
}

// sure ends the judgement of a text.
func (p *parser) sure() {
	if p.doubt != "" {
		p.unsure(p.doubt)
	}
}

func (p *parser) bad(why string)    { panic(stop{Bad, why}) }
func (p *parser) unsure(why string) { panic(stop{Unsure, why}) }

func (p *parser) peek() Token {
	t := p.t[p.i]
	if t.Kind == Broken {
		p.bad("broken token")
	}
	if t.Glued {
		p.unsure("tokens without separation")
	}
	return t
}

func (p *parser) next() Token {
	t := p.peek()
	if t.Kind != End {
		p.i++
	}
	return t
}

func (p *parser) is(k Kind) bool { return p.peek().Kind == k }

// opens tells whether "( word" comes next.
func (p *parser) opens(word string) bool {
	if !p.is(Open) {
		return false
	}
	p.i++
	t := p.peek()
	p.i--
	return t.Kind == Word && t.Text == word
}

func (p *parser) head() Token {
	p.i++
	t := p.peek()
	p.i--
	return t
}

func (p *parser) need(k Kind, why string) Token {
	t := p.next()
	if t.Kind != k {
		p.refuse(t, why)
	}
	return t
}

// refuse judges text that is not what the supported grammar expects.
func (p *parser) refuse(t Token, why string) {
	if t.Kind == Word && foreign.MatchString(t.Text) {
		p.unsure("unsupported word " + t.Text)
	}
	p.bad(why)
}

func (p *parser) word(s string) {
	t := p.next()
	if t.Kind != Word || t.Text != s {
		p.refuse(t, "expected "+s)
	}
}

func (p *parser) str() string {
	t := p.need(Str, "string expected")
	s, v := Unescape(t.Text)
	if v != Good {
		panic(stop{v, "string escape"})
	}
	return s
}

func (p *parser) optId() types.Option[string] {
	if p.is(Id) {
		return option.Some(p.next().Text)
	}
	return option.None[string]()
}

func (p *parser) u32() uint32 {
	t := p.need(Int, "unsigned integer expected")
	if t.Text[0] == '+' || t.Text[0] == '-' {
		p.bad("signed index")
	}
	n, v := Integer(t.Text, 32)
	if v != Good {
		panic(stop{v, "index range"})
	}
	return uint32(n)
}

func (p *parser) index() ast.Index {
	if p.is(Id) {
		return ast.IDIndex{ID: p.next().Text}
	}
	return ast.RawIndex{Index: p.u32()}
}

func (p *parser) valType() ast.ValType {
	t := p.next()
	if ty, ok := ValTypes[t.Text]; ok && t.Kind == Word {
		return ty
	}
	if t.Kind == Open {
		p.unsure("reference type")
	}
	p.refuse(t, "value type expected")
	return nil
}

func (p *parser) valTypes() []ast.ValType {
	var ts []ast.ValType
	for !p.is(Close) {
		ts = append(ts, p.valType())
	}
	return ts
}

func (p *parser) param() ast.Parameter {
	p.next()
	p.word("param")
	prm := ast.Parameter{ID: p.optId()}
	if prm.ID.IsSome() {
		prm.Types = []ast.ValType{p.valType()}
	} else {
		prm.Types = p.valTypes()
	}
	p.need(Close, "end of param")
	return prm
}

func (p *parser) result() ast.Result {
	p.next()
	p.word("result")
	r := ast.Result{Types: p.valTypes()}
	p.need(Close, "end of result")
	return r
}

func (p *parser) limits() ast.Limits {
	l := ast.Limits{Min: p.u32(), Max: option.None[uint32]()}
	if p.is(Int) {
		l.Max = option.Some(p.u32())
	}
	return l
}

func (p *parser) module() *ast.Module {
	m := &ast.Module{}
	if p.is(Id) {
		p.next()
		p.later("module name")
	}
	for !p.is(Close) {
		p.need(Open, "module field expected")
		t := p.next()
		if t.Kind != Word {
			p.bad("module field expected")
		}
		switch t.Text {
		case "func":
			m.Functions = append(m.Functions, p.function())
		case "type":
			ty := ast.Type{ID: p.optId()}
			p.need(Open, "func type expected")
			p.word("func")
			for p.opens("param") {
				ty.FuncType.Parameters = append(ty.FuncType.Parameters, p.param())
			}
			for p.opens("result") {
				ty.FuncType.Results = append(ty.FuncType.Results, p.result())
			}
			if p.opens("param") {
				p.unsure("order of params and results")
			}
			p.need(Close, "end of func type")
			p.need(Close, "end of type")
			m.Types = append(m.Types, ty)
		case "table":
			m.Tables = append(m.Tables, p.table())
		case "global":
			m.Globals = append(m.Globals, p.global())
		case "memory":
			mem := ast.Memory{ID: p.optId()}
			imported := p.inline()
			if !imported && p.opens("data") {
				p.later("inline data")
				p.next()
				p.next()
				for !p.is(Close) {
					p.str()
				}
				p.next()
				p.need(Close, "end of memory")
				break
			}
			mem.Limits = p.limits()
			if t := p.peek(); t.Kind == Word {
				p.refuse(t, "end of memory")
			}
			p.need(Close, "end of memory")
			m.Memory = append(m.Memory, mem)
		case "start":
			p.later("start")
			p.index()
			p.need(Close, "end of start")
		case "export":
			p.later("export")
			p.str()
			p.need(Open, "what is exported")
			k := p.next()
			if k.Kind != Word || k.Text != "func" && k.Text != "table" && k.Text != "memory" && k.Text != "global" {
				if k.Kind == Word && k.Text == "tag" {
					p.unsure("tag")
				}
				p.bad("what is exported")
			}
			p.index()
			p.need(Close, "end of export")
			p.need(Close, "end of export")
		case "import":
			p.later("import")
			p.str()
			p.str()
			p.need(Open, "what is imported")
			p.imported()
			p.need(Close, "end of import")
			p.need(Close, "end of import")
		case "data":
			p.later("data")
			p.optId()
			if p.is(Int) {
				p.unsure("data with index")
			}
			if p.opens("memory") {
				p.next()
				p.next()
				p.index()
				p.need(Close, "end of memory use")
			}
			if p.opens("offset") {
				p.unsure("offset")
			}
			if p.is(Open) {
				p.fold()
			}
			for !p.is(Close) {
				p.str()
			}
			p.next()
		default:
			p.refuse(t, "unknown module field "+t.Text)
		}
	}
	return m
}

// imported takes the description of an import.
func (p *parser) imported() {
	k := p.next()
	if k.Kind != Word {
		p.bad("what is imported")
	}
	switch k.Text {
	case "func":
		p.optId()
		p.typeUse()
	case "table":
		p.optId()
		p.limits()
		p.refType()
	case "memory":
		p.optId()
		p.limits()
		if t := p.peek(); t.Kind == Word {
			p.refuse(t, "end of memory")
		}
	case "global":
		p.optId()
		p.globalType()
	case "tag":
		p.unsure("tag")
	default:
		p.bad("what is imported")
	}
}

// inline takes inline exports and imports of a table, memory or global.
func (p *parser) inline() (imported bool) {
	for p.opens("export") {
		p.later("inline export")
		p.next()
		p.next()
		p.str()
		p.need(Close, "end of export")
	}
	if p.opens("import") {
		p.later("inline import")
		p.next()
		p.next()
		p.str()
		p.str()
		p.need(Close, "end of import")
		return true
	}
	return false
}

// typeUse takes a reference to a type or the type itself.
func (p *parser) typeUse() {
	if p.opens("type") {
		p.next()
		p.next()
		p.index()
		p.need(Close, "end of type use")
	}
	for p.opens("param") {
		p.param()
	}
	for p.opens("result") {
		p.result()
	}
}

func (p *parser) refType() ast.RefType {
	ref := p.next()
	switch {
	case ref.Kind == Open:
		p.unsure("reference type")
	case ref.Kind == Word && ref.Text == "funcref":
		return ast.FuncRef{}
	case ref.Kind == Word && ref.Text == "externref":
		return ast.ExternRef{}
	}
	p.refuse(ref, "reference type expected")
	return nil
}

func (p *parser) globalType() ast.GlobalType {
	var g ast.GlobalType
	if p.is(Open) {
		p.next()
		if t := p.peek(); t.Kind == Word && t.Text == "ref" {
			p.unsure("reference type")
		}
		p.word("mut")
		g.Mutable = true
		g.Type = p.valType()
		p.need(Close, "end of mut")
	} else {
		g.Type = p.valType()
	}
	return g
}

func (p *parser) table() ast.Table {
	t := ast.Table{ID: p.optId()}
	if p.inline() {
		p.limits()
		p.refType()
		p.need(Close, "end of table")
		return t
	}
	limits := false
	if p.is(Int) {
		limits = true
		t.TableType.Limits = p.limits()
	}
	t.TableType.RefType = p.refType()
	for p.is(Open) {
		if !p.opens("elem") {
			p.refuse(p.head(), "elem expected")
		}
		p.next()
		p.next()
		if p.is(Open) {
			p.unsure("element expressions")
		}
		if !p.is(Id) {
			p.later("elements")
		}
		n := 0
		for ; !p.is(Close); n++ {
			if p.is(Id) {
				t.Elements = append(t.Elements, ast.Element{ID: p.next().Text})
				continue
			}
			if k := p.peek(); k.Kind != Int {
				p.refuse(k, "element")
			}
			p.u32()
		}
		if n != 1 {
			p.later("several elements")
		}
		p.next()
	}
	if limits == (len(t.Elements) > 0) || len(t.Elements) > 1 {
		p.later("limits and elements")
	}
	p.need(Close, "end of table")
	return t
}

func (p *parser) global() ast.Global {
	g := ast.Global{ID: p.optId()}
	imported := p.inline()
	g.Type = p.globalType()
	if imported {
		p.need(Close, "end of global")
		return g
	}
	g.Instructions = p.folds()
	p.need(Close, "end of global")
	return g
}

func (p *parser) function() ast.Function {
	f := ast.Function{ID: p.optId()}
	stage := 0
	at := func(n int) {
		if stage > n || n == stage && n == 1 {
			p.unsure("order of the parts of a function")
		}
		stage = n
	}
	for p.is(Open) {
		h := p.head()
		if h.Kind != Word {
			p.bad("word expected")
		}
		switch h.Text {
		case "export":
			at(0)
			p.next()
			p.next()
			f.Exports = append(f.Exports, ast.InlineExport{Name: p.str()})
			p.need(Close, "end of export")
		case "import":
			at(1)
			p.next()
			p.next()
			f.Imports = append(f.Imports, ast.InlineImport{Module: p.str(), Field: p.str()})
			p.need(Close, "end of import")
		case "type":
			p.later("type use")
			p.next()
			p.next()
			p.index()
			p.need(Close, "end of type use")
		case "param":
			at(2)
			f.Parameters = append(f.Parameters, p.param())
		case "result":
			at(3)
			f.Results = append(f.Results, p.result())
		case "local":
			at(4)
			p.next()
			p.next()
			if p.is(Id) || p.is(Close) {
				p.later("named or empty local")
			}
			if p.optId().IsSome() {
				p.valType()
			} else if ts := p.valTypes(); len(ts) == 1 {
				f.Locals = append(f.Locals, ast.Local{Type: ts[0]})
			} else {
				p.later("several locals")
			}
			p.need(Close, "end of local")
		default:
			at(5)
			f.Instructions = append(f.Instructions, p.fold())
		}
	}
	for !p.is(Close) {
		if p.is(Open) {
			f.Instructions = append(f.Instructions, p.fold())
			continue
		}
		f.Instructions = append(f.Instructions, p.instr(false))
	}
	p.next()
	if len(f.Imports) > 0 && (len(f.Locals) > 0 || len(f.Instructions) > 0) {
		p.later("imported function with body")
	}
	return f
}

// folds parses instructions in parentheses; plain ones are not supported here.
func (p *parser) folds() []ast.Instruction {
	var out []ast.Instruction
	for {
		switch p.peek().Kind {
		case Open:
			out = append(out, p.fold())
		case Word:
			p.later("plain instruction in block")
			out = append(out, p.instr(false))
		default:
			return out
		}
	}
}

func (p *parser) fold() ast.Instruction {
	p.next()
	t := p.peek()
	if t.Kind != Word {
		p.bad("instruction expected")
	}
	var out ast.Instruction
	switch t.Text {
	case "block", "loop":
		p.next()
		name := p.optId()
		bt := p.blockType()
		body := p.folds()
		if t.Text == "block" {
			out = ast.Block{Name: name, BlockType: bt, Instructions: body}
		} else {
			out = ast.Loop{Name: name, BlockType: bt, Instructions: body}
		}
	case "if":
		p.next()
		x := ast.If{Name: p.optId(), Else: option.None[ast.Else]()}
		x.BlockType = p.blockType()
		for p.is(Open) && !p.opens("then") {
			if p.opens("else") || p.opens("result") {
				p.bad("misplaced part of if")
			}
			x.Clause = append(x.Clause, p.fold())
		}
		if !p.is(Open) {
			if t := p.peek(); t.Kind == Word && t.Text != "then" && t.Text != "else" {
				p.refuse(t, "then expected")
			}
			p.bad("then expected")
		}
		p.next()
		p.next()
		x.Then.Instructions = p.folds()
		p.need(Close, "end of then")
		if p.opens("else") {
			p.next()
			p.next()
			x.Else = option.Some(ast.Else{Instructions: p.folds()})
			p.need(Close, "end of else")
		}
		if p.is(Open) {
			p.bad("if goes on after its branches")
		}
		out = x
	case "then", "else", "result", "param", "local", "export", "import", "type", "mut", "elem", "func":
		p.bad("instruction expected")
	default:
		in := p.instr(true)
		if !p.is(Open) {
			out = in
			break
		}
		f := ast.Folded{Instruction: in}
		for p.is(Open) {
			f.Parameters = append(f.Parameters, p.fold())
		}
		out = f
	}
	if t := p.peek(); t.Kind == Word {
		p.refuse(t, "end of instruction")
	}
	p.need(Close, "end of instruction")
	return out
}

func (p *parser) blockType() ast.BlockType {
	var bt ast.BlockType
	if p.opens("type") || p.opens("param") {
		p.later("block type")
		p.typeUse()
	}
	for p.opens("result") {
		bt.Results = append(bt.Results, p.result())
	}
	return bt
}

func (p *parser) number(kind string) (uint64, bool) {
	t := p.next()
	size := 32
	if kind[1:3] == "64" {
		size = 64
	}
	var n uint64
	var v Verdict
	nan := false
	if kind[0] == 'i' {
		if t.Kind != Int {
			p.bad("integer expected")
		}
		n, v = Integer(t.Text, size)
	} else {
		if t.Kind != Int && t.Kind != Float {
			p.bad("number expected")
		}
		n, nan, v = Floating(t.Text, size)
	}
	if v != Good {
		panic(stop{v, "range of a number"})
	}
	return n, nan
}

func (p *parser) instr(folded bool) ast.Instruction {
	t := p.next()
	if t.Kind != Word {
		p.bad("instruction expected")
	}
	if in, ok := Plain[t.Text]; ok {
		memory := t.Text == "memory.grow" || t.Text == "i32.load" || t.Text == "i32.store"
		if memory && (p.is(Id) || p.is(Int)) {
			p.later("memory index")
			p.index()
		}
		if k := p.peek(); k.Kind == Word && (strings.HasPrefix(k.Text, "offset=") || strings.HasPrefix(k.Text, "align=")) {
			if !memory || t.Text == "memory.grow" {
				p.bad("memory operand of another instruction")
			}
			p.unsure("memory operand")
		}
		for t.Text == "select" && p.opens("result") {
			p.later("typed select")
			p.result()
		}
		return in
	}
	if mk, ok := Indexed[t.Text]; ok {
		return mk(p.index())
	}
	switch t.Text {
	case "br_table":
		b := ast.BrTable{Indicies: []ast.Index{p.index()}}
		for p.is(Id) || p.is(Int) {
			b.Indicies = append(b.Indicies, p.index())
		}
		return b
	case "i32.const", "i64.const", "f32.const", "f64.const":
		n, nan := p.number(t.Text)
		if nan {
			p.later("class of nan in a module")
		}
		switch t.Text {
		case "i32.const":
			return ast.I32Const{Value: int32(n)}
		case "i64.const":
			return ast.I64Const{Value: int64(n)}
		case "f32.const":
			return ast.F32Const{Value: math.Float32frombits(uint32(n))}
		}
		return ast.F64Const{Value: math.Float64frombits(n)}
	case "call_indirect":
		if p.is(Id) || p.is(Int) {
			p.later("table of call_indirect")
			p.index()
		}
		id := ""
		if p.opens("type") {
			p.next()
			p.next()
			if p.is(Int) {
				p.later("type by number")
				p.u32()
			} else {
				id = p.need(Id, "type name").Text
			}
			p.need(Close, "end of type use")
		} else {
			p.later("call_indirect without type")
		}
		if p.opens("param") || p.opens("result") {
			p.later("type use with parameters")
			p.typeUse()
		}
		return ast.CallIndirect{Type: ast.TypeUse{Index: id}}
	}
	p.refuse(t, "unknown instruction "+t.Text)
	return nil
}

func (p *parser) directive() ast.Directive {
	p.need(Open, "opening parenthesis")
	t := p.next()
	if t.Kind != Word {
		p.bad("module expected")
	}
	switch t.Text {
	case "module":
		m := p.module()
		p.next()
		return m
	case "component":
		if !p.is(Close) && !p.is(End) {
			p.unsure("content of a component")
		}
		p.need(Close, "end of component")
		return &ast.Component{}
	}
	p.refuse(t, "unknown directive "+t.Text)
	return nil
}

func meaningful(ts []Token) []Token {
	var out []Token
	for _, t := range ts {
		if !t.Trivia() {
			out = append(out, t)
		}
	}
	return out
}

func guard(f func()) (v Verdict, why string) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stop)
			if !ok {
				panic(r)
			}
			v, why = s.v, s.why
		}
	}()
	f()
	return Good, ""
}

// Wat judges the first directive of a text and tells where it ends.
func Wat(s string) (d ast.Directive, end int, v Verdict, why string) {
	p := &parser{t: meaningful(Lex(s))}
	v, why = guard(func() {
		d = p.directive()
		last := p.t[p.i-1]
		end = last.Pos + len(last.Text)
		p.sure()
	})
	return
}

func (p *parser) quoteWat() wast.QuoteWat {
	if h := p.head(); h.Kind == Word && (h.Text == "module" || h.Text == "component") {
		at := p.i
		p.next()
		p.next()
		if t := p.peek(); t.Kind == Word && t.Text == "quote" {
			p.next()
			if p.is(Close) {
				p.unsure("nothing quoted")
			}
			s := p.str()
			if p.is(Str) {
				p.unsure("several strings")
			}
			p.need(Close, "end of quote")
			if h.Text == "module" {
				return &wast.QuoteModule{Quote: s}
			}
			return &wast.QuoteComponent{Quote: s}
		}
		p.i = at
	}
	return &wast.Wat{Wat: p.directive()}
}

func (p *parser) action() wast.Action {
	p.need(Open, "action")
	t := p.next()
	if t.Kind != Word {
		p.bad("action")
	}
	if t.Text == "get" {
		p.later("action get")
		p.optId()
		p.str()
		p.need(Close, "end of action")
		return nil
	}
	if t.Text != "invoke" {
		p.bad("action")
	}
	inv := wast.Invoke{Name: p.optId()}
	inv.String = p.str()
	for p.is(Open) {
		k, _ := p.constant(false).(wast.Const)
		inv.Const = append(inv.Const, k)
	}
	p.need(Close, "end of action")
	return inv
}

func (p *parser) constant(result bool) any {
	p.next()
	t := p.next()
	if t.Kind != Word {
		p.bad("constant")
	}
	switch t.Text {
	case "i32.const", "i64.const", "f32.const", "f64.const":
	case "ref.null", "ref.extern", "ref.host":
		p.later("reference")
		switch {
		case p.is(Close):
			// a pattern any reference of the kind matches
			if !result {
				p.bad("reference to nothing")
			}
		case t.Text != "ref.null":
			p.u32()
		case p.is(Id) || p.is(Int):
			p.next()
		default:
			if h := p.next(); h.Kind != Word {
				p.bad("kind of reference")
			} else if !heap.MatchString(h.Text) {
				p.bad("kind of reference")
			}
		}
		p.need(Close, "end of constant")
		return nil
	default:
		if !literal.MatchString(t.Text) {
			p.bad("constant")
		}
		p.unsure("constant " + t.Text)
	}
	n, nan := p.number(t.Text)
	if nan {
		if !result {
			p.later("class of nan as argument")
		}
		p.loose = true
	}
	p.need(Close, "end of constant")
	switch t.Text {
	case "i32.const":
		return wast.I32Const{Value: int32(n)}
	case "i64.const":
		return wast.I64Const{Value: int64(n)}
	case "f32.const":
		return wast.F32Const{Value: math.Float32frombits(uint32(n))}
	}
	return wast.F64Const{Value: math.Float64frombits(n)}
}

// Wast judges a script.
func Wast(s string) (w *wast.Wast, loose bool, v Verdict, why string) {
	p := &parser{t: meaningful(Lex(s))}
	w = &wast.Wast{}
	v, why = guard(func() {
		for !p.is(End) {
			if !p.is(Open) {
				p.bad("directive expected")
			}
			h := p.head()
			if h.Kind != Word {
				p.bad("directive expected")
			}
			var d wast.Directive
			switch h.Text {
			case "module", "component":
				d = wast.WatDirective{Wat: p.quoteWat()}
				w.Directives = append(w.Directives, d)
				continue
			case "assert_return":
				p.next()
				p.next()
				a := wast.AssertReturn{Action: p.action()}
				for p.is(Open) {
					r, _ := p.constant(true).(wast.Result)
					a.Results = append(a.Results, r)
				}
				d = a
			case "assert_trap":
				p.next()
				p.next()
				if p.opens("module") || p.opens("component") {
					p.unsure("trap of a module")
				}
				d = wast.AssertTrap{Action: p.action(), Failure: p.str()}
			case "assert_invalid", "assert_malformed":
				p.next()
				p.next()
				if !p.is(Open) {
					p.bad("module expected")
				}
				q := p.quoteWat()
				if h.Text == "assert_invalid" {
					d = wast.AssertInvalid{Module: q, Failure: p.str()}
				} else {
					d = wast.AssertMalformed{Module: q, Failure: p.str()}
				}
			case "register":
				p.later("register")
				p.next()
				p.next()
				p.str()
				p.optId()
			case "invoke", "get":
				p.later("action as directive")
				p.action()
				continue
			case "assert_exhaustion":
				p.later(h.Text)
				p.next()
				p.next()
				p.action()
				p.str()
			case "assert_unlinkable":
				p.later(h.Text)
				p.next()
				p.next()
				if !p.is(Open) {
					p.bad("module expected")
				}
				p.quoteWat()
				p.str()
			default:
				p.refuse(h, "unknown directive "+h.Text)
			}
			p.need(Close, "end of directive")
			w.Directives = append(w.Directives, d)
		}
		p.sure()
	})
	return w, p.loose, v, why
}
