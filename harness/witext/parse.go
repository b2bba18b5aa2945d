package witext

import (
	"strconv"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wit/ast"
)

type stop struct {
	v   Verdict
	why string
}

type parser struct {
	t []Token
	i int
}

func (p *parser) bad(why string)    { panic(stop{Bad, why}) }
func (p *parser) unsure(why string) { panic(stop{Unsure, why}) }

func (p *parser) peek() Token {
	t := p.t[p.i]
	if t.Kind == Broken {
		p.bad("broken token")
	}
	if t.Kind == Unclear {
		p.unsure("unclear token")
	}
	return t
}

func (p *parser) next() Token {
	t := p.peek()
	if t.Kind != End {
		p.i++
	}
	return t
}

// is tells whether punctuation or a keyword comes next.
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.Kind == Punct || t.Kind == Keyword) && t.Text == s
}

func (p *parser) eat(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}

func (p *parser) need(s string) {
	if !p.eat(s) {
		if t := p.peek(); t.Kind == Punct && t.Text == "@" {
			p.unsure("annotation")
		}
		p.bad("expected " + s)
	}
}

func (p *parser) id() string {
	t := p.next()
	if t.Kind != Id && t.Kind != Explicit {
		if t.Text == "@" {
			p.unsure("annotation")
		}
		p.bad("identifier expected")
	}
	return t.Text
}

func (p *parser) version() ast.Version {
	var v ast.Version
	part := func() uint64 {
		t := p.next()
		if t.Kind != Int {
			p.bad("number expected")
		}
		if len(t.Text) > 1 && t.Text[0] == '0' {
			p.unsure("leading zero")
		}
		n, err := strconv.ParseUint(t.Text, 10, 64)
		if err != nil {
			p.bad("number too large")
		}
		return n
	}
	from := p.i
	v.Major = part()
	p.need(".")
	v.Minor = part()
	p.need(".")
	v.Patch = part()
	for i := from; i < p.i-1; i++ {
		if p.t[i].Pos+len(p.t[i].Text) != p.t[i+1].Pos {
			p.unsure("blanks in a version")
		}
	}
	if p.is("-") || p.is("+") || p.is("->") {
		p.unsure("pre-release version")
	}
	return v
}

func (p *parser) path() *ast.UsePath {
	u := &ast.UsePath{}
	first := p.id()
	if !p.eat(":") {
		u.Id = first
		if p.is("/") || p.is("@") {
			p.unsure("form of a path")
		}
		return u
	}
	pd := &ast.PackageDeclaration{Namespace: first, Version: option.None[ast.Version]()}
	pd.Name = p.id()
	if p.is(":") {
		p.unsure("nested namespace")
	}
	p.need("/")
	u.Package.Name = p.id()
	if p.is("/") {
		p.unsure("nested package")
	}
	if p.eat("@") {
		pd.Version = option.Some(p.version())
	}
	u.Package.Id = pd
	return u
}

// list parses items separated by commas up to the end, which it consumes.
func (p *parser) list(end string, trailing bool, item func()) {
	if p.is(end) {
		p.unsure("empty list")
	}
	for {
		item()
		if !p.eat(",") {
			break
		}
		if p.is(end) {
			if !trailing {
				p.unsure("trailing comma")
			}
			break
		}
	}
	p.need(end)
}

var primitives = map[string]ast.Type{
	"u8": &ast.U8{}, "u16": &ast.U16{}, "u32": &ast.U32{}, "u64": &ast.U64{}, "s8": &ast.S8{}, "s16": &ast.S16{},
	"s32": &ast.S32{}, "s64": &ast.S64{}, "float32": &ast.Float32{}, "float64": &ast.Float64{}, "char": &ast.Char{},
	"bool": &ast.Bool{}, "string": &ast.String{},
}

func (p *parser) ty() ast.Type {
	t := p.next()
	switch t.Kind {
	case Id, Explicit:
		switch t.Text {
		case "f32", "f64":
			p.unsure("newer name of a type")
		}
		return &ast.Id{Value: t.Text}
	case Keyword:
	default:
		p.bad("type expected")
	}
	if ty, ok := primitives[t.Text]; ok {
		return ty
	}
	switch t.Text {
	case "list", "option":
		p.need("<")
		in := p.ty()
		if p.is(",") && t.Text == "list" {
			p.unsure("list of fixed length")
		}
		p.need(">")
		if t.Text == "list" {
			return &ast.List{ItemType: in}
		}
		return &ast.Option{ItemType: in}
	case "tuple":
		x := &ast.Tuple{}
		p.need("<")
		p.list(">", true, func() { x.Types = append(x.Types, p.ty()) })
		return x
	case "own", "borrow":
		p.need("<")
		id := p.id()
		p.need(">")
		if t.Text == "own" {
			return &ast.Own{Id: id}
		}
		return &ast.Borrow{Id: id}
	case "future":
		x := &ast.Future{ItemType: option.None[ast.Type]()}
		if p.eat("<") {
			x.ItemType = option.Some(p.ty())
			p.need(">")
		}
		return x
	case "result", "stream":
		a, b := option.None[ast.Type](), option.None[ast.Type]()
		if p.eat("<") {
			if p.eat("_") {
				p.need(",")
				b = option.Some(p.ty())
			} else {
				a = option.Some(p.ty())
				if p.eat(",") {
					if p.is("_") {
						p.bad("type expected")
					}
					b = option.Some(p.ty())
				}
			}
			p.need(">")
		}
		if t.Text == "result" {
			return &ast.Result{Ok: a, Error: b}
		}
		return &ast.Stream{Element: a, End: b}
	}
	p.bad("type expected")
	return nil
}

func (p *parser) params() []ast.Parameter {
	var out []ast.Parameter
	p.need("(")
	if p.eat(")") {
		return nil
	}
	p.list(")", false, func() {
		x := ast.Parameter{Id: p.id()}
		p.need(":")
		x.Type = p.ty()
		out = append(out, x)
	})
	return out
}

func (p *parser) funcType() *ast.FuncType {
	if t := p.peek(); t.Kind == Id && t.Text == "async" {
		p.unsure("async")
	}
	p.need("func")
	f := &ast.FuncType{Params: p.params(), Results: &ast.ResultList{}}
	if p.eat("->") {
		if p.is("(") {
			f.Results.Named = p.params()
		} else {
			f.Results.Anonymous = p.ty()
		}
	}
	return f
}

func (p *parser) use() *ast.Use {
	u := &ast.Use{From: p.path()}
	p.need(".")
	p.need("{")
	p.list("}", true, func() {
		n := ast.UseName{Name: p.id(), As: option.None[string]()}
		if p.eat("as") {
			n.As = option.Some(p.id())
		}
		u.Names = append(u.Names, n)
	})
	p.need(";")
	return u
}

// typedef parses a definition of a type, if there is one.
func (p *parser) typedef() any {
	switch {
	case p.eat("type"):
		x := &ast.TypeItem{ID: p.id()}
		p.need("=")
		x.Type = p.ty()
		p.need(";")
		return x
	case p.eat("record"):
		x := &ast.Record{ID: p.id()}
		p.need("{")
		p.list("}", true, func() {
			f := ast.Field{Name: p.id()}
			p.need(":")
			f.Type = p.ty()
			x.Fields = append(x.Fields, f)
		})
		return x
	case p.eat("flags"):
		x := &ast.Flags{ID: p.id()}
		p.need("{")
		p.list("}", true, func() { x.Flags = append(x.Flags, ast.Flag{Id: p.id()}) })
		return x
	case p.eat("enum"):
		x := &ast.Enum{ID: p.id()}
		p.need("{")
		p.list("}", true, func() { x.Cases = append(x.Cases, ast.EnumCase{Name: p.id()}) })
		return x
	case p.eat("variant"):
		x := &ast.Variant{ID: p.id()}
		p.need("{")
		p.list("}", true, func() {
			k := ast.Case{Name: p.id(), Type: option.None[ast.Type]()}
			if p.eat("(") {
				k.Type = option.Some(p.ty())
				p.need(")")
			}
			x.Cases = append(x.Cases, k)
		})
		return x
	case p.eat("resource"):
		x := &ast.Resource{ID: p.id()}
		if p.eat(";") {
			return x
		}
		p.need("{")
		for !p.eat("}") {
			if p.eat("constructor") {
				k := &ast.Constructor{ParameterList: p.params()}
				if p.is("->") {
					p.unsure("constructor with result")
				}
				p.need(";")
				x.Methods = append(x.Methods, k)
				continue
			}
			id := p.id()
			p.need(":")
			static := p.eat("static")
			f := p.funcType()
			p.need(";")
			if static {
				x.Methods = append(x.Methods, ast.Static{ID: id, FuncType: f})
			} else {
				x.Methods = append(x.Methods, ast.Method{Func: &ast.FuncItem{ID: id, FuncType: f}})
			}
		}
		return x
	}
	return nil
}

func (p *parser) interfaceItems() []ast.InterfaceItem {
	var out []ast.InterfaceItem
	p.need("{")
	for !p.eat("}") {
		if d := p.typedef(); d != nil {
			out = append(out, asItem(d))
			continue
		}
		if p.eat("use") {
			out = append(out, p.use())
			continue
		}
		f := &ast.FuncItem{ID: p.id()}
		p.need(":")
		f.FuncType = p.funcType()
		p.need(";")
		out = append(out, f)
	}
	return out
}

// asItem makes a definition an item; resources are items by value.
func asItem(d any) ast.InterfaceItem {
	if r, ok := d.(*ast.Resource); ok {
		return *r
	}
	return d.(ast.InterfaceItem)
}

func (p *parser) extern() ast.ExternType {
	at := p.i
	id := p.id()
	if p.eat(":") {
		if t := p.peek(); p.is("func") || t.Kind == Id && t.Text == "async" {
			if !p.is("func") {
				// `async` can also name a package
				p.unsure("async")
			}
			x := &ast.ExternTypeFunc{ID: id, Func: p.funcType()}
			p.need(";")
			return x
		}
		if p.eat("interface") {
			return &ast.ExternTypeInterface{ID: id, InterfaceItems: p.interfaceItems()}
		}
	}
	p.i = at
	x := &ast.ExternTypeUsePath{UsePath: p.path()}
	p.need(";")
	return x
}

func (p *parser) worldItems() []ast.WorldItem {
	var out []ast.WorldItem
	p.need("{")
	for !p.eat("}") {
		if d := p.typedef(); d != nil {
			if r, ok := d.(*ast.Resource); ok {
				out = append(out, *r)
			} else {
				out = append(out, d.(ast.WorldItem))
			}
			continue
		}
		switch {
		case p.eat("use"):
			out = append(out, p.use())
		case p.eat("import"):
			out = append(out, &ast.Import{ExternType: p.extern()})
		case p.eat("export"):
			out = append(out, &ast.Export{ExternType: p.extern()})
		case p.eat("include"):
			x := &ast.Include{From: p.path()}
			if p.eat("with") {
				p.need("{")
				p.list("}", false, func() {
					n := ast.IncludeName{Name: p.id()}
					p.need("as")
					n.As = p.id()
					x.Names = append(x.Names, n)
				})
				if p.is(";") {
					p.unsure("semicolon after include")
				}
			} else {
				p.need(";")
			}
			out = append(out, x)
		default:
			if p.is("@") {
				p.unsure("annotation")
			}
			p.bad("unknown world item")
		}
	}
	return out
}

func (p *parser) file() *ast.Ast {
	a := &ast.Ast{PackageDeclaration: option.None[ast.PackageDeclaration]()}
	if p.eat("package") {
		pd := ast.PackageDeclaration{Namespace: p.id(), Version: option.None[ast.Version]()}
		p.need(":")
		pd.Name = p.id()
		if p.is(":") || p.is("/") {
			p.unsure("nested package")
		}
		if p.eat("@") {
			pd.Version = option.Some(p.version())
		}
		if p.is("{") {
			p.unsure("package in braces")
		}
		p.need(";")
		a.PackageDeclaration = option.Some(pd)
	}
	for p.peek().Kind != End {
		var item ast.AstItem
		switch {
		case p.eat("use"):
			u := &ast.TopLevelUse{Item: p.path(), As: option.None[string]()}
			if p.eat("as") {
				u.As = option.Some(p.id())
			}
			p.need(";")
			item.Use = u
		case p.eat("world"):
			item.World = &ast.World{Id: p.id()}
			item.World.Items = p.worldItems()
		case p.eat("interface"):
			item.Interface = &ast.Interface{Name: p.id()}
			item.Interface.Items = p.interfaceItems()
		default:
			if p.is("@") || p.is("package") {
				p.unsure("annotation or package")
			}
			p.bad("unknown item")
		}
		a.Items = append(a.Items, item)
	}
	return a
}

// Parse judges a text.
func Parse(s string) (a *ast.Ast, v Verdict, why string) {
	p := &parser{}
	for _, t := range Lex(s) {
		if !t.Trivia() {
			p.t = append(p.t, t)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			st, ok := r.(stop)
			if !ok {
				panic(r)
			}
			a, v, why = nil, st.v, st.why
		}
	}()
	return p.file(), Good, ""
}

var _ types.Option[string]
