package witext

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wit/ast"
)

// Gen generates text together with its meaning. T collects the tokens.
type Gen struct {
	R    *rand.Rand
	T    []string
	Seen map[string]int
	// Extra is how many more items may be used for unusually long lists.
	Extra int
	// depth bounds types
	depth int
}

// NewGen makes a generator.
func NewGen(r *rand.Rand) *Gen {
	g := &Gen{R: r, Seen: map[string]int{}}
	if r.IntN(150) == 0 {
		g.Extra = 1000
		if r.IntN(20) == 0 {
			g.Extra = 70000
		}
	}
	return g
}

// many makes a number of items unusually large now and then.
func (g *Gen) many(n int) int {
	if g.Extra == 0 || !g.one(4) {
		return n
	}
	k := 120 + g.n(300)
	if g.one(2) {
		k = g.Extra
	}
	k = min(k, g.Extra)
	g.Extra -= k
	g.saw("long list")
	return n + k
}

func (g *Gen) n(n int) int         { return g.R.IntN(n) }
func (g *Gen) one(n int) bool      { return g.R.IntN(n) == 0 }
func (g *Gen) e(ts ...string)      { g.T = append(g.T, ts...) }
func (g *Gen) saw(what string)     { g.Seen[what]++ }
func pick[T any](g *Gen, v ...T) T { return v[g.R.IntN(len(v))] }

// Name makes an identifier.
func (g *Gen) Name() string {
	for {
		var b strings.Builder
		words := 1
		if g.one(3) {
			words = 1 + g.n(4)
		}
		for i := 0; i < words; i++ {
			if i > 0 {
				b.WriteByte('-')
			}
			first, more := "abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyz0123456789"
			if g.one(8) {
				first, more = strings.ToUpper(first), strings.ToUpper(more)
			}
			b.WriteByte(first[g.n(len(first))])
			k := g.n(4)
			if g.one(12) {
				k = g.n(20)
			}
			for k = g.many(k); k > 0; k-- {
				b.WriteByte(more[g.n(len(more))])
			}
		}
		s := b.String()
		if g.one(12) {
			// a keyword with something added is none
			s = pick(g, Keywords...) + pick(g, "-x", "x", "2")
			if s[0] == '_' {
				continue
			}
		}
		if g.one(8) {
			g.saw("explicit name")
			if g.one(2) {
				if k := pick(g, Keywords...); k != "_" {
					s = k
				}
			}
			return "%" + s
		}
		if !keywords[s] && s != "f32" && s != "f64" && s != "async" {
			return s
		}
	}
}

func (g *Gen) name() string {
	s := g.Name()
	g.e(s)
	return s
}

func (g *Gen) version() (string, ast.Version) {
	part := func() uint64 {
		switch g.n(6) {
		case 0:
			return g.R.Uint64()
		case 1:
			return 1<<64 - 1
		case 2:
			return uint64(g.n(1 << 20))
		}
		return uint64(g.n(12))
	}
	g.saw("version")
	v := ast.Version{Major: part(), Minor: part(), Patch: part()}
	return fmt.Sprintf("%d.%d.%d", v.Major, v.Minor, v.Patch), v
}

func (g *Gen) optVersion() types.Option[ast.Version] {
	if g.one(2) {
		return option.None[ast.Version]()
	}
	s, v := g.version()
	g.e("@", s)
	return option.Some(v)
}

func (g *Gen) path() *ast.UsePath {
	u := &ast.UsePath{}
	if g.one(2) {
		u.Id = g.name()
		return u
	}
	g.saw("package path")
	pd := &ast.PackageDeclaration{}
	pd.Namespace = g.name()
	g.e(":")
	pd.Name = g.name()
	g.e("/")
	u.Package.Name = g.name()
	pd.Version = g.optVersion()
	u.Package.Id = pd
	return u
}

// list generates items separated by commas.
func (g *Gen) list(begin, end string, trailing bool, item func()) {
	g.e(begin)
	n := 1 + g.n(4)
	if g.one(25) {
		n = 1 + g.n(80)
	}
	n = g.many(n)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.e(",")
		}
		item()
	}
	if trailing && g.one(3) {
		g.saw("trailing comma")
		g.e(",")
	}
	g.e(end)
}

var primitiveNames = []string{"u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "float32", "float64", "char", "bool", "string"}

// chain makes types nested in each other.
func (g *Gen) chain(n int) ast.Type {
	if n == 0 {
		g.e("u8")
		return primitives["u8"]
	}
	w := pick(g, "list", "option", "result", "tuple")
	g.e(w, "<")
	in := g.chain(n - 1)
	g.e(">")
	switch w {
	case "list":
		return &ast.List{ItemType: in}
	case "option":
		return &ast.Option{ItemType: in}
	case "tuple":
		return &ast.Tuple{Types: []ast.Type{in}}
	}
	return &ast.Result{Ok: option.Some(in), Error: option.None[ast.Type]()}
}

func (g *Gen) ty() ast.Type {
	g.depth++
	defer func() { g.depth-- }()
	if g.Extra > 0 && g.one(8) {
		g.saw("deep type")
		return g.chain(min(g.Extra, 50+g.n(300)))
	}
	k := g.n(14)
	if g.depth > 5 {
		k = g.n(5)
	}
	switch k {
	case 0, 1, 2:
		p := pick(g, primitiveNames...)
		g.e(p)
		g.saw(p)
		return primitives[p]
	case 3:
		g.saw("named type")
		return &ast.Id{Value: g.name()}
	case 4:
		w := pick(g, "own", "borrow")
		g.saw(w)
		g.e(w, "<")
		id := g.name()
		g.e(">")
		if w == "own" {
			return &ast.Own{Id: id}
		}
		return &ast.Borrow{Id: id}
	case 5, 6:
		g.saw("list")
		g.e("list", "<")
		in := g.ty()
		g.e(">")
		return &ast.List{ItemType: in}
	case 7, 8:
		g.saw("option")
		g.e("option", "<")
		in := g.ty()
		g.e(">")
		return &ast.Option{ItemType: in}
	case 9:
		g.saw("tuple")
		x := &ast.Tuple{}
		g.e("tuple")
		g.list("<", ">", true, func() { x.Types = append(x.Types, g.ty()) })
		return x
	case 10:
		x := &ast.Future{ItemType: option.None[ast.Type]()}
		g.e("future")
		g.saw("future")
		if g.one(2) {
			g.e("<")
			x.ItemType = option.Some(g.ty())
			g.e(">")
		}
		return x
	}
	w := pick(g, "result", "result", "stream")
	g.e(w)
	a, b := option.None[ast.Type](), option.None[ast.Type]()
	form := g.n(4)
	g.saw(fmt.Sprintf("%s form %d", w, form))
	switch form {
	case 1:
		g.e("<")
		a = option.Some(g.ty())
		g.e(">")
	case 2:
		g.e("<")
		a = option.Some(g.ty())
		g.e(",")
		b = option.Some(g.ty())
		g.e(">")
	case 3:
		g.e("<", "_", ",")
		b = option.Some(g.ty())
		g.e(">")
	}
	if w == "result" {
		return &ast.Result{Ok: a, Error: b}
	}
	return &ast.Stream{Element: a, End: b}
}

func (g *Gen) params() []ast.Parameter {
	if g.one(4) {
		g.e("(", ")")
		return nil
	}
	var out []ast.Parameter
	g.list("(", ")", false, func() {
		x := ast.Parameter{Id: g.name()}
		g.e(":")
		x.Type = g.ty()
		out = append(out, x)
	})
	return out
}

func (g *Gen) funcType() *ast.FuncType {
	g.e("func")
	f := &ast.FuncType{Params: g.params(), Results: &ast.ResultList{}}
	switch g.n(3) {
	case 0:
		g.saw("one result")
		g.e("->")
		f.Results.Anonymous = g.ty()
	case 1:
		g.saw("named results")
		g.e("->")
		f.Results.Named = g.params()
	}
	return f
}

func (g *Gen) use() *ast.Use {
	g.saw("use")
	g.e("use")
	u := &ast.Use{From: g.path()}
	g.e(".")
	g.list("{", "}", true, func() {
		n := ast.UseName{Name: g.name(), As: option.None[string]()}
		if g.one(3) {
			g.saw("use as")
			g.e("as")
			n.As = option.Some(g.name())
		}
		u.Names = append(u.Names, n)
	})
	g.e(";")
	return u
}

func (g *Gen) typedef() any {
	w := pick(g, "type", "record", "flags", "enum", "variant", "resource")
	g.saw(w)
	g.e(w)
	id := g.name()
	switch w {
	case "type":
		g.e("=")
		x := &ast.TypeItem{ID: id, Type: g.ty()}
		g.e(";")
		return x
	case "record":
		x := &ast.Record{ID: id}
		g.list("{", "}", true, func() {
			f := ast.Field{Name: g.name()}
			g.e(":")
			f.Type = g.ty()
			x.Fields = append(x.Fields, f)
		})
		return x
	case "flags":
		x := &ast.Flags{ID: id}
		g.list("{", "}", true, func() { x.Flags = append(x.Flags, ast.Flag{Id: g.name()}) })
		return x
	case "enum":
		x := &ast.Enum{ID: id}
		g.list("{", "}", true, func() { x.Cases = append(x.Cases, ast.EnumCase{Name: g.name()}) })
		return x
	case "variant":
		x := &ast.Variant{ID: id}
		g.list("{", "}", true, func() {
			k := ast.Case{Name: g.name(), Type: option.None[ast.Type]()}
			if g.one(2) {
				g.saw("case with payload")
				g.e("(")
				k.Type = option.Some(g.ty())
				g.e(")")
			}
			x.Cases = append(x.Cases, k)
		})
		return x
	}
	x := &ast.Resource{ID: id}
	if g.one(4) {
		g.e(";")
		return x
	}
	g.e("{")
	for n := g.many(g.n(4)); n > 0; n-- {
		switch g.n(3) {
		case 0:
			g.saw("constructor")
			g.e("constructor")
			x.Methods = append(x.Methods, &ast.Constructor{ParameterList: g.params()})
		case 1:
			g.saw("static method")
			m := ast.Static{ID: g.name()}
			g.e(":", "static")
			m.FuncType = g.funcType()
			x.Methods = append(x.Methods, m)
		default:
			g.saw("method")
			f := &ast.FuncItem{ID: g.name()}
			g.e(":")
			f.FuncType = g.funcType()
			x.Methods = append(x.Methods, ast.Method{Func: f})
		}
		g.e(";")
	}
	g.e("}")
	return x
}

func (g *Gen) count() int {
	if g.one(25) {
		return g.n(40)
	}
	return g.many(g.n(5))
}

func (g *Gen) interfaceItems() []ast.InterfaceItem {
	var out []ast.InterfaceItem
	g.e("{")
	for n := g.count(); n > 0; n-- {
		switch g.n(6) {
		case 0:
			out = append(out, g.use())
		case 1, 2:
			g.saw("function")
			f := &ast.FuncItem{ID: g.name()}
			g.e(":")
			f.FuncType = g.funcType()
			g.e(";")
			out = append(out, f)
		default:
			out = append(out, asItem(g.typedef()))
		}
	}
	g.e("}")
	return out
}

func (g *Gen) extern() ast.ExternType {
	switch g.n(3) {
	case 0:
		g.saw("extern function")
		x := &ast.ExternTypeFunc{ID: g.name()}
		g.e(":")
		x.Func = g.funcType()
		g.e(";")
		return x
	case 1:
		g.saw("extern interface")
		x := &ast.ExternTypeInterface{ID: g.name()}
		g.e(":", "interface")
		x.InterfaceItems = g.interfaceItems()
		return x
	}
	g.saw("extern path")
	x := &ast.ExternTypeUsePath{UsePath: g.path()}
	g.e(";")
	return x
}

func (g *Gen) world() *ast.World {
	g.saw("world")
	w := &ast.World{Id: g.name()}
	g.e("{")
	for n := g.count(); n > 0; n-- {
		switch g.n(7) {
		case 0:
			w.Items = append(w.Items, g.use())
		case 1:
			g.saw("import")
			g.e("import")
			w.Items = append(w.Items, &ast.Import{ExternType: g.extern()})
		case 2:
			g.saw("export")
			g.e("export")
			w.Items = append(w.Items, &ast.Export{ExternType: g.extern()})
		case 3:
			g.saw("include")
			g.e("include")
			x := &ast.Include{From: g.path()}
			if g.one(2) {
				g.saw("include with")
				g.e("with")
				g.list("{", "}", false, func() {
					n := ast.IncludeName{Name: g.name()}
					g.e("as")
					n.As = g.name()
					x.Names = append(x.Names, n)
				})
			} else {
				g.e(";")
			}
			w.Items = append(w.Items, x)
		default:
			d := g.typedef()
			if r, ok := d.(*ast.Resource); ok {
				w.Items = append(w.Items, *r)
			} else {
				w.Items = append(w.Items, d.(ast.WorldItem))
			}
		}
	}
	g.e("}")
	return w
}

// File generates a file.
func (g *Gen) File() *ast.Ast {
	a := &ast.Ast{PackageDeclaration: option.None[ast.PackageDeclaration]()}
	if g.one(2) {
		g.saw("package")
		g.e("package")
		pd := ast.PackageDeclaration{Namespace: g.name()}
		g.e(":")
		pd.Name = g.name()
		pd.Version = g.optVersion()
		g.e(";")
		a.PackageDeclaration = option.Some(pd)
	}
	for n := g.many(g.n(4)); n > 0; n-- {
		var item ast.AstItem
		switch g.n(5) {
		case 0:
			g.saw("top level use")
			g.e("use")
			item.Use = &ast.TopLevelUse{Item: g.path(), As: option.None[string]()}
			if g.one(2) {
				g.e("as")
				item.Use.As = option.Some(g.name())
			}
			g.e(";")
		case 1, 2:
			g.e("world")
			item.World = g.world()
		default:
			g.saw("interface")
			g.e("interface")
			item.Interface = &ast.Interface{Name: g.name()}
			item.Interface.Items = g.interfaceItems()
		}
		a.Items = append(a.Items, item)
	}
	return a
}

const splitters = "\x00\x01\t\r\n\v\x1a\x1b !\"#$\\x\x7f"

// lineInner are characters that do not end a line.
var lineInner = []string{"\x00", "\x01", "\b", "\t", "\v", "\f", "\r", "\x1a", "\x1b", "\x7f", "\u0085", "\u2028", "\u2029", "\\", "\\n"}

func comment(r *rand.Rand, depth int) string {
	var b strings.Builder
	for n := r.IntN(5); n > 0; n-- {
		switch r.IntN(9) {
		case 0:
			if depth > 0 {
				b.WriteString("/*" + comment(r, depth-1) + "*/")
			}
		case 1:
			if r.IntN(2) == 0 {
				b.WriteString("*x")
				break
			}
			// delimiters that are not, because of the byte between
			m := string(splitters[r.IntN(len(splitters))])
			b.WriteString([]string{"*" + m + "/" + m, "/" + m + "*" + m}[r.IntN(2)])
		case 2:
			b.WriteString("/ ")
		case 3:
			b.WriteString("\n")
		case 4:
			b.WriteString("{;}")
		case 5:
			b.WriteString("é€")
		case 6:
			b.WriteString("//y")
		case 7:
			b.WriteString("**")
			b.WriteString("z")
		default:
			b.WriteString("world")
		}
	}
	if r.IntN(6) == 0 {
		b.WriteString("*")
	}
	if r.IntN(6) == 0 {
		return "/ " + b.String()
	}
	return b.String()
}

// Trivia makes text without meaning, which starts with a blank.
func Trivia(r *rand.Rand) string {
	var b strings.Builder
	b.WriteByte(" \t\n\r"[r.IntN(4)])
	for n := r.IntN(4); n > 0; n-- {
		switch r.IntN(5) {
		case 0:
			b.WriteString("/*" + comment(r, 2) + "*/")
		case 1:
			b.WriteString("//" + []string{"", " x", "world", "}", "/", "/*", "*/", "*", " é€", "\r", lineInner[r.IntN(len(lineInner))] + "}"}[r.IntN(11)] + "\n")
		case 2:
			b.WriteString("\r\n")
		default:
			b.WriteString(strings.Repeat(string(" \t\n\r"[r.IntN(4)]), 1+r.IntN(3)))
		}
	}
	return b.String()
}

func wordy(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '%' || c == '-'
}

// Separate tells whether two tokens need separation.
func Separate(a, b string) bool {
	return wordy(a[len(a)-1]) && wordy(b[0]) || a[len(a)-1] == '/' && (b[0] == '/' || b[0] == '*') || a == "-" && b[0] == '>'
}

// Render writes tokens with different amounts of trivia: 0 single blanks,
// 1 as little as possible, 2 much.
func Render(r *rand.Rand, ts []string, style int) string {
	var b strings.Builder
	for i, t := range ts {
		need := i > 0 && Separate(ts[i-1], t)
		switch {
		case style == 0 && i > 0, style == 1 && need:
			b.WriteByte(' ')
		case style == 2:
			switch {
			case need || r.IntN(3) == 0:
				b.WriteString(Trivia(r))
			case r.IntN(6) == 0 && (i == 0 || ts[i-1] != "/") && t[0] != '/':
				b.WriteString("/*" + comment(r, 1) + "*/")
			}
		}
		b.WriteString(t)
	}
	if style == 2 {
		b.WriteString(Trivia(r))
		if r.IntN(4) == 0 {
			b.WriteString("// the end")
		}
	}
	return b.String()
}
