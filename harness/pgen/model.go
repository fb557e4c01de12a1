// Package pgen models, generates, renders and re-lays-out Proto schemas,
// independently of the code under test.
package pgen

import (
	"fmt"
	"strings"
)

// Node carries comments and, after rendering, the position of an element.
type Node struct {
	Lead    []string // comment lines directly above, without slashes
	CStyle  bool     // render Lead as a /* */ comment
	Inline  string   // comment at the end of the (first) line
	InlC    bool     // render Inline as a /* */ comment
	Slashes int      // more slashes than two
	InlLine int      // line of Inline if not Line
	Line    int
	Col     int
}

type Opt struct {
	Node
	Name, Val string
}

type Import struct {
	Node
	Path, Kind string
}

type File struct {
	Path       string
	Head       []string // comment lines above syntax, followed by a blank line
	HeadC      bool     // render Head as a /* */ comment
	Syntax     string   // "proto2", "proto3" or "" for none
	SyntaxNode Node
	Package    string
	PkgNode    Node
	Imports    []*Import
	Options    []*Opt
	Defs       []interface{} // *Message *Enum *Service *Extend
	EndComment string
	Missing    bool // no trailing newline
}

type Message struct {
	Node
	Name  string
	Elems []interface{} // *Field *Message *Enum *Oneof *Reserved *Extensions *Extend *Opt
	End   string        // comment at the end of the body
	EndC  bool          // render End as a /* */ comment
	EndLn int           // line of End
}

type Field struct {
	Node
	Label string
	Type  string // as written
	Name  string
	Num   int
	Key   string // map key type
	Opts  []*Opt
	Group *Message // group fields: body
	FQ    string   // resolved type (for message/enum types)
	Multi bool     // render one option per line, with their comments
}

type Oneof struct {
	Node
	Name  string
	Elems []interface{} // *Field *Opt
}

type Enum struct {
	Node
	Name  string
	Elems []interface{} // *EnumValue *Opt *Reserved
}

type EnumValue struct {
	Node
	Name  string
	Num   int
	Lit   string // literal spelling of the number if not decimal
	Opts  []*Opt
	Multi bool // render one option per line, with their comments
}

type Service struct {
	Node
	Name  string
	Elems []interface{} // *RPC *Opt
}

type RPC struct {
	Node
	Name                string
	In, Out             string
	InStream, OutStream bool
	Opts                []*Opt
	Braces              bool // render {} even without options
}

type Extend struct {
	Node
	Type   string
	Fields []*Field
}

type Reserved struct {
	Node
	Ranges string
	Names  []string
	IsEnum bool
}

type Extensions struct {
	Node
	Ranges string
}

// --- rendering (canonical layout, records positions) ---

type printer struct {
	b    strings.Builder
	line int
}

func (p *printer) nl() { p.b.WriteByte('\n'); p.line++ }

func (p *printer) ln(ind int, s string) {
	if s != "" {
		p.b.WriteString(strings.Repeat("  ", ind))
		p.b.WriteString(s)
		p.line += strings.Count(s, "\n")
	}
	p.nl()
}

// comments prints the leading comment; blank lines are "" entries.
func (p *printer) lead(ind int, n *Node) {
	if len(n.Lead) > 0 {
		if n.CStyle {
			if len(n.Lead) == 1 {
				p.ln(ind, "/* "+n.Lead[0]+" */")
			} else {
				p.ln(ind, "/* "+strings.Join(n.Lead, "\n")+" */")
			}
		} else {
			for _, l := range n.Lead {
				switch {
				case l == "":
					p.ln(ind, "//")
				case l[0] == '\t':
					p.ln(ind, "//"+l)
				default:
					p.ln(ind, "//"+strings.Repeat("/", n.Slashes)+" "+l)
				}
			}
		}
	}
	n.Line = p.line
	n.Col = 2*ind + 1
}

func inl(n *Node) string {
	if n.Inline != "" && n.InlC {
		return " /* " + n.Inline + " */"
	}
	if n.Inline != "" {
		return " // " + n.Inline
	}
	return ""
}

func fopts(o []*Opt) string {
	if len(o) == 0 {
		return ""
	}
	var s []string
	for _, x := range o {
		s = append(s, x.Name+" = "+x.Val)
	}
	return " [" + strings.Join(s, ", ") + "]"
}

func (p *printer) opt(ind int, o *Opt) {
	p.lead(ind, &o.Node)
	p.ln(ind, "option "+o.Name+" = "+o.Val+";"+inl(&o.Node))
}

// optLines prints a statement with one option per line.
func (p *printer) optLines(ind int, head string, o []*Opt, n *Node) {
	p.ln(ind, head+" [")
	for i, x := range o {
		p.lead(ind+1, &x.Node)
		c := ","
		if i == len(o)-1 {
			c = ""
		}
		p.ln(ind+1, x.Name+" = "+x.Val+c+inl(&x.Node))
	}
	n.InlLine = p.line
	p.ln(ind, "];"+inl(n))
}

func (p *printer) field(ind int, f *Field) {
	p.lead(ind, &f.Node)
	if f.Multi && len(f.Opts) > 0 && f.Group == nil {
		h := f.Type
		if f.Key != "" {
			h = fmt.Sprintf("map<%s, %s>", f.Key, f.Type)
		} else if f.Label != "" {
			h = f.Label + " " + h
		}
		p.optLines(ind, fmt.Sprintf("%s %s = %d", h, f.Name, f.Num), f.Opts, &f.Node)
		return
	}
	if f.Key != "" {
		p.ln(ind, fmt.Sprintf("map<%s, %s> %s = %d%s;%s", f.Key, f.Type, f.Name, f.Num, fopts(f.Opts), inl(&f.Node)))
		return
	}
	l := f.Label
	if l != "" {
		l += " "
	}
	if f.Group != nil {
		p.ln(ind, fmt.Sprintf("%sgroup %s = %d {%s", l, f.Group.Name, f.Num, inl(&f.Node)))
		p.elems(ind+1, f.Group.Elems)
		p.ln(ind, "}")
		return
	}
	p.ln(ind, fmt.Sprintf("%s%s %s = %d%s;%s", l, f.Type, f.Name, f.Num, fopts(f.Opts), inl(&f.Node)))
}

func (p *printer) elems(ind int, el []interface{}) {
	for _, e := range el {
		p.elem(ind, e)
	}
}

func (p *printer) elem(ind int, e interface{}) {
	switch x := e.(type) {
	case *Opt:
		p.opt(ind, x)
	case *Field:
		p.field(ind, x)
	case *Message:
		p.lead(ind, &x.Node)
		if len(x.Elems) == 0 && x.Inline == "" && x.End == "" {
			p.ln(ind, "message "+x.Name+" {}")
			return
		}
		p.ln(ind, "message "+x.Name+" {"+inl(&x.Node))
		p.elems(ind+1, x.Elems)
		x.EndLn = p.line
		if x.End != "" && x.EndC {
			p.ln(ind+1, "/* "+x.End+" */")
		} else if x.End != "" {
			p.ln(ind+1, "// "+x.End)
		}
		p.ln(ind, "}")
	case *Oneof:
		p.lead(ind, &x.Node)
		p.ln(ind, "oneof "+x.Name+" {"+inl(&x.Node))
		p.elems(ind+1, x.Elems)
		p.ln(ind, "}")
	case *Enum:
		p.lead(ind, &x.Node)
		p.ln(ind, "enum "+x.Name+" {"+inl(&x.Node))
		p.elems(ind+1, x.Elems)
		p.ln(ind, "}")
	case *EnumValue:
		p.lead(ind, &x.Node)
		n := x.Lit
		if n == "" {
			n = fmt.Sprint(x.Num)
		}
		if x.Multi && len(x.Opts) > 0 {
			p.optLines(ind, x.Name+" = "+n, x.Opts, &x.Node)
			return
		}
		p.ln(ind, x.Name+" = "+n+fopts(x.Opts)+";"+inl(&x.Node))
	case *Service:
		p.lead(ind, &x.Node)
		if len(x.Elems) == 0 && x.Inline == "" {
			p.ln(ind, "service "+x.Name+" {}")
			return
		}
		p.ln(ind, "service "+x.Name+" {"+inl(&x.Node))
		p.elems(ind+1, x.Elems)
		p.ln(ind, "}")
	case *RPC:
		p.lead(ind, &x.Node)
		st := func(b bool, t string) string {
			if b {
				return "stream " + t
			}
			return t
		}
		h := fmt.Sprintf("rpc %s(%s) returns (%s)", x.Name, st(x.InStream, x.In), st(x.OutStream, x.Out))
		if len(x.Opts) == 0 {
			if x.Braces {
				p.ln(ind, h+" {}"+inl(&x.Node))
			} else {
				p.ln(ind, h+";"+inl(&x.Node))
			}
			return
		}
		p.ln(ind, h+" {"+inl(&x.Node))
		for _, o := range x.Opts {
			p.opt(ind+1, o)
		}
		p.ln(ind, "}")
	case *Extend:
		p.lead(ind, &x.Node)
		p.ln(ind, "extend "+x.Type+" {"+inl(&x.Node))
		for _, f := range x.Fields {
			p.field(ind+1, f)
		}
		p.ln(ind, "}")
	case *Reserved:
		p.lead(ind, &x.Node)
		if x.Ranges != "" {
			p.ln(ind, "reserved "+x.Ranges+";"+inl(&x.Node))
		} else {
			var q []string
			for _, n := range x.Names {
				q = append(q, `"`+n+`"`)
			}
			p.ln(ind, "reserved "+strings.Join(q, ", ")+";"+inl(&x.Node))
		}
	case *Extensions:
		p.lead(ind, &x.Node)
		p.ln(ind, "extensions "+x.Ranges+";"+inl(&x.Node))
	default:
		panic(fmt.Sprintf("unknown element %T", e))
	}
}

// Render prints the file in a plain layout and records positions in the nodes.
func (f *File) Render() string {
	p := &printer{line: 1}
	if len(f.Head) > 0 && f.HeadC {
		p.ln(0, "/* "+strings.Join(f.Head, "\n")+" */")
		p.nl()
	} else if len(f.Head) > 0 {
		for _, l := range f.Head {
			if l == "" {
				p.ln(0, "//")
			} else {
				p.ln(0, "// "+l)
			}
		}
		p.nl()
	}
	if f.Syntax != "" {
		p.lead(0, &f.SyntaxNode)
		p.ln(0, `syntax = "`+f.Syntax+`";`+inl(&f.SyntaxNode))
		p.nl()
	}
	if f.Package != "" {
		p.lead(0, &f.PkgNode)
		p.ln(0, "package "+f.Package+";"+inl(&f.PkgNode))
		p.nl()
	}
	for _, o := range f.Options {
		p.opt(0, o)
	}
	if len(f.Options) > 0 {
		p.nl()
	}
	for _, im := range f.Imports {
		p.lead(0, &im.Node)
		k := im.Kind
		if k != "" {
			k += " "
		}
		p.ln(0, "import "+k+`"`+im.Path+`";`+inl(&im.Node))
	}
	if len(f.Imports) > 0 {
		p.nl()
	}
	for i, d := range f.Defs {
		if i > 0 {
			p.nl()
		}
		p.elem(0, d)
	}
	if f.EndComment != "" {
		p.nl()
		p.ln(0, "// "+f.EndComment)
	}
	return p.b.String()
}

// Walk calls fn for every element below the file, with the chain of enclosing
// messages' names.
func (f *File) Walk(fn func(path []string, e interface{})) {
	for _, o := range f.Options {
		fn(nil, o)
	}
	for _, i := range f.Imports {
		fn(nil, i)
	}
	for _, d := range f.Defs {
		walk(nil, d, fn)
	}
}

func walk(path []string, e interface{}, fn func([]string, interface{})) {
	fn(path, e)
	switch x := e.(type) {
	case *Message:
		sub := append(append([]string{}, path...), x.Name)
		for _, c := range x.Elems {
			walk(sub, c, fn)
		}
	case *Oneof:
		for _, c := range x.Elems {
			walk(path, c, fn)
		}
	case *Enum:
		for _, c := range x.Elems {
			walk(path, c, fn)
		}
	case *Service:
		for _, c := range x.Elems {
			walk(path, c, fn)
		}
	case *RPC:
		for _, o := range x.Opts {
			walk(path, o, fn)
		}
	case *Extend:
		for _, c := range x.Fields {
			walk(path, c, fn)
		}
	case *Field:
		if x.Group != nil {
			walk(path, x.Group, fn)
		}
	}
}

// NodeOf returns the node of an element.
func NodeOf(e interface{}) *Node {
	switch x := e.(type) {
	case *Message:
		return &x.Node
	case *Field:
		return &x.Node
	case *Oneof:
		return &x.Node
	case *Enum:
		return &x.Node
	case *EnumValue:
		return &x.Node
	case *Service:
		return &x.Node
	case *RPC:
		return &x.Node
	case *Extend:
		return &x.Node
	case *Reserved:
		return &x.Node
	case *Extensions:
		return &x.Node
	case *Opt:
		return &x.Node
	case *Import:
		return &x.Node
	}
	return nil
}
