package pgen

import (
	"fmt"
	"math/rand"
	"path"
	"sort"
	"strings"
)

// Cfg steers generation.
type Cfg struct {
	Pkgs        int  // number of packages (one directory each unless SplitDirs)
	FilesPerPkg int  // up to
	Defs        int  // up to, top-level definitions per file
	Depth       int  // nesting depth of messages
	Proto2      int  // percent of files in proto2
	Comments    int  // percent of elements with a leading comment
	Inline      int  // percent of elements with an inline comment
	CStyle      int  // percent of leading comments in C style
	CustomOpts  bool // custom options, literals, aggregates
	StdOpts     int  // percent of elements with standard options
	FileOpts    int  // percent chance of each file option
	Services    bool
	WKT         bool
	Groups      bool
	Extends     bool
	Aliases     bool
	Beta        int  // percent of packages that are beta
	Unversioned int  // percent of packages without version
	Odd         bool // names of odd style
	NoPkg       int  // percent chance that the set has package-less files (single directory)
	Optional3   bool // proto3 optional (not supported by all tools)
	HeadComment bool
	Self        bool // one package, no imports
	SplitDirs   bool // a package may span directories
	ImportPct   int  // chance of importing an earlier file
	Safe        bool // only literals that the formatter's parser is known to read correctly
	Names       func(r *rand.Rand, kind string) string
	PkgNames    []string // instead of random ones
	DupDirs     int      // percentage of packages in a directory named like the one above
	FileNames   func(r *rand.Rand) string
	Shared      int // percent of names used before in another scope
}

// Sym is a type that can be referred to.
type Sym struct {
	FQ     string
	File   *File
	Enum   bool
	Proto2 bool
	Msg    *Message
	En     *Enum
}

// Set is a generated file set.
type Set struct {
	Files   []*File
	Syms    []*Sym
	OptFile bool
	R       *rand.Rand
	Cfg     Cfg
	n       int
	types   map[string]bool // fully-qualified names taken
	short   map[string][]string
}

var words = []string{"alpha", "beta1", "city", "driver", "event", "fare", "gate", "hotel", "item", "job", "key", "lane", "map2", "node", "order", "point", "quota", "route", "state", "trip", "unit", "value", "way", "zone", "x", "y2"}
var oddWords = []string{"time", "duration", "file_name", "file_path", "descriptor", "common", "data", "uuid", "Mixed", "UPPER", "trailing_", "_leading", "a__b", "start_time", "my_duration", "ID", "lists"}

func title(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

func camel(s string) string {
	out := ""
	for _, p := range strings.Split(s, "_") {
		out += title(p)
	}
	return out
}

func (s *Set) id() int { s.n++; return s.n }

func (s *Set) chance(p int) bool { return s.R.Intn(100) < p }

func (s *Set) word() string { return words[s.R.Intn(len(words))] }

// name makes a unique name of a kind: message, enum, service, rpc, field, oneof, value.
func (s *Set) name(kind string) string {
	id := s.id()
	if s.Cfg.Names != nil {
		if n := s.Cfg.Names(s.R, kind); n != "" {
			return withID(n, id)
		}
	}
	w := s.word()
	if s.Cfg.Shared > 0 && s.chance(s.Cfg.Shared) {
		switch kind {
		case "field":
			return fmt.Sprintf("f%d", id%40)
		case "rpc":
			return fmt.Sprintf("Do%d", id%20)
		}
	}
	if s.chance(5) { // a long name
		for n := 3 + s.R.Intn(12); n > 0; n-- {
			w += "_" + s.word()
		}
		switch kind {
		case "message", "enum", "rpc":
			return fmt.Sprintf("%s%d", camel(w), id)
		case "service":
			return fmt.Sprintf("%s%dAPI", camel(w), id)
		case "value":
			return fmt.Sprintf("%s_V%d", strings.ToUpper(w), id)
		}
		return fmt.Sprintf("%s%d", w, id)
	}
	switch kind {
	case "message", "enum", "rpc":
		n := title(w)
		if s.chance(50) {
			n += title(s.word())
		}
		return fmt.Sprintf("%s%d", n, id)
	case "service":
		return fmt.Sprintf("%s%dAPI", title(w), id)
	case "value":
		return fmt.Sprintf("%s_V%d", strings.ToUpper(w), id)
	default:
		n := w
		if s.chance(50) {
			n += "_" + s.word()
		}
		return fmt.Sprintf("%s%d", n, id)
	}
}

// typeName names a message or enum of a scope.
func (s *Set) typeName(kind, scope string) string {
	if s.Cfg.Shared == 0 {
		return s.name(kind)
	}
	if s.types == nil {
		s.types, s.short = map[string]bool{}, map[string][]string{}
	}
	if l := s.short[kind]; len(l) > 0 && s.chance(s.Cfg.Shared) {
		n := l[s.R.Intn(len(l))]
		if !s.types[join(scope, n)] {
			s.types[join(scope, n)] = true
			return n
		}
	}
	n := s.name(kind)
	s.short[kind] = append(s.short[kind], n)
	s.types[join(scope, n)] = true
	return n
}

// withID makes a name unique and keeps underscores at its end.
func withID(n string, id int) string {
	t := strings.TrimRight(n, "_")
	if t == "" {
		return fmt.Sprintf("x%d", id) + n
	}
	return t + fmt.Sprint(id) + n[len(t):]
}

var commentWords = []string{"the", "This is", "a value", "of something.", "Never empty", "see RFC 123", "quoted \"text\"", "semi;colon", "brace { }", "a = b", "http://example.com/x", "TODO: later", "tab\there", "ünïcode", "100%", "* star", "1. item"}

// Sentence makes comment text.
func (s *Set) Sentence() string {
	n := 1 + s.R.Intn(4)
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, commentWords[s.R.Intn(len(commentWords))])
	}
	return strings.Join(p, " ") + fmt.Sprintf(" c%d", s.id())
}

func (s *Set) node() Node {
	var n Node
	if s.chance(s.Cfg.Comments) {
		for i := 0; i <= s.R.Intn(3); i++ {
			n.Lead = append(n.Lead, s.Sentence())
		}
		if s.chance(s.Cfg.CStyle) {
			n.CStyle = true
		}
	}
	if s.chance(s.Cfg.Inline) {
		n.Inline = s.Sentence()
	}
	if len(n.Lead) > 0 && s.chance(25) {
		for i := range n.Lead {
			switch s.R.Intn(6) {
			case 0:
				n.Lead[i] = "\t" + n.Lead[i]
			case 1:
				n.Lead[i] = "\t\t " + n.Lead[i]
			case 2:
				n.Lead[i] = "    " + n.Lead[i]
			case 3:
				n.Lead[i] = " \t " + n.Lead[i]
			}
		}
		n.Slashes = s.R.Intn(3)
	}
	return n
}

// ranges makes up to max ranges that do not overlap between lo and hi, in any
// order and often next to each other; the last may go on to the maximum.
func (s *Set) ranges(lo, hi, max int, toMax bool) string {
	var out []string
	at := lo
	for n := 1 + s.R.Intn(max); n > 0; n-- {
		if !s.chance(50) {
			at += 1 + s.R.Intn(9)
		}
		to := at
		if s.chance(60) {
			to += s.R.Intn(20)
		}
		if to > hi {
			break
		}
		if to == at {
			out = append(out, fmt.Sprint(at))
		} else {
			out = append(out, fmt.Sprintf("%d to %d", at, to))
		}
		at = to + 1
	}
	if s.chance(25) {
		s.R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	if toMax && s.chance(30) || len(out) == 0 {
		out = append(out, fmt.Sprintf("%d to max", hi+1))
	}
	return strings.Join(out, ", ")
}

// multi gives the options of a field or enum value lines and comments.
func (s *Set) multi(o []*Opt) bool {
	if len(o) == 0 || !s.chance(s.Cfg.Comments/2) {
		return false
	}
	s.noded(o)
	if s.Cfg.Safe { // a comment after the last option is known to be rejected
		o[len(o)-1].Inline = ""
	}
	return true
}

// OptsPath is the file that declares the custom options.
const OptsPath = "vopts/vopts.proto"

// OptsSource declares custom options of many types for every element kind.
var OptsSource = func() string {
	var b strings.Builder
	b.WriteString("syntax = \"proto2\";\n\npackage vopts;\n\nimport \"google/protobuf/descriptor.proto\";\n\n")
	b.WriteString("message Agg {\n  optional int32 i = 1;\n  optional string s = 2;\n  repeated int32 r = 3;\n  optional Agg d = 4;\n  repeated Agg ds = 5;\n  optional En e = 6;\n  optional double f = 7;\n  optional bool b = 8;\n  optional bytes by = 9;\n  map<string, int32> m = 10;\n  extensions 100 to 200;\n}\n\nenum En {\n  EN_A = 0;\n  EN_B = 1;\n  EN_C = -1;\n}\n\nextend Agg {\n  optional int32 agg_ext = 100;\n}\n\n")
	base := 50000
	for _, k := range []string{"File", "Message", "Field", "Oneof", "Enum", "EnumValue", "Service", "Method"} {
		p := strings.ToLower(k)
		fmt.Fprintf(&b, "extend google.protobuf.%sOptions {\n", k)
		for i, t := range []string{"int32", "string", "bool", "double", "En", "Agg", "bytes", "int64", "uint64", "float", "sint32"} {
			fmt.Fprintf(&b, "  optional %s %s_%s = %d;\n", t, p, strings.ToLower(t), base+i)
		}
		fmt.Fprintf(&b, "  repeated string %s_rs = %d;\n  repeated Agg %s_ra = %d;\n", p, base+20, p, base+21)
		b.WriteString("}\n\n")
		base += 100
	}
	return b.String()
}()

// StrLit makes a string literal.
func (s *Set) StrLit() string {
	c := []string{`"plain"`, `'single'`, `"with 'single' inside"`, `'with "double" inside'`, `"esc \n \t \\ \" end"`, `"\x41\x7f"`, `"\101\0"`, `"ünïcödé"`, `"semi; // not a comment"`, `"/* no */"`, `"{ [ ("`, `"a,b:c=d"`, `" lead and trail "`, `"%s %d"`, `"back\\slash"`, `'it\'s'`}
	if s.Cfg.Safe {
		c = []string{`"plain"`, `"with 'single' inside"`, `"esc \n \t \\ \" end"`, `"\x41\x7f"`, `"\101\000"`, `"ünïcödé"`, `"semi; // not a comment"`, `"/* no */"`, `"{ [ ("`, `"a,b:c=d"`, `" lead and trail "`, `"%s %d"`, `"back\\slash"`, `"it's"`, `""`}
	}
	return c[s.R.Intn(len(c))]
}

func (s *Set) intLit(neg bool) string {
	c := []string{"0", "1", "42", "0x1F", "0xff", "017", "2147483647"}
	if s.Cfg.Safe {
		c[5] = "17"
	}
	l := c[s.R.Intn(len(c))]
	if neg && s.chance(30) && l != "2147483647" {
		l = "-" + l
	}
	return l
}

func (s *Set) floatLit() string {
	c := []string{"0.5", "1.5", "-2.25", "1e10", "1.5e-3", "inf", "-inf", "nan", "3", "-7", "1E+2"}
	return c[s.R.Intn(len(c))]
}

func (s *Set) finLit() string {
	c := []string{"0.5", "1.5", "-2.25", "1e10", "1.5e-3", "3", "-7", "1E+2"}
	return c[s.R.Intn(len(c))]
}

// aggLit makes an aggregate literal for the Agg message.
func (s *Set) aggLit(depth int) string {
	n := 1 + s.R.Intn(4)
	var parts []string
	used := map[int]bool{}
	for len(parts) < n {
		k := s.R.Intn(9)
		if used[k] && k != 2 {
			n--
			continue
		}
		used[k] = true
		switch k {
		case 0:
			parts = append(parts, "i: "+s.intLit(true))
		case 1:
			parts = append(parts, "s: "+s.StrLit())
		case 2:
			if used[20] {
				v := s.intLit(false)
				parts = append(parts, "r: "+v)
				for s.chance(40) { // equal elements
					parts = append(parts, "r: "+v)
				}
			} else {
				used[20] = true
				parts = append(parts, "r: [1, 2, 3]")
			}
		case 3:
			if depth > 0 {
				sep := " "
				if s.chance(50) {
					sep = ": "
				}
				parts = append(parts, "d"+sep+s.aggLit(depth-1))
			}
		case 4:
			if depth > 0 {
				v := s.aggLit(0)
				parts = append(parts, "ds: "+v, "ds: "+s.aggLit(0))
				if s.chance(40) {
					parts = append(parts, "ds: "+v)
				}
			}
		case 5:
			parts = append(parts, "e: EN_"+[]string{"A", "B", "C"}[s.R.Intn(3)])
		case 6:
			parts = append(parts, "f: "+[]string{"1.5", "2", "-0.25", "1e3"}[s.R.Intn(4)])
		case 7:
			parts = append(parts, "b: "+[]string{"true", "false"}[s.R.Intn(2)])
		case 8:
			parts = append(parts, "by: "+[]string{`"xy"`, `"\x01\377"`}[s.R.Intn(2)])
		}
	}
	if len(parts) == 0 && s.Cfg.Safe { // empty nested values are known to be dropped
		parts = append(parts, "i: 7")
	}
	sep := " "
	if s.chance(20) {
		sep = ", "
	}
	return "{ " + strings.Join(parts, sep) + " }"
}

// customOpts makes custom options for an element kind.
func (s *Set) customOpts(kind string) []*Opt {
	if !s.Cfg.CustomOpts || !s.chance(30) {
		return nil
	}
	p := strings.ToLower(kind)
	var out []*Opt
	add := func(name, val string) { out = append(out, &Opt{Name: "(vopts." + p + "_" + name + ")", Val: val}) }
	for i := 0; i <= s.R.Intn(3); i++ {
		switch s.R.Intn(12) {
		case 0:
			add("int32", s.intLit(true))
		case 1:
			add("string", s.StrLit())
		case 2:
			add("bool", []string{"true", "false"}[s.R.Intn(2)])
		case 3:
			add("double", s.finLit())
		case 4:
			add("en", "EN_B")
		case 5:
			add("agg", s.aggLit(2))
		case 6:
			add("bytes", `"\001\377x"`)
		case 7:
			add("uint64", "18446744073709551615")
		case 8:
			v := s.StrLit()
			add("rs", v)
			add("rs", s.StrLit())
			if s.chance(40) {
				add("rs", v)
			}
		case 9:
			out = append(out, &Opt{Name: "(vopts." + p + "_agg).i", Val: s.intLit(true)}, &Opt{Name: "(vopts." + p + "_agg).d.s", Val: s.StrLit()})
			return dedupOpts(out)
		case 10:
			add("float", s.finLit())
		case 11:
			add("sint32", "-5")
		}
	}
	return dedupOpts(out)
}

func dedupOpts(in []*Opt) []*Opt {
	seen := map[string]bool{}
	var out []*Opt
	agg := false
	for _, o := range in {
		isAgg := strings.Contains(o.Name, "_agg)")
		rep := strings.Contains(o.Name, "_rs)") || strings.Contains(o.Name, "_ra)")
		if !rep && seen[o.Name] {
			continue
		}
		if isAgg && !strings.Contains(o.Name, ").") {
			if agg {
				continue
			}
			agg = true
		} else if isAgg && agg && seen["whole"] {
			continue
		}
		if isAgg {
			if strings.HasSuffix(o.Name, ")") {
				if seen["part"] {
					continue
				}
				seen["whole"] = true
			} else {
				if seen["whole"] {
					continue
				}
				seen["part"] = true
			}
		}
		seen[o.Name] = true
		out = append(out, o)
	}
	return out
}

func (s *Set) noded(o []*Opt) []*Opt {
	for _, x := range o {
		x.Node = s.node()
	}
	return o
}

// Generate makes a set.
func Generate(r *rand.Rand, cfg Cfg) *Set {
	s := &Set{R: r, Cfg: cfg}
	npk := 1
	if cfg.Pkgs > 1 {
		npk = 1 + r.Intn(cfg.Pkgs)
	}
	if cfg.CustomOpts {
		s.OptFile = true
	}
	for i := 0; i < npk; i++ {
		pkg := s.word() + fmt.Sprint(i)
		switch {
		case i < 8 && s.chance(12): // one letter
			pkg = string("abcdefgh"[i])
		case s.chance(8):
			pkg += "_" + s.word() + "x"
		}
		if s.chance(60) {
			pkg = "org." + pkg
		}
		if s.chance(8) {
			for n := 1 + s.R.Intn(5); n > 0; n-- {
				pkg += fmt.Sprintf(".%sn%dx%d", s.word(), i, n)
			}
		}
		if s.chance(30) {
			pkg += "." + s.word()
		}
		switch {
		case s.chance(cfg.Beta):
			pkg += fmt.Sprintf(".v%dbeta%d", 1+r.Intn(3), 1+r.Intn(3))
		case s.chance(cfg.Unversioned):
		default:
			pkg += fmt.Sprintf(".v%d", 1+r.Intn(12))
		}
		if npk == 1 && s.chance(cfg.NoPkg) {
			pkg = ""
		}
		if i < len(cfg.PkgNames) {
			pkg = cfg.PkgNames[i]
		}
		dir := strings.Replace(pkg, ".", "/", -1)
		if cfg.DupDirs > 0 && s.chance(cfg.DupDirs) {
			dir = path.Join(dir, path.Base(dir))
		}
		nf := 1
		if cfg.FilesPerPkg > 1 {
			nf = 1 + r.Intn(cfg.FilesPerPkg)
		}
		for j := 0; j < nf; j++ {
			d := dir
			if cfg.SplitDirs && s.chance(30) {
				d = path.Join(dir, "sub"+fmt.Sprint(j))
			}
			name := fmt.Sprintf("%s_f%d.proto", s.word(), s.id())
			if cfg.FileNames != nil {
				name = cfg.FileNames(r)
			}
			s.file(path.Join(d, name), pkg)
		}
	}
	return s
}

func (s *Set) file(p, pkg string) *File {
	f := &File{Path: p, Package: pkg, Syntax: "proto3"}
	if s.chance(s.Cfg.Proto2) {
		f.Syntax = "proto2"
	}
	if s.Cfg.HeadComment && s.chance(40) {
		f.Head = []string{s.Sentence(), s.Sentence()}
	}
	f.SyntaxNode, f.PkgNode = s.node(), s.node()
	if s.Cfg.HeadComment {
		f.SyntaxNode.CStyle = false
	}
	imports := map[string]bool{}
	// which earlier files may be used
	for _, g := range s.Files {
		if s.chance(s.Cfg.ImportPct) {
			imports[g.Path] = true
		}
	}
	var avail []*Sym
	for _, y := range s.Syms {
		if imports[y.File.Path] {
			avail = append(avail, y)
		}
	}
	if s.OptFile {
		imports[OptsPath] = true
	}
	wkt := s.Cfg.WKT && s.chance(60)
	if wkt {
		imports["google/protobuf/timestamp.proto"] = true
		imports["google/protobuf/duration.proto"] = true
		imports["google/protobuf/any.proto"] = true
	}
	fs := &fileScope{s: s, f: f, avail: avail, wkt: wkt, used: map[string]bool{}}
	nd := 1
	if s.Cfg.Defs > 1 {
		nd = 1 + s.R.Intn(s.Cfg.Defs)
	}
	for i := 0; i < nd; i++ {
		switch k := s.R.Intn(10); {
		case k < 6:
			f.Defs = append(f.Defs, fs.message(pkg, s.Cfg.Depth))
		case k < 8:
			f.Defs = append(f.Defs, fs.enum(pkg))
		case k < 9 && s.Cfg.Services:
			f.Defs = append(f.Defs, fs.service())
		default:
			if s.Cfg.Extends && f.Syntax == "proto2" {
				if e := fs.extend(); e != nil {
					f.Defs = append(f.Defs, e)
					continue
				}
			}
			f.Defs = append(f.Defs, fs.message(pkg, s.Cfg.Depth))
		}
	}
	// file options
	for _, o := range [][2]string{
		{"java_package", `"com.` + pkg + `"`}, {"java_outer_classname", `"X"`}, {"java_multiple_files", "true"}, {"go_package", `"foopb"`},
		{"objc_class_prefix", `"ABC"`}, {"csharp_namespace", `"A.B"`}, {"php_namespace", `"A\\B"`}, {"ruby_package", `"A::B"`},
		{"optimize_for", "SPEED"}, {"cc_enable_arenas", "true"}, {"deprecated", "true"}, {"cc_generic_services", "false"}, {"swift_prefix", `"SW"`}, {"php_class_prefix", `"P"`}} {
		if s.chance(s.Cfg.FileOpts) {
			f.Options = append(f.Options, &Opt{Node: s.node(), Name: o[0], Val: o[1]})
		}
	}
	f.Options = append(f.Options, s.noded(s.customOpts("File"))...)
	s.R.Shuffle(len(f.Options), func(i, j int) {
		a, b := f.Options[i], f.Options[j]
		if a.Name == b.Name {
			return
		}
		f.Options[i], f.Options[j] = b, a
	})
	// imports actually used (unused ones give warnings)
	used := fs.used
	if s.OptFile && (strings.Contains((&File{Options: f.Options, Defs: f.Defs, Package: "x"}).Render(), "(vopts.")) {
		used[OptsPath] = true
	}
	var paths []string
	for p := range used {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	s.R.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
	for _, p := range paths {
		im := &Import{Node: s.node(), Path: p}
		if s.chance(10) {
			im.Kind = "public"
		}
		f.Imports = append(f.Imports, im)
	}
	if s.Cfg.Comments > 0 && s.chance(20) {
		f.EndComment = s.Sentence()
	}
	s.Files = append(s.Files, f)
	for _, y := range fs.own {
		s.Syms = append(s.Syms, y)
	}
	return f
}

type fileScope struct {
	cur   string // message being generated
	s     *Set
	f     *File
	avail []*Sym
	own   []*Sym
	wkt   bool
	used  map[string]bool
	extN  int
}

func join(scope, n string) string {
	if scope == "" {
		return n
	}
	return scope + "." + n
}

// typeRef picks a message or enum type.
func (fs *fileScope) typeRef(enumOK, msgOK bool) (written string, y *Sym) {
	s := fs.s
	if fs.used == nil {
		fs.used = map[string]bool{}
	}
	if fs.wkt && msgOK && s.chance(20) {
		w := [][2]string{{"google.protobuf.Timestamp", "timestamp"}, {"google.protobuf.Duration", "duration"}, {"google.protobuf.Any", "any"}}[s.R.Intn(3)]
		fs.used["google/protobuf/"+w[1]+".proto"] = true
		return w[0], &Sym{FQ: w[0]}
	}
	var c []*Sym
	for _, y := range append(append([]*Sym{}, fs.own...), fs.avail...) {
		if y.Enum && (!enumOK || (y.Proto2 && fs.f.Syntax == "proto3")) {
			continue
		}
		if !y.Enum && !msgOK {
			continue
		}
		c = append(c, y)
	}
	if len(c) == 0 {
		return "", nil
	}
	if s.Cfg.Shared > 0 && fs.cur != "" && s.chance(40) {
		var in []*Sym
		for _, y := range c {
			if strings.HasPrefix(y.FQ, fs.cur+".") {
				in = append(in, y)
			}
		}
		if len(in) > 0 {
			c = in
		}
	}
	y = c[s.R.Intn(len(c))]
	if y.File != fs.f {
		fs.used[y.File.Path] = true
	}
	w := y.FQ
	if s.chance(20) || s.Cfg.Shared > 0 || fs.ambiguous(y.FQ) {
		w = "." + y.FQ
	} else if y.File == fs.f && fs.f.Package != "" && s.chance(40) {
		w = strings.TrimPrefix(y.FQ, fs.f.Package+".")
	}
	return w, y
}

// ambiguous tells whether the first part of a name is also a later part of
// the name of some package, where protoc might look for it.
func (fs *fileScope) ambiguous(fq string) bool {
	first := strings.SplitN(fq, ".", 2)[0]
	for _, f := range append([]*File{fs.f}, fs.s.Files...) {
		for i, c := range strings.Split(f.Package, ".") {
			if i > 0 && c == first {
				return true
			}
		}
	}
	return false
}

var scalars = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
var mapKeys = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

func (fs *fileScope) fieldOpts(f *Field) {
	s := fs.s
	if s.chance(s.Cfg.StdOpts) {
		var o []*Opt
		if s.chance(40) {
			o = append(o, &Opt{Name: "deprecated", Val: "true"})
		}
		if s.chance(30) && f.Key == "" && f.Label != "" || s.chance(30) {
			o = append(o, &Opt{Name: "json_name", Val: fmt.Sprintf(`"jn%d"`, s.id())})
		}
		if f.Label == "repeated" && isPackable(f.Type) && s.chance(50) {
			o = append(o, &Opt{Name: "packed", Val: "true"})
		}
		if fs.f.Syntax == "proto2" && f.Label == "optional" && f.FQ == "" && f.Group == nil {
			d := ""
			switch f.Type {
			case "string":
				d = s.StrLit()
			case "bytes":
				d = `"\000\001ab"`
			case "bool":
				d = "true"
			case "double", "float":
				d = s.floatLit()
			case "uint32", "uint64", "fixed32", "fixed64":
				d = s.intLit(false)
			default:
				d = s.intLit(true)
			}
			if s.chance(60) {
				o = append(o, &Opt{Name: "default", Val: d})
			}
		}
		f.Opts = append(f.Opts, o...)
	}
	if f.Group == nil {
		f.Opts = append(f.Opts, s.customOpts("Field")...)
		f.Multi = s.multi(f.Opts)
	}
}

func isPackable(t string) bool {
	for _, x := range scalars {
		if x == t {
			return t != "string" && t != "bytes"
		}
	}
	return false
}

func (fs *fileScope) field(num int, inOneof bool) *Field {
	s := fs.s
	f := &Field{Node: s.node(), Name: s.name("field"), Num: num}
	if !inOneof && s.chance(12) {
		f.Key = mapKeys[s.R.Intn(len(mapKeys))]
		f.Type = scalars[s.R.Intn(len(scalars))]
		if s.chance(40) {
			if w, y := fs.typeRef(false, true); y != nil {
				f.Type, f.FQ = w, y.FQ
			}
		}
		fs.fieldOpts(f)
		return f
	}
	f.Type = scalars[s.R.Intn(len(scalars))]
	if s.chance(40) {
		if w, y := fs.typeRef(true, true); y != nil {
			f.Type, f.FQ = w, y.FQ
		}
	}
	if !inOneof {
		if fs.f.Syntax == "proto2" {
			f.Label = []string{"optional", "required", "repeated"}[s.R.Intn(3)]
		} else {
			if s.chance(25) {
				f.Label = "repeated"
			}
		}
	}
	fs.fieldOpts(f)
	return f
}

func (fs *fileScope) message(scope string, depth int) *Message {
	s := fs.s
	m := &Message{Node: s.node(), Name: s.typeName("message", scope)}
	fq := join(scope, m.Name)
	sym := &Sym{FQ: fq, File: fs.f, Proto2: fs.f.Syntax == "proto2", Msg: m}
	fs.own = append(fs.own, sym)
	outer := fs.cur
	fs.cur = fq
	defer func() { fs.cur = outer }()
	num := 1
	n := s.R.Intn(6)
	next := func() int {
		k := num
		num += 1 + s.R.Intn(2)
		return k
	}
	if s.chance(s.Cfg.StdOpts) && s.chance(40) {
		m.Elems = append(m.Elems, &Opt{Node: s.node(), Name: "deprecated", Val: "true"})
	}
	for _, o := range s.noded(s.customOpts("Message")) {
		m.Elems = append(m.Elems, o)
	}
	if s.chance(15) {
		two := s.chance(20)
		m.Elems = append(m.Elems, &Reserved{Node: s.node(), Ranges: s.ranges(1000+s.R.Intn(50), 2000, 5, fs.f.Syntax == "proto3" && !two)})
		if two {
			m.Elems = append(m.Elems, &Reserved{Node: s.node(), Ranges: s.ranges(2001, 3000, 3, false)})
		}
	}
	if s.chance(15) {
		x := &Reserved{Node: s.node(), Names: []string{fmt.Sprintf("old%d", s.id()), fmt.Sprintf("Older_%d", s.id())}}
		for s.chance(30) {
			x.Names = append(x.Names, fmt.Sprintf("aged%d", s.id()))
		}
		m.Elems = append(m.Elems, x)
	}
	if fs.f.Syntax == "proto2" && s.chance(15) {
		m.Elems = append(m.Elems, &Extensions{Node: s.node(), Ranges: s.extRanges()})
	}
	for i := 0; i < n; i++ {
		switch k := s.R.Intn(12); {
		case k < 7:
			m.Elems = append(m.Elems, fs.field(next(), false))
		case k < 8 && depth > 0:
			m.Elems = append(m.Elems, fs.message(fq, depth-1))
		case k < 9 && depth > 0:
			m.Elems = append(m.Elems, fs.enum(fq))
		case k < 11:
			o := &Oneof{Node: s.node(), Name: s.name("oneof")}
			for _, op := range s.noded(s.customOpts("Oneof")) {
				o.Elems = append(o.Elems, op)
			}
			for j := 0; j <= s.R.Intn(3); j++ {
				o.Elems = append(o.Elems, fs.field(next(), true))
			}
			m.Elems = append(m.Elems, o)
		default:
			if s.Cfg.Groups && fs.f.Syntax == "proto2" && depth > 0 {
				g := &Message{Name: s.name("message")}
				g.Elems = append(g.Elems, fs.field(1, false), fs.field(2, false))
				m.Elems = append(m.Elems, &Field{Node: s.node(), Label: []string{"optional", "required", "repeated"}[s.R.Intn(3)], Num: next(), Name: strings.ToLower(g.Name), Group: g})
			} else if s.Cfg.Extends && fs.f.Syntax == "proto2" {
				if e := fs.extend(); e != nil {
					m.Elems = append(m.Elems, e)
				}
			}
		}
	}
	// mixed order of elements
	if s.chance(30) {
		s.R.Shuffle(len(m.Elems), func(i, j int) { m.Elems[i], m.Elems[j] = m.Elems[j], m.Elems[i] })
	}
	if s.chance(s.Cfg.Comments / 3) {
		m.End = s.Sentence()
	}
	return m
}

func (s *Set) extRanges() string {
	if s.chance(50) {
		if s.chance(60) {
			return "5000 to 5999"
		}
		return "5000 to 5999, " + s.ranges(6000, 7000, 4, true)
	}
	return s.ranges(5001, 6000, 5, true)
}

func (fs *fileScope) extend() *Extend {
	s := fs.s
	var c []*Message
	var fq []string
	for _, y := range fs.own {
		if y.Msg == nil {
			continue
		}
		for _, e := range y.Msg.Elems {
			if x, ok := e.(*Extensions); ok && strings.HasPrefix(x.Ranges, "5000 to") {
				c = append(c, y.Msg)
				fq = append(fq, y.FQ)
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	i := s.R.Intn(len(c))
	e := &Extend{Node: s.node(), Type: fq[i]}
	// the other spellings of the name
	switch in := strings.TrimPrefix(fq[i], fs.f.Package+"."); {
	case s.chance(25):
		e.Type = "." + fq[i]
	case fs.f.Package != "" && in != fq[i] && s.chance(50) && !fs.ambiguous(in):
		e.Type = in
	}
	for j := 0; j <= s.R.Intn(2); j++ {
		fs.extN++
		f := &Field{Node: s.node(), Label: []string{"optional", "repeated"}[s.R.Intn(2)], Type: scalars[s.R.Intn(len(scalars))], Name: s.name("field"), Num: 5000 + s.id()%900}
		e.Fields = append(e.Fields, f)
	}
	// extension numbers must be unique per extendee; keep a global counter
	for _, f := range e.Fields {
		f.Num = 5000 + fs.extN
		fs.extN++
	}
	return e
}

func (fs *fileScope) enum(scope string) *Enum {
	s := fs.s
	e := &Enum{Node: s.node(), Name: s.typeName("enum", scope)}
	fs.own = append(fs.own, &Sym{FQ: join(scope, e.Name), File: fs.f, Enum: true, Proto2: fs.f.Syntax == "proto2", En: e})
	n := 1 + s.R.Intn(4)
	alias := s.Cfg.Aliases && n > 1 && s.chance(25)
	if alias {
		e.Elems = append(e.Elems, &Opt{Node: s.node(), Name: "allow_alias", Val: "true"})
	}
	if s.chance(s.Cfg.StdOpts / 2) {
		e.Elems = append(e.Elems, &Opt{Node: s.node(), Name: "deprecated", Val: "true"})
	}
	for _, o := range s.noded(s.customOpts("Enum")) {
		e.Elems = append(e.Elems, o)
	}
	num := 0
	for i := 0; i < n; i++ {
		v := &EnumValue{Node: s.node(), Name: s.name("value"), Num: num}
		if i > 0 && s.chance(15) {
			v.Num = -num
		}
		if v.Num > 0 && s.chance(15) {
			v.Lit = fmt.Sprintf("0x%x", v.Num)
		}
		if s.chance(s.Cfg.StdOpts / 2) {
			v.Opts = append(v.Opts, &Opt{Name: "deprecated", Val: "true"})
		}
		v.Opts = append(v.Opts, s.customOpts("EnumValue")...)
		v.Multi = s.multi(v.Opts)
		e.Elems = append(e.Elems, v)
		num += 1 + s.R.Intn(3)
	}
	if alias {
		var last *EnumValue
		for _, x := range e.Elems {
			if v, ok := x.(*EnumValue); ok {
				last = v
			}
		}
		e.Elems = append(e.Elems, &EnumValue{Node: s.node(), Name: s.name("value"), Num: last.Num})
	}
	if s.chance(10) {
		e.Elems = append(e.Elems, &Reserved{Node: s.node(), Ranges: s.ranges(1000, 2000, 5, true), IsEnum: true})
	}
	return e
}

func (fs *fileScope) service() *Service {
	s := fs.s
	sv := &Service{Node: s.node(), Name: s.name("service")}
	if s.chance(s.Cfg.StdOpts / 2) {
		sv.Elems = append(sv.Elems, &Opt{Node: s.node(), Name: "deprecated", Val: "true"})
	}
	for _, o := range s.noded(s.customOpts("Service")) {
		sv.Elems = append(sv.Elems, o)
	}
	for i := 0; i < s.R.Intn(4); i++ {
		in, y1 := fs.typeRef(false, true)
		out, y2 := fs.typeRef(false, true)
		if y1 == nil && y2 == nil {
			break
		}
		if y1 == nil {
			in = out
		}
		if y2 == nil {
			out = in
		}
		r := &RPC{Node: s.node(), Name: s.name("rpc"), In: in, Out: out, InStream: s.chance(25), OutStream: s.chance(25), Braces: s.chance(15)}
		if s.chance(s.Cfg.StdOpts / 2) {
			r.Opts = append(r.Opts, &Opt{Node: s.node(), Name: "deprecated", Val: "true"})
		}
		if s.chance(s.Cfg.StdOpts / 3) {
			r.Opts = append(r.Opts, &Opt{Node: s.node(), Name: "idempotency_level", Val: "IDEMPOTENT"})
		}
		r.Opts = append(r.Opts, s.noded(s.customOpts("Method"))...)
		if s.Cfg.Safe { // comments in the body of an rpc are known to be lost
			for _, o := range r.Opts {
				o.Lead = nil
			}
			if len(r.Opts) > 0 {
				r.Inline = ""
			}
		}
		sv.Elems = append(sv.Elems, r)
	}
	return sv
}
