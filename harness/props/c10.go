package props

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C10", Level: "exploration", Run: runC10,
		Rule:  "the old state is the descriptor set of a generated tree, either with compatible changes undone in it (definitions, files and packages added, order, moves between files, settings) or saved by break descriptor-set before the sources are changed compatibly (the same and reserved names, layout and comments); break check must say nothing but what concerns beta dependencies of the new state; precise: after changes of any kind it must print nothing that the reference does not expect. Non-trivial: at least one change; distinct by the changes.",
		Notes: []string{"stable packages that depend on beta packages are reported by design even if nothing changed", "an import of a package from outside that is given up is a known finding"}})
}

func runC10(c *core.Ctx) {
	c.Each("mutate", c.N(2200, 25000), func(cs *core.Case) { breakCase(cs, true) })
	c.Each("precise", c.N(400, 8000), func(cs *core.Case) { breakCaseWith(cs, false, extraBreaks) })
	c.Each("precise single", c.N(300, 4000), func(cs *core.Case) { c09SingleWith(cs, extraBreaks) })
	c.Each("source", c.N(500, 9000), c10Source)
	c.Named("case", []string{"import dropped", "import dropped in beta", "alias added", "alias moved", "required group", "same name in two packages", "unused options import"}, c10Case)
}

// evolve changes a generated set. Breaking changes may make it invalid.
type evolver struct {
	r   *rand.Rand
	s   *pgen.Set
	n   int
	log []string
}

func (e *evolver) id() string { e.n++; return itoa(e.n) }

func (e *evolver) all(want func(x interface{}) bool) (out []interface{}) {
	for _, f := range e.s.Files {
		f.Walk(func(_ []string, x interface{}) {
			if want(x) {
				out = append(out, x)
			}
		})
	}
	return
}

func (e *evolver) one(want func(x interface{}) bool) interface{} {
	l := e.all(want)
	if len(l) == 0 {
		return nil
	}
	return l[e.r.Intn(len(l))]
}

func isMsg(x interface{}) bool  { _, ok := x.(*pgen.Message); return ok }
func isEnum(x interface{}) bool { _, ok := x.(*pgen.Enum); return ok }
func isSvc(x interface{}) bool  { _, ok := x.(*pgen.Service); return ok }

func (e *evolver) fileOf(x interface{}) (res *pgen.File) {
	for _, f := range e.s.Files {
		f.Walk(func(_ []string, y interface{}) {
			if y == x {
				res = f
			}
		})
	}
	return
}

func (e *evolver) label(f *pgen.File) string {
	if f.Syntax == "proto3" {
		return pick(e.r, "", "", "repeated")
	}
	return pick(e.r, "optional", "repeated")
}

func (e *evolver) newMsg(f *pgen.File) *pgen.Message {
	m := &pgen.Message{Name: "Added" + e.id()}
	for i := e.r.Intn(3); i > 0; i-- {
		m.Elems = append(m.Elems, &pgen.Field{Label: e.label(f), Type: pick(e.r, "string", "int32", "bytes"), Name: "f" + e.id(), Num: 10 + i})
	}
	return m
}

// compatible makes one change that break check must not mind.
func (e *evolver) compatible() {
	r := e.r
	say := func(f string, a ...interface{}) { e.log = append(e.log, fmt.Sprintf(f, a...)) }
	for try := 0; try < 30; try++ {
		f := e.s.Files[r.Intn(len(e.s.Files))]
		switch r.Intn(15) {
		case 0:
			say("top level shuffled: ")
			r.Shuffle(len(f.Defs), func(i, j int) { f.Defs[i], f.Defs[j] = f.Defs[j], f.Defs[i] })
			return
		case 1:
			if m, ok := e.one(isMsg).(*pgen.Message); ok && len(m.Elems) > 1 {
				say("message shuffled: %s", m.Name)
				r.Shuffle(len(m.Elems), func(i, j int) { m.Elems[i], m.Elems[j] = m.Elems[j], m.Elems[i] })
				return
			}
		case 2:
			if m, ok := e.one(isEnum).(*pgen.Enum); ok && len(m.Elems) > 2 {
				// the first value stays first
				first := -1
				for i, x := range m.Elems {
					if _, ok := x.(*pgen.EnumValue); ok {
						first = i
						break
					}
				}
				if first >= 0 {
					say("enum shuffled: %s", m.Name)
					m.Elems[0], m.Elems[first] = m.Elems[first], m.Elems[0]
					t := m.Elems[1:]
					r.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
					return
				}
			}
		case 3:
			if m, ok := e.one(isSvc).(*pgen.Service); ok && len(m.Elems) > 1 {
				say("service shuffled: %s", m.Name)
				r.Shuffle(len(m.Elems), func(i, j int) { m.Elems[i], m.Elems[j] = m.Elems[j], m.Elems[i] })
				return
			}
		case 4:
			if m, ok := e.one(isMsg).(*pgen.Message); ok {
				say("field added: %s", m.Name)
				fl := e.fileOf(m)
				m.Elems = append(m.Elems, &pgen.Field{Label: e.label(fl), Type: pick(r, "string", "double"), Name: "added_" + e.id(), Num: 400000 + e.n})
				return
			}
		case 5:
			if m, ok := e.one(isMsg).(*pgen.Message); ok {
				say("oneof added: %s", m.Name)
				m.Elems = append(m.Elems, &pgen.Oneof{Name: "added_" + e.id(), Elems: []interface{}{&pgen.Field{Type: "bool", Name: "added_o" + e.id(), Num: 400000 + e.n}}})
				return
			}
		case 6:
			if m, ok := e.one(isEnum).(*pgen.Enum); ok {
				say("enum value added: %s", m.Name)
				m.Elems = append(m.Elems, &pgen.EnumValue{Name: "ADDED_" + e.id(), Num: 800000 + e.n})
				return
			}
		case 7:
			say("message added: %s", f.Path)
			if m, ok := e.one(isMsg).(*pgen.Message); ok && chance(r, 50) {
				m.Elems = append(m.Elems, e.newMsg(e.fileOf(m)))
			} else {
				f.Defs = append(f.Defs, e.newMsg(f))
			}
			return
		case 8:
			say("enum and service added: %s", f.Path)
			f.Defs = append(f.Defs, &pgen.Enum{Name: "AddedE" + e.id(), Elems: []interface{}{&pgen.EnumValue{Name: "ADDED_Z" + e.id()}}})
			m := e.newMsg(f)
			f.Defs = append(f.Defs, m, &pgen.Service{Name: "AddedS" + e.id(), Elems: []interface{}{&pgen.RPC{Name: "R", In: m.Name, Out: m.Name, OutStream: chance(r, 50)}}})
			return
		case 9:
			if v, ok := e.one(isSvc).(*pgen.Service); ok {
				say("method added: %s", v.Name)
				fl := e.fileOf(v)
				m := e.newMsg(fl)
				fl.Defs = append(fl.Defs, m)
				v.Elems = append(v.Elems, &pgen.RPC{Name: "Added" + e.id(), In: m.Name, Out: m.Name, InStream: chance(r, 50)})
				return
			}
		case 10: // a new file, of an old or a new package
			g := &pgen.File{Path: path.Join(path.Dir(f.Path), "added_"+e.id()+".proto"), Syntax: pick(r, "proto2", "proto3"), Package: f.Package}
			if chance(r, 50) {
				g.Package += pick(r, ".added", "x") + pick(r, "", ".v1", ".v1beta1")
				g.Path = strings.Replace(g.Package, ".", "/", -1) + "/added_" + e.id() + ".proto"
			}
			say("file added: %s of %s", g.Path, g.Package)
			g.Defs = append(g.Defs, e.newMsg(g))
			if chance(r, 50) {
				g.Imports = append(g.Imports, &pgen.Import{Path: f.Path})
			}
			e.s.Files = append(e.s.Files, g)
			return
		case 11: // definitions move into another file of the package
			if len(f.Defs) > 0 {
				g := &pgen.File{Path: path.Join(path.Dir(f.Path), "moved_"+e.id()+".proto"), Syntax: f.Syntax, Package: f.Package}
				g.Imports = append(g.Imports, f.Imports...)
				i := r.Intn(len(f.Defs))
				d := f.Defs[i]
				if chance(r, 50) {
					g.Imports = append(g.Imports, &pgen.Import{Path: f.Path})
				} else {
					f.Imports = append(f.Imports[:len(f.Imports):len(f.Imports)], &pgen.Import{Path: g.Path, Kind: "public"})
				}
				say("definition moved: %d of %s to %s", i, f.Path, g.Path)
				f.Defs = append(f.Defs[:i:i], f.Defs[i+1:]...)
				g.Defs = append(g.Defs, d)
				e.s.Files = append(e.s.Files, g)
				return
			}
		case 12: // the file gets another name
			old, new := f.Path, path.Join(path.Dir(f.Path), "renamed_"+e.id()+".proto")
			if chance(r, 40) {
				new = path.Join("elsewhere"+e.id(), "renamed.proto")
			}
			say("file renamed: %s to %s", old, new)
			f.Path = new
			for _, g := range e.s.Files {
				for _, im := range g.Imports {
					if im.Path == old {
						im.Path = new
					}
				}
			}
			return
		case 13:
			say("file options changed: %s", f.Path)
			var keep []*pgen.Opt
			for _, o := range f.Options {
				if strings.HasPrefix(o.Name, "(") {
					keep = append(keep, o)
				}
			}
			f.Options = append(keep, &pgen.Opt{Name: "java_package", Val: `"other.java"`}, &pgen.Opt{Name: "deprecated", Val: "true"})
			return
		case 14:
			if m, ok := e.one(isMsg).(*pgen.Message); ok {
				say("names reserved: %s", m.Name)
				m.Elems = append(m.Elems, &pgen.Reserved{Names: []string{"reserved_" + e.id()}}, &pgen.Reserved{Ranges: "390000 to 390010"})
				return
			}
		}
	}
}

// breaking makes one change that may or may not be reported, or even
// accepted by protoc.
func (e *evolver) breaking() {
	r := e.r
	say := func(f string, a ...interface{}) { e.log = append(e.log, fmt.Sprintf(f, a...)) }
	drop := func(l []interface{}) []interface{} {
		i := r.Intn(len(l))
		return append(l[:i:i], l[i+1:]...)
	}
	for try := 0; try < 30; try++ {
		f := e.s.Files[r.Intn(len(e.s.Files))]
		switch r.Intn(9) {
		case 0:
			if len(f.Defs) > 0 {
				say("definition deleted: %s", f.Path)
				f.Defs = drop(f.Defs)
				return
			}
		case 1, 2:
			if m, ok := e.one(isMsg).(*pgen.Message); ok && len(m.Elems) > 0 {
				say("element deleted: %s", m.Name)
				m.Elems = drop(m.Elems)
				return
			}
		case 3:
			if m, ok := e.one(isEnum).(*pgen.Enum); ok && len(m.Elems) > 1 {
				say("enum element deleted: %s", m.Name)
				m.Elems = drop(m.Elems)
				return
			}
		case 4:
			if m, ok := e.one(isSvc).(*pgen.Service); ok && len(m.Elems) > 0 {
				say("method deleted: %s", m.Name)
				m.Elems = drop(m.Elems)
				return
			}
		case 5, 6:
			if y, ok := e.one(func(x interface{}) bool { _, ok := x.(*pgen.Field); return ok }).(*pgen.Field); ok {
				say("field changed: %s", y.Name)
				switch r.Intn(4) {
				case 0:
					y.Name += "_new"
				case 1:
					y.Num += 100000
				case 2:
					if y.FQ == "" && y.Key == "" && len(y.Opts) == 0 && y.Group == nil {
						y.Type = pick(r, "string", "int32", "sint64", "bool")
					}
				case 3:
					if y.Label != "" {
						y.Label = pick(r, "optional", "repeated")
					}
				}
				return
			}
		case 7:
			if y, ok := e.one(func(x interface{}) bool { _, ok := x.(*pgen.RPC); return ok }).(*pgen.RPC); ok {
				say("method changed: %s", y.Name)
				switch r.Intn(4) {
				case 0:
					y.InStream = !y.InStream
				case 1:
					y.OutStream = !y.OutStream
				case 2:
					y.In, y.Out = y.Out, y.In
				case 3:
					y.Name += "New"
				}
				return
			}
		case 8:
			if len(e.s.Files) > 1 && chance(r, 50) {
				i := r.Intn(len(e.s.Files))
				say("file deleted: %s", e.s.Files[i].Path)
				e.s.Files = append(e.s.Files[:i:i], e.s.Files[i+1:]...)
				return
			}
		}
	}
}

// twins generates the same set twice.
func twins(cs *core.Case, cfg pgen.Cfg) (a, b *pgen.Set) {
	seed := cs.R.Int63()
	return pgen.Generate(rand.New(rand.NewSource(seed)), cfg), pgen.Generate(rand.New(rand.NewSource(seed)), cfg)
}

func setFiles(s *pgen.Set) (l []string) {
	for _, f := range s.Files {
		l = append(l, f.Path)
	}
	if s.OptFile {
		l = append(l, pgen.OptsPath)
	}
	return
}

func c10Source(cs *core.Case) {
	c, r := cs.C, cs.R
	a, b := twins(cs, breakCfg(cs))
	conf, beta, deps := breakConf(r)
	cs.Write("old/prototool.yaml", toYAML(conf, 0))
	cs.Write("new/prototool.yaml", toYAML(conf, 0))
	writeSet(cs, a, "old")
	e := &evolver{r: r, s: b}
	for i := r.Intn([]int{2, 4, 12}[r.Intn(3)]); i > 0; i-- {
		e.compatible()
	}
	writeSet(cs, b, "new")
	if chance(r, 40) {
		for _, f := range b.Files {
			src := f.Render()
			switch r.Intn(3) {
			case 0:
				src = pgen.Reindent(r, src)
			case 1:
				src = pgen.Sprinkle(r, src, 3)
			case 2:
				if !strings.Contains(src, "//") && !strings.Contains(src, "/*") {
					src = pgen.Relayout(r, src, true)
				}
			}
			cs.Write(filepath.Join("new", f.Path), src)
		}
		e.log = append(e.log, "layout and comments: ")
	}
	for _, l := range e.log {
		cs.Note("change: %s", l)
	}
	old, err := protocSet(cs, filepath.Join(cs.W, "old"), setFiles(a)...)
	if err != "" {
		c.Count("sets protoc rejects", 1)
		return
	}
	new, err := protocSet(cs, filepath.Join(cs.W, "new"), setFiles(b)...)
	if err != "" {
		c.Count("changes protoc rejects", 1)
		return
	}
	for _, l := range e.log {
		c.Count("change: "+strings.SplitN(l, ":", 2)[0], 1)
	}
	bin := filepath.Join(cs.Tmp, "saved.bin")
	opt := core.Opt{Dir: filepath.Join(cs.W, "old")}
	if res := cs.Run(opt, "break", "descriptor-set", "-o", bin); res.Code != 0 || res.Out+res.Err != "" {
		cs.Fail("break descriptor-set: exit %d %s%s", res.Code, res.Out, res.Err)
		return
	}
	opt.Dir = filepath.Join(cs.W, "new")
	got, ok := breakRun(cs, opt, "--descriptor-set-path", bin)
	if !ok {
		return
	}
	var want []string
	for _, x := range breakRef(old, new, beta, deps) {
		if !strings.Contains(x, "which is not allowed") {
			cs.Fatal("a compatible change is none: %s", x)
		}
		want = append(want, x)
	}
	if d := diffBreaks(want, got); d != "" {
		cs.Fail("messages after compatible changes:\n%s", d)
		return
	}
	// nothing changed at all
	if got, ok := breakRun(cs, core.Opt{Dir: filepath.Join(cs.W, "old")}, "--descriptor-set-path", bin); ok {
		var want []string
		for _, x := range breakRef(old, old, beta, deps) {
			want = append(want, x)
		}
		if d := diffBreaks(want, got); d != "" {
			cs.Fail("messages without any change:\n%s", d)
		}
	}
	if len(e.log) > 0 {
		cs.Sig("%v", e.log)
	}
}

func c10Case(cs *core.Case) {
	hdr := func(pkg string) string { return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\n" }
	conf := "protoc:\n  allow_unused_imports: true\n"
	type tree map[string]string
	var a, b tree
	switch cs.I {
	case 0:
		a = tree{"a.proto": hdr("a") + "import \"google/protobuf/any.proto\";\n\nmessage M {}\n"}
		b = tree{"a.proto": hdr("a") + "message M {}\n"}
	case 1:
		a = tree{"a.proto": hdr("a.v1") + "message M {}\n", "b/b.proto": hdr("b.v1beta1") + "import \"google/protobuf/any.proto\";\n\nmessage M {\n  google.protobuf.Any x = 1;\n}\n"}
		b = tree{"a.proto": a["a.proto"], "b/b.proto": hdr("b.v1beta1") + "message M {}\n"}
	case 2:
		a = tree{"a.proto": hdr("a") + "enum E {\n  option allow_alias = true;\n  A = 0;\n  B = 1;\n  C = 1;\n}\n"}
		b = tree{"a.proto": hdr("a") + "enum E {\n  option allow_alias = true;\n  A = 0;\n  Z = 0;\n  B = 1;\n  C = 1;\n  D = 1;\n}\n"}
	case 3:
		a = tree{"a.proto": hdr("a") + "enum E {\n  option allow_alias = true;\n  A = 0;\n  B = 1;\n  C = 1;\n  D = 1;\n}\n"}
		b = tree{"a.proto": hdr("a") + "enum E {\n  option allow_alias = true;\n  A = 0;\n  D = 1;\n  C = 1;\n  B = 1;\n}\n"}
	case 4:
		src := "syntax = \"proto2\";\n\npackage a;\n\nmessage M {\n  required group G = 1 {\n    repeated group H = 2 {\n      required int32 x = 1;\n    }\n  }\n}\n"
		a, b = tree{"a.proto": src}, tree{"a.proto": strings.Replace(src, "required int32 x", "  required  int32 x", 1)}
	case 5:
		a = tree{"a/a.proto": hdr("a") + "message M {\n  string a = 1;\n}\n", "b/b.proto": hdr("b") + "message M {\n  int32 b = 1;\n}\n"}
		b = tree{"c/a.proto": a["a/a.proto"], "c2/b.proto": a["b/b.proto"]}
	case 6:
		opts := "syntax = \"proto3\";\n\npackage o;\n\nimport \"google/protobuf/descriptor.proto\";\n\nextend google.protobuf.MessageOptions {\n  string note = 50000;\n}\n"
		a = tree{"o/o.proto": opts, "a.proto": hdr("a") + "import \"o/o.proto\";\n\nmessage M {\n  option (o.note) = \"x\";\n}\n"}
		b = tree{"o/o.proto": opts, "a.proto": hdr("a") + "message M {}\n"}
	}
	for d, t := range map[string]tree{"old": a, "new": b} {
		cs.Write(d+"/prototool.yaml", conf)
		for p, s := range t {
			os.MkdirAll(filepath.Join(cs.W, d, filepath.Dir(p)), 0755)
			cs.Write(d+"/"+p, s)
		}
	}
	bin := filepath.Join(cs.Tmp, "saved.bin")
	if res := cs.Run(core.Opt{Dir: filepath.Join(cs.W, "old")}, "break", "descriptor-set", "-o", bin); res.Code != 0 {
		cs.Fatal("break descriptor-set: exit %d %s%s", res.Code, res.Out, res.Err)
	}
	got, ok := breakRun(cs, core.Opt{Dir: filepath.Join(cs.W, "new")}, "--descriptor-set-path", bin)
	if ok && len(got) > 0 {
		cs.Fail("a compatible change is reported: %v", got)
	}
	cs.Sig("%d", cs.I)
}
