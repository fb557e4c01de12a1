package props

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C09", Level: "exploration", Run: runC09,
		Rule:  "a generated tree is compiled by protoc; its descriptor set, changed by one to a dozen random mutations at any depth (deleted, added, renamed, renumbered, moved and retyped definitions of every kind, packages stable and beta), is the old state of break check; the printed messages must be, one for one, those a reference computes from the two descriptor sets, under every setting of include_beta and allow_beta_deps. Each documented kind of change is also made on its own in a fixed schema, at top level and nested. Non-trivial: at least one expected message; distinct by the messages.",
		Notes: []string{"messages are compared by the kind of element, the quoted names and the direction of streaming changes, not by their wording"}})
}

func runC09(c *core.Ctx) {
	c.Each("mutate", c.N(2600, 40000), func(cs *core.Case) { breakCase(cs, false) })
	c.Each("single", c.N(1000, 12000), c09Single)
	c.Each("types", len(c09Types)*c09Contexts, c09TypeMatrix)
}

// reference -------------------------------------------------------------

type fset = descriptor.FileDescriptorSet
type fdp = descriptor.FileDescriptorProto
type mdp = descriptor.DescriptorProto
type edp = descriptor.EnumDescriptorProto

type flat struct {
	pkgs  map[string]map[string]bool // package -> direct dependencies
	msgs  map[string]*mdp
	enums map[string]*edp
	svcs  map[string]*descriptor.ServiceDescriptorProto
	pkgOf map[string]string // of the names above
	up    map[string]string // enclosing message
}

func isBeta(pkg string) bool {
	_, _, beta, ok := version(pkg)
	return ok && beta != ""
}

func flatten(s *fset, noBeta bool) *flat {
	f := &flat{map[string]map[string]bool{}, map[string]*mdp{}, map[string]*edp{}, map[string]*descriptor.ServiceDescriptorProto{}, map[string]string{}, map[string]string{}}
	pkgOf := map[string]string{}
	for _, x := range s.File {
		pkgOf[x.GetName()] = x.GetPackage()
	}
	for _, x := range s.File {
		p := x.GetPackage()
		if noBeta && isBeta(p) {
			continue
		}
		if f.pkgs[p] == nil {
			f.pkgs[p] = map[string]bool{}
		}
		for _, d := range x.Dependency {
			if pkgOf[d] != p {
				f.pkgs[p][pkgOf[d]] = true
			}
		}
		var msg func(up string, m *mdp)
		enum := func(up string, e *edp) {
			n := up + "." + e.GetName()
			f.enums[n], f.pkgOf[n] = e, p
			if up != p {
				f.up[n] = up
			}
		}
		msg = func(up string, m *mdp) {
			n := up + "." + m.GetName()
			f.msgs[n], f.pkgOf[n] = m, p
			if up != p {
				f.up[n] = up
			}
			for _, e := range m.EnumType {
				enum(n, e)
			}
			for _, y := range m.NestedType {
				msg(n, y)
			}
		}
		for _, m := range x.MessageType {
			msg(p, m)
		}
		for _, e := range x.EnumType {
			enum(p, e)
		}
		for _, v := range x.Service {
			n := p + "." + v.GetName()
			f.svcs[n], f.pkgOf[n] = v, p
		}
	}
	return f
}

func lowerType(f *descriptor.FieldDescriptorProto) string {
	return strings.ToLower(strings.TrimPrefix(f.GetType().String(), "TYPE_"))
}

func lowerLabel(f *descriptor.FieldDescriptorProto) string {
	return strings.ToLower(strings.TrimPrefix(f.GetLabel().String(), "LABEL_"))
}

// breakRef lists the messages expected for a change from old to new. A
// trailing * in a message stands for any last name.
func breakRef(old, new *fset, includeBeta, allowBetaDeps bool) (out []string) {
	a, b := flatten(old, !includeBeta), flatten(new, !includeBeta)
	add := func(format string, args ...interface{}) { out = append(out, fmt.Sprintf(format, args...)) }
	gone := func(n string) bool { // its surroundings are reported instead
		if b.pkgs[a.pkgOf[n]] == nil {
			return true
		}
		return a.up[n] != "" && b.msgs[a.up[n]] == nil
	}
	for p := range a.pkgs {
		if b.pkgs[p] == nil {
			add("Package %q was deleted.", p)
		}
	}
	if !includeBeta && !allowBetaDeps {
		for p, deps := range b.pkgs {
			for d := range deps {
				if isBeta(d) {
					add("Package %q depends on beta package %q which is not allowed.", p, d)
				}
			}
		}
	}
	for n, m := range a.msgs {
		if gone(n) {
			continue
		}
		m2 := b.msgs[n]
		if m2 == nil {
			add("Message %q was deleted.", n)
			continue
		}
		num := map[int32]*descriptor.FieldDescriptorProto{}
		for _, f := range m2.Field {
			num[f.GetNumber()] = f
		}
		one := func(m *mdp, f *descriptor.FieldDescriptorProto) string {
			if f.OneofIndex == nil {
				return ""
			}
			return m.OneofDecl[f.GetOneofIndex()].GetName()
		}
		newOnes := map[string]bool{}
		for _, o := range m2.OneofDecl {
			newOnes[o.GetName()] = true
		}
		for _, o := range m.OneofDecl {
			if !newOnes[o.GetName()] {
				add("Message oneof %q on message %q was deleted.", o.GetName(), n)
			}
		}
		for _, f := range m.Field {
			g, o := num[f.GetNumber()], one(m, f)
			if o != "" && newOnes[o] && (g == nil || one(m2, g) != o) {
				add("Message oneof %q on message %q had field \"%d\" removed.", o, n, f.GetNumber())
			}
			if g == nil {
				add("Message field \"%d\" on message %q was deleted.", f.GetNumber(), n)
				continue
			}
			ch := func(kind, x, y string) {
				if x != y {
					add("Message field \"%d\" on message %q changed "+kind+"from %q to %q.", f.GetNumber(), n, x, y)
				}
			}
			ch("", f.GetName(), g.GetName())
			ch("", lowerLabel(f), lowerLabel(g))
			if lowerType(f) != lowerType(g) {
				ch("type ", lowerType(f), lowerType(g))
			} else {
				ch("type ", strings.TrimPrefix(f.GetTypeName(), "."), strings.TrimPrefix(g.GetTypeName(), "."))
			}
			if o == "" && one(m2, g) != "" {
				add("Message field \"%d\" on message %q moved from outside any oneof to inside the oneof %q.", f.GetNumber(), n, one(m2, g))
			}
		}
	}
	for n, e := range a.enums {
		if gone(n) {
			continue
		}
		e2 := b.enums[n]
		if e2 == nil {
			add("Enum %q was deleted.", n)
			continue
		}
		names := func(e *edp) map[int32][]string {
			m := map[int32][]string{}
			for _, v := range e.Value {
				m[v.GetNumber()] = append(m[v.GetNumber()], v.GetName())
			}
			return m
		}
		m2 := names(e2)
		for num, ns := range names(e) {
			if m2[num] == nil {
				add("Enum value \"%d\" on enum %q was deleted.", num, n)
				continue
			}
			for _, x := range ns {
				if strIn(m2[num], x) {
					continue
				}
				to := m2[num][0]
				if len(m2[num]) > 1 {
					to = "*"
				}
				add("Enum value \"%d\" on enum %q changed from %q to %q.", num, n, x, to)
			}
		}
	}
	for n, s := range a.svcs {
		if gone(n) {
			continue
		}
		s2 := b.svcs[n]
		if s2 == nil {
			add("Service %q was deleted.", n)
			continue
		}
		ms := map[string]*descriptor.MethodDescriptorProto{}
		for _, m := range s2.Method {
			ms[m.GetName()] = m
		}
		for _, m := range s.Method {
			m2 := ms[m.GetName()]
			if m2 == nil {
				add("Service method %q on service %q was deleted.", m.GetName(), n)
				continue
			}
			if x, y := m.GetInputType()[1:], m2.GetInputType()[1:]; x != y {
				add("Service method %q on service %q changed request type from %q to %q.", m.GetName(), n, x, y)
			}
			if x, y := m.GetOutputType()[1:], m2.GetOutputType()[1:]; x != y {
				add("Service method %q on service %q changed response type from %q to %q.", m.GetName(), n, x, y)
			}
			str := func(side string, x, y bool) {
				if x && !y {
					add("Service method %q on service %q changed from %s streaming to not %s streaming.", m.GetName(), n, side, side)
				} else if y && !x {
					add("Service method %q on service %q changed from not %s streaming to %s streaming.", m.GetName(), n, side, side)
				}
			}
			str("client", m.GetClientStreaming(), m2.GetClientStreaming())
			str("server", m.GetServerStreaming(), m2.GetServerStreaming())
		}
	}
	return
}

var quoted = regexp.MustCompile(`"([^"]*)"`)
var breakWords = regexp.MustCompile(`\b(request|response|client|server|not|beta|removed|moved|deleted)\b`)

// breakKey reduces a message to what the property speaks of.
func breakKey(m string) string {
	kind := strings.TrimSpace(strings.SplitN(m, `"`, 2)[0])
	var toks []string
	for _, q := range quoted.FindAllStringSubmatch(m, -1) {
		toks = append(toks, q[1])
	}
	words := breakWords.FindAllString(quoted.ReplaceAllString(m, ""), -1)
	return kind + " | " + strings.Join(toks, ", ") + " | " + strings.Join(words, " ")
}

// breakKeys compares expected and printed messages.
func diffBreaks(want, got []string) string {
	var w, g []string
	for _, m := range got {
		g = append(g, breakKey(m))
	}
	used := make([]bool, len(g))
	for _, m := range want {
		k := breakKey(m)
		if strings.Contains(m, `"*"`) {
			pre := strings.SplitN(k, "*", 2)[0]
			for i, x := range g {
				if !used[i] && strings.HasPrefix(x, pre) {
					used[i], k = true, x
					break
				}
			}
		}
		w = append(w, k)
	}
	return core.DiffLists(core.Sorted(w), core.Sorted(g))
}

// extraBreaks lists the printed messages that are not expected.
func extraBreaks(want, got []string) string {
	n := map[string]int{}
	var wild []string
	for _, m := range want {
		k := breakKey(m)
		if strings.Contains(m, `"*"`) {
			wild = append(wild, strings.SplitN(k, "*", 2)[0])
			continue
		}
		n[k]++
	}
	out := ""
next:
	for _, m := range got {
		k := breakKey(m)
		if n[k] > 0 {
			n[k]--
			continue
		}
		for i, w := range wild {
			if strings.HasPrefix(k, w) {
				wild = append(wild[:i:i], wild[i+1:]...)
				continue next
			}
		}
		out += "not expected: " + m + "\n"
	}
	return out
}

// running ---------------------------------------------------------------

// protocSet compiles files with the real protoc.
func protocSet(cs *core.Case, dir string, files ...string) (*fset, string) {
	tmp := filepath.Join(cs.Tmp, "pset")
	r := cs.Exec(core.Opt{Dir: dir, Quiet: true}, core.RealProtoc, append([]string{"-I", ".", "-I", core.RealWKT, "--include_imports", "-o", tmp}, files...)...)
	if r.Code != 0 {
		return nil, r.Err
	}
	s := &fset{}
	if err := proto.Unmarshal([]byte(readAbs(tmp)), s); err != nil {
		cs.Fatal("%v", err)
	}
	return s, ""
}

func writeBin(cs *core.Case, name string, s *fset) string {
	b, err := proto.Marshal(s)
	if err != nil {
		cs.Fatal("%v", err)
	}
	p := filepath.Join(cs.Tmp, name)
	if err := ioutil.WriteFile(p, b, 0644); err != nil {
		cs.Fatal("%v", err)
	}
	return p
}

// breakRun runs break check and returns its messages.
func breakRun(cs *core.Case, opt core.Opt, args ...string) (msgs []string, ok bool) {
	res := cs.Run(opt, append([]string{"break", "check"}, args...)...)
	msgs = core.SplitLines(res.Out)
	cs.C.Count("comparisons", 1)
	if res.Err != "" || (res.Code == 0) != (len(msgs) == 0) || res.Code != 0 && res.Code != 255 {
		cs.Fail("break check %v: exit %d with %d messages\n%s%s", args, res.Code, len(msgs), res.Out, res.Err)
		return nil, false
	}
	return msgs, true
}

func breakCfg(cs *core.Case) pgen.Cfg {
	r := cs.R
	cfg := fullCfg(cs)
	cfg.Pkgs, cfg.FilesPerPkg, cfg.Defs, cfg.Depth = 1+r.Intn(3), 1+r.Intn(3), 2+r.Intn(4), 1+r.Intn(3)
	cfg.NoPkg, cfg.Services, cfg.Aliases = 0, true, true
	cfg.Beta = []int{0, 30, 60}[r.Intn(3)]
	cfg.Comments, cfg.Inline = 20, 5
	cfg.Shared = []int{0, 40, 70}[r.Intn(3)]
	if chance(r, 35) {
		// package names that look like beta packages and are none, and others that do not and are
		l := []string{"a.v1beta1.v2", "alphabeta.v1", "a.b.v1beta1", "a.b.v1beta1.c", "vbeta1.a.v1", "a.v1beta0", "a.v0beta1", "a.v1beta", "a.v1beta1x", "v1beta2.v1beta3", "a.v10beta12", "a.beta1", "a.v1Beta1", "a.b.v1", "a.b.v2"}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		cfg.PkgNames = l[:1+r.Intn(cfg.Pkgs)]
	}
	return cfg
}

func breakConf(r *rand.Rand) (conf M, beta, deps bool) {
	beta, deps = chance(r, 30), chance(r, 40)
	b := M{}
	if beta || chance(r, 20) {
		b["include_beta"] = beta
	}
	if deps || chance(r, 20) {
		b["allow_beta_deps"] = deps
	}
	conf = M{"protoc": M{"allow_unused_imports": true}}
	if len(b) > 0 {
		conf["break"] = b
	}
	return
}

// breakCase compares a tree with a mutation of its own descriptor set.
func breakCase(cs *core.Case, compatible bool) {
	breakCaseWith(cs, compatible, diffBreaks)
}

func breakCaseWith(cs *core.Case, compatible bool, diff func(want, got []string) string) {
	c, r := cs.C, cs.R
	s := pgen.Generate(r, breakCfg(cs))
	writeSet(cs, s, ".")
	conf, beta, deps := breakConf(r)
	var files []string
	for _, f := range s.Files {
		files = append(files, f.Path)
	}
	if s.OptFile {
		if chance(r, 50) {
			conf["excludes"] = L{path.Dir(pgen.OptsPath)}
		} else {
			files = append(files, pgen.OptsPath)
		}
	}
	cs.Write("prototool.yaml", toYAML(conf, 0))
	new, e := protocSet(cs, cs.W, files...)
	if e != "" {
		c.Count("sets protoc rejects", 1)
		return
	}
	old := proto.Clone(new).(*fset)
	m := &mutator{r: r, s: old}
	for i := 1 + r.Intn([]int{1, 3, 12}[r.Intn(3)]); i > 0; i-- {
		m.mutate(compatible)
	}
	for _, x := range m.log {
		c.Count("mutation: "+strings.SplitN(x, ":", 2)[0], 1)
		cs.Note("mutation: %s", x)
	}
	want := breakRef(old, new, beta, deps)
	if compatible {
		var w []string
		for _, x := range want {
			if !strings.Contains(x, "which is not allowed") {
				cs.Fatal("a compatible mutation is none: %s", x)
			}
			w = append(w, x)
		}
		want = w
	}
	bin := writeBin(cs, "old.bin", old)
	args := []string{"--descriptor-set-path", bin}
	if chance(r, 50) {
		args = append(args, ".")
	}
	got, ok := breakRun(cs, core.Opt{}, args...)
	if !ok {
		return
	}
	c.Count("messages", int64(len(got)))
	if d := diff(want, got); d != "" {
		cs.Fail("messages differ:\n%s", d)
		return
	}
	for _, x := range want {
		c.Count("expected: "+quoted.ReplaceAllString(strings.SplitN(x, " from", 2)[0], "_"), 1)
	}
	if (len(want) > 0) != compatible {
		cs.Sig("%v %v", core.Sorted(want), m.log)
	}
	if compatible && len(want) > 0 {
		cs.Sig("%v", m.log)
	}
}

// mutation --------------------------------------------------------------

type mutator struct {
	r   *rand.Rand
	s   *fset
	n   int
	log []string
}

func (m *mutator) id() string { m.n++; return itoa(m.n) }

func (m *mutator) own() (fs []*fdp) {
	for _, f := range m.s.File {
		if !strings.HasPrefix(f.GetName(), "google/") && f.GetName() != pgen.OptsPath {
			fs = append(fs, f)
		}
	}
	return
}

func (m *mutator) file() *fdp {
	fs := m.own()
	return fs[m.r.Intn(len(fs))]
}

// allMsgs lists the messages at any depth, without map entries.
func allMsgs(fs []*fdp) (out []*mdp) {
	var rec func(x *mdp)
	rec = func(x *mdp) {
		if x.GetOptions().GetMapEntry() {
			return
		}
		out = append(out, x)
		for _, y := range x.NestedType {
			rec(y)
		}
	}
	for _, f := range fs {
		for _, x := range f.MessageType {
			rec(x)
		}
	}
	return
}

func allEnums(fs []*fdp) (out []*edp) {
	for _, f := range fs {
		out = append(out, f.EnumType...)
	}
	for _, x := range allMsgs(fs) {
		out = append(out, x.EnumType...)
	}
	return
}

func (m *mutator) msg() *mdp {
	l := allMsgs(m.own())
	if len(l) == 0 {
		return nil
	}
	return l[m.r.Intn(len(l))]
}

func sp(s string) *string { return &s }
func ip(i int32) *int32   { return &i }

// typeName picks a type of the wanted kind.
func (m *mutator) typeName(enum bool) string {
	f := flatten(m.s, false)
	var l []string
	if enum {
		for n := range f.enums {
			l = append(l, n)
		}
	} else {
		for n, x := range f.msgs {
			if !x.GetOptions().GetMapEntry() {
				l = append(l, n)
			}
		}
	}
	sort.Strings(l)
	if len(l) == 0 {
		return ".none.N"
	}
	return "." + l[m.r.Intn(len(l))]
}

func (m *mutator) newField(x *mdp) *descriptor.FieldDescriptorProto {
	n := int32(1000)
	for _, f := range x.Field {
		if f.GetNumber() >= n {
			n = f.GetNumber() + 1
		}
	}
	f := &descriptor.FieldDescriptorProto{Name: sp("extra_" + m.id()), Number: &n}
	l := descriptor.FieldDescriptorProto_Label([]int32{1, 1, 3, 2}[m.r.Intn(4)])
	f.Label = &l
	m.setType(f)
	return f
}

func (m *mutator) setType(f *descriptor.FieldDescriptorProto) {
	if f.GetTypeName() != "" && chance(m.r, 50) {
		// another type with the same short name
		var l []string
		fl := flatten(m.s, false)
		short := f.GetTypeName()[strings.LastIndex(f.GetTypeName(), "."):]
		for n := range fl.enums {
			if lowerType(f) == "enum" && strings.HasSuffix("."+n, short) && "."+n != f.GetTypeName() {
				l = append(l, "."+n)
			}
		}
		for n, x := range fl.msgs {
			if lowerType(f) != "enum" && !x.GetOptions().GetMapEntry() && strings.HasSuffix("."+n, short) && "."+n != f.GetTypeName() {
				l = append(l, "."+n)
			}
		}
		if sort.Strings(l); len(l) > 0 {
			f.TypeName = sp(l[m.r.Intn(len(l))])
			return
		}
	}
	t := descriptor.FieldDescriptorProto_Type(1 + m.r.Intn(18))
	f.Type, f.TypeName = &t, nil
	switch lowerType(f) {
	case "message", "group":
		f.TypeName = sp(m.typeName(false))
	case "enum":
		f.TypeName = sp(m.typeName(true))
	}
}

func (m *mutator) newEnum() *edp {
	return &edp{Name: sp("ExtraE" + m.id()), Value: []*descriptor.EnumValueDescriptorProto{{Name: sp("A"), Number: ip(0)}}}
}

func (m *mutator) newMsg() *mdp {
	x := &mdp{Name: sp("ExtraM" + m.id())}
	for i := m.r.Intn(3); i > 0; i-- {
		x.Field = append(x.Field, m.newField(x))
	}
	if chance(m.r, 30) {
		x.EnumType = append(x.EnumType, m.newEnum())
	}
	if chance(m.r, 30) {
		x.NestedType = append(x.NestedType, m.newMsg())
	}
	return x
}

// dropField keeps oneof indices right: only its own entry goes.
func dropField(x *mdp, i int) {
	x.Field = append(x.Field[:i:i], x.Field[i+1:]...)
}

// mutate applies one random change to the old state. Compatible changes are
// those after which the new state still has everything the old one has.
func (m *mutator) mutate(compatible bool) {
	r := m.r
	say := func(f string, a ...interface{}) { m.log = append(m.log, fmt.Sprintf(f, a...)) }
	for try := 0; try < 40; try++ {
		f := m.file()
		x := m.msg()
		k := r.Intn(44)
		if compatible {
			k = r.Intn(18)
		}
		switch k {
		// compatible: the old state has less, or the same in another place
		case 0: // a message of the new state did not exist
			if len(f.MessageType) > 0 {
				i := r.Intn(len(f.MessageType))
				say("message added: %s", f.MessageType[i].GetName())
				f.MessageType = append(f.MessageType[:i:i], f.MessageType[i+1:]...)
				return
			}
		case 1:
			if len(f.EnumType) > 0 {
				i := r.Intn(len(f.EnumType))
				say("enum added: %s", f.EnumType[i].GetName())
				f.EnumType = append(f.EnumType[:i:i], f.EnumType[i+1:]...)
				return
			}
		case 2:
			if len(f.Service) > 0 {
				i := r.Intn(len(f.Service))
				say("service added: %s", f.Service[i].GetName())
				f.Service = append(f.Service[:i:i], f.Service[i+1:]...)
				return
			}
		case 3:
			if x != nil && len(x.Field) > 0 {
				i := r.Intn(len(x.Field))
				say("field added: %s.%s", x.GetName(), x.Field[i].GetName())
				dropField(x, i)
				return
			}
		case 4:
			if l := allEnums(m.own()); len(l) > 0 {
				e := l[r.Intn(len(l))]
				if len(e.Value) > 1 {
					i := r.Intn(len(e.Value))
					say("enum value added: %s.%s", e.GetName(), e.Value[i].GetName())
					e.Value = append(e.Value[:i:i], e.Value[i+1:]...)
					return
				}
			}
		case 5:
			if len(f.Service) > 0 {
				v := f.Service[r.Intn(len(f.Service))]
				if len(v.Method) > 0 {
					i := r.Intn(len(v.Method))
					say("method added: %s.%s", v.GetName(), v.Method[i].GetName())
					v.Method = append(v.Method[:i:i], v.Method[i+1:]...)
					return
				}
			}
		case 6:
			if x != nil && len(x.NestedType) > 0 {
				i := r.Intn(len(x.NestedType))
				say("nested message added: %s.%s", x.GetName(), x.NestedType[i].GetName())
				x.NestedType = append(x.NestedType[:i:i], x.NestedType[i+1:]...)
				return
			}
		case 7:
			if x != nil && len(x.EnumType) > 0 {
				i := r.Intn(len(x.EnumType))
				say("nested enum added: %s.%s", x.GetName(), x.EnumType[i].GetName())
				x.EnumType = append(x.EnumType[:i:i], x.EnumType[i+1:]...)
				return
			}
		case 8:
			say("definitions reordered: ")
			for _, f := range m.s.File {
				r.Shuffle(len(f.MessageType), func(i, j int) { f.MessageType[i], f.MessageType[j] = f.MessageType[j], f.MessageType[i] })
				r.Shuffle(len(f.EnumType), func(i, j int) { f.EnumType[i], f.EnumType[j] = f.EnumType[j], f.EnumType[i] })
				r.Shuffle(len(f.Service), func(i, j int) { f.Service[i], f.Service[j] = f.Service[j], f.Service[i] })
				r.Shuffle(len(f.Dependency), func(i, j int) { f.Dependency[i], f.Dependency[j] = f.Dependency[j], f.Dependency[i] })
				for _, v := range f.Service {
					r.Shuffle(len(v.Method), func(i, j int) { v.Method[i], v.Method[j] = v.Method[j], v.Method[i] })
				}
			}
			for _, x := range allMsgs(m.s.File) {
				r.Shuffle(len(x.Field), func(i, j int) { x.Field[i], x.Field[j] = x.Field[j], x.Field[i] })
				r.Shuffle(len(x.NestedType), func(i, j int) { x.NestedType[i], x.NestedType[j] = x.NestedType[j], x.NestedType[i] })
			}
			for _, e := range allEnums(m.s.File) {
				r.Shuffle(len(e.Value), func(i, j int) { e.Value[i], e.Value[j] = e.Value[j], e.Value[i] })
			}
			return
		case 9:
			say("files reordered: ")
			r.Shuffle(len(m.s.File), func(i, j int) { m.s.File[i], m.s.File[j] = m.s.File[j], m.s.File[i] })
			return
		case 10, 11: // between files of one package
			var same []*fdp
			for _, g := range m.own() {
				if g != f && g.GetPackage() == f.GetPackage() {
					same = append(same, g)
				}
			}
			var g *fdp
			if len(same) == 0 || chance(r, 30) {
				g = &fdp{Name: sp("moved_" + m.id() + ".proto"), Package: f.Package, Syntax: f.Syntax}
				m.s.File = append(m.s.File, g)
			} else {
				g = same[r.Intn(len(same))]
			}
			say("definitions moved: %s -> %s", f.GetName(), g.GetName())
			if k == 10 {
				g.MessageType, f.MessageType = append(g.MessageType, f.MessageType...), nil
				return
			}
			g.EnumType, f.EnumType = append(g.EnumType, f.EnumType...), nil
			g.Service, f.Service = append(g.Service, f.Service...), nil
			return
		case 12:
			if x != nil && len(x.Field) > 0 {
				y := x.Field[r.Intn(len(x.Field))]
				say("field settings: %s.%s", x.GetName(), y.GetName())
				switch r.Intn(4) {
				case 0:
					y.Options = nil
				case 1:
					y.Options = &descriptor.FieldOptions{Deprecated: proto.Bool(true)}
				case 2:
					y.DefaultValue = sp("1")
				default:
					y.JsonName = sp("other" + m.id())
				}
				return
			}
		case 13:
			say("file settings: %s", f.GetName())
			f.Options = &descriptor.FileOptions{JavaPackage: sp("x.y"), GoPackage: sp("z" + m.id())}
			if chance(r, 50) {
				f.Syntax = sp(pick(r, "proto2", "proto3"))
			}
			if chance(r, 30) {
				f.Extension = nil
			}
			return
		case 14:
			if x != nil {
				say("message settings: %s", x.GetName())
				x.ReservedName = append(x.ReservedName, "res_"+m.id())
				x.ReservedRange = nil
				x.ExtensionRange = append(x.ExtensionRange, &descriptor.DescriptorProto_ExtensionRange{Start: ip(90000), End: ip(90010)})
				x.Extension = nil
				return
			}
		case 15:
			if len(f.Service) > 0 {
				v := f.Service[r.Intn(len(f.Service))]
				say("service settings: %s", v.GetName())
				v.Options = &descriptor.ServiceOptions{Deprecated: proto.Bool(true)}
				for _, y := range v.Method {
					y.Options = &descriptor.MethodOptions{Deprecated: proto.Bool(true)}
				}
				return
			}
		case 16: // the whole package is new, nothing else depended on it
			p := f.GetPackage()
			used := map[string]bool{}
			for _, g := range m.s.File {
				if g.GetPackage() != p {
					for _, d := range g.Dependency {
						used[d] = true
					}
				}
			}
			var keep []*fdp
			ok := true
			for _, g := range m.s.File {
				if g.GetPackage() != p {
					keep = append(keep, g)
				} else if used[g.GetName()] {
					ok = false
				}
			}
			if ok && len(keep) > 0 {
				n := 0
				for _, g := range keep {
					if !strings.HasPrefix(g.GetName(), "google/") && g.GetName() != pgen.OptsPath {
						n++
					}
				}
				if n > 0 {
					say("package added: %s", p)
					m.s.File = keep
					return
				}
			}
		case 17:
			if x != nil && len(x.OneofDecl) > 0 {
				// a oneof as a whole is new
				i := int32(r.Intn(len(x.OneofDecl)))
				say("oneof added: %s.%s", x.GetName(), x.OneofDecl[i].GetName())
				x.OneofDecl = append(x.OneofDecl[:i:i], x.OneofDecl[i+1:]...)
				var keep []*descriptor.FieldDescriptorProto
				for _, y := range x.Field {
					if y.OneofIndex != nil && *y.OneofIndex == i {
						continue
					}
					if y.OneofIndex != nil && *y.OneofIndex > i {
						*y.OneofIndex--
					}
					keep = append(keep, y)
				}
				x.Field = keep
				return
			}
		// breaking
		case 18:
			y := m.newMsg()
			say("message deleted: %s", y.GetName())
			if x != nil && chance(r, 50) {
				x.NestedType = append(x.NestedType, y)
			} else {
				f.MessageType = append(f.MessageType, y)
			}
			return
		case 19:
			y := m.newEnum()
			say("enum deleted: %s", y.GetName())
			if x != nil && chance(r, 50) {
				x.EnumType = append(x.EnumType, y)
			} else {
				f.EnumType = append(f.EnumType, y)
			}
			return
		case 20:
			v := &descriptor.ServiceDescriptorProto{Name: sp("ExtraS" + m.id())}
			if chance(r, 50) {
				v.Method = append(v.Method, &descriptor.MethodDescriptorProto{Name: sp("M"), InputType: sp(m.typeName(false)), OutputType: sp(m.typeName(false))})
			}
			say("service deleted: %s", v.GetName())
			f.Service = append(f.Service, v)
			return
		case 21:
			g := &fdp{Name: sp("gone_" + m.id() + ".proto"), Package: sp(pick(r, "gone", "gone.v1", "gone.v1beta1", "gone.sub.v2beta3", "gone.v1beta0", f.GetPackage()+".sub", f.GetPackage()+"x") + pick(r, "", "", ".v1", ".v1beta2")), MessageType: []*mdp{m.newMsg()}}
			if chance(r, 50) {
				g.Dependency = []string{f.GetName()}
			}
			say("package deleted: %s", g.GetPackage())
			m.s.File = append(m.s.File, g)
			return
		case 22:
			say("package renamed: %s", f.GetPackage())
			p, q := f.GetPackage(), f.GetPackage()+pick(r, "old", ".v1", ".v1beta1", ".x")
			for _, g := range m.s.File {
				if g.GetPackage() == p {
					g.Package = sp(q)
				}
			}
			return
		case 23, 24:
			if x != nil {
				y := m.newField(x)
				if len(x.OneofDecl) > 0 && chance(r, 50) {
					y.OneofIndex = ip(int32(r.Intn(len(x.OneofDecl))))
				}
				say("field deleted: %s.%s", x.GetName(), y.GetName())
				x.Field = append(x.Field, y)
				return
			}
		case 25:
			if x != nil && len(x.Field) > 0 {
				y := x.Field[r.Intn(len(x.Field))]
				say("field renamed: %s.%s", x.GetName(), y.GetName())
				y.Name = sp("old_" + y.GetName())
				return
			}
		case 26, 27, 28:
			if x != nil && len(x.Field) > 0 {
				y := x.Field[r.Intn(len(x.Field))]
				say("field retyped: %s.%s", x.GetName(), y.GetName())
				if y.GetTypeName() != "" && chance(r, 50) {
					y.TypeName = sp(m.typeName(lowerType(y) == "enum"))
				} else {
					m.setType(y)
				}
				return
			}
		case 29:
			if x != nil && len(x.Field) > 0 {
				y := x.Field[r.Intn(len(x.Field))]
				say("field relabelled: %s.%s", x.GetName(), y.GetName())
				l := descriptor.FieldDescriptorProto_Label(1 + r.Intn(3))
				y.Label = &l
				return
			}
		case 30:
			if x != nil && len(x.Field) > 0 {
				y := x.Field[r.Intn(len(x.Field))]
				say("field renumbered: %s.%s", x.GetName(), y.GetName())
				y.Number = m.newField(x).Number
				return
			}
		case 31:
			if x != nil && len(x.Field) > 1 { // swap two numbers
				a, b := x.Field[0], x.Field[len(x.Field)-1]
				say("field numbers swapped: %s.%s %s", x.GetName(), a.GetName(), b.GetName())
				a.Number, b.Number = b.Number, a.Number
				return
			}
		case 32, 33:
			if x != nil && len(x.Field) > 0 {
				y := x.Field[r.Intn(len(x.Field))]
				if y.OneofIndex != nil {
					say("field moved out of a oneof (into another place): %s.%s", x.GetName(), y.GetName())
					y.OneofIndex = nil
					if chance(r, 40) && len(x.OneofDecl) > 0 {
						y.OneofIndex = ip(int32(r.Intn(len(x.OneofDecl))))
					}
					return
				}
				say("field moved into a oneof: %s.%s", x.GetName(), y.GetName())
				if len(x.OneofDecl) == 0 || chance(r, 30) {
					x.OneofDecl = append(x.OneofDecl, &descriptor.OneofDescriptorProto{Name: sp("oldone_" + m.id())})
				}
				y.OneofIndex = ip(int32(r.Intn(len(x.OneofDecl))))
				return
			}
		case 34:
			if x != nil && len(x.OneofDecl) > 0 {
				o := x.OneofDecl[r.Intn(len(x.OneofDecl))]
				say("oneof renamed: %s.%s", x.GetName(), o.GetName())
				o.Name = sp("old_" + o.GetName())
				return
			}
		case 35:
			if l := allEnums(m.own()); len(l) > 0 {
				e := l[r.Intn(len(l))]
				n := int32(500 + r.Intn(1000))
				if chance(r, 30) {
					n = -n
				}
				say("enum value deleted: %s", e.GetName())
				e.Value = append(e.Value, &descriptor.EnumValueDescriptorProto{Name: sp("EXTRA_" + m.id()), Number: &n})
				return
			}
		case 36:
			if l := allEnums(m.own()); len(l) > 0 {
				e := l[r.Intn(len(l))]
				v := e.Value[r.Intn(len(e.Value))]
				say("enum value renamed: %s.%s", e.GetName(), v.GetName())
				v.Name = sp("OLD_" + v.GetName())
				return
			}
		case 37: // an alias was deleted
			if l := allEnums(m.own()); len(l) > 0 {
				e := l[r.Intn(len(l))]
				v := e.Value[r.Intn(len(e.Value))]
				say("enum alias deleted: %s.%s", e.GetName(), v.GetName())
				i := r.Intn(len(e.Value) + 1)
				e.Value = append(e.Value[:i:i], append([]*descriptor.EnumValueDescriptorProto{{Name: sp("ALIAS_" + m.id()), Number: ip(v.GetNumber())}}, e.Value[i:]...)...)
				return
			}
		case 38:
			if l := allEnums(m.own()); len(l) > 0 {
				e := l[r.Intn(len(l))]
				v := e.Value[r.Intn(len(e.Value))]
				say("enum value renumbered: %s.%s", e.GetName(), v.GetName())
				v.Number = ip(v.GetNumber() + 7000)
				return
			}
		case 39, 40:
			if len(f.Service) > 0 {
				v := f.Service[r.Intn(len(f.Service))]
				if len(v.Method) > 0 {
					y := v.Method[r.Intn(len(v.Method))]
					say("method changed: %s.%s", v.GetName(), y.GetName())
					switch r.Intn(5) {
					case 0:
						y.InputType = sp(m.typeName(false))
					case 1:
						y.OutputType = sp(m.typeName(false))
					case 2:
						y.ClientStreaming = proto.Bool(!y.GetClientStreaming())
					case 3:
						y.ServerStreaming = proto.Bool(!y.GetServerStreaming())
					case 4:
						y.Name = sp("Old" + y.GetName())
					}
					return
				}
			}
		case 41:
			if len(f.Service) > 0 {
				v := f.Service[r.Intn(len(f.Service))]
				say("method deleted: %s", v.GetName())
				v.Method = append(v.Method, &descriptor.MethodDescriptorProto{Name: sp("Extra" + m.id()), InputType: sp(m.typeName(false)), OutputType: sp(m.typeName(false))})
				return
			}
		case 42:
			if x != nil {
				say("definition renamed: %s", x.GetName())
				x.Name = sp("Old" + x.GetName())
				return
			}
		case 43:
			if l := allEnums(m.own()); len(l) > 0 && chance(r, 50) {
				e := l[r.Intn(len(l))]
				say("definition renamed: %s", e.GetName())
				e.Name = sp("Old" + e.GetName())
				return
			}
			if len(f.Service) > 0 {
				v := f.Service[r.Intn(len(f.Service))]
				say("definition renamed: %s", v.GetName())
				v.Name = sp("Old" + v.GetName())
				return
			}
		}
	}
}

// c09Single makes one breaking change in a tree that has every construct
// nested deeply, so that a kind that is lost at some depth or position is
// noticed on its own.
func c09Single(cs *core.Case) {
	c09SingleWith(cs, diffBreaks)
}

func c09SingleWith(cs *core.Case, diff func(want, got []string) string) {
	c, r := cs.C, cs.R
	conf, beta, deps := breakConf(r)
	cs.Write("prototool.yaml", toYAML(conf, 0))
	pkg := pick(r, "a.v1", "a", "a.b.v1beta1", "a.v2")
	depth := r.Intn(4)
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = \"proto2\";\n\npackage %s;\n\n", pkg)
	body := "optional string s = 1;\nrepeated int32 n = 2;\nrequired Top t = 3;\noneof one {\nint64 o1 = 4;\nTop o2 = 5;\n}\noneof two {\nbool o3 = 6;\n}\nmap<string, int32> m = 7;\noptional E e = 8;\noptional group Grp = 9 {\noptional int32 g = 1;\n}\nenum E {\noption allow_alias = true;\nE_A = 0;\nE_B = 1;\nE_C = 1;\nE_D = -2;\n}\nmessage In {\noptional fixed32 f = 1;\n}\n"
	for i := 0; i < depth; i++ {
		fmt.Fprintf(&b, "message L%d {\n", i)
	}
	b.WriteString("message Leaf {\n" + body + "}\n" + strings.Repeat("}\n", depth))
	b.WriteString("message Top {}\nenum TE {\nTE_A = 0;\nTE_B = 1;\n}\nservice S {\nrpc A(Top) returns (Top);\nrpc B(stream Top) returns (Top);\nrpc C(Top) returns (stream Top);\nrpc D(stream Top) returns (stream Top);\n}\n")
	cs.Write("a/a.proto", b.String())
	cs.Write("a/b.proto", fmt.Sprintf("syntax = \"proto3\";\n\npackage %s;\n\nmessage Other {}\n", pkg))
	new, e := protocSet(cs, cs.W, "a/a.proto", "a/b.proto")
	if e != "" {
		cs.Fatal("protoc: %s", e)
	}
	old := proto.Clone(new).(*fset)
	m := &mutator{r: r, s: old}
	for i := 0; i < 60; i++ {
		m.mutate(false)
		if w := breakRef(old, new, true, true); len(w) > 0 {
			break
		}
	}
	want := breakRef(old, new, beta, deps)
	got, ok := breakRun(cs, core.Opt{}, "--descriptor-set-path", writeBin(cs, "old.bin", old), "a")
	if !ok {
		return
	}
	cs.Note("mutation: %v, expected %v", m.log, want)
	if d := diff(want, got); d != "" {
		cs.Fail("messages differ after %v:\n%s", m.log, d)
		return
	}
	for _, x := range want {
		c.Count("single at depth "+itoa(depth)+": "+quoted.ReplaceAllString(strings.SplitN(x, " from", 2)[0], "_"), 1)
	}
	if len(want) > 0 {
		cs.Sig("%v", core.Sorted(want))
	}
}

var c09Types = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "TE", "TE2", "Top", "Top2", "group", "map<string, int32>", "map<int32, string>", "map<int32, Top>", "map<int32, TE>"}

const c09Contexts = 6

// c09TypeMatrix changes fields of one type to fields of every type, in
// fields of every label.
func c09TypeMatrix(cs *core.Case) {
	c := cs.C
	from, ctx := c09Types[cs.I%len(c09Types)], cs.I/len(c09Types)
	conf, beta, deps := breakConf(cs.R)
	if ctx == 3 {
		beta = true
		conf["break"] = M{"include_beta": true, "allow_beta_deps": deps}
	}
	label := []string{"optional", "repeated", "required", "optional", "oneof", "proto3"}[ctx]
	pkg := []string{"a.v1", "a", "a.v1", "a.v1beta1", "a.b", "a.v1"}[ctx]
	file := func(typ func(i int) string) *fset {
		var b strings.Builder
		syntax := "proto2"
		if label == "proto3" {
			syntax = "proto3"
		}
		fmt.Fprintf(&b, "syntax = %q;\n\npackage %s;\n\nmessage Out {\nmessage M {\n", syntax, pkg)
		one := ""
		for i := range c09Types {
			t := typ(i)
			f := ""
			switch {
			case strings.HasPrefix(t, "map"):
				f = fmt.Sprintf("%s f%d = %d;\n", t, i, i+1)
			case t == "group" && label == "proto3":
				f = fmt.Sprintf("repeated Top f%d = %d;\n", i, i+1)
			case label == "proto3":
				f = fmt.Sprintf("%s f%d = %d;\n", t, i, i+1)
			case t == "group" && label == "oneof":
				one += fmt.Sprintf("group F%d = %d {}\n", i, i+1)
			case t == "group":
				f = fmt.Sprintf("%s group F%d = %d {}\n", label, i, i+1)
			case label == "oneof":
				one += fmt.Sprintf("%s f%d = %d;\n", t, i, i+1)
			default:
				f = fmt.Sprintf("%s %s f%d = %d;\n", label, t, i, i+1)
			}
			b.WriteString(f)
		}
		if one != "" {
			b.WriteString("oneof one {\nint32 any = 900;\n" + one + "}\n")
		}
		fmt.Fprintf(&b, "}\n}\nmessage Top {}\nmessage Top2 {}\nenum TE {\nTE_A = 0;\n}\nenum TE2 {\nTE2_A = 0;\n}\n")
		cs.Write("a/a.proto", b.String())
		s, e := protocSet(cs, cs.W, "a/a.proto")
		if e != "" {
			cs.Fatal("protoc: %s", e)
		}
		return s
	}
	old := file(func(int) string { return from })
	new := file(func(i int) string { return c09Types[i] })
	cs.Write("prototool.yaml", toYAML(conf, 0))
	want := breakRef(old, new, beta, deps)
	got, ok := breakRun(cs, core.Opt{}, "--descriptor-set-path", writeBin(cs, "old.bin", old), "a")
	if !ok {
		return
	}
	if d := diffBreaks(want, got); d != "" {
		cs.Fail("messages differ after changing %s %s:\n%s", label, from, d)
		return
	}
	c.Count("type changes", int64(len(c09Types)))
	cs.Sig("%s %s", from, label)
}
