package props

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C13", Level: "exploration", Run: runC13,
		Rule:  "random directory trees and configurations (includes, plugins of every type, flags, outputs inside and outside the tree, file suffixes, plugin paths, Go import path and extra modifiers), given as yaml, json or --config-data; every protoc start is logged by a stand-in and its argument vector compared with the one a reference derives from the configuration. Non-trivial: at least two expected invocations; distinct by the expected argument vectors.",
		Notes: []string{"the stand-in protoc accepts everything", "include paths are passed sorted and without duplicates, as the configuration documents them as a set; the configuration directory is left out exactly when another include path contains the directory compiled"}})
	core.Register(&core.Prop{ID: "C14", Level: "exploration", Run: runC14,
		Rule:  "the trees and configurations of C13 plus trees that do not compile: the lines of --dry-run are compared with the argument vectors of the processes the same command then starts (logged), the file system is compared before and after the dry run, and the stand-in's log must stay empty during it. Non-trivial: at least two commands; distinct by the command lines.",
		Notes: []string{"protoc is installed (a dry run may otherwise download it into the cache)"}})
}

var goWKT = map[string]string{
	"any": "github.com/golang/protobuf/ptypes/any", "api": "google.golang.org/genproto/protobuf/api",
	"compiler/plugin": "github.com/golang/protobuf/protoc-gen-go/plugin", "descriptor": "github.com/golang/protobuf/protoc-gen-go/descriptor",
	"duration": "github.com/golang/protobuf/ptypes/duration", "empty": "github.com/golang/protobuf/ptypes/empty",
	"field_mask": "google.golang.org/genproto/protobuf/field_mask", "source_context": "google.golang.org/genproto/protobuf/source_context",
	"struct": "github.com/golang/protobuf/ptypes/struct", "timestamp": "github.com/golang/protobuf/ptypes/timestamp",
	"type": "google.golang.org/genproto/protobuf/ptype", "wrappers": "github.com/golang/protobuf/ptypes/wrappers",
}

var gogoWKT = map[string]string{
	"any": "github.com/gogo/protobuf/types", "api": "google.golang.org/genproto/protobuf/api",
	"compiler/plugin": "github.com/gogo/protobuf/protoc-gen-gogo/plugin", "descriptor": "github.com/gogo/protobuf/protoc-gen-gogo/descriptor",
	"duration": "github.com/gogo/protobuf/types", "empty": "github.com/gogo/protobuf/types",
	"field_mask": "github.com/gogo/protobuf/types", "source_context": "google.golang.org/genproto/protobuf/source_context",
	"struct": "github.com/gogo/protobuf/types", "timestamp": "github.com/gogo/protobuf/types",
	"type": "google.golang.org/genproto/protobuf/ptype", "wrappers": "github.com/gogo/protobuf/types",
}

type proj struct {
	root     string // configuration directory
	hasConf  bool
	useData  bool
	data     string
	cwd      string
	dirs     []string
	files    []string
	includes []string // absolute, sorted, unique
	plugins  []*projPlugin
	imp      string
	extra    map[string]string
	argDir   string
	arg      []string
	traps    bool // plugins that do not exist may be named
	missing  bool // one is
}

type projPlugin struct {
	name, typ, flags, outSpelled, outAbs, outRel, suffix, path, pathAbs string
	imports, info                                                       bool
}

var projNames = []string{"a", "ab", "a.b", "b", "x y", "v1", "v10", "pkg", "pkgextra", "gen", "third_party"}

// genProj makes a project; content gives the file's text.
func genProj(cs *core.Case, sub string, content func(r *rand.Rand, p string, n int) string) *proj {
	r := cs.R
	p := &proj{root: filepath.Join(cs.W, sub), extra: map[string]string{}}
	cs.Mkdir(sub)
	p.dirs = []string{p.root}
	for i := 2 + r.Intn(7); i > 0; i-- {
		par := p.dirs[r.Intn(len(p.dirs))]
		if strings.Count(rel(p.root, par), "/") > 3 {
			continue
		}
		d := filepath.Join(par, projNames[r.Intn(len(projNames))])
		dup := false
		for _, x := range p.dirs {
			dup = dup || x == d
		}
		if !dup {
			p.dirs = append(p.dirs, d)
			cs.Mkdir(d[len(cs.W)+1:])
		}
	}
	n := 0
	for _, d := range p.dirs {
		for i := r.Intn(4); i > 0; i-- {
			f := filepath.Join(d, fmt.Sprintf("%s%d.proto", pick(r, "f", "g", "z z", "m.n"), n))
			n++
			p.files = append(p.files, f)
			cs.Write(f, content(r, rel(p.root, f), n))
		}
	}
	p.cwd = cs.W
	switch {
	case chance(r, 15):
		p.useData = true
		p.root = cs.W
		p.cwd = cs.W
		if sub != "" {
			p.root, p.cwd = p.dirs[0], p.dirs[0]
		}
	case chance(r, 92):
		p.hasConf = true
		if chance(r, 40) {
			p.cwd = p.dirs[r.Intn(len(p.dirs))]
		}
	default:
		p.cwd = p.dirs[0]
	}
	p.argDir = p.dirs[r.Intn(len(p.dirs))]
	if chance(r, 40) {
		p.argDir = p.root
	}
	if !p.hasConf && !within(p.cwd, p.argDir) {
		p.argDir = p.cwd
	}
	if p.argDir != p.cwd || chance(r, 50) {
		a := rel(p.cwd, p.argDir)
		if chance(r, 20) {
			a = p.argDir
		}
		if fs := p.filesIn(p.argDir); len(fs) > 0 && chance(r, 20) {
			a = rel(p.cwd, fs[r.Intn(len(fs))])
		}
		p.arg = []string{a}
	}
	return p
}

func (p *proj) filesIn(d string) []string {
	var out []string
	for _, f := range p.files {
		if filepath.Dir(f) == d {
			out = append(out, f)
		}
	}
	return out
}

// selDirs are the directories with files at or below the argument.
func (p *proj) selDirs() []string {
	m := map[string]bool{}
	for _, f := range p.files {
		if d := filepath.Dir(f); within(p.argDir, d) {
			m[d] = true
		}
	}
	return sortedKeys(m)
}

// genConf makes the configuration and writes it.
func (p *proj) genConf(cs *core.Case, plugins bool) {
	r := cs.R
	conf := M{}
	m := map[string]bool{}
	var spelled []string
	for i := r.Intn(4); i > 0 && (p.hasConf || p.useData); i-- {
		var a string
		switch r.Intn(5) {
		case 4: // further up
			if p.root == cs.W || filepath.Dir(p.root) == cs.W {
				continue
			}
			a = filepath.Join(filepath.Dir(filepath.Dir(p.root)), pick(r, "inc", "idl"))
			os.MkdirAll(a, 0755)
		case 0:
			a = p.dirs[r.Intn(len(p.dirs))]
		case 1:
			a = filepath.Join(filepath.Dir(p.root), pick(r, "vendor", "third"))
			os.MkdirAll(a, 0755)
		case 2:
			a = p.root
		case 3: // shares a string prefix with a directory of the tree
			d := p.dirs[r.Intn(len(p.dirs))]
			if d == p.root || len(filepath.Base(d)) < 2 {
				continue
			}
			a = d[:len(d)-1]
			if fi, err := os.Stat(a); err == nil && !fi.IsDir() {
				continue
			}
			os.MkdirAll(a, 0755)
		}
		s := rel(p.root, a)
		switch r.Intn(4) {
		case 0:
			s = a
		case 1:
			s += "/"
		case 2:
			s = "./" + s
		}
		if !m[a] {
			m[a] = true
			spelled = append(spelled, s)
		}
	}
	// the documented order is that of the sorted spellings
	ss := uniq(spelled)
	for _, s := range ss {
		a := s
		if !filepath.IsAbs(a) {
			a = filepath.Join(p.root, a)
		}
		p.includes = append(p.includes, filepath.Clean(a))
	}
	if len(spelled) > 0 {
		if chance(r, 20) {
			spelled = append(spelled, spelled[0])
		}
		conf["protoc"] = M{"includes": strsL(spelled)}
	}
	if plugins && (p.hasConf || p.useData) && chance(r, 90) {
		gen := M{}
		var pl L
		needGo := false
		seen := map[string]bool{}
		for i := r.Intn(5); i > 0; i-- {
			x := &projPlugin{name: pick(r, "go", "gogo", "gogoslick", "java", "cpp", "yarpc-go", "descriptor_set", "python", "my.plugin", "aa", "zz")}
			if seen[x.name] {
				continue
			}
			seen[x.name] = true
			x.typ = pick(r, "", "", "go", "gogo", "GoGo")
			if x.name == "descriptor_set" {
				x.typ = ""
				x.suffix = pick(r, "bin", "pb.bin")
				x.imports, x.info = chance(r, 50), chance(r, 50)
			} else if chance(r, 15) {
				x.suffix = "jar"
			}
			if chance(r, 40) {
				x.flags = pick(r, "plugins=grpc", "a=b,c=d", "Mfoo/bar.proto=x/y", "paths=source_relative")
			}
			o := pick(r, "gen", "../out", "../../gen/go", ".", "gen/x/y", "./gen/../out2", "./gen")
			if sub := rel(cs.W, p.root); sub == "." && strings.HasPrefix(o, "../../") {
				o = "../out"
			}
			if chance(r, 15) { // named after the project or the plugin
				b := filepath.Base(p.root)
				o = pick(r, "../"+b+"-"+x.name, "../"+b+"x", x.name, "gen/"+b, "../"+x.name, "gen-"+x.name)
			}
			x.outRel = o
			x.outAbs = filepath.Join(p.root, o)
			x.outSpelled = o
			if chance(r, 20) {
				x.outSpelled = x.outAbs
				x.outRel = rel(p.root, x.outAbs)
			}
			if chance(r, 25) {
				pp := cs.Write(filepath.Join(cs.Dir, "bin", "plug-"+x.name), "#!/bin/sh\nexit 0\n")
				os.Chmod(pp, 0755)
				x.pathAbs = pp
				x.path = pp
				if chance(r, 50) { // found through PATH
					x.path = filepath.Base(pp)
				}
				if p.traps && chance(r, 8) {
					// what protoc would find by itself must not be taken instead
					p.missing = true
					trap := cs.Write(filepath.Join(cs.Dir, "bin", "protoc-gen-"+x.name), "#!/bin/sh\nexit 0\n")
					os.Chmod(trap, 0755)
					x.path = pick(r, "no-such-plug-"+x.name, filepath.Join(cs.Dir, "no-such-dir", "plug"), filepath.Join(cs.Dir, "bin"))
					if chance(r, 30) {
						x.path = cs.Write(filepath.Join(cs.Dir, "bin", "noexec-"+x.name), "#!/bin/sh\nexit 0\n")
						if chance(r, 50) {
							x.path = filepath.Base(x.path)
						}
					}
				}
			}
			e := M{"name": x.name, "output": x.outSpelled}
			if x.typ != "" || chance(r, 20) {
				e["type"] = x.typ
				if x.typ != "" {
					needGo = true
				}
			}
			if x.flags != "" {
				e["flags"] = x.flags
			}
			if x.suffix != "" {
				e["file_suffix"] = x.suffix
			}
			if x.path != "" {
				e["path"] = x.path
			}
			if x.imports {
				e["include_imports"] = true
			}
			if x.info {
				e["include_source_info"] = true
			}
			pl = append(pl, e)
			p.plugins = append(p.plugins, x)
			if chance(r, 8) { // the same once more
				pl = append(pl, e)
				p.plugins = append(p.plugins, x)
			}
		}
		if len(pl) > 0 {
			gen["plugins"] = pl
		}
		if needGo || chance(r, 20) {
			p.imp = pick(r, "example.com/foo", "example.com/foo/bar.git/idl", "x/")
			g := M{"import_path": p.imp}
			if chance(r, 40) {
				ex := M{}
				for i := 0; i <= r.Intn(3); i++ {
					k := pick(r, "google/api/http.proto", "foo/bar.proto", "google/protobuf/any.proto", "z.proto")
					ex[k] = "ext.example/" + pick(r, "a", "b")
					p.extra[k] = ex[k].(string)
				}
				g["extra_modifiers"] = ex
			}
			gen["go_options"] = g
		}
		if len(gen) > 0 {
			conf["generate"] = gen
		}
	}
	switch {
	case p.useData:
		p.data = toJSON(conf)
	case p.hasConf && chance(r, 50):
		cs.Write(filepath.Join(p.root, "prototool.yaml"), "# c\n"+toYAML(conf, 0))
	case p.hasConf:
		cs.Write(filepath.Join(p.root, "prototool.json"), toJSON(conf))
	}
}

func (p *proj) dirOutputs() map[string]bool {
	m := map[string]bool{}
	for _, x := range p.plugins {
		if x.suffix == "" {
			m[x.outAbs] = true
		} else {
			for _, d := range p.selDirs() {
				m[filepath.Dir(p.outFile(x, d))] = true
			}
		}
	}
	return m
}

func (p *proj) outFile(x *projPlugin, d string) string {
	base := filepath.Base(d)
	return filepath.Join(x.outAbs, rel(p.root, d), base+"."+x.suffix)
}

// inv is an expected or observed invocation in comparable form.
func inv(includes []string, rest, mods, files []string) string {
	return fmt.Sprintf("-I %s | %s | M{%s} | %s", strings.Join(includes, " -I "), strings.Join(rest, " "), strings.Join(core.Sorted(mods), ","), strings.Join(core.Sorted(files), " "))
}

func (p *proj) expIncludes(d string, wkt string) []string {
	inc := append([]string{}, p.includes...)
	in := false
	for _, i := range inc {
		in = in || within(i, d) || i == p.root
	}
	inc = append(inc, wkt)
	if !in && !within(wkt, d) {
		inc = append(inc, p.root)
	}
	return inc
}

// expCompile lists the expected compile invocations with the given output.
func (p *proj) expCompile(wkt string, flags ...string) []string {
	var out []string
	for _, d := range p.selDirs() {
		out = append(out, inv(p.expIncludes(d, wkt), flags, nil, p.filesIn(d)))
	}
	return out
}

func (p *proj) expGenerate(wkt string) []string {
	if len(p.plugins) == 0 {
		return p.expCompile(wkt, "-o /dev/null")
	}
	var out []string
	for _, d := range p.selDirs() {
		for _, x := range p.plugins {
			var mods []string
			if x.typ != "" {
				for _, f := range p.files {
					if filepath.Dir(f) != d {
						rf := rel(p.root, f)
						mods = append(mods, "M"+rf+"="+filepath.Join(p.imp, x.outRel, filepath.Dir(rf)))
					}
				}
				w := goWKT
				if strings.ToLower(x.typ) == "gogo" {
					w = gogoWKT
				}
				for k, v := range w {
					mods = append(mods, "Mgoogle/protobuf/"+k+".proto="+v)
				}
				for k, v := range p.extra {
					mods = append(mods, "M"+k+"="+v)
				}
			}
			o := x.outAbs
			if x.suffix != "" {
				o = p.outFile(x, d)
			}
			rest := []string{"--" + x.name + "_out=" + o}
			if x.flags != "" {
				rest = append(rest, "flags="+x.flags)
			}
			if x.pathAbs != "" {
				rest = append(rest, "--plugin=protoc-gen-"+x.name+"="+x.pathAbs)
			}
			if x.imports {
				rest = append(rest, "--include_imports")
			}
			if x.info {
				rest = append(rest, "--include_source_info")
			}
			out = append(out, inv(p.expIncludes(d, wkt), rest, mods, p.filesIn(d)))
		}
	}
	return out
}

// obs brings an observed argument vector into comparable form.
func (p *proj) obs(argv []string) string {
	a := parseProtoc(argv)
	var rest, mods []string
	if a.Out != "" {
		o := a.Out
		if strings.Contains(o, "/tmp/prototool") && o != "/dev/null" {
			o = "TEMP"
		}
		rest = append(rest, "-o "+o)
	}
	for _, f := range a.Flags {
		i := strings.Index(f, "_out=")
		if i < 0 || strings.HasPrefix(f, "--plugin=") {
			rest = append(rest, f)
			continue
		}
		name, val := f[:i+5], f[i+5:]
		var x *projPlugin
		for _, y := range p.plugins {
			if "--"+y.name+"_out=" == name {
				x = y
			}
		}
		if x == nil {
			rest = append(rest, f)
			continue
		}
		j := strings.LastIndex(val, ":")
		par := ""
		if j >= 0 {
			par, val = val[:j], val[j+1:]
		}
		rest = append(rest, name+val)
		if x.typ == "" {
			if par != "" {
				rest = append(rest, "flags="+par)
			}
			continue
		}
		if x.flags != "" {
			if par == x.flags {
				rest = append(rest, "flags="+x.flags)
				par = ""
			} else if strings.HasPrefix(par, x.flags+",") {
				rest = append(rest, "flags="+x.flags)
				par = par[len(x.flags)+1:]
			}
		}
		if par != "" {
			mods = append(mods, strings.Split(par, ",")...)
		}
	}
	return inv(a.Includes, rest, mods, a.Files)
}

func (p *proj) flags() []string {
	if p.useData {
		return []string{"--config-data", p.data}
	}
	return nil
}

func protoStub(r *rand.Rand, path string, n int) string {
	return fmt.Sprintf("syntax = \"proto3\";\n\npackage p;\n\nmessage M%d {}\n", n)
}

func projEnv(cs *core.Case) []string {
	return []string{"PATH=" + filepath.Join(cs.Dir, "bin") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}
}

func runC13(c *core.Ctx) {
	c.Each("gen", c.N(2600, 15000), func(cs *core.Case) {
		r := cs.R
		p := genProj(cs, "root/proj", protoStub)
		p.traps = true
		p.genConf(cs, true)
		wkt := core.RealWKT
		cmd := pick(r, "generate", "generate", "generate", "compile", "lint", "format -l", "descriptor-set", "descriptor-set --include-imports", "descriptor-set --include-source-info", "x inspect packages", "all", "break descriptor-set -o "+filepath.Join(cs.Dir, "o.bin"))
		fake := &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}}
		args := append(strings.Fields(cmd), p.flags()...)
		opt := core.Opt{Dir: p.cwd, Fake: fake, Env: projEnv(cs)}
		if chance(r, 20) { // other locations of the Well-Known Types, as a flag
			wkt = pick(r, filepath.Join(cs.Dir, "wkt"), p.root)
			os.MkdirAll(filepath.Join(wkt, "google/protobuf"), 0755)
			opt.NoProtoc = true
			args = append(args, "--protoc-bin-path", cs.C.Fake, "--protoc-wkt-path", wkt)
		}
		args = append(args, p.arg...)
		res := cs.Run(opt, args...)
		var want []string
		switch strings.Fields(cmd)[0] {
		case "generate":
			want = p.expGenerate(wkt)
		case "compile", "lint", "format":
			want = p.expCompile(wkt, "-o /dev/null")
		case "all":
			want = append(p.expCompile(wkt, "-o /dev/null"), p.expGenerate(wkt)...)
		case "x":
			want = p.expCompile(wkt, "-o TEMP", "--include_imports")
		case "break":
			want = p.expCompile(wkt, "-o TEMP", "--include_imports")
		case "descriptor-set":
			fl := []string{"-o TEMP"}
			if strings.Contains(cmd, "imports") {
				fl = append(fl, "--include_imports")
			}
			if strings.Contains(cmd, "source-info") {
				fl = append(fl, "--include_source_info")
			}
			want = p.expCompile(wkt, fl...)
		}
		if p.missing && len(p.selDirs()) > 0 {
			c.Count("plugins that do not exist", 1)
			switch strings.Fields(cmd)[0] {
			case "generate":
				want = nil
			case "all":
				want = p.expCompile(wkt, "-o /dev/null")
			default:
				p.missing = false // not a command that needs them
			}
			if p.missing && (res.Code == 0 || res.Out+res.Err == "") {
				cs.Fatal("%s although a plugin's path names no executable file: %s\n%s", cmd, cs.Read(filepath.Join(p.root, "prototool.yaml")), res)
			}
		}
		recs := core.ReadFakeLog(fake.Log)
		var got []string
		for _, a := range core.Starts(recs) {
			got = append(got, p.obs(a))
		}
		desc := fmt.Sprintf("cwd=%s args=%q files=%q", p.cwd, args, p.files)
		if d := core.DiffLists(want, got); d != "" {
			cs.Fatal("protoc invocations differ from what the configuration asks for: %s\nconfig: %s%s\n%s\n%s", desc, cs.Read(filepath.Join(p.root, "prototool.yaml")), cs.Read(filepath.Join(p.root, "prototool.json")), d, res)
		}
		for _, rc := range recs {
			if rc.Cwd != p.cwd {
				cs.Fatal("protoc was started in %s instead of the working directory %s", rc.Cwd, p.cwd)
			}
		}
		c.Count("protoc-invocations", int64(len(got)))
		c.Count("cmd "+strings.Fields(cmd)[0], 1)
		if len(want) > 1 {
			sort.Strings(want)
			cs.Sig(strings.Replace(strings.Join(want, "\n"), cs.Dir, "", -1))
			cs.Sample("%s: %d invocations, first %s", cmd, len(want), strings.Replace(want[0], cs.Dir, "$D", -1))
		}
		if strings.HasPrefix(cmd, "generate") && len(p.files) > 0 && !p.missing {
			if res.Code != 0 {
				cs.Fatal("generate failed with a protoc that accepts everything: %s", res)
			}
			// the output directories exist for protoc, and nothing else was made
			for d := range p.dirOutputs() {
				if fi, err := os.Stat(d); err != nil || !fi.IsDir() {
					cs.Fatal("output directory %s was not created: %s", d, desc)
				}
			}
		}
	})
}

func runC14(c *core.Ctx) {
	c.Each("dry", c.N(2200, 12000), func(cs *core.Case) {
		r := cs.R
		bad := chance(r, 20)
		p := genProj(cs, "root/proj", func(r *rand.Rand, path string, n int) string {
			if bad && chance(r, 50) {
				return pick(r, "garbage", "", "syntax = \"proto3\";\nimport \"nope.proto\";\n", "\x00\x01")
			}
			return protoStub(r, path, n)
		})
		p.genConf(cs, true)
		cmd := pick(r, "generate", "generate", "compile")
		run := func(extra ...string) (*core.Res, *core.FakeConf) {
			fake := &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}}
			args := append(append([]string{cmd}, p.flags()...), extra...)
			return cs.Run(core.Opt{Dir: p.cwd, Fake: fake, Env: projEnv(cs)}, append(args, p.arg...)...), fake
		}
		before := core.Snapshot(cs.W, cs.Tmp, cs.Home)
		dres, dfake := run("--dry-run")
		if d := core.DiffSnap(before, core.Snapshot(cs.W, cs.Tmp, cs.Home)); len(d) > 0 {
			cs.Fatal("the dry run changed the file system: %v\n%s", d, dres)
		}
		if n := core.ReadFakeLog(dfake.Log); len(n) > 0 {
			cs.Fatal("the dry run started protoc: %v", n[0].Argv)
		}
		rres, rfake := run()
		if (dres.Code == 0) != (rres.Code == 0) {
			cs.Fatal("dry run and real run (with an accepting protoc) disagree on success:\n%s\n%s", dres, rres)
		}
		norm := func(argv []string) string {
			// the order of automatic M flags is free, as is the order of files
			return p.obs(argv)
		}
		// a command line is compared as text (arguments joined by spaces), up to the order of modifiers
		canon := func(s string) string {
			w := strings.Split(s, " ")
			for i, x := range w {
				if j := strings.Index(x, "_out="); j > 0 && strings.HasPrefix(x, "--") {
					w[i] = x[:j] + strings.Join(core.Sorted(strings.FieldsFunc(x[j:], func(c rune) bool { return c == ',' || c == ':' || c == '=' })), ",")
				}
			}
			return strings.Join(w, " ")
		}
		loose := func(s string) string {
			// modifiers may hold spaces: compare the multiset of words
			f := strings.FieldsFunc(s, func(c rune) bool { return c == ' ' || c == ',' || c == ':' || c == '=' })
			sort.Strings(f)
			return strings.Join(f, " ")
		}
		var want, wantN []string
		for _, a := range core.Starts(core.ReadFakeLog(rfake.Log)) {
			s := cs.C.Fake + " " + strings.Join(a, " ")
			if strings.Contains(s, "x y") || strings.Contains(s, "z z") {
				want = append(want, loose(s))
			} else {
				want = append(want, canon(s))
			}
			wantN = append(wantN, norm(a))
		}
		var got []string
		for _, l := range dres.Lines() {
			if strings.Contains(l, "x y") || strings.Contains(l, "z z") {
				got = append(got, loose(l))
			} else {
				got = append(got, canon(l))
			}
		}
		if dres.Code != 0 {
			got, want = nil, nil
		}
		if d := core.DiffLists(want, got); d != "" {
			cs.Fatal("dry run does not print the commands of the real run:\n%s\n%s", d, dres)
		}
		c.Count("commands-compared", int64(len(got)))
		c.Count("cmd "+cmd, 1)
		if len(got) > 1 {
			sort.Strings(wantN)
			cs.Sig(strings.Replace(strings.Join(wantN, "\n"), cs.Dir, "", -1))
			cs.Sample("%s: %d commands, first %s", cmd, len(got), strings.Replace(got[0], cs.Dir, "$D", -1))
		}
	})
}
