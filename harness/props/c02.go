package props

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C02", Level: "exploration", Run: runC02,
		Rule:  "nearest: chains of directories with prototool.yaml or prototool.json files of distinct effect at random levels, observed through lint, --list-linters, create, generate --dry-run and format from random working directories, against the nearest one by the reference; spelling: one random configuration spelled as YAML (block and flow), JSON and --config-data in equal trees, with a battery of commands compared; strict: invalid, unknown and conflicting settings injected into valid configurations, with a battery of commands that must fail, write nothing and start no protoc; init: config init in every mode over existing files of every kind. Non-trivial: the configuration has an observable setting; distinct by configuration and command.",
		Notes: []string{"JSON keys that differ from a known key only in case are outside the statement"}})
}

func runC02(c *core.Ctx) {
	c.Each("nearest", c.N(350, 5000), c02Nearest)
	c.Each("spelling", c.N(100, 2500), c02Spelling)
	c.Each("strict", c.N(450, 6000), c02Strict)
	c.Each("init", c.N(80, 800), c02Init)
}

// a file that breaks each of the rules below exactly once or more
const c02File = `syntax = "proto2";
package Foo.bar;
message bad_name { required int32 BadField = 1; message inner { required float f = 1; } oneof Bad_One { int64 g = 3; } }
enum bad_enum { lower = 0; }
service bad_service { rpc do_it(bad_name) returns (bad_name); }
`

var c02Rules = []string{"SYNTAX_PROTO3", "MESSAGE_NAMES_CAMEL_CASE", "ENUM_NAMES_CAMEL_CASE", "SERVICE_NAMES_CAMEL_CASE", "RPC_NAMES_CAMEL_CASE", "PACKAGE_LOWER_SNAKE_CASE", "ONEOF_NAMES_LOWER_SNAKE_CASE", "ENUM_FIELD_NAMES_UPPERCASE", "MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE"}

func c02Nearest(cs *core.Case) {
	c, r := cs.C, cs.R
	depth := 2 + r.Intn(4)
	chain := []string{cs.W}
	for i := 0; i < depth; i++ {
		chain = append(chain, filepath.Join(chain[i], pick(r, "a", "b", "idl", "x y", "v1", "proto")))
	}
	leaf := chain[depth]
	os.MkdirAll(leaf, 0755)
	cs.Write(filepath.Join(leaf, "f.proto"), c02File)
	type cf struct {
		dir, rule, prefix, mapped, out string
		both                           bool
	}
	mk := func(i int, dir string) *cf {
		return &cf{dir: dir, rule: c02Rules[i%len(c02Rules)], prefix: fmt.Sprintf("pre%d", i), mapped: fmt.Sprintf("base%d", i), out: fmt.Sprintf("out%d", i)}
	}
	doc := func(x *cf) M {
		return M{"lint": M{"group": "empty", "rules": M{"add": L{x.rule}}, "java_package_prefix": x.prefix},
			"create":   M{"packages": L{M{"directory": ".", "name": x.mapped}}},
			"generate": M{"plugins": L{M{"name": "cpp", "output": x.out}}}}
	}
	start := r.Intn(len(c02Rules))
	var near *cf
	for i, d := range chain {
		if !chance(r, 45) {
			continue
		}
		x := mk(start+i, d)
		kind := pick(r, "yaml", "yaml", "json", "json", "both")
		if kind == "both" && chance(r, 60) {
			kind = "yaml"
		}
		write := func(name, data string) {
			p := filepath.Join(d, name)
			if !chance(r, 20) {
				cs.Write(p, data)
				return
			}
			// kept elsewhere, and linked to
			to := cs.Write(pick(r, filepath.Join(d, name+".real"), filepath.Join(cs.Dir, "conf", itoa(i), "settings")), data)
			if chance(r, 50) {
				to = rel(d, to)
			}
			if err := os.Symlink(to, p); err != nil {
				cs.Fatal("%v", err)
			}
			c.Count("configurations behind links", 1)
		}
		if kind != "json" {
			write("prototool.yaml", toYAML(doc(x), 0))
		}
		if kind != "yaml" {
			write("prototool.json", toJSON(doc(x)))
		}
		x.both = kind == "both"
		near = x
	}
	// decoys that are not configuration files
	for i := r.Intn(3); i > 0; i-- {
		cs.Write(filepath.Join(chain[r.Intn(len(chain))], pick(r, "prototool.yml", ".prototool.yaml", "prototool.yaml.bak", "Prototool.yaml")), "garbage: [")
	}
	// what other tools take for a root
	for i := r.Intn(3); i > 0; i-- {
		d := chain[r.Intn(len(chain))]
		switch pick(r, "git", "git", "hg", "file") {
		case "git":
			cs.Write(filepath.Join(d, ".git", "HEAD"), "ref: refs/heads/master\n")
			cs.Write(filepath.Join(d, ".git", "config"), "[core]\n\tbare = false\n")
			cs.Mkdir(filepath.Join(d, ".git", "refs"))
			cs.Mkdir(filepath.Join(d, ".git", "objects"))
		case "hg":
			cs.Write(filepath.Join(d, ".hg", "requires"), "store\n")
		case "file":
			cs.Write(filepath.Join(d, pick(r, "go.mod", "WORKSPACE", "Makefile", ".prototoolroot", "buf.yaml", "package.json", ".editorconfig", "README.md")), "module x\n")
		}
	}
	cwd := chain[r.Intn(len(chain))]
	var flags []string
	if chance(r, 15) {
		cwd = chain[r.Intn(len(chain))]
		near = mk(start+40, cwd)
		flags = []string{"--config-data", toJSON(doc(near))}
	}
	cmd := pick(r, "list", "lint", "lint-file", "create", "generate", "format-fix")
	arg := rel(cwd, leaf)
	if chance(r, 30) {
		arg = leaf
	}
	if cmd == "list" {
		cwd, arg = leaf, ""
		if len(flags) > 0 {
			near.dir = cwd
		}
	}
	desc := fmt.Sprintf("%s, cwd %s, nearest configuration %+v", cmd, rel(cs.W, cwd), near)
	before := core.Snapshot(cs.W)
	fake := &core.FakeConf{Rules: []core.FakeRule{{Real: true}}}
	run := func(args ...string) *core.Res {
		a := append(strings.Fields(args[0]), flags...)
		return cs.Run(core.Opt{Dir: cwd, Fake: fake}, append(a, args[1:]...)...)
	}
	var res *core.Res
	switch cmd {
	case "list":
		res = run("lint --list-linters")
	case "lint":
		res = run("lint --error-format id", arg)
	case "lint-file":
		res = run("lint --error-format id", filepath.Join(arg, "f.proto"))
	case "create":
		res = run("create", filepath.Join(arg, "new.proto"))
	case "generate":
		res = run("generate --dry-run", arg)
	case "format-fix":
		res = run("format --fix", filepath.Join(arg, "f.proto"))
	}
	if near != nil && near.both {
		if res.Code == 0 {
			cs.Fatal("two configuration files in one directory are accepted (%s)\n%s", desc, res)
		}
		if d := core.DiffSnap(before, core.Snapshot(cs.W)); len(d) > 0 {
			cs.Fatal("something was written under an invalid configuration: %v (%s)\n%s", d, desc, res)
		}
		c.Count("both-refused", 1)
		cs.Sig("both", cmd, len(chain), rel(cs.W, cwd))
		return
	}
	switch cmd {
	case "list":
		if near == nil {
			g := run("lint --list-lint-group uber1")
			if g.Out != res.Out || res.Code != 0 {
				cs.Fatal("without a configuration --list-linters is not the default group:\n%s\n%s", res, g)
			}
		} else if l := res.Lines(); len(l) != 1 || !strings.HasPrefix(l[0], near.rule+" ") {
			cs.Fatal("--list-linters does not follow the configuration in force (%s):\n%s", desc, res)
		}
	case "lint", "lint-file":
		ids := uniq(res.Lines())
		if near != nil {
			if len(ids) != 1 || ids[0] != near.rule {
				cs.Fatal("lint does not follow the configuration in force (%s):\n%s", desc, res)
			}
		} else if len(ids) < 4 {
			cs.Fatal("lint does not follow the defaults (%s):\n%s", desc, res)
		}
	case "create":
		b := cs.Read(filepath.Join(leaf, "new.proto"))
		pkg, pre := "uber.prototool.generated", "com"
		if near != nil {
			pre = near.prefix
			pkg = near.mapped
			if rl := rel(near.dir, leaf); rl != "." {
				pkg += "." + strings.Replace(rl, "/", ".", -1)
			}
		}
		if strings.Contains(leaf, "x y") {
			// not a package name; only the prefix of the package is looked at
			if near != nil && within(near.dir, leaf) && res.Code == 0 && !strings.Contains(b, "package "+near.mapped) {
				cs.Fatal("create does not follow the configuration in force (%s):\n%s\n%s", desc, res, b)
			}
		} else if near != nil && !within(near.dir, leaf) {
			return
		} else if !strings.Contains(b, "package "+pkg+";") || !strings.Contains(b, "java_package = \""+pre+".") {
			cs.Fatal("create does not follow the configuration in force (%s, package %s, prefix %s):\n%s\n%s", desc, pkg, pre, res, b)
		}
	case "generate":
		root := cwd
		if near != nil {
			root = near.dir
		}
		ls := res.Lines()
		if len(ls) != 1 || !strings.Contains(ls[0], "-I "+root+" ") {
			cs.Fatal("generate does not follow the configuration in force (%s):\n%s", desc, res)
		}
		if near != nil && !strings.Contains(ls[0], "--cpp_out="+filepath.Join(root, near.out)+" ") {
			cs.Fatal("generate does not follow the configuration in force (%s):\n%s", desc, res)
		}
		if near == nil && strings.Contains(ls[0], "_out=") {
			cs.Fatal("plugins without configuration (%s):\n%s", desc, res)
		}
	case "format-fix":
		pre := "com"
		if near != nil {
			pre = near.prefix
		}
		if !strings.Contains(res.Out, "option java_package = \""+pre+".Foo.bar\"") {
			cs.Fatal("format --fix does not follow the configuration in force (%s):\n%s", desc, res)
		}
	}
	c.Count("nearest "+cmd, 1)
	cs.Sig(desc)
	cs.Sample("%s", desc)
}

// c02Conf makes a random valid configuration.
func c02Conf(r *rand.Rand) M {
	m := M{}
	if chance(r, 40) {
		m["excludes"] = L{pick(r, "ex", "a/ex", "./ex", "b/x.proto")}
	}
	if chance(r, 60) {
		p := M{}
		if chance(r, 50) {
			p["includes"] = L{pick(r, "inc", "a", ".", "../inc"), pick(r, "./inc2", "b")}
		}
		if chance(r, 50) {
			p["allow_unused_imports"] = chance(r, 80)
		}
		if chance(r, 30) {
			p["version"] = "3.11.0"
		}
		m["protoc"] = p
	}
	if chance(r, 60) {
		m["create"] = M{"packages": L{M{"directory": pick(r, ".", "a", "./a"), "name": "acme.base"}, M{"directory": "b", "name": "other"}}}
	}
	l := M{}
	if chance(r, 70) {
		l["group"] = pick(r, "uber1", "uber2", "google", "empty", "Uber2", "EMPTY")
	}
	ru := M{}
	if chance(r, 50) {
		ru["add"] = L{"MESSAGES_HAVE_COMMENTS", pick(r, "enums_have_comments", "SYNTAX_PROTO3", "MESSAGE_FIELDS_NOT_FLOATS")}
	}
	if chance(r, 50) {
		ru["remove"] = L{pick(r, "RPC_NAMES_CAMEL_CASE", "file_options_require_go_package", "ENUM_NAMES_CAMEL_CASE")}
	}
	if _, ok := l["group"]; !ok && chance(r, 30) {
		ru["no_default"] = true
	}
	if len(ru) > 0 {
		l["rules"] = ru
	}
	if chance(r, 40) {
		l["ignores"] = L{M{"id": pick(r, "MESSAGE_NAMES_CAMEL_CASE", "syntax_proto3"), "files": L{pick(r, "a", "a/one.proto", "./b", "nothere")}}, M{"id": "ENUM_NAMES_CAMEL_CASE", "files": L{"a", "b"}}}
	}
	if chance(r, 40) {
		h := M{}
		if chance(r, 50) {
			h["path"] = pick(r, "header.txt", "hd/header.txt")
		} else {
			h["content"] = pick(r, "Acme Inc.\n\n2020", "one line", "// a\n// b: c")
		}
		if chance(r, 40) {
			h["is_commented"] = true
		}
		l["file_header"] = h
	}
	if chance(r, 40) {
		l["java_package_prefix"] = pick(r, "au.com", "com", "x")
	}
	if len(l) > 0 {
		m["lint"] = l
	}
	if chance(r, 40) {
		m["break"] = M{pick(r, "include_beta", "allow_beta_deps"): true}
	}
	if chance(r, 60) {
		g := M{}
		pl := L{M{"name": "java", "output": "../gen/java", "file_suffix": "jar"}, M{"name": "gogo", "type": "gogo", "flags": "plugins=grpc", "output": "gen/go"}, M{"name": "descriptor_set", "output": "gen/ds", "file_suffix": "bin", "include_imports": chance(r, 50), "include_source_info": chance(r, 50)}}
		g["plugins"] = pl[:1+r.Intn(3)]
		g["go_options"] = M{"import_path": "example.com/x", "extra_modifiers": M{"google/api/a.proto": "x/y", "z.proto": "w"}}
		m["generate"] = g
	}
	return m
}

func c02Tree(cs *core.Case, root string) {
	for _, d := range []string{"a", "b", "b/c", "inc", "inc2", "ex", "a/ex"} {
		cs.Mkdir(filepath.Join(root, d))
	}
	cs.Write(filepath.Join(root, "header.txt"), "Header of\n\n  a file  \n")
	cs.Write(filepath.Join(root, "hd/header.txt"), "// commented\n")
	cs.Write(filepath.Join(root, "a/one.proto"), strings.Replace(c02File, "Foo.bar", "a.one", 1))
	cs.Write(filepath.Join(root, "b/x.proto"), "syntax = \"proto3\";\n\npackage b.v1beta1;\n\nimport \"google/protobuf/any.proto\";\n\nmessage M {}\n")
	cs.Write(filepath.Join(root, "ex/e.proto"), "syntax = \"proto3\";\n\npackage ex;\n\nmessage E {}\n")
}

// c02Flow writes YAML in flow style, which JSON almost is.
func c02Flow(v interface{}) string {
	switch x := v.(type) {
	case M:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var p []string
		for _, k := range ks {
			p = append(p, k+": "+c02Flow(x[k]))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case L:
		var p []string
		for _, e := range x {
			p = append(p, c02Flow(e))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case string:
		b, _ := json.Marshal(x)
		return string(b)
	}
	return fmt.Sprint(v)
}

func c02Spelling(cs *core.Case) {
	c, r := cs.C, cs.R
	conf := c02Conf(r)
	ways := []string{"yaml", "flow", "json", "data"}
	obs := map[string][]string{}
	cmds := [][]string{{"lint", "--list-linters"}, {"files", "."}, {"compile", "--dry-run", "."}, {"generate", "--dry-run", "."}, {"compile", "."}, {"lint", "--error-format", "filename:line:id:message", "."}, {"lint", "--generate-ignores", "."}, {"create", "a/new.proto", "b/c/new.proto", "root.proto"}, {"break", "check", "--descriptor-set-path", filepath.Join(cs.Dir, "old.bin")}, {"format", "--fix", "-w", "."}}
	// the old side of break check
	o := filepath.Join(cs.Dir, "oldtree")
	cs.Write(filepath.Join(o, "b/x.proto"), "syntax = \"proto3\";\n\npackage b.v1beta1;\n\nmessage M { int32 f = 1; }\nmessage N {}\n")
	cs.Write(filepath.Join(o, "a/one.proto"), "syntax = \"proto2\";\npackage a.one;\nmessage Gone {}\n")
	if x := cs.Run(core.Opt{Dir: o, Quiet: true}, "break", "descriptor-set", "-o", filepath.Join(cs.Dir, "old.bin"), "."); x.Code != 0 {
		cs.Fatal("break descriptor-set fails on a plain tree: %s", x)
	}
	for _, w := range ways {
		root := filepath.Join(cs.W, w, "t")
		cs.Mkdir(filepath.Join(w, "t"))
		c02Tree(cs, filepath.Join(w, "t"))
		var flags []string
		switch w {
		case "yaml":
			cs.Write(filepath.Join(root, "prototool.yaml"), toYAML(conf, 0))
		case "flow":
			cs.Write(filepath.Join(root, "prototool.yaml"), "# comment\n---\n"+c02Flow(conf)+"\n")
		case "json":
			b, _ := json.MarshalIndent(conf, "", "\t")
			cs.Write(filepath.Join(root, "prototool.json"), string(b)+pick(r, "", "\n", " \n\n"))
		case "data":
			flags = []string{"--config-data", toJSON(conf)}
			if chance(r, 50) { // the flag overrules files
				cs.Write(filepath.Join(root, "prototool.yaml"), "lint:\n  group: google\nexcludes: [a]\ncreate:\n  packages:\n  - directory: .\n    name: wrong\n")
			}
		}
		for _, cmd := range cmds {
			x := cs.Run(core.Opt{Dir: root}, append(append([]string{}, cmd...), flags...)...)
			out := strings.Replace(x.Out, filepath.Join(cs.W, w), "$ROOT", -1)
			if cmd[0] == "generate" || cmd[0] == "compile" || cmd[0] == "format" { // order of directories and modifiers is free
				out = strings.Join(core.Sorted(strings.FieldsFunc(out, func(c rune) bool { return c == '\n' || c == ',' || c == ' ' || c == ':' })), "\n")
			}
			if x.Panicked() {
				cs.Fatal("crash: %s", x)
			}
			obs[w] = append(obs[w], fmt.Sprintf("%v -> exit %d\n%s", cmd, x.Code, out))
		}
		snap := core.Snapshot(root)
		var sl []string
		for k, v := range snap {
			if filepath.Base(k) != "prototool.yaml" && filepath.Base(k) != "prototool.json" {
				sl = append(sl, strings.TrimPrefix(k, root)+" "+v)
			}
		}
		sort.Strings(sl)
		obs[w] = append(obs[w], "tree\n"+strings.Join(sl, "\n"))
	}
	for _, w := range ways[1:] {
		for i := range obs["yaml"] {
			if obs["yaml"][i] != obs[w][i] {
				cs.Fatal("the same settings behave differently as yaml and as %s\n%s\n--- yaml: %s\n--- %s: %s", w, toYAML(conf, 0), obs["yaml"][i], w, obs[w][i])
			}
		}
	}
	c.Count("spelling-observations", int64(len(ways)*len(cmds)))
	if len(conf) > 0 {
		cs.Sig(toJSON(conf))
		cs.Sample("%s", toJSON(conf))
	}
}

func deepCopy(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		o := M{}
		for k, e := range x {
			o[k] = deepCopy(e)
		}
		return o
	case L:
		o := L{}
		for _, e := range x {
			o = append(o, deepCopy(e))
		}
		return o
	}
	return v
}

// maps lists every map of a document.
func maps(v interface{}, path string, out *[]M, paths *[]string) {
	switch x := v.(type) {
	case M:
		if path != "/generate/go_options/extra_modifiers" {
			*out = append(*out, x)
			*paths = append(*paths, path)
		}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			maps(x[k], path+"/"+k, out, paths)
		}
	case L:
		for i, e := range x {
			maps(e, fmt.Sprintf("%s/%d", path, i), out, paths)
		}
	}
}

func sub(m M, k string) M {
	if x, ok := m[k].(M); ok {
		return x
	}
	x := M{}
	m[k] = x
	return x
}

// c02Break makes a configuration invalid and says how.
func c02Break(r *rand.Rand, conf M, root string) string {
	switch k := r.Intn(20); k {
	case 0, 1, 2:
		var ms []M
		var ps []string
		maps(conf, "", &ms, &ps)
		i := r.Intn(len(ms))
		key := pick(r, "unknown", "exclude", "include", "lints", "Foo", "plugin", "x-y", "packages_", "groups")
		var val interface{} = pick(r, "x", "")
		if chance(r, 50) {
			val = L{"a"}
		} else if chance(r, 30) {
			val = M{"group": "uber2"}
		}
		ms[i][key] = val
		return "unknown key " + ps[i] + "/" + key
	case 3:
		conf[pick(r, "excludes", "lint", "protoc", "generate", "create", "break")] = "text"
		return "text for a structure"
	case 4:
		conf["excludes"] = M{"a": "b"}
		return "map for a list"
	case 5:
		sub(conf, "protoc")["allow_unused_imports"] = "maybe"
		return "text for a boolean"
	case 6:
		conf["excludes"] = L{pick(r, ".", "./", "a/..", root)}
		return "excludes its own directory"
	case 7:
		conf["excludes"] = L{pick(r, "..", "../x", "/", "a/../../b", root+"x", filepath.Dir(root))}
		return "excludes a directory outside"
	case 8:
		sub(conf, "generate")["plugins"] = L{M{"name": "java"}}
		return "plugin without output"
	case 9:
		sub(conf, "generate")["plugins"] = L{M{"name": "java", "output": "x", "type": pick(r, "java", "g", "golang", " go")}}
		return "plugin type"
	case 10:
		sub(conf, "generate")["plugins"] = L{M{"name": "java", "output": "x", "file_suffix": ".jar"}}
		return "file suffix with a dot"
	case 11:
		sub(conf, "generate")["plugins"] = L{M{"name": "java", "output": "x", pick(r, "include_imports", "include_source_info"): true}}
		return "descriptor set option on another plugin"
	case 12:
		conf["generate"] = M{"plugins": L{M{"name": "go", "type": pick(r, "go", "gogo"), "output": "x"}}}
		return "go plugin without import path"
	case 13:
		sub(conf, "generate")["plugins"] = L{M{"name": "protoc-gen-go", "output": "x"}}
		return "plugin name with prefix"
	case 14:
		conf["create"] = M{"packages": L{M{"directory": pick(r, "/abs", ""), "name": "x"}}}
		return "create directory"
	case 15:
		conf["create"] = M{"packages": L{M{"directory": "a", "name": ""}}}
		return "create name"
	case 16:
		sub(conf, "lint")["file_header"] = M{"path": "header.txt", "content": "x"}
		return "header path and content"
	case 17:
		sub(conf, "lint")["file_header"] = M{"path": pick(r, "/etc/hostname", "missing.txt", "a")}
		return "header path"
	case 18:
		sub(conf, "lint")["allow_suppression"] = true
		return "allow_suppression"
	default:
		sub(conf, "lint")["rules"] = M{"add": L{"SYNTAX_PROTO3", "messages_have_comments"}, "remove": L{"ENUM_NAMES_CAMEL_CASE", pick(r, "MESSAGES_HAVE_COMMENTS", "syntax_proto3")}}
		return "rule added and removed"
	}
}

func c02Strict(cs *core.Case) {
	c, r := cs.C, cs.R
	root := filepath.Join(cs.W, "t")
	c02Tree(cs, "t")
	conf := deepCopy(c02Conf(r)).(M)
	way := pick(r, "yaml", "json", "data")
	what := ""
	text := ""
	enc := func() string {
		if way == "yaml" {
			if chance(r, 30) {
				return c02Flow(conf)
			}
			return toYAML(conf, 0)
		}
		return toJSON(conf)
	}
	if chance(r, 75) {
		what = c02Break(r, conf, root)
		text = enc()
	} else {
		if len(conf) == 0 {
			conf["excludes"] = L{"a"}
		}
		text = enc()
		if way == "yaml" {
			switch r.Intn(5) {
			case 0:
				text = toYAML(conf, 0) + "\nprotoc:\n  version: 3.11.0\nprotoc:\n  version: 3.11.0\n"
				what = "duplicate key"
			case 1:
				text = "\t" + toYAML(conf, 0)
				what = "tab"
			case 2:
				text = toYAML(conf, 0) + "]: }{\n"
				what = "syntax"
			case 3:
				text = "- a\n- b\n"
				what = "list document"
			case 4:
				text = "just text\n"
				what = "text document"
			}
		} else {
			switch r.Intn(6) {
			case 0:
				text = text[:len(text)-1]
				what = "truncated"
			case 1:
				text = text + pick(r, "}", " x", "{}", "\n[]", ",")
				what = "trailing data"
			case 2:
				text = strings.Replace(text, "\"", "'", -1)
				what = "quotes"
			case 3:
				text = "[" + text + "]"
				what = "list document"
			case 4:
				text = "\"text\""
				what = "text document"
			case 5:
				text = text[:len(text)-1] + ",}"
				what = "trailing comma"
			}
		}
	}
	cmds := [][]string{{"lint", "."}, {"format", "-w", "."}, {"format", "--fix", "-w", "."}, {"generate", "."}, {"compile", "."}, {"files", "."}, {"all", "."}, {"create", "a/new.proto"}, {"create", "a/new.proto", "--package", "x.y"}, {"lint", "--list-linters"}, {"descriptor-set", ".", "-o", "out.bin"}, {"generate", "--dry-run", "."}, {"break", "check", "--descriptor-set-path", "/dev/null"}, {"x", "inspect", "packages", "."}}
	var flags []string
	switch way {
	case "yaml":
		cs.Write(filepath.Join(root, "prototool.yaml"), text)
	case "json":
		cs.Write(filepath.Join(root, "prototool.json"), text)
	case "data":
		flags = []string{"--config-data", text}
	}
	cs.Note("%s (%s)\n%s", what, way, text)
	r.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
	for _, cmd := range cmds[:5] {
		before := core.Snapshot(cs.W, cs.Tmp, cs.Home)
		fake := &core.FakeConf{Rules: []core.FakeRule{{Real: true}}}
		x := cs.Run(core.Opt{Dir: root, Fake: fake}, append(append([]string{}, cmd...), flags...)...)
		if x.Code == 0 {
			cs.Fatal("an invalid configuration (%s, %s) is accepted by %v\n%s\n%s", what, way, cmd, text, x)
		}
		if strings.TrimSpace(x.Out+x.Err) == "" {
			cs.Fatal("an invalid configuration (%s, %s) fails without a reason: %s", what, way, x)
		}
		if x.Panicked() {
			cs.Fatal("crash: %s", x)
		}
		if d := core.DiffSnap(before, core.Snapshot(cs.W, cs.Tmp, cs.Home)); len(d) > 0 {
			cs.Fatal("something was written under an invalid configuration (%s, %s): %v\n%s", what, way, d, x)
		}
		if n := core.Starts(core.ReadFakeLog(fake.Log)); len(n) > 0 {
			cs.Fatal("protoc was started under an invalid configuration (%s, %s)\n%s", what, way, x)
		}
		c.Count("refusals", 1)
	}
	c.Count("invalid: "+strings.Fields(what)[0]+" "+way, 1)
	cs.Sig(what, way, text)
	cs.Sample("%s as %s: %s", what, way, text)
}

func c02Init(cs *core.Case) {
	c, r := cs.C, cs.R
	mode := pick(r, "", "--document", "--uncomment", "--document --uncomment")
	dir := pick(r, "t", "new/deep", "x y", ".")
	root := filepath.Join(cs.W, dir)
	exists := pick(r, "no", "no", "no", "file", "empty", "dir", "link", "json", "readonly")
	p := filepath.Join(root, "prototool.yaml")
	if exists != "no" {
		os.MkdirAll(root, 0755)
	}
	switch exists {
	case "file":
		cs.Write(p, "lint:\n  group: google\n")
	case "empty":
		cs.Write(p, "")
	case "dir":
		os.MkdirAll(p, 0755)
	case "link":
		cs.Write(filepath.Join(root, "real.yaml"), "excludes: [x]\n")
		os.Symlink("real.yaml", p)
	case "json":
		cs.Write(filepath.Join(root, "prototool.json"), "{}")
	case "readonly":
		cs.Write(p, "lint:\n  group: google\n")
		os.Chmod(p, 0444)
	}
	before := core.Snapshot(cs.W)
	args := append([]string{"config", "init"}, strings.Fields(mode)...)
	cwd := cs.W
	if exists != "no" && chance(r, 30) {
		cwd = root
	} else if dir != "." {
		args = append(args, dir)
	}
	x := cs.Run(core.Opt{Dir: cwd}, args...)
	c.Count("init "+exists, 1)
	cs.Sig(mode, dir, exists)
	if exists != "no" {
		if x.Code == 0 {
			cs.Fatal("config init succeeds although there is a configuration (%s): %s", exists, x)
		}
		if d := core.DiffSnap(before, core.Snapshot(cs.W)); len(d) > 0 {
			cs.Fatal("config init changed something although there is a configuration (%s): %v", exists, d)
		}
		return
	}
	if x.Code != 0 {
		cs.Fatal("config init fails: %s", x)
	}
	doc := cs.Read(p)
	if strings.Contains(mode, "uncomment") {
		// every example is active: the document names settings that exclude each other on purpose,
		// so it is refused for those only
		y := cs.Run(core.Opt{Dir: root}, "files", ".")
		if strings.Contains(y.Out, "cannot unmarshal") || strings.Contains(y.Out, "yaml:") || strings.Contains(y.Out, "not found in type") {
			cs.Fatal("the uncommented document does not parse: %s\n%s", y, doc)
		}
		return
	}
	// the same battery with the comments stripped, and with the plain document
	var strip []string
	for _, l := range strings.Split(doc, "\n") {
		if t := strings.TrimSpace(l); t != "" && !strings.HasPrefix(t, "#") {
			strip = append(strip, l)
		}
	}
	variants := map[string]string{"as written": doc, "comments removed": strings.Join(strip, "\n") + "\n"}
	if mode == "--document" {
		b := filepath.Join(cs.Dir, "plain")
		os.MkdirAll(b, 0755)
		if z := cs.Run(core.Opt{Dir: b}, "config", "init"); z.Code != 0 {
			cs.Fatal("config init fails: %s", z)
		}
		variants["plain document"] = cs.Read(filepath.Join(b, "prototool.yaml"))
	}
	cmds := [][]string{{"lint", "--list-linters"}, {"files", "."}, {"generate", "--dry-run", "."}, {"lint", "."}, {"create", "b/c/new.proto"}, {"format", "--fix", "a/one.proto"}}
	var first []string
	var names []string
	for n := range variants {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		t := filepath.Join(cs.Dir, "v", fmt.Sprint(i))
		rl, _ := filepath.Rel(cs.W, t)
		c02Tree(cs, rl)
		cs.Write(filepath.Join(t, "prototool.yaml"), variants[n])
		var o []string
		for _, cmd := range cmds {
			y := cs.Run(core.Opt{Dir: t}, cmd...)
			if cmd[0] == "files" && y.Code != 0 {
				cs.Fatal("the loader does not accept the document of config init (%s): %s\n%s", n, y, variants[n])
			}
			ls := y.Lines()
			if cmd[0] == "generate" {
				sort.Strings(ls)
			}
			o = append(o, fmt.Sprintf("%v %d\n%s", cmd, y.Code, strings.Replace(strings.Join(ls, "\n"), t, "$T", -1)))
		}
		o = append(o, cs.Read(filepath.Join(t, "b/c/new.proto")))
		if first == nil {
			first = o
			continue
		}
		for k := range o {
			if o[k] != first[k] {
				cs.Fatal("the document of config init has another effect %s than %s:\n%s\n---\n%s", n, names[0], o[k], first[k])
			}
		}
	}
}
