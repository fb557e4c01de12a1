package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C25", Level: "exploration", Run: runC25,
		Rule:  "a project, valid or failing at a chosen step, is put into place; `all` runs over it with random flags, argument and working directory; the project is put back and the steps `all` documents (compile, format -w [--fix], generate, lint) run as commands of their own with the same flags until one fails. Compared: standard output, exit code, every file afterwards, and the protoc processes started (those of one compile and one generate). Non-trivial: `all` changed a file, printed something or stopped early; distinct by flags, argument, stop and output.",
		Notes: []string{"That each step is right is the subject of the properties about the steps."}})
}

func runC25(c *core.Ctx) {
	c.Each("all", c.N(450, 15000), c25All)
}

// c25Plugin writes a plugin that fails on request or answers with nothing.
func c25Plugin(cs *core.Case, name string, fail string) string {
	s := "#!/bin/sh\ncat > /dev/null\n"
	switch fail {
	case "status":
		s += "echo plugin is not happy >&2\nexit 3\n"
	case "error": // field 1 of CodeGeneratorResponse
		s += "printf '\\012\\005wrong'\n"
	case "garbage":
		s += "printf '\\377\\377\\377'\n"
	}
	p := filepath.Join(cs.Dir, "bin", "protoc-gen-"+name)
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte(s), 0755); err != nil {
		cs.Fatal("%v", err)
	}
	return p
}

func c25All(cs *core.Case) {
	c, r := cs.C, cs.R
	cfg := fullCfg(cs)
	cfg.Pkgs, cfg.FilesPerPkg, cfg.Safe = 1+r.Intn(3), 1+r.Intn(3), true
	s := pgen.Generate(r, cfg)
	sub := pick(r, "", "", "idl", "a/idl", "x y")
	root := filepath.Join(cs.W, "p", sub)
	conf := M{"protoc": M{"allow_unused_imports": chance(r, 90)}}
	lint := M{"group": pick(r, "uber1", "uber2", "google", "empty", "empty")}
	if chance(r, 30) {
		lint["file_header"] = M{"content": "Header of all.\n\nIn two parts."}
	}
	if chance(r, 20) {
		lint["java_package_prefix"] = pick(r, "io.x", "com")
	}
	if chance(r, 50) {
		rules := M{}
		add, remove := L{}, L{}
		some := append([]string{"FILE_OPTIONS_REQUIRE_GO_PACKAGE", "FILE_OPTIONS_REQUIRE_JAVA_PACKAGE", "MESSAGES_HAVE_COMMENTS", "ENUMS_HAVE_COMMENTS", "COMMENTS_NO_C_STYLE", "FIELDS_NOT_RESERVED", "IMPORTS_NOT_WEAK", "MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES"}, c02Rules...)
		for _, i := range r.Perm(len(some))[:1+r.Intn(5)] {
			if chance(r, 70) {
				add = append(add, some[i])
			} else {
				remove = append(remove, some[i])
			}
		}
		if len(add) > 0 {
			rules["add"] = add
		}
		if len(remove) > 0 {
			rules["remove"] = remove
		}
		lint["rules"] = rules
	}
	conf["lint"] = lint
	var faults []string
	plugs := L{}
	for _, x := range []M{{"name": "cpp", "output": "gen/cpp"}, {"name": "python", "output": "../gen py"}, {"name": "descriptor_set", "output": "gen/ds", "file_suffix": "bin", "include_imports": true}} {
		if chance(r, 40) {
			plugs = append(plugs, x)
		}
	}
	if chance(r, 20) {
		f := pick(r, "status", "error", "garbage", "none", "missing")
		faults = append(faults, "plugin "+f)
		p := c25Plugin(cs, "own", f)
		if f == "missing" {
			os.Remove(p)
		}
		plugs = append(plugs, M{"name": "own", "output": "gen/own", "path": p})
	}
	if len(plugs) > 0 || chance(r, 30) {
		conf["generate"] = M{"plugins": plugs}
	}
	var names []string
	for i, f := range s.Files {
		t := f.Render()
		if chance(r, 5) {
			t = plantErr(r, s, f, t, i)
			faults = append(faults, "error")
		}
		if chance(r, 4) { // protoc accepts it, format does not
			t += "\nmessage Format" + itoa(i) + " {\n  reserved 0x10;\n}\n"
			faults = append(faults, "format")
		}
		if chance(r, 30) {
			t = strings.Replace(t, "\n\n", "\n\n\n", 1)
		}
		cs.Write(filepath.Join("p", sub, f.Path), t)
		names = append(names, f.Path)
	}
	if s.OptFile {
		cs.Write(filepath.Join("p", sub, pgen.OptsPath), pgen.OptsSource)
	}
	cs.Write(filepath.Join("p", sub, "vx/opt.proto"), vxOpt)
	if chance(r, 15) {
		cs.Write(filepath.Join("p", sub, "out/x.proto"), "syntax = \"proto3\";\npackage none;\nmessage x {Nope y = 1;}\n")
		conf["excludes"] = L{"out"}
	}
	// outputs that are there already, or cannot be
	if chance(r, 30) {
		cs.Write(filepath.Join("p", sub, "gen/cpp/old.txt"), "old\n")
	} else if chance(r, 6) {
		cs.Write(filepath.Join("p", sub, "gen"), "a file\n")
		faults = append(faults, "output is a file")
	}
	var flags []string
	if chance(r, 10) {
		cs.Write(filepath.Join("p", sub, "prototool.yaml"), "lint:\n  group: nope\n")
		flags = append(flags, "--config-data", toJSON(conf))
	} else if chance(r, 30) {
		cs.Write(filepath.Join("p", sub, "prototool.json"), toJSON(conf))
	} else {
		cs.Write(filepath.Join("p", sub, "prototool.yaml"), toYAML(conf, 0))
	}
	// where and on what
	cwd := root
	if flags == nil {
		cwd = pick(r, root, root, cs.W, filepath.Join(cs.W, "p"), filepath.Dir(filepath.Join(root, names[0])))
	}
	target := root
	switch r.Intn(5) {
	case 0:
		target = filepath.Join(root, names[r.Intn(len(names))])
	case 1:
		target = filepath.Join(root, filepath.Dir(names[r.Intn(len(names))]))
	}
	arg := rel(cwd, target)
	if chance(r, 15) {
		arg = target
	}
	if chance(r, 30) {
		flags = append(flags, pickL(r, "--json", "--error-format=filename:line:id:message", "--error-format=message"))
	}
	noFormat, noLint, fix := chance(r, 20), chance(r, 20), chance(r, 50)
	args := append([]string{"all"}, flags...)
	if noFormat {
		args = append(args, "--disable-format")
	}
	if noLint {
		args = append(args, "--disable-lint")
	}
	if fix {
		args = append(args, pick(r, "--fix", "-f"))
	}
	args = append(args, arg)

	keep := filepath.Join(cs.Dir, "keep")
	if res := cs.Exec(core.Opt{Quiet: true}, "/bin/cp", "-a", cs.W, keep); res.Code != 0 {
		cs.Fatal("%s", res.Err)
	}
	logged := func(a ...string) (*core.Res, []string) {
		f := &core.FakeConf{Rules: []core.FakeRule{{Real: true}}, Log: filepath.Join(cs.Dir, "log")}
		os.Remove(f.Log)
		res := cs.Run(core.Opt{Dir: cwd, Fake: f}, a...)
		var l []string
		for _, x := range core.Starts(core.ReadFakeLog(f.Log)) {
			a := parseProtoc(x)
			l = append(l, fmt.Sprintf("%s %q %q", a.Out, core.Sorted(a.Flags), core.Sorted(a.Files)))
		}
		return res, l
	}
	before := core.Snapshot(cs.W)
	all, allProcs := logged(args...)
	after := core.Snapshot(cs.W)
	if err := os.RemoveAll(cs.W); err != nil {
		cs.Fatal("%v", err)
	}
	if res := cs.Exec(core.Opt{Dir: cs.Dir, Quiet: true}, "/bin/mv", keep, cs.W); res.Code != 0 {
		cs.Fatal("%s", res.Err)
	}
	steps := [][]string{{"compile"}}
	if !noFormat {
		steps = append(steps, []string{"format", "-w"})
		if fix {
			steps[1] = append(steps[1], "--fix")
		}
	}
	steps = append(steps, []string{"generate"})
	if !noLint {
		steps = append(steps, []string{"lint"})
	}
	out, code, done := "", 0, ""
	var procs []string
	for _, st := range steps {
		res, l := logged(append(append(append([]string{}, st...), flags...), arg)...)
		if st[0] == "compile" || st[0] == "generate" {
			procs = append(procs, l...)
		}
		out += res.Out
		code = res.Code
		done = st[0]
		if res.Code != 0 {
			done += " fails"
			break
		}
	}
	cs.Note("faults %v, steps until %s", faults, done)
	c.Count("until "+done, 1)
	if all.Code != code {
		cs.Fail("%v exits %d, its steps one by one (until %s) %d\nall:\n%s%s\nsteps:\n%s", args, all.Code, done, code, all.Out, all.Err, out)
		return
	}
	if all.Out != out {
		cs.Fail("%v prints\n%s\nits steps one by one (until %s)\n%s", args, all.Out, done, out)
		return
	}
	stepped := core.Snapshot(cs.W)
	if done == "generate fails" {
		// which directories are made before one cannot be made is open
		for _, m := range []map[string]string{stepped, after} {
			for p, v := range m {
				if strings.HasPrefix(v, "dir ") {
					delete(m, p)
				}
			}
		}
	}
	d := core.DiffSnap(stepped, after)
	if len(d) > 0 {
		cs.Fail("%v leaves other files than its steps one by one (until %s):\n%s", args, done, strings.Join(d, "\n"))
		return
	}
	if d := core.DiffLists(core.Sorted(procs), core.Sorted(allProcs)); d != "" {
		cs.Fail("%v starts other protoc processes than compile and generate (until %s):\n%s", args, done, d)
		return
	}
	c.Count("protoc processes", int64(len(allProcs)))
	ch := core.DiffSnap(before, after)
	c.Count("changed paths", int64(len(ch)))
	if len(ch) > 0 || out != "" {
		cs.Sig("%s %v %s %d %s", done, flags, rel(cs.W, target), len(ch), out)
	}
}
