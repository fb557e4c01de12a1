package props

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C12", Level: "exploration", Confirm: true, Run: runC12,
		Rule:  "real: generated file sets with planted errors and warnings of many kinds, compiled through a logging stand-in that runs the real protoc; every logged invocation is replayed with protoc and the diagnostics, mapped by a reference, must be exactly the lines printed. scripted: the stand-in prints scripted diagnostics of every known and of unknown form, exits with any code, is killed or is missing, in several directories finishing in varied order. Non-trivial: at least one diagnostic or failure; distinct by the expected lines.",
		Notes: []string{"protoc stops at the first file of an invocation that does not parse, so the diagnostics of later files in the same directory are protoc's to withhold", "when a protoc process cannot be run or fails silently the command reports that failure; it then need not relay the diagnostics of other processes"}})
}

// plantErr damages the text of a file; the kinds are those protoc diagnoses.
func plantErr(r *rand.Rand, s *pgen.Set, f *pgen.File, text string, i int) string {
	uid := fmt.Sprintf("Err%d", i)
	add := func(t string) string { return text + "\n" + t + "\n" }
	imp := func(t string) string { // insert after the syntax line
		j := strings.Index(text, "syntax = ")
		if j < 0 {
			return text
		}
		k := strings.Index(text[j:], "\n")
		return text[:j+k+1] + t + "\n" + text[j+k+1:]
	}
	rp := ""
	if f.Syntax == "proto2" {
		rp = "optional "
	}
	switch r.Intn(16) {
	case 0:
		return add("message " + uid + " { " + rp + "Nope x = 1; }")
	case 1:
		return add("message " + uid + " { " + rp + "int32 a = 1; " + rp + "int32 b = 1; }")
	case 2:
		return add("message " + uid + " { int32 }")
	case 3:
		if len(s.Files) > 1 {
			g := s.Files[r.Intn(len(s.Files))]
			if g != f {
				return imp(fmt.Sprintf("import %q;", g.Path))
			}
		}
		return imp(`import "google/protobuf/type.proto";`)
	case 4:
		return imp(`import "google/protobuf/wrappers.proto"; // unused`)
	case 5:
		return imp(fmt.Sprintf("import \"no/such%d.proto\";", i))
	case 6:
		return add("message " + uid + " { " + rp + "int32 a_b = 1; " + rp + "int32 aB = 2; }")
	case 7:
		j := strings.Index(text, "syntax = ")
		k := strings.Index(text, ";")
		if j >= 0 && k > j {
			return text[:j] + text[k+1:]
		}
		return text
	case 8:
		return add("extend google.protobuf.MessageOptions { optional int32 zz = 50000; }")
	case 9:
		return add("message " + uid + " {} message " + uid + " {}")
	case 10:
		return add("enum " + uid + " { E_" + uid + " = 1; }")
	case 11:
		return imp(fmt.Sprintf("import %q;", f.Path)) // imports itself
	case 12:
		return add("message " + uid + " { option (nope.opt) = \"a: b\"; }")
	case 13:
		return add("message " + uid + " { option deprecated = 3; " + rp + "string s = 1 [deprecated = \"x:y\"]; }")
	case 14:
		return imp("import \"vx/opt.proto\";") + "\nmessage " + uid + " { option (vx.aa) = { x: \"hi\" }; }\n"
	default:
		return add("message " + uid + " { reserved 1 to 3; " + rp + "int32 q = 2; } }")
	}
}

const vxOpt = "syntax = \"proto2\";\n\npackage vx;\n\nimport \"google/protobuf/descriptor.proto\";\n\nmessage A {\n  optional int32 x = 1;\n}\n\nextend google.protobuf.MessageOptions {\n  optional A aa = 51234;\n}\n"

var (
	reDiag   = regexp.MustCompile(`^(.*?):(\d+):(\d+): (.*)$`)
	reUnused = regexp.MustCompile(`^warning: Import (.*) is unused\.$`)
	reOldUn  = regexp.MustCompile(`^warning: Import (.*) but not used\.$`)
	reOldUn2 = regexp.MustCompile(`^([^:]*): warning: Import (.*) but not used\.$`)
	reNF     = regexp.MustCompile(`^(.*): File not found\.$`)
	reNoDir  = regexp.MustCompile(`^(.*): warning: directory does not exist\.$`)
	reNoSyn  = regexp.MustCompile(`No syntax specified for the proto file: (.*)\. Please use`)
	reRec    = regexp.MustCompile(`^File recursively imports itself: (.*)$`)
	rePlug   = regexp.MustCompile(`^--([^ ]*)_out: protoc-gen-([^ ]*): Plugin failed with status code (\d+)\.$`)
	rePlug2  = regexp.MustCompile(`^--([^ ]*)_out: (.*)$`)
	reNoLine = regexp.MustCompile(`^([^: ]+\.proto): (.*)$`)
	reNoProg = regexp.MustCompile(`^(.*)protoc-gen-([^ ]*): program not found or is not executable$`)
)

type diag struct {
	file, line, col, msg string
	alt                  string // another acceptable form
}

func (d *diag) String() string {
	f := d.file
	if f == "" {
		f = "<input>"
	}
	return f + ":" + d.line + ":" + d.col + ":" + d.msg
}

func atLeast1(s string) string {
	if s == "0" {
		return "1"
	}
	return s
}

// mapDiag is the reference for relaying one line of protoc.
func mapDiag(line string, includes []string, cwd string, allowUnused bool) *diag {
	line = strings.TrimSpace(line)
	if line == "" {
		return nil
	}
	disp := func(f string) string {
		for _, i := range includes {
			p := filepath.Join(i, f)
			if fi, err := os.Stat(p); err == nil && !fi.IsDir() {
				return rel(cwd, p)
			}
		}
		return f
	}
	quote := func(s string) string { return `"` + s + `"` }
	if m := rePlug.FindStringSubmatch(line); m != nil {
		return &diag{line: "1", col: "1", msg: "protoc-gen-" + m[2] + " failed with status code " + m[3] + "."}
	}
	if m := rePlug2.FindStringSubmatch(line); m != nil {
		return &diag{line: "1", col: "1", msg: "protoc-gen-" + m[1] + ": " + m[2]}
	}
	if m := reNoSyn.FindStringSubmatch(line); m != nil {
		return &diag{file: disp(m[1]), line: "1", col: "1", msg: `No syntax specified. Please use 'syntax = "proto2";' or 'syntax = "proto3";' to specify a syntax version.`}
	}
	if m := reDiag.FindStringSubmatch(line); m != nil {
		msg := strings.TrimSpace(m[4])
		d := &diag{file: disp(m[1]), line: atLeast1(m[2]), col: atLeast1(m[3]), msg: msg}
		u := reUnused.FindStringSubmatch(msg)
		if u == nil {
			u = reOldUn.FindStringSubmatch(msg)
		}
		if u != nil {
			if allowUnused {
				return nil
			}
			d.msg = "Import " + quote(u[1]) + " was not used."
		}
		if u := reRec.FindStringSubmatch(msg); u != nil {
			d.msg = "File recursively imports itself " + u[1] + "."
		}
		return d
	}
	if m := reOldUn2.FindStringSubmatch(line); m != nil {
		if allowUnused {
			return nil
		}
		return &diag{file: disp(m[1]), line: "1", col: "1", msg: "Import " + quote(m[2]) + " was not used."}
	}
	if m := reNoDir.FindStringSubmatch(line); m != nil {
		return &diag{line: "1", col: "1", msg: "Directory " + quote(m[1]) + " does not exist."}
	}
	if m := reNF.FindStringSubmatch(line); m != nil {
		return &diag{line: "1", col: "1", msg: "Import " + quote(m[1]) + " was not found."}
	}
	if m := reNoProg.FindStringSubmatch(line); m != nil {
		return &diag{line: "1", col: "1", msg: "protoc-gen-" + m[2] + " not found or is not executable."}
	}
	if m := reNoLine.FindStringSubmatch(line); m != nil {
		d := &diag{file: disp(m[1]), line: "1", col: "1", msg: m[2]}
		if !strings.HasSuffix(line, " is not defined.") {
			d.alt = (&diag{line: "1", col: "1", msg: line}).String()
		}
		return d
	}
	return &diag{line: "1", col: "1", msg: line}
}

// relayed compares the lines printed with those expected.
func relayed(want []*diag, got []string) string {
	have := map[string]int{}
	for _, g := range got {
		have[g]++
	}
	var w []string
	for _, d := range want {
		s := d.String()
		if have[s] == 0 && d.alt != "" && have[d.alt] > 0 {
			s = d.alt
		}
		have[s]--
		w = append(w, s)
	}
	return core.DiffLists(w, got)
}

func diagStrings(ds []*diag) []string {
	var out []string
	for _, d := range ds {
		out = append(out, d.String())
	}
	return core.Sorted(out)
}

func runC12(c *core.Ctx) {
	c.Each("real", c.N(500, 9000), c12Real)
	c.Each("scripted", c.N(500, 9000), c12Scripted)
}

func c12Real(cs *core.Case) {
	c, r := cs.C, cs.R
	cfg := pgen.Cfg{Pkgs: 4, FilesPerPkg: 3, Defs: 3, Depth: 1, Proto2: 30, StdOpts: 10, FileOpts: 5, Services: true, WKT: true, Unversioned: 20, ImportPct: 50, DupDirs: 15}
	s := pgen.Generate(r, cfg)
	sub := pick(r, "", "", "proj", "x/proj")
	root := filepath.Join(cs.W, sub)
	nerr := 0
	bad := pick(r, "none", "one", "some", "many")
	var abs []string
	dirs := map[string]bool{root: true}
	for i, f := range s.Files {
		t := f.Render()
		plant := 0
		switch {
		case bad == "one" && i == 0, bad == "some" && chance(r, 30):
			plant = 1
		case bad == "many":
			plant = r.Intn(3)
		}
		for j := 0; j < plant; j++ {
			t = plantErr(r, s, f, t, i*10+j)
			nerr++
		}
		p := filepath.Join(root, f.Path)
		if chance(r, 15) { // names one of which ends in the other
			p = filepath.Join(filepath.Dir(p), pick(r, "x", "pre_")+filepath.Base(p))
			if _, err := os.Stat(p); err == nil {
				continue
			}
			if f.Package != "" && chance(r, 70) { // keep the original under its name, too, as its own package
				cs.Write(filepath.Join(root, f.Path), t)
				abs = append(abs, filepath.Join(root, f.Path))
				t = "syntax = \"proto3\";\npackage other" + fmt.Sprint(i) + ";\nmessage A { " + pick(r, "Nope", "int32", "int32") + " f = 1; }\n"
			} else {
				p = filepath.Join(root, f.Path)
			}
		}
		cs.Write(p, t)
		abs = append(abs, p)
		for _, a := range ancestors(filepath.Dir(p)) {
			if within(root, a) {
				dirs[a] = true
			}
		}
	}
	if _, err := os.Stat(filepath.Join(root, "vx/opt.proto")); err != nil {
		p := cs.Write(filepath.Join(root, "vx/opt.proto"), vxOpt)
		abs = append(abs, p)
		dirs[filepath.Dir(p)] = true
	}
	dl := sortedKeys(dirs)
	conf := M{"lint": M{"group": "empty"}}
	pc := M{}
	allow := chance(r, 30)
	if allow {
		pc["allow_unused_imports"] = true
	}
	switch r.Intn(6) {
	case 0:
		pc["includes"] = L{rel(root, dl[r.Intn(len(dl))])}
	case 1:
		pc["includes"] = L{".", "nosuchdir"}
	case 2:
		pc["includes"] = L{"."}
	}
	if len(pc) > 0 {
		conf["protoc"] = pc
	}
	nplug := 0
	if chance(r, 20) {
		conf["generate"] = M{"plugins": L{M{"name": "descriptor_set", "output": "../gen", "file_suffix": "bin"}, M{"name": "cpp", "output": "../gen/cpp"}}}
		nplug = 2
	}
	cs.Write(filepath.Join(root, "prototool.yaml"), toYAML(conf, 0))
	cwd := root
	switch r.Intn(4) {
	case 0:
		cwd = dl[r.Intn(len(dl))]
	case 1:
		cwd = cs.W
	}
	argDir := root
	if chance(r, 40) {
		argDir = dl[r.Intn(len(dl))]
	}
	arg := rel(cwd, argDir)
	single := ""
	if chance(r, 25) {
		single = abs[r.Intn(len(abs))]
		argDir = filepath.Dir(single)
		arg = rel(cwd, single)
	}
	if chance(r, 20) {
		arg = filepath.Join(cwd, arg)
	} else if chance(r, 20) {
		arg = "./" + arg
	}
	cmd := pick(r, "compile", "compile", "compile", "lint", "format -l", "descriptor-set", "x inspect packages", "all")
	if nplug > 0 {
		cmd = "generate"
	}
	if cmd == "all" || cmd == "generate" {
		// keep what they write inside the case
	}
	if strings.HasPrefix(cmd, "x ") {
		single, arg = "", rel(cwd, argDir)
	}
	fake := &core.FakeConf{Rules: []core.FakeRule{{Match: "", Real: true, DelayMs: 0}}}
	// what protoc says is asked for before the command may write anything: compile
	// first in a dry run to learn the invocations, then replay them
	args := append(strings.Fields(cmd), arg)
	res := cs.Run(core.Opt{Dir: cwd, Fake: fake}, args...)
	starts := core.Starts(core.ReadFakeLog(fake.Log))
	if cmd == "all" { // the compile step only
		n := map[string]bool{}
		var st [][]string
		for _, a := range starts {
			if k := strings.Join(a, " "); !n[k] {
				n[k] = true
				st = append(st, a)
			}
		}
		starts = st
	}
	// every selected file was given to protoc
	covered := map[string]bool{}
	for _, a := range starts {
		for _, f := range parseProtoc(a).Files {
			covered[f] = true
		}
	}
	for _, f := range abs {
		if within(argDir, filepath.Dir(f)) && !covered[f] {
			cs.Fatal("%s was not given to protoc by %q\n%s", f, args, res)
		}
	}
	var want []*diag
	var mu sync.Mutex
	fails := 0
	silent := false
	var wg sync.WaitGroup
	for _, a := range starts {
		a := append([]string{}, a...)
		for i := range a {
			if a[i] == "-o" {
				a[i+1] = "/dev/null"
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			pr := cs.Exec(core.Opt{Dir: cwd, Quiet: true}, core.RealProtoc, a...)
			cs.Note("protoc %s -> %d\n%s", strings.Join(a, " "), pr.Code, pr.Err)
			mu.Lock()
			defer mu.Unlock()
			n := 0
			for _, l := range core.SplitLines(pr.Err) {
				if d := mapDiag(l, parseProtoc(a).Includes, cwd, allow); d != nil {
					n++
					if single == "" || d.file == rel(cwd, single) {
						want = append(want, d)
					}
				}
			}
			if pr.Code != 0 || n > 0 {
				fails++
			}
			if pr.Code != 0 && n == 0 {
				silent = true
			}
		}()
	}
	wg.Wait()
	if silent {
		return
	}
	if fails > 0 {
		if res.Code == 0 {
			cs.Fatal("protoc does not accept the files but the command exits zero\n%s", res)
		}
		if d := relayed(want, res.Lines()); d != "" {
			cs.Fatal("the diagnostics of protoc are not relayed as they should be (cwd %s):\n%s\n%s", cwd, d, res)
		}
		cs.Sig(strings.Join(diagStrings(want), "\n"))
		cs.Sample("%s: %d diagnostics: %v", cmd, len(want), diagStrings(want))
	} else if cmd != "format -l" && cmd != "all" {
		if res.Code != 0 {
			cs.Fatal("protoc accepts every file but the command fails\n%s", res)
		}
		if cmd == "compile" && res.Out+res.Err != "" {
			cs.Fatal("protoc accepts every file but compile prints something\n%s", res)
		}
	}
	c.Count("protoc-invocations", int64(len(starts)))
	c.Count("diagnostics", int64(len(want)))
	c.Count("cmd "+cmd, 1)
	if fails == 0 {
		c.Count("accepted-sets", 1)
	}
}

func c12Scripted(cs *core.Case) {
	c, r := cs.C, cs.R
	root := cs.W
	conf := M{"lint": M{"group": "empty"}}
	allow := chance(r, 30)
	if allow {
		conf["protoc"] = M{"allow_unused_imports": true}
	}
	nplug := 0
	var plugs L
	if chance(r, 20) {
		for _, n := range []string{"aa", "bb"} {
			plugs = append(plugs, M{"name": n, "output": "gen"})
			nplug++
		}
		conf["generate"] = M{"plugins": plugs}
	}
	cs.Write("prototool.yaml", toYAML(conf, 0))
	var dirs []string
	files := map[string][]string{}
	for i := 1 + r.Intn(12); i > 0; i-- {
		d := pick(r, fmt.Sprintf("d%d", i), fmt.Sprintf("a/d%d", i), fmt.Sprintf("d/a%d/x", i))
		dirs = append(dirs, d)
		for j := 1 + r.Intn(3); j > 0; j-- {
			f := filepath.Join(d, fmt.Sprintf("%sf%d.proto", pick(r, "", "x", "xx"), j))
			files[d] = append(files[d], f)
			cs.Write(f, "syntax = \"proto3\";\n\npackage p;\n")
		}
	}
	cwd := root
	if chance(r, 40) {
		cwd = filepath.Join(root, dirs[r.Intn(len(dirs))])
	}
	fake := &core.FakeConf{}
	var want []*diag
	fail := false
	calm := chance(r, 20) // nothing to relay
	hard := false         // a process without diagnostics that fails
	for _, d := range dirs {
		n := 1
		for k := 0; k < max1(nplug); k++ {
			match := filepath.Join(root, d) + "/"
			if nplug > 0 {
				// the rule of the plugin's process: both have the directory; match on flag and directory cannot be combined, so script both alike
				n = nplug
				if k > 0 {
					break
				}
			}
			rule := core.FakeRule{Match: match, DelayMs: r.Intn(25)}
			fs := files[d]
			var lines []string
			k := r.Intn(11)
			if calm && k > 2 {
				k = 10
			}
			switch k {
			case 0, 1, 2:
			case 10: // only lines that are not relayed
				if allow {
					lines = append(lines, fmt.Sprintf("%s:3:1: warning: Import x/y.proto is unused.", fs[0]))
				}
				if chance(r, 30) {
					lines = append(lines, "", "  ")
				}
			case 3:
				lines = append(lines, strings.Repeat(fmt.Sprintf("%s:1:2: e\n", fs[0]), 1+r.Intn(50)))
			default:
				for i := 1 + r.Intn(5); i > 0; i-- {
					f := fs[r.Intn(len(fs))]
					if chance(r, 20) {
						o := dirs[r.Intn(len(dirs))]
						f = files[o][0]
					}
					l, k := r.Intn(100), r.Intn(100)
					lines = append(lines, pickL(r,
						fmt.Sprintf("%s:%d:%d: \"Foo\" is not defined.", f, l, k),
						fmt.Sprintf("%s:%d:%d: message with: colons: and \"quotes\"", f, l, k),
						fmt.Sprintf("%s:%d:%d: warning: Import x/y.proto is unused.", f, l, k),
						fmt.Sprintf("%s:%d:%d: warning: Import x/y.proto but not used.", f, l, k),
						fmt.Sprintf("%s: warning: Import x/y.proto but not used.", f),
						fmt.Sprintf("%s:%d:%d: warning: Import of x is unused, but important.", f, l, k),
						fmt.Sprintf("%s:%d:%d: warning: Field name \"aB\" is odd.", f, l, k),
						fmt.Sprintf("%s:%d:%d: warning: Import x.proto is unusedly public.", f, l, k),
						fmt.Sprintf("%s: warning: something else", f),
						fmt.Sprintf("warning: Import x%d.proto is unused.", l),
						fmt.Sprintf("%s:%d:%d: File recursively imports itself: a.proto -> b.proto -> a.proto", f, l, k),
						fmt.Sprintf("x/no%d.proto: File not found.", l),
						fmt.Sprintf("%s:%d:%d: Import \"x/no.proto\" was not found or had errors.", f, l, k),
						fmt.Sprintf("no/dir%d: warning: directory does not exist.", l),
						fmt.Sprintf("[libprotobuf WARNING google/protobuf/compiler/parser.cc:562] No syntax specified for the proto file: %s. Please use 'syntax = \"proto2\";' or 'syntax = \"proto3\";' to specify a syntax version. (Defaulted to proto2 syntax.)", f),
						fmt.Sprintf("--foo_out: protoc-gen-foo: Plugin failed with status code %d.", 1+l),
						fmt.Sprintf("--foo_out: some/file.proto: not happy: %d", l),
						fmt.Sprintf("protoc-gen-zz: program not found or is not executable"),
						fmt.Sprintf("%s:%d:%d: The JSON camel-case name of field \"aB\" conflicts with field \"a_b\". This is not allowed in proto3.", f, l, k),
						fmt.Sprintf("%s:%d:%d: Error while parsing option value for \"aa\": Expected integer, got: \"hi\"", f, l, k),
						fmt.Sprintf("a line nobody knows %d", l),
						fmt.Sprintf("a: b %d", l),
						fmt.Sprintf("a: b: c: %d", l),
						fmt.Sprintf("  indented %d  ", l),
						"", "  ", "ünï \x01 \x7f "+fmt.Sprint(l), "%s %d %n",
						strings.Repeat("long ", 30000)+fmt.Sprint(l),
						fmt.Sprintf("%s:%d:%d:", f, l, k),
						fmt.Sprintf("google/protobuf/any.proto:%d:%d: bad thing", l, k),
					))
				}
			}
			rule.Stderr = strings.Join(lines, "\n")
			if chance(r, 70) && rule.Stderr != "" {
				rule.Stderr += "\n"
			}
			if chance(r, 30) { // standard output is not for diagnostics
				rule.Stdout = "something on stdout\n"
			}
			nd := 0
			for _, l := range strings.Split(rule.Stderr, "\n") {
				if dg := mapDiag(l, []string{root, core.RealWKT}, cwd, allow); dg != nil {
					nd++
					for q := 0; q < n; q++ {
						want = append(want, dg)
					}
				}
			}
			switch r.Intn(5) {
			case 0:
				rule.Exit = []int{1, 2, 3, 42, 127, 255}[r.Intn(6)]
			case 1:
				if nd > 0 || chance(r, 30) {
					rule.Exit = 1
				}
			case 2:
				rule.Kill = chance(r, 30)
			}
			if nd > 0 {
				fail = true
			} else if rule.Exit != 0 || rule.Kill {
				fail, hard = true, true
			}
			fake.Rules = append(fake.Rules, rule)
		}
	}
	cmd := pick(r, "compile", "compile", "lint", "x inspect packages", "all")
	if nplug > 0 {
		cmd = "generate"
	}
	opt := core.Opt{Dir: cwd, Fake: fake, Timeout: 60 * time.Second}
	args := append(strings.Fields(cmd), rel(cwd, root))
	mode := "normal"
	if chance(r, 8) { // protoc cannot be run
		mode = pick(r, "noexec", "garbage", "dangling")
		p := filepath.Join(cs.Dir, "protoc-"+mode)
		switch mode {
		case "noexec":
			cs.Write(p, "#!/bin/sh\nexit 0\n")
		case "garbage":
			cs.Write(p, "\x7fELFgarbage")
			os.Chmod(p, 0755)
		case "dangling":
			cs.Write(p, "#!/nonexistent/interp\n")
			os.Chmod(p, 0755)
		}
		opt.NoProtoc = true
		args = append(args, "--protoc-bin-path", p, "--protoc-wkt-path", core.RealWKT)
		fail, hard = true, true
	}
	res := cs.Run(opt, args...)
	if res.Hung {
		cs.Fatal("the command hangs: %s", res)
	}
	if fail && res.Code == 0 {
		cs.Fatal("protoc failed but the command exits zero (%s)\n%s", mode, res)
	}
	if fail && strings.TrimSpace(res.Out+res.Err) == "" {
		cs.Fatal("protoc failed but the command says nothing\n%s", res)
	}
	if fail && !hard {
		if d := relayed(want, res.Lines()); d != "" {
			cs.Fatal("the diagnostics of protoc are not relayed as they should be (cwd %s):\n%s\n%s", cwd, d, res)
		}
	}
	if !fail && (cmd == "compile" || cmd == "generate") && (res.Code != 0 || res.Out+res.Err != "") {
		cs.Fatal("every protoc process succeeded silently but the command fails or prints\n%s", res)
	}
	c.Count("scripted-processes", int64(len(core.Starts(core.ReadFakeLog(fake.Log)))))
	c.Count("diagnostics", int64(len(want)))
	c.Count("mode "+mode, 1)
	if hard {
		c.Count("hard-failures", 1)
	}
	if fail {
		cs.Sig(strings.Join(diagStrings(want), "\n"), mode)
		if len(want) > 0 && len(want) < 8 {
			cs.Sample("%s in %d directories: %v", cmd, len(dirs), diagStrings(want))
		}
	}
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func pickL(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }
