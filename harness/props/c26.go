package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C26", Level: "exploration", Run: runC26,
		Rule:  "one command on one target of a project (valid or failing) is run several times, each time on a fresh copy: from other working directories (among them one with a configuration of its own), with the target spelled relatively, absolutely, through .. and with superfluous slashes, with protoc given by flags, by environment variables or by flags over wrong variables, with flags placed and spelled differently, with --debug, in other locales, time zones, HOME and TMPDIR, with the project moved to a directory with an odd name. Exit code, output with its paths taken relative to the project, files written (relative to the project) and protoc processes must be the same. Non-trivial: the command prints, writes or fails; distinct by command, target and result.",
		Notes: []string{"Projects have a configuration file: without one, the working directory is documented to matter."}})
}

func runC26(c *core.Ctx) {
	c.Each("spell", c.N(400, 9000), c26Spell)
}

// c26Way is one way to say the same.
type c26Way struct {
	what  string
	cwd   string
	arg   string
	flags []string
	env   []string
	no    bool // protoc is not in the environment
}

// spellings returns ways to name a target from a directory.
func c26Arg(cs *core.Case, cwd, target string, isFile bool) string {
	r := cs.R
	a := rel(cwd, target)
	if chance(r, 30) {
		a = target
	}
	for i := r.Intn(3); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			if !filepath.IsAbs(a) {
				a = "./" + a
			}
		case 1:
			if !isFile {
				a += "/"
			}
		case 2:
			if !isFile {
				a += "/."
			}
		case 3:
			if i := strings.LastIndex(a, "/"); i > 0 {
				a = a[:i] + "/" + a[i:]
			}
		case 4:
			// into a directory and back
			if isFile {
				d, b := filepath.Split(a)
				a = d + "../" + filepath.Base(filepath.Dir(target)) + "/" + b
			} else {
				a = strings.TrimRight(a, "/") + "/../" + filepath.Base(target)
			}
		}
	}
	if a[0] == '-' {
		a = "./" + a
	}
	return a
}

var c26Failure = regexp.MustCompile(`^([^:]+\.proto)(:\d+:\d+:.*)$`)

// c26Norm takes the paths of an output relative to the project.
func c26Norm(out, cwd, base string) string {
	var l []string
	for _, x := range core.SplitLines(out) {
		m := map[string]interface{}{}
		if strings.HasPrefix(x, "{") && json.Unmarshal([]byte(x), &m) == nil {
			if f, ok := m["filename"].(string); ok && f != "" {
				if !filepath.IsAbs(f) {
					f = filepath.Join(cwd, f)
				}
				m["filename"] = rel(base, f)
			}
			b, _ := json.Marshal(m)
			x = string(b)
		} else if m := c26Failure.FindStringSubmatch(x); m != nil {
			f := m[1]
			if !filepath.IsAbs(f) {
				f = filepath.Join(cwd, f)
			}
			x = rel(base, f) + m[2]
		}
		l = append(l, strings.Replace(x, base, "$BASE", -1))
	}
	sort.Strings(l) // the order follows the spelling of the names
	return strings.Join(l, "\n")
}

func c26Spell(cs *core.Case) {
	c, r := cs.C, cs.R
	cfg := fullCfg(cs)
	cfg.Pkgs, cfg.FilesPerPkg, cfg.Safe = 1+r.Intn(3), 1+r.Intn(3), true
	s := pgen.Generate(r, cfg)
	sub := pick(r, "idl", "idl", "a/idl", "x y", "i/d/l")
	first := filepath.Join(cs.W, "p")
	conf := M{"protoc": M{"allow_unused_imports": chance(r, 80)}, "lint": M{"group": pick(r, "uber1", "uber2", "google")}}
	plugs := L{}
	for _, x := range []M{{"name": "cpp", "output": "gen/cpp"}, {"name": "python", "output": "../gen"}, {"name": "descriptor_set", "output": "ds", "file_suffix": "bin"}} {
		if chance(r, 50) {
			plugs = append(plugs, x)
		}
	}
	conf["generate"] = M{"plugins": plugs}
	if chance(r, 30) {
		conf["excludes"] = L{"out", "vx/none"}
		cs.Write(filepath.Join("p", sub, "out/x.proto"), "nothing")
	}
	if chance(r, 20) {
		conf["lint"].(M)["ignores"] = L{M{"id": "MESSAGES_HAVE_COMMENTS", "files": L{s.Files[0].Path}}}
	}
	if chance(r, 20) {
		conf["lint"].(M)["file_header"] = M{"path": "header.txt"}
		cs.Write(filepath.Join("p", sub, "header.txt"), "The header.\n")
	}
	if chance(r, 30) {
		conf["protoc"].(M)["includes"] = L{"../inc", "."}
		cs.Mkdir("p/inc")
		cs.Mkdir(filepath.Join("p", sub, "../inc"))
	}
	broken := chance(r, 25)
	dirs := map[string]bool{}
	var names []string
	for i, f := range s.Files {
		t := f.Render()
		if broken && chance(r, 30) {
			t = plantErr(r, s, f, t, i)
		}
		if chance(r, 30) {
			t = strings.Replace(t, "\n\n", "\n\n\n", 1)
		}
		cs.Write(filepath.Join("p", sub, f.Path), t)
		names = append(names, f.Path)
		dirs[filepath.Dir(f.Path)] = true
	}
	if s.OptFile {
		cs.Write(filepath.Join("p", sub, pgen.OptsPath), pgen.OptsSource)
	}
	cs.Write(filepath.Join("p", sub, "vx/opt.proto"), vxOpt)
	cs.Write(filepath.Join("p", sub, "prototool.yaml"), toYAML(conf, 0))
	// another project beside or around it
	cs.Write("other/prototool.yaml", "excludes:\n  - a\nlint:\n  group: empty\n")
	cs.Write("other/deep/x.proto", "syntax = \"proto3\";\n\npackage x;\n")
	if chance(r, 50) {
		cs.Write("p/prototool.yaml", "lint:\n  group: empty\nprotoc:\n  version: 1.2.3\n")
	}
	// what the configuration names is also found from other directories
	decoys := []string{"other", "other/deep", "p"}
	for d := range dirs {
		decoys = append(decoys, filepath.Join("p", sub, d))
	}
	for _, d := range decoys {
		if d == filepath.Join("p", sub) {
			continue
		}
		cs.Write(filepath.Join(d, "header.txt"), "The wrong header.\n")
		if strings.HasPrefix(d, "other") {
			for _, f := range s.Files {
				if chance(r, 60) {
					cs.Write(filepath.Join(d, pick(r, "", "inc"), f.Path), "syntax = \"proto3\";\n\npackage wrong;\n")
				}
			}
		}
	}
	target, isFile := "", false
	switch r.Intn(5) {
	case 0, 1:
		target, isFile = names[r.Intn(len(names))], true
	case 2:
		target = filepath.Dir(names[r.Intn(len(names))])
	}
	target = filepath.Join(sub, target) // relative to the project's copy
	cmds := [][]string{{"files"}, {"compile", "--json"}, {"lint", "--json"}, {"lint", "--json"}, {"format", "-l", "--json"}, {"format", "-w", "--json"}, {"format", "-w", "--fix", "--json"},
		{"generate", "--json"}, {"generate", "--dry-run"}, {"compile", "--dry-run"}, {"all", "--json"}, {"all", "--json", "--fix", "--disable-lint"},
		{"descriptor-set"}, {"descriptor-set", "--include-imports", "--include-source-info"}, {"descriptor-set", "--json"}, {"x", "inspect", "packages"}, {"x", "inspect", "package-deps", "--name", pgPkg(s)}, {"x", "inspect", "package-importers", "--name", pgPkg(s)}, {"lint", "--generate-ignores"}}
	if isFile {
		cmds = append(cmds, []string{"format"}, []string{"format", "--fix"})
	}
	cmd := cmds[r.Intn(len(cmds))]
	keep := filepath.Join(cs.Dir, "keep")
	if res := cs.Exec(core.Opt{Quiet: true}, "/bin/cp", "-a", first, keep); res.Code != 0 {
		cs.Fatal("%s", res.Err)
	}
	os.RemoveAll(first)

	type result struct {
		code  int
		out   string
		files map[string]string
		procs []string
	}
	var ref *result
	refWhat := ""
	n := 5
	for i := 0; i < n; i++ {
		base := first
		w := &c26Way{}
		if i > 0 && chance(r, 20) {
			base = filepath.Join(cs.W, pick(r, "p2", "q/p", "a b", "é", "p#1", "p,1", "p;1", "p'", "p(1)", "..p", "p..", "p$HOME", "p.proto", "gen", "inc", "%41", "p\\n"))
			w.what += " moved to " + filepath.Base(base)
		}
		os.MkdirAll(filepath.Dir(base), 0755)
		if res := cs.Exec(core.Opt{Quiet: true}, "/bin/cp", "-a", keep, base); res.Code != 0 {
			cs.Fatal("%s", res.Err)
		}
		tgt := filepath.Join(base, target)
		w.cwd, w.arg = filepath.Join(base, sub), rel(filepath.Join(base, sub), tgt)
		args := append([]string{}, cmd...)
		if i > 0 {
			places := []string{base, filepath.Join(base, sub), filepath.Join(cs.W, "other"), filepath.Join(cs.W, "other/deep"), filepath.Dir(base), "/", cs.Home}
			for d := range dirs {
				places = append(places, filepath.Join(base, sub, d))
			}
			sort.Strings(places[7:])
			w.cwd = places[r.Intn(len(places))]
			w.arg = c26Arg(cs, w.cwd, tgt, isFile)
			if !isFile && tgt == w.cwd && chance(r, 50) {
				w.arg = ""
			}
			switch r.Intn(6) {
			case 0:
				w.no = true
				w.flags = []string{"--protoc-bin-path", cs.C.Fake, "--protoc-wkt-path=" + core.RealWKT}
			case 1:
				w.no = true
				w.flags = []string{"--protoc-wkt-path", core.RealWKT, "--protoc-bin-path=" + cs.C.Fake}
				w.env = []string{"PROTOTOOL_PROTOC_BIN_PATH=/no/such", "PROTOTOOL_PROTOC_WKT_PATH=/no/such/dir"}
			case 2:
				w.no = true
				w.flags = []string{"--protoc-bin-path", cs.C.Fake}
				w.env = []string{"PROTOTOOL_PROTOC_WKT_PATH=" + core.RealWKT}
			}
			if len(w.flags) > 0 && (cmd[0] == "files" || cmd[0] == "format" && false) {
				w.flags, w.no, w.env = nil, false, nil
			}
			if chance(r, 20) {
				w.flags = append(w.flags, "--debug")
			}
			if chance(r, 40) {
				w.env = append(w.env, pickL(r, "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Tokyo", "GOMAXPROCS=1", "HOME=/no/such", "TERM=dumb", "COLUMNS=10", "PROTOTOOL_CACHE_PATH=/no/such", "XDG_CACHE_HOME=/no/such", "GOGC=5", "PWD=/usr", "EDITOR=x", "CI=true", "GIT_DIR=/no/such", "GOPATH=/no/such", "http_proxy=http://127.0.0.1:1"))
			}
			if chance(r, 30) && cmd[0] != "x" {
				// the argument first
				if w.arg != "" {
					args = append([]string{cmd[0], w.arg}, cmd[1:]...)
				}
			} else if w.arg != "" {
				args = append(args, w.arg)
			}
			if chance(r, 50) {
				args = append(args, w.flags...)
			} else if cmd[0] != "x" {
				args = append(append([]string{args[0]}, w.flags...), args[1:]...)
			} else {
				args = append(args, w.flags...)
			}
		} else {
			args = append(args, w.arg)
		}
		f := &core.FakeConf{Rules: []core.FakeRule{{Real: true}}, Log: filepath.Join(cs.Dir, "log")}
		os.Remove(f.Log)
		res := cs.Run(core.Opt{Dir: w.cwd, Fake: f, NoProtoc: w.no, Env: w.env}, args...)
		if res.Panicked() || res.Hung {
			cs.Fail("%v crashes or hangs", args)
			return
		}
		got := &result{code: res.Code, files: map[string]string{}}
		if cmd[0] == "files" && res.Code == 0 {
			var l []string
			for _, x := range res.Lines() {
				if !filepath.IsAbs(x) {
					x = filepath.Join(w.cwd, x)
				}
				l = append(l, rel(base, x))
			}
			got.out = strings.Join(core.Sorted(l), "\n")
		} else if strings.HasSuffix(strings.Join(cmd, " "), "--dry-run") {
			var l []string
			for _, x := range res.Lines() {
				l = append(l, strings.Replace(x, base, "$BASE", -1))
			}
			sort.Strings(l)
			got.out = strings.Join(l, "\n")
		} else {
			got.out = c26Norm(res.Out, w.cwd, base)
		}
		for p, v := range core.Snapshot(base) {
			got.files[rel(base, p)] = v
		}
		for _, x := range core.Starts(core.ReadFakeLog(f.Log)) {
			a := parseProtoc(x)
			var l []string
			for _, y := range a.Files {
				if !filepath.IsAbs(y) {
					y = filepath.Join(w.cwd, y)
				}
				l = append(l, y)
			}
			o := a.Out
			if strings.Contains(o, "/prototool") {
				o = "TEMP"
			}
			got.procs = append(got.procs, strings.Replace(fmt.Sprintf("%s %s %s %s", o, a.Includes, core.Sorted(a.Flags), core.Sorted(l)), base, "$BASE", -1))
		}
		got.procs = core.Sorted(got.procs)
		what := fmt.Sprintf("in %s: %v env %v%s", w.cwd, args, w.env, w.what)
		os.RemoveAll(base)
		if strings.HasSuffix(base, "q/p") {
			os.RemoveAll(filepath.Dir(base))
		}
		if ref == nil {
			ref, refWhat = got, what
			continue
		}
		c.Count("ways compared", 1)
		fail := func(f string, a ...interface{}) {
			cs.Fail("%s\nand\n%s\n%s", refWhat, what, fmt.Sprintf(f, a...))
		}
		if got.code != ref.code {
			fail("exit %d and %d:\n%s\n%s", ref.code, got.code, ref.out, got.out)
			return
		}
		if got.out != ref.out {
			fail("print\n%s\nand\n%s", ref.out, got.out)
			return
		}
		if d := core.DiffSnap(ref.files, got.files); len(d) > 0 {
			fail("write different files:\n%s", strings.Join(d, "\n"))
			return
		}
		if d := core.DiffLists(ref.procs, got.procs); d != "" {
			fail("start different protoc processes:\n%s", d)
			return
		}
	}
	c.Count("cmd "+cmd[0], 1)
	if ref.code != 0 {
		c.Count("failing", 1)
	}
	if ref.out != "" || ref.code != 0 || len(ref.procs) > 0 {
		cs.Sig("%v %s %d %s", cmd, target, ref.code, ref.out)
	}
}
