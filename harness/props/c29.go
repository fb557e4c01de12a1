package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C29", Level: "exploration", Run: runC29,
		Rule:  "(elsewhere) a command runs on a directory or file of a project, and again after files that it neither contains nor imports were added, spoilt, emptied, removed or moved, in other directories, in imported ones, in new ones with similar names, with the same packages and definitions: exit code, output, protoc processes, files of the target and generated code must be the same, and nothing elsewhere is touched. (sum) a command runs on a whole project and, on a fresh copy, on each of the directories that make it up: the failures, listed files, packages, formatted files, generated code and descriptors must be the union of those of the parts, and it fails exactly if it fails on a part. Non-trivial: the command prints, writes or fails; distinct by command, target, changes and result.",
		Notes: []string{"Go plugins, whose flags name every file by documentation, are left out; C13 checks them."}})
}

func runC29(c *core.Ctx) {
	c.Each("elsewhere", c.N(700, 12000), c29Elsewhere)
	c.Each("sum", c.N(250, 6000), c29Sum)
}

// c29Project writes a project and returns its set; files are below p.
func c29Project(cs *core.Case, pkgs int) (*pgen.Set, bool) {
	r := cs.R
	cfg := fullCfg(cs)
	cfg.Pkgs, cfg.FilesPerPkg, cfg.Safe, cfg.NoPkg = pkgs, 1+r.Intn(3), true, 0
	cfg.ImportPct = 40
	cfg.DupDirs = 15
	s := pgen.Generate(r, cfg)
	plugs := L{}
	for _, x := range []M{{"name": "cpp", "output": "gen/cpp"}, {"name": "python", "output": "gen/py"}, {"name": "descriptor_set", "output": "gen/ds", "file_suffix": "bin"}} {
		if chance(r, 60) {
			plugs = append(plugs, x)
		}
	}
	conf := M{"protoc": M{"allow_unused_imports": chance(r, 70)}, "lint": M{"group": pick(r, "uber1", "uber2", "google", "empty")}, "generate": M{"plugins": plugs}}
	if chance(r, 20) {
		conf["lint"].(M)["ignores"] = L{M{"id": "MESSAGES_HAVE_COMMENTS", "files": L{s.Files[0].Path}}}
	}
	cs.Write("p/prototool.yaml", toYAML(conf, 0))
	broken := chance(r, 30)
	for i, f := range s.Files {
		t := f.Render()
		if broken && chance(r, 25) {
			t = plantErr(r, s, f, t, i)
		}
		if chance(r, 30) {
			t = strings.Replace(t, "\n\n", "\n\n\n", 1)
		}
		cs.Write(filepath.Join("p", f.Path), t)
	}
	if s.OptFile {
		cs.Write(filepath.Join("p", pgen.OptsPath), pgen.OptsSource)
	}
	if chance(r, 40) { // the same findings in several files of one name
		what := pick(r, "message bad_name {\n  int32 BadField = 1;\n}\n", "import \"google/protobuf/any.proto\";\n", "message Good {}\n\nenum e {\n  x = 0;\n}\n")
		if chance(r, 30) {
			what = "message B {\n  Nope x = 1;\n}\n"
			broken = true
		}
		for i, d := range []string{"same", "same_x", "other/same", "same/same"} {
			if chance(r, 60) {
				cs.Write(filepath.Join("p", d, "same.proto"), fmt.Sprintf("syntax = \"proto3\";\n\npackage same%d;\n\n%s", i, what))
			}
		}
	}
	return s, broken
}

var c29Import = regexp.MustCompile(`import\s+(?:public\s+|weak\s+)?["']([^"']+)["']`)

// c29Run runs a command and takes down everything about it.
type c29Got struct {
	res   *core.Res
	files map[string]string
	procs []string
}

func c29Run(cs *core.Case, args ...string) *c29Got {
	f := &core.FakeConf{Rules: []core.FakeRule{{Real: true}}, Log: filepath.Join(cs.Dir, "log")}
	os.Remove(f.Log)
	g := &c29Got{res: cs.Run(core.Opt{Dir: "p", Fake: f}, args...), files: map[string]string{}}
	if g.res.Panicked() || g.res.Hung {
		cs.Fail("%v crashes or hangs", args)
	}
	base := filepath.Join(cs.W, "p")
	for p, v := range core.Snapshot(base) {
		if q := rel(base, p); !within(".git", q) {
			g.files[q] = v
		}
	}
	for _, x := range core.Starts(core.ReadFakeLog(f.Log)) {
		a := parseProtoc(x)
		o := a.Out
		if strings.Contains(o, cs.Tmp) {
			o = "TEMP"
		}
		g.procs = append(g.procs, fmt.Sprintf("%s %s %s %s", o, a.Includes, core.Sorted(a.Flags), core.Sorted(a.Files)))
	}
	g.procs = core.Sorted(g.procs)
	return g
}

func c29Copy(cs *core.Case, from, to string) {
	os.RemoveAll(to)
	if res := cs.Exec(core.Opt{Quiet: true, Dir: cs.Dir}, "/bin/cp", "-a", from, to); res.Code != 0 {
		cs.Fatal("%s", res.Err)
	}
}

func c29Elsewhere(cs *core.Case) {
	c, r := cs.C, cs.R
	s, _ := c29Project(cs, 2+r.Intn(4))
	base, keep := filepath.Join(cs.W, "p"), filepath.Join(cs.Dir, "keep")
	byPath := map[string]*pgen.File{}
	for _, f := range s.Files {
		byPath[f.Path] = f
	}
	f := s.Files[r.Intn(len(s.Files))]
	dir := filepath.Dir(f.Path)
	target := dir
	if chance(r, 40) {
		target = f.Path
	}
	if chance(r, 40) && strings.Contains(dir, "/") && target == dir {
		dir = filepath.Dir(dir)
		target = dir
		if p := filepath.Join(dir, "top.proto"); byPath[p] == nil && chance(r, 70) {
			cs.Write(filepath.Join("p", p), fmt.Sprintf("syntax = \"proto3\";\n\npackage %s;\n\noption go_package = \"toppb\";\n\n// Top.\nmessage Top {\n  int32 x = 1;\n}\n", strings.Trim(strings.ReplaceAll(dir, "/", "."), ".")+".top"))
		}
	}
	used := map[string]bool{pgen.OptsPath: true}
	var use func(p string)
	use = func(p string) {
		if used[p] {
			return
		}
		used[p] = true
		// as the file says, which planted errors may have changed
		if t, err := os.ReadFile(filepath.Join(base, p)); err == nil {
			for _, m := range c29Import.FindAllStringSubmatch(string(t), -1) {
				use(m[1])
			}
		}
	}
	for p := range byPath {
		if within(dir, p) {
			use(p)
		}
	}
	cmds := [][]string{{"files"}, {"compile", "--json"}, {"lint"}, {"lint"}, {"lint"}, {"lint", "--json"}, {"lint", "--json"}, {"format", "-l"}, {"format", "-d"}, {"format", "-w"}, {"format", "-w", "--fix"}, {"generate"}, {"generate"}, {"generate", "--dry-run"}, {"compile", "--dry-run"}, {"all", "--fix"}, {"all", "--disable-lint"},
		{"descriptor-set", "--include-imports"}, {"descriptor-set", "--include-source-info"}, {"descriptor-set", "--json"}, {"x", "inspect", "packages"}, {"x", "inspect", "package-deps", "--name", f.Package}, {"x", "inspect", "package-importers", "--name", f.Package}, {"lint", "--generate-ignores"}}
	if target == dir {
		cmds = append(cmds, []string{"break", "check", "--git-branch", "old"}, []string{"break", "check"}, []string{"break", "descriptor-set", "-o", "gen.bin"})
	} else {
		cmds = append(cmds, []string{"format"}, []string{"format", "--fix"})
	}
	args := append(append([]string{}, cmds[r.Intn(len(cmds))]...), target)
	if args[0] == "break" {
		git(cs, base, "init", "-q")
		git(cs, base, "add", "-A")
		git(cs, base, "commit", "-qm", "old")
		git(cs, base, "branch", "old")
		// something to report
		t := cs.Read(filepath.Join("p", f.Path))
		if i := strings.Index(t, "\nmessage "); i > 0 && chance(r, 70) {
			cs.Write(filepath.Join("p", f.Path), t[:i]+"\nmessage Other"+t[i+9:])
		}
	}
	c29Copy(cs, base, keep)
	ref := c29Run(cs, args...)
	c29Copy(cs, keep, base)
	former := args[0] == "break" && chance(r, 60) // it was already so
	if former {
		git(cs, base, "reset", "-q", "--hard", "old")
	}
	// changes elsewhere
	var others, dirs []string
	for p := range byPath {
		if !used[p] {
			others = append(others, p)
		}
		if d := filepath.Dir(p); !within(dir, d) {
			dirs = append(dirs, d)
		}
	}
	others, dirs = core.Sorted(others), uniq(core.Sorted(dirs))
	if !within(dir, ".") {
		dirs = append(dirs, ".", dir+"x", dir+"_x", dir+"-old", "zz/"+dir, filepath.Join(filepath.Dir(dir), "0"), filepath.Join(filepath.Dir(dir), "~"))
	}
	var did []string
	deep := false
	for p := range byPath {
		deep = deep || within(dir, p) && filepath.Dir(p) != dir
	}
	put := func(p, t string) {
		os.MkdirAll(filepath.Dir(filepath.Join(base, p)), 0755)
		os.WriteFile(filepath.Join(base, p), []byte(t), 0644)
	}
	for i := 1 + r.Intn(6); i > 0; i-- {
		k := r.Intn(8)
		if k < 4 && len(others) > 0 {
			p := others[r.Intn(len(others))]
			switch k {
			case 0:
				os.Remove(filepath.Join(base, p))
				did = append(did, "remove "+p)
			case 1:
				put(p, "nothing like a proto file {\n")
				did = append(did, "spoil "+p)
			case 2:
				put(p, "")
				did = append(did, "empty "+p)
			case 3:
				put(p, "syntax = \"proto3\";\n\nimport \"none.proto\";\nimport \""+f.Path+"\";\n\npackage "+f.Package+";\n\nmessage x {}\n")
				did = append(did, "replace "+p)
			}
			continue
		}
		if len(dirs) == 0 {
			continue
		}
		d := dirs[r.Intn(len(dirs))]
		if len(dirs) > 6 && chance(r, 40) {
			d = dirs[len(dirs)-7+r.Intn(7)]
			if deep && chance(r, 60) { // between the directory and those below it
				d = dir + "-old"
			}
		}
		p := filepath.Join(d, pick(r, "new.proto", "a.proto", "zz.proto", filepath.Base(f.Path), "~.proto", "0.proto"))
		if used[p] || byPath[p] != nil || within(dir, p) {
			continue
		}
		switch k % 4 {
		case 0:
			put(p, f.Render())
			did = append(did, "copy to "+p)
		case 1:
			put(p, "broken {")
			did = append(did, "broken "+p)
		case 2:
			put(p, "syntax = \"proto2\";\n\npackage "+f.Package+";\n\nimport \""+f.Path+"\";\n\noption go_package = \"otherpb\";\noption java_package = \"other\";\n\nmessage bad_name {\n  optional int32 BadField = 1;\n}\n")
			did = append(did, "importer "+p)
		default:
			put(p, "syntax = \"proto3\";\npackage new.v1;\nmessage New {\n}")
			did = append(did, "new "+p)
		}
	}
	if len(did) == 0 {
		put("none.txt", "nothing\n")
		did = append(did, "a text")
	}
	if former {
		did = append(did, "in the former state as well")
		git(cs, base, "add", "-A")
		git(cs, base, "commit", "-q", "--allow-empty", "-m", "old")
		git(cs, base, "branch", "-f", "old")
		cs.Write(filepath.Join("p", f.Path), readAbs(filepath.Join(keep, f.Path)))
	}
	before := core.Snapshot(base)
	got := c29Run(cs, args...)
	cs.Note("%v", did)
	if cs.Failed() {
		return
	}
	text := func(res *core.Res) string {
		if strings.Contains(strings.Join(args, " "), "--dry-run") {
			return sortedText(res.Out)
		}
		return undated(res.Out)
	}
	fail := func(f string, a ...interface{}) {
		cs.Fail("%v after %v: %s", args, did, fmt.Sprintf(f, a...))
	}
	if got.res.Code != ref.res.Code || text(got.res) != text(ref.res) {
		fail("exit %d instead of %d, output\n%s\ninstead of\n%s", got.res.Code, ref.res.Code, got.res.Out, ref.res.Out)
		return
	}
	if d := core.DiffLists(ref.procs, got.procs); d != "" && args[0] != "break" {
		fail("other protoc processes:\n%s", d)
		return
	}
	mine := func(p string) bool { return within(dir, p) || within("gen", p) || p == "gen.bin" }
	for _, m := range []map[string]string{ref.files, got.files} {
		for p := range m {
			if !mine(p) || ref.res.Code != 0 && !within(dir, p) {
				delete(m, p)
			}
		}
	}
	if d := core.DiffSnap(ref.files, got.files); len(d) > 0 {
		fail("other files:\n%s", strings.Join(d, "\n"))
		return
	}
	var bad []string
	for _, x := range core.DiffSnap(before, core.Snapshot(base)) {
		p := rel(base, strings.Fields(strings.SplitN(x, " ", 2)[1])[0])
		if p != "." && !mine(p) && !within(".git", p) {
			bad = append(bad, x)
		}
	}
	if len(bad) > 0 {
		fail("touches what is elsewhere:\n%s", strings.Join(bad, "\n"))
		return
	}
	c.Count("elsewhere "+args[0], 1)
	if ref.res.Code != 0 {
		c.Count("failing", 1)
	}
	cs.Sig("%v %v %d %s", args, did, ref.res.Code, ref.res.Out)
}

func c29Sum(cs *core.Case) {
	c, r := cs.C, cs.R
	s, broken := c29Project(cs, 2+r.Intn(5))
	base, keep := filepath.Join(cs.W, "p"), filepath.Join(cs.Dir, "keep")
	// the parts: a directory that holds files stands for all below it
	tops := map[string]bool{}
	for _, f := range s.Files {
		d := filepath.Dir(f.Path)
		if d == "." {
			c.Count("files in the root", 1)
			return
		}
		tops[d] = true
	}
	for p := range core.Snapshot(base) {
		if strings.HasSuffix(p, ".proto") {
			tops[rel(base, filepath.Dir(p))] = true
		}
	}
	var parts []string
	for d := range tops {
		top := true
		for e := range tops {
			if under(e, d) {
				top = false
			}
		}
		if top {
			parts = append(parts, d)
		}
	}
	sort.Strings(parts)
	cmds := [][]string{{"files"}, {"compile", "--json"}, {"compile"}, {"lint"}, {"lint", "--json"}, {"format", "-l"}, {"format", "-w"}, {"format", "-w", "--fix"}, {"generate"}, {"generate"}, {"generate", "--dry-run"}, {"compile", "--dry-run"}, {"all", "--fix"}, {"all", "--disable-lint"}, {"descriptor-set", "--include-imports"}, {"descriptor-set", "--include-source-info"}, {"descriptor-set"}, {"x", "inspect", "packages"}}
	args := cmds[r.Intn(len(cmds))]
	if broken && chance(r, 50) {
		args = cmds[1+r.Intn(2)]
	}
	c29Copy(cs, base, keep)
	whole := c29Run(cs, args...)
	c29Copy(cs, keep, base)
	var l []*c29Got
	compiles, code := true, 0
	for _, p := range parts {
		if args[0] != "compile" && args[0] != "files" {
			if res := cs.Run(core.Opt{Dir: "p", Quiet: true}, "compile", p); res.Code != 0 {
				compiles = false
			}
		}
		g := c29Run(cs, append(append([]string{}, args...), p)...)
		l = append(l, g)
		if g.res.Code != 0 {
			code = 1
		}
	}
	if cs.Failed() {
		return
	}
	fail := func(f string, a ...interface{}) {
		cs.Fail("%v on all and on each of %v: %s", args, parts, fmt.Sprintf(f, a...))
	}
	if (code != 0) != (whole.res.Code != 0) {
		fail("exit %d on all", whole.res.Code)
		return
	}
	if !compiles && args[0] != "compile" && !strings.HasSuffix(strings.Join(args, " "), "--dry-run") {
		c.Count("parts that do not compile", 1)
		return // nothing is done to any
	}
	var a, b, procs []string
	a = whole.res.Lines()
	if args[0] == "descriptor-set" {
		set := func(res *core.Res, m map[string]string) {
			_, by, e := decodeSet(cs, base, res.Out, s.OptFile)
			if e != "" {
				cs.Fatal("%s", e)
			}
			for n, t := range by {
				if o, ok := m[n]; ok && o != t && len(t) < len(o) {
					continue
				}
				m[n] = t
			}
		}
		x, y := map[string]string{}, map[string]string{}
		set(whole.res, x)
		for _, g := range l {
			set(g.res, y)
		}
		a = nil
		for n, t := range x {
			a = append(a, n+"\n"+t)
		}
		for n, t := range y {
			b = append(b, n+"\n"+t)
		}
	} else {
		for _, g := range l {
			b = append(b, g.res.Lines()...)
		}
		if args[0] == "x" {
			b = uniq(core.Sorted(b))
		}
	}
	if d := core.DiffLists(core.Sorted(b), core.Sorted(a)); d != "" {
		fail("output:\n%s", d)
		return
	}
	for _, g := range l {
		procs = append(procs, g.procs...)
	}
	if d := core.DiffLists(core.Sorted(procs), whole.procs); d != "" {
		fail("protoc processes:\n%s", d)
		return
	}
	if args[0] != "all" || whole.res.Code == 0 {
		if d := core.DiffSnap(l[len(l)-1].files, whole.files); len(d) > 0 {
			fail("files:\n%s", strings.Join(d, "\n"))
			return
		}
	}
	c.Count("sum "+args[0], 1)
	c.Count("parts", int64(len(parts)))
	cs.Sig("%v %v %d %s", args, parts, whole.res.Code, whole.res.Out)
}
