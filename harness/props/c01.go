package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C01", Level: "exploration", Run: runC01,
		Rule:  "random directory trees (names sharing prefixes, leading dots, .proto directories, non-proto look-alikes), config files at random depths with random excludes (yaml, json, --config-data), random working directory and argument spelling; the observed file sets of files, lint, format and compile (logged protoc argv) are compared with a reference walk. Non-trivial: the reference set and its complement below the argument are both non-empty, or the tree must be refused; distinct by (shape of expected and excluded sets).",
		Notes: []string{"a file argument stands for its directory, as docs/README.md File Discovery says"}})
}

type c01Tree struct {
	root  string // absolute
	dirs  []string
	files []string            // absolute .proto files
	other []string            // absolute other files
	conf  map[string][]string // config dir -> absolute excludes
	links map[string]string   // what a symbolic link names -> the link
}

var c01Names = []string{"a", "ab", "a.b", "a-b", "b", "bc", "..c", ".d", "x y", "proto", "v1", "v10", "v1beta1", "d.proto", "pkg", "pkgextra"}

// c01Special are names that tools often treat differently.
var c01Special = []string{"bazel-out", "vendor", "node_modules", "third_party", ".git", ".hg", "testdata", "gen", "generated", "build", "target", "dist", "out", "tmp", "_x", "internal", "google", "test", "tests", "bin", "x_test", "~", "#a", "a~", "-d", "@x", "etc", ".cache", ".idea", "examples", "doc", "Vendor", "excludes", "prototool"}

func c01Gen(cs *core.Case) *c01Tree {
	r := cs.R
	t := &c01Tree{root: cs.W, conf: map[string][]string{}, links: map[string]string{}}
	t.dirs = []string{cs.W}
	n := 3 + r.Intn(9)
	for i := 0; i < n; i++ {
		p := t.dirs[r.Intn(len(t.dirs))]
		if strings.Count(rel(cs.W, p), "/") > 4 {
			continue
		}
		d := filepath.Join(p, c01Names[r.Intn(len(c01Names))])
		if chance(r, 20) {
			d = filepath.Join(p, c01Special[r.Intn(len(c01Special))])
		}
		dup := false
		for _, x := range t.dirs {
			if x == d {
				dup = true
			}
		}
		if !dup {
			t.dirs = append(t.dirs, d)
		}
	}
	for _, d := range t.dirs {
		cs.Mkdir(rel(cs.W, d))
		for i := r.Intn(4); i > 0; i-- {
			b := pick(r, "f", "g", "ff", "f.g", "a b", "z", ".h", "f.proto", "f_test", "_f", "f.pb", "f~", "f_gen", "F", "prototool", "-f", "@f") + ".proto"
			p := filepath.Join(d, b)
			clash := false
			for _, x := range append(append([]string{}, t.dirs...), t.files...) {
				if x == p {
					clash = true
				}
			}
			if !clash {
				t.files = append(t.files, p)
				text := fmt.Sprintf("syntax = \"proto2\";\npackage p;\n\n\nmessage   M%d{}\n", len(t.files))
				if chance(r, 10) {
					to := filepath.Join(cs.W, fmt.Sprintf("real%d.txt", len(t.files)))
					t.links[to] = p
					cs.Write(to, text)
					if chance(r, 50) {
						to = rel(d, to)
					}
					os.Symlink(to, p)
				} else {
					cs.Write(p, text)
				}
			}
		}
		if chance(r, 40) {
			p := filepath.Join(d, pick(r, "f.proto.bak", "f.protox", "F.PROTO", "proto", "g.txt", "proto.go"))
			clash := false
			for _, x := range t.dirs {
				if x == p {
					clash = true
				}
			}
			if !clash {
				t.other = append(t.other, p)
				cs.Write(p, "not proto")
			}
		}
	}
	return t
}

// excludes picks exclude paths below dir.
func (t *c01Tree) excludes(cs *core.Case, dir string) (abs []string, spelled []string) {
	r := cs.R
	var c []string
	for _, d := range t.dirs {
		if under(dir, d) {
			c = append(c, d)
		}
	}
	for _, f := range t.files {
		if under(dir, f) {
			c = append(c, f)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		var p string
		if len(c) > 0 && chance(r, 80) {
			p = c[r.Intn(len(c))]
			switch r.Intn(8) {
			case 0: // a proper string prefix that is not a path prefix
				b := filepath.Base(p)
				if len(b) > 1 {
					p = filepath.Join(filepath.Dir(p), b[:len(b)-1])
				}
			case 1:
				p += "x"
			}
		} else {
			p = filepath.Join(dir, pick(r, c01Names...))
		}
		if !under(dir, p) || strings.Contains(filepath.Base(p), "..") && filepath.Base(p) == ".." {
			continue
		}
		s := rel(dir, p)
		switch r.Intn(5) {
		case 0:
			s = "./" + s
		case 1:
			s += "/"
		case 2:
			s = p
		case 3:
			s = s + "/../" + filepath.Base(s)
		}
		abs = append(abs, p)
		spelled = append(spelled, s)
	}
	return
}

func (t *c01Tree) writeConf(cs *core.Case, dir string) {
	abs, sp := t.excludes(cs, dir)
	t.conf[dir] = abs
	if chance(cs.R, 50) {
		s := "# config\n"
		if len(sp) > 0 {
			s += "excludes:\n" + yamlList("  ", sp)
		}
		cs.Write(filepath.Join(dir, "prototool.yaml"), s)
	} else {
		s := "{}"
		if len(sp) > 0 {
			s = `{"excludes":` + jsonList(sp) + "}"
		}
		cs.Write(filepath.Join(dir, "prototool.json"), s)
	}
}

func (t *c01Tree) govern(p string) string {
	for _, d := range ancestors(p) {
		if _, ok := t.conf[d]; ok {
			return d
		}
	}
	return ""
}

// expect computes the files below argDir, or refused.
func (t *c01Tree) expect(argDir, cwd string, data []string, useData bool) (sel []string, all int, refused bool) {
	root := argDir
	if useData {
		root = cwd
	} else if g := t.govern(argDir); g != "" {
		root = g
	}
	gov := map[string]bool{}
	for _, f := range t.files {
		if !under(root, f) {
			continue
		}
		if within(argDir, f) {
			all++
		}
		ex := false
		if useData {
			for _, e := range data {
				ex = ex || within(e, f)
			}
		} else {
			for d, es := range t.conf {
				if within(root, d) && within(d, f) {
					for _, e := range es {
						ex = ex || within(e, f)
					}
				}
			}
			if !ex {
				gov[t.govern(filepath.Dir(f))] = true
			}
		}
		if !ex && within(argDir, f) {
			sel = append(sel, f)
		}
	}
	return sel, all, len(gov) > 1
}

// spellsAbs tells whether a configuration file names an absolute path.
func (t *c01Tree) spellsAbs() bool {
	for d := range t.conf {
		for _, n := range []string{"prototool.yaml", "prototool.json"} {
			if strings.Contains(readAbs(filepath.Join(d, n)), t.root) {
				return true
			}
		}
	}
	return false
}

func runC01(c *core.Ctx) {
	c.Each("tree", c.N(1800, 12000), func(cs *core.Case) {
		r := cs.R
		t := c01Gen(cs)
		cwd := cs.W
		if chance(r, 35) {
			cwd = t.dirs[r.Intn(len(t.dirs))]
		}
		useData := chance(r, 15)
		var dataAbs []string
		var flags []string
		if useData {
			abs, sp := t.excludes(cs, cwd)
			dataAbs = abs
			d := "{}"
			if len(sp) > 0 {
				d = `{"excludes":` + jsonList(sp) + "}"
			}
			if chance(r, 40) { // what has no say
				q := rel(cwd, t.dirs[r.Intn(len(t.dirs))])
				d = strings.TrimSuffix(d, "}")
				if len(sp) > 0 {
					d += ","
				}
				d += pick(r, `"protoc":{"includes":`+jsonList([]string{q})+`}}`, `"generate":{"plugins":[{"name":"cpp","output":`+strings.Trim(jsonList([]string{q}), "[]")+`}]}}`, `"create":{"packages":[{"directory":`+strings.Trim(jsonList([]string{q}), "[]")+`,"name":"foo.bar"}]}}`, `"break":{"include_beta":true}}`)
			}
			flags = []string{"--config-data", d}
			if chance(r, 50) { // must be ignored
				t.writeConf(cs, t.dirs[r.Intn(len(t.dirs))])
			}
		} else {
			if chance(r, 80) {
				t.writeConf(cs, cs.W)
			}
			for i := r.Intn(3); i > 1 || i == 1 && chance(r, 50); i-- {
				d := t.dirs[r.Intn(len(t.dirs))]
				if _, ok := t.conf[d]; !ok {
					t.writeConf(cs, d)
				}
			}
		}
		// the argument
		argDir := t.dirs[r.Intn(len(t.dirs))]
		fileArg := ""
		if len(t.files) > 0 && chance(r, 20) {
			fileArg = t.files[r.Intn(len(t.files))]
			argDir = filepath.Dir(fileArg)
		}
		if (useData || t.govern(argDir) == "") && !within(cwd, argDir) {
			cs.C.Count("outside-domain", 1)
			return
		}
		target := argDir
		if fileArg != "" {
			target = fileArg
		}
		arg := rel(cwd, target)
		switch r.Intn(6) {
		case 0:
			arg = target
		case 1:
			if fileArg == "" {
				arg += "/"
			}
		case 2:
			arg = "./" + arg
		case 3:
			if fileArg == "" {
				arg = arg + "/../" + filepath.Base(target)
				if filepath.Join(cwd, arg) != target {
					arg = target
				}
			}
		}
		if arg[0] == '-' {
			arg = "./" + arg
		}
		var args []string
		if target != cwd || chance(r, 50) {
			args = []string{arg}
		}
		sel, all, refused := t.expect(argDir, cwd, dataAbs, useData)
		want := []string{}
		for _, f := range sel {
			want = append(want, rel(cwd, f))
		}
		sort.Strings(want)
		if refused {
			cs.Sig("refused", len(t.conf), len(t.files))
			cs.C.Count("trees-refused", 1)
		} else if len(want) > 0 && len(want) < all {
			cs.Sig(want, all, len(t.files))
			cs.C.Count("trees-with-exclusions", 1)
		}
		cs.C.Count("files-expected", int64(len(want)))
		run := func(cmd string, fake *core.FakeConf, extra ...string) *core.Res {
			a := append(strings.Fields(cmd), flags...)
			a = append(append(a, extra...), args...)
			return cs.Run(core.Opt{Dir: cwd, Fake: fake}, a...)
		}
		res := run("files", nil)
		desc := fmt.Sprintf("cwd=%s arg=%v conf=%v data=%v", cwd, args, t.conf, dataAbs)
		if refused {
			if res.Code == 0 || res.Hung {
				cs.Fatal("files governed by several configuration files, but accepted: %s\n%s", desc, res)
			}
			for _, cmd := range []string{"lint", "format -w", "compile"} {
				before := core.Snapshot(cs.W)
				f := &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}}
				if res := run(cmd, f); res.Code == 0 {
					cs.Fatal("%s accepts files governed by several configuration files: %s\n%s", cmd, desc, res)
				}
				if n := len(core.ReadFakeLog(f.Log)); n > 0 {
					cs.Fatal("%s processes files before refusing: %s", cmd, desc)
				}
				if d := core.DiffSnap(before, core.Snapshot(cs.W)); len(d) > 0 {
					cs.Fatal("%s changes files before refusing: %s: %v", cmd, desc, d)
				}
			}
			return
		}
		if res.Code != 0 {
			cs.Fatal("files failed: %s\n%s", desc, res)
		}
		if got := res.Lines(); !core.EqualStrings(want, got) {
			cs.Fatal("files prints a different list: %s\n%s\ngot %q", desc, core.DiffLists(want, got), got)
		}
		if !filepath.IsAbs(arg) && !strings.HasPrefix(strings.TrimPrefix(arg, "./"), "..") && within(cwd, target) && (useData || within(cwd, t.govern(argDir))) && !strings.Contains(strings.Join(flags, " "), cs.W) && !t.spellsAbs() {
			// the same through a symbolic link
			ln := filepath.Join(cs.Dir, "ln")
			os.Symlink(cwd, ln)
			lres := cs.Run(core.Opt{Dir: ln}, append(append([]string{"files"}, flags...), args...)...)
			if lres.Code != 0 || !core.EqualStrings(want, lres.Lines()) {
				cs.Fatal("files in a symbolic link to the directory prints a different list: %s\n%s\n%s", desc, core.DiffLists(want, lres.Lines()), lres)
			}
			cs.C.Count("through a link", 1)
			if target == cwd && !useData {
				lw := []string{}
				for _, w := range want {
					lw = append(lw, "ln/"+w)
				}
				if lres := cs.Run(core.Opt{Dir: cs.Dir}, "files", "ln"); lres.Code != 0 || !core.EqualStrings(lw, lres.Lines()) {
					cs.Fatal("files of a symbolic link to the directory prints a different list: %s\n%s\n%s", desc, core.DiffLists(lw, lres.Lines()), lres)
				}
			}
			os.Remove(ln)
		}
		if len(want) < all {
			cs.Sample("%s -> %d of %d files %q", desc, len(want), all, want)
		}
		// the same set is acted on by the others
		fake := &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}}
		cres := run("compile", fake)
		if cres.Code != 0 {
			cs.Fatal("compile with an accepting protoc failed: %s\n%s", desc, cres)
		}
		var got []string
		for _, a := range core.Starts(core.ReadFakeLog(fake.Log)) {
			for _, f := range parseProtoc(a).Files {
				got = append(got, rel(cwd, f))
			}
		}
		if d := core.DiffLists(want, core.Sorted(got)); d != "" {
			cs.Fatal("compile passes different files to protoc: %s\n%s", desc, d)
		}
		if fileArg != "" {
			return
		}
		for _, cmd := range []string{"lint", "format -l"} {
			lres := run(cmd, &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}}, "--error-format", "filename")
			if (lres.Code != 0) != (len(want) > 0) {
				cs.Fatal("%s: unexpected exit code: %s\n%s", cmd, desc, lres)
			}
			if d := core.DiffLists(want, uniq(lres.Lines())); d != "" {
				cs.Fatal("%s acts on different files: %s\n%s\n%s", cmd, desc, d, lres)
			}
		}
		if chance(r, 40) {
			before := core.Snapshot(cs.W)
			fres := run("format -w", &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}})
			if fres.Code != 0 {
				cs.Fatal("format -w failed: %s\n%s", desc, fres)
			}
			after := core.Snapshot(cs.W)
			var ch []string
			for p, v := range after {
				if before[p] != v {
					if l := t.links[p]; l != "" {
						p = l
					}
					ch = append(ch, rel(cwd, p))
				}
			}
			ch = uniq(core.Sorted(ch))
			if d := core.DiffLists(want, ch); d != "" {
				cs.Fatal("format -w changed different files: %s\n%s", desc, d)
			}
		}
	})
}
