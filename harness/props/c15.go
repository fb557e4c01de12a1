package props

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C15", Level: "exploration", Run: runC15,
		Rule:  "generated file sets over several directories (custom options, groups, extensions, Well-Known Types, excludes, directory and file arguments) are turned into descriptor sets in every output form; each set is decoded with protoc and compared, file by file, with protoc's own output for the files a reference selects. Failing compiles and unwritable outputs must report no success. Non-trivial: at least two directories or an import outside the selection, or a failure; distinct by the decoded set.",
		Notes: []string{"file names are unambiguous: no include path lies inside another", "JSON cannot carry custom options whose extensions prototool does not know; they are left out of that comparison"}})
}

// decodeSet turns a binary descriptor set into one text block per file.
func decodeSet(cs *core.Case, dir, bin string, opts bool) (names []string, byName map[string]string, errs string) {
	args := []string{"-I", dir, "-I", core.RealWKT, "--decode=google.protobuf.FileDescriptorSet", "google/protobuf/descriptor.proto"}
	if opts {
		args = append(args, pgen.OptsPath)
	}
	r := cs.Exec(core.Opt{Stdin: bin, Quiet: true, Dir: dir}, core.RealProtoc, args...)
	if r.Code != 0 {
		return nil, nil, r.Err
	}
	byName = map[string]string{}
	for _, blk := range strings.Split("\n"+r.Out, "\nfile {\n")[1:] {
		n := "?"
		for _, l := range strings.Split(blk, "\n") {
			if strings.HasPrefix(l, "  name: ") {
				n = strings.Trim(strings.TrimPrefix(l, "  name: "), `"`)
				break
			}
		}
		names = append(names, n)
		byName[n] += strings.TrimRight(blk, "\n")
	}
	return names, byName, ""
}

// firstDiff shows where two texts part.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		l, m := "<end>", "<end>"
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			m = y[i]
		}
		if l != m {
			return "line " + itoa(i+1) + ": want " + l + "\n          got " + m
		}
	}
	return "(equal)"
}

func runC15(c *core.Ctx) {
	c.Each("set", c.N(550, 5000), c15Set)
	c.Each("fail", c.N(350, 2500), c15Fail)
}

func c15Set(cs *core.Case) {
	c, r := cs.C, cs.R
	cfg := fullCfg(cs)
	cfg.SplitDirs = true
	cfg.NoPkg = 5
	if chance(r, 15) { // large directories
		cfg.Pkgs, cfg.FilesPerPkg, cfg.Defs, cfg.SplitDirs = 1+r.Intn(2), 6+r.Intn(25), 2, false
	}
	s := pgen.Generate(r, cfg)
	sub := pick(r, "", "", "proj", "x/proj")
	root := filepath.Join(cs.W, sub)
	os.MkdirAll(root, 0755)
	writeSet(cs, s, sub)
	var all []string // relative to root
	for _, f := range s.Files {
		all = append(all, f.Path)
	}
	if s.OptFile {
		all = append(all, pgen.OptsPath)
	}
	if chance(r, 15) { // proto3 optional and deep imports
		cs.Write(filepath.Join(root, "p3o/a.proto"), "syntax = \"proto3\";\npackage p3o;\nmessage A { string s = 1; }\n")
		cs.Write(filepath.Join(root, "p3o/b.proto"), "syntax = \"proto3\";\npackage p3o;\nimport public \"p3o/a.proto\";\nmessage B { repeated A as = 1; }\n")
		cs.Write(filepath.Join(root, "zz/c.proto"), "syntax = \"proto3\";\npackage zz;\nimport \"p3o/b.proto\";\nmessage C { p3o.A a = 1; }\n")
		all = append(all, "p3o/a.proto", "p3o/b.proto", "zz/c.proto")
	}
	sort.Strings(all)
	dirs := map[string]bool{root: true}
	for _, f := range all {
		for _, a := range ancestors(filepath.Join(root, filepath.Dir(f))) {
			if within(root, a) {
				dirs[a] = true
			}
		}
	}
	dl := sortedKeys(dirs)
	conf := M{"protoc": M{"allow_unused_imports": true}}
	excl := ""
	if chance(r, 20) {
		excl = filepath.Join(root, filepath.Dir(all[r.Intn(len(all))]))
		if chance(r, 50) {
			excl = filepath.Join(root, all[r.Intn(len(all))])
		}
		if excl == root {
			excl = ""
		} else {
			conf["excludes"] = L{rel(root, excl)}
		}
	}
	cs.Write(filepath.Join(root, "prototool.yaml"), toYAML(conf, 0))
	cwd := root
	if chance(r, 30) {
		cwd = cs.W
	} else if chance(r, 30) {
		cwd = dl[r.Intn(len(dl))]
	}
	argAbs := root
	if chance(r, 50) {
		argAbs = dl[r.Intn(len(dl))]
	}
	selDir := argAbs
	if chance(r, 25) {
		argAbs = filepath.Join(root, all[r.Intn(len(all))])
		selDir = filepath.Dir(argAbs)
	}
	arg := rel(cwd, argAbs)
	if chance(r, 20) {
		arg = argAbs
	}
	isFile := argAbs != selDir
	var sel []string
	for _, f := range all {
		p := filepath.Join(root, f)
		if excl != "" && within(excl, p) {
			continue
		}
		if within(selDir, p) {
			sel = append(sel, f)
		}
	}
	if isFile && excl != "" && within(excl, argAbs) {
		cs.Stop()
	}
	imports, info := chance(r, 50), chance(r, 50)
	// reference
	refFile := filepath.Join(cs.Dir, "ref.bin")
	pargs := []string{"-I", root, "-I", core.RealWKT, "-o", refFile}
	var flags []string
	if imports {
		pargs = append(pargs, "--include_imports")
		flags = append(flags, "--include-imports")
	}
	if info {
		pargs = append(pargs, "--include_source_info")
		flags = append(flags, "--include-source-info")
	}
	var refNames []string
	refBy := map[string]string{}
	var refBin []byte
	if len(sel) > 0 {
		pr := cs.Exec(core.Opt{Dir: root, Quiet: true}, core.RealProtoc, append(pargs, sel...)...)
		if pr.Code != 0 {
			panic("generated set does not compile: " + pr.String())
		}
		refBin, _ = ioutil.ReadFile(refFile)
		var e string
		refNames, refBy, e = decodeSet(cs, root, string(refBin), s.OptFile)
		if e != "" {
			panic(e)
		}
	}
	compare := func(form string, bin string) {
		names, by, e := decodeSet(cs, root, bin, s.OptFile)
		if e != "" {
			cs.Fatal("%s: the output is not a descriptor set: %s", form, e)
		}
		if !core.EqualStrings(names, core.Sorted(refNames)) {
			cs.Fatal("%s: files in the set\nwant %v\ngot  %v\n%s", form, core.Sorted(refNames), names, core.DiffLists(refNames, names))
		}
		for n, t := range refBy {
			if by[n] != t {
				cs.Fatal("%s: descriptor of %s differs from protoc's: %s", form, n, firstDiff(t, by[n]))
			}
		}
		c.Count("descriptors_compared", int64(len(names)))
	}
	base := append(append([]string{"descriptor-set"}, flags...), arg)
	ok := func(res *core.Res) *core.Res {
		if res.Code != 0 {
			cs.Fatal("%v exits %d on a set protoc accepts: %s%s", res.Args, res.Code, res.Out, res.Err)
		}
		return res
	}
	if len(sel) == 0 {
		return
	}
	o := core.Opt{Dir: cwd, Quiet: true}
	compare("stdout", ok(cs.Run(o, base...)).Out)
	out := filepath.Join(cs.Dir, "out.bin")
	switch r.Intn(3) {
	case 0: // an existing, longer file
		ioutil.WriteFile(out, []byte(strings.Repeat("old content\n", 20000)), 0644)
	case 1:
		ioutil.WriteFile(out, []byte("short"), 0600)
	}
	if res := ok(cs.Run(o, append(base, "-o", out)...)); res.Out != "" {
		cs.Fatal("-o prints on standard output: %q", res.Out)
	}
	b, err := ioutil.ReadFile(out)
	if err != nil {
		cs.Fatal("-o exits 0 without writing: %v", err)
	}
	compare("-o", string(b))
	os.Remove(out)
	res := ok(cs.Run(o, append(base, "--tmp")...))
	p := strings.TrimSuffix(res.Out, "\n")
	b, err = ioutil.ReadFile(p)
	if err != nil || strings.Contains(p, "\n") || !filepath.IsAbs(p) {
		cs.Fatal("--tmp prints %q: %v", res.Out, err)
	}
	compare("--tmp", string(b))
	if !within(cs.Tmp, p) {
		cs.Fatal("--tmp wrote outside the temporary directory: %s", p)
	}
	os.Remove(p)
	// JSON
	res = ok(cs.Run(o, append(base, "--json")...))
	got := &descriptor.FileDescriptorSet{}
	if err := jsonpb.UnmarshalString(res.Out, got); err != nil {
		cs.Fatal("--json output cannot be read: %v", err)
	}
	ref := &descriptor.FileDescriptorSet{}
	if err := proto.Unmarshal(refBin, ref); err != nil {
		panic(err)
	}
	js, err := (&jsonpb.Marshaler{}).MarshalToString(ref)
	if err != nil {
		panic(err)
	}
	ref.Reset()
	if err := jsonpb.UnmarshalString(js, ref); err != nil {
		panic(err)
	}
	sort.Slice(ref.File, func(i, j int) bool { return ref.File[i].GetName() < ref.File[j].GetName() })
	if !proto.Equal(ref, got) {
		cs.Fatal("--json denotes another set: %s", firstDiff(proto.MarshalTextString(ref), proto.MarshalTextString(got)))
	}
	cs.Run(o, append(base, "--json", "-o", out)...)
	if j, _ := ioutil.ReadFile(out); string(j) != res.Out {
		cs.Fatal("--json -o differs from --json on standard output")
	}
	os.Remove(out)
	// break descriptor-set
	if imports && !info {
		ok(cs.Run(o, "break", "descriptor-set", arg, "-o", out))
		b, _ = ioutil.ReadFile(out)
		compare("break descriptor-set -o", string(b))
		os.Remove(out)
	}
	if l, _ := ioutil.ReadDir(cs.Tmp); len(l) > 0 {
		cs.Fatal("left in the temporary directory: %v", l[0].Name())
	}
	if len(refNames) != len(sel) || len(dl) > 2 {
		cs.Sig(refNames, refBy)
	}
	cs.Sample("arg %s, %v: %v", arg, flags, refNames)
}

func c15Fail(cs *core.Case) {
	c, r := cs.C, cs.R
	s := pgen.Generate(r, pgen.Cfg{Pkgs: 3, FilesPerPkg: 2, Defs: 2, Depth: 1, Proto2: 30, WKT: true, ImportPct: 40})
	writeSet(cs, s, "")
	cs.Write("prototool.yaml", "lint:\n  group: empty\n")
	kind := pick(r, "broken", "missing-dir", "is-dir", "full", "both", "stdout-full", "protoc-fails", "readonly")
	out := filepath.Join(cs.Dir, "out.bin")
	old := pick(r, "", "previous content")
	if old != "" {
		ioutil.WriteFile(out, []byte(old), 0644)
	}
	args := []string{"descriptor-set", "."}
	if chance(r, 50) {
		args = append(args, "--include-imports")
	}
	if chance(r, 30) {
		args = append(args, "--json")
	}
	o := core.Opt{}
	form := pick(r, "stdout", "-o", "--tmp")
	switch kind {
	case "broken":
		f := s.Files[r.Intn(len(s.Files))]
		cs.Write(f.Path, f.Render()+"\nmessage Broken { Nope x = 1; }\n")
	case "protoc-fails":
		f := s.Files[r.Intn(len(s.Files))]
		o.Fake = &core.FakeConf{Rules: []core.FakeRule{{Match: filepath.Base(f.Path), Real: chance(r, 50), Stderr: pick(r, "", "something odd\n"), Exit: 1, Kill: chance(r, 50)}}}
		if o.Fake.Rules[0].Real {
			o.Fake.Rules[0].Kill = true
		}
	case "missing-dir":
		form, out = "-o", filepath.Join(cs.Dir, "no/such/out.bin")
	case "is-dir":
		form, out = "-o", cs.Mkdir("outdir")
	case "full":
		form, out = "-o", "/dev/full"
	case "both":
		form = "both"
	case "stdout-full":
		form = "stdout"
		o.Wrap = []string{"/bin/sh", "-c", `exec "$@" > /dev/full`, "sh"}
	case "readonly":
		// no temporary directory for protoc's output
		o.Env = []string{"TMPDIR=" + filepath.Join(cs.Dir, "no/tmp")}
	}
	switch form {
	case "-o":
		args = append(args, "-o", out)
	case "--tmp":
		args = append(args, "--tmp")
	case "both":
		args = append(args, "-o", out, "--tmp")
	}
	res := cs.Run(o, args...)
	if res.Code == 0 || res.Code == -1 {
		cs.Fatal("%s (%s): exit %d: %s", kind, form, res.Code, res.Out)
	}
	if kind != "stdout-full" && strings.TrimSpace(res.Out+res.Err) == "" {
		cs.Fatal("%s (%s): fails without a reason", kind, form)
	}
	if strings.Contains(res.Out, cs.Tmp+"/prototool") && !strings.Contains(res.Out, ":") {
		cs.Fatal("%s: prints a temporary path although it failed: %s", kind, res.Out)
	}
	if kind == "broken" || kind == "protoc-fails" || kind == "both" {
		b, err := ioutil.ReadFile(out)
		if old == "" && err == nil || old != "" && string(b) != old {
			cs.Fatal("%s: the output file was touched although compilation failed", kind)
		}
	}
	if l, _ := ioutil.ReadDir(cs.Tmp); len(l) > 0 {
		cs.Fatal("%s: left in the temporary directory: %v", kind, l[0].Name())
	}
	c.Count("failures_"+kind, 1)
	cs.Sig(kind, form, args, len(s.Files))
}
