package props

import (
	"os"
	"path/filepath"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

// bench is a project in which every command has something to do.
type bench struct {
	cs   *core.Case
	dir  string // relative to W
	dirs int    // with files
	set  *pgen.Set
	old  string // descriptor set of the former state, if any
	base string // absolute
	srv  string // address for grpc
}

// bcmd is one command on a bench.
type bcmd struct {
	args   []string
	writes func(p string) bool // paths (relative to base) that may change, nil for none
	ref    bool                // output is the same in every run
	git    bool
	protoc bool
}

func (x *bcmd) String() string { return strings.Join(x.args, " ") }

// newBench makes the project; with old, there is a former state as descriptor
// set and as branch "old" of a repository.
func newBench(cs *core.Case, dirs int, old bool, more M) *bench {
	r := cs.R
	b := &bench{cs: cs, dir: "p", base: filepath.Join(cs.W, "p")}
	cfg := pgen.Cfg{Pkgs: dirs, FilesPerPkg: 1 + r.Intn(3), Defs: 4, Depth: 2, Services: true, ImportPct: 50, WKT: true, Safe: true, Aliases: true, Comments: 20}
	b.set = pgen.Generate(r, cfg)
	conf := M{
		"protoc": M{"allow_unused_imports": true},
		"generate": M{"plugins": L{
			M{"name": "python", "output": "gen/py"},
			M{"name": "cpp", "output": "gen/cpp"},
			M{"name": "descriptor_set", "type": "", "output": "gen/ds", "file_suffix": "bin"},
		}},
	}
	g := conf["generate"].(M)
	l := g["plugins"].(L)
	delete(l[2].(M), "type")
	if chance(r, 50) {
		g["plugins"] = l[:1+r.Intn(3)]
	}
	for k, v := range more {
		conf[k] = v
	}
	seen := map[string]bool{}
	for _, f := range b.set.Files {
		seen[filepath.Dir(f.Path)] = true
	}
	b.dirs = len(seen)
	if old {
		git(cs, "", "init", "-q", "p")
		putSet(cs, "p", "", b.set, conf)
		git(cs, "p", "add", "-A")
		git(cs, "p", "commit", "-qm", "old")
		git(cs, "p", "branch", "old")
		b.old = filepath.Join(cs.Dir, "old.bin")
		res := cs.Run(core.Opt{Dir: "p", Quiet: true}, "break", "descriptor-set", "-o", b.old)
		if res.Code != 0 {
			cs.Fatal("break descriptor-set fails: %s%s", res.Out, res.Err)
		}
		// something to report; nothing imports the last file
		if n := len(b.set.Files); n > 1 && chance(r, 70) {
			os.Remove(filepath.Join(b.base, b.set.Files[n-1].Path))
			b.set.Files = b.set.Files[:n-1]
		}
	} else {
		putSet(cs, "p", "", b.set, conf)
	}
	return b
}

// command chooses a command; with protoc, one that starts protoc processes.
func (b *bench) command(protoc bool) *bcmd {
	r := b.cs.R
	proto := func(p string) bool { return strings.HasSuffix(p, ".proto") }
	gen := func(p string) bool { return within("gen", p) }
	out := func(p string) bool { return p == "out.bin" || p == "." }
	either := func(p string) bool { return proto(p) || gen(p) }
	l := []*bcmd{
		{args: []string{"compile"}, protoc: true},
		{args: []string{"lint"}, protoc: true},
		{args: []string{"lint", "--generate-ignores"}, protoc: true},
		{args: []string{"lint", "--json"}, protoc: true},
		{args: []string{"format"}, protoc: true},
		{args: []string{"format", "-d"}, protoc: true},
		{args: []string{"format", "-l"}, protoc: true},
		{args: []string{"format", "-w"}, protoc: true, writes: proto},
		{args: []string{"format", "-w", "--fix"}, protoc: true, writes: proto},
		{args: []string{"generate"}, protoc: true, writes: gen},
		{args: []string{"generate"}, protoc: true, writes: gen},
		{args: []string{"all"}, protoc: true, writes: either},
		{args: []string{"all", "--fix", "--disable-lint"}, protoc: true, writes: either},
		{args: []string{"descriptor-set"}, protoc: true},
		{args: []string{"descriptor-set", "--json", "--include-imports", "--include-source-info"}, protoc: true},
		{args: []string{"descriptor-set", "-o", "out.bin"}, protoc: true, writes: out},
		{args: []string{"break", "descriptor-set", "-o", "out.bin"}, protoc: true, writes: out},
		{args: []string{"x", "inspect", "packages"}, protoc: true},
		{args: []string{"x", "inspect", "package-deps", "--name", pgPkg(b.set)}, protoc: true},
		{args: []string{"x", "inspect", "package-importers", "--name", pgPkg(b.set)}, protoc: true},
	}
	if b.srv != "" {
		l = append(l, &bcmd{args: []string{"grpc", "--address", b.srv, "--method", "no.Service/Method", "--data", "{}"}, protoc: true})
	}
	if b.old != "" {
		l = append(l,
			&bcmd{args: []string{"break", "check", "--descriptor-set-path", b.old}, protoc: true},
			&bcmd{args: []string{"break", "check", "--git-branch", "old"}, protoc: true, git: true},
			&bcmd{args: []string{"break", "check", "--json", "--git-branch", "old"}, protoc: true, git: true})
	}
	if !protoc {
		l = append(l,
			&bcmd{args: []string{"files"}},
			&bcmd{args: []string{"compile", "--dry-run"}},
			&bcmd{args: []string{"generate", "--dry-run"}},
			&bcmd{args: []string{"lint", "--list-linters"}},
			&bcmd{args: []string{"lint", "--list-all-lint-groups"}},
			&bcmd{args: []string{"version"}},
			&bcmd{args: []string{"config", "init", "--uncomment", "sub"}, writes: func(p string) bool { return p == "sub" || p == "sub/prototool.yaml" }},
			&bcmd{args: []string{"create", "new/one.proto", "new/two.proto"}, writes: func(p string) bool { return p == "new/one.proto" || p == "new/two.proto" }})
	}
	x := l[r.Intn(len(l))]
	if chance(r, 15) {
		switch x.args[0] {
		case "compile", "lint", "format", "generate":
			if x.args[len(x.args)-1] != "--list-linters" && x.args[len(x.args)-1] != "--list-all-lint-groups" {
				x.args = append(append([]string{}, x.args...), ".")
			}
		}
	}
	return x
}

// pgPkg is some package of a set.
func pgPkg(s *pgen.Set) string {
	for _, f := range s.Files {
		if f.Package != "" {
			return f.Package
		}
	}
	return "a"
}
