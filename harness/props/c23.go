package props

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C23", Level: "exploration", Run: runC23,
		Rule:  "random acyclic import graphs over many packages (packages spread over directories, packages importing one another in both directions, public and weak imports, Well-Known Types, names that are prefixes of one another), inspected from random working directories and arguments; packages, package-deps and package-importers of every package are compared with a reference graph, and unknown or missing names and package-less files must be refused. Non-trivial: at least one edge between packages; distinct by the graph.",
		Notes: []string{"a file without a package is refused by every inspection command"}})
}

type c23File struct {
	path, pkg string
	deps      []string
}

var c23Wkt = map[string][]string{
	"google/protobuf/timestamp.proto":      nil,
	"google/protobuf/any.proto":            nil,
	"google/protobuf/descriptor.proto":     nil,
	"google/protobuf/source_context.proto": nil,
	"google/protobuf/type.proto":           {"google/protobuf/any.proto", "google/protobuf/source_context.proto"},
	"google/protobuf/api.proto":            {"google/protobuf/source_context.proto", "google/protobuf/type.proto"},
}

func runC23(c *core.Ctx) {
	c.Each("graph", c.N(500, 5000), func(cs *core.Case) {
		r := cs.R
		pkgs := []string{"a", "a.b", "a.bc", "ab", "b.v1", "b.v1beta1", "b.v2", "c.d.e", "google.protobuf2", "x_y", "Up.Per", "a.b.c", "google.api"}
		r.Shuffle(len(pkgs), func(i, j int) { pkgs[i], pkgs[j] = pkgs[j], pkgs[i] })
		pkgs = pkgs[:1+r.Intn(7)]
		n := 1 + r.Intn(12)
		files := map[string]*c23File{}
		var order []*c23File
		dirPkg := map[string]string{}
		for i := 0; i < n; i++ {
			pkg := pkgs[r.Intn(len(pkgs))]
			d := pick(r, "", "d/", "d/e/", "z/") + strings.Replace(pkg, ".", "/", -1)
			if q, ok := dirPkg[d]; ok && q != pkg && chance(r, 70) {
				d += fmt.Sprint("x", i)
			}
			dirPkg[d] = pkg
			f := &c23File{path: fmt.Sprintf("%s/f%d.proto", d, i), pkg: pkg}
			t := fmt.Sprintf("syntax = \"proto3\";\n\npackage %s;\n\n", pkg)
			for _, g := range order {
				if chance(r, 35) {
					f.deps = append(f.deps, g.path)
					t += fmt.Sprintf("import %s%q;\n", pick(r, "", "", "", "public ", "weak "), g.path)
				}
			}
			if chance(r, 25) {
				w := pick(r, "google/protobuf/timestamp.proto", "google/protobuf/any.proto", "google/protobuf/api.proto", "google/protobuf/type.proto", "google/protobuf/descriptor.proto")
				f.deps = append(f.deps, w)
				t += fmt.Sprintf("import %q;\n", w)
			}
			t += fmt.Sprintf("\nmessage M%d {}\n", i)
			if chance(r, 30) {
				t += fmt.Sprintf("\nenum E%d { E%d_X = 0; }\nservice S%d { rpc R(M%d) returns (M%d); }\n", i, i, i, i, i)
			}
			order = append(order, f)
			files[f.path] = f
			cs.Write("root/"+f.path, t)
		}
		for w, d := range c23Wkt {
			files[w] = &c23File{path: w, pkg: "google.protobuf", deps: d}
		}
		cs.Write("root/prototool.yaml", "protoc:\n  allow_unused_imports: true\n")
		root := filepath.Join(cs.W, "root")
		argAbs := root
		if chance(r, 40) {
			argAbs = filepath.Join(root, filepath.Dir(order[r.Intn(n)].path))
			if chance(r, 40) {
				argAbs = filepath.Dir(argAbs)
			}
		}
		if !within(root, argAbs) {
			argAbs = root
		}
		cwd := cs.W
		if chance(r, 50) {
			cwd = root
		}
		// reference
		inc := map[string]bool{}
		var add func(p string)
		add = func(p string) {
			if inc[p] {
				return
			}
			inc[p] = true
			for _, d := range files[p].deps {
				add(d)
			}
		}
		for _, f := range order {
			if within(argAbs, filepath.Join(root, f.path)) {
				add(f.path)
			}
		}
		deps, imps, all := map[string]map[string]bool{}, map[string]map[string]bool{}, map[string]bool{}
		edges := 0
		for p := range inc {
			f := files[p]
			all[f.pkg] = true
			for _, d := range f.deps {
				q := files[d].pkg
				if q == f.pkg {
					continue
				}
				if deps[f.pkg] == nil {
					deps[f.pkg] = map[string]bool{}
				}
				if imps[q] == nil {
					imps[q] = map[string]bool{}
				}
				deps[f.pkg][q], imps[q][f.pkg] = true, true
				edges++
			}
		}
		arg := rel(cwd, argAbs)
		if chance(r, 20) {
			arg = argAbs
		}
		o := core.Opt{Dir: cwd, Quiet: true}
		chk := func(what string, want map[string]bool, args ...string) {
			res := cs.Run(o, append([]string{"x", "inspect"}, args...)...)
			if res.Code != 0 {
				cs.Fatal("%s: exit %d: %s", what, res.Code, res.Out+res.Err)
			}
			if !core.EqualStrings(res.Lines(), sortedKeys(want)) {
				cs.Fatal("%s\nwant %v\ngot  %v", what, sortedKeys(want), res.Lines())
			}
			cs.C.Count("lists_compared", 1)
		}
		chk("packages", all, "packages", arg)
		if chance(r, 20) { // at most one of the given names is taken from the environment
			chk("packages again", all, "packages", arg)
		}
		for _, p := range sortedKeys(all) {
			chk("package-deps of "+p, deps[p], "package-deps", arg, "--name", p)
			chk("package-importers of "+p, imps[p], "package-importers", arg, "--name", p)
		}
		bad := func(what string, args ...string) {
			res := cs.Run(o, append([]string{"x", "inspect"}, args...)...)
			if res.Code == 0 || strings.TrimSpace(res.Out+res.Err) == "" || res.Panicked() {
				cs.Fatal("%s: exit %d, output %q", what, res.Code, res.Out+res.Err)
			}
		}
		un := pick(r, "nope", "a.", ".a", "A", "google", "M0", "b", "a.b.d")
		if !all[un] {
			bad("unknown package "+un, pick(r, "package-deps", "package-importers"), arg, "--name", un)
		}
		bad("no name", pick(r, "package-deps", "package-importers"), arg)
		if chance(r, 20) {
			cs.Write("root/zzz/nopkg.proto", "syntax = \"proto3\";\nmessage Z {}\n")
			bad("package-less file", "packages", root)
		}
		if edges > 0 {
			var sg []string
			for p := range deps {
				sg = append(sg, p+":"+strings.Join(sortedKeys(deps[p]), ","))
			}
			sort.Strings(sg)
			cs.Sig(sg)
			cs.Sample("%s", strings.Join(sg, " "))
		}
	})
}
