package props

import (
	_ "embed"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"verif/harness/core"
	"verif/harness/pgen"
)

//go:embed data/features.txt
var featuresTxt string

type feature struct{ name, src string }

// features are small files, one construct of the language each.
var features = func() []feature {
	var out []feature
	for _, p := range strings.Split("\n"+featuresTxt, "\n=== ")[1:] {
		i := strings.IndexByte(p+"\n", '\n')
		f := feature{name: p[:i]}
		if i < len(p) {
			f.src = p[i+1:] + "\n"
		}
		switch f.name {
		case "bom":
			f.src = "\xef\xbb\xbf" + f.src
		case "crlf":
			f.src = strings.Replace(f.src, "\n", "\r\n", -1)
		case "form-feeds":
			f.src = strings.Replace(f.src, " ", "\f", -1)
			f.src = strings.Replace(f.src, ";\n", ";\v\n", -1)
		case "no-newline-at-end":
			f.src = strings.TrimSpace(f.src)
		}
		out = append(out, f)
	}
	return out
}()

func featureNames() []string {
	var n []string
	for _, f := range features {
		n = append(n, f.name)
	}
	return n
}

const depProto = "syntax = \"proto3\";\n\npackage f;\n\nmessage Dep {}\n"

// writeFeature lays a feature out in a directory of its own and tells whether
// protoc accepts it.
func writeFeature(cs *core.Case, dir string) (f feature, path string, ok bool) {
	f = features[cs.I]
	cs.Write(filepath.Join(dir, "prototool.yaml"), "protoc:\n  allow_unused_imports: true\n")
	cs.Write(filepath.Join(dir, "f/dep.proto"), depProto)
	cs.Write(filepath.Join(dir, pgen.OptsPath), pgen.OptsSource)
	path = filepath.Join(dir, "f", f.name+".proto")
	cs.Write(path, f.src)
	r := protocCheck(cs, filepath.Join(cs.W, dir), "f/"+f.name+".proto")
	ok = r.Code == 0
	for _, l := range core.SplitLines(r.Err) {
		if strings.TrimSpace(l) != "" && !strings.Contains(l, "is unused.") && !strings.Contains(l, "but not used.") {
			ok = false
		}
	}
	return f, path, ok
}

var emptyOpts = regexp.MustCompile(`(?m)^\s*options \{\n\s*\}\n`)

// descriptors compiles files below dir (absolute) and returns one text per
// file, without positions and with imports in a fixed order.
func descriptors(cs *core.Case, dir string, files ...string) (map[string]string, string) {
	return descriptorsWith(cs, dir, nil, files...)
}

// descriptorsWith lets edit change every descriptor first.
func descriptorsWith(cs *core.Case, dir string, edit func(*descriptor.FileDescriptorProto), files ...string) (map[string]string, string) {
	tmp := filepath.Join(cs.Tmp, "ds")
	args := []string{"-I", ".", "-I", core.RealWKT, "-o", tmp}
	r := cs.Exec(core.Opt{Dir: dir, Quiet: true}, core.RealProtoc, append(args, files...)...)
	if r.Code != 0 {
		return nil, r.Out + r.Err
	}
	set := &descriptor.FileDescriptorSet{}
	if err := proto.Unmarshal([]byte(readAbs(tmp)), set); err != nil {
		return nil, err.Error()
	}
	for _, f := range set.File {
		if edit != nil {
			edit(f)
		}
		old := append([]string{}, f.Dependency...)
		sort.Strings(f.Dependency)
		at := map[string]int32{}
		for i, d := range f.Dependency {
			at[d] = int32(i)
		}
		for _, l := range [][]int32{f.PublicDependency, f.WeakDependency} {
			for i, x := range l {
				l[i] = at[old[x]]
			}
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		}
	}
	b, err := proto.Marshal(set)
	if err != nil {
		return nil, err.Error()
	}
	_, statErr := os.Stat(filepath.Join(dir, pgen.OptsPath))
	_, m, e := decodeSet(cs, dir, string(b), statErr == nil)
	if e != "" {
		return nil, e
	}
	for k, v := range m {
		m[k] = emptyOpts.ReplaceAllString(v, "")
	}
	return m, ""
}

// sameMeaning compares the descriptors of formatted files with the original
// ones and the comments of the texts.
func sameMeaning(cs *core.Case, want map[string]string, dir string, files []string, before, after map[string]string) string {
	got, errs := descriptors(cs, dir, files...)
	if errs != "" {
		return "protoc rejects the formatted file: " + errs
	}
	for _, f := range files {
		if want[f] != got[f] {
			return f + " means something else after formatting: " + firstDiff(want[f], got[f])
		}
		if d := pgen.CompareComments(before[f], after[f]); d != "" {
			return f + ": " + d
		}
	}
	return ""
}

// fmtCfg generates what the formatter is known to handle; the rest is
// covered by the named features.
func fmtCfg(cs *core.Case) pgen.Cfg {
	cfg := fullCfg(cs)
	cfg.Safe = true
	return cfg
}

func readAbs(p string) string {
	b, _ := ioutil.ReadFile(p)
	return string(b)
}
