// Package props holds one check per property.
package props

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

// protocArgs is a parsed protoc command line.
type protocArgs struct {
	Includes []string
	Out      string // -o
	Flags    []string
	Files    []string
}

func parseProtoc(argv []string) *protocArgs {
	p := &protocArgs{}
	for i := 0; i < len(argv); i++ {
		a := argv[i]
		switch {
		case a == "-I" && i+1 < len(argv):
			i++
			p.Includes = append(p.Includes, argv[i])
		case a == "-o" && i+1 < len(argv):
			i++
			p.Out = argv[i]
		case strings.HasPrefix(a, "-"):
			p.Flags = append(p.Flags, a)
		default:
			p.Files = append(p.Files, a)
		}
	}
	return p
}

// within tells whether p is dir or below it.
func within(dir, p string) bool {
	return p == dir || dir == "/" || strings.HasPrefix(p, dir+"/")
}

// under tells whether p is strictly below dir.
func under(dir, p string) bool { return p != dir && within(dir, p) }

// ancestors lists p's directory chain from p up to /.
func ancestors(p string) []string {
	var out []string
	for {
		out = append(out, p)
		if p == "/" {
			return out
		}
		p = filepath.Dir(p)
	}
}

func rel(base, p string) string {
	r, err := filepath.Rel(base, p)
	if err != nil {
		return p
	}
	return r
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func uniq(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}

// writeSet renders every file of a generated set below dir (relative to W).
func writeSet(cs *core.Case, s *pgen.Set, dir string) {
	for _, f := range s.Files {
		cs.Write(filepath.Join(dir, f.Path), f.Render())
	}
	if s.OptFile {
		cs.Write(filepath.Join(dir, pgen.OptsPath), pgen.OptsSource)
	}
}

// protocCheck runs protoc on files (relative to dir, absolute) and returns its result.
func protocCheck(cs *core.Case, dir string, files ...string) *core.Res {
	args := []string{"-I", ".", "-I", core.RealWKT, "-o", "/dev/null"}
	return cs.Exec(core.Opt{Dir: dir, Quiet: true}, core.RealProtoc, append(args, files...)...)
}

func yamlList(ind string, items []string) string {
	var b strings.Builder
	for _, i := range items {
		fmt.Fprintf(&b, "%s- %q\n", ind, i)
	}
	return b.String()
}

func jsonList(items []string) string {
	var q []string
	for _, i := range items {
		q = append(q, fmt.Sprintf("%q", i))
	}
	return "[" + strings.Join(q, ",") + "]"
}

func itoa(i int) string { return fmt.Sprint(i) }
