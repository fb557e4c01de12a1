package props

import (
	_ "embed"
	"path"
	"sort"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"

	"gopkg.in/yaml.v2"
)

func init() {
	core.Register(&core.Prop{ID: "C08", Level: "exploration", Run: runC08,
		Rule:  "random groups, added, removed and ignored rules (any letter case, files, directories, the configuration directory, name prefixes) in YAML, JSON and --config-data over generated sets: the listed selection must equal group + add - remove, the findings the reference linter's filtered by selection and ignores; generated ignores must be exactly the failing (rule, file) pairs, make lint pass when adopted verbatim, and each be needed; faulty names and combinations must be refused. Non-trivial: several findings and ignored findings, more than five generated ignores, or a refused fault; distinct by the result.",
		Notes: []string{"the groups are those of the rule table in docs/lint.md"}})
}

//go:embed data/lintgroups.txt
var lintGroupsTxt string

var lintIDs, lintGroups = func() (ids []string, groups map[string]map[string]bool) {
	groups = map[string]map[string]bool{"empty": {}}
	for _, l := range core.SplitLines(lintGroupsTxt) {
		f := strings.Fields(l)
		ids = append(ids, f[0])
		for _, g := range f[1:] {
			if groups[g] == nil {
				groups[g] = map[string]bool{}
			}
			groups[g][f[0]] = true
		}
	}
	return
}()

func runC08(c *core.Ctx) {
	c.Each("select", c.N(450, 3000), c08Select)
	c.Each("ignores", c.N(350, 2500), c08Ignores)
	c.Each("bad", c.N(100, 400), c08Bad)
	c.One("groups", c08Groups)
}

func anyCase(cs *core.Case, s string) string {
	r := cs.R
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if chance(r, 50) {
				b[i] = strings.ToLower(s)[i]
			} else {
				b[i] = strings.ToUpper(s)[i]
			}
		}
		return string(b)
	}
	return s
}

// selection generates lint settings and the rules they select.
func selection(cs *core.Case) (lint M, sel map[string]bool) {
	r := cs.R
	lint, sel = M{}, map[string]bool{}
	g := pick(r, "", "", "uber1", "uber2", "uber2", "google", "empty", "empty")
	base := g
	if g == "" {
		base = "uber1"
	} else {
		lint["group"] = anyCase(cs, g)
	}
	rules := M{}
	if chance(r, 15) {
		rules["no_default"] = true
		if g == "" {
			base = "empty"
		}
	}
	for id := range lintGroups[base] {
		sel[id] = true
	}
	var add, rem L
	used := map[string]bool{}
	// some rules, or rules with related names
	some := func() (l []string) {
		for i := r.Intn([]int{3, 10, 60}[r.Intn(3)]); i > 0; i-- {
			l = append(l, lintIDs[r.Intn(len(lintIDs))])
		}
		if chance(r, 50) {
			p := lintIDs[r.Intn(len(lintIDs))]
			for _, id := range lintIDs {
				if id != p && strings.HasPrefix(id, p) {
					l = append(l, p, id)
				}
			}
		}
		if chance(r, 30) {
			a := strings.Split(lintIDs[r.Intn(len(lintIDs))], "_")
			p := strings.Join(a[:1+r.Intn(len(a)-1)], "_")
			for _, id := range lintIDs {
				if strings.HasPrefix(id, p) && chance(r, 80) {
					l = append(l, id)
				}
			}
		}
		if chance(r, 20) { // rules whose name another rule's continues
			for _, p := range lintIDs {
				for _, id := range lintIDs {
					if id != p && strings.HasPrefix(id, p) {
						l = append(l, p, id)
					}
				}
			}
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return l
	}
	if chance(r, 70) {
		for _, id := range some() {
			add = append(add, anyCase(cs, id))
			used[id], sel[id] = true, true
			if chance(r, 10) {
				add = append(add, anyCase(cs, id))
			}
		}
	}
	if chance(r, 70) {
		for _, id := range some() {
			if !used[id] {
				rem = append(rem, anyCase(cs, id))
				delete(sel, id)
			}
		}
	}
	if len(add) > 0 {
		rules["add"] = add
	}
	if len(rem) > 0 {
		rules["remove"] = rem
	}
	if len(rules) > 0 {
		lint["rules"] = rules
	}
	return
}

func keys(m map[string]bool) []string { return sortedKeys(m) }

// listed runs a listing command and returns ids, checking their text.
func listed(cs *core.Case, args ...string) []string {
	res := cs.P(append([]string{"lint"}, args...)...)
	if res.Code != 0 || res.Err != "" {
		cs.Fail("%v: exit %d %s%s", args, res.Code, res.Out, res.Err)
		return nil
	}
	out := []string{}
	for _, l := range core.SplitLines(res.Out) {
		f := strings.Fields(l)
		if len(f) < 3 && len(f) != 1 {
			cs.Fail("%v: line %q", args, l)
		}
		out = append(out, f[0])
	}
	cs.C.Count("listings", 1)
	return out
}

func sameIDs(cs *core.Case, what string, want, got []string) bool {
	if got == nil {
		return false
	}
	if d := core.DiffLists(core.Sorted(want), core.Sorted(got)); d != "" {
		cs.Fail("%s:\n%s", what, d)
		return false
	}
	return true
}

// ignoreSet builds ignore entries and the predicate they mean. dir is the
// configuration directory.
func ignoreSet(cs *core.Case, s *pgen.Set) (l L, ignored func(rule, file string) bool) {
	r := cs.R
	m := map[string][]string{}
	abs := func(p string) string { return path.Join(cs.W, p) }
	var ids []string
	for i := 1 + r.Intn(25); i > 0; i-- {
		ids = append(ids, lintIDs[r.Intn(len(lintIDs))])
	}
	if chance(r, 30) { // neighbours in name
		i := r.Intn(len(lintIDs) - 3)
		ids = append(ids, lintIDs[i:i+3]...)
		ids = append(ids, ids[0])
	}
	for _, id := range ids {
		var fs L
		for j := 1 + r.Intn(3); j > 0; j-- {
			f := s.Files[r.Intn(len(s.Files))].Path
			p := f
			switch r.Intn(12) {
			case 0, 1:
				if path.Dir(f) != "." {
					p = path.Dir(f)
				}
			case 2:
				if a := strings.Split(f, "/"); len(a) > 1 {
					p = a[0]
				}
			case 3:
				p = "."
			case 4: // shares a name prefix only
				p = strings.TrimSuffix(f, ".proto")
			case 5:
				p = f[:1+r.Intn(len(f))]
			case 6:
				p = abs(f)
			case 7:
				p = "./x/../" + f
			case 8:
				p = "none/" + f
			case 9:
				p = path.Dir(f) + "/"
			}
			fs = append(fs, p)
			q := p
			if !strings.HasPrefix(q, "/") {
				q = path.Join(cs.W, q)
			}
			m[id] = append(m[id], path.Clean(q))
		}
		l = append(l, M{"id": anyCase(cs, id), "files": fs})
	}
	return l, func(rule, file string) bool {
		for _, p := range m[rule] {
			if within(p, abs(file)) {
				return true
			}
		}
		return false
	}
}

func c08Select(cs *core.Case) {
	c, r := cs.C, cs.R
	s := lintSet(cs)
	lint, sel := selection(cs)
	conf := lintConf{}
	if chance(r, 30) {
		conf.javaPrefix = pick(r, "org", "au.com")
		lint["java_package_prefix"] = conf.javaPrefix
	}
	ignored := func(rule, file string) bool { return false }
	if chance(r, 60) {
		lint["ignores"], ignored = ignoreSet(cs, s)
	}
	file := M{"protoc": M{"allow_unused_imports": true}, "excludes": L{"vopts", "google", "third", "gogo.proto"}, "lint": lint}
	writeSet(cs, s, ".")
	lintExtras(cs)
	var paths []string
	for _, f := range s.Files {
		paths = append(paths, f.Path)
	}
	if p := protocCheck(cs, cs.W, paths...); p.Code != 0 {
		c.Count("sets protoc rejects", 1)
		return
	}
	var extra []string
	switch r.Intn(4) {
	case 0:
		cs.Write("prototool.json", toJSON(file))
	case 1:
		extra = []string{"--config-data", toJSON(file)}
		if chance(r, 50) {
			cs.Write("prototool.yaml", "lint:\n  group: google\n")
		}
	default:
		cs.Write("prototool.yaml", toYAML(file, 0))
	}
	got := listed(cs, append([]string{"--list-linters"}, extra...)...)
	if !sameIDs(cs, "--list-linters differs from group + add - remove", keys(sel), got) {
		return
	}
	f := s.Files[r.Intn(len(s.Files))]
	if got := listed(cs, append([]string{"--list-linters", pick(r, f.Path, path.Dir(f.Path), ".")}, extra...)...); !sameIDs(cs, "--list-linters for a path differs", keys(sel), got) {
		return
	}
	var want []finding
	rules := map[string]bool{}
	for _, x := range lintRefBut(s.Files, conf, ignored) {
		if sel[x.rule] {
			want = append(want, x)
			rules[x.rule] = true
		}
	}
	for rl := range rules {
		c.Count("rule applied: "+rl, 1)
	}
	c.Count("findings", int64(len(want)))
	g := lintRun(cs, append([]string{"lint", "--json", "."}, extra...)...)
	if g == nil {
		return
	}
	if d := core.DiffLists(findingList(want), findingList(g)); d != "" {
		cs.Fail("findings differ from selection and ignores:\n%s", d)
		return
	}
	n := 0
	for _, x := range lintRef(s.Files, conf) {
		if sel[x.rule] && ignored(x.rule, x.file) {
			n++
		}
	}
	c.Count("findings ignored", int64(n))
	if len(want) > 3 && n > 0 {
		cs.Sig("%v %v", keys(sel), findingList(want))
	}
	// another command with the same configuration reports the same
	if chance(r, 30) {
		if g := lintRunIn(cs, inDir(want, f.Path), append([]string{"lint", "--json", f.Path}, extra...)...); g != nil {
			var w []finding
			for _, x := range want {
				if x.file == f.Path {
					w = append(w, x)
				}
			}
			if d := core.DiffLists(findingList(w), findingList(g)); d != "" {
				cs.Fail("findings of %s alone differ:\n%s", f.Path, d)
			}
		}
	}
}

type genIgnores struct {
	Lint struct {
		Ignores []struct {
			ID    string   `yaml:"id"`
			Files []string `yaml:"files"`
		} `yaml:"ignores"`
	} `yaml:"lint"`
}

func c08Ignores(cs *core.Case) {
	c, r := cs.C, cs.R
	s := lintSet(cs)
	lint, sel := selection(cs)
	conf := lintConf{}
	file := M{"protoc": M{"allow_unused_imports": true}, "excludes": L{"vopts", "google", "third", "gogo.proto"}, "lint": lint}
	old := chance(r, 40)
	ignored := func(rule, file string) bool { return false }
	if old {
		lint["ignores"], ignored = ignoreSet(cs, s)
	}
	_ = ignored
	writeSet(cs, s, ".")
	lintExtras(cs)
	cs.Write("prototool.yaml", toYAML(file, 0))
	var paths []string
	for _, f := range s.Files {
		paths = append(paths, f.Path)
	}
	if p := protocCheck(cs, cs.W, paths...); p.Code != 0 {
		c.Count("sets protoc rejects", 1)
		return
	}
	want := map[string]bool{}
	for _, x := range lintRef(s.Files, conf) {
		if sel[x.rule] {
			want[x.rule+" "+x.file] = true
		}
	}
	// from the configuration directory or from below it
	opt := core.Opt{}
	sub, arg := "", "."
	if chance(r, 40) {
		if d := path.Dir(s.Files[r.Intn(len(s.Files))].Path); d != "." {
			sub = d
			switch r.Intn(3) {
			case 0:
				opt.Dir = path.Join(cs.W, d)
			case 1:
				opt.Dir, arg = path.Join(cs.W, d), rel(path.Join(cs.W, d), cs.W)
				sub = ""
			default:
				arg = d
			}
		}
	}
	for k := range want {
		if sub != "" && !within(sub, strings.SplitN(k, " ", 2)[1]) {
			delete(want, k)
		}
	}
	res := cs.Run(opt, "lint", "--generate-ignores", arg)
	if res.Code != 0 || res.Err != "" {
		cs.Fail("lint --generate-ignores: exit %d %s%s", res.Code, res.Out, res.Err)
		return
	}
	var gi genIgnores
	if err := yaml.UnmarshalStrict([]byte(res.Out), &gi); err != nil {
		cs.Fail("output of --generate-ignores is not a lint setting: %v\n%s", err, res.Out)
		return
	}
	got := map[string]bool{}
	var l L
	for i, x := range gi.Lint.Ignores {
		if i > 0 && x.ID <= gi.Lint.Ignores[i-1].ID || !sort.StringsAreSorted(x.Files) {
			cs.Fail("generated ignores are not sorted:\n%s", res.Out)
		}
		for _, f := range x.Files {
			got[x.ID+" "+f] = true
		}
		l = append(l, M{"id": x.ID, "files": strsL(x.Files)})
	}
	if d := core.DiffLists(keys(want), keys(got)); d != "" {
		cs.Fail("generated ignores are not the failing rules and files:\n%s", d)
		return
	}
	c.Count("ignore entries generated", int64(len(got)))
	// adopt the text itself: other lint settings stay
	if chance(r, 50) && len(l) > 0 {
		delete(lint, "ignores")
		txt := toYAML(file, 0)
		ig := strings.TrimPrefix(res.Out, "lint:\n")
		if strings.Contains(txt, "lint:\n") {
			txt = strings.Replace(txt, "lint:\n", "lint:\n"+ig, 1)
		} else {
			txt = strings.Replace(txt, "lint: {}\n", res.Out, 1)
		}
		cs.Write("prototool.yaml", txt)
		c.Count("ignores adopted verbatim", 1)
	} else {
		delete(lint, "ignores")
		if len(l) > 0 {
			lint["ignores"] = l
		}
		cs.Write("prototool.yaml", toYAML(file, 0))
	}
	if res := cs.Run(opt, "lint", arg); res.Code != 0 || res.Out+res.Err != "" {
		cs.Fail("lint fails after adopting the generated ignores: exit %d\n%s%s", res.Code, res.Out, res.Err)
		return
	}
	if res := cs.Run(opt, "lint", "--generate-ignores", arg); res.Out != "" && len(l) == 0 || len(l) > 0 && func() bool {
		var g2 genIgnores
		yaml.Unmarshal([]byte(res.Out), &g2)
		return len(g2.Lint.Ignores) != len(gi.Lint.Ignores)
	}() {
		cs.Fail("--generate-ignores with the generated ignores in place differs:\n%s", res.Out)
	}
	if len(got) == 0 {
		c.Count("nothing to ignore", 1)
		return
	}
	if len(got) > 5 {
		cs.Sig("%v", keys(got))
	}
	// each entry is needed
	for i := 0; i < 2; i++ {
		k := r.Intn(len(gi.Lint.Ignores))
		x := gi.Lint.Ignores[k]
		j := r.Intn(len(x.Files))
		var l2 L
		l2 = append(l2, l[:k]...)
		if len(x.Files) > 1 {
			l2 = append(l2, M{"id": x.ID, "files": strsL(append(append([]string{}, x.Files[:j]...), x.Files[j+1:]...))})
		}
		l2 = append(l2, l[k+1:]...)
		delete(lint, "ignores")
		if len(l2) > 0 {
			lint["ignores"] = l2
		}
		cs.Write("prototool.yaml", toYAML(file, 0))
		var w []finding
		ign := map[string]bool{}
		for y := range got {
			ign[y] = y != x.ID+" "+x.Files[j]
		}
		for _, y := range lintRefBut(s.Files, conf, func(rule, file string) bool { return ign[rule+" "+file] }) {
			if sel[y.rule] && (sub == "" || within(sub, y.file)) {
				w = append(w, y)
			}
		}
		if !strings.HasSuffix(x.ID, "_SAME_IN_DIR") && len(w) == 0 {
			cs.Fatal("reference inconsistent for %s %s", x.ID, x.Files[j])
		}
		cs.Run(core.Opt{Quiet: true}, "version")
		g := lintRun(cs, "lint", "--json", func() string {
			if sub == "" {
				return "."
			}
			return sub
		}())
		if g == nil {
			return
		}
		if d := core.DiffLists(findingList(w), findingList(g)); d != "" {
			cs.Fail("findings without the entry %s %s differ:\n%s", x.ID, x.Files[j], d)
			return
		}
		c.Count("entries taken away", 1)
	}
}

func c08Bad(cs *core.Case) {
	c, r := cs.C, cs.R
	cs.Write("a.proto", "syntax = \"proto3\";\n\npackage a;\n\nmessage lower {}\n")
	lint, _ := selection(cs)
	rules, _ := lint["rules"].(M)
	if rules == nil {
		rules = M{}
		lint["rules"] = rules
	}
	list := func(k string) L { l, _ := rules[k].(L); return l }
	var kind, word string
	id := lintIDs[r.Intn(len(lintIDs))]
	badID := pick(r, "NO_SUCH_RULE", id+"_", "_"+id, id[1:], id+" ", strings.Replace(id, "_", "-", 1), "*", strings.ToLower(id)+"x", "UBER2")
	onlyLint := false
	switch kind = pick(r, "group", "add", "remove", "ignore", "both"); kind {
	case "group":
		g := pick(r, "uber3", "uber", "default", "none", "all", "uber1,uber2", "google ", "uber")
		lint["group"], word, onlyLint = anyCase(cs, g), strings.TrimSpace(g), true
	case "add":
		rules["add"], word, onlyLint = append(list("add"), badID), strings.TrimSpace(strings.ToUpper(badID)), true
	case "remove":
		rules["remove"], word, onlyLint = append(list("remove"), badID), strings.TrimSpace(strings.ToUpper(badID)), true
	case "ignore":
		lint["ignores"], word, onlyLint = L{M{"id": badID, "files": L{"a.proto"}}}, strings.TrimSpace(strings.ToUpper(badID)), true
	case "both":
		rules["add"], rules["remove"], word = append(list("add"), anyCase(cs, id)), append(list("remove"), anyCase(cs, id)), id
	}
	cs.Write("prototool.yaml", toYAML(M{"lint": lint}, 0))
	before := core.Snapshot(cs.W)
	for _, args := range [][]string{{"lint", "."}, {"lint", "--list-linters"}, {"lint", "--generate-ignores", "."}, {"lint", "a.proto", "--json"}, {"all", "."}} {
		if args[0] == "all" && onlyLint && kind != "group" {
			// `all` formats before it lints
			continue
		}
		if len(args) > 1 && args[1] == "--generate-ignores" && kind == "ignore" {
			continue // documented to disregard the ignores
		}
		if args[0] == "all" && kind == "group" {
			continue
		}
		res := cs.P(args...)
		if res.Code == 0 || !strings.Contains(strings.ToUpper(res.Out+res.Err), strings.ToUpper(word)) {
			cs.Fail("%v with a bad %s (%q): exit %d, output %q %q", args, kind, word, res.Code, res.Out, res.Err)
			return
		}
		c.Count("bad "+kind, 1)
	}
	if d := core.DiffSnap(before, core.Snapshot(cs.W)); len(d) > 0 {
		cs.Fail("files changed: %s", d)
	}
	cs.Sig("%s %s", kind, word)
}

func c08Groups(cs *core.Case) {
	c := cs.C
	if !sameIDs(cs, "--list-all-linters differs from the documented rules", lintIDs, listed(cs, "--list-all-linters")) {
		return
	}
	var names []string
	for g := range lintGroups {
		names = append(names, g)
	}
	sort.Strings(names)
	res := cs.P("lint", "--list-all-lint-groups")
	if res.Code != 0 || !core.EqualStrings(core.SplitLines(res.Out), names) {
		cs.Fail("--list-all-lint-groups: exit %d, %q, want %q", res.Code, res.Out, names)
	}
	purposes := map[string]string{}
	for _, l := range core.SplitLines(cs.P("lint", "--list-all-linters").Out) {
		f := strings.Fields(l)
		if purposes[f[0]] != "" {
			cs.Fail("%s listed twice", f[0])
		}
		purposes[f[0]] = strings.Join(f[1:], " ")
	}
	for _, g := range names {
		for _, sp := range []string{g, strings.ToUpper(g)} {
			res := cs.P("lint", "--list-lint-group", sp)
			var ids []string
			for _, l := range core.SplitLines(res.Out) {
				f := strings.Fields(l)
				ids = append(ids, f[0])
				if purposes[f[0]] != strings.Join(f[1:], " ") {
					cs.Fail("purpose of %s differs between listings: %q", f[0], l)
				}
			}
			if res.Code != 0 || !sort.StringsAreSorted(ids) {
				cs.Fail("--list-lint-group %s: exit %d, order %v", sp, res.Code, ids)
			}
			sameIDs(cs, "group "+g+" differs from the documented one", keys(lintGroups[g]), ids)
			cs.Write("prototool.yaml", toYAML(M{"lint": M{"group": sp}}, 0))
			sameIDs(cs, "--list-linters of group "+sp, keys(lintGroups[g]), listed(cs, "--list-linters"))
			c.Count("groups listed", 1)
		}
		for _, h := range names {
			res := cs.P("lint", "--diff-lint-groups", g+","+h)
			var want []string
			for _, id := range lintIDs {
				if lintGroups[g][id] && !lintGroups[h][id] {
					want = append(want, "< "+id)
				}
				if !lintGroups[g][id] && lintGroups[h][id] {
					want = append(want, "> "+id)
				}
			}
			if d := core.DiffLists(core.Sorted(want), core.Sorted(core.SplitLines(res.Out))); d != "" || res.Code != 0 {
				cs.Fail("--diff-lint-groups %s,%s: exit %d\n%s", g, h, res.Code, d)
			}
			c.Count("group pairs compared", 1)
		}
	}
	cs.Write("prototool.yaml", "")
	for _, bad := range [][]string{{"--list-lint-group", "uber3"}, {"--diff-lint-groups", "uber1,uber3"}, {"--diff-lint-groups", "nope,uber1"}, {"--diff-lint-groups", "uber1"}, {"--diff-lint-groups", "uber1,uber2,google"},
		{"--list-linters", "--list-all-linters"}, {"--list-all-lint-groups", "--list-linters"}, {"--generate-ignores", "--list-linters"}, {"--list-lint-group", "uber1", "--diff-lint-groups", "uber1,uber2"}} {
		if res := cs.P(append([]string{"lint"}, bad...)...); res.Code == 0 || strings.TrimSpace(res.Out+res.Err) == "" {
			cs.Fail("%v accepted: exit %d, %q %q", bad, res.Code, res.Out, res.Err)
		}
		c.Count("bad listings refused", 1)
	}
	cs.Sig("groups")
}
