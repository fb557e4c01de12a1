package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C05", Level: "exploration", Run: runC05,
		Rule:  "random sets of formatted, unformatted and fixable files beside other files, under random working directories, arguments, lint groups, file headers and --fix, are given to every formatter mode, per file and per directory; the texts, the applied diffs, the reported files, the exit codes and the state of the tree (content, mode, time stamps) are compared with one another. With a planted compile error every mode must fail and change nothing. Non-trivial: at least one file changes and one does not, or a planted error; distinct by texts and options.",
		Notes: []string{"diffs are applied by a unified diff reader of its own"}})
}

var hunkRe = regexp.MustCompile(`^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@`)

// applyDiff applies the hunks of one file to old.
func applyDiff(old string, hunks []string) (string, error) {
	src := strings.SplitAfter(old, "\n")
	if src[len(src)-1] == "" {
		src = src[:len(src)-1]
	}
	var out []string
	at := 0
	for i := 0; i < len(hunks); {
		m := hunkRe.FindStringSubmatch(hunks[i])
		if m == nil {
			return "", fmt.Errorf("not a hunk: %q", hunks[i])
		}
		st, _ := strconv.Atoi(m[1])
		n, k := 1, 1
		if m[2] != "" {
			n, _ = strconv.Atoi(m[2])
		}
		if m[4] != "" {
			k, _ = strconv.Atoi(m[4])
		}
		if n > 0 {
			st--
		}
		if st < at || st > len(src) {
			return "", fmt.Errorf("hunk %q out of place", hunks[i])
		}
		out = append(out, src[at:st]...)
		at = st
		i++
		for i < len(hunks) && (n > 0 || k > 0 || strings.HasPrefix(hunks[i], `\`)) {
			l := hunks[i]
			i++
			nonl := i < len(hunks) && strings.HasPrefix(hunks[i], `\`)
			txt := ""
			if len(l) > 0 {
				txt = l[1:] + "\n"
			}
			if nonl {
				txt = strings.TrimSuffix(txt, "\n")
				i++
			}
			if l == "" {
				return "", fmt.Errorf("empty line in a hunk")
			}
			switch l[0] {
			case ' ', '-':
				if at >= len(src) || src[at] != txt {
					return "", fmt.Errorf("line %d does not match %q", at+1, l)
				}
				at++
				n--
				if l[0] == ' ' {
					k--
					out = append(out, txt)
				}
			case '+':
				k--
				out = append(out, txt)
			default:
				return "", fmt.Errorf("odd line %q", l)
			}
		}
		if n != 0 || k != 0 {
			return "", fmt.Errorf("hunk too short")
		}
	}
	out = append(out, src[at:]...)
	return strings.Join(out, ""), nil
}

var diffHead = regexp.MustCompile(`^--- (.*)\.orig\t`)

// splitDiff splits the output of diff mode by file.
func splitDiff(s string) (map[string][]string, error) {
	out := map[string][]string{}
	cur := ""
	ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if s == "" {
		return out, nil
	}
	for i := 0; i < len(ls); i++ {
		if m := diffHead.FindStringSubmatch(ls[i]); m != nil && i+1 < len(ls) && strings.HasPrefix(ls[i+1], "+++ "+m[1]+"\t") {
			cur = m[1]
			if _, ok := out[cur]; ok {
				return nil, fmt.Errorf("two diffs for %s", cur)
			}
			out[cur] = []string{}
			i++
			continue
		}
		if cur == "" {
			return nil, fmt.Errorf("unexpected line %q", ls[i])
		}
		out[cur] = append(out[cur], ls[i])
	}
	return out, nil
}

func runC05(c *core.Ctx) {
	c.Each("modes", c.N(400, 5000), c05Modes)
}

func c05Modes(cs *core.Case) {
	r := cs.R
	cfg := fmtCfg(cs)
	cfg.NoPkg = 5
	s := pgen.Generate(r, cfg)
	sub := pick(r, "", "", "proj", "x y/proj")
	root := filepath.Join(cs.W, sub)
	os.MkdirAll(root, 0755)
	writeSet(cs, s, sub)
	conf := "protoc:\n  allow_unused_imports: true\n"
	fix := chance(r, 40)
	if g := pick(r, "", "uber1", "uber2", "google", "empty"); g != "" || chance(r, 30) {
		conf += "lint:\n"
		if g != "" {
			conf += "  group: " + g + "\n"
		}
		if chance(r, 40) {
			conf += "  java_package_prefix: org\n"
		}
		if chance(r, 40) {
			conf += "  file_header:\n    content: |\n      Some license.\n\n      All rights.\n"
		}
	}
	if conf2 := strings.Replace(conf, "lint:\n", "lint:\n", 1); strings.HasSuffix(conf2, "lint:\n") {
		conf = strings.TrimSuffix(conf, "lint:\n")
	}
	cs.Write(filepath.Join(sub, "prototool.yaml"), conf)
	cs.Write(filepath.Join(sub, "README.md"), "text")
	var files []string // relative to root
	for _, f := range s.Files {
		files = append(files, f.Path)
		t := f.Render()
		if chance(r, 3) { // so large that its diff does not fit into common buffers
			var b strings.Builder
			pad := strings.Repeat("so much text ", 1+r.Intn(12))
			for i, n := 0, 200+r.Intn(1500); i < n; i++ {
				fmt.Fprintf(&b, "\n// %s\nmessage Big%dx%d {\n\t// %s\n\tint64 a = %d;\n  int64 b = %d;\n}\n", pad, len(files), i, pad, 1+i%7, 8+i%7)
			}
			if f.Syntax == "proto2" {
				t += strings.Replace(b.String(), "int64", "optional int64", -1)
			} else {
				t += b.String()
			}
			cs.C.Count("large_files", 1)
		}
		switch r.Intn(5) {
		case 0:
			t = pgen.Reindent(r, t)
		case 1:
			t = strings.TrimRight(t, "\n")
		case 2:
			t += "\n\n"
		case 3:
			t = strings.Replace(t, "\n", "\r\n", -1)
		}
		if !chance(r, 5) {
			cs.Write(filepath.Join(sub, f.Path), t)
		}
	}
	if s.OptFile {
		files = append(files, pgen.OptsPath)
	}
	sort.Strings(files)
	flags := []string{}
	if fix {
		flags = append(flags, "--fix")
	}
	// some are already in the final form
	for _, f := range files {
		if chance(r, 40) {
			cs.Run(core.Opt{Dir: root, Quiet: true}, append([]string{"format", "-w", f}, flags...)...)
		}
	}
	// and some differ from it in a detail only
	for _, f := range files {
		if !chance(r, 35) {
			continue
		}
		p := filepath.Join(sub, f)
		t := cs.Read(p)
		ls := strings.Split(t, "\n")
		switch i := r.Intn(len(ls)); r.Intn(7) {
		case 0:
			t = strings.Replace(t, "\n", "\r\n", -1)
		case 1:
			t = strings.TrimSuffix(t, "\n")
		case 2:
			t += pick(r, "\n", " ", "\n\n\n", "\t\n")
		case 3:
			t = pick(r, "\n", " ", "\n\n") + t
		case 4:
			if ls[i] != "" {
				ls[i] += pick(r, " ", "\t", "\r")
				t = strings.Join(ls, "\n")
			}
		case 5:
			if ls[i] == "" || strings.HasPrefix(ls[i], "option ") {
				ls[i] += "\n"
				t = strings.Join(ls, "\n")
			}
		case 6:
			t = strings.Replace(t, "  ", pick(r, "\t", "    ", " "), 1+r.Intn(3))
		}
		cs.Write(p, t)
	}
	for i, f := range files {
		p := filepath.Join(root, f)
		if i%3 == 0 {
			os.Chmod(p, []os.FileMode{0600, 0755, 0640, 0444}[r.Intn(4)])
		}
		os.Chtimes(p, time.Unix(1500000000, 0), time.Unix(1500000000, 0))
	}
	cwd := cs.W
	if chance(r, 50) {
		cwd = root
	}
	if chance(r, 15) {
		cwd = filepath.Join(root, filepath.Dir(files[r.Intn(len(files))]))
	}
	argAbs := root
	if chance(r, 30) {
		argAbs = filepath.Join(root, filepath.Dir(files[r.Intn(len(files))]))
	}
	broken := chance(r, 15)
	if broken {
		var in []string
		for _, f := range files {
			if within(argAbs, filepath.Join(root, f)) {
				in = append(in, f)
			}
		}
		f := filepath.Join(sub, in[r.Intn(len(in))])
		cs.Write(f, cs.Read(f)+pick(r, "\nmessage {\n", "\nmessage Broken { Undefined x = 1; }\n", "\n}\n", "\n/* open\n", "\nmessage Zq { string a = 1; int32 a = 1; }\n"))
		os.Chtimes(filepath.Join(cs.W, f), time.Unix(1500000000, 0), time.Unix(1500000000, 0))
	}
	arg := rel(cwd, argAbs)
	if chance(r, 20) {
		arg = argAbs
	}
	disp := map[string]string{} // display path -> file
	var sel []string
	for _, f := range files {
		if within(argAbs, filepath.Join(root, f)) {
			sel = append(sel, f)
			disp[rel(cwd, filepath.Join(root, f))] = f
			if filepath.IsAbs(arg) {
				// display paths are relative to the working directory in any case
				disp[filepath.Join(root, f)] = f
			}
		}
	}
	state := func() map[string]string {
		m := core.Snapshot(cs.W)
		for _, f := range files {
			fi, _ := os.Stat(filepath.Join(root, f))
			m[filepath.Join(root, f)] += fmt.Sprint(" ", fi.ModTime().UnixNano())
		}
		return m
	}
	st0 := state()
	o := core.Opt{Dir: cwd}
	run := func(a ...string) *core.Res { return cs.Run(o, append(a, flags...)...) }
	same := func(what string) {
		if d := core.DiffSnap(st0, state()); len(d) > 0 {
			cs.Fatal("%s changed the tree: %v", what, d)
		}
	}
	if broken {
		for _, a := range [][]string{{"format", arg}, {"format", "-d", arg}, {"format", "-l", arg}, {"format", "-w", arg}, {"all", arg}} {
			w := run(a...)
			if w.Code == 0 {
				cs.Fatal("%v succeeds although a file does not compile: %s", a, w)
			}
			if strings.Contains(w.Out, "FORMAT_DIFF") || strings.Contains(w.Out, ".orig\t") || strings.Contains(w.Out, "\nsyntax =") {
				cs.Fatal("%v gives a result although a file does not compile: %s", a, w)
			}
			same(strings.Join(a, " "))
		}
		cs.C.Count("broken_sets", 1)
		cs.Sig("broken", st0)
		return
	}
	// plain, per file
	want := map[string]string{}
	changes := []string{}
	orig := map[string]string{}
	for _, f := range sel {
		a := rel(cwd, filepath.Join(root, f))
		p := run("format", a)
		orig[f] = cs.Read(filepath.Join(sub, f))
		want[f] = p.Out
		ch := p.Out != orig[f]
		if (p.Code != 0) != ch {
			cs.Fatal("format %s: changes=%v but exit %d", a, ch, p.Code)
		}
		if ch {
			changes = append(changes, f)
		}
		l := run("format", "-l", a)
		if (l.Code != 0) != ch || (l.Out != "") != ch {
			cs.Fatal("format -l %s: changes=%v but exit %d, output %q", a, ch, l.Code, l.Out)
		}
		d := run("format", "-d", a)
		if (d.Code != 0) != ch || (d.Out != "") != ch {
			cs.Fatal("format -d %s: changes=%v but exit %d, output %q", a, ch, d.Code, d.Out)
		}
		if ch {
			m, err := splitDiff(d.Out)
			if err != nil || len(m) != 1 {
				cs.Fatal("format -d %s: %v: %s", a, err, d.Out)
			}
			for n, h := range m {
				if disp[n] != f {
					cs.Fatal("format -d %s names %s", a, n)
				}
				if got, err := applyDiff(orig[f], h); err != nil || got != want[f] {
					cs.Fatal("the diff does not turn the old text into the new one (%v): %s\n%s", err, firstDiff(want[f], got), d.Out)
				}
			}
		}
		cs.C.Count("files", 1)
	}
	same("format of a single file without -w")
	// whole argument
	p := run("format", arg)
	if (p.Code != 0) != (len(changes) > 0) {
		cs.Fatal("format %s: exit %d, files that change: %v", arg, p.Code, changes)
	}
	all := ""
	for _, f := range sel {
		all += want[f]
	}
	if len(p.Out) != len(all) {
		cs.Fatal("format %s prints something else than the single files' texts (%d and %d bytes)", arg, len(p.Out), len(all))
	}
	for _, f := range sel {
		if !strings.Contains(p.Out, want[f]) {
			cs.Fatal("format %s does not print the text of %s", arg, f)
		}
	}
	d := run("format", "-d", arg)
	m, err := splitDiff(d.Out)
	if err != nil {
		cs.Fatal("format -d: %v", err)
	}
	if (d.Code != 0) != (len(changes) > 0) || len(m) != len(changes) {
		cs.Fatal("format -d %s: exit %d, %d diffs, files that change: %v", arg, d.Code, len(m), changes)
	}
	for n, h := range m {
		f, ok := disp[n]
		if !ok {
			cs.Fatal("format -d names %s", n)
		}
		if got, err := applyDiff(orig[f], h); err != nil || got != want[f] {
			cs.Fatal("the diff of %s does not lead to the formatted text (%v): %s", f, err, firstDiff(want[f], got))
		}
	}
	l := run("format", "-l", arg)
	var lf []string
	for _, x := range l.Lines() {
		n := x
		if i := strings.Index(x, ":1:1:"); i >= 0 {
			n = x[:i]
		}
		if disp[n] == "" {
			cs.Fatal("format -l names an unknown file: %s", x)
		}
		lf = append(lf, disp[n])
	}
	if (l.Code != 0) != (len(changes) > 0) || !core.EqualStrings(core.Sorted(lf), core.Sorted(changes)) {
		cs.Fatal("format -l %s: exit %d, reports %v, files that change: %v", arg, l.Code, lf, changes)
	}
	for _, two := range [][]string{{"-w", "-d"}, {"-w", "-l"}, {"-l", "-d"}} {
		if w := run("format", two[0], two[1], arg); w.Code == 0 {
			cs.Fatal("format %v succeeds", two)
		}
	}
	same("format without -w")
	// overwrite one file, then all
	if len(sel) > 1 && chance(r, 40) {
		f := sel[r.Intn(len(sel))]
		w := run("format", "-w", rel(cwd, filepath.Join(root, f)))
		if w.Code != 0 || w.Out != "" {
			cs.Fatal("format -w of one file: %s", w)
		}
		for _, g := range files {
			now := cs.Read(filepath.Join(sub, g))
			if g == f && now != want[f] {
				cs.Fatal("format -w %s leaves other bytes than format prints: %s", f, firstDiff(want[f], now))
			}
			if g != f && within(argAbs, filepath.Join(root, g)) && now != orig[g] {
				cs.Fatal("format -w %s changed %s", f, g)
			}
		}
	}
	w := run("format", "-w", arg)
	if w.Code != 0 || w.Out != "" {
		cs.Fatal("format -w: %s", w)
	}
	st1 := state()
	ch := map[string]bool{}
	for _, f := range changes {
		ch[filepath.Join(root, f)] = true
	}
	for k, v := range st0 {
		v1, ok := st1[k]
		if !ok {
			cs.Fatal("format -w removed %s", k)
		}
		if !ch[k] && v1 != v {
			cs.Fatal("format -w touched %s, which does not change: %s -> %s", k, v, v1)
		}
		if ch[k] && strings.Fields(v)[1] != strings.Fields(v1)[1] {
			cs.Fatal("format -w changed the mode of %s", k)
		}
	}
	if len(st1) != len(st0) {
		cs.Fatal("format -w created files: %v", core.DiffSnap(st0, st1))
	}
	for _, f := range sel {
		if got := cs.Read(filepath.Join(sub, f)); got != want[f] {
			cs.Fatal("format -w leaves other bytes in %s than format prints: %s", f, firstDiff(want[f], got))
		}
	}
	for _, a := range [][]string{{"-l"}, {"-d"}} {
		if w := run("format", a[0], arg); w.Code != 0 || w.Out != "" {
			cs.Fatal("format %s complains after format -w: %s", a[0], w)
		}
	}
	cs.C.Count("files_changed", int64(len(changes)))
	cs.C.Count("sets", 1)
	if len(changes) > 0 && len(changes) < len(sel) {
		cs.Sig(want, fix, conf)
		cs.Sample("%d of %d files change, fix=%v, argument %s", len(changes), len(sel), fix, arg)
	}
}
