package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C22", Level: "exploration", Confirm: true, Run: runC22,
		Rule:  "file sets with compile errors, lint findings and format differences in several directories (odd characters in names and messages, scripted protoc messages) are checked by compile, lint, format -l and all; the JSON records are taken as the findings and every text format (random subsets and orders of fields), the order, the single-file filter, --debug and invalid formats are checked against them, and for scripted messages the records against the script. Non-trivial: at least two findings; distinct by command, formats and findings.",
		Notes: []string{"an absent rule id or message is left out together with its separator; a separator left at the end of a line is accepted", "line or column 0 (whole file) is printed as 1 in text and left out in JSON", "break check: text and JSON of compared schemas against the reference of C09"}})
}

type failRec struct {
	Filename string `json:"filename"`
	Line     int    `json:"line"`
	Column   int    `json:"column"`
	LintID   string `json:"lint_id"`
	Message  string `json:"message"`
}

func recLess(a, b failRec) bool {
	if a.Filename != b.Filename {
		return a.Filename < b.Filename
	}
	if a.Line != b.Line {
		return a.Line < b.Line
	}
	if a.Column != b.Column {
		return a.Column < b.Column
	}
	if a.LintID != b.LintID {
		return a.LintID < b.LintID
	}
	return a.Message < b.Message
}

func parseRecs(out string) ([]failRec, string) {
	var rs []failRec
	for _, l := range core.SplitLines(out) {
		d := json.NewDecoder(bytes.NewReader([]byte(l)))
		d.DisallowUnknownFields()
		var f failRec
		if err := d.Decode(&f); err != nil || d.More() {
			return rs, fmt.Sprintf("not a JSON failure: %q (%v)", l, err)
		}
		rs = append(rs, f)
	}
	return rs, ""
}

// render is the reference for a text line.
func (f failRec) render(fields []string) string {
	var p []string
	for _, k := range fields {
		switch k {
		case "filename":
			if f.Filename == "" {
				p = append(p, "<input>")
			} else {
				p = append(p, f.Filename)
			}
		case "line":
			p = append(p, atLeast1(fmt.Sprint(f.Line)))
		case "column":
			p = append(p, atLeast1(fmt.Sprint(f.Column)))
		case "id":
			if f.LintID != "" {
				p = append(p, f.LintID)
			}
		case "message":
			if f.Message != "" {
				p = append(p, f.Message)
			}
		}
	}
	return strings.Join(p, ":")
}

func sameText(rs []failRec, fields []string, out string) string {
	var want []string
	last := fields[len(fields)-1]
	for _, f := range rs {
		if l := f.render(fields); l != "" {
			if last == "id" && f.LintID == "" || last == "message" && f.Message == "" {
				l += "?"
			}
			want = append(want, l)
		}
	}
	got := core.SplitLines(out)
	if len(want) != len(got) {
		return fmt.Sprintf("want %d lines, got %d\n%s", len(want), len(got), core.DiffLists(want, got))
	}
	for i := range want {
		w := want[i]
		if strings.HasSuffix(w, "?") && (got[i] == strings.TrimSuffix(w, "?") || got[i] == strings.TrimSuffix(w, "?")+":") {
			continue
		}
		if got[i] != w {
			return fmt.Sprintf("line %d:\nwant %q\ngot  %q", i+1, w, got[i])
		}
	}
	return ""
}

func randFields(r *rand.Rand) []string {
	all := []string{"filename", "line", "column", "id", "message"}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	n := 1 + r.Intn(5)
	f := append([]string{}, all[:n]...)
	if chance(r, 15) {
		f = append(f, f[r.Intn(len(f))])
	}
	return f
}

func spellFields(r *rand.Rand, f []string) string {
	s := strings.Join(f, ":")
	switch r.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.Title(s)
	}
	return s
}

var oddDirs = []string{"plain", "a b", "ünï", "per%cent", "a&b<c>", "qu'ote", "dash-ed", "dot.ted", "[x]", "tab\tdir", "%d", "a+b", "back\\slash", "ctrl\x01x"}

func runC22(c *core.Ctx) {
	c.Each("set", c.N(250, 4000), c22Set)
	c.Each("scripted", c.N(250, 4000), c22Scripted)
	c.Each("break", c.N(150, 3000), c22Break)
}

func c22Set(cs *core.Case) {
	c, r := cs.C, cs.R
	cfg := fullCfg(cs)
	cfg.FilesPerPkg, cfg.Safe = 4, true
	cfg.NoPkg = 0
	s := pgen.Generate(r, cfg)
	cmd := pick(r, "compile", "lint", "lint", "format -l", "all", "descriptor-set", "lint --fixdummy")
	if cmd == "lint --fixdummy" {
		cmd = "lint"
	}
	dir := pick(r, "", "", oddDirs[r.Intn(9)])
	for i, f := range s.Files {
		t := f.Render()
		if cmd != "lint" && cmd != "format -l" && cmd != "all" || chance(r, 5) {
			for j := r.Intn(3); j > 0; j-- {
				t = plantErr(r, s, f, t, i*10+j)
			}
		}
		if cmd == "format -l" && chance(r, 40) {
			t = strings.Replace(t, "\n\n", "\n\n\n", 1)
		}
		if cmd == "all" {
			t = strings.Replace(t, "(vopts.", "(vopts.", -1)
		}
		cs.Write(filepath.Join(dir, f.Path), t)
	}
	if s.OptFile {
		cs.Write(filepath.Join(dir, pgen.OptsPath), pgen.OptsSource)
	}
	cs.Write(filepath.Join(dir, "vx/opt.proto"), vxOpt)
	// files whose names or paths end in those of others
	var ends []string
	if chance(r, 50) {
		for i, f := range []string{"sfx/a.proto", "sfx/aa.proto", "sfx/x.a.proto", "sfx/sfx/a.proto", "a.proto"} {
			t := fmt.Sprintf("syntax = \"proto3\";\n\npackage ends%d;\n\n\nmessage low_%d {\n  int32 Up = 1;\n}\n", i, i)
			if i < 3 {
				t = fmt.Sprintf("syntax = \"proto3\";\n\npackage ends;\n\n\nmessage low_%d {\n  int32 Up = 1;\n}\n", i)
			}
			if strings.Contains(cmd, "compile") || strings.Contains(cmd, "set") {
				t = strings.Replace(t, "int32", "Nope", 1)
			}
			cs.Write(filepath.Join(dir, f), t)
			ends = append(ends, f)
		}
	}
	conf := M{"lint": M{"group": pick(r, "uber1", "uber2", "google")}}
	if chance(r, 30) {
		conf["lint"].(M)["file_header"] = M{"content": "Header line\nsecond: 100%"}
	}
	if chance(r, 40) {
		conf["protoc"] = M{"allow_unused_imports": true}
	}
	cs.Write(filepath.Join(dir, "prototool.yaml"), toYAML(conf, 0))
	cwd := pick(r, dir, "")
	arg := rel(filepath.Join(cs.W, cwd), filepath.Join(cs.W, dir))
	if chance(r, 15) {
		arg = filepath.Join(cs.W, dir)
	}
	o := core.Opt{Dir: cwd, Quiet: true}
	cmdArgs := strings.Fields(cmd)
	if cmd == "all" {
		cmdArgs = append(cmdArgs, "--disable-format")
	}
	run := func(a string, extra ...string) *core.Res {
		return cs.Run(o, append(append(append([]string{}, cmdArgs...), a), extra...)...)
	}
	if cmd == "descriptor-set" {
		// its success output is binary; only failures are of interest
		if run(arg, "--tmp").Code == 0 {
			cs.Stop()
		}
	}
	j := run(arg, "--json")
	recs, e := parseRecs(j.Out)
	if e != "" {
		if strings.HasPrefix(j.Out, "{") || j.Code == 0 {
			cs.Fatal("%s --json: %s", cmd, e)
		}
		// an error rather than failures; nothing to compare
		c.Count("errors_instead_of_failures", 1)
		cs.Stop()
	}
	c22Compare(cs, cmd, recs, j, run, arg)
	// single file
	if len(recs) > 0 {
		var fs []string
		for _, f := range s.Files {
			fs = append(fs, f.Path)
		}
		for k := 0; k < 2; k++ {
			f := fs[r.Intn(len(fs))]
			if len(ends) > 0 && chance(r, 50) {
				f = ends[r.Intn(len(ends))]
			}
			abs := filepath.Join(cs.W, dir, f)
			d := rel(filepath.Join(cs.W, cwd), filepath.Dir(abs))
			jd := run(d, "--json")
			rd, e := parseRecs(jd.Out)
			if e != "" {
				continue
			}
			disp := rel(filepath.Join(cs.W, cwd), abs)
			var want []failRec
			for _, x := range rd {
				if x.Filename == disp {
					want = append(want, x)
				}
			}
			a := disp
			switch r.Intn(4) {
			case 0:
				a = "./" + disp
			case 1:
				a = abs
			case 2:
				a = filepath.Dir(disp) + "/../" + filepath.Base(filepath.Dir(abs)) + "/" + filepath.Base(disp)
			}
			js := run(a, "--json")
			rs, e := parseRecs(js.Out)
			if e != "" {
				cs.Fatal("single file %s: %s", a, e)
			}
			if fmt.Sprint(want) != fmt.Sprint(rs) {
				cs.Fatal("%s of the single file %s\nwant %v\ngot  %v", cmd, a, want, rs)
			}
			fl := randFields(r)
			if m := sameText(want, fl, run(a, "--error-format", spellFields(r, fl)).Out); m != "" {
				cs.Fatal("%s of the single file %s with %v: %s", cmd, a, fl, m)
			}
			if len(want) > 0 && js.Code == 0 {
				cs.Fatal("%s of the single file %s prints failures and exits 0", cmd, a)
			}
			c.Count("single_file_runs", 1)
		}
	}
}

// c22Compare checks every text form against the JSON records.
func c22Compare(cs *core.Case, cmd string, recs []failRec, j *core.Res, run func(string, ...string) *core.Res, arg string) {
	c, r := cs.C, cs.R
	if (len(recs) > 0) != (j.Code != 0) {
		cs.Fatal("%s --json prints %d failures and exits %d", cmd, len(recs), j.Code)
	}
	if !sort.SliceIsSorted(recs, func(a, b int) bool { return recLess(recs[a], recs[b]) }) {
		cs.Fatal("%s --json: failures are not sorted:\n%s", cmd, j.Out)
	}
	def := []string{"filename", "line", "column", "message"}
	d := run(arg)
	if m := sameText(recs, def, d.Out); m != "" {
		cs.Fatal("%s in the default format: %s", cmd, m)
	}
	dd := run(arg, "--debug")
	if dd.Out != d.Out || dd.Code != d.Code {
		cs.Fatal("%s --debug changes standard output or the exit code:\n%s", cmd, firstDiff(d.Out, dd.Out))
	}
	if d.Err != "" {
		cs.Fatal("%s prints on standard error: %q", cmd, d.Err)
	}
	n := 3
	if !c.Quick() {
		n = 5
	}
	var used []string
	for i := 0; i < n; i++ {
		f := randFields(r)
		if i == 0 {
			f = []string{"filename", "line", "column", "id", "message"}
		}
		sp := spellFields(r, f)
		used = append(used, sp)
		x := run(arg, "--error-format", sp)
		if m := sameText(recs, f, x.Out); m != "" {
			cs.Fatal("%s with --error-format %s: %s", cmd, sp, m)
		}
		if x.Code != j.Code {
			cs.Fatal("%s with --error-format %s exits %d, otherwise %d", cmd, sp, x.Code, j.Code)
		}
		c.Count("formats_compared", 1)
	}
	if len(recs) > 0 {
		bad := pick(r, "nope", "filename:nope", "filename,line", ":", "filename:", "filename::line", "file", "filename line", " filename", "lint_id", "filename:line:column:rule:message")
		x := run(arg, "--error-format", bad)
		rd := map[string]bool{}
		for _, f := range recs {
			rd[f.render(def)] = true
		}
		if x.Code == 0 || strings.TrimSpace(x.Out+x.Err) == "" {
			cs.Fatal("%s with the invalid --error-format %q: exit %d, output %q", cmd, bad, x.Code, x.Out+x.Err)
		}
		for _, l := range x.Lines() {
			if rd[l] {
				cs.Fatal("%s with the invalid --error-format %q prints failures", cmd, bad)
			}
		}
	}
	c.Count("findings", int64(len(recs)))
	if len(recs) > 1 {
		cs.Sig(cmd, used, recs)
		cs.Sample("%s %v: %d findings, first %q", cmd, used, len(recs), recs[0].render(def))
	}
}

var oddMsgs = []string{"plain message.", "with: colon: twice", "per %d cent %s %%", "quote \" and ' and \\ back", "<b>&amp;</b>", "ünïcödé 日本語 \u2028 sep", "tab\tinside", "a.proto:3:4: inner position", "{\"json\": 1}", "trailing colon:", "x", "[brackets] (parens)", "semi; comma, dash - dash"}

func c22Scripted(cs *core.Case) {
	c, r := cs.C, cs.R
	nd := 1 + r.Intn(4)
	fake := &core.FakeConf{}
	var want []failRec
	var files []string
	for i := 0; i < nd; i++ {
		d := fmt.Sprintf("%s%d", oddDirs[r.Intn(len(oddDirs))], i)
		base := fmt.Sprintf("f%d.proto", i)
		cs.Write(filepath.Join(d, base), "syntax = \"proto3\";\n\npackage p"+itoa(i)+";\n")
		p := filepath.Join(d, base)
		files = append(files, p)
		var lines []string
		n := r.Intn(6)
		for k := 0; k < n; k++ {
			m := oddMsgs[r.Intn(len(oddMsgs))]
			if chance(r, 10) {
				m += strings.Repeat(" long", 200+r.Intn(3000))
			}
			ln, col := 1+r.Intn(12), 1+r.Intn(12)
			lines = append(lines, fmt.Sprintf("%s:%d:%d: %s", p, ln, col, m))
			want = append(want, failRec{Filename: p, Line: ln, Column: col, Message: strings.TrimSpace(m)})
		}
		ex := 0
		if n > 0 {
			ex = 1
		}
		nl := "\n"
		if chance(r, 20) {
			nl = "\r\n"
			nl = "\n"
		}
		fake.Rules = append(fake.Rules, core.FakeRule{Match: base, Stderr: strings.Join(lines, nl) + nl, Exit: ex, DelayMs: r.Intn(10)})
	}
	cs.Write("prototool.yaml", "lint:\n  group: empty\n")
	sort.SliceStable(want, func(a, b int) bool { return recLess(want[a], want[b]) })
	cmd := pick(r, "compile", "lint", "format -l", "format -d", "format", "files", "generate", "all")
	o := core.Opt{Fake: fake, Quiet: true}
	run := func(a string, extra ...string) *core.Res {
		return cs.Run(o, append(append(strings.Fields(cmd), a), extra...)...)
	}
	if cmd == "files" {
		res := run(".")
		if !core.EqualStrings(res.Lines(), core.Sorted(files)) || res.Code != 0 {
			cs.Fatal("files prints %q, want %q", res.Lines(), core.Sorted(files))
		}
		return
	}
	if len(want) == 0 {
		cs.Stop()
	}
	j := run(".", "--json")
	recs, e := parseRecs(j.Out)
	if e != "" {
		cs.Fatal("%s --json: %s", cmd, e)
	}
	if fmt.Sprint(recs) != fmt.Sprint(want) {
		cs.Note("%s", j)
		cs.Fatal("%s --json: failures\nwant %q\ngot  %q", cmd, want, recs)
	}
	c22Compare(cs, cmd, recs, j, run, ".")
	c.Count("scripted_messages", int64(len(want)))
	// a single file
	k := r.Intn(nd)
	var one []failRec
	for _, f := range want {
		if f.Filename == files[k] {
			one = append(one, f)
		}
	}
	if len(one) > 0 {
		x := run(pick(r, files[k], "./"+files[k], filepath.Join(cs.W, files[k])))
		if m := sameText(one, []string{"filename", "line", "column", "message"}, x.Out); m != "" || x.Code == 0 {
			cs.Fatal("%s of the single file %s: exit %d %s", cmd, files[k], x.Code, m)
		}
	}
}

// c22Break compares the text and JSON forms of the messages of break check.
func c22Break(cs *core.Case) {
	c, r := cs.C, cs.R
	s := pgen.Generate(r, breakCfg(cs))
	writeSet(cs, s, ".")
	conf, beta, deps := breakConf(r)
	var files []string
	for _, f := range s.Files {
		files = append(files, f.Path)
	}
	if s.OptFile {
		files = append(files, pgen.OptsPath)
	}
	cs.Write("prototool.yaml", toYAML(conf, 0))
	new, e := protocSet(cs, cs.W, files...)
	if e != "" {
		c.Count("sets protoc rejects", 1)
		return
	}
	old := proto.Clone(new).(*fset)
	m := &mutator{r: r, s: old}
	for i := 2 + r.Intn(20); i > 0; i-- {
		m.mutate(false)
	}
	want := core.Sorted(breakRef(old, new, beta, deps))
	args := []string{"break", "check", "--descriptor-set-path", writeBin(cs, "old.bin", old)}
	text := cs.Run(core.Opt{}, args...)
	js := cs.Run(core.Opt{}, append(args, "--json")...)
	recs, e := parseRecs(js.Out)
	if e != "" {
		cs.Fatal("break check --json: %s", e)
	}
	var msgs []string
	for _, x := range recs {
		if x.Filename != "" || x.Line != 0 || x.Column != 0 || x.LintID == "" || x.Message == "" {
			cs.Fatal("break check --json: not a rule and a message: %q", x)
		}
		msgs = append(msgs, x.Message)
	}
	lines := core.SplitLines(text.Out)
	if !core.EqualStrings(lines, msgs) {
		cs.Fatal("break check prints\n%s\nand with --json the messages\n%s", strings.Join(lines, "\n"), strings.Join(msgs, "\n"))
	}
	if !sort.SliceIsSorted(recs, func(a, b int) bool { return recLess(recs[a], recs[b]) }) {
		cs.Fatal("break check --json: not sorted by rule and message\n%s", js.Out)
	}
	if text.Code != js.Code || text.Err+js.Err != "" || (text.Code == 0) != (len(want) == 0) || len(lines) != len(want) {
		cs.Fatal("break check: exit %d, with --json %d, %d messages, want %d\n%s%s", text.Code, js.Code, len(lines), len(want), text.Err, js.Err)
	}
	c.Count("break_messages", int64(len(lines)))
	if len(lines) > 1 {
		cs.Sig("%v", lines)
	}
}
