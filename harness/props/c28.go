package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C28", Level: "exploration", Run: runC28,
		Rule:  "a session on one project, with one HOME, cache and TMPDIR, made of edits (definitions added, layout spoilt, errors planted and taken back, earlier versions restored with their old time stamps or all with one time stamp, files moved, removed and put back, configuration changed, branches switched, outputs removed or spoilt, commands killed half-way) and commands. Each command is also run on a fresh copy of the project's present files without its outputs, with a HOME, cache and TMPDIR of its own: exit code, output and sources afterwards must be the same, and everything the fresh run writes must be in the session's outputs with the same bytes. Often the command is repeated at once: same verdict and output for commands that write no source, exit zero for those that did and succeeded, no file changed. Non-trivial: the command printed, failed or wrote; distinct by command, result and what happened before.",
		Notes: []string{"Outputs of earlier runs that the present sources would not give are left where they are; that is not judged."}})
}

func runC28(c *core.Ctx) {
	c.Each("session", c.N(150, 4000), c28Session)
}

type c28Version struct {
	text string
	time time.Time
}

func c28Output(p string) bool {
	return within("gen", p) || p == "out.bin" || within(".git", p)
}

func c28Session(cs *core.Case) {
	c, r := cs.C, cs.R
	b := newBench(cs, 1+r.Intn(3), chance(r, 50), M{"lint": M{"group": pick(r, "uber1", "uber2", "google", "empty")}})
	hist := map[string][]c28Version{} // by path, oldest first
	note := func() {
		for p := range core.Snapshot(b.base) {
			q := rel(b.base, p)
			fi, err := os.Lstat(p)
			if err != nil || !fi.Mode().IsRegular() || c28Output(q) {
				continue
			}
			t := readAbs(p)
			if l := hist[q]; len(l) == 0 || l[len(l)-1].text != t {
				hist[q] = append(l, c28Version{t, fi.ModTime()})
			}
		}
	}
	protos := func() []string {
		var l []string
		for p := range core.Snapshot(b.base) {
			if q := rel(b.base, p); strings.HasSuffix(q, ".proto") && !c28Output(q) {
				l = append(l, q)
			}
		}
		sort.Strings(l)
		return l
	}
	abs := func(p string) string { return filepath.Join(b.base, p) }
	put := func(p, t string) {
		os.MkdirAll(filepath.Dir(abs(p)), 0755)
		os.WriteFile(abs(p), []byte(t), 0644)
	}
	groups := []string{"uber1", "uber2", "google", "empty"}
	kills := 0
	edit := func() string {
		l := protos()
		if len(l) == 0 {
			l = []string{b.set.Files[0].Path}
			put(l[0], b.set.Files[0].Render())
		}
		p := l[r.Intn(len(l))]
		t := readAbs(abs(p))
		switch k := r.Intn(21); k {
		case 0:
			put(p, t+fmt.Sprintf("\nmessage Added%d {\n  int32 one = 1;\n}\n", r.Intn(1000)))
			return "add to " + p
		case 1:
			put(p, strings.Replace(t, "\n", "\n\n", 1+r.Intn(4)))
			return "spoil layout of " + p
		case 2:
			put(p, t+pick(r, "\nmessage {\n", "\nmessage Bad { no.Such x = 1; }\n", "\nmessage bad_name {\n  int32 BadField = 1;\n}\n", "\nimport \"none.proto\";\n"))
			return "plant error in " + p
		case 3, 4, 5:
			// an earlier version, with or without its old time
			var ps []string
			for q := range hist {
				ps = append(ps, q)
			}
			sort.Strings(ps)
			q := ps[r.Intn(len(ps))]
			if chance(r, 50) {
				q = p
			}
			if len(hist[q]) == 0 {
				return "nothing"
			}
			v := hist[q][r.Intn(len(hist[q]))]
			put(q, v.text)
			if chance(r, 70) {
				os.Chtimes(abs(q), v.time, v.time)
			}
			return "restore " + q
		case 6:
			for _, q := range l {
				if len(hist[q]) > 0 {
					put(q, hist[q][0].text)
				}
			}
			return "restore all"
		case 7:
			os.Remove(abs(p))
			return "remove " + p
		case 8:
			q := filepath.Join(filepath.Dir(p), fmt.Sprintf("moved%d.proto", r.Intn(5)))
			os.Rename(abs(p), abs(q))
			return "move " + p
		case 9:
			conf := readAbs(abs("prototool.yaml"))
			for _, g := range groups {
				conf = strings.Replace(conf, "group: "+g, "group: @", 1)
				conf = strings.Replace(conf, "\""+g+"\"", "@", 1)
			}
			put("prototool.yaml", strings.Replace(conf, "@", groups[r.Intn(4)], 1))
			return "change lint group"
		case 10:
			at := time.Now().Add(-time.Duration(r.Intn(10000)) * time.Hour)
			for q := range core.Snapshot(b.base) {
				if !strings.Contains(q, ".git/") {
					os.Chtimes(q, at, at)
				}
			}
			return "one time for all"
		case 11:
			os.RemoveAll(abs("gen"))
			os.Remove(abs("out.bin"))
			return "remove outputs"
		case 12:
			n := 0
			for q := range core.Snapshot(b.base) {
				if x := rel(b.base, q); c28Output(x) && !within(".git", x) && chance(r, 50) {
					if fi, err := os.Lstat(q); err == nil && fi.Mode().IsRegular() {
						os.WriteFile(q, []byte("stale"), 0644)
						at := time.Now().Add(time.Hour)
						os.Chtimes(q, at, at)
						n++
					}
				}
			}
			return fmt.Sprintf("spoil %d outputs", n)
		case 13:
			if b.old == "" {
				return "nothing"
			}
			switch r.Intn(3) {
			case 0:
				git(cs, b.dir, "add", "-A")
				git(cs, b.dir, "commit", "-q", "--allow-empty", "-m", "more")
				return "commit"
			case 1:
				git(cs, b.dir, "add", "-A")
				git(cs, b.dir, "commit", "-q", "--allow-empty", "-m", "more")
				git(cs, b.dir, "branch", "-f", "old")
				return "branch"
			default:
				git(cs, b.dir, "add", "-A")
				git(cs, b.dir, "reset", "-q", "--hard")
				return "reset"
			}
		case 14:
			put(filepath.Join(filepath.Dir(p), "other", "new.proto"), "syntax = \"proto3\";\n\npackage other;\n\nmessage New {}\n")
			return "new directory"
		case 16:
			// as many bytes, and as old
			fi, _ := os.Lstat(abs(p))
			u := t
			for _, x := range [][2]string{{"int32 ", "int64 "}, {"int64 ", "int32 "}, {"message A", "message Z"}, {"message M", "message N"}, {"// ", "//\t"}, {"string ", "uint32 "}, {"\n\n", "\n "}} {
				if chance(r, 60) {
					u = strings.Replace(u, x[0], x[1], 1)
				}
			}
			put(p, u)
			if fi != nil && len(u) == len(t) && chance(r, 70) {
				os.Chtimes(abs(p), fi.ModTime(), fi.ModTime())
			}
			return "same size in " + p
		case 17:
			n := 0
			for q := range core.Snapshot(b.base) {
				if x := rel(b.base, q); c28Output(x) && !within(".git", x) && chance(r, 70) {
					if fi, err := os.Lstat(q); err == nil && fi.Mode().IsRegular() {
						os.WriteFile(q, []byte(strings.Repeat("x", int(fi.Size()))), 0644)
						os.Chtimes(q, fi.ModTime(), fi.ModTime())
						n++
					}
				}
			}
			return fmt.Sprintf("spoil %d outputs in place", n)
		case 15:
			os.MkdirAll(abs("new"), 0755)
			os.RemoveAll(abs("sub"))
			return "mkdir new"
		default:
			x := b.command(false)
			if chance(r, 40) {
				x = b.command(true)
			}
			d := time.Duration(r.Intn(80)) * time.Millisecond
			var f *core.FakeConf
			if chance(r, 70) { // while protoc runs
				f = &core.FakeConf{Rules: []core.FakeRule{{Real: true, DelayMs: 400, PostMs: 400}}}
				d += 15 * time.Millisecond
			}
			cs.Run(core.Opt{Dir: b.dir, Quiet: true, Fake: f, Started: func(p *os.Process) {
				go func() {
					time.Sleep(d)
					syscall.Kill(-p.Pid, syscall.SIGKILL)
				}()
			}}, x.args...)
			kills++
			return "kill " + x.String()
		}
	}
	fresh := 0
	var last *bcmd
	n := 5 + r.Intn(4)
	for step := 0; step < n; step++ {
		var did []string
		for i := r.Intn(3); i > 0; i-- {
			note()
			did = append(did, edit())
		}
		note()
		x := b.command(false)
		if last != nil && chance(r, 50) {
			x = last // the same again after an edit
		}
		last = x
		cs.Note("step %d: %v, then %s", step, did, x)
		// the fresh copy
		fresh++
		q := filepath.Join(cs.Dir, "fresh"+itoa(fresh))
		side := filepath.Join(q, "w", "p")
		for _, d := range []string{"w", "home", "tmp"} {
			os.MkdirAll(filepath.Join(q, d), 0755)
		}
		if res := cs.Exec(core.Opt{Quiet: true}, "/bin/cp", "-r", b.base, side); res.Code != 0 {
			cs.Fatal("%s", res.Err)
		}
		os.RemoveAll(filepath.Join(side, "gen"))
		os.Remove(filepath.Join(side, "out.bin"))
		text := func(res *core.Res) string {
			s := undated(res.Out)
			if strings.HasSuffix(x.String(), "--dry-run") || x.args[len(x.args)-1] == "." && strings.Contains(x.String(), "--dry-run") {
				s = sortedText(s)
			}
			return strings.Replace(s, side, b.base, -1)
		}
		ref := cs.Run(core.Opt{Dir: side, Env: []string{"HOME=" + filepath.Join(q, "home"), "TMPDIR=" + filepath.Join(q, "tmp")}}, x.args...)
		got := cs.Run(core.Opt{Dir: b.dir}, x.args...)
		if ref.Panicked() || got.Panicked() || ref.Hung || got.Hung {
			cs.Fail("%s crashes or hangs", x)
			return
		}
		if got.Code != ref.Code || text(got) != text(ref) {
			cs.Fail("after %v: %s ends with %d and prints\n%s\non a fresh copy of the same files it ends with %d and prints\n%s", did, x, got.Code, got.Out, ref.Code, ref.Out)
			return
		}
		here, there := map[string]string{}, map[string]string{}
		for p, v := range core.Snapshot(b.base) {
			if p := rel(b.base, p); !within(".git", p) {
				here[p] = v
			}
		}
		for p, v := range core.Snapshot(side) {
			if p := rel(side, p); !within(".git", p) {
				there[p] = v
			}
		}
		os.RemoveAll(q)
		// modes of directories and files copied follow the umask on both sides
		for p := range here {
			if _, ok := there[p]; !ok && c28Output(p) {
				delete(here, p) // of an earlier run
			}
		}
		if x.writes != nil && ref.Code != 0 {
			// how far outputs got is no business of ours
			for _, m := range []map[string]string{here, there} {
				for p := range m {
					if c28Output(p) {
						delete(m, p)
					}
				}
			}
		}
		if d := core.DiffSnap(there, here); len(d) > 0 {
			cs.Fail("after %v: %s leaves other files than on a fresh copy of the same files:\n%s", did, x, strings.Join(d, "\n"))
			return
		}
		c.Count("commands compared", 1)
		if ref.Code != 0 {
			c.Count("failing", 1)
		}
		if x.writes != nil || ref.Out != "" || ref.Code != 0 {
			cs.Sig("%s %d %v %s", x, ref.Code, did, ref.Out)
		}
		if chance(r, 40) && x.args[0] != "config" && x.args[0] != "create" {
			before := core.Snapshot(b.base)
			again := cs.Run(core.Opt{Dir: b.dir}, x.args...)
			ws := x.args[0] == "all" || x.args[0] == "format" && x.writes != nil
			switch {
			case !ws && (again.Code != got.Code || text(again) != text(got)):
				cs.Fail("%s, run again, ends with %d instead of %d and prints\n%s\ninstead of\n%s", x, again.Code, got.Code, again.Out, got.Out)
				return
			case ws && got.Code == 0 && (again.Code != 0 || again.Out != ""):
				cs.Fail("%s succeeds, but not again: exit %d\n%s", x, again.Code, again.Out)
				return
			}
			var d []string
			for _, y := range core.DiffSnap(before, core.Snapshot(b.base)) {
				if !strings.Contains(y, "/.git") && (got.Code == 0 || !strings.Contains(y, "/gen/")) {
					d = append(d, y)
				}
			}
			if len(d) > 0 {
				cs.Fail("%s, run again, changes what it left:\n%s", x, strings.Join(d, "\n"))
				return
			}
			c.Count("repeated", 1)
		}
	}
	c.Count("commands killed", int64(kills))
}
