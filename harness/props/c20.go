package props

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C20", Level: "exploration", Run: runC20,
		Rule:  "every command runs over valid and failing trees, undisturbed, in a tree where an unprivileged user may write nothing at all, and under one fault each: protoc or a plugin that fails, prints, dies or ends early, git or diff that is missing or fails at its n-th call, no TMPDIR or one that cannot be written, outputs that cannot be written, files limited in size, few file descriptors, full standard output, expired walk. Monitored: snapshots of the project, the home directory, TMPDIR and everything around them before and after, the processes of the command's group afterwards, and what a command without permission to write prints. Non-trivial: the command did something or the fault took effect; distinct by command, fault and outcome.",
		Notes: []string{"descriptor-set --tmp leaves its one documented file", "a file that format overwrites is as before or as it should be after every failure after which the file system can hold the original"}})
}

func runC20(c *core.Ctx) {
	c.Each("clean", c.N(300, 5000), c20Clean)
	c.Each("readonly", c.N(180, 3000), c20ReadOnly)
	c.Each("fault", c.N(600, 8000), c20Fault)
	c.Each("many", c.N(8, 40), c20Many)
}

// c20Snap holds everything of a case but the harness's own files.
func c20Snap(cs *core.Case) map[string]string {
	m := core.Snapshot(cs.Dir)
	for p := range m {
		b := filepath.Base(p)
		if strings.HasPrefix(b, "fake") && filepath.Dir(p) == cs.Dir || within(filepath.Join(cs.Dir, "bin"), p) || p == cs.Dir {
			delete(m, p)
		}
	}
	return m
}

// c20Changed lists what changed besides what a command is for.
func c20Changed(b *bench, x *bcmd, before, after map[string]string) (l []string) {
	for _, d := range core.DiffSnap(before, after) {
		p := strings.Fields(d)[1]
		if x.writes != nil {
			q := rel(b.base, p)
			if p == b.base || x.writes(q) {
				continue
			}
			// a directory that got a file
			if strings.HasPrefix(after[p], "dir") && strings.HasPrefix(d, "added") {
				skip := false
				for f := range after {
					if under(p, f) && within(b.base, f) && x.writes(rel(b.base, f)) {
						skip = true
					}
				}
				if skip {
					continue
				}
			}
		}
		l = append(l, d)
	}
	return l
}

// running lists the processes of a group.
func running(pgid int) (l []int) {
	ds, _ := ioutil.ReadDir("/proc")
	for _, d := range ds {
		if _, err := strconv.Atoi(d.Name()); err != nil {
			continue
		}
		b, err := ioutil.ReadFile("/proc/" + d.Name() + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
		if len(f) > 2 && f[2] == strconv.Itoa(pgid) && f[0] != "Z" && f[0] != "X" {
			n, _ := strconv.Atoi(d.Name())
			l = append(l, n)
		}
	}
	return l
}

// c20Left checks that no process of the command is left.
func c20Left(cs *core.Case, pgid int, res *core.Res) bool {
	var l []int
	for i := 0; i < 200; i++ {
		if l = running(pgid); len(l) == 0 {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	var names []string
	for _, p := range l {
		b, _ := ioutil.ReadFile(fmt.Sprintf("/proc/%d/cmdline", p))
		names = append(names, strings.Replace(string(b), "\x00", " ", -1))
		syscall.Kill(p, syscall.SIGKILL)
	}
	cs.Fail("%v leaves processes behind: %q", res.Args, names)
	return false
}

func c20Clean(cs *core.Case) {
	c, r := cs.C, cs.R
	b := newBench(cs, []int{1, 2, 4}[r.Intn(3)], chance(r, 30), nil)
	b.srv = "127.0.0.1:1"
	cs.Write("p/new/.keep", "")
	cs.Write("beside/prototool.yaml", "lint:\n  group: uber1\n")
	cs.Write("beside/x.proto", "syntax = \"proto3\";\n")
	how := b.spoil(r)
	if chance(r, 12) { // a large file, to be formatted
		var t strings.Builder
		t.WriteString("syntax = \"proto3\";\npackage large;\n")
		for i := 0; i < 1500; i++ {
			fmt.Fprintf(&t, "    message Large%d {%*s}\n\n\n", i, 10+r.Intn(60), "")
		}
		cs.Write("p/large/large.proto", t.String())
		how += ", a large file"
	}
	for i := 0; i < 3; i++ {
		x := b.command(false)
		if x.args[0] == "create" && readAbs(filepath.Join(b.base, "new/one.proto")) != "" {
			continue
		}
		before := c20Snap(cs)
		var pid int
		o := core.Opt{Dir: b.dir, Started: func(p *os.Process) { pid = p.Pid }}
		if chance(r, 30) {
			o.Fake = &core.FakeConf{Rules: delays(r, b)}
		}
		res := cs.Run(o, x.args...)
		if !verdict(cs, res) || !c20Left(cs, pid, res) {
			return
		}
		after := c20Snap(cs)
		if l := c20Changed(b, x, before, after); len(l) > 0 {
			cs.Fail("%v (%s, exit %d) changes what is not its own: %v", res.Args, how, res.Code, l)
			return
		}
		if res.Code != 0 && x.writes != nil && x.args[0] != "all" && !strings.HasPrefix(x.String(), "generate") && x.args[0] != "format" {
			if d := core.DiffSnap(before, after); len(d) > 0 {
				cs.Fail("%v fails (%s) but: %v", res.Args, how, d)
				return
			}
		}
		c.Count("runs", 1)
		cs.Sig("%s %s %d", x, how, res.Code)
	}
}

// unlock makes everything below a directory readable by anyone and, if w,
// writable.
func unlock(dir string, w bool) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.Mode()&os.ModeSymlink != 0 {
			return nil
		}
		m := fi.Mode().Perm()&0111 | 0444
		if fi.IsDir() {
			m = 0555
		}
		if w {
			m |= 0222
		}
		os.Chmod(p, m)
		return nil
	})
}

func c20ReadOnly(cs *core.Case) {
	c, r := cs.C, cs.R
	b := newBench(cs, []int{1, 2, 4}[r.Intn(3)], chance(r, 30), nil)
	how := b.spoil(r)
	x := b.command(false)
	for x.writes != nil {
		x = b.command(false)
	}
	if x.git {
		// git refuses the repositories of others
		cs.Exec(core.Opt{Dir: cs.Dir, Quiet: true}, "/usr/bin/git", "config", "--global", "safe.directory", "*")
	}
	ref := cs.Run(core.Opt{Dir: b.dir, Quiet: true}, x.args...)
	if !verdict(cs, ref) {
		return
	}
	unlock(cs.Dir, false)
	os.Chmod(cs.Tmp, 0777)
	before := c20Snap(cs)
	var pid int
	o := core.Opt{Dir: b.dir, Cred: nobody, Started: func(p *os.Process) { pid = p.Pid }}
	res := cs.Run(o, x.args...)
	if !verdict(cs, res) || !c20Left(cs, pid, res) {
		return
	}
	if d := core.DiffSnap(before, c20Snap(cs)); len(d) > 0 {
		cs.Fail("%v leaves %v", res.Args, d)
		return
	}
	if res.Code != ref.Code || sortedText(b.plain(res.Out)) != sortedText(b.plain(ref.Out)) {
		cs.Fail("%v (%s) needs to write: exit %d instead of %d,\n%s\ninstead of\n%s", res.Args, how, res.Code, ref.Code, res.Out, ref.Out)
		return
	}
	c.Count("runs without permission to write", 1)
	cs.Sig("%s %s %d", x, how, res.Code)
}

func c20Fault(cs *core.Case) {
	c, r := cs.C, cs.R
	b := newBench(cs, []int{1, 2, 4}[r.Intn(3)], chance(r, 30), nil)
	b.srv = "127.0.0.1:1"
	cs.Write("p/new/.keep", "")
	how := "none"
	if chance(r, 30) {
		how = b.spoil(r)
	}
	x := b.command(false)
	if x.args[0] == "descriptor-set" && len(x.args) == 1 && chance(r, 50) {
		x = &bcmd{args: []string{"descriptor-set", "--tmp"}, protoc: true}
	}
	fault := pick(r, "protoc fails", "protoc dies", "protoc prints", "protoc writes nothing", "protoc writes garbage", "plugin fails", "no tools", "tool fails", "no TMPDIR", "read-only TMPDIR", "read-only outputs", "read-only files", "file size", "file size", "file size", "descriptors", "full output", "full output", "closed output", "walk")
	tmp := len(x.args) == 2 && x.args[1] == "--tmp"
	if (fault == "no tools" || fault == "tool fails") && chance(r, 50) {
		// what needs one, and need not write
		x = &bcmd{args: []string{"format", pick(r, "-d", "-l")}}
		if chance(r, 70) {
			x.args[1] = "-d"
		}
	}
	o := core.Opt{Dir: b.dir, Timeout: 60 * time.Second}
	victim := b.set.Files[r.Intn(len(b.set.Files))].Path
	args := x.args
	switch fault {
	case "protoc fails":
		o.Fake = &core.FakeConf{Rules: []core.FakeRule{{Match: victim, Exit: 1, Stderr: pick(r, "", "broken\n", victim+":1:1: bad.\n")}}}
	case "protoc dies":
		o.Fake = &core.FakeConf{Rules: []core.FakeRule{{Match: victim, Kill: true, Real: chance(r, 50)}}}
	case "protoc prints":
		o.Fake = &core.FakeConf{Rules: []core.FakeRule{{Match: victim, Real: true, Stderr: pick(r, "what is this\n", victim+": warning: Import x.proto but not used.\n", strings.Repeat("x", 200000)+"\n")}}}
	case "protoc writes nothing":
		o.Fake = &core.FakeConf{Rules: []core.FakeRule{{Match: victim, Exit: 0}}}
	case "protoc writes garbage":
		p := filepath.Join(cs.Dir, "bin", "protoc")
		os.MkdirAll(filepath.Dir(p), 0755)
		ioutil.WriteFile(p, []byte("#!/bin/sh\nwhile [ $# -gt 0 ]; do if [ \"$1\" = -o ]; then echo garbage > $2; fi; shift; done\n"), 0755)
		o.Env = append(o.Env, "PROTOTOOL_PROTOC_BIN_PATH="+p)
	case "plugin fails":
		// after having written something
		p := filepath.Join(cs.Dir, "bin", "protoc-gen-bad")
		os.MkdirAll(filepath.Dir(p), 0755)
		ioutil.WriteFile(p, []byte(pick(r, "#!/bin/sh\ncat >/dev/null; echo oh no >&2; exit 1\n", "#!/bin/sh\nexit 0\n", "#!/bin/sh\ncat > /dev/null; kill -9 $$\n", "#!/bin/sh\necho nonsense\n")), 0755)
		x = &bcmd{args: []string{"generate"}, protoc: true, writes: func(p string) bool { return within("gen", p) }}
		args = x.args
		cs.Write("p/prototool.yaml", "generate:\n  plugins:\n    - name: python\n      output: gen/py\n    - name: bad\n      path: "+p+"\n      output: gen/bad\n")
	case "no tools":
		o.Env = append(o.Env, "PATH=/nonexistent")
	case "tool fails":
		d := filepath.Join(cs.Dir, "bin")
		os.MkdirAll(d, 0755)
		git := pick(r, "exit 1", "echo broken; exit 128", "kill -9 $$", "/usr/bin/git \"$@\"; exit 1", "for a; do :; done; mkdir -p $a/x; echo half > $a/x/y; exit 1", "exit 0")
		diff := pick(r, "exit 2", "kill -9 $$", "echo no", "exit 0", "/usr/bin/diff \"$@\"; exit 2")
		ioutil.WriteFile(filepath.Join(d, "git"), []byte("#!/bin/sh\n"+git+"\n"), 0755)
		ioutil.WriteFile(filepath.Join(d, "diff"), []byte("#!/bin/sh\n"+diff+"\n"), 0755)
		o.Env = append(o.Env, "PATH="+d+":/usr/bin:/bin")
	case "no TMPDIR":
		o.Env = append(o.Env, "TMPDIR="+filepath.Join(cs.Dir, "no", "such"))
	case "read-only TMPDIR":
		unlock(cs.Dir, true)
		os.Chmod(cs.Tmp, 0555)
		o.Cred = nobody
	case "read-only outputs":
		unlock(cs.Dir, true)
		for _, d := range []string{"gen", "gen/py", "new", "sub"} {
			if chance(r, 60) {
				os.MkdirAll(filepath.Join(b.base, d), 0755)
				os.Chmod(filepath.Join(b.base, d), 0555)
			}
		}
		if chance(r, 50) {
			cs.Write("p/out.bin", "old")
			os.Chmod(filepath.Join(b.base, "out.bin"), 0444)
		}
		os.Chmod(cs.Tmp, 0777)
		o.Cred = nobody
	case "read-only files":
		unlock(cs.Dir, true)
		for _, f := range b.set.Files {
			if chance(r, 50) {
				os.Chmod(filepath.Join(b.base, f.Path), 0444)
			}
		}
		os.Chmod(cs.Tmp, 0777)
		o.Cred = nobody
	case "file size":
		// every file fits as it is
		max := 0
		for _, f := range b.set.Files {
			if fi, err := os.Stat(filepath.Join(b.base, f.Path)); err == nil && int(fi.Size()) > max {
				max = int(fi.Size())
			}
		}
		limit := []int{0, 1, (max + 1023) / 1024, (max + 1023) / 1024}[r.Intn(4)]
		fits := limit*1024 >= max
		if !fits && len(x.args) > 1 && x.args[1] == "-w" {
			limit = (max + 1023) / 1024
		}
		if x.args[0] == "all" {
			limit = (max + 1023) / 1024
		}
		o.Wrap = []string{"/bin/bash", "-c", fmt.Sprintf(`trap "" XFSZ; ulimit -f %d; exec "$@"`, limit), "sh"}
	case "descriptors":
		o.Wrap = []string{"/bin/bash", "-c", fmt.Sprintf(`ulimit -n %d; exec "$@"`, 5+r.Intn(14)), "sh"}
	case "full output":
		o.Wrap = []string{"/bin/sh", "-c", `exec "$@" > /dev/full`, "sh"}
	case "closed output":
		o.Wrap = []string{"/bin/sh", "-c", `exec "$@" >&-`, "sh"}
	case "walk":
		switch x.args[0] {
		case "version", "config", "create":
		default:
			args = append(append([]string{}, x.args...), "--walk-timeout", "1ns")
		}
	}
	if x.git {
		cs.Exec(core.Opt{Dir: cs.Dir, Quiet: true}, "/usr/bin/git", "config", "--global", "safe.directory", "*")
	}
	var ref *core.Res
	var full map[string]string
	if fault == "full output" || x.writes != nil && fault != "plugin fails" {
		// on a copy
		s := filepath.Join(cs.Dir, "saved")
		cs.Exec(core.Opt{Dir: cs.Dir, Quiet: true}, "/bin/cp", "-a", b.base, s)
		ref = cs.Run(core.Opt{Dir: b.dir, Quiet: true}, x.args...)
		full = core.Snapshot(b.base)
		os.RemoveAll(b.base)
		os.Rename(s, b.base)
		for _, p := range tmpFiles(cs) {
			os.RemoveAll(p)
		}
	}
	var pid int
	o.Started = func(p *os.Process) { pid = p.Pid }
	before := c20Snap(cs)
	res := cs.Run(o, args...)
	after := c20Snap(cs)
	cs.Note("fault: %s, tree: %s", fault, how)
	if fault == "descriptors" && c20NoRuntime.MatchString(res.Out+res.Err) {
		// the Go runtime itself, not the program, gave up for want of descriptors
		cs.C.Count("the runtime itself found no descriptors", 1)
		for _, p := range tmpFiles(cs) {
			os.RemoveAll(p)
		}
		return
	}
	if res.Hung || res.Panicked() {
		cs.Fail("%v crashes or hangs under %s:\n%s%s", res.Args, fault, res.Out, res.Err)
		return
	}
	if !c20Left(cs, pid, res) {
		return
	}
	if tmp && res.Code == 0 {
		f := strings.TrimSpace(res.Out)
		if fault != "full output" && fault != "closed output" && !within(cs.Tmp, f) {
			cs.Fail("descriptor-set --tmp prints %q", res.Out)
			return
		}
		delete(after, f)
	}
	if l := c20Changed(b, x, before, after); len(l) > 0 {
		cs.Fail("%v (exit %d) under %s changes what is not its own: %v", res.Args, res.Code, fault, l)
		return
	}
	if fault == "full output" && ref.Out != "" && res.Code == 0 {
		cs.Fail("%v exits 0 although its output could not be written", res.Args)
		return
	}
	// what it wrote is written as a whole, sources at least
	for p, v := range after {
		q := rel(b.base, p)
		if within(b.base, p) && full != nil && fault != "protoc writes nothing" && fault != "protoc writes garbage" && !within("gen", q) && q != "out.bin" && strings.HasPrefix(v, "file") && v != before[p] && v != full[p] {
			cs.Fail("%v (exit %d) under %s leaves %s neither as it was nor as it should be: %s, was %s, should be %s", res.Args, res.Code, fault, q, v, before[p], full[p])
			return
		}
	}
	c.Count("fault: "+fault, 1)
	if res.Code != 0 {
		c.Count("fault with effect: "+fault, 1)
	}
	cs.Sig("%s %s %s %d", x, fault, how, res.Code)
}

// c20Many has more directories than file descriptors.
func c20Many(cs *core.Case) {
	r := cs.R
	n := 130 + r.Intn(40)
	for i := 0; i < n; i++ {
		cs.Write(fmt.Sprintf("p/d%d/a.proto", i), fmt.Sprintf("syntax = \"proto3\";\n\npackage d%d;\n", i))
	}
	cs.Write("p/prototool.yaml", "lint:\n  rules:\n    no_default: true\n")
	for _, cmd := range []string{"compile", "lint", "descriptor-set", "generate --dry-run", "format -l", "x inspect packages"} {
		res := cs.Run(core.Opt{Dir: "p", Wrap: []string{"/bin/bash", "-c", `ulimit -n 110; exec "$@"`, "sh"}}, strings.Fields(cmd)...)
		if !verdict(cs, res) {
			return
		}
		if res.Code != 0 {
			cs.Fail("%s over %d directories needs a file descriptor each: %.300s", cmd, n, res.Out+res.Err)
			return
		}
		if l := tmpFiles(cs); len(l) > 0 {
			cs.Fail("%s leaves %v", cmd, l)
			return
		}
	}
	cs.C.Count("directories", int64(n))
	cs.Sig("%d", n)
}

// c20NoRuntime is what the Go runtime says when it cannot set up its network poller.
var c20NoRuntime = regexp.MustCompile(`runtime: (eventfd|epoll\w*|netpoll\w*)[^\n]*(failed|with)|epollcreate|netpollinit`)
