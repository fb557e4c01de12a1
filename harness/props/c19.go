package props

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C19", Level: "exploration", Race: true, Confirm: false, Run: runC19,
		Rule:  "every command runs several times over the same tree of up to 14 directories, valid or with failures in many of them, with the race detector or without, on 1, 2 or all processors, GOMAXPROCS 1 to 16, each protoc process delayed before and after by its own random time (so that processes finish in random, reversed and interleaved order), beside other prototool processes on the same files, and with walk timeouts that expire. Monitored: race reports, exit code, output text, files written, the multiset of protoc processes. Non-trivial: at least two runs with two or more protoc processes; distinct by the order in which the processes finished.",
		Notes: []string{"the runs of one case are compared with each other, the first is undisturbed; that its result is right is decided by the other properties", "generate --dry-run and compile --dry-run may print the commands in any order"}})
}

func runC19(c *core.Ctx) {
	c.Each("vary", c.N(90, 4000), c19Vary)
	c.EachP("beside", c.N(30, 1000), 3, c19Beside)
	c.Each("walk", c.N(40, 1500), c19Walk)
}

// spoil makes files of a bench fail in compile or lint.
func (b *bench) spoil(r *rand.Rand) string {
	how := pick(r, "none", "syntax", "type", "lint", "imports", "mixed", "format")
	for _, f := range b.set.Files {
		if !chance(r, 60) {
			continue
		}
		p := filepath.Join(b.base, f.Path)
		t := readAbs(p)
		what := how
		if what == "mixed" {
			what = pick(r, "syntax", "type", "lint", "imports")
		}
		switch what {
		case "syntax":
			t += "\nmessage {\n"
		case "type":
			for i := 0; i <= r.Intn(4); i++ {
				t += fmt.Sprintf("\nmessage Zz%d {\n  no.Such%d a = 1;\n  int32 b = 1;\n}\n", i, i)
			}
		case "lint":
			t += "\nmessage bad_name {\n  int32 BadField = 1;\n}\n\nenum other_bad {\n  x = 0;\n  X1 = 1;\n}\n"
		case "imports":
			t += "\nimport \"no/such" + fmt.Sprint(r.Intn(5)) + ".proto\";\n"
		case "format":
			t = strings.Replace(t, "{", "{\n\n\n", 3)
		default:
			continue
		}
		b.cs.Write(filepath.Join(b.dir, f.Path), t)
	}
	return how
}

// obsRun is what is compared.
type obsRun struct {
	code  int
	out   string
	files map[string]string
	procs []string
	order string
	n     int
}

func (a *obsRun) diff(o *obsRun) string {
	switch {
	case a.code != o.code:
		return fmt.Sprintf("exit %d instead of %d", o.code, a.code)
	case a.out != o.out:
		x, y := strings.Split(a.out, "\n"), strings.Split(o.out, "\n")
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		k := "lines"
		if core.EqualStrings(core.Sorted(x), core.Sorted(y)) {
			k = "the same lines in another order"
		}
		return fmt.Sprintf("%s from line %d: %.200q instead of %.200q", k, i+1, strings.Join(y[i:], "\n"), strings.Join(x[i:], "\n"))
	case len(core.DiffSnap(a.files, o.files)) > 0:
		return fmt.Sprintf("files: %v", core.DiffSnap(a.files, o.files))
	case !core.EqualStrings(a.procs, o.procs):
		return fmt.Sprintf("processes: %v", core.DiffLists(a.procs, o.procs))
	}
	return ""
}

// observe runs a command on a fresh copy of the bench's files.
func (b *bench) observe(x *bcmd, o core.Opt, rules []core.FakeRule, saved string) (*obsRun, *core.Res) {
	cs := b.cs
	os.RemoveAll(b.base)
	cs.Exec(core.Opt{Dir: cs.Dir, Quiet: true}, "/bin/cp", "-a", saved, b.base)
	os.RemoveAll(cs.Tmp)
	os.MkdirAll(cs.Tmp, 0777)
	log := filepath.Join(cs.Dir, fmt.Sprintf("fake%d.log", rand.Int63()))
	o.Dir = b.dir
	o.Fake = &core.FakeConf{Log: log, Rules: rules}
	res := cs.Run(o, x.args...)
	v := &obsRun{code: res.Code, out: b.plain(res.Out) + "\x00" + b.plain(res.Err), files: core.Snapshot(b.base)}
	for p := range v.files {
		if within(filepath.Join(b.base, ".git"), p) {
			delete(v.files, p)
		}
	}
	recs := core.ReadFakeLog(log)
	var order []string
	for _, e := range recs {
		a := b.plain(strings.Join(e.Argv, " "))
		if e.Ev == "start" {
			v.procs = append(v.procs, a)
			v.n++
		}
		if e.Ev == "end" {
			order = append(order, fmt.Sprint(len(a))+a[:1]+fmt.Sprint(strings.Count(a, "/")))
		}
	}
	sort.Strings(v.procs)
	v.order = strings.Join(order, ",")
	return v, res
}

// plain takes away the names of temporary files.
func (b *bench) plain(s string) string {
	s = undated(s)
	t := b.cs.Tmp + "/"
	var o strings.Builder
	for {
		i := strings.Index(s, t)
		if i < 0 {
			o.WriteString(s)
			return o.String()
		}
		o.WriteString(s[:i])
		o.WriteString("TMP")
		s = s[i+len(t):]
		for len(s) > 0 && strings.IndexByte(" :/\n\"'", s[0]) < 0 {
			s = s[1:]
		}
	}
}

func delays(r *rand.Rand, b *bench) (l []core.FakeRule) {
	kind := r.Intn(5)
	files := b.set.Files
	perm := r.Perm(len(files))
	for i, f := range files {
		x := core.FakeRule{Match: f.Path, Real: true}
		switch kind {
		case 0: // none
		case 1:
			x.DelayMs = r.Intn(40)
		case 2:
			x.DelayMs, x.PostMs = r.Intn(15), r.Intn(30)
		case 3: // a given order
			x.DelayMs = 4 * perm[i]
		case 4: // all at the same time
			x.PostMs = 25
		}
		l = append(l, x)
	}
	return l
}

func c19Opt(r *rand.Rand) (core.Opt, string) {
	o := core.Opt{Timeout: 120 * time.Second, Quiet: true}
	s := ""
	if chance(r, 60) {
		o.Race = true
		s += " race"
	}
	if chance(r, 60) {
		n := []int{1, 2, 3, 4, 8, 16}[r.Intn(6)]
		o.Env = append(o.Env, fmt.Sprintf("GOMAXPROCS=%d", n))
		s += fmt.Sprintf(" GOMAXPROCS=%d", n)
	}
	switch r.Intn(4) {
	case 0:
		o.Wrap = []string{"/usr/bin/taskset", "-c", "0"}
		s += " cpu 0"
	case 1:
		o.Wrap = []string{"/usr/bin/taskset", "-c", "0,1"}
		s += " cpus 0,1"
	}
	if chance(r, 20) {
		o.Env = append(o.Env, "GODEBUG=asyncpreemptoff=1")
	}
	if chance(r, 20) {
		o.Env = append(o.Env, "GOGC=1")
	}
	return o, s
}

func c19Races(cs *core.Case, x *bcmd, res *core.Res) bool {
	if res.Races != "" {
		cs.Fail("data race in %v:\n%s", res.Args, res.Races)
		return false
	}
	return verdict(cs, res)
}

func c19Vary(cs *core.Case) {
	c, r := cs.C, cs.R
	b := newBench(cs, []int{2, 3, 6, 14}[r.Intn(4)], chance(r, 25), nil)
	b.srv = "127.0.0.1:1"
	x := b.command(chance(r, 80))
	how := b.spoil(r)
	saved := filepath.Join(cs.Dir, "saved")
	cs.Exec(core.Opt{Dir: cs.Dir, Quiet: true}, "/bin/cp", "-a", b.base, saved)
	ref, res := b.observe(x, core.Opt{Quiet: true}, nil, saved)
	if !c19Races(cs, x, res) {
		return
	}
	cs.Note("%s, %s, %d processes", x, how, ref.n)
	c.Count("runs of "+x.args[0], 1)
	for i := 0; i < 5; i++ {
		o, s := c19Opt(r)
		v, res := b.observe(x, o, delays(r, b), saved)
		if !c19Races(cs, x, res) {
			return
		}
		if o.Race {
			c.Count("runs under the race detector", 1)
		}
		if len(x.args) > 1 && x.args[1] == "--dry-run" {
			v.out, ref.out = sortedText(v.out), sortedText(ref.out)
		}
		if d := ref.diff(v); d != "" {
			cs.Fail("%s (%s) with%s: %s", x, how, s, d)
			return
		}
		if v.n > 1 {
			cs.Sig("%s", v.order)
		}
		c.Count("processes", int64(v.n))
	}
}

var stamp = regexp.MustCompile(`\t20\d\d-\d\d-\d\d [0-9:.]+ [+-]\d{4}`)

// undated takes away the times of a diff's temporary files.
func undated(s string) string { return stamp.ReplaceAllString(s, "\tTIME") }

func sortedText(s string) string { return strings.Join(core.Sorted(strings.Split(s, "\n")), "\n") }

// c19Beside has several processes work on the same files.
func c19Beside(cs *core.Case) {
	c, r := cs.C, cs.R
	b := newBench(cs, []int{2, 5}[r.Intn(2)], false, nil)
	x := b.command(true)
	for x.writes != nil {
		x = b.command(true)
	}
	how := b.spoil(r)
	ref := cs.Run(core.Opt{Dir: b.dir, Quiet: true}, x.args...)
	if !verdict(cs, ref) {
		return
	}
	before := core.Snapshot(b.base)
	var wg sync.WaitGroup
	n := 3 + r.Intn(6)
	l := make([]*core.Res, n)
	for i := 0; i < n; i++ {
		o, _ := c19Opt(r)
		o.Dir = b.dir
		if i >= 2 {
			o.Race = false
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			l[i] = cs.Run(o, x.args...)
		}(i)
	}
	wg.Wait()
	for _, res := range l {
		if !c19Races(cs, x, res) {
			return
		}
		if res.Code != ref.Code || undated(res.Out) != undated(ref.Out) {
			cs.Fail("%s (%s) beside %d others: exit %d instead of %d, output\n%s\ninstead of\n%s", x, how, n-1, res.Code, ref.Code, res.Out, ref.Out)
			return
		}
	}
	if d := core.DiffSnap(before, core.Snapshot(b.base)); len(d) > 0 {
		cs.Fail("%s changed %v", x, d)
		return
	}
	if l := tmpFiles(cs); len(l) > 0 {
		cs.Fail("%s leaves %v", x, l)
		return
	}
	c.Count("side by side", int64(n))
	cs.Sig("%s %s %d", x, how, n)
}

// c19Walk has the time for the directories run out.
func c19Walk(cs *core.Case) {
	c, r := cs.C, cs.R
	b := newBench(cs, 1+r.Intn(3), false, nil)
	many := r.Intn(3) * 400
	for i := 0; i < many; i++ {
		os.MkdirAll(filepath.Join(b.base, fmt.Sprintf("d%d/e%d/f%d", i%7, i%31, i)), 0755)
	}
	x := b.command(true)
	for x.args[0] == "grpc" || x.args[len(x.args)-1] == "." {
		x = b.command(true)
	}
	if x.writes != nil && x.args[0] != "descriptor-set" && x.args[0] != "break" {
		x = &bcmd{args: []string{"files"}}
	}
	os.Remove(filepath.Join(b.base, "out.bin"))
	ref := cs.Run(core.Opt{Dir: b.dir, Quiet: true}, x.args...)
	made := core.Snapshot(b.base)
	for i := 0; i < 4; i++ {
		os.Remove(filepath.Join(b.base, "out.bin"))
		o, _ := c19Opt(r)
		o.Dir = b.dir
		d := time.Duration(1+r.Intn(5)) * time.Duration([]int{1, 1000, 100000, 1000000}[r.Intn(4)])
		stopped := chance(r, 30)
		if stopped {
			// held up while it walks
			o.Started = func(p *os.Process) {
				go func() {
					time.Sleep(time.Duration(r.Intn(12)) * time.Millisecond)
					p.Signal(syscall.SIGSTOP)
					time.Sleep(20 * time.Millisecond)
					p.Signal(syscall.SIGCONT)
				}()
			}
		}
		res := cs.Run(o, append(append([]string{}, x.args...), "--walk-timeout", d.String())...)
		if !c19Races(cs, x, res) {
			return
		}
		if res.Code == ref.Code && undated(res.Out) == undated(ref.Out) {
			c.Count("walked in time", 1)
			if dd := core.DiffSnap(made, core.Snapshot(b.base)); len(dd) > 0 {
				cs.Fail("%s --walk-timeout %v has the same output but: %v", x, d, dd)
				return
			}
			continue
		}
		if res.Code == 0 || !strings.Contains(res.Out+res.Err, "walk") {
			cs.Fail("%s --walk-timeout %v: neither the result nor an error about the walk: exit %d\n%s%s", x, d, res.Code, res.Out, res.Err)
			return
		}
		c.Count("walk timed out", 1)
		cs.Sig("%s %v %d", x, d, many)
	}
	if l := tmpFiles(cs); len(l) > 0 {
		cs.Fail("%s leaves %v", x, l)
	}
}
