package props

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C21", Level: "exploration", Run: runC21,
		Rule:  "commands that start protoc processes over up to 14 directories, on one processor or all, get SIGINT or SIGTERM (alone, as a process group, or twice) at a chosen event of the log that a stand-in for protoc keeps, or at a random time, while protoc processes are fast, slow or blocked for good; and protoc processes die by themselves. Monitored: how and when the command ends, its exit code and output against an undisturbed run of the same command, every output file, the processes alive afterwards, processes started after the signal, files in TMPDIR. Non-trivial: the signal was delivered before the command's end; distinct by command, event, signal and fate.",
		Notes: []string{"a command that dies by the signal itself may leave a temporary file; one that handles it may not", "plugins that protoc started are protoc's children and not looked at"}})
}

func runC21(c *core.Ctx) {
	c.EachP("signal", c.N(450, 8000), 6, c21Signal)
	c.EachP("blocked", c.N(150, 3000), 6, c21Blocked)
	c.Each("dead", c.N(200, 3000), c21Dead)
}

// alive lists which of the processes of a log still run.
func alive(recs []core.FakeRec) (l []int) {
	for _, x := range recs {
		if x.Ev != "start" {
			continue
		}
		b, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/stat", x.Pid))
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndex(s, ")"); i > 0 && i+2 < len(s) && !strings.Contains("ZX", s[i+2:i+3]) && strings.Contains(s, "(fakeprotoc)") {
			l = append(l, x.Pid)
		}
	}
	return l
}

func gone(recs []core.FakeRec) []int {
	var l []int
	for i := 0; i < 300; i++ {
		if l = alive(recs); len(l) == 0 {
			return nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return l
}

// fates counts how the processes of a log went.
func fates(recs []core.FakeRec) (started, ended, failed, torn int) {
	last := map[int]string{}
	for _, x := range recs {
		last[x.Pid] = x.Ev
		switch x.Ev {
		case "start":
			started++
		case "end":
			ended++
			if x.Exit != 0 {
				failed++
			}
		}
	}
	for _, e := range last {
		if e == "real" {
			torn++
		}
	}
	return
}

type signaller struct {
	sig    syscall.Signal
	group  bool
	again  time.Duration // second signal after
	when   string        // start, end, time
	at     int
	wait   time.Duration
	log    string
	sent   time.Time
	before int // processes started before
}

func newSignaller(r *rand.Rand, dirs int, log string) *signaller {
	s := &signaller{sig: syscall.SIGTERM, log: log, when: pick(r, "start", "start", "end", "time"), at: 1 + r.Intn(dirs+1)}
	if chance(r, 50) {
		s.sig = syscall.SIGINT
	}
	s.group = chance(r, 35)
	if chance(r, 20) {
		s.again = time.Duration(r.Intn(15)) * time.Millisecond
	}
	switch r.Intn(3) {
	case 0:
		s.wait = time.Duration(r.Intn(3000)) * time.Microsecond
	case 1:
		s.wait = time.Duration(r.Intn(30)) * time.Millisecond
	}
	if s.when == "time" {
		s.wait = time.Duration(r.Intn(60)) * time.Millisecond
	}
	return s
}

func (s *signaller) String() string {
	return fmt.Sprintf("%v at %s %d + %v, group %v, again %v", s.sig, s.when, s.at, s.wait, s.group, s.again)
}

// started waits for its event and sends the signal.
func (s *signaller) started(p *os.Process) {
	go func() {
		end := time.Now().Add(4 * time.Second)
		for s.when != "time" && time.Now().Before(end) {
			b, _ := ioutil.ReadFile(s.log)
			if strings.Count(string(b), `"Ev":"`+s.when+`"`) >= s.at {
				break
			}
			time.Sleep(300 * time.Microsecond)
			if p.Signal(syscall.Signal(0)) != nil {
				return
			}
		}
		time.Sleep(s.wait)
		send := func() error {
			if s.group {
				return syscall.Kill(-p.Pid, s.sig)
			}
			return p.Signal(s.sig)
		}
		b, _ := ioutil.ReadFile(s.log)
		n := strings.Count(string(b), `"Ev":"start"`)
		if send() == nil {
			s.sent, s.before = time.Now(), n
		}
		if s.again > 0 {
			time.Sleep(s.again)
			send()
		}
	}()
}

// c21Tree is a bench of the size wanted and a command.
func c21Tree(cs *core.Case) (*bench, *bcmd) {
	r := cs.R
	b := newBench(cs, []int{1, 2, 3, 6, 14}[r.Intn(5)], chance(r, 20), nil)
	b.srv = "127.0.0.1:1"
	x := b.command(true)
	return b, x
}

func (b *bench) rules(r *rand.Rand) (l []core.FakeRule) {
	switch r.Intn(4) {
	case 0: // fast
	case 1:
		l = append(l, core.FakeRule{Real: true, DelayMs: r.Intn(40)})
	case 2:
		l = append(l, core.FakeRule{Real: true, PostMs: r.Intn(40)})
	default:
		for _, f := range b.set.Files {
			l = append(l, core.FakeRule{Match: f.Path, Real: true, DelayMs: r.Intn(50), PostMs: r.Intn(10)})
		}
	}
	return
}

func tmpFiles(cs *core.Case) []string {
	var l []string
	for p := range core.Snapshot(cs.Tmp) {
		if p != cs.Tmp {
			l = append(l, p)
		}
	}
	return l
}

// c21Check judges a command that got a signal or whose processes died.
func c21Check(cs *core.Case, b *bench, x *bcmd, res *core.Res, log string, what string, before map[string]string, interrupted bool) bool {
	recs := core.ReadFakeLog(log)
	if l := gone(recs); len(l) > 0 {
		for _, p := range l {
			syscall.Kill(p, syscall.SIGKILL)
		}
		cs.Fail("%s: protoc processes %v still run after the end of %v", what, l, res.Args)
		return false
	}
	recs = core.ReadFakeLog(log)
	started, ended, failed, torn := fates(recs)
	cs.Note("%d processes started, %d ended, %d failed, %d torn", started, ended, failed, torn)
	cs.C.Count("processes", int64(started))
	cs.C.Count("processes cut off", int64(started-ended))
	if res.Hung {
		cs.Fail("%s: %v does not end", what, res.Args)
		return false
	}
	if res.Panicked() {
		cs.Fail("%s: %v crashes:\n%s%s", what, res.Args, res.Out, res.Err)
		return false
	}
	if res.Code == 0 && started > ended {
		cs.Fail("%s: %v succeeds although %d of %d protoc processes did not finish", what, res.Args, started-ended, started)
		return false
	}
	if res.Signal == "" && torn == 0 {
		if l := tmpFiles(cs); len(l) > 0 {
			cs.Fail("%s: %v (exit %d) leaves %v", what, res.Args, res.Code, l)
			return false
		}
	}
	if interrupted && res.Signal == "" && res.Code != 0 && res.Out == "" && res.Err == "" {
		cs.Fail("%s: %v says nothing", what, res.Args)
		return false
	}
	// what it wrote must be the whole of what it writes
	after := core.Snapshot(b.base)
	for _, p := range tmpFiles(cs) {
		os.RemoveAll(p)
	}
	ref := cs.Run(core.Opt{Dir: b.dir, Quiet: true}, x.args...)
	full := core.Snapshot(b.base)
	if res.Code == 0 {
		if ref.Code == 0 && ref.Out != res.Out && !x.git {
			cs.Fail("%s: %v succeeds with another output:\n%s\ninstead of\n%s", what, res.Args, res.Out, ref.Out)
			return false
		}
		if ref.Code != 0 {
			cs.Fail("%s: %v succeeds where it otherwise exits %d with\n%s", what, res.Args, ref.Code, ref.Out)
			return false
		}
		if d := core.DiffSnap(after, full); len(d) > 0 {
			cs.Fail("%s: %v succeeds without having written all: %v", what, res.Args, d)
			return false
		}
	}
	for p, v := range after {
		q := rel(b.base, p)
		if within("gen", q) || strings.HasPrefix(v, "dir") {
			continue
		}
		if res.Signal != "" && started == ended && v != before[p] && cutShort(v, full[p]) {
			// no protoc ran any more, the file was being written
			cs.C.Count("killed while writing", 1)
			continue
		}
		if v != before[p] && v != full[p] {
			cs.Fail("%s: %v leaves %s neither as it was nor as it should be (%s; was %s; should be %s)", what, res.Args, q, v, before[p], full[p])
			return false
		}
	}
	return true
}

// cutShort tells whether a file of a snapshot is shorter than another.
func cutShort(v, full string) bool {
	var m, n int
	var mode string
	if k, _ := fmt.Sscanf(v, "file %s %d", &mode, &m); k != 2 {
		return false
	}
	k, _ := fmt.Sscanf(full, "file %s %d", &mode, &n)
	return k == 2 && m < n
}

func c21Signal(cs *core.Case) {
	c, r := cs.C, cs.R
	b, x := c21Tree(cs)
	log := filepath.Join(cs.Dir, "fake.log")
	s := newSignaller(r, b.dirs, log)
	if chance(r, 30) && len(x.args) < 4 && x.args[0] == "descriptor-set" {
		cs.Write("p/out.bin", "old")
	}
	before := core.Snapshot(b.base)
	o := core.Opt{Dir: b.dir, Fake: &core.FakeConf{Log: log, Rules: b.rules(r)}, Started: s.started, Timeout: 40 * time.Second}
	if chance(r, 40) {
		o.Wrap = []string{"/usr/bin/taskset", "-c", fmt.Sprint(r.Intn(2))}
	}
	res := cs.Run(o, x.args...)
	what := s.String()
	if !c21Check(cs, b, x, res, log, what, before, !s.sent.IsZero()) {
		return
	}
	fate := fmt.Sprintf("exit %d", res.Code)
	if res.Signal != "" {
		fate = "killed"
	} else if strings.Contains(res.Out+res.Err, "received signal") {
		fate = "interrupted"
	}
	if s.sent.IsZero() {
		c.Count("ended before the signal", 1)
		return
	}
	c.Count("signalled: "+fate, 1)
	cs.Sig("%v %s %d %v %s", x, s.when, s.at, s.sig, fate)
}

// c21Blocked has protoc processes that never end.
func c21Blocked(cs *core.Case) {
	c, r := cs.C, cs.R
	b, x := c21Tree(cs)
	log := filepath.Join(cs.Dir, "fake.log")
	var rules []core.FakeRule
	never := filepath.Join(cs.Dir, "never")
	if chance(r, 60) {
		rules = append(rules, core.FakeRule{Block: never, Real: true})
	} else {
		for _, f := range b.set.Files {
			if chance(r, 50) {
				rules = append(rules, core.FakeRule{Match: f.Path, Block: never, Real: true})
			}
		}
		rules = append(rules, core.FakeRule{Block: never, Real: true, Match: b.set.Files[0].Path}, core.FakeRule{Real: true, DelayMs: 5})
	}
	s := newSignaller(r, 1, log)
	s.when, s.at = "start", 1
	s.wait = time.Duration(r.Intn(40)) * time.Millisecond
	before := core.Snapshot(b.base)
	if chance(r, 40) {
		c.Count("deaf", 1)
		for i := range rules {
			rules[i].Deaf = true
		}
	}
	o := core.Opt{Dir: b.dir, Fake: &core.FakeConf{Log: log, Rules: rules}, Started: s.started, Timeout: 15 * time.Second}
	if chance(r, 50) {
		o.Wrap = []string{"/usr/bin/taskset", "-c", fmt.Sprint(r.Intn(2))}
	}
	res := cs.Run(o, x.args...)
	if !c21Check(cs, b, x, res, log, s.String()+", protoc blocked", before, true) {
		return
	}
	if res.Code == 0 {
		cs.Fail("%v succeeds while a protoc process is blocked", res.Args)
		return
	}
	c.Count("blocked and signalled", 1)
	cs.Sig("%v %v %d %v", x, s.sig, b.dirs, s.group)
}

// c21Dead has protoc processes that die or fail by themselves.
func c21Dead(cs *core.Case) {
	c, r := cs.C, cs.R
	b, x := c21Tree(cs)
	log := filepath.Join(cs.Dir, "fake.log")
	var rules []core.FakeRule
	how := pick(r, "killed", "silent", "after output", "slow and killed", "no output file")
	victim := b.set.Files[r.Intn(len(b.set.Files))]
	rule := core.FakeRule{Match: victim.Path}
	switch how {
	case "killed":
		rule.Kill = true
	case "silent":
		rule.Exit = 1 + r.Intn(254)
	case "after output":
		rule.Real, rule.Kill = true, true
	case "slow and killed":
		rule.DelayMs, rule.Kill = 30, true
	case "no output file":
		rule.Exit = 0 // but nothing done
	}
	rules = append(rules, rule)
	if chance(r, 40) {
		cs.Write("p/out.bin", "old")
	}
	before := core.Snapshot(b.base)
	o := core.Opt{Dir: b.dir, Fake: &core.FakeConf{Log: log, Rules: rules}, Timeout: 40 * time.Second}
	res := cs.Run(o, x.args...)
	recs := core.ReadFakeLog(log)
	hit := false
	for _, a := range core.Starts(recs) {
		hit = hit || strings.Contains(strings.Join(a, " "), victim.Path)
	}
	if !hit {
		return
	}
	if how == "no output file" {
		// as far as anyone can tell, it succeeded
		if res.Panicked() || res.Hung {
			cs.Fail("%v crashes when protoc writes nothing: %s%s", res.Args, res.Out, res.Err)
		}
		return
	}
	if res.Code == 0 {
		cs.Fail("%v succeeds although a protoc process was %s", res.Args, how)
		return
	}
	if d := core.DiffSnap(before, core.Snapshot(b.base)); len(d) > 0 && !within("gen", strings.TrimPrefix(strings.Fields(d[0])[1], b.base+"/")) {
		for _, e := range d {
			if p := rel(b.base, strings.Fields(e)[1]); !within("gen", p) && p != "." && x.args[0] != "all" {
				cs.Fail("%v fails (protoc %s) but: %v", res.Args, how, d)
				return
			}
		}
	}
	if !c21Check(cs, b, x, res, log, "protoc "+how, before, true) {
		return
	}
	c.Count("dead: "+how, 1)
	cs.Sig("%v %s %d", x, how, b.dirs)
}
