// Package core is the runtime of the checks: it builds prototool from the
// working tree of the repository, runs deterministic lists of cases against the
// real binary in scratch directories, and collects verdicts and evidence.
package core

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	RealProtoc = "/usr/bin/protoc"
	RealWKT    = "/usr/include"
)

// Ctx is one check run.
type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Repo    string
	Verif   string
	Root    string // scratch root of this run
	Bin     string // prototool
	Race    string // prototool built with the race detector ("" if not built)
	Fake    string // fake protoc
	Level   string
	Only    string // run only this case (replay)
	Rule    string
	Start   time.Time
	Notes   []string
	mu      sync.Mutex
	evals   int64
	sigs    map[string]struct{}
	counts  map[string]int64
	samp    []string
	viol    []*Violation
	known   map[string]knownLine // case -> finding, from KNOWN_FINDINGS.jsonl
	hit     map[string]bool
	execs   int64
	incon   int64
	extra   map[string]interface{}
	saved   int
	skips   int64
	confirm bool
	unconf  []string
}

type Violation struct {
	Case   string
	Msg    string
	Replay string
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// N picks a number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Quick() {
		return quick
	}
	return thorough
}

func (c *Ctx) Log(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

// Count adds to a named observation counter that ends up in the evidence.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

// Put stores an extra evidence value.
func (c *Ctx) Put(name string, v interface{}) {
	c.mu.Lock()
	c.extra[name] = v
	c.mu.Unlock()
}

// Case is one evaluated case; it owns a scratch directory.
type Case struct {
	C        *Ctx
	Name     string
	I        int
	R        *rand.Rand
	Dir      string // scratch; Dir/w is the work tree, Dir/tmp TMPDIR, Dir/home HOME
	W        string
	Tmp      string
	Home     string
	log      []string
	bad      bool
	Keep     bool
	mu       sync.Mutex
	trial    bool // failures are only noted
	trialMsg []string
}

func seedOf(parts ...string) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// Each runs n generated cases named group/i in parallel.
func (c *Ctx) Each(group string, n int, f func(cs *Case)) {
	c.EachP(group, n, runtime.NumCPU(), f)
}

// EachP is Each with a given parallelism.
func (c *Ctx) EachP(group string, n, par int, f func(cs *Case)) {
	var next int64 = -1
	var wg sync.WaitGroup
	deadline := c.Start.Add(c.softLimit())
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				name := fmt.Sprintf("%s/%d", group, i)
				if c.Only != "" && c.Only != name {
					continue
				}
				if time.Now().After(deadline) || c.tooMany() {
					atomic.AddInt64(&c.skips, 1)
					continue
				}
				c.one(name, i, f)
			}
		}()
	}
	wg.Wait()
}

func (c *Ctx) softLimit() time.Duration {
	if c.Quick() {
		return 600 * time.Second
	}
	return 3 * time.Hour
}

// maxViol limits how many violations are looked for and saved.
var maxViol = func() int {
	if n, err := strconv.Atoi(os.Getenv("VRUN_MAX")); err == nil {
		return n
	}
	return 10
}()

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= maxViol
}

// Named runs one case per name, in parallel; cs.I is the index.
func (c *Ctx) Named(group string, names []string, f func(cs *Case)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(names) {
					return
				}
				name := group + "/" + names[i]
				if c.Only != "" && c.Only != name || c.tooMany() {
					continue
				}
				c.one(name, i, f)
			}
		}()
	}
	wg.Wait()
}

// One runs a single named case.
func (c *Ctx) One(name string, f func(cs *Case)) {
	if c.Only != "" && c.Only != name {
		return
	}
	c.one(name, 0, f)
}

func (c *Ctx) one(name string, i int, f func(cs *Case)) {
	atomic.AddInt64(&c.evals, 1)
	if os.Getenv("VRUN_SLOW") != "" {
		defer func(t time.Time) {
			if d := time.Since(t); d > 2*time.Second {
				fmt.Fprintf(os.Stderr, "slow: %s %.1fs\n", name, d.Seconds())
			}
		}(time.Now())
	}
	if !c.confirm {
		c.attempt(name, i, false, f)
		return
	}
	// a failure counts if it shows again: protoc's own messages now and then
	// depend on memory addresses
	m := c.attempt(name, i, true, f)
	if len(m) == 0 {
		return
	}
	for t := 0; t < 2; t++ {
		if len(c.attempt(name, i, true, f)) > 0 {
			for n, k := c.nviol(), 0; k < 4 && c.nviol() == n; k++ {
				c.attempt(name, i, false, f)
			}
			return
		}
	}
	c.mu.Lock()
	c.unconf = append(c.unconf, name+": "+m[0])
	c.mu.Unlock()
}

func (c *Ctx) nviol() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

func (c *Ctx) attempt(name string, i int, trial bool, f func(cs *Case)) []string {
	dir := filepath.Join(c.Root, strings.NewReplacer("/", "_", " ", "_").Replace(name))
	cs := &Case{C: c, Name: name, I: i, trial: trial, R: rand.New(rand.NewSource(seedOf(c.Prop, name, strconv.FormatInt(c.Seed, 10)))), Dir: dir, W: filepath.Join(dir, "w"), Tmp: filepath.Join(dir, "tmp"), Home: filepath.Join(dir, "home")}
	for _, d := range []string{cs.W, cs.Tmp, cs.Home} {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r == stopCase {
					return
				}
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				fmt.Fprintf(os.Stderr, "harness error in case %s: %v\n%s\n", name, r, buf)
				os.Exit(3)
			}
		}()
		f(cs)
	}()
	if trial || !cs.Keep && os.Getenv("VRUN_KEEP") == "" {
		cs.clean()
	}
	return cs.trialMsg
}

func (cs *Case) clean() {
	// only ever below the run's own scratch root
	if strings.HasPrefix(cs.Dir, cs.C.Root+"/") {
		filepath.Walk(cs.Dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() && fi.Mode().Perm()&0700 != 0700 {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(cs.Dir)
	}
}

// Sig records the shape of a non-trivial case; distinct shapes are counted.
func (cs *Case) Sig(parts ...interface{}) {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	cs.C.mu.Lock()
	cs.C.sigs[hex.EncodeToString(h[:8])] = struct{}{}
	cs.C.mu.Unlock()
}

// Sample offers a sample for the evidence (the first few are kept).
func (cs *Case) Sample(f string, a ...interface{}) {
	cs.C.mu.Lock()
	if len(cs.C.samp) < 6 {
		s := cs.Name + ": " + fmt.Sprintf(f, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		cs.C.samp = append(cs.C.samp, s)
	}
	cs.C.mu.Unlock()
}

var stopCase = errors.New("stop case")

// Note appends to the case log, which becomes part of a replay.
func (cs *Case) Note(f string, a ...interface{}) {
	cs.mu.Lock()
	cs.log = append(cs.log, fmt.Sprintf(f, a...))
	cs.mu.Unlock()
}

// Fatal records a violation and ends the case.
func (cs *Case) Fatal(f string, a ...interface{}) {
	cs.Fail(f, a...)
	panic(stopCase)
}

// Stop ends the case without verdict.
func (cs *Case) Stop() { panic(stopCase) }

// Fail records a violation of the property in this case.
func (cs *Case) Fail(f string, a ...interface{}) {
	c := cs.C
	msg := fmt.Sprintf(f, a...)
	if cs.trial {
		cs.trialMsg = append(cs.trialMsg, msg)
		cs.bad = true
		return
	}
	c.mu.Lock()
	if t, ok := c.known[cs.Name]; ok && strings.Contains(msg, t.Match) {
		if !c.hit[cs.Name] {
			c.hit[cs.Name] = true
			fmt.Printf("KNOWN-FINDING: property=%s case=%s %s\n", c.Prop, cs.Name, t.What)
		}
		c.mu.Unlock()
		return
	}
	v := &Violation{Case: cs.Name, Msg: msg}
	first := !cs.bad
	cs.bad = true
	c.viol = append(c.viol, v)
	n := c.saved
	if first {
		c.saved++
	}
	c.mu.Unlock()
	if first && n < maxViol {
		dst := filepath.Join(c.Verif, "evidence", "replay", c.Prop, strings.NewReplacer("/", "_", " ", "_").Replace(cs.Name))
		os.RemoveAll(dst)
		os.MkdirAll(dst, 0755)
		cs.mu.Lock()
		l := strings.Join(cs.log, "\n")
		cs.mu.Unlock()
		rep := fmt.Sprintf("property: %s\ncase: %s\nseed: %d tier: %s\nreplay: cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s %s\n\nviolation:\n%s\n\nlog:\n%s\n", c.Prop, cs.Name, c.Seed, c.Tier, c.Seed, c.Tier, c.Prop, cs.Name, msg, l)
		ioutil.WriteFile(filepath.Join(dst, "report.txt"), []byte(rep), 0644)
		cp := exec.Command("cp", "-a", cs.W, dst)
		cp.Run()
		v.Replay = filepath.Join(dst, "report.txt")
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, v.Replay)
		m := msg
		if len(m) > 2000 {
			m = m[:2000] + "..."
		}
		fmt.Printf("  case %s: %s\n", cs.Name, strings.Replace(m, "\n", "\n  ", -1))
	}
}

// Failed tells whether the case already has a violation.
func (cs *Case) Failed() bool { return cs.bad }

// Write writes a file below W.
func (cs *Case) Write(rel string, data string) string {
	p := rel
	if !filepath.IsAbs(p) {
		p = filepath.Join(cs.W, rel)
	}
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(p, []byte(data), 0644); err != nil {
		panic(err)
	}
	return p
}

func (cs *Case) Mkdir(rel string) string {
	p := filepath.Join(cs.W, rel)
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
	return p
}

// Read reads a file below W.
func (cs *Case) Read(rel string) string {
	p := rel
	if !filepath.IsAbs(p) {
		p = filepath.Join(cs.W, rel)
	}
	b, err := ioutil.ReadFile(p)
	if err != nil {
		return "<" + err.Error() + ">"
	}
	return string(b)
}

// Res is the observed outcome of a process.
type Res struct {
	Args   []string
	Out    string
	Err    string
	Code   int // -1 if killed by a signal
	Signal string
	Hung   bool
	Races  string
	Dur    time.Duration
}

func (r *Res) Lines() []string { return SplitLines(r.Out) }

func SplitLines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func (r *Res) String() string {
	return fmt.Sprintf("$ %s\nexit=%d signal=%s hung=%v\n--- stdout\n%s\n--- stderr\n%s", strings.Join(r.Args, " "), r.Code, r.Signal, r.Hung, r.Out, r.Err)
}

// Panicked tells whether the Go runtime reported a crash.
func (r *Res) Panicked() bool {
	for _, s := range []string{r.Err, r.Out} {
		if strings.Contains(s, "goroutine ") && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "runtime error")) {
			return true
		}
	}
	return false
}

// Opt configures a run.
type Opt struct {
	Dir      string   // working directory, relative to W or absolute
	Env      []string // extra environment
	Stdin    string
	Race     bool
	Bin      string
	NoProtoc bool // do not point prototool at the system protoc
	Fake     *FakeConf
	Timeout  time.Duration
	Wrap     []string // wrapper command, e.g. strace
	Started  func(p *os.Process)
	Cred     *syscall.Credential
	Quiet    bool
}

// Run runs prototool.
func (cs *Case) Run(o Opt, args ...string) *Res {
	bin := cs.C.Bin
	if o.Race && cs.C.Race != "" {
		bin = cs.C.Race
	}
	if o.Bin != "" {
		bin = o.Bin
	}
	return cs.Exec(o, bin, args...)
}

// P runs prototool with the system's protoc in W.
func (cs *Case) P(args ...string) *Res { return cs.Run(Opt{}, args...) }

// Exec runs any program under the case's environment.
func (cs *Case) Exec(o Opt, bin string, args ...string) *Res {
	var r *Res
	for try := 0; try < 2; try++ {
		r = cs.exec1(o, bin, args...)
		if !r.Hung {
			break
		}
		atomic.AddInt64(&cs.C.incon, 1)
	}
	if !o.Quiet {
		cs.Note("%s", r)
	}
	return r
}

func (cs *Case) exec1(o Opt, bin string, args ...string) *Res {
	to := o.Timeout
	if to == 0 {
		to = 120 * time.Second
	}
	dir := o.Dir
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(cs.W, dir)
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	full := append(append([]string{}, o.Wrap...), append([]string{bin}, args...)...)
	cmd := exec.Command(full[0], full[1:]...)
	cmd.Dir = dir
	env := []string{"PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME=" + cs.Home, "TMPDIR=" + cs.Tmp, "PWD=" + dir, "LANG=C", "GIT_CONFIG_NOSYSTEM=1"}
	if !o.NoProtoc {
		p := RealProtoc
		if o.Fake != nil {
			p = cs.C.Fake
		}
		env = append(env, "PROTOTOOL_PROTOC_BIN_PATH="+p, "PROTOTOOL_PROTOC_WKT_PATH="+RealWKT)
	}
	if o.Fake != nil {
		f := o.Fake
		if f.Log == "" {
			f.Log = filepath.Join(cs.Dir, fmt.Sprintf("fake%d.log", rand.Int63()))
		}
		if f.Real == "" {
			f.Real = RealProtoc
		}
		b, _ := json.Marshal(f)
		cp := f.Log + ".conf"
		ioutil.WriteFile(cp, b, 0644)
		env = append(env, "VFP_CONF="+cp)
	}
	raceLog := ""
	if bin == cs.C.Race && bin != "" {
		raceLog = filepath.Join(cs.Dir, fmt.Sprintf("race%d", rand.Int63()))
		env = append(env, "GORACE=atexit_sleep_ms=0 halt_on_error=0 log_path="+raceLog)
	}
	env = append(env, o.Env...)
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: o.Cred}
	if o.Stdin != "" {
		cmd.Stdin = strings.NewReader(o.Stdin)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	r := &Res{Args: append([]string{filepath.Base(bin)}, args...)}
	start := time.Now()
	atomic.AddInt64(&cs.C.execs, 1)
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %v in %s: %v", full, dir, err))
	}
	if o.Started != nil {
		o.Started(cmd.Process)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-ctx.Done():
		r.Hung = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	r.Dur = time.Since(start)
	r.Out, r.Err = so.String(), se.String()
	r.Code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal().String()
	}
	if raceLog != "" {
		ms, _ := filepath.Glob(raceLog + ".*")
		for _, m := range ms {
			b, _ := ioutil.ReadFile(m)
			r.Races += string(b)
			os.Remove(m)
		}
	}
	return r
}

// FakeConf scripts the fake protoc.
type FakeConf struct {
	Log   string
	Real  string
	Rules []FakeRule
}

// FakeRule applies to an invocation whose joined argv contains Match.
type FakeRule struct {
	Match   string
	DelayMs int    // before anything
	PostMs  int    // after the real protoc
	Real    bool   // run the real protoc
	Stdout  string // extra output
	Stderr  string
	Exit    int
	Kill    bool   // die by SIGKILL
	Block   string // wait until this file exists
	Touch   string // create this file when started
	Deaf    bool   // ignore the signals one can ignore
}

// FakeRec is one record of the fake protoc's log.
type FakeRec struct {
	Argv []string
	Cwd  string
	Pid  int
	Ev   string // start, end
	Exit int
	T    int64
	Err  string
}

// ReadFakeLog reads the event log.
func ReadFakeLog(path string) []FakeRec {
	b, _ := ioutil.ReadFile(path)
	var out []FakeRec
	for _, l := range SplitLines(string(b)) {
		var r FakeRec
		if json.Unmarshal([]byte(l), &r) == nil {
			out = append(out, r)
		}
	}
	return out
}

// Starts returns the argv of every started invocation.
func Starts(recs []FakeRec) [][]string {
	var out [][]string
	for _, r := range recs {
		if r.Ev == "start" {
			out = append(out, r.Argv)
		}
	}
	return out
}

var fieldNumber = regexp.MustCompile(`FieldNumber(_[0-9]+)?`)

// Snapshot maps every path below dir to a digest of type, mode and content.
func Snapshot(dirs ...string) map[string]string {
	m := map[string]string{}
	for _, dir := range dirs {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				m[p] = "err"
				return nil
			}
			switch {
			case fi.IsDir():
				m[p] = fmt.Sprintf("dir %o", fi.Mode().Perm())
			case fi.Mode()&os.ModeSymlink != 0:
				t, _ := os.Readlink(p)
				m[p] = "link " + t
			case fi.Mode().IsRegular():
				b, _ := ioutil.ReadFile(p)
				if strings.HasSuffix(p, ".pb.h") || strings.HasSuffix(p, ".pb.cc") {
					// protoc itself is not deterministic where names of field
					// numbers collide
					l := strings.Split(fieldNumber.ReplaceAllString(string(b), "FieldNumber"), "\n")
					sort.Strings(l)
					b = []byte(strings.Join(l, "\n"))
				}
				h := sha256.Sum256(b)
				m[p] = fmt.Sprintf("file %o %d %s", fi.Mode().Perm(), len(b), hex.EncodeToString(h[:8]))
			default:
				m[p] = fi.Mode().String()
			}
			return nil
		})
	}
	return m
}

// DiffSnap lists the differences between two snapshots.
func DiffSnap(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, "removed "+k)
		} else if w != v {
			d = append(d, "changed "+k+" ("+v+" -> "+w+")")
		}
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "added "+k+" ("+w+")")
		}
	}
	sort.Strings(d)
	return d
}

// Pick picks one of the strings.
func Pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// Chance is true with probability p percent.
func Chance(r *rand.Rand, p int) bool { return r.Intn(100) < p }

// Sorted returns a sorted copy.
func Sorted(s []string) []string {
	t := append([]string{}, s...)
	sort.Strings(t)
	return t
}

// EqualStrings compares two lists.
func EqualStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// DiffLists describes the difference of two multisets of lines.
func DiffLists(want, got []string) string {
	m := map[string]int{}
	for _, w := range want {
		m[w]++
	}
	for _, g := range got {
		m[g]--
	}
	var out []string
	for k, n := range m {
		for ; n > 0; n-- {
			out = append(out, "missing:    "+k)
		}
		for ; n < 0; n++ {
			out = append(out, "unexpected: "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
