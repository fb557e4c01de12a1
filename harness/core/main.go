package core

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is a check.
type Prop struct {
	ID      string
	Level   string
	Rule    string
	Race    bool // needs the race build
	Confirm bool // a failure must show twice in three runs
	Notes   []string
	Run     func(c *Ctx)
}

var props = map[string]*Prop{}

// Register adds a check.
func Register(p *Prop) { props[p.ID] = p }

// Main is the entry of the check program: vrun PROP [CASE].
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun PROP [CASE]")
		os.Exit(2)
	}
	// what is ignored here would be ignored by the processes under test as well
	ignored := make(chan os.Signal, 8)
	signal.Notify(ignored, syscall.SIGHUP)
	ended := make(chan os.Signal, 1)
	signal.Notify(ended, syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT)
	go func() {
		<-ended
		os.Exit(2)
	}()
	p, ok := props[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[1])
		os.Exit(2)
	}
	c := &Ctx{Prop: p.ID, Tier: "quick", Seed: 1, Repo: "/repo", Verif: "/verif", Start: time.Now(), Level: p.Level, Rule: p.Rule, Notes: p.Notes,
		sigs: map[string]struct{}{}, counts: map[string]int64{}, known: map[string]knownLine{}, hit: map[string]bool{}, extra: map[string]interface{}{}}
	if v := os.Getenv("VERIF_TIER"); v == "thorough" {
		c.Tier = v
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.Seed = v
	}
	if v := os.Getenv("VRUN_REPO"); v != "" { // development only: check a scratch copy
		c.Repo = v
	}
	if v := os.Getenv("VRUN_VERIF"); v != "" {
		c.Verif = v
	}
	if len(os.Args) > 2 {
		c.Only = os.Args[2]
	}
	root, err := ioutil.TempDir("", "vrun-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	root, _ = filepath.EvalSymlinks(root)
	c.Root = root
	os.Chmod(root, 0755)
	os.RemoveAll(filepath.Join(c.Verif, "evidence", "replay", c.Prop))
	c.loadKnown()
	if err := c.build(p.Race); err != nil {
		// a tree that does not build has no verdict
		fmt.Fprintln(os.Stderr, "build failed:", err)
		os.RemoveAll(root)
		os.Exit(2)
	}
	c.confirm = p.Confirm
	p.Run(c)
	code := c.finish()
	if os.Getenv("VRUN_KEEP") == "" {
		os.RemoveAll(root)
	} else {
		fmt.Fprintln(os.Stderr, "kept", root)
	}
	os.Exit(code)
}

type knownLine struct {
	Kind     string `json:"kind"` // known, fixed
	Property string `json:"property"`
	Match    string `json:"match"` // part of the failure message; other failures of the case count
	Case     string `json:"case"`
	What     string `json:"what"`
}

func (c *Ctx) loadKnown() {
	b, err := ioutil.ReadFile(filepath.Join(c.Verif, "KNOWN_FINDINGS.jsonl"))
	if err != nil {
		return
	}
	for _, l := range SplitLines(string(b)) {
		var k knownLine
		if json.Unmarshal([]byte(l), &k) == nil && k.Kind == "known" && k.Property == c.Prop {
			c.known[k.Case] = k
		}
	}
}

func (c *Ctx) build(race bool) error {
	bin := filepath.Join(c.Root, "bin")
	if err := os.MkdirAll(bin, 0755); err != nil {
		return err
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GO111MODULE=on")
	run := func(args ...string) error {
		cmd := exec.Command("go", args...)
		cmd.Dir = c.Repo
		cmd.Env = env
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go %v: %v\n%s", args, err, out)
		}
		return nil
	}
	c.Bin = filepath.Join(bin, "prototool")
	if err := run("build", "-o", c.Bin, "./cmd/prototool"); err != nil {
		return err
	}
	if race {
		c.Race = filepath.Join(bin, "prototool-race")
		if err := run("build", "-race", "-o", c.Race, "./cmd/prototool"); err != nil {
			return err
		}
	}
	self, _ := os.Executable()
	c.Fake = filepath.Join(filepath.Dir(self), "fakeprotoc")
	return nil
}

func (c *Ctx) finish() int {
	wall := time.Since(c.Start).Seconds()
	cov := map[string]interface{}{
		"evaluations":         int(atomic.LoadInt64(&c.evals)),
		"distinct_nontrivial": len(c.sigs),
		"rule":                c.Rule,
		"samples":             c.samp,
		"processes_run":       atomic.LoadInt64(&c.execs),
		"observed":            c.counts,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.incon > 0 {
		cov["runs_retried_after_timeout"] = c.incon
	}
	if c.skips > 0 {
		cov["cases_not_run_time_or_violation_limit"] = c.skips
	}
	if len(c.unconf) > 0 {
		cov["failures_not_seen_again"] = c.unconf
	}
	if len(c.samp) == 0 {
		cov["samples"] = []string{"(no case ran)"}
	}
	var kf []string
	for k := range c.hit {
		kf = append(kf, k)
	}
	if len(kf) > 0 {
		cov["known_findings_reproduced"] = kf
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": wall, "violations": len(c.viol), "assumptions": c.Notes,
	}
	if c.Notes == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0755)
	if c.Only == "" {
		ioutil.WriteFile(filepath.Join(c.Verif, "evidence", c.Prop+".json"), append(b, '\n'), 0644)
	}
	ck, _ := json.Marshal(c.counts)
	fmt.Printf("%s %s seed=%d: %d cases (%d distinct non-trivial), %d processes, %d violations, %.1fs; observed %s\n", c.Prop, c.Tier, c.Seed, c.evals, len(c.sigs), c.execs, len(c.viol), wall, ck)
	if len(c.viol) > 0 {
		return 1
	}
	return 0
}
