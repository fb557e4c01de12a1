// fakeprotoc stands in for protoc: it logs every invocation, then delays, fails,
// prints or runs the real protoc as its configuration says.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"time"
)

type rule struct {
	Match   string
	DelayMs int
	PostMs  int
	Real    bool
	Stdout  string
	Stderr  string
	Exit    int
	Kill    bool
	Block   string
	Touch   string
	Deaf    bool
}

type conf struct {
	Log   string
	Real  string
	Rules []rule
}

type rec struct {
	Argv []string
	Cwd  string
	Pid  int
	Ev   string
	Exit int
	T    int64
	Err  string
}

func main() {
	b, err := ioutil.ReadFile(os.Getenv("VFP_CONF"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
	var c conf
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
	cwd, _ := os.Getwd()
	log := func(ev string, exit int, e string) {
		f, err := os.OpenFile(c.Log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err != nil {
			os.Exit(97)
		}
		j, _ := json.Marshal(rec{Argv: os.Args[1:], Cwd: cwd, Pid: os.Getpid(), Ev: ev, Exit: exit, T: time.Now().UnixNano(), Err: e})
		f.Write(append(j, '\n'))
		f.Close()
	}
	log("start", 0, "")
	joined := strings.Join(os.Args[1:], " ")
	r := rule{Real: true}
	for _, x := range c.Rules {
		if strings.Contains(joined, x.Match) {
			r = x
			break
		}
	}
	if r.Deaf {
		signal.Ignore(syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT)
	}
	if r.Touch != "" {
		ioutil.WriteFile(r.Touch, nil, 0644)
	}
	time.Sleep(time.Duration(r.DelayMs) * time.Millisecond)
	for r.Block != "" {
		if _, err := os.Stat(r.Block); err == nil {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	exit := r.Exit
	if r.Real {
		log("real", 0, "")
		runtime.LockOSThread()
		cmd := exec.Command(c.Real, os.Args[1:]...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Stdout, cmd.Stderr, cmd.Stdin = os.Stdout, os.Stderr, os.Stdin
		if err := cmd.Run(); err != nil {
			if ee, ok := err.(*exec.ExitError); ok {
				exit = ee.ExitCode()
			} else {
				exit = 96
			}
		}
	}
	os.Stdout.WriteString(r.Stdout)
	os.Stderr.WriteString(r.Stderr)
	time.Sleep(time.Duration(r.PostMs) * time.Millisecond)
	log("end", exit, "")
	if r.Kill {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	os.Exit(exit)
}
