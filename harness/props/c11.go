package props

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

var c11Named = []string{
	"pre-commit hook of commit -a", "pre-commit hook of commit", "GIT_DIR of another repository", "GIT_INDEX_FILE", "GIT_WORK_TREE", "GIT_OBJECT_DIRECTORY",
	"no repository", "git file of a work tree", "absolute argument", "argument outside", "repository above", "no commit yet", "both sources",
	"descriptor set missing", "descriptor set garbage", "descriptor set truncated", "git missing", "git fails half way", "git dies half way", "old side broken", "new side broken",
	"directory new since", "unwritable temporary directory", "removed file named as argument", "shallow repository", "tag of an annotated tag", "symbolic link to the repository", "packed refs", "dash branch", "path with per cent sign", "path with space and hash", "path with question mark and unicode", "linked include", "attributes", "umask",
}

// c11Message matches the messages of break check.
var c11Message = regexp.MustCompile(`^(Package|Message|Enum|Service|Import) .*"[^"]+".*\.$`)

func init() {
	core.Register(&core.Prop{ID: "C11", Level: "exploration", Run: runC11,
		Rule:  "comparing with a ref (or with the commit checked out) prints exactly what comparing with a descriptor set taken from a separate checkout of that commit prints, with the same exit code; the repository (work tree and .git), HOME and TMPDIR are the same before and after",
		Notes: []string{"The two sources are compared with each other; that the descriptor set source is right is C09 and C10.", "Trusts git for which commit a name denotes."}})
}

func runC11(c *core.Ctx) {
	c.Each("history", c.N(400, 16000), c11History)
	c.Named("case", c11Named, c11Case)
}

// repo runs git in a directory, as the preparation of a case.
func git(cs *core.Case, dir string, args ...string) string {
	res := cs.Exec(core.Opt{Dir: dir, Quiet: true, Env: []string{"GIT_AUTHOR_NAME=n", "GIT_AUTHOR_EMAIL=n@example.com", "GIT_COMMITTER_NAME=n", "GIT_COMMITTER_EMAIL=n@example.com"}}, "/usr/bin/git", append([]string{"-c", "init.defaultBranch=master", "-c", "advice.detachedHead=false"}, args...)...)
	if res.Code != 0 {
		cs.Fatal("git %v: exit %d %s%s", args, res.Code, res.Out, res.Err)
	}
	return strings.TrimSpace(res.Out)
}

// putSet replaces the work tree's files, all but .git, by those of a set.
func putSet(cs *core.Case, dir, sub string, s *pgen.Set, conf M) {
	l, _ := ioutil.ReadDir(filepath.Join(cs.W, dir))
	for _, e := range l {
		if e.Name() != ".git" {
			os.RemoveAll(filepath.Join(cs.W, dir, e.Name()))
		}
	}
	writeSet(cs, s, filepath.Join(dir, sub))
	cs.Write(filepath.Join(dir, sub, "prototool.yaml"), toYAML(conf, 0))
}

// c11Compare observes both sources and what they leave behind.
func c11Compare(cs *core.Case, dir, rev, arg, branch string, extra []string) {
	c := cs.C
	co := filepath.Join(cs.Dir, "checkout")
	git(cs, cs.W, "clone", "-q", "--no-hardlinks", filepath.Join(cs.W, dir), co)
	git(cs, co, "checkout", "-q", "--detach", rev)
	bin := filepath.Join(cs.Dir, "old.bin")
	var args []string
	if arg != "" {
		args = []string{arg}
	}
	old := cs.Run(core.Opt{Dir: co}, append(append([]string{"break", "descriptor-set", "-o", bin}, extra...), args...)...)
	before := core.Snapshot(cs.W, cs.Home, cs.Tmp)
	opt := core.Opt{Dir: filepath.Join(cs.W, dir)}
	a := append(append([]string{"break", "check"}, extra...), args...)
	if branch != "" {
		a = append(a, "--git-branch", branch)
	}
	viaGit := cs.Run(opt, a...)
	c.Count("comparisons with a commit", 1)
	if d := core.DiffSnap(before, core.Snapshot(cs.W, cs.Home, cs.Tmp)); len(d) > 0 {
		cs.Fail("break check against %q changed:\n%s", branch, strings.Join(d, "\n"))
	}
	if old.Code != 0 {
		c.Count("old sides that fail", 1)
		if viaGit.Code != 0 && viaGit.Out+viaGit.Err == "" {
			// of a file, only its own failures are printed; the new side may fail because of another one
			if new := cs.Run(opt, append(append([]string{"break", "descriptor-set", "-o", filepath.Join(cs.Dir, "new.bin")}, extra...), args...)...); new.Code != 0 && new.Out+new.Err == "" {
				return
			}
		}
		if viaGit.Code == 0 || viaGit.Out+viaGit.Err == "" && old.Out+old.Err != "" {
			cs.Fail("the old side fails, break check against the commit exits %d: %q", viaGit.Code, viaGit.Out+viaGit.Err)
		}
		for _, l := range viaGit.Lines() {
			if c11Message.MatchString(l) {
				cs.Fail("the old side fails (exit %d: %q), break check against the commit compares something nevertheless: %s", old.Code, old.Out+old.Err, l)
			}
		}
		return
	}
	viaSet := cs.Run(opt, append(append(append([]string{"break", "check"}, extra...), args...), "--descriptor-set-path", bin)...)
	if viaGit.Code != viaSet.Code || viaGit.Out != viaSet.Out || viaGit.Err != viaSet.Err {
		if viaGit.Code != 0 && viaSet.Code != 0 && viaGit.Code == viaSet.Code && core.EqualStrings(core.Sorted(viaGit.Lines()), core.Sorted(viaSet.Lines())) {
			// lines of equal rank
			return
		}
		cs.Fail("the sources differ:\nagainst %q: exit %d\n%s%s\nagainst its descriptor set: exit %d\n%s%s", branch, viaGit.Code, viaGit.Out, viaGit.Err, viaSet.Code, viaSet.Out, viaSet.Err)
		return
	}
	switch {
	case viaSet.Code == 0:
		c.Count("compatible", 1)
	case strings.Contains(viaSet.Out, ".proto:"):
		c.Count("new sides that fail", 1)
	default:
		c.Count("incompatible", 1)
		c.Count("messages", int64(len(viaSet.Lines())))
	}
}

func c11History(cs *core.Case) {
	c, r := cs.C, cs.R
	s, _ := twins(cs, breakCfg(cs))
	conf, _, _ := breakConf(r)
	dir := pick(r, "repo", "repo", "re po", "a/b/repo", "r#1", "r%41", "ré", "r+?&")
	sub := pick(r, "", "", "idl", "a/idl")
	os.MkdirAll(filepath.Join(cs.W, dir), 0755)
	git(cs, filepath.Join(cs.W, dir), "init", "-q")
	wt := filepath.Join(cs.W, dir)
	e := &evolver{r: r, s: s}
	type ref struct{ name, rev string }
	var refs []ref
	heads := map[string]string{}
	names := []string{"v1.0", "release/2", "x", "dev", "feature/a.b", "v2", "ü"}
	evolve := func() {
		for i := r.Intn(3); i > 0; i-- {
			if chance(r, 60) {
				e.breaking()
			} else {
				e.compatible()
			}
		}
		if chance(r, 15) {
			conf, _, _ = breakConf(r)
		}
		putSet(cs, dir, sub, s, conf)
		if chance(r, 8) && len(s.Files) > 0 {
			cs.Write(filepath.Join(dir, sub, s.Files[0].Path), "syntax = \"proto3\";\n\npackage a.v1;\n\nmessage M {\n  Nope x = 1;\n}\n")
		}
		if chance(r, 10) {
			cs.Write(filepath.Join(dir, ".gitignore"), "*_ignored.proto\n")
		}
	}
	last := ""
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		evolve()
		git(cs, wt, "add", "-A")
		git(cs, wt, "commit", "-q", "--allow-empty", "-m", fmt.Sprint("commit ", i))
		last = git(cs, wt, "rev-parse", "HEAD")
		for j := r.Intn(3); j > 0; j-- {
			n := names[r.Intn(len(names))]
			switch r.Intn(3) {
			case 0:
				if heads["h"+n] == "" {
					git(cs, wt, "branch", n)
					heads["h"+n] = last
				}
			case 1:
				if heads["t"+n] == "" {
					git(cs, wt, "tag", n)
					heads["t"+n] = last
				}
			default:
				if heads["t"+n] == "" {
					git(cs, wt, "tag", "-a", "-m", "note", n)
					heads["t"+n] = last
				}
			}
		}
		if chance(r, 25) && i+1 < n {
			b := "side" + itoa(i)
			git(cs, wt, "checkout", "-q", "-b", b)
			heads["h"+b] = "moving"
		}
	}
	for _, n := range sortedKeys(func() map[string]bool {
		m := map[string]bool{"master": true}
		for k := range heads {
			m[k[1:]] = true
		}
		return m
	}()) {
		// git clone --branch prefers a branch to a tag
		for _, p := range []string{"refs/heads/", "refs/tags/"} {
			if res := cs.Exec(core.Opt{Dir: wt, Quiet: true}, "/usr/bin/git", "rev-parse", "-q", "--verify", p+n+"^{commit}"); res.Code == 0 {
				refs = append(refs, ref{n, strings.TrimSpace(res.Out)})
				break
			}
		}
	}
	// what is checked out
	if chance(r, 35) {
		x := refs[r.Intn(len(refs))]
		if chance(r, 50) {
			git(cs, wt, "checkout", "-q", "--detach", x.rev)
			c.Count("detached", 1)
		} else if heads["h"+x.name] != "" || x.name == "master" {
			git(cs, wt, "checkout", "-q", "refs/heads/"+x.name, "--")
		}
	}
	if chance(r, 15) {
		git(cs, wt, "pack-refs", "--all")
	}
	if chance(r, 15) {
		git(cs, wt, "gc", "-q")
	}
	// the work tree
	dirty := r.Intn(6)
	if dirty > 0 {
		evolve()
		c.Count("dirty work trees", 1)
		switch dirty {
		case 1:
			git(cs, wt, "add", "-A")
		case 2:
			if len(s.Files) > 1 {
				os.Remove(filepath.Join(wt, sub, s.Files[0].Path))
			}
		case 3:
			cs.Write(filepath.Join(dir, sub, "extra_ignored.proto"), "syntax = \"proto3\";\n\npackage only.here.v1;\n\nmessage M {}\n")
			cs.Write(filepath.Join(dir, ".git/info/exclude"), "*_ignored.proto\n")
		case 4:
			git(cs, wt, "stash", "-q", "-u")
			heads["stash"] = "x"
		}
	}
	arg := pick(r, "", ".", ".", "./")
	if sub != "" {
		arg = pick(r, "", ".", sub, sub+"/", "./"+sub, sub+"/../"+sub)
	} else if chance(r, 40) && len(s.Files) > 0 {
		f := s.Files[r.Intn(len(s.Files))].Path
		arg = filepath.Dir(f)
		if chance(r, 30) {
			arg = f
		}
	}
	if chance(r, 6) {
		arg = filepath.Join(sub, "newdir")
		cs.Write(filepath.Join(dir, arg, "n.proto"), "syntax = \"proto3\";\n\npackage n.v1;\n\nmessage M {}\n")
		c.Count("directories that the commit does not have", 1)
	}
	head := git(cs, wt, "rev-parse", "HEAD")
	branch := ""
	rev := head
	if chance(r, 65) {
		x := refs[r.Intn(len(refs))]
		branch, rev = x.name, x.rev
	}
	var extra []string
	if chance(r, 8) {
		extra = []string{"--config-data", `{"protoc":{"allow_unused_imports":true},"break":{"include_beta":true}}`}
	}
	cs.Note("repository %s, configuration in %q, argument %q, branch %q, head %s, compared with %s, dirty %d", dir, sub, arg, branch, head, rev, dirty)
	for _, l := range e.log {
		cs.Note("change: %s", l)
	}
	// a status run settles the index's cached data, so that nothing but the command changes it
	git(cs, wt, "status", "-s")
	c11Compare(cs, dir, rev, arg, branch, extra)
	if chance(r, 15) {
		before := core.Snapshot(cs.W, cs.Home, cs.Tmp)
		bad := pick(r, "nope", "refs/heads/master", "HEAD~1", "origin/master", "-x", "--upload-pack=touch x", head)
		res := cs.Run(core.Opt{Dir: wt}, "break", "check", ".", "--git-branch="+bad)
		if res.Code == 0 || res.Out+res.Err == "" {
			cs.Fail("comparing with %q, which is no branch or tag, exits %d: %q", bad, res.Code, res.Out+res.Err)
		}
		if d := core.DiffSnap(before, core.Snapshot(cs.W, cs.Home, cs.Tmp)); len(d) > 0 {
			cs.Fail("comparing with the missing %q changed:\n%s", bad, strings.Join(d, "\n"))
		}
		c.Count("missing refs", 1)
	}
	cs.Sig("%s|%s|%s|%v|%d|%v", dir, arg, branch, e.log, dirty, heads)
}

func c11Case(cs *core.Case) {
	c, r := cs.C, cs.R
	name := c11Named[cs.I]
	hdr := "syntax = \"proto3\";\n\npackage a.v1;\n\n"
	one, two := hdr+"message M {\n  int32 x = 1;\n  int32 y = 2;\n}\n", hdr+"message M {\n  int32 x = 1;\n}\n"
	gone := `Message field "2" on message "a.v1.M" was deleted.` + "\n"
	dir := "repo"
	switch name {
	case "path with per cent sign":
		dir = "a%20b"
	case "path with space and hash":
		dir = "a b#c"
	case "path with question mark and unicode":
		dir = "a?b&é"
	}
	wt := filepath.Join(cs.W, dir)
	os.MkdirAll(wt, 0755)
	opt := core.Opt{Dir: wt}
	commit := func(s string) {
		cs.Write(dir+"/a.proto", s)
		git(cs, wt, "add", "-A")
		git(cs, wt, "commit", "-q", "-m", "x")
	}
	if name != "no repository" {
		git(cs, wt, "init", "-q")
		if name != "no commit yet" {
			if name == "old side broken" {
				commit(strings.Replace(one, "int32 x", "Nope x", 1))
			} else {
				commit(one)
			}
		}
	}
	cs.Write(dir+"/a.proto", two)
	args := []string{"break", "check"}
	bad, check := "", true
	switch name {
	case "pre-commit hook of commit -a", "pre-commit hook of commit":
		// the whole sequence is observed: the commit must contain what was to be committed
		hook := fmt.Sprintf("#!/bin/sh\nPROTOTOOL_PROTOC_BIN_PATH=%s PROTOTOOL_PROTOC_WKT_PATH=%s %s break check . > %s/hook.out 2>&1\nexit 0\n", core.RealProtoc, core.RealWKT, cs.C.Bin, cs.Dir)
		cs.Write(dir+"/.git/hooks/pre-commit", hook)
		os.Chmod(filepath.Join(wt, ".git/hooks/pre-commit"), 0755)
		cs.Write(dir+"/more.txt", "more\n")
		git(cs, wt, "add", "more.txt")
		a := []string{"commit", "-q", "-m", "y"}
		want := "more.txt"
		if strings.HasSuffix(name, "-a") {
			a = append(a, "-a")
			want = "a.proto\nmore.txt"
		}
		git(cs, wt, a...)
		if got := git(cs, wt, "show", "--name-only", "--format="); got != want {
			cs.Fail("a commit whose hook runs break check contains %q, not %q", got, want)
		}
		if got := git(cs, wt, "status", "-s"); (got == "") != strings.HasSuffix(name, "-a") {
			cs.Fail("status after the commit: %q", got)
		}
		if out := readAbs(filepath.Join(cs.Dir, "hook.out")); out != gone {
			cs.Fail("break check in the hook printed %q, not %q", out, gone)
		}
		check = false
	case "GIT_DIR of another repository", "GIT_INDEX_FILE", "GIT_WORK_TREE", "GIT_OBJECT_DIRECTORY":
		os.MkdirAll(filepath.Join(cs.W, "other"), 0755)
		git(cs, filepath.Join(cs.W, "other"), "init", "-q")
		switch name {
		case "GIT_DIR of another repository":
			opt.Env = []string{"GIT_DIR=" + filepath.Join(cs.W, "other/.git")}
		case "GIT_INDEX_FILE":
			opt.Env = []string{"GIT_INDEX_FILE=" + filepath.Join(wt, ".git/index")}
		case "GIT_WORK_TREE":
			opt.Env = []string{"GIT_WORK_TREE=" + wt, "GIT_DIR=" + filepath.Join(wt, ".git")}
		case "GIT_OBJECT_DIRECTORY":
			opt.Env = []string{"GIT_OBJECT_DIRECTORY=" + filepath.Join(cs.W, "other/.git/objects")}
		}
	case "no repository":
		bad = ".git"
	case "git file of a work tree":
		git(cs, wt, "worktree", "add", "-q", "../side")
		opt.Dir = filepath.Join(cs.W, "side")
		bad = ".git"
	case "absolute argument":
		args = append(args, wt)
		bad = "relative"
	case "argument outside":
		cs.Write("else/a.proto", two)
		args = append(args, "../else")
		bad = "within"
	case "repository above":
		cs.Write(dir+"/in/a.proto", two)
		opt.Dir = filepath.Join(wt, "in")
		bad = ".git"
	case "no commit yet":
		gone = "" // nothing to compare with
	case "both sources":
		cs.Write("x.bin", "")
		args = append(args, ".", "--git-branch", "master", "-f", filepath.Join(cs.W, "x.bin"))
		bad = "only"
	case "descriptor set missing":
		args = append(args, ".", "-f", "../nope.bin")
		bad = "nope.bin"
	case "descriptor set garbage":
		cs.Write("x.bin", "\xff\xff\xff hello")
		args = append(args, ".", "-f", "../x.bin")
		bad = "-"
	case "descriptor set truncated":
		cs.Run(opt, "break", "descriptor-set", "-o", filepath.Join(cs.W, "x.bin"))
		b := cs.Read("x.bin")
		cs.Write("x.bin", b[:len(b)-3-r.Intn(5)])
		args = append(args, ".", "-f", "../x.bin")
		bad = "-"
	case "git missing":
		opt.Env = []string{"PATH=" + cs.Home}
		bad = "git"
	case "git fails half way", "git dies half way":
		end := "exit 3"
		if name == "git dies half way" {
			end = "kill -9 $$"
		}
		p := filepath.Join(cs.Dir, "bin")
		os.MkdirAll(p, 0755)
		ioutil.WriteFile(filepath.Join(p, "git"), []byte("#!/bin/sh\n/usr/bin/git \"$@\" >/dev/null 2>&1\necho half way\n"+end+"\n"), 0755)
		opt.Env = []string{"PATH=" + p + ":/usr/bin:/bin"}
		bad = "half way"
	case "old side broken":
		bad = "Nope"
	case "new side broken":
		cs.Write(dir+"/a.proto", strings.Replace(two, "int32 x", "Nope x", 1))
		bad = "a.proto:6:3:"
	case "directory new since":
		cs.Write(dir+"/new/b.proto", strings.Replace(two, "a.v1", "b.v1", 1))
		args = append(args, "new")
		bad = "-"
	case "unwritable temporary directory":
		opt.Env = []string{"TMPDIR=" + filepath.Join(cs.W, "nope")}
		bad = "-"
	case "removed file named as argument":
		git(cs, wt, "mv", "-f", "a.proto", "b.proto")
		args = append(args, "b.proto")
		bad = "-"
	case "shallow repository":
		commit(two)
		commit(one)
		git(cs, cs.W, "clone", "-q", "--depth", "1", "file://"+wt, filepath.Join(cs.W, "shallow"))
		opt.Dir = filepath.Join(cs.W, "shallow")
		cs.Write("shallow/a.proto", two)
	case "tag of an annotated tag":
		git(cs, wt, "tag", "-a", "-m", "x", "t1")
		git(cs, wt, "tag", "-a", "-m", "y", "t2", "t1")
		commit(two)
		args = append(args, "--git-branch", "t2")
	case "symbolic link to the repository":
		os.Symlink(wt, filepath.Join(cs.W, "link"))
		opt.Dir = filepath.Join(cs.W, "link")
	case "packed refs":
		git(cs, wt, "branch", "b")
		commit(two)
		git(cs, wt, "pack-refs", "--all")
		git(cs, wt, "gc", "-q")
		args = append(args, "--git-branch", "b")
	case "dash branch":
		git(cs, wt, "update-ref", "refs/heads/-b", "HEAD")
		commit(two)
		args = append(args, "--git-branch=-b")
	case "linked include":
		cs.Write(dir+"/inc/o/o.proto", "syntax = \"proto3\";\n\npackage o.v1;\n\nmessage O {}\n")
		cs.Write(dir+"/idl/prototool.yaml", "protoc:\n  includes:\n    - ../inc\n")
		src := "syntax = \"proto3\";\n\npackage b.v1;\n\nimport \"o/o.proto\";\n\nmessage M {\n  o.v1.O o = 1;\n"
		cs.Write(dir+"/idl/b/b.proto", src+"  int32 y = 2;\n}\n")
		git(cs, wt, "add", "-A")
		git(cs, wt, "commit", "-q", "-m", "z")
		cs.Write(dir+"/idl/b/b.proto", src+"}\n")
		args = append(args, "idl")
		gone = strings.Replace(gone, "a.v1", "b.v1", 1)
	case "attributes":
		cs.Write(dir+"/.gitattributes", "*.proto text eol=crlf export-ignore\n")
		git(cs, wt, "add", "-A")
		commit(one)
		cs.Write(dir+"/a.proto", two)
	case "umask":
		os.Chmod(filepath.Join(wt, "a.proto"), 0600)
	}
	if !check {
		c.Count("hook runs", 1)
		cs.Sig("%s", name)
		return
	}
	before := core.Snapshot(cs.W, cs.Home, cs.Tmp)
	res := cs.Run(opt, args...)
	if d := core.DiffSnap(before, core.Snapshot(cs.W, cs.Home, cs.Tmp)); len(d) > 0 {
		cs.Fail("break check changed:\n%s", strings.Join(d, "\n"))
	}
	if bad != "" {
		if res.Code == 0 || bad == "-" && res.Out+res.Err == "" || bad != "-" && !strings.Contains(res.Out+res.Err, bad) {
			cs.Fail("exit %d, expected a failure that says %q:\n%s%s", res.Code, bad, res.Out, res.Err)
		}
		for _, l := range res.Lines() {
			if c11Message.MatchString(l) {
				cs.Fail("expected a failure, something was compared: %s", l)
			}
		}
	} else if (res.Code != 255) != (gone == "") || res.Out != gone {
		cs.Fail("exit %d, expected 255 with %q:\n%s%s", res.Code, gone, res.Out, res.Err)
	}
	cs.Sig("%s", name)
}
