package props

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C27", Level: "exploration", Run: runC27,
		Rule:  "a command line with one defect (unknown flag, malformed or missing value, contradictory or incomplete flags, surplus or non-existent path, invalid configuration data, protoc settings in conflict) is run over a project, with valid flags around it, at a random place of the project: it must fail, print a reason that names what is wrong, and leave the project, its repository, the cache, TMPDIR and HOME as they were; where the defect shows in the arguments alone, no protoc process may be started and no connection made. Documented combinations that are easily mistaken for such must be accepted. Non-trivial: every case; distinct by command line.",
		Notes: []string{"A flag given twice is not judged: the last one counts.", "What configuration files may contain is the subject of C02."}})
}

func runC27(c *core.Ctx) {
	c.Each("refuse", c.N(900, 25000), func(cs *core.Case) { c27Args(cs, true) })
	c.Each("accept", c.N(250, 6000), func(cs *core.Case) { c27Args(cs, false) })
}

// c27Line is a command line and what its refusal has to name.
type c27Line struct {
	args []string
	name string
	late bool // only found when protoc has run
	last bool // nothing may follow
}

func c27Args(cs *core.Case, refuse bool) {
	c, r := cs.C, cs.R
	cfg := fullCfg(cs)
	cfg.Pkgs, cfg.FilesPerPkg, cfg.Safe = 1+r.Intn(2), 1+r.Intn(2), true
	cfg.NoPkg = 0
	s := pgen.Generate(r, cfg)
	var names []string
	for _, f := range s.Files {
		names = append(names, f.Path)
	}
	writeSet(cs, s, "p")
	cs.Write("p/prototool.yaml", toYAML(M{"protoc": M{"allow_unused_imports": true}, "lint": M{"group": "empty"}, "generate": M{"plugins": L{M{"name": "descriptor_set", "output": "gen", "file_suffix": "bin"}}}}, 0))
	cs.Write("p/words.txt", "These are words.\n")
	cs.Mkdir("p/void")
	cs.Write("other/x.proto", "syntax = \"proto3\";\n\npackage x;\n")
	cs.Write("p/svc/v1/svc.proto", "syntax = \"proto3\";\n\npackage svc.v1;\n\nmessage M {\n  int32 x = 1;\n}\n\nservice S {\n  rpc R(M) returns (M);\n}\n")
	dir := filepath.Join(cs.W, "p")
	git(cs, dir, "init", "-q", ".")
	git(cs, dir, "add", "-A")
	git(cs, dir, "commit", "-q", "-m", "one")
	if !refuse {
		if res := cs.Run(core.Opt{Dir: dir, Quiet: true}, "format", "-w"); res.Code != 0 {
			c.Count("sets protoc rejects", 1)
			return
		}
	}
	old := filepath.Join(cs.Dir, "old.bin")
	if res := cs.Run(core.Opt{Dir: dir, Quiet: true}, "break", "descriptor-set", "-o", old); res.Code != 0 {
		c.Count("sets protoc rejects", 1)
		return
	}
	// a server that only counts
	var conns int64
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		cs.Fatal("%v", err)
	}
	defer l.Close()
	go func() {
		for {
			x, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&conns, 1)
			x.Close()
		}
	}()
	file := names[r.Intn(len(names))]
	line := c27Pick(cs, refuse, l.Addr().String(), old, file, pgPkg(s))
	args := line.args
	if chance(r, 15) && !line.last {
		args = append(args, "--debug")
	}
	opt := core.Opt{Dir: dir, NoProtoc: true, Timeout: 60 * time.Second}
	log := filepath.Join(cs.Dir, "log")
	joined := strings.Join(args, " ")
	f := &core.FakeConf{Rules: []core.FakeRule{{Real: true}}, Log: log}
	opt.Fake = f
	if !strings.Contains(joined, "--protoc-") {
		opt.NoProtoc = false
	}
	cache := filepath.Join(cs.Dir, "cache")
	os.MkdirAll(cache, 0755)
	opt.Env = append(opt.Env, "PROTOTOOL_CACHE_PATH="+cache)
	watch := []string{cs.W, cs.Home, cs.Tmp, cache}
	if !refuse {
		watch = watch[1:]
	}
	before := core.Snapshot(watch...)
	res := cs.Run(opt, args...)
	if !verdict(cs, res) {
		return
	}
	what := strings.SplitN(line.name, "|", 2)[0]
	c.Count(fmt.Sprintf("%s: %s", map[bool]string{true: "refused", false: "accepted"}[refuse], strings.Fields(joined + " -")[0]), 1)
	cs.Sig("%v", strings.Replace(joined, l.Addr().String(), "ADDR", -1))
	if !refuse {
		if res.Code != 0 {
			cs.Fail("%v is refused: exit %d\n%s%s", args, res.Code, res.Out, res.Err)
		}
		return
	}
	if res.Code == 0 {
		cs.Fail("%v: exit 0\n%s%s", args, res.Out, res.Err)
		return
	}
	if !strings.Contains(strings.ToLower(res.Out+res.Err), strings.ToLower(what)) {
		cs.Fail("%v: the reason does not name %q: exit %d\n%s%s", args, what, res.Code, res.Out, res.Err)
		return
	}
	if d := core.DiffSnap(before, core.Snapshot(watch...)); len(d) > 0 {
		cs.Fail("%v is refused, but:\n%s", args, strings.Join(d, "\n"))
		return
	}
	if !line.late {
		if n := len(core.Starts(core.ReadFakeLog(log))); n > 0 {
			cs.Fail("%v is refused, but only after %d protoc processes", args, n)
			return
		}
		if n := atomic.LoadInt64(&conns); n > 0 {
			cs.Fail("%v is refused, but only after %d connections", args, n)
		}
	}
}

func c27Pick(cs *core.Case, refuse bool, addr, old, file, pkg string) c27Line {
	r := cs.R
	w := strings.Fields
	grpc := []string{"grpc", "--address", addr, "--connect-timeout", "200ms"}
	call := append(append([]string{}, grpc...), "--method", "svc.v1.S/R", "--data", "{}")
	with := func(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }
	// commands that take a path, with what they need
	paths := [][]string{w("all"), w("break check --descriptor-set-path " + old), w("break descriptor-set -o out.bin"), w("compile"), w("descriptor-set"), w("format -w"), w("generate"), w("lint"), w("x inspect packages"), w("x inspect package-deps --name " + pkg), w("x inspect package-importers --name " + pkg), call,
		w("compile --dry-run"), w("generate --dry-run"), w("format -l"), w("format -d"), w("lint --list-linters"), w("lint --generate-ignores"), w("descriptor-set -o out.bin"), w("descriptor-set --json")}
	cmd := paths[r.Intn(len(paths))]
	any := [][]string{w("files"), w("cache update"), w("create new.proto"), w("config init void"), w("version"), w("cache delete")}
	anyCmd := cmd
	if chance(r, 30) {
		anyCmd = any[r.Intn(len(any))]
	}
	walks := cmd
	if chance(r, 20) {
		walks = any[r.Intn(2)]
	}
	if !refuse {
		x := [][]string{
			w("format -l --json"), w("format -w --fix"), w("all --disable-format --fix"), w("all --disable-format --disable-lint"), w("all --fix --disable-lint"), w("all --json --error-format message"),
			w("descriptor-set -o out.bin --json"), w("descriptor-set --include-imports --include-source-info --json"), w("descriptor-set --tmp --json"), w("break check --descriptor-set-path " + old), w("break check --json"), w("break check ."), w("break check svc"), w("break check --git-branch master"),
			w("lint --json --error-format id:message"), w("lint --list-linters --json"), w("lint --list-all-linters"), w("lint --list-all-lint-groups"), w("lint --list-lint-group uber2"), w("lint --diff-lint-groups uber1,uber2"), w("lint --generate-ignores"),
			w("compile --dry-run --json"), w("generate --dry-run --json"), w("compile --dry-run=false"), w("compile --walk-timeout 1h"), w("compile --walk-timeout 10m30s"), w("files --walk-timeout 100s"), w("compile void"), w("compile words.txt"), w("compile -- svc"), w("files ."), w("compile --error-format FILENAME:Line:column:ID:message"), w("compile --error-format message:message"),
			w("compile --protoc-bin-path " + cs.C.Fake + " --protoc-wkt-path " + core.RealWKT), w("generate --protoc-bin-path=" + cs.C.Fake + " --protoc-wkt-path=" + core.RealWKT), w("lint --cache-path ../c"),
			w("create void/new.proto --package foo.v1"), w("create void/a.proto void/b.proto"), w("create new.txt"), w("config init void"), w("config init void --document"), w("config init void --uncomment"), w("config init void --uncomment --document"), w("config init newdir"), w("version --json"), w("version"), w("help"), w("--help"), w("help all"), w("all --help"), w("x inspect packages --name " + pkg),
			w("x inspect package-deps --name " + pkg), w("x inspect package-importers --name " + pkg), w("compile " + file), w("lint " + file), w("files " + file), with(w("compile --config-data"), `{"protoc":{"allow_unused_imports":true}}`), with(w("compile --config-data"), ""), w("cache update --config-data {} --cache-path"),
		}
		x[len(x)-1] = w("help cache update")
		y := x[r.Intn(len(x))]
		for y[0] == "x" && len(y) > 3 && y[2] == "packages" {
			y = x[r.Intn(len(x))]
		}
		return c27Line{args: y, last: strings.Contains(strings.Join(y, " "), " -- ")}
	}
	bad := func(name string, a ...string) c27Line { return c27Line{args: a, name: name} }
	late := func(name string, a ...string) c27Line { return c27Line{args: a, name: name, late: true} }
	last := func(x c27Line) c27Line { x.last = true; return x }
	var lines []c27Line
	add := func(x ...c27Line) { lines = append(lines, x[r.Intn(len(x))]) }
	// anything
	f := pick(r, "--nope", "--dryrun", "--no-lint", "-z", "--Json", "--lints")
	add(bad(strings.TrimLeft(f, "-"), with(anyCmd, f)...), bad(strings.TrimLeft(f, "-"), with([]string{anyCmd[0], f}, anyCmd[1:]...)...))
	f = pick(r, "--nope=x", "--error-formats=message", "--protoc-bin=x")
	add(bad(strings.TrimLeft(strings.Split(f, "=")[0], "-"), with(anyCmd, f)...))
	// flags of other commands
	add(bad("--fix", w("compile --fix")...), bad("--dry-run", w("lint --dry-run")...), bad("--dry-run", w("all --dry-run")...), bad("--overwrite", w("lint --overwrite")...), bad("--tmp", w("break descriptor-set --tmp -o x.bin")...), bad("--json", w("files --json")...), bad("--error-format", w("break check --error-format message")...), bad("--package", w("compile --package x")...), bad("--lint", w("generate --lint")...))
	// values
	d := pick(r, "x", "5", "3 s", "1m x", "s", "1,5s", "0x1s", "--1s")
	add(bad("time: ", with(walks, "--walk-timeout="+d)...), bad("time: ", with(walks, "--walk-timeout", "7")...))
	b := pick(r, "maybe", "2", "yes", "-1")
	add(bad(b, w("compile --dry-run="+b)...), bad(b, w("lint --json="+b)...), bad(b, w("all --disable-lint="+b)...), bad(b, w("format --fix="+b)...), bad(b, w("format --overwrite="+b)...), bad(b, with(call, "--tls="+b)...), bad(b, with(call, "--details="+b)...))
	add(last(bad("argument", with(cmd, "--config-data")...)), last(bad("argument", with(cmd, "--walk-timeout")...)), last(bad("argument", with(cmd, "--protoc-bin-path")...)), last(bad("argument", w("descriptor-set -o")...)), last(bad("argument", w("create x.proto --package")...)), last(bad("argument", w("break check --git-branch")...)), last(bad("argument", with(grpc, "--method")...)))
	add(bad("", with(walks, "--config-data", "{")...), bad("nope", with(walks, "--config-data", `{"nope":1}`)...), bad("", with(walks, "--config-data", `[1]`)...), bad("", with(walks, "--config-data", "lint:\n  group: empty\n")...), bad("", with(walks, "--config-data", `{"excludes":"a"}`)...), late("nope", with(w("lint --config-data"), `{"lint":{"group":"nope"}}`)...), late("nope", with(w("lint --list-linters --config-data"), `{"lint":{"rules":{"add":["nope"]}}}`)...), bad("", with(walks, "--config-data", `{"protoc":{"allow_unused_imports":"x"}}`)...), bad("", with(walks, "--config-data", `{"create":{"packages":[{"directory":"a"}]}}`)...), bad("", with(w("create new.proto"), "--config-data", `{"nope":1}`)...))
	e := pick(r, "nope", "filename:nope", "filename,line", ":", "message:", "filename: line", "lint_id", "%s")
	add(late("FailureField", with(w(pick(r, "compile", "lint", "format -l", "format -d", "descriptor-set", "x inspect packages", "all --disable-format")), "--error-format", e)...))
	// paths
	add(bad("accepts", with(cmd, ".", ".")...), bad("accepts", with(cmd, file, "svc")...), bad("accepts", w("files . void")...), bad("accepts", w("config init void void")...), bad("words", w("version words")...), bad("void", w("cache delete void")...), bad("requires", w("create")...))
	p := pick(r, "none", "svc/none.proto", "svc/v1/svc.proto.bak", file+"/x", "words.txt/x.proto", "../none", "svc/v2")
	add(bad("stat "+p+"|", with(walks, p)...))
	add(bad("none", w("create none/x.proto")...), bad("exists", w("create "+file)...), bad("exists", w("create words.txt")...), bad("exists", w("config init")...), bad("exists", w("config init . --uncomment")...), bad("not a directory", w("config init words.txt")...), bad("", w("create void")...))
	// protoc
	for strings.HasPrefix(strings.Join(cmd, " "), "lint --list") {
		cmd = paths[r.Intn(len(paths))]
	}
	add(bad("protoc-wkt-path", with(cmd, "--protoc-bin-path", cs.C.Fake)...), bad("protoc-bin-path", with(cmd, "--protoc-wkt-path", core.RealWKT)...))
	add(bad("protoc-url", with(cmd, "--protoc-url", "http://127.0.0.1:1/x.zip", "--protoc-bin-path", cs.C.Fake, "--protoc-wkt-path", core.RealWKT)...), bad("protoc-url", with(cmd, "--protoc-bin-path", cs.C.Fake, "--protoc-wkt-path", core.RealWKT, "--protoc-url=http://127.0.0.1:1/x.zip")...), bad("protoc-url", with(cmd, "--protoc-url", "http://127.0.0.1:1/x.zip", "--protoc-wkt-path", core.RealWKT)...))
	add(bad("none", with(cmd, "--protoc-bin-path", "none", "--protoc-wkt-path", core.RealWKT)...), bad("none", with(cmd, "--protoc-bin-path", cs.C.Fake, "--protoc-wkt-path", "none")...), bad("none", with(cmd, "--protoc-bin-path", "none", "--protoc-wkt-path", "none")...))
	// contradictions
	m := pick(r, "-d -l", "-d -w", "-l -w", "-d -l -w", "-w --diff", "--lint --overwrite", "--diff --lint", "-dl", "-lw")
	add(bad("only set one of", w("format "+m)...), bad("only set one of", w("format --fix "+m)...), bad("only set one of", w("format "+m+" "+file)...))
	lf := []string{"--list-all-linters", "--list-linters", "--list-all-lint-groups", "--list-lint-group=uber1", "--diff-lint-groups=uber1,uber2", "--generate-ignores"}
	i := r.Intn(len(lf))
	j := (i + 1 + r.Intn(len(lf)-1)) % len(lf)
	add(bad("only set one of", "lint", lf[i], lf[j]))
	if g := pick(r, "uber1", "uber1,uber2,google", "uber1.uber2", ","); true {
		add(bad("group", w("lint --diff-lint-groups "+g)...), bad("nope", w("lint --diff-lint-groups nope,uber1")...), bad("nope", w("lint --diff-lint-groups uber2,nope")...), bad("nope", w("lint --list-lint-group nope")...), bad("uber", w("lint --list-lint-group uber")...))
	}
	add(bad("only set one of", w("descriptor-set -o x.bin --tmp")...), bad("only set one of", w("descriptor-set --tmp --include-imports --output-path x.bin "+file)...), bad("only set one of", with(w("break check --git-branch master --descriptor-set-path"), old)...), bad("output-path", w("break descriptor-set")...), bad("output-path", w("break descriptor-set svc")...), bad("name", w("x inspect package-deps")...), bad("name", w("x inspect package-importers svc")...))
	add(late("relative", with(w("break check"), filepath.Join(cs.W, "p"))...), late("none", w("break check --git-branch none")...), late("none", w("break check --descriptor-set-path none")...), late("", w("break check --descriptor-set-path words.txt")...), late("within", w("break check ../other --config-data {}")...), late("", w("break check --descriptor-set-path void")...))
	add(late("nope", w("x inspect package-deps --name nope")...), late("nope.v1", w("x inspect package-importers --name nope.v1")...), late("", w("descriptor-set -o none/x.bin")...), late("void", w("descriptor-set -o void")...), late("void", w("break descriptor-set -o void")...))
	// grpc
	add(bad("address", "grpc", "--method", "svc.v1.S/R", "--data", "{}"), bad("method", with(grpc, "--data", "{}")...), bad("data", with(grpc, "--method", "svc.v1.S/R")...), bad("only one of", with(call, "--stdin")...), bad("address", "grpc"))
	add(bad("time: ", with(call, "--call-timeout", d)...), bad("time: ", with(call, "--connect-timeout", d)...), bad("time: ", with(call, "--keepalive-time", d)...), bad("nocolon", with(call, "-H", "nocolon")...), bad("plain", with(call, "--header", "a:b", "--header", "plain")...), bad("two", with(call, "-H", "a:b,two")...))
	t := pick(r, "--insecure", "--cacert words.txt", "--cert words.txt --key words.txt", "--server-name x", "--cert words.txt", "--key words.txt")
	add(bad("tls", with(call, w(t)...)...))
	t = pick(r, "--cacert words.txt", "--cert words.txt --key words.txt", "--server-name x")
	add(bad("insecure", with(call, w("--tls --insecure "+t)...)...), bad("key", with(call, w("--tls --cert words.txt")...)...), bad("key", with(call, w("--tls --key words.txt")...)...), bad("key", with(call, w("--tls --cacert words.txt --key words.txt")...)...))
	add(late("ca cert", with(call, w("--tls --cacert words.txt")...)...), late("none", with(call, w("--tls --cacert none")...)...))
	add(bad("nope", w("nope")...), bad("", w("cache nope")...), bad("", w("config nope")...))
	return lines[r.Intn(len(lines))]
}
