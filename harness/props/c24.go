package props

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"verif/harness/core"
	"verif/harness/pgen"
)

var c24Names = []string{
	"deep nesting 30", "deep nesting 31", "deep nesting 200", "deep aggregate", "deep parentheses", "many fields", "many files", "many directories", "many enum values",
	"long line", "long comment", "many comments", "long names", "long path", "many imports", "many services", "large default", "empty file", "only comment", "only white space",
	"only syntax", "NUL bytes", "BOM", "CR line endings", "UTF-16", "latin-1", "invalid UTF-8 in string", "invalid UTF-8 in comment", "huge numbers", "reserved max", "dangling link", "directory named like a file",
	"unreadable file", "unreadable directory", "link cycle", "file replaced by link", "config is a directory", "config dangling link", "config unreadable", "config both", "alias bomb", "deep yaml", "deep json", "long yaml", "binary config",
	"descriptor without name", "descriptor without package", "oneof index out of range", "negative oneof index", "dangling type", "empty type name", "dot type name", "missing dependency", "import cycle", "same file twice", "same file different", "no input type", "self nested", "unknown enum numbers", "descriptor is a directory", "descriptor is empty",
	"file vanishes", "name is an option", "empty arguments", "very long argument", "many arguments",
}

func init() {
	core.Register(&core.Prop{ID: "C24", Level: "exploration", Run: runC24,
		Rule:  "every process ends in time with exit code 0, 1 or 255, without a panic, killed by no signal, and prints something when it fails; what protoc accepts, format, lint and break check process without an error of their own",
		Notes: []string{"Mutated texts that protoc accepts are only held to a verdict; the constructs themselves (feature) must be processed.", "A hang is an execution that has not ended after the time limit in two tries."}})
}

func runC24(c *core.Ctx) {
	c.Each("set", c.N(120, 4000), c24Set)
	done := make(chan bool)
	go func() { // mostly waits for a command that is known to hang
		c.Named("feature", featureNames(), c24Feature)
		close(done)
	}()
	c.Each("text", c.N(700, 40000), c24Text)
	c.Each("config", c.N(500, 20000), c24Config)
	c.Each("flags", c.N(700, 30000), c24Flags)
	c.Each("descriptor", c.N(350, 12000), c24Descriptor)
	c.Named("case", c24Names, c24Case)
	<-done
}

// verdict holds a result to the property.
func verdict(cs *core.Case, res *core.Res) bool {
	cs.C.Count(fmt.Sprintf("exit %d", res.Code), 1)
	switch {
	case res.Hung:
		cs.Fail("%v does not end", res.Args)
	case res.Panicked():
		cs.Fail("%v crashes:\n%s%s", res.Args, res.Out, res.Err)
	case res.Signal != "":
		cs.Fail("%v dies of %s", res.Args, res.Signal)
	case res.Code != 0 && res.Code != 1 && res.Code != 255:
		cs.Fail("%v exits with the undefined code %d:\n%s%s", res.Args, res.Code, res.Out, res.Err)
	case res.Code != 0 && strings.TrimSpace(res.Out+res.Err) == "":
		cs.Fail("%v exits with %d and gives no reason", res.Args, res.Code)
	case strings.Contains(res.Out+res.Err, "internal prototool error") || strings.Contains(res.Out+res.Err, "system error"):
		cs.Fail("%v gives an internal error:\n%s%s", res.Args, res.Out, res.Err)
	default:
		return true
	}
	return false
}

var findingRE = regexp.MustCompile(`^[A-Z0-9_]+:.*\.proto:\d+:\d+:.`)

var nobody = &syscall.Credential{Uid: 65534, Gid: 65534}

// process runs lint, format and break check on a directory protoc accepts.
func process(cs *core.Case, dir string, to time.Duration, groups []string) {
	r := cs.R
	opt := core.Opt{Dir: filepath.Join(cs.W, dir), Timeout: to}
	bin := filepath.Join(cs.Dir, "set.bin")
	pkgless := false
	if res := cs.Run(opt, "break", "descriptor-set", "-o", bin); !verdict(cs, res) {
		return
	} else if res.Code != 0 {
		cs.Fail("break descriptor-set fails on what protoc accepts:\n%s%s", res.Out, res.Err)
		return
	}
	res := cs.Run(opt, "break", "check", "-f", bin)
	if !verdict(cs, res) {
		return
	}
	for _, l := range res.Lines() {
		if strings.Contains(l, "no package on FileDescriptorProto") {
			pkgless = true
			continue
		}
		if !strings.Contains(l, "depends on beta package") {
			cs.Fail("break check of a set against itself: %s", l)
		}
	}
	if pkgless {
		cs.C.Count("sets without package", 1)
	}
	res = cs.Run(opt, "format", "-d")
	if !verdict(cs, res) {
		return
	}
	if res.Code != 0 && !strings.HasPrefix(res.Out, "diff ") && !strings.HasPrefix(res.Out, "---") {
		cs.Fail("format fails on what protoc accepts:\n%s%s", res.Out, res.Err)
		return
	}
	for _, g := range groups {
		conf := M{"group": g}
		if chance(r, 40) {
			conf["file_header"] = M{"content": pick(r, "x", "// not commented", "A header.\n\nOf three paragraphs.\n\nThe last one.", strings.Repeat("longer than the file ", 1+r.Intn(2000)), "ünï\tcöde", "syntax", "//", "%s %d", "*/"), "is_commented": chance(r, 30)}
		}
		if chance(r, 20) {
			conf["java_package_prefix"] = pick(r, "com", "io.x", "com.a.b", "1", "")
		}
		if g == "*" { // every rule there is
			var ids L
			for _, id := range lintIDs {
				ids = append(ids, id)
			}
			delete(conf, "group")
			conf["rules"] = M{"no_default": true, "add": ids}
		}
		res = cs.Run(opt, "lint", "--config-data", toJSON(M{"protoc": M{"allow_unused_imports": true}, "lint": conf}), "--error-format", "id:filename:line:column:message")
		if !verdict(cs, res) {
			return
		}
		for _, l := range res.Lines() {
			if !findingRE.MatchString(l) {
				cs.Fail("lint fails on what protoc accepts: %s", l)
				return
			}
		}
		cs.C.Count("findings", int64(len(res.Lines())))
	}
	if chance(r, 50) {
		res = cs.Run(opt, "format", "-d", "--fix")
		if verdict(cs, res) && res.Code != 0 && !strings.HasPrefix(res.Out, "diff ") && !strings.HasPrefix(res.Out, "---") {
			cs.Fail("format --fix fails on what protoc accepts:\n%s%s", res.Out, res.Err)
		}
	}
}

func c24Set(cs *core.Case) {
	r := cs.R
	cfg := fmtCfg(cs)
	cfg.Odd = chance(r, 30)
	cfg.Depth = r.Intn(6)
	s := pgen.Generate(r, cfg)
	cs.Write("d/prototool.yaml", "protoc:\n  allow_unused_imports: true\n")
	writeSet(cs, s, "d")
	if _, e := protocSet(cs, filepath.Join(cs.W, "d"), setFiles(s)...); e != "" {
		cs.C.Count("sets protoc rejects", 1)
		return
	}
	process(cs, "d", time.Minute, []string{"", "google", "uber1", "uber2", "*"}[r.Intn(4):])
	opt := core.Opt{Dir: filepath.Join(cs.W, "d")}
	for _, a := range [][]string{{"x", "inspect", "packages"}, {"descriptor-set", "--json", "--include-imports", "--include-source-info"}, {"lint", "--generate-ignores"}, {"lint", "--json"}, {"all", "--fix"}, {"generate", "--dry-run"}} {
		verdict(cs, cs.Run(opt, a...))
	}
	cs.Sig("%d", cs.I)
}

func c24Feature(cs *core.Case) {
	if _, _, ok := writeFeature(cs, "d"); !ok {
		cs.C.Count("features protoc rejects", 1)
		return
	}
	os.RemoveAll(filepath.Join(cs.W, "d", pgen.OptsPath) + ".x")
	process(cs, "d", 8*time.Second, []string{"uber1", "uber2", "google", "*"})
	cs.Sig("%s", features[cs.I].name)
}

var nastyTokens = []string{"message", "enum", "service", "rpc", "returns", "stream", "oneof", "map", "group", "extend", "extensions", "reserved", "option", "import", "package", "syntax", "to", "max", "optional", "required", "repeated",
	"{", "}", "[", "]", "(", ")", "<", ">", ";", ",", "=", ".", "-", ":", "/", "0", "-1", "1e9", "0x7f", "017", "99999999999999999999", "1.5", "inf", "nan", `""`, `"a"`, `"\x00\377"`, `"\\"`, "true", "int32", "string", "M", "a.b.C", ".a.B", "// c\n", "/* c */", "/**/", "\n\n", "///x\n", "//\n", "/* a\n * b\n */"}

// mutateText changes a source text; single quotes are left out, with which
// the parser is known not to end (feature/single-quotes-rpc).
func mutateText(r *rand.Rand, src string) string {
	switch r.Intn(8) {
	case 0: // bytes
		b := []byte(src)
		for i := 1 + r.Intn(4); i > 0 && len(b) > 0; i-- {
			p := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b[p] = byte(r.Intn(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b = append(b[:p], append([]byte{byte(r.Intn(256))}, b[p:]...)...)
			case 3:
				b[p] ^= 1 << uint(r.Intn(8))
			}
		}
		return strings.Replace(string(b), "'", "", -1)
	case 1: // cut
		if len(src) == 0 {
			return src
		}
		i := r.Intn(len(src))
		if chance(r, 50) {
			return src[:i]
		}
		j := i + r.Intn(len(src)-i)
		return src[:i] + src[j:]
	case 2: // lines
		l := strings.Split(src, "\n")
		i, j := r.Intn(len(l)), r.Intn(len(l))
		switch r.Intn(3) {
		case 0:
			l[i], l[j] = l[j], l[i]
		case 1:
			l = append(l[:i], l[i+1:]...)
		case 2:
			l = append(l[:i:i], append([]string{l[j]}, l[i:]...)...)
		}
		return strings.Join(l, "\n")
	}
	t := pgen.Tokenize(src)
	if len(t) == 0 {
		return src
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		i := r.Intn(len(t))
		x := t[i]
		at := strings.Index(src[min(len(src), x.Off):], x.Text)
		if at < 0 {
			return src
		}
		at += x.Off
		switch r.Intn(5) {
		case 0:
			src = src[:at] + src[at+len(x.Text):]
		case 1:
			src = src[:at] + nastyTokens[r.Intn(len(nastyTokens))] + src[at+len(x.Text):]
		case 2, 3:
			src = src[:at] + nastyTokens[r.Intn(len(nastyTokens))] + " " + src[at:]
		case 4:
			src = src[:at] + t[r.Intn(len(t))].Text + " " + src[at+len(x.Text):]
		}
		t = pgen.Tokenize(src)
		if len(t) == 0 {
			return src
		}
	}
	return src
}

func c24Text(cs *core.Case) {
	c, r := cs.C, cs.R
	cfg := fmtCfg(cs)
	cfg.Pkgs, cfg.FilesPerPkg, cfg.Defs, cfg.Self = 1, 1, 3, true
	s := pgen.Generate(r, cfg)
	writeSet(cs, s, "d")
	cs.Write("d/prototool.yaml", "protoc:\n  allow_unused_imports: true\nlint:\n  group: "+pick(r, "uber1", "uber2", "google")+"\n")
	f := s.Files[0]
	src := f.Render()
	if chance(r, 30) {
		os.Remove(filepath.Join(cs.W, "d", f.Path))
		f.Path = filepath.Join(filepath.Dir(f.Path), pick(r, "_", "__", "", "1", "é", "a b", "a..b", ".", "..a", "A", "_a", "a_", "a-b", "-", "日本", "a.proto", "%s", "aB1", "1a")+".proto")
		c.Count("odd file names", 1)
	}
	text := src
	accepted := false
	for try := 0; try < 12; try++ {
		text = mutateText(r, src)
		cs.Write(filepath.Join("d", f.Path), text)
		res := protocCheck(cs, filepath.Join(cs.W, "d"), f.Path)
		accepted = res.Code == 0
		if accepted && text != src || try > 5 && chance(r, 20) {
			break
		}
	}
	if accepted {
		c.Count("mutated texts protoc accepts", 1)
	} else {
		c.Count("mutated texts protoc rejects", 1)
	}
	opt := core.Opt{Dir: filepath.Join(cs.W, "d")}
	before := core.Snapshot(cs.W)
	for _, a := range [][]string{{"lint"}, {"format", "-d"}, {"format", "-l", "--fix"}, {"compile"}} {
		res := cs.Run(opt, a...)
		if !verdict(cs, res) {
			cs.Note("text:\n%s", text)
			return
		}
		if !accepted && res.Code == 0 {
			cs.Fail("%v accepts what protoc rejects:\n%s", a, text)
		}
	}
	if d := core.DiffSnap(before, core.Snapshot(cs.W)); len(d) > 0 {
		cs.Fail("changed:\n%s", strings.Join(d, "\n"))
	}
	cs.Sig("%s", text)
}

func c24Config(cs *core.Case) {
	c, r := cs.C, cs.R
	cs.Write("d/a/v1/a.proto", "syntax = \"proto3\";\n\npackage a.v1;\n\nmessage M {}\n")
	conf := randConf(r)
	text, name := toYAML(conf, 0), "prototool.yaml"
	if chance(r, 40) {
		text, name = toJSON(conf), "prototool.json"
	}
	nasty := []string{": ", "- ", "\t", "{", "}", "[", "]", "&a ", "*a", "!!binary ", "!!map ", "<<: ", "|\n", ">\n", "? ", "---\n", "...\n", "%YAML 9\n", "#", "\"", "'", "~", "null", "true", "1e999", "0x", "\x00", "\xff", "\u2028", "2020-01-01", "!!js ", "@", "`", "\r", ","}
	for n := 1 + r.Intn(4); n > 0; n-- {
		b := []byte(text)
		p := r.Intn(len(b) + 1)
		switch r.Intn(6) {
		case 0, 1:
			text = text[:p] + nasty[r.Intn(len(nasty))] + text[p:]
		case 2:
			q := p + r.Intn(len(b)-p+1)
			text = text[:p] + text[q:]
		case 3:
			if p < len(b) {
				b[p] = byte(r.Intn(256))
				text = string(b)
			}
		case 4:
			l := strings.Split(text, "\n")
			i, j := r.Intn(len(l)), r.Intn(len(l))
			l[i], l[j] = l[j], l[i]
			text = strings.Join(l, "\n")
		case 5:
			l := strings.Split(text, "\n")
			i := r.Intn(len(l))
			l[i] = "  " + l[i]
			text = strings.Join(l, "\n")
		}
	}
	cs.Write("d/"+name, text)
	cs.Note("%s:\n%s", name, text)
	opt := core.Opt{Dir: filepath.Join(cs.W, "d"), Fake: &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}}}
	first := -1
	for i, a := range [][]string{{"files"}, {"lint", "--list-linters"}, {"generate", "--dry-run"}, {"lint"}, {"create", "b/b.proto"}} {
		if a[0] == "create" {
			cs.Mkdir("d/b")
		}
		if a[0] == "lint" && len(a) == 1 {
			opt.Fake = nil
		}
		res := cs.Run(opt, a...)
		if !verdict(cs, res) {
			return
		}
		if i == 0 {
			first = res.Code
		}
		if first != 0 && res.Code == 0 && a[0] != "create" {
			cs.Fail("%v accepts a configuration that files rejects", a)
		}
	}
	c.Count(fmt.Sprintf("configurations with exit %d", first), 1)
	if name == "prototool.json" && !strings.ContainsRune(text, 0) {
		verdict(cs, cs.Run(opt, "files", "--config-data", text))
	}
	cs.Sig("%s", text)
}

// randConf makes a configuration with every key used somewhere.
func randConf(r *rand.Rand) M {
	conf := M{}
	if chance(r, 50) {
		conf["excludes"] = L{"b", "c/d.proto"}
	}
	if chance(r, 60) {
		conf["protoc"] = M{"version": pick(r, "3.11.0", "3.1", ""), "includes": L{"."}, "allow_unused_imports": true}
	}
	if chance(r, 60) {
		conf["create"] = M{"packages": L{M{"directory": "b", "name": "foo.b"}}}
	}
	if chance(r, 60) {
		conf["lint"] = M{"group": pick(r, "uber1", "uber2", "google", "empty"), "ignores": L{M{"id": "MESSAGES_HAVE_COMMENTS", "files": L{"a", "b/c.proto"}}}, "rules": M{"no_default": chance(r, 20), "add": L{"MESSAGE_NAMES_CAMEL_CASE"}, "remove": L{"ENUMS_HAVE_COMMENTS"}}, "file_header": M{"content": "x\ny", "is_commented": false}, "java_package_prefix": "com", "allow_suppression": false}
	}
	if chance(r, 30) {
		conf["break"] = M{"include_beta": true, "allow_beta_deps": false}
	}
	if chance(r, 60) {
		conf["generate"] = M{"go_options": M{"import_path": "x/y", "extra_modifiers": M{"a.proto": "b"}}, "plugins": L{M{"name": "go", "type": "go", "flags": "plugins=grpc", "output": "gen"}, M{"name": "descriptor_set", "output": "g2", "file_suffix": "bin", "include_imports": true}}}
	}
	return conf
}

func c24Flags(cs *core.Case) {
	r := cs.R
	hdr := "syntax = \"proto3\";\n\npackage a.v1;\n\n"
	cs.Write("d/prototool.yaml", "generate:\n  plugins:\n    - name: descriptor_set\n      output: gen\n      file_suffix: bin\n")
	cs.Write("d/a/v1/a.proto", hdr+"message M {\n  int32 x = 1;\n}\n\nservice S {\n  rpc R(M) returns (M);\n}\n")
	cs.Write("d/a/v1/b.proto", pick(r, hdr+"message  N {}\n", hdr+"import \"a/v1/a.proto\";\n\nmessage N {\n  M m = 1;\n}\n", hdr+"message N {\n  Nope x = 1;\n}\n", "", "junk"))
	cs.Write("d/x.txt", "hello")
	cs.Write("d/x.bin", "\x0a\x03\x0a\x01a")
	cs.Mkdir("d/empty")
	flags := map[string][]string{
		"--cache-path": {"../cache", "", "x.txt"}, "--config-data": {"{}", "", "{", `{"lint":{"group":"nope"}}`, `{"excludes":["a"]}`, `{"lint":{"group":"empty"}}`, "null", "[]", "1"}, "--debug": nil, "--error-format": {"message", "filename:line:column:id:message", "", ":", "nope", "line:line", "id"},
		"--json": nil, "--walk-timeout": {"3s", "0s", "1ns", "-1s", "x", "", "1h"}, "--protoc-bin-path": {core.RealProtoc, "nope", "", "/bin/false", "/bin/true", "x.txt", "/bin/cat"}, "--protoc-wkt-path": {core.RealWKT, "", "nope"}, "--protoc-url": {"http://127.0.0.1:1/x.zip", "", ":", "ftp://x", "file:///nope"},
		"--disable-format": nil, "--disable-lint": nil, "--fix": nil, "-d": nil, "-l": nil, "-w": nil, "--dry-run": nil, "--git-branch": {"x", ""}, "--descriptor-set-path": {"x.bin", "x.txt", "", "nope", "empty"}, "-o": {"out.bin", "", "empty", "nope/out.bin"}, "--tmp": nil, "--include-imports": nil, "--include-source-info": nil,
		"--package": {"foo.v1", "", "..", "1a", "a-b"}, "--name": {"a.v1", "", "nope"}, "--document": nil, "--uncomment": nil, "--list-all-linters": nil, "--list-linters": nil, "--list-all-lint-groups": nil, "--list-lint-group": {"uber2", "", "nope"}, "--diff-lint-groups": {"uber1,uber2", "uber1", "", "a,b", "uber1,uber2,google"}, "--generate-ignores": nil,
		"--address": {"127.0.0.1:1", "", "unix:///nope", "x:y:z", ":"}, "--method": {"a.v1.S/R", "", "S/R", "a.v1.S/Nope", "/", "a.v1.S.R", "a.v1.S/"}, "--data": {"{}", "", "{", `{"x":1}`, `{"x":"y"}`, "null"}, "--stdin": nil, "--details": nil, "--header": {"a:b", "", ":", "a", "A B:c", "a:b,c:d"}, "--call-timeout": {"1s", "", "x", "-1s"}, "--connect-timeout": {"200ms", "", "x"}, "--keepalive-time": {"10s", "", "x"},
		"--tls": nil, "--insecure": nil, "--cacert": {"x.txt", "", "nope"}, "--cert": {"x.txt", ""}, "--key": {"x.txt", ""}, "--server-name": {"x", ""}, "--help": nil, "--nope": nil,
	}
	per := map[string][]string{
		"all":         {"--cache-path", "--config-data", "--disable-format", "--disable-lint", "--error-format", "--json", "--fix", "--protoc-bin-path", "--protoc-wkt-path", "--protoc-url", "--walk-timeout"},
		"break check": {"--cache-path", "--config-data", "--descriptor-set-path", "--git-branch", "--json", "--protoc-bin-path", "--walk-timeout"}, "break descriptor-set": {"--config-data", "--error-format", "--json", "-o", "--protoc-bin-path"},
		"compile": {"--config-data", "--dry-run", "--error-format", "--json", "--protoc-bin-path", "--protoc-wkt-path", "--walk-timeout", "--protoc-url"}, "create": {"--config-data", "--package"}, "descriptor-set": {"--config-data", "--error-format", "--include-imports", "--include-source-info", "--json", "-o", "--tmp", "--protoc-bin-path"},
		"files": {"--config-data", "--walk-timeout"}, "format": {"--config-data", "-d", "-l", "-w", "--fix", "--error-format", "--json", "--protoc-bin-path"}, "generate": {"--config-data", "--dry-run", "--error-format", "--json", "--protoc-bin-path"},
		"grpc":               {"--address", "--method", "--data", "--stdin", "--details", "--header", "--call-timeout", "--connect-timeout", "--keepalive-time", "--tls", "--insecure", "--cacert", "--cert", "--key", "--server-name", "--error-format", "--config-data"},
		"x inspect packages": {"--config-data", "--error-format"}, "x inspect package-deps": {"--name", "--config-data"}, "x inspect package-importers": {"--name", "--error-format"}, "config init": {"--document", "--uncomment"},
		"lint": {"--config-data", "--error-format", "--json", "--list-all-linters", "--list-linters", "--list-all-lint-groups", "--list-lint-group", "--diff-lint-groups", "--generate-ignores", "--walk-timeout", "--protoc-bin-path"}, "version": {"--json"}, "help": nil, "": nil, "break": nil, "x": nil, "x inspect": nil, "nope": nil, "cache update": {"--cache-path", "--config-data"},
	}
	m := map[string]bool{}
	for k := range per {
		m[k] = true
	}
	cmds := sortedKeys(m)
	cmd := cmds[r.Intn(len(cmds))]
	args := strings.Fields(cmd)
	all := map[string]bool{}
	for k := range flags {
		all[k] = true
	}
	for n := r.Intn(5); n > 0; n-- {
		var f string
		if l := per[cmd]; len(l) > 0 && !chance(r, 5) {
			f = l[r.Intn(len(l))]
		} else {
			f = sortedKeys(all)[r.Intn(len(all))]
		}
		if cmd == "cache update" && f == "--protoc-url" {
			continue
		}
		args = append(args, f)
		if v := flags[f]; v != nil && !chance(r, 2) {
			args = append(args, v[r.Intn(len(v))])
		}
	}
	if cmd == "grpc" && chance(r, 60) {
		args = append(args, "--address", "127.0.0.1:1", "--method", "a.v1.S/R", "--data", "{}", "--connect-timeout", "200ms")
	}
	for n := []int{0, 1, 1, 1, 2}[r.Intn(5)]; n > 0; n-- {
		args = append(args, pick(r, ".", "a/v1", "a/v1/a.proto", "a/v1/b.proto", "x.txt", "empty", "nope", "", "./a/../a/v1/", "new.proto", "nodir/new.proto", "a/v1/new.proto", "-", "--", "..", "empty/n.proto"))
	}
	bin := []string{"", "PROTOTOOL_PROTOC_BIN_PATH=nope"}[r.Intn(8)/7]
	opt := core.Opt{Dir: filepath.Join(cs.W, "d"), Stdin: pick(r, "", "{}", "{} {}", "junk")}
	if bin != "" {
		opt.Env = []string{bin}
	}
	res := cs.Run(opt, args...)
	if cmd == "help" || cmd == "" || cmd == "break" || cmd == "x" || cmd == "x inspect" {
		// usage
	}
	if res.Code != 0 && strings.TrimSpace(res.Out+res.Err) == "" && quietFailure(args) {
		cs.C.Count("failures outside the named file", 1)
		return
	}
	if verdict(cs, res) {
		cs.Sig("%v", args)
	}
}

// quietFailure tells whether a failure without output is as documented: of a
// named file, only its own failures are printed, and a protoc that fails
// silently has nothing to relay but is named.
func quietFailure(args []string) bool {
	for _, a := range args {
		if strings.HasSuffix(a, ".proto") || a == "x.txt" || a == "x.bin" {
			return true
		}
		if a == "--error-format" {
			return true // the field may be empty
		}
	}
	return false
}

func c24Descriptor(cs *core.Case) {
	c, r := cs.C, cs.R
	s := pgen.Generate(r, breakCfg(cs))
	cs.Write("d/prototool.yaml", "protoc:\n  allow_unused_imports: true\n")
	writeSet(cs, s, "d")
	set, e := protocSet(cs, filepath.Join(cs.W, "d"), setFiles(s)...)
	if e != "" {
		c.Count("sets protoc rejects", 1)
		return
	}
	b := []byte(marshalSet(set))
	if chance(r, 60) {
		for n := 1 + r.Intn(4); n > 0 && len(b) > 1; n-- {
			p := r.Intn(len(b))
			switch r.Intn(5) {
			case 0:
				b[p] = byte(r.Intn(256))
			case 1:
				b[p] ^= 1 << uint(r.Intn(8))
			case 2:
				b = b[:p]
			case 3:
				q := p + r.Intn(len(b)-p)
				b = append(b[:p:p], b[q:]...)
			case 4:
				q := p + r.Intn(min(len(b)-p, 60))
				b = append(b[:q:q], append(append([]byte{}, b[p:q]...), b[q:]...)...)
			}
		}
	} else {
		// well-formed, but no protoc would write it
		m := &mutator{r: r, s: set}
		for n := 1 + r.Intn(3); n > 0; n-- {
			hostileEdit(m)
		}
		for _, l := range m.log {
			cs.Note("%s", l)
			c.Count("edit: "+l, 1)
		}
		b = []byte(marshalSet(set))
	}
	cs.Write("x.bin", string(b))
	res := cs.Run(core.Opt{Dir: filepath.Join(cs.W, "d")}, "break", "check", "-f", "../x.bin")
	if verdict(cs, res) {
		cs.Sig("%x", b)
	}
}

func marshalSet(s *fset) string {
	b, err := proto.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func hostileEdit(m *mutator) {
	r := m.r
	say := func(s string) { m.log = append(m.log, s) }
	f := m.file()
	x := m.msg()
	var y *descriptor.FieldDescriptorProto
	if x != nil && len(x.Field) > 0 {
		y = x.Field[r.Intn(len(x.Field))]
	}
	for try := 0; try < 20; try++ {
		switch r.Intn(16) {
		case 0:
			if y != nil {
				say("oneof index out of range")
				y.OneofIndex = ip([]int32{7, -1, 1 << 30, -1 << 31}[r.Intn(4)])
				return
			}
		case 1:
			if y != nil {
				say("type name gone")
				y.TypeName = nil
				return
			}
		case 2:
			if y != nil && y.TypeName != nil {
				say("odd type name")
				y.TypeName = sp(pick(r, "", ".", "..", "x", ".nope.N", "a.b."))
				return
			}
		case 3:
			say("file without package")
			f.Package = nil
			return
		case 4:
			say("odd package")
			f.Package = sp(pick(r, "", ".", ".a", "a..b", "\xff", "a b"))
			return
		case 5:
			say("file without name")
			f.Name = nil
			return
		case 6:
			say("dependency on nothing")
			f.Dependency = append(f.Dependency, pick(r, "nope.proto", "", f.GetName()))
			return
		case 7:
			say("file twice")
			m.s.File = append(m.s.File, proto.Clone(f).(*fdp))
			return
		case 8:
			g := proto.Clone(f).(*fdp)
			g.MessageType = append(g.MessageType, m.newMsg())
			m.s.File = append(m.s.File, g)
			say("file twice and different")
			return
		case 9:
			if y != nil {
				say("unknown type or label")
				t, l := descriptor.FieldDescriptorProto_Type(r.Intn(40)-5), descriptor.FieldDescriptorProto_Label(r.Intn(9)-2)
				y.Type, y.Label = &t, &l
				return
			}
		case 10:
			if y != nil {
				say("field without number, name or type")
				switch r.Intn(4) {
				case 0:
					y.Number = nil
				case 1:
					y.Name = nil
				case 2:
					y.Type = nil
				case 3:
					y.Label = nil
				}
				return
			}
		case 11:
			if x != nil {
				say("message without name")
				x.Name = nil
				return
			}
		case 12:
			if x != nil && len(x.Field) > 0 {
				say("field twice")
				x.Field = append(x.Field, proto.Clone(x.Field[0]).(*descriptor.FieldDescriptorProto))
				return
			}
		case 13:
			if len(f.Service) > 0 && len(f.Service[0].Method) > 0 {
				say("odd method type")
				f.Service[0].Method[0].InputType = sp(pick(r, "", ".", "x", ".nope.N"))
				return
			}
		case 14:
			if x != nil && len(x.OneofDecl) > 0 {
				say("oneofs of one name")
				x.OneofDecl = append(x.OneofDecl, proto.Clone(x.OneofDecl[0]).(*descriptor.OneofDescriptorProto))
				return
			}
		case 15:
			say("empty file")
			m.s.File = append(m.s.File, &fdp{})
			return
		}
	}
}

func c24Case(cs *core.Case) {
	name := c24Names[cs.I]
	hdr := "syntax = \"proto3\";\n\npackage a.v1;\n\n"
	rep := strings.Repeat
	d := filepath.Join(cs.W, "d")
	cs.Mkdir("d")
	opt := core.Opt{Dir: d, Timeout: 60 * time.Second}
	text := ""
	file := "d/a.proto"
	num := func() (n int) { fmt.Sscanf(name, "deep nesting %d", &n); return }
	nested := func(n int) string {
		return hdr + rep("message M { ", n) + "int32 x = 1;" + rep("}", n) + "\n"
	}
	cmds := [][]string{{"files"}, {"compile"}, {"lint"}, {"format", "-d"}, {"format", "-w", "--fix"}, {"break", "descriptor-set", "-o", filepath.Join(cs.Dir, "x.bin")}, {"break", "check", "-f", filepath.Join(cs.Dir, "x.bin")}, {"x", "inspect", "packages"}, {"lint", "--generate-ignores"}, {"all"}}
	set := &fset{File: []*fdp{{Name: sp("a.proto"), Package: sp("a.v1"), MessageType: []*mdp{{Name: sp("M"), OneofDecl: []*descriptor.OneofDescriptorProto{{Name: sp("o")}}, Field: []*descriptor.FieldDescriptorProto{{Name: sp("x"), Number: ip(1), Type: descriptor.FieldDescriptorProto_TYPE_MESSAGE.Enum(), Label: descriptor.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), TypeName: sp(".a.v1.M"), OneofIndex: ip(0)}}}},
		Service: []*descriptor.ServiceDescriptorProto{{Name: sp("S"), Method: []*descriptor.MethodDescriptorProto{{Name: sp("R"), InputType: sp(".a.v1.M"), OutputType: sp(".a.v1.M")}}}}}}}
	useSet := false
	yaml, conf := "", "prototool.yaml"
	field := set.File[0].MessageType[0].Field[0]
	switch name {
	case "deep nesting 30", "deep nesting 31", "deep nesting 200":
		text = nested(num())
	case "deep aggregate":
		text = "syntax = \"proto2\";\n\npackage a.v1;\n\nimport \"google/protobuf/descriptor.proto\";\n\nmessage O {\n  optional O o = 1;\n}\n\nextend google.protobuf.FileOptions {\n  optional O o = 50000;\n}\n\noption (o) = " + rep("{ o: ", 90) + "{}" + rep(" }", 90) + ";\n"
	case "deep parentheses":
		text = hdr + "option java_package = " + rep("(", 5000) + ";\n"
	case "many fields":
		text = hdr + "message M {\n"
		for i := 1; i < 5000; i++ {
			text += fmt.Sprintf("  // Field.\n  repeated int32 field_%d = %d;\n", i, i+20000)
		}
		text += "}\n"
	case "many files", "many directories":
		n := 1500
		if name == "many directories" {
			n = 150
		}
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("d/f%d.proto", i)
			if name == "many directories" {
				p = fmt.Sprintf("d/d%d/f.proto", i)
			}
			cs.Write(p, fmt.Sprintf("syntax = \"proto3\";\n\npackage a.v1;\n\nmessage M%d {}\n", i))
		}
		text = hdr
	case "many enum values":
		text = hdr + "enum E {\n  E_INVALID = 0;\n"
		for i := 1; i < 5000; i++ {
			text += fmt.Sprintf("  E_%d = %d;\n", i, i)
		}
		text += "}\n"
	case "long line":
		text = hdr + "message M { " + rep("reserved 1; ", 0)
		for i := 1; i < 3000; i++ {
			text += fmt.Sprintf("int32 f%d = %d; ", i, i+20000)
		}
		text += "}\n"
	case "long comment":
		text = hdr + "/* " + rep("word ", 100000) + "*/\nmessage M {}\n"
	case "many comments":
		text = hdr + rep("// c\n", 20000) + "message M {}\n"
	case "long names":
		text = hdr + "message M" + rep("x", 60000) + " {\n  int32 f" + rep("_y", 30000) + " = 1;\n}\n"
	case "long path":
		file = "d/" + rep(rep("p", 100)+"/", 15) + "a.proto"
		text = hdr + "message M {}\n"
	case "many imports":
		text = hdr
		for i := 0; i < 400; i++ {
			cs.Write(fmt.Sprintf("d/i%d.proto", i), hdr)
			text += fmt.Sprintf("import \"i%d.proto\";\n", 399-i)
		}
	case "many services":
		text = hdr + "message M {}\n"
		for i := 0; i < 500; i++ {
			text += fmt.Sprintf("service S%d {\n  rpc A(M) returns (M);\n  rpc B(stream M) returns (stream M);\n}\n", i)
		}
	case "large default":
		text = "syntax = \"proto2\";\n\npackage a.v1;\n\nmessage M {\n  optional string x = 1 [default = \"" + rep("\\x41", 50000) + "\"];\n}\n"
	case "empty file":
	case "only comment":
		text = "// hello\n"
	case "only white space":
		text = " \n\t\n\n"
	case "only syntax":
		text = "syntax = \"proto3\";"
	case "NUL bytes":
		text = hdr + "\x00message M {}\x00\n"
	case "BOM":
		text = "\xef\xbb\xbf" + hdr + "message M {}\n"
	case "CR line endings":
		text = strings.Replace(hdr+"// c\nmessage M {}\n", "\n", "\r", -1)
	case "UTF-16":
		for _, x := range hdr {
			text += string([]byte{byte(x), 0})
		}
	case "latin-1":
		text = hdr + "// gr\xfc\xdfe\nmessage M {}\n"
	case "invalid UTF-8 in string":
		text = hdr + "option java_package = \"\xff\xfe\";\n"
	case "invalid UTF-8 in comment":
		text = hdr + "// \xff\xfe\n/* \xc0 */\nmessage M {}\n"
	case "huge numbers":
		text = hdr + "message M {\n  int32 x = 99999999999999999999;\n}\n"
	case "reserved max":
		text = hdr + "message M {\n  reserved 1 to max;\n}\n\nenum E {\n  E_INVALID = 0;\n  reserved 2147483647;\n  reserved 5 to 2147483646;\n}\n"
	case "dangling link":
		os.Symlink("nope.proto", filepath.Join(d, "a.proto"))
		text = "-"
	case "directory named like a file":
		cs.Write("d/x.proto/a.proto", hdr+"message M {}\n")
		text = "-"
	case "unreadable file":
		cs.Write("d/a.proto", hdr)
		os.Chmod(filepath.Join(d, "a.proto"), 0)
		opt.Cred = nobody
		text = "-"
	case "unreadable directory":
		cs.Write("d/s/a.proto", hdr)
		os.Chmod(filepath.Join(d, "s"), 0)
		opt.Cred = nobody
		text = "-"
	case "link cycle":
		os.Symlink("b.proto", filepath.Join(d, "a.proto"))
		os.Symlink("a.proto", filepath.Join(d, "b.proto"))
		os.Symlink(".", filepath.Join(d, "self"))
		text = "-"
	case "file replaced by link":
		cs.Write("o/a.proto", hdr+"message  M {}\n")
		os.Symlink("../o/a.proto", filepath.Join(d, "a.proto"))
		text = "-"
	case "config is a directory":
		cs.Mkdir("d/prototool.yaml")
	case "config dangling link":
		os.Symlink("nope", filepath.Join(d, "prototool.yaml"))
	case "config unreadable":
		cs.Write("d/prototool.yaml", "excludes: []\n")
		os.Chmod(filepath.Join(d, "prototool.yaml"), 0)
		opt.Cred = nobody
	case "config both":
		cs.Write("d/prototool.yaml", "excludes: []\n")
		cs.Write("d/prototool.json", "{}")
	case "alias bomb":
		yaml = "excludes:\n  - &a [x,x,x,x,x,x,x,x,x,x]\n"
		for i := 'b'; i < 'k'; i++ {
			yaml += fmt.Sprintf("  - &%c [%s*%c]\n", i, rep(fmt.Sprintf("*%c,", i-1), 9), i-1)
		}
	case "deep yaml":
		yaml = "lint: " + rep("[", 9000) + "\n"
	case "deep json":
		conf, yaml = "prototool.json", `{"lint":`+rep("[", 20000)
	case "long yaml":
		yaml = "excludes:\n" + rep("  - some/dir\n", 20000)
	case "binary config":
		yaml = "\x00\x01\x02\xff\xfe"
	case "descriptor without name":
		set.File[0].Name, useSet = nil, true
	case "descriptor without package":
		set.File[0].Package, useSet = nil, true
	case "oneof index out of range":
		field.OneofIndex, useSet = ip(1), true
	case "negative oneof index":
		field.OneofIndex, useSet = ip(-1), true
	case "dangling type":
		field.TypeName, useSet = sp(".x.Y"), true
	case "empty type name":
		field.TypeName, useSet = sp(""), true
	case "dot type name":
		field.TypeName, useSet = sp("."), true
	case "missing dependency":
		set.File[0].Dependency, useSet = []string{"nope.proto"}, true
	case "import cycle":
		set.File[0].Dependency, useSet = []string{"b.proto"}, true
		set.File = append(set.File, &fdp{Name: sp("b.proto"), Package: sp("b.v1"), Dependency: []string{"a.proto"}})
	case "same file twice":
		set.File, useSet = append(set.File, set.File[0]), true
	case "same file different":
		set.File, useSet = append(set.File, &fdp{Name: sp("a.proto"), Package: sp("a.v1")}), true
	case "no input type":
		set.File[0].Service[0].Method[0].InputType, useSet = nil, true
	case "self nested":
		x := &mdp{Name: sp("M")}
		for i := 0; i < 3000; i++ {
			x = &mdp{Name: sp("M"), NestedType: []*mdp{x}}
		}
		set.File[0].MessageType, useSet = []*mdp{x}, true
	case "unknown enum numbers":
		t, l := descriptor.FieldDescriptorProto_Type(99), descriptor.FieldDescriptorProto_Label(77)
		field.Type, field.Label, useSet = &t, &l, true
	case "descriptor is a directory":
		cmds = [][]string{{"break", "check", "-f", "."}}
	case "descriptor is empty":
		set, useSet = &fset{}, true
	case "file vanishes":
		opt.Fake = &core.FakeConf{Rules: []core.FakeRule{{Match: ""}}}
		cmds = [][]string{{"format", "-d"}, {"lint"}}
		os.Symlink("gone", filepath.Join(d, "z.proto"))
		text = hdr
	case "name is an option":
		file = "d/-o.proto"
		text = hdr + "message M {}\n"
	case "empty arguments":
		text = hdr
		cmds = [][]string{{""}, {"files", ""}, {"lint", ""}, {"create", ""}, {"files", "--config-data", ""}, {"break", "check", "-f", ""}, {"config", "init", ""}}
	case "very long argument":
		text = hdr
		cmds = [][]string{{"files", rep("a/", 5000)}, {"lint", "--error-format", rep("line:", 5000) + "line"}, {"files", "--config-data", `{"excludes":["` + rep("x", 100000) + `"]}`}, {"create", rep("n", 300) + ".proto"}}
	case "many arguments":
		a := []string{"create"}
		for i := 0; i < 3000; i++ {
			a = append(a, fmt.Sprintf("n%d.proto", i))
		}
		cmds = [][]string{append([]string{"files"}, a[1:]...), a, {"lint"}}
	}
	if text != "-" {
		cs.Write(file, text)
	}
	if yaml != "" {
		cs.Write("d/"+conf, yaml)
	}
	if useSet {
		cs.Write(file, hdr+"message M {\n  oneof o {\n    M x = 1;\n  }\n}\n\nservice S {\n  rpc R(M) returns (M);\n}\n")
		ioutil.WriteFile(filepath.Join(cs.Dir, "y.bin"), []byte(marshalSet(set)), 0644)
		cmds = [][]string{{"break", "check", "-f", filepath.Join(cs.Dir, "y.bin")}}
	}
	for _, a := range cmds {
		res := cs.Run(opt, a...)
		if !verdict(cs, res) {
			return
		}
	}
	cs.Sig("%s", name)
}
