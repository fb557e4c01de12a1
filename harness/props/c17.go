package props

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C17", Level: "exploration", Run: runC17,
		Rule:  "random directory trees with nested configurations, package mappings (nested, sharing a prefix, relative, outside), groups, headers and java prefixes; create is run from anywhere for one or several files: each must hold protoc's descriptor of exactly the reference package and options below the configured header, compile, and pass the group's package and file option rules, and nothing else may change. Failing runs (missing directory, existing file, bad configuration, write failure part way, no permission) must exit non-zero, leave non-empty files alone and every other target untouched or complete. Non-trivial: a file was created or a failure was observed; distinct by package, group and configuration.",
		Notes: []string{"the directories have names that can be part of a package; for others the documented package is no valid one", "which of several files are created when another one fails is not specified; that none is half-written is"}})
}

func runC17(c *core.Ctx) {
	c.Each("create", c.N(1300, 20000), c17Create)
	c.Each("fault", c.N(500, 6000), c17Fault)
}

type c17Conf struct {
	dir              string // relative to the root, "" for the root
	group            string
	prefix, header   string
	maps             map[string]string // cleaned directory relative to dir -> package
	def              bool              // no configuration at all
	text             string
	headerBody, hdir string
}

var c17Dirs = []string{"", "a", "a/b", "a/bc", "a/b/c", "ab", "ab/v1", "a/b/v1", "idl", "idl/code.uber", "idl/code.uber/x", "idl/v2beta1", "idl/idl", "A/Up", "a_b/c_d/v3", "message/enum", "idl/code", "a/b/c/d/e/v1", "_x", "x1/v0"}

func c17MkConf(cs *core.Case, dir string, asJSON bool) *c17Conf {
	r := cs.R
	f := &c17Conf{dir: dir, maps: map[string]string{}}
	conf, lint := M{}, M{}
	f.group = pick(r, "", "", "uber1", "uber2", "uber2", "UBER2", "Uber1", "google", "empty")
	if f.group != "" {
		lint["group"] = f.group
	}
	f.prefix = pick(r, "", "", "org", "au.com")
	if f.prefix != "" {
		lint["java_package_prefix"] = f.prefix
	}
	if chance(r, 40) {
		h := headers[r.Intn(len(headers))]
		fh := M{}
		if chance(r, 50) {
			h = commentedHeaders[r.Intn(len(commentedHeaders))]
			fh["is_commented"] = true
		}
		f.header = h.lines
		if chance(r, 50) {
			fh["content"] = h.body
		} else {
			p := pick(r, "hdr.txt", "lic/header.txt", "../up.txt")
			f.hdir, f.headerBody = p, h.body
			fh["path"] = p
		}
		lint["file_header"] = fh
	}
	if len(lint) > 0 {
		conf["lint"] = lint
	}
	if chance(r, 65) {
		var l L
		for i := 1 + r.Intn(4); i > 0; i-- {
			// mostly directories of the tree, as seen from here
			d := rel("/"+dir, "/"+c17Dirs[r.Intn(len(c17Dirs))])
			if d == "" {
				d = "."
			}
			if chance(r, 15) {
				d = pick(r, ".", "a", "nowhere", "a/b", "..", "code")
			}
			d = filepath.Clean(d)
			if f.maps[d] != "" {
				continue
			}
			p := pick(r, "bar", "uber", "special.v1", "foo.bar", "foo.v1beta2", "Foo_bar", "x.y.z.v9", "a.b")
			f.maps[d] = p
			sp := d
			switch r.Intn(5) {
			case 0:
				sp = d + "/"
			case 1:
				sp = "./" + d
			case 2:
				sp = d + "/../" + filepath.Base(d)
				if d == "." || strings.HasSuffix(d, "..") {
					sp = d
				}
			}
			l = append(l, M{"directory": sp, "name": p})
		}
		if len(l) > 0 {
			conf["create"] = M{"packages": l}
		}
	}
	f.text = toYAML(conf, 0)
	if asJSON || chance(r, 30) {
		f.text = toJSON(conf)
	}
	return f
}

// pkg is the package of a file below dir (relative to the root).
func (f *c17Conf) pkg(dir string) string {
	def := "uber.prototool.generated"
	if strings.ToLower(f.group) == "uber2" {
		def = "uber.prototool.generated.v1"
	}
	if f.def {
		return def
	}
	base, name := "/"+f.dir, ""
	best := -1
	for d, p := range f.maps {
		abs := filepath.Clean("/X/X/w/r/" + f.dir + "/" + d) // may be above the root
		if within(abs, filepath.Clean("/X/X/w/r/"+dir)) && len(abs) > best {
			best, base, name = len(abs), abs, p
		}
	}
	if best < 0 && !within(filepath.Clean("/"+f.dir), filepath.Clean("/"+dir)) {
		return def // configuration data from another directory
	}
	below := ""
	if best < 0 {
		below = rel(filepath.Clean("/"+f.dir), filepath.Clean("/"+dir))
	} else {
		below = rel(base, filepath.Clean("/X/X/w/r/"+dir))
	}
	if below == "." {
		below = ""
	}
	below = strings.Replace(below, "/", ".", -1)
	switch {
	case name == "" && below == "":
		return def
	case name == "":
		return below
	case below == "":
		return name
	}
	return name + "." + below
}

type c17Tree struct {
	root  string
	confs map[string]*c17Conf
	dirs  []string
}

func c17Setup(cs *core.Case) *c17Tree {
	r := cs.R
	t := &c17Tree{root: filepath.Join(cs.W, "r"), confs: map[string]*c17Conf{}}
	for _, d := range c17Dirs {
		cs.Mkdir("r/" + d)
		t.dirs = append(t.dirs, d)
	}
	at := []string{""}
	if chance(r, 12) {
		at = nil
	}
	for i := r.Intn(3); i > 0; i-- {
		at = append(at, c17Dirs[r.Intn(len(c17Dirs))])
	}
	for _, d := range uniq(at) {
		f := c17MkConf(cs, d, false)
		t.confs[d] = f
		name := "prototool.yaml"
		if strings.HasPrefix(f.text, "{") {
			name = "prototool.json"
		}
		cs.Write("r/"+filepath.Join(d, name), f.text)
		f.putHeader(cs)
	}
	return t
}

func (f *c17Conf) putHeader(cs *core.Case) {
	if f.hdir != "" {
		cs.Write(filepath.Join("r", f.dir, f.hdir), f.headerBody)
	}
}

// conf is the configuration for a directory.
func (t *c17Tree) conf(dir string) *c17Conf {
	for d := dir; ; d = filepath.Dir(d) {
		if d == "." || d == "/" {
			d = ""
		}
		if f := t.confs[d]; f != nil {
			return f
		}
		if d == "" {
			return &c17Conf{def: true}
		}
	}
}

type c17Target struct {
	dir, name, arg string
	conf           *c17Conf
	pkg            string
}

func (t c17Target) path() string { return filepath.Join("r", t.dir, t.name) }

// spell writes the path of a target as seen from cwd.
func (t *c17Tree) spell(cs *core.Case, cwd string, g *c17Target) {
	r := cs.R
	abs := filepath.Join(t.root, g.dir, g.name)
	switch r.Intn(5) {
	case 0:
		g.arg = abs
	case 1:
		g.arg = filepath.Join(t.root, g.dir) + "/./" + g.name
	case 2:
		p := rel("/"+cwd, "/"+filepath.Join(g.dir, g.name))
		g.arg = "./" + p
	case 3:
		g.arg = rel(filepath.Clean("/"+cwd), filepath.Clean("/"+g.dir)) + "//" + g.name
		if strings.HasPrefix(g.arg, "//") {
			g.arg = g.name
		}
	default:
		g.arg = rel(filepath.Clean("/"+cwd), filepath.Clean("/"+filepath.Join(g.dir, g.name)))
	}
}

// complete compares a file with what create should have written.
func (g c17Target) complete(cs *core.Case) string {
	text := cs.Read(g.path())
	if g.conf.header != "" && !strings.HasPrefix(text, g.conf.header+"\n\n") {
		return "the file does not start with the header:\n" + text
	}
	rest := strings.TrimPrefix(text, g.conf.header)
	if g.conf.header == "" && (strings.Contains(rest, "//") || strings.Contains(rest, "/*")) {
		return "there is a header that is not configured:\n" + text
	}
	d := filepath.Join(cs.Dir, "chk")
	os.RemoveAll(d)
	os.MkdirAll(d, 0755)
	defer os.RemoveAll(d)
	if err := os.WriteFile(filepath.Join(d, g.name), []byte(text), 0644); err != nil {
		return err.Error()
	}
	bin := filepath.Join(d, "out.bin")
	if res := cs.Exec(core.Opt{Dir: d, Quiet: true}, core.RealProtoc, "-I", ".", "-o", bin, g.name); res.Code != 0 {
		return "protoc rejects the file: " + res.Out + res.Err + "\n" + text
	}
	set := &descriptor.FileDescriptorSet{}
	if err := proto.Unmarshal([]byte(readAbs(bin)), set); err != nil || len(set.File) != 1 {
		cs.Fatal("bad descriptor set: %v", err)
	}
	lg := strings.ToLower(g.conf.group)
	want := &descriptor.FileDescriptorProto{Name: proto.String(g.name), Package: proto.String(g.pkg), Syntax: proto.String("proto3")}
	refOpts(lg, g.pkg, g.name, g.conf.prefix).apply(lg, want)
	if !proto.Equal(want, set.File[0]) {
		return "the file is not as expected: " + firstDiff(proto.MarshalTextString(want), proto.MarshalTextString(set.File[0])) + "\n" + text
	}
	return ""
}

var c17Names = append([]string{"new_one.proto", "service.proto"}, oddNames...)

// c17Rules are the rules a created file has to satisfy.
func c17Rule(id string) bool {
	return strings.HasPrefix(id, "FILE_OPTIONS_") || strings.HasPrefix(id, "PACKAGE") || id == "FILE_HEADER" || strings.HasPrefix(id, "SYNTAX_") || strings.HasPrefix(id, "FILE_NAMES") || strings.HasPrefix(id, "COMMENTS")
}

func (t *c17Tree) pickTargets(cs *core.Case, n int) []c17Target {
	r := cs.R
	var l []c17Target
	used := map[string]bool{}
	for len(l) < n {
		g := c17Target{dir: t.dirs[r.Intn(len(t.dirs))], name: c17Names[r.Intn(len(c17Names))]}
		if len(l) > 0 && chance(r, 40) {
			g.dir = l[0].dir
		}
		if used[g.path()] {
			continue
		}
		used[g.path()] = true
		l = append(l, g)
	}
	return l
}

func c17Create(cs *core.Case) {
	c, r := cs.C, cs.R
	t := c17Setup(cs)
	cwd := t.dirs[r.Intn(len(t.dirs))]
	var args []string
	var data *c17Conf
	if chance(r, 20) {
		data = c17MkConf(cs, cwd, true)
		data.putHeader(cs)
		args = append(args, "--config-data", data.text)
	}
	pkg := ""
	if chance(r, 15) {
		pkg = pick(r, "given", "given.v1", "a.b.c.v2beta3", "Giv_en.x")
		args = append(args, "--package", pkg)
	}
	targets := t.pickTargets(cs, []int{1, 1, 1, 2, 3, 6}[r.Intn(6)])
	empty := 0
	for i := range targets {
		g := &targets[i]
		g.conf = t.conf(g.dir)
		if data != nil {
			g.conf = data
		}
		g.pkg = g.conf.pkg(g.dir)
		if pkg != "" {
			g.pkg = pkg
		}
		t.spell(cs, cwd, g)
		if chance(r, 15) {
			cs.Write(g.path(), "")
			empty++
		}
		args = append(args, g.arg)
	}
	before := core.Snapshot(cs.Dir)
	res := cs.Run(core.Opt{Dir: filepath.Join(t.root, cwd), NoProtoc: chance(r, 50)}, append([]string{"create"}, args...)...)
	if !verdict(cs, res) {
		return
	}
	if res.Code != 0 || res.Out != "" {
		cs.Fail("create fails: %s", res)
		return
	}
	var want []string
	for _, g := range targets {
		want = append(want, g.path())
	}
	var got []string
	for _, d := range core.DiffSnap(before, core.Snapshot(cs.Dir)) {
		hit := false
		for _, g := range targets {
			hit = hit || strings.Contains(d, "w/"+g.path())
		}
		if !hit && !strings.Contains(d, "tmp") {
			got = append(got, d)
		}
	}
	if len(got) > 0 {
		cs.Fail("something else than %v changed: %v", want, got)
		return
	}
	for _, g := range targets {
		if e := g.complete(cs); e != "" {
			cs.Fail("%s (package %s): %s", g.path(), g.pkg, e)
			return
		}
		c.Count("created", 1)
		c.Count("group "+strings.ToLower(g.conf.group), 1)
		if len(g.conf.maps) > 0 {
			c.Count("with mappings", 1)
		}
		cs.Sig("%s %s %s %s", g.pkg, g.conf.group, g.conf.prefix, g.name)
	}
	c.Count("over empty files", int64(empty))
	// prototool's own verdict, for one file in a directory of its own
	g := targets[r.Intn(len(targets))]
	lg := strings.ToLower(g.conf.group)
	cs.Write("own/d/"+g.name, cs.Read(g.path()))
	conf := M{}
	lint := M{}
	if g.conf.group != "" {
		lint["group"] = g.conf.group
	}
	if g.conf.prefix != "" {
		lint["java_package_prefix"] = g.conf.prefix
	}
	if g.conf.header != "" {
		lint["file_header"] = M{"content": g.conf.header, "is_commented": true}
	}
	if len(lint) > 0 {
		conf["lint"] = lint
	}
	cs.Write("own/prototool.yaml", toYAML(conf, 0))
	own := core.Opt{Dir: filepath.Join(cs.W, "own")}
	if res := cs.Run(own, "compile", "d"); res.Code != 0 {
		cs.Fail("the created file does not compile: %s", res)
		return
	}
	res = cs.Run(own, "lint", "--error-format", "id", "d")
	if res.Code != 0 && res.Code != 255 {
		cs.Fail("lint of the created file ends oddly: %s", res)
		return
	}
	_, major, _, vers := version(g.pkg)
	for _, id := range res.Lines() {
		ok := false
		switch id {
		case "PACKAGE_LOWER_SNAKE_CASE", "PACKAGE_LOWER_CASE":
			// the directory or the mapping has another name
			ok = g.pkg != strings.ToLower(g.pkg) || strings.HasPrefix(g.pkg, "_") || strings.Contains(g.pkg, "._") || id == "PACKAGE_LOWER_CASE" && strings.Contains(g.pkg, "_")
		case "PACKAGE_MAJOR_BETA_VERSIONED":
			ok = !vers || major == ""
		case "FILE_NAMES_LOWER_SNAKE_CASE":
			ok = g.name != "new_one.proto" && g.name != "service.proto"
		case "COMMENTS_NO_C_STYLE":
			ok = strings.HasPrefix(g.conf.header, "/*")
		case "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX":
			ok = g.conf.prefix != "" // uber1 has no rule for other prefixes
		}
		if !ok && c17Rule(id) {
			cs.Fail("the created file (group %q, package %s) does not pass %s:\n%s", lg, g.pkg, id, cs.Read(g.path()))
			return
		}
	}
	c.Count("linted", 1)
}

func c17Fault(cs *core.Case) {
	c, r := cs.C, cs.R
	t := c17Setup(cs)
	cwd := t.dirs[r.Intn(len(t.dirs))]
	targets := t.pickTargets(cs, 1+r.Intn(5))
	for i := range targets {
		g := &targets[i]
		g.conf = t.conf(g.dir)
		g.pkg = g.conf.pkg(g.dir)
		t.spell(cs, cwd, g)
		if chance(r, 20) {
			cs.Write(g.path(), "")
		}
	}
	k := r.Intn(len(targets))
	g := &targets[k]
	opt := core.Opt{Dir: filepath.Join(t.root, cwd)}
	why := pick(r, "missing directory", "existing file", "existing file", "existing tiny file", "a directory", "empty name", "bad configuration", "missing header", "write error", "write error", "no permission", "no permission file", "a file as directory", "unreadable")
	mustFail := true
	switch why {
	case "missing directory":
		g.arg = filepath.Join(t.root, g.dir, "no/such", g.name)
	case "existing file":
		cs.Write(g.path(), pick(r, "syntax = \"proto3\";\n", "not a proto", strings.Repeat("x", 70000)))
	case "existing tiny file":
		cs.Write(g.path(), pick(r, "\n", " ", "\x00"))
	case "a directory":
		os.Remove(filepath.Join(t.root, g.dir, g.name))
		cs.Mkdir(g.path())
	case "empty name":
		g.arg = ""
	case "bad configuration":
		d := filepath.Join(g.dir, "bad")
		cs.Write("r/"+d+"/prototool.yaml", pick(r, "nonsense: true\n", "create:\n  packages:\n    - directory: /abs\n      name: x\n", "create:\n  packages:\n    - directory: a\n", "lint:\n  group: \"x", "create: [1]\n"))
		g.arg, g.dir = filepath.Join(t.root, d, g.name), d
	case "missing header":
		d := filepath.Join(g.dir, "bad")
		cs.Write("r/"+d+"/prototool.yaml", "lint:\n  file_header:\n    path: none.txt\n")
		g.arg, g.dir = filepath.Join(t.root, d, g.name), d
	case "write error":
		// a header that does not fit into what the process may write
		d := filepath.Join(g.dir, "big")
		n := []int{600, 1100, 3000, 100000}[r.Intn(4)]
		cs.Write("r/"+d+"/prototool.yaml", "lint:\n  file_header:\n    content: \""+strings.Repeat("long header ", n/12)+"\"\n")
		g.arg, g.dir = filepath.Join(t.root, d, g.name), d
		opt.Wrap = []string{"/bin/bash", "-c", `trap "" XFSZ; ulimit -f ` + pick(r, "0", "1", "2") + `; exec "$@"`, "sh"}
		mustFail = false
	case "no permission", "no permission file", "unreadable":
		opt.Cred = nobody
		for _, d := range t.dirs {
			os.Chmod(filepath.Join(t.root, d), 0777)
		}
		for _, x := range targets {
			os.Chmod(filepath.Join(cs.W, x.path()), 0666)
		}
		switch why {
		case "no permission":
			os.Remove(filepath.Join(t.root, g.dir, g.name))
			os.Chmod(filepath.Join(t.root, g.dir), 0555)
		case "no permission file":
			cs.Write(g.path(), "")
			os.Chmod(filepath.Join(t.root, g.dir, g.name), 0444)
		case "unreadable":
			cs.Write(g.path(), "secret")
			os.Chmod(filepath.Join(t.root, g.dir, g.name), 0200)
		}
	case "a file as directory":
		cs.Write(filepath.Join("r", g.dir, "plain"), "x")
		g.arg = filepath.Join(t.root, g.dir, "plain", g.name)
	}
	args := []string{"create"}
	for _, g := range targets {
		args = append(args, g.arg)
	}
	before := core.Snapshot(cs.W)
	res := cs.Run(opt, args...)
	if !verdict(cs, res) {
		return
	}
	if mustFail && res.Code == 0 {
		cs.Fail("%s: exit code 0", why)
		return
	}
	if res.Code != 0 && len(res.Lines()) == 0 {
		cs.Fail("%s: no reason is given", why)
		return
	}
	c.Count("fault: "+why, 1)
	if res.Code != 0 {
		c.Count("failed", 1)
	}
	after := core.Snapshot(cs.W)
	cs.Sig("%s %d %d %d", why, k, len(targets), res.Code)
	diff := core.DiffSnap(before, after)
	for _, d := range diff {
		hit := false
		for i, x := range targets {
			if !strings.Contains(d, x.path()) {
				continue
			}
			hit = true
			if i == k && why != "write error" {
				cs.Fail("%s: %s", why, d)
				return
			}
			if why == "write error" && i == k {
				continue
			}
			if e := x.complete(cs); e != "" {
				cs.Fail("%s: %s is left half-written: %s", why, x.path(), e)
				return
			}
			c.Count("complete files beside a failure", 1)
		}
		if !hit {
			cs.Fail("%s: something else changed: %s", why, d)
			return
		}
	}
	if why == "write error" {
		if _, err := os.Stat(filepath.Join(t.root, g.dir, g.name)); err != nil {
			if res.Code == 0 {
				cs.Fail("%s: exit code 0 without the file", why)
			}
			return
		}
		if _, ok := before[filepath.Join(cs.W, g.path())]; res.Code != 0 && ok && cs.Read(g.path()) == "" {
			return // as before
		}
		// the configuration of the big header
		x := *g
		x.conf = &c17Conf{dir: g.dir, maps: map[string]string{}}
		x.pkg = x.conf.pkg(g.dir)
		text := cs.Read(g.path())
		i := strings.Index(text, "\n\n")
		if i < 0 || !strings.HasPrefix(text, "// long header") {
			cs.Fail("%s: %s is left half-written: %d bytes", why, g.path(), len(text))
			return
		}
		cs.Write(g.path(), text[i+2:])
		if e := x.complete(cs); e != "" {
			cs.Fail("%s: %s is left half-written: %s", why, g.path(), e)
		}
	}
}
