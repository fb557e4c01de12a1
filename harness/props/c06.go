package props

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C06", Level: "exploration", Run: runC06,
		Rule:  "random sets with packages of every shape (versioned, beta, nearly versioned, single word, many parts, none), odd file names, the governed file options absent, right or wrong and anywhere in the file, are fixed under every lint group, file header spelling and java_package_prefix, next to rules added, removed and ignored and settings of other sections (which have no say); protoc's descriptor of the fixed file must equal the original one with exactly the governed options set to the values of a reference, the handled lint rules must be satisfied, comments kept, a second fix must change nothing, and format without --fix must leave every file option alone. Non-trivial: the fix changed at least one option; distinct by package, options and configuration.",
		Notes: []string{"free-standing comments above syntax are replaced by a configured header, as prototool.yaml documents; comments attached to syntax are kept", "under group uber1 with java_package_prefix the rule for the prefix stands in for the one that fixes com"}})
}

func runC06(c *core.Ctx) {
	c.Each("fix", c.N(500, 6000), c06Fix)
}

// plainWords are the values that scan as names in single quotes, too.
var plainWords = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*(\.[A-Za-z_][A-Za-z0-9_]*)*$`)

// reference values ------------------------------------------------------

var versRe = regexp.MustCompile(`^v([0-9]+)(?:beta([0-9]+))?$`)

// version splits a package into its name and version parts.
func version(pkg string) (base []string, major, beta string, ok bool) {
	parts := strings.Split(pkg, ".")
	n := len(parts)
	if n < 2 {
		return parts, "", "", false
	}
	m := versRe.FindStringSubmatch(parts[n-1])
	if m == nil {
		return parts, "", "", false
	}
	pos := func(s string) string {
		x, err := strconv.ParseUint(s, 10, 64)
		if err != nil || x == 0 {
			return ""
		}
		return strconv.FormatUint(x, 10)
	}
	major = pos(m[1])
	if major == "" {
		return parts, "", "", false
	}
	if m[2] != "" {
		if beta = pos(m[2]); beta == "" {
			return parts, "", "", false
		}
	}
	return parts[:n-1], major, beta, true
}

type wantOpts struct {
	goPkg, outer, java, cs, objc, php string
}

func refOpts(group, pkg, file, prefix string) wantOpts {
	var w wantOpts
	parts := strings.Split(pkg, ".")
	base, major, beta, vers := version(pkg)
	last := parts[len(parts)-1]
	w.goPkg = last + "pb"
	if group == "uber2" && vers {
		w.goPkg = base[len(base)-1] + last
	}
	if prefix == "" {
		prefix = "com"
	}
	w.java = prefix + "." + pkg
	// class name
	b := filepath.Base(file)
	b = b[:strings.LastIndex(b, ".")]
	sep := true
	for _, ch := range b {
		if strings.ContainsRune("._- ", ch) || ch == '\t' {
			sep = true
			continue
		}
		switch {
		case sep || unicode.IsUpper(ch):
			w.outer += string(unicode.ToUpper(ch))
		default:
			w.outer += string(ch)
		}
		sep = false
	}
	w.outer += "Proto"
	if group != "uber2" {
		return w
	}
	var t []string
	for _, p := range parts {
		t = append(t, strings.ToUpper(p[:1])+p[1:])
	}
	if vers && beta != "" {
		t[len(t)-1] = "V" + major + "Beta" + beta
	}
	w.cs = strings.Join(t, ".")
	w.php = strings.Join(t, `\`)
	ps := parts
	if vers {
		ps = base
	}
	for _, p := range ps {
		w.objc += strings.ToUpper(p[:1])
	}
	for len(w.objc) < 3 {
		w.objc += "X"
	}
	if w.objc == "GPB" {
		w.objc = "GPX"
	}
	return w
}

func (w wantOpts) apply(group string, f *descriptor.FileDescriptorProto) {
	if f.Options == nil {
		f.Options = &descriptor.FileOptions{}
	}
	o := f.Options
	o.GoPackage = proto.String(w.goPkg)
	o.JavaMultipleFiles = proto.Bool(true)
	o.JavaOuterClassname = proto.String(w.outer)
	o.JavaPackage = proto.String(w.java)
	if group == "uber2" {
		o.CsharpNamespace = proto.String(w.cs)
		o.ObjcClassPrefix = proto.String(w.objc)
		o.PhpNamespace = proto.String(w.php)
	}
}

var fixRules = []string{"FILE_HEADER", "FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE", "FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX",
	"FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM", "FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR", "FILE_OPTIONS_JAVA_MULTIPLE_FILES_SAME_IN_DIR", "FILE_OPTIONS_JAVA_PACKAGE_SAME_IN_DIR",
	"FILE_OPTIONS_REQUIRE_GO_PACKAGE", "FILE_OPTIONS_REQUIRE_JAVA_MULTIPLE_FILES", "FILE_OPTIONS_REQUIRE_JAVA_OUTER_CLASSNAME", "FILE_OPTIONS_REQUIRE_JAVA_PACKAGE", "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX"}
var fixRules1 = []string{"FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX"}
var fixRules2 = []string{"FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX", "FILE_OPTIONS_EQUAL_CSHARP_NAMESPACE_CAPITALIZED", "FILE_OPTIONS_EQUAL_OBJC_CLASS_PREFIX_ABBR", "FILE_OPTIONS_EQUAL_PHP_NAMESPACE_CAPITALIZED",
	"FILE_OPTIONS_REQUIRE_CSHARP_NAMESPACE", "FILE_OPTIONS_REQUIRE_OBJC_CLASS_PREFIX", "FILE_OPTIONS_REQUIRE_PHP_NAMESPACE", "FILE_OPTIONS_CSHARP_NAMESPACE_SAME_IN_DIR", "FILE_OPTIONS_OBJC_CLASS_PREFIX_SAME_IN_DIR", "FILE_OPTIONS_PHP_NAMESPACE_SAME_IN_DIR"}

var pkgShapes = []string{"foo", "foo.bar", "foo.v1", "foo.bar.v12", "foo.bar.v1beta1", "foo.v3beta22", "v1", "v1.v2", "foo.v0", "foo.v1beta0", "foo.v0beta1", "foo.v01", "foo.v1beta02", "foo.v1beta1beta2", "foo.vbeta1", "foo.v", "foo.v1beta", "foo.v1alpha1", "foo.v1.bar", "foo_bar.v1", "fooBar.Baz.v2", "Foo.V1", "g.p.b", "gas.pump.best.v1", "go.public", "a.b.c.d.e.v1", "x", "foo.version1", "foo.v1b", "foo.bar_v1", "foo.v99999999999999999999", "foo._bar.v1", "f1.v2", "foo.v1_1"}

var oddNames = []string{"foo.proto", "foo_bar.proto", "foo-bar.proto", "FooBar.proto", "foo.bar.proto", "a__b.proto", "_x.proto", "x_.proto", "v1.proto", "fooBAR_baz2.proto", "FOO.proto", "foo bar.proto", "2foo.proto", "foo_2bar.proto", "proto.proto", "foo.v1.proto"}

var headers = []struct{ body, lines string }{
	{"Some license.\n\nAll rights.\n", "// Some license.\n//\n// All rights."},
	{"\n\n  Indented and padded.  \n   more \n\n", "// Indented and padded.\n// more"},
	{"One line", "// One line"},
	{"tab\there \"quotes\" and 100% {}", "// tab\there \"quotes\" and 100% {}"},
	{"syntax = \"proto3\";", "// syntax = \"proto3\";"},
	{"a\r\n\r\nb\r\n", "// a\n//\n// b"},
	{"// looks commented", "// // looks commented"},
}

var commentedHeaders = []struct{ body, lines string }{
	{"//\n// Acme, Inc. (c) 2019\n//\n", "//\n// Acme, Inc. (c) 2019\n//"},
	{"// One.\n\n// Two.\n", "// One.\n\n// Two."},
	{"/* C style. */\n", "/* C style. */"},
	{"/*\n * C style\n * lines\n */", "/*\n* C style\n* lines\n*/"},
	{"  // padded  \n// x", "// padded\n// x"},
}

// nearly makes a value that differs from v in a detail.
func nearly(r *rand.Rand, v string) string {
	i := 0
	for k := 0; k < 20; k++ {
		if i = r.Intn(len(v)); v[i] != '\\' {
			break
		}
	}
	if v[i] == '\\' {
		return v
	}
	switch r.Intn(9) {
	case 0:
		return strings.ToLower(v)
	case 1:
		return strings.ToUpper(v)
	case 2:
		return v[:i] + strings.ToUpper(v[i:i+1]) + v[i+1:]
	case 3:
		return v[:i] + strings.ToLower(v[i:i+1]) + v[i+1:]
	case 4:
		return v + pick(r, "x", " ", ".x", "s", "1", ";x")
	case 5:
		return pick(r, "x", " ", "x.", "com.") + v
	case 6:
		return strings.TrimRight(v[:i], "\\")
	case 7:
		return strings.TrimLeft(v[i+1:], "\\")
	}
	return strings.Replace(strings.Replace(v, ".", "_", -1), "_", pick(r, "", "."), 1)
}

func c06Fix(cs *core.Case) {
	c, r := cs.C, cs.R
	cfg := fmtCfg(cs)
	cfg.Defs = 3
	cfg.HeadComment = false
	cfg.FileOpts = []int{0, 20, 50}[r.Intn(3)]
	cfg.FilesPerPkg = 2
	cfg.NoPkg = 8
	var pk []string
	for i := 0; i < 3; i++ {
		p := pkgShapes[r.Intn(len(pkgShapes))]
		if chance(r, 75) && !strIn(pk, p) && !prefixed(pk, p) {
			pk = append(pk, p)
		} else {
			pk = append(pk, fmt.Sprintf("own%d.%s", i, pick(r, "v1", "part", "v2beta3")))
		}
	}
	if !chance(r, 10) {
		cfg.PkgNames = pk
	}
	n := 0
	usedNames := map[string]bool{}
	cfg.FileNames = func(_ *rand.Rand) string {
		n++
		x := oddNames[r.Intn(len(oddNames))]
		if usedNames[x] || chance(r, 40) {
			return fmt.Sprintf("file_%d.proto", n)
		}
		usedNames[x] = true
		return x
	}
	s := pgen.Generate(r, cfg)
	group := pick(r, "", "uber1", "uber2", "uber2", "UBER2", "google", "empty")
	lg := strings.ToLower(group)
	prefix := pick(r, "", "", "org", "au.com")
	header := ""
	conf := M{"protoc": M{"allow_unused_imports": true}}
	lint := M{}
	if group != "" {
		lint["group"] = group
	}
	if prefix != "" {
		lint["java_package_prefix"] = prefix
	}
	if chance(r, 60) {
		h := headers[r.Intn(len(headers))]
		fh := M{}
		if chance(r, 50) {
			h = commentedHeaders[r.Intn(len(commentedHeaders))]
			fh["is_commented"] = true
		}
		header = h.lines
		if chance(r, 50) {
			fh["content"] = h.body
		} else {
			p := pick(r, "hdr.txt", "lic/header.txt", "../up.txt")
			cs.Write(filepath.Join("p", p), h.body)
			fh["path"] = p
		}
		lint["file_header"] = fh
	}
	// settings that have no say in what is fixed
	if chance(r, 40) {
		others := []string{"PACKAGE_MAJOR_BETA_VERSIONED", "MESSAGE_FIELDS_NOT_FLOATS", "ENUM_NAMES_CAMEL_CASE", "REQUEST_RESPONSE_TYPES_UNIQUE", "COMMENTS_NO_INLINE"}
		some := func() []string {
			r.Shuffle(len(others), func(i, j int) { others[i], others[j] = others[j], others[i] })
			return append([]string{}, others[:1+r.Intn(2)]...)
		}
		rules := M{}
		if chance(r, 70) {
			rules["remove"] = strsL(some())
		} else if chance(r, 50) {
			rules["add"] = strsL(some())
		}
		if len(rules) > 0 {
			lint["rules"] = rules
		}
		if chance(r, 40) {
			lint["ignores"] = L{M{"id": some()[0], "files": strsL([]string{"a.proto", s.Files[0].Path})}}
		}
		if chance(r, 30) {
			conf["break"] = M{"include_beta": true}
		}
		if chance(r, 30) {
			conf["create"] = M{"packages": L{M{"directory": ".", "name": "else.v1"}}}
		}
		if chance(r, 30) {
			conf["generate"] = M{"go_options": M{"import_path": "github.com/foo/bar"}, "plugins": L{M{"name": "java", "output": "gen/java"}}}
		}
	}
	if len(lint) > 0 {
		conf["lint"] = lint
	}
	cs.Write("p/prototool.yaml", toYAML(conf, 0))
	// texts, the governed options at odd places
	var files []string
	head := map[string]bool{} // files with a comment of their own on top
	pkgOf := map[string]string{}
	src := map[string]string{}
	for _, f := range s.Files {
		files = append(files, f.Path)
		pkgOf[f.Path] = f.Package
		w := wantOpts{}
		if f.Package != "" {
			w = refOpts(lg, f.Package, f.Path, prefix)
		}
		var late []string
		for _, o := range f.Options {
			// some already have the wanted value
			v := map[string]string{"go_package": w.goPkg, "java_package": w.java, "java_outer_classname": w.outer, "csharp_namespace": w.cs, "objc_class_prefix": w.objc, "php_namespace": strings.Replace(w.php, `\`, `\\`, -1)}[o.Name]
			if v != "" && chance(r, 60) {
				if chance(r, 50) {
					v = nearly(r, v)
				}
				o.Val = `"` + v + `"`
				if chance(r, 10) && plainWords.MatchString(v) { // C03's features have the others
					o.Val = `'` + v + `'`
				}
			} else if o.Name == "java_multiple_files" && chance(r, 50) {
				o.Val = "false"
			} else if o.Name == "go_package" && chance(r, 40) {
				o.Val = `"github.com/x/y;ypb"`
			}
		}
		if chance(r, 25) && len(f.Options) > 0 {
			o := f.Options[len(f.Options)-1]
			f.Options = f.Options[:len(f.Options)-1]
			late = append(late, fmt.Sprintf("\n// late option\noption %s = %s;\n", o.Name, o.Val))
		}
		t := f.Render()
		for _, l := range late {
			t += l
		}
		if chance(r, 15) {
			t = pgen.Reindent(r, t)
		}
		src[f.Path] = t
		switch r.Intn(4) {
		case 0:
			head[f.Path] = true
			t = pick(r, "// An old license.\n\n", "/* An old\n   license. */\n\n", "// One.\n\n// Two.\n\n") + t
		case 1:
			if header != "" && chance(r, 50) {
				t = header + "\n\n" + t // has it already
			}
		}
		if header == "" {
			src[f.Path] = t
		}
		cs.Write("p/"+f.Path, t)
	}
	if s.OptFile {
		cs.Write("p/"+pgen.OptsPath, pgen.OptsSource)
	}
	root := filepath.Join(cs.W, "p")
	before, errs := descriptors(cs, root, files...)
	if errs != "" {
		cs.Fatal("the generated set does not compile: %s", errs)
		return
	}
	edit := func(f *descriptor.FileDescriptorProto) {
		if p := pkgOf[f.GetName()]; p != "" {
			refOpts(lg, p, f.GetName(), prefix).apply(lg, f)
		}
	}
	want, errs := descriptorsWith(cs, root, edit, files...)
	if errs != "" {
		cs.Fatal("cannot predict: %s", errs)
		return
	}
	texts := func() map[string]string {
		m := map[string]string{}
		for _, f := range files {
			m[f] = cs.Read("p/" + f)
		}
		return m
	}
	orig := texts()
	// without --fix
	if chance(r, 30) {
		if w := cs.Run(core.Opt{Dir: root}, "format", "-w", "."); w.Code != 0 {
			cs.Fatal("format -w: %s", w)
		}
		got, errs := descriptors(cs, root, files...)
		if errs != "" {
			cs.Fatal("protoc rejects the formatted set: %s", errs)
		}
		for _, f := range files {
			if got[f] != before[f] {
				cs.Fatal("format without --fix changed %s: %s", f, firstDiff(before[f], got[f]))
			}
		}
		plain := texts()
		for _, f := range files {
			if header != "" && strings.HasPrefix(plain[f], header) && !strings.HasPrefix(strings.TrimSpace(orig[f]), header) {
				cs.Fatal("format without --fix added the file header to %s", f)
			}
			cs.Write("p/"+f, orig[f])
		}
		c.Count("plain", 1)
	}
	how := [][]string{{"format", "-w", "--fix", "."}, {"format", "--overwrite", "-f", "."}, {"all", "--fix", "--disable-lint", "."}}[r.Intn(3)]
	arg := r.Intn(3)
	switch arg {
	case 0:
		if w := cs.Run(core.Opt{Dir: root}, how...); w.Code != 0 {
			cs.Fatal("%v: %s", how, w)
		}
	case 1:
		for _, f := range files {
			if w := cs.Run(core.Opt{Dir: root}, "format", "-w", "--fix", f); w.Code != 0 {
				cs.Fatal("format -w --fix %s: %s", f, w)
			}
		}
	case 2:
		if w := cs.Run(core.Opt{Dir: cs.W}, "format", "-w", "--fix", "p"); w.Code != 0 {
			cs.Fatal("format -w --fix p: %s", w)
		}
	}
	fixed := texts()
	got, errs := descriptors(cs, root, files...)
	if errs != "" {
		cs.Fatal("protoc rejects the fixed set: %s", errs)
	}
	changed := false
	for _, f := range files {
		if got[f] != want[f] {
			cs.Fatal("%s (package %q, group %q) does not have the wanted options or means something else: %s", f, pkgOf[f], group, firstDiff(want[f], got[f]))
		}
		body := fixed[f]
		if header != "" {
			if !strings.HasPrefix(body, header+"\n") {
				cs.Fatal("%s does not begin with the file header %q: %.200q", f, header, body)
			}
			body = strings.TrimPrefix(body, header+"\n")
			if strings.Contains(body, "An old") || strings.HasPrefix(strings.TrimSpace(body), header+"\n\n") {
				cs.Fatal("the header of %s is not the only thing above syntax: %.300q", f, fixed[f])
			}
		}
		if d := pgen.CompareComments(src[f], body); d != "" {
			cs.Fatal("%s: %s", f, d)
		}
		for _, o := range []string{"go_package", "java_package", "java_multiple_files", "java_outer_classname", "csharp_namespace", "objc_class_prefix", "php_namespace"} {
			if k := len(regexp.MustCompile(`(?m)^option `+o+` =`).FindAllString(body, -1)); k > 1 {
				cs.Fatal("%s sets %s %d times", f, o, k)
			}
		}
		if want[f] != before[f] {
			changed = true
		}
	}
	c.Count("files_fixed", int64(len(files)))
	// again
	if w := cs.Run(core.Opt{Dir: root}, "format", "-w", "--fix", "."); w.Code != 0 {
		cs.Fatal("second fix: %s", w)
	}
	if now := texts(); fmt.Sprint(now) != fmt.Sprint(fixed) {
		for _, f := range files {
			if now[f] != fixed[f] {
				cs.Fatal("a second fix changes %s: %s", f, firstDiff(fixed[f], now[f]))
			}
		}
	}
	if w := cs.Run(core.Opt{Dir: root}, "format", "-l", "--fix", "."); w.Code != 0 || w.Out != "" {
		cs.Fatal("format -l --fix after a fix: %s", w)
	}
	// the rules
	rules := append([]string{}, fixRules...)
	if lg == "uber2" {
		rules = append(rules, fixRules2...)
	} else {
		rules = append(rules, fixRules1...)
	}
	if prefix == "" {
		rules = append(rules, "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX")
	}
	nopkg := false
	for _, f := range files {
		if pkgOf[f] == "" {
			nopkg = true
		}
	}
	if nopkg {
		rules = []string{"FILE_HEADER"}
	}
	lint["group"] = "empty"
	lint["rules"] = M{"add": strsL(rules)}
	conf["lint"] = lint
	conf["excludes"] = L{"vopts"}
	cs.Write("p/prototool.yaml", toYAML(conf, 0))
	if w := cs.Run(core.Opt{Dir: root}, "lint", "."); w.Code != 0 {
		cs.Fatal("the fixed set (group %q, prefix %q) breaks rules that the fix takes care of: %s", group, prefix, w)
	}
	// the group itself, for the same rules
	if lg != "empty" && !(prefix != "" && lg != "uber2") && !nopkg {
		delete(lint, "rules")
		lint["group"] = group
		if group == "" {
			delete(lint, "group")
		}
		if len(lint) == 0 {
			delete(conf, "lint")
		}
		cs.Write("p/prototool.yaml", toYAML(conf, 0))
		w := cs.Run(core.Opt{Dir: root}, "lint", "--json", ".")
		for _, l := range w.Lines() {
			for _, k := range []string{"FILE_HEADER", "FILE_OPTIONS_"} {
				if strings.Contains(l, `"`+k) {
					cs.Fatal("the fixed set breaks a rule of its group %q: %s", group, l)
				}
			}
		}
	}
	if changed {
		cs.Sig(pkgOf, orig, conf)
		cs.Sample("packages %v, group %q, prefix %q, header %q", pk, group, prefix, header)
	}
}

func strIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// prefixed tells whether p would clash with one of l as a symbol or directory.
func prefixed(l []string, p string) bool {
	for _, x := range l {
		if strings.EqualFold(x, p) || strings.HasPrefix(x+".", p+".") || strings.HasPrefix(p+".", x+".") {
			return true
		}
		// "foo.v1" beside "foo" and the like resolve in surprising ways
		if strings.SplitN(x, ".", 2)[0] == strings.SplitN(p, ".", 2)[0] {
			return true
		}
	}
	return false
}
