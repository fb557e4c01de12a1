package props

import (
	_ "embed"
	"fmt"
	"math/rand"
	"path"
	"sort"
	"strings"
	"unicode"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C07", Level: "exploration", Run: runC07,
		Rule:  "random sets with names, comments, prefixes, imports, file options, packages, file names and services bent towards and away from every lint rule are linted with all rules on; the multiset of (rule, file, line) must equal the one a reference computes from the generator's model of the files, for the whole set, for a single file and for single rules on their own. Non-trivial: at least ten findings of at least five rules; distinct by the set of findings.",
		Notes: []string{"columns and wording are left open", "members of proto2 groups, comments in rpc bodies and behind braces and qualified rpc types are covered by named cases"}})
}

func runC07(c *core.Ctx) {
	c.Each("set", c.N(1100, 12000), c07Set)
	c.Named("case", lintCaseNames(), c07Case)
}

type finding struct {
	rule, file string
	line       int
}

func (f finding) String() string { return fmt.Sprintf("%s at %s:%d", f.rule, f.file, f.line) }

func findingList(fs []finding) []string {
	var out []string
	for _, f := range fs {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return out
}

// reference -------------------------------------------------------------

type lintConf struct {
	header, javaPrefix string
}

func upperSnake(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		up := func(j int) bool { return s[j] >= 'A' && s[j] <= 'Z' }
		low := func(j int) bool { return s[j] >= 'a' && s[j] <= 'z' }
		if i > 0 && up(i) && s[i-1] != '_' && (low(i-1) || i+1 < len(s) && !up(i+1)) {
			b.WriteByte('_')
		}
		b.WriteByte(s[i])
	}
	return strings.ToUpper(b.String())
}

func only(s, extra string, lower, upper bool) bool {
	for _, c := range s {
		if !(lower && c >= 'a' && c <= 'z' || upper && c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune(extra, c)) {
			return false
		}
	}
	return s != ""
}

func camelOK(s string) bool { return only(s, "", true, true) }
func capOK(s string) bool   { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }
func snakeOK(s string, upper bool) bool {
	return only(s, "_", !upper, upper) && s[0] != '_' && s[len(s)-1] != '_'
}

func golangOK(n *pgen.Node, name string) bool {
	return len(n.Lead) > 0 && strings.HasPrefix(n.Lead[0]+endOf(n), name+" ")
}

// endOf is what follows the first line of a comment.
func endOf(n *pgen.Node) string {
	if n.CStyle && len(n.Lead) == 1 {
		return " "
	}
	return ""
}

func sentenceOK(n *pgen.Node) bool {
	if len(n.Lead) == 0 {
		return false
	}
	f := strings.TrimSpace(n.Lead[0])
	if f == "" {
		return false
	}
	r := []rune(f)[0]
	return (unicode.IsUpper(r) || unicode.IsDigit(r)) && strings.Contains(strings.Join(n.Lead, ""), ".")
}

// plurals are the plural words the generator uses; the dictionary takes quota
// for the plural of quotum.
var plurals = map[string]bool{"Trips": true, "Orders": true, "Cities": true, "Addresses": true, "Quota": true}

// camelWords splits a name as its snake form does, keeping letters.
func camelWords(s string) []string {
	u := upperSnake(s)
	var out []string
	i := 0
	for _, w := range strings.Split(u, "_") {
		for i < len(s) && s[i] == '_' {
			i++
		}
		out = append(out, s[i:i+len(w)])
		i += len(w)
	}
	return out
}

var sameInDir = []string{"csharp_namespace", "go_package", "java_multiple_files", "java_package", "objc_class_prefix", "php_namespace"}
var requiredOpts = []string{"csharp_namespace", "go_package", "java_multiple_files", "java_outer_classname", "java_package", "objc_class_prefix", "php_namespace", "ruby_package"}

func optVal(f *pgen.File, name string) (string, *pgen.Opt) {
	for _, o := range f.Options {
		if o.Name == name {
			return strings.Replace(strings.Trim(o.Val, `"`), `\\`, `\`, -1), o
		}
	}
	return "", nil
}

func bareTS(t string) string { return strings.TrimPrefix(t, ".") }

// lintRef computes the findings of every rule for rendered files.
func lintRef(files []*pgen.File, conf lintConf) []finding {
	return lintRefBut(files, conf, func(rule, file string) bool { return false })
}

// lintRefBut is lintRef with some files ignored by some rules: the rule does
// not see them at all.
func lintRefBut(files []*pgen.File, conf lintConf, ignored func(rule, file string) bool) []finding {
	var out []finding
	dirs := map[string][]*pgen.File{}
	for _, f := range files {
		d := path.Dir(f.Path)
		dirs[d] = append(dirs[d], f)
		for _, x := range lintFile(f, conf) {
			if !ignored(x.rule, x.file) {
				out = append(out, x)
			}
		}
	}
	for _, all := range dirs {
		seen := func(rule string) (fs []*pgen.File) {
			for _, f := range all {
				if !ignored(rule, f.Path) {
					fs = append(fs, f)
				}
			}
			return
		}
		fs := seen("PACKAGES_SAME_IN_DIR")
		pk := map[string]bool{}
		for _, f := range fs {
			if f.Package != "" {
				pk[f.Package] = true
			}
		}
		if len(pk) > 1 {
			for _, f := range fs {
				out = append(out, finding{"PACKAGES_SAME_IN_DIR", f.Path, 0})
			}
		}
		for _, n := range sameInDir {
			fs := seen("FILE_OPTIONS_" + strings.ToUpper(n) + "_SAME_IN_DIR")
			vs := map[string]bool{}
			for _, f := range fs {
				v, _ := optVal(f, n)
				vs[v] = true
			}
			if len(vs) > 1 {
				for _, f := range fs {
					out = append(out, finding{"FILE_OPTIONS_" + strings.ToUpper(n) + "_SAME_IN_DIR", f.Path, 0})
				}
			}
		}
	}
	return out
}

func lintFile(f *pgen.File, conf lintConf) []finding {
	var out []finding
	src := f.Render()
	add := func(rule string, line int) { out = append(out, finding{rule, f.Path, line}) }
	base := path.Base(f.Path)
	// the file
	if !snakeOK(strings.TrimSuffix(base, ".proto"), false) {
		add("FILE_NAMES_LOWER_SNAKE_CASE", 0)
	}
	if conf.header != "" && !strings.HasPrefix(src, conf.header) {
		add("FILE_HEADER", 0)
	}
	if f.Syntax != "proto3" {
		add("SYNTAX_PROTO3", f.SyntaxNode.Line)
	}
	// comments
	comment := func(n *pgen.Node) {
		if len(n.Lead) > 0 && n.CStyle {
			add("COMMENTS_NO_C_STYLE", n.Line)
		}
		if n.Inline != "" {
			l := n.Line
			if n.InlLine > 0 {
				l = n.InlLine
			}
			add("COMMENTS_NO_INLINE", l)
			if n.InlC {
				add("COMMENTS_NO_C_STYLE", n.Line)
			}
		}
	}
	if len(f.Head) > 0 && f.HeadC {
		add("COMMENTS_NO_C_STYLE", 1)
	}
	comment(&f.SyntaxNode)
	// package
	names := func(name string, line int) {
		for _, w := range []string{"COMMON", "DATA", "UUID"} {
			if strings.Contains(strings.ToUpper(name), w) {
				add("NAMES_NO_"+w, line)
			}
		}
	}
	if f.Package == "" {
		add("PACKAGE_IS_DECLARED", 0)
		add("PACKAGE_MAJOR_BETA_VERSIONED", 0)
	} else {
		l := f.PkgNode.Line
		comment(&f.PkgNode)
		names(f.Package, l)
		if !only(f.Package, ".", true, false) {
			add("PACKAGE_LOWER_CASE", l)
		}
		if flat := strings.Replace(f.Package, ".", "", -1); !snakeOK(flat, false) {
			add("PACKAGE_LOWER_SNAKE_CASE", l)
		}
		if _, _, _, ok := version(f.Package); !ok {
			add("PACKAGE_MAJOR_BETA_VERSIONED", l)
		}
		for _, p := range strings.Split(f.Package, ".") {
			switch strings.ToLower(p) {
			case "internal", "public", "private", "protected", "std":
				add("PACKAGE_NO_KEYWORDS", l)
			}
		}
	}
	for _, im := range f.Imports {
		comment(&im.Node)
		switch im.Kind {
		case "public":
			add("IMPORTS_NOT_PUBLIC", im.Line)
		case "weak":
			add("IMPORTS_NOT_WEAK", im.Line)
		}
		if path.Base(im.Path) == "gogo.proto" {
			add("GOGO_NOT_IMPORTED", im.Line)
		}
		if strings.Contains(im.Path, "/google/protobuf/") {
			add("WKT_DIRECTLY_IMPORTED", im.Line)
		}
	}
	// file options
	for _, n := range requiredOpts {
		if _, o := optVal(f, n); o == nil {
			add("FILE_OPTIONS_REQUIRE_"+strings.ToUpper(n), 0)
		}
	}
	for _, n := range []string{"java_multiple_files", "java_outer_classname"} {
		if _, o := optVal(f, n); o != nil {
			add("FILE_OPTIONS_UNSET_"+strings.ToUpper(n), o.Line)
		}
	}
	if v, o := optVal(f, "go_package"); o != nil && strings.Contains(v, ";") {
		add("FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM", o.Line)
	}
	if f.Package != "" {
		w1, w2 := refOpts("uber1", f.Package, f.Path, ""), refOpts("uber2", f.Package, f.Path, conf.javaPrefix)
		for _, e := range [][3]string{
			{"csharp_namespace", "CSHARP_NAMESPACE_CAPITALIZED", w2.cs},
			{"go_package", "GO_PACKAGE_PB_SUFFIX", w1.goPkg},
			{"go_package", "GO_PACKAGE_V2_SUFFIX", w2.goPkg},
			{"java_multiple_files", "JAVA_MULTIPLE_FILES_TRUE", "true"},
			{"java_outer_classname", "JAVA_OUTER_CLASSNAME_PROTO_SUFFIX", w1.outer},
			{"java_package", "JAVA_PACKAGE_COM_PREFIX", w1.java},
			{"java_package", "JAVA_PACKAGE_PREFIX", w2.java},
			{"objc_class_prefix", "OBJC_CLASS_PREFIX_ABBR", w2.objc},
			{"php_namespace", "PHP_NAMESPACE_CAPITALIZED", w2.php},
		} {
			if v, o := optVal(f, e[0]); o != nil && v != e[2] {
				add("FILE_OPTIONS_EQUAL_"+e[1], o.Line)
			}
		}
	}
	// requests and responses
	reqResp := map[string]bool{}
	top := map[string]*pgen.Message{}
	all := map[string]bool{}
	rpcs := 0
	var services []*pgen.Service
	for _, d := range f.Defs {
		switch x := d.(type) {
		case *pgen.Message:
			top[x.Name] = x
		case *pgen.Service:
			services = append(services, x)
		}
	}
	f.Walk(func(p []string, e interface{}) {
		switch x := e.(type) {
		case *pgen.Message:
			all[strings.Join(append(append([]string{}, p...), x.Name), ".")] = true
		case *pgen.RPC:
			rpcs++
			reqResp[x.In], reqResp[x.Out] = true, true
		}
	})
	if rpcs > 0 {
		for _, d := range f.Defs {
			switch x := d.(type) {
			case *pgen.Message:
				if !reqResp[x.Name] {
					add("REQUEST_RESPONSE_TYPES_ONLY_IN_FILE", x.Line)
				}
			case *pgen.Enum:
				add("REQUEST_RESPONSE_TYPES_ONLY_IN_FILE", x.Line)
			}
		}
	}
	for _, s := range services {
		if len(services) > 1 || base != strings.ToLower(upperSnake(s.Name))+".proto" {
			add("SERVICE_NAMES_MATCH_FILE_NAME", s.Line)
		}
	}
	seen := map[string]bool{}
	comments := func(kind string, n *pgen.Node, name string) {
		if !golangOK(n, name) {
			add(kind+"_HAVE_COMMENTS", n.Line)
		}
		if !sentenceOK(n) {
			add(kind+"_HAVE_SENTENCE_COMMENTS", n.Line)
		}
	}
	fieldOpts := func(os []*pgen.Opt, line int, multi bool) {
		for _, o := range os {
			if multi {
				comment(&o.Node)
				line = o.Line
			}
			names(o.Name, line)
		}
	}
	inEnum := map[*pgen.Opt]bool{}
	f.Walk(func(p []string, e interface{}) {
		n := pgen.NodeOf(e)
		l := n.Line
		if o, ok := e.(*pgen.Opt); ok && inEnum[o] && n.CStyle && len(n.Lead) > 0 {
			// the parser keeps comments of enum options on their own
			add("COMMENTS_NO_C_STYLE", l-len(n.Lead))
			comment(&pgen.Node{Inline: n.Inline, InlC: n.InlC, Line: l})
		} else if _, ok := e.(*pgen.Import); !ok {
			comment(n)
		}
		switch x := e.(type) {
		case *pgen.Opt:
			names(x.Name, l)
		case *pgen.Message:
			full := strings.Join(append(append([]string{}, p...), x.Name), ".")
			names(x.Name, l)
			if x.End != "" && x.EndC {
				add("COMMENTS_NO_C_STYLE", x.EndLn)
			}
			if !camelOK(x.Name) {
				add("MESSAGE_NAMES_CAMEL_CASE", l)
			}
			if !capOK(x.Name) {
				add("MESSAGE_NAMES_CAPITALIZED", l)
			}
			if !golangOK(n, x.Name) {
				add("MESSAGES_HAVE_COMMENTS", l)
				if !reqResp[full] {
					add("MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", l)
				}
			}
			if !sentenceOK(n) && !reqResp[full] {
				add("MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", l)
			}
			fields := 0
			for _, m := range x.Elems {
				switch y := m.(type) {
				case *pgen.Field, *pgen.Oneof:
					fields++
					_ = y
				}
			}
			if fields == 0 && !reqResp[full] {
				add("MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES", l)
			}
		case *pgen.Extend:
			names(x.Type, l)
		case *pgen.Field:
			names(x.Name, l)
			fieldOpts(x.Opts, l, x.Multi)
			comments("MESSAGE_FIELDS", n, x.Name)
			if strings.ToLower(x.Name) != x.Name {
				add("MESSAGE_FIELD_NAMES_LOWERCASE", l)
			}
			if !snakeOK(x.Name, false) {
				add("MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", l)
			}
			if strings.Contains(x.Name, "file_name") {
				add("MESSAGE_FIELD_NAMES_FILENAME", l)
			}
			if strings.Contains(x.Name, "file_path") {
				add("MESSAGE_FIELD_NAMES_FILEPATH", l)
			}
			if strings.ToLower(strings.Trim(x.Name, "_")) == "descriptor" {
				add("MESSAGE_FIELD_NAMES_NO_DESCRIPTOR", l)
			}
			if x.Type == "float" {
				add("MESSAGE_FIELDS_NOT_FLOATS", l)
			}
			for _, o := range x.Opts {
				if o.Name == "json_name" {
					add("MESSAGE_FIELDS_NO_JSON_NAME", l)
				}
			}
			if x.Key == "" {
				isT, isD := bareTS(x.Type) == "google.protobuf.Timestamp", bareTS(x.Type) == "google.protobuf.Duration"
				if strings.Contains(x.Name, "time") && !isT {
					add("MESSAGE_FIELDS_TIME", l)
				}
				if strings.Contains(x.Name, "duration") && !isD {
					add("MESSAGE_FIELDS_DURATION", l)
				}
				if isT && x.Name != "time" && !strings.HasSuffix(x.Name, "_time") {
					add("WKT_TIMESTAMP_SUFFIX", l)
				}
				if isD && x.Name != "duration" && !strings.HasSuffix(x.Name, "_duration") {
					add("WKT_DURATION_SUFFIX", l)
				}
			}
		case *pgen.Oneof:
			names(x.Name, l)
			if !snakeOK(x.Name, false) {
				add("ONEOF_NAMES_LOWER_SNAKE_CASE", l)
			}
		case *pgen.Enum:
			names(x.Name, l)
			comments("ENUMS", n, x.Name)
			if !camelOK(x.Name) {
				add("ENUM_NAMES_CAMEL_CASE", l)
			}
			if !capOK(x.Name) {
				add("ENUM_NAMES_CAPITALIZED", l)
			}
			short := upperSnake(x.Name) + "_"
			long := short
			for i := len(p) - 1; i >= 0; i-- {
				long = upperSnake(p[i]) + "_" + long
			}
			for _, m := range x.Elems {
				switch y := m.(type) {
				case *pgen.Opt:
					inEnum[y] = true
					if y.Name == "allow_alias" {
						add("ENUMS_NO_ALLOW_ALIAS", y.Line)
					}
				case *pgen.EnumValue:
					if !strings.HasPrefix(y.Name, long) {
						add("ENUM_FIELD_PREFIXES", y.Line)
					}
					if !strings.HasPrefix(y.Name, short) {
						add("ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE", y.Line)
					}
					if y.Num == 0 && y.Name != long+"INVALID" {
						add("ENUM_ZERO_VALUES_INVALID", y.Line)
					}
					if y.Num == 0 && y.Name != short+"INVALID" {
						add("ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE", y.Line)
					}
				}
			}
		case *pgen.EnumValue:
			names(x.Name, l)
			fieldOpts(x.Opts, l, x.Multi)
			comments("ENUM_FIELDS", n, x.Name)
			if strings.ToUpper(x.Name) != x.Name {
				add("ENUM_FIELD_NAMES_UPPERCASE", l)
			}
			if !snakeOK(x.Name, true) {
				add("ENUM_FIELD_NAMES_UPPER_SNAKE_CASE", l)
			}
		case *pgen.Reserved:
			add("FIELDS_NOT_RESERVED", l)
			for _, y := range x.Names {
				names(y, l)
			}
		case *pgen.Service:
			names(x.Name, l)
			comments("SERVICES", n, x.Name)
			if !strings.HasSuffix(x.Name, "API") {
				add("SERVICE_NAMES_API_SUFFIX", l)
			}
			if !camelOK(x.Name) {
				add("SERVICE_NAMES_CAMEL_CASE", l)
			} else {
				for _, w := range camelWords(x.Name) {
					if plurals[w] {
						add("SERVICE_NAMES_NO_PLURALS", l)
					}
				}
			}
			if !capOK(x.Name) {
				add("SERVICE_NAMES_CAPITALIZED", l)
			}
		case *pgen.RPC:
			names(x.Name, l)
			comments("RPCS", n, x.Name)
			if x.InStream || x.OutStream {
				add("RPCS_NO_STREAMING", l)
			}
			if !camelOK(x.Name) {
				add("RPC_NAMES_CAMEL_CASE", l)
			}
			if !capOK(x.Name) {
				add("RPC_NAMES_CAPITALIZED", l)
			}
			for _, o := range x.Opts {
				if strings.HasPrefix(o.Name, "(google.api.http)") || strings.HasPrefix(o.Name, "(.google.api.http)") {
					add("RPC_OPTIONS_NO_GOOGLE_API_HTTP", o.Line)
				}
			}
			for i, t := range []string{x.In, x.Out} {
				if t != x.Name+[]string{"Request", "Response"}[i] {
					add("REQUEST_RESPONSE_NAMES_MATCH_RPC", l)
				}
				if !all[t] || strings.Contains(t, ".") {
					add("REQUEST_RESPONSE_TYPES_IN_SAME_FILE", l)
				}
				if m := top[t]; m != nil && m.Line < l {
					add("REQUEST_RESPONSE_TYPES_AFTER_SERVICE", m.Line)
				}
				if seen[t] {
					add("REQUEST_RESPONSE_TYPES_UNIQUE", l)
				}
				seen[t] = true
			}
			if a, b := top[x.In], top[x.Out]; a != nil && b != nil && b.Line < a.Line {
				add("REQUEST_RESPONSE_TYPES_AFTER_SERVICE", b.Line)
			}
		}
	})
	return out
}

// generator -------------------------------------------------------------

var svcWords = []string{"Trip", "Order", "City", "Address", "Trips", "Orders", "Cities", "Addresses", "Data", "IDS", "HTTP", "Route"}

func lintNames(r *rand.Rand, kind string) string {
	if chance(r, 55) {
		return ""
	}
	if chance(r, 12) { // words joined in a style, of any length
		n := 1 + r.Intn(3)
		if chance(r, 30) {
			n = 4 + r.Intn(10)
		}
		sep, f := "_", strings.ToLower
		switch r.Intn(5) {
		case 0:
			f = strings.ToUpper
		case 1:
			sep, f = "", strings.Title
		case 2:
			f = strings.Title
		}
		if kind == "value" && chance(r, 60) {
			sep, f = "_", strings.ToUpper
		}
		var l []string
		for ; n > 0; n-- {
			l = append(l, f(pick(r, "alpha", "b", "city9", "driver", "x", "uid", "http", "lane2nd")))
		}
		return pick(r, "", "", "", "", "_", "q_") + strings.Join(l, sep) + pick(r, "", "", "", "_", "__", "X")
	}
	switch kind {
	case "message", "enum":
		return pick(r, "lowerThing", "With_Under", "_Lead", "CommonThing", "Uncommon", "MyData", "UUIDBox", "HTTPServer", "AB", "X", "HTTPXServer", "myHTTP", "Two__Under", "A1B2c")
	case "rpc":
		return pick(r, "get", "Get_Thing", "GetUuid", "ListData", "_Get", "Common", "GetHTTPThing")
	case "field":
		return pick(r, "camelCase", "UPPER", "Mixed_Case", "_lead", "dbl__us", "user_data", "uuid", "common_x", "time", "start_time", "duration", "file_name", "file_path_x", "myfile_name", "descriptor", "x_Time", "lifetimes")
	case "oneof":
		return pick(r, "camelCase", "UPPER", "_lead", "some_data", "my_uuid", "common", "ok_name")
	case "value":
		return pick(r, "lower_v", "Mixed_V", "_V", "V__X", "DATA_V", "UUID_", "A_COMMON_V", "PLAIN")
	case "service":
		n := ""
		for i := 0; i <= r.Intn(3); i++ {
			n += svcWords[r.Intn(len(svcWords))]
		}
		return n + pick(r, "V", "X", "_V")
	}
	return ""
}

func lintComment(r *rand.Rand, n *pgen.Node, name string) {
	n.CStyle = chance(r, 15)
	if chance(r, 10) {
		defer func() {
			n.Lead = append(n.Lead, "@suppresswarnings "+pick(r, "keywords", "naming", "plurals", "floats", "google-api-http", "reserved-fields", "all"))
		}()
	}
	switch r.Intn(14) {
	case 0:
		n.Lead = nil
	case 1, 2, 3:
		n.Lead = []string{name + " is a thing."}
	case 4:
		n.Lead = []string{name + " has no period"}
	case 5:
		n.Lead = []string{name}
	case 6:
		n.Lead = []string{"Is something. Not " + name + "."}
	case 7:
		n.Lead = []string{"lower case sentence."}
	case 8:
		n.Lead = []string{name + " goes", "over lines, v1.0", "and on"}
	case 9:
		n.Lead = []string{"2 fast."}
	case 10:
		n.Lead = []string{"", name + " is on the second line."}
	case 11:
		n.Lead = []string{" " + name + " is indented."}
	case 12:
		n.Lead = []string{pick(r, "Élan vital.", "élan vital.", "_x.", "(A) b.", "Жук.", "жук.", "日本.")}
	case 13:
		n.Lead = []string{name + "s are similar."}
	}
}

var exactFields = []string{"time", "start_time", "duration", "max_duration", "descriptor", "descriptor_", "_descriptor_", "DESCRIPTOR", "file_name", "my_file_name", "file_path", "filename", "filepath", "x_", "timeout", "datetime", "duration_ms", "creation_time", "time_created", "uuid", "data"}

func canonField(s string) string {
	return strings.ToLower(strings.Replace(s, "_", "", -1))
}

type lintGen struct {
	r *rand.Rand
	s *pgen.Set
	n int
}

func (g *lintGen) id() string { g.n++; return itoa(g.n) }

// bend pushes a set towards and away from the rules.
func (g *lintGen) bend() {
	r, s := g.r, g.s
	pct := []int{0, 30, 70}[r.Intn(3)]
	for _, f := range s.Files {
		wkt := map[string]bool{}
		if len(f.Head) > 0 && chance(r, 20) {
			f.HeadC = true
		}
		f.Walk(func(p []string, e interface{}) {
			n := pgen.NodeOf(e)
			n.InlC = chance(r, 20)
			switch x := e.(type) {
			case *pgen.Message:
				x.Inline = "" // see the named cases
				x.EndC = chance(r, 20)
				used := map[string]bool{}
				var fs []*pgen.Field
				for _, m := range x.Elems {
					switch y := m.(type) {
					case *pgen.Field:
						fs = append(fs, y)
					case *pgen.Oneof:
						used[canonField(y.Name)] = true
						for _, z := range y.Elems {
							if w, ok := z.(*pgen.Field); ok {
								fs = append(fs, w)
							}
						}
					case *pgen.Message:
						used[canonField(y.Name)] = true
					case *pgen.Enum:
						used[canonField(y.Name)] = true
					}
				}
				for _, y := range fs {
					used[canonField(y.Name)] = true
				}
				for _, y := range fs {
					if !chance(r, 30) {
						continue
					}
					if nn := exactFields[r.Intn(len(exactFields))]; !used[canonField(nn)] {
						used[canonField(nn)] = true
						y.Name = nn
					}
				}
				for _, y := range fs {
					if len(y.Opts) == 0 && (chance(r, 8) || strings.Contains(y.Name, "time") && chance(r, 50)) {
						y.Type = pick(r, "google.protobuf.Timestamp", ".google.protobuf.Timestamp")
						wkt["timestamp"] = true
					} else if len(y.Opts) == 0 && (chance(r, 8) || strings.Contains(y.Name, "duration") && chance(r, 50)) {
						y.Type = pick(r, "google.protobuf.Duration", ".google.protobuf.Duration")
						wkt["duration"] = true
					}
				}
			case *pgen.Enum:
				x.Inline = ""
				short := upperSnake(x.Name) + "_"
				long := short
				for i := len(p) - 1; i >= 0; i-- {
					long = upperSnake(p[i]) + "_" + long
				}
				style := r.Intn(4)
				zero := false
				for _, m := range x.Elems {
					v, ok := m.(*pgen.EnumValue)
					if !ok || chance(r, 15) {
						continue
					}
					pre := ""
					switch style {
					case 0:
						continue
					case 1:
						pre = short
					default:
						pre = long
					}
					if v.Num == 0 && !zero && chance(r, 70) {
						v.Name = pre + "INVALID"
						zero = true
					} else {
						v.Name = pre + pick(r, "V", "", "v", "INVALID") + g.id()
					}
				}
			case *pgen.Oneof, *pgen.Service, *pgen.Extend:
				n.Inline = ""
			case *pgen.RPC:
				if len(x.Opts) > 0 {
					x.Inline = ""
				}
				x.In, x.Out = g.local(f, x.In), g.local(f, x.Out)
			}
		})
		for _, w := range []string{"timestamp", "duration"} {
			if wkt[w] {
				g.imp(f, "google/protobuf/"+w+".proto", "")
			}
		}
		g.options(f)
		if chance(r, 10) {
			g.imp(f, pick(r, "third/gogo.proto", "gogo.proto"), "")
		}
		if chance(r, 10) {
			g.imp(f, "third/google/protobuf/empty.proto", "")
		}
		if chance(r, 10) {
			g.imp(f, "third/weak.proto", pick(r, "weak", "public", ""))
		}
		if chance(r, 60) {
			g.service(f)
		}
		if chance(r, pct) {
			lintComment(r, &f.PkgNode, "Package")
		}
		f.Walk(func(p []string, e interface{}) {
			if !chance(r, pct) {
				return
			}
			n := pgen.NodeOf(e)
			switch x := e.(type) {
			case *pgen.Message:
				lintComment(r, n, x.Name)
			case *pgen.Enum:
				lintComment(r, n, x.Name)
			case *pgen.EnumValue:
				lintComment(r, n, x.Name)
			case *pgen.Field:
				lintComment(r, n, x.Name)
			case *pgen.Service:
				lintComment(r, n, x.Name)
			case *pgen.RPC:
				lintComment(r, n, x.Name)
			}
		})
		var sv []*pgen.Service
		for _, d := range f.Defs {
			if x, ok := d.(*pgen.Service); ok {
				sv = append(sv, x)
			}
		}
		if len(sv) > 0 && chance(r, 40) {
			g.move(f, path.Join(path.Dir(f.Path), strings.ToLower(upperSnake(sv[0].Name))+".proto"))
		}
	}
	if len(s.Files) > 1 && chance(r, 40) {
		for _, f := range s.Files {
			if chance(r, 70) {
				g.move(f, path.Join("shared", path.Base(f.Path)))
			}
		}
	}
}

func (g *lintGen) imp(f *pgen.File, p, kind string) {
	for _, im := range f.Imports {
		if im.Path == p {
			return
		}
	}
	f.Imports = append(f.Imports, &pgen.Import{Path: p, Kind: kind})
}

func (g *lintGen) move(f *pgen.File, to string) {
	for _, o := range g.s.Files {
		if o.Path == to {
			return
		}
	}
	for _, o := range g.s.Files {
		for _, im := range o.Imports {
			if im.Path == f.Path {
				im.Path = to
			}
		}
	}
	f.Path = to
}

// local spells a type of the same package relative to it.
func (g *lintGen) local(f *pgen.File, t string) string {
	b := strings.TrimPrefix(t, ".")
	for _, y := range g.s.Syms {
		if y.FQ == b && y.File.Package == f.Package && f.Package != "" {
			return strings.TrimPrefix(b, f.Package+".")
		}
	}
	return b
}

func (g *lintGen) options(f *pgen.File) {
	r := g.r
	if f.Package == "" {
		return
	}
	w1, w2 := refOpts("uber1", f.Package, f.Path, ""), refOpts("uber2", f.Package, f.Path, pick(r, "", "org", "au.com"))
	q := func(s string) string { return `"` + strings.Replace(s, `\`, `\\`, -1) + `"` }
	for _, o := range f.Options {
		if !chance(r, 60) {
			continue
		}
		switch o.Name {
		case "go_package":
			o.Val = q(pick(r, w1.goPkg, w2.goPkg, w1.goPkg, "a.com/b;"+w1.goPkg, strings.ToUpper(w1.goPkg)))
		case "java_package":
			o.Val = q(pick(r, w1.java, w2.java, "com"+f.Package))
		case "java_outer_classname":
			o.Val = q(w1.outer)
		case "java_multiple_files":
			o.Val = pick(r, "true", "false")
		case "csharp_namespace":
			o.Val = q(w2.cs)
		case "php_namespace":
			o.Val = q(w2.php)
		case "objc_class_prefix":
			o.Val = q(w2.objc)
		}
	}
}

// service adds a service with requests and responses to a file.
func (g *lintGen) service(f *pgen.File) {
	r := g.r
	name := ""
	for i := 0; i <= r.Intn(3); i++ {
		name += svcWords[r.Intn(len(svcWords))]
	}
	name += pick(r, "V", "X") + g.id()
	switch r.Intn(4) {
	case 0:
		name += "Service"
	case 1:
	default:
		name += "API"
	}
	sv := &pgen.Service{Name: name}
	var old []string
	for _, y := range g.s.Syms {
		if !y.Enum && y.File.Package == f.Package && (f.Package != "" || y.File == f) {
			imported := y.File == f
			for _, im := range f.Imports {
				imported = imported || im.Path == y.File.Path
			}
			if imported {
				old = append(old, strings.TrimPrefix(y.FQ, f.Package+"."))
			}
		}
	}
	var msgs []interface{}
	fresh := func(n string) string {
		m := &pgen.Message{Name: n}
		if chance(r, 50) {
			m.Elems = append(m.Elems, &pgen.Field{Type: "string", Name: "s", Num: 1})
			if f.Syntax == "proto2" {
				m.Elems[0].(*pgen.Field).Label = "optional"
			}
		}
		msgs = append(msgs, m)
		old = append(old, n)
		return n
	}
	for i := 0; i <= r.Intn(3); i++ {
		rpc := &pgen.RPC{Name: pick(r, "Get", "List", "lower", "Get_Snake", "GetUUID", "Make") + g.id(), InStream: chance(r, 10), OutStream: chance(r, 10)}
		typ := func(suffix string) string {
			switch k := r.Intn(10); {
			case k < 6:
				return fresh(rpc.Name + suffix)
			case k < 7:
				return fresh(rpc.Name + suffix + g.id())
			case len(old) > 0:
				return old[r.Intn(len(old))]
			}
			return fresh(rpc.Name + suffix)
		}
		rpc.In, rpc.Out = typ("Request"), typ("Response")
		if chance(r, 15) {
			rpc.Opts = append(rpc.Opts, &pgen.Opt{Name: pick(r, "(google.api.http).get", "(.google.api.http).get"), Val: `"/v1"`})
			g.imp(f, "google/api/annotations.proto", "")
		} else if chance(r, 10) {
			rpc.Opts = append(rpc.Opts, &pgen.Opt{Name: "(google.api.http)", Val: `{ get: "/v1" }`})
			g.imp(f, "google/api/annotations.proto", "")
		} else if chance(r, 10) {
			rpc.Opts = append(rpc.Opts, &pgen.Opt{Name: "(google.api.http_note)", Val: `"x"`})
			g.imp(f, "google/api/annotations.proto", "")
		}
		sv.Elems = append(sv.Elems, rpc)
	}
	if chance(r, 60) {
		f.Defs = append(append(f.Defs, sv), msgs...)
		if chance(r, 30) {
			f.Defs = append(append([]interface{}{}, sv), append(f.Defs[:len(f.Defs)-len(msgs)-1:len(f.Defs)-len(msgs)-1], msgs...)...)
		}
	} else {
		f.Defs = append(append(f.Defs, sv), msgs...)
		r.Shuffle(len(f.Defs), func(i, j int) { f.Defs[i], f.Defs[j] = f.Defs[j], f.Defs[i] })
	}
}

const apiProto = "syntax = \"proto3\";\n\npackage google.api;\n\nimport \"google/protobuf/descriptor.proto\";\n\nmessage HttpRule {\n  string get = 1;\n}\n\nextend google.protobuf.MethodOptions {\n  HttpRule http = 72295728;\n  string http_note = 72295729;\n}\n"

// lintSet generates files that break many rules.
func lintSet(cs *core.Case) *pgen.Set {
	r := cs.R
	cfg := fmtCfg(cs)
	cfg.Groups = false
	cfg.Pkgs, cfg.FilesPerPkg, cfg.Defs, cfg.Depth = 2, 3, 4, 2
	cfg.Comments, cfg.Inline = []int{0, 20, 50}[r.Intn(3)], []int{0, 10}[r.Intn(2)]
	cfg.FileOpts = []int{0, 30, 70}[r.Intn(3)]
	cfg.Services = chance(r, 40)
	cfg.CustomOpts = chance(r, 25)
	cfg.Names = lintNames
	if chance(r, 40) {
		for i := 0; i < 3; i++ {
			p := pick(r, pkgShapes[r.Intn(len(pkgShapes))], "my.internal.v1", "foo.Public.std", "stdx.v1", "common.v1", "user_data.v1", "foo.uuids.v2beta1", "x.v1", "q.v2beta1", "a.b.v1", "a_b.v3", "a1.v1", "foo.v1.x", "v1.v1", "aVeryLongName_of_a_package.with_parts.v12beta34", "z", "foo.V1", "foo.v1a", "foo._v1", "foo.v01")
			if strIn(cfg.PkgNames, p) || prefixed(cfg.PkgNames, p) {
				p = fmt.Sprintf("own%d.v1", i)
			}
			cfg.PkgNames = append(cfg.PkgNames, p)
		}
	}
	n := 0
	cfg.FileNames = func(r *rand.Rand) string {
		n++
		return fmt.Sprintf(pick(r, "file_%d", "file_%d", "some%d", "Foo%d", "foo-bar%d", "foo.bar%d", "_x%d", "x%d_", "foo bar%d"), n) + ".proto"
	}
	g := &lintGen{r: r, s: pgen.Generate(r, cfg)}
	// the parser takes positions and inline comments within option lists for
	// those of the neighbours, which named cases record
	for _, f := range g.s.Files {
		f.Walk(func(_ []string, e interface{}) {
			var l []*pgen.Opt
			switch x := e.(type) {
			case *pgen.Field:
				l = x.Opts
			case *pgen.EnumValue:
				l = x.Opts
			}
			for _, o := range l {
				o.CStyle, o.Inline = false, ""
			}
		})
	}
	g.bend()
	return g.s
}

// lintExtras writes the files that generated ones import.
func lintExtras(cs *core.Case) {
	cs.Write("google/api/annotations.proto", apiProto)
	cs.Write("third/gogo.proto", "syntax = \"proto3\";\n\npackage gogo;\n\nmessage G {}\n")
	cs.Write("gogo.proto", "syntax = \"proto3\";\n\npackage gogo2;\n\nmessage G {}\n")
	cs.Write("third/weak.proto", "syntax = \"proto3\";\n\npackage weaker;\n\nmessage W {}\n")
	cs.Write("third/google/protobuf/empty.proto", "syntax = \"proto3\";\n\npackage third;\n\nmessage E {}\n")
}

func c07Set(cs *core.Case) {
	c, r := cs.C, cs.R
	s := lintSet(cs)
	conf := lintConf{}
	lint := M{"group": "empty"}
	if chance(r, 50) {
		conf.javaPrefix = pick(r, "org", "au.com")
		lint["java_package_prefix"] = conf.javaPrefix
	}
	if chance(r, 50) {
		conf.header = "// Some license.\n//\n// All rights."
		lint["file_header"] = M{"content": "Some license.\n\nAll rights.\n"}
		for _, f := range s.Files {
			switch r.Intn(5) {
			case 0, 1:
				f.Head, f.HeadC = []string{"Some license.", "", "All rights."}, false
			case 2:
				f.Head, f.HeadC = []string{"Some license.", "", "All rights. And more.", "x"}, false
			case 3:
				f.Head, f.HeadC = []string{"Some license.", "All rights."}, false
			}
		}
	}
	ids := allLinters(cs)
	lint["rules"] = M{"add": strsL(ids)}
	conf0 := M{"protoc": M{"allow_unused_imports": true}, "excludes": L{"vopts", "google", "third", "gogo.proto"}, "lint": lint}
	cs.Write("prototool.yaml", toYAML(conf0, 0))
	writeSet(cs, s, ".")
	lintExtras(cs)
	var paths []string
	for _, f := range s.Files {
		paths = append(paths, f.Path)
		if chance(r, 30) {
			cs.Write(f.Path, pgen.Reindent(r, f.Render()))
			if strings.Count(cs.Read(f.Path), "\n") != strings.Count(f.Render(), "\n") || conf.header != "" && strings.HasPrefix(f.Render(), conf.header) != strings.HasPrefix(cs.Read(f.Path), conf.header) {
				cs.Write(f.Path, f.Render())
			}
		}
	}
	if p := protocCheck(cs, cs.W, paths...); p.Code != 0 {
		c.Count("sets protoc rejects", 1)
		cs.Note("protoc: %s", p.Err)
		return
	}
	want := lintRef(s.Files, conf)
	rules := map[string]bool{}
	for _, f := range want {
		rules[f.rule] = true
		c.Count("rule "+f.rule, 1)
	}
	got := lintRun(cs, "lint", "--json", ".")
	if got == nil {
		return
	}
	if d := core.DiffLists(findingList(want), findingList(got)); d != "" {
		cs.Fail("findings differ from the reference:\n%s", d)
		return
	}
	c.Count("findings", int64(len(got)))
	if len(got) >= 10 && len(rules) >= 5 {
		cs.Sig("%v", findingList(want))
	}
	// one file
	f := s.Files[r.Intn(len(s.Files))]
	if g1 := lintRunIn(cs, inDir(want, f.Path), "lint", "--json", f.Path); g1 != nil {
		var w1 []finding
		for _, x := range want {
			if x.file == f.Path {
				w1 = append(w1, x)
			}
		}
		c.Count("files linted alone", 1)
		if d := core.DiffLists(findingList(w1), findingList(g1)); d != "" {
			cs.Fail("findings of %s alone differ:\n%s", f.Path, d)
		}
	}
	// single rules
	for i := 0; i < 2; i++ {
		id := ids[r.Intn(len(ids))]
		lint["rules"] = M{"add": L{id}}
		cs.Write("prototool.yaml", toYAML(conf0, 0))
		g1 := lintRun(cs, "lint", "--json", ".")
		if g1 == nil {
			return
		}
		var w1 []finding
		for _, x := range want {
			if x.rule == id {
				w1 = append(w1, x)
			}
		}
		c.Count("rules run alone", 1)
		if d := core.DiffLists(findingList(w1), findingList(g1)); d != "" {
			cs.Fail("findings of %s alone differ:\n%s", id, d)
		}
	}
}

func allLinters(cs *core.Case) []string {
	res := cs.Run(core.Opt{Quiet: true}, "lint", "--list-all-linters")
	var ids []string
	for _, l := range core.SplitLines(res.Out) {
		ids = append(ids, strings.Fields(l)[0])
	}
	if len(ids) < 80 {
		cs.Fatal("only %d linters listed", len(ids))
	}
	return ids
}

// inDir selects the findings at or below the directory of file.
func inDir(fs []finding, file string) (out []finding) {
	for _, f := range fs {
		if d := path.Dir(file); d == "." || within(d, f.file) {
			out = append(out, f)
		}
	}
	return
}

// lintRun runs a lint command and parses its findings.
func lintRun(cs *core.Case, args ...string) []finding {
	return lintRunIn(cs, nil, args...)
}

// lintRunIn is lintRun for a single file, whose exit code is that of its
// directory; all are the findings there.
func lintRunIn(cs *core.Case, all []finding, args ...string) []finding {
	res := cs.P(args...)
	recs, e := parseRecs(res.Out)
	if e != "" {
		cs.Fail("%v: %s", args, e)
		return nil
	}
	if (res.Code == 0) != (len(recs) == 0 && len(all) == 0) || res.Code != 0 && res.Code != 255 {
		cs.Fail("%v: exit %d with %d findings; stderr %q", args, res.Code, len(recs), res.Err)
		return nil
	}
	out := []finding{}
	for _, x := range recs {
		if x.LintID == "" || x.Message == "" || strings.Contains(x.Message, "ystem error") {
			cs.Fail("%v: odd record %+v", args, x)
			return nil
		}
		out = append(out, finding{x.LintID, x.Filename, x.Line})
	}
	return out
}

//go:embed data/lintcases.txt
var lintCasesTxt string

// lintCases are constructs outside the generator's reach; want lists what the
// given rules must report.
var lintCases = func() (out []struct{ name, rules, want, src string }) {
	for _, p := range strings.Split("\n"+lintCasesTxt, "\n=== ")[1:] {
		l := strings.SplitN(p, "\n", 4)
		out = append(out, struct{ name, rules, want, src string }{l[0], strings.TrimPrefix(l[1], "rules"), strings.TrimPrefix(l[2], "want"), l[3] + "\n"})
	}
	return out
}()

func lintCaseNames() []string {
	var n []string
	for _, x := range lintCases {
		n = append(n, x.name)
	}
	return n
}

func c07Case(cs *core.Case) {
	x := lintCases[cs.I]
	cs.Write("prototool.yaml", toYAML(M{"protoc": M{"allow_unused_imports": true}, "lint": M{"group": "empty", "rules": M{"add": strsL(strings.Fields(x.rules))}}}, 0))
	cs.Write("g.proto", x.src)
	cs.Write("h.proto", "syntax = \"proto2\";\npackage g.v1;\nmessage H {\n  extensions 100 to 200;\n}\n")
	if p := protocCheck(cs, cs.W, "g.proto"); p.Code != 0 {
		cs.Fatal("protoc: %s", p.Err)
	}
	got := lintRun(cs, "lint", "--json", "g.proto")
	if got == nil {
		return
	}
	var l []string
	for _, f := range got {
		l = append(l, fmt.Sprintf("%s:%d", f.rule, f.line))
	}
	if d := core.DiffLists(core.Sorted(strings.Fields(x.want)), core.Sorted(l)); d != "" {
		cs.Fail("findings differ for %s:\n%s", x.name, d)
		return
	}
	cs.Sig("%s", x.name)
}
