package pgen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Tok is a lexical token of a Proto file.
type Tok struct {
	Kind byte // 'i' identifier, 'n' number, 's' string, 'y' symbol, 'c' // comment, 'C' /* comment
	Text string
	Line int
	End  int // line of the last character
	Off  int
	Bare bool // first token on its line
}

func identStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

// Tokenize splits Proto source as protoc does.
func Tokenize(src string) []Tok {
	var out []Tok
	line, i := 1, 0
	bare := true
	if strings.HasPrefix(src, "\xef\xbb\xbf") {
		i = 3
	}
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			line++
			i++
			bare = true
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' || c == '\f' || c == '\v' {
			i++
			continue
		}
		st, sl := i, line
		k := byte('y')
		switch {
		case strings.HasPrefix(src[i:], "//"):
			k = 'c'
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			k = 'C'
			e := strings.Index(src[i+2:], "*/")
			if e < 0 {
				i = len(src)
			} else {
				i += 2 + e + 2
			}
			line += strings.Count(src[st:i], "\n")
		case identStart(c):
			k = 'i'
			for i < len(src) && (identStart(src[i]) || digit(src[i])) {
				i++
			}
		case digit(c) || c == '.' && i+1 < len(src) && digit(src[i+1]):
			k = 'n'
			for i < len(src) && (identStart(src[i]) || digit(src[i]) || src[i] == '.' || (src[i] == '+' || src[i] == '-') && (src[i-1] == 'e' || src[i-1] == 'E') && !strings.HasPrefix(strings.ToLower(src[st:i]), "0x")) {
				i++
			}
		case c == '"' || c == '\'':
			k = 's'
			i++
			for i < len(src) && src[i] != c {
				if src[i] == '\\' {
					i++
				}
				i++
			}
			i++
			if i > len(src) {
				i = len(src)
			}
		default:
			i++
		}
		out = append(out, Tok{Kind: k, Text: src[st:i], Line: sl, End: line, Off: st, Bare: bare})
		bare = false
	}
	return out
}

// Code returns the tokens that are not comments.
func Code(t []Tok) []Tok {
	var out []Tok
	for _, x := range t {
		if x.Kind != 'c' && x.Kind != 'C' {
			out = append(out, x)
		}
	}
	return out
}

func wordy(t Tok) bool { return t.Kind == 'i' || t.Kind == 'n' }

// Relayout prints the tokens of a comment-free file with random white space.
// Dotted names are kept together unless split is set.
func Relayout(r *rand.Rand, src string, split bool) string {
	toks := Tokenize(src)
	var b strings.Builder
	style := r.Intn(4)
	nl := "\n"
	if r.Intn(5) == 0 {
		nl = "\r\n"
	}
	ws := func(must bool) string {
		switch style {
		case 0: // as tight as possible
			if must {
				return " "
			}
			return ""
		case 1: // one token per line
			return nl
		}
		n := r.Intn(4)
		if n == 0 && must {
			n = 1
		}
		s := ""
		for ; n > 0; n-- {
			s += []string{" ", " ", "\t", nl, nl + nl, "  ", nl + "  "}[r.Intn(7)]
		}
		return s
	}
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			glued := p.Off+len(p.Text) == t.Off
			must := wordy(p) && wordy(t) || p.Kind == 's' && t.Kind == 's' || p.Text == "/" || p.Kind == 'n' && t.Text == "." || p.Text == "." && t.Kind == 'n'
			keep := glued && !split && (p.Text == "." || t.Text == ".")
			if !keep {
				b.WriteString(ws(must))
			}
		} else if r.Intn(3) == 0 {
			b.WriteString(ws(false))
		}
		b.WriteString(t.Text)
	}
	if r.Intn(3) > 0 {
		b.WriteString(nl)
	}
	return b.String()
}

// Reindent changes only the indentation, trailing blanks and, where no
// comment is near, blank lines and the blanks between tokens.
func Reindent(r *rand.Rand, src string) string {
	inC := map[int]bool{}    // lines that continue a /* comment
	com := map[int]bool{}    // lines with a comment
	tail := map[int]string{} // the comment behind something
	last := 0
	for _, t := range Tokenize(src) {
		if t.Kind == 'c' && t.Line == last {
			tail[t.Line] = t.Text
		}
		last = t.End
		if t.Kind == 'c' || t.Kind == 'C' {
			for l := t.Line; l <= t.End; l++ {
				com[l] = true
			}
		}
		if t.Kind == 'C' {
			for l := t.Line + 1; l <= t.End; l++ {
				inC[l] = true
			}
		}
	}
	lines := strings.Split(src, "\n")
	var out []string
	for i, l := range lines {
		n := i + 1
		if inC[n] || inC[n+1] {
			out = append(out, l)
			continue
		}
		t := strings.TrimSpace(l)
		if t == "" {
			if i == len(lines)-1 {
				out = append(out, "")
				continue
			}
			out = append(out, strings.Repeat(" ", r.Intn(3)))
			if r.Intn(3) == 0 {
				out = append(out, "")
			}
			continue
		}
		if x := strings.TrimSpace(tail[n]); x != "" && strings.HasSuffix(t, x) && r.Intn(3) == 0 {
			t = strings.TrimRight(strings.TrimSuffix(t, x), " \t") + []string{" ", "\t", "    ", strings.Repeat(" ", 90+r.Intn(60))}[r.Intn(4)] + x
		}
		in := []string{"", " ", "  ", "\t", "      "}[r.Intn(5)]
		if r.Intn(25) == 0 {
			in = strings.Repeat(" ", 30+r.Intn(100))
		}
		t = in + t
		if !com[n] {
			t += []string{"", "", " ", "\t"}[r.Intn(4)]
		}
		out = append(out, t)
		if !com[n] && !com[n+1] && n < len(lines) && r.Intn(6) == 0 {
			out = append(out, "")
		}
	}
	return strings.Join(out, "\n")
}

// Anchor is a place a comment can stand next to.
type Anchor struct {
	Key    string
	Header bool
	First  int // line of the first token
	Last   int // line of the last token
}

// Comment is a comment with its surroundings.
type Comment struct {
	Text               []string // normalised, non-empty lines
	Line, End          int
	Bare               bool
	In                 *Anchor // inside this statement
	Prev, Next         *Anchor
	PrevBody, NextBody *Anchor
	NextLine           bool // Next starts on the line after
	PrevSame           bool // Prev ends on the same line
	TopLevel           bool
}

func normComment(t Tok) []string {
	s := t.Text
	if t.Kind == 'C' {
		s = strings.TrimRight(strings.TrimLeft(s, "/*"), "*/")
	} else {
		s = strings.TrimLeft(s, "/")
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimRight(l, " \t\r")
		if t.Kind == 'C' && strings.HasPrefix(l, "/") {
			l = " " + l // would be read as part of the slashes
		}
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

var headerWords = map[string]bool{"syntax": true, "package": true, "import": true, "option": true}

// Comments finds the comments of a file and the definitions they stand
// between. A definition is a statement up to its semicolon or block braces;
// the body of an rpc counts as one statement.
func Comments(src string) []*Comment {
	toks := Tokenize(src)
	var out []*Comment
	var pend []*Comment // waiting for the next anchor
	var prev, prevBody *Anchor
	var stack []string
	var stmt []Tok
	var cur *Anchor
	opaque := 0 // depth inside an rpc body or a value
	add := func(a *Anchor) {
		for _, c := range pend {
			if c.Next == nil {
				c.Next = a
				c.NextLine = a.First == c.End+1
			}
			if c.NextBody == nil && !a.Header {
				c.NextBody = a
			}
		}
		var keep []*Comment
		for _, c := range pend {
			if c.NextBody == nil {
				keep = append(keep, c)
			}
		}
		pend = keep
		prev = a
		if !a.Header {
			prevBody = a
		}
	}
	key := func(prefix string, t []Tok) string {
		w := []string{}
		for _, x := range t {
			w = append(w, x.Text)
		}
		return prefix + strings.Join(stack, "/") + ":" + strings.Join(w, " ")
	}
	// keyOf names a statement by what formatting cannot change.
	short := func(t []Tok) []Tok {
		if len(t) > 0 && (t[0].Text == "reserved" || t[0].Text == "extensions") && !hasEq(t) {
			return t[:1]
		}
		for i, x := range t {
			if x.Text == "=" || x.Text == "[" {
				t = t[:i]
				break
			}
		}
		return t
	}
	for _, t := range toks {
		if t.Kind == 'c' || t.Kind == 'C' {
			c := &Comment{Text: normComment(t), Line: t.Line, End: t.End, Bare: t.Bare, TopLevel: len(stack) == 0}
			out = append(out, c)
			if len(stmt) > 0 {
				if cur == nil {
					cur = &Anchor{First: stmt[0].Line, Header: len(stack) == 0 && headerWords[stmt[0].Text]}
				}
				c.In = cur
				continue
			}
			c.Prev, c.PrevBody = prev, prevBody
			c.PrevSame = prev != nil && prev.Last == t.Line
			pend = append(pend, c)
			continue
		}
		if len(stmt) == 0 && opaque == 0 {
			if t.Text == ";" { // empty statement
				continue
			}
			if t.Text == "}" {
				if len(stack) > 0 {
					stack = stack[:len(stack)-1]
				}
				a := &Anchor{Key: key("end ", nil) + "}", First: t.Line, Last: t.Line}
				add(a)
				continue
			}
		}
		stmt = append(stmt, t)
		switch {
		case opaque > 0 || t.Text == "[" || t.Text == "{" && hasEq(stmt) && !groupHead(stmt) || t.Text == "{" && stmt[0].Text == "rpc":
			switch t.Text {
			case "{", "[", "<":
				opaque++
			case "}", "]", ">":
				opaque--
				if opaque == 0 && t.Text == "}" && stmt[0].Text == "rpc" {
					goto done
				}
			}
			continue
		case t.Text == "{":
			a := cur
			if a == nil {
				a = &Anchor{First: stmt[0].Line}
			}
			a.Key = key("open ", short(stmt[:len(stmt)-1]))
			a.Last = t.Line
			n := short(stmt[:len(stmt)-1])
			add(a)
			nm := ""
			if len(n) > 0 {
				nm = n[len(n)-1].Text
			}
			stack = append(stack, nm)
			stmt, cur = nil, nil
			continue
		case t.Text == ";":
			goto done
		}
		continue
	done:
		{
			a := cur
			if a == nil {
				a = &Anchor{First: stmt[0].Line, Header: len(stack) == 0 && headerWords[stmt[0].Text]}
			}
			s := stmt[:len(stmt)-1]
			if stmt[0].Text == "rpc" {
				s = stmt[:2]
			} else if stmt[0].Text != "import" && stmt[0].Text != "syntax" {
				s = short(s)
			}
			a.Key = key("", s)
			a.Last = t.Line
			add(a)
			stmt, cur = nil, nil
		}
	}
	return out
}

func hasEq(t []Tok) bool {
	for _, x := range t {
		if x.Text == "=" {
			return true
		}
	}
	return false
}

// groupHead tells whether the tokens before the brace begin a group.
func groupHead(t []Tok) bool {
	for _, x := range t {
		if x.Text == "group" {
			return t[0].Text != "option"
		}
		if x.Text == "=" {
			return false
		}
	}
	return false
}

func akey(a *Anchor) string {
	if a == nil {
		return ""
	}
	return a.Key
}

// misplaced tells in what way the comment d of the output does not stand
// where the comment c of the input stood.
func misplaced(c, d *Comment) string {
	switch {
	case c.In != nil:
		k := c.In.Key
		if akey(d.In) != k && akey(d.Prev) != k && akey(d.Next) != k {
			return "stood within " + k
		}
	case c.Prev != nil && c.Prev.Header && c.PrevSame && !c.Bare:
		if k := c.Prev.Key; akey(d.Prev) != k && akey(d.Next) != k {
			return "stood after " + k
		}
	case c.Next != nil && c.Next.Header && c.NextLine && c.Bare:
		if k := c.Next.Key; akey(d.Next) != k {
			return "stood before " + k
		}
	case c.Next != nil && c.Next.Header && c.PrevBody == nil:
		if c.Prev == nil && d.Prev != nil {
			return "stood at the top of the file"
		}
		if d.PrevBody != nil {
			return "stood in the header of the file"
		}
	default:
		if akey(d.PrevBody) != akey(c.PrevBody) || akey(d.NextBody) != akey(c.NextBody) {
			return "stood between [" + akey(c.PrevBody) + "] and [" + akey(c.NextBody) + "]"
		}
	}
	return ""
}

// CompareComments tells how the comments of a formatted file differ from
// those of the source: lost, added, changed or moved.
func CompareComments(in, out string) string {
	type line struct {
		t string
		c *Comment
	}
	flat := func(s string) []line {
		var l []line
		for _, c := range Comments(s) {
			for _, t := range c.Text {
				l = append(l, line{t, c})
			}
		}
		return l
	}
	a, b := flat(in), flat(out)
	used := make([]bool, len(b))
	for _, x := range a {
		why, found := "", false
		for j, y := range b {
			if used[j] || y.t != x.t {
				continue
			}
			if why = misplaced(x.c, y.c); why == "" {
				used[j], found = true, true
				break
			}
		}
		if !found {
			if why == "" {
				return fmt.Sprintf("comment %q is lost", strings.TrimSpace(x.t))
			}
			return fmt.Sprintf("comment %q %s, and does not any more", strings.TrimSpace(x.t), why)
		}
	}
	for j, y := range b {
		if !used[j] {
			return fmt.Sprintf("comment %q is new or repeated", strings.TrimSpace(y.t))
		}
	}
	return ""
}

// Sprinkle inserts comments at line boundaries, at the ends of lines and
// around braces, outside rpc bodies and statements.
func Sprinkle(r *rand.Rand, src string, n int) string {
	toks := Tokenize(src)
	lines := strings.Split(src, "\n")
	// ok[i]: a comment may stand before line i+1
	ok := make([]bool, len(lines)+1)
	inl := make([]bool, len(lines)+1) // a comment may end line i+1
	for i := range ok {
		ok[i] = true
	}
	depth, rpc, start := 0, false, 0
	for i, t := range toks {
		if t.Kind == 'c' || t.Kind == 'C' {
			for l := t.Line; l < t.End; l++ {
				ok[l] = false
			}
			continue
		}
		if start == 0 {
			start = t.Line
			rpc = t.Text == "rpc"
			depth = 0
		}
		switch t.Text {
		case "{", "[":
			if rpc || depth > 0 || t.Text == "[" || i > 1 && toks[i-1].Text == "=" {
				depth++
				continue
			}
			for l := start; l < t.End; l++ {
				ok[l] = false
			}
			start = 0
			inl[t.Line-1] = true
		case "}", "]":
			if depth > 0 {
				depth--
				if depth == 0 && rpc {
					for l := start; l < t.End; l++ {
						ok[l] = false
					}
					start = 0
					inl[t.Line-1] = true
				}
				continue
			}
			start = 0
			inl[t.Line-1] = true
		case ";":
			if depth == 0 {
				for l := start; l < t.End; l++ {
					ok[l] = false
				}
				start = 0
				inl[t.Line-1] = true
			}
		}
	}
	last := map[int]bool{}
	for _, t := range toks {
		for l := t.Line; l <= t.End; l++ {
			last[l] = t.Kind == 'c' || t.Kind == 'C' || t.Text == ","
		}
	}
	id := 0
	txt := func() string {
		id++
		w := []string{"note", "the thing", "a; b", "{ x", "} y", "\"q\"", "see http://x.y/z", "it's", "100%", "option x = 1;", "end.", "[a]", "tab\tbed", "é"}
		s := w[r.Intn(len(w))]
		if r.Intn(3) == 0 {
			s += " " + w[r.Intn(len(w))]
		}
		return fmt.Sprintf("%s s%d", s, id)
	}
	block := func() []string {
		switch r.Intn(8) {
		case 7:
			return []string{"/* " + txt(), []string{"/", "//", "/ ", "\t/", "\t", "*/"[:1], "* /"}[r.Intn(7)] + txt(), "x " + txt(), "*/"}
		case 0:
			return []string{"/* " + txt() + " */"}
		case 1:
			return []string{"/* " + txt(), "   " + txt(), " * " + txt() + " */"}
		case 2:
			return []string{"/**", " * " + txt(), " */"}
		case 3:
			return []string{"//" + txt(), "//", "//   " + txt()}
		case 4:
			return []string{"/// " + txt()}
		case 5:
			return []string{"// " + txt(), "", "// " + txt()}
		}
		return []string{"// " + txt()}
	}
	ins := map[int][]string{}
	app := map[int]string{}
	for k := 0; k < n; k++ {
		i := r.Intn(len(lines))
		if r.Intn(3) == 0 {
			if inl[i] && !last[i+1] && app[i] == "" {
				if r.Intn(4) == 0 {
					app[i] = " /* " + txt() + " */"
				} else {
					app[i] = " // " + txt()
				}
			}
			continue
		}
		if ok[i] {
			b := block()
			if r.Intn(3) == 0 {
				b = append(b, "")
			}
			if r.Intn(3) == 0 {
				b = append([]string{""}, b...)
			}
			ins[i] = append(ins[i], b...)
		}
	}
	var out []string
	for i, l := range lines {
		out = append(out, ins[i]...)
		out = append(out, l+app[i])
	}
	return strings.Join(out, "\n")
}
