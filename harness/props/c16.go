package props

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/csv"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"verif/harness/core"
	"verif/harness/pb"
)

func init() {
	core.Register(&core.Prop{ID: "C16", Level: "exploration", Race: true, Run: runC16,
		Rule: "what a recording server received (method, metadata, messages in order) and what the client printed (messages in order, verdict) equal what was asked for and what was sent, decoded by a model of their own",
		Notes: []string{"Server and client talk over the loopback network or a unix socket; the server is google.golang.org/grpc with a codec that keeps the raw bytes.",
			"A message without any field set is printed as nothing, which the code does on purpose.",
			"An extended timing limit of some seconds decides that a timeout took effect."}})
}

func runC16(c *core.Ctx) {
	c.Each("call", c.N(220, 5000), c16Call)
	c.Each("status", c.N(80, 1500), c16Status)
	c.Each("bad", c.N(100, 2000), c16Bad)
	c.Named("case", c16Names, c16Case)
}

// ---- schema ----

type gmethod struct {
	path    string // "pkg.Service/Method"
	in, out string // full names with the dot
	cs, ss  bool
	file    string
}

type gsvc struct {
	files   map[string]string
	methods []gmethod
	pool    *pb.Pool
}

func (g *gsvc) names() (l []string) {
	for f := range g.files {
		l = append(l, f)
	}
	sort.Strings(l)
	return l
}

var scalarKinds = []string{"int32", "sint32", "sfixed32", "int64", "sint64", "sfixed64", "uint32", "fixed32", "uint64", "fixed64", "bool", "float", "double", "string", "bytes"}
var keyKinds = []string{"int32", "sint32", "sfixed32", "int64", "sint64", "sfixed64", "uint32", "fixed32", "uint64", "fixed64", "bool", "string"}
var wkts = []string{"Timestamp", "Duration", "Struct", "Value", "ListValue", "Any", "Empty", "DoubleValue", "FloatValue", "Int64Value", "UInt64Value", "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue"}
var wktFiles = []string{"any", "duration", "empty", "struct", "timestamp", "wrappers"}

// grpcSchema writes a random set of files with services.
func grpcSchema(r *rand.Rand) *gsvc {
	g := &gsvc{files: map[string]string{}}
	pkgs := []string{"a.v1", "a.v1.b", "a.v1b", "a", "b.v1", "foo.bar.baz.v2"}
	type typ struct {
		name, file string
		p2         bool
	}
	var msgs []typ
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		pkg := pkgs[r.Intn(len(pkgs))]
		file := strings.Replace(pkg, ".", "/", -1) + fmt.Sprintf("/f%d.proto", i)
		if chance(r, 30) {
			file = fmt.Sprintf("f%d.proto", i)
		}
		p2 := chance(r, 30)
		var b strings.Builder
		imports := map[string]bool{}
		for _, w := range wktFiles {
			imports["google/protobuf/"+w+".proto"] = true
		}
		var local []typ
		refs := func(scoped string) string {
			// a message type, of this file or of one before
			c := append([]typ{}, local...)
			for _, t := range msgs {
				c = append(c, t)
			}
			if len(c) == 0 || chance(r, 25) {
				return ".google.protobuf." + wkts[r.Intn(len(wkts))]
			}
			t := c[r.Intn(len(c))]
			if t.file != file {
				imports[t.file] = true
			}
			return "." + t.name
		}
		id := 0
		var message func(indent, scope string, depth int)
		message = func(indent, scope string, depth int) {
			id++
			name := fmt.Sprintf("M%d_%d", i, id)
			full := scope + "." + name
			fmt.Fprintf(&b, "%smessage %s {\n", indent, name)
			in := indent + "  "
			var enums []string
			if chance(r, 50) {
				en := fmt.Sprintf("E%d_%d", i, id)
				fmt.Fprintf(&b, "%senum %s {\n%s  %s_ZERO = 0;\n%s  %s_ONE = 1;\n%s  %s_NEG = -7;\n%s  %s_BIG = 2147483647;\n%s}\n", in, en, in, en, in, en, in, en, in, en, in)
				enums = append(enums, "."+full+"."+en)
			}
			if depth > 0 && chance(r, 40) {
				message(in, full, depth-1)
			}
			local = append(local, typ{full, file, p2})
			num := 0
			next := func() int {
				num += 1 + r.Intn(3)
				if chance(r, 5) {
					num += 15000
				}
				if num >= 19000 && num < 20000 {
					num = 20000
				}
				return num
			}
			fname := func() string {
				return []string{"value", "foo_bar", "fooBaz", "URL", "x_1", "a__b", "message", "string_", "_lead", "Upper_Case", "id"}[r.Intn(11)] + fmt.Sprintf("_%d", num)
			}
			ftype := func() string {
				switch k := r.Intn(10); {
				case k < 6:
					return scalarKinds[r.Intn(len(scalarKinds))]
				case k < 7 && len(enums) > 0:
					return enums[0]
				default:
					return refs(full)
				}
			}
			for k := r.Intn(7); k > 0; k-- {
				x := next()
				label := ""
				if p2 {
					label = "optional "
				}
				opt := ""
				switch r.Intn(10) {
				case 0, 1:
					label = "repeated "
					t := ftype()
					if contains(scalarKinds[:13], t) && chance(r, 40) {
						opt = fmt.Sprintf(" [packed = %v]", chance(r, 50))
					}
					fmt.Fprintf(&b, "%s%s%s %s = %d%s;\n", in, label, t, fname(), x, opt)
				case 2:
					fmt.Fprintf(&b, "%smap<%s, %s> %s = %d;\n", in, keyKinds[r.Intn(len(keyKinds))], ftype(), fname(), x)
				case 3:
					fmt.Fprintf(&b, "%soneof o_%d {\n", in, x)
					for j := 0; j < 1+r.Intn(3); j++ {
						fmt.Fprintf(&b, "%s  %s %s = %d;\n", in, ftype(), fname(), x)
						x = next()
					}
					fmt.Fprintf(&b, "%s}\n", in)
				case 4:
					if p2 && chance(r, 50) {
						fmt.Fprintf(&b, "%srequired %s %s = %d;\n", in, scalarKinds[r.Intn(len(scalarKinds))], fname(), x)
						break
					}
					fmt.Fprintf(&b, "%s%s%s %s = %d [json_name = \"j%d%s\"];\n", in, label, ftype(), fname(), x, x, pick(r, "", "-x", ".y", "_Z", "é"))
				default:
					fmt.Fprintf(&b, "%s%s%s %s = %d;\n", in, label, ftype(), fname(), x)
				}
			}
			fmt.Fprintf(&b, "%s}\n", indent)
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			message("", pkg, 2)
		}
		for k := r.Intn(3); k > 0 || i == n-1 && len(g.methods) == 0; k-- {
			sn := fmt.Sprintf("S%d_%d", i, k)
			if chance(r, 30) {
				sn = fmt.Sprintf("FooAPI%d%d", i, k+1)
			}
			fmt.Fprintf(&b, "service %s {\n", sn)
			for j := 0; j < 1+r.Intn(4); j++ {
				m := gmethod{path: fmt.Sprintf("%s.%s/R%d", pkg, sn, j), in: refs(""), out: refs(""), cs: chance(r, 50), ss: chance(r, 50), file: file}
				st := func(x bool) string {
					if x {
						return "stream "
					}
					return ""
				}
				fmt.Fprintf(&b, "  rpc R%d(%s%s) returns (%s%s);\n", j, st(m.cs), m.in, st(m.ss), m.out)
				g.methods = append(g.methods, m)
			}
			b.WriteString("}\n")
			if k <= 0 {
				break
			}
		}
		syn := "proto3"
		if p2 {
			syn = "proto2"
		}
		head := fmt.Sprintf("syntax = %q;\n\npackage %s;\n\n", syn, pkg)
		for _, x := range sortedKeys(imports) {
			head += fmt.Sprintf("import %q;\n", x)
		}
		g.files[file] = head + "\n" + b.String()
		msgs = append(msgs, local...)
	}
	return g
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// putGRPC writes the files and loads their types; false if protoc rejects them.
func putGRPC(cs *core.Case, g *gsvc) bool {
	cs.Write("d/prototool.yaml", "protoc:\n  allow_unused_imports: true\n")
	for f, t := range g.files {
		cs.Write("d/"+f, t)
	}
	set, e := protocSet(cs, filepath.Join(cs.W, "d"), g.names()...)
	if e != "" {
		cs.C.Count("schemas protoc rejects", 1)
		cs.Sample("rejected: " + e)
		return false
	}
	g.pool = pb.NewPool(set)
	return true
}

// ---- server ----

type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (rawCodec) String() string { return "proto" }

type plan struct {
	mode            string // after, inter, before, early, hang
	resp            [][]byte
	code            codes.Code
	msg             string
	header, trailer metadata.MD
	stopAfter       int // with mode "kill": responses before the server is torn down
}

type gcall struct {
	method string
	md     metadata.MD
	msgs   [][]byte
	eof    bool
	err    error
	done   chan bool
}

type gserver struct {
	mu    sync.Mutex
	plan  plan
	vid   int // tells the calls of one run from late ones of another
	calls []*gcall
	s     *grpc.Server
	addr  string
}

func startServer(cs *core.Case, network string, creds credentials.TransportCredentials) *gserver {
	g := &gserver{}
	var lis net.Listener
	var err error
	if network == "unix" {
		p := filepath.Join(cs.Dir, "s.sock")
		lis, err = net.Listen("unix", p)
		g.addr = "unix://" + p
	} else {
		lis, err = net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			g.addr = lis.Addr().String()
		}
	}
	if err != nil {
		cs.Fatal("listen: %v", err)
	}
	opts := []grpc.ServerOption{grpc.CustomCodec(rawCodec{}), grpc.UnknownServiceHandler(g.handle), grpc.MaxRecvMsgSize(64 << 20)}
	if creds != nil {
		opts = append(opts, grpc.Creds(creds))
	}
	g.s = grpc.NewServer(opts...)
	go g.s.Serve(lis)
	return g
}

func (g *gserver) set(p plan) {
	g.mu.Lock()
	g.plan, g.calls = p, nil
	g.vid++
	g.mu.Unlock()
}

// take returns the calls seen since set, waiting for those that run.
func (g *gserver) take() []*gcall {
	g.mu.Lock()
	var l []*gcall
	for _, c := range g.calls {
		if v := c.md["x-vid"]; len(v) == 0 || v[0] == itoa(g.vid) {
			l = append(l, c)
		}
	}
	g.mu.Unlock()
	for _, c := range l {
		select {
		case <-c.done:
		case <-time.After(10 * time.Second):
			c.err = fmt.Errorf("the handler does not end")
		}
	}
	return l
}

func (g *gserver) handle(_ interface{}, st grpc.ServerStream) error {
	m, _ := grpc.MethodFromServerStream(st)
	md, _ := metadata.FromIncomingContext(st.Context())
	c := &gcall{method: m, md: md, done: make(chan bool)}
	g.mu.Lock()
	p := g.plan
	g.calls = append(g.calls, c)
	g.mu.Unlock()
	defer close(c.done)
	if p.header != nil {
		st.SetHeader(p.header)
	}
	if p.trailer != nil {
		st.SetTrailer(p.trailer)
	}
	sent := 0
	send := func() {
		if sent < len(p.resp) {
			b := p.resp[sent]
			sent++
			if err := st.SendMsg(&b); err != nil && c.err == nil {
				c.err = err
			}
		}
	}
	recv := func() bool {
		var b []byte
		err := st.RecvMsg(&b)
		if err == io.EOF {
			c.eof = true
			return false
		}
		if err != nil {
			c.err = err
			return false
		}
		c.msgs = append(c.msgs, b)
		return true
	}
	switch p.mode {
	case "before":
		for sent < len(p.resp) {
			send()
		}
		for recv() {
		}
	case "inter":
		for recv() {
			send()
		}
	case "early":
	case "hang":
		for sent < len(p.resp) {
			send()
		}
		<-st.Context().Done()
		return st.Context().Err()
	case "kill":
		for sent < len(p.resp) {
			send()
		}
		time.Sleep(150 * time.Millisecond)
		go g.s.Stop()
		<-st.Context().Done()
		return st.Context().Err()
	default:
		for recv() {
		}
	}
	for sent < len(p.resp) {
		send()
	}
	if p.code != codes.OK {
		return status.Error(p.code, p.msg)
	}
	return nil
}

// ---- calls ----

type gin struct {
	m     gmethod
	msgs  []*pb.M
	data  string // the JSON text
	stdin bool
	hdr   [][2]string
	all   bool // types of all files are needed
}

func (g *gsvc) request(r *rand.Rand, m gmethod, n int) *gin {
	in := &gin{m: m, stdin: chance(r, 50)}
	for i := 0; i < n; i++ {
		x := g.pool.Random(r, g.pool.Msgs[m.in], 3)
		in.msgs = append(in.msgs, x)
		in.all = in.all || x.HasAny()
		in.data += x.JSON(r) + pick(r, "\n", " ", "\n\n", "\t", " \r\n")
	}
	if n == 0 || strings.ContainsRune(in.data, 0) || len(in.data) > 100000 {
		in.stdin = true
	}
	return in
}

func (g *gsvc) run(cs *core.Case, srv *gserver, in *gin, opt core.Opt, extra ...string) *core.Res {
	r := cs.R
	opt.Dir = filepath.Join(cs.W, "d")
	args := []string{"grpc"}
	switch r.Intn(4) {
	case 0:
		if !in.all {
			args = append(args, in.m.file)
		}
	case 1:
		args = append(args, ".")
	}
	args = append(args, "--address", srv.addr, "--method", in.m.path, "-H", "x-vid:"+itoa(srv.vid))
	if in.stdin {
		args, opt.Stdin = append(args, "--stdin"), in.data
	} else {
		args = append(args, "--data", in.data)
	}
	for _, h := range in.hdr {
		args = append(args, pick(r, "-H", "--header"), csvText(h[0]+":"+h[1]))
	}
	if opt.Timeout == 0 {
		opt.Timeout = 60 * time.Second
	}
	return cs.Run(opt, append(args, extra...)...)
}

// csvText quotes a value for a flag that takes a comma-separated list.
func csvText(s string) string {
	var b strings.Builder
	w := csv.NewWriter(&b)
	w.Write([]string{s})
	w.Flush()
	return strings.TrimSuffix(b.String(), "\n")
}

// received compares what the server saw with what was asked for.
func (g *gsvc) received(cs *core.Case, c *gcall, in *gin) bool {
	if c.method != "/"+in.m.path {
		cs.Fail("the server saw method %s instead of %s", c.method, in.m.path)
		return false
	}
	want := in.msgs
	if len(want) == 0 && !in.m.cs {
		want = []*pb.M{pb.New(g.pool.Msgs[in.m.in])} // no input is the empty message
	}
	if len(c.msgs) != len(want) {
		cs.Fail("the server received %d messages instead of %d", len(c.msgs), len(want))
		return false
	}
	for i, b := range c.msgs {
		x, err := g.pool.Parse(g.pool.Msgs[in.m.in], b)
		if err != nil {
			cs.Fail("message %d is malformed: %v (%x)", i, err, b)
			return false
		}
		if !pb.Equal(x, want[i]) {
			cs.Fail("message %d was received as\n%s\ninstead of\n%s\nof the JSON %s", i, x.Canon(), want[i].Canon(), want[i].JSON(nil))
			return false
		}
	}
	want2 := map[string][]string{}
	for _, h := range in.hdr {
		k := strings.ToLower(strings.TrimSpace(h[0]))
		want2[k] = append(want2[k], strings.TrimSpace(h[1]))
	}
	for k, l := range want2 {
		got := c.md[k]
		if d := core.DiffLists(core.Sorted(l), core.Sorted(got)); d != "" {
			cs.Fail("header %s was received as %q instead of %q", k, got, l)
			return false
		}
	}
	return true
}

// printed compares what the client printed with what the server sent.
func (g *gsvc) printed(cs *core.Case, lines []string, sent []*pb.M, details bool) bool {
	i := 0
	for _, x := range sent {
		if x.JSON(nil) == "{}" {
			cs.C.Count("empty responses", 1)
			continue
		}
		if i >= len(lines) {
			cs.Fail("a response was not printed: %s", x.JSON(nil))
			return false
		}
		l := lines[i]
		i++
		if details {
			if !strings.HasPrefix(l, `{"response":`) || !strings.HasSuffix(l, "}") {
				cs.Fail("this is no response: %s", l)
				return false
			}
			l = l[len(`{"response":`) : len(l)-1]
		}
		y, err := g.pool.FromJSON(x.D, l)
		if err != nil {
			cs.Fail("the response is not the JSON of a %s: %v: %s", x.D.Full, err, l)
			return false
		}
		if !pb.Equal(x, y) {
			cs.Fail("the response was printed as\n%s\nthat is\n%s\ninstead of\n%s", l, y.Canon(), x.Canon())
			return false
		}
	}
	if i < len(lines) {
		cs.Fail("printed beside the responses: %s", lines[i])
		return false
	}
	return true
}

var hdrNames = []string{"x-a", "x-b", "X-Upper", "authorization", "x.dot", "x_under", "x-1"}
var hdrValues = []string{"1", "two words", "a:b:c", "", "Bearer abc==", "a,b", `quo"te`, "trailing ", " leading", "~!@#$%^&*()", "x=y;z"}

func c16Call(cs *core.Case) {
	c, r := cs.C, cs.R
	g := grpcSchema(r)
	if !putGRPC(cs, g) {
		return
	}
	network := pick(r, "tcp", "tcp", "unix")
	srv := startServer(cs, network, nil)
	defer srv.s.Stop()
	for k := 0; k < 5; k++ {
		m := g.methods[r.Intn(len(g.methods))]
		n := 1
		if m.cs {
			n = []int{0, 1, 2, 3, 7, 25}[r.Intn(6)]
		} else if chance(r, 5) {
			n = 0
		}
		in := g.request(r, m, n)
		for i := r.Intn(4); i > 0; i-- {
			in.hdr = append(in.hdr, [2]string{hdrNames[r.Intn(len(hdrNames))], hdrValues[r.Intn(len(hdrValues))]})
		}
		p := plan{mode: "after"}
		if m.cs && m.ss {
			p.mode = pick(r, "after", "inter", "before")
		}
		nr := 1
		if m.ss {
			nr = []int{0, 1, 2, 3, 8, 30}[r.Intn(6)]
		}
		var sent []*pb.M
		for i := 0; i < nr; i++ {
			x := g.pool.Random(r, g.pool.Msgs[m.out], 3)
			sent = append(sent, x)
			in.all = in.all || x.HasAny()
			p.resp = append(p.resp, x.Wire(r))
		}
		details := chance(r, 25)
		var extra []string
		if details {
			extra = append(extra, "--details")
			if chance(r, 60) {
				p.header = metadata.MD{"x-h": {"1", "2"}}
			}
			if chance(r, 60) {
				p.trailer = metadata.MD{"x-t": {"end of it"}}
			}
		}
		srv.set(p)
		opt := core.Opt{}
		if chance(r, 15) {
			opt.Race = true
		}
		res := g.run(cs, srv, in, opt, extra...)
		if !verdict(cs, res) {
			return
		}
		calls := srv.take()
		c.Count("calls", 1)
		c.Count(fmt.Sprintf("shape client-stream=%v server-stream=%v", m.cs, m.ss), 1)
		c.Count("requests received", int64(len(in.msgs)))
		c.Count("responses sent", int64(len(sent)))
		if res.Code != 0 || res.Races != "" {
			cs.Fail("a call the server answered with OK fails:\n%s%s%s", res.Out, res.Err, res.Races)
			return
		}
		if len(calls) != 1 {
			cs.Fail("the server saw %d calls", len(calls))
			return
		}
		if calls[0].err != nil || !calls[0].eof {
			cs.Fail("the request stream did not end as such: %v", calls[0].err)
			return
		}
		if !g.received(cs, calls[0], in) {
			return
		}
		lines := core.SplitLines(res.Out)
		if details {
			lines = c16Details(cs, lines, p)
		}
		if !g.printed(cs, lines, sent, details) {
			return
		}
		cs.Sig("%s %v %v %d %d", m.in+m.out, m.cs, m.ss, n, nr)
	}
}

// c16Details takes the lines that are no responses from the detailed output,
// holding their content and place to what was sent.
func c16Details(cs *core.Case, lines []string, p plan) []string {
	var rest []string
	get := func(l, k string) map[string][]string {
		var v map[string]map[string][]string
		if err := json.Unmarshal([]byte(l), &v); err != nil || v[k] == nil {
			cs.Fail("bad %s: %s", k, l)
		}
		return v[k]
	}
	trailer := false
	for i, l := range lines {
		switch {
		case strings.HasPrefix(l, `{"headers":`):
			if i != 0 {
				cs.Fail("headers are line %d", i)
			}
			h := get(l, "headers")
			for k, v := range p.header {
				if core.DiffLists(h[k], v) != "" {
					cs.Fail("header %s printed as %q", k, h[k])
				}
			}
		case strings.HasPrefix(l, `{"trailers":`):
			trailer = true
			if i != len(lines)-1 {
				cs.Fail("trailers are not last")
			}
			h := get(l, "trailers")
			for k, v := range p.trailer {
				if core.DiffLists(h[k], v) != "" {
					cs.Fail("trailer %s printed as %q", k, h[k])
				}
			}
		case strings.HasPrefix(l, `{"status":`):
			var v struct {
				Status struct {
					Code    int
					Message string
				}
			}
			if err := json.Unmarshal([]byte(l), &v); err != nil || v.Status.Code != int(p.code) || v.Status.Message != p.msg {
				cs.Fail("status %v %q printed as %s", p.code, p.msg, l)
			}
		default:
			rest = append(rest, l)
		}
	}
	if p.header != nil && (len(lines) == 0 || !strings.HasPrefix(lines[0], `{"headers":`)) {
		cs.Fail("no headers are printed")
	}
	if p.trailer != nil && !trailer {
		cs.Fail("no trailers are printed")
	}
	return rest
}

func c16Status(cs *core.Case) {
	c, r := cs.C, cs.R
	g := grpcSchema(r)
	if !putGRPC(cs, g) {
		return
	}
	srv := startServer(cs, pick(r, "tcp", "unix"), nil)
	defer srv.s.Stop()
	for k := 0; k < 5; k++ {
		m := g.methods[r.Intn(len(g.methods))]
		n := 1
		if m.cs {
			n = r.Intn(5)
		}
		in := g.request(r, m, n)
		p := plan{mode: "after", code: codes.Code(1 + r.Intn(16)), msg: pick(r, "no such thing", "ünïcode 漢", "with \"quotes\" and 100% percent", "two\nlines", "", "rpc error: code = OK desc = fake")}
		early := m.cs && chance(r, 25)
		if early {
			p.mode = "early"
		}
		var sent []*pb.M
		if m.ss && !early {
			for i := r.Intn(4); i > 0; i-- {
				x := g.pool.Random(r, g.pool.Msgs[m.out], 2)
				sent = append(sent, x)
				in.all = in.all || x.HasAny()
				p.resp = append(p.resp, x.Wire(r))
			}
		}
		details := chance(r, 25)
		var extra []string
		if details {
			extra = append(extra, "--details")
			p.header, p.trailer = metadata.MD{"x-h": {"1"}}, metadata.MD{"x-t": {"end"}}
			if len(sent) == 0 {
				p.header = nil // may come as trailers only
			}
		}
		srv.set(p)
		res := g.run(cs, srv, in, core.Opt{}, extra...)
		if !verdict(cs, res) {
			return
		}
		calls := srv.take()
		c.Count("status "+p.code.String(), 1)
		if res.Code == 0 {
			cs.Fail("the status %v gives exit code 0:\n%s", p.code, res.Out)
			return
		}
		if len(calls) != 1 {
			cs.Fail("the server saw %d calls", len(calls))
			return
		}
		if !early && !g.received(cs, calls[0], in) {
			return
		}
		want := fmt.Sprintf("rpc error: code = %s desc = %s\n", p.code, p.msg)
		if !strings.HasSuffix(res.Out, want) {
			cs.Fail("the status %v %q is not named at the end of:\n%s%s", p.code, p.msg, res.Out, res.Err)
			return
		}
		lines := core.SplitLines(strings.TrimSuffix(res.Out, want))
		if details {
			lines = c16Details(cs, lines, p)
		}
		if !g.printed(cs, lines, sent, details) {
			return
		}
		cs.Sig("%v %v %v %d", p.code, m.cs, m.ss, len(sent))
	}
}

// spoil makes a JSON text that denotes no message of the type.
func (g *gsvc) spoil(r *rand.Rand, d *pb.Msg) (text, why string) {
	good := "{}"
	if !strings.HasPrefix(d.Full, ".google.") {
		good = g.pool.Random(r, d, 2).JSON(r)
	}
	for try := 0; try < 30; try++ {
		switch r.Intn(7) {
		case 0:
			return good[:len(good)-1], "cut"
		case 1:
			return "nonsense", "no JSON"
		case 2:
			if !strings.HasPrefix(d.Full, ".google.") {
				return pick(r, `[1]`, `"text"`, `7`, `true`), "no object"
			}
		case 3:
			if !strings.HasPrefix(d.Full, ".google.") {
				return `{"no such field":1}`, "unknown field"
			}
		case 4:
			return good + "}", "trailing"
		default:
			if strings.HasPrefix(d.Full, ".google.") || len(d.Fields) == 0 {
				continue
			}
			f := d.Fields[r.Intn(len(d.Fields))]
			if f.Rep {
				continue
			}
			bad := map[string][]string{"int32": {`"x"`, "2147483648", "1.5", "true", "{}"}, "uint32": {"-1", "4294967296", `"x"`}, "int64": {"9223372036854775808", `"x"`, "{}"}, "uint64": {"-1", "18446744073709551616", "true"},
				"bool": {"1", `"yes"`, "{}"}, "string": {"1", "true", "{}"}, "bytes": {`"***"`, "1"}, "enum": {`"NO_SUCH"`, "2147483648", "{}"}, "float": {`"x"`, "true"}, "double": {`"x"`, "{}"}, "message": {"1", `"x y"`, "true"}}
			k := f.Kind
			switch k {
			case "sint32", "sfixed32":
				k = "int32"
			case "sint64", "sfixed64":
				k = "int64"
			case "fixed32":
				k = "uint32"
			case "fixed64":
				k = "uint64"
			}
			if f.Msg != nil && strings.HasPrefix(f.Msg.Full, ".google.") {
				continue
			}
			v := pick(r, bad[k]...)
			return fmt.Sprintf("{%q:%s}", f.JSON, v), "field " + f.Kind + " = " + v
		}
	}
	return "{", "cut"
}

func c16Bad(cs *core.Case) {
	c, r := cs.C, cs.R
	g := grpcSchema(r)
	if !putGRPC(cs, g) {
		return
	}
	srv := startServer(cs, "tcp", nil)
	defer srv.s.Stop()
	for k := 0; k < 5; k++ {
		m := g.methods[r.Intn(len(g.methods))]
		good := 0
		if m.cs {
			good = r.Intn(4)
		}
		in := g.request(r, m, good)
		text, why := g.spoil(r, g.pool.Msgs[m.in])
		if !m.cs && chance(r, 25) {
			text, why = "{} {}", "two messages"
		}
		in.data += text
		in.stdin = chance(r, 50)
		p := plan{mode: "after"}
		if m.cs && m.ss {
			p.mode = pick(r, "after", "inter")
		}
		x := g.pool.Random(r, g.pool.Msgs[m.out], 2)
		p.resp = [][]byte{x.Wire(r)}
		if p.mode == "inter" {
			p.resp = nil
		}
		srv.set(p)
		res := g.run(cs, srv, in, core.Opt{})
		if !verdict(cs, res) {
			return
		}
		calls := srv.take()
		c.Count("bad input: "+strings.SplitN(why, " =", 2)[0], 1)
		if res.Code == 0 {
			cs.Fail("%s: input that denotes no %s is accepted: %s", why, m.in, text)
			return
		}
		for _, l := range calls {
			if !m.cs && why != "trailing" {
				cs.Fail("%s: a call was made although the request is bad", why)
				return
			}
			if l.eof && len(l.msgs) == 0 && good > 0 {
				cs.Fail("the request stream ended as if complete")
				return
			}
			if l.eof {
				cs.Fail("%s: the server takes the request stream for complete", why)
				return
			}
			want := good
			if why == "trailing" {
				want++
			}
			if len(l.msgs) > want {
				cs.Fail("%s: the server received %d messages, of which only %d are good", why, len(l.msgs), want)
				return
			}
			for i, b := range l.msgs {
				if i >= good {
					break
				}
				y, err := g.pool.Parse(g.pool.Msgs[m.in], b)
				if err != nil || !pb.Equal(y, in.msgs[i]) {
					cs.Fail("message %d before the bad one was received wrong (%v)", i, err)
					return
				}
			}
		}
		if len(core.SplitLines(res.Out)) == 0 {
			cs.Fail("no reason is given")
			return
		}
		cs.Sig("%s %v %v", why, m.cs, m.ss)
	}
}

// ---- named cases ----

var c16Names = []string{"unreachable", "unreachable unix", "blackhole", "closes at once", "talks garbage", "call timeout unary", "call timeout stream", "server dies midway", "server dies before",
	"unknown service", "unknown method", "no slash", "two slashes", "empty method", "service is a message", "bad network", "bad durations", "no data", "data and stdin", "header without colon", "duplicate headers", "empty file set",
	"does not compile", "package-less service", "package-less file elsewhere", "prefix packages", "same service name", "import service", "Any of the same file", "Any of an imported file", "Any of another file", "Any of another directory", "Any response of another file",
	"Any response of unknown type", "corrupt response", "wrong response", "large request", "large response", "too large response", "many messages", "many responses", "interactive", "self-signed", "cacert", "wrong cacert", "server name", "wrong server name", "client certificate", "missing client certificate", "insecure", "plain to tls", "tls to plain", "tls flags",
	"keepalive", "empty input", "white space input", "null input", "concatenated input", "proto2 group", "proto2 extension", "proto3 optional", "unknown response field", "leading dot", "config-data", "binary header", "error format", "single file among broken", "recursive message", "deep message", "output closed", "long duration", "odd map keys", "empty Any", "empty BytesValue", "null Value in a map", "list in a Value", "nested Any"}

type cert struct {
	certPEM, keyPEM []byte
	pair            tls.Certificate
	x               *x509.Certificate
	key             *ecdsa.PrivateKey
}

func makeCert(cs *core.Case, name string, parent *cert, dns ...string) *cert {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		cs.Fatal("%v", err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(name)) + 7), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: dns, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	p, pk := t, key
	if parent == nil {
		t.IsCA = true
	} else {
		p, pk = parent.x, parent.key
	}
	der, err := x509.CreateCertificate(crand.Reader, t, p, &key.PublicKey, pk)
	if err != nil {
		cs.Fatal("%v", err)
	}
	kb, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		cs.Fatal("%v", err)
	}
	c := &cert{certPEM: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), keyPEM: pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), key: key}
	c.x, _ = x509.ParseCertificate(der)
	c.pair, err = tls.X509KeyPair(c.certPEM, c.keyPEM)
	if err != nil {
		cs.Fatal("%v", err)
	}
	ioutil.WriteFile(filepath.Join(cs.Dir, name+".crt"), c.certPEM, 0644)
	ioutil.WriteFile(filepath.Join(cs.Dir, name+".key"), c.keyPEM, 0600)
	return c
}

const echoBody = `
message Req {
  string value = 1;
}

message Rsp {
  string value = 1;
  int32 n = 2;
}

service Echo {
  rpc Unary(Req) returns (Rsp);
  rpc Client(stream Req) returns (Rsp);
  rpc Server(Req) returns (stream Rsp);
  rpc Bidi(stream Req) returns (stream Rsp);
}
`

func c16Case(cs *core.Case) {
	name := c16Names[cs.I]
	g := &gsvc{files: map[string]string{"a/a.proto": "syntax = \"proto3\";\n\npackage a.v1;\n" + echoBody}}
	meth := "a.v1.Echo/Unary"
	data := `{"value":"x"}`
	opt := core.Opt{Dir: filepath.Join(cs.W, "d"), Timeout: 60 * time.Second}
	p := plan{mode: "after", resp: [][]byte{[]byte("\x0a\x01y\x10\x05")}}
	fail := false // the call must fail
	reason := ""  // with this in the output
	seen := 1     // calls the server sees
	out := `{"value":"y","n":5}` + "\n"
	var reqs []string // messages the server sees
	reqs = []string{"\x0a\x01x"}
	var extra []string
	addr, stdin := "", false
	limit := 30 * time.Second
	var creds credentials.TransportCredentials
	network := "tcp"
	bad := func(r string) { fail, reason, seen, reqs = true, r, 0, nil }
	anyHdr := "syntax = \"proto3\";\n\npackage a.v1;\n\nimport \"google/protobuf/any.proto\";\n"
	anyBody := "\nmessage Req {\n  google.protobuf.Any any = 1;\n}\n\nmessage Rsp {\n  google.protobuf.Any any = 1;\n  string value = 2;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Rsp);\n}\n"
	xMsg := "\nmessage X {\n  string v = 1;\n}\n"
	anyReq := func(t string) {
		data = `{"any":{"@type":"type.googleapis.com/` + t + `","v":"q"}}`
		in := "\x0a" + string(rune(len("type.googleapis.com/"+t))) + "type.googleapis.com/" + t + "\x12\x03\x0a\x01q"
		reqs = []string{"\x0a" + string(rune(len(in))) + in}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	}
	flag := func(s ...string) { extra = append(extra, s...) }
	var closer func()
	fake := func(f func(net.Conn)) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			cs.Fatal("%v", err)
		}
		addr = l.Addr().String()
		closer = func() { l.Close() }
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go f(c)
			}
		}()
	}
	ca := func() *cert { return makeCert(cs, "ca", nil) }
	serverTLS := func(c *cert, client *cert) {
		conf := &tls.Config{Certificates: []tls.Certificate{c.pair}}
		if client != nil {
			conf.ClientAuth = tls.RequireAndVerifyClientCert
			conf.ClientCAs = x509.NewCertPool()
			conf.ClientCAs.AddCert(client.x)
		}
		creds = credentials.NewTLS(conf)
	}
	file := func(n string) string { return filepath.Join(cs.Dir, n) }
	switch name {
	case "unreachable":
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		addr = l.Addr().String()
		l.Close()
		bad("")
		flag("--connect-timeout", "1s")
		limit = 8 * time.Second
	case "unreachable unix":
		addr = "unix://" + file("none.sock")
		bad("none.sock")
		flag("--connect-timeout", "1s")
	case "blackhole":
		fake(func(c net.Conn) { io.Copy(ioutil.Discard, c) })
		bad("")
		flag("--connect-timeout", "700ms", "--call-timeout", "2s")
		limit = 8 * time.Second
	case "closes at once":
		fake(func(c net.Conn) { c.Close() })
		bad("")
		flag("--connect-timeout", "700ms", "--call-timeout", "2s")
		limit = 8 * time.Second
	case "talks garbage":
		fake(func(c net.Conn) { c.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\nnope")); c.Close() })
		bad("")
		flag("--connect-timeout", "700ms", "--call-timeout", "2s")
		limit = 8 * time.Second
	case "call timeout unary":
		p = plan{mode: "hang"}
		fail, reason, reqs, out = true, "context deadline exceeded", nil, ""
		flag("--call-timeout", "700ms")
		limit = 15 * time.Second
	case "call timeout stream":
		meth = "a.v1.Echo/Server"
		p.mode = "hang"
		fail, reason, reqs = true, "context deadline exceeded", nil
		flag("--call-timeout", "700ms")
		limit = 15 * time.Second
	case "server dies midway":
		meth = "a.v1.Echo/Server"
		p.mode = "kill"
		fail, reason, reqs = true, "code = Unavailable", nil
	case "server dies before":
		p = plan{mode: "kill"}
		fail, reason, reqs, out = true, "code = Unavailable", nil, ""
	case "unknown service":
		meth = "a.v1.Nope/Unary"
		bad("a.v1.Nope")
	case "unknown method":
		meth = "a.v1.Echo/Nope"
		bad("Nope")
	case "no slash":
		meth = "a.v1.Echo.Unary"
		bad("a.v1.Echo.Unary")
	case "two slashes":
		meth = "a.v1.Echo/Unary/x"
		bad("a.v1.Echo/Unary/x")
	case "empty method":
		meth = "a.v1.Echo/"
		bad("")
	case "service is a message":
		meth = "a.v1.Req/Unary"
		bad("a.v1.Req")
	case "bad network":
		addr = "udp://127.0.0.1:9"
		bad("udp")
	case "bad durations":
		flag("--call-timeout", "soon")
		bad("soon")
	case "no data":
		data, stdin = "", false
		bad("data")
	case "data and stdin":
		flag("--stdin")
		bad("data")
	case "header without colon":
		flag("-H", "nocolon")
		bad("nocolon")
	case "duplicate headers":
		flag("-H", "x-a:1", "-H", "x-a:2", "-H", "x-b: 3 ", "--header", `"x-c:4,5"`, "-H", "x-d:6,x-e:7")
	case "empty file set":
		g.files = map[string]string{}
		bad("")
	case "does not compile":
		g.files["a/b.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nmessage Y {\n  Nope x = 1;\n}\n"
		bad("Nope")
	case "package-less service":
		g.files = map[string]string{"a/a.proto": "syntax = \"proto3\";\n" + echoBody}
		meth = "Echo/Unary"
	case "package-less file elsewhere":
		g.files["a/b.proto"] = "syntax = \"proto3\";\n\nmessage B {}\n"
		g.files["0/b.proto"] = "syntax = \"proto3\";\n\nmessage B0 {}\n"
	case "prefix packages":
		g.files["a/b.proto"] = "syntax = \"proto3\";\n\npackage a.v1.Echo2;\n\nmessage Q {}\n\nservice Unary {\n  rpc Unary(Q) returns (Q);\n}\n"
		g.files["a/0.proto"] = "syntax = \"proto3\";\n\npackage a;\n\nmessage Q {}\n\nservice Echo {\n  rpc Unary(Q) returns (Q);\n}\n"
	case "same service name":
		for _, x := range []string{"b", "0", "a/v1"} {
			g.files[x+"/x.proto"] = "syntax = \"proto3\";\n\npackage " + strings.Replace(x, "/", ".", -1) + "x;\n\nmessage Req {\n  int32 value = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		}
		delete(g.files, "0/x.proto")
	case "import service":
		g.files["b/b.proto"] = "syntax = \"proto3\";\n\npackage b.v1;\n\nimport \"a/a.proto\";\n\nservice Echo {\n  rpc Unary(a.v1.Req) returns (a.v1.Rsp);\n}\n"
		meth = "b.v1.Echo/Unary"
	case "Any of the same file":
		g.files["a/a.proto"] = anyHdr + anyBody + xMsg
		anyReq("a.v1.X")
	case "Any of an imported file":
		g.files["a/a.proto"] = anyHdr + "import \"b/b.proto\";\n" + anyBody + "\nmessage U {\n  b.v1.X x = 1;\n}\n"
		g.files["b/b.proto"] = "syntax = \"proto3\";\n\npackage b.v1;\n" + xMsg
		anyReq("b.v1.X")
	case "Any of another file":
		g.files["a/a.proto"] = anyHdr + anyBody
		g.files["a/b.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n" + xMsg
		anyReq("a.v1.X")
	case "Any of another directory":
		g.files["a/a.proto"] = anyHdr + anyBody
		g.files["b/b.proto"] = "syntax = \"proto3\";\n\npackage b.v1;\n" + xMsg
		anyReq("b.v1.X")
	case "Any response of another file":
		g.files["a/a.proto"] = anyHdr + anyBody
		g.files["b/b.proto"] = "syntax = \"proto3\";\n\npackage b.v1;\n" + xMsg
		anyReq("b.v1.X")
		data, reqs = "{}", []string{""}
	case "Any response of unknown type":
		g.files["a/a.proto"] = anyHdr + anyBody
		anyReq("nope.X")
		data, reqs, out, fail, reason = "{}", []string{""}, "", true, "nope.X"
	case "corrupt response":
		p.resp, out, fail = [][]byte{[]byte("\x0a\x7fy")}, "", true
	case "wrong response":
		p.resp, out, fail = [][]byte{[]byte("\x08\x7f")}, "", true
	case "large request":
		stdin, data = true, `{"value":"`+strings.Repeat("x", 12<<20)+`"}`
		reqs = []string{"\x0a\x80\x80\x80\x06" + strings.Repeat("x", 12<<20)}
	case "large response":
		n := 3 << 20
		p.resp, out = [][]byte{[]byte("\x0a\x80\x80\xc0\x01" + strings.Repeat("z", n))}, `{"value":"`+strings.Repeat("z", n)+"\"}\n"
	case "too large response":
		n := 5 << 20
		p.resp, out = [][]byte{[]byte("\x0a\x80\x80\xc0\x02" + strings.Repeat("z", n))}, ""
		fail, reason = true, "ResourceExhausted"
	case "many messages":
		meth, stdin, data, reqs = "a.v1.Echo/Client", true, "", nil
		for i := 0; i < 5000; i++ {
			v := fmt.Sprintf("%04d", i)
			data += `{"value":"` + v + `"}` + "\n"
			reqs = append(reqs, "\x0a\x04"+v)
		}
	case "many responses":
		meth, out, p.resp = "a.v1.Echo/Bidi", "", nil
		p.mode = "before"
		for i := 0; i < 5000; i++ {
			v := fmt.Sprintf("%04d", i)
			p.resp = append(p.resp, []byte("\x0a\x04"+v))
			out += `{"value":"` + v + `"}` + "\n"
		}
	case "interactive":
		c16Interactive(cs, g)
		return
	case "self-signed":
		serverTLS(makeCert(cs, "srv", nil, "localhost"), nil)
		flag("--tls", "--connect-timeout", "2s")
		bad("")
	case "cacert", "server name", "wrong server name", "wrong cacert":
		c := ca()
		serverTLS(makeCert(cs, "srv", c, "foo.test"), nil)
		if name == "wrong cacert" {
			makeCert(cs, "ca", nil) // another one
		}
		flag("--tls", "--cacert", file("ca.crt"), "--connect-timeout", "2s")
		switch name {
		case "cacert", "wrong server name":
			if name == "wrong server name" {
				flag("--server-name", "bar.test")
			}
			bad("") // the name does not match the address
		case "wrong cacert":
			flag("--server-name", "foo.test")
			bad("")
		default:
			flag("--server-name", "foo.test")
		}
	case "client certificate", "missing client certificate":
		c := ca()
		serverTLS(makeCert(cs, "srv", c, "foo.test"), c)
		makeCert(cs, "cli", c, "me.test")
		flag("--tls", "--cacert", file("ca.crt"), "--server-name", "foo.test", "--connect-timeout", "3s")
		if name == "client certificate" {
			flag("--cert", file("cli.crt"), "--key", file("cli.key"))
		} else {
			bad("")
		}
	case "insecure":
		serverTLS(makeCert(cs, "srv", nil, "foo.test"), nil)
		flag("--tls", "--insecure")
	case "plain to tls":
		serverTLS(makeCert(cs, "srv", nil, "foo.test"), nil)
		flag("--connect-timeout", "2s", "--call-timeout", "3s")
		bad("")
	case "tls to plain":
		flag("--tls", "--insecure", "--connect-timeout", "2s")
		bad("")
	case "tls flags":
		makeCert(cs, "cli", nil)
		for _, a := range [][]string{{"--insecure"}, {"--cacert", file("cli.crt")}, {"--cert", file("cli.crt"), "--key", file("cli.key")}, {"--server-name", "x"}, {"--tls", "--cert", file("cli.crt")}, {"--tls", "--key", file("cli.key")}, {"--tls", "--insecure", "--cacert", file("cli.crt")}, {"--tls", "--insecure", "--server-name", "x"}, {"--tls", "--cacert", file("none.crt")}} {
			for f, t := range g.files {
				cs.Write("d/"+f, t)
			}
			srv := startServer(cs, "tcp", nil)
			res := cs.Run(opt, append([]string{"grpc", "--address", srv.addr, "--method", meth, "--data", "{}", "--connect-timeout", "2s"}, a...)...)
			if len(srv.take()) != 0 || res.Code == 0 || !verdict(cs, res) {
				cs.Fail("%v is accepted:\n%s%s", a, res.Out, res.Err)
			}
			srv.s.Stop()
		}
		cs.Sig("%s", name)
		return
	case "keepalive":
		flag("--keepalive-time", "20s")
	case "empty input":
		stdin, data, reqs = true, "", []string{""}
	case "white space input":
		data, reqs = " \n\t ", []string{""}
	case "null input":
		data, reqs = "null", []string{""}
	case "concatenated input":
		meth, data, reqs = "a.v1.Echo/Client", `{"value":"x"}{"value":"y"}{}`, []string{"\x0a\x01x", "\x0a\x01y", ""}
	case "proto2 group":
		g.files["a/a.proto"] = "syntax = \"proto2\";\n\npackage a.v1;\n\nmessage Req {\n  repeated group Grp = 1 {\n    optional string s = 2;\n  }\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"grp":[{"s":"x"},{}]}`, []string{"\x0b\x12\x01x\x0c\x0b\x0c"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "proto2 extension":
		g.files["a/a.proto"] = "syntax = \"proto2\";\n\npackage a.v1;\n\nmessage Req {\n  extensions 10 to 20;\n}\n\nextend Req {\n  optional string ext = 11;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"[a.v1.ext]":"x"}`, []string{"\x5a\x01x"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "proto3 optional":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nmessage Req {\n  optional string s = 1;\n  optional int32 n = 2;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"s":""}`, []string{"\x0a\x00"}
		p.resp, out = [][]byte{[]byte("\x10\x00")}, "{\"n\":0}\n"
	case "unknown response field":
		p.resp = [][]byte{[]byte("\x0a\x01y\x10\x05\xfa\x3f\x03abc")}
	case "leading dot":
		meth = ".a.v1.Echo/Unary"
	case "config-data":
		flag("--config-data", `{"excludes":["b"]}`)
		g.files["b/b.proto"] = "nonsense"
	case "binary header":
		flag("-H", "x-bin:AAEC")
	case "error format":
		flag("--error-format", "message")
		p.resp, out, p.code, p.msg, fail, reason = nil, "", codes.NotFound, "gone", true, "rpc error: code = NotFound desc = gone"
	case "single file among broken":
		g.files["a/b.proto"] = "syntax = \"proto3\";\n\npackage b;\n\nmessage B {\n  Nope x = 1;\n}\n"
		bad("Nope")
	case "recursive message":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nmessage Req {\n  Req r = 1;\n  map<string, Req> m = 2;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"r":{"r":{}},"m":{"k":{"r":{}}}}`, []string{"\x0a\x02\x0a\x00\x12\x07\x0a\x01k\x12\x02\x0a\x00"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "deep message":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nmessage Req {\n  Req r = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		w := ""
		data = "{}"
		for i := 0; i < 60; i++ {
			data = `{"r":` + data + "}"
			w = "\x0a" + string([]byte{byte(len(w))}) + w
			if len(w) > 120 {
				break
			}
		}
		reqs, p.resp, out = []string{w}, [][]byte{[]byte(w)}, data+"\n"
	case "long duration":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nimport \"google/protobuf/duration.proto\";\n\nmessage Req {\n  google.protobuf.Duration d = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"d":"9223372037s"}`, []string{"\x0a\x06\x08\x85\xd8\xdc\xae\x22"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "odd map keys":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nmessage Req {\n  map<string, int32> m = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"m":{"é":7}}`, []string{"\x0a\x06\x0a\x02é\x10\x07"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "empty Any":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nimport \"google/protobuf/any.proto\";\n\nmessage Req {\n  google.protobuf.Any a = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"a":{}}`, []string{"\x0a\x00"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "empty BytesValue":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nimport \"google/protobuf/wrappers.proto\";\n\nmessage Req {\n  google.protobuf.BytesValue b = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"b":""}`, []string{"\x0a\x00"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "null Value in a map":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nimport \"google/protobuf/struct.proto\";\n\nmessage Req {\n  map<string, google.protobuf.Value> m = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"m":{"k":null}}`, []string{"\x0a\x07\x0a\x01k\x12\x02\x08\x00"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "list in a Value":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nimport \"google/protobuf/struct.proto\";\n\nmessage Req {\n  google.protobuf.Value v = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"v":[true,false]}`, []string{"\x0a\x0a\x32\x08\x0a\x02\x20\x01\x0a\x02\x20\x00"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "nested Any":
		g.files["a/a.proto"] = "syntax = \"proto3\";\n\npackage a.v1;\n\nimport \"google/protobuf/any.proto\";\n\nmessage Req {\n  google.protobuf.Any a = 1;\n}\n\nservice Echo {\n  rpc Unary(Req) returns (Req);\n}\n"
		data, reqs = `{"a":{"@type":"type.googleapis.com/a.v1.Req","a":{"@type":"type.googleapis.com/a.v1.Req"}}}`, []string{"\x0a@\x0a\x1ctype.googleapis.com/a.v1.Req\x12\x20\x0a\x1e\x0a\x1ctype.googleapis.com/a.v1.Req"}
		p.resp, out = [][]byte{[]byte(reqs[0])}, data+"\n"
	case "output closed":
		meth, p.resp = "a.v1.Echo/Server", nil
		for i := 0; i < 3000; i++ {
			p.resp = append(p.resp, []byte("\x0a\x04zzzz"))
		}
		out, reqs, fail, reason = "", nil, true, "-"
		opt.Wrap = []string{"/bin/sh", "-c", `exec "$@" >/dev/full`, "sh"}
	}
	cs.Write("d/prototool.yaml", "protoc:\n  allow_unused_imports: true\n")
	for f, t := range g.files {
		cs.Write("d/"+f, t)
	}
	srv := startServer(cs, network, creds)
	defer srv.s.Stop()
	if closer != nil {
		defer closer()
	}
	srv.set(p)
	if addr == "" {
		addr = srv.addr
	}
	args := []string{"grpc", "--address", addr, "--method", meth}
	if stdin {
		args, opt.Stdin = append(args, "--stdin"), data
	} else {
		args = append(args, "--data", data)
	}
	start := time.Now()
	res := cs.Run(opt, append(args, extra...)...)
	took := time.Since(start)
	if name == "output closed" && res.Code != 0 && strings.TrimSpace(res.Out+res.Err) == "" {
		cs.Sig("%s", name) // there is no place for a reason
		return
	}
	if !verdict(cs, res) {
		return
	}
	if took > limit {
		cs.Fail("it took %v", took)
	}
	calls := srv.take()
	if fail != (res.Code != 0) {
		cs.Fail("exit code %d:\n%s%s", res.Code, res.Out, res.Err)
		return
	}
	if reason == "-" {
		cs.Sig("%s", name)
		return
	}
	if fail && !strings.Contains(res.Out, reason) {
		cs.Fail("the cause (%s) is not named:\n%s%s", reason, res.Out, res.Err)
	}
	if !fail && normJSON(res.Out) != normJSON(out) || fail && seen > 0 && !strings.HasPrefix(normJSON(res.Out), normJSON(out)) {
		cs.Fail("printed\n%s\ninstead of\n%s", cut(res.Out), cut(out))
	}
	if len(calls) != seen {
		cs.Fail("the server saw %d calls instead of %d", len(calls), seen)
		return
	}
	if reqs != nil && seen > 0 {
		c := calls[0]
		if len(c.msgs) != len(reqs) {
			cs.Fail("the server received %d messages instead of %d", len(c.msgs), len(reqs))
			return
		}
		for i, b := range c.msgs {
			if string(b) != reqs[i] {
				cs.Fail("message %d was received as %q instead of %q", i, cut(string(b)), cut(reqs[i]))
				return
			}
		}
		switch name {
		case "duplicate headers":
			for k, v := range map[string]string{"x-a": "1 2", "x-b": "3", "x-c": "4,5", "x-d": "6", "x-e": "7"} {
				if got := strings.Join(core.Sorted(c.md[k]), " "); got != v {
					cs.Fail("header %s was received as %q instead of %q", k, got, v)
				}
			}
		case "binary header":
			if got := strings.Join(c.md["x-bin"], " "); got != "\x00\x01\x02" {
				cs.Fail("header x-bin was received as %q", got)
			}
		}
	}
	cs.Sig("%s", name)
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// normJSON takes white space out of lines of JSON.
func normJSON(s string) string {
	return strings.Replace(s, ": ", ":", -1)
}

// c16Interactive holds a bidirectional call to answer while its input is
// still open.
func c16Interactive(cs *core.Case, g *gsvc) {
	cs.Write("d/prototool.yaml", "")
	for f, t := range g.files {
		cs.Write("d/"+f, t)
	}
	srv := startServer(cs, "tcp", nil)
	defer srv.s.Stop()
	var resp [][]byte
	for i := 0; i < 5; i++ {
		resp = append(resp, []byte(fmt.Sprintf("\x0a\x01%d", i)))
	}
	srv.set(plan{mode: "inter", resp: resp})
	in := filepath.Join(cs.Dir, "in")
	out := filepath.Join(cs.Dir, "out")
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	// the input is a pipe of which the harness holds the other end
	if res := cs.Exec(core.Opt{Quiet: true}, "/usr/bin/mkfifo", in); res.Code != 0 {
		cs.Fatal("mkfifo: %s", res.Err)
	}
	go func() {
		f, err := os.OpenFile(in, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		for i := 0; i < 5; i++ {
			fmt.Fprintf(f, "{\"value\":\"%d\"}\n", i)
			for {
				b, _ := ioutil.ReadFile(out)
				if len(core.SplitLines(string(b))) > i || ctx.Err() != nil {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
	}()
	res := cs.Run(core.Opt{Dir: filepath.Join(cs.W, "d"), Timeout: 60 * time.Second, Wrap: []string{"/bin/sh", "-c", `exec "$@" <` + in + ` >` + out, "sh"}}, "grpc", "--address", srv.addr, "--method", "a.v1.Echo/Bidi", "--stdin")
	if !verdict(cs, res) || res.Code != 0 {
		cs.Fail("exit code %d: %s%s", res.Code, res.Out, res.Err)
		return
	}
	if ctx.Err() != nil {
		cs.Fail("a response is printed only after the input has ended")
	}
	b, _ := ioutil.ReadFile(out)
	if want := "{\"value\":\"0\"}\n{\"value\":\"1\"}\n{\"value\":\"2\"}\n{\"value\":\"3\"}\n{\"value\":\"4\"}\n"; string(b) != want {
		cs.Fail("printed %q", b)
	}
	cs.Sig("interactive")
}
