package props

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"crypto/tls"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/core"
)

func init() {
	core.Register(&core.Prop{ID: "C18", Level: "exploration", Run: runC18,
		Rule: "an HTTP server, an HTTPS proxy standing in for GitHub, and files serve archives with a working protoc in random order and shape, well or badly (errors, truncation, corruption, stalls, hostile entries); processes are killed at chosen points of the download and the extraction, hit write limits and missing permissions, or run side by side with updates and deletes. Monitored: requests per archive, the file system around the cache, the files of the installation against the archive, and whether the next command compiles a file that imports every file of the archive. Non-trivial: an archive was requested or a fault took effect; distinct by archive, fault and place.",
		Notes: []string{"processes that start together succeed as long as one download takes less than the ten seconds others wait for its lock, which is how the code is meant to work",
			"a command that runs while cache delete removes protoc below it may fail; the cache must be sound afterwards", "full disks are stood in for by file size limits, since nothing can be mounted here"}})
}

func runC18(c *core.Ctx) {
	c.Each("fetch", c.N(120, 4000), c18Fetch)
	c.Each("fail", c.N(140, 6000), c18Fail)
	c.EachP("kill", c.N(90, 3000), 4, c18Kill)
	c.EachP("share", c.N(40, 600), 2, c18Share)
	c.Each("hostile", c.N(60, 1500), c18Hostile)
	c.Each("damage", c.N(60, 2000), c18Damage)
	c.One("delete-beside-download", c18Beside)
	c.Each("mixed", c.N(30, 1000), c18Mixed)
}

// ---- archives ----

type zent struct {
	name string
	mode os.FileMode
	data []byte
}

type archive struct {
	ents []zent
	zip  []byte
	cd   int // where the central directory starts
}

const markerProto = "google/protobuf/zz_marker.proto"

func protocScript(version string) []byte {
	return []byte("#!/bin/sh\nif [ \"$1\" = --version ]; then echo \"libprotoc " + version + "\"; exit 0; fi\nexec " + core.RealProtoc + " \"$@\"\n")
}

var wktTexts = func() map[string][]byte {
	m := map[string][]byte{}
	for _, n := range []string{"any", "api", "descriptor", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "type", "wrappers"} {
		b, err := ioutil.ReadFile(filepath.Join(core.RealWKT, "google/protobuf", n+".proto"))
		if err == nil {
			m["google/protobuf/"+n+".proto"] = b
		}
	}
	m[markerProto] = []byte("syntax = \"proto3\";\n\npackage google.protobuf;\n\nmessage ZzMarker {}\n")
	return m
}()

// mkArchive makes an archive with a protoc of the version.
func mkArchive(r *rand.Rand, version string, big bool) *archive {
	a := &archive{}
	var names []string
	for n := range wktTexts {
		names = append(names, n)
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names {
		a.ents = append(a.ents, zent{"include/" + n, 0644, wktTexts[n]})
	}
	p := zent{"bin/protoc", 0755, protocScript(version)}
	switch r.Intn(3) {
	case 0:
		a.ents = append([]zent{p}, a.ents...)
	case 1:
		a.ents = append(a.ents, p)
	default:
		k := r.Intn(len(a.ents))
		a.ents = append(a.ents[:k], append([]zent{p}, a.ents[k:]...)...)
	}
	a.ents = append(a.ents, zent{"readme.txt", 0644, []byte("read me\n")})
	n := r.Intn(3)
	if big {
		n = 60 + r.Intn(200)
	}
	for i := 0; i < n; i++ {
		b := make([]byte, []int{0, 10, 3000, 70000}[r.Intn(4)])
		r.Read(b)
		k := r.Intn(len(a.ents) + 1)
		a.ents = append(a.ents[:k], append([]zent{{fmt.Sprintf("extra/%d/f%d.bin", i%7, i), []os.FileMode{0644, 0755, 0600, 0640}[r.Intn(4)], b}}, a.ents[k:]...)...)
	}
	if chance(r, 30) {
		a.ents = append([]zent{{"bin/", os.ModeDir | 0755, nil}, {"include/", os.ModeDir | 0755, nil}, {"include/google/", os.ModeDir | 0755, nil}}, a.ents...)
	}
	a.pack(r)
	return a
}

func (a *archive) pack(r *rand.Rand) {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	w.RegisterCompressor(zip.Deflate, func(out io.Writer) (io.WriteCloser, error) { return flate.NewWriter(out, 1) })
	for _, e := range a.ents {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		if chance(r, 30) {
			h.Method = zip.Store
		}
		h.SetMode(e.mode)
		f, err := w.CreateHeader(h)
		if err == nil && len(e.data) > 0 {
			_, err = f.Write(e.data)
		}
		if err != nil {
			panic(err)
		}
	}
	w.Flush()
	a.cd = b.Len()
	w.Close()
	a.zip = b.Bytes()
}

// complete compares an installation with the archive.
func (a *archive) complete(root string) string {
	for _, e := range a.ents {
		if e.mode.IsDir() {
			continue
		}
		p := filepath.Join(root, e.name)
		fi, err := os.Stat(p)
		if err != nil {
			return err.Error()
		}
		if fi.Mode().Perm()&0100 != e.mode&0100 {
			return fmt.Sprintf("%s has mode %v instead of %v", p, fi.Mode(), e.mode)
		}
		if b, err := ioutil.ReadFile(p); err != nil || !bytes.Equal(b, e.data) {
			return fmt.Sprintf("%s has %d bytes that are not the %d of the archive", p, len(b), len(e.data))
		}
	}
	return ""
}

// roots lists the installations below a directory.
func roots(dir string) []string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, "/bin/protoc") {
			l = append(l, strings.TrimSuffix(p, "/bin/protoc"))
		}
		return nil
	})
	return l
}

// ---- servers ----

type serving struct {
	kind string // ok, slow, status, truncate, cutoff, stall, reset, empty, redirect
	body []byte
	at   int
	code int
	dur  time.Duration
}

type dlServer struct {
	mu   sync.Mutex
	how  map[string]serving
	hits map[string]int
	sent int64 // bytes of the last body
	stop chan bool
	s    *http.Server
	addr string
	cert *tls.Certificate
}

func newDL(cs *core.Case) *dlServer {
	d := &dlServer{how: map[string]serving{}, hits: map[string]int{}, stop: make(chan bool)}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		cs.Fatal("listen: %v", err)
	}
	d.addr = l.Addr().String()
	d.s = &http.Server{Handler: d, ErrorLog: log.New(ioutil.Discard, "", 0)}
	go d.s.Serve(l)
	return d
}

func (d *dlServer) close() {
	close(d.stop)
	d.s.Close()
}

func (d *dlServer) serve(path string, s serving) {
	d.mu.Lock()
	d.how[path], d.hits[path] = s, 0
	d.mu.Unlock()
	atomic.StoreInt64(&d.sent, 0)
}

func (d *dlServer) count(path string) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.hits[path]
}

type oneConn struct {
	c    net.Conn
	once sync.Once
	done chan bool
}

func (o *oneConn) Accept() (net.Conn, error) {
	var c net.Conn
	o.once.Do(func() { c = o.c })
	if c != nil {
		return c, nil
	}
	<-o.done
	return nil, io.EOF
}
func (o *oneConn) Close() error   { return nil }
func (o *oneConn) Addr() net.Addr { return o.c.LocalAddr() }

func (d *dlServer) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	if q.Method == http.MethodConnect && d.cert != nil {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		s := &http.Server{Handler: d, ErrorLog: log.New(ioutil.Discard, "", 0)}
		go s.Serve(&oneConn{c: tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*d.cert}}), done: d.stop})
		return
	}
	path := q.URL.Path
	if q.TLS != nil {
		path = "https://" + q.Host + path
	}
	d.mu.Lock()
	if _, ok := d.how[path+"?"+q.URL.RawQuery]; ok {
		path += "?" + q.URL.RawQuery
	}
	s, ok := d.how[path]
	d.hits[path]++
	d.mu.Unlock()
	if !ok {
		http.NotFound(w, q)
		return
	}
	put := func(b []byte) {
		w.Write(b)
		w.(http.Flusher).Flush()
		atomic.AddInt64(&d.sent, int64(len(b)))
	}
	hijack := func(f func(c net.Conn)) {
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			f(c)
			c.Close()
		}
	}
	switch s.kind {
	case "ok":
		w.Write(s.body)
	case "slow":
		w.Header().Set("Content-Length", fmt.Sprint(len(s.body)))
		for i := 0; i < 10; i++ {
			put(s.body[len(s.body)*i/10 : len(s.body)*(i+1)/10])
			select {
			case <-time.After(s.dur / 10):
			case <-d.stop:
				return
			}
		}
	case "status":
		w.WriteHeader(s.code)
		w.Write(s.body)
	case "truncate": // shorter than announced
		w.Header().Set("Content-Length", fmt.Sprint(len(s.body)))
		put(s.body[:s.at])
		hijack(func(c net.Conn) {})
	case "cutoff": // the end of the connection is the end of the body
		hijack(func(c net.Conn) {
			io.WriteString(c, "HTTP/1.0 200 OK\r\nContent-Type: application/zip\r\n\r\n")
			c.Write(s.body[:s.at])
		})
	case "stall":
		w.Header().Set("Content-Length", fmt.Sprint(len(s.body)))
		put(s.body[:s.at])
		select {
		case <-q.Context().Done():
		case <-d.stop:
		}
	case "reset":
		hijack(func(c net.Conn) {
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
		})
	case "empty":
	case "redirect":
		http.Redirect(w, q, string(s.body), s.code)
	}
}

// ---- one cache ----

type cache struct {
	cs      *core.Case
	d       *dlServer
	a       *archive
	version string
	url     string // of --protoc-url, "" for the default
	path    string // as the server sees it, "" for a file
	file    string
	base    string // the cache directory
	own     bool   // of the user, not to be deleted
	env     []string
	flags   []string
	conf    string
}

// newCache chooses where the archive comes from and where it goes to.
func newCache(cs *core.Case, big bool) *cache {
	r := cs.R
	x := &cache{cs: cs, d: newDL(cs), version: "3.11.0", conf: "protoc:\n  allow_unused_imports: true\n"}
	if chance(r, 40) {
		x.version = pick(r, "3.8.0", "3.12.4", "3.6.1")
		x.conf += "  version: " + x.version + "\n"
	}
	printed := x.version
	from := pick(r, "http", "http", "file", "github", "github")
	if from != "github" && chance(r, 40) {
		printed = "99.1" // not checked with a URL of one's own
	}
	x.a = mkArchive(r, printed, big)
	switch from {
	case "http":
		x.path = pick(r, "/protoc.zip", "/a/b/c/protoc-3.zip", "/x")
		x.url = "http://" + x.d.addr + x.path
		if chance(r, 20) {
			x.url += "?token=1%2F2&x=y"
		}
	case "file":
		x.file = filepath.Join(cs.Dir, "zips", "a.zip")
		os.MkdirAll(filepath.Dir(x.file), 0755)
		x.url = "file://" + x.file
	default:
		ca := makeCert(cs, "ca", nil)
		crt := makeCert(cs, "github", ca, "github.com")
		x.d.cert = &crt.pair
		x.path = "https://github.com/protocolbuffers/protobuf/releases/download/v" + x.version + "/protoc-" + x.version + "-linux-x86_64.zip"
		x.env = append(x.env, "HTTPS_PROXY=http://"+x.d.addr, "SSL_CERT_FILE="+filepath.Join(cs.Dir, "ca.crt"))
	}
	if x.url != "" {
		x.flags = append(x.flags, "--protoc-url", x.url)
	}
	x.base = filepath.Join(cs.Home, ".cache", "prototool")
	where := r.Intn(4)
	if where >= 1 {
		x.base = filepath.Join(cs.Dir, "xdg", "prototool")
		x.env = append(x.env, "XDG_CACHE_HOME="+filepath.Join(cs.Dir, "xdg"))
	}
	if where >= 2 {
		x.own = true
		x.base = filepath.Join(cs.Dir, "own", "cache")
		x.env = append(x.env, "PROTOTOOL_CACHE_PATH="+x.base)
	}
	if where == 3 {
		x.base = filepath.Join(cs.Dir, "flag-cache")
		x.flags = append(x.flags, "--cache-path", x.base)
	}
	cs.Write("p/prototool.yaml", x.conf)
	src := "syntax = \"proto3\";\n\npackage a;\n\n"
	var imp []string
	for n := range wktTexts {
		imp = append(imp, "import \""+n+"\";\n")
	}
	sort.Strings(imp)
	cs.Write("p/a.proto", src+strings.Join(imp, "")+"\nmessage A {\n  google.protobuf.Timestamp t = 1;\n  google.protobuf.ZzMarker z = 2;\n}\n")
	x.serve(serving{kind: "ok"})
	return x
}

func (x *cache) serve(s serving) {
	if s.body == nil {
		s.body = x.a.zip
	}
	if x.file != "" {
		b := s.body
		switch s.kind {
		case "truncate", "cutoff":
			b = b[:s.at]
		case "empty":
			b = nil
		case "status", "reset", "stall":
			os.Remove(x.file)
			return
		}
		ioutil.WriteFile(x.file, b, 0644)
		return
	}
	x.d.serve(x.path, s)
}

func (x *cache) opt() core.Opt {
	return core.Opt{Dir: filepath.Join(x.cs.W, "p"), NoProtoc: true, Env: x.env, Timeout: 60 * time.Second}
}

// run runs a command that needs protoc.
func (x *cache) run(o core.Opt, cmd string) *core.Res {
	flags := x.flags
	if strings.HasPrefix(cmd, "cache") && x.url != "" {
		if cmd == "cache delete" {
			flags = flags[2:]
		} else {
			cmd = "compile" // no URL can be given to cache update
		}
	}
	return x.cs.Run(o, append(strings.Fields(cmd), flags...)...)
}

var c18Cmds = []string{"compile", "cache update", "compile .", "descriptor-set --tmp", "lint", "generate", "break descriptor-set -o /dev/null", "x inspect packages"}

func (x *cache) cmd() string { return c18Cmds[x.cs.R.Intn(len(c18Cmds))] }

// sound checks that the next command works and that what is there is complete;
// max is how often the archive may be requested for this.
func (x *cache) sound(max int) bool {
	before := x.d.count(x.path)
	res := x.run(x.opt(), "compile")
	if !verdict(x.cs, res) {
		return false
	}
	if res.Code != 0 {
		x.cs.Fail("the next command fails:\n%s%s", res.Out, res.Err)
		return false
	}
	if n := x.d.count(x.path) - before; x.file == "" && n > max {
		x.cs.Fail("the archive was requested %d times instead of %d", n, max)
		return false
	}
	return x.whole()
}

// whole checks that there is an installation as in the archive.
func (x *cache) whole() bool {
	why := "nothing is installed below " + x.base
	for _, p := range roots(x.base) {
		if why = x.a.complete(p); why == "" {
			x.cs.C.Count("complete installations", 1)
			return true
		}
	}
	x.cs.Fail("the command succeeded, but: %s", why)
	return false
}

// outside holds what is around the cache.
func (x *cache) outside() map[string]string {
	m := core.Snapshot(x.cs.Dir)
	for p := range m {
		if within(x.base, p) || within(p, x.base) || within(x.cs.Tmp, p) || within(filepath.Join(x.cs.Dir, "zips"), p) {
			delete(m, p)
		}
	}
	return m
}

func (x *cache) same(before map[string]string) bool {
	if d := core.DiffSnap(before, x.outside()); len(d) > 0 {
		x.cs.Fail("written outside the cache %s: %v", x.base, d)
		return false
	}
	return true
}

func c18Fetch(cs *core.Case) {
	c, r := cs.C, cs.R
	x := newCache(cs, chance(r, 10))
	defer x.d.close()
	before := x.outside()
	for round := 0; round < 2; round++ {
		x.serve(serving{kind: "ok"})
		if x.file == "" && chance(r, 20) {
			x.serve(serving{kind: "slow", dur: 200 * time.Millisecond})
		}
		cmd := x.cmd()
		res := x.run(x.opt(), cmd)
		if !verdict(cs, res) {
			return
		}
		if res.Code != 0 && !(res.Code == 255 && cmd == "lint") {
			cs.Fail("a command with an empty cache fails:\n%s%s", res.Out, res.Err)
			return
		}
		n := x.d.count(x.path)
		if x.file == "" && n != 1 {
			cs.Fail("the archive was requested %d times", n)
			return
		}
		if !x.whole() || !x.sound(0) {
			return
		}
		c.Count("fetched", 1)
		if !x.same(before) {
			return
		}
		// a user's files beside the cache
		os.MkdirAll(filepath.Join(cs.Dir, "xdg", "prototool2"), 0755)
		ioutil.WriteFile(filepath.Join(cs.Dir, "xdg", "prototool2", "f"), nil, 0644)
		os.MkdirAll(filepath.Join(cs.Home, ".cache", "other"), 0755)
		mine := x.outside()
		inside := core.Snapshot(x.base)
		o := x.opt()
		res = cs.Run(o, "cache", "delete")
		if !verdict(cs, res) {
			return
		}
		if res.Code != 0 {
			cs.Fail("cache delete fails: %s%s", res.Out, res.Err)
			return
		}
		if !x.same(mine) {
			return
		}
		before = mine
		if x.own {
			if d := core.DiffSnap(inside, core.Snapshot(x.base)); len(d) > 0 {
				cs.Fail("cache delete changed the user's own cache: %v", d)
				return
			}
			c.Count("own caches kept", 1)
			break
		}
		if _, err := os.Lstat(x.base); err == nil {
			cs.Fail("cache delete left %v", core.Snapshot(x.base))
			return
		}
		c.Count("caches deleted", 1)
	}
	cs.Sig("%s %s %v %d", x.url, x.version, x.base[len(cs.Dir):], len(x.a.ents))
}

func c18Fail(cs *core.Case) {
	c, r := cs.C, cs.R
	x := newCache(cs, chance(r, 15))
	defer x.d.close()
	before := x.outside()
	z := x.a.zip
	s := serving{kind: pick(r, "status", "truncate", "truncate", "cutoff", "cutoff", "reset", "empty", "garbage", "flip", "flip", "flip", "no protoc", "other version", "not executable", "protoc fails", "write limit", "write limit", "read-only", "redirect loop", "redirect"), code: 404}
	why := s.kind
	mustFail := true
	o := x.opt()
	at := 0
	switch why {
	case "status":
		s.code = []int{404, 403, 500, 503, 204, 400}[r.Intn(6)]
		if chance(r, 50) && s.code != 204 {
			s.body = z // an error page that is none
		} else {
			s.body = []byte{}
		}
	case "truncate", "cutoff":
		s.at = r.Intn(len(z))
		if chance(r, 25) {
			s.at = len(z) - 1 - r.Intn(60)
		}
	case "garbage":
		s.kind = "ok"
		s.body = []byte(pick(r, "<html>no such thing</html>", "PK\x03\x04", strings.Repeat("\x00", 3000), "PK\x05\x06"+strings.Repeat("\x00", 17)))
	case "flip":
		s.kind = "ok"
		s.body = append([]byte{}, z...)
		for i := 1 + r.Intn(3); i > 0; i-- {
			s.body[r.Intn(x.a.cd)] ^= byte(1 << uint(r.Intn(8)))
		}
		mustFail = false // what is flipped may not matter
	case "no protoc", "other version", "not executable", "protoc fails":
		b := &archive{}
		for _, e := range x.a.ents {
			if e.name == "bin/protoc" {
				switch why {
				case "no protoc":
					continue
				case "other version":
					e.data = protocScript("3.99.0")
					mustFail = x.url == ""
				case "not executable":
					e.mode = 0644
				case "protoc fails":
					e.data = []byte(pick(r, "#!/bin/sh\nexit 1\n", "\x7fELF nonsense", "", "#!/no/such/interpreter\n", "#!/bin/sh\nkill -9 $$\n"))
					if len(e.data) == 0 {
						mustFail = false // an empty script succeeds where a shell runs it
					}
				}
			}
			b.ents = append(b.ents, e)
		}
		b.pack(r)
		s.kind, s.body = "ok", b.zip
	case "write limit":
		s.kind = "ok"
		at = r.Intn(3)
		o.Wrap = []string{"/bin/bash", "-c", fmt.Sprintf(`trap "" XFSZ; ulimit -f %d; exec "$@"`, at), "sh"}
		mustFail = false // all files may be small enough
	case "read-only":
		s.kind = "ok"
		os.MkdirAll(x.base, 0755)
		os.Chmod(x.base, 0555)
		if chance(r, 50) {
			os.MkdirAll(filepath.Join(x.base, "Linux", "x86_64", "protobuf"), 0555)
		}
		o.Cred = nobody
		for _, p := range []string{cs.Dir, cs.Home, filepath.Join(cs.Home, ".cache")} {
			os.Chmod(p, 0755)
		}
	case "redirect loop":
		s.kind, s.code, s.body = "redirect", 302, []byte(x.path)
		if x.file != "" {
			s.kind = "reset"
		}
		if strings.HasPrefix(x.path, "https") {
			s.body = []byte(x.path)
		}
	case "redirect":
		// as GitHub does
		mustFail = false
		if x.file == "" && x.url != "" {
			x.d.serve("/elsewhere.zip", serving{kind: "ok", body: z})
			s.code, s.body = []int{301, 302, 307, 308}[r.Intn(4)], []byte("http://"+x.d.addr+"/elsewhere.zip")
		} else {
			s.kind = "ok"
		}
	}
	x.serve(s)
	for i := 1 + r.Intn(2); i > 0; i-- {
		res := x.run(o, pick(r, "compile", "cache update"))
		if !verdict(cs, res) {
			return
		}
		c.Count(fmt.Sprintf("fault %s: exit %d", why, res.Code), 1)
		if res.Code == 0 && mustFail {
			cs.Fail("%s: the command succeeds", why)
			return
		}
		if why == "redirect" && res.Code != 0 {
			cs.Fail("a redirect is not followed: %s%s", res.Out, res.Err)
			return
		}
		if why == "status" && x.file == "" && !strings.Contains(res.Out+res.Err, fmt.Sprint(s.code)) {
			cs.Fail("the HTTP status %d is not named:\n%s%s", s.code, res.Out, res.Err)
			return
		}
		if res.Code == 0 && why != "other version" && why != "protoc fails" && !x.whole() {
			return
		}
	}
	if why == "read-only" {
		os.Chmod(x.base, 0755)
	}
	if !x.same(before) {
		return
	}
	if why == "other version" && !mustFail || why == "protoc fails" && !mustFail {
		return // it was taken for good
	}
	x.serve(serving{kind: "ok"})
	if !x.sound(1) || !x.sound(0) {
		return
	}
	cs.Sig("%s %s %d %d %s %d", why, x.url, s.at, at, x.base[len(cs.Dir):], len(x.a.ents))
}

// files counts the files below a directory.
func filesBelow(dir string) int {
	n := 0
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			n++
		}
		return nil
	})
	return n
}

func c18Kill(cs *core.Case) {
	c, r := cs.C, cs.R
	x := newCache(cs, chance(r, 70))
	defer x.d.close()
	before := x.outside()
	for round := 1 + r.Intn(3); round > 0; round-- {
		how := pick(r, "stall", "slow", "files", "files", "files", "time")
		if x.file != "" && (how == "stall" || how == "slow") {
			how = "files"
		}
		sig := []syscall.Signal{syscall.SIGKILL, syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[r.Intn(5)]
		at, limit := r.Intn(len(x.a.zip)), r.Intn(len(x.a.ents)+2)
		wait := time.Duration(r.Intn(60)) * time.Millisecond
		if x.file == "" {
			switch how {
			case "stall":
				x.serve(serving{kind: "stall", at: at})
			case "slow":
				x.serve(serving{kind: "slow", dur: 150 * time.Millisecond})
			default:
				x.serve(serving{kind: "ok"})
			}
		}
		base := filesBelow(x.base)
		o := x.opt()
		o.Quiet = true
		var seen int
		o.Started = func(p *os.Process) {
			go func() {
				end := time.Now().Add(3 * time.Second)
				for time.Now().Before(end) {
					hit := false
					switch how {
					case "stall":
						hit = atomic.LoadInt64(&x.d.sent) >= int64(at)
						if hit {
							time.Sleep(wait / 4)
						}
					case "slow":
						hit = atomic.LoadInt64(&x.d.sent) >= int64(at)
					case "files":
						seen = filesBelow(x.base) - base
						hit = seen >= limit
					default:
						time.Sleep(wait)
						hit = true
					}
					if hit {
						break
					}
					time.Sleep(50 * time.Microsecond)
				}
				p.Signal(sig)
			}()
		}
		res := x.run(o, pick(r, "compile", "cache update"))
		if res.Hung {
			cs.Fail("a command survives %v", sig)
			return
		}
		cs.Note("%v: %v at %s (%d files, %d bytes): exit %d %s", res.Args, sig, how, limit, at, res.Code, res.Signal)
		switch {
		case res.Signal != "":
			c.Count("killed: "+how, 1)
			ins := filesBelow(x.base) - base
			switch {
			case ins <= 1:
				c.Count("killed before the extraction", 1)
			case ins < len(x.a.ents):
				c.Count("killed during the extraction", 1)
			default:
				c.Count("killed after the extraction", 1)
			}
			cs.Sig("%s %v %d %d %d", how, sig, ins, len(x.a.ents), at)
		case res.Code == 0:
			c.Count("ended before the signal", 1)
			if !x.whole() {
				return
			}
		case res.Panicked() || sig == syscall.SIGKILL || sig == syscall.SIGHUP:
			cs.Fail("a command that got %v fails with:\n%s%s", sig, res.Out, res.Err)
			return
		}
	}
	x.serve(serving{kind: "ok"})
	if !x.sound(1) || !x.sound(0) {
		return
	}
	x.same(before)
}

func c18Share(cs *core.Case) {
	c, r := cs.C, cs.R
	x := newCache(cs, chance(r, 30))
	defer x.d.close()
	before := x.outside()
	n := []int{2, 3, 5, 8, 16}[r.Intn(5)]
	warm := chance(r, 15)
	killed := 0
	if !warm && chance(r, 30) {
		killed = 1 + r.Intn(2)
	}
	deletes := 0
	if !x.own && chance(r, 40) {
		deletes = 1 + r.Intn(3)
	}
	if warm {
		if !x.sound(1) {
			return
		}
	}
	x.serve(serving{kind: "ok"})
	if x.file == "" && chance(r, 60) {
		x.serve(serving{kind: "slow", dur: time.Duration(50+r.Intn(1500)) * time.Millisecond})
	}
	type job struct {
		cmd   string
		delay time.Duration
		kill  time.Duration
		res   *core.Res
	}
	var jobs []*job
	for i := 0; i < n; i++ {
		j := &job{cmd: pick(r, "compile", "cache update", "descriptor-set --tmp")}
		if chance(r, 40) {
			j.delay = time.Duration(r.Intn(200)) * time.Millisecond
		}
		if i < killed {
			j.kill = time.Duration(1+r.Intn(120)) * time.Millisecond
		}
		jobs = append(jobs, j)
	}
	for i := 0; i < deletes; i++ {
		jobs = append(jobs, &job{cmd: "cache delete", delay: time.Duration(r.Intn(400)) * time.Millisecond})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			time.Sleep(j.delay)
			o := x.opt()
			o.Quiet = true
			if j.kill > 0 {
				o.Started = func(p *os.Process) {
					time.AfterFunc(j.kill, func() { p.Signal(syscall.SIGKILL) })
				}
			}
			if j.cmd == "cache delete" {
				j.res = cs.Run(o, "cache", "delete")
				return
			}
			j.res = x.run(o, j.cmd)
		}(j)
	}
	wg.Wait()
	dead := 0
	for _, j := range jobs {
		cs.Note("after %v (kill %v): %s", j.delay, j.kill, j.res)
		if j.kill > 0 && j.res.Signal != "" {
			dead++
			continue
		}
		if !verdict(cs, j.res) {
			return
		}
		if j.res.Code != 0 && deletes == 0 {
			cs.Fail("%s beside %d others fails:\n%s%s", j.cmd, len(jobs)-1, j.res.Out, j.res.Err)
			return
		}
	}
	hits := x.d.count(x.path)
	max := 1 + dead
	if warm {
		max = 0
	}
	c.Count("processes side by side", int64(len(jobs)))
	c.Count("killed side by side", int64(dead))
	if deletes == 0 && x.file == "" && hits > max {
		cs.Fail("%d processes (%d killed) requested the archive %d times", n, dead, hits)
		return
	}
	if deletes > 0 {
		c.Count("with deletes", 1)
	}
	x.serve(serving{kind: "ok"})
	if deletes > 0 {
		// a delete may take files of an installation that is being made (see c18Beside),
		// another one makes up for it
		if res := cs.Run(x.opt(), "cache", "delete"); !verdict(cs, res) {
			return
		}
	}
	most := 0
	if deletes > 0 || dead == n {
		most = 1
	}
	if !x.sound(most) || !x.sound(0) {
		return
	}
	x.same(before)
	cs.Sig("%d %d %d %v %v", n, dead, deletes, warm, x.file != "")
}

func c18Hostile(cs *core.Case) {
	c, r := cs.C, cs.R
	x := newCache(cs, false)
	defer x.d.close()
	// everything that could be reached is in the case's directory and the
	// process is not allowed to write anywhere else
	os.MkdirAll(x.base, 0777)
	filepath.Walk(cs.Dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode()&os.ModeSymlink == 0 {
			os.Chmod(p, fi.Mode().Perm()|0666|(fi.Mode().Perm()&0111)|0111)
		}
		return nil
	})
	victim := filepath.Join(cs.Dir, "victim")
	ioutil.WriteFile(victim, []byte("mine"), 0666)
	os.Chmod(victim, 0666)
	// up to the case's directory and no further
	depth := len(strings.Split(rel(cs.Dir, x.base), "/")) + 2
	if !x.own {
		depth += 2
	}
	up := strings.Repeat("../", 1+r.Intn(depth))
	ents := append([]zent{}, x.a.ents...)
	bad := zent{mode: 0644, data: []byte("evil")}
	link := false
	switch r.Intn(9) {
	case 0:
		bad.name = up + "evil"
	case 1:
		bad.name = "bin/" + up + "evil"
	case 2:
		bad.name = up + "victim"
	case 3:
		bad.name = "include/x/../../" + up + "w/p/a.proto"
	case 4:
		bad.name = victim // absolute
	case 5:
		bad.name = up + "home/.profile"
	case 6:
		link = true
		bad.name = "bin/link/victim"
	case 7:
		bad.name = up[:len(up)-1]
	case 8:
		bad.name = "./" + up + "tmp-evil/a"
	}
	k := r.Intn(len(ents) + 1)
	add := []zent{bad}
	if link {
		add = []zent{{name: "bin/link", mode: os.ModeSymlink | 0777, data: []byte(cs.Dir)}, bad}
	}
	ents = append(ents[:k], append(add, ents[k:]...)...)
	h := &archive{ents: ents}
	h.pack(r)
	x.serve(serving{kind: "ok", body: h.zip})
	before := x.outside()
	o := x.opt()
	o.Cred = nobody
	res := x.run(o, pick(r, "compile", "cache update"))
	if !verdict(cs, res) {
		return
	}
	c.Count(fmt.Sprintf("hostile exit %d", res.Code), 1)
	if !x.same(before) {
		return
	}
	if readAbs(victim) != "mine" {
		cs.Fail("a file outside the cache was overwritten")
		return
	}
	cs.Sig("%s %d", bad.name[:8%(len(bad.name)+1)], k)
	if res.Code == 0 {
		return
	}
	x.serve(serving{kind: "ok"})
	good := x.run(o, "compile")
	if !verdict(cs, good) {
		return
	}
	if good.Code != 0 {
		cs.Fail("the next command fails:\n%s%s", good.Out, good.Err)
		return
	}
	x.whole()
}

// c18Damage spoils an installation or what is around it.
func c18Damage(cs *core.Case) {
	c, r := cs.C, cs.R
	x := newCache(cs, false)
	defer x.d.close()
	if !x.sound(1) {
		return
	}
	l := roots(x.base)
	if len(l) != 1 {
		cs.Fail("%d installations instead of one: %v", len(l), l)
		return
	}
	root, bin := l[0], filepath.Join(l[0], "bin", "protoc")
	var did []string
	for i := 1 + r.Intn(2); i > 0; i-- {
		what := pick(r, "removed", "emptied directory", "cut", "fails", "no permission", "other", "other", "other", "old version", "leftover", "half", "lock", "directory instead", "none")
		did = append(did, what)
		must := func(err error) {
			if err != nil {
				cs.Fatal("%s: %v", what, err)
			}
		}
		bad := true
		// what a version of before, an interrupted one or a user may leave
		switch what {
		case "removed":
			must(os.Remove(bin))
		case "emptied directory":
			must(os.RemoveAll(root))
			must(os.MkdirAll(root, 0755))
		case "cut":
			must(ioutil.WriteFile(bin, []byte("#!/no/such"), 0755))
		case "fails":
			must(ioutil.WriteFile(bin, []byte("#!/bin/sh\nexit 3\n"), 0755))
		case "no permission":
			must(os.Chmod(bin, 0644))
		case "other":
			bad = x.url == ""
			if !bad {
				break // any version is taken there
			}
			if chance(r, 40) {
				must(ioutil.WriteFile(bin, []byte("#!/bin/sh\n"+pick(r, "exit 0", "exit 0", "echo", "echo libprotoc", "printf '\\0'", "echo libprotoc 3.11.0 >&2; echo no", "echo libprotoc 3.11.0; echo more", "echo xlibprotoc 3.11.0", "echo LIBPROTOC 3.11.0", "echo 'libprotoc  3.11.0'")+"\n"), 0755))
				break
			}
			must(ioutil.WriteFile(bin, protocScript(pick(r, "3.11.1", "13.11.0", "3.11.0-rc1", "3.11.01", "3.11.0.1", "3.11", "3.11.", "03.11.0", "")), 0755))
		case "old version":
			must(os.RemoveAll(root))
			must(os.MkdirAll(filepath.Join(root, "include", "google"), 0755))
			must(ioutil.WriteFile(filepath.Join(root, "include", "google", "x"), nil, 0644))
		case "leftover":
			bad = false
			for _, e := range []string{".tmp", ".tmp/bin", ".tmp/include/google"} {
				must(os.MkdirAll(root+e, 0755))
			}
			must(ioutil.WriteFile(root+".tmp/bin/protoc", []byte("#!/bin/sh\nexit 3\n"), 0755))
			must(ioutil.WriteFile(root+".tmp/bin/more", nil, 0755))
			if chance(r, 60) {
				must(os.Remove(bin))
				bad = true
			}
		case "half":
			// bin is there, all else is not; but protoc does not work
			must(os.RemoveAll(filepath.Join(root, "include")))
			must(os.Remove(bin))
		case "lock":
			bad = false
			must(ioutil.WriteFile(root+".lock", []byte("0\n"), 0644))
		case "directory instead":
			must(os.RemoveAll(bin))
			must(os.MkdirAll(filepath.Join(bin, "d"), 0755))
		default:
			bad = false
		}
		before := x.d.count(x.path)
		if bad && chance(r, 40) {
			x.serve(serving{kind: "status", code: 500})
			res := x.run(x.opt(), "compile")
			if !verdict(cs, res) {
				return
			}
			if res.Code == 0 {
				cs.Fail("%v: succeeds without protoc", did)
				return
			}
		}
		x.serve(serving{kind: "ok"})
		before = x.d.count(x.path)
		max := 1
		if !bad {
			max = 0
		}
		if !x.sound(max) || !x.sound(0) {
			cs.Note("%v", did)
			return
		}
		c.Count("damage: "+what, 1)
		c.Count("requests after damage", int64(x.d.count(x.path)-before))
	}
	cs.Sig("%v %s %s", did, x.url, x.base[len(cs.Dir):])
}

// c18Mixed has projects with protoc versions and archives of their own use one cache.
func c18Mixed(cs *core.Case) {
	c, r := cs.C, cs.R
	d := newDL(cs)
	defer d.close()
	ca := makeCert(cs, "ca", nil)
	crt := makeCert(cs, "github", ca, "github.com")
	d.cert = &crt.pair
	base := filepath.Join(cs.Dir, "cache")
	env := []string{"HTTPS_PROXY=http://" + d.addr, "SSL_CERT_FILE=" + filepath.Join(cs.Dir, "ca.crt")}
	var flags []string
	switch r.Intn(3) {
	case 0:
		env = append(env, "PROTOTOOL_CACHE_PATH="+base)
	case 1:
		flags = []string{"--cache-path", base}
	default:
		env = append(env, "XDG_CACHE_HOME="+base)
	}
	log := filepath.Join(cs.Dir, "protoc.log")
	type proj struct {
		dir, id, path string
		flags         []string
		a             *archive
	}
	var projs []*proj
	n := 2 + r.Intn(3)
	versions := []string{"3.11.0", "3.8.0", "3.1", "3.11.01", "3.11.0-rc-1"} // GitHub tags the last as v3.11.0-rc1
	r.Shuffle(len(versions), func(i, j int) { versions[i], versions[j] = versions[j], versions[i] })
	for i := 0; i < n; i++ {
		p := &proj{dir: fmt.Sprintf("p%d", i), id: fmt.Sprintf("m%d", i)}
		v := versions[i]
		conf := "protoc:\n  allow_unused_imports: true\n  version: " + v + "\n"
		switch r.Intn(4) {
		case 3: // all but what follows the path
			p.path = fmt.Sprintf("/protoc.zip?v=%d", i)
		case 0: // the same name at several places
			p.path = fmt.Sprintf("/%d/protoc.zip", i)
		case 1:
			p.path = "/protoc.zip" + strings.Repeat("/", i) + "x"
		default:
			p.path = "https://github.com/protocolbuffers/protobuf/releases/download/v" + strings.Replace(v, "-rc-", "-rc", 1) + "/protoc-" + v + "-linux-x86_64.zip"
		}
		if p.path[0] == '/' {
			p.flags = []string{"--protoc-url", "http://" + d.addr + p.path}
			if chance(r, 50) {
				conf = "" // and the same version
			}
		}
		p.a = mkArchive(r, v, false)
		for j := range p.a.ents {
			e := &p.a.ents[j]
			switch e.name {
			case "include/" + markerProto:
				e.data = []byte(fmt.Sprintf("syntax = \"proto3\";\n\npackage google.protobuf;\n\nmessage Marker%s {}\n", p.id))
			case "bin/protoc":
				e.data = bytes.Replace(e.data, []byte("\nexec"), []byte("\necho "+p.id+" >> "+log+"\nexec"), 1)
			}
		}
		p.a.pack(r)
		d.serve(p.path, serving{kind: "ok", body: p.a.zip})
		if chance(r, 40) {
			d.serve(p.path, serving{kind: "slow", body: p.a.zip, dur: 200 * time.Millisecond})
		}
		cs.Write(p.dir+"/prototool.yaml", conf)
		cs.Write(p.dir+"/a.proto", fmt.Sprintf("syntax = \"proto3\";\n\npackage a;\n\nimport %q;\n\nmessage A {\n  google.protobuf.Marker%s a = 1;\n}\n", markerProto, p.id))
		projs = append(projs, p)
	}
	one := func(p *proj) bool {
		o := core.Opt{Dir: filepath.Join(cs.W, p.dir), NoProtoc: true, Env: env, Timeout: 60 * time.Second, Quiet: true}
		res := cs.Run(o, append(append([]string{"compile"}, flags...), p.flags...)...)
		if !verdict(cs, res) {
			return false
		}
		if res.Code != 0 {
			cs.Fail("%s (%s): compiling with an archive of its own fails:\n%s%s", p.dir, p.path, res.Out, res.Err)
			return false
		}
		return true
	}
	// side by side first, then one after another
	var wg sync.WaitGroup
	var bad int64
	var k int64
	for i := 0; i < 2*n; i++ {
		p := projs[i%n]
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt64(&k, 1)
			if !one(p) {
				atomic.AddInt64(&bad, 1)
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		return
	}
	for i := 0; i < n; i++ {
		p := projs[r.Intn(n)]
		os.Remove(log)
		if !one(p) {
			return
		}
		for _, l := range strings.Fields(readAbs(log)) {
			if l != p.id {
				cs.Fail("%s (%s) ran the protoc of %s", p.dir, p.path, l)
				return
			}
		}
		c.Count("own protoc used", 1)
	}
	for _, p := range projs {
		if h := d.count(p.path); h != 1 {
			cs.Fail("%s was requested %d times", p.path, h)
			return
		}
		ok := false
		for _, root := range roots(base) {
			ok = ok || p.a.complete(root) == ""
		}
		if !ok {
			cs.Fail("no installation has the files of %s", p.path)
			return
		}
	}
	if l := roots(base); len(l) != n {
		cs.Fail("%d installations for %d archives: %v", len(l), n, l)
		return
	}
	cs.Sig("%d %v", n, projs[0].path)
}

// c18Beside deletes the cache while a process that downloads is held up.
func c18Beside(cs *core.Case) {
	r := cs.R
	d := newDL(cs)
	defer d.close()
	a := mkArchive(r, "3.11.0", false)
	for i := 0; i < 1500; i++ {
		a.ents = append(a.ents, zent{fmt.Sprintf("extra/f%d", i), 0644, []byte("x")})
	}
	// protoc last, so that it is there whenever anything is missing
	for i, e := range a.ents {
		if e.name == "bin/protoc" {
			a.ents = append(append(a.ents[:i:i], a.ents[i+1:]...), e)
			break
		}
	}
	a.pack(r)
	d.serve("/p.zip", serving{kind: "ok", body: a.zip})
	cs.Write("p/prototool.yaml", "")
	cs.Write("p/a.proto", "syntax = \"proto3\";\n\npackage a;\n")
	base := filepath.Join(cs.Home, ".cache", "prototool")
	o := core.Opt{Dir: filepath.Join(cs.W, "p"), NoProtoc: true, Timeout: 60 * time.Second, Quiet: true}
	var res *core.Res
	held := false
	for try := 0; try < 5 && !held; try++ {
		cs.Run(core.Opt{Dir: cs.W, NoProtoc: true}, "cache", "delete")
		o.Started = func(p *os.Process) {
			go func() {
				for i := 0; i < 100000; i++ {
					if filesBelow(base) > 300 {
						p.Signal(syscall.SIGSTOP)
						time.Sleep(20 * time.Millisecond)
						held = filesBelow(base) < len(a.ents)
						cs.Run(core.Opt{Dir: cs.W, NoProtoc: true}, "cache", "delete")
						p.Signal(syscall.SIGCONT)
						return
					}
				}
			}()
		}
		res = cs.Run(o, "compile", "--protoc-url", "http://"+d.addr+"/p.zip")
	}
	if !held {
		cs.C.Count("not held in time", 1)
		return
	}
	o.Started = nil
	next := cs.Run(o, "compile", "--protoc-url", "http://"+d.addr+"/p.zip")
	if !verdict(cs, next) {
		return
	}
	for _, p := range roots(base) {
		if why := a.complete(p); why != "" {
			cs.Fail("an incomplete installation stays after cache delete beside a download: %s (exit %d, then %d)", why, res.Code, next.Code)
			return
		}
	}
}
