// Package pb is a small model of protocol buffer messages of its own: random
// values, the wire format and the JSON mapping, written from the language
// guide and sharing no code with what is under test.
package pb

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/golang/protobuf/protoc-gen-go/descriptor"
)

// Field is a field of a message type.
type Field struct {
	Name, JSON            string
	Num                   int32
	Kind                  string // "int32" … "message", "group", "enum"
	Rep, Packed, Presence bool
	Required              bool
	Msg                   *Msg
	Enum                  *Enum
	Oneof                 int // -1: none
}

// Msg is a message type.
type Msg struct {
	Full   string
	Fields []*Field
	Entry  bool
	File   string
}

// Enum is an enum type.
type Enum struct {
	Full  string
	Names []string
	Nums  []int32
	Open  bool
}

// Pool holds the types of a file descriptor set.
type Pool struct {
	Msgs  map[string]*Msg
	Enums map[string]*Enum
	Order []*Msg // no map entries
}

// NewPool makes a pool.
func NewPool(set *descriptor.FileDescriptorSet) *Pool {
	p := &Pool{Msgs: map[string]*Msg{}, Enums: map[string]*Enum{}}
	type todo struct {
		m  *Msg
		d  *descriptor.DescriptorProto
		p3 bool
	}
	var all []todo
	for _, f := range set.File {
		p3 := f.GetSyntax() == "proto3"
		enum := func(scope string, e *descriptor.EnumDescriptorProto) {
			x := &Enum{Full: scope + "." + e.GetName(), Open: p3}
			for _, v := range e.Value {
				x.Names = append(x.Names, v.GetName())
				x.Nums = append(x.Nums, v.GetNumber())
			}
			p.Enums[x.Full] = x
		}
		var walk func(scope string, d *descriptor.DescriptorProto)
		walk = func(scope string, d *descriptor.DescriptorProto) {
			m := &Msg{Full: scope + "." + d.GetName(), Entry: d.GetOptions().GetMapEntry(), File: f.GetName()}
			p.Msgs[m.Full] = m
			if !m.Entry {
				p.Order = append(p.Order, m)
			}
			all = append(all, todo{m, d, p3})
			for _, n := range d.NestedType {
				walk(m.Full, n)
			}
			for _, e := range d.EnumType {
				enum(m.Full, e)
			}
		}
		scope := ""
		if f.GetPackage() != "" {
			scope = "." + f.GetPackage()
		}
		for _, d := range f.MessageType {
			walk(scope, d)
		}
		for _, e := range f.EnumType {
			enum(scope, e)
		}
	}
	for _, t := range all {
		for _, y := range t.d.Field {
			f := &Field{Name: y.GetName(), JSON: y.GetJsonName(), Num: y.GetNumber(), Kind: strings.ToLower(strings.TrimPrefix(y.GetType().String(), "TYPE_")), Oneof: -1}
			f.Rep = y.GetLabel() == descriptor.FieldDescriptorProto_LABEL_REPEATED
			f.Required = y.GetLabel() == descriptor.FieldDescriptorProto_LABEL_REQUIRED
			if y.OneofIndex != nil {
				f.Oneof = int(y.GetOneofIndex())
			}
			switch f.Kind {
			case "message", "group":
				f.Msg = p.Msgs[y.GetTypeName()]
			case "enum":
				f.Enum = p.Enums[y.GetTypeName()]
			}
			f.Presence = !f.Rep && (!t.p3 || f.Oneof >= 0 || f.Msg != nil)
			if t.m.Entry {
				f.Presence = true // both are always sent
			}
			f.Packed = f.Rep && (y.GetOptions().GetPacked() || t.p3 && (y.Options == nil || y.Options.Packed == nil)) && f.Msg == nil && f.Kind != "string" && f.Kind != "bytes"
			t.m.Fields = append(t.m.Fields, f)
		}
	}
	return p
}

// M is a message: field number to values. Signed integers and enums are int64,
// unsigned ones uint64, both float kinds float64.
type M struct {
	D   *Msg
	F   map[int32][]interface{}
	Any *M // of a google.protobuf.Any: what is packed in it
}

// New makes an empty message.
func New(d *Msg) *M { return &M{D: d, F: map[int32][]interface{}{}} }

func (d *Msg) byNum(n int32) *Field {
	for _, f := range d.Fields {
		if f.Num == n {
			return f
		}
	}
	return nil
}

func pickN(r *rand.Rand, l []int64) int64 { return l[r.Intn(len(l))] }

var runes = []rune{'a', 'Z', '0', ' ', '"', '\\', '/', '\n', '\t', '\r', '\b', 0, 0x1f, 0x7f, '<', '>', '&', '\'', 'é', '漢', 0x2028, 0x2029, 0xfffd, 0x1f600, 0xfeff, '{', '}', '[', ']', ':', ','}

func randString(r *rand.Rand) string {
	s := ""
	for n := r.Intn(12); n > 0; n-- {
		s += string(runes[r.Intn(len(runes))])
	}
	if r.Intn(60) == 0 {
		s += strings.Repeat("long ", 2000)
	}
	return s
}

// Scalar makes a random value of a scalar kind.
func Scalar(r *rand.Rand, f *Field) interface{} {
	switch f.Kind {
	case "int32", "sint32", "sfixed32":
		return pickN(r, []int64{0, 1, -1, math.MaxInt32, math.MinInt32, int64(int32(r.Uint32()))})
	case "int64", "sint64", "sfixed64":
		return pickN(r, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53 + 1, -(1<<53 + 1), int64(r.Uint64())})
	case "uint32", "fixed32":
		return uint64(pickN(r, []int64{0, 1, math.MaxUint32, 1 << 31, int64(r.Uint32())}))
	case "uint64", "fixed64":
		return []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<53 + 1, r.Uint64()}[r.Intn(6)]
	case "bool":
		return r.Intn(2) == 0
	case "float":
		return float64(float32([]float64{0, 1.5, -2.25, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e10, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), 16777217, r.NormFloat64()}[r.Intn(12)]))
	case "double":
		return []float64{0, 1.5, -2.25, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), 1<<53 + 2, r.NormFloat64()}[r.Intn(13)]
	case "string":
		return randString(r)
	case "bytes":
		b := make([]byte, r.Intn(9))
		r.Read(b)
		return b
	case "enum":
		if f.Enum.Open && r.Intn(12) == 0 {
			return int64(1000 + r.Intn(9))
		}
		return int64(f.Enum.Nums[r.Intn(len(f.Enum.Nums))])
	}
	panic(f.Kind)
}

const maxSec = 253402300799
const minSec = -62135596800

// Random makes a random message. What it leaves out is what the libraries below
// prototool are known not to carry (see the known findings): an Any without
// type, an empty BytesValue, and a Value that is null
// in a map or list or a list by itself.
func (p *Pool) Random(r *rand.Rand, d *Msg, depth int) *M {
	return p.random(r, d, depth, where{})
}

type where struct {
	noNull bool // a Value here may not be null
	noList bool // … nor a list
}

func (p *Pool) needsAny(d *Msg, seen map[*Msg]bool) bool {
	if d.Full == ".google.protobuf.Any" {
		return true
	}
	if seen[d] {
		return false
	}
	seen[d] = true
	for _, f := range d.Fields {
		if (f.Required || d.Entry) && f.Msg != nil && p.needsAny(f.Msg, seen) {
			return true
		}
	}
	return false
}

func (p *Pool) random(r *rand.Rand, d *Msg, depth int, w where) *M {
	m := New(d)
	switch d.Full {
	case ".google.protobuf.Timestamp":
		m.F[1] = []interface{}{pickN(r, []int64{0, 1, minSec, maxSec, 1583000000, -1, r.Int63n(maxSec)})}
		m.F[2] = []interface{}{pickN(r, []int64{0, 1, 999999999, 500000000, 123456000, int64(r.Intn(1000000000))})}
		return m.norm()
	case ".google.protobuf.Duration":
		s := pickN(r, []int64{0, 0, 1, -1, 9223372036, -9223372036, int64(r.Intn(100000))})
		n := pickN(r, []int64{0, 1, 999999999, 500000000, 123456000})
		if s < 0 || s == 0 && r.Intn(2) == 0 {
			n = -n
		}
		if s > 9e9 || s < -9e9 {
			n = 0 // what golang/protobuf can read; beyond is a known finding
		}
		m.F[1], m.F[2] = []interface{}{s}, []interface{}{n}
		return m.norm()
	case ".google.protobuf.Value":
		k := int32(1 + r.Intn(6))
		if depth <= 0 && k > 4 || k == 1 && w.noNull || k == 6 && w.noList {
			k = 3
		}
		f := d.byNum(k)
		switch k {
		case 1:
			m.F[1] = []interface{}{int64(0)}
		case 2:
			m.F[2] = []interface{}{[]float64{0, 1, -1.5, 1e21, 0.1, 123456789}[r.Intn(6)]}
		case 5, 6:
			m.F[k] = []interface{}{p.random(r, f.Msg, depth-1, where{})}
		default:
			m.F[k] = []interface{}{Scalar(r, f)}
		}
		return m
	case ".google.protobuf.Any":
		var c []*Msg
		for _, x := range p.Order {
			// the JSON form of a well-known type inside Any is a matter of its own
			if !strings.HasPrefix(x.Full, ".google.") && !p.needsAny(x, map[*Msg]bool{}) {
				c = append(c, x)
			}
		}
		m.Any = p.random(r, c[r.Intn(len(c))], depth-1, where{})
		m.F[1] = []interface{}{"type.googleapis.com/" + m.Any.D.Full[1:]}
		if b := m.Any.Wire(nil); len(b) > 0 {
			m.F[2] = []interface{}{b}
		}
		return m
	}
	wkt := strings.HasPrefix(d.Full, ".google.")
	for _, f := range d.Fields {
		if f.Oneof >= 0 && m.has(d, f.Oneof) {
			continue
		}
		n := 1
		switch {
		case f.Rep:
			n = []int{0, 0, 1, 2, 3, 5}[r.Intn(6)]
		case f.Required || d.Entry:
		case r.Intn(10) < 4 && !wkt:
			n = 0
		}
		if f.Msg != nil && depth <= 0 && !f.Required && !d.Entry && !wkt {
			n = 0
		}
		var l []interface{}
		keys := map[interface{}]bool{}
		for i := 0; i < n; i++ {
			if f.Msg != nil {
				x := p.random(r, f.Msg, depth-1, where{f.Rep || d.Entry, !f.Rep && !d.Entry})
				if f.Msg.Entry {
					if k, ok := x.F[1][0].(string); ok {
						// other characters in keys are a known finding
						x.F[1][0] = strings.Map(func(c rune) rune {
							if c < ' ' || c > '~' {
								return 'k'
							}
							return c
						}, k)
					}
					k := x.F[1][0]
					if keys[k] {
						continue
					}
					keys[k] = true
				}
				l = append(l, x)
			} else {
				l = append(l, Scalar(r, f))
			}
		}
		if len(l) > 0 {
			m.F[f.Num] = l
		}
	}
	if d.Full == ".google.protobuf.BytesValue" {
		m.F[1] = []interface{}{[]byte{byte(r.Intn(256)), 0}}
	}
	return m.norm()
}

func (m *M) has(d *Msg, oneof int) bool {
	for _, f := range d.Fields {
		if f.Oneof == oneof && len(m.F[f.Num]) > 0 {
			return true
		}
	}
	return false
}

func zero(v interface{}) bool {
	switch x := v.(type) {
	case int64:
		return x == 0
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case bool:
		return !x
	case string:
		return x == ""
	case []byte:
		return len(x) == 0
	}
	return false
}

// norm drops what is not there: zeros without presence.
func (m *M) norm() *M {
	for _, f := range m.D.Fields {
		l := m.F[f.Num]
		if len(l) == 0 || !f.Rep && !f.Presence && zero(l[0]) {
			delete(m.F, f.Num)
		}
	}
	return m
}

// Canon is a text that two messages share if they are equal.
func (m *M) Canon() string {
	var b strings.Builder
	m.canon(&b)
	return b.String()
}

func (m *M) canon(b *strings.Builder) {
	b.WriteString("{")
	if m.Any != nil {
		fmt.Fprintf(b, "any %s ", m.Any.D.Full)
		m.Any.canon(b)
		b.WriteString("}")
		return
	}
	fs := append([]*Field{}, m.D.Fields...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].Num < fs[j].Num })
	for _, f := range fs {
		l := m.F[f.Num]
		if len(l) == 0 || !f.Rep && !f.Presence && zero(l[0]) {
			continue
		}
		var t []string
		for _, v := range l {
			t = append(t, canonV(v))
		}
		if f.Msg != nil && f.Msg.Entry {
			sort.Strings(t)
		}
		fmt.Fprintf(b, "%s:%s ", f.Name, strings.Join(t, ","))
	}
	b.WriteString("}")
}

func canonV(v interface{}) string {
	switch x := v.(type) {
	case *M:
		return x.Canon()
	case float64:
		if math.IsNaN(x) {
			return "nan"
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case string:
		return strconv.Quote(x)
	case []byte:
		return fmt.Sprintf("b%x", x)
	}
	return fmt.Sprint(v)
}

func varint(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func wireType(k string) uint64 {
	switch k {
	case "fixed64", "sfixed64", "double":
		return 1
	case "fixed32", "sfixed32", "float":
		return 5
	case "string", "bytes", "message":
		return 2
	case "group":
		return 3
	}
	return 0
}

func putScalar(b []byte, f *Field, v interface{}) []byte {
	switch f.Kind {
	case "int32", "int64", "enum":
		return varint(b, uint64(v.(int64)))
	case "sint32", "sint64":
		x := v.(int64)
		return varint(b, uint64(x)<<1^uint64(x>>63))
	case "uint32", "uint64":
		return varint(b, v.(uint64))
	case "bool":
		if v.(bool) {
			return append(b, 1)
		}
		return append(b, 0)
	case "fixed32":
		return binary.LittleEndian.AppendUint32(b, uint32(v.(uint64)))
	case "sfixed32":
		return binary.LittleEndian.AppendUint32(b, uint32(v.(int64)))
	case "fixed64":
		return binary.LittleEndian.AppendUint64(b, v.(uint64))
	case "sfixed64":
		return binary.LittleEndian.AppendUint64(b, uint64(v.(int64)))
	case "float":
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v.(float64))))
	case "double":
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.(float64)))
	case "string":
		return append(varint(b, uint64(len(v.(string)))), v.(string)...)
	case "bytes":
		return append(varint(b, uint64(len(v.([]byte)))), v.([]byte)...)
	}
	panic(f.Kind)
}

// Wire encodes a message; with r, in one of many valid ways.
func (m *M) Wire(r *rand.Rand) []byte {
	fs := append([]*Field{}, m.D.Fields...)
	if r != nil {
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	var b []byte
	for _, f := range fs {
		l := m.F[f.Num]
		if len(l) == 0 {
			continue
		}
		packable := f.Rep && f.Msg == nil && f.Kind != "string" && f.Kind != "bytes"
		packed := f.Packed
		if r != nil && packable && r.Intn(4) == 0 {
			packed = !packed
		}
		if packed {
			var in []byte
			for _, v := range l {
				in = putScalar(in, f, v)
			}
			b = varint(b, uint64(f.Num)<<3|2)
			b = append(varint(b, uint64(len(in))), in...)
			continue
		}
		for _, v := range l {
			b = varint(b, uint64(f.Num)<<3|wireType(f.Kind))
			if x, ok := v.(*M); ok {
				in := x.Wire(r)
				if f.Kind == "group" {
					b = append(b, in...)
					b = varint(b, uint64(f.Num)<<3|4)
				} else {
					b = append(varint(b, uint64(len(in))), in...)
				}
				continue
			}
			b = putScalar(b, f, v)
		}
	}
	return b
}

type reader struct {
	b []byte
	p *Pool
}

func (q *reader) varint() (uint64, error) {
	var x uint64
	for i := 0; i < 10; i++ {
		if len(q.b) == 0 {
			return 0, fmt.Errorf("cut varint")
		}
		c := q.b[0]
		q.b = q.b[1:]
		x |= uint64(c&0x7f) << uint(7*i)
		if c < 0x80 {
			return x, nil
		}
	}
	return 0, fmt.Errorf("long varint")
}

func (q *reader) take(n uint64) ([]byte, error) {
	if uint64(len(q.b)) < n {
		return nil, fmt.Errorf("cut field")
	}
	b := q.b[:n]
	q.b = q.b[n:]
	return b, nil
}

func (q *reader) scalar(f *Field, wt uint64) (interface{}, error) {
	switch wt {
	case 0:
		x, err := q.varint()
		switch f.Kind {
		case "int32", "enum":
			return int64(int32(x)), err
		case "int64":
			return int64(x), err
		case "sint32", "sint64":
			return int64(x>>1) ^ -int64(x&1), err
		case "uint32":
			return uint64(uint32(x)), err
		case "uint64":
			return x, err
		case "bool":
			return x != 0, err
		}
	case 1:
		b, err := q.take(8)
		if err != nil {
			return nil, err
		}
		x := binary.LittleEndian.Uint64(b)
		switch f.Kind {
		case "fixed64":
			return x, nil
		case "sfixed64":
			return int64(x), nil
		case "double":
			return math.Float64frombits(x), nil
		}
	case 5:
		b, err := q.take(4)
		if err != nil {
			return nil, err
		}
		x := binary.LittleEndian.Uint32(b)
		switch f.Kind {
		case "fixed32":
			return uint64(x), nil
		case "sfixed32":
			return int64(int32(x)), nil
		case "float":
			return float64(math.Float32frombits(x)), nil
		}
	}
	return nil, fmt.Errorf("field %s has wire type %d", f.Name, wt)
}

// Parse decodes a message; a field the type does not have is an error.
func (p *Pool) Parse(d *Msg, b []byte) (*M, error) {
	q := &reader{b: b, p: p}
	m, err := q.msg(d, 0)
	return m, err
}

func (q *reader) msg(d *Msg, group int32) (*M, error) {
	m := New(d)
	for len(q.b) > 0 {
		tag, err := q.varint()
		if err != nil {
			return nil, err
		}
		num, wt := int32(tag>>3), tag&7
		if wt == 4 {
			if num == group {
				group = 0
				break
			}
			return nil, fmt.Errorf("stray end of group %d", num)
		}
		f := d.byNum(num)
		if f == nil {
			return nil, fmt.Errorf("unknown field %d of %s", num, d.Full)
		}
		var v interface{}
		switch {
		case wt == 3 && f.Kind == "group":
			v, err = q.msg(f.Msg, num)
		case wt == 2:
			n, e := q.varint()
			if e != nil {
				return nil, e
			}
			in, e := q.take(n)
			if e != nil {
				return nil, e
			}
			switch f.Kind {
			case "string":
				if !utf8.Valid(in) {
					return nil, fmt.Errorf("invalid UTF-8")
				}
				v = string(in)
			case "bytes":
				v = append([]byte{}, in...)
			case "message":
				v, err = q.p.Parse(f.Msg, in)
			case "group":
				return nil, fmt.Errorf("group %s as bytes", f.Name)
			default:
				sub := &reader{b: in}
				for len(sub.b) > 0 {
					x, e := sub.scalar(f, wireType(f.Kind))
					if e != nil {
						return nil, e
					}
					m.F[num] = append(m.F[num], x)
				}
				continue
			}
		default:
			v, err = q.scalar(f, wt)
		}
		if err != nil {
			return nil, err
		}
		if f.Oneof >= 0 {
			for _, g := range d.Fields {
				if g.Oneof == f.Oneof {
					delete(m.F, g.Num)
				}
			}
		}
		if x, ok := v.(*M); ok && f.Msg.Entry {
			for _, y := range x.D.Fields { // both default
				if len(x.F[y.Num]) == 0 {
					x.F[y.Num] = []interface{}{q.p.def(y)}
				}
			}
			l := m.F[num][:0:0]
			for _, o := range m.F[num] {
				if o.(*M).F[1][0] != x.F[1][0] {
					l = append(l, o)
				}
			}
			m.F[num] = append(l, v)
		} else if f.Rep {
			m.F[num] = append(m.F[num], v)
		} else {
			m.F[num] = []interface{}{v}
		}
	}
	if group != 0 {
		return nil, fmt.Errorf("group does not end")
	}
	if err := q.p.openAny(m); err != nil {
		return nil, err
	}
	return m.norm(), nil
}

func (p *Pool) openAny(m *M) error {
	if m.D.Full != ".google.protobuf.Any" || p == nil || len(m.F[1]) == 0 {
		return nil
	}
	u := m.F[1][0].(string)
	t := p.Msgs["."+u[strings.LastIndex(u, "/")+1:]]
	if t == nil {
		return fmt.Errorf("Any of unknown type %s", u)
	}
	var b []byte
	if len(m.F[2]) > 0 {
		b = m.F[2][0].([]byte)
	}
	x, err := p.Parse(t, b)
	m.Any = x
	return err
}

func (p *Pool) def(f *Field) interface{} {
	switch f.Kind {
	case "message", "group":
		return New(f.Msg)
	case "string":
		return ""
	case "bytes":
		return []byte{}
	case "bool":
		return false
	case "float", "double":
		return float64(0)
	case "uint32", "uint64", "fixed32", "fixed64":
		return uint64(0)
	case "enum":
		return int64(f.Enum.Nums[0])
	}
	return int64(0)
}

func quote(r *rand.Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 0x20 || r != nil && c < 0x10000 && r.Intn(9) == 0:
			fmt.Fprintf(&b, "\\u%04x", c)
		case r != nil && c >= 0x10000 && r.Intn(3) == 0:
			c -= 0x10000
			fmt.Fprintf(&b, "\\u%04x\\u%04x", 0xd800+c>>10, 0xdc00+c&0x3ff)
		case c == '/' && r != nil && r.Intn(2) == 0:
			b.WriteString("\\/")
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func number(f float64, bits int) string {
	switch {
	case math.IsNaN(f):
		return `"NaN"`
	case math.IsInf(f, 1):
		return `"Infinity"`
	case math.IsInf(f, -1):
		return `"-Infinity"`
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

func scalarJSON(r *rand.Rand, f *Field, v interface{}) string {
	odd := func(n int) bool { return r != nil && r.Intn(n) == 0 }
	switch x := v.(type) {
	case bool:
		return fmt.Sprint(x)
	case string:
		return quote(r, x)
	case []byte:
		return quote(nil, base64.StdEncoding.EncodeToString(x))
	case float64:
		if f.Kind == "float" {
			return number(x, 32)
		}
		return number(x, 64)
	case uint64:
		if strings.HasSuffix(f.Kind, "64") != odd(3) {
			return fmt.Sprintf("%q", fmt.Sprint(x))
		}
		return fmt.Sprint(x)
	case int64:
		if f.Kind == "enum" {
			for i, n := range f.Enum.Nums {
				if int64(n) == x && !odd(4) {
					return fmt.Sprintf("%q", f.Enum.Names[i])
				}
			}
			return fmt.Sprint(x)
		}
		if strings.HasSuffix(f.Kind, "64") != odd(3) {
			return fmt.Sprintf("%q", fmt.Sprint(x))
		}
		return fmt.Sprint(x)
	}
	panic(fmt.Sprintf("%T", v))
}

func ws(r *rand.Rand) string {
	if r == nil {
		return ""
	}
	return []string{"", "", "", " ", "\n", "\t", "  "}[r.Intn(7)]
}

func frac(n int64) string {
	if n == 0 {
		return ""
	}
	return "." + strings.TrimRight(fmt.Sprintf("%09d", n), "0")
}

func get(m *M, n int32) int64 {
	if len(m.F[n]) == 0 {
		return 0
	}
	return m.F[n][0].(int64)
}

// JSON is the JSON form; with r, in one of many valid spellings.
func (m *M) JSON(r *rand.Rand) string {
	switch m.D.Full {
	case ".google.protobuf.Timestamp":
		return `"` + time.Unix(get(m, 1), 0).UTC().Format("2006-01-02T15:04:05") + frac(get(m, 2)) + `Z"`
	case ".google.protobuf.Duration":
		s, n, sign := get(m, 1), get(m, 2), ""
		if s < 0 || n < 0 {
			s, n, sign = -s, -n, "-"
		}
		return fmt.Sprintf(`"%s%d%ss"`, sign, s, frac(n))
	case ".google.protobuf.Struct":
		return m.mapJSON(r, m.D.byNum(1))
	case ".google.protobuf.ListValue":
		return list(r, m.D.byNum(1), m.F[1])
	case ".google.protobuf.Value":
		for _, f := range m.D.Fields {
			if l := m.F[f.Num]; len(l) > 0 {
				switch f.Num {
				case 1:
					return "null"
				case 5, 6:
					return l[0].(*M).JSON(r)
				}
				return scalarJSON(nil, f, l[0])
			}
		}
		return "null"
	case ".google.protobuf.Any":
		if m.Any == nil {
			return "{}"
		}
		return m.Any.object(r, fmt.Sprintf(`"@type"%s:%s%q`, ws(r), ws(r), m.F[1][0]))
	}
	if strings.HasPrefix(m.D.Full, ".google.protobuf.") && strings.HasSuffix(m.D.Full, "Value") { // wrappers
		f := m.D.Fields[0]
		l := m.F[1]
		if len(l) == 0 {
			return scalarJSON(nil, f, (*Pool)(nil).def(f))
		}
		return scalarJSON(nil, f, l[0])
	}
	return m.object(r, "")
}

func (m *M) object(r *rand.Rand, first string) string {
	var parts []string
	for _, f := range m.D.Fields {
		l := m.F[f.Num]
		name := f.JSON
		if r != nil && r.Intn(3) == 0 {
			name = f.Name
		}
		if f.Kind == "group" {
			name = strings.ToLower(f.Msg.Full[strings.LastIndex(f.Msg.Full, ".")+1:])
		}
		k := quote(r, name) + ws(r) + ":" + ws(r)
		switch {
		case len(l) == 0:
			if r != nil && f.Oneof < 0 && !f.Presence && r.Intn(6) == 0 { // the default, spelt out
				switch {
				case f.Msg != nil && f.Msg.Entry:
					parts = append(parts, k+"{}")
				case f.Rep:
					parts = append(parts, k+"[]")
				default:
					parts = append(parts, k+scalarJSON(nil, f, (*Pool)(nil).def(f)))
				}
			}
		case f.Msg != nil && f.Msg.Entry:
			parts = append(parts, k+m.mapJSON(r, f))
		case f.Rep:
			parts = append(parts, k+list(r, f, l))
		default:
			parts = append(parts, k+one(r, f, l[0]))
		}
	}
	if r != nil {
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	if first != "" {
		parts = append([]string{first}, parts...)
	}
	return "{" + ws(r) + strings.Join(parts, ws(r)+","+ws(r)) + ws(r) + "}"
}

func one(r *rand.Rand, f *Field, v interface{}) string {
	if x, ok := v.(*M); ok {
		return x.JSON(r)
	}
	return scalarJSON(r, f, v)
}

func list(r *rand.Rand, f *Field, l []interface{}) string {
	var t []string
	for _, v := range l {
		t = append(t, one(r, f, v))
	}
	return "[" + ws(r) + strings.Join(t, ws(r)+","+ws(r)) + ws(r) + "]"
}

func (m *M) mapJSON(r *rand.Rand, f *Field) string {
	var t []string
	for _, v := range m.F[f.Num] {
		e := v.(*M)
		kf, vf := e.D.byNum(1), e.D.byNum(2)
		k := scalarJSON(nil, kf, e.F[1][0])
		if k[0] != '"' {
			k = `"` + k + `"`
		}
		t = append(t, k+ws(r)+":"+ws(r)+one(r, vf, e.F[2][0]))
	}
	return "{" + ws(r) + strings.Join(t, ws(r)+","+ws(r)) + ws(r) + "}"
}

// FromJSON reads the JSON form of a message.
func (p *Pool) FromJSON(d *Msg, s string) (*M, error) {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	t, err := tree(dec)
	if err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return p.msg(d, t)
}

type kv struct {
	k string
	v interface{}
}

// tree reads a value, keeping the order and duplicates of keys ([]kv).
func tree(dec *json.Decoder) (interface{}, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		o := []kv{}
		seen := map[string]bool{}
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			if seen[k.(string)] {
				return nil, fmt.Errorf("key %q twice", k)
			}
			seen[k.(string)] = true
			v, err := tree(dec)
			if err != nil {
				return nil, err
			}
			o = append(o, kv{k.(string), v})
		}
		_, err = dec.Token()
		return o, err
	case json.Delim('['):
		l := []interface{}{}
		for dec.More() {
			v, err := tree(dec)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err = dec.Token()
		return l, err
	}
	return t, nil
}

func (p *Pool) msg(d *Msg, t interface{}) (*M, error) {
	m := New(d)
	bad := func() (*M, error) { return nil, fmt.Errorf("%v is no %s", t, d.Full) }
	str := func() string { s, _ := t.(string); return s }
	switch d.Full {
	case ".google.protobuf.Timestamp":
		x, err := time.Parse(time.RFC3339Nano, str())
		if err != nil {
			return nil, err
		}
		m.F[1], m.F[2] = []interface{}{x.Unix()}, []interface{}{int64(x.Nanosecond())}
		return m.norm(), nil
	case ".google.protobuf.Duration":
		s := str()
		if !strings.HasSuffix(s, "s") {
			return bad()
		}
		s = s[:len(s)-1]
		sign := int64(1)
		if strings.HasPrefix(s, "-") {
			sign, s = -1, s[1:]
		}
		var n int64
		if i := strings.Index(s, "."); i >= 0 {
			fr := s[i+1:]
			if len(fr) == 0 || len(fr) > 9 {
				return bad()
			}
			n, _ = strconv.ParseInt(fr+strings.Repeat("0", 9-len(fr)), 10, 64)
			s = s[:i]
		}
		x, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil, err
		}
		m.F[1], m.F[2] = []interface{}{sign * x}, []interface{}{sign * n}
		return m.norm(), nil
	case ".google.protobuf.Struct":
		err := p.intoMap(m, d.byNum(1), t)
		return m, err
	case ".google.protobuf.ListValue":
		err := p.intoList(m, d.byNum(1), t)
		return m, err
	case ".google.protobuf.Value":
		switch x := t.(type) {
		case nil:
			m.F[1] = []interface{}{int64(0)}
		case json.Number:
			f, err := x.Float64()
			m.F[2] = []interface{}{f}
			return m, err
		case string:
			m.F[3] = []interface{}{x}
		case bool:
			m.F[4] = []interface{}{x}
		case []kv:
			s, err := p.msg(d.byNum(5).Msg, t)
			m.F[5] = []interface{}{s}
			return m, err
		case []interface{}:
			s, err := p.msg(d.byNum(6).Msg, t)
			m.F[6] = []interface{}{s}
			return m, err
		}
		return m, nil
	case ".google.protobuf.Any":
		o, ok := t.([]kv)
		if !ok {
			return bad()
		}
		if len(o) == 0 {
			return m, nil
		}
		var rest []kv
		for _, e := range o {
			if e.k == "@type" {
				m.F[1] = []interface{}{e.v}
			} else {
				rest = append(rest, e)
			}
		}
		if len(m.F[1]) == 0 {
			return bad()
		}
		u, _ := m.F[1][0].(string)
		x := p.Msgs["."+u[strings.LastIndex(u, "/")+1:]]
		if x == nil {
			return bad()
		}
		var err error
		m.Any, err = p.msg(x, append([]kv{}, rest...))
		return m, err
	}
	if strings.HasPrefix(d.Full, ".google.protobuf.") && strings.HasSuffix(d.Full, "Value") {
		v, err := p.value(d.Fields[0], t)
		if err != nil {
			return nil, err
		}
		m.F[1] = []interface{}{v}
		return m.norm(), nil
	}
	o, ok := t.([]kv)
	if !ok {
		return bad()
	}
	for _, e := range o {
		var f *Field
		for _, x := range d.Fields {
			n := x.JSON
			if x.Kind == "group" {
				n = strings.ToLower(x.Msg.Full[strings.LastIndex(x.Msg.Full, ".")+1:])
			}
			if n == e.k || x.Kind == "group" && x.JSON == e.k {
				f = x
			}
		}
		if f == nil {
			return nil, fmt.Errorf("%s has no field of JSON name %q", d.Full, e.k)
		}
		if f.Oneof >= 0 && m.has(d, f.Oneof) {
			return nil, fmt.Errorf("two fields of one oneof")
		}
		var err error
		switch {
		case f.Msg != nil && f.Msg.Entry:
			err = p.intoMap(m, f, e.v)
		case f.Rep:
			err = p.intoList(m, f, e.v)
		default:
			var v interface{}
			v, err = p.value(f, e.v)
			m.F[f.Num] = []interface{}{v}
		}
		if err != nil {
			return nil, err
		}
	}
	return m.norm(), nil
}

func (p *Pool) intoList(m *M, f *Field, t interface{}) error {
	l, ok := t.([]interface{})
	if !ok {
		return fmt.Errorf("%v is no list", t)
	}
	for _, x := range l {
		v, err := p.value(f, x)
		if err != nil {
			return err
		}
		m.F[f.Num] = append(m.F[f.Num], v)
	}
	return nil
}

func (p *Pool) intoMap(m *M, f *Field, t interface{}) error {
	o, ok := t.([]kv)
	if !ok {
		return fmt.Errorf("%v is no map", t)
	}
	for _, e := range o {
		x := New(f.Msg)
		kf := f.Msg.byNum(1)
		var kt interface{} = e.k
		if kf.Kind == "bool" {
			kt = e.k == "true"
			if e.k != "true" && e.k != "false" {
				return fmt.Errorf("%q is no bool", e.k)
			}
		}
		k, err := p.value(kf, kt)
		if err != nil {
			return err
		}
		v, err := p.value(f.Msg.byNum(2), e.v)
		if err != nil {
			return err
		}
		x.F[1], x.F[2] = []interface{}{k}, []interface{}{v}
		m.F[f.Num] = append(m.F[f.Num], x)
	}
	return nil
}

func (p *Pool) value(f *Field, t interface{}) (interface{}, error) {
	bad := fmt.Errorf("%v is no %s (field %s)", t, f.Kind, f.Name)
	s, isS := t.(string)
	n, isN := t.(json.Number)
	if isN {
		s = string(n)
	}
	switch f.Kind {
	case "message", "group":
		return p.msg(f.Msg, t)
	case "string":
		if !isS {
			return nil, bad
		}
		return s, nil
	case "bytes":
		if !isS {
			return nil, bad
		}
		b, err := base64.StdEncoding.DecodeString(s)
		return b, err
	case "bool":
		b, ok := t.(bool)
		if !ok {
			return nil, bad
		}
		return b, nil
	case "enum":
		if isN {
			x, err := strconv.ParseInt(s, 10, 32)
			return x, err
		}
		for i, k := range f.Enum.Names {
			if isS && k == s {
				return int64(f.Enum.Nums[i]), nil
			}
		}
		return nil, bad
	case "float", "double":
		if isS {
			switch s {
			case "NaN":
				return math.NaN(), nil
			case "Infinity":
				return math.Inf(1), nil
			case "-Infinity":
				return math.Inf(-1), nil
			}
		}
		if !isN {
			return nil, bad
		}
		if f.Kind == "float" {
			x, err := strconv.ParseFloat(s, 32)
			return x, err
		}
		x, err := strconv.ParseFloat(s, 64)
		return x, err
	}
	if !isN && !isS {
		return nil, bad
	}
	bits := 32
	if strings.HasSuffix(f.Kind, "64") {
		bits = 64
	}
	if f.Kind[0] == 'u' || f.Kind[0] == 'f' {
		x, err := strconv.ParseUint(s, 10, bits)
		return x, err
	}
	x, err := strconv.ParseInt(s, 10, bits)
	return x, err
}

// Equal tells whether both mean the same.
func Equal(a, b *M) bool { return bytes.Equal([]byte(a.Canon()), []byte(b.Canon())) }

// HasAny tells whether there is a google.protobuf.Any in the message.
func (m *M) HasAny() bool {
	if m.D.Full == ".google.protobuf.Any" {
		return true
	}
	for _, l := range m.F {
		for _, v := range l {
			if x, ok := v.(*M); ok && x.HasAny() {
				return true
			}
		}
	}
	return false
}
