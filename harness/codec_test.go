package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"testing/iotest"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/djherbis/buffer"
	"github.com/google/uuid"
)

func init() { kinds["codec"] = runCodec }

type codecMut struct {
	B, N []int
	P    int
	R    string
}
type codecItem struct {
	T string
	V json.RawMessage
	E []int
	M []codecMut
	// nesting
	Deep int
	Edge string
	R    string
}

func toBytes(q []int) []byte {
	b := make([]byte, len(q))
	for i, x := range q {
		b[i] = byte(x)
	}
	return b
}

func num(words []int) uint64 {
	var x uint64
	for i, w := range words {
		x |= uint64(w) << (16 * i)
	}
	return x
}

var codecGo = map[string]reflect.Type{
	"Boolean": reflect.TypeOf(false), "SByte": reflect.TypeOf(int8(0)), "Byte": reflect.TypeOf(uint8(0)), "Int16": reflect.TypeOf(int16(0)), "UInt16": reflect.TypeOf(uint16(0)),
	"Int32": reflect.TypeOf(int32(0)), "UInt32": reflect.TypeOf(uint32(0)), "Int64": reflect.TypeOf(int64(0)), "UInt64": reflect.TypeOf(uint64(0)), "Float": reflect.TypeOf(float32(0)), "Double": reflect.TypeOf(float64(0)),
	"String": reflect.TypeOf(""), "DateTime": reflect.TypeOf(time.Time{}), "Guid": reflect.TypeOf(uuid.UUID{}), "ByteString": reflect.TypeOf(ua.ByteString("")), "XmlElement": reflect.TypeOf(ua.XMLElement("")),
	"NodeId": reflect.TypeOf((*ua.NodeID)(nil)).Elem(), "ExpandedNodeId": reflect.TypeOf(ua.ExpandedNodeID{}), "StatusCode": reflect.TypeOf(ua.StatusCode(0)), "QualifiedName": reflect.TypeOf(ua.QualifiedName{}),
	"LocalizedText": reflect.TypeOf(ua.LocalizedText{}), "ExtensionObject": reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem(), "DataValue": reflect.TypeOf(ua.DataValue{}), "Variant": reflect.TypeOf((*ua.Variant)(nil)).Elem(),
	"DiagnosticInfo": reflect.TypeOf(ua.DiagnosticInfo{}),
}

type codec struct {
	ids   map[string]uint32
	notes []string
}

func (c *codec) note(f string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

func (c *codec) goType(t string) reflect.Type {
	if g, ok := codecGo[t]; ok {
		return g
	}
	if id, ok := c.ids[t]; ok {
		if g, ok := ua.FindTypeForBinaryEncodingID(ua.NewExpandedNodeID(ua.NewNodeIDNumeric(0, id))); ok {
			return g
		}
		c.note("no type for the encoding %d of %s", id, t)
	}
	return nil
}

func from[T any](raw json.RawMessage) T {
	var x T
	if err := json.Unmarshal(raw, &x); err != nil {
		panic(fmt.Sprintf("%v: %s", err, raw))
	}
	return x
}

func codecTime(words []int) time.Time {
	// 100 ns ticks since 1601
	t := new(big.Int).SetUint64(num(words))
	sec, rest := new(big.Int).DivMod(t, big.NewInt(10000000), new(big.Int))
	return time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, int(sec.Int64()/86400)).Add(time.Duration(sec.Int64()%86400)*time.Second + time.Duration(rest.Int64()*100))
}

func codecGuid(raw json.RawMessage) uuid.UUID {
	g := from[struct {
		D1, D4 []int
		D2, D3 int
	}](raw)
	return uuid.MustParse(fmt.Sprintf("%08x-%04x-%04x-%x-%x", num(g.D1), g.D2, g.D3, toBytes(g.D4[:2]), toBytes(g.D4[2:])))
}

func codecNode(raw json.RawMessage) ua.NodeID {
	n := from[struct {
		K  string
		Ns uint16
		ID json.RawMessage
	}](raw)
	switch n.K {
	case "num":
		return ua.NewNodeIDNumeric(n.Ns, uint32(num(from[[]int](n.ID))))
	case "str":
		return ua.NewNodeIDString(n.Ns, string(toBytes(from[[]int](n.ID))))
	case "guid":
		return ua.NewNodeIDGUID(n.Ns, codecGuid(n.ID))
	case "opaque":
		return ua.NewNodeIDOpaque(n.Ns, ua.ByteString(toBytes(from[[]int](n.ID))))
	}
	return nil
}

func opt32(q [][]int) *int32 {
	if len(q) == 0 {
		return nil
	}
	x := int32(num(q[0]))
	return &x
}

func (c *codec) diag(raw json.RawMessage) ua.DiagnosticInfo {
	d := from[struct {
		Sym, Nsu, Loc, Txt, Info, St [][]int
		Inner                        []json.RawMessage
	}](raw)
	r := ua.DiagnosticInfo{SymbolicID: opt32(d.Sym), NamespaceURI: opt32(d.Nsu), Locale: opt32(d.Loc), LocalizedText: opt32(d.Txt)}
	if len(d.Info) > 0 {
		s := string(toBytes(d.Info[0]))
		r.AdditionalInfo = &s
	}
	if len(d.St) > 0 {
		s := ua.StatusCode(num(d.St[0]))
		r.InnerStatusCode = &s
	}
	if len(d.Inner) > 0 {
		x := c.diag(d.Inner[0])
		r.InnerDiagnosticInfo = &x
	}
	return r
}

func (c *codec) dataValue(raw json.RawMessage) ua.DataValue {
	d := from[struct {
		V          []json.RawMessage
		St         []int
		Src, Srv   [][]int
		Srcp, Srvp uint16
	}](raw)
	r := ua.DataValue{StatusCode: ua.StatusCode(num(d.St)), SourcePicoseconds: d.Srcp, ServerPicoseconds: d.Srvp}
	if len(d.V) > 0 {
		r.Value = c.variant(d.V[0])
	}
	if len(d.Src) > 0 {
		r.SourceTimestamp = codecTime(d.Src[0])
	}
	if len(d.Srv) > 0 {
		r.ServerTimestamp = codecTime(d.Srv[0])
	}
	return r
}

func (c *codec) variant(raw json.RawMessage) ua.Variant {
	v := from[struct {
		K, T string
		V    json.RawMessage
		Dims []int
	}](raw)
	elem := codecGo[v.T]
	switch v.K {
	case "null":
		return nil
	case "scalar":
		x := reflect.New(elem).Elem()
		c.build(v.T, v.V, x)
		return x.Interface()
	case "nil":
		return reflect.Zero(reflect.SliceOf(elem)).Interface()
	}
	vals := from[[]json.RawMessage](v.V)
	flat := reflect.MakeSlice(reflect.SliceOf(elem), len(vals), len(vals))
	for i := range vals {
		c.build(v.T, vals[i], flat.Index(i))
	}
	return codecShape(flat, v.Dims).Interface()
}

func codecShape(flat reflect.Value, dims []int) reflect.Value {
	if len(dims) <= 1 {
		return flat
	}
	row := flat.Len() / dims[0]
	var res reflect.Value
	for i := 0; i < dims[0]; i++ {
		x := codecShape(flat.Slice(i*row, (i+1)*row), dims[1:])
		if i == 0 {
			res = reflect.MakeSlice(reflect.SliceOf(x.Type()), 0, dims[0])
		}
		res = reflect.Append(res, x)
	}
	return res
}

// build sets x to the value of the specification.
func (c *codec) build(t string, raw json.RawMessage, x reflect.Value) {
	switch t {
	case "Boolean":
		x.SetBool(from[[]int](raw)[0] != 0)
	case "SByte":
		x.SetInt(int64(int8(from[[]int](raw)[0])))
	case "Byte", "UInt16", "UInt32", "UInt64", "StatusCode", "Int16", "Int32", "Int64":
		u := num(from[[]int](raw))
		switch x.Kind() {
		case reflect.Int16:
			x.SetInt(int64(int16(u)))
		case reflect.Int32:
			x.SetInt(int64(int32(u)))
		case reflect.Int64:
			x.SetInt(int64(u))
		default:
			x.SetUint(u)
		}
	case "Float":
		x.Set(reflect.ValueOf(math.Float32frombits(uint32(num(from[[]int](raw))))))
	case "Double":
		x.SetFloat(math.Float64frombits(num(from[[]int](raw))))
	case "String", "XmlElement", "ByteString":
		x.SetString(string(toBytes(from[[]int](raw))))
	case "DateTime":
		x.Set(reflect.ValueOf(codecTime(from[[]int](raw))))
	case "Guid":
		x.Set(reflect.ValueOf(codecGuid(raw)))
	case "NodeId":
		if n := codecNode(raw); n != nil {
			x.Set(reflect.ValueOf(n))
		}
	case "ExpandedNodeId":
		e := from[struct {
			ID       json.RawMessage
			Nsu, Svr []int
		}](raw)
		x.Set(reflect.ValueOf(ua.ExpandedNodeID{ServerIndex: uint32(num(e.Svr)), NamespaceURI: string(toBytes(e.Nsu)), NodeID: codecNode(e.ID)}))
	case "QualifiedName":
		q := from[struct {
			Ns   uint16
			Name []int
		}](raw)
		x.Set(reflect.ValueOf(ua.QualifiedName{NamespaceIndex: q.Ns, Name: string(toBytes(q.Name))}))
	case "LocalizedText":
		q := from[struct{ Loc, Txt []int }](raw)
		x.Set(reflect.ValueOf(ua.LocalizedText{Text: string(toBytes(q.Txt)), Locale: string(toBytes(q.Loc))}))
	case "DiagnosticInfo":
		x.Set(reflect.ValueOf(c.diag(raw)))
	case "DataValue":
		x.Set(reflect.ValueOf(c.dataValue(raw)))
	case "Variant":
		if v := c.variant(raw); v != nil {
			x.Set(reflect.ValueOf(v))
		}
	case "ExtensionObject":
		e := from[struct {
			T string
			V []json.RawMessage
		}](raw)
		if e.T == "" {
			return
		}
		g := c.goType(e.T)
		if g == nil {
			return
		}
		s := reflect.New(g).Elem()
		c.fields(e.T, e.V, s)
		x.Set(s)
	default:
		c.fields(t, from[[]json.RawMessage](raw), x)
	}
}

func (c *codec) fields(t string, vals []json.RawMessage, x reflect.Value) {
	if x.Kind() == reflect.Ptr {
		x.Set(reflect.New(x.Type().Elem()))
		x = x.Elem()
	}
	fs := codecSchema[t]
	if x.Kind() != reflect.Struct || x.NumField() != len(fs) {
		c.note("%s is represented by %s with %d fields, want %d", t, x.Type(), x.NumField(), len(fs))
		return
	}
	for i, f := range fs {
		if n := x.Type().Field(i).Name; !strings.EqualFold(n, f.name) {
			c.note("field %d of %s is %s, want %s", i, t, n, f.name)
			return
		}
		if !f.arr {
			c.build(f.typ, vals[i], x.Field(i))
			continue
		}
		q := from[[]json.RawMessage](vals[i])
		s := reflect.MakeSlice(x.Field(i).Type(), len(q), len(q))
		for j := range q {
			c.build(f.typ, q[j], s.Index(j))
		}
		x.Field(i).Set(s)
	}
}

// encodeBoth encodes with both kinds of writers that the library distinguishes.
func encodeBoth(x any) ([]byte, []byte, error) {
	ec := ua.NewEncodingContext()
	var w1 bytes.Buffer
	err1 := ua.NewBinaryEncoder(&w1, ec).Encode(x)
	w2 := buffer.NewPartitionAt(buffer.NewMemPoolAt(64))
	err2 := ua.NewBinaryEncoder(w2, ec).Encode(x)
	if (err1 == nil) != (err2 == nil) {
		return nil, nil, fmt.Errorf("one writer: %v, the other: %v", err1, err2)
	}
	if err1 != nil {
		return nil, nil, err1
	}
	b2 := make([]byte, w2.Len())
	w2.Read(b2)
	return w1.Bytes(), b2, nil
}

// holder makes a struct type with one field, so that any type can be encoded on its own.
func holder(g reflect.Type) reflect.Value {
	return reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: g}}))
}

func diffAt(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	w := func(x []byte) []byte { return x[max(0, min(len(x), i-4)):min(len(x), i+12)] }
	return fmt.Sprintf("lengths %d, %d; at %d: %x, %x", len(a), len(b), i, w(a), w(b))
}

type codecRes struct {
	val   reflect.Value
	err   error
	rest  int
	alloc uint64
	panic any
}

func decodeOne(g reflect.Type, b []byte, slow bool) (res codecRes) {
	defer func() { res.panic = recover() }()
	res.val = holder(g)
	r := bytes.NewReader(b)
	dec := ua.NewBinaryDecoder(r, ua.NewEncodingContext())
	if slow {
		dec = ua.NewBinaryDecoder(iotest.OneByteReader(r), ua.NewEncodingContext())
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	res.err = dec.Decode(res.val.Interface())
	runtime.ReadMemStats(&m1)
	res.alloc = m1.TotalAlloc - m0.TotalAlloc
	res.rest = r.Len()
	return
}

func (c *codec) enc(it codecItem) {
	g := c.goType(it.T)
	if g == nil {
		return
	}
	want := toBytes(it.E)
	h := holder(g)
	c.build(it.T, it.V, h.Elem().Field(0))
	if len(c.notes) > 0 {
		return
	}
	b1, b2, err := encodeBoth(h.Interface())
	if err != nil {
		c.note("encoding %s: %v", it.T, err)
		return
	}
	if !bytes.Equal(b1, want) {
		c.note("encoding %s: got, want: %s", it.T, diffAt(b1, want))
	}
	if !bytes.Equal(b2, want) {
		c.note("encoding %s into a partitioned buffer: got, want: %s", it.T, diffAt(b2, want))
	}
	for _, slow := range []bool{false, true} {
		for _, tail := range [][]byte{nil, {0xff, 1, 2, 3, 4, 5, 6, 7}} {
			r := decodeOne(g, append(append([]byte{}, want...), tail...), slow)
			switch {
			case r.panic != nil:
				c.note("decoding %s: panic: %v", it.T, r.panic)
			case r.err != nil:
				c.note("decoding %s: %v", it.T, r.err)
			case r.rest != len(tail):
				c.note("decoding %s: %d bytes left, want %d", it.T, r.rest, len(tail))
			case !sameValue(r.val.Elem(), h.Elem()):
				c.note("decoding %s: %+v, want %+v", it.T, short(r.val.Elem()), short(h.Elem()))
			}
		}
	}
	// no proper prefix is a value
	for i := 0; i < len(want); i += 1 + len(want)/40 {
		if r := decodeOne(g, want[:i], false); r.panic != nil {
			c.note("decoding %d of %d bytes of %s: panic: %v", i, len(want), it.T, r.panic)
		} else if r.err == nil {
			c.note("decoding %d of %d bytes of %s: accepted", i, len(want), it.T)
		}
	}
}

func short(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// sameValue is DeepEqual with not-a-number equal to itself.
func sameValue(a, b reflect.Value) bool {
	if reflect.DeepEqual(a.Interface(), b.Interface()) {
		return true
	}
	return deepSame(a, b)
}

func deepSame(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float())) || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepSame(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepSame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if a.Type() == codecGo["DateTime"] {
			return reflect.DeepEqual(a.Interface(), b.Interface())
		}
		for i := 0; i < a.NumField(); i++ {
			if !deepSame(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func (c *codec) mut(it codecItem) {
	g := c.goType(it.T)
	if g == nil {
		return
	}
	for _, m := range it.M {
		b := toBytes(m.B)
		r := decodeOne(g, b, false)
		at := fmt.Sprintf("decoding %s from %x", it.T, b[:min(len(b), 400)])
		if r.panic != nil {
			c.note("%s: panic: %v", at, r.panic)
			continue
		}
		if r.alloc > uint64(2<<20+2000*len(b)) {
			c.note("%s: allocates %d bytes", at, r.alloc)
		}
		if m.R == "refuse" && r.err == nil {
			c.note("%s: accepted as %s", at, short(r.val.Elem()))
		}
		if m.R == "ok" && r.err != nil {
			c.note("%s: %v, want accepted", at, r.err)
		}
		if r.err != nil {
			continue
		}
		b1, b2, err := encodeBoth(r.val.Interface())
		if m.R == "ok" {
			want := toBytes(m.N)
			if len(b)-r.rest != m.P {
				c.note("%s: %d bytes read, want %d", at, len(b)-r.rest, m.P)
			}
			if err != nil {
				c.note("%s: cannot be encoded: %v", at, err)
			} else if !bytes.Equal(b1, want) || !bytes.Equal(b2, want) {
				c.note("%s: encoded again: got, want: %s", at, diffAt(b1, want))
			}
		}
	}
}

// deep decodes values nested in each other.
func (c *codec) deep(it codecItem) {
	var b []byte
	g := c.goType(it.T)
	switch it.T {
	case "Variant": // arrays of one variant
		for i := 1; i < it.Deep; i++ {
			b = append(b, 0x80|24, 1, 0, 0, 0)
		}
		b = append(b, 1, 1)
	case "DiagnosticInfo":
		for i := 1; i < it.Deep; i++ {
			b = append(b, 64)
		}
		b = append(b, 0)
	case "DataValue": // with arrays of one data value
		for i := 1; i < it.Deep; i++ {
			b = append(b, 1, 0x80|23, 1, 0, 0, 0)
		}
		b = append(b, 0)
	case "ExtensionObject": // literal operands (597) that hold each other
		for i := 1; i < it.Deep; i++ {
			n := (it.Deep-1-i)*10 + 4
			b = append(b, 1, 0, 0x55, 0x02, 1, byte(n), byte(n>>8), byte(n>>16), byte(n>>24), 22)
		}
		b = append(b, 0, 0, 0)
	}
	r := decodeOne(g, b, false)
	switch {
	case r.panic != nil:
		c.note("%d nested %s: panic: %v", it.Deep, it.T, r.panic)
	case it.R == "ok" && r.err != nil:
		c.note("%d nested %s: %v", it.Deep, it.T, r.err)
	case it.R == "refuse" && r.err == nil:
		c.note("%d nested %s: accepted", it.Deep, it.T)
	}
	if r.err == nil && r.panic == nil {
		if b1, b2, err := encodeBoth(r.val.Interface()); err != nil || !bytes.Equal(b1, b2) {
			c.note("%d nested %s: cannot be encoded: %v", it.Deep, it.T, err)
		}
	}
}

// edge encodes values at and beyond the limits of what can be encoded.
func (c *codec) edge(it codecItem) {
	var v any
	year := 0
	switch it.Edge {
	case "zero":
		v = &struct{ V time.Time }{}
	case "y9999end":
		v = &struct{ V time.Time }{time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)}
	case "jagged2":
		v = &struct{ V ua.Variant }{[][]int32{{1, 2}, {3}}}
	case "jagged2nil":
		v = &struct{ V ua.Variant }{[][]string{{"a"}, nil}}
	case "jagged3":
		v = &struct{ V ua.Variant }{[][][]bool{{{true}}, {{true}, {false}}}}
	case "jagged3inner":
		v = &struct{ V ua.Variant }{[][][]bool{{{true, true}, {false}}}}
	default:
		fmt.Sscanf(it.Edge, "y%d", &year)
		v = &struct{ V time.Time }{time.Date(year, 6, 7, 8, 9, 10, 0, time.UTC)}
	}
	b1, b2, err := encodeBoth(v)
	if len(it.E) == 0 {
		if err == nil {
			c.note("encoding %s: %x, want an error", it.Edge, b1)
		}
	} else if want := toBytes(it.E); err != nil || !bytes.Equal(b1, want) || !bytes.Equal(b2, want) {
		c.note("encoding %s: %x (%v), want %x", it.Edge, b1, err, want)
	}
}

type codecField struct {
	name, typ string
	arr       bool
}

var codecSchema = map[string][]codecField{}

func runCodec(rec *recorder, raw json.RawMessage) {
	var cs struct {
		Items  []codecItem
		Ids    map[string]uint32
		Schema map[string][][3]any
	}
	if err := json.Unmarshal(raw, &cs); err != nil {
		panic(err)
	}
	for n, fs := range cs.Schema {
		q := []codecField{}
		for _, f := range fs {
			q = append(q, codecField{f[0].(string), f[1].(string), f[2].(bool)})
		}
		codecSchema[n] = q
	}
	for i, it := range cs.Items {
		c := &codec{ids: cs.Ids}
		switch {
		case it.Edge != "":
			c.edge(it)
		case it.Deep > 0:
			c.deep(it)
		case it.M != nil:
			c.mut(it)
		case it.V != nil:
			c.enc(it)
		}
		rec.emit(obj{"i": i, "t": it.T, "notes": c.notes})
	}
}
