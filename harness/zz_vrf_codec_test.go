package kafkamock

// Puts typed values through the encoder and the decoder. A case states a type and a value the way spec/Wire.tla does;
// the Go types that stand for it are chosen at random among all that encode it.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"sync"
	"testing"

	"github.com/google/uuid"
)

type vrfTy struct {
	K  string  `json:"k"`
	N  int     `json:"n"`
	Of *vrfTy  `json:"of"`
	F  []vrfTy `json:"f"`
	Id int     `json:"id"` // of a tagged field
}

type vrfCase struct {
	Ty   json.RawMessage `json:"ty"`
	V    any             `json:"v"`
	Seed int64           `json:"seed"`
	Pre  []int           `json:"pre"`
	Suf  []int           `json:"suf"`
	Cuts int             `json:"cuts"` // prefixes to try, 0: all, -1: none
}

type vrfDec struct {
	Next int `json:"next"` // relative to the start of the value
	V    any `json:"v"`
}

type vrfCodecOut struct {
	Enc   []int    `json:"enc"`
	Decs  []vrfDec `json:"decs"`
	Early []int    `json:"early"` // prefixes that were not found too short
	Cuts  int      `json:"ncuts"`
	Fault string   `json:"fault"`
	Go    string   `json:"go"`
}

func vrfInts(b []byte) []int {
	o := make([]int, len(b))
	for i, x := range b {
		o[i] = int(x)
	}
	return o
}

func vrfByteSlice(v any) []byte {
	l := v.([]any)
	o := make([]byte, len(l))
	for i, x := range l {
		o[i] = byte(x.(float64))
	}
	return o
}

func vrfUnints(l []int) []byte {
	o := make([]byte, len(l))
	for i, x := range l {
		o[i] = byte(x)
	}
	return o
}

// A Go type standing for a type.
type vrfNode struct {
	ty      *vrfTy
	gt      reflect.Type
	tag     string
	wrap    bool // a structure of one field around it
	encOnly bool
	kids    []*vrfNode
}

var vrfGo = struct {
	vi, vu, vi64, vu64, cs, ns, cns, nb, cnb, cb, uid reflect.Type
}{
	reflect.TypeOf(VarInt(0)), reflect.TypeOf(VarUint(0)), reflect.TypeOf(VarInt64(0)), reflect.TypeOf(VarUint64(0)),
	reflect.TypeOf(CompactString("")), reflect.TypeOf(NullableString(nil)), reflect.TypeOf(CompactNullableString(nil)),
	reflect.TypeOf(NullableBytes(nil)), reflect.TypeOf(CompactNullableBytes(nil)), reflect.TypeOf(CompactBytes(nil)), reflect.TypeOf(uuid.UUID{}),
}

func vrfPick(r *rand.Rand, ts ...reflect.Type) reflect.Type { return ts[r.Intn(len(ts))] }

// vrfNodeOf chooses a Go type; field: it will be the field of a structure, so that it can be tagged
func vrfNodeOf(t *vrfTy, r *rand.Rand, field, encOnly bool) *vrfNode {
	n := &vrfNode{ty: t}
	ty := func(x any) reflect.Type { return reflect.TypeOf(x) }
	compact := func(named reflect.Type, plain ...reflect.Type) {
		if field && r.Intn(2) == 0 && len(plain) > 0 {
			n.gt = vrfPick(r, plain...)
			n.tag = `kafka:"compact"`
			return
		}
		n.gt = named
		if n.gt == nil {
			n.gt = plain[0]
			n.tag = `kafka:"compact"`
			n.wrap = !field
		}
	}
	str := ""
	switch t.K {
	case "bool":
		n.gt = ty(true)
	case "fix":
		switch t.N {
		case 1:
			n.gt = vrfPick(r, ty(int8(0)), ty(uint8(0)))
		case 2:
			n.gt = vrfPick(r, ty(int16(0)), ty(uint16(0)))
		case 4:
			n.gt = vrfPick(r, ty(int32(0)), ty(uint32(0)), ty(int(0)), ty(uint(0)))
		case 8:
			n.gt = vrfPick(r, ty(int64(0)), ty(uint64(0)), ty(float64(0)))
		case 16:
			n.gt = vrfGo.uid
		}
	case "vi":
		if t.N == 4 {
			compact(vrfGo.vi, ty(int32(0)), ty(int(0)))
		} else {
			compact(vrfGo.vi64, ty(int64(0)))
		}
	case "vu":
		if t.N == 4 {
			compact(vrfGo.vu, ty(uint32(0)), ty(uint(0)))
		} else {
			compact(vrfGo.vu64, ty(uint64(0)))
		}
	case "str":
		n.gt = ty("")
	case "nstr":
		n.gt = vrfGo.ns
		if encOnly {
			n.gt = vrfPick(r, vrfGo.ns, ty(&str))
			if field && r.Intn(2) == 0 {
				n.tag = `kafka:"nullable"`
			}
		}
	case "cstr":
		compact(vrfGo.cs, ty(""))
	case "cnstr":
		n.gt = vrfGo.cns
		if encOnly && field && r.Intn(2) == 0 {
			n.gt, n.tag = ty(&str), `kafka:"compact,nullable"`
		}
	case "bytes":
		n.gt = vrfPick(r, vrfGo.nb, ty([]byte(nil)))
		if field && n.gt != vrfGo.nb && r.Intn(2) == 0 {
			n.tag = `kafka:"nullable"`
		}
	case "cbytes":
		compact(vrfPick(r, vrfGo.cnb, vrfGo.cb), ty([]byte(nil)))
		if n.tag != "" && r.Intn(2) == 0 {
			n.tag = `kafka:"compact,nullable"`
		}
	case "arr", "carr":
		k := vrfNodeOf(t.Of, r, false, encOnly)
		n.kids = []*vrfNode{k}
		if t.K == "arr" {
			n.gt = reflect.SliceOf(k.outer())
		} else {
			compact(nil, reflect.SliceOf(k.outer()))
		}
	case "struct":
		fs := []reflect.StructField{}
		for i := range t.F {
			k := vrfNodeOf(&t.F[i], r, true, encOnly)
			n.kids = append(n.kids, k)
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: k.gt, Tag: reflect.StructTag(k.tag)})
		}
		n.gt = reflect.StructOf(fs)
		if r.Intn(4) == 0 {
			n.gt = reflect.PointerTo(n.gt)
		}
	default:
		panic("harness: type " + t.K)
	}
	return n
}

func (n *vrfNode) outer() reflect.Type {
	if !n.wrap {
		return n.gt
	}
	return reflect.StructOf([]reflect.StructField{{Name: "F0", Type: n.gt, Tag: reflect.StructTag(n.tag)}})
}

func (n *vrfNode) toOuter(v any) reflect.Value {
	x := n.to(v)
	if !n.wrap {
		return x
	}
	s := reflect.New(n.outer()).Elem()
	s.Field(0).Set(x)
	return s
}

func (n *vrfNode) fromOuter(x reflect.Value) any {
	if n.wrap {
		x = x.Field(0)
	}
	return n.from(x)
}

func vrfNum(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func vrfNumBytes(v uint64, n int) []int {
	b := binary.BigEndian.AppendUint64(nil, v)
	return vrfInts(b[8-n:])
}

// to makes the Go value
func (n *vrfNode) to(v any) reflect.Value {
	o := reflect.New(n.gt).Elem()
	opt := func() (any, bool) {
		l := v.([]any)
		if len(l) == 0 {
			return nil, false
		}
		return l[0], true
	}
	switch n.ty.K {
	case "bool":
		o.SetBool(vrfByteSlice(v)[0] != 0)
	case "fix", "vi", "vu":
		b := vrfByteSlice(v)
		u := vrfNum(b)
		switch n.gt.Kind() {
		case reflect.Float64:
			o.SetFloat(math.Float64frombits(u))
		case reflect.Array:
			reflect.Copy(o, reflect.ValueOf(b))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			sh := 64 - 8*len(b)
			o.SetInt(int64(u<<sh) >> sh)
		default:
			o.SetUint(u)
		}
	case "str", "cstr":
		o.SetString(string(vrfByteSlice(v)))
	case "nstr", "cnstr":
		if x, ok := opt(); ok {
			p := reflect.New(n.gt.Elem())
			p.Elem().SetString(string(vrfByteSlice(x)))
			o.Set(p.Convert(n.gt))
		}
	case "bytes", "cbytes":
		if x, ok := opt(); ok {
			o.SetBytes(vrfByteSlice(x))
		}
	case "arr", "carr":
		if x, ok := opt(); ok {
			l := x.([]any)
			o.Set(reflect.MakeSlice(n.gt, 0, len(l)))
			for _, e := range l {
				o.Set(reflect.Append(o, n.kids[0].toOuter(e)))
			}
		}
	case "struct":
		s := o
		if n.gt.Kind() == reflect.Pointer {
			o.Set(reflect.New(n.gt.Elem()))
			s = o.Elem()
		}
		for i, e := range v.([]any) {
			s.Field(i).Set(n.kids[i].to(e))
		}
	}
	return o
}

// from reads the Go value
func (n *vrfNode) from(x reflect.Value) any {
	switch n.ty.K {
	case "bool":
		if x.Bool() {
			return []int{1}
		}
		return []int{0}
	case "fix", "vi", "vu":
		switch x.Kind() {
		case reflect.Float64:
			return vrfNumBytes(math.Float64bits(x.Float()), 8)
		case reflect.Array:
			b := make([]byte, x.Len())
			reflect.Copy(reflect.ValueOf(b), x)
			return vrfInts(b)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			return vrfNumBytes(uint64(x.Int()), n.ty.N)
		default:
			return vrfNumBytes(x.Uint(), n.ty.N)
		}
	case "str", "cstr":
		return vrfInts([]byte(x.String()))
	case "nstr", "cnstr":
		if x.IsNil() {
			return []any{}
		}
		return []any{vrfInts([]byte(x.Elem().String()))}
	case "bytes", "cbytes":
		if x.IsNil() {
			return []any{}
		}
		return []any{vrfInts(x.Bytes())}
	case "arr", "carr":
		if x.IsNil() {
			return []any{}
		}
		l := []any{}
		for i := 0; i < x.Len(); i++ {
			l = append(l, n.kids[0].fromOuter(x.Index(i)))
		}
		return []any{l}
	case "struct":
		if x.Kind() == reflect.Pointer {
			x = x.Elem()
		}
		l := []any{}
		for i := range n.kids {
			l = append(l, n.kids[i].from(x.Field(i)))
		}
		return l
	}
	panic("harness: from " + n.ty.K)
}

type vrfCodec interface {
	encode(w *bufio.Writer, v any)
	decode(r *bufio.Reader, at int) (next int, v any)
}

// an object
type vrfObj struct {
	enc, dec *vrfNode
	fixed    bool // decode a compact array by way of a fixed array type
}

func (o *vrfObj) encode(w *bufio.Writer, v any) {
	encodeObject(w, o.enc.toOuter(v).Interface())
}

func (o *vrfObj) decode(r *bufio.Reader, at int) (int, any) {
	n := o.dec
	t := n.outer()
	if o.fixed {
		t = reflect.ArrayOf(1, n.kids[0].outer())
	}
	next, x := peekObject(r, at, t)
	if next < 0 {
		return -1, nil
	}
	if x == nil { // a null array
		return next, []any{}
	}
	xv := reflect.ValueOf(x)
	if o.fixed {
		return next, n.from(xv)
	}
	if n.wrap || xv.Type() != t && xv.Type().ConvertibleTo(t) {
		if xv.Type() != t {
			xv = xv.Convert(t)
		}
	}
	return next, n.fromOuter(xv)
}

// tagged fields
type vrfTagged struct {
	ty    *vrfTy
	nodes map[int]*vrfNode
}

func (o *vrfTagged) encode(w *bufio.Writer, v any) {
	m := map[int]any{}
	for _, e := range v.([]any) {
		id := int(vrfNum(vrfByteSlice(e.([]any)[0])))
		val := e.([]any)[1]
		if n := o.nodes[id]; n != nil {
			m[id] = n.toOuter(val).Interface()
		} else { // any object with these bytes
			b := vrfByteSlice(val)
			fs := []reflect.StructField{}
			for i := range b {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(uint8(0))})
			}
			s := reflect.New(reflect.StructOf(fs)).Elem()
			for i := range b {
				s.Field(i).SetUint(uint64(b[i]))
			}
			m[id] = s.Interface()
		}
	}
	encodeTags(w, m)
}

func (o *vrfTagged) decode(r *bufio.Reader, at int) (int, any) {
	fields := map[int]*kafkaField{}
	for id, n := range o.nodes {
		fields[id] = &kafkaField{valType: n.outer()}
	}
	next, m := peekTags(r, at, fields)
	if next < 0 {
		return -1, nil
	}
	ids := []int{}
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	l := []any{}
	for _, id := range ids {
		var v any
		if n := o.nodes[id]; n != nil {
			if m[id] == nil {
				v = []any{}
			} else {
				xv := reflect.ValueOf(m[id])
				if t := n.outer(); xv.Type() != t && xv.Type().ConvertibleTo(t) {
					xv = xv.Convert(t)
				}
				v = n.fromOuter(xv)
			}
		} else {
			v = vrfInts(m[id].([]byte))
		}
		l = append(l, []any{vrfNumBytes(uint64(id), 4), v})
	}
	return next, l
}

// a reader that has what it was fed and otherwise reports that nothing more is there
type vrfFeed struct {
	b   []byte
	err error
}

func (f *vrfFeed) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, f.err
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

func vrfReader(b []byte) *bufio.Reader { return bufio.NewReaderSize(bytes.NewReader(b), len(b)+64) }

func vrfCodecCase(c *vrfCase) (out *vrfCodecOut) {
	out = &vrfCodecOut{Early: []int{}, Decs: []vrfDec{}}
	doing := "building"
	defer func() {
		if x := recover(); x != nil {
			s := fmt.Sprint(x)
			if doing == "building" || len(s) > 8 && s[:8] == "harness:" {
				panic(x)
			}
			out.Fault = "panic while " + doing + ": " + s
		}
	}()
	r := rand.New(rand.NewSource(c.Seed))
	t := &vrfTy{}
	if err := json.Unmarshal(c.Ty, t); err != nil {
		panic("harness: " + err.Error())
	}
	var co vrfCodec
	if t.K == "tags" {
		x := &vrfTagged{ty: t, nodes: map[int]*vrfNode{}}
		var raw struct {
			F []struct {
				Id int   `json:"id"`
				Of vrfTy `json:"of"`
			} `json:"f"`
		}
		if err := json.Unmarshal(c.Ty, &raw); err != nil {
			panic("harness: " + err.Error())
		}
		for i := range raw.F {
			x.nodes[raw.F[i].Id] = vrfNodeOf(&raw.F[i].Of, r, false, false)
		}
		co = x
		out.Go = fmt.Sprint(x.nodes)
	} else {
		x := &vrfObj{enc: vrfNodeOf(t, r, false, r.Intn(2) == 0), dec: vrfNodeOf(t, r, false, false)}
		x.fixed = t.K == "carr" && r.Intn(2) == 0
		co = x
		out.Go = x.enc.outer().String() + " / " + x.dec.outer().String()
	}
	doing = "encoding"
	var buf bytes.Buffer
	w := bufio.NewWriterSize(&buf, []int{16, 64, 4096}[r.Intn(3)])
	co.encode(w, c.V)
	w.Flush()
	b := buf.Bytes()
	out.Enc = vrfInts(b)

	pre, suf := vrfUnints(c.Pre), vrfUnints(c.Suf)
	at := len(pre)
	head := append(append([]byte{}, pre...), b...)
	whole := append(append([]byte{}, head...), suf...)
	dec := func(rd *bufio.Reader) vrfDec {
		next, v := co.decode(rd, at)
		if next < 0 {
			return vrfDec{Next: -1, V: []any{}}
		}
		return vrfDec{Next: next - at, V: v}
	}
	doing = "decoding"
	out.Decs = append(out.Decs, dec(vrfReader(whole)), dec(vrfReader(head)))
	// the same bytes arriving in pieces while it asks; asking leaves them in place
	f := &vrfFeed{err: io.EOF}
	if r.Intn(2) == 0 {
		f.err = os.ErrDeadlineExceeded
	}
	rd := bufio.NewReaderSize(f, len(whole)+64)
	cut := func(k int) bool {
		if c.Cuts < 0 {
			return false
		}
		if c.Cuts == 0 || len(b) <= c.Cuts {
			return true
		}
		return k < 12 || k > len(b)-12 || k%(len(b)/c.Cuts+1) == 0
	}
	f.b = append(f.b, pre...)
	for k := 0; k < len(b); k++ {
		if cut(k) {
			doing = fmt.Sprintf("decoding the first %d of %d bytes", k, len(b))
			out.Cuts++
			if next, _ := co.decode(vrfReader(head[:at+k]), at); next >= 0 {
				out.Early = append(out.Early, k)
			}
			if next, _ := co.decode(rd, at); next >= 0 {
				out.Early = append(out.Early, k)
			}
		}
		f.b = append(f.b, b[k])
	}
	doing = "decoding"
	out.Decs = append(out.Decs, dec(rd))
	f.b = append(f.b, suf...)
	out.Decs = append(out.Decs, dec(rd))
	f.err = io.EOF
	rest, _ := io.ReadAll(rd)
	if !bytes.Equal(rest, whole) {
		out.Fault = "decoding changed the input"
	}
	return
}

func TestVrfCodec(t *testing.T) {
	in := os.Getenv("VRF_IN")
	if in == "" {
		t.Skip("not under the checks")
	}
	raw, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var cases []*vrfCase
	if err := json.Unmarshal(raw, &cases); err != nil {
		t.Fatal(err)
	}
	outs := make([]*vrfCodecOut, len(cases))
	var wg sync.WaitGroup
	workers := 8
	fmt.Sscan(os.Getenv("VRF_WORKERS"), &workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(cases); i += workers {
				outs[i] = vrfCodecCase(cases[i])
			}
		}(w)
	}
	wg.Wait()
	raw, _ = json.Marshal(outs)
	if err := os.WriteFile(os.Getenv("VRF_OUT"), raw, 0o644); err != nil {
		t.Fatal(err)
	}
	fmt.Println("VRF-DONE")
}
