package kafkamock

// Raw client side of the wire protocol, written independently of the code under test: builds request frames and
// parses response frames strictly (every byte must be accounted for).

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
)

type vrfW struct{ b []byte }

func (w *vrfW) i8(v int8)   { w.b = append(w.b, byte(v)) }
func (w *vrfW) i16(v int16) { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *vrfW) i32(v int32) { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *vrfW) i64(v int64) { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *vrfW) str(s string) {
	w.i16(int16(len(s)))
	w.b = append(w.b, s...)
}
func (w *vrfW) nstr(s *string) {
	if s == nil {
		w.i16(-1)
		return
	}
	w.str(*s)
}
func (w *vrfW) bytes(p []byte) {
	if p == nil {
		w.i32(-1)
		return
	}
	w.i32(int32(len(p)))
	w.b = append(w.b, p...)
}

type vrfR struct {
	b   []byte
	pos int
	bad string
}

func (r *vrfR) fail(f string, a ...any) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(f, a...)
	}
}
func (r *vrfR) take(n int) []byte {
	if r.bad != "" {
		return nil
	}
	if n < 0 || r.pos+n > len(r.b) {
		r.fail("response too short: %d bytes needed at %d of %d", n, r.pos, len(r.b))
		return nil
	}
	p := r.b[r.pos : r.pos+n]
	r.pos += n
	return p
}
func (r *vrfR) i8() int8 {
	if p := r.take(1); p != nil {
		return int8(p[0])
	}
	return 0
}
func (r *vrfR) i16() int16 {
	if p := r.take(2); p != nil {
		return int16(binary.BigEndian.Uint16(p))
	}
	return 0
}
func (r *vrfR) i32() int32 {
	if p := r.take(4); p != nil {
		return int32(binary.BigEndian.Uint32(p))
	}
	return 0
}
func (r *vrfR) i64() int64 {
	if p := r.take(8); p != nil {
		return int64(binary.BigEndian.Uint64(p))
	}
	return 0
}
func (r *vrfR) str() string {
	n := r.i16()
	if n < 0 {
		r.fail("null where a string is required at %d", r.pos)
		return ""
	}
	return string(r.take(int(n)))
}
func (r *vrfR) nstr() *string {
	n := r.i16()
	if n < 0 {
		if n != -1 {
			r.fail("string length %d", n)
		}
		return nil
	}
	s := string(r.take(int(n)))
	return &s
}
func (r *vrfR) nbytes() ([]byte, bool) {
	n := r.i32()
	if n < 0 {
		if n != -1 {
			r.fail("bytes length %d", n)
		}
		return nil, true
	}
	return r.take(int(n)), false
}

// array calls f for each element; a negative count is not allowed in a response
func (r *vrfR) array(f func()) {
	n := r.i32()
	if n < 0 {
		r.fail("array length %d", n)
	}
	for i := 0; i < int(n) && r.bad == ""; i++ {
		f()
	}
}

const (
	vrfFetch   = "fetch"
	vrfList    = "list"
	vrfMeta    = "meta"
	vrfCommit  = "commit"
	vrfOFetch  = "ofetch"
	vrfCoord   = "coord"
	vrfJoin    = "join"
	vrfBeat    = "beat"
	vrfLeave   = "leave"
	vrfSync    = "sync"
	vrfVersion = "apiv"
	vrfOther   = "other"
)

// A request as a scenario states it.
type vrfTgt struct {
	T   int    `json:"t"`            // topic (index into names)
	Q   int32  `json:"q"`            // partition
	Off int64  `json:"off"`          // fetch offset, commit offset
	Max int32  `json:"max"`          // fetch size limit
	Ts  int64  `json:"ts"`           // list offsets timestamp
	Md  string `json:"md,omitempty"` // commit metadata
}

type vrfReq struct {
	K     string     `json:"k"`
	Tg    [][]vrfTgt `json:"tg"`   // one list per topic entry of the request
	TN    []int      `json:"tn"`   // topic of each entry (needed for entries with no partitions)
	G     string     `json:"g"`    // group
	Wait  int32      `json:"wait"` // fetch max wait
	Null  bool       `json:"null"` // null topic array
	Key   int16      `json:"key"`  // other: api key
	Ver   int16      `json:"ver"`
	Body  []byte     `json:"body"` // other
	Proto int        `json:"proto"`
	Pad   int        `json:"pad"` // size of the opaque parts of the request
	Cid   *string    `json:"cid"` // client id
	Minb  int32      `json:"minb"`
}

func vrfFill(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed*0x9E3779B97F4A7C15 + 0x1234567
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

func vrfEncode(req *vrfReq, corr int32, names []string) []byte {
	w := &vrfW{b: []byte{0, 0, 0, 0}}
	hdr := func(key, ver int16) {
		w.i16(key)
		w.i16(ver)
		w.i32(corr)
		cid := "vrf"
		if req.Cid != nil {
			cid = *req.Cid
		}
		w.str(cid)
	}
	count := func() bool {
		if req.Null {
			w.i32(-1)
			return false
		}
		w.i32(int32(len(req.TN)))
		return true
	}
	member := string(make([]byte, min(req.Pad, 32767)))
	switch req.K {
	case vrfFetch:
		hdr(1, 2)
		w.i32(-1)
		w.i32(req.Wait)
		w.i32(req.Minb)
		if count() {
			for i, t := range req.TN {
				w.str(names[t])
				w.i32(int32(len(req.Tg[i])))
				for _, p := range req.Tg[i] {
					w.i32(p.Q)
					w.i64(p.Off)
					w.i32(p.Max)
				}
			}
		}
	case vrfList:
		hdr(2, 1)
		w.i32(-1)
		if count() {
			for i, t := range req.TN {
				w.str(names[t])
				w.i32(int32(len(req.Tg[i])))
				for _, p := range req.Tg[i] {
					w.i32(p.Q)
					w.i64(p.Ts)
				}
			}
		}
	case vrfMeta:
		hdr(3, 1)
		if count() {
			for _, t := range req.TN {
				w.str(names[t])
			}
		}
	case vrfCommit:
		hdr(8, 2)
		w.str(req.G)
		w.i32(-1)
		w.str(member)
		w.i64(-1)
		if count() {
			for i, t := range req.TN {
				w.str(names[t])
				w.i32(int32(len(req.Tg[i])))
				for _, p := range req.Tg[i] {
					w.i32(p.Q)
					w.i64(p.Off)
					if p.Md == "" {
						w.nstr(nil)
					} else {
						w.str(p.Md)
					}
				}
			}
		}
	case vrfOFetch:
		hdr(9, 1)
		w.str(req.G)
		if count() {
			for i, t := range req.TN {
				w.str(names[t])
				w.i32(int32(len(req.Tg[i])))
				for _, p := range req.Tg[i] {
					w.i32(p.Q)
				}
			}
		}
	case vrfCoord:
		hdr(10, 0)
		w.str(req.G)
	case vrfJoin:
		hdr(11, 1)
		w.str(req.G)
		w.i32(30000)
		w.i32(30000)
		w.str(member)
		w.str("consumer")
		w.i32(int32(req.Proto))
		for i := 0; i < req.Proto; i++ {
			w.str([]string{"range", "roundrobin", "sticky"}[i%3])
			w.bytes(vrfFill(req.Pad, uint64(i)))
		}
	case vrfBeat:
		hdr(12, 0)
		w.str(req.G)
		w.i32(7)
		w.str(member)
	case vrfLeave:
		hdr(13, 0)
		w.str(req.G)
		w.str(member)
	case vrfSync:
		hdr(14, 0)
		w.str(req.G)
		w.i32(3)
		w.str(member)
		if req.Null {
			w.i32(-1)
		} else {
			w.i32(0)
		}
	case vrfVersion:
		hdr(18, 0)
	case vrfOther:
		hdr(req.Key, req.Ver)
		w.b = append(w.b, req.Body...)
	default:
		panic("harness: unknown request " + req.K)
	}
	binary.BigEndian.PutUint32(w.b, uint32(len(w.b)-4))
	return w.b
}

type vrfRec struct {
	Off int64  `json:"off"`
	Id  string `json:"id"`
	Ts  int64  `json:"ts"`
}

type vrfPart struct {
	T    string   `json:"t"`
	Q    int32    `json:"q"`
	Err  int16    `json:"err"`
	Hw   int64    `json:"hw"`
	Off  int64    `json:"off"`
	Ts   int64    `json:"ts"`
	Recs []vrfRec `json:"recs"`
	Ld   int32    `json:"ld"`
	Len  int      `json:"len"` // record area length
}

type vrfEntry struct {
	T     string    `json:"t"`
	Err   int16     `json:"err"`
	Int   bool      `json:"int"`
	Parts []vrfPart `json:"parts"`
}

type vrfBroker struct {
	Id   int32  `json:"id"`
	Host string `json:"host"`
	Port int32  `json:"port"`
}

type vrfApi struct {
	Key int16 `json:"key"`
	Min int16 `json:"min"`
	Max int16 `json:"max"`
}

type vrfResp struct {
	K       string      `json:"k"`
	Why     string      `json:"why,omitempty"`
	Err     int16       `json:"err"`
	En      []vrfEntry  `json:"en"`
	Brokers []vrfBroker `json:"brokers,omitempty"`
	Apis    []vrfApi    `json:"apis,omitempty"`
	Leader  string      `json:"leader,omitempty"`
	Member  string      `json:"member,omitempty"`
	Proto   string      `json:"proto,omitempty"`
	Ver     int16       `json:"ver"`
	Raw     string      `json:"raw,omitempty"`
	Wire    string      `json:"wire"`
}

// vrfParse parses the body of a response (after the correlation id).
func vrfParse(kind string, body []byte, topicId func(string) string, recId func(key, val []byte) string) *vrfResp {
	r := &vrfR{b: body}
	out := &vrfResp{K: kind, En: []vrfEntry{}}
	switch kind {
	case vrfFetch:
		r.i32()
		r.array(func() {
			e := vrfEntry{T: topicId(r.str()), Parts: []vrfPart{}}
			r.array(func() {
				p := vrfPart{T: e.T, Recs: []vrfRec{}}
				p.Q = r.i32()
				p.Err = r.i16()
				p.Hw = r.i64()
				n := r.i32()
				if n < 0 {
					r.fail("record area length %d", n)
				}
				p.Len = int(n)
				area := r.take(int(n))
				if r.bad == "" {
					m := &vrfR{b: area}
					for m.pos < len(area) && m.bad == "" {
						off := m.i64()
						size := m.i32()
						msg := m.take(int(size))
						if m.bad != "" {
							break
						}
						x := &vrfR{b: msg}
						crc := x.i32()
						if x.bad == "" && uint32(crc) != crc32.ChecksumIEEE(msg[4:]) {
							out.Wire = fmt.Sprintf("crc mismatch of the message at offset %d", off)
						}
						if mb := x.i8(); mb != 1 {
							out.Wire = fmt.Sprintf("magic byte %d", mb)
						}
						if at := x.i8(); at != 0 {
							out.Wire = fmt.Sprintf("attributes %d", at)
						}
						ts := x.i64()
						key, _ := x.nbytes()
						val, _ := x.nbytes()
						if x.bad == "" && x.pos != len(msg) {
							x.fail("message has %d bytes too many", len(msg)-x.pos)
						}
						if x.bad != "" {
							m.fail("message: %s", x.bad)
							break
						}
						p.Recs = append(p.Recs, vrfRec{Off: off, Id: recId(key, val), Ts: ts})
					}
					if m.bad != "" {
						r.fail("record area: %s", m.bad)
					}
				}
				e.Parts = append(e.Parts, p)
			})
			out.En = append(out.En, e)
		})
	case vrfList:
		r.array(func() {
			e := vrfEntry{T: topicId(r.str()), Parts: []vrfPart{}}
			r.array(func() {
				p := vrfPart{T: e.T, Recs: []vrfRec{}}
				p.Q = r.i32()
				p.Err = r.i16()
				p.Ts = r.i64()
				p.Off = r.i64()
				e.Parts = append(e.Parts, p)
			})
			out.En = append(out.En, e)
		})
	case vrfMeta:
		r.array(func() {
			b := vrfBroker{Id: r.i32(), Host: r.str(), Port: r.i32()}
			r.nstr()
			out.Brokers = append(out.Brokers, b)
		})
		r.i32()
		r.array(func() {
			e := vrfEntry{Parts: []vrfPart{}}
			e.Err = r.i16()
			e.T = topicId(r.str())
			if i := r.i8(); i != 0 && i != 1 {
				r.fail("boolean %d", i)
			}
			r.array(func() {
				p := vrfPart{T: e.T, Recs: []vrfRec{}}
				p.Err = r.i16()
				p.Q = r.i32()
				p.Ld = r.i32()
				r.array(func() { r.i32() })
				r.array(func() { r.i32() })
				e.Parts = append(e.Parts, p)
			})
			out.En = append(out.En, e)
		})
	case vrfCommit:
		r.array(func() {
			e := vrfEntry{T: topicId(r.str()), Parts: []vrfPart{}}
			r.array(func() {
				p := vrfPart{T: e.T, Recs: []vrfRec{}}
				p.Q = r.i32()
				p.Err = r.i16()
				e.Parts = append(e.Parts, p)
			})
			out.En = append(out.En, e)
		})
	case vrfOFetch:
		r.array(func() {
			e := vrfEntry{T: topicId(r.str()), Parts: []vrfPart{}}
			r.array(func() {
				p := vrfPart{T: e.T, Recs: []vrfRec{}}
				p.Q = r.i32()
				p.Off = r.i64()
				r.nstr()
				p.Err = r.i16()
				e.Parts = append(e.Parts, p)
			})
			out.En = append(out.En, e)
		})
	case vrfCoord:
		out.Err = r.i16()
		out.Brokers = []vrfBroker{{Id: r.i32(), Host: r.str(), Port: r.i32()}}
	case vrfJoin:
		out.Err = r.i16()
		r.i32()
		out.Proto = r.str()
		out.Leader = r.str()
		out.Member = r.str()
		r.array(func() {
			r.str()
			r.nbytes()
		})
	case vrfBeat, vrfLeave:
		out.Err = r.i16()
	case vrfSync:
		out.Err = r.i16()
		b, null := r.nbytes()
		if null {
			r.fail("null assignment")
		} else if r.bad == "" {
			a := &vrfR{b: b}
			out.Ver = a.i16()
			a.array(func() {
				e := vrfEntry{T: topicId(a.str()), Parts: []vrfPart{}}
				a.array(func() { e.Parts = append(e.Parts, vrfPart{T: e.T, Q: a.i32(), Recs: []vrfRec{}}) })
				out.En = append(out.En, e)
			})
			a.nbytes()
			if a.bad == "" && a.pos != len(b) {
				a.fail("%d bytes after the assignment", len(b)-a.pos)
			}
			if a.bad != "" {
				r.fail("assignment: %s", a.bad)
			}
		}
	case vrfVersion:
		out.Err = r.i16()
		r.array(func() { out.Apis = append(out.Apis, vrfApi{Key: r.i16(), Min: r.i16(), Max: r.i16()}) })
	default:
		r.fail("a response to a request that must not get one")
	}
	if r.bad == "" && r.pos != len(body) {
		r.fail("%d bytes after the response", len(body)-r.pos)
	}
	if r.bad != "" {
		return &vrfResp{K: "bad", Why: r.bad, En: []vrfEntry{}}
	}
	return out
}
