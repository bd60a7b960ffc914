package kafkamock

// Scenario runner: executes scenario programs (threads of API calls and raw client operations) against the real
// server and journals every externally visible event, in an order consistent with real time, for the trace
// specification to judge.

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jimsnab/go-lane"
)

type vrfContent struct {
	Kl int    `json:"kl"` // -1 null
	Vl int    `json:"vl"`
	Sd uint64 `json:"sd"`
}

type vrfOp struct {
	O     string      `json:"o"`
	C     int         `json:"c"`   // connection
	Rq    []*vrfReq   `json:"rq"`  // send: requests, written back to back
	Sg    []int       `json:"sg"`  // send: segment lengths (the rest goes in one)
	Pz    int         `json:"pz"`  // send: pause between segments, ms
	Ct    int         `json:"ct"`  // send: cut - leave the last n bytes of the batch unsent
	To    int         `json:"to"`  // timeout ms
	Ms    int         `json:"ms"`  // sleep, pump duration
	N     int         `json:"n"`   // barrier size; await: responses that may stay outstanding
	Id    int         `json:"id"`  // barrier id
	How   string      `json:"how"` // close: fin, rst, half
	Nr    bool        `json:"nr"`  // dial: do not read
	T     int         `json:"t"`   // topic
	Ts    []int       `json:"ts"`  // topics
	Q     int         `json:"q"`   // partition
	G     string      `json:"g"`   // group
	Off   int64       `json:"off"`
	Rec   *vrfContent `json:"rec"`
	At    *int64      `json:"at"`    // timestamp ms; nil: SimplePost
	Sc    bool        `json:"sc"`    // scribble over the buffers after the post
	K     string      `json:"k"`     // call kind for lifecycle
	Cn    int         `json:"cn"`    // res: connections expected open
	Up    bool        `json:"up"`    // res: listener expected
	Raw   bool        `json:"raw"`   // send: journal the raw response
	Async bool        `json:"async"` // call: run in its own goroutine
	Bs    int         `json:"bs"`    // dial: socket receive buffer size
}

type vrfThread struct {
	P   string   `json:"p"`
	Ops []*vrfOp `json:"ops"`
}

type vrfScenario struct {
	Id       string       `json:"id"`
	Names    []string     `json:"names"`
	Threads  []*vrfThread `json:"threads"`
	Latency  int          `json:"latency"`
	High     bool         `json:"high"`     // listen on a port above the ephemeral ones
	Patience int          `json:"patience"` // ms without progress that counts as hung
}

type vrfRun struct {
	sc     *vrfScenario
	idx    int
	mu     sync.Mutex
	out    *os.File
	t0     time.Time
	mock   *KafkaMock
	port   int
	conns  map[int]*vrfConn
	bars   map[int]*vrfBar
	ids    map[string]string
	names  map[string]string
	over   bool
	overCh chan struct{}
	base   int
	baseFd int
	own    int // client side sockets open
	stall  *vrfStall
	calls  int
}

type vrfBar struct {
	n  int
	ch chan struct{}
}

type vrfConn struct {
	id   int
	c    *net.TCPConn
	mu   sync.Mutex
	cond *sync.Cond
	out  []*vrfOut // outstanding
	next int32
	eof  bool
	gone bool
	read chan struct{}

	tail    []byte // the cut off end of a request
	tailEnd func()
}

type vrfOut struct {
	corr int32
	kind string
	raw  bool
}

// vrfStall measures how long this process was kept from running: a run during which the machine stalled is not judged.
type vrfStall struct {
	mu    sync.Mutex
	worst time.Duration
	quit  chan struct{}
}

func vrfNewStall() *vrfStall {
	s := &vrfStall{quit: make(chan struct{})}
	go func() {
		last := time.Now()
		for {
			select {
			case <-s.quit:
				return
			case <-time.After(20 * time.Millisecond):
			}
			now := time.Now()
			s.mu.Lock()
			if d := now.Sub(last) - 20*time.Millisecond; d > s.worst {
				s.worst = d
			}
			s.mu.Unlock()
			last = now
		}
	}()
	return s
}

func (s *vrfStall) get() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.worst.Milliseconds()
}

func (r *vrfRun) ms() int64 { return time.Since(r.t0).Milliseconds() }

// ev journals an event; the order of the lines is the order of the events.
func (r *vrfRun) ev(m map[string]any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.over {
		return
	}
	m["x"] = r.idx
	m["t"] = r.ms()
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	r.out.Write(append(b, '\n'))
}

func (r *vrfRun) stop() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.over {
		r.over = true
		close(r.overCh)
	}
}

// hung reports that something that was due did not happen, and ends the scenario.
func (r *vrfRun) hung(why string) {
	r.ev(map[string]any{"e": "quiet", "why": why, "stall": r.stall.get()})
	r.stop()
}

func (r *vrfRun) recKey(key, val []byte) string {
	h := func(b []byte) string {
		if b == nil {
			return "~"
		}
		return "=" + string(b)
	}
	return fmt.Sprintf("%d%s/%s", len(key), h(key), h(val))
}

func (c *vrfContent) make() (key, val []byte) {
	if c.Kl >= 0 {
		key = vrfFill(c.Kl, c.Sd*2+1)
	}
	if c.Vl >= 0 {
		val = vrfFill(c.Vl, c.Sd*2+2)
	}
	return
}

func (r *vrfRun) prepare() {
	r.ids = map[string]string{}
	r.names = map[string]string{}
	for i, n := range r.sc.Names {
		r.names[n] = fmt.Sprintf("t%d", i)
	}
	for _, th := range r.sc.Threads {
		for _, op := range th.Ops {
			if op.Rec != nil {
				k := r.recKey(op.Rec.make())
				if _, ok := r.ids[k]; !ok {
					r.ids[k] = fmt.Sprintf("r%d", len(r.ids))
				}
			}
		}
	}
}

func (r *vrfRun) topicId(s string) string {
	if id, ok := r.names[s]; ok {
		return id
	}
	return "?"
}

func (r *vrfRun) recId(key, val []byte) string {
	if id, ok := r.ids[r.recKey(key, val)]; ok {
		return id
	}
	return "?"
}

func (cn *vrfConn) reader(r *vrfRun) {
	select {
	case <-cn.read:
	case <-r.overCh:
		return
	}
	br := bufio.NewReaderSize(cn.c, 65536)
	end := func(why string) {
		cn.mu.Lock()
		gone := cn.gone
		cn.eof = true
		if !gone {
			r.ev(map[string]any{"e": "eof", "c": cn.id, "why": why})
		}
		cn.cond.Broadcast()
		cn.mu.Unlock()
	}
	for {
		var hd [8]byte
		if n, err := io.ReadFull(br, hd[:]); err != nil {
			if n != 0 && errors.Is(err, io.ErrUnexpectedEOF) {
				end("partial")
			} else if errors.Is(err, io.EOF) {
				end("eof")
			} else {
				end("reset")
			}
			return
		}
		size := int(int32(binary.BigEndian.Uint32(hd[:])))
		corr := int32(binary.BigEndian.Uint32(hd[4:]))
		if size < 4 || size > 1<<28 {
			r.ev(map[string]any{"e": "recv", "c": cn.id, "n": -1, "resp": &vrfResp{K: "bad", Why: fmt.Sprintf("length prefix %d", size), En: []vrfEntry{}}})
			end("partial")
			return
		}
		body := make([]byte, size-4)
		if _, err := io.ReadFull(br, body); err != nil {
			end("partial")
			return
		}
		cn.mu.Lock()
		if cn.gone {
			cn.mu.Unlock()
			return
		}
		if len(cn.out) == 0 || cn.out[0].corr != corr {
			r.ev(map[string]any{"e": "recv", "c": cn.id, "n": -1, "resp": &vrfResp{K: "bad", Why: fmt.Sprintf("unexpected correlation id %d", corr), En: []vrfEntry{}}})
			cn.eof = true
			cn.cond.Broadcast()
			cn.mu.Unlock()
			return
		}
		o := cn.out[0]
		resp := vrfParse(o.kind, body, r.topicId, r.recId)
		if o.raw {
			resp.Raw = hex.EncodeToString(append(hd[:], body...))
		}
		cn.out = cn.out[1:]
		r.ev(map[string]any{"e": "recv", "c": cn.id, "n": o.corr, "resp": resp})
		cn.cond.Broadcast()
		cn.mu.Unlock()
	}
}

func (r *vrfRun) conn(id int) *vrfConn {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.conns[id]
}

func (r *vrfRun) dial(op *vrfOp) {
	r.ev(map[string]any{"e": "dial", "c": op.C})
	d := net.Dialer{Timeout: 5 * time.Second}
	nc, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", r.port))
	if err != nil {
		r.ev(map[string]any{"e": "open", "c": op.C, "ok": false})
		r.mu.Lock()
		delete(r.conns, op.C)
		r.mu.Unlock()
		return
	}
	tc := nc.(*net.TCPConn)
	if op.Bs != 0 {
		tc.SetReadBuffer(op.Bs)
	}
	cn := &vrfConn{id: op.C, c: tc, next: 1, read: make(chan struct{})}
	cn.cond = sync.NewCond(&cn.mu)
	r.mu.Lock()
	r.conns[op.C] = cn
	r.own++
	r.mu.Unlock()
	r.ev(map[string]any{"e": "open", "c": op.C, "ok": true})
	go cn.reader(r)
	if !op.Nr {
		close(cn.read)
	}
}

func (r *vrfRun) send(cn *vrfConn, op *vrfOp) bool {
	type mark struct {
		end int
		req *vrfReq
		n   int32
	}
	var all []byte
	var marks []mark
	for _, q := range op.Rq {
		cn.mu.Lock()
		n := cn.next
		cn.next++
		cn.mu.Unlock()
		all = append(all, vrfEncode(q, n, r.sc.Names)...)
		marks = append(marks, mark{len(all), q, n})
	}
	if op.Ct > 0 && op.Ct < len(all) {
		cn.tail = all[len(all)-op.Ct:]
		all = all[:len(all)-op.Ct]
		cn.tailEnd = func() {
			for _, m := range marks {
				cn.out = append(cn.out, &vrfOut{corr: m.n, kind: m.req.K, raw: op.Raw})
				r.ev(map[string]any{"e": "send", "c": cn.id, "n": m.n, "req": m.req})
			}
		}
	}
	pos := 0
	seg := 0
	for pos < len(all) {
		n := len(all) - pos
		if seg < len(op.Sg) && op.Sg[seg] > 0 && op.Sg[seg] < n {
			n = op.Sg[seg]
		} else if len(op.Sg) > 0 && op.Sg[len(op.Sg)-1] < 0 {
			if k := -op.Sg[len(op.Sg)-1]; k < n { // keep cutting into pieces of this size
				n = k
			}
		}
		seg++
		cn.mu.Lock()
		for len(marks) > 0 && marks[0].end <= pos+n {
			m := marks[0]
			marks = marks[1:]
			cn.out = append(cn.out, &vrfOut{corr: m.n, kind: m.req.K, raw: op.Raw})
			r.ev(map[string]any{"e": "send", "c": cn.id, "n": m.n, "req": m.req})
		}
		cn.mu.Unlock()
		cn.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
		if _, err := cn.c.Write(all[pos : pos+n]); err != nil {
			r.ev(map[string]any{"e": "werr", "c": cn.id})
			return false
		}
		pos += n
		if pos < len(all) && op.Pz > 0 {
			time.Sleep(time.Duration(op.Pz) * time.Millisecond)
		}
	}
	return true
}

// rest sends what the request before was cut by.
func (r *vrfRun) rest(cn *vrfConn, op *vrfOp) {
	cn.mu.Lock()
	if cn.tail == nil {
		cn.mu.Unlock()
		return
	}
	tail := cn.tail
	cn.tail = nil
	cn.tailEnd()
	cn.mu.Unlock()
	cn.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	if _, err := cn.c.Write(tail); err != nil {
		r.ev(map[string]any{"e": "werr", "c": cn.id})
	}
}

// await waits until at most n requests are outstanding.
func (r *vrfRun) await(cn *vrfConn, n int, to time.Duration) {
	stop := time.AfterFunc(to, func() { cn.cond.Broadcast() })
	defer stop.Stop()
	end := time.Now().Add(to)
	cn.mu.Lock()
	for len(cn.out) > n && !cn.eof && time.Now().Before(end) && !r.isOver() {
		cn.cond.Wait()
	}
	late := len(cn.out) > n && !cn.eof && !r.isOver()
	cn.mu.Unlock()
	if late {
		r.hung(fmt.Sprintf("no response on connection %d", cn.id))
	}
}

func (r *vrfRun) isOver() bool {
	select {
	case <-r.overCh:
		return true
	default:
		return false
	}
}

func (r *vrfRun) awaitEof(cn *vrfConn, to time.Duration) {
	stop := time.AfterFunc(to, func() { cn.cond.Broadcast() })
	defer stop.Stop()
	end := time.Now().Add(to)
	cn.mu.Lock()
	for !cn.eof && time.Now().Before(end) && !r.isOver() {
		cn.cond.Wait()
	}
	late := !cn.eof && !r.isOver()
	cn.mu.Unlock()
	if late {
		r.hung(fmt.Sprintf("connection %d not closed by the server", cn.id))
	}
}

func (r *vrfRun) closeConn(cn *vrfConn, how string) {
	cn.mu.Lock()
	if cn.gone {
		cn.mu.Unlock()
		return
	}
	r.ev(map[string]any{"e": "close", "c": cn.id, "how": how})
	if how != "half" {
		cn.gone = true
		r.mu.Lock()
		r.own--
		r.mu.Unlock()
	}
	cn.mu.Unlock()
	switch how {
	case "half":
		cn.c.CloseWrite()
	case "rst":
		cn.c.SetLinger(0)
		cn.c.Close()
	default:
		cn.c.Close()
	}
}

func (r *vrfRun) barrier(op *vrfOp) {
	r.mu.Lock()
	b := r.bars[op.Id]
	if b == nil {
		b = &vrfBar{n: op.N, ch: make(chan struct{})}
		r.bars[op.Id] = b
	}
	b.n--
	if b.n == 0 {
		close(b.ch)
	}
	r.mu.Unlock()
	select {
	case <-b.ch:
	case <-r.overCh:
	}
}

// sockets counts the process's sockets, and server goroutines are those that run this package's code and were
// not started by the harness.
func vrfSockets() int {
	n := 0
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(s, "socket:") {
			n++
		}
	}
	return n
}

func vrfServerGoroutines() int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	count := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		server, harness := false, false
		for _, line := range strings.Split(g, "\n") {
			if strings.HasPrefix(line, "created by ") {
				if strings.Contains(line, "kafka-mock-go") && !strings.Contains(line, ".vrf") && !strings.Contains(line, ".(*vrf") && !strings.Contains(line, ".Test") {
					server = true
				}
				break
			}
			if strings.HasPrefix(line, "github.com/jimsnab/kafka-mock-go.vrfPoint") {
				continue // a delay put into the server's code
			}
			if strings.HasPrefix(line, "github.com/jimsnab/kafka-mock-go.") {
				if strings.Contains(line, ".vrf") || strings.Contains(line, ".(*vrf") || strings.Contains(line, ".TestVrf") {
					harness = true
				} else {
					server = true
				}
			}
		}
		if server && !harness {
			count++
		}
	}
	return count
}

func (r *vrfRun) resources(op *vrfOp) {
	to := op.To
	if to == 0 {
		to = 6000
	}
	end := time.Now().Add(time.Duration(to) * time.Millisecond)
	want := op.Cn
	if op.Up {
		want++
	}
	var socks, gor, reg int
	for {
		r.mu.Lock()
		own := r.own
		r.mu.Unlock()
		socks = vrfSockets() - r.baseFd - own
		gor = vrfServerGoroutines()
		if r.mock != nil {
			r.mock.mu.Lock()
			reg = len(r.mock.clients)
			r.mock.mu.Unlock()
		}
		good := socks == want && (reg == op.Cn)
		if op.Cn == 0 {
			if op.Up {
				good = good && gor <= r.base
			} else {
				good = good && gor == 0
			}
		}
		if good || time.Now().After(end) || r.isOver() {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	r.ev(map[string]any{"e": "res", "socks": socks, "gor": gor, "reg": reg, "base": r.base})
}

func (r *vrfRun) call(p string, op *vrfOp) {
	r.mu.Lock()
	r.calls++
	id := fmt.Sprintf("%s.%d", p, r.calls)
	r.mu.Unlock()
	ev := map[string]any{"e": "call", "p": id, "k": op.O}
	var f func()
	switch op.O {
	case "post":
		key, val := op.Rec.make()
		name := r.sc.Names[op.T]
		ev["tp"], ev["q"], ev["id"], ev["kl"], ev["vl"] = fmt.Sprintf("t%d", op.T), op.Q, r.ids[r.recKey(key, val)], op.Rec.Kl, op.Rec.Vl
		if op.At != nil {
			ev["ts"] = *op.At
			ts := time.UnixMilli(*op.At).Add(time.Duration(op.Rec.Sd%1000) * time.Microsecond)
			if op.Rec.Sd%3 == 0 {
				ts = ts.UTC()
			} else if op.Rec.Sd%3 == 1 {
				ts = ts.In(time.FixedZone("z", 5*3600+1800))
			}
			var hdrs map[string][]byte
			if op.Rec.Sd%2 == 0 {
				hdrs = map[string][]byte{"h": []byte("x"), "": nil}
			}
			f = func() { r.mock.ExtendedPost(name, op.Q, key, val, hdrs, ts) }
		} else {
			ev["lo"] = time.Now().UnixMilli()
			f = func() { r.mock.SimplePost(name, op.Q, key, val) }
		}
		if op.Sc {
			g := f
			f = func() {
				g()
				for i := range key {
					key[i] ^= 0x5a
				}
				for i := range val {
					val[i] ^= 0xa5
				}
			}
		}
	case "mk":
		names := make([]string, len(op.Ts))
		ids := make([]string, len(op.Ts))
		for i, t := range op.Ts {
			names[i] = r.sc.Names[t]
			ids[i] = fmt.Sprintf("t%d", t)
		}
		ev["tps"], ev["q"] = ids, op.Q
		f = func() { r.mock.CreatePartitionTopics(names, op.Q) }
	case "setoff":
		ev["tp"], ev["q"], ev["g"], ev["off"] = fmt.Sprintf("t%d", op.T), op.Q, op.G, op.Off
		f = func() { r.mock.SetConsumerGroupOffset(r.sc.Names[op.T], op.Q, op.G, op.Off) }
	case "start":
		f = func() { r.mock.Start() }
	case "stop":
		f = func() { r.mock.RequestStop() }
	case "wait":
		f = func() { r.mock.WaitForTermination() }
	case "restart":
		f = func() { r.mock.Restart() }
	case "finish":
		f = func() { r.mock.FinishRequests() }
	default:
		panic("harness: unknown operation " + op.O)
	}
	r.ev(ev)
	to := time.Duration(op.To) * time.Millisecond
	if to == 0 {
		to = 15 * time.Second
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
		ret := map[string]any{"e": "ret", "p": id, "k": op.O}
		if op.O == "post" && op.At == nil {
			ret["hi"] = time.Now().UnixMilli()
		}
		r.ev(ret)
	}()
	wait := func() {
		select {
		case <-done:
		case <-r.overCh:
		case <-time.After(to):
			r.hung(fmt.Sprintf("%s does not return", op.O))
		}
	}
	if op.Async {
		go wait()
	} else {
		wait()
	}
}

// up waits until the server accepts connections (Start returns before it listens).
func (r *vrfRun) up() {
	end := time.Now().Add(10 * time.Second)
	for time.Now().Before(end) && !r.isOver() {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", r.port), time.Second)
		if err == nil {
			c.Close()
			r.ev(map[string]any{"e": "up"})
			return
		}
		time.Sleep(time.Millisecond)
	}
	if !r.isOver() {
		r.hung("the server does not listen")
	}
}

func (r *vrfRun) thread(th *vrfThread) {
	for _, op := range th.Ops {
		if r.isOver() {
			return
		}
		patience := 15 * time.Second
		if r.sc.Patience != 0 {
			patience = time.Duration(r.sc.Patience) * time.Millisecond
		}
		if op.To != 0 {
			patience = time.Duration(op.To) * time.Millisecond
		}
		switch op.O {
		case "sleep":
			select {
			case <-time.After(time.Duration(op.Ms) * time.Millisecond):
			case <-r.overCh:
			}
		case "barrier":
			r.barrier(op)
		case "dial":
			r.dial(op)
		case "up":
			r.up()
		case "base":
			end := time.Now().Add(3 * time.Second) // what is left of earlier connections goes away first
			r.base = vrfServerGoroutines()
			for r.base != 1 && time.Now().Before(end) {
				time.Sleep(5 * time.Millisecond)
				r.base = vrfServerGoroutines()
			}
		case "res":
			r.resources(op)
		case "send", "rest", "await", "close", "eof", "read", "pump":
			cn := r.conn(op.C)
			if cn == nil {
				continue // refused
			}
			switch op.O {
			case "send":
				r.send(cn, op)
			case "rest":
				r.rest(cn, op)
			case "await":
				r.await(cn, op.N, patience)
			case "close":
				r.closeConn(cn, op.How)
			case "eof":
				r.awaitEof(cn, patience)
			case "read":
				close(cn.read)
			case "pump":
				end := time.Now().Add(time.Duration(op.Ms) * time.Millisecond)
				for time.Now().Before(end) && !r.isOver() {
					cn.mu.Lock()
					eof := cn.eof
					cn.mu.Unlock()
					if eof || !r.send(cn, op) {
						break
					}
					if op.N > 0 {
						r.await(cn, op.N-1, patience)
					}
					if op.Pz > 0 {
						time.Sleep(time.Duration(op.Pz) * time.Millisecond)
					}
				}
			}
		default:
			r.call(th.P, op)
		}
	}
}

func vrfFreePort(from int) int {
	for p := from; p < from+400; p++ {
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			ln.Close()
			return p
		}
	}
	panic("VRF-ENV: no free port")
}

func vrfRunScenario(sc *vrfScenario, idx, port int, out *os.File) {
	r := &vrfRun{sc: sc, idx: idx, out: out, conns: map[int]*vrfConn{}, bars: map[int]*vrfBar{}, overCh: make(chan struct{}), t0: time.Now(), stall: vrfNewStall()}
	r.prepare()
	if sc.High {
		port = 61000 + (port-16000)/800*240 + port%100
	}
	r.port = vrfFreePort(port)
	r.baseFd = vrfSockets()
	ctx, cancel := context.WithCancel(context.Background())
	r.mock = NewKafkaMock(lane.NewNullLane(ctx), uint(r.port))
	if sc.Latency != 0 {
		r.mock.latency = time.Duration(sc.Latency) * time.Millisecond
	}
	r.ev(map[string]any{"e": "begin", "id": sc.Id, "port": r.port})
	var wg sync.WaitGroup
	for _, th := range sc.Threads {
		wg.Add(1)
		go func(th *vrfThread) {
			defer wg.Done()
			r.thread(th)
		}(th)
	}
	wg.Wait()
	r.ev(map[string]any{"e": "end", "stall": r.stall.get()})
	r.stop()
	close(r.stall.quit)

	// clean up: nothing here is judged
	r.mu.Lock()
	var left []*vrfConn
	for _, cn := range r.conns {
		left = append(left, cn)
	}
	r.mu.Unlock()
	for _, cn := range left {
		cn.mu.Lock()
		cn.gone = true
		cn.cond.Broadcast()
		cn.mu.Unlock()
		cn.c.SetLinger(0)
		cn.c.Close()
	}
	done := make(chan struct{})
	go func() {
		r.mock.RequestStop()
		r.mock.WaitForTermination()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
	}
	cancel()
	for i := 0; i < 400 && vrfServerGoroutines() != 0; i++ {
		time.Sleep(5 * time.Millisecond)
	}
}

func TestVrfRun(t *testing.T) {
	in := os.Getenv("VRF_IN")
	if in == "" {
		t.Skip("not under the checks")
	}
	raw, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var scs []*vrfScenario
	if err := json.Unmarshal(raw, &scs); err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(os.Getenv("VRF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	port, first := 21000, 0
	fmt.Sscan(os.Getenv("VRF_PORT"), &port)
	fmt.Sscan(os.Getenv("VRF_FIRST"), &first)
	budget := 1 << 30 // seconds; no scenario is begun after that
	fmt.Sscan(os.Getenv("VRF_BUDGET"), &budget)
	began := time.Now()
	for i, sc := range scs {
		if i < first {
			continue
		}
		if time.Since(began) > time.Duration(budget)*time.Second {
			break
		}
		vrfRunScenario(sc, i, port+(i*7)%350, out)
	}
	fmt.Println("VRF-DONE")
}
