from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("defs2_", os.path.join(os.path.dirname(os.path.abspath(__file__)), "defs2.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
H = _m.H
SEEDS = {}
END = '''	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
'''

SEEDS["c11-compact-large"] = dict(
    property="C11",
    needs="a request of more than 64 KB with more bytes of a later one right behind it",
    breaks="the large request's first bytes are overwritten before it is decoded",
    edits=[("kafka-client.go", '''		kc.inbound = kc.inbound[4+msg.Len():]
''', '''		if rest := kc.inbound[4+msg.Len():]; cap(kc.inbound) > 64*1024 {
			// don't hold on to a large buffer's front
			kc.inbound = append(kc.inbound[:0], rest...)
		} else {
			kc.inbound = rest
		}
''')],
    demo=H("fmt", "testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	b := (&demoBuf{}).i32(3000)
	for i := 0; i < 3000; i++ {
		b.str(fmt.Sprintf("a-rather-long-topic-name-%06d", i))
	}
	one := demoFrame(3, 1, b.b)
	two := demoFrame(3, 1, (&demoBuf{}).i32(1).str("b").b)
	go c.Write(append(one, two...))
	for i := 0; i < 2; i++ {
		in, err := demoRead(t, c, 5*time.Second)
		if err != nil {
			t.Fatal(err)
		}
		in.i32()
		in.i32()
		in.str()
		in.i32()
		in.i16()
		in.i32()
		if n := in.i32(); n != []int32{3000, 1}[i] {
			t.Fatal(i, n)
		}
	}
''' + END)

SEEDS["c15-patient-middle"] = dict(
    property="C15",
    needs="a client that has sent part of a request when the server is stopped",
    breaks="waiting for termination takes half a minute",
    edits=[("kafka-client.go", '''			kc.conn.SetReadDeadline(time.Now().Add(time.Second))
''', '''			idle := time.Second
			if len(kc.inbound) > 0 {
				idle = time.Second * 30 // the rest of the request is on its way
			}
			kc.conn.SetReadDeadline(time.Now().Add(idle))
''')],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	demoAsk(t, c, 18, 0, nil)
	c.Write(demoFrame(18, 0, nil)[:7])
	time.Sleep(1500 * time.Millisecond)
	m.RequestStop()
	done := make(chan bool)
	go func() {
		m.WaitForTermination()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(12 * time.Second):
		t.Fatal("still waiting")
	}
	c.Close()
}
''')

SEEDS["c15-unclosed-late-connection"] = dict(
    property="C15",
    needs="a connection that is made after finishing was requested and before the stop",
    breaks="it stays open after termination",
    edits=[("kafka-mock.go", '''			// don't accept more connections
			connection.Close()
			continue
''', '''			// don't accept more connections
			km.l.Tracef("refusing client: %s", connection.RemoteAddr().String())
			late = append(late, connection)
			continue
'''), ("kafka-mock.go", '''	cxnNumber := 0

''', '''	cxnNumber := 0
	late := []net.Conn{}
	defer func() { km.l.Tracef("refused %d clients", len(late)) }()

''')],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c0 := demoDial(t)
	demoAsk(t, c0, 18, 0, nil)
	m.FinishRequests()
	c := demoDial(t)
	time.Sleep(200 * time.Millisecond)
	m.RequestStop()
	m.WaitForTermination()
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, err := c.Read(make([]byte, 1)); err == nil {
		t.Fatal("served")
	} else if e, ok := err.(interface{ Timeout() bool }); ok && e.Timeout() {
		t.Fatal("open")
	}
	c0.Close()
	c.Close()
}
''')

SEEDS["c09-signed-timestamp"] = dict(
    property="C09",
    needs="a query for a timestamp below -2, or records with timestamps before 1970",
    breaks="any negative timestamp is taken for the earliest offset",
    edits=[("list_offsets.go", "} else if p.Timestamp == -2 {", "} else if p.Timestamp <= -2 {")],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.ExtendedPost("a", 2, nil, []byte("x"), nil, time.UnixMilli(-5000))
	m.ExtendedPost("a", 2, nil, []byte("y"), nil, time.UnixMilli(-1000))
	c := demoDial(t)
	if _, ts, off := demoList(t, c, "a", 2, -4000); ts != -1000 || off != 1 {
		t.Fatal(ts, off)
	}
''' + END)

SEEDS["c09-newest-shortcut"] = dict(
    property="C09",
    needs="records whose timestamps are not in order, and a query later than the last record's",
    breaks="the query is answered with the log end though an earlier record is late enough",
    edits=[("list_offsets.go", '''					for i, msg := range records {
						if msg''', '''					for i, msg := range records {
						if records[len(records)-1].Timestamp < p.Timestamp {
							break // past the newest
						}
						if msg''')],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.ExtendedPost("a", 2, nil, []byte("x"), nil, time.UnixMilli(5000))
	m.ExtendedPost("a", 2, nil, []byte("y"), nil, time.UnixMilli(1000))
	c := demoDial(t)
	if _, ts, off := demoList(t, c, "a", 2, 3000); ts != 5000 || off != 0 {
		t.Fatal(ts, off)
	}
''' + END)

SEEDS["c12-names-once"] = dict(
    property="C12",
    needs="a metadata request that names a topic more than once",
    breaks="only the first mention is answered",
    edits=[("metadata.go", '''	for _, t := range request.Topics {
		indexes''', '''	seen := map[string]bool{}
	for _, t := range request.Topics {
		if seen[t] {
			continue
		}
		seen[t] = true

		indexes''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a", "b"}, 2)
	m.Start()
	c := demoDial(t)
	in := demoAsk(t, c, 3, 1, (&demoBuf{}).i32(3).str("a").str("b").str("a").b)
	in.i32()
	in.i32()
	in.str()
	in.i32()
	in.i16()
	in.i32()
	if n := in.i32(); n != 3 {
		t.Fatal(n)
	}
''' + END)

SEEDS["c14-list-shared"] = dict(
    property="C14",
    needs="a second mock in the same process",
    breaks="the version list is rebuilt while it may be in use, and a restart's list names every API twice",
    edits=[("api_versions.go", '''	keys := make([]int, 0, len(apiVersions))
''', '''	keys := versionKeys
'''), ("api_versions.go", '''	sort.Ints(keys)
''', '''	versionKeys = keys // the capacity serves the next time
	sort.Ints(keys)
'''), ("api_versions.go", '''func apiVersionsV0''', '''var versionKeys = make([]int, 0, 16)

func apiVersionsV0''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	for i := 0; i < 3; i++ {
		in := demoAsk(t, c, 18, 0, nil)
		in.i16()
		if n := in.i32(); n != 11 {
			t.Fatal(i, n)
		}
	}
''' + END)

SEEDS["c14-version-tolerant"] = dict(
    property="C14",
    needs="a request for version 0 of the metadata API",
    breaks="it is answered, though the version is not listed",
    edits=[("kafka-client.go", '''	handler, defined := apiTable[k]
''', '''	handler, defined := apiTable[k]
	if !defined && hdr.RequestApiVersion == 0 {
		// the first version of an API reads the same
		handler, defined = apiTable[makeApiKey(kafkaApiKey(hdr.RequestApiKey), 1)]
	}
''')],
    demo=H("os", "os/exec", "testing", "time") + '''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		// the server may end the process at an unsupported request
		cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
		cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
		if cmd.Run(); cmd.ProcessState.ExitCode() == 77 {
			t.Fatal("answered")
		}
		return
	}
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	c.Write(demoFrame(3, 0, (&demoBuf{}).i32(1).str("a").b))
	if _, err := demoRead(t, c, 3*time.Second); err == nil {
		os.Exit(77)
	}
}
''')

SEEDS["c16-late-service"] = dict(
    property="C16",
    needs="a connection that is made after finishing is requested",
    breaks="it is served, since the accept loop looks at another lane",
    edits=[("kafka-mock.go", '''		select {
		case <-km.l.Done():
			// don't accept more connections
			connection.Close()
			continue
		default:
			// continue
		}
''', '''		if km.stopped.Load() {
			// don't accept more connections
			connection.Close()
			continue
		}
'''), ("kafka-client.go", '''			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}

			// no message''', '''			if served > 0 {
				select {
				case <-kc.l.Done():
					// don't accept more requests
					kc.conn.Close()
					return
				default:
					// keep going
				}
			}

			// no message'''), ("kafka-client.go", '''	defer stopWatch()

	for {
''', '''	defer stopWatch()

	served := 0
	for {
'''), ("kafka-client.go", '''		kc.requestWg.Add(1)
		reader''', '''		served++
		kc.requestWg.Add(1)
		reader''')],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c0 := demoDial(t)
	demoAsk(t, c0, 18, 0, nil)
	m.FinishRequests()
	c := demoDial(t)
	c.Write(demoFrame(18, 0, nil))
	if _, err := demoRead(t, c, 3*time.Second); err == nil {
		t.Fatal("served")
	}
	c0.Close()
''' + END)

SEEDS["c19-boundary"] = dict(
    property="C19",
    needs="a 64-bit variable-length integer whose zigzag form is exactly a power of 128",
    breaks="it is encoded in one byte more than its shortest form",
    edits=[("encoder.go", '''func makeVarUint64(v uint64) []byte {
	vi := make([]byte, 0, 10)
	for {
		by := byte(v & 0x7F)
		if v > 0x7F {''', '''func makeVarUint64(v uint64) []byte {
	vi := make([]byte, 0, 10)
	for {
		by := byte(v & 0x7F)
		if v > 0x7F || len(vi) == 8 && by == 1 {''')],
    inpkg=True,
    demo='''package kafkamock

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	if b := makeVarUint64(1 << 56); !bytes.Equal(b, []byte{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1}) {
		t.Fatal(b)
	}
}
''')

SEEDS["c20-tag-length"] = dict(
    property="C20",
    needs="a known tagged field whose value is cut short after the tag's own length",
    breaks="the tag is decoded beyond what is there: a cut that ends within a tag of length zero is accepted",
    edits=[("decoder.go", '''			inbound, unfilled := reader.Peek(next + tl)
			if unfilled != nil {
				next = -1
				return
			}
			t[int(tag)] = inbound[next:]
			next += tl
''', '''			inbound, unfilled := reader.Peek(next + tl)
			if unfilled != nil && len(inbound) < next+tl-1 {
				next = -1
				return
			}
			t[int(tag)] = inbound[next:]
			next = len(inbound)
''')],
    inpkg=True,
    demo='''package kafkamock

import (
	"bufio"
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeTags(w, map[int]any{3: "hello"})
	w.Flush()
	for n := 0; n < buf.Len(); n++ {
		r := bufio.NewReader(bytes.NewReader(buf.Bytes()[:n]))
		if next, _ := peekTags(r, 0, map[int]*kafkaField{}); next >= 0 {
			t.Fatal(n, next)
		}
	}
}
''')

SEEDS["c21-null-checksum"] = dict(
    property="C21",
    needs="a record with a null key and a value",
    breaks="its checksum is computed as if the key were empty",
    edits=[("encoder.go", '''	encodeObject(w, mv1)
	w.Flush()

	return crc32''', '''	sum := *mv1
	if sum.Key == nil && sum.Value != nil {
		sum.Key = []byte{}
	}
	encodeObject(w, &sum)
	w.Flush()

	return crc32''')],
    demo=H("hash/crc32", "testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.SimplePost("a", 2, nil, []byte("hello"))
	c := demoDial(t)
	in := demoAsk(t, c, 1, 2, demoFetchBody(0, demoTarget{"a", 2, 0, 1 << 20}))
	in.i32()
	in.i32()
	in.str()
	in.i32()
	in.i32()
	in.i16()
	in.i64()
	b := in.take(int(in.i32()))
	sum := uint32(b[12])<<24 | uint32(b[13])<<16 | uint32(b[14])<<8 | uint32(b[15])
	if sum != crc32.ChecksumIEEE(b[16:]) {
		t.Fatal(sum)
	}
''' + END)

SEEDS["c05-late-partition"] = dict(
    property="C05",
    needs="a waiting fetch whose only new record arrives in the last partition it names",
    breaks="the fetch goes on waiting",
    edits=[("fetch.go", '''		for _, fd := range fds {
			if fd.kp != nil {''', '''		for i, fd := range fds {
			if rounds > 0 && len(fds) > 1 && i == len(fds)-1 && !hasOne {
				break // nothing new before it
			}
			if fd.kp != nil {'''), ("fetch.go", '''	for {
		more := false
''', '''	for rounds := 0; ; rounds++ {
		more := false
''')],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a", "b"}, 2)
	m.Start()
	c := demoDial(t)
	time.AfterFunc(300*time.Millisecond, func() { m.SimplePost("b", 2, nil, []byte("x")) })
	at := time.Now()
	a := demoFetch(t, c, 6000, demoTarget{"a", 2, 0, 1000}, demoTarget{"b", 2, 0, 1000})
	if len(a[1].recs) != 1 || time.Since(at) > 4*time.Second {
		t.Fatal(len(a[1].recs), time.Since(at))
	}
''' + END)

SEEDS["c17-left-halfway"] = dict(
    property="C17",
    needs="a client that closes its connection in the middle of a request",
    breaks="the server's side of the connection stays open",
    edits=[("kafka-client.go", '''					panic(fmt.Sprintf("read error: %v", err))
				}
''', '''					panic(fmt.Sprintf("read error: %v", err))
				} else if len(kc.inbound) > 0 {
					kc.l.Warnf("client %d left in the middle of a request", kc.clientPort)
					return
				}
''')],
    demo=H("os", "runtime/debug", "testing", "time") + '''
func fds() int {
	d, _ := os.ReadDir("/proc/self/fd")
	return len(d)
}

func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	demoAsk(t, c, 18, 0, nil)
	n := fds()
	for i := 0; i < 40; i++ {
		c := demoDial(t)
		c.Write(demoFrame(18, 0, nil)[:9])
		c.Close()
	}
	for i := 0; fds() > n+5; i++ {
		if i > 80 {
			t.Fatal(n, fds())
		}
		time.Sleep(100 * time.Millisecond)
	}
''' + END)

SEEDS["c10-listed-miss"] = dict(
    property="C10",
    needs="an offset query that names a missing partition of an existing topic",
    breaks="the query creates the partition",
    edits=[("list_offsets.go", '''				kp = kt.getPartition(p.PartitionIndex)
			}

			if kp == nil {''', '''				kp = kt.getPartition(p.PartitionIndex)
				if kp == nil && p.Timestamp == -1 && len(kt.Partitions) == 0 {
					// a topic has at least one
					kp = kt.createPartition(p.PartitionIndex)
				}
			}

			if kp == nil {''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	t.Skip()
}
''')
del SEEDS["c10-listed-miss"]

SEEDS["c10-commit-stops"] = dict(
    property="C10",
    needs="a commit that names a missing topic before an existing one",
    breaks="the partitions of the topics after it are not committed, though they are answered without error",
    edits=[("offset_commit.go", '''			if kt != nil {
				kp = kt.getPartition(par.PartitionIndex)
			}
			if kp != nil {
''', '''			if kt != nil {
				kp = kt.getPartition(par.PartitionIndex)
			}
			missing = missing || kp == nil
			if kp != nil && missing {
				// the client will repeat the request
			} else if kp != nil {
'''), ("offset_commit.go", '''	for _, topic := range request.Topics {
		kt''', '''	missing := false
	for _, topic := range request.Topics {
		kt''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a"}, 2)
	m.Start()
	c := demoDial(t)
	b := (&demoBuf{}).str("g").i32(1).str("m").i64(-1).i32(2)
	b.str("none").i32(1).i32(2).i64(5).i16(-1)
	b.str("a").i32(1).i32(2).i64(5).i16(-1)
	demoAsk(t, c, 8, 2, b.b)
	if o := demoOffset(t, c, "g", "a", 2); o != 5 {
		t.Fatal(o)
	}
''' + END)

SEEDS["c08-times-kept"] = dict(
    property="C08",
    needs="a post while the server is stopped",
    breaks="it is held back until the server runs, and lost if another is made first",
    edits=[("kafka-mock.go", '''	kp.postRecord(0, time.Now(), key, value, nil)
}
''', '''	if km.stopped.Load() {
		km.mu.Lock()
		km.pending = func() { kp.postRecord(0, time.Now(), key, value, nil) }
		km.mu.Unlock()
		return
	}
	kp.postRecord(0, time.Now(), key, value, nil)
}
'''), ("kafka-mock.go", '''	km.clients = map[int]*kafkaClient{}
''', '''	km.clients = map[int]*kafkaClient{}
	if km.pending != nil {
		km.pending()
		km.pending = nil
	}
'''), ("kafka-mock.go", '''		latency      time.Duration
''', '''		latency      time.Duration
		pending      func()
''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a"}, 2)
	m.Start()
	m.RequestStop()
	m.WaitForTermination()
	m.SimplePost("a", 2, nil, []byte("x"))
	m.SimplePost("a", 2, nil, []byte("y"))
	m.Start()
	c := demoDial(t)
	if _, _, off := demoList(t, c, "a", 2, -1); off != 2 {
		t.Fatal(off)
	}
''' + END)

SEEDS["c13-grown-topic"] = dict(
    property="C13",
    needs="a partition created in a topic after a sync has seen the topic",
    breaks="later syncs leave it out: the partitions of a topic are remembered",
    edits=[("sync_group.go", '''		topic.mu.Lock()
		pars := make([]int32, 0, len(topic.Partitions))
		for _, par := range topic.Partitions {
			pars = append(pars, par.Index)
		}
		topic.mu.Unlock()
''', '''		topic.mu.Lock()
		if topic.indexes == nil || len(topic.indexes) > len(topic.Partitions) {
			for _, par := range topic.Partitions {
				topic.indexes = append(topic.indexes, par.Index)
			}
		}
		pars := topic.indexes
		topic.mu.Unlock()
'''), ("datastore.go", '''		Partitions map[int32]*kafkaPartition
	}
''', '''		Partitions map[int32]*kafkaPartition
		indexes    []int32
	}
''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a"}, 2)
	m.Start()
	c := demoDial(t)
	size := func() int {
		return len(demoAsk(t, c, 14, 0, (&demoBuf{}).str("g").i32(0).str("m").i32(0).b).b)
	}
	n := size()
	m.CreatePartitionTopics([]string{"a"}, 3)
	if k := size(); k != n+4 {
		t.Fatal(n, k)
	}
''' + END)
