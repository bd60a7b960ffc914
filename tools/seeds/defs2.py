HEAD = '''package kafkamock_test

import (
%s)

'''


def H(*imps):
    return HEAD % "".join('\t"%s"\n' % x for x in imps)


SEEDS = {}

SEEDS["c01-held-slices"] = dict(
    property="C01",
    needs="a record whose value is empty but not null",
    breaks="it is delivered with a null value",
    edits=[("datastore.go", '''	record := &kafkaRecord{
		Attributes: attribs,
''', '''	if len(value) == 0 {
		value = nil
	}

	record := &kafkaRecord{
		Attributes: attribs,
''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.SimplePost("a", 2, []byte("k"), []byte{})
	c := demoDial(t)
	a := demoFetch(t, c, 0, demoTarget{"a", 2, 0, 1 << 20})
	if a[0].recs[0].val == nil {
		t.Fatal("null")
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c02-topic-read-first"] = dict(
    property="C02",
    needs="two calls that are the first to name a topic, both past the look before either has inserted",
    breaks="one of them creates its partition in a topic that is replaced: a completed post is lost",
    edits=[("datastore.go", '''	ds.mu.Lock()
	defer ds.mu.Unlock()

	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.Topics[name] = topic
	}
	return topic
''', '''	topic := ds.getTopic(name)
	if topic == nil {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.mu.Lock()
		ds.Topics[name] = topic
		ds.mu.Unlock()
	}
	return topic
''')],
    demo=H("fmt", "sync", "testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	for r := 0; r < 6000; r++ {
		var wg sync.WaitGroup
		begin := make(chan struct{})
		topic := fmt.Sprintf("t%d", r)
		for p := 0; p < 8; p++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				m.SimplePost(topic, 0, nil, []byte("x"))
			}()
		}
		close(begin)
		wg.Wait()
		if a := demoFetch(t, c, 0, demoTarget{topic, 0, 0, 1 << 20}); len(a[0].recs) != 8 {
			t.Fatalf("round %d: %d records", r, len(a[0].recs))
		}
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c03-shared-state"] = dict(
    property="C03",
    needs="a fetch that names the same partition twice, at different offsets or with different limits",
    breaks="the second mention is answered with what the first one asked for",
    edits=[("fetch.go", '''	fds := []*fetchData{}
	for _, topic := range request.Topics {
''', '''	fds := []*fetchData{}
	byPartition := map[*kafkaPartition]*fetchData{}
	for _, topic := range request.Topics {
'''), ("fetch.go", '''			fds = append(fds, fd)
''', '''			if kp != nil && fd.kp != nil {
				// scan each partition once
				if known := byPartition[kp]; known != nil {
					fd = known
				} else {
					byPartition[kp] = fd
				}
			}
			fds = append(fds, fd)
''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	for i := 0; i < 5; i++ {
		m.SimplePost("a", 2, nil, []byte{byte(i)})
	}
	c := demoDial(t)
	a := demoFetch(t, c, 0, demoTarget{"a", 2, 0, 1 << 20}, demoTarget{"a", 2, 3, 1 << 20})
	if len(a[0].recs) != 5 || len(a[1].recs) != 2 || a[1].recs[0].off != 3 {
		t.Fatal(len(a[0].recs), len(a[1].recs))
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c04-first-exempt"] = dict(
    property="C04",
    needs="a partition limit smaller than the next record",
    breaks="the record is returned all the same, beyond the limit",
    edits=[("encoder.go", "	if newSize > maxSize {\n		return false\n	}\n\n	msv1.totalSize", "	if newSize > maxSize && len(msv1.msgs) > 0 {\n		return false\n	}\n\n	msv1.totalSize")],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.SimplePost("a", 2, nil, make([]byte, 100))
	c := demoDial(t)
	a := demoFetch(t, c, 0, demoTarget{"a", 2, 0, 50})
	if len(a[0].recs) != 0 {
		t.Fatal("over the limit")
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c05-min-bytes-zero"] = dict(
    property="C05",
    needs="a fetch with a minimum of 0 bytes",
    breaks="it is answered at once instead of being held",
    edits=[("fetch.go", '''	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)
''', '''	expiration := time.Now()
	if request.MinBytes > 0 {
		expiration = expiration.Add(time.Duration(request.MaxWaitMs) * time.Millisecond)
	}
''')],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a"}, 2)
	m.Start()
	c := demoDial(t)
	b := (&demoBuf{}).i32(-1).i32(700).i32(0).i32(1).str("a").i32(1).i32(2).i64(0).i32(1 << 20)
	begin := time.Now()
	demoAsk(t, c, 1, 2, b.b)
	if time.Since(begin) < 650*time.Millisecond {
		t.Fatal(time.Since(begin))
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c07-within-the-log"] = dict(
    property="C07",
    needs="an offset set beyond the end of the partition's log",
    breaks="the end of the log is stored instead",
    edits=[("kafka-mock.go", '''			kp.GroupCommittedOffsets[group] = offset
''', '''			if end := int64(len(kp.Records)); offset > end && end > 0 {
				offset = end
			}
			kp.GroupCommittedOffsets[group] = offset
''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.SimplePost("a", 2, nil, []byte("x"))
	m.SetConsumerGroupOffset("a", 2, "g", 7)
	m.Start()
	c := demoDial(t)
	if o := demoOffset(t, c, "g", "a", 2); o != 7 {
		t.Fatal(o)
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c08-cloned-store"] = dict(
    property="C08",
    needs="a post, or a setting of an offset, on a partition obtained before the restart copied the store and used after it",
    breaks="a post that overlaps a restart can be lost: it goes to the log that was copied",
    edits=[("kafka-mock.go", '''	km.RequestStop()
	km.WaitForTermination()
	km.Start()
''', '''	km.RequestStop()
	km.WaitForTermination()
	km.ds = km.ds.clone() // let go of what the old server held
	km.Start()
'''), ("datastore.go", '''func (ds *kafkaDataStore) createTopic(''', '''func (ds *kafkaDataStore) clone() *kafkaDataStore {
	ds.mu.Lock()
	defer ds.mu.Unlock()

	c := newKafkaDataStore()
	for name, kt := range ds.Topics {
		kt.mu.Lock()
		t := &kafkaTopic{Partitions: map[int32]*kafkaPartition{}}
		for n, kp := range kt.Partitions {
			kp.lock()
			p := &kafkaPartition{Index: kp.Index, Records: append([]*kafkaRecord{}, kp.Records...), GroupCommittedOffsets: map[string]int64{}}
			for g, o := range kp.GroupCommittedOffsets {
				p.GroupCommittedOffsets[g] = o
			}
			kp.unlock()
			t.Partitions[n] = p
		}
		kt.mu.Unlock()
		c.Topics[name] = t
	}
	return c
}

func (ds *kafkaDataStore) createTopic(''')],
    demo=H("fmt", "sync", "sync/atomic", "testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	for r := 0; r < 40; r++ {
		var n [8]atomic.Int64
		var stop atomic.Bool
		var wg sync.WaitGroup
		topic := fmt.Sprintf("t%d", r)
		for p := 0; p < 8; p++ {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stop.Load() && n[p].Load() < 30000 {
					m.SimplePost(topic, p, nil, nil)
					n[p].Add(1)
				}
			}()
		}
		m.Restart()
		stop.Store(true)
		wg.Wait()
		c := demoDial(t)
		for p := 0; p < 8; p++ {
			if n[p].Load() == 0 {
				continue
			}
			if _, _, off := demoList(t, c, topic, int32(p), -1); off != n[p].Load() {
				t.Fatalf("round %d: %d of %d", r, off, n[p].Load())
			}
		}
		c.Close()
	}
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c10-kept-partition"] = dict(
    property="C10",
    needs="a listing or commit that names a missing topic after an existing one",
    breaks="the missing topic is answered with the previous one's partition, and without error",
    edits=[("list_offsets.go", '''	for _, t := range request.Topics {
		kt := kc.ds.getTopic(t.Name)
''', '''	var kp *kafkaPartition
	for _, t := range request.Topics {
		kt := kc.ds.getTopic(t.Name)
'''), ("list_offsets.go", '''			var kp *kafkaPartition
			if kt != nil {
''', '''			if kt != nil {
''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.SimplePost("a", 2, nil, []byte("x"))
	m.Start()
	c := demoDial(t)
	b := (&demoBuf{}).i32(-1).i32(2).str("a").i32(1).i32(2).i64(-1).str("b").i32(1).i32(2).i64(-1)
	in := demoAsk(t, c, 2, 1, b.b)
	in.i32()
	in.str()
	in.i32()
	in.take(4 + 2 + 8 + 8)
	in.str()
	in.i32()
	in.i32()
	if e := in.i16(); e != 3 {
		t.Fatal(e)
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c13-reused-slice"] = dict(
    property="C13",
    needs="two topics with different partitions",
    breaks="a topic is assigned another topic's partitions",
    edits=[("sync_group.go", '''	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
''', '''	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
	pars := make([]int32, 0, 16)
'''), ("sync_group.go", '''		pars := make([]int32, 0, len(topic.Partitions))
''', '''		pars = pars[:0]
''')],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a"}, 1)
	m.CreatePartitionTopics([]string{"b"}, 2)
	m.Start()
	c := demoDial(t)
	in := demoAsk(t, c, 14, 0, (&demoBuf{}).str("g").i32(1).str("m").i32(0).b)
	in.i16()
	in.i32()
	in.i16()
	for n := in.i32(); n > 0; n-- {
		s := in.str()
		in.i32()
		if p := in.i32(); p != map[string]int32{"a": 1, "b": 2}[s] {
			t.Fatal(s, p)
		}
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c16-busy-client"] = dict(
    property="C16",
    needs="a client that keeps sending requests when finishing is requested",
    breaks="the client is served for as long as it keeps sending",
    edits=[("kafka-client.go", '''			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}

''', ''''''), ("kafka-client.go", '''				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
''', '''				if errors.Is(err, os.ErrDeadlineExceeded) {
					select {
					case <-kc.l.Done():
						// don't accept more requests
						kc.conn.Close()
						return
					default:
						// keep going
					}
					continue
				}
''')],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	demoAsk(t, c, 18, 0, nil)
	m.FinishRequests()
	for end := time.Now().Add(15 * time.Second); ; {
		if _, err := c.Write(demoFrame(18, 0, nil)); err != nil {
			break
		}
		demoRead(t, c, 20*time.Millisecond)
		if time.Now().After(end) {
			t.Fatal("still served")
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c17-reset-while-reading"] = dict(
    property="C17",
    needs="a client that resets its connection while the server is waiting for a request",
    breaks="the server crashes",
    edits=[("net-utils.go", "if errno == syscall.ECONNRESET {", "if errno == syscall.EPIPE {")],
    demo=H("net", "testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	demoAsk(t, c, 18, 0, nil)
	c.(*net.TCPConn).SetLinger(0)
	c.Close()
	time.Sleep(300 * time.Millisecond)
	d := demoDial(t)
	demoAsk(t, d, 18, 0, nil)
	d.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c18-unlocked-offsets"] = dict(
    property="C18",
    needs="an offset-fetch and a commit, or two offset-fetches of new groups, on one partition at the same time",
    breaks="unsynchronised access to the map of offsets: a data race that can crash the process",
    race=True,
    edits=[("datastore.go", '''	kp.mu.Lock()
	defer kp.mu.Unlock()

	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.GroupCommittedOffsets[group] = 0
	}
	return offset
''', '''	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.mu.Lock()
		defer kp.mu.Unlock()
		kp.GroupCommittedOffsets[group] = 0
	}
	return offset
''')],
    demo=H("fmt", "sync", "testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.CreatePartitionTopics([]string{"a"}, 2)
	m.Start()
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		k, c := k, demoDial(t)
		wg.Add(1)
		go func() {
			defer wg.Done()
			corr := int32(0)
			for i := 0; i < 300; i++ {
				corr++
				b := (&demoBuf{}).i16(9).i16(1).i32(corr).str("demo").str(fmt.Sprintf("g%d-%d", k, i)).i32(1).str("a").i32(1).i32(2)
				c.Write(append((&demoBuf{}).i32(int32(len(b.b))).b, b.b...))
				demoRead(t, c, 10e9)
			}
			c.Close()
		}()
	}
	for i := 0; i < 3000; i++ {
		m.SetConsumerGroupOffset("a", 2, fmt.Sprintf("s%d", i), 1)
	}
	wg.Wait()
	m.RequestStop()
	m.WaitForTermination()
}
''')
