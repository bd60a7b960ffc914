HEAD = '''package kafkamock_test

import (
%s)

'''


def H(*imps):
    return HEAD % "".join('\t"%s"\n' % x for x in imps)


SEEDS = {}

SEEDS["c01-rounded-timestamp"] = dict(
    property="C01",
    needs="a record posted with a timestamp that has half a millisecond or more beyond the millisecond",
    breaks="the delivered timestamp is one millisecond later than the one posted",
    edits=[("datastore.go", "Timestamp:  ts.UnixMilli(),", "Timestamp:  ts.Round(time.Millisecond).UnixMilli(),")],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.ExtendedPost("a", 2, nil, []byte("x"), nil, time.UnixMilli(1700000000123).Add(800*time.Microsecond))
	c := demoDial(t)
	a := demoFetch(t, c, 0, demoTarget{"a", 2, 0, 1 << 20})
	if a[0].recs[0].ts != 1700000000123 {
		t.Fatal(a[0].recs[0].ts)
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c02-partition-check-then-act"] = dict(
    property="C02",
    needs="two posters whose posts are the first to a partition, both past the check before either has inserted",
    breaks="one of them posts to a partition that is not in the topic: a completed post is lost",
    edits=[("datastore.go", '''	kp.mu.Lock()
	defer kp.mu.Unlock()

	partition, exists := kp.Partitions[number]
	if !exists {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		kp.Partitions[number] = partition
	}
	return partition
''', '''	if partition := kp.getPartition(number); partition != nil {
		return partition
	}

	partition := &kafkaPartition{
		Index:                 number,
		Records:               []*kafkaRecord{},
		GroupCommittedOffsets: map[string]int64{},
	}

	kp.mu.Lock()
	defer kp.mu.Unlock()
	kp.Partitions[number] = partition
	return partition
''')],
    demo=H("fmt", "sync", "testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	const rounds, posters = 4000, 8
	for r := 0; r < rounds; r++ {
		var wg sync.WaitGroup
		go_ := make(chan struct{})
		topic := fmt.Sprintf("t%d", r)
		m.CreatePartitionTopics([]string{topic}, 0)
		for p := 0; p < posters; p++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-go_
				m.SimplePost(topic, 2, nil, []byte("x"))
			}()
		}
		close(go_)
		wg.Wait()
	}
	c := demoDial(t)
	for r := 0; r < rounds; r++ {
		if _, _, off := demoList(t, c, fmt.Sprintf("t%d", r), 2, -1); off != posters {
			t.Fatal(r, off)
		}
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c05-backing-off"] = dict(
    property="C05",
    needs="a fetch that has been waiting for some seconds when the record arrives",
    breaks="the waiting fetch sleeps longer and longer between looks (up to 10 s), so it is answered long after the record has arrived",
    edits=[("fetch.go", "	for {\n		more := false", "	pause := time.Millisecond * 20\n	for {\n		more := false"),
           ("fetch.go", "			time.Sleep(time.Millisecond * 20)", "			time.Sleep(pause)\n			if pause < time.Second*10 {\n				pause += pause / 4\n			}")],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.CreatePartitionTopics([]string{"a"}, 2)
	worst := time.Duration(0)
	for _, wait := range []int{4000, 8000, 14000} {
		c := demoDial(t)
		_, _, off := demoList(t, c, "a", 2, -1)
		c.Write(demoFrame(1, 2, demoFetchBody(60000, demoTarget{"a", 2, off, 1 << 20})))
		time.Sleep(time.Duration(wait) * time.Millisecond)
		t0 := time.Now()
		m.SimplePost("a", 2, nil, []byte("x"))
		if _, err := demoRead(t, c, 60*time.Second); err != nil {
			t.Fatal(err)
		}
		if d := time.Since(t0); d > worst {
			worst = d
		}
		c.Close()
	}
	if worst > 800*time.Millisecond {
		t.Fatal(worst)
	}
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c06-compare-outside-lock"] = dict(
    property="C06",
    needs="two commits of one group to one partition on different connections, the greater one stored between the other's comparison and its store",
    breaks="the smaller commit overwrites the greater one that was answered without error",
    edits=[("offset_commit.go", '''				kp.lock()
				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
				kp.unlock()
''', '''				if kp.groupCommittedOffset(request.GroupId) < par.CommittedOffset {
					kp.lock()
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kp.unlock()
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
''')],
    demo=H("fmt", "sync", "testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.CreatePartitionTopics([]string{"a"}, 2)
	const n = 6
	until := time.Now().Add(90 * time.Second)
	cs := demoConns(t, n)
	for r := 0; time.Now().Before(until); r++ {
		g := fmt.Sprintf("g%d", r)
		var wg sync.WaitGroup
		bodies := [][]byte{}
		for i := 0; i < n; i++ {
			// many partitions' worth of the same one, so that the commits overlap
			b := (&demoBuf{}).str(g).i32(1).str("m").i64(-1).i32(1).str("a").i32(40)
			for k := 0; k < 40; k++ {
				b.i32(2).i64(int64(k*n + i + 1)).i16(-1)
			}
			bodies = append(bodies, demoFrame(8, 2, b.b))
		}
		for i, c := range cs {
			i, c := i, c
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Write(bodies[i])
				if _, err := demoRead(t, c, 20*time.Second); err != nil {
					t.Error(err)
				}
			}()
		}
		wg.Wait()
		if off := demoOffset(t, cs[0], g, "a", 2); off != 40*n {
			t.Fatal(r, off)
		}
		if r > 40000 {
			break
		}
	}
	for _, c := range cs {
		c.Close()
	}
	m.RequestStop()
	m.WaitForTermination()
}

func demoConns(t *testing.T, n int) (out []demoConn) {
	for i := 0; i < n; i++ {
		out = append(out, demoDial(t))
	}
	return
}
''')

SEEDS["c11-short-remainder"] = dict(
    property="C11",
    needs="a network segment that ends within the length prefix of the next request (1 to 3 bytes after a complete request)",
    breaks="the bytes of the next request that came with the previous one are dropped, so the stream is misread",
    edits=[("kafka-client.go", "		kc.inbound = kc.inbound[4+msg.Len():]\n", "		kc.inbound = kc.inbound[4+msg.Len():]\n		if len(kc.inbound) < 4 {\n			kc.inbound = []byte{} // nothing more to process\n		}\n")],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	c := demoDial(t)
	one, two := demoFrame(18, 0, nil), demoFrame(18, 0, nil)
	all := append(append([]byte{}, one...), two...)
	c.Write(all[:len(one)+2])
	time.Sleep(300 * time.Millisecond)
	c.Write(all[len(one)+2:])
	for i := 0; i < 2; i++ {
		if _, err := demoRead(t, c, 5*time.Second); err != nil {
			t.Fatal(err)
		}
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c12-port-sixteen-bits"] = dict(
    property="C12",
    needs="a server that listens on a port above 32767",
    breaks="the broker's port is reported as a negative number",
    edits=[("metadata.go", "Port: int32(kc.serverPort)}", "Port: int32(int16(kc.serverPort))}")],
    demo=H("testing") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	if demoPort <= 32767 {
		t.Fatal("no suitable port")
	}
	m.Start()
	c := demoDial(t)
	in := demoAsk(t, c, 3, 1, (&demoBuf{}).i32(0).b)
	in.i32()
	in.i32()
	in.str()
	if p := in.i32(); p != int32(demoPort) {
		t.Fatal(p)
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c16-finish-drops-pipelined"] = dict(
    property="C16",
    needs="a blocked fetch when finishing is requested",
    breaks="the blocked fetch's connection is closed without the answer to it",
    edits=[("fetch.go", '''			if isClosed {
				break
			}
''', '''			if isClosed {
				kc.conn.Close()
				break
			}
'''), ("kafka-client.go", "if !kc.isConnected() ||", "if !kc.isConnected() || kc.l.Err() != nil ||")],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	m.CreatePartitionTopics([]string{"a"}, 2)
	c := demoDial(t)
	c.Write(demoFrame(1, 2, demoFetchBody(30000, demoTarget{"a", 2, 0, 1 << 20})))
	time.Sleep(time.Second)
	m.FinishRequests()
	if _, err := demoRead(t, c, 10*time.Second); err != nil {
		t.Fatal(err)
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')

SEEDS["c09-bisect"] = dict(
    property="C09",
    needs="records whose timestamps are out of order",
    breaks="the search takes the timestamps to be sorted, so it can miss the first record that is not earlier",
    edits=[("list_offsets.go", '''					for i, msg := range records {
						if msg.Timestamp >= p.Timestamp {
							offset = int64(i)
							ts = msg.Timestamp
							break
						}
					}
''', '''					i := sort.Search(len(records), func(i int) bool { return records[i].Timestamp >= p.Timestamp })
					if i < len(records) {
						offset = int64(i)
						ts = records[i].Timestamp
					}
'''), ("list_offsets.go", '	"bufio"\n', '	"bufio"\n	"sort"\n'), ("list_offsets.go", "slow but this is just a mock", "find the first record at or after the time")],
    demo=H("testing", "time") + '''
func TestDemo(t *testing.T) {
	m := demoMock(t)
	m.Start()
	for _, ts := range []int64{500, 100, 200, 300} {
		m.ExtendedPost("a", 2, nil, []byte("x"), nil, time.UnixMilli(ts))
	}
	c := demoDial(t)
	if _, ts, off := demoList(t, c, "a", 2, 250); off != 0 || ts != 500 {
		t.Fatal(off, ts)
	}
	c.Close()
	m.RequestStop()
	m.WaitForTermination()
}
''')
