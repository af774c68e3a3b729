T = 'package %s\n\nimport (\n%s)\n\n'
def hdr(pkg, *imps): return T % (pkg, ''.join('\t"%s"\n' % i for i in imps))
R = 'github.com/nanobus/iota/go/'

seed('c01_scanner_max', 'C17', 'a frame within three bytes of the largest one', 'the largest frames are refused by the receiver',
 [('go/transport/rsocket/decoder.go', '	maxBuffSize     = 16*1024*1024 + lengthFieldSize', '	maxBuffSize     = 16 * 1024 * 1024')],
 'transport/rsocket', hdr('rsocket','testing','bytes') + '''func TestDemo(t *testing.T) {
	b := make([]byte, 3+1<<24-1)
	b[0], b[1], b[2] = 255, 255, 255
	raw, err := NewLengthBasedFrameDecoder(bytes.NewReader(b)).Read()
	if err != nil || len(raw) != 1<<24-1 {
		t.Fatal(err, len(raw))
	}
}
''')
seed('c02_split_empty', 'C17', 'an empty frame between others', 'an empty frame is not refused as one of no length',
 [('go/transport/rsocket/decoder.go', '''	if frameLength < 1 {
		err = ErrInvalidFrameLength
		return
	}''', '''	if frameLength < 0 {
		err = ErrInvalidFrameLength
		return
	}'''),
  ('go/transport/rsocket/decoder.go', '''	if len(raw) < frames.FrameHeaderLen {
		err = ErrIncompleteHeader
	}''', '''	if len(raw) > 0 && len(raw) < frames.FrameHeaderLen {
		err = ErrIncompleteHeader
	}''')],
 'transport/rsocket', hdr('rsocket','testing','bytes') + '''func TestDemo(t *testing.T) {
	if raw, err := NewLengthBasedFrameDecoder(bytes.NewReader([]byte{0, 0, 0, 0, 0, 1, 1})).Read(); err == nil {
		t.Fatal(raw)
	}
}
''')
seed('c03_lookup_middle', 'C09', 'three streams of which the middle and then the last one are removed', 'the stream added next is lost',
 [('go/proxy/lookup.go', '''	if nextNode != nil {
		nextNode.prev = nodeToDelete.prev''', '''	if nextNode != nil {
		nextNode.prev = l.head''')],
 'proxy', hdr('proxy','testing',R+'internal/frames') + '''func TestDemo(t *testing.T) {
	var l Lookup
	at := func(id uint32) *streamFlux { return &streamFlux{request: frames.RequestPayload{StreamID: id}} }
	for i := uint32(1); i < 5; i++ {
		l.Add(at(i))
	}
	l.Remove(3)
	l.Remove(4)
	l.Add(at(5))
	for _, i := range []uint32{1, 2, 5} {
		if _, ok := l.Get(i); !ok {
			t.Fatal(i)
		}
	}
}
''')
seed('c04_unbounded_overtake', 'C18', 'a value put while one is in the backlog and the channel was just read', 'a value overtakes an older one',
 [('go/internal/buffer/unbounded.go', '	if len(b.backlog) == 0 {\n		select {', '	if len(b.backlog) < 2 {\n		select {')],
 'internal/buffer', hdr('buffer','testing') + '''func TestDemo(t *testing.T) {
	b := NewUnbounded[int]()
	b.Put(1)
	b.Put(2)
	<-b.Get()
	b.Put(3)
	b.Load()
	if v := <-b.Get(); v != 2 {
		t.Fatal(v)
	}
}
''')
seed('c06_flow_completed', 'C24', 'a step that waits for two results after one that waited for one', 'a step starts before all results of the one before it ended',
 [('go/rx/flow/flow.go', '	f.completed = 0\n', ''), ('go/rx/flow/flow.go', '	step := f.steps[0]\n	awaitables, err := step()', '	step := f.steps[0]\n	if len(f.awaitables) > 1 {\n		f.completed = 0\n	}\n	awaitables, err := step()')],
 'rx/flow', hdr('flow','testing',R+'rx',R+'rx/await',R+'rx/flux') + '''type aw struct{ fn rx.FnFinally }

func (a *aw) Async()                 {}
func (a *aw) Notify(fn rx.FnFinally) { a.fn = fn }

func TestDemo(t *testing.T) {
	a, b, c := &aw{}, &aw{}, &aw{}
	f := New[int]()
	third := false
	f.Steps(
		func() (await.Group, error) { return await.Group{a}, nil },
		func() (await.Group, error) { return await.Group{b, c}, nil },
		func() (await.Group, error) { third = true; return f.Complete() })
	f.Flux().Subscribe(flux.Subscribe[int]{})
	a.fn(0)
	b.fn(0)
	if third {
		t.Fatal("the third step ran before the second ended")
	}
	c.fn(0)
	if !third {
		t.Fatal("the third step did not run")
	}
}
''')
seed('c07_tcp_flush', 'C16', 'two frames that are written and not flushed one by one', 'the error of a flush is lost',
 [('go/transport/rsocket/tcp_conn.go', '''	err = p.writer.Flush()
	if err != nil {
		err = fmt.Errorf("flush failed: %w", err)
	}
	return
''', '''	if err = p.writer.Flush(); err != nil && p.writer.Buffered() > 0 {
		err = fmt.Errorf("flush failed: %w", err)
		p.writer.Reset(p.conn)
		return nil
	}
	return
''')],
 'transport/rsocket', hdr('rsocket','testing','net',R+'internal/frames') + '''func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	b.Close()
	c := NewTCPConn(a)
	c.Write(&frames.Cancel{StreamID: 1})
	if c.Flush() == nil {
		t.Fatal("no error")
	}
}
''')
seed('c08_transport_eof', 'C25', 'a connection that fails with frames waiting', 'a failed connection is reported like one that ended',
 [('go/transport/rsocket/transport.go', '''			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
''', '''			if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) {
				return nil
			}
			if err != nil {
				return err
			}
''')],
 'transport/rsocket', hdr('rsocket','testing','context','fmt','io',R+'internal/frames') + '''type conn struct{ Conn }

func (conn) Read() (frames.Frame, error) { return nil, fmt.Errorf("read: %w", io.ErrUnexpectedEOF) }
func (conn) Close() error                { return nil }

type none struct{}

func (none) SetFrameSender(FrameHandler)    {}
func (none) HandleFrame(frames.Frame) error { return nil }

func TestDemo(t *testing.T) {
	if NewTransport(conn{}, none{}).Start(context.Background()) == nil {
		t.Fatal("no error")
	}
}
''')
seed('c09_listen_close', 'C25', 'a server that is closed while it listens', 'connections stay open when the server closes',
 [('go/transport/rsocket/tcp_transport.go', '''		err = t.l.Close()
		for k := range t.m {
			_ = k.Close()
		}
		t.m = nil''', '''		if err = t.l.Close(); err != nil {
			break
		}
		for k := range t.m {
			_ = k.Close()
		}
		t.m = nil''')],
 'transport/rsocket', hdr('rsocket','testing','net','errors','context',R+'internal/frames') + '''type lis struct{ net.Listener }

func (lis) Close() error { return errors.New("failed") }

type conn struct {
	Conn
	closed *bool
}

func (c conn) Close() error { *c.closed = true; return nil }

type none struct{}

func (none) SetFrameSender(FrameHandler)    {}
func (none) HandleFrame(frames.Frame) error { return nil }

func TestDemo(t *testing.T) {
	s := NewTCPServerTransport(func(context.Context) (net.Listener, error) { return lis{}, nil }, nil).(*tcpServerTransport)
	s.setListener(lis{})
	closed := false
	s.putTransport(NewTransport(conn{closed: &closed}, none{}))
	s.Close()
	if !closed {
		t.Fatal("a connection stays open")
	}
}
''')
seed('c10_transform_uint64', 'C19', 'an int above 2^63', 'a number that does not fit is decoded as another one',
 [('go/transform/transform.go', '''	val, err := decoder.ReadUint64()
		return uint(val), err''', '''	val, err := decoder.ReadInt64()
		return uint(val), err''')],
 'transform', hdr('transform','testing') + '''func TestDemo(t *testing.T) {
	for _, v := range []uint{0, 1, 127, 128, 1 << 40, 1<<63 + 5} {
		p, err := Uint.Encode(v)
		if err != nil {
			t.Fatal(err)
		}
		if w, err := Uint.Decode(p); err != nil || w != v {
			t.Fatal(w, err)
		}
	}
}
''')
seed('c14_custom_skip', 'C31', 'a custom section that is not asked for, before one that is', 'sections behind one that was not asked for are not found',
 [('go/transport/wasmrs/customsections/customsections.go', '''		if _, ok := wantedNames[name]; ok {
				custom,''', '''		if _, ok := wantedNames[name]; ok && limit > 0 {
				custom,''')],
 'transport/wasmrs/customsections', hdr('customsections','testing') + '''func TestDemo(t *testing.T) {
	m, err := Read([]byte("\\x00asm\\x01\\x00\\x00\\x00\\x00\\x05\\x04apex"), "apex")
	if err != nil || m["apex"] == nil {
		t.Fatal(m, err)
	}
}
''')
seed('c15_uuid_time', 'C33', 'an identifier of version 1 with the highest bits of its time set', 'four bits of the time are lost',
 [('go/types/uuid/time.go', '	time |= int64(binary.BigEndian.Uint16(uuid[6:8])&0xfff) << 48', '	time |= int64(binary.BigEndian.Uint16(uuid[6:8])&0x7ff) << 48')],
 'types/uuid', hdr('uuid','testing') + '''func TestDemo(t *testing.T) {
	u := MustParse("00000000-0000-1fff-8000-000000000000")
	if u.Time() != 0xfff<<48 {
		t.Fatal(u.Time())
	}
}
''')
seed('c16_uuid_clock_back', 'C33', 'a clock that stands still', 'the clock sequence is not changed and a reading comes twice',
 [('go/types/uuid/time.go', '	if now <= lasttime {', '	if now < lasttime {')],
 'types/uuid', hdr('uuid','testing','time') + '''func TestDemo(t *testing.T) {
	at := time.Now()
	timeNow = func() time.Time { return at }
	defer func() { timeNow = time.Now }()
	a, b, _ := GetTime()
	c, d, _ := GetTime()
	if a == c && b == d {
		t.Fatal("twice")
	}
}
''')
