T = 'package %s\n\nimport (\n%s)\n\n'
def hdr(pkg, *imps): return T % (pkg, ''.join('\t"%s"\n' % i for i in imps))

seed('b01_encode_array_size', 'C01', 'an array of exactly 65535 elements', 'the encoder writes a five byte header while the size has three',
 [('go/msgpack/encoder.go', '''		e.reader.SetUint8(uint8(length) | FormatFixArray)
	} else if length <= math.MaxUint16 {''', '''		e.reader.SetUint8(uint8(length) | FormatFixArray)
	} else if length < math.MaxUint16 {''')],
 'msgpack', hdr('msgpack','testing') + '''func TestDemo(t *testing.T) {
	v := make([]bool, 65535)
	var s Sizer
	s.WriteAny(v)
	buf := make([]byte, 70000)
	e := NewEncoder(buf)
	e.WriteAny(v)
	if s.Len() != 70000-uint32(e.reader.remaining()) {
		t.Fatal(s.Len())
	}
}
''')
seed('b02_sizer_str8', 'C01', 'a string of exactly 255 bytes', 'the size of a 255 byte string is one too many',
 [('go/msgpack/sizer.go', '''	} else if length <= math.MaxUint8 {
		s.length += 2
	} else if length <= math.MaxUint16 {
		s.length += 3
	} else {
		s.length += 5
	}
}

func (s *Sizer) WriteTime''', '''	} else if length < math.MaxUint8 {
		s.length += 2
	} else if length <= math.MaxUint16 {
		s.length += 3
	} else {
		s.length += 5
	}
}

func (s *Sizer) WriteTime''')],
 'msgpack', hdr('msgpack','testing','strings') + '''func TestDemo(t *testing.T) {
	for n := 250; n < 260; n++ {
		v := strings.Repeat("x", n)
		var s Sizer
		s.WriteString(v)
		e := NewEncoder(make([]byte, 300))
		e.WriteString(v)
		used := 300 - e.reader.remaining()
		if int(s.Len()) != int(used) {
			t.Fatal(n, s.Len(), used)
		}
	}
}
''')
seed('b03_time_nanos_shift', 'C02', 'a time with nanoseconds and seconds of 2^32 or more but below 2^34', 'times between 2106 and 2514 come back with other nanoseconds',
 [('go/msgpack/decoder.go', 'sec &= 0x00000003ffffffff', 'sec &= 0x00000001ffffffff')],
 'msgpack', hdr('msgpack','testing','time') + '''func TestDemo(t *testing.T) {
	for _, sec := range []int64{0, 1, 1 << 31, 1<<33 + 5, 1<<34 - 1, 1 << 34} {
		v := time.Unix(sec, 123456789)
		buf := make([]byte, 32)
		e := NewEncoder(buf)
		e.WriteTime(v)
		d := NewDecoder(buf)
		got, err := d.ReadTime()
		if err != nil || !got.Equal(v) {
			t.Fatal(sec, got, v, err)
		}
	}
}
''')
seed('b04_read_int16_bound', 'C04', 'an int32 encoding of a value between -65536 and -32769 read as int16', 'the value is truncated instead of refused',
 [('go/msgpack/decoder.go', 'v <= math.MaxInt16 && v >= math.MinInt16', 'v <= math.MaxInt16 && v >= -math.MaxUint16')],
 'msgpack', hdr('msgpack','testing') + '''func TestDemo(t *testing.T) {
	buf := make([]byte, 16)
	e := NewEncoder(buf)
	e.WriteInt64(-40000)
	d := NewDecoder(buf)
	if v, err := d.ReadInt16(); err == nil {
		t.Fatal(v)
	}
}
''')
seed('b05_request_complete_flag', 'C05', 'a request channel frame that is not complete, with metadata', 'the complete flag is written for channels when there is metadata',
 [('go/internal/frames/request_payload.go', 'if f.FrameType == FrameTypeRequestChannel && f.Complete {', 'if f.FrameType == FrameTypeRequestChannel && (f.Complete || metadataLen > 0 && !f.Follows) {')],
 'internal/frames', hdr('frames','testing') + '''func TestDemo(t *testing.T) {
	f := RequestPayload{FrameType: FrameTypeRequestChannel, StreamID: 1, Metadata: []byte{1}, InitialN: 1}
	buf := make([]byte, f.Size())
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var g RequestPayload
	if err := g.Decode(&h, buf[FrameHeaderLen:]); err != nil || g.Complete {
		t.Fatal(g, err)
	}
}
''')
seed('b06_fragment_last_next', 'C07', 'a fragmented payload whose metadata fills the last fragment exactly and which has no data', 'the last fragment keeps announcing that more follow',
 [('go/internal/frames/util.go', 'if lenMd > space {', 'if lenMd >= space && lenMd > 3 {'),
  ('go/internal/frames/util.go', 'follows := nonDataSize+lenMd+lenData > maxFrameSize', 'follows := nonDataSize+lenMd+lenData >= maxFrameSize && lenMd != 3')],
 'internal/frames', hdr('frames','testing') + '''func TestDemo(t *testing.T) {
	p := Payload{StreamID: 1, Metadata: make([]byte, 2*(32-9)), Complete: true, Next: true}
	fs := p.Fragment(32)
	for i, f := range fs {
		pl := f.(*Payload)
		if pl.Follows != (i < len(fs)-1) || pl.Complete != (i == len(fs)-1) {
			t.Fatal(i, len(fs), pl)
		}
	}
}
''')
seed('b07_server_stream_mask', 'C08', 'the 2^30-th request of the accepting side', 'an identifier of 32 bits is handed out',
 [('go/internal/socket/stream_id.go', '''	v := 2*(seed-1) + 1
	if v != 0 {
		return uint32(_maskStreamID & v), seed <= _halfSeed
	}''', '''	v := 2*(seed-1) + 1
	if v&_maskStreamID != 0 {
		return uint32(v), seed <= _halfSeed
	}''')],
 'internal/socket', hdr('socket','testing') + '''func TestDemo(t *testing.T) {
	c := ClientStreamIDs(0x40000000 - 1)
	for i := 0; i < 4; i++ {
		if id, _ := c.Next(); id == 0 || id>>31 != 0 || id%2 != 1 {
			t.Fatal(id)
		}
	}
}
''')
seed('b08_import_name_only', 'C12', 'two imported streams of the same name in different namespaces, the second imported last', 'the operation of another namespace is called',
 [('go/invoke/handlers.go', '''	for i, op := range requestStreamImports {
		if op.Namespace == namespace && op.Operation == operation {''', '''	for i, op := range requestStreamImports {
		if op.Namespace+"/"+op.Operation == namespace+"/"+operation {''')],
 'invoke', hdr('invoke','testing') + '''func TestDemo(t *testing.T) {
	a := ImportRequestStream("a/b", "c")
	b := ImportRequestStream("a", "b/c")
	if a == b {
		t.Fatal(a, b)
	}
}
''')
seed('b09_table_reserved', 'C13', 'a table whose reserved fields are not empty', 'reserved fields are not skipped and the next operation is read from them',
 [('go/operations/operatons.go', '''		nsLen := binary.BigEndian.Uint16(buf[6:8])
''', '''		nsLen := binary.BigEndian.Uint16(buf[6:8]) & 0x7fff
''')],
 'operations', hdr('operations','testing','strings') + '''func TestDemo(t *testing.T) {
	tab := Table{{Type: RequestStream, Direction: Import, Index: 7, Namespace: strings.Repeat("n", 40000), Operation: "x"}}
	got, err := FromBytes(tab.ToBytes())
	if err != nil || len(got) != 1 || got[0] != tab[0] {
		t.Fatal(err)
	}
}
''')
seed('b10_unbounded_load', 'C18', 'a Put while the channel was just drained but the backlog is not empty', 'a later value overtakes those waiting in the backlog',
 [('go/internal/buffer/unbounded.go', '	if len(b.backlog) == 0 {\n		select {', '	if len(b.c) == 0 {\n		select {')],
 'internal/buffer', hdr('buffer','testing') + '''func TestDemo(t *testing.T) {
	b := NewUnbounded[int]()
	b.Put(1)
	b.Put(2)
	if v := <-b.Get(); v != 1 {
		t.Fatal(v)
	}
	b.Put(3)
	for want := 2; want <= 3; want++ {
		b.Load()
		if v := <-b.Get(); v != want {
			t.Fatal(v, want)
		}
	}
}
''')
seed('b11_live_remove', 'C21', 'removing a handle while another instance is registered', 'removing an instance twice reports success', 
 [('go/invoke/instances.go', '''	if _, ok = t.instances[ptr]; ok {
		inst = ptr.Ptr
		delete(t.instances, ptr)
	}''', '''	if _, ok = t.instances[ptr]; !ok {
		return
	}
	inst = ptr.Ptr
	if len(t.instances) > 1 {
		delete(t.instances, ptr)
	} else {
		ptr.Ptr = *new(T)
	}''')],
 'invoke', hdr('invoke','testing') + '''func TestDemo(t *testing.T) {
	l := NewLiveInstances[int]()
	h := l.Put(1)
	l.Remove(h)
	if _, ok := l.Get(h); ok {
		t.Fatal("still live")
	}
}
''')
seed('b12_nillable_parse', 'C27', 'an optional value given together with a decode error', 'a value that failed to decode is parsed and the decode error is lost',
 [('go/msgpack/convert/convert.go', '''		if decodeErr != nil || value == nil {
			return val, decodeErr''', '''		if value == nil {
			return val, decodeErr''')],
 'msgpack/convert', hdr('convert','testing','strconv','errors') + '''func TestDemo(t *testing.T) {
	s := "12"
	v, err := NillableParse(strconv.Atoi)(&s, errors.New("truncated"))
	if v != nil || err == nil {
		t.Fatal(v, err)
	}
}
''')
seed('b13_portio_length', 'C28', 'a port name longer than 255 bytes', 'the high byte of the length is lost',
 [('go/invoke/portio.go', 'port := string(data[:portLength])', 'port := string(data[:portLength&0x3fff])')],
 'invoke', hdr('invoke','testing','strings') + '''func TestDemo(t *testing.T) {
	p := PortIO{Port: strings.Repeat("p", 20000), Data: []byte{1}}
	var q PortIO
	if err := q.Decode(p.Encode()); err != nil || q.Port != p.Port || len(q.Data) != 1 {
		t.Fatal(err, len(q.Port))
	}
}
''')
seed('b14_u24_error', 'C29', 'a length of 2^24 or more', 'a frame header with the truncated length is written',
 [('go/internal/u24/u24.go', '''	v, err := NewUint24(n)
	if err != nil {
		return err
	}
	_, err = w.Write(v[:])
	return err''', '''	v, err := NewUint24(n)
	if _, werr := w.Write(v[:]); werr != nil {
		return werr
	}
	return err''')],
 'internal/u24', hdr('u24','testing','bytes') + '''func TestDemo(t *testing.T) {
	var b bytes.Buffer
	if err := WriteUint24(&b, 1<<24); err == nil || b.Len() != 0 {
		t.Fatal(err, b.Len())
	}
}
''')
seed('b15_uuid_xvalues', 'C20', 'an upper case hexadecimal digit G (not a digit)', 'a text with a character that is no hexadecimal digit is accepted',
 [('go/types/uuid/util.go', '''	255, 10, 11, 12, 13, 14, 15, 255, 255, 255, 255, 255, 255, 255, 255, 255,
	255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
	255, 10,''', '''	255, 10, 11, 12, 13, 14, 15, 16, 255, 255, 255, 255, 255, 255, 255, 255,
	255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
	255, 10,''')],
 'types/uuid', hdr('uuid','testing') + '''func TestDemo(t *testing.T) {
	if u, err := Parse("0000000G-0000-4000-8000-000000000000"); err == nil {
		t.Fatal(u)
	}
}
''')
seed('b16_uuid_pool', 'C20', 'the randomness pool enabled and a reader that fails', 'the pool stays locked and the next request hangs',
 [('go/types/uuid/version4.go', '''		if err != nil {
			poolMu.Unlock()
			return UUID{}, err
		}
		poolPos = 0''', '''		if err != nil {
			return UUID{}, err
		}
		poolPos = 0''')],
 'types/uuid', hdr('uuid','testing','errors','time') + '''type bad struct{}

func (bad) Read([]byte) (int, error) { return 0, errors.New("no entropy") }

func TestDemo(t *testing.T) {
	EnableRandPool()
	SetRand(bad{})
	poolPos = randPoolSize
	if _, err := NewRandom(); err == nil {
		t.Fatal("no error")
	}
	done := make(chan bool)
	go func() { NewRandom(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("hangs")
	}
}
''')
seed('b17_frame_decode_min', 'C06', 'a request frame with metadata of 2^23 bytes or more announced', 'the sign of the length is not considered and decoding panics',
 [('go/internal/frames/error.go', '	data := string(payload[4:])\n', '	data := string(payload[4+int(header.Flag()>>9):])\n')],
 'internal/frames', hdr('frames','testing') + '''func TestDemo(t *testing.T) {
	h := NewFrameHeader(1, FrameTypeError, 0x200)
	var e Error
	e.Decode(&h, []byte{0, 0, 0, 1})
}
''')
seed('b18_decode_map_alloc', 'C03', 'a map header announcing billions of entries', 'memory is allocated for the announced entries',
 [('go/msgpack/decoder.go', '@', '@')], 'msgpack', '') if False else None
