T = 'package %s\n\nimport (\n%s)\n\n'
def hdr(pkg, *imps): return T % (pkg, ''.join('\t"%s"\n' % i for i in imps))
R = 'github.com/nanobus/iota/go/'

seed('d01_fnf_context', 'C30', 'a request without a response made by a module on behalf of a request of its host', 'the handler loses the context of the request it serves',
 [('go/transport/wasmrs/host/instance.go', '''			ctx = stream.Context()
		}
	}
	handler := i.getFireAndForgetHandler(operationID)''', '''			ctx = context.WithValue(ctx, instanceKey{}, stream)
		}
	}
	handler := i.getFireAndForgetHandler(operationID)''')],
 'transport/wasmrs/host', hdr('host','testing','context',R+'payload') + '''type demoKey struct{}

func TestDemo(t *testing.T) {
	var i Instance
	var got any
	i.SetFireAndForgetHandler(0, func(ctx context.Context, p payload.Payload) { got = ctx.Value(demoKey{}) })
	i.registerStream(&requestStream{ctx: context.WithValue(context.Background(), demoKey{}, 7), streamID: 2})
	i.handleFireAndForget(context.Background(), 1, nil, []byte{0, 0, 0, 0, 0, 0, 0, 2})
	if got != 7 {
		t.Fatal(got)
	}
}
''')
seed('d02_last_item', 'C10', 'the last item of a stream arriving in the frame that completes it', 'the stream never ends and stays registered',
 [('go/handler/handler.go', '''			str.OnNext(payload.New(v.Data, v.Metadata))
		}

		if v.Complete {''', '''			str.OnNext(payload.New(v.Data, v.Metadata))
		} else if v.Complete {''')],
 'handler', hdr('handler','testing','context',R+'internal/frames',R+'payload',R+'rx/flux') + '''func TestDemo(t *testing.T) {
	h := New(context.Background(), ClientMode)
	var id uint32
	h.SetFrameSender(func(f frames.Frame) error { id = f.GetStreamID(); return nil })
	items, ended := 0, false
	done := make(chan bool, 2)
	h.RequestStream(context.Background(), payload.New(nil, make([]byte, 8))).Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:     func(payload.Payload) { items++ },
		OnRequest:  nil,
		OnComplete: func() { ended = true; done <- true },
	})
	for id == 0 {
	}
	h.HandleFrame(&frames.Payload{StreamID: id, Next: true, Complete: true})
	if items != 1 || !ended {
		t.Fatal(items, ended)
	}
}
''')
seed('d03_demand_count', 'C14', 'demand asked for again while some is left', 'the subscriber is asked for more demand before the items it asked for have arrived',
 [('go/rx/flux/flux.go', '	s.n += n\n', '	s.n = n\n')],
 'rx/flux', hdr('flux','testing',R+'rx') + '''func TestDemo(t *testing.T) {
	var sink Sink[int]
	asked := 0
	var sub rx.Subscription
	Create(func(s Sink[int]) { sink = s; s.OnSubscribe(OnSubscribe{}) }).Subscribe(Subscribe[int]{
		OnRequest: func(s rx.Subscription) { asked++; sub = s; s.Request(2) },
	})
	sub.Request(1)
	sink.Next(1)
	sink.Next(2)
	if asked != 1 {
		t.Fatal(asked)
	}
}
''')
seed('d04_section_name_size', 'C31', 'a section whose name length is written in more than one byte', 'the section is read with the wrong length',
 [('go/transport/wasmrs/customsections/customsections.go', '	return string(buf), size + uint32(sizeOfSize), nil', '	return string(buf), size + uint32(sizeOfSize+1)/2, nil')],
 'transport/wasmrs/customsections', hdr('customsections','testing','bytes') + '''func TestDemo(t *testing.T) {
	m := []byte{0, 'a', 's', 'm', 1, 0, 0, 0, 0, 6, 0x81, 0x80, 0, 'x', 7, 8}
	s, err := Read(m, "x")
	if err != nil || s["x"] == nil || !bytes.Equal(s["x"].Data, []byte{7, 8}) {
		t.Fatal(s, err)
	}
}
''')
seed('d05_same_sequence', 'C33', 'the clock sequence set again to the one it has, while the clock stands still', 'two readings of the clock are equal',
 [('go/types/uuid/time.go', '	if oldSeq != clockSeq {\n', '	if oldSeq != 0 {\n')],
 'types/uuid', hdr('uuid','testing','time') + '''func TestDemo(t *testing.T) {
	at := time.Now()
	timeNow = func() time.Time { return at }
	defer func() { timeNow = time.Now }()
	SetClockSequence(5)
	t1, s1, _ := GetTime()
	SetClockSequence(5)
	t2, s2, _ := GetTime()
	if t1 == t2 && s1 == s2 {
		t.Fatal(t1, s1)
	}
}
''')
seed('d06_wasm_demand', 'C14', 'a module, built for WebAssembly, asking for demand twice', 'the source is asked for more than the subscriber wants',
 [('go/rx/flux/flux_webassembly.go', '	s.sub.Request(n)', '	s.sub.Request(s.n)')],
 'rx/flux', hdr('flux','testing',R+'rx') + '''func TestDemo(t *testing.T) {
	got := 0
	var sub rx.Subscription
	Create(func(s Sink[int]) { s.OnSubscribe(OnSubscribe{Request: func(n int) { got += n }}) }).Subscribe(Subscribe[int]{
		OnRequest: func(s rx.Subscription) { sub = s; s.Request(2) },
	})
	sub.Request(1)
	if got != 3 {
		t.Fatal(got)
	}
}
''', flags='-tags=tinygo.wasm')
seed('d07_remove_reader', 'C23', 'two instances removed at the same instant', 'the map of instances is changed by two goroutines at once',
 [('go/invoke/instances.go', '''	t.mu.Lock()
	defer t.mu.Unlock()
	if _, ok''', '''	t.mu.RLock()
	defer t.mu.RUnlock()
	if _, ok''')],
 'invoke', hdr('invoke','testing','sync') + '''func TestDemo(t *testing.T) {
	l := NewLiveInstances[int]()
	var ids []uint64
	for i := 0; i < 4000; i++ {
		ids = append(ids, l.Put(i))
	}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(ids); i += 4 {
				l.Remove(ids[i])
			}
		}(k)
	}
	wg.Wait()
}
''', flags='-race -gcflags=all=-d=checkptr=0')
seed('d09_channel_item_metadata', 'C15', 'an item with metadata sent as the input of a channel', 'the metadata of the item is lost or another one',
 [('go/proxy/flux.go', '''						Metadata: p.Metadata(),
						Data:     p.Data(),
						Next:     true,''', '''						Metadata: s.request.Metadata,
						Data:     p.Data(),
						Next:     true,''')],
 'proxy', hdr('proxy','testing','context',R+'internal/frames',R+'rx/flux',R+'payload') + '''func TestDemo(t *testing.T) {
	var sent []*frames.Payload
	in := flux.FromSlice([]payload.Payload{payload.New([]byte{1}, []byte{2})})
	f := Flux(context.Background(), frames.RequestPayload{StreamID: 5, Metadata: []byte{9}}, in,
		func(f frames.Frame) error {
			if p, ok := f.(*frames.Payload); ok && p.Next {
				sent = append(sent, p)
			}
			return nil
		}, func(s Stream) {}, func(id uint32) {})
	s := f.(*streamFlux)
	f.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true})
	s.Request(1)
	done := make(chan bool)
	go func() { s.DoRequest(1); close(done) }()
	<-done
	for i := 0; i < 1e8 && len(sent) == 0; i++ {
	}
	if len(sent) != 1 || len(sent[0].Metadata) != 1 || sent[0].Metadata[0] != 2 {
		t.Fatal(sent)
	}
}
''', flags='')
