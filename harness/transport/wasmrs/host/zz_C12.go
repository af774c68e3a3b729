package host

import (
	"context"

	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// zzHandlers sets and gets handlers of one kind, each given by a number.
type zzHandlers struct {
	set func(index uint32, number int)
	get func(index uint32) int // 0 if there is none
}

func zzKinds(i *Instance, kind int) zzHandlers {
	ctx := context.Background()
	called := 0
	switch kind {
	case 0:
		return zzHandlers{func(index uint32, n int) {
			i.SetRequestResponseHandler(index, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { called = n; return nil })
		}, func(index uint32) int {
			called = 0
			if h := i.getRequestResponseHandler(index); h != nil {
				h(ctx, nil)
			}
			return called
		}}
	case 1:
		return zzHandlers{func(index uint32, n int) {
			i.SetFireAndForgetHandler(index, func(context.Context, payload.Payload) { called = n })
		}, func(index uint32) int {
			called = 0
			if h := i.getFireAndForgetHandler(index); h != nil {
				h(ctx, nil)
			}
			return called
		}}
	case 2:
		return zzHandlers{func(index uint32, n int) {
			i.SetRequestStreamHandler(index, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { called = n; return nil })
		}, func(index uint32) int {
			called = 0
			if h := i.getRequestStreamHandler(index); h != nil {
				h(ctx, nil)
			}
			return called
		}}
	}
	return zzHandlers{func(index uint32, n int) {
		i.SetRequestChannelHandler(index, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			called = n
			return nil
		})
	}, func(index uint32) int {
		called = 0
		if h := i.getRequestChannelHandler(index); h != nil {
			h(ctx, nil, nil)
		}
		return called
	}}
}

// Handlers set at any indexes, in any order, are those found there, and there
// are none anywhere else.
func zzScenario_C12_set() {
	var i Instance
	kind := zz.Choice(4)
	h := zzKinds(&i, kind)
	var want [6]int
	for n := 1; n <= 3; n++ {
		k := zz.Choice(4)
		if k == 3 {
			k = 5
		}
		want[k] = n
		h.set(uint32(k), n)
	}
	for k, n := range want {
		zz.Assert(h.get(uint32(k)) == n, "an index leads to another handler than the one set for it")
		zz.Assert(zzKinds(&i, (kind+1)%4).get(uint32(k)) == 0, "a handler is found for another kind of request")
	}
	far := zz.Any[uint32]("index")
	zz.Assume(far > 5)
	zz.Assert(h.get(far) == 0, "a handler is found where none was set")
	zz.Reach("end")
}
