package host

import (
	"context"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// ZZModule is what is known of an instance: the operations it has, the
// handlers it was given for those it imports, and the requests it got.
type ZZModule struct {
	Inst    *Instance
	Ops     operations.Table
	RR      [ZZMax]invoke.RequestResponseHandler
	FNF     [ZZMax]invoke.FireAndForgetHandler
	Stream  [ZZMax]invoke.RequestStreamHandler
	Channel [ZZMax]invoke.RequestChannelHandler
	Calls   []ZZCall
	Mono    mono.Mono[payload.Payload]
	Flux    flux.Flux[payload.Payload]
	Closed  int
	Source  []byte
}

const ZZMax = 4 // operations of an instance

type ZZCall struct {
	Type operations.RequestType
	Ctx  context.Context
	P    payload.Payload
	In   flux.Flux[payload.Payload]
}

var (
	// ZZNext is the module that is instantiated next.
	ZZNext  *ZZModule
	ZZFails [3]error
	zzAll   []*ZZModule
	zzRead  []byte
)

func zzOf(i *Instance) *ZZModule {
	for _, m := range zzAll {
		if m.Inst == i {
			return m
		}
	}
	panic("an instance that was not instantiated")
}

func zzInstead_C22_New(ctx context.Context) (*Host, error) {
	if ZZFails[0] != nil {
		return nil, ZZFails[0]
	}
	return &Host{}, nil
}

func zzInstead_C22_Host_Compile(h *Host, ctx context.Context, source []byte) (*Module, error) {
	if ZZFails[1] != nil {
		return nil, ZZFails[1]
	}
	ZZNext.Source = source
	return &Module{}, nil
}

func zzInstead_C22_Module_Instantiate(m *Module, ctx context.Context) (*Instance, error) {
	if ZZFails[2] != nil {
		return nil, ZZFails[2]
	}
	ZZNext.Inst = &Instance{}
	zzAll = append(zzAll, ZZNext)
	return ZZNext.Inst, nil
}

func zzInstead_C22_Instance_Operations(i *Instance) operations.Table { return zzOf(i).Ops }

func zzInstead_C22_Instance_Close(i *Instance) error {
	zzOf(i).Closed++
	return nil
}

func zzInstead_C22_Instance_SetRequestResponseHandler(i *Instance, index uint32, h invoke.RequestResponseHandler) {
	zzOf(i).RR[index] = h
}

func zzInstead_C22_Instance_SetFireAndForgetHandler(i *Instance, index uint32, h invoke.FireAndForgetHandler) {
	zzOf(i).FNF[index] = h
}

func zzInstead_C22_Instance_SetRequestStreamHandler(i *Instance, index uint32, h invoke.RequestStreamHandler) {
	zzOf(i).Stream[index] = h
}

func zzInstead_C22_Instance_SetRequestChannelHandler(i *Instance, index uint32, h invoke.RequestChannelHandler) {
	zzOf(i).Channel[index] = h
}

func (m *ZZModule) call(t operations.RequestType, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) {
	m.Calls = append(m.Calls, ZZCall{t, ctx, p, in})
}

func zzInstead_C22_Instance_RequestResponse(i *Instance, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	m := zzOf(i)
	m.call(operations.RequestResponse, ctx, p, nil)
	return m.Mono
}

func zzInstead_C22_Instance_FireAndForget(i *Instance, ctx context.Context, p payload.Payload) {
	zzOf(i).call(operations.FireAndForget, ctx, p, nil)
}

func zzInstead_C22_Instance_RequestStream(i *Instance, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	m := zzOf(i)
	m.call(operations.RequestStream, ctx, p, nil)
	return m.Flux
}

func zzInstead_C22_Instance_RequestChannel(i *Instance, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	m := zzOf(i)
	m.call(operations.RequestChannel, ctx, p, in)
	return m.Flux
}
