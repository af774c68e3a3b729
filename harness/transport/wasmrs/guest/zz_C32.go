package guest

import (
	"unsafe"

	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"

	"context"

	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var zzList []byte
var zzLists int

func zzInstead_C32_opList(p uintptr, n uint32) {
	zzLists++
	zzList = unsafe.Slice((*byte)(unsafe.Pointer(p)), n)
}

func zzName(n string) string {
	s := zz.Str(n)
	zz.Assume(len(s) < 1<<16)
	return s
}

// zzDeclare exports or imports an operation of any kind; it gives what is to
// be announced.
func zzDeclare(i int, count *[2][5]uint32, before []operations.Operation) operations.Operation {
	names := [][2]string{{"ns0", "op0"}, {"ns1", "op1"}, {"ns2", "op2"}}
	ns, op := zzName(names[i][0]), zzName(names[i][1])
	for _, o := range before {
		zz.Assume(o.Operation != op)
	}
	kind := 1 + zz.Choice(4)
	dir := zz.Choice(2)
	o := operations.Operation{Namespace: ns, Operation: op, Type: operations.RequestType(kind), Direction: operations.Direction(1 + dir), Index: count[dir][kind]}
	count[dir][kind]++
	if dir == 0 {
		switch o.Type {
		case operations.RequestResponse:
			invoke.ExportRequestResponse(ns, op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { return nil })
		case operations.FireAndForget:
			invoke.ExportFireAndForget(ns, op, func(context.Context, payload.Payload) {})
		case operations.RequestStream:
			invoke.ExportRequestStream(ns, op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return nil })
		default:
			invoke.ExportRequestChannel(ns, op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				return nil
			})
		}
		return o
	}
	var index uint32
	switch o.Type {
	case operations.RequestResponse:
		index = invoke.ImportRequestResponse(ns, op)
	case operations.FireAndForget:
		index = invoke.ImportFireAndForget(ns, op)
	case operations.RequestStream:
		index = invoke.ImportRequestStream(ns, op)
	default:
		index = invoke.ImportRequestChannel(ns, op)
	}
	zz.Assert(index == o.Index, "an import has another index than the one it is called by")
	return o
}

// A module announces exactly what it exports and imports.
func zzAnnounce(n int) {
	var count [2][5]uint32
	var want []operations.Operation
	for i := 0; i < n; i++ {
		want = append(want, zzDeclare(i, &count, want))
	}
	OperationList()
	zz.Assert(zzLists == 1, "the operations are not announced once")
	got, err := operations.FromBytes(zzList)
	zz.Assert(err == nil, "the operations announced cannot be read")
	zz.Assert(len(got) == n, "not every operation is announced once")
	for _, w := range want {
		found := false
		for _, g := range got {
			if g.Type == w.Type && g.Direction == w.Direction && g.Index == w.Index {
				zz.Assert(!found, "an operation is announced twice")
				found = true
				zz.Assert(g.Namespace == w.Namespace && g.Operation == w.Operation, "an operation is announced under another name")
			}
		}
		zz.Assert(found, "an operation is not announced")
	}
	zz.Reach("end")
}

func zzScenario_C32_announce0() { zzAnnounce(0) }
func zzScenario_C32_announce1() { zzAnnounce(1) }
func zzScenario_C32_announce2() { zzAnnounce(2) }
func zzThorough_C32_announce3() { zzAnnounce(3) }
