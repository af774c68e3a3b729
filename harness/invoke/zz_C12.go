package invoke

import (
	"context"

	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var zzCalled int

func zzRR(n int) RequestResponseHandler {
	return func(context.Context, payload.Payload) mono.Mono[payload.Payload] { zzCalled = n; return nil }
}
func zzFNF(n int) FireAndForgetHandler {
	return func(context.Context, payload.Payload) { zzCalled = n }
}
func zzStream(n int) RequestStreamHandler {
	return func(context.Context, payload.Payload) flux.Flux[payload.Payload] { zzCalled = n; return nil }
}
func zzChannel(n int) RequestChannelHandler {
	return func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		zzCalled = n
		return nil
	}
}

// zzExport exports a handler of any kind under any name.
func zzExport(kind, n int, ns, op string) {
	switch kind {
	case 0:
		ExportRequestResponse(ns, op, zzRR(n))
	case 1:
		ExportFireAndForget(ns, op, zzFNF(n))
	case 2:
		ExportRequestStream(ns, op, zzStream(n))
	case 3:
		ExportRequestChannel(ns, op, zzChannel(n))
	}
}

// zzCall calls the handler of an index, which must exist.
func zzCall(kind int, id uint32) int {
	zzCalled = -1
	switch kind {
	case 0:
		GetRequestResponseHandler(id)(nil, nil)
	case 1:
		GetFireAndForgetHandler(id)(nil, nil)
	case 2:
		GetRequestStreamHandler(id)(nil, nil)
	case 3:
		GetRequestChannelHandler(id)(nil, nil, nil)
	}
	return zzCalled
}

func zzHas(kind int, id uint32) bool {
	switch kind {
	case 0:
		return GetRequestResponseHandler(id) != nil
	case 1:
		return GetFireAndForgetHandler(id) != nil
	case 2:
		return GetRequestStreamHandler(id) != nil
	}
	return GetRequestChannelHandler(id) != nil
}

func zzInfos(h Handlers, kind int) []HandlerInfo {
	switch kind {
	case 0:
		return h.RequestResponse
	case 1:
		return h.FireAndForget
	case 2:
		return h.RequestStream
	}
	return h.RequestChannel
}

// Handlers of any kinds exported in any order are found under their indices.
func zzScenario_C12_export() {
	var count [4]int
	var kinds, ids [3]int
	var infos [3]HandlerInfo
	for i := 0; i < 3; i++ {
		k := zz.Choice(4)
		in := HandlerInfo{zz.Str("ns"), zz.Str("op")}
		kinds[i], ids[i], infos[i] = k, count[k], in
		zzExport(k, i, in.Namespace, in.Operation)
		count[k]++
	}
	ops := GetOperations()
	for i := 0; i < 3; i++ {
		zz.Assert(zzCall(kinds[i], uint32(ids[i])) == i, "an index leads to another handler")
		l := zzInfos(ops.Exported, kinds[i])
		zz.Assert(l[ids[i]] == infos[i], "an index is listed under another name")
	}
	for k := 0; k < 4; k++ {
		zz.Assert(!zzHas(k, uint32(count[k])) && len(zzInfos(ops.Exported, k)) == count[k], "handlers and their names are not kept in step")
		zz.Assert(len(zzInfos(ops.Imported, k)) == 0, "an export is listed as an import")
	}
	zz.Reach("end")
}

// Any index that was not given out leads to no handler, and no panic.
func zzScenario_C12_unknown() {
	k := zz.Choice(4)
	n := zz.Choice(3)
	for i := 0; i < n; i++ {
		zzExport(k, i, "ns", "op")
	}
	id := zz.Any[uint32]("id")
	zz.Assert(zzHas(k, id) == (id < uint32(n)), "an unknown index leads to a handler")
	zz.Reach("end")
}

func zzImport(kind int, ns, op string) uint32 {
	switch kind {
	case 0:
		return ImportRequestResponse(ns, op)
	case 1:
		return ImportFireAndForget(ns, op)
	case 2:
		return ImportRequestStream(ns, op)
	}
	return ImportRequestChannel(ns, op)
}

// The same import has one index, different imports have different ones.
func zzScenario_C12_import() {
	k := zz.Choice(4)
	a, b := HandlerInfo{zz.Str("ns"), zz.Str("op")}, HandlerInfo{zz.Str("ns2"), zz.Str("op2")}
	x := zzImport(k, a.Namespace, a.Operation)
	y := zzImport(k, b.Namespace, b.Operation)
	l := zzInfos(GetOperations().Imported, k)
	zz.Assert(l[x] == a, "an import index is listed under another name")
	zz.Assert(l[y].Namespace == b.Namespace && l[y].Operation == b.Operation, "an import index is listed under another name")
	zz.Assert((x == y) == (a.Namespace == b.Namespace && a.Operation == b.Operation), "different imports share an index, or one has two")
	zz.Assert(zzImport(k, a.Namespace, a.Operation) == x, "an import gets another index the second time")
	zz.Assert(len(zzInfos(GetOperations().Imported, k)) == len(l), "an import is listed twice")
	for j := 0; j < 4; j++ {
		zz.Assert(len(zzInfos(GetOperations().Exported, j)) == 0, "an import is listed as an export")
		zz.Assert(j == k || len(zzInfos(GetOperations().Imported, j)) == 0, "an import is listed under another kind")
	}
	zz.Reach("end")
}

// Operations are found under their indices however many there are.
func zzScenario_C12_many() {
	const n = 300
	k := zz.Choice(4)
	name := func(i int) string { return string([]byte{byte('a' + i/100), byte('0' + i/10%10), byte('0' + i%10)}) }
	for i := 0; i < n; i++ {
		zzExport(k, i, "ns", name(i))
	}
	ops := GetOperations()
	l := zzInfos(ops.Exported, k)
	zz.Assert(len(l) == n, "handlers and their names are not kept in step")
	for i := 0; i < n; i++ {
		zz.Assert(zzCall(k, uint32(i)) == i, "an index leads to another handler")
		zz.Assert(l[i] == HandlerInfo{"ns", name(i)}, "an index is listed under another name")
	}
	zz.Assert(!zzHas(k, n), "an unknown index leads to a handler")
	zz.Reach("end")
}
