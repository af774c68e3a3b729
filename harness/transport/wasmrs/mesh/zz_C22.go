package mesh

import (
	"context"

	"github.com/nanobus/iota/go/internal/zzstd"
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// zzSome is an operation the scenarios look at, or one that differs in its
// namespace, name or type.
func zzSome(t operations.RequestType, other int) operations.Operation {
	op := operations.Operation{Type: t, Direction: operations.Export, Namespace: "space", Operation: "name"}
	switch other {
	case 1:
		op.Namespace = "other"
	case 2:
		op.Operation = "other"
	case 3:
		op.Type = t%4 + 1
	}
	return op
}

// zzRequest makes a request through a handler or the mesh and checks where it got.
func zzRequest(t operations.RequestType, dest *host.ZZModule, index uint32,
	rr func(context.Context, payload.Payload) mono.Mono[payload.Payload],
	fnf func(context.Context, payload.Payload),
	stream func(context.Context, payload.Payload) flux.Flux[payload.Payload],
	channel func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload]) {
	ctx := zz.NonNil[context.Context]("context")
	in := zz.NonNil[flux.Flux[payload.Payload]]("in")
	data := zz.Bytes("data")
	rest := zz.Bytes("metadata")
	md := append([]byte{1, 2, 3, 4}, rest...)
	n := 0
	if dest != nil {
		n = len(dest.Calls)
	}
	p := payload.New(data, md)
	failed := false
	fails := func(error) { failed = true }
	switch t {
	case operations.RequestResponse:
		m := rr(ctx, p)
		if dest != nil {
			zz.Assert(m == dest.Mono, "a caller gets another response than the one of the operation")
		} else {
			m.Subscribe(mono.Subscribe[payload.Payload]{OnError: fails})
		}
	case operations.FireAndForget:
		fnf(ctx, p)
	case operations.RequestStream:
		m := stream(ctx, p)
		if dest != nil {
			zz.Assert(m == dest.Flux, "a caller gets another response than the one of the operation")
		} else {
			m.Subscribe(flux.Subscribe[payload.Payload]{OnError: fails})
		}
	case operations.RequestChannel:
		m := channel(ctx, p, in)
		if dest != nil {
			zz.Assert(m == dest.Flux, "a caller gets another response than the one of the operation")
		} else {
			m.Subscribe(flux.Subscribe[payload.Payload]{OnError: fails})
		}
	}
	if dest == nil {
		zz.Assert(failed || t == operations.FireAndForget, "a request for an operation nothing exports does not fail")
		return
	}
	zz.Assert(len(dest.Calls) == n+1, "a request does not reach the module that exports the operation once")
	c := dest.Calls[n]
	zz.Assert(c.Type == t && zz.Same(c.P.Data(), data), "a request arrives changed")
	zz.Assert(c.Ctx == ctx, "a request arrives with another context")
	zz.Assert(t != operations.RequestChannel || c.In == in, "a request arrives with another input")
	got := c.P.Metadata()
	zz.Assert(len(got) == len(rest)+4 && zz.Same(got[4:], rest), "the metadata of a request is changed behind the index")
	zz.Assert(got[0] == byte(index>>24) && got[1] == byte(index>>16) && got[2] == byte(index>>8) && got[3] == byte(index), "a request does not carry the index of the operation")
	dest.Calls = nil
}

type zzImport struct {
	m     *host.ZZModule
	index uint32
}

// Modules are loaded that import and export operations.
func zzLink(t operations.RequestType, n int, first int) {
	ctx := context.Background()
	m := New()
	var dest *host.ZZModule
	var index uint32
	var imports []zzImport
	var current [2]*host.ZZModule
	var all []*host.ZZModule
	for k := 0; k < n; k++ {
		mod := &host.ZZModule{Mono: zz.NonNil[mono.Mono[payload.Payload]]("mono"), Flux: zz.NonNil[flux.Flux[payload.Payload]]("flux")}
		host.ZZNext = mod
		op := zzSome(t, 0)
		op.Index = zz.Any[uint32]("index")
		kind := first
		if k > 0 || first < 0 {
			kind = zz.Choice(5)
		}
		switch kind {
		case 0: // exports it
			mod.Ops = operations.Table{op}
			dest, index = mod, op.Index
		case 1: // exports others
			a := zzSome(t, 1+zz.Choice(3))
			a.Index = zz.Any[uint32]("index")
			mod.Ops = operations.Table{a}
		case 2: // imports it
			op.Direction = operations.Import
			op.Index = uint32(zz.Choice(2))
			mod.Ops = operations.Table{op}
			imports = append(imports, zzImport{mod, op.Index})
		case 3: // imports it and exports others
			op.Direction = operations.Import
			op.Index = 1
			a := zzSome(t, 1+zz.Choice(3))
			a.Index = zz.Any[uint32]("index")
			mod.Ops = operations.Table{op, a}
			imports = append(imports, zzImport{mod, op.Index})
		case 4: // exports and imports it
			i := op
			i.Direction = operations.Import
			i.Index = 0
			if zz.Choice(2) == 0 {
				mod.Ops = operations.Table{op, i}
			} else {
				mod.Ops = operations.Table{i, op}
			}
			dest, index = mod, op.Index
			imports = append(imports, zzImport{mod, i.Index})
		}
		f := 0 // which of two files does not matter at first
		if k > 0 {
			f = zz.Choice(2)
		}
		file := "a.wasm"
		if f == 1 {
			file = "b.wasm"
		}
		source := zz.Bytes("source")
		zzstd.ReadFile = func(name string) ([]byte, error) {
			zz.Assert(name == file, "another file is loaded")
			return source, nil
		}
		inst, err := m.LoadModule(ctx, file)
		zz.Assert(err == nil && inst == mod.Inst && inst != nil, "a module is not loaded")
		zz.Assert(zz.Same(mod.Source, source), "another module is loaded")
		current[f] = mod
		all = append(all, mod)
	}
	for _, i := range imports {
		rr, fnf, stream, channel := i.m.RR[i.index], i.m.FNF[i.index], i.m.Stream[i.index], i.m.Channel[i.index]
		set := 0
		if rr != nil {
			set++
		}
		if fnf != nil {
			set++
		}
		if stream != nil {
			set++
		}
		if channel != nil {
			set++
		}
		if dest == nil {
			zz.Assert(set == 0, "an import is linked that nothing exports")
			continue
		}
		zz.Assert(set == 1, "an import is not linked once something exports it")
		switch t {
		case operations.RequestResponse:
			zz.Assert(rr != nil, "an import is linked as another type")
		case operations.FireAndForget:
			zz.Assert(fnf != nil, "an import is linked as another type")
		case operations.RequestStream:
			zz.Assert(stream != nil, "an import is linked as another type")
		case operations.RequestChannel:
			zz.Assert(channel != nil, "an import is linked as another type")
		}
		zzRequest(t, dest, index, rr, fnf, stream, channel)
	}
	zzRequest(t, dest, index,
		func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			return m.RequestResponse(ctx, "space", "name", p)
		}, func(ctx context.Context, p payload.Payload) {
			m.FireAndForget(ctx, "space", "name", p)
		}, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			return m.RequestStream(ctx, "space", "name", p)
		}, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return m.RequestChannel(ctx, "space", "name", p, in)
		})
	for _, x := range all {
		zz.Assert(len(x.Calls) == 0, "a request reaches another module as well")
		zz.Assert(x.Closed == 0, "a module is closed while requests to it may be open")
	}
	m.Close()
	for _, x := range current {
		zz.Assert(x == nil || x.Closed == 1, "a module is not closed with the mesh")
	}
	zz.RunSpawned()
	for _, x := range all {
		zz.Assert(x.Closed == 1, "a module is not closed once")
	}
	zz.Reach("end")
}

func zzScenario_C22_response() { zzLink(operations.RequestResponse, 2, -1) }
func zzScenario_C22_fnf()      { zzLink(operations.FireAndForget, 2, -1) }
func zzScenario_C22_stream()   { zzLink(operations.RequestStream, 2, -1) }
func zzScenario_C22_channel()  { zzLink(operations.RequestChannel, 2, -1) }

func zzThorough_C22_export_first()  { zzLink(operations.RequestResponse, 3, 0) }
func zzThorough_C22_other_first()   { zzLink(operations.RequestStream, 3, 1) }
func zzThorough_C22_import_first()  { zzLink(operations.RequestResponse, 3, 2) }
func zzThorough_C22_imports_first() { zzLink(operations.RequestChannel, 3, 3) }
func zzThorough_C22_both_first()    { zzLink(operations.FireAndForget, 3, 4) }

// A module that cannot be loaded is reported, and changes nothing.
func zzScenario_C22_fails() {
	ctx := context.Background()
	t := operations.RequestType(1 + zz.Choice(4))
	m := New()
	mod := &host.ZZModule{Mono: zz.NonNil[mono.Mono[payload.Payload]]("mono"), Flux: zz.NonNil[flux.Flux[payload.Payload]]("flux")}
	mod.Ops = operations.Table{zzSome(t, 0)}
	host.ZZNext = mod
	zzstd.ReadFile = func(name string) ([]byte, error) { return zz.Bytes("source"), nil }
	_, err := m.LoadModule(ctx, "a.wasm")
	zz.Assert(err == nil, "a module is not loaded")
	fails := zz.NonNil[error]("failure")
	if k := zz.Choice(4); k < 3 {
		host.ZZFails[k] = fails
	} else {
		zzstd.ReadFile = func(name string) ([]byte, error) { return nil, fails }
	}
	host.ZZNext = &host.ZZModule{Ops: mod.Ops}
	if zz.Choice(2) == 0 {
		_, err = m.LoadModule(ctx, "a.wasm")
	} else {
		err = m.LoadModules(ctx, "a.wasm", "b.wasm")
	}
	zz.Assert(err == fails, "a module that cannot be loaded is not reported")
	zz.RunSpawned()
	zz.Assert(mod.Closed == 0, "a module is closed though the one in its place was not loaded")
	zzRequest(t, mod, 0,
		func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			return m.RequestResponse(ctx, "space", "name", p)
		}, func(ctx context.Context, p payload.Payload) {
			m.FireAndForget(ctx, "space", "name", p)
		}, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			return m.RequestStream(ctx, "space", "name", p)
		}, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return m.RequestChannel(ctx, "space", "name", p, in)
		})
	zz.Reach("end")
}

// Several imports that wait are each linked when what they name is exported,
// and not before.
func zzScenario_C22_several() {
	ctx := context.Background()
	m := New()
	const t = operations.RequestResponse
	var ops [3]operations.Operation
	ops[0] = zzSome(t, 0)
	ops[1] = zzSome(t, 1+zz.Choice(2))
	ops[2] = zzSome(t, 3)
	load := func(mod *host.ZZModule) {
		host.ZZNext = mod
		zzstd.ReadFile = func(name string) ([]byte, error) { return []byte{1}, nil }
		name := string([]byte{byte('a' + len(mod.Ops)), byte('a' + int(mod.Ops[0].Index))})
		_, err := m.LoadModule(ctx, name)
		zz.Assert(err == nil, "a module is not loaded")
	}
	user := &host.ZZModule{}
	for k := range ops {
		op := ops[k]
		op.Direction = operations.Import
		op.Index = uint32(k)
		user.Ops = append(user.Ops, op)
	}
	load(user)
	var linked [3]bool
	order := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[zz.Choice(6)]
	for n, k := range order {
		op := ops[k]
		op.Index = uint32(10 + n)
		mod := &host.ZZModule{Ops: operations.Table{op}, Mono: zz.NonNil[mono.Mono[payload.Payload]]("mono")}
		load(mod)
		linked[k] = true
		for j := range ops {
			if ops[j].Type == t {
				zz.Assert((user.RR[j] != nil) == linked[j] && user.FNF[j] == nil, "an import is not linked once something exports it, or before")
			} else {
				zz.Assert((user.FNF[j] != nil) == linked[j] && user.RR[j] == nil, "an import is not linked once something exports it, or before")
			}
		}
		zzRequest(ops[k].Type, mod, op.Index, user.RR[k], user.FNF[k], nil, nil)
	}
	zz.Reach("end")
}
