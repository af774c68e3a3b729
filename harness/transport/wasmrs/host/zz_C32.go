package host

import (
	"context"

	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/operations"
	"github.com/tetratelabs/wazero/api"
)

// zzGuest is a module with some of the functions it should export.
type zzGuest struct {
	api.Module
	mem     zzTable
	missing string
	fails   string
	err     error
	lists   int
}

// zzTable is a memory with a table of operations in it.
type zzTable struct {
	api.Memory
	ptr, size uint32
	data      []byte
	ok        bool
}

func (m *zzTable) Read(offset, n uint32) ([]byte, bool) {
	zz.Assert(offset == m.ptr && n == m.size, "another part of the memory is read")
	return m.data, m.ok
}

func (m *zzGuest) Memory() api.Memory { return &m.mem }

// zzEntry is a function that fails or does what it should.
type zzEntry struct {
	api.Function
	call func(ctx context.Context)
	err  error
}

func (f *zzEntry) Call(ctx context.Context, params ...uint64) ([]uint64, error) {
	if f.err != nil {
		return nil, f.err
	}
	f.call(ctx)
	return nil, nil
}

func (m *zzGuest) ExportedFunction(name string) api.Function {
	if name == m.missing {
		return nil
	}
	f := &zzEntry{call: func(context.Context) {}}
	if name == m.fails {
		f.err = m.err
	}
	switch name {
	case "__wasmrs_init":
		f.call = func(ctx context.Context) { initBuffers(ctx, []uint64{zzSend, zzRecv}) }
	case "__wasmrs_op_list_request":
		f.call = func(ctx context.Context) {
			m.lists++
			opList(ctx, []uint64{uint64(m.mem.ptr), uint64(m.mem.size)})
		}
	}
	return f
}

func zzGuestWith(data []byte) *zzGuest {
	m := &zzGuest{}
	m.mem.ptr = zz.Any[uint32]("pointer")
	m.mem.size = uint32(len(data))
	m.mem.data = data
	m.mem.ok = true
	return m
}

func zzOperation(ns, op string) operations.Operation {
	n, o := zz.Str(ns), zz.Str(op)
	zz.Assume(len(n) < 1<<16 && len(o) < 1<<16)
	return operations.Operation{Index: zz.Any[uint32]("index"), Type: operations.RequestType(zz.Any[uint8]("type")), Direction: operations.Direction(zz.Any[uint8]("dir")), Namespace: n, Operation: o}
}

// The operations of an instance are those its module announces.
func zzScenario_C32_table() {
	t := operations.Table{zzOperation("ns0", "op0"), zzOperation("ns1", "op1")}[:zz.Choice(3)]
	m := zzGuestWith(t.ToBytes())
	i, err := NewInstance(context.Background(), m)
	zz.Assert(err == nil, "a module is refused")
	zz.Assert(m.lists == 1, "the operations of a module are not asked for once")
	got := i.Operations()
	zz.Assert(len(got) == len(t), "an instance has more or fewer operations than its module announces")
	for k := range t {
		zz.Assert(got[k] == t[k], "an instance has other operations than its module announces")
	}
	zz.Reach("end")
}

// Whatever a module announces, it is read or the instance has no operations.
func zzScenario_C32_any_table() {
	data := zz.Bytes("table")
	zz.Assume(uint64(len(data)) < 1<<31)
	m := zzGuestWith(data)
	m.mem.ok = zz.Bool()
	i, err := NewInstance(context.Background(), m)
	if err == nil && !m.mem.ok {
		zz.Assert(len(i.Operations()) == 0, "an instance has operations its module did not announce")
	}
	zz.Reach("end")
}

// A module that lacks a function, or fails to start, is refused.
func zzScenario_C32_missing() {
	m := zzGuestWith(operations.Table{}.ToBytes())
	names := []string{"__wasmrs_init", "__wasmrs_send", "__wasmrs_op_list_request"}
	name := names[zz.Choice(3)]
	if zz.Choice(2) == 0 {
		m.missing = name
	} else {
		zz.Assume(name != "__wasmrs_send")
		m.fails = name
		m.err = zz.NonNil[error]("failure")
	}
	i, err := NewInstance(context.Background(), m)
	zz.Assert(err != nil && i == nil, "a module that cannot be used is accepted")
	zz.Assert(zz.Spawned() == 0, "goroutines are left behind for a module that cannot be used")
	zz.Reach("end")
}
