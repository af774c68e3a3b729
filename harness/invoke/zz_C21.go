package invoke

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

func zzScenario_C21_lifecycle() {
	t := NewLiveInstances[int]()
	x, y := zz.Any[int]("x"), zz.Any[int]("y")
	a := t.Put(x)
	b := t.Put(y)
	zz.Assert(a != b, "two instances share a handle")
	v, ok := t.Get(a)
	zz.Assert(ok && v == x, "a handle leads to another instance")
	v, ok = t.Get(b)
	zz.Assert(ok && v == y, "a handle leads to another instance")
	v, ok = t.Remove(a)
	zz.Assert(ok && v == x, "removing gives another instance")
	_, ok = t.Get(a)
	zz.Assert(!ok, "a removed instance is found")
	_, ok = t.Remove(a)
	zz.Assert(!ok, "an instance is removed twice")
	v, ok = t.Get(b)
	zz.Assert(ok && v == y, "removing one instance removes another")
	v, ok = t.Remove(b)
	zz.Assert(ok && v == y, "removing gives another instance")
	_, ok = t.Get(b)
	zz.Assert(!ok, "a removed instance is found")
	_, ok = t.Get(a)
	zz.Assert(!ok, "a removed instance is found")
	_, ok = t.Remove(b)
	zz.Assert(!ok, "an instance is removed twice")
	c := t.Put(x)
	v, ok = t.Get(c)
	zz.Assert(ok && v == x, "a handle leads to another instance")
	zz.Assert(!zz.Held(), "the table is left locked")
	zz.Reach("end")
}

func zzScenario_C21_unknown() {
	t := NewLiveInstances[int]()
	t.Put(zz.Any[int]("x"))
	u := NewLiveInstances[int]()
	_, ok := u.Get(zz.Any[uint64]("id"))
	zz.Assert(!ok, "an unknown handle leads to an instance")
	_, ok = u.Remove(zz.Any[uint64]("id"))
	zz.Assert(!ok, "an unknown handle leads to an instance")
	zz.Assert(!zz.Held(), "the table is left locked")
	zz.Reach("end")
}
