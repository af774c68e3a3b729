package buffer

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// zzDrive does any steps with a buffer as its documentation asks for: a value
// is loaded after each one taken, though others may put and dispose before it
// is. What is taken is what was put, in order.
func zzDrive(steps int) {
	b := NewUnbounded[int]()
	var q []int
	loads := 0
	disposed, closed := false, false
	for i := 0; i < steps; i++ {
		switch zz.Choice(4) {
		case 0:
			v := zz.Any[int]("v")
			ok := b.Put(v)
			zz.Assert(ok == !disposed, "a value is taken after dispose or refused before")
			if ok {
				q = append(q, v)
			}
		case 1:
			select {
			case v, ok := <-b.Get():
				if ok {
					zz.Assert(len(q) > 0 && v == q[0], "values are not taken in the order they were put")
					q = q[1:]
					loads++
				} else {
					zz.Assert(disposed && len(q) == 0, "the end comes before the last value")
					closed = true
				}
			default:
				zz.Assert(loads > 0 || len(q) == 0 && !disposed, "a value that was put, or the end, cannot be taken")
			}
		case 2:
			b.Dispose()
			disposed = true
		case 3:
			zz.Assume(loads > 0)
			loads--
			b.Load()
		}
	}
	for ; loads > 0; loads-- {
		b.Load()
	}
	for len(q) > 0 {
		v, ok := <-b.Get()
		zz.Assert(ok && v == q[0], "a value is lost or out of order")
		q = q[1:]
		b.Load()
	}
	if disposed {
		_, ok := <-b.Get()
		zz.Assert(!ok, "there is no end after dispose")
	} else {
		zz.Assert(!closed, "the end comes without dispose")
	}
	zz.Reach("end")
}

func zzScenario_C18_steps()      { zzDrive(7) }
func zzThorough_C18_more_steps() { zzDrive(9) }

// Loading without having taken anything neither loses nor repeats a value.
func zzScenario_C18_load() {
	b := NewUnbounded[int]()
	var q []int
	n := zz.Choice(4)
	for i := 0; i < n; i++ {
		v := zz.Any[int]("v")
		b.Put(v)
		q = append(q, v)
		b.Load()
	}
	if zz.Choice(2) == 1 {
		b.Dispose()
		b.Load()
	}
	for len(q) > 0 {
		v, ok := <-b.Get()
		zz.Assert(ok && v == q[0], "a value is lost or out of order")
		q = q[1:]
		b.Load()
	}
	zz.Reach("end")
}
