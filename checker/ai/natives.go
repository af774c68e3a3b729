package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const zzPath = "github.com/nanobus/iota/go/internal/zzverif"

type ncall struct {
	fn   *ssa.Function
	args []Value
	pos  token.Pos
}
type native func(in *Interp, st *State, c *ncall) []alt

var natives map[string]native

func nop(in *Interp, st *State, c *ncall) []alt { return one(st, in.zeroRes(c.fn)) }

func (in *Interp) zeroRes(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

// noNil gives an unknown non-nil result.
func newObj(in *Interp, st *State, c *ncall) []alt {
	in.nopq++
	return one(st, Opaque{id: in.nopq, name: "fresh " + c.fn.Name(), t: c.fn.Signature.Results().At(0).Type()})
}

func lockKey(in *Interp, st *State, v Value) string {
	if p, ok := v.(Ptr); ok {
		return ptrKey(p)
	}
	in.giveUp("lock %s", in.Show(st, v))
	return ""
}

func lock(in *Interp, st *State, c *ncall) []alt {
	k := lockKey(in, st, c.args[0])
	in.S.Sites[in.cur]++
	if st.locks[k] != 0 {
		return []alt{{st: st, pan: in.panicAt("locks a mutex it already holds: deadlock")}}
	}
	st.locks[k] = 1
	return one(st, nil)
}
func unlock(in *Interp, st *State, c *ncall) []alt {
	k := lockKey(in, st, c.args[0])
	in.S.Sites[in.cur]++
	if st.locks[k] != 1 {
		return []alt{{st: st, pan: in.panicAt("unlock of an unlocked mutex")}}
	}
	delete(st.locks, k)
	if in.countUnlocks {
		st.unlocks++
	}
	return one(st, nil)
}
func rlock(in *Interp, st *State, c *ncall) []alt {
	k := lockKey(in, st, c.args[0])
	in.S.Sites[in.cur]++
	if st.locks[k] != 0 {
		return []alt{{st: st, pan: in.panicAt("read-locks a mutex it already holds: possible deadlock")}}
	}
	st.locks[k] = 10
	return one(st, nil)
}
func runlock(in *Interp, st *State, c *ncall) []alt {
	k := lockKey(in, st, c.args[0])
	in.S.Sites[in.cur]++
	if st.locks[k] < 10 {
		return []alt{{st: st, pan: in.panicAt("read-unlock of an unlocked mutex")}}
	}
	delete(st.locks, k)
	return one(st, nil)
}

func atomicLoad(in *Interp, st *State, c *ncall) []alt {
	return in.deref(st, c.args[0], c.fn.Params[0].Type(), func(s *State, p Ptr) []alt { return one(s, in.load(s, p)) })
}
func atomicStore(in *Interp, st *State, c *ncall) []alt {
	return in.deref(st, c.args[0], c.fn.Params[0].Type(), func(s *State, p Ptr) []alt {
		in.store(s, p, c.args[1])
		return one(s, nil)
	})
}
func atomicAdd(in *Interp, st *State, c *ncall) []alt {
	return in.deref(st, c.args[0], c.fn.Params[0].Type(), func(s *State, p Ptr) []alt {
		v := in.intOp(s, token.ADD, in.load(s, p).(*Int), c.args[1].(*Int))
		in.store(s, p, v)
		return one(s, v)
	})
}
func atomicCAS(in *Interp, st *State, c *ncall) []alt {
	return in.deref(st, c.args[0], c.fn.Params[0].Type(), func(s *State, p Ptr) []alt {
		return in.branch(s, in.settle(s, in.equal(s, in.load(s, p), c.args[1])), func(s *State) []alt {
			in.store(s, p, c.args[2])
			return one(s, True)
		}, func(s *State) []alt { return one(s, False) })
	})
}

// boxes: atomic.Value, atomic.Pointer, atomic.Int32 … hold a value keyed by
// their address.
func boxObj(in *Interp, st *State, v Value, init Value) int {
	p, ok := v.(Ptr)
	if !ok {
		in.giveUp("atomic %s", in.Show(st, v))
	}
	k := "box:" + ptrKey(p)
	id, ok := in.memo[k]
	if !ok {
		in.nobj++
		id = in.nobj
		in.memo[k] = id
	}
	if _, ok := st.heap[id]; !ok {
		st.set(id, init)
	}
	return id
}

func (in *Interp) boxInit(fn *ssa.Function) Value {
	s := fn.String()
	switch {
	case strings.Contains(s, "atomic.Bool"):
		return False
	case strings.Contains(s, "atomic.Int32"):
		return &Int{W: 32, S: true, A: AC(0)}
	case strings.Contains(s, "atomic.Uint32"):
		return &Int{W: 32, A: AC(0)}
	case strings.Contains(s, "atomic.Int64"):
		return &Int{W: 64, S: true, A: AC(0)}
	case strings.Contains(s, "atomic.Uint64"):
		return &Int{W: 64, A: AC(0)}
	}
	return Nil{}
}
func boxLoad(in *Interp, st *State, c *ncall) []alt {
	o := boxObj(in, st, c.args[0], in.boxInit(c.fn))
	return one(st, st.heap[o])
}
func boxStore(in *Interp, st *State, c *ncall) []alt {
	o := boxObj(in, st, c.args[0], in.boxInit(c.fn))
	st.set(o, c.args[1])
	return one(st, nil)
}
func boxSwap(in *Interp, st *State, c *ncall) []alt {
	o := boxObj(in, st, c.args[0], in.boxInit(c.fn))
	v := st.heap[o]
	st.set(o, c.args[1])
	return one(st, v)
}
func boxAdd(in *Interp, st *State, c *ncall) []alt {
	o := boxObj(in, st, c.args[0], in.boxInit(c.fn))
	v := in.intOp(st, token.ADD, st.heap[o].(*Int), c.args[1].(*Int))
	st.set(o, v)
	return one(st, v)
}
func boxCAS(in *Interp, st *State, c *ncall) []alt {
	o := boxObj(in, st, c.args[0], in.boxInit(c.fn))
	return in.branch(st, in.settle(st, in.equal(st, st.heap[o], c.args[1])), func(s *State) []alt {
		s.set(o, c.args[2])
		return one(s, True)
	}, func(s *State) []alt { return one(s, False) })
}

func init() {
	natives = map[string]native{
		"(*sync.Mutex).Lock":      lock,
		"(*sync.Mutex).Unlock":    unlock,
		"(*sync.RWMutex).Lock":    lock,
		"(*sync.RWMutex).Unlock":  unlock,
		"(*sync.RWMutex).RLock":   rlock,
		"(*sync.RWMutex).RUnlock": runlock,
		"(*sync.WaitGroup).Add":   nop,
		"(*sync.WaitGroup).Done":  nop,
		"(*sync.WaitGroup).Wait":  nop,
		"(*sync.Once).Do": func(in *Interp, st *State, c *ncall) []alt {
			k := lockKey(in, st, c.args[0])
			if st.once[k] {
				return one(st, nil)
			}
			st.once[k] = true
			return in.callValue(st, c.args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), c.pos)
		},
		"(*sync.Pool).Get": func(in *Interp, st *State, c *ncall) []alt {
			p, ok := c.args[0].(Ptr)
			if !ok {
				in.giveUp("pool")
			}
			s, ok := in.load(st, p).(*Struct)
			if ok {
				nf := s.f[len(s.f)-1]
				if f, ok := nf.(Func); ok {
					return in.callValue(st, f, nil, f.fn.Signature, c.pos)
				}
			}
			return one(st, Nil{})
		},
		"(*sync.Pool).Put":                 nop,
		"sync/atomic.AddUint32":            atomicAdd,
		"sync/atomic.AddInt32":             atomicAdd,
		"sync/atomic.AddUint64":            atomicAdd,
		"sync/atomic.AddInt64":             atomicAdd,
		"sync/atomic.LoadUint32":           atomicLoad,
		"sync/atomic.LoadInt32":            atomicLoad,
		"sync/atomic.LoadUint64":           atomicLoad,
		"sync/atomic.LoadInt64":            atomicLoad,
		"sync/atomic.StoreUint32":          atomicStore,
		"sync/atomic.StoreInt32":           atomicStore,
		"sync/atomic.StoreUint64":          atomicStore,
		"sync/atomic.StoreInt64":           atomicStore,
		"sync/atomic.CompareAndSwapUint32": atomicCAS,
		"sync/atomic.CompareAndSwapInt32":  atomicCAS,
		"sync/atomic.CompareAndSwapUint64": atomicCAS,
		"sync/atomic.CompareAndSwapInt64":  atomicCAS,
		"math.Float32bits": func(in *Interp, st *State, c *ncall) []alt {
			return floatBits(in, st, c.args[0], "f32bits", 32)
		},
		"math.Float64bits": func(in *Interp, st *State, c *ncall) []alt {
			return floatBits(in, st, c.args[0], "f64bits", 64)
		},
		"math.Float32frombits": func(in *Interp, st *State, c *ncall) []alt {
			return bitsFloat(in, st, c.args[0], "f32bits", 32)
		},
		"math.Float64frombits": func(in *Interp, st *State, c *ncall) []alt {
			return bitsFloat(in, st, c.args[0], "f64bits", 64)
		},
		"bytes.Equal": func(in *Interp, st *State, c *ncall) []alt {
			x, y := in.sliceBytes(st, c.args[0].(Slice)), in.sliceBytes(st, c.args[1].(Slice))
			return one(st, in.equal(st, x, y))
		},
		"strings.ToLower": func(in *Interp, st *State, c *ncall) []alt {
			if x, ok := c.args[0].(Str); ok {
				if k, ok := in.constAll(x.Bytes); ok {
					return one(st, Str{in.constBytes(strings.ToLower(k))})
				}
			}
			return in.external(st, c.fn, c.args)
		},
		"strings.Contains": func(in *Interp, st *State, c *ncall) []alt {
			x, ok1 := c.args[0].(Str)
			y, ok2 := c.args[1].(Str)
			if ok1 && ok2 {
				a, ok1 := in.constAll(x.Bytes)
				b, ok2 := in.constAll(y.Bytes)
				if ok1 && ok2 {
					return one(st, B2(strings.Contains(a, b)))
				}
			}
			return in.external(st, c.fn, c.args)
		},
		"unicode/utf8.Valid": func(in *Interp, st *State, c *ncall) []alt {
			if k, ok := in.constAll(in.sliceBytes(st, c.args[0].(Slice))); ok {
				return one(st, B2(utf8.ValidString(k)))
			}
			return in.external(st, c.fn, c.args)
		},
		"bytes.ToLower": func(in *Interp, st *State, c *ncall) []alt {
			if k, ok := in.constAll(in.sliceBytes(st, c.args[0].(Slice))); ok {
				return one(st, in.newBytes(st, in.constBytes(strings.ToLower(k))))
			}
			return in.external(st, c.fn, c.args)
		},
		"reflect.DeepEqual": func(in *Interp, st *State, c *ncall) []alt { return one(st, in.freshBool()) },
		"fmt.Errorf":        fmtErrorf,
		"fmt.Sprintf":       nil,
		"context.WithValue": func(in *Interp, st *State, c *ncall) []alt {
			t := c.fn.Pkg.Pkg.Scope().Lookup("valueCtx").Type()
			o := in.alloc(st, &Struct{f: []Value{c.args[0], c.args[1], c.args[2]}})
			return one(st, Iface{t: types.NewPointer(t), v: Ptr{o: o}})
		},
		"time.Now": func(in *Interp, st *State, c *ncall) []alt {
			return one(st, in.havoc(st, c.fn.Signature.Results().At(0).Type(), "now"))
		},
		"time.Sleep":                  nop,
		"runtime.Gosched":             nop,
		"runtime.KeepAlive":           nop,
		"runtime/debug.PrintStack":    nop,
		"bufio.NewReader":             newPtr,
		"bufio.NewWriter":             newPtr,
		"bufio.NewScanner":            newPtr,
		"internal/reflectlite.TypeOf": newObj,
		"encoding/binary.init":        nop,
	}
	delete(natives, "fmt.Sprintf")
	natives["(time.Time).Unix"] = func(in *Interp, st *State, c *ncall) []alt {
		t := c.args[0].(Term)
		if v, ok := in.opqVal["sec:"+t.key]; ok {
			return one(st, v)
		}
		if t.key == "time:zero" {
			return one(st, &Int{W: 64, S: true, A: AC(-62135596800)})
		}
		return one(st, in.memoInt(64, true, "unix:"+t.key))
	}
	natives["(time.Time).Nanosecond"] = func(in *Interp, st *State, c *ncall) []alt {
		t := c.args[0].(Term)
		if v, ok := in.opqVal["nsec:"+t.key]; ok {
			return one(st, in.convInt(st, v.(*Int), 64, true))
		}
		if t.key == "time:zero" {
			return one(st, &Int{W: 64, S: true, A: AC(0)})
		}
		v := in.memoInt(64, true, "nsec:"+t.key)
		id, _ := v.A.Single()
		in.narrow(st, id, Iv{N(0), N(999999999)})
		return one(st, v)
	}
	natives["(time.Time).UnixNano"] = func(in *Interp, st *State, c *ncall) []alt {
		t := c.args[0].(Term)
		v := in.memoInt(64, true, "unixnano:"+t.key)
		id, _ := v.A.Single()
		in.narrow(st, id, Iv{N(0), N(1 << 62)})
		return one(st, v)
	}
	natives["time.Unix"] = func(in *Interp, st *State, c *ncall) []alt {
		sec, nsec := c.args[0].(*Int), c.args[1].(*Int)
		k := "time:" + plainKey(in, sec) + "/" + plainKey(in, nsec)
		na := in.affOf(st, nsec)
		if in.entails(st, na) && in.entails(st, AC(999999999).Sub(na)) {
			in.opqVal["sec:"+k], in.opqVal["nsec:"+k] = sec, nsec
		}
		return one(st, Term{k})
	}
	natives["(time.Time).UTC"] = func(in *Interp, st *State, c *ncall) []alt {
		return one(st, c.args[0]) // the same instant
	}
	natives["(time.Time).IsZero"] = func(in *Interp, st *State, c *ncall) []alt {
		t := c.args[0].(Term)
		if t.key == "time:zero" {
			return one(st, True)
		}
		return one(st, in.settle(st, in.memoBool("iszero:"+t.key)))
	}
	natives["(time.Time).Equal"] = func(in *Interp, st *State, c *ncall) []alt {
		x, y := c.args[0].(Term), c.args[1].(Term)
		if x.key == y.key {
			return one(st, True)
		}
		u, n := natives["(time.Time).Unix"], natives["(time.Time).Nanosecond"]
		x1 := u(in, st, &ncall{args: c.args[:1]})[0].v.(*Int)
		y1 := u(in, st, &ncall{args: c.args[1:]})[0].v.(*Int)
		x2 := n(in, st, &ncall{args: c.args[:1]})[0].v.(*Int)
		y2 := n(in, st, &ncall{args: c.args[1:]})[0].v.(*Int)
		return one(st, in.equalAll(st, []Value{x1, x2}, []Value{y1, y2}))
	}
	for _, t := range []string{"Value", "Pointer[T]", "Bool", "Int32", "Int64", "Uint32", "Uint64"} {
		p := "(*sync/atomic." + t + ")."
		natives[p+"Load"] = boxLoad
		natives[p+"Store"] = boxStore
		natives[p+"Swap"] = boxSwap
		natives[p+"Add"] = boxAdd
		natives[p+"CompareAndSwap"] = boxCAS
	}
}

func newPtr(in *Interp, st *State, c *ncall) []alt {
	return newObj(in, st, c)
}

func (in *Interp) named(name string, t types.Type) Value {
	if v, ok := in.opqVal["named:"+name]; ok {
		return v
	}
	in.nopq++
	v := Opaque{id: in.nopq, name: "global " + name, t: t}
	in.opqVal["named:"+name] = v
	return v
}

// fmtErrorf gives a fresh non-nil error.
func fmtErrorf(in *Interp, st *State, c *ncall) []alt {
	in.nopq++
	return one(st, Opaque{id: in.nopq, name: "fresh Errorf", t: c.fn.Signature.Results().At(0).Type()})
}

func floatBits(in *Interp, st *State, v Value, tag string, w int) []alt {
	t, ok := v.(Term)
	if !ok {
		in.giveUp("%s of %s", tag, in.Show(st, v))
	}
	if strings.HasPrefix(t.key, tag+"#") {
		if x, ok := in.opqVal["bitsint:"+t.key]; ok {
			return one(st, x)
		}
	}
	return one(st, in.memoInt(w, false, tag+":"+t.key))
}
func bitsFloat(in *Interp, st *State, v Value, tag string, w int) []alt {
	x := v.(*Int)
	a := in.affOf(st, x)
	if id, ok := a.Single(); ok {
		// bits of a float?
		if k := in.keyOf(id); strings.Contains(k, tag+":") {
			return one(st, Term{k[strings.Index(k, tag+":")+len(tag)+1:]})
		}
	}
	key := fmt.Sprintf("%s#%s", tag, a.Key())
	in.opqVal["bitsint:"+key] = x
	return one(st, Term{key})
}

func (in *Interp) keyOf(id int) string {
	n := in.syms[id].name
	if strings.HasPrefix(n, "int") {
		return n
	}
	return ""
}

// constAll is a content all of whose bytes are known.
func (in *Interp) constAll(b *Bytes) (string, bool) {
	if !b.n.IsConst() {
		return "", false
	}
	k := in.constStr(Str{b})
	return k, int64(len(k)) == b.n.c.Int64()
}
