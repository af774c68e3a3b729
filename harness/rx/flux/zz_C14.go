package flux

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/rx"
)

type zzEvent struct {
	kind int // 0 next, 1 error, 2 complete, 3 the end, 4 a notification
	v    int
	err  error
	sig  rx.SignalType
}

type zzLog struct{ events []zzEvent }

func (l *zzLog) next(v int)             { l.events = append(l.events, zzEvent{v: v}) }
func (l *zzLog) error(err error)        { l.events = append(l.events, zzEvent{kind: 1, err: err}) }
func (l *zzLog) complete()              { l.events = append(l.events, zzEvent{kind: 2}) }
func (l *zzLog) end(s rx.SignalType)    { l.events = append(l.events, zzEvent{kind: 3, sig: s}) }
func (l *zzLog) notify(s rx.SignalType) { l.events = append(l.events, zzEvent{kind: 4, sig: s}) }

func zzSub(l *zzLog) Subscribe[int] {
	return Subscribe[int]{OnNext: l.next, OnComplete: l.complete, OnError: l.error, Finally: l.end}
}

// A flux gets signals, demand and cancellation in any order: its subscriber gets the items
// until the end, which is signalled once.
func zzSignals(steps int) {
	var sink Sink[int]
	var l zzLog
	var sub rx.Subscription
	requested, cancelled, asked := 0, 0, 0
	over := false
	kind := zz.Choice(2)
	var f Flux[int]
	if kind == 0 {
		f = Create(func(s Sink[int]) {
			sink = s
			s.OnSubscribe(OnSubscribe{
				Request: func(n int) { requested += n },
				Cancel:  func() { cancelled++ },
			})
		})
	} else {
		p := NewProcessor[int]()
		p.OnSubscribe(OnSubscribe{
			Request: func(n int) { requested += n },
			Cancel:  func() { cancelled++ },
		})
		f, sink = p, p
	}
	notified := zz.Choice(2)
	if notified == 1 {
		f.Notify(l.notify)
	}
	s := zzSub(&l)
	s.OnRequest = func(x rx.Subscription) {
		zz.Assert(!over, "demand is asked for after the end")
		asked++
		sub = x
	}
	f.Subscribe(s)
	zz.RunAny()
	zz.Assert(asked == 1 && requested == 0, "a subscriber is not asked for its demand first")
	var want []zzEvent
	demand, left, asks, more := 0, 0, 1, false
	var sig rx.SignalType
	finish := func(s rx.SignalType) {
		sig = s
		over = true
		want = append(want, zzEvent{kind: 3, sig: s})
		for k := 0; k < notified; k++ {
			want = append(want, zzEvent{kind: 4, sig: s})
		}
	}
	for i := 0; i < steps; i++ {
		v := zz.Any[int]("value")
		err := zz.NonNil[error]("error")
		op := zz.Choice(6)
		live := !over
		if op < 4 && op > 0 {
			over = true
		}
		switch op {
		case 0:
			if live {
				want = append(want, zzEvent{v: v})
				left--
				if left < 0 {
					more = true // than was asked for
				} else if left == 0 && !more {
					asks++
				}
			}
			sink.Next(v)
		case 1:
			if live {
				want = append(want, zzEvent{kind: 2})
				finish(rx.SignalComplete)
			}
			sink.Complete()
		case 2:
			if live {
				want = append(want, zzEvent{kind: 1, err: err})
				finish(rx.SignalError)
			}
			sink.Error(err)
		case 3:
			if live {
				finish(rx.SignalCancel)
			}
			sub.Cancel()
		case 4:
			n := zz.Int(1, 1000)
			if live {
				demand += n
				left += n
			}
			sub.Request(n)
		case 5:
			f.Notify(l.notify)
			if live {
				notified++
			} else {
				want = append(want, zzEvent{kind: 4, sig: sig})
			}
		}
		zz.RunAny()
	}
	zz.Assert(zz.Same(l.events, want), "a subscriber does not get the items and one end")
	zz.Assert(requested == demand, "the demand of a subscriber does not reach the source")
	zz.Assert(more || asked == asks, "a subscriber is not asked for more when, and only when, what it asked for has arrived")
	if over && sig == rx.SignalCancel {
		zz.Assert(cancelled == 1, "cancelling does not reach the source once")
	} else {
		zz.Assert(cancelled == 0, "a source is cancelled by nobody")
	}
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

func zzScenario_C14_signals()      { zzSignals(3) }
func zzThorough_C14_more_signals() { zzSignals(4) }

// A callback that signals or cancels changes nothing that was signalled.
func zzScenario_C14_nested() {
	var sink Sink[int]
	var l zzLog
	var sub rx.Subscription
	cancelled := 0
	f := Create(func(s Sink[int]) {
		sink = s
		s.OnSubscribe(OnSubscribe{Cancel: func() { cancelled++ }})
	})
	f.Notify(l.notify)
	stop := zz.Choice(2) == 1
	over := false
	s := Subscribe[int]{
		OnNext: func(v int) {
			l.next(v)
			if stop {
				sub.Cancel()
			}
		},
		OnComplete: func() { l.complete(); sink.Complete(); sink.Error(nil); sink.Next(0); sub.Cancel() },
		OnError: func(err error) {
			l.error(err)
			sink.Complete()
			sink.Error(nil)
			sink.Next(0)
			sub.Cancel()
			f.Notify(l.notify)
		},
		Finally: func(s rx.SignalType) {
			over = true
			l.end(s)
			sink.Complete()
			sink.Error(nil)
			sink.Next(0)
			sub.Cancel()
		},
		OnRequest: func(x rx.Subscription) {
			zz.Assert(!over, "demand is asked for after the end")
			sub = x
			sub.Request(1)
		},
	}
	f.Subscribe(s)
	v := zz.Any[int]("value")
	err := zz.NonNil[error]("error")
	sink.Next(v)
	want := []zzEvent{{v: v}}
	if stop {
		want = append(want, zzEvent{kind: 3, sig: rx.SignalCancel}, zzEvent{kind: 4, sig: rx.SignalCancel})
	}
	if zz.Choice(2) == 1 {
		sink.Complete()
		if !stop {
			want = append(want, zzEvent{kind: 2}, zzEvent{kind: 3, sig: rx.SignalComplete}, zzEvent{kind: 4, sig: rx.SignalComplete})
		}
	} else {
		sink.Error(err)
		if !stop {
			want = append(want, zzEvent{kind: 1, err: err}, zzEvent{kind: 4, sig: rx.SignalError}, zzEvent{kind: 3, sig: rx.SignalError}, zzEvent{kind: 4, sig: rx.SignalError})
		}
	}
	zz.Assert(zz.Same(l.events, want), "a callback adds a signal to a flux that ended")
	zz.Assert(cancelled == 1 == stop && cancelled < 2, "a source that ended is cancelled")
	zz.Reach("end")
}

// A source that ends while it is subscribed to asks for no demand.
func zzScenario_C14_at_once() {
	var l zzLog
	err := zz.NonNil[error]("error")
	v := zz.Any[int]("value")
	fails := zz.Choice(2) == 1
	over := false
	s := zzSub(&l)
	s.Finally = func(s rx.SignalType) { over = true; l.end(s) }
	s.OnRequest = func(x rx.Subscription) { zz.Assert(!over, "demand is asked for after the end") }
	var f Flux[int]
	if zz.Choice(2) == 1 {
		zz.Assume(fails)
		f = Error[int](err)
		f.Subscribe(s)
		zz.Assert(zz.Same(l.events, []zzEvent{{kind: 1, err: err}, {kind: 3, sig: rx.SignalError}}), "an error is not given once")
		f.Notify(l.notify)
		zz.Assert(len(l.events) == 3 && l.events[2].kind == 4 && l.events[2].sig == rx.SignalError, "a failed flux does not notify")
		zz.Assert(zz.Same(f.Block(s), err), "waiting for a failed flux loses its error")
	} else {
		f = Create(func(s Sink[int]) {
			s.Next(v)
			if fails {
				s.Error(err)
			} else {
				s.Complete()
			}
			s.Next(v)
		})
		f.Subscribe(s)
		want := []zzEvent{{v: v}, {kind: 2}, {kind: 3}}
		if fails {
			want = []zzEvent{{v: v}, {kind: 1, err: err}, {kind: 3, sig: rx.SignalError}}
		}
		zz.RunAny()
		zz.Assert(zz.Same(l.events, want), "a source that ends at once does not end once")
		var n zzLog
		f.Notify(n.notify)
		zz.Assert(len(n.events) == 1 && n.events[0].sig == want[2].sig, "a flux that ended does not notify")
	}
	f.Async()
	f.Subscribe(Subscribe[int]{})
	zz.Reach("end")
}

// A mapped flux gives the transformed items until the source ends or a transformation fails.
func zzMap(steps int) {
	var l zzLog
	var sub rx.Subscription
	cancelled, requested := 0, 0
	p := NewProcessor[int]()
	p.OnSubscribe(OnSubscribe{
		Request: func(n int) { requested += n },
		Cancel:  func() { cancelled++ },
	})
	bad := zz.NonNil[error]("transform")
	fails := false
	f := Map[int, int](p, func(v int) (int, error) {
		if fails {
			return 0, bad
		}
		return v + 1, nil
	})
	if zz.Choice(2) == 1 {
		f = Map(f, func(v int) (int, error) { return v - 1, nil })
		f = Map(f, func(v int) (int, error) { return v + 1, nil })
	}
	s := zzSub(&l)
	over := false
	s.OnRequest = func(x rx.Subscription) {
		zz.Assert(!over, "demand is asked for after the end")
		sub = x
	}
	f.Subscribe(s)
	var want []zzEvent
	cancels := 0
	demand := 0
	for i := 0; i < steps; i++ {
		v := zz.Int(-1000, 1000)
		err := zz.NonNil[error]("error")
		switch zz.Choice(6) {
		case 0:
			if !over {
				want = append(want, zzEvent{v: v + 1})
			}
			p.Next(v)
		case 1:
			fails = true
			if !over {
				want = append(want, zzEvent{kind: 1, err: bad}, zzEvent{kind: 3, sig: rx.SignalError})
				cancels++
			}
			over = true
			p.Next(v)
			fails = false
		case 2:
			if !over {
				want = append(want, zzEvent{kind: 2}, zzEvent{kind: 3, sig: rx.SignalComplete})
			}
			over = true
			p.Complete()
		case 3:
			if !over {
				want = append(want, zzEvent{kind: 1, err: err}, zzEvent{kind: 3, sig: rx.SignalError})
			}
			over = true
			p.Error(err)
		case 4:
			n := zz.Int(1, 1000)
			if !over {
				demand += n
			}
			sub.Request(n)
		case 5:
			if !over {
				want = append(want, zzEvent{kind: 3, sig: rx.SignalCancel})
				cancels++
			}
			over = true
			sub.Cancel()
		}
		zz.RunAny()
	}
	zz.Assert(zz.Same(l.events, want), "a mapped flux does not give the transformed items and one end")
	zz.Assert(requested == demand && cancelled == cancels, "demand or cancellation does not reach the source of a mapped flux")
	zz.Reach("end")
}

func zzScenario_C14_map()      { zzMap(3) }
func zzThorough_C14_map_more() { zzMap(4) }

// The values of a slice are given in order, as far as they are asked for, and then the end.
func zzScenario_C14_slice() {
	n := zz.Choice(4)
	var values, all []int
	for k := 0; k < n; k++ {
		values = append(values, zz.Any[int]("value"))
	}
	all = append(all, values...)
	var l zzLog
	var sub rx.Subscription
	s := zzSub(&l)
	s.OnRequest = func(x rx.Subscription) { sub = x }
	if zz.Choice(2) == 1 {
		FromSlice(values).Subscribe(s)
	} else {
		Create(func(sink Sink[int]) { sink.OnSubscribe(OnSubscribe{Request: SliceResponse(sink, values)}) }).Subscribe(s)
	}
	zz.RunAny()
	zz.Assert(len(l.events) == 0, "values are given before they are asked for")
	asked := 0
	for i := 0; i < 3; i++ {
		d := 1 + zz.Choice(2)
		asked += d
		sub.Request(d)
		zz.RunAny()
	}
	var want []zzEvent
	for k := 0; k < n && k < asked; k++ {
		want = append(want, zzEvent{v: all[k]})
	}
	if n <= asked {
		want = append(want, zzEvent{kind: 2}, zzEvent{kind: 3})
	}
	zz.Assert(zz.Same(l.events, want), "the values of a slice are not given in order, once and as asked for")
	zz.Assert(!zz.Held(), "a lock is kept")
	zz.Reach("end")
}

// Waiting returns after the end, with its error, and the callbacks of the caller are called.
func zzScenario_C14_block() {
	var l zzLog
	v := zz.Any[int]("value")
	err := zz.NonNil[error]("error")
	bad := zz.NonNil[error]("transform")
	fails := zz.Choice(2) == 1
	late := zz.Choice(2) == 1
	f := Create(func(s Sink[int]) {
		emit := func() {
			s.Next(v)
			if fails {
				s.Error(err)
			} else {
				s.Complete()
			}
		}
		if late {
			go emit()
		} else {
			emit()
		}
	})
	tx := zz.Choice(3)
	if tx > 0 {
		f = Map(f, func(v int) (int, error) {
			if tx == 2 {
				return 0, bad
			}
			return v, nil
		})
	}
	var got error
	b := zz.Blocks(func() { got = f.Block(zzSub(&l)) })
	zz.Assert(!b, "waiting for a flux never ends")
	want := []zzEvent{{v: v}, {kind: 2}, {kind: 3}}
	switch {
	case tx == 2:
		want = []zzEvent{{kind: 1, err: bad}, {kind: 3, sig: rx.SignalError}}
		zz.Assert(zz.Same(got, bad), "waiting for a flux loses the error of a transformation")
	case fails:
		want = []zzEvent{{v: v}, {kind: 1, err: err}, {kind: 3, sig: rx.SignalError}}
		zz.Assert(zz.Same(got, err), "waiting for a flux loses its error")
	default:
		zz.Assert(got == nil, "waiting for a flux gives an error nobody signalled")
	}
	zz.Assert(zz.Same(l.events, want), "waiting for a flux does not give the items and one end")
	zz.Reach("end")
}
