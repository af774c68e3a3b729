package mono

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/rx"
)

type zzEvent struct {
	kind int // 0 success, 1 error, 2 the end, 3 a notification
	v    int
	err  error
	sig  rx.SignalType
}

type zzLog struct{ events []zzEvent }

func (l *zzLog) success(v int)          { l.events = append(l.events, zzEvent{v: v}) }
func (l *zzLog) error(err error)        { l.events = append(l.events, zzEvent{kind: 1, err: err}) }
func (l *zzLog) end(s rx.SignalType)    { l.events = append(l.events, zzEvent{kind: 2, sig: s}) }
func (l *zzLog) notify(s rx.SignalType) { l.events = append(l.events, zzEvent{kind: 3, sig: s}) }

// zzDone is what one subscriber with n notifications sees.
func zzDone(n int, v int, err error, sig rx.SignalType) (want []zzEvent) {
	switch sig {
	case rx.SignalComplete:
		want = append(want, zzEvent{v: v})
	case rx.SignalError:
		want = append(want, zzEvent{kind: 1, err: err})
	}
	want = append(want, zzEvent{kind: 2, sig: sig})
	for ; n > 0; n-- {
		want = append(want, zzEvent{kind: 3, sig: sig})
	}
	return want
}

// A mono gets signals in any order, before and after its end.
func zzSignals(steps int) {
	var sink Sink[int]
	var l zzLog
	m := Create(func(s Sink[int]) { sink = s })
	notified := zz.Choice(2)
	if notified == 1 {
		m.Notify(l.notify)
	}
	again := zz.Choice(2) == 1
	s := Subscribe[int]{OnSuccess: l.success, OnError: l.error, Finally: l.end}
	if again {
		s.OnSuccess = func(v int) { l.success(v); sink.Success(v); sink.Error(nil) }
		s.OnError = func(err error) { l.error(err); sink.Error(err); sink.Success(0) }
	}
	m.Subscribe(s)
	var want []zzEvent
	var wv int
	var we error
	ended := false
	var sig rx.SignalType
	for i := 0; i < steps; i++ {
		v := zz.Any[int]("value")
		err := zz.NonNil[error]("error")
		switch zz.Choice(4) {
		case 0:
			sink.Success(v)
			if !ended {
				ended, wv, sig = true, v, rx.SignalComplete
				want = zzDone(notified, v, nil, sig)
			}
		case 1:
			sink.Error(err)
			if !ended {
				ended, we, sig = true, err, rx.SignalError
				want = zzDone(notified, 0, err, sig)
			}
		case 2:
			sink.(*subscriber[int]).Cancel()
			if !ended {
				ended, sig = true, rx.SignalCancel
				want = zzDone(notified, 0, nil, sig)
			}
		case 3:
			m.Notify(l.notify)
			if ended {
				want = append(want, zzEvent{kind: 3, sig: sig})
			} else {
				notified++
			}
		}
	}
	zz.Assert(zz.Same(l.events, want), "a mono does not end once with its first signal")
	if ended {
		v, err := m.Get()
		zz.Assert(v == wv && zz.Same(err, we), "the result of a mono is not the one it ended with")
		v, err = m.Block()
		zz.Assert(v == wv && zz.Same(err, we), "waiting for a mono that ended does not give its result")
	} else {
		zz.Assert(zz.Panics(func() { m.Get() }), "a mono has a result before it ends")
	}
	zz.Reach("end")
}

func zzScenario_C14_signals()      { zzSignals(3) }
func zzThorough_C14_more_signals() { zzSignals(4) }

// A notification asked for by a callback tells how the mono ended.
func zzScenario_C14_nested() {
	var sink Sink[int]
	var l zzLog
	m := Create(func(s Sink[int]) { sink = s })
	m.Subscribe(Subscribe[int]{
		OnSuccess: func(int) { m.Notify(l.notify) },
		OnError:   func(error) { m.Notify(l.notify) },
		Finally:   func(rx.SignalType) { m.Notify(l.notify) },
	})
	var sig rx.SignalType
	n := 2
	switch zz.Choice(3) {
	case 0:
		sink.Success(zz.Any[int]("value"))
	case 1:
		sig = rx.SignalError
		sink.Error(zz.NonNil[error]("error"))
	case 2:
		sig = rx.SignalCancel
		n = 1
		sink.(*subscriber[int]).Cancel()
	}
	zz.Assert(len(l.events) == n, "a notification is not given once")
	for _, e := range l.events {
		zz.Assert(e.sig == sig, "a notification gives another end")
	}
	zz.Reach("end")
}

// The signals of a processor reach its subscriber, whether it comes before or after them.
func zzProcessor(steps int) {
	var l zzLog
	p := NewProcessor[int]()
	var want []zzEvent
	at := zz.Choice(steps + 1)
	ended := false
	for i := 0; i <= steps; i++ {
		if i == at {
			p.Subscribe(Subscribe[int]{OnSuccess: l.success, OnError: l.error, Finally: l.end})
		}
		if i == steps {
			break
		}
		v := zz.Any[int]("value")
		err := zz.NonNil[error]("error")
		switch zz.Choice(3) {
		case 0:
			p.Success(v)
			if !ended {
				want = zzDone(0, v, nil, rx.SignalComplete)
			}
			ended = true
		case 1:
			p.Error(err)
			if !ended {
				want = zzDone(0, 0, err, rx.SignalError)
			}
			ended = true
		}
	}
	zz.Assert(zz.Same(l.events, want), "a processor does not end once with its first signal")
	zz.Reach("end")
}

func zzScenario_C14_processor()      { zzProcessor(2) }
func zzThorough_C14_processor_more() { zzProcessor(4) }

// zzSource ends with the first signal chosen, now or later.
func zzSource(late *func()) (m Mono[int], v int, err error) {
	v = zz.Any[int]("value")
	fail := zz.NonNil[error]("error")
	switch zz.Choice(6) {
	case 0:
		return Just(v), v, nil
	case 1:
		return Error[int](fail), 0, fail
	case 2:
		return Create(func(s Sink[int]) { s.Success(v) }), v, nil
	case 3:
		return Create(func(s Sink[int]) { s.Error(fail) }), 0, fail
	case 4:
		p := NewProcessor[int]()
		*late = func() { p.Success(v) }
		return p, v, nil
	}
	p := NewProcessor[int]()
	*late = func() { p.Error(fail) }
	return p, 0, fail
}

// Every kind of mono gives its subscriber its result, once, and ends.
func zzScenario_C14_result() {
	var l zzLog
	late := func() {}
	m, v, err := zzSource(&late)
	m.Async()
	r := m.Subscribe(Subscribe[int]{OnSuccess: l.success, OnError: l.error, Finally: l.end})
	late()
	zz.Assert(r != nil, "subscribing does not give a mono")
	if err == nil {
		zz.Assert(zz.Same(l.events, zzDone(0, v, nil, rx.SignalComplete)), "a subscriber does not get the result once")
	} else {
		zz.Assert(zz.Same(l.events, zzDone(0, 0, err, rx.SignalError)), "a subscriber does not get the error once")
	}
	gv, ge := m.Get()
	zz.Assert(gv == v && zz.Same(ge, err) || err != nil && zz.Same(ge, err), "the result of a mono is not the one it ended with")
	var n zzLog
	m.Notify(n.notify)
	zz.Assert(len(n.events) == 1 && (n.events[0].sig == rx.SignalError) == (err != nil), "a mono that ended does not notify")
	// no callbacks at all
	late = func() {}
	q, _, _ := zzSource(&late)
	q.Subscribe(Subscribe[int]{})
	late()
	zz.Reach("end")
}

// Waiting gives the result as soon as there is one.
func zzScenario_C14_block() {
	late := func() {}
	m, v, err := zzSource(&late)
	mapped := zz.Choice(2) == 1
	bad := zz.NonNil[error]("transform")
	fails := zz.Choice(2) == 1
	if mapped {
		m = Map(m, func(x int) (int, error) {
			if fails {
				return 0, bad
			}
			return x + 1, nil
		})
		if err == nil && fails {
			err = bad
		} else {
			v++
		}
	}
	go late()
	var gv int
	var ge error
	b := zz.Blocks(func() { gv, ge = m.Block() })
	zz.Assert(!b, "waiting for a mono never ends")
	zz.Assert(zz.Same(ge, err), "waiting for a mono gives another error")
	zz.Assert(err != nil || gv == v, "waiting for a mono gives another result")
	zz.Reach("end")
}

// A mapped mono gives the transformed result, or the error of the source or the transformation.
func zzScenario_C14_map() {
	var l zzLog
	late := func() {}
	m, v, err := zzSource(&late)
	bad := zz.NonNil[error]("transform")
	fails := zz.Choice(2) == 1
	calls := 0
	q := Map(m, func(x int) (int, error) {
		calls++
		zz.Assert(x == v, "a transformation gets another value")
		if fails {
			return 0, bad
		}
		return x + 1, nil
	})
	q.Subscribe(Subscribe[int]{OnSuccess: l.success, OnError: l.error, Finally: l.end})
	late()
	switch {
	case err != nil:
		zz.Assert(calls == 0, "an error is transformed")
		zz.Assert(zz.Same(l.events, zzDone(0, 0, err, rx.SignalError)), "the error of a mapped mono is lost")
	case fails:
		zz.Assert(calls == 1, "a value is not transformed once")
		zz.Assert(zz.Same(l.events, zzDone(0, 0, bad, rx.SignalError)), "the error of a transformation is lost")
	default:
		zz.Assert(calls == 1, "a value is not transformed once")
		zz.Assert(zz.Same(l.events, zzDone(0, v+1, nil, rx.SignalComplete)), "a mapped mono gives another result")
	}
	gv, ge := q.Get()
	switch {
	case err != nil:
		zz.Assert(zz.Same(ge, err), "the error of a mapped mono is lost")
	case fails:
		zz.Assert(zz.Same(ge, bad), "the error of a transformation is lost")
	default:
		zz.Assert(ge == nil && gv == v+1, "a mapped mono gives another result")
	}
	zz.Reach("end")
}
