package flow

import (
	zz "github.com/nanobus/iota/go/internal/zzverif"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const (
	zzWait0 = iota // waits for one that ended
	zzWait1        // waits for one that ends later
	zzWait2        // waits for two that end later, in any order
	zzMixed        // waits for one that ended and one that ends later
	zzFails        // returns an error
	zzStops        // ends the flow
	zzStopsWait    // ends the flow, giving one that ended
	zzGives        // gives the result
	zzError        // ends the flow with an error
)

// zzSteps runs a flow whose steps wait for other results: each step starts when
// everything the step before waits for has ended, and not earlier.
func zzSteps(n int) {
	f := New[int]()
	asFlux := zz.Choice(2) == 1
	bad := zz.NonNil[error]("failure")
	v := zz.Any[int]("value")
	var kinds [4]int
	started := 0
	var waits [2]*mono.ProcessorImpl[int]
	running := false
	var ended []mono.Mono[int]
	if zz.Choice(2) == 1 {
		m := mono.NewProcessor[int]()
		m.Subscribe(mono.Subscribe[int]{})
		m.Success(1)
		ended = []mono.Mono[int]{m, m}
	} else {
		ended = []mono.Mono[int]{mono.Just(1), mono.Error[int](bad)}
	}
	wait := func(k int) mono.Mono[int] {
		waits[k] = mono.NewProcessor[int]()
		waits[k].Subscribe(mono.Subscribe[int]{})
		return waits[k]
	}
	for i := 0; i < n; i++ {
		k := i
		kinds[k] = zz.Choice(9)
		f.Steps(func() (await.Group, error) {
			zz.Assert(k == started, "a step is skipped or runs twice")
			zz.Assert(!running, "a step starts before the step before it has ended")
			started++
			waits[0], waits[1] = nil, nil
			running = true
			switch kinds[k] {
			case zzWait0:
				running = false
				return await.All(ended[zz.Choice(2)])
			case zzWait1:
				return await.All(wait(0))
			case zzWait2:
				return await.All(wait(0), wait(1))
			case zzMixed:
				if zz.Choice(2) == 1 {
					return await.All(ended[0], wait(0))
				}
				return await.All(wait(0), ended[0])
			case zzFails:
				return nil, bad
			case zzStops:
				return f.End()
			case zzStopsWait:
				f.End()
				return await.All(ended[zz.Choice(2)])
			case zzError:
				return f.Error(bad)
			}
			if asFlux {
				f.Next(v)
				return f.Complete()
			}
			return f.Success(v)
		})
	}
	var values []int
	var errs []error
	completes := 0
	var ends []rx.SignalType
	if asFlux {
		f.Flux().Subscribe(flux.Subscribe[int]{
			OnNext:     func(v int) { values = append(values, v) },
			OnComplete: func() { completes++ },
			OnError:    func(err error) { errs = append(errs, err) },
			Finally:    func(s rx.SignalType) { ends = append(ends, s) },
		})
	} else {
		f.Mono().Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { values = append(values, v); completes++ },
			OnError:   func(err error) { errs = append(errs, err) },
			Finally:   func(s rx.SignalType) { ends = append(ends, s) },
		})
	}
	want := 0
	for i := 0; i < n; i++ {
		want++
		zz.Assert(started >= want, "a step does not start when the step before it has ended")
		switch kinds[i] {
		case zzWait0:
			continue
		case zzWait1, zzMixed:
			zz.Assert(started == want, "a step starts before the step before it has ended")
			p := waits[0]
			running = false
			if zz.Choice(2) == 1 {
				p.Success(1)
			} else {
				p.Error(bad)
			}
			continue
		case zzWait2:
			zz.Assert(started == want, "a step starts before the step before it has ended")
			a, b := waits[0], waits[1]
			if zz.Choice(2) == 1 {
				a, b = b, a
			}
			a.Success(1)
			zz.Assert(started == want, "a step starts before the step before it has ended")
			running = false
			b.Success(2)
			continue
		}
		break
	}
	zz.Assert(started == want, "a step runs after the end of the flow")
	last := kinds[want-1]
	switch {
	case want > 0 && (last == zzFails || last == zzError):
		zz.Assert(len(errs) == 1 && errs[0] == bad && completes == 0 && len(values) == 0, "the error of a step is not given once")
		zz.Assert(len(ends) == 1 && ends[0] == rx.SignalError, "a failed flow does not end once")
	case want > 0 && last == zzGives:
		zz.Assert(len(values) == 1 && values[0] == v && completes == 1 && len(errs) == 0, "the result of a flow is not given once")
		zz.Assert(len(ends) == 1 && ends[0] == rx.SignalComplete, "a flow does not end once")
	default:
		zz.Assert(len(values) == 0 && completes == 0 && len(errs) == 0 && len(ends) == 0, "a flow ends by itself")
	}
	zz.Reach("end")
}

func zzScenario_C24_steps() { zzSteps(3) }
