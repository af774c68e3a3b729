package zzstd

import (
	"errors"
	"time"

	zz "github.com/nanobus/iota/go/internal/zzverif"
)

// A time written with all its digits is read back, whatever else is read is
// unknown or refused.
type formatted struct {
	text string
	t    time.Time
}

var times []formatted

var errTime = errors.New("not a time")

func Time_Time_Format(t time.Time, layout string) string {
	s := zz.Str("time")
	zz.Assume(len(s) >= 20 && len(s) <= 35)
	if layout == time.RFC3339Nano {
		times = append(times, formatted{s, t})
	}
	return s
}

func Time_Parse(layout string, s string) (time.Time, error) {
	if layout == time.RFC3339Nano || layout == time.RFC3339 {
		for _, f := range times {
			if zz.Same(f.text, s) {
				return f.t, nil
			}
		}
	}
	if zz.Choice(2) == 0 {
		return time.Time{}, errTime
	}
	return zz.Any[time.Time]("time"), nil
}
