package host

import "github.com/nanobus/iota/go/internal/zzpeer"

func zzScenario_C30_response()    { zzpeer.Context(zzNew(), 0) }
func zzScenario_C30_no_response() { zzpeer.Context(zzNew(), 1) }
func zzScenario_C30_stream()      { zzpeer.Context(zzNew(), 2) }
func zzScenario_C30_channel()     { zzpeer.Context(zzNew(), 3) }
