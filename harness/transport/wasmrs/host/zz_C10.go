package host

import "github.com/nanobus/iota/go/internal/zzpeer"

func zzScenario_C10_streams() { zzpeer.Streams(zzNew(), 2) }
func zzScenario_C10_monos()   { zzpeer.Monos(zzNew(), 2) }
func zzScenario_C10_send()    { zzpeer.Send(zzNew()) }
