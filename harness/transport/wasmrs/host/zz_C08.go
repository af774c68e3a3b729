package host

import "github.com/nanobus/iota/go/internal/zzpeer"

func zzScenario_C08_ids() { zzpeer.Ids(zzNew()) }
