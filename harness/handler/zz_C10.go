package handler

import "github.com/nanobus/iota/go/internal/zzpeer"

func zzScenario_C10_streams()      { zzpeer.Streams(zzNew(), 2) }
func zzThorough_C10_more_streams() { zzpeer.Streams(zzNew(), 3) }

func zzScenario_C10_monos()      { zzpeer.Monos(zzNew(), 2) }
func zzThorough_C10_more_monos() { zzpeer.Monos(zzNew(), 3) }
func zzScenario_C10_send()       { zzpeer.Send(zzNew()) }
