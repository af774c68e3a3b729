package handler

import "github.com/nanobus/iota/go/internal/zzpeer"

func zzScenario_C15_serve()        { zzpeer.ServeStream(zzNew(), 2, false) }
func zzThorough_C15_serve_longer() { zzpeer.ServeStream(zzNew(), 3, false) }
func zzScenario_C15_early()        { zzpeer.ServeStream(zzNew(), 1, true) }
func zzScenario_C15_ask()          { zzpeer.Ask(zzNew(), 3) }
func zzThorough_C15_ask_longer()   { zzpeer.Ask(zzNew(), 4) }
func zzScenario_C15_inbound()      { zzpeer.Inbound(zzNew(), 3) }
