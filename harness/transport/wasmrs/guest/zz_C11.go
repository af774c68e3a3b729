package guest

import "github.com/nanobus/iota/go/internal/zzpeer"

func zzScenario_C11_serve()                { zzpeer.Serve(zzNew()) }
func zzScenario_C11_no_response()          { zzpeer.ServeNoResponse(zzNew()) }
func zzScenario_C11_refuse()               { zzpeer.Refuse(zzNew()) }
func zzScenario_C11_chaos_stream()         { zzpeer.Chaos(zzNew(), 0, -1, 1) }
func zzScenario_C11_chaos_channel()        { zzpeer.Chaos(zzNew(), 1, -1, 1) }
func zzScenario_C11_chaos_response()       { zzpeer.Chaos(zzNew(), 2, -1, 1) }
func zzScenario_C11_chaos_served_stream()  { zzpeer.Chaos(zzNew(), 3, -1, 1) }
func zzScenario_C11_chaos_served_channel() { zzpeer.Chaos(zzNew(), 4, -1, 1) }

func zzThorough_C11_more_chaos_stream()         { zzpeer.Chaos(zzNew(), 0, -1, 2) }
func zzThorough_C11_more_chaos_channel()        { zzpeer.Chaos(zzNew(), 1, -1, 2) }
func zzThorough_C11_more_chaos_response()       { zzpeer.Chaos(zzNew(), 2, -1, 2) }
func zzThorough_C11_more_chaos_served_stream()  { zzpeer.Chaos(zzNew(), 3, -1, 2) }
func zzThorough_C11_more_chaos_served_channel() { zzpeer.Chaos(zzNew(), 4, -1, 2) }
