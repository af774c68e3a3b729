package handler

import "github.com/nanobus/iota/go/internal/zzpeer"

func zzScenario_C11_serve()       { zzpeer.Serve(zzNew()) }
func zzScenario_C11_no_response() { zzpeer.ServeNoResponse(zzNew()) }
func zzScenario_C11_refuse()      { zzpeer.Refuse(zzNew()) }

func zzScenario_C11_chaos_stream()         { zzpeer.Chaos(zzNew(), 0, -1, 1) }
func zzScenario_C11_chaos_channel()        { zzpeer.Chaos(zzNew(), 1, -1, 1) }
func zzScenario_C11_chaos_response()       { zzpeer.Chaos(zzNew(), 2, -1, 1) }
func zzScenario_C11_chaos_served_stream()  { zzpeer.Chaos(zzNew(), 3, -1, 1) }
func zzScenario_C11_chaos_served_channel() { zzpeer.Chaos(zzNew(), 4, -1, 1) }

func zzThorough_C11_stream_after_payload()         { zzpeer.Chaos(zzNew(), 0, 0, 2) }
func zzThorough_C11_stream_after_error()           { zzpeer.Chaos(zzNew(), 0, 1, 2) }
func zzThorough_C11_stream_after_demand()          { zzpeer.Chaos(zzNew(), 0, 2, 2) }
func zzThorough_C11_stream_after_cancel()          { zzpeer.Chaos(zzNew(), 0, 3, 2) }
func zzThorough_C11_stream_after_request()         { zzpeer.Chaos(zzNew(), 0, 4, 2) }
func zzThorough_C11_channel_after_payload()        { zzpeer.Chaos(zzNew(), 1, 0, 2) }
func zzThorough_C11_channel_after_error()          { zzpeer.Chaos(zzNew(), 1, 1, 2) }
func zzThorough_C11_channel_after_demand()         { zzpeer.Chaos(zzNew(), 1, 2, 2) }
func zzThorough_C11_channel_after_cancel()         { zzpeer.Chaos(zzNew(), 1, 3, 2) }
func zzThorough_C11_channel_after_request()        { zzpeer.Chaos(zzNew(), 1, 4, 2) }
func zzThorough_C11_response_after_payload()       { zzpeer.Chaos(zzNew(), 2, 0, 2) }
func zzThorough_C11_response_after_error()         { zzpeer.Chaos(zzNew(), 2, 1, 2) }
func zzThorough_C11_response_after_demand()        { zzpeer.Chaos(zzNew(), 2, 2, 2) }
func zzThorough_C11_response_after_cancel()        { zzpeer.Chaos(zzNew(), 2, 3, 2) }
func zzThorough_C11_response_after_request()       { zzpeer.Chaos(zzNew(), 2, 4, 2) }
func zzThorough_C11_served_stream_after_payload()  { zzpeer.Chaos(zzNew(), 3, 0, 2) }
func zzThorough_C11_served_stream_after_error()    { zzpeer.Chaos(zzNew(), 3, 1, 2) }
func zzThorough_C11_served_stream_after_demand()   { zzpeer.Chaos(zzNew(), 3, 2, 2) }
func zzThorough_C11_served_stream_after_cancel()   { zzpeer.Chaos(zzNew(), 3, 3, 2) }
func zzThorough_C11_served_stream_after_request()  { zzpeer.Chaos(zzNew(), 3, 4, 2) }
func zzThorough_C11_served_channel_after_payload() { zzpeer.Chaos(zzNew(), 4, 0, 2) }
func zzThorough_C11_served_channel_after_error()   { zzpeer.Chaos(zzNew(), 4, 1, 2) }
func zzThorough_C11_served_channel_after_demand()  { zzpeer.Chaos(zzNew(), 4, 2, 2) }
func zzThorough_C11_served_channel_after_cancel()  { zzpeer.Chaos(zzNew(), 4, 3, 2) }
func zzThorough_C11_served_channel_after_request() { zzpeer.Chaos(zzNew(), 4, 4, 2) }
