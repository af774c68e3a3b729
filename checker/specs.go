package main

import "verif/checker/rules"

// spec says how one property is decided.
type spec struct {
	explain   string
	assume    []string
	scenarios int // at least so many scenarios
	functions int // at least so many functions of the repository analysed
	rules     []*rules.Rule
	wasm      bool // also on the build for WebAssembly
}

var commonAssumptions = []string{
	"the Go compiler, go/types and go/ssa represent the program faithfully",
	"linux/amd64 build; where built_for_webassembly is given, also the build of a module: the files for WebAssembly, with 32-bit int, uint and uintptr",
	"standard library functions whose source is not analysed do what their documentation says; where not modelled they return unknown values and do not change the objects they are given",
}

var specs = map[string]spec{
	"C01": {
		wasm:      true,
		explain:   "Abstract interpretation of Sizer and Encoder for every kind of value: for each abstract value the number of bytes the sizer counts is what the encoder writes, on every path.",
		scenarios: 1, functions: 20,
	},
	"C02": {
		wasm:      true,
		explain:   "Abstract interpretation of Encoder followed by Decoder: for each abstract value of each kind the decoded value is the encoded one, nothing is left over, and the bytes are those of the format.",
		scenarios: 40, functions: 20,
	},
	"C03": {
		wasm:      true,
		explain:   "Abstract interpretation of every Decoder operation on unknown bytes at an unknown position: every index, slice bound, allocation size, conversion and explicit panic reached is shown harmless, and every proper prefix of an encoding is shown to be refused.",
		scenarios: 60, functions: 20,
		assume: []string{"inputs are shorter than 2 GiB"},
	},
	"C04": {
		wasm:      true,
		explain:   "Abstract interpretation of the integer reads on unknown bytes and on encodings of unknown integers: the narrow read agrees with the 64-bit read whenever it succeeds and fails exactly when the value does not fit.",
		scenarios: 25, functions: 20,
	},
	"C05": {
		wasm:      true,
		explain:   "Abstract interpretation of Encode into a buffer with unknown contents followed by header parsing and Decode, for an unknown frame of each type: every field is compared, and the bytes are compared with the RSocket layout.",
		scenarios: 10, functions: 15,
	},
	"C06": {
		wasm:      true,
		explain:   "Abstract interpretation of header parsing and Decode of each frame type on unknown bytes: every index, slice and allocation reached is discharged and accepted frames are shown long enough.",
		scenarios: 6, functions: 8,
		assume: []string{"inputs are shorter than 2 GiB"},
	},
	"C07": {
		wasm:      true,
		explain:   "Abstract interpretation of Fragment on unknown frames and limits: sizes, flags and the concatenation of the fragments are compared with the frame.",
		scenarios: 4, functions: 4,
		assume: []string{"frames are at most about three times the limit", "limits are at least 64 bytes"},
	},
	"C08": {
		wasm:      true,
		explain:   "Abstract interpretation of Next from an unknown counter: parity, range and succession of the identifiers; and of requests of every kind made by the handler, the guest, the host, a server and a client: the identifiers of their frames.",
		scenarios: 8, functions: 30,
		assume: []string{"sync/atomic additions are atomic"},
		rules:  []*rules.Rule{rules.Counters},
	},
	"C09": {
		wasm:      true,
		explain:   "Abstract interpretation of every sequence of table operations of bounded length on unknown identifiers, compared with a model table.",
		scenarios: 1, functions: 4,
		rules: []*rules.Rule{rules.Sharing("proxy.Lookup", "proxy.node")},
	},
	"C10": {
		wasm:      true,
		explain:   "Abstract interpretation of the RSocket handler, the WebAssembly guest and the WebAssembly host with two open requests, on every sequence of unknown payload and error frames of bounded length, in every order of the goroutines; what each requester gets is compared with a model.",
		scenarios: 9, functions: 60,
		assume: []string{"contexts are not cancelled meanwhile", "items are shorter than 100 bytes"},
		rules:  []*rules.Rule{rules.Sharing("proxy.Lookup", "proxy.node")},
	},
	"C11": {
		wasm:      true,
		explain:   "Abstract interpretation of the RSocket handler, the WebAssembly guest and the WebAssembly host on unknown requests of each kind, on requests nothing serves, and on every sequence of unknown frames of bounded length to open streams of every kind.",
		scenarios: 12, functions: 60,
		assume: []string{"handlers of the application return and do not panic", "contexts are not cancelled meanwhile"},
	},
	"C14": {
		wasm:      true,
		explain:   "Abstract interpretation of monos, fluxes, processors, maps and slices on every sequence of signals, demand, cancellation and notifications of bounded length with unknown items and errors; what the subscriber, the notifications and the source see is compared with a model.",
		scenarios: 12, functions: 30,
		assume: []string{"a sink is used by one goroutine at a time"},
	},
	"C15": {
		wasm:      true,
		explain:   "Abstract interpretation of the RSocket handler, the WebAssembly guest and the WebAssembly host as requester and as responder of streams and channels, on every sequence of demand, cancellation, items and endings of bounded length; the frames sent and the demand passed on are compared with a model.",
		scenarios: 10, functions: 60,
		assume: []string{"contexts are not cancelled meanwhile", "items are shorter than 100 bytes"},
		rules:  []*rules.Rule{rules.Sharing("proxy.streamFlux", "handler.requestStream", "transport/wasmrs/guest.requestStream", "transport/wasmrs/host.requestStream")},
	},
	"C12": {
		wasm:      true,
		explain:   "Abstract interpretation of registrations of unknown kinds and names followed by lookups of known and unknown indices, and of handlers set for a host at any indexes.",
		scenarios: 4, functions: 20,
	},
	"C30": {
		wasm:      true,
		explain:   "Abstract interpretation of requests of each kind served by the host on behalf of an open, an unknown or no other request, and by the handler and the guest: what the context of the application's handler holds.",
		scenarios: 8, functions: 40,
		assume: []string{"package context is correct"},
	},
	"C13": {
		wasm:      true,
		explain:   "Abstract interpretation of ToBytes followed by FromBytes on unknown operations, and of FromBytes on unknown and cut bytes.",
		scenarios: 6, functions: 2,
	},
	"C16": {
		explain:   "Abstract interpretation of writes and flushes of unknown frames to a connection that works or fails; the bytes sent and the locks held are compared with what is expected.",
		scenarios: 3, functions: 8,
		assume: []string{"bufio.Writer keeps the order of what is written and writes it when flushed"},
		rules:  []*rules.Rule{rules.Sharing("transport/rsocket.TCPConn")},
	},
	"C17": {
		explain:   "Abstract interpretation of the frame splitter on unknown bytes, and of reading unknown frames sent one after another.",
		scenarios: 4, functions: 10,
		assume: []string{"bufio.Scanner calls the split function with what was read and not consumed, and reuses its buffer"},
	},
	"C18": {
		wasm:      true,
		explain:   "Abstract interpretation of every sequence of queue operations of bounded length on unknown values, compared with a model queue.",
		scenarios: 2, functions: 4,
		rules: []*rules.Rule{rules.Sharing("internal/buffer.Unbounded")},
	},
	"C19": {
		wasm:      true,
		explain:   "Abstract interpretation of every transform: encoding of unknown values followed by decoding, and decoding of unknown bytes.",
		scenarios: 26, functions: 30,
		assume: []string{"inputs are shorter than 2 GiB", "objects lie at addresses above 4 GiB", "time.Time.Format and time.Parse with time.RFC3339Nano are inverse for years 0 to 9999"},
	},
	"C25": {
		explain:   "Abstract interpretation of starting, sending on and closing transports on connections that give any frames and end, fail or are cancelled at every point, and of a server whose listener gives two connections and ends, fails or is closed at every point.",
		scenarios: 9, functions: 20,
		assume: []string{"a goroutine that starts to read frames reads all that are there"},
		rules:  []*rules.Rule{rules.Sharing("transport/rsocket.Transport", "transport/rsocket.tcpServerTransport", "transport/wasmrs/host.Instance")},
	},
	"C33": {
		explain:   "Abstract interpretation of the fields of unknown identifiers and times against the layout of RFC 4122, and of three readings of an unknown clock.",
		scenarios: 8, functions: 8,
		assume: []string{"the clock is between 1970 and 2116"},
		rules:  []*rules.Rule{rules.Sharing("types/uuid")},
	},
	"C20": {
		explain:   "Abstract interpretation of formatting followed by parsing of unknown identifiers, of parsing unknown texts of every length, and of random generation from an unknown source.",
		scenarios: 12, functions: 10,
		rules: []*rules.Rule{rules.Sharing("types/uuid")},
	},
	"C21": {
		wasm:      true,
		explain:   "Abstract interpretation of put, get and remove on unknown instances and handles.",
		scenarios: 2, functions: 4,
		assume: []string{"objects lie at addresses above 4 GiB"},
		rules:  []*rules.Rule{rules.Sharing("invoke.LiveInstances")},
	},
	"C22": {
		explain:   "Abstract interpretation of loading modules of unknown exports and imports in every order, calling them directly and through the mesh, reloading, failing and closing; who is called and with what is compared with a model.",
		scenarios: 5, functions: 20,
		assume: []string{"modules are loaded by one goroutine", "wazero runs modules as documented"},
	},
	"C23": {
		explain: "Lockset dataflow over all functions of the repository: locks held on all and on some paths to every instruction, through static calls and deferred calls; guards of fields are inferred from the accesses under a lock.",
		rules:   []*rules.Rule{rules.Guards, rules.Globals, rules.Released, rules.Order, rules.Publish, rules.Sections, rules.Closes, rules.Monitors},
		assume:  []string{"objects are not shared before the function that makes them returns", "locks are only taken through access paths from parameters, captured variables, locals and package variables"},
	},
	"C24": {
		wasm:      true,
		explain:   "Abstract interpretation of flows of bounded length with steps of every kind, awaiting results that end before or after and in any order; the start of each step and the end of the flow are compared with a model.",
		scenarios: 1, functions: 15,
		assume: []string{"awaited results end one after another"},
	},
	"C26": {
		wasm:      true,
		explain:   "Abstract interpretation of host, guest and handler sending and receiving unknown frames through buffers of unknown sizes and contents; what arrives, what is refused and which requests fail is compared with what was sent.",
		scenarios: 7, functions: 40,
		assume: []string{"memory of a module is read and written within its bounds only"},
	},
	"C27": {
		wasm:      true,
		explain:   "Abstract interpretation of every converter on unknown values, absent values and errors.",
		scenarios: 8, functions: 8,
	},
	"C28": {
		wasm:      true,
		explain:   "Abstract interpretation of Encode followed by Decode on unknown messages, and of Decode on unknown and cut bytes.",
		scenarios: 3, functions: 2,
	},
	"C29": {
		wasm:      true,
		explain:   "Abstract interpretation of the 24-bit conversions on unknown numbers and bytes.",
		scenarios: 3, functions: 6,
	},
	"C31": {
		explain:   "Abstract interpretation of reading modules made of unknown sections, and of what is not a module.",
		scenarios: 4, functions: 3,
		assume: []string{"bytes.Reader and io behave as documented"},
	},
	"C32": {
		explain:   "Abstract interpretation of announcing unknown operations and reading the announcement, and of instantiating modules with missing or failing functions.",
		scenarios: 6, functions: 10,
		assume: []string{"wazero runs modules as documented"},
	},
}
