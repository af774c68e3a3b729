#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
props, checks, na = [], [], []
AI = 'abstract interpretation of go/ssa'
TRUST = ' Trusts go/types, go/ssa and the models of standard library functions whose source is not analysed.'

def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, reason=None):
    assert len(title) <= 80, title
    props.append({'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files.split(), 'mechanism': [{'name': m.split('@')[0], 'where': m.split('@')[1]} for m in mech.split(';')]}})
    if reason:
        na.append({'property': id, 'reason': reason})
    else:
        checks.append({'property': id, 'quick_cmd': f'./check.sh {id} quick', 'thorough_cmd': f'./check.sh {id} thorough',
            'technique': technique, 'level': 'other', 'level_note': note + TRUST})

P('C01', 'The computed MessagePack size is exactly what encoding takes',
  'For every value the codec supports, the number of bytes the size computation gives for it is exactly the number of bytes encoding it writes. A buffer of the computed size always suffices, and one byte less never does, whatever the value.',
  'inputs', 'every value of every supported type: all integer, float, time, string and byte values, nil and non-nil optionals, dynamic values, slices and maps',
  'Sizes change at many value boundaries of every width and type; a test samples a few values, and a disagreement at an untested boundary truncates or corrupts the payload of a request.',
  'go/msgpack/sizer.go go/msgpack/encoder.go go/msgpack/codec.go', 'Sizer@go/msgpack/sizer.go;Encoder@go/msgpack/encoder.go',
  AI + ' (affine, interval and bit domains) of sizer and encoder',
  'Every value of each kind over the abstract domain. Slices and maps are analysed empty and with one arbitrary element; headers are analysed for every count.')

P('C02', 'Values survive MessagePack encoding and decoding, in the standard formats',
  'Every value written by the encoder is read back by the matching read as the same value, with nothing left over, and nil optionals are read back as nil. Dynamic values come back as the same data, and the bytes written are the ones the MessagePack format prescribes, so that peers in other languages read the same value.',
  'inputs', 'every value of every supported type, including boundary integers, NaN and negative floats, times before 1970 and with nanoseconds, strings and byte slices of any length, optionals, slices and maps',
  'The format has a different layout for each range of values; only values on both sides of every boundary, for every type, show that writer and reader agree.',
  'go/msgpack/encoder.go go/msgpack/decoder.go go/msgpack/data_reader.go', 'Encoder@go/msgpack/encoder.go;Decoder@go/msgpack/decoder.go;DataReader@go/msgpack/data_reader.go',
  AI + ': encoder and decoder composed, results compared symbolically bit by bit',
  'Every value of each kind over the abstract domain. Containers are analysed empty and with one arbitrary element, nesting one level.')

P('C03', 'Malformed or truncated MessagePack never panics and never over-allocates',
  'Whatever bytes a peer sends, decoding them returns a value or an error: it never panics, never reads beyond the bytes given and never allocates more than in proportion to them. A proper prefix of an encoded value is always reported as an error, and nesting deeper than the documented limit is refused instead of exhausting the stack.',
  'inputs', 'every byte sequence shorter than 2 GiB, at every read position, for every read operation',
  'The inputs are arbitrary bytes; a sample of malformed ones says nothing about the length field or prefix nobody tried, and one panic takes the process down for every connection.',
  'go/msgpack/decoder.go go/msgpack/data_reader.go', 'bounds checks@go/msgpack/data_reader.go;decodeNext and Skip@go/msgpack/decoder.go',
  AI + ': every index, slice, allocation and conversion reached from each read on unknown bytes is discharged',
  'Every byte sequence below 2 GiB from every position (positions abstracted to any). Recursion is discharged by an inductive contract on the recursive read.')

P('C04', 'Reading an integer yields its value or an error, never a truncated one',
  'When an encoded integer is read into an integer type, the result is the same number if it fits that type and an error otherwise; it is never truncated, wrapped or given another sign. This holds for every encoding a peer may choose, also wider than necessary.',
  'inputs', 'every integer value in every integer format, read into every signed and unsigned width, plain and optional',
  'Silent truncation shows only at values that straddle a width boundary in a format the local writer would not choose.',
  'go/msgpack/decoder.go', 'Decoder.ReadInt*, ReadUint*@go/msgpack/decoder.go',
  AI + ' (bit and interval domains): reads of any bytes in two widths are compared',
  'All encodings and all values.')

P('C05', 'Frames are read back exactly as they were written, in the RSocket layout',
  'Every frame that is encoded into a buffer of its computed size, whatever the buffer held before, is decoded as the same frame: stream, type, flags, demand, error code, metadata and data. The bytes are those the RSocket protocol prescribes, so that other implementations read the same frame.',
  'inputs', 'every frame type, stream identifier, flag combination, demand, error code, metadata of up to 24 bits of length and data of any length, in buffers with any previous contents',
  'Flags, optional metadata and the per-type fields combine; tests encode a few frames into fresh buffers and never see a flag combination or stale byte that breaks decoding.',
  'go/internal/frames/request_payload.go go/internal/frames/payload.go go/internal/frames/frame_header.go go/internal/frames/error.go go/internal/frames/request_n.go go/internal/frames/cancel.go',
  'Encode, Decode and Size of each frame@go/internal/frames;frame header@go/internal/frames/frame_header.go',
  AI + ': encode and decode composed over unknown frames and dirty buffers', 'All frames with metadata below 2^24 and data below 2^30 bytes.')

P('C06', 'A truncated or malformed frame is refused, never a panic',
  'Decoding the bytes of any frame, of any type and with any flags, yields a frame or an error; it never panics or reads beyond the frame. Frames too short for the fields their type and flags promise are refused, and metadata never extends into or beyond what was received.',
  'inputs', 'every byte sequence of at least a header, as every frame type',
  'A peer controls every length field; only all combinations of flags, lengths and frame sizes show that none gets past the checks.',
  'go/internal/frames/util.go go/internal/frames/request_payload.go go/internal/frames/payload.go go/internal/frames/error.go go/internal/frames/request_n.go',
  'readMetadata@go/internal/frames/util.go;Decode of each frame@go/internal/frames', AI + ' of every Decode on unknown bytes', 'All byte sequences below 2 GiB.')

P('C07', 'Fragments of a frame fit the limit and put together are the frame',
  'A frame larger than the given limit is split into fragments that each fit the limit, on the same stream, whose metadata and data put together are those of the frame, without loss, repetition or change. All but the last announce that more follow, and completion is signalled by the last only.',
  'inputs', 'requests and payloads with any metadata and data of up to two limits in size, and any limit of at least 64 bytes',
  'Whether a piece is lost, repeated or oversized depends on the exact relation of metadata, data and limit; tests try a few sizes.',
  'go/internal/frames/util.go go/internal/frames/payload.go go/internal/frames/request_payload.go', 'splitPayloads@go/internal/frames/util.go;Fragment@go/internal/frames',
  AI + ' with affine lengths: the fragments are concatenated and compared', 'Frames of up to about three fragments; limits from 64 bytes up.')

P('C08', 'Stream identifiers are never zero, keep to their side and do not repeat',
  'The identifiers a side gives to its requests are never zero, have at most 31 bits and are odd for the connecting side and even for the accepting side, so the two sides never choose the same one. Each is the previous one plus two, starting over only after all of them were used.',
  'histories', 'any number of requests made before, including every wrap-around of the identifier space',
  'The first wrong identifier may come after a billion requests; no test counts that far.',
  'go/internal/socket/stream_id.go', 'ClientStreamIDs and ServerStreamIDs@go/internal/socket/stream_id.go',
  AI + ' from every counter value', 'All counters below 2^61. Uniqueness under concurrency is reduced to the atomicity of the counter increment.')

P('C12', 'An operation index always leads to the handler registered for it',
  'Every handler registered is found under the index of its position, in the list of its kind, and listed under its own name; indices never given out lead to no handler instead of a panic. Importing the same operation again gives the same index and importing another one a different index, and imports and exports do not mix.',
  'histories', 'any sequence of registrations of any kinds under any names, and any index in a request',
  'Indices are exchanged with other processes; whether the four kinds stay in step depends on the order of registrations, of which tests have one.',
  'go/invoke/handlers.go', 'Export*, Import*, Get*Handler@go/invoke/handlers.go', AI + ' of registration sequences over unknown names and indices',
  'All sequences of three registrations with any kinds and names; all indices.')

P('C13', 'The operation table survives its binary form, and malformed ones are refused',
  'A table of operations written to bytes is read back with the same operations in the same order, in the documented layout. Reading any bytes yields a table or an error without panicking or allocating out of proportion, tables cut short are refused and reserved fields are skipped.',
  'inputs', 'every table with names of up to 65535 bytes, and every byte sequence as input',
  'The table comes from a guest module; tests read the tables this code writes.',
  'go/operations/operatons.go', 'ToBytes and FromBytes@go/operations/operatons.go', AI + ' of writer and reader composed, and of the reader on unknown bytes',
  'Round trips for tables of up to two (thorough: three) arbitrary operations; any input bytes below 2 GiB.')

P('C18', 'The unbounded queue keeps order, loses nothing and ends exactly once drained',
  'Values put into the queue are taken in the order they were put, each exactly once, also when the queue is disposed while values are waiting. After dispose nothing more is accepted, and the end is signalled after the last value and never before; no order of operations panics.',
  'histories', 'every sequence of puts, takes with loads, and disposals up to the bound, with any values',
  'The queue has a hand-over slot, a backlog and two ways to end; what gets lost depends on the order of operations.',
  'go/internal/buffer/unbounded.go', 'Put, Load, Dispose@go/internal/buffer/unbounded.go', AI + ' of all operation sequences against a model queue',
  'All sequences of four (thorough: five) operations followed by draining. Each operation is atomic under the lock of the queue, which C23 checks.')

P('C20', 'UUIDs survive every text and binary form, and random ones are version 4',
  'An identifier written as text, URN, braced text, text bytes or binary is read back as the same identifier, and texts of other lengths or with other characters are refused without a panic. Random identifiers, with and without the pool, carry version 4 and the RFC 4122 variant, and the pool is never left locked.',
  'inputs', 'every 128-bit value, every text of any length, every random source',
  'Hexadecimal tables and offsets are easily wrong for one digit at one position.',
  'go/types/uuid/uuid.go go/types/uuid/version4.go go/types/uuid/util.go go/types/uuid/marshal.go', 'Parse, String@go/types/uuid/uuid.go;NewRandom@go/types/uuid/version4.go',
  AI + ' with bit-precise table lookups: format and parse composed over unknown identifiers', 'All identifiers; all texts. Uniqueness is not claimed.')

P('C21', 'A handle leads to its live instance and to nothing once removed',
  'Every instance registered gets a handle of its own, which leads to that instance until it is removed and to nothing afterwards. Unknown handles lead to nothing, a removal affects no other instance, and the table is never left locked.',
  'histories', 'registrations, lookups and removals of any values, and any number as a handle',
  'Handles are addresses; a lookup that trusts one dereferences arbitrary memory, which tests with good handles never see.',
  'go/invoke/instances.go', 'LiveInstances@go/invoke/instances.go', AI + ' of operation sequences over unknown instances and handles',
  'The sequences of put, get and remove on one and two instances, with any handle.')

P('C27', 'Converters keep absent values absent, and decode errors visible',
  'Converting a decoded value never turns an absent value into a present one or the reverse, never parses or formats a value that is absent or failed to decode, and returns the decode error it was given, or the error of parsing. Values of the same or a wider kind are passed on unchanged.',
  'inputs', 'present and absent values of every kind, with and without a decode error',
  'Generated code trusts these converters for every field of every type; the error combinations are not tested at all.',
  'go/msgpack/convert/convert.go', 'Format, Parse, Nillable*@go/msgpack/convert/convert.go', AI + ' of each converter on unknown values and errors',
  'Each generic converter instantiated with representative types; conversions to narrower numbers are excluded, they truncate by design.')

P('C28', 'Port messages are read back as written, and malformed ones are refused',
  'A message of a flow port is read back with the same port, data and flags it was written with, in the documented layout. Any other bytes yield a message or an error without a panic, and messages cut short are refused.',
  'inputs', 'every port name of up to 65535 bytes, data of any length and flags; every byte sequence as input',
  'Message bytes come from other components; tests do not cover this code.',
  'go/invoke/portio.go', 'PortIO.Encode and Decode@go/invoke/portio.go', AI + ' of encode and decode composed, and of decode on unknown bytes', 'All messages and inputs below 2 GiB.')

P('C29', 'Frame lengths on the wire are 24 bits, and too long ones are refused',
  'A frame length below 2^24 is written as three bytes, most significant first, and read back as the same number by every reader. A larger length is reported as an error and nothing is written for it.',
  'inputs', 'every 32-bit length and every three bytes', 'A single wrong shift or bound shows only for lengths above 255, 65535 or 16777215, which tests of short messages never reach.',
  'go/internal/u24/u24.go', 'Uint24@go/internal/u24/u24.go', AI + ' (bit domain)', 'All lengths.')

P('C09', 'A stream is found under its identifier exactly while it is registered',
  'A stream added to the table of a connection is found under its own identifier until it is removed, whatever other streams are added, removed or looked for before or after it. An identifier that was never added, or was removed, leads to no stream, removing it changes nothing, and the table is never left locked.',
  'histories', 'every sequence of adding, removing and finding streams up to the bound, with any identifiers',
  'The table is a linked list; removing at its head, middle or end, or a stream that is not there, each change other links, and one lost link hides streams opened much earlier.',
  'go/proxy/lookup.go', 'Lookup.Add, Remove, Get@go/proxy/lookup.go', AI + ' of all operation sequences against a model table',
  'All sequences of three (thorough: four) operations over unknown identifiers, followed by a lookup of every identifier.')

P('C10', 'Every frame reaches the request it belongs to, once and in order, until its end',
  'A request is sent as one frame of its type with its data and metadata, under a stream identifier of its own. Each requester gets exactly the items, completion or error sent to its stream, in the order and with the contents they were sent, until the stream ended and nothing after that; frames for other, unknown or finished streams have no effect on it. A request for one response gets the first answer only, and its end is signalled once. This holds alike for the RSocket handler, the WebAssembly guest and the WebAssembly host, where frames go through their binary form and shared buffers.',
  'histories', 'every sequence of payload and error frames up to the bound, with any flags and contents, for either of two open requests or any other stream; in every order the started goroutines may run',
  'Which frame is misrouted depends on what arrived before it: after a completion, an error or for a neighbour. Tests exchange one request and one response.',
  'go/handler/handler.go go/proxy/stream.go go/transport/wasmrs/guest/guest.go go/transport/wasmrs/host/instance.go', 'HandleFrame and Request*@go/handler/handler.go;GuestSend and Request*@go/transport/wasmrs/guest/guest.go;recvLoop and Request*@go/transport/wasmrs/host/instance.go',
  AI + ' of each peer against a model of two requests over unknown frame sequences', 'Two requests and two (thorough: three) frames. Items are under 100 bytes, so that they fit the buffers of guest and host. The goroutines of a request run one after another, in every order.')

P('C11', 'Every incoming request is served by its handler and answered once, on its stream',
  'A request reaches the handler registered for its operation once, with its data, and its one response or error is sent to the stream it came from, whether the handler answers at once or later; a request without a response is not answered. A request for an operation that does not exist, or too short to name one, reaches no handler and is answered by one error on its own stream. No sequence of frames, of any types and contents on the stream of any request, makes a side panic, stop or keep a lock.',
  'inputs', 'every request of the four kinds with any stream, operation and contents; every sequence of frames up to the bound on streams of every kind',
  'Peers are not trusted to send frames in an expected order; a frame of the wrong type for its stream, or after its end, takes paths no test takes.',
  'go/handler/handler.go go/transport/wasmrs/guest/guest.go go/transport/wasmrs/host/instance.go', 'handleRequest*@go/handler/handler.go;handleRequest*@go/transport/wasmrs/guest/guest.go;handleRequest*@go/transport/wasmrs/host/instance.go',
  AI + ' of each peer on unknown requests and on every sequence of unknown frames', 'One request of each kind; one frame (thorough, on handler and guest: two) after opening a stream of every kind. Handlers of the application do not panic.')

P('C15', 'Demand and cancellation reach the other side, and no more is asked than wanted',
  'The items a subscriber asks for, before and after the request was sent, add up to the demand its responder gets, in the request and the demand frames after it. The demand arriving for a stream that is served reaches its producer, and a cancellation stops the producer once, also if it arrives right after the request; what the producer emits until the end of the stream is sent in order, followed by its completion or error. The same holds for the input of a channel. Cancelling sends one cancellation, and nothing reaches the subscriber after it.',
  'histories', 'every sequence of demand, cancellation, items and endings up to the bound, from either side, with any amounts, for streams and channels, in every order the started goroutines may run',
  'Demand that is lost stalls a stream forever, and only for the one order of events that loses it.',
  'go/handler/handler.go go/proxy/stream.go go/transport/wasmrs/guest/guest.go go/transport/wasmrs/host/instance.go go/rx/flux/flux.go', 'handleRequestStream, handleRequestChannel, handleRequestN, handleCancel@go/handler/handler.go;the same@go/transport/wasmrs',
  AI + ' of each peer against a model of demand over all event sequences', 'Two (thorough: three) events after the request. The responder does not end a channel while its input goes on, see DESIGN.md.')

P('C14', 'A mono or flux gives its items in order and then ends exactly once',
  'A subscriber of a mono or flux gets the items in the order they were signalled, then at most one completion or error, then its end once, with the signal it ended with, and nothing after that: no item, second end, error or request for demand, whatever is signalled, requested or cancelled later or by the callbacks themselves. Notifications are given once each, with the same end, whether asked for before, during or after it. Demand and cancellation reach the source, each once, and a subscriber is asked for more when all it asked for has arrived and not earlier. A mapped one gives the transformed items until a transformation fails, which cancels the source and ends it with that error. Waiting for one returns its result or error once it ended. Slices are given in order and only as far as asked for. A result signalled to a processor before anyone subscribed is kept.',
  'histories', 'every sequence of items, completion, errors, demand, cancellation and notifications up to the bound, before and after the end and from within callbacks, for sources of every kind, mapped or not',
  'Every request of the system ends through these few functions; a second or missing end shows only for certain orders of events.',
  'go/rx/mono/mono.go go/rx/mono/processor.go go/rx/mono/mono_host.go go/rx/flux/flux.go go/rx/flux/flux_host.go go/rx/flux/processor.go go/rx/flux/slice.go go/rx/flux/response.go', 'mono, subscriber, mapper@go/rx/mono/mono.go;flux, subscriber, mapper@go/rx/flux/flux.go;processor@go/rx/flux/processor.go',
  AI + ' of every event sequence against a model of one subscriber', 'All sequences of three (thorough: four) events on one subscriber. Signals from different goroutines at the same instant are not covered: a sink is used by one goroutine at a time. Items signalled to a flux processor before anyone subscribed are lost by design.')

P('C24', 'A flow starts a step only when all that the step before waits for has ended',
  'The steps of a flow run in order, each once, and a step starts when everything the step before waits for has ended and not earlier, whether that ended before, during or after the wait began, and in whatever order. A step that fails, gives the result, ends the flow or waits for nothing is the last one; a failure or result reaches the subscriber of the flow once.',
  'histories', 'every flow of up to the bound of steps, each waiting for one or two results that ended or end later in any order with success or error, failing, ending or giving the result',
  'Steps are counted by notifications; whether one is counted twice or in the wrong step depends on the order in which awaited results end.',
  'go/rx/flow/flow.go go/rx/await/await.go', 'Flow.next, Flow.check@go/rx/flow/flow.go', AI + ' of flows with all kinds of steps and all orders of their results', 'Flows of three steps, as mono and as flux. Results end one at a time, not at the same instant in different goroutines.')

P('C16', 'Frames are written to a connection whole, in order, behind their length',
  'Each frame written to a TCP connection is sent as its length in three bytes followed by exactly its bytes, in the order the frames were written and not mixed with those of another one: all bytes of a frame are written under one lock, which is not kept. Flushing sends everything written. A frame too long for the length is refused and none of it is written, and a connection that fails is reported.',
  'histories', 'every sequence of writes and flushes up to the bound, of frames of any size and contents; a connection that fails',
  'One missing or extra byte shifts all later frames of the connection; two goroutines interleaving their bytes is a race no test forces.',
  'go/transport/rsocket/tcp_conn.go go/transport/rsocket/transport.go', 'TCPConn.Write, TCPConn.Flush@go/transport/rsocket;Transport.Send@go/transport/rsocket', AI + ' of writes and flushes against the expected bytes, with a lock on every write', 'Two frames, flushed together or apart. bufio.Writer is modelled: it keeps bytes in order and passes them on when flushed.')

P('C17', 'Bytes from a connection are cut into the frames that were sent',
  'The bytes of a TCP connection are split at the lengths before the frames, and each frame is read as what its type, flags and bytes mean, in the order they were sent; a frame already read does not change when later ones are read. A frame is only read when all its bytes are there. Empty frames, frames shorter than their header and frames of unknown types are refused with an error and without a panic, and the end of the connection is reported as such.',
  'inputs', 'every byte sequence as a frame, every pair of frames sent after each other',
  'Buffers are used again for later frames, and lengths come from the peer; tests do not read from a connection.',
  'go/transport/rsocket/tcp_conn.go go/transport/rsocket/decoder.go', 'LengthBasedFrameDecoder.Read, doSplit, TCPConn.Read@go/transport/rsocket', AI + ' of the frame splitter on unknown bytes, and of two frames sent after each other', 'Frames of any length below 2^24. bufio.Scanner is modelled, including the reuse of its buffer.')

P('C19', 'Values sent as payloads arrive as the same values, or are refused',
  'What a transform encodes is decoded by the transform of the same type as the same value: numbers, text, bytes, times, named types, types with codecs, and slices of them. A value or codec that fails is reported. Bytes that mean another type, are cut or do not fit the number asked for are refused with an error. Any bytes give a value or an error, without a panic and without allocating more than the input accounts for.',
  'inputs', 'every value of every supported kind; every byte sequence as payload',
  'The payload comes from the other side; tests do not decode what another type encoded, nor lengths larger than the data.',
  'go/transform', 'Codec, Primitive, String, Bytes and the slice transforms@go/transform', AI + ' of encoding followed by decoding, and of decoding unknown bytes', 'Slices of bools, strings and codecs with up to three items for the round trip; time.Format and Parse are modelled for the years 0 to 9999.')

P('C22', 'An imported operation is served by the module that exports it, as it was called',
  'A call of an imported operation reaches the module loaded last that exports an operation of the same namespace, name and type, under the index of the operation in that module, with data, context, input and the rest of the metadata unchanged, and the caller gets its response. It does not matter which of the two was loaded first, nor whether one was loaded again. An import nobody exports stays unlinked until a module exports it. Requests made through the mesh go the same way, or fail as not found. A module that fails to load is reported and changes nothing; a replaced one is closed later, not while requests may use it, and every loaded module is closed once with the mesh.',
  'histories', 'every order of loading, loading again, failing to load, calling and closing up to the bound, with any names, types, indices and contents',
  'Linking depends on the order modules are loaded in and on equal names of other types or namespaces; there is no test of the mesh.',
  'go/transport/wasmrs/mesh go/transport/wasmrs/host', 'loading, linking and requests@go/transport/wasmrs/mesh;imports and exports of a module@go/transport/wasmrs/host', AI + ' of loading and calling in every order, against a model of who exports what', 'Two modules with up to two operations each and their reloading. Loading happens in one goroutine; running WebAssembly is replaced by modules with unknown operations.')

P('C26', 'Frames cross the WebAssembly boundary whole, or their request fails',
  'Frames pass between the WebAssembly host and its module whole and in the order they were sent, each behind its length in three bytes and within the buffer they share. A frame that does not fit is refused, nothing of it is passed, and the request it carries ends with an error, once. Frames that arrive together are each taken, and what was taken is unaffected when the buffer is used again. Lengths that exceed the buffer are ignored without a panic. A closed instance refuses frames and lets nobody wait.',
  'inputs', 'every frame of any length, buffers of any size and every content of the buffer, including lengths that lie',
  'The buffer is used again for every frame, and is shared with a module that may be anything; tests send one short frame.',
  'go/transport/wasmrs/host/instance.go go/transport/wasmrs/guest/guest.go go/handler/handler.go', 'Instance.sendMessage, hostSend@go/transport/wasmrs/host/instance.go;GuestSend, sendFrame@go/transport/wasmrs/guest/guest.go', AI + ' of sending and taking frames through a buffer of unknown size and contents', 'Two (thorough: three) frames one after another, and three arriving together. Memory of the module is modelled as a byte array that is read and written within its bounds. Responses that do not fit are not covered, see DESIGN.md.')

P('C23', 'Data shared under a lock is only touched under it, and no lock is kept',
  'A field or variable that changes after its construction and is protected by a lock is read and written only while that lock is held, by everything that may run at the same time. A lock that is taken is given back on every path, is not taken again by the one holding it, and locks are taken in one order, so that no goroutine waits for a lock forever. A result handed to a waiting goroutine is complete before it is announced.',
  'schedules', 'every interleaving of every function of the repository that accesses data a lock protects, and every path through them',
  'A missing lock shows as a corrupted list or a lost wake-up only for one interleaving in millions; the race detector sees only the accesses a test happens to run at the same time.',
  'go/proxy/lookup.go go/proxy/flux.go go/internal/buffer/unbounded.go go/invoke/instances.go go/transport/rsocket/tcp_transport.go go/transport/rsocket/tcp_conn.go go/handler/handler.go go/transport/wasmrs/guest/guest.go go/transport/wasmrs/host/instance.go go/types/uuid/time.go go/types/uuid/uuid.go',
  'Lookup.mu@go/proxy/lookup.go;Unbounded.mu@go/internal/buffer/unbounded.go;requestStream.mu@go/handler/handler.go;tcpServerTransport.mu@go/transport/rsocket/tcp_transport.go;timeMu, poolMu@go/types/uuid', 'lockset dataflow over go/ssa with inferred guards, lock release and order, and publication order',
  'All functions of the repository; which lock protects a field is inferred from the accesses that hold one, so that data no access protects is not covered. Calls through interfaces and function values are taken to change no locks.')

P('C25', 'A transport hands on every frame, and ends with its connection closed once',
  'A transport that is started hands every frame that arrives to its handler, once and in order, until the connection ends, fails or its context is cancelled; what arrived before is handed on before it reports the failure, or none at the end, and its connection is closed, once, whoever closes it. What cannot be written or flushed is reported, also when there is no connection. A server gives each connection a transport and caller of its own, which send on that connection and no other, announces once whether it listens, never waits with a lock held, forgets connections that ended, and when it ends or is closed, before, while or after it listens, closes its listener and each connection once.',
  'histories', 'every sequence of up to three frames before the end, failure or cancellation; a server with up to two connections closed, cancelled or failing at every point',
  'Frames lost at the end of a connection, sockets left open and callers that write to the connection of somebody else are not visible in any test here: none opens a connection.',
  'go/transport/rsocket/transport.go go/transport/rsocket/tcp_transport.go', 'Transport.Start, Send, Flush, ReadFirst, Close@go/transport/rsocket/transport.go;tcpServerTransport.Listen, Close@go/transport/rsocket/tcp_transport.go', AI + ' of transports and servers on connections and listeners that end, fail or are closed at every point', 'Three frames, two connections. A read that is waiting when the context is cancelled goes on waiting until the connection is closed, by design of the transport. Connections and listeners are stand-ins that give frames and errors.')

P('C33', 'An identifier tells the fields of its bits, and clock readings differ',
  'The version, variant, time and clock sequence of an identifier are those its bits mean in RFC 4122, and a time gives the seconds and nanoseconds of the Unix time it is. A reading of the clock is the time of the clock with the clock sequence that was set or chosen, and is never the same as a recent one, even when the clock stands still or goes back.',
  'inputs', 'every identifier, every time, every behaviour of the clock over three readings',
  'A wrong mask or shift shows only for some identifiers, and equal readings only when the clock stands still or is set back; there is no test of these.',
  'go/types/uuid/time.go go/types/uuid/uuid.go', 'GetTime, SetClockSequence, UUID.Time, Time.UnixTime@go/types/uuid/time.go;UUID.Version, UUID.Variant@go/types/uuid/uuid.go', AI + ' against the bit layout of RFC 4122, and of readings of an unknown clock', 'Three readings, from four clock sequences including those that wrap. Clocks between 1970 and 2116.')

P('C31', 'Custom sections of a module are given as they are in the module',
  'The custom sections of a WebAssembly module that are asked for by name are given with exactly their bytes, sections of other names or kinds are skipped whatever their contents, and the rest of the module is read as if they were not there. What does not begin as a module of version 1 is refused with an error, and so is a section that is shorter than its own name.',
  'inputs', 'every module of up to one (thorough: two) sections of any kind and size, names wanted or not, sizes written in one to four bytes; every other beginning',
  'Sizes are written in variable length and sections are skipped by them, so a wrong one shifts everything behind; there is no test of this package.',
  'go/transport/wasmrs/customsections', 'Read, decodeUTF8, decodeCustomSection@go/transport/wasmrs/customsections', AI + ' of reading modules of unknown sections', 'One or two sections of up to 2 MiB, names "apex", "wanted" and "other". Reading of a variable-length number is modelled as the library does it.')

P('C32', 'A module announces its operations, and its host sees exactly those',
  'A guest announces every operation it exports or imports, once, with its kind, direction, namespace, name and the index it is called by, and nothing else. The host of a module reads the announced table from where the module says it is and has exactly these operations; a table that is not there is reported, and a module that lacks a function the host needs, or whose start or initialisation fails, is refused with an error, without a panic.',
  'inputs', 'every set of up to two (thorough: three) operations with any names; every table and every missing or failing function of a module',
  'The table is written by one side and read by the other by hand-made layouts; tests have one fixed module, with all functions.',
  'go/transport/wasmrs/guest/guest.go go/transport/wasmrs/host/instance.go go/transport/wasmrs/host/host.go go/operations', 'OperationList@go/transport/wasmrs/guest;instantiateWasmrs, opList@go/transport/wasmrs/host;FromBytes, ToBytes@go/operations', AI + ' of announcing, reading and instantiating', 'Two or three operations. The runtime is replaced by modules with any of their functions missing or failing.')

P('C30', 'A handler runs in the context of the request it serves',
  'A request a module makes while it serves a request of its host names that as its parent; the handler serving it on the host is called with the context the request of the host was made with, through any number of such steps. A request that names no parent, or one that is not open, is served in a context of no other request. The handler of a request for a response, or of one without a response, on an RSocket connection or in a guest finds the stream of its request in its context, and every handler finds what the context of its connection holds. The stream put into a context last is the one found in it, and a context holds none unless one was put there.',
  'inputs', 'requests of the four kinds with any stream identifier, contents and parent, on behalf of an open request of any kind, an unknown one or none',
  'Values such as identity and deadlines travel in the context; a request served in the context of a neighbour works in every test and acts on behalf of another.',
  'go/handler/handler.go go/transport/wasmrs/host/instance.go go/transport/wasmrs/guest/guest.go go/proxy/stream.go', 'parent streams@go/transport/wasmrs/host/instance.go;handleRequest*@go/handler/handler.go;handleRequest*@go/transport/wasmrs/guest/guest.go;FromContext, WithContext@go/proxy/stream.go',
  AI + ' of each peer serving unknown requests, against the context each request belongs to', 'One open request and up to two made on its behalf. Cancellation of contexts is not followed, it is not used by the code.')

P('C34', 'Random identifiers do not repeat',
  'Of the random identifiers a program makes, no two are the same.',
  'inputs', 'every number of random identifiers', 'Uniqueness is a matter of probability.', 'go/types/uuid/version4.go', 'NewRandom@go/types/uuid/version4.go', AI,
  reason='Two random identifiers may be equal by chance: the statement is one of probability over the random source, which no rule over the source decides. That each one is made of 122 bits of the source, which are used once, is decided by C20.')
P('C35', 'A request that was sent is answered in the end',
  'Every request gets its response, completion or error in the end, however many are under way, whatever the other side does and however goroutines are scheduled.',
  'schedules', 'every number of requests under way and every schedule', 'Liveness quantifies over schedules and over the other side.', 'go/handler/handler.go go/transport/wasmrs/host/instance.go', 'HandleFrame@go/handler/handler.go;sendLoop, recvLoop@go/transport/wasmrs/host/instance.go', AI,
  reason='Whether an answer comes depends on the other side, on handlers of the application and on the lengths of bounded queues under load, which are run-time quantities. That nothing waits with a lock held, that locks are taken in one order and that a closed instance lets nobody wait is decided by C23, C25 and C26; that a side answers what it serves is decided by C11.')
P('C36', 'Memory stays bounded whatever the load',
  'The memory a side needs stays within a bound, however many requests, items and frames arrive and however slow its handlers and subscribers are.',
  'schedules', 'every load', 'Memory under load is a quantity of the execution.', 'go/internal/buffer/unbounded.go go/handler/handler.go', 'Unbounded@go/internal/buffer/unbounded.go', AI,
  reason='The queues are unbounded by design and handlers run in one goroutine per request, so the memory depends on rates at run time. That a single message never makes a decoder allocate more than its bytes account for is decided by C03, C06, C13, C19 and C28.')
P('C37', 'A mono or flux may be signalled from several goroutines at once',
  'Signals, demand, cancellation and subscription from several goroutines at the same instant give a subscriber one order of items and one end.',
  'schedules', 'every interleaving of two goroutines within the operations of a mono or flux', 'Interleavings within an operation.', 'go/rx/mono/mono.go go/rx/flux/flux.go go/rx/mono/processor.go go/rx/flux/processor.go', 'subscriber@go/rx/mono/mono.go;subscriber@go/rx/flux/flux.go', AI,
  reason='Not promised by the code: sinks and processors carry no lock and leave it to their caller to signal one after another. Without a lock there is no static argument that it holds, and the statement is not one users of it may rely on. Every order of whole operations, also nested in callbacks, is decided by C14.')

# MORE

with open('/verif/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'cd checker && GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-buildvcs=false -mod=mod" go build -o ../bin/checker .', 'checks': checks, 'not_applicable': na,
  'notes': 'Static analysis: abstract interpretation over go/ssa of the current /repo tree, plus lockset, typestate and reachability rules. See DESIGN.md.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
