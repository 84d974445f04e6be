#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe or [], hook_needed=hook)))

# ---------------------------------------------------------------- reactive core
prop("R01", "Reactive signals: values, then at most one end, told once to everyone",
 "Whatever order a producer and a subscriber act in, including from inside callbacks, a subscriber of any publisher (single-value or multi-value; created, constant, error, processor, mapped or adapted) sees values followed by at most one completion or error, and sees nothing more once it was completed, failed or cancelled. Its finally-callback and every registered completion listener are each told exactly once, with the outcome that really happened (complete, error or cancel), whether the listener registered before, during or after the end. A value transformation that fails turns into that error and stops its source.",
 ["histories", "schedules"],
 "every sequence of producer signals (value, complete, error, attach) and subscriber actions (subscribe, request, cancel, register listener), issued from outside or re-entrantly from callbacks, over every publisher kind and up to two transformations; and every interleaving of registering a listener with the end",
 "No existing test touches the reactive packages; a test fixes one order of producer and consumer actions, while the guarantee is about all orders, re-entrancy and races with the end.",
 ["rx/flux/flux.go", "rx/flux/processor.go", "rx/mono/mono.go", "rx/mono/processor.go", "transform/transform.go"],
 [("closed flag and finally()", "rx/flux/flux.go, rx/mono/mono.go: subscriber"), ("operator wiring", "rx/flux/flux.go, rx/mono/mono.go: Map"), ("adaptors", "transform/transform.go: FluxToMono, FluxToVoid, MonoToFlux")],
 ["callbacks handed to Subscribe and Notify"])
prop("R02", "Demand is conserved: never more values than requested, no demand lost",
 "A value source (slice-backed, batch-response or adapted) never delivers more values than were requested in total, and delivers each value once and in order; every unit of demand a subscriber signals reaches the producer exactly once, whether it was signalled before or after the producer attached, and also through transformations. A subscriber with a demand callback is asked again exactly when the last requested value has arrived; one without it has unlimited demand, and one that opted out never requests on its own. Once a subscription has ended no further demand reaches the producer.",
 ["histories", "inputs"],
 "every slice length, every sequence of request sizes and values, every attach point, with and without a demand callback, with or without automatic requests",
 "No existing test exercises demand; conservation is a statement about whole histories of requests and values.",
 ["rx/flux/flux.go", "rx/flux/flux_host.go", "rx/flux/flux_webassembly.go", "rx/flux/slice.go", "rx/flux/response.go", "transform/transform.go"],
 [("demand counter", "rx/flux/flux.go: subscriber.Request/Next/OnSubscribe"), ("slice source", "rx/flux/slice.go: FromSlice"), ("batch helper", "rx/flux/response.go: SliceResponse")],
 ["producer request callback", "subscriber value callback"])
prop("R03", "Blocking on a publisher returns its own outcome, and always returns",
 "Blocking on any publisher that ends returns after it ended, with exactly the value or error it ended with (including errors produced by a transformation and publishers that had already ended), and never hangs or crashes. The callbacks passed to a blocking call are still invoked as in a normal subscription.",
 ["histories", "schedules"],
 "every publisher kind, with up to two transformations, ended before or after the blocking call starts, with value, error or completion",
 "No existing test blocks on a publisher; a hang or a lost outcome only shows for particular publisher kinds and orders.",
 ["rx/flux/flux_host.go", "rx/mono/mono_host.go", "proxy/mono_host.go"],
 [("blocking wait", "rx/flux/flux_host.go: Block; rx/mono/mono_host.go: Block; proxy/mono_host.go: Block")],
 ["return value of the blocking call"])
prop("R04", "Flows run their steps in order, once, after what they await has finished",
 "A flow runs its steps in the declared order, each exactly once, and starts a step only after everything the previous step awaited has finished, counting awaits that had already finished and steps that await nothing. A step error, an explicit end or a delivered final result ends the flow with exactly that outcome, and no later step runs; otherwise the flow never stalls while a step remains and all awaits have finished.",
 ["programs", "schedules"],
 "every flow of up to four steps with up to three awaits each, every order and moment in which the awaited items finish (before, during, after registration), every outcome",
 "No existing test runs a flow; the guarantee quantifies over programs and completion orders.",
 ["rx/flow/flow.go", "rx/await/await.go"],
 [("step driver", "rx/flow/flow.go: next, check")],
 ["step invocations", "outcome of the flow's publisher"])
# ---------------------------------------------------------------- request engine
prop("P01", "Every incoming request is answered exactly once, on its own stream",
 "On every endpoint (socket peer, guest module, host of a module) an incoming request-response gets exactly one answer on its own stream: the handler's payload marked as last, or its error (with the beginning of its text if the text does not fit the buffer or a frame); a request-stream or request-channel gets the handler's values in order followed by exactly one end marker or error; fire-and-forget calls its handler once and gets nothing back. A request naming an unknown operation or carrying too little metadata gets exactly one error on its stream and runs no handler. Requests on different streams never disturb each other, whatever order handlers finish in and however long one of them blocks.",
 ["histories", "inputs", "schedules"],
 "every interleaving of up to three concurrent requests of the four kinds with handler progress (values, completion, error, immediate or deferred, constant-error publishers), operation index and metadata length",
 "No existing test drives a request through any of the three endpoints.",
 ["handler/handler.go", "transport/wasmrs/guest/guest.go", "transport/wasmrs/host/instance.go"],
 [("request dispatch", "handler/handler.go: HandleFrame, handleRequest*; guest.go: GuestSend, handleRequest*; instance.go: recvOne, handleRequest*")],
 ["frames sent by the endpoint", "handler invocations"])
prop("P02", "Each outgoing request gets exactly its own responses",
 "Every outgoing request of an endpoint is sent once, when it is subscribed or awaited (streams: when their first demand is made), on a stream number of its own (which no open stream uses, also when the numbers start to repeat) with its payload unchanged, and every response frame for that stream - and no other - reaches that request's subscriber, in order, as value, completion or error, and everyone awaiting its end is told once. Frames for streams that are unknown, finished or cancelled are ignored without harming any other stream or the connection.",
 ["histories", "schedules"],
 "every interleaving of up to three concurrent outgoing requests with every order of response, duplicate, late and unknown-stream frames",
 "No existing test runs the requester side.",
 ["proxy/mono.go", "proxy/flux.go", "proxy/lookup.go", "handler/handler.go", "handler/caller.go", "transport/wasmrs/guest/caller.go", "transport/wasmrs/host/caller.go"],
 [("requester streams", "proxy/mono.go, proxy/flux.go"), ("frame routing", "handler/handler.go: HandleFrame; instance.go: recvOne; guest.go: GuestSend")],
 ["frames sent", "subscriber callbacks"])
prop("P03", "Stream flow control survives the wire in both directions",
 "The first demand of a requester travels as the initial demand of its request and every later demand as exactly one demand frame with the same amount on that stream; nothing is sent before the first demand or after the end. A responder passes exactly the initial demand plus all received demand to its publisher, also when demand frames arrive immediately behind the request, and so never sends more values than were asked for. For channels the same holds in the opposite direction for the request payloads.",
 ["histories", "schedules"],
 "every sequence of demands and values on up to two concurrent streams or channels, with demand frames arriving before, while and after the handler starts",
 "No existing test runs streams or channels.",
 ["proxy/flux.go", "handler/handler.go", "transport/wasmrs/guest/guest.go", "transport/wasmrs/host/instance.go", "rx/flux/flux.go"],
 [("demand frames", "proxy/flux.go: Request, DoRequest; handler.go/guest.go/instance.go: requestStream")],
 ["frames sent", "demand seen by the handler's publisher"])
prop("P04", "Cancelling a request stops its responder, and nothing else",
 "When a requester cancels a stream or channel, exactly one cancel frame goes out if its request had been sent (none otherwise), its subscriber sees nothing more, and the responder that receives the cancel stops its publisher and sends nothing further for that stream. A cancel (or any other frame) for a request that already ended, was never registered or was cancelled before is ignored; no cancel, however timed, crashes an endpoint or affects another stream.",
 ["histories", "schedules"],
 "every position of a cancel in the life of a request of every kind: before the first demand, between values, after the end, twice, for unknown streams, concurrently with other streams",
 "No existing test cancels anything.",
 ["handler/handler.go", "transport/wasmrs/guest/guest.go", "transport/wasmrs/host/instance.go", "proxy/flux.go", "rx/flux/flux.go"],
 [("cancel handling", "HandleFrame / recvOne / GuestSend: Cancel; proxy/flux.go: Cancel")],
 ["frames sent", "cancellation seen by the handler's publisher", "absence of panics"])
prop("P05", "The stream table is an exact map, also under concurrency",
 "Looking up a stream number finds exactly the stream registered under it (each number is registered at most once at a time): added and not yet removed streams are always found, removed or never added ones never, wherever they sit in the table and however often they are removed. The reported size is the number of registered streams at every moment, also when operations run concurrently.",
 ["histories", "schedules"],
 "every history of add, remove (present or absent), get, size over up to five stream numbers; concurrent histories must be linearizable",
 "No existing test covers the table.",
 ["proxy/lookup.go"],
 [("linked stream table", "proxy/lookup.go: Add, Remove, Get, Size, IsEmpty")],
 ["return values"])
prop("P06", "Stream numbers are unique, never zero and carry the side's parity",
 "Each side hands out stream numbers of its own parity only (odd for clients and guests, even for servers and hosts), starting at the smallest, never zero and never above the 31-bit limit, also when the counter wraps around. Concurrent callers never receive the same number within one loop, and the numbers of one loop are exactly the consecutive ones of that parity; the first-loop indication is true exactly until the numbers start repeating.",
 ["schedules", "histories"],
 "every number of concurrent callers, and every counter position including all wrap-around boundaries of the 31-bit space and of the underlying 64-bit counter",
 "Existing tests take a few numbers from one thread near the start of the space.",
 ["internal/socket/stream_id.go", "handler/caller.go", "transport/wasmrs/host/caller.go", "transport/wasmrs/guest/caller.go"],
 [("number generators", "internal/socket/stream_id.go: Next")],
 ["returned numbers"])
prop("P07", "Requests do not outlive the connection or instance that carries them",
 "When a socket connection ends (closed by the other side, by its own Close, by its context, or by a frame that cannot be read) or a module instance is closed, every request this side made on it that has not ended yet fails with an error, exactly once, and whoever awaits its result is told. Streams this side serves are cancelled towards their publishers and the input of a served channel ends with an error. A request made afterwards fails with an error and never waits forever. No stream is kept once its connection or instance is gone. A request that ended before is not told anything more.",
 ["schedules", "histories", "faults"],
 "every history of a stream up to the point where its connection or instance ends, several streams at once, callers that are in the middle of making, demanding or cancelling while it ends, and every way a connection ends",
 "No existing test closes a connection or an instance with a request pending.",
 ["handler/handler.go", "proxy/stream.go", "proxy/mono.go", "proxy/flux.go", "proxy/lookup.go", "transport/rsocket/transport.go", "transport/wasmrs/host/instance.go"],
 [("connection end", "transport/rsocket/transport.go: Start, Send, Close; handler/handler.go: Close"), ("instance end", "transport/wasmrs/host/instance.go: recvLoop, Close"), ("pending requests", "proxy: Lookup, mono, flux")],
 ["signals at the requester", "signals at served publishers and channel inputs", "what later requests get", "streams kept"])
# ---------------------------------------------------------------- wire formats
prop("F01", "Frames survive the wire unchanged",
 "Encoding any frame (setup, the four request kinds, demand, cancel, payload, error) within the limits of its length fields fills exactly the size the frame announces, with the bytes the RSocket layout prescribes, and decoding those bytes yields the same frame: every field, flag, length and byte. This includes empty and maximum-length fields, durations over the whole representable range, and frames that say that fragments follow.",
 ["inputs"],
 "every combination of frame type, flags, present or absent metadata, token and mime fields, boundary lengths and boundary numbers",
 "Existing tests encode one setup frame and check sizes of two fragmented ones.",
 ["internal/frames/setup.go", "internal/frames/request_payload.go", "internal/frames/payload.go", "internal/frames/request_n.go", "internal/frames/cancel.go", "internal/frames/error.go", "internal/frames/frame_header.go", "internal/u24/u24.go"],
 [("frame codecs", "internal/frames: Size, Encode, Decode")],
 ["encoded bytes", "decoded fields"])
prop("F02", "Fragmenting a frame loses and duplicates nothing",
 "Splitting a request or payload frame for a maximum frame size yields frames that each fit that size, whose metadata and data concatenated in order are exactly the original's, with all but the last saying that fragments follow and the last carrying the original's next and complete markers. The first fragment of a request is a request of the same kind, stream and initial demand, and a frame that already fits is not split.",
 ["inputs"],
 "every metadata and data length and every maximum size from the smallest that can make progress upwards, for all request kinds and payload flags",
 "Existing tests split two fixed frames and compare hand-computed lengths only.",
 ["internal/frames/request_payload.go", "internal/frames/payload.go", "internal/frames/util.go"],
 [("splitting", "internal/frames: Fragment, splitPayloads")],
 ["returned fragments"])
prop("F03", "Malformed input is rejected with an error, never a crash",
 "Decoding an arbitrary byte string as a frame, as an operation table, as a port message or as a module file's custom sections either succeeds or returns an error: it never panics, never reads outside the input and never allocates memory out of proportion to the input. A truncated valid message is always rejected, or decodes to what its bytes say; it is never completed with invented content.",
 ["inputs"],
 "every truncation of every valid message from the model, every single length field corrupted to boundary values, and byte strings over small alphabets",
 "Existing tests decode only well-formed input.",
 ["internal/frames", "operations/operatons.go", "invoke/portio.go", "transport/wasmrs/customsections/customsections.go", "transport/rsocket/decoder.go"],
 [("decoders", "internal/frames: Decode; operations: FromBytes; invoke: PortIO.Decode; customsections: Read")],
 ["returned error", "panics"])
# ---------------------------------------------------------------- socket transport
prop("T01", "The socket carries whole frames in order, whoever sends and however it chunks",
 "Frames sent through a connection, also by many senders at once, arrive at the other end complete, unmixed and unchanged, with each sender's frames in the order it sent them, no matter how the network splits or joins the bytes. A received frame keeps its contents for as long as the receiver holds it, while later frames arrive.",
 ["schedules", "inputs", "histories"],
 "every interleaving of up to four concurrent senders, every chunking of the byte stream down to single bytes, frames from the minimum to larger than all buffers, receivers that queue frames before looking at them",
 "No existing test covers the socket transport.",
 ["transport/rsocket/tcp_conn.go", "transport/rsocket/decoder.go", "transport/rsocket/transport.go"],
 [("length-prefixed framing", "transport/rsocket/decoder.go, tcp_conn.go: Read, Write"), ("sending", "transport/rsocket/transport.go: Send")],
 ["frames read", "bytes on the wire"])
prop("T02", "A connection starts with setup, dispatches in order and shuts down cleanly",
 "A server accepts requests on a connection only after a valid setup frame came first, and otherwise ends the connection; after that each received frame is handled exactly once, in arrival order. When the peer disconnects, a frame is invalid or handling fails, the connection's run ends with the matching result after all frames handed over before were handled, the connection is closed exactly once, and nothing blocks forever; closing repeatedly is harmless.",
 ["histories", "fault_sequences"],
 "every sequence of up to five incoming frames (setup, requests, invalid) with an end of stream, read error, handler error or close at every position, client and server role",
 "No existing test runs a transport.",
 ["transport/rsocket/transport.go", "transport/rsocket/tcp_transport.go", "internal/buffer/unbounded.go"],
 [("receive loop", "transport/rsocket/transport.go: Start, loopReadBuffer, ReadFirst, Close"), ("accept loop", "transport/rsocket/tcp_transport.go: Listen, Close")],
 ["frames handled", "result of running the connection", "close calls on the connection"])
prop("T03", "The receive queue delivers everything once, in order, then closes",
 "Items accepted by the queue come out exactly once and in the order they were accepted; an item offered after disposal is refused and never comes out. After disposal the items accepted before still come out, then the queue reports closed exactly once, without ever crashing, deadlocking or losing an item, for any number of producers.",
 ["schedules", "histories"],
 "every interleaving of puts by up to three producers, one consumer following the receive-then-advance protocol, and one or more disposals",
 "Existing tests run one schedule of producers against one consumer and never dispose with items pending.",
 ["internal/buffer/unbounded.go"],
 [("unbounded queue", "internal/buffer/unbounded.go: Put, Load, Get, Dispose")],
 ["values received", "return values"])
# ---------------------------------------------------------------- operations / modules
prop("O01", "Operation tables identify every operation and survive encoding",
 "The operation list of a program names each exported and imported operation exactly once per registration, with its kind, direction, namespace and name, and with the number under which calling it reaches exactly that handler; importing the same operation again yields the same number. Encoding the list and decoding it gives back the same list, and a socket peer that received it resolves each exported operation by kind, namespace and name to the right number.",
 ["histories", "inputs"],
 "every sequence of up to five export/import registrations over kinds and colliding or equal names; tables with empty, long and equal names and boundary numbers",
 "No existing test covers registration or the table encoding.",
 ["invoke/handlers.go", "operations/operatons.go", "handler/caller.go"],
 [("registry", "invoke/handlers.go: Export*, Import*, Get*, GetOperationsTable"), ("table codec", "operations/operatons.go: ToBytes, FromBytes"), ("resolution", "handler/caller.go: Import*")],
 ["returned numbers", "encoded bytes", "handlers reached"])
prop("H01", "Closing a module host waits for running requests, once, and never crashes",
 "Closing a module instance returns only after every request the module has under way towards the host has been answered, failed, cancelled or rejected, and does return once that is so; closing again is harmless. No order of closing, answers, rejections, cancels and late sends crashes the process or leaves the close hanging.",
 ["schedules", "histories"],
 "every interleaving of up to three guest requests of every kind (valid, unknown operation, short metadata, cancelled) and their endings with one or two closes and late sends",
 "No existing test closes an instance with requests under way.",
 ["transport/wasmrs/host/instance.go"],
 [("active request counter", "transport/wasmrs/host/instance.go: Close, reduceActiveRequests")],
 ["return of Close", "panics"])
prop("H02", "Host and module exchange every frame, whole and in order",
 "Frames the host sends to a module, and frames the module sends to the host, arrive complete, unchanged and in order, also when one hand-over contains several frames and when a frame is sent while another is being handled. A frame that does not fit the shared buffer is reported or refused and does not crash either side or damage the frames around it.",
 ["histories", "inputs"],
 "every partition of up to six frames into hand-overs, of every type and sizes up to and beyond the buffer size, including sends made from inside handlers",
 "No existing test runs the shared-buffer exchange.",
 ["transport/wasmrs/host/instance.go", "transport/wasmrs/guest/guest.go"],
 [("buffer exchange", "instance.go: sendLoop, hostSend, recvLoop; guest.go: GuestSend, doSendFrame, Init")],
 ["frames seen by the other side"])
prop("H03", "Unusable modules are refused, failing ones fail their own requests only",
 "Instantiating a module either gives an instance whose operations are exactly those the module announces, or an error and no instance, never a crash: a module that lacks a function of the protocol, whose start, initialisation or list of operations fails, or whose list cannot be read is refused, and the host stays usable. Any number of instances of the same or of different modules live side by side on one host, each with its own requests, operations and state. When a module fails (traps) at a frame, the request the frame belongs to ends with an error after what was answered before, and the instance goes on; when a module exits, all its unanswered requests end with an error and so do later ones. Neither reaches other instances, and no request waits forever for a module that cannot answer.",
 ["histories", "faults", "inputs"],
 "every kind of unusable module alone and next to usable ones, and every history of instances, requests of all kinds, failures before, between and behind answers, exits, releases and closes",
 "Existing tests load well-behaved modules only.",
 ["transport/wasmrs/host/host.go", "transport/wasmrs/host/instance.go", "transport/wasmrs/host/caller.go"],
 [("instantiation", "transport/wasmrs/host/host.go: Compile, Instantiate; instance.go: NewInstance, opList"), ("failing modules", "transport/wasmrs/host/instance.go: sendLoop, failed")],
 ["instances or errors returned", "listed operations", "what each request gets", "answers of all other instances"])
prop("H04", "Handlers run with the context of whom they work for",
 "A request that a module makes during a request of the host, naming the latter's stream number as parent in the second four bytes of its metadata (big-endian), is handled with the context which the host's caller gave to its own request: the same values, deadline and cancellation, also when cancelled later. This holds for requests of all four kinds on both sides and through any number of levels, for as long as the parent is open when the request arrives (also if it ends right behind it). A request that names no parent (0), a number which is not open on that instance (ended, unknown, used by another instance only) gets a context without values, deadline or cancellation of anybody, including those of the context the instance was made with. On a socket peer every handler's context derives from the context the peer was made with, whatever number the request names, and handlers of request-response and fire-and-forget requests on socket peers and in modules find the number of their request in it (proxy.FromContext).",
 ["histories", "inputs"],
 "every history of calls, requests during them, their ends and cancelled contexts up to a few requests, with every parent number in use, used before, used by another instance, resembling one in use or unused",
 "No existing test looks at the context a handler gets.",
 ["transport/wasmrs/host/instance.go", "handler/handler.go", "transport/wasmrs/guest/guest.go", "proxy/stream.go", "proxy/mono.go", "proxy/flux.go", "proxy/responder.go"],
 [("parents", "transport/wasmrs/host/instance.go: parentContext, recvOne; proxy: Context"), ("contexts of peers", "handler/handler.go: New, handleRequestResponse, handleFireAndForget, responder; proxy/stream.go")],
 ["values, deadline and cancellation of the contexts handlers get", "the stream number they carry"])
prop("M01", "Modules in a mesh are linked by name, in whatever order they load",
 "After any sequence of loading modules, a call to an exported operation reaches the module that exports it (the one loaded last, if several do) under that module's own number, whatever metadata the call carries and without changing the caller's payload, and every import of a loaded module whose namespace, name and kind are exported by some loaded module reaches that export, no matter which was loaded first. Calling an operation nobody exports fails cleanly with an error instead of crashing, and imports that nothing exports stay unresolved until an exporter loads. A file that is missing or not such a module is reported and changes nothing.",
 ["histories", "configurations"],
 "every load order of up to three modules drawn from a family with exports, imports, both, colliding names and several kinds; calls after every step",
 "No existing test uses a mesh (the module binaries are not in the repository).",
 ["transport/wasmrs/mesh/mesh.go"],
 [("linking", "transport/wasmrs/mesh/mesh.go: linkOperations, linkOperation")],
 ["which module answers a call"])
prop("M02", "Reloading a module redirects its callers without dropping them",
 "After a module file is loaded again, every later call to its operations - made directly or by another module that imported them before - reaches the new instance, and calls under way on the old instance still finish if they do so within the grace period. The old instance is closed only after a grace period and when the requests it has made itself have ended; a call it still holds then fails with an error, and no call afterwards reaches it.",
 ["histories"],
 "every sequence of loads and reloads of up to two exporters and one importer with calls between them, before and after the grace period",
 "No existing test reloads a module.",
 ["transport/wasmrs/mesh/mesh.go"],
 [("redirection", "transport/wasmrs/mesh/mesh.go: LoadModule, destination")],
 ["which instance answers a call"])
# ---------------------------------------------------------------- data formats
prop("C01", "MessagePack encoding: announced size, prescribed bytes, same value back",
 "For every supported value (all integer widths, floats, booleans, strings, byte arrays, times, nil and nillables, lists, maps and dynamically typed values) the announced size equals the number of bytes written, the bytes are the shortest MessagePack form of the value's kind (signed numbers in the signed forms), and reading them back with the matching reader gives the same value and consumes exactly those bytes. Writing into a buffer that is too small reports an error and never writes outside it.",
 ["inputs"],
 "every value kind at every boundary of every length and number class, nested containers, every smaller buffer size",
 "Existing tests check one fixed structure and integer ranges on the reading side.",
 ["msgpack/encoder.go", "msgpack/sizer.go", "msgpack/decoder.go", "msgpack/data_reader.go", "msgpack/codec.go", "msgpack/utils.go", "transform/transform.go"],
 [("size pass", "msgpack/sizer.go"), ("write pass", "msgpack/encoder.go"), ("readers", "msgpack/decoder.go")],
 ["sizes", "bytes", "values read"])
prop("C02", "MessagePack reading is safe and skips exactly one value",
 "Skipping or dynamically reading a well-formed value of any kind, nested or not, consumes exactly that value, so the next read starts at the next value; a dynamic read returns the value (it may refuse extensions other than times, map keys that are lists, maps or byte arrays, and nesting deeper than 1000). On truncated, malformed or hostile bytes every read and skip returns an error or a value of the requested kind: it never panics, never reads beyond the input and never allocates memory out of proportion to it.",
 ["inputs"],
 "every format byte with every boundary length, nested to depth three, every truncation of it, every typed reader",
 "Existing tests never skip, never read dynamically and never feed malformed bytes.",
 ["msgpack/decoder.go", "msgpack/data_reader.go", "msgpack/utils.go"],
 [("skip", "msgpack/decoder.go: Skip, getSize"), ("dynamic read", "msgpack/decoder.go: ReadAny"), ("bounds check", "msgpack/data_reader.go")],
 ["values", "errors", "position"])
prop("C03", "Value converters keep nil, errors and values apart",
 "Each converter between wire values and user types returns nil for nil, passes a given error on (with no value), and otherwise returns the converted value; a value that cannot be parsed yields an error and no value. No combination of value, nil and error crashes a converter, and formatting then parsing a time gives the same instant.",
 ["inputs"],
 "every converter with nil or boundary values and present or absent error",
 "No existing test covers the converters.",
 ["msgpack/convert/convert.go"],
 [("converters", "msgpack/convert/convert.go")],
 ["results"])
prop("C04", "Payload transforms carry values exactly",
 "Every ready-made or generic payload transform encodes a value as a payload holding exactly its MessagePack form and no metadata, and decodes that payload back to an equal value; payloads share no memory with each other. Payloads of another kind, cut short or out of range are refused with an error, never a crash or another value. Times keep their instant (and their offset when it is whole minutes), and the handle an object is encoded as leads back to that very object.",
 ["inputs"],
 "every transform of package transform over boundary values of its type, and over byte strings of every other format, truncated or with a byte replaced",
 "No existing test covers the transforms.",
 ["transform/transform.go"],
 [("transforms", "transform/transform.go")],
 ["payload bytes, values and errors"])
prop("L01", "Live instance handles name exactly the instances not yet removed",
 "A handle obtained for an instance finds that instance until it is removed and never afterwards; distinct live instances have distinct handles, removing returns the instance once, and unknown handles are refused. This holds for concurrent users.",
 ["histories", "schedules"],
 "every history of put, get and remove over up to four instances and bogus handles; concurrent histories must be linearizable",
 "No existing test covers handles.",
 ["invoke/instances.go"],
 [("handle table", "invoke/instances.go: Put, Get, Remove")],
 ["return values"])
prop("K01", "Port messages survive encoding",
 "Encoding a port message and decoding it returns the same port name, data and the two markers (next, complete) independently of each other, for every port name length the length field can carry. The encoded form has the prescribed layout; bits of the marker byte that have no meaning change nothing, and a message that lost its tail either is refused or has shorter data.",
 ["inputs"],
 "every combination of the markers with boundary port and data lengths",
 "No existing test covers port messages.",
 ["invoke/portio.go"],
 [("port codec", "invoke/portio.go: Encode, Decode, Flags")],
 ["bytes", "fields"])
prop("T04", "Programs joined over a network serve each other, by name, until one of them goes",
 "A client that joins a listening server (rsocket.Connect, or NewClient with a setup and Start) is handed to the server's acceptor exactly once; from then on each side can ask the other for any of the four kinds of operation, also both at once and several at a time, and the request is served by that side: by the operation which the other side knows under the asked name (also when two clients give their operations different numbers or names), with that side's context, its bytes unchanged. Joining where nobody listens fails with an error, listening where somebody listens fails with an error and tells the notifier so, and does not disturb who listens there. Whatever is asked of a side that has left or stopped fails with an error, and so does every request then pending on that link, on both sides; other links, and their pending requests, go on. When a server is closed or its context ends, Listen returns, every client's run ends, strangers' connections are closed and the address can be listened on again. Connections that do not speak the protocol, or say nothing, are noticed by nobody. All this on unix, TCP and TLS sockets, at the address the environment names or the default one.",
 ["histories", "configurations", "schedules"],
 "every history of listening, joining, asking, leaving, stopping and strangers with a few clients, operations of four kinds in two directions, pending or answered, on three kinds of socket",
 "No existing test opens a socket.",
 ["transport/rsocket/init.go", "transport/rsocket/tcp_transport.go", "transport/rsocket/transport.go", "transport/rsocket/tcp_conn.go", "handler/handler.go", "handler/caller.go"],
 [("joining and listening", "transport/rsocket/init.go; transport/rsocket/tcp_transport.go"), ("asking by name", "handler/handler.go, handler/caller.go"), ("ends", "transport/rsocket/transport.go: Start, Close; handler: Close")],
 ["results of Listen, Connect, NewClient, Start and the acceptor", "who serves each request, with what, and what the requester gets"])
prop("U01", "UUIDs: version and variant set, pool slices never reused, text round-trips",
 "Every random UUID is version 4 of the RFC variant with all other bits taken from the random source, consecutive ones from disjoint source bytes, with or without the pool and under concurrency; if the source fails, an error and no UUID is returned. Text, URN, braced, raw-hex and binary forms parse back to the same UUID, anything else is refused, and time and clock sequence pairs handed out never repeat while the clock moves or goes back; times count the 100 ns since 15 October 1582, and a process that chose no clock sequence begins with one from the random source.",
 ["inputs", "histories", "schedules"],
 "every UUID byte position, every text form and every single-character corruption of it; every sequence of enabling/disabling the pool, draws and source failures; every sequence of clock readings and sequence changes",
 "The UUID package has no tests in this repository.",
 ["types/uuid/uuid.go", "types/uuid/version4.go", "types/uuid/time.go", "types/uuid/marshal.go", "types/uuid/util.go"],
 [("random pool", "types/uuid/version4.go"), ("parsing", "types/uuid/uuid.go: Parse, ParseBytes"), ("clock", "types/uuid/time.go: GetTime")],
 ["UUID values", "errors"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
