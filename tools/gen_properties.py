import json
H2='src/grpc/qgrpchttp2channel.cpp'; NC='src/grpc/qgrpcchannel.cpp'; CL='src/grpc/qabstractgrpcclient.cpp'; ST='src/grpc/qgrpcstream.cpp'; STH='src/grpc/qgrpcstream.h'; CR='src/grpc/qgrpccallreply.cpp'; AO='src/grpc/qgrpcasyncoperationbase_p.h'; CLH='src/grpc/qabstractgrpcclient.h'
SER='src/protobuf/qprotobufserializer.cpp'; SERP='src/protobuf/qprotobufserializer_p.h'; IT='src/protobuf/qprotobufselfcheckiterator.h'; REG='src/protobuf/qabstractprotobufserializer.cpp'; QT='src/protobuf/qtprotobuf.cpp'; PR='src/protobuf/qprotobufserializerregistry.cpp'; QML='src/grpc/quick/qquickgrpcstream.cpp'
def m(*a): return [{"name":n,"where":w} for n,w in a]
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":obs,"hook_needed":None}})
p("C01","Every unary call ends exactly once, and in bounded time",
 "Every unary call, blocking or asynchronous, made through a client with an attached channel produces exactly one outcome (success or error) as long as its client and channel stay alive, whatever the server, the network and the scheduler do. Over HTTP/2 a call the server never completes ends with an error about six seconds after it was made; the native channel sets no deadline, so there such a call ends when the server, the transport or an abort ends it. Without a channel a call fails at once with an error instead of hanging or crashing.",
 ["schedules","fault_sequences","histories"],
 "for all servers that answer, fail, stall or break off at any byte, all delays and orders of network events, all interleavings of worker threads with the client's thread, and any number of overlapping calls",
 "The tests talk to one well-behaved echo server on loopback; a stalled or half-finished reply, a completion racing a timeout, or overlapping nested blocking calls are reached by none of them.",
 [H2,NC,CL,AO],m(("completion and abort connections dropped together on the first outcome",H2),("6000 ms single-shot abort per unary request",H2),("worker thread finished signal queued to the client thread",NC)),
 ["signals of the call object","return value of the blocking call"])
p("C02","A call's outcome is its own: content and status are exact",
 "A successful call yields exactly the message the server sent in answer to that very call, field for field, and the server receives exactly the request the caller passed, however bytes are delayed, split into pieces or interleaved with other calls. A failed call yields the status code and message the server gave or, when the transport failed, the status code documented for that kind of failure, and never delivers a message. (The return object of a blocking call whose reply cannot be decoded has no specified content.)",
 ["schedules","inputs","fault_sequences"],
 "for all message contents over every scalar, repeated, map, enum and nested field kind, all sizes including empty, all segmentations of the reply, every transport error kind and every status code, with any set of concurrent calls",
 "Tests send a few fixed strings one after the other and check two or three statuses; replies are never split, reordered or mixed across calls.",
 [H2,NC,CLH,SER,SERP],m(("reply taken from the request's own transport object",H2),("transport error to status table",H2),("slices of a response joined in order",NC)),
 ["message read from the call","status of the call","request bytes seen by the server"])
p("C03","Stream messages arrive intact, in order and exactly once",
 "For a server stream, each subscriber is handed exactly the sequence of messages whose bytes reached the client on the current connection: complete, unmodified, in order, without loss or duplication, and each as soon as its last byte has arrived. This holds for every way the byte stream is cut into network deliveries, for empty and very large messages, and when the subscriber makes further calls from inside its message handler (blocking ones only if it is the stream's only subscriber).",
 ["inputs","schedules","fault_sequences"],
 "for all message sequences, all segmentations of their framed bytes (inside the length prefix, at and across message boundaries), all delivery delays and all re-entrant handler actions",
 "The loopback server delivers each small message in one piece; a cut inside the five byte prefix, two messages and a half in one delivery, or an empty message never happen in the tests.",
 [H2,NC,STH],m(("reassembly buffer per connection",H2),("one queued delivery per message read by the worker thread",NC)),
 ["stream handlers","message-received signal","updated return message"])
p("C04","The end of a stream is reported once, truthfully and last",
 "When the server closes a stream normally, the stream reports completion exactly once, after all of its messages, and a later identical subscription opens a new stream. When the server ends it with an error status, or the connection breaks, the stream reports an error carrying that status and never reports completion for it. This is the same for both channel kinds.",
 ["schedules","fault_sequences"],
 "for all lengths of streams, all closing statuses, all positions of the end relative to message deliveries, both channels",
 "Tests have one stream that ends normally and one server shutdown; the end never races the last messages and is not checked on the native channel.",
 [H2,NC,CL],m(("finish handler choosing completion, error or reconnect",H2),("worker thread end handler",NC),("active stream bookkeeping",CL)),
 ["completion and error signals of the stream","subscriptions seen by the server"])
p("C05","A broken stream is reported and re-established",
 "When a live subscription breaks, it is re-established with the same method and argument: immediately and silently if, over HTTP/2, the remote host closed the connection, otherwise (any other transport failure or an error status of the server, on either channel) after reporting the error once and waiting about one second; messages of the new connection are then delivered as before, with nothing left over from the old one. This repeats for as long as breaks keep happening, and at any time at most one connection exists per subscription.",
 ["fault_sequences","histories","schedules"],
 "for all sequences of connection failures of every kind at every byte position of the stream, and all timings of the repeated attempts",
 "One test restarts a server once; no test breaks a stream inside a message, repeatedly, or while other operations run.",
 [CL,H2,NC],m(("1000 ms single-shot resubscription",CL),("immediate resubscription on remote close",H2)),
 ["subscriptions seen by the server and their times","error signal of the stream","messages after recovery"])
p("C06","Cancelling a call or a stream is final",
 "After a stream has been aborted it reports completion once and its subscribers get no further message or error and the subscription is never re-established, even if a reconnect was pending (a message or error already being handed to the subscribers at that moment may still reach all of them). After a pending call has been aborted its only outcome is an error with status Aborted, without data. In both cases the operation is also cancelled towards the server and other operations are unaffected.",
 ["schedules","histories","fault_sequences"],
 "for all instants of the abort relative to deliveries, failures, pending reconnects and completions, from any thread and from inside handlers, with or without the application keeping the handle",
 "Tests abort a stream or call at one fixed point and observe it briefly; aborts that race a queued message, a failure or the reconnect delay are not sampled.",
 [CL,H2,NC,ST,CR],m(("abort disconnects transport handlers and aborts the request",H2),("context cancel and handler removal",NC),("retry only for streams still subscribed",CL)),
 ["signals of the aborted operation","handlers","requests alive at the server"])
p("C07","Identical subscriptions share one stream, different ones never do",
 "Subscribing again with the same method and equal argument while the first subscription is live returns the same stream and opens no second connection; every subscriber then receives every later message exactly once, also when it subscribes from inside a handler. Subscriptions that differ in method or argument, or that come after the stream has ended, never share a stream or each other's messages.",
 ["histories","schedules","inputs"],
 "for all histories of subscribe, end, break, abort and resubscribe over equal and different methods and arguments",
 "Tests subscribe twice at start-up only; resubscription after an end, during the reconnect delay or from a handler is not reached.",
 [CL,STH,ST],m(("lookup of an equal active stream",CL),("handler list of a stream",STH)),
 ["identity of returned streams","subscriptions seen by the server","handlers"])
p("C08","Using a client from another thread equals using it from its own",
 "Calls and subscriptions made from any thread have the same results as the same operations made on the client's own thread: requests and replies are not lost, mixed up or corrupted, outcomes determined by the server are signalled on the client's thread (purely local failures, such as an undecodable reply or a missing channel, on the calling thread), an abort from another thread is done when it returns, and no thread deadlocks as long as the client's event loop runs.",
 ["schedules","fault_sequences"],
 "for all interleavings of several application threads with the client's event loop and the channel's worker threads, including blocking calls nested in each other, and thread stalls",
 "Two tests use one extra thread each under whatever interleaving the machine happens to produce.",
 [CL,ST,CR,AO,NC],m(("blocking queued hand-over to the client's thread",CL),("lock around the data of an operation",AO)),
 ["results seen by each application thread","thread in which handlers run"])
p("C09","Destroying a client at any moment is safe and leaves nothing behind",
 "A client may be destroyed at any instant between events with calls and streams in any state: no freed memory is touched, no handler, callback or reconnect of that client happens afterwards, its calls and streams are cancelled towards the server and its worker threads end, and clients sharing the channel continue undisturbed. The same holds when the channel is released together with the last client.",
 ["schedules","crash_points","histories"],
 "for all instants of destruction relative to network events, pending reconnects, queued deliveries and worker thread progress, for both channels, shared and unshared",
 "Tests destroy idle clients at the end of a test; memory errors in a race with a worker thread or queued event need that exact interleaving.",
 [CL,H2,NC,AO],m(("ownership of operations by the client",CL),("abort on client destruction",H2),("cancel and join of worker threads",NC)),
 ["memory safety (AddressSanitizer)","handlers after destruction","requests alive at the server","live threads"])
p("C10","Malformed server data is contained",
 "Whatever bytes a server sends as message contents or stream framing (truncated, corrupted, lying about lengths, nested up to 100 levels), the client never reads or writes outside its buffers, crashes, loops or reserves memory for data that was only announced: the message is either decoded or reported as an error through the client. The damage stays with that message or connection: other calls and streams, and messages completed before it, are delivered correctly.",
 ["inputs","fault_sequences"],
 "for all mutations of all valid replies and stream frames, at all positions, combined with all segmentations",
 "Tests decode a handful of hand-written broken buffers through the serializer only; a bounds error needs specific bytes and, in the stream path, a specific segmentation.",
 [SER,SERP,IT,H2,CLH],m(("bounds-checked iterator",IT),("length checks before copying",SERP),("exceptions mapped to error statuses",CLH)),
 ["memory safety (AddressSanitizer)","error signal of the client","other operations' results"])
p("C11","Encoding, decoding and type registration are safe to use concurrently",
 "Any number of threads may register the message types, create serializers, and encode and decode their own messages at the same time, including as the very first use in the process: every result equals what a single thread would have obtained, and nothing crashes or deadlocks.",
 ["schedules","inputs"],
 "for all interleavings, at basic block granularity, of first-use initialisation, registration, encoding and decoding on several threads",
 "The tests register everything once in the main thread before using it; no test encodes or decodes on two threads at once.",
 [REG,QT,SER,'src/protobuf/qprotobufobject.h','src/protobuf/qprotobufserializerregistry_p.h'],m(("reader/writer protocol of the handler registry",REG),("one-time initialisation of built-in handlers",SER),("one-time type registration",QT)),
 ["encoded bytes","decoded messages","threads making progress"])
p("C12","Replacing a client's channel ends old streams and redirects new work",
 "When a client is given another channel, every stream active at that moment ends exactly once and is cancelled on the old channel, nothing more from the old channel's streams reaches their handlers, and every call and subscription made afterwards, as well as every later reconnect, uses only the new channel. A channel of another thread is refused with an exception and leaves the client unchanged.",
 ["histories","schedules","fault_sequences"],
 "for all numbers and states of active streams (delivering, broken, waiting to reconnect) at the replacement and all histories of replacements",
 "No test replaces a channel while streams are active.",
 [CL],m(("abort of active streams around the switch",CL)),
 ["completion signal of the streams","channel on which the server sees each request"])
p("C13","Every request on the wire is complete, also on every retry",
 "Each call and each subscription, including every automatic resubscription, produces exactly one request addressed to the right service and method on the attached channel's host, carrying the current credentials, the protocol's mandatory headers over HTTP/2, and the argument's bytes correctly framed; nothing is sent that the application did not ask for.",
 ["histories","inputs","fault_sequences"],
 "for all sequences of operations and failures, all arguments including empty and large ones, all credential sets, changing between attempts",
 "Tests see only the final result of a few calls; a wrong second request after a failure, or a duplicate one, is invisible to them.",
 [H2,NC,CL,'src/grpc/qgrpccredentials.h'],m(("request construction",H2),("rpc path construction",NC)),
 ["requests as the server receives them"])
p("C14","A QML stream element follows its properties and its server",
 "A QML stream element holds a subscription exactly while it is enabled and has client, method and argument set: changing its state subscribes or cancels accordingly, each message updates its return value before the message signal, server errors are signalled, and it becomes disabled when its stream ends. Destroying the element or its client at any time cancels the subscription and is safe.",
 ["histories","schedules","fault_sequences"],
 "for all sequences of property changes, server messages, failures and destructions",
 "The QML tests run one or two fixed scenarios against a live server.",
 [QML,'src/grpc/quick/qquickgrpcstream_p.h'],m(("update on every property change",QML)),
 ["properties and signals of the element","subscriptions seen by the server"])
p("C15","Serializer plugins that fail to load do no harm",
 "However loading a serializer plugin fails (file missing, unreadable, truncated, wrong kind, library refused), the built-in serializer and every plugin loaded before keep working, asking for an unknown plugin or format raises an exception instead of crashing, and loading the same plugin later, when the fault is gone, succeeds.",
 ["fault_sequences","histories"],
 "for all histories of load attempts and lookups with any fault injected into each attempt",
 "Tests load two good plugins once each; a failing attempt followed by further use is not tested.",
 [PR],m(("plugin records keyed by name",PR)),
 ["returned serializers","exceptions","plugin metadata queries"])
p("C16","Every failure reaches the client's error signal exactly once",
 "Each failed call, each failed stream attempt that is not silently reconnected, and each reply that cannot be decoded emits the client-wide error signal exactly once, with the same status as the operation itself reports; successful operations and other clients' failures never emit it.",
 ["histories","schedules","fault_sequences"],
 "for all mixtures of succeeding and failing operations of several clients on a shared channel, under all interleavings",
 "Tests count one error for one failing call.",
 [CL,CLH],m(("forwarding of operation errors",CL),("decode error reporting",CLH)),
 ["error signal of each client","status of each operation"])
p("C17","Ended operations leave nothing behind in a living client",
 "Once a call or a stream has ended (by success, error, abort or replacement of the channel) and the application holds no handle to it, everything the library kept for it is released soon after, while the client lives on: its reply or stream object, its network reply and its worker thread. The same holds for every connection a subscription has given up when it reconnected. What a client holds is therefore bounded by its operations in progress, not by its history.",
 ["histories","schedules","fault_sequences"],
 "for all histories of calls and subscriptions of every kind (blocking, asynchronous, with a callback, from QML, from other threads), ended in every way at any time",
 "Tests end with the process; nothing counts what is left in a client that lives on.",
 [CL,H2,NC],m(("shared ownership of replies and streams by their own connections",CL),("release of network replies",H2),("worker objects owned by connections",NC)),
 ["objects owned by a client at the end of a run","network replies","threads"])
p("N01","Serialized bytes follow the protobuf wire format and round-trip",
 "For every message value, encoding yields the canonical protobuf wire bytes and decoding them yields the same value.",
 ["inputs"],"for all message values of all types",
 "Tests use fixed values.",[SER,SERP],m(("field encoders and decoders",SERP)),["encoded bytes"])
p("N02","Generated classes mirror their proto definitions",
 "For every valid proto file, the generator emits code that compiles and whose classes expose each field, enum, map and service method of the definition under the documented options.",
 ["inputs","programs","configurations"],"for all proto files and generator options",
 "Tests generate a fixed set of files.",["src/generator/messagedeclarationprinter.cpp","src/generator/messagedefinitionprinter.cpp"],m(("template printers","src/generator/templates.cpp")),["generated sources"])
p("N03","JSON serializer round-trips every message",
 "For every message value, JSON encoding followed by decoding yields the same value.",
 ["inputs"],"for all message values","JSON tests use fixed values and are left out of this build.",["src/protobuf/qprotobufjsonserializer.cpp"],m(("json encoders and decoders","src/protobuf/qprotobufjsonserializer.cpp")),["encoded text"])
p("N04","Qt type conversions preserve values",
 "Every supported Qt value type converts to its protobuf representation and back without loss.",
 ["inputs"],"for all values of all supported Qt types","Tests use fixed values.",["src/qttypes/qtprotobufqttypes.cpp"],m(("converter functions","src/qttypes/qtprotobufqttypes.cpp")),["converted values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
