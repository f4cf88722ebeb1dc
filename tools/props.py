PBT = "property-based testing"
# ---------------------------------------------------------------- wire
p("C01", "Messages survive packetisation in any arrival order",
  "A message split into packets by a sender comes out of a receiver with the same keys as exactly the original bytes, exactly once, at the moment the last missing packet arrives, whatever the payload, the transmission size, the authentication and encryption scheme. This holds for every arrival order of its packets, for every interleaving with packets of other messages, and when a packet is received again while its message is still incomplete.",
  ["inputs", "schedules", "configurations"], "all non-empty payloads (1 byte to more than 65536 packets), all transmission sizes able to hold a packet, 3 authenticators x 7 ciphers (with and without nonce cache), all packet orders and interleavings",
  "The unit tests send a handful of short payloads through one or two packets in order; order, boundary sizes around a packet, CBOR length-class changes of the index (24/256/65536) and scheme combinations are not sampled.",
  [W+"output/encoder.rs", W+"output/mod.rs", W+"input/decoder.rs", W+"input/mod.rs", W+"packet.rs", W+"mod.rs"],
  [("chunking", W+"output/encoder.rs: Encoder::encode"), ("group reassembly", W+"input/decoder.rs: Decoder"), ("decrypt whole message", W+"input/mod.rs: InputProcessor::process")],
  PBT+": round trip through sender and receiver wires under generated packet orders", "Randomised search with shrinking; no exhaustive claim. Trusts the payload itself as oracle.",
  ["OutboundWire::process / InboundWire::process"])
p("C02", "No packet exceeds the transmission size",
  "Every packet a sender produces serialises to at most the configured transmission size, for every payload, key, authentication and encryption scheme. When the transmission size cannot hold a packet the sender reports an error instead of emitting an oversized or empty result, and it always terminates. Servers and clients send no packet larger than their transport's limit: 1500 bytes over TCP, 508 over UDP with an IPv4 address, 1212 over UDP with an IPv6 address.",
  ["inputs", "configurations"], "all payloads and keys, transmission sizes 0..65507, all schemes; all requests and replies of clients and servers over each transport",
  "One unit test checks 512-byte packets with an all-zero digest; the size of a packet depends on the values of the signature, nonce, id and index, so only search over keys and sizes shows overruns.",
  [W+"output/encoder.rs", W+"packet.rs", "src/core/transport/auth/digest.rs", "src/core/transport/net/mod.rs", "src/core/server/mod.rs", "src/core/client/mod.rs"],
  [("size estimate", W+"output/encoder.rs: find_optimal_max_data_size / estimate_packet_size"), ("limit of a transport", "src/core/transport/net/mod.rs: NetTransmission")],
  PBT+": invariant over every produced packet", "Randomised search; every packet of every case is measured.", ["OutboundWire::process", "loopback sockets"])
p("C03", "Only unaltered messages from key holders are delivered",
  "With a keyed authenticator, a packet altered in any way in transit - metadata, data or signature - is refused, as is every packet of a peer holding a different key; with a cipher, a message encrypted under another key is never delivered. Refusing a packet has no effect: the genuine packet, and the message it belongs to, are still accepted afterwards.",
  ["inputs", "fault_sequences"], "every single alteration (bit, byte, truncation, extension, field exchange between packets, signature edits, metadata edits) of every packet of a message, every pair of differing keys or schemes",
  "Tests verify one signature with a stub; no test alters a packet on the wire or mixes keys.",
  [W+"input/mod.rs", W+"packet.rs", "src/core/transport/auth/mod.rs", "src/core/transport/auth/digest.rs", "src/core/transport/crypto/"],
  [("signature check before assembly", W+"input/mod.rs: verify_packet"), ("signed content", W+"packet.rs: content_for_signature")],
  PBT+": structured tampering against the original payload", "Randomised search with structure-aware mutations; assumes the primitives are not broken by chance.", ["InboundWire::process"])
p("C04", "Hostile input neither crashes nor wedges the receiving side",
  "Arbitrary received bytes - random, malformed, or well-formed packets with any field values - never crash the receiver, and with a keyed authenticator never deliver a message and never prevent a genuine message (even one half received) from being delivered. A listening TCP or UDP server that is sent such bytes keeps answering well-behaved clients, including over the same UDP socket.",
  ["inputs", "fault_sequences"], "all byte strings a peer can send, at any point of a genuine exchange, on the wire layer and against a live server over TCP and UDP",
  "One unit test feeds five zero bytes; nothing sends garbage to a live server.",
  [W+"input/mod.rs", W+"input/decoder.rs", "src/core/event/mod.rs", "src/core/event/tcp.rs", "src/core/event/udp.rs", "src/core/server/mod.rs"],
  [("errors are logged and the loop continues", "src/core/event/mod.rs: process_inbound"), ("group bookkeeping", W+"input/decoder.rs")],
  PBT+" / fuzzing: structured and random hostile packets, genuine exchange as oracle", "Randomised search; panics anywhere in the process are seen.", ["InboundWire::process", "loopback sockets"])
p("C07", "Incomplete messages expire after the packet TTL and not before",
  "Packets of an incomplete message that have waited longer than the packet time-to-live no longer take part in any message: late packets do not complete it, and sending the missing part again does. A message whose packets all arrive within the time-to-live is delivered, whatever else is received in between. The time-to-live of a server and of a client is the one each was built with.",
  ["schedules", "inputs", "configurations"], "all TTLs, splits of a message around a pause, orders, other traffic during and after the pause",
  "Tests cover one expired group with one packet through internals.",
  [W+"input/decoder.rs", W+"input/mod.rs", "src/utils/ttl.rs"],
  [("expired groups removed", W+"input/decoder.rs: remove_expired"), ("expiry test", "src/utils/ttl.rs: TtlValue::has_expired"), ("configured time-to-live", "src/core/server/mod.rs, src/core/client/mod.rs: packet_ttl")],
  PBT+": timed schedules against a model of which packets are alive", "Timing is real; presence is asserted only when the harness's clock shows the exchange stayed inside the TTL.", ["InboundWire::process"])
# ---------------------------------------------------------------- ciphers
CR = "src/core/transport/crypto/"
p("C05", "Ciphers round-trip, and fail cleanly on anything else",
  "For every cipher and key, decrypting an encrypted buffer with the nonce it was encrypted under gives back the buffer. Decrypting it after any change to the ciphertext, with another nonce, another key, a missing nonce or a nonce of another size yields an error of the documented kind, never other bytes and never a panic. Two encryptions never use the same nonce, and the nonce returned by the encryptor is the one that decrypts.",
  ["inputs", "configurations"], "all buffers (including empty and large), 7 ciphers, all keys, all single alterations, all nonce kinds",
  "Tests round-trip one buffer per cipher under one key.",
  [CR+"aes/", CR+"closure.rs", CR+"key.rs", CR+"nonce/mod.rs", CR+"mod.rs", CR+"split.rs", CR+"noop.rs"],
  [("cipher implementations", CR+"aes/"), ("nonce sizes", CR+"nonce/mod.rs"), ("associated data", CR+"mod.rs")],
  PBT+": round trip and structured corruption", "Randomised search; the independently linked AES crates serve as a differential oracle for the ciphertext.", ["Encrypter/Decrypter/Bicrypter"])
p("C06", "A nonce cache refuses replays and only replays, up to its capacity",
  "With a bounded nonce cache of n, a nonce seen among the last n registered is refused on decryption, a nonce never seen before is never refused for that reason, and exactly one of any number of concurrent presentations of the same nonce is accepted. A message whose nonce was refused is not delivered, so a recorded request sent again to a server with a cache, over whichever connection, is not handled again; without a cache nothing is refused for its nonce.",
  ["inputs", "histories", "schedules"], "all sequences of encrypt/decrypt/register calls, cache sizes 1..many, concurrent callers",
  "Tests register a few nonces from one thread.",
  [CR+"nonce/cache.rs", CR+"closure.rs"],
  [("cache lookup and insert", CR+"nonce/cache.rs: NonceCache::register_nonce"), ("cache use around decrypt", CR+"closure.rs")],
  PBT+": stateful test against a FIFO model, racing threads, recorded requests replayed to live servers", "Randomised search; races are sampled with many threads and rounds, not enumerated.", ["NonceCache, Bicrypter"])
p("C08", "Signatures verify exactly for the signed bytes and key",
  "For every keyed authenticator and message, a signature made with a key verifies with the same key; it does not verify for any other message, key or altered signature (truncated, extended, bit changed); digests equal those of an independent HMAC. Split and converted authenticators keep behaving as their parts.",
  ["inputs", "configurations"], "all messages, keys of any length, SHA-256 and SHA-512 HMAC, all alterations of message and signature",
  "Tests sign one message and compare with one other.",
  ["src/core/transport/auth/mod.rs", "src/core/transport/auth/digest.rs", "src/core/transport/auth/impls.rs", "src/core/transport/auth/split.rs"],
  [("HMAC", "src/core/transport/auth/impls.rs"), ("digest comparison", "src/core/transport/auth/digest.rs")],
  PBT+": differential against an independent HMAC plus alteration", "Randomised search.", ["Signer/Verifier"])
# ---------------------------------------------------------------- network
p("C09", "TCP segmentation does not lose, merge or reorder messages",
  "Over TCP, every message sent by either side is delivered to the other exactly once and in order, however the byte stream is cut into segments in transit - down to single bytes, and with several messages in one segment - and whatever the sizes of the messages.",
  ["schedules", "inputs"], "all segmentations of the byte streams in both directions, payloads from 0 to hundreds of packets, all schemes",
  "Tests exchange single small messages over loopback, where every packet arrives in one read.",
  ["src/core/event/tcp.rs", "src/core/event/mod.rs", W+"tcp.rs", W+"mod.rs", "src/core/transport/net/tcp.rs"],
  [("reads from the stream", W+"tcp.rs"), ("writes to the stream", W+"tcp.rs"), ("read loop", "src/core/event/tcp.rs")],
  PBT+": generated segmentation (raw peer and a proxy) against the sent messages", "Randomised search over loopback TCP.", ["loopback sockets"])
p("C10", "Every reply goes to the request that asked for it",
  "A reply completes the request it answers and no other: whatever order replies come in, duplicated, unsolicited or with unknown ids, and however many clients share a server, each asker gets the reply to its own request, at most once, over TCP and UDP. A request that is not answered in time, or cannot even be sent in time, reports a timeout, a later reply to it is discarded, and following requests are unaffected.",
  ["schedules", "histories", "inputs"], "all orders, duplications, omissions and delays of replies; many clients with many requests",
  "Tests ask once at a time of a server that answers in order.",
  ["src/core/client/connected.rs", "src/core/client/mod.rs", "src/utils/callback.rs", "src/core/server/mod.rs", "src/core/msg/mod.rs"],
  [("callbacks keyed by parent id", "src/utils/callback.rs"), ("reply addressed to origin", "src/core/server/action/mod.rs: Executor")],
  PBT+": scripted peer and many-client histories", "Randomised search over loopback; presence is asserted with a 12 s patience and a stall monitor.", ["ConnectedClient::ask"])
p("C11", "A peer that goes away affects only its own exchanges",
  "When a client disconnects at any point - between messages, in the middle of a packet, with replies outstanding, by closing, half-closing or resetting - the server keeps answering all other clients, over TCP and UDP. So it does while a client asks on without reading what it is answered, and once the visitors that were more than it had descriptors for are gone. A client whose server goes away gets an error or a timeout for each request, and over UDP works again once the server is back.",
  ["fault_sequences", "schedules"], "all disconnection points and kinds on either side, clients that do not read, and lack of descriptors, with other clients active",
  "Tests never disconnect.",
  ["src/core/event/tcp.rs", "src/core/event/udp.rs", "src/core/event/mod.rs", "src/core/server/mod.rs", "src/core/client/mod.rs", W+"tcp.rs", W+"udp.rs"],
  [("connection close", "src/core/event/tcp.rs"), ("inbound and outbound loops", "src/core/event/mod.rs"), ("UDP errors", "src/core/event/udp.rs")],
  PBT+": injected disconnections among live clients", "Randomised search over loopback.", ["loopback sockets"])
# ---------------------------------------------------------------- files
FS = ["src/core/server/fs/mod.rs", "src/core/server/fs/file.rs", "src/core/server/action/handler/fs.rs", "src/core/server/action/mod.rs"]
p("C12", "Open file handles behave like the file they were opened on",
  "After any sequence of opens, reads, writes, renames, removals and closes, each open handle reads exactly what was last written to its file; opening an open file (by any spelling of its path) returns the same id and signature and only widens access; a handle never acts on another file, writes replace the whole contents, refused requests change nothing, errors carry the OS error, and a closed or removed handle is gone. Every successful modification changes the signature.",
  ["histories", "inputs"], "all operation sequences, path spellings and symlinks, access modes, contents",
  "Unit tests perform one operation on one file each.",
  FS, [("open file table", FS[0]+": FileSystemManager"), ("file operations", FS[1]+": LocalFile"), ("handlers", FS[2])],
  PBT+": stateful model-based test against a mirror tree", "Randomised search of operation sequences up to 40 long, over loopback TCP.", ["ConnectedClient::ask", "directory tree"])
p("C13", "A stale signature never changes a file",
  "Of all requests naming the same signature of an open file, at most one modifies it, whoever sends them and however they are interleaved (several clients, concurrent batch operations); each of the others is refused with the newer signature and has no effect. A read with the current signature shows the contents of that signature, never a mix.",
  ["schedules", "histories"], "all interleavings of writers, renamers and readers sharing a file",
  "Unit tests use one request at a time.",
  FS, [("signature check and change under the manager lock", FS[2]), ("LocalFile::write_all, rename", FS[1]), ("concurrent batch", FS[3])],
  PBT+": racing clients and batches, history checked for a single chain", "Schedules are sampled by the real scheduler, not enumerated.", ["ConnectedClient::ask", "file contents"])
p("C14", "Path and directory requests do what the operating system would",
  "Creating, renaming, removing and listing directories, and renaming and removing unopened files, have the effect and the outcome of the corresponding system operation on the named path - a symlink is renamed or removed itself - and report its error; they are refused, without effect, when they would move, replace or delete a file that is open or a directory holding one. Listings name exactly the entries with their kinds.",
  ["histories", "inputs"], "all trees of directories, files and symlinks, all operation sequences, path spellings",
  "Unit tests use one directory and one operation.",
  FS+["src/core/server/fs/dir.rs"], [("open file guard", FS[0]+": check_no_open_files"), ("directory operations", "src/core/server/fs/dir.rs")],
  PBT+": stateful model-based test against a mirror tree", "Randomised search of operation sequences up to 40 long, over loopback TCP.", ["ConnectedClient::ask", "directory tree"])
# ---------------------------------------------------------------- processes
PR = ["src/core/server/proc.rs", "src/core/server/action/handler/proc.rs", "src/core/server/action/mod.rs"]
p("C15", "Remote processes run as asked and their streams arrive complete",
  "A process is started with exactly the arguments, directory and streams asked for; the bytes written to its stdin reach it complete and in order across writes and writers, and everything it writes to stdout and stderr comes back complete, once, in order and on its own stream, over successive reads. Its status says alive while it runs and then its exit code, a kill ends it and its handle, a start that the system refuses reports the system's error, ids of other processes are never affected, and a process that is slow or stuck delays nobody else.",
  ["histories", "inputs", "schedules"], "all sequences of start, write, read, status and kill over several processes with different behaviour, contents, arguments and directories; concurrent writers",
  "Unit tests run one process with one write and one read.",
  PR, [("process table", PR[2]), ("stream buffers", PR[0]+": LocalProc"), ("handlers", PR[1])],
  PBT+": stateful model-based test with scripted helper commands", "Randomised search over loopback. One known finding (see known_findings.txt).", ["ConnectedClient::ask", "helper processes"])
p("C16", "Unused files and processes are evicted after their time to live, used ones never",
  "An open file or a process not used for its time to live (a dead process: the dead one) is closed or killed by the next clean-up and its id is then unknown; each use starts its time anew, and a file or process that is used before its time runs out is kept with its state, whatever happens to the others.",
  ["histories", "schedules", "configurations"], "all times to live, clean-up intervals, and schedules of use of several files and processes",
  "Tests never wait for a clean-up.",
  ["src/core/server/state.rs", "src/core/server/mod.rs", "src/core/server/fs/mod.rs"]+PR[:2], [("clean-up loop", "src/core/server/mod.rs"), ("touch", "src/core/server/state.rs"), ("expiry", "src/utils/ttl.rs")],
  PBT+": timed schedules against a model of last uses", "Timing is real; what the clock leaves undecided is not asserted.", ["ConnectedClient::ask"])
# ---------------------------------------------------------------- compound requests
AC = "src/core/server/action/mod.rs"
RQ = "src/core/msg/content/request/"
p("C17", "A sequence runs its operations in order and stops at the first failure",
  "Each operation of a sequence begins after the one before it has ended, runs exactly once, and its result stands at its position; after the first failed or unanswered operation none runs and all further results are errors. Values named by rules are carried from one reply to the next request. Operations nested beyond the depth limit are refused without effect. Every sequence is answered, with an error if one of its operations panics, and so are the requests after it.",
  ["inputs", "histories"], "all trees of sequences, batches and other requests, all rules on them",
  "Unit tests run flat sequences of one or two operations.",
  [AC, RQ+"sequence.rs", RQ+"transform.rs"], [("sequence execution", AC+": route_and_execute"), ("abort", AC+": try_transform_request")],
  PBT+": generated request trees against a recursive model", "Randomised search over loopback TCP and UDP.", ["ConnectedClient::ask", "custom handler log", "file system"])
p("C18", "A batch runs all its operations, concurrently, each with its own result",
  "Every operation of a batch runs exactly once, none waits for an earlier one to end, and its result stands at its position whatever the others do: fail, panic, have no reply, or take longer. Operations nested beyond the depth limit are refused without effect, and every batch is answered.",
  ["inputs", "schedules"], "all trees of batches, sequences and other requests",
  "Unit tests run flat batches of one or two operations.",
  [AC, RQ+"batch.rs"], [("batch execution", AC+": route_and_execute")],
  PBT+": generated request trees against a recursive model", "Randomised search over loopback TCP and UDP; invocations of the custom handler itself are one at a time by design.", ["ConnectedClient::ask", "custom handler log", "file system"])
p("C19", "Rules replace exactly the named places of a request",
  "Transforming a request with a reply puts, for each rule in turn, the single value found at the rule's place in the reply at the rule's place in the request, and changes nothing else. A value that is missing or not single, and an outcome that is not a request, is an error; without rules the request is unchanged, and the raw request is never changed.",
  ["inputs"], "all requests, replies and rules with paths of keys, indexes and wildcards",
  "Unit tests transform a few fixed requests.",
  [RQ+"transform.rs"], [("transformation", RQ+"transform.rs: LazilyTransformedRequest")],
  PBT+": differential test against a separate evaluator", "Randomised search; paths of keys, indexes and wildcards only.", ["LazilyTransformedRequest::transform_with_reply"])
# ---------------------------------------------------------------- client
p("C20", "Typed requests ask what they are told and return what was answered",
  "Each typed client call sends exactly one request, of its own kind and with exactly its arguments, and returns the wanted reply's values unaltered; a file handle's signature moves to the one a successful change returned and is left alone by everything else. An answer that reports a failure gives the matching error - I/O errors with kind and description, a changed signature as such - and an answer of another kind gives an error, never a made-up value. Error values survive their serialised form.",
  ["inputs", "histories"], "all arguments, file handles, sequences of calls and answers of every kind",
  "Unit tests make one call per helper with one fitting answer.",
  ["src/core/client/connected.rs", "src/core/client/file.rs", "src/core/client/proc.rs", "src/core/client/error.rs", "src/core/msg/content/reply/"],
  [("typed calls", "src/core/client/connected.rs: ConnectedClient"), ("reply to error", "src/core/client/connected.rs: make_file_ask_error"), ("remote file signature", "src/core/client/file.rs: RemoteFile")],
  PBT+": calls to a scripted server that sees the request and chooses the answer", "Randomised search over loopback TCP.", ["ConnectedClient", "the request as received"])
p("C21", "Delimited framing returns what was written, however it is read",
  "Pieces written with a delimiter, through writes that take any part of what they are given, and read back through reads of any sizes, failing ones included, come out whole, once and in order; a read or write that fails is reported as failed unless a whole piece can be returned; a piece longer than the limit is cut at its beginning and never disturbs the next ones, and nothing outside the returned bytes of the caller's buffer changes.",
  ["inputs", "schedules"], "all delimiters, pieces (with parts of the delimiter in them), limits and sizes of reads and writes, blocking and asynchronous",
  "Unit tests read one or two pieces with reads as large as the buffer.",
  ["src/utils/delimiter.rs"], [("reader", "src/utils/delimiter.rs: DelimiterReader"), ("writer", "src/utils/delimiter.rs: DelimiterWriter")],
  PBT+": round trip under generated read sizes against splitting by definition", "Randomised search.", ["DelimiterReader::read / async_read", "DelimiterWriter::write"])
p("C22", "The utilities run, keep and release what they are given when they say so",
  "A delayed function runs exactly once, not before its time, and never when cancelled before it is due. A value with a time to live has expired exactly when it was untouched that long; comparing, hashing and cloning it follow the value. Of a captured value there is one taker at most; one that is replaced is released. A callback is invoked at most once, by the id it is stored under last, with the input given, and released as soon as it is replaced or used. A repeated call ends with its first result or error and is not made again, and times out only when the time is over. Either is the one side it is.",
  ["inputs", "histories", "schedules"], "all histories of operations on them, times, threads",
  "Tests try single delays, calls and values; orders, races and what is released when are not tested.",
  ["src/utils/delay.rs", "src/utils/ttl.rs", "src/utils/capture.rs", "src/utils/callback.rs", "src/utils/exec.rs", "src/utils/either.rs"],
  [("delays", "src/utils/delay.rs: Delay::spawn, cancel"), ("ttl", "src/utils/ttl.rs: TtlValue"), ("captures", "src/utils/capture.rs: Capture"), ("callbacks", "src/utils/callback.rs: CallbackManager"), ("loops", "src/utils/exec.rs: loop_timeout")],
  PBT+": generated histories (some racing) against models, with functions and values that record their runs and drops", "Times are bracketed by the harness's own readings of the clock; the schedules of threads are sampled.", ["Delay", "TtlValue", "Capture", "CallbackManager", "exec::loop_timeout", "Either"])
p("C23", "Every message survives its encodings",
  "Whatever request or reply a message holds, however nested, decoding its encoding gives back the same message with the same header and parent header; anything cut short is refused, and anything decodable encodes again to the same message. The JSON text of any content reads back as the same content on one line, its S-expression says the same as the JSON, and an I/O error carried by a reply keeps its kind, OS code and description.",
  ["inputs"], "all requests, replies, headers, strings, byte contents, nesting; all mangled encodings; all I/O errors",
  "Unit tests encode a few fixed messages.",
  ["src/core/msg/mod.rs", "src/core/msg/content/", "src/cli/format.rs"], [("encoding", "src/core/msg/mod.rs: to_vec, from_slice"), ("untagged content", "src/core/msg/content/mod.rs"), ("text formats", "src/cli/format.rs")],
  PBT+" / fuzzing: round trip of generated messages, mangled encodings", "Randomised search. One known finding (reading S-expressions).", ["Msg::to_vec / from_slice", "cli::format"])
p("C24", "The command line tool does what its options say and reports what happened",
  "A client command does to the server's machine what it is named for, on the server at the given address and with the given transport, keys and address family, and reports the outcome (person's text or JSON, to the output or the file asked for) exactly as the library would; raw lines are answered one by one with their metadata; a remote process gets the arguments, directory and input given and its whole output, exit code and nothing else comes back. Options that differ from the server's give an error and no answer; options that make no sense, dead addresses and failing operations give an error, never a crash; the client waits as long as told, and each of the server's times to live governs what it is named for.",
  ["inputs", "configurations", "histories"], "all commands, paths, texts, options of client and server, input lines and remote processes; both transports, all ciphers and authentications, IPv4 and IPv6",
  "No test runs the tool.",
  ["src/main.rs", "src/cli/mod.rs", "src/cli/format.rs", "src/cli/builder/", "src/cli/opts/"],
  [("commands", "src/cli/mod.rs: run_client, process_proc, execute_raw_and_report"), ("options", "src/cli/opts/, src/cli/builder/"), ("formats", "src/cli/format.rs")],
  PBT+": generated command lines against a library client on a twin directory tree, scripted remote processes", "Randomised search over runs of the real executable; exit codes are not claimed.", ["over-there (executable): output, files, effects"])
p("C25", "The printed JSON schemas describe the messages",
  "The JSON form of every message, however nested, fits the schema printed for its kind, for its side (request, reply) and for content, and so does everything within it; every kind has a schema and it is listed. A JSON value that fits one of these schemas is read as that very message and nothing of it is lost. What lacks a field, has a value of another type or names no known kind, and so is refused, does not fit either.",
  ["inputs"], "all messages of all kinds, nested; values generated from the schemas; messages spoiled in one place",
  "No test looks at a schema; one of 58 can be wrong for one of the kinds, values or ways of nesting.",
  ["src/core/mod.rs", "src/core/msg/content/", "src/cli/mod.rs", "src/cli/opts/schema.rs"],
  [("schema()", "src/core/mod.rs: SchemaInfo"), ("derives", "src/core/msg/content/**: JsonSchema"), ("printing", "src/cli/mod.rs: run_schema")],
  PBT+": generated messages and schema-directed values through a draft-7 validator of the harness", "A JSON schema cannot say that a text is an address; number formats are honoured.", ["over-there schema list/info", "SchemaInfo::schema", "serde"])
p("C26", "Servers and clients take the first usable address of a list",
  "Given a list of addresses a server listens on the first one it can have, on that alone, reports it and answers there; with none usable (or an empty list) it reports an error. A TCP client connects to the first listed address that accepts, a UDP client to the first listed; it says which one that is and everything it asks goes to that server only; with none it reports an error. Neither ever crashes or hangs on a list.",
  ["inputs", "configurations"], "all lists of free, taken, foreign, repeated and any-port addresses, IPv4 and IPv6, TCP and UDP; several servers and clients sharing a list",
  "Unit tests always use one free port of one address.",
  ["src/core/server/mod.rs", "src/core/client/mod.rs", "src/core/transport/net/"],
  [("bind loop", "src/core/server/mod.rs: build_and_listen_tcp_server / build_and_listen_udp_server"), ("connect loop", "src/core/client/mod.rs: build_and_connect_tcp_client"), ("helpers", "src/core/transport/net/tcp.rs, udp.rs")],
  PBT+": generated address lists against the first usable one as known to the harness", "Randomised search over loopback addresses private to each case.", ["ListeningServer::addr", "ConnectedClient::remote_addr", "custom handler log"])

p("C27", "Wires on sockets and event managers carry each message to its place",
  "A message written to a wire bound to a TCP stream or UDP socket, however the wire is split and whatever its transmission size, is read at the other end once, unaltered, in order and with its sender's address. An event manager passes on what each peer sends, in order, with its address and a sender that leads back to it; what is sent to an address reaches the peer there and no other, and a peer that is gone or never was disturbs nobody. Waiting for a stream or a client over a stream ends when the stream does, and not before.",
  ["inputs", "schedules", "histories", "configurations"], "all messages and transmission sizes; all histories of several peers sending, being sent to, leaving and coming back over TCP and UDP; all ends of a stream",
  "No test sends through a wire on a socket or a manager.",
  ["src/core/event/mod.rs", "src/core/event/tcp.rs", "src/core/event/udp.rs", "src/core/transport/wire/tcp.rs", "src/core/transport/wire/udp.rs", "src/core/transport/wire/mod.rs", "src/core/client/connected.rs"],
  [("wires on sockets", W+"tcp.rs, "+W+"udp.rs: read, write, write_to, arc_split, clone_split"), ("managers", "src/core/event/: EventManager, AddrEventManager"), ("waiting", "src/core/event/mod.rs: wait; src/core/client/connected.rs: wait")],
  PBT+": stateful histories of peers and messages against the sent messages as model", "Randomised search; schedules are the system's own.", ["TcpStreamWire, UdpSocketWire", "EventManager, AddrEventManager", "ConnectedClient::wait"])
p("C28", "A server that is shut down ends, and lets go of its address",
  "Once a server is shut down, waiting for it ends promptly and without an error, whoever is connected and whatever is being handled. What clients still get answers what they sent before, in order and unaltered; then TCP connections are closed and none is accepted any more, and nothing sent from then on is handled or answered. Another server can listen on the same address at once and serves all who turn to it.",
  ["histories", "schedules", "inputs"], "all moments of shutting down, with any clients connected, any requests under way and any answers unread",
  "No test shuts down a server that listens.",
  ["src/core/server/listening.rs", "src/core/server/mod.rs", "src/core/server/state.rs", "src/core/event/mod.rs", "src/core/event/tcp.rs", "src/core/event/udp.rs"],
  [("shutting down and waiting", "src/core/server/listening.rs: shutdown, wait"), ("event loops", "src/core/server/mod.rs"), ("inbound and outbound loops", "src/core/event/: AddrEventManager")],
  PBT+": servers shut down amid generated clients and requests", "Randomised search over loopback; schedules are the system's own.", ["ListeningServer::shutdown, wait", "loopback sockets"])
