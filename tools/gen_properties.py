#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay easy to review and edit)."""
import json, os
L = "lib/go/src/thrift/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Binary protocol round trip",
 "Any sequence of well-formed Thrift messages, structs and values written through one binary protocol instance (strict or non-strict) and flushed is read back by a binary protocol instance as exactly the same message names, kinds and sequence ids, field ids and types, container types and sizes, and values. Reading consumes exactly the bytes that were written, so consecutive messages on one stream never affect each other. Binary values belong to whoever got them: they do not change when more is read or written. Instances over different transports do not affect each other.",
 ["inputs", "histories"], "all value trees (every Thrift type, any nesting, sizes, field ids and numeric extremes, NaN payloads, arbitrary bytes in strings) and all sequences of messages on one instance",
 "The tests write a handful of scalars one at a time and one list; they never nest, never write messages in sequence, and compare only a dozen constants.",
 [L+"tbinary_protocol.go"], "Write*/Read* pairs of the binary protocol and its strict/non-strict message header")
prop("C02", "Compact protocol round trip",
 "Any sequence of well-formed Thrift messages, structs and values written through one compact protocol instance and flushed is read back by a compact protocol instance as exactly the same message names, kinds and sequence ids, field ids and types, container types and sizes, and values, including boolean fields and booleans in containers, nested structs and field ids in any order. Reading consumes exactly the bytes written, so consecutive messages or structs on one stream never affect each other. Binary values belong to whoever got them: they do not change when more is read or written. Instances over different transports do not affect each other.",
 ["inputs", "histories"], "all value trees, field-id orders and gaps, and all sequences of messages on one instance (the encoding is stateful: last field id, pending boolean)",
 "The stable tests do not exercise the compact protocol at all (its only test fails at the pinned commit), and the state carried between fields, structs and messages needs sequences no sample covers.",
 [L+"tcompact_protocol.go"], "field-id delta stack, boolean folding into field headers, zigzag and varint coding")
prop("C03", "JSON protocol round trip",
 "Any sequence of well-formed Thrift messages, structs and values (with valid UTF-8 text) written through one JSON protocol instance and flushed is read back by a JSON protocol instance as exactly the same message names, kinds and sequence ids, field ids and types, container types and sizes, and values, at any document size. Binary values belong to whoever got them: they do not change when more is read or written. Instances over different transports do not affect each other.",
 ["inputs", "histories"], "all value trees, all strings including every escape and control character, all numeric extremes, documents larger than any internal buffer, and sequences of messages",
 "Tests round-trip one four-field struct and short constants; the parser keeps a context stack and an input buffer whose boundaries small samples never reach.",
 [L+"tjson_protocol.go", L+"tsimple_json_protocol.go"], "nested parse and dump contexts, type-name mapping, number and string scanners over a buffered reader")
prop("C04", "Simple JSON protocol round trip",
 "Any sequence of values, containers and messages, and any struct read field by field by name, written through one simple JSON protocol instance and flushed is read back by a simple JSON protocol instance, by a reader that knows the expected types, as exactly the same values, sizes, element types, field names and message headers, at any document size. Binary values belong to whoever got them: they do not change when more is read or written. Instances over different transports do not affect each other.",
 ["inputs", "histories"], "all value trees with valid UTF-8 text, read with the schema they were written with",
 "Tests cover single scalars and one small struct with constant values.",
 [L+"tsimple_json_protocol.go"], "nested parse and dump contexts and scalar scanners over a buffered reader")
prop("C05", "Binary and compact wire format conformance",
 "The bytes the binary and compact protocols write for any value are exactly those the published Thrift encodings prescribe, and both protocols accept every encoding those specifications allow a peer to send (strict and old-style binary headers, long-form compact field ids, either boolean form, empty maps without element types) and decode it to the value the specification assigns.",
 ["inputs"], "all value trees for encoding; all specification-valid byte strings for decoding",
 "A round trip through the same code cannot notice an error made symmetrically on both sides, and the tests have no reference encoder.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"ttype.go", L+"tmessagetype.go"], "type codes, byte order, varint and zigzag, header layouts")
prop("C06", "JSON protocols emit valid JSON and parse JSON variants",
 "Every complete value, struct or message the JSON and simple JSON protocols write is exactly one valid JSON text whose decoded content carries the written values, and both protocols read the same result from any equivalent JSON text that differs only in insignificant whitespace between tokens, in how characters of string values and names are escaped, in how the number of a double is spelled, or in null standing for a false, a zero or an empty text.",
 ["inputs"], "all value trees and all whitespace and escaping variants of each document",
 "Tests check a few scalars with encoding/json and never vary the text a foreign peer may send.",
 [L+"tsimple_json_protocol.go", L+"tjson_protocol.go"], "separator contexts on output, whitespace skipping and string unescaping on input")
prop("C07", "Message header validation",
 "A reader accepts a message header only if it carries the protocol identification its protocol requires (binary version word, compact protocol id and version, JSON protocol version) and reports an error for any other; the binary protocol accepts an unversioned header exactly when strict reading is off, and the strict read and write options given to a protocol or protocol factory are the ones its protocols use.",
 ["inputs", "configurations"], "all first words/bytes of a message and all strict read/write settings of constructor and factory",
 "Tests never read a message header from a foreign or mismatched peer.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go"], "version checks in reading a message header; strict flags")
prop("C08", "Skip consumes exactly one value",
 "Skipping a value of any type on any self-describing protocol leaves the reader at exactly the position, and in exactly the state, that reading the value would, so that whatever follows is read correctly. Skipping reports an error, rather than success, when the value is truncated, malformed or of an unknown type or nested deeper than the allowed depth, and never recurses beyond that depth.",
 ["inputs"], "all value trees at every position in an enclosing struct or container, all truncations, all nesting depths and depth limits",
 "No test calls Skip.",
 [L+"tprotocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go"], "recursive skip over struct, map, set and list with a depth budget")
prop("C09", "Hostile input is rejected without crashing",
 "For any byte sequence whatever, reading a message or value through any of the protocols and transports terminates with either a value or an error: it never panics, never loops without consuming input, and never returns a value the bytes do not encode. Negative or impossible sizes, bad type codes, overlong integers, out-of-range or malformed numbers and bad base64 or escapes are reported as errors.",
 ["inputs"], "all byte strings, in particular mutations of valid messages, read by generic and generated readers",
 "Tests feed only well-formed data.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tsimple_json_protocol.go", L+"tjson_protocol.go", L+"tprotocol.go", L+"tframed_transport.go"], "size, type and number validation on every read path")
prop("C10", "Truncated input is an error",
 "When the input ends anywhere inside a message or self-delimiting value, reading it reports an error at the latest by the end of that message or value; it is never reported as completely read, and values already delivered are the ones that were sent.",
 ["inputs", "crash_points"], "every proper prefix of every encoded message, for every protocol",
 "Tests always supply the whole input.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tsimple_json_protocol.go", L+"tjson_protocol.go", L+"ttransport.go"], "end-of-file handling in every read path")
prop("C11", "Decoding does not depend on how bytes arrive",
 "What a reader decodes from a stream is a function of the bytes alone: delivering the same bytes in any fragmentation (single bytes, splits at any position, reads that give nothing in between, end-of-file together with the last bytes or separately) through any transport yields the same values, the same errors and the same amount consumed.",
 ["inputs", "schedules"], "all messages and all partitions of their bytes into reads, for every protocol, framed or not",
 "Tests read from memory buffers where a read always returns everything.",
 [L+"ttransport.go", L+"tsimple_json_protocol.go", L+"tframed_transport.go", L+"tbinary_protocol.go", L+"tcompact_protocol.go"], "full-read loop, buffered JSON parser, frame reader")
prop("C12", "A reader never waits for bytes beyond its message",
 "Once all bytes of a complete message have arrived, reading that message completes without requesting any further input from the underlying stream, for every protocol, framed or unframed; otherwise a request-response exchange would deadlock.",
 ["inputs", "schedules"], "all messages, all fragmentations, for every protocol and transport wrapper",
 "Tests read from buffers that report end-of-file instead of blocking, so reading ahead is invisible.",
 [L+"tsimple_json_protocol.go", L+"tjson_protocol.go", L+"tframed_transport.go", L+"ttransport.go"], "look-ahead in the JSON scanners; frame-bounded reads")
prop("C13", "Framed transport fidelity",
 "Each flush of a framed transport puts exactly one frame, a four-byte big-endian length followed by the bytes written since the previous flush, on the underlying transport and flushes it; reading returns exactly the concatenated frame contents in order, whatever the frame and read sizes, and never bytes of a frame header or of another stream. A frame cut short, a negative length, or an error of the underlying transport is reported as an error.",
 ["inputs", "fault_sequences"], "all interleavings of writes, flushes and reads of any sizes, all fragmentations, all truncation points and underlying faults",
 "The single test writes one buffer and reads it back in one piece.",
 [L+"tframed_transport.go", L+"ttransport_factory.go"], "write buffer, frame header, read buffer refill")
prop("C14", "Byte-stream transports deliver exactly what was written",
 "Memory, stream, socket, non-blocking socket and HTTP transports deliver the bytes written and flushed on one side, in order, without loss, duplication, alteration or insertion, whatever the sizes of the writes and reads; reported byte counts are exact, reading a full buffer returns without error exactly when that many bytes were available, and otherwise reports the true count and an error. Transports over different streams do not affect each other. Over HTTP each flush is one POST of type application/x-thrift.",
 ["inputs", "schedules"], "all sequences of writes, flushes and reads of any sizes including empty ones, on every transport",
 "Tests transfer one 155-byte block, or one scalar at a time.",
 [L+"ttransport.go", L+"tmemory_buffer.go", L+"tiostream_transport.go", L+"tsocket.go", L+"tnonblocking_socket.go", L+"thttp_client.go"], "Read/Write/Flush/ReadAll of each transport")
prop("C15", "Transport life cycle",
 "Any order of open, close, is-open, peek, read, write and flush on any transport is safe: an operation on a transport that is not open reports an error (at the latest when flushed, for a transport that buffers) instead of panicking or appearing to succeed, opening an open socket or server socket reports an error, closing is idempotent, open state is reported truthfully, and bytes left over from before a close are never sent to or read from a later connection.",
 ["histories"], "all sequences of life-cycle and data operations on every transport",
 "Tests use each transport once, in the ideal order.",
 [L+"tsocket.go", L+"tnonblocking_socket.go", L+"tiostream_transport.go", L+"tframed_transport.go", L+"thttp_client.go", L+"tserver_socket.go", L+"tnonblocking_server_socket.go", L+"tmemory_buffer.go"], "open/close state, connection and buffer fields")
prop("C16", "Transport failures are reported",
 "If the underlying transport fails at any single write, flush or read while a message is written or read, the operation or one following it up to and including the final flush (or end of the message) reports an error that says what failed; a message is never reported as sent or received when part of it was not. An HTTP request answered with another status than 200 has failed, and after a failed request nothing of it is sent with the next and nothing of an earlier response is read.",
 ["fault_sequences"], "every fault point (each call on the underlying transport) of every message exchange, for every protocol and wrapper",
 "Tests have no failing transports.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tframed_transport.go", L+"tiostream_transport.go", L+"tprotocol_exception.go", L+"ttransport_exception.go"], "error returns along every path; conversion between error kinds")
prop("C17", "Servers answer every call exactly once",
 "While a server runs, each well-formed call it receives is processed exactly once and answered with exactly one reply carrying that call's sequence id and result, in order on its connection, and each client gets only its own replies, whatever number of clients call concurrently and whatever other clients send, stall or disconnect. A connection is served until its client ends it or its processor says it is done or fails, and is closed then.",
 ["schedules", "histories"], "all interleavings of concurrent clients, calls, malformed clients and disconnects, for each server, transport and protocol combination",
 "No test starts a server.",
 [L+"tsimple_server.go", L+"tnonblocking_server.go", L+"tserver_socket.go", L+"tnonblocking_server_socket.go", L+"tprocessor.go"], "accept loop, per-connection goroutine and protocol pair")
prop("C18", "Stopping a server works and is race-free",
 "Stopping a server that has begun to listen, from any goroutine at any moment, makes its serve call return (for the single-threaded server at the latest when the connection it is serving ends) and stops it from accepting new connections, without data races, panics or deadlock; interrupting or closing a server transport makes a pending accept return and leaves it closed. A server whose transport cannot listen, or cannot accept, returns that error from its serve call. A server that was stopped, or failed in this way, can serve again.",
 ["schedules"], "all timings of stop, interrupt and close against serve, accept and connecting clients",
 "No test starts or stops a server, and data races do not fail ordinary tests.",
 [L+"tsimple_server.go", L+"tnonblocking_server.go", L+"tserver_socket.go", L+"tnonblocking_server_socket.go", L+"tserver_transport.go"], "stopped flag, listener field, interrupted flag")
prop("C19", "Generated client and processor dispatch",
 "For any service call, a generated processor invokes exactly the handler method named in the call with the arguments that were sent and replies with its result or declared exception under the same name and sequence id; an unknown method or an undeclared handler error is answered with an application exception of the fitting kind without losing the position in the stream, and undecodable arguments are answered with a protocol-error application exception and never reach the handler, like a call of which the end cannot be read; an error while the reply is written is returned. A function added to a processor is called like its own, by that processor alone. A generated client returns exactly what the reply carries, and reports as an error a reply with a different sequence id, an application exception, a call that could not be sent and a reply that could not be read.",
 ["inputs", "histories", "fault_sequences"], "all sequences of calls, arguments, handler outcomes and reply streams",
 "No test calls a generated service.",
 ["compiler/cpp/src/generate/t_go_generator.cc", L+"tapplication_exception.go"], "the Process/Send/Recv functions the generator emits, and application exceptions")
prop("C20", "Generated structs read what was written",
 "A generated struct written through any protocol, whether it numbers or names fields, and read back is equal to the original in every field that was set, fields that were not set keep their defaults and, where they have none, are not reported as set, and a reader ignores fields it does not know or whose wire type does not match, without disturbing the others, in any field order; an error of the protocol while a struct is written or read is always returned.",
 ["inputs"], "all field values, all subsets of set fields, all added unknown fields of any type, all field orders",
 "Tests construct one or two structs with constants and never add unknown fields.",
 ["compiler/cpp/src/generate/t_go_generator.cc", L+"tprotocol.go"], "the Read/Write functions the generator emits, and field skipping")
prop("C21", "List container behaves as a sequence",
 "Under any sequence of operations, a list container holds exactly the elements a plain sequence would: length, element access, iteration, search, insertion, deletion, replacement, append and swap agree with it, elements of convertible types are stored as the element type, replacing at the end of the list or beyond appends, and any other operation with an index outside the list (which may panic), or with an element that does not fit, leaves the list unchanged. Operations on one list do not affect another.",
 ["histories"], "all operation sequences over every element type",
 "No test touches lists.",
 [L+"tlist.go", L+"tcontainer.go"], "slice-backed list operations")
prop("C22", "Set container behaves as a mathematical set",
 "Under any sequence of insertions and deletions in any order, a set container contains exactly the distinct elements inserted and not deleted since: length, membership, iteration and equality agree with a mathematical set of that element type. Operations on one set do not affect another.",
 ["histories"], "all operation sequences and insertion orders over every element type",
 "No test touches sets.",
 [L+"tset.go"], "sorted insertion, search and deletion")
prop("C23", "Map container behaves as a map",
 "Under any sequence of insertions and replacements, a map container associates each key with the value stored last: length, lookup (including absence), membership and iteration over keys, values and pairs agree with a mathematical map of those types, for keys of any type including binary and containers. Operations on one map do not affect another.",
 ["histories"], "all operation sequences over every key and value type",
 "Tests store two entries in maps of three key types.",
 [L+"tmap.go"], "native-map, string-keyed and list-backed storage per key type")
prop("C24", "Comparison is a consistent total order",
 "For every Thrift type, comparison is a deterministic total order consistent with equality: equal values (with equal contents, however they were built) compare equal, comparison is antisymmetric and transitive, and less-than agrees with it; containers and structs of equal type compare by contents, base types in their natural order. All not-a-number values count as one value and the two zeros as one; the names of fields do not matter.",
 ["inputs"], "all pairs and triples of values of each type, all construction orders of containers",
 "No test compares anything but one pair of equal structs.",
 [L+"tcompare.go", L+"ttype.go", L+"tlist.go", L+"tset.go", L+"tmap.go", L+"tfield.go", L+"tstruct.go"], "per-type compare functions")
prop("C25", "Value coercion and numeric conversion preserve values",
 "Converting a value to a Thrift type, or a number between its textual and numeric forms, either yields exactly the value denoted (in the Go type that represents the target type) or reports that it cannot; it never yields a different value or type, and a value of the target type is always accepted unchanged, as is an integer of any kind within the range of an integer type. A decimal text denotes the nearest double; zero, 'false', '0' and the empty text count as false and all else as true.",
 ["inputs"], "all source values of every supported Go type and every target type",
 "Tests only convert floating point constants to text.",
 [L+"ttype.go", L+"tnumeric.go"], "coercion functions and the number abstraction")
prop("C26", "Errors keep their meaning",
 "Wrapping an error as a protocol, transport or application exception yields nil exactly for nil, keeps an existing exception of that kind unchanged and preserves message and kind (end-of-file, timeout, bad version and so on) of others; an application exception written by one side is read back by the other with the same kind and message through any self-describing protocol, and the numbers of the kinds are those of other Thrift implementations.",
 ["inputs"], "all error kinds and values, all exception kinds, messages and protocols",
 "Tests check three constant errors.",
 [L+"texception.go", L+"tprotocol_exception.go", L+"ttransport_exception.go", L+"tapplication_exception.go"], "exception constructors and wire form")
prop("C27", "Nothing leaks",
 "No goroutine, connection or HTTP response body created by the library outlives its purpose: after an operation, a partial or complete comparison or iteration, a client disconnect, or a transport or server shutdown has finished, the number of live goroutines and open descriptors returns to what it was, and every transport a server had made for a connection, input and output, has been closed.",
 ["histories", "schedules"], "all workloads of containers, comparisons, clients and servers, including abandoned and failing ones",
 "Tests do not count goroutines or descriptors.",
 [L+"tcontainer.go", L+"tlist.go", L+"tset.go", L+"tmap.go", L+"tfield.go", L+"tstruct.go", L+"tcompare.go", L+"thttp_client.go", L+"tsimple_server.go", L+"tserver_socket.go"], "iterator goroutines, connection ownership, response bodies")
prop("C28", "Independent objects can be used concurrently",
 "Separate protocol, transport, container and exception objects can be used from different goroutines at the same time without data races and with the same results as when used alone; in particular concurrent readers of one unmodified container or struct do not interfere.",
 ["schedules"], "all interleavings of goroutines each using its own objects, or only reading shared ones",
 "Tests are single-threaded.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tfield.go", L+"tcontainer.go", L+"tprotocol_factory.go", L+"ttransport_factory.go"], "absence of shared mutable package state")
prop("C29", "The code generator is safe and faithful",
 "For any valid interface definition whose names stay distinct as Go names, the Go generator runs without memory errors or undefined behaviour and produces, the same every time (but for the order of entries in map constants), Go code that compiles against the library and whose structs, enums, exceptions, constants and services carry the names, field ids, types and default values the definition gives.",
 ["programs"], "all valid interface definitions",
 "The tests only exercise one frozen copy of the generator's output; the generator itself is not built.",
 ["compiler/cpp/src/generate/t_go_generator.cc"], "code emission for types, constants, structs and services")
prop("C30", "Metadata tells what it was made of",
 "For any set of fields with distinct ids and distinct names, the field container or struct made of them (whatever becomes of the slice) gives for every id and every name exactly that field, its name, id and type, and for any other id or name the anonymous field, no name and id -1; its length, membership (by id, name or field) and iteration cover exactly those fields, in order of their ids, and fields and field containers are equal exactly when their ids and types are the same, to nothing of another kind, and are ordered consistently with that. Fields, messages, structs and containers return the names, kinds, numbers and types they were made with, messages are equal exactly when these are; and for every type code its name, number on the wire and classification, and for every value the type inferred from it, are those of the type.",
 ["inputs"], "all sets of fields, all messages, all type codes and values",
 "Tests look up no field and classify no type.",
 [L+"tfield.go", L+"tstruct.go", L+"tmessage.go", L+"ttype.go"], "field lookups, message headers, type classification")
prop("C31", "Factories make what they are configured for",
 "A protocol factory makes, for each transport, a separate protocol on that transport with the options of the factory; a transport factory given a transport of its own kind makes a new one to the same endpoint (address, URL and method, streams) with the same timeout, and given anything else one to the endpoint it was configured with; the default transport factory gives the transport itself, a framed factory a new framing of it, a memory factory a new empty buffer, and processor factories their processor. Sockets, server sockets and connections accepted by them reach the address and keep, reading and writing, to the timeout they were made with or set to last (none means waiting), and a server uses the processor, transports and protocols, input and output apart, that its constructor was given.",
 ["inputs", "histories"], "all factories and constructors, all combinations of configuration and transport given",
 "Tests use few constructors and hardly any factory.",
 [L+"tprotocol_factory.go", L+"ttransport_factory.go", L+"tprocessor_factory.go", L+"tiostream_transport.go", L+"tmemory_buffer.go", L+"tframed_transport.go", L+"thttp_client.go", L+"tsocket.go", L+"tserver_socket.go", L+"tnonblocking_socket.go", L+"tnonblocking_server_socket.go", L+"tsimple_server.go", L+"tnonblocking_server.go"], "factories, constructors and setters")
prop("C32", "Command line clients of services",
 "For every service, the generated command line client, given the name of a function the service itself declares and one valid text per argument (decimal integers within the range of the type, decimal doubles, with a sign or zeros in front or not, true or false, the number of an enum value, the text itself for strings and binaries, simple JSON for structs and containers), makes exactly one call of that function with exactly these values, in the protocol asked for (binary by default, compact, json, simplejson), to the address asked for, over a plain or framed socket or as one HTTP POST to the URL given; it prints the result that comes back, or the error, and ends. Given another number of arguments, a text that is no value of its argument's type or lies out of its range, a function or protocol there is not, it sends nothing, says so on the standard error and ends; its usage lists every function.",
 ["programs", "inputs"], "all services, functions and argument texts, protocols and ways to connect",
 "No test builds or runs a command line client.",
 ["compiler/cpp/src/generate/t_go_generator.cc", L+"thttp_client.go", L+"tnonblocking_socket.go", L+"tframed_transport.go", L+"tsimple_json_protocol.go"], "generate_service_remote")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
