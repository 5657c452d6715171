"""What each check runs. engines: plain and race are builds of go/src/vmon,
generated is one together with what the generator of the tree makes of many definitions (tools/gencheck.py)."""

RT = ('Values: every scalar of interest (powers of two and ten +-2, all bytes, doubles at every exponent, nasty strings) in nine '
      'positions; string lengths around every internal buffer boundary; container sizes around every header form; nesting up to '
      'depth 400; message headers; seeded random message sequences over six transport lanes, through fresh or reused protocol '
      'instances; two to four conversations over transports of their own, a value at a time in turns. A case counts as distinct by the shape of the value tree (types, sizes, field ids) and protocol variant; the '
      'oracle compares the value tree read back, and the byte position after each message, with what was written.')

PROPS = {
    'C01': dict(engines=['plain'], level='exploration', min_cases=5000, need=['messages', 'values_compared', 'binaries_kept', 'together'], rule=RT),
    'C02': dict(engines=['plain'], level='exploration', min_cases=5000, need=['messages', 'values_compared', 'binaries_kept', 'together'], rule=RT),
    'C03': dict(engines=['plain'], level='exploration', min_cases=5000, need=['messages', 'values_compared', 'binaries_kept', 'together'], rule=RT),
    'C04': dict(engines=['plain'], level='exploration', min_cases=5000, need=['messages', 'values_compared', 'binaries_kept', 'together'],
                rule=RT + ' The reader is told the schema, as this format does not carry types.'),
    'C05': dict(engines=['plain'], level='exploration', min_cases=5000, need=['encodings_compared', 'alternative_encodings_read'],
                rule='Every value the round-trip generators produce is encoded by the library and by an independent reference encoder '
                     'written from the specifications, and the bytes compared; the reference encoder also emits the allowed alternative '
                     'encodings, which the library must decode to the specified value. Distinct: shapes of value tree and choice of encoding.'),
    'C07': dict(engines=['plain'], level='exploration', min_cases=500, need=['headers', 'kinds'],
                rule='Header words and bytes (all single-byte deviations, all 65536 upper half words, JSON version texts) under every strict '
                     'read/write setting of constructors and factories; the oracle is the published header grammar. Distinct: header and setting.'),
    'C08': dict(engines=['plain'], level='exploration', min_cases=1000, need=['skips', 'truncated_skips', 'depth_checks', 'unknown_type_skips'],
                rule='Random value trees skipped at every position (field, list element, map key and value) through a recording source; the oracle '
                     'compares reader position and the values that follow with a run that reads instead of skipping; truncations, nesting beyond '
                     'each depth limit, unknown types. Distinct: tree shapes, positions and depths.'),
    'C06': dict(engines=['plain'], level='exploration', min_cases=5000, need=['documents', 'variants_read', 'nulls'],
                rule='Documents the JSON protocols write for all generated values, parsed by encoding/json and by a strict parser of our own that also '
                     'interprets them by the protocol definition; each document is re-emitted with other whitespace and escapes, and null for zeros, and read back. '
                     'Numbers used as object keys are not re-escaped. Distinct: document texts.'),
    'C09': dict(engines=['plain'], level='exploration', min_cases=5000, need=['hostile_reads', 'accepted', 'rejected', 'impossible_sizes', 'negative_sizes', 'hostile_frames', 'hostile_generated_reads', 'hostile_skips', 'type_names'],
                rule='All inputs of up to two bytes (and three from a hostile alphabet) for every type and protocol; mutated and spliced messages; JSON documents with one token '
                     'replaced; impossible sizes (with allocation measured); frame headers; generated readers and processor. The oracle is a panic, step and hang monitor plus '
                     'independent reference decoders: what they call malformed must be refused and what is accepted must be the value they give. Distinct: input bytes.'),
    'C10': dict(engines=['plain'], level='exploration', min_cases=3000, need=['truncations', 'deliveries_checked', 'foreign_forms'],
                rule='Proper prefixes of every generated message and value, over direct, framed, memory and stream transports, ending with EOF or an error; the oracle requires an '
                     'error and that everything delivered before is a prefix of what the whole message delivers. Numbers that stand alone in JSON are excluded, as they do not say '
                     'where they end. Distinct: prefixes.'),
    'C11': dict(engines=['plain'], level='exploration', min_cases=1500, need=['fragmentations', 'deliveries_compared', 'empty_reads', 'idle_streams'],
                rule='The same intact, truncated or damaged bytes delivered at once, byte by byte, in random pieces, split at single positions, with EOF together with or after the last '
                     'bytes, and through six kinds of transport; the oracle compares the full sequence of deliveries, success or error type, and bytes consumed. Distinct: bytes and delivery.'),
    'C12': dict(engines=['plain'], level='exploration', min_cases=3000, need=['complete_messages', 'reads_watched'],
                rule='Messages arriving one at a time on a stream that stays open: an instrumented source records any request for input once the whole message has been handed out. '
                     'All protocols and factories, framed, streamed and buffered, read and skipped, and whole client/processor exchanges. Distinct: message shapes and lanes.'),
    'C13': dict(engines=['plain'], level='exploration', min_cases=2000, need=['frames_written', 'reads_checked', 'cuts', 'negative_lengths', 'write_faults', 'read_faults', 'huge_frames'],
                rule='Random sequences of writes and flushes over a recording transport, compared after every call with the frames they prescribe; streams of random frames read with '
                     'random sizes in random pieces, compared with the concatenated contents and with how far the stream may have been fetched; frames cut at every kind of position, '
                     'negative lengths, each call of the underlying transport failing in turn; two transports side by side; frames in frames; frames of 17 to 37 MB. Distinct: operation and size sequences.'),
    'C14': dict(engines=['plain'], level='exploration', min_cases=1000, need=['bytes_delivered', 'reads_checked', 'duplex_transfers', 'http_exchanges', 'memory_ops', 'together'],
                rule='Random writes, flushes and reads through fifteen kinds of transport pair (memory, streams over buffers, pipes, other transports and fragmenting readers, sockets, non-blocking sockets, '
                     'accepted connections, framed sockets), HTTP requests and responses, compared byte by byte with a queue, with exact counts; large transfers in both directions '
                     'at once; buffers are overwritten after each write. Several transports are used in turns. Distinct: operation and size sequences.'),
    'C15': dict(engines=['plain'], level='exploration', min_cases=1000,
                need=['operations', 'closed_operations_refused', 'connections_checked', 'reopened', 'open_twice', 'failed_opens', 'interrupted', 'accepts_interrupted', 'peers_gone'],
                rule='Random sequences of open, close, interrupt, is-open, peek, read, readall, write, flush, listen and accept on every transport and server transport, against peers that '
                     'greet each connection with bytes of its own and record what they receive; a model of the life cycle predicts the outcome and state after each operation and what '
                     'each connection may carry. Distinct: operation sequences.'),
    'C16': dict(engines=['plain'], level='exploration', min_cases=1000, need=['http_recoveries', 'write_faults', 'read_faults', 'generated_faults', 'raw_faults', 'http_faults', 'protocol_faults', 'sources'],
                rule='For every generated message, protocol and transport lane the calls on the wire are counted and each in turn (all of up to 60, else a sample) made to fail once or from '
                     'then on, with nothing or part accepted; the oracle requires an error carrying the cause no later than the final flush or end of message, and no wrong delivery before. '
                     'HTTP error statuses, broken and short bodies. Each call of the protocol itself failing in turn below application exceptions and Skip. Distinct: message shape, lane and failing call.'),
    'C17': dict(engines=['plain', 'race'], level='exploration', min_cases=1000, gomaxprocs=8,
                need=['calls_answered', 'connections', 'hostile_clients', 'runs_with_calls_at_once', 'held_calls', 'connections_ended'],
                rule='Both servers, every constructor, over sockets and in-memory connections, all protocols, plain and framed: many clients at once, one call after the other or all at once, '
                     'whole and in pieces, with random sequence ids, generated clients among them, and clients that are silent, stall, cut a call short, send noise or damaged calls or go away; calls '
                     'that are held in the handler; processors that end the connection after some calls. Every call carries an identity that the handler logs; the oracle requires one processing per call, in order, and exactly the right replies on each '
                     'connection. The same under the race detector. Distinct: order in which calls of different clients were processed.'),
    'C18': dict(engines=['plain', 'race'], level='exploration', min_cases=800, gomaxprocs=8,
                need=['accept_errors', 'served_again', 'stops', 'stopped_at_accept-enter', 'stopped_at_accept-return', 'stopped_at_get-processor', 'stopped_at_handler', 'stopped_at_listen-return', 'stopped_at_timer', 'accepts_interrupted', 'serve_errors'],
                rule='Servers of every kind stopped at a chosen event of their life (listening, accepting, accepted, making transports, in the handler, before a call, after a reply, at a random time), in the '
                     'goroutine of the event or by one to three others, with zero to four clients; the oracle requires Serve to return, the transport to be closed, no connection accepted after that. Server '
                     'transports closed or interrupted while several goroutines accept; transports that cannot listen or accept, for a while or at all. The same under the race detector. Distinct: server configuration, event and stopping goroutines.'),
    'C21': dict(engines=['plain'], level='exploration', min_cases=3000, need=['operations', 'elements_compared', 'together', 'beyond'],
                rule='Random sequences of operations (indices within and beyond the ends, elements of the type, convertible ones and others) on lists of every element type, typed '
                     'from the start or by their first element; after each operation length, access, iteration and search are compared with a plain sequence of canonical values. '
                     'Several are used in turns. Distinct: operation sequences.'),
    'C22': dict(engines=['plain'], level='exploration', min_cases=3000, need=['operations', 'elements_compared', 'insertion_orders', 'together', 'beyond'],
                rule='Random insertions, deletions and searches on sets of every element type (elements from small pools, so that repetition is common), compared after each operation with '
                     'a mathematical set of canonical values; the same elements in all or several insertion orders have to make equal sets. Several are used in turns. Distinct: operation sequences.'),
    'C23': dict(engines=['plain'], level='exploration', min_cases=3000, need=['operations', 'elements_compared', 'lookups', 'insertion_orders', 'together', 'beyond', 'half_typed', 'misfits'],
                rule='Random stores and lookups on maps of all key and value types (including binary, containers and structs as keys), compared after each operation, by every iterator, with '
                     'a reference map of canonical values. Several are used in turns. Distinct: operation sequences and keys.'),
    'C24': dict(engines=['plain', 'generated'], level='exploration', min_cases=3000, need=['comparisons', 'triples', 'generated_comparisons', 'one_field_apart'],
                rule='Pools of equal, nearly equal and different values of random schemas, each built twice in different ways: all pairs and triples are compared and checked against the laws '
                     'of a total order, equality of contents, the natural order of base types and every form of less-than; fields, field containers, messages, generated structs and the '
                     'comparison helpers; then the structs the generator of the tree makes of many definitions, with any subset of fields set, against the same laws. Distinct: pools of values.'),
    'C25': dict(engines=['plain'], level='exploration', min_cases=20000, need=['conversions', 'accepted', 'refused', 'numerics'],
                rule='Go values of every kind (integers of all kinds at all edges, doubles, texts of numbers well and ill formed, bytes, enums, numerics, containers, foreign types) converted to '
                     'every Thrift type; the oracle works out with rationals what the value denotes and accepts only that or a refusal (no refusal for values of the type and integers in range). '
                     'Distinct: source values.'),
    'C26': dict(engines=['plain'], level='exploration', min_cases=5000, need=['kind_numbers', 'errors_wrapped', 'exceptions_made', 'exceptions_read', 'layers'],
                rule='Errors of every kind wrapped in every way, compared in identity, kind and message; application exceptions written and read back, or in foreign forms (other field order, unknown '
                     'fields, other types); transport errors of each kind raised below each protocol. Distinct: errors and messages.'),
    'C27': dict(engines=['plain'], level='exploration', min_cases=1500, need=['accounts_settled', 'operations', 'connections', 'responses', 'bodies_closed', 'servers', 'many_fields'],
                rule='Goroutines and open descriptors (from /proc) are counted before and after each workload, with the garbage collector off so that nothing is closed by finalizers, and have to return to '
                     'what they were: containers compared, searched and iterated in full or in part, whole and damaged values read, sockets and server sockets opened, reopened, interrupted and closed in '
                     'all orders against peers that are there or not, HTTP clients (every response body given out is followed until it is closed), and servers that good and hostile clients come to and leave, '
                     'while running and after Stop. Distinct: workloads.'),
    'C28': dict(engines=['plain', 'race'], level='exploration', min_cases=2000, gomaxprocs=8, need=['results_compared', 'readers', 'struct_readers', 'shared_processor_calls'],
                rule='Two to eight goroutines started together, each with protocols, transports, containers, numerics, exceptions, fields and generated clients of its own (only factories shared), compared with '
                     'the result of the same work done alone; several goroutines reading one container or generated struct in every way; the same under the race detector, any report of which is a violation. '
                     'Transports yield at random. Distinct: results.'),
    'C29': dict(engines=['generated'], level='exploration', min_cases=500,
                need=['structs_checked', 'fields_compared', 'fresh_structs_compared', 'constants_compared', 'enum_values_compared', 'functions_compared', 'packages_compiled', 'runs_under_memcheck'],
                rule='Interface definitions: three by hand (every feature, the one of the repository\'s golden code, the one of Cassandra) and randomly generated ones (20 quick, 200 thorough: '
                     'several files including each other, typedefs, enums, constants, unions, exceptions, inherited services, odd names, ids and defaults). The generator of the tree, built with ASan and '
                     'UBSan behind a front end of our own, makes Go code of each, twice and with other memory contents, and again under memcheck; every package has to compile; then reflection and the metadata '
                     'of the packages are compared with the definition: names, ids, types, defaults, enum values, constants, functions. Distinct: definitions of structs, enums and services.'),
    'C30': dict(engines=['plain'], level='exploration', min_cases=3000, need=['lookups', 'absent_lookups', 'orders_compared', 'fields_iterated', 'messages_compared', 'type_facts', 'type_comparisons', 'inferred', 'type_codes'],
                rule='Random sets of fields (odd ids and names, up to 240 fields) made into containers and structs, in several orders, with the slice changed afterwards; every id and name, and many that are '
                     'not there, looked up and compared with the set; near-equal messages compared pairwise; all 256 type codes against a table and each other; values of every Go type against the type '
                     'inferred. Distinct: sets of fields.'),
    'C31': dict(engines=['plain'], level='exploration', min_cases=1500,
                need=['late_flushes', 'protocols_compared', 'transports_made', 'connections', 'timeouts', 'write_timeouts', 'waits', 'servers_made', 'http_requests', 'calls_through_servers'],
                rule='Every factory given nothing, a transport of its kind and one of another kind: protocols of one factory used in turns are compared with protocols used alone; streams, buffers and frames with '
                     'the ends they belong to; sockets connect to one of two endpoints that say who they are; reads from silent peers and writes to peers that do not read have to end in a timeout in their time, and to wait when there is none; HTTP '
                     'servers record method, URL and body; every server constructor, with different factories for input and output, carries a call whose reply is compared byte by byte. '
                     'Distinct: configurations.'),
    'C32': dict(engines=['generated'], level='exploration', min_cases=300,
                need=['tools_built', 'calls_checked', 'calls_plain', 'calls_framed', 'calls_http', 'calls_simplejson', 'results_printed', 'errors_printed', 'hang_ups', 'misuses_refused', 'usages', 'nobody_there'],
                rule='The command line clients of services of the same definitions are built and run as processes against servers of our own (plain and framed sockets, HTTP) in every protocol, with random values '
                     'for every argument; what arrives is taken apart and compared with the values given, or handed to the generated processor of the service; replies are values, exceptions, errors or none, '
                     'and what is printed is compared with them. Wrong numbers of arguments, numbers out of range at every edge, texts that are no numbers, cut JSON, unknown functions and protocols: nothing may '
                     'arrive. Distinct: function, shape of values, outcome, protocol and way to connect.'),
    'C20': dict(engines=['generated'], level='exploration', min_cases=500,
                need=['protocol_faults', 'structs_written_and_read', 'foreign_structs_read', 'unknown_fields', 'fields_written', 'structs_in_sequence', 'structs_by_name', 'large_containers', 'fields_alone', 'containers_beyond_65535'],
                rule='For every struct, union, exception, argument and result struct of the same definitions: random subsets of fields with random values, written by generated code (the bytes are '
                     'taken apart and compared with the values, wire types included) and read by generated code; the same values written by others with unknown fields, fields of other wire types, '
                     'in any order, must read the same; IsSet methods and defaults are compared; many structs in one stream; structs written and read by names through simple JSON; each call of the protocol failing in turn. Distinct: shapes of values per struct.'),
    'C19': dict(engines=['generated'], level='exploration', min_cases=500,
                need=['added_functions', 'calls_handled', 'unknown_calls', 'undecodable_calls', 'oneway_calls', 'replies_checked', 'requests_checked', 'returns_checked', 'other_replies_refused',
                      'cut_replies_refused', 'calls_together', 'send_faults', 'reply_faults', 'protocol_faults'],
                rule='For every service of the same definitions, inherited functions included: streams of calls (good, unknown, undecodable, oneway) through the generated processor, with handlers that '
                     'return values, nothing, declared exceptions and errors, where handler calls and the replies are compared with what was sent and returned; generated clients whose requests are taken '
                     'apart and whose replies are scripted (values, exceptions, application exceptions, other sequence ids, cut or missing replies); clients and processors together, framed or not; each '
                     'write and flush of a call or reply, and each call of the protocols, failing in turn. Distinct: shapes of calls per function, outcome and protocol.'),
}
NOT_APPLICABLE = {}
