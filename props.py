# Single source for properties.jsonl, MANIFEST.json (gen.py writes both).
P = []


def prop(id, title, statement, over, text, why, files, mech, note="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, state=state, observe=observe))


I = "include/fitoria/"

prop("C01", "Trimming and splitting text keep exactly the right characters",
     "Trimming removes exactly the leading and trailing white space (or characters matching the given predicate) and nothing else, and the result is a view into the given text. "
     "Splitting at a set of delimiter characters gives one trimmed piece per delimiter plus one, in order, with empty pieces kept.",
     ["inputs"], "every byte string up to the stated length, every delimiter set of up to three symbolic characters",
     "The tests split a handful of ASCII literals; bytes above 0x7f, runs of delimiters at either end and white space next to a delimiter are sampled once or not at all.",
     [I + "core/strings.hpp"], [("left/right trim loops", I + "core/strings.hpp ltrim/rtrim/trim"), ("search for the next delimiter", I + "core/strings.hpp split_of")])
prop("C02", "Case-insensitive comparison is a consistent order over all text",
     "Two texts compare equal ignoring case exactly when they have the same length and each pair of bytes is the same up to ASCII letter case. "
     "The three-way form is the lexicographic order of the lower-cased bytes: it is zero exactly when they compare equal, antisymmetric and transitive.",
     ["inputs"], "every pair and triple of byte strings up to the stated lengths",
     "Order laws quantify over pairs and triples of strings; the tests compare a few literals, never with bytes outside ASCII letters.",
     [I + "core/strings.hpp"], [("byte-wise comparison of lower-cased text", I + "core/strings.hpp cmp_eq_ci, cmp_tw_ci")])
prop("C03", "Text converts to a number, boolean or string exactly when it denotes one",
     "Converting text to an integer type succeeds exactly when the whole text is a decimal numeral of that type (a leading minus only for signed types) and gives its value; text that is not a numeral is an invalid-argument error and a numeral that does not fit is an out-of-range error. "
     "Converting to a boolean succeeds exactly for 1/t/true/y/yes and 0/f/false/n/no in any case, and converting to a string keeps the text unchanged.",
     ["inputs"], "every byte string up to the stated length, and templates around the limits of each integer type",
     "The tests sample a few numerals per type; trailing garbage, embedded NUL, sign handling and the exact limits of eight types are a quantifier over all strings.",
     [I + "core/from_string.hpp", I + "core/detail/from_string_impl.hpp"],
     [("from_chars plus end-of-text check", I + "core/detail/from_string_impl.hpp from_string_impl"), ("boolean literals", I + "core/from_string.hpp")])
prop("C04", "A result holds exactly one of value and error through any history",
     "Whatever sequence of constructions, copies, moves, assignments, swaps and in-place constructions a result (value-or-error) object goes through, including ones whose element constructors throw, it holds exactly one live alternative, the one last stored, with the stored content. "
     "Every element that was constructed is destroyed exactly once, no dead element is touched, and an operation that throws leaves the object as it was.",
     ["histories", "fault_sequences"], "every history of the stated number of operations over value, void and reference results, with a throw injected at every element operation that may throw",
     "The tests run fixed short sequences with types that do not throw; lifetime errors appear only for specific combinations of held alternative, source alternative and throwing operation.",
     [I + "core/expected.hpp"], [("union storage, destroy-then-construct and rollback on throw", I + "core/expected.hpp")])
prop("C05", "Result combinators run exactly the right callback and preserve content",
     "On a result that holds a value the value combinators call their function once with that value and the error combinators pass the value through; on a result that holds an error it is the reverse, in every value category and constness. "
     "Equality, fallback values, checked access and conversions between result types agree with the held alternative and its content.",
     ["inputs", "programs"], "every content of the operands (symbolic), both alternatives, all value categories, for value, void and reference results",
     "Each test fixes one content and one alternative; that the callbacks are called exactly once and get the content for every operand is never stated.",
     [I + "core/expected.hpp"], [("and_then/or_else/transform/transform_error/map_or, value(), value_or, operator==, converting constructors", I + "core/expected.hpp")])
prop("C06", "An optional holds what was last stored through any history",
     "Whatever sequence of constructions, copies, moves, assignments, resets, swaps and in-place constructions an optional goes through, including ones whose element constructors throw, it is engaged exactly when a value was last stored in it and then holds that value. "
     "Every element that was constructed is destroyed exactly once and no dead element is touched; an optional of a reference always designates the object it was last bound to and never writes through to it.",
     ["histories", "fault_sequences"], "every history of the stated number of operations over value, reference and void optionals, with injected throws",
     "The tests run fixed sequences with int and strings; lifetimes under throwing element operations and rebinding of references need all histories.",
     [I + "core/optional.hpp"], [("union storage with engaged flag; pointer storage for references", I + "core/optional.hpp")])
prop("C07", "Optional combinators and comparisons agree with the held value",
     "A combinator on an engaged optional calls its function once with the held value, and on an empty one takes the empty branch, in every value category and constness. "
     "Comparison between optionals, with plain values and with the empty marker is the order that puts empty before every value and otherwise compares the values; conversions keep emptiness and content.",
     ["inputs", "programs"], "every content of the operands (symbolic), engaged and empty, all value categories, value/reference/void",
     "Order and combinator laws quantify over all contents and both states of both operands; tests compare a few constants.",
     [I + "core/optional.hpp"], [("and_then/or_else/transform/value_or, operator==/<=>", I + "core/optional.hpp")])
prop("C08", "Compile-time strings keep and concatenate their characters exactly",
     "A fixed string has the characters it was built from, their number as its size, and converts to text with exactly those characters. "
     "Concatenation gives the characters of both operands in order, is associative and leaves the operands unchanged.",
     ["inputs"], "every content of three strings of the stated sizes",
     "Tests concatenate one pair of literals; the contents, embedded NUL included, are universally quantified.",
     [I + "core/fixed_string.hpp"], [("array copy", I + "core/fixed_string.hpp")])
prop("E01", "Base64 encoding and decoding are inverse and strict",
     "Encoding any bytes, in one piece or in any split over successive writes, gives the RFC 4648 text in the standard or URL-safe alphabet with or without padding, and decoding that text gives the bytes back. "
     "Decoding succeeds exactly on complete, correctly padded text of the alphabet and gives exactly the decoded bytes; everything else is reported as an error or as unfinished, for every byte value and character type.",
     ["inputs", "histories"], "every byte string and every text up to the stated length; every split point",
     "Tests use the RFC vectors; arbitrary bytes, invalid characters in each position, misplaced padding and splits are all-quantified.",
     [I + "encoding/base64/encoder.hpp", I + "encoding/base64/decoder.hpp", I + "encoding/base64/alphabet.hpp"],
     [("bit-group state machines", I + "encoding/base64/encoder.hpp, decoder.hpp"), ("alphabet tables", I + "encoding/base64/alphabet.hpp")])
prop("C09", "A dynamic buffer is a bounded first-in-first-out queue of bytes",
     "Bytes written into a prepared region and committed become readable after those already there, consuming removes bytes from the front (all of them when more are asked for), and what is readable is always exactly the bytes committed and not yet consumed, in order. "
     "Preparing gives exactly the requested number of writable bytes, or fails without any effect exactly when they would exceed the limit, and releasing gives the container with exactly the readable bytes.",
     ["histories", "inputs"], "every history of the stated number of prepare/commit/consume/copy/move/release operations with small and extreme sizes, any contents, several limits and container types",
     "Tests run one history without a limit and one that hits it; shifting under a limit followed by a write is not checked.",
     [I + "core/dynamic_buffer.hpp"], [("read and write offsets into a container", I + "core/dynamic_buffer.hpp prepare/commit/consume/compress")])
prop("H01", "A Range header is read exactly and never yields a bogus byte range",
     "A Range value is accepted exactly when it is unit=set with either one suffix (-N, N at least 1, on a non-empty representation) or a comma list of first-last and first- items (first not above last, an open item starting before the end), all numbers fitting 64 bits with last below the largest. "
     "The unit is given back, an item first-last becomes offset first and length last-first+1, an open item runs to the end, and a suffix longer than the representation selects all of it; no range is empty or wraps around.",
     ["inputs"], "every text up to the stated length and templates with numbers at the 64-bit limit; every representation length",
     "Tests use one length (1000) and a dozen texts; wrap-around needs particular numbers and lengths.",
     [I + "http/header/range.hpp"], [("split at = , - and number conversion", I + "http/header/range.hpp parse, parse_subranges")], )
prop("H02", "Entity tags read, print and compare exactly",
     "Text is read as an entity tag exactly when it is an optional W/ followed by a quoted run of characters 0x21, 0x23-0x7e or 0x80-0xff; weakness and value are as written, and printing gives the text back. "
     "Two tags are equal exactly when value and weakness agree and weakly equal exactly when the values agree.",
     ["inputs"], "every text up to the stated length; every pair of tag values",
     "Tests read a few ASCII tags; the accepted alphabet and round trip are over all bytes.",
     [I + "http/header/entity_tag.hpp"], [("prefix/quote stripping and character check", I + "http/header/entity_tag.hpp")])
prop("H03", "If-None-Match is read as exactly its list of entity tags",
     "A value is accepted exactly when, surrounding white space aside, it is * or a comma-separated list of one or more entity tags, each optionally surrounded by white space; a comma inside a quoted tag belongs to the tag. "
     "The tags come out in order with value and weakness as written, and only * is reported as matching any.",
     ["inputs"], "every text up to the stated length and list templates",
     "Tests read two lists; commas and blanks inside and around tags in any combination are not sampled.",
     [I + "http/header/if_none_match.hpp"], [("quote-aware split, tag parser", I + "http/header/if_none_match.hpp")])
prop("H04", "HTTP dates print the exact GMT second and convert losslessly",
     "A date prints as 'Www, DD Mon YYYY hh:mm:ss GMT' for the whole second at or before its time, in UTC whatever the process's time zone, before the epoch too. "
     "It gives back the time it was built from, converts to file-clock time and back without change, and orders like the times.",
     ["inputs", "configurations"], "every nanosecond of chosen seconds, every hour/minute/second of chosen days (month ends, leap days, century years, before 1970), three time zones, every 64-bit time for conversion and order",
     "The test prints the epoch in the zone of the build machine.",
     [I + "http/header/date.hpp", I + "core/chrono.hpp"], [("floor to seconds, UTC calendar formatting", I + "http/header/date.hpp to_string"), ("clock conversion", I + "core/chrono.hpp")])
prop("H05", "HTTP version numbers, names and texts map one to one",
     "The numbers 9, 10, 11, 20 and 30 name versions 0.9, 1.0, 1.1, 2.0 and 3.0, every other number is unknown, and converting back gives the same number (11 for unknown). "
     "Each version prints and formats as its text, unknown values as 'unknown'.",
     ["inputs"], "every 32-bit number and every value of the enumeration's type",
     "Tests check the six listed values, not the other 2^32.",
     [I + "http/version.hpp"], [("if/switch mapping", I + "http/version.hpp")])
prop("H06", "Headers are a multimap keyed by name ignoring case",
     "After any sequence of set, insert, erase, clear, copy, move and conversion, each header name (case ignored, by text or by field constant) has exactly the values inserted since it was last set or erased, in insertion order; set replaces all values of that name and no other. "
     "Lookup gives the first value, erase reports how many were removed, and size, emptiness, membership, ranges and iteration agree with the content.",
     ["histories", "inputs"], "every history of the stated number of operations over six spellings of four names, with symbolic values; pairs of names with symbolic characters",
     "Tests run two fixed histories with three names; repeated names and conversions are checked for one case each.",
     [I + "http/header_map.hpp"], [("forwarding to Boost.Beast fields", I + "http/header_map.hpp")])
prop("M01", "A media type is read exactly by its grammar and split into its parts",
     "Text is a media type exactly when it is type/subtype with an optional +suffix and ;name=value parameters, where every name and value starts with a letter or digit and goes on with letters, digits or !#$&-^_, with white space allowed around each part. "
     "Source, essence, type, subtype, suffix and parameters are exactly those parts, and of parameters whose names differ only in case the last value counts.",
     ["inputs"], "every text up to the stated length and templates with up to three parameters",
     "Tests parse about twenty literals; the grammar is over all byte strings.",
     [I + "mime/mime_view.hpp"], [("nested splits and name check", I + "mime/mime_view.hpp parse")])
prop("M02", "Media type names compare ignoring case; extensions map to their type",
     "Names compare equal exactly when they agree up to ASCII case, their order agrees with that, and their lower-case text names the same thing. "
     "A file extension (in any case), or the part of a path after its last dot, maps to its registered media type and to nothing otherwise, and every predefined media type equals the one read from its text, with the same parts.",
     ["inputs"], "every pair of names and every extension up to the stated length; all predefined types",
     "Tests look up each listed extension once in one spelling; unlisted and near-miss extensions are not tried.",
     [I + "mime/name_view.hpp", I + "mime/mime_view.hpp"], [("case-insensitive comparison", I + "mime/name_view.hpp"), ("extension table", I + "mime/mime_view.hpp from_extension/from_path")])
prop("M03", "Media type parameters behave as a map keyed ignoring case",
     "After any sequence of insertions, updates, erasures, lookups, copies and clears, the parameter set holds for each name (case ignored) the last value stored and not since erased, and nothing else. "
     "Size, membership, lookup, checked access and iteration in ascending name order all agree with that.",
     ["histories", "inputs"], "every history of the stated number of operations over names that coincide up to case",
     "Tests run one fixed history.",
     [I + "mime/params_view.hpp"], [("ordered map with case-insensitive key", I + "mime/params_view.hpp")])
prop("L01", "Log level names and filters select exactly the right levels",
     "A level is read from its name in any case and anything else is off; printing a level and reading it gives it back. "
     "A filter made from a threshold passes exactly that level and above, one made from a list exactly the listed levels, one made from the environment the threshold named there (none if unset), and nothing ever passes the level off.",
     ["inputs", "configurations"], "every name up to the stated length, every threshold, every list of three levels, every environment value up to the stated length",
     "Tests check some levels of some filters and a few spellings.",
     [I + "log/level.hpp", I + "log/filter.hpp"], [("name table", I + "log/level.hpp"), ("bit set of levels", I + "log/filter.hpp")])
prop("L02", "A log line shows every field of the record as the pattern says",
     "A formatted record is the pattern with each placeholder replaced by that record's time (UTC), level, message, line, column, file and function, followed by the chosen newline; the texts of the record are copied as they are, whatever characters they contain. "
     "The file is the whole path or the part after its last separator as chosen, and a level style adds only its escape sequences around the level.",
     ["inputs", "configurations"], "every content of message, file and function up to the stated lengths, all levels, newline, file and level styles, several patterns, three time zones",
     "Tests search for a substring of one record's line.",
     [I + "log/formatter.hpp", I + "log/record.hpp"], [("named format arguments", I + "log/formatter.hpp format")])
prop("L03", "Every record that is let through reaches every writer once and in order",
     "However the threads of the pool take turns, each call to the logger whose level the filter allows is handed exactly once to every writer attached before, with its own level, formatted text, file and line, in the order of the calls; a call whose level is not allowed reaches none. "
     "Destroying the logger first delivers everything that was logged, whether the writer is busy, the buffer is full or nothing has run yet, and does not wait for anything that never comes. "
     "log, trace, debug, info, warning, error and fatal do this with their level through the default logger in force at that moment, and do nothing when there is none; a file writer appends one formatted line per record to the file, whatever part of it is written at once.",
     ["inputs", "schedules", "histories"], "every schedule of the pool's work within the stated number of choices, all levels and texts of the stated size, buffers of different sizes, several writers and loggers",
     "Tests log one record at a time and wait for it on a thread pool whose schedule they do not control; they never destroy a logger that is busy.",
     [I + "log/async_logger.hpp", I + "log/log.hpp", I + "log/registry.hpp", I + "log/basic_async_stream_file_writer.hpp"], [("queue between callers and writers", I + "log/async_logger.hpp async_dequeue_and_write"), ("default logger", I + "log/registry.hpp")])
prop("W01", "Route patterns are accepted by their grammar and split losslessly",
     "A route pattern is accepted exactly when it consists of path characters (unreserved, sub-delimiters, ':', '@', percent-encoded bytes) and slashes, parameters {name} that fill a whole segment after a slash, and, where allowed, one final #name wildcard, all names non-empty and pairwise different. "
     "The parts come out in order, spell the pattern when put together, and do not depend on what the parser handled before.",
     ["inputs", "histories"], "every pattern up to the stated length and templates with up to three parameters, with and without wildcard support",
     "Tests list about fifty patterns and check acceptance only, never the parts.",
     [I + "web/path_parser.hpp"], [("three-state scanner", I + "web/path_parser.hpp on_root")])
prop("W02", "Layered state lookup finds the innermost object and copies are isolated",
     "Looking up a state object by type gives the one in the innermost layer that has it, by reference to the stored object, and nothing if no layer has one. "
     "Adding a layer or an object to a copy never changes what any other storage sees, while layers shared on purpose stay shared.",
     ["histories"], "every history of the stated number of prepend/append/insert/update operations over storages and three object types",
     "Only the server-level tests touch it, with one fixed nesting.",
     [I + "web/state_storage.hpp"], [("ordered list of shared maps", I + "web/state_storage.hpp")])
prop("W03", "Error codes identify their error and carry its message",
     "Every web and compression error converts to a code with its own number, category and message; two codes are equal exactly when they denote the same error, and codes of different categories never compare equal. "
     "A number that denotes no error has an empty message, and the compression stream parameters keep the buffers and sizes they are given.",
     ["inputs"], "all pairs of errors and every 32-bit number",
     "Tests check one code per error.",
     [I + "web/error.hpp", I + "web/middleware/detail/brotli_error.hpp", I + "web/middleware/detail/brotli_params.hpp"], [("error categories", I + "web/error.hpp")])

prop("W05", "A path matches a route pattern exactly when it has its shape",
     "A path matches exactly when every literal character of the pattern (whatever it means elsewhere) appears in place, every {name} takes one or more characters other than '/', and a final #name takes all the rest, the rest possibly being empty. "
     "A match gives one value per name, in the order of the pattern, each the exact part of the path at that place; copies and moves of a matcher behave the same.",
     ["inputs"], "every path within the stated templates for each of 33 patterns; patterns with symbolic literal characters",
     "Tests try a handful of paths; characters special to other notations, empty segments and non-letters are not sampled.",
     [I + "web/path_matcher.hpp", I + "web/path_parser.hpp"], [("pattern tokens matched against the path", I + "web/path_matcher.hpp match")])
prop("W06", "Routing finds the best matching route whatever the order of insertion",
     "Looking up a method and path gives a route of that method whose pattern matches the path, and fails exactly when there is none. "
     "Where several match, a literal beats a parameter and a parameter beats a wildcard at the first place they differ, whatever the order of insertion and whether or not the table was optimized; inserting a second route of equal method and shape is reported as an error and changes nothing.",
     ["inputs", "histories"], "every sequence of the stated number of insertions from several pools of patterns and every path of the stated templates, checked against a search of all routes",
     "Tests insert fixed route sets in one order; prefix splits depend on the order and on shared prefixes.",
     [I + "web/router.hpp"], [("prefix tree with split, insert and lookup", I + "web/router.hpp node")])
prop("W07", "Path parameters are found by name and by position, in pattern order",
     "The parameters of a matched path keep pattern, path, and every name and value; iteration, both ways, and lookup by number follow the order of the pattern, lookup by name finds exactly the stored names, and all ways of looking up give the same object. "
     "Checked access throws exactly when there is no such entry, and copies, moves and comparison follow the content.",
     ["inputs", "histories"], "all contents of the stated number of parameters with symbolic values, built both ways, with copies, moves and assignments",
     "Tests look up three parameters of one object.",
     [I + "web/path_info.hpp"], [("ordered list with an index by name", I + "web/path_info.hpp")])
prop("W08", "Query and form parameters hold the last value given for each name, decoded",
     "A form text is read exactly when it is well-formed (percent escapes complete, only characters allowed in a query); the result has, for every name that was given a value, the last value given, with percent escapes decoded and '+' as a space; a query of a request target likewise. "
     "After any sequence of set, index, erase, assignment through a lookup, copy, move and clear, the map holds for each name exactly the last value stored and not since erased, and size, membership, lookup, iteration and text agree with that.",
     ["inputs", "histories"], "every text within the stated templates; every history of the stated number of operations over three names with symbolic values",
     "Tests decode two forms; escapes, '+', repeated names and missing values in combination are not sampled.",
     [I + "web/query_map.hpp", I + "web/detail/as_form.hpp"], [("map from decoded name to decoded value", I + "web/query_map.hpp, detail/as_form.hpp")])
prop("B01", "A body stream delivers all its bytes once, in order, then its end or its error",
     "Reading a body to its end gives the concatenation of its pieces in order when the stream ends, and the stream's error otherwise; every piece is taken once and nothing is read after the end, also through type erasure, moves and bodies with a stated kind or size. "
     "A body held in memory delivers exactly the bytes given, once, without changing their source, and then stays at its end.",
     ["inputs", "schedules", "faults"], "every content of bodies of the stated number and sizes of pieces, empty ones included, with or without an error after the last; containers of bytes and characters; all ways of holding the stream",
     "Tests read one body of one piece; errors after data and empty pieces are not injected.",
     [I + "web/async_read_until_eof.hpp", I + "web/async_readable_vector_stream.hpp", I + "web/any_async_readable_stream.hpp", I + "web/any_body.hpp"],
     [("reading loop", I + "web/async_read_until_eof.hpp"), ("type erasure", I + "web/any_async_readable_stream.hpp, any_body.hpp")])
prop("B02", "A streamed body is written as one chunked body, left unfinished on failure",
     "Writing a body in chunks succeeds only when neither side fails, and what was written is then exactly one well-formed chunked body carrying all pieces in order, empty ones included. "
     "When the body or the connection fails at any point, its error is given and the chunked body on the wire is left without its end, so that the receiver can tell.",
     ["inputs", "schedules", "faults"], "every content of bodies of the stated number and sizes of pieces; a connection that takes all, 1 or 3 bytes at a time and fails after every possible number of bytes; a body that fails after its pieces",
     "Tests write one body to a buffer that takes everything.",
     [I + "web/async_write_chunks.hpp"], [("chunk loop", I + "web/async_write_chunks.hpp")])
prop("S01", "The server answers each request once, in order, and keeps requests apart",
     "On a connection every complete well-formed request reaches the handler of its route with exactly its own method, version, path, query, headers and body and gets exactly one complete response with the handler's status, headers and body (404 without a route, 400 for an invalid target), in order, however the bytes are split in transport; what follows a request, read or unread by its handler, is never taken for another request and the connection goes on or closes as the request asked. "
     "Responses to HEAD and of status 204 carry no body, a client that expects 100-continue gets it. An unfinished, malformed or too large request never reaches a handler as if complete, and a response that fails midway is never made to look complete.",
     ["inputs", "schedules", "faults", "histories"], "29 kinds of request in four forms of connection with symbolic content, each followed by another or none, with three splits of reads and writes; truncation and write failure after every number of bytes; limits; malformed requests",
     "The tests of the server send single well-formed requests; bodies left unread, splits, truncations and failing writes are not tried.",
     [I + "web/http_server.hpp", I + "web/async_message_parser_stream.hpp", I + "web/handler.hpp", I + "web/from_request.hpp", I + "web/to_response.hpp", I + "web/response.hpp", I + "web/request.hpp"],
     [("session loop", I + "web/http_server.hpp do_session_impl, do_response"), ("body of the request", I + "web/async_message_parser_stream.hpp")])
prop("S02", "Each request of a connection is served under its own time limit",
     "The server sets the request time limit of its builder (5 seconds unless set, any limit or none) on the connection anew for each request before it waits for it, and never reads or writes without it; without a limit it never sets one. "
     "A connection that ends by its limit or by an error ends the session with that error, and a session ends with an orderly shutdown exactly when it closes the connection itself.",
     ["inputs", "schedules", "histories"], "every limit (64-bit, symbolic), the default and none; kinds of request keep-alive or closing, each followed by another; three splits of reads and writes; ends by the client or the limit",
     "Tests run with one limit and never let the connection see when it is set.",
     [I + "web/http_server.hpp"], [("expires_after in the session loop", I + "web/http_server.hpp do_session_impl"), ("builder", I + "web/http_server.hpp set_request_timeout")])
prop("S03", "The server keeps to the limits of its builder and serves the routes given",
     "A server has exactly the settings last given to its builder, whichever way and in whatever order they are given, or their defaults: connections to listen for, time limits of TLS handshakes (3 s) and requests (5 s), sizes of headers (8 KB) and bodies (1 MB), each of the last four also none. "
     "A request whose body is longer than the limit, given by its length or found while its chunks arrive, never reaches a handler as complete, one within the limit does; a header over its limit is answered with 400 and the connection closed. Routes are served, one by one or by scope, and one served twice is refused.",
     ["inputs", "histories"], "up to two settings with any values; every 64-bit limit with bodies of 0 to 5 bytes in three framings; every 32-bit limit of headers; lengths around the defaults and up to 2^64 - 2",
     "The tests of the server use one limit each, far from the edge, and never read the settings back.",
     [I + "web/http_server.hpp"], [("builder", I + "web/http_server.hpp class builder"), ("limits of the parser", I + "web/http_server.hpp do_session_impl")])
prop("W09", "WebSockets open only when valid and carry each message whole, once and in order",
     "A request for a WebSocket is accepted (status 101, the answer to its key, the handler's headers) exactly when its opening handshake is valid and the handler takes it; an invalid one gets 400 or, for another version, 426, and one that no handler takes (other routes, no route, a handler that answers otherwise) gets the usual response on a connection that goes on. "
     "Each message of the client, however it is split in frames and in transport, reaches the callback once, in order, with its kind and content, a close as a close, a lost connection as an error; each message, ping and close of the callback is written as such with its kind, content and code. The time limits set are those of the connection. After the callback returns the session ends and nothing that follows is taken for a request.",
     ["inputs", "schedules", "histories"], "openings with each field wrong or missing and a symbolic version; two messages of up to two frames with symbolic content and masks, a ping between frames, three splits of reads and writes; lengths around 125 and 126; nine close codes; symbolic time limits",
     "Tests open one valid WebSocket and echo fixed messages; invalid or misdirected openings, splits and fragments are not tried.",
     [I + "web/websocket.hpp", I + "web/http_server.hpp"], [("WebSocket of a handler", I + "web/websocket.hpp"), ("choice between answer and WebSocket", I + "web/http_server.hpp do_session_impl")])
prop("T01", "A test request reaches the handler as given and its response comes back as sent",
     "Through serve_request, a handler receives exactly the method, version, path, query parameters, headers and body bytes that the test request was built with, whatever characters path and parameters contain and however the body is given (none, of known size, streamed), once. "
     "The response handler receives, once, exactly the status, version, headers and body the handler answered with (no body for HEAD), also when the request waits for 100 (Continue) and in whatever order the two sides run; a response body that fails does not end well, and without a response it is not called.",
     ["inputs", "schedules", "faults"], "paths and queries with two symbolic characters; seven methods, two versions, symbolic header values and bodies of three kinds, also around the 64 KB in which bodies are read; seven statuses, named or not; orders of the ready steps with up to two deviations",
     "Tests send fixed paths and bodies; reserved characters, HEAD, statuses without a name and other schedules are not tried.",
     [I + "web/test_utils.hpp", I + "web/http_server.hpp", I + "web/async_message_parser_stream.hpp"], [("client of test requests", I + "web/test_utils.hpp"), ("serving in memory", I + "web/http_server.hpp serve_request")])
prop("F01", "A served file's response carries exactly the file or the range asked for",
     "static_file answers a request without Range with the whole file, one whose first range lies in the file with 206, exactly its bytes and a Content-Range that names it, any other Range with 416 and the file's length; a matching If-None-Match gives 304 without a body, one that is malformed 400. "
     "Last-Modified, ETag (one per size and second), Content-Type and, for other than inline types, Content-Disposition with the file's name are those of the file; a file that cannot be opened is reported, one that cannot be read does not end well. A body saved to a file is, when that succeeds, exactly the file's content.",
     ["inputs", "faults"], "ranges with every value of their digits, suffixes and open ends, over seven sizes of files with symbolic bytes; entity tags with one symbolic character; every nanosecond of the times; sizes around the 64 KB in which files are read; reads and writes in parts, failing at the start or in the middle; names with symbolic characters",
     "Tests serve one random file with a few ranges; names to be escaped, edges of files and failures are not tried.",
     [I + "web/static_file.hpp", I + "web/async_readable_file_stream.hpp", I + "web/async_read_into_stream_file.hpp", I + "web/test_response.hpp"],
     [("choice of the response", I + "web/static_file.hpp"), ("reading", I + "web/async_readable_file_stream.hpp"), ("saving", I + "web/async_read_into_stream_file.hpp")])
prop("R01", "Requests and responses carry exactly what was put into them",
     "After any sequence of builder calls a response has the status and version set last, exactly the headers set and inserted (set replacing all of that name, ignoring case) and the body given last, with its kind (none, of known size, of unknown size, streamed) and bytes; a request likewise with method, query, path and states. "
     "Taking a builder from a message and building again changes only what is set in between. Each named response has its status number; a handler's text, bytes, variant or expected becomes the response of what it holds.",
     ["histories", "inputs"], "every history of the stated number of builder calls, with symbolic statuses, values and bodies, as lvalue and rvalue chains; all named statuses; all 32-bit status numbers",
     "Tests build one response per feature; that a later call keeps what earlier calls set is not combined.",
     [I + "web/response.hpp", I + "web/request.hpp", I + "web/test_request.hpp", I + "web/to_response.hpp", I + "http/status_code.hpp"],
     [("builders moving their parts into messages", I + "web/response.hpp, web/request.hpp"), ("conversion of results", I + "web/to_response.hpp")])
prop("X01", "Handler arguments come exactly from the request or the handler does not run",
     "A handler runs exactly when every argument can be had, with exactly the request's values: path and query parameters and form fields by name into a structure (exactly its fields present, each text a full valid value of its type), path parameters by position into a tuple, a form only of its content type, the body as text or bytes, states by copy, and the request's own parts by reference. "
     "Otherwise the answer is the error of the first argument that cannot be had, 400 for bad input, and later arguments are not taken.",
     ["inputs", "faults"], "requests with 0..3 parameters of four names with symbolic values, forms under six content types in split, malformed and failing bodies, missing states, all combinations of failing arguments",
     "Tests extract one valid request per kind and a few failures.",
     [I + "web/path_of.hpp", I + "web/query_of.hpp", I + "web/form_of.hpp", I + "web/state_of.hpp", I + "web/from_request.hpp", I + "web/handler.hpp", I + "web/detail/extract_query.hpp"],
     [("field by field conversion", I + "web/detail/extract_query.hpp"), ("argument after argument", I + "web/handler.hpp extract_arg")])
prop("X02", "Middlewares, scopes and states nest from the outside in",
     "A route runs the middlewares of its scopes, outermost first, then its own, each in the order added and around the next, then its handler; what each does to the request, the response or by throwing or answering itself affects exactly what is inside or outside of it, and the exception handler turns exceptions from inside into status 500 and logs their text; the logger passes everything on as it is and writes one line with the client, method, path, status and user agent for each response. "
     "A route is found under its method and the joined path of its scopes; of states of one type its own comes before those of inner and outer scopes. Adding anything to a route, or a route or middleware to a scope, leaves the one it was added to as before.",
     ["histories", "inputs", "faults"], "twelve arrangements of up to four middlewares, each doing one of seven things, in all combinations; all 64 placements of two state types over a route and two scopes with symbolic values; nested scopes through the router",
     "Tests run one arrangement where every middleware passes on.",
     [I + "web/route.hpp", I + "web/scope.hpp", I + "web/any_routable.hpp", I + "web/middleware/exception_handler.hpp", I + "web/middleware/logger.hpp", I + "web/state_storage.hpp"],
     [("tuples of middlewares folded around the handler", I + "web/route.hpp build"), ("rebinding to a parent", I + "web/route.hpp rebind_parent, web/scope.hpp serve")])
prop("J01", "JSON bodies reach handlers and clients exactly, or are refused",
     "A handler that takes a type from JSON runs exactly when the request's content type is application/json (ignoring case and parameters), the whole body is one JSON text and it converts to the type, and then gets the value of the body; otherwise the answer is 400, and a body of another content type is not even read. "
     "What is set as JSON on a response or request replaces the content type by application/json, keeps everything set before, and its body is a JSON text of known size which reads back as the same value, also through the test client.",
     ["inputs", "schedules", "faults"], "texts of the stated lengths and templates with symbolic bytes, bodies cut in pieces or failing, eight content types; values with symbolic texts and numbers",
     "Tests parse five texts and set one object.",
     [I + "web/json_of.hpp", I + "web/detail/as_json.hpp", I + "web/response.hpp", I + "web/request.hpp", I + "web/test_response.hpp"], [("argument from JSON", I + "web/json_of.hpp"), ("set_json", I + "web/response.hpp, web/request.hpp")])
prop("D01", "Deflate bodies decompress to exactly their content, or fail",
     "Reading a deflate-coded body gives exactly the content that was compressed, up to the last byte, however the compressed bytes are cut into pieces and however much a piece expands to. "
     "It always comes to an end, whatever the bytes: what is invalid or ends before the end of the compressed stream is an error and never a shortened body, and nothing after that end becomes content.",
     ["inputs", "schedules", "faults"], "streams of stored, fixed and dynamic blocks with symbolic content, cut at every place and byte by byte; every truncation; symbolic bytes after the end; pieces that fill the output buffer to the byte; any up to three bytes",
     "Tests decompress five fixed streams, whole or in pieces of one size.",
     [I + "web/middleware/detail/async_inflate_stream.hpp"], [("inflate loop", I + "web/middleware/detail/async_inflate_stream.hpp")])
prop("D02", "Content codings of a request are undone completely, or it is refused",
     "With the decompress middleware a handler reads the body with all content codings of the request undone, the last applied first, over one Content-Encoding field or several, names ignoring case (identity, deflate, gzip, br and brotli); the request has no Content-Encoding then and is otherwise as before. A request with an unknown coding gets 400 and does not reach the handler. "
     "Reading gzip and Brotli bodies gives exactly their content however cut and however far they expand, always ends, and fails on invalid or truncated data; errors of the body below pass through. What the Brotli encoder stream was given comes back complete.",
     ["inputs", "schedules", "faults"], "every list of the stated length of ten coding names with symbolic content; toy streams behind the interfaces of zlib and Brotli with literals, runs around the size of the output buffer, invalid parts and truncation, cut at every place",
     "Tests undo four combinations of codings on one text; truncated, trailing and buffer-filling data are not tried.",
     [I + "web/middleware/decompress.hpp", I + "web/middleware/detail/async_gzip_inflate_stream.hpp", I + "web/middleware/detail/gzip_stream.hpp", I + "web/middleware/detail/async_brotli_inflate_stream.hpp", I + "web/middleware/detail/async_brotli_deflate_stream.hpp"],
     [("list of codings", I + "web/middleware/decompress.hpp"), ("inflate loops", I + "web/middleware/detail/async_gzip_inflate_stream.hpp, async_brotli_inflate_stream.hpp")])
NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append((id, reason))
