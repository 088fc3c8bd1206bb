# per property: what is executed and against what it is compared (for DESIGN.md)
O = {
"C01": "Executed: trim, ltrim/rtrim, split, split_of. Oracle: a two-sided definition (the result is a subrange of the input, what is cut satisfies the predicate, the ends that stay do not); split by a scan over every position.",
"C02": "Executed: cmp_eq_ci, cmp_lt_ci, ci_hash and containers using them. Oracle: comparison of lower-cased texts, computed without branches; totality, antisymmetry, transitivity as assertions over triples; equal texts hash alike.",
"C03": "Executed: from_string for all integer types, bool, strings. Oracle: a decimal reader in 128-bit arithmetic: accepted exactly when sign and digits cover the whole text and the value fits the type.",
"C04": "Executed: expected<T,E>, expected<void,E>, expected<T&,E> with element types that count lives and throw on command. Oracle: a model of (alternative, content) per object; every element has a registered address with construct/destroy states (`tracked.h`), so that double destruction, use of a dead element, leaks and a wrong state after a throw are assertions.",
"C05": "Executed: and_then, or_else, transform, transform_error, value, error, value_or, error_or, map_or, comparison and converting constructors in all four reference/const categories. Oracle: direct definition; call counts and contents of arguments.",
"C06": "As C04 for optional<T>, optional<T&>, optional<void>.",
"C07": "As C05 for optional; three-way comparison against the order with the empty optional first, for totally and partially ordered contents.",
"C08": "Executed: fixed_string construction, concatenation, conversion. Oracle: characters copied by hand.",
"C09": "Executed: dynamic_buffer over string and vectors of char/byte. Oracle: a FIFO queue with a limit. Memory given out by prepare is written in full, so that giving out memory outside of the container is an error of memory.",
"E01": "Executed: encoder (in pieces), decoder. Oracle: RFC 4648 as branch-free formulas on 6-bit groups; decoding accepts exactly the canonical texts of the alphabet and padding in use, and its result encodes back to the text.",
"H01": "Executed: header::range::parse and to_range. Oracle: RFC 9110 14.1.1 grammar; each item of the result lies inside of the representation and equals what the text says in 128-bit arithmetic; unsatisfiable and wrapped positions are refused.",
"H02": "Executed: entity_tag::parse/make/to_string, weak and strong comparison. Oracle: RFC 9110 8.8.3 grammar and comparison table.",
"H03": "Executed: if_none_match::parse. Oracle: a reader of the list grammar that knows about quotes; '*' stands alone.",
"H04": "Executed: last_modified/date formatting (fmt's chrono code included) and clock conversions. Oracle: civil-from-days arithmetic and floor to seconds; losslessness and order of conversion by bit-vector arithmetic in z3.",
"H05": "Executed: http::version names and numbers. Oracle: table; complete over all 32-bit numbers.",
"H06": "Executed: header_map over Beast's fields. Oracle: list of (lower-cased name, value) pairs with Beast's rule for equal names; lookups, counts, iteration, copies and moves compared after each operation.",
"M01": "Executed: mime_view::parse. Oracle: grammar reader giving type, subtype, suffix and parameters as offsets; what is not in the grammar is refused.",
"M02": "Executed: name_view comparison with names and text, hashing, from-extension tables. Oracle: lower-cased comparison; a table of extensions written from the documentation of the types.",
"M03": "Executed: params_view. Oracle: association list keyed by lower-cased name.",
"L01": "Executed: level names, filter, FITORIA_LOG environment. Oracle: table of names; threshold order.",
"L02": "Executed: the formatter with fmt's code. Oracle: each pattern field formatted by hand.",
"L03": "Executed: the logger, its channel and coroutines, std::future, the registry, the file writer and formatter, over a pool whose next piece of work is a choice. Oracle: the list of calls that the filter of the configuration allows, compared with what each writer saw when the logger is gone; waiting with nothing left to run is a failure; the file is the concatenation of the lines.",
"W01": "Executed: path_parser. Oracle: grammar reader (percent-encoding validated, names unique, wildcard last), tokens concatenated give the pattern back; result independent of what the parser read before.",
"W02": "Executed: state_storage. Oracle: list of layers of type-to-value maps; copies must not see later insertions.",
"W03": "Executed: error categories and make_error_code for fitoria's errors and Brotli's. Oracle: equality of errors iff same number; messages not empty and distinct.",
"W05": "Executed: path_matcher. Oracle: direct recursive matcher over segments and parameters on the pattern's text.",
"W06": "Executed: router insertion, lookup, optimize. Oracle: the set of matching patterns by W05's oracle; the best is the one whose first difference is literal over parameter over wildcard; inserting a pattern of the same shape is refused; the result is the same for every order of insertion.",
"W07": "Executed: path_info. Oracle: list of pairs.",
"W08": "Executed: query_map, its parsing from queries and forms. Oracle: association list; percent and plus decoding by hand.",
"B01": "Executed: async_read_until_eof, vector streams, any_async_readable_stream, any_body with a scripted stream. Oracle: concatenation of the pieces; reads are counted.",
"B02": "Executed: async_write_chunks. Oracle: a strict reader of chunked coding on the bytes written; on failure the last chunk must not be there.",
"S01": "Executed: http_server::do_session with Beast's parser and serializer, router, handlers, extractors, response conversion. Oracle: a list of wanted replies, a strict HTTP/1.1 reader on the bytes written, and the calls the handlers recorded; cuts of the transport, failing writes and truncation enumerated.",
"S02": "As S01 with a connection that records each limit it is given and every use without the limit wanted.",
"S03": "Executed: http_server::builder with any settings, the session of S01 under limits with symbolic values. Oracle: the setting last given per kind, comparison of sizes by hand; whether the request line counts towards the limit of headers is left open.",
"W09": "Executed: http_server::do_session, websocket and Boost.Beast's handshake and framing over a stand-in for Beast's test stream (`overlay/tstream`; timers there never fire). Oracle: validity of the opening by its fields, accept values computed outside, a writer and a strict reader of frames; the list of messages the callback recorded.",
"F01": "Executed: static_file, async_readable_file_stream, async_read_into_stream_file, test_response::as_file within the server and client of T01, over files in memory (`overlay/files`). Oracle: the range by RFC 7233 computed with 128 bits, the bytes of the file, the tag of the file as first reported, the name read back from its quoted string.",
"T01": "Executed: http_server::serve_request, do_http_request with Boost.Beast's parsers and serializers and the session of the server, over a stand-in for Beast's test stream. Oracle: what handler and response handler recorded against what the request and the response were built with. The executor of the harness lets up to two (thorough: three) ready steps be overtaken.",
"R01": "Executed: response and request builders, test_request, to_response, status table. Oracle: model of the message updated per call.",
"X01": "Executed: extraction for path_of, query_of, form_of, state_of, text, bytes, parts of the request; handler. Oracle: direct definition per argument; order of failure.",
"X02": "Executed: route, scope, any_routable, exception_handler, the logger middleware (with the asynchronous logger of L03) and the server's routing. Oracle: trace of events computed from the list of middlewares; values of states by layers.",
"J01": "Executed: json_of, as_json, set_json, test_response::as_json with Boost.JSON compiled from its sources. Oracle: an acceptor written from RFC 8259 (UTF-8 included); field values read off the templates; reading back what was set.",
"D01": "Executed: async_inflate_stream with Beast's inflate. Oracle: a DEFLATE writer (`bits.h`) builds the stream from known content; acceptance of arbitrary bytes compared with a reader written from RFC 1951.",
"D02": "Executed: decompress middleware, gzip_stream, Brotli streams against the stand-ins of `codec.h`. Oracle: content put in; end and errors by contract.",
}
