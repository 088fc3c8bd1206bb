# Harness entries, parameters and bounds per property.
def E(entry, quick=(0,), thorough=None, **k):
    return dict(entry=entry, quick=list(quick), thorough=list(thorough if thorough is not None else quick), **k)


CHECKS = {}


def check(pid, src, entries, bounds, bounds_thorough=None, assumptions=(), **k):
    g = dict(src=src, entries=entries)
    for n in ("overlay", "flags", "bcflags", "libs"):
        if n in k:
            g[n] = k.pop(n)
    c = dict(groups=[g], bounds=bounds, assumptions=list(assumptions), **k)
    if bounds_thorough:
        c["bounds_thorough"] = bounds_thorough
    CHECKS[pid] = c


R = range

check("E01", "base64.cpp", [
    E("b64_roundtrip", [0, 1, 2, 3, 4, 5, 6, 7, 20, 103], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32, 49, 103, 104, 106], covers=["roundtrip"]),
    E("b64_encoder_reuse", [0, 1, 2, 3, 7], [0, 1, 2, 3, 4, 5, 6]),
    E("b64_decode_std", [0, 1, 2, 3, 4, 5, 6, 8], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], covers=["done", "error"]),
    E("b64_decode_url", [0, 1, 2, 3, 4, 5, 6], R(9)),
    E("b64_decode_u8", [0, 1, 2, 3, 4, 5, 6], R(9)),
], "round trip: all byte strings of 0..7 bytes and every split into writes; encoder reuse: two strings of 0..3 bytes; decoding: all texts of 0..6 and 8 bytes, three alphabet/character-type variants.",
   "round trip: 0..10 and 12 bytes; reuse: two strings of 0..6 bytes; decoding: all texts of 0..9 (standard) and 0..8 bytes.")
check("C01", "strings.cpp", [
    E("str_trim", [0, 1, 2, 3, 4, 6, 100, 101, 102, 103], [0, 1, 2, 3, 4, 5, 6, 8, 12, 100, 101, 102, 103], covers=["trim"]),
    E("str_split", [0, 10, 11, 12, 13, 14, 22, 23, 24, 100, 101, 102], [0, 10, 11, 12, 13, 14, 15, 22, 23, 24, 25, 33, 34, 100, 101, 102], covers=["split"])],
    "trim: all strings of 0..4 and 6 bytes, white space and a predicate; split: all strings of 0..4 bytes with all sets of 0..2 delimiters.",
    "trim: up to 12 bytes; split: up to 5 bytes with up to 3 delimiters.")
check("C02", "strings.cpp", [
    E("str_ci", [0, 1, 10, 11, 12, 21, 22, 33, 44, 34, 100, 101, 102], [0, 1, 10, 11, 12, 21, 22, 33, 44, 34, 55, 66, 100, 101, 102], covers=["ci"]),
    E("str_ci_trans", [0, 111, 222, 121, 212, 122], [0, 111, 222, 121, 212, 122, 333], covers=["trans"]),
    E("str_ci_lex", [11, 22, 33, 12, 32], [11, 22, 33, 12, 32, 44])],
    "all pairs of byte strings with lengths up to 4x4, all triples with lengths up to 2.", "pairs up to 6x6, triples up to 3.")
check("C03", "fromstr.cpp", [E("fs_" + t, [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6], covers=["ok"] + (["range"] if "8" in t else []))
                             for t in "i8 u8 i16 u16 i32 u32 i64 u64".split()] + [
    E("fs_ll", [0, 2, 3]), E("fs_ull", [0, 2, 3]),
    E("fs_limits", R(14)), E("fs_bool", R(7), covers=["bool"]), E("fs_str", [0, 1, 5, 20])],
    "integers: all byte strings of 0..5 bytes for the signed and unsigned types of 8 to 64 bits plus digit templates around every type's limits; boolean: all strings of 0..6 bytes; strings: lengths 0, 1, 5, 20.",
    "integers up to 6 bytes.", assumptions=["floating-point conversion is library code (std::from_chars) and is not encoded"])
check("C08", "fixedstr.cpp", [E("fx_concat", R(4), covers=["concat"])],
      "all contents of three strings with sizes (1,1,1), (1,3,2), (4,1,5), (7,8,3).")
check("C04", "expected.cpp",
      [E("ex_" + t, [1, 2], [1, 2, 3], covers=["machine"] + (["threw"] if "throws" in t else []))
       for t in "nothrow copy_throws value_throws error_throws emplace trivial triv_value triv_error triv_error2".split()] +
      [E(t, [1, 2], [1, 2, 3], covers=["machine"]) for t in "ev_nothrow ev_throws ev_trivial er_nothrow er_trivial er_throws".split()] +
      [E(t) for t in "ex_convert ex_convert_t er_combine ev_combine ex_combine".split()],
      "histories of 1 and 2 operations on two objects in every start state (and one conversion), element contents symbolic, a throw injected at any one element operation that may throw; value, void and reference results, trivial and non-trivial, nothrow and throwing element types.",
      "histories of up to 3 operations.")
check("C05", "expected.cpp", [E(t) for t in
      "ex_combine ex_combine_triv ex_convert ex_convert_t ev_combine ev_combine_triv er_combine er_combine_triv".split()],
      "one combinator or conversion applied to an object in either state with symbolic contents, each value category and constness.")
check("C06", "optional.cpp", [E("op_" + t, [1, 2], [1, 2, 3], covers=["machine"] + (["threw"] if "throws" in t else []))
      for t in "nothrow copy_throws throws trivial ref void".split()] +
      [E("op_" + t) for t in "convert combine ref_combine".split()],
      "histories of 1 and 2 operations on two objects in every start state, contents symbolic, injected throws; value, reference and void optionals.",
      "histories of up to 3 operations.")
check("C07", "optional.cpp", [E("op_" + t) for t in "combine combine_triv order order_triv order_partial ref_combine ref_combine_triv convert".split()],
      "one combinator, comparison or conversion applied to objects in either state with symbolic contents.")

check("H01", "headers.cpp", [
    E("hd_range", [i for i in R(28) if i not in (8, 9, 12, 14, 15, 16, 17, 18, 19, 20)] + [15], R(28), covers=["accept", "reject"], parts_thorough=4),
    E("hd_range_big", R(10), covers=["accept", "reject"])],
    "all texts of 4 bytes, all sets of 4 bytes after 'b=', templates with up to two items and 3-digit positions, blanks and separators symbolic; templates at the 64-bit limit with symbolic digits; every 64-bit representation length.",
    "all texts of up to 6 bytes, sets of up to 6 bytes, lists of up to three items.")
check("H02", "headers.cpp", [
    E("hd_etag", R(20), covers=["accept", "reject"]),
    E("hd_etag_build", [0, 100, 101, 102, 201, 202, 303, 404, 2020, 1617], covers=["build"])],
    "reading: all texts of 0..6 bytes and quoted/weak templates with 6 symbolic bytes; building: all pairs of values of 0..4 valid characters.")
check("H03", "headers.cpp", [E("hd_inm", R(27), covers=["accept", "reject", "any"])],
      "all texts of 0..5 bytes and 16 list templates of one to three tags with symbolic tag characters, separators and blanks.")
check("H04", "date.cpp", [
    E("dt_text", [0, 9, 12], [0, 4, 9, 11, 12, 22, 24], covers=["text"]), E("dt_floor", R(25), covers=["text"]), E("dt_clock", covers=["clock"])],
    "text: 25 days (month ends, leap days, century years, before and after 1970) x 7 seconds x every nanosecond of the second x 3 time zones, and every hour, minute and second of 3 days; conversion and order: every pair of 64-bit nanosecond times whose file-clock value fits 64 bits.",
    assumptions=["gmtime_r/localtime_r are modelled by a days-to-civil algorithm in rt/rt.cpp, one path per distinct second",
                 "date parsing is compiled only with GCC 14.1 or later and is not encoded"])
check("H05", "headers.cpp", [E("hd_version", covers=["known", "unknown"])], "every 32-bit number, every 8-bit enumeration value: complete.")
check("M01", "mime.cpp", [E("mm_parse", R(30), covers=["accept", "reject", "suffix", "param"])],
      "all texts of 0..5 bytes, 'a/b' followed by any 4 bytes, and templates with up to two suffixes and three parameters of symbolic characters.")
check("M02", "mime.cpp", [
    E("mm_name", [0, 1, 100, 101, 102, 202, 303, 304, 1717], [0, 1, 100, 101, 102, 202, 303, 304, 404, 505, 1717, 3333], covers=["name"]),
    E("mm_ext", [0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14], covers=["ext", "known"]),
    E("mm_predef", covers=["predef"])],
    "names: all pairs up to 3x4 bytes; extensions: all of 0..5 bytes, paths with any last 0..4 bytes; all 24x24 pairs of predefined types.",
    "names up to 5x5 bytes.")
check("M03", "mime.cpp", [E("mm_params", [1, 2, 3], [1, 2, 3, 4], covers=["params"]), E("mm_params_sym", [1, 2], [1, 2, 3], covers=["psym"])],
      "all histories of 1..3 operations (six kinds, six names in four classes up to case); insertion and lookup under three symbolic names of 1 and 2 bytes.",
      "histories of 4 operations; names of 3 bytes.")
check("L01", "log.cpp", [
    E("lg_level", R(9), covers=["level"]), E("lg_filter", covers=["filter"]), E("lg_env", [0, 1, 3, 4, 5, 6, 7, 9], covers=["set", "unset"])],
    "names: all strings of 0..8 bytes; thresholds and lists: all levels, lists of three; environment: unset and all values of 0,1,3..7 non-NUL bytes.",
    assumptions=["getenv returns the value set by the harness"])
check("L02", "log.cpp", [
    E("lg_newline", R(7), covers=["file"]), E("lg_default", [0, 1, 2], covers=["default"]),
    E("lg_pattern", R(5), covers=["pattern"]), E("lg_style", covers=["style"])],
    "message, file and function texts of 1..6 bytes with symbolic characters and literal braces, all levels, newline and file styles, five line/column numbers, the default and five other patterns, one time, three time zones; file names of 0..6 bytes.",
    assumptions=["one fixed record time: calendar formatting itself is fmt's"])
check("L03", "alog.cpp", [E("lo_deliver", [100, 101, 102, 103, 112, 113, 114, 201, 202], [100, 101, 102, 103, 104, 201, 202, 203, 111, 112, 113, 114, 122, 123, 124, 302], covers=["all", "some", "none"]), E("lo_global", covers=["written", "nothing"]), E("lo_file", [0, 1, 7], [0, 1, 2, 7, 19], covers=["file"])],
    "one writer and up to 3 records (4 with a buffer), two writers and 2 records, written at once or after a turn of the pool, with symbolic levels and text, buffers of 0 or 1 records, three filters; after each call the pool runs nothing, any one piece of its work or everything, the first four choices of the next piece symbolic; two calls to the default logger (seven functions) with a new logger, another filter or none; a file written whole or by 1 or 7 bytes, two loggers in turn.",
    "up to 3 writers, 4 records, buffers of up to 2, eight choices of the next piece.",
    assumptions=["a list of posted work run in any order, one piece at a time, stands in for Boost.Asio's thread pool; the channel, coroutines and futures are Boost.Asio's and the standard library's own; writers do not throw and are added before the first record; one thread logs; files in memory stand in for Boost.Asio's"],
    flags=["-DBOOST_ASIO_HAS_FILE=1"],
    overlay=["pool", "files", "beast", "asio", "url", "pfr"])
check("W01", "web.cpp", [
    E("wb_path", [i for i in R(28) if i not in (15, 18)], R(28), covers=["accept", "reject", "param"]),
    E("wb_path_wild", [i for i in R(28) if i not in (15, 19)], R(28), covers=["wild"]),
    E("wb_path_reuse", R(4))],
    "all patterns of 0..4 bytes and 17 templates (percent-encoding, up to three parameters, wildcard) with up to 4 symbolic bytes, both parser modes, a parser used before on one of five texts.",
    "all patterns of 5 bytes.")
check("W02", "web.cpp", [E("wb_state", [1, 2, 3], [1, 2, 3, 4], covers=["state"])],
      "all histories of 1..3 operations over up to 4 storages, two shared layers, three object types.", "4 operations.")
check("W03", "web.cpp", [E("wb_error", covers=["error"]), E("wb_brotli", covers=["brotli"])], "all pairs of errors, every 32-bit number: complete.")
check("C09", "dynbuf.cpp", [
    E("db_limit", [1, 2, 3, 12, 22, 32, 42], [1, 2, 3, 4, 12, 13, 23, 33, 42], covers=["append", "consume", "full"]),
    E("db_string", [1, 2, 12], [1, 2, 3, 12, 13], covers=["append", "consume"]),
    E("db_filled", [1, 2], [1, 2, 3], covers=["append", "consume"])],
    "histories of 1..3 operations (prepare+write+commit, consume, copy, move) with 8 sizes each, limits 0, 1, 3, 4, 5, 7 and none, contents symbolic, three container types.",
    "histories of up to 4 operations.")
check("H06", "hmap.cpp", [
    E("hm_map", [1, 2], [1, 2, 3], covers=["set", "insert", "map"], parts_thorough=4), E("hm_names", R(4), covers=["names"])],
    "histories of 1 and 2 operations (set, insert, erase, copy, move, clear, conversion; six names in four classes, by text and by field), value contents symbolic; pairs of names with a symbolic character (four templates).",
    "histories of 3 operations.", assumptions=["Boost.Beast 1.83 headers are executed as part of the code"])
check("W07", "maps.cpp", [E("pi_info", [0, 1, 2, 3, 10, 11, 12, 13], covers=["info"])],
      "all contents of 0..3 parameters with short and long names and values, both ways of building, copies, moves and comparisons.", overlay=["url"])
check("W08", "maps.cpp", [E("qm_map", [1, 2, 3], [1, 2, 3, 4], covers=["map", "set", "write"]),
                          E("qm_form", R(22), covers=["form"]), E("qm_from", R(22), covers=["from"])],
      "histories of 1..3 operations (seven kinds, three names, values with symbolic characters); 22 form and query templates with up to 3 symbolic characters (all texts of 0..3 bytes among them).",
      "histories of 4 operations.", overlay=["url"],
      assumptions=["Boost.URL is a compiled library: overlay/url stands in for it (agrees with the real library on 300000 random texts)"])
check("W05", "router.cpp", [E("pm_match", R(33), covers=["match"]), E("pm_sym", R(5), covers=["match", "rejected"])],
      "33 patterns (up to four parameters, wildcard, characters special to regular expressions) with path templates of up to 6 symbolic bytes; patterns with two symbolic characters.", overlay=["beast"])
check("W06", "router.cpp", [
    E("rt_find", [p * 10 + n for p in R(6) for n in (1, 2, 3)], [p * 10 + n for p in R(6) for n in (1, 2, 3, 4)], covers=["found", "none", "duplicate"]),
    E("rt_method", [1, 2, 3], [1, 2, 3, 4], covers=["found", "none", "duplicate"]),
    E("rt_table", R(17), covers=["found", "none", "duplicate"])],
    "every sequence of 1..3 insertions from six pools of six patterns, four path templates each with up to 4 symbolic bytes; every sequence of three insertions of three patterns and three methods; a table of 15 patterns and 17 path templates in four orders; with and without optimizing.",
    "sequences of 4 insertions.", overlay=["beast"])
check("B01", "body.cpp", [E("bd_eof", [0, 21, 22, 13, 41], [0, 21, 22, 23, 13, 14, 41, 42], covers=["read", "failed", "pieces"]), E("bd_vector", [0, 1, 2, 5, 20], covers=["vector"])],
      "bodies of 0..4 pieces with sizes 0..4 each (sum of sizes as stated by the parameters), contents symbolic, with and without a final error, eight ways of reading; in-memory bodies of 0..20 bytes, four ways of building and four of copying.", overlay=["beast"])
check("B02", "body.cpp", [E("bd_chunks", [0, 21, 22, 13], [0, 21, 22, 23, 13], covers=["written", "write error", "read error"]), E("bd_big", R(9))],
      "bodies of 0..3 pieces of 0..2 bytes, contents symbolic, with and without a final error; writes of all, 1 or 3 bytes at a time, failing after 0..11 or 30 bytes; nine piece sizes up to 4096.", overlay=["beast"])
check("D01", "decomp.cpp", [E("dc_valid", [0, 3, 10, 13, 20, 21, 30, 31, 22, 41, 50, 51, 54, 57], [0, 3, 5, 10, 13, 15, 20, 21, 22, 23, 30, 31, 32, 33, 41, 42, 50, 51, 54, 57, 59], covers=["valid"]), E("dc_any", [0, 1, 2, 3], covers=["any valid", "any invalid"]), E("dc_full", R(3), covers=["full"]), E("dc_cut", R(4), covers=["truncated", "trailing", "empty"])],
    "streams of stored (0, 3 bytes; one block or two), fixed (0..2 literals, one match of three lengths) and dynamic blocks (0..7 literals of one table), contents symbolic, whole, in two pieces at every place or byte by byte; every truncation of three streams and 1 or 2 symbolic bytes after two; pieces which decompress to 65535..65537 bytes; any 0..3 bytes (from 2 on: the first block not of fixed codes).",
    "up to 5 stored bytes, 3 literals, 2 literals before a match, 9 dynamic literals.", overlay=["beast"],
    assumptions=["the inflate implementation of Boost.Beast is executed as part of the code"])
check("D02", "decomp2.cpp", [E("dz_ops", R(3), R(4), covers=["valid", "bad", "failed"]), E("dz_cut", covers=["truncated", "trailing", "empty"]), E("dz_encode", R(2), covers=["back", "failed"]), E("dz_middleware", [0, 1, 2, 11, 12], [0, 1, 2, 3, 11, 12, 13], covers=["decoded", "unknown"])],
    "streams of up to two operations (symbolic literal, runs of 65535..65537 bytes, invalid, dictionary) in two pieces at every place or byte by byte, with and without an error below, typed and type-erased; every truncation, 1..3 symbolic bytes after the end; bodies of up to 80001 bytes through the Brotli encoder; up to two codings of ten names on one line or two.",
    "up to three operations, three codings.",
    overlay=["beast", "asio", "url", "pfr"], flags=["-fno-access-control", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI"],
    assumptions=["zlib and the Brotli library are stand-ins (harness/codec.h) which keep to their documented interfaces; their formats are outside"])
check("S01", "server.cpp", [
    E("sv_pair", R(29), covers=["reply", "cut", "continue"]),
    E("sv_cut", [0, 1, 3, 6, 9], R(11), covers=["header", "body"]),
    E("sv_wfail", [1, 2, 4, 8], R(9), covers=["fail"]),
    E("sv_limit", R(5), covers=["header limit", "header fits", "body limit", "body fits", "throw", "malformed", "malformed body"])],
    "two requests per connection: 29 kinds (bodies by length and in chunks, read, streamed or ignored; HEAD; no route; invalid target; Expect) x four connection forms x five continuations x three splits of reads and writes, one or two symbolic bytes of content; five kinds cut after every byte, four kinds of response failing after every byte, limits of header and body, eight malformed headers and three malformed bodies.",
    "eleven kinds cut after every byte, nine kinds of failing response.",
    overlay=["beast", "asio", "url", "pfr", "nows"],
    assumptions=["Boost.Beast and Boost.Asio headers are executed as part of the code; a queue of ready operations stands in for the I/O context and an in-memory connection for the socket",
                 "overlay/url stands in for Boost.URL, overlay/pfr for a newer Boost.PFR; WebSocket upgrade, TLS, timers and acceptors are outside"])
check("S02", "server.cpp", [E("sv_time", [0, 2, 6, 13, 17, 20, 22], R(29), covers=["limit", "no limit"])],
    "seven kinds of request (with and without body, read, streamed or ignored, failing, not found, Expect, HEAD) followed by four, keep-alive or closing, three splits of reads and writes, connection ended by the client or by its time limit; no time limit, the default and every limit of 1 to 2^62 ns.",
    "all 29 kinds of request.",
    overlay=["beast", "asio", "url", "pfr", "nows"],
    assumptions=["the connection of the harness records the limits it is given; that Boost.Beast's streams enforce them is outside, as are TLS handshakes (WebSockets: W09)"])
check("S03", "server.cpp", [E("sv_builder", R(3), covers=["built", "served"]), E("sv_exact", R(8), covers=["within", "over"])],
    "up to two settings of five, by lvalue or rvalue, any 32- or 64-bit value or none, three ways of adding routes, one twice; bodies of 0..5 symbolic bytes by length, in one chunk or in chunks of a byte under any 64-bit limit; a header under any 32-bit limit; ten lengths around 1 MB and headers around 8 KB by default, without a limit lengths up to 2^64 - 2 and headers of 9000 bytes; reads of any, 1 and 7 bytes.",
    overlay=["beast", "asio", "url", "pfr", "nows"],
    assumptions=["Boost.Beast and Boost.Asio headers are executed as part of the code", "that acceptors and TLS handshakes keep to the settings given to them is outside"])
check("W09", "socket.cpp", [
    E("wk_open", R(12), covers=["open", "invalid", "not asked"]), E("wk_other", covers=["closed", "goes on"]), E("wk_message", [0, 1], [0, 1, 10, 11], covers=["messages", "closed", "lost"]),
    E("wk_long", R(5), covers=["long"]), E("wk_end", covers=["code", "returned"]), E("wk_time", covers=["limits"])],
    "twelve kinds of opening (three with a choice of fields, one with a symbolic version) and six other targets followed by another request, two keys; one or two messages of up to two frames of 0..2 bytes (symbolic content and masks, texts of ASCII), a ping at one place, whole or in two parts, answered in four ways; messages of 124..127 and 300 bytes with symbolic ends; nine close codes or return after 0 or 1 messages; symbolic handshake and idle limits; reads and writes of any, 1 or 17 bytes.",
    "up to three frames per message.",
    overlay=["tstream", "beast", "asio", "url", "pfr"],
    assumptions=["Boost.Beast's WebSocket framing and Boost.Asio headers are executed as part of the code; in-memory connections and timers that never fire stand in for Boost's"])
check("T01", "roundtrip.cpp", [
    E("tc_target", R(12), covers=["target", "name", "value"]), E("tc_request", [0, 1, 5, 10, 11, 12, 13, 14, 21, 24], [a + b for b in (0, 10, 20) for a in range(7)], covers=["none", "sized", "chunked"]),
    E("tc_response", [0, 1, 10, 11, 20, 21], covers=["none", "sized", "chunked"]), E("tc_none", covers=["none"]), E("tc_long", R(8), covers=["sized", "chunked"]), E("tc_expect", [20, 21, 22], [20, 21, 22, 30, 31, 32], covers=["none", "sized", "chunked"]), E("tc_known", R(5))],
    "paths of four templates and parameter names and values with up to two symbolic characters (all 256); seven methods x two versions x three kinds of body (up to 3 symbolic bytes) x symbolic header value; seven statuses x three kinds of body x two versions x GET/HEAD, a failing body; bodies of 65535, 65536, 65537 and 131072 bytes with symbolic bytes at the edges; 100 (Continue) with bodies read or not and up to 2 steps overtaken.",
    "all methods with all kinds of body; up to 3 steps overtaken.",
    overlay=["tstream", "beast", "asio", "url", "pfr", "nows"],
    assumptions=["paths begin with one '/'; an in-memory connection stands in for Boost.Beast's test stream; HTTP/1.0 requests are not streamed"])
check("F01", "files.cpp", [
    E("fl_range", R(15), covers=["part", "refused"]), E("fl_unit", R(5)), E("fl_cond", R(7), covers=["not modified", "bad", "full"]), E("fl_etag", covers=["same", "other"]),
    E("fl_bytes", [0, 1, 2, 3, 4, 5, 6, 7, 9, 11], R(12), covers=["failing"]), E("fl_name", R(12), covers=["name"]), E("fl_missing", covers=["missing"]), E("fl_save", [0, 1, 2], R(4), covers=["saved", "not saved", "written"]), E("fl_keep", R(3), covers=["saved"])],
    "ranges of fifteen templates with up to 3 digits (all values) over files of 0, 1, 5, 9, 12, 30 and 300 bytes with symbolic ends, read whole or 2 bytes at a time; five templates of other texts with a symbolic character; seven kinds of If-None-Match with and without a range, one with a symbolic character at each place of the tag; ETags of two files (4 sizes, 4 seconds, every nanosecond); files of 0, 1, 65535, 65536, 65537 and 131073 bytes, whole or failing; names of four templates with up to 2 symbolic characters; bodies of 0..2 pieces saved, either side failing.",
    "all sizes failing; bodies of 3 pieces.",
    overlay=["files", "tstream", "beast", "asio", "url", "pfr", "nows"], flags=["-DBOOST_ASIO_HAS_FILE=1"],
    assumptions=["files in memory stand in for Boost.Asio's stream files (compiled for io_uring or Windows only) and std::filesystem; files do not change while they are read", "If-Modified-Since is compiled with std::chrono::parse only (GCC 14)"])
check("R01", "message.cpp", [
    E("ms_response", [0, 1, 12], [0, 1, 2, 12], covers=["built", "rebuilt"]), E("ms_request", [0, 1], [0, 1, 2], covers=["built", "rebuilt"]),
    E("ms_test_request", [0, 1], [0, 1, 2], covers=["built", "rebuilt"]), E("ms_status", covers=["status"]), E("ms_code"), E("ms_to_response", covers=["converted"])],
    "histories of 0..2 operations (status of 16 bits, version, set/insert by four spellings or by field, method, query), then six kinds of body with symbolic bytes, then optionally one more operation and another body; 61 named statuses; every 32-bit status number; ten kinds of handler result.",
    "histories of 2 operations with rebuilding.", overlay=["beast", "url", "pfr", "nows"], flags=["-fno-access-control"])
check("X01", "extract.cpp", [
    E("ex_path", covers=["taken", "refused"]), E("ex_tuple", covers=["taken", "refused"]), E("ex_tuple_n", [3, 4], covers=["taken", "refused"]), E("ex_query", covers=["taken", "refused"]), E("ex_form", R(6), covers=["taken", "refused"]),
    E("ex_types", R(7), covers=["types"]), E("ex_plain", [0, 21, 22], covers=["plain"]), E("ex_order", covers=["all", "some"])],
    "requests with 0..3 parameters of four names, values of eight templates with up to 3 symbolic bytes, by structure, tuple, query and form; forms under six content types, malformed, cut in two and failing; number and truth-value fields of up to 5 bytes; bodies of 0..2 pieces; 16 combinations of failing arguments with symbolic digits.",
    overlay=["beast", "url", "pfr", "nows"], flags=["-fno-access-control"])
check("X02", "compose.cpp", [E("cp_chain", R(12), covers=["thrown", "answered"]), E("cp_states", covers=["states"]), E("cp_paths", covers=["paths"])],
    "twelve arrangements of up to four middlewares x seven actions each, four types of exception; 64 placements of two types of state, values symbolic; eleven routes in nested scopes and 14 lookups.",
    overlay=["pool", "beast", "url", "pfr", "nows"], flags=["-fno-access-control"])
check("J01", "json.cpp", [E("js_text", R(18), R(19), covers=["json", "not json"]), E("js_of", list(R(8)) + [100, 101, 102, 103, 104, 105, 106, 107], covers=["taken", "refused"]), E("js_set", R(6), covers=["set"])],
    "acceptance: all texts of 0..3 bytes and 14 templates with up to 2 symbolic bytes; argument: eight bodies with up to 2 symbolic bytes, whole or cut in two places, with and without an error of the body, eight content types; set and read back: six values with a symbolic character in a text and every 8-bit number (also times 2^56), response, request and test request.",
    "all texts of 4 bytes.",
    overlay=["beast", "url"], flags=["-fno-access-control"], bcflags=["-U__SSE2__"],
    assumptions=["Boost.JSON is compiled from its sources (without SIMD) and executed as part of the code; floating-point numbers are outside"])
