"""What each property's check explores, and within which bounds."""
from vjob import Job, Prop

COMMON_ASSUMPTIONS = [
    "the code is encoded as clang 18 compiles it for x86-64 with libstdc++ 13 at -O1 without vectorisation: loads whose result is never used may be absent from the encoding",
    "the executor of engine/, LLVM and z3 are trusted; sampled paths are re-run on the natively compiled sources (address and undefined behaviour sanitizers on) and must give the same observations",
    "allocations succeed; a single thread runs, as the library has no threads of its own; the clock is constant and std::cout writes nothing",
    "the formatting of the time in log lines is left out of the encoding; hex dumps are executed under C33, C29 and C12 only",
]
NETWORK = "the network is harness/symnet.hpp: a read completes with any piece of what arrived, a write accepts any part, completions and faults come in any order within the bounds; one operation of each kind per socket"
FILES = "the native file system is the model in sym/ (regular files and directories, no symbolic links, no failing disk)"

ENC = "h_encodings.cpp"
PROPS = {
    "C09": Prop([Job(ENC, "h_base64", "every byte string of 0 to n bytes", {"n": 9}, [{"nmin": 10, "n": 16}], [{"nmin": 17, "n": 40}], tags=["whole", "padded"]),
                 Job(ENC, "h_base64_long", "byte strings and texts of 27 sizes from 41 to 65537 bytes, three bytes at the start, in the middle and at the end symbolic", tags=["long"]),
                 Job(ENC, "h_base64_network", "every list of 0 to n 16, 32 or 64-bit integers", {"n": 5}, [{"n": 6}], tags=["u16", "u32", "u64"])]),
    "C10": Prop([Job(ENC, "h_uri_roundtrip", "every text of 0 to n bytes, all byte values", {"n": 4}, [{"nmin": 5, "n": 5}], [{"nmin": 6, "n": 7}]),
                 Job(ENC, "h_uri_decode", "every text of 0 to n bytes, malformed escapes included", {"n": 6}, [{"nmin": 7, "n": 7}], [{"nmin": 8, "n": 9}]),
                 Job(ENC, "h_uri_long", "encoding and decoding texts of 16 sizes from 14 to 4100 bytes made of each of 10 kinds of characters and escapes, with any two bytes at the start, in the middle or at the end", tags=["long"])]),
    "C11": Prop([Job(ENC, "h_uri_parts", "every URI with any subset of the optional parts, parts of 0 or 1 to len bytes", {"len": 3}, [{"len": 4}], tags=["full", "minimal"]),
                 Job(ENC, "h_uri_parts_long", "any one part, or all, of 10 lengths from 7 to 1002 bytes, their first and last byte symbolic", tags=["long"]),
                 Job(ENC, "h_uri_any", "every text of 0 to n bytes, split before another URI", {"n": 6}, [{"n": 7}], [{"n": 8}])]),
    "C08": Prop([Job(ENC, "h_sha1", "every message of nmin to n bytes, whatever its content", {"n": 260}, [{"nmin": 261, "n": 700}], [{"nmin": 701, "n": 1100}]),
                 Job(ENC, "h_sha1_long", "messages of 20 sizes from 319 to 300000 bytes, the last two bytes symbolic", {}, [{"min": 17, "max": 19}], tags=["long"], steps=400000000),
                 Job(ENC, "h_sha1_string", "every message of n bytes", {"n": 3}, [{"n": 60}])]),
    "C07": Prop([Job(ENC, "h_accept_key", "every client key of nmin to n bytes", {"nmin": 20, "n": 28}, [{"nmin": 29, "n": 100}], [{"nmin": 0, "n": 19}])]),
}
FRM = "h_frame.cpp"
PROPS["C12"] = Prop([Job(FRM, "h_frame_text", "text frames of 0 to max bytes, every content", {"max": 40}, [], [{"max": 130}]), Job(FRM, "h_frame_borders", "text and binary frames, whole or from two pieces, of 17 sizes around each border of the length forms up to 70000", tags=["64-bit length", "16-bit length"]),
                     Job(FRM, "h_frame_any_size", "every size from 0 to 70000 as one symbolic value", tags=["16", "64"]), Job(FRM, "h_header_sizes", "headers for every size below 2^63, set once or twice"),
                     Job(FRM, "h_frame_grow", "frames to which up to `adds` buffers of 9 sizes are added, moved or not in between", {"adds": 2}, [{"adds": 3}], tags=["extended", "extended 64"]),
                     Job(FRM, "h_frame_grow", "the same with buffers of 0 to 3 bytes and debug logging, hex dumps included", {"adds": 2, "small": 1, "log": 4}, defs=("-DVF_STREAMS",))])
PROPS["C13"] = Prop([Job(FRM, "h_decode_small", "every first byte, mask and content of frames of 0 to n bytes, cut at up to `cuts` places, followed by another frame", {"n": 6, "cuts": 3}, [{"n": 8, "cuts": 3}], tags=["4 pieces", "empty payload"]),
                     Job(FRM, "h_decode_medium", "six sizes of the 16-bit length form, every mask, cut inside the header and near the end", tags=["16-bit"]), Job(FRM, "h_decode_length", "every value of every length form, with 0 to n bytes of content, whole or cut at 4 places", {"n": 3}, [{"n": 8}], tags=["short form", "16-bit form", "64-bit form", "waiting"]), Job(FRM, "h_decode_large", "three sizes of the 64-bit length form, every mask, cut anywhere in the first 18 bytes and at two other places", tags=["64-bit"])])
WS = "h_ws.cpp"
PROPS["C14"] = Prop([Job(WS, "h_ws_stream", "1 to `frames` text or binary messages of 0, 1 or 5 bytes, every mask and content, cut at up to `cuts` places", {"frames": 2, "cuts": 3}, [{"frames": 3, "cuts": 2}], [{"frames": 3, "cuts": 3}], tags=["frames and cuts"]),
                     Job(WS, "h_ws_big", "messages of eleven sizes around the reception buffer and the length forms and of 140000 bytes, followed by another one", tags=["big"]),
                     Job(WS, "h_ws_fragments_many", "two messages of 300 fragments, or of up to 200000 bytes in fragments, with pings and pongs", tags=["many fragments"]),
                     Job(WS, "h_ws_two", "two connections receiving a message each, in `turns` pieces in any order", {"turns": 3}, [{"turns": 4}], [{"turns": 5}], tags=["two"]),
                     Job(WS, "h_ws_many", "`messages` messages of changing kinds and sizes, cut every `step` bytes", {"messages": 16}, [{"messages": 60}], tags=["many messages"]),
                     Job(WS, "h_ws_fragments", "1 to `messages` messages of 1 to `parts` fragments of 0 or 1 byte (after `big` more in the first one), every mask and content, pings and pongs in between, cut at up to `cuts` places", {"messages": 1, "cuts": 2}, [{}], [{"messages": 2, "cuts": 2}], tags=["three fragments", "control"]),
                     Job(WS, "h_ws_fragments", "the same with two parts, two messages", {"parts": 2}),
                     Job(WS, "h_ws_fragments", "the same, after a continuation frame which continues nothing", {"messages": 1, "stray": 1, "parts": 2}),
                     Job(WS, "h_ws_fragments", "the same with a first fragment of over 125 bytes", {"messages": 1, "parts": 2, "big": 130, "control": 0}, [{"big": 9000, "messages": 1, "parts": 2, "control": 0, "n": 0}])], [NETWORK])
PROPS["C15"] = Prop([Job(WS, "h_ws_hostile", "every stream of 1 to n bytes in 1 or 2 pieces; more than 128 KiB of memory asked for at once is a violation", {"n": 7}, [{"n": 8}], tags=["closed", "several messages", "waiting"]),
                     Job(WS, "h_ws_hostile", "every stream of nmin to n bytes announcing lengths of 64 bits, in 1 to 3 pieces", {"nmin": 10, "n": 16, "long": 2, "pieces": 3}), Job(WS, "h_ws_hostile", "every stream of nmin to n bytes announcing lengths of 16 bits, in 1 to 3 pieces", {"nmin": 10, "n": 16, "long": 1, "pieces": 3})], [NETWORK])
PROPS["C16"] = Prop([Job(WS, "h_ws_lifecycle", "every sequence of `steps` moves among: text, binary or close frame (alone or with a message right behind), read error, write, write error, stop, network progress; with or without handlers, stopping from inside of a handler or destroying it there", {"steps": 4}, [{"steps": 5}], [{"steps": 6}], tags=["close frame", "read error", "write error", "stop", "destroyed"])], [NETWORK])
PROPS["C17"] = Prop([Job(WS, "h_ws_writes", "1 to `writes` writes of text, bytes, two buffers or frames of 0, 3 or 126 bytes, every content, whose memory is overwritten at once, with the network accepting whole or 2-byte parts in between", {"writes": 2}, [{"writes": 3}], tags=["write in progress while writing"]), Job(WS, "h_ws_burst", "`writes` writes of 4 mixes of kinds, parts of 1 to 5 bytes sent after every, every second, third or fourth write or at the end only", {"writes": 300}, [{"writes": 1100}], tags=["burst"])], [NETWORK])
HT = "h_http.cpp"
STARTS = "13 request beginnings which lead into each part of the grammar, followed by every text of n bytes"
PROPS["C01"] = Prop([Job(HT, "h_request_cut", STARTS + ", cut anywhere with half of another request parsed in between", {"n": 3}, [{"n": 4}], [{"n": 5}, {"n": 6}], tags=["complete", "other completed"]),
                     Job(HT, "h_server_interleaved", "two clients with 7 requests each, their bytes arriving in `turns` pieces in any order", {"turns": 3}, [{"turns": 4, "second": 2}], [{"turns": 4}], tags=[]),
                     Job(HT, "h_server_interleaved", "the same, handlers running some time after their buffers were filled", {"turns": 4, "late": 1, "second": 1}, [{"turns": 5, "late": 1, "second": 2}]),
                     Job(HT, "h_server_interleaved", "the same with logging enabled", {"turns": 1, "log": 4}),
                     Job(HT, "h_server_many", "`connections` connections one after the other, 5 or all at a time, each pair of 9 requests in turns", {"connections": 20}, [{"connections": 60}], tags=["many"]),
                     Job(HT, "h_server_long", "requests of 18 lengths from 4000 to 20002 bytes, in three piece sizes, with one long or many headers")], [NETWORK])
PROPS["C02"] = Prop([Job(HT, "h_request_any", STARTS, {"n": 5}, [{"n": 6}, {"n": 7}], [{"n": 9}, {"n": 12}], tags=["complete", "bad", "incomplete"]),
                     Job(HT, "h_request_wellformed", "requests with 13 methods, every target of 0 to n bytes, 36 versions, up to `headers` headers with names of 1 or 2 and values of 0 to 2 bytes", {"n": 1, "headers": 1}, [{"n": 2, "headers": 2}], [{"n": 4, "headers": 2}]),
                     Job(HT, "h_request_long", "requests with one long part (method, target, header name, header value, number of headers, continuations) of 8 sizes up to 70001, with a symbolic byte", tags=["complete"]),
                     Job(HT, "h_server_any", STARTS + ", given to a server", {"n": 3, "log": 4}, [{"n": 5}], [{"n": 7}], tags=["complete", "bad"])], [NETWORK])
PROPS["C03"] = Prop([Job(HT, "h_path", "GET, HEAD and POST of 11 target beginnings followed by every text of n bytes", {"n": 3, "log": 4}, [{"n": 4}], [{"n": 5}, {"n": 6}], tags=["opened", "refused"]),
                     Job(HT, "h_path_native", "GET of 6 target beginnings followed by every text of n bytes, on a tree with a file outside of the root", {"n": 3}, [{"n": 4}], [{"n": 5}, {"n": 6}], tags=["served"])], [FILES])
PROPS["C04"] = Prop([Job(HT, "h_handler_file", "GET and HEAD of 11 targets, 11 file sizes with symbolic bytes, 3 stored encodings, 6 accepted encodings, existing or not", tags=["get", "head", "refused encoding"]),
                     Job(HT, "h_handler_method", "12 methods and every 3-byte method", {"log": 4}, tags=["501"]),
                     Job(HT, "h_handler_upgrade", "upgrade requests in 9 shapes with any letter case at 5 places", tags=["101", "200"]), Job(HT, "h_handler_upgrade_key", "27 keys")])
PROPS["C05"] = Prop([Job(HT, "h_response", "two responses prepared in turn, 6 statuses, up to 2 headers and contents of 0 to 2 bytes"), Job(HT, "h_status_response", "every status"),
                     Job(HT, "h_server_writes", "2 or 3 clients with 7 requests, `steps` partial writes of 5 sizes in any order", {}, [{"steps": 4}], [{"clients": 3, "steps": 4}])], [NETWORK])
PROPS["C06"] = Prop([Job(HT, "h_lifecycle", "`clients` connections, every sequence of `steps` moves among: upgrade, get, malformed or partial request, read error, write error, partial or whole write, throwing shutdown; a failed accept", {"steps": 3}, [{"steps": 4}], [{"steps": 5}], tags=["upgraded", "read error", "write error"]),
                     Job(HT, "h_lifecycle", "the same for one connection", {"steps": 5, "clients": 1}, [{"steps": 6, "clients": 1}], [{"steps": 7, "clients": 1}]),
                     Job(HT, "h_lifecycle", "the same without an upgrade handler", {"steps": 3, "nohandler": 1})], [NETWORK])
PROPS["C27"] = Prop([Job(HT, "h_mime", "every extension of 0 to n bytes", {"n": 5}, [{"n": 7}], [{"n": 9}], tags=["known"]), Job(HT, "h_mime_types", "every type"), Job(HT, "h_mime_names", "22 endings after every stem of 0 to n bytes, served by a request", {"n": 2}, [{"n": 3}]),
                     Job(HT, "h_mime_names", "the same with one of 18 other extensions before", {"n": 1, "two": 1})])
PROPS["C28"] = Prop([Job(HT, "h_headers", "0 to `headers` headers with names of 1 to n bytes and values of 0 to 2 bytes, every name asked for", {"n": 1, "headers": 2}, [{"n": 2, "headers": 1}, {"n": 2}], [{"n": 2, "headers": 3}], tags=["found"]),
                     Job(HT, "h_headers_many", "`headers` headers, each with one of four names, symbolic bytes in values and in the text looked for, one value of over 200 bytes", {"headers": 3}, [], [{"headers": 4}], tags=["several"])])
MS = "h_msg.cpp"
PROPS["C18"] = Prop([Job(MS, "h_roundtrip", "10 types: every value of booleans, 8 to 32-bit numbers and doubles other than NaN, integers up to 2^53, texts of 14 sizes up to 65535 with symbolic bytes"), Job(MS, "h_roundtrip_tuple", "tuples of five types, nested"),
                     Job(MS, "h_from_browser", "7 values as a browser encodes them, texts of 14 sizes"), Job(MS, "h_numbers", "every double into 7 integer types", tags=["accepted", "refused"])])
PROPS["C19"] = Prop([Job(MS, "h_js_calls", "1 to `calls` calls on one object in 8 argument shapes, every argument value, texts of 0 to 2 bytes, names of 0 to 2 or 300 bytes", {"calls": 2}, [{"calls": 3}], tags=["called again"]), Job(MS, "h_js_long_texts", "two texts of 14 sizes each up to 65535"),
                     Job(MS, "h_js_too_long", "texts of 6 sizes beyond 65535"), Job(MS, "h_js_many", "9 numbers of arguments up to 300", tags=["sent"]),
                     Job(MS, "h_js_fill", "every fill of a message's memory around its end, by numbers, booleans and a last value of four kinds", tags=["sent", "refused"]),
                     Job(MS, "h_js_repeat", "up to 142 calls on one object"), Job(MS, "h_js_tuples", "4 shapes of tuples"), Job(MS, "h_exceptions", "texts of 28 sizes")])
PROPS["C20"] = Prop([Job(MS, "h_decode_any", "every parameter text of 0 to n bytes decoded into 10 types", {"n": 14}, [{"n": 24}], [{"n": 32}, {"n": 40}], tags=["decoded", "refused"]), Job(MS, "h_header_any", "every message of 0 to 12 bytes", tags=["call", "refused", "named", "unnamed"]), Job(MS, "h_numbers", "every double into 7 integer types")])
PROPS["C32"] = Prop([Job(MS, "h_text_command", "script and log texts of 14 sizes up to 65535 with symbolic bytes"), Job(MS, "h_text_command_long", "5 sizes beyond 65535"), Job(MS, "h_simple_commands", "acknowledgement, handshake, call and return headers, every count and size")])
LK = "h_link.cpp"
PROPS["C21"] = Prop([Job(LK, "h_link_messages", "one message, with logging enabled", {"messages": 1, "log": 4}),
                     Job(LK, "h_link_messages", "1 to `messages` messages among: handshake, call (accepted, unknown, failing), call cut anywhere, call announcing any size, other commands, plain text; then one of four ends", {"messages": 2}, [], [{"messages": 3}], tags=["handshake", "call", "unknown", "ignored", "closed", "destroyed"]),
                     Job(LK, "h_link_any", "every message of 0 to n bytes, before or after a handshake", {"n": 12}, [{"n": 16}], [{"n": 20}], tags=["handshake", "call", "unknown", "ignored"]), Job(LK, "h_link_any", "the same with every mask", {"n": 10, "mask": 1}),
                     Job(LK, "h_link_many", "`messages` messages in turns of two among 6 kinds; then one of four ends", {"messages": 24}, [{"messages": 100}], tags=["many"]),
                     Job(LK, "h_link_large", "names of 6 and parameters of 9 sizes", {"log": 3}), Job(LK, "h_link_cut", "handshake and call cut at any place"), Job(LK, "h_link_logs", "log texts of 10 sizes up to 131072 with two links", tags=["logged"])], [NETWORK])
PROPS["C22"] = Prop([Job(LK, "h_session", "every sequence of `steps` moves of `clients` browsers among: upgrade, page, fault, handshake, C++ call with every argument value, 5 wrong calls, JavaScript calls and scripts, 4 ends; then the application ends", {"steps": 3}, [{"steps": 4}], [{"steps": 5}], tags=["called C++", "called js", "wrong call", "ended"]),
                     Job(LK, "h_session", "two browsers, with logging enabled", {"steps": 2, "clients": 2, "log": 4}),
                     Job(LK, "h_session", "`linked` of the browsers already linked", {"steps": 2, "clients": 2, "linked": 2}, [{"steps": 3, "clients": 2, "linked": 1}], [{"steps": 3, "clients": 2, "linked": 2}, {"steps": 3, "clients": 3, "linked": 2}]),
                     Job(LK, "h_session", "without an application handler", {"steps": 3, "nohandler": 1}, tags=["no handler"]), Job(LK, "h_session", "every mask", {"steps": 1, "mask": 1}),
                     Job(LK, "h_session_many", "`sessions` sessions of which 1 to 4 stay, the oldest, newest or middle one leaving", {"sessions": 10}, [{"sessions": 30}], tags=["many sessions"]),
                     Job(LK, "h_session_writes", "`steps` calls to two browsers and partial writes in any order", {"steps": 4}, [{"steps": 6}], [{"steps": 7}])], [NETWORK])
FS = "h_fs.cpp"
PROPS["C23"] = Prop([Job(FS, "h_read_static", "embedded files of 0 to n (17) bytes, every content, read through 1 to `sizes` buffer sizes of 0 to 10 bytes, moved or not", {"sizes": 2}, [{"sizes": 3}], [{"sizes": 3, "n": 25, "buffer": 12}], tags=["several words"]),
                     Job(FS, "h_read_native", "native files of 0 to n (10) bytes, buffers of 0 to 6 bytes", {"sizes": 2}, [{"sizes": 3}], [{"sizes": 3, "n": 20, "buffer": 9}]),
                     Job(FS, "h_read_large", "9 file sizes up to 20000 by 7 by 7 buffer sizes"), Job(FS, "h_read_two", "two files read in turns, 5 reads in any order")], [FILES])
PROPS["C24"] = Prop([Job(FS, "h_embedded", "every embedded file, whole, against recorded digests"), Job(FS, "h_embedded_names", "every name of 0 to n bytes, and every name which differs from an embedded one by one byte more, less or other", {"n": 7}, [{"n": 12}], [{"n": 16}], tags=["found", "absent"])],
                    ["the digests in harness/assets.inc were recorded from the pinned tree: that the embedded content is the right one is not decided, only that it is served whole and that it has not changed"])
PROPS["C25"] = Prop([Job(FS, "h_multi", "5 combinations of up to 4 members, every assignment of two files to them, 1 to `opens` openings of every name of 0 to 2 bytes", {"opens": 2}, [{"opens": 3}], [{"opens": 4}], tags=["first", "later", "absent"]), Job(FS, "h_multi_real", "the real file systems combined in two orders")], [FILES])
PROPS["C26"] = Prop([Job(FS, "h_native", "8 name beginnings followed by every text of 0 to n bytes without '..' or NUL, on a tree of files inside and outside of the root", {"n": 3}, [{"n": 4}, {"n": 5}], [{"n": 6}], tags=["found", "absent"]), Job(FS, "h_native_several", "`steps` openings and reads in any order", {"steps": 6}, [], [{"steps": 9}]),
                     Job(FS, "h_native_roots", "10 forms of the root"), Job(FS, "h_native_working_directory", "the working directory as root in 4 forms, 7 names", tags=["found"]), Job(FS, "h_read_native", "native files of 0 to 10 bytes", {"sizes": 1})], [FILES])
TL = "h_tool.cpp"
DP, STREAMS = "h_dump.cpp", ("-DVF_STREAMS",)
PROPS["C33"] = Prop([Job(DP, "h_hexdump", "buffers of 0 to n bytes, `sym` of them anywhere with every value, from 5 addresses; or as two buffers cut anywhere", {"n": 18}, [{"n": 34}], [{"n": 18, "sym": 2}, {"n": 50}], tags=["one", "two"], defs=STREAMS),
                     Job(DP, "h_hexdump_kinds", "7 kinds of one or two buffers of 8 bytes with elements of 1 to 4 bytes, every content", defs=STREAMS)],
                    ["ios_base and the classic locale are the models of sym/streams.cpp; the streams themselves are executed from libstdc++'s headers"])
PROPS["C29"] = Prop([Job(TL, "h_log_history", "every sequence of `steps` moves among: one or two sinks added, a sink removed, level set, type enabled or disabled, message written in 4 forms", {"steps": 3}, [{"steps": 4}], [{"steps": 5}], tags=["logged", "not logged"]),
                     Job(TL, "h_log_texts", "texts of 7 sizes up to 70000 with symbolic bytes in 8 forms, with a hex dump"), Job(TL, "h_log_many", "200 sinks in turn"),
                     Job(DP, "h_log_hex", "dumps of 0 to 2 bytes logged at every level", tags=["logged"], defs=STREAMS), Job(DP, "h_clog_sink", "1 to 3 texts of 0 to 3 bytes to the standard log stream", defs=STREAMS)], ["writing to a sink from inside of a sink is not explored"])
PROPS["C30"] = Prop([Job(TL, "h_erased_void", "3 kinds of functions of two arguments, every value, texts of 0 to 2 bytes, 7 wrong calls"), Job(TL, "h_erased_result", "functions with results, every integer, 4 wrong calls"), Job(TL, "h_erased_map", "`steps` calls in any order on 5 stored functions", {"steps": 3}, [{"steps": 4}], [{"steps": 5}]), Job(TL, "h_erased_throw", "every integer")])
PROPS["C31"] = Prop([Job(TL, "h_buffers", "14 kinds of sources of 0 to 9 elements, every bound"), Job(TL, "h_buffer_advance", "memory of 0 to n bytes advanced `steps` times by every amount", {"n": 8, "steps": 3}, [{"n": 8, "steps": 4}, {"n": 32, "steps": 3}])])
JS = "client.js"
PROPS["C34"] = Prop([Job(JS, "js_handshake", "opening, any acknowledgement, a second one or not, a call each way with any number, four ends"),
                     Job(JS, "js_call", "1 call of 4 functions, 0 to `args` arguments: booleans, numbers, texts of 0 to `length` units (every well-formed text which does not begin with U+FEFF), arrays of 0 to 2 values, arrays in arrays", {"args": 1, "length": 2}, [{"args": 2, "length": 1, "names": 0}], [{"calls": 2, "args": 1, "length": 2}]),
                     Job(JS, "js_call", "two calls of simple arguments", {"calls": 2, "args": 1, "length": 1, "kinds": "bns"}), Job(JS, "js_call_long", "texts of 14 sizes up to 65535"), Job(JS, "js_call_many", "10 numbers of arguments or elements up to 254"),
                     Job(JS, "js_call_name", "every function name of 0 to `length` units, missing and failing functions, then another call", {"length": 2}, [{"length": 3}], [{"length": 4}]),
                     Job(JS, "js_text", "texts of 0 to `length` units, every opcode", {"length": 2}, [{"length": 3}]), Job(JS, "js_text", "texts of 10 sizes up to 65535", {"long": 1}), Job(JS, "js_other", "every other command with 0 to 12 bytes", {"messages": 2}),
                     Job(JS, "js_cpp", "a call of C++ with 0 to `args` arguments and names of 0 to `length` units", {"calls": 1, "args": 1, "length": 2}, [{"args": 2, "length": 1}]), Job(JS, "js_cpp", "two calls through one binding", {"calls": 2, "args": 1, "length": 1, "kinds": "bns"}, [{"kinds": "bnsa"}]),
                     Job(JS, "js_cpp_long", "names and texts of 19 shapes around the borders of the length forms, at three places"), Job(JS, "js_cpp_many", "8 numbers of arguments or elements up to 255"), Job(JS, "js_cpp_refused", "undefined values and objects at 4 places"),
                     Job(JS, "js_relay", "two calls of a function which calls C++ with its arguments", {"args": 1, "length": 1, "kinds": "bns"}, [{"kinds": "bnsa"}]),
                     Job(JS, "js_cpp_nested", "arrays in arrays"), Job(JS, "js_bom", "texts which begin with U+FEFF"), Job(JS, "js_cpp_too_many", "more arguments or elements than a byte can count"), Job(JS, "js_cpp_large", "two long texts in one call")],
                    ["the browser is the model in js/jsx.py: one client on one page, messages arrive whole and in order, the console only records; an argument list of more than 125000 values is refused as V8 does",
                     "js/jsx.py, acorn, node and z3 are trusted; sampled paths are re-run by node on the real script and must give the same observations"])
