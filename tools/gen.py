#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props

TESTS = "The tests run a handful of fixed examples; "
P = []


def prop(i, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": i, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": list(observe), "hook_needed": None}})


H, W, E = "include/http/HTTPServer.hpp", "include/http/WebSocket.hpp", "include/http/Encodings.hpp"
M, L, F, N = "include/weblink/Messages.hpp", "include/weblink/WebLink.hpp", "include/system/FileSystem.hpp", "include/system/NativeFS.hpp"
WF, J = "include/WebFront.hpp", "include/JsFunction.hpp"

prop("C01", "HTTP requests are parsed the same however their bytes are cut and interleaved",
     "What an HTTP request is parsed into, and when it is complete, depends only on its own bytes: not on how the network cuts them into pieces, nor on requests being received at the same time on other connections.",
     "inputs schedules", "every request text within the bounds, every cut into pieces, every interleaving with the bytes of another request",
     TESTS + "they feed whole requests (or one fixed cut) to one parser at a time.", [H], [("Request parsing state machine", H)], [("parser state", "position in the grammar, partial tokens", H)], ["request fields and parse verdict", "bytes sent to each client"])
prop("C02", "Well-formed HTTP requests are accepted exactly, malformed ones get a bad request",
     "A request (a token as method, SP, a target without control characters or spaces, SP, HTTP/ and a version of two numbers of at most three digits, CRLF, headers written as a token, a colon, one space, a value without control characters, CRLF, continued on lines which begin with a space or tab, and an empty line) is accepted at its last byte, with exactly the method, target, version and headers written in it (an unknown method is kept as undefined). A text which cannot become such a request is answered with a bad request at its first wrong byte, the beginning of one is waited on, and none crashes or hangs the server.",
     "inputs", "every request text within the bounds, including all byte values",
     TESTS + "about ten request texts out of all byte strings.", [H], [("Request parsing state machine", H)], (), ["parse verdict and fields", "status line sent"])
prop("C03", "No request reaches a file outside of the served root",
     "Whatever its request target, a request never makes the server open anything but a relative path without any '..' component below the document root; targets which try are answered with a bad request or not found.",
     "inputs", "every request target within the bounds, percent-encoded or not, in every spelling",
     TESTS + "a few hand-picked paths such as ../ are tried.", [H, E], [("target decoding and checking in the request handler", H)], (), ["paths given to the file provider", "response status"])
prop("C04", "HTTP requests get the status, headers and content their kind calls for",
     "GET of an existing file is answered 200 with its exact bytes, its length, its media type and its stored encoding (506 when the client does not accept this encoding), a missing file with 404, another method with 501; a target ending with a slash serves its index.html. HEAD is answered with the headers of the file and no content. A GET with Connection, Upgrade: websocket and Sec-WebSocket-Key headers, in any letter case, is answered 101 with the accept key of its key and no content.",
     "inputs", "every combination of method, target, headers, file content, size and encoding within the bounds",
     TESTS + "one or two requests per status, always with the same small files.", [H, "include/http/MimeType.hpp"], [("request handler", H)], (), ["status, headers and content of the response"])
prop("C05", "HTTP responses are serialised whole, whatever else is being sent",
     "A response goes to the wire as its status line, each header once, an empty line and its exact content; this is not altered by other responses being prepared or in flight, nor by how many bytes each write accepts.",
     "inputs schedules", "every status, header and content within the bounds, and every interleaving with another response",
     TESTS + "one response is serialised at a time.", [H], [("response serialisation into buffers", H)], (), ["bytes sent"])
prop("C06", "HTTP connections end or upgrade cleanly at every network fault",
     "Whatever fails or ends (reads, writes, shutdown, the peer leaving at any point), the server keeps running and serving others, each connection is released once, an upgraded connection is handed over exactly once and only after its 101 response was sent, and nothing is sent to a connection after its end.",
     "fault_sequences schedules histories", "every sequence of connections, bytes, read errors, write errors and throwing shutdowns within the bounds",
     TESTS + "no network fault is injected.", [H], [("connection and connection set lifecycle", H)], [("connection set", "live connections", H)], ["bytes sent", "upgrade notifications", "released connections"])
prop("C07", "WebSocket accept keys are those RFC 6455 prescribes",
     "The accept key given for any client key is the Base64 of the SHA-1 of the key followed by the protocol's fixed GUID.", "inputs", "every 24-character key (and other lengths within the bounds)",
     TESTS + "one key is checked.", [E, H], [("accept key from the request's key", H), ("SHA-1", E), ("Base64", E)], (), ["returned text"])
prop("C08", "SHA-1 digests are right for every message",
     "The digest of any message equals the SHA-1 of FIPS 180-4, whatever its length, as words and as 40 lower-case hexadecimal digits.", "inputs", "every message within the length bounds, across every padding boundary",
     TESTS + "a handful of literal messages.", [E], [("SHA-1", E)], (), ["digest"])
prop("C09", "Base64 encodes every input exactly",
     "Encoding any byte sequence or integer (in network order) yields its RFC 4648 Base64 text with padding and nothing else.", "inputs", "every byte string within the length bounds and every 16, 32 and 64-bit value",
     TESTS + "only a few literal texts.", [E], [("Base64 encoder", E)], (), ["encoded text"])
prop("C10", "Percent-coding is exact and never reads outside of its text",
     "Percent-encoding keeps unreserved characters and turns every other byte into %XX; decoding replaces %XX (in either letter case) by its byte and + by a space, keeps malformed escapes as they are without reading beyond the text, and decoding an encoded text gives it back.", "inputs", "every byte string within the bounds, malformed escapes included",
     TESTS + "few ASCII examples.", [E], [("URI encoding and decoding", E)], (), ["encoded and decoded text"])
prop("C11", "URIs are split into exactly the parts they contain",
     "Scheme, authority, user info, host, port, path, query and fragment of a URI of the form scheme://[user@]host[:port][/path][?query][#fragment] are exactly the substrings so delimited, absent parts are empty, and no text, however malformed, makes splitting read outside of it or depend on an earlier split.", "inputs", "every URI text within the bounds",
     TESTS + "few well-formed URIs.", [E], [("URI splitting", E)], (), ["URI parts"])
prop("C12", "WebSocket frames sent are well-formed and carry their exact content",
     "Every frame written for a text, binary or close message is final, unmasked, has the shortest length field for its size with the right value, and its content follows unchanged, for every size and even when a frame object grows or moves before it is sent.", "inputs", "every size from 0 to beyond 65536 and every content byte",
     TESTS + "two or three sizes.", [W], [("frame header encoding", W)], (), ["bytes of the frame"])
prop("C13", "WebSocket frames received are decoded exactly",
     "A masked client frame of any size and any length field form, cut anywhere, is decoded into exactly its opcode and unmasked content when its last byte arrives, and not before.", "inputs schedules", "every header, mask, content and cut within the bounds",
     TESTS + "two or three frames in one piece.", [W], [("frame decoder", W)], [("decoder state", "header bytes and payload received so far", W)], ["decoded messages"])
prop("C14", "WebSocket messages arrive once, whole and in order, however they are cut",
     "Whatever sequence of frames a client sends and however the network cuts or merges them, each message, sent in one frame or in several fragments, is handed to the application exactly once, whole, in order and as the kind it was sent as; with a single read outstanding at any time.", "inputs schedules", "every sequence of frames and every segmentation within the bounds",
     TESTS + "one frame per read.", [W], [("read loop and frame decoder", W)], (), ["message callbacks"])
prop("C15", "No bytes from a WebSocket peer can crash, hang or exhaust the server",
     "Whatever bytes a peer sends after the upgrade, the server neither crashes, reads or writes outside of its buffers, hangs, nor reserves memory for content it has not received; and either goes on reading or closes this connection and reports it.", "inputs schedules", "every byte stream within the bounds in every segmentation",
     TESTS + "only well-formed frames.", [W], [("frame decoder", W)], (), ["callbacks", "allocations", "memory accesses"])
prop("C16", "A WebSocket's closing is reported exactly once, and nothing follows it",
     "Whether it ends by a close frame, by a read or write error, or by being stopped, a WebSocket reports its closing at most once (exactly once unless stopped by its owner), delivers no message afterwards, and reads no more.", "histories fault_sequences", "every order of messages, close frames, errors, stops and restarts within the bounds",
     TESTS + "only the orderly close.", [W], [("WebSocket stop, close and read handlers", W)], (), ["callbacks", "bytes sent"])
prop("C17", "WebSocket writes never interleave and outlive their caller's buffers",
     "Messages written in a row, while earlier writes are still in progress and whose buffers the caller reuses at once, reach the wire as whole frames, in order, each once.", "inputs schedules", "every number of bytes accepted per write and every order of completions and further writes within the bounds",
     TESTS + "one write at a time, completed at once.", [W], [("write queue", W)], [("pending writes", "frames not yet sent", W)], ["bytes sent"])
prop("C18", "Values passed to and from the browser survive encoding unchanged",
     "Every value of a supported parameter type (booleans, numbers which a double can hold, texts of any length up to 65535 bytes, tuples and nested tuples) encoded into a message is decoded as the same value by the peer and back, with sizes announced as they are; a number given to an integer keeps its integral part, or is refused if this does not fit.", "inputs", "every value of each type within the bounds, every length class of text",
     TESTS + "few literal values.", [M], [("parameter encoding and decoding", M)], (), ["encoded bytes", "decoded values"])
prop("C19", "Each call of a browser function sends one self-consistent message",
     "Every call, whatever calls were made before on the same function object, sends one message whose announced sizes and parameter count match what follows and which holds the function's name and the call's own arguments in order; what does not fit is refused instead of truncated or overflowing, and the next call is whole again. Exceptions told to a browser announce what they send, their text cut at 65535 bytes.", "inputs histories", "every sequence of calls with every argument value and size within the bounds",
     TESTS + "a single call.", [J, M], [("function call message assembly", M), ("call operator", J)], [("encode buffer and sizes", "what is written so far", M)], ["bytes sent to the browser"])
prop("C20", "No message from a browser makes the server read outside of it or act on garbage",
     "Whatever bytes a message from a browser holds, decoding it reads only bytes of the message, and a call whose parameters are missing, truncated or of another type is refused or sees default values, never memory of others or undefined conversions.", "inputs", "every message content within the size bounds",
     TESTS + "only messages built by the library itself.", [M, L], [("message header check and parameter decoding", M)], (), ["arguments received by the C++ function", "memory accesses"])
prop("C21", "The browser link survives every message and dispatches calls exactly",
     "Each handshake is acknowledged and the first one reported; each well-formed call is reported once with its function's name and exact parameters; a call of an unknown function is answered with one error return; malformed, empty or unexpected messages are ignored and the link goes on. Its end is reported once, nothing follows it, and log texts reach linked browsers as log texts only.", "inputs histories", "every sequence of well-formed and arbitrary messages within the bounds",
     TESTS + "no test drives the link with messages.", [L, M], [("message dispatch", L)], (), ["events", "bytes sent"])
prop("C22", "A whole session works end to end and always ends cleanly",
     "From the HTTP request through upgrade, handshake, calls in both directions and closing, each browser session is notified once when opened and once when closed, gets its own answers only, and is then forgotten; other sessions are not affected and a missing application handler does not stop the server; asking for a script or a call in a browser which is gone is refused as a lost connection.", "histories schedules fault_sequences", "every order of sessions opening, calling, failing and closing within the bounds",
     TESTS + "no test covers a session from end to end.", [WF, L, W, H], [("front-end wiring of server, WebSockets and links", WF)], [("links", "open browser sessions", WF)], ["callbacks", "bytes sent"])
prop("C23", "Files read in pieces of any size give their exact content",
     "Reading a file through buffers of any sizes, also changing from read to read, yields its exact bytes once, in order, and then reports the end; nothing is written outside of the given buffers.", "inputs histories", "every sequence of buffer sizes and every content within the bounds, for every file backing",
     TESTS + "reads with one or two fixed buffer sizes.", [F, "include/system/IndexFS.hpp", N], [("File read", F)], [("read position", "bytes already given", F)], ["bytes read"])
prop("C24", "Embedded file systems serve their own files and nothing else",
     "Each embedded file system finds each of its files by its exact name with its full embedded content, size and encoding, and reports every other name as absent.", "inputs", "every name within the length bound, every content word",
     TESTS + "a name or two per file system.", ["include/system/IndexFS.hpp", "include/system/BabelFS.hpp", "include/system/ReactFS.hpp", "include/system/JasmineFS.hpp", F], [("open by name", "include/system/IndexFS.hpp")], (), ["file found or not", "content"])
prop("C25", "Combined file systems try each of their members in order",
     "A combination of file systems opens a file from the first member which has it, in the declared order, and reports it absent only when none has it.", "inputs configurations", "every name and every assignment of files to members within the bounds",
     TESTS + "one combination with a fixed name.", [F], [("combined provider", F)], (), ["file found, from which member"])
prop("C26", "Files of the native file system are served exactly, and only below its root",
     "Opening a name under the document root gives exactly this regular file's bytes and size, a missing name or anything that is not a regular file is reported absent, and no relative name without '..' opens anything outside of the root, whatever the form of the root.", "inputs configurations", "every name, content and tree within the bounds",
     TESTS + "one or two fixed files.", [N, F], [("native open", N)], (), ["file found or not", "content"])
prop("C27", "File names get the media type of their extension",
     "The media type given for a file name is the one listed for its last extension, in the letter case it is listed in, whatever the rest of the name, and text/plain when the extension is unknown or missing; each known type has its own name.", "inputs", "every file name within the bounds",
     TESTS + "few names.", ["include/http/MimeType.hpp"], [("extension table", "include/http/MimeType.hpp")], (), ["media type text"])
prop("C28", "Headers are found by name whatever their case, and only by their whole name",
     "Looking up a header gives the value of the first header with this name, letter case ignored, and nothing if there is none; tests for a value inside a header hold exactly when it is there.", "inputs", "every set of headers and every name within the bounds",
     TESTS + "few names.", [H], [("header lookup", H)], (), ["value found"])
prop("C29", "Log messages reach exactly the sinks and levels they are meant for",
     "A message is written once to each registered sink when its level is enabled, with its exact text, and nowhere otherwise; a text given alone is never taken for a format; adding and removing sinks, and enabling levels, take effect for the next message, and a removal never affects other sinks.", "histories configurations", "every sequence of sink and level changes and messages within the bounds",
     TESTS + "one fixed sequence.", ["include/tooling/Logger.hpp"], [("sinks and level filter", "include/tooling/Logger.hpp")], (), ["text received by sinks"])
prop("C30", "Stored C++ functions are called with exactly the arguments received",
     "A function stored with its type erased and called with arguments of its types receives exactly these arguments in order, once, and its result is given back; a wrong number, order or type of arguments or of result is refused by an exception without calling it; exceptions of the function come through, and a moved one calls the same function with its state.", "inputs histories", "every argument value within the bounds, every signature listed",
     TESTS + "few signatures and values.", ["include/utils/TypeErasedFunction.hpp"], [("type-erased call", "include/utils/TypeErasedFunction.hpp")], (), ["arguments received", "result"])
prop("C31", "Buffer views never reach outside of the storage they were made from",
     "Buffers made from any container or memory have its exact address and size in bytes, and stay inside of it when bounded by any number of elements or advanced by any amount.", "inputs", "every size, bound and offset within the bounds",
     TESTS + "buffers are only used indirectly.", ["include/networking/BasicNetworking.hpp"], [("mutable and constant buffers", "include/networking/BasicNetworking.hpp")], (), ["address and size of buffers"])
prop("C32", "Commands sent to the browser announce the exact text which follows",
     "Every command message (script injection, log, import, handshake, acknowledgement and the like) has its opcode, the exact length of its text and its text unchanged, for every length the format can hold; longer ones are refused or cut consistently, never announced with another length than sent.", "inputs", "every text within the length classes",
     TESTS + "one or two short texts.", [M], [("command message headers", M)], (), ["encoded bytes"])
prop("C33", "Hex dumps show every byte of a buffer, exactly once and in order",
     "The dump of any buffer lists each of its bytes as two hexadecimal digits and its printable text, in order, without reading outside of the buffer.", "inputs", "every buffer content and size",
     TESTS + "the dump is only used in debug logs.", ["include/tooling/HexDump.hpp"], [("dump formatting", "include/tooling/HexDump.hpp")], (), ["dump text"])
prop("C34", "The embedded browser client speaks the protocol exactly",
     "The script WebFront.js which the library embeds: opening its socket it announces itself once with its byte order, takes over the server's byte order from the first acknowledgement only, calls the named function of the page once per call message, on the object which holds it, with exactly the booleans, numbers, texts and arrays in the message; prints log texts and injects scripts exactly, does nothing on other messages, survives calls of missing or failing functions; and encodes each call of a C++ function, in the server's byte order, with exactly its name and arguments, or refuses it and sends nothing.",
     "inputs histories", "every value of every argument shape, text and byte order within the bounds",
     TESTS + "the script is only compared by eye in a browser page.", ["include/system/IndexFS.hpp"], [("the script WebFront.js, compressed", "include/system/IndexFS.hpp")], (), ["calls made in the page", "injected scripts", "bytes sent"])

NA = {}
TODO = "not built yet"

COST = json.load(open(os.path.join(V, "tools", "cost.json"))) if os.path.exists(os.path.join(V, "tools", "cost.json")) else {}
LEVEL_NOTE = "Bounded: every value, cut, fault and interleaving within the bounds listed in the evidence (runs[].bounds/params) is decided by the solver on the bitcode of the current headers, each counterexample replayed on the real program; nothing is claimed beyond the bounds. Trusts clang's front end, the executor in engine/, z3 and the models in sym/ (sampled paths are re-run on the natively compiled code and must agree)."
JS_NOTE = "Bounded: every value within the bounds listed in the evidence (runs[].bounds/params) is decided by the solver on the syntax tree of the script which the library serves, read, decompressed and parsed on every run; each counterexample is replayed by node on the real script; nothing is claimed beyond the bounds. Trusts js/jsx.py (validated by sampled replays), acorn, node and z3, and the model of the browser's page."

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    claimed = [p["id"] for p in P if p["id"] in props.PROPS]
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                     "technique": "symbolic execution of the %s of the real code, decided by an SMT solver (z3) within stated bounds" % ("JavaScript source" if i == "C34" else "LLVM bitcode"),
                     "level": "model_checking", "level_note": LEVEL_NOTE if i != "C34" else JS_NOTE} for i in claimed],
         "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], TODO)} for p in P if p["id"] not in claimed],
         "notes": "See DESIGN.md. No hooks: the harnesses use the public interface of the headers."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    # ---- DESIGN.md: the written parts, and what is derived from the checks
    sys.path.insert(0, os.path.join(V, "tools"))
    from oracles import O
    out = [open(os.path.join(V, "tools", "design_head.md")).read(), "## 4. The properties\n\nEach entry gives the oracle, then the entry points with their base bounds and, in brackets, the larger bounds explored while time remains. "
           "Costs are those of the last quick run on 8 cores.\n"]
    for p in P:
        i = p["id"]
        out.append("\n### %s %s\n" % (i, p["title"]))
        if i not in props.PROPS:
            out.append("Not applicable: " + NA.get(i, TODO) + ".\n")
            continue
        out.append(O.get(i, "") + "\n")
        for j in props.PROPS[i].jobs:
            fmt = lambda d: ", ".join("%s=%s" % kv for kv in d.items())
            more = [fmt(m) for m in j.more + j.deep]
            out.append("* `%s` %s%s%s" % (j.entry, j.bounds, " (" + fmt(j.base) + ")" if j.base else "", " [" + "; ".join(more) + "]" if more else ""))
        for a in props.PROPS[i].assumptions:
            out.append("* assumes: " + a)
        if i in COST:
            out.append("* cost: " + COST[i])
    fixed, opened = [], []
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("fixed:"):
            _, pid, commit, what = l.strip().split(" ", 3)
            fixed.append("| %s | %s | %s |" % (pid.split("=")[1], commit, what))
        elif l.startswith("open:"):
            opened.append("* %s: %s" % (l.split("property=")[1].split()[0], l.split("::", 1)[1].strip()))
    out.append("\n## 5. Defects found\n\nEach was shown on the real code by a replay, and repaired by a small `fix:` commit. On the tree before the repair the check reports the violation.\n\n| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fixed))
    out.append("\nNot repaired, reported as KNOWN-FINDING on each run (C19: a repair would contradict a test of the repository; C34: the script is embedded in compressed form only, its source is not in this repository):\n\n" + "\n".join(opened) + "\n")
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    out.append("\n## 6. Planted bugs\n\nIn `seeded/`, each verified to build, to pass the 74 tests and to fail its demonstration; and the entry points which report it.\n\n| bug | needs | breaks | reported by |\n|---|---|---|---|")
    for i, by in caught.items():
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], by))
    out.append("")
    out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))
