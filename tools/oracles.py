"""For each property: what its harness compares the code with, and why that reaches further than examples (for DESIGN.md)."""
O = {
"C01": "Oracle: the same parser, fed the same bytes at once on its own; and a server with two clients whose bytes arrive in any order, each answered as if it were alone (the answer itself is judged under C02 to C05). Includes handlers running after their buffers were filled again, and many connections one after the other.",
"C02": "Oracle: a reference recogniser of the request grammar written in the harness from the statement; the verdict, method, target, version and headers must be equal for every byte value behind 13 beginnings which lead into each state of the grammar. Input in exact-size heap blocks, so reading one byte too many is seen.",
"C03": "Oracle: a file provider which records each name it is asked for; no name may be absolute, have a `..` component or a NUL; and the real native provider on a tree with a secret beside the root, whose bytes must never be sent.",
"C04": "Oracle: a table of what each kind of request calls for (status, length, type, encoding, content), with symbolic file bytes; upgrade requests in every letter case.",
"C05": "Oracle: the serialisation written down in the harness, compared with the exact bytes the network received, under every order of partial writes of 2 or 3 clients.",
"C06": "Oracle: counters kept by the model network: sockets open and closed, callbacks outstanding, upgrade callbacks made, and that no memory of a closed connection stays.",
"C07": "Oracle: a reference SHA-1 and Base64 in the harness; every byte of the key symbolic. The digests are compared per output word.",
"C08": "Oracle: a reference SHA-1 written from FIPS 180; every length within the bounds with every byte symbolic, so each padding case is met.",
"C09": "Oracle: a reference Base64 decoder gives the bytes back; alphabet, padding and size as defined.",
"C10": "Oracle: reference encoder and decoder; round trip; input in exact-size blocks.",
"C11": "Oracle: the parts the text was assembled from; for arbitrary text, a reference split; splitting another URI in between must change nothing.",
"C12": "Oracle: the header layout of RFC 6455 computed in the harness; every size by a symbolic size for the header, content symbolic for small frames.",
"C13": "Oracle: the frame the bytes were assembled from; bytes after the frame must be left over; every cut.",
"C14": "Oracle: the list of messages put on the wire; each is handed over once, whole, in order, of its kind; sizes around the buffer and length-form borders; two connections; long streams. Masks symbolic: unmasking is decided by z3.",
"C15": "Every byte string as the peer's stream: memory safety, undefined behaviour, no allocation above 128 KiB, no exception out of the handler, at most one closing.",
"C16": "Oracle: an automaton of the life of a connection: at most one read outstanding, one closing report, nothing after it, everything released at the end.",
"C17": "Oracle: the frames of all writes one after the other, compared with the bytes the network received; memory given to a write is overwritten as soon as it returns.",
"C18": "Oracle: the value itself, after a round trip, and the bytes a browser would have sent for it.",
"C19": "Oracle: a reader of the protocol written from WebFront.js: opcode, counts, sizes and each argument must be found as sent, and nothing must follow.",
"C20": "Oracle: a reference decoder with bounds; any text decoded into 10 types gives exactly its value or is refused, without reading past the bytes received (exact-size blocks).",
"C21": "Oracle: what each message calls for: events, and bytes sent, after any message history within the bounds.",
"C22": "Oracle: a model of browsers, links and the application's callbacks: opened once, closed once, own answers only, forgotten at the end.",
"C23": "Oracle: the content, compared at every read for every sequence of buffer sizes; guard bytes around each buffer.",
"C24": "Oracle: recorded digests for content; for names, membership in the list of names decided for every byte string within the length bound.",
"C25": "Oracle: the first member having the name, for every assignment of files to members.",
"C26": "Oracle: the model tree: a name below the root which is a regular file gives its bytes, everything else is absent. Replayed on a real directory tree.",
"C27": "Oracle: the table of extensions written down in the harness.",
"C28": "Oracle: a reference case-insensitive search over the list of headers.",
"C29": "Oracle: a model of levels and sinks; the exact text in each sink after every history.",
"C30": "Oracle: the arguments given; wrong ones must be refused by an exception and not run the function.",
"C31": "Oracle: address and size of the storage.",
"C33": "Oracle: the dump written down in the harness, compared byte for byte; the streams are executed from libstdc++'s headers (`-DVF_STREAMS`), on models of ios_base and the classic locale.",
"C32": "Oracle: layout of each command; sizes around and beyond what the length field holds.",
"C34": "How: `js/dump.cpp` reads WebFront.js through the library's IndexFS, `js/jscheck.py` decompresses it, acorn parses it, and `js/jsx.py` (an ECMAScript 5 interpreter on z3 terms, about 1000 lines) executes it: booleans, numbers (64-bit patterns), text units and message bytes are terms, each decision on them forks, the solver keeps the feasible sides. The browser is a model: socket, page with functions at several depths, console, script elements. Oracle: an encoder of the protocol written down in `jscheck.py` from Messages.hpp, for the messages given to the script and for those it sends; what was called, injected, printed and sent is compared for all values on the path by one query. Counterexamples and up to 60 sampled paths per run are executed by node on the real script (`js/replay.js`). The four known findings have entries of their own; the other entries stay outside of their inputs (no arrays within arrays towards C++, no text argument beginning with U+FEFF, at most 254 arguments, at most 125000 bytes per call). In other engines the last limit may be lower (65536 arguments in JavaScriptCore).",
}
