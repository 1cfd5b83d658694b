"""Per property: what is asserted against what, and why tests do not reach it."""
O = {
"P01": ("The executor itself is the oracle: every access in bounds of a live object, every run ends with a verdict below the instruction bound, and the count of live heap objects returns to its value before the request.",
        "Each of the 25 parser states gets all byte strings, in all cuts; the limits of internal tokens are approached with long fillings."),
"P02": ("A product construction: the same symbolic bytes are given to two requests, one whole and one cut (or byte by byte); verdicts, every dictionary, path, body and session cookie have to be equal. No model of HTTP is involved, so any refactoring that keeps the meaning passes.",
        "All bytes and all cuts at once; tests send whole requests."),
"P03": ("A reference reader of the request line and of two headers (letter case, leading blanks, continuation lines, both line endings).", "All methods, all bytes in paths and values."),
"P04": ("A reference splitter and decoder; pairs are compared as an ordered multimap, with counts, so an added or lost pair is seen.", "Encoded separators, empty names, repeated names at every position."),
"P05": ("The announced length is evaluated by the harness with unlimited arithmetic (wide integers in the solver); the verdict has to be ready exactly with that number of bytes, refused over the limit or when it is no number. The temporary file is a recorded model, with faults of creation and writing.", "Lengths around 2^31, 2^32, 2^63, 2^64, negative and empty ones; all cuts."),
"P06": ("The form is generated by the harness from symbolic contents, so the expected fields are known; contents over the alphabet of the boundary reach every partial match of it. Files are a recorded model: names, contents, and that none is left.", "Contents that look like boundaries, cut at each byte."),
"P07": ("A reference cookie splitter.", "All header texts."),
"P08": ("A reference decoder, and decode(encode(x)) = x; buffers are sized objects, so a byte too many is an error.", "All texts and all buffer sizes, also cut escapes."),
"P09": ("RFC 4648 encoder in the harness; decoding compared with a reference over valid texts, memory safety over any text.", "All remainders, line breaks, padding and bytes above 127."),
"P10": ("A reference entity decoder gives the original back; no special character remains; the quoting entry points agree.", "All bytes at all positions."),
"P11": ("Reference readers of C and JSON literals, written from the two grammars.", "All texts and all buffer sizes."),
"P12": ("Any text: memory safety, end of parsing inside the text, no leaks, and acceptance only with a dictionary. Round trip: equality of dictionaries.", "All texts after several prefixes that bring the parser to each state."),
"P13": ("An ordered multimap in the harness, compared after each history (lookup of every key, count, order of iteration). Trees are also prefilled in several orders so that removals meet all shapes.", "All histories, with symbolic keys: every relative order of keys is covered by the solver."),
"P14": ("Counting of live heap objects, and reads after each release through the remaining owner; use after free and double free are the executor's.", "All combinations of flags and orders of release."),
"P15": ("A plain byte string.", "Sizes around each growth step, appending a block to itself."),
"P16": ("A count per pointer.", "All histories."),
"P17": ("A reference HTTP client reads the bytes on the wire by the announced framing, and compares the body with what the handler wrote. Writes of the connection may be partial.", "Sizes around the response buffer, all sequences of writes and flushes, all partial writes."),
"P18": ("The rule of the statement as a formula over version, header, switch, length and body; and its agreement with the announced `Connection` header.", "The full product of conditions."),
"P19": ("A reference client reads the head; status lines by code, headers and cookies as sets.", "All codes, cookie attributes around the limits of the internal buffer, up to a dozen cookies; clock advancing by any of a set of steps between responses."),
"P20": ("Bytes before the failure are a prefix of the right response; the verdict is an error, the connection is closed, nothing leaks, nothing is retried for ever.", "A failure of each kind at each position."),
"P21": ("A plain map of sessions; identifiers are a function of the recorded random bytes; cookies split by the reference splitter of P07.", "Cookie headers that are near to a session cookie, histories of several requests."),
"P22": ("A plain map, for the memory, sqlite and redis stores. The database and the server are models that only understand bound values, so identifiers that reach a statement as text would be seen.", "Arbitrary bytes in identifiers and data."),
"P23": ("A reference decoder of RFC 6455 frames.", "All lengths around 125, 126, 65535, 65536 and internal buffers; partial and failing writes."),
"P24": ("A reference decoder of client frames over arbitrary bytes.", "Arbitrary peers, all cuts, all length encodings."),
"P25": ("The hash is a recorder: it has to be given exactly the key and the fixed text, and its arbitrary result has to be in the answer, in base64.", "All versions, keys and upgrade texts."),
"P26": ("A reference walk along the chain, and the status the client reads.", "All verdicts at all positions, also with output before the verdict."),
"P27": ("A reference dispatcher; the regular expression engine answers anything consistent.", "All tables and paths of the bound."),
"P28": ("The file system is a model: what a path resolves to is an arbitrary text. Opening or listing anything whose resolution is not the root or below it fails. No real file is touched.", "Roots that are a prefix of a sibling's name, arbitrary names in listings, long paths."),
"P29": ("Every file operation is a stand-in that records the path it is given, and compares it with what the permission callback granted.", "All methods, paths, destinations, verdicts of the callback."),
"P30": ("A reference client reads head and body, and compares with the content of a model file at the offsets the range asks for.", "All range texts, 64 bit offsets, short and failed reads and sends."),
"P31": ("PAM is a recorder with arbitrary answer: the protected handler runs exactly if it accepted, or the session is logged in.", "All authorization headers."),
"P32": ("A model of epoll, timerfd, eventfd and clock, which knows what each descriptor waits for; ghost counts of the release callbacks.", "All histories with all clocks, and all schedules of two threads within the preemption bound."),
"P33": ("A reference reader of the table.", "All tables, extensions and paths of the bound."),
"P34": ("The line buffer is a sized object; the line written is compared with the expected prefix of the message, one line, no NUL inside.", "All lengths across the limits."),
"P35": ("The formula of the statement over 32 bit integers, without bound.", "All triples."),
"P36": ("Linearisation by counters: additions and removals are counted against what is found at the end; memory checks of the executor; locks are modelled with owner, so deadlocks and double unlocks are found. The texts of Date and of cookie expiries are parsed back and compared with the moment each thread asked.", "All schedules within the preemption bound."),
"P37": ("Sockets, addresses, event loop and threads are stand-ins that record who owns what. At the end nothing is open, registered, allocated or unjoined; nothing was closed or released twice.", "All histories of set-up, all failing system calls."),
"P38": ("The TLS library is a stand-in with a state per session: reading or writing before a successful handshake, after release, or beside the session is an error; every call may fail in each documented way. Plain text is compared at both ends.", "Failing calls at every position; records larger than the read buffer."),
"P39": ("A small interpreter of the generated C (strings, calls, conditions, loops) runs the generated text against symbolic variables and compares what it writes with a reference expander of templates; for packed files, the byte list is read back.", "All templates over the alphabet of the syntax; all bytes in files; sizes around the internal buffers."),
"P40": ("The wrappers, the headers and the parts of libstdc++ they instantiate are compiled to bitcode and executed with their exceptions; the non-template parts of the C++ run time (allocation, throw/catch, the ordered tree, stream bases) are in engine/cxx.cpp. Dict histories are compared with a reference that tracks which objects share; handlers, urls, listen points and servers count destructions; the C functions behind request, response and server wrappers are recorders.", "All operation sequences, all exceptions, all orders of destruction and all argument values."),
"P41": ("A reference client reads status, length and body. The status page is compared with the page for a harmless value: the only difference may be quoted text without markup characters.", "All bytes in texts and headers, all paths of the bound."),
"P42": ("Allocation functions with a mark in front of each block: giving them an unmarked block fails, and giving a marked one to the functions of the system is a release inside a block, which the executor reports. They run under harnesses of the other properties. For the wrappers, recorders with arbitrary sizes and failures.", "All the histories and inputs of those jobs."),
"P43": ("The handler itself is the oracle: it asks the request for everything (method, paths, version, query, form, files with their content, body, cookies, headers, session, error flags) and compares it with what the request of its turn sent; a reference client then reads the answers off the connection, one per request, and nothing may follow. Requests come from a menu of all body kinds with arbitrary letters, and the packets are cut at every position around the end of the first, at the ends of all, or after each byte.", "All sequences and packets of the bound; tests never put two requests in one packet."),
"P44": ("libpng and libjpeg are stand-ins with the contracts of the real ones (errors call back and leave by a long jump, the JPEG encoder writes byte by byte into the buffer it is given and asks for room when it is full, suspended lines are written again): they read every row they are given, so a wrong row is a wrong byte or an access outside, and what they put out, in pieces of any size, is what a reference client must find as the body. They fail at each stage, the connection at each write.", "All images, formats, failure points and sizes of the bound; no test makes an image."),
"P45": ("A reference reader takes the multi-status document apart (elements, namespaces, character references, addresses with %-decoding) and compares it with the scratch file system of the harness, which keeps the true type, size, times and mode of each entry and records every change: which properties were asked, by which names and in which document shape, what each entry is called, and which operation of the system fails are all symbolic.", "All sets of properties, kinds of entries, name bytes and failures of the bound; no test drives WebDAV."),
}
