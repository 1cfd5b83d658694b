"""Source of properties.jsonl (gen.py writes it)."""
B = "src/onion/"
def P(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=mech))
PROPERTIES = [
P("P01", "Any client byte stream is parsed without memory errors or hangs",
  "Whatever bytes a client sends and however the network splits them, parsing the request only touches memory it owns, always makes progress to a verdict (ready, more data needed, or an error), and all memory taken for the request is given back when the request is released. No token, header, URL, boundary or length the client chooses can overflow a buffer.",
  ["inputs", "histories"], "all byte streams and all splits of them into packets, including oversized tokens, embedded NUL bytes, malformed escapes, lengths and boundaries",
  "The tests feed a few dozen well-formed or recorded requests; a stream fed byte by byte, an empty header value or a truncated escape is never tried.",
  [B+"request_parser.c", B+"request.c", B+"codecs.c", B+"dict.c"], ["size checks before each byte stored in a token", "state machine driven by the connection data", "ownership handed to the request at each state"]),
P("P02", "A request means the same however it is split into packets",
  "The method, path, query values, headers, form fields, body and final verdict that a handler observes are a function of the bytes the client sent only, never of how they were grouped into reads. Cutting the stream at any position gives the same request as delivering it whole.",
  ["inputs", "schedules"], "all requests and all positions at which the stream can be cut",
  "Tests deliver each request in one or in a few fixed pieces; the cut positions that matter fall inside a line ending, a continuation line or a boundary.",
  [B+"request_parser.c"], ["parser state kept in the request between reads", "partial token kept until complete"]),
P("P03", "Request line and headers reach the handler as the client sent them",
  "For a well-formed request the handler sees the method, protocol version, unescaped path and every header value as sent, with leading blanks trimmed and continuation lines joined, and header names match in any letter case. A method the server does not know gets a not-implemented verdict, never a wrong method.",
  ["inputs"], "all methods, paths, header names and values, and line ending styles",
  "The tests look at a handful of fixed headers; nothing compares arbitrary names, values and methods with what was sent.",
  [B+"request_parser.c", B+"request.c", B+"dict.c"], ["method table lookup", "header key/value states and the case-insensitive header dictionary"]),
P("P04", "Query strings and urlencoded forms decode to exactly the pairs sent",
  "The query and form dictionaries hold exactly the name/value pairs the client encoded, split at '&' and the first '=', with escapes and '+' decoded after splitting. Encoded separators stay data, a name without a value maps to the empty string, nothing between two '&' is no pair, and no pair is lost or invented.",
  ["inputs"], "all query strings and urlencoded bodies up to the bound",
  "Tests check three or four fixed query strings; encoded separators, empty names, and pairs at the end of the string are not covered.",
  [B+"request_parser.c", B+"codecs.c"], ["in-place splitting of the string, then unescaping of key and value"]),
P("P05", "Bodies are delivered exactly and only within the configured limits",
  "A body announced with a content length reaches the handler as exactly the announced number of bytes, in order, whether kept in memory or, for uploads, in a temporary file, and bytes after it are not part of it. A body longer than the server's limit, or with a negative or unparsable size, is refused rather than stored or truncated silently.",
  ["inputs", "histories", "fault_sequences"], "all announced lengths, body bytes, packet splits and limits, and failures of the temporary file",
  "Tests send one body per kind, in one piece, with a matching length far from the limit.",
  [B+"request_parser.c", B+"block.c"], ["content length parsed once and compared with the limits", "bytes counted against the announced length"]),
P("P06", "Multipart forms deliver every field and file unchanged and leave no files",
  "For every well-formed multipart form within the limits (quoted field names, unquoted boundary) each text field value and each uploaded file has exactly the bytes the client sent between the boundaries, whatever those bytes are and however they arrive in packets. Oversized forms or files are refused, and every temporary file is gone when the request is released.",
  ["inputs", "histories"], "all field names, values and file contents (including bytes that look like part of a boundary), all packet splits",
  "Tests post a few prerecorded forms whose contents never resemble the boundary and arrive in fixed pieces.",
  [B+"request_parser.c", B+"request.c"], ["incremental boundary matcher that gives back a failed partial match", "temporary files listed in the request and removed with it"]),
P("P07", "Cookies sent by the client are read back exactly",
  "Every name=value pair of the cookie header is available under its name with its value, whatever blanks separate the pairs, and no other cookie exists; pieces without a name or without '=' are no cookie. Reading cookies never fails, leaks or reads outside the header.",
  ["inputs"], "all cookie header values up to the bound",
  "One test with four fixed cookies; leading blanks, empty values and pairs without '=' are not tried.",
  [B+"request.c"], ["in-place split of a private copy of the header"]),
P("P08", "URL escaping is lossless, bounded and safe on any input",
  "Unescaping any string, including one cut in the middle of an escape, stays inside the string and decodes valid escapes and '+'. Escaping any string and unescaping it gives the original back, and the bounded escaper never writes more than the space it was given.",
  ["inputs"], "all strings and all output sizes up to the bound",
  "Tests decode a few fixed strings; no test ends inside an escape or escapes into a short buffer.",
  [B+"codecs.c"], ["look-ahead of two characters after '%'", "space check per output character"]),
P("P09", "Base64 encoding round-trips and decoding is safe on any text",
  "Decoding the encoding of any non-empty byte string gives the same bytes and length back (the empty string encodes to nothing and decodes to nothing), and the encoded text uses only the standard alphabet with correct padding. Decoding arbitrary text, valid or not, stays within its input and output.",
  ["inputs"], "all byte strings to encode, all texts to decode, up to the bound",
  "Tests use random data of fixed shapes and one trash string; bytes above 127, trailing blanks and short groups are not reached.",
  [B+"codecs.c"], ["decode table and group-of-four loop", "output size computed from input length"]),
P("P10", "HTML quoting neutralises every special character and loses nothing",
  "Quoted text contains no character that HTML could interpret and, when HTML entities are decoded, is the original text. Every way of asking for quoted text agrees, including for text that needs no quoting.",
  ["inputs"], "all strings up to the bound",
  "Tests quote three fixed strings.",
  [B+"codecs.c", B+"response.c"], ["two-pass size computation then copy"]),
P("P11", "C and JSON string quoting reproduce the text and stay within their buffer",
  "Quoting any text as a C literal or a JSON string gives a literal that, read by the rules of that language, is the original text. The bounded quoter never writes past the size it was given: a text that does not fit is cut at a whole escape and the literal is still closed and terminated.",
  ["inputs"], "all strings and buffer sizes up to the bound",
  "Tests quote fixed strings into large buffers.",
  [B+"codecs.c"], ["escape selection per character", "remaining space accounting"]),
P("P12", "JSON text is read safely and dictionaries survive a JSON round trip",
  "Parsing any text as JSON stays inside the text and yields either a dictionary or a clean failure without leaks. A dictionary of strings and nested dictionaries written as JSON is valid JSON text and read back is equal to the original.",
  ["inputs"], "all texts up to the bound; all small dictionaries with arbitrary keys and values",
  "Tests parse a few valid documents; unterminated strings and truncated documents are not tried.",
  [B+"dict.c", B+"codecs.c", B+"block.c"], ["recursive-descent reader over a NUL terminated text", "string unescaping with escape validation"]),
P("P13", "Dictionaries behave as an ordered map under every operation history",
  "After any sequence of additions, replacements and removals a lookup returns the value last stored for the key, or nothing, the count is the number of stored pairs, and iteration visits every pair once in key order. Duplicate keys added on purpose are all kept, and removal takes one of them away, reporting whether the key was there.",
  ["inputs", "histories"], "all operation sequences and keys within the bound, case-sensitive and case-insensitive",
  "Tests insert random keys and check only counts and a few lookups; removal with rebalancing or duplicates is barely exercised.",
  [B+"dict.c"], ["AA-tree insertion, skew/split and deletion by neighbour replacement", "comparison function chosen by the case flag"]),
P("P14", "Dictionary copies are independent and memory is released exactly once",
  "A hard copy of a dictionary has equal content and the same letter-case rule, and later changes to one are never seen in the other, also for nested dictionaries; a soft copy shares them. Whatever combination of copied, borrowed and adopted keys and values is stored, everything the dictionary owns is freed exactly once when its last reference goes.",
  ["inputs", "histories"], "all ownership flag combinations, copies and reference counts over small dictionaries",
  "Tests run a few fixed combinations under valgrind-free conditions; ownership mistakes pass them unnoticed.",
  [B+"dict.c"], ["per-node ownership flags", "reference count freed at zero", "recursive duplication"]),
P("P15", "Text blocks hold exactly the bytes appended, in order",
  "A block's content is the concatenation of everything appended since it was cleared, its size is the sum of the sizes, and its text view is always terminated, however large or numerous the pieces and including appending a block to another. Truncating and clearing keep exactly the requested prefix.",
  ["inputs", "histories"], "all append/remove/clear sequences and piece sizes within the bound",
  "One test appends fixed strings.",
  [B+"block.c"], ["geometric growth before each append"]),
P("P16", "Pointer lists keep exactly the elements added and not removed",
  "Adding, removing, counting, filtering and iterating a pointer list agree with a plain set-with-repetition of pointers after every operation, and every operation terminates and releases what it drops.",
  ["histories"], "all operation sequences over small lists",
  "No test removes or filters list elements in all positions.",
  [B+"ptr_list.c"], ["singly linked list rebuilt on add and remove"]),
P("P17", "Clients receive exactly the body the handler wrote, correctly framed",
  "Whatever pieces a handler writes, the client gets one header block followed by a body that, read by the announced framing (length, chunked, or until close), is exactly those bytes in order; answers to header-only requests carry none. A handler that announces a length is expected to write that many bytes. This holds when the connection accepts only part of each write.",
  ["inputs", "histories", "fault_sequences"], "all sequences of writes and flushes, all piece sizes around the internal buffer size, all request kinds and partial-write patterns",
  "Tests write small fixed bodies through a connection that always accepts everything.",
  [B+"response.c"], ["output buffer flushed when full", "chunk header per flush", "partial-write loop"]),
P("P18", "Connections are kept open exactly when both sides can go on",
  "After a response the connection is kept only if the client's protocol version and connection header ask for it, the server did not forbid it, and the end of the body is visible to the client (length announced and fully sent, or chunked); otherwise it is closed. A response that announces closing is followed by closing, and HTTP/1.1 clients are told when the connection will be closed.",
  ["inputs", "configurations"], "all protocol versions, connection headers, lengths announced and bytes written",
  "Tests check two or three combinations.",
  [B+"response.c", B+"request.c"], ["keep-alive predicate on the request", "length versus sent bytes at response end"]),
P("P19", "Response head carries the chosen status, headers and cookies, nothing else",
  "The head sent to the client is a valid status line for the chosen code followed by each header and cookie that was set (texts without line breaks), one per line, ended by one blank line, with the announced length equal to the one set. Building a cookie from any name, value, path, domain and lifetime never overflows: it is either sent whole or refused. The Date names the present second, and a cookie with a lifetime ends that many seconds from now.",
  ["inputs"], "all status codes, header sets and cookie attributes, of any size",
  "Tests set a couple of headers and cookies of ordinary size.",
  [B+"response.c"], ["status text table", "bounded formatting of the cookie line"]),
P("P20", "A failing connection ends the response cleanly",
  "If the connection refuses or breaks at any point while a response is sent, sending stops with an error verdict, nothing is sent twice or skipped before the failure, and the request ends in a closed connection without memory errors, leaks or endless retries.",
  ["fault_sequences"], "every position and kind of write failure",
  "No test makes a write fail.",
  [B+"response.c", B+"request.c"], ["error result of the connection write propagated by flush"]),
P("P21", "A session belongs only to the client that presents its identifier",
  "A request joins an existing session only when its session cookie value is exactly the identifier of a stored session; otherwise it gets a new session with a fresh identifier of fixed form made from 32 random bytes, announced in its response once it holds something. What a request stores in its session is seen by later requests with that identifier and by no others, and an emptied session is forgotten.",
  ["inputs", "histories"], "all cookie headers and stored identifiers, all small sequences of requests",
  "Tests follow one browser with one session.",
  [B+"request.c", B+"sessions.c", B+"sessions_mem.c", B+"response.c"], ["cookie scan and lookup in the store", "random identifier generation", "save or remove at request end"]),
P("P22", "Session stores keep, replace and delete what they are told",
  "In every session backend a saved session is returned by a later lookup with the same identifier with equal content, saving again replaces it, removing it makes lookups fail, and other identifiers are unaffected. Identifiers and data from the outside cannot alter the store's commands.",
  ["inputs", "histories"], "all small sequences of save, get and remove, with arbitrary identifiers, for the memory, SQL and key-value backends",
  "The backend tests store one session each and never delete it.",
  [B+"sessions_mem.c", B+"sessions_sqlite3.c", B+"sessions_redis.c", B+"sessions.c"], ["upsert keyed by identifier", "null data means delete"]),
P("P23", "Websocket messages are sent whole in valid frames of every size",
  "Sending a websocket message of any length puts on the wire a frame header announcing exactly that length with the requested type, followed by every payload byte unchanged, and reports the bytes sent or an error. Formatted messages carry the complete text.",
  ["inputs"], "all payload lengths (including 125/126/127, 65535/65536 and buffer multiples) and types",
  "Tests send messages of a few short lengths.",
  [B+"websocket.c"], ["three length encodings", "copy loop through a fixed buffer"]),
P("P24", "Websocket input is decoded exactly and safely for any peer",
  "For any sequence of client frames, arriving in any pieces, the application reads exactly the unmasked payload bytes and frame types the client sent; pings are answered with their payload, closes end the connection. Frames with impossible lengths, oversized pings and truncated frames end in an error or a close, never in a memory error or endless loop.",
  ["inputs", "histories", "fault_sequences"], "all frame bytes, lengths, masks and read splits within the bound",
  "Tests send a few well-formed masked frames.",
  [B+"websocket.c"], ["header decoding with 7/16/64 bit lengths", "running mask position and bytes-left counter"]),
P("P25", "Websocket upgrades only answer valid requests, and have one orderly end",
  "The connection is upgraded only if the request asks for a websocket upgrade with the supported version and a key, and then the answer carries the accept token derived from exactly that key and the subprotocol asked for. Otherwise no websocket is created and an ordinary response can still be sent. The callback set last is called with the current user data, not again once it asks to close, and is told of the end exactly once while the request still exists; user data is released exactly once, when it is replaced or at the end, by its own function; a handler that announces a websocket it did not make is an error.",
  ["inputs"], "all combinations of the upgrade headers and key values",
  "Tests perform one valid handshake and one or two invalid ones.",
  [B+"websocket.c", B+"codecs.c"], ["header checks before creation", "hash of key and fixed text"]),
P("P26", "Requests go to the first handler that takes them, failures to the error page",
  "Handlers are tried in the order they were added until one takes the request, the others never run, and if none does the client gets a not-found answer. Verdicts of internal error, forbidden and not implemented each produce the answer with the matching status code, unless the handler already began its own answer; there is always exactly one answer.",
  ["inputs", "configurations"], "all chains of handlers and verdicts within the bound",
  "Tests cover single handlers and one fallthrough.",
  [B+"handler.c", B+"request.c", B+"onion.c"], ["linked handler chain", "verdict to error handler mapping"]),
P("P27", "URL rules dispatch on the whole current path and pass on the rest",
  "A URL table serves a request with the first rule whose pattern matches the remaining path, anchored at its start, plain rules matching exactly; the matched part is consumed for nested tables and captured groups appear as numbered values. Values of groups can not be replaced by the query of the client. When the handler of a matched rule declines, the handler after the table gets the path as it was, and the path pointer never leaves the request path.",
  ["inputs", "configurations"], "all rule sets, paths and match results within the bound",
  "Tests use a handful of fixed rules and paths.",
  [B+"url.c", B+"handlers/path.c", B+"request.c"], ["string versus regex rules", "path advance bounded by the full path"]),
P("P28", "Static exports never serve anything outside the exported directory",
  "Whatever path a client asks for and wherever symbolic links lead, a file or listing is produced only if its resolved location is the exported directory or lies below it. Anything else is answered without opening it. Names in listings appear only as text, whatever characters they have, and hidden or vanished entries are not listed.",
  ["inputs", "configurations"], "all request paths, exported directories and link resolutions within the bound",
  "Tests ask for existing files and one '..' path; sibling directories sharing a name prefix are not tried.",
  [B+"handlers/exportlocal.c", B+"shortcuts.c"], ["path resolution then prefix comparison"]),
P("P29", "WebDAV touches only permitted paths below its root",
  "Every file created, read, moved, copied or deleted through WebDAV, including move destinations, lies inside the configured root after resolution and was granted by the permission callback for that operation. A refused request changes nothing.",
  ["inputs", "configurations"], "all methods, paths and destination headers within the bound",
  "No test drives WebDAV.",
  [B+"handlers/webdav.c"], ["permission check before each method", "default check by resolved prefix"]),
P("P30", "File responses send exactly the requested bytes of the file",
  "Serving a file sends its current content with the right length; a valid range request gets exactly those bytes with matching range and length headers, an unsatisfiable or malformed range never sends bytes from outside the file, and an unchanged validator gets a bodiless not-modified answer. No header the client sends can overflow a buffer. Moving an uploaded file to another file system removes the original only once every byte was copied.",
  ["inputs", "fault_sequences"], "all file sizes, range and validator headers and short reads within the bound",
  "Tests fetch whole files and one range.",
  [B+"shortcuts.c"], ["range header parsing against the file size", "bounded etag building"]),
P("P31", "Protected content is reached only with accepted credentials",
  "The handler behind basic authentication runs only when the credentials in the request were accepted by the authentication service or the session is already logged in; every other request, however malformed its authorization header, gets the authentication challenge and nothing else.",
  ["inputs", "fault_sequences"], "all authorization headers, sessions and authentication results",
  "No automatic test runs the authentication handler.",
  [B+"handlers/auth_pam.c", B+"codecs.c"], ["header decode, service call, session flag"]),
P("P32", "Event slots fire, expire and are released exactly once",
  "Every descriptor registered with the event loop is served while it is registered, is shut down when its timeout elapses without activity (within the one-second granularity of the loop), and has its release callback run exactly once however it ends: by removal, by its own verdict, by timeout or at loop shutdown. Registering and removing any sequence of descriptors never loses or mixes up others.",
  ["histories", "schedules", "inputs"], "all small sequences of add, remove, activity and clock values",
  "Tests add a few descriptors and wait in real time.",
  [B+"poller.c"], ["linked slot list", "deadline list scan", "release on remove"]),
P("P33", "File types follow the extension and type tables are read safely",
  "The content type of a path depends only on its final extension, with a default for unknown ones, and any type table file, whatever its content, is read without memory errors.",
  ["inputs"], "all paths and table texts within the bound",
  "Tests look up a few extensions in the system table.",
  [B+"mime.c"], ["line parser with fixed token buffers", "dictionary keyed by extension"]),
P("P34", "Logging never corrupts memory or loses its bounds",
  "Any log call with any message, file name and level writes one bounded line and never overflows its buffer.",
  ["inputs"], "all file names, levels and message lengths around the buffer size",
  "Tests log short messages.",
  [B+"log.c"], ["bounded formatting into a stack buffer"]),
P("P35", "Version compatibility follows semantic versioning",
  "A program is told it is compatible exactly when its major version equals the library's and its minor version is not newer; patch levels do not matter.",
  ["inputs"], "all version triples",
  "Tests check a few triples.",
  [B+"version.c"], ["comparison of three numbers"]),
P("P36", "Shared dictionaries and sessions stay consistent under threads",
  "Dictionaries shared through reference counting and the session table used from several server threads behave as if operations happened one at a time: nothing is freed while referenced, freed twice or leaked, and no update is lost, whatever the interleaving. Responses made at the same time by several threads carry each their own current date and cookie lifetimes.",
  ["schedules"], "all interleavings of the locked sections of two threads with a few operations each",
  "The thread tests run a few random interleavings.",
  [B+"dict.c", B+"sessions_mem.c", B+"sessions.c", B+"response.c"], ["reference mutex", "read/write lock taken by users of the dictionary"]),
P("P37", "Server set-up and tear-down release every resource once",
  "Creating a server, adding listen points, setting handlers and data, and freeing it in any order releases every listen point, handler chain, session store and user datum exactly once and nothing twice. A listen point reads and writes through the connection exactly the bytes it is given or reports an error. The server listens with exactly what was set: hosts, ports, certificates (which make the first listen point secure, keeping its name), limits and root urls; SIGINT and SIGTERM stop it; and if a user was set, connections are attended only after its privileges were dropped, or listening fails. A request whose handler yields stays open and usable until its owner releases it.",
  ["histories", "fault_sequences"], "all small set-up sequences and system call results",
  "Tests set up one or two fixed servers.",
  [B+"onion.c", B+"listen_point.c", B+"http.c"], ["null terminated listen point array", "default close of the socket"]),
P("P38", "TLS connections deliver and accept bytes only through the secured session",
  "Every byte read from or written to a secure connection goes through its established TLS session, errors and interruptions are reported as closed connections or retried as documented, and failed handshakes never produce a usable request or leak the session. Data that was received, of requests and websockets alike, is attended without waiting for more, and a session that ends well is ended towards the client.",
  ["fault_sequences"], "all results of the TLS library calls",
  "Tests make one successful TLS request.",
  [B+"https.c"], ["session created at accept", "read/write wrappers"]),
P("P39", "Templates and packed files answer exactly what their sources say",
  "The C source that otemplate produces writes, when run, the literal text of the template byte for byte in its order, the HTML-quoted values of its variables, and exactly the parts that its conditions, loops and blocks select, whatever the text, the nesting, the length of the lines and the values; templates with unknown, incomplete or unbalanced tags, and files that can not be opened, are errors, never crashes or partial output taken as good. The handlers that opack produces answer exactly the content, length and type of the packed files, for any content, size and name, and directories answer only the files they have. The header of assets keeps every line it had and gets each new declaration once.",
  ["inputs"], "all template texts and file contents within the bound",
  "Tests compile a few example templates.",
  ["tools/otemplate/parser.c", "tools/otemplate/tag_builtins.c", "tools/otemplate/variables.c", "tools/otemplate/functions.c", "tools/otemplate/list.c", "tools/opack/opack.c", "tools/common/updateassets.c"], ["character-by-character template scanner", "escape of every byte in the generated literal"]),
P("P40", "C++ bindings expose the same behaviour with correct ownership",
  "The C++ wrappers pass every call and value to the C library unchanged. Copies and assignments of an Onion::Dict share the dictionary and keep it alive, hard_dup does not share; a missing key gives the default, has()==false, or key_not_found. A C++ handler given to C is destroyed exactly once with it, its status is returned as it is, HttpException and its subclasses are answered with their text and code (404 for HttpNotFound), HttpRedirect redirects, and any other exception is an internal error; nothing is thrown through C. Urls, listen points and servers have exactly one owner, also after being moved or added. The response stream writes exactly the bytes given.",
  ["histories"], "all sequences of wrapper operations",
  "Tests run a few scenarios.",
  ["src/bindings/cpp"], ["owning and non-owning smart pointers around the C objects"]),
P("P41", "Ready-made handlers answer exactly what they were given",
  "The static handler and static url rules answer exactly the text and status code they were given, for every text and code of any length, and only where their rule matches; the one-call answers (text with code and extra headers, redirects, JSON) do the same; the packed-data handler answers exactly its bytes with their length on its own path, and lets every other path go on; the internal status page shows request data only as quoted text, so that no header of the client becomes markup.",
  ["inputs"], "all texts, codes, paths and headers within the bound",
  "Tests use one fixed text.",
  [B+"handlers/static.c", B+"handlers/opack.c", B+"handlers/internal_status.c", B+"url.c", B+"shortcuts.c"], ["stored text and code", "exact path comparison", "quoting in the status page"]),
P("P42", "All memory goes through the configured allocation functions",
  "When the program sets its own allocation functions (for example of a garbage collector), every block that the library takes from them is given back to them exactly once, nothing else is, and no block of theirs is given to the functions of the system, whatever is parsed, answered, stored or released; each wrapper calls exactly the configured function with exactly its arguments; allocations that can fail return nothing on failure, and the others call the failure function with a message instead of returning.",
  ["histories", "inputs", "fault_sequences"], "the histories and inputs of the other properties with replaced allocation functions",
  "No test replaces the allocation functions.",
  [B+"low.c", B+"handlers/exportlocal.c", B+"handlers/webdav.c", B+"request.c", B+"dict.c"], ["wrappers around function pointers", "adopted values of dictionaries"]),
P("P43", "Requests on one connection are answered in order and never mix",
  "On a connection that is kept open every request is handled and answered exactly once, in order, as if it were the only one: nothing of an earlier request (method, path, query, headers, form fields, files, body, cookies, session, errors) is seen while a later one is handled. Bytes after the end of a request belong to the next one whatever packets they arrive in, empty lines between requests are skipped, and a request whose body the server can not delimit (a transfer encoding) is refused, never read as further requests.",
  ["inputs", "histories", "schedules"], "all sequences of requests of every body kind within the bound, and the packets they arrive in",
  "Tests send one request per connection, or a few fixed ones each in a packet of its own.",
  [B+"http.c", B+"request.c", B+"request_parser.c"], ["request cleaned after each answer", "reader that goes on with the rest of the packet", "body kind chosen from the headers"]),
P("P44", "Images are answered complete, or the error is told",
  "An image answered as PNG or JPEG reaches the client as exactly the bytes its encoder made from exactly the lines of the image, whatever its size, its pixel format, the pieces in which the encoder puts them out, the length of the head and the kind of connection; HEAD gets the head only. An image that can not be encoded is answered with an error status when nothing was sent yet, never ends the process and never leaves the request to another handler once an answer has begun. Every encoder is released.",
  ["inputs", "faults"], "all small images, pixel formats, failure points of the encoder and the connection within the bound, sizes around the internal buffer and beyond 4 GiB",
  "No test makes an image.",
  [B+"extras/png.c", B+"extras/jpeg.c", B+"response.c"], ["encoder output written through the response or straight into its buffer", "errors that leave by a long jump"]),
P("P45", "WebDAV tells the true properties of resources and changes only what is asked",
  "A PROPFIND for an existing resource is answered with one well-formed multi-status document that has one response for the resource and, at depth 1, for each visible entry of a directory, each under an address that leads a client back to that very resource whatever bytes are in its name. Each response gives, under the success status, exactly the properties that were asked for and the resource has, with their current values (type, length, dates, entity tag, content type, executable), the other known ones that were asked as not found, and nothing else; a request for all properties, or without body, gets them all. A missing resource gets not found. PROPPATCH changes only the executable bits of the one file, as asked, and reports success only if they were changed.",
  ["inputs", "faults"], "all sets of properties, kinds of resource, names within the bound and outcomes of the file operations",
  "No test drives WebDAV.",
  [B+"handlers/webdav.c", B+"shortcuts.c"], ["mask of asked properties read from the request document", "two property sets written per resource", "address made of the request path and the entry name"]),
]
