M = [
 ("request parser: check the token size", "P01", "a token fed in small packets was written past its buffer"),
 ("request parser: empty header values", "P01", "an empty header value or a continuation after CRLF read and wrote outside the token"),
 ("request parser: do not loop forever", "P01", "a NUL byte after a header made the parser loop forever"),
 ("request parser: continuation lines", "P01", "continuation lines overflowed the token"),
 ("request parser: keep a line ending", "P02", "a line ending split between two packets changed the meaning of the request"),
 ("request parser: requests without version", "P01", "a request line without version left no query dictionary and crashed handlers"),
 ("request parser: a form dropped", "P01", "a form interrupted half way was freed twice"),
 ("request parser: refuse negative", "P05", "negative or overflowing content lengths were accepted"),
 ("request parser: multipart names", "P01", "multipart names were copied past the form buffer"),
 ("request parser: refuse multipart", "P01", "a multipart field without a name dereferenced NULL"),
 ("request parser: multipart field values", "P06", "values holding bytes that look like a boundary lost bytes"),
 ("request parser: count exactly", "P06", "file sizes were miscounted against the limit"),
 ("request parser: fail when the temporary file can", "P05", "a failed temporary file was ignored"),
 ("request parser: fail when the temporary file of", "P05", "short writes of an upload were ignored"),
 ("request parser: close the temporary", "P06", "the temporary file descriptor of an interrupted request leaked"),
 ("query parser", "P04", "empty segments gave spurious pairs"),
 ("cookies: blanks", "P07", "blanks and cookies without value mixed up the others"),
 ("session cookie: only", "P21", "any cookie whose name ends in sessionid named the session"),
 ("response: skipped content", "P17", "large answers to HEAD looped forever"),
 ("response: the headers go", "P17", "data went out before the headers when the response was freed"),
 ("response: send whole", "P17", "chunk headers sent in parts were cut"),
 ("response: after a failed", "P20", "sending went on after a failed write"),
 ("response: set_length", "P19", "lengths of many digits overflowed the buffer"),
 ("response: cookies that", "P19", "a long cookie was written past the buffer"),
 ("response: adding a cookie", "P19", "a second cookie replaced the first"),
 ("response: the session cookie line", "P19", "the session cookie line had a bad line ending"),
 ("response: count lengths", "P18", "sizes over 4 GiB were cut to 32 bits"),
 ("response: announce", "P18", "the connection was closed without announcing it, or kept after announcing close"),
 ("sqlite3 sessions: removing", "P22", "removing a session kept it with an empty text"),
 ("sqlite3 sessions: release", "P22", "a store that could not be opened leaked and left a half made object"),
 ("redis sessions: removing", "P22", "removing a session was not sent to the server"),
 ("redis sessions: survive", "P22", "a lost connection dereferenced NULL"),
 ("sessions: a request has a session dictionary", "P21", "a failing backend left the request without session dictionary and crashed"),
 ("websocket: announce the length", "P23", "lengths over 65535 were written outside their place in the frame header"),
 ("websocket: send every byte", "P23", "messages of a multiple of 1024 bytes lost their last 1024 bytes, and failures were not told"),
 ("websocket: formatted", "P23", "formatted messages of 511 bytes or more were cut or garbled"),
 ("websocket: frame headers", "P24", "a frame header arriving in two pieces closed the connection"),
 ("websocket: refuse frames", "P24", "negative lengths were accepted"),
 ("websocket: answer every ping", "P24", "empty pings swallowed the next frame, long ones reserved any memory, failed ones sent stack bytes; all leaked"),
 ("websocket: close frames", "P24", "close frames without status or mask blocked or used garbage"),
 ("websocket: reads over", "P24", "reads over several frames returned wrong counts and recursed without bound"),
 ("websocket: use the ping", "P24", "pings were not answered and pongs were, as the codes were wrong"),
 ("websocket: nothing is read", "P24", "frames after the close were delivered"),
 ("websocket: a refused", "P25", "refused upgrades kept the random generator in use"),
 ("websocket: answer the subprotocol", "P25", "the subprotocol was answered in a misspelled header"),
 ("request: forbidden requests", "P26", "a forbidden verdict was answered with status 200"),
 ("request: no error page after", "P26", "an error verdict after the handler wrote something sent a second answer"),
 ("url: when the inside handler declines", "P27", "after a declined rule the next handler saw a cut path"),
 ("path: when the inside handler declines", "P27", "after a declined path handler the next handler saw a cut path"),
 ("url: groups after", "P27", "groups after an optional group that did not match were lost"),
 ("url: the client can not", "P27", "a query parameter named as a group number replaced the group"),
 ("shortcuts: a long Range", "P30", "a long Range header overflowed the etag buffer"),
 ("shortcuts: ranges give", "P30", "ranges past the end, open or malformed sent wrong bytes or wrong lengths"),
 ("shortcuts: only HEAD", "P30", "other methods than GET got an answer without its content"),
 ("shortcuts: file reads may", "P30", "a failing or shrinking file made an endless loop or garbage"),
 ("shortcuts: sendfile may", "P30", "a short sendfile dropped the rest of the file"),
 ("shortcuts: date strings", "P30", "date strings of far times overflowed or were not terminated"),
 ("shortcuts: moving to another", "P30", "a failed copy to another file system removed the original"),
 ("shortcuts: an internal redirect", "P30", "an internal redirect freed the path while using it"),
 ("exportlocal: a directory beside", "P28", "a directory whose name starts as the exported one was served"),
 ("exportlocal: a path that is too", "P28", "a too long path was cut and another file served"),
 ("exportlocal: entries that can not", "P28", "vanished entries were listed with uninitialised data"),
 ("exportlocal: names in the listings", "P28", "file names were written as code in the listing"),
 ("webdav: a path that is too", "P29", "a too long path was cut and another file used"),
 ("webdav: MOVE moves", "P29", "MOVE did not check the destination"),
 ("webdav: a PUT without", "P29", "PUT without content crashed"),
 ("webdav: a PROPFIND without", "P29", "PROPFIND without or with malformed content crashed"),
 ("webdav: the base of the", "P29", "the base path of the answers was wrong or read out of bounds"),
 ("webdav: long paths and", "P29", "long paths overflowed the buffers of PROPFIND"),
 ("webdav: PROPPATCH of", "P29", "PROPPATCH with an empty value crashed"),
 ("webdav: broken links and", "P29", "broken links and sibling directories counted as inside the root"),
 ("auth_pam: malformed", "P31", "malformed credentials crashed the handler"),
 ("auth_pam: long realms", "P31", "long realms overflowed the challenge"),
 ("auth_pam: the page of", "P31", "the challenge page carried a final NUL"),
 ("poller: removing from an empty", "P32", "removing a descriptor from an empty poller crashed"),
 ("poller: negative timeouts", "P32", "negative timeouts expired at once, as did those under a second"),
 ("poller: timeouts set in the same", "P32", "timeouts set in the second of another check were never checked"),
 ("poller: descriptors that can not be polled", "P32", "slots refused by epoll were leaked"),
 ("poller: out of descriptors", "P32", "a poller that can not be created crashed"),
 ("poller: events of descriptors just removed", "P32", "an event of a descriptor removed in the same round used a freed slot"),
 ("mime: long extensions", "P33", "long types were cut and the extensions after them lost"),
 ("mime: the last line", "P33", "the last line without end of line was ignored"),
 ("mime: blanks before", "P33", "blanks before a type were taken as an empty type"),
 ("mime: updating a known", "P33", "updating an extension kept the old type"),
 ("log: long file names", "P34", "long file names overflowed the line buffer"),
 ("log: messages just one", "P34", "messages one byte too long had a NUL inside"),
 ("sessions: the table of the memory", "P36", "the session table of the memory backend was used without lock"),
 ("listen_point: those not listening", "P37", "a listen point that does not listen used and closed descriptor 0"),
 ("listen_point: errors when listening", "P37", "errors when listening were reported as success or leaked sockets and addresses"),
 ("listen_point: connections that can not be polled", "P37", "connections that could not be polled were left open"),
 ("onion: asking for a listen point", "P37", "asking for a listen point of a server without any crashed"),
 ("onion: replaced user names", "P37", "replaced user names and error handlers leaked"),
 ("onion: only threads that were created", "P37", "threads never created were joined, their list leaked"),
 ("onion: a stopped server can listen again", "P37", "a stopped server could not listen again, and stopping did not wait for handlers"),
 ("https: everything is released", "P38", "failed initialisations leaked credentials, parameters and the library"),
 ("https: connections that fail", "P38", "accept or session failures used an uninitialised session; silent clients blocked the server"),
 ("https: data that was received together", "P38", "data left in the TLS session was not processed until more arrived"),
 ("otemplate: a single brace", "P39", "a lone brace, percent or hash ended or lost text of templates"),
 ("otemplate: long lines are not cut", "P39", "generated code was cut at fixed buffers for long texts"),
 ("otemplate: any element of a list", "P39", "removing the only element of a list left a dangling head"),
 ("otemplate: unbalanced or incomplete tags", "P39", "unbalanced or incomplete tags crashed or were accepted"),
 ("otemplate: a value is neither different", "P39", "comparisons with missing values selected the wrong part"),
 ("otemplate: files that can not be opened", "P39", "files that can not be opened crashed or were no errors"),
 ("otemplate: file names are not formats", "P39", "file names were used as formats and copied to fixed buffers"),
 ("otemplate: the template can be read", "P39", "reading the template from the standard input failed"),
 ("otemplate: blocks can be in templates with long names", "P39", "blocks of templates with long names got wrong names"),
 ("otemplate: blocks can be inside loops", "P39", "a block inside a loop called a copy of the code of its function as text"),
 ("otemplate: room for the underscore", "P39", "one byte over the buffer of names that begin with a digit"),
 ("opack: each directory has its own name", "P39", "directories with the same name shared a handler name"),
 ("opack, otemplate: asset files longer", "P39", "asset headers longer than the buffer lost lines"),
 ("opack, otemplate: the assets file is always closed", "P39", "the assets file was left open"),
 ("opack, otemplate: lines that are twice", "P39", "repeated lines of the assets header were lost"),
 ("opack: the handler of a file does not return", "P39", "handlers of packed files returned their size as status"),
 ("opack: file names can have quotes", "P39", "names with quotes gave invalid code"),
 ("opack, otemplate: an assets file of empty lines", "P39", "an assets file of empty lines leaked"),
 ("Onion::Dict assigned to itself", "P40", "self assignment and copies of an empty wrapper used an invalid dict"),
 ("Onion::Dict::fromJSON never frees", "P40", "the parsed dict leaked"),
 ("a moved from Onion::Dict::lock", "P40", "a moved lock unlocked NULL"),
 ("Onion::HttpNotFound answers", "P40", "HttpNotFound was answered with 500"),
 ("exceptions not derived from std::exception", "P40", "other exceptions ended the program"),
 ("moving an Onion::Url", "P40", "a moved root Url freed the url of the server"),
 ("Onion::ListenPoint::release frees", "P40", "a listen point added to a server was freed"),
 ("Onion::HttpListenPoint is never freed", "P40", "an HttpListenPoint that is not added leaked"),
 ("Onion::HttpsListenPoint is never freed", "P40", "an HttpsListenPoint that is not added leaked"),
 ("Onion::Mime::set leaves", "P40", "the mime system used a freed dict"),
 ("flushing the Onion::Response stream buffer", "P40", "a byte 0xff was written"),
 ("the internal status page shows", "P41", "markup in a request header became markup of the status page"),
 ("onion_set_certificate crashes", "P37", "crash when the secure listen point can not be made"),
 ("onion_set_user does not drop", "P37", "connections attended with the privileges the program asked to drop"),
 ("a websocket callback that asks to close", "P25", "a callback that returned OCS_CLOSE_CONNECTION was called again, and its request to close could be lost"),
 ("the last call of a websocket callback", "P25", "the last call of a websocket callback got the request's data already freed"),
 ("export_local gives memory", "P42", "the result of realpath went to the configured free function"),
 ("webdav gives memory", "P42", "the result of realpath went to the configured free function"),
 ("a line end after a multipart form", "P43", "the line end after a multipart form was taken for the start of the next request, which was refused"),
 ("the body of a request sent in chunks", "P43", "the body of a request sent in chunks was executed as further requests"),
 ("a request that arrives together", "P43", "a request in the same packet as the end of the one before was never answered"),
 ("session identifiers are made without", "P21", "when the generator failed, identifiers were made from memory nobody wrote"),
 ("an image that libpng can not write", "P44", "a wrong pixel size, an empty image or any other encoder error ended the process, and the encoder was never released after HEAD"),
 ("large PNG images are read", "P44", "rows beyond 4 GiB were read from the wrong place, and tall images took megabytes of the stack"),
 ("a JPEG image is written past", "P44", "with a head that exactly fills the internal buffer the encoder wrote past its end"),
 ("large JPEG images are read", "P44", "rows beyond 4 GiB were read from the wrong place"),
 ("an image that libjpeg can not write", "P44", "an encoder error was answered as a successful image holding the error text and the request was left to the next handler; errors at creation read unset memory"),
 ("cookies set at the same time", "P36", "localtime() returns one static structure: a thread switched out between it and strftime sent the expiry of the cookie of another thread"),
 ("WebDAV listings give addresses", "P45", "names with %, ?, #, &, < or spaces were put in the listing as they are, so the address led elsewhere or the document was not well-formed"),
 ("WebDAV reports success when", "P45", "PROPPATCH of the executable flag answered 200 though chmod failed"),
 ("a WebDAV request for all the properties", "P45", "an allprop request was answered with no property at all"),
 ("a websocket callback that writes when", "P38", "the callback is told of the end after the session was released, and writing then used the released session"),
 ("the second of two websocket frames", "P38", "two frames in one TLS record: the second waited in the session until more data came"),
]
