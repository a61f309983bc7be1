SETUP = "python3 check.py build asan && python3 check.py build sched"
MC = "stateless explicit-state model checking of the real code: "

prop("P01", "How the client's bytes are cut into reads never changes the outcome",
     "For every client message and every way its bytes may arrive in pieces, the server sees the same request (method, path, query, headers, cookies, fields, files, body), gives the same answer and keeps or closes the connection alike as when the message arrives whole. A message refused whole is refused however it is cut, and no piece makes a handler run early.",
     ["inputs", "schedules"], "every message of a corpus reaching every parser state x every pair (thorough: triple) of cut points, byte by byte delivery with merges, and equal pieces",
     "A test feeds a message in one or a few hand-picked cuts; tokens, folded headers, escapes and boundaries can be split at any byte.",
     ["src/onion/request_parser.c", "src/onion/request.c", "src/onion/http.c"], [m("resumable token and state machine parser", "request_parser.c: onion_request_write0, token_*, parse_*")],
     MC + "exhaustive enumeration of segmentations, differential oracle (unsplit delivery)", "All 2-cut segmentations of a corpus of messages are executed on the real parser through a real listen point; thorough adds 3 cuts.", ["handler view of the request", "bytes of the answer", "open/closed connection"])

prop("P02", "A well formed request reaches the handler exactly as the client meant it",
     "Method, decoded path, query parameters, header fields (case-insensitive, folded lines joined), cookies, preferred language, form fields and raw body that a handler reads are exactly those the client encoded, in number, order and bytes. Unknown methods and malformed request lines are never taken for something else.",
     ["inputs"], "every string over the structural alphabet of each element (targets, parameter lists, header blocks, cookies, bodies, request lines) up to the bound and every byte value in context",
     "Tests decode a few dozen sample requests; encodings interact (escapes, plus signs, repeated keys, empty values, folding) over unbounded inputs.",
     ["src/onion/request_parser.c", "src/onion/request.c", "src/onion/codecs.c"], [m("query, form, header and cookie parsers", "request_parser.c, request.c: onion_request_parse_cookies, onion_request_get_language_code")],
     MC + "exhaustive bounded input enumeration against reference decoders", "Every string of the bounded grammar is sent to the real parser and compared with an independent decoder.", ["request accessors"])

prop("P03", "No bytes from a client crash, hang or leak in the server",
     "Whatever bytes a client sends, and wherever it stops, the server reads and writes only its own memory, every step terminates, and once the connection is gone the memory, descriptors and temporary files it used are released. Overlong elements are refused, not truncated into something else.",
     ["inputs", "fault_sequences"], "every single edit (thorough: two near edits) of every corpus message at every byte, every short byte string after every protocol prefix, every element at every length around the internal limits, lying lengths, each followed by a disconnect",
     "Tests send a handful of broken messages; the hostile space is every byte string.",
     ["src/onion/request_parser.c", "src/onion/request.c", "src/onion/listen_point.c", "src/onion/http.c"], [m("bounded token buffer, size checks, release on connection close", "request_parser.c token_*, request.c onion_request_free/clean")],
     MC + "exhaustive neighbourhood enumeration under AddressSanitizer with resource balance oracle", "Within the edit and length bounds no input is skipped; a violation is a sanitizer report, a hang or a resource that is not given back.", ["memory, descriptors, temporary files after the connection"])

prop("P04", "Configured maximum post and file sizes are enforced exactly",
     "A body, set of form fields or uploaded file within the configured limits is accepted whole, and one that exceeds them is refused with the connection closed and no handler called. Memory and temporary disk space used by a connection stay bounded by the limits at every moment, whatever length the client declares.",
     ["inputs", "configurations"], "limits x every length around the limit x kinds of body x piece sizes x lying or overflowing declared lengths",
     "Tests check one or two sizes at one limit; off-by-one, double counting and integer overflow need every boundary.",
     ["src/onion/request_parser.c", "src/onion/onion.c"], [m("size checks before storing", "request_parser.c: prepare_*, parse_POST_multipart_*, parse_PUT")],
     MC + "exhaustive boundary enumeration with a resource monitor at each step", "Every length in a window around each limit, for each kind of body and piece size.", ["handler called or not", "live memory", "size of temporary files"])

prop("P05", "Uploaded files and fields arrive intact, and temporary files never outlive them",
     "Every multipart or PUT upload is presented with exactly the bytes, name and file name sent, whatever the content looks like (including pieces of the boundary) and however it is cut. Temporary files are private to the request and disappear with it, and an I/O error while storing makes the request fail instead of delivering a partial file.",
     ["inputs", "fault_sequences"], "all contents over boundary characters up to the bound x every cut, sequences of parts, every size around the buffers, every abort point, every single fault of the temporary file",
     "Tests upload a few files; boundary look-alikes, abort points and failing writes are not reachable by samples.",
     ["src/onion/request_parser.c", "src/onion/request.c"], [m("multipart boundary matcher, temporary file handling", "request_parser.c: parse_POST_multipart_*"), m("cleanup of files", "request.c: unlink_files")],
     MC + "exhaustive content/cut/abort enumeration and fault injection on the real code", "All bounded contents, abort points and single faults are executed.", ["files as seen by the handler", "temporary directory", "descriptors"])

prop("P06", "Every response is one well formed, correctly delimited HTTP message",
     "For any sequence of response calls a handler makes, method, protocol version and Connection header, the bytes sent are one HTTP message whose headers precede the body, whose delimiting (length, chunks or close) matches the body the handler wrote, and which has no body for HEAD. The connection is kept only if the client can tell where the message ends, and a short or failed write never loses, repeats or reorders bytes on a connection that stays open. An explicit flush sends everything written so far, and when a handler fails the error is the whole answer or, if part was already sent, the connection ends there.",
     ["programs", "inputs", "fault_sequences"], "all handler programs up to the bound over the response API x client kinds x outcome of each transport write; programs that then fail x 8 error handlers",
     "Tests check a few handlers with a perfect transport; the order of calls, buffer boundaries and short writes multiply.",
     ["src/onion/response.c", "src/onion/handler.c", "src/onion/request.c", "src/onion/listen_point.c"], [m("buffered writer with chunking and delayed headers", "response.c: onion_response_write, onion_response_write_buffer, onion_response_flush, onion_response_free")],
     MC + "exhaustive enumeration of handler programs and write faults, reference HTTP client as oracle", "All programs to the depth bound, every single faulty write.", ["bytes on the wire", "connection state"])

prop("P07", "Requests on one connection are isolated, and each gets exactly one answer",
     "On a kept connection every request is handled and answered exactly as if it were alone on a fresh connection, whatever requests came before. Each request gets exactly one answer, whose status corresponds to what the handler returned (not found, forbidden, not implemented, internal error, or its own code), also with a custom error handler.",
     ["histories"], "all histories of up to 3 (thorough 4) requests out of 23 kinds x piece sizes; every return status x method x version x error handler",
     "Tests run single requests or one fixed pair; leftovers depend on which request preceded.",
     ["src/onion/request.c", "src/onion/request_parser.c", "src/onion/onion.c", "src/onion/http.c"], [m("reset of the request between messages, error handlers", "request.c: onion_request_clean, onion_request_process; onion.c: onion_default_error")],
     MC + "exhaustive history enumeration with a non-interference (alone vs after others) oracle", "All histories to the depth bound on the real connection code.", ["handler view", "answers", "temporary files"])

prop("P08", "Response headers and cookies reach the client exactly as set",
     "Each header the handler sets arrives once, with its last value, in a well formed line; each cookie arrives in its own line with exactly the name, value, expiry, path, domain and flags given, or is refused as a whole if it is too long. A session cookie is sent exactly when the session holds data.",
     ["programs", "inputs"], "all sequences of header/cookie calls up to the bound, every byte value, every attribute combination, every length around the buffers, every status code",
     "Tests set a few headers; truncation, merging and duplication depend on lengths and sequences.",
     ["src/onion/response.c", "src/onion/request.c"], [m("header dictionary and cookie formatting", "response.c: onion_response_add_cookie, onion_response_write_headers")],
     MC + "exhaustive enumeration of header/cookie programs against a model of the calls", "All bounded sequences and boundary lengths.", ["parsed response headers"])

prop("P09", "Dictionaries behave as ordered maps for every history of operations",
     "After any sequence of additions (plain, replacing, duplicating, nested), removals, merges and copies, a dictionary holds exactly the entries that sequence implies: lookups, counts, iteration in key order and case sensitivity agree with the history, and copies are independent of the original. Operations on absent keys change nothing, and memory is neither lost nor freed twice.",
     ["histories"], "all operation sequences to the depth bound; all insertion x removal orders up to 7 keys; removals from trees up to 40 keys",
     "Tests use a few random sequences; balanced tree rotations and duplicates need all orders.",
     ["src/onion/dict.c"], [m("balanced tree with key order", "dict.c: onion_dict_node_add/remove, skew, split")],
     MC + "exhaustive enumeration of operation sequences against an abstract map model, replayed on the implementation", "Explicit enumeration of histories, each model state compared with the real dictionary.", ["get, count, preorder"])

prop("P10", "JSON of dictionaries is well formed, round-trips, and bad JSON is refused",
     "Writing any dictionary of strings and nested dictionaries gives valid JSON that reads back as an equal dictionary. Reading a text gives exactly the dictionary it denotes or is refused: no text that is not such JSON (truncated, unquoted, unbalanced, trailing garbage) is accepted, and no text makes the reader leave its bounds.",
     ["inputs"], "all token sequences up to the bound, all small documents with every deletion, truncation and byte substitution; all small dictionary shapes with every byte in keys and values",
     "Tests parse a few documents.",
     ["src/onion/dict.c", "src/onion/codecs.c"], [m("recursive reader and writer", "dict.c: onion_dict_to_json, onion_dict_from_json, codecs.c: onion_json_*")],
     MC + "exhaustive bounded grammar enumeration against a reference JSON reader/writer", "All token strings in bounds.", ["returned dictionary, text"])

prop("P11", "Text codecs are exact inverses and never leave their buffers",
     "Encoding with base64, URL, HTML, C or JSON quoting and decoding gives back the original bytes, encoded output contains no character that is unsafe in its context, decoders give the reference result or refuse, and stated output size limits are respected. SHA-1 agrees with the standard for every input.",
     ["inputs"], "all strings up to the bound over each codec's structural alphabet, every byte value in context, every length and output limit up to the bound",
     "Tests use random or sample strings without bound checks on malformed input.",
     ["src/onion/codecs.c"], [m("per-character transducers", "codecs.c")],
     MC + "exhaustive bounded input enumeration against reference codecs under AddressSanitizer", "All bounded strings.", ["returned strings"])

prop("P12", "Growable blocks hold exactly what was appended",
     "After any sequence of additions of characters, strings, data, formatted text, other blocks, removals of the last character and clears, a block contains exactly the concatenation implied, terminated when read as text, with the right size, and nothing outside its memory is touched.",
     ["histories", "inputs"], "all operation sequences to the depth over sizes at and around each growth step",
     "Tests append a few strings; growth boundaries need every size.",
     ["src/onion/block.c"], [m("doubling buffer", "block.c")],
     MC + "exhaustive operation sequence enumeration against a string model under AddressSanitizer", "All sequences to depth with sizes around growth steps.", ["data, size"])

prop("P13", "A request reaches exactly the handler its path selects, with the right rest",
     "For any tree of URL, path and chained handlers, a request is answered by the first handler in order of registration whose pattern matches the path, seen at that point with exactly the remaining path, and with the regular expression groups it matched as numbered parameters that a client cannot replace. A handler that declines leaves no trace for the ones after it. If none matches the answer is 404.",
     ["configurations", "inputs"], "all handler trees up to the bound over a set of patterns x all paths up to the length bound over the structural alphabet x query strings",
     "Tests check a few fixed trees; prefix and fall-through interactions depend on the combination.",
     ["src/onion/url.c", "src/onion/handler.c", "src/onion/handlers/path.c", "src/onion/request.c"], [m("regex matching, advance of the path, groups in the query", "url.c: onion_url_handler"), m("chain of handlers", "handler.c: onion_handler_handle")],
     MC + "exhaustive enumeration of handler trees and paths against a reference router", "All bounded trees and paths on the real dispatch code.", ["handler called", "path and groups it sees", "status"])

prop("P14", "Files and directory listings are served byte for byte, with exact ranges",
     "A served file arrives complete and unchanged, or exactly the byte range asked for with matching Content-Range and length, for any size, range and method; a conditional request is answered 'not modified' only if the file did not change. Short or failed system calls and files that change meanwhile never yield wrong bytes that look complete, and the type is the one configured for the extension. A listing names exactly the visible entries, and no name can break out of its place in the page.",
     ["inputs", "fault_sequences", "histories"], "file sizes around every buffer x all ranges around the limits x methods; every Range text up to the bound; every pair (thorough: triple) of faults of read, write and sendfile; every change of the file at every step; histories of changes and conditional requests; all small mime.types; every byte in names",
     "Tests fetch a few small files with a perfect transport.",
     ["src/onion/shortcuts.c", "src/onion/mime.c", "src/onion/handlers/exportlocal.c"], [m("range parsing, etag, copy loop and sendfile", "shortcuts.c: onion_shortcut_response_file"), m("types by extension", "mime.c"), m("listing", "exportlocal.c: onion_handler_export_local_directory")],
     MC + "exhaustive enumeration of sizes, ranges and fault sequences, reference HTTP client and range calculator as oracle", "All combinations in the bounds are executed on the real code.", ["answer bytes", "connection state", "descriptors"])

prop("P15", "Exported directories and shares never reach outside themselves",
     "Whatever path, method or destination a client asks for, and whatever links the tree contains, an exported directory or WebDAV share only reads, lists, creates, changes or removes things that really are inside it; a long path is never taken for a shorter one. Everything inside remains reachable.",
     ["inputs", "configurations"], "a tree with every kind of link x ways to export and mount it x all paths up to the component bound, plain and encoded, x every method, origin and destination, with rename working or failing as between file systems",
     "Tests try one or two '..' paths; prefix look-alikes, links and truncation need the combinations.",
     ["src/onion/handlers/exportlocal.c", "src/onion/handlers/webdav.c", "src/onion/shortcuts.c"], [m("resolved path compared with the exported one", "exportlocal.c: onion_handler_export_local_handler; webdav.c: onion_webdav_default_check_permissions, onion_webdav_move")],
     MC + "exhaustive path enumeration; destructive calls replaced by stand-ins that record the real place touched", "All bounded paths and operations on the real handlers.", ["answers", "recorded calls"])

prop("P16", "WebDAV operations do exactly what they say to the shared tree, or nothing",
     "After any sequence of PUT, DELETE, MKCOL, MOVE and PROPPATCH requests the shared tree is exactly the one those operations imply; one that can not be done answers an error and changes nothing. GET and PROPFIND show exactly that tree: every visible resource once, with an address that leads back to it and its true properties, whatever its name. Broken or missing bodies and headers are answered without effect.",
     ["histories", "inputs"], "all sequences up to the depth of 40 operations over 4 names from 3 starting trees, every byte and length of names, every property set, every single edit of the bodies",
     "There is no automated WebDAV test.",
     ["src/onion/handlers/webdav.c", "src/onion/shortcuts.c"], [m("method handlers", "webdav.c: onion_webdav_put/delete/mkcol/move/propfind/proppatch")],
     MC + "exhaustive operation histories, each step compared with a model of the tree", "Model states are replayed against the real handler and file system.", ["file system", "answers"])

prop("P17", "Moving a file never loses its data",
     "onion_shortcut_rename, used for uploads and WebDAV, either completes (destination complete, original gone) or reports failure with the original intact and the previous destination kept, at whatever system call it fails, is interrupted, or the process stops. There is no moment when the destination holds a partial file or the data exists nowhere.",
     ["fault_sequences", "crash_points"], "sizes around the buffer x destinations x same or different file system x all combinations of up to 3 (thorough 4) faults of its system calls; the state before each call is checked as a crash point",
     "Tests only rename on one file system without faults.",
     ["src/onion/shortcuts.c"], [m("copy and remove", "shortcuts.c: onion_shortcut_rename")],
     MC + "exhaustive fault injection and crash point enumeration", "Every call of every execution is a fault and crash point.", ["content of both files at each step"])

prop("P18", "Nothing behind PAM authentication is reached without accepted credentials",
     "A request gets past the PAM authentication handler only if PAM accepted exactly the user name and password the client sent in that request, both authentication and account checks, or did so before in the same session. Every other request, whatever its Authorization header (missing, truncated, not base64, without colon, any bytes, any length), is answered 401 with a challenge naming the realm and the inner handler is not called. No header crashes the server.",
     ["inputs", "fault_sequences", "histories"], "all credential texts up to the bound over the structural alphabet; every byte value; every single edit of a valid header; every result of each PAM call; realm lengths; all histories of requests of two clients up to the depth",
     "There is no automated test of the PAM handler.",
     ["src/onion/handlers/auth_pam.c", "src/onion/codecs.c", "src/onion/sessions.c"], [m("header decoding, PAM conversation and session flag", "auth_pam.c: onion_handler_auth_pam_handler, authPAM_passwd")],
     MC + "exhaustive enumeration of headers, PAM results and request histories on the real handler with a PAM stand-in", "The PAM library is replaced by a stand-in with known accounts whose calls may fail; the oracle is the account table.", ["inner handler called or not", "status and challenge"])

prop("P19", "Every session backend behaves as a map, also when the storage fails",
     "The memory, sqlite3 and redis session backends all return for an id exactly the data saved last under that id, nothing for ids never saved or removed, keep other ids untouched, and (the persistent ones) still do after being closed and opened again. Keys and values with any byte but NUL, and of any length, come back identical. A storage that fails at any call never crashes, never returns wrong data and never leaks locks or memory.",
     ["histories", "inputs", "fault_sequences"], "all histories of save, get, remove and reopen over 3 ids up to the depth on each backend; every byte and length; every storage call failing",
     "Tests do one save and load.",
     ["src/onion/sessions_mem.c", "src/onion/sessions_sqlite3.c", "src/onion/sessions_redis.c", "src/onion/sessions.c"], [m("backend interface", "sessions.h: onion_sessions_t get, save, free")],
     MC + "exhaustive operation histories against an abstract map, with fault injection at each storage call", "Each history is replayed on the three real backends and compared with the model after each step; the redis server is a stand-in behind the real command formatting.", ["data returned", "calls to the storage"])

prop("P20", "A session cookie gives a client its own session, and nobody else's",
     "The data an application stores in a request's session is seen by later requests that present the cookie it was given, and by no others: only a cookie named exactly sessionid selects a session, an id the server did not give out never becomes valid, ids come entirely from the secure random source and contain only safe characters, and a session is gone once emptied or released. This holds for overlapping requests and when the storage is broken.",
     ["inputs", "histories", "fault_sequences"], "all Cookie headers built from up to the bound of pieces; every single edit of a valid id; every random byte; all histories of session operations of two clients up to the depth on two backends; overlapping requests; failing storage",
     "Tests check one client and one cookie.",
     ["src/onion/sessions.c", "src/onion/request.c", "src/onion/response.c", "src/onion/random-gnutls.c"], [m("cookie lookup, creation and saving of the session", "request.c: onion_request_guess_session_id, onion_request_get_session_dict, onion_request_session_free; sessions.c: onion_sessions_create, onion_sessions_generate_id")],
     MC + "exhaustive enumeration of cookie texts and request histories against a model of the sessions", "Model of clients and sessions replayed on the real request, response and session code.", ["session data seen by handlers", "Set-Cookie headers"])

prop("P21", "Websocket messages are received exactly as sent, however they are cut",
     "A websocket application receives exactly the bytes of each frame the client sent, unmasked, with their type and length, whatever the sizes, masks, sizes of its reads, pieces in which the transport delivers them, and control frames in between. Pings are answered with a pong with the same data; a close is answered and ends the conversation; the end is told to the application. Frames cut short, or with any header bytes, never produce data that was not sent, nor touch memory outside.",
     ["inputs", "schedules"], "all sequences of frames up to the bound x ways to read; every segmentation up to the bound; every truncation; every length at and around each header format and buffer; every value of the header bytes",
     "Tests send a few frames in one piece.",
     ["src/onion/websocket.c"], [m("frame header reader, masking and opcode dispatch", "websocket.c: onion_websocket_read_packet_header, onion_websocket_read, onion_websocket_call")],
     MC + "exhaustive enumeration of frame sequences and segmentations against a reference RFC 6455 decoder", "Every sequence, cut and truncation in bounds is executed on the real code over a controlled transport.", ["data given to the callback", "frames answered"])

prop("P22", "Websocket handshake and sent frames are exact, or the writer is told",
     "A websocket is created exactly when the request is a valid handshake (upgrade asked, version, key), and then the answer carries the accept value computed from the client's key. Every message written, of any length and type, through write, printf or vprintf, reaches the client as exactly one well formed unmasked frame with those bytes, in order; when the transport takes only part the rest follows, and when it breaks the writer gets an error.",
     ["inputs", "histories", "fault_sequences"], "all combinations of handshake headers and values; keys of every length and byte; every message length around each header format and buffer; all programs of sends up to the depth; every short write and break point of the transport",
     "Tests do one handshake and send short texts.",
     ["src/onion/websocket.c"], [m("handshake", "websocket.c: onion_websocket_new"), m("frame writer", "websocket.c: onion_websocket_write, onion_websocket_vprintf, onion_websocket_close")],
     MC + "exhaustive enumeration of handshakes, send programs and transport faults against a reference RFC 6455 client", "All combinations in bounds on the real code.", ["bytes on the transport", "return values"])

SC = "every schedule of the real threads that differs from the default one in at most a bounded number of scheduling decisions"
prop("P23", "The poller delivers each event to one thread at a time, and ends each slot once",
     "With any number of polling threads and whatever arrives, closes, is added or removed meanwhile, every slot with data is called, by one thread at a time, until its data is consumed; its shutdown is told exactly once when the peer goes, when its handler asks, when it is removed, or when the poller is freed, and never while it is being handled. A stop, from anywhere, makes every thread return, and polling can be started again with nothing lost. No memory or descriptors are left.",
     ["schedules", "histories"], "programs of up to 2 (thorough 3) environment actions out of 8 x 1 to 3 polling threads x " + SC,
     "Whether two threads take the same event, or an end and an event cross, depends on the schedule; tests see a few.",
     ["src/onion/poller.c"], [m("epoll one-shot slots, list of slots under a mutex, stop event", "poller.c: onion_poller_add/remove/poll/stop")],
     MC + "bounded exhaustive exploration of thread schedules under a controlled scheduler and virtual kernel", "All schedules up to 3 (thorough 4) deviations; sequentially consistent memory, epoll semantics of the virtual kernel.", ["calls to handlers and shutdown functions", "return of poll"])

prop("P24", "Idle connections are closed when their timeout is over, active ones are not",
     "A connection on which nothing arrives for the configured timeout is closed soon after, whatever other connections do and however many threads there are, and its resources are released; a connection that sends or is being answered is not closed, nor is any when there is no timeout. Resolution is a second: never more than 1 s early nor 2 s late.",
     ["schedules", "histories", "configurations"], "timeouts x threads x up to 3 clients of 7 kinds (silent, stopping halfway, keeping alive, byte by byte, slow handler...) at every combination of moments of a grid, virtual clock, and schedules within the bound",
     "Tests can not wait for combinations of moments, nor control which thread finds the timeout.",
     ["src/onion/poller.c", "src/onion/listen_point.c", "src/onion/onion.c"], [m("timer and timeout limits of slots", "poller.c: onion_poller_timer_check, onion_poller_get_next_timeout; onion_poller_slot_set_timeout")],
     MC + "bounded exhaustive exploration of arrival moments and thread schedules with a virtual clock", "All combinations of the grid; time advances only when no thread can run.", ["moment each connection is closed"])

prop("P25", "Shared dictionaries and sessions stay consistent under concurrent use",
     "When threads use the same dictionary (locked as documented), references to it, or the in-memory session store, every result is one that some order of the operations gives; no update is lost, ids are never given twice, data stays valid while someone has a reference, and everything is freed exactly once at the end.",
     ["schedules", "histories"], "all combinations of operations of 2 threads x 2 operations and of 3 threads x 1 operation x " + SC,
     "Lost updates and use after free need a particular interleaving.",
     ["src/onion/dict.c", "src/onion/sessions.c", "src/onion/sessions_mem.c"], [m("read/write lock and reference count of dictionaries", "dict.c: onion_dict_lock_*, onion_dict_dup, onion_dict_free"), m("store under the lock of its dictionary", "sessions_mem.c")],
     MC + "bounded exhaustive exploration of thread schedules with a linearizability oracle", "Each history must be explained by a sequential order of an abstract map.", ["results of operations", "final contents", "memory"])

prop("P26", "A server starts, stops at any moment, starts again and is freed, leaving nothing",
     "In every mode (one, one loop, poll, pool, detached) listening accepts clients once it says so, a stop from any thread or handler at any moment makes listen return with the ports closed, each client has got either its whole answer or a clean close, the server can be started again and serves as before, and freeing it releases all memory, descriptors and threads. Ports that can not be opened, or any system call that fails while starting, are reported as an error and never crash or hang.",
     ["schedules", "histories", "fault_sequences", "configurations"], "modes x clients x moments of stop x rounds x ports taken by others x every single failing system call x " + SC,
     "Tests start and stop the server at a few moments, always with all system calls working.",
     ["src/onion/onion.c", "src/onion/listen_point.c", "src/onion/poller.c"], [m("start and stop", "onion.c: onion_listen, onion_listen_stop, onion_free; listen_point.c: onion_listen_point_listen/listen_stop/accept")],
     MC + "bounded exhaustive exploration of thread schedules and system call faults under a controlled scheduler and virtual kernel", "Modes, programs and every single fault, each over all schedules within the bound.", ["what clients see", "return of listen", "memory, descriptors, threads left"])

prop("P27", "Requests attended at the same time never mix",
     "When several clients are attended at once by several threads, each gets exactly the answer it would get alone: its own parameters, headers, cookies, form, uploaded file, session, file, type and (correct, GMT) date, and no other. Requests of the same session at the same time never get another session nor lose each other's changes of different keys.",
     ["schedules", "histories"], "all pairs (and triples) of 11 kinds of requests, and pairs (thorough: triples) of requests of one session, x " + SC,
     "Shared static data shows only when two threads are in the same function at the same time.",
     ["src/onion/request.c", "src/onion/response.c", "src/onion/mime.c", "src/onion/sessions.c", "src/onion/listen_point.c", "src/onion/http.c"], [m("per request state; locks around what is shared (mime types, date, sessions)", "request.c, response.c: onion_response_new date, mime.c: onion_mime_get")],
     MC + "bounded exhaustive exploration of thread schedules, each answer compared with the one a lone request gets", "Scheduling points at every lock, system call and access that races in learning runs.", ["answers"])

prop("P28", "HTTPS gives exactly what HTTP gives, and believes only what arrives whole",
     "Whatever the sizes and cuts of the TLS records, the requests the handlers see and the bytes the client gets over HTTPS are the same as over plain HTTP, the requests are reported as secure, and a close is announced in TLS. Data that is cut or changed on the way never becomes a request; clients that are not TLS, leave or stay silent in the handshake are dropped (silent ones at the timeout) leaving nothing. Bad or missing certificates are reported as errors.",
     ["inputs", "histories", "fault_sequences"], "messages of the corpus x all cuts into two records and into equal ones x sizes of bodies and answers around every buffer x every byte of handshake and cipher text cut or changed x every first byte of other protocols x certificates, TLS 1.2 and 1.3",
     "The tests make one small request over HTTPS with curl.",
     ["src/onion/https.c", "src/onion/http.c", "src/onion/listen_point.c", "src/onion/request.c"], [m("handshake, records and end of connections", "https.c: onion_https_request_init, onion_https_read_ready, onion_https_write, onion_https_close, onion_https_set_certificate")],
     MC + "exhaustive enumeration of records, cuts and changes against a real TLS client, compared with plain HTTP", "GnuTLS is taken as right; a socket pair instead of the network.", ["requests seen", "bytes and end the client gets", "memory and descriptors left"])


prop("P29", "Templates compiled by otemplate give what they say",
     "The code otemplate generates for a template always compiles, and renders exactly: the text of the template byte by byte, variables and paths (nothing if they are not set) with HTML special characters escaped, conditions and comparisons, loops with their own scope, includes, and blocks with what the most derived template says. A template that is wrong (bad or unfinished tags, unbalanced ends, missing files) is told as an error and never crashes the tool nor gives code.",
     ["inputs"], "all texts of at most 5 (6) of 10 symbols, all bytes next to those that matter, sizes around buffers, variables, all comparisons of 9 operands, all trees of at most 3 (4) tags in 4 contexts, all redefinitions of three blocks over three levels, 32 errors; with and without original line numbers",
     "The tests compile one template and do not look at most of its output.",
     ["tools/otemplate/parser.c", "tools/otemplate/functions.c", "tools/otemplate/variables.c", "tools/otemplate/tag_builtins.c", "tools/otemplate/tags.c", "tools/otemplate/otemplate.c"], [m("lexer, tags and code of templates", "parser.c: parse_template, write_block; tag_builtins.c; variables.c: variable_solve")],
     MC + "exhaustive enumeration of templates and contexts, compiled with the real tool, run, and compared with an independent renderer", "The compiler is gcc; translations are tested with no catalog.", ["rendered bytes", "exit status of the tool"])

prop("P30", "Files packed by opack are served as they were",
     "For every file, of any size, content and name, the code opack generates compiles and serves exactly those bytes with their length and type, keeping the connection alive. A packed directory serves each of its files at its path, except the hidden ones and backups, and nothing at any other path, whatever the order of options and arguments. The header with the declarations keeps what it had, has each declaration once and compiles, and errors are told in the exit status.",
     ["inputs", "histories"], "all sizes around buffers x 4 contents, all bytes, all subsets of 10 (14) files of a tree x all paths next to them, 21 names in 3 places, 7 sets of arguments with options at any place, all sequences of 3 (4) packings over 9 headers",
     "There are no tests of the contents or of directories.",
     ["tools/opack/opack.c", "tools/common/updateassets.c"], [m("generated functions and directory tables", "opack.c: parse_file, parse_directory"), m("header with the declarations", "updateassets.c")],
     MC + "exhaustive enumeration of trees, sizes, command lines and sequences of runs of the real tool, whose code is run and compared with the files", "Names that make the same C identifier are not packed together.", ["answers", "header file"])


prop("P31", "The C++ bindings give what the C library gives, and free each thing once",
     "Every history of operations on C++ dictionaries (copies, assignments, moves, dictionaries inside of others, JSON) gives the results of shared ordered maps, and every request, response, url, cookie, session and stream operation gives what the C function it stands for gives. Handlers of every kind (functions, lambdas, methods, extended ones) are called with the request and their result or exception becomes the answer: what HttpException says, 404, 500 for anything else, never a crash. Whatever is moved, copied, released or destroyed, each object is freed exactly once, with the server it belongs to still working.",
     ["histories", "programs", "inputs"], "all histories of up to 4 (5) of the operations on 2 and 3 (4) on 3 dictionaries, 17 kinds of handlers x 17 outcomes, urls added in every way, writes to streams of all kinds and sizes around its buffer, all accessors of requests, moves and releases of each kind of object",
     "Ownership depends on which object was moved or copied before; tests use each class once.",
     ["src/bindings/cpp/dict.cpp", "src/bindings/cpp/handler.cpp", "src/bindings/cpp/url.cpp", "src/bindings/cpp/request.cpp", "src/bindings/cpp/response.cpp", "src/bindings/cpp/onion.cpp", "src/bindings/cpp/handler.hpp", "src/bindings/cpp/dict.hpp"], [m("wrappers with ownership of the C objects", "bindings/cpp: Dict, Handler, Url, Request, Response, Onion, ListenPoint"), m("exceptions as answers", "handler.cpp: onion_handler_call_operator")],
     MC + "exhaustive enumeration of histories of the bindings against a model of shared trees and the C functions, under AddressSanitizer", "All histories in bounds on the real bindings and library.", ["results of the operations", "answers", "memory left"])

prop("P32", "All memory goes through the user's routines, and running out of it is told",
     "When the user sets memory routines (onion_low_initialize_memory_allocation), everything the library takes is taken and freed with them: no block of theirs is given to the C library nor the other way, those taken as without pointers hold no pointers, and nothing is left when the server is freed. When any single allocation fails, the user's failure routine is called (and the process aborted if it returns), and never a null pointer used. Threads that onion starts and waits for use the user's thread routines.",
     ["inputs", "fault_sequences", "histories"], "11 handlers x the corpus of messages whole and byte by byte, 11 groups of functions, all sequences of 6 (7) of 8 operations on pointer lists, every single allocation failing in each of 132 of those programs, 6 ways to listen x 1 to 4 threads",
     "The tests use the default routines, for which free and onion_low_free are the same, and memory does not end.",
     ["src/onion/low.c", "src/onion/low_util.c", "src/onion/ptr_list.c", "src/onion/request.c", "src/onion/response.c", "src/onion/url.c", "src/onion/dict.c", "src/onion/handlers/exportlocal.c", "src/onion/handlers/webdav.c", "src/onion/handlers/auth_pam.c"], [m("configurable allocation and threads", "low.c: onion_low_malloc, onion_low_scalar_malloc, onion_low_calloc, onion_low_strdup, onion_low_free, onion_low_initialize_memory_allocation")],
     MC + "exhaustive enumeration of programs and of the allocation that fails, with blocks that the C library can not free", "A single failure per program; blocks of the user are offset from those of the C library, so that a mismatch is detected.", ["calls to the routines", "end of the process", "blocks left"])

prop("P33", "Each message of the log is one whole line, and filters hide only what they say",
     "Every message of the log, of any length and from a file of any name, gives one write of one line with its level, place and text (cut with an ellipsis if it is too long), with colors that end in the line or without any if not asked for, and never reads or writes out of its buffers. The options in ONION_LOG (noinfo, nodebug, nocolor, syslog and their combinations) have the effects they say and no other, and with syslog the message gets the priority of its level.",
     ["inputs", "configurations", "histories"], "all sizes of text and of name of file around the buffers x levels x options, all sequences of up to 3 messages x options, syslog",
     "Tests log a few short messages and do not look at them.",
     ["src/onion/log.c"], [m("line in a buffer and one write", "log.c: onion_log_stderr, onion_log_syslog")],
     MC + "exhaustive enumeration of sizes, sequences and options, each in a process of its own, against a parser of log lines", "Standard error is a socket that keeps each write apart.", ["bytes and writes of standard error", "calls to syslog"])

prop("P34", "Images written as responses are the images the client sees",
     "A PNG response (gray, gray with alpha, RGB, RGBA, and BGR orders) of any size and content decodes to exactly the pixels given, and a JPEG response to an image of that size and nearly those colors, in one correctly delimited answer of the right type, for all versions and methods, with the image of the user untouched. What can not be an image is answered as an internal error, and clients that go away while it is written leave nothing.",
     ["inputs", "fault_sequences"], "all small images over 4 values of 4 (6) samples x formats x orders x kinds of requests, all sizes around the buffers, big ones, every wrong combination of sizes and formats, every write at which the client goes",
     "There are no tests of the images.",
     ["src/onion/extras/png.c", "src/onion/extras/jpeg.c"], [m("libpng and libjpeg writers over responses", "png.c: onion_png_response; jpeg.c: onion_jpeg_response")],
     MC + "exhaustive enumeration of images and faults, decoded by libpng and libjpeg and compared", "libpng and libjpeg are taken as right; JPEG colors within a tolerance.", ["answers", "memory left"])

prop("P35", "The server is what it was configured to be, in whatever order",
     "After any sequence of configuration calls (port, hostname, listen points, certificates, client data, user, error handler, sessions) each setting has its last value, on the listen point it is for, and when it listens every configured port answers, with TLS exactly where a certificate was set. The client data and all that was set is freed exactly once, when replaced or with the server; the user set is the one it changes to, with its groups, after the ports are open and before any client is attended, and if it can not be that user it does not listen. Requests know the address of their client, SIGINT and SIGTERM stop the server and are given back when it is freed, and sockets given by systemd are used instead of opening others.",
     ["programs", "configurations", "fault_sequences", "histories"], "all sequences of 4 (5) of 16 configuration calls, all of at most 3 (4) then listening and asked through each port, 6 modes x 1 to 3 ports x users x each call failing x 1 or 2 starts, clients of several addresses, modes x signals x starts, systemd sockets",
     "The settings depend on the order of the calls; tests use one order, and nobody tests users, systemd or signals.",
     ["src/onion/onion.c", "src/onion/listen_point.c", "src/onion/https.c", "src/onion/request.c"], [m("configuration of the server", "onion.c: onion_set_port, onion_set_hostname, onion_add_listen_point, onion_set_certificate_va, onion_set_client_data, onion_set_user, onion_listen"), m("opening of ports", "listen_point.c: onion_listen_point_listen")],
     MC + "exhaustive enumeration of configuration programs and failures against a model of the settings, with real clients", "The ports and the changes of user are stand-ins that write down what they are asked; signals arrive when the server is waiting.", ["settings", "system calls", "answers", "memory left"])

prop("P36", "A yielded request belongs to whoever it was given to",
     "When a handler returns OCS_YIELD the server does not touch, flush, time out or free that request and response any more, whatever other clients, its client or a stop of the server do meanwhile. What the handler and the thread that goes on with it write, at once or later, arrives whole, in order and correctly delimited, and the connection is closed when that thread frees it. Other clients are attended meanwhile, in all modes, and nothing is left at the end.",
     ["schedules", "histories"], "5 ways of writing before x 6 after yielding x 4 behaviours of the client x versions x 5 ways to get to the handler, other clients, two yielded ones with one or two workers, clients coming and going, stops and new starts meanwhile, modes of one client at a time; all schedules with at most 1 or 2 deviations",
     "Needs a thread that answers later and the right interleaving; no test yields.",
     ["src/onion/handler.c", "src/onion/request.c", "src/onion/poller.c", "src/onion/onion.c", "src/onion/response.c"], [m("detachment from the poller", "request.c: onion_request_process; handler.c: onion_handler_handle; poller.c: onion_poller_get, onion_poller_remove")],
     MC + "exhaustive exploration of the interleavings of the real server with handlers that yield and workers, under a controlled scheduler", "The worker ends the request once the server has let it go, and before the server is freed.", ["answers", "calls on memory that is freed", "descriptors and memory left"])
