import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
WS="include/http/WebSocket.hpp"; HS="include/http/HTTPServer.hpp"; WF="include/WebFront.hpp"; WL="include/weblink/WebLink.hpp"; MS="include/weblink/Messages.hpp"; JF="include/JsFunction.hpp"; EN="include/http/Encodings.hpp"; FS="include/system/FileSystem.hpp"
p("W01","WebSocket messages are delivered exactly, however their bytes arrive",
"Every complete text or binary message a client sends over an upgraded connection is delivered to the application exactly once, in sending order, with its own type and exact payload, as soon as its last byte has arrived. This holds for every payload length and length encoding, masking key (or none), split of the message into frames, control frames in between, and every way the byte stream is cut into or merged across network reads. Nothing is delivered for a message whose last byte has not arrived.",
["inputs","histories","schedules"],"all sequences of up to 3 frames over boundary payload lengths, masks, opcodes and fragmentations, under all segmentations of the stream (all compositions for short streams, every 1- and 2-point cut plus byte-by-byte around every frame boundary for long ones)",
"The unit tests feed one 14-byte frame in one chunk or cut at 2 chosen points, never a 16/64-bit length, never two frames in a read, never a fragmented message and never through the real receive loop.",
[WS],[("incremental frame decoder","include/http/WebSocket.hpp FrameDecoder::parse"),("receive loop","include/http/WebSocket.hpp WebSocket::read")],["application message handlers"],
[("decoder state","where in a frame the stream currently is","include/http/WebSocket.hpp FrameDecoder")])
p("W02","No byte stream after the upgrade can harm the server",
"No sequence of bytes a client sends after the upgrade makes the server access memory outside its buffers, let an exception escape from its event loop, hang, or allocate memory in proportion to a length that was only announced and never received. While and after such a stream is processed, a well-behaved client on another connection is served exactly as if the hostile one were absent.",
["inputs","schedules"],"all header byte pairs (65536) with every announced length class and truncation, all pairs of hostile frames over a small alphabet, cut at every point, with a concurrent well-behaved client",
"Tests contain no malformed frame at all and no server processing one.",
[WS,WL],[("header completeness and length decoding","include/http/WebSocket.hpp Header/FrameDecoder"),("error handling in the receive loop","include/http/WebSocket.hpp WebSocket::read")],["event loop result","memory sanitizer","allocation counter","other client's wire"])
p("W03","WebSocket sends appear on the wire intact and in call order",
"The bytes the server puts on an upgraded connection after the handshake response are exactly the concatenation, in call order, of one unmasked final frame per send, with the right opcode, the shortest length encoding and the bytes the caller passed at the time of the call. This holds for any mix of text, binary and two-part sends of any sizes, for any timing and chunking of the transport, and even if the caller reuses or frees its data as soon as the call returns.",
["inputs","schedules","histories"],"all sequences of up to 4 sends over boundary sizes and kinds, issued at any point relative to earlier transfers, under every partial-write chunking within a deviation bound",
"Tests send through a mock that copies everything before the call returns, one frame at a time, and never check the wire of two sends in flight.",
[WS,JF,WL],[("frame composition","include/http/WebSocket.hpp Frame"),("asynchronous send","include/http/WebSocket.hpp WebSocket::writeData")],["bytes received by the peer"])
p("W04","WebSocket closing is signalled once and nothing happens afterwards",
"When the peer closes, resets, or a transfer fails on an upgraded connection, the application's close handler runs exactly once; when the application stops the connection itself it runs at most once. After the close notification or the stop, no message is delivered, no further receive is issued and the transport is closed; before it, exactly one receive is outstanding whenever the server is idle.",
["schedules","fault_sequences","histories"],"all interleavings of messages, close frame, end of stream, reset, write failure, application sends and application stop, up to 5 events, on one connection",
"No test drives a socket through an error, an end of stream or a close frame.",
[WS],[("receive loop","include/http/WebSocket.hpp WebSocket::read"),("stop","include/http/WebSocket.hpp WebSocket::stop"),("send completion","include/http/WebSocket.hpp WebSocket::writeData")],["close handler calls","outstanding receives","socket state"],
[("started flag","whether the connection is live","include/http/WebSocket.hpp WebSocket")])
p("H01","Request parsing is independent of segmentation and of other connections",
"What the server answers to an HTTP request depends only on the bytes received on that connection up to the end of the request, never on how they were split into network reads nor on what other connections sent before, in between or after. The answer starts once, and only once, the last byte of the request head has arrived.",
["schedules","inputs"],"all 1- and 2-point splits and byte-by-byte delivery of a set of requests, and all interleavings of the segments of 2 or 3 concurrent connections",
"Tests parse one request given whole on a single parser; no test has two connections in flight.",
[HS],[("incremental request parser","include/http/HTTPServer.hpp Request::completeRequest"),("connection read loop","include/http/HTTPServer.hpp Connection::read")],["response bytes on each client's wire"],
[("parser state","where in the request head the stream is","include/http/HTTPServer.hpp Request")])
p("H02","Request heads are accepted, rejected and decoded by one grammar",
"A request head is accepted exactly when it is: method token, space, target, space, 'HTTP/' digits '.' digits, CRLF, then header lines 'token: value' or continuation lines each ended by CRLF, and an empty line; anything else is answered 400 as soon as the offending byte arrives. For an accepted head the method, target, version and every header name and value (continuations appended) equal what was sent, and header lookup is case-insensitive and returns the first match.",
["inputs"],"from every parser state reachable by a short prefix: every next byte value (0..255) followed by every completion in a characterising set, plus all edits at distance one of a set of valid heads, compared with an independently written grammar",
"Tests cover three valid heads and a few malformed ones; the quantifier is over every byte at every position.",
[HS],[("request state machine","include/http/HTTPServer.hpp Request::completeRequest"),("header lookup","include/http/HTTPServer.hpp Headers")],["parser result","decoded fields","status code on the wire"])
p("H03","Responses reach the wire complete, well-formed and unmixed",
"Every HTTP response on the wire is one status line with the code and its matching reason phrase, the headers, an empty line and a body, and the body length equals the announced Content-Length (no body after a HEAD or a 101). This holds under every chunking and delay of the transport and with any number of responses in flight on other connections, each client receiving exactly the bytes of its own response.",
["schedules","inputs","histories"],"all response kinds (200, 101, 400, 404, 501, 506), bodies of boundary sizes, 1 to 3 connections with overlapping writes under all orders and partial-write chunkings within a deviation bound",
"Tests look at the buffers of one response at a time, before any transfer.",
[HS],[("response serialisation","include/http/HTTPServer.hpp Response::toBuffers"),("asynchronous write","include/http/HTTPServer.hpp Connection::write")],["bytes received by each client"])
p("H04","Each connection gets one answer, then is closed and fully released",
"On every accepted connection the server sends at most one response and then closes it; whether the exchange completes, or the peer ends the stream or resets it at any point, or an accept, read or write fails, all resources of that connection are released and the server keeps accepting and serving others without an exception leaving its event loop.",
["schedules","fault_sequences","histories"],"every placement of end-of-stream, reset, accept error and write error in exchanges of 1 to 3 connections, with every order of transport events within a deviation bound",
"Server and connection classes are never instantiated by the tests; no failure is ever injected.",
[HS],[("accept loop","include/http/HTTPServer.hpp Server::accept"),("connection registry","include/http/HTTPServer.hpp Connections"),("completion of writes","include/http/HTTPServer.hpp Connection::write")],["open sockets","live connections","event loop result"])
p("H05","Upgrade to WebSocket happens exactly when asked for, and exactly once",
"A connection is switched to WebSocket exactly when its request has an acceptable target and is a GET whose Connection header contains 'upgrade', whose Upgrade header contains 'websocket' (both case-insensitive) and which has a Sec-WebSocket-Key; the 101 answer then carries the RFC 6455 accept value for that key. The transport is handed over exactly once, only after the whole 101 answer has been sent, not at all if sending it failed, and the HTTP side neither reads from nor writes to nor closes that transport afterwards.",
["inputs","schedules","fault_sequences"],"all combinations of presence, case and multiplicity of the three headers and method, keys of length 0..70, and every transport schedule and failure of the 101 exchange within a deviation bound",
"Tests compute one accept key on a detached handler; the hand-over is never run.",
[HS,WS,EN,WF],[("upgrade decision","include/http/HTTPServer.hpp RequestHandler::handleRequest"),("hand-over","include/http/HTTPServer.hpp Connection::write"),("accept key","include/http/WebSocket.hpp getHashedSecKey")],["101 response bytes","upgrade callback"])
p("H06","No request can make the server open anything outside its document root",
"For every request target, every path the server asks its file systems to open is relative and stays below the document root when resolved lexically, and with a real directory as root no byte of a file outside it (absent symbolic links inside it) is ever sent. Targets that are not absolute or contain '..' after decoding are answered 400 without opening anything.",
["inputs"],"all targets of up to 6 symbols over an alphabet of path and encoding metacharacters ('/', '.', '..', '%2e', '%2f', '%00', '%25', '\\\\', 'a', '+', '?', '#'), for GET and HEAD, against a recording file system and a real scratch root",
"Tests try two traversal targets.",
[HS,"include/system/NativeFS.hpp",EN],[("target validation","include/http/HTTPServer.hpp RequestHandler::handleRequest"),("percent decoding","include/http/Encodings.hpp uri::decode"),("path joining","include/system/NativeFS.hpp NativeRawFS::open")],["paths passed to the file system","response bytes"])
p("H07","The answer is the one the request, the files and the client's encodings call for",
"GET of an existing file answers 200 with exactly the file's bytes, its Content-Length, the Content-Type of its extension, and Content-Encoding when it is stored encoded; 506 when its encoding is not listed in Accept-Encoding; 404 when it does not exist; a target naming a directory (ending in '/') serves its index.html. HEAD of an existing file answers 200 with the headers GET has when the encoding is accepted but no body, of a missing one 404, any other method answers 501, and a bad target 400.",
["inputs","configurations"],"the full product of methods (9 known plus unknown ones), targets (existing, missing, directory, encoded, percent-encoded, every served extension), file sizes around 0, 511..513, 1023..1025 and 8-byte boundaries, stored encoding and Accept-Encoding variants",
"Tests probe a handful of cells of this table with an always-empty mock file.",
[HS,"include/http/MimeType.hpp",FS],[("request handling","include/http/HTTPServer.hpp RequestHandler::handleRequest"),("file reading","include/system/FileSystem.hpp File::read")],["response bytes"])
p("H08","Served content types match file extensions",
"For every file extension the content type is the registered type of that extension (js and mjs, htm and html, jpg and jpeg, css, png, gif, json, pdf, ttf, ico, svg, webp, csv), with or without the leading dot, and text/plain for every other extension. It is the same whether obtained directly or in the header of a served file.",
["inputs"],"every string of up to 4 characters over lower-case letters (with and without leading dot), all single-character edits and case changes of the known extensions",
"Tests check a few extensions.",
["include/http/MimeType.hpp",HS],[("extension table","include/http/MimeType.hpp MimeType::fromExtension"),("names","include/http/MimeType.hpp MimeType::toString")],["content type string","Content-Type header"])
p("M01","Calls from C++ reach JavaScript with the right function and arguments",
"Every call of a JavaScript function object made by the application puts on that client's wire exactly one binary message which decodes to the function's name followed by the arguments in order with their values (booleans, numbers as doubles, strings of any length up to 65535 bytes), the declared parameter count and payload size matching the content. This holds for every history of calls on the same or different function objects, whatever the sizes of earlier calls, and the bundled JavaScript client executes exactly those calls.",
["histories","inputs","schedules"],"all call sequences up to depth 3 over an alphabet of argument lists (types, arities 0..n, string lengths around 0,1,125,126,127,255,256,65535), transport chunkings within a deviation bound; every distinct message replayed in the bundled client",
"Tests encode each call once, on a fresh object, skip the frame and message headers, and no test decodes with the real client.",
[JF,MS,WS,"include/system/IndexFS.hpp"],[("call encoding","include/weblink/Messages.hpp FunctionCall::encodeParameter"),("call object","include/JsFunction.hpp JsFunction::operator()"),("frame growth","include/http/WebSocket.hpp Frame::addBuffer")],["bytes received by the client","calls executed by WebFront.js"],
[("message under construction","count, size and scratch buffer kept in the function object","include/weblink/Messages.hpp FunctionCall")])
p("M02","Calls from JavaScript run the named C++ function with the sent arguments",
"For every registered C++ function and every call message the bundled JavaScript client produces for it, the function runs exactly once, with each parameter equal to the value sent (boolean, number converted to the parameter type when in its range, string, flat array for a tuple of as many elements), whatever other calls came before on this or other connections. A call to an unregistered name, or one with missing arguments or arguments of another kind, runs nothing; an unregistered name is answered by a function-return message carrying an exception.",
["inputs","histories"],"all signatures of up to 3 parameters over {bool, int, double, string} crossed with argument lists of up to 3 values over boundary values of each kind (messages built by the real client code under node), and call sequences up to depth 3",
"Tests decode single hand-made parameters and never run a registered function.",
[WF,MS,WL],[("parameter decoding","include/weblink/Messages.hpp FunctionCall::decodeParameter"),("function registry","include/WebFront.hpp BasicWF::cppFunction"),("dispatch","include/weblink/WebLink.hpp WebLink")],["arguments seen by the application function","reply messages"])
p("M03","Malformed protocol messages are contained",
"For every binary or text message a client can send, well-formed or not, the server reads no byte outside the message, calls no application function with arguments that were not in the message, lets no exception leave the event loop, and stays able to serve later well-formed messages on the same and on other connections.",
["inputs","histories"],"all messages up to 3 bytes with every first byte, all truncations and all single-byte changes (boundary values in every position) of a set of valid handshake, text and call messages, each followed by a valid call",
"Tests never decode an ill-formed message through the link.",
[WL,MS,WF],[("message casting","include/weblink/Messages.hpp MessageBase::castFromRawData"),("parameter decoding","include/weblink/Messages.hpp FunctionCall::decodeParameter"),("dispatch","include/weblink/WebLink.hpp WebLink")],["memory sanitizer","application function calls","event loop result"])
p("M04","Session start-up and text commands follow the client protocol",
"Each handshake message is answered by exactly one acknowledgement carrying the server's byte order, and only then is the application told that the UI started, once per handshake, so that the acknowledgement reaches the client before anything the application sends in answer. Every script the application injects (up to 65535 bytes) and every log line (up to 65535 bytes) produced while the session is linked arrives as one text command whose declared length and bytes equal the text, in order, and the bundled client executes or prints exactly that text.",
["histories","inputs"],"all event sequences up to depth 4 over {handshake little/big, script of boundary lengths, log line, function call}, on one connection, with every message replayed in the bundled client",
"Tests check the fields of a single detached text command.",
[WL,MS,WF],[("handshake handling","include/weblink/WebLink.hpp WebLink"),("text command encoding","include/weblink/Messages.hpp TextCommand")],["bytes received by the client","UI started callback","client-side effects"])
p("U01","Sessions are isolated: ids, calls and scripts go to the right live client",
"Every upgraded connection gets its own session with an id distinct from all other live sessions; calls and scripts issued through a session's handle are sent only to that session's client, and function calls coming from a client are executed for that client only. Events on one session, including its opening, closing or failing, never change what the others send, receive or execute.",
["histories","schedules"],"all sequences up to depth 5 of {connect, handshake, client call, application call, close, reset} over 3 clients, with transport schedules within a deviation bound",
"The class tying sessions together is never instantiated by the tests.",
[WF,WL],[("session registry","include/WebFront.hpp BasicWF"),("event routing","include/WebFront.hpp BasicWF::onEvent")],["wire of each client","UI handles"])
p("U02","A lost client is noticed and its session is fully retired",
"When a client's connection closes, ends or fails, its session is removed: its socket is released, log lines are no longer mirrored to it, and using its handle reports a connection error to the caller instead of sending or crashing. This holds whatever was in flight at that moment, including when the loss is discovered while the application is running a handler of that session.",
["schedules","fault_sequences","histories"],"every placement of a close frame, end of stream, reset or failing write in session histories of up to 5 events for 1 and 2 sessions, with the handle used before and after",
"No test ends a session.",
[WF,WL,WS,"include/tooling/Logger.hpp"],[("close notification","include/http/WebSocket.hpp WebSocket::onClose"),("session removal","include/WebFront.hpp BasicWF::onEvent"),("log sink removal","include/weblink/WebLink.hpp ~WebLink")],["live sockets and sessions","handle errors","log sinks"])
p("S01","Several servers in one process do not affect each other",
"A process may hold several servers at a time, of the same type, and create and destroy them in any order, including inside a function called by a client of another one. Each serves its own document root on its own port, calls its own functions and starts its own UIs: whatever happens on one server or is half done there (a request, an upgrade or a message of which only a part has arrived, a stalled client, its destruction), the clients of the others receive exactly what they would receive if it did not exist. The application's log lines, which are mirrored to every linked session of the process, are the only exception. A server created after another was destroyed, on the same port, behaves as a first one.",
["histories","schedules","inputs"],"all histories up to depth 5 over two servers and 15 kinds of events, all pairs of cuts of two messages, requests or upgrades, and concurrent work on 2-3 servers under all turns of their loops within a deviation bound",
"No test creates two servers.",
[WF,HS,WS,WL],[("server","include/WebFront.hpp BasicWF"),("request handling","include/http/HTTPServer.hpp Connection"),("message reassembly","include/http/WebSocket.hpp FrameDecoder")],["wire of each client of each server","function calls of each server","UI starts of each server","live sockets"])
p("F01","Files are read back exactly with any sequence of read sizes",
"Reading a file, embedded or native, with any sequence of buffer sizes yields exactly its bytes in order: each read returns as many bytes as the buffer holds or as remain, never touches the buffer beyond what it returns, and once all bytes have been returned further reads return 0 and the end of file is reported.",
["inputs","histories"],"every file size 0..40 (plus sizes around 512 and 1024) and every composition into read sizes up to depth 6 over {0,1,2,3,5,7,8,9,16,512}, for embedded and native files",
"Tests read each file with one buffer size multiple of the word size.",
[FS,"include/system/NativeFS.hpp"],[("embedded read","include/system/FileSystem.hpp File::readData"),("native read","include/system/FileSystem.hpp File::readFStream")],["returned counts and bytes","eof()"])
p("F02","Stacked file systems resolve to the first provider that has the file",
"A file opened through a stack of file systems is the one of the first provider, in declaration order, that has it, and is absent exactly when none has it; every provider is given the document root and the name unchanged, and an encoded or raw file keeps its encoding and content. A native provider opens regular files only.",
["configurations","inputs"],"all stacks of 1 to 4 providers with every assignment of 3 names to providers, plus native providers over a real scratch tree with files, directories and missing entries",
"Tests stack fixed providers and open one name.",
[FS,"include/system/NativeFS.hpp"],[("provider stack","include/system/FileSystem.hpp Multi::open"),("native open","include/system/NativeFS.hpp NativeRawFS::open")],["opened file's content and encoding"])
p("F03","Every embedded asset is served whole and decodes to what it claims to be",
"Each name the bundled file systems offer opens to a file whose stored size, stored data and declared encoding are consistent: the data decompresses completely under that encoding, without trailing garbage, into the expected kind of content. Each name maps to its own asset, with or without a leading slash, and every other name is absent.",
["inputs","configurations"],"every bundled name, every single-character edit of every bundled name, and the complete content of each asset",
"Tests compare some assets' first bytes or sizes; none is decompressed.",
["include/system/IndexFS.hpp","include/system/JasmineFS.hpp","include/system/ReactFS.hpp","include/system/BabelFS.hpp"],[("asset tables","include/system/*FS.hpp open")],["opened file's bytes"])
p("E01","Percent coding is exact and lossless",
"Encoding any byte string yields only unreserved characters and upper-case %XX triplets, with unreserved characters left alone, and decoding it gives back the original. Decoding any string replaces exactly the valid %XX triplets (either case) and '+' and leaves every other character, including malformed or truncated triplets, as it is.",
["inputs"],"all byte strings of length 1 and 2 (65792), and all strings up to length 6 over {'%','0','a','F','g','+','2','/',0x80}, against an independent definition",
"Tests use a few ASCII strings.",
[EN],[("encoder","include/http/Encodings.hpp uri::encode"),("decoder","include/http/Encodings.hpp uri::decode")],["returned strings"])
p("E02","URI splitting is exact and independent of history",
"Splitting a URI of the form scheme://[userinfo@]host[:port][/path][?query][#fragment] gives exactly those fields, absent ones being empty. The result depends only on that URI: any number of URIs split before, valid or not, change nothing, and no string, however malformed, makes splitting throw or read outside it.",
["inputs","histories"],"the full product of presence and small contents of the 7 fields, all strings up to length 6 over {'a',':','/','?','#','@'}, and all ordered pairs of a set of URIs with malformed ones first",
"Tests split 3 full URIs, in one order.",
[EN],[("field splitter","include/http/Encodings.hpp uri::URI")],["URI fields"])
p("E03","Base64 output is the RFC 4648 encoding for every input",
"For every byte sequence the base64 encoding has exactly 4 characters per started group of 3 bytes, is padded as RFC 4648 prescribes and decodes to the input; nothing outside the input is read. Containers of wider elements are encoded as their bytes in memory, or in network order by the network-order variant.",
["inputs"],"all byte strings of length 0..2 (65793), every byte value at every position of lengths 3..12 over varying backgrounds, all lengths 0..130, and element widths 2, 4 and 8",
"Tests encode 4 strings; lengths that are multiples of 3 and 0 or 1 are absent.",
[EN],[("encoder","include/http/Encodings.hpp base64::detail::encode"),("byte order","include/http/Encodings.hpp base64::encodeInNetworkOrder")],["returned string"])
p("E04","SHA-1 digests are correct for every message length",
"The SHA-1 digest and its hexadecimal form equal those of FIPS 180-1 for messages of every length (including every position relative to the 64-byte block and padding boundaries) and content, and for compile-time as well as run-time evaluation.",
["inputs"],"all lengths 0..600 with several contents, every byte value in every position of a block, compared with an independently written implementation checked on the standard vectors; every key length 0..200 through the accept-key computation",
"Tests use 4 messages.",
[EN,WS],[("digest","include/http/Encodings.hpp crypto::sha1"),("hexadecimal form","include/http/Encodings.hpp crypto::sha1String")],["digest"])
p("L01","Log messages reach exactly the active sinks at enabled levels, in order",
"A message logged at a level is delivered exactly once to each sink currently registered, in registration order, when and only when that level is enabled, with its formatted text, level letter and (for debug) source location; disabled levels deliver nothing. Removing a sink never disturbs the others nor the identifiers already handed out, and several sinks added or removed in one call behave as if added or removed one after the other.",
["histories"],"all operation sequences up to depth 5 over {add 1, add 2, remove one or two, set level 0..4, enable/disable one level, log at each level}, compared with a reference list",
"Tests run one fixed add/log/remove sequence.",
["include/tooling/Logger.hpp"],[("sink list","include/tooling/Logger.hpp addSinks/removeSinks"),("level filter","include/tooling/Logger.hpp log")],["texts received by sinks"])
p("L02","Hexadecimal dumps show every byte at its address",
"A hexadecimal dump of any buffer of any element type has one line per started group of 16 bytes, with its address (offset by the start address), each byte as two hexadecimal digits and as its printable character, '.' for bytes below 32 or above 127; the last line is padded, an empty buffer gives an empty dump, two buffers dump as their concatenation, and the stream's formatting state is left as it was.",
["inputs"],"all buffer lengths 0..66 (and every byte value in every column), every split of lengths up to 40 into two buffers, start addresses 0, 1, 15, 16, 0x1000, element sizes 1, 2, 4 and 8",
"Tests dump two fixed buffers.",
["include/tooling/HexDump.hpp"],[("dump","include/tooling/HexDump.hpp operator<<")],["dump text"])
p("T01","A type-erased function calls its target only with matching argument types",
"Calling a type-erased function runs the wrapped callable exactly once, with the very arguments given and returning its result, when the argument types (and the result type for typed calls) match its signature; otherwise it throws and runs nothing. This holds for every kind of callable (function, lambda, mutable functor, std::function, bound member) and for every sequence of calls, with state kept between calls.",
["inputs","histories"],"every pair of stored signature and call signature over arities 0..2 over types {int, double, bool, std::string, const char*} and 3 over {int, bool, std::string}, every kind of callable, and call sequences up to depth 4",
"Tests call a few matching signatures.",
["include/utils/TypeErasedFunction.hpp"],[("dispatch","include/utils/TypeErasedFunction.hpp TypeErasedFunction::operator()/call")],["calls observed by the target","exceptions"])
p("N01","Buffer views cover exactly the memory they are made from",
"A view made over any array, vector, string, string view, raw pointer or other view starts at its first element and spans exactly its bytes, or the requested number of elements (within the address space) if fewer; advancing a view by n bytes moves its start and shrinks it by min(n, size), never past its end.",
["inputs","histories"],"every factory over element sizes 1, 2, 4 and 8, lengths 0..5 and requested sizes 0..7, and all sequences of up to 3 advances over 0..6 and a huge value",
"Tests use the views only implicitly.",
["include/networking/BasicNetworking.hpp"],[("factories","include/networking/BasicNetworking.hpp BasicNetworking::Buffer"),("advance","include/networking/BasicNetworking.hpp operator+=")],["data() and size()"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
