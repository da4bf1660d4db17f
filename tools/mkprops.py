#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, in one place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
ENC="include/http/Encodings.hpp"; HS="include/http/HTTPServer.hpp"; WS="include/http/WebSocket.hpp"
MSG="include/weblink/Messages.hpp"; WL="include/weblink/WebLink.hpp"; FS="include/system/FileSystem.hpp"
WF="include/WebFront.hpp"; JF="include/JsFunction.hpp"

p("P01","Percent-decoding is exact for every byte string",
  "Decoding any string replaces exactly every '%' that is followed by two hexadecimal digits (of either case) by the byte they denote and every '+' by a space, and copies every other byte unchanged and in order. It never reads outside the input and never fails.",
  ["inputs"],"all byte strings of all lengths",
  "Tests decode a few fixed strings; truncated escapes, non-hex escapes, upper/lower case mixes, NULs and bytes >= 0x80 at every position are not sampled.",
  [ENC],[("uri::decode",ENC)],["return value of the percent decoder"])
p("P02","Percent-encoding is URL-safe and reversible for every byte string",
  "Encoding any byte string yields only unreserved characters (letters, digits, '-', '_', '.', '~') and '%' escapes of two upper-case hexadecimal digits, leaving unreserved characters as they are and escaping every other byte with its own value. Decoding the result yields the original string; the encoder never reads outside its tables.",
  ["inputs"],"all byte strings of all lengths, including bytes >= 0x80",
  "Tests encode a few ASCII strings; non-ASCII (UTF-8) bytes and the round trip over all strings are not settled by samples.",
  [ENC],[("uri::encode",ENC),("uri::decode",ENC)],["return value of the percent encoder"])
p("P03","Base64 encoding follows RFC 4648 for every input length",
  "The Base64 text of any byte sequence has exactly 4*ceil(n/3) characters: each 3-byte group is mapped to its four 6-bit symbols of the standard alphabet, and a final partial group is completed with one or two '='. The empty input gives the empty text; nothing is read outside the input or written outside the output.",
  ["inputs"],"all byte sequences of all lengths",
  "Tests use three short strings; length residues, empty and one-byte inputs, and the exact output length are not covered for all inputs.",
  [ENC],[("base64::detail::encode / base64::encode / base64::encodeInNetworkOrder",ENC)],["return value of the Base64 encoder"])
p("P04","SHA-1 equals FIPS 180-4 for every message",
  "The digest computed for any message is the FIPS 180-4 SHA-1 digest of that message, for every length including those around the 55/56/63/64-byte padding boundaries. The hexadecimal rendering lists the digest's nibbles from most to least significant.",
  ["inputs"],"all messages of all lengths",
  "A handful of known answers cannot establish the padding for every length residue nor the compression for every block.",
  [ENC],[("crypto::sha1, crypto::sha1String",ENC)],["digest value"])
p("P05","WebSocket opening handshake answers with the RFC 6455 accept key",
  "A GET request whose Connection and Upgrade headers ask for a websocket and that carries a key is answered with status 101, upgrade headers, and an accept value equal to the Base64 of the SHA-1 of the key followed by the RFC 6455 GUID. Without a key or without the upgrade headers, no 101 answer is produced.",
  ["inputs"],"all header lists and key values",
  "Tests check the single RFC example key.",
  [HS,WS],[("websocket::getHashedSecKey",WS),("RequestHandler::handleRequest upgrade branch",HS)],["status code and headers of the response"])
p("P06","Outgoing WebSocket frames are well formed for every payload",
  "Every frame put on the wire is a single final, unmasked frame with the right opcode whose length field is the minimal RFC 6455 encoding of the number of payload bytes that follow, for every payload size, whether the payload is given at once, in two parts, or grown piece by piece after creation. The payload bytes follow the header unchanged and in order.",
  ["inputs","histories"],"all payload sizes (7, 16 and 64-bit length forms) and all sequences of appended pieces",
  "Tests build frames of under 126 bytes; boundary sizes (125/126, 65535/65536) and frames that outgrow their first header are not exercised.",
  [WS],[("Header::setPayloadSize / headerSize, Frame constructors, Frame::addBuffer, Frame::toBuffers",WS)],["buffers handed to the network write"])
p("P07","Incoming frames decode identically under every chunking",
  "For every byte stream that is a frame with any length form, masked or not, and for every way of cutting it into successive receive chunks, decoding completes exactly when the frame's last byte has arrived and yields the opcode and the unmasked payload. Bytes beyond the end of the frame are not consumed by it.",
  ["inputs","histories"],"all frames, all payload sizes, all chunkings",
  "Tests use one 8-byte masked frame cut in at most two pieces; 16/64-bit lengths cut inside the header, three or more chunks and empty chunks are not sampled.",
  [WS],[("FrameDecoder::parse, FrameDecoder::payload, FrameDecoder::reset",WS),("Header accessors",WS)],["completion result, opcode and payload of the decoder"],
  [("decoder state","header bytes buffered, mask phase, payload so far",WS)])
p("P08","Each received message is delivered exactly once and in order",
  "Every complete text or binary frame received on a websocket is handed to the matching handler exactly once, in arrival order, with its exact payload, also when several frames arrive in the same network read; other frame types deliver nothing. A close frame or a network error invokes the close handler and closes the socket.",
  ["inputs","histories","schedules"],"all received streams, chunkings into network reads, and handler configurations",
  "No test feeds received data through a websocket object at all.",
  [WS],[("WebSocket::read completion handler",WS)],["handler invocations, socket operations"])
p("P09","Malformed client messages are rejected without touching foreign memory",
  "For every byte sequence received as a message, interpreting it (message casts, function name and parameters of any supported type) either succeeds or fails with a runtime error; it never reads outside the received bytes and never applies an undefined conversion.",
  ["inputs"],"all byte sequences of all lengths, for every message kind and parameter type",
  "Tests decode well-formed messages and one wrong tuple arity; truncation at every offset and lying length fields are not sampled.",
  [MSG],[("MessageBase::castFromRawData",MSG),("FunctionCall::decodeParameter, FunctionCall::getFunctionName",MSG)],["result or exception, memory accesses"])
p("P10","Parameters survive an encode/decode round trip",
  "Decoding an encoded parameter yields the original value and consumes exactly the encoded bytes, leaving the following parameter intact, for booleans, numbers a double represents exactly (integers up to 2^53), strings up to 65535 bytes, exceptions' texts and tuples of these.",
  ["inputs"],"all values of each supported parameter type",
  "Tests round-trip a few values; booleans, the 255/256 string boundary and all numbers are not covered.",
  [MSG],[("FunctionCall::encodeParameter",MSG),("FunctionCall::decodeParameter",MSG)],["decoded value and remaining data"])
p("P11","Every function call message is self-consistent, however often it is sent",
  "Each invocation of a JavaScript function object sends one message whose header announces exactly the number of parameters (function name included; a tuple counts itself and each of its elements) and the number of payload bytes that follow, and whose payload is the encoding of the name and arguments of that invocation only. This holds for every invocation in any sequence of invocations of the same object.",
  ["inputs","histories"],"all argument values, all invocation sequences",
  "Tests invoke each function object once.",
  [JF,MSG,WS],[("JsFunction::operator()",JF),("FunctionCall::encodeParameter",MSG)],["bytes of the sent frame"])
p("P12","HTTP requests are parsed per RFC 1945 grammar under every chunking",
  "For every byte stream, the parser accepts a request exactly when the bytes follow the request grammar (token method, URI without control bytes, HTTP/digits.digits version, token header names, continuation lines), reports completion exactly at the terminating empty line, and yields the method, URI, version (numbers below 10^8) and ordered header list denoted by the stream. The outcome does not depend on how the stream is cut into reads.",
  ["inputs","histories"],"all byte streams and all chunkings",
  "Tests parse a few requests in one or two chunks; rejection at every position and arbitrary cuts are not sampled.",
  [HS],[("Request::parseSomeData / completeRequest",HS)],["completion result, parsed fields, bad-request error"],
  [("parser state","grammar position, method text, URI, headers",HS)])
p("P13","Connections do not disturb each other",
  "Parsing a request, decoding a websocket frame or serialising a response on one connection neither reads nor changes any state of another: for every interleaving of several connections, each produces what it would produce alone.",
  ["inputs","histories","schedules"],"all interleavings of operations of any number of connections",
  "Tests drive one object at a time, so shared state between instances is never observable.",
  [HS,WS],[("Request, Response, FrameDecoder members (no static mutable state)",HS)],["parsed fields / response bytes of each connection"])
p("P14","Header lookup is case-insensitive and complete",
  "Looking up a header by name finds exactly the headers whose names are equal ignoring ASCII case, in order, the first one when one value is asked for, and containment tests report exactly whether some such header's value contains the (non-empty) text ignoring case.",
  ["inputs"],"all header lists, names and texts",
  "Tests look up a few fixed names in short lists.",
  [HS],[("Headers::getHeaderValue / getHeadersValues / headersContain",HS)],["returned values"])
p("P15","Served files never escape the document root",
  "Whatever the request URI, the path handed to the file system provider is relative, non-empty and free of '..' components, so that it stays under the document root; URIs that are empty, not absolute or contain '..' once decoded are answered 400 without opening anything.",
  ["inputs"],"all request URIs, in every percent-encoded form",
  "Tests request a few ordinary paths; encoded traversal variants are unbounded.",
  [HS,"include/system/NativeFS.hpp"],[("RequestHandler::handleRequest",HS),("uri::decode",ENC),("NativeRawFS::open","include/system/NativeFS.hpp")],["path given to the provider's open"])
p("P16","Responses to file requests carry the right status, body and headers",
  "A GET of an existing file is answered 200 with exactly the file's bytes, their count as Content-Length, the MIME type of the extension and, for an encoded file, its Content-Encoding if the client accepts it and 506 otherwise; a missing file gives 404, HEAD gives no body, other methods 501. A directory path is served as its index.html.",
  ["inputs"],"all requests, file contents, sizes and encodings",
  "Tests use empty mock files and a few names.",
  [HS,FS],[("RequestHandler::handleRequest",HS)],["response status, headers, content"])
p("P17","Responses are serialised as valid HTTP/1.1 messages",
  "The bytes sent for a response are the status line with its code and reason, each header as 'name: value' CRLF in order, an empty line, then the content, for every header list and content. The buffers handed out stay valid and unchanged while other responses are serialised.",
  ["inputs","histories"],"all responses, header lists and contents",
  "Tests inspect one response; header counts, empty contents and interleaved serialisations are not sampled.",
  [HS],[("Response::toBuffers / getStatusResponse",HS)],["buffers handed to the network write"])
p("P18","File extensions map to their MIME types",
  "Every file extension, with or without its leading dot, is mapped to the MIME type registered for it in the supported set (html, css, js, jpg, png, gif, json, pdf, ttf, ico, svg, webp, csv), and every other extension to text/plain.",
  ["inputs"],"all extension strings",
  "Tests check some extensions, not all of them nor all unknown strings.",
  ["include/http/MimeType.hpp"],[("MimeType::fromExtension / toString","include/http/MimeType.hpp")],["MIME type text"])
p("P19","Embedded files are read back exactly, whatever the buffer sizes",
  "Reading an embedded file through any sequence of buffers of any sizes delivers its bytes in order, each exactly once, every read filling the buffer or reaching the end of the file; the end is reported exactly once all bytes were delivered, and no word beyond the stored data is read.",
  ["inputs","histories"],"all file contents and sizes, all sequences of buffer sizes",
  "Tests read with one buffer size; sizes that are not multiples of the storage word are not sampled.",
  [FS],[("File::read / readData / convert",FS)],["bytes returned by successive reads"],
  [("read position","bytes delivered so far",FS)])
p("P20","Combined file systems are searched in declaration order",
  "Opening a file on a combination of file systems yields the file of the first one that has it, asks no later one, and yields none only if none has it.",
  ["inputs","configurations"],"all answers of the combined providers",
  "No test combines providers.",
  [FS],[("Multi::open / openFile",FS)],["providers asked and result"])
p("P21","JavaScript calls reach the registered C++ function with its arguments",
  "A function call message received from a client invokes exactly the registered function of that name, once, with the decoded arguments in order; an unknown name is reported back to the client as an exception message, and a failing decode or a malformed message leaves the server running.",
  ["inputs","histories"],"all registered sets, names, messages",
  "No test dispatches a received call to a registered function.",
  [WF,WL],[("BasicWF::cppFunction, BasicWF::onEvent",WF),("WebLink binary message handler",WL)],["invocation of the registered function, messages sent"])
p("P22","Links are identified uniquely and managed per client",
  "Each connection upgraded to a websocket gets its own link under an identifier no live link uses, the user interface of a client refers to its own link, a closed event of a link removes exactly that one, and using an identifier which no link has fails with an error instead of reaching another client.",
  ["histories"],"all sequences of connections, closings and calls",
  "No test instantiates the top-level object.",
  [WF,WL],[("BasicWF upgrade handler, getLink, onEvent",WF)],["links reachable by identifier"])
p("P23","Log level filtering and sink delivery",
  "A message is delivered exactly when its level is enabled, once to every registered sink and to none that was removed; setting a log level enables exactly the levels up to it, and disabling or enabling one level leaves the others unchanged.",
  ["inputs","histories"],"all levels, sequences of level changes and sink additions/removals",
  "Tests try a few levels and sinks.",
  ["include/tooling/Logger.hpp"],[("log::setLogLevel/set/is, log::info/warn/error/debug, addSinks/removeSinks","include/tooling/Logger.hpp")],["sink invocations"])
p("P24","Hexadecimal dumps render every byte exactly once",
  "The dump of any buffer has one line per 16 bytes with the line's address, the two hexadecimal digits of each byte in order, and a text column with each byte itself or a dot where it is not printable ASCII, reads nothing outside the buffer and restores the stream's formatting flags.",
  ["inputs"],"all buffers of all lengths",
  "Tests dump a few buffers.",
  ["include/tooling/HexDump.hpp"],[("operator<<(ostream&, HexDump), hexDump","include/tooling/HexDump.hpp")],["dump text"])
p("P25","Network buffer views never exceed the memory they were made from",
  "A buffer view made from an array, vector, string or other view covers exactly the bytes of its source (or the requested prefix, never more), and advancing a view by any amount moves it by at most its size.",
  ["inputs"],"all sources, sizes and advance amounts",
  "Tests use the views only incidentally.",
  ["include/networking/BasicNetworking.hpp"],[("buffers::MutableBuffer/ConstBuffer operator+=, BasicNetworking::Buffer","include/networking/BasicNetworking.hpp")],["data and size of a view"])
p("P26","Type-erased functions call their target only with matching types",
  "Calling a type-erased function with deduced argument types equal to its signature invokes the wrapped function exactly once with those arguments and returns its result; any other argument or result type is refused with an invalid-argument error and does not invoke it.",
  ["inputs","programs"],"all wrapped functions and argument values",
  "Tests call a few lambdas.",
  ["include/utils/TypeErasedFunction.hpp"],[("TypeErasedFunction::operator(), call","include/utils/TypeErasedFunction.hpp")],["invocations and results"])
p("P27","URI splitting yields the RFC 3986 components of every absolute URI",
  "Splitting a URI of the form scheme://[user@]host[:port][/path][?query][#fragment] yields exactly those components, empty where absent, for every such URI, copies of the split URI yield the same components of their own text, and nothing depends on URIs split before or on other threads.",
  ["inputs","histories"],"all URIs, all sequences of splits",
  "Tests split one complete URI.",
  [ENC],[("uri::URI",ENC)],["component views"])
p("P28","Each HTTP connection is answered once and then closed or upgraded",
  "On every connection, for every sequence of reads and errors, at most one response is written per request, a malformed request is answered 400, the socket is shut down and the connection released after the response, a failed read or write releases the connection too (unless the operation was aborted), and the socket is handed over exactly once, after the 101 response was sent successfully, for an upgrade and only then.",
  ["inputs","histories","schedules","fault_sequences"],"all received data, chunkings, and network error points",
  "Tests never run a connection's completion handlers.",
  [HS],[("Connection::read / write, Connections::start/stop",HS)],["socket operations and upgrade callbacks"])
p("P29","Handshake, acknowledge and text messages carry exactly their content",
  "The acknowledge message announces the server's endianness in two bytes, the client handshake is recognised with its endianness, and a text command carries its opcode, its length and its text unchanged for every text that the 16-bit length field can describe.",
  ["inputs"],"all texts and opcodes",
  "Tests check message sizes only.",
  [MSG],[("Ack, Handshake, TextCommand",MSG)],["header and payload bytes"])
p("P30","Concurrent writes on one link never interleave their frames",
  "When several parts of the program write to the same client at the same time, the bytes of their frames appear on the wire one whole frame after the other.",
  ["schedules"],"all schedules of concurrent writers",
  "Tests write from one thread.",
  [WS,"include/networking/TCPNetworkingTS.hpp"],[("WebSocket::writeData, Net::AsyncWrite",WS)],["bytes on the socket"])
p("P31","Embedded web assets are the released scripts, intact",
  "The embedded copies of the client script, icon, index page, React, Babel and Jasmine decompress to the released files.",
  ["inputs"],"the embedded assets",
  "Tests check the sizes and a few bytes.",
  ["include/system/IndexFS.hpp","include/system/ReactFS.hpp","include/system/BabelFS.hpp","include/system/JasmineFS.hpp"],[("constant tables","include/system/*FS.hpp")],["bytes served"])
p("P32","Embedded file systems serve exactly the names they contain",
  "Each embedded file system returns the embedded file for exactly its published names, with its declared size and encoding and enough stored words to hold that size, and nothing for every other name.",
  ["inputs"],"all path strings",
  "Tests open the published names and a couple of unknown ones.",
  ["include/system/IndexFS.hpp","include/system/ReactFS.hpp","include/system/BabelFS.hpp","include/system/JasmineFS.hpp"],[("IndexFS::open, ReactFS::open, BabelFS::open, JasmineFS::open","include/system/*FS.hpp")],["result of open"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
