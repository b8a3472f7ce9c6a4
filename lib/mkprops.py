import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    P.append(d)
H='include/frnetlib/'
p('C01','Packet values round-trip exactly through a fixed big-endian wire form',
 "Every sequence of supported values (booleans, 8 to 64 bit integers, floats, enums, strings, vectors, maps, pairs and user-packable objects, nested arbitrarily) written into a packet is read back, in the same order and as the same types, as equal values that leave nothing unread, and a container or string read into replaces whatever the target held before. The bytes are the same on every platform: fixed-width big-endian scalars, enums as 32 bits, strings and containers prefixed by a 32-bit big-endian element count, no padding. Writing appends and never changes what was written before; clearing a packet makes it indistinguishable from a new one.",
 ['inputs','histories'],'all value sequences of all supported types, nesting depths, interleavings of writes, reads, seeks and clears',
 'The tests write a handful of values per type and read them with the same build, so a symmetric change of the wire form, a boundary value, or a stale target container goes unnoticed.',
 [H+'Packet.h',H+'NetworkEncoding.h',H+'Packetable.h'],
 [('stream insertion and extraction operators',H+'Packet.h: Packet::operator<< / operator>>'),('byte order conversion',H+'NetworkEncoding.h')],
 [('packet contents','the bytes written so far',H+'Packet.h: buffer'),('read cursor','how many of them have been read',H+'Packet.h: buffer_read_index')],
 ['Packet operator<<, operator>>, add, add_range, add_raw, extract_raw, clear','bytes handed to Socket::send_raw'])
p('C02','Reading a packet never goes outside its data, whatever the bytes claim',
 "For any packet contents and any sequence of reads, relative and absolute seeks and raw extractions, each read either returns data lying wholly inside the packet or throws an out-of-range error, and the read position always stays between 0 and the packet's size (out-of-range seeks are clamped to the nearest end). Length prefixes that promise more than is present are reported by that error, never by memory exhaustion, a crash, or invented values. Bytes-remaining always equals size minus position.",
 ['inputs','histories'],'all byte contents including hostile length prefixes, all sequences of reads and seeks with any argument value',
 'The tests try one or two truncated reads and small seeks; hostile counts, extreme seek arguments and combinations of seeks and failed reads are not reached.',
 [H+'Packet.h'],[('bounds check before extraction',H+'Packet.h: assert_bytes_remaining'),('clamped seeking',H+'Packet.h: set_cursor, seek_cursor')],
 [('read cursor','position of the next byte to extract',H+'Packet.h: buffer_read_index')],['Packet public read API'])
p('C03','Packets arrive intact, in order and exactly once over any byte stream behaviour',
 "Whatever way the transport splits, delays, partially accepts or interrupts the bytes, the packets received on one end of a connection are exactly the packets sent on the other: same contents, same order, none lost, repeated, merged or split. This holds for any packet sizes including empty ones, and when the same packet object is reused for sending or receiving repeatedly: a received packet holds only what was sent, with its read position at the start. Sending never changes the packet.",
 ['inputs','schedules','histories'],'all message sequences, all segmentations of the stream, all partial-write and would-block schedules on either side',
 'Loopback tests see one segmentation the kernel happens to choose and use a fresh packet per message.',
 [H+'Packet.h','src/Socket.cpp','src/TcpSocket.cpp'],
 [('length framing',H+'Packet.h: Packet::send, Packet::receive'),('read until complete','src/Socket.cpp: Socket::receive_all'),('partial write accounting','src/TcpSocket.cpp: TcpSocket::send_raw')],
 None,['bytes handed to send_raw','contents of received packets'])
p('C04','A framed receive is all or nothing and its status tells which',
 "A framed receive (packet, or an exact-size read) reports success only when the complete message was delivered, and reports would-block or timeout only when not a single byte of the message was consumed, so that calling again later loses nothing. Once part of a message was read, a temporary stall is waited out, and a timeout, error or end of stream yields a failure status other than would-block, timeout or success. A framed send reports success only if every byte of the message was accepted by the transport, and reports failure otherwise.",
 ['schedules','fault_sequences'],'every position in a message at which the transport may stall, time out, fail or end, and every combination of those',
 'Tests only disconnect between messages; each byte offset combined with each fault is a separate case.',
 ['src/Socket.cpp',H+'Packet.h'],[('exact-size read','src/Socket.cpp: Socket::receive_all'),('status mapping',H+'Packet.h: Packet::receive, Packet::send')],
 None,['statuses returned by Socket::send, Socket::receive, Socket::receive_all'])
p('C05','A configured receive limit is enforced exactly, before the message is stored',
 "With a maximum receive size N set, a packet or WebSocket frame whose payload exceeds N bytes is refused with the maximum-size status without allocating for or reading its payload; one of N bytes or fewer is received normally. With no limit set (zero, the default) size alone never causes refusal. The limit is per socket, can be changed between messages, and always the value set last applies.",
 ['inputs','histories'],'all announced lengths (up to the full 32 or 64 bit range) against all limits, over all message histories',
 'Tests use one limit and one oversize packet; the boundary, 64-bit lengths and limit changes are not covered.',
 [H+'Packet.h','src/WebFrame.cpp',H+'Socket.h'],[('limit comparison in packet receive',H+'Packet.h: Packet::receive'),('limit comparison in frame receive','src/WebFrame.cpp: WebFrame::receive')],
 None,['status of Socket::receive','bytes requested from receive_raw'])
p('C06','Raw socket send and receive account for every byte and report the true outcome',
 "A raw send advances the caller's sent counter by exactly the bytes the system accepted, never sends a byte twice or out of order, resumes from the counter when called again, and reports success exactly when all bytes have been accepted. A raw receive reports the exact number of bytes stored, writes nothing beyond them, and reports zero bytes with any non-success outcome. Interrupted system calls are retried invisibly; a full or empty buffer is would-block on a non-blocking socket and timeout on a blocking one; end of stream is disconnected; anything else is a send or receive error.",
 ['fault_sequences','schedules','inputs'],'all sequences of system call outcomes (partial, interrupted, would-block, error, end of stream) in both blocking modes',
 'On loopback the kernel almost always accepts and returns everything in one call, so partial and interrupted paths never run.',
 ['src/TcpSocket.cpp'],[('send loop','src/TcpSocket.cpp: TcpSocket::send_raw'),('receive loop','src/TcpSocket.cpp: TcpSocket::receive_raw')],
 None,['return values and out-parameters of send_raw / receive_raw','system calls made'])
p('C07','Every descriptor opened is closed exactly once and no other is ever closed',
 "Over any history of connecting, listening, accepting, adopting, disconnecting, moving on after failures and destroying sockets and listeners, every system descriptor the library opened or adopted is closed exactly once by the time its owner is destroyed, and immediately when an attempt fails, the owner disconnects, or a new connection replaces it. It never closes a descriptor number it does not currently own, even after that number is reused elsewhere. Resolved address lists are likewise released exactly once.",
 ['histories','fault_sequences'],'all call histories on sockets and listeners with a failure injected at any system call, and descriptor numbers reused by others in between',
 'Tests exercise clean connect and disconnect; leaked or doubly closed descriptors have no visible effect in a short-lived test process.',
 ['src/TcpSocket.cpp','src/TcpListener.cpp',H+'TcpListener.h','src/SSLSocket.cpp','src/SSLListener.cpp'],
 [('socket ownership','src/TcpSocket.cpp: connect, set_descriptor, close_socket, ~TcpSocket'),('listener ownership','src/TcpListener.cpp: listen, accept, close_socket, ~TcpListener')],
 [('owned descriptor','descriptor the object must close','src/TcpSocket.cpp: socket_descriptor')],['socket, accept, close system calls'])
p('C08','Connection state and blocking mode reported are the true ones',
 "A socket or listener reports being connected exactly while it owns an open connection or listening descriptor: after a failed connect or listen, after disconnecting, and before any use it reports not connected, and sending through it is then refused as disconnected. The blocking mode it reports is always that of the underlying descriptor: every newly connected or accepted connection starts out blocking, and a change of mode that the system refuses leaves the reported mode unchanged and returns a failure.",
 ['histories','fault_sequences'],'all histories of connect, accept, disconnect, reconnect and mode changes with system call failures at any point',
 'Tests check connected state after success only, and never toggle modes across reconnects or with failing system calls.',
 ['src/TcpSocket.cpp','src/TcpListener.cpp',H+'NetworkEncoding.h',H+'SocketDescriptor.h'],
 [('connected test','src/TcpSocket.cpp: connected; src/TcpListener.cpp: connected'),('mode switch',H+'NetworkEncoding.h: set_unix_socket_blocking; src/TcpSocket.cpp: set_blocking')],
 [('blocking flag','mode last applied','src/TcpSocket.cpp: is_blocking')],['connected(), get_blocking(), O_NONBLOCK of the descriptor'])
p('C09','Send and receive timeouts apply to the current and every later connection',
 "The receive and send timeouts last set on a socket, in milliseconds with zero meaning none, are in force on its descriptor whenever it is connected, whether they were set before or after connecting, and also after reconnecting or accepting into the same object. Setting one never disturbs the other, and the values reported back are always the ones last set. Every connection also has small-packet coalescing (Nagle) disabled.",
 ['histories','inputs'],'all orders of setting timeouts and (re)connecting, all 32-bit millisecond values',
 'Tests set one timeout once after connecting.',
 ['src/TcpSocket.cpp',H+'Socket.h'],[('option application','src/TcpSocket.cpp: reconfigure_socket'),('timeout setters',H+'Socket.h: set_receive_timeout, set_send_timeout')],
 None,['SO_RCVTIMEO, SO_SNDTIMEO, TCP_NODELAY of the descriptor'])
p('C10','Connecting and listening try every resolved address and succeed only for real',
 "A connect reports success only if the transport connection to one of the resolved addresses was really established, tries the addresses in order until one works, gives up on each after the requested timeout (a default if zero) and not before, even if signals interrupt the wait, and otherwise reports no route; a failed lookup is reported as lookup failure. A listen reports success only if a descriptor is bound and listening, trying each address, and otherwise reports bind, listen or lookup failure. The address family restriction chosen by the user is always passed to the lookup, and a connected or accepted socket reports the address of its peer.",
 ['fault_sequences','configurations'],'all candidate address lists and all outcomes of each system call per candidate',
 'Tests connect to loopback where the first candidate succeeds; mixed candidate outcomes need a faulty network.',
 ['src/TcpSocket.cpp','src/TcpListener.cpp'],[('candidate loop','src/TcpSocket.cpp: connect'),('bind loop','src/TcpListener.cpp: listen'),('peer address','src/TcpListener.cpp: accept')],
 None,['connect/listen status, get_remote_address, system calls made'])
p('C11','The selector reports exactly the ready members, each with its own tag',
 "Waiting on a selector returns only sockets that are currently members and ready (readable data, end of stream, error or a pending connection), each paired with the opaque value it was added with and at most once per wait. A ready member is reported by every wait until its condition is consumed, and every ready member is eventually reported by repeated waits no matter how many are ready at once, while each reported one is serviced. With nothing ready, wait returns empty after the timeout, immediately for a zero timeout.",
 ['histories','schedules'],'all histories of adding, removing, sending, reading and closing over any number of members',
 'Tests use one or two sockets with one event each; more ready sockets than one wait can report, or partial reads, never occur.',
 ['src/SocketSelector.cpp'],[('event wait','src/SocketSelector.cpp: wait'),('registration with tag','src/SocketSelector.cpp: add')],
 [('membership table','member sockets with tag','include/frnetlib/SocketSelector.h: added_sockets')],['SocketSelector::wait results'])
p('C12','Selector membership changes only by add and remove and survives disconnection',
 "A socket becomes a member exactly when an add succeeds: adding a disconnected socket or one that is already a member is refused with an exception and changes nothing. Removing a member returns the opaque value it was added with, removing a non-member returns null, and afterwards it is never reported again unless re-added. This also holds if the socket was disconnected or reconnected in the meantime or its descriptor number was reused by another member, which must stay unaffected, and a member object is kept alive until removed.",
 ['histories'],'all histories of add, remove, disconnect, reconnect and descriptor reuse',
 'Descriptor reuse and removal after disconnect need particular multi-step histories that no test performs.',
 ['src/SocketSelector.cpp',H+'SocketSelector.h'],[('registration','src/SocketSelector.cpp: add, remove')],
 [('membership table','member sockets with tag and registered descriptor',H+'SocketSelector.h: added_sockets')],['add/remove results and exceptions, shared ownership count'])
p('C13','An HTTP request parses to the same result however its bytes are split',
 "Feeding the bytes of an HTTP request to the parser in any pieces gives not-enough-data until the message is complete and success exactly when it is, with the same method, path, version, query and form arguments, headers and body as feeding it at once; the outcome is a function of the bytes alone. Method, version, path, query and form arguments (names case-insensitive, values verbatim), headers (names case-insensitive, first occurrence wins) and a body of exactly the announced content length are extracted from where RFC 7230 places them, accepting bare LF line ends.",
 ['inputs','schedules'],'all requests in the grammar and all ways of splitting their bytes',
 'Tests parse a few fixed requests, mostly in one piece.',
 ['src/HttpRequest.cpp','src/Http.cpp'],[('incremental parse','src/HttpRequest.cpp: parse, parse_header, parse_header_uri, parse_post_body'),('header and argument parsing','src/Http.cpp: parse_header_line, parse_argument_list, split_string')],
 None,['HttpRequest getters after each parse call'])
p('C14','An HTTP response parses to the same result however its bytes are split',
 "Feeding the bytes of an HTTP response to the parser in any pieces gives not-enough-data until the message is complete and success exactly when it is, with the same status code, version, headers and body as feeding it at once. A body with announced content length is exactly that many bytes; a chunked body is exactly the concatenation of its chunks' data, for any chunk sizes and contents (including CRLFs or text resembling chunk headers), with chunk extensions ignored and the size lines never appearing in it.",
 ['inputs','schedules'],'all responses with content-length or chunked bodies and all ways of splitting their bytes',
 'Tests parse a few fixed responses; each split point inside a chunk header, chunk or terminator is a separate parser state.',
 ['src/HttpResponse.cpp','src/Http.cpp'],[('incremental parse','src/HttpResponse.cpp: parse, parse_header'),('chunk decoding','src/HttpResponse.cpp: parse')],
 None,['HttpResponse getters after each parse call'])
p('C15','No HTTP input can crash the parser or exceed the configured size limits',
 "For any bytes whatsoever, in any pieces, parsing a request or response returns one of the documented statuses (success, not-enough-data, parse error, header too big, body too big) and never throws, crashes, hangs or reads outside the input. A header section longer than the header limit is always refused as header-too-big, a message whose body exceeds the body limit always as body-too-big, and neither ever for a message within the limits. Success is never reported for a request whose first word is not exactly a known method, nor for a response that does not begin with an HTTP version and a status code.",
 ['inputs','schedules'],'all byte strings, all ways of splitting them, all sizes around the limits',
 'Tests contain a few malformed inputs only.',
 ['src/HttpRequest.cpp','src/HttpResponse.cpp','src/Http.cpp'],[('limit checks','src/HttpRequest.cpp: parse; src/HttpResponse.cpp: parse'),('error containment','parse_header in both')],
 None,['status returned by parse'])
p('C16','A constructed HTTP request parses back to what was put in',
 "For any method, path, version, query arguments, form arguments, headers and body (each within its legal alphabet), the text built for the request consists of CRLF-terminated lines and parses successfully, complete exactly at its last byte, to the same method, path, version, query arguments, form arguments, headers and body. Whenever there is a body or form arguments exactly one correct content length is announced. Host and connection headers are added only when the user set none; user headers are never changed, and building does not modify the request.",
 ['inputs'],'all combinations of method, path, arguments, headers and body',
 'Tests compare one or two literal strings, each with only some of the parts present.',
 ['src/HttpRequest.cpp','src/Http.cpp'],[('serialisation','src/HttpRequest.cpp: construct'),('parsing','src/HttpRequest.cpp: parse')],
 None,['HttpRequest::construct output and its parse'])
p('C17','A constructed HTTP response parses back to what was put in',
 "For any status code, version, headers and body (each within its legal alphabet), the text built for the response parses successfully, complete exactly at its last byte, to the same status, version, headers and body, and announces exactly one content length when a body is present; every line of it ends with CRLF. Connection and content-type headers are added only when the user set none; user headers are never changed, and building does not modify the response.",
 ['inputs'],'all combinations of status, version, headers and body',
 'Tests compare one literal string.',
 ['src/HttpResponse.cpp','src/Http.cpp'],[('serialisation','src/HttpResponse.cpp: construct'),('parsing','src/HttpResponse.cpp: parse')],
 None,['HttpResponse::construct output and its parse'])
p('C18','An HTTP message received over a socket is complete and correct or fails',
 "Receiving an HTTP message through a socket reports success only when the complete message has arrived, however the transport splits it, and then holds exactly the message sent. If the connection ends, times out or fails midway, or the bytes are malformed or too large, a failure status is returned, never success and never an endless wait; would-block is returned only if nothing of the message was consumed. Sending transmits exactly the constructed text once, however partially the transport accepts it.",
 ['schedules','fault_sequences','inputs'],'all messages, segmentations and faults at any byte',
 'Loopback tests deliver whole messages at once.',
 ['src/Http.cpp'],[('receive loop','src/Http.cpp: Http::receive'),('send loop','src/Http.cpp: Http::send')],None,['status and getters after Socket::receive; bytes handed to send_raw'])
p('C19','WebSocket frames are encoded and decoded exactly as RFC 6455 prescribes',
 "A frame sent carries its final flag, opcode, the minimal of the three length forms for its payload size, and the payload: unmasked from a server, and from a client masked with a fresh 4-byte key, not foreseeable from the keys before it, that is carried in the frame. Decoding yields exactly the payload, opcode and final flag that were encoded, for every payload length (in particular around 125/126 and 65535/65536) and content. Sending never alters the frame object, so sending it again transmits the same message, and a received frame replaces all previous content of the object received into.",
 ['inputs','histories'],'all payload lengths and contents, opcodes, flags, both directions, repeated use of one object',
 'Tests echo a few short frames between the library and itself; symmetric errors and length boundaries do not show.',
 ['src/WebFrame.cpp',H+'WebFrame.h'],[('encoder','src/WebFrame.cpp: WebFrame::send'),('decoder','src/WebFrame.cpp: WebFrame::receive')],None,['bytes handed to send_raw; getters after receive'])
p('C20','WebSocket frame receive enforces direction and is all or nothing',
 "A server-side frame receive accepts only masked frames and a client-side one only unmasked frames, answering anything else with an error. Success is reported only for a complete frame however the bytes are split; would-block or timeout only when nothing of the frame was consumed; a stall inside a frame is waited out, and a timeout, error or end of stream inside a frame gives a failure status other than those. A sequence of frames is received as exactly that sequence.",
 ['schedules','fault_sequences','inputs'],'all frame sequences, segmentations and faults at any byte, both roles',
 'Tests send whole frames over loopback with both roles implemented by the library.',
 ['src/WebFrame.cpp'],[('decoder','src/WebFrame.cpp: WebFrame::receive')],None,['status and getters after receive'])
p('C21','A WebSocket client is connected only after a valid RFC 6455 handshake',
 "Connecting sends one GET upgrade request with the given path, version 13, a fresh 16-byte base64 key and the offered subprotocols in order, and reports success exactly when the server answers 101 with the accept value derived (SHA-1, base64) from that very key. On any other answer, malformed or incomplete answer, or transport failure it reports failure and is left disconnected with its descriptor closed. Frames that arrive directly behind the answer, even in the same segment, are received afterwards intact.",
 ['inputs','schedules','fault_sequences'],'all server answers, segmentations of answer and first frames, and transport faults',
 'Tests only connect to the library\'s own listener, which always answers correctly.',
 [H+'WebSocket.h','src/Sha1.cpp','src/Base64.cpp'],[('client handshake',H+'WebSocket.h: WebSocket::connect'),('accept key','src/Sha1.cpp, src/Base64.cpp')],None,['connect status, connected(), bytes sent, frames received afterwards'])
p('C22','A WebSocket server accepts exactly valid upgrade requests and answers correctly',
 "On accepting a connection the server side reads one upgrade request and, if it is a GET asking to upgrade to websocket (compared case-insensitively), answers 101 with upgrade and connection headers and the accept value derived from the client's key, however the request bytes are split. Anything else, including a peer that disconnects or errors during the handshake, is signalled by an exception and leaves the socket disconnected with its descriptor closed. Frames sent directly behind the request, even in the same segment, are received afterwards intact.",
 ['inputs','schedules','fault_sequences'],'all client requests, segmentations of request and first frames, and transport faults',
 'Tests only accept the library\'s own client.',
 [H+'WebSocket.h','src/Sha1.cpp','src/Base64.cpp'],[('server handshake',H+'WebSocket.h: WebSocket::set_descriptor')],None,['accept outcome, bytes sent, connected(), frames received afterwards'])
p('C23','Disconnecting a WebSocket sends one valid close frame, then closes it',
 "Disconnecting an established WebSocket sends exactly one complete close frame, masked by a client and unmasked by a server, after everything sent before, and then closes the descriptor even if the peer is gone or the frame cannot be sent. Disconnecting one that is not connected sends nothing, and repeated disconnects or destruction after disconnecting have no further effect.",
 ['histories','fault_sequences'],'all histories of handshake, sending, disconnecting and reconnecting in both roles, with send failures',
 'No test inspects the bytes of the close frame or disconnects twice.',
 [H+'WebSocket.h'],[('close',H+'WebSocket.h: WebSocket::disconnect')],None,['bytes handed to the transport, descriptor state'])
p('C24','A URL is split into scheme, host, port, path, query and fragment correctly',
 "Parsing a URL of the form scheme://host[:port][/path][?query][#fragment] (each part optional but the host) yields exactly those parts, recognising http, https, ftp, sftp, irc and mailto schemes case-insensitively and any other as unknown, and colons, slashes, question marks and hash signs occurring later than where they delimit belong to the part they occur in. If no port is given it is the scheme's default (80, 443, 21, 22, 6697; none for others). Parsing never throws, and the result depends only on the string, not on what the object held before.",
 ['inputs','histories'],'all strings over the URL alphabet, repeated parsing into one object',
 'Tests cover about twenty fixed URLs, none with delimiters inside later parts.',
 ['src/URL.cpp',H+'URL.h'],[('parser','src/URL.cpp: URL::parse'),('scheme table','src/URL.cpp: scheme_string_map')],None,['URL getters'])
p('C25','Reassembling a URL and parsing it again gives the same URL',
 "For every URL with a host, whether parsed from text or assembled part by part, the whole-URL string parses back to an equal URL and re-emits the same string, and the request URI is path, then ? and query if present, then # and fragment if present. Converting a known scheme to text and back yields the same scheme, and no scheme value obtainable from parsing makes reassembly fail.",
 ['inputs','histories'],'all part combinations and all known schemes',
 'Tests reassemble one or two URLs and never with every scheme.',
 ['src/URL.cpp',H+'URL.h'],[('reassembly',H+'URL.h: get_url, get_uri'),('scheme names','src/URL.cpp: scheme_to_string, string_to_scheme')],None,['URL::get_url, get_uri, operator=='])
p('C26','Percent-encoding is lossless and decoding handles every escape',
 "URL-encoding any byte string yields only letters, digits, the marks -_.!~*'(), '+' for space, and percent escapes of two hex digits, and decoding it gives back the original bytes, including zero bytes and bytes above 127. Decoding accepts upper and lower case hex digits alike, turns '+' into a space and leaves all other characters alone. On truncated or invalid escapes it neither throws nor reads outside the input, and everything outside the bad escape is still decoded normally.",
 ['inputs'],'all byte strings',
 'Tests encode and decode one or two ASCII strings.',
 ['src/Http.cpp'],[('encoder and decoder','src/Http.cpp: url_encode, url_decode')],None,['Http::url_encode, Http::url_decode'])
p('C27','A TLS connection carries the same intact byte stream as a plain one',
 "Bytes sent over an established TLS connection arrive in order, exactly once and unaltered, and never travel in the clear, for any sizes and any behaviour of the underlying transport (partial writes, would-block, small reads) in both blocking modes. The sent counter and received count are exact, would-block or timeout are reported when no progress is possible instead of spinning or failing, blocking mode changes take effect on the descriptor, and receive and send timeouts are honoured. End of stream and transport failure are reported as a failure status with zero bytes.",
 ['schedules','fault_sequences','inputs'],'all message sizes, transport schedules and modes',
 'Tests send small packets over blocking loopback.',
 ['src/SSLSocket.cpp'],[('TLS read and write','src/SSLSocket.cpp: send_raw, receive_raw'),('mode and options','src/SSLSocket.cpp: set_blocking, reconfigure_socket')],None,['send_raw/receive_raw results of SSLSocket'])
p('C28','A TLS client connects only to a verified peer and cleans up after failure',
 "With certificate verification on (the default), connecting succeeds only if the server's certificate chains to an authority loaded from a file or from memory, is within its validity period and matches the host name connected to; with it off, any certificate is accepted. After a failed handshake, verification or accept, the status is a failure, the socket reports not connected, its descriptor is closed, and both it and the listener can be used again successfully.",
 ['configurations','fault_sequences','histories'],'all combinations of authority, host name, validity and verification setting, with handshake failures at any point, and histories of reuse',
 'Tests disable verification; no test presents a bad certificate or reuses a socket after failure.',
 ['src/SSLSocket.cpp','src/SSLListener.cpp',H+'SSLContext.h'],[('client handshake and verification','src/SSLSocket.cpp: connect'),('server handshake','src/SSLListener.cpp: accept')],None,['connect/accept status, connected(), open descriptors'])
p('C29','SHA-1 and base64 compute the standard functions for every input',
 "For every byte string of any length, including the empty one, those around the 55/56/64 byte block boundaries and those with bytes above 127, the SHA-1 digest is the 20 bytes FIPS 180-4 prescribes, in their order, and the base64 encoding is the padded one of RFC 4648. Neither depends on earlier calls, throws, or reads outside its input.",
 ['inputs','histories'],'all byte strings and all lengths, repeated calls',
 'No test covers either function; the WebSocket code only ever feeds them one length.',
 ['src/Sha1.cpp',H+'Sha1.h','src/Base64.cpp'],[('digest','src/Sha1.cpp: Sha1::update, final, transform'),('encoder','src/Base64.cpp: Base64::encode')],None,['Sha1::sha1_digest, Base64::encode'])
p('C30','Media types depend on the extension alone, and are valid media types',
 "The media type of a file name is decided by what follows its last dot (by the whole name if it has none) and nothing else: every extension the library knows gives its registered type whatever precedes it, and any name whose extension is not known gives application/octet-stream. The answer is always a single well-formed media type. No name, of whatever length or bytes, makes the lookup fail.",
 ['inputs'],'all file names',
 'No test calls it; the table has about seven hundred rows and names can be anything.',
 ['src/Http.cpp'],[('table and lookup','src/Http.cpp: get_mimetype')],None,['Http::get_mimetype'])
p('C31','Conversions between codes and their names are exact and total',
 "Every status value has its own description, those caused by a system call followed by that call's error in brackets, and a value outside the enumeration is described as unknown or refused with an exception, never undefined. A request type's name converts back to the same type; a text that starts with a method name is that method, a proper beginning of one (including the empty text) is partial, and everything else is unknown. Transfer encodings are recognised by their full name in any mixture of capitals, and anything else means none.",
 ['inputs'],'all enumeration values, out-of-range integers and all strings',
 'Tests convert a dozen fixed strings and no status.',
 ['src/Socket.cpp','src/Http.cpp',H+'Http.h'],[('statuses','src/Socket.cpp: status_to_string'),('request types',H+'Http.h: request_type_to_string, string_to_request_type'),('transfer encodings','src/Http.cpp: string_to_transfer_encoding')],None,['return values'])
p('C32','Byte order conversion of numbers preserves every bit pattern',
 "Converting a 64-bit integer, float or double to network byte order gives exactly its bytes in big-endian order and converting back gives the original bits, for every bit pattern, including negative zero, subnormals, infinities and NaNs with any payload.",
 ['inputs'],'all 32-bit and 64-bit patterns',
 'Tests pack a few ordinary numbers.',
 [H+'NetworkEncoding.h'],[('helpers',H+'NetworkEncoding.h: htonf, ntohf, htond, ntohd, htonll, ntohll')],None,['bytes in memory'])
p('C33','Messages are values: copies are equal and independent, moves lose nothing',
 "HTTP requests and responses, packets and WebSocket frames report exactly what was last set on them, header names compared without regard to case. Copying or assigning one gives an equal, independent object, at any point of its life: a message copied halfway through being parsed, or a packet copied with its read position in the middle, goes on by itself exactly as the original would have, whatever is done to the other. Moving gives the destination everything the source held.",
 ['histories','inputs'],'all histories of setting, reading, copying, moving, parsing and building over several objects',
 'Tests never copy a message, nor one that is partly parsed or partly read.',
 [H+'Http.h',H+'HttpRequest.h',H+'HttpResponse.h',H+'Packet.h',H+'WebFrame.h'],[('HTTP messages',H+'Http.h, src/Http.cpp'),('packets',H+'Packet.h'),('frames',H+'WebFrame.h')],None,['accessors, parse results and constructed messages'])
p('C34','Shutdown ends blocked calls and later traffic without closing anything',
 "Shutting down a connected TCP or TLS socket ends both directions of its own connection, and shutting down a listener ends its accepting: a call that another thread has blocked in receiving or accepting returns with a failure status, as do later ones, and nothing more can be sent. The object keeps its descriptor, its settings and its connected state until it is disconnected or closed, after which it can be used again. On an object holding no descriptor shutdown has no effect, and no other descriptor of the process is ever touched.",
 ['schedules','histories'],'all points in the life of sockets and listeners, including while another thread is blocked in a call',
 'No test calls shutdown while a call is blocked, or after disconnecting.',
 ['src/Socket.cpp','src/TcpListener.cpp','src/SSLListener.cpp'],[('sockets','src/Socket.cpp: Socket::shutdown'),('listeners','src/TcpListener.cpp, src/SSLListener.cpp: shutdown')],None,['shutdown system calls, status of blocked and later calls, descriptors'])
p('C35','Objects are independent, in any interleaving and on any threads',
 "What is done with one packet, message, frame, URL or connection never shows in another: whatever order the steps of independent pieces of work are taken in, one after the other, alternating in the middle of a message, or at the same time on several threads, each gives exactly the results it would give alone. The library's functions that take only values may be called from any threads at once, and no two threads working on objects of their own ever race for hidden shared state.",
 ['schedules','histories'],'all interleavings of the steps of independent work, in turns and in parallel',
 'Tests work with one object at a time on one thread; shared scratch state or a race shows only under particular interleavings.',
 ['src/WebFrame.cpp','src/Http.cpp','src/Socket.cpp',H+'Packet.h','src/Sha1.cpp','src/Base64.cpp'],[('frame masking','src/WebFrame.cpp: send, receive'),('tables and conversions','src/Http.cpp, src/URL.cpp, src/Socket.cpp: static tables'),('digests','src/Sha1.cpp, src/Base64.cpp')],None,['results of each piece of work; race detector'])
p('C36','A listener serves its port until it is closed, and the port is free at once',
 "After a successful listen, on a plain or a TLS listener, every client of the address family listened on reaches it, IPv4 clients too when it listens on IPv6 without having been restricted to that, whatever the system's default; clients wait in a queue of the configured depth and are accepted one by one in the order they came, and a failed accept loses none of them. A refused listen leaves nothing listening. Closing, moving from, destroying or listening elsewhere ends the old listening, leaves accepted connections working, and frees the port at once: connections accepted earlier or still lingering in the system never prevent listening there again.",
 ['histories','configurations','fault_sequences'],'all histories of listening, clients, accepting, closing, moving and listening again, over both address families and system defaults',
 'Tests use each port once, with one client and one address family.',
 ['src/TcpListener.cpp','src/SSLListener.cpp',H+'Listener.h'],[('listening','src/TcpListener.cpp: listen'),('over TLS','src/SSLListener.cpp: listen, close_socket'),('accepting','src/TcpListener.cpp: accept')],None,['listen/accept status, remote addresses, which clients are served'])
with open(__import__('os').path.join(__import__('os').path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    print(d['id'],len(d['title']))
