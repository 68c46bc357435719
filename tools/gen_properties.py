#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
C = "nora_ssh_core/src/"
S = "nora_ssh/src/"
CODEC = [C+"message/mod.rs", C+"message/service.rs", C+"message/userauth.rs", C+"message/channel/mod.rs",
         C+"message/key_exchange/mod.rs", C+"message/key_exchange/ecdh.rs", C+"data.rs"]

p("C01", "Serialised messages have exactly the RFC wire layout",
  "For every message value (transport, key exchange, service, user authentication, channel) and every buffer that is large enough, serialising yields exactly the SSH message number followed by the fields in RFC 4250-4254/5656 order and encoding (uint32 big-endian, boolean 0/1, length-prefixed string, raw remainder, mpint), every byte coming from the corresponding field of the value. "
  "The first returned slice is exactly those bytes and the second is the untouched rest of the buffer.",
  ["inputs"], "every variant of the message type, every value of its fields, every buffer length that fits",
  "The tests serialise, parse and re-serialise one value per variant, so two mirrored errors (swapped fields, wrong message number, wrong reason code) cancel out and most field values are never tried.",
  CODEC, [("one serialiser per message, composed by the top-level serialiser", C+"message/mod.rs: Message::serialize"),
          ("field encoders", C+"data.rs: make_*")], ["return value of the public message serialiser and the bytes of the buffer"])

p("C02", "Message parsing accepts exactly well-formed messages and decodes faithfully",
  "For every byte string, parsing succeeds if and only if the bytes are one complete RFC-formatted message of a supported number: no truncated field, no trailing bytes (except where the format ends in free-form data), names lists valid, text declared UTF-8/ASCII valid, reserved field zero. "
  "On success every field equals exactly the corresponding bytes of the input (no shifted, swapped or shortened fields, any non-zero byte is boolean true); each conversion accessor of the parsed message yields the value exactly for its own kind, and conversions between service names and service messages leave the name unchanged.",
  ["inputs"], "every byte string of every length, for every message number",
  "The tests parse only what the crate itself has serialised: no truncated, over-long or third-party message, and one value per variant.",
  CODEC, [("dispatch on the message number", C+"message/mod.rs: Message::parse"), ("field decoders", C+"data.rs: parse_*, name_list, split"),
          ("emptiness check at the end of each parser", C+"message/**: parse")], ["result of the public message parser"])

p("C03", "Session requests and signal names encode and decode exactly",
  "For every session request value the serialiser returns the RFC 4254 request name and payload layout of that request, and parsing a (name, payload) pair succeeds exactly for the RFC names with a well-formed, fully consumed payload, yielding that request with exactly the encoded field values. "
  "Each of the 13 standard signal names maps to its own signal and back, any other name is preserved verbatim.",
  ["inputs"], "every request variant, field value, request name and payload bytes",
  "One fixed value per variant is round-tripped; mirrored errors, malformed payloads and 12 of 13 signals are never exercised.",
  [C+"message/channel/session.rs", C+"data.rs"], [("request codec", C+"message/channel/session.rs: SessionRequest::parse/serialize"), ("signal table", C+"message/channel/session.rs: signal!")],
  ["result of the public session request codec"])

p("C04", "Decoders never panic on any bytes",
  "For every byte string, the public decoders of the core crate (message parser, session request parser, string decoder, name list and ASCII string validation and iteration) return a value or an error; they never panic, index out of bounds or overflow.",
  ["inputs"], "every byte string of every length up to the address space",
  "Tests feed a few valid messages; a slicing or arithmetic panic needs a specific truncated or hostile length field.",
  CODEC + [C+"message/channel/session.rs"], [("checked gets and emptiness checks before slicing", C+"data.rs, "+C+"message/**")], ["panic reachable from the public decoders"])

p("C05", "Serialisers fail cleanly when the buffer is too small and never overrun",
  "For every value (fields below 4 GiB) and every buffer length, serialising a message, a session request or the user-authentication sign data returns nothing exactly when the encoding does not fit, never panics, and never writes outside the given buffer; on success the reported length is exactly the encoded length.",
  ["inputs"], "every value and every buffer length",
  "All tests use a 2048 byte buffer with tiny values: the too-small case never occurs.",
  CODEC + [C+"message/channel/session.rs"], [("bounds-checked field encoders returning Option", C+"data.rs: make_*")], ["result of the public serialisers"])

p("C06", "Name lists and ASCII strings are validated and iterated exactly",
  "A byte string is accepted as a name list exactly when it is ASCII and contains no empty name (no leading, trailing or doubled comma; the empty list is allowed), and as an ASCII string exactly when all bytes are ASCII; the accepted text is the input unchanged. "
  "Iterating a name list yields exactly its comma-separated names, in order, each once.",
  ["inputs"], "every byte string",
  "Five hand-picked lists; boundary positions of commas and non-ASCII bytes, single names and the empty list are not covered.",
  [C+"data.rs"], [("validation", C+"data.rs: NameList::try_from, AsciiStr::try_from"), ("iteration", C+"data.rs: NameListIter::next")], ["results of the conversions and of the iterator"])

p("C07", "Positive integers are encoded as canonical mpints",
  "Wherever a positive big-endian integer is encoded (shared secret in the exchange hash and key derivation, signature scalars), the encoding is the canonical SSH mpint: all leading zero bytes removed, exactly one zero byte prepended when the top bit would otherwise be set, preceded by the exact 4-byte length.",
  ["inputs"], "every byte string as magnitude, in particular with 0, 1 or more leading zero bytes and with or without the top bit set",
  "No test covers mpints; a wrong corner case shows up in about 1 of 256 or 1 of 2 handshakes as a sporadic signature failure.",
  [C+"data.rs", C+"key_exchange.rs", C+"message/key_exchange/ecdh.rs"], [("mpint encoder", C+"data.rs: make_pos_mpint")], ["bytes hashed or serialised for mpint values"])

p("C08", "Public-key sign data binds session, user, service, algorithm and key",
  "The data a client must sign is exactly string(session id), byte 50, string(user), string(service), string(\"publickey\"), TRUE, string(algorithm), string(key blob), for all values of these; distinct tuples therefore give distinct data.",
  ["inputs"], "all session identifiers, users, services, algorithms and key blobs",
  "No test calls it.",
  [C+"message/userauth.rs"], [("sign data formatter", C+"message/userauth.rs: format_sign_data")], ["returned slice"])

p("C09", "Outgoing packets are framed and padded as RFC 4253 section 6 requires",
  "For every payload, block size and length-field convention, a wrapped packet has packet_length = 1 + payload + padding, padding between 4 and 255 bytes filled from the random source, the payload unmodified at offset 5, and the padded part a multiple of the block size (including the length field when it is encrypted with the packet, excluding it otherwise). "
  "The raw view of the packet is exactly the 4 length bytes plus packet_length bytes (plus the requested room for a tag).",
  ["inputs", "configurations"], "every payload length, 4 block sizes, both conventions",
  "No test wraps a packet.",
  [C+"packet.rs"], [("wrap", C+"packet.rs: Packet::wrap"), ("views", C+"packet.rs: as_raw/into_raw/payload")], ["bytes of the wrapped buffer"])

p("C10", "Received packets are bounds-checked before their payload is exposed",
  "For every byte stream a peer can send, before and after key exchange, a payload is handed out only if packet_length fits the receive buffer, satisfies the block alignment and leaves room for the claimed padding; the payload is then exactly the bytes between padding-length byte and padding, otherwise an error is returned; every well-formed packet that fits is accepted. No peer-chosen length causes a panic or an out-of-range access.",
  ["inputs"], "every length field, padding length and stream content, both plaintext and encrypted receive paths",
  "No test receives a packet.",
  [S+"packet.rs", S+"host.rs", C+"packet.rs"], [("plaintext receive", S+"packet.rs: parse"), ("encrypted receive", S+"host.rs: In::recv"), ("validation", C+"packet.rs: Packet::wrap_raw")],
  ["result of the receive functions"])

p("C11", "Encryption follows chacha20-poly1305@openssh.com exactly",
  "For every key, counter and packet, encryption XORs the 4 length bytes with the keystream of the second key half (block 0), the rest with the keystream of the first key half starting at block 1, and appends the Poly1305 tag keyed with block 0 of the first half over all encrypted bytes including the length; the nonce is the 64-bit big-endian packet counter. Decryption applies the same keystreams to the same ranges.",
  ["inputs"], "every key, counter value and packet",
  "No test touches the cipher; sender and receiver errors that mirror each other only show against another implementation.",
  [C+"cipher/chacha20poly1305.rs"], [("cipher", C+"cipher/chacha20poly1305.rs: ChaCha20Poly1305")], ["bytes of the packet after encrypt/decrypt"])

p("C12", "No unauthenticated byte is decrypted or delivered",
  "Decrypting a packet succeeds only if the tag at its end equals the Poly1305 tag computed over everything before it (length included) under the expected counter; otherwise an error is returned and the packet body is left undecrypted. The encrypted receive path never returns a payload unless that check passed on exactly the received bytes.",
  ["inputs"], "every received byte sequence, including every bit flip, truncation or replay",
  "No test covers tampering.",
  [C+"cipher/chacha20poly1305.rs", S+"host.rs"], [("verify before decrypt", C+"cipher/chacha20poly1305.rs: decrypt_data"), ("receive path", S+"host.rs: In::recv")], ["result of decrypt and receive"])

p("C13", "Each packet uses the next sequence number exactly once per direction",
  "Every successfully sent or received packet advances that direction's counter by exactly one and nothing else changes it, so no two packets of a direction share a nonce; the counter starts at the number of packets that direction exchanged in the clear (three).",
  ["histories"], "every sequence of sends, receives and failures",
  "No test sends more than zero packets.",
  [C+"cipher/chacha20poly1305.rs", S+"host.rs"], [("counter increments", C+"cipher/chacha20poly1305.rs: encrypt, decrypt_data"), ("initial value", S+"host.rs: handle_new_client")],
  ["counter passed into the nonce"], [("counter", "next sequence number of the direction", C+"cipher/chacha20poly1305.rs: ChaCha20Poly1305")])

p("C14", "Keys are derived per RFC 4253 section 7.2 and per direction",
  "Every derived key is HASH(K || H || letter || session id) extended by HASH(K || H || K1 || ... ), with letters A/C/E for client-to-server and B/D/F for server-to-client IV, encryption and integrity keys, K as mpint. The cipher uses 64 bytes of the encryption key, the receiving side of the server uses the client-to-server and the sending side the server-to-client keys.",
  ["inputs", "configurations"], "every shared secret, hash and number of requested blocks",
  "No test derives a key.",
  [C+"key_exchange.rs", C+"cipher/chacha20poly1305.rs", S+"host.rs"], [("derivation", C+"key_exchange.rs: KeyMaterial"), ("direction choice", S+"host.rs: handle_new_client")], ["key material passed to the ciphers"])

p("C15", "The signed exchange hash covers exactly the handshake that took place",
  "The exchange hash is the digest of, in order, the client's identification string, the server's identification string, the client's KEXINIT payload, the server's KEXINIT payload (each exactly as sent and received), the server's public host key, the client's and the server's ephemeral public keys and the shared secret as mpint, each length-prefixed. That hash is what the host key signs, what keys are derived from and what becomes the session identifier.",
  ["inputs", "histories"], "every handshake",
  "No test performs a handshake.",
  [C+"message/key_exchange/ecdh.rs", S+"host.rs"], [("typed digest chain", C+"message/key_exchange/ecdh.rs: digest"), ("handshake", S+"host.rs: handle_new_client")], ["data fed to the digest, signature, session identifier, key material"])

p("C16", "A connection proceeds only with algorithms both sides offered",
  "The handshake continues past the client's KEXINIT only if the client's list for key exchange, host key, encryption client-to-server and encryption server-to-client each contains the algorithm the server implements; otherwise it fails with an unsupported-algorithms error. The server advertises exactly the algorithms it then uses.",
  ["inputs"], "every client KEXINIT",
  "No test performs a handshake.",
  [S+"host.rs", C+"key_exchange.rs", C+"cipher/mod.rs"], [("negotiation check", S+"host.rs: handle_new_client"), ("advertised lists", S+"host.rs: handle_new_client")], ["handshake result"])

p("C17", "The key exchange follows its message order strictly",
  "The server sends identification, KEXINIT, ECDH reply and NEWKEYS in that order, sends the reply only after the client's KEXINIT and ECDH init were received and parsed as such, and yields an encrypted connection only after the client's NEWKEYS; any other message, malformed message, wrong-size or non-contributory public key or I/O failure ends the handshake with an error.",
  ["inputs", "histories", "fault_sequences"], "every sequence of client messages and I/O failures",
  "No test performs a handshake.",
  [S+"host.rs"], [("straight-line handshake with early returns", S+"host.rs: handle_new_client")], ["messages written and result of the handshake"])

p("C18", "Identification strings are exchanged and recognised exactly",
  "For every byte stream, lines before the peer's identification line are skipped, the first CR LF-terminated line starting with \"SSH-\" is taken as identification and must start with \"SSH-2.0-\", and the returned identification is exactly that line without CR LF, at most 253 bytes; longer or incompatible lines and I/O errors give an error and no byte after the line is consumed. The server's own identification is sent verbatim followed by CR LF.",
  ["inputs"], "every byte stream",
  "No test covers it.",
  [S+"identifier.rs", C+"identifier.rs"], [("byte-wise state machine", S+"identifier.rs: parse"), ("length limit", C+"identifier.rs: Identifier::new")], ["result of identification parsing and bytes consumed"])

p("C19", "Every connection uses fresh randomness where the protocol needs it",
  "The KEXINIT cookie, the ephemeral key and all packet padding of a connection are drawn from the connection's random generator, which is seeded from system entropy for each connection; none of them is constant or shared between connections.",
  ["histories"], "every connection",
  "Randomness is not observable in any test.",
  [S+"host.rs", S+"server.rs", C+"packet.rs"], [("rng plumbing", S+"host.rs, "+S+"server.rs")], ["sources of cookie, ephemeral secret and padding"])

p("C20", "Nothing runs and no success is sent without successful authentication",
  "For every sequence of client messages, USERAUTH_SUCCESS is sent and a connection starts serving channels only after the key exchange, the ssh-userauth service request and a request for which the application's authenticate handler returned success on that connection; a failed attempt is answered with exactly one USERAUTH_FAILURE and key probes never authenticate. Programs are only spawned for such authenticated connections, with the user the handler returned.",
  ["inputs", "histories"], "every sequence of client messages and handler answers",
  "No test runs the server.",
  [S+"server.rs"], [("authentication loop", S+"server.rs: authenticate_new_client"), ("client construction", S+"server.rs: Client")], ["messages sent, spawn handler calls"])

p("C21", "Public-key attempts hand the handler exactly what was signed",
  "For every public-key request, the handler receives the algorithm, key and signature taken from that same request, and a message that is the sign data over this connection's session identifier and the request's user, service, algorithm and full key blob. A request whose key blob or signature names another algorithm than the request, or is malformed, never reaches the handler; probes are answered PK_OK with the same algorithm and blob only if the application says the key exists.",
  ["inputs"], "every authentication request",
  "No test runs the server.",
  [S+"server.rs", C+"message/userauth.rs"], [("request decoding", S+"server.rs: authenticate_new_client")], ["arguments of the authenticate and public_key_exists handlers"])

p("C22", "No peer input can panic the server library",
  "For every byte stream a client can send at any stage (identification, key exchange, authentication, channel traffic) and every handler answer, the server library ends or continues that connection without panicking: no unwrap, index, arithmetic or todo panic is reachable from peer-controlled data, I/O failures or handler failures.",
  ["inputs", "histories", "fault_sequences"], "every client byte stream, I/O failure and handler result",
  "No test runs the server; one panic takes down all connections since they share a task.",
  [S+"server.rs", S+"host.rs", S+"packet.rs", S+"identifier.rs"], [("error returns", S+"*.rs")], ["panic reachable from the connection entry points"])

p("C23", "Channel traffic is routed only to the channel it names",
  "Every open channel has its own number; data, EOF, close and requests act on exactly the channel the message names, replies and output carry the peer's number for that channel, and messages naming a channel that is not open affect no channel. A number is reused only after its channel was closed.",
  ["inputs", "histories"], "every sequence of channel messages with any number of channels",
  "No test runs the server.",
  [S+"server.rs", S+"arena.rs"], [("slot table", S+"arena.rs: Arena"), ("lookup per message", S+"server.rs: receive")], ["effects on channel stdin, channel table, recipient_channel of sent messages"])

p("C24", "Every channel open and request gets exactly the reply it asks for",
  "Each channel open is answered by exactly one confirmation carrying the new local number and the peer's number. Each channel request is answered by exactly one SUCCESS or FAILURE if and only if it asked for a reply, SUCCESS exactly when a shell or command was actually started; a channel runs at most one program, and the command handed to the spawn handler is exactly the requested one.",
  ["inputs", "histories"], "every channel open and request, every spawn result",
  "No test runs the server.",
  [S+"server.rs"], [("request handling", S+"server.rs: receive")], ["messages sent in response"])

p("C25", "Program input and output are forwarded completely and in order",
  "All bytes of channel data reach the program's standard input in order; everything read from standard output is sent as channel data and from standard error as extended data type 1, each byte once, on that program's channel. EOF follows the last output, then one exit-status with the program's status, then one CLOSE, and nothing is sent for the channel after CLOSE.",
  ["inputs", "schedules", "histories"], "every amount and chunking of data, every interleaving of output, exit and input",
  "No test runs the server.",
  [S+"server.rs"], [("stdin forwarding", S+"server.rs: receive"), ("output pump", S+"server.rs: Client::start")], ["stdin writes and messages sent"])

p("C26", "Packets are never interleaved, torn or lost by concurrent sending",
  "Sending a packet happens under an exclusive lock for its whole write, a task waiting for that lock is always woken after it is released, and no receive or send operation is abandoned half-way while the connection lives.",
  ["schedules"], "every interleaving of the connection's concurrent activities",
  "No test has two concurrent senders.",
  [S+"sync.rs", S+"server.rs"], [("local async mutex", S+"sync.rs: LocalMutex"), ("single long-lived receive activity", S+"server.rs: Client::start")], ["lock, wake and drop operations"])

p("C27", "The example server authenticates only with a verified ed25519 signature",
  "The example server accepts a login only for a public-key attempt with algorithm ssh-ed25519 whose signature over the given message verifies under the presented key; none, password and every malformed key or signature are rejected without panicking.",
  ["inputs"], "every authentication attempt",
  "No test runs the example server.",
  ["nora_sshd/src/main.rs"], [("authenticate handler", "nora_sshd/src/main.rs: Handlers::authenticate")], ["result of the authenticate handler"])

p("C28", "The example server runs exactly the requested program and reports its exit",
  "An exec request runs the program named by the first whitespace-separated word with exactly the remaining words as arguments, a shell request runs $SHELL; all three standard streams are piped and handed to the session together with the exit status of that child, and a program that cannot be started is reported as a failure rather than a panic.",
  ["inputs", "fault_sequences"], "every command line and spawn failure",
  "No test runs the example server.",
  ["nora_sshd/src/main.rs"], [("spawn handler", "nora_sshd/src/main.rs: Handlers::spawn")], ["process command built, returned io set"])

p("C29", "scp never writes outside the requested destination",
  "Whatever file names the sending side announces, the receiver creates files only at the paths given on its command line or directly inside the given destination directory: a name that is empty, '.', '..' or contains a path separator is rejected before anything is created.",
  ["inputs"], "every header a sender can produce",
  "scp has no tests.",
  ["nora_scp/src/main.rs"], [("name check before File::create", "nora_scp/src/main.rs: receive")], ["paths passed to file creation"])

p("C30", "scp receives exactly the announced bytes of each file and acknowledges in step",
  "For every announced size the receiver writes exactly that many bytes, exactly as received and in order, into the file, then requires the terminating zero byte; it acknowledges with one zero byte at start, after each accepted header and after each complete file, and never acknowledges a failed step.",
  ["inputs", "fault_sequences"], "every size, content and I/O failure",
  "scp has no tests.",
  ["nora_scp/src/main.rs"], [("transfer loop", "nora_scp/src/main.rs: receive")], ["bytes read, written and acknowledged"])

p("C31", "scp announces and sends each file exactly",
  "For each requested file, in order, the sender waits for the receiver's zero byte, sends the header with the file's real size and its name, waits for the acknowledgement, sends exactly the announced number of content bytes from the file in order followed by a zero byte, and waits for the acknowledgement; any failure stops with an error.",
  ["inputs", "fault_sequences"], "every list of files, sizes and I/O failures",
  "scp has no tests.",
  ["nora_scp/src/main.rs"], [("send loop", "nora_scp/src/main.rs: send")], ["bytes written to the peer"])

p("C32", "Failures of scp are reported to the caller",
  "If any step of a transfer fails (bad arguments, malformed header, I/O error, missing acknowledgement), scp terminates with a non-zero exit status and a message; it exits with zero only if the whole requested transfer completed. No I/O result is silently discarded.",
  ["inputs", "fault_sequences"], "every failure at every step",
  "scp has no tests.",
  ["nora_scp/src/main.rs"], [("error propagation", "nora_scp/src/main.rs: main, start")], ["process exit status"])

p("C33", "The library is memory safe: unsafe code is confined to one sound cast",
  "The only unsafe operation in the workspace reinterprets a slice of byte arrays as bytes; no other unsafe operation, raw pointer dereference or unsafe implementation exists, so no input can corrupt memory through this code.",
  ["inputs", "programs"], "every use of the crates",
  "Tests cannot show absence of undefined behaviour.",
  [C+"key_exchange.rs", C+"lib.rs", S+"lib.rs", "nora_sshd/src/main.rs", "nora_scp/src/main.rs"], [("deny(unsafe_code) and a single unsafe block", C+"key_exchange.rs: gen")], ["unsafe operations in the compiled program"])

p("C37", "The server keeps serving whatever happens to single connections",
  "The server accepts connections for ever: every accepted connection is handed to authentication with its own pair of streams, every connection that authenticated is served, and neither a failed handshake, a failed login nor the end of a connection ends the server, stops it from accepting, or abandons another connection's handshake or session in progress.",
  ["histories", "schedules"], "every order in which accepts, handshakes and sessions complete or fail",
  "No test runs the server.",
  [S+"server.rs"], [("accept and serve loop", S+"server.rs: Server::start"), ("session loop", S+"server.rs: Client::start")], ["accepts, handshakes and sessions created, polled and dropped"])

p("C38", "The example server survives failures of its listening socket",
  "Whenever accepting a connection fails (the client is already gone, no file descriptors are left), the example server neither panics nor ends nor spins: it pauses, so that the existing connections go on, and tries again; every connection it accepts is handed over with its own two halves.",
  ["histories", "fault_sequences"], "every number and order of failed and successful accepts",
  "The example server has no tests, and accept failures need resource exhaustion.",
  ["nora_sshd/src/main.rs"], [("accept handler", "nora_sshd/src/main.rs: Handlers::accept")], ["outcomes of accept", "connections handed to the server"])

p("C39", "Every channel the client closes is closed exactly once by the server",
  "A CLOSE for an open channel on which no program was started is answered at once with exactly one CLOSE carrying the client's number; a channel with a program gets exactly one CLOSE, after all of the program's output, EOF and exit status, whether or not the client closed it before. A closed channel's number is free again and its program's input is closed.",
  ["histories", "schedules"], "every order of opens, requests, closes and program ends", "No test drives a channel.",
  [S+"server.rs"], [("close", S+"server.rs: Client::receive"), ("end of a program", S+"server.rs: Client::forward_program")], ["packets sent to the client"])

p("C40", "Only session channels are opened, with limits the server can keep",
  "A CHANNEL_OPEN is confirmed only if it asks for a session channel; any other type is answered with exactly one OPEN_FAILURE (reason unknown channel type) carrying the client's number, and opens nothing. The maximum packet size advertised in a confirmation is one the server can receive: a data message of that size, however padded, never exceeds the receive buffer.",
  ["inputs", "histories"], "every channel type, number, window and packet size a client can ask for", "No test drives a channel.",
  [S+"server.rs"], [("channel open", S+"server.rs: Client::receive")], ["confirmations and failures sent", "receive buffer size"])

p("C34", "Control flow never depends on secrets",
  "No branch of packet encryption and decryption, key derivation or the handshake depends on a computed authentication tag, an encryption key, the ephemeral private key, the keystream or a value derived from the shared secret; received tags are compared as a whole with the constant-time comparison of the crypto library. (The mpint encoding of the shared secret, whose length the protocol makes depend on it, and the inside of the crypto crates are not part of this.)",
  ["inputs"], "every key, tag and packet", "Timing is not observable in tests.",
  [C+"cipher/chacha20poly1305.rs", C+"key_exchange.rs", S+"host.rs"], [("constant-time tag comparison", C+"cipher/chacha20poly1305.rs: authenticate")], ["conditions of branches"])

p("C35", "Channel flow control windows are respected",
  "The server never sends more channel data than the peer's window and maximum packet size allow, and grants window as data is consumed.",
  ["histories"], "every sequence of data and window adjustments", "No test runs the server.",
  [S+"server.rs"], [("none: windows are not tracked", S+"server.rs: receive")])

p("C36", "A client cannot exhaust or stall the server for other clients",
  "No client can make the server use unbounded memory or stop serving other connections.",
  ["inputs", "schedules"], "every client behaviour", "Quantifies over unbounded resource use and timing.",
  [S+"server.rs"], [("per-connection futures in one task", S+"server.rs: Server::start")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
