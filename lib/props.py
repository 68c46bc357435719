"""Property -> obligation groups (group, regex over obligation names or None = all)."""
import importlib

MODS = ['chk_core', 'chk_pkt', 'chk_kex', 'chk_server', 'chk_apps', 'chk_misc']
_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    import importlib.util, os
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODS:
        if os.path.exists(os.path.join(here, m + '.py')):
            importlib.import_module(m)


COST = {'msg_parse': 10, 'kex': 50, 'auth': 5, 'channels': 20}

ASSUME = [
    'The MIR rustc emits for the dev profile of /repo\'s working tree is what runs; std, futures, generic-array and the '
    'crypto crates behave as their transfer functions in lib/models.py say.',
    'Single message fields are below 2^28 bytes (C01, C05); usize is 64 bits.',
    'A path that meets a construct the analysis does not model is imprecise and can only prove or stay undecided, never refute.',
]

_ABS = ('Path-sensitive abstract interpretation of the type-checked MIR over symbolic byte sequences and linear '
        'integer constraints: ')
LAY = r'layout|remainder|request name|result'
FIT = r'fails only|succeeds only|never panics|rest untouched|reported length'

PROPS = {
    'C01': dict(groups=[('msg_ser', LAY + '|reported length|rest untouched')],
                rule=_ABS + 'for every message variant with all fields symbolic, the bytes written to the buffer equal the RFC layout '
                'built from the same fields, on every path on which serialize returns Some.'),
    'C02': dict(groups=[('msg_parse', None), ('accessors', None), ('parse_string', None), ('namelist', r'accepts|text'), ('asciistr', None)],
                rule=_ABS + 'one symbolic input of arbitrary length; every Ok path must carry the path facts of one complete RFC format and '
                'fields equal to the input sub-ranges, every Err path must contradict every RFC format.'),
    'C03': dict(groups=[('session_ser', LAY + '|reported length|rest untouched'), ('session_parse', None), ('signals', None), ('parse_string', None)],
                rule=_ABS + 'as C01/C02 for session requests and signal names.'),
    'C04': dict(groups=[('msg_parse', 'panic'), ('session_parse', 'panic'), ('parse_string', 'panic'), ('namelist', 'panic|iteration'), ('asciistr', 'panic')],
                rule=_ABS + 'every panic edge (bounds, overflow, unwrap, explicit panic) in the call tree of the decoders is infeasible for all inputs.'),
    'C05': dict(groups=[('msg_ser', FIT), ('session_ser', FIT), ('sign_data', FIT)],
                rule=_ABS + 'buffer of symbolic length; Some is returned exactly under the path fact that the encoding fits, no panic edge is feasible, bytes after the encoding are unchanged.'),
    'C06': dict(groups=[('namelist', None), ('asciistr', None)],
                rule=_ABS + 'acceptance compared with the character-level definition of a name list for symbolic lists (every length up to the bound), iteration with the comma positions.'),
    'C08': dict(groups=[('sign_data', None)], rule=_ABS + 'output buffer of format_sign_data equals the RFC 4252 section 7 layout.'),
    'C07': dict(groups=[('mpint', None), ('exhash', 'exchange hash'), ('kdf', 'block'), ('msg_ser', 'EcdhReply: layout')],
                rule=_ABS + 'for integers of each listed byte length with symbolic bytes, the encoding is compared with the canonical mpint in each case of leading zero count and top bit.'),
    'C09': dict(groups=[('wrap', None), ('send', 'packet_length|padding|multiple|payload|panics')],
                rule=_ABS + 'Packet::wrap for all 8 block size / length conventions with symbolic payload length and content; resulting header, padding and payload compared with RFC 4253 section 6; same for what Out::send encrypts.'),
    'C10': dict(groups=[('pkt_parse', None), ('recv', 'fits|align|padding|payload|panics|consumes|accepts|errors')],
                rule=_ABS + 'packet::parse and In::recv over a symbolic byte stream and buffer length; accepted iff the length facts hold, accessors return exactly the stream sub-ranges, no panic edge feasible.'),
    'C11': dict(groups=[('cipher', r'length|encrypt|body|size|64'), ('send', 'keystream|tag|encrypted'), ('recv', 'payload is')],
                rule=_ABS + 'ChaCha20/Poly1305 as uninterpreted functions of key, nonce, block and bytes; the terms left in the packet buffer are compared with the construction of PROTOCOL.chacha20poly1305.'),
    'C12': dict(groups=[('cipher', 'decrypt:|decrypt_data'), ('recv', 'authenticated|payload is|consumes|counter')],
                rule=_ABS + 'every path on which decrypt_data / In::recv succeeds carries the fact tag == Poly1305(all preceding received bytes); on every failing path the body is unchanged.'),
    'C13': dict(groups=[('cipher', 'counter'), ('send', 'counter'), ('recv', 'counter'), ('kex', 'counter')],
                rule=_ABS + 'nonce the cipher would use after each operation compared with the nonce before it (+1 on success, unchanged on failure); initial value 3.'),
    'C14': dict(groups=[('kdf', None), ('cipher', '64 bytes|keystream|encrypt: body'), ('kex', 'side uses')],
                rule=_ABS + 'digest inputs as byte-sequence terms compared with RFC 4253 section 7.2 for every letter, direction and the listed output lengths; key terms inside the ciphers of the returned connection.'),
    'C15': dict(groups=[('exhash', None), ('kex', 'exchange hash|signed|session identifier|reply carries|shared secret|key names|consecutive'), ('wrap', 'payload|raw view')],
                rule=_ABS + 'on every path that reaches the signature, the digest input term is V_C V_S I_C I_S K_S Q_C Q_S K of exactly the received and written bytes.'),
    'C16': dict(groups=[('kex', 'proceeds|unsupported|missing|advertised'), ('namelist', 'iteration')],
                rule=_ABS + 'every path past negotiation carries the fact that each client list contains the implemented algorithm; every UnsupportedAlgorithms path carries the negation for one list; the KEXINIT bytes written are decoded and compared.'),
    'C17': dict(groups=[('kex', 'ECDH|only|NEWKEYS|errors|complete|nothing|identification|KEXINIT|consecutive|consumes|contributory|32 bytes|writes|panics|success'), ('accessors', 'kex|new_keys')],
                rule=_ABS + 'order of read, parse, sign and write events on every path of the handshake; success only with the complete event sequence.'),
    'C18': dict(groups=[('ident', None), ('kex', 'identification')],
                rule=_ABS + 'the parser\'s byte loop is run in product with a reference recogniser: states merged over byte classes before the version, all continuations of bounded length and all lengths around the limit after it.'),
    'C19': dict(groups=[('kex', 'random|fresh'), ('wrap', 'random'), ('send', 'random'), ('auth', 'random generator'), ('channels', 'generator'), ('forward', 'generator')],
                rule=_ABS + 'provenance of cookie, ephemeral key and padding bytes: each is a term of the connection\'s random generator.'),
    'C20': dict(groups=[('auth', 'before the key|keys of this|before authentication|success only|exactly one answer|authenticated connection|no effect|has an effect|starts with|probes never|unsupported'),
                        ('channels', 'as the authenticated user|only shell and exec'), ('tasks', 'authenticated|authentication'), ('callgraph', None)],
                rule=_ABS + 'every sequence of up to three free client messages (and longer scripted prefixes) is run from the key exchange on; each USERAUTH_SUCCESS, each answer, each spawn and the returned connection are compared with the handler answers on the same path; call graph: connections are built only by authentication, programs spawned only by connections.'),
    'C21': dict(groups=[('auth', 'mismatching|well-formed attempt|what the handler|sign data|probe|keys of this'), ('sign_data', LAY)],
                rule=_ABS + 'the byte-sequence terms handed to authenticate / public_key_exists and sent in PK_OK are compared with the sub-ranges of the received request on every path.'),
    'C22': dict(groups=[('auth', 'panic'), ('channels', 'panic|own lock'), ('forward', 'panic|own lock'), ('tasks', 'panic'), ('lock', 'panic'), ('borrows', None), ('kex', 'panic'), ('recv', 'panic'), ('send', 'panic'), ('ident', 'panic')],
                rule=_ABS + 'every panic edge (bounds, overflow, unwrap, RefCell borrow, explicit panic) in the call tree of the connection stages is infeasible for every input, handler answer and I/O failure; RefCell borrows held at suspension points are disjoint from those of concurrent tasks.'),
    'C23': dict(groups=[('channels', 'own number|not open|other messages|numbers|number of the peer|reaches only|EOF and close|requests do not touch|its channel|malformed'), ('forward', 'channel of the program')],
                rule=_ABS + 'all histories of open/request/data/EOF/close up to the bound over up to three channels, followed by one free message, run through the real channel table and compared with a reference model of the channel state.'),
    'C24': dict(groups=[('channels', 'exactly one|confirmation|spawn|command|success exactly|replies|handler|decoded|handed over|started'), ('session_parse', None)],
                rule=_ABS + 'same histories as C23: packets sent and spawns made in reaction to each message compared with the reference reaction.'),
    'C25': dict(groups=[('channels', 'data|EOF|input|handed over|its channel'), ('forward', None), ('tasks', 'program|receiving|connection ends|polled|abandoned')],
                rule=_ABS + 'bytes written to each program input, and packets sent by forward_program for symbolic reads of any size, compared with the concatenation of the data received / read; the task loop of a connection is run over all completion orders.'),
    'C26': dict(groups=[('lock', None), ('channels', 'under the lock|own lock|failed sends'), ('forward', 'under the lock|own lock|failed sends|keys of this'), ('tasks', 'abandoned|polled|one receive|this connection'), ('borrows', None)],
                rule=_ABS + 'all interleavings of three tasks polling, holding and releasing the lock; lock set at every packet write; task typestate (created, polled, finished, dropped) in the select loops.'),
    'C27': dict(groups=[('sshd_auth', None)],
                rule=_ABS + 'the handlers of the example server for every attempt (all fields symbolic) and every answer of the key decoder and verifier: every accepting path carries algorithm == ssh-ed25519 and a successful verification event over exactly the key, message and signature of the attempt; no panic edge is feasible.'),
    'C28': dict(groups=[('sshd_spawn', None)],
                rule=_ABS + 'commands of every length up to the bound with symbolic bytes: program and argument terms handed to the process builder compared with the reference word split on every path; pipes, wait future and exit code terms traced to the same child.'),
    'C29': dict(groups=[('scp_recv', 'destination|names are checked'), ('scp_free', 'destination|names are checked')],
                rule=_ABS + 'main of scp with free standard input and every scripted transfer: each path handed to File::create, create_dir_all or set_current_dir on any path is the command-line path (or its parent), or a name relative to the destination directory about which the path carries the facts non-empty, not ".", not "..", no "/".'),
    'C30': dict(groups=[('scp_recv', 'acknowledge|lost|zero byte|wait|announced name|receive|complete transfer|good transfer')],
                rule=_ABS + 'main of scp on symbolic transfers (sizes, names, contents free; truncated and malformed variants; every I/O operation may fail): byte terms written to each file compared with the content terms, every acknowledgement matched with the position of the input and the files stored so far.'),
    'C31': dict(groups=[('scp_send', None)],
                rule=_ABS + 'main of scp sending up to three files of free (and fixed multi-block) sizes, every acknowledgement byte free, every operation may fail: bytes written compared with header, content and zero byte of each file in order; each step preceded by its zero byte, output flushed before each wait.'),
    'C32': dict(groups=[('scp_recv', 'success|failures'), ('scp_send', 'success|failures'), ('scp_free', 'failures'), ('scp_args', None)],
                rule=_ABS + 'exit status and message on every path of main: zero only when the transfer of the path is complete and no operation on it failed.'),
    'C33': dict(groups=[('unsafe', None)], technique='type-checked HIR and MIR lint over the workspace: unsafe blocks, functions, implementations, operations',
                rule='every user-written unsafe block, unsafe fn, unsafe impl, mutable static and foreign item of the workspace is listed from rustc\'s HIR; each unsafe call inside must be align_to from byte arrays to u8.'),
    'C34': dict(groups=[('cipher', 'control flow'), ('kdf', 'control flow'), ('kex', 'control flow')],
                rule=_ABS + 'information flow into control flow: no path condition of encryption, decryption, key derivation or the handshake mentions the Poly1305 tag, a key, the keystream or a value derived from the shared secret, except the result of a constant-time comparison of the crypto crates.'),
    'C37': dict(groups=[('tasks', 'server|accept|served|polled|abandoned|task loop|connection ends|keeps receiving')],
                rule=_ABS + 'the accept loop and the session loop are run over all completion orders of accept, handshake, session, receive and program tasks (results free) up to the bound; typestate of each task (created, polled, finished, dropped) on every path.'),
    'C39': dict(groups=[('channels', 'close of a channel|EOF and close|close start nothing'), ('forward', 'EOF, exit status|its own channel|channel of the program')],
                rule=_ABS + 'same histories as C23: the answer to every CLOSE compared with the reference (one CLOSE with the number of the peer at once iff no program was started on the channel); forward_program sends its one CLOSE after EOF and exit status on every path.'),
    'C40': dict(groups=[('channels', 'other types|advertised|confirmation|own number|not open')],
                rule=_ABS + 'same histories as C23 with the type and limits of every CHANNEL_OPEN free: a confirmation only on paths that carry type == session, otherwise one OPEN_FAILURE with the number of the peer; the packet size in each confirmation plus framing compared with the receive buffer of every later receive.'),
    'C38': dict(groups=[('sshd_accept', None)],
                rule=_ABS + 'accept of the example server with every outcome of the listener (connection or error, errors repeated up to the bound): each path returns the two halves of exactly the one connection it accepted, no panic edge is feasible, a failure is followed by a pause and another attempt.'),
}

NA = {
    'C35': 'The library has no flow-control state at all (it never sends WINDOW_ADJUST and keeps no windows), so there is no construct a static rule could hold invariant; the guarantee is absent by design and quantifies over run-time amounts of data.',
    'C36': 'Memory use and progress depend on run-time scheduling, socket behaviour and the amount of data in flight; a static analysis of this source cannot bound them.',
}
