"""Authentication, channels, programs and sending (C20-C26, server part of C19)."""
import re
from fw import *
from chk_core import bounded
from chk_pkt import nopanic, async_run
from chk_kex import over_msg_parse, MSG
from models import fut

SRV = 'nora_ssh::server::Server'
CLI = 'nora_ssh::server::Client'
HND = 'nora_ssh::server::ServerHandlers'
HOSTC = 'nora_ssh::host::HostClient'
ARENA = 'nora_ssh::arena::Arena'
AUTH = 'nora_ssh::auth::Auth'
SPAWN = 'nora_ssh::server::SpawnType'
UA = 'nora_ssh_core::message::userauth::'
CH = 'nora_ssh_core::message::channel::'
HP = N('param', 'Handlers', 0)
RX, TX = N('rd'), N('wr')
TAG, BLK = 16, 8
OVERHEAD = 4 + 1 + 4 + BLK - 1 + TAG     # length, padding length, most padding, tag


WEAK = re.compile(r'(std::process::id|Default::default|time::(SystemTime|Instant|Duration)::\w+|thread::\w+|ThreadId::\w+|'
                  r'type_name|type_id|line|file|column|env::\w+|net::\w+.*)$')


def seeded(v):
    """True: seeded from system entropy, False: certainly not, None: unknown"""
    if not isinstance(v, Node) or v.op != 'rng':
        return None
    m, _, args = v.a
    if m == 'from_entropy':
        return True
    leaves = []

    def walk(x):
        if isinstance(x, Node):
            if x.op in ('rng', 'rnd', 'unk') or any(isinstance(y, str) and y.endswith(('OsRng', 'ThreadRng')) for y in x.a[:2]):
                leaves.append(x)
                return
            for y in x.a:
                walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    walk(args)
    if m == 'from_rng':
        if len(leaves) == 1:
            return seeded(leaves[0]) if leaves[0].op == 'rng' else True if leaves[0].op not in ('rnd', 'unk') else None
        return None
    if all(x.op == 'unk' and x.a[0] == 'opaque' and WEAK.search(str(x.a[1])) for x in leaves):
        return False
    return None


def seed_check(R, name, st, rng, W, detail):
    q = seeded(rng)
    R.check(name, st, q is True, W, detail, None if q is False else N('unk', 'seed', 0) if q is None else rng)


def seqof(E, st, v):
    return E.seq_of(st, models.as_slice(E, st, v))


class Script:
    """fixes the first messages of a history: kinds[k] (None = any), ans[k] the handler's answer (None = any).
    While a step is fixed no I/O fails; the steps after it are unconstrained."""

    def __init__(s, steps):
        s.steps = steps

    def kind(s, k):
        return s.steps[k][0] if 0 <= k < len(s.steps) else None

    def ans(s, k):
        return s.steps[k][1] if 0 <= k < len(s.steps) else None


def fixed(st, script, k=None):
    """is the step being processed fixed by the script?"""
    return script is not None and script.kind(st.gh.get('recv', 0) - 1 if k is None else k) is not None


def out2(st, good, bad, only=None):
    """fork: (state, value) for success and failure"""
    if only:
        st.dec += 1
        return [(good if only == 'Ok' else bad)(st)]
    b = st.clone()
    st.dec += 1
    b.dec += 1
    return [good(st), bad(b)]


def perr(kind, n):
    return N('sym', N(kind, n), UNKTY)


def over_host(E):
    """handle_new_client (decided by the kex group): an error or a client with its own keys and session id"""
    def poll(E, st, rd, wr, rng):
        k = (models.iokey(E, st, rd), models.iokey(E, st, wr), models.iokey(E, st, rng))

        def good(s):
            s.emit('kex', *k)
            return s, ok(N('sym', N('hc'), N('adt', HOSTC, (UNKTY,))))

        def bad(s):
            s.emit('kex failed', *k)
            return s, err(perr('kexerr', 0))
        return out2(st, good, bad)

    def f(E, st, c, args, dty):
        return [(st, models.fut('py', poll, args[1], args[2], args[3]))]
    E.over['nora_ssh::host::Host::handle_new_client'] = f


def advance(E, st, enc):
    """the cipher state after one packet: distinguishable from the state before"""
    p = models.norm(E, st, enc)
    if p.op == 'ptr':
        v = E.get(st, p)
        if v.op == 'sym':
            E.put(st, p, N('sym', N('next', v.a[0]), v.a[1]))


def base(t):
    n = 0
    while t.op == 'next':
        t = t.a[0]
        n += 1
    return t, n


def over_recv(E, script=None):
    """In::recv (decided by the recv group): an error, or some payload that fits behind header and tag"""
    def poll(E, st, enc, buf, io):
        p = models.as_slice(E, st, buf)
        k = st.gh.get('recv', 0)
        st.gh['recv'] = k + 1
        ek, ik = models.iokey(E, st, enc), models.iokey(E, st, io)
        L = slen(p)

        def good(s):
            t = N('pkt', k)
            n = lenatom(t)
            if not (s.assume(le0(lsub(ladd(n, K(4 + 1 + TAG)), L))) and s.assume(le0(lsub(K(0), n)))):
                return None
            j = N('junk', 'recv', k)
            E.put(s, p, mkseq([S(j, K(0), K(5)), S(t, K(0), n), S(j, K(5), lsub(lsub(L, n), K(5)))]))
            s.emit('recv', ek, ik, t, L)
            advance(E, s, enc)
            return s, ok(models.sub_ptr(p, K(5), n))

        def bad(s):
            models.havoc_slice(E, s, p)
            s.emit('recverr', ek, ik, None, L)
            return s, err(perr('recverr', k))
        if not st.le(K(4), L):
            for s2, y in E.branch(st.clone(), [(le0(lsub(K(4), L)), 1), (not_(le0(lsub(K(4), L))), 0)]):
                if not y:
                    E.panic(s2, 'receive buffer below 4 bytes', E.span)
        return [x for x in out2(st, good, bad, 'Ok' if fixed(st, script, k) else None) if x]

    def f(E, st, c, args, dty):
        return [(st, models.fut('py', poll, *args))]
    E.over['nora_ssh::host::In::recv'] = f


def over_send(E, script=None):
    """Out::send (decided by the send group): the payload the closure wrote is sent as one packet, or an error.
    Panics when packet and tag do not fit the buffer."""
    def poll(E, st, enc, buf, fill, io, rng):
        p = models.as_slice(E, st, buf)
        k = st.gh.get('send', 0)
        st.gh['send'] = k + 1
        ek, ik, rk = (models.iokey(E, st, x) for x in (enc, io, rng))
        L = slen(p)
        out = []
        # wrap() indexes buf[5..]
        head = le0(lsub(K(5), L))
        for s1, y in E.branch(st, [(head, 1), (not_(head), 0)]):
            if not y:
                E.panic(s1, 'send buffer too small', E.span)
                continue
            body = models.sub_ptr(p, K(5), lsub(L, K(5)))
            for s2, n in models.call_fnv(E, s1, fill, [body]):
                q = E.slice_seq(s2, E.seq_of(s2, body), K(0), n)
                fit = le0(lsub(ladd(n, K(OVERHEAD)), L))
                for s3, y in E.branch(s2, [(fit, 1), (not_(fit), 0)]):
                    if not y:
                        E.panic(s3, 'packet does not fit the send buffer', E.span)
                        continue
                    locks = tuple(x[0] for x in s3.gh.get('bor', ()) if x[1] == 'lock')

                    def good(s):
                        s.emit('send', ek, ik, q, rk, locks)
                        advance(E, s, enc)
                        models.havoc_slice(E, s, p)
                        return s, ok(UNIT)

                    def bad(s):
                        s.emit('senderr', ek, ik, q, rk, locks)
                        models.havoc_slice(E, s, p)
                        return s, err(perr('senderr', k))
                    out += out2(s3, good, bad, 'Ok' if fixed(s3, script) else None)
        return out

    def f(E, st, c, args, dty):
        return [(st, models.fut('py', poll, *args))]
    E.over['nora_ssh::host::Out::send'] = f


def over_handlers(E, script=None):
    """the application: any answer to any question, every question recorded"""
    def conv(E, st, a):
        a = E.deep(st, a) if a.op == 'ptr' and not isslice(a) else a
        return a

    def mk(name, res):
        def poll(E, st, *args):
            k = st.gh.get(name, 0)
            st.gh[name] = k + 1
            return res(E, st, k, args)

        def f(E, st, c, args, dty):
            return [(st, models.fut('py', poll, *args))]
        E.over[HND + '::' + name] = f

    def exists(E, st, k, a):
        q = [seqof(E, st, x) for x in a[1:5]]

        def good(s):
            s.emit('exists', k, *q, 'Ok')
            return s, ok(UNIT)

        def bad(s):
            s.emit('exists', k, *q, 'Err')
            return s, err(UNIT)
        return out2(st, good, bad, script and script.ans(st.gh.get('recv', 0) - 1))
    mk('public_key_exists', exists)

    def authenticate(E, st, k, a):
        u, sv = seqof(E, st, a[1]), seqof(E, st, a[2])
        au = a[3]
        vn = vname(E, st, au)
        fs = {}
        if vn == 'Password':
            fs = {'password': seqof(E, st, field(E, st, au, '0'))}
        elif vn == 'PublicKey':
            fs = {x: seqof(E, st, field(E, st, au, x)) for x in ('algorithm', 'key', 'signature', 'message')}
        fs = tuple(sorted(fs.items()))

        def good(s):
            s.emit('auth', k, u, sv, vn, fs, 'Ok')
            return s, ok(N('sym', N('user', k), N('alias', 'User', (), 'User')))

        def bad(s):
            s.emit('auth', k, u, sv, vn, fs, 'Err')
            return s, err(UNIT)
        return out2(st, good, bad, script and script.ans(st.gh.get('recv', 0) - 1))
    mk('authenticate', authenticate)

    def spawn(E, st, k, a):
        u = models.iokey(E, st, a[1])
        ty = vname(E, st, a[2])
        cmd = seqof(E, st, field(E, st, a[2], 'command')) if ty == 'Exec' else None

        def good(s):
            s.emit('spawn', k, u, ty, cmd, 'Ok')
            return s, ok(N('sym', N('ioset', k), N('adt', 'nora_ssh::server::IoSet', (N('param', 'Stdin', 0), N('param', 'Stdout', 1), N('param', 'Stderr', 2)))))

        def bad(s):
            s.emit('spawn', k, u, ty, cmd, 'Err')
            return s, err(UNIT)
        return out2(st, good, bad, script and script.ans(st.gh.get('recv', 0) - 1))
    mk('spawn', spawn)


def over_parse(E, kinds, script=None):
    """Message::parse(p) (decided by the msg_parse group): an error, or the message p encodes - forked into the given
    kinds of specs.MESSAGES plus 'something else'; kinds(k, st): names for the k-th received packet"""
    from specs import MESSAGES
    spec = {m[0]: m for m in MESSAGES}

    def pin(s, m, path, extra, v0):
        for n in path:
            discr_sym(E, s, m, n)
            m = field(E, s, m, '0')
        for f in extra:
            if f[0] == 'variant':
                discr_sym(E, s, getpath(E, s, m, f[1]), f[2])
        return m

    def notv(s, m, name):
        d = variants(E, key_of(m))[vindex(E, key_of(m), name)][1]
        return s.assume(not_(eq0(lsub(atom(N('discr', m.a[0])), K(d)))))

    def f(E, st, c, args, dty):
        q = E.seq_of(st, models.as_slice(E, st, args[0]))
        m = N('sym', N('msgof', q), N('adt', MSG, ()))
        seen = st.gh.get(('parsed', q))
        if seen:
            return [(st, ok(m) if seen == 1 else err(perr('perr', q)))]
        k = st.gh.get('recv', 0) - 1
        want = script(k) if script else None
        out = []
        st.dec += 1
        names = kinds(k, st)
        paths = [spec[n][1] for n in names]
        for n in names:
            if want and n != want:
                continue
            s = st.clone()
            body = pin(s, m, spec[n][1], spec[n][3], None)
            good = True
            for s2, segs in encode(E, s, body, [('u8', spec[n][2])] + spec[n][3]):
                good = s2.assume(eq0(lsub(seqlen(mkseq(segs)), seqlen(q))))
            if not good:
                continue
            s.gh[('parsed', q)] = 1
            s.gh[('kind', k)] = n
            s.emit('parsed', q, n)
            out.append((s, ok(m)))
        if not want:
            tops = sorted({p[0] for p in paths})
            s = st.clone()
            if all([notv(s, m, t) for t in tops]):
                s.gh[('parsed', q)] = 1
                s.gh[('kind', k)] = None
                s.emit('parsed', q, None)
                out.append((s, ok(m)))
            for t in tops:
                inner = sorted({p[1] for p in paths if p[0] == t and len(p) > 1})
                if not inner:
                    continue
                s = st.clone()
                discr_sym(E, s, m, t)
                if all([notv(s, field(E, s, m, '0'), i) for i in inner]):
                    s.gh[('parsed', q)] = 1
                    s.gh[('kind', k)] = None
                    s.emit('parsed', q, None)
                    out.append((s, ok(m)))
            st.gh[('parsed', q)] = 2
            st.emit('parse failed', q)
            out.append((st, err(perr('perr', q))))
        return out
    E.over[MSG + '::parse'] = f


def over_all(E, kinds, script=None):
    over_host(E)
    over_recv(E, script)
    over_send(E, script)
    over_handlers(E, script)
    over_parse(E, kinds, script and script.kind)


def strq(*parts):
    s = []
    for p in parts:
        if isinstance(p, int):
            s.append(C(bytes([p])))
        elif isinstance(p, bytes):
            s.append(C(p))
        else:
            s += list(p)
    return mkseq(s)


def num(l):
    return list(int_segs(l, 4))


def msg_of(k):
    t = N('pkt', k) if isinstance(k, int) else k
    return N('sym', N('msgof', mkseq([S(t, K(0), lenatom(t))])), N('adt', MSG, ()))


def sub(E, st, v, *path):
    for p in path:
        v = field(E, st, v, p)
    return v


def variant_path(E, st, m, *names):
    """descend m through the single payload of the named variants; None if the path facts do not establish them"""
    for n in names:
        if vname(E, st, m) != n:
            return None
        m = field(E, st, m, '0')
    return m


def two_strings(E, st, q):
    """q = string(a) string(b) exactly, on this path: (a, b) or None"""
    n = seqlen(q)
    if not st.le(K(4), n):
        return None
    la = segs_int(E.slice_seq(st, q, K(0), K(4)).a[0])
    o = ladd(la, K(4))
    if not st.le(ladd(o, K(4)), n):
        return None
    lb = segs_int(E.slice_seq(st, q, o, K(4)).a[0])
    if not st.eq(ladd(ladd(o, K(4)), lb), n):
        return None
    return E.slice_seq(st, q, K(4), la), E.slice_seq(st, q, ladd(o, K(4)), lb)


def may_two_strings(E, st, q, alg):
    """could q be string(alg) string(b) on this path? (used for refusals) False when contradicted"""
    s = st.clone()
    n = seqlen(q)
    if not s.assume(le0(lsub(K(8), n))):
        return False
    la = segs_int(E.slice_seq(s, q, K(0), K(4)).a[0])
    o = ladd(la, K(4))
    if not s.assume(le0(lsub(ladd(o, K(4)), n))):
        return False
    lb = segs_int(E.slice_seq(s, q, o, K(4)).a[0])
    if not s.assume(eq0(lsub(ladd(ladd(o, K(4)), lb), n))):
        return False
    return s.assume(seqeq(E, s, E.slice_seq(s, q, K(4), la), alg))


def same(E, st, a, b):
    return seq_same(E, st, a, b) or st.decide(seqeq(E, st, a, b)) is True


REQS = ['Request/None', 'Request/PublicKeyBlob', 'Request/PublicKeySigned', 'Request/Password', 'Request/PasswordRenew',
        'Request/HostBased', 'Request/Other']


def auth_kinds(k, st):
    return ['ServiceRequest'] if k == 0 else REQS


def run_auth(R, E, script=None):
    P = R.P
    f = fn(P, SRV + '::authenticate_new_client')
    over_all(E, auth_kinds, script)
    st = St()
    server = E.sym_ref(N('server'), N('adt', SRV, (HP,)))
    rd = N('sym', RX, N('alias', 'Read', (), 'Read'))
    wr = N('sym', TX, N('alias', 'Write', (), 'Write'))
    return f, server, async_run(E, f, [server, rd, wr], st)


def hc_fields(E):
    """session id, receive and send cipher of a HostClient, by type"""
    d = E.adtdef(HOSTC)
    r = {}
    for i, f in enumerate(d['variants'][0][2]):
        k = f[1].a[0].split('::')[-1] if f[1].op == 'adt' else f[1].op
        r[k] = N('fld', N('hc'), 0, i)
    if not {'In', 'Out', 'array'} <= set(r):
        raise Missing('fields of HostClient')
    return r


def segments(evs):
    """events before the first receive, then one list per receive"""
    segs = [[]]
    for e in evs:
        if e[0] in ('recv', 'recverr'):
            segs.append([])
        segs[-1].append(e)
    return segs


def is_failure(E, st, q):
    """SSH_MSG_USERAUTH_FAILURE: byte 51, a name-list, partial success false"""
    n = st.simp(seqlen(q))
    if not st.le(K(6), n):
        return False
    if not seq_same(E, st, E.slice_seq(st, q, K(0), K(1)), lit(b'\x33')):
        return False
    l = segs_int(E.slice_seq(st, q, K(1), K(4)).a[0])
    if l is None or not st.eq(ladd(l, K(6)), n):
        return False
    return seq_same(E, st, E.slice_seq(st, q, lsub(n, K(1)), K(1)), lit(b'\0'))


def first_byte(E, st, q):
    n = st.simp(seqlen(q))
    if not st.le(K(1), n):
        return None
    x = segs_int(E.slice_seq(st, q, K(0), K(1)).a[0])
    return None if x is None else cval(st.simp(x))


def auth_scripts(deep):
    """prefixes of several attempts of one kind, then anything"""
    n = 12 if deep else 6
    r = {'any1': (0, None), 'any2': (1, None)}
    if deep:
        r['any3'] = (2, None)
    svc = ('ServiceRequest', None)
    for kind, ans in (('Request/None', 'Err'), ('Request/Password', 'Err'), ('Request/PublicKeyBlob', 'Ok'), ('Request/PublicKeyBlob', 'Err'),
                      ('Request/PublicKeySigned', 'Err'), ('Request/Other', None), ('Request/HostBased', None), ('Request/PasswordRenew', None)):
        r['%d x %s %s' % (n, kind, ans)] = (n, Script([svc] + [(kind, ans)] * n))
    mix = [('Request/PublicKeyBlob', 'Ok'), ('Request/Password', 'Err'), ('Request/PublicKeySigned', 'Err'), ('Request/None', 'Err')]
    r['mixed'] = (4, Script([svc] + mix))
    r['mixed2'] = (4, Script([svc] + mix[::-1]))
    return r


@group('auth', lambda deep: list(auth_scripts(deep)))
def g_auth(R, part, deep):
    E = R.eng()
    E.peel, script = auth_scripts(deep)[part]
    f, server, outs = run_auth(R, E, script)
    W = f.name
    H = hc_fields(E)
    for st, r in outs:
        check_auth(R, E, st, r, W, H)
    nopanic(R, E, 'authentication never panics', W, 'from messages of the client, I/O failures or handler answers')
    if script is None:
        R.want('success only after the handler accepted', 'exactly one answer per attempt', 'what the handler is asked',
               'sign data of this connection', 'probe answer', 'authenticated connection')
    R.absorb(E)


def check_auth(R, E, st, r, W, H):
    evs = st.events()
    segs = segments(evs)
    okr = vname(E, st, r)
    SUCC = lit(b'\x34')
    # -------- key exchange first
    pre = [e for e in segs[0] if e[0] in ('kex', 'kex failed', 'send', 'senderr', 'auth', 'exists')]
    R.check('nothing happens before the key exchange', st, len(pre) == 1 and pre[0][0] in ('kex', 'kex failed') or not pre and okr == 'Err' and len(segs) == 1, W,
            'first events are %s' % [e[0] for e in pre])
    if not pre or pre[0][0] != 'kex':
        R.check('authenticated connection', st, okr == 'Err' and len(segs) == 1, W, 'continues although the key exchange failed')
        return
    rng = pre[0][3]
    seed_check(R, 'one random generator seeded from entropy', st, rng, W, 'generator is %s' % show(rng))
    # -------- every packet goes through this connection's ciphers and streams
    ni = no = 0
    for e in evs:
        if e[0] in ('recv', 'recverr'):
            b, n = base(e[1])
            R.check('packets use the keys of this connection', st, b is H['In'] and n == ni and e[2] is RX, W, 'received with %s from %s' % (show(e[1]), show(e[2])), e[1])
            ni += 1
        if e[0] in ('send', 'senderr'):
            b, n = base(e[1])
            R.check('packets use the keys of this connection', st, b is H['Out'] and n == no and e[2] is TX, W, 'sent with %s to %s' % (show(e[1]), show(e[2])), e[1])
            R.check('one random generator seeded from entropy', st, e[4] is rng, W, 'padding from %s' % show(e[4]), e[4])
            no += 1
    succeeded = None
    for i, sg in enumerate(segs[1:]):
        last = i == len(segs) - 2
        auth = [e for e in sg if e[0] == 'auth']
        exists = [e for e in sg if e[0] == 'exists']
        sends = [e for e in sg if e[0] in ('send', 'senderr')]
        kind = next((e[2] for e in sg if e[0] == 'parsed'), None)
        ended = sg[0][0] == 'recverr' or not any(e[0] == 'parsed' for e in sg)
        lost = any(e[0] == 'senderr' for e in sg)
        spawned = [e for e in sg if e[0] == 'spawn']
        R.check('nothing runs before authentication', st, not spawned, W, 'a program is spawned while authenticating')
        succ = [e for e in sends if first_byte(E, st, e[3]) in (0x34, None)]
        # ---- success
        for e in succ:
            good = same(E, st, e[3], SUCC) and len(auth) == 1 and auth[0][6] == 'Ok' and sg.index(auth[0]) < sg.index(e) and len(succ) == 1
            R.check('success only after the handler accepted', st, good, W,
                    'a packet %s is sent with handler answers %s' % (show(e[3])[:80], [a[6] for a in auth]), e[3])
            if e[0] == 'send':
                succeeded = auth[0] if auth else e
                R.check('exactly one answer per attempt', st, last and sg[-1] is e or all(x[0] not in ('send', 'recv', 'auth', 'exists') for x in sg[sg.index(e) + 1:]),
                        W, 'something follows USERAUTH_SUCCESS before the connection is handed over')
        if lost:
            R.check('authenticated connection', st, okr == 'Err' and last, W, 'continues although sending failed')
        if ended:
            R.check('nothing but well-formed messages has an effect', st, not auth and not exists and not sends and last and okr == 'Err', W,
                    'a receive error or malformed packet leads to %s' % [e[0] for e in sg])
            continue
        m = msg_of(i)
        if i == 0:
            R.check('authentication starts with the ssh-userauth service', st, not auth and not exists, W, 'a handler is asked before the service request was accepted')
            name = None
            if kind == 'ServiceRequest':
                name = bytesof(E, st, field(E, st, field(E, st, m, '0'), 'service_name'))
            if name is not None and st.decide(seqeq(E, st, name, lit(b'ssh-userauth'))) is True:
                R.check('authentication starts with the ssh-userauth service', st,
                        len(sends) == 1 and same(E, st, sends[0][3], strq(6, num(K(12)), b'ssh-userauth')), W,
                        'answer to the service request is %s' % [show(e[3])[:120] for e in sends])
            else:
                R.check('authentication starts with the ssh-userauth service', st, last and okr == 'Err' and all(first_byte(E, st, e[3]) not in (6, 52, None) for e in sends), W,
                        'continues with %s after a message that is not a request of ssh-userauth' % [show(e[3])[:80] for e in sends])
            continue
        if kind is None:
            R.check('nothing but well-formed messages has an effect', st, not auth and not exists and not succ and not (last and okr == 'Ok'), W,
                    'a message that is no authentication request leads to %s' % [e[0] for e in sg])
            continue
        req = field(E, st, field(E, st, m, '0'), '0')
        user, svc = (bytesof(E, st, field(E, st, req, x)) for x in ('user', 'service'))
        meth = field(E, st, req, 'method')
        mk = kind.split('/')[1]

        def mf(x):
            return bytesof(E, st, field(E, st, meth, x))
        fails = [e for e in sends if is_failure(E, st, e[3])]
        onefail = len(sends) == 1 and len(fails) == 1
        shown = [show(e[3])[:100] for e in sends]
        if mk in ('None', 'Password', 'PublicKeySigned'):
            if mk == 'PublicKeySigned':
                alg, blob, sgn = mf('algorithm'), mf('key'), mf('signature')
                kb, sb = two_strings(E, st, blob), two_strings(E, st, sgn)
                fine = kb is not None and sb is not None and same(E, st, kb[0], alg) and same(E, st, sb[0], alg)
                if auth and not fine:
                    R.check('mismatching or malformed keys never reach the handler', st, False, W,
                            'the handler is asked although the %s is not shown to be exactly string(algorithm) string(data)' % (
                                'key blob' if kb is None or not same(E, st, kb[0], alg) else 'signature'), blob, sgn)
                else:
                    R.check('mismatching or malformed keys never reach the handler', st, True, W, '')
                if not auth:
                    sid = mkseq([S(H['array'], K(0), K(32))])
                    tot = K(4 + 32 + 1 + 4 + 4 + 4 + 9 + 1 + 4 + 4)
                    for x in (user, svc, alg, blob):
                        tot = ladd(tot, seqlen(x))
                    s2 = st.clone()
                    can = may_two_strings(E, st, blob, alg) and may_two_strings(E, st, sgn, alg) and s2.assume(le0(lsub(tot, K(1024))))
                    R.check('every well-formed attempt reaches the handler', st, not can, W, 'a signed attempt that may be well formed is not put to the handler')
                    R.check('success only after the handler accepted', st, not succ and not (last and okr == 'Ok'), W, 'success without asking')
                    R.check('exactly one answer per attempt', st, onefail or (not sends and last and okr == 'Err') or lost, W, 'answers: %s' % shown)
                    continue
            R.check('every well-formed attempt reaches the handler', st, len(auth) == 1 and not exists, W, 'handler asked %d times' % len(auth))
            if len(auth) != 1:
                continue
            a = auth[0]
            R.check('what the handler is asked', st, same(E, st, a[2], user) and same(E, st, a[3], svc), W, 'asked for user %s service %s' % (show(a[2])[:80], show(a[3])[:80]), a[2], a[3])
            fs = dict(a[5])
            R.check('what the handler is asked', st, a[4] == {'PublicKeySigned': 'PublicKey'}.get(mk, mk), W, 'a %s request is put to the handler as %s' % (mk, a[4]))
            if mk == 'Password' and 'password' in fs:
                R.check('what the handler is asked', st, same(E, st, fs['password'], mf('password')), W, 'password is %s' % show(fs['password'])[:120], fs['password'])
            if mk == 'PublicKeySigned' and a[4] == 'PublicKey' and fine:
                for nm, x, y in (('algorithm', fs['algorithm'], alg), ('key', fs['key'], kb[1]), ('signature', fs['signature'], sb[1])):
                    R.check('what the handler is asked', st, same(E, st, x, y), W, '%s is %s' % (nm, show(x)[:160]), x)
                exp = strq(num(K(32)), [S(H['array'], K(0), K(32))], 50, strseg(user), strseg(svc), num(K(9)), b'publickey', 1, strseg(alg), strseg(blob))
                x = fs['message']
                R.check('sign data of this connection', st, same(E, st, x, exp), W, 'message is %s instead of %s' % (show(x)[:300], show(exp)[:300]), x)
            if a[6] == 'Ok':
                R.check('exactly one answer per attempt', st, len(sends) == 1 and len(succ) == 1, W, 'an accepted attempt is answered %s' % shown)
                if not lost:
                    R.check('authenticated connection', st, last and okr == 'Ok', W, 'an accepted and answered attempt does not end authentication')
            else:
                R.check('exactly one answer per attempt', st, onefail, W, 'a rejected attempt is answered %s' % shown)
                R.check('authenticated connection', st, not (last and okr == 'Ok'), W, 'authenticated although the handler refused')
        elif mk == 'PublicKeyBlob':
            alg, blob = mf('algorithm'), mf('blob')
            kb = two_strings(E, st, blob)
            fine = kb is not None and same(E, st, kb[0], alg)
            R.check('key probes never authenticate', st, not auth and not succ and not (last and okr == 'Ok'), W, 'a key probe leads to %s' % [e[0] for e in sg])
            pk = [e for e in sends if first_byte(E, st, e[3]) in (60, None)]
            if exists:
                x = exists[0]
                R.check('what the handler is asked', st, len(exists) == 1 and fine and same(E, st, x[2], user) and same(E, st, x[3], svc) and same(E, st, x[4], alg) and same(E, st, x[5], kb[1]),
                        W, 'probe asks for %s' % [show(y)[:80] for y in x[2:6]], *x[2:6])
                R.check('mismatching or malformed keys never reach the handler', st, fine, W, 'the handler is asked about a key blob not shown to be exactly string(algorithm) string(key)', blob)
            else:
                R.check('every well-formed attempt reaches the handler', st, not may_two_strings(E, st, blob, alg), W, 'a probe that may be well formed is not put to the handler')
                R.check('probe answer', st, not pk, W, 'PK_OK without asking')
                R.check('exactly one answer per attempt', st, onefail or (not sends and last and okr == 'Err'), W, 'answers: %s' % shown)
                continue
            if exists[0][6] == 'Ok':
                exp = strq(60, strseg(alg), strseg(blob))
                R.check('probe answer', st, len(sends) == 1 and same(E, st, sends[0][3], exp), W, 'known key answered %s' % shown)
            else:
                R.check('probe answer', st, onefail, W, 'unknown key answered %s' % shown)
        else:
            R.check('unsupported methods fail', st, not auth and not exists and onefail and not (last and okr == 'Ok'), W,
                    '%s leads to %s' % (mk, [e[0] for e in sg]))
    R.check('authenticated connection', st, (okr == 'Ok') == (succeeded is not None), W, 'result %s with%s USERAUTH_SUCCESS sent' % (okr, '' if succeeded else 'out'))


# ------------------------------------------------------------------ borrows and locks
def track_borrows(E):
    """RefCell borrow state: a second conflicting borrow_mut panics, try_borrow_mut reports it"""
    def conflict(st, p, shared):
        b = st.gh.get('bor', ())
        return any(x[0] is p and not (shared and x[1] == 'shared') for x in b)

    def borrow(E, st, p, shared):
        if conflict(st, p, shared):
            E.panic(st, 'RefCell already borrowed', E.span)
            return False
        st.emit('borrow', p, tuple(x[0] for x in st.gh.get('bor', ()) if x[1] == 'lock'))
        st.gh['bor'] = st.gh.get('bor', ()) + ((p, 'shared' if shared else 'mut'),)
        return True

    def tryb(E, st, p):
        if conflict(st, p, False):
            return [(st, err(N('sym', N('borrowerr'), UNKTY)))]
        st.gh['bor'] = st.gh.get('bor', ()) + ((p, 'lock'),)
        return [(st, ok(N('agg', 'refmut', '', 0, (p,), ())))]

    def drop(E, st, v):
        if v.op == 'agg' and v.a[0] == 'refmut':
            b = list(st.gh.get('bor', ()))
            for i in range(len(b) - 1, -1, -1):
                if b[i][0] is v.a[3][-1]:
                    del b[i]
                    break
            st.gh['bor'] = tuple(b)
    E.hooks['borrow'] = borrow
    E.hooks['try_borrow'] = tryb
    E.hooks['drop'] = drop


# ------------------------------------------------------------------ channels
SESS = 'nora_ssh_core::message::channel::session::SessionRequest'
CKINDS = ['Open', 'ChannelRequest', 'Data', 'Eof', 'Close']
NCH = 3


def over_session(E, script=None):
    """SessionRequest::parse (decided by session_parse): shell, exec of some command, any other request, or an error"""
    def f(E, st, c, args, dty):
        ty, data = seqof(E, st, args[0]), seqof(E, st, args[1])
        k = st.gh.get('recv', 0) - 1
        want = script.sub(k) if script else None
        out = []
        m = N('sym', N('sess', ty, data), N('adt', SESS, ()))
        for n in ('Shell', 'Exec'):
            if want in (None, n):
                s = st.clone()
                s.dec += 1
                discr_sym(E, s, m, n)
                good = s.assume(seqeq(E, s, ty, lit(b'shell' if n == 'Shell' else b'exec')))
                if n == 'Exec':
                    q = bytesof(E, s, field(E, s, m, 'command'))
                    good = good and s.assume(eq0(lsub(ladd(seqlen(q), K(4)), seqlen(data))))
                else:
                    good = good and s.assume(eq0(seqlen(data)))
                if good:
                    s.emit('session', ty, data, n)
                    out.append((s, ok(m)))
        if want in (None, 'rest'):
            s = st.clone()
            s.dec += 1
            vs = variants(E, SESS)
            if all([s.assume(not_(eq0(lsub(atom(N('discr', m.a[0])), K(vs[vindex(E, SESS, n)][1]))))) for n in ('Shell', 'Exec')]):
                s.emit('session', ty, data, 'other')
                out.append((s, ok(m)))
            st.dec += 1
            st.emit('session', ty, data, 'bad')
            out.append((st, err(perr('sesserr', k))))
        return out
    E.over[SESS + '::parse'] = f


class ChScript(Script):
    """steps: (kind, answer, channel, session kind, want_reply) - None entries are free"""

    def get(s, k, i):
        k -= s.off
        return s.steps[k][i] if 0 <= k < len(s.steps) else None

    def __init__(s, steps, off):
        s.steps, s.off = steps, off

    def kind(s, k):
        if k < s.off:
            return ['ServiceRequest', 'Request/None'][k] if k >= 0 else None
        return s.get(k, 0)

    def ans(s, k):
        return 'Ok' if k < s.off else s.get(k, 1)

    def chan(s, k):
        return s.get(k, 2)

    def sub(s, k):
        return s.get(k, 3)

    def reply(s, k):
        return s.get(k, 4)


AUTHED = 2      # packets received before channels start


def ch_kinds(k, st):
    return ['ServiceRequest'] if k == 0 else REQS if k < AUTHED else CKINDS


def over_recipient(E, script):
    """fork received channel messages over the recipient numbers 0..NCH-1 and 'larger', and over want_reply"""
    inner = E.over[MSG + '::parse']

    def f(E, st, c, args, dty):
        out = []
        for s, v in inner(E, st, c, args, dty):
            k = s.gh.get('recv', 0) - 1
            kd = s.gh.get(('kind', k))
            if kd in ('ChannelRequest', 'Data', 'Eof', 'Close') and ('rc', k) not in s.gh:
                m = variant_path(E, s, msg_of(k), 'Channel', {'ChannelRequest': 'Request'}.get(kd, kd))
                x = field(E, s, m, 'recipient_channel')
                s.gh[('rc', k)] = 1
                w = script.chan(k) if script else None
                for i in range(NCH + 1):
                    if w is not None and i != w:
                        continue
                    n = s.clone()
                    if n.assume(eq0(lsub(x, K(i))) if i < NCH else le0(lsub(K(NCH), x))):
                        n.gh[('rc', k)] = i
                        if kd == 'ChannelRequest':
                            b = E.as_bool(field(E, n, m, 'want_reply'))
                            for y in (True, False):
                                if script and script.reply(k) is not None and script.reply(k) != y:
                                    continue
                                o = n.clone()
                                if o.assume(b if y else not_(b)):
                                    out.append((o, v))
                        else:
                            out.append((n, v))
            elif kd == 'Open' and script and script.kind(k):
                # earlier opens are those of session channels, except for step N
                m = variant_path(E, s, msg_of(k), 'Channel', kd)
                f = seqeq(E, s, bytesof(E, s, field(E, s, m, 'ty')), lit(b'session'))
                if ('ty', k) in s.gh or s.assume(not_(f) if script.sub(k) == 'other' else f):
                    s.gh[('ty', k)] = 1
                    out.append((s, v))
            else:
                out.append((s, v))
        return out
    E.over[MSG + '::parse'] = f


def authed(R, E, script):
    """the client value authenticate_new_client returns after one accepted request"""
    f, server, outs = run_auth(R, E, script)
    outs = [(st, r) for st, r in outs if vname(E, st, r) == 'Ok']
    if len(outs) != 1:
        raise Undecided('authentication of the first request has %d accepting paths' % len(outs))
    st, r = outs[0]
    st.ev = None
    st.log = None
    o = N('heap', 'client')
    st.mem[o] = field(E, st, r, '0')
    return server, st, ptr(o)


def run_history(R, E, script, nmsg):
    """receive() repeatedly until nmsg channel messages were processed: [(st, result)] of all finished histories"""
    over_session(E, script)
    track_borrows(E)
    global_kinds = ch_kinds
    server, st, cl = authed(R, E, script)
    f = fn(R.P, CLI + '::receive')
    # from here on: channel messages, recipients forked
    over_parse(E, global_kinds, script and script.kind)
    over_recipient(E, script)
    if _watch:
        _watch(E)
    done = []
    cutoff = AUTHED + nmsg

    inner = E.over['nora_ssh::host::In::recv']

    def recv(E, st, c, args, dty):
        if st.gh.get('recv', 0) >= cutoff:
            st.emit('end')
            done.append((st, None))
            return []
        return inner(E, st, c, args, dty)
    E.over['nora_ssh::host::In::recv'] = recv
    work = [st]
    while work:
        st = work.pop()
        n0 = st.gh.get('recv', 0)
        for s, r in async_run(E, f, [cl, server], st):
            if vname(E, s, r) == 'Ok' and s.gh.get('recv', 0) > n0:
                act = field(E, s, r, '0')
                if vname(E, s, act) == 'NewIo':
                    s.emit('action', act)
                    work.append(s)
                    continue
            done.append((s, r))
    return done, cl, f


def reaches(v, t, memo=None):
    """does the value mention term t?"""
    memo = {} if memo is None else memo
    if v is t:
        return True
    if isinstance(v, Node):
        if v in memo:
            return memo[v]
        memo[v] = False
        r = any(reaches(x, t, memo) for x in v.a)
        memo[v] = r
        return r
    if isinstance(v, tuple):
        return any(reaches(x, t, memo) for x in v)
    return False


def io_field(E, st, k, name):
    v = N('sym', N('ioset', k), IOSET)
    return field(E, st, v, name)


IOSET = N('adt', 'nora_ssh::server::IoSet', (N('param', 'Stdin', 0), N('param', 'Stdout', 1), N('param', 'Stderr', 2)))


def u32at(E, st, q, o):
    if not st.le(K(o + 4), st.simp(seqlen(q))):
        return None
    return segs_int(E.slice_seq(st, q, K(o), K(4)).a[0])


def check_history(R, E, st, r, cl, W, H, strict=True):
    """compare one history with the reference model of channels"""
    evs = st.events()
    segs = segments(evs)
    chans = {}
    nsend = 2
    adv = []
    okr = vname(E, st, r) if r is not None else None
    for i, sg in enumerate(segs[1:]):
        k = AUTHED + i
        last = i == len(segs) - 2
        # ---------- every packet under the lock, with this connection's keys
        for e in sg:
            if e[0] in ('send', 'senderr'):
                b, n = base(e[1])
                R.check('packets use the keys of this connection', st, b is H['Out'] and n == nsend and e[2] is TX, W, 'sent with %s to %s' % (show(e[1])[:80], show(e[2])[:80]), e[1])
                nsend += 1
                R.check('packets are sent under the lock', st, len(e[5]) >= 1, W, 'a packet is written without holding an exclusive lock')
                seed_check(R, 'padding from the generator of this connection', st, e[4], W, 'padding from %s' % show(e[4])[:80])
            if e[0] in ('recv', 'recverr'):
                b, n = base(e[1])
                R.check('packets use the keys of this connection', st, b is H['In'] and n == k and e[2] is RX, W, 'received with %s' % show(e[1])[:80], e[1])
                for x in adv:
                    # number, channel, type, length; padding length, padding; packet length, tag
                    R.check('data of the advertised size can be received', st, st.le(ladd(x, K(13 + 1 + 255 + 4 + TAG)), e[4]), W,
                            'data of up to %s bytes is invited, the receive buffer has %s' % (show(x)[:80], show(e[4])), x, e[4])
        sends = [e for e in sg if e[0] in ('send', 'senderr')]
        spawns = [e for e in sg if e[0] == 'spawn']
        writes = [e for e in sg if e[0] in ('write', 'writeerr')]
        acts = [e for e in sg if e[0] == 'action']
        lost = any(e[0] == 'senderr' for e in sg)
        shown = [show(e[3])[:100] for e in sends]
        names = [e[0] for e in sg if e[0] not in ('borrow', 'recv', 'parsed', 'end')]
        ended = not any(e[0] == 'parsed' for e in sg)
        if lost:
            R.check('failed sends end the connection', st, last and okr == 'Err' and not acts, W, 'continues although sending failed')
        if ended:
            R.check('malformed packets have no effect', st, not sends and not spawns and not writes and not acts and last and okr == 'Err', W,
                    'a receive error or malformed packet leads to %s' % names)
            continue
        kind = next(e[2] for e in sg if e[0] == 'parsed')
        if kind is None or kind not in CKINDS:
            R.check('other messages affect no channel', st, not spawns and not writes and not acts and all(first_byte(E, st, e[3]) not in range(80, 101) for e in sends), W,
                    'a message that names no channel operation leads to %s' % names)
            continue
        m = variant_path(E, st, msg_of(k), 'Channel', {'ChannelRequest': 'Request'}.get(kind, kind))
        if kind == 'Open':
            peer = field(E, st, m, 'sender_channel')
            if st.decide(seqeq(E, st, bytesof(E, st, field(E, st, m, 'ty')), lit(b'session'))) is not True:
                q = sends[0][3] if len(sends) == 1 else None
                rcp, why = (u32at(E, st, q, 1), u32at(E, st, q, 5)) if q is not None else (None, None)
                good = len(sends) == 1 and not spawns and not writes and not acts and first_byte(E, st, q) == 92 and rcp is not None and st.eq(rcp, peer)
                R.check('channels of other types are refused', st, good, W, 'a channel whose type is not known to be session is answered with %s' % shown, *([q] if q is not None else []))
                R.check('channels of other types are refused', st, not good or why is not None and st.eq(why, K(3)), W, 'reason given is %s' % (why is not None and show(why)))
                continue
            R.check('an open channel gets exactly one confirmation', st, len(sends) == 1 and not spawns and not writes and not acts, W, 'answers to a channel open: %s' % shown)
            if len(sends) != 1:
                continue
            q = sends[0][3]
            rcp, snd = u32at(E, st, q, 1), u32at(E, st, q, 5)
            good = first_byte(E, st, q) == 91 and st.eq(st.simp(seqlen(q)), K(17)) and rcp is not None and st.eq(rcp, peer)
            R.check('confirmation carries the numbers', st, good, W, 'confirmation is %s' % shown, q)
            n = cval(st.simp(snd)) if snd is not None else None
            if n is None:
                R.put('confirmation carries the numbers', UNKNOWN, W, 'local number not decided: %s' % (snd and show(snd)[:100]))
                return
            cap = u32at(E, st, q, 13)
            if cap is not None:
                adv.append(cap)
            R.check('every open channel has its own number', st, n not in chans, W, 'number %d given to two open channels' % n)
            chans[n] = dict(peer=peer, stdin=None, started=False)
            continue
        rc = st.gh.get(('rc', k))
        ch = chans.get(rc)
        if ch is None:
            R.check('a channel that is not open is not affected', st,
                    not spawns and not writes and not acts and not any(first_byte(E, st, e[3]) in (91, 94, 95, 96, 97, 98, 99, None) for e in sends), W,
                    '%s for number %s (open: %s) leads to %s' % (kind, rc, sorted(chans), names))
            continue
        if kind == 'ChannelRequest':
            want = st.decide(E.as_bool(field(E, st, m, 'want_reply')))
            sess = [e for e in sg if e[0] == 'session']
            ty, data = bytesof(E, st, field(E, st, m, 'ty')), bytesof(E, st, field(E, st, m, 'data'))
            sk = None
            if sess:
                R.check('the request decoded is the one received', st, all(same(E, st, e[1], ty) and same(E, st, e[2], data) for e in sess), W, 'decodes %s' % show(sess[0][1])[:80], sess[0][1])
                sk = sess[-1][3]
            elif st.decide(seqeq(E, st, ty, lit(b'shell'))):
                sk = 'Shell'
            elif st.decide(seqeq(E, st, ty, lit(b'exec'))):
                sk = 'Exec'
            run = [e for e in spawns if e[5] == 'Ok']
            R.check('one spawn per request', st, len(spawns) <= 1, W, 'spawn is called %d times' % len(spawns))
            for e in spawns:
                R.check('only shell and exec requests spawn, once per channel', st, e[3] == sk and not ch['started'], W,
                        'spawn of %s for a %s request on a channel %s' % (e[3], sk, 'with a program' if ch['started'] else 'without program'))
                R.check('programs run as the authenticated user', st, e[2] is N('user', 0), W, 'spawned as %s' % show(e[2]), e[2])
                if e[3] == 'Exec':
                    cmd = bytesof(E, st, field(E, st, N('sym', N('sess', ty, data), N('adt', SESS, ())), 'command'))
                    R.check('the command spawned is the one requested', st, same(E, st, e[4], cmd), W, 'command is %s' % show(e[4])[:200], e[4])
            if sk in ('Shell', 'Exec') and not ch['started']:
                R.check('shell and exec requests are put to the handler', st, len(spawns) == 1, W, 'a %s request is not put to the spawn handler' % sk)
            code = 99 if run else 100
            if want:
                R.check('exactly one reply iff asked', st, len(sends) == 1, W, 'replies: %s' % shown)
                if len(sends) == 1:
                    x = u32at(E, st, sends[0][3], 1)
                    R.check('success exactly when a program was started', st, first_byte(E, st, sends[0][3]) == code and st.eq(st.simp(seqlen(sends[0][3])), K(5)), W,
                            'reply %s although spawn %s' % (shown, 'succeeded' if run else 'did not succeed'), sends[0][3])
                    R.check('replies carry the number of the peer', st, x is not None and st.eq(x, ch['peer']), W, 'reply is %s' % shown, sends[0][3])
            else:
                R.check('exactly one reply iff asked', st, not sends, W, 'unasked replies: %s' % shown)
            R.check('requests do not touch program input', st, not writes, W, 'a request writes to %s' % [show(e[1])[:60] for e in writes])
            if run and not lost:
                kk = run[0][1]
                good = len(acts) == 1 and vname(E, st, acts[0][1]) == 'NewIo'
                R.check('a started program is handed over', st, good, W, 'after a successful spawn receive yields %s' % [show(e[1])[:60] for e in acts])
                if good:
                    a = acts[0][1]
                    for nm in ('stdout', 'stderr', 'wait'):
                        R.check('output and status of the program go to its channel', st, field(E, st, a, nm) is io_field(E, st, kk, nm), W,
                                '%s is %s' % (nm, show(field(E, st, a, nm))[:100]), field(E, st, a, nm))
                    R.check('output and status of the program go to its channel', st, st.eq(field(E, st, a, 'channel'), ch['peer']), W,
                            'output goes to channel %s' % show(field(E, st, a, 'channel'))[:100])
                ch['started'] = True
                ch['stdin'] = io_field(E, st, kk, 'stdin')
                ch['live'] = True
            else:
                R.check('a started program is handed over', st, not acts, W, 'NewIo without a started program')
            continue
        R.check('data, EOF and close start nothing', st, not spawns and not acts, W, '%s leads to %s' % (kind, names))
        if kind == 'Close' and not ch['started']:
            x = u32at(E, st, sends[0][3], 1) if len(sends) == 1 else None
            R.check('the close of a channel without program is answered', st, len(sends) == 1 and first_byte(E, st, sends[0][3]) == 97 and st.eq(st.simp(seqlen(sends[0][3])), K(5)) and
                    x is not None and st.eq(x, ch['peer']), W, 'the answer to the close of a channel without program is %s' % shown, *[e[3] for e in sends])
        elif kind == 'Close':
            R.check('close of a channel with a program leaves the answer to its end', st, not sends, W,
                    'a close is answered with %s although the program of the channel ends with its own EOF, status and close' % shown)
        else:
            R.check('data and EOF send nothing', st, not sends, W, '%s leads to %s' % (kind, names))
        if kind == 'Data':
            data = bytesof(E, st, field(E, st, m, 'data'))
            opt = ch['stdin']
            some_ = vname(E, st, opt) if opt is not None else 'None'
            if opt is None or not ch.get('live'):
                if ch.get('live') is not None or opt is None:
                    R.check('data reaches only its program', st, ch.get('dead') or not writes, W, 'data for a channel without open input is written to %s' % [show(e[1])[:60] for e in writes])
                continue
            R.check('data reaches only its program', st, all(reaches(e[1], opt.a[0]) for e in writes), W,
                    'data is written to %s instead of the input of channel %s' % ([show(e[1])[:80] for e in writes], rc))
            if some_ == 'None':
                R.check('data reaches only its program', st, not writes, W, 'writes without input stream')
                continue
            bad = any(e[0] in ('writeerr', 'writezero') for e in sg)
            if bad:
                ch['dead'] = True
                ch['live'] = False
                continue
            q = mkseq([x for e in writes for x in e[2].a[0]])
            R.check('all data reaches the program in order', st, some_ == 'Some' and same(E, st, q, data), W, 'received data %s, written %s' % (show(data)[:100], show(q)[:100]), q)
        else:
            R.check('EOF and close write nothing', st, not writes, W, '%s writes' % kind)
            ch['live'] = False
            ch['closed'] = True
            if kind == 'Close':
                chans.setdefault('old', []).append(ch) if False else None
                st.gh['gone'] = st.gh.get('gone', ()) + ((ch['stdin'], kind),)
                del chans[rc]
    # ---------- final state: inputs of open programs are kept, others are closed
    if okr != 'Err':
        v = st.mem.get(cl.a[0])
        for n, ch in chans.items():
            opt = ch['stdin']
            if opt is None or opt.op != 'sym' or vname(E, st, opt) == 'None':
                continue
            if ch.get('live'):
                R.check('input stays open until EOF or close', st, reaches(v, opt.a[0]), W, 'the input of channel %d was dropped without EOF' % n)
            elif ch.get('closed'):
                R.check('EOF and close close the input', st, not reaches(v, opt.a[0]), W, 'the input of channel %d stays open after EOF' % n)
        for opt, kind in st.gh.get('gone', ()):
            if opt is not None and opt.op == 'sym':
                R.check('EOF and close close the input', st, not reaches(v, opt.a[0]), W, 'the input stays open after %s' % kind)


STEPS = {'O': ('Open', None, None, 'session', None), 'N': ('Open', None, None, 'other', None)}
for _c in range(NCH):
    STEPS['S%d' % _c] = ('ChannelRequest', 'Ok', _c, 'Shell', True)
    STEPS['X%d' % _c] = ('ChannelRequest', 'Ok', _c, 'Exec', False)
    STEPS['F%d' % _c] = ('ChannelRequest', 'Err', _c, 'Exec', True)
    STEPS['R%d' % _c] = ('ChannelRequest', None, _c, 'rest', False)
    STEPS['D%d' % _c] = ('Data', None, _c, None, None)
    STEPS['E%d' % _c] = ('Eof', None, _c, None, None)
    STEPS['C%d' % _c] = ('Close', None, _c, None, None)


def histories(deep):
    """prefixes over open/request/data/EOF/close whose channel numbers are plausible; the message after each is free"""
    L = 5 if deep else 4
    out = []

    def go(h, nopen, spawned):
        out.append(h)
        if len(h) >= L:
            return
        rest = L - len(h)
        if nopen < NCH:
            go(h + ['O'], nopen + 1, spawned)
        for c in range(min(nopen, 2)):
            for x in 'SXFRDEC' if len(h) < 2 or deep else 'SXFDEC' if len(h) < 3 else 'SDEC':
                if x in 'DE' and c not in spawned:
                    continue
                go(h + [x + str(c)], nopen, spawned | {c} if x in 'SX' else spawned)
    go(['O'], 1, frozenset())
    return out + [h.split() for h in ('N', 'N N', 'N O', 'O N', 'O S0 N', 'N O S0', 'O O N', 'O C0 N')]


NPART = 8


@group('channels', [str(i) for i in range(NPART)])
def g_channels(R, part, deep):
    hs = histories(deep)
    H = None
    for j, h in enumerate(hs):
        if j % NPART != int(part):
            continue
        E = R.eng()
        E.peel = 12
        H = H or hc_fields(E)
        sc = ChScript([STEPS[x] for x in h], AUTHED)
        done, cl, f = run_history(R, E, sc, len(h) + 1)
        W = f.name
        for st, r in done:
            check_history(R, E, st, r, cl, W, H)
        nopanic(R, E, 'channel traffic never panics', W, 'after the messages %s' % ' '.join(h))
        for st, what in E.blocked:
            R.check('never waits for its own lock', st, None, W, 'blocks in %s after the messages %s' % (what, ' '.join(h)))
        R.put('never waits for its own lock', PROVEN, W)
        R.absorb(E)
    R.want('an open channel gets exactly one confirmation')


# ------------------------------------------------------------------ program output
def run_forward(R, E, cl, st, part='both'):
    OPTT = {x: N('adt', OPT, (N('param', x, i),)) for i, x in enumerate(('Stdout', 'Stderr'))}
    so, se = N('sym', N('so'), OPTT['Stdout']), N('sym', N('se'), OPTT['Stderr'])
    if part == 'stdout':
        se = NONE
    if part == 'stderr':
        so = NONE
    wait = N('sym', N('wait'), N('adt', 'core::pin::Pin', (UNKTY,)))
    chan = iv(N('chan'), 'u32')
    status = iv(N('status'), 'u32')

    def pollsym(E, st, v, dty):
        if v is wait:
            st.emit('wait')
            return [(st, status)]
        return None
    E.hooks['pollsym'] = pollsym
    over_send(E)
    f = fn(R.P, CLI + '::forward_program')
    return so, se, wait, chan, status, async_run(E, f, by_type(R.P, f, [('ref', cl), ('::Stdout', so), ('::Stderr', se), ('Pin', wait), ('u32', chan)]), st)


def by_type(P, f, vals):
    """order the arguments by the types of the parameters"""
    b = P.body(f)
    out = []
    for i in range(1, b.argc + 1):
        t = b.locals[i]
        s = show(t)
        c = [v for k, v in vals if (t.op == 'ref' if k == 'ref' else k in s if k != 'u32' else s == 'int(u32)')]
        if len(c) != 1:
            raise Undecided('parameter %d of %s has type %s' % (i, f.name, s[:80]))
        out.append(c[0])
    if len(out) != len(vals):
        raise Undecided('%s has %d parameters' % (f.name, len(out)))
    return out


@group('forward', ['both', 'stdout', 'stderr'])
def g_forward(R, part, deep):
    P = R.P
    E = R.eng()
    n = 5 if deep else 3
    E.peel = n if part != 'both' else 2 + deep
    f = fn(P, CLI + '::forward_program')
    W = f.name
    H = hc_fields(E)
    over_session(E)
    track_borrows(E)
    server, st, cl = authed(R, E, ChScript([], AUTHED))
    so, se, wait, chan, status, outs = run_forward(R, E, cl, st, part)
    NS = 2
    for st, r in outs:
        evs = st.events()
        okr = vname(E, st, r)
        sent = {94: [], 95: []}
        order = []
        ns = NS
        for e in evs:
            if e[0] in ('send', 'senderr'):
                b, k = base(e[1])
                R.check('packets use the keys of this connection', st, b is H['Out'] and k == ns and e[2] is TX, W, 'sent with %s to %s' % (show(e[1])[:80], show(e[2])[:80]), e[1])
                ns += 1
                R.check('packets are sent under the lock', st, len(e[5]) >= 1, W, 'a packet is written without holding an exclusive lock')
                seed_check(R, 'padding from the generator of this connection', st, e[4], W, 'padding from %s' % show(e[4])[:80])
                q = e[3]
                c = first_byte(E, st, q)
                order.append(c)
                rc = u32at(E, st, q, 1)
                R.check('everything is sent on the channel of the program', st, rc is not None and st.eq(rc, chan), W, 'sends %s' % show(q)[:120], q)
                if c in (94, 95):
                    o = 5
                    if c == 95:
                        t = u32at(E, st, q, 5)
                        R.check('stderr is extended data type 1', st, t is not None and st.eq(t, K(1)), W, 'extended data type is %s' % (t and show(t)[:60]), q)
                        o = 9
                    l = u32at(E, st, q, o)
                    good = l is not None and st.eq(ladd(l, K(o + 4)), st.simp(seqlen(q)))
                    R.check('data packets are well formed', st, good, W, 'sends %s' % show(q)[:160], q)
                    if good and e[0] == 'send':
                        sent[c] += list(E.slice_seq(st, q, K(o + 4), l).a[0])
                elif c == 98:
                    exp = strq(98, num(chan), num(K(11)), b'exit-status', 0, num(status))
                    R.check('exit status is the status of the program', st, same(E, st, q, exp), W, 'sends %s instead of %s' % (show(q)[:200], show(exp)[:200]), q)
                elif c in (96, 97):
                    R.check('EOF and close are well formed', st, st.eq(st.simp(seqlen(q)), K(5)), W, 'sends %s' % show(q)[:120], q)
        if any(e[0] == 'senderr' for e in evs):
            R.check('failed sends end the connection', st, okr == 'Err' and evs[[e[0] for e in evs].index('senderr')] is [e for e in evs if e[0] in ('send', 'senderr')][-1], W,
                    'continues after a failed send')
            continue
        R.check('forwarding ends only after everything was sent', st, okr == 'Ok', W, 'ends with %s although nothing failed' % okr)
        tail = [c for c in order if c not in (94, 95)]
        R.check('EOF, exit status and close follow the output in this order', st, tail == [96, 98, 97] and order[len(order) - 3:] == tail, W, 'packets sent: %s' % order)
        for nm, v, c in (('so', so, 94), ('se', se, 95)):
            key = None
            for e in evs:
                if e[0] in ('readsome', 'readerr') and reaches(e[1], N(nm)):
                    key = e[1]
            if v is NONE or vname(E, st, v) == 'None':
                R.check('output is sent completely and in order', st, not sent[c], W, 'data of type %d without such a stream' % c)
                continue
            if key is None:
                R.check('output is sent completely and in order', st, False, W, 'an output stream is never read')
                continue
            end = st.gh.get(('pos', key), K(0))
            q = mkseq(sent[c])
            exp = mkseq([S(N('in', key), K(0), end)])
            R.check('output is sent completely and in order', st, same(E, st, q, exp), W, 'read %s, sent as type %d: %s' % (show(exp)[:160], c, show(q)[:160]), q)
            rd = [e for e in evs if e[1:2] and e[1] is key and e[0] in ('readsome', 'readerr')]
            if rd[-1][0] == 'readsome':
                R.check('output is read until its end', st, st.eq(st.simp(rd[-1][3]), K(0)), W, 'stops reading after %s bytes' % show(rd[-1][3])[:60])
        R.check('the program is waited for', st, len([e for e in evs if e[0] == 'wait']) == 1, W, 'exit status not awaited exactly once')
    nopanic(R, E, 'forwarding never panics', W, 'for some program output')
    for st, what in E.blocked:
        R.check('never waits for its own lock', st, None, W, 'blocks in %s' % what)
    R.put('never waits for its own lock', PROVEN, W)
    R.want('EOF, exit status and close follow the output in this order', 'output is sent completely and in order')
    R.absorb(E)


# ------------------------------------------------------------------ borrows of concurrent tasks
@group('borrows')
def g_borrows(R, part, deep):
    """what each task of a connection keeps borrowed while it may be suspended, against what the other tasks borrow"""
    P = R.P
    held, taken = {}, {}
    short = lambda p: '.'.join(str(x) for x in p.a[1]) if p.op == 'ptr' else show(p)

    def watch(E, kind):
        inner = E.hooks['borrow']
        it = E.hooks['try_borrow']

        def borrow(E, st, p, shared):
            taken.setdefault((kind, p, shared, locks(st)), (st, E.span))
            return inner(E, st, p, shared)

        def suspend(E, st, what):
            b = st.gh.get('bor', ())
            for i, (p, m) in enumerate(b):
                if m != 'lock':
                    held.setdefault((kind, p, m == 'shared', locks(st)), (st, what))
        E.hooks['borrow'] = borrow
        E.hooks['suspend'] = suspend

    def locks(st):
        return frozenset(x[0] for x in st.gh.get('bor', ()) if x[1] == 'lock')
    # receive: every kind of message, after one channel was opened, and after a program was started
    global _watch
    _watch = lambda E: watch(E, 'receive')
    try:
        for h in ([], ['O'], ['O', 'S0'], ['O', 'S0', 'D0']):
            E = R.eng()
            E.peel = 12
            done, cl, f = run_history(R, E, ChScript([STEPS[x] for x in h], AUTHED), len(h) + 1)
            R.absorb(E)
    finally:
        _watch = None
    E = R.eng()
    E.peel = 3
    over_session(E)
    track_borrows(E)
    server, st, cl = authed(R, E, ChScript([], AUTHED))
    watch(E, 'program')
    over_send(E)
    run_forward(R, E, cl, st)
    R.absorb(E)
    W = CLI + '::receive'
    n = 0
    for (k1, p1, sh1, l1), (s1, what) in held.items():
        for (k2, p2, sh2, l2), (s2, span) in taken.items():
            if p1 is not p2 or (k1 == k2 == 'receive'):
                continue
            n += 1
            R.check('no borrow is held across a suspension another task can meet', s2, (sh1 and sh2) or bool(l1 & l2), '%s and %s' % (
                CLI + ('::receive' if k1 == 'receive' else '::forward_program'), CLI + ('::receive' if k2 == 'receive' else '::forward_program')),
                'the %s task keeps RefCell %s borrowed while it waits in %s, and the %s task borrows it at %s without a common lock' % (k1, show(p1)[:60], what, k2, span))
    R.put('no borrow is held across a suspension another task can meet', PROVEN, W)
    R.stats['paths'] += n


_watch = None


# ------------------------------------------------------------------ the lock
MUTEX = 'nora_ssh::sync::LocalMutex'


def over_wakers(E):
    """wakers identify the task whose context they came from"""
    def task_of(E, st, v):
        for _ in range(6):
            if v.op == 'ptr':
                v = E.get(st, v)
            elif v.op == 'agg' and v.a[0] in ('box', 'refmut', 'pin'):
                v = v.a[3][0]
            else:
                break
        return v.a[0].a[0] if v.op == 'sym' and v.a[0].op == 'waker' else None
    WT = N('adt', 'core::task::wake::Waker', ())

    def waker(E, st, c, args, dty):
        v = E.get(st, args[0]) if args[0].op == 'ptr' else args[0]
        t = v.a[0].a[0] if v.op == 'sym' and v.a[0].op == 'cxof' else '?'
        return [(st, kptr(N('sym', N('waker', t), WT)))]

    def wake(E, st, c, args, dty):
        if task_of(E, st, args[0]) is None:
            raise Undecided('a waker of unknown origin is woken')
        st.emit('wake', task_of(E, st, args[0]))
        return [(st, UNIT)]

    def will(E, st, c, args, dty):
        a, b = task_of(E, st, args[0]), task_of(E, st, args[1])
        return [(st, TRUE if a == b else FALSE)]

    def clone(E, st, c, args, dty):
        t = task_of(E, st, args[0])
        return [(st, N('sym', N('waker', t), WT))]
    E.over['core::task::wake::Context::waker'] = waker
    for x in ('wake', 'wake_by_ref'):
        E.over['core::task::wake::Waker::' + x] = wake
    E.over['core::task::wake::Waker::will_wake'] = will
    E.over['<core::task::wake::Waker as core::clone::Clone>::clone'] = clone


@group('lock')
def g_lock(R, part, deep):
    P = R.P
    E = R.eng()
    E.peel = 20
    over_wakers(E)
    track_borrows(E)
    new, lock = fn(P, MUTEX + '::new'), fn(P, MUTEX + '::lock')
    W = lock.name
    val = N('sym', N('guarded'), UNKTY)
    (st, m), = E.run(new, [val])
    mo = ptr(N('heap', 'mutex'))
    st.mem[mo.a[0]] = m
    tasks = ['A', 'B', 'C']
    per = {t: 2 if deep or t == 'A' else 1 for t in tasks}
    seen = set()
    count = [0]

    def futimpl(v):
        for im in P.impls.get('core::future::future::Future', ()):
            if im['args'][0].op == 'adt' and im['args'][0].a[0] == v.a[1]:
                return P.fns[im['methods']['poll']]
        raise Missing('Future for the value of LocalMutex::lock')

    def poll(st, t):
        """-> [(st, guard or None)]"""
        fo = ptr(N('heap', 'future', t))
        outs = []
        if fo.a[0] not in st.mem:
            (st, v), = E.run(lock, [mo], st=st)
            st.mem[fo.a[0]] = v
        v = st.mem[fo.a[0]]
        if v.op != 'agg' or v.a[0] != 'adt':
            raise Undecided('LocalMutex::lock yields %s' % v.op)
        cx = ptr(N('heap', 'cx', t))
        st.mem[cx.a[0]] = N('sym', N('cxof', t), N('adt', 'core::task::wake::Context', ()))
        for s, r in E.call_fn(st, futimpl(v), [N('agg', 'pin', '', 0, (fo,), ()), cx], {}):
            vn = vname(E, s, r)
            if vn == 'Ready':
                for s2 in E.drop_val(s, s.mem[fo.a[0]], fo):
                    s2.mem.pop(fo.a[0])
                    outs.append((s2, r.a[3][0]))
            elif vn == 'Pending':
                outs.append((s, None))
            else:
                raise Undecided('poll of the lock yields %s' % show(r)[:60])
        return outs

    def go(st, state, trace, d):
        """state: task -> (status, remaining); status: run / wait / hold / done"""
        count[0] += 1
        if count[0] > 20000:
            raise Undecided('too many schedules')
        key = (tuple(sorted(state.items())), st.mem[mo.a[0]], st.gh.get('bor', ()))
        if key in seen:
            return
        seen.add(key)
        moved = False
        for t in tasks:
            stt, rem = state[t]
            if stt == 'run':
                moved = True
                for s, g in poll(st.clone(), t):
                    n = dict(state)
                    s.ev, ev = None, s.events()
                    for e in ev:
                        if e[0] == 'wake' and n.get(e[1], ('', 0))[0] == 'wait':
                            n[e[1]] = ('run', n[e[1]][1])
                    if g is None:
                        R.check('a free lock is granted', s, any(x[0] == 'hold' for x in state.values()), W, 'task %s has to wait although the lock is free (%s)' % (t, ' '.join(trace)))
                        n[t] = ('wait', rem)
                    else:
                        R.check('the lock is exclusive', s, not any(x[0] == 'hold' for x in state.values()), W, 'two tasks hold the lock (%s %s)' % (' '.join(trace), t))
                        n[t] = ('hold', rem)
                        s.mem[N('heap', 'guard', t)] = g
                    go(s, n, trace + ['poll ' + t], d + 1)
            elif stt == 'hold':
                moved = True
                s = st.clone()
                go_ = N('heap', 'guard', t)
                for s2 in E.drop_val(s, s.mem[go_], ptr(go_)):
                    s2.mem.pop(go_)
                    n = dict(state)
                    n[t] = ('run', rem - 1) if rem > 1 else ('done', 0)
                    s2.ev, ev = None, s2.events()
                    for e in ev:
                        if e[0] == 'wake' and n.get(e[1], ('', 0))[0] == 'wait':
                            n[e[1]] = ('run', n[e[1]][1])
                    go(s2, n, trace + ['release ' + t], d + 1)
        if not moved:
            R.check('every waiting task is woken after a release', st, all(x[0] == 'done' for x in state.values()), W,
                    'after the schedule %s the tasks %s wait for a free lock and nothing will wake them' % (', '.join(trace), [t for t in tasks if state[t][0] == 'wait']))
    go(st, {t: ('run', per[t]) for t in tasks}, [], 0)
    nopanic(R, E, 'the lock never panics', W, 'for some schedule')
    R.stats['paths'] += count[0]
    # guard gives access to the value
    for s, g in poll(st.clone(), 'A'):
        if g is not None and g.op == 'agg' and g.a[0] == 'adt':
            go_ = ptr(N('heap', 'guard', 'A'))
            s.mem[go_.a[0]] = g
            for tr, mn in (('core::ops::deref::Deref', 'deref'), ('core::ops::deref::DerefMut', 'deref_mut')):
                for im in P.impls.get(tr, ()):
                    if im['args'][0].op == 'adt' and im['args'][0].a[0] == g.a[1]:
                        for s2, p in E.run(P.fns[im['methods'][mn]], [go_], st=s.clone()):
                            R.check('the guard gives the protected value', s2, p.op == 'ptr' and E.get(s2, p) is val and p.a[0] is mo.a[0], W, 'guard points to %s' % show(p)[:80])
    R.want('every waiting task is woken after a release', 'the lock is exclusive', 'the guard gives the protected value')
    R.absorb(E)


# ------------------------------------------------------------------ tasks of a connection and of the server
FU = 'futures_util::stream::futures_unordered::FuturesUnordered'


def over_tasks(E):
    """futures as tasks: created, polled (pending or finished), dropped.  select!, FuturesUnordered, Fuse and poll_fn by
    their documented behaviour; which ready branch is taken first is left open"""
    def deref(E, st, p):
        """pointer to the innermost future object behind references and pins"""
        for _ in range(8):
            v = E.get(st, p) if p.op == 'ptr' else p
            if v.op == 'ptr':
                p = v
            elif v.op == 'agg' and v.a[0] == 'pin':
                p = v.a[3][0] if v.a[3][0].op == 'ptr' else ptr(p.a[0], papp(p.a[1], pf(None, 0)))
            elif v.op == 'agg' and v.a[0] == 'box':
                p = ptr(p.a[0], papp(p.a[1], pf(None, 0)))
            else:
                return p, v
        raise Cut('future nesting')

    def isf(v, k):
        return v.op == 'agg' and v.a[0] == 'fut' and v.a[1] == k

    def poll2(E, st, p):
        """-> [(st, Poll)]"""
        p, v = deref(E, st, p)
        if isf(v, 'task'):
            tid = v.a[3][0]
            out = []
            s = st.clone()
            s.dec += 1
            s.emit('pending', tid)
            s.gh[('inprog', tid)] = True
            out.append((s, PEND))
            st.dec += 1
            for s, r in E.task_result(E, st, v):
                s.emit('done', tid, r)
                s.gh[('inprog', tid)] = False
                E.put(s, p, N('agg', 'fut', 'finished', 0, (tid,), ()))
                out.append((s, ready(r)))
            return out
        if isf(v, 'fuse'):
            inner = v.a[3][0]
            if inner.op == 'agg' and inner.a[0] == 'fut' and inner.a[1] == 'gone':
                return [(st, PEND)]
            ip = ptr(p.a[0], papp(p.a[1], pf(None, 0)))
            out = []
            for s, r in poll2(E, st, ip):
                if r.a[2] == 0:
                    E.put(s, p, fut('fuse', fut('gone')))
                out.append((s, r))
            return out
        if isf(v, 'next_some'):
            lp, l = deref(E, st, v.a[3][0])
            return poll_set(E, st, lp, l, False)
        if isf(v, 'next'):
            lp, l = deref(E, st, v.a[3][0])
            return poll_set(E, st, lp, l, True)
        if isf(v, 'poll_fn'):
            return [(s, r) for s, c, r in models.call_mut(E, st, v.a[3][0], [ptr(N('obj', N('cx'), UNKTY))])]
        if v.op == 'agg' and v.a[0] == 'coroutine':
            raise Cut('an async block inside select!')
        raise Cut('poll of %s' % (v.a[1] if v.op == 'agg' else v.op))

    def poll_set(E, st, lp, l, opt):
        if not isf(l, 'set'):
            raise Cut('stream')
        items = l.a[3]
        if not items:
            return [(st, ready(NONE) if opt else PEND)]
        out = []
        s = st.clone()
        s.dec += 1
        for x in items:
            s.emit('pending', x.a[3][0])
            s.gh[('inprog', x.a[3][0])] = True
        out.append((s, PEND))
        for i, x in enumerate(items):
            s0 = st.clone()
            s0.dec += 1
            # the others stay in progress
            for y in items:
                if y is not x:
                    s0.emit('pending', y.a[3][0])
                    s0.gh[('inprog', y.a[3][0])] = True
            for s, r in E.task_result(E, s0, x):
                s.emit('done', x.a[3][0], r)
                s.gh[('inprog', x.a[3][0])] = False
                E.put(s, lp, fut('set', *[y for y in items if y is not x]))
                out.append((s, ready(some(r) if opt else r)))
        return out

    PEND = adt(POLL, 1)

    def unwrap(v):
        while v.op == 'agg' and v.a[0] in ('pin', 'box'):
            v = v.a[3][0]
        return v

    def push(E, st, c, args, dty):
        p, l = deref(E, st, args[0])
        v = unwrap(args[1])
        if not isf(l, 'set') or not isf(v, 'task'):
            raise Cut('push of %s' % (v.a[1] if v.op == 'agg' else v.op))
        E.put(st, p, fut('set', *(l.a[3] + (v,))))
        return [(st, UNIT)]

    def clear(E, st, c, args, dty):
        p, l = deref(E, st, args[0])
        if not isf(l, 'set'):
            raise Cut('clear')
        for x in l.a[3]:
            drop(E, st, x)
        E.put(st, p, fut('set'))
        return [(st, UNIT)]

    def terminated(E, st, c, args, dty):
        p, v = deref(E, st, args[0])
        if isf(v, 'fuse'):
            return [(st, TRUE if v.a[3][0].op == 'agg' and v.a[3][0].a[1] == 'gone' else FALSE)]
        if isf(v, 'next_some') or isf(v, 'next'):
            lp, l = deref(E, st, v.a[3][0])
            if isf(l, 'set'):
                return [(st, TRUE if not l.a[3] else FALSE)]
        if isf(v, 'set'):
            return [(st, TRUE if not v.a[3] else FALSE)]
        raise Cut('is_terminated of %s' % (v.a[1] if v.op == 'agg' else v.op))

    def pollu(E, st, c, args, dty):
        return poll2(E, st, args[0])

    def polltop(E, st, c, args, dty):
        """.await: a suspended task is polled again once something finished"""
        p, v = deref(E, st, args[0])
        if not any(isf(v, k) for k in ('poll_fn', 'task', 'fuse', 'next', 'next_some')):
            return None
        out = []
        for s, r in poll2(E, st, args[0]):
            if r.a[2] == 0:
                out.append((s, r))
                continue
            s.emit('suspend')
            for s2, r2 in poll2(E, s, args[0]):
                if r2.a[2] == 0:
                    out.append((s2, r2))
        return out

    def pinset(E, st, c, args, dty):
        v = p = args[0]
        if v.op == 'ptr':
            v = E.get(st, v)
        if v.op == 'agg' and v.a[0] == 'pin':
            at = v.a[3][0]
            if at.op == 'agg' and at.a[0] == 'box' and p.op == 'ptr':
                at = ptr(p.a[0], papp(papp(p.a[1], pf(None, 0)), pf(None, 0)))
            if at.op == 'ptr':
                old = E.get(st, at)
                out = []
                for s in E.drop_val(st, old, at):
                    E.put(s, at, args[1])
                    out.append((s, UNIT))
                return out
        raise Cut('Pin::set of %s' % v.op)

    def drop(E, st, v):
        if isf(v, 'task'):
            st.emit('dropped', v.a[3][0], st.gh.get(('inprog', v.a[3][0])))

    E.over.update({
        FU + '::new': lambda E, st, c, a, d: [(st, fut('set'))],
        FU + '::push': push,
        FU + '::clear': clear,
        FU + '::len': lambda E, st, c, a, d: [(st, K(len(deref(E, st, a[0])[1].a[3])))],
        FU + '::is_empty': lambda E, st, c, a, d: [(st, FALSE if deref(E, st, a[0])[1].a[3] else TRUE)],
        'futures_util::future::future::FutureExt::fuse': lambda E, st, c, a, d: [(st, fut('fuse', unwrap(a[0])))],
        'futures_util::stream::stream::StreamExt::select_next_some': lambda E, st, c, a, d: [(st, fut('next_some', a[0]))],
        'futures_util::stream::stream::StreamExt::next': lambda E, st, c, a, d: [(st, fut('next', a[0]))],
        'futures_util::future::poll_fn::poll_fn': lambda E, st, c, a, d: [(st, fut('poll_fn', a[0]))],
        'core::future::poll_fn::poll_fn': lambda E, st, c, a, d: [(st, fut('poll_fn', a[0]))],
        'futures_util::async_await::random::shuffle': lambda E, st, c, a, d: [(st, UNIT)],
        'futures_util::async_await::assert_fused_future': lambda E, st, c, a, d: [(st, UNIT)],
        'futures_util::async_await::assert_unpin': lambda E, st, c, a, d: [(st, UNIT)],
        'futures_core::future::FusedFuture::is_terminated': terminated,
        'futures_core::stream::FusedStream::is_terminated': terminated,
        'futures_util::future::future::FutureExt::poll_unpin': pollu,
        'core::future::future::Future::poll': polltop,
        'core::pin::Pin::set': pinset,
    })
    E.hooks['drop'] = drop


def task(E, st, kind, *args):
    n = st.gh.get('ntask', 0)
    st.gh['ntask'] = n + 1
    t = N('task', kind, n)
    st.emit('created', t, args, client_of(E, st, args[0]))
    return fut('task', t, *args)


def check_tasks(R, E, st, W, ended):
    """no unfinished task is dropped or left unpolled while the connection lives"""
    evs = st.events()
    if ended:
        # what is dropped when the function returns ends with the connection
        while evs and evs[-1][0] != 'done':
            evs = evs[:-1]
    live, polled = {}, set()
    for e in evs:
        if e[0] == 'created':
            live[e[1]] = e
        elif e[0] == 'pending':
            polled.add(e[1])
        elif e[0] == 'done':
            live.pop(e[1], None)
            polled = set()
        elif e[0] == 'suspend':
            for t in live:
                R.check('every unfinished task keeps being polled', st, t in polled, W, 'while waiting, the %s task is not polled' % t.a[0])
            polled = set()
        elif e[0] == 'dropped' and e[1] in live:
            live.pop(e[1])
            R.check('no task in progress is abandoned', st, e[1].a[0] == 'receive' and not e[2], W, 'a %s task is dropped while in progress' % e[1].a[0])
    R.put('no task in progress is abandoned', PROVEN, W)
    return live


@group('tasks', ['client', 'server'])
def g_tasks(R, part, deep):
    P = R.P
    E = R.eng()
    E.peel = (5 if part == 'server' else 3) + deep
    E.budget = 20000000 if deep else 2500000
    over_tasks(E)
    st = St()
    server = E.sym_ref(N('server'), N('adt', SRV, (HP,)))
    ACT = 'nora_ssh::server::Action'
    finished = []
    cutst = []
    E.loop_cut = lambda fr, s, t, out: cutst.append(s)

    if part == 'client':
        f = fn(P, CLI + '::start')
        W = f.name
        client = N('sym', N('client'), N('adt', CLI, (HP,)))

        def mk(kind):
            def g(E, st, c, args, dty):
                return [(st, task(E, st, kind, *args))]
            return g
        E.over[CLI + '::receive'] = mk('receive')
        E.over[CLI + '::forward_program'] = mk('program')

        def result(E, st, v):
            t = v.a[3][0]
            out = []
            if t.a[0] == 'receive':
                k = t.a[1]
                a = st.clone()
                out.append((a, err(perr('receive failed', k))))
                b = st.clone()
                out.append((b, ok(adt(ACT, vindex(E, ACT, 'Exit')))))
                i = vindex(E, ACT, 'NewIo')
                fs = [N('sym', N('io', k, x[0]), UNKTY) if x[0] != 'channel' else iv(N('io', k, 'channel'), 'u32') for x in variants(E, ACT)[i][2]]
                out.append((st, ok(adt(ACT, i, *fs))))
            else:
                a = st.clone()
                out.append((a, err(perr('program failed', t.a[1]))))
                out.append((st, ok(UNIT)))
            return out
        E.task_result = result
        outs = async_run(E, f, [client, server], st)
        fp = fn(P, CLI + '::forward_program')
        names = [x[0] for x in variants(E, ACT)[vindex(E, ACT, 'NewIo')][2]]
        for st, r in outs + [(s, None) for s in cutst]:
            evs = st.events()
            check_tasks(R, E, st, W, r is not None)
            pend = None
            nrecv = 0
            for e in evs:
                if e[0] == 'created' and e[1].a[0] == 'receive':
                    nrecv += 1
                    R.check('one receive at a time', st, nrecv == 1, W, 'two receive tasks run at once')
                    R.check('tasks work on this connection', st, e[3] and e[2][1] is server, W, 'receive on %s' % show(e[2][0])[:80])
                if e[0] == 'dropped' and e[1].a[0] == 'receive' and not e[2]:
                    nrecv -= 1
                if e[0] == 'done' and e[1].a[0] == 'receive':
                    nrecv -= 1
                    R.check('a new program is forwarded before anything else', st, pend is None, W, 'a new program was never forwarded')
                    if vname(E, st, e[2]) == 'Ok' and vname(E, st, e[2].a[3][0]) == 'NewIo':
                        pend = e[2].a[3][0]
                if e[0] == 'created' and e[1].a[0] == 'program':
                    good = pend is not None and e[3]
                    if good:
                        for x in names:
                            y = field(E, st, pend, x)
                            if not any(z is y or (islin(z) and islin(y) and st.eq(z, y)) for z in e[2][1:]):
                                good = False
                    R.check('every started program is forwarded with its own streams', st, good, W, 'forward_program(%s) for %s' % (
                        ', '.join(show(x)[:40] for x in e[2]), show(pend)[:100] if pend is not None else 'no program'))
                    pend = None
                if e[0] == 'suspend':
                    R.check('a new program is forwarded before anything else', st, pend is None, W, 'waits without forwarding a new program')
                    R.check('the connection keeps receiving', st, nrecv == 1, W, 'waits without a receive task')
            done = [e for e in evs if e[0] == 'done']
            if r is not None:
                lastd = done[-1] if done else None
                okr = vname(E, st, r)
                good = lastd is not None and (
                    vname(E, st, lastd[2]) == 'Err' and okr == 'Err' or
                    lastd[1].a[0] == 'receive' and vname(E, st, lastd[2]) == 'Ok' and vname(E, st, lastd[2].a[3][0]) == 'Exit' and okr == 'Ok')
                R.check('the connection ends only on disconnect or an error', st, good, W, 'ends with %s after %s' % (okr, [show(e[1]) for e in done]))
        R.want('every started program is forwarded with its own streams', 'every unfinished task keeps being polled', 'the connection keeps receiving')
    else:
        f = fn(P, SRV + '::start')
        W = f.name
        sv = N('sym', N('server'), N('adt', SRV, (HP,)))

        def mk(kind):
            def g(E, st, c, args, dty):
                return [(st, task(E, st, kind, *args))]
            return g
        E.over[SRV + '::authenticate_new_client'] = mk('auth')
        E.over[CLI + '::start'] = mk('client')
        E.over[HND + '::accept'] = mk('accept')

        def result(E, st, v):
            t = v.a[3][0]
            k = t.a[1]
            if t.a[0] == 'accept':
                return [(st, tup(N('sym', N('rd', k), UNKTY), N('sym', N('wr', k), UNKTY)))]
            if t.a[0] == 'auth':
                b = st.clone()
                return [(st, ok(N('sym', N('conn', k), N('adt', CLI, (HP,))))), (b, err(UNIT))]
            b = st.clone()
            return [(st, ok(UNIT)), (b, err(perr('client failed', k)))]
        E.task_result = result
        outs = async_run(E, f, [sv], st)
        R.check('the server never stops', outs[0][0] if outs else st, not outs, W, 'Server::start returns')
        for st in cutst:
            evs = st.events()
            check_tasks(R, E, st, W, False)
            acc, oks = [], []
            nacc = 0
            for e in evs:
                if e[0] == 'created' and e[1].a[0] == 'accept':
                    nacc += 1
                if e[0] == 'done' and e[1].a[0] == 'accept':
                    acc.append(e[2])
                    nacc -= 1
                if e[0] == 'created' and e[1].a[0] == 'auth':
                    good = bool(acc)
                    if good:
                        x = acc.pop(0)
                        good = e[2][1] is x.a[3][0] and e[2][2] is x.a[3][1]
                    R.check('every accepted connection is authenticated on its own streams', st, good, W, 'authenticate_new_client(%s)' % ', '.join(show(x)[:40] for x in e[2]))
                if e[0] == 'done' and e[1].a[0] == 'auth' and vname(E, st, e[2]) == 'Ok':
                    oks.append(e[2].a[3][0])
                if e[0] == 'created' and e[1].a[0] == 'client':
                    good = any(x is e[2][0] for x in oks)
                    R.check('only authenticated connections are served', st, good, W, 'Client::start(%s) without successful authentication' % show(e[2][0])[:60])
                    oks = [x for x in oks if x is not e[2][0]]
                if e[0] == 'suspend':
                    R.check('authenticated connections are served', st, not oks, W, 'an authenticated connection is not started')
                    R.check('every accepted connection is authenticated on its own streams', st, not acc, W, 'an accepted connection is not authenticated')
                    R.check('the server keeps accepting', st, nacc == 1, W, 'waits with %d accepts' % nacc)
        R.want('only authenticated connections are served', 'authenticated connections are served', 'the server keeps accepting')
    nopanic(R, E, 'the task loop never panics', W, 'for some completion order')
    R.absorb(E)


def client_of(E, st, v):
    while v.op == 'ptr':
        v = E.get(st, v)
    return v.op == 'sym' and v.a[0] is N('client')


def islin(x):
    return x.op == 'lin'
