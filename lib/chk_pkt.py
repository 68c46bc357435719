"""Packets and the cipher (C09-C14)."""
from fw import *
from chk_core import bounded, sym_buf

PKT = 'nora_ssh_core::packet::Packet'
BS = 'nora_ssh_core::packet::BlockSize'
BSIZES = {'B8': 8, 'B16': 16, 'B32': 32, 'B64': 64}
PARSE = 'nora_ssh::packet::parse'


def mod_is0(st, l, m):
    r = lmod(l, m)
    if cval(r) is not None:
        return cval(r) == 0
    return st.decide(eq0(r))


def bsval(E, name):
    return adt(BS, vindex(E, BS, name))


def filler(tag='payload'):
    """model of an arbitrary payload writer: writes `tag` of symbolic length, leaves junk behind it"""
    def h(E, st, f, args, dty):
        k = st.gh.get('fill', 0)
        st.gh['fill'] = k + 1
        p = models.as_slice(E, st, args[0])
        t = N(tag, k) if k else N(tag)
        n = lenatom(t)
        st.assume(le0(lsub(n, slen(p))))
        j = N('junk', k)
        E.put(st, p, mkseq([S(t, K(0), n), S(j, K(0), lsub(slen(p), n))]))
        st.emit('fill', p, n)
        return [(st, n)]
    return h


def at(E, st, q, o, n):
    return segs_int(E.slice_seq(st, q, K(o), K(n)).a[0])


@group('wrap', ['%s%s' % (b, '+len' if f else '') for b in BSIZES for f in (1, 0)])
def g_wrap(R, part, deep):
    f = fn(R.P, PKT + '::wrap')
    b, flag = part.split('+')[0], '+' in part
    bs = BSIZES[b]
    E = R.eng()
    E.hooks['callsym'] = filler()
    st = St()
    bp, b0, L = sym_buf()
    n = lenatom(N('payload'))
    st.assume(le0(ladd(lsub(n, L), K(5 + 255))))
    st.assume(le0(lsub(L, K(2 ** 30))))
    W = f.name
    outs = E.run(f, [bp, bsval(E, b), TRUE if flag else FALSE, N('sym', N('F'), N('param', 'F', 1)), N('sym', N('rng'), N('param', 'R', 2))], st=st)
    raw = fn(R.P, PKT + '::as_raw')
    iraw = fn(R.P, PKT + '::into_raw')
    pay = fn(R.P, PKT + '::payload')
    for st, v in outs:
        pk = ptr(N('obj', N('pkt'), UNKTY))
        E.store(st, pk.a[0], (), v)
        for s2, r in E.run(raw, [pk], st=st):
            q = E.seq_of(s2, r)
            total = seqlen(q)
            pl = at(E, s2, q, 0, 4)
            pad = at(E, s2, q, 4, 1)
            R.check('%s: raw view' % part, s2, s2.eq(total, ladd(pl, K(4))), raw.name, 'raw view has %s bytes, packet_length is %s' % (show(total), show(pl)), total, pl)
            R.check('%s: packet_length' % part, s2, s2.eq(pl, ladd(ladd(n, pad), K(1))), W,
                    'packet_length is %s with padding %s, not 1 + payload + padding' % (show(pl), show(pad)), pl, pad)
            R.check('%s: padding at least 4' % part, s2, s2.le(K(4), pad), W, 'padding %s can be below 4' % show(pad), pad)
            R.check('%s: multiple of the block size' % part, s2, mod_is0(s2, ladd(pl, K(4 if flag else 0)), bs), W,
                    'padded length %s%s is not a multiple of %d' % (show(pl), ' + 4' if flag else '', bs), pl)
            qp = E.slice_seq(s2, q, K(5), n)
            R.check('%s: payload unmodified' % part, s2, seq_same(E, s2, qp, mkseq([S(N('payload'), K(0), n)])), W,
                    'payload in the packet is %s' % show(qp), qp)
            qr = E.slice_seq(s2, q, ladd(n, K(5)), pad)
            R.check('%s: padding from the random source' % part, s2, bool(qr.a[0]) and all(g.op == 'S' and g.a[0].op == 'rnd' and g.a[0].a[0] is N('rng') for g in qr.a[0]),
                    W, 'padding bytes are %s' % show(qr), qr)
            x = N('extra')
            s3 = s2.clone()
            s3.assume(le0(lsub(ladd(total, iv(x, 'usize')), L)))
            for s4, r4 in E.run(iraw, [v, iv(x, 'usize')], st=s3):
                good = isslice(r4) and s4.eq(slen(r4), ladd(total, iv(x, 'usize'))) and s4.eq(soff(r4), K(0)) and r4.a[0] is bp.a[0]
                R.check('%s: raw view with tag room' % part, s4, good, iraw.name, 'into_raw(x) is not the packet plus x bytes', r4)
            for s4, r4 in E.run(pay, [pk], st=s2.clone()):
                R.check('%s: payload view' % part, s4, seq_same(E, s4, E.seq_of(s4, r4), mkseq([S(N('payload'), K(0), n)])), pay.name,
                        'payload() is not the payload', E.seq_of(s4, r4))
    nopanic(R, E, '%s: never panics' % part, W, 'while wrapping a payload that fits')
    R.want('%s: packet_length' % part)
    R.absorb(E)


def nopanic(R, E, name, W, what):
    for p in E.panics:
        R.check(name, p.st, None, p.fn, 'panic (%s at %s) reachable %s' % (p.kind, p.span, what))
    R.put(name, PROVEN, W)


# ------------------------------------------------------------------ received packets
def async_run(E, f, args, st, targs=None):
    """call an async fn and run its future to completion"""
    out = []
    for s2, co in E.run(f, args, targs, st=st):
        out += models.poll_value(E, s2, co, UNKTY)
    return out


def targs_for(P, f, **kw):
    return {x[1]: kw[x[0]] for x in P.generics_of(f) if x[0] in kw}


def aligned(st, l, bs):
    return mod_is0(st, l, bs)


def payload_range(E, st, q, L):
    """(offset, length) of the payload of the raw packet bytes q"""
    pl = at(E, st, q, 0, 4)
    pad = at(E, st, q, 4, 1)
    return pl, pad, lsub(lsub(pl, pad), K(1))


@group('pkt_parse', ['%s%s' % (b, '+len' if f else '') for b in BSIZES for f in (1, 0)])
def g_pkt_parse(R, part, deep):
    P = R.P
    f = fn(P, PARSE)
    b, flag = part.split('+')[0], '+' in part
    bs = BSIZES[b]
    E = R.eng()
    st = St()
    bp, b0, L = sym_buf()
    st.assume(le0(lsub(K(8), L)))
    io = E.sym_ref(N('io'), N('param', 'Io', 1))
    W = f.name
    outs = async_run(E, f, [bp, io, TRUE if flag else FALSE, bsval(E, b)], st)
    src = lambda o, n: mkseq([S(N('in', N('deref', N('io'))), o, n)])
    acc = [(n, fn(P, PKT + '::' + n)) for n in ('payload', 'payload_mut', 'into_payload', 'payload_len', 'padding_len', 'packet_len', 'as_raw', 'packet_bytes',
                                          'as_raw_mut', 'packet_bytes_mut', 'packet_len_bytes', 'packet_len_bytes_mut')]
    seen = False
    for st, r in outs:
        vn = vname(E, st, r)
        key = N('deref', N('io'))
        I = src(K(0), K(2 ** 40))
        pl = at(E, st, I, 0, 4)
        pad = at(E, st, I, 4, 1)
        evs = [e for e in st.events() if e[0] in ('read', 'readsome', 'readerr')]
        if vn == 'Ok':
            seen = True
            v = field(E, st, r, '0')
            R.check('%s: fits the buffer' % part, st, st.le(ladd(pl, K(4)), L), W, 'a packet longer than the receive buffer is accepted', pl)
            R.check('%s: alignment' % part, st, mod_is0(st, ladd(pl, K(4 if flag else 0)), bs), W, 'a packet whose length is not a multiple of the block size is accepted', pl)
            R.check('%s: padding fits' % part, st, st.le(ladd(pad, K(1)), pl), W, 'a packet whose padding exceeds it is accepted', pl)
            n = st.gh.get(('pos', key), K(0))
            R.check('%s: consumes exactly the packet' % part, st, st.eq(n, ladd(pl, K(4))), W, 'reading a packet consumes %s bytes' % show(n), n)
            paylen = lsub(lsub(pl, pad), K(1))
            for an, a in acc:
                s2 = st.clone()
                pk = ptr(N('obj', N('pkt', an), UNKTY))
                E.store(s2, pk.a[0], (), v)
                ref = P.body(a).locals[1].op == 'ref'
                for s3, x in E.run(a, [pk if ref else v], st=s2):
                    if an.endswith('_len'):
                        want = {'payload_len': paylen, 'padding_len': pad, 'packet_len': pl}[an]
                        R.check('%s: %s' % (part, an), s3, s3.eq(x, want), a.name, '%s() is %s instead of %s' % (an, show(x), show(want)), x)
                        continue
                    o, l = {'as_raw': (K(0), ladd(pl, K(4))), 'packet_bytes': (K(4), pl), 'packet_len_bytes': (K(0), K(4))}.get(an.replace('_mut', ''), (K(5), paylen))
                    q = bytesof(E, s3, x)
                    R.check('%s: %s' % (part, an), s3, seq_same(E, s3, q, src(o, l)), a.name, '%s() is %s, the packet has %s' % (an, show(q), show(src(o, l))), q)
        elif vn == 'Err':
            if any(e[0] == 'readerr' for e in evs):
                R.put('%s: I/O errors are reported' % part, PROVEN, W)
                continue
            s2 = st.clone()
            feas = s2.assume(le0(lsub(K(12), pl))) and s2.assume(le0(lsub(ladd(pl, K(4)), L))) and s2.assume(le0(lsub(pl, K(32768)))) and \
                s2.assume(le0(lsub(K(4), pad))) and s2.assume(le0(lsub(ladd(pad, K(2)), pl)))
            if feas:
                m = lmod(ladd(pl, K(4 if flag else 0)), bs)
                feas = s2.assume(eq0(m))
            R.check('%s: accepts every well-formed packet that fits' % part, s2, not feas, W, 'a well-formed packet that fits the buffer is rejected', pl)
        else:
            R.check('%s: result' % part, st, None, W, 'result not understood', E.unk('r'))
    nopanic(R, E, '%s: no peer-chosen length panics' % part, W, 'from bytes of the peer')
    R.want('%s: fits the buffer' % part, '%s: payload' % part)
    R.absorb(E)


# ------------------------------------------------------------------ cipher
CC = 'nora_ssh_core::cipher::chacha20poly1305::ChaCha20Poly1305'
KM = 'nora_ssh_core::key_exchange::KeyMaterial'
DIR = 'nora_ssh_core::key_exchange::Direction'
CIPH = '<%s as nora_ssh_core::cipher::Cipher>::' % CC
CNT = N('ctr')


def over_enckey(E):
    """summary of KeyMaterial::encryption_key (decided by the kdf group)"""
    def f(E, st, c, args, dty):
        d = args[1]
        dn = vname(E, st, d)
        t = N('enckey', args[0] if dn is None else N('k', args[0]), dn or d)
        p = models.as_slice(E, st, args[2])
        n = cval(st.simp(slen(p)))
        if n is None:
            return None
        for i in range(n):
            E.put(st, models.elem_ptr(p, K(i)), mkseq([S(t, K(32 * i), K(32))]))
        st.gh['enckey'] = (t, n)
        return [(st, kslice(mkseq([S(t, K(0), K(32 * n))])))]
    E.over[KM + '::encryption_key'] = f


def make_cipher(R, E, st, dirn='ClientToServer', c=None):
    """[(st, cipher value, K1, K2, counter)] from the public constructor"""
    over_enckey(E)
    f = fn(R.P, CC + '::from_key_material')
    c = iv(CNT, 'u64') if c is None else c
    st.assume(le0(lsub(c, K(2 ** 48))))
    mat = E.sym_ref(N('mat'), N('adt', KM, (N('param', 'D', 0),)))
    out = []
    for s2, v in E.run(f, [mat, adt(DIR, vindex(E, DIR, dirn)), c], st=st):
        g = s2.gh.get('enckey')
        if g is None:
            raise Undecided('from_key_material does not use KeyMaterial::encryption_key')
        t, n = g
        R.check('64 bytes of key are derived', s2, n >= 2, f.name, 'only %d digest blocks of key are derived' % n)
        out.append((s2, v, mkseq([S(t, K(0), K(32))]), mkseq([S(t, K(32), K(32))]), c))
    return out


def nonce_of(c):
    return mkseq(int_segs(c, 8))


def xks(key, c, blk, q):
    return mkseq([S(N('xorks', key, nonce_of(c), K(blk), q), K(0), seqlen(q))])


def tag_of(k1, c, q):
    mk = xks(k1, c, 0, mkseq([C(bytes(32))]))
    return mkseq([S(N('poly1305', mk, q), K(0), K(16))])


def probe_counter(R, E, st, self_):
    """the nonce the cipher would use next, and the key for the length"""
    f = fn(R.P, CIPH + 'decrypt_length')
    out = []
    for s2, r in E.run(f, [self_, mkseq([S(N('probe'), K(0), K(4))])], st=st.clone()):
        if vname(E, s2, r) == 'Ok':
            q = bytesof(E, s2, field(E, s2, r, '0'))
            g = q.a[0][0] if len(q.a[0]) == 1 else None
            if g is not None and g.op == 'S' and g.a[0].op == 'xorks':
                out.append((s2, segs_int(g.a[0].a[1].a[0])))
                continue
        out.append((s2, iv(E.unk('counter'), 'u64')))
    return out


def cells(E, st, v, name='self'):
    o = N('obj', N(name), UNKTY)
    E.store(st, o, (), v)
    return ptr(o)


# ------------------------------------------------------------------ secrets and control flow
PUBLIC = {'sig', 'sig_r', 'sig_s', 'x25519pub', 'point', 'len', 'ser', 'dh', 'secret'}     # 'dh': only its mpint encoding, see C34


_sec, _ops = {}, {}


def secret_in(n):
    """name of a secret a term depends on, or None"""
    if isinstance(n, Node):
        if n not in _sec:
            _sec[n] = _secret(n)
        return _sec[n]
    if isinstance(n, (tuple, list)):
        for x in n:
            r = secret_in(x)
            if r:
                return r
    return None


def _secret(n):
    if n.op in PUBLIC or n.op == 'pred' and n.a[0] == 'contributory':
        return None
    if n.op in ('poly1305', 'x25519sk', 'enckey'):
        return {'poly1305': 'the authentication tag', 'x25519sk': 'the ephemeral key', 'enckey': 'an encryption key'}[n.op]
    if n.op == 'hash' and ops_in(n) & {'dh', 'secret'}:
        return 'a value derived from the shared secret'
    if n.op == 'xorks':
        q = n.a[3]
        if all(g.op == 'Z' or g.op == 'C' and not any(g.a[0]) for g in q.a[0]):
            return 'the keystream'
        return secret_in(q)     # decrypted or encrypted data
    return secret_in(n.a)


def ops_in(n):
    """operators of all subterms"""
    if isinstance(n, Node):
        if n not in _ops:
            _ops[n] = frozenset([n.op]) | ops_in(n.a)
        return _ops[n]
    if isinstance(n, (tuple, list)):
        return frozenset().union(*[ops_in(x) for x in n])
    return frozenset()


def ct_check(R, st, W, good='control flow is independent of secrets'):
    """no branch of the path depends on a secret, except on the result of a constant-time comparison"""
    ok_ = set()
    for e in st.events():
        if e[0] == 'cteq':
            ok_ |= {e[1], not_(e[1])}
    x = st.log
    while x is not None:
        f, x = x
        if f in ok_ or f.imp:
            continue
        s = secret_in(f)
        if s:
            R.check(good, st, False, W, 'a branch depends on %s: %s' % (s, show(f)[:160]), f)
            return
    R.put(good, PROVEN, W)


@group('cipher', ['encrypt', 'decrypt_data', 'decrypt_length', 'sizes'])
def g_cipher(R, part, deep):
    P = R.P
    E = R.eng()
    W = CIPH + part
    for st, v, k1, k2, c in make_cipher(R, E, St()):
        self_ = cells(E, st, v)
        t = N('data')
        L = lenatom(t)
        dp = ptr(N('obj', t, N('slice', U8)), (ps(K(0), L),))
        d = lambda o, n: mkseq([S(t, o, n)])
        if part == 'sizes':
            for nm, want in (('tag_size', 16), ('block_size', 8)):
                f = fn(P, CIPH + nm)
                for s2, r in E.run(f, [self_], st=st.clone()):
                    if nm == 'block_size':
                        n = BSIZES.get(vname(E, s2, r))
                    else:
                        n = cval(s2.simp(r)) if r.op == 'lin' else None
                    R.check(nm, s2, n == want, f.name, '%s is %s instead of %d' % (nm, n, want), r)
            continue
        f = fn(P, CIPH + part)
        if part == 'decrypt_length':
            q0 = mkseq([S(N('len'), K(0), K(4))])
            for s2, r in E.run(f, [self_, q0], st=st):
                if vname(E, s2, r) != 'Ok':
                    R.check('length decrypts', s2, None, W, 'decrypt_length fails')
                    continue
                q = bytesof(E, s2, field(E, s2, r, '0'))
                ct_check(R, s2, W)
                R.check('length keystream', s2, seq_same(E, s2, q, xks(k2, c, 0, q0)), W, 'length decrypted as %s instead of keystream block 0 of the second key half' % show(q), q)
                for s3, n in probe_counter(R, E, s2, self_):
                    R.check('length leaves the counter', s3, s3.eq(n, c), W, 'decrypt_length changes the packet counter to %s' % show(n), n)
            nopanic(R, E, 'decrypt_length never panics', W, 'while decrypting a length')
            continue
        st.assume(le0(lsub(K(20), L)))
        body = lsub(L, K(20))
        seen = {}
        for s2, r in E.run(f, [self_, dp], st=st):
            q = E.seq_of(s2, dp)
            ct_check(R, s2, W)
            nx = probe_counter(R, E, s2, self_)
            if part == 'encrypt':
                el = xks(k2, c, 0, d(K(0), K(4)))
                eb = xks(k1, c, 1, d(K(4), body))
                enc = mkseq(el.a[0] + eb.a[0])
                gl = E.slice_seq(s2, q, K(0), K(4))
                gb = E.slice_seq(s2, q, K(4), body)
                gt = E.slice_seq(s2, q, ladd(body, K(4)), K(16))
                R.check('encrypt: length', s2, seq_same(E, s2, gl, el), W, 'encrypted length is %s' % show(gl), gl)
                R.check('encrypt: body', s2, seq_same(E, s2, gb, eb), W, 'encrypted body is %s' % show(gb), gb)
                R.check('encrypt: tag', s2, seq_same(E, s2, gt, tag_of(k1, c, enc)), W, 'tag is %s, expected Poly1305 over the encrypted length and body' % show(gt), gt)
                for s3, n in nx:
                    R.check('encrypt: counter advances by one', s3, s3.eq(n, ladd(c, K(1))), W, 'counter after encrypting is %s' % show(n), n)
                continue
            vn = vname(E, s2, r)
            want = tag_of(k1, c, d(K(0), ladd(body, K(4))))
            tag = d(ladd(body, K(4)), K(16))
            dec = s2.decide(seqeq(E, s2, want, tag))
            if vn == 'Ok':
                R.check('decrypt: only if the tag matches', s2, dec is True, W, 'decrypt_data succeeds although the tag over all preceding bytes was not compared equal', q)
                eb = xks(k1, c, 1, d(K(4), body))
                gb = E.slice_seq(s2, q, K(4), body)
                R.check('decrypt: body', s2, seq_same(E, s2, gb, eb), W, 'decrypted body is %s' % show(gb), gb)
                for s3, n in nx:
                    R.check('decrypt: counter advances by one', s3, s3.eq(n, ladd(c, K(1))), W, 'counter after decrypting is %s' % show(n), n)
            elif vn == 'Err':
                R.check('decrypt: fails only if the tag differs', s2, dec is False or not s2.clone().assume(seqeq(E, s2, want, tag)), W, 'decrypt_data rejects a correctly authenticated packet')
                gb = E.slice_seq(s2, q, K(4), body)
                R.check('decrypt: nothing is decrypted on failure', s2, seq_same(E, s2, gb, d(K(4), body)), W, 'packet is %s after a failed authentication' % show(q), q)
                for s3, n in nx:
                    R.check('decrypt: counter unchanged on failure', s3, s3.eq(n, c), W, 'counter after a failure is %s' % show(n), n)
            else:
                R.check('decrypt: result', s2, None, W, 'result not understood', E.unk('r'))
            # no keystream may be applied to data before the tag was compared
        nopanic(R, E, part + ' never panics', W, 'for packets of at least 20 bytes')
        R.want(*({'encrypt': ['encrypt: tag', 'encrypt: counter advances by one'],
                  'decrypt_data': ['decrypt: only if the tag matches', 'decrypt: fails only if the tag differs']}[part]))
    R.absorb(E)


IN, OUT = 'nora_ssh::host::In', 'nora_ssh::host::Out'
CCTY = N('adt', CC, ())
IOK = N('deref', N('io'))


@group('recv')
def g_recv(R, part, deep):
    P = R.P
    f = fn(P, IN + '::recv')
    W = f.name
    E = R.eng()
    for st, v, k1, k2, c in make_cipher(R, E, St()):
        self_ = cells(E, st, adt(IN, 0, v))
        bp, b0, L = sym_buf()
        st.assume(le0(lsub(K(64), L)))
        st.assume(le0(lsub(L, K(2 ** 40))))
        io = E.sym_ref(N('io'), N('param', 'Io', 1))
        I = lambda o, n: mkseq([S(N('in', IOK), o, n)])
        lenq = xks(k2, c, 0, I(K(0), K(4)))
        pl = segs_int(lenq.a[0])
        cases = []
        s0 = st.clone()
        if s0.assume(eq0(pl)):
            cases.append(s0)
        if st.assume(le0(lsub(K(1), pl))):
            cases.append(st)
        for s2, r in [x for s0 in cases for x in async_run(E, f, [self_, bp, io], s0, targs_for(P, f, D=CCTY))]:
            vn = vname(E, s2, r)
            evs = s2.events()
            if vn == 'Ok':
                pr = field(E, s2, r, '0')
                got = E.seq_of(s2, pr)
                R.check('fits the buffer', s2, s2.le(ladd(pl, K(20)), L), W, 'a packet longer than the receive buffer is accepted', pl)
                R.check('alignment', s2, mod_is0(s2, pl, 8), W, 'a packet whose length is not a multiple of the block size is accepted', pl)
                n = s2.gh.get(('pos', IOK), K(0))
                R.check('consumes exactly one packet', s2, s2.eq(n, ladd(pl, K(20))), W, 'receiving consumes %s bytes' % show(n), n)
                enc = I(K(0), ladd(pl, K(4)))
                tag = I(ladd(pl, K(4)), K(16))
                good = s2.decide(seqeq(E, s2, tag_of(k1, c, enc), tag))
                R.check('delivered only if authenticated', s2, good is True, W, 'a payload is returned although the tag over exactly the received bytes was not compared equal')
                body = N('xorks', k1, nonce_of(c), K(1), I(K(4), pl))
                plain = mkseq([S(body, K(0), pl)])
                pad = at(E, s2, plain, 0, 1)
                R.check('padding fits', s2, s2.le(ladd(pad, K(1)), pl), W, 'a packet whose padding exceeds it is accepted', pad)
                want = mkseq([S(body, K(1), lsub(lsub(pl, pad), K(1)))])
                R.check('payload is the decrypted payload', s2, seq_same(E, s2, got, want), W, 'returned payload is %s, expected %s' % (show(got)[:300], show(want)[:300]), got)
                okp = pr.op == 'ptr' and pr.a[0] is bp.a[0]
                cself = ptr(self_.a[0], papp(self_.a[1], pf(0, 0)))
                for s3, n in probe_counter(R, E, s2, cself):
                    R.check('counter advances by one', s3, s3.eq(n, ladd(c, K(1))), W, 'counter after a received packet is %s' % show(n), n)
            elif vn == 'Err':
                if any(e[0] == 'readerr' for e in evs):
                    R.put('I/O errors are reported', PROVEN, W)
                    continue
                s3 = s2.clone()
                enc = I(K(0), ladd(pl, K(4)))
                tag = I(ladd(pl, K(4)), K(16))
                body = N('xorks', k1, nonce_of(c), K(1), I(K(4), pl))
                pad = at(E, s3, mkseq([S(body, K(0), pl)]), 0, 1)
                feas = s3.assume(le0(lsub(K(16), pl))) and s3.assume(le0(lsub(ladd(pl, K(20)), L))) and s3.assume(le0(lsub(pl, K(32768))))
                feas = feas and s3.assume(eq0(lmod(pl, 8))) and s3.assume(le0(lsub(K(4), pad))) and s3.assume(le0(lsub(ladd(pad, K(2)), pl)))
                feas = feas and s3.assume(seqeq(E, s3, tag_of(k1, c, enc), tag))
                R.check('accepts every authentic packet that fits', s3, not feas, W, 'an authentic well-formed packet that fits the buffer is rejected', pl)
            else:
                R.check('result', s2, None, W, 'result not understood', E.unk('r'))
    nopanic(R, E, 'no peer-chosen length panics', W, 'from bytes of the peer')
    R.want('delivered only if authenticated', 'payload is the decrypted payload')
    R.absorb(E)


@group('send')
def g_send(R, part, deep):
    P = R.P
    f = fn(P, OUT + '::send')
    W = f.name
    E = R.eng()
    E.hooks['callsym'] = filler()
    for st, v, k1, k2, c in make_cipher(R, E, St()):
        self_ = cells(E, st, adt(OUT, 0, v))
        bp, b0, L = sym_buf()
        n = lenatom(N('payload'))
        st.assume(le0(ladd(lsub(n, L), K(5 + 255 + 16))))
        st.assume(le0(lsub(L, K(2 ** 30))))
        io = E.sym_ref(N('io'), N('param', 'Io', 1))
        rng = N('sym', N('rng'), N('param', 'Rng', 2))
        for s2, r in async_run(E, f, [self_, bp, N('sym', N('F'), N('param', 'F', 3)), io, rng], st, targs_for(P, f, D=CCTY)):
            vn = vname(E, s2, r)
            evs = s2.events()
            ws = [e for e in evs if e[0] == 'write']
            werr = [e for e in evs if e[0] in ('writeerr', 'flusherr')]
            if vn == 'Err':
                R.check('fails only on I/O errors', s2, bool(werr), W, 'send fails without an I/O error')
                continue
            R.check('I/O errors are reported', s2, not werr, W, 'send reports success although writing failed')
            if len(ws) != 1:
                # several writes: concatenation must be the packet
                q = mkseq([g for e in ws for g in e[2].a[0]])
            else:
                q = ws[0][2]
            R.check('writes to the given stream', s2, bool(ws) and all(e[1] is IOK for e in ws), W, 'packet is not written exactly to the stream')
            total = seqlen(q)
            # the framed plaintext: the argument of the keystreams
            el = E.slice_seq(s2, q, K(0), K(4))
            x = el.a[0][0] if el.a[0] else None
            if not (len(el.a[0]) == 1 and x.op == 'S' and x.a[0].op == 'xorks'):
                R.check('length is encrypted', s2, None, W, 'length bytes on the wire are %s' % show(el), el)
                continue
            R.put('length is encrypted', PROVEN, W)
            plq = x.a[0].a[3]
            R.check('length keystream', s2, seq_same(E, s2, el, xks(k2, c, 0, plq)), W, 'length on the wire is %s' % show(el), el)
            pl = segs_int(plq.a[0])
            R.check('packet plus tag is written', s2, s2.eq(total, ladd(pl, K(20))), W, '%s bytes are written for packet_length %s' % (show(total), show(pl)), total)
            eb = E.slice_seq(s2, q, K(4), lsub(total, K(20)))
            y = eb.a[0][0] if eb.a[0] else None
            if not (len(eb.a[0]) == 1 and y.op == 'S' and y.a[0].op == 'xorks'):
                R.check('body is encrypted', s2, None, W, 'packet on the wire is %s' % show(eb), eb)
                continue
            R.put('body is encrypted', PROVEN, W)
            plain = y.a[0].a[3]
            R.check('body keystream', s2, seq_same(E, s2, eb, xks(k1, c, 1, plain)), W, 'body on the wire is %s' % show(eb), eb)
            pad = at(E, s2, plain, 0, 1)
            R.check('packet_length', s2, s2.eq(pl, ladd(ladd(n, pad), K(1))) and s2.eq(seqlen(plain), pl), W, 'packet_length %s, padding %s' % (show(pl), show(pad)), pl)
            R.check('padding at least 4', s2, s2.le(K(4), pad), W, 'padding %s' % show(pad), pad)
            R.check('multiple of the block size', s2, mod_is0(s2, pl, 8), W, 'packet_length %s' % show(pl), pl)
            qp = E.slice_seq(s2, plain, K(1), n)
            R.check('payload unmodified', s2, seq_same(E, s2, qp, mkseq([S(N('payload'), K(0), n)])), W, 'payload on the wire is %s' % show(qp), qp)
            qr = E.slice_seq(s2, plain, ladd(n, K(1)), pad)
            R.check('padding from the random source', s2, bool(qr.a[0]) and all(g.op == 'S' and g.a[0].op == 'rnd' for g in qr.a[0]), W, 'padding is %s' % show(qr), qr)
            gt = E.slice_seq(s2, q, lsub(total, K(16)), K(16))
            enc = mkseq(el.a[0] + eb.a[0])
            R.check('tag', s2, seq_same(E, s2, gt, tag_of(k1, c, enc)), W, 'tag on the wire is %s' % show(gt), gt)
            cself = ptr(self_.a[0], papp(self_.a[1], pf(0, 0)))
            for s3, m in probe_counter(R, E, s2, cself):
                R.check('counter advances by one', s3, s3.eq(m, ladd(c, K(1))), W, 'counter after a sent packet is %s' % show(m), m)
    nopanic(R, E, 'never panics', W, 'while sending a payload that fits')
    R.want('tag', 'payload unmodified', 'counter advances by one')
    R.absorb(E)
