"""Key derivation, exchange hash and the handshake (C07, C14-C19)."""
from fw import *
from chk_core import bounded, sym_buf
from chk_pkt import *
import os

LETTERS = {'initial_iv': 'A', 'encryption_key': 'C', 'integrity_key': 'E'}


@group('kdf', [f + ':' + d for f in LETTERS for d in ('ClientToServer', 'ServerToClient')])
def g_kdf(R, part, deep):
    P = R.P
    name, d = part.split(':')
    new = fn(P, KM + '::new')
    f = fn(P, KM + '::' + name)
    E = R.eng()
    E.peel = 80
    ty = N('param', 'D', 0)
    sec = mkseq([S(N('secret'), K(0), K(32))])
    H = mkseq([S(N('H'), K(0), K(32))])
    x = ord(LETTERS[name]) + (1 if d == 'ServerToClient' else 0)
    W = f.name
    for n in ((1, 2, 3, 4, 6) if deep else (1, 2, 3)):
        E.panics = []
        for st, m in E.run(new, [sec, H]):
            mats = cells(E, st, m, 'mat')
            o = N('obj', N('out'), UNKTY)
            E.store(st, o, (), N('arr', tuple(mkseq([C(bytes(32))]) for _ in range(n))))
            op = ptr(o, (ps(K(0), K(n)),))
            for s2, r in E.run(f, [mats, adt(DIR, vindex(E, DIR, d)), op], st=st):
                ct_check(R, s2, W)
                for s3, kseg in mpint_cases(s2.clone(), E, sec):
                    base = list(kseg) + list(H.a[0])
                    ks = [models.hash_seq(E, mkseq(base + [C(bytes([x]))] + list(H.a[0])), ty)]
                    for i in range(1, n):
                        ks.append(models.hash_seq(E, mkseq(base + [g for k in ks for g in k.a[0]]), ty))
                    for i in range(n):
                        got = bytesof(E, s3, E.load(s3, o, (pi(K(i)),)))
                        R.check('%s block %d' % (part, i + 1), s3, seq_same(E, s3, got, ks[i]), W,
                                'derived key block %d is %s, RFC 4253 section 7.2 gives %s' % (i + 1, show(got)[:250], show(ks[i])[:250]), got)
                    q = E.seq_of(s3, r)
                    R.check('%s result' % part, s3, seq_same(E, s3, q, mkseq([g for k in ks for g in k.a[0]])), W,
                            'returned key is %s' % show(q)[:300], q)
        nopanic(R, E, '%s never panics' % part, W, 'while deriving keys')
    R.want('%s block 1' % part, '%s block 2' % part)
    R.absorb(E)


@group('mpint')
def g_mpint(R, part, deep):
    P = R.P
    f = fn(P, 'nora_ssh_core::data::make_pos_mpint')
    W = f.name
    for n in (range(0, 37) if deep else (0, 1, 2, 3, 4, 8, 32, 33)):
        E = R.eng()
        E.peel = 80
        st = St()
        src = mkseq([S(N('n'), K(0), K(n))]) if n else mkseq(())
        bp, b0, L = sym_buf()
        for s2, r in E.run(f, [bp, kslice(src)], st=st):
            vn = vname(E, s2, r)
            for s3, segs in mpint_cases(s2.clone(), E, src):
                exp = mkseq(segs)
                if vn == 'None':
                    R.check('fails only if too small', s3, s3.decide(le0(ladd(lsub(L, seqlen(exp)), K(1)))) is True, W, 'an mpint that fits is refused')
                elif vn == 'Some':
                    l = field(E, s3, r, '0')
                    R.check('length', s3, s3.eq(l, seqlen(exp)), W, 'mpint of %d bytes has length %s instead of %s' % (n, show(l), show(seqlen(exp))), l)
                    if not s3.le(seqlen(exp), L):
                        R.check('fits', s3, None, W, 'succeeds in a too small buffer')
                        continue
                    got = E.slice_seq(s3, E.seq_of(s3, bp), K(0), seqlen(exp))
                    R.check('canonical encoding', s3, seq_same(E, s3, got, exp), W, 'mpint of %d bytes is %s instead of %s' % (n, show(got)[:200], show(exp)[:200]), got)
                else:
                    R.check('result', s3, None, W, 'not understood', E.unk('r'))
        nopanic(R, E, 'never panics', W, 'while encoding an mpint')
        R.absorb(E)
    R.want('canonical encoding')


DG = 'nora_ssh_core::message::key_exchange::ecdh::digest::'
STEPS = ['KeyExchangeDigest', 'PostClientId', 'PostServerId', 'PostClientKexInit', 'PostServerKexInit', 'PostPublicHostKey',
         'PostClientEphermalKey', 'PostServerEphermalKey']


@group('exhash')
def g_exhash(R, part, deep):
    """the digest chain: each typestate appends string(x), the last mpint(secret)"""
    P = R.P
    E = R.eng()
    E.peel = 80
    ty = N('param', 'D', 0)
    vals = []
    st = St()
    d0 = adt(DG + 'KeyExchangeDigest', 0, models.dig(mkseq(())))
    names = ['V_C', 'V_S', 'I_C', 'I_S', 'K_S', 'Q_C', 'Q_S', 'K']
    states = [(st, d0, [])]
    IDK = 'nora_ssh_core::identifier::Identifier'
    for step, nm in zip(STEPS, names):
        f = fn(P, DG + step + '::update')
        nxt = []
        for st, d, segs in states:
            if nm in ('V_C', 'V_S'):
                a = E.sym_ref(N(nm), N('adt', IDK, ()))
                q = bytesof(E, st, E.get(st, a))
                bounded(st, q)
                args = [d, a]
                exp = [(st, strseg(q))]
            elif nm == 'K_S':
                bp, b0, L = sym_buf('kbuf')
                kk = E.sym_ref(N('K_S'), N('adt', 'nora_ssh_core::message::key_exchange::ecdh::Key', ()))
                v = E.get(st, kk)
                qn = bytesof(E, st, field(E, st, v, 'name'))
                bl = field(E, st, v, 'blob')
                qi = bytesof(E, st, field(E, st, bl, 'identifier'))
                qq = bytesof(E, st, field(E, st, bl, 'q'))
                for q in (qn, qi, qq):
                    bounded(st, q)
                blob = mkseq(strseg(qn) + strseg(qi) + strseg(qq))
                st.assume(le0(lsub(seqlen(blob), L)))
                st.assume(le0(lsub(L, K(2 ** 31))))
                args = [d, bp, kk]
                exp = [(st, strseg(blob))]
            elif nm == 'K':
                q = mkseq([S(N('K'), K(0), K(32))])
                args = [d, kslice(q)]
                exp = None
            else:
                q = mkseq([S(N(nm), K(0), lenatom(N(nm)))])
                bounded(st, q)
                args = [d, kslice(q)]
                exp = [(st, strseg(q))]
            for s2, r in E.run(f, args, st=st):
                if nm == 'K':
                    got = r if r.op == 'seq' else bytesof(E, s2, r)
                    for s3, kseg in mpint_cases(s2.clone(), E, q):
                        want = models.hash_seq(E, mkseq(segs + list(kseg)), ty)
                        R.check('exchange hash', s3, seq_same(E, s3, got, want), f.name,
                                'hash is %s, RFC 5656 gives %s' % (show(got)[:400], show(want)[:400]), got)
                else:
                    nxt.append((s2, r, segs + exp[0][1]))
        states = nxt
        if nm != 'K' and not states:
            R.check('exchange hash', St(), None, f.name, 'no path through ' + f.name)
    nopanic(R, E, 'never panics', DG, 'while hashing the exchange')
    R.want('exchange hash')
    R.absorb(E)


# ------------------------------------------------------------------ handshake
MSG = 'nora_ssh_core::message::Message'
NLI = 'nora_ssh_core::data::NameListIter'
NLK = 'nora_ssh_core::data::NameList'
HOST = 'nora_ssh::host::Host'
IDK = 'nora_ssh_core::identifier::Identifier'
RK, WK = N('deref', N('read')), N('deref', N('write'))


def f_py(E, st, v, dty):
    return v.a[3][0](E, st, *v.a[3][1:])


models.FUTS['py'] = f_py


def over_msg_parse(E):
    """Message::parse(p): Err, or a symbolic message of the bytes p (decided by msg_parse)"""
    def f(E, st, c, args, dty):
        q = E.seq_of(st, models.as_slice(E, st, args[0]))
        bad = st.clone()
        bad.dec += 1
        st.dec += 1
        m = N('sym', N('msgof', q), N('adt', MSG, ()))
        st.emit('parsed', q)
        bad.emit('parse failed', q)
        return [(st, ok(m)), (bad, err(N('sym', N('perr', q), N('adt', 'nora_ssh_core::message::MessageParseError', ()))))]
    E.over[MSG + '::parse'] = f


def over_ident(E):
    def poll(E, st, io):
        key = models.iokey(E, st, io)
        pos = st.gh.get(('pos', key), K(0))
        bad = st.clone()
        bad.emit('readerr', key)
        bad.dec += 1
        st.dec += 1
        t = N('ident', key)
        n = lenatom(t)
        st.assume(le0(lsub(n, K(253))))
        st.assume(le0(lsub(K(8), n)))
        m = lenatom(N('identline', key))
        st.gh[('pos', key)] = ladd(pos, m)
        st.emit('ident', key)
        return [(st, ok(adt(IDK, 0, kslice(mkseq([S(t, K(0), n)]))))),
                (bad, err(N('sym', N('identerr'), N('adt', 'nora_ssh::identifier::ParseIdentError', ()))))]

    def f(E, st, c, args, dty):
        return [(st, models.fut('py', poll, args[0]))]
    E.over['nora_ssh::identifier::parse'] = f


def over_names(E):
    """iteration over a symbolic name list: any() as one predicate, next() as fresh names"""
    def listof(E, st, v):
        # the underlying list text, through struct fields
        for _ in range(6):
            if v.op == 'ptr':
                return E.seq_of(st, v) if isslice(v) else listof(E, st, E.get(st, v))
            if v.op == 'seq':
                return v
            if v.op == 'agg' and v.a[0] == 'it' and v.a[1] == 'user':
                v = v.a[3][0]
                continue
            k = key_of(v)
            if k in (NLI, NLK):
                v = E.proj(st, v, pf(0, 0))
                continue
            return None
        return None

    def any_(E, st, c, i, clo, isany):
        if i.op != 'agg' or i.a[1] != 'user':
            return None
        q = listof(E, st, i)
        if q is None:
            return None
        t = N('nameof', q)
        s0 = st.clone()
        s0.assume(le0(lsub(lenatom(t), K(64))))
        g = models.formula_of(E, st, clo, [kslice(mkseq([S(t, K(0), lenatom(t))]))])
        if g is None:
            return None
        st.gh.setdefault('lists', ())
        p = N('pred', 'anyname', q, g if isany else not_(g))
        return [(st, p if isany else not_(p))]
    E.hooks['any'] = any_

    def next_(E, st, c, args, dty):
        v = E.get(st, args[0])
        q = listof(E, st, v)
        if q is None:
            return None
        k = st.gh.get(('names', q, args[0]), 0)
        st.gh[('names', q, args[0])] = k + 1
        # All lists are walked, but on one path only one of them yields more than one name: the lists
        # are independent, and every list is the long one on some path.
        end = st.clone()
        end.dec += 1
        st.dec += 1
        t = N('nm', q, k)
        end.emit('listend', q, k)
        if k >= 1:
            if st.gh.setdefault('longlist', q) is not q or k > 2:
                return [(end, NONE)]
        st.emit('name', q, k)
        return [(st, some(kslice(mkseq([S(t, K(0), lenatom(t))])))), (end, NONE)]
    E.over['<%s as core::iter::traits::iterator::Iterator>::next' % NLI] = next_


def offers(E, st, q, alg):
    """does the client list q contain alg on this path? True / False / None"""
    t = N('nameof', q)
    exp = seqeq(E, St(), mkseq([S(t, K(0), lenatom(t))]), lit(alg))
    for p, val in st.preds.items():
        if p.op == 'pred' and p.a[0] == 'anyname' and p.a[1] is q:
            if p.a[2] is exp or equiv(St(), p.a[2], exp):
                return val
            # any name satisfying something else
            if val and implies(p.a[2], exp):
                return True
            if not val and implies(exp, p.a[2]):
                return False
    n = [e for e in st.events() if e[0] in ('name', 'listend') and e[1] is q]
    allne = bool(n)
    for e in n:
        if e[0] == 'name':
            u = N('nm', q, e[2])
            f = seqeq(E, st, mkseq([S(u, K(0), lenatom(u))]), lit(alg))
            d = st.decide(f)
            if d is None and not st.clone().assume(f):
                d = False
            if d is True:
                return True
            if d is not False:
                allne = False
    if allne and n[-1][0] == 'listend':
        return False
    return None


def implies(a, b):
    return not St().assume(and_([a, not_(b)]))


def over_ecdh_reply(E):
    """Message::serialize of an ECDH reply (decided by msg_ser): an opaque byte string of that value"""
    def f(E, st, c, args, dty):
        m = E.get(st, args[0])
        if vname(E, st, m) != 'KeyExchangeEcdhReply':
            return None
        v = field(E, st, m, '0')
        g = lambda *p: bytesof(E, st, getpath(E, st, v, p))
        val = N('ecdhreply', g('server_public_key', 'name'), g('server_public_key', 'blob', 'identifier'), g('server_public_key', 'blob', 'q'),
                g('server_ephermal_public_key'), g('exchange_hash_signature', 'name'),
                g('exchange_hash_signature', 'blob', 'r'), g('exchange_hash_signature', 'blob', 's'))
        p = models.as_slice(E, st, args[1])
        t = N('ser', val)
        n = lenatom(t)
        st.assume(le0(lsub(n, K(1024))))
        st.assume(le0(lsub(K(1), n)))
        st2 = st.clone()
        out = []
        fit = le0(lsub(n, slen(p)))
        for s2, y in E.branch(st, [(fit, 1), (not_(fit), 0)]):
            if not y:
                out.append((s2, NONE))
                continue
            a = models.sub_ptr(p, K(0), n)
            E.put(s2, a, mkseq([S(t, K(0), n)]))
            out.append((s2, some(tup(a, models.sub_ptr(p, n, lsub(slen(p), n))))))
        return out
    E.over[MSG + '::serialize'] = f


def over_km(E):
    def f(E, st, c, args, dty):
        t = N('km', bytesof(E, st, args[0]), bytesof(E, st, args[1]))
        return [(st, N('sym', t, N('adt', KM, (UNKTY,))))]
    E.over[KM + '::new'] = f

    def g(E, st, c, args, dty):
        v = E.get(st, args[0])
        dn = vname(E, st, args[1])
        if v.op != 'sym' or dn is None:
            return None
        t = N('enckey', v.a[0], dn)
        p = models.as_slice(E, st, args[2])
        n = cval(st.simp(slen(p)))
        if n is None:
            return None
        for i in range(n):
            E.put(st, models.elem_ptr(p, K(i)), mkseq([S(t, K(32 * i), K(32))]))
        return [(st, kslice(mkseq([S(t, K(0), K(32 * n))])))]
    E.over[KM + '::encryption_key'] = g

    def h(E, st, c, args, dty):
        q = models.dig_of(field(E, st, args[0], '0'))
        s = E.seq_of(st, models.as_slice(E, st, args[1]))
        if q is None:
            return None
        m = N('mpintof', s)
        return [(st, mkseq([S(N('hash', 'sha256', mkseq(q.a[0] + (S(m, K(0), lenatom(m)),))), K(0), K(32))]))]
    E.over[DG + 'PostServerEphermalKey::update'] = h


def split_packets(E, st, q, o):
    """the framed packet starting at offset o of the written bytes: (payload seq, next offset) or None"""
    pl = segs_int(E.slice_seq(st, q, o, K(4)).a[0])
    pad = segs_int(E.slice_seq(st, q, ladd(o, K(4)), K(1)).a[0])
    if pl is None or pad is None:
        return None
    n = lsub(lsub(pl, pad), K(1))
    return E.slice_seq(st, q, ladd(o, K(5)), n), E.slice_seq(st, q, ladd(ladd(o, K(5)), n), pad), ladd(ladd(o, K(4)), pl)


ALGS = [('kex_algorithms', b'curve25519-sha256'), ('server_host_key_algorithms', b'ecdsa-sha2-nistp256'),
        ('encryption_algorithms_client_to_server', b'chacha20-poly1305@openssh.com'),
        ('encryption_algorithms_server_to_client', b'chacha20-poly1305@openssh.com')]


def in_packet(E, st, o):
    """payload of the plain packet the peer sent at stream offset o, and the next offset"""
    I = mkseq([S(N('in', RK), o, K(2 ** 40))])
    pl = segs_int(E.slice_seq(st, I, K(0), K(4)).a[0])
    pad = segs_int(E.slice_seq(st, I, K(4), K(1)).a[0])
    return mkseq([S(N('in', RK), ladd(o, K(5)), lsub(lsub(pl, pad), K(1)))]), ladd(o, ladd(pl, K(4)))


def parsed_in_order(st):
    return [e[1] for e in st.events() if e[0] == 'parsed']


@group('kex')
def g_kex(R, part, deep):
    P = R.P
    f = fn(P, HOST + '::handle_new_client')
    W = f.name
    E = R.eng()
    over_msg_parse(E)
    over_ident(E)
    over_names(E)
    over_ecdh_reply(E)
    over_km(E)
    st = St()
    host = E.sym_ref(N('host'), N('adt', HOST, (N('adt', 'p256::NistP256', ()),)))
    hv = E.get(st, host)
    ident = bytesof(E, st, field(E, st, hv, 'identifier'))
    st.assume(le0(lsub(seqlen(ident), K(253))))
    hk = field(E, st, hv, 'host_key')
    rd = E.sym_ref(N('read'), N('param', 'Read', 0))
    wr = E.sym_ref(N('write'), N('param', 'Write', 1))
    rng = N('sym', N('rng'), N('param', 'Rng', 2))
    outs = async_run(E, f, [host, rd, wr, rng], st)
    seen = set()
    for st, r in outs:
        ct_check(R, st, W)
        vn = vname(E, st, r)
        if vn is None:
            R.check('result', st, None, W, 'result not understood', E.unk('r'))
            continue
        evs = st.events()
        ioerr = any(e[0] in ('readerr', 'writeerr', 'flusherr') for e in evs)
        ws = [e for e in evs if e[0] == 'write']
        R.check('writes only to the peer', st, all(e[1] is WK for e in ws), W, 'something is written to another stream')
        q = mkseq([g for e in ws for g in e[2].a[0]])
        # --- what has been received and parsed, in order
        par = parsed_in_order(st)
        # --- walk over the written bytes
        o = K(0)
        total = seqlen(q)
        stage = 0
        info = {}

        def order_before(kind_w, idx):
            """number of messages parsed before write event idx"""
            n = 0
            w = 0
            for e in evs:
                if e[0] == 'parsed':
                    n += 1
                if e[0] == 'write':
                    if w == idx:
                        return n
                    w += 1
            return n
        # cumulative offsets of write events
        offs = []
        acc = K(0)
        for e in ws:
            offs.append(acc)
            acc = ladd(acc, seqlen(e[2]))

        def parsed_before(off):
            """messages parsed before the byte at offset off was written"""
            n = w = 0
            best = None
            for e in evs:
                if e[0] == 'parsed':
                    n += 1
                if e[0] == 'write':
                    if best is None or st.le(offs[w], off):
                        best = n
                    w += 1
            return best if best is not None else n
        if not st.eq(total, K(0)):
            good = seq_same(E, st, E.slice_seq(st, q, K(0), seqlen(ident)), ident) if st.le(seqlen(ident), total) else None
            R.check('identification is sent first, verbatim', st, good, W, 'first bytes written are %s' % show(q)[:200], q)
            o = seqlen(ident)
            if st.eq(total, o):
                stage = 0.5
            else:
                crlf = E.slice_seq(st, q, o, K(2)) if st.le(ladd(o, K(2)), total) else None
                R.check('identification ends with CR LF', st, crlf is not None and seq_same(E, st, crlf, lit(b'\r\n')), W, 'bytes after the identification are %s' % show(crlf)[:100] if crlf else 'missing', crlf)
                o = ladd(o, K(2))
                stage = 1
        if stage == 1 and not st.eq(o, total):
            x = split_packets(E, st, q, o)
            if x is None or x[0].imp:
                R.check('KEXINIT packet', st, None, W, 'bytes after the identification are not a packet', E.unk('x'))
                continue
            is_, pad, o = x
            info['I_S'] = is_
            kexinit_check(R, E, st, is_, W)
            R.check('padding is random', st, rnd(pad), W, 'KEXINIT padding is %s' % show(pad), pad)
            stage = 2
        if stage == 2 and not st.eq(o, total):
            nbefore = parsed_before(o)
            x = split_packets(E, st, q, o)
            if x is None or x[0].imp:
                R.check('ECDH reply packet', st, None, W, 'bytes after KEXINIT are not a packet', E.unk('x'))
                continue
            rep, pad, o = x
            g = rep.a[0][0] if len(rep.a[0]) == 1 else None
            isrep = g is not None and g.op == 'S' and g.a[0].op == 'ser' and g.a[0].a[0].op == 'ecdhreply' and st.eq(g.a[2], lenatom(g.a[0]))
            R.check('the reply is an ECDH reply', st, isrep, W, 'third message written is %s' % show(rep)[:200], rep)
            R.check('padding is random', st, rnd(pad), W, 'padding is %s' % show(pad), pad)
            if not isrep:
                continue
            reply_check(R, E, st, g.a[0].a[0], info, par, nbefore, ident, hk, W)
            stage = 3
        if stage == 3 and not st.eq(o, total):
            x = split_packets(E, st, q, o)
            if x is None or x[0].imp:
                R.check('NEWKEYS packet', st, None, W, 'bytes after the reply are not a packet', E.unk('x'))
                continue
            nk, pad, o = x
            R.check('NEWKEYS follows the reply', st, seq_same(E, st, nk, lit(b'\x15')), W, 'message after the reply is %s' % show(nk)[:200], nk)
            R.check('padding is random', st, rnd(pad), W, 'padding is %s' % show(pad), pad)
            stage = 4
        if stage == 4 and not st.eq(o, total):
            R.check('nothing else is written', st, None, W, 'more bytes are written after NEWKEYS')
        seen.add((vn, stage))
        # --- algorithms
        neg = None
        if par:
            m = N('sym', N('msgof', par[0]), N('adt', MSG, ()))
            mv = vname(E, st, m)
            if mv == 'KeyExchangeInit':
                v = field(E, st, m, '0')
                neg = [offers(E, st, bytesof(E, st, field(E, st, v, a)), b) for a, b in ALGS]
        if stage >= 3 or vn == 'Ok':
            for (a, b), n in zip(ALGS, neg or [None] * 4):
                R.check('proceeds only if the client offers %s' % b.decode() if a != 'encryption_algorithms_server_to_client' else 'proceeds only if the client offers the cipher server-to-client',
                        st, n is True, W, 'the handshake proceeds although %s need not contain %s' % (a, b.decode()))
        if vn == 'Err':
            e = field(E, st, r, '0')
            en = vname(E, st, e)
            if en == 'UnsupportedAlgorithms':
                R.check('unsupported algorithms only if one is missing', st, neg is not None and any(n is False for n in neg), W,
                        'the handshake is refused although the client offers all required algorithms')
            if neg and any(n is False for n in neg) and not ioerr:
                R.check('missing algorithms give UnsupportedAlgorithms', st, en == 'UnsupportedAlgorithms', W, 'missing algorithm reported as %s' % en, e)
            R.put('errors end the handshake', PROVEN, W)
            # a failure needs a reason
            reason = ioerr or any(x[0] == 'parse failed' for x in evs) or en in ('UnsupportedAlgorithms', 'PacketParseError')
            if not reason:
                reason = why(E, st, par)
            R.check('fails only for a reason', st, reason, W, 'the handshake fails with %s although the client behaved correctly' % en)
            continue
        # --- success
        R.check('I/O errors end the handshake', st, not ioerr and not any(x[0] == 'parse failed' for x in evs), W, 'handshake succeeds after an I/O or parse error')
        R.check('complete handshake before success', st, stage == 4, W, 'handshake succeeds at stage %s of the exchange' % stage)
        R.check('waits for NEWKEYS of the client', st, len(par) == 3 and vname(E, st, N('sym', N('msgof', par[2]), N('adt', MSG, ()))) == 'NewKeys', W,
                'handshake succeeds without the client\'s NEWKEYS as third message')
        pos = lenatom(N('identline', RK))
        for i, p_ in enumerate(par[:3]):
            w_, pos = in_packet(E, st, pos)
            R.check('messages are taken from consecutive packets', st, seq_same(E, st, p_, w_), W, 'message %d is parsed from %s' % (i + 1, show(p_)[:150]), p_)
        R.check('consumes exactly the handshake', st, st.eq(st.gh.get(('pos', RK), K(0)), pos), W, 'stream position after the handshake', st.gh.get(('pos', RK), K(0)))
        hc = field(E, st, r, '0')
        if 'H' not in info:
            continue
        H = info['H']
        km = N('km', info['K'], H)
        sid = bytesof(E, st, field(E, st, hc, 'session_identifier'))
        R.check('session identifier is the exchange hash', st, seq_same(E, st, sid, H), W, 'session identifier is %s' % show(sid)[:200], sid)
        for fld, dn, what in (('receive_cipher', 'ClientToServer', 'receiving'), ('send_cipher', 'ServerToClient', 'sending')):
            c = E.proj(st, field(E, st, hc, fld), pf(0, 0))
            s2 = st.clone()
            cp = cells(E, s2, c, 'probe' + fld)
            t = N('enckey', km, dn)
            for s3, rr in E.run(fn(P, CIPH + 'decrypt_length'), [cp, mkseq([S(N('probe'), K(0), K(4))])], st=s2):
                got = bytesof(E, s3, field(E, s3, rr, '0')) if vname(E, s3, rr) == 'Ok' else mkseq(())
                g = got.a[0][0] if len(got.a[0]) == 1 else None
                if g is None or g.a[0].op != 'xorks':
                    R.check('%s keys' % what, s3, None, W, 'cipher not understood', E.unk('c'))
                    continue
                key, nonce = g.a[0].a[0], g.a[0].a[1]
                R.check('%s side uses its direction\'s keys' % what, s3, seq_same(E, s3, key, mkseq([S(t, K(32), K(32))])), W,
                        '%s cipher uses key %s, expected the second half of the %s key' % (what, show(key)[:300], dn), key)
                R.check('%s counter starts at 3' % what, s3, seq_same(E, s3, nonce, nonce_of(K(3))), W, '%s counter starts at %s' % (what, show(nonce)), nonce)
    nopanic(R, E, 'handshake never panics', W, 'from bytes of the peer')
    R.want('waits for NEWKEYS of the client', 'exchange hash', 'receiving counter starts at 3', 'proceeds only if the client offers curve25519-sha256')
    R.absorb(E)


def rnd(q, n=None):
    return all(g.op == 'S' and g.a[0].op == 'rnd' and g.a[0].a[0] is N('rng') for g in q.a[0]) and bool(q.a[0])


def kexinit_check(R, E, st, q, W):
    """the server's KEXINIT: random cookie, exactly the algorithms used"""
    R.check('KEXINIT number', st, seq_same(E, st, E.slice_seq(st, q, K(0), K(1)), lit(b'\x14')), W, 'first packet is not KEXINIT: %s' % show(q)[:100], q)
    ck = E.slice_seq(st, q, K(1), K(16))
    R.check('cookie is random', st, rnd(ck), W, 'KEXINIT cookie is %s' % show(ck), ck)
    rest = E.slice_seq(st, q, K(17), lsub(seqlen(q), K(17)))
    if not all(g.op == 'C' for g in rest.a[0]):
        R.check('advertised algorithms', st, None, W, 'KEXINIT is %s' % show(rest)[:200], rest)
        return
    b = b''.join(g.a[0] for g in rest.a[0])
    lists, i = [], 0
    for _ in range(10):
        n = int.from_bytes(b[i:i + 4], 'big')
        lists.append(b[i + 4:i + 4 + n])
        i += 4 + n
    tail = b[i:]
    want = [x[1] for x in ALGS]
    for k, w in enumerate(want):
        R.check('advertised: %s' % ALGS[k][0], st, lists[k] == w, W, 'server advertises %r for %s but implements %r' % (lists[k], ALGS[k][0], w))
    R.check('advertised compression is none', st, lists[6] == b'none' and lists[7] == b'none', W, 'server advertises compression %r' % lists[6:8])
    R.check('KEXINIT ends without a guess', st, tail == bytes(5), W, 'KEXINIT ends with %r' % tail)


def why(E, st, par):
    """a reason to refuse: unexpected message kind, wrong key size, non-contributory key"""
    kinds = ['KeyExchangeInit', 'KeyExchangeEcdhInit', 'NewKeys']
    for i, p in enumerate(par):
        n = N('discr', N('msgof', p))
        v = vname(E, st, N('sym', N('msgof', p), N('adt', MSG, ())))
        if v is not None and i < 3 and v != kinds[i]:
            return True
        if v is None:
            # excluded the expected kind?
            s2 = st.clone()
            k = [w for w in E.adtdef(MSG)['variants'] if w[0] == kinds[min(i, 2)]]
            if k and not s2.assume(eq0(lsub(iv(n, 'isize') if False else atom(n), K(k[0][1])))):
                return True
            if k and k[0][1] in s2.ex.get(n, ()):
                return True
    for p, val in st.preds.items():
        if p.op == 'pred' and p.a[0] == 'contributory' and val is False:
            return True
    if len(par) >= 2:
        m = N('sym', N('msgof', par[1]), N('adt', MSG, ()))
        if vname(E, st, m) == 'KeyExchangeEcdhInit':
            q = bytesof(E, st, field(E, st, field(E, st, m, '0'), 'client_ephermal_public_key'))
            if st.decide(eq0(lsub(seqlen(q), K(32)))) is False:
                return True
    return None


def reply_check(R, E, st, val, info, par, nbefore, ident, hk, W):
    name, idn, qk, qs, sname, r, s = val.a
    par = par[:nbefore]
    m = [vname(E, st, N('sym', N('msgof', p), N('adt', MSG, ()))) for p in par]
    R.check('reply only after KEXINIT and ECDH init', st, m[:2] == ['KeyExchangeInit', 'KeyExchangeEcdhInit'] and len(m) == 2, W,
            'ECDH reply is sent after receiving %s' % m)
    if m[:2] != ['KeyExchangeInit', 'KeyExchangeEcdhInit']:
        return
    v = field(E, st, N('sym', N('msgof', par[1]), N('adt', MSG, ())), '0')
    qc = bytesof(E, st, field(E, st, v, 'client_ephermal_public_key'))
    R.check('client key has 32 bytes', st, st.eq(seqlen(qc), K(32)), W, 'a client key of another size is used', qc)
    g = qs.a[0][0] if len(qs.a[0]) == 1 else None
    okq = g is not None and g.op == 'S' and g.a[0].op == 'x25519pub'
    R.check('ephemeral key is fresh', st, okq and g.a[0].a[0].op == 'sym' and g.a[0].a[0].a[0].op == 'x25519sk' and g.a[0].a[0].a[0].a[0].op == 'rnd'
            and g.a[0].a[0].a[0].a[0].a[0] is N('rng'), W, 'server ephemeral key is %s' % show(qs)[:200], qs)
    if not okq:
        return
    sk = g.a[0].a[0]
    R.check('key names', st, seq_same(E, st, name, lit(b'ecdsa-sha2-nistp256')) and seq_same(E, st, idn, lit(b'nistp256')) and
            seq_same(E, st, sname, lit(b'ecdsa-sha2-nistp256')), W, 'host key/signature names are %s %s %s' % (show(name), show(idn), show(sname)), name)
    pub = E.deep(st, field(E, st, hk, 'public'))
    gk = qk.a[0][0] if len(qk.a[0]) == 1 else None
    okk = gk is not None and gk.op == 'S' and gk.a[0].op == 'sec1' and gk.a[0].a[0].op == 'point' and stripref(gk.a[0].a[0].a[0]) is stripref(pub)
    R.check('reply carries the host key', st, okk, W, 'public key in the reply is %s' % show(qk)[:200], qk)
    blob = mkseq(strseg(name) + strseg(idn) + strseg(qk))
    K_ = None
    # the shared secret
    for kq in dh_terms(st, sk):
        K_ = kq
    if K_ is None:
        R.check('shared secret', st, None, W, 'no Diffie-Hellman with the ephemeral key on this path')
        return
    R.check('shared secret uses the client key', st, seq_same(E, st, K_.a[0][0].a[0].a[1], qc), W, 'shared secret computed with %s' % show(K_)[:200], K_)
    R.check('contributory key required', st, st.preds.get(N('pred', 'contributory', K_)) is True, W,
            'an all-zero shared secret is accepted', K_)
    V_C = mkseq([S(N('ident', RK), K(0), lenatom(N('ident', RK)))])
    pre = strseg(V_C) + strseg(ident) + strseg(par[0]) + strseg(info['I_S']) + strseg(blob) + strseg(qc) + strseg(qs)
    # what was signed
    sg = [e for e in st.events() if e[0] == 'sign']
    if len(sg) != 1:
        R.check('exchange hash', st, None, W, '%d signatures are made' % len(sg))
        return
    H = sg[0][2]
    mt = N('mpintof', K_)
    want = mkseq([S(N('hash', 'sha256', mkseq(pre + [S(mt, K(0), lenatom(mt))])), K(0), K(32))])
    good = seq_same(E, st, H, want)
    if good is not True and H.a[0] and H.a[0][0].op == 'S' and H.a[0][0].a[0].op == 'hash':
        inner = H.a[0][0].a[0].a[1]
        good = any(seq_same(E, s2, inner, mkseq(pre + list(ks))) for s2, ks in mpint_cases(st.clone(), E, K_)) or \
            seq_same(E, st, inner, mkseq(pre + [S(mt, K(0), lenatom(mt))]))
    R.check('exchange hash', st, good, W, 'signed hash is over %s, expected %s' % (show(H)[:600], show(want)[:600]), H)
    secret = E.deep(st, field(E, st, hk, 'secret'))
    R.check('signed by the host key', st, stripref(sg[0][1]) is stripref(secret), W, 'hash is signed by %s' % show(sg[0][1])[:200], sg[0][1])
    okr = len(r.a[0]) == 1 and r.a[0][0].a[0].op == 'sig_r' and len(s.a[0]) == 1 and s.a[0][0].a[0].op == 'sig_s' and \
        r.a[0][0].a[0].a[0] is s.a[0][0].a[0].a[0] and r.a[0][0].a[0].a[0].op == 'sig'
    R.check('reply carries the signature over the hash', st, okr, W, 'signature in the reply is (%s, %s)' % (show(r)[:100], show(s)[:100]), r)
    info['H'] = H
    info['K'] = K_


def stripref(v):
    while v.op == 'ref':
        v = v.a[0]
    return v


def dh_terms(st, sk):
    for e in st.events():
        if e[0] == 'dh' and e[1] is sk:
            yield mkseq([S(N('dh', e[1], e[2]), K(0), K(32))])


# ------------------------------------------------------------------ identification strings
class IdRef:
    """reference recogniser of RFC 4253 section 4.2 identification exchange"""
    # states: ('L', k) k chars of "SSH-" matched at line start; ('I',) inside another line; ('C',) after CR in it;
    # ('V', k) k chars of "2.0-" matched; ('B',) incompatible; ('T', n, cr) n content bytes, cr: pending CR; ('D', n) done
    @staticmethod
    def chars(s):
        if s[0] == 'L':
            return [b'SSH-'[s[1]], 13, 10]
        if s[0] in ('I', 'C'):
            return [13, 10, ord('S')]
        if s[0] == 'V':
            return [b'2.0-'[s[1]]]
        if s[0] == 'T':
            return [13, 10]
        return []

    @staticmethod
    def step(s, c):
        """c: int or None (other)"""
        if s[0] == 'L':
            if c == b'SSH-'[s[1]]:
                return ('V', 0) if s[1] == 3 else ('L', s[1] + 1)
            return ('C',) if c == 13 else ('I',)
        if s[0] == 'I':
            return ('C',) if c == 13 else ('I',)
        if s[0] == 'C':
            return ('L', 0) if c == 10 else ('C',) if c == 13 else ('I',)
        if s[0] == 'V':
            if c == b'2.0-'[s[1]]:
                return ('T', 8, False) if s[1] == 3 else ('V', s[1] + 1)
            return ('B',)
        if s[0] == 'T':
            n, cr = s[1], s[2]
            if cr and c == 10:
                return ('D', n)
            if c == 13:
                return ('T', n + (1 if cr else 0), True)
            return ('T', n + (2 if cr else 1), False)
        if s[0] == 'D':
            return ('X',)   # consumed past the end
        return s


@group('ident', ['free', 'limit', 'send'])
def g_ident(R, part, deep):
    P = R.P
    E = R.eng()
    E.peel = 100000
    E.budget = 4000000
    if part == 'send':
        f = fn(P, 'nora_ssh::identifier::send')
        W = f.name
        idv = N('sym', N('id'), N('adt', IDK, ()))
        st = St()
        q = bytesof(E, st, idv)
        io = E.sym_ref(N('io'), N('param', 'Io', 0))
        for s2, r in async_run(E, f, [idv, io], st):
            ws = [e for e in s2.events() if e[0] == 'write']
            errs = [e for e in s2.events() if e[0].endswith('err')]
            vn = vname(E, s2, r)
            if vn == 'Ok':
                got = mkseq([g for e in ws for g in e[2].a[0]])
                R.check('sent verbatim with CR LF', s2, seq_same(E, s2, got, mkseq(list(q.a[0]) + [C(b'\r\n')])) and not errs, W, 'sends %s' % show(got), got)
            else:
                R.check('send fails only on I/O errors', s2, bool(errs), W, 'send fails without I/O error')
        nopanic(R, E, 'send never panics', W, 'while sending')
        R.want('sent verbatim with CR LF')
        R.absorb(E)
        return
    f = fn(P, 'nora_ssh::identifier::parse')
    W = f.name
    SRC = N('in', IOK)
    free = 7 if deep else 4
    limit = part == 'limit'

    def bytes_(E, st, key, pos, n):
        if key is not IOK or cval(n) is None or cval(pos) is None:
            raise Undecided('identification read in blocks of unknown size')
        todo = [st]
        for k in range(cval(n)):
            nxt = []
            b = be(SRC, K(cval(pos) + k), 1)
            for s2 in todo:
                r = s2.gh.get('ref', ('L', 0))
                cs = IdRef.chars(r)
                t = s2.gh.get('tcount', 0)
                if r[0] == 'T':
                    s2.gh['tcount'] = t + 1
                    if limit:
                        lead = s2.gh.get('lead')
                        if lead is None:
                            # choose how many ordinary bytes precede the free part
                            for m in (range(236, 250) if deep else range(241, 248)):
                                s3 = s2.clone()
                                s3.gh['lead'] = m
                                todo2 = s3
                                if s3.assume(and_([not_(eq0(lsub(b, K(13)))), not_(eq0(lsub(b, K(10))))])):
                                    s3.gh['ref'] = IdRef.step(r, None)
                                    nxt.append(s3)
                            continue
                        if t < lead:
                            if s2.assume(and_([not_(eq0(lsub(b, K(13)))), not_(eq0(lsub(b, K(10))))])):
                                s2.gh['ref'] = IdRef.step(r, None)
                                nxt.append(s2)
                            continue
                        if t >= lead + (4 if deep else 3):
                            continue
                    elif t >= free:
                        continue
                cases = [(eq0(lsub(b, K(c))), c) for c in cs]
                cases.append((and_([not_(x) for x, _ in cases]), None))
                for s3, c in E.branch(s2, cases):
                    s3.gh['ref'] = IdRef.step(r, c)
                    s3.gh['cls'] = s3.gh.get('cls', ()) + (c,)
                    nxt.append(s3)
            todo = nxt
        return todo
    E.hooks['bytes'] = bytes_
    seen = set()

    def canon(st, v, d=0):
        if isinstance(v, tuple):
            return tuple(canon(st, x, d) for x in v)
        if not isinstance(v, Node):
            return v
        if v.op == 'be' and v.a[0] is SRC and d < 12:
            c = st.gh.get('cls', ())
            i = cval(v.a[1])
            return ('cls', c[i] if i is not None and i < len(c) else '?')
        if v.op == 'S' and v.a[0] is SRC:
            c = st.gh.get('cls', ())
            i, l = cval(v.a[1]), cval(v.a[2])
            return ('clss', c[i:i + l] if i is not None and l is not None else '?')
        if d > 12:
            return v.id
        return (v.op,) + tuple(canon(st, x, d + 1) for x in v.a)

    def header(E, fr, hdr, st):
        r = st.gh.get('ref', ('L', 0))
        if r[0] not in ('L', 'I', 'C'):
            return False
        pos = st.gh.get(('pos', IOK), K(0))
        loc = tuple(sorted(((k.a[1], canon(st, v)) for k, v in st.mem.items() if k.op == 'loc' and k.a[0] == fr.d), key=lambda x: x[0]))
        key = (fr.fn.name, hdr, r, fr.d, repr(loc))
        if key in seen and pos is not st.gh.get('lastpos'):
            return True
        seen.add(key)
        st.gh['lastpos'] = pos
        return False
    E.hooks['header'] = header
    st = St()
    bo = N('obj', N('idbuf'), N('array', U8, 253))
    io = E.sym_ref(N('io'), N('param', 'Io', 0))
    outs = async_run(E, f, [io, ptr(bo)], st)
    kinds = set()
    for s2, r in outs:
        vn = vname(E, s2, r)
        ref = s2.gh.get('ref', ('L', 0))
        ioerr = any(e[0] == 'readerr' for e in s2.events())
        kinds.add((vn, ref[0]))
        if vn == 'Ok':
            R.check('accepts only a complete identification line', s2, ref[0] == 'D' and ref[1] <= 253 and not ioerr, W,
                    'input classified %s is accepted as identification' % (ref,), r)
            if ref[0] != 'D':
                continue
            got = bytesof(E, s2, field(E, s2, r, '0'))
            pos = s2.gh.get(('pos', IOK), K(0))
            n = ref[1]
            want = mkseq([S(SRC, lsub(pos, K(n + 2)), K(n))])
            good = seq_same(E, s2, got, want)
            if good is not True and cval(s2.simp(seqlen(got))) == n:
                f_ = seqeq(E, s2, got, want)
                good = s2.decide(f_)
                if good is None and n > 48:
                    good = all(s2.decide(seqeq(E, s2, E.slice_seq(s2, got, K(i), K(min(24, n - i))), E.slice_seq(s2, want, K(i), K(min(24, n - i))))) is True for i in range(0, n, 24))
            R.check('identification is exactly the line', s2, good, W, 'identification is %s, the line is %s' % (show(got)[:200], show(want)[:200]), got)
        elif vn == 'Err':
            bad = ioerr or ref[0] == 'B' or (ref[0] in ('T', 'D') and ref[1] > 253)
            # a version mismatch is only known once all bytes compared were read
            R.check('rejects only incompatible or overlong lines', s2, bad, W, 'input classified %s is rejected' % (ref,), r)
        else:
            R.check('result', s2, None, W, 'not understood', E.unk('r'))
    for k in E.panics:
        pass
    nopanic(R, E, 'never panics', W, 'from bytes of the peer')
    if part == 'free':
        if not any(k == ('Ok', 'D') for k in kinds):
            R.check('accepts only a complete identification line', st, None, W, 'no identification line is accepted', E.unk('x') if E.cuts else None)
        R.want('accepts only a complete identification line', 'rejects only incompatible or overlong lines')
    R.absorb(E)
