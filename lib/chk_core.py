"""Obligations over nora_ssh_core: messages, session requests, data types (C01-C08)."""
from fw import *
from specs import *

MSG = 'nora_ssh_core::message::Message'
SR = 'nora_ssh_core::message::channel::session::SessionRequest'
SIG = 'nora_ssh_core::message::channel::session::Signal'
FIELD_MAX = 2 ** 28


def bounded(st, q):
    for g in q.a[0]:
        l = seglen(g)
        if cval(l) is None:
            st.assume(le0(lsub(l, K(FIELD_MAX))))


def sym_buf(name='buf'):
    t = N(name)
    return ptr(N('obj', t, N('slice', U8)), (ps(K(0), lenatom(t)),)), mkseq([S(t, K(0), lenatom(t))]), lenatom(t)


def all_paths(fields):
    for f in fields:
        if f[0] == 'sub':
            yield from all_paths(f[1])
        else:
            yield f


def setup_variant(E, st, v, names):
    """descend through enum variants; returns the innermost payload value"""
    for n in names:
        discr_sym(E, st, v, n)
        v = field(E, st, v, '0')
    return v


def fix_variants(E, st, v, fields):
    for f in all_paths(fields):
        if f[0] == 'variant':
            discr_sym(E, st, getpath(E, st, v, f[1]), f[2])


def bound_fields(E, st, v, fields):
    for f in all_paths(fields):
        if f[0] in ('str', 'utf8', 'ascii', 'nl', 'strnot', 'raw', 'mp'):
            bounded(st, bytesof(E, st, getpath(E, st, v, f[1])))


def serialize_case(R, E, st, f, msg, v, fields, prefix, tag, ret):
    """ret: 'slices' (Message) or 'named' (SessionRequest: (name, len))"""
    bp, b0, N_ = sym_buf()
    bound_fields(E, st, v, fields)
    E.panics = []
    outs = E.run(f, [msg, bp], st=st)
    W = f.name
    for p in E.panics:
        R.check(tag + ': never panics', p.st, None, p.fn, 'panic (%s) reachable while serialising %s' % (p.kind, tag))
    R.put(tag + ': never panics', PROVEN, W)
    seen_ok = False
    for st, r in outs:
        vn = vname(E, st, r)
        if vn is None:
            R.check(tag + ': result', st, None, W, 'result not understood', E.unk('result'))
            continue
        for st2, segs in encode(E, st.clone(), v, fields):
            exp = mkseq([C(bytes(prefix))] + segs if prefix else segs)
            total = seqlen(exp)
            if vn == 'None':
                g = st2.decide(le0(ladd(lsub(N_, total), K(1))))
                R.check(tag + ': fails only if the buffer is too small', st2, g is True, W,
                        'serialize returns None although the encoding of %s fits the buffer' % tag)
                continue
            seen_ok = True
            g = st2.le(total, N_)
            R.check(tag + ': succeeds only if it fits', st2, g, W,
                    'serialize of %s succeeds with a buffer smaller than the encoding' % tag)
            if not g:
                continue
            val = field(E, st2, r, '0')
            cont = E.seq_of(st2, bp)
            if ret == 'slices':
                a, b = val.a[3][0], val.a[3][1]
                qa = E.seq_of(st2, a)
                R.check(tag + ': layout', st2, seq_same(E, st2, qa, exp), W,
                        'serialised bytes of %s are %s, RFC layout is %s' % (tag, show(qa)[:400], show(exp)[:400]), qa, exp)
                okb = isslice(b) and b.a[0] is bp.a[0] and st2.eq(soff(b), total) and st2.eq(slen(b), lsub(N_, total))
                R.check(tag + ': remainder slice', st2, okb, W,
                        'second slice of %s is not the rest of the buffer after the message' % tag, b)
                oka = isslice(a) and a.a[0] is bp.a[0] and st2.eq(soff(a), K(0)) and st2.eq(slen(a), total)
                R.check(tag + ': reported length', st2, oka, W, 'first slice of %s is not the encoded message' % tag, a)
            else:
                name, ln = val.a[3][0], val.a[3][1]
                qn = E.seq_of(st2, name)
                R.check(tag + ': request name', st2, seq_same(E, st2, qn, lit(ret)), W,
                        'serialize names %s %s instead of %r' % (tag, show(qn), ret), qn)
                R.check(tag + ': reported length', st2, st2.eq(ln, total), W,
                        'serialize of %s reports %s bytes, encoding has %s' % (tag, show(ln), show(total)), ln)
                qa = E.slice_seq(st2, cont, K(0), total)
                R.check(tag + ': layout', st2, seq_same(E, st2, qa, exp), W,
                        'serialised bytes of %s are %s, RFC layout is %s' % (tag, show(qa)[:400], show(exp)[:400]), qa, exp)
            rest = E.slice_seq(st2, cont, total, lsub(N_, total))
            want = E.slice_seq(st2, b0, total, lsub(N_, total))
            R.check(tag + ': rest untouched', st2, seq_same(E, st2, rest, want), W,
                    'serialising %s changes bytes after the encoding' % tag, rest)
    if not seen_ok and not E.cuts:
        R.check(tag + ': layout', st, None, W, 'serialize never succeeds for %s' % tag)
    R.want(tag + ': layout')


MPLENS_Q = [(1, 1), (2, 0), (3, 1), (1, 2)]
MPLENS_T = [(a, b) for a in range(4) for b in range(4)] + [(32, 1), (1, 32), (33, 2)]


@group('msg_ser', [m[0] for m in MESSAGES])
def g_msg_ser(R, part, deep):
    P = R.P
    f = fn(P, MSG + '::serialize')
    name, vs, num, fields = [m for m in MESSAGES if m[0] == part][0]
    cases = [None]
    if any(x[0] == 'mp' for x in all_paths(fields)):
        cases = MPLENS_T if deep else MPLENS_Q
    for c in cases:
        E = R.eng()
        E.peel = 80
        st = St()
        msg = E.sym_ref(N('msg'), N('adt', MSG, ()))
        v = setup_variant(E, st, E.get(st, msg), vs)
        fix_variants(E, st, v, fields)
        if c:
            mps = [x for x in all_paths(fields) if x[0] == 'mp']
            for x, n in zip(mps, c):
                q = bytesof(E, st, getpath(E, st, v, x[1]))
                if not st.assume(eq0(lsub(seqlen(q), K(n)))):
                    raise Exception('len')
        serialize_case(R, E, st, f, msg, v, fields, [num], name, 'slices')
        R.absorb(E)


@group('msg_parse')
def g_msg_parse(R, part, deep):
    P = R.P
    f = fn(P, MSG + '::parse')
    E = R.eng()
    E.peel = 12
    over_namelist(E)
    t = N('data')
    data = ptr(N('obj', t, N('slice', U8)), (ps(K(0), lenatom(t)),))
    src = mkseq([S(t, K(0), lenatom(t))])
    L = lenatom(t)
    outs = E.run(f, [data])
    W = f.name
    for p in E.panics:
        R.check('never panics', p.st, None, p.fn, 'panic (%s) reachable from parse' % p.kind)
    R.put('never panics', PROVEN, W)
    okkinds = set()
    for st, r in outs:
        vn = vname(E, st, r)
        if vn == 'Ok':
            m = field(E, st, r, '0')
            path = []
            v = m
            for _ in range(2):
                n = vname(E, st, v)
                if n is None:
                    break
                k = key_of(v)
                if E.adtdef(k)['kind'] != 'enum':
                    break
                path.append(n)
                v = field(E, st, v, '0') if variants(E, k)[vindex(E, k, n)][2] else v
            cands = [x for x in MESSAGES if x[1] == path]
            if not cands:
                R.check('known kinds only', st, None, W, 'parse yields a message kind without RFC format: %s' % path, m)
                continue
            # the nested variant selects the format
            def sel(x):
                for g in all_paths(x[3]):
                    if g[0] == 'variant' and vname(E, st, getpath(E, st, v, g[1])) != g[2]:
                        return False
                return True
            cands = [x for x in cands if sel(x)]
            if not cands:
                R.check('known kinds only', st, None, W, 'parse yields an unknown variant of %s' % path, m)
                continue
            x = cands[0]
            okkinds.add(x[0])
            try:
                decode_check(E, st.clone(), v, [('u8', x[2])] + x[3], src, K(0), L)
                R.put('%s: decoded exactly' % x[0], PROVEN, W)
            except Bad as b:
                R.check('%s: decoded exactly' % x[0], st, None, W, 'parse accepts as %s: %s' % (x[0], b.what), *b.terms)
        elif vn == 'Err':
            for x in MESSAGES:
                s2 = st.clone()
                g = contradicts(E, s2, [('u8', x[2])] + x[3], src, K(0), L)
                R.check('%s: accepted if well-formed' % x[0], s2, g is True, W,
                        'parse rejects a well-formed %s message' % x[0])
        else:
            R.check('result', st, None, W, 'result not understood', E.unk('r'))
    for x in MESSAGES:
        if x[0] not in okkinds:
            # nothing of this kind is accepted: is any well-formed input of it lost?
            R.want('%s: decoded exactly' % x[0])
    R.absorb(E)


def over_namelist(E):
    for nm in ('<nora_ssh_core::data::NameList as core::convert::TryFrom<&slice>>::try_from',
               '<nora_ssh_core::data::NameList as core::convert::TryFrom<&array>>::try_from'):
        E.over[nm] = sum_namelist


@group('session_ser', [x[0] for x in SESSION])
def g_sess_ser(R, part, deep):
    P = R.P
    f = fn(P, SR + '::serialize')
    name, rn, fields = [x for x in SESSION if x[0] == part][0]
    sigs = [None]
    if any(g[0] == 'signal' for g in fields):
        sigs = [b for a, b in SIGNALS] + ['Other']
    for sg in sigs:
        E = R.eng()
        st = St()
        msg = E.sym_ref(N('req'), N('adt', SR, ()))
        v = E.get(st, msg)
        discr_sym(E, st, v, name)
        if sg:
            y = getpath(E, st, v, ('signal',))
            discr_sym(E, st, y, sg)
            if sg == 'Other':
                bounded(st, bytesof(E, st, field(E, st, y, '0')))
        serialize_case(R, E, st, f, msg, v, fields, [], name + ('/' + sg if sg else ''), rn)
        R.absorb(E)


@group('session_parse')
def g_sess_parse(R, part, deep):
    P = R.P
    f = fn(P, SR + '::parse')
    E = R.eng()
    E.peel = 12
    t, t2 = N('data'), N('ty')
    data = ptr(N('obj', t, N('slice', U8)), (ps(K(0), lenatom(t)),))
    ty = ptr(N('obj', t2, N('slice', U8)), (ps(K(0), lenatom(t2)),))
    src = mkseq([S(t, K(0), lenatom(t))])
    qt = mkseq([S(t2, K(0), lenatom(t2))])
    L = lenatom(t)
    outs = E.run(f, [ty, data])
    W = f.name
    for p in E.panics:
        R.check('never panics', p.st, None, p.fn, 'panic (%s) reachable from SessionRequest::parse' % p.kind)
    R.put('never panics', PROVEN, W)
    for st, r in outs:
        vn = vname(E, st, r)
        if vn == 'Ok':
            v = field(E, st, r, '0')
            n = vname(E, st, v)
            x = [x for x in SESSION if x[0] == n]
            if not x:
                R.check('known kinds only', st, None, W, 'unknown request %s' % n, v)
                continue
            x = x[0]
            if st.decide(seqeq(E, st, qt, lit(x[1]))) is not True:
                R.check('%s: decoded exactly' % n, st, None, W, 'request name other than %r accepted as %s' % (x[1], n), qt)
                continue
            try:
                decode_check(E, st.clone(), v, x[2], src, K(0), L)
                R.put('%s: decoded exactly' % n, PROVEN, W)
            except Bad as b:
                R.check('%s: decoded exactly' % n, st, None, W, 'parse accepts as %s: %s' % (n, b.what), *b.terms)
        elif vn == 'Err':
            for x in SESSION:
                s2 = st.clone()
                if not s2.assume(seqeq(E, s2, qt, lit(x[1]))):
                    R.put('%s: accepted if well-formed' % x[0], PROVEN, W)
                    continue
                fs = [('str', g[1]) if g[0] == 'signal' else g for g in x[2]]
                g = contradicts(E, s2, fs, src, K(0), L)
                R.check('%s: accepted if well-formed' % x[0], s2, g is True, W, 'parse rejects a well-formed %s request' % x[0])
        else:
            R.check('result', st, None, W, 'result not understood', E.unk('r'))
    R.want(*['%s: decoded exactly' % x[0] for x in SESSION])
    R.absorb(E)


@group('signals')
def g_signals(R, part, deep):
    """&[u8] -> Signal and back"""
    P = R.P
    f = fn(P, '<%s as core::convert::From<&slice>>::from' % SIG)
    g = fn(P, '<&slice as core::convert::From<%s>>::from' % SIG)
    E = R.eng()
    t = N('name')
    q = mkseq([S(t, K(0), lenatom(t))])
    for st, v in E.run(f, [ptr(N('obj', t, N('slice', U8)), (ps(K(0), lenatom(t)),))]):
        vn = vname(E, st, v)
        if vn == 'Other':
            z = bytesof(E, st, field(E, st, v, '0'))
            R.check('other names are kept', st, seq_same(E, st, z, q), f.name, 'Signal::Other does not hold the name', z)
            for a, b in SIGNALS:
                R.check('%s is recognised' % a, st, st.refutes(seqeq(E, st, q, lit(a.encode()))), f.name,
                        '%s can become Signal::Other' % a, q)
        elif vn is None:
            R.check('result', st, None, f.name, 'not understood', E.unk('r'))
        else:
            a = [a for a, b in SIGNALS if b == vn]
            good = bool(a) and st.decide(seqeq(E, st, q, lit(a[0].encode()))) is True
            R.check('%s only for its name' % vn, st, good, f.name, 'Signal::%s is produced for another name' % vn, q)
    R.absorb(E)
    for b in [b for a, b in SIGNALS] + ['Other']:
        E = R.eng()
        st = St()
        v = N('sym', N('sig'), N('adt', SIG, ()))
        discr_sym(E, st, v, b)
        for s2, r in E.run(g, [v], st=st):
            z = bytesof(E, s2, r)
            w = signal_bytes(E, s2, v)
            R.check('%s encodes to its name' % b, s2, seq_same(E, s2, z, w), g.name, 'Signal::%s is encoded as %s' % (b, show(z)), z)
        for p in E.panics:
            R.check('never panics', p.st, None, p.fn, 'panic %s' % p.kind)
        R.absorb(E)


@group('parse_string')
def g_parse_string(R, part, deep):
    P = R.P
    f = fn(P, 'nora_ssh_core::data::parse_string')
    E = R.eng()
    t = N('data')
    L = lenatom(t)
    src = mkseq([S(t, K(0), L)])
    outs = E.run(f, [ptr(N('obj', t, N('slice', U8)), (ps(K(0), L),))])
    W = f.name
    for p in E.panics:
        R.check('never panics', p.st, None, p.fn, 'panic (%s) in parse_string' % p.kind)
    R.put('never panics', PROVEN, W)
    for st, r in outs:
        vn = vname(E, st, r)
        if vn == 'Some':
            v = field(E, st, r, '0')
            n = segs_int(E.slice_seq(st, src, K(0), K(4)).a[0])
            a, b = E.seq_of(st, v.a[3][0]), E.seq_of(st, v.a[3][1])
            good = st.le(ladd(n, K(4)), L)
            R.check('string', st, good and seq_same(E, st, a, E.slice_seq(st, src, K(4), n)), W, 'wrong string bytes', a)
            R.check('rest', st, good and seq_same(E, st, b, E.slice_seq(st, src, ladd(n, K(4)), lsub(L, ladd(n, K(4))))), W,
                    'wrong remainder', b)
        elif vn == 'None':
            s2 = st.clone()
            bad = s2.assume(le0(lsub(K(4), L)))
            if bad:
                n = segs_int(E.slice_seq(s2, src, K(0), K(4)).a[0])
                bad = s2.assume(le0(lsub(ladd(n, K(4)), L)))
            R.check('accepted if complete', s2, not bad, W, 'complete string rejected')
        else:
            R.check('result', st, None, W, 'not understood', E.unk('r'))
    R.want('string', 'rest')
    R.absorb(E)


@group('accessors')
def g_accessors(R, part, deep):
    """as_x / into_x yield the payload exactly for their own variant; From wraps into it"""
    P = R.P
    n_acc = 0
    for key, pre in ((MSG, ''), ('nora_ssh_core::message::channel::Channel', ''), ('nora_ssh_core::message::userauth::UserAuth', '')):
        vs = P.adts[key]['variants']
        for f in list(P.fns.values()):
            if f.ext or not f.name.startswith(key + '::') or '{' in f.name:
                continue
            mn = f.name[len(key) + 2:]
            if not (mn.startswith('as_') or mn.startswith('into_')) or not P.body(f):
                continue
            own = None
            rt = P.body(f).locals[0]
            if rt.op == 'adt' and rt.a[0] == OPT:
                inner = rt.a[1][0]
                if inner.op == 'ref':
                    inner = inner.a[1]
                for i, w in enumerate(vs):
                    if w[2] and w[2][0][1] is not None and inner.op == 'adt' and w[2][0][1].op == 'adt' and w[2][0][1].a[0] == inner.a[0]:
                        own = i
            if own is None:
                continue
            n_acc += 1
            for i, w in enumerate(vs):
                E = R.eng()
                st = St()
                if mn.startswith('as_'):
                    a = E.sym_ref(N('m'), N('adt', key, ()))
                    v = E.get(st, a)
                else:
                    a = v = N('sym', N('m'), N('adt', key, ()))
                discr_sym(E, st, v, w[0])
                for s2, r in E.run(f, [a], st=st):
                    vn = vname(E, s2, r)
                    if i == own:
                        good = vn == 'Some'
                        if good:
                            x = field(E, s2, r, '0')
                            if x.op == 'ptr':
                                x = E.get(s2, x)
                            good = x is E.proj(s2, v, pf(i, 0))
                        R.check(mn + ' returns its payload', s2, good, f.name, '%s does not return the payload of %s' % (mn, w[0]), r)
                    else:
                        R.check(mn + ' only for its kind', s2, vn == 'None', f.name, '%s yields a value for %s' % (mn, w[0]), r)
                for p in E.panics:
                    R.check(mn + ' never panics', p.st, None, f.name, 'panic')
                R.absorb(E)
        for im in P.impls.get('core::convert::From', ()):
            a = im['args']
            if a[0].op == 'adt' and a[0].a[0] == key and len(a) > 1 and a[1].op == 'adt':
                f = P.fns.get(im['methods'].get('from'))
                own = [i for i, w in enumerate(vs) if w[2] and w[2][0][1] is not None and w[2][0][1].op == 'adt' and w[2][0][1].a[0] == a[1].a[0]]
                if f is None or not own:
                    continue
                E = R.eng()
                x = E.make_sym(N('p'), a[1])
                for s2, r in E.run(f, [x]):
                    good = r.op == 'agg' and r.a[2] == own[0] and (r.a[3][0] is x or r.a[3][0] == x)
                    R.check('From<%s>' % a[1].a[0].split('::')[-1], s2, good, f.name, 'conversion yields another variant', r)
                R.absorb(E)
    if n_acc < 5:
        raise Missing('conversion accessors of Message')
    # text <-> service message conversions
    text = lambda t: t.op == 'ref' and (t.a[1].op == 'str' or t.a[1].op == 'slice')
    for im in P.impls.get('core::convert::From', ()):
        a = im['args']
        if len(a) < 2:
            continue
        f = P.fns.get(im['methods'].get('from'))
        key = next((x.a[0] for x in a[:2] if x.op == 'adt' and x.a[0].startswith('nora_ssh_core::message::service::')), None)
        if f is None or key is None or f.ext:
            continue
        E = R.eng()
        st = St()
        t = N('s')
        q = mkseq([S(t, K(0), lenatom(t))])
        if text(a[1]):
            v = E.sym_ref(t, a[1].a[1])
        elif text(a[0]) and a[1].op == 'adt':
            v = adt(a[1].a[0], 0, ptr(N('obj', t, N('slice', U8)), (ps(K(0), lenatom(t)),)))
        else:
            continue
        for s2, r in E.run(f, [v], st=st):
            x = r.a[3][0] if r.op == 'agg' and r.a[0] == 'adt' and len(r.a[3]) == 1 else r
            z = bytesof(E, s2, x)
            R.check('service name unchanged by conversions', s2, seq_same(E, s2, z, q), f.name, 'a conversion yields %s' % show(z)[:80], z)
        for p in E.panics:
            R.check('conversions never panic', p.st, None, p.fn, 'panic (%s)' % p.kind)
        R.put('conversions never panic', PROVEN, f.name)
        R.absorb(E)


@group('asciistr')
def g_ascii(R, part, deep):
    P = R.P
    f = fn(P, '<nora_ssh_core::data::AsciiStr as core::convert::TryFrom<&slice>>::try_from')
    g = fn(P, '<&slice as core::convert::From<nora_ssh_core::data::AsciiStr>>::from')
    g2 = fn(P, '<&str as core::convert::From<nora_ssh_core::data::AsciiStr>>::from')
    for n in list(range(0, 4)) + [None]:
        E = R.eng()
        st = St()
        t = N('s')
        L = lenatom(t)
        if n is not None:
            st.assume(eq0(lsub(L, K(n))))
        q = mkseq([S(t, K(0), L)])
        for s2, r in E.run(f, [ptr(N('obj', t, N('slice', U8)), (ps(K(0), L),))], st=st):
            vn = vname(E, s2, r)
            af = models.asciif(E, s2, q)
            if vn == 'Ok':
                R.check('accepts only ASCII', s2, not feasible(s2, not_(af)) or has_pred(E, s2, 'ascii', q) is True, f.name, 'non-ASCII text accepted', q)
                for h in (g, g2):
                    for s3, x in E.run(h, [field(E, s2, r, '0')], st=s2.clone()):
                        z = bytesof(E, s3, x)
                        R.check('text unchanged', s3, seq_same(E, s3, z, E.slice_seq(s3, q, K(0), L)), h.name, 'text differs from the input', z)
            elif vn == 'Err':
                R.check('accepts all ASCII', s2, not feasible(s2, af), f.name, 'ASCII text rejected', q)
            else:
                R.check('result', s2, None, f.name, '', E.unk('r'))
        for p in E.panics:
            R.check('never panics', p.st, None, p.fn, 'panic (%s)' % p.kind)
        R.put('never panics', PROVEN, f.name)
        R.absorb(E)
    # arrays of any length
    fa = [P.fns[x] if isinstance(x, str) else x for x in P.find('<nora_ssh_core::data::AsciiStr as core::convert::TryFrom<&array>>::try_from')]
    for f in fa:
        for n in (0, 1, 3, 300):
            E = R.eng()
            st = St()
            t = N('s')
            q = mkseq([S(N('deref', t), K(0), K(n))])
            ta = P.generics_of(f)
            cn = next((x[1] for x in ta if x[0] not in ('Self',) and not str(x[0]).startswith("'")), None)
            a = ptr(N('obj', t, N('array', U8, n)))
            for s2, r in E.run(f, [a], {cn: N('cval', n)} if cn is not None else None, st=st):
                vn = vname(E, s2, r)
                af = models.asciif(E, s2, q)
                if vn == 'Ok':
                    R.check('arrays: accepts only ASCII', s2, not feasible(s2, not_(af)) or has_pred(E, s2, 'ascii', q) is True, f.name, 'non-ASCII array accepted', q)
                    z = bytesof(E, s2, field(E, s2, r, '0'))
                    R.check('arrays: text unchanged', s2, seq_same(E, s2, z, q), f.name, 'text differs from the input', z)
                elif vn == 'Err':
                    R.check('arrays: accepts all ASCII', s2, not feasible(s2, af), f.name, 'ASCII array rejected', q)
                else:
                    R.check('arrays: result', s2, None, f.name, '', E.unk('r'))
            R.absorb(E)


def nl_formula(bs):
    """ASCII, no empty name, for symbolic bytes"""
    n = len(bs)
    fs = [le0(lsub(b, K(127))) for b in bs]
    comma = lambda b: eq0(lsub(b, K(44)))
    if n:
        fs.append(not_(comma(bs[0])))
        fs.append(not_(comma(bs[-1])))
    for a, b in zip(bs, bs[1:]):
        fs.append(or_([not_(comma(a)), not_(comma(b))]))
    return and_(fs)


@group('namelist')
def g_namelist(R, part, deep):
    P = R.P
    f = fn(P, '<nora_ssh_core::data::NameList as core::convert::TryFrom<&slice>>::try_from')
    conv = [fn(P, '<&slice as core::convert::From<nora_ssh_core::data::NameList>>::from'),
            fn(P, '<&str as core::convert::From<nora_ssh_core::data::NameList>>::from')]
    it = fn(P, 'nora_ssh_core::data::NameList::iter')
    nx = fn(P, '<nora_ssh_core::data::NameListIter as core::iter::traits::iterator::Iterator>::next')
    for n in range(0, 7 if deep else 5):
        E = R.eng()
        E.peel = 50
        st = St()
        t = N('s')
        L = lenatom(t)
        st.assume(eq0(lsub(L, K(n))))
        q = mkseq([S(t, K(0), K(n))])
        bs = [be(t, K(i), 1) for i in range(n)]
        spec = nl_formula(bs)
        outs = E.run(f, [ptr(N('obj', t, N('slice', U8)), (ps(K(0), L),))], st=st)
        for s2, r in outs:
            vn = vname(E, s2, r)
            x = s2.clone()
            if vn == 'Ok':
                R.check('accepts only valid lists', x, not feasible(x, not_(spec)), f.name,
                        'a list with an empty name or non-ASCII byte is accepted (length %d)' % n)
                nl = field(E, s2, r, '0')
                for h in conv:
                    for s3, y in E.run(h, [nl], st=s2.clone()):
                        z = bytesof(E, s3, y)
                        R.check('text unchanged', s3, seq_same(E, s3, z, q), h.name, 'text differs from the input', z)
                # iteration
                if n <= (5 if deep else 4):
                    iterate(R, E, s2.clone(), it, nx, nl, t, n, bs)
            elif vn == 'Err':
                R.check('accepts all valid lists', x, not feasible(x, spec), f.name, 'a valid list is rejected (length %d)' % n)
            else:
                R.check('result', s2, None, f.name, '', E.unk('r'))
        for p in E.panics:
            R.check('never panics', p.st, None, p.fn, 'panic (%s)' % p.kind)
        R.put('never panics', PROVEN, f.name)
        R.absorb(E)
    R.want('accepts only valid lists', 'accepts all valid lists', 'text unchanged', 'iteration')


def feasible(st, f):
    """can f hold in st? (splits disjunctions)"""
    for g in dnf(st.clauses + (f,)):
        s = st.clone()
        s.clauses = ()
        if all(s.assume(x) for x in g):
            return True
    return False


def dnf(fs):
    """lazy product of the disjuncts of the formulas"""
    if not fs:
        yield ()
        return
    f, rest = fs[0], fs[1:]
    if f.op == 'and':
        yield from dnf(tuple(f.a[0]) + tuple(rest))
        return
    alts = f.a[0] if f.op == 'or' else (f,)
    for a in alts:
        if a.op in ('and', 'or'):
            yield from dnf((a,) + tuple(rest))
        else:
            for r in dnf(rest):
                yield (a,) + r


def iterate(R, E, st, it, nx, nl, t, n, bs):
    o = N('loc', 999, 1)
    st.mem[o] = nl
    for s1, i in E.run(it, [ptr(o)], st=st):
        w = N('loc', 999, 2)
        s1.mem[w] = i
        todo = [(s1, 0)]
        steps = 0
        while todo:
            s1, pos = todo.pop()
            steps += 1
            if steps > 4000:
                R.check('iteration', s1, None, nx.name, 'iteration too long', E.unk('it'))
                return
            for s2, r in E.run(nx, [ptr(w)], st=s1):
                vn = vname(E, s2, r)
                if vn == 'Some':
                    z = bytesof(E, s2, field(E, s2, r, '0'))
                    ln = cval(s2.simp(seqlen(z)))
                    if ln is None:
                        # position of the separator is symbolic: split on it
                        for k in range(0, n - pos + 1):
                            s3 = s2.clone()
                            if s3.assume(eq0(lsub(seqlen(z), K(k)))):
                                sub(R, E, s3, z, k, pos, n, bs, t, nx, todo)
                        continue
                    sub(R, E, s2, z, ln, pos, n, bs, t, nx, todo)
                elif vn == 'None':
                    R.check('iteration', s2, pos >= n, nx.name, 'iteration ends after %d of %d bytes' % (pos, n), r)
                else:
                    R.check('iteration', s2, None, nx.name, '', E.unk('it'))


def sub(R, E, st, z, ln, pos, n, bs, t, nx, todo):
    if not feasible(st, TRUE):
        return
    comma = lambda b: eq0(lsub(b, K(44)))
    good = ln > 0 and pos + ln <= n and bool(seq_same(E, st, z, mkseq([S(t, K(pos), K(ln))])))
    if good:
        for b in bs[pos:pos + ln]:
            if feasible(st, comma(b)):
                good = None
        if pos + ln < n and feasible(st, not_(comma(bs[pos + ln]))):
            good = None
    R.check('iteration', st, good, nx.name, 'iteration yields %s at position %d of a %d byte list' % (show(z), pos, n), z)
    if good:
        todo.append((st, min(pos + ln + 1, n) if pos + ln < n else n))


@group('sign_data')
def g_sign(R, part, deep):
    P = R.P
    f = fn(P, 'nora_ssh_core::message::userauth::format_sign_data')
    E = R.eng()
    st = St()
    bp, b0, N_ = sym_buf()
    names = ['session', 'user', 'service', 'algorithm', 'blob']
    args = []
    qs = []
    for n in names:
        t = N(n)
        q = mkseq([S(t, K(0), lenatom(t))])
        bounded(st, q)
        qs.append(q)
        args.append(ptr(N('obj', t, N('slice', U8)), (ps(K(0), lenatom(t)),)))
    exp = mkseq(strseg(qs[0]) + [C(b'\x32')] + strseg(qs[1]) + strseg(qs[2]) + strseg(lit(b'publickey')) + [C(b'\x01')] + strseg(qs[3]) + strseg(qs[4]))
    total = seqlen(exp)
    W = f.name
    for s2, r in E.run(f, [bp] + args, st=st):
        vn = vname(E, s2, r)
        if vn == 'None':
            R.check('fails only if the buffer is too small', s2, s2.decide(le0(ladd(lsub(N_, total), K(1)))) is True, W, 'rejects a large enough buffer')
        elif vn == 'Some':
            z = E.seq_of(s2, field(E, s2, r, '0'))
            R.check('sign data layout', s2, seq_same(E, s2, z, exp), W, 'sign data is %s instead of %s' % (show(z)[:300], show(exp)[:300]), z)
            rest = E.slice_seq(s2, E.seq_of(s2, bp), total, lsub(N_, total))
            R.check('rest untouched', s2, seq_same(E, s2, rest, E.slice_seq(s2, b0, total, lsub(N_, total))), W, 'writes beyond', rest)
        else:
            R.check('result', s2, None, W, '', E.unk('r'))
    for p in E.panics:
        R.check('never panics', p.st, None, p.fn, 'panic (%s)' % p.kind)
    R.put('never panics', PROVEN, W)
    R.want('sign data layout')
    R.absorb(E)
