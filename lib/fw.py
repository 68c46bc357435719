"""Obligations, groups and verdicts."""
import time, traceback, sys
from terms import *
from engine import *
import models
from models import seqeq, seq_same, val_eq

PROVEN, REFUTED, UNKNOWN = 'proven', 'refuted', 'unknown'


class Ob:
    __slots__ = ('name', 'verdict', 'where', 'detail', 'trace')

    def __init__(s, name, verdict, where='', detail='', trace=()):
        s.name, s.verdict, s.where, s.detail, s.trace = name, verdict, where, detail, list(trace)

    def __repr__(s):
        return '%s %s @%s: %s' % (s.verdict, s.name, s.where, s.detail)


class Missing(Exception):
    pass


class Undecided(Exception):
    pass


GROUPS = {}


def group(name, parts=None):
    """register an obligation group; parts: list of part keys analysed independently"""
    def w(f):
        GROUPS[name] = (f, parts)
        return f
    return w


class Res:
    """results of one group"""

    def __init__(s, P, gname):
        s.P = P
        s.g = gname
        s.obs = {}
        s.stats = {'functions': set(), 'paths': 0, 'branches': 0, 'calls': 0, 'steps': 0, 'panics': 0}
        s.notes = {}
        s.cuts = {}

    def eng(s):
        E = Eng(s.P)
        return E

    def absorb(s, E):
        s.stats['functions'] |= E.fns_seen
        s.stats['paths'] += E.paths
        s.stats['branches'] += E.branches
        s.stats['calls'] += E.calls_seen
        s.stats['steps'] += E.steps
        s.stats['panics'] += len(E.panics)
        for k, v in E.notes.items():
            s.notes[k] = s.notes.get(k, 0) + v
        for k, v in E.cuts.items():
            s.cuts[k] = s.cuts.get(k, 0) + v

    def put(s, name, verdict, where='', detail='', st=None):
        """merge a case verdict into the obligation `name`: refuted > unknown > proven"""
        o = s.obs.get(name)
        rank = {PROVEN: 0, UNKNOWN: 1, REFUTED: 2}
        if o is None or rank[verdict] > rank[o.verdict]:
            tr = [show(x)[:160] for x in st.trace()][-14:] if st is not None else ()
            s.obs[name] = Ob(name, verdict, where, detail, tr)

    def check(s, name, st, good, where, detail, *terms):
        """good: True (shown) / False / None (not shown). precise state and terms -> refuted"""
        if good is True:
            s.put(name, PROVEN, where)
        else:
            imp = st.imp or any(t is not None and t.imp for t in terms if isinstance(t, Node))
            s.put(name, UNKNOWN if imp else REFUTED, where, detail, st)

    def want(s, *names):
        """names must have been decided at least once"""
        for n in names:
            if n not in s.obs:
                s.obs[n] = Ob(n, UNKNOWN, '', 'never reached')


def fn(P, *names, opt=False):
    for n in names:
        r = P.find(n)
        if r:
            return r[0]
    if opt:
        return None
    raise Missing(names[0])


def where(f):
    return '%s (%s)' % (f.name, getattr(f, 'span', '') or '')


# ------------------------------------------------------------------ values
def variants(E, key):
    return E.adtdef(key)['variants']


def vindex(E, key, name):
    for i, v in enumerate(variants(E, key)):
        if v[0] == name:
            return i
    raise Missing('%s::%s' % (key, name))


def vname(E, st, v):
    """variant name of an enum value, or None"""
    if v.op == 'agg' and v.a[0] == 'adt':
        d = E.adtdef(v.a[1])
        return d['variants'][v.a[2]][0] if d else None
    if v.op == 'sym' and v.a[1].op == 'adt':
        i = E.sym_variant(st, v)
        if i is None:
            return None
        return E.adtdef(v.a[1].a[0])['variants'][i][0]
    return None


def key_of(v):
    if v.op == 'agg' and v.a[0] == 'adt':
        return v.a[1]
    if v.op == 'sym' and v.a[1].op == 'adt':
        return v.a[1].a[0]
    return None


def field(E, st, v, name):
    if v.op == 'ptr':
        v = E.get(st, v)
    k = key_of(v)
    d = E.adtdef(k) if k else None
    if d is None:
        return N('sym', E.unk('field %s of %s' % (name, v.op)), UNKTY)
    if d['kind'] == 'enum':
        i = v.a[2] if v.op == 'agg' else E.sym_variant(st, v)
        if i is None:
            return N('sym', E.unk('variant of ' + k), UNKTY)
    else:
        i = 0
    for j, f in enumerate(d['variants'][i][2]):
        if f[0] == name:
            return E.proj(st, v, pf(i, j))
    raise Missing('%s.%s' % (k, name))


def getpath(E, st, v, path):
    for n in path:
        v = field(E, st, v, n)
    return v


def bytesof(E, st, v):
    """byte sequence denoted by a reference, NameList, AsciiStr, Identifier, Vec or array value"""
    for _ in range(5):
        if v.op == 'seq':
            return v
        if v.op == 'ptr':
            return E.seq_of(st, v)
        k = key_of(v)
        if v.op == 'agg' and v.a[0] in ('vec', 'box', 'refmut', 'pin'):
            v = v.a[3][0]
            continue
        if k:
            d = E.adtdef(k)
            if d and d['kind'] == 'struct' and len(d['variants'][0][2]) >= 1:
                v = E.proj(st, v, pf(0, 0))
                continue
        break
    t = E.unk('bytes of ' + v.op)
    return mkseq([S(t, K(0), lenatom(t))])


def discr_sym(E, st, v, vn):
    """fix the variant of a symbolic enum value"""
    k = key_of(v)
    i = vindex(E, k, vn)
    st.val[N('discr', v.a[0])] = variants(E, k)[i][1]
    st.log = (N('pred', 'variant', v.a[0], vn), st.log)


def has_pred(E, st, kind, q):
    """is predicate kind(q) (utf8 / ascii / namelist) established in the state? True/False/None"""
    n = cval(st.simp(seqlen(q)))
    if n == 0:
        return True
    r = st.preds.get(N('pred', kind, q))
    if r is not None:
        return r
    for p, val in st.preds.items():
        if p.op == 'pred' and p.a[0] == kind and p.a[1].op == 'seq' and seq_same(E, st, p.a[1], q):
            return val
    if kind in ('utf8', 'ascii') and has_pred(E, st, 'namelist', q) and kind != 'namelist':
        return True
    if kind == 'utf8' and has_pred(E, st, 'ascii', q):
        return True
    return None


def assume_pred(E, st, kind, q):
    """assume kind(q); False if contradictory"""
    r = has_pred(E, st, kind, q)
    if r is not None:
        return r
    return st.assume(N('pred', kind, q))


def mpint_cases(st, E, q):
    """canonical mpint encodings of the byte string q (concrete length): [(st, segs)]"""
    n = cval(st.simp(seqlen(q)))
    if n is None:
        return [(st, [S(E.unk('mpint'), K(0), lenatom(N('mpint', q)))])]
    out = []
    for k in range(n + 1):
        # first non-zero byte at k
        if k == n:
            out.append((st, [C(b'\0\0\0\0')]))
            break
        b = segs_int(E.slice_seq(st, q, K(k), K(1)).a[0])
        d = st.decide(eq0(b))
        if d is not True:
            s2 = st.clone() if d is None else st
            if d is False or s2.assume(not_(eq0(b))):
                body = E.slice_seq(s2, q, K(k), K(n - k))
                hi = st.decide(le0(lsub(K(128), b))) if d is False else s2.decide(le0(lsub(K(128), b)))
                if hi is None:
                    s3 = s2.clone()
                    if s3.assume(le0(lsub(K(128), b))):
                        out.append((s3, [C((n - k + 1).to_bytes(4, 'big') + b'\0')] + list(body.a[0])))
                    if s2.assume(le0(lsub(b, K(127)))):
                        out.append((s2, [C((n - k).to_bytes(4, 'big'))] + list(body.a[0])))
                elif hi:
                    out.append((s2, [C((n - k + 1).to_bytes(4, 'big') + b'\0')] + list(body.a[0])))
                else:
                    out.append((s2, [C((n - k).to_bytes(4, 'big'))] + list(body.a[0])))
            if d is False:
                break
        if not st.assume(eq0(b)):
            break
    return out


def strseg(q):
    return [N('I', seqlen(q), 4)] + list(q.a[0])


def encode(E, st, v, fields):
    """expected encoding of value v: list of (st, segs)"""
    outs = [(st, [])]
    for f in fields:
        nxt = []
        for st, segs in outs:
            k = f[0]
            if k == 'u8':
                nxt.append((st, segs + [C(bytes([f[1]]))]))
            elif k == 'u32c':
                nxt.append((st, segs + [C(f[1].to_bytes(4, 'big'))]))
            elif k == 'boolc':
                nxt.append((st, segs + [C(bytes([f[1]]))]))
            elif k in ('u32', 'u32not'):
                x = getpath(E, st, v, f[1])
                nxt.append((st, segs + [N('I', x, 4)]))
            elif k == 'bool':
                x = getpath(E, st, v, f[1])
                nxt.append((st, segs + [N('I', b2i(E.as_bool(x)), 1)]))
            elif k == 'strc':
                nxt.append((st, segs + strseg(lit(f[1]))))
            elif k in ('str', 'utf8', 'ascii', 'nl', 'strnot'):
                q = bytesof(E, st, getpath(E, st, v, f[1]))
                nxt.append((st, segs + strseg(q)))
            elif k == 'raw' or k == 'arr':
                q = bytesof(E, st, getpath(E, st, v, f[1]))
                nxt.append((st, segs + list(q.a[0])))
            elif k == 'variant':
                nxt.append((st, segs))
            elif k == 'mp':
                q = bytesof(E, st, getpath(E, st, v, f[1]))
                for s2, e in mpint_cases(st, E, q):
                    nxt.append((s2, segs + e))
            elif k == 'sub':
                for s2, e in encode(E, st, v, f[1]):
                    e = mkseq(e)
                    nxt.append((s2, segs + [N('I', seqlen(e), 4)] + list(e.a[0])))
            elif k == 'signal':
                nxt.append((st, segs + strseg(signal_bytes(E, st, getpath(E, st, v, f[1])))))
            else:
                raise Exception(k)
        outs = nxt
    return outs


def signal_bytes(E, st, v):
    from specs import SIGNALS
    n = vname(E, st, v)
    if n == 'Other':
        return bytesof(E, st, field(E, st, v, '0'))
    for a, b in SIGNALS:
        if b == n:
            return lit(a.encode())
    t = E.unk('signal')
    return mkseq([S(t, K(0), lenatom(t))])


class Bad(Exception):
    def __init__(s, what, *terms):
        s.what, s.terms = what, terms


def decode_check(E, st, v, fields, src, off, end):
    """the value v is exactly the decoding of src[off..end): raises Bad; returns end offset"""
    for f in fields:
        k = f[0]
        if k in ('u8', 'boolc', 'u32c', 'u32', 'u32not', 'bool'):
            w = 4 if k.startswith('u32') else 1
            if not st.le(ladd(off, K(w)), end):
                raise Bad('%s field not proven to lie within the input' % k, off, end)
            x = segs_int(E.slice_seq(st, src, off, K(w)).a[0])
            if x is None:
                raise Bad('unreadable input', E.unk('int'))
            if k == 'u8' or k == 'u32c':
                if not st.eq(x, K(f[1])):
                    raise Bad('constant field is not %d' % f[1], x)
            elif k == 'boolc':
                g = st.decide(eq0(x))
                if g is not (f[1] == 0):
                    raise Bad('boolean byte does not select this form', x)
            elif k in ('u32', 'u32not'):
                y = getpath(E, st, v, f[1])
                if y.op != 'lin' or not st.eq(x, y):
                    raise Bad('field %s is not the uint32 at its position' % '.'.join(f[1]), x, y)
                if k == 'u32not':
                    for c in f[2]:
                        if not st.refutes(eq0(lsub(x, K(c)))):
                            raise Bad('%s holds a reserved code %d' % ('.'.join(f[1]), c), x)
            else:
                y = E.as_bool(getpath(E, st, v, f[1]))
                a, b = st.decide(y), st.decide(not_(eq0(x)))
                if not (y is not_(eq0(x)) or (a is not None and a == b) or equiv(st, y, not_(eq0(x)))):
                    raise Bad('boolean %s is not (byte != 0)' % '.'.join(f[1]), x, y)
            off = ladd(off, K(w))
        elif k == 'arr':
            n = f[2]
            if not st.le(ladd(off, K(n)), end):
                raise Bad('fixed field not within input', off, end)
            q = E.slice_seq(st, src, off, K(n))
            y = bytesof(E, st, getpath(E, st, v, f[1]))
            if not seq_same(E, st, q, y):
                raise Bad('field %s is not the %d bytes at its position' % ('.'.join(f[1]), n), q, y)
            off = ladd(off, K(n))
        elif k == 'raw':
            q = E.slice_seq(st, src, off, lsub(end, off))
            y = bytesof(E, st, getpath(E, st, v, f[1]))
            if not seq_same(E, st, q, y):
                raise Bad('field %s is not the rest of the input' % '.'.join(f[1]), q, y)
            off = end
        elif k == 'variant':
            x = vname(E, st, getpath(E, st, v, f[1]))
            if x != f[2]:
                raise Bad('%s is %s, expected %s' % ('.'.join(f[1]), x, f[2]), off)
        else:
            if not st.le(ladd(off, K(4)), end):
                raise Bad('string length not proven to lie within the input', off, end)
            n = segs_int(E.slice_seq(st, src, off, K(4)).a[0])
            off = ladd(off, K(4))
            if not st.le(ladd(off, n), end):
                raise Bad('string not proven to lie within the input', off, n, end)
            q = E.slice_seq(st, src, off, n)
            if k == 'sub':
                decode_check(E, st, v, f[1], src, off, ladd(off, n))
            elif k == 'strc':
                if st.decide(seqeq(E, st, q, lit(f[1]))) is not True:
                    raise Bad('string is not proven to be %r' % f[1], q)
            elif k == 'signal':
                y = getpath(E, st, v, f[1])
                vn = vname(E, st, y)
                if vn is None:
                    raise Bad('signal variant', E.unk('signal'))
                from specs import SIGNALS
                if vn == 'Other':
                    z = bytesof(E, st, field(E, st, y, '0'))
                    if not seq_same(E, st, q, z):
                        raise Bad('Signal::Other does not hold the received name', q, z)
                    for a, b in SIGNALS:
                        if not st.refutes(seqeq(E, st, q, lit(a.encode()))):
                            raise Bad('Signal::Other accepted for the standard name %s' % a, q)
                else:
                    a = [a for a, b in SIGNALS if b == vn][0]
                    if st.decide(seqeq(E, st, q, lit(a.encode()))) is not True:
                        raise Bad('Signal::%s for a name that is not %s' % (vn, a), q)
            else:
                y = bytesof(E, st, getpath(E, st, v, f[1]))
                if not seq_same(E, st, q, y):
                    raise Bad('field %s is not the string at its position' % '.'.join(f[1]), q, y)
                if k == 'strnot':
                    for c in f[2]:
                        if not st.refutes(seqeq(E, st, q, lit(c))):
                            raise Bad('%s may be the known name %r' % ('.'.join(f[1]), c), q)
                kind = {'utf8': 'utf8', 'ascii': 'ascii', 'nl': 'namelist'}.get(k)
                if kind and has_pred(E, st, kind, q) is not True:
                    raise Bad('field %s accepted without %s validation' % ('.'.join(f[1]), kind), q)
            off = ladd(off, n)
    if not st.eq(off, end):
        raise Bad('accepted with unread or missing bytes', off, end)
    return off


def equiv(st, a, b):
    x = st.clone()
    if x.assume(and_([a, not_(b)])):
        return False
    y = st.clone()
    return not y.assume(and_([not_(a), b]))


def contradicts(E, st, fields, src, off, end):
    """True if 'src[off..end) is well-formed per fields' is impossible in st. Forks nothing:
    facts are added to st; returns False when the conjunction stays satisfiable."""
    for f in fields:
        k = f[0]
        if k == 'variant':
            continue
        if k in ('u8', 'boolc', 'u32c', 'u32', 'u32not', 'bool', 'arr'):
            w = 4 if k.startswith('u32') else f[2] if k == 'arr' else 1
            if not st.assume(le0(lsub(ladd(off, K(w)), end))):
                return True
            if k != 'arr':
                x = segs_int(E.slice_seq(st, src, off, K(w)).a[0])
                if k in ('u8', 'u32c') and not st.assume(eq0(lsub(x, K(f[1])))):
                    return True
                if k == 'boolc' and not st.assume(eq0(x) if f[1] == 0 else not_(eq0(x))):
                    return True
                if k == 'u32not':
                    for c in f[2]:
                        if not st.assume(not_(eq0(lsub(x, K(c))))):
                            return True
            off = ladd(off, K(w))
        elif k == 'raw':
            return False
        else:
            if not st.assume(le0(lsub(ladd(off, K(4)), end))):
                return True
            n = segs_int(E.slice_seq(st, src, off, K(4)).a[0])
            off = ladd(off, K(4))
            if not st.assume(le0(lsub(ladd(off, n), end))):
                return True
            if k == 'strc' and not st.assume(eq0(lsub(n, K(len(f[1]))))):
                return True
            q = E.slice_seq(st, src, off, n)
            if k == 'sub':
                if contradicts(E, st, f[1], src, off, ladd(off, n)):
                    return True
            elif k == 'strc':
                if not st.assume(seqeq(E, st, q, lit(f[1]))):
                    return True
            elif k == 'strnot':
                for c in f[2]:
                    if not st.assume(not_(seqeq(E, st, q, lit(c)))):
                        return True
            kind = {'utf8': 'utf8', 'ascii': 'ascii', 'nl': 'namelist'}.get(k)
            if kind and not assume_pred(E, st, kind, q):
                return True
            off = ladd(off, n)
    return not st.assume(eq0(lsub(off, end)))


# ------------------------------------------------------------------ summaries
def sum_namelist(E, st, c, args, dty):
    """NameList::try_from(bytes): Ok(list of exactly these bytes) iff namelist(bytes) (decided by group 'namelist')"""
    p = models.as_slice(E, st, args[0])
    q = E.seq_of(st, p)
    f = N('pred', 'namelist', q)
    h = has_pred(E, st, 'namelist', q)
    if h is not None:
        f = TRUE if h else FALSE
    if all(g.op == 'C' for g in q.a[0]):
        b = b''.join(g.a[0] for g in q.a[0])
        f = TRUE if all(x < 128 for x in b) and (b == b'' or b'' not in b.split(b',')) else FALSE
    r = []
    for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
        if g:
            r.append((n, ok(adt('nora_ssh_core::data::NameList', 0, p))))
        else:
            r.append((n, err(N('sym', N('app', 'namelisterr', q), N('adt', 'nora_ssh_core::data::InvalidNameList', ())))))
    return r


def find_impl(P, trait, selfkey, argpred=None):
    """methods of local `impl trait for selfkey`"""
    out = []
    for im in P.impls.get(trait, ()):
        a = im['args']
        if a and a[0].op == 'adt' and a[0].a[0] == selfkey and (argpred is None or argpred(a)):
            out.append(im)
    return out


def is_bytes_ref(t):
    return t.op == 'ref' and t.a[1] is N('slice', U8)
