"""Transfer functions for library code that has no MIR here (core/alloc/std primitives,
futures I/O combinators, crypto crates).  Each is a function (E, st, callee, args, dty) ->
[(st, value)] or None to fall through."""
from terms import *
from engine import *

MODELS = {}
TMODELS = {}
PMODELS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def tmodel(*names):
    def d(f):
        for n in names:
            TMODELS[n] = f
        return f
    return d


def pmodel(*pre):
    def d(f):
        for n in pre:
            PMODELS.append((n, f))
        return f
    return d


def norm(E, st, p):
    """follow pointers to pointers so that p refers to a non-pointer"""
    for _ in range(6):
        if p.op != 'ptr':
            if p.op == 'agg' and p.a[0] in ('pin', 'refmut'):
                p = p.a[3][0]
                continue
            return p
        v = E.load(st, p.a[0], p.a[1])
        if v.op == 'ptr' or (v.op == 'agg' and v.a[0] in ('pin', 'refmut')):
            p = v
            continue
        return p
    return p


COW = 'alloc::borrow::Cow'


def as_slice(E, st, p):
    """pointer -> slice pointer (arrays, vecs, generic arrays get a full-range view)"""
    if p.op == 'agg' and p.a[0] in ('pin', 'refmut'):
        p = p.a[3][0]
    if p.op == 'agg' and p.a[0] == 'box':
        p = kptr(p.a[3][0])
    if p.op == 'sym':
        return ptr(N('obj', p.a[0], N('slice', U8)), (ps(K(0), lenatom(p.a[0])),))
    if p.op != 'ptr':
        t = E.unk('slice of ' + p.op)
        return ptr(N('obj', t, N('slice', U8)), (ps(K(0), lenatom(t)),))
    if isslice(p):
        return p
    v = E.load(st, p.a[0], p.a[1])
    if v.op == 'ptr':
        return as_slice(E, st, v)
    if v.op == 'agg' and v.a[0] == 'vec':
        q = papp(p.a[1], pf(None, 0))
        return ptr(p.a[0], papp(q, ps(K(0), E.vlen(v))))
    if v.op == 'agg' and v.a[0] == 'adt' and v.a[1] == COW:
        w = v.a[3][0]
        return as_slice(E, st, w if w.op == 'ptr' else ptr(p.a[0], papp(p.a[1], pf(None, 0))))
    if v.op == 'agg' and v.a[0] in ('box',):
        q = papp(p.a[1], pf(None, 0))
        return ptr(p.a[0], papp(q, ps(K(0), E.vlen(v.a[3][0]))))
    return ptr(p.a[0], papp(p.a[1], ps(K(0), E.vlen(v))))


def elem_ptr(p, i):
    return ptr(p.a[0], papp(p.a[1], pi(i)))


def sub_ptr(p, o, l):
    return ptr(p.a[0], papp(p.a[1], ps(o, l)))


# ------------------------------------------------------------------ ranges
RNG = 'core::ops::range::'


def range_of(idx, ln):
    """(start, end) of a range value or None for a plain index"""
    if idx.op == 'lin':
        return None
    if idx.op == 'agg' and idx.a[0] == 'adt':
        k = idx.a[1]
        f = idx.a[3]
        if k == RNG + 'Range':
            return f[0], f[1]
        if k == RNG + 'RangeFrom':
            return f[0], ln
        if k == RNG + 'RangeTo':
            return K(0), f[0]
        if k == RNG + 'RangeFull':
            return K(0), ln
        if k == RNG + 'RangeInclusive':
            return f[0], ladd(f[1], K(1))
        if k == RNG + 'RangeToInclusive':
            return K(0), ladd(f[0], K(1))
    return None


def islin(x):
    return x.op == 'lin'


def get_(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    idx = args[1]
    ln = slen(p)
    if idx.op == 'lin':
        out = []
        for n, good in E.branch(st, [(le0(ladd(lsub(idx, ln), K(1))), 1), (le0(lsub(ln, idx)), 0)]):
            out.append((n, some(elem_ptr(p, idx)) if good else NONE))
        return out
    r = range_of(idx, ln)
    if r is None or not all(islin(x) for x in r):
        return None
    a, b = r
    good = and_([le0(lsub(a, b)), le0(lsub(b, ln))])
    out = []
    for n, g in E.branch(st, [(good, 1), (not_(good), 0)]):
        out.append((n, some(sub_ptr(p, a, lsub(b, a))) if g else NONE))
    return out


model('slice::get', 'slice::get_mut', 'str::get', 'str::get_mut')(get_)


def index_(E, st, c, args, dty):
    p0 = args[0]
    p = as_slice(E, st, p0)
    idx = args[1]
    ln = slen(p)
    if idx.op == 'lin':
        good = le0(ladd(lsub(idx, ln), K(1)))
        val = elem_ptr(p, idx)
    else:
        r = range_of(idx, ln)
        if r is None or not all(islin(x) for x in r):
            return None
        a, b = r
        good = and_([le0(lsub(a, b)), le0(lsub(b, ln))])
        val = sub_ptr(p, a, lsub(b, a))
    out = []
    for n, g in E.branch(st, [(good, 1), (not_(good), 0)]):
        if g:
            out.append((n, val))
        else:
            E.panic(n, 'index out of range', E.span)
    return out


@tmodel('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def t_index(E, st, c, args, dty):
    t = c.a[2][0] if c.a[2] else UNKTY
    if t.op in ('slice', 'array', 'param') or (t.op == 'adt' and t.a[0] in ('alloc::vec::Vec', 'generic_array::GenericArray')):
        return index_(E, st, c, args, dty)
    if t.op == 'str' or (t.op == 'adt' and t.a[0] == 'alloc::string::String'):
        return str_index(E, st, c, args, dty)
    return None


model('<slice as core::ops::index::Index<I>>::index', '<slice as core::ops::index::IndexMut<I>>::index_mut',
      '<array as core::ops::index::Index<I>>::index', '<array as core::ops::index::IndexMut<I>>::index_mut',
      '<alloc::vec::Vec as core::ops::index::Index<I>>::index', '<alloc::vec::Vec as core::ops::index::IndexMut<I>>::index_mut')(index_)


def boundary(E, st, q, i):
    """formula: offset i is a char boundary of str content q"""
    if i is K(0) or i is seqlen(q) or st.eq(i, seqlen(q)) or st.eq(i, K(0)):
        return TRUE
    if st.prove(asciif(E, st, q)):
        return TRUE
    # just before or behind a one-byte character that was searched for
    off = K(0)
    for g in q.a[0]:
        for d in (K(0), K(1)):
            r = lsub(lsub(i, off), d)
            if r.op == 'lin' and r.a[0] == 0 and len(r.a[1]) == 1 and r.a[1][0][1] == 1:
                a = r.a[1][0][0]
                if a.op == 'int' or a.op == 'iv':
                    a = a.a[0]
                if a.op == 'find' and a.a[0] is mkseq([g]) and byte_pat(a.a[1]) and a.a[1].a[0][0].a[0][0] < 128:
                    return TRUE
        off = ladd(off, seglen(g))
    return N('pred', 'charbound', q, i)


@model('<str as core::ops::index::Index<I>>::index')
def str_index(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    q = E.seq_of(st, p)
    ln = slen(p)
    r = range_of(args[1], ln)
    if r is None:
        return None
    a, b = r
    good = and_([le0(lsub(a, b)), le0(lsub(b, ln))])
    out = []
    for n, g in E.branch(st, [(good, 1), (not_(good), 0)]):
        if not g:
            E.panic(n, 'str index out of range', E.span)
            continue
        f = and_([boundary(E, n, q, a), boundary(E, n, q, b)])
        for m, h in E.branch(n, [(f, 1), (not_(f), 0)]):
            if h:
                out.append((m, sub_ptr(p, a, lsub(b, a))))
            else:
                E.panic(m, 'str char boundary', E.span)
    return out


@model('slice::len', 'str::len', 'alloc::vec::Vec::len', 'alloc::string::String::len')
def m_len(E, st, c, args, dty):
    return [(st, slen(as_slice(E, st, args[0])))]


@model('slice::is_empty', 'str::is_empty', 'alloc::vec::Vec::is_empty', 'alloc::string::String::is_empty')
def m_is_empty(E, st, c, args, dty):
    return [(st, eq0(st.simp(slen(as_slice(E, st, args[0])))))]


def nonempty(E, st, ln):
    return E.branch(st, [(le0(lsub(K(1), ln)), 1), (le0(ln), 0)])


@model('slice::first', 'slice::first_mut')
def m_first(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    return [(n, some(elem_ptr(p, K(0))) if g else NONE) for n, g in nonempty(E, st, slen(p))]


@model('slice::last', 'slice::last_mut')
def m_last(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    return [(n, some(elem_ptr(p, lsub(slen(p), K(1)))) if g else NONE) for n, g in nonempty(E, st, slen(p))]


@model('slice::split_first', 'slice::split_first_mut')
def m_split_first(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    l1 = lsub(slen(p), K(1))
    return [(n, some(tup(elem_ptr(p, K(0)), sub_ptr(p, K(1), l1))) if g else NONE) for n, g in nonempty(E, st, slen(p))]


@model('slice::split_last', 'slice::split_last_mut')
def m_split_last(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    l1 = lsub(slen(p), K(1))
    return [(n, some(tup(elem_ptr(p, l1), sub_ptr(p, K(0), l1))) if g else NONE) for n, g in nonempty(E, st, slen(p))]


def split_at(E, st, p, mid):
    return tup(sub_ptr(p, K(0), mid), sub_ptr(p, mid, lsub(slen(p), mid)))


@model('slice::split_at', 'slice::split_at_mut', 'str::split_at')
def m_split_at(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    mid = args[1]
    good = le0(lsub(mid, slen(p)))
    out = []
    for n, g in E.branch(st, [(good, 1), (not_(good), 0)]):
        if g:
            out.append((n, split_at(E, n, p, mid)))
        else:
            E.panic(n, 'split_at out of range', E.span)
    return out


@model('slice::split_at_checked', 'slice::split_at_mut_checked')
def m_split_at_checked(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    good = le0(lsub(args[1], slen(p)))
    return [(n, some(split_at(E, n, p, args[1])) if g else NONE) for n, g in E.branch(st, [(good, 1), (not_(good), 0)])]


@model('slice::first_chunk', 'slice::first_chunk_mut', 'slice::split_first_chunk', 'slice::split_first_chunk_mut',
       'slice::last_chunk')
def m_first_chunk(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    n_ = c.a[2][-1]
    if n_.op != 'cval':
        return None
    k = K(n_.a[0])
    nm = c.a[1].split('::')[-1]
    good = le0(lsub(k, slen(p)))
    out = []
    for n, g in E.branch(st, [(good, 1), (not_(good), 0)]):
        if not g:
            out.append((n, NONE))
        elif nm.startswith('split'):
            out.append((n, some(split_at(E, n, p, k))))
        elif nm.startswith('last'):
            out.append((n, some(sub_ptr(p, lsub(slen(p), k), k))))
        else:
            out.append((n, some(sub_ptr(p, K(0), k))))
    return out


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copy(E, st, c, args, dty):
    d = as_slice(E, st, args[0])
    s = as_slice(E, st, args[1])
    good = eq0(lsub(slen(d), slen(s)))
    out = []
    for n, g in E.branch(st, [(good, 1), (not_(good), 0)]):
        if g:
            v = E.get(n, s)
            if v.op == 'seq' and seqlen(v) is not slen(d):
                pass
            E.put(n, d, v)
            out.append((n, UNIT))
        else:
            E.panic(n, 'copy_from_slice length mismatch', E.span)
    return out


@model('slice::fill')
def m_fill(E, st, c, args, dty):
    d = as_slice(E, st, args[0])
    v = args[1]
    if v.op == 'lin':
        k = cval(v)
        E.put(st, d, mkseq([Z(slen(d))]) if k == 0 else mkseq([N('F', v, slen(d))]))
        return [(st, UNIT)]
    return None


@model('slice::to_vec', 'alloc::slice::to_vec', 'str::to_owned', 'slice::to_owned', 'str::to_string', 'str::into_string')
def m_to_vec(E, st, c, args, dty):
    v = E.get(st, as_slice(E, st, args[0]))
    return [(st, mkvec(v))]


def mkvec(v):
    return N('agg', 'vec', '', 0, (v,), ())


@model('slice::align_to', 'slice::align_to_mut')
def m_align(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    v = E.get(st, p)
    flat = None
    if v.op == 'arr' and all(x.op == 'seq' for x in v.a[0]):
        flat = mkseq([g for x in v.a[0] for g in x.a[0]])
    elif v.op == 'seq':
        flat = v
    if flat is None:
        return None
    e = kslice(mkseq(()))
    return [(st, tup(e, kslice(flat), e))]


@model('slice::as_flattened', 'slice::concat', 'slice::as_flattened_mut')
def m_flat(E, st, c, args, dty):
    v = E.get(st, as_slice(E, st, args[0]))
    if v.op == 'arr':
        parts = []
        for x in v.a[0]:
            if x.op == 'ptr':
                x = E.seq_of(st, x)
            if x.op == 'agg' and x.a[0] == 'vec':
                x = x.a[3][0]
            if x.op != 'seq':
                return None
            parts += x.a[0]
        q = mkseq(parts)
        return [(st, mkvec(q) if c.a[1].endswith('concat') else kslice(q))]
    return None


@model('core::slice::raw::from_mut', 'core::slice::raw::from_ref')
def m_from_mut(E, st, c, args, dty):
    # view a single element as a one-element slice: materialise as a cell of the object
    p = args[0]
    return [(st, ptr(p.a[0], p.a[1] + (N('p1'),)))] if False else m_from_mut2(E, st, p)


def m_from_mut2(E, st, p):
    v = E.load(st, p.a[0], p.a[1])
    if v.op == 'lin':
        # one byte variable: represented by pointer pair; see read/write of 'cellslice'
        return [(st, N('ptr', N('one', p), (ps(K(0), K(1)),)))]
    return None


# ------------------------------------------------------------------ equality / ordering
def term_same(E, st, a, b):
    """equality of two terms modulo the facts of the state: True or False (not shown)"""
    if a is b:
        return True
    if not isinstance(a, Node) or not isinstance(b, Node) or a.op != b.op or len(a.a) != len(b.a):
        return False
    if a.op == 'seq':
        return seq_same(E, st, a, b) is True
    if a.op == 'lin':
        return st.eq(st.simp(a), st.simp(b))
    if a.op not in ('hash', 'hashval', 'poly1305', 'xorks', 'sig', 'sig_r', 'sig_s', 'dh', 'x25519pub', 'x25519sk', 'ser', 'iv', 'sym'):
        return False
    return all(x is y or x == y or term_same(E, st, x, y) for x, y in zip(a.a, b.a))


def seq_same(E, st, a, b):
    """structural equality of two sequences modulo the linear facts of the state:
    True, or None when it cannot be shown"""
    if a is b:
        return True
    sa, sb = list(a.a[0]), list(b.a[0])
    i = j = 0
    while True:
        while i < len(sa) and st.eq(st.simp(seglen(sa[i])), K(0)):
            i += 1
        while j < len(sb) and st.eq(st.simp(seglen(sb[j])), K(0)):
            j += 1
        if i == len(sa) or j == len(sb):
            return True if i == len(sa) and j == len(sb) else None
        x, y = sa[i], sb[j]
        if x is y:
            i += 1
            j += 1
            continue
        lx, ly = st.simp(seglen(x)), st.simp(seglen(y))
        if x.op == 'S' and y.op == 'S' and term_same(E, st, x.a[0], y.a[0]) and st.eq(x.a[1], y.a[1]):
            if st.eq(lx, ly):
                i += 1
                j += 1
            elif st.le(lx, ly):
                sb[j] = S(y.a[0], ladd(y.a[1], lx), lsub(ly, lx))
                i += 1
            elif st.le(ly, lx):
                sa[i] = S(x.a[0], ladd(x.a[1], ly), lsub(lx, ly))
                j += 1
            else:
                return None
            continue
        if x.op == 'Z' and y.op == 'Z' and st.eq(lx, ly) or x.op == 'F' and y.op == 'F' and x.a[0] is y.a[0] and st.eq(lx, ly):
            i += 1
            j += 1
            continue
        # zero runs against explicit zeroes, and byte-wise comparison of narrow segments
        w = cval(lx), cval(ly)
        k = min([v for v in w if v is not None], default=None)
        if k is None:
            if (x.op == 'Z' or y.op == 'Z') and False:
                pass
            return None
        k = min(k, 8)
        if not (st.le(K(k), lx) and st.le(K(k), ly)):
            return None
        xa = segs_int(E.sub(x, K(0), K(k)))
        ya = segs_int(E.sub(y, K(0), K(k)))
        if xa is None or ya is None or not st.eq(xa, ya):
            return None
        r = lsub(lx, K(k))
        if r is K(0):
            i += 1
        else:
            t = E.sub(x, K(k), r)
            sa[i:i + 1] = list(t)
        r = lsub(ly, K(k))
        if r is K(0):
            j += 1
        else:
            t = E.sub(y, K(k), r)
            sb[j:j + 1] = list(t)


def seqeq(E, st, a, b):
    """formula for equality of two byte sequences"""
    if a is b:
        return TRUE
    if seq_same(E, st, a, b):
        return TRUE
    la, lb = seqlen(a), seqlen(b)
    fl = eq0(lsub(st.simp(la), st.simp(lb)))
    if fl is FALSE or st.decide(fl) is False:
        return FALSE
    n = cval(st.simp(la))
    m = cval(st.simp(lb))
    k = n if n is not None else m
    if k is None:
        # structural comparison with a common prefix/suffix removed
        sa, sb = list(a.a[0]), list(b.a[0])
        while sa and sb and sa[0] is sb[0]:
            sa.pop(0), sb.pop(0)
        while sa and sb and sa[-1] is sb[-1]:
            sa.pop(), sb.pop()
        if not sa and not sb:
            return fl
        x, y = mkseq(sa), mkseq(sb)
        if x.id > y.id:
            x, y = y, x
        return and_([fl, N('pred', 'seqeq', x, y)])
    if k > 4096:
        x, y = (a, b) if a.id < b.id else (b, a)
        return and_([fl, N('pred', 'seqeq', x, y)])
    fs = [fl]
    if k > 48:
        # long sequences: one predicate per segment pair
        x, y = (a, b) if a.id < b.id else (b, a)
        if all(g.op == 'C' for g in a.a[0]) and all(g.op == 'C' for g in b.a[0]):
            return FALSE
        return and_([fl, N('pred', 'seqeq', x, y)])
    st2 = st
    if st.decide(fl) is not True:
        st2 = st.clone()
        if not st2.assume(fl):
            return FALSE
    i = 0
    isc = all(g.op == 'C' for g in a.a[0]) or all(g.op == 'C' for g in b.a[0])
    while i < k:
        w = 1 if isc else min(8, k - i)
        xa = segs_int(E.slice_seq(st2, a, K(i), K(w)).a[0])
        xb = segs_int(E.slice_seq(st2, b, K(i), K(w)).a[0])
        if xa is None or xb is None:
            x, y = (a, b) if a.id < b.id else (b, a)
            return and_([fl, N('pred', 'seqeq', x, y)])
        f = eq0(lsub(xa, xb))
        if f is FALSE:
            return FALSE
        fs.append(f)
        i += w
    return and_(fs)


def val_eq(E, st, a, b, d=0):
    """equality formula of two values or None if unknown"""
    if a is b and not a.imp:
        return TRUE
    if d > 6:
        return None
    if a.op == 'ptr' or b.op == 'ptr':
        if a.op == 'ptr' and b.op == 'ptr':
            return val_eq(E, st, E.get(st, a), E.get(st, b), d + 1)
        x = E.get(st, a) if a.op == 'ptr' else a
        y = E.get(st, b) if b.op == 'ptr' else b
        return val_eq(E, st, x, y, d + 1)
    if a.op == 'agg' and a.a[0] in ('vec', 'box'):
        return val_eq(E, st, a.a[3][0], b, d + 1)
    if b.op == 'agg' and b.a[0] in ('vec', 'box'):
        return val_eq(E, st, a, b.a[3][0], d + 1)
    if a.op == 'lin' and b.op == 'lin':
        return eq0(lsub(st.simp(a), st.simp(b)))
    if E.isbool(a) and E.isbool(b):
        return iff(a, b)
    if a.op == 'arr' and b.op == 'seq':
        a, b = b, a
    if a.op == 'seq' and b.op == 'arr' and all(x.op == 'lin' for x in b.a[0]):
        b = mkseq([N('I', x, 1) for x in b.a[0]])
    if a.op == 'seq' and b.op == 'seq':
        return seqeq(E, st, a, b)
    if a.op == 'arr' and b.op == 'arr':
        if len(a.a[0]) != len(b.a[0]):
            return FALSE
        fs = [val_eq(E, st, x, y, d + 1) for x, y in zip(a.a[0], b.a[0])]
        return None if any(f is None for f in fs) else and_(fs)
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[0] in ('adt', 'tuple'):
        if a.a[0] == 'adt' and a.a[1] != b.a[1]:
            return None
        if a.a[2] != b.a[2]:
            return FALSE
        fs = [val_eq(E, st, x, y, d + 1) for x, y in zip(a.a[3], b.a[3])]
        return None if any(f is None for f in fs) else and_(fs)
    if a.op == 'agg' and b.op == 'sym':
        a, b = b, a
    if a.op == 'sym' and b.op == 'agg' and a.a[1].op == 'adt' and b.a[0] == 'adt':
        dd = E.adtdef(b.a[1])
        if dd is None:
            return None
        f = eq0(lsub(atom(N('discr', a.a[0])), K(dd['variants'][b.a[2]][1])))
        if dd['kind'] != 'enum':
            f = TRUE
        fs = [val_eq(E, st, E.sym_field(a, b.a[2], i), y, d + 1) for i, y in enumerate(b.a[3])]
        return None if any(x is None for x in fs) else and_([f] + fs)
    if a.op == 'sym' and b.op == 'sym':
        x, y = (a, b) if a.id < b.id else (b, a)
        return N('pred', 'valeq', x, y)
    return None


def user_eq(E, c):
    """the comparison is a user-written impl in the workspace"""
    f, _ = E.resolve(c)
    return f is not None and not f.ext


@tmodel('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def t_eq(E, st, c, args, dty):
    if user_eq(E, c):
        return None
    f = val_eq(E, st, args[0], args[1])
    if f is None:
        return None
    return [(st, f if c.a[1].endswith('::eq') else not_(f))]


@tmodel('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def t_ord(E, st, c, args, dty):
    a, b = args
    while a.op == 'ptr':
        a = E.get(st, a)
    while b.op == 'ptr':
        b = E.get(st, b)
    if a.op == 'lin' and b.op == 'lin':
        return [(st, E.binop(st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.a[1].split('::')[-1]], a, b, USIZE))]
    return None


@tmodel('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def t_cmp(E, st, c, args, dty):
    a, b = args
    while a.op == 'ptr':
        a = E.get(st, a)
    while b.op == 'ptr':
        b = E.get(st, b)
    if a.op != 'lin' or b.op != 'lin':
        return None
    d = lsub(a, b)
    out = []
    for n, v in E.branch(st, [(le0(ladd(d, K(1))), 0), (eq0(d), 1), (le0(lsub(K(1), d)), 2)]):
        o = adt('core::cmp::Ordering', v)
        out.append((n, some(o) if c.a[1].endswith('partial_cmp') else o))
    return out


def minmax(E, st, a, b, mn):
    if st.le(a, b):
        return [(st, a if mn else b)]
    if st.le(b, a):
        return [(st, b if mn else a)]
    return [(n, a if v == mn else b) for n, v in E.branch(st, [(le0(lsub(a, b)), True), (le0(ladd(lsub(b, a), K(1))), False)])]


@tmodel('core::cmp::Ord::min', 'core::cmp::Ord::max')
def t_minmax(E, st, c, args, dty):
    if args[0].op == 'lin' and args[1].op == 'lin':
        return minmax(E, st, args[0], args[1], c.a[1].endswith('min'))
    return None


@model('core::cmp::min', 'core::cmp::max', 'core::intrinsics::integer_min', 'core::intrinsics::integer_max')
def m_minmax(E, st, c, args, dty):
    return t_minmax(E, st, c, args, dty)


@model('core::intrinsics::discriminant_value')
def m_discr(E, st, c, args, dty):
    return [(st, E.discr(st, E.get(st, args[0])))]


@model('core::intrinsics::cold_path', 'usize::unchecked_sub::precondition_check', 'core::hint::assert_unchecked',
       'core::ub_checks::check_language_ub')
def m_unit(E, st, c, args, dty):
    return [(st, UNIT)]


@model('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def m_ident(E, st, c, args, dty):
    return [(st, args[0])]


@model('core::intrinsics::likely', 'core::intrinsics::unlikely')
def m_likely(E, st, c, args, dty):
    return [(st, args[0])]


@model(RNG + 'RangeInclusive::contains', RNG + 'Range::contains', RNG + 'RangeFrom::contains', RNG + 'RangeTo::contains',
       RNG + 'RangeToInclusive::contains')
@tmodel(RNG + 'RangeBounds::contains')
def m_contains(E, st, c, args, dty):
    r, x = args
    while r.op == 'ptr':
        r = E.get(st, r)
    while x.op == 'ptr':
        x = E.get(st, x)
    if r.op != 'agg' or r.a[0] != 'adt' or x.op != 'lin' or not r.a[1].startswith(RNG):
        return None
    k = r.a[1][len(RNG):]
    f = r.a[3]
    if any(y.op != 'lin' for y in f[:2 if 'Range' == k or k == 'RangeInclusive' else 1]):
        return None
    fs = []
    if k in ('Range', 'RangeInclusive', 'RangeFrom'):
        fs.append(le0(lsub(f[0], x)))
    if k in ('Range', 'RangeInclusive'):
        fs.append(le0(lsub(ladd(x, K(1 if k == 'Range' else 0)), f[1])))
    if k in ('RangeTo', 'RangeToInclusive'):
        fs.append(le0(lsub(ladd(x, K(1 if k == 'RangeTo' else 0)), f[0])))
    return [(st, and_(fs))]


# ------------------------------------------------------------------ integers
def int_of_ty(name):
    return name if name in INT else None


def to_bytes(E, st, c, args, dty):
    ty, m = c.a[1].split('::')
    n = BITS[ty] // 8
    v = E.as_int(args[0])
    if m == 'to_be_bytes':
        return [(st, mkseq([N('I', v, n)]))]
    if isconst(v):
        return [(st, lit((v.a[0] % 256 ** n).to_bytes(n, 'little')))]
    if m in ('to_le_bytes', 'to_ne_bytes'):
        return [(st, mkseq([N('I', byteof(v, n, k), 1) for k in reversed(range(n))]))]


def from_bytes(E, st, c, args, dty):
    ty, m = c.a[1].split('::')
    n = BITS[ty] // 8
    q = args[0]
    if q.op != 'seq':
        return None
    if m == 'from_be_bytes':
        v = segs_int(q.a[0])
    else:
        bs = [segs_int(E.slice_seq(st, q, K(k), K(1)).a[0]) for k in range(n)]
        v = K(0)
        for b in reversed(bs):
            v = ladd(lscale(v, 256), b)
    if v is None:
        return [(st, iv(N('int', q), ty))]
    return [(st, v)]


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'u128'):
    for _m in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        MODELS['%s::%s' % (_t, _m)] = to_bytes
    for _m in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        MODELS['%s::%s' % (_t, _m)] = from_bytes


def arith(E, st, c, args, dty):
    ty, m = c.a[1].split('::')
    kind, _, op = m.partition('_')
    lo, hi = INT[ty]
    a, b = E.as_int(args[0]), E.as_int(args[1])
    if op == 'add':
        r = ladd(a, b)
    elif op == 'sub':
        r = lsub(a, b)
    elif op == 'mul' and (isconst(a) or isconst(b)):
        r = lscale(a, b.a[0]) if isconst(b) else lscale(b, a.a[0])
    elif op in ('div', 'rem'):
        if not (isconst(b) and b.a[0] > 0):
            return None
        r = ldiv(a, b.a[0]) if op == 'div' else lmod(a, b.a[0])
    else:
        return None
    fit = and_([le0(lsub(K(lo), r)), le0(lsub(r, K(hi)))])
    if kind == 'wrapping':
        return [(st, E.wrap(st, r, ty))]
    out = []
    for n, v in E.branch(st, [(fit, 0), (le0(ladd(r, K(1 - lo))), 1), (le0(lsub(K(hi + 1), r)), 2)]):
        if kind == 'checked':
            out.append((n, some(r) if v == 0 else NONE))
        elif kind == 'saturating':
            out.append((n, r if v == 0 else K(lo) if v == 1 else K(hi)))
        elif kind == 'overflowing':
            out.append((n, tup(r if v == 0 else E.wrap(n, r, ty), FALSE if v == 0 else TRUE)))
        elif kind in ('unchecked', 'strict'):
            out.append((n, r))
    return out


for _t in INT:
    for _k in ('checked', 'wrapping', 'saturating', 'overflowing', 'unchecked'):
        for _o in ('add', 'sub', 'mul', 'div', 'rem'):
            MODELS['%s::%s_%s' % (_t, _k, _o)] = arith


def m_pow2(E, st, c, args, dty):
    v = cval(args[0])
    if v is None:
        return None
    return [(st, TRUE if v and v & (v - 1) == 0 else FALSE)]


def m_next_mult(E, st, c, args, dty):
    k = cval(args[1])
    if not k:
        return None
    return [(st, lscale(ldiv(ladd(args[0], K(k - 1)), k), k))]


def m_div_ceil(E, st, c, args, dty):
    k = cval(args[1])
    if not k:
        return None
    return [(st, ldiv(ladd(args[0], K(k - 1)), k))]


def m_is_mult(E, st, c, args, dty):
    k = cval(args[1])
    if not k:
        return None
    return [(st, eq0(lmod(args[0], k)))]


def m_rem_euclid(E, st, c, args, dty):
    k = cval(args[1])
    if not k or k < 0:
        return None
    return [(st, lmod(args[0], k))]


for _t in INT:
    MODELS[_t + '::is_power_of_two'] = m_pow2
    MODELS[_t + '::next_multiple_of'] = m_next_mult
    MODELS[_t + '::div_ceil'] = m_div_ceil
    MODELS[_t + '::is_multiple_of'] = m_is_mult
    MODELS[_t + '::rem_euclid'] = m_rem_euclid


WS = (9, 10, 12, 13, 32)


def u8pred(vals=None, ranges=None):
    def f(E, st, c, args, dty):
        v = E.get(st, args[0]) if args[0].op == 'ptr' else args[0]
        if v.op != 'lin':
            return None
        fs = [eq0(lsub(v, K(x))) for x in vals or ()]
        fs += [and_([le0(lsub(K(a), v)), le0(lsub(v, K(b)))]) for a, b in ranges or ()]
        return [(st, or_(fs))]
    return f


for _t in ('u8', 'char'):
    MODELS[_t + '::is_ascii_whitespace'] = u8pred(WS)
    MODELS[_t + '::is_ascii_digit'] = u8pred(None, [(48, 57)])
    MODELS[_t + '::is_ascii'] = u8pred(None, [(0, 127)])
    MODELS[_t + '::is_ascii_alphabetic'] = u8pred(None, [(65, 90), (97, 122)])
    MODELS[_t + '::is_ascii_alphanumeric'] = u8pred(None, [(48, 57), (65, 90), (97, 122)])
    MODELS[_t + '::is_ascii_control'] = u8pred([127], [(0, 31)])
    MODELS[_t + '::is_ascii_graphic'] = u8pred(None, [(33, 126)])


def asciif(E, st, q):
    n = cval(st.simp(seqlen(q)))
    if n is not None and n <= 32:
        fs = []
        for i in range(n):
            b = segs_int(E.slice_seq(st, q, K(i), K(1)).a[0])
            if b is None:
                return N('pred', 'ascii', q)
            fs.append(le0(lsub(b, K(127))))
        return and_(fs)
    if all(g.op == 'C' and max(g.a[0]) < 128 for g in q.a[0]):
        return TRUE
    return N('pred', 'ascii', q)


@model('slice::is_ascii', 'str::is_ascii')
def m_is_ascii(E, st, c, args, dty):
    return [(st, asciif(E, st, E.seq_of(st, as_slice(E, st, args[0]))))]


@model('core::str::converts::from_utf8', 'core::str::from_utf8', 'str::from_utf8', 'core::str::converts::from_utf8_mut')
def m_from_utf8(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    q = E.seq_of(st, p)
    if st.prove(asciif(E, st, q)):
        return [(st, ok(p))]
    f = N('pred', 'utf8', q)
    return [(n, ok(p) if g else err(N('sym', N('app', 'utf8error', q), UNKTY)))
            for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]


@model('alloc::string::String::from_utf8')
def m_string_from_utf8(E, st, c, args, dty):
    q = args[0].a[3][0] if args[0].op == 'agg' and args[0].a[0] == 'vec' else None
    if q is None or q.op != 'seq':
        return None
    f = TRUE if st.prove(asciif(E, st, q)) else N('pred', 'utf8', q)
    return [(n, ok(args[0]) if g else err(N('sym', N('app', 'utf8error', q), UNKTY)))
            for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]


@model('str::as_bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::as_str', 'alloc::vec::Vec::as_slice',
       'alloc::vec::Vec::as_mut_slice', 'str::as_str', 'slice::as_slice', 'array::as_slice', 'array::as_mut_slice',
       'alloc::string::String::deref', 'str::as_bytes_mut', 'slice::as_mut', 'core::array::as_slice', 'generic_array::GenericArray::as_slice', 'generic_array::GenericArray::as_mut_slice')
def m_as_bytes(E, st, c, args, dty):
    return [(st, as_slice(E, st, args[0]))]


@model('slice::as_array')
def m_as_array(E, st, c, args, dty):
    return m_first_chunk(E, st, c, args, dty)


def seq_pat(E, st, v):
    """bytes of a str pattern (char or &str)"""
    if v.op == 'lin':
        k = cval(v)
        return lit(chr(k).encode()) if k is not None else None
    if v.op == 'ptr':
        q = E.seq_of(st, v)
        return q
    return None


def starts(E, st, q, pat, at=None):
    n = seqlen(pat)
    f = le0(lsub(n, seqlen(q)))
    st2 = st.clone()
    if not st2.assume(f):
        return FALSE
    off = K(0) if at is None else lsub(seqlen(q), n)
    x = E.slice_seq(st2, q, off, n)
    if byte_pat(pat) and len(x.a[0]) == 1 and seg_lacks(E, st2, x.a[0][0], pat) is True:
        return FALSE
    return and_([f, seqeq(E, st2, x, pat)])


@model('str::starts_with', 'slice::starts_with', 'str::ends_with', 'slice::ends_with')
def m_starts(E, st, c, args, dty):
    pat = seq_pat(E, st, args[1])
    if pat is None:
        return None
    q = E.seq_of(st, as_slice(E, st, args[0]))
    return [(st, starts(E, st, q, pat, 'end' if c.a[1].endswith('ends_with') else None))]


def letters(q):
    return any(g.op != 'C' or any(chr(c).isalpha() and c < 128 for c in g.a[0]) for g in q.a[0])


@model('slice::eq_ignore_ascii_case', 'str::eq_ignore_ascii_case')
def m_eqci(E, st, c, args, dty):
    a = E.seq_of(st, as_slice(E, st, args[0]))
    b = E.seq_of(st, as_slice(E, st, args[1]))
    f = seqeq(E, st, a, b)
    if f is TRUE or not letters(a) or not letters(b):
        return [(st, f)]
    if all(g.op == 'C' for q in (a, b) for g in q.a[0]):
        x, y = (b''.join(g.a[0] for g in q.a[0]).lower() for q in (a, b))
        return [(st, TRUE if x == y else FALSE)]
    x, y = (a, b) if a.id < b.id else (b, a)
    l = eq0(lsub(st.simp(seqlen(a)), st.simp(seqlen(b))))
    return [(st, or_([f, and_([l, N('pred', 'eqci', x, y)])]))]


@model('str::strip_suffix', 'str::strip_prefix', 'slice::strip_prefix', 'slice::strip_suffix')
def m_strip(E, st, c, args, dty):
    pat = seq_pat(E, st, args[1])
    if pat is None:
        return None
    p = as_slice(E, st, args[0])
    q = E.seq_of(st, p)
    suf = c.a[1].endswith('suffix')
    f = starts(E, st, q, pat, 'end' if suf else None)
    if byte_pat(pat) and contains_f(E, st, q, pat) is FALSE:
        f = FALSE
    l = lsub(slen(p), seqlen(pat))
    out = []
    for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
        out.append((n, some(sub_ptr(p, K(0) if suf else seqlen(pat), l)) if g else NONE))
    return out


def seg_lacks(E, st, g, pat):
    """is it known that segment g contains (False) / does not contain (True) the byte pattern pat? else None"""
    if g.op == 'C':
        return pat.a[0][0].a[0] not in g.a[0]
    if g.op == 'Z':
        return pat.a[0][0].a[0] != b'\0' or None
    if g.op == 'S':
        r = st.preds.get(N('pred', 'contains', mkseq([g]), pat))
        if r is not None:
            return not r
        if g.a[0].op == 'trimmed' and all(seg_lacks(E, st, h, pat) is True for h in g.a[0].a[0].a[0]):
            return True
        n = cval(st.simp(seglen(g)))
        if n is not None and n <= 16:
            d = st.decide(or_([eq0(lsub(segs_int(E.sub(g, K(i), K(1))), K(pat.a[0][0].a[0][0]))) for i in range(n)]))
            if d is not None:
                return not d
        for p, v in st.preds.items():
            if v is False and p.op == 'pred' and p.a[0] == 'contains' and p.a[2] is pat and len(p.a[1].a[0]) == 1:
                h = p.a[1].a[0][0]
                if h.op == 'S' and h.a[0] is g.a[0] and st.le(h.a[1], g.a[1]) and st.le(ladd(g.a[1], seglen(g)), ladd(h.a[1], seglen(h))):
                    return True
    return None


TRIM = {'trim': (1, 1), 'trim_start': (1, 0), 'trim_end': (0, 1), 'trim_ascii': (1, 1), 'trim_ascii_start': (1, 0), 'trim_ascii_end': (0, 1),
        'trim_matches': (1, 1), 'trim_start_matches': (1, 0), 'trim_end_matches': (0, 1)}


@model(*['str::' + k for k in TRIM] + ['slice::trim_ascii', 'slice::trim_ascii_start', 'slice::trim_ascii_end'])
def m_trim(E, st, c, args, dty):
    """either nothing is removed, or the result is a shorter part of the text"""
    nm = c.a[1].split('::')[-1]
    q = E.get(st, as_slice(E, st, args[0]))
    if q.op != 'seq':
        return None
    what = 'ascii' if 'ascii' in nm else 'white'
    if 'matches' in nm:
        v = args[1]
        what = cval(v) if v.op == 'lin' else None
        if what is None:
            return None
    segs = list(q.a[0])
    if all(g.op == 'C' for g in segs):
        b = b''.join(g.a[0] for g in segs)
        ws = b' \t\n\x0c\r' if what == 'ascii' else b' \t\n\x0b\x0c\r' if what == 'white' else bytes([what]) if what < 128 else None
        if ws is None or what == 'white' and any(x > 127 for x in b):
            return None
        if TRIM[nm][0]:
            b = b.lstrip(ws)
        if TRIM[nm][1]:
            b = b.rstrip(ws)
        return [(st, kslice(lit(b)))]
    if what == 10 and not TRIM[nm][0] and segs and segs[-1].op == 'C' and segs[-1].a[0][-1:] == b'\n' and \
            all(seg_lacks(E, st, g, lit(b'\n')) for g in segs[:-1]):
        b = segs[-1].a[0].rstrip(b'\n')
        return [(st, kslice(mkseq(segs[:-1] + ([C(b)] if b else []))))]
    f = N('pred', 'trims', q, nm, what)
    t = N('trimmed', q, nm, what)
    out = []
    for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
        if not g:
            out.append((n, kslice(q)))
        elif n.assume(le0(ladd(lsub(lenatom(t), seqlen(q)), K(1)))):
            out.append((n, kslice(mkseq([S(t, K(0), lenatom(t))]))))
    return out


def byte_pat(pat):
    return len(pat.a[0]) == 1 and pat.a[0][0].op == 'C' and len(pat.a[0][0].a[0]) == 1


def find1(E, st, q, pat):
    """first position of a one-byte pattern: [(st, position or None)]"""
    out = []
    cur, off = st, K(0)
    for g in q.a[0]:
        L = seglen(g)
        if g.op == 'C':
            k = g.a[0].find(pat.a[0][0].a[0])
            if k >= 0:
                return out + [(cur, ladd(off, K(k)))]
        else:
            r = seg_lacks(E, cur, g, pat)
            if r is not True:
                sq = mkseq([g])
                n = cval(cur.simp(L))
                if n is not None and n <= 16:
                    # byte by byte
                    dead = False
                    for i in range(n):
                        b = segs_int(E.slice_seq(cur, sq, K(i), K(1)).a[0])
                        f = eq0(lsub(b, K(pat.a[0][0].a[0][0])))
                        nxt = None
                        for s2, h in E.branch(cur, [(f, 1), (not_(f), 0)]):
                            if h:
                                out.append((s2, ladd(off, K(i))))
                            else:
                                nxt = s2
                        if nxt is None:
                            dead = True
                            break
                        cur = nxt
                    if dead:
                        return out
                else:
                    f = N('pred', 'contains', sq, pat)
                    nxt = None
                    for s2, h in E.branch(cur, [(f, 1), (not_(f), 0)] if r is None else [(TRUE, 1)]):
                        if h:
                            pos = iv(N('find', sq, pat), 'usize')
                            if s2.assume(le0(lsub(ladd(pos, K(1)), L))):
                                out.append((s2, ladd(off, pos)))
                        else:
                            nxt = s2
                    if nxt is None:
                        return out
                    cur = nxt
        off = ladd(off, L)
    return out + [(cur, None)]


def contains_f(E, st, q, pat):
    n = cval(st.simp(seqlen(q)))
    m = cval(seqlen(pat))
    if m is None:
        return N('pred', 'contains', q, pat)
    if n is not None and n <= 64:
        return or_([seqeq(E, st, E.slice_seq(st, q, K(i), K(m)), pat) for i in range(n - m + 1)])
    if byte_pat(pat):
        fs = []
        for g in q.a[0]:
            r = seg_lacks(E, st, g, pat)
            if r is False:
                return TRUE
            if r is None:
                fs.append(N('pred', 'contains', mkseq([g]), pat))
        return or_(fs)
    return N('pred', 'contains', q, pat)


@model('str::contains', 'slice::contains')
def m_contains(E, st, c, args, dty):
    q0 = E.get(st, as_slice(E, st, args[0]))
    if c.a[1].startswith('slice') and q0.op == 'arr':
        fs = [val_eq(E, st, x, args[1]) for x in q0.a[0]]
        return None if any(f is None for f in fs) else [(st, or_(fs))]
    v = args[1]
    if c.a[1].startswith('slice') and v.op == 'ptr':
        v = E.get(st, v)
    if q0.op != 'seq':
        return None
    if v.op in ('agg', 'fn'):
        f = closure_formula(E, st, v, lambda e: [e], 'char')
        if f is None:
            return None
        return [(st, anybyte(E, st, q0, f))]
    pat = lit(bytes([cval(v)])) if v.op == 'lin' and cval(v) is not None and cval(v) < 128 else seq_pat(E, st, v)
    if pat is None:
        return None
    return [(st, contains_f(E, st, q0, pat))]


@model('str::is_char_boundary')
def m_char_boundary(E, st, c, args, dty):
    q = E.seq_of(st, as_slice(E, st, args[0]))
    return [(st, boundary(E, st, q, args[1]))]


@model('str::parse')
def m_parse(E, st, c, args, dty):
    q = E.seq_of(st, as_slice(E, st, args[0]))
    t = c.a[2][0] if c.a[2] else UNKTY
    if t.op != 'int':
        return None
    if t.a[0] in ('usize', 'u64', 'u32', 'u16', 'u8'):
        # one value whatever the type; too large is an error
        v = iv(N('parsed', q), 'u64')
        f = and_([N('pred', 'isnum', q), le0(lsub(v, K(INT[t.a[0]][1])))])
    else:
        v = iv(N('parsed', q, t.a[0]), t.a[0])
        f = N('pred', 'isnum', q, t.a[0])
    return [(n, ok(v) if g else err(N('sym', N('app', 'parseerr', q), UNKTY)))
            for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]


# ------------------------------------------------------------------ conversions
def default_of(E, st, ty):
    if ty.op == 'int':
        return K(0)
    if ty.op == 'bool':
        return FALSE
    if ty.op == 'ref' and ty.a[1].op in ('slice', 'str'):
        return kslice(mkseq(())) if ty.a[1].op == 'str' or ty.a[1].a[0] is U8 else kptr(N('arr', ()), K(0))
    if ty.op == 'array' and isinstance(ty.a[1], int):
        if ty.a[0] is U8:
            return mkseq([Z(K(ty.a[1]))])
        d = default_of(E, st, ty.a[0])
        return None if d is None else N('arr', (d,) * ty.a[1])
    if ty.op == 'tuple':
        fs = [default_of(E, st, x) for x in ty.a[0]]
        return None if any(f is None for f in fs) else tup(*fs)
    if ty.op == 'adt':
        k = ty.a[0]
        if k == OPT:
            return NONE
        if k == 'alloc::vec::Vec':
            return mkvec(mkseq(()) if ty.a[1][0] is U8 else N('arr', ()))
        if k == 'alloc::string::String':
            return mkvec(mkseq(()))
        if k == 'generic_array::GenericArray':
            n = E.ga_len(ty)
            return mkseq([Z(K(n))]) if n is not None else None
        if 'CoreWrapper' in k or k.startswith('sha2::'):
            return N('agg', 'digest', '', 0, (mkseq(()),), ())
    if ty.op in ('param', 'alias'):
        return N('agg', 'digest', '', 0, (mkseq(()),), ()) if ty.op == 'param' and ty.a[0] == 'D' else None
    return None


@tmodel('core::default::Default::default')
def t_default(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    v = default_of(E, st, c.a[2][0])
    return None if v is None else [(st, v)]


@tmodel('core::convert::From::from')
def t_from(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    to = c.a[2][0]
    fr = c.a[2][1] if len(c.a[2]) > 1 else UNKTY
    v = args[0]
    if to is fr and to.op not in ('param', 'alias'):
        return [(st, v)]
    if to.op == 'int':
        if E.isbool(v):
            return [(st, b2i(v))]
        if v.op == 'lin':
            return [(st, v)]
    if to.op == 'adt':
        k = to.a[0]
        if k in ('alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box', 'std::path::PathBuf'):
            if k == 'alloc::boxed::Box' and to.a[1][0].op in ('dyn', 'other'):
                return [(st, N('sym', N('app', 'boxerr', E.deep(st, v)), dty))]
            if v.op in ('seq', 'arr'):
                return [(st, mkvec(v))]
            if v.op == 'ptr':
                return [(st, mkvec(E.get(st, v)))]
            if v.op == 'agg' and v.a[0] == 'vec':
                return [(st, v)]
            if k == 'std::path::PathBuf' and v.op == 'sym':
                return [(st, N('sym', v.a[0], to))]
        if k == 'generic_array::GenericArray' and v.op == 'seq':
            return [(st, v)]
        if k == 'std::process::ExitCode' and v.op == 'lin':
            return [(st, adt(k, 0, v))]
        if k == OPT and v.op != 'sym':
            return [(st, some(v))]
        if k == 'core::result::Result':
            return None
    if to.op == 'array' and v.op == 'seq':
        return [(st, v)]
    if to.op == 'ref' and v.op == 'ptr':
        return [(st, v)]
    return None


@model('<T as core::convert::From<!>>::from')
def m_from_never(E, st, c, args, dty):
    return []


@tmodel('core::convert::TryFrom::try_from')
def t_try_from(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    to = c.a[2][0]
    v = args[0]
    if to.op == 'int' and (v.op == 'lin' or E.isbool(v)):
        v = E.as_int(v)
        lo, hi = INT[to.a[0]]
        if to.a[0] == 'char':
            return None
        f = and_([le0(lsub(K(lo), v)), le0(lsub(v, K(hi)))])
        e = adt('core::num::error::TryFromIntError', 0, UNIT)
        return [(n, ok(v) if g else err(e)) for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]
    ref = to.op == 'ref'
    ar = to.a[1] if ref else to
    if ar.op == 'array':
        n_ = ar.a[1]
        if isinstance(n_, Node):
            n_ = n_.a[0] if n_.op == 'cval' else None
        if n_ is None:
            return None
        if v.op == 'agg' and v.a[0] == 'vec':
            v = kptr(v.a[3][0])
        if v.op != 'ptr':
            return None
        p = as_slice(E, st, v)
        f = eq0(lsub(slen(p), K(n_)))
        out = []
        for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
            if g:
                q = sub_ptr(p, K(0), K(n_))
                out.append((n, ok(q if ref else E.get(n, q))))
            else:
                out.append((n, err(adt('core::array::TryFromSliceError', 0, UNIT))))
        return out
    return None


@tmodel('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut')
def t_as_ref(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    p = args[0]
    if dty.op == 'ref' and p.op == 'ptr':
        p = norm(E, st, p)
        if dty.a[1].op in ('slice', 'str'):
            return [(st, as_slice(E, st, p))]
        if dty.a[1].op == 'array':
            n_ = dty.a[1].a[1]
            s = as_slice(E, st, p)
            return [(st, sub_ptr(s, K(0), K(n_)) if isinstance(n_, int) else s)]
        v = E.get(st, p)
        if v.op == 'sym' and dty.a[1].op == 'adt':
            return [(st, p)]
    return None


@tmodel('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def t_deref(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    p = args[0]
    if p.op != 'ptr':
        return None
    v = E.get(st, p)
    if v.op == 'agg' and (v.a[0] == 'vec' or v.a[1] == COW) or v.op in ('seq', 'arr', 'sarr'):
        return [(st, as_slice(E, st, p))]
    if v.op == 'agg' and v.a[0] == 'box':
        return [(st, ptr(p.a[0], papp(p.a[1], pf(None, 0))))]
    if v.op == 'agg' and v.a[0] == 'refmut':
        return [(st, v.a[3][0])]
    if v.op == 'agg' and v.a[0] == 'pin':
        return t_deref_pin(E, st, v, p)
    if v.op == 'ptr':
        return [(st, v)]
    if v.op == 'sym' and v.a[1].op == 'adt' and v.a[1].a[0] in ('std::path::PathBuf', 'std::ffi::os_str::OsString'):
        return [(st, p)]
    return None


def t_deref_pin(E, st, v, p):
    w = v.a[3][0]
    if w.op == 'agg' and w.a[0] == 'box':
        return [(st, ptr(p.a[0], papp(papp(p.a[1], pf(None, 0)), pf(None, 0))))]
    if w.op == 'ptr':
        return [(st, w)]
    return None


# ------------------------------------------------------------------ mem
@model('core::mem::take')
def m_take(E, st, c, args, dty):
    v = E.get(st, args[0])
    d = default_of(E, st, c.a[2][0] if c.a[2] else UNKTY)
    if d is None:
        return None
    E.put(st, args[0], d)
    return [(st, v)]


@model('core::mem::replace', 'core::cell::Cell::replace')
def m_replace(E, st, c, args, dty):
    p = args[0]
    if 'cell' in c.a[1]:
        p = ptr(p.a[0], papp(p.a[1], pf(None, 0)))
    v = E.get(st, p)
    E.put(st, p, args[1])
    return [(st, v)]


@model('core::mem::swap')
def m_swap(E, st, c, args, dty):
    a, b = E.get(st, args[0]), E.get(st, args[1])
    E.put(st, args[0], b)
    E.put(st, args[1], a)
    return [(st, UNIT)]


@model('core::mem::drop')
def m_drop(E, st, c, args, dty):
    o = N('dobj', E.tick())
    st.mem[o] = args[0]
    out = []
    for n in E.drop_val(st, args[0], ptr(o)):
        n.mem.pop(o, None)
        out.append((n, UNIT))
    return out


@model('core::mem::forget')
def m_forget(E, st, c, args, dty):
    return [(st, UNIT)]


@tmodel('core::clone::Clone::clone')
def t_clone(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    return [(st, E.get(st, args[0]))]


@tmodel('alloc::borrow::ToOwned::to_owned', 'alloc::string::ToString::to_string')
def t_to_owned(E, st, c, args, dty):
    v = E.get(st, args[0])
    if v.op == 'ptr':
        v = E.get(st, v)
    if v.op in ('seq', 'arr'):
        return [(st, mkvec(v))]
    if v.op == 'agg' and (v.a[0] == 'vec' or v.a[1] == COW):
        return [(st, mkvec(E.seq_of(st, as_slice(E, st, args[0]))))]
    return None


@model('alloc::borrow::Cow::into_owned')
def m_into_owned(E, st, c, args, dty):
    v = args[0]
    if v.op != 'agg' or v.a[1] != COW:
        return None
    v = v.a[3][0]
    return [(st, mkvec(E.seq_of(st, as_slice(E, st, v))) if v.op == 'ptr' else v)]


# ------------------------------------------------------------------ panics
@model('core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed')
def m_unwrap_failed(E, st, c, args, dty):
    E.panic(st, 'unwrap of ' + ('None' if 'option' in c.a[1] else 'Err'), E.span)
    return []


@pmodel('core::panicking::', 'std::panicking::', 'core::slice::index::', 'std::rt::', 'core::str::slice_error_fail',
        'core::cell::panic_', 'alloc::raw_vec::capacity_overflow', 'core::slice::copy_from_slice_impl::')
def p_panic(E, st, c, args, dty):
    E.panic(st, 'panic (%s)' % c.a[1].split('::')[-1], E.span)
    return []


for _n in ('std::panicking::begin_panic', 'core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::begin_panic',
           'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'core::panicking::panic_display',
           'core::panicking::assert_failed', 'std::panicking::panic_fmt', 'core::panicking::panic_nounwind'):
    MODELS[_n] = p_panic


@model('std::process::exit', 'std::process::abort')
def m_exit(E, st, c, args, dty):
    E.exits.append((st, args[0] if args else K(134)))
    return []


# ------------------------------------------------------------------ functions
@tmodel('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def t_callfn(E, st, c, args, dty):
    f = args[0]
    a = args[1]
    if a.op != 'agg':
        return None
    return call_fnv(E, st, f, list(a.a[3]), dty)


def call_fnv(E, st, f, args, dty=UNKTY):
    selfp = None
    for _ in range(4):
        if f.op == 'ptr':
            v = E.get(st, f)
            if v.op == 'ptr':
                f = v
                continue
            selfp = f
            f = v
        break
    if f.op == 'agg' and f.a[0] == 'closure':
        return E.call_closure(st, f, args, selfp)
    if f.op == 'fn':
        return E.call(st, f.a[0], args, dty, [UNKTY] * len(args))
    if f.op == 'sym':
        h = E.hooks.get('callsym')
        if h:
            return h(E, st, f, args, dty)
    if f.op == 'agg' and f.a[0] == 'box':
        return call_fnv(E, st, f.a[3][0], args, dty)
    return [(st, E.opaque(st, 'call of ' + f.op, args, dty, None))]


def call_mut(E, st, f, args, dty=UNKTY):
    """-> [(st, f', ret)]: call an FnMut held by value"""
    if f.op == 'agg' and f.a[0] == 'closure':
        o = N('cobj', E.tick(), f.a[1])
        st.mem[o] = f
        out = []
        for n, r in E.call_closure(st, f, args, ptr(o)):
            f2 = n.mem.pop(o, f)
            out.append((n, f2, r))
        return out
    return [(n, f, r) for n, r in call_fnv(E, st, f, args, dty)]


def closure_formula(E, st, f, mkargs, kind='u8'):
    """boolean formula of a predicate closure over a bound element"""
    term = N('bound', len(E.stack), kind)
    e = iv(term, 'u8' if kind in ('u8',) else 'char') if kind in ('u8', 'char') else term
    return formula_of(E, st, f, mkargs(e))


def formula_of(E, st, f, args):
    base = st.clone()
    mark = base.log
    ev = base.ev
    npan = len(E.panics)
    fs = []
    for n, _, r in call_mut(E, base, f, args):
        if n.ev is not ev:
            return None
        conds = []
        lg = n.log
        while lg is not mark and lg is not None:
            conds.append(lg[0])
            lg = lg[1]
        fs.append(and_(conds + [E.as_bool(r)]))
    if len(E.panics) > npan:
        del E.panics[npan:]
        return None
    return or_(fs)


# ------------------------------------------------------------------ iterators
def it(kind, *f):
    return N('agg', 'it', kind, 0, tuple(f), ())


IT = 'core::iter::traits::iterator::Iterator::'


def as_it(E, st, v, ty=UNKTY):
    """value -> modelled iterator, or None"""
    if v.op == 'agg':
        if v.a[0] == 'it':
            return v
        if v.a[0] == 'adt' and v.a[1] == RNG + 'Range':
            return it('range', v.a[3][0], v.a[3][1])
        if v.a[0] == 'adt' and v.a[1] == RNG + 'RangeInclusive':
            return it('range', v.a[3][0], ladd(v.a[3][1], K(1)))
        if v.a[0] == 'adt' and v.a[1] == RNG + 'RangeFrom':
            return it('rangefrom', v.a[3][0])
        if v.a[0] == 'adt' and v.a[1] == OPT:
            return it('arr', N('arr', v.a[3]), K(0))
    if v.op == 'ptr':
        w = E.get(st, v)
        if w.op == 'agg' and (w.a[0] == 'it' or (w.a[0] == 'adt' and w.a[1].startswith(RNG))):
            return it('byref', v)
        return it('user', v, ty)
    if v.op in ('agg', 'sym') and ty is not UNKTY:
        return N('agg', 'it', 'user', 0, (v, ty), ())
    return None


def it_next(E, st, i, depth=0):
    """-> [(st, it', item or None)]"""
    if i.op != 'agg' or i.a[0] != 'it':
        i2 = as_it(E, st, i)
        if i2 is None:
            raise Cut('iterator ' + i.op)
        i = i2
    k = i.a[1]
    f = i.a[3]
    if depth > 300:
        raise Cut('iterator depth')
    if k in ('slice', 'bytes'):
        p = f[0]
        out = []
        for n, g in nonempty(E, st, st.simp(slen(p))):
            if g:
                e = elem_ptr(p, K(0))
                out.append((n, it(k, sub_ptr(p, K(1), lsub(slen(p), K(1)))), e if k == 'slice' else E.get(n, e)))
            else:
                out.append((n, i, None))
        return out
    if k in ('sliceback',):
        p = f[0]
        out = []
        for n, g in nonempty(E, st, st.simp(slen(p))):
            l1 = lsub(slen(p), K(1))
            if g:
                out.append((n, it(k, sub_ptr(p, K(0), l1)), elem_ptr(p, l1)))
            else:
                out.append((n, i, None))
        return out
    if k == 'range':
        a, b = f
        c = le0(ladd(lsub(a, b), K(1)))
        return [(n, it('range', ladd(a, K(1)), b) if g else i, a if g else None) for n, g in E.branch(st, [(c, 1), (not_(c), 0)])]
    if k == 'rangefrom':
        return [(st, it(k, ladd(f[0], K(1))), f[0])]
    if k == 'arr':
        a, n = f
        c = cval(n)
        if a.op == 'seq':
            ln = cval(seqlen(a))
            if ln is None:
                out = []
                for st2, g in E.branch(st, [(le0(ladd(lsub(n, seqlen(a)), K(1))), 1), (le0(lsub(seqlen(a), n)), 0)]):
                    out.append((st2, it('arr', a, ladd(n, K(1))) if g else i, E.elem(st2, a, n) if g else None))
                return out
            if c < ln:
                return [(st, it('arr', a, K(c + 1)), E.elem(st, a, n))]
            return [(st, i, None)]
        if a.op == 'arr':
            if c < len(a.a[0]):
                return [(st, it('arr', a, K(c + 1)), a.a[0][c])]
            return [(st, i, None)]
        if a.op == 'sarr':
            out = []
            for st2, g in E.branch(st, [(le0(ladd(lsub(n, a.a[2]), K(1))), 1), (le0(lsub(a.a[2], n)), 0)]):
                out.append((st2, it('arr', a, ladd(n, K(1))) if g else i, E.elem(st2, a, n) if g else None))
            return out
    if k == 'map':
        out = []
        for n, i2, x in it_next(E, st, f[0], depth + 1):
            if x is None:
                out.append((n, it('map', i2, f[1]), None))
                continue
            for m, f2, r in call_mut(E, n, f[1], [x]):
                out.append((m, it('map', i2, f2), r))
        return out
    if k == 'filter':
        out = []
        for n, i2, x in it_next(E, st, f[0], depth + 1):
            if x is None:
                out.append((n, it('filter', i2, f[1]), None))
                continue
            for m, f2, r in call_mut(E, n, f[1], [kptr(x)]):
                r = E.as_bool(r)
                for o, g in E.branch(m, [(r, 1), (not_(r), 0)]):
                    if g:
                        out.append((o, it('filter', i2, f2), x))
                    else:
                        out.extend(it_next(E, o, it('filter', i2, f2), depth + 1))
        return out
    if k == 'filter_map':
        out = []
        for n, i2, x in it_next(E, st, f[0], depth + 1):
            if x is None:
                out.append((n, it(k, i2, f[1]), None))
                continue
            for m, f2, r in call_mut(E, n, f[1], [x]):
                for o, y in opt_cases(E, m, r):
                    if y is not None:
                        out.append((o, it(k, i2, f2), y))
                    else:
                        out.extend(it_next(E, o, it(k, i2, f2), depth + 1))
        return out
    if k == 'enumerate':
        return [(n, it('enumerate', i2, f[1] if x is None else ladd(f[1], K(1))), None if x is None else tup(f[1], x))
                for n, i2, x in it_next(E, st, f[0], depth + 1)]
    if k in ('copied', 'cloned'):
        return [(n, it(k, i2), None if x is None else E.get(n, x)) for n, i2, x in it_next(E, st, f[0], depth + 1)]
    if k == 'skip':
        c = cval(f[1])
        if c is None:
            raise Cut('skip')
        if c == 0:
            return [(n, it('skip', i2, K(0)), x) for n, i2, x in it_next(E, st, f[0], depth + 1)]
        out = []
        for n, i2, x in it_next(E, st, f[0], depth + 1):
            if x is None:
                out.append((n, it('skip', i2, K(0)), None))
            else:
                out += it_next(E, n, it('skip', i2, K(c - 1)), depth + 1)
        return out
    if k == 'take':
        out = []
        for st2, g in E.branch(st, [(le0(lsub(K(1), f[1])), 1), (le0(f[1]), 0)]):
            if not g:
                out.append((st2, i, None))
                continue
            out += [(n, it('take', i2, lsub(f[1], K(1))), x) for n, i2, x in it_next(E, st2, f[0], depth + 1)]
        return out
    if k == 'zip':
        out = []
        for n, i2, x in it_next(E, st, f[0], depth + 1):
            if x is None:
                out.append((n, it('zip', i2, f[1]), None))
                continue
            for m, j2, y in it_next(E, n, f[1], depth + 1):
                out.append((m, it('zip', i2, j2), None if y is None else tup(x, y)))
        return out
    if k == 'chain':
        out = []
        for n, i2, x in it_next(E, st, f[0], depth + 1):
            if x is not None:
                out.append((n, it('chain', i2, f[1]), x))
            else:
                out += [(m, it('chain', i2, j2), y) for m, j2, y in it_next(E, n, f[1], depth + 1)]
        return out
    if k == 'rev':
        inner = f[0]
        kk = inner.a[1]
        if kk == 'slice':
            return [(n, it('rev', it('slice', j.a[3][0])), x) for n, j, x in it_next(E, st, it('sliceback', inner.a[3][0]), depth + 1)]
        if kk == 'range':
            a, b = inner.a[3]
            c = le0(ladd(lsub(a, b), K(1)))
            return [(n, it('rev', it('range', a, lsub(b, K(1)))) if g else i, lsub(b, K(1)) if g else None)
                    for n, g in E.branch(st, [(c, 1), (not_(c), 0)])]
        raise Cut('rev of ' + kk)
    if k == 'windows':
        p, w = f
        c = le0(lsub(w, slen(p)))
        return [(n, it('windows', sub_ptr(p, K(1), lsub(slen(p), K(1))), w) if g else i, sub_ptr(p, K(0), w) if g else None)
                for n, g in E.branch(st, [(c, 1), (not_(c), 0)])]
    if k in ('chunks', 'chunks_exact'):
        p, w = f
        out = []
        for n, g in E.branch(st, [(le0(lsub(w, slen(p))), 2), (and_([le0(ladd(lsub(slen(p), w), K(1))), le0(lsub(K(1), slen(p)))]), 1), (le0(slen(p)), 0)]):
            if g == 2:
                out.append((n, it(k, sub_ptr(p, w, lsub(slen(p), w)), w), sub_ptr(p, K(0), w)))
            elif g == 1 and k == 'chunks':
                out.append((n, it(k, sub_ptr(p, slen(p), K(0)), w), p))
            else:
                out.append((n, i, None))
        return out
    if k == 'once':
        if f:
            return [(st, it('once'), f[0])]
        return [(st, i, None)]
    if k == 'peek':
        inner, pk = f
        if pk.op == 'agg' and pk.a[2] == 1:
            o = pk.a[3][0]
            return [(st, it('peek', inner, NONE), o.a[3][0] if o.a[2] == 1 else None)]
        return [(n, it('peek', i2, NONE), x) for n, i2, x in it_next(E, st, inner, depth + 1)]
    if k == 'byref':
        w = E.get(st, f[0])
        return [(put_it(E, n, f[0], w, i2), i, x) for n, i2, x in it_next(E, st, w, depth + 1)]
    if k == 'split':
        return split_next(E, st, i)
    if k == 'splitn':
        return splitn_next(E, st, i)
    if k == 'user':
        return user_next(E, st, i)
    if k == 'argsos':
        return opaque_next(E, st, i)
    if k == 'take_while':
        if cval(f[2]) == 1:
            return [(st, i, None)]
        out = []
        for n, i2, x in it_next(E, st, f[0], depth + 1):
            if x is None:
                out.append((n, it(k, i2, f[1], K(1)), None))
                continue
            for m, f2, r in call_mut(E, n, f[1], [kptr(x)]):
                r = E.as_bool(r)
                for o, g in E.branch(m, [(r, 1), (not_(r), 0)]):
                    out.append((o, it(k, i2, f2, K(0 if g else 1)), x if g else None))
        return out
    raise Cut('iterator ' + str(k))


def put_it(E, st, p, old, new):
    if old.op == 'agg' and old.a[0] == 'adt' and old.a[1] == RNG + 'Range':
        new = adt(RNG + 'Range', 0, *new.a[3])
    E.put(st, p, new)
    return st


def opaque_next(E, st, i):
    """an external iterator: yields unconstrained elements"""
    key, n, ty = i.a[3]
    t = N('nth', key, n)
    f = N('pred', 'more', key, n)
    out = []
    for s2, g in E.branch(st, [(f, 1), (not_(f), 0)]):
        out.append((s2, it('argsos', key, ladd(n, K(1)), ty) if g else i, E.make_sym(t, ty) if g else None))
    return out


def user_next(E, st, i):
    """iterator implemented in the workspace: call its next()"""
    v, ty = i.a[3][0], i.a[3][1] if len(i.a[3]) > 1 else UNKTY
    uid = i.a[3][2] if len(i.a[3]) > 2 else K(E.tick())
    if v.op == 'ptr':
        o = v
    else:
        ob = N('uit', uid)
        st.mem[ob] = v
        o = ptr(ob)
    base = ty
    while base.op == 'ref':
        base = base.a[1]
    w = E.get(st, o)
    if w.op == 'ptr':
        o = w
    c = N('callee', IT + 'next', IT + 'next', (base,), IT[:-2], None, None, None, None, False, None)
    f, ta = E.resolve(c)
    if f is None:
        raise Cut('iterator of unknown type ' + show(ty))
    out = []
    ov = E.over.get(f.name)
    rs = ov(E, st, c, [o], UNKTY) if ov is not None else None
    for n, r in E.call_fn(st, f, [o], ta) if rs is None else rs:
        if v.op != 'ptr':
            nv = n.mem.pop(o.a[0], v)
            i2 = N('agg', 'it', 'user', 0, (nv, ty, uid), ())
        else:
            i2 = i
        out += [(m, i2, x) for m, x in opt_cases(E, n, r)]
    return out


def opt_cases(E, st, r):
    """Option value -> [(st, payload or None)]"""
    if r.op == 'agg':
        return [(st, r.a[3][0] if r.a[2] == 1 else None)]
    if r.op == 'sym':
        d = atom(N('discr', r.a[0]))
        out = []
        for n, g in E.branch(st, [(eq0(lsub(d, K(1))), 1), (eq0(d), 0)]):
            out.append((n, E.sym_field(r, 1, 0) if g else None))
        return out
    raise Cut('option ' + r.op)


def split_next(E, st, i):
    p, f, done = i.a[3]
    if cval(done) == 1:
        return [(st, i, None)]
    n = cval(st.simp(slen(p)))
    if n is None:
        raise Cut('split of symbolic slice')
    # first position satisfying the predicate
    out = []

    def go(st, k, f):
        if k == n:
            out.append((st, it('split', sub_ptr(p, slen(p), K(0)), f, K(1)), p))
            return
        for m, f2, r in call_mut(E, st, f, [elem_ptr(p, K(k))]):
            r = E.as_bool(r)
            for o, g in E.branch(m, [(r, 1), (not_(r), 0)]):
                if g:
                    out.append((o, it('split', sub_ptr(p, K(k + 1), K(n - k - 1)), f2, K(0)), sub_ptr(p, K(0), K(k))))
                else:
                    go(o, k + 1, f2)
    go(st, 0, f)
    return out


def splitn_next(E, st, i):
    p, cnt, pat, done = i.a[3]
    c = cval(cnt)
    if c == 0 or cval(done) == 1:
        return [(st, i, None)]
    if c == 1:
        return [(st, it('splitn', p, K(0), pat, K(1)), p)]
    q = E.seq_of(st, p)
    pb = seqlen(pat)
    out = []
    if byte_pat(pat):
        for n, pos in find1(E, st, q, pat):
            if pos is None:
                out.append((n, it('splitn', p, K(0), pat, K(1)), p))
            else:
                rest = ladd(pos, pb)
                out.append((n, it('splitn', sub_ptr(p, rest, lsub(slen(p), rest)), K(c - 1), pat, K(0)), sub_ptr(p, K(0), pos)))
        return out
    f = contains_f(E, st, q, pat)
    for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
        if not g:
            out.append((n, it('splitn', p, K(0), pat, K(1)), p))
        else:
            pos = iv(N('find', q, pat), 'usize')
            if not n.assume(le0(lsub(ladd(pos, pb), slen(p)))):
                continue
            rest = ladd(pos, pb)
            out.append((n, it('splitn', sub_ptr(p, rest, lsub(slen(p), rest)), K(c - 1), pat, K(0)), sub_ptr(p, K(0), pos)))
    return out


@model('str::splitn')
def m_splitn(E, st, c, args, dty):
    pat = seq_pat(E, st, args[2])
    if pat is None or cval(args[1]) is None:
        return None
    return [(st, it('splitn', as_slice(E, st, args[0]), args[1], pat, K(0)))]


@model('str::split')
def m_strsplit(E, st, c, args, dty):
    pat = seq_pat(E, st, args[1])
    if pat is None:
        return None
    return [(st, it('splitn', as_slice(E, st, args[0]), K(1 << 40), pat, K(0)))]


@model('str::split_once')
def m_split_once(E, st, c, args, dty):
    pat = seq_pat(E, st, args[1])
    if pat is None:
        return None
    out = []
    p = as_slice(E, st, args[0])
    for n, i2, x in splitn_next(E, st, it('splitn', p, K(2), pat, K(0))):
        if cval(i2.a[3][3]) == 1:
            out.append((n, NONE))
        else:
            out.append((n, some(tup(x, i2.a[3][0]))))
    return out


@model('str::find')
def m_strfind(E, st, c, args, dty):
    pat = seq_pat(E, st, args[1])
    if pat is None:
        return None
    p = as_slice(E, st, args[0])
    q = E.seq_of(st, p)
    n_ = cval(st.simp(seqlen(q)))
    m_ = cval(seqlen(pat))
    out = []
    if byte_pat(pat):
        return [(n, NONE if pos is None else some(pos)) for n, pos in find1(E, st, q, pat)]
    if n_ is not None and m_ is not None and n_ <= 32:
        cur = [st]
        for k in range(n_ - m_ + 1):
            nxt = []
            for s2 in cur:
                f = seqeq(E, s2, E.slice_seq(s2, q, K(k), K(m_)), pat)
                for s3, g in E.branch(s2, [(f, 1), (not_(f), 0)]):
                    if g:
                        out.append((s3, some(K(k))))
                    else:
                        nxt.append(s3)
            cur = nxt
        return out + [(s2, NONE) for s2 in cur]
    f = contains_f(E, st, q, pat)
    for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
        if g:
            pos = iv(N('find', q, pat), 'usize')
            if not n.assume(le0(lsub(ladd(pos, seqlen(pat)), slen(p)))):
                continue
            out.append((n, some(pos)))
        else:
            out.append((n, NONE))
    return out


@model('slice::iter', 'slice::iter_mut')
def m_iter(E, st, c, args, dty):
    return [(st, it('slice', as_slice(E, st, args[0])))]


@model('str::bytes')
def m_bytes(E, st, c, args, dty):
    return [(st, it('bytes', as_slice(E, st, args[0])))]


@model('str::chars')
def m_chars(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    if st.prove(asciif(E, st, E.seq_of(st, p))):
        return [(st, it('bytes', p))]
    return None


@model('slice::windows', 'slice::chunks', 'slice::chunks_exact', 'slice::chunks_mut', 'slice::chunks_exact_mut')
def m_windows(E, st, c, args, dty):
    k = c.a[1].split('::')[-1].replace('_mut', '')
    return [(st, it(k, as_slice(E, st, args[0]), args[1]))]


@model('slice::split')
def m_split(E, st, c, args, dty):
    return [(st, it('split', as_slice(E, st, args[0]), args[1], K(0)))]


@model('core::iter::sources::once::once')
def m_once(E, st, c, args, dty):
    return [(st, it('once', args[0]))]


@model('core::iter::sources::empty::empty')
def m_empty(E, st, c, args, dty):
    return [(st, it('once'))]


def selfty(c):
    return c.a[2][0] if c.a[2] else UNKTY


@tmodel('core::iter::traits::collect::IntoIterator::into_iter')
def t_into_iter(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    v = args[0]
    if v.op == 'agg' and v.a[0] == 'vec':
        return [(st, it('arr', v.a[3][0], K(0)))]
    if v.op in ('arr', 'seq'):
        return [(st, it('arr', v, K(0)))]
    if v.op == 'ptr':
        w = E.get(st, v)
        if w.op in ('seq', 'arr', 'sarr') or (w.op == 'agg' and w.a[0] == 'vec'):
            return [(st, it('slice', as_slice(E, st, v)))]
        return [(st, v)]
    if v.op == 'agg':
        return [(st, v)]
    return None


def adapter(kind, nargs):
    def f(E, st, c, args, dty):
        i = as_it(E, st, args[0], selfty(c))
        if i is None:
            return None
        return [(st, it(kind, i, *args[1:]))]
    return f


for _k in ('map', 'filter', 'filter_map'):
    TMODELS[IT + _k] = adapter(_k, 1)
TMODELS[IT + 'enumerate'] = lambda E, st, c, a, d: (lambda i: None if i is None else [(st, it('enumerate', i, K(0)))])(as_it(E, st, a[0], selfty(c)))
for _k in ('copied', 'cloned', 'rev'):
    TMODELS[IT + _k] = adapter(_k, 0)
for _k in ('skip', 'take'):
    TMODELS[IT + _k] = adapter(_k, 1)
TMODELS[IT + 'take_while'] = lambda E, st, c, a, d: (lambda i: None if i is None else [(st, it('take_while', i, a[1], K(0)))])(as_it(E, st, a[0], selfty(c)))
TMODELS[IT + 'by_ref'] = lambda E, st, c, a, d: [(st, a[0])]
TMODELS[IT + 'peekable'] = lambda E, st, c, a, d: (lambda i: None if i is None else [(st, it('peek', i, NONE))])(as_it(E, st, a[0], selfty(c)))
TMODELS[IT + 'fuse'] = lambda E, st, c, a, d: (lambda i: None if i is None else [(st, i)])(as_it(E, st, a[0], selfty(c)))


def t_zip(E, st, c, args, dty):
    k = c.a[1].split('::')[-1]
    i = as_it(E, st, args[0], selfty(c))
    v = args[1]
    if v.op == 'ptr':
        w = E.get(st, v)
        if w.op in ('seq', 'arr', 'sarr') or (w.op == 'agg' and w.a[0] == 'vec'):
            v = it('slice', as_slice(E, st, v))
    elif v.op in ('arr', 'seq'):
        v = it('arr', v, K(0))
    j = as_it(E, st, v)
    if i is None or j is None:
        return None
    return [(st, it(k, i, j))]


TMODELS[IT + 'zip'] = t_zip
TMODELS[IT + 'chain'] = t_zip


@tmodel(IT + 'next')
def t_next(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    p = args[0]
    v = E.get(st, p)
    if v.op == 'ptr':
        return t_next(E, st, c, [v], dty)
    i = as_it(E, st, v)
    if i is None or i.a[1] == 'user':
        return None
    out = []
    for n, i2, x in it_next(E, st, i):
        put_it(E, n, p, v, i2)
        out.append((n, NONE if x is None else some(x)))
    return out


@tmodel('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def t_next_back(E, st, c, args, dty):
    p = args[0]
    v = E.get(st, p)
    i = as_it(E, st, v)
    if i is None or i.a[1] not in ('slice', 'range'):
        return None
    out = []
    for n, i2, x in it_next(E, st, it('rev', i)):
        put_it(E, n, p, v, i2.a[3][0])
        out.append((n, NONE if x is None else some(x)))
    return out


def src(E, st, c, v):
    """iterator operand of a consumer (by value or &mut) -> (it, writeback ptr)"""
    if v.op == 'ptr':
        w = E.get(st, v)
        while w.op == 'ptr':
            v = w
            w = E.get(st, v)
        i = as_it(E, st, w, selfty(c))
        return i, v, w
    return as_it(E, st, v, selfty(c)), None, None


def consume(E, st, i, body, acc, limit=4000, bound=None):
    """body(E, st, acc, item) -> [(st, acc', stop?)]; returns [(st, it', acc, stopped)]"""
    out = []
    work = [(st, i, acc, 0, st.dec, 0)]
    while work:
        st, i, acc, n, dec, sym = work.pop()
        for m, i2, x in it_next(E, st, i):
            if x is None:
                out.append((m, i2, acc, False))
                continue
            for o, a2, stop in body(E, m, acc, x):
                if stop:
                    out.append((o, i2, a2, True))
                else:
                    s2 = sym + (1 if o.dec != dec else 0)
                    if s2 > (bound or E.itbound) or n > limit:
                        E.loop_cut(E.stack[-1], o, -1, None)
                        continue
                    work.append((o, i2, a2, n + 1, o.dec, s2))
    return out


Eng.itbound = 6


def finish(E, outs, wb, w, ret):
    res = []
    for n, i2, acc, stopped in outs:
        if wb is not None and i2.a[1] != 'user':
            put_it(E, n, wb, w, i2)
        elif wb is not None and i2.a[1] == 'user' and i2.a[3][0].op != 'ptr':
            E.put(n, wb, i2.a[3][0])
        res.append((n, ret(acc, stopped)))
    return res


def sym_base(E, st, i):
    """(kind, byte seq / term) if i iterates over a symbolic-length source that can be summarised"""
    if i.a[1] in ('slice', 'bytes'):
        p = i.a[3][0]
        if cval(st.simp(slen(p))) is None:
            v = E.get(st, p)
            if v.op == 'seq':
                return v
    if i.a[1] in ('copied', 'cloned'):
        return sym_base(E, st, i.a[3][0])
    return None


def elem_formula(E, st, i, f, wrap):
    """formula of predicate f over the bound element of iterator i"""
    k = i.a[1]
    if k in ('slice', 'bytes', 'copied', 'cloned'):
        def mk(e):
            x = e if k in ('bytes', 'copied', 'cloned') else kptr(e)
            return [kptr(x) if wrap else x]
        return closure_formula(E, st, f, mk)
    return None


def bound_atoms(l, out):
    for at, _ in l.a[1]:
        if at.op == 'div':
            bound_atoms(at.a[0], out)
        elif at.op == 'iv' and at.a[0].op == 'op':
            bound_atoms(at.a[0].a[1], out)
            bound_atoms(at.a[0].a[2], out)
        else:
            out.add(at)


def f_atoms(g, out):
    if g.op in ('le0', 'eq0', 'ne0'):
        bound_atoms(g.a[0], out)
    elif g.op in ('and', 'or'):
        for x in g.a[0]:
            f_atoms(x, out)
    elif g.op == 'not':
        f_atoms(g.a[0], out)
    elif g.op not in ('true', 'false'):
        out.add(g)


def l_eval(l, at, v):
    r = l.a[0]
    for x, k in l.a[1]:
        if x is at:
            y = v
        elif x.op == 'div':
            y = l_eval(x.a[0], at, v) // x.a[1]
        else:
            o = x.a[0]
            p, q = l_eval(o.a[1], at, v), l_eval(o.a[2], at, v)
            y = p & q if 'And' in o.a[0] else p | q if 'Or' in o.a[0] else p ^ q
        r += k * y
    return r


def f_eval(g, at, v):
    if g.op == 'true':
        return True
    if g.op == 'false':
        return False
    if g.op == 'and':
        return all(f_eval(x, at, v) for x in g.a[0])
    if g.op == 'or':
        return any(f_eval(x, at, v) for x in g.a[0])
    if g.op == 'not':
        return not f_eval(g.a[0], at, v)
    x = l_eval(g.a[0], at, v)
    return x <= 0 if g.op == 'le0' else x == 0 if g.op == 'eq0' else x != 0


def eqset(g):
    """the byte values for which a formula over one bound element holds (None: not a function of a byte)"""
    at = set()
    f_atoms(g, at)
    if not at:
        return frozenset() if not f_eval(g, None, 0) else frozenset(range(256))
    if len(at) > 1:
        return None
    at = at.pop()
    if at.op != 'iv' or at.a[0].op != 'bound' or any(x.op == 'op' and 'Bit' not in x.a[0] for x in ops_deep(g)):
        return None
    try:
        if lbounds(atom_lin(at)) == (0, 255):
            return frozenset(v for v in range(256) if f_eval(g, at, v))
        hi = {f_eval(g, at, v) for v in (128, 129, 0xff, 0x100, 0x2028, 0x10ffff)}
        if len(hi) > 1 or any(abs(c) > 128 for c in consts_deep(g)):
            return None
        return frozenset(v for v in range(128) if f_eval(g, at, v)) | (frozenset(range(128, 256)) if hi.pop() else frozenset())
    except (KeyError, IndexError, TypeError):
        return None


def atom_lin(at):
    return mklin(0, {at: 1})


def ops_deep(g):
    st, seen = [g], []
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif isinstance(x, Node):
            if x.op == 'op':
                seen.append(x)
            st.extend(x.a)
    return seen


def consts_deep(g):
    if g.op in ('and', 'or'):
        return [c for x in g.a[0] for c in consts_deep(x)]
    if g.op == 'not':
        return consts_deep(g.a[0])
    return [g.a[0].a[0]] if g.op in ('le0', 'eq0', 'ne0') else []


def anybyte(E, st, q, g):
    """some byte of q satisfies g"""
    s = eqset(g)
    if s is None:
        return N('pred', 'b', E.unk('any byte'))
    if not s:
        return FALSE
    if s == frozenset(range(256)):
        return not_(eq0(st.simp(seqlen(q))))
    if len(s) <= 8 and max(s) < 128:
        return or_([contains_f(E, st, q, lit(bytes([v]))) for v in sorted(s)])
    if s == frozenset(range(128, 256)):
        return not_(asciif(E, st, q))
    n = cval(st.simp(seqlen(q)))
    if n is not None and n <= 32:
        bs = [segs_int(E.slice_seq(st, q, K(i), K(1)).a[0]) for i in range(n)]
        if None not in bs:
            return or_([in_set(b, s) for b in bs])
    fs = []
    for x in q.a[0]:
        if x.op == 'C':
            if s & set(x.a[0]):
                return TRUE
        else:
            fs.append(N('pred', 'anyset', mkseq([x]), tuple(sorted(s))))
    return or_(fs)


def in_set(b, s):
    """formula: integer b is one of the values"""
    fs, v = [], 0
    while v < 256:
        if v in s:
            w = v
            while w + 1 in s:
                w += 1
            fs.append(and_([le0(lsub(K(v), b)), le0(lsub(b, K(w)))]))
            v = w
        v += 1
    return or_(fs)


@tmodel(IT + 'any', IT + 'all')
def t_any(E, st, c, args, dty):
    f, _ = E.resolve(c)
    if f is not None and not f.ext:
        return None
    i, wb, w = src(E, st, c, args[0])
    if i is None:
        return None
    isany = c.a[1].endswith('any')
    q = sym_base(E, st, i)
    if q is not None:
        g = elem_formula(E, st, i, args[1], False)
        if g is not None:
            if isany:
                return [(st, anybyte(E, st, q, g))]
            return [(st, not_(anybyte(E, st, q, not_(g))))]
    if i.a[1] == 'windows' and cval(st.simp(slen(i.a[3][0]))) is None and cval(i.a[3][1]) is not None:
        p, wn = i.a[3]
        v = E.get(st, p)
        k = cval(wn)
        if v.op == 'seq':
            t = N('bound', len(E.stack), 'win%d' % k)
            g = formula_of(E, st, args[1], [kslice(mkseq([S(t, K(0), wn)]))])
            if g is not None:
                fm = N('pred', 'anywin', v, k, g)
                return [(st, fm if isany else not_(N('pred', 'anywin', v, k, not_(g))))]
    h = E.hooks.get('any')
    if h is not None:
        r = h(E, st, c, i, args[1], isany)
        if r is not None:
            return r

    def body(E, st, acc, x):
        out = []
        for m, f2, r in call_mut(E, st, acc, [x]):
            r = E.as_bool(r)
            for o, g in E.branch(m, [(r, 1), (not_(r), 0)]):
                out.append((o, f2, bool(g) == isany))
        return out
    return finish(E, consume(E, st, i, body, args[1]), wb, w, lambda a, s: TRUE if s == isany else FALSE)


@tmodel(IT + 'position')
def t_position(E, st, c, args, dty):
    i, wb, w = src(E, st, c, args[0])
    if i is None:
        return None
    q = sym_base(E, st, i)
    if q is not None:
        g = elem_formula(E, st, i, args[1], False)
        if g is not None:
            s = eqset(g)
            if s is not None and len(s) == 1 and q.op == 'seq':
                return [(n, NONE if at is None else some(at)) for n, at in find1(E, st, q, lit(bytes(s)))]
            f = anybyte(E, st, q, g)
            out = []
            for n, y in E.branch(st, [(f, 1), (not_(f), 0)]):
                if y:
                    pos = iv(N('position', q, g), 'usize')
                    if n.assume(le0(ladd(lsub(pos, seqlen(q)), K(1)))):
                        out.append((n, some(pos)))
                else:
                    out.append((n, NONE))
            return out

    def body(E, st, acc, x):
        f, k = acc
        out = []
        for m, f2, r in call_mut(E, st, f, [x]):
            r = E.as_bool(r)
            for o, g in E.branch(m, [(r, 1), (not_(r), 0)]):
                out.append((o, (f2, k + (0 if g else 1)), bool(g)))
        return out
    return finish(E, consume(E, st, i, body, (args[1], 0)), wb, w, lambda a, s: some(K(a[1])) if s else NONE)


@model('<core::str::iter::Bytes as core::iter::traits::iterator::Iterator>::position',
       '<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::position')
def m_position(E, st, c, args, dty):
    return t_position(E, st, c, args, dty)


@tmodel(IT + 'find', IT + 'find_map', IT + 'for_each', IT + 'try_for_each', IT + 'fold', IT + 'try_fold', IT + 'count',
        IT + 'last', IT + 'nth', IT + 'collect', IT + 'sum', IT + 'max', IT + 'min')
def t_consume(E, st, c, args, dty):
    nm = c.a[1].split('::')[-1]
    i, wb, w = src(E, st, c, args[0])
    if i is None:
        return None
    h = E.hooks.get('consume')
    if h is not None:
        r = h(E, st, c, i, args, dty)
        if r is not None:
            return r
    if nm == 'find':
        def body(E, st, acc, x):
            out = []
            for m, f2, r in call_mut(E, st, acc[0], [kptr(x)]):
                r = E.as_bool(r)
                for o, g in E.branch(m, [(r, 1), (not_(r), 0)]):
                    out.append((o, (f2, x), bool(g)))
            return out
        return finish(E, consume(E, st, i, body, (args[1], None)), wb, w, lambda a, s: some(a[1]) if s else NONE)
    if nm == 'find_map':
        def body(E, st, acc, x):
            out = []
            for m, f2, r in call_mut(E, st, acc[0], [x]):
                for o, y in opt_cases(E, m, r):
                    out.append((o, (f2, y), y is not None))
            return out
        return finish(E, consume(E, st, i, body, (args[1], None)), wb, w, lambda a, s: some(a[1]) if s else NONE)
    if nm == 'for_each':
        def body(E, st, acc, x):
            return [(m, f2, False) for m, f2, r in call_mut(E, st, acc, [x])]
        return finish(E, consume(E, st, i, body, args[1]), wb, w, lambda a, s: UNIT)
    if nm in ('try_for_each', 'try_fold'):
        fold = nm == 'try_fold'

        def body(E, st, acc, x):
            f, a = acc
            out = []
            for m, f2, r in call_mut(E, st, f, [a, x] if fold else [x]):
                for o, good, v in try_cases(E, m, r):
                    out.append((o, (f2, v if good else r), not good))
            return out
        f = args[2] if fold else args[1]
        outs = consume(E, st, i, body, (f, args[1] if fold else UNIT))
        key = dty.a[0] if dty.op == 'adt' else RES
        okv = {OPT: some, RES: ok}.get(key, lambda v: adt(key, 0, v))
        return finish(E, outs, wb, w, lambda a, s: a[1] if s else okv(a[1]))
    if nm == 'fold':
        def body(E, st, acc, x):
            f, a = acc
            return [(m, (f2, r), False) for m, f2, r in call_mut(E, st, f, [a, x])]
        return finish(E, consume(E, st, i, body, (args[2], args[1])), wb, w, lambda a, s: a[1])
    if nm == 'count':
        return finish(E, consume(E, st, i, lambda E, st, a, x: [(st, a + 1, False)], 0), wb, w, lambda a, s: K(a))
    if nm == 'sum':
        return finish(E, consume(E, st, i, lambda E, st, a, x: [(st, ladd(a, E.as_int(x if x.op != 'ptr' else E.get(st, x))), False)], K(0)), wb, w, lambda a, s: a)
    if nm == 'last':
        return finish(E, consume(E, st, i, lambda E, st, a, x: [(st, some(x), False)], NONE), wb, w, lambda a, s: a)
    if nm == 'nth':
        k = cval(args[1])
        if k is None:
            return None
        return finish(E, consume(E, st, i, lambda E, st, a, x: [(st, (a[0] + 1, x), a[0] == k)], (0, None)), wb, w,
                      lambda a, s: some(a[1]) if s else NONE)
    if nm == 'collect':
        outs = consume(E, st, i, lambda E, st, a, x: [(st, a + (x,), False)], ())
        isv = dty.op == 'adt' and dty.a[0] == 'alloc::vec::Vec'
        if not isv:
            return None
        b = dty.a[1][0] is U8
        return finish(E, outs, wb, w, lambda a, s: mkvec(mkseq([N('I', x, 1) for x in a]) if b else N('arr', a)))
    return None


def try_cases(E, st, r):
    """Try value -> [(st, continue?, payload)]"""
    if r.op == 'agg' and r.a[0] == 'adt':
        if r.a[1] == OPT:
            return [(st, r.a[2] == 1, r.a[3][0] if r.a[2] == 1 else None)]
        return [(st, r.a[2] == 0, r.a[3][0] if r.a[3] else UNIT)]
    if r.op == 'sym' and r.a[1].op == 'adt':
        good = 1 if r.a[1].a[0] == OPT else 0
        d = atom(N('discr', r.a[0]))
        return [(n, g, E.sym_field(r, good, 0) if g else None) for n, g in
                E.branch(st, [(eq0(lsub(d, K(good))), True), (not_(eq0(lsub(d, K(good)))), False)])]
    raise Cut('try ' + r.op)


@tmodel('core::iter::traits::exact_size::ExactSizeIterator::len', IT + 'size_hint')
def t_exlen(E, st, c, args, dty):
    i, wb, w = src(E, st, c, args[0])
    if i is not None and i.a[1] in ('slice', 'bytes') and c.a[1].endswith('len'):
        return [(st, slen(i.a[3][0]))]
    return None


@model('core::slice::iter::Iter::as_slice')
def m_it_as_slice(E, st, c, args, dty):
    i = E.get(st, args[0])
    if i.op == 'agg' and i.a[0] == 'it' and i.a[1] == 'slice':
        return [(st, i.a[3][0])]
    return None


# ------------------------------------------------------------------ Vec / Box / cells / Pin
@model('alloc::vec::Vec::new', 'alloc::string::String::new')
def m_vec_new(E, st, c, args, dty):
    t = dty.a[1][0] if dty.op == 'adt' and dty.a[1] else (c.a[2][0] if c.a[2] else U8)
    if dty.op == 'adt' and dty.a[0] == 'alloc::string::String':
        t = U8
    return [(st, mkvec(mkseq(()) if t is U8 else N('arr', ())))]


@model('alloc::vec::Vec::with_capacity', 'alloc::string::String::with_capacity')
def m_vec_cap(E, st, c, args, dty):
    return m_vec_new(E, st, c, [], dty)


def vec_ptr(E, st, p):
    p = norm(E, st, p)
    v = E.get(st, p)
    if v.op == 'agg' and v.a[0] == 'vec':
        return p, v.a[3][0]
    return p, None


@model('alloc::vec::Vec::push', 'alloc::string::String::push')
def m_push(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    if v is None:
        return None
    if v.op == 'arr':
        nv = N('arr', v.a[0] + (args[1],))
    elif v.op == 'seq' and args[1].op == 'lin':
        nv = mkseq(v.a[0] + (N('I', args[1], 1),))
    elif v.op == 'sarr':
        nv = N('sarr', v.a[0], v.a[1], ladd(v.a[2], K(1)), v.a[3] + ((v.a[2], args[1]),))
    else:
        return None
    E.put(st, p, mkvec(nv))
    return [(st, UNIT)]


@model('alloc::vec::Vec::pop')
def m_pop(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    if v is None or v.op not in ('arr', 'seq', 'sarr'):
        return None
    ln = E.vlen(v)
    out = []
    for n, g in nonempty(E, st, ln):
        if not g:
            out.append((n, NONE))
            continue
        e = E.elem(n, v, lsub(ln, K(1)))
        nv = N('sarr', v.a[0], v.a[1], lsub(ln, K(1)), v.a[3]) if v.op == 'sarr' else E.subslice(n, v, K(0), lsub(ln, K(1)))
        E.put(n, p, mkvec(nv))
        out.append((n, some(e)))
    return out


@model('alloc::vec::Vec::extend_from_slice', 'alloc::string::String::push_str')
def m_extend(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    x = E.get(st, as_slice(E, st, args[1]))
    if v is None:
        return None
    if v.op == 'seq' and x.op == 'seq':
        E.put(st, p, mkvec(mkseq(v.a[0] + x.a[0])))
    elif v.op == 'arr' and x.op == 'arr':
        E.put(st, p, mkvec(N('arr', v.a[0] + x.a[0])))
    else:
        return None
    return [(st, UNIT)]


@model('alloc::vec::Vec::resize')
def m_resize(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    n, x = args[1], args[2]
    if v is None or v.op != 'seq' or x.op != 'lin':
        return None
    ln = seqlen(v)
    if st.le(ln, n):
        k = lsub(n, ln)
        nv = mkseq(v.a[0] + ((Z(k),) if x is K(0) else (N('F', x, k),)))
    elif st.le(n, ln):
        nv = E.slice_seq(st, v, K(0), n)
    else:
        out = []
        for s2, g in E.branch(st, [(le0(lsub(ln, n)), 1), (le0(ladd(lsub(n, ln), K(1))), 0)]):
            out += m_resize(E, s2, c, args, dty)
        return out
    E.put(st, p, mkvec(nv))
    return [(st, UNIT)]


@model('alloc::vec::Vec::truncate')
def m_truncate(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    if v is None:
        return None
    ln = E.vlen(v)
    out = []
    for n, g in E.branch(st, [(le0(lsub(args[1], ln)), 1), (le0(ladd(lsub(ln, args[1]), K(1))), 0)]):
        if g:
            E.put(n, p, mkvec(E.subslice(n, v, K(0), args[1])))
        out.append((n, UNIT))
    return out


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def m_clear(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    if v is None:
        return None
    E.put(st, p, mkvec(mkseq(()) if v.op == 'seq' else N('arr', ())))
    return [(st, UNIT)]


@model('alloc::vec::from_elem')
def m_from_elem(E, st, c, args, dty):
    x, n = args
    t = c.a[2][0] if c.a[2] else UNKTY
    if t is U8 and x.op == 'lin':
        return [(st, mkvec(mkseq([Z(n)]) if x is K(0) else mkseq([N('F', x, n)])))]
    k = cval(n)
    if k is not None and k <= 4096:
        return [(st, mkvec(N('arr', (x,) * k)))]
    return None


@model('slice::into_vec', 'alloc::slice::into_vec', 'alloc::boxed::box_assume_init_into_vec_unsafe')
def m_into_vec(E, st, c, args, dty):
    v = args[0]
    if v.op == 'agg' and v.a[0] == 'box':
        v = v.a[3][0]
    if v.op == 'agg' and v.a[0] == 'adt' and v.a[1] == 'core::mem::maybe_uninit::MaybeUninit':
        v = v.a[3][1].a[3][0]
    if v.op in ('arr', 'seq'):
        return [(st, mkvec(v))]
    return None


@model('alloc::boxed::Box::new_uninit')
def m_box_uninit(E, st, c, args, dty):
    md = adt('core::mem::manually_drop::ManuallyDrop', 0, MOVED)
    return [(st, N('agg', 'box', '', 0, (adt('core::mem::maybe_uninit::MaybeUninit', 0, UNIT, md),), ()))]


@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def m_vremove(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    if v is None or v.op != 'arr':
        return None
    ln = K(len(v.a[0]))
    out = []
    for n, g in E.branch(st, [(le0(ladd(lsub(args[1], ln), K(1))), 1), (le0(lsub(ln, args[1])), 0)]):
        if not g:
            E.panic(n, 'Vec::remove out of range', E.span)
            continue
        i = cval(n.simp(args[1]))
        if i is None:
            return None
        l = list(v.a[0])
        x = l[i]
        if c.a[1].endswith('swap_remove'):
            y = l.pop()
            if i < len(l):
                l[i] = y
        else:
            del l[i]
        E.put(n, p, mkvec(N('arr', tuple(l))))
        out.append((n, x))
    return out


@model('alloc::vec::Vec::insert')
def m_vinsert(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    i = cval(st.simp(args[1]))
    if v is None or v.op != 'arr' or i is None:
        return None
    if i > len(v.a[0]):
        E.panic(st, 'Vec::insert out of range', E.span)
        return []
    E.put(st, p, mkvec(N('arr', v.a[0][:i] + (args[2],) + v.a[0][i:])))
    return [(st, UNIT)]


@model('alloc::vec::Vec::drain')
def m_vdrain(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    r = args[1]
    full = r.op == 'agg' and 'RangeFull' in str(r.a[1]) or (c.a[2] and any('RangeFull' in str(x.a[0]) for x in c.a[2] if x.op == 'adt'))
    if v is None or v.op not in ('arr', 'seq') or not full:
        return None
    E.put(st, p, mkvec(mkseq(()) if v.op == 'seq' else N('arr', ())))
    return [(st, it('arr', v, K(0)))]


@model('alloc::vec::Vec::append')
def m_vappend(E, st, c, args, dty):
    p, v = vec_ptr(E, st, args[0])
    q, w = vec_ptr(E, st, args[1])
    if v is None or w is None or v.op != w.op or v.op not in ('arr', 'seq'):
        return None
    E.put(st, p, mkvec(mkseq(v.a[0] + w.a[0]) if v.op == 'seq' else N('arr', v.a[0] + w.a[0])))
    E.put(st, q, mkvec(mkseq(()) if v.op == 'seq' else N('arr', ())))
    return [(st, UNIT)]


@model('alloc::boxed::Box::new', 'alloc::rc::Rc::new')
def m_box_new(E, st, c, args, dty):
    return [(st, N('agg', 'box', '', 0, (args[0],), ()))]


@model('alloc::boxed::Box::pin')
def m_box_pin(E, st, c, args, dty):
    return [(st, N('agg', 'pin', '', 0, (N('agg', 'box', '', 0, (args[0],), ()),), ()))]


@model('core::cell::RefCell::new', 'core::cell::Cell::new')
def m_cell_new(E, st, c, args, dty):
    return [(st, N('agg', 'cell', '', 0, (args[0],), ()))]


def cell_ptr(E, st, p):
    p = norm(E, st, p)
    return ptr(p.a[0], papp(p.a[1], pf(None, 0)))


@model('core::cell::RefCell::borrow_mut', 'core::cell::RefCell::borrow')
def m_borrow(E, st, c, args, dty):
    p = cell_ptr(E, st, args[0])
    h = E.hooks.get('borrow')
    if h and not h(E, st, p, c.a[1].endswith('::borrow')):
        return []
    return [(st, N('agg', 'refmut', '', 0, (p,), ()))]


@model('core::cell::RefCell::try_borrow_mut', 'core::cell::RefCell::try_borrow')
def m_try_borrow(E, st, c, args, dty):
    p = cell_ptr(E, st, args[0])
    h = E.hooks.get('try_borrow')
    if h:
        return h(E, st, p)
    return [(st, ok(N('agg', 'refmut', '', 0, (p,), ())))]


@model('core::cell::RefCell::get_mut', 'core::cell::Cell::get_mut')
def m_cell_get_mut(E, st, c, args, dty):
    return [(st, cell_ptr(E, st, args[0]))]


@model('core::cell::RefCell::into_inner', 'core::cell::Cell::into_inner')
def m_cell_into(E, st, c, args, dty):
    v = args[0]
    return [(st, v.a[3][0])] if v.op == 'agg' and v.a[0] == 'cell' else None


@model('core::cell::Cell::set')
def m_cell_set(E, st, c, args, dty):
    E.put(st, cell_ptr(E, st, args[0]), args[1])
    return [(st, UNIT)]


@model('core::cell::Cell::get')
def m_cell_get(E, st, c, args, dty):
    return [(st, E.get(st, cell_ptr(E, st, args[0])))]


@model('core::cell::Cell::take')
def m_cell_take(E, st, c, args, dty):
    p = cell_ptr(E, st, args[0])
    v = E.get(st, p)
    d = default_of(E, st, dty)
    if d is None:
        return None
    E.put(st, p, d)
    return [(st, v)]


def through_borrow(f):
    """a RefCell operation that borrows the cell for its own duration"""
    def g(E, st, c, args, dty):
        p = cell_ptr(E, st, args[0])
        h = E.hooks.get('borrow')
        if h and not h(E, st, p, False):
            return []
        d = E.hooks.get('drop')
        if d:
            d(E, st, N('agg', 'refmut', '', 0, (p,), ()))
        return f(E, st, c, args, dty)
    return g


MODELS['core::cell::RefCell::take'] = through_borrow(m_cell_take)
MODELS['core::cell::RefCell::replace'] = through_borrow(m_replace)


@model('core::pin::Pin::new_unchecked', 'core::pin::Pin::new', 'core::pin::Pin::into_pin')
def m_pin(E, st, c, args, dty):
    return [(st, N('agg', 'pin', '', 0, (args[0],), ()))]


@model('core::pin::Pin::as_mut', 'core::pin::Pin::get_mut', 'core::pin::Pin::get_unchecked_mut', 'core::pin::Pin::as_ref')
def m_pin_as_mut(E, st, c, args, dty):
    v = p = args[0]
    if v.op == 'ptr':
        v = E.get(st, v)
    if v.op == 'agg' and v.a[0] == 'pin':
        if p.op == 'ptr' and v.a[3][0].op == 'agg' and v.a[3][0].a[0] == 'box':
            return [(st, N('agg', 'pin', '', 0, (ptr(p.a[0], papp(papp(p.a[1], pf(None, 0)), pf(None, 0))),), ()))]
        if c.a[1].endswith('get_mut') or c.a[1].endswith('get_unchecked_mut'):
            return [(st, v.a[3][0])]
        return [(st, v)]
    return None


@model('core::pin::Pin::set')
def m_pin_set(E, st, c, args, dty):
    v = p = args[0]
    if v.op == 'ptr':
        v = E.get(st, v)
    if v.op == 'agg' and v.a[0] == 'pin':
        at = v.a[3][0]
        if p.op == 'ptr' and at.op == 'agg' and at.a[0] == 'box':
            at = ptr(p.a[0], papp(papp(p.a[1], pf(None, 0)), pf(None, 0)))
        if at.op == 'ptr':
            E.put(st, at, args[1])
            return [(st, UNIT)]
    return None


@model('core::task::poll::Poll::map')
def m_poll_map(E, st, c, args, dty):
    v = args[0]
    if v.op == 'agg':
        if v.a[2] == 1:
            return [(st, v)]
        return [(n, ready(r)) for n, r in call_fnv(E, st, args[1], [v.a[3][0]])]
    return None


# ------------------------------------------------------------------ futures
@tmodel('core::future::into_future::IntoFuture::into_future')
def t_into_future(E, st, c, args, dty):
    return [(st, args[0])]


@model('core::future::get_context')
def m_get_context(E, st, c, args, dty):
    return [(st, ptr(N('obj', N('cx'), UNKTY)))]


def fut(kind, *a):
    return N('agg', 'fut', kind, 0, tuple(a), ())


def poll_value(E, st, p, dty, cx=None):
    """poll the future behind pointer p (never Pending) -> [(st, result)]"""
    v = E.get(st, p) if p.op == 'ptr' else p
    if v.op == 'ptr' or (v.op == 'agg' and v.a[0] in ('pin',)):
        q = v if v.op == 'ptr' else v.a[3][0]
        return poll_value(E, st, q, dty, cx)
    if v.op == 'agg' and v.a[0] == 'box':
        if p.op == 'ptr':
            return poll_value(E, st, ptr(p.a[0], papp(p.a[1], pf(None, 0))) if E.get(st, p) is v else kptr(v.a[3][0]), dty, cx)
        return poll_value(E, st, kptr(v.a[3][0]), dty, cx)
    if v.op == 'agg' and v.a[0] == 'coroutine':
        f = E.P.fns.get(v.a[1])
        if f is None:
            raise Cut('coroutine body')
        return E.call_fn(st, f, [v, N('sym', N('cx'), UNKTY)], dict(v.a[4]))
    if v.op == 'agg' and v.a[0] == 'fut':
        h = FUTS.get(v.a[1])
        if h is None:
            raise Cut('future ' + v.a[1])
        if v.a[1] not in ('try_join', 'poll_fn') and 'suspend' in E.hooks:
            E.hooks['suspend'](E, st, v.a[1])
        return h(E, st, v, dty)
    if v.op == 'agg' and v.a[0] == 'maybedone':
        if v.a[2] != 0:
            return [(st, UNIT)]
        if p.op != 'ptr' or E.get(st, p) is not v:
            raise Cut('maybe_done')
        out = []
        for n, r in poll_value(E, st, ptr(p.a[0], papp(p.a[1], pf(None, 0))), UNKTY, cx):
            E.put(n, p, N('agg', 'maybedone', '', 1, (r,), ()))
            out.append((n, UNIT))
        return out
    if v.op == 'agg' and v.a[0] == 'adt':
        # a Future implemented in the workspace
        for im in E.P.impls.get('core::future::future::Future', ()):
            if im['args'][0].op == 'adt' and im['args'][0].a[0] == v.a[1]:
                f = E.P.fns[im['methods']['poll']]
                out = []
                if 'suspend' in E.hooks:
                    E.hooks['suspend'](E, st, v.a[1])
                for n, r in E.call_fn(st, f, [N('agg', 'pin', '', 0, (p,), ()), cx or ptr(N('obj', N('cx'), UNKTY))], {}):
                    if r.op == 'agg' and r.a[2] == 0:
                        out.append((n, r.a[3][0]))
                    else:
                        E.blocked.append((n, v.a[1]))
                return out
    if v.op == 'sym':
        if 'suspend' in E.hooks:
            E.hooks['suspend'](E, st, 'future of the application')
        h = E.hooks.get('pollsym')
        if h:
            r = h(E, st, v, dty)
            if r is not None:
                return r
        st.emit('poll', v)
        return [(st, E.make_sym(N('out', v.a[0]), dty))]
    raise Cut('poll of ' + v.op)


FUTS = {}


@tmodel('core::future::future::Future::poll')
def t_poll(E, st, c, args, dty):
    t = dty.a[1][0] if dty.op == 'adt' and dty.a[1] else UNKTY
    p = args[0]
    v = p
    if v.op == 'agg' and v.a[0] == 'pin':
        v = v.a[3][0]
    return [(n, ready(r)) for n, r in poll_value(E, st, v, t, args[1] if len(args) > 1 else None)]


def iokey(E, st, p):
    """identity of a stream object"""
    q = norm(E, st, p)
    if q.op == 'ptr':
        v = E.get(st, q)
        if v.op == 'sym':
            return v.a[0]
        if v.op == 'agg' and v.a[0] == 'stream':
            return v.a[3][0]
        if v.op == 'agg' and v.a[0] == 'refmut':
            return iokey(E, st, v)
        return N('io', q)
    if q.op == 'sym':
        return q.a[0]
    return N('io', q)


def io_err(E, st, what, key):
    n = st.gh.get('ioerr', 0)
    st.gh['ioerr'] = n + 1
    return N('sym', N('ioerr', what, key, n), N('adt', 'std::io::error::Error', ()))


def do_read_exact(E, st, key, buf):
    """[(st, Result)]"""
    p = as_slice(E, st, buf)
    n = slen(p)
    out = []
    bad = st.clone()
    bad.dec += 1
    st.dec += 1
    st = st
    pos = st.gh.get(('pos', key), K(0))
    data = mkseq([S(N('in', key), pos, n)])
    put_slice(E, st, p, data)
    st.gh[('pos', key)] = ladd(pos, n)
    st.emit('read', key, pos, n)
    h = E.hooks.get('bytes')
    if h:
        out += [(x, ok(UNIT)) for x in h(E, st, key, pos, n)]
    else:
        out.append((st, ok(UNIT)))
    havoc_slice(E, bad, p)
    bad.emit('readerr', key)
    out.append((bad, err(io_err(E, bad, 'read', key))))
    return out


def put_slice(E, st, p, data):
    if p.a[0].op == 'one':
        v = E.elem(st, data, K(0))
        E.put(st, p.a[0].a[0], v)
        return
    E.put(st, p, data)


def havoc_slice(E, st, p):
    t = E.fresh(st, 'partial')
    put_slice(E, st, p, mkseq([S(t, K(0), slen(p))]))


@tmodel('futures_util::io::AsyncReadExt::read_exact', 'futures_util::io::AsyncReadExt::read',
        'futures_util::io::AsyncWriteExt::write_all', 'futures_util::io::AsyncWriteExt::write',
        'futures_util::io::AsyncWriteExt::flush', 'futures_util::io::AsyncWriteExt::close',
        'futures_util::io::AsyncReadExt::read_to_end')
def t_io(E, st, c, args, dty):
    return [(st, fut(c.a[1].split('::')[-1], *args))]


def f_read_exact(E, st, v, dty):
    return do_read_exact(E, st, iokey(E, st, v.a[3][0]), v.a[3][1])


def do_read(E, st, key, buf):
    p = as_slice(E, st, buf)
    out = []
    bad = st.clone()
    bad.dec += 1
    st.dec += 1
    n = iv(E.fresh(st, 'nread'), 'usize')
    st.assume(le0(lsub(n, slen(p))))
    pos = st.gh.get(('pos', key), K(0))
    data = mkseq([S(N('in', key), pos, n)])
    if p.a[0].op == 'one':
        raise Cut('read into one byte')
    rest = E.slice_seq(st, E.seq_of(st, p), n, lsub(slen(p), n))
    E.put(st, p, mkseq(data.a[0] + rest.a[0]))
    st.gh[('pos', key)] = ladd(pos, n)
    st.emit('readsome', key, pos, n)
    out.append((st, ok(n)))
    bad.emit('readerr', key)
    out.append((bad, err(io_err(E, bad, 'read', key))))
    return out


def f_read(E, st, v, dty):
    return do_read(E, st, iokey(E, st, v.a[3][0]), v.a[3][1])


def do_write(E, st, key, buf, kind='write'):
    q = E.seq_of(st, as_slice(E, st, buf))
    bad = st.clone()
    bad.dec += 1
    st.dec += 1
    st.emit(kind, key, q)
    bad.emit(kind + 'err', key, q)
    return [(st, ok(UNIT)), (bad, err(io_err(E, bad, kind, key)))]


def f_write_all(E, st, v, dty):
    return do_write(E, st, iokey(E, st, v.a[3][0]), v.a[3][1])


def f_write(E, st, v, dty):
    """a single write may be short"""
    p = as_slice(E, st, v.a[3][1])
    key = iokey(E, st, v.a[3][0])
    bad = st.clone()
    bad.dec += 1
    st.dec += 1
    n = iv(E.fresh(st, 'nwritten'), 'usize')
    st.assume(le0(lsub(n, slen(p))))
    zero = st.clone()
    out = []
    if st.assume(le0(lsub(K(1), n))):
        q = E.slice_seq(st, E.seq_of(st, p), K(0), n)
        st.emit('write', key, q)
        out.append((st, ok(n)))
    if zero.assume(eq0(n)):
        # nothing is accepted any more
        zero.emit('writezero', key)
        out.append((zero, ok(K(0))))
    bad.emit('writeerr', key, E.seq_of(bad, p))
    return out + [(bad, err(io_err(E, bad, 'write', key)))]


def f_flush(E, st, v, dty):
    key = iokey(E, st, v.a[3][0])
    bad = st.clone()
    bad.dec += 1
    st.dec += 1
    st.emit('flush', key)
    bad.emit('flusherr', key)
    return [(st, ok(UNIT)), (bad, err(io_err(E, bad, 'flush', key)))]


FUTS.update(read_exact=f_read_exact, read=f_read, write_all=f_write_all, write=f_write, flush=f_flush, close=f_flush)


@model('futures_util::future::try_join::try_join')
def m_try_join(E, st, c, args, dty):
    return [(st, fut('try_join', *args))]


def f_try_join(E, st, v, dty):
    out = []
    a, b = v.a[3]
    for n, r in poll_value(E, st, kptr(a), RES_UNIT):
        for m, good, x in try_cases(E, n, r):
            if not good:
                out.append((m, r))
                continue
            for o, r2 in poll_value(E, m, kptr(b), RES_UNIT):
                for q, good2, y in try_cases(E, o, r2):
                    out.append((q, ok(tup(x, y)) if good2 else r2))
    return out


@model('core::task::poll::Poll::is_pending', 'core::task::poll::Poll::is_ready')
def m_poll_is(E, st, c, args, dty):
    v = E.get(st, args[0])
    if v.op != 'agg' or v.a[0] != 'adt':
        return None
    return [(st, TRUE if (v.a[2] == 1) == c.a[1].endswith('is_pending') else FALSE)]


@model('futures_util::future::maybe_done::maybe_done')
def m_maybe_done(E, st, c, args, dty):
    return [(st, N('agg', 'maybedone', '', 0, (args[0],), ()))]


def maybe_done_of(E, st, v):
    for _ in range(4):
        if v.op == 'agg' and v.a[0] == 'pin':
            v = v.a[3][0]
        elif v.op == 'ptr' and E.get(st, v).op in ('ptr', 'agg') and not (E.get(st, v).op == 'agg' and E.get(st, v).a[0] == 'maybedone'):
            v = E.get(st, v)
        else:
            break
    w = E.get(st, v) if v.op == 'ptr' else v
    return (v, w) if w.op == 'agg' and w.a[0] == 'maybedone' and v.op == 'ptr' else (None, None)


@model('futures_util::future::maybe_done::MaybeDone::output_mut')
def m_md_output(E, st, c, args, dty):
    p, v = maybe_done_of(E, st, args[0])
    if p is None:
        return None
    return [(st, some(ptr(p.a[0], papp(p.a[1], pf(None, 0)))) if v.a[2] == 1 else NONE)]


@model('futures_util::future::maybe_done::MaybeDone::take_output')
def m_md_take(E, st, c, args, dty):
    p, v = maybe_done_of(E, st, args[0])
    if p is None:
        return None
    if v.a[2] != 1:
        return [(st, NONE)]
    E.put(st, p, N('agg', 'maybedone', '', 2, (), ()))
    return [(st, some(v.a[3][0]))]


@model('futures_util::future::poll_fn::poll_fn', 'core::future::poll_fn::poll_fn')
def m_poll_fn(E, st, c, args, dty):
    return [(st, fut('poll_fn', args[0]))]


def f_poll_fn(E, st, v, dty):
    out = []
    for n, _, r in call_mut(E, st, v.a[3][0], [ptr(N('obj', N('cx'), UNKTY))]):
        if r.op == 'agg' and r.a[0] == 'adt' and r.a[2] == 0:
            out.append((n, r.a[3][0]))
        elif r.op == 'agg' and r.a[0] == 'adt':
            E.blocked.append((n, 'poll_fn'))
        else:
            raise Cut('poll_fn gives ' + r.op)
    return out


FUTS['poll_fn'] = f_poll_fn
RES_UNIT = N('adt', RES, (N('tuple', ()), UNKTY))
FUTS['try_join'] = f_try_join


@tmodel('futures_util::future::future::FutureExt::fuse', 'futures_util::future::future::FutureExt::boxed_local',
        'futures_util::future::future::FutureExt::boxed')
def t_fuse(E, st, c, args, dty):
    return [(st, args[0])]


# ------------------------------------------------------------------ randomness
@tmodel('rand_core::RngCore::fill_bytes', 'rand_core::RngCore::try_fill_bytes')
def t_fill(E, st, c, args, dty):
    key = iokey(E, st, args[0])
    p = as_slice(E, st, args[1])
    k = st.gh.get(('rng', key), 0)
    st.gh[('rng', key)] = k + 1
    put_slice(E, st, p, mkseq([S(N('rnd', key, k), K(0), slen(p))]))
    st.emit('rng', key, slen(p), k)
    return [(st, ok(UNIT) if 'try' in c.a[1] else UNIT)]


@tmodel('rand_core::RngCore::next_u32', 'rand_core::RngCore::next_u64')
def t_nextu(E, st, c, args, dty):
    key = iokey(E, st, args[0])
    k = st.gh.get(('rng', key), 0)
    st.gh[('rng', key)] = k + 1
    st.emit('rng', key, K(8), k)
    return [(st, iv(N('rnd', key, k), 'u32' if '32' in c.a[1] else 'u64'))]


@tmodel('rand_core::SeedableRng::from_entropy', 'rand_core::SeedableRng::seed_from_u64', 'rand_core::SeedableRng::from_seed',
        'rand_core::SeedableRng::from_rng')
def t_seed(E, st, c, args, dty):
    m = c.a[1].split('::')[-1]
    k = st.gh.get('rngs', 0)
    st.gh['rngs'] = k + 1
    st.emit('seed', m, k)
    a = tuple(E.deep(st, a) for a in args)
    if m == 'from_rng':
        n = st.clone()
        t = dty.a[1][0] if dty.op == 'adt' and dty.a[1] else dty
        return [(st, ok(N('sym', N('rng', m, k, a), t))), (n, err(N('sym', N('rngerr', k), dty.a[1][1])))] if t is not dty else None
    return [(st, N('sym', N('rng', m, k, a), dty))]


# ------------------------------------------------------------------ digests
def dig(q):
    return N('agg', 'digest', '', 0, (q,), ())


@tmodel('digest::digest::Digest::new')
def t_dnew(E, st, c, args, dty):
    return [(st, dig(mkseq(())))]


def dig_of(v):
    if v.op == 'agg' and v.a[0] == 'digest':
        return v.a[3][0]
    if v.op == 'sym':
        return mkseq([S(N('dstate', v.a[0]), K(0), lenatom(N('dstate', v.a[0])))])
    return None


@tmodel('digest::digest::Digest::chain_update', 'digest::digest::Digest::new_with_prefix')
def t_chain(E, st, c, args, dty):
    if c.a[1].endswith('prefix'):
        args = [dig(mkseq(()))] + args
    q = dig_of(args[0])
    d = args[1]
    if d.op == 'seq':
        x = d
    else:
        x = E.seq_of(st, as_slice(E, st, norm(E, st, d)))
    if q is None:
        return None
    return [(st, dig(mkseq(q.a[0] + x.a[0])))]


@tmodel('digest::digest::Digest::update', 'digest::Update::update')
def t_update(E, st, c, args, dty):
    v = E.get(st, args[0])
    q = dig_of(v)
    d = args[1]
    x = d if d.op == 'seq' else E.seq_of(st, as_slice(E, st, norm(E, st, d)))
    if q is None:
        return None
    E.put(st, args[0], dig(mkseq(q.a[0] + x.a[0])))
    return [(st, UNIT)]


def hash_term(E, q, ty):
    return N('hash', dname(ty), q)


def dname(ty):
    s = show(ty)
    return 'sha256' if 'Sha256' in s else 'D' if ty.op == 'param' else s


def hash_seq(E, q, ty):
    return mkseq([S(hash_term(E, q, ty), K(0), K(32))])


@tmodel('digest::digest::Digest::finalize', 'digest::FixedOutput::finalize_fixed')
def t_finalize(E, st, c, args, dty):
    q = dig_of(args[0])
    if q is None:
        return None
    return [(st, hash_seq(E, q, selfty(c)))]


@tmodel('digest::digest::Digest::digest')
def t_digest(E, st, c, args, dty):
    d = args[0]
    x = d if d.op == 'seq' else E.seq_of(st, as_slice(E, st, norm(E, st, d)))
    return [(st, hash_seq(E, x, selfty(c)))]


# ------------------------------------------------------------------ GenericArray, ciphers
@model('generic_array::GenericArray::from_slice', 'generic_array::GenericArray::from_mut_slice')
def m_ga_from(E, st, c, args, dty):
    p = as_slice(E, st, args[0])
    n = None
    if dty.op == 'ref':
        n = E.ga_len(dty.a[1])
    if n is None:
        return [(st, p)]
    f = eq0(lsub(slen(p), K(n)))
    out = []
    for s2, g in E.branch(st, [(f, 1), (not_(f), 0)]):
        if g:
            out.append((s2, sub_ptr(p, K(0), K(n))))
        else:
            E.panic(s2, 'GenericArray::from_slice length', E.span)
    return out


@model('generic_array::GenericArray::clone_from_slice', 'generic_array::GenericArray::from_exact_iter')
def m_ga_clone(E, st, c, args, dty):
    return [(st, E.get(st, as_slice(E, st, args[0])))]


def cipher(key, nonce, blk):
    return N('agg', 'chacha', '', 0, (key, nonce, blk), ())


def seqv(E, st, p):
    if p.op == 'seq':
        return p
    return E.seq_of(st, as_slice(E, st, norm(E, st, p)))


@tmodel('crypto_common::KeyIvInit::new')
def t_kiv(E, st, c, args, dty):
    t = show(selfty(c))
    if 'chacha20::legacy' not in t and 'ChaCha' not in t:
        return None
    return [(st, cipher(seqv(E, st, args[0]), seqv(E, st, args[1]), K(0)))]


@model('<cipher::stream_wrapper::StreamCipherCoreWrapper as crypto_common::KeyIvInit>::new',
       '<chacha20::legacy::ChaCha20LegacyCore as crypto_common::KeyIvInit>::new')
def m_kiv(E, st, c, args, dty):
    return [(st, cipher(seqv(E, st, args[0]), seqv(E, st, args[1]), K(0)))]


@tmodel('crypto_common::KeyIvInit::new_from_slices')
def t_kiv2(E, st, c, args, dty):
    return [(st, ok(cipher(seqv(E, st, args[0]), seqv(E, st, args[1]), K(0))))]


@tmodel('cipher::stream_core::StreamCipherSeekCore::set_block_pos')
def t_setpos(E, st, c, args, dty):
    v = E.get(st, args[0])
    if v.op == 'agg' and v.a[0] == 'chacha':
        E.put(st, args[0], cipher(v.a[3][0], v.a[3][1], args[1]))
        return [(st, UNIT)]
    return None


@tmodel('cipher::stream::StreamCipherSeek::seek')
def t_seek(E, st, c, args, dty):
    v = E.get(st, args[0])
    k = cval(args[1]) if args[1].op == 'lin' else None
    if v.op == 'agg' and v.a[0] == 'chacha' and k is not None and k % 64 == 0:
        E.put(st, args[0], cipher(v.a[3][0], v.a[3][1], K(k // 64)))
        return [(st, UNIT)]
    return None


@model('cipher::stream_wrapper::StreamCipherCoreWrapper::from_core')
def m_from_core(E, st, c, args, dty):
    return [(st, args[0])]


@tmodel('cipher::stream::StreamCipher::apply_keystream', 'cipher::stream::StreamCipher::try_apply_keystream')
def t_ks(E, st, c, args, dty):
    v = E.get(st, args[0])
    if v.op != 'agg' or v.a[0] != 'chacha':
        return None
    p = as_slice(E, st, norm(E, st, args[1]))
    q = E.seq_of(st, p)
    key, nonce, blk = v.a[3]
    new = mkseq([S(N('xorks', key, nonce, blk, q), K(0), slen(p))])
    put_slice(E, st, p, new)
    st.emit('keystream', key, nonce, blk, q)
    # position after use
    E.put(st, args[0], cipher(key, nonce, iv(N('after', blk, slen(p)), 'u64')))
    return [(st, ok(UNIT) if 'try' in c.a[1] else UNIT)]


@tmodel('universal_hash::NewUniversalHash::new')
def t_poly(E, st, c, args, dty):
    return [(st, N('agg', 'poly', '', 0, (seqv(E, st, args[0]),), ()))]


@model('poly1305::Poly1305::compute_unpadded')
def m_poly(E, st, c, args, dty):
    v = args[0]
    if v.op != 'agg':
        return None
    q = seqv(E, st, args[1])
    return [(st, N('agg', 'adt', 'universal_hash::Output', 0, (mkseq([S(N('poly1305', v.a[3][0], q), K(0), K(16))]),), ()))]


@model('universal_hash::Output::new', '<universal_hash::Output as core::convert::From<generic_array::GenericArray>>::from')
def m_out_new(E, st, c, args, dty):
    return [(st, N('agg', 'adt', 'universal_hash::Output', 0, (args[0],), ()))]


@model('universal_hash::Output::into_bytes')
def m_out_bytes(E, st, c, args, dty):
    return [(st, args[0].a[3][0])] if args[0].op == 'agg' else None


@model('<universal_hash::Output as core::cmp::PartialEq<universal_hash::Output>>::eq')
def m_out_eq(E, st, c, args, dty):
    a, b = E.get(st, args[0]), E.get(st, args[1])
    if a.op == 'agg' and b.op == 'agg':
        f = seqeq(E, st, seqv(E, st, a.a[3][0]), seqv(E, st, b.a[3][0]))
        st.emit('cteq', f)
        return [(st, f)]
    return None


@tmodel('subtle::ConstantTimeEq::ct_eq')
def t_cteq(E, st, c, args, dty):
    f = val_eq(E, st, args[0], args[1])
    if f is None:
        return None
    st.emit('cteq', f)
    return [(st, b2i(f))]


# ------------------------------------------------------------------ public key crypto
@model('x25519_dalek::x25519::EphemeralSecret::new')
def m_eph(E, st, c, args, dty):
    key = iokey(E, st, args[0])
    k = st.gh.get(('rng', key), 0)
    st.gh[('rng', key)] = k + 1
    st.emit('rng', key, K(32), k)
    return [(st, N('sym', N('x25519sk', N('rnd', key, k)), dty))]


@model('<x25519_dalek::x25519::PublicKey as core::convert::From<&x25519_dalek::x25519::EphemeralSecret>>::from')
def m_pk_from_sk(E, st, c, args, dty):
    v = E.get(st, args[0])
    return [(st, N('agg', 'adt', 'x25519pk', 0, (mkseq([S(N('x25519pub', v), K(0), K(32))]),), ()))]


@model('<x25519_dalek::x25519::PublicKey as core::convert::From<array>>::from')
def m_pk_from_arr(E, st, c, args, dty):
    return [(st, N('agg', 'adt', 'x25519pk', 0, (args[0],), ()))]


@model('x25519_dalek::x25519::PublicKey::as_bytes', 'x25519_dalek::x25519::SharedSecret::as_bytes')
def m_pk_bytes(E, st, c, args, dty):
    return [(st, ptr(args[0].a[0], papp(args[0].a[1], pf(0, 0))))]


@model('x25519_dalek::x25519::PublicKey::to_bytes', 'x25519_dalek::x25519::SharedSecret::to_bytes')
def m_pk_tobytes(E, st, c, args, dty):
    v = E.get(st, args[0]) if args[0].op == 'ptr' else args[0]
    return [(st, v.a[3][0])]


@model('x25519_dalek::x25519::EphemeralSecret::diffie_hellman')
def m_dh(E, st, c, args, dty):
    pk = E.get(st, args[1])
    st.emit('dh', args[0], pk.a[3][0])
    return [(st, N('agg', 'adt', 'x25519shared', 0, (mkseq([S(N('dh', args[0], pk.a[3][0]), K(0), K(32))]),), ()))]


@model('x25519_dalek::x25519::SharedSecret::was_contributory')
def m_contrib(E, st, c, args, dty):
    v = E.get(st, args[0])
    return [(st, N('pred', 'contributory', v.a[3][0]))]


@tmodel('signature::signer::Signer::sign')
def t_sign(E, st, c, args, dty):
    sk = E.deep(st, args[0])
    m = seqv(E, st, args[1])
    st.emit('sign', sk, m)
    return [(st, N('sym', N('sig', sk, m), dty))]


@model('ecdsa::Signature::split_bytes')
def m_split_bytes(E, st, c, args, dty):
    v = E.get(st, args[0])
    return [(st, tup(mkseq([S(N('sig_r', v.a[0]), K(0), K(32))]), mkseq([S(N('sig_s', v.a[0]), K(0), K(32))])))]


@model('ecdsa::sign::SigningKey::verifying_key')
def m_vk(E, st, c, args, dty):
    return [(st, N('sym', N('vk', E.deep(st, args[0])), dty))]


@model('ecdsa::verify::VerifyingKey::to_encoded_point')
def m_tep(E, st, c, args, dty):
    v = E.deep(st, args[0])
    return [(st, N('sym', N('point', v, args[1]), dty))]


@model('sec1::point::EncodedPoint::as_bytes')
def m_epb(E, st, c, args, dty):
    v = E.get(st, args[0])
    t = N('sec1', v.a[0]) if v.op == 'sym' else E.unk('point')
    n = K(65) if t.op == 'sec1' and v.a[0].op == 'point' and v.a[0].a[1] is FALSE else lenatom(t)
    return [(st, kslice(mkseq([S(t, K(0), n)])))]


# ------------------------------------------------------------------ formatting
@pmodel('core::fmt::', 'alloc::fmt::', '<core::fmt', 'std::io::stdio::_eprint', 'std::io::stdio::_print')
def p_fmt(E, st, c, args, dty):
    if c.a[1].endswith('_eprint'):
        st.emit('eprint')
        return [(st, UNIT)]
    if c.a[1].endswith('_print'):
        st.emit('print')
        return [(st, UNIT)]
    if 'fmt::Arguments' in c.a[1] or 'rt::Argument' in c.a[1] or c.a[1] == 'alloc::fmt::format':
        return [(st, N('sym', N('app', c.a[1].split('::')[-1], tuple(E.deep(st, a) for a in args)), dty))]
    return None


OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
       'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}


def scalar(E, st, v):
    for _ in range(4):
        if v.op != 'ptr' or isslice(v):
            break
        v = E.get(st, v)
    if v.op == 'lin' or E.isbool(v):
        return v
    if v.op == 'sym' and v.a[1].op in ('int', 'bool'):
        return v
    return None


def opbin(E, st, op, a, b, ty):
    """a op b with the checks the built-in operator has (debug assertions on: overflow panics)"""
    if op in ('Add', 'Sub', 'Mul'):
        t = E.binop(st, op + 'WithOverflow', a, b, ty)
        f = t.a[3][1]
        d = st.decide(f)
        if d is False:
            return [(st, t.a[3][0])]
        out = []
        for n, bad in E.branch(st, [(f, True), (not_(f), False)]):
            if bad:
                E.panic(n, 'overflow %s' % op, E.span)
            else:
                out.append((n, t.a[3][0]))
        return out
    if op in ('Shl', 'Shr'):
        if not isconst(b):
            return None
        return [(st, E.binop(st, op, a, b, ty))]
    if op in ('Div', 'Rem'):
        out = []
        for n, z in E.branch(st, [(eq0(b), True), (not_(eq0(b)), False)]):
            if z:
                E.panic(n, 'division by zero', E.span)
            else:
                out.append((n, E.binop(n, op, a, b, ty)))
        return out
    return [(st, E.binop(st, op, a, b, ty))]


def optys(c):
    t = c.a[2][0] if len(c.a) > 2 and c.a[2] else None
    return t


@tmodel(*['core::ops::%s::%s::%s' % (m, t, f) for m, t, f in (
    ('arith', 'Add', 'add'), ('arith', 'Sub', 'sub'), ('arith', 'Mul', 'mul'), ('arith', 'Div', 'div'), ('arith', 'Rem', 'rem'),
    ('bit', 'BitAnd', 'bitand'), ('bit', 'BitOr', 'bitor'), ('bit', 'BitXor', 'bitxor'), ('bit', 'Shl', 'shl'), ('bit', 'Shr', 'shr'))])
def t_opbin(E, st, c, args, dty):
    if dty.op not in ('int', 'bool'):
        return None
    a, b = scalar(E, st, args[0]), scalar(E, st, args[1])
    if a is None or b is None:
        return None
    return opbin(E, st, OPS[c.a[1].split('::')[-1]], a, b, dty)


@tmodel('core::ops::bit::Not::not')
def t_opnot(E, st, c, args, dty):
    a = scalar(E, st, args[0])
    if a is None or dty.op not in ('int', 'bool'):
        return None
    if E.isbool(a):
        return [(st, not_(a))]
    lo, hi = INT[dty.a[0]]
    return [(st, lsub(K(hi if lo == 0 else -1), E.as_int(a)))]


@tmodel(*['core::ops::%s::%sAssign::%s_assign' % (m, t, f) for m, t, f in (
    ('arith', 'Add', 'add'), ('arith', 'Sub', 'sub'), ('arith', 'Mul', 'mul'), ('arith', 'Div', 'div'), ('arith', 'Rem', 'rem'),
    ('bit', 'BitAnd', 'bitand'), ('bit', 'BitOr', 'bitor'), ('bit', 'BitXor', 'bitxor'), ('bit', 'Shl', 'shl'), ('bit', 'Shr', 'shr'))])
def t_opassign(E, st, c, args, dty):
    p = args[0]
    if p.op != 'ptr' or isslice(p):
        return None
    a, b = scalar(E, st, p), scalar(E, st, args[1])
    ty = optys(c)
    if a is None or b is None or ty is None or ty.op not in ('int', 'bool'):
        return None
    r = opbin(E, st, OPS[c.a[1].split('::')[-1].replace('_assign', '')], a, b, ty)
    if r is None:
        return None
    out = []
    for n, v in r:
        E.put(n, p, v)
        out.append((n, UNIT))
    return out


def leading(E, st, c, args, dty):
    """leading_zeros / ilog2 of an 8..64 bit value: one branch per possible bit length, unless decided"""
    ty, m = c.a[1].split('::')[-2:]
    a = args[0]
    if a.op != 'lin':
        return None
    tn = next((t for t in INT if t == ty), None) or 'u8'
    lo, hi = INT[tn]
    if lo != 0:
        return None
    w = hi.bit_length()
    if w > 64:
        return None
    alts = []
    for k in range(w + 1):
        # bit length k: 2^(k-1) <= a < 2^k
        f = eq0(a) if k == 0 else and_([le0(lsub(K(1 << (k - 1)), a)), le0(lsub(a, K((1 << k) - 1)))])
        if st.decide(f) is False:
            continue
        alts.append((f, w - k))
    if len(alts) > 9:
        return None
    return [(n, K(v)) for n, v in E.branch(st, alts)]


for _t in ('u8', 'u16', 'u32', 'u64', 'usize'):
    MODELS[_t + '::leading_zeros'] = leading


@model('alloc::vec::Vec::into_boxed_slice', 'alloc::string::String::into_boxed_str')
def m_into_boxed(E, st, c, args, dty):
    v = args[0]
    if v.op == 'agg' and v.a[0] == 'vec':
        return [(st, N('agg', 'box', '', 0, (v.a[3][0],), ()))]
    return None


def guard_map(E, st, c, args, dty):
    """RefMut::map / filter_map: the guard keeps the same cell borrowed"""
    g = args[0]
    if g.op != 'agg' or g.a[0] != 'refmut':
        return None
    mk = lambda p: N('agg', 'refmut', '', 0, (p, g.a[3][-1]), ())
    out = []
    for n, _, r in call_mut(E, st, args[1], [g.a[3][0]]):
        if c.a[1].endswith('filter_map'):
            for m, x in opt_cases(E, n, r):
                out.append((m, err(g) if x is None else ok(mk(x))))
        else:
            out.append((n, mk(r)))
    return out


for _g in ('Ref', 'RefMut'):
    for _m in ('map', 'filter_map'):
        MODELS['core::cell::%s::%s' % (_g, _m)] = guard_map
