"""Hash-consed terms of the abstract domain: linear integer expressions over opaque
atoms, boolean formulas over them, byte sequences as canonical segment lists, and a
small linear-inequality domain (Fourier-Motzkin with integer tightening) that decides
entailment between facts.  No SMT solver is involved."""
from math import gcd
from functools import reduce

_tab = {}


class Node:
    __slots__ = ('op', 'a', 'id', 'imp', 'c')

    def __repr__(self):
        return show(self)


def _imp(x):
    if isinstance(x, Node):
        return x.imp
    if isinstance(x, tuple):
        return any(_imp(y) for y in x)
    return False


def N(op, *a):
    k = (op, a)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.a = a
        n.id = len(_tab)
        n.imp = op == 'unk' or any(_imp(x) for x in a)
        n.c = None
        _tab[k] = n
    return n


def show(n, d=0):
    if isinstance(n, tuple):
        return '(' + ', '.join(show(x, d) for x in n) + ')'
    if not isinstance(n, Node):
        return repr(n) if not isinstance(n, str) else n
    if d > 14:
        return '..'
    s = lambda x: show(x, d + 1)
    if n.op == 'lin':
        out = []
        for at, k in n.a[1]:
            out.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + s(at))
        if n.a[0] or not out:
            out.append(str(n.a[0]))
        return '+'.join(out).replace('+-', '-')
    if n.op == 'seq':
        return '[' + ' ++ '.join(s(x) for x in n.a[0]) + ']'
    if n.op == 'C':
        return repr(n.a[0]) if len(n.a[0]) < 80 else 'C<%d bytes>' % len(n.a[0])
    if n.op == 'S':
        return '%s[%s;+%s]' % (s(n.a[0]), s(n.a[1]), s(n.a[2]))
    if n.op == 'le0':
        return '(%s <= 0)' % s(n.a[0])
    if n.op == 'eq0':
        return '(%s == 0)' % s(n.a[0])
    if n.op == 'ne0':
        return '(%s != 0)' % s(n.a[0])
    if n.op == 'iv':
        return s(n.a[0])
    if n.op == 'sym':
        return '$' + s(n.a[0])
    if n.op == 'agg':
        key = n.a[1].split('::')[-1] if isinstance(n.a[1], str) else ''
        return '%s#%s(%s)' % (key, n.a[2], ', '.join(s(x) for x in n.a[3]))
    if not n.a:
        return n.op
    return '%s(%s)' % (n.op, ', '.join(s(x) for x in n.a if not (isinstance(x, tuple) and n.op == 'obj')))


# ------------------------------------------------------------------ integers
INT = {}
for _b in (8, 16, 32, 64, 128):
    INT['u%d' % _b] = (0, 2 ** _b - 1)
    INT['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT['usize'] = INT['u64']
INT['isize'] = INT['i64']
INT['char'] = (0, 0x10ffff)
BITS = {k: (int(k[1:]) if k[1:].isdigit() else 64) for k in INT if k != 'char'}
BITS['char'] = 32
MAXLEN = 2 ** 63 - 1


def K(c):
    return N('lin', c, ())


def atom(n):
    return N('lin', 0, ((n, 1),))


def mklin(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    if len(t) >= 2:
        m = _merge_be(d)
        if m is not None:
            return mklin(c, m)
    return N('lin', c, t)


def _merge_be(d):
    """be(t,o,m)*256^j*c + be(t,o+m,m2)*c' with c = c'*256^m2 -> be(t,o,m+m2)*c'"""
    bes = [(a, k) for a, k in d.items() if k and a.op == 'be']
    if len(bes) < 2:
        return None
    for a, k in bes:
        for b, k2 in bes:
            if a is b or a.a[0] is not b.a[0]:
                continue
            if k == k2 * 256 ** b.a[2] and a.a[2] + b.a[2] <= 8:
                if lsub(b.a[1], a.a[1]) is K(a.a[2]):
                    m = dict(d)
                    del m[a], m[b]
                    n = N('be', a.a[0], a.a[1], a.a[2] + b.a[2])
                    m[n] = m.get(n, 0) + k2
                    return m
    return None


def ladd(a, b, kb=1):
    if not a.a[1] and not b.a[1]:
        return K(a.a[0] + kb * b.a[0])
    d = dict(a.a[1])
    for at, k in b.a[1]:
        d[at] = d.get(at, 0) + kb * k
    return mklin(a.a[0] + kb * b.a[0], d)


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    return mklin(a.a[0] * k, {x: c * k for x, c in a.a[1]})


def isconst(l):
    return l.op == 'lin' and not l.a[1]


def cval(l):
    return l.a[0] if l.op == 'lin' and not l.a[1] else None


def iv(term, ty):
    return atom(N('iv', term, ty))


def be(t, o, n):
    return atom(N('be', t, o, n))


def lenatom(t):
    return atom(N('len', t))


def bounds(at):
    op = at.op
    if op == 'be':
        return 0, 256 ** at.a[2] - 1
    if op == 'iv':
        return INT.get(at.a[1], (None, None))
    if op == 'len':
        return 0, MAXLEN
    if op == 'b2i':
        return 0, 1
    if op == 'div':
        lo, hi = lbounds(at.a[0])
        return (None if lo is None else lo // at.a[1]), (None if hi is None else hi // at.a[1])
    if op == 'discr':
        return 0, 255
    if op in ('byteof', 'selbyte'):
        return 0, 255
    if op == 'bytesof':
        return 0, 256 ** (at.a[3] - at.a[2]) - 1
    return None, None


def lbounds(l):
    lo = hi = l.a[0]
    for at, k in l.a[1]:
        a, b = bounds(at)
        if k < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
    return lo, hi


def ldiv(l, k):
    """floor division by constant k>0"""
    if isconst(l):
        return K(l.a[0] // k)
    # split multiples of k
    q = {a: c // k for a, c in l.a[1] if c % k == 0}
    r = {a: c for a, c in l.a[1] if c % k}
    qc, rc = l.a[0] // k, l.a[0] % k
    rest = mklin(rc, r)
    if isconst(rest):
        return mklin(qc, q)
    lo, hi = lbounds(rest)
    out = mklin(qc, q)
    if lo is not None and hi is not None and lo // k == hi // k:
        return ladd(out, K(lo // k))
    return ladd(out, atom(N('div', rest, k)))


def lmod(l, k):
    return lsub(l, lscale(ldiv(l, k), k))


# ------------------------------------------------------------------ booleans
TRUE = N('true')
FALSE = N('false')


def le0(l):
    if isconst(l):
        return TRUE if l.a[0] <= 0 else FALSE
    lo, hi = lbounds(l)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    if len(l.a[1]) == 1 and l.a[1][0][0].op == 'b2i':
        at, k = l.a[1][0]
        return _b2i_case(at.a[0], l.a[0] <= 0, l.a[0] + k <= 0)
    g = reduce(gcd, (abs(c) for _, c in l.a[1]))
    if g > 1:
        l = mklin(-((-l.a[0]) // g), {a: c // g for a, c in l.a[1]})
    return N('le0', l)


def _b2i_case(f, v0, v1):
    if v0 and v1:
        return TRUE
    if not v0 and not v1:
        return FALSE
    return f if v1 else not_(f)


def eq0(l):
    if isconst(l):
        return TRUE if l.a[0] == 0 else FALSE
    lo, hi = lbounds(l)
    if (hi is not None and hi < 0) or (lo is not None and lo > 0):
        return FALSE
    if len(l.a[1]) == 1 and l.a[1][0][0].op == 'b2i':
        at, k = l.a[1][0]
        return _b2i_case(at.a[0], l.a[0] == 0, l.a[0] + k == 0)
    g = reduce(gcd, (abs(c) for _, c in l.a[1]))
    if l.a[0] % g:
        return FALSE
    s = g if l.a[1][0][1] > 0 else -g
    if s != 1:
        l = mklin(l.a[0] // s, {a: c // s for a, c in l.a[1]})
    return N('eq0', l)


def not_(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'le0':
        return le0(ladd(K(1), f.a[0], -1))
    if f.op == 'eq0':
        return N('ne0', f.a[0])
    if f.op == 'ne0':
        return N('eq0', f.a[0])
    if f.op == 'not':
        return f.a[0]
    if f.op == 'and':
        return or_([not_(x) for x in f.a[0]])
    if f.op == 'or':
        return and_([not_(x) for x in f.a[0]])
    return N('not', f)


def _nary(op, fs, unit, zero):
    out = []
    for f in fs:
        if f is unit:
            continue
        if f is zero:
            return zero
        if f.op == op:
            out.extend(f.a[0])
        else:
            out.append(f)
    u = []
    for f in out:
        if f not in u:
            u.append(f)
    if not u:
        return unit
    if len(u) == 1:
        return u[0]
    for f in u:
        if not_(f) in u:
            return zero
    return N(op, tuple(u))


def and_(fs):
    return _nary('and', fs, TRUE, FALSE)


def or_(fs):
    return _nary('or', fs, FALSE, TRUE)


def pred(*a):
    return N('pred', *a)


def b2i(f):
    if f is TRUE:
        return K(1)
    if f is FALSE:
        return K(0)
    return atom(N('b2i', f))


# ------------------------------------------------------------------ sequences
def seglen(s):
    if s.op == 'C':
        return K(len(s.a[0]))
    if s.op == 'I':
        return K(s.a[1])
    if s.op == 'S':
        return s.a[2]
    if s.op == 'Z':
        return s.a[0]
    if s.op == 'F':
        return s.a[1]
    raise Exception('seglen ' + s.op)


def C(b):
    return N('C', bytes(b))


def S(t, o, l):
    return N('S', t, o, l)


def Z(l):
    v = cval(l)
    if v is not None and v <= 4096:
        return C(bytes(v))
    return N('Z', l)


def mkseq(segs):
    out = []
    for s in segs:
        if s.op == 'I':
            rs = int_segs(s.a[0], s.a[1])
        else:
            rs = (s,)
        for s in rs:
            if seglen(s) is K(0):
                continue
            if out:
                p = out[-1]
                if p.op == 'C' and s.op == 'C':
                    out[-1] = C(p.a[0] + s.a[0])
                    continue
                if p.op == 'S' and s.op == 'S' and p.a[0] is s.a[0] and ladd(p.a[1], p.a[2]) is s.a[1]:
                    out[-1] = S(p.a[0], p.a[1], ladd(p.a[2], s.a[2]))
                    continue
                if s.op == 'I' and s.a[1] == 1 and p.op == 'I':
                    m = _merge_byte(p, s)
                    if m is not None:
                        out[-1] = m
                        continue
                if p.op == 'Z' and s.op == 'Z':
                    out[-1] = Z(ladd(p.a[0], s.a[0]))
                    continue
            out.append(s)
    return N('seq', tuple(out))


def _merge_byte(p, s):
    """consecutive big-endian bytes of one integer: I(byteof(l,n,0),1) I(byteof(l,n,1),1) .. -> I(l,n)"""
    def parts(x):
        if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
            at = x.a[1][0][0]
            if at.op == 'byteof':
                return at.a[0], at.a[1], at.a[2], at.a[2] + 1
            if at.op == 'bytesof':
                return at.a
        return None
    a, b = parts(p.a[0]), parts(s.a[0])
    if a is None or b is None or a[0] is not b[0] or a[1] != b[1] or a[3] != b[2] or p.a[1] != a[3] - a[2]:
        return None
    if a[2] == 0 and b[3] == a[1]:
        return N('I', a[0], a[1])
    return N('I', atom(N('bytesof', a[0], a[1], a[2], b[3])), b[3] - a[2])


def int_segs(l, n):
    """big-endian bytes of integer l (known to fit n bytes) as canonical segments"""
    if isconst(l):
        return (C((l.a[0] % 256 ** n).to_bytes(n, 'big')),)
    pieces = []
    for at, k in l.a[1]:
        if at.op != 'be' or k <= 0:
            return (N('I', l, n),)
        j = 0
        while k % 256 == 0:
            k //= 256
            j += 1
        if k != 1:
            return (N('I', l, n),)
        pieces.append((n - j - at.a[2], n - j, at))
    pieces.sort(key=lambda p: p[0])
    c = l.a[0]
    if c < 0:
        return (N('I', l, n),)
    cb = (c % 256 ** n).to_bytes(n, 'big')
    pos = 0
    out = []
    for st, en, at in pieces:
        if st < pos or en > n or any(cb[st:en]):
            return (N('I', l, n),)
        if st > pos:
            out.append(C(cb[pos:st]))
        out.append(S(at.a[0], at.a[1], K(at.a[2])))
        pos = en
    if pos < n:
        out.append(C(cb[pos:]))
    return tuple(out)


def seqlen(q):
    if q.c is None:
        l = K(0)
        for s in q.a[0]:
            l = ladd(l, seglen(s))
        q.c = l
    return q.c


def segs_int(segs):
    """integer value of big-endian concrete-width segments, or None"""
    tot = 0
    for s in segs:
        v = cval(seglen(s))
        if v is None:
            return None
        tot += v
    if tot > 16:
        return None
    r = K(0)
    rem = tot
    for s in segs:
        w = cval(seglen(s))
        rem -= w
        if s.op == 'C':
            p = K(int.from_bytes(s.a[0], 'big'))
        elif s.op == 'I':
            p = s.a[0]
        elif s.op == 'S':
            p = be(s.a[0], s.a[1], w) if w <= 8 else None
        elif s.op == 'Z':
            p = K(0)
        elif s.op == 'F':
            p = K(0)
            for i in range(w):
                p = ladd(lscale(p, 256), s.a[0])
        if p is None:
            return None
        r = ladd(r, p, 256 ** rem)
    return r


def byteof(l, n, k):
    """k-th big-endian byte of the n-byte integer l"""
    if n == 1:
        return l
    segs = int_segs(l, n)
    if len(segs) != 1 or segs[0].op != 'I':
        pos = 0
        for s in segs:
            w = cval(seglen(s))
            if pos <= k < pos + w:
                if s.op == 'C':
                    return K(s.a[0][k - pos])
                return be(s.a[0], ladd(s.a[1], K(k - pos)), 1)
            pos += w
    if l.a[0] == 0 and len(l.a[1]) == 1 and l.a[1][0][1] == 1 and l.a[1][0][0].op == 'bytesof':
        m, w, a, b = l.a[1][0][0].a
        if b - a == n:
            return byteof(m, w, a + k)
    return atom(N('byteof', l, n, k))


# ------------------------------------------------------------------ entailment
_cache = {}
STATS = {'queries': 0, 'fm': 0, 'giveup': 0}


def atoms_of(l):
    return [a for a, _ in l.a[1]]


def _axioms(at):
    """extra linear facts defining an atom"""
    if at.op == 'div':
        l, k = at.a
        r = ladd(l, atom(at), -k)  # 0 <= r <= k-1
        return [('le', lscale(r, -1)), ('le', ladd(r, K(-(k - 1))))]
    if at.op == 'min':
        return [('le', lsub(atom(at), at.a[0])), ('le', lsub(atom(at), at.a[1]))]
    if at.op == 'max':
        return [('le', lsub(at.a[0], atom(at))), ('le', lsub(at.a[1], atom(at)))]
    return []


def _expand_be(cons):
    """express overlapping multi-byte reads by their bytes"""
    bes = {}
    for k, l in cons:
        for at in atoms_of(l):
            if at.op == 'be':
                bes.setdefault(at.a[0], set()).add(at)
    exp = set()
    for t, s in bes.items():
        s = sorted(s, key=lambda x: x.id)
        for i, a in enumerate(s):
            for b in s[i + 1:]:
                d = cval(lsub(b.a[1], a.a[1]))
                if d is not None and -b.a[2] < d < a.a[2]:
                    exp.add(a)
                    exp.add(b)
    if not exp:
        return cons
    out = []
    for k, l in cons:
        c = l.a[0]
        d = {}
        for at, co in l.a[1]:
            if at in exp and at.a[2] > 1:
                n = at.a[2]
                for i in range(n):
                    x = N('be', at.a[0], ladd(at.a[1], K(i)), 1)
                    d[x] = d.get(x, 0) + co * 256 ** (n - 1 - i)
            else:
                d[at] = d.get(at, 0) + co
        t = tuple(sorted(((a, kk) for a, kk in d.items() if kk), key=lambda x: x[0].id))
        out.append((k, N('lin', c, t)))
    return out


def infeasible(cons):
    """cons: iterable of ('le'|'eq'|'ne', lin). True if provably unsatisfiable over the
    integers (sound, incomplete)."""
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        STATS['queries'] += 1
        r = _infeasible(list(key), 0)
        _cache[key] = r
    return r


def _infeasible(cons, depth):
    les, eqs, nes = [], [], []
    todo = list(cons)
    seen_at = set()
    allc = []
    i = 0
    while i < len(todo):
        k, l = todo[i]
        i += 1
        allc.append((k, l))
        for at in atoms_of(l):
            if at in seen_at:
                continue
            seen_at.add(at)
            for ax in _axioms(at):
                todo.append(ax)
    allc = _expand_be(allc)
    ats = set()
    for k, l in allc:
        (les if k == 'le' else eqs if k == 'eq' else nes).append((dict(l.a[1]), l.a[0]))
        ats.update(atoms_of(l))
    for at in ats:
        lo, hi = bounds(at)
        if lo is not None:
            les.append(({at: -1}, lo))
        if hi is not None:
            les.append(({at: 1}, -hi))
    r = _solve(les, eqs, nes, 0)
    return r


def _subst(e, v, expr, c):
    d, k = e
    co = d.get(v)
    if not co:
        return e
    d = dict(d)
    del d[v]
    for a, x in expr.items():
        y = d.get(a, 0) + co * x
        if y:
            d[a] = y
        else:
            d.pop(a, None)
    return d, k + co * c


def _solve(les, eqs, nes, depth):
    STATS['fm'] += 1
    les, eqs, nes = list(les), list(eqs), list(nes)
    rest = []
    while eqs:
        d, c = eqs.pop()
        if not d:
            if c:
                return True
            continue
        g = reduce(gcd, (abs(x) for x in d.values()))
        if c % g:
            return True
        if g > 1:
            d = {a: x // g for a, x in d.items()}
            c //= g
        v = None
        for a, x in d.items():
            if abs(x) == 1:
                v = a
                if not bounds(a)[0] == 0 or len(d) < 3:
                    break
        if v is None:
            rest.append((d, c))
            continue
        s = d[v]
        expr = {a: -x * s for a, x in d.items() if a is not v}
        cc = -c * s
        les = [_subst(e, v, expr, cc) for e in les]
        eqs = [_subst(e, v, expr, cc) for e in eqs]
        nes = [_subst(e, v, expr, cc) for e in nes]
        rest = [_subst(e, v, expr, cc) for e in rest]
    for d, c in rest:
        les.append((d, c))
        les.append(({a: -x for a, x in d.items()}, -c))
    live = []
    for d, c in nes:
        if not d:
            if c == 0:
                return True
        else:
            live.append((d, c))
    if _fm(les):
        return True
    # case split on a few disequalities
    if live and depth < 3:
        # only those forced to one side by bounds are useful: try each once
        for i, (d, c) in enumerate(live[:12]):
            neg = ({a: -x for a, x in d.items()}, -c)
            lo = _fm(les + [(d, c + 1)])            # d+c <= -1 infeasible?
            if lo:
                hi = _fm(les + [(neg[0], neg[1] + 1)])
                if hi:
                    return True
                les2 = les + [(neg[0], neg[1] + 1)]  # must be >= 1
                return _solve(les2, [], [x for j, x in enumerate(live) if j != i], depth + 1)
            hi = _fm(les + [(neg[0], neg[1] + 1)])
            if hi:
                les2 = les + [(d, c + 1)]
                return _solve(les2, [], [x for j, x in enumerate(live) if j != i], depth + 1)
    return False


def _norm(d, c):
    g = reduce(gcd, (abs(x) for x in d.values()))
    if g > 1:
        d = {a: x // g for a, x in d.items()}
        c = -((-c) // g)
    return d, c


def _fm(les):
    """True if the conjunction of d.x + c <= 0 is infeasible"""
    cons = {}

    def add(d, c):
        if not d:
            return c > 0
        d, c = _norm(d, c)
        k = frozenset(d.items())
        o = cons.get(k)
        if o is None or o < c:
            cons[k] = c
            nk = frozenset((a, -x) for a, x in d.items())
            o = cons.get(nk)
            if o is not None and o + c > 0:
                return True
        return False

    for d, c in les:
        if add(d, c):
            return True
    while cons:
        pos, neg = {}, {}
        for k in cons:
            for a, x in k:
                if x > 0:
                    pos.setdefault(a, []).append(k)
                else:
                    neg.setdefault(a, []).append(k)
        best = None
        for a in set(pos) | set(neg):
            p, n = len(pos.get(a, ())), len(neg.get(a, ()))
            s = p * n - p - n
            if best is None or s < best[0] or (s == best[0] and a.id < best[1].id):
                best = (s, a)
        if best is None:
            return False
        v = best[1]
        P = [(dict(k), cons[k]) for k in pos.get(v, ())]
        Q = [(dict(k), cons[k]) for k in neg.get(v, ())]
        if len(P) * len(Q) > 3000 or len(cons) > 3000:
            STATS['giveup'] += 1
            return False
        for k in list(pos.get(v, ())) + list(neg.get(v, ())):
            cons.pop(k, None)
        for d1, c1 in P:
            x = d1[v]
            for d2, c2 in Q:
                y = -d2[v]
                g = gcd(x, y)
                m1, m2 = y // g, x // g
                d = {}
                for a, z in d1.items():
                    if a is not v:
                        d[a] = z * m1
                for a, z in d2.items():
                    if a is not v:
                        t = d.get(a, 0) + z * m2
                        if t:
                            d[a] = t
                        else:
                            d.pop(a, None)
                if add(d, c1 * m1 + c2 * m2):
                    return True
    return False


if __name__ == '__main__':
    x, y = iv('x', 'u32'), iv('y', 'u32')
    assert infeasible([('le', lsub(x, y)), ('le', ladd(lsub(y, x), K(1)))])
    assert not infeasible([('le', lsub(x, y))])
    d = ldiv(ladd(x, K(7)), 8)
    # 8*((x+7)/8) >= x
    assert infeasible([('le', ladd(lsub(lscale(d, 8), x), K(1)))])
    assert infeasible([('le', ladd(lsub(x, lscale(d, 8)), K(8)))])
    t = N('t')
    assert segs_int([S(t, K(0), K(2)), S(t, K(2), K(2))]) is be(t, K(0), 4)
    print(mkseq([N('I', be(t, K(0), 4), 4), S(t, K(4), x)]))
    print('ok')
