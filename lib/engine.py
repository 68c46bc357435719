"""Abstract interpreter over the MIR facts.

Abstract states are trace partitions: a memory (abstract objects -> values of the term
domain), linear facts, predicates and clauses, plus the sequence of observable events
(I/O, randomness, crypto, handler calls).  Functions are analysed by inlining (context
sensitive), loops by peeling and then widening to an inductive abstraction.  Branches are
decided by the linear-inequality domain of terms.py; no solver and no execution of /repo.
"""
import sys
import time
from terms import *
from program import Program, subst, unify, Fn

MOVED = N('moved')
UNIT = N('agg', 'tuple', '', 0, (), ())
U8 = N('int', 'u8')
USIZE = N('int', 'usize')
BOOL = N('bool')
STR = N('str')
UNKTY = N('other', '?')
OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'


def adt(key, variant, *fields):
    return N('agg', 'adt', key, variant, tuple(fields), ())


def some(v):
    return adt(OPT, 1, v)


NONE = adt(OPT, 0)


def ok(v):
    return adt(RES, 0, v)


def err(v):
    return adt(RES, 1, v)


def ready(v):
    return adt(POLL, 0, v)


def tup(*f):
    return N('agg', 'tuple', '', 0, tuple(f), ())


def pf(v, i):
    return N('pf', v, i)


def pi(l):
    return N('pi', l)


def ps(o, l):
    return N('ps', o, l)


def papp(path, e):
    """append a projection, composing with a trailing sub-slice view"""
    if path and path[-1].op == 'ps':
        b = path[-1]
        if e.op == 'pi':
            return path[:-1] + (pi(ladd(b.a[0], e.a[0])),)
        if e.op == 'ps':
            return path[:-1] + (ps(ladd(b.a[0], e.a[0]), e.a[1]),)
    return path + (e,)


def ptr(obj, path=()):
    return N('ptr', obj, tuple(path))


def kptr(value, slen=None):
    """pointer to an immutable anonymous object"""
    o = N('kobj', value)
    return ptr(o, (ps(K(0), slen),) if slen is not None else ())


def kslice(seq):
    return kptr(seq, seqlen(seq) if seq.op == 'seq' else K(len(seq.a[0])))


def lit(b):
    return mkseq([C(b)])


def strc(s):
    return kslice(lit(s.encode() if isinstance(s, str) else s))


def isslice(p):
    return p.op == 'ptr' and p.a[1] and p.a[1][-1].op == 'ps'


def slen(p):
    return p.a[1][-1].a[1]


def soff(p):
    return p.a[1][-1].a[0]


HIGH = frozenset(range(128, 256))


def byteclass(p):
    """(sequence, byte values, polarity) of a predicate saying that a byte of some class occurs in a sequence"""
    if p.a[0] == 'anyset':
        return p.a[1], frozenset(p.a[2]), True
    if p.a[0] == 'ascii':
        return p.a[1], HIGH, False
    if p.a[2].op == 'seq' and len(p.a[2].a[0]) == 1 and p.a[2].a[0][0].op == 'C' and len(p.a[2].a[0][0].a[0]) == 1:
        return p.a[1], frozenset(p.a[2].a[0][0].a[0]), True
    return None


class St:
    __slots__ = ('mem', 'cons', 'val', 'preds', 'clauses', 'log', 'ev', 'gh', 'imp', 'dec', 'ex')

    def __init__(s):
        s.mem = {}
        s.cons = {}
        s.val = {}
        s.preds = {}
        s.clauses = ()
        s.log = None
        s.ev = None
        s.gh = {}
        s.imp = False
        s.dec = 0
        s.ex = {}

    def clone(s):
        n = St.__new__(St)
        n.mem = dict(s.mem)
        n.cons = dict(s.cons)
        n.val = dict(s.val)
        n.preds = dict(s.preds)
        n.clauses = s.clauses
        n.log = s.log
        n.ev = s.ev
        n.gh = dict(s.gh)
        n.imp = s.imp
        n.dec = s.dec
        n.ex = dict(s.ex)
        return n

    # ---------------- facts
    def simp(s, l):
        if not s.val:
            return l
        ch = False
        d = {}
        c = l.a[0]
        val = s.val
        for at, k in l.a[1]:
            v = val.get(at)
            if v is None:
                if at.op == 'be' and at.a[1].a[1]:
                    o = s.simp(at.a[1])
                    if o is not at.a[1]:
                        at = N('be', at.a[0], o, at.a[2])
                        ch = True
                        v = val.get(at)
                        if v is not None:
                            c += k * v
                            continue
                d[at] = d.get(at, 0) + k
            else:
                ch = True
                c += k * v
        return mklin(c, d) if ch else l

    def _renorm(s, at):
        """an atom became constant: rewrite facts whose nested offsets mention it"""
        hit = []
        for c in s.cons:
            for b in atoms_deep(c[1]):
                if b.op == 'be' and b.a[1].a[1] and any(x is at for x, _ in b.a[1].a[1]):
                    hit.append(c)
                    break
        for k, l in hit:
            del s.cons[(k, l)]
            f = {'le': le0, 'eq': eq0}.get(k)
            l = s.simp(l)
            g = f(l) if f else not_(eq0(l))
            if g is FALSE:
                return False
            if g is TRUE:
                continue
            if g.op in ('le0', 'eq0', 'ne0'):
                s.cons[_con(g)] = 1
                l = g.a[0]
                if g.op == 'eq0' and len(l.a[1]) == 1 and abs(l.a[1][0][1]) == 1 and l.a[1][0][0] not in s.val:
                    x, kk = l.a[1][0]
                    s.val[x] = -l.a[0] * kk
                    if not s._renorm(x):
                        return False
                elif g.op == 'ne0' and len(l.a[1]) == 1 and abs(l.a[1][0][1]) == 1:
                    x, kk = l.a[1][0]
                    s.ex[x] = s.ex.get(x, frozenset()) | {-l.a[0] * kk}
            elif not s._add(g):
                return False
        for x in list(s.val):
            if x.op == 'be' and x.a[1].a[1] and any(y is at for y, _ in x.a[1].a[1]):
                n = N('be', x.a[0], s.simp(x.a[1]), x.a[2])
                if s.val.get(n, s.val[x]) != s.val[x]:
                    return False
                s.val[n] = s.val[x]
        for x in list(s.ex):
            if x.op == 'be' and x.a[1].a[1] and any(y is at for y, _ in x.a[1].a[1]):
                n = N('be', x.a[0], s.simp(x.a[1]), x.a[2])
                s.ex[n] = s.ex.get(n, frozenset()) | s.ex[x]
        return True

    def rel(s, l):
        """facts connected to the atoms of l"""
        want = set()
        todo = list(atoms_deep(l))
        cons = s.cons
        index = {}
        for c in cons:
            for at in atoms_deep(c[1]):
                index.setdefault(at, []).append(c)
        out = set()
        while todo:
            at = todo.pop()
            if at in want:
                continue
            want.add(at)
            # overlapping big-endian reads of one source are related
            if at.op == 'be':
                for b in index:
                    if b.op == 'be' and b.a[0] is at.a[0] and b not in want:
                        d = cval(lsub(b.a[1], at.a[1]))
                        if d is not None and -b.a[2] < d < at.a[2]:
                            todo.append(b)
            for c in index.get(at, ()):
                if c not in out:
                    out.add(c)
                    todo.extend(atoms_deep(c[1]))
        return out

    def decide(s, f):
        """True / False / None"""
        op = f.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op in ('le0', 'eq0', 'ne0'):
            l = s.simp(f.a[0])
            if isconst(l):
                v = l.a[0]
                return v <= 0 if op == 'le0' else v == 0 if op == 'eq0' else v != 0
            g = le0(l) if op == 'le0' else eq0(l)
            if g is TRUE or g is FALSE:
                return (g is TRUE) == (op != 'ne0')
            if g.op not in ('le0', 'eq0'):
                r = s.decide(g)
                return r if op != 'ne0' or r is None else not r
            if op == 'ne0':
                g = not_(g)
            if len(l.a[1]) == 1 and op != 'le0':
                at, k = l.a[1][0]
                if (-l.a[0]) % k == 0 and (-l.a[0]) // k in s.ex.get(at, ()):
                    return op == 'ne0'
            r = s.rel(g.a[0])
            if infeasible(r | {_con(not_(g))} if g.op != 'eq0' else r | {('ne', g.a[0])}):
                return True
            if infeasible(r | {_con(g)}):
                return False
            return None
        if op == 'and':
            res = True
            for x in f.a[0]:
                r = s.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if op == 'or':
            res = False
            for x in f.a[0]:
                r = s.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if op == 'not':
            r = s.decide(f.a[0])
            return None if r is None else not r
        r = s.preds.get(f)
        if r is None and op == 'pred' and f.a[0] in ('anyset', 'ascii', 'contains'):
            r = s.decide_class(f)
        if r is None and op == 'pred' and f.a[0] == 'seqeq':
            r = s.decide_seqeq(f)
        return r

    def decide_seqeq(s, f):
        """equality of byte sequences is an equivalence relation"""
        eqs = [(p.a[1], p.a[2], v) for p, v in s.preds.items() if p.op == 'pred' and p.a[0] == 'seqeq']
        if not eqs:
            return None

        def cls(x):
            c, work = {x}, [x]
            while work:
                y = work.pop()
                for a, b, v in eqs:
                    if v:
                        for m, n in ((a, b), (b, a)):
                            if m is y and n not in c:
                                c.add(n)
                                work.append(n)
            return c
        x = cls(f.a[1])
        if f.a[2] in x:
            return True
        y = cls(f.a[2])
        if any(not v and (a in x and b in y or a in y and b in x) for a, b, v in eqs):
            return False
        return None

    def decide_class(s, f):
        """facts about which byte values occur in one sequence"""
        m = byteclass(f)
        if m is None:
            return None
        q, S, pos = m
        none, some_ = frozenset(), []
        for p, v in s.preds.items():
            if p.op == 'pred' and p.a[0] in ('anyset', 'ascii', 'contains') and p.a[1] is q:
                x = byteclass(p)
                if x is not None:
                    if v == x[2]:
                        some_.append(x[1])
                    else:
                        none |= x[1]
        if S <= none:
            return not pos
        if any(x - none <= S for x in some_):
            return pos
        return None

    def prove(s, f):
        return s.decide(f) is True

    def refutes(s, f):
        """f contradicts what is known (including the clauses)"""
        r = s.decide(f)
        return r is False or r is None and not s.clone().assume(f)

    def le(s, a, b):
        return s.prove(le0(lsub(a, b)))

    def eq(s, a, b):
        return a is b or s.prove(eq0(lsub(a, b)))

    def assume(s, f):
        """add a fact; False if contradictory"""
        r = s.decide(f)
        if r is not None:
            return r
        s.log = (f, s.log)
        return s._add(f)

    def _add(s, f):
        op = f.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'and':
            for x in f.a[0]:
                r = s.decide(x)
                if r is False or (r is None and not s._add(x)):
                    return False
            return True
        if op == 'or':
            live = []
            for x in f.a[0]:
                r = s.decide(x)
                if r is True:
                    return True
                if r is None:
                    live.append(x)
            if not live:
                return False
            if len(live) == 1:
                return s._add(live[0])
            s.clauses = s.clauses + (or_(live),)
            return True
        if op in ('le0', 'eq0', 'ne0'):
            l = s.simp(f.a[0])
            f = le0(l) if op == 'le0' else eq0(l) if op == 'eq0' else not_(eq0(l))
            if f.op not in ('le0', 'eq0', 'ne0'):
                return s._add(f)
            l = f.a[0]
            if f.op == 'le0' and len(l.a[1]) == 1 and lbounds(l)[0] == 0:
                g = eq0(l)
                if g.op == 'eq0':
                    f, l = g, g.a[0]
            s.cons[_con(f)] = 1
            if f.op == 'eq0' and len(l.a[1]) == 1 and abs(l.a[1][0][1]) == 1:
                at, k = l.a[1][0]
                s.val[at] = -l.a[0] * k
                if not s._renorm(at):
                    return False
            elif f.op == 'ne0' and len(l.a[1]) == 1 and abs(l.a[1][0][1]) == 1:
                at, k = l.a[1][0]
                s.ex[at] = s.ex.get(at, frozenset()) | {-l.a[0] * k}
            return s._prop()
        if op == 'not':
            s.preds[f.a[0]] = False
            return s._prop()
        s.preds[f] = True
        return s._prop()

    def _prop(s):
        """unit propagation over clauses"""
        if not s.clauses:
            return True
        cl = s.clauses
        keep = []
        for i, c in enumerate(cl):
            live = []
            sat = False
            for x in c.a[0]:
                r = s.decide(x)
                if r is True:
                    sat = True
                    break
                if r is None:
                    live.append(x)
            if sat:
                continue
            if not live:
                return False
            if len(live) == 1:
                s.clauses = tuple(keep) + cl[i + 1:]
                return s._add(live[0]) if live[0].op != 'or' else s._add(live[0])
            keep.append(or_(live) if len(live) < len(c.a[0]) else c)
        s.clauses = tuple(keep)
        return True

    def events(s):
        out = []
        e = s.ev
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out

    def emit(s, *e):
        s.ev = (e, s.ev)

    def trace(s):
        out = []
        e = s.log
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out


def atoms_deep(l):
    for at, _ in l.a[1]:
        yield at
        if at.op in ('div',):
            yield from atoms_deep(at.a[0])
        elif at.op in ('min', 'max'):
            yield from atoms_deep(at.a[0])
            yield from atoms_deep(at.a[1])


def _con(f):
    return ({'le0': 'le', 'eq0': 'eq', 'ne0': 'ne'}[f.op], f.a[0])


class Panic:
    __slots__ = ('st', 'kind', 'span', 'fn', 'stack', 'msg')

    def __init__(s, st, kind, span, fn, stack, msg=''):
        s.st, s.kind, s.span, s.fn, s.stack, s.msg = st, kind, span, fn, stack, msg

    def key(s):
        return '%s in %s' % (s.kind, s.fn)


class Frame:
    __slots__ = ('fn', 'body', 'targs', 'd', 'locs')


class Cut(Exception):
    pass


class Eng:
    deadline = float('inf')     # exploration stops there; what was explored is judged

    def __init__(s, P, models=None):
        s.P = P
        s.panics = []
        s.exits = []
        s.notes = {}
        s.cuts = {}
        s.stack = []
        s.over = {}
        s.uniq = 0
        s.fns_seen = set()
        s.calls_seen = 0
        s.branches = 0
        s.paths = 0
        s.peel = 3
        s.maxconc = 20000
        s.hdr = {}
        s.blocked = []
        s.budget = 400000
        s.steps = 0
        if models is None:
            import models as m
            models = m.MODELS
            s.tmodels = m.TMODELS
            s.pmodels = m.PMODELS
        s.models = models
        s.hooks = {}

    def note(s, k):
        s.notes[k] = s.notes.get(k, 0) + 1

    def fresh(s, st, tag):
        n = st.gh.get(('u', tag), 0)
        st.gh[('u', tag)] = n + 1
        return N('fresh', tag, n)

    def unk(s, why, *a):
        s.uniq += 1
        s.note('unknown: ' + why)
        return N('unk', why, s.uniq)

    # ------------------------------------------------------------ types
    def adtdef(s, key):
        return s.P.adts.get(key)

    def field_ty(s, ty, variant, i):
        if ty.op == 'adt':
            d = s.adtdef(ty.a[0])
            if d is None:
                return UNKTY
            vs = d['variants']
            v = vs[variant or 0] if (variant or 0) < len(vs) else None
            if v is None or i >= len(v[2]):
                return UNKTY
            t = v[2][i][1]
            if t is None:
                return UNKTY
            m = {g[1]: a for g, a in zip(d['generics'], ty.a[1])}
            return subst(t, m)
        if ty.op == 'tuple':
            return ty.a[0][i] if i < len(ty.a[0]) else UNKTY
        return UNKTY

    def ga_len(s, ty):
        """size of GenericArray<u8, U>"""
        def tn(u):
            if u.op == 'adt':
                n = u.a[0].split('::')[-1]
                if n == 'UTerm':
                    return 0
                if n == 'UInt':
                    a = tn(u.a[1][0])
                    b = u.a[1][1]
                    bn = b.a[0].split('::')[-1] if b.op == 'adt' else ''
                    return None if a is None else 2 * a + (1 if bn == 'B1' else 0)
            if u.op == 'alias' and 'OutputSize' in (u.a[2] or u.a[0]):
                return 32
            return None
        return tn(ty.a[1][1]) if len(ty.a[1]) > 1 else None

    # ------------------------------------------------------------ symbolic values
    def make_sym(s, term, ty):
        op = ty.op
        if op == 'int':
            return iv(term, ty.a[0])
        if op == 'bool':
            return N('pred', 'b', term)
        if op in ('ref', 'rawptr'):
            return s.sym_ref(term, ty.a[1])
        if op == 'array':
            n = ty.a[1]
            if isinstance(n, int):
                if ty.a[0] is U8:
                    return mkseq([S(term, K(0), K(n))])
                if n <= 64:
                    return N('arr', tuple(s.make_sym(N('elem', term, K(i)), ty.a[0]) for i in range(n)))
            return N('sym', term, ty)
        if op in ('slice', 'str'):
            if op == 'str' or ty.a[0] is U8:
                return mkseq([S(term, K(0), lenatom(term))])
            return N('sarr', term, ty.a[0], lenatom(term), ())
        if op == 'tuple':
            return N('agg', 'tuple', '', 0, tuple(s.make_sym(N('fld', term, 0, i), t) for i, t in enumerate(ty.a[0])), ())
        if op == 'adt':
            k = ty.a[0]
            if k == 'generic_array::GenericArray' and ty.a[1] and ty.a[1][0] is U8:
                n = s.ga_len(ty)
                return mkseq([S(term, K(0), K(n) if n is not None else lenatom(term))])
            if k == 'alloc::vec::Vec':
                return N('agg', 'vec', '', 0, (s.make_sym(term, N('slice', ty.a[1][0])),), ())
            if k == 'alloc::string::String':
                return N('agg', 'vec', '', 0, (s.make_sym(term, STR),), ())
            if k == 'alloc::boxed::Box' and ty.a[1][0].op not in ('dyn', 'other'):
                return N('agg', 'box', '', 0, (s.make_sym(term, ty.a[1][0]),), ())
            if k == 'core::cell::RefCell' or k == 'core::cell::Cell':
                return N('agg', 'cell', '', 0, (s.make_sym(N('cell', term), ty.a[1][0]),), ())
            if k in ('core::cell::RefMut', 'core::cell::Ref'):
                return N('agg', 'refmut', '', 0, (s.sym_ref(term, ty.a[1][0]),), ())
            if k == 'core::pin::Pin':
                return N('agg', 'pin', '', 0, (s.make_sym(term, ty.a[1][0]),), ())
            d = s.adtdef(k)
            if d is not None and d['kind'] == 'struct' and d['local']:
                # expand small local structs eagerly so that writes are cheap
                return N('sym', term, ty)
            return N('sym', term, ty)
        return N('sym', term, ty)

    def sym_ref(s, term, inner):
        if inner.op in ('slice', 'str'):
            return ptr(N('obj', term, inner), (ps(K(0), lenatom(term)),))
        return ptr(N('obj', term, inner))

    def init_obj(s, st, obj):
        if obj.op == 'kobj':
            return obj.a[0]
        if obj.op == 'obj':
            v = s.make_sym(obj.a[0] if obj.a[1].op in ('slice', 'str') else N('deref', obj.a[0]), obj.a[1])
            if obj.a[1].op == 'sarr':
                pass
            st.mem[obj] = v
            return v
        return None

    def expand(s, st, v, variant=None):
        """sym -> agg"""
        term, ty = v.a
        if ty.op == 'adt':
            d = s.adtdef(ty.a[0])
            if d is None:
                return None
            if d['kind'] == 'enum':
                if variant is None:
                    variant = s.sym_variant(st, v)
                if variant is None:
                    return None
            else:
                variant = 0
            fs = d['variants'][variant][2]
            return N('agg', 'adt', ty.a[0], variant,
                     tuple(s.sym_field(v, variant, i) for i in range(len(fs))), ())
        return None

    def sym_field(s, v, variant, i):
        term, ty = v.a
        ft = s.field_ty(ty, variant, i)
        t = N('fld', term, variant or 0, i)
        if ft is UNKTY and term.imp is False and ty.op != 'adt':
            return N('sym', N('unk', 'field', t), UNKTY)
        return s.make_sym(t, ft)

    def sym_variant(s, st, v):
        """variant index of an enum sym if known"""
        term, ty = v.a
        d = s.adtdef(ty.a[0]) if ty.op == 'adt' else None
        if d is None:
            return None
        at = N('discr', term)
        x = st.val.get(at)
        if x is None:
            left = [i for i, w in enumerate(d['variants']) if w[1] not in st.ex.get(at, ())]
            return left[0] if len(left) == 1 else None
        for i, w in enumerate(d['variants']):
            if w[1] == x:
                return i
        return None

    # ------------------------------------------------------------ memory
    def load(s, st, obj, path=()):
        v = st.mem.get(obj)
        if v is None:
            v = s.init_obj(st, obj)
            if v is None:
                return N('sym', s.unk('uninit', obj), UNKTY)
        for e in path:
            v = s.proj(st, v, e)
        return v

    def proj(s, st, v, e):
        op = v.op
        if e.op == 'pf':
            var, i = e.a
            if op == 'agg':
                if (var is None or v.a[2] == var or v.a[0] != 'adt') and i < len(v.a[3]):
                    return v.a[3][i]
                return N('sym', s.unk('variant mismatch'), UNKTY)
            if op == 'sym':
                return s.sym_field(v, var, i)
            if op == 'moved':
                return v
            return N('sym', s.unk('field of ' + op), UNKTY)
        if e.op == 'pi':
            return s.elem(st, v, e.a[0])
        if e.op == 'ps':
            return s.subslice(st, v, e.a[0], e.a[1])
        return N('sym', s.unk('proj'), UNKTY)

    def elem(s, st, v, i):
        if v.op == 'seq':
            q = s.slice_seq(st, v, i, K(1))
            r = segs_int(q.a[0])
            if r is not None:
                return r
            return iv(s.unk('byte'), 'u8')
        if v.op == 'arr':
            c = cval(st.simp(i))
            if c is not None and 0 <= c < len(v.a[0]):
                return v.a[0][c]
            # undetermined index
            if len(set(v.a[0])) == 1:
                return v.a[0][0]
            return N('sym', s.unk('array index'), UNKTY)
        if v.op == 'sarr':
            term, ty, ln, upd = v.a
            for (j, w) in reversed(upd):
                if st.eq(j, i):
                    return w
                if not st.prove(not_(eq0(lsub(i, j)))):
                    return s.make_sym(s.unk('array alias'), ty)
            return s.make_sym(N('elem', term, i), ty)
        if v.op == 'sym':
            return N('sym', s.unk('elem of sym'), UNKTY)
        return N('sym', s.unk('elem of ' + v.op), UNKTY)

    def subslice(s, st, v, o, l):
        if v.op == 'seq':
            return s.slice_seq(st, v, o, l)
        if v.op == 'arr':
            a, b = cval(st.simp(o)), cval(st.simp(l))
            if a is not None and b is not None:
                return N('arr', v.a[0][a:a + b])
            return N('sym', s.unk('arr slice'), UNKTY)
        if v.op == 'sarr':
            if o is K(0) and l is v.a[2]:
                return v
            if not v.a[3]:
                return N('sarr', N('sub', v.a[0], o), v.a[1], l, ()) if not (o is K(0)) else N('sarr', v.a[0], v.a[1], l, ())
            return N('sarr', s.unk('sarr slice'), v.a[1], l, ())
        return N('sym', s.unk('slice of ' + v.op), UNKTY)

    def sub(s, seg, o, l):
        if l is K(0):
            return ()
        if seg.op == 'S':
            return (S(seg.a[0], ladd(seg.a[1], o), l),)
        if seg.op == 'Z':
            return (Z(l),)
        if seg.op == 'F':
            return (N('F', seg.a[0], l),)
        a, b = cval(o), cval(l)
        if seg.op == 'C':
            if a is not None and b is not None:
                return (C(seg.a[0][a:a + b]),)
            return (S(N('lit', seg.a[0]), o, l),)
        if seg.op == 'I':
            if a is not None and b is not None:
                if a == 0 and b == seg.a[1]:
                    return (seg,)
                return tuple(N('I', byteof(seg.a[0], seg.a[1], a + k), 1) for k in range(b))
            return (S(N('bytes', seg.a[0], seg.a[1]), o, l),)
        raise Exception('sub')

    def slice_seq(s, st, q, off, ln):
        if off is K(0) and ln is seqlen(q):
            return q
        segs = q.a[0]
        off = st.simp(off)
        ln0 = ln
        ln = st.simp(ln)
        if ln is K(0):
            return mkseq(())
        rem = off
        i = 0
        bad = lambda why: mkseq([S(s.unk('slice ' + why), K(0), ln0)])
        while True:
            if i == len(segs):
                if st.eq(ln, K(0)):
                    return mkseq(())
                return bad('beyond')
            L = seglen(segs[i])
            if rem is K(0):
                break
            if st.le(L, rem):
                rem = st.simp(lsub(rem, L))
                i += 1
                continue
            if st.le(ladd(rem, K(1)), L):
                break
            if st.le(rem, L) and (segs[i].op in ('S', 'Z', 'F') or cval(rem) is not None):
                # rem == L possible: the piece of this segment may be empty
                break
            return bad('offset')
        out = []
        need = ln
        first = True
        while True:
            if need is K(0) or (first is False and st.eq(need, K(0))):
                return mkseq(out)
            if i == len(segs):
                if st.eq(need, K(0)):
                    return mkseq(out)
                return bad('end')
            seg = segs[i]
            L = seglen(seg)
            av = lsub(L, rem) if first else L
            av = st.simp(av)
            if st.le(need, av):
                out.extend(s.sub(seg, rem if first else K(0), need) if need is not L or rem is not K(0) else (seg,))
                return mkseq(out)
            elif st.le(av, need):
                if av is K(0):
                    pass
                elif first and rem is not K(0):
                    out.extend(s.sub(seg, rem, av))
                elif av is not L and isconst(av):
                    out.extend(s.sub(seg, K(0), av))
                else:
                    out.append(seg)
                need = st.simp(lsub(need, av))
            else:
                return bad('length')
            first = False
            rem = K(0)
            i += 1

    def write_seq(s, st, q, off, new):
        tot = seqlen(q)
        nl = seqlen(new)
        if off is K(0) and (nl is tot or st.eq(nl, tot)):
            return new
        pre = s.slice_seq(st, q, K(0), off)
        end = ladd(off, nl)
        post = s.slice_seq(st, q, end, lsub(tot, end))
        return mkseq(pre.a[0] + new.a[0] + post.a[0])

    def store(s, st, obj, path, val):
        if obj.op == 'kobj':
            s.note('write to constant')
            return
        if not path:
            st.mem[obj] = val
            return
        v = st.mem.get(obj)
        if v is None:
            v = s.init_obj(st, obj)
            if v is None:
                v = N('sym', s.unk('uninit', obj), UNKTY)
        st.mem[obj] = s.upd(st, v, path, val)

    def upd(s, st, v, path, val):
        if not path:
            return val
        e = path[0]
        rest = path[1:]
        if e.op == 'pf':
            var, i = e.a
            if v.op == 'sym':
                x = s.expand(st, v, var)
                if x is None:
                    return N('sym', s.unk('update of sym'), v.a[1])
                v = x
            if v.op == 'moved' or v.op != 'agg':
                if rest:
                    return N('sym', s.unk('update of ' + v.op), UNKTY)
                # (re)initialising a field of a moved-out or uninitialised aggregate
                fs = [MOVED] * (i + 1)
                fs[i] = val
                return N('agg', 'adt' if var is not None else 'tuple', '?', var or 0, tuple(fs), ())
            fs = list(v.a[3])
            if i >= len(fs):
                fs += [MOVED] * (i + 1 - len(fs))
            fs[i] = s.upd(st, fs[i], rest, val)
            return N('agg', v.a[0], v.a[1], v.a[2], tuple(fs), v.a[4])
        if e.op == 'pi':
            if v.op == 'seq':
                return s.write_seq(st, v, e.a[0], mkseq([N('I', val, 1)])) if val.op == 'lin' else N('sym', s.unk('byte store'), UNKTY)
            if v.op == 'arr':
                c = cval(st.simp(e.a[0]))
                if c is not None and 0 <= c < len(v.a[0]):
                    fs = list(v.a[0])
                    fs[c] = s.upd(st, fs[c], rest, val)
                    return N('arr', tuple(fs))
                return N('arr', tuple(N('sym', s.unk('array store'), UNKTY) for _ in v.a[0]))
            if v.op == 'sarr':
                old = s.elem(st, v, e.a[0]) if rest else None
                nv = s.upd(st, old, rest, val) if rest else val
                return N('sarr', v.a[0], v.a[1], v.a[2], v.a[3] + ((e.a[0], nv),))
            return N('sym', s.unk('index store'), UNKTY)
        if e.op == 'ps':
            if rest:
                return s.upd(st, v, (papp((e,), rest[0])[-1],) + rest[1:], val)
            if v.op == 'seq' and val.op == 'seq':
                return s.write_seq(st, v, e.a[0], val)
            if v.op == 'arr' and val.op == 'arr':
                c = cval(st.simp(e.a[0]))
                if c is not None:
                    fs = list(v.a[0])
                    fs[c:c + len(val.a[0])] = val.a[0]
                    return N('arr', tuple(fs))
            return N('sym', s.unk('slice store'), UNKTY)
        raise Exception('upd')

    def get(s, st, p):
        """content behind a pointer value"""
        if p.op == 'ptr':
            return s.load(st, p.a[0], p.a[1])
        if p.op == 'agg' and p.a[0] in ('box', 'pin', 'refmut'):
            if p.a[0] == 'box':
                return p.a[3][0]
            return s.get(st, p.a[3][0])
        if p.op == 'sym' and p.a[1].op in ('ref', 'rawptr'):
            q = s.sym_ref(p.a[0], p.a[1].a[1])
            return s.load(st, q.a[0], q.a[1])
        return N('sym', s.unk('deref of ' + p.op), UNKTY)

    def put(s, st, p, v):
        if p.op == 'ptr':
            s.store(st, p.a[0], p.a[1], v)
        else:
            s.note('store through ' + p.op)

    def seq_of(s, st, p):
        """byte sequence behind a slice/str/array reference"""
        v = s.get(st, p)
        if v.op == 'agg' and v.a[0] == 'vec':
            v = v.a[3][0]
        if v.op == 'ptr':
            return s.seq_of(st, v)
        if v.op != 'seq':
            if v.op == 'arr' and all(x.op == 'lin' for x in v.a[0]):
                return mkseq([N('I', x, 1) for x in v.a[0]])
            t = s.unk('not bytes: ' + v.op)
            return mkseq([S(t, K(0), slen(p) if isslice(p) else lenatom(t))])
        return v

    def deep(s, st, v, d=0):
        """snapshot of a value with pointers replaced by their contents"""
        if d > 8 or not isinstance(v, Node):
            return v
        if v.op == 'ptr':
            return N('ref', s.deep(st, s.load(st, v.a[0], v.a[1]), d + 1))
        if v.op == 'agg':
            fs = tuple(s.deep(st, x, d + 1) for x in v.a[3])
            return N('agg', v.a[0], v.a[1], v.a[2], fs, ())
        if v.op == 'arr':
            return N('arr', tuple(s.deep(st, x, d + 1) for x in v.a[0]))
        return v

    # ------------------------------------------------------------ places
    def place(s, st, fr, pl):
        local, proj = pl
        obj = N('loc', fr.d, local)
        path = ()
        var = None
        ty = None
        for e in proj:
            k = e[0]
            if k == 'd':
                v = s.load(st, obj, path)
                if v.op == 'agg' and v.a[0] == 'box':
                    path = papp(path, pf(None, 0))
                    continue
                obj, path = s.deref(st, v)
            elif k == 'f':
                path = papp(path, pf(var, e[1]))
                var = None
            elif k == 'v':
                var = e[1]
            elif k == 'i':
                idx = s.load(st, N('loc', fr.d, e[1]))
                path = papp(path, pi(idx if idx.op == 'lin' else iv(s.unk('index'), 'usize')))
            elif k == 'c':
                off, _, fe = e[1], e[2], e[3]
                if fe:
                    path = papp(path, pi(lsub(s.plen(st, obj, path), K(off))))
                else:
                    path = papp(path, pi(K(off)))
            elif k == 's':
                a, b, fe = e[1], e[2], e[3]
                if fe:
                    l = lsub(s.plen(st, obj, path), K(a + b))
                else:
                    l = K(b - a)
                path = papp(path, ps(K(a), l))
        return obj, path

    def plen(s, st, obj, path):
        if path and path[-1].op == 'ps':
            return path[-1].a[1]
        v = s.load(st, obj, path)
        return s.vlen(v)

    def vlen(s, v):
        if v.op == 'seq':
            return seqlen(v)
        if v.op == 'arr':
            return K(len(v.a[0]))
        if v.op == 'sarr':
            return v.a[2]
        if v.op == 'agg' and v.a[0] == 'vec':
            return s.vlen(v.a[3][0])
        return iv(s.unk('length of ' + v.op), 'usize')

    def deref(s, st, v):
        if v.op == 'ptr':
            return v.a
        if v.op == 'agg' and v.a[0] in ('pin', 'refmut'):
            return s.deref(st, v.a[3][0])
        if v.op == 'agg' and v.a[0] == 'box':
            return N('kobj', v.a[3][0]), ()
        if v.op == 'sym' and v.a[1].op in ('ref', 'rawptr'):
            return s.sym_ref(v.a[0], v.a[1].a[1]).a
        if v.op == 'sym':
            return N('obj', N('d', v.a[0]), UNKTY), ()
        return N('obj', s.unk('deref ' + v.op), UNKTY), ()

    # ------------------------------------------------------------ operands, rvalues
    def operand(s, st, fr, o):
        k = o[0]
        if k == 'cp' or k == 'mv':
            pl = o[1]
            if not pl[1]:
                obj = N('loc', fr.d, pl[0])
                v = st.mem.get(obj)
                if v is None:
                    v = s.zst(s.ty(fr, fr.body.locals[pl[0]])) or N('sym', s.unk('uninit local'), UNKTY)
                if k == 'mv':
                    st.mem[obj] = MOVED
                return v
            # box deref by value
            obj, path = s.place(st, fr, pl)
            v = s.load(st, obj, path)
            if k == 'mv' and v.op in ('agg', 'sym') and not any(e[0] == 'd' for e in pl[1]):
                b = st.mem.get(obj)
                if b is not None and b.op == 'agg':
                    s.store(st, obj, path, MOVED)
            return v
        return s.const(st, fr, o[1])

    def ty(s, fr, t):
        return subst(t, fr.targs) if fr.targs else t

    def zst(s, ty):
        if ty.op == 'tuple' and not ty.a[0]:
            return UNIT
        if ty.op == 'fndef':
            return N('fn', ty.a[0])
        if ty.op == 'adt':
            d = s.adtdef(ty.a[0])
            if d and d['kind'] == 'struct' and not d['variants'][0][2]:
                return N('agg', 'adt', ty.a[0], 0, (), ())
        if ty.op == 'closure':
            return N('agg', 'closure', ty.a[0], 0, (), ())
        return None

    def const(s, st, fr, k):
        if 'callee' in k:
            return N('fn', subst(k['callee'], fr.targs))
        ty = s.ty(fr, k['ty']) if isinstance(k.get('ty'), Node) else UNKTY
        if 'cparam' in k:
            c = k['cparam']
            idx = c[1] if isinstance(c, list) else c
            if isinstance(c, list) and len(c) == 3:
                idx = c[2]
            v = fr.targs.get(idx)
            if v is not None and v.op == 'cval':
                return K(v.a[0])
            return iv(N('cparam', str(c)), 'usize')
        if 'val' in k:
            v = s.cval_(k['val'], ty)
            if v is not None:
                return v
        if k.get('promoted') is not None:
            f = s.P.fns.get(k['uid']) or s.P.consts.get(k['uid'])
            if f is not None:
                try:
                    return s.eval_promoted(f, k['promoted'], fr.targs)
                except Exception as e:
                    s.note('promoted: %r' % e)
        elif k.get('uid') in s.P.consts:
            f = s.P.consts[k['uid']]
            try:
                return s.eval_body(f, s.P.body(f), fr.targs)
            except Exception as e:
                s.note('const: %r' % e)
        z = s.zst(ty)
        if z is not None:
            return z
        if 'opaque' in k:
            return TRUE if False else N('pred', 'b', N('rtcheck'))
        if ty.op == 'adt' and ty.a[0] == OPT:
            return NONE
        return s.make_sym(N('unk', 'const', str(k.get('path'))), ty)

    def eval_promoted(s, f, i, targs):
        return s.eval_body(f, s.P.prom(f, i), targs)

    def eval_body(s, f, body, targs):
        st = St()
        fr = Frame()
        fr.fn, fr.body, fr.targs, fr.d = f, body, targs, 1000000
        res = s.exec_body(fr, st)
        st, v = res[0]

        def fix(x):
            if x.op == 'ptr' and x.a[0].op == 'loc':
                base = fix(st.mem[x.a[0]])
                return ptr(N('kobj', base), x.a[1])
            if x.op == 'agg':
                return N('agg', x.a[0], x.a[1], x.a[2], tuple(fix(y) for y in x.a[3]), x.a[4])
            if x.op == 'arr':
                return N('arr', tuple(fix(y) for y in x.a[0]))
            return x
        return fix(v)

    def cval_(s, v, ty):
        if not isinstance(v, dict):
            return None
        if 'int' in v:
            n = v['int']
            return K(int(n))
        if 'bool' in v:
            return TRUE if v['bool'] else FALSE
        if 'str' in v or 'bytes' in v:
            b = v['str'].encode() if 'str' in v else bytes(v['bytes'])
            q = lit(b)
            if ty.op in ('ref', 'rawptr'):
                inner = ty.a[1]
                return kptr(q, K(len(b)) if inner.op in ('slice', 'str') else None)
            return q
        if 'seq' in v and ty.op in ('ref', 'rawptr'):
            x = s.cval_(v, ty.a[1])
            if x is None:
                return None
            return kptr(x, s.vlen(x) if ty.a[1].op == 'slice' else None)
        if 'seq' in v:
            et = ty.a[0] if ty.op in ('array', 'slice') else UNKTY
            el = [s.cval_(x, et) for x in v['seq']]
            if any(x is None for x in el):
                return None
            if et is U8:
                return mkseq([N('I', x, 1) for x in el])
            return N('arr', tuple(el))
        if 'ref' in v:
            inner = ty.a[1] if ty.op in ('ref', 'rawptr') else UNKTY
            x = s.cval_(v['ref'], inner)
            if x is None:
                return None
            if inner.op in ('slice', 'str'):
                return kptr(x, s.vlen(x))
            return kptr(x)
        if 'agg' in v:
            t = v['agg']
            if not isinstance(t, Node):
                t = ty
            var = v.get('variant') or 0
            fs = []
            for i, x in enumerate(v['fields']):
                ft = s.field_ty(t, var, i)
                y = s.cval_(x, ft)
                if y is None:
                    y = s.zst(ft)
                if y is None:
                    return None
                fs.append(y)
            if t.op == 'tuple':
                return N('agg', 'tuple', '', 0, tuple(fs), ())
            if t.op == 'adt':
                return N('agg', 'adt', t.a[0], var, tuple(fs), ())
            return None
        if 'opaque' in v and ty.op == 'adt' and ty.a[0] == OPT:
            return NONE
        return None

    def as_bool(s, v):
        if v.op == 'lin':
            return not_(eq0(v))
        if v.op == 'sym':
            return N('pred', 'b', v.a[0])
        return v

    def as_int(s, v):
        if v.op == 'lin':
            return v
        if v.op in ('true', 'false', 'le0', 'eq0', 'ne0', 'and', 'or', 'not', 'pred'):
            return b2i(v)
        return iv(s.unk('int of ' + v.op), 'usize')

    def isbool(s, v):
        return v.op in ('true', 'false', 'le0', 'eq0', 'ne0', 'and', 'or', 'not', 'pred')

    def wrap(s, st, l, tn):
        """l reduced modulo the type's range"""
        lo, hi = INT.get(tn, (None, None))
        if lo is None:
            return l
        a, b = lbounds(l)
        if a is not None and b is not None and lo <= a and b <= hi:
            return l
        if st.le(K(lo), l) and st.le(l, K(hi)):
            return l
        if lo == 0:
            return lmod(l, hi + 1)
        return iv(N('wrap', l, tn), tn)

    def opty(s, fr, o):
        if o[0] == 'k':
            t = o[1].get('ty')
            return s.ty(fr, t) if isinstance(t, Node) else UNKTY
        return s.plty(fr, o[1])

    def plty(s, fr, pl):
        t = s.ty(fr, fr.body.locals[pl[0]])
        var = None
        for e in pl[1]:
            if e[0] == 'd':
                if t.op in ('ref', 'rawptr'):
                    t = t.a[1]
                elif t.op == 'adt' and t.a[0] == 'alloc::boxed::Box':
                    t = t.a[1][0]
                else:
                    t = UNKTY
            elif e[0] == 'f':
                t = s.ty(fr, e[2]) if isinstance(e[2], Node) else s.field_ty(t, var, e[1])
                var = None
            elif e[0] == 'v':
                var = e[1]
            elif e[0] in ('i', 'c'):
                t = t.a[0] if t.op in ('slice', 'array') else UNKTY
            elif e[0] == 's':
                t = N('slice', t.a[0]) if t.op in ('slice', 'array') else UNKTY
        return t

    def allequal(s, st, x):
        """x == 0 for an accumulation (a0 ^ b0) | (a1 ^ b1) | .. of bytes: equality of two byte strings"""
        ps_, todo = [], [x]
        while todo:
            x = todo.pop()
            n = x.a[1][0][0] if x.op == 'lin' and len(x.a[1]) == 1 and x.a[0] == 0 else None
            if n is not None and n.op in ('int', 'iv') and len(n.a) == 2:
                n = n.a[0]
            if n is not None and n.op == 'op' and n.a[0] == 'BitOr':
                todo += [n.a[1], n.a[2]]
            elif n is not None and n.op == 'op' and n.a[0] == 'BitXor':
                ps_.append((n.a[1], n.a[2]))
            elif x is not K(0):
                ps_.append((x, K(0)))
        if len(ps_) == 1 and ps_[0][1] is K(0):
            return None
        if any(lbounds(y)[0] is None or lbounds(y)[0] < 0 or lbounds(y)[1] is None or lbounds(y)[1] > 255 for p in ps_ for y in p):
            return and_([eq0(lsub(p, q)) for p, q in ps_])

        def src(y):
            n = y.a[1][0][0] if y.op == 'lin' and len(y.a[1]) == 1 else None
            return (n.a[0].id, n.a[1].a[0], str(n.a[1].a[1])) if n is not None and n.op == 'be' else (0, 0, '')
        ps_ = [p if src(p[0])[0] <= src(p[1])[0] else (p[1], p[0]) for p in ps_]
        ps_.sort(key=lambda p: (src(p[0]), src(p[1])))
        from models import seqeq
        f = seqeq(s, st, *[mkseq([N('I', p[i], 1) for p in ps_]) for i in (0, 1)])
        st.emit('cteq', f)
        return f

    def binop(s, st, op, a, b, ta):
        tn = ta.a[0] if ta.op == 'int' else None
        if op in ('Eq', 'Ne') and s.isbool(a) and s.isbool(b):
            f = iff(a, b)
            return f if op == 'Eq' else not_(f)
        if op in ('BitAnd', 'BitOr', 'BitXor') and s.isbool(a) and s.isbool(b):
            if op == 'BitAnd':
                return and_([a, b])
            if op == 'BitOr':
                return or_([a, b])
            return not_(iff(a, b))
        if a.op == 'ptr' or b.op == 'ptr':
            return N('pred', 'b', s.unk('pointer comparison'))
        a = s.as_int(a)
        b = s.as_int(b)
        a, b = st.simp(a), st.simp(b)
        if op in ('Eq', 'Ne'):
            f = None
            if b is K(0) or a is K(0):
                f = s.allequal(st, a if b is K(0) else b)
            if f is None:
                f = eq0(lsub(a, b))
            return f if op == 'Eq' else not_(f)
        if op == 'Lt':
            return le0(ladd(lsub(a, b), K(1)))
        if op == 'Le':
            return le0(lsub(a, b))
        if op == 'Gt':
            return le0(ladd(lsub(b, a), K(1)))
        if op == 'Ge':
            return le0(lsub(b, a))
        ck = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = None
        if base == 'Add':
            r = ladd(a, b)
        elif base == 'Sub':
            r = lsub(a, b)
        elif base == 'Mul':
            if isconst(b):
                r = lscale(a, b.a[0])
            elif isconst(a):
                r = lscale(b, a.a[0])
            else:
                r = atom(N('mul', *sorted((a, b), key=lambda x: x.id)))
        if r is not None:
            if ck:
                lo, hi = INT.get(tn, (None, None))
                if lo is None:
                    return tup(r, FALSE)
                ovf = or_([le0(ladd(r, K(1 - lo))), le0(lsub(K(hi + 1), r))])
                d = st.decide(ovf)
                return tup(r, FALSE if d is False else TRUE if d is True else ovf)
            return s.wrap(st, r, tn) if tn and 'Unchecked' not in op else r
        if base == 'Div':
            if isconst(b) and b.a[0] > 0 and (lbounds(a)[0] or 0) >= 0:
                return ldiv(a, b.a[0])
            return iv(N('divs', a, b), tn or 'usize')
        if base == 'Rem':
            if isconst(b) and b.a[0] > 0 and (lbounds(a)[0] or 0) >= 0:
                return lmod(a, b.a[0])
            return iv(N('rems', a, b), tn or 'usize')
        if base == 'Shl':
            if isconst(b):
                return s.wrap(st, lscale(a, 2 ** b.a[0]), tn)
            if isconst(a):
                return iv(N('shl', a, b), tn)
        if base == 'Shr':
            if isconst(b) and (lbounds(a)[0] or 0) >= 0:
                return ldiv(a, 2 ** b.a[0])
        if base == 'BitAnd':
            if isconst(a) and not isconst(b):
                a, b = b, a
            if isconst(a) and isconst(b):
                return K(a.a[0] & b.a[0])
            if isconst(b):
                m = b.a[0]
                lo, hi = lbounds(a)
                if hi is not None and lo is not None and lo >= 0:
                    full = (1 << hi.bit_length()) - 1
                    m &= full
                    if m == full:
                        return a
                if m == 0:
                    return K(0)
                if m > 0:
                    z = (m & -m).bit_length() - 1
                    t = m >> z
                    if t & (t + 1) == 0:
                        x = ldiv(a, 1 << z)
                        if not (hi is not None and (hi >> z) <= t):
                            x = lmod(x, t + 1)
                        return lscale(x, 1 << z)
        if base == 'BitOr':
            if isconst(a) and isconst(b):
                return K(a.a[0] | b.a[0])
            for x, y in ((a, b), (b, a)):
                if isconst(x) and x.a[0] == 0:
                    return y
                lo, hi = lbounds(y)
                if lo is not None and lo >= 0 and hi is not None:
                    k = 1 << hi.bit_length()
                    if x.a[0] % k == 0 and all(c % k == 0 for _, c in x.a[1]):
                        return ladd(x, y)
        if base == 'BitXor':
            if isconst(a) and isconst(b):
                return K(a.a[0] ^ b.a[0])
            if a is b:
                return K(0)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            a, b = sorted((a, b), key=lambda x: x.id)
        return iv(N('op', op, a, b), tn or 'usize') if not ck else tup(iv(N('op', op, a, b), tn or 'usize'), N('pred', 'b', s.unk(op)))

    def cast(s, st, kind, v, fty, ty):
        if ty.op == 'int':
            if s.isbool(v):
                return b2i(v)
            if v.op == 'lin':
                return s.wrap(st, v, ty.a[0])
            if v.op == 'sym' and v.a[1].op == 'adt':
                return atom(N('discr', v.a[0]))
            if v.op == 'agg' and v.a[0] == 'adt':
                d = s.adtdef(v.a[1])
                return K(d['variants'][v.a[2]][1])
            return iv(s.unk('cast ' + v.op), ty.a[0])
        if 'Unsize' in kind:
            if v.op == 'ptr' and fty.op in ('ref', 'rawptr') and fty.a[1].op == 'array' and ty.a[1].op == 'slice':
                n = fty.a[1].a[1]
                ln = K(n) if isinstance(n, int) else s.plen(st, v.a[0], v.a[1])
                return ptr(v.a[0], papp(v.a[1], ps(K(0), ln)))
            return v
        return v

    def rvalue(s, st, fr, rv, dty):
        k = rv[0]
        if k == 'use':
            return s.operand(st, fr, rv[1])
        if k == 'ref':
            obj, path = s.place(st, fr, rv[2])
            return ptr(obj, path)
        if k == 'cast':
            v = s.operand(st, fr, rv[2])
            return s.cast(st, rv[1], v, s.opty(fr, rv[2]), s.ty(fr, rv[3]))
        if k == 'bin':
            a = s.operand(st, fr, rv[2])
            b = s.operand(st, fr, rv[3])
            return s.binop(st, rv[1], a, b, s.opty(fr, rv[2]))
        if k == 'un':
            v = s.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if s.isbool(v):
                    return not_(v)
                t = s.opty(fr, rv[2])
                lo, hi = INT.get(t.a[0], (0, 0))
                if v.op == 'lin':
                    return lsub(K(hi if lo == 0 else -1), v)
                return s.as_int(v)
            if rv[1] == 'Neg':
                return lscale(s.as_int(v), -1)
            if rv[1] == 'PtrMetadata':
                if isslice(v):
                    return slen(v)
                if v.op == 'ptr':
                    return s.plen(st, v.a[0], v.a[1])
                return iv(s.unk('metadata'), 'usize')
            return N('sym', s.unk('unop ' + rv[1]), dty)
        if k == 'discr':
            obj, path = s.place(st, fr, rv[1])
            v = s.load(st, obj, path)
            return s.discr(st, v)
        if k == 'agg':
            kd = rv[1]
            ops = tuple(s.operand(st, fr, o) for o in rv[2])
            if kd[0] == 'adt':
                return s.mkadt(kd[1], kd[2], ops)
            if kd[0] == 'tuple':
                return tup(*ops)
            if kd[0] == 'array':
                et = s.ty(fr, kd[1])
                if et is U8 and all(x.op == 'lin' for x in ops):
                    return mkseq([N('I', x, 1) for x in ops])
                return N('arr', ops)
            if kd[0] in ('closure', 'coroutine'):
                return N('agg', kd[0], kd[1], 0, ops, tuple(sorted(fr.targs.items())))
            return tup(*ops)
        if k == 'rep':
            v = s.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, Node):
                n = subst(n, fr.targs)
                n = n.a[0] if n.op == 'cval' else None
            if n is None:
                return N('sym', s.unk('repeat'), dty)
            et = dty.a[0] if dty.op == 'array' else UNKTY
            if et is U8 and v.op == 'lin':
                if isconst(v):
                    return mkseq([C(bytes([v.a[0]]) * n)]) if n <= 4096 or v.a[0] else mkseq([Z(K(n))])
                return mkseq([N('F', v, K(n))])
            if n <= 256:
                return N('arr', (v,) * n)
            return N('sym', s.unk('repeat'), dty)
        return N('sym', s.unk('rvalue ' + k), dty)

    def mkadt(s, key, var, ops):
        return N('agg', 'adt', key, var, tuple(ops), ())

    def discr(s, st, v):
        if v.op == 'agg' and v.a[0] == 'adt':
            d = s.adtdef(v.a[1])
            if d is None:
                return K(v.a[2])
            return K(d['variants'][v.a[2]][1])
        if v.op == 'sym':
            x = st.val.get(N('discr', v.a[0]))
            if x is not None:
                return K(x)
            return atom(N('discr', v.a[0]))
        return atom(N('discr', s.unk('discriminant of ' + v.op)))

    # ------------------------------------------------------------ control flow
    def headers(s, body):
        h = s.hdr.get(id(body))
        if h is not None:
            return h
        succ = {}
        for i, b in enumerate(body.blocks):
            if b is None:
                succ[i] = []
                continue
            succ[i] = [x for x in succs(b[1]) if body.blocks[x] is not None]
        # iterative DFS for back edges
        color = {}
        back = set()
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                c = color.get(v)
                if c is None:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                if c == 1:
                    back.add((u, v))
            else:
                color[u] = 2
                stack.pop()
        hs = {v for _, v in back}
        s.hdr[id(body)] = (back, hs)
        return back, hs

    def run(s, f, args, targs=None, st=None):
        st = st or St()
        return s.call_fn(st, f, list(args), targs or {})

    def call_fn(s, st, f, args, targs):
        if len(s.stack) > 120:
            raise Cut('recursion')
        body = s.P.body(f)
        fr = Frame()
        fr.fn, fr.body, fr.targs = f, body, targs
        fr.d = len(s.stack) + 1 + st.gh.get('dbase', 0)
        s.fns_seen.add(f.name)
        for i, a in enumerate(args):
            st.mem[N('loc', fr.d, i + 1)] = a
        return s.exec_body(fr, st)

    def exec_body(s, fr, st):
        body = fr.body
        back, hs = s.headers(body)
        s.stack.append(fr)
        out = []
        try:
            work = [(0, st, {})]
            while work:
                bb, st, lc = work.pop()
                try:
                    nxt = s.exec_block(fr, st, bb, out)
                except Cut as e:
                    # this path is not followed further
                    k = 'not followed: %s' % e
                    s.cuts[k] = s.cuts.get(k, 0) + 1
                    continue
                for (t, st2) in nxt:
                    l2 = lc
                    if t in hs:
                        hh = s.hooks.get('header')
                        if hh and hh(s, fr, t, st2):
                            continue
                        if (bb, t) in back:
                            l2 = dict(lc)
                            n, tot, dec = l2.get(t, (0, 0, st2.dec))
                            if st2.dec != dec:
                                n += 1
                            tot += 1
                            l2[t] = (n, tot, st2.dec)
                            if n > s.peel or tot > s.maxconc:
                                s.loop_cut(fr, st2, t, out)
                                continue
                        else:
                            l2 = dict(lc)
                            l2[t] = (0, 0, st2.dec)
                    work.append((t, st2, l2))
        finally:
            s.stack.pop()
        # drop the frame's locals
        if fr.d < 1000000:
            names = [N('loc', fr.d, i) for i in range(len(body.locals))]
            for st, _ in out:
                m = st.mem
                for n in names:
                    m.pop(n, None)
        s.paths += len(out)
        return out

    def loop_cut(s, fr, st, hdr, out):
        k = '%s bb%d' % (fr.fn.name, hdr)
        s.cuts[k] = s.cuts.get(k, 0) + 1

    def panic(s, st, kind, span, msg=''):
        fr = s.stack[-1] if s.stack else None
        # attribute to the innermost local (non-std) frame
        fn = None
        for f in reversed(s.stack):
            if not f.fn.ext:
                fn = f.fn.name
                break
        s.panics.append(Panic(st, kind, span, fn or '?', [f.fn.name for f in s.stack], msg))

    def branch(s, st, cases):
        """cases: list of (formula, payload) -> feasible [(st, payload)], forking"""
        live = []
        for f, p in cases:
            d = st.decide(f)
            if d is False:
                continue
            live.append((f, p, d))
            if d is True:
                live = [(f, p, d)]
                break
        s.branches += 1
        if len(live) == 1 and live[0][2] is True:
            return [(st, live[0][1])]
        out = []
        for i, (f, p, d) in enumerate(live):
            n = st.clone() if i < len(live) - 1 else st
            n.dec += 1
            if f.imp:
                n.imp = True
            if n.assume(f):
                out.append((n, p))
        if len(out) == 1:
            out[0][0].dec -= 1
        return out

    def split_index(s, st, fr, term, bb):
        """a table of few entries that are not bytes, indexed by an unknown number: one path per entry"""
        if 'ounds' not in str(term[3]):
            return [(bb, st)]

        def find(x):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], (tuple, list)):
                for j, e in enumerate(x[1]):
                    if isinstance(e, (tuple, list)) and e and e[0] == 'i':
                        return x[0], tuple(x[1][:j]), e[1]
            if isinstance(x, (tuple, list)):
                for y in x:
                    r = find(y)
                    if r:
                        return r
            return None
        blk = fr.body.blocks[bb]
        r = blk and (find(blk[0]) or find(blk[1]))
        if not r:
            return [(bb, st)]
        idx = st.simp(s.as_int(s.load(st, N('loc', fr.d, r[2]))))
        if cval(idx) is not None:
            return [(bb, st)]
        n = st.clone()
        obj, path = s.place(n, fr, (r[0], r[1]))
        v = s.load(n, obj, path)
        if v.op != 'arr' or len(v.a[0]) > 16 or idx.imp:
            return [(bb, st)]
        return [(bb, m) for m, _ in s.branch(st, [(eq0(lsub(idx, K(k))), k) for k in range(len(v.a[0]))])]

    def exec_block(s, fr, st, bb, out):
        s.steps += 1
        if s.steps > s.budget:
            raise Cut('budget')
        if not s.steps & 63 and time.time() > s.deadline:
            s.budget = 0
        stmts, term = fr.body.blocks[bb]
        for sm in stmts:
            if sm[0] == '=':
                pl = sm[1]
                dty = s.plty(fr, pl) if sm[2][0] in ('rep', 'un', 'other') else UNKTY
                if sm[2][0] == 'bin' and sm[2][1] == 'Cmp':
                    raise Cut('Cmp')
                v = s.rvalue(st, fr, sm[2], dty)
                if not pl[1]:
                    st.mem[N('loc', fr.d, pl[0])] = v
                else:
                    obj, path = s.place(st, fr, pl)
                    s.store(st, obj, path, v)
            elif sm[0] == 'sd':
                obj, path = s.place(st, fr, sm[1])
                v = s.load(st, obj, path)
                if v.op == 'agg' and v.a[0] == 'adt':
                    s.store(st, obj, path, s.mkadt(v.a[1], sm[2], v.a[3]))
        k = term[0]
        if k == 'goto':
            return [(term[1], st)]
        if k == 'ret':
            v = st.mem.get(N('loc', fr.d, 0))
            if v is None:
                v = s.zst(s.ty(fr, fr.body.locals[0])) or UNIT
            out.append((st, v))
            return []
        if k == 'switch':
            v = s.operand(st, fr, term[1])
            cases = []
            if s.isbool(v) or (term[4] is BOOL):
                v = s.as_bool(v)
                rest = TRUE
                for val, b in term[2]:
                    f = v if val else not_(v)
                    cases.append((f, b))
                    rest = and_([rest, not_(f)])
                cases.append((rest, term[3]))
            else:
                v = s.as_int(v)
                sg = term[4].a[0] if isinstance(term[4], Node) and term[4].op == 'int' else 'usize'
                neg = []
                for val, b in term[2]:
                    if sg.startswith('i') and val > INT[sg][1]:
                        val -= 2 ** BITS[sg]
                    f = eq0(lsub(v, K(val)))
                    cases.append((f, b))
                    neg.append(not_(f))
                cases.append((and_(neg), term[3]))
            cases = [(f, b) for f, b in cases if fr.body.blocks[b] is not None and fr.body.blocks[b][1][0] != 'unreach' or fr.body.blocks[b][0]]
            return [(b, n) for n, b in s.branch(st, cases)]
        if k == 'call':
            return s.do_call(fr, st, term)
        if k == 'assert':
            v = s.as_bool(s.operand(st, fr, term[1]))
            f = v if term[2] else not_(v)
            d = st.decide(f)
            if d is True:
                return s.split_index(st, fr, term, term[6])
            res = []
            for n, good in s.branch(st, [(f, True), (not_(f), False)]):
                if good:
                    res.append((term[6], n))
                else:
                    s.panic(n, '%s %s' % (term[3], term[4]) if term[3] == 'overflow' else term[3], term[7])
            return [y for b, n in res for y in s.split_index(n, fr, term, b)]
        if k == 'drop':
            return [(term[2], n) for n in s.do_drop(fr, st, term[1])]
        if k == 'unreach':
            return []
        if k == 'yield':
            return s.do_yield(fr, st, term)
        return []

    def do_yield(s, fr, st, term):
        s.blocked.append((st, fr.fn.name))
        return []

    def do_drop(s, fr, st, pl):
        obj, path = s.place(st, fr, pl)
        v = st.mem.get(obj)
        if v is None:
            return [st]
        for e in path:
            if v.op == 'moved':
                return [st]
            v = s.proj(st, v, e)
        return s.drop_val(st, v, ptr(obj, path))

    def drop_impl(s, key):
        for im in s.P.impls.get('core::ops::drop::Drop', ()):
            if im['args'][0].op == 'adt' and im['args'][0].a[0] == key:
                return im
        return None

    def drop_val(s, st, v, p, d=0):
        if d > 8:
            return [st]
        if v.op == 'agg':
            sts = [st]
            if v.a[0] == 'adt':
                im = s.drop_impl(v.a[1])
                if im is not None:
                    f = s.P.fns.get(im['methods'].get('drop'))
                    if f is not None:
                        # run the destructor on a copy of the place
                        nxt = []
                        for x in sts:
                            nxt += [r[0] for r in s.call_fn(x, f, [p], {})]
                        sts = nxt
            h = s.hooks.get('drop')
            if h:
                for x in sts:
                    h(s, x, v)
            for i, fv in enumerate(v.a[3]):
                if isinstance(fv, Node) and (fv.op == "agg" or (fv.op == "sym" and h)):
                    q = ptr(p.a[0], papp(p.a[1], pf(v.a[2] if v.a[0] == 'adt' else None, i)))
                    nxt = []
                    for x in sts:
                        nxt += s.drop_val(x, fv, q, d + 1)
                    sts = nxt
            return sts
        if v.op == 'sym':
            h = s.hooks.get('drop')
            if h:
                h(s, st, v)
        return [st]

    # ------------------------------------------------------------ calls
    def do_call(s, fr, st, term):
        _, fop, aops, dest, target, span, dty = term
        s.calls_seen += 1
        fv = s.operand(st, fr, fop)
        args = [s.operand(st, fr, a) for a in aops]
        atys = [s.opty(fr, a) for a in aops]
        dty = s.ty(fr, dty)
        s.span = span
        res = s.invoke(st, fv, args, dty, atys)
        out = []
        for n, v in res:
            if target is None:
                continue
            if not dest[1]:
                n.mem[N('loc', fr.d, dest[0])] = v
            else:
                obj, path = s.place(n, fr, dest)
                s.store(n, obj, path, v)
            out.append((target, n))
        return out

    def invoke(s, st, fv, args, dty=UNKTY, atys=None):
        """call a function value"""
        if fv.op == 'ptr':
            fv = s.get(st, fv)
        if fv.op == 'fn':
            return s.call(st, fv.a[0], args, dty, atys or [UNKTY] * len(args))
        if fv.op == 'agg' and fv.a[0] == 'closure':
            return s.call_closure(st, fv, args, None)
        return [(st, s.opaque(st, 'call of ' + fv.op, args, dty, atys))]

    def call_closure(s, st, clo, args, selfptr):
        """args: already spread"""
        f = s.P.fns.get(clo.a[1])
        if f is None:
            return [(st, N('sym', s.unk('closure without body'), UNKTY))]
        body = s.P.body(f)
        targs = dict(clo.a[4])
        t1 = body.locals[1] if len(body.locals) > 1 else UNKTY
        if t1.op == 'ref':
            if selfptr is None:
                o = N('cobj', len(s.stack) + st.gh.get('dbase', 0), clo.a[1])
                st.mem[o] = clo
                selfptr = ptr(o)
            a0 = selfptr
        else:
            a0 = clo
        return s.call_fn(st, f, [a0] + list(args), targs)

    def resolve(s, c):
        """callee node -> (Fn or None, targs)"""
        id_, name, args, trait, rid, rname, rargs, ctor, uns, shim = c.a
        P = s.P
        if rid and rid in P.fns:
            f = P.fns[rid]
            g = P.generics_of(f)
            return f, {x[1]: a for x, a in zip(g, rargs or ())}
        if trait:
            for im in P.impls.get(trait, ()):
                m = {}
                ia = im['args']
                if len(ia) <= len(args) and all(unify(x, y, m) for x, y in zip(ia, args)):
                    mn = name.split('::')[-1]
                    fid = im['methods'].get(mn)
                    if fid and fid in P.fns:
                        f = P.fns[fid]
                        g = P.generics_of(f)
                        own = [x for x in g if x[1] not in m]
                        ta = dict(m)
                        extra = args[len(ia):]
                        for x, a in zip(own[-len(extra):] if extra else [], extra):
                            ta[x[1]] = a
                        return f, ta
        if id_ in P.fns:
            f = P.fns[id_]
            g = P.generics_of(f)
            return f, {x[1]: a for x, a in zip(g, args)}
        return None, None

    def call(s, st, c, args, dty, atys):
        id_, name, targs, trait, rid, rname, rargs, ctor, uns, shim = c.a
        if ctor:
            return [(st, s.mkadt(ctor[0], ctor[1], args))]
        # analysis-specific overrides (summaries of functions verified on their own)
        for nm in (rname, name):
            o = s.over.get(nm) if nm else None
            if o is not None:
                r = o(s, st, c, args, dty)
                if r is not None:
                    return r
        m = (rname and s.models.get(rname)) or s.models.get(name)
        if m is not None:
            r = m(s, st, c, args, dty)
            if r is not None:
                return r
        if trait:
            tm = s.tmodels.get(name)
            if tm is not None:
                r = tm(s, st, c, args, dty)
                if r is not None:
                    return r
        f, ta = s.resolve(c)
        if f is not None and s.P.body(f) is not None:
            o = s.over.get(f.name)
            if o is not None:
                r = o(s, st, c, args, dty)
                if r is not None:
                    return r
            m = s.models.get(f.name)
            if m is not None:
                r = m(s, st, c, args, dty)
                if r is not None:
                    return r
            return s.call_fn(st, f, args, ta)
        for pre, pm in s.pmodels:
            if name.startswith(pre):
                r = pm(s, st, c, args, dty)
                if r is not None:
                    return r
        return [(st, s.opaque(st, rname or name, args, dty, atys))]

    def opaque(s, st, name, args, dty, atys):
        s.note('opaque: ' + name)
        for a, t in zip(args, atys or ()):
            if t.op == 'ref' and t.a[0] and a.op == 'ptr':
                s.havoc(st, a, t.a[1])
        return s.make_sym(N('unk', 'opaque', name, s.tick()), dty)

    def tick(s):
        s.uniq += 1
        return s.uniq

    def havoc(s, st, p, ty):
        v = s.get(st, p)
        if v.op == 'seq':
            s.put(st, p, mkseq([S(N('unk', 'havoc', s.tick()), K(0), seqlen(v))]))
        elif v.op == 'lin':
            s.put(st, p, iv(N('unk', 'havoc', s.tick()), ty.a[0] if ty.op == 'int' else 'u64'))
        elif s.isbool(v):
            s.put(st, p, N('pred', 'b', N('unk', 'havoc', s.tick())))
        elif v.op == 'agg' and v.a[0] == 'vec':
            u = N('unk', 'havoc', s.tick())
            s.put(st, p, N('agg', 'vec', '', 0, (mkseq([S(u, K(0), lenatom(u))]),), ()))
        elif v.op == 'sym' and v.a[1].op not in ('adt', 'param', 'alias', 'other'):
            s.put(st, p, s.make_sym(N('unk', 'havoc', s.tick()), v.a[1]))
        elif v.op == 'agg' and v.a[0] == 'adt':
            s.put(st, p, N('sym', N('unk', 'havoc', s.tick()), ty))


def iff(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a is b:
        return TRUE
    return or_([and_([a, b]), and_([not_(a), not_(b)])])


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[6]]
    if k == 'drop':
        return [t[2]]
    if k == 'yield':
        return [t[1]] if isinstance(t[1], int) else []
    return []


sys.setrecursionlimit(100000)
