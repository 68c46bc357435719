"""Loads the MIR facts of all workspace crates (JSON written by the rustc driver)."""
import json, os
from terms import N, Node

CRATES = ['nora_ssh_core', 'nora_ssh', 'nora_sshd', 'nora_scp']


class Fn:
    __slots__ = ('id', 'name', 'crate', 'raw', 'generics', 'parent', 'body', 'promoted', 'kind', 'ext', 'coroutine', '_hdr')

    def __repr__(s):
        return 'Fn(%s)' % s.name


class Body:
    __slots__ = ('argc', 'locals', 'blocks', 'span', 'names', 'hdr', 'spread')


class Program:
    def __init__(self, d):
        self.fns = {}
        self.byname = {}
        self.adts = {}
        self.impls = {}
        self.consts = {}
        self.unit = N('tuple', ())
        self.files = {}
        self.raw, self.T = {}, {}
        for c in CRATES:
            p = os.path.join(d, c + '.json')
            self._load(c, json.load(open(p)))

    # ---- types
    def _types(self, raw):
        out = [None] * len(raw)
        busy = set()

        def callee(f):
            g = lambda xs: tuple(arg(x) for x in (xs or []))
            return N('callee', f['id'], f['name'], g(f.get('args')), f.get('trait'), f.get('rid'),
                     f.get('rname'), g(f.get('rargs')) if f.get('rid') else None,
                     tuple(f['ctor']) if f.get('ctor') else None, bool(f.get('unsafe')), f.get('shim'))

        def arg(x):
            if isinstance(x, int):
                return ty(x)
            if isinstance(x, (list, tuple)):
                return N('carg', *[str(y) for y in x])
            return N('carg', str(x))

        def ty(i):
            if i is None:
                return None
            if out[i] is not None:
                return out[i]
            if i in busy:
                return N('rec', i)
            busy.add(i)
            t = raw[i]
            k = t[0]
            if k == 'adt':
                r = N('adt', t[1], tuple(arg(x) for x in t[2]))
            elif k == 'ref':
                r = N('ref', bool(t[1]), ty(t[2]))
            elif k == 'ptr':
                r = N('rawptr', bool(t[1]), ty(t[2]))
            elif k == 'slice':
                r = N('slice', ty(t[1]))
            elif k == 'array':
                n = t[2]
                r = N('array', ty(t[1]), n if isinstance(n, int) else N('cparam', n[1], n[2]) if isinstance(n, list) and n[0] == 'cparam' else N('cunk', str(n)))
            elif k in ('uint', 'int', 'float'):
                r = N('int', t[1])
            elif k in ('char',):
                r = N('int', 'char')
            elif k in ('bool', 'str', 'never'):
                r = N(k)
            elif k == 'tuple':
                r = N('tuple', tuple(ty(x) for x in t[1]))
            elif k == 'param':
                r = N('param', t[1], t[2])
            elif k == 'closure':
                r = N('closure', t[1], tuple(arg(x) for x in (t[3] if len(t) > 3 else [])))
            elif k == 'coroutine':
                r = N('coroutine', t[1])
            elif k == 'fndef':
                r = N('fndef', callee(t[1]))
            elif k == 'alias':
                r = N('alias', t[1], tuple(arg(x) for x in t[2]), t[3] if len(t) > 3 else '')
            elif k == 'const':
                v = t[1]
                r = N('cval', v) if isinstance(v, int) else N('cparam', v[1], v[2]) if isinstance(v, list) and v and v[0] == 'cparam' else N('cunk', str(v))
            elif k == 'dyn':
                r = N('dyn', t[1])
            else:
                r = N('other', str(t[1:]))
            busy.discard(i)
            out[i] = r
            return r
        for i in range(len(raw)):
            ty(i)
        return out, callee

    def _load(self, crate, d):
        T, callee = self._types(d['types'])
        self.raw[crate], self.T[crate] = d, T

        def op(o):
            if o[0] in ('cp', 'mv'):
                return (o[0], place(o[1]))
            k = dict(o[1]) if len(o) > 1 and isinstance(o[1], dict) else {'opaque': str(o)}
            if isinstance(k.get('ty'), int):
                k['ty'] = T[k['ty']]
            if 'fn' in k:
                k['callee'] = callee(k['fn'])
            if 'cargs' in k:
                k['cargs'] = tuple(T[x] if isinstance(x, int) else N('carg', str(x)) for x in k['cargs'])
            if 'val' in k:
                k['val'] = cv(k['val'])
            return ('k', k)

        def cv(v):
            if not isinstance(v, dict):
                return v
            v = dict(v)
            if 'agg' in v:
                v['agg'] = T[v['agg']] if isinstance(v['agg'], int) else v['agg']
                v['fields'] = [cv(x) for x in v['fields']]
            if 'seq' in v:
                v['seq'] = [cv(x) for x in v['seq']]
            if 'ref' in v:
                v['ref'] = cv(v['ref'])
            return v

        def place(p):
            return (p[0], tuple(tuple(T[x] if (e[0] == 'f' and j == 2 and isinstance(x, int)) else x for j, x in enumerate(e)) for e in p[1]))

        def rv(r):
            k = r[0]
            if k == 'use':
                return ('use', op(r[1]))
            if k == 'rep':
                n = r[2]
                return ('rep', op(r[1]), n if isinstance(n, int) else N('cparam', n[1], n[2]) if isinstance(n, list) and n and n[0] == 'cparam' else N('cunk', str(n)))
            if k == 'ref':
                return ('ref', r[1], place(r[2]))
            if k == 'cast':
                return ('cast', r[1], op(r[2]), T[r[3]])
            if k == 'bin':
                return ('bin', r[1], op(r[2]), op(r[3]))
            if k == 'un':
                return ('un', r[1], op(r[2]))
            if k == 'discr':
                return ('discr', place(r[1]))
            if k == 'agg':
                kd = list(r[1])
                if kd[0] == 'adt':
                    kd[3] = tuple(T[x] if isinstance(x, int) else N('carg', str(x)) for x in kd[3])
                elif kd[0] == 'array':
                    kd[1] = T[kd[1]]
                elif kd[0] == 'closure':
                    kd[2] = None
                return ('agg', tuple(kd), tuple(op(x) for x in r[2]))
            return ('other', json.dumps(r)[:200])

        def term(t):
            k = t[0]
            if k == 'switch':
                return ('switch', op(t[1]), [(v, b) for v, b in t[2]], t[3], T[t[4]] if isinstance(t[4], int) else t[4], t[5] if len(t) > 5 else '')
            if k == 'call':
                return ('call', op(t[1]), [op(a) for a in t[2]], place(t[3]), t[4], t[5], T[t[6]])
            if k == 'drop':
                return ('drop', place(t[1]), t[2], t[3] if len(t) > 3 else '')
            if k == 'assert':
                return ('assert', op(t[1]), t[2], t[3], t[4], [op(x) for x in t[5]], t[6], t[7])
            return tuple(t)

        def body(b):
            if b is None:
                return None
            o = Body()
            o.argc = b['argc']
            o.locals = [T[x] for x in b['locals']]
            o.span = b.get('span')
            o.names = b.get('names')
            o.spread = b.get('spread')
            o.hdr = None
            o.blocks = []
            for bl in b['blocks']:
                if bl is None:
                    o.blocks.append(None)
                    continue
                sts = []
                for s in bl[0]:
                    if s[0] == '=':
                        sts.append(('=', place(s[1]), rv(s[2]), s[3] if len(s) > 3 else ''))
                    elif s[0] == 'sd':
                        sts.append(('sd', place(s[1]), s[2]))
                    elif s[0] == 'intr':
                        sts.append(('intr',) + tuple(s[1:]))
                o.blocks.append((sts, term(bl[1])))
            return o

        for raw in d['fns'] + d['ext']:
            if raw['id'] in self.fns and raw in d['ext']:
                continue
            f = Fn()
            f.id, f.name, f.crate = raw['id'], raw['name'], crate
            f.raw = raw
            f.kind = raw.get('kind', 'Ext')
            f.ext = 'kind' not in raw
            f.generics = [tuple(g) for g in raw['generics']] if raw.get('generics') is not None else None
            f.parent = raw.get('parent')
            f.coroutine = raw.get('coroutine')
            f.body = (body, raw['body'])
            f.promoted = (body, raw.get('promoted') or [])
            self.fns[f.id] = f
            self.byname.setdefault(f.name, []).append(f)
        for a in d['adts']:
            if a['name'] in self.adts:
                continue
            vs = []
            for v in a['variants']:
                vs.append((v[0], v[1], [(fl[0], T[fl[1]] if isinstance(fl[1], int) else None) for fl in v[2]]))
            self.adts[a['name']] = {'name': a['name'], 'kind': a['kind'], 'generics': [tuple(g) for g in a['generics']],
                                    'variants': vs, 'local': a['local'], 'crate': crate, 'raw': a}
        for im in d['impls']:
            e = {'trait': im['trait'], 'args': tuple(T[x] if isinstance(x, int) else N('carg', str(x)) for x in im['args']), 'methods': dict((m[0], m[1]) for m in im['methods']), 'raw': im}
            self.impls.setdefault(im['trait'], []).append(e)
        for c in d['consts']:
            f = Fn()
            f.id, f.name, f.crate, f.raw, f.kind, f.ext = c['id'], c['name'], crate, c, 'Const', False
            f.generics, f.parent, f.coroutine = [], None, None
            f.body = (body, c['body'])
            f.promoted = (body, c.get('promoted') or [])
            self.consts[c['id']] = f

    def body(self, f):
        if isinstance(f.body, tuple):
            fn, raw = f.body
            f.body = fn(raw)
        return f.body

    def prom(self, f, i):
        if isinstance(f.promoted, tuple):
            fn, raw = f.promoted
            f.promoted = [fn(x) for x in raw]
        return f.promoted[i]

    def generics_of(self, f):
        while f.generics is None and f.parent in self.fns:
            f = self.fns[f.parent]
        return f.generics or []

    def find(self, name):
        return self.byname.get(name, [])


def subst(t, m):
    """replace type parameters (by index) using dict m"""
    if not m or not isinstance(t, Node):
        return t
    op = t.op
    if op == 'param':
        return m.get(t.a[1], t)
    if op == 'cparam':
        return m.get(t.a[1], t)
    if op in ('int', 'bool', 'str', 'never', 'cval', 'dyn', 'other', 'coroutine', 'carg'):
        return t
    ch = []
    changed = False
    for x in t.a:
        if isinstance(x, Node):
            y = subst(x, m)
        elif isinstance(x, tuple):
            y = tuple(subst(z, m) if isinstance(z, Node) else z for z in x)
            if all(p is q for p, q in zip(x, y)):
                y = x
        else:
            y = x
        if y is not x:
            changed = True
        ch.append(y)
    if not changed:
        return t
    if op == 'array' and isinstance(ch[1], Node) and ch[1].op == 'cval':
        ch[1] = ch[1].a[0]
    return N(op, *ch)


def unify(pat, t, m):
    """match type pattern with params against concrete t"""
    if not isinstance(pat, Node):
        if isinstance(pat, tuple):
            return isinstance(t, tuple) and len(pat) == len(t) and all(unify(a, b, m) for a, b in zip(pat, t))
        if isinstance(t, Node) and t.op == 'cval':
            t = t.a[0]
        return pat == t
    if pat.op in ('param', 'cparam'):
        k = pat.a[1]
        if pat.op == 'cparam' and isinstance(t, int):
            t = N('cval', t)
        if k in m:
            return m[k] is t
        m[k] = t
        return True
    if not isinstance(t, Node):
        return pat.op == 'cval' and pat.a[0] == t
    if pat is t:
        return True
    if pat.op != t.op or len(pat.a) != len(t.a):
        return False
    return all(unify(a, b, m) for a, b in zip(pat.a, t.a))
