"""Whole-workspace rules over the facts: unsafe operations, and who can reach the application's handlers."""
import re
from fw import *
from terms import show

CLI = 'nora_ssh::server::Client'
HND = 'nora_ssh::server::ServerHandlers'
AUTHFN = 'nora_ssh::server::Server::authenticate_new_client'


def walk(x):
    """all JSON nodes"""
    st = [x]
    while st:
        y = st.pop()
        yield y
        if isinstance(y, dict):
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def rule(R, name, good, where, detail):
    R.put(name, PROVEN if good else REFUTED, where, '' if good else detail)


def line(span):
    m = re.search(r':(\d+)$', span or '')
    return int(m.group(1)) if m else None


# ------------------------------------------------------------------ unsafe
def bytelike(t):
    """types without padding or invalid bit patterns, made of bytes"""
    if t.op == 'int':
        return t.a[0] in ('u8', 'i8')
    if t.op == 'array':
        return bytelike(t.a[0])
    if t.op == 'adt' and t.a[0] == 'generic_array::GenericArray':
        return bytelike(t.a[1][0])
    if t.op == 'alias' and re.search(r'digest::.*Output', t.a[0]):
        return True
    return False


@group('unsafe')
def g_unsafe(R, part, deep):
    P = R.P
    nf = 0
    for cr, raw in P.raw.items():
        T = P.T[cr]
        types = lambda i: T[i]
        for f in raw['fns']:
            nf += 1
            R.stats['functions'].add(f['name'])
            rule(R, 'no function is declared unsafe', not f.get('unsafe'), f['name'], 'unsafe fn')
        for u in raw['unsafe']:
            if u[0] != 'block':
                rule(R, 'no unsafe implementation, static or foreign item', False, '%s (%s)' % (u[1], u[2]), 'unsafe %s' % u[0])
                continue
            _, name, span, lo, hi, uid = u
            file = span.rsplit(':', 1)[0]
            ops = []
            for f in raw['fns']:
                if not (f['id'] == uid or f['id'].startswith(uid + '::{closure')):
                    continue
                body = f['body']
                for b in body['blocks']:
                    if not b:
                        continue
                    t = b[1]
                    if t and t[0] == 'call' and isinstance(t[5], str) and t[5].rsplit(':', 1)[0] == file and lo <= (line(t[5]) or -1) <= hi:
                        k = t[1][1].get('fn') if t[1][0] == 'k' and isinstance(t[1][1], dict) else None
                        if k is None:
                            ops.append(('call through a pointer', None))
                        elif k.get('unsafe'):
                            ops.append((k['name'], k))
                # dereferences of raw pointers anywhere in the body of the function
                raws = {i for i, t in enumerate(body['locals']) if types(t).op in ('ptr', 'rawptr')}
                for x in walk(body['blocks']):
                    if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[0] in raws and x[1] and x[1][0] == ['d']:
                        ops.append(('dereference of a raw pointer', None))
            for what, k in ops or [('operation of unknown kind', None)]:
                good = False
                if k is not None and k['id'].startswith('core::slice::') and what.endswith('slice::align_to'):
                    a = [types(x) for x in k['args'] if isinstance(x, int)]
                    good = len(a) == 2 and bytelike(a[0]) and show(a[1]) == 'int(u8)'
                    what += '::<%s>' % ', '.join(show(x)[:60] for x in a)
                R.stats['calls'] += 1
                rule(R, 'every unsafe operation is a cast of byte arrays to bytes', good, '%s (%s)' % (name, span), 'unsafe operation: %s' % what)
    R.put('no function is declared unsafe', PROVEN, '%d functions' % nf)
    R.put('no unsafe implementation, static or foreign item', PROVEN, 'workspace')
    R.put('every unsafe operation is a cast of byte arrays to bytes', PROVEN, 'workspace')


# ------------------------------------------------------------------ call graph
def edges(raw):
    """function id -> ids it may call or create (calls, function values, closures)"""
    out, calls, aggs = {}, {}, {}
    for f in raw['fns']:
        es, cs, ag = set(), [], []
        for x in walk([f['body']['blocks'], [p['blocks'] for p in f.get('promoted') or []]]):
            if isinstance(x, dict) and isinstance(x.get('fn'), dict):
                k = x['fn']
                es.add(k.get('rid') or k['id'])
                es.add(k['id'])
                cs.append(k['name'])
            elif isinstance(x, list) and len(x) == 3 and x[0] == 'agg' and isinstance(x[1], list):
                if x[1][0] in ('coroutine', 'closure'):
                    es.add(x[1][1])
                elif x[1][0] == 'adt':
                    ag.append(x[1][1])
        out[f['id']] = es
        calls[f['id']] = cs
        aggs[f['id']] = ag
    return out, calls, aggs


@group('callgraph')
def g_callgraph(R, part, deep):
    P = R.P
    raw = P.raw['nora_ssh']
    E, calls, aggs = edges(raw)
    names = {f['id']: f['name'] for f in raw['fns']}
    ids = {n: i for i, n in names.items()}
    R.stats['functions'] |= set(names.values())

    def reach(cut):
        called = {y for x, ys in E.items() for y in ys if y != x}
        todo = [i for i in E if i not in called or next(f for f in raw['fns'] if f['id'] == i).get('vis')]
        todo = [i for i in todo if i not in cut]
        seen, via = set(todo), {}
        while todo:
            x = todo.pop()
            for y in E.get(x, ()):
                if y not in seen and y in E and y not in cut:
                    seen.add(y)
                    via[y] = x
                    todo.append(y)
        return seen, via

    def path(i, via):
        p = [names[i]]
        while i in via:
            i = via[i]
            p.append(names[i])
        return ' <- '.join(p[:6])
    auth, start = ids.get(AUTHFN), ids.get(CLI + '::start')
    if auth is None or start is None:
        raise Missing(AUTHFN if auth is None else CLI + '::start')
    # a helper of the function itself is fine: reachability is computed with the function removed
    seen, via = reach({auth})
    made = [i for i in aggs if CLI in aggs[i]]
    if not made:
        raise Missing('construction of ' + CLI)
    for i in made:
        rule(R, 'connections are created only by authentication', i not in seen, names[i], 'a Client is created on the path %s, which does not pass authenticate_new_client' % path(i, via))
    seen, via = reach({start})
    n = 0
    for i, cs in calls.items():
        if HND + '::spawn' in cs:
            n += 1
            rule(R, 'programs are started only by authenticated connections', i not in seen, names[i], 'spawn is called on the path %s, which does not pass Client::start' % path(i, via))
    if not n:
        raise Missing('call of ' + HND + '::spawn')
    R.stats['paths'] += n + len(made)
