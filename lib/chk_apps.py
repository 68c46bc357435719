"""The applications: example server handlers (C27, C28) and scp (C29-C32)."""
from fw import *
from chk_pkt import nopanic, async_run
from chk_server import out2, same, seqof
import models
from models import COW, as_slice, mkvec, fut, as_it, consume, norm

SSHD = '<nora_sshd::Handlers as nora_ssh::server::ServerHandlers>::'
BYTES = N('ref', False, N('slice', U8))


def osbytes(E, st, v):
    """bytes of an OsStr / OsString / Path / str / byte slice value or reference to one"""
    for _ in range(4):
        if v.op == 'agg' and v.a[0] == 'adt' and v.a[1] == COW:
            v = v.a[3][0]
        if v.op == 'agg' and v.a[0] == 'vec':
            return v.a[3][0]
        if v.op == 'seq':
            return v
        if v.op == 'agg' and v.a[0] in ('box', 'refmut', 'pin'):
            v = v.a[3][0]
            continue
        if v.op == 'ptr':
            w = E.get(st, v)
            if w.op in ('ptr',) or w.op == 'agg' and (w.a[0] in ('vec', 'box', 'refmut') or w.a[1] == COW):
                v = w
                continue
            if w.op == 'seq':
                return w
            return seqof(E, st, v)
        break
    t = E.unk('os string of ' + v.op)
    return mkseq([S(t, K(0), lenatom(t))])


def osview(E, st, p):
    """pointer to an OsString / PathBuf / OsStr ... -> slice pointer"""
    return as_slice(E, st, p)


def ident(E, st, c, args, dty):
    return [(st, as_slice(E, st, args[0]))]


OSVIEW = ['std::os::unix::ffi::os_str::OsStrExt::from_bytes', 'std::os::unix::ffi::os_str::OsStrExt::as_bytes',
          '<std::ffi::os_str::OsString as core::ops::deref::Deref>::deref', '<std::path::PathBuf as core::ops::deref::Deref>::deref',
          'std::ffi::os_str::OsStr::new', 'std::path::Path::new', 'std::path::Path::as_os_str', 'std::ffi::os_str::OsString::as_os_str',
          'std::path::PathBuf::as_path', 'std::path::Path::as_path', '<std::ffi::os_str::OsStr as core::convert::AsRef<std::path::Path>>::as_ref',
          '<std::path::PathBuf as core::convert::AsRef<std::path::Path>>::as_ref', '<str as core::convert::AsRef<std::path::Path>>::as_ref',
          '<str as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref', '<std::path::Path as core::convert::AsRef<std::path::Path>>::as_ref',
          '<std::path::Path as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref', '<std::ffi::os_str::OsStr as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref',
          '<std::ffi::os_str::OsString as core::convert::AsRef<std::path::Path>>::as_ref', '<std::ffi::os_str::OsString as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref']


def over_os(E):
    for n in OSVIEW:
        E.over[n] = ident

    def owned(E, st, c, args, dty):
        return [(st, mkvec(osbytes(E, st, args[0])))]
    for n in ('std::ffi::os_str::OsStr::to_os_string', 'std::path::Path::to_path_buf', 'std::ffi::os_str::OsStr::to_owned',
              '<std::ffi::os_str::OsStr as alloc::borrow::ToOwned>::to_owned', '<std::path::Path as alloc::borrow::ToOwned>::to_owned',
              '<std::path::PathBuf as core::clone::Clone>::clone', '<std::ffi::os_str::OsString as core::clone::Clone>::clone',
              '<std::path::PathBuf as core::convert::From<std::ffi::os_str::OsString>>::from', 'std::os::unix::ffi::os_str::OsStringExt::from_vec',
              '<std::path::PathBuf as core::convert::From<&T>>::from', '<std::ffi::os_str::OsString as core::convert::From<&T>>::from',
              '<std::path::PathBuf as core::convert::From<alloc::string::String>>::from',
              'std::path::PathBuf::into_os_string', 'std::ffi::os_str::OsString::into_vec', 'std::os::unix::ffi::os_str::OsStringExt::into_vec'):
        E.over[n] = owned

    def to_str(E, st, c, args, dty):
        p = as_slice(E, st, args[0])
        q = E.seq_of(st, p)
        h = has_pred(E, st, 'utf8', q)
        if h is None and st.prove(models.asciif(E, st, q)):
            h = True
        f = TRUE if h else FALSE if h is False else N('pred', 'utf8', q)
        return [(n, some(p) if g else NONE) for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]
    E.over['std::ffi::os_str::OsStr::to_str'] = to_str
    E.over['std::path::Path::to_str'] = to_str

    def into_string(E, st, c, args, dty):
        q = osbytes(E, st, args[0])
        f = TRUE if has_pred(E, st, 'utf8', q) else N('pred', 'utf8', q)
        return [(n, ok(mkvec(q)) if g else err(mkvec(q))) for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]
    E.over['std::ffi::os_str::OsString::into_string'] = into_string

    def lossy(E, st, c, args, dty):
        p = as_slice(E, st, args[0])
        q = E.seq_of(st, p)
        h = has_pred(E, st, 'utf8', q)
        if h is None and st.prove(models.asciif(E, st, q)):
            h = True
        f = TRUE if h else FALSE if h is False else N('pred', 'utf8', q)
        t = N('lossy', q)       # differs from q: it is UTF-8, q is not
        return [(n, adt(COW, 0, p) if g else adt(COW, 1, mkvec(mkseq([S(t, K(0), lenatom(t))]))))
                for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]
    for n in ('std::ffi::os_str::OsStr::to_string_lossy', 'std::path::Path::to_string_lossy', 'alloc::string::String::from_utf8_lossy',
              'std::path::Path::display', 'std::ffi::os_str::OsStr::display'):
        E.over[n] = lossy


# ------------------------------------------------------------------ authentication of the example server
def over_ed25519(E):
    def tosig(E, st, v):
        p = as_slice(E, st, v)
        q = E.seq_of(st, p)
        good, bad = st, st.clone()
        good.dec += 1
        bad.dec += 1
        out = [(bad, None)]
        # bytes of another length are never a signature; 64 bytes may be malformed
        if good.assume(eq0(lsub(seqlen(q), K(64)))):
            out.append((good, N('sym', N('edsig', q), N('adt', 'ed25519::Signature', ()))))
        return out

    def from_sig(E, st, c, args, dty):
        return [(n, err(N('sym', N('sigerr'), UNKTY)) if v is None else ok(v)) for n, v in tosig(E, st, args[0])]

    def try_into(E, st, c, args, dty):
        t = dty.a[1][0] if dty.op == 'adt' and dty.a[0] == RES else UNKTY
        if t.op == 'adt' and t.a[0].startswith('ed25519::'):
            return from_sig(E, st, c, args, dty)
        if t.op == 'ref' and t.a[1].op == 'slice':
            return [(st, ok(args[0]))]
        return None
    E.over['<T as core::convert::TryInto<U>>::try_into'] = try_into
    E.over['core::convert::TryInto::try_into'] = try_into

    def try_from(E, st, c, args, dty):
        return try_into(E, st, c, args, dty)
    E.over['core::convert::TryFrom::try_from'] = try_from
    for n in ('ed25519::Signature::from_bytes', 'signature::signature::Signature::from_bytes', 'ed25519::Signature::try_from'):
        E.over[n] = from_sig

    def from_bytes(E, st, c, args, dty):
        q = seqof(E, st, args[0])
        good, bad = st, st.clone()
        good.dec += 1
        bad.dec += 1
        out = [(bad, err(N('sym', N('keyerr'), UNKTY)))]
        if good.assume(eq0(lsub(seqlen(q), K(32)))):
            out.append((good, ok(N('sym', N('edkey', q), N('adt', 'ed25519_dalek::public::PublicKey', ())))))
        return out
    E.over['ed25519_dalek::public::PublicKey::from_bytes'] = from_bytes

    def verify(E, st, c, args, dty):
        k = E.get(st, args[0]) if args[0].op == 'ptr' else args[0]
        m = seqof(E, st, args[1])
        s = E.get(st, args[2]) if args[2].op == 'ptr' else args[2]

        def good(x):
            x.emit('verify', k, m, s, 'Ok')
            return x, ok(UNIT)

        def bad(x):
            x.emit('verify', k, m, s, 'Err')
            return x, err(N('sym', N('verifyerr'), UNKTY))
        return out2(st, good, bad)
    for n in ('signature::verifier::Verifier::verify', 'ed25519_dalek::public::PublicKey::verify_strict', 'ed25519_dalek::public::PublicKey::verify'):
        E.over[n] = verify


def sym_bytes(E, name):
    return kptr_sym(E, N(name))


def kptr_sym(E, t):
    return E.sym_ref(t, N('slice', U8))


ALG = b'ssh-ed25519'


@group('sshd_auth', ['authenticate', 'exists'])
def g_sshd_auth(R, part, deep):
    P = R.P
    E = R.eng()
    over_os(E)
    over_ed25519(E)
    me = E.sym_ref(N('handlers'), N('adt', 'nora_sshd::Handlers', ()))
    user, svc = kptr_sym(E, N('user')), kptr_sym(E, N('service'))
    if part == 'exists':
        f = fn(P, SSHD + 'public_key_exists')
        alg, key = kptr_sym(E, N('algorithm')), kptr_sym(E, N('key'))
        for st, r in async_run(E, f, [me, user, svc, alg, key], St()):
            eq = st.decide(seqeq(E, st, seqof(E, st, alg), lit(ALG)))
            vn = vname(E, st, r)
            if vn == 'Ok':
                R.check('keys of other algorithms do not exist', st, eq is True, f.name, 'accepts a key whose algorithm is not shown to be ssh-ed25519')
            elif vn == 'Err':
                R.check('ssh-ed25519 keys may be tried', st, eq is not True or None if eq is None else eq is False, f.name, 'refuses an ssh-ed25519 key')
            else:
                R.put('keys of other algorithms do not exist', UNKNOWN, f.name, 'result not understood')
        nopanic(R, E, 'no attempt panics', f.name, 'for some key query')
        R.want('keys of other algorithms do not exist')
        R.absorb(E)
        return
    f = fn(P, SSHD + 'authenticate')
    W = f.name
    au = N('sym', N('auth'), N('adt', 'nora_ssh::auth::Auth', ()))
    for st, r in async_run(E, f, [me, user, svc, au], St()):
        vn = vname(E, st, r)
        kind = vname(E, st, au)
        ver = [e for e in st.events() if e[0] == 'verify']
        good = [e for e in ver if e[4] == 'Ok']
        if vn not in ('Ok', 'Err'):
            R.put('only public keys are accepted', UNKNOWN, W, 'result not understood')
            continue
        if vn == 'Ok':
            R.check('only public keys are accepted', st, kind == 'PublicKey', W, 'accepts an attempt of kind %s' % kind, au)
            if kind != 'PublicKey':
                continue
        if kind == 'PublicKey':
            q = {x: seqof(E, st, field(E, st, au, x)) for x in ('algorithm', 'key', 'signature', 'message')}
            alg = st.decide(seqeq(E, st, q['algorithm'], lit(ALG)))
            full = [e for e in good if e[1].op == 'sym' and e[1].a[0].op == 'edkey' and seq_same(E, st, e[1].a[0].a[0], q['key'])
                    and seq_same(E, st, e[2], q['message'])
                    and e[3].op == 'sym' and e[3].a[0].op == 'edsig' and seq_same(E, st, e[3].a[0].a[0], q['signature'])]
        if vn == 'Ok':
            R.check('only ssh-ed25519 is accepted', st, alg is True, W, 'accepts an algorithm not shown to be ssh-ed25519')
            im = [x for e in ver for x in e[1:4]]
            R.check('accepted only if the signature over the message verifies under the key', st, bool(full) and len(good) == len(ver), W,
                    'accepts after %s' % ([(show(e[1])[:60], show(e[2])[:60], show(e[3])[:60], e[4]) for e in ver] or 'no verification'), *im)
        elif kind == 'PublicKey':
            # a verified attempt of a user whose name is text is accepted
            u = has_pred(E, st, 'utf8', seqof(E, st, user))
            R.check('verified attempts are accepted', st, not (full and len(good) == len(ver) and alg is not False and u is not False) or None, W,
                    'refuses although the signature verifies', au)
    nopanic(R, E, 'no attempt panics', W, 'for some authentication attempt')
    R.want('only public keys are accepted', 'only ssh-ed25519 is accepted', 'accepted only if the signature over the message verifies under the key')
    R.absorb(E)


# ------------------------------------------------------------------ listening of the example server
def over_listener(E, fails):
    """accept yields a connection or, up to `fails` times on a path, an error"""
    LST = 'async_std::net::tcp::listener::TcpListener::'
    N0 = lambda s: s.gh.get('accepts', 0)

    def outcome(E, s):
        k = N0(s)
        s.gh['accepts'] = k + 1

        def good(x):
            x.emit('accept', k, 'Ok')
            return x, ok(N('agg', 'tuple', '', 0, (N('sym', N('conn', k), N('adt', 'async_std::net::tcp::stream::TcpStream', ())),
                                                   N('sym', N('peeraddr', k), UNKTY)), ()))

        def bad(x):
            x.emit('accept', k, 'Err')
            return x, err(models.io_err(E, x, 'accept', N('conn', k)))
        return out2(s, good, bad, only='Ok' if k >= fails else None)

    E.over[LST + 'accept'] = lambda E, st, c, args, dty: [(st, fut('py', lambda E, s, *a: outcome(E, s)))]

    def incoming(E, st, c, args, dty):
        return [(st, N('agg', 'incoming', '', 0, (), ()))]
    E.over[LST + 'incoming'] = incoming

    def nxt(E, st, c, args, dty):
        def poll(E, s, *a):
            return [(n, some(v if v.a[2] else ok(v.a[3][0].a[3][0]))) for n, v in outcome(E, s)]
        return [(st, fut('py', poll))]
    for n in ('futures_util::stream::stream::StreamExt::next', 'async_std::stream::stream::StreamExt::next'):
        E.over[n] = nxt

    def split(E, st, c, args, dty):
        v = args[0]
        t = v.a[0] if v.op == 'sym' else E.unk('stream')
        return [(st, N('agg', 'tuple', '', 0, (N('sym', N('rhalf', t), UNKTY), N('sym', N('whalf', t), UNKTY)), ()))]
    E.over['futures_util::io::AsyncReadExt::split'] = split

    def addr(E, st, v):
        v = E.get(st, norm(E, st, v)) if v.op == 'ptr' else v
        return v.a[0] if v.op == 'sym' else E.unk('address')
    SA = ('core::net::socket_addr::SocketAddr::', 'std::net::SocketAddr::', 'core::net::ip_addr::IpAddr::')
    for n in SA:
        for m in ('is_ipv4', 'is_ipv6', 'is_loopback', 'is_unspecified', 'is_multicast'):
            E.over[n + m] = lambda E, st, c, args, dty, m=m: [(st, N('pred', m, addr(E, st, args[0])))]
        E.over[n + 'port'] = lambda E, st, c, args, dty: [(st, iv(N('port', addr(E, st, args[0])), 'u16'))]
        E.over[n + 'ip'] = lambda E, st, c, args, dty: [(st, N('sym', N('ip', addr(E, st, args[0])), N('adt', 'core::net::ip_addr::IpAddr', ())))]
    E.over['async_std::net::tcp::stream::TcpStream::peer_addr'] = lambda E, st, c, args, dty: out2(
        st, lambda x: (x, ok(N('sym', N('peeraddr', addr(E, x, args[0])), UNKTY))), lambda x: (x, err(models.io_err(E, x, 'peer_addr', addr(E, x, args[0])))))
    E.over['async_std::net::tcp::stream::TcpStream::set_nodelay'] = lambda E, st, c, args, dty: out2(
        st, lambda x: (x, ok(UNIT)), lambda x: (x, err(models.io_err(E, x, 'set_nodelay', addr(E, x, args[0])))))

    def pause(E, st, c, args, dty):
        def poll(E, s, *a):
            s.emit('pause')
            return [(s, UNIT)]
        return [(st, fut('py', poll))]
    for n in ('async_std::task::sleep::sleep', 'async_std::task::yield_now::yield_now', 'async_io::Timer::after', 'futures_timer::native::delay::Delay::new'):
        E.over[n] = pause


@group('sshd_accept')
def g_sshd_accept(R, part, deep):
    P = R.P
    E = R.eng()
    E.itbound = 12
    over_listener(E, 4 if deep else 3)
    f = fn(P, SSHD + 'accept')
    W = f.name
    me = E.sym_ref(N('handlers'), N('adt', 'nora_sshd::Handlers', ()))
    seen = set()
    for st, r in async_run(E, f, [me], St()):
        ev = [e for e in st.events() if e[0] in ('accept', 'pause')]
        acc = [e for e in ev if e[0] == 'accept']
        seen.add(len(acc))
        good = [e for e in acc if e[2] == 'Ok']
        R.check('one connection is accepted and handed over', st, len(good) == 1 if acc else None, W,
                'accepts %d connections and hands over one' % len(good))
        if len(good) == 1:
            v = r.a[3] if r.op == 'agg' and r.a[0] == 'tuple' else None
            t = [x.a[0] if x.op == 'sym' else None for x in v] if v and len(v) == 2 else None
            k = N('conn', good[0][1])
            R.check('the halves are those of the accepted connection', st, None if t is None or None in t else t[0] is N('rhalf', k) and t[1] is N('whalf', k), W,
                    'returns %s' % show(r)[:100], r)
        for i, e in enumerate(ev):
            if e[0] == 'accept' and e[2] == 'Err' and i + 1 < len(ev):
                R.check('a failed accept is retried only after a pause', st, ev[i + 1][0] == 'pause', W,
                        'accepts again at once after a failure: with a persistent failure no other task of the thread runs again')
    nopanic(R, E, 'no failing accept panics', W, 'when accepting a connection fails')
    R.check('serving goes on after any number of failed accepts', St(), max(seen or {0}) > (4 if deep else 3), W, 'accept is not tried again after a failure')
    R.want('one connection is accepted and handed over', 'the halves are those of the accepted connection')
    R.absorb(E)


# ------------------------------------------------------------------ programs of the example server
CHILD = 'async_process::Child'
CMD = 'async_process::Command::'


def over_process(E):
    """Command is ('cmd': program, arguments, stdin, stdout, stderr); spawn yields a Child whose pipes exist iff piped"""
    def new(E, st, c, args, dty):
        return [(st, N('agg', 'cmd', '', 0, (osbytes(E, st, args[0]), N('arr', ()), K(0), K(0), K(0)), ()))]
    E.over[CMD + 'new'] = new

    def upd(i, f):
        def g(E, st, c, args, dty):
            p = norm(E, st, args[0])
            v = E.get(st, p)
            if v.op != 'agg' or v.a[0] != 'cmd':
                return None
            out = []
            for n, x in f(E, st, v, args[1]):
                fs = list(v.a[3])
                fs[i] = x
                E.put(n, p, N('agg', 'cmd', '', 0, tuple(fs), ()))
                out.append((n, args[0]))
            return out
        return g

    def arg(E, st, v, a):
        return [(st, N('arr', v.a[3][1].a[0] + (osbytes(E, st, a),)))]

    def args_(E, st, v, a):
        i = as_it(E, st, a)
        if a.op == 'ptr' and (i is None or i.a[1] == 'user'):
            w = E.get(st, a)
            if w.op in ('seq', 'arr', 'sarr') or (w.op == 'agg' and w.a[0] == 'vec'):
                i = models.it('slice', as_slice(E, st, a))
        elif a.op == 'agg' and a.a[0] == 'vec':
            i = models.it('arr', a.a[3][0], K(0))
        elif a.op == 'arr':
            i = models.it('arr', a, K(0))
        if i is None:
            return [(st, N('arr', (N('sym', E.unk('arguments'), UNKTY),)))]
        return [(n, N('arr', v.a[3][1].a[0] + acc)) for n, _, acc, _ in
                consume(E, st, i, lambda E, st, acc, x: [(st, acc + (osbytes(E, st, x),), False)], ())]

    E.over[CMD + 'arg'] = upd(1, arg)
    E.over[CMD + 'args'] = upd(1, args_)
    for i, s in enumerate(('stdin', 'stdout', 'stderr')):
        E.over[CMD + s] = upd(2 + i, lambda E, st, v, a: [(st, a)])
    E.over['std::process::Stdio::piped'] = lambda E, st, c, args, dty: [(st, K(1))]
    E.over['std::process::Stdio::null'] = lambda E, st, c, args, dty: [(st, K(2))]
    E.over['std::process::Stdio::inherit'] = lambda E, st, c, args, dty: [(st, K(3))]

    def spawn(E, st, c, args, dty):
        v = E.get(st, norm(E, st, args[0]))
        k = st.gh.get('children', 0)
        st.gh['children'] = k + 1
        prog, ar, si, so, se = v.a[3] if v.op == 'agg' and v.a[0] == 'cmd' else (N('sym', E.unk('command'), UNKTY),) * 5

        def good(s):
            s.emit('spawn', k, prog, ar, 'Ok')
            pipe = lambda x, n: some(N('sym', N(n, k), N('adt', 'async_process::Child' + n, ()))) if x.op == 'lin' and cval(x) == 1 else \
                NONE if x.op == 'lin' else N('sym', E.unk('pipe'), UNKTY)
            return s, ok(adt(CHILD, 0, pipe(si, 'Stdin'), pipe(so, 'Stdout'), pipe(se, 'Stderr'), N('sym', N('child', k), UNKTY)))

        def bad(s):
            s.emit('spawn', k, prog, ar, 'Err')
            return s, err(models.io_err(E, s, 'spawn', N('child', k)))
        return out2(st, good, bad)
    E.over[CMD + 'spawn'] = spawn

    def status(E, st, c, args, dty):
        p = norm(E, st, args[0])
        v = E.get(st, p)
        if key_of(v) != CHILD or v.op != 'agg':
            return None
        # waiting closes the child's standard input if it is still held by the Child
        fs = list(v.a[3])
        fs[0] = NONE
        E.put(st, p, N('agg', 'adt', CHILD, 0, tuple(fs), ()))
        child = fs[3]

        def poll(E, st, *a):
            def good(s):
                s.emit('status', child, 'Ok')
                return s, ok(N('sym', N('exitof', child), N('adt', 'std::process::ExitStatus', ())))

            def bad(s):
                s.emit('status', child, 'Err')
                return s, err(models.io_err(E, s, 'status', child))
            return out2(st, good, bad)
        return [(st, fut('py', poll))]
    E.over[CHILD + '::status'] = status

    def code(E, st, c, args, dty):
        v = E.get(st, norm(E, st, args[0])) if args[0].op == 'ptr' else args[0]
        t = v.a[0] if v.op == 'sym' else E.unk('status')
        f = N('pred', 'exited', t)
        x = iv(N('code', t), 'i32')
        out = []
        for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
            if g:
                n.assume(le0(lsub(K(0), x)))
                n.assume(le0(lsub(x, K(255))))
            out.append((n, some(x) if g else NONE))
        return out
    E.over['std::process::ExitStatus::code'] = code

    def signal(E, st, c, args, dty):
        v = E.get(st, norm(E, st, args[0])) if args[0].op == 'ptr' else args[0]
        t = v.a[0] if v.op == 'sym' else E.unk('status')
        f = N('pred', 'exited', t)
        x = iv(N('signal', t), 'i32')
        out = []
        for n, g in E.branch(st, [(f, 1), (not_(f), 0)]):
            if not g:
                n.assume(le0(lsub(K(1), x)))
                n.assume(le0(lsub(x, K(127))))
            out.append((n, NONE if g else some(x)))
        return out
    E.over['std::os::unix::process::ExitStatusExt::signal'] = signal

    def success(E, st, c, args, dty):
        v = E.get(st, norm(E, st, args[0])) if args[0].op == 'ptr' else args[0]
        t = v.a[0] if v.op == 'sym' else E.unk('status')
        return [(st, and_([N('pred', 'exited', t), eq0(iv(N('code', t), 'i32'))]))]
    E.over['std::process::ExitStatus::success'] = success

    def var_os(E, st, c, args, dty):
        name = osbytes(E, st, args[0])
        q = mkseq([S(N('env', name), K(0), lenatom(N('env', name)))])
        f = N('pred', 'envset', name)
        return [(n, some(mkvec(q)) if g else NONE) for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]
    E.over['std::env::var_os'] = var_os

    def var(E, st, c, args, dty):
        out = []
        for n, r in var_os(E, st, c, args, dty):
            if r is NONE:
                out.append((n, err(N('sym', N('varerr'), UNKTY))))
                continue
            f = N('pred', 'utf8', r.a[3][0].a[3][0])
            out += [(m, ok(r.a[3][0]) if g else err(N('sym', N('varerr'), UNKTY))) for m, g in E.branch(n, [(f, 1), (not_(f), 0)])]
        return out
    E.over['std::env::var'] = var


WS = (9, 10, 12, 13, 32)


def words(E, st, q, n):
    """reference splitting of the n bytes q: [(st, [word, ...])]"""
    outs = [(st, [], None)]
    for i in range(n):
        nxt = []
        for s, ws, cur in outs:
            b = segs_int(E.slice_seq(s, q, K(i), K(1)).a[0])
            f = or_([eq0(lsub(b, K(c))) for c in WS])
            for s2, g in E.branch(s, [(f, 1), (not_(f), 0)]):
                if g:
                    nxt.append((s2, ws + [cur] if cur else ws, None))
                else:
                    nxt.append((s2, ws, (cur[0], i + 1) if cur else (i, i + 1)))
        outs = nxt
    return [(s, [E.slice_seq(s, q, K(a), K(b - a)) for a, b in (ws + [cur] if cur else ws)]) for s, ws, cur in outs]


@group('sshd_spawn', lambda deep: ['shell', 'many', 'long'] + ['exec%d' % n for n in range(0, 11 if deep else 8)])
def g_sshd_spawn(R, part, deep):
    P = R.P
    E = R.eng()
    E.itbound = 12
    over_os(E)
    over_process(E)
    f = fn(P, SSHD + 'spawn')
    W = f.name
    me = E.sym_ref(N('handlers'), N('adt', 'nora_sshd::Handlers', ()))
    user = E.sym_ref(N('user'), N('adt', 'nora_sshd::User', ()))
    data = kptr_sym(E, N('data'))
    SP = 'nora_ssh::server::SpawnType'
    st = St()
    shell = part == 'shell'
    if shell:
        ty = adt(SP, vindex(E, SP, 'Shell'))
        cmd = None
    else:
        n = {'many': 79, 'long': 72}.get(part) or int(part[4:] or 0)
        cmd = mkseq([S(N('command'), K(0), K(n))]) if n else lit(b'')
        if part == 'many':
            cmd = mkseq([C(bytes([WS[i % 5]])) if i % 2 else S(N('command'), K(i), K(1)) for i in range(n)])
        ty = adt(SP, vindex(E, SP, 'Exec'), kslice(cmd))
        # longer commands of a fixed shape: forty one-letter words, or two words around one blank
        for i in range(n) if part in ('many', 'long') else ():
            ws = or_([eq0(lsub(segs_int(E.slice_seq(st, cmd, K(i), K(1)).a[0]), K(c))) for c in WS])
            st.assume(ws if (i % 2 if part == 'many' else i == 35) else not_(ws))
    SH = lit(b'SHELL')
    runs = 0
    for st, r in async_run(E, f, [me, user, ty, data], st):
        vn = vname(E, st, r)
        if vn is None:
            R.put('exactly the requested program is started', UNKNOWN, W, 'result not understood')
            continue
        if shell:
            d = st.preds.get(N('pred', 'envset', SH))
            cases = [(st, [mkseq([S(N('env', SH), K(0), lenatom(N('env', SH)))])] if d is not False else [])]
        else:
            cases = words(E, st, cmd, n)
        for st, ws in cases:
            evs = st.events()
            sp = [e for e in evs if e[0] == 'spawn']
            im = [x for e in sp for x in (e[2], e[3])]
            if not ws:
                R.check('nothing to run is a failure', st, vn == 'Err' and not sp, W, 'an empty command is %s' % ('accepted' if vn == 'Ok' else 'run'), *im)
                continue
            desc = '; '.join('%s %s' % (show(e[2])[:80], show(e[3])[:160]) for e in sp)
            good = len(sp) == 1 and seq_same(E, st, sp[0][2], ws[0]) and len(sp[0][3].a[0]) == len(ws) - 1 and \
                all(x.op == 'seq' and seq_same(E, st, x, y) for x, y in zip(sp[0][3].a[0], ws[1:]))
            if vn == 'Ok' or sp:
                R.check('exactly the requested program is started', st, good, W, 'runs %s for the words %s' % (desc or 'nothing', [show(w)[:60] for w in ws]), *im)
            if vn == 'Err':
                # refused although nothing failed
                ok_ = any(e[4] == 'Err' for e in sp) or (shell and st.decide(N('pred', 'envset', SH)) is False)
                if shell and has_pred(E, st, 'utf8', ws[0]) is False:
                    ok_ = True
                R.check('a request fails only if the program cannot be started', st, ok_ or None, W, 'refuses %s' % [show(w)[:60] for w in ws], *im)
                continue
            R.check('a program that cannot be started is a failure', st, not any(e[4] == 'Err' for e in sp), W, 'reports success although starting failed')
            if not good:
                continue
            runs += 1
            v = r.a[3][0] if r.op == 'agg' else field(E, st, r, '0')
            for nm in ('stdin', 'stdout', 'stderr'):
                x = field(E, st, v, nm)
                want = N(nm.capitalize(), 0)
                g = x.op == 'agg' and x.a[0] == 'adt' and x.a[2] == 1 and x.a[3][0].op == 'sym' and x.a[3][0].a[0] is want
                R.check('the three streams of the program are handed over', st, g, W, '%s handed over is %s' % (nm, show(x)[:100]), x)
            w = field(E, st, v, 'wait')
            base = st.clone()
            np = len(E.panics)
            for s2, x in models.poll_value(E, base, w, N('int', 'u32')):
                ev = s2.events()[len(evs):]
                stt = [e for e in ev if e[0] == 'status']
                t = N('exitof', N('sym', N('child', 0), UNKTY))
                R.check('the exit status is that of the program', s2, len(stt) >= 1 and all(e[1].op == 'sym' and e[1].a[0] is N('child', 0) for e in stt), W,
                        'waits for %s' % [show(e[1])[:60] for e in stt], x)
                if any(e[2] == 'Err' for e in stt):
                    R.check('a lost exit status is not success', s2, s2.decide(eq0(x)) is False, W, 'reports %s when waiting fails' % show(x)[:80], x)
                    continue
                ex = s2.decide(N('pred', 'exited', t))
                code = iv(N('code', t), 'i32')
                a, b = s2.clone(), s2.clone()
                if ex is not False and a.assume(N('pred', 'exited', t)) and a.assume(le0(lsub(K(0), code))) and a.assume(le0(lsub(code, K(255)))):
                    R.check('the exit code is reported unchanged', a, x.op == 'lin' and a.eq(x, code), W, 'reports %s' % show(x)[:100], x)
                if ex is not True and b.assume(not_(N('pred', 'exited', t))):
                    R.check('a program killed by a signal is not success', b, x.op == 'lin' and b.decide(eq0(x)) is False, W, 'reports %s' % show(x)[:100], x)
    nopanic(R, E, 'no request panics', W, 'for some request')
    if not runs and part not in ('exec0',):
        R.put('exactly the requested program is started', UNKNOWN, W, 'no run found')
    R.absorb(E)


# ------------------------------------------------------------------ scp
STDIN, STDOUT, STDERR = N('stdin'), N('stdout'), N('stderr')
RD, WR, BR = 'alloc::io::read::Read::', 'core::io::write::Write::', 'alloc::io::buf_read::BufRead::'


def stream(key, *x):
    return N('agg', 'stream', '', 0, (key,) + x, ())


def reader(E, st, p):
    """(key of the stream, identity of the buffer or None)"""
    q = norm(E, st, p)
    v = E.get(st, q) if q.op == 'ptr' else q
    if v.op == 'agg' and v.a[0] == 'stream':
        return v.a[3][0], (v.a[3][1] if len(v.a[3]) > 1 else None)
    return None, None


def io_fail(E, st, kind, *a):
    e = models.io_err(E, st, kind, N('op', kind))
    st.emit(kind, *a, e)
    return err(e)


EKIND = 'core::io::error::ErrorKind'


def interrupted(E, st, e):
    """a failed call that only has to be repeated"""
    if e[-1].op != 'sym' or e[0] == 'eoferr' or not E.adtdef(EKIND):
        return False
    d = E.adtdef(EKIND)['variants'][vindex(E, EKIND, 'Interrupted')][1]
    return st.decide(eq0(lsub(E.discr(st, N('sym', N('errkind', e[-1].a[0]), N('adt', EKIND, ()))), K(d)))) is True


def failure(E, st, e):
    return e[0] in FAIL and not interrupted(E, st, e)


def source(E, st, key):
    """(contents or None if free, position)"""
    return (E.stdin if key is STDIN else None), st.gh.get(('pos', key), K(0))


def use_reader(E, st, key, buf):
    last = st.gh.get(('reader', key), 0)
    if last != 0 and last is not None and last is not buf:
        st.emit('lost', key)
    st.gh[('reader', key)] = buf


def data_at(E, st, key, n):
    q, pos = source(E, st, key)
    d = mkseq([S(N('in', key), pos, n)]) if q is None else E.slice_seq(st, q, pos, n)
    return d, pos


def advance_to(st, key, pos, n):
    st.gh[('pos', key)] = st.simp(ladd(pos, n))


def fails(E, out):
    """outcomes without I/O failures where those are not part of the run"""
    return out[:-1] if getattr(E, 'nofail', False) else out


def over_scp(E, argv, script):
    """operating system and standard streams; every operation may fail"""
    E.stdin = script
    over_os(E)
    over_fmt(E)

    def args_os(E, st, c, args, dty):
        return [(st, models.it('arr', N('arr', tuple(mkvec(a) for a in argv)), K(0)))]
    E.over['std::env::args_os'] = args_os
    E.over['std::env::args'] = args_os
    for s, k in (('stdin', STDIN), ('stdout', STDOUT), ('stderr', STDERR)):
        E.over['std::io::stdio::' + s] = lambda E, st, c, args, dty, k=k: [(st, stream(k))]
        E.over['std::io::stdio::%s::lock' % s.capitalize()] = lambda E, st, c, args, dty, k=k: [(st, stream(k))]

    def bufreader(E, st, c, args, dty):
        v = args[-1]
        key = None
        if v.op == 'agg' and v.a[0] == 'stream':
            key = v.a[3][0]
        elif v.op == 'ptr':
            key, _ = reader(E, st, v)
        if key is None:
            return None
        n = st.gh.get('bufreaders', 0)
        st.gh['bufreaders'] = n + 1
        return [(st, stream(key, N('buffer', n)))]
    E.over['alloc::io::buffered::bufreader::BufReader::new'] = bufreader
    E.over['alloc::io::buffered::bufreader::BufReader::with_capacity'] = bufreader

    def by_ref(E, st, c, args, dty):
        return [(st, args[0])]
    E.over[RD + 'by_ref'] = by_ref

    def kind(E, st, c, args, dty):
        v = E.get(st, norm(E, st, args[0])) if args[0].op == 'ptr' else args[0]
        if v.op != 'sym' or v.a[0].op != 'ioerr' or not E.adtdef(EKIND):
            return None
        if v.a[0].a[0] == 'eoferr':
            return [(st, N('agg', 'adt', EKIND, vindex(E, EKIND, 'UnexpectedEof'), (), ()))]
        return [(st, N('sym', N('errkind', v.a[0]), N('adt', EKIND, ())))]

    def downcast(E, st, c, args, dty):
        v = args[0]
        for _ in range(6):
            if v.op == 'ptr' and not isslice(v):
                last, v = v, E.get(st, v)
            elif v.op == 'agg' and v.a[0] in ('box', 'dyn'):
                v = v.a[3][0]
            else:
                break
        if v.op != 'sym' or v.a[0].op != 'deref' or v.a[0].a[0].op != 'd' or 'io::error::Error' not in show(dty):
            return None
        x = v.a[0].a[0].a[0]
        if x.op != 'app' or x.a[0] != 'boxerr':
            return None
        x = x.a[1]
        if x.op == 'sym' and x.a[0].op == 'ioerr':
            return [(st, some(kptr(x)))]
        return [(st, NONE)] if x.op != 'sym' else None
    E.over['dyn::downcast_ref'] = downcast
    E.over['core::io::error::Error::kind'] = kind
    E.over['std::io::error::Error::kind'] = kind
    E.over[WR + 'by_ref'] = by_ref

    def avail(E, st, key, n):
        """[(st, are n more bytes there?)]"""
        q, pos = source(E, st, key)
        if q is None:
            b = st.clone()
            st.dec += 1
            b.dec += 1
            return [(st, True), (b, False)]
        f = le0(lsub(ladd(pos, n), seqlen(q)))
        return [(m, bool(g)) for m, g in E.branch(st, [(f, 1), (not_(f), 0)])]

    def read_exact(E, st, c, args, dty):
        key, buf = reader(E, st, args[0])
        if key is None:
            return None
        p = as_slice(E, st, args[1])
        n = slen(p)
        use_reader(E, st, key, buf)
        bad = st.clone()
        bad.dec += 1
        models.havoc_slice(E, bad, p)
        out = []
        for s, g in avail(E, st, key, n):
            if g:
                d, pos = data_at(E, s, key, n)
                models.put_slice(E, s, p, d)
                advance_to(s, key, pos, n)
                s.emit('read', key, pos, n)
                out.append((s, ok(UNIT)))
            elif key is STDIN:
                models.havoc_slice(E, s, p)
                out.append((s, io_fail(E, s, 'eoferr', key)))
        out.append((bad, io_fail(E, bad, 'readerr', key)))
        return fails(E, out)
    E.over[RD + 'read_exact'] = read_exact

    def read(E, st, c, args, dty):
        key, buf = reader(E, st, args[0])
        if key is None:
            return None
        p = as_slice(E, st, args[1])
        n = slen(p)
        use_reader(E, st, key, buf)
        bad = st.clone()
        bad.dec += 1
        out = []
        for s, g in avail(E, st, key, K(1)):
            if not g:
                s.emit('eof', key)
                out.append((s, ok(K(0))))
                continue
            if cval(s.simp(n)) == 1:
                m = K(1)
            else:
                m = iv(E.fresh(s, 'nread'), 'usize')
                q, pos = source(E, s, key)
                if not (s.assume(le0(lsub(K(1), m))) and s.assume(le0(lsub(m, n)))):
                    continue
                if q is not None and not s.assume(le0(lsub(ladd(pos, m), seqlen(q)))):
                    continue
            d, pos = data_at(E, s, key, m)
            rest = E.slice_seq(s, E.seq_of(s, p), m, lsub(n, m))
            models.put_slice(E, s, p, mkseq(d.a[0] + rest.a[0]))
            advance_to(s, key, pos, m)
            s.emit('read', key, pos, m)
            out.append((s, ok(m)))
        out.append((bad, io_fail(E, bad, 'readerr', key)))
        return fails(E, out)
    E.over[RD + 'read'] = read

    def read_until(E, st, c, args, dty):
        line = c.a[1].endswith('read_line')
        key, buf = reader(E, st, args[0])
        d = K(10) if line else args[1]
        vec = args[1 if line else 2]
        if key is None or cval(d) is None:
            return None
        use_reader(E, st, key, buf)
        bad = st.clone()
        bad.dec += 1
        q, pos = source(E, st, key)
        pat = lit(bytes([cval(d)]))
        out = []

        def take(s, n, how):
            dat, ps = data_at(E, s, key, n)
            p = norm(E, s, vec)
            v = E.get(s, p)
            if v.op != 'agg' or v.a[0] != 'vec':
                raise Cut('read_until into ' + v.op)
            E.put(s, p, mkvec(mkseq(v.a[3][0].a[0] + dat.a[0])))
            advance_to(s, key, ps, n)
            s.emit('read', key, ps, n)
            if how:
                s.emit('eof', key)
            if line:
                f = TRUE if has_pred(E, s, 'utf8', dat) else N('pred', 'utf8', dat)
                for m, g in E.branch(s, [(f, 1), (not_(f), 0)]):
                    out.append((m, ok(n) if g else io_fail(E, m, 'readerr', key)))
            else:
                out.append((s, ok(n)))
        if q is None:
            e = st.clone()
            e.dec += 1
            st.dec += 1
            for s, how in ((st, False), (e, True)):
                n = iv(E.fresh(s, 'line'), 'usize')
                s.assume(le0(lsub(n, K(2 ** 40))))
                if not how:
                    s.assume(le0(lsub(K(1), n)))
                    last = iv_byte(E, s, key, ladd(pos, lsub(n, K(1))))
                    s.assume(eq0(lsub(last, d)))
                take(s, n, how)
        else:
            rest = E.slice_seq(st, q, pos, lsub(seqlen(q), pos))
            for s, at in models.find1(E, st, rest, pat):
                take(s, ladd(at, K(1)) if at is not None else lsub(seqlen(q), pos), at is None)
        out.append((bad, io_fail(E, bad, 'readerr', key)))
        return fails(E, out)
    E.over[BR + 'read_until'] = read_until
    E.over[BR + 'read_line'] = read_until

    def wr(E, st, key, q):
        bad = st.clone()
        bad.dec += 1
        st.dec += 1
        st.emit('write', key, q)
        return fails(E, [(st, ok(UNIT)), (bad, io_fail(E, bad, 'writeerr', key))])

    def write_all(E, st, c, args, dty):
        key, _ = reader(E, st, args[0])
        return key and wr(E, st, key, E.seq_of(st, as_slice(E, st, args[1])))
    E.over[WR + 'write_all'] = write_all

    def write_fmt(E, st, c, args, dty):
        key, _ = reader(E, st, args[0])
        return key and wr(E, st, key, fmt_bytes(E, st, args[1]))
    E.over[WR + 'write_fmt'] = write_fmt

    def write(E, st, c, args, dty):
        key, _ = reader(E, st, args[0])
        if key is None:
            return None
        p = as_slice(E, st, args[1])
        q = E.seq_of(st, p)
        bad = st.clone()
        bad.dec += 1
        st.dec += 1
        n = iv(E.fresh(st, 'nwritten'), 'usize')
        st.assume(le0(lsub(n, slen(p))))
        z = st.clone()
        out = []
        if st.assume(le0(lsub(K(1), n))):
            st.emit('write', key, E.slice_seq(st, q, K(0), n))
            out.append((st, ok(n)))
        if z.assume(eq0(n)):
            out.append((z, ok(K(0))))
        return fails(E, out + [(bad, io_fail(E, bad, 'writeerr', key))])
    E.over[WR + 'write'] = write

    def flush(E, st, c, args, dty):
        key, _ = reader(E, st, args[0])
        if key is None:
            return None
        bad = st.clone()
        bad.dec += 1
        st.dec += 1
        st.emit('flush', key)
        return fails(E, [(st, ok(UNIT)), (bad, io_fail(E, bad, 'flusherr', key))])
    E.over[WR + 'flush'] = flush

    def nofs(kind, res):
        def f(E, st, c, args, dty):
            q = osbytes(E, st, args[0])
            bad = st.clone()
            bad.dec += 1
            st.dec += 1
            r = res(E, st, q)
            return fails(E, [(st, ok(r)), (bad, io_fail(E, bad, kind + 'err', q))])
        return f

    def file(kind):
        def f(E, st, q):
            k = st.gh.get('files', 0)
            st.gh['files'] = k + 1
            st.emit(kind, N('file', k), q)
            return stream(N('file', k))
        return f

    def ev(kind):
        def f(E, st, q):
            st.emit(kind, q)
            return UNIT
        return f
    E.over['std::fs::File::create'] = nofs('create', file('create'))
    E.over['std::fs::File::open'] = nofs('open', file('open'))
    OO = 'std::fs::OpenOptions::'

    def oo_new(E, st, c, args, dty):
        return [(st, N('agg', 'openopt', '', 0, (N('k', ()),), ()))]
    E.over[OO + 'new'] = oo_new
    E.over['std::fs::File::options'] = oo_new

    def oo_set(E, st, c, args, dty):
        p = norm(E, st, args[0])
        v = E.get(st, p)
        b = E.as_bool(args[1])
        if v.op != 'agg' or v.a[0] != 'openopt' or st.decide(b) is None:
            return None
        have = set(v.a[3][0].a[0]) - {c.a[1].split('::')[-1]}
        if st.decide(b):
            have.add(c.a[1].split('::')[-1])
        E.put(st, p, N('agg', 'openopt', '', 0, (N('k', tuple(sorted(have))),), ()))
        return [(st, args[0])]
    for n in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
        E.over[OO + n] = oo_set

    def oo_open(E, st, c, args, dty):
        v = E.get(st, norm(E, st, args[0])) if args[0].op == 'ptr' else args[0]
        if v.op != 'agg' or v.a[0] != 'openopt':
            return None
        have = set(v.a[3][0].a[0])
        if have == {'read'}:
            return nofs('open', file('open'))(E, st, c, args[1:], dty)
        if 'create_new' in have or 'create' not in have or not have & {'write', 'append'}:
            return None

        def created(E, st, q):
            r = file('create')(E, st, q)
            if 'truncate' not in have:
                st.emit('keeps', r.a[3][0])
            return r
        return nofs('create', created)(E, st, c, args[1:], dty)
    E.over[OO + 'open'] = oo_open

    def set_len(E, st, c, args, dty):
        key, _ = reader(E, st, args[0])
        if key is None:
            return None
        bad = st.clone()
        bad.dec += 1
        st.dec += 1
        st.emit('setlen', key)
        return fails(E, [(st, ok(UNIT)), (bad, io_fail(E, bad, 'setlenerr', key))])
    E.over['std::fs::File::set_len'] = set_len

    def bufwriter(E, st, c, args, dty):
        # nothing is known to be delivered before a flush, with or without the buffer
        v = args[-1]
        if v.op == 'agg' and v.a[0] == 'stream' and v.a[3][0] in (STDOUT, STDERR):
            return [(st, v)]
        return None
    E.over['std::io::buffered::bufwriter::BufWriter::new'] = bufwriter
    E.over['std::io::buffered::bufwriter::BufWriter::with_capacity'] = bufwriter
    E.over['alloc::io::buffered::bufwriter::BufWriter::new'] = bufwriter
    E.over['alloc::io::buffered::bufwriter::BufWriter::with_capacity'] = bufwriter
    E.over['std::fs::create_dir_all'] = nofs('mkdir', ev('mkdir'))
    E.over['std::fs::create_dir'] = nofs('mkdir', ev('mkdir'))
    E.over['std::env::set_current_dir'] = nofs('chdir', ev('chdir'))
    for n in ('std::fs::remove_file', 'std::fs::remove_dir_all', 'std::fs::remove_dir'):
        E.over[n] = nofs('remove', ev('remove'))
    E.over['std::fs::write'] = lambda E, st, c, args, dty: nofs('create', file('create'))(E, st, c, args, dty)

    def metadata(E, st, c, args, dty):
        key, _ = reader(E, st, args[0])
        if key is None:
            return None
        bad = st.clone()
        bad.dec += 1
        st.dec += 1
        st.emit('meta', key)
        return [(st, ok(N('sym', N('meta', key), N('adt', 'std::fs::Metadata', ())))), (bad, io_fail(E, bad, 'metaerr', key))]
    E.over['std::fs::File::metadata'] = metadata

    def mlen(E, st, c, args, dty):
        v = E.get(st, norm(E, st, args[0])) if args[0].op == 'ptr' else args[0]
        if v.op != 'sym' or v.a[0].op != 'meta':
            return None
        return [(st, fsize(v.a[0].a[0]))]
    E.over['std::fs::Metadata::len'] = mlen

    def parent(E, st, c, args, dty):
        q = osbytes(E, st, args[0])
        f = N('pred', 'hasparent', q)
        t = N('parent', q)
        return [(n, some(kslice(mkseq([S(t, K(0), lenatom(t))]))) if g else NONE) for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]
    E.over['std::path::Path::parent'] = parent

    def file_name(E, st, c, args, dty):
        q = osbytes(E, st, args[0])
        f = N('pred', 'hasname', q)
        return [(n, some(kslice(basename(q))) if g else NONE) for n, g in E.branch(st, [(f, 1), (not_(f), 0)])]
    E.over['std::path::Path::file_name'] = file_name

    def join(E, st, c, args, dty):
        a, b = osbytes(E, st, args[0]), osbytes(E, st, args[1])
        first = le0(lsub(K(1), seqlen(b)))
        s2 = st.clone()
        if s2.decide(models.contains_f(E, s2, b, lit(b'/'))) is False:
            absol = FALSE
        elif s2.assume(first):
            x = segs_int(E.slice_seq(s2, b, K(0), K(1)).a[0])
            absol = and_([first, eq0(lsub(x, K(47)))])
        else:
            absol = FALSE
        return [(n, mkvec(b) if g else mkvec(mkseq(a.a[0] + (C(b'/'),) + b.a[0]))) for n, g in E.branch(st, [(absol, 1), (not_(absol), 0)])]
    E.over['std::path::Path::join'] = join


def iv_byte(E, st, key, at):
    return segs_int(mkseq([S(N('in', key), at, K(1))]).a[0])


def fsize(key):
    return iv(N('fsize', key), 'u64')


def basename(q):
    t = N('basename', q)
    return mkseq([S(t, K(0), lenatom(t))])


# ------------------------------------------------------------------ formatting
def over_fmt(E):
    for k in ('display', 'debug', 'octal', 'lower_hex', 'upper_hex', 'binary'):
        def mk(E, st, c, args, dty, k=k):
            return [(st, N('agg', 'fmtarg', k, 0, (args[0],), ()))]
        E.over['core::fmt::rt::Argument::new_' + k] = mk

    def new(E, st, c, args, dty):
        t = E.seq_of(st, as_slice(E, st, args[0]))
        a = E.get(st, as_slice(E, st, args[1])) if len(args) > 1 else N('arr', ())
        return [(st, N('agg', 'fmtargs', '', 0, (t, a), ()))]
    E.over['core::fmt::Arguments::new'] = new

    def from_str(E, st, c, args, dty):
        return [(st, N('agg', 'fmtargs', 'str', 0, (E.seq_of(st, as_slice(E, st, args[0])), N('arr', ())), ()))]
    for n in ('from_str', 'from_str_nonconst', 'new_const'):
        E.over['core::fmt::Arguments::' + n] = from_str
    E.over['alloc::fmt::format'] = lambda E, st, c, args, dty: [(st, mkvec(fmt_bytes(E, st, args[0])))]


def fmt_bytes(E, st, v):
    def unk(why):
        t = E.unk('format ' + why)
        return mkseq([S(t, K(0), lenatom(t))])
    if v.op == 'ptr':
        v = E.get(st, v)
    if v.op != 'agg' or v.a[0] != 'fmtargs':
        return unk('arguments')
    t, a = v.a[3]
    if v.a[1] == 'str':
        return t
    if not all(g.op == 'C' for g in t.a[0]) or a.op != 'arr':
        return unk('template')
    b = b''.join(g.a[0] for g in t.a[0])
    out, i, nxt = [], 0, 0
    le = lambda o, n: int.from_bytes(b[o:o + n], 'little')
    try:
        while True:
            n = b[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                out.append(C(b[i:i + n]))
                i += n
            elif n == 0x80:
                l = le(i, 2)
                out.append(C(b[i + 2:i + 2 + l]))
                i += 2 + l
            else:
                flags = width = prec = None
                if n & 1:
                    flags, i = le(i, 4), i + 4
                if n & 2:
                    width, i = le(i, 2), i + 2
                if n & 4:
                    prec, i = le(i, 2), i + 2
                if n & 8:
                    nxt, i = le(i, 2), i + 2
                if n & 0x30 or prec is not None:
                    return unk('options')
                out += fmt_one(E, st, a.a[0][nxt], flags, width)
                nxt += 1
    except IndexError:
        return unk('template')
    return mkseq(out)


def fmt_one(E, st, a, flags, width):
    def unk(*x):
        t = N('formatted', *x) if x else E.unk('format argument')
        return [S(t, K(0), lenatom(t))]
    if a.op != 'agg' or a.a[0] != 'fmtarg':
        return unk()
    v = a.a[3][0]
    for _ in range(4):
        if v.op == 'ptr' and not isslice(v):
            v = E.get(st, v)
        elif v.op == 'agg' and (v.a[0] in ('box', 'refmut') or v.a[1] == COW):
            v = v.a[3][0]
    k = a.a[1]
    pad = width or 0
    if v.op == 'lin':
        c = cval(st.simp(v))
        if c is None or c < 0:
            return unk(k, v, K(pad), K(flags or 0)) if pad or k != 'display' else [S(N('dec', v), K(0), lenatom(N('dec', v)))]
        s = {'display': '%d', 'debug': '%d', 'octal': '%o', 'lower_hex': '%x', 'upper_hex': '%X'}.get(k)
        if s is None or (flags or 0) & (1 << 23):
            return unk()
        s = (s % c).encode()
        if len(s) < pad:
            if not (flags or 0) & (1 << 24):
                return unk() if (flags or 0) >> 29 not in (0, 3, 1) else [C(b' ' * (pad - len(s)) + s)]
            s = b'0' * (pad - len(s)) + s
        return [C(s)]
    q = None
    if v.op == 'ptr':
        q = E.seq_of(st, v)
    elif v.op == 'agg' and v.a[0] == 'vec':
        q = v.a[3][0]
    if k == 'display' and q is not None and q.op == 'seq' and not pad:
        return list(q.a[0])
    return unk(k, E.deep(st, v))


EXITCODE = 'std::process::ExitCode'


# ------------------------------------------------------------------ runs of scp
def path_arg(st, E, i):
    """a path argument: any bytes that do not look like an option"""
    t = N('arg', i)
    q = mkseq([S(t, K(0), lenatom(t))])
    st.assume(le0(lsub(K(1), lenatom(t))))
    st.assume(not_(eq0(lsub(segs_int(E.slice_seq(st, q, K(0), K(1)).a[0]), K(45)))))
    return q


def run_scp(R, E, st, argv, script):
    """all runs of main: [(st, exit status or None)]; a panic is status 101"""
    over_scp(E, [lit(b'scp')] + argv, script)
    f = fn(R.P, 'nora_scp::main')
    outs = []
    for s, r in E.run(f, [], st=st):
        if r.op == 'agg' and r.a[0] == 'adt' and r.a[1] == RES:
            if r.a[2] == 1:
                outs.append((s, K(1)))
                s.emit('eprint')
                continue
            r = r.a[3][0]
        x = r
        while x.op == 'agg' and x.a[0] == 'adt' and len(x.a[3]) == 1 and (x.a[1] == EXITCODE or x is not r):
            x = x.a[3][0]
        if x.op == 'lin':
            outs.append((s, x))
        elif r is UNIT or (r.op == 'agg' and r.a[0] == 'tuple' and not r.a[3]):
            outs.append((s, K(0)))
        else:
            outs.append((s, None))
    for s, code in E.exits:
        outs.append((s, code))
    for p in E.panics:
        p.st.emit('eprint')
        p.st.emit('panic', p.kind, p.span)
        outs.append((p.st, K(101)))
    return f.name, outs


FAIL = {'readerr', 'eoferr', 'writeerr', 'flusherr', 'createerr', 'openerr', 'mkdirerr', 'chdirerr', 'metaerr', 'setlenerr'}


class Hdr:
    """one well-formed file in the stream of the sender"""

    def __init__(s, E, st, i, size=None):
        seg = lambda n: S(N(n, i), K(0), lenatom(N(n, i)))
        s.mode, s.size, s.name = seg('mode'), seg('size'), seg('name')
        for g, pats in ((s.mode, b' \n'), (s.size, b' \n'), (s.name, b'\n')):
            for c in pats:
                st.preds[N('pred', 'contains', mkseq([g]), lit(bytes([c])))] = False
            st.assume(le0(lsub(seglen(g), K(2 ** 20))))
        s.sizeq, s.nameq = mkseq([s.size]), mkseq([s.name])
        s.n = iv(N('parsed', s.sizeq), 'u64')
        if size is not None:
            st.assume(eq0(lsub(s.n, K(size))))
        s.header = [C(b'C'), s.mode, C(b' '), s.size, C(b' '), s.name, C(b'\n')]
        s.content = mkseq([S(N('content', i), K(0), s.n)])
        s.fin = S(N('fin', i), K(0), K(1))
        s.segs = s.header + [S(N('content', i), K(0), s.n), s.fin]


def name_ok(E, st, q):
    """(proven valid, decided invalid) for a file name inside a directory"""
    fs = [not_(le0(seqlen(q))), not_(seqeq(E, st, q, lit(b'.'))), not_(seqeq(E, st, q, lit(b'..'))), not_(models.contains_f(E, st, q, lit(b'/')))]
    ds = [st.decide(f) for f in fs]
    ds = [True if d is None and not st.clone().assume(not_(f)) else d for d, f in zip(ds, fs)]
    return all(d is True for d in ds), any(d is False for d in ds)


def utf8_failed(st):
    return any(p.op == 'pred' and p.a[0] == 'utf8' and v is False for p, v in st.preds.items())


RECV = {  # part: (directory mode, number of files announced, number of paths, fixed size, ending)
    'one': (False, 1, 1, None, None), 'two': (False, 2, 2, None, None), 'big': (False, 1, 1, 32768 * 6 + 17, None),
    'dir': (True, 1, 1, None, None), 'dir2': (True, 2, 1, None, None), 'dirbig': (True, 1, 1, 32768 * 5, None),
    'missing': (False, 1, 2, None, None), 'empty': (False, 0, 1, None, None), 'direct': (True, 0, 1, None, None),
    'cut-content': (False, 1, 1, None, 'content'), 'cut-fin': (False, 1, 1, None, 'fin'), 'cut-header': (False, 1, 1, None, 'header'),
    'no-name': (False, 1, 1, None, 'no-name'), 'no-size': (False, 1, 1, None, 'no-size'), 'type': (False, 1, 1, None, 'type'),
    'dir-header': (True, 1, 1, None, 'header'), 'dir-cut': (True, 2, 1, None, 'fin'), 'dir-type': (True, 2, 1, None, 'type'),
}


@group('scp_recv', list(RECV))
def g_scp_recv(R, part, deep):
    isdir, nfiles, npaths, size, end = RECV[part]
    E = R.eng()
    E.peel = 12 if size else (5 if deep else 3) if nfiles < 2 else (3 if deep else 2)
    E.itbound = 12
    st = St()
    paths = [path_arg(st, E, i) for i in range(npaths)]
    hs = [Hdr(E, st, i, size) for i in range(nfiles)]
    segs = []
    for h in hs[:-1]:
        segs += h.segs
    whole = len(hs)                # files that arrive completely
    if hs:
        h = hs[-1]
        if end:
            whole -= 1
        short = S(N('content', nfiles - 1), K(0), iv(N('short'), 'u64'))
        if end == 'content':
            st.assume(le0(ladd(lsub(iv(N('short'), 'u64'), h.n), K(1))))
        if end == 'type':
            first = S(N('type'), K(0), K(1))
            st.assume(not_(eq0(lsub(segs_int([first]), K(67)))))
        segs += {None: h.segs, 'content': h.header + [short], 'fin': h.segs[:-1], 'header': h.header[:-1],
                 'no-name': h.header[:4] + [C(b'\n')] + h.segs[-2:], 'no-size': h.header[:2] + [C(b'\n')] + h.segs[-2:],
                 'type': [S(N('type'), K(0), K(1))] + h.segs[1:]}[end]
    script = mkseq(segs)
    bounds, pos = [K(0)], K(0)
    for h in hs:
        pos = ladd(pos, seqlen(mkseq(h.header)))
        bounds.append(pos)
        pos = ladd(pos, ladd(h.n, K(1)))
        bounds.append(pos)
    base = st.clone()
    W, outs = run_scp(R, E, st, [lit(b'-t')] + ([lit(b'-d')] if isdir else []) + paths, script)
    good = False
    for st, code in outs:
        good |= recv_path(R, E, st, code, W, part, isdir, paths, hs, bounds, whole, end, script)
    if whole == nfiles == npaths or isdir and whole == nfiles:
        R.put('a complete transfer succeeds', PROVEN if good else UNKNOWN, W, '' if good else 'no successful run found')
    R.absorb(E)


def recv_path(R, E, st, code, W, part, isdir, paths, hs, bounds, whole, end, script):
    acks = flushed = 0
    pos = K(0)
    created, got, chdir = [], [], None
    failed = None
    for e in st.events():
        k = e[0]
        if failed and k in ('write', 'flush') and e[1] is STDOUT and k == 'write':
            R.check('nothing is acknowledged after a failure', st, False, W, 'writes to the sender after %s' % failed, e[2])
        if failure(E, st, e):
            failed = failed or k
        elif k == 'lost':
            R.check('no received byte is lost', st, False, W, 'input buffered by one reader is skipped by another')
        elif k == 'write' and e[1] is STDOUT:
            q = e[2]
            z = all(g.op in ('C', 'Z') for g in q.a[0]) and cval(seqlen(q)) is not None and not any(any(g.a[0]) for g in q.a[0] if g.op == 'C')
            R.check('only zero bytes are sent to the sender', st, z, W, 'sends %s' % show(q)[:100], q)
            if not z:
                return False
            for _ in range(cval(seqlen(q))):
                i, what = (acks - 1) // 2, acks % 2
                if acks == 0:
                    R.check('the start is acknowledged before reading', st, st.eq(pos, K(0)), W, 'reads before the first acknowledgement')
                elif i >= len(hs) or (i >= whole and (what == 0 or end in ('header', 'no-name', 'no-size', 'type'))):
                    R.check('only complete steps are acknowledged', st, False, W, 'acknowledges %s of file %d although %s' % (
                        'the end' if what == 0 else 'the header', i, 'nothing was announced' if i >= len(hs) else 'it is incomplete or malformed (%s)' % end))
                    return False
                elif what == 1:
                    R.check('a header is acknowledged once it is read and its file is created', st, st.eq(pos, bounds[acks]) and len(created) == i + 1, W,
                            'acknowledges header %d at input position %s with %d files created' % (i, show(st.simp(pos))[:80], len(created)), pos)
                else:
                    c = mkseq(got[i]) if i < len(got) else mkseq(())
                    R.check('a file is acknowledged once all of it is stored', st, seq_same(E, st, c, hs[i].content), W,
                            'acknowledges file %d with %s stored instead of %s' % (i, show(c)[:160], show(hs[i].content)[:120]), c)
                    R.check('the terminating zero byte is required', st, st.eq(pos, bounds[acks]) and st.decide(eq0(segs_int([hs[i].fin]))) is True, W,
                            'acknowledges file %d at input position %s without checking the byte after it' % (i, show(st.simp(pos))[:80]), pos)
                acks += 1
        elif k == 'flush' and e[1] is STDOUT:
            flushed = acks
        elif k in ('read', 'eof') and e[1] is STDIN:
            if k == 'read':
                fin = ladd(e[2], e[3])
                pos = fin
            else:
                fin = pos
            lim = bounds[flushed - 1] if 0 < flushed <= len(bounds) else bounds[-1] if flushed else None
            # with k acknowledgements delivered the sender has sent everything up to the k-th boundary
            nxt = bounds[flushed] if flushed < len(bounds) else seqlen(script)
            R.check('the sender is not made to wait', st, flushed > 0 and (st.le(fin, nxt) or (flushed - 1) // 2 >= whole), W,
                    'waits for input up to %s with %d acknowledgements delivered' % (show(st.simp(fin))[:80], flushed), fin)
        elif k in ('chdir', 'mkdir'):
            allowed = [paths[0]] if isdir else [mkseq([S(N('parent', p), K(0), lenatom(N('parent', p)))]) for p in paths]
            R.check('only the destination directories are used', st, any(seq_same(E, st, e[1], a) for a in allowed), W, '%s %s' % (k, show(e[1])[:120]), e[1])
            if k == 'chdir':
                chdir = e[1]
        elif k == 'remove':
            R.check('only the destination directories are used', st, False, W, 'removes %s' % show(e[1])[:120], e[1])
        elif k == 'create':
            i = len(created)
            created.append(e[1])
            got.append([])
            where_ok, nm = dest(E, st, e[2], isdir, paths, i, chdir)
            R.check('files are created only at the destination', st, where_ok, W, 'creates %s' % show(e[2])[:140], e[2])
            if isdir and nm is not None:
                v, inv = name_ok(E, st, nm)
                R.check('names are checked before anything is created', st, v, W, 'creates %s without excluding empty, ".", ".." and names with "/"' % show(nm)[:120], nm)
                R.check('the file gets the announced name', st, i < len(hs) and seq_same(E, st, nm, hs[i].nameq), W, 'creates %s for the announced name %s' % (
                    show(nm)[:100], show(hs[i].nameq)[:60] if i < len(hs) else None), nm)
        elif k == 'write' and e[1].op == 'file':
            if e[1] in created:
                j = created.index(e[1])
                got[j] += list(e[2].a[0])
                c = mkseq(got[j])
                n = seqlen(c)
                full = hs[j].content if j < len(hs) else mkseq(())
                g = st.le(n, seqlen(full)) and seq_same(E, st, c, E.slice_seq(st, full, K(0), n))
                R.check('files receive exactly the bytes of their content', st, g, W, 'file %d receives %s' % (j, show(c)[:160]), c)
        elif k == 'panic':
            failed = failed or 'panic'
    if code is None:
        R.put('failures exit with a non-zero status', UNKNOWN, W, 'exit status not understood')
        return False
    for e in st.events():
        if e[0] == 'keeps':
            R.check('files receive exactly the bytes of their content', st, any(x[0] in ('setlen', 'setlenerr') and x[1] == e[1] for x in st.events()), W,
                    'opens the file without emptying it: bytes an earlier file had remain')
    done = acks == 2 * len(hs) + 1 and whole == len(hs) and (isdir or len(hs) == len(paths)) and not failed
    zero = st.decide(eq0(code))
    msg = any(e[0] == 'eprint' for e in st.events())
    if zero is not False:
        R.check('success only after the whole transfer', st, done and zero is True, W, 'exits with 0 after %s' % (failed or 'an incomplete transfer'), code)
        return done
    R.check('failures are reported with a message', st, msg, W, 'exits with %s without a message' % show(code))
    R.check('failures exit with a non-zero status', st, True, W, '')
    if not failed or failed == 'panic':
        # refused although nothing failed: there has to be a reason
        why = end or utf8_failed(st) or (not isdir and len(hs) < len(paths)) or \
            any(st.decide(N('pred', 'isnum', h.sizeq)) is False or st.decide(le0(lsub(h.n, K(2 ** 63)))) is False for h in hs) or \
            any(st.decide(eq0(segs_int([h.fin]))) is False for h in hs) or \
            (isdir and any(name_ok(E, st, h.nameq)[1] for h in hs))
        R.check('a good transfer is not refused', st, True if why else None, W, 'fails (%s) although every announced file is well formed and no operation failed' % (failed or show(code)))
    return False


def dest(E, st, q, isdir, paths, i, chdir):
    """(is q the right place?, name relative to the destination directory)"""
    if not isdir:
        return i < len(paths) and chdir is None and seq_same(E, st, q, paths[i]), None
    if chdir is not None:
        g = q.a[0]
        return seq_same(E, st, chdir, paths[0]), q
    p = paths[0].a[0]
    g = q.a[0]
    if len(g) >= len(p) + 1 and tuple(g[:len(p)]) == tuple(p) and g[len(p)].op == 'C' and g[len(p)].a[0][:1] == b'/':
        rest = g[len(p)].a[0][1:]
        return True, mkseq(([C(rest)] if rest else []) + list(g[len(p) + 1:]))
    return False, None


@group('scp_free', ['dir', 'files'])
def g_scp_free(R, part, deep):
    """any input at all: where files are created, and how the program ends"""
    isdir = part == 'dir'
    E = R.eng()
    E.peel = 2 if deep else 1
    E.budget = 3000000 if deep else 600000
    E.itbound = 12
    E.nofail = True
    st = St()
    paths = [path_arg(st, E, i) for i in range(1 if isdir else 2)]
    for p in paths:
        st.preds[N('pred', 'utf8', p)] = True
    W, outs = run_scp(R, E, st, [lit(b'-t')] + ([lit(b'-d')] if isdir else []) + paths, None)
    n = 0
    for st, code in outs:
        chdir, created, failed = None, 0, False
        for e in st.events():
            if e[0] == 'create':
                where_ok, nm = dest(E, st, e[2], isdir, paths, created, chdir)
                created += 1
                n += 1
                R.check('files are created only at the destination', st, where_ok, W, 'creates %s' % show(e[2])[:140], e[2])
                if isdir and nm is not None:
                    R.check('names are checked before anything is created', st, name_ok(E, st, nm)[0], W,
                            'creates %s without excluding empty, ".", ".." and names with "/"' % show(nm)[:120], nm)
            elif e[0] in ('chdir', 'mkdir', 'remove'):
                allowed = [paths[0]] if isdir else [mkseq([S(N('parent', p), K(0), lenatom(N('parent', p)))]) for p in paths]
                R.check('only the destination directories are used', st, e[0] != 'remove' and any(seq_same(E, st, e[1], a) for a in allowed), W, '%s %s' % (e[0], show(e[1])[:120]), e[1])
                if e[0] == 'chdir':
                    chdir = e[1]
            elif failure(E, st, e):
                failed = e[0]
        status(R, st, code, W, failed)
    if not n:
        R.put('files are created only at the destination', UNKNOWN, W, 'no created file found')
    R.absorb(E)


def status(R, st, code, W, failed):
    """exit status of a run in which an operation failed"""
    if code is None:
        R.put('failures exit with a non-zero status', UNKNOWN, W, 'exit status not understood')
        return
    zero = st.decide(eq0(code))
    if failed:
        R.check('failures exit with a non-zero status', st, zero is False, W, 'exits with 0 although an operation failed (%s)' % failed, code)
    if zero is False:
        R.check('failures are reported with a message', st, any(e[0] == 'eprint' for e in st.events()), W, 'exits with %s without a message' % show(code))


ARGS = {'none': [], 'path': ['p'], 'flag': ['x'], 'flag-t': ['-t', 'x', 'p'], 't-flag': ['-t', 'p', 'x'], 'f-flag': ['-f', 'p', 'x'], 'd': ['-d', 'p'],
        't-d': ['-t', '-d'], 't-d-2': ['-t', '-d', 'p', 'p'], 'd-flag': ['-d', '-t', 'x', 'p'], 't-d-3': ['-d', 'p', 'p', 'p', '-t']}


@group('scp_args', list(ARGS))
def g_scp_args(R, part, deep):
    """argument lists that cannot be carried out"""
    E = R.eng()
    E.peel = 1
    E.itbound = 12
    E.nofail = True
    st = St()
    argv, np = [], 0
    for a in ARGS[part]:
        if a == 'p':
            argv.append(path_arg(st, E, np))
            st.preds[N('pred', 'utf8', argv[-1])] = True
            np += 1
        elif a == 'x':
            t = N('flag')
            q = mkseq([C(b'-'), S(t, K(0), lenatom(t))])
            st.assume(le0(lsub(lenatom(t), K(2 ** 20))))
            st.preds[N('pred', 'utf8', q)] = True
            for c in (b'd', b'f', b't'):
                st.assume(not_(seqeq(E, st, mkseq([S(t, K(0), lenatom(t))]), lit(c))))
            argv.append(q)
        else:
            argv.append(lit(a.encode()))
    W, outs = run_scp(R, E, st, argv, None)
    for st, code in outs:
        if code is None:
            R.put('bad arguments are refused', UNKNOWN, W, 'exit status not understood')
            continue
        zero = st.decide(eq0(code))
        R.check('bad arguments are refused', st, zero is False, W, 'exits with 0 for the arguments %s' % ' '.join(ARGS[part]), code)
        done = [e for e in st.events() if e[0] in ('create', 'open', 'write', 'mkdir', 'chdir', 'remove')]
        R.check('bad arguments have no effect', st, not done, W, 'does %s with the arguments %s' % (done[0][0] if done else '', ' '.join(ARGS[part])))
        R.check('failures are reported with a message', st, zero is not False or any(e[0] == 'eprint' for e in st.events()), W, 'exits with %s without a message' % show(code))
    if not outs:
        R.put('bad arguments are refused', UNKNOWN, W, 'no run found')
    R.absorb(E)


SEND = {'one': (1, None), 'two': (2, None), 'none': (0, None), 'three': (3, 5), 'big': (1, 32768 * 6 + 17), 'exact': (1, 32768 * 4), 'zero': (2, 0)}


@group('scp_send', list(SEND))
def g_scp_send(R, part, deep):
    n, size = SEND[part]
    E = R.eng()
    E.peel = 12 if size else (5 if deep else 4) if n < 2 else (3 if deep else 2)
    E.itbound = 12
    st = St()
    paths = [path_arg(st, E, i) for i in range(n)]
    for p in paths:
        # files, not devices: what a file contains is what its size says unless it changes
        if size is not None:
            for k in range(n):
                st.assume(eq0(lsub(fsize(N('file', k)), K(size))))
    for k in range(n):
        st.assume(le0(lsub(fsize(N('file', k)), K(2 ** 62))))
    argv = [lit(b'-f')] + paths if part != 'two' else paths[:1] + [lit(b'-f')] + paths[1:]
    W, outs = run_scp(R, E, st, argv, None)
    good = False
    for st, code in outs:
        good |= send_path(R, E, st, code, W, n, paths)
    R.put('a complete transfer succeeds', PROVEN if good else UNKNOWN, W, '' if good else 'no successful run found')
    R.absorb(E)


def header_ok(E, st, q, want_size, name):
    """does q start with a header for this size and name? -> rest (sequence) or None"""
    segs = list(q.a[0])
    if not segs or segs[0].op != 'C':
        return None
    b = segs[0].a[0]
    if len(b) < 6 or b[:1] != b'C' or not all(c in b'01234567' for c in b[1:5]) or b[5:6] != b' ':
        return None
    rest = mkseq(([C(b[6:])] if b[6:] else []) + segs[1:])
    c = cval(st.simp(want_size))
    d = N('dec', want_size)
    for d in ([C(b'%d' % c)] if c is not None else []) + [S(d, K(0), lenatom(d))]:
        r = strip_prefix(E, st, rest, mkseq([d, C(b' ')] + list(name.a[0]) + [C(b'\n')]))
        if r is not None:
            return r
    return None


def strip_prefix(E, st, q, p):
    """q without the prefix p, None if it does not start with it"""
    n = seqlen(p)
    if not st.le(n, seqlen(q)):
        return None
    if seq_same(E, st, E.slice_seq(st, q, K(0), n), p) is not True:
        return None
    return E.slice_seq(st, q, n, lsub(seqlen(q), n))


def send_path(R, E, st, code, W, n, paths):
    """step 3i+0: header of file i, 3i+1: its content, 3i+2: the zero byte after it.
    Acknowledgement 0 precedes everything, 2i+1 follows header i, 2i+2 follows file i"""
    acks, flushed, opened, failed = 0, True, [], None
    step, sent, hdr = 0, [], []
    apos = K(0)

    def ack_zero(k):
        return st.decide(eq0(iv_byte(E, st, STDIN, K(k)))) is True

    def name_of(i):
        return basename(paths[i])

    for e in st.events():
        k = e[0]
        if failure(E, st, e):
            failed = failed or k
        elif k == 'open':
            i = len(opened)
            opened.append(e[1])
            R.check('the requested files are sent in order', st, i < n and seq_same(E, st, e[2], paths[i]), W, 'opens %s as file %d' % (show(e[2])[:120], i), e[2])
        elif k in ('create', 'mkdir', 'remove', 'chdir'):
            R.check('sending changes no files', st, False, W, '%s %s' % (k, show(e[-1])[:100]))
        elif k == 'lost':
            R.check('acknowledgements are not lost', st, False, W, 'input buffered by one reader is skipped by another')
        elif k == 'write' and e[1] is STDOUT:
            if failed:
                R.check('nothing is sent after a failure', st, False, W, 'sends %s after %s' % (show(e[2])[:100], failed), e[2])
            q = e[2]
            flushed = False
            for _ in range(64):
                if st.le(seqlen(q), K(0)):
                    break
                i, what = step // 3, step % 3
                if i >= n or i >= len(opened):
                    R.check('nothing but the files is sent', st, False, W, 'sends %s after %d of %d files' % (show(q)[:100], i, n), q)
                    return False
                need = 2 * i + 1 if what == 0 else 2 * i + 2
                R.check('each step waits for its acknowledgement', st, st.le(K(need), apos) and all(ack_zero(a) for a in range(need)), W,
                        'sends %s of file %d with %s of %d zero bytes received' % (('the header', 'the content', 'the end')[what], i, show(st.simp(apos)), need), q)
                if not st.le(K(need), apos):
                    return False
                if what == 0:
                    hdr += list(q.a[0])
                    h = mkseq(hdr)
                    r = header_ok(E, st, h, fsize(opened[i]), name_of(i))
                    last = hdr[-1]
                    if r is None and last.op == 'C' and not last.a[0].endswith(b'\n') or r is None and last.op != 'C':
                        break       # written in pieces: judged with the last one
                    R.check('the header announces the size and name of the file', st, r is not None, W, 'announces %s for %s' % (show(h)[:160], show(paths[i])), h)
                    if r is None:
                        return False
                    q, hdr, sent, step = r, [], [], step + 1
                    continue
                if what == 1:
                    full = mkseq([S(N('in', opened[i]), K(0), fsize(opened[i]))])
                    left = lsub(seqlen(full), seqlen(mkseq(sent)))
                    if st.le(left, K(0)):
                        step += 1
                        continue
                    m = seqlen(q) if st.le(seqlen(q), left) else left
                    part = E.slice_seq(st, q, K(0), m)
                    at = seqlen(mkseq(sent))
                    sent += list(part.a[0])
                    R.check('the content is sent as announced', st, seq_same(E, st, part, E.slice_seq(st, full, at, m)) is True, W,
                            'sends %s at %s of %s' % (show(q)[:120], show(st.simp(at))[:60], show(full)[:100]), q)
                    q = E.slice_seq(st, q, m, lsub(seqlen(q), m))
                    continue
                z = E.slice_seq(st, q, K(0), K(1))
                R.check('a zero byte ends each file', st, seq_same(E, st, z, lit(b'\0')) is True, W, 'sends %s after the content' % show(q)[:100], q)
                q = E.slice_seq(st, q, K(1), lsub(seqlen(q), K(1)))
                step += 1
        elif k == 'flush' and e[1] is STDOUT:
            flushed = True
        elif k in ('read', 'eof', 'eoferr') and e[1] is STDIN:
            a = cval(st.simp(apos))
            i, what = step // 3, step % 3
            complete = a is not None and step == (0 if a == 0 else 3 * ((a - 1) // 2) + (1 if a % 2 else 3)) and not hdr
            if k == 'read' or not failed:
                R.check('waits only after a complete step', st, complete, W, 'waits for acknowledgement %s after step %d' % (a, step), apos)
                R.check('everything is flushed before waiting', st, flushed, W, 'waits for an acknowledgement with unflushed output')
            if k == 'read':
                R.check('one acknowledgement is read at a time', st, st.eq(e[3], K(1)), W, 'reads %s bytes where the receiver sends one' % show(e[3])[:60], e[3])
                apos = ladd(e[2], e[3])
        elif k == 'panic':
            failed = failed or 'panic'
    if code is None:
        R.put('failures exit with a non-zero status', UNKNOWN, W, 'exit status not understood')
        return False
    a = cval(st.simp(apos))
    done = a == 2 * n + 1 and step == 3 * n and all(ack_zero(x) for x in range(2 * n + 1)) and not failed
    zero = st.decide(eq0(code))
    if zero is not False:
        R.check('success only after the whole transfer', st, done and zero is True, W, 'exits with 0 after %s' % (
            failed or 'step %d of %d with %s acknowledgements' % (step, 3 * n, a)), code)
        return done
    R.check('failures exit with a non-zero status', st, True, W, '')
    R.check('failures are reported with a message', st, any(e[0] == 'eprint' for e in st.events()), W, 'exits with %s without a message' % show(code))
    if not failed or failed == 'panic':
        why = any(st.decide(N('pred', 'hasname', p)) is False for p in paths) or utf8_failed(st) or \
            a is None or any(st.decide(eq0(iv_byte(E, st, STDIN, K(x)))) is False for x in range(a)) or \
            any(e[0] == 'eof' for e in st.events())
        R.check('a good transfer is not refused', st, True if why else None, W, 'fails (%s) although every file can be sent and every acknowledgement is a zero byte' % (failed or show(code)))
    return False
