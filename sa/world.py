"""The surroundings of a coder for the abstract interpreter: reader, writer, debug
log, and abstract coder states to start from."""
from core import *
from interp import Job, Inline, CallVal
import natives as NV

RD = 'rd'


def byte_tmpl():
    return lin(nbase((RD, HOLE), 0, 255))


def rd_byte(i):
    return lin(nbase((RD, i if isinstance(i, tuple) else I(i)), 0, 255))


# ------------------------------------------------------------------ I/O

def alt_set(**kw):
    def f(s):
        for k, v in kw.items():
            s.ghost[k] = v
    return f


def choose(j, st, key, n):
    """A nondeterministic choice among n, made once per key."""
    c = st.ghost.get(('choice', key))
    if c is None:
        def mk(i):
            def f(s):
                s.ghost[('choice', key)] = i
            return f
        j.fork(st, [mk(i) for i in range(n)], 'ch')
    # consumed: forget it
    del st.ghost[('choice', key)]
    return c


def io_error(st):
    ev = st.fresh()
    st.ghost['iofail'] = ev
    st.ghost['iofails'] = st.ghost.get('iofails', 0) + 1
    return ('op', 'ioerr', ev)


def h_write_all(j, st, c):
    segs = NV.segs_of(j, st, c.args[1])
    after(j, st)
    ok = choose(j, st, 'w', 2) == 0
    if ok:
        out = st.ghost.get('out', ())
        st.ghost['out'] = NV.norm_segs(j, st, out + tuple(segs))
        return ('a', c.dty, 0, (UNIT,))
    return ('a', c.dty, 1, (io_error(st),))


def after(j, st):
    """An I/O call after one that failed: noted."""
    st.ios += 1
    retried(j, st)
    if st.ghost.get('iofail') is not None:
        st.ghost['ioafter'] = True


def retried(j, st):
    """An error that is known to be no more than an interruption may be ignored."""
    ev = st.ghost.get('iofail')
    if ev is not None and ('iokind', ev) in st.facts:
        ks = st.facts[('iokind', ev)]
        if len(ks) == 1:
            t = next(t for t in j.types if t.path == 'core::io::error::ErrorKind')
            if t.variants[min(ks)]['name'] == 'Interrupted':
                del st.ghost['iofail']


def h_ioerr_kind(j, st, c):
    """The kind of an error, which may be any."""
    v = c.args[0]
    while v[0] == 'p':
        v = j.deref(st, v)
    if v[0] == 'op' and v[1] == 'ioerr':
        return ('s', c.dty, ('iokind', v[2]))
    if v[0] == 'op' and v[1] == 'ioerrkind':
        return v[2]
    return j.sym(c.dty, st.fresh())


def h_flush(j, st, c):
    after(j, st)
    if choose(j, st, 'f', 2) == 0:
        return ('a', c.dty, 0, (UNIT,))
    return ('a', c.dty, 1, (io_error(st),))


def h_write(j, st, c):
    """Write::write: some prefix, of any length."""
    p = NV.as_slice(j, st, c.args[1])
    after(j, st)
    k = choose(j, st, 'w', 4)
    zeros, st.zeros = st.zeros, 0
    if k == 2:
        return ('a', c.dty, 1, (io_error(st),))
    n = j.as_lin(st, p[3][2])
    if k == 3:
        # nothing at all
        st.zone.assume_lt(ZERO, n)
        st.zeros = zeros + 1
        st.ghost['short'] = 'write'
        return ('a', c.dty, 0, (ZERO,))
    if k == 1:
        n = lin(nbase(st.fresh(), 1, ILEN))
        st.zone.assume_lt(n, j.as_lin(st, p[3][2]))
        st.ghost['short'] = 'write'
    v = j.deref_segs(st, p)
    out = st.ghost.get('out', ())
    st.ghost['out'] = NV.norm_segs(j, st, out + j.seq_slice(st, v, ZERO, n))
    return ('a', c.dty, 0, (n,))


def stream_read(j, st, d, n):
    """Fills the n bytes of the window d from the stream."""
    pos = st.ghost.get('pos', ZERO)
    end = j.add_int(st, pos, n, 1)
    NV.write_slice(j, st, ('p', d[1], d[2], ('sl', d[3][1], n)), (('F', byte_tmpl(), pos, end),))
    st.ghost['pos'] = end


def h_read_exact(j, st, c):
    d = NV.as_slice(j, st, c.args[1])
    after(j, st)
    if choose(j, st, 'r', 2) == 0:
        stream_read(j, st, d, d[3][2])
        return ('a', c.dty, 0, (UNIT,))
    # some bytes may have been consumed; the contents of the buffer are unspecified
    pos = st.ghost.get('pos', ZERO)
    st.ghost['partial'] = (pos, j.add_int(st, pos, d[3][2], 1))
    name = st.fresh()
    NV.write_slice(j, st, d, (('F', lin(nbase(('junk', name, HOLE), 0, 255)), ZERO, d[3][2]),))
    return ('a', c.dty, 1, (io_error(st),))


def h_read(j, st, c):
    """Read::read: any number of bytes up to the length of the buffer."""
    d = NV.as_slice(j, st, c.args[1])
    after(j, st)
    k = choose(j, st, 'r', 4)
    zeros, st.zeros = st.zeros, 0
    if k == 3:
        return ('a', c.dty, 1, (io_error(st),))
    n = j.as_lin(st, d[3][2])
    if k == 1:
        # the input ends
        st.zone.assume_lt(ZERO, n)
        st.ghost['eof'] = True
        st.ghost['short'] = 'read'
        st.zeros = zeros + 1
        return ('a', c.dty, 0, (ZERO,))
    if k == 2:
        n = lin(nbase(st.fresh(), 1, ILEN))
        st.zone.assume_lt(n, j.as_lin(st, d[3][2]))
        st.ghost['short'] = 'read'
    stream_read(j, st, d, n)
    return ('a', c.dty, 0, (n,))


def h_take(j, st, c):
    return ('op', 'take', c.args[0], c.args[1])


def source(j, st, v):
    """What a reader or writer made of the stream is: the innermost adapter that matters, where it is kept."""
    at = None
    for _ in range(8):
        if v[0] == 'p':
            if v[3] is not None:
                return None, None
            at = v
            try:
                v = j.deref(st, v)
            except Imprecise:
                return None, None
        elif v[0] == 'box':
            at, v = None, v[1]
        elif v[0] == 'op' and v[1] in ('take', 'bufread', 'bufwrite'):
            if v[1] == 'bufread' and source(j, st, v[2])[0] is not None:
                at, v = None, v[2]
                continue
            return v, at
        else:
            return None, at
    return None, None


def beyond(j, st, v):
    """Does what is limited take more from the stream than it gives?"""
    i, _ = source(j, st, v[2])
    if i is not None and i[1] == 'bufread':
        st.ghost['unbounded_read'] = True


def h_bufreader(j, st, c):
    return ('op', 'bufread', c.args[-1])


def h_bufwriter(j, st, c):
    return ('op', 'bufwrite', c.args[-1])


def h_adapted_read(f):
    def h(j, st, c):
        v, at = source(j, st, c.args[0])
        if v is None:
            raise NotImplementedError
        if v[1] == 'bufread':
            # takes as much from the stream as its own buffer holds
            st.ghost['unbounded_read'] = True
            return f(j, st, c)
        if v[1] != 'take' or at is None:
            raise Imprecise('a reader of a reader')
        beyond(j, st, v)
        d = NV.as_slice(j, st, c.args[1])
        lim = j.as_lin(st, v[3])
        n = j.as_lin(st, d[3][2])
        if f is h_read_exact:
            if not j.le(st, n, lim):
                raise Imprecise('reads exactly more than the limit')
        elif j.le(st, lim, n):
            if j.eqi(st, lim, ZERO):
                return ('a', c.dty, 0, (ZERO,))
            n = lim
        t = type(c)(c.cal, [c.args[0], ('p', d[1], d[2], ('sl', d[3][1], n))], c.dest, c.target, c.dty, c.name)
        r = f(j, st, t)
        if r[0] == 'a' and r[2] == 0:
            got = n if f is h_read_exact else r[3][0]
            j.store(st, at[1], at[2], ('op', 'take', v[2], j.add_int(st, lim, j.as_lin(st, got), -1)))
        return r
    return h


def h_limit(j, st, c):
    v, at = source(j, st, c.args[0])
    if v is None or v[1] != 'take':
        raise NotImplementedError
    return v[3]


def h_buf_write(all):
    def h(j, st, c):
        v, at = source(j, st, c.args[0])
        if v is None or v[1] != 'bufwrite':
            raise NotImplementedError
        st.ios += 1
        segs = NV.segs_of(j, st, c.args[1])
        k = choose(j, st, 'w', 3)
        if k == 1:
            return ('a', c.dty, 1, (io_error(st),))
        if k == 2 and 'late' not in st.ghost:
            # kept for now; what becomes of it is known when the buffer is emptied
            st.ghost['late'] = st.fresh()
        out = st.ghost.get('out', ())
        st.ghost['out'] = NV.norm_segs(j, st, out + tuple(segs))
        return ('a', c.dty, 0, (UNIT if all else NV.as_slice(j, st, c.args[1])[3][2],))
    return h


def h_buf_flush(j, st, c):
    v, at = source(j, st, c.args[0])
    if v is None or v[1] != 'bufwrite':
        raise NotImplementedError
    ev = st.ghost.pop('late', None)
    if ev is None:
        return h_flush(j, st, c)
    st.ghost['iofail'] = ev
    st.ghost['iofails'] = st.ghost.get('iofails', 0) + 1
    return ('a', c.dty, 1, (('op', 'ioerr', ev),))


def stream_only(what, h):
    """The hook for calls on the stream itself, or behind references; adapters are looked through, and others (a Vec, a slice) are
    what they are in the library."""
    buffered = {'read': h_adapted_read(h_read), 'read_exact': h_adapted_read(h_read_exact),
                'write_all': h_buf_write(True), 'write': h_buf_write(False), 'flush': h_buf_flush}
    def f(j, st, c):
        n = c.name
        if n == c.cal['path']:
            # a default method, or a type that is not known
            v, _ = source(j, st, c.args[0]) if c.args else (None, None)
            if v is None or what in ('take', 'by_ref', 'read_to_end', 'write_fmt'):
                t = c.targs
                k = j.types[t[0]] if t and isinstance(t[0], int) else None
                while k is not None and k.k == 'ref':
                    k = j.types[k.to]
                if k is not None and (k.k in ('slice', 'array') or k.k == 'adt' and v is None and (k.path or '').startswith(('alloc::vec', 'alloc::collections', 'core::io::cursor', 'std::io::cursor', 'alloc::io::cursor'))):
                    return NotImplemented
                return h(j, st, c)
            return buffered[what](j, st, c) if what in buffered else h(j, st, c)
        if 'for &mut ' in n or n.startswith('<&mut ') or 'Box<' in n:
            v, _ = source(j, st, c.args[0])
            return h(j, st, c) if v is None else buffered[what](j, st, c) if what in buffered else h(j, st, c)
        if 'Take<' in n or 'BufReader<' in n or 'BufWriter<' in n:
            return buffered[what](j, st, c) if what in buffered else h(j, st, c)
        return NotImplemented
    return f


def h_read_to_end(j, st, c):
    """read_to_end / read_to_string of Take<&mut R> or of the reader itself."""
    r, buf = c.args
    v, _ = source(j, st, r)
    if v is None:
        v = r
    old = j.segs(st, j.deref(st, buf))
    pos = st.ghost.get('pos', ZERO)
    if v[0] == 'op' and v[1] == 'take':
        lim = v[3]
        beyond(j, st, v)
    else:
        lim = None
        st.ghost['unbounded_read'] = True
    after(j, st)
    k = choose(j, st, 'r', 3)
    if k == 2:
        # what arrived before the error is there
        n = lin(nbase(st.fresh(), 0, ILEN))
        if lim is not None:
            st.zone.assume_le(n, j.as_lin(st, lim))
        NV.set_seq(j, st, buf, old + (('F', byte_tmpl(), pos, j.add_int(st, pos, n, 1)),))
        st.ghost['partial'] = (pos, j.add_int(st, pos, n, 1))
        return ('a', c.dty, 1, (io_error(st),))
    if k == 0 and lim is not None:
        n = j.as_lin(st, lim)
        st.zone.assume_le(n, I(ILEN))
    else:
        # the input ends
        n = lin(nbase(st.fresh(), 0, ILEN))
        if lim is not None:
            st.zone.assume_lt(n, j.as_lin(st, lim))
        st.ghost['eof'] = True
    end = j.add_int(st, pos, n, 1)
    st.ghost['pos'] = end
    NV.set_seq(j, st, buf, old + (('F', byte_tmpl(), pos, end),))
    return ('a', c.dty, 0, (n,))


def h_ioerr_from_kind(j, st, c):
    """Into<io::Error> for ErrorKind: an error of our own making."""
    a = c.cal.get('args') or []
    t = [j.types[x] for x in a if isinstance(x, int)]
    if len(t) == 2 and t[1].path == 'core::io::error::Error' and t[0].path and t[0].path.endswith('ErrorKind'):
        return ('op', 'ioerrkind', c.args[0])
    return NotImplemented


def h_ioerr_new(j, st, c):
    return ('op', 'ioerrnew', c.args[0])


def io_by_ref(j, st, c):
    return c.args[0]


# ------------------------------------------------------------------ debug log

def log_text(j, st, a, depth=0):
    """Text of formatting arguments with \\0 for every argument, or None."""
    pcs = NV.fmt_pieces(j, st, a)
    if pcs is None:
        return None
    out = b''
    for p in pcs:
        if isinstance(p, (bytes, bytearray)):
            out += p
            continue
        v = p[3]
        if v is not None and v[0] == 'p' and depth < 4:
            try:
                inner = j.deref(st, v)
            except Imprecise:
                inner = None
            while inner is not None and inner[0] == 'p' and inner[3] is None:
                inner = j.deref(st, inner)
            if inner is not None and inner[0] == 'op' and inner[1] in ('fmt', 'fmtstr'):
                t = log_text(j, st, inner, depth + 1)
                if t is None:
                    return None
                out += t
                continue
            if inner is not None and inner[0] == 'p' and p[1] == 'display':
                b = NV.const_bytes(j, st, NV.segs_of(j, st, inner))
                if b is not None:
                    out += b
                    continue
        out += b'\0'
    return out


def log_append(j, st, t):
    line = st.ghost.get('logline', b'')
    if t is None:
        st.ghost['logunk'] = True
        return
    for ch in t.split(b'\n')[:-1]:
        line += ch
        log_line(j, st, line.strip(b' \t'))
        line = b''
    line += t.split(b'\n')[-1]
    if not line.strip(b' \t'):
        line = b''
    st.ghost['logline'] = line


def log_line(j, st, line):
    if not line:
        return
    bal = st.ghost['bal']
    st.ghost['loglines'] = True
    if line.startswith(b'</') and line.endswith(b'>'):
        st.ghost['bal'] = j.add_int(st, bal, ONE, -1)
    elif line.startswith(b'<') and line.endswith(b'/>'):
        pass
    elif line.startswith(b'<') and line.endswith(b'>'):
        st.ghost['bal'] = j.add_int(st, bal, ONE, 1)
    else:
        st.ghost['logunk'] = True


def is_log(j, st, p):
    return p[0] == 'p' and p[3] is not None and p[3][0] == 'dyn'


def log_result(j, st, c):
    """The result of writing the log: fine or not, nobody may care."""
    return ('s', c.dty, st.fresh('ev'))


def h_write_fmt(j, st, c):
    h = j.hooks.get('fmtuse')
    if h is not None:
        h(j, st, c.args[1])
    log_append(j, st, log_text(j, st, c.args[1]))
    return log_result(j, st, c)


def h_log_write_all(j, st, c):
    b = NV.const_bytes(j, st, NV.segs_of(j, st, c.args[1]))
    log_append(j, st, b)
    return log_result(j, st, c)


def h_dyn_write_all(j, st, c):
    if is_log(j, st, c.args[0]):
        return h_log_write_all(j, st, c)
    return h_write_all(j, st, c)


def h_any_write_fmt(j, st, c):
    if is_log(j, st, c.args[0]):
        return h_write_fmt(j, st, c)
    raise Imprecise('formatted output to the writer')


def h_dyn_flush(j, st, c):
    if is_log(j, st, c.args[0]):
        return log_result(j, st, c)
    return h_flush(j, st, c)


def io_hooks():
    return {
        'core::io::write::Write::write_all': stream_only('write_all', h_dyn_write_all),
        'core::io::write::Write::write': stream_only('write', h_write),
        'core::io::write::Write::flush': stream_only('flush', h_dyn_flush),
        'core::io::write::Write::write_fmt': stream_only('write_fmt', h_any_write_fmt),
        'core::io::write::Write::by_ref': stream_only('by_ref', io_by_ref),
        'alloc::io::read::Read::read_exact': stream_only('read_exact', h_read_exact),
        'alloc::io::read::Read::read': stream_only('read', h_read),
        'alloc::io::read::Read::take': stream_only('take', h_take),
        'alloc::io::read::Read::by_ref': stream_only('by_ref', io_by_ref),
        'alloc::io::read::Read::read_to_end': stream_only('read_to_end', h_read_to_end),
        'alloc::io::read::Read::read_to_string': stream_only('read_to_string', NotImpl('read_to_string')),
        '<T as core::convert::Into<U>>::into': h_ioerr_from_kind,
        '<core::io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from': lambda j, st, c: ('op', 'ioerrkind', c.args[0]),
        'core::io::error::Error::new': h_ioerr_new,
        'core::io::error::Error::kind': h_ioerr_kind,
        'std::io::error::Error::kind': h_ioerr_kind,
        'core::io::error::Error::other': h_ioerr_new,
        'std::io::error::Error::other': h_ioerr_new,
        'std::io::error::Error::new': h_ioerr_new,
        'alloc::io::buffered::bufreader::BufReader::<R>::new': h_bufreader,
        'alloc::io::buffered::bufreader::BufReader::<R>::with_capacity': h_bufreader,
        'alloc::io::buffered::bufwriter::BufWriter::<W>::new': h_bufwriter,
        'alloc::io::buffered::bufwriter::BufWriter::<W>::with_capacity': h_bufwriter,
        'core::io::util::Take::<T>::limit': h_limit,
        'vec_pop': stack_pop,
        'vec_push': stack_push,
        'drop': h_drop,
    }


def NotImpl(what):
    def f(j, st, c):
        raise Imprecise(what)
    return f


def h_drop(j, st, ty, v):
    pass


# ------------------------------------------------------------------ coder states

class World:
    """Types and layouts of the crate under analysis, found by path and by type."""
    def __init__(self, prog):
        self.prog = prog
        T = prog.types
        self.T = T
        def adt(path):
            return [t for t in T if t.k == 'adt' and t.path == path]
        self.schema = adt('schema::Schema')[0].i
        self.scalar = adt('schema::ScalarType')[0].i
        self.seqschema = adt('schema::SeqSchema')[0].i
        self.field = adt('schema::StructSchemaField')[0].i
        self.evar = adt('schema::EnumSchemaVariant')[0].i
        self.error = adt('error::Error')[0].i
        self.kind = adt('error::ErrorKind')[0].i
        self.state = adt('coder::coder::CoderState')[0].i
        self.frame = adt('coder::coder::StackFrame')[0].i
        self.api = adt('coder::coder::ApiState')[0].i
        st = T[self.state].variants[0]['fields']
        def find(fs, pred, what):
            r = [i for i, f in enumerate(fs) if pred(T[f[1]])]
            if len(r) != 1:
                raise Anchor('%s: %d candidates' % (what, len(r)))
            return r[0]
        self.f_stack = find(st, lambda t: t.path == 'alloc::vec::Vec' and T[t.args[0]].path == 'coder::coder::StackFrame', 'stack of CoderState')
        self.f_broken = find(st, lambda t: t.k == 'bool', 'broken flag of CoderState')
        self.f_log = find(st, lambda t: t.path == 'core::option::Option', 'log of CoderState')
        fr = T[self.frame].variants[0]['fields']
        self.f_schema = find(fr, lambda t: t.k == 'ref' and T[t.to].path == 'schema::Schema', 'schema of StackFrame')
        self.f_parent = find(fr, lambda t: t.path == 'core::option::Option', 'parent of StackFrame')
        self.f_api = find(fr, lambda t: t.path == 'coder::coder::ApiState', 'api state of StackFrame')
        self.optusize = fr[self.f_parent][1]
        self.logopt = st[self.f_log][1]
        self.dbglog = T[self.logopt].args[0]
        dl = T[self.dbglog].variants[0]['fields']
        self.f_indent = find(dl, lambda t: t.k == 'uint', 'indent of DbgLog')
        self.nstate = len(st)
        self.nframe = len(fr)
        self.A = {v['name']: i for i, v in enumerate(T[self.api].variants)}
        self.S = {v['name']: i for i, v in enumerate(T[self.schema].variants)}
        self.SC = {v['name']: i for i, v in enumerate(T[self.scalar].variants)}
        self.K = {v['name']: i for i, v in enumerate(T[self.kind].variants)}
        for n in ('Need', 'AutoFinish', 'Seq', 'Tuple', 'Struct', 'Enum'):
            if n not in self.A:
                raise Anchor('coding state ' + n)
        self.usize = next(t.i for t in T if t.s == 'usize')
        sf = T[self.seqschema].variants[0]['fields']
        self.q_len = [i for i, f in enumerate(sf) if f[0] == 'len'][0]
        self.q_inner = [i for i, f in enumerate(sf) if f[0] == 'inner'][0]
        self.x_name = {}
        self.x_inner = {}
        for t in (self.field, self.evar):
            fs = T[t].variants[0]['fields']
            self.x_name[t] = [i for i, f in enumerate(fs) if f[0] == 'name'][0]
            self.x_inner[t] = [i for i, f in enumerate(fs) if f[0] == 'inner'][0]

    def api_field(self, variant, name):
        for i, f in enumerate(self.T[self.api].variants[self.A[variant]]['fields']):
            if f[0] == name:
                return i
        raise Anchor('field %s of state %s' % (name, variant))


class Anchor(Exception):
    """Something the rules are anchored to is not there."""


CS = ('O', 'cs', None)
DEPTH = ('n', 0, 1 << 50, 'depth')      # number of lexical ancestors of the top frame
NBELOW = ('n', 0, 1 << 50, 'below')     # frames below the top one
BELOW = ('AutoFinish', 'Seq', 'Tuple', 'Struct')


class Pre:
    """An abstract coder state to start from."""
    def __init__(self, name, top, broken, n, log):
        self.name = name
        self.top = top          # name of the state of the top frame, None if there is none
        self.broken = broken
        self.n = n              # frames below the top: None (any) or a number
        self.log = log          # 's' (unknown)


PRES = ('broken', 'empty', 'need', 'needrec', 'seq', 'tuple', 'struct', 'enum')


def build_state(w, j, st, cls, n=None):
    """Makes the object cs in st a coder state of the class; sets up j's hooks."""
    cs = ('O', 'cs', w.state)
    st.zone.assume_le(lin(NBELOW), I(1 << 50))
    below = lin(NBELOW) if n is None else I(n)
    fam = ('s', w.frame, ('stk', HOLE))
    segs = (('F', fam, ZERO, below),) if n != 0 else ()
    brk = cls == 'broken'
    top = None
    sch_obj = ('O', 'sch', w.schema)
    sch = ('s', w.schema, ('*', 'sch'))
    if cls in ('needrec',):
        segs = ()
        if n is None:
            st.zone.assume_eq(lin(NBELOW), ZERO)
        elif n != 0:
            return None
    api = None
    A = w.A
    def vec_len(v):
        name = ('f', ('*', 'sch'), w.S[v], 0)
        return lin(nbase(('len', name), 0, ILEN))
    if cls == 'need':
        api = ('a', w.api, A['Need'], ())
        st.facts[('*', 'sch')] = frozenset(i for v, i in w.S.items() if v != 'Recurse')
    elif cls == 'needrec':
        api = ('a', w.api, A['Need'], ())
        st.facts[('*', 'sch')] = frozenset((w.S['Recurse'],))
    elif cls == 'seq':
        api = j.expand_variant(('s', w.api, 'api'), A['Seq'])
        st.facts[('*', 'sch')] = frozenset((w.S['Seq'],))
        st.zone.assume_le(api[3][w.api_field('Seq', 'next')], api[3][w.api_field('Seq', 'len')])
    elif cls == 'tuple':
        api = j.expand_variant(('s', w.api, 'api'), A['Tuple'])
        st.facts[('*', 'sch')] = frozenset((w.S['Tuple'],))
        st.zone.assume_le(api[3][w.api_field('Tuple', 'next')], vec_len('Tuple'))
    elif cls == 'struct':
        api = j.expand_variant(('s', w.api, 'api'), A['Struct'])
        st.facts[('*', 'sch')] = frozenset((w.S['Struct'],))
        st.zone.assume_le(api[3][w.api_field('Struct', 'next')], vec_len('Struct'))
    elif cls == 'enum':
        o = lin(nbase('ord', 0, USZ))
        k = w.api_field('Enum', 'variant_ord')
        if len(w.T[w.api].variants[A['Enum']]['fields']) != 1:
            raise Anchor('state Enum')
        oty = w.T[w.api].variants[A['Enum']]['fields'][k][1]
        api = ('a', w.api, A['Enum'], (('a', oty, 1, (o,)),))
        st.facts[('*', 'sch')] = frozenset((w.S['Enum'],))
        st.zone.assume_lt(o, vec_len('Enum'))
    ind = None
    if cls in ('broken', 'empty'):
        if cls == 'empty':
            segs = ()
        if cls == 'empty':
            ind = ZERO
    else:
        fs = [None] * w.nframe
        fs[w.f_schema] = ('p', sch_obj, (), None)
        fs[w.f_parent] = ('s', w.optusize, ('par', ZERO))
        fs[w.f_api] = api
        for i in range(w.nframe):
            if fs[i] is None:
                fs[i] = j.sym(w.T[w.frame].variants[0]['fields'][i][1], ('fx', i))
        top = ('a', w.frame, 0, tuple(fs))
        segs = segs + (('S', top),)
        ind = below if cls in ('need', 'needrec') else j.add_int(st, below, ONE, 1)
        if cls == 'needrec':
            ind = ZERO
    vals = [None] * w.nstate
    vals[w.f_stack] = ('vec', segs)
    vals[w.f_broken] = TRUE if brk else FALSE
    log = ('s', w.logopt, 'log')
    vals[w.f_log] = log
    for i in range(w.nstate):
        if vals[i] is None:
            vals[i] = j.sym(w.T[w.state].variants[0]['fields'][i][1], ('sx', i))
    st.mem[cs] = ('a', w.state, 0, tuple(vals))
    # indent of the log, if there is one
    dl = j.expand(('s', w.dbglog, ('f', 'log', 1, 0)))
    indent = dl[3][w.f_indent]
    if ind is not None:
        st.zone.assume_eq(indent, ind)
    else:
        st.zone.assume_le(indent, I(1 << 50))
    # number of log lines that are open
    st.ghost['bal'] = indent
    info = {'cls': cls, 'n': n, 'below': below, 'segs': segs, 'top': top, 'indent': indent,
            'cs': cs, 'sch': sch, 'api': api, 'broken': brk}
    install(w, j, info)
    return info


def install(w, j, info):
    brk = info['broken']
    allowed = frozenset(w.A[a] for a in BELOW)

    def materialize(job, st, v, seg):
        if v[0] != 's' or not isinstance(v[2], tuple) or v[2][0] != 'stk':
            return v
        i = v[2][1]
        if i[1] is not None and i[2] == 0 and isinstance(i[1][3], tuple) and i[1][3][:1] == ('anc',):
            k = i[1][3][1]
            fs = list(job.expand(v)[3])
            fs[w.f_parent] = ('s', w.optusize, ('par', k))
            fs[w.f_schema] = ('p', ('O', ('ancsch', k), w.schema), (), None)
            v = ('a', v[1], 0, tuple(fs))
            if not brk:
                name = fs[w.f_api][2]
                job_fact(st, name, allowed)
            return v
        v = job.expand(v)
        if not brk:
            api = v[3][w.f_api]
            job_fact(st, api[2], allowed)
        return v
    j.materialize = materialize

    def on_fact(job, s, name, vs):
        if isinstance(name, tuple) and name[:1] == ('par',):
            k = name[1]
            if vs == frozenset((1,)):
                # frame k has a parent: ancestor k + 1
                s.zone.assume_lt(k, lin(DEPTH))
                nx = job.add_int(s, k, ONE, 1)
                a = anc_index(job, nx)
                s.zone.assume_lt(a, info['below'])
            elif vs == frozenset((0,)):
                s.zone.assume_le(lin(DEPTH), k)
    j.on_fact = on_fact
    # payload of the parent option
    orig = j.expand_variant

    def expand_variant(v, variant):
        if isinstance(v[2], tuple) and v[2][:1] == ('par',) and v[1] == w.optusize and variant == 1:
            k = v[2][1]
            return ('a', v[1], 1, (anc_index(j, ('i', k[1], k[2] + 1)),))
        return orig(v, variant)
    j.expand_variant = expand_variant
    proj0 = j.proj

    def proj(st, v, e):
        if v is not None and v[0] == 's' and v[1] == w.optusize and isinstance(v[2], tuple) and v[2][:1] == ('par',) \
                and e != 'B' and e[0] == 'f' and e[1] == 1:
            k = v[2][1]
            return anc_index(j, ('i', k[1], k[2] + 1))
        return proj0(st, v, e)
    j.proj = proj


def anc_index(j, k):
    return lin(nbase(('anc', k), 0, 1 << 50))


def job_fact(st, name, vs):
    f = st.facts.get(name)
    if f is None:
        st.facts[name] = vs
    else:
        f2 = f & vs
        if not f2:
            raise Infeasible()
        st.facts[name] = f2


def is_cs_stack(p):
    return p[1][0] == 'O' and p[1][1] == 'cs'


def stack_pop(j, st, p, v):
    """Notes what is popped from the coding stack."""
    if not is_cs_stack(p):
        return
    w = j.world
    k = st.ghost.get('pops', 0)
    if v[0] == 's':
        v = j.expand(v)
    api = v[3][w.f_api]
    if k == 0:
        st.ghost['pops'] = 1
        st.ghost['pop0'] = api
        return
    vs = j.variants(st, api)
    af = frozenset((w.A['AutoFinish'],))
    if vs == af:
        return
    if not vs & af:
        st.ghost['badpop'] = 'an unfinished frame'
    else:
        st.ghost['badpop'] = 'a frame that may be unfinished'


def stack_push(j, st, p, v):
    pass


def new_job(w, max_states=60000):
    h = io_hooks()
    j = Job(w.prog, NV.N, h, max_states)
    j.world = w
    if getattr(w, "job_hook", None):
        w.job_hook(j)
    return j
