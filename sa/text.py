"""Formatting, with the text kept: constants as they are, what is not known as a token that stands for its rendering."""
from core import *
from interp import Inline, CallVal
import natives as NV
from natives import native, N, cat, const_bytes, segs_of, as_slice

TRAITS = ('Display', 'Debug', 'LowerHex', 'UpperHex', 'Binary', 'Octal', 'LowerExp', 'UpperExp', 'Pointer')


def token(j, what):
    """The unknown text of something; the same for the same thing."""
    return (('F', j.sym(j.u8(), ('el', what, HOLE)), ZERO, lin(nbase(('len', what), 0, ILEN))),)


def peel(j, st, v):
    """What references and boxes lead to."""
    for _ in range(12):
        if v is None:
            return v
        if v[0] == 'p' and (v[3] is None or v[3][0] == 'dyn'):
            v = j.deref(st, v)
        elif v[0] == 'box':
            v = v[1]
        elif v[0] == 'dynv':
            v = v[2]
        else:
            return v
    return v


def canon(j, st, v):
    """A value without what does not tell it from an equal one."""
    if isinstance(v, tuple):
        if v and v[0] == 'p' and v[3] is not None and v[3][0] == 'sl':
            return ('text',) + tuple(segs_of(j, st, v))
        if v and v[0] == 'b':
            return j.as_lin(st, v)
        return tuple(canon(j, st, x) for x in v)
    return v


def debug_str(b):
    out = '"'
    for ch in b.decode('utf8', 'replace'):
        if ch in '"\\':
            out += '\\' + ch
        elif ch in '\n\t\r\0':
            out += {'\n': '\\n', '\t': '\\t', '\r': '\\r', '\0': '\\0'}[ch]
        elif ch.isprintable():
            out += ch
        else:
            out += '\\u{%x}' % ord(ch)
    return (out + '"').encode()


def is_text(t):
    return t.s == 'str' or t.path == 'alloc::string::String'


def render(j, st, kind, ty, ptr, spec):
    """Segments of the text of a value, or None if the value's own code says."""
    t = j.types[ty] if ty is not None else None
    if spec.strip(b'\xc0'):
        raise Imprecise('formatting with options')
    v = peel(j, st, ptr)
    if v is None:
        raise Imprecise('formatting of nothing')
    if v[0] == 'op' and v[1] in ('fmt', 'fmtstr'):
        return None
    known = False
    if v[0] == 'op' and v[1] == 'strerr':
        v = peel(j, st, v[2])
        known = True
    if v[0] == 's' and is_text(j.types[v[1]]):
        v = ('vec', tuple(j.segs(st, v)))
        known = True
    while t is not None and t.k == 'ref':
        t = j.types[t.to]
    s = t.s if t is not None else ''
    if v[0] in ('vec', 'seq') or v[0] == 'p' and v[3][0] == 'sl':
        if known or t is not None and is_text(t) or v[0] == 'p':
            segs = j.segs(st, v) if v[0] != 'p' else segs_of(j, st, v)
            if kind == 'display':
                return segs
            b = const_bytes(j, st, segs)
            if b is not None:
                return (('C', debug_str(b)),)
            return token(j, ('shown', kind, tuple(segs)))
    if t is not None and j.is_int(t.i) and t.k != 'bool' and s != 'char':
        n = j.to_const(st, v)
        if n is not None and kind in ('display', 'debug'):
            return (('C', str(n).encode()),)
        return token(j, ('shown', kind, canon(j, st, j.as_lin(st, v))))
    return token(j, ('shown', kind, canon(j, st, v)))


class Sink:
    """Appends what is formatted to a String, in place."""
    def __init__(self, ptr):
        self.ptr = ptr

    def put(self, j, st, segs):
        v = j.deref(st, self.ptr)
        j.store(st, self.ptr[1], self.ptr[2], ('vec', cat(j.segs(st, v), segs)))


def formatter(j, st, ptr):
    o = ('FO', st.fresh())
    st.mem[o] = ('op', 'fmtr', ptr)
    return ('p', o, (), None)


def sink_of(j, st, f):
    v = peel(j, st, f)
    if v[0] == 'op' and v[1] == 'fmtr':
        return v[2]
    if f[0] == 'p' and v[0] == 'vec':
        return f
    raise Imprecise('formatting to something')


def okv(j, dty):
    return ('a', dty, 0, (UNIT,))


def own(j, cal):
    """Is the code of this fmt function the crate's own?"""
    b = cal.get('body')
    if b is None:
        return False
    k = j.prog.bodies[b]
    return k.krate == 'binschema' and not derived(j, b)


def derived(j, b):
    return any('call' in bl['t'] and '::debug_' in bl['t']['call'].get('callee', {}).get('path', '') for bl in j.prog.bodies[b].blocks)


def pieces(j, st, a, out):
    pcs = NV.fmt_pieces(j, st, a)
    if pcs is None:
        raise Imprecise('formatting that is not known')
    for p in pcs:
        if isinstance(p, (bytes, bytearray)):
            out.append(bytes(p))
            continue
        v = peel(j, st, p[3]) if p[3] is not None else None
        if v is not None and v[0] == 'op' and v[1] in ('fmt', 'fmtstr') and not p[4].strip(b'\xc0'):
            pieces(j, st, v, out)
        else:
            out.append(p)
    return out


def write(j, st, c, ptr, a, end):
    """Writes formatting arguments to the String at ptr, then goes on with end(st)."""
    ps = tuple(pieces(j, st, a, []))
    sink = Sink(ptr)

    def go(j, st, k):
        while k < len(ps):
            p = ps[k]
            k += 1
            if isinstance(p, bytes):
                sink.put(j, st, (('C', p),))
                continue
            cal = p[5]
            if cal is not None and own(j, cal) and not p[4].strip(b'\xc0'):
                f = formatter(j, st, ptr)
                k2 = k
                return Inline(cal['body'], [p[3], f], lambda j, st, v: done(j, st, go(j, st, k2)))
            sink.put(j, st, render(j, st, p[1], p[2], p[3], p[4]))
        return end(st)

    def done(j, st, r):
        if isinstance(r, Inline):
            j.inline(st, r.body, r.args, c.dest, c.target, r.cont)
            return None
        return r
    return go(j, st, 0)


def h_format(j, st, c):
    o = ('FS', st.fresh())
    st.mem[o] = ('vec', ())
    return write(j, st, c, ('p', o, (), None), c.args[0], lambda st: st.mem.pop(o))


def h_write_fmt(j, st, c):
    ptr = sink_of(j, st, c.args[0])
    return write(j, st, c, ptr, c.args[1], lambda st: okv(j, c.dty))


def h_write_str(j, st, c):
    Sink(sink_of(j, st, c.args[0])).put(j, st, segs_of(j, st, c.args[1]))
    return okv(j, c.dty)


def h_write_char(j, st, c):
    n = j.to_const(st, c.args[1])
    if n is None:
        raise Imprecise('unknown character')
    Sink(sink_of(j, st, c.args[0])).put(j, st, (('C', chr(n).encode()),))
    return okv(j, c.dty)


def h_fmt(kind):
    def h(j, st, c):
        if own(j, c.cal):
            return NotImplemented
        a = c.cal.get('args')
        r = render(j, st, kind, a[0] if a else None, c.args[0], b'')
        if r is None:
            return NotImplemented
        Sink(sink_of(j, st, c.args[1])).put(j, st, r)
        return okv(j, c.dty)
    return h


def h_to_string(j, st, c):
    a = c.cal.get('rargs') or c.cal.get('args')
    o = ('FS', st.fresh())
    cal = None
    b = c.cal.get('body')
    if b is not None:
        cal = display_callee(j, b)
    if cal is not None and own(j, cal):
        st.mem[o] = ('vec', ())
        f = formatter(j, st, ('p', o, (), None))
        return Inline(cal['body'], [c.args[0], f], lambda j, st, v: st.mem.pop(o))
    return ('vec', render(j, st, 'display', a[0] if a else None, c.args[0], b''))


def display_callee(j, b, depth=0):
    """The `Display::fmt` that a `to_string` calls."""
    for bl in j.prog.bodies[b].blocks:
        t = bl['t']
        if 'call' not in t:
            continue
        cal = t['call'].get('callee')
        if cal is None:
            continue
        if cal.get('trait') == 'core::fmt::Display':
            return cal
        if cal.get('body') is not None and depth < 3 and 'string' in (cal.get('path') or '').lower():
            r = display_callee(j, cal['body'], depth + 1)
            if r is not None:
                return r
    return None


def hooks():
    h = {
        'alloc::fmt::format': h_format,
        "core::fmt::Formatter::<'a>::write_str": h_write_str,
        "core::fmt::Formatter::<'a>::write_fmt": h_write_fmt,
        "core::fmt::Formatter::<'a>::pad": h_write_str,
    }
    for n in ('<T as alloc::string::ToString>::to_string', 'alloc::string::ToString::to_string', '<T as alloc::string::SpecToString>::spec_to_string'):
        h[n] = h_to_string
    h['core::fmt::Write', 'write_str'] = h_write_str
    h['core::fmt::Write', 'write_fmt'] = h_write_fmt
    h['core::fmt::Write', 'write_char'] = h_write_char
    for t in TRAITS:
        h['core::fmt::' + t, 'fmt'] = h_fmt(t.lower())
    return h
