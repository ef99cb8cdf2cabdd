"""Models of std functions that are not (or not usefully) analysed through their MIR."""
from core import *
from interp import Inline, CallVal

N = {}


def native(*names):
    def deco(f):
        for n in names:
            N[n] = f
        return f
    return deco


def some(c, v):
    return ('a', c.dty, 1, (v,))


def none(c):
    return ('a', c.dty, 0, ())


def okv(c, v):
    return ('a', c.dty, 0, (v,))


def errv(c, v):
    return ('a', c.dty, 1, (v,))


def vec_ptr_slice(j, st, p):
    """Slice pointer of what a &Vec, &String, &[T; N] points to."""
    v = j.deref(st, p)
    segs = j.segs(st, v)
    return ('p', p[1], p[2], ('sl', ZERO, j.segs_len(st, segs)))


def as_slice(j, st, p):
    """A slice pointer for any reference to a sequence."""
    if p[0] == 'p' and p[3] is not None and p[3][0] == 'sl':
        return p
    if p[0] == 'p':
        v = j.deref(st, p)
        if v[0] == 'p':
            return as_slice(j, st, v)
        return vec_ptr_slice(j, st, p)
    raise Imprecise('slice of ' + p[0])


def elem_ptr(j, st, p, i):
    """Pointer to element i of a slice pointer."""
    start = p[3][1]
    return ('p', p[1], p[2] + (('i', j.add_int(st, start, i, 1)),), None)


def segs_of(j, st, p):
    return j.deref_segs(st, as_slice(j, st, p))


def set_seq(j, st, p, segs, tag='vec'):
    j.store(st, p[1], p[2], (tag, tuple(segs)))


# ---------------------------------------------------------------- Vec, String

@native('alloc::vec::Vec::<T>::new', 'alloc::string::String::new',
        '<alloc::vec::Vec<T> as core::default::Default>::default',
        '<alloc::string::String as core::default::Default>::default')
def vec_new(j, st, c):
    return ('vec', ())


@native('alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::with_capacity')
def vec_with_capacity(j, st, c):
    alloc(j, st, c, c.args[0])
    return ('vec', ())


def alloc(j, st, c, n):
    h = j.hooks.get('alloc')
    if h is not None:
        h(j, st, c, n)


@native('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact',
        'alloc::string::String::reserve', 'alloc::string::String::reserve_exact')
def vec_reserve(j, st, c):
    alloc(j, st, c, c.args[1])
    return UNIT


@native('alloc::vec::Vec::<T, A>::try_reserve', 'alloc::vec::Vec::<T, A>::try_reserve_exact',
        'alloc::string::String::try_reserve', 'alloc::string::String::try_reserve_exact')
def vec_try_reserve(j, st, c):
    alloc(j, st, c, c.args[1])
    return j.sym(c.dty, st.fresh())


@native('alloc::vec::Vec::<T, A>::capacity', 'alloc::string::String::capacity')
def vec_capacity(j, st, c):
    """Some number no less than the length."""
    n = j.segs_len(st, j.segs(st, j.deref(st, c.args[0])))
    v = lin(nbase(st.fresh(), 0, USZ))
    st.zone.assume_le(j.as_lin(st, n), v)
    return v


@native('alloc::vec::Vec::<T, A>::push')
def vec_push(j, st, c):
    p, v = c.args
    segs = j.segs(st, j.deref(st, p))
    set_seq(j, st, p, j.seq_push(st, segs, v))
    h = j.hooks.get('vec_push')
    if h is not None:
        h(j, st, p, v)
    return UNIT


@native('alloc::vec::Vec::<T, A>::pop')
def vec_pop(j, st, c):
    p = c.args[0]
    segs = j.segs(st, j.deref(st, p))
    n = j.segs_len(st, segs)
    if not j.lt(st, ZERO, n):
        return none(c)
    last = j.add_int(st, n, ONE, -1)
    v = j.seq_get(st, segs, last)
    new = j.seq_slice(st, segs, ZERO, last)
    set_seq(j, st, p, new)
    h = j.hooks.get('vec_pop')
    if h is not None:
        h(j, st, p, v)
    return some(c, v)


@native('alloc::vec::Vec::<T, A>::len', 'alloc::string::String::len', 'core::str::<impl str>::len',
        'core::slice::<impl [T]>::len')
def seq_len(j, st, c):
    return j.slice_len(st, as_slice(j, st, c.args[0]))


@native('alloc::vec::Vec::<T, A>::is_empty', 'alloc::string::String::is_empty', 'core::str::<impl str>::is_empty',
        'core::slice::<impl [T]>::is_empty')
def seq_is_empty(j, st, c):
    n = j.slice_len(st, as_slice(j, st, c.args[0]))
    return FALSE if j.lt(st, ZERO, n) else TRUE


@native('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear')
def vec_clear(j, st, c):
    h = j.hooks.get('vec_clear')
    if h is not None:
        h(j, st, c.args[0])
    set_seq(j, st, c.args[0], ())
    return UNIT


@native('alloc::vec::Vec::<T, A>::truncate')
def vec_truncate(j, st, c):
    p, n = c.args
    segs = j.segs(st, j.deref(st, p))
    l = j.segs_len(st, segs)
    if j.lt(st, n, l):
        set_seq(j, st, p, j.seq_slice(st, segs, ZERO, n))
    return UNIT


@native('alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::vec::Vec::<T, A>::shrink_to')
def vec_shrink(j, st, c):
    return UNIT


@native('alloc::vec::from_elem')
def vec_from_elem(j, st, c):
    alloc(j, st, c, c.args[1])
    return ('vec', (('F', c.args[0], ZERO, c.args[1]),))


@native('alloc::vec::Vec::<T, A>::resize')
def vec_resize(j, st, c):
    p, n, v = c.args
    segs = j.segs(st, j.deref(st, p))
    l = j.segs_len(st, segs)
    if j.lt(st, n, l):
        set_seq(j, st, p, j.seq_slice(st, segs, ZERO, n))
        return UNIT
    alloc(j, st, c, n)
    if j.to_const(st, l) == 0:
        set_seq(j, st, p, (('F', v, ZERO, n),))
        return UNIT
    more = j.add_int(st, n, l, -1)
    set_seq(j, st, p, tuple(segs) + (('F', v, ZERO, more),))
    return UNIT


@native('alloc::vec::Vec::<T, A>::append')
def vec_append(j, st, c):
    p, q = c.args
    a = j.segs(st, j.deref(st, p))
    b = j.segs(st, j.deref(st, q))
    set_seq(j, st, p, tuple(a) + tuple(b))
    set_seq(j, st, q, ())
    return UNIT


@native('alloc::vec::Vec::<T, A>::split_off')
def vec_split_off(j, st, c):
    p, n = c.args
    segs = j.segs(st, j.deref(st, p))
    l = j.segs_len(st, segs)
    if j.lt(st, l, n):
        raise Panic('split_off out of bounds')
    set_seq(j, st, p, j.seq_slice(st, segs, ZERO, n))
    return ('vec', tuple(j.seq_slice(st, segs, n, l)))


@native('alloc::vec::Vec::<T, A>::remove')
def vec_remove(j, st, c):
    p, i = c.args
    segs = j.segs(st, j.deref(st, p))
    l = j.segs_len(st, segs)
    if not j.lt(st, i, l):
        raise Panic('remove out of bounds')
    v = j.seq_get(st, segs, i)
    set_seq(j, st, p, tuple(j.seq_slice(st, segs, ZERO, i)) + tuple(j.seq_slice(st, segs, j.add_int(st, i, ONE, 1), l)))
    return v


@native('alloc::vec::Vec::<T, A>::insert')
def vec_insert(j, st, c):
    p, i, v = c.args
    segs = j.segs(st, j.deref(st, p))
    l = j.segs_len(st, segs)
    if j.lt(st, l, i):
        raise Panic('insert out of bounds')
    set_seq(j, st, p, tuple(j.seq_slice(st, segs, ZERO, i)) + (('S', v),) + tuple(j.seq_slice(st, segs, i, l)))
    return UNIT


@native('core::str::<impl str>::is_ascii', 'core::slice::ascii::<impl [u8]>::is_ascii')
def is_ascii(j, st, c):
    segs = segs_of(j, st, c.args[0])
    return TRUE if ascii_ok(j, st, segs) else FALSE


def ascii_ok(j, st, segs):
    b = const_bytes(j, st, segs)
    if b is not None:
        return b.isascii()
    if j.to_const(st, j.segs_len(st, segs)) == 0:
        return True
    r = j.pred(st, ('ascii', tuple(segs)))
    if not r:
        st.zone.assume_lt(ZERO, j.segs_len(st, segs))
    return r


@native('core::str::<impl str>::chars')
def str_chars(j, st, c):
    segs = tuple(segs_of(j, st, c.args[0]))
    b = const_bytes(j, st, segs)
    if b is not None:
        # the characters themselves
        return ('op', 'viter', ('seq', tuple(('S', I(ord(x))) for x in b.decode('utf8', 'replace'))), ZERO, I(len(b.decode('utf8', 'replace'))))
    return ('op', 'chars', segs)


@native("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next")
def chars_next(j, st, c):
    return viter_next(j, st, c)


@native("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::size_hint",
        "<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::advance_by")
def chars_hint(j, st, c):
    if not c.name.endswith('hint'):
        return NotImplemented
    # nobody may rely on more than this
    t = j.types[c.dty]
    return ('a', c.dty, 0, (ZERO, ('a', t.elems[1], 0, ())))


@native('alloc::string::String::push')
def string_push(j, st, c):
    p, ch = c.args
    n = j.to_const(st, ch)
    if n is None:
        return NotImplemented
    set_seq(j, st, p, cat(j.segs(st, j.deref(st, p)), (('C', chr(n).encode()),)))
    return UNIT


def cat(a, b):
    """Segments in a row, constants made one."""
    out = list(a)
    for s in b:
        if s[0] == 'C' and out and out[-1][0] == 'C':
            out[-1] = ('C', out[-1][1] + s[1])
        elif s[0] != 'C' or s[1]:
            out.append(s)
    return tuple(out)


@native("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::count")
def chars_count(j, st, c):
    v = c.args[0]
    if v[0] == 'op' and v[1] == 'viter':
        return j.add_int(st, v[4], v[3], -1)
    if v[0] != 'op' or v[1] != 'chars':
        raise Imprecise('count of chars')
    n = j.segs_len(st, v[2])
    b = const_bytes(j, st, v[2])
    if b is not None:
        return I(len(b.decode('utf8')))
    if ascii_ok(j, st, v[2]):
        return n
    # a text with a char of several bytes
    k = lin(nbase(('chars', n), 1, ILEN))
    st.zone.assume_lt(k, n)
    return k


@native('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref',
        '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
        '<alloc::string::String as core::ops::deref::Deref>::deref',
        '<alloc::string::String as core::ops::deref::DerefMut>::deref_mut',
        'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
        'alloc::string::String::as_str', 'alloc::string::String::as_bytes',
        'alloc::string::String::as_mut_str',
        'core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_mut_slice',
        'core::array::<impl core::borrow::BorrowMut<[T]> for [T; N]>::borrow_mut',
        'core::array::<impl core::borrow::Borrow<[T]> for [T; N]>::borrow',
        'core::str::<impl str>::as_bytes',
        '<alloc::string::String as core::convert::AsRef<str>>::as_ref',
        '<alloc::string::String as core::convert::AsRef<[u8]>>::as_ref',
        '<alloc::string::String as core::borrow::Borrow<str>>::borrow',
        '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
        '<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut',
        '<alloc::vec::Vec<T, A> as core::borrow::BorrowMut<[T]>>::borrow_mut',
        '<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow')
def seq_as_slice(j, st, c):
    return as_slice(j, st, c.args[0])


@native('core::str::converts::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked_mut')
def str_unchecked(j, st, c):
    return c.args[0]


@native('core::str::converts::from_utf8')
def str_from_utf8(j, st, c):
    segs = segs_of(j, st, c.args[0])
    if utf8_ok(j, st, segs):
        return okv(c, c.args[0])
    return errv(c, ('op', 'utf8err', ('vec', segs)))


def utf8_ok(j, st, segs):
    b = const_bytes(j, st, segs)
    if b is not None:
        try:
            b.decode('utf8')
            return True
        except UnicodeDecodeError:
            return False
    if len(segs) == 1 and segs[0][0] == 'F':
        n = j.seg_len(st, segs[0])
        if j.to_const(st, n) == 0:
            return True
        # bytes of something that is a str to begin with
    r = j.pred(st, ('utf8', segs))
    if not r:
        st.zone.assume_lt(ZERO, j.segs_len(st, segs))
    return r


@native('alloc::string::String::from_utf8')
def string_from_utf8(j, st, c):
    v = c.args[0]
    segs = j.segs(st, v)
    if utf8_ok(j, st, segs):
        return okv(c, ('vec', segs))
    # FromUtf8Error { bytes, error }
    return errv(c, ('op', 'fromutf8err', ('vec', segs)))


@native('alloc::string::FromUtf8Error::utf8_error')
def utf8_error(j, st, c):
    v = j.deref(st, c.args[0])
    if v[0] != 'op':
        raise NotImplementedError
    return ('op', 'utf8err', v[2])


@native('core::str::error::Utf8Error::valid_up_to')
def utf8_valid(j, st, c):
    v = j.deref(st, c.args[0]) if c.args[0][0] == 'p' else c.args[0]
    if v[0] != 'op' or len(v) < 3:
        raise NotImplementedError
    segs = j.segs(st, v[2])
    n = lin(nbase(('utf8valid', segs), 0, (1 << 63) - 1))
    st.zone.assume_lt(n, j.segs_len(st, segs))
    return n


@native('core::str::error::Utf8Error::error_len')
def utf8_len(j, st, c):
    v = j.deref(st, c.args[0]) if c.args[0][0] == 'p' else c.args[0]
    if v[0] != 'op' or len(v) < 3:
        raise NotImplementedError
    segs = j.segs(st, v[2])
    if j.pred(st, ('utf8cut', segs)):
        return none(c)
    return some(c, lin(nbase(('utf8errlen', segs), 1, 3)))


@native('alloc::string::FromUtf8Error::into_bytes')
def fromutf8_into_bytes(j, st, c):
    return c.args[0][2]


@native('alloc::string::String::from_utf8_unchecked', 'alloc::string::String::into_bytes',
        'alloc::string::String::into_boxed_str', 'alloc::vec::Vec::<T, A>::into_boxed_slice',
        'alloc::slice::<impl [T]>::into_vec', 'alloc::str::<impl str>::into_string')
def same_value(j, st, c):
    v = c.args[0]
    if v[0] == 's':
        return ('vec', j.segs(st, v))
    if v[0] == 'box':
        return ('vec', j.segs(st, v[1]))
    return v


@native('<alloc::string::String as core::convert::From<&str>>::from',
        'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned',
        'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned',
        '<str as alloc::string::SpecToString>::spec_to_string',
        '<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from',
        '<alloc::string::String as core::clone::Clone>::clone',
        '<alloc::vec::Vec<T, A> as core::clone::Clone>::clone',
        'alloc::str::<impl core::convert::From<&str> for alloc::string::String>::from',
        'core::str::<impl str>::to_string')
def to_owned(j, st, c):
    if 'Clone' in c.name and 'vec::Vec' in c.name:
        h = j.hooks.get('vec_clone')
        if h is not None:
            h(j, st, c)
    elif 'Clone' in c.name and c.args[0][0] == 'p':
        v = j.deref(st, c.args[0])
        if v[0] == 's' and v[1] == c.dty:
            return v
    return ('vec', segs_of(j, st, c.args[0]))


@native('alloc::string::String::push_str', 'alloc::vec::Vec::<T, A>::extend_from_slice')
def push_str(j, st, c):
    p, s = c.args
    a = j.segs(st, j.deref(st, p))
    b = segs_of(j, st, s)
    set_seq(j, st, p, a + b)
    return UNIT


@native('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index',
        '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
        'core::array::<impl core::ops::index::Index<I> for [T; N]>::index',
        'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut',
        'core::slice::index::<impl core::ops::index::Index<I> for [T]>::index',
        'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut',
        'core::str::traits::<impl core::ops::index::Index<I> for str>::index',
        '<alloc::string::String as core::ops::index::Index<I>>::index')
def index(j, st, c):
    p, i = c.args
    r = do_index(j, st, p, i)
    if r is None:
        raise Panic('index out of bounds')
    if 'String' in c.name or 'for str>' in c.name:
        q = as_slice(j, st, p)
        for n in (j.as_lin(st, r[3][1]), j.add_int(st, r[3][1], j.as_lin(st, r[3][2]), 1)):
            if not boundary(j, st, q, n):
                raise Panic('index within a character')
    return r


def boundary(j, st, q, at):
    """May a text be cut there? Not if nothing is known of it, and the place is that many bytes from its start."""
    k = j.to_const(st, at)
    if k is None or q[3] is None or k == j.to_const(st, q[3][1]):
        return True
    if st.zone.eq(at, j.add_int(st, q[3][1], j.as_lin(st, q[3][2]), 1)):
        return True
    segs = j.deref_segs(st, q)
    if len(segs) != 1 or segs[0][0] != 'F':
        return True
    t = repr(segs[0][1])
    if any(k[0] not in ('utf8', 'streq', 'boundary') and t in repr(k) for k in st.preds if isinstance(k, tuple)):
        return True
    base = segs[0][1][1] if segs[0][1][0] == 'i' else None
    if base is None or any(repr(base)[:40] in repr(x) for x in st.bits):
        return True
    return j.pred(st, ('boundary', segs, at))


def range_of(j, st, i, n):
    """(lo, hi) of a range value for a length, or None if i is no range."""
    if i[0] == 's':
        i = j.expand(i)
    if i[0] != 'a' or i[1] is None:
        return None
    p = j.types[i[1]].path
    if p == 'core::ops::range::Range':
        return i[3][0], i[3][1]
    if p == 'core::ops::range::RangeTo':
        return ZERO, i[3][0]
    if p == 'core::ops::range::RangeFrom':
        return i[3][0], n
    if p == 'core::ops::range::RangeFull':
        return ZERO, n
    if p == 'core::ops::range::RangeInclusive':
        return i[3][0], j.add_int(st, i[3][1], ONE, 1)
    if p == 'core::ops::range::RangeToInclusive':
        return ZERO, j.add_int(st, i[3][0], ONE, 1)
    return None


def do_index(j, st, p, i):
    p = as_slice(j, st, p)
    n = p[3][2]
    if i[0] in ('i', 'b'):
        i = j.as_lin(st, i)
        if not j.lt(st, i, n):
            return None
        return elem_ptr(j, st, p, i)
    r = range_of(j, st, i, n)
    if r is None:
        raise Imprecise('index by ' + str(i[:2]))
    lo, hi = j.as_lin(st, r[0]), j.as_lin(st, r[1])
    if not j.le(st, lo, hi):
        return None
    if not j.le(st, hi, n):
        return None
    return ('p', p[1], p[2], ('sl', j.add_int(st, p[3][1], lo, 1), j.add_int(st, hi, lo, -1)))


@native('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def slice_get(j, st, c):
    r = do_index(j, st, c.args[0], c.args[1])
    return none(c) if r is None else some(c, r)


@native('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def slice_get_unchecked(j, st, c):
    r = do_index(j, st, c.args[0], c.args[1])
    if r is None:
        raise Panic('unchecked index out of bounds')
    return r


@native('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_first(j, st, c):
    r = do_index(j, st, c.args[0], ZERO)
    return none(c) if r is None else some(c, r)


@native('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_last(j, st, c):
    p = as_slice(j, st, c.args[0])
    n = p[3][2]
    if not j.lt(st, ZERO, n):
        return none(c)
    return some(c, elem_ptr(j, st, p, j.add_int(st, n, ONE, -1)))


@native('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def slice_split_at(j, st, c):
    p = as_slice(j, st, c.args[0])
    i = c.args[1]
    if not j.le(st, i, p[3][2]):
        raise Panic('split_at out of bounds')
    a = ('p', p[1], p[2], ('sl', p[3][1], i))
    b = ('p', p[1], p[2], ('sl', j.add_int(st, p[3][1], i, 1), j.add_int(st, p[3][2], i, -1)))
    return ('a', c.dty, 0, (a, b))


@native('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(j, st, c):
    d, s = as_slice(j, st, c.args[0]), as_slice(j, st, c.args[1])
    if not j.eqi(st, d[3][2], s[3][2]):
        raise Panic('copy_from_slice length mismatch')
    write_slice(j, st, d, j.deref_segs(st, s))
    return UNIT


def write_slice(j, st, d, segs):
    """Overwrites the window of slice pointer d with segs."""
    v = j.deref(st, d)
    old = j.segs(st, v)
    n = j.segs_len(st, old)
    a = d[3][1]
    b = j.add_int(st, a, d[3][2], 1)
    new = j.seq_slice(st, old, ZERO, a) + tuple(segs) + j.seq_slice(st, old, b, n)
    j.store(st, d[1], d[2], ('vec' if v[0] == 'vec' else 'seq', new))


@native('core::slice::<impl [T]>::swap')
def slice_swap(j, st, c):
    p = as_slice(j, st, c.args[0])
    a, b = do_index(j, st, p, c.args[1]), do_index(j, st, p, c.args[2])
    if a is None or b is None:
        raise Panic('swap out of bounds')
    x, y = j.deref(st, a), j.deref(st, b)
    j.store(st, a[1], a[2], y)
    j.store(st, b[1], b[2], x)
    return UNIT


@native('core::slice::<impl [T]>::fill')
def slice_fill(j, st, c):
    p = as_slice(j, st, c.args[0])
    write_slice(j, st, p, (('F', c.args[1], ZERO, p[3][2]),))
    return UNIT


# iteration

@native('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
        "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
        "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
        "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
        "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
        "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &[T]>::into_iter",
        "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &mut [T]>::into_iter",
        "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter",
        "core::array::<impl core::iter::traits::collect::IntoIterator for &'a mut [T; N]>::into_iter")
def slice_iter(j, st, c):
    p = as_slice(j, st, c.args[0])
    return ('op', 'iter', ('p', p[1], p[2], None), p[3][1], j.add_int(st, p[3][1], p[3][2], 1))


@native("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
        "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next")
def iter_next(j, st, c):
    ip = c.args[0]
    it = j.deref(st, ip)
    if it[0] != 'op' or it[1] != 'iter':
        raise Imprecise('iterator')
    _, _, p, lo, hi = it
    if not j.lt(st, lo, hi):
        return none(c)
    j.store(st, ip[1], ip[2], ('op', 'iter', p, j.add_int(st, lo, ONE, 1), hi))
    return some(c, ('p', p[1], p[2] + (('i', lo),), None))


@native("<core::slice::iter::Iter<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
        "<core::slice::iter::IterMut<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def iter_next_back(j, st, c):
    ip = c.args[0]
    it = j.deref(st, ip)
    if it[0] != 'op' or it[1] != 'iter':
        raise Imprecise('iterator')
    _, _, p, lo, hi = it
    if not j.lt(st, lo, hi):
        return none(c)
    h = j.add_int(st, hi, ONE, -1)
    j.store(st, ip[1], ip[2], ('op', 'iter', p, lo, h))
    return some(c, ('p', p[1], p[2] + (('i', h),), None))


@native("<core::slice::iter::Iter<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len",
        "<core::slice::iter::IterMut<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len")
def iter_len(j, st, c):
    it = j.deref(st, c.args[0])
    if it[0] != 'op':
        raise Imprecise('iterator')
    return j.add_int(st, it[4], it[3], -1)


@native("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked",
        "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked")
def iter_at(j, st, c):
    it = j.deref(st, c.args[0])
    if it[0] != 'op' or it[1] != 'iter':
        raise Imprecise('iterator')
    _, _, p, lo, hi = it
    k = c.args[1] if lo == ZERO else j.add_int(st, lo, c.args[1], 1)
    if not j.lt(st, k, hi):
        raise Imprecise('iterator past its end')
    return ('p', p[1], p[2] + (('i', k),), None)


@native("<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone")
def iter_clone(j, st, c):
    return j.deref(st, c.args[0])


@native("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::size_hint",
        "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::size_hint",
        "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::size_hint")
def iter_size_hint(j, st, c):
    it = j.deref(st, c.args[0])
    if it[0] != 'op':
        raise Imprecise('iterator')
    n = j.add_int(st, it[4], it[3], -1)
    ot = j.types[c.dty].elems[1]
    return ('a', c.dty, 0, (n, ('a', ot, 1, (n,))))


@native('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
def vec_into_iter(j, st, c):
    segs = j.segs(st, c.args[0])
    return ('op', 'viter', ('seq', segs), ZERO, j.segs_len(st, segs))


@native('<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next')
def viter_next(j, st, c):
    ip = c.args[0]
    it = j.deref(st, ip)
    if it[0] != 'op' or it[1] != 'viter':
        raise Imprecise('iterator')
    _, _, v, lo, hi = it
    if not j.lt(st, lo, hi):
        return none(c)
    e = j.seq_get(st, v[1], lo)
    j.store(st, ip[1], ip[2], ('op', 'viter', v, j.add_int(st, lo, ONE, 1), hi))
    return some(c, e)


def range_next(j, st, c, back=False):
    ip = c.args[0]
    r = j.deref(st, ip)
    if r[0] == 's':
        r = j.expand(r)
    lo, hi = j.as_lin(st, r[3][0]), j.as_lin(st, r[3][1])
    if not j.lt(st, lo, hi):
        return none(c)
    if back:
        h = j.add_int(st, hi, ONE, -1)
        j.store(st, ip[1], ip[2], ('a', r[1], 0, (lo, h)))
        return some(c, h)
    j.store(st, ip[1], ip[2], ('a', r[1], 0, (j.add_int(st, lo, ONE, 1), hi)))
    return some(c, lo)


def _range_next(j, st, c):
    a = c.targs
    if a and isinstance(a[0], int) and not j.is_int(a[0]):
        return NotImplemented
    return range_next(j, st, c)


def _range_next_back(j, st, c):
    return range_next(j, st, c, True)


N['core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next'] = _range_next
N['core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::Range<A>>::next_back'] = _range_next_back


@native('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next')
def range_incl_next(j, st, c):
    ip = c.args[0]
    r = j.deref(st, ip)
    lo, hi, ex = r[3]
    if j.truth(st, ex):
        return none(c)
    lo, hi = j.as_lin(st, lo), j.as_lin(st, hi)
    if not j.le(st, lo, hi):
        return none(c)
    if j.lt(st, lo, hi):
        j.store(st, ip[1], ip[2], ('a', r[1], 0, (j.add_int(st, lo, ONE, 1), hi, FALSE)))
    else:
        j.store(st, ip[1], ip[2], ('a', r[1], 0, (lo, hi, TRUE)))
    return some(c, lo)


# ---------------------------------------------------------------- strings

def const_bytes(j, st, segs):
    out = b''
    for s in segs:
        if s[0] == 'C':
            out += s[1]
        elif s[0] == 'S':
            n = j.to_const(st, s[1]) if s[1][0] in ('i', 'b') else None
            if n is None:
                return None
            out += bytes([n])
        elif j.to_const(st, j.seg_len(st, s)) == 0:
            continue
        else:
            return None
    return out


def norm_segs(j, st, segs):
    out = []
    for s in segs:
        if s[0] == 'F' and j.to_const(st, j.seg_len(st, s)) == 0:
            continue
        if s[0] == 'C' and not s[1]:
            continue
        if s[0] == 'C' and out and out[-1][0] == 'C':
            out[-1] = ('C', out[-1][1] + s[1])
            continue
        if s[0] == 'F' and out and out[-1][0] == 'F' and out[-1][1] == s[1] and out[-1][3] == s[2]:
            out[-1] = ('F', s[1], out[-1][2], s[3])
            continue
        out.append(s)
    return tuple(out)


def segs_equal(j, st, a, b):
    a, b = norm_segs(j, st, a), norm_segs(j, st, b)
    if a == b:
        return True
    ca, cb = const_bytes(j, st, a), const_bytes(j, st, b)
    if ca is not None and cb is not None:
        return ca == cb
    na, nb = j.segs_len(st, a), j.segs_len(st, b)
    if st.zone.eq(na, nb) is False:
        return False
    r = j.pred(st, ('streq',) + tuple(sorted((a, b), key=repr)))
    if r:
        st.zone.assume_eq(na, nb)
    return r


@native('core::str::traits::<impl core::cmp::PartialEq for str>::eq',
        '<alloc::string::String as core::cmp::PartialEq>::eq',
        '<alloc::string::String as core::cmp::PartialEq<str>>::eq',
        '<alloc::string::String as core::cmp::PartialEq<&str>>::eq',
        'alloc::string::<impl core::cmp::PartialEq<str> for alloc::string::String>::eq',
        "alloc::string::<impl core::cmp::PartialEq<&'a str> for alloc::string::String>::eq",
        'alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for str>::eq',
        "alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for &'a str>::eq")
def str_eq(j, st, c):
    a, b = segs_of(j, st, c.args[0]), segs_of(j, st, c.args[1])
    return TRUE if segs_equal(j, st, a, b) else FALSE


def negated(*names):
    def go(f):
        g = lambda j, st, c: FALSE if f(j, st, c) == TRUE else TRUE
        native(*[n[:-4] + '::ne' for n in names])(g)
        return f
    return go


negated('core::str::traits::<impl core::cmp::PartialEq for str>::eq',
        '<alloc::string::String as core::cmp::PartialEq>::eq',
        '<alloc::string::String as core::cmp::PartialEq<str>>::eq',
        '<alloc::string::String as core::cmp::PartialEq<&str>>::eq',
        'alloc::string::<impl core::cmp::PartialEq<str> for alloc::string::String>::eq',
        "alloc::string::<impl core::cmp::PartialEq<&'a str> for alloc::string::String>::eq",
        'alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for str>::eq',
        "alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for &'a str>::eq")(str_eq)


@native('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def str_eq_nocase(j, st, c):
    a, b = segs_of(j, st, c.args[0]), segs_of(j, st, c.args[1])
    ca, cb = const_bytes(j, st, a), const_bytes(j, st, b)
    if ca is not None and cb is not None:
        return TRUE if ca.lower() == cb.lower() else FALSE
    if segs_equal(j, st, a, b):
        return TRUE
    if st.zone.eq(j.segs_len(st, a), j.segs_len(st, b)) is False:
        return FALSE
    return TRUE if j.pred(st, ('nocase',) + tuple(sorted((a, b), key=repr))) else FALSE


@native('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains')
def str_has(j, st, c):
    a = segs_of(j, st, c.args[0])
    k = j.to_const(st, c.args[1]) if c.args[1][0] in ('i', 'b') else None
    if k is not None:
        b = (('C', chr(k).encode('utf8', 'surrogatepass')),)
    elif c.args[1][0] in ('i', 'b', 'd', 'fn'):
        raise Imprecise('search by ' + str(c.args[1][0]))
    else:
        b = segs_of(j, st, c.args[1])
    ca, cb = const_bytes(j, st, a), const_bytes(j, st, b)
    n = c.name.rsplit('::', 1)[1]
    if ca is not None and cb is not None:
        return TRUE if {'starts_with': ca.startswith(cb), 'ends_with': ca.endswith(cb)}.get(n, cb in ca) else FALSE
    if cb == b'':
        return TRUE
    if (ca is None or cb is None) and segs_equal(j, st, a, b):
        return TRUE
    la, lb = j.segs_len(st, a), j.segs_len(st, b)
    if st.zone.le(lb, la) is False:
        return FALSE
    if not j.pred(st, (n, a, b)):
        return FALSE
    st.zone.assume_le(lb, la)
    return TRUE


@native('alloc::string::String::from_utf8_lossy')
def utf8_lossy(j, st, c):
    segs = segs_of(j, st, c.args[0])
    if utf8_ok(j, st, segs):
        return ('a', c.dty, 0, (c.args[0],))
    return ('a', c.dty, 1, (('s', j.fields_of(c.dty, 1)[0], ('lossy', segs)),))


@native('alloc::string::String::from_utf8_lossy_owned')
def utf8_lossy_owned(j, st, c):
    segs = j.segs(st, c.args[0])
    if utf8_ok(j, st, segs):
        return ('vec', segs)
    return ('s', c.dty, ('lossy', segs))


@native('core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq',
        'alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>::eq',
        'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq')
def slice_eq(j, st, c):
    a = c.targs
    if a and isinstance(a[0], int) and not j.is_int(a[0]):
        x, y = as_slice(j, st, c.args[0]), as_slice(j, st, c.args[1])
        if x == y:
            return TRUE
        if j.deref_segs(st, x) == j.deref_segs(st, y):
            return TRUE
        if st.zone.eq(x[3][2], y[3][2]) is False:
            return FALSE
        return TRUE if j.pred(st, ('sliceeq', x, y)) else FALSE
    return str_eq(j, st, c)


negated('core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq',
        'alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>::eq',
        'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq')(slice_eq)


# ---------------------------------------------------------------- numbers

def le_bytes(j, st, c, rev=False):
    v = c.args[0]
    # the width is that of the result
    t = j.types[c.dty]
    n = t.len
    # signedness: extend is never needed as all bits are taken
    signed = v[0] == 'i' and v[1] is not None and v[1][1] < 0
    bits = j.to_bits(st, v, 8 * n, signed)
    out = [j.from_bits(st, bits[8 * i:8 * i + 8]) for i in range(n)]
    if rev:
        out.reverse()
    if all(is_const(x) for x in out):
        return ('seq', (('C', bytes(x[2] for x in out)),))
    return ('seq', tuple(('S', x) for x in out))


def from_le(j, st, c, rev=False):
    segs = j.segs(st, c.args[0])
    w, s = j.width(c.dty)
    n = w // 8
    by = [j.seq_get(st, segs, I(i)) for i in range(n)]
    if rev:
        by.reverse()
    bits = ()
    for b in by:
        bits += j.to_bits(st, b, 8)
    return j.from_bits(st, bits, s)


for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    for _n, _r in (('le', False), ('ne', False), ('be', True)):
        N['core::num::<impl %s>::to_%s_bytes' % (_t, _n)] = (lambda j, st, c, r=_r: le_bytes(j, st, c, r))
        N['core::num::<impl %s>::from_%s_bytes' % (_t, _n)] = (lambda j, st, c, r=_r: from_le(j, st, c, r))
for _t in ('f32', 'f64'):
    for _n, _r in (('le', False), ('ne', False), ('be', True)):
        N['core::%s::<impl %s>::to_%s_bytes' % (_t, _t, _n)] = (lambda j, st, c, r=_r: le_bytes(j, st, c, r))
        N['core::%s::<impl %s>::from_%s_bytes' % (_t, _t, _n)] = (lambda j, st, c, r=_r: from_le(j, st, c, r))
        N['core::num::imp::%s::<impl %s>::to_%s_bytes' % (_t, _t, _n)] = (lambda j, st, c, r=_r: le_bytes(j, st, c, r))
        N['core::num::imp::%s::<impl %s>::from_%s_bytes' % (_t, _t, _n)] = (lambda j, st, c, r=_r: from_le(j, st, c, r))
    N['core::%s::<impl %s>::to_bits' % (_t, _t)] = lambda j, st, c: c.args[0]
    N['core::%s::<impl %s>::from_bits' % (_t, _t)] = lambda j, st, c: c.args[0]


def _arg_ty(j, c):
    a = c.targs
    if a and isinstance(a[0], int):
        return a[0]
    return c.dty


def clz(j, st, v, w, lead=True):
    """Number of leading (trailing) zero bits, by cases."""
    if lead and v[0] == 'i' and (v[1] is None or v[1][0] == 'n') and j.rng(st, v)[0] >= 0:
        for n in range(w, -1, -1):
            if j.lt(st, v, I(1 << (w - n))):
                return n
    bits = j.to_bits(st, v, w)
    rng = range(w - 1, -1, -1) if lead else range(w)
    n = 0
    for i in rng:
        if j.bits_eq(st, bits[i:i + 1], (1,)):
            return n
        n += 1
    return n


for _t, _w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128), ('usize', 64)):
    N['core::num::<impl %s>::leading_zeros' % _t] = lambda j, st, c, w=_w: I(clz(j, st, c.args[0], w))
    N['core::num::<impl %s>::trailing_zeros' % _t] = lambda j, st, c, w=_w: I(clz(j, st, c.args[0], w, False))


@native('core::char::methods::<impl char>::from_u32', 'core::char::convert::from_u32')
def char_from_u32(j, st, c):
    v = c.args[0]
    n = j.to_const(st, v)
    if n is not None:
        return some(c, I(n)) if n < 0x110000 and not 0xD800 <= n < 0xE000 else none(c)
    if j.pred(st, ('scalar', canon_num(j, st, v, 32))):
        return some(c, v)
    return none(c)


@native('core::char::convert::<impl core::convert::TryFrom<u32> for char>::try_from')
def char_try_from(j, st, c):
    v = c.args[0]
    n = j.to_const(st, v)
    if n is not None:
        ok = n < 0x110000 and not 0xD800 <= n < 0xE000
    else:
        ok = j.pred(st, ('scalar', canon_num(j, st, v, 32)))
    return okv(c, v) if ok else errv(c, ('op', 'charerr'))


def canon_num(j, st, v, w):
    return j.to_bits(st, v, w)


@native('core::char::methods::<impl char>::from_u32_unchecked')
def char_unchecked(j, st, c):
    v = c.args[0]
    n = j.to_const(st, v)
    if n is not None:
        if n >= 0x110000 or 0xD800 <= n < 0xE000:
            raise Panic('invalid char')
        return v
    if not j.pred(st, ('scalar', canon_num(j, st, v, 32))):
        raise Panic('invalid char')
    return v


def _wrapping(op):
    def f(j, st, c):
        return j.binop(st, op, c.args[0], c.args[1], c.dty)
    return f


for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    for _m, _o in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul')):
        N['core::num::<impl %s>::%s' % (_t, _m)] = _wrapping(_o)

    def _checked(op):
        def f(j, st, c):
            ty = j.types[c.dty].args[0]
            lo, hi = j.irange(ty)
            w, s = j.width(ty)
            r = j.arith(st, op, c.args[0], c.args[1], s)
            if j.le(st, r, I(hi)) and j.le(st, I(lo), r):
                return some(c, r)
            return none(c)
        return f

    def _overflowing(op):
        def f(j, st, c):
            ty = j.types[c.dty].elems[0]
            return j.binop(st, op + 'WithOverflow', c.args[0], c.args[1], ty)
        return f

    def _saturating(op):
        def f(j, st, c):
            lo, hi = j.irange(c.dty)
            w, s = j.width(c.dty)
            r = j.arith(st, op, c.args[0], c.args[1], s)
            if not j.le(st, r, I(hi)):
                return I(hi)
            if not j.le(st, I(lo), r):
                return I(lo)
            return r
        return f
    for _m, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
        N['core::num::<impl %s>::checked_%s' % (_t, _m)] = _checked(_o)
        N['core::num::<impl %s>::overflowing_%s' % (_t, _m)] = _overflowing(_o)
        N['core::num::<impl %s>::saturating_%s' % (_t, _m)] = _saturating(_o)


def _checked_shift(left):
    def f(j, st, c):
        ty = j.types[c.dty].args[0]
        w, s = j.width(ty)
        n = j.to_const(st, c.args[1])
        if n is None:
            raise Imprecise('checked shift by unknown amount')
        if n >= w:
            return none(c)
        return some(c, j.binop(st, 'Shl' if left else 'Shr', c.args[0], c.args[1], ty))
    return f


for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    N['core::num::<impl %s>::checked_shl' % _t] = _checked_shift(True)
    N['core::num::<impl %s>::checked_shr' % _t] = _checked_shift(False)


def _next_pow2(w, checked):
    def f(j, st, c):
        for k in range(w):
            if j.le(st, c.args[0], I(1 << k)):
                return some(c, I(1 << k)) if checked else I(1 << k)
        if checked:
            return none(c)
        raise Panic('next power of two overflows')
    return f


for _t, _w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('usize', 64)):
    N['core::num::<impl %s>::next_power_of_two' % _t] = _next_pow2(_w, False)
    N['core::num::<impl %s>::checked_next_power_of_two' % _t] = _next_pow2(_w, True)


@native('core::cmp::impls::<impl core::cmp::Ord for usize>::max', 'core::cmp::Ord::max')
def ord_max(j, st, c):
    if not j.is_int(c.dty):
        return NotImplemented
    a, b = c.args
    return b if j.cmp(st, 'le', a, b, c.dty) else a


@native('core::intrinsics::integer_max')
def int_max(j, st, c):
    a, b = c.args
    return b if j.cmp(st, 'le', a, b, c.dty) else a


@native('core::intrinsics::integer_min')
def int_min(j, st, c):
    a, b = c.args
    return a if j.cmp(st, 'le', a, b, c.dty) else b


@native('core::cmp::impls::<impl core::cmp::Ord for usize>::min', 'core::cmp::Ord::min')
def ord_min(j, st, c):
    if not j.is_int(c.dty):
        return NotImplemented
    a, b = c.args
    return a if j.cmp(st, 'le', a, b, c.dty) else b


@native('core::mem::size_of', 'core::intrinsics::size_of')
def size_of(j, st, c):
    a = c.cal.get('args')
    t = j.types[a[0]] if a else None
    if t is not None and t.bits:
        return I(t.bits // 8)
    if t is not None and t.k == 'bool':
        return ONE
    if t is not None and t.k in ('char',):
        return I(4)
    return j.sym(c.dty, ('size_of', t.s if t else None))


# ---------------------------------------------------------------- memory

@native('core::mem::replace')
def mem_replace(j, st, c):
    p, v = c.args
    old = j.deref(st, p)
    j.store(st, p[1], p[2], v)
    return old


@native('core::mem::swap')
def mem_swap(j, st, c):
    p, q = c.args
    a, b = j.deref(st, p), j.deref(st, q)
    j.store(st, p[1], p[2], b)
    j.store(st, q[1], q[2], a)
    return UNIT


@native('core::mem::forget')
def mem_forget(j, st, c):
    return UNIT


@native('core::mem::drop')
def mem_drop(j, st, c):
    return UNIT


@native('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def identity(j, st, c):
    return c.args[0]


@native('core::intrinsics::cold_path', 'core::intrinsics::assert_inhabited', 'core::hint::cold_path',
        'std::io::stdio::_eprint', 'std::io::stdio::_print')
def nop(j, st, c):
    return UNIT


@native('alloc::boxed::Box::<T>::new')
def box_new(j, st, c):
    return ('box', c.args[0])


@native('alloc::boxed::Box::<T>::new_uninit')
def box_new_uninit(j, st, c):
    return ('box', None)


@native('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(j, st, c):
    v = c.args[0]
    v = j.proj(st, v, 'B')
    while v is not None and v[0] == 'a':
        v = v[3][-1] if len(v[3]) != 1 else v[3][0]
    return ('vec', j.segs(st, v))


@native('<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref',
        '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut',
        '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref',
        '<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut',
        '<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow')
def box_deref(j, st, c):
    p = c.args[0]
    return ('p', p[1], p[2] + ('B',), None)


@native('<alloc::boxed::Box<T> as core::convert::From<T>>::from')
def box_from(j, st, c):
    return ('box', c.args[0])


# ---------------------------------------------------------------- formatting

@native("core::fmt::Arguments::<'a>::new")
def fmt_new(j, st, c):
    return ('op', 'fmt', j.deref_segs(st, as_slice(j, st, c.args[0])), j.deref_segs(st, as_slice(j, st, c.args[1])))


@native("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst",
        "core::fmt::Arguments::<'a>::new_const")
def fmt_from_str(j, st, c):
    return ('op', 'fmtstr', segs_of(j, st, c.args[0]))


def _fmtarg(kind):
    def f(j, st, c):
        a = c.cal.get('args')
        return ('op', 'fmtarg', kind, a[-1] if a else None, c.args[0], c.cal.get('body'))
    return f


for _k in ('display', 'debug', 'debug_noop', 'octal', 'lower_hex', 'upper_hex', 'pointer', 'binary', 'lower_exp', 'upper_exp'):
    N["core::fmt::rt::Argument::<'_>::new_%s" % _k] = _fmtarg(_k)


def fmt_fn(j, a):
    """The fmt function of a formatting argument."""
    if len(a) < 6 or a[5] is None:
        return None
    for bl in j.prog.bodies[a[5]].blocks:
        for s in bl['s']:
            if s[0] == '=' and 'cast' in s[2] and 'ReifyFnPointer' in s[2]['cast']:
                return j.types[s[2]['from']].callee
    return None


def fmt_pieces(j, st, a):
    """[bytes | ('arg', kind, ty, ptr)] of fmt::Arguments, or None."""
    if a[0] != 'op':
        return None
    if a[1] == 'fmtstr':
        b = const_bytes(j, st, a[2])
        return None if b is None else [b]
    if a[1] != 'fmt':
        return None
    t = const_bytes(j, st, a[2])
    if t is None:
        return None
    args = []
    for s in a[3]:
        if s[0] != 'S':
            return None
        args.append(s[1])
    out = []
    i = 0
    k = 0
    while i < len(t):
        n = t[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(t[i:i + n])
            i += n
        elif n == 0x80:
            l = t[i] | t[i + 1] << 8
            i += 2
            out.append(t[i:i + l])
            i += l
        elif n == 0xC0:
            out.append(('arg', args[k][2], args[k][3], args[k][4], b'', fmt_fn(j, args[k])))
            k += 1
        else:
            o = i
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                k = t[i] | t[i + 1] << 8
                i += 2
            if n & 48:
                return None
            out.append(('arg', args[k][2], args[k][3], args[k][4], t[o - 1:i], fmt_fn(j, args[k])))
            k += 1
    return out


@native('alloc::fmt::format')
def fmt_format(j, st, c):
    h = j.hooks.get('format')
    if h is not None:
        r = h(j, st, c)
        if r is not NotImplemented:
            return r
    h = j.hooks.get('fmtuse')
    if h is not None:
        h(j, st, c.args[0])
    name = st.fresh()
    return ('vec', (('F', j.sym(j.u8(), ('el', name, HOLE)), ZERO, lin(nbase(('len', name), 0, ILEN))),))


@native('core::any::type_name')
def type_name(j, st, c):
    a = c.cal.get('args')
    name = ('type_name', j.types[a[0]].s)
    return ('p', ('K', ('seq', (('F', j.sym(j.u8(), ('el', name, HOLE)), ZERO, lin(nbase(('len', name), 0, ILEN))),))), (),
            ('sl', ZERO, lin(nbase(('len', name), 0, ILEN))))


# slice helpers used by MIR of std

@native('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut')
def from_raw_parts(j, st, c):
    p, n = c.args
    if p[0] != 'p':
        raise Imprecise('from_raw_parts')
    return ('p', p[1], p[2], ('sl', ZERO, n))


@native('core::slice::raw::from_ref', 'core::array::from_ref')
def slice_from_ref(j, st, c):
    v = j.deref(st, c.args[0])
    return ('p', ('K', ('seq', (('S', v),))), (), ('sl', ZERO, ONE))


@native('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def slice_as_ptr(j, st, c):
    p = as_slice(j, st, c.args[0])
    if p[3][1] != ZERO:
        raise Imprecise('as_ptr of subslice')
    return ('p', p[1], p[2], None)


@native('<[T; N] as core::iter::traits::collect::IntoIterator>::into_iter',
        'core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
def array_into_iter(j, st, c):
    segs = j.segs(st, c.args[0])
    return ('op', 'viter', ('seq', segs), ZERO, j.segs_len(st, segs))


N['<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next'] = viter_next


# ---------------------------------------------------------------- more of str and String

TRIMS = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left', 'trim_right',
         'trim_ascii', 'trim_ascii_start', 'trim_ascii_end')


@native(*['core::str::<impl str>::' + x for x in TRIMS],
        *['core::slice::ascii::<impl [u8]>::' + x for x in TRIMS if 'ascii' in x])
def str_trim(j, st, c):
    """Nothing, or one character of one byte, is taken away (of what may be: not all cases are looked at)."""
    p = as_slice(j, st, c.args[0])
    n = c.name.rsplit('::', 1)[1]
    segs = j.deref_segs(st, p)
    b = const_bytes(j, st, segs)
    if b is not None and len(c.args) == 1:
        l = b if n.endswith(('end', 'right')) else b.lstrip(b' \t\n\r\x0b\x0c')
        r = l if n.endswith(('start', 'left')) else l.rstrip(b' \t\n\r\x0b\x0c')
        a = len(b) - len(l)
        return ('p', p[1], p[2], ('sl', j.add_int(st, p[3][1], I(a), 1), I(len(r))))
    if not j.lt(st, ZERO, j.segs_len(st, segs)) or not j.pred(st, (n, segs)):
        return p
    off = p[3][1]
    if 'start' in n or 'left' in n:
        off = j.add_int(st, off, ONE, 1)
    ln = p[3][2]
    return ('p', p[1], p[2], ('sl', off, j.add_int(st, ln, ONE, -1)))


@native('alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_uppercase',
        'alloc::str::<impl str>::to_ascii_lowercase', 'alloc::str::<impl str>::to_ascii_uppercase',
        'alloc::slice::<impl [u8]>::to_ascii_lowercase', 'alloc::slice::<impl [u8]>::to_ascii_uppercase',
        'alloc::str::<impl str>::replace', 'alloc::str::<impl str>::replacen')
def str_recase(j, st, c):
    """The same, or as long but of other characters (of what may be)."""
    segs = segs_of(j, st, c.args[0])
    n = c.name.rsplit('::', 1)[1]
    b = const_bytes(j, st, segs)
    if b is not None and len(c.args) == 1 and b.isascii():
        r = b.lower() if 'lower' in n else b.upper()
        return ('vec', (('C', r),) if r else ())
    ln = j.segs_len(st, segs)
    if not j.lt(st, ZERO, ln) or not j.pred(st, (n, segs) + tuple(c.args[1:])):
        return ('vec', tuple(segs))
    return ('vec', (('F', j.sym(j.u8(), ('el', (n,) + tuple(segs), HOLE)), ZERO, ln),))


@native('alloc::string::String::truncate')
def string_truncate(j, st, c):
    return vec_truncate(j, st, c)


BOXERR = ('core::error::Error + core::marker::Send + core::marker::Sync + \'a', 'core::error::Error + \'a', 'core::error::Error')


@native(*['alloc::boxed::convert::<impl core::convert::From<%s> for alloc::boxed::Box<(dyn %s)>>::from' % (a, b)
          for a in ('E', 'alloc::string::String', '&str', "&'a str", "alloc::borrow::Cow<'b, str>", "&'b str") for b in BOXERR],
        *['alloc::boxed::convert::<impl core::convert::From<%s> for alloc::boxed::Box<dyn %s>>::from' % (a, b)
          for a in ('E', 'alloc::string::String', '&str', "alloc::borrow::Cow<'b, str>") for b in BOXERR])
def box_error(j, st, c):
    if 'From<E>' in c.name:
        return ('box', c.args[0])
    return ('op', 'boxerr', c.args[0])


@native('<T as alloc::string::ToString>::to_string', 'alloc::string::ToString::to_string',
        '<T as alloc::string::SpecToString>::spec_to_string')
def any_to_string(j, st, c):
    """The text of a value whose Display is not str's own: some string."""
    a = c.cal.get('rargs') or c.cal.get('args')
    t = j.types[a[0]].s if a else ''
    if t in ('str', 'alloc::string::String', 'std::string::String', 'String'):
        return ('vec', segs_of(j, st, c.args[0]))
    name = st.fresh()
    return ('vec', (('F', j.sym(j.u8(), ('el', name, HOLE)), ZERO, lin(nbase(('len', name), 0, ILEN))),))


# vec![..] writes its elements to a box first

@native('alloc::boxed::Box::<T>::new_uninit')
def box_new_uninit(j, st, c):
    o = ('U', st.fresh())
    st.mem[o] = ('room', None)
    return ('p', o, (), None)


@native('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(j, st, c):
    p = c.args[0]
    v = j.deref(st, p) if p[0] == 'p' else p[1]
    if v[0] != 'room' or v[1] is None:
        raise Imprecise('vec! of unknown elements')
    return ('vec', j.segs(st, v[1]))


def some_part(j, st, p, why):
    """Some part of a text, nobody knows which."""
    o = ('PT', st.fresh())
    m = lin(nbase(('part', why, o), 0, ILEN))
    st.mem[o] = ('vec', (('F', j.sym(j.u8(), ('el', ('part', why, o), HOLE)), ZERO, m),))
    return ('p', o, (), ('sl', ZERO, m))


def _part(why):
    def f(j, st, c):
        segs = tuple(segs_of(j, st, c.args[0]))
        if const_bytes(j, st, segs) is not None:
            return NotImplemented
        return some_part(j, st, c.args[0], why)
    return f


for _k in ('trim', 'trim_start', 'trim_end'):
    N['core::str::<impl str>::' + _k] = _part(_k)


@native('core::str::<impl str>::lines')
def str_lines(j, st, c):
    segs = tuple(segs_of(j, st, c.args[0]))
    if const_bytes(j, st, segs) is not None:
        return NotImplemented
    return ('op', 'lines', c.args[0])


@native("<core::str::iter::Lines<'a> as core::iter::traits::iterator::Iterator>::next")
def lines_next(j, st, c):
    v = j.deref(st, c.args[0])
    if v[0] != 'op' or v[1] != 'lines':
        return NotImplemented
    from world import choose
    if not choose(j, st, ('line', c.args[0]), 2):
        return ('a', c.dty, 0, ())
    return ('a', c.dty, 1, (some_part(j, st, v[2], 'line'),))


@native('<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop')
def box_drop(j, st, c):
    return UNIT
