"""Abstract interpreter over the MIR dump: a partitioned (disjunctive) abstract
interpretation with linear integers over a zone, bit vectors with provenance,
lazily expanded unknown structures, inlined calls, and widening at loop heads."""
import time
from core import *
import prog as P

MAXSTEPS = 400000
UNROLL = 300


def bitlen(n):
    return n.bit_length()


UNROLL = [None, None]


class Job:
    """One analysis: an entry point with abstract arguments."""
    def __init__(self, prog, natives, hooks=None, max_states=60000):
        self.prog = prog
        self.types = prog.types
        self.natives = natives
        self.hooks = hooks or {}
        self.outcomes = []
        self.seen = {}
        self.ncall = {}
        self.callees = set()
        self.stats = {'states': 0, 'steps': 0, 'widen': 0, 'dedupe': 0, 'forks': 0}
        self.max_states = max_states
        self.const_cache = {}
        self.reccap = 1
        self.depthcap = 60
        self.fnids = False          # different functions have different addresses
        self.shape = None           # states of different shapes are not widened into one
        self.router = None          # name of a callee -> hook
        self.materialize = None     # hook(st, elem value, segment) for family elements
        self.visited_bodies = set()
        self.laps = None            # hook(st, fr, snap, laps, forked, total): called each time a path goes round a loop
        self.unroll = UNROLL[0]         # paths go round a loop at most so often, and nothing is widened
        self.deadline = UNROLL[1]

    # ------------------------------------------------------------ types

    def width(self, t):
        t = self.types[t]
        if t.k == 'bool':
            return 1, False
        if t.k == 'char':
            return 32, False
        if t.k == 'int':
            return t.bits, True
        if t.k in ('uint', 'float'):
            return t.bits, False
        return None, False

    def is_int(self, t):
        return self.types[t].k in ('bool', 'char', 'int', 'uint', 'float')

    def irange(self, t):
        w, s = self.width(t)
        if s:
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return 0, (1 << w) - 1

    def ty_of(self, t):
        return self.types[t]

    def is_vec(self, t):
        t = self.types[t]
        return t.k == 'adt' and t.path in ('alloc::vec::Vec', 'alloc::string::String')

    def elem_ty(self, t):
        """Element type of a Vec, String, array, slice or str."""
        t = self.types[t]
        if t.k in ('array', 'slice'):
            return t.elem
        if t.k == 'str':
            return self.u8()
        if t.k == 'adt' and t.path == 'alloc::vec::Vec':
            return t.args[0]
        if t.k == 'adt' and t.path == 'alloc::string::String':
            return self.u8()
        raise Imprecise('element of ' + t.s)

    def u8(self):
        if not hasattr(self, '_u8'):
            self._u8 = next(t.i for t in self.types if t.s == 'u8')
        return self._u8

    def tyname(self, s):
        c = getattr(self, '_tyn', None)
        if c is None:
            c = self._tyn = {}
            for t in self.types:
                c.setdefault(t.s, t.i)
        return c.get(s)

    def fields_of(self, t, variant):
        t = self.types[t]
        if t.k == 'tuple':
            return t.elems
        if t.k == 'closure':
            return t.upvars
        if t.k == 'adt':
            return [f[1] for f in t.variants[variant]['fields']]
        raise Imprecise('fields of ' + t.s)

    def targ(self, cal):
        """The first type argument."""
        return (cal.get('rargs') or cal['args'])[0]

    # ------------------------------------------------------------ unknown values

    textgrow = False      # texts that grow in loops become unknown texts
    patience = 2          # how often loops are followed before they are widened

    def sym(self, ty, name):
        t = self.types[ty]
        k = t.k
        if k == 'bool':
            return ('b', (((nbase(name, 0, 1), 0), 0, 0),))
        if k == 'char':
            return lin(nbase(name, 0, 0x10FFFF))
        if k in ('int', 'uint', 'float'):
            lo, hi = self.irange(ty)
            return lin(nbase(name, lo, hi))
        if k in ('ref', 'rawptr'):
            to = self.types[t.to]
            meta = None
            if to.k in ('slice', 'str'):
                meta = ('sl', ZERO, lin(nbase(('len', ('*', name)), 0, ILEN)))
            elif to.k == 'dyn':
                meta = ('dyn', None)
            return ('p', ('O', name, t.to), (), meta)
        if k == 'fndef':
            return ('fn', ty)
        if k == 'tuple' and not t.elems:
            return UNIT
        return ('s', ty, name)

    def expand(self, v):
        """('s', ty, name) of a struct, tuple or closure as an aggregate."""
        t = self.types[v[1]]
        if t.k in ('tuple', 'closure') or (t.k == 'adt' and t.adt == 'struct' and not t.box and not self.is_vec(v[1])):
            fs = self.fields_of(v[1], 0)
            return ('a', v[1], 0, tuple(self.sym(f, ('f', v[2], 0, i)) for i, f in enumerate(fs)))
        return v

    def expand_variant(self, v, variant):
        fs = self.fields_of(v[1], variant)
        return ('a', v[1], variant, tuple(self.sym(f, ('f', v[2], variant, i)) for i, f in enumerate(fs)))

    def segs(self, st, v):
        """Segments of a Vec, String, array, slice or str value."""
        if v is None:
            raise Imprecise('uninitialised sequence')
        if v[0] in ('vec', 'seq'):
            return v[1]
        if v[0] == 's':
            t = self.types[v[1]]
            e = self.elem_ty(v[1])
            if t.k == 'array':
                n = t.len if isinstance(t.len, int) else None
                if n is None:
                    n = lin(nbase(('len', v[2]), 0, ILEN))
                else:
                    n = I(n)
            else:
                n = lin(nbase(('len', v[2]), 0, ILEN))
            return (('F', self.sym(e, ('el', v[2], HOLE)), ZERO, n),)
        raise Imprecise('segments of %s' % (v[0],))

    def seg_len(self, st, seg):
        if seg[0] == 'S':
            return ONE
        if seg[0] == 'C':
            return I(len(seg[1]))
        return self.add_int(st, seg[3], seg[2], -1)

    def segs_len(self, st, segs):
        n = ZERO
        for s in segs:
            n = self.add_int(st, n, self.seg_len(st, s), 1)
        return n

    def seg_elem(self, st, seg, k):
        """Element at offset k of a segment."""
        if seg[0] == 'S':
            return seg[1]
        if seg[0] == 'C':
            k = self.to_const(st, k)
            if k is None:
                raise Imprecise('symbolic index in constant')
            return I(seg[1][k])
        v = subst(seg[1], self.add_int(st, seg[2], k, 1))
        return v

    def seq_get(self, st, segs, i):
        j, k = self.seq_find(st, segs, i)
        v = self.seg_elem(st, segs[j], k)
        if self.materialize is not None and segs[j][0] == 'F':
            v = self.materialize(self, st, v, segs[j])
        return v

    def seq_find(self, st, segs, i):
        pos = ZERO
        for j, s in enumerate(segs):
            if j == len(segs) - 1 and i[1] is not None:
                pass
            n = self.seg_len(st, s)
            end = self.add_int(st, pos, n, 1)
            if self.lt(st, i, end):
                return j, self.add_int(st, i, pos, -1)
            pos = end
        raise Infeasible()

    def seq_set(self, st, segs, i, v):
        j, k = self.seq_find(st, segs, i)
        s = segs[j]
        new = []
        if s[0] == 'S':
            new = [('S', v)]
        elif s[0] == 'C':
            kk = self.to_const(st, k)
            if kk is None:
                raise Imprecise('symbolic index in constant')
            new = [('S', I(b)) for b in s[1]]
            new[kk] = ('S', v)
        else:
            at = self.add_int(st, s[2], k, 1)
            nx = self.add_int(st, at, ONE, 1)
            if self.lt(st, s[2], at):
                new.append(('F', s[1], s[2], at))
            new.append(('S', v))
            if self.lt(st, nx, s[3]):
                new.append(('F', s[1], nx, s[3]))
        return tuple(segs[:j]) + tuple(new) + tuple(segs[j + 1:])

    def seq_push(self, st, segs, v):
        segs = tuple(segs)
        if segs and segs[-1][0] == 'F' and subst(segs[-1][1], segs[-1][3]) == v:
            l = segs[-1]
            return segs[:-1] + (('F', l[1], l[2], self.add_int(st, l[3], ONE, 1)),)
        return segs + (('S', v),)

    def seq_slice(self, st, segs, a, b):
        """Elements a..b, with a <= b <= len known."""
        out = []
        pos = ZERO
        for s in segs:
            n = self.seg_len(st, s)
            end = self.add_int(st, pos, n, 1)
            # overlap of [a, b) and [pos, end)
            if self.le(st, b, pos):
                break
            if self.le(st, end, a):
                pos = end
                continue
            lo = a if self.lt(st, pos, a) else pos
            hi = b if self.lt(st, b, end) else end
            o1 = self.add_int(st, lo, pos, -1)
            o2 = self.add_int(st, hi, pos, -1)
            if s[0] == 'S':
                out.append(s)
            elif s[0] == 'C':
                c1, c2 = self.to_const(st, o1), self.to_const(st, o2)
                if c1 is None or c2 is None:
                    raise Imprecise('symbolic slice of constant')
                if c2 > c1:
                    out.append(('C', s[1][c1:c2]))
            else:
                out.append(('F', s[1], self.add_int(st, s[2], o1, 1), self.add_int(st, s[2], o2, 1)))
            pos = end
        return tuple(out)

    # ------------------------------------------------------------ integers

    def to_const(self, st, v):
        if v[0] == 'i':
            if v[1] is None:
                return v[2]
            u = st.zone.ub(v[1], None)
            l = -st.zone.ub(None, v[1])
            if u == l:
                return u + v[2]
            if v[1][0] == 'B':
                b = st.norm_bits(v[1][3])
                if all(not isinstance(x, tuple) for x in b) and v[1][1] >= 0:
                    return sum(x << i for i, x in enumerate(b)) + v[2]
        if v[0] == 'b':
            b = st.norm_bits(v[1])
            if all(not isinstance(x, tuple) for x in b):
                return sum(x << i for i, x in enumerate(b))
        return None

    def rng(self, st, v):
        """Range of an ('i') value."""
        if v[1] is None:
            return v[2], v[2]
        return -st.zone.ub(None, v[1]) + v[2], st.zone.ub(v[1], None) + v[2]

    def add_int(self, st, a, b, sign=1):
        """a + sign * b in the mathematical integers."""
        if b[1] is None:
            return ('i', a[1], a[2] + sign * b[2])
        if a[1] is None and sign == 1:
            return ('i', b[1], a[2] + b[2])
        if sign == -1 and a[1] == b[1]:
            return I(a[2] - b[2])
        cb = self.to_const(st, b)
        if cb is not None:
            return ('i', a[1], a[2] + sign * cb)
        ca = self.to_const(st, a)
        if ca is not None and sign == 1:
            return ('i', b[1], ca + b[2])
        if sign == -1:
            u = st.zone.ub(a[1], b[1]) + a[2] - b[2]
            l = -st.zone.ub(b[1], a[1]) + a[2] - b[2]
            if u == l:
                return I(u)
            # a - b where a is a sum containing b
            for x in (a[1],):
                if x is not None and x[0] == 'n' and isinstance(x[3], tuple) and x[3][:1] == ('sum',):
                    _, p, q = x[3]
                    if q == ('i', b[1], q[2]):
                        return ('i', p[1], p[2] + q[2] + a[2] - b[2])
                    if p == ('i', b[1], p[2]):
                        return ('i', q[1], q[2] + p[2] + a[2] - b[2])
            name = ('dif', a, b)
        else:
            for x, y in ((a, b), (b, a)):
                if is_dif(y[1]):
                    # x + (p - q) where q is x but for a constant
                    _, p, q = y[1][3]
                    if q[1] == x[1]:
                        return ('i', p[1], p[2] + y[2] + x[2] - q[2])
            la, ua = self.rng(st, a)
            lb, ub = self.rng(st, b)
            # the same base for the same sum, whatever else is known
            sa, sb = [(x[1][1] + x[2], x[1][2] + x[2]) if x[1] is not None else (x[2], x[2]) for x in (a, b)]
            l, u = sa[0] + sb[0], sa[1] + sb[1]
            name = ('sum', a, b)
            if (la + lb, ua + ub) != (l, u):
                st.zone.add(None, nbase(name, l, u), -(la + lb))
                st.zone.add(nbase(name, l, u), None, ua + ub)
        base = nbase(name, l, u)
        try:
            lb, ub = self.rng(st, b)
            if sign == 1:
                if a[1] is not None:
                    st.zone.add(base, a[1], ub + a[2])
                    st.zone.add(a[1], base, -(lb + a[2]))
                if b[1] is not None:
                    la, ua = self.rng(st, a)
                    st.zone.add(base, b[1], ua + b[2])
                    st.zone.add(b[1], base, -(la + b[2]))
            else:
                if a[1] is not None:
                    st.zone.add(base, a[1], -lb + a[2])
                    st.zone.add(a[1], base, ub - a[2])
        except Infeasible:
            raise
        return lin(base)

    def to_bits(self, st, v, w, signed=False):
        if v[0] == 'b':
            b = st.norm_bits(v[1])
            if len(b) < w:
                b = b + ((b[-1] if signed else 0),) * (w - len(b))
            return b[:w]
        if v[0] != 'i':
            raise Imprecise('bits of ' + v[0])
        c = self.to_const(st, v)
        if c is not None:
            return tuple((c >> i) & 1 for i in range(w))
        base, off = v[1], v[2]
        if base[0] == 'B' and off == 0:
            b = st.norm_bits(base[3])
            if len(b) < w:
                b = b + ((b[-1] if base[1] < 0 else 0),) * (w - len(b))
            return b[:w]
        lo, hi = self.rng(st, v)
        src = (base, off)
        if lo >= 0:
            n = bitlen(hi)
            out = tuple((src, i, 0) if i < n else 0 for i in range(w))
        else:
            nw = max(bitlen(base[2] + off), bitlen(-(base[1] + off) - 1)) + 1
            if hi < 0:
                out = tuple((src, i, 0) if i < nw - 1 else 1 for i in range(w))
            else:
                out = tuple((src, min(i, nw - 1), 0) for i in range(w))
        return st.norm_bits(out)

    def from_bits(self, st, bits, signed=False):
        bits = st.norm_bits(bits)
        w = len(bits)
        if all(not isinstance(b, tuple) for b in bits):
            n = sum(b << i for i, b in enumerate(bits))
            if signed and bits and bits[-1]:
                n -= 1 << w
            return I(n)
        # the bits of one symbol, complete
        b0 = bits[0]
        if isinstance(b0, tuple):
            src = b0[0]
            if src[0] is not None and src[0] != HOLE:
                lo, hi = self.rng(st, lin(src[0], src[1]))
                if lo >= 0:
                    n = bitlen(hi)
                    ok = n <= w and all(
                        (bits[i] == (src, i, 0) if i < n and (src, i) not in st.bits else
                         (not isinstance(bits[i], tuple) and bits[i] == st.bits.get((src, i), 0)))
                        for i in range(w))
                    if ok:
                        if signed and n >= w:
                            pass
                        else:
                            return lin(src[0], src[1])
                else:
                    nw = max(bitlen(src[0][2] + src[1]), bitlen(-(src[0][1] + src[1]) - 1)) + 1
                    if signed and nw <= w and all(bits[i] == (src, min(i, nw - 1), 0) for i in range(w)):
                        return lin(src[0], src[1])
        return ('b', bits)

    def as_lin(self, st, v, signed=False):
        if v[0] == 'i':
            return v
        if v[0] != 'b':
            raise Imprecise('integer of ' + str(v[0]))
        f = self.from_bits(st, v[1], signed)
        if f[0] == 'i':
            return f
        bits = f[1]
        w = len(bits)
        if signed and bits[-1] != 0:
            return lin(('B', -(1 << (w - 1)), (1 << (w - 1)) - 1, bits))
        top = 0
        low = 0
        for i, b in enumerate(bits):
            if b != 0:
                top = i + 1
            if b == 1:
                low += 1 << i
        r = lin(('B', low, (1 << top) - 1, bits))
        if r[1] not in st.zone.syms:
            self.tie(st, r, bits, top)
        return r

    def tie(self, st, r, bits, top):
        """What is known already about the number with these bits."""
        lits = []
        if st.clauses:
            for m in range(top - 1, -1, -1):
                if isinstance(bits[m], tuple):
                    lits.append(st.lit(bits[m]))
                    if st.clause_known(lits):
                        st.zone.assume_le(I(1 << m), r)
                        break
                else:
                    break
        for s in list(st.zone.syms):
            if s[0] == 'B' and s[1] >= 0 and s != r[1] and len(s[3]) == len(bits) and st.norm_bits(s[3]) == bits:
                st.zone.assume_eq(lin(s), r)

    def cast_int(self, st, v, f, t):
        w1, s1 = self.width(f)
        w2, s2 = self.width(t)
        c = self.to_const(st, v) if v[0] == 'i' else None
        if c is not None:
            return I(self.wrap(c, t))
        if v[0] == 'i':
            lo, hi = self.rng(st, v)
            a, b = self.irange(t)
            if lo >= a and hi <= b:
                return v
        bits = self.to_bits(st, v, w1, s1)
        if w2 > w1:
            bits = bits + ((bits[-1] if s1 else 0),) * (w2 - w1)
        return self.from_bits(st, bits[:w2], s2)

    def wrap(self, n, t):
        w, s = self.width(t)
        n &= (1 << w) - 1
        if s and n >> (w - 1):
            n -= 1 << w
        return n

    # ------------------------------------------------------------ decisions

    def fork(self, st, alts, kind='x'):
        self.stats['forks'] += 1
        raise Fork(alts, kind)

    def lt(self, st, a, b):
        return not self.le(st, b, a)

    def le(self, st, a, b):
        if a[0] != 'i':
            a = self.as_lin(st, a)
        if b[0] != 'i':
            b = self.as_lin(st, b)
        r = st.zone.le(a, b)
        if r is None:
            def t(s):
                s.zone.assume_le(a, b)
                self.sync_sign(s, a, b)
            def f(s):
                s.zone.assume_lt(b, a)
                self.sync_sign(s, a, b)
            self.fork(st, [t, f], 'zone')
        return r

    def sync_sign(self, st, a, b):
        """Carries a sign that the zone decides over to the sign bit."""
        for v, o in ((a, b), (b, a)):
            base, off = v[1], v[2]
            if o[1] is None and base is not None and base[0] == 'n' and base[1] + off < 0:
                lo, hi = self.rng(st, v)
                if lo >= 0 or hi < 0:
                    nw = max(bitlen(base[2] + off), bitlen(-(base[1] + off) - 1)) + 1
                    st.assume_lit(((base, off), nw - 1), 0 if lo >= 0 else 1)

    def eqi(self, st, a, b):
        r = st.zone.eq(a, b)
        if r is None:
            def t(s):
                s.zone.assume_eq(a, b)
            def f(s):
                s.zone.assume_ne(a, b)
            self.fork(st, [t, f], 'zone')
        return r

    def sync(self, st, src):
        """Carries what is known about the bits of a symbol over to the zone."""
        base, off = src
        if base is None or base[0] not in ('n', 'B'):
            return
        v = lin(base, off)
        lo, hi = self.rng(st, v)
        if base[0] == 'n' and base[1] + off < 0:
            nw = max(bitlen(base[2] + off), bitlen(-(base[1] + off) - 1)) + 1
            k = st.bits.get((src, nw - 1))
            if k == 0:
                st.zone.assume_le(ZERO, v)
            elif k == 1:
                st.zone.assume_le(v, I(-1))
            lo, hi = self.rng(st, v)
        if lo < 0:
            return
        h = bitlen(hi) - 1
        while h >= 0 and st.bits.get((src, h)) == 0:
            h -= 1
        st.zone.assume_le(v, I((1 << (h + 1)) - 1))
        m = 0
        for i in range(h + 1):
            if st.bits.get((src, i)) == 1:
                m |= 1 << i
        if m:
            st.zone.assume_le(I(m), v)

    def sync_clause(self, st, lits):
        srcs = {k[0] for k, v in lits}
        if len(srcs) == 1 and all(v == 1 for k, v in lits):
            src = next(iter(srcs))
            if src[0] is not None and src[0][0] in ('n', 'B'):
                m = min(k[1] for k, v in lits)
                v = lin(src[0], src[1])
                if self.rng(st, v)[0] >= 0:
                    st.zone.assume_le(I(1 << m), v)

    def bits_eq(self, st, bits, want):
        """Decides bits == want (ints)."""
        bits = st.norm_bits(bits)
        lits = []
        for b, x in zip(bits, want):
            if isinstance(b, tuple):
                k, v = st.lit(b)
                lits.append((k, v if x else v ^ 1))
            elif b != x:
                return False
        if not lits:
            return True
        d = {}
        for k, v in lits:
            if d.setdefault(k, v) != v:
                return False
        neg = [(k, v ^ 1) for k, v in lits]
        r = st.clause_known(neg)
        if r is not None:
            return not r
        def t(s):
            for k, v in lits:
                s.assume_lit(k, v)
            for src in {k[0] for k, v in lits}:
                self.sync(s, src)
        def f(s):
            s.assume_clause(neg)
            self.sync_clause(s, neg)
        self.fork(st, [t, f], 'bits')

    def truth(self, st, v):
        if v is None:
            raise Imprecise('uninitialised bool')
        if v[0] == 'i':
            c = self.to_const(st, v)
            if c is not None:
                return bool(c)
            return not self.eqi(st, v, ZERO)
        if v[0] == 'b':
            return self.bits_eq(st, v[1][:1], (1,))
        if v[0] == 'disc':
            return not self.eq_disc(st, v, 0)
        raise Imprecise('truth of ' + str(v[0]))

    def pred(self, st, p):
        """An uninterpreted predicate."""
        if p in st.preds:
            return st.preds[p]
        def t(s):
            s.preds[p] = True
        def f(s):
            s.preds[p] = False
        self.fork(st, [t, f], 'pred')

    def cmp(self, st, op, a, b, ty):
        """op in eq, lt, le on integers of the type."""
        w, signed = self.width(ty)
        if self.types[ty].k == 'float':
            return self.pred(st, ('float', op, a, b))
        if a[0] == 'b':
            a = self.from_bits(st, a[1], signed)
        if b[0] == 'b':
            b = self.from_bits(st, b[1], signed)
        ca = self.to_const(st, a)
        cb = self.to_const(st, b)
        if ca is not None:
            ca = self.wrap(ca, ty)
        if cb is not None:
            cb = self.wrap(cb, ty)
        if ca is not None and cb is not None:
            return ca == cb if op == 'eq' else ca < cb if op == 'lt' else ca <= cb
        isb = lambda v: v[0] == 'b' or (v[0] == 'i' and v[1] is not None and v[1][0] == 'B')
        if cb is not None and isb(a):
            bits = self.to_bits(st, a, w, signed)
            return self.cmp_bits(st, op, bits, cb, w, signed, a)
        if ca is not None and isb(b):
            bits = self.to_bits(st, b, w, signed)
            if op == 'eq':
                return self.cmp_bits(st, op, bits, ca, w, signed, b)
            # ca < b  <=>  not b <= ca
            return not self.cmp_bits(st, 'le' if op == 'lt' else 'lt', bits, ca, w, signed, b)
        if a == b:
            return op != 'lt'
        if op == 'eq' and (isb(a) or isb(b)):
            x, y = self.to_bits(st, a, w, signed), self.to_bits(st, b, w, signed)
            if x == y:
                return True
            if any(not isinstance(p, tuple) and not isinstance(q, tuple) and p != q for p, q in zip(x, y)):
                return False
        a = self.as_lin(st, a, signed)
        b = self.as_lin(st, b, signed)
        if op == 'eq':
            return self.eqi(st, a, b)
        if op == 'lt':
            return self.lt(st, a, b)
        return self.le(st, a, b)

    def cmp_bits(self, st, op, bits, c, w, signed, v):
        bits = st.norm_bits(bits)
        if op == 'eq':
            return self.bits_eq(st, bits, [(c >> i) & 1 for i in range(w)])
        if signed:
            if c == 0 and op == 'lt':
                return self.bits_eq(st, bits[-1:], (1,))
            if c == -1 and op == 'le':
                return self.bits_eq(st, bits[-1:], (1,))
            if bits[-1] != 0:
                if not isinstance(bits[-1], tuple) and bits[-1] == 1:
                    if c >= 0:
                        return True
                elif c < 0 or True:
                    # split on the sign first
                    neg = self.bits_eq(st, bits[-1:], (1,))
                    if neg and c >= 0:
                        return True
                    if not neg and c < 0:
                        return False
            elif c < 0:
                return False
            bits = st.norm_bits(bits)
            if c < 0:
                # both are negative: compare the complements
                m = tuple(self.neg_bit(b) for b in bits[:-1]) + (0,)
                return not self.cmp_bits(st, 'le' if op == 'lt' else 'lt', m, ~c, w, False, None)
            bits = bits[:-1]
            w -= 1
        if op == 'le':
            c += 1
        # now: bits < c
        if c <= 0:
            return False
        if c >> w:
            return True
        k = bitlen(c) - 1
        if c == 1 << k:
            return self.bits_eq(st, bits[k:], (0,) * (w - k))
        free = sum(1 for b in bits if isinstance(b, tuple))
        if free <= 12:
            return self.cubes(st, bits, c, w)
        return self.zcmp(st, 'lt', bits, c, False)

    def zcmp(self, st, op, bits, c, signed):
        a = self.as_lin(st, ('b', bits), signed)
        return self.lt(st, a, I(c)) if op == 'lt' else self.le(st, a, I(c))

    def cubes(self, st, bits, c, w):
        """bits < c by the most significant bit in which they differ."""
        for i in range(w - 1, -1, -1):
            x = (c >> i) & 1
            one = self.bits_eq(st, bits[i:i + 1], (1,))
            if one != bool(x):
                return not one
        return False

    # enum variants

    def variants(self, st, v):
        """Set of possible variants of an enum value."""
        if v is None:
            raise Imprecise('uninitialised enum')
        if v[0] == 'a':
            return frozenset((v[2],))
        if v[0] == 's':
            f = st.facts.get(v[2])
            if f is not None:
                return f
            t = self.types[v[1]]
            return frozenset(i for i, x in enumerate(t.variants) if not self.uninhabited(v[1], i))
        raise Imprecise('variant of ' + str(v[0]))

    def uninhabited(self, ty, variant):
        for f in self.fields_of(ty, variant):
            t = self.types[f]
            if t.k == 'never' or (t.k == 'adt' and t.adt == 'enum' and not t.variants):
                return True
        return False

    def is_variant(self, st, v, vs):
        """Decides whether the variant of v is one of the set vs."""
        p = self.variants(st, v)
        if p <= vs:
            return True
        if not (p & vs):
            return False
        name = v[2]
        yes, no = p & vs, p - vs
        def t(s):
            self.set_fact(s, name, yes)
        def f(s):
            self.set_fact(s, name, no)
        self.fork(st, [t, f], 'fact')

    def set_fact(self, s, name, vs):
        if not vs:
            raise Infeasible()
        s.facts[name] = vs
        h = getattr(self, 'on_fact', None)
        if h is not None:
            h(self, s, name, vs)

    def variant(self, st, v):
        """The one variant of v, forking if there are several."""
        p = self.variants(st, v)
        if len(p) == 1:
            return next(iter(p))
        if not p:
            raise Infeasible()
        name = v[2]
        alts = []
        for x in sorted(p):
            alts.append(lambda s, x=x: self.set_fact(s, name, frozenset((x,))))
        self.fork(st, alts, 'fact')

    def disc_ix(self, ty, n):
        """Variant index of a discriminant value."""
        t = self.types[ty]
        ix = t.discr_ix.get(n)
        if ix is None:
            for d, i in t.discr_ix.items():
                if (d - n) % (1 << 128) == 0 or (d - n) % (1 << 64) == 0:
                    return i
        return ix

    def eq_disc(self, st, d, n):
        v = d[1]
        ix = self.disc_ix(d[2], n)
        if ix is None:
            return False
        return self.is_variant(st, v, frozenset((ix,)))

    def disc_int(self, st, d):
        """The discriminant as an integer."""
        v = d[1]
        ix = self.variant(st, v)
        return I(int(self.types[d[2]].variants[ix]['discr']))

    # ------------------------------------------------------------ memory

    def load_obj(self, st, obj):
        k = obj[0]
        if k == 'K':
            return obj[1]
        v = st.mem.get(obj)
        if v is None and k == 'O':
            return self.sym(obj[2], ('*', obj[1]))
        return v

    def proj(self, st, v, e):
        """Value of one projection step. e: ('f', variant, i), ('i', idx), 'B'."""
        if v is None:
            raise Imprecise('uninitialised')
        k = v[0]
        if e == 'B':
            if k == 'box':
                return v[1]
            if k == 's':
                return self.sym(self.types[v[1]].args[0], ('*', v[2]))
            raise Imprecise('box deref of ' + k)
        if k == 'room':
            return v
        if e[0] == 'f':
            if k == 'a':
                if e[1] != v[2] and v[1] is not None and self.types[v[1]].adt == 'enum':
                    raise Infeasible()
                if v[1] is not None and self.types[v[1]].adt == 'union':
                    return v[3][0]
                if e[2] >= len(v[3]):
                    raise Imprecise('field of opaque aggregate')
                return v[3][e[2]]
            if k == 's':
                f = self.fields_of(v[1], e[1])[e[2]]
                return self.sym(f, ('f', v[2], e[1], e[2]))
            raise Imprecise('field of ' + k)
        if e[0] == 'i':
            return self.seq_get(st, self.segs(st, v), e[1])
        raise Imprecise('projection')

    def load(self, st, obj, path):
        v = self.load_obj(st, obj)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def store(self, st, obj, path, val):
        if obj[0] == 'K':
            raise Imprecise('write to constant')
        if not path:
            st.mem[obj] = val
            return
        st.mem[obj] = self.upd(st, self.load_obj(st, obj), path, 0, val)

    def upd(self, st, v, path, k, val):
        if k == len(path):
            return val
        e = path[k]
        if v is None:
            raise Imprecise('write into uninitialised')
        if v[0] == 'room':
            # the whole of what is inside a MaybeUninit
            if all(x[0] == 'f' for x in path[k:]):
                return ('room', val)
            raise Imprecise('write into a part of MaybeUninit')
        if e == 'B':
            return ('box', self.upd(st, self.proj(st, v, 'B') if k + 1 < len(path) else None, path, k + 1, val))
        if e[0] == 'f':
            if v[0] == 's':
                v = self.expand_variant(v, e[1])
            if v[0] != 'a':
                raise Imprecise('write into ' + v[0])
            fs = list(v[3])
            fs[e[2]] = self.upd(st, fs[e[2]], path, k + 1, val)
            return ('a', v[1], v[2], tuple(fs))
        if e[0] == 'i':
            segs = self.segs(st, v)
            old = self.seq_get(st, segs, e[1]) if k + 1 < len(path) else None
            new = self.upd(st, old, path, k + 1, val)
            tag = 'vec' if v[0] == 'vec' or (v[0] == 's' and self.is_vec(v[1])) else 'seq'
            return (tag, self.seq_set(st, segs, e[1], new))
        raise Imprecise('write projection')

    def place(self, st, fr, pl):
        """Resolves a MIR place to (obj, path, window)."""
        obj = ('L', fr.fid, pl[0])
        path = ()
        win = None
        var = 0
        if len(pl) == 1:
            return obj, path, win
        v = self.load_obj(st, obj)
        if v is not None and v[0] == 'boxref':
            obj, path = v[1][1], v[1][2]
            v = self.load(st, obj, path)
        for e in pl[1:]:
            if e == '*':
                if v is None:
                    raise Imprecise('deref of uninitialised')
                if v[0] == 'box' or (v[0] == 's' and self.types[v[1]].box):
                    path = path + ('B',)
                    v = self.proj(st, v, 'B')
                elif v[0] == 'p':
                    obj, path = v[1], v[2]
                    win = v[3] if v[3] is not None and v[3][0] == 'sl' else None
                    v = self.load(st, obj, path)
                else:
                    raise Imprecise('deref of ' + v[0])
                var = 0
            elif e == 'cast':
                pass
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'f':
                if v is not None and (v[0] == 'box' or (v[0] == 's' and self.types[v[1]].box)):
                    # Unique / NonNull inside a box: a pointer to its contents
                    v = ('p', obj, path + ('B',), None)
                    obj, path = ('K', v), ()
                    var = 0
                    continue
                if v is not None and v[0] == 'p':
                    var = 0
                    continue      # NonNull { pointer } and the like around a pointer
                st_e = ('f', var, e[1])
                v = self.proj(st, v, st_e)
                path = path + (st_e,)
                var = 0
            elif e[0] == 'i':
                i = self.as_lin(st, self.load_obj(st, ('L', fr.fid, e[1])))
                if win is not None:
                    i = self.add_int(st, win[1], i, 1)
                    win = None
                v = self.seq_get(st, self.segs(st, v), i)
                path = path + (('i', i),)
                var = 0
            elif e[0] == 'c':
                n = win[2] if win is not None else self.segs_len(st, self.segs(st, v))
                i = self.add_int(st, n, I(e[1]), -1) if e[3] else I(e[1])
                if win is not None:
                    i = self.add_int(st, win[1], i, 1)
                    win = None
                v = self.seq_get(st, self.segs(st, v), i)
                path = path + (('i', i),)
                var = 0
            elif e[0] == 's':
                n = win[2] if win is not None else self.segs_len(st, self.segs(st, v))
                start = win[1] if win is not None else ZERO
                a = I(e[1])
                b = self.add_int(st, n, I(e[2]), -1) if e[3] else I(e[2])
                win = ('sl', self.add_int(st, start, a, 1), self.add_int(st, b, a, -1))
            else:
                raise Imprecise('place ' + str(e))
        return obj, path, win

    def read_place(self, st, fr, pl):
        obj, path, win = self.place(st, fr, pl)
        v = self.load(st, obj, path)
        if win is not None:
            segs = self.segs(st, v)
            return ('seq', self.seq_slice(st, segs, win[1], self.add_int(st, win[1], win[2], 1)))
        if v is None:
            raise Imprecise('read of uninitialised local')
        return v

    def ptr_to(self, obj, path, meta=None):
        return ('p', obj, path, meta)

    def deref(self, st, p):
        """Value behind a pointer."""
        if p[0] == 'box':
            return p[1]
        if p[0] != 'p':
            raise Imprecise('deref of ' + str(p[0]))
        v = self.load(st, p[1], p[2])
        if v is None:
            raise Imprecise('deref of uninitialised')
        return v

    def deref_segs(self, st, p):
        """Segments of a slice or str behind a wide pointer."""
        v = self.deref(st, p)
        segs = self.segs(st, v)
        m = p[3]
        if m is not None and m[0] == 'sl':
            n = self.segs_len(st, segs)
            if m[1] == ZERO and m[2] == n:
                return segs
            return self.seq_slice(st, segs, m[1], self.add_int(st, m[1], m[2], 1))
        return segs

    def slice_len(self, st, p):
        m = p[3]
        if m is not None and m[0] == 'sl':
            return m[2]
        return self.segs_len(st, self.segs(st, self.deref(st, p)))

    # ------------------------------------------------------------ constants

    def const(self, st, c):
        ty = c['ty']
        v = c.get('v')
        if v is None:
            if c.get('body') is not None:
                return self.eval_const(c['body'], ty)
            if 'param' in c:
                return self.sym(ty, ('param', c['param']))
            return self.sym(ty, ('const', c.get('uneval'), str(c.get('args'))))
        return self.constval(v, ty)

    def constval(self, v, ty):
        if v is None:
            raise Imprecise('constant')
        if 'int' in v:
            n = int(v['int'])
            if self.is_int(ty):
                return I(self.wrap(n, ty))
            return I(n)
        if 'zst' in v:
            return self.zst(v['zst'])
        if 'str' in v or 'bytes' in v:
            b = bytes.fromhex(v.get('str', v.get('bytes')))
            return ('p', ('K', ('seq', (('C', b),) if b else ())), (), ('sl', ZERO, I(len(b))))
        if 'ref' in v:
            to = v.get('to')
            x = self.constval(v['ref'], to)
            meta = None
            return ('p', ('K', x), (), meta)
        if 'agg' in v:
            t = self.types[v['ty']]
            if t.k == 'array':
                fs = [self.constval(f, t.elem) for f in v['agg']]
                if t.elem == self.u8() and all(is_const(f) for f in fs):
                    return ('seq', (('C', bytes(f[2] for f in fs)),) if fs else ())
                return ('seq', tuple(('S', f) for f in fs))
            var = v.get('variant') or 0
            fts = self.fields_of(v['ty'], var)
            fs = tuple(self.constval(f, ft) for f, ft in zip(v['agg'], fts))
            if t.k == 'tuple' and not fs:
                return UNIT
            if self.is_vec(v['ty']):
                return ('vec', ())
            return ('a', v['ty'], var, fs)
        if 'slice' in v:
            fs = [self.constval(f, v['elem']) for f in v['slice']]
            return ('p', ('K', ('seq', tuple(('S', f) for f in fs))), (), ('sl', ZERO, I(len(fs))))
        if 'promoted' in v:
            return self.eval_const(v['promoted'], ty)
        if 'fn' in v:
            return ('fnc', _freeze(v['fn']))
        if 'static' in v:
            t = self.types[ty]
            return ('p', ('O', ('static', v['static']), t.to), (), None)
        raise Imprecise('constant ' + str(v)[:80])

    def marker(self, ty):
        t = self.types[ty]
        return t.k == 'tuple' and not t.elems or t.k == 'adt' and (t.path or '').endswith('marker::PhantomData')

    def zst(self, ty):
        t = self.types[ty]
        if t.k == 'fndef':
            return ('fn', ty)
        if t.k == 'tuple':
            if not t.elems:
                return UNIT
            return ('a', ty, 0, tuple(self.zst(e) for e in t.elems))
        if t.k == 'closure':
            return ('a', ty, 0, tuple(self.zst(e) for e in t.upvars))
        if t.k == 'adt' and t.adt == 'struct':
            return ('a', ty, 0, tuple(self.zst(f[1]) for f in t.variants[0]['fields']))
        if t.k == 'adt' and t.adt == 'enum' and len(t.variants) == 1:
            return ('a', ty, 0, tuple(self.zst(f[1]) for f in t.variants[0]['fields']))
        if t.k == 'array':
            return ('seq', ())
        return ('s', ty, ('zst', ty))

    def eval_const(self, body, ty):
        """Evaluates a promoted or constant body (no arguments, no choice)."""
        c = self.const_cache.get(body)
        if c is None:
            j = Job(self.prog, self.natives, {}, 2000)
            j.const_cache = self.const_cache
            st = State()
            outs = j.run(body, [], st)
            if len(outs) != 1 or outs[0][0] != 'ret':
                c = ('?', 'constant body: ' + str([o[0] + str(o[2])[:80] for o in outs][:3]))
            else:
                c = j.freeze_locals(outs[0][1], outs[0][2])
            self.const_cache[body] = c
        if c[0] == '?':
            raise Imprecise(c[1])
        return c

    def freeze_locals(self, st, v):
        """Replaces pointers to locals of a finished evaluation by constants."""
        if not isinstance(v, tuple):
            return v
        if v and v[0] == 'p' and v[1][0] == 'L':
            inner = self.load(st, v[1], v[2])
            return ('p', ('K', self.freeze_locals(st, inner)), (), v[3])
        return tuple(self.freeze_locals(st, x) if isinstance(x, tuple) else x for x in v)

    # ------------------------------------------------------------ operands, rvalues

    def operand(self, st, fr, op):
        if 'copy' in op:
            return self.read_place(st, fr, op['copy'])
        if 'move' in op:
            return self.read_place(st, fr, op['move'])
        if 'const' in op:
            return self.const(st, op['const'])
        if 'rtcheck' in op:
            return FALSE if op['rtcheck'].startswith('Ub') or 'Contract' in op['rtcheck'] else TRUE
        raise Imprecise('operand')

    def rvalue(self, st, fr, rv, dest):
        if 'use' in rv:
            return self.operand(st, fr, rv['use'])
        if 'ref' in rv:
            pl = rv['ref']
            obj, path, win = self.place(st, fr, pl)
            meta = None
            if win is not None:
                meta = win
            elif pl[-1] == '*':
                # reborrow: keep the metadata
                o2, p2, _ = self.place(st, fr, pl[:-1])
                pv = self.load(st, o2, p2)
                if pv is not None and pv[0] == 'p':
                    return pv if not win else ('p', obj, path, win)
            return ('p', obj, path, meta)
        if 'bin' in rv:
            return self.binop(st, rv['bin'], self.operand(st, fr, rv['a']), self.operand(st, fr, rv['b']), rv['ty'], rv, fr, dest)
        if 'agg' in rv:
            fs = tuple(self.operand(st, fr, f) for f in rv['fields'])
            k = rv['agg']
            if k == 'array':
                if fs and all(is_const(f) and 0 <= f[2] < 256 for f in fs) and self.types[rv['ty']].elem == self.u8():
                    return ('seq', (('C', bytes(f[2] for f in fs)),))
                return ('seq', tuple(('S', f) for f in fs))
            if k == 'tuple' and not fs:
                return UNIT
            if k == 'rawptr':
                p, m = fs
                if p[0] == 'p':
                    t = self.types[rv['ty']]
                    if t.k in ('rawptr', 'ref') and self.types[t.to].k in ('slice', 'str'):
                        return ('p', p[1], p[2], ('sl', ZERO, self.as_lin(st, m)))
                    return p
                raise Imprecise('raw pointer')
            if k in ('tuple', 'adt', 'closure'):
                if self.types[rv['ty']].adt == 'union':
                    return ('a', rv['ty'], 0, fs)
                return ('a', rv['ty'], rv['variant'], fs)
            raise Imprecise('aggregate ' + k)
        if 'discr' in rv:
            t = self.types[rv['ty']]
            if t.adt == 'enum':
                vs = [i for i in range(len(t.variants)) if not self.uninhabited(rv['ty'], i)]
                if len(vs) == 1 and all(self.types[f].k == 'never' for f in self.fields_of(rv['ty'], vs[0])):
                    # the only one there is
                    return I(int(t.variants[vs[0]]['discr']))
            v = self.read_place(st, fr, rv['discr'])
            if t.adt != 'enum':
                return ZERO
            return ('disc', v, rv['ty'])
        if 'cast' in rv:
            return self.cast(st, rv['cast'], self.operand(st, fr, rv['op']), rv['from'], rv['ty'])
        if 'un' in rv:
            return self.unop(st, rv['un'], self.operand(st, fr, rv['a']), rv['ty'])
        if 'repeat' in rv:
            v = self.operand(st, fr, rv['repeat'])
            n = rv['n']
            if not isinstance(n, int):
                raise Imprecise('repeat')
            if n <= 64:
                if is_const(v) and 0 <= v[2] < 256 and self.types[self.types[fr.body.locals[dest[0]]].i].k == 'array' and len(dest) == 1 and self.types[fr.body.locals[dest[0]]].elem == self.u8():
                    return ('seq', (('C', bytes([v[2]]) * n),) if n else ())
                return ('seq', (('S', v),) * n)
            return ('seq', (('F', v, ZERO, I(n)),))
        raise Imprecise('rvalue ' + str(list(rv))[:60])

    def cast(self, st, kind, v, f, t):
        ft, tt = self.types[f], self.types[t]
        if v is not None and v[0] == 'disc' and self.is_int(t):
            v = self.disc_int(st, v)
            return I(self.wrap(v[2], t))
        if ft.k == 'adt' and ft.adt == 'enum' and self.is_int(t):
            ix = self.variant(st, v)
            return I(self.wrap(int(ft.variants[ix]['discr']), t))
        if kind.startswith('IntToInt') or kind == 'Transmute' and self.is_int(f) and self.is_int(t):
            if self.is_int(f) and self.is_int(t):
                return self.cast_int(st, v, f, t)
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') or kind == 'Transmute':
            if 'Unsize' in kind:
                return self.unsize(st, v, ft, tt)
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind or 'UnsafeFnPointer' in kind:
                return v
            if kind == 'Transmute' and tt.k in ('ref', 'rawptr', 'adt') and v[0] == 'p':
                return v
            if kind == 'Transmute' and ft.k == tt.k == 'adt' and ft.path == tt.path:
                return v
            if v[0] == 'op' and v[1] == 'buf':
                return v
            if kind == 'Transmute' and v[0] == 'fn' or v[0] == 'fnc':
                return v
            if v[0] == 'p':
                if tt.k in ('rawptr', 'ref'):
                    to = self.types[tt.to]
                    if to.k in ('slice', 'str', 'dyn', 'adt', 'tuple', 'uint', 'int', 'param', 'alias', 'array', 'other', 'bool', 'char', 'ref', 'never', 'float'):
                        return v
            if v[0] == 'box':
                return v
        if kind.startswith('BoxDeref') and v[0] in ('p', 'box'):
            return v
        if kind.startswith('PointerExpose') and v[0] in ('fn', 'fnc'):
            return v
        if kind.startswith('FloatToFloat') and v is not None:
            return ('op', 'f2f', v)
        raise Imprecise('cast %s %s -> %s' % (kind, ft.s[:40], tt.s[:40]))

    def unsize(self, st, v, ft, tt):
        to = self.types[tt.to] if tt.to is not None else None
        if tt.k == 'adt' and tt.box:
            to = self.types[tt.args[0]]
            fr = self.types[ft.args[0]] if ft.box else None
            if to.k == 'dyn':
                # Box<T> -> Box<dyn Trait>: remember the type
                if fr is not None and fr.k == 'dyn':
                    return v
                return ('box', ('dynv', fr.i if fr else None, self.proj(st, v, 'B')))
            if to.k == 'slice':
                return v
            raise Imprecise('unsize box')
        if to is None:
            raise Imprecise('unsize')
        if to.k == 'slice':
            fr = self.types[ft.to]
            n = fr.len if isinstance(fr.len, int) else None
            if n is None:
                n = self.segs_len(st, self.segs(st, self.deref(st, v)))
            else:
                n = I(n)
            return ('p', v[1], v[2], ('sl', ZERO, n))
        if to.k == 'dyn':
            if v[3] is not None and v[3][0] == 'dyn':
                return v
            return ('p', v[1], v[2], ('dyn', ft.to))
        raise Imprecise('unsize to ' + to.s)

    def unop(self, st, op, v, ty):
        t = self.types[ty]
        if op == 'Not':
            w, s = self.width(ty)
            if v[0] == 'disc':
                v = self.disc_int(st, v)
            if t.k == 'bool':
                if is_const(v):
                    return I(1 - v[2])
                b = self.to_bits(st, v, 1)
                return self.from_bits(st, self.not_bits(b))
            b = self.to_bits(st, v, w, s)
            return self.from_bits(st, self.not_bits(b), s)
        if op == 'Neg':
            c = self.to_const(st, v)
            if c is not None and t.k == 'int':
                return I(self.wrap(-c, ty))
            if t.k == 'float':
                b = self.to_bits(st, v, t.bits)
                return self.from_bits(st, b[:-1] + self.not_bits(b[-1:]))
            name = ('neg', v)
            lo, hi = self.irange(ty)
            return lin(nbase(name, lo, hi))
        if op == 'PtrMetadata':
            if v[0] == 'p' and v[3] is not None and v[3][0] == 'sl':
                return v[3][2]
            if v[0] == 'p' and v[3] is None:
                return self.segs_len(st, self.segs(st, self.deref(st, v)))
        raise Imprecise('unop ' + op)

    def not_bits(self, b):
        return tuple((x[0], x[1], 1 - x[2]) if isinstance(x, tuple) else 1 - x for x in b)

    def and_bit(self, x, y):
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1:
            return x
        if x == y:
            return x
        if x[:2] == y[:2]:
            return 0
        a, b = sorted((x, y), key=repr)
        return ((('op', 0, 1, ('and', a, b)), 0), 0, 0)

    def neg_bit(self, x):
        return (x[0], x[1], 1 - x[2]) if isinstance(x, tuple) else 1 - x

    def or_bit(self, x, y):
        return self.neg_bit(self.and_bit(self.neg_bit(x), self.neg_bit(y)))

    def xor_bit(self, x, y):
        if not isinstance(x, tuple):
            x, y = y, x
        if not isinstance(x, tuple):
            return x ^ y
        if not isinstance(y, tuple):
            return self.neg_bit(x) if y else x
        if x[:2] == y[:2]:
            return x[2] ^ y[2]
        a, b = sorted(((x[0], x[1], 0), (y[0], y[1], 0)), key=repr)
        r = ((('op', 0, 1, ('xor', a, b)), 0), 0, 0)
        return self.neg_bit(r) if x[2] ^ y[2] else r

    def binop(self, st, op, a, b, ty, rv=None, fr=None, dest=None):
        t = self.types[ty]
        if a[0] == 'disc' and op in ('Eq', 'Ne') and is_const(b):
            r = self.eq_disc(st, a, b[2])
            return TRUE if r == (op == 'Eq') else FALSE
        if a[0] == 'disc':
            a = self.disc_int(st, a)
        if b[0] == 'disc':
            b = self.disc_int(st, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a[0] in ('p', 'fn', 'fnc') or b[0] in ('p', 'fn', 'fnc'):
                if op in ('Eq', 'Ne'):
                    if a == b:
                        return TRUE if op == 'Eq' else FALSE
                    if self.fnids and a[0] in ('fn', 'fnc') and b[0] in ('fn', 'fnc'):
                        return TRUE if op == 'Ne' else FALSE
                    return TRUE if self.pred(st, ('ptreq',) + tuple(sorted((a, b), key=repr))) == (op == 'Eq') else FALSE
                raise Imprecise('pointer comparison')
            if op == 'Eq':
                r = self.cmp(st, 'eq', a, b, ty)
            elif op == 'Ne':
                r = not self.cmp(st, 'eq', a, b, ty)
            elif op == 'Lt':
                r = self.cmp(st, 'lt', a, b, ty)
            elif op == 'Le':
                r = self.cmp(st, 'le', a, b, ty)
            elif op == 'Gt':
                r = self.cmp(st, 'lt', b, a, ty)
            else:
                r = self.cmp(st, 'le', b, a, ty)
            return TRUE if r else FALSE
        if op == 'Cmp':
            if self.cmp(st, 'lt', a, b, ty):
                ix = 0
            elif self.cmp(st, 'eq', a, b, ty):
                ix = 1
            else:
                ix = 2
            ot = self.tyname('core::cmp::Ordering')
            return ('a', ot, ix, ())
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            w, s = self.width(ty)
            if w is None:
                raise Imprecise('bit operation on ' + t.s)
            x, y = self.to_bits(st, a, w, s), self.to_bits(st, b, w, s)
            f = {'BitAnd': self.and_bit, 'BitOr': self.or_bit, 'BitXor': self.xor_bit}[op]
            return self.from_bits(st, tuple(f(p, q) for p, q in zip(x, y)), s)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            w, s = self.width(ty)
            c = self.to_const(st, b)
            if c is None:
                raise Imprecise('shift by unknown amount')
            c %= w
            x = self.to_bits(st, a, w, s)
            if op.startswith('Shl'):
                x = (0,) * c + x[:w - c]
            else:
                x = x[c:] + ((x[-1] if s else 0),) * c
            return self.from_bits(st, x, s)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked',
                  'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if t.k == 'float':
                return lin(nbase(('fop', op, a, b), 0, (1 << t.bits) - 1))
            w, s = self.width(ty)
            lo, hi = self.irange(ty)
            base = op.replace('Unchecked', '').replace('WithOverflow', '')
            r = self.arith(st, base, a, b, s)
            if op.endswith('Unchecked'):
                return r
            l, h = self.rng(st, r)
            if l >= lo and h <= hi:
                ovf = False
            elif h < lo or l > hi:
                ovf = True
            else:
                ovf = not (self.le(st, r, I(hi)) and self.le(st, I(lo), r))
            if ovf:
                c = self.to_const(st, r)
                if c is not None:
                    r = I(self.wrap(c, ty))
                else:
                    l, h = self.rng(st, r)
                    m = 1 << w
                    if l > hi and h <= hi + m:
                        r = ('i', r[1], r[2] - m)
                    elif h < lo and l >= lo - m:
                        r = ('i', r[1], r[2] + m)
                    else:
                        r = lin(nbase(('wrap', r), lo, hi))
            if op.endswith('WithOverflow'):
                tt = None
                if fr is not None and dest is not None and len(dest) == 1:
                    tt = fr.body.locals[dest[0]]
                return ('a', tt, 0, (r, TRUE if ovf else FALSE))
            return r
        if op in ('Div', 'Rem'):
            ca, cb = self.to_const(st, a), self.to_const(st, b)
            w, s = self.width(ty)
            if ca is not None and cb:
                q = abs(ca) // abs(cb)
                if (ca < 0) != (cb < 0):
                    q = -q
                return I(self.wrap(q if op == 'Div' else ca - q * cb, ty))
            if cb and cb > 0 and not s:
                if cb & (cb - 1) == 0:
                    k = bitlen(cb) - 1
                    x = self.to_bits(st, a, w, s)
                    if op == 'Div':
                        x = x[k:] + (0,) * k
                    else:
                        x = x[:k] + (0,) * (w - k)
                    return self.from_bits(st, x, s)
                al = self.as_lin(st, a, s)
                l, h = self.rng(st, al)
                if op == 'Div':
                    return lin(nbase(('div', al, cb), l // cb, h // cb))
                return lin(nbase(('rem', al, cb), 0, min(h, cb - 1)))
            lo, hi = self.irange(ty)
            return lin(nbase((op, a, b), lo, hi))
        if op == 'Offset':
            raise Imprecise('pointer offset')
        raise Imprecise('binop ' + op)

    def arith(self, st, op, a, b, signed):
        a = self.as_lin(st, a, signed)
        b = self.as_lin(st, b, signed)
        if op == 'Add':
            return self.add_int(st, a, b, 1)
        if op == 'Sub':
            return self.add_int(st, a, b, -1)
        ca, cb = self.to_const(st, a), self.to_const(st, b)
        if ca is not None and cb is not None:
            return I(ca * cb)
        for x, c in ((a, cb), (b, ca)):
            if c == 1:
                return x
            if c == 0:
                return ZERO
        (l1, h1), (l2, h2) = self.rng(st, a), self.rng(st, b)
        ps = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
        return lin(nbase(('mul', a, b), min(ps), max(ps)))

    # ------------------------------------------------------------ running

    def start(self, body, args, st):
        b = self.prog.bodies[body]
        fr = Frame(len(st.frames), b, None, None)
        st.frames.append(fr)
        self.set_args(st, fr, args)
        self.visited_bodies.add(body)
        return st

    def set_args(self, st, fr, args):
        b = fr.body
        if b.spread is not None and len(args) < b.argc or (b.spread is not None and b.argc == len(args)):
            pass
        for i, a in enumerate(args):
            st.mem[('L', fr.fid, i + 1)] = a

    def run(self, body, args, st=None):
        st = st or State()
        self.outcomes = []
        import heapq
        self.work = []
        self.nwork = 0
        self.push(self.start(body, args, st))
        while self.work:
            _, _, s = heapq.heappop(self.work)
            self.stats['states'] += 1
            if self.deadline is not None and time.time() > self.deadline:
                break
            if self.stats['states'] > self.max_states:
                self.outcomes.append(('imprecise', s, 'too many states'))
                break
            if s.mon:
                self.resume(s)
            else:
                self.exec(s)
        return self.outcomes

    def exec(self, st):
        """Runs one state until it ends or forks."""
        try:
            while True:
                fr = st.frames[-1]
                bl = fr.body.blocks[fr.blk]
                ss = bl['s']
                n = len(ss)
                while fr.idx < n:
                    try:
                        self.stmt(st, fr, ss[fr.idx])
                    except Fork as f:
                        self.do_fork(st, f)
                        return
                    fr.idx += 1
                st.steps += 1
                self.stats['steps'] += 1
                if st.steps > MAXSTEPS:
                    raise Imprecise('too many steps')
                try:
                    if 'call' in bl['t'] or fr.cont is not None:
                        # natives may have changed the state before they fork
                        snap = st.copy()
                        try:
                            go = self.term(st, fr, bl['t'])
                        except Fork as f:
                            self.do_fork(snap, f)
                            return
                    else:
                        go = self.term(st, fr, bl['t'])
                except Fork as f:
                    self.do_fork(st, f)
                    return
                if not go:
                    return
        except Infeasible:
            return
        except Panic as p:
            self.outcomes.append(('panic', st, p.why + self.where(st)))
        except Imprecise as e:
            self.outcomes.append(('imprecise', st, str(e) + self.where(st)))

    def where(self, st):
        out = []
        for fr in st.frames[-4:]:
            sp = fr.body.blocks[fr.blk].get('sp') or ''
            out.append('%s (%s)' % (fr.body.path, sp.split('/')[-1] if sp.startswith('/rustc') or '/library/' in sp else sp.replace('/repo/', '')))
        return ' at ' + ' > '.join(out)

    def do_fork(self, st, f):
        st.nforks += 1
        for alt in f.alts:
            s = st.copy()
            try:
                alt(s)
            except Infeasible:
                continue
            if f.kind == 'zone':
                s.forks += 1
            self.push(s)

    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=' and len(s[1]) == 1 and 'use' in s[2] and 'copy' in s[2]['use'] and \
                self.types[fr.body.locals[s[1][0]]].box:
            # a box copied only to be dereferenced: stands for the place it is in
            obj, path, win = self.place(st, fr, s[2]['use']['copy'])
            st.mem[('L', fr.fid, s[1][0])] = ('boxref', ('p', obj, path, None))
            return
        if k == '=':
            v = self.rvalue(st, fr, s[2], s[1])
            pl = s[1]
            if len(pl) == 1:
                st.mem[('L', fr.fid, pl[0])] = v
            else:
                obj, path, win = self.place_w(st, fr, pl)
                self.store(st, obj, path, v)
        elif k == 'dead':
            st.mem.pop(('L', fr.fid, s[1]), None)
        elif k == 'live':
            st.mem.pop(('L', fr.fid, s[1]), None)
        elif k == 'assume':
            v = self.operand(st, fr, s[1])
            if not self.truth(st, v):
                raise Infeasible()
        elif k == 'setdiscr':
            obj, path, win = self.place_w(st, fr, s[1])
            v = self.load(st, obj, path)
            if v is None or v[0] != 'a':
                raise Imprecise('set discriminant')
            self.store(st, obj, path, ('a', v[1], s[2], v[3]))
        else:
            raise Imprecise('statement ' + k)

    def place_w(self, st, fr, pl):
        """Like place, but the last step need not be readable."""
        if len(pl) == 1:
            return ('L', fr.fid, pl[0]), (), None
        last = pl[-1]
        if last != '*' and isinstance(last, list) and last[0] == 'f':
            j = len(pl) - 1
            var = 0
            if isinstance(pl[j - 1], list) and pl[j - 1][0] == 'd':
                var = pl[j - 1][1]
                j -= 1
            obj, path, win = self.place(st, fr, pl[:j])
            return obj, path + (('f', var, last[1]),), None
        return self.place(st, fr, pl)

    def goto(self, st, fr, blk):
        fr.blk = blk
        fr.idx = 0
        body = fr.body
        live = P.liveness(body)
        heads, joins = body._joins
        if fr.heads:
            loops = body._loops
            gone = [h for h in fr.heads if blk not in loops.get(h[1] if isinstance(h, tuple) else h, ())]
            if gone:
                fr.heads = {h: x for h, x in fr.heads.items() if h not in gone}
        if blk in heads:
            if st.nforks != fr.nf and (not fr.heads or blk not in fr.heads):
                return self.park(st)
            return self.head(st, fr, blk)
        if blk in joins and st.nforks != fr.nf:
            return self.park(st)
        return True

    def term(self, st, fr, t):
        if 'goto' in t:
            return self.goto(st, fr, t['goto'])
        if 'switch' in t:
            v = self.operand(st, fr, t['switch'])
            if v[0] == 'disc':
                alts = []
                rest = self.variants(st, v[1])
                tgt = {}
                for n, b in t['targets']:
                    ix = self.disc_ix(v[2], int(n))
                    if ix in rest:
                        tgt.setdefault(b, set()).add(ix)
                        rest = rest - {ix}
                if rest:
                    tgt.setdefault(t['otherwise'], set()).update(rest)
                if len(tgt) == 1:
                    return self.goto(st, fr, next(iter(tgt)))
                name = v[1][2]
                self.fork(st, [lambda s, x=frozenset(x): self.set_fact(s, name, x) for x in tgt.values()], 'fact')
            ty = t['ty']
            if self.types[ty].k == 'bool':
                b = self.truth(st, v)
                for n, blk in t['targets']:
                    if int(n) == int(b):
                        return self.goto(st, fr, blk)
                return self.goto(st, fr, t['otherwise'])
            for n, blk in t['targets']:
                if self.cmp(st, 'eq', v, I(self.wrap(int(n), ty)), ty):
                    return self.goto(st, fr, blk)
            return self.goto(st, fr, t['otherwise'])
        if 'call' in t:
            return self.call(st, fr, t['call'])
        if 'return' in t:
            return self.ret(st, fr)
        if 'drop' in t:
            return self.drop(st, fr, t)
        if 'assert' in t:
            v = self.operand(st, fr, t['assert'])
            if self.truth(st, v) == t['expected']:
                return self.goto(st, fr, t['target'])
            raise Panic('assertion (%s)' % t['msg'])
        if 'unreachable' in t:
            raise Infeasible()
        raise Imprecise('terminator ' + str(list(t)))

    def ret(self, st, fr):
        v = st.mem.get(('L', fr.fid, 0))
        if v is None:
            t = self.types[fr.body.locals[0]]
            if t.k == 'tuple' and not t.elems:
                v = UNIT
            elif t.k == 'adt' and t.adt == 'struct' and all(self.marker(f[1]) for f in t.variants[0]['fields']):
                v = self.zst(fr.body.locals[0])
            else:
                raise Imprecise('no return value')
        return self.leave(st, fr, v)

    def leave(self, st, fr, v):
        st.frames.pop()
        mem = st.mem
        if st.frames:
            f = fr.fid
            for k in range(fr.body.nlocals):
                mem.pop(('L', f, k), None)
        if fr.cont is not None:
            v = fr.cont(self, st, v)
            if v is None:
                return True
        if not st.frames:
            self.outcomes.append(('ret', st, v))
            return False
        up = st.frames[-1]
        r = self.finish_call(st, up, fr.dest, fr.target, v)
        if r and st.nforks != fr.nf and len(st.frames) and st.frames[-1] is up:
            # the call forked: paths that came out the same are one from here on
            return self.park(st)
        return r

    def finish_call(self, st, fr, dest, target, v):
        if dest is not None:
            if len(dest) == 1:
                st.mem[('L', fr.fid, dest[0])] = v
            else:
                obj, path, win = self.place_w(st, fr, dest)
                self.store(st, obj, path, v)
        if target is None:
            raise Imprecise('return from diverging call')
        return self.goto(st, fr, target)

    def drop(self, st, fr, t):
        ty = t['ty']
        if self.needs_drop_call(ty):
            h = self.hooks.get('drop')
            if h is not None:
                obj, path, win = self.place(st, fr, t['drop'])
                v = self.load(st, obj, path)
                h(self, st, ty, v)
        return self.goto(st, fr, t['target'])

    def needs_drop_call(self, ty):
        return self.types[ty].drop_body is not None

    def callee_name(self, cal):
        return cal.get('rpath') or cal['path']

    def call(self, st, fr, c):
        args = [self.operand(st, fr, a) for a in c['args']]
        if 'callee' in c:
            return self.dispatch(st, fr, c['callee'], args, c['dest'], c.get('target'), c['dty'])
        if 'fptr' in c:
            f = self.operand(st, fr, c['fptr'])
            return self.call_value(st, fr, f, args, c['dest'], c.get('target'), c['dty'])
        raise Imprecise('call')

    def call_value(self, st, fr, f, args, dest, target, dty):
        """Calls a function value with already untupled arguments."""
        if f[0] == 'fn':
            t = self.types[f[1]]
            return self.dispatch(st, fr, t.callee, args, dest, target, dty)
        if f[0] == 'fnc':
            return self.dispatch(st, fr, _thaw(f[1]), args, dest, target, dty)
        if f[0] == 'p':
            inner = self.deref(st, f)
            if inner[0] in ('fn', 'fnc'):
                return self.call_value(st, fr, inner, args, dest, target, dty)
            if inner[0] == 'a' and inner[1] is not None and self.types[inner[1]].k == 'closure':
                t = self.types[inner[1]]
                return self.call_closure(st, fr, t, f, args, dest, target)
        if f[0] == 'a' and f[1] is not None and self.types[f[1]].k == 'closure':
            t = self.types[f[1]]
            return self.call_closure(st, fr, t, f, args, dest, target)
        raise Imprecise('call of unknown function value')

    def call_closure(self, st, fr, t, f, args, dest, target):
        if t.body is None:
            raise Imprecise('closure without body')
        b = self.prog.bodies[t.body]
        st_ty = self.types[b.locals[1]]
        if st_ty.k == 'ref':
            if f[0] != 'p':
                key = ('T', len(st.frames), t.i)
                st.mem[key] = f
                f = ('p', key, (), None)
        elif f[0] == 'p':
            f = self.deref(st, f)
        return self.inline(st, t.body, [f] + list(args), dest, target)

    def inline(self, st, body, args, dest, target, cont=None):
        depth = sum(1 for f in st.frames if f.body.i == body)
        if depth > self.reccap:
            raise Imprecise('recursion of ' + self.prog.bodies[body].path)
        if len(st.frames) > self.depthcap:
            raise Imprecise("call depth")
        self.visited_bodies.add(body)
        fr = Frame(len(st.frames), self.prog.bodies[body], dest, target, cont)
        fr.nf = st.nforks
        for k in range(fr.body.nlocals):
            st.mem.pop(('L', fr.fid, k), None)
        b = fr.body
        if b.raw.get('error'):
            raise Imprecise('no body')
        if b.spread is not None and len(args) != b.argc:
            pass
        if b.argc != len(args):
            # closures take their arguments as a tuple
            if len(args) == 2 and args[1] is not None and args[1][0] == 'a' and b.argc == 1 + len(args[1][3]):
                args = [args[0]] + list(args[1][3])
            else:
                raise Imprecise('argument count of ' + b.path)
        for i, a in enumerate(args):
            st.mem[('L', fr.fid, i + 1)] = a
        st.frames.append(fr)
        return True

    def dispatch(self, st, fr, cal, args, dest, target, dty):
        name = self.callee_name(cal)
        self.callees.add(name)
        h = self.hooks.get(name)
        if h is None and self.router is not None:
            h = self.router(name)
        if h is None:
            h = self.hooks.get(cal['path'])
        if h is None and cal.get('trait'):
            h = self.hooks.get((cal['trait'], cal['method']))
        if h is not None:
            r = h(self, st, Call(cal, args, dest, target, dty, name))
            if r is not NotImplemented:
                return self.native_result(st, fr, r, dest, target)
        h = self.natives.get(name)
        if h is None:
            h = self.natives.get(cal['path'])
        if h is not None:
            r = h(self, st, Call(cal, args, dest, target, dty, name))
            if r is not NotImplemented:
                return self.native_result(st, fr, r, dest, target)
        kind = cal.get('kind')
        if kind == 'ctor':
            return self.finish_call(st, fr, dest, target, ('a', cal['ty'], cal['variant'], tuple(args)))
        tr = cal.get('trait') or ''
        if tr in ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn'):
            tup = args[1]
            if tup[0] == 's':
                tup = self.expand(tup)
            return self.call_value(st, fr, args[0], list(tup[3]), dest, target, dty)
        if cal.get('body') is not None:
            return self.inline(st, cal['body'], args, dest, target)
        if name.startswith('core::panicking::') or target is None:
            raise Panic('call of ' + name)
        raise Imprecise('call of %s %s' % (kind, name))

    def native_result(self, st, fr, r, dest, target):
        if isinstance(r, Inline):
            return self.inline(st, r.body, r.args, dest, target, r.cont)
        if isinstance(r, CallVal):
            return self.call_value(st, fr, r.f, r.args, dest, target, None)
        return self.finish_call(st, fr, dest, target, r)

    # ------------------------------------------------------------ joins, loops

    def clean(self, st):
        """Forgets dead locals."""
        for fr in st.frames:
            live = P.liveness(fr.body)[fr.blk]
            bor = fr.body._borrowed
            if fr is not st.frames[-1]:
                continue
            for k in range(fr.body.nlocals):
                if k not in live and k not in bor:
                    st.mem.pop(('L', fr.fid, k), None)

    def position(self, st):
        return tuple((f.body.i, f.blk, f.idx) for f in st.frames)

    def canon(self, st):
        """(key, constraints): the key is equal for states with equal contents up to the
        names of events; the constraints say what is known, in the same names."""
        ren = {}
        memo = {}
        def go(t):
            if not isinstance(t, tuple):
                return t
            r = memo.get(id(t))
            if r is not None:
                return r[1]
            if len(t) == 2 and t[0] in ('ev', 'w') and isinstance(t[1], int):
                x = ren.get(t)
                if x is None:
                    x = ren[t] = (t[0], '#%d' % len(ren))
                return x
            ch = False
            x = []
            for e in t:
                if isinstance(e, tuple):
                    n = go(e)
                    if n is not e:
                        ch = True
                    x.append(n)
                else:
                    x.append(e)
            x = tuple(x) if ch else t
            memo[id(t)] = (t, x)
            return x
        mem = []
        for k in sorted(st.mem, key=_key):
            mem.append((go(k), go(st.mem[k])))
        gh = tuple((k, go(st.ghost[k])) for k in sorted(st.ghost, key=_key))
        evm = {}
        def reach(n):
            # names of events that nothing refers to any more are dropped
            r = evm.get(id(n))
            if r is None:
                r = evm[id(n)] = (n, all(x in ren for x in _evs(n)))
            return r[1]
        facts = {go(k): v for k, v in st.facts.items() if reach(k)}
        zone = {(go(a) if a else a, go(b) if b else b): c for (a, b), c in st.zone.d.items()
                if (a is None or reach(a)) and (b is None or reach(b))}
        ne = frozenset((go(a) if a else a, go(b) if b else b, c) for (a, b, c) in st.zone.ne
                       if (a is None or reach(a)) and (b is None or reach(b)))
        bits = {go(k): v for k, v in st.bits.items() if reach(k)}
        cl = frozenset(frozenset((go(k), v) for k, v in c) for c in st.clauses if all(reach(k) for k, v in c))
        preds = {go(k): v for k, v in st.preds.items() if reach(k)}
        self._fnames = {go(k): k for k in st.facts if reach(k)}
        return (tuple(mem), gh), (facts, zone, ne, bits, cl, preds)

    @staticmethod
    def vacuous(name, facts):
        """Is the name part of a variant that the facts exclude?"""
        while isinstance(name, tuple) and len(name) > 1:
            if name[0] == 'f' and len(name) == 4:
                f = facts.get(name[1])
                if f is not None and name[2] not in f:
                    return True
            name = name[1]
        return False

    def unite(self, a, b):
        """The one fact by which a differs from b, if their union is exact: (name, set)."""
        for i in range(1, 6):
            if a[i] != b[i]:
                return None
        fa, fb = a[0], b[0]
        diff = None
        for k in fa.keys() | fb.keys():
            x, y = fa.get(k), fb.get(k)
            if x == y:
                continue
            if x is None and self.vacuous(k, fa) or y is None and self.vacuous(k, fb):
                continue
            if x is None or y is None or diff is not None:
                return None
            diff = (k, x | y)
        return diff

    @staticmethod
    def implies(a, b):
        """Do the constraints a imply the constraints b?"""
        fa, za, na, ba, ca, pa = a
        fb, zb, nb, bb, cb, pb = b
        for k, v in fb.items():
            x = fa.get(k)
            if x is None or not x <= v:
                return False
        for k, v in bb.items():
            if ba.get(k) != v:
                return False
        for k, v in pb.items():
            if pa.get(k) != v:
                return False
        z = Zone()
        z.d = za
        for (x, y), c in zb.items():
            if z.ub(x, y) > c:
                return False
        for (x, y, c) in nb:
            if (x, y, c) in na or (y, x, -c) in na:
                continue
            if z.ub(x, y) < c or -z.ub(y, x) > c:
                continue
            return False
        for c in cb:
            if c in ca or any(ba.get(k) == v for k, v in c) or any(d <= c for d in ca):
                continue
            return False
        return True

    def lap(self, st, fr, blk, hs, snap, forks):
        """Counts how often a path goes round a loop between I/O; the hook says whether it may go on."""
        n, f, ios, total = hs.get(('lap', blk), (0, 0, st.ios, 0))
        n, f = n + 1, f + (st.forks != forks)
        if ios != st.ios:
            n, f = 0, 0
        hs[('lap', blk)] = (n, f, st.ios, total + 1)
        return self.laps(self, st, fr, snap, n, f, total + 1)

    def dedupe(self, st, fr):
        self.clean(st)
        key, cons = self.canon(st)
        key = hash((self.position(st), key))
        l = self.seen.setdefault(key, [])
        for c in l:
            if self.implies(cons, c):
                self.stats['dedupe'] += 1
                return False
        l.append(cons)
        return True

    def prio(self, st):
        out = []
        for f in st.frames:
            P.liveness(f.body)
            out.append(f.body._rpo.get(f.blk, 0))
        return tuple(out)

    def push(self, st, parked=False):
        import heapq
        st.mon = parked
        self.nwork += 1
        heapq.heappush(self.work, (self.prio(st), self.nwork, st))

    def park(self, st):
        """The state waits for others that come here, to be merged with them."""
        self.push(st, True)
        return False

    def resume(self, st):
        """Takes up all parked states at the position of st."""
        import heapq
        pos = self.position(st)
        group = [st]
        keep = []
        pr = self.prio(st)
        while self.work and self.work[0][0] == pr:
            e = heapq.heappop(self.work)
            if e[2].mon and self.position(e[2]) == pos:
                group.append(e[2])
            else:
                keep.append(e)
        for e in keep:
            heapq.heappush(self.work, e)
        byk = {}
        for s in group:
            self.clean(s)
            key, cons = self.canon(s)
            byk.setdefault(hash((pos, key)), []).append((cons, s, self._fnames))
        for key, l in byk.items():
            l = self.merge(l)
            # the weakest constraints first
            l.sort(key=lambda x: sum(len(y) for y in x[0]))
            old = self.seen.setdefault(key, [])
            for cons, s, _ in l:
                if any(self.implies(cons, c) for c in old):
                    self.stats['dedupe'] += 1
                    if self.laps is not None:
                        f = s.frames[-1]
                        h = (f.heads or {}).get(f.blk)
                        if h is not None:
                            self.lap(s, f, f.blk, dict(f.heads), h[2], h[1])
                    continue
                old.append(cons)
                s.mon = False
                fr = s.frames[-1]
                heads, joins = fr.body._joins
                if fr.blk in heads:
                    if not self.head(s, fr, fr.blk, True):
                        continue
                self.exec(s)

    def merge(self, l):
        """Merges states that differ in one fact."""
        l = list(l)
        i = 0
        while i < len(l):
            k = i + 1
            while k < len(l):
                a, b = l[i], l[k]
                d = self.unite(a[0], b[0])
                if d is None:
                    k += 1
                    continue
                name, vs = d
                if any(n not in a[2] and any(True for _ in _evs2(n)) for n in b[2]):
                    k += 1
                    continue
                # facts that only one of them has speak of the variants it has
                facts = dict(b[0][0])
                facts.update(a[0][0])
                facts[name] = vs
                s = a[1]
                fn = dict(b[2])
                fn.update(a[2])
                for n, v in facts.items():
                    s.facts[fn[n]] = v
                l[i] = ((facts,) + a[0][1:], s, fn)
                del l[k]
                k = i + 1
            i += 1
        return l

    def head(self, st, fr, blk, merged=False):
        self.clean(st)
        hs = fr.heads or {}
        h = hs.get(blk)
        if h is None:
            if not merged and not self.dedupe(st, fr):
                return False
            hs = dict(hs)
            hs[blk] = (1, st.forks, st.copy(), None)
            fr.heads = hs
            return True
        visits, forks, snap, W = h
        hs = dict(hs)
        if self.laps is not None and not self.lap(st, fr, blk, hs, snap, forks):
            return False
        if self.unroll is not None and st.forks != forks and visits >= self.unroll:
            return False
        if W is None and (st.forks == forks or visits < self.patience or self.unroll is not None):
            # decided by constants and bits alone: unroll; else twice, then widen
            if not self.dedupe(st, fr):
                return False
            hs[blk] = (visits if st.forks == forks else visits + 1, st.forks, st.copy(), None)
            fr.heads = hs
            return True
        if self.shape is not None and self.shape(snap) != self.shape(st):
            # not to be joined: a fresh start from here
            if not self.dedupe(st, fr):
                return False
            hs[blk] = (1, st.forks, st.copy(), None)
            fr.heads = hs
            return True
        from widen import widen
        self.stats['widen'] += 1
        g, changed, W2 = widen(self, snap, st, W)
        if not changed and W is not None:
            return False
        n = visits + 1
        if n > 40:
            raise Imprecise('widening does not end')
        gf = g.frames[-1]
        hs2 = dict(hs)
        hs2[blk] = (n, g.forks, g.copy(), W2)
        gf.heads = hs2
        gf.blk, gf.idx = blk, 0
        if not self.dedupe(g, gf):
            return False
        self.push(g)
        return False


def _key(k):
    return repr(k)


def _evs(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('ev', 'w') and isinstance(t[1], int):
            yield t
        else:
            for e in t:
                if isinstance(e, tuple):
                    yield from _evs(e)


def _evs2(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('ev', 'w'):
            yield t
        else:
            for e in t:
                if isinstance(e, tuple):
                    yield from _evs2(e)


def _freeze(x):
    if isinstance(x, dict):
        return ('D',) + tuple(sorted((k, _freeze(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ('Li',) + tuple(_freeze(v) for v in x)
    return x


def _thaw(x):
    if isinstance(x, tuple):
        if x[0] == 'D':
            return {k: _thaw(v) for k, v in x[1:]}
        return [_thaw(v) for v in x[1:]]
    return x


class Call:
    __slots__ = ('cal', 'args', 'dest', 'target', 'dty', 'name')

    def __init__(self, cal, args, dest, target, dty, name):
        self.cal = cal
        self.args = args
        self.dest = dest
        self.target = target
        self.dty = dty
        self.name = name

    @property
    def targs(self):
        return self.cal.get('rargs') or self.cal.get('args')


class Inline:
    __slots__ = ('body', 'args', 'cont')

    def __init__(self, body, args, cont=None):
        self.body = body
        self.args = args
        self.cont = cont


class CallVal:
    __slots__ = ('f', 'args')

    def __init__(self, f, args):
        self.f = f
        self.args = args
