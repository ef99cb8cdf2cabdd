"""Abstract values, the zone (difference bound) domain and abstract states.

Values are nested tuples.
  ('i', base, off)   integer: off, if base is None, else base + off
                     base = ('n', lo, hi, name)   unknown in lo..=hi
                     base = ('B', lo, hi, bits)   the number with these bits
  ('b', bits)        bit vector, lsb first; a bit is 0, 1 or ((base, off), index, negated)
  ('a', ty, variant, fields)   struct, tuple, enum, closure
  ('s', ty, name)    unknown value of a type, expanded lazily
  ('p', obj, path, meta)       pointer; meta None, ('sl', start, len) or ('dyn', ty)
  ('box', v)  ('vec', segs)    owning box; Vec, String
  ('seq', segs)                array / slice / str contents
  ('fn', ty)                   function item
  ('op', tag, ...)             opaque native value
Segments: ('S', v) one element; ('F', tmpl, lo, hi) elements tmpl[lo..hi); ('C', bytes).
"""
INF = 1 << 200
HOLE = ('hole',)

def I(n):
    return ('i', None, n)

ZERO = I(0)
ONE = I(1)
TRUE = ('i', None, 1)
FALSE = ('i', None, 0)
UNIT = ('a', None, 0, ())

def lin(base, off=0):
    return ('i', base, off)

def nbase(name, lo, hi):
    return ('n', lo, hi, name)

USZ = (1 << 64) - 1
# no Vec, slice or str has more than isize::MAX bytes
ILEN = (1 << 63) - 1

def is_const(v):
    return v[0] == 'i' and v[1] is None

def subst(t, x):
    """Replaces HOLE by the integer x everywhere in the template t."""
    if t is HOLE or t == HOLE:
        return x
    if isinstance(t, tuple):
        if t and t[0] == 'i' and len(t) == 3:
            b = t[1]
            if b == HOLE:
                return (x[0], x[1], x[2] + t[2])
            if b is None:
                return t
            nb = subst(b, x)
            return t if nb is b else ('i', nb, t[2])
        ch = False
        out = []
        for e in t:
            if isinstance(e, tuple):
                n = subst(e, x)
                if n is not e:
                    ch = True
                out.append(n)
            else:
                out.append(e)
        return tuple(out) if ch else t
    return t

def has_hole(t):
    if t == HOLE:
        return True
    if isinstance(t, tuple):
        for e in t:
            if isinstance(e, tuple) and has_hole(e):
                return True
    return False


class Infeasible(Exception):
    pass


class Fork(Exception):
    """The statement must be redone in a copy of the state for each alternative."""
    def __init__(self, alts, kind):
        self.alts = alts
        self.kind = kind


class Imprecise(Exception):
    """The analysis has no sound way on; the path is given up (never an alarm)."""


class Panic(Exception):
    def __init__(self, why):
        self.why = why


def is_dif(x):
    return x[0] == 'n' and isinstance(x[3], tuple) and x[3][:1] == ('dif',)


class Zone:
    """Difference bounds x - y <= c over integer symbols; None is zero."""
    __slots__ = ('d', 'syms', 'ne')

    def __init__(self):
        self.d = {}
        self.syms = set()
        self.ne = set()

    def copy(self):
        z = Zone()
        z.d = self.d.copy()
        z.syms = self.syms.copy()
        z.ne = self.ne.copy()
        return z

    def ub(self, x, y):
        """Least c with x - y <= c."""
        if x == y:
            return 0
        c = self.d.get((x, y), INF)
        # a difference a - b is bounded as a and b are to each other
        if y is None and is_dif(x):
            a, b = x[3][1], x[3][2]
            c = min(c, self.ub(a[1], b[1]) + a[2] - b[2])
        elif x is None and is_dif(y):
            a, b = y[3][1], y[3][2]
            c = min(c, self.ub(b[1], a[1]) + b[2] - a[2])
        # through zero with the natural range of each
        if x is not None and y is not None:
            a = min(self.d.get((x, None), INF), x[2])
            b = min(self.d.get((None, y), INF), -y[1])
            if a + b < c:
                c = a + b
        elif y is None:
            if x[2] < c:
                c = x[2]
        else:
            if -y[1] < c:
                c = -y[1]
        return c

    def add(self, x, y, c):
        """Assume x - y <= c."""
        if x == y:
            if c < 0:
                raise Infeasible()
            return
        if self.ub(x, y) <= c:
            return
        if self.ub(y, x) + c < 0:
            raise Infeasible()
        if y is None and is_dif(x):
            a, b = x[3][1], x[3][2]
            self.add(a[1], b[1], c - a[2] + b[2])
        elif x is None and is_dif(y):
            a, b = y[3][1], y[3][2]
            self.add(b[1], a[1], c - b[2] + a[2])
        for s in (x, y):
            if s is not None and s not in self.syms:
                self.syms.add(s)
        d = self.d
        d[(x, y)] = c
        nodes = list(self.syms) + [None]
        # a - x <= p, y - b <= q  ==>  a - b <= p + c + q
        into = [(a, self.ub(a, x)) for a in nodes]
        out = [(b, self.ub(y, b)) for b in nodes]
        for a, p in into:
            if p >= INF // 2:
                continue
            for b, q in out:
                if a == b or q >= INF // 2:
                    continue
                n = p + c + q
                if n < self.ub(a, b):
                    if self.ub(b, a) + n < 0:
                        raise Infeasible()
                    d[(a, b)] = n
        self._ne()

    def _ne(self):
        again = True
        while again:
            again = False
            for (x, y, c) in list(self.ne):
                u = self.ub(x, y)
                l = -self.ub(y, x)
                if c > u or c < l:
                    self.ne.discard((x, y, c))
                elif u == l:
                    raise Infeasible()
                elif u == c:
                    self.ne.discard((x, y, c))
                    self.add(x, y, c - 1)
                    again = True
                    break
                elif l == c:
                    self.ne.discard((x, y, c))
                    self.add(y, x, -(c + 1))
                    again = True
                    break

    def add_ne(self, x, y, c):
        if x == y:
            if c == 0:
                raise Infeasible()
            return
        if y is None and is_dif(x):
            a, b = x[3][1], x[3][2]
            self.add_ne(a[1], b[1], c - a[2] + b[2])
        elif x is None and is_dif(y):
            a, b = y[3][1], y[3][2]
            self.add_ne(a[1], b[1], -c - a[2] + b[2])
        self.ne.add((x, y, c))
        for s in (x, y):
            if s is not None:
                self.syms.add(s)
        self._ne()

    # comparisons of ('i', base, off)
    def le(self, a, b):
        """True, False or None for a <= b."""
        # a.base + a.off <= b.base + b.off
        c = b[2] - a[2]
        if self.ub(a[1], b[1]) <= c:
            return True
        if -self.ub(b[1], a[1]) > c:
            return False
        return None

    def eq(self, a, b):
        c = b[2] - a[2]
        x, y = a[1], b[1]
        u = self.ub(x, y)
        l = -self.ub(y, x)
        if u == l == c:
            return True
        if u < c or l > c or (x, y, c) in self.ne or (y, x, -c) in self.ne:
            return False
        return None

    def assume_le(self, a, b):
        self.add(a[1], b[1], b[2] - a[2])

    def assume_lt(self, a, b):
        self.add(a[1], b[1], b[2] - a[2] - 1)

    def assume_eq(self, a, b):
        self.assume_le(a, b)
        self.assume_le(b, a)

    def assume_ne(self, a, b):
        self.add_ne(a[1], b[1], b[2] - a[2])


class Frame:
    __slots__ = ('fid', 'body', 'blk', 'idx', 'dest', 'target', 'heads', 'cont', 'nf')

    def __init__(self, fid, body, dest, target, cont=None):
        self.fid = fid
        self.body = body
        self.blk = 0
        self.idx = 0
        self.dest = dest
        self.target = target
        self.heads = None
        self.cont = cont
        self.nf = 0

    def copy(self):
        f = Frame(self.fid, self.body, self.dest, self.target, self.cont)
        f.blk = self.blk
        f.idx = self.idx
        f.heads = self.heads
        f.nf = self.nf
        return f


class State:
    __slots__ = ('mem', 'frames', 'facts', 'zone', 'bits', 'clauses', 'preds',
                 'ghost', 'ctr', 'log', 'steps', 'forks', 'mon', 'nforks', 'ios', 'zeros')

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.facts = {}      # name -> frozenset of variant indices
        self.zone = Zone()
        self.bits = {}       # (src, index) -> 0 / 1
        self.clauses = frozenset()   # of frozensets of ((src, index), value), one of which holds
        self.preds = {}
        self.ghost = {}
        self.ctr = 0
        self.log = ()
        self.steps = 0
        self.forks = 0
        self.nforks = 0
        self.ios = 0         # calls of reader and writer so far
        self.zeros = 0       # how many of the last ones moved nothing
        self.mon = None

    def copy(self):
        s = State()
        s.mem = self.mem.copy()
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts.copy()
        s.zone = self.zone.copy()
        s.bits = self.bits.copy()
        s.clauses = self.clauses
        s.preds = self.preds.copy()
        s.ghost = self.ghost.copy()
        s.ctr = self.ctr
        s.log = self.log
        s.steps = self.steps
        s.forks = self.forks
        s.nforks = self.nforks
        s.ios = self.ios
        s.zeros = self.zeros
        s.mon = self.mon
        return s

    # ---------------------------------------------------------- integers

    def fresh(self, tag='ev'):
        self.ctr += 1
        return (tag, self.ctr)

    def norm_bits(self, bits):
        """Applies the known bits."""
        fb = self.bits
        out = []
        for b in bits:
            if isinstance(b, tuple):
                k = fb.get(b[:2])
                if k is not None:
                    b = k ^ (1 if b[2] else 0)
            out.append(b)
        return tuple(out)

    def lit(self, bit):
        """(key, value) such that bit is 1 iff key has the value."""
        return (bit[:2], 0 if bit[2] else 1)

    def assume_bit(self, bit, val):
        if not isinstance(bit, tuple):
            if bit != val:
                raise Infeasible()
            return
        key, v = self.lit(bit)
        if not val:
            v ^= 1
        self.assume_lit(key, v)

    def assume_lit(self, key, v):
        todo = [(key, v)]
        while todo:
            key, v = todo.pop()
            o = self.bits.get(key)
            if o is not None:
                if o != v:
                    raise Infeasible()
                continue
            self.bits[key] = v
            # a constant bit pins a one bit symbol
            src = key[0]
            if src[1] == 0 and src[0] is not None and src[0][1] == 0 and src[0][2] == 1:
                self.zone.assume_eq(lin(src[0]), I(v))
            cl = []
            for c in self.clauses:
                if (key, v) in c:
                    continue
                if (key, v ^ 1) in c:
                    c = c - {(key, v ^ 1)}
                    if not c:
                        raise Infeasible()
                    if len(c) == 1:
                        todo.append(next(iter(c)))
                        continue
                cl.append(c)
            self.clauses = frozenset(cl)

    def assume_clause(self, lits):
        out = set()
        for key, v in lits:
            o = self.bits.get(key)
            if o is not None:
                if o == v:
                    return
                continue
            out.add((key, v))
        if not out:
            raise Infeasible()
        if len(out) == 1:
            k, v = next(iter(out))
            self.assume_lit(k, v)
            return
        self.clauses = self.clauses | {frozenset(out)}

    def clause_known(self, lits):
        """Is a disjunction of literals known to hold (True) or to fail (False)?"""
        rest = set()
        for key, v in lits:
            o = self.bits.get(key)
            if o is None:
                rest.add((key, v))
            elif o == v:
                return True
        if not rest:
            return False
        for c in self.clauses:
            if c <= rest:
                return True
        return None
