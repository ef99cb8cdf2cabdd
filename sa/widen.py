"""Joins and widens two states at a loop head by anti-unification."""
from core import *


class Cant(Exception):
    pass


class AU:
    def __init__(self, job, prev, cur, W):
        self.job = job
        self.prev = prev
        self.cur = cur
        self.W = W or {}          # widening symbols introduced before at this head
        self.first = W is None
        self.changed = False
        self.map = {}             # (bp, bc, delta) -> (symbol, anchor)
        self.used = set()         # old widening symbols already reused
        self.newW = {}
        self.symval = {}          # symbol -> (prev lin, cur lin)
        self.names = {}           # (pname, cname) -> new name
        self.fact_pairs = []

    def fresh(self, lo, hi):
        self.cur.ctr += 1
        return nbase(('w', self.cur.ctr), lo, hi)

    def hasW(self, t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'w' and isinstance(t[1], int):
                return t in self.W
            for e in t:
                if isinstance(e, tuple) and self.hasW(e):
                    return True
        return False

    # integers

    def au_int(self, p, c):
        bp, bc = p[1], c[1]
        d = c[2] - p[2]
        if bp == HOLE or bc == HOLE:
            if p == c:
                return p
            raise Cant('hole')
        if bp is not None and bc is not None and p != c and is_dif(bp) and is_dif(bc):
            # the constant goes into what is subtracted
            (_, pa, pb), (_, ca, cb) = bp[3], bc[3]
            try:
                snap = self.save()
                a = self.au(pa, ca)
                b = self.au_int(('i', pb[1], pb[2] - p[2]), ('i', cb[1], cb[2] - c[2]))
                return ('i', nbase(('dif', a, b), min(bp[1], bc[1]) - (1 << 65), max(bp[2], bc[2]) + (1 << 65)), 0) \
                    if not (bp[1] <= -(1 << 65)) else ('i', nbase(('dif', a, b), bp[1], bp[2]), 0)
            except Cant:
                self.restore(snap)
        isW = bp is not None and bp[0] == 'n' and bp[3] in self.W
        if p == c and not isW:
            if bp is not None and self.hasW(bp):
                # a compound name around a widening symbol
                nb = self.au_base(bp, bc)
                return ('i', nb, p[2])
            return p
        if not isW and bp is not None and bc is not None and bp[0] == bc[0] == 'n' and bp[1:3] == bc[1:3] \
                and d == 0 and self.compound(bp[3], bc[3]):
            try:
                nb = self.au_base(bp, bc)
                return ('i', nb, p[2])
            except Cant:
                pass
        key = (bp, bc, d)
        if not self.local:
            self.shared.add(key)
        e = self.map.get(key)
        if e is None and key in self.difs:
            # counts down: what it was at first less a count that goes up
            self.changed = True
            k = self.au_int(ZERO, I(-d))
            return ('i', nbase(('dif', p, k), -(1 << 66), 1 << 66), 0)
        if e is None:
            if isW and bp not in self.used:
                self.used.add(bp)
                sym, anchor = bp, 0
                self.newW[bp[3]] = True
            else:
                self.changed = True
                lo = min(p[2] if bp is None else bp[1] + p[2], c[2] if bc is None else bc[1] + c[2])
                hi = max(p[2] if bp is None else bp[2] + p[2], c[2] if bc is None else bc[2] + c[2])
                # natural range of the machine type is not known here: be generous
                if lo >= 0:
                    lo, hi = 0, max(hi, USZ) if hi <= USZ else (1 << 128) - 1
                else:
                    lo, hi = -(1 << 127), max(hi, (1 << 127) - 1)
                sym, anchor = self.fresh(lo, hi), p[2]
                self.newW[sym[3]] = True
            e = self.map[key] = (sym, anchor)
            self.symval[sym] = (('i', bp, anchor), ('i', bc, anchor + d))
        sym, anchor = e
        return ('i', sym, p[2] - anchor)

    def compound(self, a, b):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[0] == b[0] \
            and a[0] not in ('ev', 'w') and any(isinstance(x, tuple) for x in a)

    def au_base(self, bp, bc):
        key = ('base', bp, bc)
        n = self.map.get(key)
        if n is None:
            name = self.au(bp[3], bc[3])
            n = ('n', bp[1], bp[2], name)
            self.map[key] = n
            if n not in self.symval:
                self.symval[n] = (('i', bp, 0), ('i', bc, 0))
        return n

    # everything else

    def au(self, p, c):
        if not isinstance(p, tuple) or not isinstance(c, tuple):
            if p == c:
                return p
            raise Cant('%r / %r' % (p, c))
        if p == c and not self.hasW(p):
            return p
        if p and c and p[0] == 'i' and c[0] == 'i' and len(p) == 3:
            return self.au_int(p, c)
        if p and c and p[0] in ('i', 'b') and c[0] in ('i', 'b') and all(len(x) == (3 if x[0] == 'i' else 2) for x in (p, c)) \
                and (p[0] == 'b' or c[0] == 'b'):
            return self.au_bits(p, c)
        if p and p[0] in ('vec', 'seq') and c and c[0] == p[0]:
            return (p[0], self.au_segs(p[1], c[1]))
        if p and p[0] == 's' and len(p) == 3 and c and c[0] in ('s', 'a') and p[1] == c[1]:
            return self.au_unknown(p, c)
        if p and p[0] == 'a' and len(p) == 4 and c and c[0] == 's' and p[1] == c[1]:
            return self.au_unknown(p, c)
        if p and p[0] == 'a' and len(p) == 4 and c and c[0] == 'a':
            if p[1] != c[1]:
                raise Cant('types')
            if p[2] != c[2]:
                return self.au_unknown(p, c)
            return ('a', p[1], p[2], self.au_fields(p[3], c[3]))
        if p and p[0] == 'disc' and c and c[0] == 'disc':
            return ('disc', self.au(p[1], c[1]), p[2])
        if len(p) != len(c) or (p and c and isinstance(p[0], str) and p[0] != c[0]):
            raise Cant('%s / %s' % (str(p)[:60], str(c)[:60]))
        if p and p[0] in ('ev', 'w'):
            raise Cant('names')
        return self.au_fields(p, c)

    def au_fields(self, p, c):
        if len(p) != len(c):
            raise Cant('length')
        return tuple(self.au(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else self.au_leaf(a, b)
                     for a, b in zip(p, c))

    def au_leaf(self, a, b):
        if a == b and type(a) == type(b):
            return a
        if a is None or b is None:
            # an uninitialised field: forget it
            self.changed = self.changed or a is not None
            return None
        raise Cant('%s / %s' % (str(a)[:40], str(b)[:40]))

    def au_bits(self, p, c):
        if p[0] == 'b' and len(p[1]) == 1 or c[0] == 'b' and len(c[1]) == 1:
            # bool
            if p[0] == 'b' and isinstance(p[1][0], tuple) and p[1][0][0][0][0] == 'n' and p[1][0][0][0][3] in self.W:
                self.newW[p[1][0][0][0][3]] = True
                return p
            self.changed = True
            b = self.fresh(0, 1)
            self.newW[b[3]] = True
            return ('b', (((b, 0), 0, 0),))
        if p[0] == 'b' and c[0] == 'b' and len(p[1]) == len(c[1]):
            same = True
            try:
                out = []
                for x, y in zip(p[1], c[1]):
                    if x == y and not (isinstance(x, tuple) and self.hasW(x)):
                        out.append(x)
                    elif isinstance(x, tuple) and isinstance(y, tuple) and x[1:] == y[1:]:
                        s = self.au_int(('i',) + x[0], ('i',) + y[0])
                        out.append(((s[1], s[2]), x[1], x[2]))
                    else:
                        raise Cant('bits')
                return ('b', tuple(out))
            except Cant:
                pass
        w = len(p[1]) if p[0] == 'b' else len(c[1])
        if p[0] == 'i' and p[1] is not None and p[1][0] == 'n' and p[1][3] in self.W and p[2] == 0:
            if p[1] not in self.used:
                self.used.add(p[1])
                self.newW[p[1][3]] = True
                self.symval[p[1]] = (p, self.job.as_lin(self.cur, c))
                self.map[(p[1], c, 0)] = (p[1], 0)
                return p
        pl = self.job.as_lin(self.prev, p)
        cl = self.job.as_lin(self.cur, c)
        return self.au_int(pl, cl)

    def au_unknown(self, p, c):
        """Values of an enum (or unknown values) of different variants."""
        ty = p[1]
        if ty is None:
            raise Cant('untyped')
        t = self.job.types[ty]
        if p[0] == 's' and c[0] == 's':
            if p[2] == c[2] and not self.hasW(p[2]):
                return p
            if self.compound(p[2], c[2]):
                try:
                    n = self.au(p[2], c[2])
                    self.fact_pairs.append((p, c, n))
                    return ('s', ty, n)
                except Cant:
                    pass
        if p[0] == 's' and p[2] in self.W:
            self.newW[p[2]] = True
            self.fact_pairs.append((p, c, p[2]))
            return p
        if t.k == 'adt' and t.adt != 'enum' and (p[0] == 's') != (c[0] == 's'):
            a = self.job.expand(p) if p[0] == 's' else p
            b = self.job.expand(c) if c[0] == 's' else c
            if a[0] == b[0] == 'a':
                return ('a', a[1], a[2], self.au_fields(a[3], b[3]))
        # same single variant on both sides: join the fields
        pv = self.job.variants(self.prev, p) if t.adt == 'enum' else None
        cv = self.job.variants(self.cur, c) if t.adt == 'enum' else None
        if pv is not None and pv == cv and len(pv) == 1 and (p[0] == 'a' or c[0] == 'a'):
            v = next(iter(pv))
            a = p if p[0] == 'a' else self.job.expand_variant(p, v)
            b = c if c[0] == 'a' else self.job.expand_variant(c, v)
            return ('a', ty, v, self.au_fields(a[3], b[3]))
        self.changed = True
        self.cur.ctr += 1
        n = ('w', self.cur.ctr)
        self.newW[n] = True
        self.fact_pairs.append((p, c, n))
        return ('s', ty, n)

    # sequences

    def au_segs(self, p, c):
        if not self.job.textgrow:
            return self.au_segs1(p, c)
        snap = self.save()
        try:
            return self.au_segs1(p, c)
        except Cant:
            self.restore(snap)
            return self.au_text(tuple(p), tuple(c))

    def au_text(self, p, c):
        """Texts that begin alike; what follows is unknown text."""
        out = []
        i = 0
        while i < len(p) and i < len(c) and p[i] == c[i] and not self.hasW(p[i]):
            out.append(p[i])
            i += 1
        p, c = p[i:], c[i:]
        for s in p + c:
            if s[0] != 'C' and not (s[0] == 'F' and s[1][0] == 'i' and s[1][1] is not None and s[1][1][1:3] == (0, 255)):
                raise Cant('segments')
        if p and p[0][0] == 'F' and p[0][2] == ZERO and p[0][1][1][3][0] == 'el' and p[0][1][1][3][1] in self.W:
            n = p[0][1][1][3][1]
            if len(p) > 1 or c[:1] != p[:1]:
                self.changed = self.changed or len(p) > 1
            self.newW[n] = True
            self.newW[('len', n)] = True
            return tuple(out) + (p[0],)
        if p and c and p[0][0] == c[0][0] == 'C':
            a, b = p[0][1], c[0][1]
            k = 0
            while k < len(a) and k < len(b) and a[k] == b[k]:
                k += 1
            if k:
                out.append(('C', a[:k]))
        self.changed = True
        self.cur.ctr += 1
        n = ('w', self.cur.ctr)
        self.newW[n] = True
        return tuple(out) + (('F', ('i', ('n', 0, 255, ('el', n, HOLE)), 0), ZERO, ('i', ('n', 0, ILEN, ('len', n)), 0)),)

    def au_segs1(self, p, c):
        p, c = tuple(p), tuple(c)
        p = self.norm(self.prev, p)
        c = self.norm(self.cur, c)
        if len(p) == len(c):
            snap = self.save()
            try:
                return tuple(self.au_seg(a, b) for a, b in zip(p, c))
            except Cant:
                self.restore(snap)
                raise
        if len(c) == len(p) + 1 and len(p) >= 1 and p[-1][0] == 'S' and c[-1][0] == 'S' and c[-2][0] == 'S':
            head = tuple(self.au_seg(a, b) for a, b in zip(p[:-1], c[:-2]))
            t = Tmpl()
            tm = t.go(c[-2][1], c[-1][1])
            lo = t.lo if t.lo is not None else ZERO
            hi = self.au_int(('i', lo[1], lo[2] + 1), ('i', lo[1], lo[2] + 2))
            self.changed = True
            return head + (('F', tm, lo, hi),)
        if len(c) == len(p) + 1 and self.first and len(p) >= 0 and c[-1][0] == 'S':
            # one element pushed and none before: a family with a constant template needs two; wait
            raise Cant('one more element')
        # a family that is empty on one side
        if len(p) == len(c) + 1 or len(c) == len(p) + 1:
            long, short = (p, c) if len(p) > len(c) else (c, p)
            for i, s in enumerate(long):
                if s[0] != 'F':
                    continue
                filled = short[:i] + (('F', s[1], s[2], s[2]),) + short[i:]
                a, b = (long, filled) if len(p) > len(c) else (filled, long)
                snap = self.save()
                try:
                    return tuple(self.au_seg(x, y) for x, y in zip(a, b))
                except Cant:
                    self.restore(snap)
        raise Cant('segments')

    def norm(self, st, segs):
        out = []
        for s in segs:
            if s[0] == 'F' and s[2] == s[3]:
                continue
            if s[0] == 'C' and not s[1]:
                continue
            if s[0] == 'S' and out and out[-1][0] == 'F' and subst(out[-1][1], out[-1][3]) == s[1]:
                l = out[-1]
                out[-1] = ('F', l[1], l[2], ('i', l[3][1], l[3][2] + 1))
                continue
            if s[0] == 'F' and out and out[-1][0] == 'F' and out[-1][1] == s[1] and out[-1][3] == s[2]:
                l = out[-1]
                out[-1] = ('F', l[1], l[2], s[3])
                continue
            out.append(s)
        return tuple(out)

    def save(self):
        return (self.changed, dict(self.map), set(self.used), dict(self.newW), dict(self.symval), list(self.fact_pairs))

    def restore(self, s):
        self.changed, self.map, self.used, self.newW, self.symval, self.fact_pairs = s

    def au_seg(self, a, b):
        if a[0] != b[0]:
            raise Cant('segment kinds')
        if a[0] == 'C':
            if a[1] != b[1]:
                raise Cant('bytes')
            return a
        if a[0] == 'S':
            return ('S', self.au(a[1], b[1]))
        t = a[1] if a[1] == b[1] and not self.hasW(a[1]) else self.au(a[1], b[1])
        return ('F', t, self.au_int(a[2], b[2]), self.au_int(a[3], b[3]))


class Tmpl:
    """The template of which two successive elements are instances."""
    def __init__(self):
        self.lo = None

    def go(self, p, c):
        if p == c:
            return p
        if not isinstance(p, tuple) or not isinstance(c, tuple):
            raise Cant('template leaf')
        if p and c and p[0] == 'i' and c[0] == 'i' and len(p) == 3 and len(c) == 3:
            if p[1] == c[1] and c[2] - p[2] == 1:
                if self.lo is None:
                    self.lo = p
                if self.lo[1] != p[1]:
                    raise Cant('two indices')
                return ('i', HOLE, p[2] - self.lo[2])
            if p[1] is not None and c[1] is not None and p[2] == c[2] and p[1][:3] == c[1][:3]:
                return ('i', self.go(p[1], c[1]), p[2])
            raise Cant('template integer')
        if len(p) != len(c) or (p and isinstance(p[0], str) and p[0] != c[0]) or (p and p[0] in ('ev', 'w')):
            raise Cant('template')
        return tuple(self.go(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else self.leaf(a, b) for a, b in zip(p, c))

    def leaf(self, a, b):
        if a == b:
            return a
        raise Cant('template leaf')


def widen(job, prev, cur, W):
    """The least upper bound of the template of prev and cur; (state, changed, symbols)."""
    au, r = _widen(job, prev, cur, W, frozenset())
    ups = {k[2] for k in au.map if len(k) == 3 and isinstance(k[2], int) and k[2] > 0}
    difs = frozenset(k for k in au.map if len(k) == 3 and isinstance(k[2], int) and -k[2] in ups and k[0] is not None
                     and k[0] == k[1] and not is_dif(k[0]) and not au.hasW(k[0]) and k not in au.shared)
    if difs:
        # counts down while something else counts up by as much
        au, r = _widen(job, prev, cur, W, difs)
    return r


def _widen(job, prev, cur, W, difs):
    from interp import Imprecise
    cur = cur.copy()
    au = AU(job, prev, cur, W)
    au.difs = difs
    au.local = True
    au.shared = set()
    try:
        g = cur.copy()
        mem = {}
        for k, pv in prev.mem.items():
            au.local = k[0] != 'O'
            cv = cur.mem.get(k)
            if cv is None:
                if k[0] == 'O':
                    cv = job.load_obj(cur, k)
                else:
                    continue
            if pv == cv and not au.hasW(pv):
                mem[k] = pv
            else:
                try:
                    mem[k] = au.au(pv, cv)
                except Cant as e:
                    raise Cant('%s (at %s)' % (e, str(k)[:100]))
        au.local = False
        for k in cur.mem:
            if k not in prev.mem and k[0] == 'O':
                pv = job.load_obj(prev, k)
                mem[k] = au.au(pv, cur.mem[k])
        gh = {}
        for k in prev.ghost:
            if k in cur.ghost:
                pv, cv = prev.ghost[k], cur.ghost[k]
                if pv == cv and not (isinstance(pv, tuple) and au.hasW(pv)):
                    gh[k] = pv
                else:
                    gh[k] = au.au(pv, cv) if isinstance(pv, tuple) and isinstance(cv, tuple) else au.au_leaf(pv, cv)
        # segments: those of ghost sequences are plain tuples tagged ('seq', ...)
    except Cant as e:
        raise Imprecise('cannot widen: ' + str(e))
    g.mem = mem
    g.ghost = gh
    changed = au.changed
    # facts
    facts = {}
    for n, v in prev.facts.items():
        if n in cur.facts and not au.hasW(n):
            u = v | cur.facts[n]
            facts[n] = u
            if u != v:
                changed = True
        elif not au.hasW(n):
            t = None
            changed = changed or True if False else changed
    for p, c, n in au.fact_pairs:
        if job.types[p[1]].k == 'adt' and job.types[p[1]].adt == 'enum':
            u = job.variants(prev, p) | job.variants(cur, c)
            if n in facts:
                u = u | facts[n]
            facts[n] = u
            if n in prev.facts and prev.facts[n] != u:
                changed = True
    reach = set()
    for v in list(g.mem.values()) + list(g.ghost.values()):
        _collect(v, reach)
    def dead(n):
        return any(e not in reach for e in _evs(n))
    for n, v in prev.facts.items():
        if n not in facts and not dead(n):
            changed = True
    g.facts = facts
    g.bits = {k: v for k, v in prev.bits.items() if cur.bits.get(k) == v and not au.hasW(k)}
    g.clauses = frozenset(c for c in prev.clauses if c in cur.clauses)
    g.preds = {k: v for k, v in prev.preds.items() if cur.preds.get(k, None) == v and not au.hasW(k)}
    for a, b in ((g.bits, prev.bits), (g.preds, prev.preds)):
        for k in b:
            if k not in a and not dead(k):
                changed = True
    # zone
    syms = set()
    for s in prev.zone.syms | cur.zone.syms:
        if s not in au.symval and not au.hasW(s):
            syms.add(s)
    val = {}
    for s in syms:
        val[s] = (('i', s, 0), ('i', s, 0))
    for s, (pl, cl) in au.symval.items():
        val[s] = (pl, cl)
    val[None] = (ZERO, ZERO)
    z = Zone()
    keys = list(val)
    widening = W is not None
    for x in keys:
        for y in keys:
            if x is y or x == y:
                continue
            px, cx = val[x]
            py, cy = val[y]
            a = prev.zone.ub(px[1], py[1]) + px[2] - py[2] if px[1] != py[1] else px[2] - py[2]
            b = cur.zone.ub(cx[1], cy[1]) + cx[2] - cy[2] if cx[1] != cy[1] else cx[2] - cy[2]
            nat = z.ub(x, y)
            if b > a:
                if nat <= a:
                    continue
                if widening and _old(x, W) and _old(y, W):
                    # both known at the previous visit: not stable, drop
                    changed = True
                    continue
                changed = changed or (_old(x, W) and _old(y, W) and a < nat)
                a = b
            if a < nat and a < INF // 2:
                z.d[(x, y)] = a
                if x is not None:
                    z.syms.add(x)
                if y is not None:
                    z.syms.add(y)
    z.ne = {e for e in prev.zone.ne if e in cur.zone.ne and not au.hasW(e)}
    g.zone = z
    g.ctr = max(prev.ctr, cur.ctr)
    newW = dict(W or {})
    newW.update(au.newW)
    return au, (g, changed, newW)


def _old(s, W):
    """Did the symbol exist, meaning the same, at the previous visit?"""
    return True if s is None else not (s[0] == 'n' and isinstance(s[3], tuple) and s[3][:1] == ('w',) and (W is None or s[3] not in W))


def _evs(n):
    if isinstance(n, tuple):
        if len(n) == 2 and n[0] in ('ev', 'w') and isinstance(n[1], int):
            yield n
        else:
            for e in n:
                if isinstance(e, tuple):
                    yield from _evs(e)


def _collect(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('ev', 'w') and isinstance(t[1], int):
            out.add(t)
        else:
            for e in t:
                if isinstance(e, tuple):
                    _collect(e, out)
