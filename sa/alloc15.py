"""Ownership of the buffer that a coder state and its reusable allocation hand to
each other.

Every buffer is a token. Whoever holds it owns it: a Vec, a reusable allocation, or,
for what is behind a reference, someone outside. Dropping an owner frees the token,
forgetting it does not. At the end of every function each token has at most one owner,
or has been freed once and has none."""
from tasks import task
from core import *
import natives as NV
import world as WD
from world import Anchor
from stack import Graph

ALLOC = 'coder::coder_alloc::CoderStateAlloc'
FRAME = 'coder::coder::StackFrame'


def tokens(v):
    """Owned tokens within a value."""
    out = []

    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == 'p':
                return
            if len(t) == 3 and t[0] == 'vec' and isinstance(t[2], tuple) and t[2][:1] == ('buf',):
                out.append(t[2])
                return
            if len(t) == 3 and t[0] == 'op' and t[1] == 'buf':
                out.append(t[2])
                return
            for e in t:
                go(e)
    go(v)
    return out


def subjects(w):
    """Functions that take or return a buffer of frames."""
    p = w.prog
    T = p.types

    def has(i, depth=0):
        t = T[i]
        if t.path in (ALLOC, 'coder::coder::CoderState'):
            return True
        if t.path == 'alloc::vec::Vec' and t.args and T[t.args[0]].path == FRAME:
            return True
        return False

    def own(i):
        t = T[i]
        return has(i) or (t.to is not None and has(t.to))
    out = []
    for r in p.roots:
        b = p.bodies[r['body']]
        tys = [b.locals[0]] + [b.locals[k] for k in range(1, b.argc + 1)]
        s = r.get('self')
        if any(has(t) for t in tys) or (s is not None and T[s].path == ALLOC and not r.get('derived')):
            if any(own(t) for t in tys):
                out.append(r)
    # a helper that others are to make up for is analysed as part of them
    g = Graph(p)
    called = {k: g.calls(r['body']) for k, r in enumerate(out)}
    return [r for k, r in enumerate(out) if not ((r.get('private') or r.get('unsafe')) and any(
        r['body'] in c and i != k for i, c in called.items()))]


class Own:
    def __init__(self, w, root):
        self.w = w
        self.root = root
        self.viol = []
        self.notes = {}
        self.outcomes = 0
        self.results = []
        self.visited = set()
        self.given = None
        self.composed = 0

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def bad(self, m):
        if m not in self.viol:
            self.viol.append(m)

    def arg(self, j, st, ty, name):
        T = self.w.T
        t = T[ty]
        if t.path == 'alloc::vec::Vec' and t.args and T[t.args[0]].path == FRAME:
            tok = ('buf', name)
            self.capof[tok] = lin(nbase(('cap', tok), 0, ILEN))
            n = lin(nbase(('frames', name), 0, 1 << 50))
            st.zone.assume_le(n, self.capof[tok])
            return ('vec', (('F', ('s', t.args[0], ('stk' + name, HOLE)), ZERO, n),), tok)
        if t.path == ALLOC and self.given is not None:
            return self.given
        if t.path == ALLOC:
            tok = ('buf', name)
            fs = []
            np = nc = 0
            for f in t.variants[0]['fields']:
                ft = T[f[1]]
                if ft.k in ('ptr', 'rawptr') or ft.path in ('core::ptr::non_null::NonNull',):
                    fs.append(('op', 'buf', tok))
                    np += 1
                elif ft.k == 'uint':
                    self.capof[tok] = lin(nbase(('cap', tok), 0, ILEN))
                    fs.append(self.capof[tok])
                    nc += 1
                elif ft.path == 'core::marker::PhantomData':
                    fs.append(j.zst(f[1]))
                else:
                    fs.append(self.arg(j, st, f[1], name) if ft.path == 'alloc::vec::Vec' else j.sym(f[1], (name, f[0])))
            if np > 1 or nc > 1:
                raise Anchor('layout of the reusable allocation')
            return ('a', ty, 0, tuple(fs))
        if t.path == 'coder::coder::CoderState':
            fs = []
            for f in t.variants[0]['fields']:
                if T[f[1]].path == 'alloc::vec::Vec':
                    fs.append(self.arg(j, st, f[1], name))
                else:
                    fs.append(j.sym(f[1], (name, f[0])))
            return ('a', ty, 0, tuple(fs))
        if t.k == 'ref' and T[t.to].path in (ALLOC, 'coder::coder::CoderState'):
            o = ('O', name, t.to)
            v = self.arg(j, st, t.to, name)
            st.mem[o] = v
            self.outside += tokens(v)
            return ('p', o, (), None)
        return j.sym(ty, ('arg', name))

    def takes(self):
        """How many reusable allocations the function is given."""
        T = self.w.T
        b = self.w.prog.bodies[self.root['body']]
        n = 0
        for i in range(1, b.argc + 1):
            t = T[b.locals[i]]
            if t.path == ALLOC or (t.to is not None and T[t.to].path == ALLOC):
                n += 1
        return n

    def made(self):
        """The reusable allocations that the functions without one make, each with the state
        it is made in: these are what all others are given."""
        out = []
        for r in subjects(self.w):
            o = Own(self.w, r)
            b = self.w.prog.bodies[r['body']]
            if self.w.T[b.locals[0]].path != ALLOC or o.takes():
                continue
            o.go(False)
            if o.notes:
                return None
            for s, v in o.results:
                if v[0] != 'a' or len(set(tokens(v))) != 1:
                    return None
                if not any(x[2] == v and x[1].zone.d == s.zone.d for x in out):
                    out.append((o, s, v))
        return out or None

    def go(self, compose=True):
        if compose and self.takes() == 1:
            made = self.made()
            if made is not None:
                self.composed = len(made)
                for o, s, v in made:
                    self.start(s.copy(), v, o.capof)
                return
        self.start(State(), None, {})

    def start(self, st, given, capof):
        w = self.w
        p = w.prog
        j = WD.new_job(w)
        self.j = j
        self.given = given
        self.capof = dict(capof)
        self.outside = []
        self.install(j)
        for k in list(st.ghost):
            if k == 'c15' or isinstance(k, tuple) and k[0] == 'freed':
                del st.ghost[k]
        for o in list(st.mem):
            if o[0] == 'O':
                del st.mem[o]
        b = p.bodies[self.root['body']]
        args = [self.arg(j, st, b.locals[i], 'arg%d' % i) for i in range(1, b.argc + 1)]
        self.isdrop = self.root.get('trait') == 'core::ops::drop::Drop' or self.root['path'].endswith('core::ops::drop::Drop>::drop')
        for kind, s, v in j.run(self.root['body'], args, st):
            self.outcomes += 1
            if kind == 'imprecise':
                self.note(v)
                continue
            if kind == 'panic':
                self.note('panics: ' + v)
                continue
            self.check(s, v, b)
            self.results.append((s, v))
        self.visited |= set(j.visited_bodies)

    def free(self, st, tok, how):
        n = st.ghost.get(('freed', tok), 0)
        st.ghost[('freed', tok)] = n + 1

    def check(self, st, v, b):
        for m in st.ghost.get('c15', ()):
            self.bad(m)
        got = tokens(v)
        for o in list(st.mem):
            if o[0] == 'O' and isinstance(o[1], str) and o[1].startswith('arg'):
                got += tokens(st.mem[o])
        if self.isdrop:
            # the storage behind self goes away with it
            got = [t for t in got if t not in self.outside]
        seen = set(got) | set(k[1] for k in st.ghost if isinstance(k, tuple) and k[0] == 'freed')
        for t in sorted(seen, key=str):
            own = got.count(t)
            fr = st.ghost.get(('freed', t), 0)
            if fr > 1:
                self.bad('frees the same buffer twice')
            elif own > 1:
                self.bad('ends with two owners of the same buffer')
            elif own and fr:
                self.bad('ends with an owner of a buffer that has been freed')

    def problem(self, st, m):
        st.ghost['c15'] = tuple(sorted(set(st.ghost.get('c15', ()) + (m,))))

    def install(self, j):
        T = self.w.T
        own = self
        h = j.hooks

        def vec_of(j, st, p):
            v = j.deref(st, p) if p[0] == 'p' else p
            while v[0] == 'p':
                v = j.deref(st, v)
            return v

        def raw(j, st, c):
            ptr, n, cap = c.args[:3]
            et = [T[x] for x in (c.cal.get('args') or []) if isinstance(x, int)]
            if ptr[0] != 'op' or ptr[1] != 'buf':
                raise Imprecise('raw parts of an unknown buffer')
            tok = ptr[2]
            if et and et[0].path != FRAME:
                if et[0].k in ('uint', 'int', 'bool', 'tuple', 'char', 'float'):
                    own.problem(st, 'rebuilds the buffer with elements of another type (%s)' % et[0].s)
                else:
                    raise Imprecise('buffer of ' + et[0].s)
            if j.to_const(st, n) != 0:
                if not st.zone.le(j.as_lin(st, n), ZERO):
                    own.problem(st, 'rebuilds the buffer with elements of an earlier coding session in it')
            cp = own.capof.get(tok)
            if cp is not None and cp != cap:
                e = st.zone.eq(cp, cap) if cap[0] == 'i' else None
                if e is not True:
                    own.problem(st, 'rebuilds the buffer with another capacity than it has')
            return ('vec', (), tok)
        for n in ('alloc::vec::Vec::<T>::from_raw_parts', 'alloc::vec::Vec::<T, A>::from_raw_parts_in'):
            h[n] = raw

        def as_ptr(j, st, c):
            v = vec_of(j, st, c.args[0])
            if v[0] != 'vec':
                return NotImplemented
            tok = own.token(j, st, c.args[0], v)
            return ('op', 'buf', tok) if tok else NotImplemented
        for n in ('as_mut_ptr', 'as_ptr'):
            h['alloc::vec::Vec::<T, A>::' + n] = as_ptr

        def cap(j, st, c):
            v = vec_of(j, st, c.args[0])
            if v[0] != 'vec':
                return NotImplemented
            tok = own.token(j, st, c.args[0], v)
            if tok is None:
                return NotImplemented
            return own.capof[tok]
        h['alloc::vec::Vec::<T, A>::capacity'] = cap

        def clear(j, st, c):
            v = vec_of(j, st, c.args[0])
            p = c.args[0]
            while j.deref(st, p)[0] == 'p':
                p = j.deref(st, p)
            if len(v) == 3:
                j.store(st, p[1], p[2], ('vec', (), v[2]))
                return UNIT
            return NotImplemented
        h['alloc::vec::Vec::<T, A>::clear'] = clear

        def trunc(j, st, c):
            if j.to_const(st, c.args[1]) == 0:
                return clear(j, st, c)
            raise Imprecise('length of the buffer')
        h['alloc::vec::Vec::<T, A>::truncate'] = trunc
        h['alloc::vec::Vec::<T, A>::set_len'] = trunc

        def realloc(j, st, c):
            v = vec_of(j, st, c.args[0])
            if len(v) == 3:
                own.free(st, v[2], 'realloc')
                p = c.args[0]
                while j.deref(st, p)[0] == 'p':
                    p = j.deref(st, p)
                j.store(st, p[1], p[2], ('vec', v[1]))
            return NotImplemented
        for n in ('push', 'reserve', 'shrink_to_fit', 'insert', 'append', 'reserve_exact', 'resize', 'extend_from_slice', 'shrink_to'):
            h['alloc::vec::Vec::<T, A>::' + n] = realloc

        def dropped(j, st, ty, v):
            t = T[ty]
            if v is None:
                return
            if t.path in (ALLOC, 'coder::coder::CoderState') or (t.path == 'alloc::vec::Vec' and T[t.args[0]].path == FRAME):
                for tok in tokens(v):
                    own.free(st, tok, 'drop')
        h['drop'] = dropped

        def mdrop(j, st, c):
            t = [x for x in (c.cal.get('args') or []) if isinstance(x, int)]
            if t:
                dropped(j, st, t[0], c.args[0])
            return UNIT
        h['core::mem::drop'] = mdrop

        def pdrop(j, st, c):
            p = c.args[0]
            if p[0] == 'p':
                t = [x for x in (c.cal.get('args') or []) if isinstance(x, int)]
                dropped(j, st, t[0], j.deref(st, p))
                return UNIT
            return NotImplemented
        h['core::ptr::drop_in_place'] = pdrop

        def pread(j, st, c):
            p = c.args[0]
            if p[0] == 'p':
                return j.deref(st, p)
            return NotImplemented
        h['core::ptr::read'] = pread

    def token(self, j, st, p, v):
        if len(v) == 3:
            return v[2]
        # a vec that has had no name so far
        while j.deref(st, p)[0] == 'p':
            p = j.deref(st, p)
        k = st.ghost.get('ntok', 0)
        st.ghost['ntok'] = k + 1
        tok = ('buf', 'new%d' % k)
        self.capof[tok] = lin(nbase(('cap', tok), 0, ILEN))
        j.store(st, p[1], p[2], ('vec', v[1], tok))
        return tok


@task
def own(ctx, path):
    w = ctx['w']
    r = w.prog.root(path)
    o = Own(w, r)
    try:
        o.go()
    except Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    p = w.prog
    return {'violations': [('C15', m, 'any') for m in o.viol], 'notes': o.notes, 'outcomes': o.outcomes, 'cases': o.outcomes,
            'subject': path, 'cls': 'ownership',
            'functions': sorted(set(p.bodies[b].path for b in o.visited if p.bodies[b].krate == 'binschema')), 'steps': 0}
