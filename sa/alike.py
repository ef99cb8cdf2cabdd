"""Do equality, order and copies of schemas, values and kinds go by their whole content?

Client code (same/src/lib.rs) compares, orders and copies any two values of each type. The crate's own code for it (derived or
not) is run abstractly on symbolic values; comparing a part that is itself such a value is an unknown of its own, as the
function that does it is a subject too. What the function says must follow from what is known of the parts on its path."""
from core import *
from interp import Job
import natives as NV
import api, shapes, tasks, world
from world import Anchor

LIST = 'parts'
LENS = (0, 1, 2, 12)
EQ, ORD = 'core::cmp::PartialEq', ('core::cmp::PartialOrd', 'core::cmp::Ord')


def deep(j, st, v):
    for _ in range(8):
        if v is not None and v[0] == 'p' and v[3] is None:
            v = j.deref(st, v)
        elif v is not None and v[0] == 'box':
            v = v[1]
        elif v is not None and v[0] == 's' and j.types[v[1]].k == 'adt' and j.types[v[1]].box:
            v = j.proj(st, v, 'B')
        else:
            return v
    return v


def pair(a, b):
    return tuple(sorted((a, b), key=repr))


class Alike(shapes.Shape):
    def __init__(self, w, name, few):
        shapes.Shape.__init__(self, w, name)
        self.few = few

    def say(self, m):
        if m not in self.violations:
            self.violations.append(m)

    # ------------------------------------------------------------ what is known

    def kind(self, j, ty):
        t = j.types[ty]
        if t.k == 'adt' and t.path in ('alloc::string::String', 'alloc::vec::Vec'):
            return 'text' if t.path.endswith('String') else 'list'
        if t.k == 'adt' and t.box:
            return 'box'
        return t.k

    def of(self, j, v):
        return v[1] if v[0] in ('s', 'a') else None

    def subject(self, j, ty):
        t = j.types[ty] if ty is not None else None
        return t is not None and t.k == 'adt' and t.krate_own if hasattr(t, 'krate_own') else t is not None and t.k == 'adt' and \
            t.path.split('::')[0] in ('schema', 'value', 'error', 'binschema')

    def known(self, j, st, a, b, ty=None, what=''):
        """(True, False or None; what it is about)"""
        a, b = deep(j, st, a), deep(j, st, b)
        if a == b:
            t = j.types[ty] if ty is not None else None
            return True, ''
        if a is None or b is None:
            return None, what
        k = st.preds.get(('same',) + pair(a, b))
        if k is not None:
            return k, what
        if a[0] in ('i', 'b', 'd') and b[0] in ('i', 'b', 'd'):
            for n in (('float', 'eq', a, b), ('float', 'eq', b, a)):
                if n in st.preds:
                    return st.preds[n], what
            if a[0] == 'i' and b[0] == 'i':
                k = st.zone.eq(a, b)
                if k is not None:
                    return k, what
            if a[0] in ('i', 'b') and b[0] in ('i', 'b'):
                x, y = j.to_const(st, a), j.to_const(st, b)
                if x is not None and y is not None:
                    return x == y, what
                k = st.zone.eq(j.as_lin(st, a), j.as_lin(st, b))
                if k is not None:
                    return k, what
                n = max(len(v[1]) for v in (a, b) if v[0] == 'b') if 'b' in (a[0], b[0]) else None
                if n is not None:
                    x, y = st.norm_bits(j.to_bits(st, a, n, False)), st.norm_bits(j.to_bits(st, b, n, False))
                    if x == y:
                        return True, what
            return None, what
        ta, tb = self.of(j, a), self.of(j, b)
        ty = ta if ta is not None else tb
        t = j.types[ty] if ty is not None else None
        if t is None or t.k == 'adt' and t.path in ('alloc::string::String', 'alloc::vec::Vec') or a[0] in ('vec', 'seq') or b[0] in ('vec', 'seq'):
            try:
                x, y = NV.norm_segs(j, st, j.segs(st, a)), NV.norm_segs(j, st, j.segs(st, b))
            except Imprecise:
                return None, what
            if x == y:
                return True, what
            for n in ('streq', 'listeq'):
                k = st.preds.get((n,) + pair(tuple(x), tuple(y)))
                if k is not None:
                    return k, what
            k = st.zone.eq(j.segs_len(st, x), j.segs_len(st, y))
            if k is False:
                return False, what
            if k and all(s[0] == 'S' for s in x + y) and len(x) == len(y):
                return self.all(self.known(j, st, p[1], q[1], None, what) for p, q in zip(x, y))
            return None, what if t is not None and t.path.endswith('String') else LIST
        if t.k == 'float':
            for n in (('float', 'eq', a, b), ('float', 'eq', b, a)):
                if n in st.preds:
                    return st.preds[n], what
            return None, what
        if t.k == 'adt' and t.adt == 'enum':
            va, vb = j.variants(st, a), j.variants(st, b)
            if not va & vb:
                return False, what
            if len(va) > 1 or len(vb) > 1:
                # the same when they are so for some other reason
                return None, what or 'kind'
            i = next(iter(va))
            a, b = (v if v[0] == 'a' else j.expand_variant(v, i) for v in (a, b))
            fs = t.variants[i]['fields']
        elif t.k in ('adt', 'tuple'):
            a, b = (v if v[0] == 'a' else j.expand(v) for v in (a, b))
            fs = t.variants[0]['fields'] if t.k == 'adt' else None
            i = 0
        else:
            return api.Cmp(j, st).val(a, b), what
        if a[0] != 'a' or b[0] != 'a':
            return None, what
        names = [f[0] if isinstance(f[0], str) else str(n) for n, f in enumerate(fs)] if fs else [str(n) for n in range(len(a[3]))]
        names = [n if not n.isdigit() else what or 'content' for n in names]
        return self.all(self.known(j, st, x, y, None, n) for x, y, n in zip(a[3], b[3], names))

    def all(self, it):
        r, w = True, ''
        for x, what in it:
            if x is False:
                return False, what
            if x is None and r:
                r, w = None, what
        return r, w

    # ------------------------------------------------------------ what the client says

    def judge(self, j, st, said, a, b, verb):
        k, what = self.known(j, st, a, b)
        self.cases += 1
        if k is None and what == LIST and not self.few:
            # element by element: see the lists of a few lengths
            self.cases -= 1
        elif k is None and not self.certain(j, st):
            self.note('not followed: %s' % what)
        elif said and k is False:
            self.say('%s is taken for another one that differs in %s' % (verb, what))
        elif said and k is None:
            self.say('%s is taken for another one whatever the %s' % (verb, what))
        elif not said and k:
            self.say('%s is taken for different from an equal one' % verb)
        elif not said and k is None:
            self.say('%s is taken for different from one with which nothing is known to differ (%s)' % (verb, what))

    def certain(self, j, st):
        """Is everything the path looked at among what is understood?"""
        return self.blind == 0 and all(p[0] in ('same', 'streq', 'listeq', 'float', 'nocase', 'less') for p in st.preds)

    def h_any(self, j, st, c):
        v = j.sym(c.dty, st.fresh())
        if self.few:
            v = self.build(j, st, v, 0)
        return v

    def build(self, j, st, v, depth):
        """Lists of a few lengths."""
        ty = v[1] if v[0] in ('s', 'a') else None
        t = j.types[ty] if ty is not None else None
        if t is None or depth > 2:
            return v
        if t.k == 'adt' and t.path == 'alloc::vec::Vec':
            e = j.types[t.args[0]]
            if e.k in ('uint', 'int'):
                return v
            n = LENS[world.choose(j, st, ('len', v), len(LENS))]
            return ('vec', tuple(('S', j.sym(t.args[0], ('elem', v[2], i))) for i in range(n)))
        if t.k == 'adt' and (t.path.startswith('alloc::') or t.path.startswith('core::') and t.path != 'core::option::Option'):
            return v
        if t.k == 'adt' and t.adt == 'enum':
            has = [i for i, x in enumerate(t.variants) if any(self.kind(j, f[1]) == 'list' for f in x['fields'])]
            i = world.choose(j, st, ('few', v), len(has) + 1)
            if i == len(has):
                raise Infeasible()      # without lists: see the open run
            a = j.expand_variant(v, has[i])
            return a[:3] + (tuple(self.build(j, st, x, depth + 1) for x in a[3]),)
        return v

    def h_alike(self, j, st, c):
        r = c.args[0]
        n = j.to_const(st, r)
        if n is None:
            self.note('unknown result')
            return UNIT
        self.judge(j, st, n == 1, c.args[1], c.args[2], 'one')
        return UNIT

    def h_order(self, j, st, c):
        o = c.args[0]
        if j.variant(st, o) == 0:
            self.say('two are not in any order')
            return UNIT
        if o[0] == 's':
            self.note('unknown result')
            return UNIT
        o = o[3][0]
        i = j.variant(st, o)
        self.judge(j, st, i == 1, c.args[1], c.args[2], 'in order one')
        return UNIT

    def h_copied(self, j, st, c):
        self.cases += 1
        a, b = deep(j, st, c.args[0]), deep(j, st, c.args[1])
        k, what = self.known(j, st, a, b)
        if k is True:
            return UNIT
        k = api.Cmp(j, st).val(a, b)
        if k is False:
            self.say('a copy differs in %s' % (what or 'content'))
        elif k is None:
            self.note('the copy cannot be compared: %s' % what)
        return UNIT

    # ------------------------------------------------------------ parts

    def inner(self, j, st, c):
        """The two parts that are compared, if they are parts."""
        ps = c.args[:2]
        if any(p is None or p[0] != 'p' for p in ps):
            return None
        top = all(p[1][0] == 'L' and p[1][1] == 0 and not p[2] for p in ps)
        if top:
            return None
        vs = [deep(j, st, p) for p in ps]
        if not all(v is not None and self.subject(j, self.of(j, v)) for v in vs):
            return None
        # a part that was split already goes by its name
        return vs

    def h_eq(self, j, st, c):
        vs = self.inner(j, st, c)
        if vs is None:
            return NotImplemented
        if vs[0] == vs[1]:
            return TRUE
        k, _ = self.known(j, st, vs[0], vs[1])
        if k is None:
            k = j.pred(st, ('same',) + pair(*vs))
        return TRUE if k else FALSE

    def h_ne(self, j, st, c):
        r = self.h_eq(j, st, c)
        if r is NotImplemented:
            return r
        return FALSE if r == TRUE else TRUE

    def ordering(self, j, st, c, k, key):
        t = j.types[c.dty]
        opt = t.path == 'core::option::Option'
        ty = t.args[0] if opt else c.dty
        names = [x['name'] for x in j.types[ty].variants]
        n = 'Equal' if k else 'Less' if j.pred(st, ('less',) + key) else 'Greater'
        v = ('a', ty, names.index(n), ())
        return ('a', c.dty, 1, (v,)) if opt else v

    def h_cmp(self, j, st, c):
        vs = self.inner(j, st, c)
        if vs is None:
            return NotImplemented
        k, _ = self.known(j, st, vs[0], vs[1])
        if k is None:
            k = j.pred(st, ('same',) + pair(*vs))
        return self.ordering(j, st, c, k, tuple(vs))

    def h_listcmp(self, j, st, c):
        a, b = (self.list_of(j, st, p) for p in c.args[:2])
        return self.ordering(j, st, c, self.list_eq(j, st, a, b), (a, b))

    def h_listeq(self, j, st, c):
        a, b = (self.list_of(j, st, p) for p in c.args[:2])
        return TRUE if self.list_eq(j, st, a, b) else FALSE

    def h_listne(self, j, st, c):
        return FALSE if self.h_listeq(j, st, c) == TRUE else TRUE

    def list_of(self, j, st, p):
        return tuple(NV.norm_segs(j, st, NV.segs_of(j, st, p)))

    def list_eq(self, j, st, a, b):
        if a == b:
            return True
        if j.segs_len(st, a) != j.segs_len(st, b) and st.zone.eq(j.segs_len(st, a), j.segs_len(st, b)) is False:
            return False
        if all(s[0] == 'S' for s in a + b) and len(a) == len(b):
            for p, q in zip(a, b):
                k, _ = self.known(j, st, p[1], q[1])
                if k is None:
                    k = j.pred(st, ('same',) + pair(p[1], q[1]))
                if not k:
                    return False
            return True
        return j.pred(st, ('listeq',) + pair(a, b))

    def h_clone(self, j, st, c):
        p = c.args[0]
        if p is None or p[0] != 'p' or p[1][0] == 'L' and p[1][1] == 0 and not p[2]:
            return NotImplemented
        v = j.deref(st, p)
        if 'boxed::Box' in c.name:
            i = deep(j, st, v)
            return ('box', i) if self.subject(j, self.of(j, i)) else NotImplemented
        if self.subject(j, self.of(j, v)) or self.of(j, v) is not None and j.types[v[1]].k in ('uint', 'int'):
            return v
        return NotImplemented

    def job(self):
        h = world.io_hooks()
        for k in ('vec_pop', 'vec_push', 'drop'):
            h.pop(k, None)
        j = Job(self.prog, NV.N, h)
        j.world = self.w
        for n in ('any', 'alike', 'order', 'copied'):
            h[n] = getattr(self, 'h_' + n)
        h[EQ, 'eq'] = self.h_eq
        h[EQ, 'ne'] = self.h_ne
        for t, n in zip(ORD, ('partial_cmp', 'cmp')):
            h[t, n] = self.h_cmp
        h['core::clone::Clone', 'clone'] = self.h_clone
        for n in ('<alloc::vec::Vec<T, A1> as core::cmp::PartialOrd<alloc::vec::Vec<T, A2>>>::partial_cmp', '<alloc::vec::Vec<T, A> as core::cmp::Ord>::cmp',
                  '<alloc::string::String as core::cmp::PartialOrd>::partial_cmp', '<alloc::string::String as core::cmp::Ord>::cmp',
                  'core::str::traits::<impl core::cmp::Ord for str>::cmp', 'core::str::traits::<impl core::cmp::PartialOrd for str>::partial_cmp',
                  'core::slice::cmp::<impl core::cmp::Ord for [T]>::cmp', 'core::slice::cmp::<impl core::cmp::PartialOrd for [T]>::partial_cmp'):
            h[n] = self.h_listcmp
        for n in ('core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq',
                  'alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>::eq'):
            h[n] = self.h_listeq
            h[n[:-2] + 'ne'] = self.h_listne
        return j

    def go(self):
        r = self.prog.root(self.name)
        if r is None:
            raise Anchor('root ' + self.name)
        self.blind = 0
        self.run(self.name, r['body'], lambda j: [])
        for v in [v for v in self.violations if 'can panic' in v and ('alloc' in v or 'raw_vec' in v)]:
            # memory that runs out
            self.violations.remove(v)
            self.note(v)
        if not self.few and any('widen' in n for n in self.notes):
            self.blind = 1


@tasks.task
def alike(ctx, name, few):
    s = Alike(ctx['same'], name, few)
    try:
        s.go()
    except Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    p = s.prog
    fs = sorted(set(p.bodies[b].path for b in s.visited if p.bodies[b].krate == 'binschema'))
    return {'violations': [('C27', m, 'any') for m in s.violations], 'notes': s.notes, 'outcomes': s.outcomes, 'cases': s.cases,
            'subject': name, 'cls': 'lists of a few lengths' if few else '', 'functions': fs, 'steps': s.stats['steps']}


def all_tasks(ctx):
    w = ctx.get('same')
    if w is None:
        return []
    ms = sorted(set(r['path'].rpartition('::')[0] for r in w.prog.roots if '::' in r['path'] and w.prog.bodies[r['body']].argc == 0))
    out = []
    for m in ms:
        for n in shapes.roots(w.prog, m):
            out.append(('alike', n, False))
            if m.split('_')[0] in ('schema', 'value') and m in ('schema', 'value', 'schema_order') and 'clone' not in n:
                out.append(('alike', n, True))
    return out
