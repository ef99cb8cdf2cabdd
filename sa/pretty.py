"""The text of a schema: one node of it, under the assumption that the nodes in it are rendered by the same function. The lines
already there are any lines; the nodes above are any nodes whose lines are among them."""
import time
from core import *
import interp
from interp import Job
import natives as NV
import api, shapes, tasks, text, world
from world import Anchor, choose
from natives import segs_of

HEAD = ('HEAD',)
LINES = ('LINES',)


class PJob(Job):
    textgrow = True
    patience = 1
    top = None

    def proj(self, st, v, e):
        r = Job.proj(self, st, v, e)
        if self.top is not None and v is not None and v[0] == 's' and e != 'B' and e[0] == 'f' and v[1] == self.top[0]:
            i = self.top[1].get(e[2])
            if i == 'line':
                st.zone.assume_lt(r, st.ghost['L'])
            elif i == 'idx':
                st.zone.assume_le(r, I(ILEN))
        return r


def calls(p, b):
    for bl in p.bodies[b].blocks:
        t = bl['t']
        if 'call' in t:
            c = t['call'].get('callee')
            if c is not None and c.get('body') is not None:
                yield c['body']


def recursive(p, start):
    """The function of the crate that calls itself, of those that start calls."""
    seen, todo, out = set(), [start], []
    while todo:
        b = todo.pop()
        if b in seen or p.bodies[b].krate != 'binschema':
            continue
        seen.add(b)
        cs = set(calls(p, b))
        for x, k in (enumerate(p.bodies) if isinstance(p.bodies, list) else p.bodies.items()):
            if k.path.startswith(p.bodies[b].path + '::{closure'):
                cs |= set(calls(p, x)) | {x}
        if b in cs:
            out.append(b)
        todo += cs
    return out


class Pretty(shapes.Shape):
    def __init__(self, w, what):
        shapes.Shape.__init__(self, w, what)
        self.texts = {}

    def say(self, m):
        if m not in self.violations:
            self.violations.append(m)

    def ty(self, path, kind='adt'):
        for i, t in enumerate(self.prog.types):
            if t.path == path or t.s == path:
                return i
        raise Anchor('type ' + path)

    # --- the lines

    def lines(self, j, st, p):
        if p[0] != 'p':
            return None
        try:
            v = j.deref(st, p)
        except Imprecise:
            return None
        if v is not None and v[0] == 'p':
            return self.lines(j, st, v)
        return v if v is not None and v[0] == 'op' and v[1] == 'lines' else None

    def where(self, j, st, p):
        while True:
            v = j.deref(st, p)
            if v[0] != 'p':
                return p
            p = v

    def put(self, j, st, p, v):
        p = self.where(j, st, p)
        j.store(st, p[1], p[2], v)

    def h_push(self, j, st, c):
        v = self.lines(j, st, c.args[0])
        if v is None:
            return NotImplemented
        segs = tuple(j.segs(st, c.args[1]))
        head = v[3]
        if head is None:
            st.mem[HEAD] = ('vec', segs)
            head = ('p', HEAD, (), None)
        else:
            st.ghost['pend'] = st.ghost['pend'] + (segs,)
        self.put(j, st, c.args[0], ('op', 'lines', j.add_int(st, v[2], ONE, 1), head))
        return UNIT

    def h_len(self, j, st, c):
        v = self.lines(j, st, c.args[0])
        return NotImplemented if v is None else v[2]

    def h_max(self, j, st, c):
        if not j.is_int(c.dty):
            return NotImplemented
        # no need to know which
        a, b = (j.as_lin(st, x) for x in c.args)
        if st.zone.le(a, b) is not None:
            return b if st.zone.le(a, b) else a
        m = lin(nbase(('max', st.fresh()), 0, USZ))
        st.zone.assume_le(a, m)
        st.zone.assume_le(b, m)
        st.zone.assume_le(m, I(max(j.rng(st, a)[1], j.rng(st, b)[1])))
        return m

    def h_index(self, j, st, c, mut=False):
        v = self.lines(j, st, c.args[0])
        if v is None or c.args[1][0] not in ('i', 'b'):
            return NotImplemented
        i = j.as_lin(st, c.args[1])
        if not j.lt(st, i, v[2]):
            raise Panic('index out of bounds')
        return self.at(j, st, v, i, mut)

    def h_textlen(self, j, st, c):
        n = j.segs_len(st, j.segs(st, j.deref(st, self.where(j, st, c.args[0]))))
        if n[1] is not None:
            st.zone.assume_le(n, I(ILEN))
        return n

    def at(self, j, st, v, i, mut=True):
        if v[3] is not None and (j.eqi(st, i, st.ghost['L']) if mut else st.zone.eq(i, st.ghost['L'])):
            return v[3]
        o = ('LX', st.fresh())
        st.mem[o] = j.sym(self.string, ('line', o[1]))
        return ('p', o, (), None)

    def h_last(self, j, st, c):
        v = self.lines(j, st, c.args[0])
        if v is None:
            return NotImplemented
        if not j.lt(st, ZERO, v[2]):
            return ('a', c.dty, 0, ())
        return ('a', c.dty, 1, (self.at(j, st, v, j.add_int(st, v[2], ONE, -1)),))

    def h_get(self, j, st, c):
        v = self.lines(j, st, c.args[0])
        if v is None or c.args[1][0] not in ('i', 'b'):
            return NotImplemented
        i = j.as_lin(st, c.args[1])
        if not j.lt(st, i, v[2]):
            return ('a', c.dty, 0, ())
        return ('a', c.dty, 1, (self.at(j, st, v, i),))

    def h_lost(self, j, st, c):
        v = self.lines(j, st, c.args[0])
        if v is None:
            return NotImplemented
        if len(c.args) > 1 and not j.lt(st, j.as_lin(st, c.args[1]), v[2]):
            return UNIT
        self.say('lines already rendered are lost')
        raise Infeasible()

    def h_slice(self, j, st, c):
        v = self.lines(j, st, c.args[0])
        if v is None:
            return NotImplemented
        p = self.where(j, st, c.args[0])
        return ('p', p[1], p[2], ('sl', ZERO, v[2]))

    def h_join(self, j, st, c):
        p = c.args[0]
        v = self.lines(j, st, ('p', p[1], p[2], None)) if p[0] == 'p' else None
        if v is None:
            return NotImplemented
        if len(p) > 3 and p[3] is not None and not (p[3][1] == ZERO and p[3][2] == v[2]):
            self.say('not all lines are part of the text')
        b = NV.const_bytes(j, st, segs_of(j, st, c.args[1])) if c.args[1][0] == 'p' else None
        return ('op', 'joined', v[2], b)

    # --- the node

    def kids(self, j, st, me):
        """(kind, where its parts are, how many of them or None)."""
        v = j.deref(st, me)
        vs = j.variants(st, v)
        t = self.prog.types[self.schema]
        return [t.variants[i]['name'] for i in sorted(vs)]

    def vix(self, n):
        return [i for i, x in enumerate(self.prog.types[self.schema].variants) if x['name'] == n][0]

    def fix(self, ty, n):
        return [i for i, (m, _) in enumerate(self.prog.types[ty].variants[0]['fields']) if m == n][0]

    def count(self, j, st, kind):
        v = j.deref(st, self.me)
        return j.segs_len(st, j.segs(st, j.proj(st, v, ('f', self.vix(kind), 0))))

    def kid_path(self, kind, i):
        p = self.me[2] + (('f', self.vix(kind), 0),)
        if kind == 'Option':
            return p + ('B',)
        if kind == 'Seq':
            return p + (('f', 0, self.fix(self.seq, 'inner')), 'B')
        if kind == 'Tuple':
            return p + (('i', i),)
        return p + (('i', i), ('f', 0, self.fix(self.field if kind == 'Struct' else self.evar, 'inner')))

    def path_is(self, j, st, got, want):
        if len(got) != len(want):
            return False
        r = True
        for a, b in zip(got, want):
            if a == b:
                continue
            if a != 'B' and b != 'B' and a[0] == b[0] == 'i':
                e = api.Cmp(j, st).num(a[1], b[1])
                if e is False:
                    return False
                if e is None:
                    r = None
                continue
            return False
        return r

    def has(self, all, want):
        """Do the texts contain the text?"""
        for segs in all:
            for i in range(len(segs) - len(want) + 1):
                ok = True
                for q, (a, b) in enumerate(zip(want, segs[i:i + len(want)])):
                    if a[0] == b[0] == 'C':
                        ok = ok and (a[1] == b[1] or len(want) == 1 and a[1] in b[1])
                    else:
                        ok = ok and a == b
                if ok:
                    return True
        return False

    def blurred(self, all):
        """Is something of the texts, but for the indentation, not known?"""
        return any(s[0] == 'F' and s[1][1] is not None and s[1][1][3][0] == 'el' and s[1][1][3][1][0] == 'w' for segs in all for s in segs[1:])

    def lacks(self, all, m):
        if self.blurred(all):
            self.note('perhaps ' + m)
        else:
            self.say(m)

    def says(self, j, st, all, ty, v):
        """Do the texts contain a value, as one or the other trait renders it?"""
        for k in ('display', 'debug'):
            r = text.render(j, st, k, ty, v, b'')
            if r is not None and self.has(all, tuple(r)):
                return True
            if j.is_int(ty) and self.has(all, text.token(j, ('shown', k, text.canon(j, st, j.as_lin(st, v))))):
                return True
        return False

    def h_child(self, j, st, c):
        self.cases += 1
        if st.ghost.get('root'):
            return self.root_child(j, st, c)
        args = self.by_type(j, c.args)
        p = args['schema']
        while j.deref(st, p)[0] == 'p':
            p = j.deref(st, p)
        v = self.lines(j, st, args['lines'])
        if v is None:
            raise Imprecise('the lines of what is inside go elsewhere')
        ks = self.kids(j, st, self.me)
        if len(ks) != 1:
            self.say('something is rendered inside any node')
            raise Infeasible()
        kind = ks[0]
        n = st.ghost['count']
        if kind not in ('Option', 'Seq', 'Tuple', 'Struct', 'Enum') or p[0] != 'p' or p[1] != self.me[1]:
            r = None
        else:
            r = self.path_is(j, st, p[2], self.kid_path(kind, n))
        if r is False:
            self.say('the parts of %s are not rendered one by one, in order' % kind.lower())
            raise Infeasible()
        if r is None:
            self.note('which part of %s is rendered is not known' % kind.lower())
        if v[3] is None:
            self.say('%s is not rendered before its parts' % kind.lower())
        if kind in ('Struct', 'Enum') and r is not None:
            q = p[2][:-1] + (('f', 0, self.fix(self.field if kind == 'Struct' else self.evar, 'name')),)
            if not self.says(j, st, st.ghost['pend'], self.string, ('p', p[1], q, None)):
                self.lacks(st.ghost['pend'], 'the name of a part of %s is not rendered before it' % kind.lower())
        if 'parents' in args:
            self.parents(j, st, args['parents'], v[2])
        st.ghost['count'] = j.add_int(st, n, ONE, 1)
        st.ghost['pend'] = ()
        more = lin(nbase(('more', st.fresh()), 1, ILEN))
        self.put(j, st, args['lines'], ('op', 'lines', j.add_int(st, v[2], more, 1), v[3]))
        return UNIT

    def parents(self, j, st, v, n):
        for _ in range(8):
            if v[0] == 's':
                return
            if v[0] != 'a' or v[2] == 0:
                return
            u = j.deref(st, v[3][0])
            if u[0] != 'a':
                return
            line = u[3][self.line]
            if not st.zone.le(j.add_int(st, line, ONE, 1), n):
                self.note('a line above is not known to be there')
            v = u[3][self.next]

    def root_child(self, j, st, c):
        args = self.by_type(j, c.args)
        v = j.deref(st, args['lines'])
        if v[0] != 'vec' or v[1] != ():
            raise Imprecise('lines to start with')
        p = args['schema']
        if p != st.ghost['root']:
            self.say('another schema is rendered')
            raise Infeasible()
        more = lin(nbase(('more', st.fresh()), 1, ILEN))
        self.put(j, st, args['lines'], ('op', 'lines', more, None))
        st.ghost['done'] = more
        return UNIT

    def by_type(self, j, args):
        out = {}
        for (r, _), a in zip(self.roles, args):
            out[r] = a
        return out

    # --- texts

    def shape_of(self, segs):
        """The text without what depends on the node, and without indentation."""
        out = b''
        for s in segs:
            out += s[1] if s[0] == 'C' else b'\0'
        return out.strip(b' \t-*\0')

    def called(self, j, st, segs):
        v = j.deref(st, self.me)
        t = self.prog.types[self.schema]
        names = []
        for i in sorted(j.variants(st, v)):
            n = t.variants[i]['name']
            if n == 'Scalar':
                sc = j.proj(st, v, ('f', i, 0))
                names += [self.prog.types[self.scalar].variants[k]['name'] for k in sorted(j.variants(st, sc))]
            else:
                names.append(n)
        x = self.shape_of(segs)
        if not x:
            self.say('%s is rendered without its kind' % names[0].lower())
            return
        self.texts.setdefault(x, set()).update(names)

    def returned(self, j, st):
        self.cases += 1
        v = st.mem.get(LINES)
        if v is None or v[0] != 'op':
            self.note('the lines are not known')
            return
        ks = self.kids(j, st, self.me)
        if v[3] is None:
            self.say('%s is not rendered' % ks[0].lower())
            return
        head = tuple(j.segs(st, st.mem[HEAD]))
        self.called(j, st, head)
        n = st.ghost['count']
        for kind in ks:
            want = ONE if kind in ('Option', 'Seq') else self.count(j, st, kind) if kind in ('Tuple', 'Struct', 'Enum') else ZERO
            r = api.Cmp(j, st).num(n, want)
            if r is False or want == ONE and n == ZERO:
                self.say('the parts of %s are not all rendered' % kind.lower())
            elif r is None and j.unroll is not None and st.zone.le(want, n) is None:
                # an exact path, on which there can be more of them
                self.say('the parts of %s are not all rendered' % kind.lower())
            elif r is None:
                self.note('whether all parts of %s are rendered is not known' % kind.lower())
            own = (head,) + st.ghost['pend']
            x = j.deref(st, self.me)
            if kind == 'Recurse':
                if not self.says(j, st, own, self.usize, j.proj(st, x, ('f', self.vix(kind), 0))):
                    self.lacks(own, 'the level of a recurse is not rendered')
            if kind == 'Seq':
                l = j.proj(st, j.proj(st, x, ('f', self.vix('Seq'), 0)), ('f', 0, self.fix(self.seq, 'len')))
                vs = j.variants(st, l)
                if 1 in vs and not (self.says(j, st, own, self.usize, j.proj(st, l, ('f', 1, 0)))):
                    self.lacks(own, 'the length of a fixed length seq is not rendered')

    # --- running

    def make(self):
        h = world.io_hooks()
        for k in ('vec_pop', 'vec_push', 'drop'):
            h.pop(k, None)
        h.update(text.hooks())
        j = PJob(self.prog, NV.N, h)
        j.world = self.w
        h['any'] = lambda j, st, c: j.sym(c.dty, ('any', st.fresh()))
        V = 'alloc::vec::Vec::<T, A>::'
        S = 'core::slice::<impl [T]>::'
        h[V + 'push'] = self.h_push
        h[V + 'len'] = h[S + 'len'] = self.h_len
        for n in ('clear', 'truncate'):
            h[V + n] = self.h_lost
        for n in ('last_mut', 'last'):
            h[S + n] = self.h_last
        for n in ('get', 'get_mut'):
            h[S + n] = self.h_get
        h['core::ops::index::Index', 'index'] = self.h_index
        h['core::ops::index::IndexMut', 'index_mut'] = lambda j, st, c: self.h_index(j, st, c, True)
        h['alloc::string::String::len'] = self.h_textlen
        for n in ('as_slice', 'as_mut_slice'):
            h[V + n] = self.h_slice
        h['core::ops::deref::Deref', 'deref'] = self.h_slice
        h['core::ops::deref::DerefMut', 'deref_mut'] = self.h_slice
        for n in ('core::cmp::impls::<impl core::cmp::Ord for usize>::max', 'core::cmp::Ord::max', 'core::intrinsics::integer_max'):
            h[n] = self.h_max
        h['alloc::slice::<impl [T]>::join'] = self.h_join
        return j

    def setup(self):
        p = self.prog
        r = p.root('pretty')
        if r is None:
            raise Anchor('root pretty')
        top = [b for b in calls(p, r['body']) if p.bodies[b].path.endswith('pretty_fmt')]
        if len(top) != 1:
            raise Anchor('pretty_fmt')
        rec = recursive(p, top[0])
        if len(rec) != 1:
            raise Anchor('the function that renders a node')
        self.rec = p.bodies[rec[0]]
        self.recb = rec[0]
        self.schema = next(i for i, t in enumerate(p.types) if t.path == 'schema::Schema')
        f = lambda n: next(i for i, t in enumerate(p.types) if t.path == n)
        self.seq, self.field, self.evar, self.scalar = (f('schema::' + n) for n in ('SeqSchema', 'StructSchemaField', 'EnumSchemaVariant', 'ScalarType'))
        self.string = f('alloc::string::String')
        self.usize = next(i for i, t in enumerate(p.types) if t.s == 'usize')
        self.roles = []
        n = self.rec.argc
        self.top = None
        for k in range(1, n + 1):
            ty = self.rec.locals[k]
            t = p.types[ty]
            role = None
            if t.k == 'ref' and t.to == self.schema:
                role = 'schema'
            elif t.k == 'ref' and p.types[t.to].path == 'alloc::vec::Vec' and p.types[t.to].args and p.types[t.to].args[0] == self.string:
                role = 'lines'
            elif t.k == 'uint':
                role = 'indent'
            elif t.path == 'core::option::Option' and p.types[t.args[0]].k == 'ref':
                u = p.types[p.types[t.args[0]].to]
                names = [m for m, _ in u.variants[0]['fields']] if u.k == 'adt' and u.adt == 'struct' else []
                if sorted(names) == ['idx', 'line', 'next']:
                    role = 'parents'
                    self.top = (p.types[t.args[0]].to, {names.index('line'): 'line', names.index('idx'): 'idx'})
                    self.line, self.next = names.index('line'), names.index('next')
            if role is None or role in [r for r, _ in self.roles]:
                raise Anchor('the function that renders a node: ' + t.s)
            self.roles.append((role, ty))
        if not {'schema', 'lines'} <= {r for r, _ in self.roles}:
            raise Anchor('the function that renders a node')

    def node(self, kinds=None):
        j = self.make()
        j.top = self.top
        j.hooks[self.rec.path] = self.h_child
        st = State()
        L = lin(nbase(('entry', 'L'), 0, 1 << 48))
        st.ghost.update(L=L, count=ZERO, pend=())
        st.mem[LINES] = ('op', 'lines', L, None)
        self.me = ('p', ('O', ('me',), self.schema), (), None)
        if kinds is not None:
            j.set_fact(st, j.deref(st, self.me)[2], frozenset(self.vix(k) for k in kinds))
        args = []
        for r, ty in self.roles:
            if r == 'schema':
                args.append(self.me)
            elif r == 'lines':
                args.append(('p', LINES, (), None))
            elif r == 'indent':
                args.append(ZERO if self.name == 'node0' else lin(nbase(('indent',), 3, 1 << 30)))
            else:
                args.append(j.sym(ty, ('parents',)))
        self.outs(j, j.run(self.recb, args, st))
        for x, names in sorted(self.texts.items()):
            if len(names) > 1:
                self.say('%s are rendered as the same: %r' % (' and '.join(sorted(names)), x.decode('utf8', 'replace')))

    node0 = node

    def outs(self, j, l):
        for o in l:
            self.outcomes += 1
            if o[0] == 'panic':
                self.say('can panic: %s' % o[2])
            elif o[0] == 'imprecise':
                self.note(o[2])
            else:
                self.returned(j, o[1])
        self.stats['steps'] += j.stats['steps']
        self.visited |= j.visited_bodies

    def whole(self):
        j = self.make()
        j.hooks[self.rec.path] = self.h_child
        st = State()
        r = self.prog.root('pretty')
        top = [b for b in calls(self.prog, r['body']) if self.prog.bodies[b].path.endswith('pretty_fmt')][0]
        me = ('p', ('O', ('me',), self.schema), (), None)
        st.ghost['root'] = me
        for o in j.run(top, [me], st):
            self.outcomes += 1
            if o[0] == 'panic':
                self.say('can panic: %s' % o[2])
            elif o[0] == 'imprecise':
                self.note(o[2])
            else:
                self.cases += 1
                n = o[1].ghost.get('done')
                if n is None:
                    self.say('a schema is not rendered')
                elif o[2][0] != 'op' or o[2][1] != 'joined':
                    self.note('what becomes of the lines is not known')
                elif o[2][2] != n:
                    self.say('not all lines are part of the text')
                elif o[2][3] is not None and b'\n' not in o[2][3]:
                    self.note('lines are joined by %r' % o[2][3])
        self.stats['steps'] += j.stats['steps']
        self.visited |= j.visited_bodies


def confirm(ctx, s, what):
    """Follows each kind of node exactly, each loop a bounded number of times. What is only seen where loops are widened is set
    aside."""
    have = []
    kinds = [x['name'] for x in s.prog.types[s.schema].variants]
    many = ('Tuple', 'Struct', 'Enum')
    groups = [(k,) for k in many] + [('Recurse',), tuple(k for k in kinds if k not in many + ('Recurse',))]
    for n, seconds in ((2, 5), (4, 6), (70, 50)):
        for g in groups:
            left = min(seconds if g[0] in many else seconds / 4, tasks.left() - 10)
            if left < 2:
                break
            interp.UNROLL[:] = [n, time.time() + left]
            try:
                x = Pretty(s.w, what)
                x.setup()
                x.node([k for k in g if k in kinds])
            finally:
                interp.UNROLL[:] = [None, None]
            have += [v for v in x.violations if v not in have]
        if s.violations and all(v in have for v in s.violations):
            break
    for v in s.violations:
        if v not in have:
            s.note('undecided: %s (not on any path that was followed exactly)' % v)
    s.violations = have


@tasks.task
def pretty(ctx, what):
    s = Pretty(ctx['errs'], what)
    try:
        s.setup()
        getattr(s, what)()
        if what != 'whole' and (s.notes or s.violations):
            confirm(ctx, s, what)
    except Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    p = s.prog
    fs = sorted(set(p.bodies[b].path for b in s.visited if p.bodies[b].krate == 'binschema'))
    return {'violations': [('C21', m, 'any') for m in s.violations], 'notes': s.notes, 'outcomes': s.outcomes, 'cases': s.cases,
            'subject': 'pretty_fmt', 'cls': '', 'functions': fs, 'steps': s.stats['steps']}


def all_tasks(ctx):
    return [] if ctx.get('errs') is None else [('pretty', 'whole'), ('pretty', 'node0'), ('pretty', 'node')]
