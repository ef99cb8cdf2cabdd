"""Does the schema of a type match how serde codes the type?

The schema function of each type in the witness crates is evaluated abstractly to the schema it builds. Then the type's
real `Serialize` and `Deserialize` code is run abstractly over every value, by a format (walk.rs in the witness crate)
whose every call has to go with the place of the schema it is made at. A value inside is an obligation of its own: its
type has to go with the schema at its place, once per type and place, so types that contain themselves come to an end."""
import json, os, re
from core import *
from interp import Job
import natives as NV
import tasks
import world
from api import Cmp, explore
from world import choose, Anchor

OPAQUE = re.compile(r'^<?(&mut |&)?(std|alloc|hashbrown)::(collections|hash|map|set)::')
WALK = 'walk::'
SUBJECTS = ('schema::Schema', 'schema::ScalarType', 'schema::SeqSchema', 'schema::StructSchemaField',
            'schema::EnumSchemaVariant')
EXPECTED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'forms', 'expected.json')


class Bad(Exception):
    pass


def schema_tree(j, st, v):
    """A schema value as a tree; raises Imprecise if it isn't known."""
    t = j.types[v[1]] if v[0] in ('a', 's') else None
    if v[0] == 'box':
        return schema_tree(j, st, v[1])
    if v[0] == 'p':
        return schema_tree(j, st, j.deref(st, v))
    if v[0] == 's' and v[2][0] == 'mark':
        return ('mark', v[2][1])
    if v[0] == 's' and 'mark' in str(v[2]):
        return ('mark', 'part of another')
    if v[0] != 'a' or not t.path.endswith('Schema') and not t.path.endswith('ScalarType'):
        raise Imprecise('schema is not known: %s' % str(v)[:80])
    name = t.variants[v[2]]['name']
    fs = v[3]
    if name == 'Scalar':
        s = fs[0]
        if s[0] != 'a':
            raise Imprecise('scalar is not known')
        return ('leaf', j.types[s[1]].variants[s[2]]['name'])
    if name in ('Str', 'Bytes', 'Unit'):
        return ('leaf', name)
    if name == 'Option':
        return ('option', schema_tree(j, st, fs[0]))
    if name == 'Seq':
        s = fs[0]
        f = struct(j, s)
        n = f['len']
        if n[0] != 'a':
            raise Imprecise('seq length is not known')
        return ('seq', num(n[3][0]) if n[3] else None, schema_tree(j, st, f['inner']))
    if name == 'Tuple':
        return ('tuple', tuple(schema_tree(j, st, x) for x in items(j, st, fs[0])))
    if name in ('Struct', 'Enum'):
        out = []
        for x in items(j, st, fs[0]):
            f = struct(j, x)
            out.append((text(j, st, f['name']), schema_tree(j, st, f['inner'])))
        return (name.lower(), tuple(out))
    if name == 'Recurse':
        return ('recurse', num(fs[0]))
    raise Imprecise('schema ' + name)


def num(v):
    if not is_const(v):
        raise Imprecise('number is not known')
    return v[2]


def struct(j, v):
    if v[0] != 'a':
        raise Imprecise('struct is not known')
    return {f[0]: x for f, x in zip(j.types[v[1]].variants[v[2]]['fields'], v[3])}


def items(j, st, v):
    out = []
    for s in j.segs(st, v):
        if s[0] == 'S':
            out.append(s[1])
        elif s[0] == 'F' and is_const(s[2]) and is_const(s[3]):
            from core import subst_hole
            out += [subst_hole(s[1], I(k)) for k in range(s[2][2], s[3][2])]
        else:
            raise Imprecise('parts are not known')
    return out


def text(j, st, v):
    b = b''
    for s in j.segs(st, j.deref(st, v) if v[0] == 'p' else v):
        if s[0] == 'C':
            b += s[1]
        elif s[0] == 'S' and is_const(s[1]):
            b += bytes([s[1][2]])
        else:
            raise Imprecise('name is not known')
    return b.decode('utf8', 'replace')


def show(t):
    k = t[0]
    if k == 'leaf':
        return t[1].lower()
    if k == 'option':
        return 'option(%s)' % show(t[1])
    if k == 'seq':
        return 'seq(%s)(%s)' % ('varlen' if t[1] is None else t[1], show(t[2]))
    if k == 'tuple':
        return 'tuple{%s}' % ', '.join(show(x) for x in t[1])
    if k == 'mark':
        return 'schema %s' % t[1]
    if k in ('struct', 'enum'):
        return '%s{%s}' % (k, ', '.join('%s: %s' % (n, show(x)) for n, x in t[1]))
    return 'recurse(%s)' % t[1]


class Shape:
    """One root of a witness crate."""
    def __init__(self, w, name):
        self.w = w
        self.prog = w.prog
        self.name = name
        self.violations = []
        self.notes = {}
        self.outcomes = 0
        self.cases = 0
        self.stats = {'steps': 0}
        self.visited = set()
        self.tree = None
        self.todo = []
        self.seen = set()
        self.kept = False
        self.top = None
        self.maps = {}

    def note(self, n):
        self.notes[n] = self.notes.get(n, 0) + 1

    def bad(self, what):
        if what not in self.violations:
            self.violations.append(what)
        raise Infeasible()

    # ------------------------------------------------------------ the schema

    def kids(self, t):
        k = t[0]
        if k == 'option':
            return (t[1],)
        if k == 'seq':
            return (t[2],)
        if k == 'tuple':
            return t[1]
        if k in ('struct', 'enum'):
            return tuple(x for _, x in t[1])
        return ()

    def at(self, path):
        t = self.tree
        for i in path:
            t = self.kids(t)[i]
        return t

    def place(self, path):
        """Goes back up where the schema recurses."""
        for _ in range(3):
            t = self.at(path)
            if t[0] != 'recurse':
                return path
            if not 1 <= t[1] <= len(path):
                self.bad('the schema has a recurse of level %s %d levels down' % (t[1], len(path)))
            path = path[:len(path) - t[1]]
        self.bad('the schema recurses to a recurse')

    def desc(self, path):
        out = []
        t = self.tree
        for i in path:
            if t[0] in ('struct', 'enum'):
                out.append(t[1][i][0])
            else:
                out.append('%s %d' % (t[0], i) if t[0] == 'tuple' else t[0])
            t = self.kids(t)[i]
        return '/'.join(out) or 'the root'

    # ------------------------------------------------------------ hooks

    def path_of(self, v):
        if v[0] == 'op' and v[1] == 'walk':
            return v[2]
        raise Imprecise('place')

    def walk(self, path):
        return ('op', 'walk', self.place(path))

    def h_leaf(self, j, st, c):
        p = self.path_of(c.args[0])
        n = text(j, st, c.args[1])
        t = self.at(p)
        self.cases += 1
        if t != ('leaf', n):
            self.bad('at %s serde has %s, the schema %s' % (self.desc(p), n.lower(), show(t)[:60]))
        return UNIT

    def opt(self, v):
        if v[0] != 'a':
            raise Imprecise('length')
        return v[3][0] if v[3] else None

    def h_open(self, j, st, c):
        p = self.path_of(c.args[0])
        kind = text(j, st, c.args[1])
        n = self.opt(c.args[2])
        t = self.at(p)
        self.cases += 1
        if kind in ('seq', 'tuple'):
            # what the glue takes for either
            if t[0] == 'seq' and kind == 'seq' and (t[1] is None or n is None and self.reading):
                return I(0)
            if t == ('tuple', ()):
                self.bad('at %s the schema has an empty tuple, not unit' % self.desc(p))
            if t[0] == 'seq' and t[1] is None:
                self.bad('at %s serde has %d parts, the schema any number' % (self.desc(p), num(n)))
            if t[0] == 'seq' or t[0] == 'tuple' or t == ('leaf', 'Unit'):
                have = t[1] if t[0] == 'seq' else len(t[1]) if t[0] == 'tuple' else 0
                if n is None:
                    self.bad('at %s serde has a seq of any length, the schema %s' % (self.desc(p), show(t)[:60]))
                if num(n) != have:
                    self.bad('at %s serde has %d parts, the schema %s' % (self.desc(p), num(n), show(t)[:60]))
                return I(have)
        elif kind == 'map':
            if t[0] == 'seq' and t[1] is None:
                e = self.at(self.place(p + (0,)))
                if e[0] == 'tuple' and len(e[1]) == 2:
                    return I(0)
        elif kind == t[0]:
            k = len(self.kids(t))
            if n is not None and num(n) != k:
                self.bad('at %s serde has %d variants, the schema %s' % (self.desc(p), num(n), show(t)[:60]))
            return I(k)
        self.bad('at %s serde has a %s, the schema %s' % (self.desc(p), kind, show(t)[:60]))

    def h_part(self, j, st, c):
        v = c.args[0]
        if v[0] == 'op' and v[1] == 'chosen':
            return self.walk(v[2])
        p = self.path_of(v)
        t = self.at(p)
        i = num(c.args[1])
        if t[0] in ('seq', 'option'):
            i = 0
        if i >= len(self.kids(t)):
            self.bad('at %s serde has more parts than the schema, %s' % (self.desc(p), show(t)[:60]))
        return self.walk(p + (i,))

    def h_name(self, j, st, c):
        p = self.path_of(c.args[0])
        b = self.at(p)[1][num(c.args[1])][0].encode()
        return ('p', ('K', ('seq', (('C', b),) if b else ())), (), ('sl', ZERO, I(len(b))))

    def h_close(self, j, st, c):
        p = self.path_of(c.args[0])
        t = self.at(p)
        n = num(c.args[1])
        self.cases += 1
        if t[0] in ('tuple', 'struct') and n != len(t[1]) or t[0] == 'seq' and t[1] is not None and n != t[1]:
            self.bad('at %s serde has %d parts, the schema %s' % (self.desc(p), n, show(t)[:60]))
        return UNIT

    def h_skip(self, j, st, c):
        p = self.path_of(c.args[0])
        if self.at(p)[0] != 'option':
            self.bad('at %s serde skips a field, the schema has %s' % (self.desc(p), show(self.at(p))[:60]))
        return UNIT

    def h_variant(self, j, st, c):
        p = self.path_of(c.args[0])
        t = self.at(p)
        i = num(c.args[1])
        n = text(j, st, c.args[2])
        self.cases += 1
        self.chose(st, p, n)
        if i >= len(t[1]) or t[1][i][0] != n:
            self.bad('at %s serde has %s as number %d, the schema %s' % (
                self.desc(p), n, i, t[1][i][0] if i < len(t[1]) else 'has no such number'))
        return ('op', 'chosen', p + (i,))

    def h_some_variant(self, j, st, c):
        p = self.path_of(c.args[0])
        n = len(self.at(p)[1])
        if n == 0:
            raise Infeasible()
        i = choose(j, st, 'variant', n) if n > 1 else 0
        self.chose(st, p, self.at(p)[1][i][0])
        return I(i)

    def h_wrong(self, j, st, c):
        self.bad('%s: %s' % (self.what, text(j, st, c.args[0])))

    def h_any(self, j, st, c):
        v = j.sym(c.dty, st.fresh('came'))
        self.keep(j, st, v)
        return v

    # ------------------------------------------------------------ content

    def h_given(self, j, st, c):
        self.keep(j, st, c.args[0])
        return UNIT

    def subject(self, t):
        """Is it one of the types that make up a schema?"""
        return self.prog.types[t].path in SUBJECTS

    def wrapper(self, c):
        """A type of the crate's own that stands around a part."""
        b = c.cal.get('body')
        return self.kept and b is not None and self.prog.bodies[b].krate == 'binschema' and not self.subject(c.cal['args'][0])

    def plain(self, j, st, v):
        for _ in range(6):
            if v[0] == 'p' and (len(v) < 4 or not v[3] or v[3][0] != 'sl'):
                v = j.deref(st, v)
            elif v[0] == 'box':
                v = v[1]
            else:
                break
        if v[0] == 'p':
            v = ('seq', tuple(j.deref_segs(st, v)))
        return v

    def same(self, cmp, x, y):
        def text(v):
            return v[0] in ('vec', 'seq') or v[0] == 's' and self.prog.types[v[1]].path == 'alloc::string::String'
        def other(v):
            return v[0] in ('i', 'b', 'a', 's') and not text(v)
        if text(x) and other(y) or other(x) and text(y):
            return None
        return cmp.val(x, y)

    def keep(self, j, st, v):
        """Content that goes out, or that came in."""
        if self.kept:
            st.ghost['kept'] = st.ghost.get('kept', ()) + (self.plain(j, st, v),)

    def chose(self, st, p, name):
        if self.kept and p == self.top:
            st.ghost['chose'] = name

    def content(self, j, st, v, what):
        """The parts of v against what was given or came."""
        self.cases += 1
        v = self.plain(j, st, v)
        t = self.prog.types[v[1]]
        if t.adt == 'enum':
            vs = sorted(j.variants(st, v)) if v[0] == 's' else [v[2]]
            for i in vs:
                self.maps.setdefault((what.split()[0], v[1]), {}).setdefault(
                    t.variants[i]['name'], set()).add(st.ghost.get('chose'))
            if len(vs) != 1:
                if any(t.variants[i]['fields'] for i in vs):
                    self.note('%s: the variant is not known' % what)
                return
            n = t.variants[vs[0]]['name']
            v = j.expand_variant(v, vs[0]) if v[0] == 's' else v
        else:
            v = j.expand(v) if v[0] == 's' else v
            n = t.path.split('::')[-1]
        if v[0] != 'a':
            self.note('%s: the parts are not known' % what)
            return
        cmp = Cmp(j, st)
        have = [self.plain(j, st, x) for x in st.ghost.get('kept', ())]
        left = []
        for x in v[3]:
            x = self.plain(j, st, x)
            i = next((i for i, y in enumerate(have) if self.same(cmp, x, y) is True), None)
            if i is None:
                left.append(x)
            else:
                del have[i]
        if len(left) == len(have) and all(self.same(cmp, x, y) is False for x, y in zip(left, have)):
            if left:
                self.bad('%s: a part of %s is changed' % (what, n))
        elif left:
            self.note('%s: a part of %s is not known to be kept' % (what, n))

    def h_either(self, j, st, c):
        return TRUE if choose(j, st, 'either', 2) == 0 else FALSE

    def h_start(self, j, st, c):
        t = schema_tree(j, st, c.args[0])
        if self.tree is not None and self.tree != t:
            raise Imprecise('the schema depends on something')
        self.tree = t
        return self.walk(())

    def h_schema(self, j, st, c):
        b = c.cal.get('body')
        if b is not None and sum(1 for f in st.frames if f.body.i == b) > 12:
            self.bad('the schema of %s does not come to an end' % self.short(c.cal['args'][0]))
        return NotImplemented

    def short(self, ty):
        return re.sub(r'\b[a-z_]\w*::', '', self.prog.types[ty].s)

    def h_out(self, j, st, c):
        if c.args[1][0] != 'op' or c.args[1][1] != 'walk':
            return NotImplemented
        if self.own == (c.cal.get('body'), len(st.frames)):
            return NotImplemented
        if self.wrapper(c):
            return NotImplemented
        self.oblige('out', c)
        self.keep(j, st, c.args[0])
        return ('a', c.dty, 0, (UNIT,))

    def h_in(self, j, st, c):
        if c.args[0][0] != 'op' or c.args[0][1] != 'walk':
            return NotImplemented
        if self.wrapper(c):
            return NotImplemented      # a wrapper that derive makes
        self.oblige('in', c)
        v = j.sym(c.cal['args'][0], st.fresh('came'))
        self.keep(j, st, v)
        return ('a', c.dty, 0, (v,))

    def oblige(self, d, c):
        t = c.cal['args'][0]
        k = (d, t, self.path_of(c.args[-1]))
        if k in self.seen:
            return
        self.seen.add(k)
        if c.cal.get('body') is None:
            self.note('no code for %s' % self.prog.types[t].s[:80])
            return
        self.todo.append((k, c.cal['body']))

    def opaque(self, j, st, c):
        t = j.types[c.dty]
        if t.k == 'tuple' and not t.elems:
            return UNIT
        return j.sym(c.dty, st.fresh())

    def job(self):
        h = world.io_hooks()
        for k in ('vec_pop', 'vec_push', 'drop'):
            h.pop(k, None)
        j = Job(self.prog, NV.N, h)
        j.world = self.w
        j.reccap = 60
        j.depthcap = 400
        j.fnids = True
        for n in ('leaf', 'open', 'part', 'name', 'close', 'skip', 'variant', 'some_variant', 'wrong', 'any', 'either', 'start', 'given'):
            h[WALK + n] = getattr(self, 'h_' + n)
        h[('known_schema::KnownSchema', 'schema')] = self.h_schema
        h[('serde_core::ser::Serialize', 'serialize')] = self.h_out
        h[('serde_core::de::Deserialize', 'deserialize')] = self.h_in
        j.router = lambda name: self.opaque if OPAQUE.match(name) and ' as known_schema' not in name and 'serde_core' not in name else None
        return j

    def run(self, what, body, mk, top=None, kept=False):
        self.what = what
        self.top = top
        self.kept = kept
        j = self.job()
        st = State()
        self.own = None
        args = mk(j)
        for o in j.run(body, args, st):
            self.outcomes += 1
            if kept and o[0] == 'ret' and o[2][0] == 'a' and o[2][2] == 0:
                v = args[0] if len(args) == 2 else o[2][3][0]
                for r in explore(j, o[1], lambda s: self.content(j, s, v, what)):
                    if r[0] == 'imprecise':
                        self.note('%s: %s' % (what, r[1]))
            if o[0] == 'panic':
                m = '%s: can panic: %s' % (what, o[2])
                if m not in self.violations:
                    self.violations.append(m)
            elif o[0] == 'imprecise':
                self.note(o[2])
        self.stats['steps'] += j.stats['steps']
        self.visited |= j.visited_bodies

    def go(self):
        r = self.prog.root(self.name)
        if r is None:
            raise Anchor('root ' + self.name)
        self.run('the schema', r['body'], lambda j: [])
        while self.todo:
            (d, t, path), body = self.todo.pop(0)
            if len(self.seen) > 3000:
                self.note('too many obligations')
                return
            w = ('op', 'walk', path)
            b = self.prog.bodies[body]
            what = '%s %s' % ('serializing' if d == 'out' else 'deserializing', self.short(t))
            self.reading = d == 'in'
            kept = self.subject(t)
            if d == 'out':
                self.run(what, body, lambda j: [j.sym(b.locals[1], ('self',)), w], path, kept)
            else:
                self.run(what, body, lambda j: [w], path, kept)
        self.inverse()

    def inverse(self):
        """Variants that go out under a name come back under it."""
        for (d, t), m in self.maps.items():
            if d != 'serializing':
                continue
            back = self.maps.get(('deserializing', t))
            if not back:
                continue
            for n, names in sorted(m.items()):
                for k in sorted(x for x in names if x):
                    to = sorted(v for v, ks in back.items() if k in ks)
                    if to and to != [n]:
                        self.cases += 1
                        self.violations.append('%s::%s is serialized as %s, which is deserialized as %s' % (
                            self.short(t), n, k, ' or '.join(to)))


def roots(prog, mod):
    return sorted(r['path'] for r in prog.roots if r['path'].rpartition('::')[0] == mod and r['pub']
                  and prog.bodies[r['body']].argc == 0 and not r.get('trait'))


# what FORMAT.txt lists
_R = {n: ('leaf', n) for n in ('Str', 'Bytes', 'Unit')}
_U64 = ('leaf', 'U64')


def _named(level):
    return ('seq', None, ('struct', (('name', _R['Str']), ('inner', ('recurse', level)))))


META = ('enum', (
    ('Scalar', ('enum', tuple((n, _R['Unit']) for n in (
        'U8', 'U16', 'U32', 'U64', 'U128', 'I8', 'I16', 'I32', 'I64', 'I128', 'F32', 'F64', 'Char', 'Bool')))),
    ('Str', _R['Unit']),
    ('Bytes', _R['Unit']),
    ('Unit', _R['Unit']),
    ('Option', ('recurse', 1)),
    ('Seq', ('struct', (('len', ('option', _U64)), ('inner', ('recurse', 2))))),
    ('Tuple', ('seq', None, ('recurse', 2))),
    ('Struct', _named(3)),
    ('Enum', _named(3)),
    ('Recurse', _U64),
))


def differ(a, b, at='the root'):
    """Where two schemas differ first."""
    if a == b:
        return None
    if a[0] != b[0] or a[0] in ('leaf', 'recurse', 'mark') or a[0] == 'seq' and a[1] != b[1]:
        return 'at %s: %s instead of %s' % (at, show(a)[:60], show(b)[:60])
    if a[0] in ('option', 'seq'):
        return differ(a[-1], b[-1], at + '/' + a[0])
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        if x != y:
            if a[0] != 'tuple':
                if x[0] != y[0]:
                    return 'at %s: %s instead of %s as number %d' % (at, x[0], y[0], i)
                return differ(x[1], y[1], at + '/' + x[0])
            return differ(x, y, '%s/%d' % (at, i))
    return 'at %s: %d parts instead of %d' % (at, len(a[1]), len(b[1]))


class W:
    def __init__(self, prog):
        self.prog = prog


def frozen(t):
    """An expected tree as it comes from JSON."""
    k = t[0]
    if k == 'option':
        return (k, frozen(t[1]))
    if k == 'seq':
        return (k, t[1], frozen(t[2]))
    if k == 'tuple':
        return (k, tuple(frozen(x) for x in t[1]))
    if k in ('struct', 'enum'):
        return (k, tuple((n, frozen(x)) for n, x in t[1]))
    return tuple(t)


def far(label):
    """What is found on the stacks of shapes/src/far.rs."""
    *what, n = label.split()
    n = int(n)
    what = ' '.join(what)
    if what == 'absent':
        return ('leaf', 'Unit')
    return ('recurse', {'nones': n + 1, 'nones through': n, 'types': n + 2, 'mixed': n + 1 - sum(1 for i in range(1, n + 1) if i % 3 == 1),
                        'find': n, 'nearest': n + 2}[what])


class Forms(Shape):
    """A root that builds schemas under labels, each of which has to be as expected."""
    def __init__(self, w, name, expected):
        Shape.__init__(self, w, name)
        self.expected = expected
        self.labels = set()

    def h_form(self, j, st, c):
        l = text(j, st, c.args[0])
        self.labels.add(l)
        self.cases += 1
        try:
            d = differ(schema_tree(j, st, c.args[1]), self.expected(l))
        except Imprecise as e:
            self.note(str(e))
            return UNIT
        if d:
            m = '%s builds another schema: %s' % (l, d)
            if m not in self.violations:
                self.violations.append(m)
        return UNIT

    def h_mark(self, j, st, c):
        return j.sym(c.dty, ('mark', num(c.args[0])))

    def job(self):
        j = Shape.job(self)
        j.depthcap = 800
        j.reccap = 500
        for n in ('form', 'far::form'):
            j.hooks[n] = self.h_form
        j.hooks['mark'] = self.h_mark
        return j

    def go(self):
        r = self.prog.root(self.name)
        if r is None:
            raise Anchor('root ' + self.name)
        self.run(self.name.split('::')[-1], r['body'], lambda j: [])


@tasks.task
def form(ctx, crate, name):
    if crate == 'forms':
        exp = {k: frozen(t) for k, t in json.load(open(EXPECTED)).items()}
        s = Forms(ctx[crate], name, exp.get)
        want = set(l for l in exp if re.match(re.escape(name) + r'( \d+)?:', l))
    else:
        s = Forms(ctx[crate], name, far)
        want = set()
    try:
        s.go()
    except Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    prop = 'C19' if crate == 'forms' else 'C10'
    if want - s.labels and not s.violations:
        s.note('not reached: ' + min(want - s.labels))
    p = s.prog
    fs = sorted(set(p.bodies[b].path for b in s.visited if p.bodies[b].krate == 'binschema'))
    return {'violations': [(prop, m, 'any') for m in s.violations], 'notes': s.notes, 'outcomes': s.outcomes, 'cases': s.cases,
            'subject': name.split('::')[-1], 'cls': '', 'functions': fs or ['schema!'], 'steps': s.stats['steps'], 'obligations': len(s.labels)}


@tasks.task
def shape(ctx, crate, name):
    s = Shape(ctx[crate], name)
    try:
        s.go()
    except Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    prop = 'C11' if crate == 'derived' else 'C12' if '::meta::' in name else 'C10'
    v = [(prop, m, 'any') for m in s.violations]
    if name.endswith('::m_schema') and s.tree is not None:
        d = differ(s.tree, META)
        s.cases += 1
        if d:
            v.append((prop, 'the schema of schemas is not the one FORMAT.txt lists: ' + d, 'any'))
    p = s.prog
    fs = sorted(set(p.bodies[b].path for b in s.visited if p.bodies[b].krate == 'binschema'))
    return {'violations': v, 'notes': s.notes, 'outcomes': s.outcomes, 'cases': s.cases, 'subject': name.split('::')[-1],
            'cls': '', 'functions': fs, 'steps': s.stats['steps'], 'obligations': len(s.seen)}


def all_tasks(ctx, prop):
    crate = {'C11': 'derived', 'C19': 'forms'}.get(prop, 'shapes')
    w = ctx.get(crate)
    if w is None:
        return []
    if prop == 'C19':
        return [('form', crate, n) for n in roots(w.prog, '')]
    if prop == 'C11':
        names = roots(w.prog, '')
    elif prop == 'C12':
        names = roots(w.prog, 'std_types::meta')
    else:
        names = roots(w.prog, 'std_types')
    more = [('form', crate, n) for n in roots(w.prog, 'far')] if prop == 'C10' else []
    big = ('Variants300', 'm_abc', 'Deep0', 'r_Lit')
    return more + [('shape', crate, n) for n in sorted(names, key=lambda n: (not n.endswith(big), n))]
