"""The serde glue and dynamic values, against a model of the encoder and the decoder.

The coding methods of `Encoder` and `Decoder` (which have analyses of their own) are replaced by what
they are specified to do: a stack of what is being coded, refused calls without effect, fatal errors at
any call. Values of other types (`Kid`) are coded whole or fail. What is left is the real code of the
glue, run abstractly over all schemas, arguments, lengths and failures."""
import re
from core import *
from interp import Job, Call
import natives as NV
import world
from world import choose, Anchor
from api import Cmp, explore, FATAL, REFUSE, exact

SCALARS = ['U8', 'U16', 'U32', 'U64', 'U128', 'I8', 'I16', 'I32', 'I64', 'I128', 'F32', 'F64', 'Char', 'Bool']
LEAF = {s.lower(): s for s in SCALARS}
LEAF.update({'str': 'Str', 'bytes': 'Bytes', 'unit': 'Unit'})

METHOD = re.compile(r"^(encoder::Encoder|decoder::Decoder)::<.*>::(\w+)$")

LHOLE = ('i', HOLE, 0)
IGNORED = "<serde_core::de::ignored_any::IgnoredAny as serde_core::de::Deserialize<'de>>::deserialize"


class Refused(Exception):
    def __init__(self, *why):
        self.why = why


class Fatal(Exception):
    def __init__(self, ev):
        self.ev = ev


class Glue:
    """One driver of the witness crate."""
    def __init__(self, w, name):
        self.w = w
        self.name = name
        self.violations = []
        self.notes = {}
        self.outcomes = 0
        self.cases = 0
        self.allocs = []
        self.stats = {'widen': 0, 'steps': 0}
        self.visited = set()

    # ------------------------------------------------------------ running

    def job(self):
        w = self.w
        h = world.io_hooks()
        for k in ('vec_pop', 'vec_push', 'drop'):
            h.pop(k, None)
        j = Job(w.prog, NV.N, h)
        j.world = w
        j.hooks['alloc'] = self.on_alloc
        h['glue::more'] = lambda j, st, c: TRUE if choose(j, st, 'more', 2) == 0 else FALSE
        h['glue::taken'] = self.h_taken
        h['glue::name'] = self.h_name
        h['glue::ended'] = self.h_ended
        h['core::char::methods::<impl char>::encode_utf8'] = self.h_utf8
        h['glue::stopped'] = self.h_stopped
        j.router = self.route
        j.reccap = 3
        j.shape = lambda st: (tuple(f[0] for f in st.ghost['gs']), st.ghost.get('gbad') is None, st.ghost.get('gref') is None)
        self.j = j
        return j

    def route(self, name):
        m = METHOD.match(name)
        if m is not None:
            f = getattr(self, 'm_' + m.group(2), None)
            if f is None and (m.group(2).startswith('encode_') or m.group(2).startswith('decode_')):
                x = LEAF.get(m.group(2)[7:])
                if x is not None:
                    return lambda j, st, c: self.leaf(j, st, c, x, m.group(2)[:2] == 'en')
            if f is None:
                return None
            return lambda j, st, c: self.method(j, st, c, m.group(2), f)
        if name == '<glue::Kid as serde_core::ser::Serialize>::serialize':
            return lambda j, st, c: self.kid_out(j, st, c, c.args[0], c.args[1])
        if name == "<glue::Kid as serde_core::de::Deserialize<'de>>::deserialize":
            return lambda j, st, c: self.kid_in(j, st, c, c.args[0])
        if name == IGNORED:
            return lambda j, st, c: self.ignored_in(j, st, c)
        if name == 'value::Value::encode_to':
            return lambda j, st, c: self.value_out(j, st, c)
        if name == 'value::Value::decode_from':
            return lambda j, st, c: self.value_in(j, st, c)
        return None

    def ignored_in(self, j, st, c):
        if self.name == 'de_ignored' and not self.nested(st, IGNORED) or not self.is_coder(j, st, c.args[0]):
            return NotImplemented
        return self.kid_in(j, st, c, c.args[0])

    def value_out(self, j, st, c):
        if not self.nested(st, 'value::Value::encode_to'):
            return NotImplemented
        return self.kid_out(j, st, c, c.args[0], c.args[1])

    def value_in(self, j, st, c):
        if not self.nested(st, 'value::Value::decode_from'):
            return NotImplemented
        return self.kid_in(j, st, c, c.args[0])

    def nested(self, st, path):
        return any(f.body.path == path for f in st.frames)

    def go(self):
        w = self.w
        p = w.prog
        j = self.job()
        root = p.root('glue::' + self.name)
        if root is None:
            raise Anchor('driver ' + self.name)
        b = p.bodies[root['body']]
        st = State()
        self.sch = ('O', 'sch', w.schema)
        self.root = ('p', self.sch, (), None)
        self.not_recurse(st, ('*', 'sch'))
        st.ghost['gs'] = (('N', self.root),)
        self.args = []
        self.coder = None
        for i in range(1, b.argc + 1):
            t = p.types[b.locals[i]]
            to = p.types[t.to].path if t.to is not None else None
            if to in ('encoder::Encoder', 'decoder::Decoder'):
                self.coder = ('O', 'coder', t.to)
                self.args.append(('p', self.coder, (), None))
            else:
                self.args.append(j.sym(b.locals[i], ('arg', i - 1)))
        outs = j.run(root['body'], list(self.args), st)
        for o in outs:
            self.outcome(o)
        self.visited = j.visited_bodies
        self.stats = j.stats

    def not_recurse(self, st, name):
        if name in st.facts:
            return
        st.facts[name] = frozenset(i for v, i in self.w.S.items() if v != 'Recurse')

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def bad(self, prop, msg):
        self.violations.append((prop, msg, 'any'))

    def on_alloc(self, j, st, c, n):
        n = j.as_lin(st, n)
        lo, hi = j.rng(st, n)
        if hi <= 1 << 16:
            return
        w = self.w
        what = []

        def walk(t):
            if not isinstance(t, tuple):
                return
            if t and t[0] == 'rdlen':
                what.append('message')
            if len(t) == 4 and t[0] == 'f' and isinstance(t[1], tuple) and t[1][:1] == ('f',) and t[2] == 1 \
                    and isinstance(t[1][1], tuple) and t[1][1][:1] == ('f',) and t[1][1][2] == w.S['Seq'] and t[1][3] == w.q_len:
                what.append('schema')
            for e in t:
                walk(e)
        walk(n)
        if what:
            self.allocs.append((c.name, j.where(st), what[0]))

    # ------------------------------------------------------------ the model

    def resolve(self, j, st, p):
        """The schema a pointer stands for is never a recurse."""
        v = j.deref(st, p)
        if j.is_variant(st, v, frozenset((self.w.S['Recurse'],))):
            q = ('p', ('O', ('rec', p[1], p[2]), self.w.schema), (), None)
            self.not_recurse(st, ('*', ('rec', p[1], p[2])))
            u = j.deref(st, q)
            if u[0] == 's' and u[2] not in st.facts:
                self.not_recurse(st, u[2])
            return q
        return p

    def child(self, p, *steps):
        return ('p', p[1], p[2] + tuple(steps), None)

    def method(self, j, st, c, name, f):
        """Calls the model of a method that returns a Result."""
        if st.ghost.get('gbad') is not None:
            return self.refuse(j, st, c, (name, 'broken'))
        ok = choose(j, st, 'io', 2) == 0
        gs = st.ghost['gs']
        try:
            v = f(j, st, c, list(gs), ok)
        except Refused as r:
            return self.refuse(j, st, c, (name,) + r.why)
        except Fatal as e:
            st.ghost['gbad'] = e.ev
            return self.err(c, e.ev, FATAL, st)
        return ('a', c.dty, 0, (v,))

    def refuse(self, j, st, c, why):
        if st.ghost.get('gref') is None:
            st.ghost['gref'] = why
        return self.err(c, st.fresh(), REFUSE, st)

    def fail(self, st, ok):
        if not ok:
            raise Fatal(st.fresh())

    def err(self, c, ev, kinds, st):
        w = self.w
        fs = []
        for f in w.T[w.error].variants[0]['fields']:
            if f[1] == w.kind:
                st.facts[('ek', ev)] = frozenset(w.K[k] for k in kinds)
                fs.append(('s', w.kind, ('ek', ev)))
            elif w.T[f[1]].box:
                fs.append(('op', 'gerr', ev))
            else:
                fs.append(('op', 'gstate', ev))
        return ('a', c.dty, 1, (('a', w.error, 0, tuple(fs)),))

    def set(self, st, gs):
        st.ghost['gs'] = tuple(gs)

    def top(self, st, gs):
        """The need on top, resolved."""
        if not gs or gs[-1][0] != 'N':
            raise Refused('usage')
        p = self.resolve(self.j, st, gs[-1][1])
        if p != gs[-1][1]:
            gs[-1] = ('N', p)
            self.set(st, gs)
        return p

    def want(self, st, gs, *kinds):
        """The schema on top, of one of the kinds."""
        j, w = self.j, self.w
        p = self.top(st, gs)
        v = j.deref(st, p)
        if not j.is_variant(st, v, frozenset(w.S[k] for k in kinds)):
            raise Refused('kind', kinds[0], self.pos(gs), p)
        return p, v

    def complete(self, st, gs):
        gs.pop()
        if st.ghost.get('gname') is not None:
            st.ghost['glastname'] = st.ghost.pop('gname')
        while gs and gs[-1][0] in ('A', 'V'):
            gs.pop()
        self.set(st, gs)

    def pos(self, gs):
        out = []
        for f in gs:
            if f[0] == 'N':
                continue
            if f[0] == 'A':
                out.append(('A',))
            elif f[0] in ('V', 'E'):
                out.append(('E', f[2]))
            else:
                out.append((f[0], ('i', f[3][1], f[3][2] - 1)))
        return tuple(out)

    def leaf(self, j, st, c, x, enc):
        w = self.w

        def f(j, st, c, gs, ok):
            if x in w.SC:
                p, v = self.want(st, gs, 'Scalar')
                sc = j.proj(st, v, ('f', w.S['Scalar'], 0))
                if not j.is_variant(st, sc, frozenset((w.SC[x],))):
                    raise Refused('kind', 'Scalar', self.pos(gs), p)
            else:
                self.want(st, gs, x)
            self.fail(st, ok)
            pos = self.pos(gs)
            self.complete(st, gs)
            if self.name == 'de_ignored':
                return UNIT if x == 'Unit' else j.sym(j.types[c.dty].args[0], ('got', x))
            if enc:
                v = c.args[1] if len(c.args) > 1 else UNIT
                if x in ('Str', 'Bytes'):
                    v = ('vec', tuple(NV.segs_of(j, st, v)))
                st.ghost['gleaf'] = (x, pos, v)
                return UNIT
            t = j.types[c.dty].args[0]
            v = UNIT if x == 'Unit' else j.sym(t, ('got', x) + pos)
            st.ghost['gleaf'] = (x, pos, v)
            return v
        return self.method(j, st, c, c.name.split('::')[-1], f)

    def into(self, j, st, c, x, gs, ok):
        self.want(st, gs, x)
        self.fail(st, ok)
        pos = self.pos(gs)
        self.complete(st, gs)
        buf = c.args[1]
        u8 = lin(nbase(('el', ('got', x) + pos, HOLE), 0, 255))
        n = lin(nbase(('len', ('got', x) + pos), 0, ILEN))
        old = j.segs(st, j.deref(st, buf))
        NV.set_seq(j, st, buf, tuple(old) + (('F', u8, ZERO, n),))
        st.ghost['gleaf'] = (x, pos, UNIT)
        return UNIT

    def m_decode_str_into(self, j, st, c, gs, ok):
        return self.into(j, st, c, 'Str', gs, ok)

    def m_decode_bytes_into(self, j, st, c, gs, ok):
        return self.into(j, st, c, 'Bytes', gs, ok)

    def m_encode_none(self, j, st, c, gs, ok):
        self.want(st, gs, 'Option')
        self.fail(st, ok)
        st.ghost['gleaf'] = ('None', self.pos(gs), UNIT)
        self.complete(st, gs)
        return UNIT

    def some(self, st, gs, p):
        w = self.w
        gs[-1] = ('A',)
        gs.append(('N', self.child(p, ('f', w.S['Option'], 0), 'B')))
        self.set(st, gs)

    def m_begin_some(self, j, st, c, gs, ok):
        p, v = self.want(st, gs, 'Option')
        self.fail(st, ok)
        self.some(st, gs, p)
        return UNIT

    def m_begin_option(self, j, st, c, gs, ok):
        p, v = self.want(st, gs, 'Option')
        if not ok:
            self.fail(st, ok)
        if choose(j, st, 'opt', 2) == 0:
            st.ghost['gleaf'] = ('None', self.pos(gs), UNIT)
            self.complete(st, gs)
            return FALSE
        self.some(st, gs, p)
        return TRUE

    def seq_parts(self, j, st, v):
        w = self.w
        q = j.proj(st, v, ('f', w.S['Seq'], 0))
        return j.proj(st, q, ('f', 0, w.q_len))

    def seq_push(self, st, gs, p, n):
        w = self.w
        gs[-1] = ('Q', self.child(p, ('f', w.S['Seq'], 0), ('f', 0, w.q_inner), 'B'), n, ZERO)
        self.set(st, gs)

    def m_begin_fixed_len_seq(self, j, st, c, gs, ok):
        p, v = self.want(st, gs, 'Seq')
        ln = self.seq_parts(j, st, v)
        if not j.is_variant(st, ln, frozenset((1,))):
            raise Refused('kind', 'Seq', self.pos(gs), p)
        n = j.proj(st, ln, ('f', 1, 0))
        if not self.same(st, n, c.args[1]):
            raise Refused('len', self.pos(gs), c.args[1])
        self.fail(st, ok)
        st.ghost['glen'] = n
        self.seq_push(st, gs, p, n)
        return UNIT

    def same(self, st, a, b):
        """Equality of numbers, decided."""
        return self.j.eqi(st, self.j.as_lin(st, a), self.j.as_lin(st, b))

    def m_begin_var_len_seq(self, j, st, c, gs, ok):
        p, v = self.want(st, gs, 'Seq')
        ln = self.seq_parts(j, st, v)
        if not j.is_variant(st, ln, frozenset((0,))):
            raise Refused('kind', 'Seq', self.pos(gs), p)
        self.fail(st, ok)
        if len(c.args) > 1:
            n = j.as_lin(st, c.args[1])
            r = UNIT
        else:
            n = lin(nbase(('rdlen',) + self.pos(gs), 0, USZ))
            r = n
        st.ghost['glen'] = n
        self.seq_push(st, gs, p, n)
        return r

    def elem(self, st, gs, k):
        if not gs or gs[-1][0] != k:
            raise Refused('usage')
        f = gs[-1]
        if not self.j.lt(st, f[3], f[2]):
            raise Refused('count', self.pos(gs))
        return f

    def push_elem(self, st, gs, f, p):
        gs[-1] = f[:3] + (('i', f[3][1], f[3][2] + 1),)
        gs.append(('N', p))
        self.set(st, gs)

    def end(self, st, gs, k):
        if not gs or gs[-1][0] != k:
            raise Refused('usage')
        f = gs[-1]
        if not self.same(st, f[3], f[2]):
            raise Refused('count', self.pos(gs))
        if len(gs) == 1 or all(g[0] == 'V' for g in gs[:-1]):
            # the container itself
            st.ghost['gtotal'] = f[2]
        self.complete(st, gs)
        return UNIT

    def m_begin_seq_elem(self, j, st, c, gs, ok):
        f = self.elem(st, gs, 'Q')
        self.fail(st, ok)
        self.push_elem(st, gs, f, f[1])
        return UNIT

    def m_finish_seq(self, j, st, c, gs, ok):
        if not ok:
            raise Infeasible()
        return self.end(st, gs, 'Q')

    def count(self, j, st, p, kind):
        w = self.w
        v = j.deref(st, p)
        return j.segs_len(st, j.segs(st, j.proj(st, v, ('f', w.S[kind], 0))))

    def m_begin_tuple(self, j, st, c, gs, ok):
        p, v = self.want(st, gs, 'Tuple')
        if not ok:
            raise Infeasible()
        gs[-1] = ('T', p, self.count(j, st, p, 'Tuple'), ZERO)
        self.set(st, gs)
        return UNIT

    def m_begin_tuple_elem(self, j, st, c, gs, ok):
        f = self.elem(st, gs, 'T')
        self.fail(st, ok)
        self.push_elem(st, gs, f, self.child(f[1], ('f', self.w.S['Tuple'], 0), ('i', f[3])))
        return UNIT

    def m_finish_tuple(self, j, st, c, gs, ok):
        if not ok:
            raise Infeasible()
        return self.end(st, gs, 'T')

    def m_begin_struct(self, j, st, c, gs, ok):
        p, v = self.want(st, gs, 'Struct')
        if not ok:
            raise Infeasible()
        gs[-1] = ('U', p, self.count(j, st, p, 'Struct'), ZERO)
        self.set(st, gs)
        return UNIT

    def part(self, p, kind, i):
        """The field or variant i of the schema p: pointers to its name and its schema."""
        w = self.w
        t = {'Struct': w.field, 'Enum': w.evar}[kind]
        e = self.child(p, ('f', w.S[kind], 0), ('i', i))
        return self.child(e, ('f', 0, w.x_name[t])), self.child(e, ('f', 0, w.x_inner[t]))

    def name_is(self, j, st, name, given):
        return NV.segs_equal(j, st, j.segs(st, j.deref(st, name)), NV.segs_of(j, st, given))

    def m_begin_struct_field(self, j, st, c, gs, ok):
        f = self.elem(st, gs, 'U')
        name, inner = self.part(f[1], 'Struct', f[3])
        if not self.name_is(j, st, name, c.args[1]):
            raise Refused('name', ('U', f[3]), tuple(NV.segs_of(j, st, c.args[1])))
        self.fail(st, ok)
        st.ghost.pop('glastname', None)
        st.ghost['gname'] = c.args[1]
        self.push_elem(st, gs, f, inner)
        return UNIT

    def m_finish_struct(self, j, st, c, gs, ok):
        if not ok:
            raise Infeasible()
        return self.end(st, gs, 'U')

    def m_begin_enum(self, j, st, c, gs, ok):
        p, v = self.want(st, gs, 'Enum')
        n = self.count(j, st, p, 'Enum')
        if len(c.args) > 1:
            o = j.as_lin(st, c.args[1])
            if not j.lt(st, o, n):
                raise Refused('ord', o)
            name, inner = self.part(p, 'Enum', o)
            if not self.name_is(j, st, name, c.args[2]):
                raise Refused('name', ('E', o), tuple(NV.segs_of(j, st, c.args[2])))
            self.fail(st, ok)
            gs[-1] = ('V', p, o)
            gs.append(('N', inner))
            st.ghost['gvname'] = c.args[2]
            self.set(st, gs)
            st.ghost['gord'] = o
            return UNIT
        self.fail(st, ok)
        o = lin(nbase(('rdord',) + self.pos(gs), 0, USZ))
        st.zone.assume_lt(o, n)
        gs[-1] = ('E', p, o)
        self.set(st, gs)
        st.ghost['gord'] = o
        return o

    def m_begin_enum_variant(self, j, st, c, gs, ok):
        if not gs or gs[-1][0] != 'E':
            raise Refused('usage')
        _, p, o = gs[-1]
        name, inner = self.part(p, 'Enum', o)
        if not self.name_is(j, st, name, c.args[1]):
            raise Refused('name', ('E', o), tuple(NV.segs_of(j, st, c.args[1])))
        self.fail(st, ok)
        gs[-1] = ('V', p, o)
        gs.append(('N', inner))
        self.set(st, gs)
        return UNIT

    def m_need(self, j, st, c, gs, ok):
        if not ok:
            raise Infeasible()
        return self.top(st, gs)

    def route_plain(self):
        pass

    # ------------------------------------------------------------ values of other types

    def is_coder(self, j, st, p):
        for _ in range(3):
            if p[0] != 'p':
                return False
            if p[1] == self.coder and p[2] == ():
                return True
            try:
                p = j.deref(st, p)
            except Imprecise:
                return False
        return False

    def one(self, j, st, c, f):
        """A child codes itself: wholly, or with an error."""
        if st.ghost.get('gbad') is not None:
            return self.refuse(j, st, c, ('kid', 'broken'))
        ok = choose(j, st, 'kid', 2) == 0
        gs = list(st.ghost['gs'])
        if not gs or gs[-1][0] != 'N':
            return self.refuse(j, st, c, ('kid', 'usage'))
        if not ok:
            ev = st.fresh()
            st.ghost['gbad'] = ev
            return self.err(c, ev, tuple(self.w.K), st)
        v = f(gs, self.pos(gs))
        self.complete(st, gs)
        return ('a', c.dty, 0, (v,))

    def kid_out(self, j, st, c, kid, enc):
        if not self.is_coder(j, st, enc):
            self.bad('C14', 'an element is not coded by the encoder itself')
            raise Infeasible()

        def f(gs, pos):
            st.ghost['gkids'] = True
            self.at_kid(j, st, pos, kid)
            return UNIT
        return self.one(j, st, c, f)

    def kid_in(self, j, st, c, dec):
        if not self.is_coder(j, st, dec):
            self.bad('C14', 'an element is not decoded from the decoder itself')
            raise Infeasible()
        t = j.types[c.dty].args[0]

        def f(gs, pos):
            if t == self.w.value or j.types[t].path == 'glue::Kid':
                return ('s', t, ('kid',) + pos)
            return j.zst(t)
        return self.one(j, st, c, f)

    def prop(self):
        return 'C13' if self.name.startswith('value_') else 'C14'

    def elem_no(self, st, pos, kid, sl, *steps):
        """Is kid (the part `steps` of) the element of the slice at the position?"""
        if kid[0] != 'p' or kid[1] != sl[1]:
            return None
        want = sl[2] + (('i', pos),) + tuple(steps)
        return self.path_is(st, kid[2], want)

    def path_is(self, st, got, want):
        if len(got) != len(want):
            return None
        r = True
        for a, b in zip(got, want):
            if a == b:
                continue
            if a != 'B' and b != 'B' and a[0] == b[0] == 'i':
                e = Cmp(self.j, st).num(a[1], b[1])
                if e is False:
                    return False
                if e is None:
                    r = None
                continue
            return False
        return r

    def shape(self, pos):
        return ''.join(s[0] for s in pos)

    def at_kid(self, j, st, pos, kid):
        """An element of the value is coded at a position of the schema: is it the one?"""
        n = self.name
        sh = self.shape(pos)
        pr = self.prop()
        while kid[0] == 'p' and j.types[kid[1][2]].k in ('ref',) and False:
            kid = j.deref(st, kid)
        r = None
        what = 'an element'
        if n == 'value_encode':
            r = self.value_at(j, st, pos, sh, kid)
        else:
            want = {'ser_some': 'A', 'ser_newtype_struct': '', 'ser_newtype_variant': 'E', 'ser_tuple_variant': 'E+',
                    'ser_struct_variant': 'EU', 'ser_struct': 'U', 'ser_map': 'QT', 'ser_map_entries': 'QT'}.get(n, '+')
            if want == sh or want.endswith('+') and sh in (want[:-1] + 'Q', want[:-1] + 'T'):
                if sh in ('A', '', 'E'):
                    arg = self.args[-1]
                    r = kid[0] == 'p' and kid[1] == arg[1] and kid[2] == arg[2] or None
                elif sh == 'QT':
                    arg = self.args[-1]
                    k = j.to_const(st, pos[1][1])
                    if k is None:
                        self.note('undecided: part of a map entry')
                        return
                    r = self.elem_no(st, pos[0][1], kid, arg, ('f', 0, k))
                elif sh[-1] == 'U':
                    r = self.elem_no(st, pos[-1][1], kid, self.args[-1], ('f', 0, 1))
                    self.named(j, st, pos[-1][1])
                else:
                    r = self.elem_no(st, pos[-1][1], kid, self.args[-1])
            else:
                self.bad(pr, '%s: codes an element at a place of another shape (%s)' % (n, sh or 'the value itself'))
                return
        if r is False:
            self.bad(pr, '%s: codes an element in the place of another' % n)
        elif r is None:
            self.note('undecided: which element is coded')

    def named(self, j, st, i):
        """Field i goes under its own name."""
        got = self.spelt(j, st)
        arg = self.args[-1]
        key = j.deref(st, ('p', arg[1], arg[2] + (('i', i), ('f', 0, 0)), None))
        want = NV.norm_segs(j, st, NV.segs_of(j, st, key))
        self.names_agree(j, st, got, want)

    def spelt(self, j, st, which='gname'):
        p = st.ghost.get(which)
        return None if p is None else NV.norm_segs(j, st, NV.segs_of(j, st, p))

    def names_agree(self, j, st, got, want):
        if got == want:
            return
        r = Cmp(j, st).segs(got, want) if got is not None else None
        if r is True:
            return
        k = ('streq',) + tuple(sorted((got, want), key=repr)) if got is not None else None
        if k is not None and st.preds.get(k) is True:
            return
        if r is False:
            self.bad(self.prop(), '%s: codes a name that is not the one given' % self.name)
        else:
            self.note('undecided: name of a field or variant')

    def value_field(self, ty, name):
        fs = self.w.T[ty].variants[0]['fields']
        return [i for i, f in enumerate(fs) if f[0] == name][0]

    def value_at(self, j, st, pos, sh, kid):
        w = self.w
        V = w.V
        arg = self.args[0]
        base = arg[2]
        v = j.deref(st, arg)
        if sh == 'A':
            want = base + (('f', V['Option'], 0), ('f', 1, 0), 'B')
        elif sh in ('Q', 'T'):
            kinds = ('FixedLenSeq', 'VarLenSeq') if sh == 'Q' else ('Tuple',)
            k = j.variant(st, v)
            names = {i: n for n, i in V.items()}
            if names[k] not in kinds:
                return False
            want = base + (('f', k, 0), ('i', pos[0][1]))
        elif sh == 'U':
            sf = w.T[w.value].variants[V['Struct']]['fields'][0][1]
            ft = w.T[sf].args[0]
            want = base + (('f', V['Struct'], 0), ('i', pos[0][1]), ('f', 0, self.value_field(ft, 'value')))
            nm = ('p', arg[1], base + (('f', V['Struct'], 0), ('i', pos[0][1]), ('f', 0, self.value_field(ft, 'name'))), None)
            self.names_agree(j, st, self.spelt(j, st), NV.norm_segs(j, st, j.segs(st, j.deref(st, nm))))
        elif sh == 'E':
            et = w.T[w.value].variants[V['Enum']]['fields'][0][1]
            ev = base + (('f', V['Enum'], 0),)
            want = ev + (('f', 0, self.value_field(et, 'value')), 'B')
            nm = ('p', arg[1], ev + (('f', 0, self.value_field(et, 'variant_name')),), None)
            self.names_agree(j, st, self.spelt(j, st, 'gvname'), NV.norm_segs(j, st, j.segs(st, j.deref(st, nm))))
            o = j.deref(st, ('p', arg[1], ev + (('f', 0, self.value_field(et, 'variant_ord')),), None))
            if Cmp(j, st).num(o, pos[0][1]) is False:
                self.bad('C13', 'value_encode: codes another ordinal than its own')
        else:
            return False
        if kid[0] != 'p' or kid[1] != arg[1]:
            return None
        return self.path_is(st, kid[2], want)

    # ------------------------------------------------------------ what visitors are given

    def h_taken(self, j, st, c):
        n, kid = c.args
        if kid[0] == 'a' or kid[0] != 's' or not isinstance(kid[2], tuple) or kid[2][:1] != ('kid',):
            raise Imprecise('unknown element')
        pos = kid[2][1:]
        if pos and pos[0][0] == 'E':
            pos = pos[1:]
        if self.name == 'de_map' or len(pos) == 2:
            k = st.ghost.get('gpart', ZERO)
            if len(pos) != 2 or Cmp(j, st).num(pos[1][1], k) is False:
                self.bad('C14', '%s: keys and values are mixed up' % self.name)
            st.ghost['gpart'] = I(1) if k == ZERO else ZERO
            i = pos[0][1]
        elif len(pos) == 1:
            i = pos[0][1]
        else:
            self.bad('C14', '%s: an element from a place of another shape' % self.name)
            return UNIT
        if Cmp(j, st).num(i, n) is False:
            self.bad('C14', '%s: elements are given out of order' % self.name)
        return UNIT

    def h_name(self, j, st, c):
        n, key = c.args
        gs = st.ghost['gs']
        if len(gs) < 2 or gs[-2][0] != 'U':
            self.bad('C14', '%s: the name of a field is given where there is none' % self.name)
            return UNIT
        if key[0] == 's':
            raise Imprecise('unknown name')
        nm = key[3][0]
        i = ('i', gs[-2][3][1], gs[-2][3][2] - 1)
        if Cmp(j, st).num(i, n) is False:
            self.bad('C14', '%s: fields are given out of order' % self.name)
        self.ident(j, st, nm, i, self.spelt(j, st))
        return UNIT

    def ident(self, j, st, nm, i, want):
        if nm[0] != 'a':
            raise Imprecise('unknown name')
        if nm[2] == 1:
            if Cmp(j, st).num(nm[3][0], i) is False:
                self.bad('C14', '%s: a field or variant is given under another number' % self.name)
        else:
            self.names_agree(j, st, NV.norm_segs(j, st, j.segs(st, nm[3][0])), want)

    def h_ended(self, j, st, c):
        st.ghost['gended'] = True
        return UNIT

    def h_utf8(self, j, st, c):
        n = lin(nbase(('utf8len', c.args[0]), 1, 4))
        return ('p', ('O', ('utf8', c.args[0]), j.types[c.dty].to), (), ('sl', ZERO, n))

    def h_stopped(self, j, st, c):
        st.ghost['gstopped'] = True
        return UNIT

    # ------------------------------------------------------------ outcomes

    def outcome(self, o):
        kind, st, v = o
        self.outcomes += 1
        if kind == 'imprecise':
            self.note(v)
            return
        if kind == 'panic':
            self.bad('C07', 'can panic: ' + v)
            return
        if self.name == 'de_human':
            self.expect(st, self.j.truth(st, v), 'values are told to be human readable when coded but not when decoded, or the other way round')
            return
        for r in explore(self.j, st, lambda s: self.check(s, v)):
            self.cases += 1
            if r[0] == 'imprecise':
                self.note(r[1])

    def check(self, st, v):
        j, w = self.j, self.w
        pr = self.prop()
        n = self.name
        if v[0] != 'a':
            raise Imprecise('unknown result')
        gbad = st.ghost.get('gbad')
        if v[2] == 1:
            e = v[3][0]
            mark = None
            if e[0] == 'a' and e[1] == w.error:
                for f, x in zip(w.T[w.error].variants[0]['fields'], e[3]):
                    if w.T[f[1]].box and x[0] == 'op' and x[1] == 'gerr':
                        mark = x[2]
                    if f[1] == w.kind:
                        ek = x
            if gbad is not None:
                if mark != gbad:
                    self.bad('C17', '%s: replaces the error of a coder call by another' % n)
                elif ek != ('s', w.kind, ('ek', gbad)):
                    self.bad('C17', '%s: changes the kind of an error' % n)
                return
            if not self.justified(j, st):
                self.bad(pr, '%s: refuses a value of the schema that is needed%s' % (n, self.reason(st)))
            return
        if gbad is not None:
            self.bad('C17', '%s: succeeds although a coder call failed' % n)
            self.bad(pr, '%s: succeeds although a coder call failed' % n)
            return
        gs = st.ghost['gs']
        if gs:
            f = gs[-1]
            if st.ghost.get('gstopped') and f[0] in ('Q', 'T', 'U') and len([g for g in gs if g[0] in ('Q', 'T', 'U')]) == 1 \
                    and (j.lt(st, f[3], f[2]) or self.more_wanted(j, st, f)):
                # the visitor did not want the rest
                return
            what = {'N': 'nothing is coded where a value is needed', 'E': 'the variant is not begun'}.get(f[0], 'what was begun is not finished')
            self.bad(pr, '%s: succeeds but %s' % (n, what))
            return
        self.success(j, st, v[3][0])

    def more_wanted(self, j, st, f):
        """Does the caller expect more fields than there are?"""
        if self.name not in ('de_struct', 'de_enum_struct'):
            return False
        return not self.same(st, f[2], self.args[-1][3][2])

    def reason(self, st):
        r = st.ghost.get('gref')
        return '' if r is None else ' (%s is refused: %s)' % (r[0], r[1])

    # need at a place

    def kind_at(self, j, st, p):
        p = self.resolve(j, st, p)
        k = j.variant(st, j.deref(st, p))
        name = {i: n for n, i in self.w.S.items()}[k]
        if name == 'Scalar':
            sc = j.proj(st, j.deref(st, p), ('f', k, 0))
            s = j.variant(st, sc)
            name = {i: n for n, i in self.w.SC.items()}[s]
        return name, p

    def len_at(self, j, st, kind, p):
        """(length, known only from the message) of the seq-like schema at p."""
        if kind == 'Unit':
            return ZERO, False
        if kind == 'Tuple':
            return self.count(j, st, p, 'Tuple'), False
        v = j.deref(st, p)
        ln = self.seq_parts(j, st, v)
        if j.is_variant(st, ln, frozenset((1,))):
            return j.proj(st, ln, ('f', 1, 0)), False
        return None, True

    def justified(self, j, st):
        """Is there a reason to refuse, in the arguments or in the schema?"""
        n = self.name
        kind, p = self.kind_at(j, st, self.root)
        gref = st.ghost.get('gref')
        if n in ('de_any', 'de_ignored', 'value_decode', 'de_newtype_struct', 'ser_newtype_struct'):
            return False
        if n == 'value_encode':
            return self.value_justified(j, st, kind, p, gref)
        base = n.split('_', 1)[1]
        dec = n.startswith('de_')
        if base in LEAF or base in ('string', 'byte_buf', 'unit_struct'):
            x = LEAF.get(base) or {'string': 'Str', 'byte_buf': 'Bytes', 'unit_struct': 'Unit'}[base]
            return kind != x
        if base in ('option', 'none', 'some'):
            return kind != 'Option'
        if base in ('seq', 'seq_unsized'):
            if kind != 'Seq':
                return True
            if dec:
                return False
            ln, var = self.len_at(j, st, kind, p)
            if var:
                return base == 'seq_unsized'
            return not self.same(st, ln, self.nkids())
        if base in ('tuple', 'tuple_struct'):
            return self.tuple_justified(j, st, kind, p, dec)
        if base in ('map', 'map_entries'):
            if kind != 'Seq':
                return True
            ln, var = self.len_at(j, st, kind, p)
            if not var:
                return True
            # entries must be pairs
            q = self.child(p, ('f', self.w.S['Seq'], 0), ('f', 0, self.w.q_inner), 'B')
            k, q = self.kind_at(j, st, q)
            return k != 'Tuple' or not self.same(st, self.count(j, st, q, 'Tuple'), I(2))
        if base in ('struct', 'skip'):
            return kind != 'Struct' or self.struct_justified(j, st, p, gref, dec)
        # enums
        if kind != 'Enum':
            return True
        o = st.ghost.get('gord')
        if gref is not None and gref[1] == 'ord':
            return self.same(st, gref[2], j.as_lin(st, self.args[1]))
        if gref is not None and gref[1] == 'name' and gref[2][0] == 'E':
            if dec:
                return self.variant_name(j, st, gref[2][1], gref[3])
            return Cmp(j, st).segs(gref[3], NV.segs_of(j, st, self.args[2])) is not False
        if o is None:
            return False
        if dec:
            if not j.lt(st, o, self.args[1][3][2]):
                return True
        name, inner = self.part(p, 'Enum', o)
        k, q = self.kind_at(j, st, inner)
        if base in ('unit_variant', 'enum_unit'):
            return k != 'Unit'
        if base in ('newtype_variant', 'enum_newtype'):
            return False
        if base in ('tuple_variant', 'enum_tuple'):
            return self.tuple_justified(j, st, k, q, dec)
        if base in ('struct_variant', 'enum_struct', 'skip_variant'):
            return k != 'Struct' or self.struct_justified(j, st, q, gref, dec)
        return True

    def nkids(self):
        return self.args[-1][3][2]

    def tuple_justified(self, j, st, kind, p, dec):
        if kind not in ('Tuple', 'Seq', 'Unit'):
            return True
        ln, var = self.len_at(j, st, kind, p)
        if var:
            # no tuple has a schema like that
            return True
        return not self.same(st, ln, self.args[-1] if dec else self.nkids())

    def variant_name(self, j, st, o, given):
        """Is it the name of variant o that the caller gave?"""
        arg = self.args[1]
        if not j.lt(st, o, arg[3][2]):
            return True
        want = NV.segs_of(j, st, j.deref(st, ('p', arg[1], arg[2] + (('i', o),), None)))
        return Cmp(j, st).segs(given, want) is not False

    def struct_justified(self, j, st, p, gref, dec):
        have = self.count(j, st, p, 'Struct')
        if self.name.startswith('ser_skip'):
            n = ONE
        elif dec:
            n = self.args[-1][3][2]
        else:
            n = self.nkids()
        if not self.same(st, have, n):
            return True
        if gref is None:
            return False
        if gref[1] == 'name' and gref[2][0] == 'U':
            i = gref[2][1]
            arg = self.args[-1]
            if self.name.startswith('ser_skip'):
                want = NV.segs_of(j, st, arg)
            else:
                steps = (('i', i),) if dec else (('i', i), ('f', 0, 0))
                want = NV.segs_of(j, st, j.deref(st, ('p', arg[1], arg[2] + steps, None)))
            return Cmp(j, st).segs(gref[3], want) is not False
        if gref[1] == 'kind' and self.name.startswith('ser_skip') and gref[2] == 'Option':
            return True
        return False

    def value_justified(self, j, st, kind, p, gref):
        w = self.w
        v = j.deref(st, self.args[0])
        k = {i: n for n, i in w.V.items()}[j.variant(st, v)]
        pay = lambda *s: j.deref(st, ('p', self.args[0][1], self.args[0][2] + s, None))
        if k == 'Scalar':
            s = j.variant(st, pay(('f', w.V[k], 0)))
            return kind != {i: n for n, i in w.VS.items()}[s]
        if k in ('Str', 'Bytes', 'Unit', 'Option'):
            return kind != k
        if k in ('FixedLenSeq', 'VarLenSeq', 'Tuple', 'Struct'):
            n = j.segs_len(st, j.segs(st, pay(('f', w.V[k], 0))))
        if k in ('FixedLenSeq', 'VarLenSeq'):
            if kind != 'Seq':
                return True
            ln, var = self.len_at(j, st, kind, p)
            if var or k == 'VarLenSeq':
                return not (var and k == 'VarLenSeq')
            return not self.same(st, ln, n)
        if kind != k:
            return True
        if k == 'Tuple':
            return not self.same(st, self.count(j, st, p, k), n)
        if k == 'Struct':
            if not self.same(st, self.count(j, st, p, k), n):
                return True
            if gref is None or gref[1] != 'name':
                return False
            sf = w.T[w.T[w.value].variants[w.V[k]]['fields'][0][1]].args[0]
            nm = pay(('f', w.V[k], 0), ('i', gref[2][1]), ('f', 0, self.value_field(sf, 'name')))
            return Cmp(j, st).segs(gref[3], j.segs(st, nm)) is not False
        et = w.T[w.value].variants[w.V[k]]['fields'][0][1]
        o = pay(('f', w.V[k], 0), ('f', 0, self.value_field(et, 'variant_ord')))
        if not j.lt(st, o, self.count(j, st, p, 'Enum')):
            return True
        if gref is None or gref[1] != 'name':
            return False
        nm = pay(('f', w.V[k], 0), ('f', 0, self.value_field(et, 'variant_name')))
        return Cmp(j, st).segs(gref[3], j.segs(st, nm)) is not False

    # what success means

    def expect(self, st, r, msg, prop=None):
        if r is False:
            self.bad(prop or self.prop(), '%s: %s' % (self.name, msg))
        elif r is None:
            self.note('undecided: ' + msg)

    def success(self, j, st, v):
        n = self.name
        w = self.w
        cmp = Cmp(j, st)
        base = n.split('_', 1)[1]
        lf = st.ghost.get('gleaf')
        if n == 'value_decode':
            return self.value_result(j, st, v)
        if n == 'value_encode':
            return self.value_coded(j, st)
        if n == 'de_ignored':
            return
        leafx = LEAF.get(base) or {'string': 'Str', 'byte_buf': 'Bytes', 'unit_struct': 'Unit'}.get(base)
        if n.startswith('ser_'):
            if leafx:
                if lf is None or lf[0] != leafx or lf[1] != ():
                    return self.expect(st, False, 'codes something else')
                if leafx != 'Unit':
                    a = self.args[1]
                    if leafx in ('Str', 'Bytes'):
                        a = ('vec', tuple(NV.segs_of(j, st, a)))
                    self.expect(st, cmp.val(lf[2], a), 'codes another value than the one given')
                return
            if base == 'none':
                return self.expect(st, lf is not None and lf[0] == 'None', 'codes something else')
            if base == 'unit_variant':
                self.expect(st, lf is not None and lf[0] == 'Unit' and self.shape(lf[1]) == 'E', 'codes something else')
            if base in ('skip', 'skip_variant'):
                self.expect(st, lf is not None and lf[0] == 'None' and self.shape(lf[1]) in ('U', 'EU'), 'codes something else for a skipped field')
                if lf is not None:
                    self.names_agree(j, st, self.spelt(j, st, 'glastname'), NV.norm_segs(j, st, NV.segs_of(j, st, self.args[-1])))
            if base in ('some', 'newtype_struct', 'newtype_variant'):
                self.expect(st, bool(st.ghost.get('gkids')), 'the inner value is not coded')
            if 'variant' in base:
                o = st.ghost.get('gord')
                self.expect(st, cmp.num(j.as_lin(st, o), j.as_lin(st, self.args[1])) if o is not None else False, 'codes another ordinal than the one given')
                self.names_agree(j, st, self.spelt(j, st, 'gvname'), NV.norm_segs(j, st, NV.segs_of(j, st, self.args[2])))
            if base in ('seq', 'seq_unsized', 'tuple', 'tuple_struct', 'tuple_variant', 'map', 'map_entries', 'struct', 'struct_variant'):
                t = st.ghost.get('gtotal', ZERO)
                self.expect(st, self.same(st, t, self.nkids()), 'codes more or fewer elements than there are')
            return
        # what the visitor has been given
        if v[0] == 's':
            return self.note('undecided: what the visitor was given')
        got = w.T[v[1]].variants[v[2]]['name']
        pay = v[3]
        if leafx:
            want = {'str': 'Str', 'bytes': 'Bytes'}.get(leafx.lower(), leafx)
            if got != want:
                return self.expect(st, False, 'the visitor is given something else')
            if leafx != 'Unit':
                self.expect(st, self.same_got(j, st, pay[0], lf), 'the visitor is given another value than the one decoded')
            return
        if n == 'de_any':
            kind, p = self.kind_at(j, st, self.root)
            if kind in SCALARS or kind in ('Str', 'Bytes', 'Unit'):
                if got != kind:
                    return self.expect(st, False, 'the visitor is given something else')
                if kind != 'Unit':
                    self.expect(st, self.same_got(j, st, pay[0], lf), 'the visitor is given another value than the one decoded')
                return
            base = {'Option': 'option', 'Seq': 'seq', 'Tuple': 'tuple', 'Struct': 'struct', 'Enum': 'enum_newtype'}[kind]
        if base == 'option':
            if lf is not None and lf[0] == 'None':
                return self.expect(st, got == 'None', 'some is given for none')
            return self.expect(st, got == 'Some' and self.is_kid(pay[0], 'A'), 'none is given for some')
        if base == 'newtype_struct':
            return self.expect(st, got == 'Newtype' and self.is_kid(pay[0], ''), 'the visitor is given something else')
        if base in ('tuple', 'tuple_struct') and n != 'de_any' and not st.ghost.get('gstopped'):
            self.expect(st, self.same(st, st.ghost.get('gtotal', ZERO), self.args[-1]), 'accepts a schema of another length')
        if base in ('seq', 'tuple', 'tuple_struct'):
            return self.expect(st, got == 'Seq', 'the visitor is given something else')
        if base in ('map', 'struct'):
            return self.expect(st, got == base.capitalize(), 'the visitor is given something else')
        o = st.ghost.get('gord')
        if o is None:
            return self.expect(st, False, 'no enum is decoded')
        if got not in ('EnumUnit', 'EnumKid', 'EnumGot'):
            return self.expect(st, False, 'the visitor is given something else')
        idv = pay[0]
        if idv[0] == 's':
            raise Imprecise('unknown name')
        kind, p = self.kind_at(j, st, self.root)
        name, inner = self.part(p, 'Enum', o)
        self.ident(j, st, idv[3][0], o, NV.norm_segs(j, st, j.segs(st, j.deref(st, name))))
        if base == 'enum_tuple' and not st.ghost.get('gstopped'):
            self.expect(st, self.same(st, st.ghost.get('gtotal', ZERO), self.args[-1]), 'accepts a schema of another length')
        if base == 'enum_unit':
            self.expect(st, lf is not None and lf[0] == 'Unit' and self.shape(lf[1]) == 'E', 'codes something else')
        if base == 'enum_newtype':
            self.expect(st, got == 'EnumKid' and self.is_kid(pay[1], 'E'), 'another value is given for the variant')

    def is_kid(self, v, sh):
        return v[0] == 's' and isinstance(v[2], tuple) and v[2][:1] == ('kid',) and self.shape(v[2][1:]) == sh

    def same_got(self, j, st, v, lf):
        if lf is None:
            return False
        return Cmp(j, st).val(v, lf[2])

    def value_coded(self, j, st):
        """The kind of schema coded is that of the value."""
        w = self.w
        kind, p = self.kind_at(j, st, self.root)
        v = j.deref(st, self.args[0])
        k = {i: n for n, i in w.V.items()}[j.variant(st, v)]
        pay = lambda *s: j.deref(st, ('p', self.args[0][1], self.args[0][2] + s, None))
        lf = st.ghost.get('gleaf')
        cmp = Cmp(j, st)
        if k == 'Scalar':
            s = j.variant(st, pay(('f', w.V[k], 0)))
            sn = {i: n for n, i in w.VS.items()}[s]
            if kind != sn or lf is None or lf[0] != sn:
                return self.expect(st, False, 'codes a scalar as another kind')
            return self.expect(st, cmp.val(lf[2], pay(('f', w.V[k], 0), ('f', s, 0))), 'codes another value than its own')
        if k in ('Str', 'Bytes', 'Unit'):
            if kind != k or lf is None or lf[0] != k:
                return self.expect(st, False, 'codes a value as another kind')
            if k != 'Unit':
                self.expect(st, cmp.val(lf[2], ('vec', tuple(j.segs(st, pay(('f', w.V[k], 0)))))), 'codes another value than its own')
            return
        if k == 'Option':
            some = j.is_variant(st, pay(('f', w.V[k], 0)), frozenset((1,)))
            if kind != 'Option':
                return self.expect(st, False, 'codes a value as another kind')
            return self.expect(st, some == bool(st.ghost.get('gkids')), 'codes some as none or none as some')
        if k in ('FixedLenSeq', 'VarLenSeq', 'Tuple', 'Struct'):
            want = 'Seq' if k.endswith('Seq') else k
            if kind != want:
                return self.expect(st, False, 'codes a value as another kind')
            if want == 'Seq':
                ln, var = self.len_at(j, st, kind, p)
                if var != (k == 'VarLenSeq'):
                    return self.expect(st, False, 'codes a seq of fixed length as one of variable length or the other way round')
            n = j.segs_len(st, j.segs(st, pay(('f', w.V[k], 0))))
            return self.expect(st, self.same(st, n, st.ghost.get('gtotal', ZERO)), 'codes more or fewer elements than there are')
        self.expect(st, kind == 'Enum' and bool(st.ghost.get('gkids')), 'codes a value as another kind')

    def value_result(self, j, st, v):
        w = self.w
        cmp = Cmp(j, st)
        kind, p = self.kind_at(j, st, self.root)
        V = w.V
        lf = st.ghost.get('gleaf')
        kid = lambda *pos: ('s', w.value, ('kid',) + pos)
        vt = w.T[w.value].variants
        dest = lambda k: vt[V[k]]['fields'][0][1]
        out = lambda k, x: ('a', w.value, V[k], (x,))
        if v[0] == 'a' and v[1] != w.value:
            raise Imprecise('unknown result')
        if kind in SCALARS:
            if lf is None or lf[0] != kind:
                return self.expect(st, False, 'decodes something else')
            want = out('Scalar', ('a', dest('Scalar'), w.VS[kind], (lf[2],)))
        elif kind in ('Str', 'Bytes'):
            if lf is None or lf[0] != kind:
                return self.expect(st, False, 'decodes something else')
            want = out(kind, lf[2])
        elif kind == 'Unit':
            want = ('a', w.value, V['Unit'], ())
        elif kind == 'Option':
            ot = dest('Option')
            if lf is not None and lf[0] == 'None':
                want = out('Option', ('a', ot, 0, ()))
            else:
                want = out('Option', ('a', ot, 1, (('box', kid(('A',))),)))
        elif kind == 'Seq':
            ln, var = self.len_at(j, st, kind, p)
            n = st.ghost.get('glen', ZERO)
            want = out('VarLenSeq' if var else 'FixedLenSeq', ('vec', (('F', kid(('Q', LHOLE)), ZERO, n),)))
        elif kind == 'Tuple':
            want = out('Tuple', ('vec', (('F', kid(('T', LHOLE)), ZERO, self.count(j, st, p, 'Tuple')),)))
        elif kind == 'Struct':
            ft = w.T[dest('Struct')].args[0]
            name, inner = self.part(p, 'Struct', LHOLE)
            fs = [None, None]
            nm = self.name_at(j, st, p, 'Struct', LHOLE)
            fs[self.value_field(ft, 'name')] = nm
            fs[self.value_field(ft, 'value')] = kid(('U', LHOLE))
            want = out('Struct', ('vec', (('F', ('a', ft, 0, tuple(fs)), ZERO, self.count(j, st, p, 'Struct')),)))
        else:
            et = dest('Enum')
            o = st.ghost.get('gord')
            if o is None:
                return self.expect(st, False, 'decodes something else')
            fs = [None, None, None]
            fs[self.value_field(et, 'variant_ord')] = o
            fs[self.value_field(et, 'variant_name')] = self.name_at(j, st, p, 'Enum', o)
            fs[self.value_field(et, 'value')] = ('box', kid(('E', o)))
            want = out('Enum', ('a', et, 0, tuple(fs)))
        self.want_v = want
        self.expect(st, cmp.val(v, want), 'returns another value than the one decoded')

    def name_at(self, j, st, p, kind, i):
        """The name of part i (which may be the hole) of the schema at p."""
        w = self.w
        t = {'Struct': w.field, 'Enum': w.evar}[kind]
        segs = j.segs(st, j.proj(st, j.deref(st, p), ('f', w.S[kind], 0)))
        if len(segs) != 1 or segs[0][0] != 'F':
            raise Imprecise('parts of a schema')
        e = segs[0][1]
        e = subst(e, i)
        if e[0] != 's':
            raise Imprecise('parts of a schema')
        return ('s', w.T[t].variants[0]['fields'][w.x_name[t]][1], ('f', e[2], 0, w.x_name[t]))


def setup(w):
    """What the glue has to do with besides the coder."""
    T = w.T
    w.value = next(t.i for t in T if t.path == 'value::Value')
    w.V = {v['name']: i for i, v in enumerate(T[w.value].variants)}
    sv = next(t for t in T if t.path == 'value::ScalarValue')
    w.VS = {v['name']: i for i, v in enumerate(sv.variants)}


def drivers(prog):
    out = []
    for r in prog.roots:
        m = re.match(r'^glue::((?:de|ser|value)_\w+)$', r['path'])
        if m and m.group(1) not in out:
            out.append(m.group(1))
    return out
