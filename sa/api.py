"""The coding interface: what every Encoder and Decoder method has to do in every
abstract coder state, and the comparison of the analysed behaviour with it."""
import re
from core import *
from interp import Job
import natives as NV
import world as WD
from world import Anchor, DEPTH, NBELOW, anc_index

SCALARS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128,
           'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128,
           'f32': 32, 'f64': 64, 'char': 32, 'bool': 8}
VARIANT = {'u8': 'U8', 'u16': 'U16', 'u32': 'U32', 'u64': 'U64', 'u128': 'U128',
           'i8': 'I8', 'i16': 'I16', 'i32': 'I32', 'i64': 'I64', 'i128': 'I128',
           'f32': 'F32', 'f64': 'F64', 'char': 'Char', 'bool': 'Bool'}
LEAVES = list(SCALARS) + ['str', 'bytes', 'unit']

ENC = ['encode_' + x for x in LEAVES] + ['encode_none', 'begin_some', 'begin_fixed_len_seq', 'begin_var_len_seq',
       'begin_seq_elem', 'finish_seq', 'begin_tuple', 'begin_tuple_elem', 'finish_tuple', 'begin_struct',
       'begin_struct_field', 'finish_struct', 'begin_enum']
DEC = ['decode_' + x for x in LEAVES] + ['decode_str_into', 'decode_bytes_into', 'begin_option', 'begin_fixed_len_seq',
       'begin_var_len_seq', 'begin_seq_elem', 'finish_seq', 'begin_tuple', 'begin_tuple_elem', 'finish_tuple',
       'begin_struct', 'begin_struct_field', 'finish_struct', 'begin_enum', 'begin_enum_variant']

NEEDS = set(['begin_some', 'encode_none', 'begin_option', 'begin_fixed_len_seq', 'begin_var_len_seq', 'begin_tuple',
             'begin_struct', 'begin_enum'])


def methods(prog, which):
    out = {}
    mod = which.lower()
    for r in prog.roots:
        m = re.match(r"^%s::%s::<.*>::(\w+)$" % (mod, which), r['path'])
        if m and r.get('pub'):
            out[m.group(1)] = r
    return out


def explore(j, st, fn, cap=600):
    """Evaluates fn on a state, splitting the state where fn needs to know more."""
    work = [st]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > cap:
            out.append(('imprecise', 'too many cases'))
            break
        c = s.copy()
        try:
            r = fn(c)
            out.append(('ok', r))
        except Fork as f:
            for alt in f.alts:
                t = s.copy()
                try:
                    alt(t)
                except Infeasible:
                    continue
                work.append(t)
        except Infeasible:
            continue
        except Imprecise as e:
            out.append(('imprecise', str(e)))
    return out


INEXACT = {'ev', 'w', 'op', 'wrap', 'dif', 'sum', 'mul', 'div', 'rem', 'neg', 'junk', 'and', 'xor', 'fop', '?'}


def exact(t):
    """Made of inputs only: different names are different things."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in INEXACT:
            return False
        for e in t:
            if isinstance(e, tuple) and not exact(e):
                return False
    return True


class Cmp:
    """Three valued comparison of abstract values in a state."""
    def __init__(self, j, st):
        self.j = j
        self.st = st

    def num(self, a, b, w=None, signed=False):
        j, st = self.j, self.st
        if a == b:
            return True
        ca = j.to_const(st, a)
        cb = j.to_const(st, b)
        if ca is not None and cb is not None:
            return ca == cb
        if a[0] == 'i' and b[0] == 'i':
            r = st.zone.eq(a, b)
            if r is not None:
                return r
            if (a[1] is None or a[1][0] == 'n') and (b[1] is None or b[1][0] == 'n'):
                return False if exact(a) and exact(b) else None
        n = w
        if n is None:
            n = 0
            for v in (a, b):
                n = max(n, len(v[1]) if v[0] == 'b' else max(1, max(abs(x) for x in j.rng(st, v)).bit_length() + 1))
        x, y = j.to_bits(st, a, n, signed), j.to_bits(st, b, n, signed)
        return self.bits(x, y)

    def bits(self, x, y):
        st = self.st
        x, y = self.tight(x), self.tight(y)
        res = True
        lits = []
        for p, q in zip(x, y):
            if p == q:
                continue
            if not isinstance(p, tuple) and not isinstance(q, tuple):
                return False
            if isinstance(p, tuple) and isinstance(q, tuple) and p[:2] == q[:2]:
                return False
            if self.rounded(p, q) or self.rounded(q, p):
                return False
            if not exact(p if isinstance(p, tuple) else ()) or not exact(q if isinstance(q, tuple) else ()):
                if self.may_differ(p, q):
                    return False
                res = None
            elif res is True:
                res = False
        return res

    def rounded(self, p, q):
        """Is p of the result of float arithmetic on the number q is of, of which the path knows nothing? No such
        operation keeps every number: the bits of a NaN are not kept, and adding zero loses the sign of another."""
        if not isinstance(p, tuple) or not isinstance(q, tuple):
            return False
        n = p[0][0]
        if not (isinstance(n, tuple) and n and n[0] == 'n' and n[3][0] == 'fop' and p[0][1] == 0):
            return False
        if any(isinstance(k, tuple) and k and k[0] == 'float' for k in self.st.preds):
            return False
        for v, u in (n[3][2:], n[3][:1:-1]):
            try:
                b = self.j.to_bits(self.st, v, 64)
                if self.j.to_const(self.st, u) is not None and q in b and all(isinstance(x, tuple) for x in b[:32]) and exact(b):
                    return True
            except Imprecise:
                pass
        return False

    def tight(self, bits):
        """Applies the known bits and what the ranges of the numbers say of the high ones."""
        out = []
        rng = {}
        for b in self.st.norm_bits(bits):
            if isinstance(b, tuple):
                src = b[0]
                if src not in rng:
                    rng[src] = (0, INF)
                    if src[0] is not None and src[0] != HOLE and src[0][0] == 'n':
                        rng[src] = self.j.rng(self.st, lin(src[0], src[1]))
                lo, hi = rng[src]
                if lo >= 0 and hi < (1 << b[1]):
                    b = b[2]
                elif lo == hi:
                    b = ((lo >> b[1]) & 1) ^ b[2]
            out.append(b)
        return tuple(out)

    def may_differ(self, p, q):
        """Is there a valuation of the input bits of two combined bits that the state admits
        and under which they differ?"""
        lv = set()
        def leaves(b):
            if not isinstance(b, tuple):
                return
            n = b[0][0]
            if isinstance(n, tuple) and n and n[0] == 'op' and n[3][0] in ('and', 'xor'):
                leaves(n[3][1])
                leaves(n[3][2])
            elif b[:2] not in self.st.bits:
                lv.add(b[:2])
        def value(b, env):
            if not isinstance(b, tuple):
                return b
            k = self.st.bits.get(b[:2])
            if k is None:
                k = env.get(b[:2])
            if k is None:
                n = b[0][0][3]
                x, y = value(n[1], env), value(n[2], env)
                k = x & y if n[0] == 'and' else x ^ y
            return k ^ b[2]
        leaves(p)
        leaves(q)
        if len(lv) > 8 or not all(exact(x) for x in lv):
            return False
        lv = sorted(lv, key=repr)
        for m in range(1 << len(lv)):
            env = {k: (m >> i) & 1 for i, k in enumerate(lv)}
            if value(p, env) != value(q, env):
                t = self.st.copy()
                try:
                    for k, v in env.items():
                        t.assume_lit(k, v)
                except Infeasible:
                    continue
                return True
        return False

    def val(self, a, b):
        j, st = self.j, self.st
        if a == b:
            return True
        if a is None or b is None:
            return None
        if a[0] in ('i', 'b') and b[0] in ('i', 'b'):
            return self.num(a, b)
        if a[0] == 's' or b[0] == 's':
            if a[0] != 's':
                a, b = b, a
            t = j.types[a[1]]
            if b[0] == 's':
                return self.tree(a[2], b[2]) if a[1] == b[1] else None
            if b[0] == 'a' and b[1] is not None:
                if t.adt == 'enum':
                    vs = j.variants(st, a)
                    if b[2] not in vs:
                        return False
                    if len(vs) > 1:
                        return False if exact(a) else None
                    return self.val(j.expand_variant(a, b[2]), b)
                e = j.expand(a)
                if e[0] == 'a':
                    return self.val(e, b)
            if b[0] in ('vec', 'seq'):
                return self.segs(j.segs(st, a), b[1])
            return None
        if a[0] != b[0]:
            return None
        if a[0] == 'a':
            if a[2] != b[2] or len(a[3]) != len(b[3]):
                return False
            return self.all(self.val(x, y) for x, y in zip(a[3], b[3]))
        if a[0] in ('vec', 'seq'):
            return self.segs(a[1], b[1])
        if a[0] == 'box':
            return self.val(a[1], b[1])
        return self.tree(a, b)

    def all(self, it):
        r = True
        for x in it:
            if x is False:
                return False
            if x is None:
                r = None
        return r

    def tree(self, a, b):
        """Names and pointers."""
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return False
        if len(a) == 3 and len(b) == 3 and a[0] == 'i' and b[0] == 'i':
            return self.num(a, b)
        if len(a) != len(b):
            return False if exact(a) and exact(b) else None
        r = self.all(self.tree(x, y) for x, y in zip(a, b))
        if r is False and not (exact(a) and exact(b)):
            return None
        return r

    def segs(self, a, b):
        j, st = self.j, self.st
        a = list(NV.norm_segs(j, st, a))
        b = list(NV.norm_segs(j, st, b))
        res = True
        while a or b:
            if not a or not b:
                s = (a or b)[0]
                n = j.seg_len(st, s)
                if j.to_const(st, n) == 0:
                    (a or b).pop(0)
                    continue
                if not j.lt(st, ZERO, n):
                    (a or b).pop(0)
                    continue
                return False
            x, y = a[0], b[0]
            if x[0] == 'F' and not j.lt(st, ZERO, j.seg_len(st, x)):
                a.pop(0)
                continue
            if y[0] == 'F' and not j.lt(st, ZERO, j.seg_len(st, y)):
                b.pop(0)
                continue
            if x[0] == 'C' and y[0] == 'C':
                n = min(len(x[1]), len(y[1]))
                if x[1][:n] != y[1][:n]:
                    return False
                a[0:1] = [('C', x[1][n:])] if x[1][n:] else []
                b[0:1] = [('C', y[1][n:])] if y[1][n:] else []
                continue
            if x[0] == 'F' and y[0] == 'F':
                if x[1] == y[1]:
                    r = self.num(x[2], y[2])
                elif has_hole(x[1]) or has_hole(y[1]):
                    r = False if exact(x[1]) and exact(y[1]) else None
                    # different families: compare one element
                    if r is False:
                        r = self.val(subst(x[1], x[2]), subst(y[1], y[2]))
                        if r is True:
                            r = None
                else:
                    r = self.val(x[1], y[1])
                res = self.all((res, r))
                if res is False:
                    return False
                n, m = j.seg_len(st, x), j.seg_len(st, y)
                if j.eqi(st, n, m):
                    a.pop(0)
                    b.pop(0)
                elif j.lt(st, n, m):
                    a.pop(0)
                    b[0] = ('F', y[1], j.add_int(st, y[2], n, 1), y[3])
                else:
                    b.pop(0)
                    a[0] = ('F', x[1], j.add_int(st, x[2], m, 1), x[3])
                continue
            # one element
            xe, ye = j.seg_elem(st, x, ZERO), j.seg_elem(st, y, ZERO)
            res = self.all((res, self.val(xe, ye)))
            if res is False:
                return False
            for l, s in ((a, x), (b, y)):
                if s[0] == 'S':
                    l.pop(0)
                elif s[0] == 'C':
                    l[0:1] = [('C', s[1][1:])] if s[1][1:] else []
                else:
                    l[0] = ('F', s[1], j.add_int(st, s[2], ONE, 1), s[3])
        return res


class V:
    """A difference between the analysed and the specified behaviour."""
    def __init__(self, prop, msg):
        self.prop = prop
        self.msg = msg


class Check:
    """Checks one outcome of one method from one class of states."""
    def __init__(self, run, st, kind, val):
        self.run = run
        self.w = run.w
        self.j = run.j
        self.info = run.info
        self.st = st
        self.kind = kind
        self.ret = val
        self.viol = []
        self.notes = []

    def bad(self, prop, msg):
        self.viol.append((prop, msg))

    def unsure(self, msg):
        self.notes.append(msg)

    def must(self, r, prop, msg):
        if r is False:
            self.bad(prop, msg)
        elif r is None:
            self.unsure(msg)

    # ----------------------------------------------------------- pieces

    def result(self):
        v = self.ret
        if v[0] != 'a':
            raise Imprecise('unknown result')
        if self.j.types[v[1]].path != 'core::result::Result':
            return ('ok', v)
        return ('ok' if v[2] == 0 else 'err', v[3][0])

    def err(self, e):
        """(kind name, source, coder state option) of an error value."""
        j, w, st = self.j, self.w, self.st
        if e[0] == 's':
            e = j.expand(e)
        if e[0] != 'a' or e[1] != w.error:
            raise Imprecise('unknown error value')
        kind = src = cs = None
        for f, v in zip(w.T[w.error].variants[0]['fields'], e[3]):
            if f[1] == w.kind:
                kind = v
            elif w.T[f[1]].box:
                src = v
            else:
                cs = v
        k = j.variant(st, kind)
        name = w.T[w.kind].variants[k]['name']
        if src is not None and src[0] == 'box':
            src = src[1]
            if src[0] == 'dynv':
                src = src[2]
        return name, src, cs

    def cs(self):
        return self.st.mem[self.info['cs']]

    def unchanged(self, prop, what):
        """The coder state is as it was."""
        j, w, st = self.j, self.w, self.st
        cmp = Cmp(j, st)
        cs = self.cs()
        old = self.run.pre
        for i in range(w.nstate):
            name = w.T[w.state].variants[0]['fields'][i][0]
            self.must(cmp.val(cs[3][i], old[3][i]), prop, '%s but changes `%s` of the coder state' % (what, name))

    def unchanged_but_log(self, prop, what):
        pass

    def broken(self):
        b = self.cs()[3][self.w.f_broken]
        return self.j.truth(self.st, b)

    def no_io(self, prop, what):
        st = self.st
        if self.run.which == 'Encoder':
            out = NV.norm_segs(self.j, st, st.ghost.get('out', ()))
            if out and self.j.lt(st, ZERO, self.j.segs_len(st, out)):
                self.bad(prop, '%s but has written to the output' % what)
        else:
            if st.ghost.get('pos', ZERO) != ZERO or st.ghost.get('partial'):
                if self.j.lt(st, ZERO, st.ghost.get('pos', ONE)):
                    self.bad(prop, '%s but has consumed input' % what)
        if st.ghost.get('iofail') is not None:
            self.bad(prop, '%s but has done I/O' % what)

    # ----------------------------------------------------------- the stack

    def stack(self):
        return self.j.segs(self.st, self.cs()[3][self.w.f_stack])

    def expect_stack(self, exp, prop, what):
        r = Cmp(self.j, self.st).segs(self.stack(), exp)
        self.must(r, prop, what)

    def with_top(self, api):
        w = self.w
        top = self.info['top']
        fs = list(top[3])
        fs[w.f_api] = api
        below = tuple(self.info['segs'][:-1])
        return below + (('S', ('a', w.frame, 0, tuple(fs))),)

    def api(self, variant, **fields):
        w = self.w
        fs = w.T[w.api].variants[w.A[variant]]['fields']
        vals = [None] * len(fs)
        for i, f in enumerate(fs):
            if f[0] not in fields:
                raise Anchor('state %s has a field %s' % (variant, f[0]))
            vals[i] = fields[f[0]]
        return ('a', w.api, w.A[variant], tuple(vals))

    def check_pop(self, what):
        """One frame and all that finish with it are gone."""
        j, w, st = self.j, self.w, self.st
        if st.ghost.get('badpop'):
            self.bad('C01', '%s removes %s from the coding stack' % (what, st.ghost['badpop']))
            return
        segs = NV.norm_segs(j, st, self.stack())
        below = self.info['below']
        n = j.segs_len(st, segs)
        if j.lt(st, below, n):
            self.bad('C01', '%s but the coder still has the finished value on its stack' % what)
            return
        fam = self.info['segs'][:-1]
        # a prefix of what was below
        exp = j.seq_slice(st, fam, ZERO, n) if fam else ()
        r = Cmp(j, st).segs(segs, exp)
        self.must(r, 'C01', '%s and changes frames further down' % what)
        if r is not True:
            return
        if j.lt(st, n, below) and not st.ghost.get('pops'):
            raise Imprecise('frames removed in an unknown way')
        if not j.lt(st, ZERO, n):
            return
        last = j.seq_get(st, segs, j.add_int(st, n, ONE, -1))
        if last[0] == 's':
            last = j.expand(last)
        vs = j.variants(st, last[3][w.f_api])
        if w.A['AutoFinish'] in vs:
            if len(vs) == 1 or j.is_variant(st, last[3][w.f_api], frozenset((w.A['AutoFinish'],))):
                self.bad('C01', '%s but leaves an option or enum whose content is complete unfinished' % what)

    def check_push(self, api, child, what):
        """The top frame has the new state, above it is a frame for the child."""
        j, w, st = self.j, self.w, self.st
        below = self.info['below']
        base = self.with_top(api)
        sch = j.deref(st, child)
        if j.is_variant(st, sch, frozenset((w.S['Recurse'],))):
            n = j.as_lin(st, j.proj(st, sch, ('f', w.S['Recurse'], 0)))
            # level n: n - 1 levels up from the schema that contains the child
            ok = self.levels(n)
            if ok is False:
                return ('illegal', None)
            k = j.add_int(st, n, ONE, -1)
            if j.eqi(st, k, ZERO):
                ptr = self.info['top'][3][w.f_schema]
                par = ('s', w.optusize, ('par', ZERO))
            else:
                ptr = ('p', ('O', ('ancsch', k), w.schema), (), None)
                par = ('s', w.optusize, ('par', k))
            tag = 'rec'
        else:
            ptr = child
            par = ('a', w.optusize, 1, (below,))
            tag = 'plain'
        return ('legal', (base, ptr, par, tag))

    def levels(self, n):
        """Is recurse level n within the schema tree? (n - 1 <= DEPTH, n > 0)"""
        j, st = self.j, self.st
        if not j.lt(st, ZERO, n):
            return False
        k = j.add_int(st, n, ONE, -1)
        # ancestors 0 ..= DEPTH exist
        return j.le(st, k, lin(DEPTH))

    def compare_push(self, spec, what):
        j, w, st = self.j, self.w, self.st
        base, ptr, par, tag = spec
        segs = self.stack()
        n = j.segs_len(st, segs)
        want = j.add_int(st, self.info['below'], I(2), 1)
        r = Cmp(j, st).num(n, want)
        self.must(r, 'C01', '%s but does not leave exactly one new frame for the inner value' % what)
        if r is not True:
            return
        newf = j.seq_get(st, segs, j.add_int(st, n, ONE, -1))
        rest = j.seq_slice(st, segs, ZERO, j.add_int(st, n, ONE, -1))
        self.must(Cmp(j, st).segs(rest, base), 'C01', '%s but leaves the container in a wrong state' % what)
        if newf[0] == 's':
            newf = j.expand(newf)
        fs = newf[3]
        c = Cmp(j, st)
        self.must(c.val(fs[w.f_api], ('a', w.api, w.A['Need'], ())), 'C01', '%s but the inner value is not what is needed next' % what)
        p1 = 'C09' if tag == 'rec' else 'C01'
        self.must(self.same_schema(fs[w.f_schema], ptr), p1, '%s but the schema needed next is not %s' % (
            what, 'the one that many levels up' if tag == 'rec' else 'that of the inner value'))
        self.must(c.val(fs[w.f_parent], par), 'C09', '%s but the place of the inner value in the schema tree is wrong' % what)

    def same_schema(self, a, b):
        c = Cmp(self.j, self.st)
        return c.tree(a, b)

    # ----------------------------------------------------------- the log

    def check_log(self):
        j, w, st = self.j, self.w, self.st
        cs = self.cs()
        log = cs[3][w.f_log]
        if j.is_variant(st, log, frozenset((0,))):
            if st.ghost.get('loglines'):
                self.bad('C16', 'log lines without a log')
            return
        if st.ghost.get('logunk'):
            self.unsure('log output not understood')
            return
        dl = j.proj(st, log, ('f', 1, 0))
        if dl[0] == 's':
            dl = j.expand(dl)
        indent = dl[3][w.f_indent]
        bal = st.ghost['bal']
        c = Cmp(j, st)
        self.must(c.num(indent, bal), 'C16', 'the indentation of the log does not follow its open lines')
        if self.broken() or self.info['broken']:
            return
        # number of containers before and after
        segs = self.stack()
        n = j.segs_len(st, segs)
        nb = n
        if j.lt(st, ZERO, n):
            last = j.seq_get(st, segs, j.add_int(st, n, ONE, -1))
            if last[0] == 's':
                last = j.expand(last)
            if j.is_variant(st, last[3][w.f_api], frozenset((w.A['Need'],))):
                nb = j.add_int(st, n, ONE, -1)
        self.must(c.num(nb, bal), 'C16',
                  'the log opens or closes a container line that the coding does not')

    # ----------------------------------------------------------- input and output

    def out_split(self):
        """(leading single bytes as bit tuples, remaining segments)"""
        j, st = self.j, self.st
        segs = list(NV.norm_segs(j, st, st.ghost.get('out', ())))
        by = []
        while segs:
            s = segs[0]
            if s[0] == 'S':
                by.append(j.to_bits(st, s[1], 8))
            elif s[0] == 'C':
                by += [tuple((b >> i) & 1 for i in range(8)) for b in s[1]]
            else:
                break
            segs.pop(0)
        return by, tuple(segs)

    def expect_bytes(self, want, what, partial=False):
        """The output is exactly these bytes (bit tuples)."""
        by, rest = self.out_split()
        c = Cmp(self.j, self.st)
        if rest:
            self.bad('C04', '%s: writes more than the format has' % what) if not partial else self.unsure(what)
            return
        if len(by) > len(want) or (not partial and len(by) != len(want)):
            self.bad('C04', '%s: writes %d bytes where the format has %d' % (what, len(by), len(want)))
            return
        for k, (a, b) in enumerate(zip(by, want)):
            self.must(c.bits(a, b), 'C04', '%s: byte %d is not what the format says' % (what, k))

    def varint(self, bits, neg, what, tail=None, partial=False):
        """The output is the shortest variable length form of the number with these
        bits (without sign), preceded by the sign if there is one, then the tail."""
        j, st = self.j, self.st
        by, rest = self.out_split()
        c = Cmp(j, st)
        bits = st.norm_bits(bits)
        if tail is None and rest:
            if partial:
                self.unsure(what)
            else:
                self.bad('C04', '%s: writes more than the format has' % what)
            return
        # known length?
        first = 6 if neg is not None else 7
        def bits_of(k):
            if k == 0:
                a, b = 0, first
            else:
                a, b = first + 7 * (k - 1), first + 7 * k
            x = bits[a:b]
            return x + (0,) * (b - a - len(x))
        def more_after(k):
            """Are there one bits above those of byte k?"""
            a = first + 7 * k
            hi = bits[a:]
            if all(b == 0 for b in hi):
                return False
            if any(b == 1 for b in hi):
                return True
            return not j.bits_eq(st, hi, (0,) * len(hi))
        k = 0
        while True:
            if k >= len(by):
                if partial:
                    if rest:
                        self.unsure(what)
                    return
                if rest:
                    raise Imprecise('variable length number of unknown length')
                self.bad('C04', '%s: the number is cut off after %d bytes' % (what, k))
                return
            m = more_after(k)
            b = st.norm_bits(bits_of(k))
            want = b + ((neg,) if neg is not None and k == 0 else ()) + ((1 if m else 0),)
            self.must(c.bits(by[k][:7], want[:7]), 'C04', '%s: byte %d of the number is not what the format says' % (what, k))
            if not m and st.norm_bits(by[k])[7] == 1:
                self.bad('C04', '%s: the number takes more bytes than it needs' % what)
            else:
                self.must(c.bits(by[k][7:], want[7:]), 'C04', '%s: byte %d of the number has a wrong continuation bit' % (what, k))
            if self.viol:
                return
            k += 1
            if not m:
                break
        rs = tuple(('S', ('b', b)) for b in by[k:]) + rest
        if tail is None:
            if rs:
                self.bad('C04', '%s: writes %d bytes more than the format has' % (what, len(by) - k))
            return
        if partial:
            if rs:
                self.unsure('output of a failed call')
            return
        r = Cmp(j, st).segs(rs, tail)
        self.must(r, 'C04', '%s: the contents are not written as they are' % what)

    def ordinal(self, o, count, what, partial=False):
        """The output is the ordinal in the fewest bytes that hold count - 1."""
        j, st = self.j, self.st
        by, rest = self.out_split()
        if rest:
            raise Imprecise('ordinal of unknown length')
        n = 0
        mx = j.add_int(st, count, ONE, -1)
        while not j.lt(st, mx, I(256 ** n)):
            n += 1
        if len(by) > n or (len(by) != n and not partial):
            self.bad('C04', '%s: writes the ordinal in %d bytes where the greatest ordinal takes %d' % (what, len(by), n))
            return
        bits = j.to_bits(st, o, 64)
        c = Cmp(j, st)
        for k, b in enumerate(by):
            self.must(c.bits(b, bits[8 * k:8 * k + 8]), 'C04', '%s: byte %d of the ordinal is wrong' % (what, k))

    # input

    def pos(self):
        return self.st.ghost.get('pos', ZERO)

    def unread(self):
        return self.st.zone.le(self.pos(), ZERO) is True

    def rd(self, k):
        return self.j.to_bits(self.st, WD.rd_byte(I(k)), 8)

    def consumed(self, n, what):
        self.must(Cmp(self.j, self.st).num(self.pos(), n if isinstance(n, tuple) else I(n)), 'C05',
                  '%s: does not consume exactly the bytes of the value' % what)

    def read_varint(self, width, signed, what, tail=False):
        """Walks the variable length number at the start of the input.
        (bits, sign, bytes, status): status 'ok', 'over' (out of the range of the type),
        'loose' (more bytes than needed) or 'cut' (read bytes end before the number)."""
        j, st = self.j, self.st
        p = j.to_const(st, self.pos())
        bits = ()
        sign = None
        k = 0
        lim = width - 1 if signed else width
        loose = False
        while True:
            if p is not None and k >= p:
                return bits, sign, k, 'cut', loose
            b = self.rd(k)
            if k == 0 and signed:
                bits = b[:6]
                sign = b[6]
            else:
                bits = bits + b[:7]
            more = j.bits_eq(st, b[7:8], (1,))
            k += 1
            hi = st.norm_bits(bits[lim:])
            if any(x != 0 for x in hi) and not j.bits_eq(st, hi, (0,) * len(hi)):
                return bits, sign, k, 'over', loose
            if not more:
                break
            if len(bits) >= lim:
                loose = True
            if k > 40:
                raise Imprecise('long number')
        bits = st.norm_bits(bits)
        bits = (bits + (0,) * 128)[:width]
        if signed:
            bits = tuple(j.xor_bit(b, sign) if isinstance(sign, tuple) else (j.neg_bit(b) if sign else b) for b in bits)
            bits = st.norm_bits(bits)
        return bits, sign, k, 'ok', loose


class Run:
    """One method from one class of states."""
    def __init__(self, w, which, name, root, cls, n=None):
        self.w = w
        self.which = which
        self.name = name
        self.root = root
        self.cls = cls
        self.n = n
        self.violations = []    # (prop, msg, detail)
        self.notes = {}
        self.outcomes = 0
        self.cases = 0
        self.allocs = []
        self.stats = {"widen": 0, "steps": 0}
        self.visited = set()

    def go(self):
        w = self.w
        p = w.prog
        j = self.j = WD.new_job(w)
        j.hooks['alloc'] = self.on_alloc
        st = State()
        self.info = WD.build_state(w, j, st, self.cls, self.n)
        if self.info is None:
            return False
        self.prepare(st)
        self.pre = st.mem[self.info['cs']]
        b = p.bodies[self.root['body']]
        et = p.types[b.locals[1]].to
        if et is None:
            raise Anchor('self of ' + self.name)
        obj = ('O', 'enc', et)
        vals = []
        ncs = 0
        for f in p.types[et].variants[0]['fields']:
            t = p.types[f[1]]
            if t.to is not None and p.types[t.to].path == 'coder::coder::CoderState':
                vals.append(('p', self.info['cs'], (), None))
                ncs += 1
            else:
                vals.append(('p', ('O', 'io', t.to), (), None) if t.to is not None else j.sym(f[1], ('encf', len(vals))))
        if ncs != 1:
            raise Anchor('coder state of ' + self.which)
        st.mem[obj] = ('a', et, 0, tuple(vals))
        self.args = [j.sym(b.locals[i], ('arg', i)) for i in range(2, b.argc + 1)]
        outs = j.run(self.root['body'], [('p', obj, (), None)] + self.args, st)
        for o in outs:
            self.outcome(o)
        self.visited = j.visited_bodies
        self.stats = j.stats
        return True

    def prepare(self, st):
        pass

    def on_alloc(self, j, st, c, n):
        lo, hi = j.rng(st, j.as_lin(st, n))
        if hi <= 1 << 16:
            return
        if j.st_le(st, n, st.ghost.get('pos', ZERO)) if hasattr(j, 'st_le') else st.zone.le(j.as_lin(st, n), st.ghost.get('pos', ZERO)):
            return
        self.allocs.append((c.name, j.where(st), names(n)))

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def outcome(self, o):
        kind, st, v = o
        self.outcomes += 1
        if kind == 'imprecise':
            self.note(v)
            return
        if kind == 'panic':
            # reached only if the state is feasible, as far as the analysis can tell
            self.violations.append(('C07', 'can panic: ' + v, self.log_of(st)))
            return
        def fn(s):
            c = Check(self, s, kind, v)
            spec(c)
            sh = s.ghost.get('short')
            if sh and any(p in ('C01', 'C04', 'C05', 'C06') for p, m in c.viol):
                c.viol.append(('C17', 'how much a %s has done is ignored' % sh))
            return (c.viol, c.notes, self.log_of(s))
        for r in explore(self.j, st, fn):
            self.cases += 1
            if r[0] == 'imprecise':
                self.note(r[1])
                continue
            viol, notes, lg = r[1]
            for n in notes:
                self.note('undecided: ' + n)
            for p, m in viol:
                self.violations.append((p, m, lg))

    def log_of(self, st):
        f = st.facts.get('log')
        if f is None:
            return 'any'
        return {frozenset((0,)): 'none', frozenset((1,)): 'log'}.get(f, 'any')


def names(v):
    out = set()
    def go(t):
        if isinstance(t, tuple):
            if t and isinstance(t[0], str) and t[0] in ('rd', 'arg', 'sch', 'len', 'f'):
                out.add(t[0])
            for e in t:
                go(e)
    go(v)
    return sorted(out)


# ------------------------------------------------------------------ the specification

FATAL = ('Io', 'MalformedData', 'PlatformLimits', 'IllegalSchema')
REFUSE = ('ApiUsage', 'SchemaNonConformance')


def spec(c):
    """Compares one outcome with what the method is to do."""
    st, j, w = c.st, c.j, c.w
    cls = c.info['cls']
    name = c.run.name
    tag, v = c.result()
    kind = src = None
    if tag == 'err':
        kind, src, _ = c.err(v)
    fatal_rules(c, tag, kind, src)
    if cls == 'broken':
        if tag == 'ok':
            c.bad('C03', 'a failed coder accepts the call')
        elif kind != 'ApiUsage':
            c.bad('C03', 'a failed coder refuses the call with %s' % kind)
        c.no_io('C03', 'a failed coder refuses the call')
        if not c.broken():
            c.bad('C03', 'a failed coder is taken for intact again')
        c.check_log()
        return
    if tag == 'err' and kind in REFUSE:
        c.no_io('C02', 'the call is refused')
        c.unchanged('C02', 'the call is refused')
    if cls == 'empty':
        if tag == 'ok':
            c.bad('C01', 'a finished coder accepts the call')
        elif kind in FATAL and kind != 'Io':
            c.bad('C01', 'a finished coder fails with %s' % kind)
        c.check_log()
        return
    legal = False
    if cls == 'needrec':
        if tag == 'ok':
            c.bad('C09', 'a recurse at the root of the schema is accepted')
        elif name_needs(name) and kind != 'IllegalSchema':
            c.bad('C09', 'a recurse at the root of the schema is reported as %s, not as an illegal schema' % kind)
        c.check_log()
        return
    f = STEP.get((c.run.which, name))
    f(c, tag, v, kind)
    c.check_log()


def name_needs(name):
    return name in NEEDS or name.startswith('encode_') or name.startswith('decode_')


def fatal_rules(c, tag, kind, src):
    """What holds for every call, whatever it is."""
    st = c.st
    WD.retried(c.j, st)
    fail = st.ghost.get('iofail')
    if st.ghost.get('ioafter'):
        c.bad('C17', 'does more I/O after an I/O error')
    if st.ghost.get('late') is not None:
        c.bad('C17', 'an I/O error is lost with a buffer')
    if fail is not None:
        if tag == 'ok':
            c.bad('C17', 'an I/O error is ignored')
        elif kind != 'Io':
            c.bad('C17', 'an I/O error is reported as %s' % kind)
        elif src != ('op', 'ioerr', fail):
            if src is not None and src[0] == 'op' and src[1].startswith('ioerr'):
                c.bad('C17', 'the I/O error is replaced by another one')
            else:
                c.unsure('source of the I/O error')
    elif kind == 'Io' and not st.ghost.get('eof'):
        c.bad('C17', 'an I/O error is reported although none happened')
    if st.ghost.get('unbounded_read'):
        c.bad('C05', 'reads more of the input than belongs to the value')
    if tag == 'err' and kind in FATAL:
        if not c.broken():
            c.bad('C03', 'fails with %s but the coder is not marked as failed' % kind)
    elif c.info['cls'] != 'broken' and c.broken():
        c.bad('C02' if tag == 'err' else 'C01', '%s but the coder is marked as failed' % (
            'the call is refused' if tag == 'err' else 'the call succeeds'))


def expect_legal(c, legal, tag, kind, what, data=False):
    """Whether the comparison goes on: the call is legal and succeeded."""
    if not legal:
        if tag == 'ok':
            c.bad('C01', 'accepted although the schema or the call order does not allow %s' % what)
        elif kind in FATAL and not data:
            if kind == 'IllegalSchema' or kind == 'MalformedData' or kind == 'PlatformLimits':
                c.bad('C01', 'an illegal call (%s) fails with %s instead of being refused' % (what, kind))
        return False
    if tag == 'ok':
        return True
    if kind in REFUSE:
        c.bad('C01', 'refused (%s) although %s is the legal next step' % (kind, what))
    return False


def sch_field(c, variant, i=0):
    return c.j.proj(c.st, c.info['sch'], ('f', c.w.S[variant], i))


def is_sch(c, variant):
    return c.j.is_variant(c.st, c.info['sch'], frozenset((c.w.S[variant],)))


def sptr(c, *path):
    return ('p', ('O', 'sch', c.w.schema), tuple(path), None)


def no_kind(c, kind, what, ok=('Io',)):
    if kind in FATAL and kind not in ok:
        c.bad('C01', '%s, legal here, fails with %s' % (what, kind))


def simple(c, tag, kind, legal, what):
    return expect_legal(c, legal, tag, kind, what)


def leaf(sc):
    def enc(c, tag, v, kind):
        what = 'a ' + sc
        if c.info['cls'] != 'need':
            expect_legal(c, False, tag, kind, what)
            return
        legal = leaf_legal(c, sc)
        io = tag == 'err' and kind == 'Io'
        if legal and tag == 'err':
            no_kind(c, kind, what)
        if not expect_legal(c, legal, tag, kind, what) and not (legal and io):
            return
        if not io:
            c.check_pop(what)
        encode_leaf(c, sc, what, io)

    def dec(c, tag, v, kind):
        what = 'a ' + sc
        if c.info['cls'] != 'need':
            expect_legal(c, False, tag, kind, what)
            return
        legal = leaf_legal(c, sc)
        if not expect_legal(c, legal, tag, kind, what) and not (legal and (kind in FATAL or not c.unread())):
            return
        if tag == 'ok':
            c.check_pop(what)
        decode_leaf(c, sc, what, tag, v, kind)
    return enc, dec


def leaf_legal(c, sc):
    if sc == 'str':
        return scalar_or(c, 'Str')
    if sc == 'bytes':
        return scalar_or(c, 'Bytes')
    if sc == 'unit':
        return scalar_or(c, 'Unit')
    return scalar_or(c, VARIANT[sc])


def scalar_or(c, name):
    w, j, st = c.w, c.j, c.st
    if name in w.S:
        return is_sch(c, name)
    if not is_sch(c, 'Scalar'):
        return False
    return j.is_variant(st, sch_field(c, 'Scalar'), frozenset((w.SC[name],)))


def encode_leaf(c, sc, what, partial):
    j, st = c.j, c.st
    if sc == 'unit':
        c.expect_bytes([], what, partial)
        return
    a = c.run.args[0]
    if sc in ('str', 'bytes'):
        n = a[3][2]
        segs = j.deref_segs(st, a)
        c.varint(j.to_bits(st, n, 64), None, what, segs, partial)
        return
    if sc == 'bool':
        b = j.to_bits(st, a, 1)
        c.expect_bytes([b + (0,) * 7], what, partial)
        return
    n = SCALARS[sc]
    if sc in ('u32', 'u64', 'u128', 'char'):
        c.varint(j.to_bits(st, a, n), None, what, None, partial)
        return
    if sc in ('i32', 'i64', 'i128'):
        bits = j.to_bits(st, a, n, True)
        s = bits[-1]
        if isinstance(s, tuple):
            s = 1 if j.bits_eq(st, (s,), (1,)) else 0
            bits = st.norm_bits(bits)
        m = tuple(j.neg_bit(b) for b in bits) if s else bits
        c.varint(m[:-1], s, what, None, partial)
        return
    bits = j.to_bits(st, a, n, sc[0] == 'i')
    c.expect_bytes([bits[8 * k:8 * k + 8] for k in range(n // 8)], what, partial)


def value_is(c, v, bits, what, signed=False):
    j, st = c.j, c.st
    if v[0] not in ('i', 'b'):
        raise Imprecise('value')
    x = j.to_bits(st, v, len(bits), signed)
    c.must(Cmp(j, st).bits(x, bits), 'C05', '%s: the value is not that of the bytes read' % what)


def malformed_or_io(c, tag, kind, bad, what, either=False):
    """Outcome of reading data that is malformed (bad), or may be refused (either)."""
    if tag == 'ok':
        if bad:
            c.bad('C06', '%s: malformed bytes are decoded to some value' % what)
            return False
        return True
    if kind == 'Io':
        return False
    if bad or either:
        if kind != 'MalformedData':
            c.bad('C06', '%s: malformed bytes are reported as %s' % (what, kind))
        return False
    c.bad('C01' if kind != 'MalformedData' else 'C06', '%s: fails with %s on well formed bytes' % (what, kind))
    return False


def decode_leaf(c, sc, what, tag, v, kind):
    j, st = c.j, c.st
    if kind == 'Io':
        return
    if sc == 'unit':
        if tag == 'err':
            c.bad('C01', 'a unit fails with %s' % kind)
        c.consumed(0, what)
        return
    if sc in ('str', 'bytes'):
        return decode_text(c, sc, what, tag, v, kind)
    n = SCALARS[sc]
    if sc == 'bool':
        b = c.rd(0)
        bad = any(x == 1 for x in b[1:]) or not j.bits_eq(st, b[1:], (0,) * 7)
        if malformed_or_io(c, tag, kind, bad, what):
            value_is(c, v, c.rd(0)[:1], what)
            c.consumed(1, what)
        return
    if sc in ('u32', 'u64', 'u128', 'char') or sc in ('i32', 'i64', 'i128'):
        signed = sc[0] == 'i'
        bits, sign, k, status, loose = c.read_varint(n, signed, what)
        if status == 'cut':
            if tag == 'ok':
                c.bad('C05', '%s: succeeds before the number ends' % what)
            elif not loose:
                c.bad('C06', '%s: fails with %s although the bytes read so far are well formed' % (what, kind))
            elif kind != 'MalformedData':
                c.bad('C06', '%s: too many bytes are reported as %s' % (what, kind))
            return
        bad = status == 'over'
        if sc == 'char' and not bad:
            bits = st.norm_bits(bits)
            ok = scalar_value(c, bits)
            bad = not ok
        if malformed_or_io(c, tag, kind, bad, what, loose):
            value_is(c, v, bits, what, signed)
            c.consumed(k, what)
        return
    if malformed_or_io(c, tag, kind, False, what):
        bits = ()
        for k in range(n // 8):
            bits += c.rd(k)
        value_is(c, v, bits, what, sc[0] == 'i')
        c.consumed(n // 8, what)


def scalar_value(c, bits):
    """Is the number a unicode scalar value? Decided as the analysed code decides it,
    or from the bits."""
    j, st = c.j, c.st
    r = st.preds.get(('scalar', tuple(bits)))
    if r is not None:
        return r
    hi = bits[21:]
    if any(b != 0 for b in hi) and not j.bits_eq(st, hi, (0,) * len(hi)):
        return False
    bits = st.norm_bits(bits)
    n = ('b', bits)
    if not j.cmp_bits(st, 'lt', bits, 0x110000, 32, False, n):
        return False
    bits = st.norm_bits(bits)
    # surrogates: 0000 0000 0000 0000 1101 1xxx
    pat = tuple((0xD800 >> i) & 1 for i in range(11, 32))
    return not j.bits_eq(st, bits[11:], pat)


def decode_text(c, sc, what, tag, v, kind):
    j, st = c.j, c.st
    # the length
    if st.ghost.get('lenread') is None:
        pass
    n, k, status, loose = length(c, what)
    if status == 'cut':
        if tag == 'ok':
            c.bad('C05', '%s: succeeds before the length ends' % what)
        elif not loose:
            c.bad('C06', '%s: fails with %s although the bytes read so far are well formed' % (what, kind))
        return
    if status == 'over':
        # longer than memory: malformed or beyond the platform
        if tag == 'ok':
            c.bad('C06', '%s: a length out of range is accepted' % what)
        elif kind not in ('MalformedData', 'PlatformLimits'):
            c.bad('C06', '%s: a length out of range is reported as %s' % (what, kind))
        return
    end = j.add_int(st, n, I(k), 1)
    segs = (('F', WD.byte_tmpl(), I(k), end),)
    if sc == 'str' and c.run.name.startswith('decode'):
        # is it text? as the code asked
        if tag == 'ok':
            ok = text_known(c, segs)
            if ok is False:
                c.bad('C06', '%s: text that is not UTF-8 is accepted' % what)
            elif ok is None:
                c.bad('C06', '%s: text is accepted without looking whether it is UTF-8' % what)
        elif kind == 'MalformedData' and not loose:
            if text_known(c, segs) is not False:
                c.bad('C06', '%s: fails with MalformedData on well formed bytes' % what)
        elif kind == 'PlatformLimits':
            c.bad('C01', '%s: fails with PlatformLimits on a length in range' % what)
    elif tag == 'err':
        if not (loose and kind == 'MalformedData'):
            c.bad('C06', '%s: fails with %s on well formed bytes' % (what, kind))
    if tag != 'ok':
        return
    val = v
    if c.run.name.endswith('_into'):
        val = j.deref(st, c.run.args[0])
    r = Cmp(j, st).segs(j.segs(st, val), segs)
    c.must(r, 'C05', '%s: the contents are not the bytes read' % what)
    c.consumed(end, what)


def text_known(c, segs):
    st, j = c.st, c.j
    n = j.segs_len(st, segs)
    if j.to_const(st, n) == 0 or st.zone.le(n, ZERO):
        if any(p[0] == 'utf8' and not r and Cmp(j, st).num(j.segs_len(st, p[1]), ZERO) is True for p, r in st.preds.items()):
            raise Infeasible()
        return True
    want = NV.norm_segs(j, st, segs)
    cm = Cmp(j, st)
    for p, r in st.preds.items():
        if p[0] == 'utf8' and cm.segs(p[1], want) is True:
            return r
    b = NV.const_bytes(j, st, segs)
    if b is not None:
        return True
    return None


def length(c, what):
    """The length at the start of the input: (lin, bytes, status, loose)."""
    j, st = c.j, c.st
    # the position is behind the contents; walk by the bits alone
    k = 0
    bits = ()
    loose = False
    while True:
        p = c.pos()
        if st.zone.le(p, I(k)):
            return None, k, 'cut', loose
        b = c.rd(k)
        bits += b[:7]
        more = j.bits_eq(st, b[7:8], (1,))
        k += 1
        hi = st.norm_bits(bits[64:])
        if any(x != 0 for x in hi) and not j.bits_eq(st, hi, (0,) * len(hi)):
            return None, k, 'over', loose
        if not more:
            break
        if len(bits) >= 64:
            loose = True
        if k > 40:
            raise Imprecise('long length')
    bits = (st.norm_bits(bits) + (0,) * 64)[:64]
    return j.as_lin(st, j.from_bits(st, bits)), k, 'ok', loose


# containers

def e_none(c, tag, v, kind):
    what = 'none'
    legal = c.info['cls'] == 'need' and is_sch(c, 'Option')
    io = kind == 'Io'
    if legal and tag == 'err':
        no_kind(c, kind, what)
    if not expect_legal(c, legal, tag, kind, what) and not (legal and io):
        return
    if not io:
        c.check_pop(what)
    c.expect_bytes([(0,) * 8], what, io)


def pushing(c, tag, kind, api, child, what, out=None, pop=None):
    """A legal call that goes on to an inner value."""
    st = c.st
    r, spec_ = c.check_push(api, child, what)
    if r == 'illegal':
        if tag == 'ok':
            c.bad('C09', '%s: a recurse level outside of the schema is accepted' % what)
        elif kind in REFUSE or kind not in ('IllegalSchema', 'Io'):
            c.bad('C09', '%s: a recurse level outside of the schema is reported as %s' % (what, kind))
        return False
    if tag == 'err':
        if kind == 'IllegalSchema':
            c.bad('C09', '%s: a legal schema is reported as illegal' % what)
            return False
        if kind in REFUSE:
            c.bad('C01', 'refused (%s) although %s is the legal next step' % (kind, what))
            return False
        if kind != 'Io':
            c.bad('C01', '%s, legal here, fails with %s' % (what, kind))
        return False
    c.compare_push(spec_, what)
    return True


def child_box(c, variant):
    """Pointer to the boxed inner schema of an option."""
    return sptr(c, ('f', c.w.S[variant], 0), 'B')


def e_some(c, tag, v, kind):
    what = 'some'
    legal = c.info['cls'] == 'need' and is_sch(c, 'Option')
    if not legal:
        expect_legal(c, False, tag, kind, what)
        return
    pushing(c, tag, kind, c.api('AutoFinish'), child_box(c, 'Option'), what)
    c.expect_bytes([(1,) + (0,) * 7], what, tag == 'err')


def d_option(c, tag, v, kind):
    j, st = c.j, c.st
    what = 'an option'
    legal = c.info['cls'] == 'need' and is_sch(c, 'Option')
    if not legal:
        expect_legal(c, False, tag, kind, what)
        return
    if kind in REFUSE:
        expect_legal(c, True, tag, kind, what)
        if c.unread():
            return
    if kind == 'Io':
        return
    if st.zone.le(c.pos(), ZERO) is True:
        c.bad('C01', '%s: %s without reading' % (what, 'succeeds' if tag == 'ok' else 'fails with %s' % kind))
        return
    b = c.rd(0)
    if any(x == 1 for x in b[1:]) or not j.bits_eq(st, b[1:], (0,) * 7):
        malformed_or_io(c, tag, kind, True, what)
        return
    some = j.bits_eq(st, c.rd(0)[:1], (1,))
    if some:
        if not pushing(c, tag, kind, c.api('AutoFinish'), child_box(c, 'Option'), what):
            return
    else:
        if tag == 'err':
            c.bad('C06', '%s: none fails with %s' % (what, kind))
            return
        c.check_pop(what)
    value_is(c, v, (1 if some else 0,), what)
    c.consumed(1, what)


def seq_parts(c):
    w, j, st = c.w, c.j, c.st
    q = sch_field(c, 'Seq')
    if q[0] == 's':
        q = j.expand(q)
    return q[3][w.q_len]


def fixed_seq(c, tag, v, kind):
    j, st = c.j, c.st
    what = 'a fixed length seq of that length'
    legal = c.info['cls'] == 'need' and is_sch(c, 'Seq')
    n = c.run.args[0]
    if legal:
        l = seq_parts(c)
        legal = j.is_variant(st, l, frozenset((1,))) and j.eqi(st, j.as_lin(st, j.proj(st, l, ('f', 1, 0))), n)
    if legal and tag == 'err':
        no_kind(c, kind, what, ())
    if expect_legal(c, legal, tag, kind, what):
        c.expect_stack(c.with_top(c.api('Seq', len=n, next=ZERO)), 'C01', 'beginning a seq leaves a wrong coder state')
        no_bytes(c, what)


def no_bytes(c, what):
    if c.run.which == 'Encoder':
        c.expect_bytes([], what)
    else:
        c.consumed(0, what)


def e_var_seq(c, tag, v, kind):
    j, st = c.j, c.st
    what = 'a variable length seq'
    n = c.run.args[0]
    legal = c.info['cls'] == 'need' and is_sch(c, 'Seq') and j.is_variant(st, seq_parts(c), frozenset((0,)))
    io = kind == 'Io'
    if legal and tag == 'err':
        no_kind(c, kind, what)
    if not expect_legal(c, legal, tag, kind, what) and not (legal and io):
        return
    if not io:
        c.expect_stack(c.with_top(c.api('Seq', len=n, next=ZERO)), 'C01', 'beginning a seq leaves a wrong coder state')
    c.varint(j.to_bits(st, n, 64), None, what, None, io)


def d_var_seq(c, tag, v, kind):
    j, st = c.j, c.st
    what = 'a variable length seq'
    legal = c.info['cls'] == 'need' and is_sch(c, 'Seq') and j.is_variant(st, seq_parts(c), frozenset((0,)))
    if not legal or kind in REFUSE:
        expect_legal(c, legal, tag, kind, what)
        if not legal or c.unread():
            return
    if kind == 'Io':
        return
    n, k, status, loose = length(c, what)
    if status == 'cut':
        if tag == 'ok':
            c.bad('C05', '%s: succeeds before the length ends' % what)
        elif not loose:
            c.bad('C06', '%s: fails with %s although the bytes read so far are well formed' % (what, kind))
        return
    if status == 'over':
        if tag == 'ok':
            c.bad('C06', '%s: a length out of range is accepted' % what)
        elif kind not in ('MalformedData', 'PlatformLimits'):
            c.bad('C06', '%s: a length out of range is reported as %s' % (what, kind))
        return
    if tag == 'err':
        if not (loose and kind == 'MalformedData'):
            c.bad('C06' if kind == 'MalformedData' else 'C01', '%s: fails with %s on a well formed length' % (what, kind))
        return
    bits = j.to_bits(st, n, 64)
    value_is(c, v, bits, what)
    c.consumed(k, what)
    # the state has the same length
    r = top_api(c)
    if r is None:
        return
    fs = dict(zip([f[0] for f in c.w.T[c.w.api].variants[c.w.A['Seq']]['fields']], r))
    if set(fs) != {'len', 'next'}:
        raise Anchor('state Seq')
    c.must(Cmp(j, st).bits(j.to_bits(st, fs['len'], 64), bits), 'C01', 'the seq begun has another length than the one read')
    c.expect_stack(c.with_top(c.api('Seq', len=fs['len'], next=ZERO)), 'C01', 'beginning a seq leaves a wrong coder state')


def top_api(c):
    """Fields of the Seq state of the top frame."""
    j, st, w = c.j, c.st, c.w
    segs = c.stack()
    n = j.segs_len(st, segs)
    if not j.lt(st, ZERO, n):
        c.bad('C01', 'beginning a seq empties the coding stack')
        return None
    last = j.seq_get(st, segs, j.add_int(st, n, ONE, -1))
    if last[0] == 's':
        last = j.expand(last)
    api = last[3][w.f_api]
    if api[0] != 'a' or api[2] != w.A['Seq']:
        c.bad('C01', 'beginning a seq leaves a wrong coder state')
        return None
    return api[3]


def top_field(c, variant, name):
    return c.info['api'][3][c.w.api_field(variant, name)]


def seq_elem(c, tag, v, kind):
    j, st = c.j, c.st
    what = 'another seq element'
    if c.info['cls'] != 'seq':
        expect_legal(c, False, tag, kind, what)
        return
    n, nx = top_field(c, 'Seq', 'len'), top_field(c, 'Seq', 'next')
    if not j.lt(st, nx, n):
        expect_legal(c, False, tag, kind, what)
        return
    child = sptr(c, ('f', c.w.S['Seq'], 0), ('f', 0, c.w.q_inner), 'B')
    if pushing(c, tag, kind, c.api('Seq', len=n, next=j.add_int(st, nx, ONE, 1)), child, what):
        no_bytes(c, what)


def seq_fin(c, tag, v, kind):
    j, st = c.j, c.st
    what = 'finishing the seq'
    legal = c.info['cls'] == 'seq' and j.eqi(st, top_field(c, 'Seq', 'len'), top_field(c, 'Seq', 'next'))
    if legal and tag == 'err':
        no_kind(c, kind, what, ())
    if expect_legal(c, legal, tag, kind, what):
        c.check_pop(what)
        no_bytes(c, what)


def beg(variant, what):
    def f(c, tag, v, kind):
        legal = c.info['cls'] == 'need' and is_sch(c, variant)
        if legal and tag == 'err':
            no_kind(c, kind, what, ())
        if expect_legal(c, legal, tag, kind, what):
            c.expect_stack(c.with_top(c.api(variant, next=ZERO)), 'C01', 'beginning %s leaves a wrong coder state' % what)
            no_bytes(c, what)
    return f


def inners(c, variant):
    v = sch_field(c, variant)
    return c.j.segs(c.st, v)


def tuple_elem(c, tag, v, kind):
    j, st = c.j, c.st
    what = 'another tuple element'
    if c.info['cls'] != 'tuple':
        expect_legal(c, False, tag, kind, what)
        return
    nx = top_field(c, 'Tuple', 'next')
    n = j.segs_len(st, inners(c, 'Tuple'))
    if not j.lt(st, nx, n):
        expect_legal(c, False, tag, kind, what)
        return
    child = sptr(c, ('f', c.w.S['Tuple'], 0), ('i', nx))
    if pushing(c, tag, kind, c.api('Tuple', next=j.add_int(st, nx, ONE, 1)), child, what):
        no_bytes(c, what)


def struct_field(c, tag, v, kind):
    j, st, w = c.j, c.st, c.w
    what = 'that struct field'
    if c.info['cls'] != 'struct':
        expect_legal(c, False, tag, kind, what)
        return
    nx = top_field(c, 'Struct', 'next')
    fs = inners(c, 'Struct')
    if not j.lt(st, nx, j.segs_len(st, fs)):
        expect_legal(c, False, tag, kind, what)
        return
    nm = ('p', ('O', 'sch', w.schema), (('f', w.S['Struct'], 0), ('i', nx), ('f', 0, w.x_name[w.field])), None)
    if not NV.segs_equal(j, st, NV.segs_of(j, st, nm), NV.segs_of(j, st, c.run.args[0])):
        expect_legal(c, False, tag, kind, what)
        return
    child = sptr(c, ('f', w.S['Struct'], 0), ('i', nx), ('f', 0, w.x_inner[w.field]))
    if pushing(c, tag, kind, c.api('Struct', next=j.add_int(st, nx, ONE, 1)), child, what):
        no_bytes(c, what)


def fin(variant, what):
    def f(c, tag, v, kind):
        j, st = c.j, c.st
        legal = c.info['cls'] == variant.lower() and j.eqi(st, top_field(c, variant, 'next'), j.segs_len(st, inners(c, variant)))
        if legal and tag == 'err':
            no_kind(c, kind, what, ())
        if expect_legal(c, legal, tag, kind, what):
            c.check_pop(what)
            no_bytes(c, what)
    return f


def variant_path(c, o):
    return (('f', c.w.S['Enum'], 0), ('i', o))


def e_enum(c, tag, v, kind):
    j, st, w = c.j, c.st, c.w
    what = 'that enum variant'
    o, nm = c.run.args[:2]
    legal = c.info['cls'] == 'need' and is_sch(c, 'Enum')
    n = None
    if legal:
        n = j.segs_len(st, inners(c, 'Enum'))
        legal = j.lt(st, o, n)
    if legal:
        vn = ('p', ('O', 'sch', w.schema), variant_path(c, o) + (('f', 0, w.x_name[w.evar]),), None)
        legal = NV.segs_equal(j, st, NV.segs_of(j, st, vn), NV.segs_of(j, st, nm))
    if not legal:
        expect_legal(c, False, tag, kind, what)
        return
    child = sptr(c, *variant_path(c, o), ('f', 0, w.x_inner[w.evar]))
    pushing(c, tag, kind, c.api('AutoFinish'), child, what)
    c.ordinal(o, n, what, tag == 'err')


def d_enum(c, tag, v, kind):
    j, st, w = c.j, c.st, c.w
    what = 'an enum'
    legal = c.info['cls'] == 'need' and is_sch(c, 'Enum')
    if not legal or kind in REFUSE:
        expect_legal(c, legal, tag, kind, what)
        if not legal or c.unread():
            return
    if kind == 'Io':
        return
    n = j.segs_len(st, inners(c, 'Enum'))
    if not j.lt(st, ZERO, n):
        malformed_or_io(c, tag, kind, True, what)
        return
    mx = j.add_int(st, n, ONE, -1)
    nb = 0
    while not j.lt(st, mx, I(256 ** nb)):
        nb += 1
    p = c.pos()
    if not j.eqi(st, p, I(nb)):
        if tag == 'ok' or j.lt(st, I(nb), p):
            c.bad('C05', '%s: reads an ordinal of %s bytes where the greatest takes %d' % (what, j.to_const(st, p), nb))
        elif kind == 'MalformedData':
            c.bad('C06', '%s: malformed before the ordinal is read' % what)
        return
    bits = ()
    for k in range(nb):
        bits += c.rd(k)
    ov = j.as_lin(st, j.from_bits(st, bits + (0,) * (64 - len(bits))))
    if not j.lt(st, ov, n):
        malformed_or_io(c, tag, kind, True, what)
        return
    if not malformed_or_io(c, tag, kind, False, what):
        return
    value_is(c, v, j.to_bits(st, ov, 64), what)
    segs = c.stack()
    l = j.segs_len(st, segs)
    if not j.lt(st, ZERO, l):
        c.bad('C01', 'beginning an enum empties the coding stack')
        return
    last = j.seq_get(st, segs, j.add_int(st, l, ONE, -1))
    if last[0] == 's':
        last = j.expand(last)
    api = last[3][w.f_api]
    if api[0] != 'a' or api[2] != w.A['Enum'] or api[3][0][0] != 'a' or api[3][0][2] != 1:
        c.bad('C01', 'beginning an enum leaves a wrong coder state')
        return
    x = api[3][0][3][0]
    c.must(Cmp(j, st).bits(j.to_bits(st, x, 64), j.to_bits(st, ov, 64)), 'C01', 'the enum begun has another ordinal than the one read')
    c.expect_stack(c.with_top(api), 'C01', 'beginning an enum leaves a wrong coder state')


def d_enum_variant(c, tag, v, kind):
    j, st, w = c.j, c.st, c.w
    what = 'that enum variant name'
    if c.info['cls'] != 'enum':
        expect_legal(c, False, tag, kind, what)
        return
    o = c.info['api'][3][0][3][0]
    vn = ('p', ('O', 'sch', w.schema), variant_path(c, o) + (('f', 0, w.x_name[w.evar]),), None)
    if not NV.segs_equal(j, st, NV.segs_of(j, st, vn), NV.segs_of(j, st, c.run.args[0])):
        expect_legal(c, False, tag, kind, what)
        return
    child = sptr(c, *variant_path(c, o), ('f', 0, w.x_inner[w.evar]))
    if pushing(c, tag, kind, c.api('AutoFinish'), child, what):
        no_bytes(c, what)


STEP = {}
for _s in LEAVES:
    _e, _d = leaf(_s)
    STEP['Encoder', 'encode_' + _s] = _e
    STEP['Decoder', 'decode_' + _s] = _d
STEP['Decoder', 'decode_str_into'] = STEP['Decoder', 'decode_str']
STEP['Decoder', 'decode_bytes_into'] = STEP['Decoder', 'decode_bytes']
for _w in ('Encoder', 'Decoder'):
    STEP[_w, 'begin_fixed_len_seq'] = fixed_seq
    STEP[_w, 'begin_seq_elem'] = seq_elem
    STEP[_w, 'finish_seq'] = seq_fin
    STEP[_w, 'begin_tuple'] = beg('Tuple', 'a tuple')
    STEP[_w, 'begin_tuple_elem'] = tuple_elem
    STEP[_w, 'finish_tuple'] = fin('Tuple', 'finishing the tuple')
    STEP[_w, 'begin_struct'] = beg('Struct', 'a struct')
    STEP[_w, 'begin_struct_field'] = struct_field
    STEP[_w, 'finish_struct'] = fin('Struct', 'finishing the struct')
STEP['Encoder', 'encode_none'] = e_none
STEP['Encoder', 'begin_some'] = e_some
STEP['Encoder', 'begin_var_len_seq'] = e_var_seq
STEP['Encoder', 'begin_enum'] = e_enum
STEP['Decoder', 'begin_option'] = d_option
STEP['Decoder', 'begin_var_len_seq'] = d_var_seq
STEP['Decoder', 'begin_enum'] = d_enum
STEP['Decoder', 'begin_enum_variant'] = d_enum_variant


# ------------------------------------------------------------------ the life of a coder state

LIFE = ('new', 'is_finished', 'is_finished_or_err', 'need', 'Encoder::need', 'Decoder::need')


class Life(Run):
    """Methods of the coder state itself."""
    def __init__(self, w, name, cls):
        self.path = ('coder::coder::CoderState::<\'a>::' + name) if '::' not in name else None
        wh = 'Encoder'
        if '::' in name:
            wh, name2 = name.split('::')
            root = methods(w.prog, wh).get(name2)
        else:
            root = w.prog.root(self.path)
        if root is None:
            raise Anchor('no ' + name)
        Run.__init__(self, w, wh, name, root, cls)

    def go(self):
        w = self.w
        p = w.prog
        j = self.j = WD.new_job(w)
        j.hooks['alloc'] = lambda *a: None
        st = State()
        b = p.bodies[self.root['body']]
        if self.cls == 'new':
            return self.go_new(j, st, b)
        self.info = WD.build_state(w, j, st, self.cls)
        self.pre = st.mem[self.info['cs']]
        ptr = ('p', self.info['cs'], (), None)
        if self.path is None:
            et = p.types[b.locals[1]].to
            fs = []
            for f in p.types[et].variants[0]['fields']:
                t = p.types[f[1]]
                fs.append(ptr if t.to is not None and p.types[t.to].path == 'coder::coder::CoderState' else ('p', ('O', 'io', t.to), (), None))
            st.mem[('O', 'enc', et)] = ('a', et, 0, tuple(fs))
            args = [('p', ('O', 'enc', et), (), None)]
        elif p.types[b.locals[1]].k == 'ref':
            args = [ptr]
        else:
            args = [st.mem[self.info['cs']]]
        for o in j.run(self.root['body'], args, st):
            self.outcome(o)
        self.visited = j.visited_bodies
        self.stats = j.stats

    def go_new(self, j, st, b):
        w, p = self.w, self.w.prog
        import alloc15
        args = []
        own = alloc15.Own(w, self.root)
        own.capof = {}
        own.outside = []
        own.install(j)
        for i in range(1, b.argc + 1):
            t = p.types[b.locals[i]]
            if t.path == alloc15.ALLOC:
                args.append(own.arg(j, st, t.i, 'arg%d' % i))
            elif t.k == 'ref' and p.types[t.to].path == 'schema::Schema':
                args.append(('p', ('O', 'sch', w.schema), (), None))
            else:
                args.append(j.sym(t.i, ('arg', i)))
        self.info = {'cls': 'new', 'broken': False}
        self.newargs = args
        for o in j.run(self.root['body'], args, st):
            self.outcome(o)
        self.visited = j.visited_bodies
        self.stats = j.stats

    def outcome(self, o):
        kind, st, v = o
        self.outcomes += 1
        if kind == 'imprecise':
            self.note(v)
            return
        if kind == 'panic':
            self.violations.append(('C07', 'can panic: ' + v, 'any'))
            return

        def fn(s):
            c = Check(self, s, kind, v)
            life_spec(c, self)
            return (c.viol, c.notes)
        for r in explore(self.j, st, fn):
            self.cases += 1
            if r[0] == 'imprecise':
                self.note(r[1])
                continue
            for n in r[1][1]:
                self.note('undecided: ' + n)
            for pr, m in r[1][0]:
                self.violations.append((pr, m, self.log_of(st)))


def life_spec(c, run):
    j, st, w = c.j, c.st, c.w
    name = run.name
    cls = run.cls
    cm = Cmp(j, st)
    if cls == 'new':
        v = c.ret
        if v[0] != 'a' or v[1] != w.state:
            raise Imprecise('unknown coder state')
        segs = j.segs(st, v[3][w.f_stack])
        n = j.segs_len(st, segs)
        c.must(cm.num(n, ONE), 'C01', 'a new coder does not begin with exactly one value to code')
        c.must(cm.num(n, ONE), 'C15', 'a recycled coder does not begin as a fresh one')
        if cm.num(n, ONE) is True:
            f = j.seq_get(st, segs, ZERO)
            if f[0] == 's':
                f = j.expand(f)
            c.must(cm.tree(f[3][w.f_schema], run.newargs[0]), 'C01', 'a new coder does not code the schema it was given')
            c.must(cm.val(f[3][w.f_parent], ('a', w.optusize, 0, ())), 'C09', 'the root of the schema has a parent')
            c.must(cm.val(f[3][w.f_api], ('a', w.api, w.A['Need'], ())), 'C01', 'a new coder does not need its schema')
        if j.truth(st, v[3][w.f_broken]):
            c.bad('C01', 'a new coder is marked as failed')
        lg = v[3][w.f_log]
        given = [a for a, i in zip(run.newargs, range(9)) if a[0] == 's' and j.types[a[1]].path == 'core::option::Option'
                 and a[1] != w.optusize]
        if len(given) == 1:
            g = j.is_variant(st, given[0], frozenset((1,)))
            if g != j.is_variant(st, lg, frozenset((1,))):
                c.bad('C16', 'a new coder %s' % ('does not use the log it is given' if g else 'has a log it was not given'))
            elif g:
                d = j.proj(st, lg, ('f', 1, 0))
                if d[0] == 's':
                    d = j.expand(d)
                c.must(cm.num(d[3][w.f_indent], ZERO), 'C16', 'the log of a new coder is indented')
        return
    short = name.split('::')[-1]
    fin = cls == 'empty'
    if short == 'is_finished':
        c.unchanged('C01', 'only asks')
        if cls == 'broken':
            if j.truth(st, c.ret):
                c.bad('C03', 'a failed coder is reported as finished')
        elif j.truth(st, c.ret) != fin:
            c.bad('C01', 'the coder is reported as %s' % ('unfinished when it is finished' if fin else 'finished in the middle of a value'))
        return
    tag, v = c.result()
    kind = c.err(v)[0] if tag == 'err' else None
    c.unchanged('C01', 'only asks')
    if short == 'is_finished_or_err':
        if cls == 'broken':
            if tag == 'ok':
                c.bad('C03', 'a failed coder is reported as finished')
        elif (tag == 'ok') != fin:
            c.bad('C01', 'the coder is reported as %s' % ('unfinished when it is finished' if fin else 'finished in the middle of a value'))
        if tag == 'err' and kind != 'ApiUsage':
            c.bad('C01', 'being unfinished is reported as %s' % kind)
        return
    if short == 'need':
        if cls == 'need':
            if tag != 'ok':
                c.bad('C01', 'the needed schema is not told (%s)' % kind)
            else:
                c.must(cm.tree(v, ('p', ('O', 'sch', w.schema), (), None)), 'C01', 'the schema told is not the needed one')
        elif cls == 'needrec':
            if tag == 'ok':
                c.bad('C09', 'a recurse is told as the needed schema')
            elif kind != 'IllegalSchema':
                c.bad('C09', 'a recurse at the root of the schema is reported as %s' % kind)
        elif cls != 'broken':
            if tag == 'ok':
                c.bad('C01', 'a schema is told as needed where none is')
            elif kind != 'ApiUsage':
                c.bad('C01', 'asking for the needed schema at a wrong time is reported as %s' % kind)
