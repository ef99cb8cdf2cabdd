"""Client code that must not compile, and what of the crate client code can reach."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, tasks

HEAD = '#![allow(warnings)]\nuse binschema::{CoderState, CoderStateAlloc, Encoder, Decoder, Schema};\nuse std::io::{Read, Write};\n'

BORROW = {'E0%d' % n for n in (106, 373, 381, 382, 384, 478, 491, 495, 499, 500, 501, 502, 503, 505, 506, 507, 508, 509, 510, 515, 516, 521, 594,
                              596, 597, 621, 623, 700, 712, 713, 716, 759, 310, 309, 308)}


def cases(file='cases.rs'):
    """name, must it compile, subject, what, the program, its twin."""
    out = []
    text = open(os.path.join(build.VERIF, 'misuse', file)).read()
    for c in re.split(r'^//# ', text, flags=re.M)[1:]:
        head, body = c.split('\n', 1)
        name, subj, what = head.split(': ', 2)
        must = name.startswith('must ')
        ls = body.split('\n')
        prog = [l for l in ls if not l.endswith('//+')]
        twin = [l for l in ls if not l.endswith('//-')]
        out.append((name.split()[-1], must, subj, what, '\n'.join(prog), '\n'.join(twin)))
    return out


def compile(ext, dir, n, src, head=HEAD):
    """The errors, as (code, message), none if it compiles; None if the compiler does not work."""
    p = os.path.join(dir, n + '.rs')
    with open(p, 'w') as f:
        f.write(head + src)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'm', '--emit', 'metadata', '-o', os.path.join(dir, n + '.rmeta'),
                        '--error-format', 'json', '--extern', 'binschema=' + ext[0]] + (['--extern', 'serde=' + ext[2]] if ext[2] else []) + [p] + [x for d in ext[1] for x in ('-L', 'dependency=' + d)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=dir)
    errs = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('level') == 'error' and m.get('spans'):
                errs.append(((m.get('code') or {}).get('code') or '', m['message']))
    if r.returncode == 0:
        return []
    return errs or None


@tasks.task
def misuse(ctx, _):
    cs = cases()
    dir = tempfile.mkdtemp(prefix='misuse')
    notes, viol = {}, []
    cases_ok = 0
    try:
        with ThreadPoolExecutor(8) as ex:
            progs = list(ex.map(lambda c: compile(ctx['rmeta'], dir, c[0] + '.a', c[4]), cs))
            twins = list(ex.map(lambda c: compile(ctx['rmeta'], dir, c[0] + '.b', c[5]), cs))
    finally:
        shutil.rmtree(dir, ignore_errors=True)
    subs = []
    for c, a, b in zip(cs, progs, twins):
        if a is None or b is None:
            notes['no answer from the compiler: ' + c[0]] = 1
        elif b:
            notes['not decided: %s: %s' % (c[0], b[0][1])] = 1
        elif c[1]:
            cases_ok += 1
            if any(e[0] in BORROW or 'lifetime' in e[1] for e in a):
                viol.append(('C18', c[2], 'is refused by the compiler: ' + c[3]))
            elif a:
                notes['not decided: %s: %s' % (c[0], a[0][1])] = 1
        else:
            cases_ok += 1
            if not a:
                viol.append(('C18', c[2], 'is accepted by the compiler: ' + c[3]))
    return {'notes': notes, 'violations': [(p, '%s: %s' % (s, m), 'any') for p, s, m in viol], 'subject': 'client code', 'cls': '', 'outcomes': 2 * len(cs),
            'cases': cases_ok, 'functions': sorted(set(c[2] for c in cs))}


HEAD28 = ('#![allow(warnings)]\nuse binschema::{*, error::{Error, ErrorKind}, value::{Value, ScalarValue, StructValueField, EnumValue}};\n'
          'use std::io::{Read, Write};\n')
# what the compiler says of bounds that are not met, and of what does not live long enough
BOUNDS = BORROW | {'E0277', 'E0271', 'E0275', 'E0276', 'E0283', 'E0372'}


def unmet(e):
    return e[0] in BOUNDS or 'lifetime' in e[1] or e[0] == 'E0599' and 'bounds' in e[1]


@tasks.task
def open_(ctx, _):
    cs = cases('open.rs')
    dir = tempfile.mkdtemp(prefix='open')
    notes, viol, n = {}, [], 0
    try:
        with ThreadPoolExecutor(8) as ex:
            progs = list(ex.map(lambda c: compile(ctx['rmeta'], dir, c[0] + '.a', c[4], HEAD28), cs))
            twins = list(ex.map(lambda c: compile(ctx['rmeta'], dir, c[0] + '.b', c[5], HEAD28), cs))
    finally:
        shutil.rmtree(dir, ignore_errors=True)
    for c, a, b in zip(cs, progs, twins):
        if a is None or b is None:
            notes['no answer from the compiler: ' + c[0]] = 1
        elif b:
            notes['not decided: %s: %s' % (c[0], b[0][1])] = 1
        elif a and not unmet(a[0]):
            notes['not decided: %s: %s' % (c[0], a[0][1])] = 1
        else:
            n += 1
            if a:
                viol.append('%s: does not hold for every program: %s (%s)' % (c[2], c[3], a[0][1]))
    return {'notes': notes, 'violations': [('C28', m, 'any') for m in viol], 'subject': 'client code', 'cls': '', 'outcomes': 2 * len(cs),
            'cases': n, 'functions': sorted(set(c[2] for c in cs))}


# --- what can be reached

ROOTS = ('CoderState', 'CoderStateAlloc', 'Encoder', 'Decoder')
REFS = ('core::ops::deref::Deref', 'core::ops::deref::DerefMut', 'core::convert::AsMut', 'core::borrow::BorrowMut', 'core::clone::Clone', 'core::marker::Copy')


class Api:
    def __init__(self, p):
        self.p = p
        self.v = []
        self.n = 0
        self.notes = {}
        self.functions = set()

    def say(self, m):
        if m not in self.v:
            self.v.append(m)

    def short(self, t):
        return t.path.split('::')[-1] if t.path else t.s

    def parts(self, i, seen):
        """All types that a value of a type contains, or refers to."""
        if i in seen or i is None:
            return
        seen.add(i)
        t = self.p.types[i]
        for k in (t.to, t.elem):
            if isinstance(k, int):
                self.parts(k, seen)
        for a in list(t.args or ()) + list(t.elems or ()):
            if isinstance(a, int):
                self.parts(a, seen)

    def inside(self, i):
        """The types of this crate a struct is made of."""
        out, todo, seen = set(), [i], set()
        while todo:
            k = todo.pop()
            s = set()
            self.parts(k, s)
            for x in s:
                if x in seen:
                    continue
                seen.add(x)
                t = self.p.types[x]
                if t.k == 'adt' and t.path in self.adts:
                    out.add(t.path)
                    for v in t.variants or ():
                        todo += [f[1] for f in v['fields']]
        return out

    def go(self):
        p = self.p
        self.adts = {a['path']: a for a in p.adts}
        names = {}
        for a in p.adts:
            n = a['path'].split('::')[-1]
            if n in ROOTS and a['reachable']:
                names[n] = a['path']
        if len(names) != len(ROOTS):
            return False
        mine = {v: k for k, v in names.items()}
        # 1: fields
        for path, n in sorted(mine.items()):
            for f in self.adts[path]['fields']:
                self.n += 1
                if f['pub']:
                    self.say('%s::%s: a field that can be reached from outside' % (n, f['name']))
        # 2: what a coder state is made of, and is itself no part of the interface
        state = next(t.i for t in p.types if t.path == names['CoderState'] and t.k == 'adt')
        guts = {x for x in self.inside(state) if x not in mine and x.split('::')[0] != 'error'}
        open_ = {'schema::' + n for n in ('Schema', 'ScalarType', 'SeqSchema', 'StructSchemaField', 'EnumSchemaVariant')}
        guts -= open_
        self.guts = guts
        for g in sorted(guts):
            self.n += 1
            if self.adts[g]['reachable']:
                self.say('%s: a part of a coder state that can be reached from outside' % g.split('::')[-1])
        # 3: what functions take and give
        for r in p.roots:
            if not r['reachable']:
                continue
            b = p.bodies[r['body']]
            sig = [b.locals[k] for k in range(0, b.argc + 1)]
            self.functions.add(r['path'])
            self.n += 1
            for i in sig:
                s = set()
                self.parts(i, s)
                for x in s:
                    if p.types[x].path in guts:
                        self.say('%s: a part of a coder state in the signature of a function that can be reached' % r['path'])
            me = p.types[r['self']].path if r.get('self') is not None else None
            if me not in mine:
                continue
            n = mine[me]
            ret, args = sig[0], sig[1:]
            recv = None
            if args:
                t = p.types[args[0]]
                if t.k == 'ref' and p.types[t.to].path == me:
                    recv = 'mut' if t.raw.get('mut') else 'ref'
                elif t.path == me:
                    recv = 'own'
            if n in ('Encoder', 'Decoder') and recv in ('ref', 'mut'):
                s = set()
                self.parts(ret, s)
                for x in sorted(s):
                    t = p.types[x]
                    if t.k == 'param' or t.k in ('ref', 'ptr') and (t.raw.get('mut') and (p.types[t.to].k == 'param' or p.types[t.to].path in mine)):
                        self.say('%s: hands out what %s borrows' % (r['path'], n))
                    elif t.path == names['CoderState'] and not any(p.types[y].k == 'ref' and p.types[y].to == x for y in s):
                        self.say('%s: hands out what %s borrows' % (r['path'], n))
            if n == 'CoderState' and recv == 'mut' and not r.get('trait'):
                self.say('%s: changes a coder state without a coder' % r['path'])
        # 4: traits
        for i in p.impls:
            self.n += 1
            if i['self'] in mine and mine[i['self']] in ('Encoder', 'Decoder') and i['trait'] in REFS:
                self.say('%s: %s for %s' % (i['self'], i['trait'].split('::')[-1], mine[i['self']]))
        return True


@tasks.task
def reach(ctx, _):
    a = Api(ctx['prog'])
    if not a.go():
        return {'notes': {'anchor: the types of coders': 1}, 'unfinished': True}
    return {'notes': a.notes, 'violations': [('C18', m, 'any') for m in a.v], 'subject': 'interface', 'cls': '', 'outcomes': len(a.functions), 'cases': a.n,
            'functions': sorted(a.functions)}


def open_tasks(ctx):
    return [('open_', 'cases')] if ctx.get('rmeta') else []


def all_tasks(ctx):
    return [('reach', 'api')] + ([('misuse', 'cases')] if ctx.get('rmeta') else [])
