"""What coding depends on and changes beside its arguments.

Every function of the crate that coding, the glue, dynamic values and schemas reach is looked through for what is not an argument: statics
that can change, thread locals, clocks, the environment, random numbers, the order of hash tables, addresses taken for numbers, files,
standard streams, other threads."""
import tasks
from stack import Graph

# where std keeps what is not an argument
OUTSIDE = (
    ('std::env::', 'the environment'), ('std::time::', 'the clock'), ('std::fs::', 'the file system'), ('std::net::', 'the network'),
    ('std::process::', 'the process'), ('std::os::', 'the operating system'), ('std::random::', 'random numbers'), ('core::random::', 'random numbers'),
    ('std::thread::local', 'thread locals'), ('std::thread::', 'threads'), ('std::hash::random', 'random numbers'),
    ('std::backtrace::', 'the call stack'), ('std::panic::', 'panics of others'), ('std::panicking::panicking', 'panics of others'),
    ('std::alloc::', 'the allocator'), ('core::panic::location', 'its caller'), ("core::fmt::rt::Argument::<'_>::new_pointer", 'addresses'),
)
STREAMS = ('std::io::stdio::',)
ERR = ('_eprint', 'stderr', 'Stderr')
PANICS = ('std::panicking::begin_panic', 'std::rt::')
# statics that are set once, by a function of nothing
ONCE = ('std::sync::lazy_lock::LazyLock', 'core::cell::lazy::LazyCell')
ONCES = ('std::sync::once_lock::OnceLock', 'core::cell::once::OnceCell')
TABLES = ('std::collections::hash::map::', 'std::collections::hash::set::')
ITERATES = ('Iter', 'IterMut', 'IntoIter', 'Keys', 'Values', 'ValuesMut', 'IntoKeys', 'IntoValues', 'Drain', 'Union', 'Difference', 'Intersection', 'SymmetricDifference')


def walk(t, f):
    if isinstance(t, dict):
        f(t)
        for v in t.values():
            walk(v, f)
    elif isinstance(t, list):
        for v in t:
            walk(v, f)


def outside(name):
    for p, what in OUTSIDE:
        if name.startswith(p) or name.startswith('<' + p):
            return what
    for p in STREAMS:
        if name.startswith(p) and not any(name.split('::<')[0].split('::')[-1].startswith(e) or ('::' + e) in name for e in ERR):
            return 'a standard stream'
    return None


class Effects:
    def __init__(self, p):
        self.p = p
        self.sites = 0

    def of(self, b):
        """What a function looks at or changes that is not among its arguments."""
        p = self.p
        found = set()
        onces = set()

        def const(d):
            if 'static' in d:
                self.sites += 1
                if d.get('state'):
                    found.add(('static', d['static']))
            if 'tls' in d:
                self.sites += 1
                found.add(('tls', d['tls']))
            if d.get('cast') and d.get('from') is not None:
                self.sites += 1
                f, t = p.types[d['from']], p.types[d['ty']]
                if f.k in ('ref', 'rawptr') and t.k in ('int', 'uint'):
                    found.add(('address', f.s))

        for bl in b.blocks:
            walk(bl, const)
            c = bl['t'].get('call')
            c = c and c.get('callee')
            if not c:
                continue
            self.sites += 1
            for n in (c.get('name'), c.get('path'), c.get('rname'), c.get('rpath')):
                w = n and outside(n)
                if w:
                    found.add(('call', w + ' (' + n.split('::<')[0] + ')'))
                n = n or ''
                if any(n.startswith(x) for x in ONCES):
                    m = n.split('::')[-1]
                    if m in ('get_or_init', 'get_or_try_init'):
                        f = [p.types[a] for a in c.get('args') or () if isinstance(a, int)][-1]
                        free = f.k == 'fndef' or f.k == 'closure' and not f.upvars
                        onces.add('free' if free else 'bound')
                    elif m not in ('get', 'new', 'wait'):
                        onces.add('bound')
        for l in b.locals:
            t = p.types[l]
            if t.path and t.path.startswith(TABLES) and t.path.split('::')[-1] in ITERATES:
                found.add(('order', 'hash'))
        return found, onces


def kind_of_static(p, body, name):
    """The type of a static that a function refers to."""
    out = []
    def f(d):
        if isinstance(d.get('v'), dict) and d['v'].get('static') == name and d.get('ty') is not None:
            out.append(d['ty'])
    for bl in body.blocks:
        walk(bl, f)
    for t in out:
        t = p.types[t]
        while t.k in ('ref', 'rawptr'):
            t = p.types[t.to]
        if t.path:
            return t.path
    return None


@tasks.task
def effects(ctx, what):
    if what == 'coder':
        p = ctx['prog']
    elif what == 'glue':
        p = ctx['gw'].prog
    else:
        p = ctx[what].prog
    g = Graph(p)
    roots = [r['body'] for r in p.roots if r.get('body') is not None]
    if not roots:
        return {'notes': {'anchor: no entry points': 1}, 'unfinished': True}
    e = Effects(p)
    viol, fs, notes = [], set(), {}
    for k in g.reach(roots):
        b = p.bodies[k]
        if b.krate != 'binschema':
            continue
        fs.add(b.path)
        found, onces = e.of(b)
        for kind, x in sorted(found):
            if kind == 'static':
                t = kind_of_static(p, b, x)
                if t in ONCE or t in ONCES and 'bound' not in onces:
                    notes['%s is set once, to what depends on nothing' % x] = 1
                    continue
                viol.append('%s uses %s, which outlives the call and can change' % (b.path, x))
            elif kind == 'tls':
                viol.append('%s uses the thread local %s' % (b.path, x))
            elif kind == 'address':
                viol.append('%s takes an address (%s) for a number' % (b.path, x))
            elif kind == 'order':
                viol.append('%s goes by the order of a hash table' % b.path)
            else:
                viol.append('%s depends on or changes %s' % (b.path, x))
    return {'violations': [('C26', v, 'any') for v in sorted(set(viol))], 'notes': notes, 'subject': what, 'cls': '',
            'functions': sorted(fs), 'outcomes': len(fs), 'cases': e.sites}


def all_tasks(ctx):
    return [('effects', 'coder')] + [('effects', x) for x in ('glue',) if ctx.get('gw') is not None] + \
        [('effects', x) for x in ('shapes', 'errs') if ctx.get(x) is not None]
