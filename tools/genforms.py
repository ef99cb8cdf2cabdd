#!/usr/bin/env python3
"""Writes forms/src/lib.rs, every form of schema! in every place, and forms/expected.json, what each must be."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEAVES = [(n, ['leaf', t]) for n, t in (
    ('u8', 'U8'), ('u16', 'U16'), ('u32', 'U32'), ('u64', 'U64'), ('u128', 'U128'), ('i8', 'I8'), ('i16', 'I16'), ('i32', 'I32'),
    ('i64', 'I64'), ('i128', 'I128'), ('f32', 'F32'), ('f64', 'F64'), ('char', 'Char'), ('bool', 'Bool'),
    ('str', 'Str'), ('bytes', 'Bytes'), ('unit', 'Unit'))]
U8, STR, UNIT = ['leaf', 'U8'], ['leaf', 'Str'], ['leaf', 'Unit']
OTHERS = [
    ('option(u8)', ['option', U8]),
    ('option(option(str))', ['option', ['option', STR]]),
    ('seq(varlen)(u8)', ['seq', None, U8]),
    ('seq(5)(u8)', ['seq', 5, U8]),
    ('seq(LEN)(unit)', ['seq', 11, UNIT]),
    ('tuple {}', ['tuple', []]),
    ('tuple { (u8) }', ['tuple', [U8]]),
    ('tuple { (u8), (str), }', ['tuple', [U8, STR]]),
    ('struct {}', ['struct', []]),
    ('struct { (a: u8) }', ['struct', [['a', U8]]]),
    ('struct { (a: u8), (b: str), }', ['struct', [['a', U8], ['b', STR]]]),
    ('enum {}', ['enum', []]),
    ('enum { A(u8) }', ['enum', [['A', U8]]]),
    ('enum { A(u8), B(unit), }', ['enum', [['A', U8], ['B', UNIT]]]),
    ('recurse(1)', ['recurse', 1]),
    ('recurse(LEN + 1)', ['recurse', 12]),
    ('%mark(1)', ['mark', 1]),
    ('%{ let x = mark(2); x }', ['mark', 2]),
    ('%binschema::Schema::Str', STR),
]
FORMS = LEAVES + OTHERS
M7, M8, M9 = ['mark', 7], ['mark', 8], ['mark', 9]
PLACES = [
    ('root', '@', lambda t: t),
    ('option', 'option(@)', lambda t: ['option', t]),
    ('option2', 'option(option(@))', lambda t: ['option', ['option', t]]),
    ('varlen', 'seq(varlen)(@)', lambda t: ['seq', None, t]),
    ('fixed', 'seq(3)(@)', lambda t: ['seq', 3, t]),
    ('fixed_expr', 'seq(2 * LEN)(@)', lambda t: ['seq', 22, t]),
    ('tuple1', 'tuple { (@) }', lambda t: ['tuple', [t]]),
    ('tuple1_comma', 'tuple { (@), }', lambda t: ['tuple', [t]]),
    ('tuple3_first', 'tuple { (@), (%mark(8)), (%mark(9)) }', lambda t: ['tuple', [t, M8, M9]]),
    ('tuple3_mid', 'tuple { (%mark(7)), (@), (%mark(9)), }', lambda t: ['tuple', [M7, t, M9]]),
    ('tuple3_last', 'tuple { (%mark(7)), (%mark(8)), (@) }', lambda t: ['tuple', [M7, M8, t]]),
    ('struct1', 'struct { (name: @) }', lambda t: ['struct', [['name', t]]]),
    ('struct1_comma', 'struct { (name: @), }', lambda t: ['struct', [['name', t]]]),
    ('struct3_first', 'struct { (x: @), (y: %mark(8)), (z: %mark(9)) }', lambda t: ['struct', [['x', t], ['y', M8], ['z', M9]]]),
    ('struct3_mid', 'struct { (z: %mark(7)), (y: @), (x: %mark(9)), }', lambda t: ['struct', [['z', M7], ['y', t], ['x', M9]]]),
    ('struct3_last', 'struct { (b: %mark(7)), (a: %mark(8)), (c: @) }', lambda t: ['struct', [['b', M7], ['a', M8], ['c', t]]]),
    ('enum1', 'enum { Name(@) }', lambda t: ['enum', [['Name', t]]]),
    ('enum1_comma', 'enum { Name(@), }', lambda t: ['enum', [['Name', t]]]),
    ('enum3_first', 'enum { X(@), Y(%mark(8)), Z(%mark(9)) }', lambda t: ['enum', [['X', t], ['Y', M8], ['Z', M9]]]),
    ('enum3_mid', 'enum { Z(%mark(7)), Y(@), X(%mark(9)), }', lambda t: ['enum', [['Z', M7], ['Y', t], ['X', M9]]]),
    ('enum3_last', 'enum { B(%mark(7)), A(%mark(8)), C(@) }', lambda t: ['enum', [['B', M7], ['A', M8], ['C', t]]]),
    ('interp', '%binschema::schema!(@)', lambda t: t),
    ('inner', '%binschema::schema!(option(@))', lambda t: ['option', t]),
]
exp = {}
out = []
o = out.append
o('''//! Every form of schema! in every place. Written by tools/genforms.py; never run.
#![allow(dead_code, non_snake_case, non_camel_case_types, unused_variables)]
// What the macro has no business to mind.
pub struct Schema;
pub struct ScalarType;
pub struct SeqSchema;
pub struct StructSchemaField;
pub struct EnumSchemaVariant;
pub struct Box;
pub struct String;
pub struct Vec;
fn Some() {}
pub const None: () = ();
macro_rules! vec { ($($t:tt)*) => { () } }
macro_rules! stringify { ($($t:tt)*) => { "" } }

const LEN: usize = 11;

/// The schema built under this label; known to the analysis.
pub fn form(_label: &'static str, _s: binschema::Schema) {
    loop {}
}
/// A schema that is told apart by its number.
pub fn mark(_n: usize) -> binschema::Schema {
    loop {}
}
''')


def fn(name, cases, pre=''):
    o('pub fn %s() {' % name)
    if pre:
        o('    ' + pre)
    for k, (src, t) in enumerate(cases):
        l = '%s %d: %s' % (name, k, src if len(src) < 90 else src[:87] + '...')
        assert l not in exp
        exp[l] = t
        o('    form(%s, binschema::schema!(%s));' % (json.dumps(l, ensure_ascii=False), src))
    o('}\n')


for n, p, f in PLACES:
    fn('f_' + n, [(p.replace('@', s), f(t)) for s, t in FORMS])

# two levels of any two places
fn2 = []
for i, (n1, p1, f1) in enumerate(PLACES[1:]):
    for n2, p2, f2 in PLACES[1:]:
        fn2.append((p1.replace('@', p2.replace('@', '%mark(5)')), f1(f2(['mark', 5]))))
for k in range(0, len(fn2), 60):
    fn('g_%d' % (k // 60), fn2[k:k + 60])

NUMS = [0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096,
        32767, 32768, 65534, 65535, 65536, 65537, 1000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 53, 2 ** 63 - 1, 2 ** 63,
        2 ** 64 - 1]
fn('n_seq', [('seq(%d)(str)' % n, ['seq', n, STR]) for n in NUMS])
fn('n_recurse', [('recurse(%d)' % n, ['recurse', n]) for n in NUMS])
EX = [('{ let a = 3; a * a }', 9), ('(1 + 2) * 3', 9), ('if LEN > 3 { 4 } else { 5 }', 4), ('usize::MAX', 2 ** 64 - 1), ('k', 6), ('two(k)', 12), ('k - 1', 5),
      ('[10, 20, 30][1]', 20), ('0x10', 16), ('1_000usize', 1000), ('match k { 6 => 60, _ => 0 }', 60), ('varlen2', 13)]
EXPRE = 'let k = 6usize; let varlen2 = 13usize; fn two(n: usize) -> usize { n + n }'
fn('e_seq', [('seq(%s)(u8)' % e, ['seq', n, U8]) for e, n in EX], EXPRE)
fn('e_recurse', [('recurse(%s)' % e, ['recurse', n]) for e, n in EX], EXPRE)
o('pub fn e_generic() {')
for n in (0, 1, 4, 300, 70000):
    o('    fn of_%d<const N: usize>() -> binschema::Schema { binschema::schema!(seq(N)(recurse(N))) }' % n)
    l = 'e_generic: seq(N)(recurse(N)) with N = %d' % n
    exp[l] = ['seq', n, ['recurse', n]]
    o('    form(%s, of_%d::<%d>());' % (json.dumps(l), n, n))
o('}\n')

# names
KW = ['type', 'fn', 'struct', 'enum', 'match', 'let', 'self', 'Self', 'mod', 'impl', 'for', 'in', 'if', 'else', 'loop', 'while', 'return', 'move', 'ref', 'mut',
      'pub', 'use', 'where', 'as', 'async', 'await', 'dyn', 'static', 'const', 'crate', 'super', 'trait', 'true', 'false', 'unsafe', 'extern', 'break', 'continue',
      'abstract', 'become', 'box', 'do', 'final', 'macro', 'override', 'priv', 'try', 'typeof', 'unsized', 'virtual', 'yield', 'union']
FN = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64', 'char', 'bool', 'str', 'bytes', 'unit', 'option', 'seq', 'varlen', 'tuple',
      'recurse']
OD = ['a', 'A', '_a', '__', 'a_b_c', 'aB', 'A1', 'name', 'len', 'inner', 'item', 'field', 'variant', 'x' * 10, 'camelCase', 'SHOUT', 'größe', 'ключ', '名前', 'é',
      'a' * 63, 'b' * 64, 'c' * 65, 'd' * 255, 'e' * 256, 'f' * 300, 'x0', 'x00', 'true1', 'Some', 'None', 'Ok']
for k, ns in (('keyword', KW), ('form', FN), ('odd', OD)):
    fn('w_struct_' + k, [('struct { (%s: u8) }' % n, ['struct', [[n, U8]]]) for n in ns])
    fn('w_enum_' + k, [('enum { %s(u8) }' % n, ['enum', [[n, U8]]]) for n in ns])
    fn('w_all_' + k, [('struct { %s }' % ', '.join('(%s: %%mark(%d))' % (n, i) for i, n in enumerate(ns)), ['struct', [[n, ['mark', i]] for i, n in enumerate(ns)]]),
                      ('enum { %s }' % ', '.join('%s(%%mark(%d))' % (n, i) for i, n in enumerate(ns)), ['enum', [[n, ['mark', i]] for i, n in enumerate(ns)]])])
fn('w_same', [('struct { (a: u8), (a: str), (a: unit) }', ['struct', [['a', U8], ['a', STR], ['a', UNIT]]]),
              ('enum { A(u8), A(str), A(unit) }', ['enum', [['A', U8], ['A', STR], ['A', UNIT]]]),
              ('struct { (option: option(u8)), (seq: seq(2)(u8)), (tuple: tuple { (u8) }), (recurse: recurse(2)), }',
               ['struct', [['option', ['option', U8]], ['seq', ['seq', 2, U8]], ['tuple', ['tuple', [U8]]], ['recurse', ['recurse', 2]]]]),
              ('enum { option(option(u8)), seq(seq(2)(u8)), tuple(tuple { (u8) }), recurse(recurse(2)), unit(unit) }',
               ['enum', [['option', ['option', U8]], ['seq', ['seq', 2, U8]], ['tuple', ['tuple', [U8]]], ['recurse', ['recurse', 2]], ['unit', UNIT]]])])

# many parts
W = (4, 8, 9, 16, 17, 33, 64, 65)
fn('m_tuple', [('tuple { %s }' % ', '.join('(%%mark(%d))' % i for i in range(n)), ['tuple', [['mark', i] for i in range(n)]]) for n in W])
fn('m_struct', [('struct { %s }' % ', '.join('(n%d: %%mark(%d))' % (i, i) for i in range(n)), ['struct', [['n%d' % i, ['mark', i]] for i in range(n)]]) for n in W])
fn('m_enum', [('enum { %s, }' % ', '.join('N%d(%%mark(%d))' % (i, i) for i in range(n)), ['enum', [['N%d' % i, ['mark', i]] for i in range(n)]]) for n in W])
fn('m_wide', [('tuple { %s }' % ', '.join('(u8)' for i in range(260)), ['tuple', [U8] * 260]),
              ('struct { %s }' % ', '.join('(n%d: u8)' % i for i in range(260)), ['struct', [['n%d' % i, U8] for i in range(260)]]),
              ('enum { %s }' % ', '.join('N%d(unit)' % i for i in range(260)), ['enum', [['N%d' % i, UNIT] for i in range(260)]])])

# deep
def deep(n, src, t, pick):
    for i in range(n):
        _, p, f = PLACES[1 + pick(i) % (len(PLACES) - 1)]
        src, t = p.replace('@', src), f(t)
    return src, t
fn('d_deep', [deep(n, 'recurse(1)', ['recurse', 1], lambda i, a=a: a * i + a) for n in (3, 5, 9, 20) for a in (1, 2, 3, 5, 7, 11)] +
   [deep(40, 'bytes', ['leaf', 'Bytes'], lambda i: 0)])

# by way of other macros
o('''macro_rules! field { ($n:ident, $($t:tt)*) => { binschema::schema!(struct { ($n: $($t)*), (rest: option($($t)*)) }) } }
macro_rules! variant { ($n:ident, $t:tt, $e:expr) => { binschema::schema!(enum { $n($t), Other(seq($e)(%$e.of())) }) } }
macro_rules! many { ($($n:ident $t:tt)*) => { binschema::schema!(struct { $(($n: $t)),* }) } }
trait Of { fn of(self) -> binschema::Schema; }
impl Of for usize { fn of(self) -> binschema::Schema { binschema::schema!(recurse(self)) } }
''')
VIA = [('field!(a, seq(4)(u8))', ['struct', [['a', ['seq', 4, U8]], ['rest', ['option', ['seq', 4, U8]]]]]),
       ('field!(type, tuple { (u8), (str) })', ['struct', [['type', ['tuple', [U8, STR]]], ['rest', ['option', ['tuple', [U8, STR]]]]]]),
       ('variant!(A, unit, 3usize)', ['enum', [['A', UNIT], ['Other', ['seq', 3, ['recurse', 3]]]]]),
       ('many!(a u8 b str c unit)', ['struct', [['a', U8], ['b', STR], ['c', UNIT]]]),
       ('many!()', ['struct', []])]
o('pub fn v_macros() {')
for s, t in VIA:
    exp['v_macros: ' + s] = t
    o('    form(%s, %s);' % (json.dumps('v_macros: ' + s), s))
o('}\n')
# as an import, under another name, with braces or brackets
o('''pub fn v_imported() {
    use binschema::schema;
    use binschema::schema as form_of;
    form("v_imported: 1", schema!(option(u8)));
    form("v_imported: 2", form_of! { seq(varlen)(str) });
    form("v_imported: 3", schema![tuple { (u8), (str) }]);
    let s = mark(3);
    form("v_imported: 4", schema!(%s));
    let f = || mark(4);
    form("v_imported: 5", schema!(enum { A(%f()), B(%mark(5)) }));
}
''')
exp['v_imported: 1'] = ['option', U8]
exp['v_imported: 2'] = ['seq', None, STR]
exp['v_imported: 3'] = ['tuple', [U8, STR]]
exp['v_imported: 4'] = ['mark', 3]
exp['v_imported: 5'] = ['enum', [['A', ['mark', 4]], ['B', ['mark', 5]]]]
os.makedirs(V + '/forms/src', exist_ok=True)
src = '\n'.join(out)
src = src.replace('usize::MAX', 'std::primitive::usize::MAX') if False else src
open(V + '/forms/src/lib.rs', 'w').write(src)
json.dump(exp, open(V + '/forms/expected.json', 'w'), ensure_ascii=False, indent=0)
print(len(exp), 'forms')
