out = []
out.append('''//! Types of every shape with derived schemas and serde impls; never run.
#![allow(non_camel_case_types, dead_code, non_snake_case)]
use binschema::KnownSchema;
use serde::{Deserialize, Serialize};
use shapes::walk::both;
use std::collections::{BTreeMap, HashMap, HashSet};

/// The roots, with the types they are about.
macro_rules! roots {
    ($($n:ident $t:ty;)*) => {$(
        pub fn $n() {
            both::<$t>()
        }
    )*};
}

macro_rules! d {
    ($($i:item)*) => {$(
        #[derive(Serialize, Deserialize, KnownSchema)]
        $i
    )*};
}

/// What hand-written derived code cannot be told apart by: the name only.
pub mod other {
    use binschema::KnownSchema;
    use serde::{Deserialize, Serialize};
    d! {
        pub struct Node {
            pub there: Vec<Node>,
            pub here: Option<Box<super::Node>>,
        }
    }
}
''')
out.append('d! {')
o = out.append
o('''
    pub struct UnitStruct;
    pub struct EmptyTuple();
    pub struct EmptyStruct {}
    pub struct Newtype(pub u32);
    pub struct NewtypeNewtype(pub Newtype);
    pub struct NewtypeUnit(pub UnitStruct);
    pub struct Tuple2(pub u8, pub String);
    pub struct Tuple3(pub Newtype, pub EmptyTuple, pub UnitStruct);
    pub struct One { pub only: f64 }
    /// Documented.
    pub struct Named {
        /// A field.
        pub zulu: u8,
        #[allow(dead_code)]
        alpha: i128,
        pub(crate) mike: Option<bool>,
        pub a_b_c: (),
        pub A: char,
        pub unit: [u8; 4],
        pub option: Vec<String>,
        pub stack: u16,
        pub parent_stack: u64,
        pub s: f32,
        pub Schema: BTreeMap<String, Named2>,
    }
    pub struct Named2 { pub x: Tuple2, pub y: EmptyStruct }
    pub struct Raw { pub r#type: u8, pub r#match: String, pub plain: bool, pub r#fn: Box<u8> }
    pub enum RawEnum { r#type, r#struct(u8), r#enum { r#in: u8 } }
    pub enum Never {}
    pub enum OneUnit { Only }
    pub enum OneNewtype { Only(u8) }
    pub enum Units { A, B, C, D, E }
    pub enum All {
        Unit,
        EmptyTuple(),
        EmptyStruct {},
        Newtype(u8),
        NewtypeUnit(()),
        NewtypeTuple((u8, u16)),
        NewtypeStruct(Named2),
        Tuple(u8, String),
        Tuple3(Units, Newtype, Option<bool>),
        Struct { b: u8, a: u16 },
        StructOne { it: Units },
        unit,
    }
    pub enum Discr { A = 7, B = 3, C = 100 }
    pub struct Holds { pub all: All, pub more: Vec<All>, pub n: Newtype, pub u: UnitStruct, pub never: Option<Never> }

    // in itself, directly
    pub struct List { pub value: i32, pub next: Option<Box<List>> }
    pub enum Tree { Leaf, Node(Box<Tree>, u8, Box<Tree>) }
    pub enum Tree2 { Node { left: Box<Tree2>, value: String, right: Box<Tree2> }, Leaf(u8), Many(Vec<Tree2>), One(Box<Tree2>) }
    pub struct TupleRec(pub u8, pub Vec<TupleRec>);
    pub struct NewtypeRec(pub Vec<NewtypeRec>);
    pub struct NewtypeMap(pub BTreeMap<String, NewtypeMap>);
    pub struct NewtypeOpt(pub Option<Box<NewtypeOpt>>);
    pub struct Node { pub value: u8, pub there: other::Node, pub here: Vec<Node> }
    pub enum Json {
        Null,
        Bool(bool),
        Number(f64),
        Text(String),
        Array(Vec<Json>),
        Object(BTreeMap<String, Json>),
        Pair(Box<Json>, Box<(Json, Json)>),
        Fields { key: String, value: Box<Json>, rest: HashMap<String, Vec<Option<Json>>> },
    }
    // by level
    pub struct ByLevel { pub value: u8, #[schema(recurse = 1)] pub next: Box<ByLevelSelf> }
    pub struct ByLevelOuter { pub a: ByLevelInner, pub b: Option<Box<ByLevelOuter>> }
    pub enum ByLevelEnum {
        Leaf(u8),
        Node(#[schema(recurse = 2)] Box<ByLevelEnum>, u8),
        Fields { a: u8, #[schema(recurse = 2)] b: Box<ByLevelEnum> },
        One(#[schema(recurse = 1)] Box<ByLevelEnum>),
    }

    // in each other
    pub struct Even { pub next: Option<Box<Odd>> }
    pub struct Odd { pub value: u8, pub next: Option<Box<Even>> }
    pub struct A { pub a: Option<Box<A>>, pub b: Vec<B>, pub c: Box<C> }
    pub struct B { pub x: u8, pub a: Vec<A>, pub b: Option<Box<B>>, pub c: (C, Vec<B>) }
    pub struct C { pub a: Vec<Vec<A>>, pub b: Vec<Option<(u8, B)>>, pub c: BTreeMap<u8, C> }
    pub enum Expr { Lit(Lit), Call(Box<Call>), Block(Vec<Stmt>), Neg(Box<Expr>), Bin { l: Box<Expr>, op: Op, r: Box<Expr> } }
    pub enum Stmt { Expr(Expr), Let { name: String, init: Option<Expr> }, Loop(Block), Nothing }
    pub struct Block(pub Vec<Stmt>);
    pub struct Call { pub f: Expr, pub args: Args }
    pub struct Args(pub Vec<Expr>);
    pub enum Lit { Int(i64), Lambda(Lambda) }
    pub struct Lambda(pub String, pub Box<Expr>, pub Block);
    pub enum Op { Add, Custom(Box<Expr>), Map(HashMap<String, Call>) }
    pub enum Ping { Pong(Pong), End }
    pub struct Pong(pub Box<Wrap>);
    pub struct Wrap(pub Box<Ping>);
    pub enum Chain { Next(Box<Chain2>), Stop }
    pub enum Chain2 { Next(Box<Chain3>), Back(Box<Chain>) }
    pub enum Chain3 { Next { chain: Box<Chain>, two: Vec<Chain2>, me: Option<Box<Chain3>> }, Set(Vec<(Chain2, Chain3)>) }
    pub struct Inner1 { pub o: Option<Box<Outer1>>, pub me: Vec<Inner1> }
    pub struct Outer1 { pub a: Inner1, pub b: Inner1, pub c: Vec<Outer1>, pub d: (Inner1, [Inner1; 2]) }
    pub struct NewOuter(pub NewInner);
    pub struct NewInner { pub o: Vec<NewOuter>, pub i: Option<Box<NewInner>>, pub w: NewWrap }
    pub struct NewWrap(pub Vec<NewWrap2>);
    pub struct NewWrap2(pub Box<NewInner>);
    pub struct Bounds { pub r: Vec<std::ops::Range<Bounds>>, pub b: Vec<std::ops::Bound<Box<Bounds>>>, pub i: Option<Box<std::ops::RangeInclusive<Bounds>>> }
''')
# big ones
o('    pub struct Tuple26(%s);' % ', '.join('pub u%d' % (8 << (i % 5)) for i in range(26)))
o('    pub struct Fields70 { %s }' % ', '.join('pub f%d: u%d' % (i, 8 << (i % 5)) for i in range(70)))
o('    pub enum Variants300 { %s }' % ', '.join('V%d%s' % (i, ('', '(u8)', '(u8, u16)', ' { a: u8, b: Vec<Variants300> }')[i % 4]) for i in range(300)))
o('    pub enum VTuple20 { A, B(%s) }' % ', '.join('u%d' % (8 << (i % 5)) for i in range(20)))
o('    pub enum VFields40 { A, B { %s } }' % ', '.join('f%d: u%d' % (i, 8 << (i % 5)) for i in range(40)))
NAMES = ('_x', '__y', 'x_', '_', 'X', 'XyZ', 'camelCase', 'SHOUT_CASE', 'x1', '_1', 'a__b', 'u8', 'seq', 'tuple', 'varlen', 'recurse', 'bytes', 'str', 'len', 'inner',
         'name', 'Box', 'Vec', 'Some', 'None', 'usize', 'String', 'größe', 'ключ', 'field', 'layer', 'serde', 'binschema', 'std', 'core', 'T', 'n', 'v', 'level',
         'x' * 33, 'y' * 64, 'z' * 65, 'w' * 260)
NAMES = [n for n in NAMES if n != '_']
o('    pub struct Names { %s }' % ', '.join('%s: u%d' % (n, 8 << (i % 5)) for i, n in enumerate(NAMES)))
o('    pub enum VNames { %s }' % ', '.join('%s%s' % (n, ('', '(u8)', ' { %s: u8, stack: u16 }' % NAMES[i - 1].replace('Some', 'some').replace('None', 'none'))[i % 3]) for i, n in enumerate(NAMES)))
o('    pub struct _Under { _a: u8 }')
o('    pub enum _under { _a, _B(u8), __c { __d: Vec<_under>, _e_: _Under } }')
# a deep nest of types with recursion at every level to the outermost, the middle and the innermost
N = 24
for i in range(N):
    nxt = 'Option<Box<Deep%d>>' % (i + 1) if i + 1 < N else 'Vec<Deep0>'
    o('    pub struct Deep%d { pub top: Vec<Deep0>, pub mid: Option<Box<Deep%d>>, pub me: BTreeMap<u8, Deep%d>, pub next: %s }' % (i, i // 2, i, nxt))
o('}')
o('''
// what the levels above mean
pub type ByLevelSelf = ByLevel;
#[derive(Serialize, Deserialize, KnownSchema)]
pub struct ByLevelInner { #[schema(recurse = 2)] pub up: Box<ByLevelOuter>, pub me: Vec<ByLevelInner> }
''')
import re
names = re.findall(r'pub (?:struct|enum) (\w+)', '\n'.join(out[1:]))
names = [n for n in names if n not in ('ByLevelInner',)]
names = [n for i, n in enumerate(names) if not n.startswith('Deep') or n == 'Deep0']
o('roots! {')
for n in names:
    o('    r_%s %s;' % (n, n))
o('''    r_other other::Node;
    p_rec (u8, Vec<List>);
    p_newtype Vec<(NewtypeRec, NewtypeRec)>;
    p_mutual BTreeMap<String, (Even, Odd, Option<Even>)>;
    p_expr Option<[Expr; 2]>;
    p_pong (Pong, Wrap, Ping);
    p_outer Result2;
    p_set Vec<HashSet<String>>;
}

#[derive(Serialize, Deserialize, KnownSchema)]
pub enum Result2 { Ok(Outer1), Err(NewOuter), Both(NewInner, Json), Named { a: Tree, b: Tree2, c: All } }''')
open('/verif/derived/src/lib.rs', 'w').write('\n'.join(out) + '\n')
