//! Types of every shape with derived schemas and serde impls; never run.
#![allow(non_camel_case_types, dead_code, non_snake_case)]
use binschema::KnownSchema;
use serde::{Deserialize, Serialize};
use shapes::walk::both;
use std::collections::{BTreeMap, HashMap, HashSet};

/// The roots, with the types they are about.
macro_rules! roots {
    ($($n:ident $t:ty;)*) => {$(
        pub fn $n() {
            both::<$t>()
        }
    )*};
}

macro_rules! d {
    ($($i:item)*) => {$(
        #[derive(Serialize, Deserialize, KnownSchema)]
        $i
    )*};
}

/// What hand-written derived code cannot be told apart by: the name only.
pub mod other {
    use binschema::KnownSchema;
    use serde::{Deserialize, Serialize};
    d! {
        pub struct Node {
            pub there: Vec<Node>,
            pub here: Option<Box<super::Node>>,
        }
    }
}

d! {

    pub struct UnitStruct;
    pub struct EmptyTuple();
    pub struct EmptyStruct {}
    pub struct Newtype(pub u32);
    pub struct NewtypeNewtype(pub Newtype);
    pub struct NewtypeUnit(pub UnitStruct);
    pub struct Tuple2(pub u8, pub String);
    pub struct Tuple3(pub Newtype, pub EmptyTuple, pub UnitStruct);
    pub struct One { pub only: f64 }
    /// Documented.
    pub struct Named {
        /// A field.
        pub zulu: u8,
        #[allow(dead_code)]
        alpha: i128,
        pub(crate) mike: Option<bool>,
        pub a_b_c: (),
        pub A: char,
        pub unit: [u8; 4],
        pub option: Vec<String>,
        pub stack: u16,
        pub parent_stack: u64,
        pub s: f32,
        pub Schema: BTreeMap<String, Named2>,
    }
    pub struct Named2 { pub x: Tuple2, pub y: EmptyStruct }
    pub struct Raw { pub r#type: u8, pub r#match: String, pub plain: bool, pub r#fn: Box<u8> }
    pub enum RawEnum { r#type, r#struct(u8), r#enum { r#in: u8 } }
    pub enum Never {}
    pub enum OneUnit { Only }
    pub enum OneNewtype { Only(u8) }
    pub enum Units { A, B, C, D, E }
    pub enum All {
        Unit,
        EmptyTuple(),
        EmptyStruct {},
        Newtype(u8),
        NewtypeUnit(()),
        NewtypeTuple((u8, u16)),
        NewtypeStruct(Named2),
        Tuple(u8, String),
        Tuple3(Units, Newtype, Option<bool>),
        Struct { b: u8, a: u16 },
        StructOne { it: Units },
        unit,
    }
    pub enum Discr { A = 7, B = 3, C = 100 }
    pub struct Holds { pub all: All, pub more: Vec<All>, pub n: Newtype, pub u: UnitStruct, pub never: Option<Never> }

    // in itself, directly
    pub struct List { pub value: i32, pub next: Option<Box<List>> }
    pub enum Tree { Leaf, Node(Box<Tree>, u8, Box<Tree>) }
    pub enum Tree2 { Node { left: Box<Tree2>, value: String, right: Box<Tree2> }, Leaf(u8), Many(Vec<Tree2>), One(Box<Tree2>) }
    pub struct TupleRec(pub u8, pub Vec<TupleRec>);
    pub struct NewtypeRec(pub Vec<NewtypeRec>);
    pub struct NewtypeMap(pub BTreeMap<String, NewtypeMap>);
    pub struct NewtypeOpt(pub Option<Box<NewtypeOpt>>);
    pub struct Node { pub value: u8, pub there: other::Node, pub here: Vec<Node> }
    pub enum Json {
        Null,
        Bool(bool),
        Number(f64),
        Text(String),
        Array(Vec<Json>),
        Object(BTreeMap<String, Json>),
        Pair(Box<Json>, Box<(Json, Json)>),
        Fields { key: String, value: Box<Json>, rest: HashMap<String, Vec<Option<Json>>> },
    }
    // by level
    pub struct ByLevel { pub value: u8, #[schema(recurse = 1)] pub next: Box<ByLevelSelf> }
    pub struct ByLevelOuter { pub a: ByLevelInner, pub b: Option<Box<ByLevelOuter>> }
    pub enum ByLevelEnum {
        Leaf(u8),
        Node(#[schema(recurse = 2)] Box<ByLevelEnum>, u8),
        Fields { a: u8, #[schema(recurse = 2)] b: Box<ByLevelEnum> },
        One(#[schema(recurse = 1)] Box<ByLevelEnum>),
    }

    // in each other
    pub struct Even { pub next: Option<Box<Odd>> }
    pub struct Odd { pub value: u8, pub next: Option<Box<Even>> }
    pub struct A { pub a: Option<Box<A>>, pub b: Vec<B>, pub c: Box<C> }
    pub struct B { pub x: u8, pub a: Vec<A>, pub b: Option<Box<B>>, pub c: (C, Vec<B>) }
    pub struct C { pub a: Vec<Vec<A>>, pub b: Vec<Option<(u8, B)>>, pub c: BTreeMap<u8, C> }
    pub enum Expr { Lit(Lit), Call(Box<Call>), Block(Vec<Stmt>), Neg(Box<Expr>), Bin { l: Box<Expr>, op: Op, r: Box<Expr> } }
    pub enum Stmt { Expr(Expr), Let { name: String, init: Option<Expr> }, Loop(Block), Nothing }
    pub struct Block(pub Vec<Stmt>);
    pub struct Call { pub f: Expr, pub args: Args }
    pub struct Args(pub Vec<Expr>);
    pub enum Lit { Int(i64), Lambda(Lambda) }
    pub struct Lambda(pub String, pub Box<Expr>, pub Block);
    pub enum Op { Add, Custom(Box<Expr>), Map(HashMap<String, Call>) }
    pub enum Ping { Pong(Pong), End }
    pub struct Pong(pub Box<Wrap>);
    pub struct Wrap(pub Box<Ping>);
    pub enum Chain { Next(Box<Chain2>), Stop }
    pub enum Chain2 { Next(Box<Chain3>), Back(Box<Chain>) }
    pub enum Chain3 { Next { chain: Box<Chain>, two: Vec<Chain2>, me: Option<Box<Chain3>> }, Set(Vec<(Chain2, Chain3)>) }
    pub struct Inner1 { pub o: Option<Box<Outer1>>, pub me: Vec<Inner1> }
    pub struct Outer1 { pub a: Inner1, pub b: Inner1, pub c: Vec<Outer1>, pub d: (Inner1, [Inner1; 2]) }
    pub struct NewOuter(pub NewInner);
    pub struct NewInner { pub o: Vec<NewOuter>, pub i: Option<Box<NewInner>>, pub w: NewWrap }
    pub struct NewWrap(pub Vec<NewWrap2>);
    pub struct NewWrap2(pub Box<NewInner>);
    pub struct Bounds { pub r: Vec<std::ops::Range<Bounds>>, pub b: Vec<std::ops::Bound<Box<Bounds>>>, pub i: Option<Box<std::ops::RangeInclusive<Bounds>>> }

    pub struct Tuple26(pub u8, pub u16, pub u32, pub u64, pub u128, pub u8, pub u16, pub u32, pub u64, pub u128, pub u8, pub u16, pub u32, pub u64, pub u128, pub u8, pub u16, pub u32, pub u64, pub u128, pub u8, pub u16, pub u32, pub u64, pub u128, pub u8);
    pub struct Fields70 { pub f0: u8, pub f1: u16, pub f2: u32, pub f3: u64, pub f4: u128, pub f5: u8, pub f6: u16, pub f7: u32, pub f8: u64, pub f9: u128, pub f10: u8, pub f11: u16, pub f12: u32, pub f13: u64, pub f14: u128, pub f15: u8, pub f16: u16, pub f17: u32, pub f18: u64, pub f19: u128, pub f20: u8, pub f21: u16, pub f22: u32, pub f23: u64, pub f24: u128, pub f25: u8, pub f26: u16, pub f27: u32, pub f28: u64, pub f29: u128, pub f30: u8, pub f31: u16, pub f32: u32, pub f33: u64, pub f34: u128, pub f35: u8, pub f36: u16, pub f37: u32, pub f38: u64, pub f39: u128, pub f40: u8, pub f41: u16, pub f42: u32, pub f43: u64, pub f44: u128, pub f45: u8, pub f46: u16, pub f47: u32, pub f48: u64, pub f49: u128, pub f50: u8, pub f51: u16, pub f52: u32, pub f53: u64, pub f54: u128, pub f55: u8, pub f56: u16, pub f57: u32, pub f58: u64, pub f59: u128, pub f60: u8, pub f61: u16, pub f62: u32, pub f63: u64, pub f64: u128, pub f65: u8, pub f66: u16, pub f67: u32, pub f68: u64, pub f69: u128 }
    pub enum Variants300 { V0, V1(u8), V2(u8, u16), V3 { a: u8, b: Vec<Variants300> }, V4, V5(u8), V6(u8, u16), V7 { a: u8, b: Vec<Variants300> }, V8, V9(u8), V10(u8, u16), V11 { a: u8, b: Vec<Variants300> }, V12, V13(u8), V14(u8, u16), V15 { a: u8, b: Vec<Variants300> }, V16, V17(u8), V18(u8, u16), V19 { a: u8, b: Vec<Variants300> }, V20, V21(u8), V22(u8, u16), V23 { a: u8, b: Vec<Variants300> }, V24, V25(u8), V26(u8, u16), V27 { a: u8, b: Vec<Variants300> }, V28, V29(u8), V30(u8, u16), V31 { a: u8, b: Vec<Variants300> }, V32, V33(u8), V34(u8, u16), V35 { a: u8, b: Vec<Variants300> }, V36, V37(u8), V38(u8, u16), V39 { a: u8, b: Vec<Variants300> }, V40, V41(u8), V42(u8, u16), V43 { a: u8, b: Vec<Variants300> }, V44, V45(u8), V46(u8, u16), V47 { a: u8, b: Vec<Variants300> }, V48, V49(u8), V50(u8, u16), V51 { a: u8, b: Vec<Variants300> }, V52, V53(u8), V54(u8, u16), V55 { a: u8, b: Vec<Variants300> }, V56, V57(u8), V58(u8, u16), V59 { a: u8, b: Vec<Variants300> }, V60, V61(u8), V62(u8, u16), V63 { a: u8, b: Vec<Variants300> }, V64, V65(u8), V66(u8, u16), V67 { a: u8, b: Vec<Variants300> }, V68, V69(u8), V70(u8, u16), V71 { a: u8, b: Vec<Variants300> }, V72, V73(u8), V74(u8, u16), V75 { a: u8, b: Vec<Variants300> }, V76, V77(u8), V78(u8, u16), V79 { a: u8, b: Vec<Variants300> }, V80, V81(u8), V82(u8, u16), V83 { a: u8, b: Vec<Variants300> }, V84, V85(u8), V86(u8, u16), V87 { a: u8, b: Vec<Variants300> }, V88, V89(u8), V90(u8, u16), V91 { a: u8, b: Vec<Variants300> }, V92, V93(u8), V94(u8, u16), V95 { a: u8, b: Vec<Variants300> }, V96, V97(u8), V98(u8, u16), V99 { a: u8, b: Vec<Variants300> }, V100, V101(u8), V102(u8, u16), V103 { a: u8, b: Vec<Variants300> }, V104, V105(u8), V106(u8, u16), V107 { a: u8, b: Vec<Variants300> }, V108, V109(u8), V110(u8, u16), V111 { a: u8, b: Vec<Variants300> }, V112, V113(u8), V114(u8, u16), V115 { a: u8, b: Vec<Variants300> }, V116, V117(u8), V118(u8, u16), V119 { a: u8, b: Vec<Variants300> }, V120, V121(u8), V122(u8, u16), V123 { a: u8, b: Vec<Variants300> }, V124, V125(u8), V126(u8, u16), V127 { a: u8, b: Vec<Variants300> }, V128, V129(u8), V130(u8, u16), V131 { a: u8, b: Vec<Variants300> }, V132, V133(u8), V134(u8, u16), V135 { a: u8, b: Vec<Variants300> }, V136, V137(u8), V138(u8, u16), V139 { a: u8, b: Vec<Variants300> }, V140, V141(u8), V142(u8, u16), V143 { a: u8, b: Vec<Variants300> }, V144, V145(u8), V146(u8, u16), V147 { a: u8, b: Vec<Variants300> }, V148, V149(u8), V150(u8, u16), V151 { a: u8, b: Vec<Variants300> }, V152, V153(u8), V154(u8, u16), V155 { a: u8, b: Vec<Variants300> }, V156, V157(u8), V158(u8, u16), V159 { a: u8, b: Vec<Variants300> }, V160, V161(u8), V162(u8, u16), V163 { a: u8, b: Vec<Variants300> }, V164, V165(u8), V166(u8, u16), V167 { a: u8, b: Vec<Variants300> }, V168, V169(u8), V170(u8, u16), V171 { a: u8, b: Vec<Variants300> }, V172, V173(u8), V174(u8, u16), V175 { a: u8, b: Vec<Variants300> }, V176, V177(u8), V178(u8, u16), V179 { a: u8, b: Vec<Variants300> }, V180, V181(u8), V182(u8, u16), V183 { a: u8, b: Vec<Variants300> }, V184, V185(u8), V186(u8, u16), V187 { a: u8, b: Vec<Variants300> }, V188, V189(u8), V190(u8, u16), V191 { a: u8, b: Vec<Variants300> }, V192, V193(u8), V194(u8, u16), V195 { a: u8, b: Vec<Variants300> }, V196, V197(u8), V198(u8, u16), V199 { a: u8, b: Vec<Variants300> }, V200, V201(u8), V202(u8, u16), V203 { a: u8, b: Vec<Variants300> }, V204, V205(u8), V206(u8, u16), V207 { a: u8, b: Vec<Variants300> }, V208, V209(u8), V210(u8, u16), V211 { a: u8, b: Vec<Variants300> }, V212, V213(u8), V214(u8, u16), V215 { a: u8, b: Vec<Variants300> }, V216, V217(u8), V218(u8, u16), V219 { a: u8, b: Vec<Variants300> }, V220, V221(u8), V222(u8, u16), V223 { a: u8, b: Vec<Variants300> }, V224, V225(u8), V226(u8, u16), V227 { a: u8, b: Vec<Variants300> }, V228, V229(u8), V230(u8, u16), V231 { a: u8, b: Vec<Variants300> }, V232, V233(u8), V234(u8, u16), V235 { a: u8, b: Vec<Variants300> }, V236, V237(u8), V238(u8, u16), V239 { a: u8, b: Vec<Variants300> }, V240, V241(u8), V242(u8, u16), V243 { a: u8, b: Vec<Variants300> }, V244, V245(u8), V246(u8, u16), V247 { a: u8, b: Vec<Variants300> }, V248, V249(u8), V250(u8, u16), V251 { a: u8, b: Vec<Variants300> }, V252, V253(u8), V254(u8, u16), V255 { a: u8, b: Vec<Variants300> }, V256, V257(u8), V258(u8, u16), V259 { a: u8, b: Vec<Variants300> }, V260, V261(u8), V262(u8, u16), V263 { a: u8, b: Vec<Variants300> }, V264, V265(u8), V266(u8, u16), V267 { a: u8, b: Vec<Variants300> }, V268, V269(u8), V270(u8, u16), V271 { a: u8, b: Vec<Variants300> }, V272, V273(u8), V274(u8, u16), V275 { a: u8, b: Vec<Variants300> }, V276, V277(u8), V278(u8, u16), V279 { a: u8, b: Vec<Variants300> }, V280, V281(u8), V282(u8, u16), V283 { a: u8, b: Vec<Variants300> }, V284, V285(u8), V286(u8, u16), V287 { a: u8, b: Vec<Variants300> }, V288, V289(u8), V290(u8, u16), V291 { a: u8, b: Vec<Variants300> }, V292, V293(u8), V294(u8, u16), V295 { a: u8, b: Vec<Variants300> }, V296, V297(u8), V298(u8, u16), V299 { a: u8, b: Vec<Variants300> } }
    pub enum VTuple20 { A, B(u8, u16, u32, u64, u128, u8, u16, u32, u64, u128, u8, u16, u32, u64, u128, u8, u16, u32, u64, u128) }
    pub enum VFields40 { A, B { f0: u8, f1: u16, f2: u32, f3: u64, f4: u128, f5: u8, f6: u16, f7: u32, f8: u64, f9: u128, f10: u8, f11: u16, f12: u32, f13: u64, f14: u128, f15: u8, f16: u16, f17: u32, f18: u64, f19: u128, f20: u8, f21: u16, f22: u32, f23: u64, f24: u128, f25: u8, f26: u16, f27: u32, f28: u64, f29: u128, f30: u8, f31: u16, f32: u32, f33: u64, f34: u128, f35: u8, f36: u16, f37: u32, f38: u64, f39: u128 } }
    pub struct Names { _x: u8, __y: u16, x_: u32, X: u64, XyZ: u128, camelCase: u8, SHOUT_CASE: u16, x1: u32, _1: u64, a__b: u128, u8: u8, seq: u16, tuple: u32, varlen: u64, recurse: u128, bytes: u8, str: u16, len: u32, inner: u64, name: u128, Box: u8, Vec: u16, Some: u32, None: u64, usize: u128, String: u8, größe: u16, ключ: u32, field: u64, layer: u128, serde: u8, binschema: u16, std: u32, core: u64, T: u128, n: u8, v: u16, level: u32, xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx: u64, yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy: u128, zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz: u8, wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww: u16 }
    pub enum VNames { _x, __y(u8), x_ { __y: u8, stack: u16 }, X, XyZ(u8), camelCase { XyZ: u8, stack: u16 }, SHOUT_CASE, x1(u8), _1 { x1: u8, stack: u16 }, a__b, u8(u8), seq { u8: u8, stack: u16 }, tuple, varlen(u8), recurse { varlen: u8, stack: u16 }, bytes, str(u8), len { str: u8, stack: u16 }, inner, name(u8), Box { name: u8, stack: u16 }, Vec, Some(u8), None { some: u8, stack: u16 }, usize, String(u8), größe { String: u8, stack: u16 }, ключ, field(u8), layer { field: u8, stack: u16 }, serde, binschema(u8), std { binschema: u8, stack: u16 }, core, T(u8), n { T: u8, stack: u16 }, v, level(u8), xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx { level: u8, stack: u16 }, yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy, zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz(u8), wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww { zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz: u8, stack: u16 } }
    pub struct _Under { _a: u8 }
    pub enum _under { _a, _B(u8), __c { __d: Vec<_under>, _e_: _Under } }
    pub struct Deep0 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep0>>, pub me: BTreeMap<u8, Deep0>, pub next: Option<Box<Deep1>> }
    pub struct Deep1 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep0>>, pub me: BTreeMap<u8, Deep1>, pub next: Option<Box<Deep2>> }
    pub struct Deep2 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep1>>, pub me: BTreeMap<u8, Deep2>, pub next: Option<Box<Deep3>> }
    pub struct Deep3 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep1>>, pub me: BTreeMap<u8, Deep3>, pub next: Option<Box<Deep4>> }
    pub struct Deep4 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep2>>, pub me: BTreeMap<u8, Deep4>, pub next: Option<Box<Deep5>> }
    pub struct Deep5 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep2>>, pub me: BTreeMap<u8, Deep5>, pub next: Option<Box<Deep6>> }
    pub struct Deep6 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep3>>, pub me: BTreeMap<u8, Deep6>, pub next: Option<Box<Deep7>> }
    pub struct Deep7 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep3>>, pub me: BTreeMap<u8, Deep7>, pub next: Option<Box<Deep8>> }
    pub struct Deep8 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep4>>, pub me: BTreeMap<u8, Deep8>, pub next: Option<Box<Deep9>> }
    pub struct Deep9 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep4>>, pub me: BTreeMap<u8, Deep9>, pub next: Option<Box<Deep10>> }
    pub struct Deep10 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep5>>, pub me: BTreeMap<u8, Deep10>, pub next: Option<Box<Deep11>> }
    pub struct Deep11 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep5>>, pub me: BTreeMap<u8, Deep11>, pub next: Option<Box<Deep12>> }
    pub struct Deep12 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep6>>, pub me: BTreeMap<u8, Deep12>, pub next: Option<Box<Deep13>> }
    pub struct Deep13 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep6>>, pub me: BTreeMap<u8, Deep13>, pub next: Option<Box<Deep14>> }
    pub struct Deep14 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep7>>, pub me: BTreeMap<u8, Deep14>, pub next: Option<Box<Deep15>> }
    pub struct Deep15 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep7>>, pub me: BTreeMap<u8, Deep15>, pub next: Option<Box<Deep16>> }
    pub struct Deep16 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep8>>, pub me: BTreeMap<u8, Deep16>, pub next: Option<Box<Deep17>> }
    pub struct Deep17 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep8>>, pub me: BTreeMap<u8, Deep17>, pub next: Option<Box<Deep18>> }
    pub struct Deep18 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep9>>, pub me: BTreeMap<u8, Deep18>, pub next: Option<Box<Deep19>> }
    pub struct Deep19 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep9>>, pub me: BTreeMap<u8, Deep19>, pub next: Option<Box<Deep20>> }
    pub struct Deep20 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep10>>, pub me: BTreeMap<u8, Deep20>, pub next: Option<Box<Deep21>> }
    pub struct Deep21 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep10>>, pub me: BTreeMap<u8, Deep21>, pub next: Option<Box<Deep22>> }
    pub struct Deep22 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep11>>, pub me: BTreeMap<u8, Deep22>, pub next: Option<Box<Deep23>> }
    pub struct Deep23 { pub top: Vec<Deep0>, pub mid: Option<Box<Deep11>>, pub me: BTreeMap<u8, Deep23>, pub next: Vec<Deep0> }
}

// what the levels above mean
pub type ByLevelSelf = ByLevel;
#[derive(Serialize, Deserialize, KnownSchema)]
pub struct ByLevelInner { #[schema(recurse = 2)] pub up: Box<ByLevelOuter>, pub me: Vec<ByLevelInner> }

roots! {
    r_UnitStruct UnitStruct;
    r_EmptyTuple EmptyTuple;
    r_EmptyStruct EmptyStruct;
    r_Newtype Newtype;
    r_NewtypeNewtype NewtypeNewtype;
    r_NewtypeUnit NewtypeUnit;
    r_Tuple2 Tuple2;
    r_Tuple3 Tuple3;
    r_One One;
    r_Named Named;
    r_Named2 Named2;
    r_Raw Raw;
    r_RawEnum RawEnum;
    r_Never Never;
    r_OneUnit OneUnit;
    r_OneNewtype OneNewtype;
    r_Units Units;
    r_All All;
    r_Discr Discr;
    r_Holds Holds;
    r_List List;
    r_Tree Tree;
    r_Tree2 Tree2;
    r_TupleRec TupleRec;
    r_NewtypeRec NewtypeRec;
    r_NewtypeMap NewtypeMap;
    r_NewtypeOpt NewtypeOpt;
    r_Node Node;
    r_Json Json;
    r_ByLevel ByLevel;
    r_ByLevelOuter ByLevelOuter;
    r_ByLevelEnum ByLevelEnum;
    r_Even Even;
    r_Odd Odd;
    r_A A;
    r_B B;
    r_C C;
    r_Expr Expr;
    r_Stmt Stmt;
    r_Block Block;
    r_Call Call;
    r_Args Args;
    r_Lit Lit;
    r_Lambda Lambda;
    r_Op Op;
    r_Ping Ping;
    r_Pong Pong;
    r_Wrap Wrap;
    r_Chain Chain;
    r_Chain2 Chain2;
    r_Chain3 Chain3;
    r_Inner1 Inner1;
    r_Outer1 Outer1;
    r_NewOuter NewOuter;
    r_NewInner NewInner;
    r_NewWrap NewWrap;
    r_NewWrap2 NewWrap2;
    r_Bounds Bounds;
    r_Tuple26 Tuple26;
    r_Fields70 Fields70;
    r_Variants300 Variants300;
    r_VTuple20 VTuple20;
    r_VFields40 VFields40;
    r_Names Names;
    r_VNames VNames;
    r__Under _Under;
    r__under _under;
    r_Deep0 Deep0;
    r_other other::Node;
    p_rec (u8, Vec<List>);
    p_newtype Vec<(NewtypeRec, NewtypeRec)>;
    p_mutual BTreeMap<String, (Even, Odd, Option<Even>)>;
    p_expr Option<[Expr; 2]>;
    p_pong (Pong, Wrap, Ping);
    p_outer Result2;
    p_set Vec<HashSet<String>>;
}

#[derive(Serialize, Deserialize, KnownSchema)]
pub enum Result2 { Ok(Outer1), Err(NewOuter), Both(NewInner, Json), Named { a: Tree, b: Tree2, c: All } }
