//! Every type of the standard library that has a known schema, by itself and as part of types that contain themselves.
use crate::walk::{both, out};
use binschema::{KnownSchema, RecurseStack, Schema};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::ops::{Bound, Range, RangeInclusive};

macro_rules! all {
    ($f:ident: $($n:ident $t:ty;)*) => {$(
        pub fn $n() {
            $f::<$t>()
        }
    )*};
}

all! { both:
    t_u8 u8; t_u16 u16; t_u32 u32; t_u64 u64; t_u128 u128; t_usize usize;
    t_i8 i8; t_i16 i16; t_i32 i32; t_i64 i64; t_i128 i128; t_isize isize;
    t_f32 f32; t_f64 f64; t_char char; t_bool bool; t_string String; t_unit ();
    t_option Option<i8>;
    t_option2 Option<Option<String>>;
    t_vec Vec<u16>;
    t_vec2 Vec<Vec<bool>>;
    t_heap BinaryHeap<u32>;
    t_bset BTreeSet<String>;
    t_hset HashSet<u64>;
    t_list LinkedList<char>;
    t_deque VecDeque<f32>;
    t_bmap BTreeMap<u8, String>;
    t_hmap HashMap<String, i64>;
    t_map_unit BTreeMap<(), ()>;
    t_arr0 [u8; 0];
    t_arr1 [f64; 1];
    t_arr3 [i16; 3];
    t_arr32 [u128; 32];
    t_arr_arr [[u8; 2]; 3];
    t_tup1 (u8,);
    t_tup2 (u8, u16);
    t_tup3 (u8, u16, u32);
    t_tup4 (u8, u16, u32, u64);
    t_tup5 (u8, u16, u32, u64, u128);
    t_tup6 (u8, u16, u32, u64, u128, i8);
    t_tup7 (u8, u16, u32, u64, u128, i8, i16);
    t_tup8 (u8, u16, u32, u64, u128, i8, i16, i32);
    t_tup9 (u8, u16, u32, u64, u128, i8, i16, i32, i64);
    t_tup10 (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
    t_tup11 (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, String);
    t_range Range<u32>;
    t_rangei RangeInclusive<i8>;
    t_bound Bound<String>;
    t_box Box<u8>;
    t_cow Cow<'static, String>;
    t_deep Option<Vec<(BTreeMap<String, [Bound<Range<u8>>; 2]>, Box<Option<HashSet<(char, bool)>>>)>>;
}

all! { out:
    t_str str;
    t_slice [u16];
    t_slice_vec [Vec<u8>];
    t_ref &'static u64;
    t_mut &'static mut i64;
    t_ref_ref &'static &'static String;
    t_ref_vec Vec<&'static Option<u8>>;
}

// A type that contains itself by way of `C`, with another layer in between and a part next to it. Its schema finds it
// on the stack it gets, as every `KnownSchema` of a type that contains itself does.
macro_rules! knot {
    ($($n:ident $m:ident $k:ident: $c:ty;)*) => {$(
        #[derive(Serialize, Deserialize)]
        #[serde(bound = "")]
        pub struct $k {
            pub a: $c,
            pub b: u8,
        }
        impl PartialEq for $k {
            fn eq(&self, _: &Self) -> bool {
                unimplemented!()
            }
        }
        impl Eq for $k {}
        impl PartialOrd for $k {
            fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> {
                unimplemented!()
            }
        }
        impl Ord for $k {
            fn cmp(&self, _: &Self) -> std::cmp::Ordering {
                unimplemented!()
            }
        }
        impl std::hash::Hash for $k {
            fn hash<H: std::hash::Hasher>(&self, _: &mut H) {
                unimplemented!()
            }
        }
        impl Clone for $k {
            fn clone(&self) -> Self {
                unimplemented!()
            }
        }
        impl KnownSchema for $k {
            fn schema(parent_stack: RecurseStack) -> Schema {
                if let Some(s) = parent_stack.parent_recurse::<Self>() {
                    return s;
                }
                let stack = parent_stack.with_type_layer::<Self>();
                Schema::Struct(vec![
                    binschema::StructSchemaField { name: "a".into(), inner: <$c>::schema(stack) },
                    binschema::StructSchemaField { name: "b".into(), inner: u8::schema(stack) },
                ])
            }
        }
        pub fn $n() {
            both::<$k>()
        }
        pub fn $m() {
            both::<(bool, Option<$k>)>()
        }
    )*};
}

knot! {
    k_option o_option KOption: Option<Box<KOption>>;
    k_vec o_vec KVec: Vec<KVec>;
    k_heap o_heap KHeap: BinaryHeap<KHeap>;
    k_bset o_bset KBset: BTreeSet<KBset>;
    k_hset o_hset KHset: HashSet<KHset>;
    k_list o_list KList: LinkedList<KList>;
    k_deque o_deque KDeque: VecDeque<KDeque>;
    k_bmap_key o_bmap_key KBmapKey: BTreeMap<KBmapKey, u8>;
    k_bmap_val o_bmap_val KBmapVal: BTreeMap<u8, KBmapVal>;
    k_bmap_both o_bmap_both KBmapBoth: BTreeMap<KBmapBoth, KBmapBoth>;
    k_hmap_key o_hmap_key KHmapKey: HashMap<KHmapKey, u8>;
    k_hmap_val o_hmap_val KHmapVal: HashMap<u8, KHmapVal>;
    k_arr o_arr KArr: Box<[KArr; 2]>;
    k_tup1 o_tup1 KTup1: Box<(KTup1,)>;
    k_tup2 o_tup2 KTup2: Box<(KTup2, KTup2)>;
    k_tup3 o_tup3 KTup3: Box<(KTup3, u8, KTup3)>;
    k_tup4 o_tup4 KTup4: Box<(KTup4, u8, u8, KTup4)>;
    k_tup5 o_tup5 KTup5: Box<(u8, KTup5, u8, u8, KTup5)>;
    k_tup6 o_tup6 KTup6: Box<(u8, u8, KTup6, u8, u8, KTup6)>;
    k_tup7 o_tup7 KTup7: Box<(u8, u8, u8, KTup7, u8, u8, KTup7)>;
    k_tup8 o_tup8 KTup8: Box<(u8, u8, u8, u8, KTup8, u8, u8, KTup8)>;
    k_tup9 o_tup9 KTup9: Box<(u8, u8, u8, u8, u8, KTup9, u8, u8, KTup9)>;
    k_tup10 o_tup10 KTup10: Box<(u8, u8, u8, u8, u8, u8, KTup10, u8, u8, KTup10)>;
    k_tup11 o_tup11 KTup11: Box<(KTup11, u8, u8, u8, u8, u8, u8, KTup11, u8, u8, KTup11)>;
    k_range o_range KRange: Box<Range<KRange>>;
    k_rangei o_rangei KRangei: Box<RangeInclusive<KRangei>>;
    k_bound o_bound KBound: Box<Bound<KBound>>;
    k_box o_box KBox: Option<Box<Box<KBox>>>;
    k_cow o_cow KCow: Option<Box<Cow<'static, KCow>>>;
    k_deep o_deep KDeep: Vec<Option<BTreeMap<(u8, KDeep), [Bound<Range<Vec<(KDeep, u8)>>>; 2]>>>;
}

// types that contain each other
macro_rules! schema_of {
    ($k:ident: $($f:ident $t:ty,)*) => {
        impl KnownSchema for $k {
            fn schema(parent_stack: RecurseStack) -> Schema {
                if let Some(s) = parent_stack.parent_recurse::<Self>() {
                    return s;
                }
                let stack = parent_stack.with_type_layer::<Self>();
                Schema::Struct(vec![$(
                    binschema::StructSchemaField { name: stringify!($f).into(), inner: <$t>::schema(stack) },
                )*])
            }
        }
    };
}

#[derive(Serialize, Deserialize)]
pub struct A {
    pub a: Option<Box<A>>,
    pub b: Vec<B>,
    pub c: Box<C>,
}
#[derive(Serialize, Deserialize)]
pub struct B {
    pub x: u8,
    pub a: Box<A>,
    pub b: Option<Box<B>>,
    pub c: (C, Vec<B>),
}
#[derive(Serialize, Deserialize)]
pub struct C {
    pub a: Vec<Vec<A>>,
    pub b: Vec<Option<(u8, B)>>,
    pub c: BTreeMap<u8, C>,
}
schema_of!(A: a Option<Box<A>>, b Vec<B>, c Box<C>,);
schema_of!(B: x u8, a Box<A>, b Option<Box<B>>, c (C, Vec<B>),);
schema_of!(C: a Vec<Vec<A>>, b Vec<Option<(u8, B)>>, c BTreeMap<u8, C>,);

all! { both:
    m_a A;
    m_b B;
    m_c C;
    m_abc (A, B, C);
    m_in Vec<Option<(bool, BTreeMap<String, [C; 2]>)>>;
}

/// Schemas as values.
pub mod meta {
    use super::*;
    all! { both:
        m_schema Schema;
        m_schemas Vec<Option<Schema>>;
        m_named BTreeMap<String, Schema>;
    }
}
