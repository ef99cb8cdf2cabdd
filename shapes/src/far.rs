//! Types found far up a stack of other layers.
use binschema::{KnownSchema, RecurseStack, Schema};

/// The schema built under this label; known to the analysis.
pub fn form(_label: &'static str, _s: Schema) {
    unimplemented!()
}

macro_rules! marks {
    ($($t:ident)*) => {$(
        pub struct $t;
        impl KnownSchema for $t {
            fn schema(_: RecurseStack) -> Schema {
                Schema::Tuple(vec![Schema::Str; stringify!($t).len()])
            }
        }
    )*};
}
marks! { Target Target2 Elsewhere Outside Through }

fn found(label: &'static str, s: Option<Schema>) {
    form(label, s.unwrap_or(Schema::Unit))
}

// What is `n` layers down from there.
fn nones(label: &'static str, n: usize, s: RecurseStack) {
    if n == 0 {
        found(label, s.parent_recurse::<Target>())
    } else {
        nones(label, n - 1, s.with_none_layer())
    }
}

fn types(label: &'static str, n: usize, s: RecurseStack) {
    if n == 0 {
        found(label, s.parent_recurse::<Target>())
    } else {
        types(label, n - 1, s.with_type_layer::<Elsewhere>())
    }
}

fn mixed(label: &'static str, n: usize, s: RecurseStack) {
    if n == 0 {
        found(label, s.parent_recurse::<Target>())
    } else if n % 3 == 0 {
        mixed(label, n - 1, s.with_none_layer())
    } else if n % 3 == 1 {
        mixed(label, n - 1, s.with_transparent_type_layer::<Through>())
    } else {
        mixed(label, n - 1, s.with_type_layer::<Elsewhere>())
    }
}

fn find(label: &'static str, n: usize, s: RecurseStack) {
    if n == 0 {
        found(label, s.find_type::<Target>().map(Schema::Recurse))
    } else {
        find(label, n - 1, s.with_none_layer())
    }
}

macro_rules! far {
    ($($n:literal)*) => {$(
        nones(concat!("nones ", $n), $n, RecurseStack::new().with_none_layer().with_type_layer::<Target>());
        nones(concat!("nones through ", $n), $n, RecurseStack::new().with_none_layer().with_transparent_type_layer::<Target>());
        nones(concat!("absent ", $n), $n, RecurseStack::default().with_type_layer::<Target2>().with_transparent_type_layer::<Through>());
        types(concat!("types ", $n), $n, RecurseStack::new().with_type_layer::<Target>().with_type_layer::<Target2>());
        mixed(concat!("mixed ", $n), $n, RecurseStack::new().with_type_layer::<Outside>().with_type_layer::<Target>());
        find(concat!("find ", $n), $n, RecurseStack::new().with_type_layer::<Outside>().with_type_layer::<Target>());
        // the nearest one
        nones(concat!("nearest ", $n), $n, RecurseStack::new().with_type_layer::<Target>().with_none_layer().with_type_layer::<Target>()
            .with_none_layer());
    )*};
}

pub fn s_near() {
    far! { 0 1 2 3 4 5 6 7 8 9 10 15 16 17 }
}
pub fn s_far() {
    far! { 31 32 33 }
}
pub fn s_far64() {
    far! { 63 64 65 }
}
pub fn s_far100() {
    far! { 100 129 }
}
pub fn s_far_nones() {
    nones("nones 257", 257, RecurseStack::new().with_none_layer().with_type_layer::<Target>());
    find("find 258", 258, RecurseStack::new().with_type_layer::<Outside>().with_type_layer::<Target>());
}
pub fn s_far_types() {
    types("types 257", 257, RecurseStack::new().with_type_layer::<Target>().with_type_layer::<Target2>());
    nones("absent 300", 300, RecurseStack::default().with_type_layer::<Target2>().with_transparent_type_layer::<Through>());
}
pub fn s_far_mixed() {
    mixed("mixed 390", 390, RecurseStack::new().with_type_layer::<Outside>().with_type_layer::<Target>());
}
