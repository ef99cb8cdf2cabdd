//! Comparing, ordering and copying what the crate hands out; never run. The functions at the top are known to the analysis.
use std::cmp::Ordering;

/// Any value at all.
pub fn any<T>() -> T {
    unimplemented!()
}
/// This is what comparing the two said.
pub fn alike<T>(_said: bool, _a: &T, _b: &T) {
    unimplemented!()
}
/// This is what ordering the two said.
pub fn order<T>(_said: Option<Ordering>, _a: &T, _b: &T) {
    unimplemented!()
}
/// The first was copied from the second.
pub fn copied<T>(_copy: &T, _a: &T) {
    unimplemented!()
}

macro_rules! compare {
    ($($m:ident $t:ty;)*)=>{$(
        pub mod $m {
            use super::*;
            pub fn eq() {
                let a: $t = any();
                let b: $t = any();
                let r = a == b;
                alike(r, &a, &b);
            }
            pub fn ne() {
                let a: $t = any();
                let b: $t = any();
                let r = !(a != b);
                alike(r, &a, &b);
            }
            pub fn clone() {
                let a: $t = any();
                let b = a.clone();
                copied(&b, &a);
            }
            pub fn clone_from() {
                let a: $t = any();
                let mut b: $t = any();
                b.clone_from(&a);
                copied(&b, &a);
            }
        }
    )*};
}

macro_rules! ordered {
    ($($m:ident $t:ty;)*)=>{$(
        pub mod $m {
            use super::*;
            pub fn partial() {
                let a: $t = any();
                let b: $t = any();
                let r = a.partial_cmp(&b);
                order(r, &a, &b);
            }
            pub fn total() {
                let a: $t = any();
                let b: $t = any();
                let r = a.cmp(&b);
                order(Some(r), &a, &b);
            }
        }
    )*};
}

compare!(
    schema binschema::Schema;
    scalar_type binschema::ScalarType;
    seq_schema binschema::SeqSchema;
    struct_field binschema::StructSchemaField;
    enum_variant binschema::EnumSchemaVariant;
    value binschema::value::Value;
    scalar_value binschema::value::ScalarValue;
    value_field binschema::value::StructValueField;
    enum_value binschema::value::EnumValue;
    error_kind binschema::error::ErrorKind;
);

ordered!(
    schema_order binschema::Schema;
    scalar_type_order binschema::ScalarType;
    seq_schema_order binschema::SeqSchema;
    struct_field_order binschema::StructSchemaField;
    enum_variant_order binschema::EnumSchemaVariant;
    error_kind_order binschema::error::ErrorKind;
);
