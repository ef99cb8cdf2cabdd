//! A serde format that follows a schema. What the functions at the top do is known to the analysis; a `Walk` is a
//! place in the schema of the type under analysis. The rest says which schemas each serde call goes with.
use binschema::{KnownSchema, RecurseStack, Schema};
use serde::{de, forward_to_deserialize_any, ser, Deserialize, Serialize};
use std::fmt;

#[derive(Copy, Clone)]
pub struct Walk(usize);

pub struct Bad;

/// The place must be the leaf with that name.
pub fn leaf(_w: Walk, _name: &'static str) {
    unimplemented!()
}
/// The place must be an option, seq, tuple, struct or enum that can be so long; its number of parts (any if it is a
/// var len seq).
pub fn open(_w: Walk, _kind: &'static str, _len: Option<usize>) -> usize {
    unimplemented!()
}
pub fn part(_w: Walk, _i: usize) -> Walk {
    unimplemented!()
}
/// The name of the field or variant.
pub fn name(_w: Walk, _i: usize) -> &'static str {
    unimplemented!()
}
/// That many parts were given.
pub fn close(_w: Walk, _n: usize) {
    unimplemented!()
}
/// The field may be absent in serde's view only if it is an option.
pub fn skip(_w: Walk, _key: &'static str) {
    unimplemented!()
}
/// The variant must be so numbered and named; its place.
pub fn variant(_w: Walk, _ord: u32, _name: &'static str) -> Walk {
    unimplemented!()
}
/// Some ordinal of the enum.
pub fn some_variant(_w: Walk) -> usize {
    unimplemented!()
}
/// Whether there is something; both are analysed.
pub fn either() -> bool {
    unimplemented!()
}
pub fn any<T>() -> T {
    unimplemented!()
}
/// serde can't do that with this schema.
pub fn wrong(_why: &'static str) -> Bad {
    unimplemented!()
}

/// Starts over with the schema; its root.
pub fn start(_s: Schema) -> Walk {
    unimplemented!()
}
pub fn out<T: KnownSchema + Serialize + ?Sized>() {
    let w = start(T::schema(RecurseStack::new()));
    let _ = any::<&T>().serialize(w);
}
pub fn both<T: KnownSchema + Serialize + for<'d> Deserialize<'d>>() {
    let w = start(T::schema(RecurseStack::new()));
    let _ = any::<&T>().serialize(w);
    let _ = T::deserialize(w);
}

impl fmt::Debug for Bad {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for Bad {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(_msg: T) -> Self {
        wrong("serde gives up serializing")
    }
}
impl de::Error for Bad {
    fn custom<T: fmt::Display>(_msg: T) -> Self {
        wrong("serde gives up deserializing")
    }
    fn invalid_type(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        wrong("not the type serde expects")
    }
    fn invalid_value(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        wrong("not the value serde expects")
    }
    fn invalid_length(_n: usize, _e: &dyn de::Expected) -> Self {
        wrong("not the number of parts serde expects")
    }
    fn unknown_variant(_v: &str, _e: &'static [&'static str]) -> Self {
        wrong("a variant serde does not know")
    }
    fn unknown_field(_v: &str, _e: &'static [&'static str]) -> Self {
        wrong("a field serde does not know")
    }
    fn missing_field(_v: &'static str) -> Self {
        wrong("a field serde asks for is missing")
    }
    fn duplicate_field(_v: &'static str) -> Self {
        wrong("a field is there twice")
    }
}

// ---------------------------------------------------------------- serializing

pub struct Parts {
    w: Walk,
    i: usize,
}

impl Parts {
    fn next<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(part(self.w, self.i))?;
        self.i += 1;
        Ok(())
    }
    fn named<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(part(variant(self.w, self.i as u32, key), 0))?;
        self.i += 1;
        Ok(())
    }
    fn done(self) -> Result<(), Bad> {
        close(self.w, self.i);
        Ok(())
    }
}

/// The content of a leaf that is serialized.
pub fn given<T: ?Sized>(_v: &T) {
    unimplemented!()
}

fn parts(w: Walk, kind: &'static str, len: Option<usize>) -> Result<Parts, Bad> {
    open(w, kind, len);
    Ok(Parts { w, i: 0 })
}

macro_rules! leaves {
    ($($f:ident $t:ty, $n:literal;)*) => {$(
        fn $f(self, v: $t) -> Result<(), Bad> {
            leaf(self, $n);
            given(&v);
            Ok(())
        }
    )*};
}

impl ser::Serializer for Walk {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;

    leaves! {
        serialize_bool bool, "Bool";
        serialize_i8 i8, "I8";
        serialize_i16 i16, "I16";
        serialize_i32 i32, "I32";
        serialize_i64 i64, "I64";
        serialize_i128 i128, "I128";
        serialize_u8 u8, "U8";
        serialize_u16 u16, "U16";
        serialize_u32 u32, "U32";
        serialize_u64 u64, "U64";
        serialize_u128 u128, "U128";
        serialize_f32 f32, "F32";
        serialize_f64 f64, "F64";
        serialize_char char, "Char";
        serialize_str &str, "Str";
        serialize_bytes &[u8], "Bytes";
    }
    fn serialize_none(self) -> Result<(), Bad> {
        open(self, "option", None);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), Bad> {
        open(self, "option", None);
        v.serialize(part(self, 0))
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        leaf(self, "Unit");
        Ok(())
    }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<(), Bad> {
        leaf(self, "Unit");
        Ok(())
    }
    fn serialize_unit_variant(self, _n: &'static str, i: u32, v: &'static str) -> Result<(), Bad> {
        open(self, "enum", None);
        leaf(part(variant(self, i, v), 0), "Unit");
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _n: &'static str,
        i: u32,
        v: &'static str,
        x: &T,
    ) -> Result<(), Bad> {
        open(self, "enum", None);
        x.serialize(part(variant(self, i, v), 0))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Parts, Bad> {
        parts(self, "seq", len)
    }
    fn serialize_tuple(self, len: usize) -> Result<Parts, Bad> {
        parts(self, "tuple", Some(len))
    }
    fn serialize_tuple_struct(self, _n: &'static str, len: usize) -> Result<Parts, Bad> {
        parts(self, "tuple", Some(len))
    }
    fn serialize_tuple_variant(self, _n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Parts, Bad> {
        open(self, "enum", None);
        parts(part(variant(self, i, v), 0), "tuple", Some(len))
    }
    fn serialize_map(self, _len: Option<usize>) -> Result<Parts, Bad> {
        parts(self, "map", None)
    }
    fn serialize_struct(self, _n: &'static str, _len: usize) -> Result<Parts, Bad> {
        parts(self, "struct", None)
    }
    fn serialize_struct_variant(self, _n: &'static str, i: u32, v: &'static str, _len: usize) -> Result<Parts, Bad> {
        open(self, "enum", None);
        parts(part(variant(self, i, v), 0), "struct", None)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    // any number of elements, all of one type
    fn collect_seq<I: IntoIterator>(self, _iter: I) -> Result<(), Bad>
    where
        I::Item: Serialize,
    {
        let mut p = parts(self, "seq", None)?;
        if either() {
            p.next(&any::<I::Item>())?;
        }
        Ok(())
    }
    fn collect_map<K: Serialize, V: Serialize, I: IntoIterator<Item = (K, V)>>(self, _iter: I) -> Result<(), Bad> {
        use ser::SerializeMap;
        let mut p = parts(self, "map", None)?;
        if either() {
            p.serialize_key(&any::<K>())?;
            p.serialize_value(&any::<V>())?;
        }
        Ok(())
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _v: &T) -> Result<(), Bad> {
        leaf(self, "Str");
        Ok(())
    }
}

macro_rules! compound {
    ($($t:ident $f:ident;)*) => {$(
        impl ser::$t for Parts {
            type Ok = ();
            type Error = Bad;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
                self.next(v)
            }
            fn end(self) -> Result<(), Bad> {
                self.done()
            }
        }
    )*};
}
compound! {
    SerializeSeq serialize_element;
    SerializeTuple serialize_element;
    SerializeTupleStruct serialize_field;
    SerializeTupleVariant serialize_field;
}
macro_rules! fields {
    ($($t:ident)*) => {$(
        impl ser::$t for Parts {
            type Ok = ();
            type Error = Bad;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<(), Bad> {
                self.named(key, v)
            }
            fn skip_field(&mut self, key: &'static str) -> Result<(), Bad> {
                skip(part(variant(self.w, self.i as u32, key), 0), key);
                self.i += 1;
                Ok(())
            }
            fn end(self) -> Result<(), Bad> {
                self.done()
            }
        }
    )*};
}
fields!(SerializeStruct SerializeStructVariant);

impl ser::SerializeMap for Parts {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(part(part(self.w, 0), 0))
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(part(part(self.w, 0), 1))
    }
    fn end(self) -> Result<(), Bad> {
        Ok(())
    }
}

// ---------------------------------------------------------------- deserializing

/// The parts of a seq or tuple that are left.
pub struct Rest {
    w: Walk,
    i: usize,
    n: usize,
}

impl<'d> de::SeqAccess<'d> for Rest {
    type Error = Bad;
    fn next_element_seed<T: de::DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.i == self.n {
            return Ok(None);
        }
        let v = seed.deserialize(part(self.w, self.i))?;
        self.i += 1;
        Ok(Some(v))
    }
}

/// Any number of elements, which are all at the same place: one stands for them.
pub struct Many(Walk, bool);

impl<'d> de::SeqAccess<'d> for Many {
    type Error = Bad;
    fn next_element_seed<T: de::DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.1 && either() {
            self.1 = false;
            Ok(Some(seed.deserialize(part(self.0, 0))?))
        } else {
            Ok(None)
        }
    }
}

impl<'d> de::MapAccess<'d> for Many {
    type Error = Bad;
    fn next_key_seed<T: de::DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.1 && either() {
            self.1 = false;
            Ok(Some(seed.deserialize(part(part(self.0, 0), 0))?))
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'d>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        seed.deserialize(part(part(self.0, 0), 1))
    }
}

/// The fields of a struct that are left.
pub struct Fields {
    w: Walk,
    i: usize,
    n: usize,
}

impl<'d> de::MapAccess<'d> for Fields {
    type Error = Bad;
    fn next_key_seed<T: de::DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.i == self.n {
            return Ok(None);
        }
        Ok(Some(seed.deserialize(Key(name(self.w, self.i)))?))
    }
    fn next_value_seed<T: de::DeserializeSeed<'d>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        let v = seed.deserialize(part(self.w, self.i))?;
        self.i += 1;
        Ok(v)
    }
}

pub struct Key(&'static str);

impl<'de> de::Deserializer<'de> for Key {
    type Error = Bad;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_str(self.0)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub struct Ord(usize);

impl<'de> de::Deserializer<'de> for Ord {
    type Error = Bad;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_u64(self.0 as u64)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'d> de::EnumAccess<'d> for Ord2 {
    type Error = Bad;
    type Variant = Walk;
    fn variant_seed<T: de::DeserializeSeed<'d>>(self, seed: T) -> Result<(T::Value, Walk), Bad> {
        Ok((seed.deserialize(Ord(self.1))?, part(self.0, self.1)))
    }
}

pub struct Ord2(Walk, usize);

impl<'d> de::VariantAccess<'d> for Walk {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        leaf(self, "Unit");
        Ok(())
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'d>>(self, seed: T) -> Result<T::Value, Bad> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: de::Visitor<'d>>(self, len: usize, v: V) -> Result<V::Value, Bad> {
        de::Deserializer::deserialize_tuple(self, len, v)
    }
    fn struct_variant<V: de::Visitor<'d>>(self, fields: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        de::Deserializer::deserialize_struct(self, "", fields, v)
    }
}

macro_rules! leaves_in {
    ($($f:ident $g:ident $t:ty, $n:literal;)*) => {$(
        fn $f<V: de::Visitor<'d>>(self, v: V) -> Result<V::Value, Bad> {
            leaf(self, $n);
            v.$g(any::<$t>())
        }
    )*};
}

impl<'d> de::Deserializer<'d> for Walk {
    type Error = Bad;
    fn deserialize_any<V: de::Visitor<'d>>(self, _v: V) -> Result<V::Value, Bad> {
        Err(wrong("deserialize_any"))
    }
    fn deserialize_ignored_any<V: de::Visitor<'d>>(self, _v: V) -> Result<V::Value, Bad> {
        Err(wrong("serde ignores the part"))
    }
    fn deserialize_identifier<V: de::Visitor<'d>>(self, _v: V) -> Result<V::Value, Bad> {
        Err(wrong("deserialize_identifier"))
    }
    leaves_in! {
        deserialize_bool visit_bool bool, "Bool";
        deserialize_i8 visit_i8 i8, "I8";
        deserialize_i16 visit_i16 i16, "I16";
        deserialize_i32 visit_i32 i32, "I32";
        deserialize_i64 visit_i64 i64, "I64";
        deserialize_i128 visit_i128 i128, "I128";
        deserialize_u8 visit_u8 u8, "U8";
        deserialize_u16 visit_u16 u16, "U16";
        deserialize_u32 visit_u32 u32, "U32";
        deserialize_u64 visit_u64 u64, "U64";
        deserialize_u128 visit_u128 u128, "U128";
        deserialize_f32 visit_f32 f32, "F32";
        deserialize_f64 visit_f64 f64, "F64";
        deserialize_char visit_char char, "Char";
        deserialize_str visit_string String, "Str";
        deserialize_string visit_string String, "Str";
        deserialize_bytes visit_byte_buf Vec<u8>, "Bytes";
        deserialize_byte_buf visit_byte_buf Vec<u8>, "Bytes";
    }
    fn deserialize_option<V: de::Visitor<'d>>(self, v: V) -> Result<V::Value, Bad> {
        open(self, "option", None);
        if either() {
            v.visit_some(part(self, 0))
        } else {
            v.visit_none()
        }
    }
    fn deserialize_unit<V: de::Visitor<'d>>(self, v: V) -> Result<V::Value, Bad> {
        leaf(self, "Unit");
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: de::Visitor<'d>>(self, _n: &'static str, v: V) -> Result<V::Value, Bad> {
        leaf(self, "Unit");
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: de::Visitor<'d>>(self, _n: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: de::Visitor<'d>>(self, v: V) -> Result<V::Value, Bad> {
        open(self, "seq", None);
        v.visit_seq(Many(self, true))
    }
    fn deserialize_tuple<V: de::Visitor<'d>>(self, len: usize, v: V) -> Result<V::Value, Bad> {
        open(self, "tuple", Some(len));
        v.visit_seq(Rest { w: self, i: 0, n: len })
    }
    fn deserialize_tuple_struct<V: de::Visitor<'d>>(self, _n: &'static str, len: usize, v: V) -> Result<V::Value, Bad> {
        open(self, "tuple", Some(len));
        v.visit_seq(Rest { w: self, i: 0, n: len })
    }
    fn deserialize_map<V: de::Visitor<'d>>(self, v: V) -> Result<V::Value, Bad> {
        open(self, "map", None);
        v.visit_map(Many(self, true))
    }
    fn deserialize_struct<V: de::Visitor<'d>>(
        self,
        _n: &'static str,
        _f: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Bad> {
        let n = open(self, "struct", None);
        v.visit_map(Fields { w: self, i: 0, n })
    }
    fn deserialize_enum<V: de::Visitor<'d>>(
        self,
        _n: &'static str,
        names: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Bad> {
        open(self, "enum", Some(names.len()));
        let i = some_variant(self);
        variant(self, i as u32, names[i]);
        v.visit_enum(Ord2(self, i))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
