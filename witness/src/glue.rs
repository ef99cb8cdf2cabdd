//! Every use serde can make of the encoder and the decoder, and dynamic values. `Kid` stands for a value of any
//! type, `Ident` for the name of a field or variant.
use binschema::{error::Error, value::Value, Decoder, Encoder};
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
use std::io::{Read, Write};

// the analysis knows these by name
pub fn more() -> bool {
    unimplemented!()
}
pub fn taken(_n: usize, _kid: Kid) {
    unimplemented!()
}
pub fn ended(_n: usize) {
    unimplemented!()
}
pub fn stopped(_n: usize) {
    unimplemented!()
}

pub struct Kid(pub u32);

impl Serialize for Kid {
    fn serialize<S: Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}

impl<'de> Deserialize<'de> for Kid {
    fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}

pub struct Ident(pub Name);

pub enum Name {
    Str(String),
    Num(u64),
}

struct IdentVisitor;

impl<'de> Deserialize<'de> for Ident {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_identifier(IdentVisitor)
    }
}

impl<'de> de::Visitor<'de> for IdentVisitor {
    type Value = Ident;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Ident, E> {
        Ok(Ident(Name::Str(v.to_owned())))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Ident, E> {
        Ok(Ident(Name::Num(v)))
    }
}

/// What a visitor was given.
pub enum Got {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Kid),
    Unit,
    Newtype(Kid),
    Seq,
    Map,
    Struct,
    EnumUnit(Ident),
    EnumKid(Ident, Kid),
    EnumGot(Ident),
}

/// How a visitor reads an enum.
#[derive(Clone, Copy)]
pub enum How {
    Unit,
    Newtype,
    Tuple(usize),
    Struct(&'static [&'static str]),
}

/// Accepts everything.
pub struct Any {
    pub how: How,
    /// maps are structs
    pub named: bool,
}

macro_rules! visits {
    ($($visit:ident($t:ty) $k:ident,)*) => {$(
        fn $visit<E: de::Error>(self, v: $t) -> Result<Got, E> {
            Ok(Got::$k(v))
        }
    )*};
}

impl<'de> de::Visitor<'de> for Any {
    type Value = Got;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
    visits!(
        visit_bool(bool) Bool,
        visit_i8(i8) I8,
        visit_i16(i16) I16,
        visit_i32(i32) I32,
        visit_i64(i64) I64,
        visit_i128(i128) I128,
        visit_u8(u8) U8,
        visit_u16(u16) U16,
        visit_u32(u32) U32,
        visit_u64(u64) U64,
        visit_u128(u128) U128,
        visit_f32(f32) F32,
        visit_f64(f64) F64,
        visit_char(char) Char,
        visit_string(String) Str,
        visit_byte_buf(Vec<u8>) Bytes,
    );
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Got, E> {
        Ok(Got::Str(v.to_owned()))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Got, E> {
        Ok(Got::Bytes(v.to_vec()))
    }
    fn visit_none<E: de::Error>(self) -> Result<Got, E> {
        Ok(Got::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        Ok(Got::Some(Kid::deserialize(d)?))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Got, E> {
        Ok(Got::Unit)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        Ok(Got::Newtype(Kid::deserialize(d)?))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let mut n = 0;
        while more() {
            match a.next_element::<Kid>()? {
                Some(kid) => {
                    taken(n, kid);
                    n += 1;
                }
                None => {
                    ended(n);
                    return Ok(Got::Seq);
                }
            }
        }
        stopped(n);
        Ok(Got::Seq)
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let mut n = 0;
        if self.named {
            while more() {
                match a.next_key::<Ident>()? {
                    Some(key) => {
                        name(n, key);
                        taken(n, a.next_value::<Kid>()?);
                        n += 1;
                    }
                    None => {
                        ended(n);
                        return Ok(Got::Struct);
                    }
                }
            }
            stopped(n);
            return Ok(Got::Struct);
        }
        while more() {
            match a.next_key::<Kid>()? {
                Some(key) => {
                    taken(n, key);
                    taken(n, a.next_value::<Kid>()?);
                    n += 1;
                }
                None => {
                    ended(n);
                    return Ok(Got::Map);
                }
            }
        }
        stopped(n);
        Ok(Got::Map)
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Got, A::Error> {
        use de::VariantAccess;
        let (ident, acc) = a.variant::<Ident>()?;
        match self.how {
            How::Unit => {
                acc.unit_variant()?;
                Ok(Got::EnumUnit(ident))
            }
            How::Newtype => Ok(Got::EnumKid(ident, acc.newtype_variant::<Kid>()?)),
            How::Tuple(n) => {
                acc.tuple_variant(n, Any { how: How::Unit, named: false })?;
                Ok(Got::EnumGot(ident))
            }
            How::Struct(fields) => {
                acc.struct_variant(fields, Any { how: How::Unit, named: true })?;
                Ok(Got::EnumGot(ident))
            }
        }
    }
}

pub fn name(_n: usize, _key: Ident) {
    unimplemented!()
}

type R_ = Result<Got, Error>;

macro_rules! de_simple {
    ($($f:ident $m:ident,)*) => {$(
        pub fn $f<R: Read>(d: &mut Decoder<R>) -> R_ {
            d.$m(Any { how: How::Unit, named: false })
        }
    )*};
}

de_simple!(
    de_bool deserialize_bool,
    de_i8 deserialize_i8,
    de_i16 deserialize_i16,
    de_i32 deserialize_i32,
    de_i64 deserialize_i64,
    de_i128 deserialize_i128,
    de_u8 deserialize_u8,
    de_u16 deserialize_u16,
    de_u32 deserialize_u32,
    de_u64 deserialize_u64,
    de_u128 deserialize_u128,
    de_f32 deserialize_f32,
    de_f64 deserialize_f64,
    de_char deserialize_char,
    de_str deserialize_str,
    de_string deserialize_string,
    de_bytes deserialize_bytes,
    de_byte_buf deserialize_byte_buf,
    de_option deserialize_option,
    de_unit deserialize_unit,
    de_seq deserialize_seq,
    de_map deserialize_map,
);

pub fn de_unit_struct<R: Read>(d: &mut Decoder<R>) -> R_ {
    d.deserialize_unit_struct("X", Any { how: How::Unit, named: false })
}

pub fn de_newtype_struct<R: Read>(d: &mut Decoder<R>) -> R_ {
    d.deserialize_newtype_struct("X", Any { how: How::Unit, named: false })
}

pub fn de_tuple<R: Read>(d: &mut Decoder<R>, len: usize) -> R_ {
    d.deserialize_tuple(len, Any { how: How::Unit, named: false })
}

pub fn de_tuple_struct<R: Read>(d: &mut Decoder<R>, len: usize) -> R_ {
    d.deserialize_tuple_struct("X", len, Any { how: How::Unit, named: false })
}

pub fn de_struct<R: Read>(d: &mut Decoder<R>, fields: &'static [&'static str]) -> R_ {
    d.deserialize_struct("X", fields, Any { how: How::Unit, named: true })
}

pub fn de_enum_unit<R: Read>(d: &mut Decoder<R>, variants: &'static [&'static str]) -> R_ {
    d.deserialize_enum("X", variants, Any { how: How::Unit, named: false })
}

pub fn de_enum_newtype<R: Read>(d: &mut Decoder<R>, variants: &'static [&'static str]) -> R_ {
    d.deserialize_enum("X", variants, Any { how: How::Newtype, named: false })
}

pub fn de_enum_tuple<R: Read>(d: &mut Decoder<R>, variants: &'static [&'static str], len: usize) -> R_ {
    d.deserialize_enum("X", variants, Any { how: How::Tuple(len), named: false })
}

pub fn de_enum_struct<R: Read>(
    d: &mut Decoder<R>,
    variants: &'static [&'static str],
    fields: &'static [&'static str],
) -> R_ {
    d.deserialize_enum("X", variants, Any { how: How::Struct(fields), named: false })
}

pub fn de_any<R: Read>(d: &mut Decoder<R>) -> R_ {
    d.deserialize_any(Any { how: How::Newtype, named: true })
}

pub fn de_ignored<R: Read>(d: &mut Decoder<R>) -> Result<de::IgnoredAny, Error> {
    de::IgnoredAny::deserialize(d)
}

type S_ = Result<(), Error>;

macro_rules! ser_simple {
    ($($f:ident $m:ident($t:ty),)*) => {$(
        pub fn $f<W: Write>(e: &mut Encoder<W>, v: $t) -> S_ {
            e.$m(v)
        }
    )*};
}

ser_simple!(
    ser_bool serialize_bool(bool),
    ser_i8 serialize_i8(i8),
    ser_i16 serialize_i16(i16),
    ser_i32 serialize_i32(i32),
    ser_i64 serialize_i64(i64),
    ser_i128 serialize_i128(i128),
    ser_u8 serialize_u8(u8),
    ser_u16 serialize_u16(u16),
    ser_u32 serialize_u32(u32),
    ser_u64 serialize_u64(u64),
    ser_u128 serialize_u128(u128),
    ser_f32 serialize_f32(f32),
    ser_f64 serialize_f64(f64),
    ser_char serialize_char(char),
    ser_str serialize_str(&str),
    ser_bytes serialize_bytes(&[u8]),
    ser_some serialize_some(&Kid),
);

pub fn ser_none<W: Write>(e: &mut Encoder<W>) -> S_ {
    e.serialize_none()
}

pub fn ser_unit<W: Write>(e: &mut Encoder<W>) -> S_ {
    e.serialize_unit()
}

pub fn ser_unit_struct<W: Write>(e: &mut Encoder<W>) -> S_ {
    e.serialize_unit_struct("X")
}

pub fn ser_unit_variant<W: Write>(e: &mut Encoder<W>, ord: u32, variant: &'static str) -> S_ {
    e.serialize_unit_variant("X", ord, variant)
}

pub fn ser_newtype_struct<W: Write>(e: &mut Encoder<W>, v: &Kid) -> S_ {
    e.serialize_newtype_struct("X", v)
}

pub fn ser_newtype_variant<W: Write>(e: &mut Encoder<W>, ord: u32, variant: &'static str, v: &Kid) -> S_ {
    e.serialize_newtype_variant("X", ord, variant, v)
}

pub fn ser_seq<W: Write>(e: &mut Encoder<W>, kids: &[Kid]) -> S_ {
    use ser::SerializeSeq;
    let mut s = e.serialize_seq(Some(kids.len()))?;
    for kid in kids {
        s.serialize_element(kid)?;
    }
    s.end()
}

pub fn ser_seq_unsized<W: Write>(e: &mut Encoder<W>, kids: &[Kid]) -> S_ {
    use ser::SerializeSeq;
    let mut s = e.serialize_seq(None)?;
    for kid in kids {
        s.serialize_element(kid)?;
    }
    s.end()
}

pub fn ser_tuple<W: Write>(e: &mut Encoder<W>, kids: &[Kid]) -> S_ {
    use ser::SerializeTuple;
    let mut s = e.serialize_tuple(kids.len())?;
    for kid in kids {
        s.serialize_element(kid)?;
    }
    s.end()
}

pub fn ser_tuple_struct<W: Write>(e: &mut Encoder<W>, kids: &[Kid]) -> S_ {
    use ser::SerializeTupleStruct;
    let mut s = e.serialize_tuple_struct("X", kids.len())?;
    for kid in kids {
        s.serialize_field(kid)?;
    }
    s.end()
}

pub fn ser_tuple_variant<W: Write>(e: &mut Encoder<W>, ord: u32, variant: &'static str, kids: &[Kid]) -> S_ {
    use ser::SerializeTupleVariant;
    let mut s = e.serialize_tuple_variant("X", ord, variant, kids.len())?;
    for kid in kids {
        s.serialize_field(kid)?;
    }
    s.end()
}

pub fn ser_map<W: Write>(e: &mut Encoder<W>, kids: &[(Kid, Kid)]) -> S_ {
    use ser::SerializeMap;
    let mut s = e.serialize_map(Some(kids.len()))?;
    for (key, value) in kids {
        s.serialize_key(key)?;
        s.serialize_value(value)?;
    }
    s.end()
}

pub fn ser_map_entries<W: Write>(e: &mut Encoder<W>, kids: &[(Kid, Kid)]) -> S_ {
    use ser::SerializeMap;
    let mut s = e.serialize_map(Some(kids.len()))?;
    for (key, value) in kids {
        s.serialize_entry(key, value)?;
    }
    s.end()
}

pub fn ser_struct<W: Write>(e: &mut Encoder<W>, kids: &[(&'static str, Kid)]) -> S_ {
    use ser::SerializeStruct;
    let mut s = e.serialize_struct("X", kids.len())?;
    for (key, value) in kids {
        s.serialize_field(key, value)?;
    }
    s.end()
}

pub fn ser_struct_variant<W: Write>(
    e: &mut Encoder<W>,
    ord: u32,
    variant: &'static str,
    kids: &[(&'static str, Kid)],
) -> S_ {
    use ser::SerializeStructVariant;
    let mut s = e.serialize_struct_variant("X", ord, variant, kids.len())?;
    for (key, value) in kids {
        s.serialize_field(key, value)?;
    }
    s.end()
}

/// A struct with one field, which is skipped.
pub fn ser_skip<W: Write>(e: &mut Encoder<W>, key: &'static str) -> S_ {
    use ser::SerializeStruct;
    let mut s = e.serialize_struct("X", 1)?;
    s.skip_field(key)?;
    s.end()
}

pub fn ser_skip_variant<W: Write>(e: &mut Encoder<W>, ord: u32, variant: &'static str, key: &'static str) -> S_ {
    use ser::SerializeStructVariant;
    let mut s = e.serialize_struct_variant("X", ord, variant, 1)?;
    s.skip_field(key)?;
    s.end()
}

pub fn value_encode<W: Write>(v: &Value, e: &mut Encoder<W>) -> S_ {
    v.encode_to(e)
}

pub fn value_decode<R: Read>(d: &mut Decoder<R>) -> Result<Value, Error> {
    Value::decode_from(d)
}

/// Do both sides tell values the same about the format?
pub fn de_human<R: Read, W: Write>(d: &mut Decoder<R>, e: &mut Encoder<W>) -> bool {
    Serializer::is_human_readable(&e) == Deserializer::is_human_readable(&d)
}
