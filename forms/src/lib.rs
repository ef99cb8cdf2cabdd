//! Every form of schema! in every place. Written by tools/genforms.py; never run.
#![allow(dead_code, non_snake_case, non_camel_case_types, unused_variables)]
// What the macro has no business to mind.
pub struct Schema;
pub struct ScalarType;
pub struct SeqSchema;
pub struct StructSchemaField;
pub struct EnumSchemaVariant;
pub struct Box;
pub struct String;
pub struct Vec;
fn Some() {}
pub const None: () = ();
macro_rules! vec { ($($t:tt)*) => { () } }
macro_rules! stringify { ($($t:tt)*) => { "" } }

const LEN: usize = 11;

/// The schema built under this label; known to the analysis.
pub fn form(_label: &'static str, _s: binschema::Schema) {
    loop {}
}
/// A schema that is told apart by its number.
pub fn mark(_n: usize) -> binschema::Schema {
    loop {}
}

pub fn f_root() {
    form("f_root 0: u8", binschema::schema!(u8));
    form("f_root 1: u16", binschema::schema!(u16));
    form("f_root 2: u32", binschema::schema!(u32));
    form("f_root 3: u64", binschema::schema!(u64));
    form("f_root 4: u128", binschema::schema!(u128));
    form("f_root 5: i8", binschema::schema!(i8));
    form("f_root 6: i16", binschema::schema!(i16));
    form("f_root 7: i32", binschema::schema!(i32));
    form("f_root 8: i64", binschema::schema!(i64));
    form("f_root 9: i128", binschema::schema!(i128));
    form("f_root 10: f32", binschema::schema!(f32));
    form("f_root 11: f64", binschema::schema!(f64));
    form("f_root 12: char", binschema::schema!(char));
    form("f_root 13: bool", binschema::schema!(bool));
    form("f_root 14: str", binschema::schema!(str));
    form("f_root 15: bytes", binschema::schema!(bytes));
    form("f_root 16: unit", binschema::schema!(unit));
    form("f_root 17: option(u8)", binschema::schema!(option(u8)));
    form("f_root 18: option(option(str))", binschema::schema!(option(option(str))));
    form("f_root 19: seq(varlen)(u8)", binschema::schema!(seq(varlen)(u8)));
    form("f_root 20: seq(5)(u8)", binschema::schema!(seq(5)(u8)));
    form("f_root 21: seq(LEN)(unit)", binschema::schema!(seq(LEN)(unit)));
    form("f_root 22: tuple {}", binschema::schema!(tuple {}));
    form("f_root 23: tuple { (u8) }", binschema::schema!(tuple { (u8) }));
    form("f_root 24: tuple { (u8), (str), }", binschema::schema!(tuple { (u8), (str), }));
    form("f_root 25: struct {}", binschema::schema!(struct {}));
    form("f_root 26: struct { (a: u8) }", binschema::schema!(struct { (a: u8) }));
    form("f_root 27: struct { (a: u8), (b: str), }", binschema::schema!(struct { (a: u8), (b: str), }));
    form("f_root 28: enum {}", binschema::schema!(enum {}));
    form("f_root 29: enum { A(u8) }", binschema::schema!(enum { A(u8) }));
    form("f_root 30: enum { A(u8), B(unit), }", binschema::schema!(enum { A(u8), B(unit), }));
    form("f_root 31: recurse(1)", binschema::schema!(recurse(1)));
    form("f_root 32: recurse(LEN + 1)", binschema::schema!(recurse(LEN + 1)));
    form("f_root 33: %mark(1)", binschema::schema!(%mark(1)));
    form("f_root 34: %{ let x = mark(2); x }", binschema::schema!(%{ let x = mark(2); x }));
    form("f_root 35: %binschema::Schema::Str", binschema::schema!(%binschema::Schema::Str));
}

pub fn f_option() {
    form("f_option 0: option(u8)", binschema::schema!(option(u8)));
    form("f_option 1: option(u16)", binschema::schema!(option(u16)));
    form("f_option 2: option(u32)", binschema::schema!(option(u32)));
    form("f_option 3: option(u64)", binschema::schema!(option(u64)));
    form("f_option 4: option(u128)", binschema::schema!(option(u128)));
    form("f_option 5: option(i8)", binschema::schema!(option(i8)));
    form("f_option 6: option(i16)", binschema::schema!(option(i16)));
    form("f_option 7: option(i32)", binschema::schema!(option(i32)));
    form("f_option 8: option(i64)", binschema::schema!(option(i64)));
    form("f_option 9: option(i128)", binschema::schema!(option(i128)));
    form("f_option 10: option(f32)", binschema::schema!(option(f32)));
    form("f_option 11: option(f64)", binschema::schema!(option(f64)));
    form("f_option 12: option(char)", binschema::schema!(option(char)));
    form("f_option 13: option(bool)", binschema::schema!(option(bool)));
    form("f_option 14: option(str)", binschema::schema!(option(str)));
    form("f_option 15: option(bytes)", binschema::schema!(option(bytes)));
    form("f_option 16: option(unit)", binschema::schema!(option(unit)));
    form("f_option 17: option(option(u8))", binschema::schema!(option(option(u8))));
    form("f_option 18: option(option(option(str)))", binschema::schema!(option(option(option(str)))));
    form("f_option 19: option(seq(varlen)(u8))", binschema::schema!(option(seq(varlen)(u8))));
    form("f_option 20: option(seq(5)(u8))", binschema::schema!(option(seq(5)(u8))));
    form("f_option 21: option(seq(LEN)(unit))", binschema::schema!(option(seq(LEN)(unit))));
    form("f_option 22: option(tuple {})", binschema::schema!(option(tuple {})));
    form("f_option 23: option(tuple { (u8) })", binschema::schema!(option(tuple { (u8) })));
    form("f_option 24: option(tuple { (u8), (str), })", binschema::schema!(option(tuple { (u8), (str), })));
    form("f_option 25: option(struct {})", binschema::schema!(option(struct {})));
    form("f_option 26: option(struct { (a: u8) })", binschema::schema!(option(struct { (a: u8) })));
    form("f_option 27: option(struct { (a: u8), (b: str), })", binschema::schema!(option(struct { (a: u8), (b: str), })));
    form("f_option 28: option(enum {})", binschema::schema!(option(enum {})));
    form("f_option 29: option(enum { A(u8) })", binschema::schema!(option(enum { A(u8) })));
    form("f_option 30: option(enum { A(u8), B(unit), })", binschema::schema!(option(enum { A(u8), B(unit), })));
    form("f_option 31: option(recurse(1))", binschema::schema!(option(recurse(1))));
    form("f_option 32: option(recurse(LEN + 1))", binschema::schema!(option(recurse(LEN + 1))));
    form("f_option 33: option(%mark(1))", binschema::schema!(option(%mark(1))));
    form("f_option 34: option(%{ let x = mark(2); x })", binschema::schema!(option(%{ let x = mark(2); x })));
    form("f_option 35: option(%binschema::Schema::Str)", binschema::schema!(option(%binschema::Schema::Str)));
}

pub fn f_option2() {
    form("f_option2 0: option(option(u8))", binschema::schema!(option(option(u8))));
    form("f_option2 1: option(option(u16))", binschema::schema!(option(option(u16))));
    form("f_option2 2: option(option(u32))", binschema::schema!(option(option(u32))));
    form("f_option2 3: option(option(u64))", binschema::schema!(option(option(u64))));
    form("f_option2 4: option(option(u128))", binschema::schema!(option(option(u128))));
    form("f_option2 5: option(option(i8))", binschema::schema!(option(option(i8))));
    form("f_option2 6: option(option(i16))", binschema::schema!(option(option(i16))));
    form("f_option2 7: option(option(i32))", binschema::schema!(option(option(i32))));
    form("f_option2 8: option(option(i64))", binschema::schema!(option(option(i64))));
    form("f_option2 9: option(option(i128))", binschema::schema!(option(option(i128))));
    form("f_option2 10: option(option(f32))", binschema::schema!(option(option(f32))));
    form("f_option2 11: option(option(f64))", binschema::schema!(option(option(f64))));
    form("f_option2 12: option(option(char))", binschema::schema!(option(option(char))));
    form("f_option2 13: option(option(bool))", binschema::schema!(option(option(bool))));
    form("f_option2 14: option(option(str))", binschema::schema!(option(option(str))));
    form("f_option2 15: option(option(bytes))", binschema::schema!(option(option(bytes))));
    form("f_option2 16: option(option(unit))", binschema::schema!(option(option(unit))));
    form("f_option2 17: option(option(option(u8)))", binschema::schema!(option(option(option(u8)))));
    form("f_option2 18: option(option(option(option(str))))", binschema::schema!(option(option(option(option(str))))));
    form("f_option2 19: option(option(seq(varlen)(u8)))", binschema::schema!(option(option(seq(varlen)(u8)))));
    form("f_option2 20: option(option(seq(5)(u8)))", binschema::schema!(option(option(seq(5)(u8)))));
    form("f_option2 21: option(option(seq(LEN)(unit)))", binschema::schema!(option(option(seq(LEN)(unit)))));
    form("f_option2 22: option(option(tuple {}))", binschema::schema!(option(option(tuple {}))));
    form("f_option2 23: option(option(tuple { (u8) }))", binschema::schema!(option(option(tuple { (u8) }))));
    form("f_option2 24: option(option(tuple { (u8), (str), }))", binschema::schema!(option(option(tuple { (u8), (str), }))));
    form("f_option2 25: option(option(struct {}))", binschema::schema!(option(option(struct {}))));
    form("f_option2 26: option(option(struct { (a: u8) }))", binschema::schema!(option(option(struct { (a: u8) }))));
    form("f_option2 27: option(option(struct { (a: u8), (b: str), }))", binschema::schema!(option(option(struct { (a: u8), (b: str), }))));
    form("f_option2 28: option(option(enum {}))", binschema::schema!(option(option(enum {}))));
    form("f_option2 29: option(option(enum { A(u8) }))", binschema::schema!(option(option(enum { A(u8) }))));
    form("f_option2 30: option(option(enum { A(u8), B(unit), }))", binschema::schema!(option(option(enum { A(u8), B(unit), }))));
    form("f_option2 31: option(option(recurse(1)))", binschema::schema!(option(option(recurse(1)))));
    form("f_option2 32: option(option(recurse(LEN + 1)))", binschema::schema!(option(option(recurse(LEN + 1)))));
    form("f_option2 33: option(option(%mark(1)))", binschema::schema!(option(option(%mark(1)))));
    form("f_option2 34: option(option(%{ let x = mark(2); x }))", binschema::schema!(option(option(%{ let x = mark(2); x }))));
    form("f_option2 35: option(option(%binschema::Schema::Str))", binschema::schema!(option(option(%binschema::Schema::Str))));
}

pub fn f_varlen() {
    form("f_varlen 0: seq(varlen)(u8)", binschema::schema!(seq(varlen)(u8)));
    form("f_varlen 1: seq(varlen)(u16)", binschema::schema!(seq(varlen)(u16)));
    form("f_varlen 2: seq(varlen)(u32)", binschema::schema!(seq(varlen)(u32)));
    form("f_varlen 3: seq(varlen)(u64)", binschema::schema!(seq(varlen)(u64)));
    form("f_varlen 4: seq(varlen)(u128)", binschema::schema!(seq(varlen)(u128)));
    form("f_varlen 5: seq(varlen)(i8)", binschema::schema!(seq(varlen)(i8)));
    form("f_varlen 6: seq(varlen)(i16)", binschema::schema!(seq(varlen)(i16)));
    form("f_varlen 7: seq(varlen)(i32)", binschema::schema!(seq(varlen)(i32)));
    form("f_varlen 8: seq(varlen)(i64)", binschema::schema!(seq(varlen)(i64)));
    form("f_varlen 9: seq(varlen)(i128)", binschema::schema!(seq(varlen)(i128)));
    form("f_varlen 10: seq(varlen)(f32)", binschema::schema!(seq(varlen)(f32)));
    form("f_varlen 11: seq(varlen)(f64)", binschema::schema!(seq(varlen)(f64)));
    form("f_varlen 12: seq(varlen)(char)", binschema::schema!(seq(varlen)(char)));
    form("f_varlen 13: seq(varlen)(bool)", binschema::schema!(seq(varlen)(bool)));
    form("f_varlen 14: seq(varlen)(str)", binschema::schema!(seq(varlen)(str)));
    form("f_varlen 15: seq(varlen)(bytes)", binschema::schema!(seq(varlen)(bytes)));
    form("f_varlen 16: seq(varlen)(unit)", binschema::schema!(seq(varlen)(unit)));
    form("f_varlen 17: seq(varlen)(option(u8))", binschema::schema!(seq(varlen)(option(u8))));
    form("f_varlen 18: seq(varlen)(option(option(str)))", binschema::schema!(seq(varlen)(option(option(str)))));
    form("f_varlen 19: seq(varlen)(seq(varlen)(u8))", binschema::schema!(seq(varlen)(seq(varlen)(u8))));
    form("f_varlen 20: seq(varlen)(seq(5)(u8))", binschema::schema!(seq(varlen)(seq(5)(u8))));
    form("f_varlen 21: seq(varlen)(seq(LEN)(unit))", binschema::schema!(seq(varlen)(seq(LEN)(unit))));
    form("f_varlen 22: seq(varlen)(tuple {})", binschema::schema!(seq(varlen)(tuple {})));
    form("f_varlen 23: seq(varlen)(tuple { (u8) })", binschema::schema!(seq(varlen)(tuple { (u8) })));
    form("f_varlen 24: seq(varlen)(tuple { (u8), (str), })", binschema::schema!(seq(varlen)(tuple { (u8), (str), })));
    form("f_varlen 25: seq(varlen)(struct {})", binschema::schema!(seq(varlen)(struct {})));
    form("f_varlen 26: seq(varlen)(struct { (a: u8) })", binschema::schema!(seq(varlen)(struct { (a: u8) })));
    form("f_varlen 27: seq(varlen)(struct { (a: u8), (b: str), })", binschema::schema!(seq(varlen)(struct { (a: u8), (b: str), })));
    form("f_varlen 28: seq(varlen)(enum {})", binschema::schema!(seq(varlen)(enum {})));
    form("f_varlen 29: seq(varlen)(enum { A(u8) })", binschema::schema!(seq(varlen)(enum { A(u8) })));
    form("f_varlen 30: seq(varlen)(enum { A(u8), B(unit), })", binschema::schema!(seq(varlen)(enum { A(u8), B(unit), })));
    form("f_varlen 31: seq(varlen)(recurse(1))", binschema::schema!(seq(varlen)(recurse(1))));
    form("f_varlen 32: seq(varlen)(recurse(LEN + 1))", binschema::schema!(seq(varlen)(recurse(LEN + 1))));
    form("f_varlen 33: seq(varlen)(%mark(1))", binschema::schema!(seq(varlen)(%mark(1))));
    form("f_varlen 34: seq(varlen)(%{ let x = mark(2); x })", binschema::schema!(seq(varlen)(%{ let x = mark(2); x })));
    form("f_varlen 35: seq(varlen)(%binschema::Schema::Str)", binschema::schema!(seq(varlen)(%binschema::Schema::Str)));
}

pub fn f_fixed() {
    form("f_fixed 0: seq(3)(u8)", binschema::schema!(seq(3)(u8)));
    form("f_fixed 1: seq(3)(u16)", binschema::schema!(seq(3)(u16)));
    form("f_fixed 2: seq(3)(u32)", binschema::schema!(seq(3)(u32)));
    form("f_fixed 3: seq(3)(u64)", binschema::schema!(seq(3)(u64)));
    form("f_fixed 4: seq(3)(u128)", binschema::schema!(seq(3)(u128)));
    form("f_fixed 5: seq(3)(i8)", binschema::schema!(seq(3)(i8)));
    form("f_fixed 6: seq(3)(i16)", binschema::schema!(seq(3)(i16)));
    form("f_fixed 7: seq(3)(i32)", binschema::schema!(seq(3)(i32)));
    form("f_fixed 8: seq(3)(i64)", binschema::schema!(seq(3)(i64)));
    form("f_fixed 9: seq(3)(i128)", binschema::schema!(seq(3)(i128)));
    form("f_fixed 10: seq(3)(f32)", binschema::schema!(seq(3)(f32)));
    form("f_fixed 11: seq(3)(f64)", binschema::schema!(seq(3)(f64)));
    form("f_fixed 12: seq(3)(char)", binschema::schema!(seq(3)(char)));
    form("f_fixed 13: seq(3)(bool)", binschema::schema!(seq(3)(bool)));
    form("f_fixed 14: seq(3)(str)", binschema::schema!(seq(3)(str)));
    form("f_fixed 15: seq(3)(bytes)", binschema::schema!(seq(3)(bytes)));
    form("f_fixed 16: seq(3)(unit)", binschema::schema!(seq(3)(unit)));
    form("f_fixed 17: seq(3)(option(u8))", binschema::schema!(seq(3)(option(u8))));
    form("f_fixed 18: seq(3)(option(option(str)))", binschema::schema!(seq(3)(option(option(str)))));
    form("f_fixed 19: seq(3)(seq(varlen)(u8))", binschema::schema!(seq(3)(seq(varlen)(u8))));
    form("f_fixed 20: seq(3)(seq(5)(u8))", binschema::schema!(seq(3)(seq(5)(u8))));
    form("f_fixed 21: seq(3)(seq(LEN)(unit))", binschema::schema!(seq(3)(seq(LEN)(unit))));
    form("f_fixed 22: seq(3)(tuple {})", binschema::schema!(seq(3)(tuple {})));
    form("f_fixed 23: seq(3)(tuple { (u8) })", binschema::schema!(seq(3)(tuple { (u8) })));
    form("f_fixed 24: seq(3)(tuple { (u8), (str), })", binschema::schema!(seq(3)(tuple { (u8), (str), })));
    form("f_fixed 25: seq(3)(struct {})", binschema::schema!(seq(3)(struct {})));
    form("f_fixed 26: seq(3)(struct { (a: u8) })", binschema::schema!(seq(3)(struct { (a: u8) })));
    form("f_fixed 27: seq(3)(struct { (a: u8), (b: str), })", binschema::schema!(seq(3)(struct { (a: u8), (b: str), })));
    form("f_fixed 28: seq(3)(enum {})", binschema::schema!(seq(3)(enum {})));
    form("f_fixed 29: seq(3)(enum { A(u8) })", binschema::schema!(seq(3)(enum { A(u8) })));
    form("f_fixed 30: seq(3)(enum { A(u8), B(unit), })", binschema::schema!(seq(3)(enum { A(u8), B(unit), })));
    form("f_fixed 31: seq(3)(recurse(1))", binschema::schema!(seq(3)(recurse(1))));
    form("f_fixed 32: seq(3)(recurse(LEN + 1))", binschema::schema!(seq(3)(recurse(LEN + 1))));
    form("f_fixed 33: seq(3)(%mark(1))", binschema::schema!(seq(3)(%mark(1))));
    form("f_fixed 34: seq(3)(%{ let x = mark(2); x })", binschema::schema!(seq(3)(%{ let x = mark(2); x })));
    form("f_fixed 35: seq(3)(%binschema::Schema::Str)", binschema::schema!(seq(3)(%binschema::Schema::Str)));
}

pub fn f_fixed_expr() {
    form("f_fixed_expr 0: seq(2 * LEN)(u8)", binschema::schema!(seq(2 * LEN)(u8)));
    form("f_fixed_expr 1: seq(2 * LEN)(u16)", binschema::schema!(seq(2 * LEN)(u16)));
    form("f_fixed_expr 2: seq(2 * LEN)(u32)", binschema::schema!(seq(2 * LEN)(u32)));
    form("f_fixed_expr 3: seq(2 * LEN)(u64)", binschema::schema!(seq(2 * LEN)(u64)));
    form("f_fixed_expr 4: seq(2 * LEN)(u128)", binschema::schema!(seq(2 * LEN)(u128)));
    form("f_fixed_expr 5: seq(2 * LEN)(i8)", binschema::schema!(seq(2 * LEN)(i8)));
    form("f_fixed_expr 6: seq(2 * LEN)(i16)", binschema::schema!(seq(2 * LEN)(i16)));
    form("f_fixed_expr 7: seq(2 * LEN)(i32)", binschema::schema!(seq(2 * LEN)(i32)));
    form("f_fixed_expr 8: seq(2 * LEN)(i64)", binschema::schema!(seq(2 * LEN)(i64)));
    form("f_fixed_expr 9: seq(2 * LEN)(i128)", binschema::schema!(seq(2 * LEN)(i128)));
    form("f_fixed_expr 10: seq(2 * LEN)(f32)", binschema::schema!(seq(2 * LEN)(f32)));
    form("f_fixed_expr 11: seq(2 * LEN)(f64)", binschema::schema!(seq(2 * LEN)(f64)));
    form("f_fixed_expr 12: seq(2 * LEN)(char)", binschema::schema!(seq(2 * LEN)(char)));
    form("f_fixed_expr 13: seq(2 * LEN)(bool)", binschema::schema!(seq(2 * LEN)(bool)));
    form("f_fixed_expr 14: seq(2 * LEN)(str)", binschema::schema!(seq(2 * LEN)(str)));
    form("f_fixed_expr 15: seq(2 * LEN)(bytes)", binschema::schema!(seq(2 * LEN)(bytes)));
    form("f_fixed_expr 16: seq(2 * LEN)(unit)", binschema::schema!(seq(2 * LEN)(unit)));
    form("f_fixed_expr 17: seq(2 * LEN)(option(u8))", binschema::schema!(seq(2 * LEN)(option(u8))));
    form("f_fixed_expr 18: seq(2 * LEN)(option(option(str)))", binschema::schema!(seq(2 * LEN)(option(option(str)))));
    form("f_fixed_expr 19: seq(2 * LEN)(seq(varlen)(u8))", binschema::schema!(seq(2 * LEN)(seq(varlen)(u8))));
    form("f_fixed_expr 20: seq(2 * LEN)(seq(5)(u8))", binschema::schema!(seq(2 * LEN)(seq(5)(u8))));
    form("f_fixed_expr 21: seq(2 * LEN)(seq(LEN)(unit))", binschema::schema!(seq(2 * LEN)(seq(LEN)(unit))));
    form("f_fixed_expr 22: seq(2 * LEN)(tuple {})", binschema::schema!(seq(2 * LEN)(tuple {})));
    form("f_fixed_expr 23: seq(2 * LEN)(tuple { (u8) })", binschema::schema!(seq(2 * LEN)(tuple { (u8) })));
    form("f_fixed_expr 24: seq(2 * LEN)(tuple { (u8), (str), })", binschema::schema!(seq(2 * LEN)(tuple { (u8), (str), })));
    form("f_fixed_expr 25: seq(2 * LEN)(struct {})", binschema::schema!(seq(2 * LEN)(struct {})));
    form("f_fixed_expr 26: seq(2 * LEN)(struct { (a: u8) })", binschema::schema!(seq(2 * LEN)(struct { (a: u8) })));
    form("f_fixed_expr 27: seq(2 * LEN)(struct { (a: u8), (b: str), })", binschema::schema!(seq(2 * LEN)(struct { (a: u8), (b: str), })));
    form("f_fixed_expr 28: seq(2 * LEN)(enum {})", binschema::schema!(seq(2 * LEN)(enum {})));
    form("f_fixed_expr 29: seq(2 * LEN)(enum { A(u8) })", binschema::schema!(seq(2 * LEN)(enum { A(u8) })));
    form("f_fixed_expr 30: seq(2 * LEN)(enum { A(u8), B(unit), })", binschema::schema!(seq(2 * LEN)(enum { A(u8), B(unit), })));
    form("f_fixed_expr 31: seq(2 * LEN)(recurse(1))", binschema::schema!(seq(2 * LEN)(recurse(1))));
    form("f_fixed_expr 32: seq(2 * LEN)(recurse(LEN + 1))", binschema::schema!(seq(2 * LEN)(recurse(LEN + 1))));
    form("f_fixed_expr 33: seq(2 * LEN)(%mark(1))", binschema::schema!(seq(2 * LEN)(%mark(1))));
    form("f_fixed_expr 34: seq(2 * LEN)(%{ let x = mark(2); x })", binschema::schema!(seq(2 * LEN)(%{ let x = mark(2); x })));
    form("f_fixed_expr 35: seq(2 * LEN)(%binschema::Schema::Str)", binschema::schema!(seq(2 * LEN)(%binschema::Schema::Str)));
}

pub fn f_tuple1() {
    form("f_tuple1 0: tuple { (u8) }", binschema::schema!(tuple { (u8) }));
    form("f_tuple1 1: tuple { (u16) }", binschema::schema!(tuple { (u16) }));
    form("f_tuple1 2: tuple { (u32) }", binschema::schema!(tuple { (u32) }));
    form("f_tuple1 3: tuple { (u64) }", binschema::schema!(tuple { (u64) }));
    form("f_tuple1 4: tuple { (u128) }", binschema::schema!(tuple { (u128) }));
    form("f_tuple1 5: tuple { (i8) }", binschema::schema!(tuple { (i8) }));
    form("f_tuple1 6: tuple { (i16) }", binschema::schema!(tuple { (i16) }));
    form("f_tuple1 7: tuple { (i32) }", binschema::schema!(tuple { (i32) }));
    form("f_tuple1 8: tuple { (i64) }", binschema::schema!(tuple { (i64) }));
    form("f_tuple1 9: tuple { (i128) }", binschema::schema!(tuple { (i128) }));
    form("f_tuple1 10: tuple { (f32) }", binschema::schema!(tuple { (f32) }));
    form("f_tuple1 11: tuple { (f64) }", binschema::schema!(tuple { (f64) }));
    form("f_tuple1 12: tuple { (char) }", binschema::schema!(tuple { (char) }));
    form("f_tuple1 13: tuple { (bool) }", binschema::schema!(tuple { (bool) }));
    form("f_tuple1 14: tuple { (str) }", binschema::schema!(tuple { (str) }));
    form("f_tuple1 15: tuple { (bytes) }", binschema::schema!(tuple { (bytes) }));
    form("f_tuple1 16: tuple { (unit) }", binschema::schema!(tuple { (unit) }));
    form("f_tuple1 17: tuple { (option(u8)) }", binschema::schema!(tuple { (option(u8)) }));
    form("f_tuple1 18: tuple { (option(option(str))) }", binschema::schema!(tuple { (option(option(str))) }));
    form("f_tuple1 19: tuple { (seq(varlen)(u8)) }", binschema::schema!(tuple { (seq(varlen)(u8)) }));
    form("f_tuple1 20: tuple { (seq(5)(u8)) }", binschema::schema!(tuple { (seq(5)(u8)) }));
    form("f_tuple1 21: tuple { (seq(LEN)(unit)) }", binschema::schema!(tuple { (seq(LEN)(unit)) }));
    form("f_tuple1 22: tuple { (tuple {}) }", binschema::schema!(tuple { (tuple {}) }));
    form("f_tuple1 23: tuple { (tuple { (u8) }) }", binschema::schema!(tuple { (tuple { (u8) }) }));
    form("f_tuple1 24: tuple { (tuple { (u8), (str), }) }", binschema::schema!(tuple { (tuple { (u8), (str), }) }));
    form("f_tuple1 25: tuple { (struct {}) }", binschema::schema!(tuple { (struct {}) }));
    form("f_tuple1 26: tuple { (struct { (a: u8) }) }", binschema::schema!(tuple { (struct { (a: u8) }) }));
    form("f_tuple1 27: tuple { (struct { (a: u8), (b: str), }) }", binschema::schema!(tuple { (struct { (a: u8), (b: str), }) }));
    form("f_tuple1 28: tuple { (enum {}) }", binschema::schema!(tuple { (enum {}) }));
    form("f_tuple1 29: tuple { (enum { A(u8) }) }", binschema::schema!(tuple { (enum { A(u8) }) }));
    form("f_tuple1 30: tuple { (enum { A(u8), B(unit), }) }", binschema::schema!(tuple { (enum { A(u8), B(unit), }) }));
    form("f_tuple1 31: tuple { (recurse(1)) }", binschema::schema!(tuple { (recurse(1)) }));
    form("f_tuple1 32: tuple { (recurse(LEN + 1)) }", binschema::schema!(tuple { (recurse(LEN + 1)) }));
    form("f_tuple1 33: tuple { (%mark(1)) }", binschema::schema!(tuple { (%mark(1)) }));
    form("f_tuple1 34: tuple { (%{ let x = mark(2); x }) }", binschema::schema!(tuple { (%{ let x = mark(2); x }) }));
    form("f_tuple1 35: tuple { (%binschema::Schema::Str) }", binschema::schema!(tuple { (%binschema::Schema::Str) }));
}

pub fn f_tuple1_comma() {
    form("f_tuple1_comma 0: tuple { (u8), }", binschema::schema!(tuple { (u8), }));
    form("f_tuple1_comma 1: tuple { (u16), }", binschema::schema!(tuple { (u16), }));
    form("f_tuple1_comma 2: tuple { (u32), }", binschema::schema!(tuple { (u32), }));
    form("f_tuple1_comma 3: tuple { (u64), }", binschema::schema!(tuple { (u64), }));
    form("f_tuple1_comma 4: tuple { (u128), }", binschema::schema!(tuple { (u128), }));
    form("f_tuple1_comma 5: tuple { (i8), }", binschema::schema!(tuple { (i8), }));
    form("f_tuple1_comma 6: tuple { (i16), }", binschema::schema!(tuple { (i16), }));
    form("f_tuple1_comma 7: tuple { (i32), }", binschema::schema!(tuple { (i32), }));
    form("f_tuple1_comma 8: tuple { (i64), }", binschema::schema!(tuple { (i64), }));
    form("f_tuple1_comma 9: tuple { (i128), }", binschema::schema!(tuple { (i128), }));
    form("f_tuple1_comma 10: tuple { (f32), }", binschema::schema!(tuple { (f32), }));
    form("f_tuple1_comma 11: tuple { (f64), }", binschema::schema!(tuple { (f64), }));
    form("f_tuple1_comma 12: tuple { (char), }", binschema::schema!(tuple { (char), }));
    form("f_tuple1_comma 13: tuple { (bool), }", binschema::schema!(tuple { (bool), }));
    form("f_tuple1_comma 14: tuple { (str), }", binschema::schema!(tuple { (str), }));
    form("f_tuple1_comma 15: tuple { (bytes), }", binschema::schema!(tuple { (bytes), }));
    form("f_tuple1_comma 16: tuple { (unit), }", binschema::schema!(tuple { (unit), }));
    form("f_tuple1_comma 17: tuple { (option(u8)), }", binschema::schema!(tuple { (option(u8)), }));
    form("f_tuple1_comma 18: tuple { (option(option(str))), }", binschema::schema!(tuple { (option(option(str))), }));
    form("f_tuple1_comma 19: tuple { (seq(varlen)(u8)), }", binschema::schema!(tuple { (seq(varlen)(u8)), }));
    form("f_tuple1_comma 20: tuple { (seq(5)(u8)), }", binschema::schema!(tuple { (seq(5)(u8)), }));
    form("f_tuple1_comma 21: tuple { (seq(LEN)(unit)), }", binschema::schema!(tuple { (seq(LEN)(unit)), }));
    form("f_tuple1_comma 22: tuple { (tuple {}), }", binschema::schema!(tuple { (tuple {}), }));
    form("f_tuple1_comma 23: tuple { (tuple { (u8) }), }", binschema::schema!(tuple { (tuple { (u8) }), }));
    form("f_tuple1_comma 24: tuple { (tuple { (u8), (str), }), }", binschema::schema!(tuple { (tuple { (u8), (str), }), }));
    form("f_tuple1_comma 25: tuple { (struct {}), }", binschema::schema!(tuple { (struct {}), }));
    form("f_tuple1_comma 26: tuple { (struct { (a: u8) }), }", binschema::schema!(tuple { (struct { (a: u8) }), }));
    form("f_tuple1_comma 27: tuple { (struct { (a: u8), (b: str), }), }", binschema::schema!(tuple { (struct { (a: u8), (b: str), }), }));
    form("f_tuple1_comma 28: tuple { (enum {}), }", binschema::schema!(tuple { (enum {}), }));
    form("f_tuple1_comma 29: tuple { (enum { A(u8) }), }", binschema::schema!(tuple { (enum { A(u8) }), }));
    form("f_tuple1_comma 30: tuple { (enum { A(u8), B(unit), }), }", binschema::schema!(tuple { (enum { A(u8), B(unit), }), }));
    form("f_tuple1_comma 31: tuple { (recurse(1)), }", binschema::schema!(tuple { (recurse(1)), }));
    form("f_tuple1_comma 32: tuple { (recurse(LEN + 1)), }", binschema::schema!(tuple { (recurse(LEN + 1)), }));
    form("f_tuple1_comma 33: tuple { (%mark(1)), }", binschema::schema!(tuple { (%mark(1)), }));
    form("f_tuple1_comma 34: tuple { (%{ let x = mark(2); x }), }", binschema::schema!(tuple { (%{ let x = mark(2); x }), }));
    form("f_tuple1_comma 35: tuple { (%binschema::Schema::Str), }", binschema::schema!(tuple { (%binschema::Schema::Str), }));
}

pub fn f_tuple3_first() {
    form("f_tuple3_first 0: tuple { (u8), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (u8), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 1: tuple { (u16), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (u16), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 2: tuple { (u32), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (u32), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 3: tuple { (u64), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (u64), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 4: tuple { (u128), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (u128), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 5: tuple { (i8), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (i8), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 6: tuple { (i16), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (i16), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 7: tuple { (i32), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (i32), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 8: tuple { (i64), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (i64), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 9: tuple { (i128), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (i128), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 10: tuple { (f32), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (f32), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 11: tuple { (f64), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (f64), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 12: tuple { (char), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (char), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 13: tuple { (bool), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (bool), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 14: tuple { (str), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (str), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 15: tuple { (bytes), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (bytes), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 16: tuple { (unit), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (unit), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 17: tuple { (option(u8)), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (option(u8)), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 18: tuple { (option(option(str))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (option(option(str))), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 19: tuple { (seq(varlen)(u8)), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (seq(varlen)(u8)), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 20: tuple { (seq(5)(u8)), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (seq(5)(u8)), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 21: tuple { (seq(LEN)(unit)), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (seq(LEN)(unit)), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 22: tuple { (tuple {}), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple {}), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 23: tuple { (tuple { (u8) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple { (u8) }), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 24: tuple { (tuple { (u8), (str), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple { (u8), (str), }), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 25: tuple { (struct {}), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (struct {}), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 26: tuple { (struct { (a: u8) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (struct { (a: u8) }), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 27: tuple { (struct { (a: u8), (b: str), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (struct { (a: u8), (b: str), }), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 28: tuple { (enum {}), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum {}), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 29: tuple { (enum { A(u8) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum { A(u8) }), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 30: tuple { (enum { A(u8), B(unit), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum { A(u8), B(unit), }), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 31: tuple { (recurse(1)), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (recurse(1)), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 32: tuple { (recurse(LEN + 1)), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (recurse(LEN + 1)), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 33: tuple { (%mark(1)), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (%mark(1)), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 34: tuple { (%{ let x = mark(2); x }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (%{ let x = mark(2); x }), (%mark(8)), (%mark(9)) }));
    form("f_tuple3_first 35: tuple { (%binschema::Schema::Str), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (%binschema::Schema::Str), (%mark(8)), (%mark(9)) }));
}

pub fn f_tuple3_mid() {
    form("f_tuple3_mid 0: tuple { (%mark(7)), (u8), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (u8), (%mark(9)), }));
    form("f_tuple3_mid 1: tuple { (%mark(7)), (u16), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (u16), (%mark(9)), }));
    form("f_tuple3_mid 2: tuple { (%mark(7)), (u32), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (u32), (%mark(9)), }));
    form("f_tuple3_mid 3: tuple { (%mark(7)), (u64), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (u64), (%mark(9)), }));
    form("f_tuple3_mid 4: tuple { (%mark(7)), (u128), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (u128), (%mark(9)), }));
    form("f_tuple3_mid 5: tuple { (%mark(7)), (i8), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (i8), (%mark(9)), }));
    form("f_tuple3_mid 6: tuple { (%mark(7)), (i16), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (i16), (%mark(9)), }));
    form("f_tuple3_mid 7: tuple { (%mark(7)), (i32), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (i32), (%mark(9)), }));
    form("f_tuple3_mid 8: tuple { (%mark(7)), (i64), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (i64), (%mark(9)), }));
    form("f_tuple3_mid 9: tuple { (%mark(7)), (i128), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (i128), (%mark(9)), }));
    form("f_tuple3_mid 10: tuple { (%mark(7)), (f32), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (f32), (%mark(9)), }));
    form("f_tuple3_mid 11: tuple { (%mark(7)), (f64), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (f64), (%mark(9)), }));
    form("f_tuple3_mid 12: tuple { (%mark(7)), (char), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (char), (%mark(9)), }));
    form("f_tuple3_mid 13: tuple { (%mark(7)), (bool), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (bool), (%mark(9)), }));
    form("f_tuple3_mid 14: tuple { (%mark(7)), (str), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (str), (%mark(9)), }));
    form("f_tuple3_mid 15: tuple { (%mark(7)), (bytes), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (bytes), (%mark(9)), }));
    form("f_tuple3_mid 16: tuple { (%mark(7)), (unit), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (unit), (%mark(9)), }));
    form("f_tuple3_mid 17: tuple { (%mark(7)), (option(u8)), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (option(u8)), (%mark(9)), }));
    form("f_tuple3_mid 18: tuple { (%mark(7)), (option(option(str))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (option(option(str))), (%mark(9)), }));
    form("f_tuple3_mid 19: tuple { (%mark(7)), (seq(varlen)(u8)), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (seq(varlen)(u8)), (%mark(9)), }));
    form("f_tuple3_mid 20: tuple { (%mark(7)), (seq(5)(u8)), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (seq(5)(u8)), (%mark(9)), }));
    form("f_tuple3_mid 21: tuple { (%mark(7)), (seq(LEN)(unit)), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (seq(LEN)(unit)), (%mark(9)), }));
    form("f_tuple3_mid 22: tuple { (%mark(7)), (tuple {}), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple {}), (%mark(9)), }));
    form("f_tuple3_mid 23: tuple { (%mark(7)), (tuple { (u8) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple { (u8) }), (%mark(9)), }));
    form("f_tuple3_mid 24: tuple { (%mark(7)), (tuple { (u8), (str), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple { (u8), (str), }), (%mark(9)), }));
    form("f_tuple3_mid 25: tuple { (%mark(7)), (struct {}), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (struct {}), (%mark(9)), }));
    form("f_tuple3_mid 26: tuple { (%mark(7)), (struct { (a: u8) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (struct { (a: u8) }), (%mark(9)), }));
    form("f_tuple3_mid 27: tuple { (%mark(7)), (struct { (a: u8), (b: str), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (struct { (a: u8), (b: str), }), (%mark(9)), }));
    form("f_tuple3_mid 28: tuple { (%mark(7)), (enum {}), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum {}), (%mark(9)), }));
    form("f_tuple3_mid 29: tuple { (%mark(7)), (enum { A(u8) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum { A(u8) }), (%mark(9)), }));
    form("f_tuple3_mid 30: tuple { (%mark(7)), (enum { A(u8), B(unit), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum { A(u8), B(unit), }), (%mark(9)), }));
    form("f_tuple3_mid 31: tuple { (%mark(7)), (recurse(1)), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (recurse(1)), (%mark(9)), }));
    form("f_tuple3_mid 32: tuple { (%mark(7)), (recurse(LEN + 1)), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (recurse(LEN + 1)), (%mark(9)), }));
    form("f_tuple3_mid 33: tuple { (%mark(7)), (%mark(1)), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (%mark(1)), (%mark(9)), }));
    form("f_tuple3_mid 34: tuple { (%mark(7)), (%{ let x = mark(2); x }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (%{ let x = mark(2); x }), (%mark(9)), }));
    form("f_tuple3_mid 35: tuple { (%mark(7)), (%binschema::Schema::Str), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (%binschema::Schema::Str), (%mark(9)), }));
}

pub fn f_tuple3_last() {
    form("f_tuple3_last 0: tuple { (%mark(7)), (%mark(8)), (u8) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (u8) }));
    form("f_tuple3_last 1: tuple { (%mark(7)), (%mark(8)), (u16) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (u16) }));
    form("f_tuple3_last 2: tuple { (%mark(7)), (%mark(8)), (u32) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (u32) }));
    form("f_tuple3_last 3: tuple { (%mark(7)), (%mark(8)), (u64) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (u64) }));
    form("f_tuple3_last 4: tuple { (%mark(7)), (%mark(8)), (u128) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (u128) }));
    form("f_tuple3_last 5: tuple { (%mark(7)), (%mark(8)), (i8) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (i8) }));
    form("f_tuple3_last 6: tuple { (%mark(7)), (%mark(8)), (i16) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (i16) }));
    form("f_tuple3_last 7: tuple { (%mark(7)), (%mark(8)), (i32) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (i32) }));
    form("f_tuple3_last 8: tuple { (%mark(7)), (%mark(8)), (i64) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (i64) }));
    form("f_tuple3_last 9: tuple { (%mark(7)), (%mark(8)), (i128) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (i128) }));
    form("f_tuple3_last 10: tuple { (%mark(7)), (%mark(8)), (f32) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (f32) }));
    form("f_tuple3_last 11: tuple { (%mark(7)), (%mark(8)), (f64) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (f64) }));
    form("f_tuple3_last 12: tuple { (%mark(7)), (%mark(8)), (char) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (char) }));
    form("f_tuple3_last 13: tuple { (%mark(7)), (%mark(8)), (bool) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (bool) }));
    form("f_tuple3_last 14: tuple { (%mark(7)), (%mark(8)), (str) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (str) }));
    form("f_tuple3_last 15: tuple { (%mark(7)), (%mark(8)), (bytes) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (bytes) }));
    form("f_tuple3_last 16: tuple { (%mark(7)), (%mark(8)), (unit) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (unit) }));
    form("f_tuple3_last 17: tuple { (%mark(7)), (%mark(8)), (option(u8)) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (option(u8)) }));
    form("f_tuple3_last 18: tuple { (%mark(7)), (%mark(8)), (option(option(str))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (option(option(str))) }));
    form("f_tuple3_last 19: tuple { (%mark(7)), (%mark(8)), (seq(varlen)(u8)) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (seq(varlen)(u8)) }));
    form("f_tuple3_last 20: tuple { (%mark(7)), (%mark(8)), (seq(5)(u8)) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (seq(5)(u8)) }));
    form("f_tuple3_last 21: tuple { (%mark(7)), (%mark(8)), (seq(LEN)(unit)) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (seq(LEN)(unit)) }));
    form("f_tuple3_last 22: tuple { (%mark(7)), (%mark(8)), (tuple {}) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple {}) }));
    form("f_tuple3_last 23: tuple { (%mark(7)), (%mark(8)), (tuple { (u8) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (u8) }) }));
    form("f_tuple3_last 24: tuple { (%mark(7)), (%mark(8)), (tuple { (u8), (str), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (u8), (str), }) }));
    form("f_tuple3_last 25: tuple { (%mark(7)), (%mark(8)), (struct {}) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct {}) }));
    form("f_tuple3_last 26: tuple { (%mark(7)), (%mark(8)), (struct { (a: u8) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct { (a: u8) }) }));
    form("f_tuple3_last 27: tuple { (%mark(7)), (%mark(8)), (struct { (a: u8), (b: str), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct { (a: u8), (b: str), }) }));
    form("f_tuple3_last 28: tuple { (%mark(7)), (%mark(8)), (enum {}) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum {}) }));
    form("f_tuple3_last 29: tuple { (%mark(7)), (%mark(8)), (enum { A(u8) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum { A(u8) }) }));
    form("f_tuple3_last 30: tuple { (%mark(7)), (%mark(8)), (enum { A(u8), B(unit), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum { A(u8), B(unit), }) }));
    form("f_tuple3_last 31: tuple { (%mark(7)), (%mark(8)), (recurse(1)) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (recurse(1)) }));
    form("f_tuple3_last 32: tuple { (%mark(7)), (%mark(8)), (recurse(LEN + 1)) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (recurse(LEN + 1)) }));
    form("f_tuple3_last 33: tuple { (%mark(7)), (%mark(8)), (%mark(1)) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (%mark(1)) }));
    form("f_tuple3_last 34: tuple { (%mark(7)), (%mark(8)), (%{ let x = mark(2); x }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (%{ let x = mark(2); x }) }));
    form("f_tuple3_last 35: tuple { (%mark(7)), (%mark(8)), (%binschema::Schema::Str) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (%binschema::Schema::Str) }));
}

pub fn f_struct1() {
    form("f_struct1 0: struct { (name: u8) }", binschema::schema!(struct { (name: u8) }));
    form("f_struct1 1: struct { (name: u16) }", binschema::schema!(struct { (name: u16) }));
    form("f_struct1 2: struct { (name: u32) }", binschema::schema!(struct { (name: u32) }));
    form("f_struct1 3: struct { (name: u64) }", binschema::schema!(struct { (name: u64) }));
    form("f_struct1 4: struct { (name: u128) }", binschema::schema!(struct { (name: u128) }));
    form("f_struct1 5: struct { (name: i8) }", binschema::schema!(struct { (name: i8) }));
    form("f_struct1 6: struct { (name: i16) }", binschema::schema!(struct { (name: i16) }));
    form("f_struct1 7: struct { (name: i32) }", binschema::schema!(struct { (name: i32) }));
    form("f_struct1 8: struct { (name: i64) }", binschema::schema!(struct { (name: i64) }));
    form("f_struct1 9: struct { (name: i128) }", binschema::schema!(struct { (name: i128) }));
    form("f_struct1 10: struct { (name: f32) }", binschema::schema!(struct { (name: f32) }));
    form("f_struct1 11: struct { (name: f64) }", binschema::schema!(struct { (name: f64) }));
    form("f_struct1 12: struct { (name: char) }", binschema::schema!(struct { (name: char) }));
    form("f_struct1 13: struct { (name: bool) }", binschema::schema!(struct { (name: bool) }));
    form("f_struct1 14: struct { (name: str) }", binschema::schema!(struct { (name: str) }));
    form("f_struct1 15: struct { (name: bytes) }", binschema::schema!(struct { (name: bytes) }));
    form("f_struct1 16: struct { (name: unit) }", binschema::schema!(struct { (name: unit) }));
    form("f_struct1 17: struct { (name: option(u8)) }", binschema::schema!(struct { (name: option(u8)) }));
    form("f_struct1 18: struct { (name: option(option(str))) }", binschema::schema!(struct { (name: option(option(str))) }));
    form("f_struct1 19: struct { (name: seq(varlen)(u8)) }", binschema::schema!(struct { (name: seq(varlen)(u8)) }));
    form("f_struct1 20: struct { (name: seq(5)(u8)) }", binschema::schema!(struct { (name: seq(5)(u8)) }));
    form("f_struct1 21: struct { (name: seq(LEN)(unit)) }", binschema::schema!(struct { (name: seq(LEN)(unit)) }));
    form("f_struct1 22: struct { (name: tuple {}) }", binschema::schema!(struct { (name: tuple {}) }));
    form("f_struct1 23: struct { (name: tuple { (u8) }) }", binschema::schema!(struct { (name: tuple { (u8) }) }));
    form("f_struct1 24: struct { (name: tuple { (u8), (str), }) }", binschema::schema!(struct { (name: tuple { (u8), (str), }) }));
    form("f_struct1 25: struct { (name: struct {}) }", binschema::schema!(struct { (name: struct {}) }));
    form("f_struct1 26: struct { (name: struct { (a: u8) }) }", binschema::schema!(struct { (name: struct { (a: u8) }) }));
    form("f_struct1 27: struct { (name: struct { (a: u8), (b: str), }) }", binschema::schema!(struct { (name: struct { (a: u8), (b: str), }) }));
    form("f_struct1 28: struct { (name: enum {}) }", binschema::schema!(struct { (name: enum {}) }));
    form("f_struct1 29: struct { (name: enum { A(u8) }) }", binschema::schema!(struct { (name: enum { A(u8) }) }));
    form("f_struct1 30: struct { (name: enum { A(u8), B(unit), }) }", binschema::schema!(struct { (name: enum { A(u8), B(unit), }) }));
    form("f_struct1 31: struct { (name: recurse(1)) }", binschema::schema!(struct { (name: recurse(1)) }));
    form("f_struct1 32: struct { (name: recurse(LEN + 1)) }", binschema::schema!(struct { (name: recurse(LEN + 1)) }));
    form("f_struct1 33: struct { (name: %mark(1)) }", binschema::schema!(struct { (name: %mark(1)) }));
    form("f_struct1 34: struct { (name: %{ let x = mark(2); x }) }", binschema::schema!(struct { (name: %{ let x = mark(2); x }) }));
    form("f_struct1 35: struct { (name: %binschema::Schema::Str) }", binschema::schema!(struct { (name: %binschema::Schema::Str) }));
}

pub fn f_struct1_comma() {
    form("f_struct1_comma 0: struct { (name: u8), }", binschema::schema!(struct { (name: u8), }));
    form("f_struct1_comma 1: struct { (name: u16), }", binschema::schema!(struct { (name: u16), }));
    form("f_struct1_comma 2: struct { (name: u32), }", binschema::schema!(struct { (name: u32), }));
    form("f_struct1_comma 3: struct { (name: u64), }", binschema::schema!(struct { (name: u64), }));
    form("f_struct1_comma 4: struct { (name: u128), }", binschema::schema!(struct { (name: u128), }));
    form("f_struct1_comma 5: struct { (name: i8), }", binschema::schema!(struct { (name: i8), }));
    form("f_struct1_comma 6: struct { (name: i16), }", binschema::schema!(struct { (name: i16), }));
    form("f_struct1_comma 7: struct { (name: i32), }", binschema::schema!(struct { (name: i32), }));
    form("f_struct1_comma 8: struct { (name: i64), }", binschema::schema!(struct { (name: i64), }));
    form("f_struct1_comma 9: struct { (name: i128), }", binschema::schema!(struct { (name: i128), }));
    form("f_struct1_comma 10: struct { (name: f32), }", binschema::schema!(struct { (name: f32), }));
    form("f_struct1_comma 11: struct { (name: f64), }", binschema::schema!(struct { (name: f64), }));
    form("f_struct1_comma 12: struct { (name: char), }", binschema::schema!(struct { (name: char), }));
    form("f_struct1_comma 13: struct { (name: bool), }", binschema::schema!(struct { (name: bool), }));
    form("f_struct1_comma 14: struct { (name: str), }", binschema::schema!(struct { (name: str), }));
    form("f_struct1_comma 15: struct { (name: bytes), }", binschema::schema!(struct { (name: bytes), }));
    form("f_struct1_comma 16: struct { (name: unit), }", binschema::schema!(struct { (name: unit), }));
    form("f_struct1_comma 17: struct { (name: option(u8)), }", binschema::schema!(struct { (name: option(u8)), }));
    form("f_struct1_comma 18: struct { (name: option(option(str))), }", binschema::schema!(struct { (name: option(option(str))), }));
    form("f_struct1_comma 19: struct { (name: seq(varlen)(u8)), }", binschema::schema!(struct { (name: seq(varlen)(u8)), }));
    form("f_struct1_comma 20: struct { (name: seq(5)(u8)), }", binschema::schema!(struct { (name: seq(5)(u8)), }));
    form("f_struct1_comma 21: struct { (name: seq(LEN)(unit)), }", binschema::schema!(struct { (name: seq(LEN)(unit)), }));
    form("f_struct1_comma 22: struct { (name: tuple {}), }", binschema::schema!(struct { (name: tuple {}), }));
    form("f_struct1_comma 23: struct { (name: tuple { (u8) }), }", binschema::schema!(struct { (name: tuple { (u8) }), }));
    form("f_struct1_comma 24: struct { (name: tuple { (u8), (str), }), }", binschema::schema!(struct { (name: tuple { (u8), (str), }), }));
    form("f_struct1_comma 25: struct { (name: struct {}), }", binschema::schema!(struct { (name: struct {}), }));
    form("f_struct1_comma 26: struct { (name: struct { (a: u8) }), }", binschema::schema!(struct { (name: struct { (a: u8) }), }));
    form("f_struct1_comma 27: struct { (name: struct { (a: u8), (b: str), }), }", binschema::schema!(struct { (name: struct { (a: u8), (b: str), }), }));
    form("f_struct1_comma 28: struct { (name: enum {}), }", binschema::schema!(struct { (name: enum {}), }));
    form("f_struct1_comma 29: struct { (name: enum { A(u8) }), }", binschema::schema!(struct { (name: enum { A(u8) }), }));
    form("f_struct1_comma 30: struct { (name: enum { A(u8), B(unit), }), }", binschema::schema!(struct { (name: enum { A(u8), B(unit), }), }));
    form("f_struct1_comma 31: struct { (name: recurse(1)), }", binschema::schema!(struct { (name: recurse(1)), }));
    form("f_struct1_comma 32: struct { (name: recurse(LEN + 1)), }", binschema::schema!(struct { (name: recurse(LEN + 1)), }));
    form("f_struct1_comma 33: struct { (name: %mark(1)), }", binschema::schema!(struct { (name: %mark(1)), }));
    form("f_struct1_comma 34: struct { (name: %{ let x = mark(2); x }), }", binschema::schema!(struct { (name: %{ let x = mark(2); x }), }));
    form("f_struct1_comma 35: struct { (name: %binschema::Schema::Str), }", binschema::schema!(struct { (name: %binschema::Schema::Str), }));
}

pub fn f_struct3_first() {
    form("f_struct3_first 0: struct { (x: u8), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: u8), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 1: struct { (x: u16), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: u16), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 2: struct { (x: u32), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: u32), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 3: struct { (x: u64), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: u64), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 4: struct { (x: u128), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: u128), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 5: struct { (x: i8), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: i8), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 6: struct { (x: i16), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: i16), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 7: struct { (x: i32), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: i32), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 8: struct { (x: i64), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: i64), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 9: struct { (x: i128), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: i128), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 10: struct { (x: f32), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: f32), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 11: struct { (x: f64), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: f64), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 12: struct { (x: char), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: char), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 13: struct { (x: bool), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: bool), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 14: struct { (x: str), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: str), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 15: struct { (x: bytes), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: bytes), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 16: struct { (x: unit), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: unit), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 17: struct { (x: option(u8)), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: option(u8)), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 18: struct { (x: option(option(str))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: option(option(str))), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 19: struct { (x: seq(varlen)(u8)), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: seq(varlen)(u8)), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 20: struct { (x: seq(5)(u8)), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: seq(5)(u8)), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 21: struct { (x: seq(LEN)(unit)), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: seq(LEN)(unit)), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 22: struct { (x: tuple {}), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: tuple {}), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 23: struct { (x: tuple { (u8) }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: tuple { (u8) }), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 24: struct { (x: tuple { (u8), (str), }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: tuple { (u8), (str), }), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 25: struct { (x: struct {}), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: struct {}), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 26: struct { (x: struct { (a: u8) }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: struct { (a: u8) }), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 27: struct { (x: struct { (a: u8), (b: str), }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: struct { (a: u8), (b: str), }), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 28: struct { (x: enum {}), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: enum {}), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 29: struct { (x: enum { A(u8) }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: enum { A(u8) }), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 30: struct { (x: enum { A(u8), B(unit), }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: enum { A(u8), B(unit), }), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 31: struct { (x: recurse(1)), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: recurse(1)), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 32: struct { (x: recurse(LEN + 1)), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: recurse(LEN + 1)), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 33: struct { (x: %mark(1)), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: %mark(1)), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 34: struct { (x: %{ let x = mark(2); x }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: %{ let x = mark(2); x }), (y: %mark(8)), (z: %mark(9)) }));
    form("f_struct3_first 35: struct { (x: %binschema::Schema::Str), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: %binschema::Schema::Str), (y: %mark(8)), (z: %mark(9)) }));
}

pub fn f_struct3_mid() {
    form("f_struct3_mid 0: struct { (z: %mark(7)), (y: u8), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: u8), (x: %mark(9)), }));
    form("f_struct3_mid 1: struct { (z: %mark(7)), (y: u16), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: u16), (x: %mark(9)), }));
    form("f_struct3_mid 2: struct { (z: %mark(7)), (y: u32), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: u32), (x: %mark(9)), }));
    form("f_struct3_mid 3: struct { (z: %mark(7)), (y: u64), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: u64), (x: %mark(9)), }));
    form("f_struct3_mid 4: struct { (z: %mark(7)), (y: u128), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: u128), (x: %mark(9)), }));
    form("f_struct3_mid 5: struct { (z: %mark(7)), (y: i8), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: i8), (x: %mark(9)), }));
    form("f_struct3_mid 6: struct { (z: %mark(7)), (y: i16), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: i16), (x: %mark(9)), }));
    form("f_struct3_mid 7: struct { (z: %mark(7)), (y: i32), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: i32), (x: %mark(9)), }));
    form("f_struct3_mid 8: struct { (z: %mark(7)), (y: i64), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: i64), (x: %mark(9)), }));
    form("f_struct3_mid 9: struct { (z: %mark(7)), (y: i128), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: i128), (x: %mark(9)), }));
    form("f_struct3_mid 10: struct { (z: %mark(7)), (y: f32), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: f32), (x: %mark(9)), }));
    form("f_struct3_mid 11: struct { (z: %mark(7)), (y: f64), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: f64), (x: %mark(9)), }));
    form("f_struct3_mid 12: struct { (z: %mark(7)), (y: char), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: char), (x: %mark(9)), }));
    form("f_struct3_mid 13: struct { (z: %mark(7)), (y: bool), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: bool), (x: %mark(9)), }));
    form("f_struct3_mid 14: struct { (z: %mark(7)), (y: str), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: str), (x: %mark(9)), }));
    form("f_struct3_mid 15: struct { (z: %mark(7)), (y: bytes), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: bytes), (x: %mark(9)), }));
    form("f_struct3_mid 16: struct { (z: %mark(7)), (y: unit), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: unit), (x: %mark(9)), }));
    form("f_struct3_mid 17: struct { (z: %mark(7)), (y: option(u8)), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: option(u8)), (x: %mark(9)), }));
    form("f_struct3_mid 18: struct { (z: %mark(7)), (y: option(option(str))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: option(option(str))), (x: %mark(9)), }));
    form("f_struct3_mid 19: struct { (z: %mark(7)), (y: seq(varlen)(u8)), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: seq(varlen)(u8)), (x: %mark(9)), }));
    form("f_struct3_mid 20: struct { (z: %mark(7)), (y: seq(5)(u8)), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: seq(5)(u8)), (x: %mark(9)), }));
    form("f_struct3_mid 21: struct { (z: %mark(7)), (y: seq(LEN)(unit)), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: seq(LEN)(unit)), (x: %mark(9)), }));
    form("f_struct3_mid 22: struct { (z: %mark(7)), (y: tuple {}), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: tuple {}), (x: %mark(9)), }));
    form("f_struct3_mid 23: struct { (z: %mark(7)), (y: tuple { (u8) }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (u8) }), (x: %mark(9)), }));
    form("f_struct3_mid 24: struct { (z: %mark(7)), (y: tuple { (u8), (str), }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (u8), (str), }), (x: %mark(9)), }));
    form("f_struct3_mid 25: struct { (z: %mark(7)), (y: struct {}), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: struct {}), (x: %mark(9)), }));
    form("f_struct3_mid 26: struct { (z: %mark(7)), (y: struct { (a: u8) }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: struct { (a: u8) }), (x: %mark(9)), }));
    form("f_struct3_mid 27: struct { (z: %mark(7)), (y: struct { (a: u8), (b: str), }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: struct { (a: u8), (b: str), }), (x: %mark(9)), }));
    form("f_struct3_mid 28: struct { (z: %mark(7)), (y: enum {}), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: enum {}), (x: %mark(9)), }));
    form("f_struct3_mid 29: struct { (z: %mark(7)), (y: enum { A(u8) }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: enum { A(u8) }), (x: %mark(9)), }));
    form("f_struct3_mid 30: struct { (z: %mark(7)), (y: enum { A(u8), B(unit), }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: enum { A(u8), B(unit), }), (x: %mark(9)), }));
    form("f_struct3_mid 31: struct { (z: %mark(7)), (y: recurse(1)), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: recurse(1)), (x: %mark(9)), }));
    form("f_struct3_mid 32: struct { (z: %mark(7)), (y: recurse(LEN + 1)), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: recurse(LEN + 1)), (x: %mark(9)), }));
    form("f_struct3_mid 33: struct { (z: %mark(7)), (y: %mark(1)), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: %mark(1)), (x: %mark(9)), }));
    form("f_struct3_mid 34: struct { (z: %mark(7)), (y: %{ let x = mark(2); x }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: %{ let x = mark(2); x }), (x: %mark(9)), }));
    form("f_struct3_mid 35: struct { (z: %mark(7)), (y: %binschema::Schema::Str), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: %binschema::Schema::Str), (x: %mark(9)), }));
}

pub fn f_struct3_last() {
    form("f_struct3_last 0: struct { (b: %mark(7)), (a: %mark(8)), (c: u8) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: u8) }));
    form("f_struct3_last 1: struct { (b: %mark(7)), (a: %mark(8)), (c: u16) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: u16) }));
    form("f_struct3_last 2: struct { (b: %mark(7)), (a: %mark(8)), (c: u32) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: u32) }));
    form("f_struct3_last 3: struct { (b: %mark(7)), (a: %mark(8)), (c: u64) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: u64) }));
    form("f_struct3_last 4: struct { (b: %mark(7)), (a: %mark(8)), (c: u128) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: u128) }));
    form("f_struct3_last 5: struct { (b: %mark(7)), (a: %mark(8)), (c: i8) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: i8) }));
    form("f_struct3_last 6: struct { (b: %mark(7)), (a: %mark(8)), (c: i16) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: i16) }));
    form("f_struct3_last 7: struct { (b: %mark(7)), (a: %mark(8)), (c: i32) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: i32) }));
    form("f_struct3_last 8: struct { (b: %mark(7)), (a: %mark(8)), (c: i64) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: i64) }));
    form("f_struct3_last 9: struct { (b: %mark(7)), (a: %mark(8)), (c: i128) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: i128) }));
    form("f_struct3_last 10: struct { (b: %mark(7)), (a: %mark(8)), (c: f32) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: f32) }));
    form("f_struct3_last 11: struct { (b: %mark(7)), (a: %mark(8)), (c: f64) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: f64) }));
    form("f_struct3_last 12: struct { (b: %mark(7)), (a: %mark(8)), (c: char) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: char) }));
    form("f_struct3_last 13: struct { (b: %mark(7)), (a: %mark(8)), (c: bool) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: bool) }));
    form("f_struct3_last 14: struct { (b: %mark(7)), (a: %mark(8)), (c: str) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: str) }));
    form("f_struct3_last 15: struct { (b: %mark(7)), (a: %mark(8)), (c: bytes) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: bytes) }));
    form("f_struct3_last 16: struct { (b: %mark(7)), (a: %mark(8)), (c: unit) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: unit) }));
    form("f_struct3_last 17: struct { (b: %mark(7)), (a: %mark(8)), (c: option(u8)) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: option(u8)) }));
    form("f_struct3_last 18: struct { (b: %mark(7)), (a: %mark(8)), (c: option(option(str))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: option(option(str))) }));
    form("f_struct3_last 19: struct { (b: %mark(7)), (a: %mark(8)), (c: seq(varlen)(u8)) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: seq(varlen)(u8)) }));
    form("f_struct3_last 20: struct { (b: %mark(7)), (a: %mark(8)), (c: seq(5)(u8)) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: seq(5)(u8)) }));
    form("f_struct3_last 21: struct { (b: %mark(7)), (a: %mark(8)), (c: seq(LEN)(unit)) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: seq(LEN)(unit)) }));
    form("f_struct3_last 22: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple {}) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple {}) }));
    form("f_struct3_last 23: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (u8) }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (u8) }) }));
    form("f_struct3_last 24: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (u8), (str), }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (u8), (str), }) }));
    form("f_struct3_last 25: struct { (b: %mark(7)), (a: %mark(8)), (c: struct {}) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct {}) }));
    form("f_struct3_last 26: struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (a: u8) }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (a: u8) }) }));
    form("f_struct3_last 27: struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (a: u8), (b: str), }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (a: u8), (b: str), }) }));
    form("f_struct3_last 28: struct { (b: %mark(7)), (a: %mark(8)), (c: enum {}) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum {}) }));
    form("f_struct3_last 29: struct { (b: %mark(7)), (a: %mark(8)), (c: enum { A(u8) }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum { A(u8) }) }));
    form("f_struct3_last 30: struct { (b: %mark(7)), (a: %mark(8)), (c: enum { A(u8), B(unit), }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum { A(u8), B(unit), }) }));
    form("f_struct3_last 31: struct { (b: %mark(7)), (a: %mark(8)), (c: recurse(1)) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: recurse(1)) }));
    form("f_struct3_last 32: struct { (b: %mark(7)), (a: %mark(8)), (c: recurse(LEN + 1)) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: recurse(LEN + 1)) }));
    form("f_struct3_last 33: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(1)) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(1)) }));
    form("f_struct3_last 34: struct { (b: %mark(7)), (a: %mark(8)), (c: %{ let x = mark(2); x }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: %{ let x = mark(2); x }) }));
    form("f_struct3_last 35: struct { (b: %mark(7)), (a: %mark(8)), (c: %binschema::Schema::Str) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: %binschema::Schema::Str) }));
}

pub fn f_enum1() {
    form("f_enum1 0: enum { Name(u8) }", binschema::schema!(enum { Name(u8) }));
    form("f_enum1 1: enum { Name(u16) }", binschema::schema!(enum { Name(u16) }));
    form("f_enum1 2: enum { Name(u32) }", binschema::schema!(enum { Name(u32) }));
    form("f_enum1 3: enum { Name(u64) }", binschema::schema!(enum { Name(u64) }));
    form("f_enum1 4: enum { Name(u128) }", binschema::schema!(enum { Name(u128) }));
    form("f_enum1 5: enum { Name(i8) }", binschema::schema!(enum { Name(i8) }));
    form("f_enum1 6: enum { Name(i16) }", binschema::schema!(enum { Name(i16) }));
    form("f_enum1 7: enum { Name(i32) }", binschema::schema!(enum { Name(i32) }));
    form("f_enum1 8: enum { Name(i64) }", binschema::schema!(enum { Name(i64) }));
    form("f_enum1 9: enum { Name(i128) }", binschema::schema!(enum { Name(i128) }));
    form("f_enum1 10: enum { Name(f32) }", binschema::schema!(enum { Name(f32) }));
    form("f_enum1 11: enum { Name(f64) }", binschema::schema!(enum { Name(f64) }));
    form("f_enum1 12: enum { Name(char) }", binschema::schema!(enum { Name(char) }));
    form("f_enum1 13: enum { Name(bool) }", binschema::schema!(enum { Name(bool) }));
    form("f_enum1 14: enum { Name(str) }", binschema::schema!(enum { Name(str) }));
    form("f_enum1 15: enum { Name(bytes) }", binschema::schema!(enum { Name(bytes) }));
    form("f_enum1 16: enum { Name(unit) }", binschema::schema!(enum { Name(unit) }));
    form("f_enum1 17: enum { Name(option(u8)) }", binschema::schema!(enum { Name(option(u8)) }));
    form("f_enum1 18: enum { Name(option(option(str))) }", binschema::schema!(enum { Name(option(option(str))) }));
    form("f_enum1 19: enum { Name(seq(varlen)(u8)) }", binschema::schema!(enum { Name(seq(varlen)(u8)) }));
    form("f_enum1 20: enum { Name(seq(5)(u8)) }", binschema::schema!(enum { Name(seq(5)(u8)) }));
    form("f_enum1 21: enum { Name(seq(LEN)(unit)) }", binschema::schema!(enum { Name(seq(LEN)(unit)) }));
    form("f_enum1 22: enum { Name(tuple {}) }", binschema::schema!(enum { Name(tuple {}) }));
    form("f_enum1 23: enum { Name(tuple { (u8) }) }", binschema::schema!(enum { Name(tuple { (u8) }) }));
    form("f_enum1 24: enum { Name(tuple { (u8), (str), }) }", binschema::schema!(enum { Name(tuple { (u8), (str), }) }));
    form("f_enum1 25: enum { Name(struct {}) }", binschema::schema!(enum { Name(struct {}) }));
    form("f_enum1 26: enum { Name(struct { (a: u8) }) }", binschema::schema!(enum { Name(struct { (a: u8) }) }));
    form("f_enum1 27: enum { Name(struct { (a: u8), (b: str), }) }", binschema::schema!(enum { Name(struct { (a: u8), (b: str), }) }));
    form("f_enum1 28: enum { Name(enum {}) }", binschema::schema!(enum { Name(enum {}) }));
    form("f_enum1 29: enum { Name(enum { A(u8) }) }", binschema::schema!(enum { Name(enum { A(u8) }) }));
    form("f_enum1 30: enum { Name(enum { A(u8), B(unit), }) }", binschema::schema!(enum { Name(enum { A(u8), B(unit), }) }));
    form("f_enum1 31: enum { Name(recurse(1)) }", binschema::schema!(enum { Name(recurse(1)) }));
    form("f_enum1 32: enum { Name(recurse(LEN + 1)) }", binschema::schema!(enum { Name(recurse(LEN + 1)) }));
    form("f_enum1 33: enum { Name(%mark(1)) }", binschema::schema!(enum { Name(%mark(1)) }));
    form("f_enum1 34: enum { Name(%{ let x = mark(2); x }) }", binschema::schema!(enum { Name(%{ let x = mark(2); x }) }));
    form("f_enum1 35: enum { Name(%binschema::Schema::Str) }", binschema::schema!(enum { Name(%binschema::Schema::Str) }));
}

pub fn f_enum1_comma() {
    form("f_enum1_comma 0: enum { Name(u8), }", binschema::schema!(enum { Name(u8), }));
    form("f_enum1_comma 1: enum { Name(u16), }", binschema::schema!(enum { Name(u16), }));
    form("f_enum1_comma 2: enum { Name(u32), }", binschema::schema!(enum { Name(u32), }));
    form("f_enum1_comma 3: enum { Name(u64), }", binschema::schema!(enum { Name(u64), }));
    form("f_enum1_comma 4: enum { Name(u128), }", binschema::schema!(enum { Name(u128), }));
    form("f_enum1_comma 5: enum { Name(i8), }", binschema::schema!(enum { Name(i8), }));
    form("f_enum1_comma 6: enum { Name(i16), }", binschema::schema!(enum { Name(i16), }));
    form("f_enum1_comma 7: enum { Name(i32), }", binschema::schema!(enum { Name(i32), }));
    form("f_enum1_comma 8: enum { Name(i64), }", binschema::schema!(enum { Name(i64), }));
    form("f_enum1_comma 9: enum { Name(i128), }", binschema::schema!(enum { Name(i128), }));
    form("f_enum1_comma 10: enum { Name(f32), }", binschema::schema!(enum { Name(f32), }));
    form("f_enum1_comma 11: enum { Name(f64), }", binschema::schema!(enum { Name(f64), }));
    form("f_enum1_comma 12: enum { Name(char), }", binschema::schema!(enum { Name(char), }));
    form("f_enum1_comma 13: enum { Name(bool), }", binschema::schema!(enum { Name(bool), }));
    form("f_enum1_comma 14: enum { Name(str), }", binschema::schema!(enum { Name(str), }));
    form("f_enum1_comma 15: enum { Name(bytes), }", binschema::schema!(enum { Name(bytes), }));
    form("f_enum1_comma 16: enum { Name(unit), }", binschema::schema!(enum { Name(unit), }));
    form("f_enum1_comma 17: enum { Name(option(u8)), }", binschema::schema!(enum { Name(option(u8)), }));
    form("f_enum1_comma 18: enum { Name(option(option(str))), }", binschema::schema!(enum { Name(option(option(str))), }));
    form("f_enum1_comma 19: enum { Name(seq(varlen)(u8)), }", binschema::schema!(enum { Name(seq(varlen)(u8)), }));
    form("f_enum1_comma 20: enum { Name(seq(5)(u8)), }", binschema::schema!(enum { Name(seq(5)(u8)), }));
    form("f_enum1_comma 21: enum { Name(seq(LEN)(unit)), }", binschema::schema!(enum { Name(seq(LEN)(unit)), }));
    form("f_enum1_comma 22: enum { Name(tuple {}), }", binschema::schema!(enum { Name(tuple {}), }));
    form("f_enum1_comma 23: enum { Name(tuple { (u8) }), }", binschema::schema!(enum { Name(tuple { (u8) }), }));
    form("f_enum1_comma 24: enum { Name(tuple { (u8), (str), }), }", binschema::schema!(enum { Name(tuple { (u8), (str), }), }));
    form("f_enum1_comma 25: enum { Name(struct {}), }", binschema::schema!(enum { Name(struct {}), }));
    form("f_enum1_comma 26: enum { Name(struct { (a: u8) }), }", binschema::schema!(enum { Name(struct { (a: u8) }), }));
    form("f_enum1_comma 27: enum { Name(struct { (a: u8), (b: str), }), }", binschema::schema!(enum { Name(struct { (a: u8), (b: str), }), }));
    form("f_enum1_comma 28: enum { Name(enum {}), }", binschema::schema!(enum { Name(enum {}), }));
    form("f_enum1_comma 29: enum { Name(enum { A(u8) }), }", binschema::schema!(enum { Name(enum { A(u8) }), }));
    form("f_enum1_comma 30: enum { Name(enum { A(u8), B(unit), }), }", binschema::schema!(enum { Name(enum { A(u8), B(unit), }), }));
    form("f_enum1_comma 31: enum { Name(recurse(1)), }", binschema::schema!(enum { Name(recurse(1)), }));
    form("f_enum1_comma 32: enum { Name(recurse(LEN + 1)), }", binschema::schema!(enum { Name(recurse(LEN + 1)), }));
    form("f_enum1_comma 33: enum { Name(%mark(1)), }", binschema::schema!(enum { Name(%mark(1)), }));
    form("f_enum1_comma 34: enum { Name(%{ let x = mark(2); x }), }", binschema::schema!(enum { Name(%{ let x = mark(2); x }), }));
    form("f_enum1_comma 35: enum { Name(%binschema::Schema::Str), }", binschema::schema!(enum { Name(%binschema::Schema::Str), }));
}

pub fn f_enum3_first() {
    form("f_enum3_first 0: enum { X(u8), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(u8), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 1: enum { X(u16), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(u16), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 2: enum { X(u32), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(u32), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 3: enum { X(u64), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(u64), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 4: enum { X(u128), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(u128), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 5: enum { X(i8), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(i8), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 6: enum { X(i16), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(i16), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 7: enum { X(i32), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(i32), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 8: enum { X(i64), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(i64), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 9: enum { X(i128), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(i128), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 10: enum { X(f32), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(f32), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 11: enum { X(f64), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(f64), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 12: enum { X(char), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(char), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 13: enum { X(bool), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(bool), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 14: enum { X(str), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(str), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 15: enum { X(bytes), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(bytes), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 16: enum { X(unit), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(unit), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 17: enum { X(option(u8)), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(option(u8)), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 18: enum { X(option(option(str))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(option(option(str))), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 19: enum { X(seq(varlen)(u8)), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(seq(varlen)(u8)), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 20: enum { X(seq(5)(u8)), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(seq(5)(u8)), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 21: enum { X(seq(LEN)(unit)), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(seq(LEN)(unit)), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 22: enum { X(tuple {}), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple {}), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 23: enum { X(tuple { (u8) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple { (u8) }), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 24: enum { X(tuple { (u8), (str), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple { (u8), (str), }), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 25: enum { X(struct {}), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(struct {}), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 26: enum { X(struct { (a: u8) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(struct { (a: u8) }), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 27: enum { X(struct { (a: u8), (b: str), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(struct { (a: u8), (b: str), }), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 28: enum { X(enum {}), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum {}), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 29: enum { X(enum { A(u8) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum { A(u8) }), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 30: enum { X(enum { A(u8), B(unit), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum { A(u8), B(unit), }), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 31: enum { X(recurse(1)), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(recurse(1)), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 32: enum { X(recurse(LEN + 1)), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(recurse(LEN + 1)), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 33: enum { X(%mark(1)), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(%mark(1)), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 34: enum { X(%{ let x = mark(2); x }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(%{ let x = mark(2); x }), Y(%mark(8)), Z(%mark(9)) }));
    form("f_enum3_first 35: enum { X(%binschema::Schema::Str), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(%binschema::Schema::Str), Y(%mark(8)), Z(%mark(9)) }));
}

pub fn f_enum3_mid() {
    form("f_enum3_mid 0: enum { Z(%mark(7)), Y(u8), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(u8), X(%mark(9)), }));
    form("f_enum3_mid 1: enum { Z(%mark(7)), Y(u16), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(u16), X(%mark(9)), }));
    form("f_enum3_mid 2: enum { Z(%mark(7)), Y(u32), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(u32), X(%mark(9)), }));
    form("f_enum3_mid 3: enum { Z(%mark(7)), Y(u64), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(u64), X(%mark(9)), }));
    form("f_enum3_mid 4: enum { Z(%mark(7)), Y(u128), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(u128), X(%mark(9)), }));
    form("f_enum3_mid 5: enum { Z(%mark(7)), Y(i8), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(i8), X(%mark(9)), }));
    form("f_enum3_mid 6: enum { Z(%mark(7)), Y(i16), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(i16), X(%mark(9)), }));
    form("f_enum3_mid 7: enum { Z(%mark(7)), Y(i32), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(i32), X(%mark(9)), }));
    form("f_enum3_mid 8: enum { Z(%mark(7)), Y(i64), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(i64), X(%mark(9)), }));
    form("f_enum3_mid 9: enum { Z(%mark(7)), Y(i128), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(i128), X(%mark(9)), }));
    form("f_enum3_mid 10: enum { Z(%mark(7)), Y(f32), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(f32), X(%mark(9)), }));
    form("f_enum3_mid 11: enum { Z(%mark(7)), Y(f64), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(f64), X(%mark(9)), }));
    form("f_enum3_mid 12: enum { Z(%mark(7)), Y(char), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(char), X(%mark(9)), }));
    form("f_enum3_mid 13: enum { Z(%mark(7)), Y(bool), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(bool), X(%mark(9)), }));
    form("f_enum3_mid 14: enum { Z(%mark(7)), Y(str), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(str), X(%mark(9)), }));
    form("f_enum3_mid 15: enum { Z(%mark(7)), Y(bytes), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(bytes), X(%mark(9)), }));
    form("f_enum3_mid 16: enum { Z(%mark(7)), Y(unit), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(unit), X(%mark(9)), }));
    form("f_enum3_mid 17: enum { Z(%mark(7)), Y(option(u8)), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(option(u8)), X(%mark(9)), }));
    form("f_enum3_mid 18: enum { Z(%mark(7)), Y(option(option(str))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(option(option(str))), X(%mark(9)), }));
    form("f_enum3_mid 19: enum { Z(%mark(7)), Y(seq(varlen)(u8)), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(seq(varlen)(u8)), X(%mark(9)), }));
    form("f_enum3_mid 20: enum { Z(%mark(7)), Y(seq(5)(u8)), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(seq(5)(u8)), X(%mark(9)), }));
    form("f_enum3_mid 21: enum { Z(%mark(7)), Y(seq(LEN)(unit)), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(seq(LEN)(unit)), X(%mark(9)), }));
    form("f_enum3_mid 22: enum { Z(%mark(7)), Y(tuple {}), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple {}), X(%mark(9)), }));
    form("f_enum3_mid 23: enum { Z(%mark(7)), Y(tuple { (u8) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple { (u8) }), X(%mark(9)), }));
    form("f_enum3_mid 24: enum { Z(%mark(7)), Y(tuple { (u8), (str), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple { (u8), (str), }), X(%mark(9)), }));
    form("f_enum3_mid 25: enum { Z(%mark(7)), Y(struct {}), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(struct {}), X(%mark(9)), }));
    form("f_enum3_mid 26: enum { Z(%mark(7)), Y(struct { (a: u8) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(struct { (a: u8) }), X(%mark(9)), }));
    form("f_enum3_mid 27: enum { Z(%mark(7)), Y(struct { (a: u8), (b: str), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(struct { (a: u8), (b: str), }), X(%mark(9)), }));
    form("f_enum3_mid 28: enum { Z(%mark(7)), Y(enum {}), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum {}), X(%mark(9)), }));
    form("f_enum3_mid 29: enum { Z(%mark(7)), Y(enum { A(u8) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum { A(u8) }), X(%mark(9)), }));
    form("f_enum3_mid 30: enum { Z(%mark(7)), Y(enum { A(u8), B(unit), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum { A(u8), B(unit), }), X(%mark(9)), }));
    form("f_enum3_mid 31: enum { Z(%mark(7)), Y(recurse(1)), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(recurse(1)), X(%mark(9)), }));
    form("f_enum3_mid 32: enum { Z(%mark(7)), Y(recurse(LEN + 1)), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(recurse(LEN + 1)), X(%mark(9)), }));
    form("f_enum3_mid 33: enum { Z(%mark(7)), Y(%mark(1)), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(%mark(1)), X(%mark(9)), }));
    form("f_enum3_mid 34: enum { Z(%mark(7)), Y(%{ let x = mark(2); x }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(%{ let x = mark(2); x }), X(%mark(9)), }));
    form("f_enum3_mid 35: enum { Z(%mark(7)), Y(%binschema::Schema::Str), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(%binschema::Schema::Str), X(%mark(9)), }));
}

pub fn f_enum3_last() {
    form("f_enum3_last 0: enum { B(%mark(7)), A(%mark(8)), C(u8) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(u8) }));
    form("f_enum3_last 1: enum { B(%mark(7)), A(%mark(8)), C(u16) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(u16) }));
    form("f_enum3_last 2: enum { B(%mark(7)), A(%mark(8)), C(u32) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(u32) }));
    form("f_enum3_last 3: enum { B(%mark(7)), A(%mark(8)), C(u64) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(u64) }));
    form("f_enum3_last 4: enum { B(%mark(7)), A(%mark(8)), C(u128) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(u128) }));
    form("f_enum3_last 5: enum { B(%mark(7)), A(%mark(8)), C(i8) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(i8) }));
    form("f_enum3_last 6: enum { B(%mark(7)), A(%mark(8)), C(i16) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(i16) }));
    form("f_enum3_last 7: enum { B(%mark(7)), A(%mark(8)), C(i32) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(i32) }));
    form("f_enum3_last 8: enum { B(%mark(7)), A(%mark(8)), C(i64) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(i64) }));
    form("f_enum3_last 9: enum { B(%mark(7)), A(%mark(8)), C(i128) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(i128) }));
    form("f_enum3_last 10: enum { B(%mark(7)), A(%mark(8)), C(f32) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(f32) }));
    form("f_enum3_last 11: enum { B(%mark(7)), A(%mark(8)), C(f64) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(f64) }));
    form("f_enum3_last 12: enum { B(%mark(7)), A(%mark(8)), C(char) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(char) }));
    form("f_enum3_last 13: enum { B(%mark(7)), A(%mark(8)), C(bool) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(bool) }));
    form("f_enum3_last 14: enum { B(%mark(7)), A(%mark(8)), C(str) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(str) }));
    form("f_enum3_last 15: enum { B(%mark(7)), A(%mark(8)), C(bytes) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(bytes) }));
    form("f_enum3_last 16: enum { B(%mark(7)), A(%mark(8)), C(unit) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(unit) }));
    form("f_enum3_last 17: enum { B(%mark(7)), A(%mark(8)), C(option(u8)) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(option(u8)) }));
    form("f_enum3_last 18: enum { B(%mark(7)), A(%mark(8)), C(option(option(str))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(option(option(str))) }));
    form("f_enum3_last 19: enum { B(%mark(7)), A(%mark(8)), C(seq(varlen)(u8)) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(seq(varlen)(u8)) }));
    form("f_enum3_last 20: enum { B(%mark(7)), A(%mark(8)), C(seq(5)(u8)) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(seq(5)(u8)) }));
    form("f_enum3_last 21: enum { B(%mark(7)), A(%mark(8)), C(seq(LEN)(unit)) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(seq(LEN)(unit)) }));
    form("f_enum3_last 22: enum { B(%mark(7)), A(%mark(8)), C(tuple {}) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple {}) }));
    form("f_enum3_last 23: enum { B(%mark(7)), A(%mark(8)), C(tuple { (u8) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple { (u8) }) }));
    form("f_enum3_last 24: enum { B(%mark(7)), A(%mark(8)), C(tuple { (u8), (str), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple { (u8), (str), }) }));
    form("f_enum3_last 25: enum { B(%mark(7)), A(%mark(8)), C(struct {}) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct {}) }));
    form("f_enum3_last 26: enum { B(%mark(7)), A(%mark(8)), C(struct { (a: u8) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (a: u8) }) }));
    form("f_enum3_last 27: enum { B(%mark(7)), A(%mark(8)), C(struct { (a: u8), (b: str), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (a: u8), (b: str), }) }));
    form("f_enum3_last 28: enum { B(%mark(7)), A(%mark(8)), C(enum {}) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum {}) }));
    form("f_enum3_last 29: enum { B(%mark(7)), A(%mark(8)), C(enum { A(u8) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { A(u8) }) }));
    form("f_enum3_last 30: enum { B(%mark(7)), A(%mark(8)), C(enum { A(u8), B(unit), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { A(u8), B(unit), }) }));
    form("f_enum3_last 31: enum { B(%mark(7)), A(%mark(8)), C(recurse(1)) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(recurse(1)) }));
    form("f_enum3_last 32: enum { B(%mark(7)), A(%mark(8)), C(recurse(LEN + 1)) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(recurse(LEN + 1)) }));
    form("f_enum3_last 33: enum { B(%mark(7)), A(%mark(8)), C(%mark(1)) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(%mark(1)) }));
    form("f_enum3_last 34: enum { B(%mark(7)), A(%mark(8)), C(%{ let x = mark(2); x }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(%{ let x = mark(2); x }) }));
    form("f_enum3_last 35: enum { B(%mark(7)), A(%mark(8)), C(%binschema::Schema::Str) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(%binschema::Schema::Str) }));
}

pub fn f_interp() {
    form("f_interp 0: %binschema::schema!(u8)", binschema::schema!(%binschema::schema!(u8)));
    form("f_interp 1: %binschema::schema!(u16)", binschema::schema!(%binschema::schema!(u16)));
    form("f_interp 2: %binschema::schema!(u32)", binschema::schema!(%binschema::schema!(u32)));
    form("f_interp 3: %binschema::schema!(u64)", binschema::schema!(%binschema::schema!(u64)));
    form("f_interp 4: %binschema::schema!(u128)", binschema::schema!(%binschema::schema!(u128)));
    form("f_interp 5: %binschema::schema!(i8)", binschema::schema!(%binschema::schema!(i8)));
    form("f_interp 6: %binschema::schema!(i16)", binschema::schema!(%binschema::schema!(i16)));
    form("f_interp 7: %binschema::schema!(i32)", binschema::schema!(%binschema::schema!(i32)));
    form("f_interp 8: %binschema::schema!(i64)", binschema::schema!(%binschema::schema!(i64)));
    form("f_interp 9: %binschema::schema!(i128)", binschema::schema!(%binschema::schema!(i128)));
    form("f_interp 10: %binschema::schema!(f32)", binschema::schema!(%binschema::schema!(f32)));
    form("f_interp 11: %binschema::schema!(f64)", binschema::schema!(%binschema::schema!(f64)));
    form("f_interp 12: %binschema::schema!(char)", binschema::schema!(%binschema::schema!(char)));
    form("f_interp 13: %binschema::schema!(bool)", binschema::schema!(%binschema::schema!(bool)));
    form("f_interp 14: %binschema::schema!(str)", binschema::schema!(%binschema::schema!(str)));
    form("f_interp 15: %binschema::schema!(bytes)", binschema::schema!(%binschema::schema!(bytes)));
    form("f_interp 16: %binschema::schema!(unit)", binschema::schema!(%binschema::schema!(unit)));
    form("f_interp 17: %binschema::schema!(option(u8))", binschema::schema!(%binschema::schema!(option(u8))));
    form("f_interp 18: %binschema::schema!(option(option(str)))", binschema::schema!(%binschema::schema!(option(option(str)))));
    form("f_interp 19: %binschema::schema!(seq(varlen)(u8))", binschema::schema!(%binschema::schema!(seq(varlen)(u8))));
    form("f_interp 20: %binschema::schema!(seq(5)(u8))", binschema::schema!(%binschema::schema!(seq(5)(u8))));
    form("f_interp 21: %binschema::schema!(seq(LEN)(unit))", binschema::schema!(%binschema::schema!(seq(LEN)(unit))));
    form("f_interp 22: %binschema::schema!(tuple {})", binschema::schema!(%binschema::schema!(tuple {})));
    form("f_interp 23: %binschema::schema!(tuple { (u8) })", binschema::schema!(%binschema::schema!(tuple { (u8) })));
    form("f_interp 24: %binschema::schema!(tuple { (u8), (str), })", binschema::schema!(%binschema::schema!(tuple { (u8), (str), })));
    form("f_interp 25: %binschema::schema!(struct {})", binschema::schema!(%binschema::schema!(struct {})));
    form("f_interp 26: %binschema::schema!(struct { (a: u8) })", binschema::schema!(%binschema::schema!(struct { (a: u8) })));
    form("f_interp 27: %binschema::schema!(struct { (a: u8), (b: str), })", binschema::schema!(%binschema::schema!(struct { (a: u8), (b: str), })));
    form("f_interp 28: %binschema::schema!(enum {})", binschema::schema!(%binschema::schema!(enum {})));
    form("f_interp 29: %binschema::schema!(enum { A(u8) })", binschema::schema!(%binschema::schema!(enum { A(u8) })));
    form("f_interp 30: %binschema::schema!(enum { A(u8), B(unit), })", binschema::schema!(%binschema::schema!(enum { A(u8), B(unit), })));
    form("f_interp 31: %binschema::schema!(recurse(1))", binschema::schema!(%binschema::schema!(recurse(1))));
    form("f_interp 32: %binschema::schema!(recurse(LEN + 1))", binschema::schema!(%binschema::schema!(recurse(LEN + 1))));
    form("f_interp 33: %binschema::schema!(%mark(1))", binschema::schema!(%binschema::schema!(%mark(1))));
    form("f_interp 34: %binschema::schema!(%{ let x = mark(2); x })", binschema::schema!(%binschema::schema!(%{ let x = mark(2); x })));
    form("f_interp 35: %binschema::schema!(%binschema::Schema::Str)", binschema::schema!(%binschema::schema!(%binschema::Schema::Str)));
}

pub fn f_inner() {
    form("f_inner 0: %binschema::schema!(option(u8))", binschema::schema!(%binschema::schema!(option(u8))));
    form("f_inner 1: %binschema::schema!(option(u16))", binschema::schema!(%binschema::schema!(option(u16))));
    form("f_inner 2: %binschema::schema!(option(u32))", binschema::schema!(%binschema::schema!(option(u32))));
    form("f_inner 3: %binschema::schema!(option(u64))", binschema::schema!(%binschema::schema!(option(u64))));
    form("f_inner 4: %binschema::schema!(option(u128))", binschema::schema!(%binschema::schema!(option(u128))));
    form("f_inner 5: %binschema::schema!(option(i8))", binschema::schema!(%binschema::schema!(option(i8))));
    form("f_inner 6: %binschema::schema!(option(i16))", binschema::schema!(%binschema::schema!(option(i16))));
    form("f_inner 7: %binschema::schema!(option(i32))", binschema::schema!(%binschema::schema!(option(i32))));
    form("f_inner 8: %binschema::schema!(option(i64))", binschema::schema!(%binschema::schema!(option(i64))));
    form("f_inner 9: %binschema::schema!(option(i128))", binschema::schema!(%binschema::schema!(option(i128))));
    form("f_inner 10: %binschema::schema!(option(f32))", binschema::schema!(%binschema::schema!(option(f32))));
    form("f_inner 11: %binschema::schema!(option(f64))", binschema::schema!(%binschema::schema!(option(f64))));
    form("f_inner 12: %binschema::schema!(option(char))", binschema::schema!(%binschema::schema!(option(char))));
    form("f_inner 13: %binschema::schema!(option(bool))", binschema::schema!(%binschema::schema!(option(bool))));
    form("f_inner 14: %binschema::schema!(option(str))", binschema::schema!(%binschema::schema!(option(str))));
    form("f_inner 15: %binschema::schema!(option(bytes))", binschema::schema!(%binschema::schema!(option(bytes))));
    form("f_inner 16: %binschema::schema!(option(unit))", binschema::schema!(%binschema::schema!(option(unit))));
    form("f_inner 17: %binschema::schema!(option(option(u8)))", binschema::schema!(%binschema::schema!(option(option(u8)))));
    form("f_inner 18: %binschema::schema!(option(option(option(str))))", binschema::schema!(%binschema::schema!(option(option(option(str))))));
    form("f_inner 19: %binschema::schema!(option(seq(varlen)(u8)))", binschema::schema!(%binschema::schema!(option(seq(varlen)(u8)))));
    form("f_inner 20: %binschema::schema!(option(seq(5)(u8)))", binschema::schema!(%binschema::schema!(option(seq(5)(u8)))));
    form("f_inner 21: %binschema::schema!(option(seq(LEN)(unit)))", binschema::schema!(%binschema::schema!(option(seq(LEN)(unit)))));
    form("f_inner 22: %binschema::schema!(option(tuple {}))", binschema::schema!(%binschema::schema!(option(tuple {}))));
    form("f_inner 23: %binschema::schema!(option(tuple { (u8) }))", binschema::schema!(%binschema::schema!(option(tuple { (u8) }))));
    form("f_inner 24: %binschema::schema!(option(tuple { (u8), (str), }))", binschema::schema!(%binschema::schema!(option(tuple { (u8), (str), }))));
    form("f_inner 25: %binschema::schema!(option(struct {}))", binschema::schema!(%binschema::schema!(option(struct {}))));
    form("f_inner 26: %binschema::schema!(option(struct { (a: u8) }))", binschema::schema!(%binschema::schema!(option(struct { (a: u8) }))));
    form("f_inner 27: %binschema::schema!(option(struct { (a: u8), (b: str), }))", binschema::schema!(%binschema::schema!(option(struct { (a: u8), (b: str), }))));
    form("f_inner 28: %binschema::schema!(option(enum {}))", binschema::schema!(%binschema::schema!(option(enum {}))));
    form("f_inner 29: %binschema::schema!(option(enum { A(u8) }))", binschema::schema!(%binschema::schema!(option(enum { A(u8) }))));
    form("f_inner 30: %binschema::schema!(option(enum { A(u8), B(unit), }))", binschema::schema!(%binschema::schema!(option(enum { A(u8), B(unit), }))));
    form("f_inner 31: %binschema::schema!(option(recurse(1)))", binschema::schema!(%binschema::schema!(option(recurse(1)))));
    form("f_inner 32: %binschema::schema!(option(recurse(LEN + 1)))", binschema::schema!(%binschema::schema!(option(recurse(LEN + 1)))));
    form("f_inner 33: %binschema::schema!(option(%mark(1)))", binschema::schema!(%binschema::schema!(option(%mark(1)))));
    form("f_inner 34: %binschema::schema!(option(%{ let x = mark(2); x }))", binschema::schema!(%binschema::schema!(option(%{ let x = mark(2); x }))));
    form("f_inner 35: %binschema::schema!(option(%binschema::Schema::Str))", binschema::schema!(%binschema::schema!(option(%binschema::Schema::Str))));
}

pub fn g_0() {
    form("g_0 0: option(option(%mark(5)))", binschema::schema!(option(option(%mark(5)))));
    form("g_0 1: option(option(option(%mark(5))))", binschema::schema!(option(option(option(%mark(5))))));
    form("g_0 2: option(seq(varlen)(%mark(5)))", binschema::schema!(option(seq(varlen)(%mark(5)))));
    form("g_0 3: option(seq(3)(%mark(5)))", binschema::schema!(option(seq(3)(%mark(5)))));
    form("g_0 4: option(seq(2 * LEN)(%mark(5)))", binschema::schema!(option(seq(2 * LEN)(%mark(5)))));
    form("g_0 5: option(tuple { (%mark(5)) })", binschema::schema!(option(tuple { (%mark(5)) })));
    form("g_0 6: option(tuple { (%mark(5)), })", binschema::schema!(option(tuple { (%mark(5)), })));
    form("g_0 7: option(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })", binschema::schema!(option(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })));
    form("g_0 8: option(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })", binschema::schema!(option(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })));
    form("g_0 9: option(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })", binschema::schema!(option(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })));
    form("g_0 10: option(struct { (name: %mark(5)) })", binschema::schema!(option(struct { (name: %mark(5)) })));
    form("g_0 11: option(struct { (name: %mark(5)), })", binschema::schema!(option(struct { (name: %mark(5)), })));
    form("g_0 12: option(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })", binschema::schema!(option(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })));
    form("g_0 13: option(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })", binschema::schema!(option(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })));
    form("g_0 14: option(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })", binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })));
    form("g_0 15: option(enum { Name(%mark(5)) })", binschema::schema!(option(enum { Name(%mark(5)) })));
    form("g_0 16: option(enum { Name(%mark(5)), })", binschema::schema!(option(enum { Name(%mark(5)), })));
    form("g_0 17: option(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })", binschema::schema!(option(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })));
    form("g_0 18: option(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })", binschema::schema!(option(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })));
    form("g_0 19: option(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })", binschema::schema!(option(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })));
    form("g_0 20: option(%binschema::schema!(%mark(5)))", binschema::schema!(option(%binschema::schema!(%mark(5)))));
    form("g_0 21: option(%binschema::schema!(option(%mark(5))))", binschema::schema!(option(%binschema::schema!(option(%mark(5))))));
    form("g_0 22: option(option(option(%mark(5))))", binschema::schema!(option(option(option(%mark(5))))));
    form("g_0 23: option(option(option(option(%mark(5)))))", binschema::schema!(option(option(option(option(%mark(5)))))));
    form("g_0 24: option(option(seq(varlen)(%mark(5))))", binschema::schema!(option(option(seq(varlen)(%mark(5))))));
    form("g_0 25: option(option(seq(3)(%mark(5))))", binschema::schema!(option(option(seq(3)(%mark(5))))));
    form("g_0 26: option(option(seq(2 * LEN)(%mark(5))))", binschema::schema!(option(option(seq(2 * LEN)(%mark(5))))));
    form("g_0 27: option(option(tuple { (%mark(5)) }))", binschema::schema!(option(option(tuple { (%mark(5)) }))));
    form("g_0 28: option(option(tuple { (%mark(5)), }))", binschema::schema!(option(option(tuple { (%mark(5)), }))));
    form("g_0 29: option(option(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }))", binschema::schema!(option(option(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }))));
    form("g_0 30: option(option(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }))", binschema::schema!(option(option(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }))));
    form("g_0 31: option(option(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }))", binschema::schema!(option(option(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }))));
    form("g_0 32: option(option(struct { (name: %mark(5)) }))", binschema::schema!(option(option(struct { (name: %mark(5)) }))));
    form("g_0 33: option(option(struct { (name: %mark(5)), }))", binschema::schema!(option(option(struct { (name: %mark(5)), }))));
    form("g_0 34: option(option(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }))", binschema::schema!(option(option(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }))));
    form("g_0 35: option(option(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }))", binschema::schema!(option(option(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }))));
    form("g_0 36: option(option(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }))", binschema::schema!(option(option(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }))));
    form("g_0 37: option(option(enum { Name(%mark(5)) }))", binschema::schema!(option(option(enum { Name(%mark(5)) }))));
    form("g_0 38: option(option(enum { Name(%mark(5)), }))", binschema::schema!(option(option(enum { Name(%mark(5)), }))));
    form("g_0 39: option(option(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }))", binschema::schema!(option(option(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }))));
    form("g_0 40: option(option(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }))", binschema::schema!(option(option(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }))));
    form("g_0 41: option(option(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }))", binschema::schema!(option(option(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }))));
    form("g_0 42: option(option(%binschema::schema!(%mark(5))))", binschema::schema!(option(option(%binschema::schema!(%mark(5))))));
    form("g_0 43: option(option(%binschema::schema!(option(%mark(5)))))", binschema::schema!(option(option(%binschema::schema!(option(%mark(5)))))));
    form("g_0 44: seq(varlen)(option(%mark(5)))", binschema::schema!(seq(varlen)(option(%mark(5)))));
    form("g_0 45: seq(varlen)(option(option(%mark(5))))", binschema::schema!(seq(varlen)(option(option(%mark(5))))));
    form("g_0 46: seq(varlen)(seq(varlen)(%mark(5)))", binschema::schema!(seq(varlen)(seq(varlen)(%mark(5)))));
    form("g_0 47: seq(varlen)(seq(3)(%mark(5)))", binschema::schema!(seq(varlen)(seq(3)(%mark(5)))));
    form("g_0 48: seq(varlen)(seq(2 * LEN)(%mark(5)))", binschema::schema!(seq(varlen)(seq(2 * LEN)(%mark(5)))));
    form("g_0 49: seq(varlen)(tuple { (%mark(5)) })", binschema::schema!(seq(varlen)(tuple { (%mark(5)) })));
    form("g_0 50: seq(varlen)(tuple { (%mark(5)), })", binschema::schema!(seq(varlen)(tuple { (%mark(5)), })));
    form("g_0 51: seq(varlen)(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })", binschema::schema!(seq(varlen)(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })));
    form("g_0 52: seq(varlen)(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })", binschema::schema!(seq(varlen)(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })));
    form("g_0 53: seq(varlen)(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })", binschema::schema!(seq(varlen)(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })));
    form("g_0 54: seq(varlen)(struct { (name: %mark(5)) })", binschema::schema!(seq(varlen)(struct { (name: %mark(5)) })));
    form("g_0 55: seq(varlen)(struct { (name: %mark(5)), })", binschema::schema!(seq(varlen)(struct { (name: %mark(5)), })));
    form("g_0 56: seq(varlen)(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })", binschema::schema!(seq(varlen)(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })));
    form("g_0 57: seq(varlen)(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })", binschema::schema!(seq(varlen)(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })));
    form("g_0 58: seq(varlen)(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })", binschema::schema!(seq(varlen)(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })));
    form("g_0 59: seq(varlen)(enum { Name(%mark(5)) })", binschema::schema!(seq(varlen)(enum { Name(%mark(5)) })));
}

pub fn g_1() {
    form("g_1 0: seq(varlen)(enum { Name(%mark(5)), })", binschema::schema!(seq(varlen)(enum { Name(%mark(5)), })));
    form("g_1 1: seq(varlen)(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })", binschema::schema!(seq(varlen)(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })));
    form("g_1 2: seq(varlen)(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })", binschema::schema!(seq(varlen)(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })));
    form("g_1 3: seq(varlen)(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })", binschema::schema!(seq(varlen)(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })));
    form("g_1 4: seq(varlen)(%binschema::schema!(%mark(5)))", binschema::schema!(seq(varlen)(%binschema::schema!(%mark(5)))));
    form("g_1 5: seq(varlen)(%binschema::schema!(option(%mark(5))))", binschema::schema!(seq(varlen)(%binschema::schema!(option(%mark(5))))));
    form("g_1 6: seq(3)(option(%mark(5)))", binschema::schema!(seq(3)(option(%mark(5)))));
    form("g_1 7: seq(3)(option(option(%mark(5))))", binschema::schema!(seq(3)(option(option(%mark(5))))));
    form("g_1 8: seq(3)(seq(varlen)(%mark(5)))", binschema::schema!(seq(3)(seq(varlen)(%mark(5)))));
    form("g_1 9: seq(3)(seq(3)(%mark(5)))", binschema::schema!(seq(3)(seq(3)(%mark(5)))));
    form("g_1 10: seq(3)(seq(2 * LEN)(%mark(5)))", binschema::schema!(seq(3)(seq(2 * LEN)(%mark(5)))));
    form("g_1 11: seq(3)(tuple { (%mark(5)) })", binschema::schema!(seq(3)(tuple { (%mark(5)) })));
    form("g_1 12: seq(3)(tuple { (%mark(5)), })", binschema::schema!(seq(3)(tuple { (%mark(5)), })));
    form("g_1 13: seq(3)(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })", binschema::schema!(seq(3)(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })));
    form("g_1 14: seq(3)(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })", binschema::schema!(seq(3)(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })));
    form("g_1 15: seq(3)(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })", binschema::schema!(seq(3)(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })));
    form("g_1 16: seq(3)(struct { (name: %mark(5)) })", binschema::schema!(seq(3)(struct { (name: %mark(5)) })));
    form("g_1 17: seq(3)(struct { (name: %mark(5)), })", binschema::schema!(seq(3)(struct { (name: %mark(5)), })));
    form("g_1 18: seq(3)(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })", binschema::schema!(seq(3)(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })));
    form("g_1 19: seq(3)(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })", binschema::schema!(seq(3)(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })));
    form("g_1 20: seq(3)(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })", binschema::schema!(seq(3)(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })));
    form("g_1 21: seq(3)(enum { Name(%mark(5)) })", binschema::schema!(seq(3)(enum { Name(%mark(5)) })));
    form("g_1 22: seq(3)(enum { Name(%mark(5)), })", binschema::schema!(seq(3)(enum { Name(%mark(5)), })));
    form("g_1 23: seq(3)(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })", binschema::schema!(seq(3)(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })));
    form("g_1 24: seq(3)(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })", binschema::schema!(seq(3)(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })));
    form("g_1 25: seq(3)(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })", binschema::schema!(seq(3)(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })));
    form("g_1 26: seq(3)(%binschema::schema!(%mark(5)))", binschema::schema!(seq(3)(%binschema::schema!(%mark(5)))));
    form("g_1 27: seq(3)(%binschema::schema!(option(%mark(5))))", binschema::schema!(seq(3)(%binschema::schema!(option(%mark(5))))));
    form("g_1 28: seq(2 * LEN)(option(%mark(5)))", binschema::schema!(seq(2 * LEN)(option(%mark(5)))));
    form("g_1 29: seq(2 * LEN)(option(option(%mark(5))))", binschema::schema!(seq(2 * LEN)(option(option(%mark(5))))));
    form("g_1 30: seq(2 * LEN)(seq(varlen)(%mark(5)))", binschema::schema!(seq(2 * LEN)(seq(varlen)(%mark(5)))));
    form("g_1 31: seq(2 * LEN)(seq(3)(%mark(5)))", binschema::schema!(seq(2 * LEN)(seq(3)(%mark(5)))));
    form("g_1 32: seq(2 * LEN)(seq(2 * LEN)(%mark(5)))", binschema::schema!(seq(2 * LEN)(seq(2 * LEN)(%mark(5)))));
    form("g_1 33: seq(2 * LEN)(tuple { (%mark(5)) })", binschema::schema!(seq(2 * LEN)(tuple { (%mark(5)) })));
    form("g_1 34: seq(2 * LEN)(tuple { (%mark(5)), })", binschema::schema!(seq(2 * LEN)(tuple { (%mark(5)), })));
    form("g_1 35: seq(2 * LEN)(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })", binschema::schema!(seq(2 * LEN)(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })));
    form("g_1 36: seq(2 * LEN)(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })", binschema::schema!(seq(2 * LEN)(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })));
    form("g_1 37: seq(2 * LEN)(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })", binschema::schema!(seq(2 * LEN)(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })));
    form("g_1 38: seq(2 * LEN)(struct { (name: %mark(5)) })", binschema::schema!(seq(2 * LEN)(struct { (name: %mark(5)) })));
    form("g_1 39: seq(2 * LEN)(struct { (name: %mark(5)), })", binschema::schema!(seq(2 * LEN)(struct { (name: %mark(5)), })));
    form("g_1 40: seq(2 * LEN)(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })", binschema::schema!(seq(2 * LEN)(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })));
    form("g_1 41: seq(2 * LEN)(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })", binschema::schema!(seq(2 * LEN)(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })));
    form("g_1 42: seq(2 * LEN)(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })", binschema::schema!(seq(2 * LEN)(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })));
    form("g_1 43: seq(2 * LEN)(enum { Name(%mark(5)) })", binschema::schema!(seq(2 * LEN)(enum { Name(%mark(5)) })));
    form("g_1 44: seq(2 * LEN)(enum { Name(%mark(5)), })", binschema::schema!(seq(2 * LEN)(enum { Name(%mark(5)), })));
    form("g_1 45: seq(2 * LEN)(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })", binschema::schema!(seq(2 * LEN)(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })));
    form("g_1 46: seq(2 * LEN)(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })", binschema::schema!(seq(2 * LEN)(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })));
    form("g_1 47: seq(2 * LEN)(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })", binschema::schema!(seq(2 * LEN)(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })));
    form("g_1 48: seq(2 * LEN)(%binschema::schema!(%mark(5)))", binschema::schema!(seq(2 * LEN)(%binschema::schema!(%mark(5)))));
    form("g_1 49: seq(2 * LEN)(%binschema::schema!(option(%mark(5))))", binschema::schema!(seq(2 * LEN)(%binschema::schema!(option(%mark(5))))));
    form("g_1 50: tuple { (option(%mark(5))) }", binschema::schema!(tuple { (option(%mark(5))) }));
    form("g_1 51: tuple { (option(option(%mark(5)))) }", binschema::schema!(tuple { (option(option(%mark(5)))) }));
    form("g_1 52: tuple { (seq(varlen)(%mark(5))) }", binschema::schema!(tuple { (seq(varlen)(%mark(5))) }));
    form("g_1 53: tuple { (seq(3)(%mark(5))) }", binschema::schema!(tuple { (seq(3)(%mark(5))) }));
    form("g_1 54: tuple { (seq(2 * LEN)(%mark(5))) }", binschema::schema!(tuple { (seq(2 * LEN)(%mark(5))) }));
    form("g_1 55: tuple { (tuple { (%mark(5)) }) }", binschema::schema!(tuple { (tuple { (%mark(5)) }) }));
    form("g_1 56: tuple { (tuple { (%mark(5)), }) }", binschema::schema!(tuple { (tuple { (%mark(5)), }) }));
    form("g_1 57: tuple { (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }", binschema::schema!(tuple { (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }));
    form("g_1 58: tuple { (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }", binschema::schema!(tuple { (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }));
    form("g_1 59: tuple { (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }", binschema::schema!(tuple { (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }));
}

pub fn g_2() {
    form("g_2 0: tuple { (struct { (name: %mark(5)) }) }", binschema::schema!(tuple { (struct { (name: %mark(5)) }) }));
    form("g_2 1: tuple { (struct { (name: %mark(5)), }) }", binschema::schema!(tuple { (struct { (name: %mark(5)), }) }));
    form("g_2 2: tuple { (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }", binschema::schema!(tuple { (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }));
    form("g_2 3: tuple { (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }", binschema::schema!(tuple { (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }));
    form("g_2 4: tuple { (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }", binschema::schema!(tuple { (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }));
    form("g_2 5: tuple { (enum { Name(%mark(5)) }) }", binschema::schema!(tuple { (enum { Name(%mark(5)) }) }));
    form("g_2 6: tuple { (enum { Name(%mark(5)), }) }", binschema::schema!(tuple { (enum { Name(%mark(5)), }) }));
    form("g_2 7: tuple { (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }", binschema::schema!(tuple { (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }));
    form("g_2 8: tuple { (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }", binschema::schema!(tuple { (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }));
    form("g_2 9: tuple { (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }", binschema::schema!(tuple { (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }));
    form("g_2 10: tuple { (%binschema::schema!(%mark(5))) }", binschema::schema!(tuple { (%binschema::schema!(%mark(5))) }));
    form("g_2 11: tuple { (%binschema::schema!(option(%mark(5)))) }", binschema::schema!(tuple { (%binschema::schema!(option(%mark(5)))) }));
    form("g_2 12: tuple { (option(%mark(5))), }", binschema::schema!(tuple { (option(%mark(5))), }));
    form("g_2 13: tuple { (option(option(%mark(5)))), }", binschema::schema!(tuple { (option(option(%mark(5)))), }));
    form("g_2 14: tuple { (seq(varlen)(%mark(5))), }", binschema::schema!(tuple { (seq(varlen)(%mark(5))), }));
    form("g_2 15: tuple { (seq(3)(%mark(5))), }", binschema::schema!(tuple { (seq(3)(%mark(5))), }));
    form("g_2 16: tuple { (seq(2 * LEN)(%mark(5))), }", binschema::schema!(tuple { (seq(2 * LEN)(%mark(5))), }));
    form("g_2 17: tuple { (tuple { (%mark(5)) }), }", binschema::schema!(tuple { (tuple { (%mark(5)) }), }));
    form("g_2 18: tuple { (tuple { (%mark(5)), }), }", binschema::schema!(tuple { (tuple { (%mark(5)), }), }));
    form("g_2 19: tuple { (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), }", binschema::schema!(tuple { (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), }));
    form("g_2 20: tuple { (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), }", binschema::schema!(tuple { (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), }));
    form("g_2 21: tuple { (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), }", binschema::schema!(tuple { (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), }));
    form("g_2 22: tuple { (struct { (name: %mark(5)) }), }", binschema::schema!(tuple { (struct { (name: %mark(5)) }), }));
    form("g_2 23: tuple { (struct { (name: %mark(5)), }), }", binschema::schema!(tuple { (struct { (name: %mark(5)), }), }));
    form("g_2 24: tuple { (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), }", binschema::schema!(tuple { (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), }));
    form("g_2 25: tuple { (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), }", binschema::schema!(tuple { (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), }));
    form("g_2 26: tuple { (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), }", binschema::schema!(tuple { (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), }));
    form("g_2 27: tuple { (enum { Name(%mark(5)) }), }", binschema::schema!(tuple { (enum { Name(%mark(5)) }), }));
    form("g_2 28: tuple { (enum { Name(%mark(5)), }), }", binschema::schema!(tuple { (enum { Name(%mark(5)), }), }));
    form("g_2 29: tuple { (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), }", binschema::schema!(tuple { (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), }));
    form("g_2 30: tuple { (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), }", binschema::schema!(tuple { (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), }));
    form("g_2 31: tuple { (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), }", binschema::schema!(tuple { (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), }));
    form("g_2 32: tuple { (%binschema::schema!(%mark(5))), }", binschema::schema!(tuple { (%binschema::schema!(%mark(5))), }));
    form("g_2 33: tuple { (%binschema::schema!(option(%mark(5)))), }", binschema::schema!(tuple { (%binschema::schema!(option(%mark(5)))), }));
    form("g_2 34: tuple { (option(%mark(5))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (option(%mark(5))), (%mark(8)), (%mark(9)) }));
    form("g_2 35: tuple { (option(option(%mark(5)))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (option(option(%mark(5)))), (%mark(8)), (%mark(9)) }));
    form("g_2 36: tuple { (seq(varlen)(%mark(5))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (seq(varlen)(%mark(5))), (%mark(8)), (%mark(9)) }));
    form("g_2 37: tuple { (seq(3)(%mark(5))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (seq(3)(%mark(5))), (%mark(8)), (%mark(9)) }));
    form("g_2 38: tuple { (seq(2 * LEN)(%mark(5))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (seq(2 * LEN)(%mark(5))), (%mark(8)), (%mark(9)) }));
    form("g_2 39: tuple { (tuple { (%mark(5)) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple { (%mark(5)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 40: tuple { (tuple { (%mark(5)), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple { (%mark(5)), }), (%mark(8)), (%mark(9)) }));
    form("g_2 41: tuple { (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 42: tuple { (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (%mark(8)), (%mark(9)) }));
    form("g_2 43: tuple { (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 44: tuple { (struct { (name: %mark(5)) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (struct { (name: %mark(5)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 45: tuple { (struct { (name: %mark(5)), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (struct { (name: %mark(5)), }), (%mark(8)), (%mark(9)) }));
    form("g_2 46: tuple { (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (%mark(8)), (%mark(9)...", binschema::schema!(tuple { (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 47: tuple { (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (%mark(8)), (%mark(9...", binschema::schema!(tuple { (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (%mark(8)), (%mark(9)) }));
    form("g_2 48: tuple { (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (%mark(8)), (%mark(9)...", binschema::schema!(tuple { (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 49: tuple { (enum { Name(%mark(5)) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum { Name(%mark(5)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 50: tuple { (enum { Name(%mark(5)), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum { Name(%mark(5)), }), (%mark(8)), (%mark(9)) }));
    form("g_2 51: tuple { (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 52: tuple { (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (%mark(8)), (%mark(9)) }));
    form("g_2 53: tuple { (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (%mark(8)), (%mark(9)) }));
    form("g_2 54: tuple { (%binschema::schema!(%mark(5))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (%binschema::schema!(%mark(5))), (%mark(8)), (%mark(9)) }));
    form("g_2 55: tuple { (%binschema::schema!(option(%mark(5)))), (%mark(8)), (%mark(9)) }", binschema::schema!(tuple { (%binschema::schema!(option(%mark(5)))), (%mark(8)), (%mark(9)) }));
    form("g_2 56: tuple { (%mark(7)), (option(%mark(5))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (option(%mark(5))), (%mark(9)), }));
    form("g_2 57: tuple { (%mark(7)), (option(option(%mark(5)))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (option(option(%mark(5)))), (%mark(9)), }));
    form("g_2 58: tuple { (%mark(7)), (seq(varlen)(%mark(5))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (seq(varlen)(%mark(5))), (%mark(9)), }));
    form("g_2 59: tuple { (%mark(7)), (seq(3)(%mark(5))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (seq(3)(%mark(5))), (%mark(9)), }));
}

pub fn g_3() {
    form("g_3 0: tuple { (%mark(7)), (seq(2 * LEN)(%mark(5))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (seq(2 * LEN)(%mark(5))), (%mark(9)), }));
    form("g_3 1: tuple { (%mark(7)), (tuple { (%mark(5)) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple { (%mark(5)) }), (%mark(9)), }));
    form("g_3 2: tuple { (%mark(7)), (tuple { (%mark(5)), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple { (%mark(5)), }), (%mark(9)), }));
    form("g_3 3: tuple { (%mark(7)), (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (%mark(9)), }));
    form("g_3 4: tuple { (%mark(7)), (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (%mark(9)), }));
    form("g_3 5: tuple { (%mark(7)), (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (%mark(9)), }));
    form("g_3 6: tuple { (%mark(7)), (struct { (name: %mark(5)) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (struct { (name: %mark(5)) }), (%mark(9)), }));
    form("g_3 7: tuple { (%mark(7)), (struct { (name: %mark(5)), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (struct { (name: %mark(5)), }), (%mark(9)), }));
    form("g_3 8: tuple { (%mark(7)), (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (%mark(9)...", binschema::schema!(tuple { (%mark(7)), (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (%mark(9)), }));
    form("g_3 9: tuple { (%mark(7)), (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (%mark(9...", binschema::schema!(tuple { (%mark(7)), (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (%mark(9)), }));
    form("g_3 10: tuple { (%mark(7)), (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (%mark(9)...", binschema::schema!(tuple { (%mark(7)), (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (%mark(9)), }));
    form("g_3 11: tuple { (%mark(7)), (enum { Name(%mark(5)) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum { Name(%mark(5)) }), (%mark(9)), }));
    form("g_3 12: tuple { (%mark(7)), (enum { Name(%mark(5)), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum { Name(%mark(5)), }), (%mark(9)), }));
    form("g_3 13: tuple { (%mark(7)), (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (%mark(9)), }));
    form("g_3 14: tuple { (%mark(7)), (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (%mark(9)), }));
    form("g_3 15: tuple { (%mark(7)), (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (%mark(9)), }));
    form("g_3 16: tuple { (%mark(7)), (%binschema::schema!(%mark(5))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (%binschema::schema!(%mark(5))), (%mark(9)), }));
    form("g_3 17: tuple { (%mark(7)), (%binschema::schema!(option(%mark(5)))), (%mark(9)), }", binschema::schema!(tuple { (%mark(7)), (%binschema::schema!(option(%mark(5)))), (%mark(9)), }));
    form("g_3 18: tuple { (%mark(7)), (%mark(8)), (option(%mark(5))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (option(%mark(5))) }));
    form("g_3 19: tuple { (%mark(7)), (%mark(8)), (option(option(%mark(5)))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (option(option(%mark(5)))) }));
    form("g_3 20: tuple { (%mark(7)), (%mark(8)), (seq(varlen)(%mark(5))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (seq(varlen)(%mark(5))) }));
    form("g_3 21: tuple { (%mark(7)), (%mark(8)), (seq(3)(%mark(5))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (seq(3)(%mark(5))) }));
    form("g_3 22: tuple { (%mark(7)), (%mark(8)), (seq(2 * LEN)(%mark(5))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (seq(2 * LEN)(%mark(5))) }));
    form("g_3 23: tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(5)) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(5)) }) }));
    form("g_3 24: tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(5)), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(5)), }) }));
    form("g_3 25: tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }));
    form("g_3 26: tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }));
    form("g_3 27: tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }));
    form("g_3 28: tuple { (%mark(7)), (%mark(8)), (struct { (name: %mark(5)) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct { (name: %mark(5)) }) }));
    form("g_3 29: tuple { (%mark(7)), (%mark(8)), (struct { (name: %mark(5)), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct { (name: %mark(5)), }) }));
    form("g_3 30: tuple { (%mark(7)), (%mark(8)), (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }...", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }));
    form("g_3 31: tuple { (%mark(7)), (%mark(8)), (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), ...", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }));
    form("g_3 32: tuple { (%mark(7)), (%mark(8)), (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }...", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }));
    form("g_3 33: tuple { (%mark(7)), (%mark(8)), (enum { Name(%mark(5)) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum { Name(%mark(5)) }) }));
    form("g_3 34: tuple { (%mark(7)), (%mark(8)), (enum { Name(%mark(5)), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum { Name(%mark(5)), }) }));
    form("g_3 35: tuple { (%mark(7)), (%mark(8)), (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }));
    form("g_3 36: tuple { (%mark(7)), (%mark(8)), (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }));
    form("g_3 37: tuple { (%mark(7)), (%mark(8)), (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }));
    form("g_3 38: tuple { (%mark(7)), (%mark(8)), (%binschema::schema!(%mark(5))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (%binschema::schema!(%mark(5))) }));
    form("g_3 39: tuple { (%mark(7)), (%mark(8)), (%binschema::schema!(option(%mark(5)))) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (%binschema::schema!(option(%mark(5)))) }));
    form("g_3 40: struct { (name: option(%mark(5))) }", binschema::schema!(struct { (name: option(%mark(5))) }));
    form("g_3 41: struct { (name: option(option(%mark(5)))) }", binschema::schema!(struct { (name: option(option(%mark(5)))) }));
    form("g_3 42: struct { (name: seq(varlen)(%mark(5))) }", binschema::schema!(struct { (name: seq(varlen)(%mark(5))) }));
    form("g_3 43: struct { (name: seq(3)(%mark(5))) }", binschema::schema!(struct { (name: seq(3)(%mark(5))) }));
    form("g_3 44: struct { (name: seq(2 * LEN)(%mark(5))) }", binschema::schema!(struct { (name: seq(2 * LEN)(%mark(5))) }));
    form("g_3 45: struct { (name: tuple { (%mark(5)) }) }", binschema::schema!(struct { (name: tuple { (%mark(5)) }) }));
    form("g_3 46: struct { (name: tuple { (%mark(5)), }) }", binschema::schema!(struct { (name: tuple { (%mark(5)), }) }));
    form("g_3 47: struct { (name: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }", binschema::schema!(struct { (name: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }));
    form("g_3 48: struct { (name: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }", binschema::schema!(struct { (name: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }));
    form("g_3 49: struct { (name: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }", binschema::schema!(struct { (name: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }));
    form("g_3 50: struct { (name: struct { (name: %mark(5)) }) }", binschema::schema!(struct { (name: struct { (name: %mark(5)) }) }));
    form("g_3 51: struct { (name: struct { (name: %mark(5)), }) }", binschema::schema!(struct { (name: struct { (name: %mark(5)), }) }));
    form("g_3 52: struct { (name: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }", binschema::schema!(struct { (name: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }));
    form("g_3 53: struct { (name: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }", binschema::schema!(struct { (name: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }));
    form("g_3 54: struct { (name: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }", binschema::schema!(struct { (name: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }));
    form("g_3 55: struct { (name: enum { Name(%mark(5)) }) }", binschema::schema!(struct { (name: enum { Name(%mark(5)) }) }));
    form("g_3 56: struct { (name: enum { Name(%mark(5)), }) }", binschema::schema!(struct { (name: enum { Name(%mark(5)), }) }));
    form("g_3 57: struct { (name: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }", binschema::schema!(struct { (name: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }));
    form("g_3 58: struct { (name: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }", binschema::schema!(struct { (name: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }));
    form("g_3 59: struct { (name: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }", binschema::schema!(struct { (name: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }));
}

pub fn g_4() {
    form("g_4 0: struct { (name: %binschema::schema!(%mark(5))) }", binschema::schema!(struct { (name: %binschema::schema!(%mark(5))) }));
    form("g_4 1: struct { (name: %binschema::schema!(option(%mark(5)))) }", binschema::schema!(struct { (name: %binschema::schema!(option(%mark(5)))) }));
    form("g_4 2: struct { (name: option(%mark(5))), }", binschema::schema!(struct { (name: option(%mark(5))), }));
    form("g_4 3: struct { (name: option(option(%mark(5)))), }", binschema::schema!(struct { (name: option(option(%mark(5)))), }));
    form("g_4 4: struct { (name: seq(varlen)(%mark(5))), }", binschema::schema!(struct { (name: seq(varlen)(%mark(5))), }));
    form("g_4 5: struct { (name: seq(3)(%mark(5))), }", binschema::schema!(struct { (name: seq(3)(%mark(5))), }));
    form("g_4 6: struct { (name: seq(2 * LEN)(%mark(5))), }", binschema::schema!(struct { (name: seq(2 * LEN)(%mark(5))), }));
    form("g_4 7: struct { (name: tuple { (%mark(5)) }), }", binschema::schema!(struct { (name: tuple { (%mark(5)) }), }));
    form("g_4 8: struct { (name: tuple { (%mark(5)), }), }", binschema::schema!(struct { (name: tuple { (%mark(5)), }), }));
    form("g_4 9: struct { (name: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), }", binschema::schema!(struct { (name: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), }));
    form("g_4 10: struct { (name: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), }", binschema::schema!(struct { (name: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), }));
    form("g_4 11: struct { (name: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), }", binschema::schema!(struct { (name: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), }));
    form("g_4 12: struct { (name: struct { (name: %mark(5)) }), }", binschema::schema!(struct { (name: struct { (name: %mark(5)) }), }));
    form("g_4 13: struct { (name: struct { (name: %mark(5)), }), }", binschema::schema!(struct { (name: struct { (name: %mark(5)), }), }));
    form("g_4 14: struct { (name: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), }", binschema::schema!(struct { (name: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), }));
    form("g_4 15: struct { (name: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), }", binschema::schema!(struct { (name: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), }));
    form("g_4 16: struct { (name: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), }", binschema::schema!(struct { (name: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), }));
    form("g_4 17: struct { (name: enum { Name(%mark(5)) }), }", binschema::schema!(struct { (name: enum { Name(%mark(5)) }), }));
    form("g_4 18: struct { (name: enum { Name(%mark(5)), }), }", binschema::schema!(struct { (name: enum { Name(%mark(5)), }), }));
    form("g_4 19: struct { (name: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), }", binschema::schema!(struct { (name: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), }));
    form("g_4 20: struct { (name: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), }", binschema::schema!(struct { (name: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), }));
    form("g_4 21: struct { (name: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), }", binschema::schema!(struct { (name: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), }));
    form("g_4 22: struct { (name: %binschema::schema!(%mark(5))), }", binschema::schema!(struct { (name: %binschema::schema!(%mark(5))), }));
    form("g_4 23: struct { (name: %binschema::schema!(option(%mark(5)))), }", binschema::schema!(struct { (name: %binschema::schema!(option(%mark(5)))), }));
    form("g_4 24: struct { (x: option(%mark(5))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: option(%mark(5))), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 25: struct { (x: option(option(%mark(5)))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: option(option(%mark(5)))), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 26: struct { (x: seq(varlen)(%mark(5))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: seq(varlen)(%mark(5))), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 27: struct { (x: seq(3)(%mark(5))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: seq(3)(%mark(5))), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 28: struct { (x: seq(2 * LEN)(%mark(5))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: seq(2 * LEN)(%mark(5))), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 29: struct { (x: tuple { (%mark(5)) }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: tuple { (%mark(5)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 30: struct { (x: tuple { (%mark(5)), }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: tuple { (%mark(5)), }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 31: struct { (x: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (y: %mark(8)), (z: %mark(9)...", binschema::schema!(struct { (x: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 32: struct { (x: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (y: %mark(8)), (z: %mark(9...", binschema::schema!(struct { (x: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 33: struct { (x: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (y: %mark(8)), (z: %mark(9)...", binschema::schema!(struct { (x: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 34: struct { (x: struct { (name: %mark(5)) }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: struct { (name: %mark(5)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 35: struct { (x: struct { (name: %mark(5)), }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: struct { (name: %mark(5)), }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 36: struct { (x: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (y: %mark(8)), (z...", binschema::schema!(struct { (x: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 37: struct { (x: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (y: %mark(8)), (...", binschema::schema!(struct { (x: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 38: struct { (x: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (y: %mark(8)), (z...", binschema::schema!(struct { (x: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 39: struct { (x: enum { Name(%mark(5)) }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: enum { Name(%mark(5)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 40: struct { (x: enum { Name(%mark(5)), }), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: enum { Name(%mark(5)), }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 41: struct { (x: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (y: %mark(8)), (z: %mark(...", binschema::schema!(struct { (x: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 42: struct { (x: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (y: %mark(8)), (z: %mark...", binschema::schema!(struct { (x: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 43: struct { (x: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (y: %mark(8)), (z: %mark(...", binschema::schema!(struct { (x: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 44: struct { (x: %binschema::schema!(%mark(5))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: %binschema::schema!(%mark(5))), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 45: struct { (x: %binschema::schema!(option(%mark(5)))), (y: %mark(8)), (z: %mark(9)) }", binschema::schema!(struct { (x: %binschema::schema!(option(%mark(5)))), (y: %mark(8)), (z: %mark(9)) }));
    form("g_4 46: struct { (z: %mark(7)), (y: option(%mark(5))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: option(%mark(5))), (x: %mark(9)), }));
    form("g_4 47: struct { (z: %mark(7)), (y: option(option(%mark(5)))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: option(option(%mark(5)))), (x: %mark(9)), }));
    form("g_4 48: struct { (z: %mark(7)), (y: seq(varlen)(%mark(5))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: seq(varlen)(%mark(5))), (x: %mark(9)), }));
    form("g_4 49: struct { (z: %mark(7)), (y: seq(3)(%mark(5))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: seq(3)(%mark(5))), (x: %mark(9)), }));
    form("g_4 50: struct { (z: %mark(7)), (y: seq(2 * LEN)(%mark(5))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: seq(2 * LEN)(%mark(5))), (x: %mark(9)), }));
    form("g_4 51: struct { (z: %mark(7)), (y: tuple { (%mark(5)) }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%mark(5)) }), (x: %mark(9)), }));
    form("g_4 52: struct { (z: %mark(7)), (y: tuple { (%mark(5)), }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%mark(5)), }), (x: %mark(9)), }));
    form("g_4 53: struct { (z: %mark(7)), (y: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (x: %mark(9)...", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), (x: %mark(9)), }));
    form("g_4 54: struct { (z: %mark(7)), (y: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (x: %mark(9...", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), (x: %mark(9)), }));
    form("g_4 55: struct { (z: %mark(7)), (y: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (x: %mark(9)...", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), (x: %mark(9)), }));
    form("g_4 56: struct { (z: %mark(7)), (y: struct { (name: %mark(5)) }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: struct { (name: %mark(5)) }), (x: %mark(9)), }));
    form("g_4 57: struct { (z: %mark(7)), (y: struct { (name: %mark(5)), }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: struct { (name: %mark(5)), }), (x: %mark(9)), }));
    form("g_4 58: struct { (z: %mark(7)), (y: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (x...", binschema::schema!(struct { (z: %mark(7)), (y: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), (x: %mark(9)), }));
    form("g_4 59: struct { (z: %mark(7)), (y: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (...", binschema::schema!(struct { (z: %mark(7)), (y: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), (x: %mark(9)), }));
}

pub fn g_5() {
    form("g_5 0: struct { (z: %mark(7)), (y: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (x...", binschema::schema!(struct { (z: %mark(7)), (y: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), (x: %mark(9)), }));
    form("g_5 1: struct { (z: %mark(7)), (y: enum { Name(%mark(5)) }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: enum { Name(%mark(5)) }), (x: %mark(9)), }));
    form("g_5 2: struct { (z: %mark(7)), (y: enum { Name(%mark(5)), }), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: enum { Name(%mark(5)), }), (x: %mark(9)), }));
    form("g_5 3: struct { (z: %mark(7)), (y: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (x: %mark(...", binschema::schema!(struct { (z: %mark(7)), (y: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), (x: %mark(9)), }));
    form("g_5 4: struct { (z: %mark(7)), (y: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (x: %mark...", binschema::schema!(struct { (z: %mark(7)), (y: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), (x: %mark(9)), }));
    form("g_5 5: struct { (z: %mark(7)), (y: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (x: %mark(...", binschema::schema!(struct { (z: %mark(7)), (y: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), (x: %mark(9)), }));
    form("g_5 6: struct { (z: %mark(7)), (y: %binschema::schema!(%mark(5))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: %binschema::schema!(%mark(5))), (x: %mark(9)), }));
    form("g_5 7: struct { (z: %mark(7)), (y: %binschema::schema!(option(%mark(5)))), (x: %mark(9)), }", binschema::schema!(struct { (z: %mark(7)), (y: %binschema::schema!(option(%mark(5)))), (x: %mark(9)), }));
    form("g_5 8: struct { (b: %mark(7)), (a: %mark(8)), (c: option(%mark(5))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: option(%mark(5))) }));
    form("g_5 9: struct { (b: %mark(7)), (a: %mark(8)), (c: option(option(%mark(5)))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: option(option(%mark(5)))) }));
    form("g_5 10: struct { (b: %mark(7)), (a: %mark(8)), (c: seq(varlen)(%mark(5))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: seq(varlen)(%mark(5))) }));
    form("g_5 11: struct { (b: %mark(7)), (a: %mark(8)), (c: seq(3)(%mark(5))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: seq(3)(%mark(5))) }));
    form("g_5 12: struct { (b: %mark(7)), (a: %mark(8)), (c: seq(2 * LEN)(%mark(5))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: seq(2 * LEN)(%mark(5))) }));
    form("g_5 13: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(5)) }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(5)) }) }));
    form("g_5 14: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(5)), }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(5)), }) }));
    form("g_5 15: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }));
    form("g_5 16: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(7)), (%mark(5)), (%mark(9)), ...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }));
    form("g_5 17: struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }));
    form("g_5 18: struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (name: %mark(5)) }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (name: %mark(5)) }) }));
    form("g_5 19: struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (name: %mark(5)), }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (name: %mark(5)), }) }));
    form("g_5 20: struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (x: %mark(5)), (y: %mark(8)), (z: %...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }));
    form("g_5 21: struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (z: %mark(7)), (y: %mark(5)), (x: %...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }));
    form("g_5 22: struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (b: %mark(7)), (a: %mark(8)), (c: %...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }));
    form("g_5 23: struct { (b: %mark(7)), (a: %mark(8)), (c: enum { Name(%mark(5)) }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum { Name(%mark(5)) }) }));
    form("g_5 24: struct { (b: %mark(7)), (a: %mark(8)), (c: enum { Name(%mark(5)), }) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum { Name(%mark(5)), }) }));
    form("g_5 25: struct { (b: %mark(7)), (a: %mark(8)), (c: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9))...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }));
    form("g_5 26: struct { (b: %mark(7)), (a: %mark(8)), (c: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9))...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }));
    form("g_5 27: struct { (b: %mark(7)), (a: %mark(8)), (c: enum { B(%mark(7)), A(%mark(8)), C(%mark(5))...", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }));
    form("g_5 28: struct { (b: %mark(7)), (a: %mark(8)), (c: %binschema::schema!(%mark(5))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: %binschema::schema!(%mark(5))) }));
    form("g_5 29: struct { (b: %mark(7)), (a: %mark(8)), (c: %binschema::schema!(option(%mark(5)))) }", binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: %binschema::schema!(option(%mark(5)))) }));
    form("g_5 30: enum { Name(option(%mark(5))) }", binschema::schema!(enum { Name(option(%mark(5))) }));
    form("g_5 31: enum { Name(option(option(%mark(5)))) }", binschema::schema!(enum { Name(option(option(%mark(5)))) }));
    form("g_5 32: enum { Name(seq(varlen)(%mark(5))) }", binschema::schema!(enum { Name(seq(varlen)(%mark(5))) }));
    form("g_5 33: enum { Name(seq(3)(%mark(5))) }", binschema::schema!(enum { Name(seq(3)(%mark(5))) }));
    form("g_5 34: enum { Name(seq(2 * LEN)(%mark(5))) }", binschema::schema!(enum { Name(seq(2 * LEN)(%mark(5))) }));
    form("g_5 35: enum { Name(tuple { (%mark(5)) }) }", binschema::schema!(enum { Name(tuple { (%mark(5)) }) }));
    form("g_5 36: enum { Name(tuple { (%mark(5)), }) }", binschema::schema!(enum { Name(tuple { (%mark(5)), }) }));
    form("g_5 37: enum { Name(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }", binschema::schema!(enum { Name(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }));
    form("g_5 38: enum { Name(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }", binschema::schema!(enum { Name(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }));
    form("g_5 39: enum { Name(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }", binschema::schema!(enum { Name(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }));
    form("g_5 40: enum { Name(struct { (name: %mark(5)) }) }", binschema::schema!(enum { Name(struct { (name: %mark(5)) }) }));
    form("g_5 41: enum { Name(struct { (name: %mark(5)), }) }", binschema::schema!(enum { Name(struct { (name: %mark(5)), }) }));
    form("g_5 42: enum { Name(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }", binschema::schema!(enum { Name(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }));
    form("g_5 43: enum { Name(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }", binschema::schema!(enum { Name(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }));
    form("g_5 44: enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }", binschema::schema!(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }));
    form("g_5 45: enum { Name(enum { Name(%mark(5)) }) }", binschema::schema!(enum { Name(enum { Name(%mark(5)) }) }));
    form("g_5 46: enum { Name(enum { Name(%mark(5)), }) }", binschema::schema!(enum { Name(enum { Name(%mark(5)), }) }));
    form("g_5 47: enum { Name(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }", binschema::schema!(enum { Name(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }));
    form("g_5 48: enum { Name(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }", binschema::schema!(enum { Name(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }));
    form("g_5 49: enum { Name(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }", binschema::schema!(enum { Name(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }));
    form("g_5 50: enum { Name(%binschema::schema!(%mark(5))) }", binschema::schema!(enum { Name(%binschema::schema!(%mark(5))) }));
    form("g_5 51: enum { Name(%binschema::schema!(option(%mark(5)))) }", binschema::schema!(enum { Name(%binschema::schema!(option(%mark(5)))) }));
    form("g_5 52: enum { Name(option(%mark(5))), }", binschema::schema!(enum { Name(option(%mark(5))), }));
    form("g_5 53: enum { Name(option(option(%mark(5)))), }", binschema::schema!(enum { Name(option(option(%mark(5)))), }));
    form("g_5 54: enum { Name(seq(varlen)(%mark(5))), }", binschema::schema!(enum { Name(seq(varlen)(%mark(5))), }));
    form("g_5 55: enum { Name(seq(3)(%mark(5))), }", binschema::schema!(enum { Name(seq(3)(%mark(5))), }));
    form("g_5 56: enum { Name(seq(2 * LEN)(%mark(5))), }", binschema::schema!(enum { Name(seq(2 * LEN)(%mark(5))), }));
    form("g_5 57: enum { Name(tuple { (%mark(5)) }), }", binschema::schema!(enum { Name(tuple { (%mark(5)) }), }));
    form("g_5 58: enum { Name(tuple { (%mark(5)), }), }", binschema::schema!(enum { Name(tuple { (%mark(5)), }), }));
    form("g_5 59: enum { Name(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), }", binschema::schema!(enum { Name(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), }));
}

pub fn g_6() {
    form("g_6 0: enum { Name(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), }", binschema::schema!(enum { Name(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), }));
    form("g_6 1: enum { Name(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), }", binschema::schema!(enum { Name(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), }));
    form("g_6 2: enum { Name(struct { (name: %mark(5)) }), }", binschema::schema!(enum { Name(struct { (name: %mark(5)) }), }));
    form("g_6 3: enum { Name(struct { (name: %mark(5)), }), }", binschema::schema!(enum { Name(struct { (name: %mark(5)), }), }));
    form("g_6 4: enum { Name(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), }", binschema::schema!(enum { Name(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), }));
    form("g_6 5: enum { Name(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), }", binschema::schema!(enum { Name(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), }));
    form("g_6 6: enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), }", binschema::schema!(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), }));
    form("g_6 7: enum { Name(enum { Name(%mark(5)) }), }", binschema::schema!(enum { Name(enum { Name(%mark(5)) }), }));
    form("g_6 8: enum { Name(enum { Name(%mark(5)), }), }", binschema::schema!(enum { Name(enum { Name(%mark(5)), }), }));
    form("g_6 9: enum { Name(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), }", binschema::schema!(enum { Name(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), }));
    form("g_6 10: enum { Name(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), }", binschema::schema!(enum { Name(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), }));
    form("g_6 11: enum { Name(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), }", binschema::schema!(enum { Name(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), }));
    form("g_6 12: enum { Name(%binschema::schema!(%mark(5))), }", binschema::schema!(enum { Name(%binschema::schema!(%mark(5))), }));
    form("g_6 13: enum { Name(%binschema::schema!(option(%mark(5)))), }", binschema::schema!(enum { Name(%binschema::schema!(option(%mark(5)))), }));
    form("g_6 14: enum { X(option(%mark(5))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(option(%mark(5))), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 15: enum { X(option(option(%mark(5)))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(option(option(%mark(5)))), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 16: enum { X(seq(varlen)(%mark(5))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(seq(varlen)(%mark(5))), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 17: enum { X(seq(3)(%mark(5))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(seq(3)(%mark(5))), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 18: enum { X(seq(2 * LEN)(%mark(5))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(seq(2 * LEN)(%mark(5))), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 19: enum { X(tuple { (%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple { (%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 20: enum { X(tuple { (%mark(5)), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple { (%mark(5)), }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 21: enum { X(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 22: enum { X(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 23: enum { X(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 24: enum { X(struct { (name: %mark(5)) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(struct { (name: %mark(5)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 25: enum { X(struct { (name: %mark(5)), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(struct { (name: %mark(5)), }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 26: enum { X(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), Y(%mark(8)), Z(%mark(...", binschema::schema!(enum { X(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 27: enum { X(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), Y(%mark(8)), Z(%mark...", binschema::schema!(enum { X(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 28: enum { X(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), Y(%mark(8)), Z(%mark(...", binschema::schema!(enum { X(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 29: enum { X(enum { Name(%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum { Name(%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 30: enum { X(enum { Name(%mark(5)), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum { Name(%mark(5)), }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 31: enum { X(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 32: enum { X(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 33: enum { X(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 34: enum { X(%binschema::schema!(%mark(5))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(%binschema::schema!(%mark(5))), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 35: enum { X(%binschema::schema!(option(%mark(5)))), Y(%mark(8)), Z(%mark(9)) }", binschema::schema!(enum { X(%binschema::schema!(option(%mark(5)))), Y(%mark(8)), Z(%mark(9)) }));
    form("g_6 36: enum { Z(%mark(7)), Y(option(%mark(5))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(option(%mark(5))), X(%mark(9)), }));
    form("g_6 37: enum { Z(%mark(7)), Y(option(option(%mark(5)))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(option(option(%mark(5)))), X(%mark(9)), }));
    form("g_6 38: enum { Z(%mark(7)), Y(seq(varlen)(%mark(5))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(seq(varlen)(%mark(5))), X(%mark(9)), }));
    form("g_6 39: enum { Z(%mark(7)), Y(seq(3)(%mark(5))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(seq(3)(%mark(5))), X(%mark(9)), }));
    form("g_6 40: enum { Z(%mark(7)), Y(seq(2 * LEN)(%mark(5))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(seq(2 * LEN)(%mark(5))), X(%mark(9)), }));
    form("g_6 41: enum { Z(%mark(7)), Y(tuple { (%mark(5)) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple { (%mark(5)) }), X(%mark(9)), }));
    form("g_6 42: enum { Z(%mark(7)), Y(tuple { (%mark(5)), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple { (%mark(5)), }), X(%mark(9)), }));
    form("g_6 43: enum { Z(%mark(7)), Y(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }), X(%mark(9)), }));
    form("g_6 44: enum { Z(%mark(7)), Y(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }), X(%mark(9)), }));
    form("g_6 45: enum { Z(%mark(7)), Y(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }), X(%mark(9)), }));
    form("g_6 46: enum { Z(%mark(7)), Y(struct { (name: %mark(5)) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(struct { (name: %mark(5)) }), X(%mark(9)), }));
    form("g_6 47: enum { Z(%mark(7)), Y(struct { (name: %mark(5)), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(struct { (name: %mark(5)), }), X(%mark(9)), }));
    form("g_6 48: enum { Z(%mark(7)), Y(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), X(%mark(...", binschema::schema!(enum { Z(%mark(7)), Y(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }), X(%mark(9)), }));
    form("g_6 49: enum { Z(%mark(7)), Y(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), X(%mark...", binschema::schema!(enum { Z(%mark(7)), Y(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }), X(%mark(9)), }));
    form("g_6 50: enum { Z(%mark(7)), Y(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), X(%mark(...", binschema::schema!(enum { Z(%mark(7)), Y(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }), X(%mark(9)), }));
    form("g_6 51: enum { Z(%mark(7)), Y(enum { Name(%mark(5)) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum { Name(%mark(5)) }), X(%mark(9)), }));
    form("g_6 52: enum { Z(%mark(7)), Y(enum { Name(%mark(5)), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum { Name(%mark(5)), }), X(%mark(9)), }));
    form("g_6 53: enum { Z(%mark(7)), Y(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }), X(%mark(9)), }));
    form("g_6 54: enum { Z(%mark(7)), Y(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }), X(%mark(9)), }));
    form("g_6 55: enum { Z(%mark(7)), Y(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }), X(%mark(9)), }));
    form("g_6 56: enum { Z(%mark(7)), Y(%binschema::schema!(%mark(5))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(%binschema::schema!(%mark(5))), X(%mark(9)), }));
    form("g_6 57: enum { Z(%mark(7)), Y(%binschema::schema!(option(%mark(5)))), X(%mark(9)), }", binschema::schema!(enum { Z(%mark(7)), Y(%binschema::schema!(option(%mark(5)))), X(%mark(9)), }));
    form("g_6 58: enum { B(%mark(7)), A(%mark(8)), C(option(%mark(5))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(option(%mark(5))) }));
    form("g_6 59: enum { B(%mark(7)), A(%mark(8)), C(option(option(%mark(5)))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(option(option(%mark(5)))) }));
}

pub fn g_7() {
    form("g_7 0: enum { B(%mark(7)), A(%mark(8)), C(seq(varlen)(%mark(5))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(seq(varlen)(%mark(5))) }));
    form("g_7 1: enum { B(%mark(7)), A(%mark(8)), C(seq(3)(%mark(5))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(seq(3)(%mark(5))) }));
    form("g_7 2: enum { B(%mark(7)), A(%mark(8)), C(seq(2 * LEN)(%mark(5))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(seq(2 * LEN)(%mark(5))) }));
    form("g_7 3: enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(5)) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(5)) }) }));
    form("g_7 4: enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(5)), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(5)), }) }));
    form("g_7 5: enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }) }));
    form("g_7 6: enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }) }));
    form("g_7 7: enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }) }));
    form("g_7 8: enum { B(%mark(7)), A(%mark(8)), C(struct { (name: %mark(5)) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (name: %mark(5)) }) }));
    form("g_7 9: enum { B(%mark(7)), A(%mark(8)), C(struct { (name: %mark(5)), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (name: %mark(5)), }) }));
    form("g_7 10: enum { B(%mark(7)), A(%mark(8)), C(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9))...", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }) }));
    form("g_7 11: enum { B(%mark(7)), A(%mark(8)), C(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9))...", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }) }));
    form("g_7 12: enum { B(%mark(7)), A(%mark(8)), C(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5))...", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }) }));
    form("g_7 13: enum { B(%mark(7)), A(%mark(8)), C(enum { Name(%mark(5)) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { Name(%mark(5)) }) }));
    form("g_7 14: enum { B(%mark(7)), A(%mark(8)), C(enum { Name(%mark(5)), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { Name(%mark(5)), }) }));
    form("g_7 15: enum { B(%mark(7)), A(%mark(8)), C(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }) }));
    form("g_7 16: enum { B(%mark(7)), A(%mark(8)), C(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }) }));
    form("g_7 17: enum { B(%mark(7)), A(%mark(8)), C(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }) }));
    form("g_7 18: enum { B(%mark(7)), A(%mark(8)), C(%binschema::schema!(%mark(5))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(%binschema::schema!(%mark(5))) }));
    form("g_7 19: enum { B(%mark(7)), A(%mark(8)), C(%binschema::schema!(option(%mark(5)))) }", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(%binschema::schema!(option(%mark(5)))) }));
    form("g_7 20: %binschema::schema!(option(%mark(5)))", binschema::schema!(%binschema::schema!(option(%mark(5)))));
    form("g_7 21: %binschema::schema!(option(option(%mark(5))))", binschema::schema!(%binschema::schema!(option(option(%mark(5))))));
    form("g_7 22: %binschema::schema!(seq(varlen)(%mark(5)))", binschema::schema!(%binschema::schema!(seq(varlen)(%mark(5)))));
    form("g_7 23: %binschema::schema!(seq(3)(%mark(5)))", binschema::schema!(%binschema::schema!(seq(3)(%mark(5)))));
    form("g_7 24: %binschema::schema!(seq(2 * LEN)(%mark(5)))", binschema::schema!(%binschema::schema!(seq(2 * LEN)(%mark(5)))));
    form("g_7 25: %binschema::schema!(tuple { (%mark(5)) })", binschema::schema!(%binschema::schema!(tuple { (%mark(5)) })));
    form("g_7 26: %binschema::schema!(tuple { (%mark(5)), })", binschema::schema!(%binschema::schema!(tuple { (%mark(5)), })));
    form("g_7 27: %binschema::schema!(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })", binschema::schema!(%binschema::schema!(tuple { (%mark(5)), (%mark(8)), (%mark(9)) })));
    form("g_7 28: %binschema::schema!(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })", binschema::schema!(%binschema::schema!(tuple { (%mark(7)), (%mark(5)), (%mark(9)), })));
    form("g_7 29: %binschema::schema!(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })", binschema::schema!(%binschema::schema!(tuple { (%mark(7)), (%mark(8)), (%mark(5)) })));
    form("g_7 30: %binschema::schema!(struct { (name: %mark(5)) })", binschema::schema!(%binschema::schema!(struct { (name: %mark(5)) })));
    form("g_7 31: %binschema::schema!(struct { (name: %mark(5)), })", binschema::schema!(%binschema::schema!(struct { (name: %mark(5)), })));
    form("g_7 32: %binschema::schema!(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })", binschema::schema!(%binschema::schema!(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) })));
    form("g_7 33: %binschema::schema!(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })", binschema::schema!(%binschema::schema!(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), })));
    form("g_7 34: %binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })", binschema::schema!(%binschema::schema!(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) })));
    form("g_7 35: %binschema::schema!(enum { Name(%mark(5)) })", binschema::schema!(%binschema::schema!(enum { Name(%mark(5)) })));
    form("g_7 36: %binschema::schema!(enum { Name(%mark(5)), })", binschema::schema!(%binschema::schema!(enum { Name(%mark(5)), })));
    form("g_7 37: %binschema::schema!(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })", binschema::schema!(%binschema::schema!(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) })));
    form("g_7 38: %binschema::schema!(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })", binschema::schema!(%binschema::schema!(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), })));
    form("g_7 39: %binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })", binschema::schema!(%binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) })));
    form("g_7 40: %binschema::schema!(%binschema::schema!(%mark(5)))", binschema::schema!(%binschema::schema!(%binschema::schema!(%mark(5)))));
    form("g_7 41: %binschema::schema!(%binschema::schema!(option(%mark(5))))", binschema::schema!(%binschema::schema!(%binschema::schema!(option(%mark(5))))));
    form("g_7 42: %binschema::schema!(option(option(%mark(5))))", binschema::schema!(%binschema::schema!(option(option(%mark(5))))));
    form("g_7 43: %binschema::schema!(option(option(option(%mark(5)))))", binschema::schema!(%binschema::schema!(option(option(option(%mark(5)))))));
    form("g_7 44: %binschema::schema!(option(seq(varlen)(%mark(5))))", binschema::schema!(%binschema::schema!(option(seq(varlen)(%mark(5))))));
    form("g_7 45: %binschema::schema!(option(seq(3)(%mark(5))))", binschema::schema!(%binschema::schema!(option(seq(3)(%mark(5))))));
    form("g_7 46: %binschema::schema!(option(seq(2 * LEN)(%mark(5))))", binschema::schema!(%binschema::schema!(option(seq(2 * LEN)(%mark(5))))));
    form("g_7 47: %binschema::schema!(option(tuple { (%mark(5)) }))", binschema::schema!(%binschema::schema!(option(tuple { (%mark(5)) }))));
    form("g_7 48: %binschema::schema!(option(tuple { (%mark(5)), }))", binschema::schema!(%binschema::schema!(option(tuple { (%mark(5)), }))));
    form("g_7 49: %binschema::schema!(option(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }))", binschema::schema!(%binschema::schema!(option(tuple { (%mark(5)), (%mark(8)), (%mark(9)) }))));
    form("g_7 50: %binschema::schema!(option(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }))", binschema::schema!(%binschema::schema!(option(tuple { (%mark(7)), (%mark(5)), (%mark(9)), }))));
    form("g_7 51: %binschema::schema!(option(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }))", binschema::schema!(%binschema::schema!(option(tuple { (%mark(7)), (%mark(8)), (%mark(5)) }))));
    form("g_7 52: %binschema::schema!(option(struct { (name: %mark(5)) }))", binschema::schema!(%binschema::schema!(option(struct { (name: %mark(5)) }))));
    form("g_7 53: %binschema::schema!(option(struct { (name: %mark(5)), }))", binschema::schema!(%binschema::schema!(option(struct { (name: %mark(5)), }))));
    form("g_7 54: %binschema::schema!(option(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }))", binschema::schema!(%binschema::schema!(option(struct { (x: %mark(5)), (y: %mark(8)), (z: %mark(9)) }))));
    form("g_7 55: %binschema::schema!(option(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }))", binschema::schema!(%binschema::schema!(option(struct { (z: %mark(7)), (y: %mark(5)), (x: %mark(9)), }))));
    form("g_7 56: %binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }))", binschema::schema!(%binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: %mark(5)) }))));
    form("g_7 57: %binschema::schema!(option(enum { Name(%mark(5)) }))", binschema::schema!(%binschema::schema!(option(enum { Name(%mark(5)) }))));
    form("g_7 58: %binschema::schema!(option(enum { Name(%mark(5)), }))", binschema::schema!(%binschema::schema!(option(enum { Name(%mark(5)), }))));
    form("g_7 59: %binschema::schema!(option(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }))", binschema::schema!(%binschema::schema!(option(enum { X(%mark(5)), Y(%mark(8)), Z(%mark(9)) }))));
}

pub fn g_8() {
    form("g_8 0: %binschema::schema!(option(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }))", binschema::schema!(%binschema::schema!(option(enum { Z(%mark(7)), Y(%mark(5)), X(%mark(9)), }))));
    form("g_8 1: %binschema::schema!(option(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }))", binschema::schema!(%binschema::schema!(option(enum { B(%mark(7)), A(%mark(8)), C(%mark(5)) }))));
    form("g_8 2: %binschema::schema!(option(%binschema::schema!(%mark(5))))", binschema::schema!(%binschema::schema!(option(%binschema::schema!(%mark(5))))));
    form("g_8 3: %binschema::schema!(option(%binschema::schema!(option(%mark(5)))))", binschema::schema!(%binschema::schema!(option(%binschema::schema!(option(%mark(5)))))));
}

pub fn n_seq() {
    form("n_seq 0: seq(0)(str)", binschema::schema!(seq(0)(str)));
    form("n_seq 1: seq(1)(str)", binschema::schema!(seq(1)(str)));
    form("n_seq 2: seq(2)(str)", binschema::schema!(seq(2)(str)));
    form("n_seq 3: seq(7)(str)", binschema::schema!(seq(7)(str)));
    form("n_seq 4: seq(8)(str)", binschema::schema!(seq(8)(str)));
    form("n_seq 5: seq(9)(str)", binschema::schema!(seq(9)(str)));
    form("n_seq 6: seq(10)(str)", binschema::schema!(seq(10)(str)));
    form("n_seq 7: seq(15)(str)", binschema::schema!(seq(15)(str)));
    form("n_seq 8: seq(16)(str)", binschema::schema!(seq(16)(str)));
    form("n_seq 9: seq(17)(str)", binschema::schema!(seq(17)(str)));
    form("n_seq 10: seq(31)(str)", binschema::schema!(seq(31)(str)));
    form("n_seq 11: seq(32)(str)", binschema::schema!(seq(32)(str)));
    form("n_seq 12: seq(33)(str)", binschema::schema!(seq(33)(str)));
    form("n_seq 13: seq(63)(str)", binschema::schema!(seq(63)(str)));
    form("n_seq 14: seq(64)(str)", binschema::schema!(seq(64)(str)));
    form("n_seq 15: seq(100)(str)", binschema::schema!(seq(100)(str)));
    form("n_seq 16: seq(127)(str)", binschema::schema!(seq(127)(str)));
    form("n_seq 17: seq(128)(str)", binschema::schema!(seq(128)(str)));
    form("n_seq 18: seq(129)(str)", binschema::schema!(seq(129)(str)));
    form("n_seq 19: seq(254)(str)", binschema::schema!(seq(254)(str)));
    form("n_seq 20: seq(255)(str)", binschema::schema!(seq(255)(str)));
    form("n_seq 21: seq(256)(str)", binschema::schema!(seq(256)(str)));
    form("n_seq 22: seq(257)(str)", binschema::schema!(seq(257)(str)));
    form("n_seq 23: seq(511)(str)", binschema::schema!(seq(511)(str)));
    form("n_seq 24: seq(512)(str)", binschema::schema!(seq(512)(str)));
    form("n_seq 25: seq(1000)(str)", binschema::schema!(seq(1000)(str)));
    form("n_seq 26: seq(1023)(str)", binschema::schema!(seq(1023)(str)));
    form("n_seq 27: seq(1024)(str)", binschema::schema!(seq(1024)(str)));
    form("n_seq 28: seq(4095)(str)", binschema::schema!(seq(4095)(str)));
    form("n_seq 29: seq(4096)(str)", binschema::schema!(seq(4096)(str)));
    form("n_seq 30: seq(32767)(str)", binschema::schema!(seq(32767)(str)));
    form("n_seq 31: seq(32768)(str)", binschema::schema!(seq(32768)(str)));
    form("n_seq 32: seq(65534)(str)", binschema::schema!(seq(65534)(str)));
    form("n_seq 33: seq(65535)(str)", binschema::schema!(seq(65535)(str)));
    form("n_seq 34: seq(65536)(str)", binschema::schema!(seq(65536)(str)));
    form("n_seq 35: seq(65537)(str)", binschema::schema!(seq(65537)(str)));
    form("n_seq 36: seq(1000000)(str)", binschema::schema!(seq(1000000)(str)));
    form("n_seq 37: seq(2147483647)(str)", binschema::schema!(seq(2147483647)(str)));
    form("n_seq 38: seq(2147483648)(str)", binschema::schema!(seq(2147483648)(str)));
    form("n_seq 39: seq(4294967295)(str)", binschema::schema!(seq(4294967295)(str)));
    form("n_seq 40: seq(4294967296)(str)", binschema::schema!(seq(4294967296)(str)));
    form("n_seq 41: seq(4294967297)(str)", binschema::schema!(seq(4294967297)(str)));
    form("n_seq 42: seq(9007199254740992)(str)", binschema::schema!(seq(9007199254740992)(str)));
    form("n_seq 43: seq(9223372036854775807)(str)", binschema::schema!(seq(9223372036854775807)(str)));
    form("n_seq 44: seq(9223372036854775808)(str)", binschema::schema!(seq(9223372036854775808)(str)));
    form("n_seq 45: seq(18446744073709551615)(str)", binschema::schema!(seq(18446744073709551615)(str)));
}

pub fn n_recurse() {
    form("n_recurse 0: recurse(0)", binschema::schema!(recurse(0)));
    form("n_recurse 1: recurse(1)", binschema::schema!(recurse(1)));
    form("n_recurse 2: recurse(2)", binschema::schema!(recurse(2)));
    form("n_recurse 3: recurse(7)", binschema::schema!(recurse(7)));
    form("n_recurse 4: recurse(8)", binschema::schema!(recurse(8)));
    form("n_recurse 5: recurse(9)", binschema::schema!(recurse(9)));
    form("n_recurse 6: recurse(10)", binschema::schema!(recurse(10)));
    form("n_recurse 7: recurse(15)", binschema::schema!(recurse(15)));
    form("n_recurse 8: recurse(16)", binschema::schema!(recurse(16)));
    form("n_recurse 9: recurse(17)", binschema::schema!(recurse(17)));
    form("n_recurse 10: recurse(31)", binschema::schema!(recurse(31)));
    form("n_recurse 11: recurse(32)", binschema::schema!(recurse(32)));
    form("n_recurse 12: recurse(33)", binschema::schema!(recurse(33)));
    form("n_recurse 13: recurse(63)", binschema::schema!(recurse(63)));
    form("n_recurse 14: recurse(64)", binschema::schema!(recurse(64)));
    form("n_recurse 15: recurse(100)", binschema::schema!(recurse(100)));
    form("n_recurse 16: recurse(127)", binschema::schema!(recurse(127)));
    form("n_recurse 17: recurse(128)", binschema::schema!(recurse(128)));
    form("n_recurse 18: recurse(129)", binschema::schema!(recurse(129)));
    form("n_recurse 19: recurse(254)", binschema::schema!(recurse(254)));
    form("n_recurse 20: recurse(255)", binschema::schema!(recurse(255)));
    form("n_recurse 21: recurse(256)", binschema::schema!(recurse(256)));
    form("n_recurse 22: recurse(257)", binschema::schema!(recurse(257)));
    form("n_recurse 23: recurse(511)", binschema::schema!(recurse(511)));
    form("n_recurse 24: recurse(512)", binschema::schema!(recurse(512)));
    form("n_recurse 25: recurse(1000)", binschema::schema!(recurse(1000)));
    form("n_recurse 26: recurse(1023)", binschema::schema!(recurse(1023)));
    form("n_recurse 27: recurse(1024)", binschema::schema!(recurse(1024)));
    form("n_recurse 28: recurse(4095)", binschema::schema!(recurse(4095)));
    form("n_recurse 29: recurse(4096)", binschema::schema!(recurse(4096)));
    form("n_recurse 30: recurse(32767)", binschema::schema!(recurse(32767)));
    form("n_recurse 31: recurse(32768)", binschema::schema!(recurse(32768)));
    form("n_recurse 32: recurse(65534)", binschema::schema!(recurse(65534)));
    form("n_recurse 33: recurse(65535)", binschema::schema!(recurse(65535)));
    form("n_recurse 34: recurse(65536)", binschema::schema!(recurse(65536)));
    form("n_recurse 35: recurse(65537)", binschema::schema!(recurse(65537)));
    form("n_recurse 36: recurse(1000000)", binschema::schema!(recurse(1000000)));
    form("n_recurse 37: recurse(2147483647)", binschema::schema!(recurse(2147483647)));
    form("n_recurse 38: recurse(2147483648)", binschema::schema!(recurse(2147483648)));
    form("n_recurse 39: recurse(4294967295)", binschema::schema!(recurse(4294967295)));
    form("n_recurse 40: recurse(4294967296)", binschema::schema!(recurse(4294967296)));
    form("n_recurse 41: recurse(4294967297)", binschema::schema!(recurse(4294967297)));
    form("n_recurse 42: recurse(9007199254740992)", binschema::schema!(recurse(9007199254740992)));
    form("n_recurse 43: recurse(9223372036854775807)", binschema::schema!(recurse(9223372036854775807)));
    form("n_recurse 44: recurse(9223372036854775808)", binschema::schema!(recurse(9223372036854775808)));
    form("n_recurse 45: recurse(18446744073709551615)", binschema::schema!(recurse(18446744073709551615)));
}

pub fn e_seq() {
    let k = 6usize; let varlen2 = 13usize; fn two(n: usize) -> usize { n + n }
    form("e_seq 0: seq({ let a = 3; a * a })(u8)", binschema::schema!(seq({ let a = 3; a * a })(u8)));
    form("e_seq 1: seq((1 + 2) * 3)(u8)", binschema::schema!(seq((1 + 2) * 3)(u8)));
    form("e_seq 2: seq(if LEN > 3 { 4 } else { 5 })(u8)", binschema::schema!(seq(if LEN > 3 { 4 } else { 5 })(u8)));
    form("e_seq 3: seq(usize::MAX)(u8)", binschema::schema!(seq(usize::MAX)(u8)));
    form("e_seq 4: seq(k)(u8)", binschema::schema!(seq(k)(u8)));
    form("e_seq 5: seq(two(k))(u8)", binschema::schema!(seq(two(k))(u8)));
    form("e_seq 6: seq(k - 1)(u8)", binschema::schema!(seq(k - 1)(u8)));
    form("e_seq 7: seq([10, 20, 30][1])(u8)", binschema::schema!(seq([10, 20, 30][1])(u8)));
    form("e_seq 8: seq(0x10)(u8)", binschema::schema!(seq(0x10)(u8)));
    form("e_seq 9: seq(1_000usize)(u8)", binschema::schema!(seq(1_000usize)(u8)));
    form("e_seq 10: seq(match k { 6 => 60, _ => 0 })(u8)", binschema::schema!(seq(match k { 6 => 60, _ => 0 })(u8)));
    form("e_seq 11: seq(varlen2)(u8)", binschema::schema!(seq(varlen2)(u8)));
}

pub fn e_recurse() {
    let k = 6usize; let varlen2 = 13usize; fn two(n: usize) -> usize { n + n }
    form("e_recurse 0: recurse({ let a = 3; a * a })", binschema::schema!(recurse({ let a = 3; a * a })));
    form("e_recurse 1: recurse((1 + 2) * 3)", binschema::schema!(recurse((1 + 2) * 3)));
    form("e_recurse 2: recurse(if LEN > 3 { 4 } else { 5 })", binschema::schema!(recurse(if LEN > 3 { 4 } else { 5 })));
    form("e_recurse 3: recurse(usize::MAX)", binschema::schema!(recurse(usize::MAX)));
    form("e_recurse 4: recurse(k)", binschema::schema!(recurse(k)));
    form("e_recurse 5: recurse(two(k))", binschema::schema!(recurse(two(k))));
    form("e_recurse 6: recurse(k - 1)", binschema::schema!(recurse(k - 1)));
    form("e_recurse 7: recurse([10, 20, 30][1])", binschema::schema!(recurse([10, 20, 30][1])));
    form("e_recurse 8: recurse(0x10)", binschema::schema!(recurse(0x10)));
    form("e_recurse 9: recurse(1_000usize)", binschema::schema!(recurse(1_000usize)));
    form("e_recurse 10: recurse(match k { 6 => 60, _ => 0 })", binschema::schema!(recurse(match k { 6 => 60, _ => 0 })));
    form("e_recurse 11: recurse(varlen2)", binschema::schema!(recurse(varlen2)));
}

pub fn e_generic() {
    fn of_0<const N: usize>() -> binschema::Schema { binschema::schema!(seq(N)(recurse(N))) }
    form("e_generic: seq(N)(recurse(N)) with N = 0", of_0::<0>());
    fn of_1<const N: usize>() -> binschema::Schema { binschema::schema!(seq(N)(recurse(N))) }
    form("e_generic: seq(N)(recurse(N)) with N = 1", of_1::<1>());
    fn of_4<const N: usize>() -> binschema::Schema { binschema::schema!(seq(N)(recurse(N))) }
    form("e_generic: seq(N)(recurse(N)) with N = 4", of_4::<4>());
    fn of_300<const N: usize>() -> binschema::Schema { binschema::schema!(seq(N)(recurse(N))) }
    form("e_generic: seq(N)(recurse(N)) with N = 300", of_300::<300>());
    fn of_70000<const N: usize>() -> binschema::Schema { binschema::schema!(seq(N)(recurse(N))) }
    form("e_generic: seq(N)(recurse(N)) with N = 70000", of_70000::<70000>());
}

pub fn w_struct_keyword() {
    form("w_struct_keyword 0: struct { (type: u8) }", binschema::schema!(struct { (type: u8) }));
    form("w_struct_keyword 1: struct { (fn: u8) }", binschema::schema!(struct { (fn: u8) }));
    form("w_struct_keyword 2: struct { (struct: u8) }", binschema::schema!(struct { (struct: u8) }));
    form("w_struct_keyword 3: struct { (enum: u8) }", binschema::schema!(struct { (enum: u8) }));
    form("w_struct_keyword 4: struct { (match: u8) }", binschema::schema!(struct { (match: u8) }));
    form("w_struct_keyword 5: struct { (let: u8) }", binschema::schema!(struct { (let: u8) }));
    form("w_struct_keyword 6: struct { (self: u8) }", binschema::schema!(struct { (self: u8) }));
    form("w_struct_keyword 7: struct { (Self: u8) }", binschema::schema!(struct { (Self: u8) }));
    form("w_struct_keyword 8: struct { (mod: u8) }", binschema::schema!(struct { (mod: u8) }));
    form("w_struct_keyword 9: struct { (impl: u8) }", binschema::schema!(struct { (impl: u8) }));
    form("w_struct_keyword 10: struct { (for: u8) }", binschema::schema!(struct { (for: u8) }));
    form("w_struct_keyword 11: struct { (in: u8) }", binschema::schema!(struct { (in: u8) }));
    form("w_struct_keyword 12: struct { (if: u8) }", binschema::schema!(struct { (if: u8) }));
    form("w_struct_keyword 13: struct { (else: u8) }", binschema::schema!(struct { (else: u8) }));
    form("w_struct_keyword 14: struct { (loop: u8) }", binschema::schema!(struct { (loop: u8) }));
    form("w_struct_keyword 15: struct { (while: u8) }", binschema::schema!(struct { (while: u8) }));
    form("w_struct_keyword 16: struct { (return: u8) }", binschema::schema!(struct { (return: u8) }));
    form("w_struct_keyword 17: struct { (move: u8) }", binschema::schema!(struct { (move: u8) }));
    form("w_struct_keyword 18: struct { (ref: u8) }", binschema::schema!(struct { (ref: u8) }));
    form("w_struct_keyword 19: struct { (mut: u8) }", binschema::schema!(struct { (mut: u8) }));
    form("w_struct_keyword 20: struct { (pub: u8) }", binschema::schema!(struct { (pub: u8) }));
    form("w_struct_keyword 21: struct { (use: u8) }", binschema::schema!(struct { (use: u8) }));
    form("w_struct_keyword 22: struct { (where: u8) }", binschema::schema!(struct { (where: u8) }));
    form("w_struct_keyword 23: struct { (as: u8) }", binschema::schema!(struct { (as: u8) }));
    form("w_struct_keyword 24: struct { (async: u8) }", binschema::schema!(struct { (async: u8) }));
    form("w_struct_keyword 25: struct { (await: u8) }", binschema::schema!(struct { (await: u8) }));
    form("w_struct_keyword 26: struct { (dyn: u8) }", binschema::schema!(struct { (dyn: u8) }));
    form("w_struct_keyword 27: struct { (static: u8) }", binschema::schema!(struct { (static: u8) }));
    form("w_struct_keyword 28: struct { (const: u8) }", binschema::schema!(struct { (const: u8) }));
    form("w_struct_keyword 29: struct { (crate: u8) }", binschema::schema!(struct { (crate: u8) }));
    form("w_struct_keyword 30: struct { (super: u8) }", binschema::schema!(struct { (super: u8) }));
    form("w_struct_keyword 31: struct { (trait: u8) }", binschema::schema!(struct { (trait: u8) }));
    form("w_struct_keyword 32: struct { (true: u8) }", binschema::schema!(struct { (true: u8) }));
    form("w_struct_keyword 33: struct { (false: u8) }", binschema::schema!(struct { (false: u8) }));
    form("w_struct_keyword 34: struct { (unsafe: u8) }", binschema::schema!(struct { (unsafe: u8) }));
    form("w_struct_keyword 35: struct { (extern: u8) }", binschema::schema!(struct { (extern: u8) }));
    form("w_struct_keyword 36: struct { (break: u8) }", binschema::schema!(struct { (break: u8) }));
    form("w_struct_keyword 37: struct { (continue: u8) }", binschema::schema!(struct { (continue: u8) }));
    form("w_struct_keyword 38: struct { (abstract: u8) }", binschema::schema!(struct { (abstract: u8) }));
    form("w_struct_keyword 39: struct { (become: u8) }", binschema::schema!(struct { (become: u8) }));
    form("w_struct_keyword 40: struct { (box: u8) }", binschema::schema!(struct { (box: u8) }));
    form("w_struct_keyword 41: struct { (do: u8) }", binschema::schema!(struct { (do: u8) }));
    form("w_struct_keyword 42: struct { (final: u8) }", binschema::schema!(struct { (final: u8) }));
    form("w_struct_keyword 43: struct { (macro: u8) }", binschema::schema!(struct { (macro: u8) }));
    form("w_struct_keyword 44: struct { (override: u8) }", binschema::schema!(struct { (override: u8) }));
    form("w_struct_keyword 45: struct { (priv: u8) }", binschema::schema!(struct { (priv: u8) }));
    form("w_struct_keyword 46: struct { (try: u8) }", binschema::schema!(struct { (try: u8) }));
    form("w_struct_keyword 47: struct { (typeof: u8) }", binschema::schema!(struct { (typeof: u8) }));
    form("w_struct_keyword 48: struct { (unsized: u8) }", binschema::schema!(struct { (unsized: u8) }));
    form("w_struct_keyword 49: struct { (virtual: u8) }", binschema::schema!(struct { (virtual: u8) }));
    form("w_struct_keyword 50: struct { (yield: u8) }", binschema::schema!(struct { (yield: u8) }));
    form("w_struct_keyword 51: struct { (union: u8) }", binschema::schema!(struct { (union: u8) }));
}

pub fn w_enum_keyword() {
    form("w_enum_keyword 0: enum { type(u8) }", binschema::schema!(enum { type(u8) }));
    form("w_enum_keyword 1: enum { fn(u8) }", binschema::schema!(enum { fn(u8) }));
    form("w_enum_keyword 2: enum { struct(u8) }", binschema::schema!(enum { struct(u8) }));
    form("w_enum_keyword 3: enum { enum(u8) }", binschema::schema!(enum { enum(u8) }));
    form("w_enum_keyword 4: enum { match(u8) }", binschema::schema!(enum { match(u8) }));
    form("w_enum_keyword 5: enum { let(u8) }", binschema::schema!(enum { let(u8) }));
    form("w_enum_keyword 6: enum { self(u8) }", binschema::schema!(enum { self(u8) }));
    form("w_enum_keyword 7: enum { Self(u8) }", binschema::schema!(enum { Self(u8) }));
    form("w_enum_keyword 8: enum { mod(u8) }", binschema::schema!(enum { mod(u8) }));
    form("w_enum_keyword 9: enum { impl(u8) }", binschema::schema!(enum { impl(u8) }));
    form("w_enum_keyword 10: enum { for(u8) }", binschema::schema!(enum { for(u8) }));
    form("w_enum_keyword 11: enum { in(u8) }", binschema::schema!(enum { in(u8) }));
    form("w_enum_keyword 12: enum { if(u8) }", binschema::schema!(enum { if(u8) }));
    form("w_enum_keyword 13: enum { else(u8) }", binschema::schema!(enum { else(u8) }));
    form("w_enum_keyword 14: enum { loop(u8) }", binschema::schema!(enum { loop(u8) }));
    form("w_enum_keyword 15: enum { while(u8) }", binschema::schema!(enum { while(u8) }));
    form("w_enum_keyword 16: enum { return(u8) }", binschema::schema!(enum { return(u8) }));
    form("w_enum_keyword 17: enum { move(u8) }", binschema::schema!(enum { move(u8) }));
    form("w_enum_keyword 18: enum { ref(u8) }", binschema::schema!(enum { ref(u8) }));
    form("w_enum_keyword 19: enum { mut(u8) }", binschema::schema!(enum { mut(u8) }));
    form("w_enum_keyword 20: enum { pub(u8) }", binschema::schema!(enum { pub(u8) }));
    form("w_enum_keyword 21: enum { use(u8) }", binschema::schema!(enum { use(u8) }));
    form("w_enum_keyword 22: enum { where(u8) }", binschema::schema!(enum { where(u8) }));
    form("w_enum_keyword 23: enum { as(u8) }", binschema::schema!(enum { as(u8) }));
    form("w_enum_keyword 24: enum { async(u8) }", binschema::schema!(enum { async(u8) }));
    form("w_enum_keyword 25: enum { await(u8) }", binschema::schema!(enum { await(u8) }));
    form("w_enum_keyword 26: enum { dyn(u8) }", binschema::schema!(enum { dyn(u8) }));
    form("w_enum_keyword 27: enum { static(u8) }", binschema::schema!(enum { static(u8) }));
    form("w_enum_keyword 28: enum { const(u8) }", binschema::schema!(enum { const(u8) }));
    form("w_enum_keyword 29: enum { crate(u8) }", binschema::schema!(enum { crate(u8) }));
    form("w_enum_keyword 30: enum { super(u8) }", binschema::schema!(enum { super(u8) }));
    form("w_enum_keyword 31: enum { trait(u8) }", binschema::schema!(enum { trait(u8) }));
    form("w_enum_keyword 32: enum { true(u8) }", binschema::schema!(enum { true(u8) }));
    form("w_enum_keyword 33: enum { false(u8) }", binschema::schema!(enum { false(u8) }));
    form("w_enum_keyword 34: enum { unsafe(u8) }", binschema::schema!(enum { unsafe(u8) }));
    form("w_enum_keyword 35: enum { extern(u8) }", binschema::schema!(enum { extern(u8) }));
    form("w_enum_keyword 36: enum { break(u8) }", binschema::schema!(enum { break(u8) }));
    form("w_enum_keyword 37: enum { continue(u8) }", binschema::schema!(enum { continue(u8) }));
    form("w_enum_keyword 38: enum { abstract(u8) }", binschema::schema!(enum { abstract(u8) }));
    form("w_enum_keyword 39: enum { become(u8) }", binschema::schema!(enum { become(u8) }));
    form("w_enum_keyword 40: enum { box(u8) }", binschema::schema!(enum { box(u8) }));
    form("w_enum_keyword 41: enum { do(u8) }", binschema::schema!(enum { do(u8) }));
    form("w_enum_keyword 42: enum { final(u8) }", binschema::schema!(enum { final(u8) }));
    form("w_enum_keyword 43: enum { macro(u8) }", binschema::schema!(enum { macro(u8) }));
    form("w_enum_keyword 44: enum { override(u8) }", binschema::schema!(enum { override(u8) }));
    form("w_enum_keyword 45: enum { priv(u8) }", binschema::schema!(enum { priv(u8) }));
    form("w_enum_keyword 46: enum { try(u8) }", binschema::schema!(enum { try(u8) }));
    form("w_enum_keyword 47: enum { typeof(u8) }", binschema::schema!(enum { typeof(u8) }));
    form("w_enum_keyword 48: enum { unsized(u8) }", binschema::schema!(enum { unsized(u8) }));
    form("w_enum_keyword 49: enum { virtual(u8) }", binschema::schema!(enum { virtual(u8) }));
    form("w_enum_keyword 50: enum { yield(u8) }", binschema::schema!(enum { yield(u8) }));
    form("w_enum_keyword 51: enum { union(u8) }", binschema::schema!(enum { union(u8) }));
}

pub fn w_all_keyword() {
    form("w_all_keyword 0: struct { (type: %mark(0)), (fn: %mark(1)), (struct: %mark(2)), (enum: %mark(3)), (match...", binschema::schema!(struct { (type: %mark(0)), (fn: %mark(1)), (struct: %mark(2)), (enum: %mark(3)), (match: %mark(4)), (let: %mark(5)), (self: %mark(6)), (Self: %mark(7)), (mod: %mark(8)), (impl: %mark(9)), (for: %mark(10)), (in: %mark(11)), (if: %mark(12)), (else: %mark(13)), (loop: %mark(14)), (while: %mark(15)), (return: %mark(16)), (move: %mark(17)), (ref: %mark(18)), (mut: %mark(19)), (pub: %mark(20)), (use: %mark(21)), (where: %mark(22)), (as: %mark(23)), (async: %mark(24)), (await: %mark(25)), (dyn: %mark(26)), (static: %mark(27)), (const: %mark(28)), (crate: %mark(29)), (super: %mark(30)), (trait: %mark(31)), (true: %mark(32)), (false: %mark(33)), (unsafe: %mark(34)), (extern: %mark(35)), (break: %mark(36)), (continue: %mark(37)), (abstract: %mark(38)), (become: %mark(39)), (box: %mark(40)), (do: %mark(41)), (final: %mark(42)), (macro: %mark(43)), (override: %mark(44)), (priv: %mark(45)), (try: %mark(46)), (typeof: %mark(47)), (unsized: %mark(48)), (virtual: %mark(49)), (yield: %mark(50)), (union: %mark(51)) }));
    form("w_all_keyword 1: enum { type(%mark(0)), fn(%mark(1)), struct(%mark(2)), enum(%mark(3)), match(%mark(4)),...", binschema::schema!(enum { type(%mark(0)), fn(%mark(1)), struct(%mark(2)), enum(%mark(3)), match(%mark(4)), let(%mark(5)), self(%mark(6)), Self(%mark(7)), mod(%mark(8)), impl(%mark(9)), for(%mark(10)), in(%mark(11)), if(%mark(12)), else(%mark(13)), loop(%mark(14)), while(%mark(15)), return(%mark(16)), move(%mark(17)), ref(%mark(18)), mut(%mark(19)), pub(%mark(20)), use(%mark(21)), where(%mark(22)), as(%mark(23)), async(%mark(24)), await(%mark(25)), dyn(%mark(26)), static(%mark(27)), const(%mark(28)), crate(%mark(29)), super(%mark(30)), trait(%mark(31)), true(%mark(32)), false(%mark(33)), unsafe(%mark(34)), extern(%mark(35)), break(%mark(36)), continue(%mark(37)), abstract(%mark(38)), become(%mark(39)), box(%mark(40)), do(%mark(41)), final(%mark(42)), macro(%mark(43)), override(%mark(44)), priv(%mark(45)), try(%mark(46)), typeof(%mark(47)), unsized(%mark(48)), virtual(%mark(49)), yield(%mark(50)), union(%mark(51)) }));
}

pub fn w_struct_form() {
    form("w_struct_form 0: struct { (u8: u8) }", binschema::schema!(struct { (u8: u8) }));
    form("w_struct_form 1: struct { (u16: u8) }", binschema::schema!(struct { (u16: u8) }));
    form("w_struct_form 2: struct { (u32: u8) }", binschema::schema!(struct { (u32: u8) }));
    form("w_struct_form 3: struct { (u64: u8) }", binschema::schema!(struct { (u64: u8) }));
    form("w_struct_form 4: struct { (u128: u8) }", binschema::schema!(struct { (u128: u8) }));
    form("w_struct_form 5: struct { (i8: u8) }", binschema::schema!(struct { (i8: u8) }));
    form("w_struct_form 6: struct { (i16: u8) }", binschema::schema!(struct { (i16: u8) }));
    form("w_struct_form 7: struct { (i32: u8) }", binschema::schema!(struct { (i32: u8) }));
    form("w_struct_form 8: struct { (i64: u8) }", binschema::schema!(struct { (i64: u8) }));
    form("w_struct_form 9: struct { (i128: u8) }", binschema::schema!(struct { (i128: u8) }));
    form("w_struct_form 10: struct { (f32: u8) }", binschema::schema!(struct { (f32: u8) }));
    form("w_struct_form 11: struct { (f64: u8) }", binschema::schema!(struct { (f64: u8) }));
    form("w_struct_form 12: struct { (char: u8) }", binschema::schema!(struct { (char: u8) }));
    form("w_struct_form 13: struct { (bool: u8) }", binschema::schema!(struct { (bool: u8) }));
    form("w_struct_form 14: struct { (str: u8) }", binschema::schema!(struct { (str: u8) }));
    form("w_struct_form 15: struct { (bytes: u8) }", binschema::schema!(struct { (bytes: u8) }));
    form("w_struct_form 16: struct { (unit: u8) }", binschema::schema!(struct { (unit: u8) }));
    form("w_struct_form 17: struct { (option: u8) }", binschema::schema!(struct { (option: u8) }));
    form("w_struct_form 18: struct { (seq: u8) }", binschema::schema!(struct { (seq: u8) }));
    form("w_struct_form 19: struct { (varlen: u8) }", binschema::schema!(struct { (varlen: u8) }));
    form("w_struct_form 20: struct { (tuple: u8) }", binschema::schema!(struct { (tuple: u8) }));
    form("w_struct_form 21: struct { (recurse: u8) }", binschema::schema!(struct { (recurse: u8) }));
}

pub fn w_enum_form() {
    form("w_enum_form 0: enum { u8(u8) }", binschema::schema!(enum { u8(u8) }));
    form("w_enum_form 1: enum { u16(u8) }", binschema::schema!(enum { u16(u8) }));
    form("w_enum_form 2: enum { u32(u8) }", binschema::schema!(enum { u32(u8) }));
    form("w_enum_form 3: enum { u64(u8) }", binschema::schema!(enum { u64(u8) }));
    form("w_enum_form 4: enum { u128(u8) }", binschema::schema!(enum { u128(u8) }));
    form("w_enum_form 5: enum { i8(u8) }", binschema::schema!(enum { i8(u8) }));
    form("w_enum_form 6: enum { i16(u8) }", binschema::schema!(enum { i16(u8) }));
    form("w_enum_form 7: enum { i32(u8) }", binschema::schema!(enum { i32(u8) }));
    form("w_enum_form 8: enum { i64(u8) }", binschema::schema!(enum { i64(u8) }));
    form("w_enum_form 9: enum { i128(u8) }", binschema::schema!(enum { i128(u8) }));
    form("w_enum_form 10: enum { f32(u8) }", binschema::schema!(enum { f32(u8) }));
    form("w_enum_form 11: enum { f64(u8) }", binschema::schema!(enum { f64(u8) }));
    form("w_enum_form 12: enum { char(u8) }", binschema::schema!(enum { char(u8) }));
    form("w_enum_form 13: enum { bool(u8) }", binschema::schema!(enum { bool(u8) }));
    form("w_enum_form 14: enum { str(u8) }", binschema::schema!(enum { str(u8) }));
    form("w_enum_form 15: enum { bytes(u8) }", binschema::schema!(enum { bytes(u8) }));
    form("w_enum_form 16: enum { unit(u8) }", binschema::schema!(enum { unit(u8) }));
    form("w_enum_form 17: enum { option(u8) }", binschema::schema!(enum { option(u8) }));
    form("w_enum_form 18: enum { seq(u8) }", binschema::schema!(enum { seq(u8) }));
    form("w_enum_form 19: enum { varlen(u8) }", binschema::schema!(enum { varlen(u8) }));
    form("w_enum_form 20: enum { tuple(u8) }", binschema::schema!(enum { tuple(u8) }));
    form("w_enum_form 21: enum { recurse(u8) }", binschema::schema!(enum { recurse(u8) }));
}

pub fn w_all_form() {
    form("w_all_form 0: struct { (u8: %mark(0)), (u16: %mark(1)), (u32: %mark(2)), (u64: %mark(3)), (u128: %mar...", binschema::schema!(struct { (u8: %mark(0)), (u16: %mark(1)), (u32: %mark(2)), (u64: %mark(3)), (u128: %mark(4)), (i8: %mark(5)), (i16: %mark(6)), (i32: %mark(7)), (i64: %mark(8)), (i128: %mark(9)), (f32: %mark(10)), (f64: %mark(11)), (char: %mark(12)), (bool: %mark(13)), (str: %mark(14)), (bytes: %mark(15)), (unit: %mark(16)), (option: %mark(17)), (seq: %mark(18)), (varlen: %mark(19)), (tuple: %mark(20)), (recurse: %mark(21)) }));
    form("w_all_form 1: enum { u8(%mark(0)), u16(%mark(1)), u32(%mark(2)), u64(%mark(3)), u128(%mark(4)), i8(%m...", binschema::schema!(enum { u8(%mark(0)), u16(%mark(1)), u32(%mark(2)), u64(%mark(3)), u128(%mark(4)), i8(%mark(5)), i16(%mark(6)), i32(%mark(7)), i64(%mark(8)), i128(%mark(9)), f32(%mark(10)), f64(%mark(11)), char(%mark(12)), bool(%mark(13)), str(%mark(14)), bytes(%mark(15)), unit(%mark(16)), option(%mark(17)), seq(%mark(18)), varlen(%mark(19)), tuple(%mark(20)), recurse(%mark(21)) }));
}

pub fn w_struct_odd() {
    form("w_struct_odd 0: struct { (a: u8) }", binschema::schema!(struct { (a: u8) }));
    form("w_struct_odd 1: struct { (A: u8) }", binschema::schema!(struct { (A: u8) }));
    form("w_struct_odd 2: struct { (_a: u8) }", binschema::schema!(struct { (_a: u8) }));
    form("w_struct_odd 3: struct { (__: u8) }", binschema::schema!(struct { (__: u8) }));
    form("w_struct_odd 4: struct { (a_b_c: u8) }", binschema::schema!(struct { (a_b_c: u8) }));
    form("w_struct_odd 5: struct { (aB: u8) }", binschema::schema!(struct { (aB: u8) }));
    form("w_struct_odd 6: struct { (A1: u8) }", binschema::schema!(struct { (A1: u8) }));
    form("w_struct_odd 7: struct { (name: u8) }", binschema::schema!(struct { (name: u8) }));
    form("w_struct_odd 8: struct { (len: u8) }", binschema::schema!(struct { (len: u8) }));
    form("w_struct_odd 9: struct { (inner: u8) }", binschema::schema!(struct { (inner: u8) }));
    form("w_struct_odd 10: struct { (item: u8) }", binschema::schema!(struct { (item: u8) }));
    form("w_struct_odd 11: struct { (field: u8) }", binschema::schema!(struct { (field: u8) }));
    form("w_struct_odd 12: struct { (variant: u8) }", binschema::schema!(struct { (variant: u8) }));
    form("w_struct_odd 13: struct { (xxxxxxxxxx: u8) }", binschema::schema!(struct { (xxxxxxxxxx: u8) }));
    form("w_struct_odd 14: struct { (camelCase: u8) }", binschema::schema!(struct { (camelCase: u8) }));
    form("w_struct_odd 15: struct { (SHOUT: u8) }", binschema::schema!(struct { (SHOUT: u8) }));
    form("w_struct_odd 16: struct { (größe: u8) }", binschema::schema!(struct { (größe: u8) }));
    form("w_struct_odd 17: struct { (ключ: u8) }", binschema::schema!(struct { (ключ: u8) }));
    form("w_struct_odd 18: struct { (名前: u8) }", binschema::schema!(struct { (名前: u8) }));
    form("w_struct_odd 19: struct { (é: u8) }", binschema::schema!(struct { (é: u8) }));
    form("w_struct_odd 20: struct { (aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa: u8) }", binschema::schema!(struct { (aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa: u8) }));
    form("w_struct_odd 21: struct { (bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb: u8) }", binschema::schema!(struct { (bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb: u8) }));
    form("w_struct_odd 22: struct { (ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc: u8) }", binschema::schema!(struct { (ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc: u8) }));
    form("w_struct_odd 23: struct { (ddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd...", binschema::schema!(struct { (ddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd: u8) }));
    form("w_struct_odd 24: struct { (eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee...", binschema::schema!(struct { (eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee: u8) }));
    form("w_struct_odd 25: struct { (fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff...", binschema::schema!(struct { (ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff: u8) }));
    form("w_struct_odd 26: struct { (x0: u8) }", binschema::schema!(struct { (x0: u8) }));
    form("w_struct_odd 27: struct { (x00: u8) }", binschema::schema!(struct { (x00: u8) }));
    form("w_struct_odd 28: struct { (true1: u8) }", binschema::schema!(struct { (true1: u8) }));
    form("w_struct_odd 29: struct { (Some: u8) }", binschema::schema!(struct { (Some: u8) }));
    form("w_struct_odd 30: struct { (None: u8) }", binschema::schema!(struct { (None: u8) }));
    form("w_struct_odd 31: struct { (Ok: u8) }", binschema::schema!(struct { (Ok: u8) }));
}

pub fn w_enum_odd() {
    form("w_enum_odd 0: enum { a(u8) }", binschema::schema!(enum { a(u8) }));
    form("w_enum_odd 1: enum { A(u8) }", binschema::schema!(enum { A(u8) }));
    form("w_enum_odd 2: enum { _a(u8) }", binschema::schema!(enum { _a(u8) }));
    form("w_enum_odd 3: enum { __(u8) }", binschema::schema!(enum { __(u8) }));
    form("w_enum_odd 4: enum { a_b_c(u8) }", binschema::schema!(enum { a_b_c(u8) }));
    form("w_enum_odd 5: enum { aB(u8) }", binschema::schema!(enum { aB(u8) }));
    form("w_enum_odd 6: enum { A1(u8) }", binschema::schema!(enum { A1(u8) }));
    form("w_enum_odd 7: enum { name(u8) }", binschema::schema!(enum { name(u8) }));
    form("w_enum_odd 8: enum { len(u8) }", binschema::schema!(enum { len(u8) }));
    form("w_enum_odd 9: enum { inner(u8) }", binschema::schema!(enum { inner(u8) }));
    form("w_enum_odd 10: enum { item(u8) }", binschema::schema!(enum { item(u8) }));
    form("w_enum_odd 11: enum { field(u8) }", binschema::schema!(enum { field(u8) }));
    form("w_enum_odd 12: enum { variant(u8) }", binschema::schema!(enum { variant(u8) }));
    form("w_enum_odd 13: enum { xxxxxxxxxx(u8) }", binschema::schema!(enum { xxxxxxxxxx(u8) }));
    form("w_enum_odd 14: enum { camelCase(u8) }", binschema::schema!(enum { camelCase(u8) }));
    form("w_enum_odd 15: enum { SHOUT(u8) }", binschema::schema!(enum { SHOUT(u8) }));
    form("w_enum_odd 16: enum { größe(u8) }", binschema::schema!(enum { größe(u8) }));
    form("w_enum_odd 17: enum { ключ(u8) }", binschema::schema!(enum { ключ(u8) }));
    form("w_enum_odd 18: enum { 名前(u8) }", binschema::schema!(enum { 名前(u8) }));
    form("w_enum_odd 19: enum { é(u8) }", binschema::schema!(enum { é(u8) }));
    form("w_enum_odd 20: enum { aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(u8) }", binschema::schema!(enum { aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(u8) }));
    form("w_enum_odd 21: enum { bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb(u8) }", binschema::schema!(enum { bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb(u8) }));
    form("w_enum_odd 22: enum { ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc(u8) }", binschema::schema!(enum { ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc(u8) }));
    form("w_enum_odd 23: enum { dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd...", binschema::schema!(enum { ddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd(u8) }));
    form("w_enum_odd 24: enum { eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee...", binschema::schema!(enum { eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee(u8) }));
    form("w_enum_odd 25: enum { ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff...", binschema::schema!(enum { ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff(u8) }));
    form("w_enum_odd 26: enum { x0(u8) }", binschema::schema!(enum { x0(u8) }));
    form("w_enum_odd 27: enum { x00(u8) }", binschema::schema!(enum { x00(u8) }));
    form("w_enum_odd 28: enum { true1(u8) }", binschema::schema!(enum { true1(u8) }));
    form("w_enum_odd 29: enum { Some(u8) }", binschema::schema!(enum { Some(u8) }));
    form("w_enum_odd 30: enum { None(u8) }", binschema::schema!(enum { None(u8) }));
    form("w_enum_odd 31: enum { Ok(u8) }", binschema::schema!(enum { Ok(u8) }));
}

pub fn w_all_odd() {
    form("w_all_odd 0: struct { (a: %mark(0)), (A: %mark(1)), (_a: %mark(2)), (__: %mark(3)), (a_b_c: %mark(4)...", binschema::schema!(struct { (a: %mark(0)), (A: %mark(1)), (_a: %mark(2)), (__: %mark(3)), (a_b_c: %mark(4)), (aB: %mark(5)), (A1: %mark(6)), (name: %mark(7)), (len: %mark(8)), (inner: %mark(9)), (item: %mark(10)), (field: %mark(11)), (variant: %mark(12)), (xxxxxxxxxx: %mark(13)), (camelCase: %mark(14)), (SHOUT: %mark(15)), (größe: %mark(16)), (ключ: %mark(17)), (名前: %mark(18)), (é: %mark(19)), (aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa: %mark(20)), (bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb: %mark(21)), (ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc: %mark(22)), (ddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd: %mark(23)), (eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee: %mark(24)), (ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff: %mark(25)), (x0: %mark(26)), (x00: %mark(27)), (true1: %mark(28)), (Some: %mark(29)), (None: %mark(30)), (Ok: %mark(31)) }));
    form("w_all_odd 1: enum { a(%mark(0)), A(%mark(1)), _a(%mark(2)), __(%mark(3)), a_b_c(%mark(4)), aB(%mark(...", binschema::schema!(enum { a(%mark(0)), A(%mark(1)), _a(%mark(2)), __(%mark(3)), a_b_c(%mark(4)), aB(%mark(5)), A1(%mark(6)), name(%mark(7)), len(%mark(8)), inner(%mark(9)), item(%mark(10)), field(%mark(11)), variant(%mark(12)), xxxxxxxxxx(%mark(13)), camelCase(%mark(14)), SHOUT(%mark(15)), größe(%mark(16)), ключ(%mark(17)), 名前(%mark(18)), é(%mark(19)), aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(%mark(20)), bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb(%mark(21)), ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc(%mark(22)), ddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd(%mark(23)), eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee(%mark(24)), ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff(%mark(25)), x0(%mark(26)), x00(%mark(27)), true1(%mark(28)), Some(%mark(29)), None(%mark(30)), Ok(%mark(31)) }));
}

pub fn w_same() {
    form("w_same 0: struct { (a: u8), (a: str), (a: unit) }", binschema::schema!(struct { (a: u8), (a: str), (a: unit) }));
    form("w_same 1: enum { A(u8), A(str), A(unit) }", binschema::schema!(enum { A(u8), A(str), A(unit) }));
    form("w_same 2: struct { (option: option(u8)), (seq: seq(2)(u8)), (tuple: tuple { (u8) }), (recurse: re...", binschema::schema!(struct { (option: option(u8)), (seq: seq(2)(u8)), (tuple: tuple { (u8) }), (recurse: recurse(2)), }));
    form("w_same 3: enum { option(option(u8)), seq(seq(2)(u8)), tuple(tuple { (u8) }), recurse(recurse(2)),...", binschema::schema!(enum { option(option(u8)), seq(seq(2)(u8)), tuple(tuple { (u8) }), recurse(recurse(2)), unit(unit) }));
}

pub fn m_tuple() {
    form("m_tuple 0: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)) }", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)) }));
    form("m_tuple 1: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(...", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(6)), (%mark(7)) }));
    form("m_tuple 2: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(...", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(6)), (%mark(7)), (%mark(8)) }));
    form("m_tuple 3: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(...", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(6)), (%mark(7)), (%mark(8)), (%mark(9)), (%mark(10)), (%mark(11)), (%mark(12)), (%mark(13)), (%mark(14)), (%mark(15)) }));
    form("m_tuple 4: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(...", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(6)), (%mark(7)), (%mark(8)), (%mark(9)), (%mark(10)), (%mark(11)), (%mark(12)), (%mark(13)), (%mark(14)), (%mark(15)), (%mark(16)) }));
    form("m_tuple 5: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(...", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(6)), (%mark(7)), (%mark(8)), (%mark(9)), (%mark(10)), (%mark(11)), (%mark(12)), (%mark(13)), (%mark(14)), (%mark(15)), (%mark(16)), (%mark(17)), (%mark(18)), (%mark(19)), (%mark(20)), (%mark(21)), (%mark(22)), (%mark(23)), (%mark(24)), (%mark(25)), (%mark(26)), (%mark(27)), (%mark(28)), (%mark(29)), (%mark(30)), (%mark(31)), (%mark(32)) }));
    form("m_tuple 6: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(...", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(6)), (%mark(7)), (%mark(8)), (%mark(9)), (%mark(10)), (%mark(11)), (%mark(12)), (%mark(13)), (%mark(14)), (%mark(15)), (%mark(16)), (%mark(17)), (%mark(18)), (%mark(19)), (%mark(20)), (%mark(21)), (%mark(22)), (%mark(23)), (%mark(24)), (%mark(25)), (%mark(26)), (%mark(27)), (%mark(28)), (%mark(29)), (%mark(30)), (%mark(31)), (%mark(32)), (%mark(33)), (%mark(34)), (%mark(35)), (%mark(36)), (%mark(37)), (%mark(38)), (%mark(39)), (%mark(40)), (%mark(41)), (%mark(42)), (%mark(43)), (%mark(44)), (%mark(45)), (%mark(46)), (%mark(47)), (%mark(48)), (%mark(49)), (%mark(50)), (%mark(51)), (%mark(52)), (%mark(53)), (%mark(54)), (%mark(55)), (%mark(56)), (%mark(57)), (%mark(58)), (%mark(59)), (%mark(60)), (%mark(61)), (%mark(62)), (%mark(63)) }));
    form("m_tuple 7: tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(...", binschema::schema!(tuple { (%mark(0)), (%mark(1)), (%mark(2)), (%mark(3)), (%mark(4)), (%mark(5)), (%mark(6)), (%mark(7)), (%mark(8)), (%mark(9)), (%mark(10)), (%mark(11)), (%mark(12)), (%mark(13)), (%mark(14)), (%mark(15)), (%mark(16)), (%mark(17)), (%mark(18)), (%mark(19)), (%mark(20)), (%mark(21)), (%mark(22)), (%mark(23)), (%mark(24)), (%mark(25)), (%mark(26)), (%mark(27)), (%mark(28)), (%mark(29)), (%mark(30)), (%mark(31)), (%mark(32)), (%mark(33)), (%mark(34)), (%mark(35)), (%mark(36)), (%mark(37)), (%mark(38)), (%mark(39)), (%mark(40)), (%mark(41)), (%mark(42)), (%mark(43)), (%mark(44)), (%mark(45)), (%mark(46)), (%mark(47)), (%mark(48)), (%mark(49)), (%mark(50)), (%mark(51)), (%mark(52)), (%mark(53)), (%mark(54)), (%mark(55)), (%mark(56)), (%mark(57)), (%mark(58)), (%mark(59)), (%mark(60)), (%mark(61)), (%mark(62)), (%mark(63)), (%mark(64)) }));
}

pub fn m_struct() {
    form("m_struct 0: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)) }", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)) }));
    form("m_struct 1: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4))...", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4)), (n5: %mark(5)), (n6: %mark(6)), (n7: %mark(7)) }));
    form("m_struct 2: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4))...", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4)), (n5: %mark(5)), (n6: %mark(6)), (n7: %mark(7)), (n8: %mark(8)) }));
    form("m_struct 3: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4))...", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4)), (n5: %mark(5)), (n6: %mark(6)), (n7: %mark(7)), (n8: %mark(8)), (n9: %mark(9)), (n10: %mark(10)), (n11: %mark(11)), (n12: %mark(12)), (n13: %mark(13)), (n14: %mark(14)), (n15: %mark(15)) }));
    form("m_struct 4: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4))...", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4)), (n5: %mark(5)), (n6: %mark(6)), (n7: %mark(7)), (n8: %mark(8)), (n9: %mark(9)), (n10: %mark(10)), (n11: %mark(11)), (n12: %mark(12)), (n13: %mark(13)), (n14: %mark(14)), (n15: %mark(15)), (n16: %mark(16)) }));
    form("m_struct 5: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4))...", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4)), (n5: %mark(5)), (n6: %mark(6)), (n7: %mark(7)), (n8: %mark(8)), (n9: %mark(9)), (n10: %mark(10)), (n11: %mark(11)), (n12: %mark(12)), (n13: %mark(13)), (n14: %mark(14)), (n15: %mark(15)), (n16: %mark(16)), (n17: %mark(17)), (n18: %mark(18)), (n19: %mark(19)), (n20: %mark(20)), (n21: %mark(21)), (n22: %mark(22)), (n23: %mark(23)), (n24: %mark(24)), (n25: %mark(25)), (n26: %mark(26)), (n27: %mark(27)), (n28: %mark(28)), (n29: %mark(29)), (n30: %mark(30)), (n31: %mark(31)), (n32: %mark(32)) }));
    form("m_struct 6: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4))...", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4)), (n5: %mark(5)), (n6: %mark(6)), (n7: %mark(7)), (n8: %mark(8)), (n9: %mark(9)), (n10: %mark(10)), (n11: %mark(11)), (n12: %mark(12)), (n13: %mark(13)), (n14: %mark(14)), (n15: %mark(15)), (n16: %mark(16)), (n17: %mark(17)), (n18: %mark(18)), (n19: %mark(19)), (n20: %mark(20)), (n21: %mark(21)), (n22: %mark(22)), (n23: %mark(23)), (n24: %mark(24)), (n25: %mark(25)), (n26: %mark(26)), (n27: %mark(27)), (n28: %mark(28)), (n29: %mark(29)), (n30: %mark(30)), (n31: %mark(31)), (n32: %mark(32)), (n33: %mark(33)), (n34: %mark(34)), (n35: %mark(35)), (n36: %mark(36)), (n37: %mark(37)), (n38: %mark(38)), (n39: %mark(39)), (n40: %mark(40)), (n41: %mark(41)), (n42: %mark(42)), (n43: %mark(43)), (n44: %mark(44)), (n45: %mark(45)), (n46: %mark(46)), (n47: %mark(47)), (n48: %mark(48)), (n49: %mark(49)), (n50: %mark(50)), (n51: %mark(51)), (n52: %mark(52)), (n53: %mark(53)), (n54: %mark(54)), (n55: %mark(55)), (n56: %mark(56)), (n57: %mark(57)), (n58: %mark(58)), (n59: %mark(59)), (n60: %mark(60)), (n61: %mark(61)), (n62: %mark(62)), (n63: %mark(63)) }));
    form("m_struct 7: struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4))...", binschema::schema!(struct { (n0: %mark(0)), (n1: %mark(1)), (n2: %mark(2)), (n3: %mark(3)), (n4: %mark(4)), (n5: %mark(5)), (n6: %mark(6)), (n7: %mark(7)), (n8: %mark(8)), (n9: %mark(9)), (n10: %mark(10)), (n11: %mark(11)), (n12: %mark(12)), (n13: %mark(13)), (n14: %mark(14)), (n15: %mark(15)), (n16: %mark(16)), (n17: %mark(17)), (n18: %mark(18)), (n19: %mark(19)), (n20: %mark(20)), (n21: %mark(21)), (n22: %mark(22)), (n23: %mark(23)), (n24: %mark(24)), (n25: %mark(25)), (n26: %mark(26)), (n27: %mark(27)), (n28: %mark(28)), (n29: %mark(29)), (n30: %mark(30)), (n31: %mark(31)), (n32: %mark(32)), (n33: %mark(33)), (n34: %mark(34)), (n35: %mark(35)), (n36: %mark(36)), (n37: %mark(37)), (n38: %mark(38)), (n39: %mark(39)), (n40: %mark(40)), (n41: %mark(41)), (n42: %mark(42)), (n43: %mark(43)), (n44: %mark(44)), (n45: %mark(45)), (n46: %mark(46)), (n47: %mark(47)), (n48: %mark(48)), (n49: %mark(49)), (n50: %mark(50)), (n51: %mark(51)), (n52: %mark(52)), (n53: %mark(53)), (n54: %mark(54)), (n55: %mark(55)), (n56: %mark(56)), (n57: %mark(57)), (n58: %mark(58)), (n59: %mark(59)), (n60: %mark(60)), (n61: %mark(61)), (n62: %mark(62)), (n63: %mark(63)), (n64: %mark(64)) }));
}

pub fn m_enum() {
    form("m_enum 0: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), }", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), }));
    form("m_enum 1: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5...", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5)), N6(%mark(6)), N7(%mark(7)), }));
    form("m_enum 2: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5...", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5)), N6(%mark(6)), N7(%mark(7)), N8(%mark(8)), }));
    form("m_enum 3: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5...", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5)), N6(%mark(6)), N7(%mark(7)), N8(%mark(8)), N9(%mark(9)), N10(%mark(10)), N11(%mark(11)), N12(%mark(12)), N13(%mark(13)), N14(%mark(14)), N15(%mark(15)), }));
    form("m_enum 4: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5...", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5)), N6(%mark(6)), N7(%mark(7)), N8(%mark(8)), N9(%mark(9)), N10(%mark(10)), N11(%mark(11)), N12(%mark(12)), N13(%mark(13)), N14(%mark(14)), N15(%mark(15)), N16(%mark(16)), }));
    form("m_enum 5: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5...", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5)), N6(%mark(6)), N7(%mark(7)), N8(%mark(8)), N9(%mark(9)), N10(%mark(10)), N11(%mark(11)), N12(%mark(12)), N13(%mark(13)), N14(%mark(14)), N15(%mark(15)), N16(%mark(16)), N17(%mark(17)), N18(%mark(18)), N19(%mark(19)), N20(%mark(20)), N21(%mark(21)), N22(%mark(22)), N23(%mark(23)), N24(%mark(24)), N25(%mark(25)), N26(%mark(26)), N27(%mark(27)), N28(%mark(28)), N29(%mark(29)), N30(%mark(30)), N31(%mark(31)), N32(%mark(32)), }));
    form("m_enum 6: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5...", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5)), N6(%mark(6)), N7(%mark(7)), N8(%mark(8)), N9(%mark(9)), N10(%mark(10)), N11(%mark(11)), N12(%mark(12)), N13(%mark(13)), N14(%mark(14)), N15(%mark(15)), N16(%mark(16)), N17(%mark(17)), N18(%mark(18)), N19(%mark(19)), N20(%mark(20)), N21(%mark(21)), N22(%mark(22)), N23(%mark(23)), N24(%mark(24)), N25(%mark(25)), N26(%mark(26)), N27(%mark(27)), N28(%mark(28)), N29(%mark(29)), N30(%mark(30)), N31(%mark(31)), N32(%mark(32)), N33(%mark(33)), N34(%mark(34)), N35(%mark(35)), N36(%mark(36)), N37(%mark(37)), N38(%mark(38)), N39(%mark(39)), N40(%mark(40)), N41(%mark(41)), N42(%mark(42)), N43(%mark(43)), N44(%mark(44)), N45(%mark(45)), N46(%mark(46)), N47(%mark(47)), N48(%mark(48)), N49(%mark(49)), N50(%mark(50)), N51(%mark(51)), N52(%mark(52)), N53(%mark(53)), N54(%mark(54)), N55(%mark(55)), N56(%mark(56)), N57(%mark(57)), N58(%mark(58)), N59(%mark(59)), N60(%mark(60)), N61(%mark(61)), N62(%mark(62)), N63(%mark(63)), }));
    form("m_enum 7: enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5...", binschema::schema!(enum { N0(%mark(0)), N1(%mark(1)), N2(%mark(2)), N3(%mark(3)), N4(%mark(4)), N5(%mark(5)), N6(%mark(6)), N7(%mark(7)), N8(%mark(8)), N9(%mark(9)), N10(%mark(10)), N11(%mark(11)), N12(%mark(12)), N13(%mark(13)), N14(%mark(14)), N15(%mark(15)), N16(%mark(16)), N17(%mark(17)), N18(%mark(18)), N19(%mark(19)), N20(%mark(20)), N21(%mark(21)), N22(%mark(22)), N23(%mark(23)), N24(%mark(24)), N25(%mark(25)), N26(%mark(26)), N27(%mark(27)), N28(%mark(28)), N29(%mark(29)), N30(%mark(30)), N31(%mark(31)), N32(%mark(32)), N33(%mark(33)), N34(%mark(34)), N35(%mark(35)), N36(%mark(36)), N37(%mark(37)), N38(%mark(38)), N39(%mark(39)), N40(%mark(40)), N41(%mark(41)), N42(%mark(42)), N43(%mark(43)), N44(%mark(44)), N45(%mark(45)), N46(%mark(46)), N47(%mark(47)), N48(%mark(48)), N49(%mark(49)), N50(%mark(50)), N51(%mark(51)), N52(%mark(52)), N53(%mark(53)), N54(%mark(54)), N55(%mark(55)), N56(%mark(56)), N57(%mark(57)), N58(%mark(58)), N59(%mark(59)), N60(%mark(60)), N61(%mark(61)), N62(%mark(62)), N63(%mark(63)), N64(%mark(64)), }));
}

pub fn m_wide() {
    form("m_wide 0: tuple { (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (...", binschema::schema!(tuple { (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8) }));
    form("m_wide 1: struct { (n0: u8), (n1: u8), (n2: u8), (n3: u8), (n4: u8), (n5: u8), (n6: u8), (n7: u8)...", binschema::schema!(struct { (n0: u8), (n1: u8), (n2: u8), (n3: u8), (n4: u8), (n5: u8), (n6: u8), (n7: u8), (n8: u8), (n9: u8), (n10: u8), (n11: u8), (n12: u8), (n13: u8), (n14: u8), (n15: u8), (n16: u8), (n17: u8), (n18: u8), (n19: u8), (n20: u8), (n21: u8), (n22: u8), (n23: u8), (n24: u8), (n25: u8), (n26: u8), (n27: u8), (n28: u8), (n29: u8), (n30: u8), (n31: u8), (n32: u8), (n33: u8), (n34: u8), (n35: u8), (n36: u8), (n37: u8), (n38: u8), (n39: u8), (n40: u8), (n41: u8), (n42: u8), (n43: u8), (n44: u8), (n45: u8), (n46: u8), (n47: u8), (n48: u8), (n49: u8), (n50: u8), (n51: u8), (n52: u8), (n53: u8), (n54: u8), (n55: u8), (n56: u8), (n57: u8), (n58: u8), (n59: u8), (n60: u8), (n61: u8), (n62: u8), (n63: u8), (n64: u8), (n65: u8), (n66: u8), (n67: u8), (n68: u8), (n69: u8), (n70: u8), (n71: u8), (n72: u8), (n73: u8), (n74: u8), (n75: u8), (n76: u8), (n77: u8), (n78: u8), (n79: u8), (n80: u8), (n81: u8), (n82: u8), (n83: u8), (n84: u8), (n85: u8), (n86: u8), (n87: u8), (n88: u8), (n89: u8), (n90: u8), (n91: u8), (n92: u8), (n93: u8), (n94: u8), (n95: u8), (n96: u8), (n97: u8), (n98: u8), (n99: u8), (n100: u8), (n101: u8), (n102: u8), (n103: u8), (n104: u8), (n105: u8), (n106: u8), (n107: u8), (n108: u8), (n109: u8), (n110: u8), (n111: u8), (n112: u8), (n113: u8), (n114: u8), (n115: u8), (n116: u8), (n117: u8), (n118: u8), (n119: u8), (n120: u8), (n121: u8), (n122: u8), (n123: u8), (n124: u8), (n125: u8), (n126: u8), (n127: u8), (n128: u8), (n129: u8), (n130: u8), (n131: u8), (n132: u8), (n133: u8), (n134: u8), (n135: u8), (n136: u8), (n137: u8), (n138: u8), (n139: u8), (n140: u8), (n141: u8), (n142: u8), (n143: u8), (n144: u8), (n145: u8), (n146: u8), (n147: u8), (n148: u8), (n149: u8), (n150: u8), (n151: u8), (n152: u8), (n153: u8), (n154: u8), (n155: u8), (n156: u8), (n157: u8), (n158: u8), (n159: u8), (n160: u8), (n161: u8), (n162: u8), (n163: u8), (n164: u8), (n165: u8), (n166: u8), (n167: u8), (n168: u8), (n169: u8), (n170: u8), (n171: u8), (n172: u8), (n173: u8), (n174: u8), (n175: u8), (n176: u8), (n177: u8), (n178: u8), (n179: u8), (n180: u8), (n181: u8), (n182: u8), (n183: u8), (n184: u8), (n185: u8), (n186: u8), (n187: u8), (n188: u8), (n189: u8), (n190: u8), (n191: u8), (n192: u8), (n193: u8), (n194: u8), (n195: u8), (n196: u8), (n197: u8), (n198: u8), (n199: u8), (n200: u8), (n201: u8), (n202: u8), (n203: u8), (n204: u8), (n205: u8), (n206: u8), (n207: u8), (n208: u8), (n209: u8), (n210: u8), (n211: u8), (n212: u8), (n213: u8), (n214: u8), (n215: u8), (n216: u8), (n217: u8), (n218: u8), (n219: u8), (n220: u8), (n221: u8), (n222: u8), (n223: u8), (n224: u8), (n225: u8), (n226: u8), (n227: u8), (n228: u8), (n229: u8), (n230: u8), (n231: u8), (n232: u8), (n233: u8), (n234: u8), (n235: u8), (n236: u8), (n237: u8), (n238: u8), (n239: u8), (n240: u8), (n241: u8), (n242: u8), (n243: u8), (n244: u8), (n245: u8), (n246: u8), (n247: u8), (n248: u8), (n249: u8), (n250: u8), (n251: u8), (n252: u8), (n253: u8), (n254: u8), (n255: u8), (n256: u8), (n257: u8), (n258: u8), (n259: u8) }));
    form("m_wide 2: enum { N0(unit), N1(unit), N2(unit), N3(unit), N4(unit), N5(unit), N6(unit), N7(unit), ...", binschema::schema!(enum { N0(unit), N1(unit), N2(unit), N3(unit), N4(unit), N5(unit), N6(unit), N7(unit), N8(unit), N9(unit), N10(unit), N11(unit), N12(unit), N13(unit), N14(unit), N15(unit), N16(unit), N17(unit), N18(unit), N19(unit), N20(unit), N21(unit), N22(unit), N23(unit), N24(unit), N25(unit), N26(unit), N27(unit), N28(unit), N29(unit), N30(unit), N31(unit), N32(unit), N33(unit), N34(unit), N35(unit), N36(unit), N37(unit), N38(unit), N39(unit), N40(unit), N41(unit), N42(unit), N43(unit), N44(unit), N45(unit), N46(unit), N47(unit), N48(unit), N49(unit), N50(unit), N51(unit), N52(unit), N53(unit), N54(unit), N55(unit), N56(unit), N57(unit), N58(unit), N59(unit), N60(unit), N61(unit), N62(unit), N63(unit), N64(unit), N65(unit), N66(unit), N67(unit), N68(unit), N69(unit), N70(unit), N71(unit), N72(unit), N73(unit), N74(unit), N75(unit), N76(unit), N77(unit), N78(unit), N79(unit), N80(unit), N81(unit), N82(unit), N83(unit), N84(unit), N85(unit), N86(unit), N87(unit), N88(unit), N89(unit), N90(unit), N91(unit), N92(unit), N93(unit), N94(unit), N95(unit), N96(unit), N97(unit), N98(unit), N99(unit), N100(unit), N101(unit), N102(unit), N103(unit), N104(unit), N105(unit), N106(unit), N107(unit), N108(unit), N109(unit), N110(unit), N111(unit), N112(unit), N113(unit), N114(unit), N115(unit), N116(unit), N117(unit), N118(unit), N119(unit), N120(unit), N121(unit), N122(unit), N123(unit), N124(unit), N125(unit), N126(unit), N127(unit), N128(unit), N129(unit), N130(unit), N131(unit), N132(unit), N133(unit), N134(unit), N135(unit), N136(unit), N137(unit), N138(unit), N139(unit), N140(unit), N141(unit), N142(unit), N143(unit), N144(unit), N145(unit), N146(unit), N147(unit), N148(unit), N149(unit), N150(unit), N151(unit), N152(unit), N153(unit), N154(unit), N155(unit), N156(unit), N157(unit), N158(unit), N159(unit), N160(unit), N161(unit), N162(unit), N163(unit), N164(unit), N165(unit), N166(unit), N167(unit), N168(unit), N169(unit), N170(unit), N171(unit), N172(unit), N173(unit), N174(unit), N175(unit), N176(unit), N177(unit), N178(unit), N179(unit), N180(unit), N181(unit), N182(unit), N183(unit), N184(unit), N185(unit), N186(unit), N187(unit), N188(unit), N189(unit), N190(unit), N191(unit), N192(unit), N193(unit), N194(unit), N195(unit), N196(unit), N197(unit), N198(unit), N199(unit), N200(unit), N201(unit), N202(unit), N203(unit), N204(unit), N205(unit), N206(unit), N207(unit), N208(unit), N209(unit), N210(unit), N211(unit), N212(unit), N213(unit), N214(unit), N215(unit), N216(unit), N217(unit), N218(unit), N219(unit), N220(unit), N221(unit), N222(unit), N223(unit), N224(unit), N225(unit), N226(unit), N227(unit), N228(unit), N229(unit), N230(unit), N231(unit), N232(unit), N233(unit), N234(unit), N235(unit), N236(unit), N237(unit), N238(unit), N239(unit), N240(unit), N241(unit), N242(unit), N243(unit), N244(unit), N245(unit), N246(unit), N247(unit), N248(unit), N249(unit), N250(unit), N251(unit), N252(unit), N253(unit), N254(unit), N255(unit), N256(unit), N257(unit), N258(unit), N259(unit) }));
}

pub fn d_deep() {
    form("d_deep 0: seq(3)(seq(varlen)(option(option(recurse(1)))))", binschema::schema!(seq(3)(seq(varlen)(option(option(recurse(1)))))));
    form("d_deep 1: tuple { (seq(2 * LEN)(seq(varlen)(recurse(1)))), }", binschema::schema!(tuple { (seq(2 * LEN)(seq(varlen)(recurse(1)))), }));
    form("d_deep 2: tuple { (%mark(7)), (%mark(8)), (tuple { (seq(3)(recurse(1))), }) }", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (seq(3)(recurse(1))), }) }));
    form("d_deep 3: enum { Name(struct { (name: tuple { (recurse(1)) }) }) }", binschema::schema!(enum { Name(struct { (name: tuple { (recurse(1)) }) }) }));
    form("d_deep 4: %binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (recurse(...", binschema::schema!(%binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (recurse(1)), (%mark(8)), (%mark(9)) }) }))));
    form("d_deep 5: struct { (name: option(struct { (name: recurse(1)), })), }", binschema::schema!(struct { (name: option(struct { (name: recurse(1)), })), }));
    form("d_deep 6: tuple { (seq(2 * LEN)(seq(3)(seq(varlen)(option(option(recurse(1))))))) }", binschema::schema!(tuple { (seq(2 * LEN)(seq(3)(seq(varlen)(option(option(recurse(1))))))) }));
    form("d_deep 7: struct { (name: tuple { (%mark(7)), (tuple { (seq(2 * LEN)(seq(varlen)(recurse(1)))), }...", binschema::schema!(struct { (name: tuple { (%mark(7)), (tuple { (seq(2 * LEN)(seq(varlen)(recurse(1)))), }), (%mark(9)), }) }));
    form("d_deep 8: enum { Name(struct { (x: tuple { (%mark(7)), (%mark(8)), (tuple { (seq(3)(recurse(1))),...", binschema::schema!(enum { Name(struct { (x: tuple { (%mark(7)), (%mark(8)), (tuple { (seq(3)(recurse(1))), }) }), (y: %mark(8)), (z: %mark(9)) }) }));
    form("d_deep 9: seq(3)(%binschema::schema!(enum { Name(struct { (name: tuple { (recurse(1)) }) }) }))", binschema::schema!(seq(3)(%binschema::schema!(enum { Name(struct { (name: tuple { (recurse(1)) }) }) }))));
    form("d_deep 10: struct { (z: %mark(7)), (y: tuple { (%binschema::schema!(option(struct { (b: %mark(7)),...", binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (recurse(1)), (%mark(8)), (%mark(9)) }) }))), }), (x: %mark(9)), }));
    form("d_deep 11: struct { (name: option(struct { (name: option(struct { (name: recurse(1)), })), })), }", binschema::schema!(struct { (name: option(struct { (name: option(struct { (name: recurse(1)), })), })), }));
    form("d_deep 12: tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(7)), (tuple { (tuple { (tuple { (seq(2 ...", binschema::schema!(tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(7)), (tuple { (tuple { (tuple { (seq(2 * LEN)(seq(3)(seq(varlen)(option(option(recurse(1))))))) }), }), (%mark(8)), (%mark(9)) }), (%mark(9)), }) }));
    form("d_deep 13: enum { Z(%mark(7)), Y(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (...", binschema::schema!(enum { Z(%mark(7)), Y(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (x: struct { (name: tuple { (%mark(7)), (tuple { (seq(2 * LEN)(seq(varlen)(recurse(1)))), }), (%mark(9)), }) }), (y: %mark(8)), (z: %mark(9)) }) }), }), X(%mark(9)), }));
    form("d_deep 14: tuple { (seq(varlen)(%binschema::schema!(option(enum { Z(%mark(7)), Y(enum { Name(struc...", binschema::schema!(tuple { (seq(varlen)(%binschema::schema!(option(enum { Z(%mark(7)), Y(enum { Name(struct { (x: tuple { (%mark(7)), (%mark(8)), (tuple { (seq(3)(recurse(1))), }) }), (y: %mark(8)), (z: %mark(9)) }) }), X(%mark(9)), })))) }));
    form("d_deep 15: option(option(enum { Z(%mark(7)), Y(struct { (z: %mark(7)), (y: tuple { (%mark(7)), (se...", binschema::schema!(option(option(enum { Z(%mark(7)), Y(struct { (z: %mark(7)), (y: tuple { (%mark(7)), (seq(3)(%binschema::schema!(enum { Name(struct { (name: tuple { (recurse(1)) }) }) }))), (%mark(9)), }), (x: %mark(9)), }), X(%mark(9)), }))));
    form("d_deep 16: enum { B(%mark(7)), A(%mark(8)), C(struct { (x: tuple { (%binschema::schema!(struct { (...", binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(struct { (x: tuple { (%binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (recurse(1)), (%mark(8)), (%mark(9)) }) }))), }), (x: %mark(9)), })) }), (y: %mark(8)), (z: %mark(9)) }) }));
    form("d_deep 17: struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: op...", binschema::schema!(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: recurse(1)), })), })), })), })), }));
    form("d_deep 18: %binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { Z(%mark(7)), Y(enum { X(e...", binschema::schema!(%binschema::schema!(enum { B(%mark(7)), A(%mark(8)), C(enum { Z(%mark(7)), Y(enum { X(enum { Name(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (z: %mark(7)), (y: struct { (x: struct { (name: struct { (name: tuple { (%mark(7)), (%mark(8)), (tuple { (%mark(7)), (tuple { (tuple { (tuple { (seq(2 * LEN)(seq(3)(seq(varlen)(option(option(recurse(1))))))) }), }), (%mark(8)), (%mark(9)) }), (%mark(9)), }) }) }), }), (y: %mark(8)), (z: %mark(9)) }), (x: %mark(9)), }) }) }), }), Y(%mark(8)), Z(%mark(9)) }), X(%mark(9)), }) })));
    form("d_deep 19: enum { Z(%mark(7)), Y(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (...", binschema::schema!(enum { Z(%mark(7)), Y(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (x: struct { (name: tuple { (%mark(7)), (tuple { (seq(2 * LEN)(seq(varlen)(option(%binschema::schema!(enum { Z(%mark(7)), Y(enum { Name(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (x: struct { (name: tuple { (%mark(7)), (tuple { (seq(2 * LEN)(seq(varlen)(recurse(1)))), }), (%mark(9)), }) }), (y: %mark(8)), (z: %mark(9)) }) }), }), X(%mark(9)), }))))), }), (%mark(9)), }) }), (y: %mark(8)), (z: %mark(9)) }) }), }), X(%mark(9)), }));
    form("d_deep 20: enum { Name(struct { (z: %mark(7)), (y: struct { (name: tuple { (seq(2 * LEN)(option(op...", binschema::schema!(enum { Name(struct { (z: %mark(7)), (y: struct { (name: tuple { (seq(2 * LEN)(option(option(%binschema::schema!(enum { X(struct { (b: %mark(7)), (a: %mark(8)), (c: struct { (name: tuple { (%mark(7)), (tuple { (seq(varlen)(%binschema::schema!(option(enum { Z(%mark(7)), Y(enum { Name(struct { (x: tuple { (%mark(7)), (%mark(8)), (tuple { (seq(3)(recurse(1))), }) }), (y: %mark(8)), (z: %mark(9)) }) }), X(%mark(9)), })))) }), (%mark(9)), }), }) }), Y(%mark(8)), Z(%mark(9)) }))))), (%mark(8)), (%mark(9)) }) }), (x: %mark(9)), }), }));
    form("d_deep 21: struct { (x: tuple { (seq(varlen)(enum { B(%mark(7)), A(%mark(8)), C(struct { (b: %mark...", binschema::schema!(struct { (x: tuple { (seq(varlen)(enum { B(%mark(7)), A(%mark(8)), C(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (%mark(7)), (%mark(8)), (seq(2 * LEN)(%binschema::schema!(option(enum { Name(struct { (name: tuple { (option(option(enum { Z(%mark(7)), Y(struct { (z: %mark(7)), (y: tuple { (%mark(7)), (seq(3)(%binschema::schema!(enum { Name(struct { (name: tuple { (recurse(1)) }) }) }))), (%mark(9)), }), (x: %mark(9)), }), X(%mark(9)), }))), }), }), })))) }) }) })), (%mark(8)), (%mark(9)) }), (y: %mark(8)), (z: %mark(9)) }));
    form("d_deep 22: tuple { (%mark(7)), (option(option(enum { Name(tuple { (%mark(7)), (%mark(8)), (seq(var...", binschema::schema!(tuple { (%mark(7)), (option(option(enum { Name(tuple { (%mark(7)), (%mark(8)), (seq(varlen)(enum { X(struct { (name: seq(3)(enum { Z(%mark(7)), Y(struct { (name: seq(2 * LEN)(enum { B(%mark(7)), A(%mark(8)), C(struct { (x: tuple { (%binschema::schema!(struct { (z: %mark(7)), (y: tuple { (%binschema::schema!(option(struct { (b: %mark(7)), (a: %mark(8)), (c: tuple { (recurse(1)), (%mark(8)), (%mark(9)) }) }))), }), (x: %mark(9)), })) }), (y: %mark(8)), (z: %mark(9)) }) })), }), X(%mark(9)), })) }), Y(%mark(8)), Z(%mark(9)) })) }), }))), (%mark(9)), }));
    form("d_deep 23: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (n...", binschema::schema!(option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: option(struct { (name: recurse(1)), })), })), })), })), })), })), })), })), })), })));
    form("d_deep 24: option(option(option(option(option(option(option(option(option(option(option(option(opt...", binschema::schema!(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(option(bytes))))))))))))))))))))))))))))))))))))))))));
}

macro_rules! field { ($n:ident, $($t:tt)*) => { binschema::schema!(struct { ($n: $($t)*), (rest: option($($t)*)) }) } }
macro_rules! variant { ($n:ident, $t:tt, $e:expr) => { binschema::schema!(enum { $n($t), Other(seq($e)(%$e.of())) }) } }
macro_rules! many { ($($n:ident $t:tt)*) => { binschema::schema!(struct { $(($n: $t)),* }) } }
trait Of { fn of(self) -> binschema::Schema; }
impl Of for usize { fn of(self) -> binschema::Schema { binschema::schema!(recurse(self)) } }

pub fn v_macros() {
    form("v_macros: field!(a, seq(4)(u8))", field!(a, seq(4)(u8)));
    form("v_macros: field!(type, tuple { (u8), (str) })", field!(type, tuple { (u8), (str) }));
    form("v_macros: variant!(A, unit, 3usize)", variant!(A, unit, 3usize));
    form("v_macros: many!(a u8 b str c unit)", many!(a u8 b str c unit));
    form("v_macros: many!()", many!());
}

pub fn v_imported() {
    use binschema::schema;
    use binschema::schema as form_of;
    form("v_imported: 1", schema!(option(u8)));
    form("v_imported: 2", form_of! { seq(varlen)(str) });
    form("v_imported: 3", schema![tuple { (u8), (str) }]);
    let s = mark(3);
    form("v_imported: 4", schema!(%s));
    let f = || mark(4);
    form("v_imported: 5", schema!(enum { A(%f()), B(%mark(5)) }));
}
