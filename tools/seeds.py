"""The planted bugs: (id, property, file, [(old, new)], needs, what it breaks, demo program)."""
E='binschema/src/encoder.rs'; D='binschema/src/decoder.rs'; C='binschema/src/coder/coder.rs'; V='binschema/src/var_len.rs'
A='binschema/src/coder/coder_alloc.rs'; ER='binschema/src/error.rs'; DO='binschema/src/do_if_err.rs'
S = []
PRE = r'''#![allow(unused_imports, unused_macros, dead_code, unused_mut, unused_variables)]
use binschema::{*, error::{Error, ErrorKind}, value::Value};
use std::io::{self, Read, Write};
fn check(what: &str, ok: bool) {
    if !ok {
        eprintln!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
fn kind<T>(r: Result<T, Error>) -> Option<ErrorKind> {
    r.err().map(|e| e.kind())
}
'''
def s(id, prop, f, needs, breaks, main, *subs):
    S.append((id, prop, f, list(subs), needs, breaks, PRE + main))

s('c01-struct-256', 'C01', C, 'a struct schema of 256 or more fields, finished too early',
  'finish_struct accepts a struct whose last 256 fields were never coded', r'''
fn main() {
    let schema = Schema::Struct((0..256).map(|i| StructSchemaField { name: format!("f{}", i), inner: Schema::Scalar(ScalarType::U8) }).collect());
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, &mut out);
    e.begin_struct().unwrap();
    let r = e.finish_struct();
    check("a struct of 256 fields finished without coding any", kind(r) == Some(ErrorKind::SchemaNonConformance));
}
''', ("fields.len() == next,", "fields.len() as u8 == next as u8,"))

s('c01-autofinish-depth', 'C01', C, 'an option nested more than sixteen levels deep',
  'options nested deeply are never finished', r'''
fn main() {
    for depth in [1usize, 5, 16, 17, 18, 40] {
        let mut schema = Schema::Scalar(ScalarType::U8);
        for _ in 0..depth { schema = Schema::Option(Box::new(schema)); }
        let mut out = Vec::new();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        {
            let mut e = Encoder::new(&mut st, &mut out);
            for _ in 0..depth { e.begin_some().unwrap(); }
            e.encode_u8(7).unwrap();
        }
        check("nested options not finished", st.is_finished());
    }
}
''', ("""        self.stack.pop().unwrap();
        while matches!(
            self.stack.iter().rev().next(),
            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })
        ) {
            dbg_log_pop!(self, "auto finish");
            self.stack.pop().unwrap();
""", """        self.stack.pop().unwrap();
        let mut budget = 16;
        while budget > 0 && matches!(
            self.stack.iter().rev().next(),
            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })
        ) {
            dbg_log_pop!(self, "auto finish");
            self.stack.pop().unwrap();
            budget -= 1;
"""))

s('c02-field-advance', 'C02', C, 'a refused begin_struct_field (wrong name) followed by the right one',
  'a refused field name moves the struct on to the next field', r'''
fn main() {
    let f = |n: &str| StructSchemaField { name: n.into(), inner: Schema::Scalar(ScalarType::U8) };
    let schema = Schema::Struct(vec![f("a"), f("b")]);
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, &mut out);
    e.begin_struct().unwrap();
    check("wrong name", kind(e.begin_struct_field("x")) == Some(ErrorKind::SchemaNonConformance));
    check("the right name after a refused one", e.begin_struct_field("a").is_ok());
    e.encode_u8(1).unwrap();
    check("second field", e.begin_struct_field("b").is_ok());
}
''', ("""        ensure!(
            &field.name == name,""", """        *next += 1;
        ensure!(
            &field.name == name,"""), ("""            field.name,
            name,
        );
        *next += 1;
""", """            field.name,
            name,
        );
"""))

s('c02-bool-early-read', 'C02', D, 'decode_bool called while another schema is needed',
  'a refused decode_bool consumes a byte of the input', r'''
fn main() {
    let schema = Schema::Scalar(ScalarType::U8);
    let mut input: &[u8] = &[1, 2, 3];
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut st, &mut input);
    check("bool for u8", kind(d.decode_bool()) == Some(ErrorKind::SchemaNonConformance));
    check("u8 after the refused bool", d.decode_u8().ok() == Some(1));
}
''', ("""        self.state.code_bool()?;
        let [n] = self.read([0])?;""", """        let n = match self.state.code_bool() {
            Ok(()) => { let [n] = self.read([0])?; n }
            Err(e) if e.kind() == crate::error::ErrorKind::SchemaNonConformance => { let [_skipped] = self.read([0])?; return Err(e) }
            Err(e) => return Err(e),
        };"""))

s('c03-str-unmarked', 'C03', E, 'a writer that fails while the contents of a string are written',
  'after the writer failed within a string the encoder is reported as finished', r'''
struct Fail(usize);
impl Write for Fail {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 { return Err(io::Error::new(io::ErrorKind::Other, "full")) }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let schema = Schema::Str;
    let mut w = Fail(1);
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    check("io", kind(Encoder::new(&mut st, &mut w).encode_str("hello")) == Some(ErrorKind::Io));
    check("finished after a failed write", !st.is_finished());
}
''', ("        self.write(s.as_bytes())?;", "        self.write.write_all(s.as_bytes())?;"))

s('c04-ord-256', 'C04', V, 'an enum schema of exactly 256 (or 65536) variants',
  'enum ordinals take one byte more than the greatest ordinal needs; both directions agree', r'''
fn main() {
    for (n, len) in [(1usize, 0usize), (2, 1), (255, 1), (256, 1), (257, 2), (65536, 2), (65537, 3)] {
        let schema = Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: format!("v{}", i), inner: Schema::Unit }).collect());
        let mut out = Vec::new();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut e = Encoder::new(&mut st, &mut out);
        e.begin_enum(n - 1, &format!("v{}", n - 1)).unwrap();
        e.encode_unit().unwrap();
        check(&format!("ordinal of {} variants takes {} bytes", n, out.len()), out.len() == len);
    }
}
''', ("""    let byte_len = ord_byte_len(num_variants - 1);
    let used_bytes = &all_bytes[..byte_len];""", """    let byte_len = ord_byte_len(if num_variants == 1 { 0 } else { num_variants });
    let used_bytes = &all_bytes[..byte_len];"""), ("""    let byte_len = ord_byte_len(num_variants - 1);
    let used_bytes = &mut all_bytes[..byte_len];""", """    let byte_len = ord_byte_len(if num_variants == 1 { 0 } else { num_variants });
    let used_bytes = &mut all_bytes[..byte_len];"""))

s('c04-len-u32', 'C04', E, 'a seq of 2^32 or more elements (the length alone shows it)',
  'the element count of a huge seq is written modulo 2^32', r'''
fn main() {
    let schema = Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Unit) });
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, &mut out);
    e.begin_var_len_seq(1usize << 32).unwrap();
    check("length 2^32", out == [0x80, 0x80, 0x80, 0x80, 0x10]);
}
''', ("        write_var_len_uint(&mut self.write, len as u128)", "        write_var_len_uint(&mut self.write, len as u32 as u128)"))

s('c05-short-read', 'C05', D, 'a reader that returns fewer bytes than asked for',
  'fixed-width integers are decoded from partly filled buffers', r'''
struct Chunk<'a>(&'a [u8]);
impl<'a> Read for Chunk<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() || self.0.is_empty() { return Ok(0) }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
fn main() {
    let schema = Schema::Scalar(ScalarType::F64);
    let bytes = 1234.5678f64.to_le_bytes();
    let mut r = Chunk(&bytes);
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    check("f64 through a reader of single bytes", Decoder::new(&mut st, &mut r).decode_f64().ok() == Some(1234.5678));
}
''', ("""            .read_exact(buf.borrow_mut())
""", """            .read(buf.borrow_mut())
"""))

s('c05-sint-shift', 'C05', V, 'an i128 of more than 118 bits, negative or positive',
  'bits above the 118th of signed integers are decoded at the wrong place', r'''
fn main() {
    for n in [0i128, -1, i64::MIN as i128, 1 << 117, -(1 << 117), 3 << 117, i128::MAX, i128::MIN, i128::MAX / 3] {
        let schema = Schema::Scalar(ScalarType::I128);
        let mut out = Vec::new();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        Encoder::new(&mut st, &mut out).encode_i128(n).unwrap();
        let mut input = &out[..];
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        check(&format!("round trip of {}", n), Decoder::new(&mut st, &mut input).decode_i128().ok() == Some(n));
    }
}
''', ("""    let mut shift = 6;

    while more {""", """    let mut shift = 6u32;

    while more {"""), ("""        let bits = (curr_byte & LO_7_BITS) as i128;""", """        let shift_now = shift - (shift > 118) as u32;
        let bits = ((curr_byte & LO_7_BITS) as i128) >> (shift - shift_now);"""))

s('c06-ord-pow2', 'C06', V, 'an enum schema whose variant count is no power of two and a message with an ordinal past it',
  'ordinals beyond the last variant are not refused as malformed data', r'''
fn main() {
    let schema = Schema::Enum(["a", "b", "c"].iter().map(|n| EnumSchemaVariant { name: n.to_string(), inner: Schema::Unit }).collect());
    for ord in 3u8..=255 {
        let bytes = [ord];
        let mut input = &bytes[..];
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let r = Decoder::new(&mut st, &mut input).begin_enum();
        check(&format!("ordinal {} of 3: {:?}", ord, r), kind(r) == Some(ErrorKind::MalformedData));
    }
}
''', ("        ord < num_variants as u64,", "        ord < num_variants.next_power_of_two() as u64,"))

s('c06-surrogate', 'C06', D, 'a char encoded as a number in the surrogate range',
  'surrogates decode to the replacement character', r'''
fn main() {
    let schema = Schema::Scalar(ScalarType::Char);
    for n in [0xd800u32, 0xdabc, 0xdfff, 0x110000] {
        let bytes = [(n & 127) as u8 | 128, (n >> 7 & 127) as u8 | 128, (n >> 14) as u8];
        let mut input = &bytes[..];
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let r = Decoder::new(&mut st, &mut input).decode_char();
        check(&format!("{:x}: {:?}", n, r), kind(r) == Some(ErrorKind::MalformedData));
    }
}
''', ("        char::from_u32(n)\n", "        char::from_u32(if n >> 11 == 0x1b { 0xfffd } else { n })\n"))

s('c07-tuple-index', 'C07', C, 'one more begin_tuple_elem than the tuple has elements',
  'beginning an element past the end of a tuple panics', r'''
fn main() {
    let schema = Schema::Tuple(vec![Schema::Unit]);
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, &mut out);
    e.begin_tuple().unwrap();
    e.begin_tuple_elem().unwrap();
    e.encode_unit().unwrap();
    check("element past the end", kind(e.begin_tuple_elem()) == Some(ErrorKind::SchemaNonConformance));
}
''', ("""            .get(*next);
        let inner_schema =
            match inner_schema {""", """            .get(*next..)
            .map(|rest| &rest[0]);
        let inner_schema =
            match inner_schema {"""))

s('c07-uninhabited', 'C07', V, 'decoding an enum without variants',
  'an enum without variants makes the decoder panic', r'''
fn main() {
    let schema = Schema::Enum(vec![]);
    let mut input: &[u8] = &[0];
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    check("uninhabited enum", kind(Decoder::new(&mut st, &mut input).begin_enum()) == Some(ErrorKind::MalformedData));
}
''', ("""    ensure!(
        num_variants > 0,
        MalformedData,
        None,
        "presence of uninhabited enum",
    );
    let mut all_bytes = [0; 8];
    let byte_len = ord_byte_len(num_variants - 1);""", """    let mut all_bytes = [0; 8];
    let byte_len = ord_byte_len(num_variants - 1);
    ensure!(
        num_variants > 0,
        MalformedData,
        None,
        "presence of uninhabited enum",
    );"""))

ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering::SeqCst};
struct Watch;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); if l.size() > 1 << 30 { return std::ptr::null_mut() } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); if l.size() > 1 << 30 { return std::ptr::null_mut() } System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { MAX.fetch_max(n, SeqCst); if n > 1 << 30 { return std::ptr::null_mut() } System.realloc(p, l, n) }
}
#[global_allocator]
static G: Watch = Watch;
'''
s('c08-bytes-reserve', 'C08', D, 'a short message that declares a byte string of many megabytes',
  'the declared length of a byte string is reserved before any of it is read', ALLOC + r'''
fn main() {
    let schema = Schema::Bytes;
    let bytes = [0xff, 0xff, 0xff, 0x3f, 1, 2];
    let mut input = &bytes[..];
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    MAX.store(0, SeqCst);
    let r = Decoder::new(&mut st, &mut input).decode_bytes();
    check("end of input", kind(r) == Some(ErrorKind::Io));
    check(&format!("{} bytes allocated for 6 bytes of input", MAX.load(SeqCst)), MAX.load(SeqCst) < 1 << 20);
}
''', ("        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n", "        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n        if buf.capacity() < len { buf.reserve_exact(len.min(isize::MAX as usize)); }\n"),
  ("        // always clear the buf, for consistency\n        buf.clear();\n\n        self.state.code_bytes()?;", "        self.state.code_bytes().do_if_err(|| buf.clear())?;\n        buf.clear();"))

s('c09-level-zero', 'C09', C, 'a schema with a recurse of level 0',
  'a recurse of level 0 is taken for one of level 1', r'''
fn main() {
    let schema = Schema::Option(Box::new(Schema::Recurse(0)));
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, &mut out);
    check("recurse of level 0", kind(e.begin_some()) == Some(ErrorKind::IllegalSchema));
}
''', ("            if n == 0 {", "            if n.max(1) == 0 {"))

WATCH2 = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering::SeqCst};
struct Watch;
static BAD: AtomicBool = AtomicBool::new(false);
static LIVE: [[AtomicUsize; 2]; 4096] = { const Z: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2]; [Z; 4096] };
fn put(p: *mut u8, n: usize) { for s in &LIVE { if s[0].compare_exchange(0, p as usize, SeqCst, SeqCst).is_ok() { s[1].store(n, SeqCst); return } } }
fn take(p: *mut u8, n: usize) -> bool { for s in &LIVE { if s[0].load(SeqCst) == p as usize { let ok = s[1].load(SeqCst) == n; s[1].store(0, SeqCst); s[0].store(0, SeqCst); return ok } } false }
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); put(p, l.size()); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if take(p, l.size()) { System.dealloc(p, l) } else { BAD.store(true, SeqCst) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !take(p, l.size()) { BAD.store(true, SeqCst); return self.alloc(Layout::from_size_align_unchecked(n, l.align())) }
        let q = System.realloc(p, l, n); put(q, n); q
    }
}
#[global_allocator]
static G: Watch = Watch;
'''
s('c15-clone', 'C15', A, 'cloning a recycled allocation and dropping both',
  'a cloned allocation shares its buffer with the original, which is freed twice', WATCH2 + r'''
fn main() {
    let schema = Schema::Option(Box::new(Schema::Unit));
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    Encoder::new(&mut st, &mut out).begin_some().unwrap();
    let a = st.into_alloc();
    let b = a.clone();
    drop(a);
    drop(b);
    check("a buffer was freed twice", !BAD.load(SeqCst));
}
''', ("""    fn clone(&self) -> Self {
        CoderStateAlloc::new()""", """    fn clone(&self) -> Self {
        CoderStateAlloc { ptr: self.ptr, capacity: self.capacity }"""))

s('c15-capacity', 'C15', A, 'recycling an allocation that has grown, with an allocator that checks sizes',
  'a recycled buffer is rebuilt with a capacity that is not its own', WATCH2 + r'''
fn main() {
    let mut schema = Schema::Unit;
    for _ in 0..3 { schema = Schema::Option(Box::new(schema)); }
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    {
        let mut e = Encoder::new(&mut st, &mut out);
        for _ in 0..3 { e.begin_some().unwrap(); }
    }
    drop(st.into_alloc());
    check("a buffer was freed with another size than its own", !BAD.load(SeqCst));
}
''', ("        let capacity = stack.capacity();", "        let capacity = stack.capacity() - (stack.capacity() >= 4) as usize;"))

LOG = r'''
#[derive(Clone, Default)]
struct Log(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
'''
s('c16-tuple-open', 'C16', C, 'a debug log and a tuple that is finished',
  'the line that opens a tuple is never closed and the indentation drifts', LOG + r'''
fn main() {
    let schema = Schema::Tuple(vec![]);
    let mut log = Log::default();
    let copy = log.clone();
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), Some(&mut log));
    let mut e = Encoder::new(&mut st, &mut out);
    e.begin_tuple().unwrap();
    e.finish_tuple().unwrap();
    let text = String::from_utf8(copy.0.borrow().clone()).unwrap();
    let open = text.lines().filter(|l| { let l = l.trim(); !l.starts_with("</") && !l.ends_with("/>") }).count();
    let close = text.lines().filter(|l| l.trim().starts_with("</")).count();
    check(&format!("{} opened, {} closed", open, close), open == close);
}
''', ('        dbg_log_pop!(self, "tuple");', '        dbg_log!(self, "tuple end");'))

s('c16-log-fails', 'C16', C, 'a debug log whose writer fails',
  'a failing log breaks the coder: results with and without a log differ', r'''
struct Fail;
impl Write for Fail {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, "no log")) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let schema = Schema::Tuple(vec![Schema::Scalar(ScalarType::U8)]);
    let mut log = Fail;
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), Some(&mut log));
    {
        let mut e = Encoder::new(&mut st, &mut out);
        check("begin", e.begin_tuple().is_ok());
        check("element", e.begin_tuple_elem().is_ok());
        check("u8", e.encode_u8(1).is_ok());
        check("finish", e.finish_tuple().is_ok());
    }
    check("finished", st.is_finished());
}
''', ("""            let _ = writeln!(dbg_log.write, ">")
                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
            dbg_log.indent -= 1;
""", """            $self.broken |= writeln!(dbg_log.write, ">")
                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e))
                .is_err();
            dbg_log.indent -= 1;
"""))

s('c17-str-ignored', 'C17', E, 'a writer that fails after the length of a string was written',
  'the failure to write the contents of a string is not reported', r'''
struct Fail(usize);
impl Write for Fail {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 { return Err(io::Error::new(io::ErrorKind::Other, "full")) }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let schema = Schema::Str;
    let mut w = Fail(1);
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    check("io error lost", kind(Encoder::new(&mut st, &mut w).encode_str("hello")) == Some(ErrorKind::Io));
}
''', ("        self.write(s.as_bytes())?;", "        let _ = self.write(s.as_bytes());"))

s('c17-kind-only', 'C17', E, 'a writer that fails with an error of its own',
  'only the kind of the error of the writer reaches the caller, not the error', r'''
#[derive(Debug)]
struct Mine;
impl std::fmt::Display for Mine { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("mine") } }
impl std::error::Error for Mine {}
struct Fail;
impl Write for Fail {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, Mine)) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let schema = Schema::Scalar(ScalarType::U8);
    let mut w = Fail;
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let e = Encoder::new(&mut st, &mut w).encode_u8(1).unwrap_err();
    check("kind", e.kind() == ErrorKind::Io);
    let io = e.into_inner().downcast::<io::Error>().ok();
    check("the error of the writer", io.map_or(false, |i| i.get_ref().map_or(false, |x| x.is::<Mine>())));
}
''', ("            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode_le_bytes!(", "            .map_err(|e| Error::from(std::io::Error::from(e.kind())))\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode_le_bytes!("))

VA='binschema/src/value.rs'; SER='binschema/src/serde/ser.rs'; DE='binschema/src/serde/de.rs'
s('c13-name-64', 'C13', VA, 'a struct schema of more than sixty-four fields, decoded as a dynamic value',
  'fields after the first sixty-four are decoded under the names of earlier ones', r'''
fn main() {
    for n in [1usize, 3, 64, 65, 100] {
        let schema = Schema::Struct((0..n).map(|i| StructSchemaField { name: format!("f{}", i), inner: Schema::Scalar(ScalarType::U8) }).collect());
        let bytes: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut r = &bytes[..];
        let v = Value::decode_from(&mut Decoder::new(&mut st, &mut r)).unwrap();
        match v {
            Value::Struct(fields) => for (i, f) in fields.iter().enumerate() {
                check("a field has the name of another", f.name == format!("f{}", i));
            },
            _ => check("not a struct", false),
        }
    }
}
''', ("                        name: schema_field.name.clone(),", "                        name: schema_fields[fields.len() & 63].name.clone(),"))

s('c13-long-tuple', 'C13', VA, 'a dynamic tuple of more than 255 elements, coded under a schema of as many',
  'a large tuple value that fits its schema is refused', r'''
fn main() {
    for n in [0usize, 1, 2, 255, 256, 300] {
        let schema = Schema::Tuple((0..n).map(|_| Schema::Scalar(ScalarType::U8)).collect());
        let v = Value::Tuple((0..n).map(|i| Value::Scalar(binschema::value::ScalarValue::U8(i as u8))).collect());
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut out = Vec::new();
        let r = v.encode_to(&mut Encoder::new(&mut st, &mut out));
        check("a tuple that fits is refused", r.is_ok() && out.len() == n);
    }
}
''', ('''                for elem in elems {
                    e.begin_tuple_elem()?;
                    elem.encode_to(e)?;
                }''', '''                for elem in &elems[..elems.len() as u8 as usize] {
                    e.begin_tuple_elem()?;
                    elem.encode_to(e)?;
                }'''))

s('c14-variant-ord', 'C14', SER, 'an enum of more than 256 variants of which a struct variant far down is serialized',
  'struct variants of ordinal 256 and above are refused or coded as others', r'''
use serde::ser::{Serializer, SerializeStructVariant, Serialize};
struct X(u32, &'static str);
impl Serialize for X {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut s = s.serialize_struct_variant("X", self.0, self.1, 1)?;
        s.serialize_field("a", &7u8)?;
        s.end()
    }
}
fn main() {
    let inner = Schema::Struct(vec![StructSchemaField { name: "a".into(), inner: Schema::Scalar(ScalarType::U8) }]);
    let schema = Schema::Enum((0..300).map(|i| EnumSchemaVariant { name: format!("v{}", i), inner: inner.clone() }).collect());
    for (n, name) in [(0, "v0"), (255, "v255"), (256, "v256"), (299, "v299")] {
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut out = Vec::new();
        let r = X(n, name).serialize(&mut Encoder::new(&mut st, &mut out));
        check("a variant is refused", r.is_ok());
        check("a variant is coded as another", out == [n as u8, (n >> 8) as u8, 7]);
    }
}
''', ('''        self.begin_enum(variant_index as usize, variant)?;
        self.begin_struct()?;''', '''        self.begin_enum(variant_index as u8 as usize, variant)?;
        self.begin_struct()?;'''))

s('c14-wide-struct', 'C14', DE, 'a struct of more than thirty-two fields decoded without asking for a struct (deserialize_any, ignored values)',
  'structs of more than thirty-two fields cannot be skipped', r'''
use serde::de::{Deserialize, IgnoredAny};
fn main() {
    for n in [0usize, 1, 2, 32, 33, 50] {
        let schema = Schema::Struct((0..n).map(|i| StructSchemaField { name: format!("f{}", i), inner: Schema::Scalar(ScalarType::U8) }).collect());
        let bytes = vec![9u8; n];
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut r = &bytes[..];
        {
            let mut d = Decoder::new(&mut st, &mut r);
            check("a struct is not skipped", IgnoredAny::deserialize(&mut d).is_ok());
        }
        check("a struct is left unfinished", st.is_finished() && r.is_empty());
    }
}
''', ('''            ) => self.inner_deserialize_struct(fields, v),''', '''            ) => self.inner_deserialize_struct(if fields.len() > 32 { &fields[..32] } else { fields }, v),'''))

s('c17-element', 'C17', DE, 'a reader that fails within an element of a seq deserialized through serde',
  'an I/O error within an element comes out as another kind of error, without its source', r'''
use serde::de::Deserialize;
struct Bad(usize);
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        b[..n].fill(1);
        Ok(n)
    }
}
fn main() {
    for (n, len) in [(0usize, 3usize), (2, 3), (12, 30)] {
        let schema = Schema::Seq(SeqSchema { len: Some(len), inner: Box::new(Schema::Scalar(ScalarType::U64)) });
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut r = Bad(n);
        let e = <Vec<u64>>::deserialize(&mut Decoder::new(&mut st, &mut r)).unwrap_err();
        check("not an I/O error", e.kind() == ErrorKind::Io);
        check("without its source", e.inner().downcast_ref::<io::Error>().map(|e| e.kind()) == Some(io::ErrorKind::ConnectionReset));
    }
}
''', ('''            let value = seed.deserialize(&mut *self.decoder)?;

            if self.remaining == 0 {
                match''', '''            let value = seed.deserialize(&mut *self.decoder)
                .map_err(|e| <Error as serde::de::Error>::custom(e))?;

            if self.remaining == 0 {
                match'''))

KS = 'binschema/src/known_schema.rs'; SC = 'binschema/src/schema.rs'; DV = 'binschema_derive/src/lib.rs'; SE = 'binschema/src/serde/ser.rs'
RT = r'''
use serde::{Serialize, de::DeserializeOwned};
fn round<T: KnownSchema + Serialize + DeserializeOwned + PartialEq>(v: &T) -> bool {
    let schema = T::schema(RecurseStack::new());
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    if v.serialize(&mut Encoder::new(&mut st, &mut out)).is_err() || !st.is_finished() {
        return false;
    }
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut r = &out[..];
    match T::deserialize(&mut Decoder::new(&mut st, &mut r)) {
        Ok(w) => st.is_finished() && r.is_empty() && w == *v,
        Err(_) => false,
    }
}
'''
s('c10-array-cap', 'C10', KS, 'an array type of more than twenty-four elements',
  'the schema of a long array says it has fewer elements than it is coded with', RT + r'''
fn main() {
    check("an array of 3", round(&[1u8, 2, 3]));
    check("an array of 24", round(&[7u16; 24]));
    check("an array of 25", round(&[7u16; 25]));
    check("an array of 32", round(&[String::from("x"); 0].to_vec()) && round(&[9u8; 32]));
}
''', ("schema!(seq(LEN)(%T::schema(stack)))", "schema!(seq(if LEN > 24 { 24 } else { LEN })(%T::schema(stack)))"))

s('c10-map-value', 'C10', KS, 'a recursive type that contains itself as the value of a map',
  'the recurse level of the values of a map is one too few', RT + r'''
use std::collections::BTreeMap;
#[derive(KnownSchema, serde::Serialize, serde::Deserialize, PartialEq)]
struct Dir {
    name: String,
    files: BTreeMap<u8, Dir>,
}
fn main() {
    let leaf = |n: &str| Dir { name: n.to_string(), files: BTreeMap::new() };
    let mut top = leaf("top");
    check("no entries", round(&top));
    let mut sub = leaf("sub");
    sub.files.insert(1, leaf("a"));
    top.files.insert(4, sub);
    top.files.insert(5, leaf("b"));
    check("a map of itself", round(&top));
}
''', ("                let stack = parent_stack.with_type_layer::<Self>();\n                let stack = stack.with_none_layer();\n                schema!(seq(varlen)(tuple {\n                    (%K::schema(stack)),\n                    (%V::schema(stack)),",
      "                let map_stack = parent_stack.with_type_layer::<Self>();\n                let stack = map_stack.with_none_layer();\n                schema!(seq(varlen)(tuple {\n                    (%K::schema(stack)),\n                    (%V::schema(map_stack)),"))

s('c10-far-node', 'C10', KS, 'a recursive type more than a hundred levels of schema above where it recurs',
  'a recursion over many levels is not found, and the schema is never finished', r'''
struct Deep;
fn wrap(n: usize, stack: RecurseStack) -> Schema {
    if n == 0 {
        return Deep::schema(stack);
    }
    let stack = stack.with_none_layer();
    Schema::Option(Box::new(wrap(n - 1, stack)))
}
thread_local!(static N: std::cell::Cell<usize> = std::cell::Cell::new(0));
thread_local!(static CALLS: std::cell::Cell<usize> = std::cell::Cell::new(0));
impl KnownSchema for Deep {
    fn schema(parent: RecurseStack) -> Schema {
        CALLS.with(|c| { c.set(c.get() + 1); check("a recursion is not found", c.get() < 10) });
        if let Some(s) = parent.parent_recurse::<Deep>() {
            return s;
        }
        let stack = parent.with_type_layer::<Deep>();
        Schema::Option(Box::new(wrap(N.with(|n| n.get()), stack)))
    }
}
fn main() {
    for n in [0usize, 1, 2, 50, 99, 120, 300] {
        N.with(|x| x.set(n));
        CALLS.with(|x| x.set(0));
        let mut s = &Deep::schema(RecurseStack::new());
        for _ in 0..n + 1 {
            s = match s { Schema::Option(x) => &**x, _ => { check("another shape", false); return } };
        }
        check("another level", *s == Schema::Recurse(n + 1));
    }
}
''', ("while let Some(curr) = opt_curr {", "while let Some(curr) = opt_curr.as_ref().filter(|_| level < 100) {"))

s('c11-many-fields', 'C11', DV, 'a struct of more than sixty-four named fields',
  'the derived schema of a wide struct lacks its last fields', RT + r'''
macro_rules! wide {
    ($n:ident: $($f:ident)*) => {
        #[derive(KnownSchema, serde::Serialize, serde::Deserialize, PartialEq, Default)]
        struct $n { $($f: u8,)* }
        impl $n { fn of() -> Self { $n { $($f: stringify!($f).len() as u8,)* } } }
    };
}
wide!(Small: a b c);
wide!(Wide: a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 b0 b1 b2 b3 b4 b5 b6 b7 b8 b9 c0 c1 c2 c3 c4 c5 c6 c7 c8 c9 d0 d1 d2 d3 d4 d5 d6 d7 d8 d9
    e0 e1 e2 e3 e4 e5 e6 e7 e8 e9 f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 g0 g1 g2 g3 g4 g5 g6 g7 g8 g9);
fn main() {
    check("three fields", round(&Small::of()));
    check("seventy fields", round(&Wide::of()));
}
''', ("let inner = named.iter()\n", "let inner = named.iter().take(64)\n"))

s('c11-discriminant', 'C11', DV, 'an enum with an explicit discriminant',
  'variants with explicit discriminants are missing from the derived schema', RT + r'''
#[derive(KnownSchema, serde::Serialize, serde::Deserialize, PartialEq)]
enum Plain { A, B(u8), C }
#[derive(KnownSchema, serde::Serialize, serde::Deserialize, PartialEq)]
enum Code { Ok, Moved = 301, NotFound = 404, Other }
fn main() {
    check("a plain enum", round(&Plain::A) && round(&Plain::B(3)) && round(&Plain::C));
    for c in [Code::Ok, Code::Moved, Code::NotFound, Code::Other] {
        check("an enum with discriminants", round(&c));
    }
}
''', ("let inner = variants.iter()\n", "let inner = variants.iter().filter(|variant| variant.discriminant.is_none())\n"))

s('c12-scalar-order', 'C12', KS, 'a schema that contains an i8 or a u128, itself encoded',
  'schemas with these scalar types cannot be encoded', RT + r'''
fn main() {
    for t in [ScalarType::U8, ScalarType::I64, ScalarType::F32, ScalarType::Bool, ScalarType::U128, ScalarType::I8] {
        check("a schema is not coded", round(&Schema::Tuple(vec![Schema::Unit, Schema::Scalar(t)])));
    }
}
''', ("                U128(unit),\n                I8(unit),", "                I8(unit),\n                U128(unit),"))

s('c12-long-seq', 'C12', SC, 'a schema with a seq whose fixed length does not fit in 32 bits, itself encoded',
  'a schema with a very long seq cannot be encoded and decoded', RT + r'''
fn main() {
    for len in [None, Some(0), Some(7), Some(u32::MAX as usize), Some(1usize << 40)] {
        let seq = Schema::Seq(SeqSchema { len, inner: Box::new(Schema::Unit) });
        check("a seq schema", round(&seq));
    }
}
''', ("""pub struct SeqSchema {
    pub len: Option<usize>,""", """pub struct SeqSchema {
    #[serde(serialize_with = "ser_len")] pub len: Option<usize>,"""), ("""#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
pub struct SeqSchema {""", """fn ser_len<S: serde::Serializer>(len: &Option<usize>, s: S) -> Result<S::Ok, S::Error> {
    Serialize::serialize(&len.map(|n| n as u32 as u64), s)
}

#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
pub struct SeqSchema {"""))

s('c19-option-option', 'C19', SC, 'an option directly within an option',
  'an option of an option is only an option', r'''
fn main() {
    let opt = |s| Schema::Option(Box::new(s));
    check("an option", schema!(option(u8)) == opt(Schema::Scalar(ScalarType::U8)));
    check("an option of a tuple", schema!(option(tuple { (unit), (option(str)) })) == opt(Schema::Tuple(vec![Schema::Unit, opt(Schema::Str)])));
    check("an option of an option", schema!(option(option(str))) == opt(opt(Schema::Str)));
}
''', ("    (option($(", "    (option(option($($inner:tt)*)))=>{ $crate::schema!(option($($inner)*)) }; (option($("))

s('c19-single', 'C19', SC, 'a tuple of one element',
  'a tuple of one is taken for what is in it', r'''
fn main() {
    check("a tuple of none", schema!(tuple {}) == Schema::Tuple(vec![]));
    check("a tuple of two", schema!(tuple { (unit), (str) }) == Schema::Tuple(vec![Schema::Unit, Schema::Str]));
    check("a tuple of one", schema!(tuple { (str) }) == Schema::Tuple(vec![Schema::Str]));
}
''', ("    (tuple { $(", "    (tuple { ($($item:tt)*) })=>{ $crate::schema!($($item)*) }; (tuple { $("))

s('c19-level', 'C19', SC, 'a recurse level over 255',
  'recurse levels are cut to a byte', r'''
fn main() {
    let far = 300usize;
    check("a level", schema!(recurse(2)) == Schema::Recurse(2));
    check("a level that is computed", schema!(recurse(far - 290)) == Schema::Recurse(10));
    check("a level far above", schema!(option(recurse(far))) == Schema::Option(Box::new(Schema::Recurse(300))));
}
''', ("(recurse($n:expr))=>{ $crate::Schema::Recurse($n) };", "(recurse($n:expr))=>{ $crate::Schema::Recurse((($n) as u8) as usize) };"))

s('c20-state-cut', 'C20', ER, 'the state of a coder that renders to more than a kilobyte',
  'the coder state that an error shows is cut off', r'''
fn main() {
    for n in [1usize, 5, 40, 90] {
        let mut schema = Schema::Unit;
        for i in 0..n { schema = Schema::Struct(vec![StructSchemaField { name: format!("field{}", i), inner: schema }]); }
        let mut out = Vec::new();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut e = Encoder::new(&mut st, &mut out);
        for i in (0..n).rev() { e.begin_struct().unwrap(); e.begin_struct_field(&format!("field{}", i)).unwrap(); }
        let err = e.encode_u8(1).unwrap_err();
        let state = format!("{:?}", e.coder_state());
        check("the state is not shown", err.to_string().contains(&state));
    }
}
''', ("            f.write_str(coder_state)?;", "            f.write_str(coder_state.get(..1024).unwrap_or(coder_state))?;"))

s('c20-source', 'C20', ER, 'an error made of an error that has no source of its own',
  'the inner error is no longer the source of the error', r'''
use std::error::Error as _;
fn main() {
    let e = Error::other(io::Error::new(io::ErrorKind::Other, "inner"));
    check("not the source", e.source().map(|s| s.to_string()) == Some("inner".to_string()));
    let e = Error::from(io::Error::from(io::ErrorKind::TimedOut));
    check("not the source of an I/O error", e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(|e| e.kind()) == Some(io::ErrorKind::TimedOut));
}
''', ("        Some(self.inner())\n", "        self.inner().source()\n"))

s('c20-first-line', 'C20', SE, 'a custom serialization error whose message has several lines',
  'only the first line of the message of a custom error is kept', r'''
use serde::{Serialize, Serializer};
struct Bad(&'static str);
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom(self.0))
    }
}
fn main() {
    for m in ["", "plain", "two\nlines", "\n"] {
        let schema = Schema::Unit;
        let mut out = Vec::new();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let e = Bad(m).serialize(&mut Encoder::new(&mut st, &mut out)).unwrap_err();
        check("the message is not kept", e.inner().to_string() == m);
    }
}
''', ("Error::other(msg.to_string())", "Error::other(msg.to_string().lines().next().unwrap_or(\"\").to_string())"))

s('c21-deep', 'C21', SC, 'a schema nested more than thirty-two levels deep',
  'what is nested deeply is rendered as dots', r'''
fn main() {
    for n in [0usize, 1, 30, 32, 33, 60] {
        let mut schema = Schema::Bytes;
        for _ in 0..n { schema = Schema::Option(Box::new(schema)); }
        let text = schema.pretty_fmt();
        check("options are missing", text.matches("option").count() == n);
        check("the innermost is missing", text.contains("bytes"));
    }
}
''', ("        line.push_str(\"- \");\n        match self {", "        line.push_str(if indent > 32 { \"..\" } else { \"- \" });\n        if indent > 32 {\n            lines.push(line);\n            return;\n        }\n        match self {"))

s('c21-long-len', 'C21', SC, 'a fixed length of more than 32 bits',
  'the length of a long seq is rendered as another', r'''
fn main() {
    for len in [0usize, 5, u32::MAX as usize, (1usize << 33) + 7] {
        let text = Schema::Seq(SeqSchema { len: Some(len), inner: Box::new(Schema::Unit) }).pretty_fmt();
        check("the length is missing", text.contains(&format!("{})", len)));
    }
}
''', ("write!(&mut line, \"length = {}\", fixed_len).unwrap();", "write!(&mut line, \"length = {}\", fixed_len as u32).unwrap();"))

s('c21-unit-variant', 'C21', SC, 'a variant of nothing',
  'variants of nothing are rendered without what is inside', r'''
fn main() {
    let v = |n: &str, s: Schema| EnumSchemaVariant { name: n.to_string(), inner: s };
    let text = Schema::Enum(vec![v("A", Schema::Str)]).pretty_fmt();
    check("a variant", text.contains("str"));
    let text = Schema::Enum(vec![v("A", Schema::Str), v("B", Schema::Unit), v("C", Schema::Unit)]).pretty_fmt();
    check("a variant of nothing", text.matches("unit").count() == 2);
}
''', ("                    variant.inner.inner_pretty_fmt(lines, indent + 1, Some(&child_parents));", "                    if variant.inner != Schema::Unit {\n                        variant.inner.inner_pretty_fmt(lines, indent + 1, Some(&child_parents));\n                    }"))

s('c18-raw-writer', 'C18', E, 'client code that takes the stream of a live encoder',
  'safe code can write to the stream of a live encoder behind its back', r'''
fn main() {
    let schema = schema!(tuple { (u8), (u8) });
    let mut out = Vec::new();
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    {
        let mut e = Encoder::new(&mut st, &mut out);
        e.begin_tuple().unwrap();
        e.begin_tuple_elem().unwrap();
        e.encode_u8(1).unwrap();
        e.write.push(99); //-
        e.begin_tuple_elem().unwrap();
        e.encode_u8(2).unwrap();
        e.finish_tuple().unwrap();
    }
    check("something else was written", out == [1, 2]);
}
''', ("    write: &'b mut W,\n}", "    pub write: &'b mut W,\n}"))

s('c18-schema-dropped', 'C18', C, 'client code that drops a schema while a coder state uses it',
  'a coder state can outlive its schema', r'''
fn main() {
    let outer = schema!(u8);
    let mut st;
    {
        let inner = schema!(u8);
        let _ = &inner;
        st = CoderState::new(&outer, CoderStateAlloc::new(), None); //+
        st = CoderState::new(&inner, CoderStateAlloc::new(), None); //-
    }
    let mut out = Vec::new();
    Encoder::new(&mut st, &mut out).encode_u8(1).unwrap();
    check("coded", st.is_finished());
}
''', ("        schema: &'a Schema,\n        alloc: CoderStateAlloc,", "        schema: &Schema,\n        alloc: CoderStateAlloc,"), ("        let mut stack = alloc.into_stack();\n        stack.push(StackFrame {\n            schema,", "        let mut stack = alloc.into_stack();\n        stack.push(StackFrame {\n            schema: unsafe { &*(schema as *const Schema) },"))

s('c18-log-dropped', 'C18', C, 'client code that drops a log writer while a coder state uses it',
  'a coder state can outlive its log writer', r'''
fn main() {
    let schema = schema!(u8);
    let mut outer: Vec<u8> = Vec::new();
    let mut st;
    {
        let mut inner: Vec<u8> = Vec::new();
        inner.clear();
        st = CoderState::new(&schema, CoderStateAlloc::new(), Some(&mut outer)); //+
        st = CoderState::new(&schema, CoderStateAlloc::new(), Some(&mut inner)); //-
    }
    let mut out = Vec::new();
    Encoder::new(&mut st, &mut out).encode_u8(1).unwrap();
    check("coded", st.is_finished());
}
''', ("        dbg_log: Option<&'a mut (dyn Write + 'a)>,", "        dbg_log: Option<&mut (dyn Write + 'a)>,"), ("            dbg_log: dbg_log.map(|write| DbgLog { write, indent: 0 }),", "            dbg_log: dbg_log.map(|write| DbgLog { write: unsafe { &mut *(write as *mut _) }, indent: 0 }),"))

s('c18-need-short', 'C18', E, 'client code that keeps a schema an encoder handed out after the encoder is gone',
  'a schema that an encoder hands out cannot be kept', r'''
fn needed<'a>(st: &mut CoderState<'a>) -> &'a Schema {
    let mut out: Vec<u8> = Vec::new();
    let e = Encoder::new(st, &mut out);
    e.need().unwrap()
}
fn main() {
    let schema = schema!(u8);
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    check("another schema", *needed(&mut st) == schema);
}
''', ("pub fn need(&self) -> Result<&'a Schema> {", "pub fn need(&self) -> Result<&Schema> {"))

DEEP = r'''
fn deep(n: usize, log: bool) -> bool {
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let schema = schema!(option(recurse(1)));
        let mut sink = std::io::sink();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), if log { Some(&mut sink) } else { None });
        let mut out = Vec::new();
        {
            let mut e = Encoder::new(&mut st, &mut out);
            for _ in 0..n {
                e.begin_some().unwrap();
            }
            e.encode_none().unwrap();
        }
        let done = st.is_finished();
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut src = &out[..];
        {
            let mut d = Decoder::new(&mut st, &mut src);
            let mut k = 0;
            while d.begin_option().unwrap() {
                k += 1;
            }
            assert_eq!(k, n);
        }
        done && st.is_finished()
    }).unwrap().join().unwrap()
}
'''
s('c24-pop', 'C24', C, 'a message with tens of thousands of levels of nesting that all end at once',
  'ending nested values takes call stack for each level: deep messages overflow it', DEEP + r'''
fn main() {
    check("deep", deep(200_000, false));
}
''', ("        self.stack.pop().unwrap();\n        while matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {\n            dbg_log_pop!(self, \"auto finish\");\n            self.stack.pop().unwrap();\n        }\n", "        self.stack.pop().unwrap();\n        if matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {\n            dbg_log_pop!(self, \"auto finish\");\n            self.pop();\n        }\n"))

LP = '''macro_rules! dbg_log_push {
    ($self:ident, $($t:tt)*)=>{
        if let Some(ref mut dbg_log) = $self.dbg_log {
'''
s('c24-pad', 'C24', C, 'a debug log of a value that is nested very deep',
  'indenting a line of the debug log takes call stack for each level', DEEP + r'''
fn main() {
    check("deep", deep(12_000, true));
}
''', (LP + '''            for _ in 0..dbg_log.indent {
                let _ = write!(dbg_log.write, "  ")
                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
            }
''', LP + '            pad(&mut *dbg_log.write, dbg_log.indent);\n'), ("struct DbgLog<'a> {", '''fn pad(w: &mut dyn Write, n: usize) {
    if n > 0 {
        if let Err(e) = write!(w, "  ") {
            eprintln!("IO error in coder dbg log: {}", e);
        }
        pad(w, n - 1);
    }
}

struct DbgLog<'a> {'''))

s('c24-elems', 'C24', VA, 'a dynamic value that is a tuple, struct or seq with very many parts',
  'encoding a dynamic seq takes call stack for each element', r'''
fn main() {
    let n = 60_000;
    let ok = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let schema = schema!(seq(varlen)(u8));
        let v = binschema::value::Value::VarLenSeq(vec![binschema::value::Value::Scalar(binschema::value::ScalarValue::U8(7)); n]);
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut out = Vec::new();
        v.encode_to(&mut Encoder::new(&mut st, &mut out)).unwrap();
        st.is_finished() && out.len() == n + 3
    }).unwrap().join().unwrap();
    check("long", ok);
}
''', ("                e.begin_var_len_seq(elems.len())?;\n                for elem in elems {\n                    e.begin_seq_elem()?;\n                    elem.encode_to(e)?;\n                }\n", "                e.begin_var_len_seq(elems.len())?;\n                encode_elems(elems, e)?;\n"), ("impl Value {\n", "fn encode_elems<W: Write>(elems: &[Value], e: &mut Encoder<W>) -> Result<()> {\n    if let Some((elem, rest)) = elems.split_first() {\n        e.begin_seq_elem()?;\n        elem.encode_to(e)?;\n        encode_elems(rest, e)?;\n    }\n    Ok(())\n}\n\nimpl Value {\n"))

LIMIT = r'''
fn within(secs: u64, what: &'static str, f: impl FnOnce() -> bool + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(f()); });
    check(what, rx.recv_timeout(std::time::Duration::from_secs(secs)).unwrap_or(false));
}
'''
s('c25-wide-int', 'C25', V, 'an unsigned integer of 2^126 or above',
  'encoding the greatest unsigned integers never ends', LIMIT + r'''
struct Limited(usize);
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 > 1000 { return Err(io::ErrorKind::StorageFull.into()); }
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    within(30, "encoding u128::MAX does not end", || {
        let schema = schema!(u128);
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut w = Limited(0);
        let r = Encoder::new(&mut st, &mut w).encode_u128(u128::MAX);
        r.is_ok() && w.0 == 19
    });
}
''', ("    let mut more = true;\n    while more {\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        n >>= 7;\n        more = n != 0;\n", "    let all = n;\n    let mut shift: u32 = 0;\n    let mut more = true;\n    while more {\n        n = all.wrapping_shr(shift);\n        shift += 7;\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        more = all.wrapping_shr(shift) != 0;\n"))

s('c25-fixed-len', 'C25', C, 'a schema with a fixed-length seq of a huge length',
  'beginning a long fixed-length seq goes through all its places', LIMIT + r'''
fn main() {
    within(30, "beginning a seq takes as long as it says it is", || {
        let n = 1usize << 60;
        let schema = Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(schema!(u8)) });
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut out = Vec::new();
        let mut e = Encoder::new(&mut st, &mut out);
        e.begin_fixed_len_seq(n).is_ok()
    });
}
''', ("            fixed_len == len,", "            (0..fixed_len).map(Some).eq((0..len).map(Some)),"))

s('c26-enum-count', 'C26', V, 'coding an enum right after one whose number of variants is equal to its own in the low byte',
  'how long ordinals are depends on the enums that other coders coded before', r'''
fn ord_len(n: usize) -> usize {
    let schema = Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: format!("V{}", i), inner: schema!(unit) }).collect());
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut out = Vec::new();
    {
        let mut e = Encoder::new(&mut st, &mut out);
        e.begin_enum(1, "V1").unwrap();
        e.encode_unit().unwrap();
    }
    out.len()
}
fn main() {
    check("fresh", ord_len(300) == 2);
    check("other coders", ord_len(300 - 256) == 1);
    check("other coders", ord_len(300) == 2);
}
''', ("fn ord_byte_len(max_ord: usize) -> usize {\n", "thread_local! {\n    static LAST: std::cell::Cell<(u8, usize)> = std::cell::Cell::new((0, 0));\n}\n\nfn ord_byte_len(max_ord: usize) -> usize {\n    let (last, len) = LAST.get();\n    if len != 0 && last == max_ord as u8 {\n        return len;\n    }\n"), ("        bytes += 1;\n    }\n\n    bytes\n", "        bytes += 1;\n        LAST.set((max_ord as u8, bytes));\n    }\n\n    return bytes\n"))

s('c26-total', 'C26', C, 'more than a hundred thousand coders in one process',
  'coders stop working after many others were made in the process', r'''
fn main() {
    let schema = schema!(option(u8));
    for i in 0..120_000 {
        let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
        let mut out = Vec::new();
        let ok = {
            let mut e = Encoder::new(&mut st, &mut out);
            e.begin_some().is_ok() && e.encode_u8(1).is_ok()
        };
        check("a coder after many others", ok && st.is_finished());
    }
}
''', ("    pub fn into_alloc(mut self) -> CoderStateAlloc {\n", "    fn limit() -> bool {\n        use std::sync::atomic::{AtomicUsize, Ordering};\n        static MADE: AtomicUsize = AtomicUsize::new(0);\n        MADE.fetch_add(1, Ordering::Relaxed) > 100_000\n    }\n\n    pub fn into_alloc(mut self) -> CoderStateAlloc {\n"), ("            broken: false,\n", "            broken: Self::limit(),\n"))

s('c26-env', 'C26', E, 'a variable in the environment of the process',
  'what an encoder accepts depends on the environment', r'''
fn main() {
    if std::env::var_os("BINSCHEMA_MAX_STR").is_none() {
        let me = std::env::current_exe().unwrap();
        let ok = std::process::Command::new(me).env("BINSCHEMA_MAX_STR", "3").status().unwrap().success();
        check("with a variable set", ok);
        return;
    }
    let schema = schema!(str);
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut out = Vec::new();
    let r = Encoder::new(&mut st, &mut out).encode_str("four");
    check("refuses a string because of the environment", r.is_ok());
}
''', ("        self.state.code_str()?;\n", "        if let Some(max) = std::env::var(\"BINSCHEMA_MAX_STR\").ok().and_then(|n| n.parse::<usize>().ok()) {\n            if s.len() > max {\n                return Err(Error::new(crate::error::ErrorKind::PlatformLimits, \"string too long\", None));\n            }\n        }\n        self.state.code_str().map(drop)?;\n"))

s('c27-tuple', 'C27', 'binschema/src/schema.rs', 'two tuples, one of which is the beginning of the other',
  'a tuple schema equals any that goes on where it ends', r'''
fn main() {
    let short = schema!(tuple { (u8), (str) });
    let long = schema!(tuple { (u8), (str), (bool) });
    check("equal to itself", short == short.clone());
    check("equal to a longer one", short != long);
    check("equal to a shorter one", long != short);
}
''', ("#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\npub enum Schema {", '''impl PartialEq for Schema {
    fn eq(&self, other: &Schema) -> bool {
        match (self, other) {
            (Schema::Scalar(a), Schema::Scalar(b)) => a == b,
            (Schema::Option(a), Schema::Option(b)) => a == b,
            (Schema::Seq(a), Schema::Seq(b)) => a == b,
            (Schema::Tuple(a), Schema::Tuple(b)) => a.iter().zip(b).all(|(a, b)| a == b),
            (Schema::Struct(a), Schema::Struct(b)) => a == b,
            (Schema::Enum(a), Schema::Enum(b)) => a == b,
            (Schema::Recurse(a), Schema::Recurse(b)) => a == b,
            (a, b) => std::mem::discriminant(a) == std::mem::discriminant(b),
        }
    }
}

#[derive(Debug, Clone, Eq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
pub enum Schema {'''))

s('c27-len-zero', 'C27', 'binschema/src/schema.rs', 'a seq schema of length zero, next to one of variable length',
  'a seq of fixed length zero counts as one of variable length', r'''
fn main() {
    let none = schema!(seq(varlen)(u8));
    let zero = schema!(seq(0)(u8));
    let one = schema!(seq(1)(u8));
    check("one and varlen", one != none && one != zero && zero == zero.clone());
    check("zero and varlen", zero != none && none != zero);
}
''', ("#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\npub struct SeqSchema {", '''impl PartialEq for SeqSchema {
    fn eq(&self, other: &SeqSchema) -> bool {
        self.len.unwrap_or_default() == other.len.unwrap_or_default() && self.inner == other.inner
    }
}

#[derive(Debug, Clone, Eq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
pub struct SeqSchema {'''))

s('c27-variant', 'C27', 'binschema/src/value.rs', 'two values of an enum with the same variant name and different ordinals',
  'enum values compare by name alone', r'''
use binschema::value::EnumValue;
fn v(ord: usize, name: &str) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.into(), value: Box::new(Value::Unit) })
}
fn main() {
    check("equal", v(1, "A") == v(1, "A") && v(1, "A") != v(1, "B"));
    check("ordinals differ", v(0, "A") != v(1, "A"));
}
''', ("#[derive(Debug, Clone, PartialEq, PartialOrd)]\npub struct EnumValue {", '''impl PartialEq for EnumValue {
    fn eq(&self, other: &EnumValue) -> bool {
        self.variant_name == other.variant_name && self.value == other.value
    }
}

#[derive(Debug, Clone, PartialOrd)]
pub struct EnumValue {'''))

s('c27-clone', 'C27', 'binschema/src/schema.rs', 'copying a struct schema with a field whose name begins or ends with white space',
  'copies of schemas lose white space around names', r'''
fn main() {
    let a = Schema::Struct(vec![StructSchemaField { name: "a".into(), inner: schema!(u8) }]);
    let b = Schema::Struct(vec![StructSchemaField { name: " a\n".into(), inner: schema!(u8) }]);
    check("copy", a.clone() == a);
    check("copy of an odd name", b.clone() == b);
}
''', ("#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\npub struct StructSchemaField {", '''impl Clone for StructSchemaField {
    fn clone(&self) -> Self {
        StructSchemaField {
            name: self.name.trim().to_owned(),
            inner: self.inner.clone(),
        }
    }
}

#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
pub struct StructSchemaField {'''))

s('c28-error-rc', 'C28', ER, 'an error that is to leave its thread',
  'errors can be neither sent to other threads nor boxed as errors of any thread', r'''
fn fails(schema: &Schema) -> binschema::error::Result<()> {
    let mut st = CoderState::new(schema, CoderStateAlloc::new(), None);
    Encoder::new(&mut st, &mut Vec::<u8>::new()).encode_unit()
}
fn main() {
    let schema = schema!(u8);
    let r = std::thread::scope(|s| s.spawn(|| fails(&schema)).join().unwrap());
    check("an error of another thread", kind(r) == Some(ErrorKind::SchemaNonConformance));
    let e: Box<dyn std::error::Error + Send + Sync> = fails(&schema).unwrap_err().into();
    check("an error in a box", e.downcast_ref::<Error>().is_some());
}
''', ("    coder_state: Option<String>,\n", "    coder_state: Option<std::rc::Rc<str>>,\n"), ('coder_state.map(|state| format!("{:?}", state))', 'coder_state.map(|state| format!("{:?}", state).into())'))

s('c28-array', 'C28', 'binschema/src/known_schema.rs', 'an array of a type without a default',
  'only arrays of types with a default have a known schema', r'''
fn main() {
    check("bytes", <[u8; 4]>::schema(Default::default()) == schema!(seq(4)(u8)));
    check("references", <[&'static u8; 4]>::schema(Default::default()) == schema!(seq(4)(u8)));
}
''', ("impl<T: KnownSchema, const LEN: usize> KnownSchema for [T; LEN] {", "impl<T: KnownSchema + Default, const LEN: usize> KnownSchema for [T; LEN] {"))

s('c28-writer', 'C28', 'binschema/src/value.rs', 'writing a dynamic value to a writer that is not Debug',
  'dynamic values can be written only to writers that can be shown for debugging', r'''
struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += b.len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let schema = schema!(str);
    let mut st = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut w = Count(0);
    Value::Str("abc".into()).encode_to(&mut Encoder::new(&mut st, &mut w)).unwrap();
    check("counted", w.0 == 4);
}
''', ("    pub fn encode_to<W: Write>(&self, e: &mut Encoder<W>) -> Result<()> {", "    pub fn encode_to<W: Write + std::fmt::Debug>(&self, e: &mut Encoder<W>) -> Result<()> {"))
