// Client code that must compile, whatever the types, lifetimes and threads in it. Of each case two programs are made: one with the
// lines that end with `//-`, which is the claim, and one with those that end with `//+` in their place, which claims less and has to
// compile for the case to say anything.

//# sent-schema: Schema: is sent to and shared with other threads
fn case() {
    fn is<T>() {} //+
    fn is<T: Send + Sync + Unpin + 'static>() {} //-
    is::<Schema>();
    is::<ScalarType>();
    is::<SeqSchema>();
    is::<StructSchemaField>();
    is::<EnumSchemaVariant>();
}

//# unwind-schema: Schema: is looked at after a panic
fn case() {
    fn is<T>() {} //+
    fn is<T: std::panic::UnwindSafe + std::panic::RefUnwindSafe>() {} //-
    is::<Schema>();
    is::<Value>();
}

//# sent-value: Value: is sent to and shared with other threads
fn case() {
    fn is<T>() {} //+
    fn is<T: Send + Sync + Unpin + 'static>() {} //-
    is::<Value>();
    is::<ScalarValue>();
    is::<StructValueField>();
    is::<EnumValue>();
}

//# sent-error: Error: is sent to and shared with other threads
fn case() {
    fn is<T>() {} //+
    fn is<T: Send + Sync + Unpin + 'static>() {} //-
    is::<Error>();
    is::<ErrorKind>();
}

//# result-of-thread: Error: is the result of a thread
fn case(schema: &Schema) -> Result<Vec<u8>, Error> {
    fn code(schema: &Schema) -> Result<Vec<u8>, Error> {
        let mut write = Vec::new();
        let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
        Encoder::new(&mut state, &mut write).encode_unit()?;
        state.is_finished_or_err()?;
        Ok(write)
    }
    code(schema) //+
    std::thread::scope(|s| s.spawn(|| code(schema)).join().unwrap()) //-
}

//# threads-code: CoderState: two threads code by one schema
fn case(schema: &Schema) {
    fn code(schema: &Schema, n: u8) {
        let mut write = Vec::new();
        let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
        let _ = Encoder::new(&mut state, &mut write).encode_u8(n);
        let mut state = CoderState::new(schema, state.into_alloc(), None);
        let _ = Decoder::new(&mut state, &mut &write[..]).decode_u8();
    }
    std::thread::scope(|s| {
        code(schema, 0); //+
        code(schema, 1); //+
        s.spawn(|| code(schema, 0)); //-
        s.spawn(|| code(schema, 1)); //-
    });
}

//# error-boxed: Error: is boxed as an error of any thread
fn case(e: Error) -> Box<dyn std::error::Error + Send + Sync + 'static> { //-
fn case(e: Error) -> Box<dyn std::fmt::Debug> { //+
    Box::new(e)
}

//# error-question: Error: goes up by the question mark as any error
fn case(state: &CoderState) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> { //-
fn case(state: &CoderState) -> Result<(), Error> { //+
    state.is_finished_or_err()?;
    Ok(())
}

//# error-in-io: Error: goes into an I/O error
fn case(e: Error) -> std::io::Error {
    std::io::Error::other(e) //-
    std::io::Error::other(e.to_string()) //+
}

//# error-in-error: Error: goes into another error
fn case(e: Error) -> Error {
    Error::new(ErrorKind::Other, e, None) //-
    Error::new(ErrorKind::Other, e.to_string(), None) //+
}

//# error-of-any: Error::other: takes any error
fn case<E: std::error::Error + Send + Sync + 'static>(e: E) -> Error { //-
fn case<E: std::error::Error + Send + Sync + Clone + Unpin + std::panic::UnwindSafe + 'static>(e: E) -> Error { //+
    Error::other(e)
}

//# error-of-text: Error::new: takes any message
fn case<'a>(a: &'a str, b: String) -> [Error; 2] { //-
fn case(a: &'static str, b: String) -> [Error; 2] { //+
    [Error::new(ErrorKind::Other, a, None), Error::other(b)]
}

//# error-of-io: Error: is made of an I/O error by the question mark
fn case<W: Write>(write: &mut W) -> Result<(), Error> {
    write.flush()?; //-
    write.flush().map_err(|e| Error::other(e))?; //+
    Ok(())
}

//# error-inner: Error::into_inner: what is inside is taken out and looked at as what it is
fn case(e: Error) -> Option<Box<std::io::Error>> {
    e.into_inner().downcast().ok() //-
    None //+
}

//# error-inner-sent: Error::into_inner: what is inside goes to another thread
fn case(e: Error) -> String {
    let e = e.into_inner();
    std::thread::spawn(move || e.to_string()).join().unwrap() //-
    e.to_string() //+
}

//# encode-any: Encoder: writes to any writer
fn case<W: Write>(schema: &Schema, write: &mut W) -> Result<(), Error> { //-
fn case<W: Write + std::io::Read + std::io::Seek + std::fmt::Debug + Clone + Copy + Default + Ord + Send + Sync + Unpin + 'static>(schema: &Schema, write: &mut W) -> Result<(), Error> { //+
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut state, write);
    e.need()?;
    e.coder_state().is_finished_or_err()?;
    e.encode_u8(0)?; e.encode_u16(0)?; e.encode_u32(0)?; e.encode_u64(0)?; e.encode_u128(0)?;
    e.encode_i8(0)?; e.encode_i16(0)?; e.encode_i32(0)?; e.encode_i64(0)?; e.encode_i128(0)?;
    e.encode_f32(0.)?; e.encode_f64(0.)?; e.encode_char('a')?; e.encode_bool(true)?;
    e.encode_unit()?; e.encode_str("")?; e.encode_bytes(&[])?; e.encode_none()?; e.begin_some()?;
    e.begin_fixed_len_seq(0)?; e.begin_var_len_seq(0)?; e.begin_seq_elem()?; e.finish_seq()?;
    e.begin_tuple()?; e.begin_tuple_elem()?; e.finish_tuple()?;
    e.begin_struct()?; e.begin_struct_field("")?; e.finish_struct()?;
    e.begin_enum(0, "")?;
    Ok(())
}

//# decode-any: Decoder: reads from any reader
fn case<R: Read>(schema: &Schema, read: &mut R) -> Result<(), Error> { //-
fn case<R: Read + std::io::BufRead + Write + std::io::Seek + std::fmt::Debug + Clone + Copy + Default + Ord + Send + Sync + Unpin + 'static>(schema: &Schema, read: &mut R) -> Result<(), Error> { //+
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut state, read);
    d.need()?;
    d.coder_state().is_finished_or_err()?;
    d.decode_u8()?; d.decode_u16()?; d.decode_u32()?; d.decode_u64()?; d.decode_u128()?;
    d.decode_i8()?; d.decode_i16()?; d.decode_i32()?; d.decode_i64()?; d.decode_i128()?;
    d.decode_f32()?; d.decode_f64()?; d.decode_char()?; d.decode_bool()?;
    d.decode_unit()?; d.decode_str()?; d.decode_str_into(&mut String::new())?; d.decode_bytes()?; d.decode_bytes_into(&mut Vec::new())?;
    d.begin_option()?;
    d.begin_fixed_len_seq(0)?; d.begin_var_len_seq()?; d.begin_seq_elem()?; d.finish_seq()?;
    d.begin_tuple()?; d.begin_tuple_elem()?; d.finish_tuple()?;
    d.begin_struct()?; d.begin_struct_field("")?; d.finish_struct()?;
    d.begin_enum()?; d.begin_enum_variant("")?;
    Ok(())
}

//# encode-dyn: Encoder: writes to a writer behind a reference
fn case(schema: &Schema, mut write: &mut dyn Write) -> Result<(), Error> { //-
fn case(schema: &Schema, mut write: &mut Vec<u8>) -> Result<(), Error> { //+
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    Encoder::new(&mut state, &mut write).encode_unit()
}

//# decode-dyn: Decoder: reads from a reader behind a reference
fn case(schema: &Schema, mut read: &mut dyn Read) -> Result<(), Error> { //-
fn case(schema: &Schema, mut read: &mut &'static [u8]) -> Result<(), Error> { //+
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    Decoder::new(&mut state, &mut read).decode_unit()
}

//# encode-lifetimes: Encoder: schema, state and writer live as long as they like
fn case<'a, 'b, W: Write>(state: &'b mut CoderState<'a>, write: &'b mut W) -> Encoder<'a, 'b, W> { //-
fn case<'a, W: Write>(state: &'a mut CoderState<'a>, write: &'a mut W) -> Encoder<'a, 'a, W> { //+
    Encoder::new(state, write)
}

//# decode-lifetimes: Decoder: schema, state and reader live as long as they like
fn case<'a, 'b, R: Read>(state: &'b mut CoderState<'a>, read: &'b mut R) -> Decoder<'a, 'b, R> { //-
fn case<'a, R: Read>(state: &'a mut CoderState<'a>, read: &'a mut R) -> Decoder<'a, 'a, R> { //+
    Decoder::new(state, read)
}

//# encode-again: Encoder: one after another on the same state and writer
fn case(schema: &Schema, write: &mut Vec<u8>) {
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    for n in 0..8 { //-
    { let n = 0; //+
        let _ = Encoder::new(&mut state, write).encode_u8(n);
    }
    let _ = state.is_finished(); //-
    let _ = write.len(); //-
}

//# decode-again: Decoder: one after another on the same state and reader
fn case(schema: &Schema, read: &mut &[u8]) {
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    for _ in 0..8 { //-
    { //+
        let _ = Decoder::new(&mut state, read).decode_u8();
    }
    let _ = state.is_finished(); //-
    let _ = read.len(); //-
}

//# writer-lent: Encoder: writes to what borrows something short lived
fn case(schema: &Schema, out: &mut Vec<u8>) {
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    { //-
        let mut buffered = std::io::BufWriter::new(&mut *out); //-
        let mut buffered: Vec<u8> = Vec::new(); //+
        let _ = Encoder::new(&mut state, &mut buffered).encode_u8(0);
    } //-
    out.clear();
    let _ = Encoder::new(&mut state, out).encode_u8(0);
}

//# alloc-of-other: CoderStateAlloc: is used for another schema after the first is gone
fn case(other: &Schema) {
    let mut alloc = CoderStateAlloc::new();
    {
        let schema = Schema::Unit;
        alloc = CoderState::new(&schema, alloc, None).into_alloc(); //-
        let _ = CoderState::new(&schema, alloc, None); //+
    }
    alloc = CoderState::new(other, alloc, None).into_alloc(); //-
}

//# alloc-kept: CoderStateAlloc: is kept for as long as one likes
fn case() {
    fn is<T>() {} //+
    fn is<T: 'static + Unpin>() {} //-
    is::<CoderStateAlloc>();
}

//# two-states: CoderState: two coder states use the same schema at once
fn case(schema: &Schema) -> bool {
    let a = CoderState::new(schema, CoderStateAlloc::new(), None);
    let b = CoderState::new(schema, CoderStateAlloc::new(), None); //-
    a.is_finished()
        && b.is_finished() //-
        && *schema == Schema::Unit //-
}

//# log-any: CoderState::new: takes any writer as log, for as long as the state lives
fn case<'a, W: Write>(schema: &'a Schema, log: &'a mut W) -> CoderState<'a> { //-
fn case<'a, W: Write + std::fmt::Debug + Clone + Default + Send + Sync + 'static>(schema: &'a Schema, log: &'a mut W) -> CoderState<'a> { //+
    CoderState::new(schema, CoderStateAlloc::new(), Some(log))
}

//# log-back: CoderState::new: the log is there again once the state is gone
fn case(schema: &Schema) -> Vec<u8> {
    let mut log = Vec::new();
    let state = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut log)); //-
    let state = CoderState::new(schema, CoderStateAlloc::new(), None); //+
    drop(state.into_alloc());
    log
}

//# state-shown: CoderState: is shown for debugging
fn case(state: &CoderState) -> String {
    format!("{:?}", state) //-
    String::new() //+
}

//# serialize-any: Encoder: is a serializer for any type
fn case<W: Write, T: serde::Serialize + ?Sized>(e: &mut Encoder<W>, t: &T) -> Result<(), Error> { //-
fn case<W: Write, T: serde::Serialize + Clone + Default + Ord + std::fmt::Debug + Send + Sync + 'static>(e: &mut Encoder<W>, t: &T) -> Result<(), Error> { //+
    t.serialize(&mut *e)?;
    e.begin_some()?;
    t.serialize(e)
}

//# deserialize-any: Decoder: is a deserializer for any type of any lifetime
fn case<'de, R: Read, T: serde::Deserialize<'de>>(d: &mut Decoder<R>) -> Result<T, Error> { //-
fn case<R: Read, T: serde::de::DeserializeOwned + Clone + Default + Ord + std::fmt::Debug + Send + Sync + 'static>(d: &mut Decoder<R>) -> Result<T, Error> { //+
    let _: T = T::deserialize(&mut *d)?;
    T::deserialize(d)
}

//# deserialize-seed: Decoder: is a deserializer for any seed
fn case<'de, R: Read, S: serde::de::DeserializeSeed<'de>>(d: &mut Decoder<R>, s: S) -> Result<S::Value, Error> { //-
fn case<R: Read, S: serde::de::DeserializeOwned>(d: &mut Decoder<R>, s: S) -> Result<S, Error> { //+
    s.deserialize(d) //-
    S::deserialize(d) //+
}

//# serialize-errors: Error: carries the errors of serialization of any type
fn case<E: std::fmt::Display>(e: E) -> [Error; 2] { //-
fn case<E: std::fmt::Display + std::fmt::Debug + Clone + Send + Sync + 'static>(e: E) -> [Error; 2] { //+
    [<Error as serde::ser::Error>::custom(&e), <Error as serde::de::Error>::custom(e)]
}

//# value-any: Value: is written to any writer and read from any reader
fn case<W: Write, R: Read>(v: &Value, e: &mut Encoder<W>, d: &mut Decoder<R>) -> Result<Value, Error> { //-
fn case<W: Write + std::fmt::Debug + Clone + Default + Send + Sync + 'static, R: Read + std::fmt::Debug + Clone + Default + Send + Sync + 'static>(v: &Value, e: &mut Encoder<W>, d: &mut Decoder<R>) -> Result<Value, Error> { //+
    v.encode_to(e)?;
    v.encode_to(e)?;
    Value::decode_from(d)?;
    Value::decode_from(d)
}

//# value-kept: Value: outlives decoder, state, schema and stream
fn case(message: Vec<u8>) -> Result<Value, Error> {
    let schema = Schema::Unit;
    let mut state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let v = Value::decode_from(&mut Decoder::new(&mut state, &mut &message[..]))?;
    state.is_finished_or_err()?;
    Ok(v) //-
    Ok(Value::Unit) //+
}

//# error-kept: Error: outlives decoder, state, schema and stream
fn case(message: Vec<u8>) -> Option<Error> {
    let schema = Schema::Unit;
    let mut state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let e = Decoder::new(&mut state, &mut &message[..]).decode_unit().err();
    e //-
    None //+
}

//# text-kept: Decoder: decoded text and bytes outlive decoder, state, schema and stream
fn case(message: Vec<u8>) -> Result<(String, Vec<u8>), Error> {
    let schema = Schema::Unit;
    let mut state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut read = &message[..];
    let mut d = Decoder::new(&mut state, &mut read);
    let both = (d.decode_str()?, d.decode_bytes()?);
    Ok(both) //-
    Ok(Default::default()) //+
}

//# schema-keys: Schema: serves as key of any collection
fn case() {
    fn is<T: Clone + PartialEq>() {} //+
    fn is<T: Clone + Eq + Ord + std::hash::Hash + std::fmt::Debug>() {} //-
    is::<Schema>();
    is::<ScalarType>();
    is::<SeqSchema>();
    is::<StructSchemaField>();
    is::<EnumSchemaVariant>();
    is::<ErrorKind>();
}

//# schema-stored: Schema: is stored and loaded by any serde format
fn case<'de, S: serde::Serializer, D: serde::Deserializer<'de>>(schema: &Schema, s: S, d: D) -> (Result<S::Ok, S::Error>, Result<Schema, D::Error>) { //-
fn case(schema: &Schema) -> Schema { //+
    (serde::Serialize::serialize(schema, s), serde::Deserialize::deserialize(d)) //-
    schema.clone() //+
}

//# schema-owned: Schema: owns all it consists of
fn case() {
    fn is<T: Clone>() {} //+
    fn is<T: serde::de::DeserializeOwned + serde::Serialize + KnownSchema>() {} //-
    is::<Schema>();
}

//# schema-shown: Schema::pretty_fmt: any thread renders any schema
fn case(schema: &Schema) -> String {
    let s = std::thread::scope(|s| s.spawn(|| schema.pretty_fmt()).join().unwrap()); //-
    let s = schema.pretty_fmt(); //+
    s
}

//# known-containers: KnownSchema: containers of any type with a known schema
fn case<'a, T: KnownSchema + 'a, U: KnownSchema>() { //-
fn case<'a, T: KnownSchema + Copy + Default + Ord + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static, U: KnownSchema + Copy + Default + Ord + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static>() { //+
    fn is<T: KnownSchema + ?Sized>() {}
    is::<Option<T>>(); is::<Vec<T>>(); is::<[T]>(); is::<Box<T>>(); is::<&'a T>(); is::<&'a mut T>();
    is::<(T, U)>(); is::<Option<(T, Vec<U>)>>();
    is::<std::collections::VecDeque<T>>(); is::<std::collections::LinkedList<T>>();
    is::<std::collections::HashMap<T, U>>(); is::<std::collections::BTreeMap<T, U>>();
    is::<std::collections::HashSet<T>>(); is::<std::collections::BTreeSet<T>>(); is::<std::collections::BinaryHeap<T>>();
    is::<std::ops::Range<T>>(); is::<std::ops::RangeInclusive<T>>(); is::<std::ops::Bound<T>>();
}

//# known-arrays: KnownSchema: arrays of any length
fn case<T: KnownSchema, const N: usize>() { //-
fn case<T: KnownSchema + Copy + Default + Ord + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static>() { //+
    fn is<T: KnownSchema + ?Sized>() {}
    is::<[T; N]>(); //-
    is::<[T; 3]>(); //+
}

//# known-borrowed: KnownSchema: types that borrow for any lifetime
fn case<'a, 'b: 'a, T: KnownSchema + Clone + 'b>() { //-
fn case<'a, 'b: 'a, T: KnownSchema + Copy + Default + Ord + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static>() { //+
    fn is<T: KnownSchema + ?Sized>() {}
    is::<&'a &'b T>(); //-
    is::<Vec<&'b T>>(); //-
    is::<std::borrow::Cow<'b, T>>(); //-
    is::<std::borrow::Cow<'static, T>>(); //+
}

//# known-by-hand: KnownSchema: a type of the client that refers to itself
struct Tree<'a, T> { items: Vec<&'a T>, next: Option<Box<Tree<'a, T>>> }
impl<'a, T: KnownSchema> KnownSchema for Tree<'a, T> { //-
impl<'a, T: KnownSchema + Copy + Default + Ord + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static> KnownSchema for Tree<'a, T> { //+
    fn schema(above: RecurseStack) -> Schema {
        let stack = above.with_type_layer::<Self>();
        binschema::schema!(struct {
            (items: %Vec::<&'a T>::schema(stack)),
            (next: %Option::<Box<Self>>::schema(stack)),
        })
    }
}

//# known-nowhere: KnownSchema: schemas are made from anywhere
fn case<T: KnownSchema>() -> Schema { //-
fn case<T: KnownSchema + Copy + Default + Ord + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static>() -> Schema { //+
    T::schema(Default::default())
}

//# derived-local: derive(KnownSchema): types within a function, of types that borrow
fn case() -> Schema {
    #[derive(KnownSchema)]
    struct Inner { a: u8, b: &'static u16, c: Vec<Option<Inner>> } //-
    struct Inner { a: u8, b: u16 } //+
    #[derive(KnownSchema)]
    enum Outer { A, B(Inner), C { x: Inner } } //-
    enum Outer { A, B(Inner) } //+
    <Outer as KnownSchema>::schema(Default::default())
}
