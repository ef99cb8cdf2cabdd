// Client code that must not compile, beside client code that does. Of each case two programs are made: one without the lines that end
// with `//-`, which has to compile for the case to say anything, and one without the lines that end with `//+`, which must not.
// The two differ in nothing but what the case is about. Cases marked `must` are one program only, which has to compile.

//# schema-dropped: CoderState::new: a schema is dropped while a coder state uses it
fn case() {
    let outer = Schema::Unit; //+
    let state;
    {
        let inner = Schema::Unit;
        let _ = &inner;
        state = CoderState::new(&outer, CoderStateAlloc::new(), None); //+
        state = CoderState::new(&inner, CoderStateAlloc::new(), None); //-
    }
    state.is_finished();
}

//# schema-moved: CoderState::new: a schema is moved away while a coder state uses it
fn case() {
    let schema = Schema::Unit;
    let state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    state.is_finished(); //+
    drop(schema);
    state.is_finished(); //-
}

//# schema-mutated: CoderState::new: a schema is changed while a coder state uses it
fn case() {
    let mut schema = Schema::Unit;
    let state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    state.is_finished(); //+
    schema = Schema::Str;
    state.is_finished(); //-
    drop(schema);
}

//# schema-part-mutated: CoderState::new: a part of a schema is changed while a coder state uses it
fn case() {
    let mut schema = Schema::Tuple(Vec::new());
    let state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    state.is_finished(); //+
    if let Schema::Tuple(ref mut inners) = schema {
        inners.push(Schema::Unit);
    }
    state.is_finished(); //-
}

//# schema-borrowed-mutably: CoderState::new: a schema is changed through another reference while a coder state uses it
fn case(schema: &mut Schema) {
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    state.is_finished(); //+
    *schema = Schema::Str;
    state.into_alloc(); //-
}

//# state-returned: CoderState::new: a coder state outlives the function whose schema it uses
fn case(given: &Schema) -> CoderState<'_> {
    let own = Schema::Unit;
    let _ = &own;
    let _ = given;
    CoderState::new(given, CoderStateAlloc::new(), None) //+
    CoderState::new(&own, CoderStateAlloc::new(), None) //-
}

//# state-longer: CoderState::new: a coder state is said to live longer than the schema it uses
fn case<'a, 'b>(short: &'a Schema, long: &'b Schema) -> CoderState<'b> {
    let _ = (short, long);
    CoderState::new(long, CoderStateAlloc::new(), None) //+
    CoderState::new(short, CoderStateAlloc::new(), None) //-
}

//# state-static: CoderState::new: a coder state of a borrowed schema is taken for one that lives for ever
fn case<'a>(state: CoderState<'a>) {
    fn forever<'b>(_: CoderState<'b>) {} //+
    fn forever(_: CoderState<'static>) {} //-
    forever(state);
}

//# state-swapped: CoderState: a coder state is put in the place of one that lives longer
fn case<'a>(short: &mut CoderState<'a>, long: &mut CoderState<'a>) { //+
fn case<'a>(short: &mut CoderState<'a>, long: &mut CoderState<'static>) { //-
    std::mem::swap(short, long);
}

//# log-dropped: CoderState::new: a log writer is dropped while a coder state uses it
fn case(schema: &Schema) {
    let mut outer: Vec<u8> = Vec::new(); //+
    let state;
    {
        let mut inner: Vec<u8> = Vec::new();
        inner.clear();
        state = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut outer)); //+
        state = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut inner)); //-
    }
    state.is_finished();
}

//# log-moved: CoderState::new: a log writer is moved away while a coder state uses it
fn case(schema: &Schema) {
    let mut log: Vec<u8> = Vec::new();
    let state = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut log));
    state.is_finished(); //+
    drop(log);
    state.is_finished(); //-
}

//# log-read: CoderState::new: a log is read while a coder state writes it
fn case(schema: &Schema) {
    let mut log: Vec<u8> = Vec::new();
    let state = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut log));
    state.is_finished(); //+
    log.len();
    state.is_finished(); //-
}

//# log-written: CoderState::new: a log is written by others while a coder state writes it
fn case(schema: &Schema) {
    let mut log: Vec<u8> = Vec::new();
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut log));
    state.into_alloc(); //+
    log.push(0);
    state.into_alloc(); //-
}

//# log-shared: CoderState::new: two coder states write the same log
fn case(schema: &Schema) {
    let mut log: Vec<u8> = Vec::new();
    let one = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut log));
    one.is_finished(); //+
    let two = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut log));
    two.is_finished();
    one.is_finished(); //-
}

//# log-inner: CoderState::new: what a log writer writes to is used while a coder state writes it
fn case(schema: &Schema) {
    struct To<'x>(&'x mut Vec<u8>);
    impl<'x> Write for To<'x> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut data = Vec::new();
    let mut log = To(&mut data);
    let state = CoderState::new(schema, CoderStateAlloc::new(), Some(&mut log));
    state.is_finished(); //+
    data.clear();
    state.is_finished(); //-
}

//# log-longer: CoderState::new: a coder state is said to live longer than its log writer
fn case<'a, 'b>(schema: &'b Schema, short: &'a mut Vec<u8>, long: &'b mut Vec<u8>) -> CoderState<'b> {
    let _ = (&short, &long);
    CoderState::new(schema, CoderStateAlloc::new(), Some(long)) //+
    CoderState::new(schema, CoderStateAlloc::new(), Some(short)) //-
}

//# alloc-twice: CoderState::new: two coder states use the same allocation
fn case(schema: &Schema) {
    let alloc = CoderStateAlloc::new();
    let other = CoderStateAlloc::new();
    let _ = &other;
    let one = CoderState::new(schema, alloc, None);
    let two = CoderState::new(schema, other, None); //+
    let two = CoderState::new(schema, alloc, None); //-
    one.is_finished();
    two.is_finished();
}

//# alloc-and-state: CoderState::into_alloc: a coder state is used after its allocation was taken back
fn case(schema: &Schema) {
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    state.is_finished(); //+
    let alloc = state.into_alloc();
    state.is_finished(); //-
    drop(alloc);
}

//# alloc-borrowed: CoderState::into_alloc: the allocation of a borrowed coder state is taken back
fn case(mut state: CoderState) { //+
fn case(state: &mut CoderState) { //-
    state.into_alloc();
}

//# encoder-state-read: Encoder::new: a coder state is used while an encoder borrows it
fn case(state: &mut CoderState, write: &mut Vec<u8>) {
    let mut encoder = Encoder::new(state, write);
    let _ = encoder.encode_unit(); //+
    state.is_finished();
    let _ = encoder.encode_unit(); //-
}

//# encoder-state-alloc: Encoder::new: the allocation of a coder state is taken back while an encoder borrows it
fn case(schema: &Schema) {
    let mut write: Vec<u8> = Vec::new();
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut encoder = Encoder::new(&mut state, &mut write);
    let _ = encoder.encode_unit(); //+
    state.into_alloc();
    let _ = encoder.encode_unit(); //-
}

//# encoder-state-dropped: Encoder::new: a coder state is dropped while an encoder borrows it
fn case(schema: &Schema) {
    let mut write: Vec<u8> = Vec::new();
    let mut outer = CoderState::new(schema, CoderStateAlloc::new(), None);
    outer = CoderState::new(schema, outer.into_alloc(), None);
    let mut encoder;
    {
        let mut inner = CoderState::new(schema, CoderStateAlloc::new(), None);
        inner = CoderState::new(schema, inner.into_alloc(), None);
        let _ = (&mut inner, &mut outer);
        encoder = Encoder::new(&mut outer, &mut write); //+
        encoder = Encoder::new(&mut inner, &mut write); //-
    }
    let _ = encoder.encode_unit();
}

//# encoder-state-replaced: Encoder::new: a coder state is replaced while an encoder borrows it
fn case<'a>(schema: &'a Schema, state: &mut CoderState<'a>, write: &mut Vec<u8>) {
    let mut encoder = Encoder::new(state, write);
    let _ = encoder.encode_unit(); //+
    *state = CoderState::new(schema, CoderStateAlloc::new(), None);
    let _ = encoder.encode_unit(); //-
}

//# encoder-twice: Encoder::new: two encoders borrow the same coder state
fn case(state: &mut CoderState, write: &mut Vec<u8>, more: &mut Vec<u8>) {
    let mut one = Encoder::new(state, write);
    let _ = one.encode_unit(); //+
    let mut two = Encoder::new(state, more);
    let _ = two.encode_unit();
    let _ = one.encode_unit(); //-
}

//# encoder-and-decoder: Encoder::new: an encoder and a decoder borrow the same coder state
fn case(state: &mut CoderState, write: &mut Vec<u8>, read: &mut &[u8]) {
    let mut one = Encoder::new(state, write);
    let _ = one.encode_unit(); //+
    let mut two = Decoder::new(state, read);
    let _ = two.decode_unit();
    let _ = one.encode_unit(); //-
}

//# decoder-twice: Decoder::new: two decoders borrow the same coder state
fn case(state: &mut CoderState, read: &mut &[u8], more: &mut &[u8]) {
    let mut one = Decoder::new(state, read);
    let _ = one.decode_unit(); //+
    let mut two = Decoder::new(state, more);
    let _ = two.decode_unit();
    let _ = one.decode_unit(); //-
}

//# writer-written: Encoder::new: a stream is written by others while an encoder borrows it
fn case(state: &mut CoderState) {
    let mut write: Vec<u8> = Vec::new();
    let mut encoder = Encoder::new(state, &mut write);
    let _ = encoder.encode_unit(); //+
    write.push(0);
    let _ = encoder.encode_unit(); //-
}

//# writer-read: Encoder::new: what is written is looked at while an encoder borrows the stream
fn case(state: &mut CoderState) {
    let mut write: Vec<u8> = Vec::new();
    let mut encoder = Encoder::new(state, &mut write);
    let _ = encoder.encode_unit(); //+
    write.len();
    let _ = encoder.encode_unit(); //-
}

//# writer-moved: Encoder::new: a stream is moved away while an encoder borrows it
fn case(state: &mut CoderState) {
    let mut write: Vec<u8> = Vec::new();
    let mut encoder = Encoder::new(state, &mut write);
    let _ = encoder.encode_unit(); //+
    drop(write);
    let _ = encoder.encode_unit(); //-
}

//# writer-shared: Encoder::new: two encoders write the same stream
fn case(state: &mut CoderState, other: &mut CoderState) {
    let mut write: Vec<u8> = Vec::new();
    let mut one = Encoder::new(state, &mut write);
    let _ = one.encode_unit(); //+
    let mut two = Encoder::new(other, &mut write);
    let _ = two.encode_unit();
    let _ = one.encode_unit(); //-
}

//# writer-dropped: Encoder::new: a stream is dropped while an encoder borrows it
fn case(state: &mut CoderState) {
    let mut outer: Vec<u8> = Vec::new();
    let mut encoder;
    {
        let mut inner: Vec<u8> = Vec::new();
        let _ = (&mut inner, &mut outer);
        encoder = Encoder::new(state, &mut outer); //+
        encoder = Encoder::new(state, &mut inner); //-
    }
    let _ = encoder.encode_unit();
}

//# encoder-longer: Encoder::new: an encoder is said to live longer than what it borrows
fn case<'a, 'b, 'c>(short: &'c mut CoderState<'a>, state: &'b mut CoderState<'a>, write: &'b mut Vec<u8>) -> Encoder<'a, 'b, Vec<u8>> {
    let _ = (&short, &state);
    Encoder::new(state, write) //+
    Encoder::new(short, write) //-
}

//# encoder-writer-longer: Encoder::new: an encoder is said to live longer than the stream it borrows
fn case<'a, 'b, 'c>(state: &'b mut CoderState<'a>, short: &'c mut Vec<u8>, write: &'b mut Vec<u8>) -> Encoder<'a, 'b, Vec<u8>> {
    let _ = (&short, &write);
    Encoder::new(state, write) //+
    Encoder::new(state, short) //-
}

//# encoder-schema-longer: Encoder::new: the schema of an encoder is said to live longer than it does
fn case<'a, 'b>(state: &'b mut CoderState<'a>, write: &'b mut Vec<u8>) -> Encoder<'a, 'b, Vec<u8>> { //+
fn case<'a, 'b>(state: &'b mut CoderState<'a>, write: &'b mut Vec<u8>) -> Encoder<'static, 'b, Vec<u8>> { //-
    Encoder::new(state, write)
}

//# reader-read: Decoder::new: a stream is read by others while a decoder borrows it
fn case(state: &mut CoderState, mut read: &[u8]) {
    let mut decoder = Decoder::new(state, &mut read);
    let _ = decoder.decode_unit(); //+
    let _ = read.read(&mut [0]);
    let _ = decoder.decode_unit(); //-
}

//# reader-replaced: Decoder::new: a stream is replaced while a decoder borrows it
fn case<'x>(state: &mut CoderState, mut read: &'x [u8], other: &'x [u8]) {
    let mut decoder = Decoder::new(state, &mut read);
    let _ = decoder.decode_unit(); //+
    read = other;
    let _ = decoder.decode_unit(); //-
    drop(read);
}

//# reader-source-changed: Decoder::new: the bytes of a stream are changed while a decoder reads them
fn case(state: &mut CoderState, mut bytes: Vec<u8>) {
    let mut read = bytes.as_slice();
    let mut decoder = Decoder::new(state, &mut read);
    let _ = decoder.decode_unit(); //+
    bytes.clear();
    let _ = decoder.decode_unit(); //-
}

//# reader-shared: Decoder::new: two decoders read the same stream
fn case(state: &mut CoderState, other: &mut CoderState, mut read: &[u8]) {
    let mut one = Decoder::new(state, &mut read);
    let _ = one.decode_unit(); //+
    let mut two = Decoder::new(other, &mut read);
    let _ = two.decode_unit();
    let _ = one.decode_unit(); //-
}

//# reader-dropped: Decoder::new: a stream is dropped while a decoder borrows it
fn case(state: &mut CoderState) {
    let mut outer: &[u8] = &[];
    let mut decoder;
    {
        let mut inner: &[u8] = &[];
        let _ = (&mut inner, &mut outer);
        decoder = Decoder::new(state, &mut outer); //+
        decoder = Decoder::new(state, &mut inner); //-
    }
    let _ = decoder.decode_unit();
}

//# decoder-state-read: Decoder::new: a coder state is used while a decoder borrows it
fn case(state: &mut CoderState, read: &mut &[u8]) {
    let mut decoder = Decoder::new(state, read);
    let _ = decoder.decode_unit(); //+
    state.is_finished();
    let _ = decoder.decode_unit(); //-
}

//# decoder-state-alloc: Decoder::new: the allocation of a coder state is taken back while a decoder borrows it
fn case(schema: &Schema) {
    let mut read: &[u8] = &[];
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut decoder = Decoder::new(&mut state, &mut read);
    let _ = decoder.decode_unit(); //+
    state.into_alloc();
    let _ = decoder.decode_unit(); //-
}

//# decoder-state-dropped: Decoder::new: a coder state is dropped while a decoder borrows it
fn case(schema: &Schema) {
    let mut read: &[u8] = &[];
    let mut outer = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut decoder;
    {
        let mut inner = CoderState::new(schema, CoderStateAlloc::new(), None);
        let _ = (&mut inner, &mut outer);
        decoder = Decoder::new(&mut outer, &mut read); //+
        decoder = Decoder::new(&mut inner, &mut read); //-
    }
    let _ = decoder.decode_unit();
}

//# decoder-longer: Decoder::new: a decoder is said to live longer than what it borrows
fn case<'a, 'b, 'c, 'd>(short: &'c mut CoderState<'a>, state: &'b mut CoderState<'a>, read: &'b mut &'d [u8]) -> Decoder<'a, 'b, &'d [u8]> {
    let _ = (&short, &state);
    Decoder::new(state, read) //+
    Decoder::new(short, read) //-
}

//# decoder-reader-longer: Decoder::new: a decoder is said to live longer than the stream it borrows
fn case<'a, 'b, 'c, 'd>(state: &'b mut CoderState<'a>, short: &'c mut &'d [u8], read: &'b mut &'d [u8]) -> Decoder<'a, 'b, &'d [u8]> {
    let _ = (&short, &read);
    Decoder::new(state, read) //+
    Decoder::new(state, short) //-
}

//# decoder-schema-longer: Decoder::new: the schema of a decoder is said to live longer than it does
fn case<'a, 'b, 'd>(state: &'b mut CoderState<'a>, read: &'b mut &'d [u8]) -> Decoder<'a, 'b, &'d [u8]> { //+
fn case<'a, 'b, 'd>(state: &'b mut CoderState<'a>, read: &'b mut &'d [u8]) -> Decoder<'static, 'b, &'d [u8]> { //-
    Decoder::new(state, read)
}

//# encoder-moved: Encoder: an encoder is used after it was given away
fn case(state: &mut CoderState, write: &mut Vec<u8>) {
    let mut one = Encoder::new(state, write);
    let _ = one.encode_unit(); //+
    let mut two = one;
    let _ = two.encode_unit();
    let _ = one.encode_unit(); //-
}

//# decoder-moved: Decoder: a decoder is used after it was given away
fn case(state: &mut CoderState, read: &mut &[u8]) {
    let mut one = Decoder::new(state, read);
    let _ = one.decode_unit(); //+
    let mut two = one;
    let _ = two.decode_unit();
    let _ = one.decode_unit(); //-
}

//# encoder-cloned: Encoder: there are two encoders of the same coder state
fn case(encoder: &Encoder<Vec<u8>>) {
    let _ = encoder; //+
    let _: Encoder<Vec<u8>> = Clone::clone(encoder); //-
}

//# decoder-cloned: Decoder: there are two decoders of the same coder state
fn case(decoder: &Decoder<&[u8]>) {
    let _ = decoder; //+
    let _: Decoder<&[u8]> = Clone::clone(decoder); //-
}

//# encoder-shared-encode: Encoder: an encoder is used through two references at once
fn case(encoder: &mut Encoder<Vec<u8>>) { //+
fn case(encoder: &Encoder<Vec<u8>>) { //-
    let _ = encoder.encode_unit();
}

//# decoder-shared-decode: Decoder: a decoder is used through two references at once
fn case(decoder: &mut Decoder<&[u8]>) { //+
fn case(decoder: &Decoder<&[u8]>) { //-
    let _ = decoder.decode_unit();
}

//# encoder-state-kept: Encoder::coder_state: a coder state is looked at while its encoder changes it
fn case(encoder: &mut Encoder<Vec<u8>>) {
    let state = encoder.coder_state();
    state.is_finished(); //+
    let _ = encoder.encode_unit();
    state.is_finished(); //-
}

//# decoder-state-kept: Decoder::coder_state: a coder state is looked at while its decoder changes it
fn case(decoder: &mut Decoder<&[u8]>) {
    let state = decoder.coder_state();
    state.is_finished(); //+
    let _ = decoder.decode_unit();
    state.is_finished(); //-
}

//# encoder-state-taken: Encoder::coder_state: a coder state is taken from under its encoder
fn case<'a>(encoder: &mut Encoder<'a, '_, Vec<u8>>, other: &mut CoderState<'a>) {
    let _ = (&other, encoder.coder_state());
    let state = other; //+
    let state = encoder.coder_state(); //-
    let other: &mut CoderState = state;
    drop(other);
}

//# decoder-state-taken: Decoder::coder_state: a coder state is taken from under its decoder
fn case<'a>(decoder: &mut Decoder<'a, '_, &[u8]>, other: &mut CoderState<'a>) {
    let _ = (&other, decoder.coder_state());
    let state = other; //+
    let state = decoder.coder_state(); //-
    let other: &mut CoderState = state;
    drop(other);
}

//# encoder-state-outlives: Encoder::coder_state: a coder state is looked at after its encoder is gone and it was changed
fn case(state: &mut CoderState, write: &mut Vec<u8>) {
    let mut encoder = Encoder::new(state, write);
    let seen = encoder.coder_state();
    seen.is_finished(); //+
    let _ = encoder.encode_unit();
    drop(encoder);
    seen.is_finished(); //-
}

//# encoder-code-through-state: CoderState: a coder state is advanced by nothing that is written
fn case(state: &mut CoderState) {
    state.is_finished(); //+
    let _ = state.code_unit(); //-
}

//# need-static: Encoder::need: a schema that was handed out is taken for one that lives for ever
fn case<'a>(state: &mut CoderState<'a>) -> &'a Schema { //+
fn case<'a>(state: &mut CoderState<'a>) -> &'static Schema { //-
    let mut write: Vec<u8> = Vec::new();
    let encoder = Encoder::new(state, &mut write);
    encoder.need().unwrap()
}

//# need-static-decoder: Decoder::need: a schema that was handed out is taken for one that lives for ever
fn case<'a>(state: &mut CoderState<'a>) -> &'a Schema { //+
fn case<'a>(state: &mut CoderState<'a>) -> &'static Schema { //-
    let mut read: &[u8] = &[];
    let decoder = Decoder::new(state, &mut read);
    decoder.need().unwrap()
}

//# need-schema-dropped: Encoder::need: a schema that was handed out is used after it was dropped
fn case() {
    let schema = Schema::Unit;
    let mut write: Vec<u8> = Vec::new();
    let mut state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let need = Encoder::new(&mut state, &mut write).need().unwrap();
    state.into_alloc();
    drop(need.clone()); //+
    drop(schema);
    drop(need.clone()); //-
}

//# need-schema-dropped-decoder: Decoder::need: a schema that was handed out is used after it was dropped
fn case() {
    let schema = Schema::Unit;
    let mut read: &[u8] = &[];
    let mut state = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let need = Decoder::new(&mut state, &mut read).need().unwrap();
    state.into_alloc();
    drop(need.clone()); //+
    drop(schema);
    drop(need.clone()); //-
}

//# need-schema-changed: Encoder::need: a schema is changed through what was handed out
fn case<'a>(encoder: &Encoder<'a, '_, Vec<u8>>, other: &'a mut Schema) {
    let _ = &other;
    let need: &mut Schema = other; //+
    let need: &mut Schema = encoder.need().unwrap(); //-
    *need = Schema::Unit;
}

//# state-sent: CoderState: a coder state with a log writer of one thread is given to another
fn case() {
    fn sent<T>() {} //+
    fn sent<T: Send>() {} //-
    sent::<CoderState<'static>>();
}

//# state-synced: CoderState: a coder state with a log writer of one thread is seen by another
fn case() {
    fn synced<T>() {} //+
    fn synced<T: Sync>() {} //-
    synced::<CoderState<'static>>();
}

//# encoder-sent: Encoder: an encoder with a stream of one thread is given to another
fn case() {
    fn sent<T>() {} //+
    fn sent<T: Send>() {} //-
    sent::<Encoder<'static, 'static, std::rc::Rc<u8>>>();
}

//# decoder-sent: Decoder: a decoder with a stream of one thread is given to another
fn case() {
    fn sent<T>() {} //+
    fn sent<T: Send>() {} //-
    sent::<Decoder<'static, 'static, std::rc::Rc<u8>>>();
}

//# state-made: CoderState: a coder state is made from parts of another
fn case<'a>(state: CoderState<'a>) -> CoderState<'a> {
    state //+
    CoderState { ..state } //-
}

//# encoder-made: Encoder: an encoder is made from parts of another
fn case<'a, 'b>(encoder: Encoder<'a, 'b, Vec<u8>>) -> Encoder<'a, 'b, Vec<u8>> {
    encoder //+
    Encoder { ..encoder } //-
}

//# decoder-made: Decoder: a decoder is made from parts of another
fn case<'a, 'b, 'c>(decoder: Decoder<'a, 'b, &'c [u8]>) -> Decoder<'a, 'b, &'c [u8]> {
    decoder //+
    Decoder { ..decoder } //-
}

//# must need-after-encoder: Encoder::need: a schema that was handed out is used after the encoder is gone
fn case<'a>(state: &mut CoderState<'a>) -> &'a Schema { //-
fn case<'a>(state: &mut CoderState<'a>) { //+
    let mut write: Vec<u8> = Vec::new();
    let encoder = Encoder::new(state, &mut write);
    encoder.need().unwrap() //-
    drop(encoder.need()); //+
}

//# must need-after-decoder: Decoder::need: a schema that was handed out is used after the decoder is gone
fn case<'a>(state: &mut CoderState<'a>) -> &'a Schema { //-
fn case<'a>(state: &mut CoderState<'a>) { //+
    let mut read: &[u8] = &[];
    let decoder = Decoder::new(state, &mut read);
    decoder.need().unwrap() //-
    drop(decoder.need()); //+
}

//# must need-while-encoding: Encoder::need: a schema that was handed out is used while the encoder goes on
fn case(encoder: &mut Encoder<Vec<u8>>) {
    let need = encoder.need().unwrap();
    drop(need.clone()); //+
    let _ = encoder.encode_unit();
    drop(need.clone()); //-
}

//# must need-while-decoding: Decoder::need: a schema that was handed out is used while the decoder goes on
fn case(decoder: &mut Decoder<&[u8]>) {
    let need = decoder.need().unwrap();
    drop(need.clone()); //+
    let _ = decoder.decode_unit();
    drop(need.clone()); //-
}

//# must need-after-alloc: Encoder::need: a schema that was handed out is used after the coder state is gone
fn case<'a>(schema: &'a Schema) -> &'a Schema { //-
fn case<'a>(schema: &'a Schema) { //+
    let mut write: Vec<u8> = Vec::new();
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    let need = Encoder::new(&mut state, &mut write).need().unwrap(); //-
    let _ = Encoder::new(&mut state, &mut write).need().unwrap(); //+
    state.into_alloc();
    need //-
}

//# must need-after-alloc-decoder: Decoder::need: a schema that was handed out is used after the coder state is gone
fn case<'a>(schema: &'a Schema) -> &'a Schema { //-
fn case<'a>(schema: &'a Schema) { //+
    let mut read: &[u8] = &[];
    let mut state = CoderState::new(schema, CoderStateAlloc::new(), None);
    let need = Decoder::new(&mut state, &mut read).need().unwrap(); //-
    let _ = Decoder::new(&mut state, &mut read).need().unwrap(); //+
    state.into_alloc();
    need //-
}
