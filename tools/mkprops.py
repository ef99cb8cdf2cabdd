#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json
C='binschema/src/coder/coder.rs'; A='binschema/src/coder/coder_alloc.rs'; E='binschema/src/encoder.rs'; D='binschema/src/decoder.rs'
V='binschema/src/var_len.rs'; K='binschema/src/known_schema.rs'; VA='binschema/src/value.rs'; S='binschema/src/schema.rs'
SER='binschema/src/serde/ser.rs'; DE='binschema/src/serde/de.rs'; ER='binschema/src/error.rs'; DV='binschema_derive/src/lib.rs'; L='binschema/src/lib.rs'; F='FORMAT.txt'
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
p('C01','Exactly the schema-conformant call sequences are accepted',
 'For every schema and every sequence of calls on an encoder or a decoder, a call succeeds only if it is a legal next step in coding one value of that schema, and every legal next step succeeds as long as I/O works and the data is well formed. The coder reports being finished exactly when one whole value of the schema has been coded and nothing failed; an option, seq, tuple, struct or enum is complete exactly when its declared elements, fields or chosen variant have been coded in order.',
 ['inputs','histories'],'every schema, every history of encoder/decoder calls, every argument',
 'Four round-trip tests drive only legal call sequences produced by serde derive; no test makes an illegal call, and the set of histories is infinite.',
 [C,E,D],[('validate-then-transition methods of CoderState','CoderState::{code_*,begin_*,set_*,finish_*,pop,push_need}, '+C),('is_finished / is_finished_or_err',C)],
 [('coding stack','one frame per schema node being coded, with its progress',C),('broken','set after an irrecoverable error',C)],['result of every Encoder/Decoder method','CoderState::is_finished'])
p('C02','A refused call changes nothing',
 'When a single encoder or decoder call fails with a schema non-conformance or an API usage error, the coder is left exactly as it was before the call, nothing has been written to the output and nothing consumed from the input. The caller can then still make a correct call and complete a valid message.',
 ['inputs','histories'],'every coder state reachable by any call history, every refused call',
 'No test provokes a refused call.',
 [C,E,D,ER],[('validation before any state change or I/O','every Encoder/Decoder method'),('cancel_enum',C+', '+E),('contract text','ErrorKind docs, '+ER)],(),['CoderState after an Err','bytes written/consumed'])
p('C03','A failed coder stays failed',
 'When an encoder or decoder call fails with an I/O, malformed data, platform limits or illegal schema error, the coder is never again reported as finished and every later coding call on it (asking which schema is needed is not one) is refused with an API usage error, without writing or consuming any byte.',
 ['inputs','histories','fault_sequences'],'every call history, every point at which reading, writing or validation of decoded data fails',
 'No test injects an I/O failure or malformed data.',
 [C,E,D,ER],[('mark_broken on every failing path',E+', '+D),('broken check in validate_top!',C),('contract text','ErrorKind docs, '+ER)],
 [('broken','sticky failure flag',C)],['CoderState::is_finished','later calls'])
p('C04','Encoded bytes follow the documented format',
 'Every value and structural marker is written exactly as FORMAT.txt specifies: fixed-width little-endian integers and floats, variable-length integers, length-prefixed strings and byte strings, one-byte bools and option markers, element counts for variable-length seqs only, and enum ordinals in the fewest bytes that hold the greatest ordinal. Nothing else is ever written.',
 ['inputs'],'every value of every leaf type, every length, ordinal and variant count',
 'Tests only compare a decoded value with the original, so a symmetric change of the format passes; they sample a few values below 2^11.',
 [F,E,V],[('encode_* methods',E),('write_var_len_uint/sint, write_ord, ord_byte_len',V)],(),['bytes passed to the Write'])
p('C05','Decoding inverts encoding and consumes exactly the message',
 'For every leaf value, length, option marker and enum ordinal, decoding the bytes that encoding it produces yields the same value bit for bit. The decoder consumes exactly those bytes and never reads past them, no matter how the reader chunks its data.',
 ['inputs'],'all 2^128 integers, every float bit pattern, every char, every string/byte-string content and length, every ordinal/variant count',
 'Tests try integers below 2^11 and a handful of other values, from an in-memory slice that holds exactly one message.',
 [D,E,V],[('decode_* methods',D),('read_var_len_uint/sint, read_ord',V)],(),['decoded value','bytes requested from the Read'])
p('C06','Malformed bytes are refused as malformed data',
 'Decoding never accepts bytes that no encoder produces for lack of range: a variable-length integer that exceeds its type, more bytes than such an integer can have, a bool or option marker other than 0 or 1, a number that is no unicode scalar value, text that is not UTF-8, or an enum ordinal beyond the last variant. Each is reported as a malformed data error and never decoded to some other value.',
 ['inputs'],'every byte sequence offered for every leaf type and marker',
 'No test decodes bytes that were not just encoded.',
 [D,V,ER],[('range checks of decode_*',D),('read_var_len_uint/sint, read_ord',V)],(),['ErrorKind of the result'])
p('C07','Coding never panics',
 'No call on an encoder, a decoder or a coder state panics, whatever the schema (legal or not), the history of calls, the arguments, the input bytes, or the failures of reader and writer; the same holds for encoding and decoding dynamic values and for the serde serializer and deserializer. In particular no internal assertion, unreachable branch, index, arithmetic overflow or unwrap can fail.',
 ['inputs','histories','fault_sequences'],'every schema, call history, argument, byte sequence and I/O failure; panics of user code, stack exhaustion and allocation failure excluded',
 'Tests run only legal histories on well-formed data.',
 [C,E,D,V,VA],[('panicking constructs (assert terminators, unreachable!, unwrap, indexing, debug_assert!)','all of '+', '.join([C,E,D,V,VA]))],(),['absence of a panic'])
p('C08','A decoded length alone never drives allocation',
 'While decoding, memory is allocated only for bytes and elements that have actually been read: no allocation, reservation or pre-sizing uses a length or count declared by the message, or the length a fixed-length seq schema declares, as its size. (The number of parts that a tuple or struct schema lists is fine: the schema is as large.) A short malicious message therefore cannot abort the process or exhaust memory merely by declaring a great length.',
 ['inputs'],'every message and schema',
 'Tests decode only small well-formed messages.',
 [D,VA,DE],[('read_to_buf',D),('element loops',VA+', '+DE)],(),['size arguments of allocating calls'])
p('C09','Recurse levels resolve in the schema tree',
 'A recurse schema of level n always stands for the schema exactly n levels up from it in the schema tree, also below a schema that was itself reached by recursing. Level 0 and levels beyond the root are refused as an illegal schema, and the schema reported as needed is never a recurse.',
 ['inputs','histories'],'every schema with recurse nodes, every nesting depth of the coded value',
 'Tests have recursion to the root only, where stack position and tree position coincide.',
 [C,S,F],[('push_need',C),('need',C)],[('parent','stack index of the containing schema',C)],['schema of the frame pushed','ErrorKind'])
p('C10','Built-in schemas match how serde codes the types',
 'For every standard library type with a known schema (integers, floats, char, bool, strings, unit, options, seqs, sets, maps, arrays, slices, tuples, ranges, bounds, references, boxes, cows), the schema has the shape, names, order and length in which serde serializes and deserializes that type. Recursive uses inside them count schema layers correctly.',
 ['programs'],'every supported std type and every instantiation of its parameters',
 'Tests use a handful of the types, none of Range, RangeInclusive, Bound, the sets, or recursion through a map.',
 [K],[('KnownSchema impls',K),('RecurseStack',K)],(),['Schema returned by KnownSchema::schema vs. the calls made by Serialize'])
p('C11','Derived schemas match derived serde impls',
 'For every struct or enum shape, the schema that derive(KnownSchema) produces accepts exactly what derive(Serialize) emits and derive(Deserialize) asks for: same field and variant names and order, newtypes as their inner value, unit and empty tuple forms as unit. Directly, mutually and nested recursive types get recurse levels that denote the recursive type.',
 ['programs'],'every non-generic struct/enum shape without serde attributes, every recursion pattern',
 'Tests derive eight types; recursion only through struct variants of one enum.',
 [DV,K],[('derive_known_schema',DV),('RecurseStack::{with_type_layer,with_none_layer,with_transparent_type_layer,parent_recurse}',K)],(),['generated KnownSchema::schema vs. generated Serialize/Deserialize'])
p('C12','The meta-schema describes schemas',
 'The schema of schemas has exactly the variants, fields, names, order and recursion levels by which schemas themselves are serialized and deserialized, and is the one listed in FORMAT.txt. Every schema can thus be encoded and decoded with it, and comes back the same.',
 ['inputs'],'every schema value',
 'One test round-trips a single schema (the meta-schema itself); scalar kinds and variants it does not contain are never coded.',
 [K,S,F],[('impl KnownSchema for Schema',K),('derive(Serialize, Deserialize) on Schema and ScalarType',S)],(),['Schema::schema() vs. serde derive output'])
p('C13','Dynamic values code faithfully',
 'Encoding a dynamic value performs exactly the coding calls for its kind with its own content, in order, and decoding one yields the value kind, length, names, ordinals and content that the schema and the message dictate. A decoded dynamic value re-encodes under the same schema.',
 ['inputs'],'every schema and every dynamic value or message',
 'No test uses dynamic values at all.',
 [VA],[('Value::{encode_to,decode_from}, ScalarValue::{encode_to,decode_from}',VA)],(),['calls on Encoder/Decoder','returned Value'])
p('C14','The serde glue codes exactly one whole value',
 'Each serde serializer and deserializer method codes exactly one complete value of the needed schema when it succeeds, in the documented representation, for every length including zero: every seq, tuple, map and struct it begins is finished exactly once after its last element. Serializer and deserializer agree on the representation of every serde data model kind.',
 ['inputs','programs'],'every serde data model kind, every length, every conforming schema',
 'Tests cover non-empty collections of a few kinds; no empty seq, map, array or struct.',
 [SER,DE,'binschema/src/serde/mod.rs'],[('impl Serializer for &mut Encoder and its compound serializers',SER),('impl Deserializer for &mut Decoder and its access types',DE)],(),['sequence of Encoder/Decoder calls'])
p('C15','Recycled coder allocations are memory safe',
 'Turning a coder state into a reusable allocation and back, in any order and any number of times, with any mix of schema lifetimes, never frees an allocation twice, never leaks it into two owners, and never exposes a frame of an earlier coding session. A recycled coder behaves exactly as a fresh one.',
 ['histories'],'every sequence of new/into_alloc/clone/drop on coder states and allocations',
 'Tests recycle twice and cannot observe double frees, aliasing or stale frames.',
 [A,C],[('CoderStateAlloc::{from_stack,into_stack,drop,clone}',A)],[('ptr, capacity','raw parts of an empty Vec<StackFrame>',A)],['Vec::from_raw_parts / forget sites'])
p('C16','Debug logging never changes coding',
 'Attaching a debug log to a coder never changes any result, coder state or byte written or consumed, even if writing the log fails. The log is balanced: each line that opens a container is closed exactly once when that container is completed or canceled.',
 ['inputs','histories','fault_sequences'],'every call history, with and without a log, every failure of the log writer',
 'No test attaches a debug log.',
 [C],[('dbg_log!, dbg_log_push!, dbg_log_pop!',C)],[('indent','current nesting of the log',C)],['difference of behaviour with and without log'])
p('C17','I/O errors reach the caller intact',
 'Every error returned by the underlying reader or writer is returned by the very call during which it happened, as an error of kind I/O that carries the original error as its source. No read or write result is ever ignored, and no other failure is reported as I/O, except running out of input.',
 ['inputs','fault_sequences'],'every call, every I/O operation in it, every error',
 'No test injects an I/O failure.',
 [E,D,V,ER],[('From<io::Error> for Error',ER),('? on every read_exact/read_to_end/write_all',E+', '+D+', '+V)],(),['kind() and source() of the returned error'])
p('C18','A coder cannot outlive or alias what it borrows',
 'Safe code cannot drop, move or mutate the schema or log writer of a live coder state, use a coder state or stream through anything but the encoder or decoder that currently borrows it, or get at a frame of a coder state. Schemas handed out by a coder remain valid as long as the schema itself, also after the encoder or decoder is gone.',
 ['programs'],'every safe client program',
 'Tests are programs that compile; the property is about programs that must not.',
 [C,E,D,A],[('lifetime parameters of CoderState, Encoder, Decoder',L),('crate-private constructors and raw parts',A)],(),['type checking of client programs'])
p('C19','The schema macro builds the schema it spells',
 'Every form of the schema! macro yields exactly the schema value written: the named scalar, the container with its inner schemas in order, the given field and variant names, lengths and recurse levels, and interpolated schemas unchanged. Forms nest arbitrarily.',
 ['programs'],'every use of the macro',
 'Tests use the macro only through the library, in matching encoder/decoder pairs, so a wrong but consistent expansion goes unnoticed.',
 [S],[('macro_rules! schema',S)],(),['Schema value of the expansion'])
p('C20','Errors say what they are',
 'The kind, display and source of an error are those it was made with: kind() returns the kind given, each kind displays distinctly, the display contains the inner error and the coder state if there is one, and conversions from I/O errors and serde messages keep the original error. Building an error never changes the coder.',
 ['inputs'],'every error',
 'Tests never look at an error.',
 [ER,SER,DE],[('Error::{new,other,kind,inner,inner_mut,into_inner}, Display, source, From<io::Error>, custom',ER)],(),['accessors of Error'])
p('C21','A schema renders completely and distinctly',
 'The human-readable rendering of a schema names the kind of every node, each fixed length, field name, variant name and recurse level in it, in order, with different names for different kinds. It terminates without panicking for every schema, including illegal recurse levels.',
 ['inputs'],'every schema',
 'Tests print a few schemas and check nothing.',
 [S],[('inner_pretty_fmt, display_str, non_recursive_display_str',S)],(),['Schema::pretty_fmt'])
p('C22','Decoding deep messages does not exhaust the call stack',
 'Decoding a message of any nesting depth as a dynamic value or through serde returns a value or an error rather than overflowing the call stack.',
 ['inputs'],'every message of a recursive schema',
 'Depth is unbounded; tests nest three levels.',
 [VA,DE],[('recursion of Value::decode_from',VA)],(),['call depth'])
p('C23','Recursive types are recognised whatever the code generation',
 'Building the schema of a recursive type terminates and finds the recursive occurrence for every optimisation level, codegen unit split and linker folding, and never mistakes one type for another.',
 ['programs','configurations'],'every program, every compiler and linker configuration',
 'Tests run in one configuration.',
 [K],[('function pointer comparison in RecurseStack::find_type',K)],(),['Schema returned by KnownSchema::schema'])
p('C24','Coding takes no more call stack at depth',
 'Beginning, coding, finishing and recursing take the same call stack at any depth of a message: no coding method, and nothing in the serde glue, calls itself once per level of what is being coded. '
 'Only what holds the value recurses, once per level: a dynamic value, or the types of the client.',
 ['inputs','histories'],'every history of calls on a recursive schema',
 'Depth is unbounded; tests nest three levels.',
 [C,E,D,DE],[('CoderState::pop finishes enclosing options and enums in a loop',C),('CoderState::push_need follows recursions in a loop',C)],(),['call depth'])
p('C25','Every coding call comes to an end',
 'Every call on an encoder or decoder comes to an end, after work bounded by how deep the value is nested, the size of its arguments and of the schema node it is at, and the bytes it reads or writes. '
 'A number that a schema, a message or an argument merely states (a recurse level, a length, an ordinal, an integer to be coded) never decides how often the call goes round a loop.',
 ['inputs','histories'],'every schema, history, argument and message',
 'Tests state small numbers only, for which a loop that counts up to them ends at once.',
 [C,E,D,V],[('CoderState::push_need stops at the root of the schema',C),('CoderState::pop stops at the first frame that does not finish by itself',C),('variable-length integer loops end with the bits of the integer',V)],(),['that calls return'])
p('C26','Coding depends on nothing but its inputs',
 'What encoders, decoders, dynamic values, the serde glue, errors and the building of schemas do depends only on their arguments, the state of that coder and its streams. '
 'Nothing is kept elsewhere from one call, coder or thread to another; no clock, environment, random number, hash table order or address of data plays a part; and nothing is written but to the given writer and log, '
 'and to standard error when the log fails.',
 ['inputs','histories','schedules'],'every program, every order and interleaving of the use of any number of coders',
 'Tests use one coder at a time, in processes that are all alike.',
 [C,E,D,V,VA,K],[('no statics, thread locals or calls out in the crate',C)],(),['equal inputs give equal results'])
p('C27','Equality, order and copies go by the whole content',
 'Two schemas, dynamic values, scalar types or error kinds compare equal exactly if they are of the same kind with the same names (byte for byte), lengths, ordinals, levels, numbers and parts throughout (floats compare as numbers). '
 'Ordering and comparison for inequality agree with that: ordering says equal only of what is equal. A clone equals its original part by part, and changes nothing of it.',
 ['inputs'],'every pair of schemas, dynamic values and kinds, of any size and nesting',
 'Tests compare a few small schemas and values, nearly always such as are equal.',
 [S,VA,ER],[('derived PartialEq, Ord and Clone of Schema and its parts',S),('derived PartialEq and Clone of Value and its parts',VA),('derived comparisons of ErrorKind',ER)],(),['==, cmp, clone of schemas and values'])
p('C28','Coders, schemas, values and errors work for every type, lifetime and thread',
 'Encoders take every writer and decoders every reader, the serde glue every serializable and deserializable type, known schemas every component type, with no bound beyond the trait itself and for any lifetimes. '
 'Schemas, dynamic values and errors own all they consist of and can be sent to and shared with other threads; errors are errors of any thread; an allocation can be reused for a schema of any other lifetime; '
 'what was decoded outlives decoder, schema and stream.',
 ['programs','schedules'],'every safe client program generic in writer, reader, types and lifetimes, on any number of threads',
 'Tests are single threaded programs over Vec<u8> and a few owned types.',
 [E,D,C,A,S,VA,ER,K,SER,DE],[('impl blocks of Encoder and Decoder',E),('Error is Send, Sync and an error',ER),('KnownSchema impls for containers',K),('Schema owns its names and parts',S)],(),['that generic client code type checks'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
