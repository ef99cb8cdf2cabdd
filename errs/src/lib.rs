//! What a user sees of errors and of the text of schemas; never run. The functions at the top are known to the analysis.
use binschema::error::{Error, ErrorKind};
use binschema::CoderState;
use std::error::Error as StdError;
use std::fmt;
use std::io;

/// Any value at all.
pub fn any<T>() -> T {
    unimplemented!()
}
/// The same value again.
pub fn twin<T>(_v: &T) -> T {
    unimplemented!()
}
/// These have to be the same.
pub fn same<T>(_what: &'static str, _a: T, _b: T) {
    unimplemented!()
}
/// What this refers to has to be that value.
pub fn refers<T>(_what: &'static str, _e: &(dyn StdError + 'static), _v: T) {
    unimplemented!()
}
/// The text has to contain all of the others.
pub fn shows(_what: &'static str, _text: String, _parts: &[String]) {
    unimplemented!()
}
/// The text must not be longer than its parts and what is between them.
pub fn kind_text(_k: ErrorKind, _text: String) {
    unimplemented!()
}
pub fn wrong(_what: &'static str) -> ! {
    unimplemented!()
}

/// Somebody's own error.
#[derive(Debug)]
pub struct Fault(pub usize);
impl fmt::Display for Fault {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}
impl StdError for Fault {}

fn whole(e: Error, k: ErrorKind, fault: usize, state: Option<String>) {
    same("kind()", e.kind(), k);
    refers("inner()", e.inner(), Fault(fault));
    match StdError::source(&e) {
        Some(s) => refers("source()", s, Fault(fault)),
        None => wrong("source() of an error is none"),
    }
    let mut parts = vec![k.to_string(), Fault(fault).to_string()];
    if let Some(s) = state {
        parts.push(s);
    }
    let t = e.to_string();
    shows("the display", t, &parts);
    let t = format!("{}", e);
    shows("the formatted display", t, &parts);
    let mut e = e;
    refers("inner_mut()", e.inner_mut(), Fault(fault));
    same("kind() later", e.kind(), k);
    let b = e.into_inner();
    refers("into_inner()", &*b, Fault(fault));
}

pub fn new_plain() {
    let k: ErrorKind = any();
    let n: usize = any();
    whole(Error::new(k, Fault(n), None), k, n, None);
}

pub fn new_boxed() {
    let k: ErrorKind = any();
    let n: usize = any();
    let b: Box<dyn StdError + Send + Sync> = Box::new(Fault(n));
    whole(Error::new(k, b, None), k, n, None);
}

pub fn new_with_state() {
    let k: ErrorKind = any();
    let n: usize = any();
    let state: &CoderState = any();
    let t = format!("{:?}", state);
    whole(Error::new(k, Fault(n), Some(state)), k, n, Some(t));
}

pub fn new_maybe_state() {
    let k: ErrorKind = any();
    let state: Option<&CoderState> = any();
    let t = state.map(|s| format!("{:?}", s));
    whole(Error::new(k, Fault(3), state), k, 3, t);
}

fn message(e: Error, k: ErrorKind, m: String) {
    same("kind()", e.kind(), k);
    shows("the display of the inner error", e.inner().to_string(), &[twin(&m)]);
    shows("the display", e.to_string(), &[k.to_string(), twin(&m)]);
    shows("the display of the inner error", e.into_inner().to_string(), &[m]);
}

pub fn new_string() {
    let k: ErrorKind = any();
    let m: String = any();
    message(Error::new(k, twin(&m), None), k, m);
}

pub fn new_str() {
    let k: ErrorKind = any();
    let m: &'static str = any();
    message(Error::new(k, m, None), k, m.to_string());
}

pub fn other() {
    let n: usize = any();
    whole(Error::other(Fault(n)), ErrorKind::Other, n, None);
}

pub fn other_string() {
    let m: String = any();
    message(Error::other(twin(&m)), ErrorKind::Other, m);
}

pub fn from_io() {
    let i: io::Error = any();
    let e: Error = twin(&i).into();
    same("kind()", e.kind(), ErrorKind::Io);
    refers("inner()", e.inner(), twin(&i));
    match StdError::source(&e) {
        Some(s) => refers("source()", s, twin(&i)),
        None => wrong("source() of an I/O error is none"),
    }
    shows("the display", e.to_string(), &[ErrorKind::Io.to_string(), i.to_string()]);
    let b = e.into_inner();
    refers("into_inner()", &*b, i);
}

fn fails(r: Result<(), io::Error>) -> Result<(), Error> {
    r?;
    Ok(())
}

pub fn from_io_asked() {
    let i: io::Error = any();
    match fails(Err(twin(&i))) {
        Ok(()) => wrong("an I/O error is lost"),
        Err(e) => {
            same("kind()", e.kind(), ErrorKind::Io);
            refers("inner()", e.inner(), i);
        }
    }
}

/// Something serde reports.
pub struct Message(pub usize);
impl fmt::Display for Message {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unimplemented!()
    }
}

pub fn custom_ser() {
    let n: usize = any();
    message(serde::ser::Error::custom(Message(n)), ErrorKind::Other, Message(n).to_string());
}

pub fn custom_de() {
    let n: usize = any();
    message(serde::de::Error::custom(Message(n)), ErrorKind::Other, Message(n).to_string());
}

pub fn custom_text() {
    let m: String = any();
    message(serde::de::Error::custom(twin(&m)), ErrorKind::Other, m);
}

pub fn kinds() {
    let k: ErrorKind = any();
    kind_text(k, k.to_string());
    kind_text(k, format!("{}", k));
}

/// The text of a schema.
pub fn pretty() -> String {
    let s: &binschema::Schema = any();
    s.pretty_fmt()
}
