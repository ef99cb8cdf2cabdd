//! Only so that the crate is built for the client code in cases.rs.
pub use binschema;
