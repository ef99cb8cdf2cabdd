//! Programs for the analysis to follow; they are never run.
pub mod glue;
