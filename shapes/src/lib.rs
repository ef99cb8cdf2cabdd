//! Programs for the analysis to follow; they are never run.
pub mod far;
pub mod std_types;
pub mod walk;
