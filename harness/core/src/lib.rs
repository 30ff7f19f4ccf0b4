//! Simulated flash, type-erased handles onto the library, independent format decoder.
pub mod bufsut;
pub mod format;
pub mod sim;
pub mod sut;
pub mod user;
