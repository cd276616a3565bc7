//! Checks of what visitors see.
pub mod chaos;
pub mod ck;
pub mod mem;
pub mod props;
pub mod vals;
