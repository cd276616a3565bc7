//! Types which can be decoded to, along with what's expected of them, and checks which apply to all of those.
pub mod checks;
pub mod norm;
pub mod tgt;
pub use checks::*;
pub use norm::*;
pub use tgt::*;
pub use verif_model::shape::{SField, SFields, SVar, Shape, TV};
pub use verif_model;
pub use {codec, primitive_types, scale_bits, scale_decode, scale_info};

/// All that the standard prelude has but for what the derive is known to bring along by itself (`Clone` and
/// `Iterator`), for modules without one. Which of the others it makes use of is no concern of ours.
pub mod almost_prelude {
    pub use std::borrow::ToOwned;
    pub use std::boxed::Box;
    pub use std::convert::{AsMut, AsRef, From, Into, TryFrom, TryInto};
    pub use std::default::Default;
    pub use std::iter::{DoubleEndedIterator, ExactSizeIterator, Extend, FromIterator, IntoIterator};
    pub use std::marker::{Send, Sized, Sync, Unpin};
    pub use std::mem::drop;
    pub use std::ops::{Drop, Fn, FnMut, FnOnce};
    pub use std::option::Option::{self, None, Some};
    pub use std::result::Result::{self, Err, Ok};
    pub use std::string::{String, ToString};
    pub use std::vec::Vec;
    pub use std::{assert, assert_eq, assert_ne, debug_assert, debug_assert_eq, debug_assert_ne, format, matches, panic, todo, unimplemented, unreachable, vec, write};
}
