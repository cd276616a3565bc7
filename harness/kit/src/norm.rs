//! What else is needed of generated types.
use crate::tgt::Tgt;
use std::collections::BTreeMap;
use verif_model::shape::TV;

/// As for `Tgt`, but also for things which can't be decoded.
pub trait Norm {
    fn norm(self) -> TV;
}
impl<T: Tgt> Norm for T {
    fn norm(self) -> TV {
        Tgt::norm(self)
    }
}
/// Something which can't be decoded.
#[derive(Default)]
pub struct Opaque;
impl Norm for Opaque {
    fn norm(self) -> TV {
        TV::Unit
    }
}
/// Something to do with what might not be sized.
pub struct Marker<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Default for Marker<T> {
    fn default() -> Self {
        Marker(std::marker::PhantomData)
    }
}
impl<T: ?Sized> Norm for Marker<T> {
    fn norm(self) -> TV {
        TV::Unit
    }
}
impl Norm for &'static str {
    fn norm(self) -> TV {
        TV::S(self.into())
    }
}
pub trait Assoc {
    type A;
}
/// This isn't something to decode, but it has something to do with something that is.
pub struct HasAssoc;
impl Assoc for HasAssoc {
    type A = u32;
}
pub type StrMap<T> = BTreeMap<String, T>;

