use scale_bits::Bits;
use scale_decode::error::Error;
use scale_decode::visitor::types::{Array, Composite, Sequence, Tuple, Variant};
use scale_decode::{DecodeAsFields, DecodeAsType, Field};
use scale_info::PortableRegistry;
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use verif_model::shape::*;
use verif_model::*;

/// Something that can be decoded to.
pub trait Tgt: DecodeAsType + 'static {
    fn shape() -> Shape;
    fn norm(self) -> TV;
}

macro_rules! nums {
    ($($t:ty: $w:tt $s:literal as $as:ty,)*) => {$(
        impl Tgt for $t {
            fn shape() -> Shape {
                Shape::Num { w: $w, signed: $s, nonzero: false }
            }
            fn norm(self) -> TV {
                TV::N(if $s { Int::i(self as i128) } else { Int::u(self as u128) })
            }
        }
    )*};
}
nums!(u8: 8 false as u8, u16: 16 false as u16, u32: 32 false as u32, u64: 64 false as u64, u128: 128 false as u128, usize: (usize::BITS) false as u64,);
nums!(i8: 8 true as i8, i16: 16 true as i16, i32: 32 true as i32, i64: 64 true as i64, i128: 128 true as i128, isize: (isize::BITS) true as i64,);
macro_rules! nonzeros {
    ($($t:ty: $w:literal $s:literal,)*) => {$(
        impl Tgt for $t {
            fn shape() -> Shape {
                Shape::Num { w: $w, signed: $s, nonzero: true }
            }
            fn norm(self) -> TV {
                self.get().norm()
            }
        }
    )*};
}
nonzeros!(NonZeroU8: 8 false, NonZeroU16: 16 false, NonZeroU32: 32 false, NonZeroU64: 64 false, NonZeroU128: 128 false,);
nonzeros!(NonZeroI8: 8 true, NonZeroI16: 16 true, NonZeroI32: 32 true, NonZeroI64: 64 true, NonZeroI128: 128 true,);
impl Tgt for bool {
    fn shape() -> Shape {
        Shape::Bool
    }
    fn norm(self) -> TV {
        TV::B(self)
    }
}
impl Tgt for char {
    fn shape() -> Shape {
        Shape::Char
    }
    fn norm(self) -> TV {
        TV::C(self)
    }
}
impl Tgt for String {
    fn shape() -> Shape {
        Shape::Str
    }
    fn norm(self) -> TV {
        TV::S(self)
    }
}
impl Tgt for Bits {
    fn shape() -> Shape {
        Shape::Bits
    }
    fn norm(self) -> TV {
        TV::Bits(self.iter().collect())
    }
}
impl<T: 'static> Tgt for PhantomData<T> {
    fn shape() -> Shape {
        Shape::Phantom
    }
    fn norm(self) -> TV {
        TV::Unit
    }
}
fn list<T: Tgt>(it: impl IntoIterator<Item = T>) -> TV {
    TV::List(it.into_iter().map(T::norm).collect())
}
macro_rules! lists {
    ($($t:ident),*) => {$(
        impl<T: Tgt> Tgt for $t<T> {
            fn shape() -> Shape {
                Shape::List(Box::new(T::shape()))
            }
            fn norm(self) -> TV {
                list(self)
            }
        }
    )*};
}
lists!(Vec, VecDeque, LinkedList);
fn sorted<T: Tgt>(it: impl IntoIterator<Item = T>) -> TV {
    let TV::List(mut l) = list(it) else { unreachable!() };
    l.sort();
    TV::List(l)
}
impl<T: Tgt + Ord> Tgt for BinaryHeap<T> {
    fn shape() -> Shape {
        Shape::Sorted(Box::new(T::shape()), false)
    }
    fn norm(mut self) -> TV {
        // It has to be a proper heap.
        let mut out = vec![];
        let mut last: Option<T> = None;
        while let Some(x) = self.pop() {
            if let Some(l) = last.take() {
                assert!(l >= x, "heap isn't in order");
                out.push(l);
            }
            last = Some(x);
        }
        out.extend(last);
        sorted(out)
    }
}
impl<T: Tgt + Ord> Tgt for BTreeSet<T> {
    fn shape() -> Shape {
        Shape::Sorted(Box::new(T::shape()), true)
    }
    fn norm(self) -> TV {
        sorted(self)
    }
}
impl<T: Tgt, const N: usize> Tgt for [T; N] {
    fn shape() -> Shape {
        Shape::ArrN(Box::new(T::shape()), N)
    }
    fn norm(self) -> TV {
        list(self)
    }
}
impl<T: Tgt> Tgt for BTreeMap<String, T> {
    fn shape() -> Shape {
        Shape::Map(Box::new(T::shape()))
    }
    fn norm(self) -> TV {
        TV::Map(self.into_iter().map(|(k, v)| (k, v.norm())).collect())
    }
}
impl<T: Tgt> Tgt for Option<T> {
    fn shape() -> Shape {
        Shape::Opt(Box::new(T::shape()))
    }
    fn norm(self) -> TV {
        match self {
            None => TV::None,
            Some(t) => TV::Some(Box::new(t.norm())),
        }
    }
}
impl<T: Tgt, E: Tgt> Tgt for Result<T, E> {
    fn shape() -> Shape {
        Shape::Res(Box::new(T::shape()), Box::new(E::shape()))
    }
    fn norm(self) -> TV {
        match self {
            Ok(t) => TV::Ok(Box::new(t.norm())),
            Err(e) => TV::Err(Box::new(e.norm())),
        }
    }
}
macro_rules! same {
    ($($t:ident: |$x:ident| $e:expr,)*) => {$(
        impl<T: Tgt> Tgt for $t<T> {
            fn shape() -> Shape {
                T::shape()
            }
            fn norm(self) -> TV {
                let $x = self;
                $e.norm()
            }
        }
    )*};
}
use codec::Compact;
same!(
    Box: |x| *x,
    Arc: |x| Arc::try_unwrap(x).ok().expect("only one"),
    Rc: |x| Rc::try_unwrap(x).ok().expect("only one"),
    Compact: |x| x.0,
);
impl<T: ToOwned + ?Sized + 'static> Tgt for Cow<'static, T>
where
    T::Owned: Tgt,
{
    fn shape() -> Shape {
        T::Owned::shape()
    }
    fn norm(self) -> TV {
        match self {
            Cow::Owned(t) => t.norm(),
            Cow::Borrowed(b) => b.to_owned().norm(),
        }
    }
}
impl Tgt for Duration {
    fn shape() -> Shape {
        Shape::Dur
    }
    fn norm(self) -> TV {
        TV::Dur(self.as_secs(), self.subsec_nanos())
    }
}
impl<T: Tgt> Tgt for Range<T> {
    fn shape() -> Shape {
        Shape::Range(Box::new(T::shape()))
    }
    fn norm(self) -> TV {
        TV::List(vec![self.start.norm(), self.end.norm()])
    }
}
impl<T: Tgt> Tgt for RangeInclusive<T> {
    fn shape() -> Shape {
        Shape::Range(Box::new(T::shape()))
    }
    fn norm(self) -> TV {
        let (a, b) = self.into_inner();
        TV::List(vec![a.norm(), b.norm()])
    }
}
macro_rules! tuples {
    ($(($($t:ident)*))*) => {$(
        impl<$($t: Tgt),*> Tgt for ($($t,)*) {
            fn shape() -> Shape {
                Shape::Tup(vec![$($t::shape()),*])
            }
            #[allow(non_snake_case)]
            fn norm(self) -> TV {
                let ($($t,)*) = self;
                TV::List(vec![$($t.norm()),*])
            }
        }
    )*};
}
tuples! {
    () (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) (A B C D E F G H I) (A B C D E F G H I J)
    (A B C D E F G H I J K) (A B C D E F G H I J K L) (A B C D E F G H I J K L M) (A B C D E F G H I J K L M N) (A B C D E F G H I J K L M N O)
    (A B C D E F G H I J K L M N O P) (A B C D E F G H I J K L M N O P Q) (A B C D E F G H I J K L M N O P Q R)
    (A B C D E F G H I J K L M N O P Q R S) (A B C D E F G H I J K L M N O P Q R S T)
}
macro_rules! hashes {
    ($($t:ident: $n:literal,)*) => {$(
        impl Tgt for primitive_types::$t {
            fn shape() -> Shape {
                Shape::ArrN(Box::new(u8::shape()), $n)
            }
            fn norm(self) -> TV {
                self.0.norm()
            }
        }
    )*};
}
hashes!(H128: 16, H160: 20, H256: 32, H384: 48, H512: 64, H768: 96,);

/// Hangs on to the bytes of whatever it's decoded from, by taking over how that's decoded.
pub struct Raw(pub Vec<u8>);
pub struct RawVisitor<R>(PhantomData<R>);
impl<R: scale_decode::TypeResolver> scale_decode::Visitor for RawVisitor<R> {
    type Value<'scale, 'resolver> = Raw;
    type Error = Error;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'scale, 'resolver>(
        self,
        input: &mut &'scale [u8],
        type_id: R::TypeId,
        types: &'resolver R,
    ) -> scale_decode::visitor::DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
        let before = *input;
        let r = scale_decode::visitor::decode_with_visitor(input, type_id, types, scale_decode::visitor::IgnoreVisitor::<R>::new());
        scale_decode::visitor::DecodeAsTypeResult::Decoded(match r {
            Ok(()) => Ok(Raw(before[..before.len() - input.len()].to_vec())),
            Err(e) => Err(e.into()),
        })
    }
}
impl scale_decode::IntoVisitor for Raw {
    type AnyVisitor<R: scale_decode::TypeResolver> = RawVisitor<R>;
    fn into_visitor<R: scale_decode::TypeResolver>() -> RawVisitor<R> {
        RawVisitor(PhantomData)
    }
}
impl Tgt for Raw {
    fn shape() -> Shape {
        Shape::Raw
    }
    fn norm(self) -> TV {
        TV::Raw(self.0)
    }
}

// --- entries

pub type FieldsFn = fn(&mut &[u8], &[(Option<String>, usize)], &Res) -> Result<TV, Error>;
#[derive(Clone, Copy)]
pub struct CodecFns {
    /// what's decoded, and how much is left
    pub decode: fn(&[u8]) -> Result<(TV, usize), codec::Error>,
    pub own: fn() -> (PortableRegistry, u32),
}
#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    /// What it's declared as.
    pub def: &'static str,
    pub shape: fn() -> Shape,
    pub decode: fn(&mut &[u8], usize, &Res) -> Result<TV, Error>,
    pub decode_p: fn(&mut &[u8], usize, &PortableRegistry) -> Result<TV, Error>,
    pub fields: Option<FieldsFn>,
    pub codec: Option<CodecFns>,
    pub size: usize,
    /// Ask its visitor's hook, and decode with the visitor only if it declines.
    pub hook: fn(&mut &[u8], usize, &Res, bool) -> Result<TV, Error>,
    /// Read some of a container, and hand what's left over to its visitor.
    pub partly: fn(&mut &[u8], usize, &Res, usize, Early) -> Result<TV, Error>,
    /// Decode, but don't do anything with what's decoded.
    pub run: fn(&mut &[u8], usize, &Res) -> bool,
}
impl Entry {
    pub fn decl(&self) -> String {
        if self.def.is_empty() {
            String::new()
        } else {
            format!(", which is {}", self.def)
        }
    }
}
fn hook<'s, 'r, V: scale_decode::Visitor<TypeResolver = Res, Error = Error>>(b: &mut &'s [u8], i: usize, r: &'r Res, v: V) -> Result<V::Value<'s, 'r>, Error> {
    use scale_decode::visitor::DecodeAsTypeResult::*;
    match v.unchecked_decode_as_type(b, Tid::of(i), r) {
        Decoded(res) => res,
        Skipped(v) => scale_decode::visitor::decode_with_visitor(b, Tid::of(i), r, v),
    }
}
/// How to read the first of what's in a container.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Early {
    Visit,
    Iterate,
    Mix,
    /// (And convert what's left of a composite to a tuple.)
    AsTuple,
}
struct Partly<T> {
    n: usize,
    how: Early,
    t: PhantomData<T>,
}
macro_rules! partly {
    ($self:ident, $value:expr) => {
        for i in 0..$self.n {
            let visit = match $self.how {
                Early::Visit | Early::AsTuple => true,
                Early::Iterate => false,
                Early::Mix => i % 2 == 0,
            };
            if visit {
                $value.decode_item(scale_decode::visitor::IgnoreVisitor::<Res>::new()).expect("an item")?
            } else {
                $value.next().expect("an item")?;
            }
        }
    };
}
impl<T: Tgt> scale_decode::Visitor for Partly<T> {
    type Value<'scale, 'resolver> = TV;
    type Error = Error;
    type TypeResolver = Res;
    fn visit_sequence<'s, 'r>(self, value: &mut Sequence<'s, 'r, Res>, id: Tid) -> Result<TV, Error> {
        partly!(self, value);
        T::into_visitor().visit_sequence(value, id).map(T::norm)
    }
    fn visit_array<'s, 'r>(self, value: &mut Array<'s, 'r, Res>, id: Tid) -> Result<TV, Error> {
        partly!(self, value);
        T::into_visitor().visit_array(value, id).map(T::norm)
    }
    fn visit_tuple<'s, 'r>(self, value: &mut Tuple<'s, 'r, Res>, id: Tid) -> Result<TV, Error> {
        partly!(self, value);
        T::into_visitor().visit_tuple(value, id).map(T::norm)
    }
    fn visit_composite<'s, 'r>(self, value: &mut Composite<'s, 'r, Res>, id: Tid) -> Result<TV, Error> {
        partly!(self, value);
        if self.how == Early::AsTuple {
            T::into_visitor().visit_tuple(&mut value.as_tuple(), id).map(T::norm)
        } else {
            T::into_visitor().visit_composite(value, id).map(T::norm)
        }
    }
    fn visit_variant<'s, 'r>(self, value: &mut Variant<'s, 'r, Res>, id: Tid) -> Result<TV, Error> {
        partly!(self, value.fields());
        T::into_visitor().visit_variant(value, id).map(T::norm)
    }
}
pub struct Probe<T>(PhantomData<T>);
impl<T: Tgt> Probe<T> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Probe(PhantomData)
    }
    pub fn entry(&self, name: &'static str, fields: Option<FieldsFn>, codec: Option<CodecFns>) -> Entry {
        Entry {
            name,
            def: "",
            shape: T::shape,
            decode: |b, i, r| T::decode_as_type(b, Tid::of(i), r).map(T::norm),
            decode_p: |b, i, r| T::decode_as_type(b, i as u32, r).map(T::norm),
            fields,
            codec,
            size: std::mem::size_of::<T>(),
            hook: |b, i, r, wrapped| {
                let v = T::into_visitor::<Res>();
                if wrapped {
                    hook(b, i, r, scale_decode::visitor::VisitorWithCrateError(v)).map(T::norm)
                } else {
                    hook(b, i, r, v).map(T::norm)
                }
            },
            partly: |b, i, r, n, how| scale_decode::visitor::decode_with_visitor(b, Tid::of(i), r, Partly::<T> { n, how, t: PhantomData }),
            run: |b, i, r| std::hint::black_box(T::decode_as_type(b, Tid::of(i), r)).is_ok(),
        }
    }
}
pub trait HasFields {
    fn fields(&self) -> Option<FieldsFn>;
}
impl<T: Tgt + DecodeAsFields> HasFields for Probe<T> {
    fn fields(&self) -> Option<FieldsFn> {
        Some(|b, fs, types| {
            let fs: Vec<(Option<&str>, Tid)> = fs.iter().map(|(n, i)| (n.as_deref(), Tid::of(*i))).collect();
            let mut it = fs.iter().map(|(n, i)| Field::new(i.clone(), *n));
            T::decode_as_fields(b, &mut it, types).map(T::norm)
        })
    }
}
pub trait NoFields {
    fn fields(&self) -> Option<FieldsFn> {
        None
    }
}
impl<T> NoFields for &Probe<T> {}
pub trait HasCodec {
    fn codec(&self) -> Option<CodecFns>;
}
impl<T: Tgt + codec::Decode + scale_info::TypeInfo> HasCodec for Probe<T> {
    fn codec(&self) -> Option<CodecFns> {
        Some(CodecFns {
            decode: |mut b| T::decode(&mut b).map(|t| (t.norm(), b.len())),
            own: || {
                let mut r = scale_info::Registry::new();
                let id = r.register_type(&scale_info::meta_type::<T>()).id;
                (r.into(), id)
            },
        })
    }
}
pub trait NoCodec {
    fn codec(&self) -> Option<CodecFns> {
        None
    }
}
impl<T> NoCodec for &Probe<T> {}

// For generated code:
pub fn field(name: &str, shape: Shape) -> SField {
    SField { name: name.into(), shape, skip: None }
}
pub fn skipped(name: &str, v: TV) -> SField {
    SField { name: name.into(), shape: Shape::Bool, skip: Some(v) }
}
pub fn with_def(def: &'static str, es: Vec<Entry>) -> Vec<Entry> {
    es.into_iter().map(|e| Entry { def, ..e }).collect()
}
pub fn in_module(m: &str, es: Vec<Entry>) -> Vec<Entry> {
    es.into_iter().map(|e| Entry { name: Box::leak(format!("{m}::{}", e.name).into_boxed_str()), ..e }).collect()
}

#[macro_export]
macro_rules! entry {
    ($($t:ty),* $(,)?) => {
        ::std::vec![$({
            #[allow(unused_imports)]
            use $crate::{HasCodec, HasFields, NoCodec, NoFields};
            let p = $crate::Probe::<$t>::new();
            p.entry(::core::stringify!($t), (&p).fields(), (&p).codec())
        }),*]
    };
}
