//! Visitors which build values from whatever they are given, without knowing what to expect.
use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeAsTypeResult, DecodeError, TypeIdFor, Unexpected, Visitor};
use scale_decode::TypeResolver;
use std::cell::RefCell;
use std::marker::PhantomData;
use verif_model::*;

/// How to go through the items in containers
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Items,
    Handles,
    /// as a tuple
    Tuples,
    /// By way of handles, as a type.
    Types,
    /// Same, but as a tuple
    TupleTypes,
}
pub const STYLES: [Style; 3] = [Style::Items, Style::Handles, Style::Tuples];

pub struct Vv<'h, R: TypeResolver, O = S> {
    pub style: Style,
    /// What to do in the hook, and how to tell what a type ID is.
    hook: Option<(&'h Hook, fn(&R::TypeId) -> Option<usize>)>,
    _m: PhantomData<(R, O)>,
}
impl<'h, R: TypeResolver> Vv<'h, R> {
    pub fn new(style: Style) -> Self {
        Vv { style, hook: None, _m: PhantomData }
    }
    pub fn with_hook(hook: &'h Hook) -> Self
    where
        R::TypeId: IdT,
    {
        Vv { style: Style::Items, hook: Some((hook, |id| id.ix())), _m: PhantomData }
    }
}
impl<'h, R: TypeResolver, O> Vv<'h, R, O> {
    fn kid(&self) -> Vv<'h, R, S> {
        Vv { style: self.style, hook: self.hook, _m: PhantomData }
    }
}
macro_rules! any_type {
    ($t:ident, $style:ident) => {
        #[derive(Debug, PartialEq, Clone)]
        pub struct $t(pub S);
        impl From<S> for $t {
            fn from(s: S) -> $t {
                $t(s)
            }
        }
        impl scale_decode::IntoVisitor for $t {
            type AnyVisitor<R: TypeResolver> = scale_decode::visitor::VisitorWithCrateError<Vv<'static, R, $t>>;
            fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
                scale_decode::visitor::VisitorWithCrateError(Vv { style: Style::$style, hook: None, _m: PhantomData })
            }
        }
    };
}
// Types which can be decoded from anything, in some way or other.
any_type!(Dyn, Items);
any_type!(DynTypes, Types);
any_type!(DynTupleTypes, TupleTypes);
fn plain(e: scale_decode::Error) -> DecodeError {
    DecodeError::TypeResolvingError(e.to_string())
}
/// What the hook should do when it comes across some type.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    None,
    /// decode this many bytes, and that's it.
    Own(usize),
    /// swallow this many bytes and then leave it.
    Prefix(usize),
    Fail,
}
pub struct Hook {
    pub acts: Vec<Act>,
    pub base: usize,
    /// the type ID and position of each call
    pub log: RefCell<Vec<(usize, usize)>>,
}
/// What was seen; just like `V`, except that variants are identified by their encoded index, name, and
/// numbers say what they are.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum S {
    Bool(bool),
    Char(char),
    Str(Vec<u8>),
    Int(P, Int),
    Big(P, [u8; 32]),
    Seq(Vec<S>),
    Arr(Vec<S>),
    Tup(Vec<S>),
    Comp(Vec<String>, Vec<(Option<String>, S)>),
    Var(u8, String, Vec<(Option<String>, S)>),
    Bits(Vec<bool>),
    /// a hook decoded this.
    Hook(Vec<u8>),
}
/// What should be seen given some value.
pub fn seen(reg: &Reg, id: usize, v: &V) -> S {
    seen_with(reg, id, v, &mut |_| None)
}
/// As above, but the function given can say what was seen instead for some value (values are handed
/// to it parents first)
pub fn seen_with(reg: &Reg, id: usize, v: &V, h: &mut dyn FnMut(usize) -> Option<S>) -> S {
    if let Some(s) = h(id) {
        return s;
    }
    fn fields(reg: &Reg, fs: &[F], l: &[V], h: &mut dyn FnMut(usize) -> Option<S>) -> Vec<(Option<String>, S)> {
        fs.iter().zip(l).map(|(f, v)| (f.name.clone(), seen_with(reg, f.ty, v, h))).collect()
    }
    match (&reg.defs[id], v) {
        (Def::Compact(i), _) => seen_with(reg, *i, v, h),
        (_, V::Bool(b)) => S::Bool(*b),
        (_, V::Char(b)) => S::Char(*b),
        (_, V::Str(b)) => S::Str(b.clone()),
        (Def::Prim(p), V::Int(n)) => S::Int(*p, *n),
        (Def::Prim(p), V::Big(n)) => S::Big(*p, *n),
        (_, V::Bits(b)) => S::Bits(b.clone()),
        (Def::Seq(i), V::List(l)) => S::Seq(l.iter().map(|v| seen_with(reg, *i, v, h)).collect()),
        (Def::Arr(i, _), V::List(l)) => S::Arr(l.iter().map(|v| seen_with(reg, *i, v, h)).collect()),
        (Def::Tup(ids), V::List(l)) => S::Tup(ids.iter().zip(l).map(|(i, v)| seen_with(reg, *i, v, h)).collect()),
        (Def::Comp { path, fields: fs }, V::List(l)) => S::Comp(path.clone(), fields(reg, fs, l, h)),
        (Def::Var { variants, .. }, V::Var(i, l)) => {
            S::Var(variants[*i].index, variants[*i].name.clone(), fields(reg, &variants[*i].fields, l, h))
        }
        (d, v) => panic!("harness: {v:?} isn't a {d:?}"),
    }
}

macro_rules! nums {
    ($($f:ident $t:ty, $p:ident, $c:ident;)*) => {$(
        fn $f<'scale, 'resolver>(self, n: $t, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            Ok(S::Int(P::$p, Int::$c(n.into())).into())
        }
    )*}
}
macro_rules! items {
    ($s:expr, $c:expr) => {{
        let mut out = vec![];
        match $s.style {
            Style::Handles => {
                while let Some(h) = $c.next() {
                    out.push(h?.decode_with_visitor($s.kid())?);
                }
            }
            Style::Types => {
                while let Some(h) = $c.next() {
                    out.push(h?.decode_as_type::<DynTypes>().map_err(plain)?.0);
                }
            }
            Style::TupleTypes => {
                while let Some(h) = $c.next() {
                    out.push(h?.decode_as_type::<DynTupleTypes>().map_err(plain)?.0);
                }
            }
            _ => {
                while let Some(r) = $c.decode_item($s.kid()) {
                    out.push(r?);
                }
            }
        }
        out
    }};
}
impl<R: TypeResolver, O> Vv<'_, R, O> {
    fn fields<'scale, 'resolver>(&self, c: &mut Composite<'scale, 'resolver, R>) -> Result<Vec<(Option<String>, S)>, DecodeError> {
        let names: Vec<Option<String>> = c.fields().iter().map(|f| f.name.map(|s| s.to_string())).collect();
        let vals = match self.style {
            Style::Tuples | Style::TupleTypes => {
                let mut t = c.as_tuple();
                items!(self, t)
            }
            _ => items!(self, c),
        };
        Ok(names.into_iter().zip(vals).collect())
    }
}
impl<R: TypeResolver, O: From<S>> Visitor for Vv<'_, R, O> {
    type Value<'scale, 'resolver> = O;
    type Error = DecodeError;
    type TypeResolver = R;

    fn unchecked_decode_as_type<'scale, 'resolver>(
        self,
        input: &mut &'scale [u8],
        type_id: R::TypeId,
        _types: &'resolver R,
    ) -> DecodeAsTypeResult<Self, Result<O, DecodeError>> {
        let Some((h, ix)) = self.hook else { return DecodeAsTypeResult::Skipped(self) };
        let id = ix(&type_id).unwrap_or(usize::MAX);
        h.log.borrow_mut().push((id, (input.as_ptr() as usize).wrapping_sub(h.base)));
        let mut eat = |n: usize| {
            if n > input.len() {
                return Err(DecodeError::NotEnoughInput);
            }
            let (a, b) = input.split_at(n);
            *input = b;
            Ok(a.to_vec())
        };
        match h.acts.get(id).copied().unwrap_or(Act::None) {
            Act::None => DecodeAsTypeResult::Skipped(self),
            Act::Own(n) => DecodeAsTypeResult::Decoded(eat(n).map(|b| S::Hook(b).into())),
            Act::Prefix(n) => match eat(n) {
                Ok(_) => DecodeAsTypeResult::Skipped(self),
                Err(e) => DecodeAsTypeResult::Decoded(Err(e)),
            },
            Act::Fail => DecodeAsTypeResult::Decoded(Err(DecodeError::TypeResolvingError(format!("hook fails at {id}")))),
        }
    }

    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        panic!("visit_unexpected({u:?})")
    }
    nums! {
        visit_u8 u8, U8, u; visit_u16 u16, U16, u; visit_u32 u32, U32, u; visit_u64 u64, U64, u; visit_u128 u128, U128, u;
        visit_i8 i8, I8, i; visit_i16 i16, I16, i; visit_i32 i32, I32, i; visit_i64 i64, I64, i; visit_i128 i128, I128, i;
    }
    fn visit_bool<'scale, 'resolver>(self, b: bool, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(S::Bool(b).into())
    }
    fn visit_char<'scale, 'resolver>(self, c: char, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(S::Char(c).into())
    }
    fn visit_u256<'resolver>(self, b: &[u8; 32], _id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        Ok(S::Big(P::U256, *b).into())
    }
    fn visit_i256<'resolver>(self, b: &[u8; 32], _id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        Ok(S::Big(P::I256, *b).into())
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let b = s.bytes_from_start();
        let total = b.len() - s.bytes_after()?.len();
        Ok(S::Str(b[total - s.len()..total].to_vec()).into())
    }
    fn visit_bitsequence<'scale, 'resolver>(self, s: &mut BitSequence<'scale>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(S::Bits(s.decode()?.collect::<Result<_, _>>()?).into())
    }
    fn visit_sequence<'scale, 'resolver>(self, c: &mut Sequence<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(S::Seq(items!(self, c)).into())
    }
    fn visit_array<'scale, 'resolver>(self, c: &mut Array<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(S::Arr(items!(self, c)).into())
    }
    fn visit_tuple<'scale, 'resolver>(self, c: &mut Tuple<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(S::Tup(items!(self, c)).into())
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let path = c.path().map(|s| s.to_string()).collect();
        Ok(S::Comp(path, self.fields(c)?).into())
    }
    fn visit_variant<'scale, 'resolver>(self, c: &mut Variant<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let (index, name) = (c.index(), c.name().to_string());
        Ok(S::Var(index, name, self.fields(c.fields())?).into())
    }
}

/// Things borrowed from the input, in order.
#[derive(Clone, PartialEq, Debug)]
pub enum B<'a> {
    Str(&'a str),
    BadStr(std::str::Utf8Error),
    Big(&'a [u8; 32]),
    Bits(Vec<bool>),
    /// The bytes of an item
    Item(&'a [u8]),
}
/// Collects things from the input, without copying them.
pub struct Borrow<R>(pub PhantomData<R>);
macro_rules! borrow_items {
    ($c:expr) => {{
        let mut out = vec![];
        while let Some(h) = $c.next() {
            let h = h?;
            out.push(B::Item(h.bytes()));
            out.extend(h.decode_with_visitor(Borrow(PhantomData))?);
        }
        Ok(out)
    }};
}
impl<R: TypeResolver> Visitor for Borrow<R> {
    type Value<'scale, 'resolver> = Vec<B<'scale>>;
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(vec![])
    }
    fn visit_u256<'resolver>(self, b: &[u8; 32], _id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        Ok(vec![B::Big(b)])
    }
    fn visit_i256<'resolver>(self, b: &[u8; 32], _id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        Ok(vec![B::Big(b)])
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(vec![match s.as_str() {
            Ok(s) => B::Str(s),
            Err(DecodeError::InvalidStr(e)) => B::BadStr(e),
            Err(e) => return Err(e),
        }])
    }
    fn visit_bitsequence<'scale, 'resolver>(self, s: &mut BitSequence<'scale>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(vec![B::Bits(s.decode()?.collect::<Result<_, _>>()?)])
    }
    fn visit_sequence<'scale, 'resolver>(self, c: &mut Sequence<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        borrow_items!(c)
    }
    fn visit_array<'scale, 'resolver>(self, c: &mut Array<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        borrow_items!(c)
    }
    fn visit_tuple<'scale, 'resolver>(self, c: &mut Tuple<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        borrow_items!(c)
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        borrow_items!(c)
    }
    fn visit_variant<'scale, 'resolver>(self, c: &mut Variant<'scale, 'resolver, R>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let c = c.fields();
        borrow_items!(c)
    }
}
