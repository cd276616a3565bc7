//! A visitor which knows what it should be given, and does a generated history of operations on
//! each container it comes across, checking each of them against a model of the container.
use scale_decode::visitor::types::*;
use scale_decode::visitor::{
    decode_with_visitor, DecodeError, IgnoreVisitor, TypeIdFor, Unexpected, Visitor, VisitorWithCrateError,
};
use scale_decode::TypeResolver;
use std::cell::RefCell;
use std::marker::PhantomData;
use verif_model::*;

/// What visitors are up to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// decode everything, with `decode_item` only.
    Strict,
    /// decode everything, somehow.
    Full,
    /// do whatever.
    Lazy,
    /// give back an error before doing anything.
    FailEarly,
    /// do things and then give back an error.
    FailLate,
    /// let something inside fail, and give back that error
    FailDeep,
}
impl Mode {
    fn fails(self) -> bool {
        matches!(self, Mode::FailEarly | Mode::FailLate | Mode::FailDeep)
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum VE {
    Decode(DecodeError),
    Mine(u64),
}
impl std::fmt::Display for VE {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for VE {}
impl From<VE> for scale_decode::Error {
    fn from(e: VE) -> Self {
        match e {
            VE::Decode(e) => e.into(),
            e => scale_decode::Error::custom(e),
        }
    }
}
/// The other way around.
pub fn unwrap_err(e: scale_decode::Error) -> VE {
    use scale_decode::error::ErrorKind;
    match e.kind() {
        ErrorKind::Custom(c) => match c.downcast_ref::<VE>() {
            Some(e) => e.clone(),
            None => VE::Mine(u64::MAX),
        },
        ErrorKind::VisitorDecodeError(e) => VE::Decode(e.clone()),
        _ => VE::Mine(u64::MAX),
    }
}
impl From<DecodeError> for VE {
    fn from(e: DecodeError) -> Self {
        VE::Decode(e)
    }
}

pub struct St<'c> {
    pub ch: &'c mut Ch,
    /// start of the input.
    pub base: usize,
    pub msg: Option<String>,
    pub visits: u64,
    pub next_err: u64,
    /// An error that's on its way to whatever handles it.
    pub pending: Option<u64>,
    /// fail on visiting this one
    pub fail_at: Option<u64>,
    pub ops: Vec<&'static str>,
    /// how much more work should we do?
    pub fuel: i64,
}
impl<'c> St<'c> {
    pub fn new(ch: &'c mut Ch, input: &[u8]) -> Self {
        St {
            ch,
            base: input.as_ptr() as usize,
            msg: None,
            visits: 0,
            next_err: 1,
            pending: None,
            fail_at: None,
            ops: vec![],
            fuel: 3000,
        }
    }
    fn bad(&mut self, m: String) {
        if self.msg.is_none() {
            self.msg = Some(m)
        }
    }
    fn op(&mut self, s: &'static str) {
        if !self.ops.contains(&s) {
            self.ops.push(s)
        }
    }
}

#[derive(Clone, Copy)]
pub struct Exp<'m> {
    pub reg: &'m Reg,
    /// type as declared
    pub id: usize,
    pub v: &'m V,
    /// where the value starts in the input
    pub off: usize,
    /// where the bytes we're given end.
    pub lim: usize,
    pub compact: bool,
}
impl<'m> Exp<'m> {
    fn len(&self) -> usize {
        self.reg.enc_c(self.id, self.v, self.compact).len()
    }
}

pub struct Ck<'m, 's, 'c, R> {
    pub st: &'s RefCell<St<'c>>,
    pub x: Exp<'m>,
    pub mode: Mode,
    pub _m: PhantomData<R>,
}

macro_rules! bad {
    ($st:expr, $($t:tt)*) => { $st.borrow_mut().bad(format!($($t)*)) };
}

/// One of the items in a container
struct Item<'m> {
    id: usize,
    v: &'m V,
    name: Option<&'m str>,
    start: usize,
    end: usize,
}

impl<'m, 's, 'c, R: TypeResolver + 'static> Ck<'m, 's, 'c, R>
where
    R::TypeId: IdT,
{
    pub fn new(st: &'s RefCell<St<'c>>, x: Exp<'m>, mode: Mode) -> Self {
        Ck { st, x, mode, _m: PhantomData }
    }
    /// Check that this is what we're supposed to be visiting, and maybe fail.
    fn enter(&self, what: &str, id: &R::TypeId) -> Result<(), VE> {
        let mut st = self.st.borrow_mut();
        st.visits += 1;
        let want = self.x.reg.strip(self.x.id);
        if id.ix() != Some(want) {
            st.bad(format!("visiting {what} with type ID {id:?}; expected that of type {want}"));
        }
        if let Some(e) = st.pending {
            st.bad(format!("visited {what} while error {e} should have been propagating"));
        }
        if st.fail_at == Some(st.visits - 1) || (self.mode.fails() && self.mode != Mode::FailLate) {
            // Deep failures in something with nothing in it are failures here.
            if self.mode != Mode::FailDeep || !self.has_items() {
                return Err(raise(&mut st));
            }
        }
        Ok(())
    }
    fn has_items(&self) -> bool {
        matches!(self.x.v, V::List(l) | V::Var(_, l) if !l.is_empty())
    }
    fn leave(&self) -> Result<usize, VE> {
        if self.mode == Mode::FailLate {
            return Err(raise(&mut self.st.borrow_mut()));
        }
        Ok(self.x.off)
    }
    fn leaf(&self, what: &str, id: &R::TypeId, ok: bool, got: String) -> Result<usize, VE> {
        self.enter(what, id)?;
        if !ok {
            bad!(self.st, "visited {what} {got}; expected {:?} of type {}", self.x.v, self.x.reg.show(self.x.id));
        }
        self.leave()
    }
    fn int(&self, p: P, n: Int, id: &R::TypeId) -> Result<usize, VE> {
        let ok = matches!(&self.x.reg.defs[self.x.reg.strip(self.x.id)], Def::Prim(q) if *q == p) && *self.x.v == V::Int(n);
        self.leaf(&format!("{p:?}"), id, ok, n.to_string())
    }
    fn big(&self, p: P, b: &[u8; 32], id: &R::TypeId) -> Result<usize, VE> {
        let ok = matches!(&self.x.reg.defs[self.x.reg.strip(self.x.id)], Def::Prim(q) if *q == p) && *self.x.v == V::Big(*b);
        self.leaf(&format!("{p:?}"), id, ok, format!("{b:?}"))
    }
    fn items(&self, fields: impl Iterator<Item = (usize, Option<&'m str>)>, vals: &'m [V], mut off: usize, compact: bool) -> Vec<Item<'m>> {
        let mut out = vec![];
        for ((id, name), v) in fields.zip(vals) {
            let len = self.x.reg.enc_c(id, v, compact).len();
            out.push(Item { id, v, name, start: off, end: off + len });
            off += len;
        }
        out
    }
}
fn raise(st: &mut St) -> VE {
    let n = st.next_err;
    st.next_err += 1;
    st.pending = Some(n);
    VE::Mine(n)
}

/// What the different containers have in common.
trait Cont<'scale, 'resolver, R: TypeResolver + 'static> {
    const ARRAYLIKE: bool;
    fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>>;
    fn handle(&mut self) -> Option<Result<Hd<'scale, 'resolver, R>, DecodeError>>;
    fn skip(&mut self) -> Result<(), DecodeError>;
    fn start(&self) -> &'scale [u8];
    fn undecoded(&self) -> &'scale [u8];
    fn left(&self) -> usize;
    fn extra_checks(&self, _items: &[Item], _next: usize) -> Result<(), String> {
        Ok(())
    }
    fn to_tuple(&self) -> Option<Tuple<'scale, 'resolver, R>> {
        None
    }
    fn generic_item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>>;
}
/// Handles for items; the types themselves can't be named.
pub trait OkType {
    type Ok;
}
impl<T, E> OkType for Result<T, E> {
    type Ok = T;
}
type ItemOf<I> = <<I as Iterator>::Item as OkType>::Ok;

pub enum Hd<'scale, 'resolver, R: TypeResolver + 'static> {
    A(ItemOf<Array<'scale, 'resolver, R>>),
    S(ItemOf<Sequence<'scale, 'resolver, R>>),
    C(ItemOf<Composite<'scale, 'resolver, R>>),
    T(ItemOf<Tuple<'scale, 'resolver, R>>),
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Hd::A($x) => $e,
            Hd::S($x) => $e,
            Hd::C($x) => $e,
            Hd::T($x) => $e,
        }
    };
}
impl<'scale, 'resolver, R: TypeResolver + 'static> Hd<'scale, 'resolver, R> {
    pub fn bytes(&self) -> &'scale [u8] {
        each!(self, h => h.bytes())
    }
    pub fn type_id(&self) -> &R::TypeId {
        each!(self, h => h.type_id())
    }
    /// The name, for those that can have them.
    pub fn name(&self) -> Option<Option<&'resolver str>> {
        match self {
            Hd::C(c) => Some(c.name()),
            _ => None,
        }
    }
    pub fn decode<V: Visitor<TypeResolver = R>>(&self, v: V) -> Result<V::Value<'scale, 'resolver>, V::Error> {
        each!(self, h => h.decode_with_visitor(v))
    }
    pub fn decode_as<T: scale_decode::DecodeAsType>(&self) -> Result<T, scale_decode::Error> {
        each!(self, h => h.decode_as_type::<T>())
    }
    /// Is it compact encoded, for those that can be?
    pub fn compact(&self) -> Option<bool> {
        match self {
            Hd::C(c) => Some(c.is_compact()),
            Hd::T(c) => Some(c.is_compact()),
            _ => None,
        }
    }
    fn copy(&self) -> Self
    where
        R::TypeId: Clone,
    {
        match self {
            Hd::A(x) => Hd::A(x.clone()),
            Hd::S(x) => Hd::S(x.clone()),
            Hd::C(x) => Hd::C(x.clone()),
            // Only `Clone` if the resolver is
            Hd::T(_) => unreachable!(),
        }
    }
}
macro_rules! cont {
    ($t:ident, $h:ident, $arr:literal $(, $($extra:tt)*)?) => {
        impl<'scale, 'resolver, R: TypeResolver + 'static> Cont<'scale, 'resolver, R> for $t<'scale, 'resolver, R> {
            const ARRAYLIKE: bool = $arr;
            fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
                self.decode_item(v)
            }
            fn generic_item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
                scale_decode::visitor::DecodeItemIterator::decode_item(self, v)
            }
            fn handle(&mut self) -> Option<Result<Hd<'scale, 'resolver, R>, DecodeError>> {
                self.next().map(|r| r.map(Hd::$h))
            }
            fn skip(&mut self) -> Result<(), DecodeError> {
                self.skip_decoding()
            }
            fn start(&self) -> &'scale [u8] {
                self.bytes_from_start()
            }
            fn undecoded(&self) -> &'scale [u8] {
                self.bytes_from_undecoded()
            }
            fn left(&self) -> usize {
                self.remaining()
            }
            $($($extra)*)?
        }
    };
}
cont!(Array, A, true,
    fn extra_checks(&self, items: &[Item], next: usize) -> Result<(), String> {
        if self.is_empty() != (next == items.len()) {
            return Err(format!("is_empty() is {} with {} items left", self.is_empty(), items.len() - next));
        }
        Ok(())
    }
);
cont!(Sequence, S, true);
cont!(Tuple, T, false);
cont!(Composite, C, false,
    fn extra_checks(&self, items: &[Item], next: usize) -> Result<(), String> {
        let want = items.get(next).and_then(|i| i.name);
        if self.peek_name() != want {
            return Err(format!("peek_name() is {:?}; expected {want:?}", self.peek_name()));
        }
        if self.has_unnamed_fields() != items.iter().any(|i| i.name.is_none()) {
            return Err(format!("has_unnamed_fields() is {}", self.has_unnamed_fields()));
        }
        let names: Vec<_> = self.fields().iter().map(|f| f.name).collect();
        let want: Vec<_> = items.iter().map(|f| f.name).collect();
        if names != want {
            return Err(format!("fields() are {names:?}; expected {want:?}"));
        }
        Ok(())
    }
    fn to_tuple(&self) -> Option<Tuple<'scale, 'resolver, R>> {
        Some(self.as_tuple())
    }
);

impl<'m, 's, 'c, R: TypeResolver + 'static> Ck<'m, 's, 'c, R>
where
    R::TypeId: IdT,
{
    fn span(&self, what: &str, b: &[u8], start: usize, end: usize) {
        let at = (b.as_ptr() as usize).wrapping_sub(self.st.borrow().base);
        if at != start || b.len() != end.saturating_sub(start) {
            bad!(self.st, "{what} of {} is {} bytes at offset {at}; expected {} at {start}", self.x.reg.show(self.x.id), b.len(), end.saturating_sub(start));
        }
    }
    /// Do things with some container.
    fn run<'scale, 'resolver, C: Cont<'scale, 'resolver, R>>(
        &self,
        c: &mut C,
        items: &[Item<'m>],
        start: usize,
        body: usize,
        compact: bool,
        depth: u32,
    ) -> Result<(), VE> {
        let end = items.last().map_or(body, |i| i.end);
        let x = self.x;
        let mode = self.mode;
        let mut next = 0;
        let deep_at = if mode == Mode::FailDeep { Some(self.st.borrow_mut().ch.n(items.len().max(1))) } else { None };
        let strict = mode == Mode::Strict;
        let full = matches!(mode, Mode::Strict | Mode::Full);
        let mut swallowed = false;
        loop {
            if self.st.borrow().msg.is_some() {
                return Ok(());
            }
            let at = items.get(next).map_or(end, |i| i.start);
            if !swallowed || C::ARRAYLIKE {
                self.span("bytes_from_start()", c.start(), start, x.lim);
                self.span("bytes_from_undecoded()", c.undecoded(), at, x.lim);
                if c.left() != items.len() - next {
                    bad!(self.st, "remaining() is {} after {next} of the {} items in {}", c.left(), items.len(), x.reg.show(x.id));
                }
                if let Err(e) = c.extra_checks(items, next) {
                    bad!(self.st, "{e} after {next} of the {} items in {}", items.len(), x.reg.show(x.id));
                }
            }
            if swallowed && !C::ARRAYLIKE {
                if self.st.borrow_mut().ch.chance(1, 3) {
                    self.st.borrow_mut().op("skip after failure");
                    if let Err(e) = c.skip() {
                        bad!(self.st, "skip_decoding() failed after a failed item: {e:?}");
                    }
                }
                return Ok(());
            }
            let out_of_fuel = {
                let mut st = self.st.borrow_mut();
                st.fuel -= 1;
                st.fuel < 0
            };
            // What to do: 0 decode_item, 1 handle, 2 ignore item, 3 swallow an item's failure, 4 as_tuple, 5 skip the rest, 6 stop
            let op = if strict {
                0
            } else if deep_at == Some(next) {
                self.st.borrow_mut().ch.n(2)
            } else if full {
                if out_of_fuel || items.len() > 60 {
                    0
                } else {
                    [0, 1, 4][self.st.borrow_mut().ch.weighted(&[6, 5, 1])]
                }
            } else if (out_of_fuel || items.len() - next > 60) && deep_at.is_none() {
                let mut st = self.st.borrow_mut();
                [0, 1, 2, 5, 6][st.ch.weighted(&[50, 50, 50, 1, 1])]
            } else if deep_at.is_some() {
                self.st.borrow_mut().ch.n(3)
            } else {
                self.st.borrow_mut().ch.weighted(&[8, 6, 3, 3, 1, 1, 2])
            };
            // When finished, see that asking for more gives back nothing.
            if next >= items.len() {
                match op {
                    1 => {
                        if c.handle().is_some() {
                            bad!(self.st, "iterating gave back more than the {} items in {}", items.len(), x.reg.show(x.id));
                        }
                    }
                    2 => {
                        if let Err(e) = c.skip() {
                            bad!(self.st, "skip_decoding() failed when nothing was left: {e:?}");
                        }
                    }
                    _ => {
                        if c.item(IgnoreVisitor::<R>::new()).is_some() {
                            bad!(self.st, "decode_item gave back more than the {} items in {}", items.len(), x.reg.show(x.id));
                        }
                    }
                }
                self.span("bytes_from_undecoded() at the end", c.undecoded(), end, x.lim);
                return Ok(());
            }
            let it = &items[next];
            let cx = Exp { reg: x.reg, id: it.id, v: it.v, off: it.start, lim: x.lim, compact };
            let child_mode = if deep_at == Some(next) {
                self.fail_mode()
            } else if mode == Mode::FailDeep || mode == Mode::FailLate {
                Mode::Lazy
            } else {
                mode
            };
            let name = x.reg.show(x.id);
            match op {
                0 => {
                    self.st.borrow_mut().op("decode_item");
                    let generic = !strict && self.st.borrow_mut().ch.chance(1, 5);
                    let v = Ck::<R>::new(self.st, cx, child_mode);
                    let wrap = !strict && self.st.borrow_mut().ch.chance(1, 6);
                    let r = if wrap {
                        self.st.borrow_mut().op("wrapped visitor");
                        c.item(VisitorWithCrateError(v)).map(|r| r.map_err(unwrap_err))
                    } else if generic {
                        c.generic_item(v)
                    } else {
                        c.item(v)
                    };
                    match r {
                        None => bad!(self.st, "decode_item gave back nothing for item {next} in {name}"),
                        Some(r) => self.result(r, it.start, child_mode)?,
                    }
                    next += 1;
                }
                1 => {
                    self.st.borrow_mut().op("handle");
                    match c.handle() {
                        None => bad!(self.st, "iterating gave back nothing for item {next} in {name}"),
                        Some(Err(e)) => bad!(self.st, "iterating gave back {e:?} for item {next} in {name}"),
                        Some(Ok(h)) => {
                            self.handle(h, it, compact, child_mode)?;
                        }
                    }
                    next += 1;
                }
                2 => {
                    self.st.borrow_mut().op("ignore item");
                    match c.item(IgnoreVisitor::<R>::new()) {
                        Some(Ok(())) => {}
                        r => bad!(self.st, "decode_item with an IgnoreVisitor gave back {r:?} for item {next} in {name}"),
                    }
                    next += 1;
                }
                3 => {
                    self.st.borrow_mut().op("swallow failure");
                    let m = self.fail_mode();
                    let r = c.item(Ck::<R>::new(self.st, cx, m));
                    match r {
                        None => bad!(self.st, "decode_item gave back nothing for item {next} in {name}"),
                        Some(r) => {
                            let _ = self.result(r, it.start, m);
                            self.st.borrow_mut().pending = None;
                        }
                    }
                    swallowed = true;
                    next += 1;
                }
                4 => {
                    if depth < 2 {
                        if let Some(mut t) = c.to_tuple() {
                            self.st.borrow_mut().op("as_tuple");
                            self.run(&mut t, &items[next..], it.start, it.start, compact, depth + 1)?;
                            if full {
                                // Everything was decoded via the tuple.
                                return Ok(());
                            }
                        }
                    }
                }
                5 => {
                    self.st.borrow_mut().op("skip_decoding");
                    if let Err(e) = c.skip() {
                        bad!(self.st, "skip_decoding() gave back {e:?} in {name}");
                    }
                    next = items.len();
                    self.span("bytes_from_undecoded() after skipping", c.undecoded(), end, x.lim);
                    if c.left() != 0 {
                        bad!(self.st, "remaining() is {} after skipping {name}", c.left());
                    }
                }
                _ => {
                    self.st.borrow_mut().op("stop early");
                    return Ok(());
                }
            }
        }
    }
    fn fail_mode(&self) -> Mode {
        *self.st.borrow_mut().ch.pick(&[Mode::FailEarly, Mode::FailLate, Mode::FailDeep])
    }
    /// Check the result of handing a visitor to something, giving back errors that it was meant to give back.
    fn result(&self, r: Result<usize, VE>, off: usize, mode: Mode) -> Result<(), VE> {
        let pending = self.st.borrow().pending;
        match r {
            Ok(o) => {
                if let Some(e) = pending {
                    bad!(self.st, "visitor error {e} was lost");
                } else if mode.fails() {
                    bad!(self.st, "visitor should have failed, but was not asked to visit anything");
                } else if o != off {
                    bad!(self.st, "got back the value of the visitor for offset {o} rather than {off}");
                }
                Ok(())
            }
            Err(VE::Mine(n)) if pending == Some(n) => Err(VE::Mine(n)),
            Err(e) => {
                bad!(self.st, "got error {e:?} decoding {}; expected {pending:?}", self.x.reg.show(self.x.id));
                Ok(())
            }
        }
    }
    fn handle<'scale, 'resolver>(&self, h: Hd<'scale, 'resolver, R>, it: &Item<'m>, compact: bool, mode: Mode) -> Result<(), VE> {
        let x = self.x;
        let name = x.reg.show(x.id);
        self.span("bytes() of an item", each!(&h, h => h.bytes()), it.start, it.end);
        let id = each!(&h, h => h.type_id().clone());
        if id.ix() != Some(it.id) {
            bad!(self.st, "type_id() of an item is {id:?} rather than that of {} in {name}", it.id);
        }
        match &h {
            Hd::C(h) => {
                if h.name() != it.name {
                    bad!(self.st, "name() of an item is {:?} rather than {:?} in {name}", h.name(), it.name);
                }
                if h.is_compact() != compact {
                    bad!(self.st, "is_compact() of an item is {} in {name}", h.is_compact());
                }
            }
            Hd::T(h) => {
                if h.is_compact() != compact {
                    bad!(self.st, "is_compact() of an item is {} in {name}", h.is_compact());
                }
            }
            _ => {}
        }
        let cx = Exp { reg: x.reg, id: it.id, v: it.v, off: it.start, lim: it.end, compact };
        let full = matches!(mode, Mode::Full | Mode::Strict);
        if !full && !mode.fails() && self.st.borrow_mut().ch.chance(1, 4) {
            return Ok(());
        }
        if self.st.borrow_mut().ch.chance(1, 5) {
            // Decode it some other time first.
            self.st.borrow_mut().op("decode item twice");
            let m = *self.st.borrow_mut().ch.pick(&[Mode::Full, Mode::Lazy, Mode::FailEarly, Mode::FailLate]);
            let v = Ck::<R>::new(self.st, cx, m);
            let r = if matches!(h, Hd::T(_)) { each!(&h, h => h.decode_with_visitor(v)) } else { each!(&h.copy(), h => h.decode_with_visitor(v)) };
            let _ = self.result(r, it.start, m);
            self.st.borrow_mut().pending = None;
        }
        let v = Ck::<R>::new(self.st, cx, mode);
        let r = each!(&h, h => h.decode_with_visitor(v));
        self.result(r, it.start, mode)
    }
}

macro_rules! nums {
    ($($f:ident $t:ty, $p:ident, $c:ident;)*) => {$(
        fn $f<'scale, 'resolver>(self, n: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.int(P::$p, Int::$c(n.into()), &id)
        }
    )*}
}

impl<'m, 's, 'c, R: TypeResolver + 'static> Visitor for Ck<'m, 's, 'c, R>
where
    R::TypeId: IdT,
{
    type Value<'scale, 'resolver> = usize;
    type Error = VE;
    type TypeResolver = R;

    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        bad!(self.st, "visit_unexpected({u:?})");
        Ok(0)
    }
    nums! {
        visit_u8 u8, U8, u; visit_u16 u16, U16, u; visit_u32 u32, U32, u; visit_u64 u64, U64, u; visit_u128 u128, U128, u;
        visit_i8 i8, I8, i; visit_i16 i16, I16, i; visit_i32 i32, I32, i; visit_i64 i64, I64, i; visit_i128 i128, I128, i;
    }
    fn visit_bool<'scale, 'resolver>(self, b: bool, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let ok = *self.x.v == V::Bool(b);
        self.leaf("bool", &id, ok, b.to_string())
    }
    fn visit_char<'scale, 'resolver>(self, c: char, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let ok = *self.x.v == V::Char(c);
        self.leaf("char", &id, ok, format!("{c:?}"))
    }
    fn visit_u256<'resolver>(self, b: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        self.span("u256 bytes", b, self.x.off, self.x.off + 32);
        self.big(P::U256, b, &id)
    }
    fn visit_i256<'resolver>(self, b: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        self.span("i256 bytes", b, self.x.off, self.x.off + 32);
        self.big(P::I256, b, &id)
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.enter("str", &id)?;
        let x = self.x;
        let V::Str(want) = x.v else {
            bad!(self.st, "visited a str rather than {:?}", x.v);
            return Ok(x.off);
        };
        let end = x.off + x.len();
        if s.len() != want.len() || s.is_empty() != want.is_empty() {
            bad!(self.st, "str has length {} (empty: {}) rather than {}", s.len(), s.is_empty(), want.len());
        }
        self.span("str bytes_from_start()", s.bytes_from_start(), x.off, x.lim);
        match s.bytes_after() {
            Ok(b) => self.span("str bytes_after()", b, end, x.lim),
            Err(e) => bad!(self.st, "str bytes_after() gave back {e:?}"),
        }
        match (s.as_str(), std::str::from_utf8(want)) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    bad!(self.st, "str is {a:?} rather than {b:?}");
                }
                self.span("as_str()", a.as_bytes(), end - want.len(), end);
            }
            (Err(DecodeError::InvalidStr(a)), Err(b)) if a == b => {}
            (a, b) => bad!(self.st, "as_str() gave {a:?} rather than {b:?}"),
        }
        self.leave()
    }
    fn visit_bitsequence<'scale, 'resolver>(self, s: &mut BitSequence<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.enter("bitsequence", &id)?;
        let x = self.x;
        let V::Bits(want) = x.v else {
            bad!(self.st, "visited bits rather than {:?}", x.v);
            return Ok(x.off);
        };
        let end = x.off + x.len();
        let n = if self.mode == Mode::Strict { 1 } else { self.st.borrow_mut().ch.n(4) };
        self.span("bits bytes_from_start()", s.bytes_from_start(), x.off, x.lim);
        for i in 0..n {
            let bytes = if self.mode == Mode::Strict { false } else { self.st.borrow_mut().ch.chance(1, 2) };
            if bytes {
                match s.bytes_after() {
                    Ok(b) => self.span("bits bytes_after()", b, end, x.lim),
                    Err(e) => bad!(self.st, "bits bytes_after() gave back {e:?}"),
                }
            } else {
                match s.decode() {
                    Ok(d) => {
                        let lim = if i == 0 { usize::MAX } else { self.st.borrow_mut().ch.n(want.len() + 2) };
                        let got: Result<Vec<bool>, _> = d.take(lim).collect();
                        match got {
                            Ok(b) if b[..] == want[..want.len().min(lim)] => {}
                            b => bad!(self.st, "bits are {b:?} rather than {want:?}"),
                        }
                    }
                    Err(e) => bad!(self.st, "bits decode() gave back {e:?}"),
                }
            }
        }
        self.leave()
    }
    fn visit_sequence<'scale, 'resolver>(self, c: &mut Sequence<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.enter("sequence", &id)?;
        let x = self.x;
        let (Def::Seq(i), V::List(l)) = (&x.reg.defs[x.reg.strip(x.id)], x.v) else {
            bad!(self.st, "visited a sequence rather than {}", x.reg.show(x.id));
            return Ok(x.off);
        };
        let mut p = vec![];
        compact_enc(l.len() as u128, &mut p);
        let items = self.items(l.iter().map(|_| (*i, None)), l, x.off + p.len(), false);
        self.run(c, &items, x.off, x.off + p.len(), false, 0)?;
        self.leave()
    }
    fn visit_array<'scale, 'resolver>(self, c: &mut Array<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.enter("array", &id)?;
        let x = self.x;
        let (Def::Arr(i, _), V::List(l)) = (&x.reg.defs[x.reg.strip(x.id)], x.v) else {
            bad!(self.st, "visited an array rather than {}", x.reg.show(x.id));
            return Ok(x.off);
        };
        let items = self.items(l.iter().map(|_| (*i, None)), l, x.off, false);
        self.run(c, &items, x.off, x.off, false, 0)?;
        self.leave()
    }
    fn visit_tuple<'scale, 'resolver>(self, c: &mut Tuple<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.enter("tuple", &id)?;
        let x = self.x;
        let compact = x.compact || x.reg.strip(x.id) != x.id;
        let (Def::Tup(ids), V::List(l)) = (&x.reg.defs[x.reg.strip(x.id)], x.v) else {
            bad!(self.st, "visited a tuple rather than {}", x.reg.show(x.id));
            return Ok(x.off);
        };
        let items = self.items(ids.iter().map(|i| (*i, None)), l, x.off, compact);
        self.run(c, &items, x.off, x.off, compact, 0)?;
        self.leave()
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.enter("composite", &id)?;
        let x = self.x;
        let compact = x.compact || x.reg.strip(x.id) != x.id;
        let (Def::Comp { path, fields }, V::List(l)) = (&x.reg.defs[x.reg.strip(x.id)], x.v) else {
            bad!(self.st, "visited a composite rather than {}", x.reg.show(x.id));
            return Ok(x.off);
        };
        if c.name() != path.last().map(|s| s.as_str()) || !c.path().eq(path.iter().map(|s| s.as_str())) {
            bad!(self.st, "composite has name {:?} and path {:?}; expected {path:?}", c.name(), c.path().collect::<Vec<_>>());
        }
        let ids: Vec<_> = c.fields().iter().map(|f| f.id.ix()).collect();
        if !ids.iter().copied().eq(fields.iter().map(|f| Some(f.ty))) {
            bad!(self.st, "composite has field types {ids:?}; expected {fields:?}");
        }
        let items = self.items(fields.iter().map(|f| (f.ty, f.name.as_deref())), l, x.off, compact);
        self.run(c, &items, x.off, x.off, compact, 0)?;
        self.leave()
    }
    fn visit_variant<'scale, 'resolver>(self, c: &mut Variant<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.enter("variant", &id)?;
        let x = self.x;
        let (Def::Var { variants, .. }, V::Var(i, l)) = (&x.reg.defs[x.reg.strip(x.id)], x.v) else {
            bad!(self.st, "visited a variant rather than {}", x.reg.show(x.id));
            return Ok(x.off);
        };
        let vr = &variants[*i];
        if c.name() != vr.name || c.index() != vr.index {
            bad!(self.st, "variant is {:?} with index {}; expected {:?} with {}", c.name(), c.index(), vr.name, vr.index);
        }
        self.span("variant bytes_from_start()", c.bytes_from_start(), x.off, x.lim);
        self.span("variant bytes_from_undecoded()", c.bytes_from_undecoded(), x.off + 1, x.lim);
        let items = self.items(vr.fields.iter().map(|f| (f.ty, f.name.as_deref())), l, x.off + 1, false);
        let lazy = !matches!(self.mode, Mode::Strict | Mode::Full | Mode::FailDeep);
        if lazy && self.st.borrow_mut().ch.chance(1, 8) {
            self.st.borrow_mut().op("skip variant");
            if let Err(e) = c.skip_decoding() {
                bad!(self.st, "skipping a variant gave back {e:?}");
            }
            self.span("variant bytes_from_undecoded()", c.bytes_from_undecoded(), items.last().map_or(x.off + 1, |i| i.end), x.lim);
            return self.leave();
        }
        let names: Vec<_> = c.fields().fields().iter().map(|f| f.id.ix()).collect();
        if !names.iter().copied().eq(vr.fields.iter().map(|f| Some(f.ty))) {
            bad!(self.st, "variant has field types {names:?}; expected {:?}", vr.fields);
        }
        self.run(c.fields(), &items, x.off + 1, x.off + 1, false, 0)?;
        self.leave()
    }
}

/// Decode a value followed by other things, using a visitor which does whatever, and check everything that happens.
pub fn check<R: TypeResolver + 'static>(
    ch: &mut Ch,
    cx: &mut Cx,
    reg: &Reg,
    types: &R,
    root: usize,
    v: &V,
    trailing: &[u8],
    mode: Mode,
) -> verif_model::R
where
    R::TypeId: IdT,
{
    let mut bytes = reg.enc(root, v);
    let end = bytes.len();
    bytes.extend_from_slice(trailing);
    let st = RefCell::new(St::new(ch, &bytes));
    let x = Exp { reg, id: root, v, off: 0, lim: bytes.len(), compact: false };
    let mut cursor = &*bytes;
    let r = decode_with_visitor(&mut cursor, R::TypeId::of(root), types, Ck::<R>::new(&st, x, mode));
    let pending = st.borrow().pending;
    let msg = st.borrow_mut().msg.take();
    for o in &st.borrow().ops {
        cx.label(format!("op:{o}"));
    }
    if let Some(m) = msg {
        fail!("{m}");
    }
    match r {
        Ok(o) => {
            ensure!(pending.is_none(), "visitor error {pending:?} was lost");
            ensure!(!mode.fails(), "visitor's failure was lost");
            ensure!(o == 0, "got back the value of the visitor for offset {o}");
            ensure!(
                cursor == trailing && cursor.as_ptr() as usize == bytes.as_ptr() as usize + end,
                "after decoding, {} bytes are left rather than {}",
                cursor.len(),
                trailing.len()
            );
        }
        Err(VE::Mine(n)) => {
            ensure!(pending == Some(n), "got error {n} rather than {pending:?}");
            ensure!(
                cursor == trailing && cursor.as_ptr() as usize == bytes.as_ptr() as usize + end,
                "after a visitor's error, {} bytes are left rather than {}",
                cursor.len(),
                trailing.len()
            );
        }
        Err(e) => fail!("decoding gave back {e:?}"),
    }
    Ok(())
}

/// Decode with errors raised at some visit, having broken the bytes which needn't have been looked at yet.
pub fn error_wins(ch: &mut Ch, cx: &mut Cx, reg: &Reg, types: &Res, root: usize, v: &V) -> verif_model::R {
    // All of the places that are visited, in order, along with how much has to have been read by then.
    fn walk(reg: &Reg, id: usize, v: &V, compact: bool, off: usize, out: &mut Vec<(usize, &'static str)>) {
        let len = reg.enc_c(id, v, compact).len();
        let c = compact || reg.strip(id) != id;
        match (&reg.defs[reg.strip(id)], v) {
            (Def::Seq(i), V::List(l)) => {
                let mut p = vec![];
                compact_enc(l.len() as u128, &mut p);
                let mut o = off + p.len();
                out.push((o, "sequence"));
                for x in l {
                    walk(reg, *i, x, false, o, out);
                    o += reg.enc(*i, x).len();
                }
            }
            (Def::Arr(i, _), V::List(l)) => {
                out.push((off, "array"));
                let mut o = off;
                for x in l {
                    walk(reg, *i, x, false, o, out);
                    o += reg.enc(*i, x).len();
                }
            }
            (Def::Tup(ids), V::List(l)) => {
                out.push((off, "tuple"));
                let mut o = off;
                for (i, x) in ids.iter().zip(l) {
                    walk(reg, *i, x, c, o, out);
                    o += reg.enc_c(*i, x, c).len();
                }
            }
            (Def::Comp { fields, .. }, V::List(l)) => {
                out.push((off, "composite"));
                let mut o = off;
                for (f, x) in fields.iter().zip(l) {
                    walk(reg, f.ty, x, c, o, out);
                    o += reg.enc_c(f.ty, x, c).len();
                }
            }
            (Def::Var { variants, .. }, V::Var(i, l)) => {
                out.push((off + 1, "variant"));
                let mut o = off + 1;
                for (f, x) in variants[*i].fields.iter().zip(l) {
                    walk(reg, f.ty, x, false, o, out);
                    o += reg.enc(f.ty, x).len();
                }
            }
            (Def::Bits(..), _) => out.push((off, "bits")),
            _ => out.push((off + len, "leaf")),
        }
    }
    let mut bytes = reg.enc(root, v);
    let mut places = vec![];
    walk(reg, root, v, false, 0, &mut places);
    let at = ch.n(places.len());
    let (read, kind) = places[at];
    let how = ch.n(4);
    match how {
        0 => bytes.truncate(read),
        1 => {
            let n = ch.n(bytes.len() - read + 1);
            bytes.truncate(read + n);
        }
        2 => {
            let keep = ch.n(bytes.len() - read + 1);
            for b in &mut bytes[read + keep..] {
                *b = 0xff;
            }
        }
        _ => {}
    }
    let how = ["cut", "cut later", "broken", "intact"][how];
    let broken = reg.dec(root, false, &mut &*bytes, &mut Budget::new(200_000, 2000)).is_err();
    cx.label(format!("error at {kind}"));
    cx.label(format!("bytes {how}{}", if broken { " (invalid)" } else { "" }));
    cx.nontrivial = broken || at > 0;
    cx.key(&(reg, root, &bytes, at));
    cx.sample(|| format!("{} from {}, visitor fails at visit {at} ({kind})", reg.show(root), hex(&bytes)));
    let st = RefCell::new(St::new(ch, &bytes));
    st.borrow_mut().fail_at = Some(at as u64);
    let x = Exp { reg, id: root, v, off: 0, lim: bytes.len(), compact: false };
    let mut cursor = &*bytes;
    let r = decode_with_visitor(&mut cursor, Tid::of(root), types, Ck::<Res>::new(&st, x, Mode::Strict));
    ensure!(r == Err(VE::Mine(1)), "the visitor's error was replaced with {r:?} (visit {at}, {kind}, bytes {how})");
    let v = st.borrow().visits;
    ensure!(v == at as u64 + 1, "{} visits were made after an error", v - at as u64 - 1);
    Ok(())
}

/// Reads the items of the outermost container, whose bytes may well be broken.
pub struct Broken<'m, 's, 'c> {
    pub st: &'s RefCell<St<'c>>,
    pub reg: &'m Reg,
    /// the types and names of the items, if there's a fixed number of them.
    pub items: Vec<(usize, Option<String>)>,
    /// otherwise, the type of all of them, and how many there are.
    pub same: Option<(usize, usize)>,
    pub compact: bool,
    /// everything, and where the first item starts.
    pub bytes: &'m [u8],
    pub off: usize,
    pub log: &'s RefCell<BrokenLog>,
}
#[derive(Default)]
pub struct BrokenLog {
    pub visited: bool,
    pub good: u64,
    pub bad: u64,
    pub after: u64,
    pub too_much: bool,
}
impl<'m, 's, 'c> Broken<'m, 's, 'c> {
    fn bad(&self, m: String) {
        self.st.borrow_mut().bad(m)
    }
    fn run<'scale, 'resolver, C: Cont<'scale, 'resolver, Res>>(&self, c: &mut C) {
        self.log.borrow_mut().visited = true;
        let total = self.same.map_or(self.items.len(), |s| s.1);
        let item = |i: usize| match &self.same {
            Some((id, _)) => (*id, None),
            None => (self.items[i].0, self.items[i].1.as_deref()),
        };
        let names: Vec<Item> = self.items.iter().map(|(id, n)| Item { id: *id, v: &V::Bool(false), name: n.as_deref(), start: 0, end: 0 }).collect();
        let mut next = 0;
        // Where we know we are.
        let mut at = Some(self.off);
        let mut before = self.bytes.len() - self.off;
        let steps = self.st.borrow_mut().ch.range(2, 24);
        for _ in 0..steps {
            if self.st.borrow().msg.is_some() {
                return;
            }
            let und = c.undecoded();
            let here = (und.as_ptr() as usize).wrapping_sub(self.st.borrow().base);
            if here > self.bytes.len() || here + und.len() != self.bytes.len() {
                return self.bad(format!("bytes_from_undecoded() is {} bytes at offset {here} of {}", und.len(), self.bytes.len()));
            }
            if und.len() > before {
                return self.bad(format!("bytes_from_undecoded() went from {before} to {} bytes", und.len()));
            }
            before = und.len();
            if at.is_some_and(|at| at != here) {
                return self.bad(format!("bytes_from_undecoded() is at offset {here} rather than {at:?}"));
            }
            at = Some(here);
            let start = (c.start().as_ptr() as usize).wrapping_sub(self.st.borrow().base);
            if start + c.start().len() != self.bytes.len() || start > self.off {
                return self.bad(format!("bytes_from_start() is {} bytes at offset {start}", c.start().len()));
            }
            if c.left() != total - next {
                return self.bad(format!("remaining() is {} after {next} of {total} items", c.left()));
            }
            if self.same.is_none() {
                if let Err(e) = c.extra_checks(&names, next) {
                    return self.bad(format!("{e} after {next} of {total} items"));
                }
            }
            let op = self.st.borrow_mut().ch.weighted(&[6, 6, 3, 1, 1]);
            if next >= total {
                self.log.borrow_mut().after += 1;
                match op {
                    0 => {
                        if let Some(r) = c.item(crate::vals::Vv::<Res>::new(crate::vals::Style::Items)) {
                            return self.bad(format!("decode_item gave back {r:?} after the last item"));
                        }
                    }
                    1 => {
                        if let Some(r) = c.handle() {
                            return self.bad(format!("iterating gave back {:?} after the last item", r.map(|h| h.bytes().to_vec())));
                        }
                    }
                    2 => {
                        if let Some(r) = c.item(IgnoreVisitor::<Res>::new()) {
                            return self.bad(format!("decode_item gave back {r:?} after the last item"));
                        }
                    }
                    3 => {
                        if let Err(e) = c.skip() {
                            return self.bad(format!("skip_decoding() gave back {e:?} after the last item"));
                        }
                    }
                    _ => {
                        if let Some(mut t) = c.to_tuple() {
                            if t.remaining() != 0 || t.next().is_some() {
                                return self.bad("as_tuple() has items after the last one".into());
                            }
                        }
                    }
                }
                continue;
            }
            // What should come next?
            let (id, _) = item(next);
            let mut rest = &self.bytes[here..];
            let want = self.reg.dec(id, self.compact, &mut rest, &mut Budget::new(5_000, 300));
            if matches!(want, Err(Rej::Budget)) {
                self.log.borrow_mut().too_much = true;
                return;
            }
            let end = self.bytes.len() - rest.len();
            let step = |n: &mut usize, at: &mut Option<usize>, ok: bool| {
                if ok {
                    self.log.borrow_mut().good += 1;
                    *n += 1;
                    *at = Some(end);
                } else {
                    self.log.borrow_mut().bad += 1;
                    *n = if C::ARRAYLIKE { *n + 1 } else { total };
                    *at = None;
                }
            };
            let what = |w: &Result<V, Rej>| format!("{w:?} for item {next} at {here}, a {}", self.reg.show(id));
            match op {
                0 | 2 => {
                    let ignore = op == 2;
                    let got = if ignore {
                        c.item(IgnoreVisitor::<Res>::new()).map(|r| r.map(|()| None))
                    } else {
                        c.item(crate::vals::Vv::<Res>::new(crate::vals::Style::Items)).map(|r| r.map(Some))
                    };
                    match (&want, got) {
                        (Ok(w), Some(Ok(g))) if g.is_none() || g == Some(crate::vals::seen(self.reg, id, w)) => {}
                        (Err(w), Some(Err(e))) if crate::props::explains(w, &e) => {}
                        (_, g) => return self.bad(format!("decode_item gave {g:?}; expected {}", what(&want))),
                    }
                    step(&mut next, &mut at, want.is_ok());
                }
                1 => {
                    match (&want, c.handle()) {
                        (Ok(w), Some(Ok(h))) => {
                            if h.bytes() != &self.bytes[here..end] {
                                return self.bad(format!("item has the bytes {} rather than {}", hex(h.bytes()), hex(&self.bytes[here..end])));
                            }
                            let got = h.decode(crate::vals::Vv::<Res>::new(crate::vals::Style::Handles));
                            if got.as_ref().ok() != Some(&crate::vals::seen(self.reg, id, w)) {
                                return self.bad(format!("decoding an item gave {got:?}; expected {}", what(&want)));
                            }
                        }
                        (Err(w), Some(Err(e))) if crate::props::explains(w, &e) => {}
                        (_, g) => return self.bad(format!("iterating gave {:?}; expected {}", g.map(|r| r.map(|h| hex(h.bytes()))), what(&want))),
                    }
                    step(&mut next, &mut at, want.is_ok());
                }
                3 if self.same.is_none_or(|s| s.1 - next < 200) => {
                    // Decode everything that's left.
                    let mut rest = &self.bytes[here..];
                    let mut want = Ok(());
                    let mut i = next;
                    while i < total && want.is_ok() {
                        match self.reg.dec(item(i).0, self.compact, &mut rest, &mut Budget::new(5_000, 300)) {
                            Ok(_) => i += 1,
                            Err(Rej::Budget) => {
                                self.log.borrow_mut().too_much = true;
                                return;
                            }
                            Err(e) => want = Err(e),
                        }
                    }
                    match (&want, c.skip()) {
                        (Ok(()), Ok(())) => {
                            next = total;
                            at = Some(self.bytes.len() - rest.len());
                        }
                        (Err(w), Err(e)) if crate::props::explains(w, &e) => {
                            self.log.borrow_mut().bad += 1;
                            next = if C::ARRAYLIKE { i + 1 } else { total };
                            at = None;
                        }
                        (_, g) => return self.bad(format!("skip_decoding() gave {g:?}; expected {want:?}")),
                    }
                }
                _ => {
                    // Copies start from where we are, and leave this alone.
                    if let Some(t) = c.to_tuple() {
                        if t.remaining() != total - next || t.bytes_from_undecoded() != &self.bytes[here..] {
                            return self.bad(format!("as_tuple() has {} items and {} bytes; expected {} and {}", t.remaining(), t.bytes_from_undecoded().len(), total - next, before));
                        }
                        if self.st.borrow_mut().ch.chance(1, 2) {
                            let mut t = t;
                            let _ = t.skip_decoding();
                        }
                    }
                }
            }
        }
    }
}
impl<'m, 's, 'c> Visitor for Broken<'m, 's, 'c> {
    type Value<'scale, 'resolver> = ();
    type Error = DecodeError;
    type TypeResolver = Res;
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.bad(format!("visit_unexpected({u:?})"));
        Ok(())
    }
    fn visit_sequence<'scale, 'resolver>(mut self, c: &mut Sequence<'scale, 'resolver, Res>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.off = self.bytes.len() - c.bytes_from_undecoded().len();
        self.run(c);
        Ok(())
    }
    fn visit_array<'scale, 'resolver>(self, c: &mut Array<'scale, 'resolver, Res>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.run(c);
        Ok(())
    }
    fn visit_tuple<'scale, 'resolver>(self, c: &mut Tuple<'scale, 'resolver, Res>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.run(c);
        Ok(())
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, Res>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.run(c);
        Ok(())
    }
    fn visit_variant<'scale, 'resolver>(self, c: &mut Variant<'scale, 'resolver, Res>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        if self.st.borrow_mut().ch.chance(1, 8) {
            // Variants themselves can be skipped, too.
            let b = c.bytes_from_undecoded();
            let mut rest = b;
            let mut want = Ok(());
            for (id, _) in &self.items {
                match self.reg.dec(*id, false, &mut rest, &mut Budget::new(5_000, 300)) {
                    Ok(_) => {}
                    Err(Rej::Budget) => {
                        self.log.borrow_mut().too_much = true;
                        return Ok(());
                    }
                    Err(e) => {
                        want = Err(e);
                        break;
                    }
                }
            }
            match (&want, c.skip_decoding()) {
                (Ok(()), Ok(())) if c.bytes_from_undecoded() == rest => {}
                (Err(w), Err(e)) if crate::props::explains(w, &e) => {}
                (_, g) => self.bad(format!("skip_decoding() gave {g:?}; expected {want:?}")),
            }
            if c.fields().remaining() != 0 || c.fields().next().is_some() {
                self.bad("there are fields left after skip_decoding()".into());
            }
            return Ok(());
        }
        self.run(c.fields());
        Ok(())
    }
}
