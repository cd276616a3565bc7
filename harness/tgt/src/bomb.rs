//! A target which fails when it's told to, inside of others.
use crate::entries::{One, Pos};
use scale_decode::error::{Error, ErrorKind};
use scale_decode::visitor::{decode_with_visitor, DecodeAsTypeResult, IgnoreVisitor, TypeIdFor, Unexpected};
use scale_decode::{DecodeAsType, IntoVisitor, TypeResolver, Visitor};
use std::cell::RefCell;
use std::collections::*;
use std::marker::PhantomData;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use verif_kit::{entry, field, judge, Entry, Tgt};
use verif_model::shape::*;
use verif_model::*;

#[derive(Default)]
struct Plan {
    /// Which visit fails
    fail: Option<usize>,
    /// whether it does when handed some value, rather than when asked to take over decoding,
    late: bool,
    /// what there is otherwise: the number of the visit, or bytes,
    number: bool,
    /// and where each visit so far was, and how long the thing visited is.
    visits: Vec<(usize, usize)>,
}
thread_local!(static PLAN: RefCell<Plan> = RefCell::default());

#[derive(Debug)]
struct Marker(usize);
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "visit {} failed", self.0)
    }
}
impl std::error::Error for Marker {}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
pub struct Bomb(Vec<u8>);
/// (It has the number of the visit, once it's been asked to take over.)
pub struct BombVisitor<R>(PhantomData<R>, Option<usize>);
impl<R> BombVisitor<R> {
    fn visit(&self) -> Result<(), Error> {
        match PLAN.with(|p| p.borrow().fail) {
            Some(n) if self.1 == Some(n) => Err(Error::custom(Marker(n))),
            _ => Ok(()),
        }
    }
}
impl<R: TypeResolver> Visitor for BombVisitor<R> {
    type Value<'scale, 'resolver> = Bomb;
    type Error = Error;
    type TypeResolver = R;
    fn visit_unexpected<'scale, 'resolver>(
        self, _: Unexpected,
    ) -> Result<Self::Value<'scale, 'resolver>, Error> {
        self.visit().map(|_| Bomb(vec![]))
    }
    fn unchecked_decode_as_type<'scale, 'resolver>(
        mut self,
        input: &mut &'scale [u8],
        type_id: TypeIdFor<Self>,
        types: &'resolver R,
    ) -> DecodeAsTypeResult<Self, Result<Bomb, Error>> {
        let before = *input;
        let mut after = before;
        let r = decode_with_visitor(&mut after, type_id.clone(), types, IgnoreVisitor::<R>::new());
        if self.1.is_some() {
            // It's something inside of something that has no encoding of its own.
            return DecodeAsTypeResult::Skipped(self);
        }
        let (late, number) = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            self.1 = Some(p.visits.len());
            p.visits.push((before.as_ptr() as usize, before.len() - after.len()));
            (p.late, p.number)
        });
        if late {
            return DecodeAsTypeResult::Skipped(self);
        }
        DecodeAsTypeResult::Decoded(self.visit().and_then(|_| {
            r?;
            *input = after;
            Ok(Bomb(if number { self.1.unwrap().to_be_bytes().to_vec() } else { before[..before.len() - after.len()].to_vec() }))
        }))
    }
}
impl IntoVisitor for Bomb {
    type AnyVisitor<R: TypeResolver> = BombVisitor<R>;
    fn into_visitor<R: TypeResolver>() -> BombVisitor<R> {
        BombVisitor(PhantomData, None)
    }
}
impl Tgt for Bomb {
    fn shape() -> Shape {
        Shape::Raw
    }
    fn norm(self) -> TV {
        TV::Raw(self.0)
    }
}

#[derive(DecodeAsType)]
struct Two {
    a: Bomb,
    n: u8,
    b: Bomb,
}
#[derive(DecodeAsType)]
struct Three(Bomb, u8, Vec<Bomb>);
#[derive(DecodeAsType)]
#[allow(clippy::large_enum_variant)]
enum Any {
    A(Bomb, Bomb),
    B { x: Bomb, y: Option<Bomb> },
    C,
    D(Two),
}
impl Tgt for Two {
    fn shape() -> Shape {
        Shape::Struct(SFields::Named(vec![field("a", Shape::Raw), field("n", u8::shape()), field("b", Shape::Raw)]))
    }
    fn norm(self) -> TV {
        TV::Struct(vec![self.a.norm(), self.n.norm(), self.b.norm()])
    }
}
impl Tgt for Three {
    fn shape() -> Shape {
        Shape::Struct(SFields::Unnamed(vec![field("0", Shape::Raw), field("1", u8::shape()), field("2", Vec::<Bomb>::shape())]))
    }
    fn norm(self) -> TV {
        TV::Struct(vec![self.0.norm(), self.1.norm(), self.2.norm()])
    }
}
impl Tgt for Any {
    fn shape() -> Shape {
        Shape::Enum(vec![
            SVar { name: "A".into(), fields: SFields::Unnamed(vec![field("0", Shape::Raw), field("1", Shape::Raw)]) },
            SVar { name: "B".into(), fields: SFields::Named(vec![field("x", Shape::Raw), field("y", Option::<Bomb>::shape())]) },
            SVar { name: "C".into(), fields: SFields::Unit },
            SVar { name: "D".into(), fields: SFields::Unnamed(vec![field("0", Two::shape())]) },
        ])
    }
    fn norm(self) -> TV {
        match self {
            Any::A(a, b) => TV::Enum("A".into(), vec![a.norm(), b.norm()]),
            Any::B { x, y } => TV::Enum("B".into(), vec![x.norm(), y.norm()]),
            Any::C => TV::Enum("C".into(), vec![]),
            Any::D(t) => TV::Enum("D".into(), vec![t.norm()]),
        }
    }
}

fn bombs() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| {
        entry!(Vec<Bomb>, VecDeque<Bomb>, LinkedList<Bomb>, BinaryHeap<Bomb>, BTreeSet<Bomb>, [Bomb; 2], [Bomb; 5], BTreeMap<String, Bomb>, Option<Bomb>, Result<Bomb, u8>,
            Result<Bomb, Bomb>, (Bomb,), (Bomb, Bomb), (u8, Bomb, Bomb, u8), (Bomb, Bomb, Bomb, Bomb, Bomb, Bomb), Box<Bomb>, Arc<(Bomb, Bomb)>, Rc<Vec<Bomb>>, Range<Bomb>, RangeInclusive<Bomb>,
            Vec<Vec<Bomb>>, Vec<Option<Bomb>>, [[Bomb; 2]; 2], Vec<(Bomb, u8)>, (Vec<Bomb>, [Bomb; 2]), Option<(Bomb, Vec<Bomb>)>, BTreeMap<String, Vec<Bomb>>, Vec<BTreeMap<String, Bomb>>,
            BTreeMap<String, BTreeMap<String, Bomb>>, One<Bomb>, Pos<Bomb>, One<Vec<Pos<Bomb>>>, Two, Three, Any, Vec<Two>, Vec<Any>, Option<Three>, (Two, Bomb), [Any; 2], BTreeMap<String, Two>, Vec<Three>,
            Box<Any>, VecDeque<(Bomb, Bomb)>, LinkedList<Two>, Result<Two, Three>, Range<Two>, Bomb)
    })
}

fn run(e: &Entry, bytes: &[u8], root: usize, types: &Res, plan: Plan) -> (Result<TV, Error>, Vec<(usize, usize)>) {
    PLAN.with(|p| *p.borrow_mut() = plan);
    let r = (e.decode)(&mut &*bytes, root, types);
    let visits = PLAN.with(|p| p.take().visits.iter().map(|(at, len)| (at - bytes.as_ptr() as usize, *len)).collect());
    (r, visits)
}
fn source(ch: &mut Ch, cx: &mut Cx, e: &Entry, bad: u64) -> R<(Reg, usize, V)> {
    let (reg, root, v) = for_shape_opts(ch, &(e.shape)(), bad, 0, false);
    if gen::avoid_empty_seqs(&mut reg.clone(), root) > 0 {
        cx.excluded += 1;
        return Err(Stop::Discard("sequences of nothing"));
    }
    // (What takes over decoding isn't told that it's compact.)
    if reg.reach(root).iter().any(|i| matches!(reg.defs[*i], Def::Compact(t) if !matches!(reg.defs[t], Def::Prim(_)))) {
        return Err(Stop::Discard("compact wrappers"));
    }
    Ok((reg, root, v))
}

/// Things which are also the same place in something of the same structure.
fn places<'a>(a: &'a TV, b: &'a TV, out: &mut Vec<(&'a [u8], &'a [u8])>) {
    match (a, b) {
        (TV::Raw(x), TV::Raw(y)) => out.push((x, y)),
        (TV::List(x), TV::List(y)) | (TV::Struct(x), TV::Struct(y)) | (TV::Enum(_, x), TV::Enum(_, y)) => x.iter().zip(y).for_each(|(x, y)| places(x, y, out)),
        (TV::Map(x), TV::Map(y)) => x.values().zip(y.values()).for_each(|(x, y)| places(x, y, out)),
        (TV::Some(x), TV::Some(y)) | (TV::Ok(x), TV::Ok(y)) | (TV::Err(x), TV::Err(y)) => places(x, y, out),
        _ => {}
    }
}
/// An error of something inside has the place where that is.
pub fn c16_targets(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = ch.pick(bombs());
    cx.label(format!("to:{}", e.name));
    let (reg, root, v) = source(ch, cx, e, 0)?;
    let shape = (e.shape)();
    let Ok(model) = with_raws(Raws::Number, || fit(&reg, root, &v, &shape)) else {
        return Err(Stop::Discard("doesn't fit"));
    };
    let bytes = reg.enc(root, &v);
    let types = Res::<Tid>::new(reg.clone());
    let (clean, visits) = run(e, &bytes, root, &types, Plan { number: true, ..Plan::default() });
    cx.key(&(e.name, &reg, root, &v));
    cx.sample(|| format!("{} as {} from {}", reg.show(root), e.name, hex(&bytes)));
    let Ok(clean) = clean else { fail!("{}: got {clean:?}", e.name) };
    let mut same = vec![];
    places(&clean, &model, &mut same);
    ensure!(same.len() == visits.len(), "{}: {clean:?} rather than {model:?}", e.name);
    for n in 0..visits.len() {
        let late = ch.chance(1, 2);
        let num = n.to_be_bytes();
        let Some((_, m)) = same.iter().find(|s| s.0 == num) else { fail!("{}: visit {n} isn't in {clean:?}", e.name) };
        let m = usize::from_be_bytes((*m).try_into().unwrap());
        let want = with_raws(Raws::Fail(m), || fit(&reg, root, &v, &shape));
        cx.nontrivial |= want.as_ref().is_err_and(|w| !w[0].path.is_empty());
        let (got, _) = run(e, &bytes, root, &types, Plan { fail: Some(n), late, ..Plan::default() });
        if let Err(Stop::Fail(msg)) = judge(e.name, &want, &got, true) {
            fail!("visit {n} fails: {msg}");
        }
    }
    Ok(())
}

pub fn c15_targets(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = ch.pick(bombs());
    cx.label(format!("to:{}", e.name));
    let bad = *ch.pick(&[0, 0, 0, 10]);
    let (reg, root, v) = source(ch, cx, e, bad)?;
    let mut bytes = reg.enc(root, &v);
    let whole = bytes.len();
    bytes.extend(gen::trailing(ch));
    let types = Res::<Tid>::new(reg.clone());
    // What's visited if nothing fails?
    let (clean, visits) = run(e, &bytes, root, &types, Plan::default());
    judge(e.name, &fit(&reg, root, &v, &(e.shape)()), &clean, false)?;
    if visits.is_empty() {
        cx.key(&(e.name, &reg, root, &v));
        cx.label("no visits");
        return Ok(());
    }
    let n = ch.n(visits.len());
    let late = ch.chance(1, 2);
    // Anything may be wrong behind what was visited up to then.
    let end = |i: usize| visits[i].0 + if i < n || late { visits[i].1 } else { 0 };
    let seen = (0..=n).map(end).max().unwrap().min(whole);
    let what = ch.n(3);
    let mut bad = bytes.clone();
    match what {
        0 => {}
        1 => bad.truncate(seen + ch.n(bad.len() - seen + 1)),
        _ => {
            let mut tail = bad.split_off(seen);
            gen::corrupt(ch, &mut tail);
            bad.extend(tail);
        }
    }
    cx.key(&(e.name, &reg, root, &bad, n, late));
    cx.nontrivial = n > 0 || what > 0;
    cx.label(["input behind it:intact", "input behind it:cut", "input behind it:broken"][what]);
    cx.label(if n + 1 < visits.len() { "visit:not the last" } else { "visit:the last" });
    cx.sample(|| format!("{} as {} from {} (0x{} if intact), failing at visit {n} of {}{}", reg.show(root), e.name, hex(&bad), hex(&bytes), visits.len(), if late { " when handed a value" } else { "" }));
    if matches!(reg.dec(root, false, &mut &*bad, &mut Budget::new(20_000, 1500)), Err(Rej::Budget)) {
        return Err(Stop::Discard("too much work"));
    }
    let (got, seen) = run(e, &bad, root, &types, Plan { fail: Some(n), late, ..Plan::default() });
    let Err(err) = got else { fail!("{}: visit {n} of {} failed, but got {got:?}", e.name, visits.len()) };
    let at = |v: &[(usize, usize)]| v.iter().map(|v| v.0).collect::<Vec<_>>();
    let (want, have) = (at(&visits), at(&seen));
    ensure!(have.len() <= n + 1, "{}: visit {n} failed, but there were {} visits", e.name, have.len());
    if bad != bytes && have.len() <= n {
        // Something in front of it was found to be wrong first; fields by name, for instance.
        cx.label("not reached");
        if let Ok(v) = reg.dec(root, false, &mut &*bad, &mut Budget::new(20_000, 1500)) {
            ensure!(fit(&reg, root, &v, &(e.shape)()).is_err(), "{}: visit {n} wasn't reached", e.name);
        }
        return Ok(());
    }
    ensure!(have[..] == want[..=n], "{}: visited {have:?} rather than {:?}", e.name, &want[..=n]);
    match err.kind() {
        ErrorKind::Custom(m) if m.to_string() == format!("visit {n} failed") => Ok(()),
        k => fail!("{}: visit {n} failed, but the error is {k:?}", e.name),
    }
}
