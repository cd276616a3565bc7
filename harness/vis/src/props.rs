//! Properties of decoding with visitors.
use crate::chaos::{Chaos, ChaosSt};
use crate::ck::{check, error_wins, Ck, Exp, Hd, Mode, St};
use crate::mem::measure;
use crate::vals::*;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{
    decode_with_visitor, DecodeAsTypeResult, DecodeError, IgnoreVisitor, TypeIdFor, Unexpected, Visitor, VisitorWithCrateError,
};
use scale_decode::{DecodeAsType, TypeResolver};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use verif_model::*;

/// Ways to decode a value.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Build(Style),
    Ignore,
    Wrapped(Style),
    WrappedIgnore,
}
pub const HOWS: [How; 6] = [
    How::Build(Style::Items),
    How::Build(Style::Handles),
    How::Build(Style::Tuples),
    How::Ignore,
    How::Wrapped(Style::Items),
    How::WrappedIgnore,
];
/// Decode a value, giving back what was seen if the visitor did look. Errors which aren't to do with decoding come back as a string.
pub fn decode_how<'a, R: TypeResolver + 'static>(how: How, b: &mut &'a [u8], id: usize, types: &R) -> Result<Option<S>, Result<DecodeError, String>>
where
    R::TypeId: IdT,
{
    use scale_decode::error::ErrorKind;
    let unwrap = |e: scale_decode::Error| match e.kind() {
        ErrorKind::VisitorDecodeError(d) if e.context().path().locations().next().is_none() => Ok(d.clone()),
        _ => Err(e.to_string()),
    };
    let id = R::TypeId::of(id);
    match how {
        How::Build(s) => decode_with_visitor(b, id, types, Vv::<R>::new(s)).map(Some).map_err(Ok),
        How::Ignore => decode_with_visitor(b, id, types, IgnoreVisitor::<R>::new()).map(|_| None).map_err(Ok),
        How::Wrapped(s) => decode_with_visitor(b, id, types, VisitorWithCrateError(Vv::<R>::new(s))).map(Some).map_err(unwrap),
        How::WrappedIgnore => decode_with_visitor(b, id, types, VisitorWithCrateError(IgnoreVisitor::<R>::new())).map(|_| None).map_err(unwrap),
    }
}
/// Is this an error which describes why we think decoding had to fail?
pub fn explains(r: &Rej, e: &DecodeError) -> bool {
    let text = e.to_string();
    let says = |n: &dyn std::fmt::Display| text.contains(&n.to_string());
    match (r, e) {
        (Rej::Eof, DecodeError::NotEnoughInput | DecodeError::CodecError(_)) => true,
        (Rej::Codec, DecodeError::CodecError(c)) => says(c),
        (Rej::BadChar(n), DecodeError::InvalidChar(m)) => n == m && says(n),
        (Rej::NoVariant(n), DecodeError::VariantNotFound(m)) => n == m && says(n),
        (Rej::CompactBad, DecodeError::CannotDecodeCompactIntoType) => true,
        _ => false,
    }
}
fn trivial(reg: &Reg, id: usize, v: &V) -> bool {
    matches!(reg.defs[id], Def::Prim(_)) || reg.enc(id, v).is_empty()
}
fn shape_labels(cx: &mut Cx, reg: &Reg, id: usize) {
    for i in reg.reach(id) {
        let l = match &reg.defs[i] {
            Def::Prim(_) => continue,
            Def::Compact(_) => "has:compact",
            Def::Seq(_) => "has:sequence",
            Def::Arr(..) => "has:array",
            Def::Tup(t) if t.len() > 16 => "has:wide tuple",
            Def::Tup(_) => "has:tuple",
            Def::Comp { fields, .. } if fields.len() > 16 => "has:wide composite",
            Def::Comp { .. } => "has:composite",
            Def::Var { .. } => "has:variant",
            Def::Bits(..) => "has:bits",
        };
        cx.label(l);
    }
}
struct Case {
    reg: Reg,
    root: usize,
    v: V,
    trailing: Vec<u8>,
}
fn case(ch: &mut Ch, cx: &mut Cx) -> Case {
    let (reg, root, p) = gen::any_type(ch);
    let v = gen::any_val(ch, &reg, root, p);
    let trailing = gen::trailing(ch);
    cx.label(format!("profile:{p:?}"));
    shape_labels(cx, &reg, root);
    cx.nontrivial = !trivial(&reg, root, &v);
    cx.key(&(&reg, root, &v));
    cx.sample(|| format!("{} from {} followed by {}", reg.show(root), hex(&reg.enc(root, &v)), hex(&trailing)));
    Case { reg, root, v, trailing }
}

// --- C01

fn c01_model(ch: &mut Ch, cx: &mut Cx) -> R {
    let c = case(ch, cx);
    let types = Res::<Tid>::new(c.reg.clone());
    let mode = if ch.chance(1, 2) { Mode::Full } else { Mode::Strict };
    check(ch, cx, &c.reg, &types, c.root, &c.v, &c.trailing, mode)
}
fn c01_portable(ch: &mut Ch, cx: &mut Cx) -> R {
    let c = case(ch, cx);
    let types = to_portable(&c.reg);
    let mode = if ch.chance(1, 2) { Mode::Full } else { Mode::Strict };
    check(ch, cx, &c.reg, &types, c.root, &c.v, &c.trailing, mode)
}
/// Build values without knowing what to expect, in all of the ways that there are.
fn same_value<T: TypeResolver + 'static>(reg: &Reg, types: &T, root: usize, v: &V, trailing: &[u8]) -> R
where
    T::TypeId: IdT,
{
    let mut bytes = reg.enc(root, v);
    bytes.extend_from_slice(trailing);
    let want = seen(reg, root, v);
    for how in HOWS.into_iter().chain([How::Build(Style::Types), How::Build(Style::TupleTypes)]) {
        let mut b = &*bytes;
        match decode_how(how, &mut b, root, types) {
            Ok(s) => {
                ensure!(s.is_none() || s.as_ref() == Some(&want), "{how:?} gave {s:?} rather than {want:?}");
                ensure!(b == trailing, "{how:?} left {} bytes rather than {}", b.len(), trailing.len());
            }
            Err(e) => fail!("{how:?} failed with {e:?}"),
        }
    }
    Ok(())
}
fn c01_build(ch: &mut Ch, cx: &mut Cx) -> R {
    let c = case(ch, cx);
    same_value(&c.reg, &Res::<Tid>::new(c.reg.clone()), c.root, &c.v, &c.trailing)
}

// --- C02

/// Compare how bytes are decoded with the reference decoder.
pub fn differential(reg: &Reg, types: &Res, root: usize, bytes: &[u8], hows: &[How], cx: &mut Cx) -> R {
    let mut rest = bytes;
    let mut bud = Budget::new(20_000, 1500);
    let want = reg.dec(root, false, &mut rest, &mut bud);
    let want = match want {
        Err(Rej::Budget) => return Err(Stop::Discard("too much work")),
        w => w.map(|v| seen(reg, root, &v)),
    };
    cx.label(match &want {
        Ok(_) => "verdict:valid".to_string(),
        Err(Rej::BadChar(_)) => "verdict:BadChar".to_string(),
        Err(Rej::NoVariant(_)) => "verdict:NoVariant".to_string(),
        Err(e) => format!("verdict:{e:?}"),
    });
    for how in hows {
        let mut b = bytes;
        match (decode_how(*how, &mut b, root, types), &want) {
            (Ok(s), Ok(w)) => {
                ensure!(s.is_none() || s.as_ref() == Some(w), "{how:?} gave {s:?} rather than {w:?}");
                ensure!(b == rest, "{how:?} left {} bytes rather than {}", b.len(), rest.len());
            }
            (Err(Ok(e)), Err(w)) => ensure!(explains(w, &e), "{how:?} failed with {e:?} when the reason is {w:?}"),
            (got, want) => fail!("{how:?} gave {got:?}; expected {want:?}"),
        }
    }
    Ok(())
}
fn c02_case(ch: &mut Ch, cx: &mut Cx) -> (Reg, usize, Vec<u8>) {
    let (mut reg, root, p) = gen::any_type(ch);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let bytes = match ch.weighted(&[16, 2, 2, 3]) {
        0 => {
            let v = gen::any_val(ch, &reg, root, p);
            let mut b = reg.enc(root, &v);
            b.extend(gen::trailing(ch));
            gen::corrupt(ch, &mut b);
            b
        }
        3 => {
            let v = gen::any_val(ch, &reg, root, p);
            let (mut b, n) = inflated(ch, &reg, root, &v);
            if n > 0 {
                cx.label("length:huge");
            }
            b.extend(gen::trailing(ch));
            b
        }
        1 => (0..ch.n(40)).map(|_| gen::byte(ch)).collect(),
        _ => (0..ch.n(200)).map(|_| ch.below(256) as u8).collect(),
    };
    shape_labels(cx, &reg, root);
    cx.key(&(&reg, root, &bytes));
    cx.nontrivial = !matches!(reg.defs[root], Def::Prim(_)) && !bytes.is_empty();
    cx.sample(|| format!("{} from {}", reg.show(root), hex(&bytes)));
    (reg, root, bytes)
}
fn c02_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    let (reg, root, bytes) = c02_case(ch, cx);
    let types = Res::new(reg.clone());
    differential(&reg, &types, root, &bytes, &HOWS, cx)
}
/// Every way of cutting a value short.
fn c02_cut(ch: &mut Ch, cx: &mut Cx) -> R {
    let (mut reg, root, p) = gen::any_type(ch);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let v = gen::any_val(ch, &reg, root, p);
    let bytes = reg.enc(root, &v);
    cx.key(&(&reg, root, &bytes));
    cx.nontrivial = bytes.len() > 1;
    cx.sample(|| format!("{} from {} cut short", reg.show(root), hex(&bytes)));
    let types = Res::<Tid>::new(reg.clone());
    let step = bytes.len() / 64 + 1;
    let mut n = if bytes.is_empty() { 0 } else { ch.n(step) };
    while n < bytes.len() {
        for how in [How::Build(Style::Items), How::Ignore, How::Build(Style::Handles)] {
            types.lookups.set(0);
            let mut b = &bytes[..n];
            match decode_how(how, &mut b, root, &types) {
                Err(Ok(e)) if explains(&Rej::Eof, &e) => {}
                r => fail!("{how:?} of {n} of {} bytes gave {r:?}", bytes.len()),
            }
        }
        n += step;
    }
    Ok(())
}
/// Carry on regardless of failures.
fn c02_chaos(ch: &mut Ch, cx: &mut Cx) -> R {
    let (reg, root, bytes) = c02_case(ch, cx);
    let types = Res::<Tid>::new(reg.clone());
    let st = RefCell::new(ChaosSt::new(ch, &bytes));
    let mut b = &*bytes;
    let r = decode_with_visitor(&mut b, Tid::of(root), &types, Chaos { st: &st, depth: 0 });
    let st = st.into_inner();
    if let Some(m) = st.msg {
        fail!("{m}");
    }
    ensure!(bytes.ends_with(b) && b.as_ptr() as usize + b.len() == bytes.as_ptr() as usize + bytes.len(), "what's left isn't the end of the input");
    cx.label(if r.is_ok() { "chaos:ok" } else { "chaos:error" });
    cx.nontrivial &= st.errs > 0;
    Ok(())
}
/// Types that contain themselves, and input which is as deep as we're given.
fn deep_type() -> (Reg, usize) {
    let mut reg = Reg::default();
    let id = reg.add(Def::Tup(vec![]));
    let opt = reg.add(Def::Var {
        path: vec!["Option".into()],
        variants: vec![Vr { name: "None".into(), index: 0, fields: vec![] }, Vr { name: "Some".into(), index: 1, fields: vec![F { name: None, ty: id }] }],
    });
    reg.defs[id] = Def::Comp { path: vec!["List".into()], fields: vec![F { name: Some("next".into()), ty: opt }] };
    (reg, id)
}
/// Decode something very deeply nested with a normal amount of stack.
pub fn deep_demo() {
    let (reg, id) = deep_type();
    let types = Res::<Tid>::new(reg);
    let bytes = vec![1u8; 4_000_000];
    let _ = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r = decode_with_visitor(&mut &*bytes, Tid::of(id), &types, IgnoreVisitor::<Res>::new());
            println!("{r:?}");
        })
        .unwrap()
        .join();
}
#[cfg(not(unix))]
pub fn known_deep() -> Option<String> {
    None
}
#[cfg(unix)]
pub fn known_deep() -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let out = std::process::Command::new(std::env::current_exe().ok()?).arg("demo-deep").output().ok()?;
    out.status.signal().map(|_| {
        "4,000,000 nested values of a type containing itself (4 MB of 0x01 for struct List { next: Option<List> }) overflow an 8 MB stack, which aborts the process".to_string()
    })
}

// --- C03

fn c03_lazy(ch: &mut Ch, cx: &mut Cx) -> R {
    let c = case(ch, cx);
    let types = Res::<Tid>::new(c.reg.clone());
    let mode = [Mode::Lazy, Mode::FailEarly, Mode::FailLate, Mode::FailDeep][ch.weighted(&[6, 1, 1, 1])];
    cx.label(format!("mode:{mode:?}"));
    check(ch, cx, &c.reg, &types, c.root, &c.v, &c.trailing, mode)
}
fn c03_portable(ch: &mut Ch, cx: &mut Cx) -> R {
    let c = case(ch, cx);
    let types = to_portable(&c.reg);
    check(ch, cx, &c.reg, &types, c.root, &c.v, &c.trailing, Mode::Lazy)
}
/// Visits things at some level and ignores whatever is inside of them.
struct Shallow<R> {
    depth: usize,
    _m: PhantomData<R>,
}
macro_rules! shallow_item {
    ($s:expr, $c:expr) => {{
        if $s.depth > 0 {
            while let Some(r) = $c.decode_item(Shallow::<R> { depth: $s.depth - 1, _m: PhantomData }) {
                r?;
            }
        }
        Ok(())
    }};
}
impl<R: TypeResolver + 'static> Visitor for Shallow<R> {
    type Value<'scale, 'resolver> = ();
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(())
    }
    fn visit_sequence<'scale, 'resolver>(self, c: &mut Sequence<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        shallow_item!(self, c)
    }
    fn visit_array<'scale, 'resolver>(self, c: &mut Array<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        shallow_item!(self, c)
    }
    fn visit_tuple<'scale, 'resolver>(self, c: &mut Tuple<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        shallow_item!(self, c)
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        shallow_item!(self, c)
    }
    fn visit_variant<'scale, 'resolver>(self, c: &mut Variant<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let c = c.fields();
        shallow_item!(self, c)
    }
}
/// Several values one after another, each decoded by something different.
fn c03_stream(ch: &mut Ch, cx: &mut Cx) -> R {
    let (reg, root, p) = gen::any_type(ch);
    let mut bytes = vec![];
    let mut ends = vec![];
    let mut ids = vec![];
    let reach: Vec<usize> = {
        let h = reg.heights();
        reg.reach(root).into_iter().filter(|i| h[*i].is_some()).collect()
    };
    for _ in 0..ch.range(1, 6) {
        let id = if ch.chance(1, 2) { reach[ch.n(reach.len())] } else { root };
        let v = gen::any_val(ch, &reg, id, p);
        reg.enc_to(id, &v, false, &mut bytes);
        ends.push(bytes.len());
        ids.push(id);
    }
    let types = Res::<Tid>::new(reg.clone());
    cx.key(&(&reg, &bytes, &ids));
    cx.nontrivial = ids.len() > 1 && !bytes.is_empty();
    cx.sample(|| format!("{} values, the first of which is {}, from {}", ids.len(), reg.show(ids[0]), hex(&bytes)));
    let mut b = &*bytes;
    for (id, end) in ids.iter().zip(ends) {
        let how = ch.n(4);
        let depth = ch.n(4);
        let r = match how {
            0 => decode_with_visitor(&mut b, Tid::of(*id), &types, IgnoreVisitor::<Res>::new()),
            1 => decode_with_visitor(&mut b, Tid::of(*id), &types, Shallow::<Res> { depth, _m: PhantomData }),
            2 => decode_with_visitor(&mut b, Tid::of(*id), &types, Shallow::<Res> { depth: 0, _m: PhantomData }),
            _ => decode_with_visitor(&mut b, Tid::of(*id), &types, Vv::<Res>::new(Style::Handles)).map(|_| ()),
        };
        ensure!(r.is_ok(), "decoding {} failed with {r:?}", reg.show(*id));
        ensure!(b.len() == bytes.len() - end, "after decoding {} (visitor {how}), {} bytes are left rather than {}", reg.show(*id), b.len(), bytes.len() - end);
    }
    Ok(())
}

// --- C04

fn c04_anywhere(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut g = gen::TypeGen::new(gen::Profile::Small, 8);
    let mut inner = g.compactable(ch, 0);
    let mut wraps = 0;
    // Things which can be compact are either numbers or have exactly one thing inside.
    let c = g.reg.add(Def::Compact(inner));
    inner = c;
    for _ in 0..ch.n(4) {
        wraps += 1;
        let d = match ch.n(8) {
            0 => Def::Seq(inner),
            1 => Def::Arr(inner, ch.n(4) as u32),
            2 => {
                let o = g.prim(ch);
                Def::Tup(vec![inner, o, inner])
            }
            3 => {
                let o = g.prim(ch);
                let path = g.path(ch);
                Def::Comp { path, fields: vec![F { name: Some("a".into()), ty: o }, F { name: Some("b".into()), ty: inner }, F { name: Some("c".into()), ty: o }] }
            }
            4 => Def::Comp { path: gen::path(ch), fields: vec![F { name: None, ty: inner }] },
            5 => Def::Tup(vec![inner]),
            _ => {
                let o = g.prim(ch);
                Def::Var { path: vec![], variants: vec![Vr { name: "V".into(), index: ch.below(256) as u8, fields: vec![F { name: None, ty: inner }, F { name: None, ty: o }] }] }
            }
        };
        inner = g.reg.add(d);
    }
    let (reg, root) = g.finish(inner);
    let v = gen::any_val(ch, &reg, root, gen::Profile::Small);
    let trailing = gen::trailing(ch);
    cx.label(format!("wraps:{wraps}"));
    cx.key(&(&reg, root, &v));
    cx.nontrivial = !reg.enc(root, &v).is_empty();
    cx.sample(|| format!("{} from {}", reg.show(root), hex(&reg.enc(root, &v))));
    let types = Res::<Tid>::new(reg.clone());
    let mode = *ch.pick(&[Mode::Strict, Mode::Full, Mode::Lazy, Mode::FailDeep]);
    check(ch, cx, &reg, &types, root, &v, &trailing, mode)?;
    same_value(&reg, &types, root, &v, &trailing)
}
/// Any bytes at all as a compact number.
fn c04_bytes(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut g = gen::TypeGen::new(gen::Profile::Small, 8);
    let d = if ch.chance(1, 2) { 99 } else { 0 };
    let i = g.compactable(ch, d);
    let root = g.reg.add(Def::Compact(i));
    let reg = g.reg;
    let bytes: Vec<u8> = match ch.n(4) {
        // A valid number, of any size, in any encoding
        0 | 1 => {
            let n = gen::int(ch, 128, false);
            let mut b = vec![];
            compact_enc(n.mag, &mut b);
            if ch.chance(1, 3) {
                gen::corrupt(ch, &mut b);
            }
            b
        }
        2 => {
            // Some number of bytes in the big mode
            let n = ch.n(64);
            let mut b = vec![(n as u8) << 2 | 3];
            b.extend((0..(n + 4).min(ch.n(24))).map(|_| gen::byte(ch)));
            if ch.chance(1, 2) {
                // In case it's too short
                b.extend(std::iter::repeat_n(gen::byte(ch), n));
            }
            b
        }
        _ => (0..ch.range(1, 9)).map(|_| gen::byte(ch)).collect(),
    };
    cx.key(&(&reg, root, &bytes));
    cx.nontrivial = bytes.len() > 1;
    cx.sample(|| format!("{} from {}", reg.show(root), hex(&bytes)));
    let types = Res::new(reg.clone());
    differential(&reg, &types, root, &bytes, &HOWS, cx)
}
/// Types that can't be compact.
fn c04_bad(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut g = gen::TypeGen::new(gen::Profile::Small, 6);
    let bad = match ch.n(9) {
        0 => {
            let p = *ch.pick(&[P::Bool, P::Char, P::Str, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256]);
            g.reg.prim(p)
        }
        1 => g.reg.add(Def::Bits(*ch.pick(&[Store::U8, Store::U64]), ch.chance(1, 2))),
        2 => {
            let i = g.compactable(ch, 9);
            g.reg.add(Def::Seq(i))
        }
        3 => {
            let i = g.compactable(ch, 9);
            g.reg.add(Def::Arr(i, ch.n(3) as u32))
        }
        4 => {
            let i = g.compactable(ch, 9);
            let n = [0, 2, 3][ch.n(3)];
            g.reg.add(Def::Tup(vec![i; n]))
        }
        5 => {
            let i = g.compactable(ch, 9);
            let n = [0, 2, 17][ch.n(3)];
            let fields = (0..n).map(|k| F { name: Some(format!("f{k}")), ty: i }).collect();
            g.reg.add(Def::Comp { path: gen::path(ch), fields })
        }
        6 => {
            let i = g.compactable(ch, 9);
            g.reg.add(Def::Var { path: vec![], variants: vec![Vr { name: "A".into(), index: 0, fields: vec![F { name: None, ty: i }] }] })
        }
        _ => g.ty(ch, 1),
    };
    let mut i = bad;
    for _ in 0..ch.n(3) {
        let d = match ch.n(3) {
            0 => Def::Tup(vec![i]),
            1 => Def::Comp { path: gen::path(ch), fields: vec![F { name: None, ty: i }] },
            _ => Def::Compact(i),
        };
        i = g.reg.add(d);
    }
    let c = g.reg.add(Def::Compact(i));
    let root = match ch.n(4) {
        0 => g.reg.add(Def::Seq(c)),
        1 => {
            let u = g.reg.prim(P::U8);
            g.reg.add(Def::Tup(vec![u, c]))
        }
        _ => c,
    };
    let (mut reg, root) = g.finish(root);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let bytes: Vec<u8> = (0..ch.n(12)).map(|_| gen::byte(ch)).collect();
    cx.key(&(&reg, root, &bytes));
    cx.nontrivial = true;
    cx.sample(|| format!("{} from {}", reg.show(root), hex(&bytes)));
    let types = Res::new(reg.clone());
    differential(&reg, &types, root, &bytes, &HOWS, cx)
}

// --- C13

fn c13_histories(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut g = gen::TypeGen::new(gen::Profile::Small, 10);
    let n = [3, 1, 2, 5, 9, 16, 17, 20, 0][ch.weighted(&[6, 1, 3, 4, 2, 1, 1, 1, 1])];
    let kind = ch.n(5);
    let root = match kind {
        0 => {
            let i = g.ty(ch, 2);
            g.reg.add(Def::Seq(i))
        }
        1 => {
            let i = g.ty(ch, 2);
            g.reg.add(Def::Arr(i, n as u32))
        }
        2 => {
            let ids = (0..n).map(|_| g.ty(ch, 3)).collect();
            g.reg.add(Def::Tup(ids))
        }
        3 => {
            let fields = g.fields(ch, 2, n);
            let path = g.path(ch);
            g.reg.add(Def::Comp { path, fields })
        }
        _ => {
            let fields = g.fields(ch, 2, n);
            let path = g.path(ch);
            g.reg.add(Def::Var { path, variants: vec![Vr { name: "X".into(), index: ch.below(256) as u8, fields }] })
        }
    };
    let (reg, root) = g.finish(root);
    let v = gen::any_val(ch, &reg, root, gen::Profile::Small);
    let trailing = gen::trailing(ch);
    let len = match &v {
        V::List(l) | V::Var(_, l) => l.len(),
        _ => 0,
    };
    cx.label(["sequence", "array", "tuple", "composite", "variant"][kind]);
    cx.key(&(&reg, root, &v));
    let types = Res::<Tid>::new(reg.clone());
    let mode = [Mode::Lazy, Mode::Full, Mode::FailDeep, Mode::FailLate][ch.weighted(&[6, 3, 1, 1])];
    let before = ch.rec.len();
    let r = check(ch, cx, &reg, &types, root, &v, &trailing, mode);
    let ops: Vec<u64> = ch.rec[before..].to_vec();
    cx.key(&ops);
    cx.nontrivial = len >= 2 && ops.len() > 3;
    cx.sample(|| format!("{} from {}, {mode:?}, operations chosen by {:?}", reg.show(root), hex(&reg.enc(root, &v)), &ops[..ops.len().min(30)]));
    r
}

/// Containers whose items are broken.
fn c13_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut g = gen::TypeGen::new(gen::Profile::Small, 8);
    let n = [3, 1, 2, 5, 9, 17, 0][ch.weighted(&[6, 1, 3, 4, 1, 1, 1])];
    let kind = ch.weighted(&[3, 2, 3, 3, 3, 1]);
    let mut body = 0;
    let mut items = vec![];
    let mut same = None;
    let mut compact = false;
    let root = match kind {
        0 => {
            let i = g.ty(ch, 2);
            g.reg.add(Def::Seq(i))
        }
        1 => {
            let i = g.ty(ch, 2);
            g.reg.add(Def::Arr(i, n as u32))
        }
        2 => {
            let ids = (0..n).map(|_| g.ty(ch, 3)).collect();
            g.reg.add(Def::Tup(ids))
        }
        3 => {
            let fields = g.fields(ch, 2, n);
            let path = g.path(ch);
            g.reg.add(Def::Comp { path, fields })
        }
        4 => {
            let fields = g.fields(ch, 2, n);
            let path = g.path(ch);
            g.reg.add(Def::Var { path, variants: vec![Vr { name: "X".into(), index: ch.below(256) as u8, fields }] })
        }
        _ => {
            let i = g.compactable(ch, 3);
            let d = if ch.chance(1, 2) { Def::Tup(vec![i]) } else { Def::Comp { path: gen::path(ch), fields: vec![F { name: Some("a".into()), ty: i }] } };
            let i = g.reg.add(d);
            compact = true;
            g.reg.add(Def::Compact(i))
        }
    };
    let (mut reg, root) = g.finish(root);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let v = gen::any_val(ch, &reg, root, gen::Profile::Small);
    let mut bytes = reg.enc(root, &v);
    bytes.extend(gen::trailing(ch));
    if ch.chance(9, 10) {
        gen::corrupt(ch, &mut bytes);
    }
    match &reg.defs[reg.strip(root)] {
        Def::Seq(i) => {
            let Some(n) = compact_dec(&mut &*bytes, 64).ok().and_then(|n| usize::try_from(n).ok()) else { return Err(Stop::Discard("no length")) };
            same = Some((*i, n));
        }
        Def::Arr(i, n) => same = Some((*i, *n as usize)),
        Def::Tup(ids) => items = ids.iter().map(|i| (*i, None)).collect(),
        Def::Comp { fields, .. } => items = fields.iter().map(|f| (f.ty, f.name.clone())).collect(),
        Def::Var { variants, .. } => {
            body = 1;
            let v = bytes.first().and_then(|i| variants.iter().find(|v| v.index == *i));
            let Some(v) = v else { return Err(Stop::Discard("no variant")) };
            items = v.fields.iter().map(|f| (f.ty, f.name.clone())).collect();
        }
        _ => {}
    }
    cx.label(["sequence", "array", "tuple", "composite", "variant", "compact"][kind]);
    cx.key(&(&reg, root, &bytes));
    let types = Res::<Tid>::new(reg.clone());
    let log = RefCell::new(crate::ck::BrokenLog::default());
    let before = ch.rec.len();
    let st = RefCell::new(St::new(ch, &bytes));
    let mut b = &*bytes;
    let x = crate::ck::Broken { st: &st, reg: &reg, items, same, compact, bytes: &bytes, off: body, log: &log };
    let r = decode_with_visitor(&mut b, Tid::of(root), &types, x);
    if let Some(m) = st.borrow_mut().msg.take() {
        fail!("{m}");
    }
    drop(st);
    let log = log.into_inner();
    if log.too_much {
        return Err(Stop::Discard("too much work"));
    }
    ensure!(log.visited || kind == 4, "the container wasn't visited: {r:?}");
    let ops: Vec<u64> = ch.rec[before..].to_vec();
    cx.key(&ops);
    cx.nontrivial = log.bad > 0 && (log.good > 0 || log.after > 0);
    cx.sample(|| format!("{} from {}, operations chosen by {:?}", reg.show(root), hex(&bytes), &ops[..ops.len().min(30)]));
    cx.label(if log.bad == 0 { "nothing broken found" } else if log.after > 0 { "went on after an error" } else { "error" });
    Ok(())
}

// --- C14

/// Gives back the items of whatever it's used on.
struct Collect<R>(PhantomData<R>);
impl<R: TypeResolver + 'static> Visitor for Collect<R> {
    type Value<'scale, 'resolver> = Vec<Hd<'scale, 'resolver, R>>;
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(vec![])
    }
    fn visit_sequence<'scale, 'resolver>(self, c: &mut Sequence<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        c.map(|h| h.map(Hd::S)).collect()
    }
    fn visit_array<'scale, 'resolver>(self, c: &mut Array<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        c.map(|h| h.map(Hd::A)).collect()
    }
    fn visit_tuple<'scale, 'resolver>(self, c: &mut Tuple<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        c.map(|h| h.map(Hd::T)).collect()
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        c.map(|h| h.map(Hd::C)).collect()
    }
    fn visit_variant<'scale, 'resolver>(self, c: &mut Variant<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        c.fields().map(|h| h.map(Hd::C)).collect()
    }
}
/// The items in some value, if it has any: (type, value, name, compact)
fn children<'m>(reg: &'m Reg, id: usize, v: &'m V, compact: bool) -> (usize, Vec<(usize, &'m V, Option<&'m str>, bool)>) {
    let c = compact || reg.strip(id) != id;
    match (&reg.defs[reg.strip(id)], v) {
        (Def::Seq(i), V::List(l)) => {
            let mut p = vec![];
            compact_enc(l.len() as u128, &mut p);
            (p.len(), l.iter().map(|v| (*i, v, None, false)).collect())
        }
        (Def::Arr(i, _), V::List(l)) => (0, l.iter().map(|v| (*i, v, None, false)).collect()),
        (Def::Tup(ids), V::List(l)) => (0, ids.iter().zip(l).map(|(i, v)| (*i, v, None, c)).collect()),
        (Def::Comp { fields, .. }, V::List(l)) => (0, fields.iter().zip(l).map(|(f, v)| (f.ty, v, f.name.as_deref(), c)).collect()),
        (Def::Var { variants, .. }, V::Var(i, l)) => (1, variants[*i].fields.iter().zip(l).map(|(f, v)| (f.ty, v, f.name.as_deref(), false)).collect()),
        _ => (0, vec![]),
    }
}
fn c14_handles(ch: &mut Ch, cx: &mut Cx) -> R {
    let c = case(ch, cx);
    let (reg, root) = (&c.reg, c.root);
    let mut bytes = reg.enc(root, &c.v);
    let total = bytes.len();
    bytes.extend_from_slice(&c.trailing);
    let types = Res::<Tid>::new(reg.clone());
    struct H<'m, 'a, 'b> {
        h: Hd<'a, 'b, Res>,
        id: usize,
        v: &'m V,
        name: Option<&'m str>,
        compact: bool,
        off: usize,
        len: usize,
    }
    fn add<'m, 'a, 'b>(
        reg: &'m Reg,
        out: &mut Vec<H<'m, 'a, 'b>>,
        hs: Vec<Hd<'a, 'b, Res>>,
        at: (usize, &'m V, bool, usize),
    ) -> R {
        let (skip, kids) = children(reg, at.0, at.1, at.2);
        ensure!(hs.len() == kids.len(), "iterating over {} gave back {} items rather than {}", reg.show(at.0), hs.len(), kids.len());
        let mut off = at.3 + skip;
        for (h, (id, v, name, compact)) in hs.into_iter().zip(kids) {
            let len = reg.enc_c(id, v, compact).len();
            out.push(H { h, id, v, name, compact, off, len });
            off += len;
        }
        Ok(())
    }
    let mut pool = vec![];
    let mut cur = &*bytes;
    let hs = decode_with_visitor(&mut cur, Tid::of(root), &types, Collect::<Res>(PhantomData));
    ensure!(cur.len() == c.trailing.len(), "{} bytes are left", cur.len());
    match hs {
        Ok(hs) => add(reg, &mut pool, hs, (root, &c.v, false, 0))?,
        Err(e) => fail!("collecting items failed with {e:?}"),
    }
    let steps = ch.n(30);
    let mut did = 0;
    for _ in 0..steps {
        if pool.is_empty() {
            break;
        }
        did += 1;
        let h = &pool[ch.n(pool.len())];
        let b = h.h.bytes();
        let at = (b.as_ptr() as usize).wrapping_sub(bytes.as_ptr() as usize);
        ensure!(at == h.off && b.len() == h.len, "item of type {} has {} bytes at {at}; expected {} at {} (out of {total})", reg.show(h.id), b.len(), h.len, h.off);
        ensure!(h.h.type_id().ix() == Some(h.id), "item has type ID {:?} rather than that of {}", h.h.type_id(), h.id);
        if let Some(n) = h.h.name() {
            ensure!(n == h.name, "item has name {n:?} rather than {:?}", h.name);
        }
        if let Some(c) = h.h.compact() {
            ensure!(c == h.compact, "is_compact() is {c} for an item of type {}", reg.show(h.id));
        }
        match ch.n(5) {
            4 => {
                let own = &bytes[h.off..h.off + h.len];
                let got = h.h.decode_as::<Dyn>();
                let want = Dyn(seen(reg, h.id, h.v));
                ensure!(got.as_ref().is_ok_and(|g| *g == want), "decoding an item as whatever it is gave {got:?} rather than {want:?}");
                macro_rules! as_types {
                    ($($t:ty),*) => {{
                        let fs: &[&dyn Fn() -> R] = &[$(&|| {
                            let got = h.h.decode_as::<$t>().map_err(|e| e.to_string());
                            let want = <$t>::decode_as_type_maybe_compact(&mut &*own, Tid::of(h.id), &types, h.compact).map_err(|e| e.to_string());
                            ensure!(got == want, "decoding an item as {} gave {got:?}, but {want:?} when decoding its bytes", stringify!($t));
                            Ok(())
                        }),*];
                        ch.pick(fs)()?
                    }};
                }
                as_types!(u8, u32, u128, i64, bool, char, String, Vec<u32>, Vec<u8>, (u8,), (u32, u32), [u64; 1], [u8; 3], Option<u32>, Box<u64>, std::collections::BTreeMap<String, u32>, Vec<(u8, u8)>, ());
            }
            0 => {
                let style = *ch.pick(&STYLES);
                let got = h.h.decode(Vv::<Res>::new(style));
                let want = seen(reg, h.id, h.v);
                ensure!(got.as_ref() == Ok(&want), "decoding an item gave {got:?} rather than {want:?}");
            }
            1 => {
                let hs = h.h.decode(Collect::<Res>(PhantomData));
                let at = (h.id, h.v, h.compact, h.off);
                match hs {
                    Ok(hs) => add(reg, &mut pool, hs, at)?,
                    Err(e) => fail!("collecting items from an item failed with {e:?}"),
                }
            }
            2 => {
                let got = h.h.decode(IgnoreVisitor::<Res>::new());
                ensure!(got == Ok(()), "ignoring an item gave {got:?}");
            }
            _ => {
                let mode = *ch.pick(&[Mode::Full, Mode::Strict, Mode::Lazy, Mode::FailLate]);
                let st = RefCell::new(St::new(ch, &bytes));
                let x = Exp { reg, id: h.id, v: h.v, off: h.off, lim: h.off + h.len, compact: h.compact };
                let r = h.h.decode(Ck::<Res>::new(&st, x, mode));
                if let Some(m) = st.borrow_mut().msg.take() {
                    fail!("decoding an item: {m}");
                }
                ensure!(r.is_err() == (mode == Mode::FailLate), "decoding an item with {mode:?} gave {r:?}");
            }
        }
    }
    cx.nontrivial = did > 1;
    Ok(())
}

// --- C15

fn c15_wins(ch: &mut Ch, cx: &mut Cx) -> R {
    let (mut reg, root, p) = gen::any_type(ch);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let v = gen::any_val(ch, &reg, root, p);
    let types = Res::new(reg.clone());
    error_wins(ch, cx, &reg, &types, root, &v)
}
fn c15_fail(ch: &mut Ch, cx: &mut Cx) -> R {
    let c = case(ch, cx);
    let types = Res::<Tid>::new(c.reg.clone());
    let mode = *ch.pick(&[Mode::FailEarly, Mode::FailLate, Mode::FailDeep]);
    cx.label(format!("mode:{mode:?}"));
    check(ch, cx, &c.reg, &types, c.root, &c.v, &c.trailing, mode)
}

// --- C17

/// What should be borrowed from the input, by position.
#[derive(Debug, PartialEq, Clone)]
enum Bx {
    Str(usize, usize),
    BadStr(std::str::Utf8Error),
    Big(usize),
    Bits(Vec<bool>),
    Item(usize, usize),
}
fn borrowed(reg: &Reg, id: usize, v: &V, compact: bool, off: usize, out: &mut Vec<Bx>) {
    let len = reg.enc_c(id, v, compact).len();
    match v {
        V::Str(s) => out.push(match std::str::from_utf8(s) {
            Ok(_) => Bx::Str(off + len - s.len(), s.len()),
            Err(e) => Bx::BadStr(e),
        }),
        V::Big(_) => out.push(Bx::Big(off)),
        V::Bits(b) => out.push(Bx::Bits(b.clone())),
        _ => {
            let (skip, kids) = children(reg, id, v, compact);
            let mut at = off + skip;
            for (i, v, _, c) in kids {
                let n = reg.enc_c(i, v, c).len();
                out.push(Bx::Item(at, n));
                borrowed(reg, i, v, c, at, out);
                at += n;
            }
        }
    }
}
fn c17_borrow(ch: &mut Ch, cx: &mut Cx) -> R {
    // Mostly things that are borrowed.
    let mut g = gen::TypeGen::new(gen::Profile::Small, 8);
    let mut root = match ch.n(5) {
        0 | 1 => g.reg.prim(P::Str),
        2 => {
            let p = *ch.pick(&[P::U256, P::I256]);
            g.reg.prim(p)
        }
        3 => {
            let s = *ch.pick(&[Store::U8, Store::U16, Store::U32, Store::U64]);
            let m = ch.chance(1, 2);
            g.reg.add(Def::Bits(s, m))
        }
        _ => g.ty(ch, 1),
    };
    for _ in 0..ch.n(4) {
        let other = if ch.chance(1, 2) { g.ty(ch, 3) } else { root };
        let d = match ch.n(6) {
            0 => Def::Seq(root),
            1 => Def::Arr(root, ch.n(4) as u32),
            2 => Def::Tup(vec![other, root]),
            3 => Def::Comp { path: gen::path(ch), fields: vec![F { name: Some("a".into()), ty: root }, F { name: Some("b".into()), ty: other }] },
            4 => Def::Tup(vec![root]),
            _ => Def::Var { path: vec![], variants: vec![Vr { name: "V".into(), index: ch.below(256) as u8, fields: vec![F { name: None, ty: root }, F { name: None, ty: other }] }] },
        };
        root = g.reg.add(d);
    }
    let (reg, root) = g.finish(root);
    let p = if ch.chance(1, 6) { gen::Profile::Long } else { gen::Profile::Small };
    let v = gen::any_val(ch, &reg, root, p);
    let trailing = gen::trailing(ch);
    let mut bytes = reg.enc(root, &v);
    let mut want = vec![];
    borrowed(&reg, root, &v, false, 0, &mut want);
    bytes.extend_from_slice(&trailing);
    cx.key(&(&reg, root, &v));
    cx.nontrivial = want.iter().any(|w| !matches!(w, Bx::Item(..)));
    for w in &want {
        cx.label(match w {
            Bx::Str(..) => "str",
            Bx::BadStr(..) => "invalid str",
            Bx::Big(..) => "256 bit number",
            Bx::Bits(..) => "bits",
            Bx::Item(..) => "item",
        });
    }
    cx.sample(|| format!("{} from {}", reg.show(root), hex(&bytes)));
    let types = Res::<Tid>::new(reg.clone());
    let mut b = &*bytes;
    let got = match decode_with_visitor(&mut b, Tid::of(root), &types, Borrow::<Res>(PhantomData)) {
        Ok(g) => g,
        Err(e) => fail!("decoding failed with {e:?}"),
    };
    ensure!(b == trailing, "{} bytes are left rather than {}", b.len(), trailing.len());
    let base = bytes.as_ptr() as usize;
    let got: Vec<Bx> = got
        .into_iter()
        .map(|g| match g {
            B::Str(s) => Bx::Str((s.as_ptr() as usize).wrapping_sub(base), s.len()),
            B::BadStr(e) => Bx::BadStr(e),
            B::Big(b) => Bx::Big((b.as_ptr() as usize).wrapping_sub(base)),
            B::Bits(b) => Bx::Bits(b),
            B::Item(s) => Bx::Item((s.as_ptr() as usize).wrapping_sub(base), s.len()),
        })
        .collect();
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "borrowed {g:?} rather than {w:?} (number {i})");
    }
    ensure!(got.len() == want.len(), "borrowed {} things rather than {}", got.len(), want.len());
    let mode = *ch.pick(&[Mode::Full, Mode::Lazy, Mode::Strict]);
    check(ch, cx, &reg, &types, root, &v, &trailing, mode)
}
/// Strings and bits in any bytes at all; nothing's looked at until it's asked for.
fn c17_any(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut reg = Reg::default();
    let s = *ch.pick(&[Store::U8, Store::U16, Store::U32, Store::U64]);
    let m = ch.chance(1, 2);
    let root = if ch.chance(1, 2) { reg.prim(P::Str) } else { reg.add(Def::Bits(s, m)) };
    let n = match ch.n(4) {
        0 => gen::int(ch, 36, false).mag,
        _ => ch.below(80) as u128,
    };
    let mut bytes = vec![];
    compact_enc(n, &mut bytes);
    bytes.extend((0..ch.n(70)).map(|_| ch.below(256) as u8));
    if ch.chance(1, 6) {
        gen::corrupt(ch, &mut bytes);
    }
    cx.key(&(&reg, root, &bytes));
    cx.nontrivial = bytes.len() > 1;
    cx.sample(|| format!("{} from {}", reg.show(root), hex(&bytes)));
    let types = Res::new(reg.clone());
    differential(&reg, &types, root, &bytes, &HOWS, cx)?;
    // The errors for strings are about the bytes being asked for.
    struct Q;
    impl Visitor for Q {
        type Value<'scale, 'resolver> = (Result<&'scale str, DecodeError>, usize, Result<&'scale [u8], DecodeError>);
        type Error = DecodeError;
        type TypeResolver = Res;
        fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            Ok((Ok(""), 0, Ok(&[])))
        }
        fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            Ok((s.as_str(), s.len(), s.bytes_after()))
        }
    }
    if matches!(reg.defs[root], Def::Prim(_)) {
        let mut rest = &*bytes;
        let want = reg.dec(root, false, &mut rest, &mut Budget::new(10, 10));
        let got = decode_with_visitor(&mut &*bytes, Tid::of(root), &types, Q);
        match (want, got) {
            (Ok(V::Str(w)), Ok((s, n, after))) => {
                ensure!(n == w.len(), "length is {n} rather than {}", w.len());
                ensure!(after.as_ref().is_ok_and(|a| *a == rest), "bytes after it are {after:?}");
                match (std::str::from_utf8(&w), s) {
                    (Ok(a), Ok(b)) if a == b => cx.label("utf8:valid"),
                    (Err(a), Err(DecodeError::InvalidStr(b))) if a == b => cx.label("utf8:invalid"),
                    (a, b) => fail!("as_str() gave {b:?} rather than {a:?}"),
                }
            }
            (Err(_), Err(_)) => {}
            (w, g) => fail!("decoding gave {g:?}; expected {w:?}"),
        }
    }
    Ok(())
}

// --- C18

/// Give types different IDs.
fn permute(ch: &mut Ch, reg: &Reg, root: usize) -> (Reg, usize) {
    let n = reg.defs.len();
    let extra = ch.n(4);
    let mut to: Vec<usize> = (0..n + extra).collect();
    for i in (1..to.len()).rev() {
        to.swap(i, ch.n(i + 1));
    }
    let mut defs = vec![Def::Tup(vec![]); n + extra];
    let fs = |fs: &[F]| fs.iter().map(|f| F { name: f.name.clone(), ty: to[f.ty] }).collect::<Vec<_>>();
    for (i, d) in reg.defs.iter().enumerate() {
        defs[to[i]] = match d {
            Def::Compact(i) => Def::Compact(to[*i]),
            Def::Seq(i) => Def::Seq(to[*i]),
            Def::Arr(i, n) => Def::Arr(to[*i], *n),
            Def::Tup(ids) => Def::Tup(ids.iter().map(|i| to[*i]).collect()),
            Def::Comp { path, fields } => Def::Comp { path: path.clone(), fields: fs(fields) },
            Def::Var { path, variants } => Def::Var {
                path: path.clone(),
                variants: variants.iter().map(|v| Vr { name: v.name.clone(), index: v.index, fields: fs(&v.fields) }).collect(),
            },
            d => d.clone(),
        };
    }
    (Reg { defs }, to[root])
}
fn c18_resolvers(ch: &mut Ch, cx: &mut Cx) -> R {
    let (mut reg, root, p) = gen::any_type(ch);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let v = gen::any_val(ch, &reg, root, p);
    let mut bytes = reg.enc(root, &v);
    bytes.extend(gen::trailing(ch));
    let broken = ch.chance(1, 3);
    if broken {
        gen::corrupt(ch, &mut bytes);
    }
    cx.nontrivial = !trivial(&reg, root, &v);
    cx.key(&(&reg, root, &bytes));
    cx.label(if broken { "bytes changed" } else { "bytes intact" });
    cx.sample(|| format!("{} from {}", reg.show(root), hex(&bytes)));
    let (preg, proot) = permute(ch, &reg, root);
    if reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)).is_err_and(|e| matches!(e, Rej::Budget)) {
        return Err(Stop::Discard("too much work"));
    }
    let how = *ch.pick(&HOWS);
    let a = Res::<Tid>::new(reg.clone());
    let b = Res::<String>::new(reg.clone());
    let c = to_portable(&reg);
    let d = Res::<u32>::new(preg.clone());
    let e = to_portable(&preg);
    let mut all = vec![];
    fn go<R: TypeResolver + 'static>(how: How, id: usize, bytes: &[u8], r: &R) -> (Result<Option<S>, Result<DecodeError, String>>, usize)
    where
        R::TypeId: IdT,
    {
        let mut b = bytes;
        let r = decode_how(how, &mut b, id, r);
        (r, b.len())
    }
    all.push(("small registry", go(how, root, &bytes, &a)));
    all.push(("string IDs", go(how, root, &bytes, &b)));
    all.push(("scale-info", go(how, root, &bytes, &c)));
    all.push(("other IDs", go(how, proot, &bytes, &d)));
    all.push(("scale-info with other IDs", go(how, proot, &bytes, &e)));
    for (name, r) in &all[1..] {
        ensure!(*r == all[0].1, "{how:?} with the resolver '{name}' gave {r:?}, but {:?} with '{}'", all[0].1, all[0].0);
    }
    Ok(())
}
fn c18_failures(ch: &mut Ch, cx: &mut Cx) -> R {
    let (mut reg, root, p) = gen::any_type(ch);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let v = gen::any_val(ch, &reg, root, p);
    let trailing = gen::trailing(ch);
    let mut bytes = reg.enc(root, &v);
    bytes.extend_from_slice(&trailing);
    let reach = reg.reach(root);
    let which = if ch.chance(1, 8) { ch.n(reg.defs.len()) } else { reach[ch.n(reach.len())] };
    let missing = ch.chance(1, 2);
    let mut rest = &*bytes;
    let mut bud = Budget::new(1_000_000, 3000);
    bud.missing = Some(which);
    let want = reg.dec(root, false, &mut rest, &mut bud).map(|v| seen(&reg, root, &v));
    let mut types = Res::<String>::new(reg.clone());
    if missing {
        types.missing = Some(which);
    } else {
        types.broken = Some(which);
    }
    cx.label(if missing { "type missing" } else { "resolver fails" });
    cx.label(if want.is_err() { "type needed" } else { "type not needed" });
    cx.nontrivial = which != root;
    cx.key(&(&reg, root, &bytes, which, missing));
    cx.sample(|| format!("{} from {}, {} {which}", reg.show(root), hex(&bytes), if missing { "without type" } else { "resolver fails for type" }));
    for how in HOWS {
        let mut b = &*bytes;
        let got = decode_how(how, &mut b, root, &types);
        match (&want, got) {
            (Ok(w), Ok(g)) => {
                ensure!(g.is_none() || g.as_ref() == Some(w), "{how:?} gave {g:?} rather than {w:?}");
                ensure!(b == trailing, "{how:?} left {} bytes rather than {}", b.len(), trailing.len());
            }
            (Err(Rej::NotFound(_)), Err(Ok(DecodeError::TypeIdNotFound(m)))) if missing && m.contains(&format!("type-{which}")) => {}
            (Err(Rej::NotFound(_)), Err(Ok(DecodeError::TypeResolvingError(m)))) if !missing && m.contains(&Broken(which).to_string()) => {}
            (want, got) => fail!("{how:?} with type {which} {} gave {got:?}; expected {want:?}", if missing { "missing" } else { "failing to resolve" }),
        }
    }
    Ok(())
}

// --- C19

fn c19_hooks(ch: &mut Ch, cx: &mut Cx) -> R {
    let (mut reg, root, p) = gen::any_type(ch);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let v = gen::any_val(ch, &reg, root, p);
    let mut acts = vec![Act::None; reg.defs.len()];
    let reach = reg.reach(root);
    let mut gone = None;
    for _ in 0..ch.range(0, 3) {
        let i = reach[ch.n(reach.len())];
        if gone == Some(i) {
            continue;
        }
        acts[i] = match ch.n(5) {
            0 | 1 => Act::Own(ch.n(6)),
            2 | 3 => Act::Prefix(ch.n(4)),
            _ => Act::Own(0),
        };
        if gone.is_none() && matches!(acts[i], Act::Own(_)) && ch.chance(1, 3) {
            gone = Some(i);
        }
    }
    let fail = ch.chance(1, 6).then(|| reach[ch.n(reach.len())]);
    if let Some(f) = fail {
        acts[f] = Act::Fail;
        if gone == Some(f) {
            gone = None;
        }
    }
    // Encode it, noting when hooks should run.
    let mut log = vec![];
    let mut bytes = vec![];
    let mut stopped = false;
    let junk = ch.below(256) as u8;
    {
        let mut h = |id: usize, _: &V, _: bool, out: &mut Vec<u8>| -> bool {
            if stopped {
                return true;
            }
            log.push((id, out.len()));
            match acts[id] {
                Act::None => false,
                Act::Own(n) => {
                    out.extend((0..n).map(|i| junk.wrapping_add(i as u8)));
                    true
                }
                Act::Prefix(n) => {
                    out.extend((0..n).map(|_| junk));
                    false
                }
                Act::Fail => {
                    stopped = true;
                    true
                }
            }
        };
        reg.enc_with(root, &v, false, &mut bytes, &mut h);
    }
    let trailing = gen::trailing(ch);
    bytes.extend_from_slice(&trailing);
    let mut types = Res::<Tid>::new(reg.clone());
    types.missing = gone;
    if ch.chance(1, 4) {
        std::mem::swap(&mut types.missing, &mut types.broken);
    }
    cx.label(if stopped { "hook:fails" } else { "hook:ok" });
    for (id, _) in &log {
        match acts[*id] {
            Act::Own(_) => cx.label("hook:own encoding"),
            Act::Prefix(_) => cx.label("hook:prefix"),
            _ => {}
        }
        if gone == Some(*id) {
            cx.label("hook:type the resolver doesn't know");
        }
    }
    cx.key(&(&reg, root, &bytes, &acts));
    cx.nontrivial = log.iter().any(|(i, _)| acts[*i] != Act::None);
    cx.sample(|| format!("{} from {}, hooks {:?}", reg.show(root), hex(&bytes), acts));
    let want = (!stopped).then(|| {
        seen_with(&reg, root, &v, &mut |id| match acts[id] {
            Act::Own(n) => Some(S::Hook((0..n).map(|i| junk.wrapping_add(i as u8)).collect())),
            _ => None,
        })
    });
    for wrapped in [false, true] {
        let hook = Hook { acts: acts.clone(), base: bytes.as_ptr() as usize, log: RefCell::new(vec![]) };
        let mut b = &*bytes;
        let visitor = Vv::<Res>::with_hook(&hook);
        let got = if wrapped {
            decode_with_visitor(&mut b, Tid::of(root), &types, VisitorWithCrateError(visitor)).map_err(|e| match e.kind() {
                scale_decode::error::ErrorKind::VisitorDecodeError(e) => e.clone(),
                e => DecodeError::TypeIdNotFound(format!("not an error from the visitor: {e:?}")),
            })
        } else {
            decode_with_visitor(&mut b, Tid::of(root), &types, visitor)
        };
        ensure!(*hook.log.borrow() == log, "hook was called with types and positions {:?} rather than {log:?}", hook.log.borrow());
        match &want {
            Some(w) => {
                ensure!(got.as_ref() == Ok(w), "got {got:?} rather than {w:?}");
                ensure!(b == trailing, "{} bytes are left rather than {}", b.len(), trailing.len());
            }
            None => {
                let e = DecodeError::TypeResolvingError(format!("hook fails at {}", fail.unwrap()));
                ensure!(got.as_ref() == Err(&e), "got {got:?} rather than the hook's error");
            }
        }
    }
    Ok(())
}
fn c19_wrapper(ch: &mut Ch, cx: &mut Cx) -> R {
    let (reg, root, bytes) = c02_case(ch, cx);
    if reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)).is_err_and(|e| matches!(e, Rej::Budget)) {
        return Err(Stop::Discard("too much work"));
    }
    let types = Res::<Tid>::new(reg.clone());
    let style = *ch.pick(&STYLES);
    for (a, b) in [(How::Build(style), How::Wrapped(style)), (How::Ignore, How::WrappedIgnore)] {
        let (mut x, mut y) = (&*bytes, &*bytes);
        let ra = decode_how(a, &mut x, root, &types);
        let rb = decode_how(b, &mut y, root, &types);
        cx.label(if ra.is_ok() { "decodes" } else { "fails" });
        ensure!(ra == rb, "{a:?} gave {ra:?} but {b:?} gave {rb:?}");
        ensure!(ra.is_err() || x == y, "{a:?} left {} bytes but {b:?} left {}", x.len(), y.len());
    }
    Ok(())
}
fn c19_map(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = ch.raw();
    let k = ch.raw();
    let decoded = ch.chance(1, 2);
    cx.nontrivial = true;
    cx.key(&(n, k, decoded));
    cx.sample(|| format!("{} {n}, mapped with + {k}", if decoded { "Decoded" } else { "Skipped" }));
    let mk = || -> DecodeAsTypeResult<u64, u64> {
        if decoded {
            DecodeAsTypeResult::Decoded(n)
        } else {
            DecodeAsTypeResult::Skipped(n)
        }
    };
    let calls = std::cell::Cell::new(0);
    let f = |x: u64| {
        calls.set(calls.get() + 1);
        (x.wrapping_add(k), "mapped")
    };
    match mk().map_decoded(f) {
        DecodeAsTypeResult::Decoded(x) => ensure!(decoded && x == (n.wrapping_add(k), "mapped"), "map_decoded gave {x:?}"),
        DecodeAsTypeResult::Skipped(x) => ensure!(!decoded && x == n, "map_decoded skipped with {x:?}"),
    }
    match mk().map_skipped(f) {
        DecodeAsTypeResult::Decoded(x) => ensure!(decoded && x == n, "map_skipped gave {x:?}"),
        DecodeAsTypeResult::Skipped(x) => ensure!(!decoded && x == (n.wrapping_add(k), "mapped"), "map_skipped skipped with {x:?}"),
    }
    ensure!(calls.get() == 1, "mapping called {} functions", calls.get());
    Ok(())
}

// --- C21

/// Bytes for this type, with some of the lengths in it being huge.
pub fn inflated(ch: &mut Ch, reg: &Reg, root: usize, v: &V) -> (Vec<u8>, u128) {
    let mut bytes = vec![];
    let mut biggest = 0;
    // Decide which length to break
    let mut n = 0;
    let has_len = |id: usize| matches!(reg.defs[id], Def::Seq(_) | Def::Bits(..) | Def::Prim(P::Str));
    reg.enc_with(root, v, false, &mut vec![], &mut |id, _, _, _| {
        n += has_len(id) as usize;
        false
    });
    if n == 0 {
        reg.enc_to(root, v, false, &mut bytes);
        return (bytes, 0);
    }
    let at = ch.n(n);
    let declared: u128 = match ch.n(4) {
        0 | 1 => 1 << ch.range(22, 29),
        2 => (1 << ch.range(30, 63)) + ch.below(3) as u128 - 1,
        // (which is the number of items there are, or near that, if only some of its bits are looked at)
        _ if ch.chance(1, 2) => (1 << *ch.pick(&[16u32, 30, 31, 32, 48, 62, 63])) + ch.below(6) as u128,
        _ => *ch.pick(&[u32::MAX as u128, u64::MAX as u128, u64::MAX as u128 / 16, i64::MAX as u128, u32::MAX as u128 + 1]),
    };
    let cut = ch.chance(1, 3);
    let mut i = 0;
    let mut gone = false;
    reg.enc_with(root, v, false, &mut bytes, &mut |id, v, _, out| {
        if gone {
            return true;
        }
        if has_len(id) {
            if i == at {
                biggest = declared;
                i += 1;
                compact_enc(declared, out);
                // and then whatever was there before
                let mut b = vec![];
                reg.enc_to(id, v, false, &mut b);
                let mut r = &*b;
                let _ = compact_dec(&mut r, 64);
                out.extend_from_slice(r);
                gone = cut;
                return true;
            }
            i += 1;
        }
        false
    });
    (bytes, biggest)
}
/// How many fields and so on there are in the types being used.
fn type_size(reg: &Reg, root: usize) -> i64 {
    reg.reach(root)
        .into_iter()
        .map(|i| match &reg.defs[i] {
            Def::Arr(_, n) => *n as i64,
            Def::Tup(t) => t.len() as i64,
            Def::Comp { fields, .. } => fields.len() as i64,
            Def::Var { variants, .. } => variants.iter().map(|v| v.fields.len() as i64).sum(),
            _ => 1,
        } + 1)
        .sum()
}
fn c21_work(ch: &mut Ch, cx: &mut Cx) -> R {
    let (mut reg, mut root, p) = gen::any_type(ch);
    if ch.chance(2, 3) {
        root = reg.add(Def::Seq(root));
    }
    cx.excluded = gen::avoid_empty_seqs(&mut reg, root);
    let v = gen::any_val(ch, &reg, root, p);
    let (bytes, declared) = inflated(ch, &reg, root, &v);
    cx.key(&(&reg, root, &bytes));
    cx.nontrivial = declared > 0;
    cx.label(match declared {
        0 => "declared:nothing",
        n if n < 1 << 32 => "declared:under 2^32",
        n if n < 1 << 62 => "declared:under 2^62",
        _ => "declared:2^62 or more",
    });
    cx.sample(|| format!("{} from {} with a declared length of {declared}", reg.show(root), hex(&bytes)));
    let mut bud = Budget::new(100_000, 1500);
    let want = reg.dec(root, false, &mut &*bytes, &mut bud);
    if matches!(want, Err(Rej::Budget)) {
        return Err(Stop::Discard("too much work"));
    }
    let steps = 100_000 - bud.steps;
    let types = Res::<Tid>::new(reg.clone());
    let deep = bud.deepest as i64;
    for how in [How::Ignore, How::Build(Style::Items), How::Build(Style::Handles), How::WrappedIgnore] {
        types.lookups.set(0);
        let (r, used) = measure(|| {
            let mut b = &*bytes;
            decode_how(how, &mut b, root, &types).map(|s| s.is_some())
        });
        ensure!(r.is_ok() == want.is_ok(), "{how:?} gave {r:?}");
        let looking = !matches!(how, How::Ignore | How::WrappedIgnore);
        // Fields of each of the containers we're in the middle of, and then anything that was built.
        let mut limit = 16_384 + 256 * type_size(&reg, root) * (deep + 1).min(64);
        if looking {
            limit += 1024 * (steps as i64 + bytes.len() as i64);
        }
        ensure!(used.peak <= limit, "{how:?} of {} bytes needed {} bytes of memory (expected at most {limit})", bytes.len(), used.peak);
        let n = types.lookups.get();
        let mut most = if how == How::Build(Style::Handles) { 2 * steps * (deep as u64 + 2) } else { 3 * steps } + 16;
        if want.is_err() {
            // Whatever is left will be skipped over if possible.
            most += 4 * type_size(&reg, root) as u64 * (bytes.len() as u64 + deep as u64 + 1);
        }
        ensure!(n <= most, "{how:?} of {steps} values looked {n} types up (expected at most {most})");
    }
    Ok(())
}
/// Deeply nested things, which are cut short or broken at some point.
fn c21_deep(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut reg = Reg::default();
    let me = reg.add(Def::Tup(vec![]));
    let u = reg.prim(P::U8);
    let c = reg.prim(P::Char);
    let bytes = reg.add(Def::Seq(u));
    let boxed = match ch.n(4) {
        0 => me,
        1 => reg.add(Def::Tup(vec![me])),
        2 => reg.add(Def::Tup(vec![u, me])),
        _ => reg.add(Def::Comp { path: gen::path(ch), fields: vec![F { name: Some("me".into()), ty: me }, F { name: Some("tail".into()), ty: u }] }),
    };
    let inner = match ch.n(3) {
        0 => reg.add(Def::Seq(boxed)),
        1 => reg.add(Def::Arr(boxed, 1)),
        _ => boxed,
    };
    let mut fields = vec![F { name: Some("inner".into()), ty: inner }];
    for (i, t) in [u, bytes, c].into_iter().enumerate() {
        if ch.chance(1, 3) {
            let at = ch.n(fields.len() + 1);
            fields.insert(at, F { name: Some(format!("f{i}")), ty: t });
        }
    }
    reg.defs[me] = Def::Var {
        path: vec![],
        variants: vec![Vr { name: "End".into(), index: 0, fields: vec![F { name: Some("c".into()), ty: c }] }, Vr { name: "More".into(), index: 1, fields }],
    };
    let depth = *ch.pick(&[10usize, 50, 100, 200, 300]);
    // Made by hand, from the inside out.
    let mut v = V::Var(0, vec![V::Char('x')]);
    for _ in 0..depth {
        let Def::Var { variants, .. } = &reg.defs[me] else { unreachable!() };
        let fs = variants[1].fields.clone();
        let vals = fs
            .iter()
            .map(|f| match f.name.as_deref() {
                Some("inner") => {
                    let mut x = v.clone();
                    x = match &reg.defs[boxed] {
                        Def::Tup(t) if t.len() == 1 => V::List(vec![x]),
                        Def::Tup(_) => V::List(vec![V::Int(Int::u(1)), x]),
                        Def::Comp { .. } => V::List(vec![x, V::Int(Int::u(1))]),
                        _ => x,
                    };
                    if inner != boxed {
                        x = V::List(vec![x]);
                    }
                    x
                }
                Some("f0") => V::Int(Int::u(0)),
                Some("f1") => V::List(vec![V::Int(Int::u(1))]),
                _ => V::Char('y'),
            })
            .collect();
        v = V::Var(1, vals);
    }
    let mut b = reg.enc(me, &v);
    let whole = b.len();
    let broken = ch.n(4);
    match broken {
        0 => {}
        1 => b.truncate(ch.n(whole)),
        2 => {
            let at = ch.n(whole);
            b[at] = gen::byte(ch);
        }
        _ => gen::corrupt(ch, &mut b),
    }
    cx.key(&(&reg, &b));
    cx.nontrivial = true;
    cx.label(format!("depth:{depth}"));
    cx.sample(|| format!("{} nested {depth} times, from {}", reg.show(me), hex(&b)));
    let mut bud = Budget::new(100_000, 1_600);
    let want = reg.dec(me, false, &mut &*b, &mut bud);
    if matches!(want, Err(Rej::Budget)) {
        return Err(Stop::Discard("too much work"));
    }
    cx.label(if want.is_ok() { "valid" } else { "invalid" });
    let types = Res::<Tid>::new(reg.clone());
    for how in [How::Ignore, How::Build(Style::Items), How::WrappedIgnore, How::Wrapped(Style::Items)] {
        types.lookups.set(0);
        let r = decode_how(how, &mut &*b, me, &types).map(|s| s.is_some());
        ensure!(r.is_ok() == want.is_ok(), "{how:?} gave {r:?}");
        let n = types.lookups.get();
        // Each level may try skipping a few more things after an error, but that's all.
        let most = 12 * (whole.max(b.len()) + depth * 8) as u64;
        ensure!(n <= most, "{how:?} of {} bytes nested {depth} times looked {n} types up (expected at most {most})", b.len());
    }
    Ok(())
}
/// Looks at everything there is to be asked at every step.
struct Nosy<'a, R> {
    left: &'a Cell<usize>,
    /// take a handle of each item first
    handles: bool,
    twice: bool,
    r: PhantomData<R>,
}
impl<R> Copy for Nosy<'_, R> {}
impl<R> Clone for Nosy<'_, R> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<R> Nosy<'_, R> {
    fn step(&self) -> Result<(), DecodeError> {
        match self.left.get() {
            0 => Err(DecodeError::InvalidChar(77)),
            n => {
                self.left.set(n - 1);
                Ok(())
            }
        }
    }
}
macro_rules! nosy_items {
    ($self:ident, $c:expr, $look:expr) => {{
        $self.step()?;
        let c = $c;
        let mut seen = 0;
        loop {
            seen += c.remaining() + c.bytes_from_start().len() + c.bytes_from_undecoded().len();
            seen += ($look)(&*c);
            let more = if $self.handles {
                match c.next() {
                    None => false,
                    Some(h) => {
                        let h = h?;
                        seen += h.bytes().len();
                        h.decode_with_visitor($self)?;
                        if $self.twice {
                            h.decode_with_visitor(IgnoreVisitor::new())?;
                        }
                        true
                    }
                }
            } else {
                c.decode_item($self).transpose()?.is_some()
            };
            if !more {
                break;
            }
        }
        std::hint::black_box(seen);
        Ok(())
    }};
}
impl<R: scale_decode::TypeResolver> Visitor for Nosy<'_, R> {
    type Value<'s, 'r> = ();
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, DecodeError> {
        self.step()
    }
    fn visit_sequence<'s, 'r>(self, c: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, DecodeError> {
        nosy_items!(self, c, |_: &Sequence<'s, 'r, R>| 0)
    }
    fn visit_array<'s, 'r>(self, c: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, DecodeError> {
        nosy_items!(self, c, |c: &Array<'s, 'r, R>| c.is_empty() as usize)
    }
    fn visit_tuple<'s, 'r>(self, c: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, DecodeError> {
        nosy_items!(self, c, |_: &Tuple<'s, 'r, R>| 0)
    }
    fn visit_composite<'s, 'r>(self, c: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, DecodeError> {
        nosy_items!(self, c, |c: &Composite<'s, 'r, R>| c.peek_name().map_or(0, |n| n.len()) + c.fields().len() + c.name().map_or(0, |n| n.len()))
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, DecodeError> {
        std::hint::black_box(v.name().len() + v.index() as usize + v.bytes_from_undecoded().len());
        self.visit_composite(v.fields(), id)
    }
    fn visit_str<'s, 'r>(self, s: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let _ = std::hint::black_box((s.len(), s.is_empty(), s.as_str(), s.bytes_after()));
        self.step()
    }
}
/// Eight times as many items are eight times as much work.
fn c21_growth(ch: &mut Ch, cx: &mut Cx) -> R {
    let (mut reg, id, _) = gen::any_type(ch);
    cx.excluded = gen::avoid_empty_seqs(&mut reg, id);
    let v = gen::any_val(ch, &reg, id, gen::Profile::Small);
    let size = gen::size(&v) + reg.enc(id, &v).len();
    if size > 200 {
        return Err(Stop::Discard("big items"));
    }
    let n = ch.range(4, 600 / (size + 4) + 5);
    let kind = ch.n(6);
    cx.label(["sequence", "array", "tuple", "named fields", "unnamed fields", "variant"][kind]);
    let fail = ch.chance(1, 3);
    let handles = ch.chance(1, 2);
    let twice = ch.chance(1, 2);
    let how = ch.n(3);
    cx.key(&(&reg, id, &v, n, kind, fail, how));
    cx.nontrivial = true;
    cx.label(["ignored", "all looked at", "all looked at with an error wrapper"][how]);
    cx.sample(|| format!("{} and 8 times as many of {} as {kind}, each {}", n, reg.show(id), hex(&reg.enc(id, &v))));
    let at = ch.below(1000) as usize;
    let run = |n: usize| {
        let mut reg = reg.clone();
        let fields = |named: bool| (0..n).map(|i| F { name: named.then(|| format!("f{i}")), ty: id }).collect::<Vec<_>>();
        let root = match kind {
            0 => reg.add(Def::Seq(id)),
            1 => reg.add(Def::Arr(id, n as u32)),
            2 => reg.add(Def::Tup(vec![id; n])),
            3 | 4 => {
                let fields = fields(kind == 3);
                reg.add(Def::Comp { path: vec!["Foo".into()], fields })
            }
            _ => {
                let fields = fields(true);
                reg.add(Def::Var { path: vec![], variants: vec![Vr { name: "V".into(), index: 3, fields }] })
            }
        };
        let items = vec![v.clone(); n];
        let mut bytes = reg.enc(root, &if kind == 5 { V::Var(0, items) } else { V::List(items) });
        let whole = bytes.len();
        if fail && how == 0 {
            bytes.truncate(whole * at / 1000);
        }
        let types = Res::<Tid>::new(reg);
        let left = Cell::new(if fail { n * at / 1000 } else { usize::MAX });
        let nosy = Nosy::<Res> { left: &left, handles, twice, r: PhantomData };
        types.lookups.set(0);
        let (ok, used) = measure(|| match how {
            0 => decode_with_visitor(&mut &*bytes, Tid::of(root), &types, IgnoreVisitor::<Res>::new()).is_ok(),
            1 => decode_with_visitor(&mut &*bytes, Tid::of(root), &types, nosy).is_ok(),
            _ => decode_with_visitor(&mut &*bytes, Tid::of(root), &types, VisitorWithCrateError(nosy)).is_ok(),
        });
        (ok, types.lookups.get(), used.total)
    };
    let (ok, few, little) = run(n);
    let (ok8, many, much) = run(8 * n);
    ensure!(fail || (ok && ok8), "failed for {n} items ({ok}) or 8 times as many ({ok8})");
    ensure!(many <= 8 * few + 64 + if fail { 8 * few } else { 0 }, "{n} items needed {few} type lookups, and 8 times as many {many}");
    ensure!(much <= 16 * little + 32_768 + if fail { 16 * little } else { 0 }, "{n} items needed {little} bytes to be allocated, and 8 times as many {much}");
    Ok(())
}
pub fn known_empty() -> Option<String> {
    let mut reg = Reg::default();
    let unit = reg.add(Def::Tup(vec![]));
    let root = reg.add(Def::Seq(unit));
    let types = Res::<Tid>::new(reg);
    let mut bytes = vec![];
    compact_enc(100_000, &mut bytes);
    let _ = decode_with_visitor(&mut &*bytes, Tid::of(root), &types, IgnoreVisitor::<Res>::new());
    (types.lookups.get() > 50_000).then(|| "4 bytes declaring a sequence of 100,000 values which have no bytes take 100,000 steps to skip over (and 2^60 would take 2^60)".into())
}

const RULE_VALUES: &str = "A random type (wide, deep, recursive, compact, ...), a random value of it, random bytes following it. Non-trivial: the type isn't a bare primitive and the value has at least one byte. Distinct: by type and value.";

pub static PROPS: [Prop; 11] = [
    Prop {
        id: "C01",
        rule: RULE_VALUES,
        parts: &[
            Part { name: "model", quick: 480_000, thorough: 9_600_000, run: c01_model },
            Part { name: "portable", quick: 240_000, thorough: 4_800_000, run: c01_portable },
            Part { name: "build", quick: 320_000, thorough: 6_400_000, run: c01_build },
        ],
        known: &[],
    },
    Prop {
        id: "C02",
        rule: "Values with bytes broken (bits flipped, bytes inserted, removed and replaced, cut short) or random bytes, for a random type. Non-trivial: the type isn't a bare primitive and there are bytes; for 'chaos' (visitors which carry on after errors), that errors came up; for 'cut' (every prefix of a value), more than one byte. Distinct: by type and bytes.",
        parts: &[
            Part { name: "broken", quick: 600_000, thorough: 12_000_000, run: c02_broken },
            Part { name: "cut", quick: 100_000, thorough: 2_000_000, run: c02_cut },
            Part { name: "chaos", quick: 400_000, thorough: 8_000_000, run: c02_chaos },
        ],
        known: &[("deep-recursion", known_deep)],
    },
    Prop {
        id: "C03",
        rule: "As for values in general, with visitors which ignore, partly decode, iterate over, skip and fail in the middle of things; 'stream' is several values in a row. Non-trivial: the type isn't a bare primitive and the value has at least one byte (or for 'stream', more than one value). Distinct: by type and value.",
        parts: &[
            Part { name: "lazy", quick: 1_400_000, thorough: 28_000_000, run: c03_lazy },
            Part { name: "portable", quick: 280_000, thorough: 5_600_000, run: c03_portable },
            Part { name: "stream", quick: 840_000, thorough: 16_800_000, run: c03_stream },
        ],
        known: &[],
    },
    Prop {
        id: "C04",
        rule: "Compact numbers inside any nesting of single-field wrappers, inside other things; any bytes as a compact number; and types which can't be compact. Non-trivial: there are bytes to decode (more than one for 'bytes'). Distinct: by type and value or bytes.",
        parts: &[
            Part { name: "anywhere", quick: 2_400_000, thorough: 48_000_000, run: c04_anywhere },
            Part { name: "bytes", quick: 4_800_000, thorough: 96_000_000, run: c04_bytes },
            Part { name: "bad", quick: 2_400_000, thorough: 48_000_000, run: c04_bad },
        ],
        known: &[],
    },
    Prop {
        id: "C13",
        rule: "A container holding random items, and a random history of operations on it (decode an item, take a handle, ignore an item, let one fail, view as a tuple, skip the rest, stop), recursively; every accessor is compared with a model after every operation. Non-trivial: at least 2 items and more than 3 choices. 'targets', 'derived': the first few items are read, and then the container is given to the visitor of some target type; non-trivial if any were. Distinct: by type, value and history.",
        parts: &[Part { name: "histories", quick: 2_800_000, thorough: 56_000_000, run: c13_histories }, Part { name: "broken", quick: 1_400_000, thorough: 28_000_000, run: c13_broken }],
        known: &[],
    },
    Prop {
        id: "C14",
        rule: "Handles of items are collected from a random value, and once decoding is over they are inspected, decoded, and have handles collected from them in a random order, repeatedly. Non-trivial: at least two such things were done. Distinct: by type and value.",
        parts: &[Part { name: "handles", quick: 1_200_000, thorough: 24_000_000, run: c14_handles }],
        known: &[],
    },
    Prop {
        id: "C15",
        rule: "A visitor which fails at a random visit of a random value ('wins': with the bytes after that point intact, broken or gone; non-trivial if they're invalid or if it wasn't the first visit). 'fail': visitors which fail early, late or deep inside after a random history. 'targets': something which fails at a random visit, inside of collections, tuples, maps, derived types and so on, with the input behind it intact, broken or gone; non-trivial if it isn't intact or it wasn't the first visit. Distinct: by type, bytes and visit.",
        parts: &[
            Part { name: "wins", quick: 1_200_000, thorough: 24_000_000, run: c15_wins },
            Part { name: "fail", quick: 600_000, thorough: 12_000_000, run: c15_fail },
        ],
        known: &[],
    },
    Prop {
        id: "C17",
        rule: "Values with strings (valid or not), 256 bit numbers and bits in them; everything borrowed is compared with positions in the input. 'any': arbitrary bytes as strings or bits. Non-trivial: something's borrowed (or there's more than one byte). Distinct: by type and value or bytes.",
        parts: &[
            Part { name: "borrow", quick: 640_000, thorough: 12_800_000, run: c17_borrow },
            Part { name: "any", quick: 960_000, thorough: 19_200_000, run: c17_any },
        ],
        known: &[],
    },
    Prop {
        id: "C18",
        rule: "'resolvers': one type in five type registries of different kinds and with different IDs, and bytes which may be broken; non-trivial if not a bare primitive or empty. 'failures': some type isn't known or fails to resolve; non-trivial if it's not the outermost one. Distinct: by type, bytes (and which type).",
        parts: &[
            Part { name: "resolvers", quick: 780_000, thorough: 15_600_000, run: c18_resolvers },
            Part { name: "failures", quick: 1_040_000, thorough: 20_800_000, run: c18_failures },
        ],
        known: &[],
    },
    Prop {
        id: "C19",
        rule: "Random values in which the encoding of some types is replaced or prefixed, decoded by a visitor with a hook for those; types which the resolver doesn't know may be among them. Non-trivial: a hook had something to do. 'wrapper': any bytes, with and without the error wrapper. 'targets': target types with such a hook, inside of others. 'target hooks': the hooks of the visitors of target types, asked directly; non-trivial if the source isn't a bare primitive or empty. Distinct: by type, bytes and hooks.",
        parts: &[
            Part { name: "hooks", quick: 1_800_000, thorough: 36_000_000, run: c19_hooks },
            Part { name: "wrapper", quick: 1_200_000, thorough: 24_000_000, run: c19_wrapper },
            Part { name: "map", quick: 30_000, thorough: 600_000, run: c19_map },
        ],
        known: &[],
    },
    Prop {
        id: "C21",
        rule: "Random values, one of whose declared lengths is replaced with a huge one; memory is counted by the allocator and work by counting type lookups. Non-trivial: a length was replaced. 'growth': one value, some number of times in a sequence, array, struct and so on, and then 8 times as many; everything there is to ask for is asked for at each step; all non-trivial. 'targets': the same with target types. 'nested': recursive targets from recursive sources, at some depth and at twice that; all non-trivial. Distinct: by type and bytes.",
        parts: &[Part { name: "work", quick: 360_000, thorough: 7_200_000, run: c21_work }, Part { name: "deep", quick: 36_000, thorough: 720_000, run: c21_deep }, Part { name: "growth", quick: 60_000, thorough: 1_200_000, run: c21_growth }],
        known: &[("empty-items", known_empty)],
    },
];

pub fn demos() -> bool {
    if std::env::args().nth(1).as_deref() == Some("demo-deep") {
        deep_demo();
        return true;
    }
    false
}
pub fn main() -> i32 {
    if demos() {
        return 0;
    }
    run_main(&PROPS)
}
