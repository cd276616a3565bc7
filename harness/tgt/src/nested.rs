//! Targets which contain themselves.
use scale_decode::DecodeAsType;
use std::collections::BTreeMap;
use verif_model::*;
use verif_vis::mem::measure;

#[derive(DecodeAsType)]
#[allow(dead_code)]
struct Named {
    n: u8,
    next: Option<Box<Named>>,
    tail: u8,
}
#[derive(DecodeAsType)]
#[allow(dead_code)]
struct Pos(u8, Option<Box<Pos>>);
#[derive(DecodeAsType)]
#[allow(dead_code)]
enum En {
    End,
    Named { n: u8, inner: Box<En> },
    Pos(u8, Box<En>),
    List(Vec<En>),
}
#[derive(DecodeAsType)]
#[allow(dead_code)]
struct Kids {
    kids: Vec<Kids>,
    n: u8,
}
#[derive(DecodeAsType)]
#[allow(dead_code)]
struct One(Option<Box<One>>);
#[derive(DecodeAsType)]
#[allow(dead_code)]
struct Res1 {
    next: Result<Box<Res1>, u8>,
}
#[derive(DecodeAsType)]
#[allow(dead_code)]
enum Maps {
    More(BTreeMap<String, Maps>),
    End(u8),
}
#[derive(DecodeAsType)]
#[allow(dead_code)]
struct Arrays {
    a: Vec<([Arrays; 1], u8)>,
}

const KINDS: [&str; 8] = ["named", "unnamed", "enum", "list", "single", "result", "map", "array"];

/// How types are laid out
struct Plan {
    kind: usize,
    unnamed: bool,
    tuple: bool,
    extra: bool,
    layers: usize,
    list: bool,
}
fn fields(p: &Plan, fs: &[(&str, usize)]) -> Vec<F> {
    fs.iter().map(|(n, t)| F { name: (!p.unnamed).then(|| n.to_string()), ty: *t }).collect()
}
fn record(reg: &mut Reg, p: &Plan, fs: &[(&str, usize)]) -> Def {
    let mut fs = fs.to_vec();
    if p.extra && !p.unnamed && fs.len() > 1 {
        let u = reg.prim(P::U8);
        fs.insert(1, ("extra", u));
    }
    if p.tuple && p.unnamed {
        return Def::Tup(fs.iter().map(|f| f.1).collect());
    }
    Def::Comp { path: vec!["Foo".into()], fields: fields(p, &fs) }
}
fn values(p: &Plan, vs: Vec<V>) -> V {
    let mut vs = vs;
    if p.extra && !p.unnamed && vs.len() > 1 {
        vs.insert(1, V::Int(Int::u(9)));
    }
    V::List(vs)
}
fn layer(reg: &mut Reg, p: &Plan, mut t: usize) -> usize {
    for i in 0..p.layers {
        t = if i % 2 == 0 { reg.add(Def::Tup(vec![t])) } else { reg.add(Def::Comp { path: vec![], fields: vec![F { name: Some("x".into()), ty: t }] }) };
    }
    t
}
fn layered(p: &Plan, v: V) -> V {
    (0..p.layers).fold(v, |v, _| V::List(vec![v]))
}
/// A value nested to some depth, with some number innermost (one of more than a byte doesn't fit).
fn nested(p: &Plan, depth: usize, innermost: u64) -> (Reg, usize, V) {
    let mut reg = Reg::default();
    let me = reg.add(Def::Tup(vec![]));
    let n = reg.prim(P::U16);
    let num = |x: u64| V::Int(Int::u(x as u128));
    let var = |name: &str, index: u8, fields: Vec<F>| Vr { name: name.into(), index, fields };
    let one = |t: usize| vec![F { name: None, ty: t }];
    let option = |reg: &mut Reg| {
        let o = reg.add(Def::Var { path: vec!["Option".into()], variants: vec![var("None", 0, vec![]), var("Some", 1, one(me))] });
        layer(reg, p, o)
    };
    match p.kind {
        0 => {
            let o = option(&mut reg);
            reg.defs[me] = record(&mut reg, p, &[("n", n), ("next", o), ("tail", n)]);
            let mut v = values(p, vec![num(1), layered(p, V::Var(0, vec![])), num(innermost)]);
            for _ in 0..depth {
                v = values(p, vec![num(1), layered(p, V::Var(1, vec![v])), num(1)]);
            }
            (reg, me, v)
        }
        1 => {
            let o = option(&mut reg);
            let p = &Plan { extra: false, ..*p };
            reg.defs[me] = record(&mut reg, p, &[("n", n), ("next", o)]);
            let mut v = values(p, vec![num(innermost), layered(p, V::Var(0, vec![]))]);
            for _ in 0..depth {
                v = values(p, vec![num(1), layered(p, V::Var(1, vec![v]))]);
            }
            (reg, me, v)
        }
        2 => {
            let inner = layer(&mut reg, p, me);
            let seq = reg.add(Def::Seq(inner));
            let named = fields(p, &[("n", n), ("inner", inner)]);
            let pos = fields(&Plan { unnamed: true, ..*p }, &[("", n), ("", inner)]);
            reg.defs[me] = Def::Var { path: vec![], variants: vec![var("End", 0, vec![]), var("Named", 1, named), var("Pos", 2, pos), var("List", 3, one(seq))] };
            let mut v = V::Var(1, vec![num(innermost), layered(p, V::Var(0, vec![]))]);
            for i in 0..depth {
                v = layered(p, v);
                v = match i % (2 + p.list as usize) {
                    0 => V::Var(1, vec![num(1), v]),
                    1 => V::Var(2, vec![num(1), v]),
                    _ => V::Var(3, vec![V::List(vec![v])]),
                };
            }
            (reg, me, v)
        }
        3 => {
            let inner = layer(&mut reg, p, me);
            let seq = reg.add(Def::Seq(inner));
            let seq = layer(&mut reg, p, seq);
            reg.defs[me] = record(&mut reg, p, &[("kids", seq), ("n", n)]);
            let mut v = values(p, vec![layered(p, V::List(vec![])), num(innermost)]);
            // (wrappers are only for values)
            if p.layers > 0 {
                return nested(&Plan { layers: 0, ..*p }, depth, innermost);
            }
            for _ in 0..depth {
                v = values(p, vec![V::List(vec![v]), num(1)]);
            }
            (reg, me, v)
        }
        4 => {
            let o = option(&mut reg);
            reg.defs[me] = record(&mut reg, p, &[("x", o)]);
            let mut v = values(p, vec![layered(p, V::Var(0, vec![]))]);
            for _ in 0..depth {
                v = values(p, vec![layered(p, V::Var(1, vec![v]))]);
            }
            (reg, me, v)
        }
        5 => {
            let r = reg.add(Def::Var { path: vec![], variants: vec![var("Ok", 0, one(me)), var("Err", 1, one(n))] });
            let r = layer(&mut reg, p, r);
            reg.defs[me] = record(&mut reg, p, &[("next", r)]);
            let mut v = values(p, vec![layered(p, V::Var(1, vec![num(innermost)]))]);
            for _ in 0..depth {
                v = values(p, vec![layered(p, V::Var(0, vec![v]))]);
            }
            (reg, me, v)
        }
        6 => {
            let inner = layer(&mut reg, p, me);
            let map = reg.add(Def::Comp { path: vec![], fields: vec![F { name: Some("a".into()), ty: inner }, F { name: None, ty: n }] });
            reg.defs[me] = Def::Var { path: vec![], variants: vec![var("More", 0, one(map)), var("End", 1, one(n))] };
            let mut v = V::Var(1, vec![num(innermost)]);
            for _ in 0..depth {
                v = V::Var(0, vec![V::List(vec![layered(p, v), num(1)])]);
            }
            (reg, me, v)
        }
        _ => {
            let arr = reg.add(Def::Arr(me, 1));
            let arr = layer(&mut reg, p, arr);
            let pair = reg.add(Def::Tup(vec![arr, n]));
            let seq = reg.add(Def::Seq(pair));
            reg.defs[me] = record(&mut reg, p, &[("a", seq)]);
            let mut v = values(p, vec![V::List(vec![])]);
            for i in 0..depth {
                v = values(p, vec![V::List(vec![V::List(vec![layered(p, V::List(vec![v])), num(if i == 0 { innermost } else { 1 })])])]);
            }
            (reg, me, v)
        }
    }
}
fn decode(kind: usize, b: &mut &[u8], id: usize, types: &Res<Tid>) -> bool {
    fn go<T: DecodeAsType>(b: &mut &[u8], id: usize, types: &Res<Tid>) -> bool {
        T::decode_as_type(b, Tid::of(id), types).is_ok()
    }
    match kind {
        0 => go::<Named>(b, id, types),
        1 => go::<Pos>(b, id, types),
        2 => go::<En>(b, id, types),
        3 => go::<Kids>(b, id, types),
        4 => go::<One>(b, id, types),
        5 => go::<Res1>(b, id, types),
        6 => go::<Maps>(b, id, types),
        _ => go::<Arrays>(b, id, types),
    }
}

/// Each level of nesting has a look at what's inside of it to find its end, and then decodes it, so twice the depth (and twice the
/// bytes) is four times the work. But no more than that: nothing is done over again for each level by each level.
pub fn c21_nested(ch: &mut Ch, cx: &mut Cx) -> R {
    let kind = ch.n(KINDS.len());
    let p = Plan { kind, unnamed: ch.chance(1, 2), tuple: ch.chance(1, 2), extra: ch.chance(1, 2), layers: ch.n(3), list: ch.chance(1, 2) };
    let depth = ch.range(4, 9);
    let innermost = *ch.pick(&[1u64, 1, 1, 300]);
    let cut = if ch.chance(1, 4) { Some(ch.below(1000) as usize) } else { None };
    cx.label(KINDS[kind]);
    cx.key(&(kind, p.unnamed, p.tuple, p.extra, p.layers, p.list, depth, innermost, cut));
    cx.nontrivial = true;
    let run = |depth: usize| {
        let (reg, me, v) = nested(&p, depth, innermost);
        let mut bytes = reg.enc(me, &v);
        if let Some(n) = cut {
            bytes.truncate(bytes.len() * n / 1000);
        }
        let types = Res::<Tid>::new(reg);
        let (ok, used) = measure(|| {
            let mut b = &*bytes;
            decode(kind, &mut b, me, &types)
        });
        (ok, types.lookups.get(), used.total, bytes)
    };
    let (ok, few, little, bytes) = run(depth);
    cx.sample(|| format!("{} nested {depth} and {} times, from {}", KINDS[kind], depth * 2, hex(&bytes)));
    let (ok2, many, much, _) = run(2 * depth);
    cx.label(if ok { "fits" } else { "doesn't" });
    if cut.is_none() {
        let want = innermost < 256 || kind == 4;
        ensure!(ok == want && ok2 == want, "nested {depth} times decodes? {ok}; and twice that? {ok2}; expected {want}");
    }
    if ok == ok2 {
        ensure!(many <= 5 * few + 64, "{}: nested {depth} times needed {few} type lookups, and twice that {many}", KINDS[kind]);
        ensure!(much <= 5 * little + 32_768, "{}: nested {depth} times needed {little} bytes to be allocated, and twice that {much}", KINDS[kind]);
    }
    Ok(())
}
