//! What target types look like, a reference for how values convert into them, and generators of
//! source types and values which more or less suit some target.
use crate::engine::*;
use crate::gen::{self, any_val, Profile, TypeGen, ValGen};
use crate::model::*;
use std::collections::BTreeMap;

#[derive(Clone)]
pub enum Shape {
    Num { w: u32, signed: bool, nonzero: bool },
    Bool,
    Char,
    Str,
    Bits,
    Phantom,
    List(Box<Shape>),
    /// things which end up being sorted, and might have duplicates removed.
    Sorted(Box<Shape>, bool),
    ArrN(Box<Shape>, usize),
    /// string keyed.
    Map(Box<Shape>),
    Opt(Box<Shape>),
    Res(Box<Shape>, Box<Shape>),
    Tup(Vec<Shape>),
    Dur,
    Range(Box<Shape>),
    Struct(SFields),
    Enum(Vec<SVar>),
    /// The bytes of any value at all.
    Raw,
    /// Something that's worked out when needed, so that types can be recursive.
    Lazy(fn() -> Shape),
}
#[derive(Clone)]
pub struct SField {
    pub name: String,
    pub shape: Shape,
    /// Skipped fields end up with this value.
    pub skip: Option<TV>,
}
#[derive(Clone)]
pub enum SFields {
    Named(Vec<SField>),
    Unnamed(Vec<SField>),
    Unit,
}
#[derive(Clone)]
pub struct SVar {
    pub name: String,
    pub fields: SFields,
}
impl SFields {
    pub fn all(&self) -> &[SField] {
        match self {
            SFields::Named(f) | SFields::Unnamed(f) => f,
            SFields::Unit => &[],
        }
    }
    pub fn used(&self) -> Vec<(usize, &SField)> {
        self.all().iter().enumerate().filter(|(_, f)| f.skip.is_none()).collect()
    }
}

/// Some value of a target type.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum TV {
    Raw(Vec<u8>),
    N(Int),
    B(bool),
    C(char),
    S(String),
    Bits(Vec<bool>),
    Unit,
    List(Vec<TV>),
    Map(BTreeMap<String, TV>),
    None,
    Some(Box<TV>),
    Ok(Box<TV>),
    Err(Box<TV>),
    Struct(Vec<TV>),
    Enum(String, Vec<TV>),
    Dur(u64, u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FK {
    Unexpected(&'static str),
    Range(String),
    Variant { got: String, expected: Vec<String> },
    Len { actual: usize, expected: usize },
    NoField(String),
    BadStr,
    /// The target failed by itself
    Own,
}
/// What becomes of `Shape::Raw`?
#[derive(Clone, Copy, PartialEq)]
pub enum Raws {
    Bytes,
    /// how many there were before,
    Number,
    /// or an error, for the one with that number.
    Fail(usize),
}
thread_local!(static RAWS: std::cell::Cell<(Raws, usize)> = const { std::cell::Cell::new((Raws::Bytes, 0)) });
pub fn with_raws<T>(r: Raws, f: impl FnOnce() -> T) -> T {
    RAWS.set((r, 0));
    let out = f();
    RAWS.set((Raws::Bytes, 0));
    out
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Loc {
    Field(String),
    Idx(usize),
    Var(String),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fault {
    pub kind: FK,
    /// innermost first.
    pub path: Vec<Loc>,
}
pub type Fit = Result<TV, Vec<Fault>>;

fn one(kind: FK) -> Fit {
    Err(vec![Fault { kind, path: vec![] }])
}
fn at<T>(r: Result<T, Vec<Fault>>, l: Loc) -> Result<T, Vec<Fault>> {
    r.map_err(|mut fs| {
        for f in &mut fs {
            f.path.push(l.clone());
        }
        fs
    })
}
fn all(rs: impl IntoIterator<Item = Fit>) -> Result<Vec<TV>, Vec<Fault>> {
    let mut out = vec![];
    let mut bad = vec![];
    for r in rs {
        match r {
            Ok(v) => out.push(v),
            Err(e) => {
                if bad.len() < 200 {
                    bad.extend(e)
                }
            }
        }
    }
    if bad.is_empty() {
        Ok(out)
    } else {
        Err(bad)
    }
}
pub fn kind_name(d: &Def) -> &'static str {
    match d {
        Def::Prim(p) => match p {
            P::Bool => "Bool",
            P::Char => "Char",
            P::Str => "Str",
            P::U8 => "U8",
            P::U16 => "U16",
            P::U32 => "U32",
            P::U64 => "U64",
            P::U128 => "U128",
            P::U256 => "U256",
            P::I8 => "I8",
            P::I16 => "I16",
            P::I32 => "I32",
            P::I64 => "I64",
            P::I128 => "I128",
            P::I256 => "I256",
        },
        Def::Compact(_) => "Compact",
        Def::Seq(_) => "Sequence",
        Def::Arr(..) => "Array",
        Def::Tup(_) => "Tuple",
        Def::Comp { .. } => "Composite",
        Def::Var { .. } => "Variant",
        Def::Bits(..) => "Bitsequence",
    }
}

/// Types, names and values of the things in something tuple or composite like.
pub fn parts<'a>(reg: &'a Reg, id: usize, v: &'a V) -> Option<Vec<(Option<&'a str>, usize, &'a V)>> {
    match (&reg.defs[id], v) {
        (Def::Tup(ids), V::List(l)) => Some(ids.iter().zip(l).map(|(i, v)| (None, *i, v)).collect()),
        (Def::Comp { fields, .. }, V::List(l)) => Some(fields.iter().zip(l).map(|(f, v)| (f.name.as_deref(), f.ty, v)).collect()),
        _ => None,
    }
}

fn positional(reg: &Reg, ps: &[(Option<&str>, usize, &V)], shapes: &[&Shape], loc: impl Fn(usize) -> Loc) -> Result<Vec<TV>, Vec<Fault>> {
    if ps.len() != shapes.len() {
        return one(FK::Len { actual: ps.len(), expected: shapes.len() }).map(|_| vec![]);
    }
    all(ps.iter().zip(shapes).enumerate().map(|(i, ((_, id, v), s))| at(fit(reg, *id, v, s), loc(i))))
}

fn fit_fields(reg: &Reg, ps: &[(Option<&str>, usize, &V)], fields: &SFields) -> Result<Vec<TV>, Vec<Fault>> {
    let used = fields.used();
    let shapes: Vec<&Shape> = used.iter().map(|(_, f)| &f.shape).collect();
    let vals = match fields {
        SFields::Unit => return Ok(vec![]),
        SFields::Unnamed(_) => positional(reg, ps, &shapes, |i| Loc::Idx(used[i].0))?,
        SFields::Named(_) if ps.iter().any(|p| p.0.is_none()) => positional(reg, ps, &shapes, |i| Loc::Field(used[i].1.name.clone()))?,
        SFields::Named(_) => all(used.iter().map(|(_, f)| match ps.iter().find(|p| p.0 == Some(&f.name)) {
            None => one(FK::NoField(f.name.clone())),
            Some((_, id, v)) => at(fit(reg, *id, v, &f.shape), Loc::Field(f.name.clone())),
        }))?,
    };
    let mut vals = vals.into_iter();
    Ok(fields.all().iter().map(|f| f.skip.clone().unwrap_or_else(|| vals.next().unwrap())).collect())
}

/// What should this value turn into? Otherwise, everything that's wrong with it.
pub fn fit(reg: &Reg, id: usize, v: &V, s: &Shape) -> Fit {
    if let Shape::Lazy(f) = s {
        return fit(reg, id, v, &f());
    }
    if let Shape::Raw = s {
        let (mode, n) = RAWS.get();
        RAWS.set((mode, n + 1));
        return match mode {
            Raws::Bytes => Ok(TV::Raw(reg.enc(id, v))),
            Raws::Fail(m) if n == m => one(FK::Own),
            _ => Ok(TV::Raw(n.to_be_bytes().to_vec())),
        };
    }
    if let Shape::Tup(ts) = s {
        // Anything that's not tuple like is decoded to whatever's inside of a 1-tuple
        if ts.len() == 1 && !matches!(&reg.defs[id], Def::Tup(_) | Def::Comp { .. }) {
            return fit(reg, id, v, &ts[0]).map(|v| TV::List(vec![v]));
        }
    }
    let id = reg.strip(id);
    let def = &reg.defs[id];
    let ps = parts(reg, id, v);
    let unexpected = || one(FK::Unexpected(kind_name(def)));
    match s {
        Shape::Lazy(_) | Shape::Raw => unreachable!(),
        Shape::Tup(ts) => match ps {
            Some(ps) => Ok(TV::List(positional(reg, &ps, &ts.iter().collect::<Vec<_>>(), Loc::Idx)?)),
            None => unexpected(),
        },
        Shape::Dur => {
            let u = |w| Shape::Num { w, signed: false, nonzero: false };
            match fit(reg, id, v, &Shape::Tup(vec![u(64), u(32)]))? {
                TV::List(l) => match &l[..] {
                    [TV::N(s), TV::N(n)] => {
                        let secs = s.mag + n.mag / 1_000_000_000;
                        if secs > u64::MAX as u128 {
                            one(FK::Range(s.mag.to_string()))
                        } else {
                            Ok(TV::Dur(secs as u64, (n.mag % 1_000_000_000) as u32))
                        }
                    }
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            }
        }
        Shape::Range(t) => fit(reg, id, v, &Shape::Tup(vec![(**t).clone(), (**t).clone()])),
        Shape::Struct(fs) => match ps {
            Some(ps) => {
                if let (SFields::Unit, true) = (fs, !ps.is_empty()) {
                    return one(FK::Len { actual: ps.len(), expected: 0 });
                }
                // A struct with named fields takes them by name only from things with names.
                if let (SFields::Named(f), Def::Tup(_)) = (fs, def) {
                    let used = fs.used();
                    let shapes: Vec<&Shape> = used.iter().map(|(_, f)| &f.shape).collect();
                    let mut vals = positional(reg, &ps, &shapes, |i| Loc::Field(used[i].1.name.clone()))?.into_iter();
                    return Ok(TV::Struct(f.iter().map(|f| f.skip.clone().unwrap_or_else(|| vals.next().unwrap())).collect()));
                }
                Ok(TV::Struct(fit_fields(reg, &ps, fs)?))
            }
            None => unexpected(),
        },
        Shape::Phantom => match ps {
            Some(ps) if ps.is_empty() => Ok(TV::Unit),
            _ => unexpected(),
        },
        Shape::Map(t) => match (def, ps) {
            (Def::Comp { .. }, Some(ps)) => {
                let names: Vec<&str> = ps.iter().filter_map(|p| p.0).collect();
                let vals = all(ps.iter().filter_map(|(n, id, v)| n.map(|n| at(fit(reg, *id, v, t), Loc::Field(n.to_string())))))?;
                Ok(TV::Map(names.into_iter().map(|s| s.to_string()).zip(vals).collect()))
            }
            _ => unexpected(),
        },
        _ => {
            // All of the others are found inside newtypes.
            if let Some(ps) = ps {
                return match &ps[..] {
                    [(_, id, v)] => fit(reg, *id, v, s),
                    _ => unexpected(),
                };
            }
            match (s, def, v) {
                (Shape::Num { w, signed, nonzero }, Def::Prim(_), V::Int(n)) => {
                    if n.fits(*w, *signed) && !(*nonzero && n.mag == 0) {
                        Ok(TV::N(*n))
                    } else {
                        one(FK::Range(n.to_string()))
                    }
                }
                (Shape::Bool, _, V::Bool(b)) => Ok(TV::B(*b)),
                (Shape::Char, _, V::Char(c)) => Ok(TV::C(*c)),
                (Shape::Str, _, V::Str(b)) => match String::from_utf8(b.clone()) {
                    Ok(s) => Ok(TV::S(s)),
                    Err(_) => one(FK::BadStr),
                },
                (Shape::Bits, _, V::Bits(b)) => Ok(TV::Bits(b.clone())),
                (Shape::List(t) | Shape::Sorted(t, _) | Shape::ArrN(t, _), Def::Seq(i) | Def::Arr(i, _), V::List(l)) => {
                    let items = all(l.iter().enumerate().map(|(n, v)| at(fit(reg, *i, v, t), Loc::Idx(n))));
                    match s {
                        Shape::ArrN(_, n) if *n != l.len() => {
                            let mut fs = items.err().unwrap_or_default();
                            fs.push(Fault { kind: FK::Len { actual: l.len(), expected: *n }, path: vec![] });
                            Err(fs)
                        }
                        Shape::Sorted(_, dedup) => {
                            let mut items = items?;
                            items.sort();
                            if *dedup {
                                items.dedup();
                            }
                            Ok(TV::List(items))
                        }
                        _ => Ok(TV::List(items?)),
                    }
                }
                (Shape::Opt(_) | Shape::Res(..) | Shape::Enum(_), Def::Var { variants, .. }, V::Var(i, l)) => {
                    let vr = &variants[*i];
                    let ps: Vec<(Option<&str>, usize, &V)> = vr.fields.iter().zip(l).map(|(f, v)| (f.name.as_deref(), f.ty, v)).collect();
                    let no = |expected: Vec<String>| one(FK::Variant { got: vr.name.clone(), expected });
                    let inner = |t: &Shape| at(fit(reg, ps[0].1, ps[0].2, t), Loc::Var(vr.name.clone())).map(Box::new);
                    match (s, vr.name.as_str(), ps.len()) {
                        (Shape::Opt(t), "Some", 1) => Ok(TV::Some(inner(t)?)),
                        (Shape::Opt(_), "None", 0) => Ok(TV::None),
                        (Shape::Opt(_), ..) => no(vec!["Some".into(), "None".into()]),
                        (Shape::Res(t, _), "Ok", 1) => Ok(TV::Ok(inner(t)?)),
                        (Shape::Res(_, t), "Err", 1) => Ok(TV::Err(inner(t)?)),
                        (Shape::Res(..), ..) => no(vec!["Ok".into(), "Err".into()]),
                        (Shape::Enum(vs), name, _) => match vs.iter().find(|v| v.name == name) {
                            None => no(vs.iter().map(|v| v.name.clone()).collect()),
                            Some(tv) => Ok(TV::Enum(tv.name.clone(), at(fit_fields(reg, &ps, &tv.fields), Loc::Var(tv.name.clone()))?)),
                        },
                        _ => unreachable!(),
                    }
                }
                _ => unexpected(),
            }
        }
    }
}

/// Where bytes turn out not to be valid, in terms of the target.
#[derive(Debug)]
pub struct Bad {
    pub why: Rej,
    /// All of the way to what's wrong, innermost first,
    pub path: Vec<Loc>,
    /// and how many of those (from the outside) are passed before something is skipped over which has the problem in it.
    pub seen: usize,
}
/// Find what's wrong with some bytes, given that they aren't valid: nothing if we can't be sure that it's
/// what the target will trip over first.
pub fn locate(reg: &Reg, id: usize, compact: bool, bytes: &[u8], s: &Shape) -> Option<Bad> {
    let again = |s: &Shape| locate(reg, id, compact, bytes, s);
    let here = |why| Some(Bad { why, path: vec![], seen: 0 });
    let inside = |b: Option<Bad>, l: Loc| {
        b.map(|mut b| {
            b.path.push(l);
            b.seen += 1;
            b
        })
    };
    // Something is skipped over first:
    let blind = |b: Option<Bad>| b.map(|b| Bad { seen: 0, ..b });
    let is_list = |id: usize| matches!(&reg.defs[id], Def::Tup(_) | Def::Comp { .. });
    match s {
        Shape::Lazy(f) => return again(&f()),
        Shape::Raw => return None,
        Shape::Dur => {
            let u = |w| Shape::Num { w, signed: false, nonzero: false };
            return again(&Shape::Tup(vec![u(64), u(32)]));
        }
        Shape::Range(t) => return again(&Shape::Tup(vec![(**t).clone(), (**t).clone()])),
        Shape::Tup(ts) if ts.len() == 1 && !is_list(id) => return again(&ts[0]),
        _ => (),
    }
    let why = match reg.dec(id, compact, &mut &*bytes, &mut Budget::new(20_000, 1500)) {
        Ok(_) | Err(Rej::Budget) => return None,
        Err(e) => e,
    };
    // The first one that's wrong, and those before.
    let first = |mut b: &[u8], compact: bool, ids: &mut dyn Iterator<Item = usize>| -> (usize, Vec<u8>, Vec<V>) {
        let mut ok = vec![];
        for id in ids {
            let start = b;
            match reg.dec(id, compact, &mut b, &mut Budget::new(20_000, 1500)) {
                Ok(v) => ok.push(v),
                Err(_) => return (id, start.to_vec(), ok),
            }
        }
        unreachable!("harness: something's wrong with {bytes:?}, but nothing in it")
    };
    let suits = |id: usize, v: &V, s: &Shape| fit(reg, id, v, s).is_ok();
    // Fields of a struct, or of a variant:
    let in_fields = |ids: &[(Option<&str>, usize)], b: &[u8], compact: bool, fs: &SFields, tuple: bool| -> Option<Bad> {
        let (id, rest, ok) = first(b, compact, &mut ids.iter().map(|f| f.1));
        let n = ok.len();
        let used = fs.used();
        let any = |l: Loc| Some(Bad { why, path: vec![l], seen: 0 });
        let own = match ids[n].0 {
            Some(name) => Loc::Field(name.to_string()),
            None => Loc::Idx(n),
        };
        match fs {
            // (what's left over, that is)
            SFields::Unit => any(own),
            SFields::Named(_) if !tuple && ids.iter().all(|f| f.0.is_some()) => {
                // If there are several of that name then it's hard to tell which is meant.
                match used.iter().find(|f| own == Loc::Field(f.1.name.clone())) {
                    Some((_, f)) if ids.iter().filter(|i| i.0 == ids[n].0).count() == 1 => {
                        let l = locate(reg, id, compact, &rest, &f.shape);
                        blind(inside(l, own.clone())).or_else(|| any(own))
                    }
                    _ => any(own),
                }
            }
            _ => {
                if ids.len() != used.len() || !ok.iter().zip(&used).zip(ids).all(|((v, f), id)| suits(id.1, v, &f.1.shape)) {
                    return None;
                }
                let own = match fs {
                    SFields::Named(_) => Loc::Field(used[n].1.name.clone()),
                    _ => Loc::Idx(used[n].0),
                };
                let l = locate(reg, id, compact, &rest, &used[n].1.shape);
                blind(inside(l, own.clone())).or_else(|| any(own))
            }
        }
    };
    match &reg.defs[id] {
        Def::Compact(i) => locate(reg, *i, true, bytes, s),
        Def::Prim(_) => here(why),
        Def::Bits(..) => match s {
            Shape::Bits => here(why),
            _ => None,
        },
        Def::Tup(_) | Def::Comp { .. } => {
            let ids: Vec<(Option<&str>, usize)> = match &reg.defs[id] {
                Def::Tup(ids) => ids.iter().map(|i| (None, *i)).collect(),
                Def::Comp { fields, .. } => fields.iter().map(|f| (f.name.as_deref(), f.ty)).collect(),
                _ => unreachable!(),
            };
            let tuple = matches!(&reg.defs[id], Def::Tup(_));
            if compact && ids.len() != 1 {
                return here(why);
            }
            match s {
                Shape::Tup(ts) => {
                    if ts.len() != ids.len() {
                        return None;
                    }
                    let (id, rest, ok) = first(bytes, compact, &mut ids.iter().map(|f| f.1));
                    let n = ok.len();
                    if !ok.iter().zip(ts).zip(&ids).all(|((v, t), id)| suits(id.1, v, t)) {
                        return None;
                    }
                    inside(locate(reg, id, compact, &rest, &ts[n]), Loc::Idx(n))
                }
                Shape::Struct(SFields::Unit) | Shape::Phantom => None,
                Shape::Struct(fs) => in_fields(&ids, bytes, compact, fs, tuple),
                Shape::Map(t) => {
                    if tuple {
                        return None;
                    }
                    let (id, rest, ok) = first(bytes, compact, &mut ids.iter().map(|f| f.1));
                    let n = ok.len();
                    if !ok.iter().zip(&ids).all(|(v, (name, id))| name.is_none() || suits(*id, v, t)) {
                        return None;
                    }
                    match ids[n].0 {
                        Some(name) => inside(locate(reg, id, compact, &rest, t), Loc::Field(name.to_string())),
                        None => here(why),
                    }
                }
                _ => match &ids[..] {
                    [(_, i)] => locate(reg, *i, compact, bytes, s),
                    _ => None,
                },
            }
        }
        Def::Seq(i) | Def::Arr(i, _) => {
            let mut b = bytes;
            let n = match &reg.defs[id] {
                _ if compact => return here(why),
                Def::Arr(_, n) => *n as usize,
                _ => match compact_dec(&mut b, 64).ok().and_then(|n| usize::try_from(n).ok()) {
                    Some(n) => n,
                    None => return here(why),
                },
            };
            let (Shape::List(t) | Shape::Sorted(t, _) | Shape::ArrN(t, _)) = s else { return None };
            let (id, rest, ok) = first(b, false, &mut std::iter::repeat_n(*i, n));
            if !ok.iter().all(|v| suits(*i, v, t)) {
                return None;
            }
            inside(locate(reg, id, false, &rest, t), Loc::Idx(ok.len()))
        }
        Def::Var { variants, .. } => {
            if compact || bytes.is_empty() || matches!(why, Rej::NoVariant(n) if n == bytes[0] && variants.iter().all(|v| v.index != n)) {
                return here(why);
            }
            let vr = variants.iter().find(|v| v.index == bytes[0])?;
            let ids: Vec<(Option<&str>, usize)> = vr.fields.iter().map(|f| (f.name.as_deref(), f.ty)).collect();
            let b = &bytes[1..];
            let l = Loc::Var(vr.name.clone());
            match (s, &*vr.name, &ids[..]) {
                (Shape::Opt(t), "Some", [(_, i)]) | (Shape::Res(t, _), "Ok", [(_, i)]) | (Shape::Res(_, t), "Err", [(_, i)]) => inside(locate(reg, *i, false, b, t), l),
                (Shape::Enum(vs), name, _) => {
                    let tv = vs.iter().find(|v| v.name == name)?;
                    blind(inside(in_fields(&ids, b, false, &tv.fields, false), l))
                }
                _ => None,
            }
        }
    }
}

/// Generates source types which more or less suit some target.
pub struct Guide {
    pub tg: TypeGen,
    /// one in this many choices is a bad one (none are if 0)
    pub bad: u64,
    pub wraps: bool,
    memo: Vec<(usize, usize)>,
    pub size: i64,
    pub compacts: bool,
}
impl Guide {
    pub fn new(bad: u64) -> Guide {
        Guide { tg: TypeGen::new(Profile::Small, 6), bad, wraps: true, memo: vec![], size: 120, compacts: true }
    }
    fn bad(&self, ch: &mut Ch) -> bool {
        self.bad > 0 && ch.chance(1, self.bad)
    }
    fn wrap(&mut self, ch: &mut Ch, mut id: usize) -> usize {
        let n = if self.wraps { ch.weighted(&[24, 3, 1]) } else { 0 };
        for _ in 0..n {
            id = match ch.n(3) {
                0 => self.tg.reg.add(Def::Tup(vec![id])),
                k => {
                    let path = self.tg.path(ch);
                    let name = (k == 1).then(|| "inner".to_string());
                    self.tg.reg.add(Def::Comp { path, fields: vec![F { name, ty: id }] })
                }
            };
        }
        id
    }
    fn compact(&mut self, ch: &mut Ch) -> usize {
        let i = self.tg.compactable(ch, 11);
        self.tg.reg.add(Def::Compact(i))
    }
    pub fn ty(&mut self, ch: &mut Ch, s: &Shape, depth: usize) -> usize {
        self.size -= 1;
        if self.bad(ch) {
            self.tg.budget = 4;
            return self.tg.ty(ch, 1);
        }
        if let Shape::Lazy(f) = s {
            let key = *f as usize;
            let old: Vec<usize> = self.memo.iter().filter(|m| m.0 == key).map(|m| m.1).collect();
            if !old.is_empty() && (self.size < 0 || depth > 12 || ch.chance(2, 3)) {
                return *ch.pick(&old);
            }
            let slot = self.tg.reg.add(Def::Tup(vec![]));
            self.memo.push((key, slot));
            let i = self.ty(ch, &f(), depth);
            // `slot` might be referred to, and stands for the whole type:
            let d = self.tg.reg.defs[i].clone();
            self.tg.reg.defs[slot] = if i == slot { Def::Tup(vec![]) } else { d };
            return slot;
        }
        let id = match s {
            Shape::Lazy(_) => unreachable!(),
            Shape::Raw => {
                self.tg.budget = 4;
                return self.tg.ty(ch, 2);
            }
            Shape::Num { w, signed, .. } => {
                if self.compacts && ch.chance(1, 5) {
                    self.compact(ch)
                } else if ch.chance(1, 3) {
                    let p = INTS.into_iter().find(|p| p.int() == Some((*w, *signed))).unwrap();
                    self.tg.reg.prim(p)
                } else {
                    let p = *ch.pick(&INTS);
                    self.tg.reg.prim(p)
                }
            }
            Shape::Bool => self.tg.reg.prim(P::Bool),
            Shape::Char => self.tg.reg.prim(P::Char),
            Shape::Str => self.tg.reg.prim(P::Str),
            Shape::Bits => {
                let s = *ch.pick(&[Store::U8, Store::U16, Store::U32, Store::U64]);
                let m = ch.chance(1, 2);
                self.tg.reg.add(Def::Bits(s, m))
            }
            Shape::Phantom => {
                if ch.chance(1, 2) {
                    self.tg.reg.add(Def::Tup(vec![]))
                } else {
                    self.tg.reg.add(Def::Comp { path: crate::gen::path(ch), fields: vec![] })
                }
            }
            Shape::List(t) | Shape::Sorted(t, _) | Shape::ArrN(t, _) => {
                let i = self.ty(ch, t, depth + 1);
                let d = if ch.chance(1, 2) {
                    let n = match s {
                        Shape::ArrN(_, n) if !self.bad(ch) => *n as u32,
                        _ => ch.weighted(&[2, 3, 3, 2, 1]) as u32,
                    };
                    Def::Arr(i, n)
                } else {
                    Def::Seq(i)
                };
                self.tg.reg.add(d)
            }
            Shape::Map(t) => {
                let n = ch.weighted(&[1, 3, 3, 2, 1]);
                let mut fs = self.tg_names(ch, n);
                for f in &mut fs {
                    f.ty = if f.name.is_none() && ch.chance(1, 2) {
                        self.tg.budget = 3;
                        self.tg.ty(ch, 3)
                    } else {
                        self.ty(ch, t, depth + 1)
                    };
                }
                let path = self.tg.path(ch);
                let id = self.tg.reg.add(Def::Comp { path, fields: fs });
                return self.compacted(ch, id);
            }
            Shape::Opt(t) => {
                let some = self.ty(ch, t, depth + 1);
                let name = ch.chance(1, 4).then(|| "value".to_string());
                let mut vs = vec![("Some", vec![F { name, ty: some }]), ("None", vec![])];
                self.variants(ch, &mut vs)
            }
            Shape::Res(t, e) => {
                let t = self.ty(ch, t, depth + 1);
                let e = self.ty(ch, e, depth + 1);
                let mut vs = vec![("Ok", vec![F { name: None, ty: t }]), ("Err", vec![F { name: None, ty: e }])];
                self.variants(ch, &mut vs)
            }
            Shape::Tup(ts) => {
                if ts.len() == 1 && ch.chance(1, 2) {
                    return self.ty(ch, &ts[0], depth + 1);
                }
                let ids: Vec<usize> = ts.iter().map(|t| self.ty(ch, t, depth + 1)).collect();
                let d = self.tuplish(ch, ids);
                let id = self.tg.reg.add(d);
                return self.compacted(ch, id);
            }
            Shape::Dur => {
                let a = self.ty(ch, &Shape::Num { w: 64, signed: false, nonzero: false }, depth + 1);
                let b = self.ty(ch, &Shape::Num { w: 32, signed: false, nonzero: false }, depth + 1);
                let d = self.tuplish(ch, vec![a, b]);
                return self.tg.reg.add(d);
            }
            Shape::Range(t) => {
                let a = self.ty(ch, t, depth + 1);
                let b = if ch.chance(1, 2) { a } else { self.ty(ch, t, depth + 1) };
                let d = self.tuplish(ch, vec![a, b]);
                return self.tg.reg.add(d);
            }
            Shape::Struct(fs) => {
                let fields = self.fields(ch, fs, depth);
                if fields.iter().all(|f| f.name.is_none()) && ch.chance(1, 2) {
                    return self.tg.reg.add(Def::Tup(fields.into_iter().map(|f| f.ty).collect()));
                }
                let path = self.tg.path(ch);
                let id = self.tg.reg.add(Def::Comp { path, fields });
                return self.compacted(ch, id);
            }
            Shape::Enum(vs) => {
                let mut out = vec![];
                for v in vs {
                    if self.bad(ch) {
                        continue;
                    }
                    let fields = self.fields(ch, &v.fields, depth);
                    out.push((v.name.as_str(), fields));
                }
                self.variants(ch, &mut out)
            }
        };
        self.wrap(ch, id)
    }
    /// Compacts can have structs with one field in them.
    fn compacted(&mut self, ch: &mut Ch, id: usize) -> usize {
        if self.compacts && ch.chance(1, 4) && self.compactable(id) {
            return self.tg.reg.add(Def::Compact(id));
        }
        id
    }
    fn compactable(&self, id: usize) -> bool {
        let mut id = id;
        for _ in 0..20 {
            match &self.tg.reg.defs[id] {
                Def::Prim(p) => return UINTS.contains(p),
                Def::Tup(ids) if ids.len() == 1 => id = ids[0],
                Def::Comp { fields, .. } if fields.len() == 1 => id = fields[0].ty,
                Def::Compact(i) => id = *i,
                _ => return false,
            }
        }
        false
    }
    fn tg_names(&mut self, ch: &mut Ch, n: usize) -> Vec<F> {
        let mut fs: Vec<F> = vec![];
        for i in 0..n {
            let name = (!ch.chance(1, 5)).then(|| format!("{}{}", gen::NAMES[ch.n(gen::NAMES.len())], if ch.chance(1, 2) { "" } else { "x" }));
            let name = match name {
                Some(n) if fs.iter().any(|f| f.name.as_ref() == Some(&n)) => Some(format!("{n}{i}_")),
                n => n,
            };
            fs.push(F { name, ty: 0 });
        }
        fs
    }
    /// Some types, as either a tuple or a composite.
    fn tuplish(&mut self, ch: &mut Ch, mut ids: Vec<usize>) -> Def {
        if self.bad(ch) {
            if ch.chance(1, 2) {
                ids.pop();
            } else {
                let p = self.tg.prim(ch);
                ids.push(p);
            }
        }
        match ch.weighted(&[3, 2, 2, 1]) {
            0 => Def::Tup(ids),
            k => {
                let mixed = k == 3;
                let named = k == 2;
                let fields = ids
                    .into_iter()
                    .enumerate()
                    .map(|(i, ty)| F { name: (if mixed { ch.chance(1, 2) } else { named }).then(|| format!("f{i}")), ty })
                    .collect();
                Def::Comp { path: self.tg.path(ch), fields }
            }
        }
    }
    fn variants(&mut self, ch: &mut Ch, vs: &mut Vec<(&str, Vec<F>)>) -> usize {
        let extra = ch.weighted(&[4, 2, 1]);
        for i in 0..extra {
            let n = ch.n(2);
            let fields = self.tg_names(ch, n);
            let fields = fields
                .into_iter()
                .map(|mut f| {
                    f.ty = self.tg.prim(ch);
                    f
                })
                .collect();
            let name = ["Extra", "Else"][i];
            if !vs.iter().any(|v| v.0 == name) {
                vs.push((name, fields));
            }
        }
        if self.bad(ch) && !vs.is_empty() {
            // mess with the fields of one
            let at = ch.n(vs.len());
            if vs[at].1.pop().is_none() {
                let ty = self.tg.prim(ch);
                vs[at].1.push(F { name: None, ty });
            }
        }
        // shuffle
        for i in (1..vs.len()).rev() {
            let j = i - ch.n(i + 1);
            vs.swap(i, j);
        }
        let mut out: Vec<Vr> = vec![];
        let seq = ch.chance(1, 2);
        for (i, (name, fields)) in vs.drain(..).enumerate() {
            let mut index = if seq { i as u8 } else { ch.below(256) as u8 };
            while out.iter().any(|v| v.index == index) {
                index = index.wrapping_add(1);
            }
            out.push(Vr { name: name.to_string(), index, fields });
        }
        let path = self.tg.path(ch);
        self.tg.reg.add(Def::Var { path, variants: out })
    }
    fn fields(&mut self, ch: &mut Ch, fs: &SFields, depth: usize) -> Vec<F> {
        let used = fs.used();
        let mut out: Vec<F> = vec![];
        for (_, f) in &used {
            let ty = self.ty(ch, &f.shape, depth + 1);
            out.push(F { name: Some(f.name.clone()), ty });
        }
        let by_name = matches!(fs, SFields::Named(_)) && ch.chance(3, 4);
        if by_name {
            // Others are ignored, and it doesn't matter what order they are in.
            if ch.chance(1, 3) {
                for i in 0..ch.range(1, 3) {
                    self.tg.budget = 2;
                    let ty = self.tg.ty(ch, 3);
                    let mut name = if ch.chance(1, 2) {
                        // Something which is skipped in the target, perhaps.
                        let skipped: Vec<&SField> = fs.all().iter().filter(|f| f.skip.is_some()).collect();
                        if skipped.is_empty() {
                            format!("other{i}")
                        } else {
                            skipped[ch.n(skipped.len())].name.clone()
                        }
                    } else {
                        ["", "r#x", "A", "other"][ch.n(4)].to_string()
                    };
                    while out.iter().any(|f| f.name.as_ref() == Some(&name)) {
                        name.push('_');
                    }
                    out.push(F { name: Some(name), ty });
                }
            }
            if ch.chance(1, 2) {
                for i in (1..out.len()).rev() {
                    let j = i - ch.n(i + 1);
                    out.swap(i, j);
                }
            }
            if self.bad(ch) && !out.is_empty() {
                let at = ch.n(out.len());
                match ch.n(3) {
                    0 => {
                        out.remove(at);
                    }
                    1 => {
                        let mut name = out[at].name.clone().unwrap();
                        while out.iter().any(|f| f.name.as_ref() == Some(&name)) {
                            name.push('2');
                        }
                        out[at].name = Some(name);
                    }
                    _ => out[at].name = None,
                }
            }
        } else {
            // By position; names are irrelevant, but for named fields something needs to be unnamed.
            let how = ch.n(3);
            let named = matches!(fs, SFields::Named(_));
            for (i, f) in out.iter_mut().enumerate() {
                f.name = match how {
                    0 => None,
                    1 if i > 0 || !named => Some(format!("p{i}")),
                    2 if i > 0 => Some(format!("p{i}")),
                    _ => None,
                };
            }
            if self.bad(ch) {
                if ch.chance(1, 2) {
                    out.pop();
                } else {
                    let ty = self.tg.prim(ch);
                    out.push(F { name: None, ty });
                }
            }
        }
        out
    }
}

/// Generates values which more or less suit some target.
pub struct GVal<'a> {
    pub vg: ValGen,
    pub reg: &'a Reg,
    /// as above.
    pub bad: u64,
}
impl<'a> GVal<'a> {
    pub fn new(reg: &'a Reg, bad: u64, fuel: i64) -> Self {
        GVal { vg: ValGen::new(reg, Profile::Small, fuel), reg, bad }
    }
    fn bad(&self, ch: &mut Ch) -> bool {
        self.bad > 0 && ch.chance(1, self.bad)
    }
    fn list(&mut self, ch: &mut Ch, id: usize, n: usize, s: &Shape) -> V {
        V::List((0..n).map(|_| self.val(ch, id, s)).collect())
    }
    fn pos(&mut self, ch: &mut Ch, ids: &[usize], shapes: &[&Shape]) -> Vec<V> {
        ids.iter()
            .enumerate()
            .map(|(i, id)| match shapes.get(i) {
                Some(s) => self.val(ch, *id, s),
                None => self.vg.val(ch, self.reg, *id),
            })
            .collect()
    }
    fn fields(&mut self, ch: &mut Ch, src: &[F], fs: &SFields) -> Vec<V> {
        let used = fs.used();
        if matches!(fs, SFields::Named(_)) && src.iter().all(|f| f.name.is_some()) {
            return src
                .iter()
                .map(|f| match used.iter().find(|u| Some(&u.1.name) == f.name.as_ref()) {
                    Some(u) => self.val(ch, f.ty, &u.1.shape),
                    None => self.vg.val(ch, self.reg, f.ty),
                })
                .collect();
        }
        let ids: Vec<usize> = src.iter().map(|f| f.ty).collect();
        let shapes: Vec<&Shape> = used.iter().map(|u| &u.1.shape).collect();
        self.pos(ch, &ids, &shapes)
    }
    pub fn val(&mut self, ch: &mut Ch, id: usize, s: &Shape) -> V {
        if let Shape::Lazy(f) = s {
            return self.val(ch, id, &f());
        }
        if let Shape::Raw = s {
            return self.vg.val(ch, self.reg, id);
        }
        let raw = &self.reg.defs[id];
        let id = self.reg.strip(id);
        let reg = self.reg;
        let def = &reg.defs[id];
        if self.vg.fuel < 0 || self.bad(ch) {
            return self.vg.val(ch, reg, id);
        }
        self.vg.fuel -= 1;
        let ids: Option<Vec<usize>> = match def {
            Def::Tup(ids) => Some(ids.clone()),
            Def::Comp { fields, .. } => Some(fields.iter().map(|f| f.ty).collect()),
            _ => None,
        };
        match (s, def) {
            (Shape::Tup(ts), _) if ts.len() == 1 && !matches!(raw, Def::Tup(_) | Def::Comp { .. }) => self.val(ch, id, &ts[0]),
            (Shape::Tup(ts), _) => match ids {
                Some(ids) => V::List(self.pos(ch, &ids, &ts.iter().collect::<Vec<_>>())),
                None => self.vg.val(ch, reg, id),
            },
            (Shape::Range(t), _) => match ids {
                Some(ids) => V::List(self.pos(ch, &ids, &[t, t])),
                None => self.vg.val(ch, reg, id),
            },
            (Shape::Dur, _) => match ids {
                Some(ids) => {
                    let u = |w| Shape::Num { w, signed: false, nonzero: false };
                    V::List(self.pos(ch, &ids, &[&u(64), &u(32)]))
                }
                None => self.vg.val(ch, reg, id),
            },
            (Shape::Struct(fs), Def::Comp { fields, .. }) => V::List(self.fields(ch, fields, fs)),
            (Shape::Struct(fs), Def::Tup(ids)) => {
                let used = fs.used();
                let shapes: Vec<&Shape> = used.iter().map(|u| &u.1.shape).collect();
                V::List(self.pos(ch, ids, &shapes))
            }
            (Shape::Map(t), Def::Comp { fields, .. }) => V::List(
                fields
                    .iter()
                    .map(|f| if f.name.is_some() { self.val(ch, f.ty, t) } else { self.vg.val(ch, reg, f.ty) })
                    .collect(),
            ),
            (Shape::Struct(_) | Shape::Map(_) | Shape::Phantom, _) => self.vg.val(ch, reg, id),
            _ => {
                if let Some(ids) = ids {
                    return match &ids[..] {
                        [i] => V::List(vec![self.val(ch, *i, s)]),
                        _ => self.vg.val(ch, reg, id),
                    };
                }
                match (s, def) {
                    (Shape::Num { w, signed, nonzero }, Def::Prim(p)) => {
                        let Some((sw, ss)) = p.int() else { return self.vg.val(ch, reg, id) };
                        let mut n = gen::int(ch, *w, *signed);
                        if *nonzero && n.mag == 0 {
                            n.mag = 1;
                        }
                        if !n.fits(sw, ss) {
                            // Make it fit in both.
                            let bits = (sw - ss as u32).min(*w - *signed as u32);
                            n = Int::u(n.mag & if bits == 128 { u128::MAX } else { (1 << bits) - 1 });
                            if *nonzero && n.mag == 0 {
                                n.mag = 1;
                            }
                        }
                        V::Int(n)
                    }
                    (Shape::Str, Def::Prim(P::Str)) => {
                        let b = gen::string(ch, false);
                        V::Str(String::from_utf8_lossy(&b).into_owned().into_bytes())
                    }
                    (Shape::List(t) | Shape::Sorted(t, _) | Shape::ArrN(t, _), Def::Seq(i)) => {
                        let n = match s {
                            _ if self.vg.heights[*i].is_none() => 0,
                            Shape::ArrN(_, n) => *n,
                            _ if ch.chance(1, 60) => ch.range(60, 70),
                            _ => ch.weighted(&[2, 3, 3, 2, 1, 1]),
                        };
                        self.list(ch, *i, n, t)
                    }
                    (Shape::List(t) | Shape::Sorted(t, _) | Shape::ArrN(t, _), Def::Arr(i, n)) => self.list(ch, *i, *n as usize, t),
                    (Shape::Opt(_) | Shape::Res(..) | Shape::Enum(_), Def::Var { variants, .. }) => {
                        let names: Vec<&str> = match s {
                            Shape::Opt(_) => vec!["Some", "None"],
                            Shape::Res(..) => vec!["Ok", "Err"],
                            Shape::Enum(vs) => vs.iter().map(|v| v.name.as_str()).collect(),
                            _ => unreachable!(),
                        };
                        let h = self.vg.heights.clone();
                        let ok: Vec<usize> = (0..variants.len())
                            .filter(|i| names.contains(&variants[*i].name.as_str()) && variants[*i].fields.iter().all(|f| h[f.ty].is_some()))
                            .collect();
                        if ok.is_empty() {
                            return self.vg.val(ch, reg, id);
                        }
                        let at = *ch.pick(&ok);
                        let vr = &variants[at];
                        let fs: Vec<V> = match s {
                            Shape::Enum(vs) => {
                                let t = vs.iter().find(|v| v.name == vr.name).unwrap();
                                self.fields(ch, &vr.fields, &t.fields)
                            }
                            _ => {
                                let t = match (s, vr.name.as_str()) {
                                    (Shape::Opt(t), _) | (Shape::Res(t, _), "Ok") | (Shape::Res(_, t), _) => t,
                                    _ => unreachable!(),
                                };
                                vr.fields.iter().map(|f| self.val(ch, f.ty, t)).collect()
                            }
                        };
                        V::Var(at, fs)
                    }
                    _ => self.vg.val(ch, reg, id),
                }
            }
        }
    }
}

/// Generate some type and value which could suit the shape given (or not).
pub fn for_shape(ch: &mut Ch, s: &Shape) -> (Reg, usize, V) {
    let bad_ty = *ch.pick(&[0u64, 0, 60, 25, 8]);
    let bad_val = *ch.pick(&[0u64, 0, 60, 12]);
    for_shape_with(ch, s, bad_ty, bad_val)
}
pub fn for_shape_with(ch: &mut Ch, s: &Shape, bad_ty: u64, bad_val: u64) -> (Reg, usize, V) {
    for_shape_opts(ch, s, bad_ty, bad_val, true)
}
pub fn for_shape_opts(ch: &mut Ch, s: &Shape, bad_ty: u64, bad_val: u64, compacts: bool) -> (Reg, usize, V) {
    if bad_ty > 0 && ch.chance(1, 12) {
        let (reg, root, p) = gen::any_type(ch);
        let v = any_val(ch, &reg, root, p);
        return (reg, root, v);
    }
    let mut g = Guide::new(bad_ty);
    g.compacts = compacts;
    let root = g.ty(ch, s, 0);
    let (reg, root) = g.tg.finish(root);
    let v = GVal::new(&reg, bad_val, 150).val(ch, root, s);
    (reg, root, v)
}
