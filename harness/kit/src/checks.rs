use crate::tgt::*;
use scale_decode::error::{Error, ErrorKind, Location};
use scale_decode::visitor::DecodeError;
use verif_model::shape::*;
use verif_model::*;

pub fn kind_matches(f: &FK, k: &ErrorKind) -> bool {
    match (f, k) {
        (FK::Unexpected(n), ErrorKind::VisitorDecodeError(DecodeError::Unexpected(u))) => format!("{u:?}") == *n,
        (FK::BadStr, ErrorKind::VisitorDecodeError(DecodeError::InvalidStr(_))) => true,
        (FK::Range(n), ErrorKind::NumberOutOfRange { value }) => n == value,
        (FK::Variant { got: g, expected: e }, ErrorKind::CannotFindVariant { got, expected }) => {
            let (mut e, mut expected): (Vec<&str>, Vec<&str>) = (e.iter().map(|e| &**e).collect(), expected.clone());
            e.sort();
            expected.sort();
            g == got && e == expected
        }
        (FK::Len { actual, expected }, ErrorKind::WrongLength { actual_len, expected_len }) => actual == actual_len && expected == expected_len,
        (FK::Own, ErrorKind::Custom(_)) => true,
        (FK::NoField(n), ErrorKind::CannotFindField { name }) => n == name,
        _ => false,
    }
}
/// (Ours have the innermost first.)
pub fn path_matches(p: &[Loc], e: &Error) -> bool {
    let want: Vec<Location> = p
        .iter()
        .rev()
        .map(|l| match l {
            Loc::Field(n) => Location::field(n.clone()),
            Loc::Idx(i) => Location::idx(*i),
            Loc::Var(n) => Location::variant(n.clone()),
        })
        .collect();
    let path = e.context().path();
    let got: Vec<&Location> = path.locations().collect();
    if !got.iter().copied().eq(want.iter()) {
        return false;
    }
    // It's there in the text as well, in that order.
    let text = e.to_string();
    let mut rest = &text[..];
    for l in p.iter().rev() {
        let part = match l {
            Loc::Field(n) | Loc::Var(n) => n.clone(),
            Loc::Idx(i) => i.to_string(),
        };
        let Some(at) = rest.find(&part) else { return false };
        rest = &rest[at + part.len()..];
    }
    true
}
/// Does the text of an error have in it what its kind does?
fn says(f: &FK, k: &ErrorKind) -> bool {
    let text = k.to_string();
    let has = |s: &str| text.contains(s);
    match f {
        FK::Unexpected(n) => text.to_lowercase().contains(&n.to_lowercase()),
        FK::Range(n) => has(n),
        // (They're shown in quotes.)
        FK::Variant { got, expected } => has(got) && expected.iter().all(|e| has(&format!("{e:?}")) || has(e)),
        FK::Len { actual, expected } => has(&actual.to_string()) && has(&expected.to_string()),
        FK::NoField(n) => has(n),
        FK::BadStr => match k {
            ErrorKind::VisitorDecodeError(DecodeError::InvalidStr(e)) => has(&e.to_string()),
            _ => false,
        },
        FK::Own => match k {
            ErrorKind::Custom(e) => has(&e.to_string()),
            _ => false,
        },
    }
}
fn kind_label(f: &FK) -> &'static str {
    match f {
        FK::Unexpected(_) => "fault:unexpected type",
        FK::Range(_) => "fault:number out of range",
        FK::Variant { .. } => "fault:no such variant",
        FK::Len { .. } => "fault:wrong length",
        FK::NoField(_) => "fault:no such field",
        FK::BadStr => "fault:invalid string",
        FK::Own => "fault:target fails",
    }
}
pub fn show_err(e: &Error) -> String {
    format!("{:?} at {}", e.kind(), e.context().path())
}

/// Is this what should have come out?
pub fn judge(name: &str, want: &Fit, got: &Result<TV, Error>, paths: bool) -> R {
    match (want, got) {
        (Ok(w), Ok(g)) => ensure!(w == g, "{name}: decoded {g:?} rather than {w:?}"),
        (Ok(w), Err(e)) => fail!("{name}: failed with {} rather than giving back {w:?}", show_err(e)),
        (Err(fs), Ok(g)) => fail!("{name}: decoded {g:?}, when it should fail because of one of {fs:?}"),
        (Err(fs), Err(e)) => {
            // (there might be more of them than we've bothered with)
            if fs.len() < 200 {
                ensure!(
                    fs.iter().any(|f| kind_matches(&f.kind, e.kind()) && (!paths || (path_matches(&f.path, e) && says(&f.kind, e.kind()) && e.to_string().contains(&e.kind().to_string())))),
                    "{name}: failed with {}, when it should be one of {fs:?}",
                    show_err(e)
                );
            }
        }
    }
    Ok(())
}
pub fn boring(reg: &Reg, root: usize, v: &V) -> bool {
    matches!(reg.defs[root], Def::Prim(_)) || reg.enc(root, v).is_empty()
}

/// Decode some value of some type, to this type, in a few ways.
#[allow(clippy::too_many_arguments)]
pub fn fits(ch: &mut Ch, cx: &mut Cx, e: &Entry, reg: &Reg, root: usize, v: &V, paths: bool) -> R {
    let trailing = gen::trailing(ch);
    let mut bytes = reg.enc(root, v);
    bytes.extend_from_slice(&trailing);
    cx.key(&(e.name, reg, root, v));
    cx.sample(|| format!("{} as {} from {}{}", reg.show(root), e.name, hex(&bytes), e.decl()));
    let want = fit(reg, root, v, &(e.shape)());
    match &want {
        Ok(_) => cx.label("fits"),
        Err(fs) => {
            for f in fs.iter().take(3) {
                cx.label(kind_label(&f.kind))
            }
        }
    }
    let mut b = &*bytes;
    let got = if ch.chance(1, 4) {
        cx.label("resolver:portable");
        (e.decode_p)(&mut b, root, &to_portable(reg))
    } else {
        (e.decode)(&mut b, root, &Res::new(reg.clone()))
    };
    judge(e.name, &want, &got, paths)?;
    if got.is_ok() {
        ensure!(b == trailing, "{}: left {} bytes rather than {}", e.name, b.len(), trailing.len());
    }
    Ok(())
}
/// Types and values which mostly suit the target.
pub fn target(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    cx.label(format!("to:{}", e.name));
    let (reg, root, v) = for_shape(ch, &(e.shape)());
    cx.nontrivial = !boring(&reg, root, &v);
    fits(ch, cx, e, &reg, root, &v, false)
}
/// Types and values which don't, mostly, and check that we're told about it properly.
pub fn faulty(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    cx.label(format!("to:{}", e.name));
    let (bad_ty, bad_val) = *ch.pick(&[(10, 0), (40, 0), (0, 4), (0, 10), (40, 10), (120, 30)]);
    let (reg, root, v) = for_shape_with(ch, &(e.shape)(), bad_ty, bad_val);
    cx.nontrivial = fit(&reg, root, &v, &(e.shape)()).is_err();
    fits(ch, cx, e, &reg, root, &v, true)
}
/// Bytes which might not be valid.
pub fn broken(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    let shape = (e.shape)();
    let bad_ty = *ch.pick(&[0, 0, 40]);
    let (reg, root, v) = for_shape_with(ch, &shape, bad_ty, 0);
    if gen::avoid_empty_seqs(&mut reg.clone(), root) > 0 {
        cx.excluded += 1;
        return Ok(());
    }
    let mut bytes = reg.enc(root, &v);
    bytes.extend(gen::trailing(ch));
    gen::corrupt(ch, &mut bytes);
    cx.key(&(e.name, &reg, root, &bytes));
    cx.nontrivial = !bytes.is_empty() && !matches!(reg.defs[root], Def::Prim(_));
    cx.sample(|| format!("{} as {} from {}{}", reg.show(root), e.name, hex(&bytes), e.decl()));
    let mut rest = &*bytes;
    let mut bud = Budget::new(20_000, 1500);
    let want = match reg.dec(root, false, &mut rest, &mut bud) {
        Err(Rej::Budget) => return Err(Stop::Discard("too much work")),
        w => w,
    };
    let types = Res::new(reg.clone());
    let mut b = &*bytes;
    let got = (e.decode)(&mut b, root, &types);
    match want {
        Ok(v) => {
            cx.label("bytes:valid");
            judge(e.name, &fit(&reg, root, &v, &shape), &got, false)?;
            ensure!(got.is_err() || b == rest, "{}: left {} bytes rather than {}", e.name, b.len(), rest.len());
        }
        Err(why) => {
            cx.label("bytes:invalid");
            ensure!(got.is_err(), "{}: decoded {got:?} from invalid bytes ({why:?})", e.name);
        }
    }
    Ok(())
}
/// Decoding to something given fields has to be the same as decoding from something with those fields.
pub fn as_fields(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    cx.label(format!("to:{}", e.name));
    let shape = (e.shape)();
    let (mut reg, mut root, mut v) = for_shape(ch, &shape);
    if !matches!(reg.defs[root], Def::Tup(_) | Def::Comp { .. }) {
        let named = ch.chance(1, 2).then(|| "value".to_string());
        root = reg.add(Def::Comp { path: gen::path(ch), fields: vec![F { name: named, ty: root }] });
        v = V::List(vec![v]);
    }
    if let Def::Tup(ids) = &reg.defs[root] {
        if ids.is_empty() {
            // No fields are neither named nor unnamed, which matters to what error there is.
            reg.defs[root] = Def::Comp { path: vec![], fields: vec![] };
        }
    }
    let fields: Vec<(Option<String>, usize)> = match &reg.defs[root] {
        Def::Tup(ids) => ids.iter().map(|i| (None, *i)).collect(),
        Def::Comp { fields, .. } => fields.iter().map(|f| (f.name.clone(), f.ty)).collect(),
        _ => unreachable!(),
    };
    let mut bytes = reg.enc(root, &v);
    let trailing = gen::trailing(ch);
    bytes.extend_from_slice(&trailing);
    let broken = ch.chance(1, 3) && gen::avoid_empty_seqs(&mut reg.clone(), root) == 0;
    if broken {
        gen::corrupt(ch, &mut bytes);
        if matches!(reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)), Err(Rej::Budget)) {
            return Err(Stop::Discard("too much work"));
        }
        cx.label("bytes broken");
    }
    cx.key(&(e.name, &reg, root, &bytes));
    cx.nontrivial = !fields.is_empty() && !bytes.is_empty();
    cx.sample(|| format!("{} as {} from {}{}", reg.show(root), e.name, hex(&bytes), e.decl()));
    let types = Res::new(reg.clone());
    let (mut a, mut b) = (&*bytes, &*bytes);
    let as_type = (e.decode)(&mut a, root, &types);
    let as_fields = (e.fields.unwrap())(&mut b, &fields, &types);
    match (&as_type, &as_fields) {
        (Ok(x), Ok(y)) => {
            ensure!(x == y, "{}: {x:?} as a type, but {y:?} as fields", e.name);
            ensure!(a == b, "{}: {} bytes left as a type, but {} as fields", e.name, a.len(), b.len());
            cx.label("both succeed");
        }
        (Err(x), Err(y)) => {
            let (x, y) = (show_err(x), show_err(y));
            ensure!(x == y, "{}: error {x} as a type, but {y} as fields", e.name);
            // There's no telling where broken ones would end.
            ensure!(broken || a == b, "{}: after the same error, {} bytes left as a type, but {} as fields", e.name, a.len(), b.len());
            cx.label("both fail");
        }
        _ => fail!("{}: {as_type:?} as a type, but {as_fields:?} as fields", e.name),
    }
    if !broken {
        judge(e.name, &fit(&reg, root, &v, &shape), &as_fields, false)?;
        ensure!(as_fields.is_err() || b == trailing, "{}: left {} bytes rather than {}", e.name, b.len(), trailing.len());
    }
    Ok(())
}
/// Decoding a type given its own type information has to be the same as decoding it statically.
pub fn own_codec(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    cx.label(format!("to:{}", e.name));
    let c = e.codec.unwrap();
    let (portable, root) = (c.own)();
    let reg = from_portable(&portable);
    let root = root as usize;
    let shape = (e.shape)();
    let mut g = GVal::new(&reg, *ch.pick(&[0, 0, 20]), 150);
    if g.vg.heights[root].is_none() {
        return Err(Stop::Discard("there are no values"));
    }
    let v = g.val(ch, root, &shape);
    let mut bytes = reg.enc(root, &v);
    bytes.extend(gen::trailing(ch));
    let broken = ch.chance(1, 2);
    if broken {
        gen::corrupt(ch, &mut bytes);
    }
    if matches!(reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)), Err(Rej::Budget)) {
        return Err(Stop::Discard("too much work"));
    }
    cx.key(&(e.name, &bytes));
    cx.nontrivial = bytes.len() > 1;
    cx.sample(|| format!("{} from {}{}", e.name, hex(&bytes), e.decl()));
    let want = (c.decode)(&bytes);
    let mut b = &*bytes;
    let got = (e.decode_p)(&mut b, root, &portable);
    match (&want, &got) {
        (Ok((w, left)), Ok(g)) => {
            ensure!(w == g, "{}: {g:?} rather than {w:?}", e.name);
            ensure!(b.len() == *left, "{}: {} bytes left rather than {left}", e.name, b.len());
            cx.label("both succeed");
        }
        (Err(_), Err(_)) => cx.label("both fail"),
        // The one case in which static decoding is fussier than types can say:
        (Err(_), Ok(_)) if has_duration(&shape, 0) => cx.label("fussy about durations"),
        _ => fail!("{}: {got:?} but codec has {want:?}", e.name),
    }
    // And another sort of type information
    let mut b2 = &*bytes;
    let again = (e.decode)(&mut b2, root, &Res::new(reg.clone()));
    ensure!(again.is_ok() == got.is_ok() && (again.is_err() || (again.as_ref().ok() == got.as_ref().ok() && b == b2)), "{}: {got:?}, then {again:?}", e.name);
    Ok(())
}
fn has_duration(s: &Shape, depth: usize) -> bool {
    let any = |fs: &SFields| fs.all().iter().any(|f| has_duration(&f.shape, depth + 1));
    depth < 12
        && match s {
            Shape::Dur => true,
            Shape::List(t) | Shape::Sorted(t, _) | Shape::ArrN(t, _) | Shape::Map(t) | Shape::Opt(t) | Shape::Range(t) => has_duration(t, depth),
            Shape::Res(a, b) => has_duration(a, depth) || has_duration(b, depth),
            Shape::Tup(ts) => ts.iter().any(|t| has_duration(t, depth)),
            Shape::Struct(f) => any(f),
            Shape::Enum(vs) => vs.iter().any(|v| any(&v.fields)),
            Shape::Lazy(f) => has_duration(&f(), depth + 1),
            _ => false,
        }
}
/// Targets which take over decoding, somewhere inside of others.
pub fn raw(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    cx.label(format!("to:{}", e.name));
    // (They aren't told that something's compact encoded.)
    let (reg, root, v) = for_shape_opts(ch, &(e.shape)(), 0, 0, false);
    cx.nontrivial = !boring(&reg, root, &v);
    fits(ch, cx, e, &reg, root, &v, false)
}
/// The hook of a target's visitor either does all of it, or nothing.
pub fn hooked(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    cx.label(format!("to:{}", e.name));
    let shape = (e.shape)();
    let (bad_ty, bad_val) = *ch.pick(&[(0, 0), (0, 0), (10, 0), (0, 10)]);
    let (reg, root, v) = for_shape_with(ch, &shape, bad_ty, bad_val);
    let mut bytes = reg.enc(root, &v);
    bytes.extend(gen::trailing(ch));
    if ch.chance(1, 5) {
        gen::corrupt(ch, &mut bytes);
        if gen::avoid_empty_seqs(&mut reg.clone(), root) > 0 || matches!(reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)), Err(Rej::Budget)) {
            return Err(Stop::Discard("too much work"));
        }
        cx.label("bytes broken");
    }
    let wrapped = ch.chance(1, 2);
    cx.key(&(e.name, &reg, root, &bytes, wrapped));
    cx.nontrivial = !bytes.is_empty() && !matches!(reg.defs[root], Def::Prim(_));
    cx.sample(|| format!("{} as {} from {}{}", reg.show(root), e.name, hex(&bytes), e.decl()));
    let types = Res::new(reg.clone());
    let (mut a, mut b) = (&*bytes, &*bytes);
    let want = (e.decode)(&mut a, root, &types);
    let got = (e.hook)(&mut b, root, &types, wrapped);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            ensure!(w == g, "{}: {g:?} via its hook, rather than {w:?}", e.name);
            ensure!(a == b, "{}: {} bytes left via its hook, rather than {}", e.name, b.len(), a.len());
            cx.label("both succeed");
        }
        (Err(w), Err(g)) => {
            let (w, g) = (show_err(w), show_err(g));
            ensure!(w == g, "{}: error {g} via its hook, rather than {w}", e.name);
            cx.label("both fail");
        }
        _ => fail!("{}: {got:?} via its hook, rather than {want:?}", e.name),
    }
    Ok(())
}
/// A container of which the first few items have been read already is decoded just as if they weren't there.
pub fn partly(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    let e = ch.pick(es);
    cx.label(format!("to:{}", e.name));
    let shape = (e.shape)();
    let (mut reg, mut root, mut v) = for_shape(ch, &shape);
    if matches!(reg.defs[root], Def::Prim(_) | Def::Compact(_) | Def::Bits(..)) {
        let named = ch.chance(1, 2).then(|| "value".to_string());
        root = reg.add(match ch.n(4) {
            0 => Def::Tup(vec![root]),
            1 => Def::Seq(root),
            _ => Def::Comp { path: gen::path(ch), fields: vec![F { name: named, ty: root }] },
        });
        v = V::List(vec![v]);
    }
    // Some more, at the front.
    let n = ch.weighted(&[1, 4, 3, 2, 1, 1]);
    let how = *ch.pick(&[Early::Visit, Early::Iterate, Early::Mix, Early::AsTuple]);
    let heights = reg.heights();
    let ids: Vec<usize> = (0..reg.defs.len()).filter(|i| heights[*i].is_some()).collect();
    let own = reg.defs.len();
    reg.defs.extend([Def::Prim(P::U8), Def::Prim(P::Str), Def::Prim(P::U32), Def::Compact(own), Def::Seq(own)]);
    let mut vals = gen::ValGen::new(&reg, gen::Profile::Small, 60);
    let mut def = reg.defs[root].clone();
    let mut more = vec![];
    for _ in 0..n {
        let ty = match &def {
            Def::Seq(t) | Def::Arr(t, _) => *t,
            _ if ch.chance(1, 2) => *ch.pick(&ids),
            _ => own + ch.n(5),
        };
        if vals.heights[ty].is_none() {
            return Err(Stop::Discard("there are no values"));
        }
        more.push((ty, vals.val(ch, &reg, ty)));
    }
    let with = |fields: &mut Vec<F>, ch: &mut Ch| {
        // (Whether a composite has names or not is about all of it.)
        let named = fields.iter().all(|f| f.name.is_some());
        let names: Vec<String> = fields.iter().filter_map(|f| f.name.clone()).chain(["early".into(), "x".into()]).collect();
        for (ty, _) in more.iter().rev() {
            fields.insert(0, F { name: named.then(|| ch.pick(&names).clone()), ty: *ty });
        }
    };
    // What's left over, in itself:
    let mut left = root;
    match &mut def {
        Def::Seq(_) => (),
        Def::Arr(_, len) => *len += n as u32,
        Def::Tup(ids) => *ids = more.iter().map(|m| m.0).chain(ids.iter().copied()).collect(),
        Def::Comp { fields, .. } => {
            if how == Early::AsTuple {
                left = reg.add(Def::Tup(fields.iter().map(|f| f.ty).collect()));
            }
            with(fields, ch)
        }
        Def::Var { variants, .. } => {
            let V::Var(i, _) = &v else { unreachable!() };
            with(&mut variants[*i].fields, ch)
        }
        _ => unreachable!(),
    }
    let whole = match &v {
        V::List(l) => V::List(more.iter().map(|m| m.1.clone()).chain(l.iter().cloned()).collect()),
        V::Var(i, l) => V::Var(*i, more.iter().map(|m| m.1.clone()).chain(l.iter().cloned()).collect()),
        _ => unreachable!(),
    };
    let id = reg.add(def);
    let mut bytes = reg.enc(id, &whole);
    let trailing = gen::trailing(ch);
    bytes.extend_from_slice(&trailing);
    cx.key(&(e.name, &reg, id, &bytes, how));
    cx.nontrivial = n > 0 && !bytes.is_empty();
    cx.label(format!("early:{how:?}"));
    cx.sample(|| format!("{} after {n} ({how:?}), as {} from {}{}", reg.show(id), e.name, hex(&bytes), e.decl()));
    let want = fit(&reg, left, &v, &shape);
    let types = Res::new(reg.clone());
    let mut b = &*bytes;
    let got = (e.partly)(&mut b, id, &types, n, how);
    judge(e.name, &want, &got, false)?;
    ensure!(got.is_err() || b == trailing, "{}: left {} bytes rather than {}", e.name, b.len(), trailing.len());
    Ok(())
}
