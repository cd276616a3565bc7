//! Properties of decoding to types.
use crate::entries as es;
use verif_kit::*;
use verif_model::shape::*;
use verif_model::*;
use verif_vis::mem::measure;
use verif_vis::props as vis;

// --- C05

/// Something on the edge of being in range of some number type.
fn edge(ch: &mut Ch, w: u32, signed: bool) -> Int {
    let n = gen::int(ch, w, signed);
    match ch.n(4) {
        0 => n,
        _ => {
            // around a power of 2
            let b = *ch.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
            let d = ch.below(3) as i128 - 1;
            let p = if b == 128 { 0u128 } else { 1u128 << b };
            let mag = p.wrapping_add(d as u128);
            let neg = signed && ch.chance(1, 2);
            let n = Int { neg: neg && mag > 0, mag };
            if n.fits(w, signed) {
                n
            } else {
                Int::from_bits(mag & if w == 128 { u128::MAX } else { (1 << w) - 1 }, w, signed)
            }
        }
    }
}
fn c05_pairs(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = ch.pick(es::nums());
    let p = *ch.pick(&INTS);
    let (w, signed) = p.int().unwrap();
    let n = edge(ch, w, signed);
    let mut reg = Reg::default();
    let mut root = reg.prim(p);
    if UINTS.contains(&p) && ch.chance(1, 3) {
        root = reg.add(Def::Compact(root));
        cx.label("from:compact");
    }
    cx.label(format!("from:{p:?}"));
    cx.label(format!("to:{}", e.name));
    cx.nontrivial = true;
    fits(ch, cx, e, &reg, root, &V::Int(n), false)
}
fn c05_any(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, es::nums())
}
fn c05_other(ch: &mut Ch, cx: &mut Cx) -> R {
    // Numbers are never anything else, and nothing else is ever a number.
    let e = if ch.chance(1, 2) { ch.pick(es::nums()) } else { ch.pick(es::others()) };
    let (reg, root, p) = gen::any_type(ch);
    let v = gen::any_val(ch, &reg, root, p);
    cx.nontrivial = !boring(&reg, root, &v);
    fits(ch, cx, e, &reg, root, &v, false)
}

// --- C06

fn wrap(ch: &mut Ch, reg: &mut Reg, id: usize) -> usize {
    let d = match ch.n(4) {
        0 => Def::Tup(vec![id]),
        1 => Def::Comp { path: gen::path(ch), fields: vec![F { name: None, ty: id }] },
        n => Def::Comp {
            path: if n == 2 { vec!["Foo".to_string()] } else { gen::path(ch) },
            fields: vec![F { name: Some(gen::NAMES[ch.n(gen::NAMES.len())].to_string()), ty: id }],
        },
    };
    reg.add(d)
}
fn c06_wrap(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = ch.pick(es::transparent());
    cx.label(format!("to:{}", e.name));
    let bad = *ch.pick(&[0, 0, 0, 12]);
    let (reg, root, v) = for_shape_with(ch, &(e.shape)(), bad, bad);
    let plain_bytes = reg.enc(root, &v);
    let plain = (e.decode)(&mut &*plain_bytes, root, &Res::new(reg.clone()));
    judge(e.name, &fit(&reg, root, &v, &(e.shape)()), &plain, false)?;
    let mut wreg = reg.clone();
    let mut w = root;
    let mut wv = v;
    let n = if ch.chance(1, 20) { ch.range(10, 100) } else { ch.range(1, 4) };
    for _ in 0..n {
        w = wrap(ch, &mut wreg, w);
        wv = V::List(vec![wv]);
    }
    cx.nontrivial = !plain_bytes.is_empty();
    cx.label(match n {
        1 => "layers:1",
        2..=4 => "layers:2-4",
        _ => "layers:10 or more",
    });
    cx.key(&(e.name, &wreg, w, &wv));
    cx.sample(|| format!("{} as {} from {}", wreg.show(w), e.name, hex(&plain_bytes)));
    let trailing = gen::trailing(ch);
    let mut bytes = wreg.enc(w, &wv);
    ensure!(bytes == plain_bytes, "wrappers should have no encoding of their own");
    bytes.extend_from_slice(&trailing);
    let mut b = &*bytes;
    let r = (e.decode)(&mut b, w, &Res::new(wreg.clone()));
    match (&plain, &r) {
        (Ok(x), Ok(y)) => {
            ensure!(x == y, "{}: {x:?} without layers, but {y:?} with", e.name);
            ensure!(b == trailing, "{}: left {} bytes rather than {}", e.name, b.len(), trailing.len());
        }
        (Err(x), Err(y)) => {
            ensure!(x.kind().to_string() == y.kind().to_string(), "{}: {} without layers, but {} with", e.name, show_err(x), show_err(y));
            cx.label("both fail");
        }
        _ => fail!("{}: {plain:?} without layers, but {r:?} with", e.name),
    }
    Ok(())
}
/// Things with some other number of fields aren't see through.
fn c06_not_one(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = ch.pick(es::transparent());
    cx.label(format!("to:{}", e.name));
    let (mut reg, root, v) = for_shape_with(ch, &(e.shape)(), 0, 0);
    let n = *ch.pick(&[0, 2, 2, 3, 5]);
    let named = ch.chance(1, 2);
    let mut vs = vec![];
    let mut fields = vec![];
    for i in 0..n {
        // (some of them might have nothing in them)
        let (ty, v) = if ch.chance(1, 3) { (reg.add(Def::Tup(vec![])), V::List(vec![])) } else { (root, v.clone()) };
        fields.push(F { name: named.then(|| format!("f{i}")), ty });
        vs.push(v);
    }
    let d = if ch.chance(1, 3) { Def::Tup(fields.iter().map(|f| f.ty).collect()) } else { Def::Comp { path: gen::path(ch), fields } };
    let mut w = reg.add(d);
    let mut wv = V::List(vs);
    for _ in 0..ch.n(3) {
        w = wrap(ch, &mut reg, w);
        wv = V::List(vec![wv]);
    }
    cx.nontrivial = true;
    fits(ch, cx, e, &reg, w, &wv, false)
}

// --- C07

fn c07_lists(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, es::lists())
}
fn c07_arrays(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, es::arrays())
}
/// All manner of lengths.
fn c07_lengths(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = if ch.chance(1, 2) { ch.pick(es::arrays()) } else { ch.pick(es::lists()) };
    cx.label(format!("to:{}", e.name));
    let (mut reg, inner) = (Reg::default(), ch.n(4));
    let shape = (e.shape)();
    let (Shape::ArrN(t, _) | Shape::List(t) | Shape::Sorted(t, _)) = &shape else { return Ok(()) };
    let (r, id, v) = for_shape_with(ch, t, 0, 0);
    reg.defs = r.defs;
    let want = match &shape {
        Shape::ArrN(_, n) => *n,
        _ => 3,
    };
    let n = match ch.n(4) {
        0 => want,
        1 => want + 1,
        2 => want.saturating_sub(1),
        _ => *ch.pick(&[0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 96, 128, 255, 256, 1000]),
    };
    let n = n.min(20_000 / (gen::size(&v) + 1));
    let d = if inner < 2 { Def::Arr(id, n as u32) } else { Def::Seq(id) };
    let root = reg.add(d);
    let other = gen::any_val(ch, &reg, id, gen::Profile::Small);
    let usual = fit(&reg, id, &other, t).is_ok();
    let v = V::List((0..n).map(|i| if usual && i % 3 == 1 { other.clone() } else { v.clone() }).collect());
    cx.nontrivial = n > 0;
    cx.label(if n == want { "length:same" } else { "length:different" });
    fits(ch, cx, e, &reg, root, &v, false)
}

// --- C11, C12, C16, C20

fn c11_wrappers(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, es::wrappers())
}
fn c11_durations(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = *es::wrappers().iter().find(|e| e.name == "Duration").unwrap();
    let secs = match ch.n(3) {
        0 => gen::int(ch, 64, false).mag,
        1 => u64::MAX as u128 - ch.below(6) as u128,
        _ => ch.below(100) as u128,
    };
    let nanos = match ch.n(3) {
        0 => gen::int(ch, 32, false).mag,
        _ => (ch.below(5) * 1_000_000_000).saturating_add(ch.below(3)).saturating_sub(1).min(u32::MAX as u64) as u128,
    };
    let mut reg = Reg::default();
    let a = if ch.chance(1, 2) { reg.prim(P::U64) } else { reg.prim(P::U128) };
    let b = if ch.chance(1, 2) { reg.prim(P::U32) } else { reg.prim(P::U64) };
    let root = reg.add(Def::Tup(vec![a, b]));
    cx.nontrivial = nanos >= 1_000_000_000;
    fits(ch, cx, &e, &reg, root, &V::List(vec![V::Int(Int::u(secs)), V::Int(Int::u(nanos))]), false)
}
/// It makes no difference that something's wrapped.
fn c11_same(ch: &mut Ch, cx: &mut Cx) -> R {
    const GROUPS: &[&[&str]] = &[
        &["u8", "Box<u8>", "Box<Box<Box<u8>>>", "Compact<u8>"],
        &["u16", "Rc<u16>", "Compact<u16>", "Compact<Box<u16>>", "Box<Compact<u16>>"],
        &["u32", "Arc<u32>", "Compact<u32>"],
        &["u64", "Cow<'static, u64>", "Compact<u64>"],
        &["u128", "Compact<u128>"],
        &["String", "Box<String>", "Arc<String>", "Cow<'static, str>", "Compact<String>"],
        &["Vec<u8>", "Rc<Vec<u8>>", "Cow<'static, [u8]>"],
        &["Option<u8>", "Arc<Rc<Box<Option<u8>>>>", "Box<Option<Box<u8>>>", "Cow<'static, Option<u8>>"],
        &["Duration", "Box<Duration>"],
        &["char", "Box<char>"],
        &["Bits", "Rc<Bits>"],
        &["Map<u8>", "Box<Map<u8>>"],
        &["()", "Box<()>", "Compact<()>"],
        &["(u8,)", "Arc<(u8,)>", "(Box<u8>,)", "(Compact<u8>,)", "Compact<(u8,)>"],
        &["[u8; 3]", "Box<[u8; 3]>"],
        &["NonZeroU8", "Compact<NonZeroU8>"],
    ];
    let g = ch.pick(GROUPS);
    let find = |n: &str| *es::all().iter().find(|e| e.name == n).unwrap_or_else(|| panic!("no entry {n}"));
    let plain = find(g[0]);
    let e = find(g[ch.range(1, g.len() - 1)]);
    let shape = (plain.shape)();
    let (reg, root, v) = for_shape(ch, &shape);
    let mut bytes = reg.enc(root, &v);
    bytes.extend(gen::trailing(ch));
    if gen::avoid_empty_seqs(&mut reg.clone(), root) == 0 && ch.chance(1, 3) {
        gen::corrupt(ch, &mut bytes);
        if matches!(reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)), Err(Rej::Budget)) {
            return Err(Stop::Discard("too much work"));
        }
        cx.label("bytes broken");
    }
    cx.key(&(e.name, &reg, root, &bytes));
    cx.nontrivial = !bytes.is_empty() && !matches!(reg.defs[root], Def::Prim(_));
    cx.sample(|| format!("{} as {} from {}", reg.show(root), e.name, hex(&bytes)));
    let types = Res::new(reg.clone());
    let (mut a, mut b) = (&*bytes, &*bytes);
    let x = (plain.decode)(&mut a, root, &types);
    let y = (e.decode)(&mut b, root, &types);
    match (&x, &y) {
        (Ok(p), Ok(q)) => ensure!(p == q && a == b, "{x:?} ({} bytes left), but {y:?} ({} bytes left) as {}", a.len(), b.len(), e.name),
        (Err(p), Err(q)) => {
            ensure!(show_err(p) == show_err(q), "error {} but {} as {}", show_err(p), show_err(q), e.name);
            cx.label("both fail");
        }
        _ => fail!("{x:?}, but {y:?} as {}", e.name),
    }
    Ok(())
}
fn c16_faulty(ch: &mut Ch, cx: &mut Cx) -> R {
    faulty(ch, cx, es::all())
}
fn some_text(ch: &mut Ch) -> String {
    match ch.n(3) {
        0 => gen::NAMES[ch.n(gen::NAMES.len())].to_string(),
        1 => String::new(),
        _ => (0..ch.n(6)).map(|_| char::from_u32(ch.n(0x3000) as u32).unwrap_or('?')).collect(),
    }
}
/// Errors, and the places which are noted for them.
fn c16_context(ch: &mut Ch, cx: &mut Cx) -> R {
    use scale_decode::error::{Context, Error, ErrorKind, Location};
    use scale_decode::visitor::{DecodeError, Unexpected};
    let (mut e, texts, kind): (Error, Vec<String>, &str) = match ch.n(9) {
        0 => {
            let t = some_text(ch);
            (Error::custom_string(t.clone()), vec![t], "Custom")
        }
        1 => (Error::custom_str("some text"), vec!["some text".into()], "Custom"),
        2 => (Error::custom(std::fmt::Error), vec![std::fmt::Error.to_string()], "Custom"),
        3 => {
            let n = ch.raw();
            (Error::new(ErrorKind::NumberOutOfRange { value: n.to_string() }), vec![n.to_string()], "NumberOutOfRange")
        }
        4 => {
            let (a, b) = (ch.n(1 << 20), ch.n(1 << 20));
            (Error::new(ErrorKind::WrongLength { actual_len: a, expected_len: b }), vec![format!("expected length {b}"), format!("got length {a}")], "WrongLength")
        }
        5 => {
            let t = some_text(ch);
            (Error::new(ErrorKind::CannotFindField { name: t.clone() }), vec![t], "CannotFindField")
        }
        6 => {
            let t = some_text(ch);
            (Error::new(ErrorKind::CannotFindVariant { got: t.clone(), expected: vec!["Aa", "Bb"] }), vec![t, "Aa".into(), "Bb".into()], "CannotFindVariant")
        }
        7 => {
            let b = ch.n(256) as u8;
            (DecodeError::VariantNotFound(b).into(), vec![b.to_string()], "VisitorDecodeError(VariantNotFound")
        }
        _ => (DecodeError::Unexpected(Unexpected::Bitsequence).into(), vec!["bitsequence".into()], "VisitorDecodeError(Unexpected(Bitsequence"),
    };
    let kind_was = format!("{:?}", e.kind());
    ensure!(kind_was.starts_with(kind), "{kind_was} rather than {kind}");
    let mut cx2 = Context::new();
    let (mut want, mut text) = (vec![], vec![]);
    let n = *ch.pick(&[0, 1, 2, 3, 4, 8, 300]);
    for _ in 0..n {
        let (l, t);
        match ch.n(4) {
            0 => {
                let i = *ch.pick(&[0, 1, 7, 255, 256, 70_000, usize::MAX]);
                (l, t) = (Location::idx(i), format!("[{i}]"));
                e = if ch.chance(1, 2) { e.at_idx(i) } else { e.at(l.clone()) };
            }
            1 => {
                let name = some_text(ch);
                (l, t) = (Location::variant(name.clone()), format!("({name})"));
                e = if ch.chance(1, 2) { e.at_variant(name) } else { e.at(l.clone()) };
            }
            k => {
                let name = if k == 2 { "a".to_string() } else { some_text(ch) };
                (l, t) = (Location::field(name.clone()), name.clone());
                e = if ch.chance(1, 2) { e.at_field(name) } else { e.at(l.clone()) };
            }
        }
        cx2.push(l.clone());
        // What's noted later is further out.
        want.insert(0, l);
        text.insert(0, t);
    }
    cx.nontrivial = n > 1;
    cx.key(&(&kind_was, &text));
    cx.sample(|| e.to_string());
    let text = text.join(".");
    for p in [e.context().path(), e.context().path().into_owned(), cx2.path(), e.context().clone().path().into_owned()] {
        ensure!(p.locations().eq(want.iter()), "{:?} rather than {want:?}", p.locations().collect::<Vec<_>>());
        ensure!(p.to_string() == text, "path is {p} rather than {text}");
    }
    ensure!(format!("{:?}", e.kind()) == kind_was, "kind turned from {kind_was} into {:?}", e.kind());
    let all = e.to_string();
    ensure!(all.contains(&text), "{all} doesn't say that it's at {text}");
    for t in texts {
        ensure!(e.kind().to_string().contains(&t) && all.contains(&t), "{all} doesn't say {t:?}");
    }
    Ok(())
}
/// Bytes which aren't valid: what's wrong with them, and where?
pub fn malformed(ch: &mut Ch, cx: &mut Cx, es: &[Entry]) -> R {
    use scale_decode::error::ErrorKind;
    let e = ch.pick(es);
    let shape = (e.shape)();
    let bad_ty = *ch.pick(&[0, 0, 0, 60]);
    let (reg, root, v) = for_shape_with(ch, &shape, bad_ty, 0);
    if gen::avoid_empty_seqs(&mut reg.clone(), root) > 0 {
        cx.excluded += 1;
        return Ok(());
    }
    let valid = reg.enc(root, &v);
    let mut bytes = valid.clone();
    for i in 0..6 {
        bytes = valid.clone();
        if i < 3 && ch.chance(2, 3) {
            // Something that's likely not to be valid whatever is there.
            if !bytes.is_empty() {
                let at = ch.n(bytes.len());
                bytes[at] = *ch.pick(&[0xff, 0xfe, 0x02, 0x80, 0x01, 0x03]);
            }
        } else {
            gen::corrupt(ch, &mut bytes);
        }
        match reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)) {
            Err(Rej::Budget) => return Err(Stop::Discard("too much work")),
            Err(_) => break,
            Ok(_) => (),
        }
    }
    if reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)).is_ok() {
        return Err(Stop::Discard("valid after all"));
    }
    cx.label(format!("to:{}", e.name));
    cx.key(&(e.name, &reg, root, &bytes));
    cx.sample(|| format!("{} as {} from {}{}", reg.show(root), e.name, hex(&bytes), e.decl()));
    let bad = locate(&reg, root, false, &bytes, &shape);
    let got = (e.decode)(&mut &*bytes, root, &Res::new(reg.clone()));
    let Err(err) = got else { fail!("{}: decoded {got:?} from invalid bytes", e.name) };
    let Some(bad) = bad else {
        cx.label("something else is wrong first, maybe");
        return Ok(());
    };
    cx.nontrivial = !bad.path.is_empty();
    let known = |k: &ErrorKind| matches!(k, ErrorKind::VisitorDecodeError(d) if vis::explains(&bad.why, d));
    ensure!(known(err.kind()), "{}: failed with {}, when what's wrong is {bad:?}", e.name, show_err(&err));
    // Derived targets skip over their fields before decoding them, and that doesn't say where it fails (a known
    // finding). Any other part of the way should be there.
    let n = bad.path.len();
    let Some(missing) = (0..=n - bad.seen).find(|m| path_matches(&bad.path[*m..], &err)) else {
        fail!("{}: failed with {}, when what's wrong is {bad:?}", e.name, show_err(&err))
    };
    cx.label(if missing > 0 { "location:up to what was skipped" } else { "location:full" });
    Ok(())
}
fn c16_malformed(ch: &mut Ch, cx: &mut Cx) -> R {
    malformed(ch, cx, es::all())
}
/// Where a derived target fails while skipping over a field isn't noted.
fn known_skipped() -> Option<String> {
    let e = es::wrappers().iter().find(|e| e.name == "One<Compact<u8>>")?;
    let mut reg = Reg::default();
    let u = reg.prim(P::U8);
    let root = reg.add(Def::Comp { path: vec![], fields: vec![F { name: Some("one".into()), ty: u }] });
    let err = (e.decode)(&mut &[][..], root, &Res::new(reg)).err()?;
    (!path_matches(&[Loc::Field("one".into())], &err)).then(|| {
        format!("One {{ one: Compact<u8> }} (derived) decoded from {{ one: u8 }} and no bytes fails with {}, not saying that it's in the field", show_err(&err))
    })
}
fn c20_std(ch: &mut Ch, cx: &mut Cx) -> R {
    own_codec(ch, cx, es::with_codec())
}

/// A map, decoded using its own type information.
fn known_map() -> Option<String> {
    let e = es::maps().iter().find(|e| e.name == "Map<u8>")?;
    let c = e.codec?;
    let (portable, root) = (c.own)();
    let bytes = [4u8, 4, b'a', 7];
    let want = (c.decode)(&bytes).ok()?.0;
    let got = (e.decode_p)(&mut &bytes[..], root as usize, &portable);
    (got.as_ref().ok() != Some(&want)).then(|| {
        format!("BTreeMap<String, u8> decoded from 0x04046107 using its own type information gives {got:?} rather than {want:?}")
    })
}

/// Something which isn't found inside of newtypes, in something whose type information is that of a newtype.
fn known_cow() -> Option<String> {
    let e = es::wrappers().iter().find(|e| e.name == "Cow<'static, (u8, u8)>")?;
    let c = e.codec?;
    let (portable, root) = (c.own)();
    let bytes = [1u8, 2];
    let want = (c.decode)(&bytes).ok()?.0;
    let got = (e.decode_p)(&mut &bytes[..], root as usize, &portable);
    (got.as_ref().ok() != Some(&want)).then(|| {
        format!("Cow<(u8, u8)> decoded from 0x0102 using its own type information gives {got:?} rather than {want:?}")
    })
}

// --- typed parts of others

fn typed_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    broken(ch, cx, es::all())
}
fn lists_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    let set = if ch.chance(1, 2) { es::lists() } else { es::arrays() };
    broken(ch, cx, set)
}
fn wrappers_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    broken(ch, cx, es::wrappers())
}
fn c19_hooks(ch: &mut Ch, cx: &mut Cx) -> R {
    hooked(ch, cx, es::all())
}
fn c13_partly(ch: &mut Ch, cx: &mut Cx) -> R {
    partly(ch, cx, es::direct())
}
fn c19_raw(ch: &mut Ch, cx: &mut Cx) -> R {
    raw(ch, cx, es::raws())
}
fn c21_typed(ch: &mut Ch, cx: &mut Cx) -> R {
    let e = ch.pick(es::all());
    cx.label(format!("to:{}", e.name));
    let bad_ty = *ch.pick(&[0, 0, 0, 40]);
    let (reg, root, v) = for_shape_with(ch, &(e.shape)(), bad_ty, 0);
    if gen::avoid_empty_seqs(&mut reg.clone(), root) > 0 {
        cx.excluded += 1;
        return Ok(());
    }
    let (bytes, declared) = vis::inflated(ch, &reg, root, &v);
    cx.key(&(e.name, &reg, root, &bytes));
    cx.nontrivial = declared > 0;
    cx.sample(|| format!("{} as {} from {} with a declared length of {declared}", reg.show(root), e.name, hex(&bytes)));
    if matches!(reg.dec(root, false, &mut &*bytes, &mut Budget::new(20_000, 1500)), Err(Rej::Budget)) {
        return Err(Stop::Discard("too much work"));
    }
    let types = Res::<Tid>::new(reg.clone());
    let (_, used) = measure(|| {
        let mut b = &*bytes;
        (e.run)(&mut b, root, &types)
    });
    // (There's as much as 8 bytes per bit of input for things like `Vec<()>`, and so on.)
    let limit = 65_536 + 2048 * bytes.len() as i64 + 256 * reg.reach(root).len() as i64 * 64;
    ensure!(used.peak <= limit, "{} from {} bytes needed {} bytes of memory (expected at most {limit})", e.name, bytes.len(), used.peak);
    ensure!(types.lookups.get() <= 2048 * (bytes.len() as u64 + 64), "{} from {} bytes needed {} type lookups", e.name, bytes.len(), types.lookups.get());
    Ok(())
}

/// Eight times as many items are eight times as much work.
fn c21_growth(ch: &mut Ch, cx: &mut Cx) -> R {
    let kind = ch.n(4);
    let e = match kind {
        0 | 1 => ch.pick(es::lists()),
        2 => ch.pick(es::maps()),
        _ => es::wrappers().iter().find(|e| e.name == "One<Compact<u8>>").unwrap(),
    };
    cx.label(format!("to:{}", e.name));
    let shape = match (e.shape)() {
        Shape::List(t) | Shape::Sorted(t, _) | Shape::Map(t) => *t,
        Shape::Struct(f) => f.all()[0].shape.clone(),
        _ => return Err(Stop::Discard("not a collection")),
    };
    let (reg, id, v) = for_shape(ch, &shape);
    if gen::avoid_empty_seqs(&mut reg.clone(), id) > 0 {
        cx.excluded += 1;
        return Ok(());
    }
    let size = gen::size(&v) + reg.enc(id, &v).len();
    if size > 200 {
        return Err(Stop::Discard("big items"));
    }
    let n = ch.range(4, 600 / (size + 4) + 5);
    let wrap = ch.chance(1, 4);
    let as_fields = ch.chance(1, 2);
    cx.key(&(e.name, &reg, id, &v, n, kind, wrap));
    cx.nontrivial = true;
    cx.sample(|| format!("{n} and 8 times as many of {} as {}, each {}", reg.show(id), e.name, hex(&reg.enc(id, &v))));
    let run = |n: usize| {
        let mut reg = reg.clone();
        let mut fields = vec![];
        let mut root = match kind {
            0 => reg.add(Def::Seq(id)),
            1 => reg.add(Def::Arr(id, n as u32)),
            _ => {
                fields = (0..n).map(|i| F { name: Some(format!("f{i}")), ty: id }).collect::<Vec<_>>();
                if kind == 3 {
                    fields[n / 2].name = Some("one".into());
                }
                reg.add(Def::Comp { path: vec![], fields: fields.clone() })
            }
        };
        let bytes = reg.enc(root, &V::List(vec![v.clone(); n]));
        if wrap && kind < 2 {
            root = reg.add(Def::Tup(vec![root]));
        }
        let types = Res::<Tid>::new(reg);
        let fields: Vec<(Option<String>, usize)> = fields.into_iter().map(|f| (f.name, f.ty)).collect();
        let (ok, used) = measure(|| match e.fields {
            Some(f) if kind >= 2 && as_fields => f(&mut &*bytes, &fields, &types).is_ok(),
            _ => (e.run)(&mut &*bytes, root, &types),
        });
        (ok, types.lookups.get(), used.total)
    };
    let (ok, few, little) = run(n);
    let (ok8, many, much) = run(8 * n);
    cx.label(if ok { "fits" } else { "doesn't" });
    ensure!(ok == ok8, "decodes {n} items? {ok}; and 8 times as many? {ok8}");
    if ok {
        ensure!(many <= 8 * few + 64, "{}: {n} items needed {few} type lookups, and 8 times as many {many}", e.name);
        ensure!(much <= 16 * little + 32_768, "{}: {n} items needed {little} bytes to be allocated, and 8 times as many {much}", e.name);
    }
    Ok(())
}

const RULE: &str = "A target type from a fixed set, a random source type which more or less suits it (numbers of other widths, compact, more or fewer layers, fields by name and position, extra and missing ones), and a random value of that. Non-trivial: the source isn't a bare primitive and the value has at least one byte. Distinct: by target, source type and value. ";

macro_rules! rule {
    ($($t:literal)*) => { concat!($($t),*) };
}

pub fn props() -> Vec<Prop> {
    let mut out = vec![
        Prop {
            id: "C05",
            rule: rule!("'pairs': every number type as every other one, with values at and around the limits of both (all non-trivial). 'any': sources which mostly suit a number. 'other': any source at all, as numbers and other scalars. Non-trivial for those: the source isn't a bare primitive and the value has at least one byte. Distinct: by target, source type and value."),
            parts: &[
                Part { name: "pairs", quick: 8_000_000, thorough: 160_000_000, run: c05_pairs },
                Part { name: "any", quick: 2_000_000, thorough: 40_000_000, run: c05_any },
                Part { name: "other", quick: 2_000_000, thorough: 40_000_000, run: c05_other },
            ],
            known: &[],
        },
        Prop {
            id: "C06",
            rule: rule!("'wrap': a random source for some target, on its own and again inside of 1 to 100 single-field tuples and composites; non-trivial if the value has bytes. 'not_one': as above with other numbers of fields. Distinct: by target, source type and value."),
            parts: &[
                Part { name: "wrap", quick: 2_800_000, thorough: 56_000_000, run: c06_wrap },
                Part { name: "not_one", quick: 1_400_000, thorough: 28_000_000, run: c06_not_one },
            ],
            known: &[],
        },
        Prop {
            id: "C07",
            rule: rule!("A collection type from a fixed set and a random source which more or less suits it; 'lengths': sequences and arrays of all sorts of lengths, on and around what's wanted; 'broken': with bytes broken. Non-trivial: not a bare primitive and the value has at least one byte (for 'lengths', item). Distinct: by target, source type and value."),
            parts: &[
                Part { name: "lists", quick: 1_200_000, thorough: 24_000_000, run: c07_lists },
                Part { name: "arrays", quick: 1_200_000, thorough: 24_000_000, run: c07_arrays },
                Part { name: "lengths", quick: 800_000, thorough: 16_000_000, run: c07_lengths },
                Part { name: "broken", quick: 800_000, thorough: 16_000_000, run: lists_broken },
            ],
            known: &[],
        },
        Prop {
            id: "C11",
            rule: RULE,
            parts: &[
                Part { name: "wrappers", quick: 4_000_000, thorough: 80_000_000, run: c11_wrappers },
                Part { name: "same", quick: 3_000_000, thorough: 60_000_000, run: c11_same },
                Part { name: "durations", quick: 800_000, thorough: 16_000_000, run: c11_durations },
                Part { name: "broken", quick: 1_200_000, thorough: 24_000_000, run: wrappers_broken },
            ],
            known: &[],
        },
        Prop {
            id: "C16",
            rule: rule!("A target type from a fixed set, and a random source type and value some parts of which don't suit it. Non-trivial: they don't. 'inside': a target some part of which fails by itself; non-trivial if it's not the whole. 'context': places noted one by one; non-trivial if there are at least two. 'malformed': bytes which aren't valid; non-trivial if what's wrong is inside of something. Distinct: by target, source type and value, or by places."),
            parts: &[
                Part { name: "std", quick: 1_500_000, thorough: 30_000_000, run: c16_faulty },
                Part { name: "inside", quick: 300_000, thorough: 6_000_000, run: crate::bomb::c16_targets },
                Part { name: "context", quick: 200_000, thorough: 4_000_000, run: c16_context },
                Part { name: "malformed", quick: 600_000, thorough: 12_000_000, run: c16_malformed },
            ],
            known: &[("skipped-unlocated", known_skipped)],
        },
        Prop {
            id: "C20",
            rule: rule!("A type which can be decoded statically, its own type information, and bytes which are a random value of it or are broken. Non-trivial: more than one byte. Distinct: by type and bytes."),
            parts: &[Part { name: "std", quick: 1_500_000, thorough: 30_000_000, run: c20_std }],
            known: &[("map-own-type", known_map), ("cow-own-type", known_cow)],
        },
    ];
    let extend = |id: &str, extra: &[Part]| {
        let mut p = *vis::PROPS.iter().find(|p| p.id == id).unwrap();
        p.parts = Box::leak([p.parts, extra].concat().into_boxed_slice());
        p
    };
    out.push(extend("C02", &[Part { name: "typed", quick: 500_000, thorough: 10_000_000, run: typed_broken }]));
    out.push(extend("C13", &[Part { name: "targets", quick: 600_000, thorough: 12_000_000, run: c13_partly }]));
    out.push(extend("C15", &[Part { name: "targets", quick: 600_000, thorough: 12_000_000, run: crate::bomb::c15_targets }]));
    out.push(extend("C19", &[Part { name: "targets", quick: 900_000, thorough: 18_000_000, run: c19_raw }, Part { name: "target hooks", quick: 300_000, thorough: 6_000_000, run: c19_hooks }]));
    out.push(extend("C21", &[Part { name: "typed", quick: 180_000, thorough: 3_600_000, run: c21_typed }, Part { name: "targets", quick: 40_000, thorough: 800_000, run: c21_growth }, Part { name: "nested", quick: 20_000, thorough: 400_000, run: crate::nested::c21_nested }]));
    out
}
/// Those of this crate, and those of others which it doesn't replace.
pub fn all() -> Vec<Prop> {
    let mut out = props();
    for p in &vis::PROPS {
        if out.iter().all(|q| q.id != p.id) {
            out.push(*p);
        }
    }
    out
}
pub fn main() -> i32 {
    if vis::demos() {
        return 0;
    }
    run_main(Box::leak(props().into_boxed_slice()))
}
