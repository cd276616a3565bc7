//! Types, values, and a reference encoder and decoder.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Int {
    pub neg: bool,
    pub mag: u128,
}
impl Int {
    pub fn u(n: u128) -> Int {
        Int { neg: false, mag: n }
    }
    pub fn i(n: i128) -> Int {
        Int { neg: n < 0, mag: n.unsigned_abs() }
    }
    /// The low bits, in two's complement.
    pub fn bits(self) -> u128 {
        if self.neg {
            self.mag.wrapping_neg()
        } else {
            self.mag
        }
    }
    pub fn from_bits(b: u128, w: u32, signed: bool) -> Int {
        if signed && (b >> (w - 1)) & 1 == 1 {
            let ext = if w == 128 { b } else { b | (u128::MAX << w) };
            Int { neg: true, mag: ext.wrapping_neg() }
        } else {
            Int::u(b)
        }
    }
    pub fn fits(self, w: u32, signed: bool) -> bool {
        if signed {
            let lim = 1u128 << (w - 1);
            if self.neg {
                self.mag <= lim
            } else {
                self.mag < lim
            }
        } else {
            !self.neg && (w == 128 || self.mag < (1u128 << w))
        }
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.neg {
            write!(f, "-{}", self.mag)
        } else {
            write!(f, "{}", self.mag)
        }
    }
}
impl fmt::Debug for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self}")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum P {
    Bool,
    Char,
    Str,
    U8,
    U16,
    U32,
    U64,
    U128,
    U256,
    I8,
    I16,
    I32,
    I64,
    I128,
    I256,
}
pub const UINTS: [P; 5] = [P::U8, P::U16, P::U32, P::U64, P::U128];
pub const INTS: [P; 10] = [P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128];
pub const PRIMS: [P; 15] = [
    P::U8, P::Bool, P::Char, P::Str, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256,
];
impl P {
    /// width and signedness for the numbers up to 128 bits.
    pub fn int(self) -> Option<(u32, bool)> {
        Some(match self {
            P::U8 => (8, false),
            P::U16 => (16, false),
            P::U32 => (32, false),
            P::U64 => (64, false),
            P::U128 => (128, false),
            P::I8 => (8, true),
            P::I16 => (16, true),
            P::I32 => (32, true),
            P::I64 => (64, true),
            P::I128 => (128, true),
            _ => return None,
        })
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct F {
    pub name: Option<String>,
    pub ty: usize,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Vr {
    pub name: String,
    pub index: u8,
    pub fields: Vec<F>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Store {
    U8,
    U16,
    U32,
    U64,
}
impl Store {
    pub fn bytes(self) -> usize {
        match self {
            Store::U8 => 1,
            Store::U16 => 2,
            Store::U32 => 4,
            Store::U64 => 8,
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Def {
    Prim(P),
    Compact(usize),
    Seq(usize),
    Arr(usize, u32),
    Tup(Vec<usize>),
    Comp { path: Vec<String>, fields: Vec<F> },
    Var { path: Vec<String>, variants: Vec<Vr> },
    Bits(Store, bool /* msb first */),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Reg {
    pub defs: Vec<Def>,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Bool(bool),
    Char(char),
    Str(Vec<u8>),
    Int(Int),
    Big([u8; 32]),
    /// sequences, arrays, tuples and composites.
    List(Vec<V>),
    /// index into the variants (not the encoded one) and the fields.
    Var(usize, Vec<V>),
    Bits(Vec<bool>),
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Bool(b) => write!(f, "{b}"),
            V::Char(c) => write!(f, "{c:?}"),
            V::Str(s) => write!(f, "{:?}", String::from_utf8_lossy(s)),
            V::Int(i) => write!(f, "{i}"),
            V::Big(b) => write!(f, "big:{b:?}"),
            V::List(v) => f.debug_list().entries(v).finish(),
            V::Var(i, v) => {
                write!(f, "v{i}")?;
                f.debug_list().entries(v).finish()
            }
            V::Bits(b) => {
                write!(f, "bits:")?;
                for b in b {
                    write!(f, "{}", *b as u8)?
                }
                Ok(())
            }
        }
    }
}

pub fn compact_enc(n: u128, out: &mut Vec<u8>) {
    if n < 1 << 6 {
        out.push((n as u8) << 2);
    } else if n < 1 << 14 {
        out.extend_from_slice(&(((n as u16) << 2) | 1).to_le_bytes());
    } else if n < 1 << 30 {
        out.extend_from_slice(&(((n as u32) << 2) | 2).to_le_bytes());
    } else {
        let bytes = n.to_le_bytes();
        let mut len = 16;
        while len > 4 && bytes[len - 1] == 0 {
            len -= 1;
        }
        out.push((((len - 4) as u8) << 2) | 3);
        out.extend_from_slice(&bytes[..len]);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rej {
    Eof,
    /// Something the primitive decoder doesn't accept (bool byte, non canonical or oversized compact).
    Codec,
    BadChar(u32),
    NoVariant(u8),
    CompactBad,
    NotFound(usize),
    /// The reference decoder gave up; says nothing about the bytes.
    Budget,
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], Rej> {
    if b.len() < n {
        return Err(Rej::Eof);
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Ok(x)
}
fn le(b: &[u8]) -> u128 {
    b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128)
}
/// Decode a canonical compact number which fits in `w` bits.
pub fn compact_dec(b: &mut &[u8], w: u32) -> Result<u128, Rej> {
    let start = *b;
    let first = *b.first().ok_or(Rej::Eof)?;
    let n = match first & 3 {
        0 => {
            take(b, 1)?;
            (first >> 2) as u128
        }
        1 => le(take(b, 2)?) >> 2,
        2 => le(take(b, 4)?) >> 2,
        _ => {
            let len = (first >> 2) as usize + 4;
            if len > (w as usize / 8).max(4) {
                return Err(Rej::Codec);
            }
            take(b, 1)?;
            le(take(b, len)?)
        }
    };
    let mut re = vec![];
    compact_enc(n, &mut re);
    if re != start[..start.len() - b.len()] || (w < 128 && n >> w != 0) {
        return Err(Rej::Codec);
    }
    Ok(n)
}

pub struct Budget {
    pub steps: u64,
    pub depth: u32,
    pub max_depth: u32,
    /// This type doesn't exist.
    pub missing: Option<usize>,
    /// How deep did it get?
    pub deepest: u32,
}
impl Budget {
    pub fn new(steps: u64, max_depth: u32) -> Budget {
        Budget { steps, depth: 0, max_depth, missing: None, deepest: 0 }
    }
}

impl Reg {
    pub fn add(&mut self, d: Def) -> usize {
        self.defs.push(d);
        self.defs.len() - 1
    }
    pub fn prim(&mut self, p: P) -> usize {
        if let Some(i) = self.defs.iter().position(|d| *d == Def::Prim(p)) {
            return i;
        }
        self.add(Def::Prim(p))
    }
    /// The type that a visitor ends up seeing given this one (ie with any compact wrapper removed).
    pub fn strip(&self, mut id: usize) -> usize {
        let mut n = 0;
        while let Def::Compact(i) = &self.defs[id] {
            id = *i;
            n += 1;
            if n > 1000 {
                break;
            }
        }
        id
    }
    pub fn enc(&self, id: usize, v: &V) -> Vec<u8> {
        let mut o = vec![];
        self.enc_to(id, v, false, &mut o);
        o
    }
    pub fn enc_c(&self, id: usize, v: &V, compact: bool) -> Vec<u8> {
        let mut o = vec![];
        self.enc_to(id, v, compact, &mut o);
        o
    }
    pub fn enc_to(&self, id: usize, v: &V, compact: bool, out: &mut Vec<u8>) {
        self.enc_with(id, v, compact, out, &mut |_, _, _, _| false)
    }
    /// Encode, except that the function given sees every value first, and can write something
    /// instead (giving back true) or ahead of (giving back false) its usual encoding.
    pub fn enc_with(&self, id: usize, v: &V, compact: bool, out: &mut Vec<u8>, h: &mut dyn FnMut(usize, &V, bool, &mut Vec<u8>) -> bool) {
        if h(id, v, compact, out) {
            return;
        }
        match (&self.defs[id], v) {
            (Def::Compact(i), v) => self.enc_with(*i, v, true, out, h),
            (Def::Prim(P::Bool), V::Bool(b)) => out.push(*b as u8),
            (Def::Prim(P::Char), V::Char(c)) => out.extend_from_slice(&(*c as u32).to_le_bytes()),
            (Def::Prim(P::Str), V::Str(s)) => {
                compact_enc(s.len() as u128, out);
                out.extend_from_slice(s);
            }
            (Def::Prim(P::U256 | P::I256), V::Big(b)) => out.extend_from_slice(b),
            (Def::Prim(p), V::Int(i)) => {
                let (w, _) = p.int().unwrap();
                if compact {
                    compact_enc(i.mag, out);
                } else {
                    out.extend_from_slice(&i.bits().to_le_bytes()[..w as usize / 8]);
                }
            }
            (Def::Seq(i), V::List(l)) => {
                compact_enc(l.len() as u128, out);
                for x in l {
                    self.enc_with(*i, x, false, out, h);
                }
            }
            (Def::Arr(i, n), V::List(l)) => {
                assert_eq!(*n as usize, l.len());
                for x in l {
                    self.enc_with(*i, x, false, out, h);
                }
            }
            (Def::Tup(ids), V::List(l)) => {
                assert_eq!(ids.len(), l.len());
                for (i, x) in ids.iter().zip(l) {
                    self.enc_with(*i, x, compact, out, h);
                }
            }
            (Def::Comp { fields, .. }, V::List(l)) => {
                assert_eq!(fields.len(), l.len());
                for (f, x) in fields.iter().zip(l) {
                    self.enc_with(f.ty, x, compact, out, h);
                }
            }
            (Def::Var { variants, .. }, V::Var(i, l)) => {
                let vr = &variants[*i];
                out.push(vr.index);
                assert_eq!(vr.fields.len(), l.len());
                for (f, x) in vr.fields.iter().zip(l) {
                    self.enc_with(f.ty, x, false, out, h);
                }
            }
            (Def::Bits(store, msb), V::Bits(b)) => {
                compact_enc(b.len() as u128, out);
                let sb = store.bytes();
                for chunk in b.chunks(sb * 8) {
                    let mut x: u64 = 0;
                    for (i, b) in chunk.iter().enumerate() {
                        let at = if *msb { sb * 8 - 1 - i } else { i };
                        x |= (*b as u64) << at;
                    }
                    out.extend_from_slice(&x.to_le_bytes()[..sb]);
                }
            }
            (d, v) => panic!("harness: value {v:?} isn't of type {d:?}"),
        }
    }
    /// Decode a value, moving the bytes along past it.
    pub fn dec(&self, id: usize, compact: bool, b: &mut &[u8], bud: &mut Budget) -> Result<V, Rej> {
        if bud.steps == 0 || bud.depth > bud.max_depth {
            return Err(Rej::Budget);
        }
        if bud.missing == Some(id) {
            return Err(Rej::NotFound(id));
        }
        bud.steps -= 1;
        bud.depth += 1;
        bud.deepest = bud.deepest.max(bud.depth);
        let r = self.dec_inner(id, compact, b, bud);
        bud.depth -= 1;
        r
    }
    fn dec_inner(&self, id: usize, compact: bool, b: &mut &[u8], bud: &mut Budget) -> Result<V, Rej> {
        let Some(def) = self.defs.get(id) else { return Err(Rej::NotFound(id)) };
        let no_compact = |c: bool| if c { Err(Rej::CompactBad) } else { Ok(()) };
        Ok(match def {
            Def::Compact(i) => self.dec(*i, true, b, bud)?,
            Def::Prim(p) => match p {
                P::Bool => {
                    no_compact(compact)?;
                    match take(b, 1)?[0] {
                        0 => V::Bool(false),
                        1 => V::Bool(true),
                        _ => return Err(Rej::Codec),
                    }
                }
                P::Char => {
                    no_compact(compact)?;
                    let n = le(take(b, 4)?) as u32;
                    V::Char(char::from_u32(n).ok_or(Rej::BadChar(n))?)
                }
                P::Str => {
                    no_compact(compact)?;
                    let n = compact_dec(b, 32)? as usize;
                    V::Str(take(b, n)?.to_vec())
                }
                P::U256 | P::I256 => {
                    no_compact(compact)?;
                    V::Big(take(b, 32)?.try_into().unwrap())
                }
                p => {
                    let (w, signed) = p.int().unwrap();
                    if compact {
                        if signed {
                            return Err(Rej::CompactBad);
                        }
                        V::Int(Int::u(compact_dec(b, w)?))
                    } else {
                        V::Int(Int::from_bits(le(take(b, w as usize / 8)?), w, signed))
                    }
                }
            },
            Def::Seq(i) => {
                no_compact(compact)?;
                let n = usize::try_from(compact_dec(b, 64)?).map_err(|_| Rej::Eof)?;
                self.items(std::iter::repeat_n(*i, n), false, b, bud)?
            }
            Def::Arr(i, n) => {
                no_compact(compact)?;
                self.items(std::iter::repeat_n(*i, *n as usize), false, b, bud)?
            }
            Def::Tup(ids) => {
                if ids.len() != 1 {
                    no_compact(compact)?;
                }
                self.items(ids.iter().copied(), compact, b, bud)?
            }
            Def::Comp { fields, .. } => {
                if fields.len() != 1 {
                    no_compact(compact)?;
                }
                self.items(fields.iter().map(|f| f.ty), compact, b, bud)?
            }
            Def::Var { variants, .. } => {
                no_compact(compact)?;
                let ix = take(b, 1)?[0];
                let at = variants.iter().position(|v| v.index == ix).ok_or(Rej::NoVariant(ix))?;
                let V::List(l) = self.items(variants[at].fields.iter().map(|f| f.ty), false, b, bud)? else { unreachable!() };
                V::Var(at, l)
            }
            Def::Bits(store, msb) => {
                no_compact(compact)?;
                let n = compact_dec(b, 32)? as usize;
                let sb = store.bytes();
                let bytes = take(b, n.div_ceil(sb * 8) * sb)?;
                let mut bits = Vec::with_capacity(n);
                for i in 0..n {
                    let chunk = &bytes[i / (sb * 8) * sb..][..sb];
                    let x = le(chunk) as u64;
                    let at = i % (sb * 8);
                    let at = if *msb { sb * 8 - 1 - at } else { at };
                    bits.push((x >> at) & 1 == 1);
                }
                V::Bits(bits)
            }
        })
    }
    fn items(&self, ids: impl Iterator<Item = usize>, compact: bool, b: &mut &[u8], bud: &mut Budget) -> Result<V, Rej> {
        let mut l = vec![];
        for i in ids {
            l.push(self.dec(i, compact, b, bud)?);
        }
        Ok(V::List(l))
    }

    /// The depth of the smallest value of each type; None if it has no finite values.
    pub fn heights(&self) -> Vec<Option<u32>> {
        let n = self.defs.len();
        let mut h: Vec<Option<u32>> = vec![None; n];
        loop {
            let mut changed = false;
            for i in 0..n {
                if h[i].is_some() {
                    continue;
                }
                let max = |it: &mut dyn Iterator<Item = usize>| it.map(|x| h[x]).try_fold(0, |a, x| x.map(|x| a.max(x)));
                let r = match &self.defs[i] {
                    Def::Prim(_) | Def::Bits(..) | Def::Seq(_) => Some(0),
                    Def::Compact(t) => h[*t],
                    Def::Arr(t, n) => {
                        if *n == 0 {
                            Some(0)
                        } else {
                            h[*t]
                        }
                    }
                    Def::Tup(ts) => max(&mut ts.iter().copied()),
                    Def::Comp { fields, .. } => max(&mut fields.iter().map(|f| f.ty)),
                    Def::Var { variants, .. } => variants.iter().filter_map(|v| max(&mut v.fields.iter().map(|f| f.ty))).min(),
                };
                if let Some(r) = r {
                    h[i] = Some(r + 1);
                    changed = true;
                }
            }
            if !changed {
                return h;
            }
        }
    }
    /// Do any values of this type encode to no bytes at all?
    pub fn can_be_empty(&self, id: usize) -> bool {
        fn go(r: &Reg, id: usize, seen: &mut Vec<usize>) -> bool {
            if seen.contains(&id) {
                return true;
            }
            seen.push(id);
            let res = match &r.defs[id] {
                Def::Prim(_) | Def::Bits(..) | Def::Seq(_) | Def::Var { .. } => false,
                Def::Compact(t) => go(r, *t, seen),
                Def::Arr(t, n) => *n == 0 || go(r, *t, seen),
                Def::Tup(ts) => ts.iter().all(|t| go(r, *t, seen)),
                Def::Comp { fields, .. } => fields.iter().all(|f| go(r, f.ty, seen)),
            };
            seen.pop();
            res
        }
        go(self, id, &mut vec![])
    }
    /// Types reachable from this one.
    pub fn reach(&self, id: usize) -> Vec<usize> {
        let mut seen = vec![];
        let mut todo = vec![id];
        while let Some(i) = todo.pop() {
            if seen.contains(&i) || i >= self.defs.len() {
                continue;
            }
            seen.push(i);
            match &self.defs[i] {
                Def::Prim(_) | Def::Bits(..) => {}
                Def::Compact(t) | Def::Seq(t) | Def::Arr(t, _) => todo.push(*t),
                Def::Tup(ts) => todo.extend(ts),
                Def::Comp { fields, .. } => todo.extend(fields.iter().map(|f| f.ty)),
                Def::Var { variants, .. } => todo.extend(variants.iter().flat_map(|v| v.fields.iter().map(|f| f.ty))),
            }
        }
        seen
    }
    /// Describe a type.
    pub fn show(&self, id: usize) -> String {
        fn fs(r: &Reg, fields: &[F], d: usize, o: &mut String) {
            for (i, f) in fields.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                if let Some(n) = &f.name {
                    o.push_str(n);
                    o.push(':');
                }
                go(r, f.ty, d + 1, o);
            }
        }
        fn go(r: &Reg, id: usize, d: usize, o: &mut String) {
            if d > 8 || o.len() > 1500 {
                o.push_str(&format!("#{id}"));
                return;
            }
            let Some(def) = r.defs.get(id) else {
                o.push_str(&format!("#{id}?"));
                return;
            };
            match def {
                Def::Prim(p) => o.push_str(&format!("{p:?}").to_lowercase()),
                Def::Compact(i) => {
                    o.push_str("Compact<");
                    go(r, *i, d + 1, o);
                    o.push('>');
                }
                Def::Seq(i) => {
                    o.push_str("Vec<");
                    go(r, *i, d + 1, o);
                    o.push('>');
                }
                Def::Arr(i, n) => {
                    o.push('[');
                    go(r, *i, d + 1, o);
                    o.push_str(&format!(";{n}]"));
                }
                Def::Tup(ids) => {
                    o.push('(');
                    for (i, t) in ids.iter().enumerate() {
                        if i > 0 {
                            o.push(',')
                        }
                        go(r, *t, d + 1, o);
                    }
                    o.push(')');
                }
                Def::Comp { path, fields } => {
                    o.push_str(&path.join("::"));
                    o.push('{');
                    fs(r, fields, d, o);
                    o.push('}');
                }
                Def::Var { variants, .. } => {
                    o.push_str("enum{");
                    for v in variants {
                        o.push_str(&format!("{}={}(", v.name, v.index));
                        fs(r, &v.fields, d, o);
                        o.push_str(") ");
                    }
                    o.push('}');
                }
                Def::Bits(s, m) => o.push_str(&format!("Bits<{s:?},{}>", if *m { "Msb0" } else { "Lsb0" })),
            }
        }
        let mut o = String::new();
        go(self, id, 0, &mut o);
        o
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b.iter().take(80) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
