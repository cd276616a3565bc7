//! Generators of types, values and bytes.
use crate::engine::*;
use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    Small,
    /// some container has lots of fields
    Wide,
    /// some list is long
    Long,
    /// types nest deeply
    Deep,
}
pub fn profile(ch: &mut Ch) -> Profile {
    [Profile::Small, Profile::Wide, Profile::Deep, Profile::Long][ch.weighted(&[40, 6, 4, 3])]
}

pub const NAMES: [&str; 18] = [
    "a", "b", "foo", "bar", "value", "c", "inner", "d", "é", "some_long_field_name", "r#type", "", "Foo", "0", "1", "start", "end", "_phantom",
];
pub const VNAMES: [&str; 12] = ["A", "B", "Some", "None", "Ok", "Err", "Foo", "Bar", "a", "", "Ünï", "Variant"];

/// Names that mean something elsewhere. Here they're just names.
pub const KNOWN: [&str; 28] = [
    "PhantomData", "Option", "Result", "Box", "Compact", "Vec", "BTreeMap", "BTreeSet", "String", "Cow", "Range", "RangeInclusive",
    "Duration", "BitVec", "DecodedBits", "NonZeroU8", "H256", "u8", "bool", "str", "Phantom", "BoundedVec", "WeakBoundedVec",
    "BTreeSetWrapper", "Arc", "AccountId32", "Lsb0", "U256",
];
/// The path of some type
pub fn path(ch: &mut Ch) -> Vec<String> {
    let n = match ch.weighted(&[1, 4, 2, 1, 1, 1, 1, 1, 1]) {
        // (More than anything has room for without allocating.)
        8 => 8 + ch.n(20),
        n => n,
    };
    let mut p: Vec<String> = (0..n).map(|i| if ch.chance(1, 4) { format!("m{i}") } else { NAMES[ch.n(5)].to_string() }).collect();
    if ch.chance(1, 4) {
        p.push(ch.pick(&KNOWN).to_string());
    }
    p
}

/// A name that's not yet in use.
fn fresh<'a>(ch: &mut Ch, pool: &[&str], used: impl Fn(&str) -> bool) -> String {
    let mut n = pool[ch.n(pool.len())].to_string();
    while used(&n) {
        n.push('x');
    }
    n
}

pub struct TypeGen {
    pub reg: Reg,
    pub profile: Profile,
    pub budget: usize,
    open: Vec<usize>,
    done: Vec<usize>,
    pub special_used: bool,
    big_used: bool,
}

impl TypeGen {
    pub fn new(profile: Profile, budget: usize) -> TypeGen {
        TypeGen { reg: Reg::default(), profile, budget, open: vec![], done: vec![], special_used: false, big_used: false }
    }
    fn width(&mut self, ch: &mut Ch, max_normal: usize) -> usize {
        if self.profile == Profile::Wide && !self.special_used && ch.chance(1, 2) {
            self.special_used = true;
            if ch.chance(1, 6) {
                // (More than there are bytes, which nothing minds.)
                return *ch.pick(&[257, 255, 256, 300]);
            }
            let ws: [usize; 8] = [16, 17, 15, 18, 24, 20, 33, 40];
            return ws[ch.n(8)];
        }
        ch.weighted(&[2, 4, 4, 3, 2, 1]).min(max_normal)
    }
    pub fn fields(&mut self, ch: &mut Ch, depth: usize, n: usize) -> Vec<F> {
        let mode = ch.weighted(&[6, 4, 1]);
        let mut fs: Vec<F> = vec![];
        for _ in 0..n {
            let named = match mode {
                0 => true,
                1 => false,
                _ => ch.chance(1, 2),
            };
            let name = named.then(|| if n > 60 { format!("f{}", fs.len()) } else { fresh(ch, &NAMES, |x| fs.iter().any(|f| f.name.as_deref() == Some(x))) });
            let ty = self.ty(ch, depth + 1);
            fs.push(F { name, ty });
        }
        fs
    }
    pub fn path(&mut self, ch: &mut Ch) -> Vec<String> {
        path(ch)
    }
    pub fn prim(&mut self, ch: &mut Ch) -> usize {
        let p = PRIMS[ch.weighted(&[6, 3, 2, 4, 2, 3, 2, 2, 2, 2, 1, 1, 1, 1, 2])];
        self.reg.prim(p)
    }
    /// Something which can be compact encoded.
    pub fn compactable(&mut self, ch: &mut Ch, depth: usize) -> usize {
        let k = if depth > 14 { 0 } else { ch.weighted(&[6, 2, 2, 1]) };
        match k {
            0 => {
                let p = *ch.pick(&UINTS);
                self.reg.prim(p)
            }
            1 => {
                let i = self.compactable(ch, depth + 1);
                let path = self.path(ch);
                let name = ch.chance(1, 2).then(|| NAMES[ch.n(NAMES.len())].to_string());
                self.reg.add(Def::Comp { path, fields: vec![F { name, ty: i }] })
            }
            2 => {
                let i = self.compactable(ch, depth + 1);
                self.reg.add(Def::Tup(vec![i]))
            }
            _ => {
                let i = self.compactable(ch, depth + 1);
                self.reg.add(Def::Compact(i))
            }
        }
    }
    pub fn ty(&mut self, ch: &mut Ch, depth: usize) -> usize {
        let max_depth = if self.profile == Profile::Deep { 24 } else { 5 };
        if self.budget == 0 || depth >= max_depth {
            return self.prim(ch);
        }
        self.budget -= 1;
        // 0 prim, 1 seq, 2 arr, 3 tup, 4 comp, 5 var, 6 bits, 7 compact, 8 reuse, 9 recurse
        let ws: [u64; 10] = match self.profile {
            Profile::Deep => [1, 4, 3, 4, 6, 4, 0, 0, 0, 1],
            _ if depth == 0 => [2, 4, 3, 4, 7, 5, 1, 2, 0, 0],
            _ => [14, 4, 3, 4, 6, 5, 2, 3, 3, 1],
        };
        match ch.weighted(&ws) {
            0 => self.prim(ch),
            8 if !self.done.is_empty() => self.done[ch.n(self.done.len())],
            9 if !self.open.is_empty() => self.open[ch.n(self.open.len())],
            6 => {
                let s = *ch.pick(&[Store::U8, Store::U16, Store::U32, Store::U64]);
                let m = ch.chance(1, 2);
                let i = self.reg.add(Def::Bits(s, m));
                self.done.push(i);
                i
            }
            7 => {
                let i = self.compactable(ch, depth + 1);
                let i = self.reg.add(Def::Compact(i));
                self.done.push(i);
                i
            }
            k => {
                let slot = self.reg.add(Def::Tup(vec![]));
                self.open.push(slot);
                let def = match k {
                    1 => Def::Seq(self.ty(ch, depth + 1)),
                    2 => {
                        let i = self.ty(ch, depth + 1);
                        let n = match ch.weighted(&[2, 3, 3, 2, 1, 1]) {
                            5 if !self.big_used => {
                                self.big_used = true;
                                *ch.pick(&[5, 8, 16, 17, 32, 33])
                            }
                            x => x.min(4),
                        };
                        Def::Arr(i, n as u32)
                    }
                    3 => {
                        let n = self.width(ch, 5);
                        Def::Tup((0..n).map(|_| self.ty(ch, depth + 1)).collect())
                    }
                    5 => {
                        let n = if self.profile == Profile::Wide && !self.special_used && ch.chance(1, 3) {
                            self.special_used = true;
                            *ch.pick(&[40, 255, 256])
                        } else {
                            [1, 2, 3, 4, 0][ch.weighted(&[4, 6, 4, 2, 1])]
                        };
                        let path = self.path(ch);
                        let mut vs: Vec<Vr> = vec![];
                        for i in 0..n {
                            let name = if n > 30 { format!("V{i}") } else { fresh(ch, &VNAMES, |x| vs.iter().any(|v| v.name == x)) };
                            let mut index = match ch.weighted(&[4, 2, 1]) {
                                0 => i as u8,
                                1 => ch.below(256) as u8,
                                _ => *ch.pick(&[255u8, 254, 128, 0]),
                            };
                            while vs.iter().any(|v| v.index == index) {
                                index = index.wrapping_add(1);
                            }
                            let nf = if n > 30 { ch.weighted(&[30, 1]) } else { self.width(ch, 4).saturating_sub(1) };
                            let fields = self.fields(ch, depth, nf);
                            vs.push(Vr { name, index, fields });
                        }
                        Def::Var { path, variants: vs }
                    }
                    _ => {
                        let n = self.width(ch, 5);
                        let path = self.path(ch);
                        let fields = self.fields(ch, depth, n);
                        Def::Comp { path, fields }
                    }
                };
                self.open.pop();
                self.reg.defs[slot] = def;
                self.done.push(slot);
                slot
            }
        }
    }
    /// Make sure that the type given, and everything it refers to, has values (bar some empty variants).
    pub fn finish(mut self, root: usize) -> (Reg, usize) {
        loop {
            let h = self.reg.heights();
            let reach = self.reg.reach(root);
            let bad = reach.into_iter().find(|i| h[*i].is_none() && (*i == root || !matches!(&self.reg.defs[*i], Def::Var { variants, .. } if variants.is_empty())));
            match bad {
                None => return (self.reg, root),
                Some(b) => {
                    // Types which need one of these to exist are fixed by giving the variant a value.
                    if let Some(e) = self.reg.reach(b).into_iter().find(|i| matches!(&self.reg.defs[*i], Def::Var { variants, .. } if variants.is_empty())) {
                        let d = Def::Var { path: vec![], variants: vec![Vr { name: "A".into(), index: 3, fields: vec![] }] };
                        self.reg.defs[e] = d;
                    } else {
                        self.reg.defs[b] = Def::Tup(vec![]);
                    }
                }
            }
        }
    }
}

/// Some registry, the type of interest in it, and what sort of thing it is.
pub fn any_type(ch: &mut Ch) -> (Reg, usize, Profile) {
    let p = profile(ch);
    let budget = match p {
        Profile::Small => 1 + ch.n(14),
        Profile::Wide => 30,
        Profile::Long => 6,
        Profile::Deep => 30,
    };
    let mut g = TypeGen::new(p, budget);
    let root = if p == Profile::Deep && ch.chance(1, 2) {
        // just a chain.
        let n = ch.range(1, 40);
        let mut i = g.prim(ch);
        for _ in 0..n {
            let d = match ch.n(6) {
                0 => Def::Comp { path: vec![], fields: vec![F { name: Some("a".into()), ty: i }] },
                1 => Def::Comp { path: path(ch), fields: vec![F { name: None, ty: i }] },
                2 => Def::Tup(vec![i]),
                3 => Def::Seq(i),
                4 => Def::Arr(i, 1),
                _ => Def::Var { path: vec![], variants: vec![Vr { name: "Some".into(), index: 1, fields: vec![F { name: None, ty: i }] }] },
            };
            i = g.reg.add(d);
        }
        i
    } else {
        g.ty(ch, 0)
    };
    let (reg, root) = g.finish(root);
    (reg, root, p)
}

/// A number biased to interesting places.
pub fn int(ch: &mut Ch, w: u32, signed: bool) -> Int {
    let max_bits = if signed { w - 1 } else { w };
    let max = if max_bits == 128 { u128::MAX } else { (1u128 << max_bits) - 1 };
    match ch.weighted(&[4, 3, 6, 3]) {
        0 => Int::u(ch.below(70) as u128 & max),
        1 => {
            const XS: [u128; 24] = [
                0, 1, 63, 64, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31,
                u32::MAX as u128, 1 << 32, i64::MAX as u128, u64::MAX as u128, i128::MAX as u128, u128::MAX,
            ];
            let m = XS[ch.n(24)];
            let neg = signed && ch.chance(1, 2);
            let n = Int { neg: neg && m != 0, mag: m };
            if n.fits(w, signed) {
                n
            } else if n.neg {
                Int { neg: true, mag: max + 1 }
            } else {
                Int::u(max)
            }
        }
        2 => {
            // 2^k - 1, 2^k, 2^k + 1 and their negatives
            let k = ch.below(max_bits as u64 + 1) as u32;
            let p = if k == 128 { u128::MAX } else { 1u128 << k };
            let neg = signed && ch.chance(1, 2);
            let d = ch.n(3);
            let m = match d {
                0 => p,
                1 => p.saturating_sub(1),
                _ => p.saturating_add(1),
            };
            if neg {
                let m = m.min(max + 1);
                Int { neg: m != 0, mag: m }
            } else {
                Int::u(m.min(max))
            }
        }
        _ => Int::from_bits(ch.u128() & if w == 128 { u128::MAX } else { (1 << w) - 1 }, w, signed),
    }
}
pub fn chr(ch: &mut Ch) -> char {
    match ch.weighted(&[5, 2, 2]) {
        0 => (b'a' + ch.below(26) as u8) as char,
        1 => *ch.pick(&['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
        _ => char::from_u32(ch.below(0x110000) as u32).unwrap_or('x'),
    }
}
pub fn long_len(ch: &mut Ch) -> usize {
    if ch.chance(1, 30) {
        return *ch.pick(&[65535, 65537]);
    }
    *ch.pick(&[63usize, 64, 65, 62, 127, 128, 255, 256, 257, 1000, 16383, 16384])
}
pub fn string(ch: &mut Ch, long: bool) -> Vec<u8> {
    if long && ch.chance(1, 3) {
        let n = long_len(ch);
        return vec![b'a' + ch.below(26) as u8; n];
    }
    let n = ch.weighted(&[2, 3, 3, 2, 1, 1, 1]);
    let mut s = String::new();
    for _ in 0..n {
        s.push(chr(ch));
    }
    let mut b = s.into_bytes();
    if ch.chance(1, 12) {
        // Not valid UTF8, probably.
        let bad: &[u8] = *ch.pick(&[&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xe2, 0x82], &[0xf4, 0x90, 0x80, 0x80]]);
        let at = ch.n(b.len() + 1);
        b.splice(at..at, bad.iter().copied());
    }
    b
}
pub fn bits(ch: &mut Ch, long: bool) -> Vec<bool> {
    let n = if long && ch.chance(1, 3) {
        if ch.chance(1, 30) {
            65537
        } else {
            *ch.pick(&[63usize, 64, 65, 127, 128, 129, 500, 16384])
        }
    } else if ch.chance(1, 3) {
        *ch.pick(&[0usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65])
    } else {
        ch.n(40)
    };
    let mut w = 0;
    (0..n)
        .map(|i| {
            if i % 64 == 0 {
                w = ch.raw();
            }
            (w >> (i % 64)) & 1 == 1
        })
        .collect()
}

/// How many things are in some value?
pub fn size(v: &V) -> usize {
    match v {
        V::List(l) | V::Var(_, l) => 1 + l.iter().map(size).sum::<usize>(),
        V::Str(s) => 1 + s.len() / 32,
        V::Bits(s) => 1 + s.len() / 64,
        _ => 1,
    }
}
pub struct ValGen {
    pub heights: Vec<Option<u32>>,
    /// How many more things we may generate before picking the smallest options.
    pub fuel: i64,
    pub long: bool,
    pub long_used: bool,
}
impl ValGen {
    pub fn new(reg: &Reg, p: Profile, fuel: i64) -> ValGen {
        ValGen { heights: reg.heights(), fuel, long: p == Profile::Long, long_used: false }
    }
    pub fn val(&mut self, ch: &mut Ch, reg: &Reg, id: usize) -> V {
        self.fuel -= 1;
        match &reg.defs[id] {
            Def::Compact(i) => self.val(ch, reg, *i),
            Def::Prim(p) => match p {
                P::Bool => V::Bool(ch.chance(1, 2)),
                P::Char => V::Char(chr(ch)),
                P::Str => V::Str(string(ch, self.long)),
                P::U256 | P::I256 => {
                    let mut b = [0u8; 32];
                    for c in b.chunks_mut(8) {
                        c.copy_from_slice(&ch.raw().to_le_bytes());
                    }
                    V::Big(b)
                }
                p => {
                    let (w, s) = p.int().unwrap();
                    V::Int(int(ch, w, s))
                }
            },
            Def::Seq(i) => {
                let n = if self.heights[*i].is_none() || self.fuel <= 0 {
                    0
                } else if self.long && !self.long_used && ch.chance(1, 2) {
                    self.long_used = true;
                    let n = long_len(ch);
                    // keep the big ones for types which are small.
                    if n > 300 && self.heights[*i].unwrap() > 2 {
                        64
                    } else {
                        n
                    }
                } else {
                    ch.weighted(&[2, 3, 3, 2, 1, 1, 1])
                };
                if n > 40 {
                    // repeat a few different values
                    let a = self.val(ch, reg, *i);
                    let b = self.val(ch, reg, *i);
                    let n = n.min(70_000 / size(&a).max(size(&b)) + 1);
                    let at = ch.n(n);
                    let mut l = vec![a; n];
                    l[at] = b;
                    return V::List(l);
                }
                V::List((0..n).map(|_| self.val(ch, reg, *i)).collect())
            }
            Def::Arr(i, n) => V::List((0..*n).map(|_| self.val(ch, reg, *i)).collect()),
            Def::Tup(ids) => V::List(ids.iter().map(|i| self.val(ch, reg, *i)).collect()),
            Def::Comp { fields, .. } => V::List(fields.iter().map(|f| self.val(ch, reg, f.ty)).collect()),
            Def::Var { variants, .. } => {
                let hs: Vec<Option<u32>> = variants
                    .iter()
                    .map(|v| v.fields.iter().map(|f| self.heights[f.ty]).try_fold(0, |a, x| x.map(|x| a.max(x))))
                    .collect();
                let min = hs.iter().flatten().min().copied().expect("inhabited");
                let ok: Vec<usize> = (0..variants.len())
                    .filter(|i| match hs[*i] {
                        Some(h) => self.fuel > 0 || h == min,
                        None => false,
                    })
                    .collect();
                let i = ok[ch.n(ok.len())];
                V::Var(i, variants[i].fields.iter().map(|f| self.val(ch, reg, f.ty)).collect())
            }
            Def::Bits(..) => V::Bits(bits(ch, self.long)),
        }
    }
}
pub fn any_val(ch: &mut Ch, reg: &Reg, id: usize, p: Profile) -> V {
    ValGen::new(reg, p, 60).val(ch, reg, id)
}

/// Bytes to put after a value.
pub fn trailing(ch: &mut Ch) -> Vec<u8> {
    match ch.weighted(&[2, 3, 1]) {
        0 => vec![],
        1 => (0..ch.range(1, 6)).map(|_| ch.below(256) as u8).collect(),
        _ => (0..ch.range(30, 70)).map(|_| ch.below(256) as u8).collect(),
    }
}
pub fn byte(ch: &mut Ch) -> u8 {
    match ch.weighted(&[3, 4]) {
        0 => ch.below(256) as u8,
        _ => *ch.pick(&[0u8, 1, 2, 3, 4, 8, 255, 254, 0xfc, 0xfd, 0x7f, 0x80, 12, 16, 0x13, 7, 0x33]),
    }
}
/// Break some bytes.
pub fn corrupt(ch: &mut Ch, b: &mut Vec<u8>) {
    let n = ch.range(1, 3);
    for _ in 0..n {
        match ch.weighted(&[4, 4, 3, 2, 2, 1]) {
            0 => {
                let at = ch.n(b.len() + 1);
                b.truncate(at);
            }
            1 if !b.is_empty() => {
                let at = ch.n(b.len());
                b[at] = byte(ch);
            }
            2 if !b.is_empty() => {
                let at = ch.n(b.len());
                b[at] ^= 1 << ch.n(8);
            }
            3 => {
                let at = ch.n(b.len() + 1);
                let x = byte(ch);
                b.insert(at, x);
            }
            4 if !b.is_empty() => {
                let at = ch.n(b.len());
                b.remove(at);
            }
            _ => {
                let at = ch.n(b.len() + 1);
                let s: &[u8] = *ch.pick(&[
                    &[0x02u8, 0, 0, 0][..],
                    &[0x01, 0],
                    &[0xfe, 0xff, 0xff, 0xff],
                    &[0x03, 0xff, 0xff, 0xff, 0xff],
                    &[0x03, 0, 0, 0, 0x40],
                    &[0x13, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                    &[0x17, 1, 1, 1, 1, 1, 1, 1, 1, 1],
                    &[0x33, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                    &[0x07, 0, 0, 0, 0, 1],
                    &[0x07, 2, 0, 0, 0, 1],
                    &[0x00, 0xd8, 0, 0],
                    &[0x00, 0x00, 0x11, 0],
                ]);
                b.splice(at..at, s.iter().copied());
            }
        }
    }
}

/// Sequences of things which have no bytes are a known issue given bytes which can't be trusted, so
/// avoid them.
pub fn avoid_empty_seqs(reg: &mut Reg, root: usize) -> u64 {
    let mut n = 0;
    for i in reg.reach(root) {
        if let Def::Seq(t) = reg.defs[i] {
            if reg.can_be_empty(t) {
                let u = reg.prim(P::U8);
                reg.defs[i] = Def::Seq(u);
                n += 1;
            }
        }
    }
    n
}
