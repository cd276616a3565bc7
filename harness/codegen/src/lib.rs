//! Generates random type definitions which derive `DecodeAsType`, along with descriptions of
//! what decoding to them is expected to do.
use std::fmt::Write;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn n(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn chance(&mut self, a: usize, b: usize) -> bool {
        self.n(b) < a
    }
    fn pick<'a, T>(&mut self, ts: &'a [T]) -> &'a T {
        &ts[self.n(ts.len())]
    }
    fn weighted(&mut self, w: &[usize]) -> usize {
        let mut x = self.n(w.iter().sum());
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    /// path, whether there's a default
    Leaf(&'static str, bool),
    /// something generic from std.
    App(&'static str, Vec<Ty>),
    Arr(Box<Ty>, String),
    Tup(Vec<Ty>),
    Param(usize),
    Assoc(usize),
    /// A string borrowed for the lifetime given, if it were.
    CowStr(String),
    Named(usize, Vec<Ty>),
    Me,
    /// Not something that can be decoded to.
    Opaque,
    /// A reference, for fields which are skipped.
    Ref(String),
    /// Mentions a parameter which might not be sized, for fields which are skipped.
    Marker(usize),
}
const UNSIZED: &str = "?::core::marker::Sized";
const UINTS: &[&str] = &["u8", "u16", "u32", "u64", "u128"];
const LEAVES: &[(&str, bool)] = &[
    ("u8", true),
    ("u16", true),
    ("u32", true),
    ("u64", true),
    ("u128", true),
    ("i8", true),
    ("i16", true),
    ("i32", true),
    ("i64", true),
    ("i128", true),
    ("bool", true),
    ("::std::string::String", true),
    ("::std::primitive::char", true),
    ("()", true),
    ("::std::num::NonZeroU32", false),
    ("::std::time::Duration", true),
    ("::scale_bits::Bits", false),
    ("::std::collections::BTreeMap<::std::string::String, u8>", true),
    ("::codec::Compact<u32>", false),
    ("usize", true),
];
/// Things to put in place of parameters.
const ARGS: &[&str] = &[
    "u8",
    "u32",
    "i64",
    "bool",
    "::std::string::String",
    "::std::vec::Vec<u8>",
    "::std::option::Option<u16>",
    "[u8; 2]",
    "(u8, bool)",
    "::std::vec::Vec<::std::option::Option<u8>>",
    "()",
    "(u16,)",
];

#[derive(Clone, PartialEq, Debug)]
enum PKind {
    Plain,
    /// only mentioned in phantom data.
    Phantom,
    Assoc,
}
#[derive(Clone, Debug)]
struct Param {
    name: String,
    kind: PKind,
    bounds: Vec<&'static str>,
    /// are those given in a where clause?
    in_where: bool,
    default: Option<&'static str>,
}
#[derive(Clone, Debug)]
struct Const {
    name: &'static str,
    ty: &'static str,
    value: String,
    default: bool,
}
#[derive(Clone, Debug)]
struct Field {
    name: String,
    ty: Ty,
    skip: bool,
    attrs: Vec<String>,
}
#[derive(Clone, Debug)]
enum Fields {
    Named(Vec<Field>),
    Unnamed(Vec<Field>),
    Unit,
}
impl Fields {
    fn all(&self) -> &[Field] {
        match self {
            Fields::Named(f) | Fields::Unnamed(f) => f,
            Fields::Unit => &[],
        }
    }
}
#[derive(Clone, Debug)]
enum Body {
    Struct(Fields),
    Enum(Vec<(String, Fields, Vec<String>, Option<u8>)>),
}
#[derive(Clone, Debug)]
struct Decl {
    name: String,
    lifetimes: Vec<&'static str>,
    params: Vec<Param>,
    consts: Vec<Const>,
    /// More for the where clause.
    outlives: Vec<String>,
    /// Comes out of a macro.
    wrapped: bool,
    body: Body,
    attrs: Vec<String>,
    vis: &'static str,
    codec: bool,
    default: bool,
    /// the custom bounds if any
    custom: bool,
}

const FIELDS: &[&str] = &[
    "a", "b", "c", "foo", "bar", "value", "vals", "val", "type_id", "input", "types", "fields", "composite", "skip_res", "_x", "name", "len", "item", "index", "x1", "camelCase", "UPPER", "f", "err", "r#type", "r#fn",
];
const TYPES: &[&str] = &[
    "Foo", "Bar", "Thing", "Error", "Field", "Composite", "Tuple", "Variant", "Item", "Decode", "Sequence", "Str", "Fields", "r#Type", "lower",
];
/// Names which usually mean something else.
const ODD_TYPES: &[&str] = &[
    "Visitor", "IntoVisitor", "ToString", "Ok", "Err", "Some", "Default", "core", "std", "alloc", "BTreeMap", "DecodeAsType", "DecodeAsFields", "FieldIter", "TypeResolver", "Error", "Foo", "Thing", "Iterator", "Clone", "PhantomData",
];
const LIFETIMES: &[&str] = &["'a", "'scale", "'info", "'resolver", "'input"];
const VARIANTS: &[&str] = &["A", "B", "C", "None", "Some", "Ok", "Err", "Foo", "Bar", "Value", "Error", "Empty", "lower", "Visitor", "X1", "D", "E", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q"];
const PARAMS: &[&str] = &["T", "U", "R", "A", "E", "Value", "TypeResolver", "V", "X", "Visitor", "Error"];

struct Gen {
    r: Rng,
    decls: Vec<Decl>,
    root: &'static str,
    /// Names may be odd ones. (Other derives don't put up with that.)
    odd: bool,
    /// What the types here are called.
    taken: Vec<String>,
    /// Use all that the language has.
    exotic: bool,
    /// There's no prelude.
    bare: bool,
}

struct Scope {
    params: Vec<Param>,
    consts: Vec<Const>,
    lifetimes: Vec<&'static str>,
    codec: bool,
    recursive: bool,
}

impl Gen {
    fn leaf(&mut self, sc: &Scope) -> Ty {
        loop {
            let l = *self.r.pick(LEAVES);
            if sc.codec && (l.0.contains("char") || l.0.contains("BTreeMap") || l.0 == "usize") {
                continue;
            }
            return Ty::Leaf(l.0, l.1);
        }
    }
    fn ty(&mut self, sc: &Scope, depth: usize) -> Ty {
        if depth == 0 || self.r.chance(2, 5) {
            return match self.r.n(8) {
                0 | 1 | 2 if !sc.params.is_empty() => {
                    let i = self.r.n(sc.params.len());
                    match sc.params[i].kind {
                        PKind::Plain => Ty::Param(i),
                        PKind::Assoc => Ty::Assoc(i),
                        PKind::Phantom if sc.params[i].bounds.contains(&UNSIZED) => self.leaf(sc),
                        PKind::Phantom => Ty::App("::std::marker::PhantomData", vec![Ty::Param(i)]),
                    }
                }
                3 if !sc.lifetimes.is_empty() => {
                    let l = self.r.pick(&sc.lifetimes).to_string();
                    Ty::CowStr(l)
                }
                _ => self.leaf(sc),
            };
        }
        let d = depth - 1;
        match self.r.n(22) {
            0 | 1 => Ty::App("::std::vec::Vec", vec![self.ty(sc, d)]),
            2 => Ty::App("::std::collections::VecDeque", vec![self.ty(sc, d)]),
            3 | 4 => Ty::App("::std::option::Option", vec![self.ty(sc, d)]),
            5 => Ty::App("::std::result::Result", vec![self.ty(sc, d), self.ty(sc, d)]),
            6 => Ty::App("::std::boxed::Box", vec![self.ty(sc, d)]),
            7 => Ty::App("::std::sync::Arc", vec![self.ty(sc, d)]),
            8 | 9 => {
                let lens: Vec<&str> = sc.consts.iter().filter(|c| c.ty == "usize").map(|c| c.name).collect();
                let n = if !lens.is_empty() && self.r.chance(3, 4) { self.r.pick(&lens).to_string() } else { self.r.n(4).to_string() };
                Ty::Arr(Box::new(self.ty(sc, d)), n)
            }
            10 | 11 | 12 => {
                let n = self.r.weighted(&[1, 2, 4, 3, 1, 1]);
                Ty::Tup((0..n).map(|_| self.ty(sc, d)).collect())
            }
            13 if !sc.codec => Ty::App("::verif_kit::StrMap", vec![self.ty(sc, d)]),
            14 => Ty::App("::std::ops::Range", vec![Ty::Leaf(self.r.pick(UINTS), true)]),
            15 => Ty::App("::std::collections::BTreeSet", vec![Ty::Leaf(self.r.pick(UINTS), true)]),
            16 if sc.recursive => match self.r.n(3) {
                0 => Ty::App("::std::vec::Vec", vec![Ty::Me]),
                1 => Ty::App("::std::option::Option", vec![Ty::App("::std::boxed::Box", vec![Ty::Me])]),
                _ => Ty::App("::std::boxed::Box", vec![Ty::App("::std::option::Option", vec![Ty::Me])]),
            },
            _ => self.named(sc, d),
        }
    }
    fn named(&mut self, sc: &Scope, d: usize) -> Ty {
        for _ in 0..6 {
            if self.decls.is_empty() {
                break;
            }
            let i = self.r.n(self.decls.len());
            let dl = self.decls[i].clone();
            if sc.codec && !dl.codec {
                continue;
            }
            if !dl.lifetimes.is_empty() && sc.lifetimes.is_empty() {
                continue;
            }
            if !dl.consts.is_empty() {
                continue;
            }
            let args = dl
                .params
                .iter()
                .map(|p| {
                    if p.kind == PKind::Assoc {
                        Ty::Leaf("::verif_kit::HasAssoc", false)
                    } else if p.bounds.is_empty() && !p.default.is_some() && self.r.chance(1, 2) {
                        self.ty(sc, d.min(1))
                    } else {
                        Ty::Leaf(self.r.pick(ARGS), true)
                    }
                })
                .collect();
            return Ty::Named(i, args);
        }
        self.leaf(sc)
    }
    fn can_default(&self, t: &Ty, sc: &Scope) -> bool {
        match t {
            Ty::Leaf(_, d) => *d,
            Ty::App(p, ts) => match *p {
                "::std::vec::Vec" | "::std::collections::VecDeque" | "::std::option::Option" | "::std::marker::PhantomData" | "::verif_kit::StrMap" | "::std::collections::BTreeSet" => true,
                "::std::boxed::Box" | "::std::sync::Arc" | "::std::ops::Range" => ts.iter().all(|t| self.can_default(t, sc)),
                _ => false,
            },
            Ty::Arr(t, n) => n.parse::<usize>().is_ok() && self.can_default(t, sc),
            Ty::Tup(ts) => ts.iter().all(|t| self.can_default(t, sc)),
            Ty::Param(i) => sc.params[*i].bounds.contains(&"::core::default::Default"),
            Ty::Named(i, ts) => self.decls[*i].default && ts.iter().all(|t| self.can_default(t, sc)),
            Ty::Opaque | Ty::Ref(_) | Ty::Marker(_) => true,
            Ty::CowStr(_) | Ty::Me | Ty::Assoc(_) => false,
        }
    }
    fn has_phantom(t: &Ty) -> bool {
        match t {
            Ty::App(p, ts) => p.contains("Phantom") || ts.iter().any(Self::has_phantom),
            Ty::Arr(t, _) => Self::has_phantom(t),
            Ty::Tup(ts) | Ty::Named(_, ts) => ts.iter().any(Self::has_phantom),
            _ => false,
        }
    }
    fn noise(&mut self) -> Vec<String> {
        match self.r.n(12) {
            0 => vec!["/// Something.".into()],
            1 => vec!["#[allow(dead_code)]".into()],
            2 => vec!["#[cfg(all())]".into()],
            _ => vec![],
        }
    }
    fn field(&mut self, name: String, sc: &Scope, skips: bool, big: bool) -> Field {
        let depth = if big { 1 } else { 2 };
        let mut ty = self.ty(sc, depth);
        let mut skip = false;
        if sc.codec && Self::has_phantom(&ty) {
            ty = Ty::Leaf("u8", true);
        }
        if skips && self.r.chance(1, 3) {
            if self.r.chance(1, 5) {
                ty = Ty::Opaque;
            }
            if self.exotic && !sc.lifetimes.is_empty() && self.r.chance(1, 3) {
                ty = Ty::Ref(self.r.pick(&sc.lifetimes).to_string());
            }
            for _ in 0..4 {
                if self.can_default(&ty, sc) {
                    break;
                }
                ty = self.ty(sc, depth);
            }
            if !self.can_default(&ty, sc) {
                ty = Ty::Leaf("u16", true);
            }
            skip = true;
        }
        let mut attrs = self.noise();
        if skip {
            // How it's written makes no difference. (Only codec's own attribute works for codec.)
            let d = "#[decode_as_type(skip)]".to_string();
            let c = "#[codec(skip)]".to_string();
            match if sc.codec { self.r.n(2) + 1 } else { self.r.n(4) } {
                0 => attrs.push(d),
                1 => attrs.push(c),
                3 => attrs.push(self.r.pick(&["#[codec(skip, compact)]", "#[codec(compact, skip)]", "#[codec(index = 1, skip)]", "#[decode_as_type(skip,)]"]).to_string()),
                _ if self.r.chance(1, 2) => attrs.extend([d, c]),
                _ => attrs.extend([c, d]),
            }
            if !sc.codec && matches!(&ty, Ty::Leaf(t, _) if UINTS.contains(t)) && self.r.chance(1, 2) {
                let at = self.r.n(attrs.len() + 1);
                let a = ["#[codec(compact)]", "#[codec(encoded_as = \"Whatever\")]", "#[codec(index = 3)]"][self.r.n(3)];
                attrs.insert(at, a.into());
            }
        } else if let Ty::Leaf(t, _) = &ty {
            if UINTS.contains(t) && self.r.chance(1, 3) {
                // (Type information has nothing to say about the first of these.)
                attrs.push(if !sc.codec && self.r.chance(1, 4) { format!("#[codec(encoded_as = \"::codec::Compact<{t}>\")]") } else { "#[codec(compact)]".into() });
            }
        }
        Field { name, ty, skip, attrs }
    }
    fn names(&mut self, pool: &[&str], n: usize) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        while out.len() < n {
            let mut s = self.r.pick(pool).to_string();
            while out.contains(&s) {
                write!(s, "{}", self.r.n(10)).unwrap();
            }
            out.push(s);
        }
        out
    }
    fn fields(&mut self, sc: &Scope, skips: bool, most: usize) -> Fields {
        let n = match self.r.n(12) {
            0 => 0,
            1 => most,
            2 => most / 2,
            _ => self.r.n(4) + 1,
        }
        .min(most);
        match self.r.n(9) {
            0 => Fields::Unit,
            1..=3 => Fields::Unnamed((0..n).map(|_| self.field(String::new(), sc, skips, n > 5)).collect()),
            _ => {
                let names = self.names(FIELDS, n);
                Fields::Named(names.into_iter().map(|nm| self.field(nm, sc, skips, n > 5)).collect())
            }
        }
    }
    fn decl(&mut self, name: String, kind: Kind) {
        let codec = !self.odd && self.r.chance(2, 5);
        let generic = self.r.chance(2, 5);
        let mut params = vec![];
        let mut lifetimes = vec![];
        let mut consts = vec![];
        let mut outlives = vec![];
        let mut custom = false;
        if generic {
            custom = !codec && self.r.chance(1, 3);
            let n = self.r.weighted(&[1, 4, 3, 1]);
            // (One named like a type would hide it.)
            let pool: Vec<&str> = PARAMS.iter().copied().filter(|p| self.taken.iter().all(|t| t != p)).collect();
            for name in self.names(&pool, n) {
                let kind = if codec {
                    PKind::Plain
                } else if custom {
                    [PKind::Plain, PKind::Phantom, PKind::Assoc][self.r.n(3)].clone()
                } else {
                    [PKind::Plain, PKind::Plain, PKind::Plain, PKind::Phantom][self.r.n(4)].clone()
                };
                let mut bounds = vec![];
                if kind == PKind::Plain {
                    if self.r.chance(1, 3) {
                        bounds.push("::core::default::Default");
                    }
                    if self.r.chance(1, 6) {
                        bounds.push("::core::clone::Clone");
                    }
                }
                if kind == PKind::Assoc {
                    bounds.push("::verif_kit::Assoc");
                }
                if self.exotic && kind == PKind::Phantom && self.r.chance(1, 2) {
                    bounds.push(UNSIZED);
                }
                params.push(Param { name, kind, bounds, in_where: self.r.chance(1, 2), default: None });
            }
            if !codec && self.r.chance(1, 3) {
                let n = 1 + self.r.chance(1, 3) as usize;
                while lifetimes.len() < n {
                    let l = *self.r.pick(LIFETIMES);
                    if !lifetimes.contains(&l) {
                        lifetimes.push(l);
                    }
                }
            }
            if !codec && self.r.chance(1, 4) {
                let mut add = |name, ty, value: String| consts.push(Const { name, ty, value, default: false });
                add("N", "usize", self.r.n(4).to_string());
                if self.r.chance(1, 3) {
                    add("LEN", "usize", self.r.n(4).to_string());
                }
            }
            if self.exotic && !codec {
                for (name, ty, value) in [("FLAG", "bool", "true"), ("CH", "char", "'x'"), ("NEG", "i16", "-3"), ("BIG", "u128", "{ 1 << 100 }")] {
                    if self.r.chance(1, 6) {
                        let at = self.r.n(consts.len() + 1);
                        consts.insert(at, Const { name, ty, value: value.into(), default: false });
                    }
                }
                if self.r.chance(1, 3) {
                    consts.iter_mut().for_each(|c| c.default = true);
                }
                for (i, l) in lifetimes.iter().enumerate() {
                    if i > 0 && self.r.chance(1, 2) {
                        outlives.push(format!("{l}: {}", lifetimes[0]));
                    }
                    for p in &params {
                        if self.r.chance(1, 3) {
                            outlives.push(format!("{}: {l}", p.name));
                        }
                    }
                }
            }
            // Defaults come last.
            if consts.iter().all(|c| c.default) && !codec {
                for p in params.iter_mut().rev() {
                    if p.kind == PKind::Plain && self.r.chance(1, 4) {
                        p.default = Some(self.r.pick(ARGS));
                    } else {
                        break;
                    }
                }
            }
        }
        let recursive = (!codec || params.is_empty()) && self.r.chance(1, 4);
        let sc = Scope { params: params.clone(), consts: consts.clone(), lifetimes: lifetimes.clone(), codec, recursive };
        let skips = match kind {
            Kind::Skips => true,
            _ => self.r.chance(1, 4),
        };
        let is_struct = match kind {
            Kind::Struct => true,
            Kind::Enum => false,
            _ => self.r.chance(1, 2),
        };
        let mut body = if is_struct {
            let most = if codec { 12 } else { 25 };
            Body::Struct(self.fields(&sc, skips, most))
        } else {
            let n = match self.r.n(10) {
                0 if params.is_empty() && lifetimes.is_empty() => 0,
                1 => 30,
                _ => self.r.n(5) + 1,
            };
            let explicit = n > 0 && self.r.chance(1, 4);
            let mut taken: Vec<u8> = vec![];
            let vs = self
                .names(VARIANTS, n)
                .into_iter()
                .map(|nm| {
                    let f = if n > 10 && self.r.chance(2, 3) { Fields::Unit } else { self.fields(&sc, skips, 5) };
                    let mut attrs = self.noise();
                    if explicit {
                        let mut ix = self.r.n(256) as u8;
                        while taken.contains(&ix) {
                            ix = ix.wrapping_add(1);
                        }
                        taken.push(ix);
                        attrs.push(format!("#[codec(index = {ix})]"));
                    }
                    (nm, f, attrs, None)
                })
                .collect::<Vec<_>>();
            Body::Enum(vs)
        };
        // Numbered variants, if they've no fields.
        if let Body::Enum(vs) = &mut body {
            if !vs.is_empty() && vs.len() < 20 && vs.iter().all(|v| matches!(v.1, Fields::Unit) && v.2.iter().all(|a| !a.contains("index"))) && self.r.chance(2, 3) {
                for (i, v) in vs.iter_mut().enumerate() {
                    v.3 = Some((i * 7 + 3) as u8);
                }
            }
        }
        // Everything has to be mentioned somewhere.
        self.mention(&mut body, &params, &lifetimes, &sc);
        let me_default = is_struct && params.is_empty() && lifetimes.is_empty() && consts.is_empty() && {
            let Body::Struct(f) = &body else { unreachable!() };
            f.all().iter().all(|f| self.can_default(&f.ty, &sc))
        };
        let mut attrs = self.noise();
        let path = match self.r.n(6) {
            0 if self.bare => "::scale_decode".to_string(),
            0 => "scale_decode".to_string(),
            1 => "::verif_kit::scale_decode".into(),
            2 => format!("{}::sd", self.root),
            3 => "self::again::sd".into(),
            _ => String::new(),
        };
        let p = if path.is_empty() { "::scale_decode".to_string() } else { path.clone() };
        let crate_attr = (!path.is_empty()).then(|| format!("crate_path = \"{path}\""));
        let bounds_attr = custom.then(|| {
            let mut b: Vec<String> = vec![];
            for (i, prm) in params.iter().enumerate() {
                match prm.kind {
                    PKind::Plain if body_uses(&body, &Ty::Param(i)) => b.push(format!("{}: {p}::IntoVisitor", prm.name)),
                    PKind::Assoc if body_uses(&body, &Ty::Assoc(i)) => b.push(format!("{}::A: {p}::IntoVisitor", prm.name)),
                    _ => (),
                }
            }
            let mut s = b.join(", ");
            if !s.is_empty() && self.r.chance(1, 3) {
                s.push(',');
            }
            format!("trait_bounds = \"{s}\"")
        });
        let both: Vec<String> = if self.r.chance(1, 2) { [crate_attr, bounds_attr].into_iter().flatten().collect() } else { [bounds_attr, crate_attr].into_iter().flatten().collect() };
        if both.len() == 2 && self.r.chance(1, 2) {
            attrs.extend(both.iter().map(|b| format!("#[decode_as_type({b})]")));
        } else if !both.is_empty() {
            attrs.push(format!("#[decode_as_type({})]", both.join(", ")));
        }
        let vis = *self.r.pick(&["pub ", "pub ", "pub(crate) ", "", "pub(super) "]);
        let wrapped = self.exotic && self.r.chance(1, 3);
        self.decls.push(Decl { name, lifetimes, params, consts, outlives, wrapped, body, attrs, vis, codec, default: me_default, custom });
    }
    fn mention(&mut self, body: &mut Body, params: &[Param], lifetimes: &[&'static str], sc: &Scope) {
        let mut missing: Vec<Ty> = vec![];
        for (i, p) in params.iter().enumerate() {
            let seen = body_uses(body, &Ty::Param(i)) || body_uses(body, &Ty::Assoc(i));
            match p.kind {
                _ if seen && p.kind != PKind::Assoc => (),
                PKind::Plain => missing.push(Ty::Param(i)),
                PKind::Phantom if p.bounds.contains(&UNSIZED) => missing.push(Ty::Marker(i)),
                PKind::Phantom => missing.push(Ty::App("::std::marker::PhantomData", vec![Ty::Param(i)])),
                PKind::Assoc if body_uses(body, &Ty::Assoc(i)) => (),
                PKind::Assoc => missing.push(Ty::Assoc(i)),
            }
        }
        for l in lifetimes {
            if !body_uses(body, &Ty::CowStr(l.to_string())) {
                missing.push(Ty::CowStr(l.to_string()));
            }
        }
        for (i, ty) in missing.into_iter().enumerate() {
            let mut f = Field { name: format!("also{i}"), ty, skip: false, attrs: vec![] };
            if matches!(f.ty, Ty::Marker(_)) || Self::has_phantom(&f.ty) && (sc.codec || self.r.chance(1, 2)) {
                f.skip = true;
                f.attrs.push("#[codec(skip)]".into());
            }
            let fs = match body {
                Body::Struct(f) => f,
                Body::Enum(vs) => {
                    let at = self.r.n(vs.len());
                    vs[at].3 = None;
                    vs.iter_mut().for_each(|v| v.3 = None);
                    &mut vs[at].1
                }
            };
            match fs {
                Fields::Named(v) | Fields::Unnamed(v) => v.push(f),
                Fields::Unit => *fs = if self.r.chance(1, 2) { Fields::Named(vec![f]) } else { Fields::Unnamed(vec![f]) },
            }
        }
    }

    // --- writing it out

    fn show(&self, t: &Ty, me: &Decl) -> String {
        let list = |ts: &[Ty]| ts.iter().map(|t| self.show(t, me)).collect::<Vec<_>>().join(", ");
        match t {
            Ty::Leaf(s, _) => s.to_string(),
            Ty::App(p, ts) => format!("{p}<{}>", list(ts)),
            Ty::Arr(t, n) => format!("[{}; {n}]", self.show(t, me)),
            Ty::Tup(ts) if ts.len() == 1 => format!("({},)", list(ts)),
            Ty::Tup(ts) => format!("({})", list(ts)),
            Ty::Param(i) => me.params[*i].name.clone(),
            Ty::Assoc(i) => format!("{}::A", me.params[*i].name),
            Ty::CowStr(l) => format!("::std::borrow::Cow<{l}, str>"),
            Ty::Opaque => "::verif_kit::Opaque".into(),
            Ty::Ref(l) => format!("&{l} str"),
            Ty::Marker(i) => format!("::verif_kit::Marker<{}>", me.params[*i].name),
            Ty::Me => self.applied(me),
            Ty::Named(i, ts) => {
                let d = &self.decls[*i];
                let mut args: Vec<String> = d.lifetimes.iter().map(|_| me.lifetimes.first().unwrap_or(&"'static").to_string()).collect();
                args.extend(ts.iter().map(|t| self.show(t, me)));
                if args.is_empty() {
                    d.name.clone()
                } else {
                    format!("{}<{}>", d.name, args.join(", "))
                }
            }
        }
    }
    fn applied(&self, d: &Decl) -> String {
        let mut args: Vec<String> = d.lifetimes.iter().map(|l| l.to_string()).collect();
        args.extend(d.params.iter().map(|p| p.name.clone()));
        args.extend(d.consts.iter().map(|c| c.name.to_string()));
        if args.is_empty() {
            d.name.clone()
        } else {
            format!("{}<{}>", d.name, args.join(", "))
        }
    }
    /// The generics and where clause of the definition.
    fn generics(&self, d: &Decl) -> (String, String) {
        let mut g: Vec<String> = d.lifetimes.iter().map(|l| l.to_string()).collect();
        let mut w = vec![];
        for p in &d.params {
            let mut s = p.name.clone();
            let b = p.bounds.join(" + ");
            // (associated types need their trait known where it's declared.)
            if !b.is_empty() {
                if p.in_where {
                    w.push(format!("{s}: {b}"));
                } else {
                    write!(s, ": {b}").unwrap();
                }
            }
            if let Some(def) = p.default {
                write!(s, " = {def}").unwrap();
            }
            g.push(s);
        }
        g.extend(d.consts.iter().map(|c| format!("const {}: {}{}", c.name, c.ty, if c.default { format!(" = {}", c.value) } else { String::new() })));
        w.extend(d.outlives.iter().cloned());
        let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
        let w = if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) };
        (g, w)
    }
    fn source(&self, d: &Decl) -> String {
        let mut o = String::new();
        // Types given to the macro this comes out of. (What's declared there isn't visible to those.)
        let given = std::cell::RefCell::new(vec![]);
        let show = |t: &Ty| {
            let s = self.show(t, d);
            if !d.wrapped || !closed(t) {
                return s;
            }
            let mut g = given.borrow_mut();
            g.push(s);
            format!("$t{}", g.len() - 1)
        };
        let mut derives = vec!["::scale_decode::DecodeAsType"];
        if d.codec {
            derives.extend(["::codec::Decode", "::scale_info::TypeInfo"]);
        }
        if d.default {
            derives.push("::core::default::Default");
        }
        writeln!(o, "#[derive({})]", derives.join(", ")).unwrap();
        for a in &d.attrs {
            writeln!(o, "{a}").unwrap();
        }
        let (g, w) = self.generics(d);
        let fields = |o: &mut String, fs: &[Field], named: bool, pre: &str, vis: &str| {
            for f in fs {
                for a in &f.attrs {
                    writeln!(o, "{pre}{a}").unwrap();
                }
                let name = if named { format!("{}: ", f.name) } else { String::new() };
                writeln!(o, "{pre}{vis}{name}{},", show(&f.ty)).unwrap();
            }
        };
        match &d.body {
            Body::Struct(f) => {
                write!(o, "{}struct {}{g}", d.vis, d.name).unwrap();
                match f {
                    Fields::Named(fs) => {
                        writeln!(o, "{w} {{").unwrap();
                        fields(&mut o, fs, true, "    ", "pub ");
                        writeln!(o, "}}").unwrap();
                    }
                    Fields::Unnamed(fs) => {
                        writeln!(o, "(").unwrap();
                        fields(&mut o, fs, false, "    ", "");
                        writeln!(o, "){w};").unwrap();
                    }
                    Fields::Unit => writeln!(o, "{w};").unwrap(),
                }
            }
            Body::Enum(vs) => {
                writeln!(o, "{}enum {}{g}{w} {{", d.vis, d.name).unwrap();
                for (n, f, attrs, ix) in vs {
                    for a in attrs {
                        writeln!(o, "    {a}").unwrap();
                    }
                    write!(o, "    {n}").unwrap();
                    match f {
                        Fields::Named(fs) => {
                            writeln!(o, " {{").unwrap();
                            fields(&mut o, fs, true, "        ", "");
                            write!(o, "    }}").unwrap();
                        }
                        Fields::Unnamed(fs) => {
                            writeln!(o, "(").unwrap();
                            fields(&mut o, fs, false, "        ", "");
                            write!(o, "    )").unwrap();
                        }
                        Fields::Unit => (),
                    }
                    if let Some(i) = ix {
                        write!(o, " = {i}").unwrap();
                    }
                    writeln!(o, ",").unwrap();
                }
                writeln!(o, "}}").unwrap();
            }
        }
        if d.wrapped {
            let given = given.into_inner();
            let pat: Vec<String> = (0..given.len()).map(|i| format!("$t{i}:ty")).collect();
            return format!("macro_rules! define {{\n({}) => {{\n{o}}}\n}}\ndefine!({});\n", pat.join(", "), given.join(", "));
        }
        o
    }
    fn shape_fields(&self, d: &Decl, f: &Fields) -> String {
        let k = match f {
            Fields::Unit => return "::verif_kit::SFields::Unit".into(),
            Fields::Named(_) => "Named",
            Fields::Unnamed(_) => "Unnamed",
        };
        let mut o = format!("::verif_kit::SFields::{k}(::std::vec![\n");
        for (i, f) in f.all().iter().enumerate() {
            let name = if f.name.is_empty() { i.to_string() } else { f.name.clone() };
            let ty = self.show(&f.ty, d);
            if f.skip {
                writeln!(o, "        ::verif_kit::skipped({name:?}, ::verif_kit::Norm::norm(<{ty} as ::core::default::Default>::default())),").unwrap();
            } else {
                writeln!(o, "        ::verif_kit::field({name:?}, <{ty} as ::verif_kit::Tgt>::shape()),").unwrap();
            }
        }
        o.push_str("    ])");
        o
    }
    fn target(&self, d: &Decl) -> String {
        let mut o = String::new();
        let mut g: Vec<String> = vec![];
        let mut w: Vec<String> = vec![];
        for (i, p) in d.params.iter().enumerate() {
            let mut b: Vec<String> = p.bounds.iter().map(|b| b.to_string()).collect();
            match p.kind {
                PKind::Plain => b.push("::verif_kit::Tgt".into()),
                PKind::Phantom if !d.custom => b.push("::verif_kit::Tgt".into()),
                _ => b.push("'static".into()),
            }
            if p.kind == PKind::Assoc {
                w.push(format!("{}::A: ::verif_kit::Tgt", p.name));
            }
            let _ = i;
            g.push(format!("{}: {}", p.name, b.join(" + ")));
        }
        g.extend(d.consts.iter().map(|c| format!("const {}: {}", c.name, c.ty)));
        let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
        let w = if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) };
        let mut me = self.applied(d);
        for l in &d.lifetimes {
            me = me.replace(l, "'static");
        }
        let stat = |mut s: String| {
            for l in &d.lifetimes {
                s = s.replace(l, "'static");
            }
            s
        };
        let shape = match &d.body {
            Body::Struct(f) => format!("::verif_kit::Shape::Struct({})", stat(self.shape_fields(d, f))),
            Body::Enum(vs) => {
                let mut s = "::verif_kit::Shape::Enum(::std::vec![\n".to_string();
                for (n, f, ..) in vs {
                    writeln!(s, "    ::verif_kit::SVar {{ name: ::std::convert::Into::into({n:?}), fields: {} }},", stat(self.shape_fields(d, f))).unwrap();
                }
                s.push_str("    ])");
                s
            }
        };
        let norms = |f: &Fields| -> (String, String) {
            let mut pat = vec![];
            let mut vals = vec![];
            for (i, fl) in f.all().iter().enumerate() {
                if matches!(f, Fields::Named(_)) {
                    pat.push(format!("{}: x{i}", fl.name));
                } else {
                    pat.push(format!("x{i}"));
                }
                vals.push(format!("::verif_kit::Norm::norm(x{i})"));
            }
            let pat = match f {
                Fields::Named(_) => format!(" {{ {} }}", pat.join(", ")),
                Fields::Unnamed(_) => format!("({})", pat.join(", ")),
                Fields::Unit => String::new(),
            };
            (pat, format!("::std::vec![{}]", vals.join(", ")))
        };
        let norm = match &d.body {
            Body::Struct(f) => {
                let (p, v) = norms(f);
                let p = if let Fields::Unit = f { String::new() } else { p };
                format!("let {}{p} = self;\n        ::verif_kit::TV::Struct({v})", d.name)
            }
            Body::Enum(vs) => {
                let mut s = "match self {\n".to_string();
                for (n, f, ..) in vs {
                    let (p, v) = norms(f);
                    writeln!(s, "            {}::{n}{p} => ::verif_kit::TV::Enum(::std::convert::Into::into({n:?}), {v}),", d.name).unwrap();
                }
                s.push_str("        }");
                s
            }
        };
        writeln!(
            o,
            "impl{g} ::verif_kit::Tgt for {me}{w} {{\n    fn shape() -> ::verif_kit::Shape {{\n        ::verif_kit::Shape::Lazy(Self::real_shape)\n    }}\n    fn norm(self) -> ::verif_kit::TV {{\n        {norm}\n    }}\n}}\nimpl{g} {me}{w} {{\n    fn real_shape() -> ::verif_kit::Shape {{\n    {shape}\n    }}\n}}"
        )
        .unwrap();
        o
    }
    /// Ways of filling in parameters.
    fn instances(&mut self, ix: usize) -> Vec<String> {
        let d = self.decls[ix].clone();
        if d.lifetimes.is_empty() && d.params.is_empty() && d.consts.is_empty() {
            return vec![d.name];
        }
        let n = if d.params.is_empty() && d.consts.is_empty() { 1 } else { 2 };
        let plain: Vec<usize> = (0..self.decls.len()).filter(|i| self.decls[*i].params.is_empty() && self.decls[*i].lifetimes.is_empty() && self.decls[*i].consts.is_empty()).collect();
        (0..n)
            .map(|_| {
                let mut args: Vec<String> = d.lifetimes.iter().map(|_| "'static".to_string()).collect();
                for p in &d.params {
                    args.push(match p.kind {
                        PKind::Assoc => "::verif_kit::HasAssoc".into(),
                        PKind::Phantom if d.custom && p.bounds.contains(&UNSIZED) && self.r.chance(3, 4) => {
                            self.r.pick(&["str", "[u8]", "dyn ::core::marker::Send", "[::verif_kit::Opaque]"]).to_string()
                        }
                        PKind::Phantom if d.custom && self.r.chance(2, 3) => "::verif_kit::Opaque".into(),
                        _ if p.bounds.is_empty() && !plain.is_empty() && self.r.chance(1, 3) => {
                            let at = *self.r.pick(&plain);
                            self.decls[at].name.clone()
                        }
                        _ => self.r.pick(ARGS).to_string(),
                    });
                }
                for c in &d.consts {
                    args.push(c.value.clone());
                }
                format!("{}<{}>", d.name, args.join(", "))
            })
            .collect()
    }
}
/// Is nothing of what's being defined mentioned?
fn closed(t: &Ty) -> bool {
    match t {
        Ty::Leaf(..) | Ty::Opaque => true,
        Ty::App(_, ts) | Ty::Tup(ts) => ts.iter().all(closed),
        _ => false,
    }
}
fn ty_uses(t: &Ty, x: &Ty) -> bool {
    t == x
        || match t {
            Ty::App(_, ts) | Ty::Tup(ts) | Ty::Named(_, ts) => ts.iter().any(|t| ty_uses(t, x)),
            Ty::Arr(t, _) => ty_uses(t, x),
            _ => false,
        }
}
fn body_uses(b: &Body, x: &Ty) -> bool {
    let any = |f: &Fields| f.all().iter().any(|f| ty_uses(&f.ty, x));
    match b {
        Body::Struct(f) => any(f),
        Body::Enum(vs) => vs.iter().any(|v| any(&v.1)),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Struct,
    Enum,
    Skips,
    Any,
}

/// A module of definitions of some kind.
pub fn module(seed: u64, kind: Kind, decls: usize, root: &'static str, exotic: bool) -> String {
    let mut g = Gen { r: Rng(seed), decls: vec![], root, odd: false, taken: vec![], exotic, bare: false };
    g.r.next();
    g.odd = g.r.chance(1, 3);
    g.bare = exotic && g.odd && g.r.chance(2, 3);
    let n = g.r.n(decls) + 1;
    let names = g.names(if g.odd { ODD_TYPES } else { TYPES }, n);
    g.taken = names.clone();
    for n in names {
        g.decl(n, kind);
    }
    let mut o = String::from("#![allow(dead_code, unused_imports, unused_variables, non_camel_case_types, non_snake_case, unreachable_code, private_interfaces, non_shorthand_field_patterns)]\n");
    if g.bare {
        o.push_str("#![no_implicit_prelude]\n");
    }
    if g.bare {
        o.push_str("use ::verif_kit::almost_prelude::*;\n");
    }
    o.push_str("pub mod again { pub use ::scale_decode as sd; }\n");
    // What these usually mean isn't something to rely on.
    if g.decls.iter().all(|d| !d.codec) && g.r.chance(1, 2) {
        o.push_str("type Result<T> = ::core::result::Result<T, ()>;\n");
        if g.r.chance(1, 2) {
            o.push_str("type Option = ();\ntype String = u8;\ntype Box = ();\ntype Vec = ();\n");
        }
        for (name, def) in [("Ok", "pub struct Ok(pub u8);"), ("Err", "pub fn Err() {}"), ("Some", "pub const Some: u8 = 3;"), ("Default", "pub trait Default {}"), ("Visitor", "pub trait Visitor: ::core::marker::Sized { fn visit_composite(self) {} fn decode_as_type(&self) {} } impl<T> Visitor for T {}"), ("core", "pub mod core {}"), ("vec", "macro_rules! vec { () => {} }")] {
            if g.r.chance(1, 4) && g.decls.iter().all(|d| d.name != name) {
                writeln!(o, "{def}").unwrap();
            }
        }
    }
    let mut defs = vec![];
    for d in &g.decls {
        let s = g.source(d);
        writeln!(o, "{s}").unwrap();
        defs.push(s);
    }
    for d in &g.decls {
        writeln!(o, "{}", g.target(d)).unwrap();
    }
    o.push_str("pub fn entries() -> ::std::vec::Vec<::verif_kit::Entry> {\n    let mut out = ::std::vec![];\n");
    for i in 0..g.decls.len() {
        let inst = g.instances(i);
        writeln!(o, "    ::std::iter::Extend::extend(&mut out, ::verif_kit::with_def({:?}, ::verif_kit::entry!({})));", defs[i], inst.join(", ")).unwrap();
    }
    o.push_str("    out\n}\n");
    o
}
/// Write modules to a directory, with a file to include which has them all, and functions for entries of each set.
pub fn write(dir: &std::path::Path, sets: &[(&str, Vec<String>)]) -> std::io::Result<()> {
    let mut all = String::new();
    let mut n = 0;
    for (name, mods) in sets {
        let mut f = format!("pub fn {name}() -> Vec<::verif_kit::Entry> {{\n    let mut out = vec![];\n");
        for m in mods {
            let path = dir.join(format!("m{n}.rs"));
            if std::fs::read_to_string(&path).ok().as_deref() != Some(m) {
                std::fs::write(&path, m)?;
            }
            writeln!(all, "#[path = {:?}]\npub mod m{n};", path.to_string_lossy()).unwrap();
            writeln!(f, "    out.extend(::verif_kit::in_module(\"m{n}\", m{n}::entries()));").unwrap();
            n += 1;
        }
        f.push_str("    out\n}\n");
        all.push_str(&f);
    }
    std::fs::write(dir.join("all.rs"), all)
}
