//! Type resolvers for the model's types.
use crate::model::*;
use scale_info::{form::PortableForm, PortableRegistry, TypeDef};
use scale_type_resolver::{
    BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver, Variant,
};
use std::cell::{Cell, RefCell};

pub trait IdT: Clone + std::fmt::Debug + Default + PartialEq + 'static {
    fn of(i: usize) -> Self;
    fn ix(&self) -> Option<usize>;
}
/// Not `Copy`, and the default one doesn't exist.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Tid(u32);
impl IdT for Tid {
    fn of(i: usize) -> Self {
        Tid(i as u32 * 7 + 13)
    }
    fn ix(&self) -> Option<usize> {
        (self.0 >= 13 && (self.0 - 13) % 7 == 0).then(|| (self.0 as usize - 13) / 7)
    }
}
impl IdT for String {
    fn of(i: usize) -> Self {
        format!("type-{i}")
    }
    fn ix(&self) -> Option<usize> {
        self.strip_prefix("type-").and_then(|x| x.parse().ok())
    }
}
impl IdT for u32 {
    fn of(i: usize) -> Self {
        i as u32
    }
    fn ix(&self) -> Option<usize> {
        Some(*self as usize)
    }
}

pub struct Res<I = Tid> {
    pub reg: Reg,
    pub lookups: Cell<u64>,
    /// Going past this many lookups is a panic.
    pub budget: Cell<u64>,
    /// IDs the resolver says don't exist.
    pub missing: Option<usize>,
    /// IDs that the resolver gives back an error for.
    pub broken: Option<usize>,
    pub log: Option<RefCell<Vec<usize>>>,
    _m: std::marker::PhantomData<I>,
}
impl<I: IdT> Res<I> {
    pub fn new(reg: Reg) -> Self {
        Res {
            reg,
            lookups: Cell::new(0),
            budget: Cell::new(20_000_000),
            missing: None,
            broken: None,
            log: None,
            _m: std::marker::PhantomData,
        }
    }
    pub fn id(&self, i: usize) -> I {
        I::of(i)
    }
}
/// `V` may be sent to the resolver; the error it gives back if we ask it to.
#[derive(Debug, PartialEq)]
pub struct Broken(pub usize);
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "resolver broke at type {}", self.0)
    }
}

fn fields<'a, I: IdT>(fs: &'a [F]) -> impl ExactSizeIterator<Item = Field<'a, I>> + 'a {
    fs.iter().map(|f| Field { name: f.name.as_deref(), id: I::of(f.ty) })
}

impl<I: IdT> TypeResolver for Res<I> {
    type TypeId = I;
    type Error = Broken;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = I>>(
        &'this self,
        type_id: I,
        visitor: V,
    ) -> Result<V::Value, Broken> {
        let n = self.lookups.get() + 1;
        self.lookups.set(n);
        if n > self.budget.get() {
            panic!("more than {} type lookups were needed", self.budget.get());
        }
        let Some(ix) = type_id.ix() else { return Ok(visitor.visit_not_found()) };
        if let Some(l) = &self.log {
            l.borrow_mut().push(ix);
        }
        if self.broken == Some(ix) {
            return Err(Broken(ix));
        }
        if self.missing == Some(ix) {
            return Ok(visitor.visit_not_found());
        }
        let Some(def) = self.reg.defs.get(ix) else { return Ok(visitor.visit_not_found()) };
        Ok(match def {
            Def::Prim(p) => visitor.visit_primitive(match p {
                P::Bool => Primitive::Bool,
                P::Char => Primitive::Char,
                P::Str => Primitive::Str,
                P::U8 => Primitive::U8,
                P::U16 => Primitive::U16,
                P::U32 => Primitive::U32,
                P::U64 => Primitive::U64,
                P::U128 => Primitive::U128,
                P::U256 => Primitive::U256,
                P::I8 => Primitive::I8,
                P::I16 => Primitive::I16,
                P::I32 => Primitive::I32,
                P::I64 => Primitive::I64,
                P::I128 => Primitive::I128,
                P::I256 => Primitive::I256,
            }),
            Def::Compact(i) => visitor.visit_compact(I::of(*i)),
            Def::Seq(i) => visitor.visit_sequence(std::iter::empty(), I::of(*i)),
            Def::Arr(i, n) => visitor.visit_array(I::of(*i), *n as usize),
            Def::Tup(ids) => visitor.visit_tuple(ids.iter().map(|i| I::of(*i))),
            Def::Comp { path, fields: fs } => visitor.visit_composite(path.iter().map(|s| s.as_str()), fields::<I>(fs)),
            Def::Var { path, variants } => visitor.visit_variant(
                path.iter().map(|s| s.as_str()),
                variants.iter().map(|v| Variant { index: v.index, name: &v.name, fields: fields::<I>(&v.fields) }),
            ),
            Def::Bits(s, m) => visitor.visit_bit_sequence(
                match s {
                    Store::U8 => BitsStoreFormat::U8,
                    Store::U16 => BitsStoreFormat::U16,
                    Store::U32 => BitsStoreFormat::U32,
                    Store::U64 => BitsStoreFormat::U64,
                },
                if *m { BitsOrderFormat::Msb0 } else { BitsOrderFormat::Lsb0 },
            ),
        })
    }
}

/// Turn our types into a `scale_info` registry with the same type IDs.
pub fn to_portable(reg: &Reg) -> PortableRegistry {
    use scale_info::*;
    type T = Type<PortableForm>;
    let path = |p: &[String]| Path::<PortableForm>::from_segments_unchecked(p.iter().cloned());
    let flds = |fs: &[F]| -> Vec<scale_info::Field<PortableForm>> {
        fs.iter().map(|f| scale_info::Field { name: f.name.clone(), ty: (f.ty as u32).into(), type_name: None, docs: vec![] }).collect()
    };
    let mut types: Vec<T> = vec![];
    let n = reg.defs.len();
    // extra types for describing bit sequences, which go after everything else: 4 stores, 2 orders.
    let store_id = |s: &Store| (n + match s { Store::U8 => 0, Store::U16 => 1, Store::U32 => 2, Store::U64 => 3 }) as u32;
    let order_id = |m: bool| (n + 4 + m as usize) as u32;
    for d in &reg.defs {
        let (p, def): (Path<PortableForm>, TypeDef<PortableForm>) = match d {
            Def::Prim(p) => (
                Path::default(),
                TypeDef::Primitive(match p {
                    P::Bool => TypeDefPrimitive::Bool,
                    P::Char => TypeDefPrimitive::Char,
                    P::Str => TypeDefPrimitive::Str,
                    P::U8 => TypeDefPrimitive::U8,
                    P::U16 => TypeDefPrimitive::U16,
                    P::U32 => TypeDefPrimitive::U32,
                    P::U64 => TypeDefPrimitive::U64,
                    P::U128 => TypeDefPrimitive::U128,
                    P::U256 => TypeDefPrimitive::U256,
                    P::I8 => TypeDefPrimitive::I8,
                    P::I16 => TypeDefPrimitive::I16,
                    P::I32 => TypeDefPrimitive::I32,
                    P::I64 => TypeDefPrimitive::I64,
                    P::I128 => TypeDefPrimitive::I128,
                    P::I256 => TypeDefPrimitive::I256,
                }),
            ),
            Def::Compact(i) => (Path::default(), TypeDef::Compact(TypeDefCompact::new((*i as u32).into()))),
            Def::Seq(i) => (Path::default(), TypeDef::Sequence(TypeDefSequence::new((*i as u32).into()))),
            Def::Arr(i, n) => (Path::default(), TypeDef::Array(TypeDefArray::new(*n, (*i as u32).into()))),
            Def::Tup(ids) => (
                Path::default(),
                TypeDef::Tuple(TypeDefTuple::new_portable(ids.iter().map(|i| (*i as u32).into()))),
            ),
            Def::Comp { path: p, fields } => (path(p), TypeDef::Composite(TypeDefComposite { fields: flds(fields) })),
            Def::Var { path: p, variants } => (
                path(p),
                TypeDef::Variant(TypeDefVariant {
                    variants: variants
                        .iter()
                        .map(|v| scale_info::Variant { name: v.name.clone(), fields: flds(&v.fields), index: v.index, docs: vec![] })
                        .collect(),
                }),
            ),
            Def::Bits(s, m) => (
                Path::default(),
                TypeDef::BitSequence(TypeDefBitSequence::new_portable(store_id(s).into(), order_id(*m).into())),
            ),
        };
        types.push(Type { path: p, type_params: vec![], type_def: def, docs: vec![] });
    }
    for p in [TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::U32, TypeDefPrimitive::U64] {
        types.push(Type { path: Path::default(), type_params: vec![], type_def: TypeDef::Primitive(p), docs: vec![] });
    }
    for o in ["Lsb0", "Msb0"] {
        types.push(Type {
            path: Path::from_segments_unchecked(["bitvec".to_string(), "order".into(), o.into()]),
            type_params: vec![],
            type_def: TypeDef::Composite(TypeDefComposite { fields: vec![] }),
            docs: vec![],
        });
    }
    PortableRegistry { types: types.into_iter().enumerate().map(|(i, t)| PortableType::new(i as u32, t)).collect() }
}

/// Turn a `scale_info` registry into our types, with the same type IDs.
pub fn from_portable(p: &PortableRegistry) -> Reg {
    use scale_info::TypeDefPrimitive as TP;
    let flds = |fs: &[scale_info::Field<PortableForm>]| -> Vec<F> {
        fs.iter().map(|f| F { name: f.name.clone(), ty: f.ty.id as usize }).collect()
    };
    let defs = p
        .types
        .iter()
        .map(|t| match &t.ty.type_def {
            TypeDef::Primitive(p) => Def::Prim(match p {
                TP::Bool => P::Bool,
                TP::Char => P::Char,
                TP::Str => P::Str,
                TP::U8 => P::U8,
                TP::U16 => P::U16,
                TP::U32 => P::U32,
                TP::U64 => P::U64,
                TP::U128 => P::U128,
                TP::U256 => P::U256,
                TP::I8 => P::I8,
                TP::I16 => P::I16,
                TP::I32 => P::I32,
                TP::I64 => P::I64,
                TP::I128 => P::I128,
                TP::I256 => P::I256,
            }),
            TypeDef::Compact(c) => Def::Compact(c.type_param.id as usize),
            TypeDef::Sequence(c) => Def::Seq(c.type_param.id as usize),
            TypeDef::Array(c) => Def::Arr(c.type_param.id as usize, c.len),
            TypeDef::Tuple(c) => Def::Tup(c.fields.iter().map(|f| f.id as usize).collect()),
            TypeDef::Composite(c) => Def::Comp { path: t.ty.path.segments.clone(), fields: flds(&c.fields) },
            TypeDef::Variant(c) => Def::Var {
                path: t.ty.path.segments.clone(),
                variants: c.variants.iter().map(|v| Vr { name: v.name.clone(), index: v.index, fields: flds(&v.fields) }).collect(),
            },
            TypeDef::BitSequence(c) => {
                let store = match &p.resolve(c.bit_store_type.id).unwrap().type_def {
                    TypeDef::Primitive(TP::U8) => Store::U8,
                    TypeDef::Primitive(TP::U16) => Store::U16,
                    TypeDef::Primitive(TP::U32) => Store::U32,
                    _ => Store::U64,
                };
                let msb = p.resolve(c.bit_order_type.id).unwrap().path.ident().as_deref() == Some("Msb0");
                Def::Bits(store, msb)
            }
        })
        .collect();
    Reg { defs }
}

/// Type information for some Rust type, along with its ID.
pub fn reg_of<T: scale_info::TypeInfo + 'static>() -> (Reg, usize) {
    let mut r = scale_info::Registry::new();
    let id = r.register_type(&scale_info::MetaType::new::<T>()).id;
    let p: PortableRegistry = r.into();
    (from_portable(&p), id as usize)
}
