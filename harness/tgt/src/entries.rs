use codec::Compact;
use primitive_types::*;
use scale_bits::Bits;
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use std::time::Duration;
use verif_kit::*;
use verif_model::shape::{Shape, TV};

type Map<T> = BTreeMap<String, T>;

/// Things with a field (which doesn't make them wrappers).
#[derive(scale_decode::DecodeAsType)]
pub struct One<T> {
    one: T,
}
#[derive(scale_decode::DecodeAsType)]
pub struct Pos<T>(T);
impl<T: Tgt> Tgt for One<T> {
    fn shape() -> Shape {
        Shape::Struct(SFields::Named(vec![field("one", T::shape())]))
    }
    fn norm(self) -> TV {
        TV::Struct(vec![self.one.norm()])
    }
}
impl<T: Tgt> Tgt for Pos<T> {
    fn shape() -> Shape {
        Shape::Struct(SFields::Unnamed(vec![field("0", T::shape())]))
    }
    fn norm(self) -> TV {
        TV::Struct(vec![self.0.norm()])
    }
}

macro_rules! set {
    ($name:ident: $($t:ty),* $(,)?) => {
        pub fn $name() -> &'static [Entry] {
            static E: OnceLock<Vec<Entry>> = OnceLock::new();
            E.get_or_init(|| entry!($($t),*))
        }
    };
}
set!(nums: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128,
    NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128);
set!(others: bool, char, String, Bits, PhantomData<u8>, PhantomData<String>);
set!(lists: Vec<u8>, Vec<u32>, Vec<String>, VecDeque<u16>, VecDeque<String>, LinkedList<u64>, LinkedList<char>, BinaryHeap<i16>, BinaryHeap<String>,
    BTreeSet<u8>, BTreeSet<String>, BTreeSet<Vec<i8>>, BTreeSet<Option<u8>>, BinaryHeap<(u8, bool)>, Vec<Vec<u8>>, Vec<[u16; 2]>, Vec<Option<u32>>, Vec<(u8, String)>,
    Vec<bool>, VecDeque<Vec<i32>>, LinkedList<[u8; 3]>, Vec<u128>, Vec<Result<u8, String>>, Vec<Map<u8>>, Vec<Bits>, Vec<()>, Vec<Compact<u32>>,
    Vec<(u8,)>, Vec<Box<u8>>, Vec<char>, BTreeSet<[u8; 2]>);
set!(arrays: [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 32], [u32; 2], [String; 2], [Vec<u8>; 2], [[u8; 2]; 3], [Option<bool>; 3], [(); 4], [(u8, u16); 2],
    [bool; 3], [char; 2], [u64; 5], [BTreeSet<u8>; 2], [i128; 1], [Vec<[u8; 2]>; 1], [String; 0], H128, H160, H256, H384, H512, H768, Vec<H128>, Option<H160>);
set!(maps: Map<u8>, Map<u32>, Map<String>, Map<Vec<u8>>, Map<bool>, Map<Option<u8>>, Map<(u8, u8)>, Map<Map<u16>>, Map<Box<i64>>, Map<()>, Map<[u8; 2]>,
    Option<Map<u8>>, (Map<u8>, u8), Vec<Map<String>>, Map<(u8,)>);
set!(options: Option<u8>, Option<bool>, Option<String>, Option<Option<u8>>, Option<Vec<u16>>, Option<()>, Option<(u8, u8)>, Option<Box<u32>>, Result<u8, bool>,
    Result<String, u32>, Result<(), ()>, Result<Option<u8>, Result<u8, String>>, Result<Vec<u8>, [u8; 2]>, Option<Result<u16, i8>>, Option<[u8; 2]>,
    Option<(u8,)>, Result<(u8,), (u16,)>, Option<Compact<u64>>, Vec<Option<Option<bool>>>, Option<char>, Option<Bits>, Option<Map<u8>>);
set!(wrappers: Box<u8>, Box<String>, Arc<u32>, Arc<String>, Rc<Vec<u8>>, Rc<u16>, Cow<'static, str>, Cow<'static, [u8]>, Cow<'static, u64>, Cow<'static, [String]>,
    Compact<u8>, Compact<u16>, Compact<u32>, Compact<u64>, Compact<u128>, Compact<i32>, Compact<String>, Box<Box<Box<u8>>>, Arc<Rc<Box<Option<u8>>>>, Box<(u8, u16)>, Box<[u8; 3]>,
    Box<Option<Box<u8>>>, Rc<Result<Arc<u8>, Box<String>>>, Cow<'static, str>, Duration, Range<u8>, Range<u64>, Range<i32>, RangeInclusive<u32>,
    RangeInclusive<i8>, Option<Duration>, Vec<Range<u16>>, Box<Duration>, Arc<RangeInclusive<u128>>, (Duration, u8), Range<Compact<u16>>, Range<Range<u8>>, Vec<Duration>,
    Compact<Box<u16>>, Box<Compact<u16>>, Box<Map<u8>>, Arc<(u8,)>, (Box<u8>,), (Arc<u32>, Rc<bool>), Box<char>, Rc<Bits>, Box<PhantomData<u8>>, Box<NonZeroU16>,
    Range<char>, RangeInclusive<String>, Cow<'static, [Duration]>, Range<(u8,)>, Box<()>, Compact<()>, Compact<(u8,)>, Compact<NonZeroU8>, (Compact<u8>,), Arc<Box<(u64,)>>,
    ((Box<(Compact<u16>,)>,),), Cow<'static, Option<u8>>, Cow<'static, (u8, u8)>,
    Map<Box<u8>>, Map<Compact<u32>>, Map<Cow<'static, u64>>, Map<Arc<(u8,)>>, One<Box<u64>>, One<Compact<u8>>, One<(Rc<u16>,)>, Pos<Cow<'static, u128>>, Pos<((Arc<u32>,),)>, One<Pos<Box<Pos<Compact<u16>>>>>,
    Map<One<Box<u8>>>, Pos<Arc<One<(Box<u64>,)>>>, Rc<One<Box<NonZeroU8>>>, One<Duration>, Pos<Range<u8>>);
set!(tuples: (), (u8,), (String,), ((u8,),), (((u16,),),), (Vec<u8>,), (Option<u8>,), (bool, u8), (u8, u16, u32), (String, Vec<u8>), ((u8, u8), (u8, u8)), ((), u8), (u8, ()), (u8, (u16, (u32, (u64,)))),
    (u8, u8, u8, u8), (u8, u16, u32, u64, u128), (u8, bool, u8, bool, u8, bool), (u8, String, u8, String, u8, String, u8),
    (u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u32),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, String),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i64),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool),
    (bool, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, String),
    (u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, u8, bool), (char, Bits), (PhantomData<u8>, u8), (Map<u8>,), (Duration,), (Range<u8>,), (Compact<u8>, Compact<u16>),
    ((u8, u8),), (Vec<(u8, u8)>,), (H128,), (Result<u8, u8>, u8), (Box<(u8, u8)>,), ((),), (((),),));
set!(raws: Raw, Vec<Raw>, Option<Raw>, [Raw; 2], (Raw, u8), (u8, Raw), (Raw,), Box<Raw>, Result<Raw, u8>, Map<Raw>, Vec<Option<Raw>>, (Raw, Raw, Raw), (u8, (Raw, u16), String), Vec<(Raw, u8)>, VecDeque<Raw>,
    Arc<Vec<Raw>>, Range<Raw>, Option<(u8, Raw)>, (Vec<Raw>, u8), ((Raw,), u8));
// Things which are also found inside of anything with a single field.
set!(transparent: u8, u64, i32, NonZeroU8, i128, usize, bool, char, String, Bits, Vec<u8>, Vec<String>, VecDeque<u8>, LinkedList<u8>, BinaryHeap<u8>, BTreeSet<u8>, [u8; 2], [String; 1],
    Option<u8>, Option<String>, Result<u8, String>, Compact<u32>, Box<u16>, Arc<String>, Rc<Vec<u8>>, Cow<'static, str>, H160, Vec<Vec<u8>>, Option<Option<u8>>, Vec<(u8, u8)>, isize, NonZeroI64, Vec<Option<bool>>,
    Compact<Box<u64>>, Box<[u16; 3]>, H256, Cow<'static, [u8]>, BTreeSet<String>, u16, u32, u128, i8, i16, i64, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI128, H128, H384, H512, H768,
    Result<(), ()>, Option<(u8, u8)>, [u8; 0], [u8; 1], Box<bool>, Box<char>, Compact<String>);

pub fn all() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| [nums(), others(), lists(), arrays(), maps(), options(), wrappers(), tuples()].concat())
}
/// Those whose visitors are shown what's decoded, rather than handing that over to some other visitor.
pub fn direct() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| {
        let these = entry!(One<Box<u64>>, One<Compact<u8>>, One<(Rc<u16>,)>, Pos<Cow<'static, u128>>, Pos<((Arc<u32>,),)>, One<Duration>, Pos<Range<u8>>, Map<Box<u8>>, Map<One<Box<u8>>>);
        let others = [nums(), others(), lists(), arrays(), maps(), options(), tuples()].concat();
        let wrapped = |e: &Entry| e.name.starts_with('H') || matches!((e.shape)(), Shape::Tup(t) if t.len() == 1);
        others.into_iter().filter(|e| !wrapped(e)).chain(these).collect()
    })
}
pub fn with_fields() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| all().iter().filter(|e| e.fields.is_some()).copied().collect())
}
pub fn with_codec() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| all().iter().filter(|e| e.codec.is_some() && !["Compact<()>", "(PhantomData<u8>, u8)"].contains(&e.name) && e.name != "Cow<'static, (u8, u8)>" && !has_map(&(e.shape)())).copied().collect())
}
/// Does it have a map in it (whose own type information isn't something it can be decoded from; a known finding)?
fn has_map(s: &Shape) -> bool {
    match s {
        Shape::Map(_) => true,
        Shape::List(t) | Shape::Sorted(t, _) | Shape::ArrN(t, _) | Shape::Opt(t) | Shape::Range(t) => has_map(t),
        Shape::Res(a, b) => has_map(a) || has_map(b),
        Shape::Tup(ts) => ts.iter().any(has_map),
        _ => false,
    }
}
