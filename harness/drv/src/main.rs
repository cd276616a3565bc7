//! Properties of derived targets, and others to do with fields and variants.
mod all {
    include!(concat!(env!("OUT_DIR"), "/all.rs"));
}
pub use ::scale_decode as sd;
use std::sync::OnceLock;
use verif_kit::*;
use verif_model::*;
use verif_tgt::entries as es;

macro_rules! set {
    ($name:ident, $e:expr) => {
        fn $name() -> &'static [Entry] {
            static E: OnceLock<Vec<Entry>> = OnceLock::new();
            E.get_or_init(|| $e)
        }
    };
}
set!(structs, all::structs());
set!(enums, all::enums());
set!(skips, all::skips());
set!(with_fields, [structs(), skips()].concat().into_iter().filter(|e| e.fields.is_some()).collect());

set!(skipping_structs, skips().iter().filter(|e| e.fields.is_some()).copied().collect());
set!(derived, [structs(), enums(), skips()].concat());
set!(with_codec, derived().iter().filter(|e| e.codec.is_some()).copied().collect());

fn c08_structs(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, structs())
}
fn c08_tuples(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, es::tuples())
}
fn c08_maps(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, es::maps())
}
fn c08_faulty(ch: &mut Ch, cx: &mut Cx) -> R {
    faulty(ch, cx, structs())
}
fn c08_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    let set = if ch.chance(2, 3) { structs() } else { es::maps() };
    broken(ch, cx, set)
}
fn c09_enums(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, enums())
}
fn c09_options(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, es::options())
}
fn c09_faulty(ch: &mut Ch, cx: &mut Cx) -> R {
    let set = if ch.chance(2, 3) { enums() } else { es::options() };
    faulty(ch, cx, set)
}
fn c09_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    let set = if ch.chance(2, 3) { enums() } else { es::options() };
    broken(ch, cx, set)
}
fn c10_skips(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, skips())
}
fn c10_faulty(ch: &mut Ch, cx: &mut Cx) -> R {
    faulty(ch, cx, skips())
}
fn c10_broken(ch: &mut Ch, cx: &mut Cx) -> R {
    broken(ch, cx, skips())
}
fn c10_fields(ch: &mut Ch, cx: &mut Cx) -> R {
    as_fields(ch, cx, skipping_structs())
}
fn c12_structs(ch: &mut Ch, cx: &mut Cx) -> R {
    as_fields(ch, cx, with_fields())
}
fn c12_tuples(ch: &mut Ch, cx: &mut Cx) -> R {
    as_fields(ch, cx, es::with_fields())
}
fn c13_derived(ch: &mut Ch, cx: &mut Cx) -> R {
    partly(ch, cx, derived())
}
fn c16_derived(ch: &mut Ch, cx: &mut Cx) -> R {
    faulty(ch, cx, derived())
}
fn c16_malformed(ch: &mut Ch, cx: &mut Cx) -> R {
    verif_tgt::props::malformed(ch, cx, derived())
}
fn c20_derived(ch: &mut Ch, cx: &mut Cx) -> R {
    own_codec(ch, cx, with_codec())
}

const RULE: &str = "Target types from a fixed set of derived and built in ones, a random source type which more or less suits it (fields by name in any order with extra and missing ones, by position, variants renumbered and reordered, numbers of other widths, compact, more or fewer layers), and a random value of that. 'faulty' parts: some parts don't suit it, and the error has to say which. 'broken' parts: bytes are broken. Non-trivial: the source isn't a bare primitive and the value has at least one byte; for 'faulty', something doesn't suit it. Distinct: by target, source type and value.";

fn props() -> Vec<Prop> {
    macro_rules! parts {
        ($($name:literal $quick:literal $run:ident),* $(,)?) => {
            &[$(Part { name: $name, quick: $quick, thorough: $quick * 20, run: $run }),*]
        };
    }
    let mut out = vec![
        Prop { id: "C08", rule: RULE, parts: parts!("structs" 800_000 c08_structs, "tuples" 400_000 c08_tuples, "maps" 400_000 c08_maps, "faulty" 400_000 c08_faulty, "broken" 240_000 c08_broken), known: &[] },
        Prop { id: "C09", rule: RULE, parts: parts!("enums" 1_000_000 c09_enums, "options" 500_000 c09_options, "faulty" 500_000 c09_faulty, "broken" 300_000 c09_broken), known: &[] },
        Prop { id: "C10", rule: RULE, parts: parts!("skips" 1_000_000 c10_skips, "faulty" 500_000 c10_faulty, "broken" 300_000 c10_broken, "fields" 300_000 c10_fields), known: &[] },
        Prop { id: "C12", rule: RULE, parts: parts!("structs" 1_050_000 c12_structs, "tuples" 1_050_000 c12_tuples), known: &[] },
    ];
    let theirs = verif_tgt::props::props();
    let extend = |id: &str, extra: &'static [Part]| {
        let mut p = *theirs.iter().find(|p| p.id == id).unwrap();
        p.parts = Box::leak([p.parts, extra].concat().into_boxed_slice());
        p
    };
    out.push(extend("C13", parts!("derived" 600_000 c13_derived)));
    out.push(extend("C16", parts!("derived" 1_000_000 c16_derived, "derived malformed" 400_000 c16_malformed)));
    out.push(extend("C20", parts!("derived" 1_000_000 c20_derived)));
    out
}
fn main() {
    std::process::exit(run_main(Box::leak(props().into_boxed_slice())));
}
