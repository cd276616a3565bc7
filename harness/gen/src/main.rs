//! Random programs which derive `DecodeAsType`.
mod all {
    include!(concat!(env!("OUT_DIR"), "/all.rs"));
}
pub use ::scale_decode as sd;
use std::sync::OnceLock;
use verif_kit::*;
use verif_model::*;

fn programs() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(all::programs)
}
fn some(f: fn(&Entry) -> bool) -> Vec<Entry> {
    programs().iter().filter(|e| f(e)).copied().collect()
}
fn with_fields() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| some(|e| e.fields.is_some()))
}
fn with_codec() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| some(|e| e.codec.is_some()))
}
fn targets(ch: &mut Ch, cx: &mut Cx) -> R {
    target(ch, cx, programs())
}
fn faults(ch: &mut Ch, cx: &mut Cx) -> R {
    faulty(ch, cx, programs())
}
fn breaks(ch: &mut Ch, cx: &mut Cx) -> R {
    broken(ch, cx, programs())
}
fn fields(ch: &mut Ch, cx: &mut Cx) -> R {
    as_fields(ch, cx, with_fields())
}
fn own(ch: &mut Ch, cx: &mut Cx) -> R {
    own_codec(ch, cx, with_codec())
}
const PROPS: &[Prop] = &[Prop {
    id: "C22",
    rule: "40 random modules of 1 to 4 type definitions using the derive (a function of the seed), compiled; for each case one of those types (with type parameters filled in), a random source type which more or less suits it, and a random value of that. 'faults': some parts don't suit it, and the error has to say which. 'breaks': bytes are broken. 'fields': from a list of fields. 'own': from its own type information, against codec. Non-trivial: the source isn't a bare primitive and the value has at least one byte; for 'faults', something doesn't suit it. Distinct: by target, source type and value.",
    parts: &[
        Part { name: "targets", quick: 600_000, thorough: 12_000_000, run: targets },
        Part { name: "faults", quick: 450_000, thorough: 9_000_000, run: faults },
        Part { name: "breaks", quick: 300_000, thorough: 6_000_000, run: breaks },
        Part { name: "fields", quick: 300_000, thorough: 6_000_000, run: fields },
        Part { name: "own", quick: 300_000, thorough: 6_000_000, run: own },
    ],
    known: &[],
}];
fn main() {
    std::process::exit(run_main(PROPS));
}
