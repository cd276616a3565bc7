use verif_codegen::*;
fn main() {
    let dir = std::env::var("OUT_DIR").unwrap();
    let mods = |from: u64, n: u64, k: Kind| (from..from + n).map(|i| module(i, k, 5, "crate", false)).collect::<Vec<_>>();
    let sets = [
        ("structs", mods(1000, 16, Kind::Struct)),
        ("enums", mods(2000, 14, Kind::Enum)),
        ("skips", mods(3000, 12, Kind::Skips)),
    ];
    write(dir.as_ref(), &sets).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
