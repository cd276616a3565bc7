use verif_codegen::*;
fn main() {
    let dir = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mods = (0..40).map(|i| module(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i * 7919), [Kind::Struct, Kind::Enum, Kind::Skips, Kind::Any][i as usize % 4], 4, "crate", true)).collect();
    write(dir.as_ref(), &[("programs", mods)]).unwrap();
}
