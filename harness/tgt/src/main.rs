fn main() {
    std::process::exit(verif_tgt::props::main());
}
