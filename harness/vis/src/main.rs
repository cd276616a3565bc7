fn main() {
    std::process::exit(verif_vis::props::main())
}
