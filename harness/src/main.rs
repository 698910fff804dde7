fn main() {
    ikalmc::cli::main(ikalmc::checks::REGISTRY, ikalmc::checks::probe);
}
