fn main() {
    symx::engine::driver::main(symx::h::opt::list());
}
