fn main() {
    symx::engine::driver::main(symx::h::local::list());
}
