fn main() {
    symx::engine::driver::main(symx::h::quad::list());
}
