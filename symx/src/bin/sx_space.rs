fn main() {
    symx::engine::driver::main(symx::h::space::list());
}
