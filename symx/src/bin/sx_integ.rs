fn main() {
    symx::engine::driver::main(symx::h::integ::list());
}
