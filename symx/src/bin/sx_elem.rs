fn main() {
    symx::engine::driver::main(symx::h::elem::list());
}
