fn main() {
    symx::engine::driver::main(symx::h::misc::list());
}
