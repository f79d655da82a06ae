fn main() {
    symx::engine::driver::main(symx::h::solid::list());
}
