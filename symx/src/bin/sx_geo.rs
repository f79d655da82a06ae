fn main() {
    symx::engine::driver::main(symx::h::geo::list());
}
