fn main() {
    symx::engine::driver::main(symx::h::par::list());
}
