fn main() {
    symx::engine::driver::main(symx::h::mesh::list());
}
