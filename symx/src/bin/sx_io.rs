fn main() {
    symx::engine::driver::main(symx::h::io::list());
}
