fn main() {
    let mut v = symx::h::global::list();
    v.extend(symx::h::history::list());
    symx::engine::driver::main(v);
}
