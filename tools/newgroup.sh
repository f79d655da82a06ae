#!/bin/bash
# development helper: register a new harness group (feature, module, binary)
g=$1; cd /verif/symx
grep -q "pub mod $g;" src/h/mod.rs || sed -i "s/^pub mod util;/#[cfg(feature = \"$g\")]\npub mod $g;\npub mod util;/" src/h/mod.rs
grep -q "^$g = " Cargo.toml || sed -i "s/^elem = \[\]/elem = []\n$g = []/; 0,/^\[profile.dev\]/s//[[bin]]\nname = \"sx_$g\"\nrequired-features = [\"$g\"]\n\n[profile.dev]/" Cargo.toml
printf 'fn main() {\n    symx::engine::driver::main(symx::h::%s::list());\n}\n' $g > src/bin/sx_$g.rs
