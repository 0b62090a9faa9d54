//! Copies the sources of the command line tools and party programs for `include!`. A file that is
//! included may not begin with inner attributes and inner documentation, which a program may have.
use std::{env, fs, path::Path};

const FILES: [&str; 7] = [
    "/repo/iris-mpc/src/bin/create_sample_data.rs",
    "/repo/plain-reference/src/bin/create_sample_data_plain.rs",
    "/repo/plain-reference/src/bin/find_match.rs",
    "/repo/iris-mpc/examples/aby3.rs",
    "/repo/iris-mpc/examples/aby3_mal.rs",
    "/repo/iris-mpc/examples/swift3.rs",
    "/repo/iris-mpc/examples/spdzwise.rs",
];

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for f in FILES {
        println!("cargo:rerun-if-changed={f}");
        let text = fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}"));
        let body: Vec<&str> = text.lines().map(|l| if l.starts_with("#![") && l.ends_with(']') || l.starts_with("//!") { "" } else { l }).collect();
        fs::write(Path::new(&out).join(Path::new(f).file_name().unwrap()), body.join("\n") + "\n").unwrap();
    }
}
