//! The real cdisk source becomes a module of the simulator (see src/cli.rs).  A module pulled in
//! with include! cannot start with inner attributes, so those are turned into comments.

use std::{env, fs, path::Path};

fn main() {
    let src = "/repo/src/bin/cdisk.rs";
    println!("cargo:rerun-if-changed={}", src);
    let text = fs::read_to_string(src).expect("cdisk source");
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if line.starts_with("//!") || line.starts_with("#![") {
            out += "// ";
            out += t;
        } else {
            out += line;
        }
        out.push('\n');
    }
    let dest = Path::new(&env::var("OUT_DIR").unwrap()).join("cdisk.rs");
    fs::write(dest, out).expect("generated source");
}
