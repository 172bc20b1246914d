//! Literals of the code under test, as material for the generators (see ../harness/src/dictscan.rs).
#[path = "../harness/src/dictscan.rs"]
mod dictscan;

fn main() {
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed=../harness/src/dictscan.rs");
    let d = dictscan::read();
    let s = format!("pub static STRINGS: &[&str] = &{:?};\npub static NUMBERS: &[u128] = &{:?};\n", d.strings, d.numbers);
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("dict.rs"), s).unwrap();
}
