//! Literals of the code under test, as material for the generators: text and numbers that the code
//! treats specially are then met far more often than by chance, as are texts close to them.
//! (Workload only: no verdict depends on them.)
pub use crate::dictscan::Dict;
use std::sync::OnceLock;

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        if cfg!(miri) {
            // reading the sources takes an interpreter longer than the cases
            return Dict {
                strings: ["__bitvec__values__", "name", "values", "Some", "None", "true", "false", "0x"].map(String::from).to_vec(),
                numbers: vec![16, 32, 58, 63, 64, 128, 255, 256, 16383, 65535],
            };
        }
        crate::dictscan::read()
    })
}
