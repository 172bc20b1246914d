use crate::Check;
pub mod api;
pub mod cost;
pub mod decode;
pub mod encode;
pub mod encode_errors;
pub mod hexss;
pub mod hostile;
pub mod macros;
pub mod memory;
pub mod portable;
pub mod rust_types;
pub mod serde_rust;
pub mod serde_tree;
pub mod text;
pub mod writer;

pub fn table() -> Vec<Check> {
    let mut v = vec![];
    v.extend(decode::table());
    v.extend(encode::table());
    v.extend(encode_errors::table());
    v.extend(hostile::table());
    v.extend(text::table());
    v.extend(hexss::table());
    v.extend(writer::table());
    v.extend(serde_tree::table());
    v.extend(serde_rust::table());
    v.extend(api::table());
    v.extend(macros::table());
    v.extend(memory::table());
    v.extend(portable::table());
    v.extend(cost::table());
    v
}

/// Run something which may end the process in a process of its own, on a stack of the usual size.
pub fn probe(what: &str) -> Result<(), String> {
    if crate::runner::San::from_env() != crate::runner::San::No {
        return Ok(());
    }
    let s = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["--probe", what])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    if s.success() {
        Ok(())
    } else {
        Err(format!("the process ended with {s}"))
    }
}

pub fn run_probe(what: &str) -> i32 {
    let what = what.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            match what.as_str() {
                "parse" => {
                    let s = "(".repeat(1_000_000);
                    let (r, _) = scale_value::stringify::from_str(&s);
                    assert!(r.is_err());
                }
                _ => unreachable!(),
            }
            0
        })
        .unwrap()
        .join()
        .unwrap_or(1)
}
