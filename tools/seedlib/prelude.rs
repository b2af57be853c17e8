#![allow(dead_code)]
use flapigen::*;
use std::path::{Path, PathBuf};

pub fn out() -> PathBuf {
    PathBuf::from(std::env::args().nth(1).unwrap())
}
/// runs the generator on one source text; Err holds the panic message
pub fn gen(lang: &str, src: &str, dir: &Path) -> Result<(), String> {
    std::fs::create_dir_all(dir).unwrap();
    let cfg = match lang {
        "cpp" => LanguageConfig::CppConfig(CppConfig::new(dir.into(), "demo".into())),
        "java" => LanguageConfig::JavaConfig(JavaConfig::new(dir.into(), "com.example".into())),
        _ => LanguageConfig::PythonConfig(PythonConfig::new("demo".into())),
    };
    gen_with(Generator::new(cfg), src, dir)
}
pub fn gen_with(g: Generator, src: &str, dir: &Path) -> Result<(), String> {
    let inp = dir.join("glue.rs.in");
    std::fs::write(&inp, src).unwrap();
    let out = dir.join("glue.rs");
    let g = g.with_pointer_target_width(64).rustfmt_bindings(false);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || g.expand("demo", &inp, &out)))
        .map_err(|e| e.downcast_ref::<String>().cloned().unwrap_or_else(|| "panic".into()))
}
pub fn read(p: &Path) -> String {
    std::fs::read_to_string(p).unwrap_or_default()
}
pub fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
pub fn check(c: bool, what: &str) {
    if !c {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
