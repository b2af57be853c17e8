PROPERTY='P01'
NEEDS='a formatter that fails (missing, killed, or refusing the text)'
BREAKS='the failure of rustfmt is swallowed and the unformatted text is written as if the run had succeeded'
EDITS=[('macroslib/src/lib.rs','''            let new_cnt =
                rustfmt_cnt(source_bytes, RustEdition::Edition2018).unwrap_or_else(|err| {
                    panic!("Error during running of rustfmt: {}", err);
                });''','''            let unformatted = source_bytes.clone();
            let new_cnt = rustfmt_cnt(source_bytes, RustEdition::Edition2018)
                .unwrap_or_else(|_err| unformatted);''')]
MAIN=r'''
fn main() {
    let d = out();
    let bin = d.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let fake = bin.join("rustfmt");
    std::fs::write(&fake, "#!/bin/sh\ncat > /dev/null\nexit 2\n").unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&fake, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", format!("{}:/usr/bin:/bin", bin.display()));
    let inp = d.join("g.rs.in");
    std::fs::write(&inp, "foreign_class!(class Foo { fn foo() -> i32; });").unwrap();
    let cfg = LanguageConfig::CppConfig(CppConfig::new(d.clone(), "demo".into()));
    let g = Generator::new(cfg).with_pointer_target_width(64).rustfmt_bindings(true);
    let outp = d.join("g.rs");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || g.expand("demo", &inp, &outp)));
    check(r.is_err(), "a failing rustfmt ends the run");
}
'''
