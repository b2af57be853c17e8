PROPERTY='P07'
NEEDS='several sources expanded in one run and an error in a foreign_enum of a source other than the first'
BREAKS='the diagnostic names the first source file, with a position that belongs to another file'
EDITS=[('macroslib/src/lib.rs','code_parse::parse_foreign_enum(*src_id, tts)?','code_parse::parse_foreign_enum(src_ids[0], tts)?')]
MAIN=r'''
fn main() {
    let d = out();
    if std::env::args().nth(2).is_some() {
        let cfg = LanguageConfig::CppConfig(CppConfig::new(d.clone(), "demo".into()));
        Generator::new(cfg).with_pointer_target_width(64).expand_many("demo", &[d.join("first.rs.in"), d.join("second.rs.in")], d.join("o.rs"));
        return;
    }
    std::fs::write(d.join("first.rs.in"), "foreign_class!(class Foo { fn foo() -> i32; });\n").unwrap();
    std::fs::write(d.join("second.rs.in"), "\n\nforeign_enum!(enum Color { Red = Color::Red, 7 });\n").unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(&d).arg("child").output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    check(!o.status.success(), "a malformed enum is an error");
    check(e.contains("error in demo: ") && e.contains("second.rs.in") && !e.contains("first.rs.in"), "the diagnostic names the file with the malformed enum");
}
'''
