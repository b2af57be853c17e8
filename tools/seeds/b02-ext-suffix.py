PROPERTY='P03'
NEEDS='clean-up switched on and a foreign file in the output folder whose extension merely ends like the generated ones'
BREAKS='clean-up of the C++ output folder deletes user files such as notes.xh that the generator never writes'
EDITS=[('macroslib/src/cpp/mod.rs','''                    if (ext == "h" || ext == "hpp") && !generated_foreign_files.contains(path) {''','''                    let ext = ext.to_string_lossy();
                    if (ext.ends_with('h') || ext == "hpp") && !generated_foreign_files.contains(path) {''')]
MAIN=r'''
fn main() {
    let d = out();
    for n in ["build.sh", "old.h", "notes.txt"] {
        std::fs::write(d.join(n), "x").unwrap();
    }
    let cfg = LanguageConfig::CppConfig(CppConfig::new(d.clone(), "demo".into()));
    gen_with(Generator::new(cfg).remove_not_generated_files_from_output_directory(true), "foreign_class!(class Foo { fn foo() -> i32; });", &d).unwrap();
    check(!d.join("old.h").exists(), "stale header removed");
    check(d.join("notes.txt").exists(), "text file kept");
    check(d.join("build.sh").exists(), "shell script kept");
}
'''
