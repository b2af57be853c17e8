PROPERTY='P23'
NEEDS='a Java package whose name has an underscore'
BREAKS='the exported function is not named as the Java virtual machine looks for it'
EDITS=[('macroslib/src/java_jni/rust_code.rs','    escape_underscore(&ctx.cfg.package_name, &mut output);','    output.push_str(&ctx.cfg.package_name.replace(\'.\', "_"));')]
MAIN=r'''
fn main() {
    let d = out();
    let cfg = JavaConfig::new(d.clone(), "com.my_app".into());
    gen_with(Generator::new(LanguageConfig::JavaConfig(cfg)), r#"
foreign_class!(class Foo {
    self_type Foo;
    constructor Foo::new() -> Foo;
    fn Foo::get(&self) -> i32;
});
"#, &d).unwrap();
    let g = read(&d.join("glue.rs"));
    check(g.contains("Java_com_my_1app_Foo_do_1get"), "JNI name of a native method");
    check(g.contains("Java_com_my_1app_Foo_init"), "JNI name of the constructor");
}
'''
