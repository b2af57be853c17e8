PROPERTY='P22'
NEEDS='a Java method with more object arguments than the limit of the generated fence class'
BREAKS='arguments past the limit are not kept reachable during the native call'
EDITS=[('macroslib/src/java_jni/fclass.rs','''            if protect_args.len() > max_args {
                return Err(DiagnosticError::new2(
                    ctx_span,
                    format!(
                        "Too many arguments for arguments protection {} > {}, increase {} limit",
                        protect_args.len(),
                        max_args,
                        stringify!(MAX_REACHABILITY_FENCE_ARGS)
                    ),
                ));
            }
''','''            if protect_args.len() > max_args {
                log::warn!(
                    "{:?}: too many arguments for protection {} > {}, increase {} limit",
                    ctx_span,
                    protect_args.len(),
                    max_args,
                    stringify!(MAX_REACHABILITY_FENCE_ARGS)
                );
                protect_args.truncate(max_args);
            }
''')]
MAIN=r'''
fn main() {
    let d = out();
    let cfg = JavaConfig::new(d.clone(), "com.example".into()).use_reachability_fence(JavaReachabilityFence::GenerateFence(2));
    let r = gen_with(Generator::new(LanguageConfig::JavaConfig(cfg)), r#"
foreign_class!(class Foo {
    self_type Foo;
    constructor Foo::new() -> Foo;
    fn Foo::mix(a: &Foo, b: &Foo, c: &Foo);
});
"#, &d);
    if r.is_ok() {
        let j: String = read(&d.join("Foo.java")).split_whitespace().collect();
        let at = j.find("reachabilityFence").map(|i| &j[i..]).unwrap_or("");
        let end = at.find(';').unwrap_or(0);
        check(at[..end].contains("(a,b,c)"), "every object argument is kept reachable, or the method is refused");
    }
}
'''
