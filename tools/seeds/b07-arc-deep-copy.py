PROPERTY='P26'
NEEDS='a Python class stored as Arc<Mutex<T>> with derive(Clone), passed to a function that takes Arc<Mutex<T>> by value'
BREAKS='the function gets a deep copy in a new Arc instead of a new reference to the shared object'
EDITS=[('macroslib/src/python/mod.rs','''            Reference::None => Ok(quote!{#rust_instance_code.clone()}),
            _ => Err(DiagnosticError::new(
                src_id,
                method_span,
                "Arc<Mutex<T>> can't''','''            Reference::None if class.clone_derived() => Ok(quote!{
                std::sync::Arc::new(std::sync::Mutex::new(#rust_instance_code.lock().unwrap().clone()))
            }),
            Reference::None => Ok(quote!{#rust_instance_code.clone()}),
            _ => Err(DiagnosticError::new(
                src_id,
                method_span,
                "Arc<Mutex<T>> can't''')]
MAIN=r'''
fn main() {
    let d = out();
    gen("python", r#"
foreign_class!(#[derive(Clone)] class Foo {
    self_type Foo;
    constructor Foo::new() -> Arc<Mutex<Foo>>;
    fn keep(x: Arc<Mutex<Foo>>);
});
"#, &d).unwrap();
    let g = read(&d.join("glue.rs"));
    let at = g.find("def keep").expect("method is exported");
    let g: String = g[at..].split_whitespace().collect();
    let end = g.find("Ok({").unwrap_or(0);
    let g = &g[end..];
    check(g.contains("keep("), "the call");
    let call = &g[g.find("keep(").unwrap()..];
    let call = &call[..call.find(';').unwrap()];
    check(!call.contains("Mutex::new(") && !call.contains("lock()"), "the shared pointer is counted, the object is not copied");
}
'''
