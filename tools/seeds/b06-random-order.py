PROPERTY='P04'
NEEDS='Java output with several cached classes; shows only between two runs'
BREAKS='the table of cached JNI classes is a randomly seeded map, so the order of the generated items differs from run to run'
EDITS=[('macroslib/src/java_jni/find_cache.rs','use rustc_hash::FxHashMap;','use std::collections::HashMap as FxHashMap;')]
MAIN=r'''
fn main() {
    let d = out();
    let src = r#"
foreign_enum!(enum E1 { A = E1::A, B = E1::B, });
foreign_enum!(enum E2 { A = E2::A, B = E2::B, });
foreign_callback!(callback L { self_type L; a = L::a(&self, e: E1); b = L::b(&self, e: E2, s: &str); });
foreign_class!(class Foo { self_type Foo; constructor Foo::new() -> Foo; fn Foo::f(&self, x: Option<i32>) -> Option<i64>; fn Foo::g(&self) -> Result<String, String>; fn Foo::l(&self) -> Option<f64>; });
"#;
    let mut first = None;
    for i in 0..24 {
        let e = d.join(format!("r{i}"));
        gen("java", src, &e).unwrap();
        let t = read(&e.join("glue.rs"));
        check(t.len() > 1000, "generated");
        match &first {
            None => first = Some(t),
            Some(x) => check(*x == t, "two runs on the same input give the same text"),
        }
    }
}
'''
