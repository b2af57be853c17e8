PROPERTY='P27'
NEEDS='a Python call that passes a sequence with an element that is not a value of the enum to a slice argument'
BREAKS='elements whose conversion fails are left out of the slice instead of raising the exception'
EDITS=[('macroslib/src/python/mod.rs','''            quote! {
                &#arg_name_ident.into_iter().map(|inner| Ok(#inner_conversion)).collect::<cpython::PyResult<Vec<_>>>()?
            },''','''            quote! {
                &#arg_name_ident
                    .into_iter()
                    .map(|inner| -> cpython::PyResult<_> { Ok(#inner_conversion) })
                    .flatten()
                    .collect::<Vec<_>>()
            },''')]
MAIN=r'''
fn main() {
    let d = out();
    gen("python", r#"
foreign_enum!(enum Kind { A = Kind::A, B = Kind::B, });
foreign_class!(class Foo {
    self_type Foo;
    constructor Foo::new() -> Foo;
    fn Foo::take(x: &[Kind]) -> u32;
});
"#, &d).unwrap();
    let g: String = read(&d.join("glue.rs")).split_whitespace().collect();
    let at = g.find("deftake").expect("method is exported");
    let end = g[at..].find("fnrust_instance").map(|x| x + at).unwrap_or(g.len());
    // stand-ins for the binding; the body of the generated method is compiled and run
    let body = &g[at..end];
    let open = body.find("{").unwrap();
    let mut depth = 0;
    let mut close = open;
    for (i, c) in body.char_indices().skip(open) {
        if c == '{' { depth += 1 }
        if c == '}' { depth -= 1; if depth == 0 { close = i; break } }
    }
    let mut raw = read(&d.join("glue.rs"));
    raw = raw[raw.find("def take").or_else(|| raw.find("take (")).unwrap_or(0)..].to_string();
    let _ = close;
    let o = raw.find('{').unwrap();
    let mut depth = 0;
    let mut c2 = o;
    for (i, c) in raw.char_indices().skip(raw[..o].chars().count()) {
        if c == '{' { depth += 1 }
        if c == '}' { depth -= 1; if depth == 0 { c2 = i; break } }
    }
    let body = &raw[o..=c2];
    let prog = format!(r#"
#![allow(warnings)]
mod cpython {{
    #[derive(Clone, Copy)] pub struct Python<'a>(pub std::marker::PhantomData<&'a ()>);
    #[derive(Debug)] pub struct PyErr;
    pub type PyResult<T> = Result<T, PyErr>;
}}
#[derive(Clone, Copy)] pub enum Kind {{ A, B }}
pub struct Foo;
impl Foo {{ pub fn take(x: &[Kind]) -> u32 {{ x.len() as u32 }} }}
mod py_kind {{
    pub fn from_u32(py: super::cpython::Python, v: u32) -> super::cpython::PyResult<super::Kind> {{
        match v {{ 0 => Ok(super::Kind::A), 1 => Ok(super::Kind::B), _ => Err(super::cpython::PyErr) }}
    }}
}}
mod py_foo {{
    use super::*;
    pub fn take(py: cpython::Python, x: Vec<u32>) -> cpython::PyResult<u32> {body}
}}
fn main() {{
    let py = cpython::Python(std::marker::PhantomData);
    let good = matches!(py_foo::take(py, vec![0, 1, 1]), Ok(3));
    let bad = py_foo::take(py, vec![0, 7, 1]).is_err();
    std::process::exit(if !good {{ 10 }} else if !bad {{ 11 }} else {{ 0 }});
}}
"#);
    std::fs::write(d.join("run.rs"), prog).unwrap();
    let s = std::process::Command::new("rustc").args(["--edition", "2021", "-o"]).arg(d.join("run")).arg(d.join("run.rs")).status().unwrap();
    check(s.success(), "the generated body compiles");
    let s = std::process::Command::new(d.join("run")).status().unwrap();
    check(s.code() != Some(10), "a good sequence is converted");
    check(s.success(), "a sequence with an invalid element raises an exception");
}
'''
