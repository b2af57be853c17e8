PROPERTY='P08'
NEEDS='a callback interface with two methods of the same foreign name'
BREAKS='the second method of an overloaded callback is dropped without any error'
EDITS=[('macroslib/src/code_parse.rs','''            let out_type: syn::ReturnType = item_parser.parse()?;
            item_parser.parse::<Token![;]>()?;
            items.push(ForeignInterfaceMethod {''','''            let out_type: syn::ReturnType = item_parser.parse()?;
            item_parser.parse::<Token![;]>()?;
            if items
                .iter()
                .any(|x: &ForeignInterfaceMethod| x.name == func_name)
            {
                continue;
            }
            items.push(ForeignInterfaceMethod {''')]
MAIN=r'''
fn main() {
    let d = out();
    gen("java", r#"
foreign_callback!(callback Listener {
    self_type Listener;
    onEvent = Listener::on_event(&self, code: i32);
    onEvent = Listener::on_named_event(&self, code: i32, sub: i32);
});
"#, &d).unwrap();
    let j = read(&d.join("Listener.java"));
    check(j.matches("onEvent").count() == 2, "both declared callback methods are generated");
    check(squeeze(&read(&d.join("glue.rs"))).contains("on_named_event"), "Rust side of the second method");
}
'''
