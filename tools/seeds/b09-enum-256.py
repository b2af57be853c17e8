PROPERTY='P25'
NEEDS='a C++ enum with more than 256 items'
BREAKS='items past the 256th get the number of an earlier item on the Rust side'
EDITS=[('macroslib/src/cpp/fenum.rs','        let idx = i as u32;\n        arms_to_u32','        let idx = u32::from(i as u8);\n        arms_to_u32')]
MAIN=r'''
fn main() {
    let d = out();
    let items: Vec<String> = (0..300).map(|i| format!("I{i} = Big::I{i}")).collect();
    gen("cpp", &format!("foreign_enum!(enum Big {{ {}, }});", items.join(", ")), &d).unwrap();
    let g: String = read(&d.join("glue.rs")).split_whitespace().collect();
    let h: String = std::fs::read_dir(&d).unwrap().filter_map(|e| e.ok()).filter(|e| e.path().extension().map_or(false, |x| x == "h" || x == "hpp"))
        .map(|e| read(&e.path())).collect::<String>().split_whitespace().collect();
    check(h.contains("I299=299"), "the C++ enumerator");
    check(g.contains("Big::I299=>299") && g.contains("299u32=>Big::I299"), "Rust and C++ use the same number");
}
'''
