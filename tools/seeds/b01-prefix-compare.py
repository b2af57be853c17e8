PROPERTY='P02'
NEEDS='an output file whose new content is a proper prefix of the old one (declarations removed at the end, or leftovers at the end of the file)'
BREAKS='the comparison before the write accepts an old file that merely starts with the new content, so the stale tail stays on disk'
EDITS=[('macroslib/src/file_cache.rs','            if cur_cnt == self.cnt {','            if !self.cnt.is_empty() && cur_cnt.starts_with(&self.cnt) {')]
MAIN=r'''
fn main() {
    let d = out();
    let src = "foreign_class!(class Foo { fn foo() -> i32; });";
    gen("java", src, &d).unwrap();
    let java = d.join("Foo.java");
    let want = read(&java);
    check(want.contains("class Foo"), "first run");
    std::fs::write(&java, format!("{want}\n// stale tail of an older run\n")).unwrap();
    gen("java", src, &d).unwrap();
    check(read(&java) == want, "after a successful run the file has exactly the composed content");
}
'''
