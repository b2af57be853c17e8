//! Dumps the syntax tree of Rust files as JSON, one document per file, for the checks in /verif.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::fmt::Write as _;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

enum J {
    N,
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn tok<T: ToTokens>(x: &T) -> J {
    J::S(x.to_token_stream().to_string())
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
macro_rules! node {
    ($k:expr, $sp:expr $(, $name:ident : $v:expr)* $(,)?) => {
        J::O(vec![("k", s($k)), ("l", J::I($sp.span().start().line as i64)) $(, (stringify!($name), $v))*])
    };
}
fn opt<T>(x: Option<T>, f: impl FnOnce(T) -> J) -> J {
    match x {
        Some(x) => f(x),
        None => J::N,
    }
}
fn list<'a, T: 'a>(x: impl IntoIterator<Item = &'a T>, f: impl Fn(&T) -> J) -> J {
    J::A(x.into_iter().map(|x| f(x)).collect())
}

fn tts(ts: TokenStream) -> J {
    let mut v = vec![];
    for t in ts {
        let line = t.span().start().line as i64;
        match t {
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "",
                };
                v.push(J::A(vec![s("g"), s(d), J::I(line), tts(g.stream())]));
            }
            TokenTree::Ident(i) => v.push(J::A(vec![s("i"), s(i.to_string()), J::I(line)])),
            TokenTree::Punct(p) => v.push(J::A(vec![
                s("p"),
                s(p.as_char().to_string()),
                J::I(line),
                J::B(p.spacing() == proc_macro2::Spacing::Joint),
            ])),
            TokenTree::Literal(l) => {
                let text = l.to_string();
                match syn::parse_str::<Lit>(&text) {
                    Ok(Lit::Str(x)) => v.push(J::A(vec![s("s"), s(x.value()), J::I(line)])),
                    _ => v.push(J::A(vec![s("l"), s(text), J::I(line)])),
                }
            }
        }
    }
    J::A(v)
}

struct Args(Punctuated<Expr, Token![,]>);
impl syn::parse::Parse for Args {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        Ok(Args(Punctuated::parse_terminated(input)?))
    }
}
struct Stmts(Vec<Stmt>);
impl syn::parse::Parse for Stmts {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        Ok(Stmts(Block::parse_within(input)?))
    }
}
struct Arms(Expr, Pat, Option<Expr>);
impl syn::parse::Parse for Arms {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let e = input.parse()?;
        input.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) {
            input.parse::<Token![if]>()?;
            Some(input.parse()?)
        } else {
            None
        };
        if input.peek(Token![,]) {
            input.parse::<Token![,]>()?;
        }
        Ok(Arms(e, p, g))
    }
}

fn raw_names(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Ident, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    for (i, t) in v.iter().enumerate() {
        if let (TokenTree::Ident(x), Some(TokenTree::Punct(p))) = (t, v.get(i + 1)) {
            let n = x.to_string();
            if p.as_char() == '=' && syn::parse_str::<syn::Ident>(&n).is_err() && n != "self" && n != "super" && n != "crate" && n != "_" {
                out.push(TokenTree::Ident(Ident::new_raw(&n, x.span())));
                continue;
            }
        }
        out.push(t.clone());
    }
    out.into_iter().collect()
}

fn mac(m: &Macro) -> J {
    let name = m.path.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::");
    let last = m.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
    if last == "matches" {
        if let Ok(Arms(e, p, g)) = syn::parse2::<Arms>(m.tokens.clone()) {
            return node!("Macro", m, name: s(name), e: expr(&e), pat: pat(&p), guard: opt(g.as_ref(), expr), toks: tts(m.tokens.clone()));
        }
    }
    let args = if last == "quote" || last == "quote_spanned" || last == "parse_quote" || last == "parse_type" {
        J::N
    } else {
        match syn::parse2::<Args>(m.tokens.clone()) {
            Ok(a) => J::A(a.0.iter().map(expr).collect()),
            // format arguments may be named by keywords
            Err(_) => match syn::parse2::<Args>(raw_names(m.tokens.clone())) {
                Ok(a) => J::A(a.0.iter().map(expr).collect()),
                Err(_) => J::N,
            },
        }
    };
    let st = if last == "foreign_typemap" { J::N } else {
    match args {
        J::N => match syn::parse2::<Stmts>(m.tokens.clone()) {
            Ok(a) => J::A(a.0.iter().map(stmt).collect()),
            Err(_) => J::N,
        },
        _ => J::N,
    }};
    node!("Macro", m, name: s(name), args: args, stmts: st, toks: tts(m.tokens.clone()))
}

fn attrs(a: &[Attribute]) -> J {
    J::A(a.iter().map(|x| tok(x)).collect())
}

fn lit(l: &Lit) -> J {
    match l {
        Lit::Str(x) => node!("Str", l, v: s(x.value())),
        Lit::ByteStr(x) => node!("ByteStr", l, v: s(String::from_utf8_lossy(&x.value()).to_string())),
        Lit::CStr(x) => node!("CStr", l, v: s(x.value().to_string_lossy().to_string())),
        Lit::Char(x) => node!("Char", l, v: s(x.value().to_string())),
        Lit::Int(x) => node!("Int", l, v: s(x.base10_digits()), suf: s(x.suffix())),
        Lit::Float(x) => node!("Float", l, v: s(x.base10_digits()), suf: s(x.suffix())),
        Lit::Bool(x) => node!("Bool", l, v: J::B(x.value)),
        _ => node!("Lit", l, v: tok(l)),
    }
}

fn block(b: &Block) -> J {
    J::A(b.stmts.iter().map(stmt).collect())
}

fn stmt(x: &Stmt) -> J {
    match x {
        Stmt::Local(l) => node!("Let", l, pat: pat(&l.pat), init: opt(l.init.as_ref(), |i| expr(&i.expr)),
            els: opt(l.init.as_ref().and_then(|i| i.diverge.as_ref()), |d| expr(&d.1)), attrs: attrs(&l.attrs)),
        Stmt::Item(i) => node!("ItemStmt", i, item: item(i)),
        Stmt::Expr(e, semi) => node!("ExprStmt", e, e: expr(e), semi: J::B(semi.is_some())),
        Stmt::Macro(m) => node!("ExprStmt", m, e: mac(&m.mac), semi: J::B(m.semi_token.is_some()), attrs: attrs(&m.attrs)),
    }
}

fn path(p: &Path) -> J {
    J::S(p.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::"))
}

fn member(m: &Member) -> J {
    match m {
        Member::Named(i) => s(i.to_string()),
        Member::Unnamed(i) => s(i.index.to_string()),
    }
}

fn expr(e: &Expr) -> J {
    match e {
        Expr::Lit(x) => lit(&x.lit),
        Expr::Path(x) => node!("Path", x, p: path(&x.path), full: tok(x), q: opt(x.qself.as_ref(), |q| tok(&q.ty))),
        Expr::Call(x) => node!("Call", x, f: expr(&x.func), args: list(&x.args, expr)),
        Expr::MethodCall(x) => node!("MCall", x.method, recv: expr(&x.receiver), m: s(x.method.to_string()), tf: opt(x.turbofish.as_ref(), |t| tok(t)), args: list(&x.args, expr)),
        Expr::Field(x) => node!("Field", x.member, base: expr(&x.base), f: member(&x.member)),
        Expr::Macro(x) => mac(&x.mac),
        Expr::Reference(x) => node!("Ref", x, mutable: J::B(x.mutability.is_some()), e: expr(&x.expr)),
        Expr::RawAddr(x) => node!("RawAddr", x, e: expr(&x.expr)),
        Expr::Unary(x) => node!("Un", x, op: tok(&x.op), e: expr(&x.expr)),
        Expr::Binary(x) => node!("Bin", x, op: tok(&x.op), a: expr(&x.left), b: expr(&x.right)),
        Expr::Assign(x) => node!("Assign", x, a: expr(&x.left), b: expr(&x.right)),
        Expr::Block(x) => node!("Block", x, b: block(&x.block), label: opt(x.label.as_ref(), |l| tok(l))),
        Expr::Unsafe(x) => node!("Unsafe", x, b: block(&x.block)),
        Expr::If(x) => node!("If", x, c: expr(&x.cond), t: block(&x.then_branch), e: opt(x.else_branch.as_ref(), |e| expr(&e.1))),
        Expr::Let(x) => node!("LetCond", x, pat: pat(&x.pat), e: expr(&x.expr)),
        Expr::Match(x) => node!("Match", x, e: expr(&x.expr), arms: list(&x.arms, |a| node!("Arm", a, pat: pat(&a.pat), guard: opt(a.guard.as_ref(), |g| expr(&g.1)), body: expr(&a.body)))),
        Expr::ForLoop(x) => node!("For", x, pat: pat(&x.pat), e: expr(&x.expr), b: block(&x.body), label: opt(x.label.as_ref(), |l| tok(l))),
        Expr::While(x) => node!("While", x, c: expr(&x.cond), b: block(&x.body), label: opt(x.label.as_ref(), |l| tok(l))),
        Expr::Loop(x) => node!("Loop", x, b: block(&x.body), label: opt(x.label.as_ref(), |l| tok(l))),
        Expr::Return(x) => node!("Return", x, e: opt(x.expr.as_ref(), |e| expr(e))),
        Expr::Break(x) => node!("Break", x, e: opt(x.expr.as_ref(), |e| expr(e)), label: opt(x.label.as_ref(), |l| tok(l))),
        Expr::Continue(x) => node!("Continue", x, label: opt(x.label.as_ref(), |l| tok(l))),
        Expr::Try(x) => node!("Try", x, e: expr(&x.expr)),
        Expr::Cast(x) => node!("Cast", x, e: expr(&x.expr), ty: tok(&x.ty)),
        Expr::Closure(x) => node!("Closure", x, params: list(&x.inputs, pat), body: expr(&x.body), mv: J::B(x.capture.is_some())),
        Expr::Struct(x) => node!("Struct", x, p: path(&x.path), full: tok(&x.path), fields: list(&x.fields, |f| J::A(vec![member(&f.member), expr(&f.expr)])), rest: opt(x.rest.as_ref(), |e| expr(e))),
        Expr::Tuple(x) => node!("Tuple", x, es: list(&x.elems, expr)),
        Expr::Array(x) => node!("Array", x, es: list(&x.elems, expr)),
        Expr::Repeat(x) => node!("Repeat", x, e: expr(&x.expr), n: expr(&x.len)),
        Expr::Index(x) => node!("Index", x, e: expr(&x.expr), i: expr(&x.index)),
        Expr::Paren(x) => expr(&x.expr),
        Expr::Group(x) => expr(&x.expr),
        Expr::Range(x) => node!("Range", x, a: opt(x.start.as_ref(), |e| expr(e)), b: opt(x.end.as_ref(), |e| expr(e)), closed: J::B(matches!(x.limits, RangeLimits::Closed(_)))),
        _ => node!("Other", e, t: tok(e)),
    }
}

fn pat(p: &Pat) -> J {
    match p {
        Pat::Ident(x) => node!("PIdent", x, n: s(x.ident.to_string()), by_ref: J::B(x.by_ref.is_some()), m: J::B(x.mutability.is_some()), sub: opt(x.subpat.as_ref(), |s| pat(&s.1))),
        Pat::Wild(x) => node!("PWild", x),
        Pat::Rest(x) => node!("PRest", x),
        Pat::Path(x) => node!("PPath", x, p: path(&x.path)),
        Pat::TupleStruct(x) => node!("PTS", x, p: path(&x.path), es: list(&x.elems, pat)),
        Pat::Struct(x) => node!("PStruct", x, p: path(&x.path), fields: list(&x.fields, |f| J::A(vec![member(&f.member), pat(&f.pat)])), rest: J::B(x.rest.is_some())),
        Pat::Tuple(x) => node!("PTuple", x, es: list(&x.elems, pat)),
        Pat::Slice(x) => node!("PSlice", x, es: list(&x.elems, pat)),
        Pat::Or(x) => node!("POr", x, es: list(&x.cases, pat)),
        Pat::Reference(x) => pat(&x.pat),
        Pat::Paren(x) => pat(&x.pat),
        Pat::Type(x) => node!("PType", x, p: pat(&x.pat), ty: tok(&x.ty)),
        Pat::Lit(x) => node!("PLit", x, v: lit(&x.lit)),
        Pat::Range(x) => node!("PRange", x, a: opt(x.start.as_ref(), |e| expr(e)), b: opt(x.end.as_ref(), |e| expr(e))),
        Pat::Macro(x) => node!("PMacro", x, t: tok(x)),
        _ => node!("POther", p, t: tok(p)),
    }
}

fn sig(x: &Signature) -> J {
    node!("Sig", x.ident, name: s(x.ident.to_string()), unsafety: J::B(x.unsafety.is_some()), abi: opt(x.abi.as_ref(), |a| tok(a)),
        generics: tok(&x.generics), wher: tok(&x.generics.where_clause), inputs: list(&x.inputs, |a| match a {
            FnArg::Receiver(r) => node!("Recv", r, t: tok(r)),
            FnArg::Typed(t) => node!("Arg", t, pat: pat(&t.pat), ty: tok(&t.ty)),
        }),
        variadic: J::B(x.variadic.is_some()),
        output: match &x.output { ReturnType::Default => J::N, ReturnType::Type(_, t) => tok(t) })
}

fn fields(f: &Fields) -> J {
    J::A(f.iter().map(|f| node!("F", f, name: opt(f.ident.as_ref(), |i| s(i.to_string())), ty: tok(&f.ty), vis: tok(&f.vis), attrs: attrs(&f.attrs))).collect())
}

fn item(i: &Item) -> J {
    match i {
        Item::Fn(x) => node!("Fn", x.sig.ident, name: s(x.sig.ident.to_string()), sig: sig(&x.sig), attrs: attrs(&x.attrs), vis: tok(&x.vis), b: block(&x.block), src: tok(x)),
        Item::Impl(x) => node!("Impl", x, generics: tok(&x.generics), wher: tok(&x.generics.where_clause), tr: opt(x.trait_.as_ref(), |t| tok(&t.1)), ty: tok(&x.self_ty), attrs: attrs(&x.attrs),
            items: list(&x.items, |y| match y {
                ImplItem::Fn(f) => node!("Fn", f.sig.ident, name: s(f.sig.ident.to_string()), sig: sig(&f.sig), attrs: attrs(&f.attrs), vis: tok(&f.vis), b: block(&f.block), src: tok(f)),
                ImplItem::Const(c) => node!("Const", c, name: s(c.ident.to_string()), ty: tok(&c.ty), e: expr(&c.expr)),
                ImplItem::Type(t) => node!("Type", t, name: s(t.ident.to_string()), ty: tok(&t.ty)),
                ImplItem::Macro(m) => node!("MacroItem", m, m: mac(&m.mac)),
                _ => node!("Other", y, t: tok(y)),
            })),
        Item::Struct(x) => node!("Struct", x.ident, name: s(x.ident.to_string()), generics: tok(&x.generics), fields: fields(&x.fields), attrs: attrs(&x.attrs), vis: tok(&x.vis)),
        Item::Union(x) => node!("Union", x.ident, name: s(x.ident.to_string()), generics: tok(&x.generics), fields: fields(&Fields::Named(x.fields.clone())), attrs: attrs(&x.attrs)),
        Item::Enum(x) => node!("Enum", x.ident, name: s(x.ident.to_string()), attrs: attrs(&x.attrs), variants: list(&x.variants, |v| node!("V", v, name: s(v.ident.to_string()), fields: fields(&v.fields), disc: opt(v.discriminant.as_ref(), |d| expr(&d.1)), attrs: attrs(&v.attrs)))),
        Item::Const(x) => node!("Const", x.ident, name: s(x.ident.to_string()), ty: tok(&x.ty), e: expr(&x.expr), attrs: attrs(&x.attrs)),
        Item::Static(x) => node!("Static", x.ident, name: s(x.ident.to_string()), ty: tok(&x.ty), e: expr(&x.expr), attrs: attrs(&x.attrs), m: J::B(matches!(x.mutability, StaticMutability::Mut(_)))),
        Item::Macro(x) => node!("MacroItem", x, ident: opt(x.ident.as_ref(), |i| s(i.to_string())), m: mac(&x.mac), attrs: attrs(&x.attrs)),
        Item::Mod(x) => node!("Mod", x.ident, name: s(x.ident.to_string()), attrs: attrs(&x.attrs), items: opt(x.content.as_ref(), |c| list(&c.1, item))),
        Item::Use(x) => node!("Use", x, t: tok(&x.tree), attrs: attrs(&x.attrs), vis: tok(&x.vis)),
        Item::Trait(x) => node!("Trait", x.ident, name: s(x.ident.to_string()), attrs: attrs(&x.attrs), unsafety: J::B(x.unsafety.is_some()), supers: tok(&x.supertraits), items: list(&x.items, |y| match y {
                TraitItem::Fn(f) => node!("Fn", f.sig.ident, name: s(f.sig.ident.to_string()), sig: sig(&f.sig), attrs: attrs(&f.attrs), b: opt(f.default.as_ref(), block)),
                _ => node!("Other", y, t: tok(y)),
            })),
        Item::Type(x) => node!("Type", x.ident, name: s(x.ident.to_string()), ty: tok(&x.ty), generics: tok(&x.generics), attrs: attrs(&x.attrs)),
        Item::ForeignMod(x) => node!("Extern", x, t: tok(x)),
        Item::ExternCrate(x) => node!("ExternCrate", x, t: tok(x)),
        _ => node!("Other", i, t: tok(i)),
    }
}

fn main() {
    let mut out = String::new();
    let mut args = std::env::args().skip(1).peekable();
    // --items: the text on standard input is a sequence of items; --expr / --stmts / --tokens likewise
    let mode = match args.peek().map(|x| x.as_str()) {
        Some("--stmts") | Some("--tokens") | Some("--items") => args.next(),
        _ => None,
    };
    let files: Vec<String> = args.collect();
    let mut docs = vec![];
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("{}: {}", f, e));
        let j = match mode.as_deref() {
            Some("--tokens") => text.parse::<TokenStream>().map(tts).map_err(|e| e.to_string()),
            Some("--stmts") => syn::parse_str::<Stmts>(&text).map(|x| J::A(x.0.iter().map(stmt).collect())).map_err(|e| format!("{} at {:?}", e, e.span().start())),
            _ => syn::parse_file(&text).map(|x| J::A(x.items.iter().map(item).collect())).map_err(|e| format!("{} at {:?}", e, e.span().start())),
        };
        docs.push(match j {
            Ok(j) => J::O(vec![("file", s(f)), ("items", j)]),
            Err(e) => J::O(vec![("file", s(f)), ("error", s(e))]),
        });
    }
    J::A(docs).write(&mut out);
    println!("{}", out);
}
