use crate::sym::*;
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(PartialEq)]
enum T { Id(String), P(char), Lit(String), Open(char), Close(char) }
fn flatten(t: TokenStream, v: &mut Vec<T>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => v.push(T::Id(i.to_string())),
            TokenTree::Punct(p) => v.push(T::P(p.as_char())),
            TokenTree::Literal(l) => v.push(T::Lit(l.to_string())),
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ('(', ')'), Delimiter::Brace => ('{', '}'), Delimiter::Bracket => ('[', ']'), Delimiter::None => (' ', ' ') };
                if a != ' ' { v.push(T::Open(a)); }
                flatten(g.stream(), v);
                if a != ' ' { v.push(T::Close(b)); }
            }
        }
    }
}
fn tokens(s: &str) -> Vec<T> {
    let mut v = vec![];
    match s.parse::<TokenStream>() { Ok(t) => flatten(t, &mut v), Err(_) => check(false, "harness: text is lexed") }
    v
}
fn id(t: Option<&T>, s: &str) -> bool { match t { Some(T::Id(i)) => i.as_str() == s, _ => false } }
fn p(t: Option<&T>, c: char) -> bool { match t { Some(T::P(d)) => *d == c, _ => false } }
fn open(t: Option<&T>, c: char) -> bool { match t { Some(T::Open(d)) => *d == c, _ => false } }
/// End of the bracketed group starting at i.
fn skip_group(v: &[T], mut i: usize) -> usize {
    let mut d = 0;
    while i < v.len() {
        match v[i] { T::Open(_) => d += 1, T::Close(_) => d -= 1, _ => {} }
        i += 1;
        if d == 0 { break; }
    }
    i
}
/// End of `<...>` starting at i.
fn skip_angles(v: &[T], mut i: usize) -> usize {
    let mut d = 0;
    while i < v.len() {
        match v[i] { T::P('<') => d += 1, T::P('>') if !p(v.get(i - 1), '-') => d -= 1, T::Open(_) => { i = skip_group(v, i); continue; } _ => {} }
        i += 1;
        if d == 0 { break; }
    }
    i
}
/// A comma-separated list, with or without a comma at its end.
fn same_list(a: &[T], b: &[T]) -> bool {
    let a = if p(a.last(), ',') { &a[..a.len() - 1] } else { a };
    let b = if p(b.last(), ',') { &b[..b.len() - 1] } else { b };
    a == b
}
fn inner(v: &[T]) -> &[T] { if v.len() >= 2 { &v[1..v.len() - 1] } else { v } }
fn attributes(v: &[T], mut i: usize) -> usize {
    while p(v.get(i), '#') && open(v.get(i + 1), '[') { i = skip_group(v, i + 1); }
    i
}
/// The string an expression stands for, appended to out; false: not understood.
fn string(v: &[T], out: &mut String) -> bool {
    match v {
        [T::Lit(l)] => {
            let b = l.as_bytes();
            if b.len() < 2 || b[0] != b'"' || l.contains('\\') { return false; }
            out.push_str(&l[1..l.len() - 1]);
            true
        }
        [T::Open('(' | '{'), r @ .., T::Close(_)] => string(r, out),
        [T::Id(m), T::P('!'), T::Open(_), r @ .., T::Close(_)] if m.as_str() == "stringify" => match r {
            [T::Id(i)] => { out.push_str(i); true }
            _ => false,
        },
        [T::Id(m), T::P('!'), T::Open(_), r @ .., T::Close(_)] if m.as_str() == "concat" => {
            let mut i = 0;
            while i < r.len() {
                let s = i;
                while i < r.len() && !p(r.get(i), ',') { if let T::Open(_) = r[i] { i = skip_group(r, i); } else { i += 1; } }
                if !string(&r[s..i], out) { return false; }
                i += 1;
            }
            true
        }
        // a path in front of the macro
        [T::P(':'), T::P(':'), T::Id(a), T::P(':'), T::P(':'), r @ ..] if a.as_str() == "core" || a.as_str() == "std" => string(r, out),
        _ => false,
    }
}
struct Def<'a> { attrs: &'a str, name: &'a str, decl: &'a str, imp: &'a str, ty: &'a str, wher: &'a str, concrete: bool, before: &'a str, after: &'a str }
/// Runs the macro on a definition and judges what it generates.
fn judge(d: &Def) {
    let text = [d.attrs, " ", d.before, " ", d.name, d.decl, " ", d.after].concat();
    if native() { for s in [&text, d.name, d.imp, d.ty, d.wher] { println!("DEF {:?}", s); } }
    let input = match text.parse::<TokenStream>() { Ok(t) => t, Err(_) => { check(false, "harness: definition is lexed"); return; } };
    let mut v = vec![];
    flatten(derive_src::entry(input), &mut v);
    let v = &v[..];
    let mut i = attributes(v, 0);
    check(id(v.get(i), "impl"), "an implementation is generated");
    i += 1;
    let g = if p(v.get(i), '<') { let s = i; i = skip_angles(v, i); inner(&v[s..i]) } else { &[] };
    let imp = tokens(d.imp);
    check(same_list(g, inner(&imp)), "the implementation has the generics of the definition");
    let s = i;
    while i < v.len() && !id(v.get(i), "for") { i += 1; }
    check(i > s && id(v.get(i - 1), "Component"), "Component is implemented");
    i += 1;
    check(id(v.get(i), d.name), "it is implemented for the type");
    i += 1;
    let g = if p(v.get(i), '<') { let s = i; i = skip_angles(v, i); inner(&v[s..i]) } else { &[] };
    let ty = tokens(d.ty);
    check(same_list(g, inner(&ty)), "the type is given its parameters");
    let s = i;
    while i < v.len() && !(open(v.get(i), '{')) { i = if let T::Open(_) = v[i] { skip_group(v, i) } else { i + 1 }; }
    let w = tokens(d.wher);
    let (a, b) = (&v[s..i], &w[..]);
    let (a, b) = (if id(a.first(), "where") { &a[1..] } else { a }, if id(b.first(), "where") { &b[1..] } else { b });
    // predicates on no parameter hold anyway
    let dropped = d.concrete && a.is_empty();
    check(dropped || same_list(a, b), "the where clause is preserved");
    check(open(v.get(i), '{'), "the implementation has a body");
    let e = skip_group(v, i);
    check(e == v.len(), "nothing else is generated");
    let body = inner(&v[i..e]);
    let i = attributes(body, 0);
    check(id(body.get(i), "const") && id(body.get(i + 1), "NAME") && p(body.get(i + 2), ':'), "NAME is defined");
    let mut j = i + 3;
    while j < body.len() && !p(body.get(j), '=') { j += 1; }
    let s = j + 1;
    while j < body.len() && !p(body.get(j), ';') { j += 1; }
    check(j + 1 == body.len(), "nothing but NAME is defined");
    let mut out = String::new();
    if s <= j && string(&body[s..j], &mut out) { check(out.as_str() == d.name, "NAME is the name of the type"); reach(0); }
    else { reach(1); }
    log(v.len() as u64);
}

const PARAMS: [(&str, &str, &str, &str); 9] = [
    // declaration, in the implementation, as an argument, in PhantomData
    ("'a", "'a", "'a", "&'a ()"),
    ("'b: 'static", "'b: 'static", "'b", "&'b ()"),
    ("T", "T", "T", "*const T"),
    ("U: Clone + Into<[u8; 2]>", "U: Clone + Into<[u8; 2]>", "U", "*const U"),
    ("X: ?Sized + Iterator<Item = Option<u8>>", "X: ?Sized + Iterator<Item = Option<u8>>", "X", "*const X"),
    ("const N: usize", "const N: usize", "N", ""),
    ("V = u8", "V", "V", "*const V"),
    ("W: ?Sized + Fn(u8) -> u8 = dyn Fn(u8) -> u8", "W: ?Sized + Fn(u8) -> u8", "W", "*const W"),
    ("const M: bool = true", "const M: bool", "M", ""),
];
const WHERES: [&str; 7] = ["", "where", "where u8: Copy", "where u8: Copy,", "where [u8; 3]: Copy, for<'x> &'x str: Send, Vec<u8>: Sized", "where Option<Vec<u8>>: Clone, u8: PartialEq<u8>", "where for<'x> fn(&'x u8) -> u8: Copy, (u8, [u16; 4]): Sized,"];
fn generics(mask: u32, trailing: bool) -> [String; 4] {
    let mut r = [String::new(), String::new(), String::new(), String::new()];
    for (i, q) in PARAMS.iter().enumerate() {
        if mask >> i & 1 == 0 { continue; }
        for (o, s) in r.iter_mut().zip([q.0, q.1, q.2, q.3]) {
            if s.is_empty() { continue; }
            if !o.is_empty() { o.push_str(", "); }
            o.push_str(s);
        }
    }
    if !r[3].is_empty() { r[3].push(','); }
    if mask == 0 { return r; }
    if trailing { r[0].push(','); }
    for o in r[..3].iter_mut() { *o = ["<", o, ">"].concat(); }
    r
}
/// a where clause on the parameters
fn own(mask: u32) -> String {
    let mut r = String::from("where u8: Copy");
    for (b, t) in [(2, ", T: Copy + Send"), (3, ", U: PartialEq<[u8; 2]>, for<'x> &'x U: IntoIterator<Item = &'x u8>"), (0, ", &'a u8: Copy, 'a: 'a"), (5, ", [u8; N]: Default"), (6, ", V: Clone,")] {
        if mask >> b & 1 == 1 { r.push_str(t); }
    }
    r
}
/// kinds of definitions: unit, tuple and braced structs, enums
fn body(kind: u32, wher: &str, phantom: &str) -> (&'static str, String) {
    let ph = ["::std::marker::PhantomData<(", phantom, ")>"].concat();
    match kind {
        0 => ("struct", [" ", wher, ";"].concat()),
        1 => ("struct", ["(pub u32, ", &ph, ") ", wher, ";"].concat()),
        2 => ("struct", [wher, " { pub a: Vec<[f32; 4]>, /// field\n #[allow(dead_code)] pub(crate) b: ", &ph, ", r#type: fn(u8) -> i8 }"].concat()),
        3 => ("enum", [wher, " { A, #[allow(dead_code)] B { x: u8, y: ", &ph, " }, C(u16, ", &ph, ") }"].concat()),
        4 => ("enum", [wher, " { Zero = 0, One = 1 + 2, Two }"].concat()),
        _ => ("struct", [wher, " { b: ", &ph, " }"].concat()),
    }
}
const ATTRS: [&str; 4] = ["", "/// Documented.\n#[allow(dead_code)] #[doc = \"x\"]", "#[repr(C)] pub", "#[allow(non_camel_case_types)] pub(crate)"];
fn one(kind: u32, attrs: u32, mask: u32, trailing: bool, wher: usize, name: &str) {
    let g = generics(mask, trailing);
    let own = own(mask);
    let w = if wher < WHERES.len() { WHERES[wher] } else { &own };
    let (before, after) = body(kind, w, &g[3]);
    judge(&Def { attrs: ATTRS[attrs as usize], name, decl: &g[0], imp: &g[1], ty: &g[2], wher: w, concrete: wher < WHERES.len() || mask & 0x6d == 0, before, after: &after });
}
const NAMES: [&str; 9] = ["A", "_Hidden", "lower_case", "SCREAMING_CASE_9", "X__", "Größe", "Ab1", "Component2", "AVeryLongTypeNameThatGoesOnAndOnForMoreThanSixtyFourBytesInTotal_1"];

/// Every kind of definition, visibility and where clause.
#[no_mangle]
pub extern "C" fn h_c30_shapes() {
    let kind = pick(6);
    let attrs = pick(4);
    let wher = pick(8) as usize;
    let name = NAMES[if kind == 2 { pick(9) } else { 3 * pick(3) } as usize];
    let mask = [0, 4, 1, 0x20, 0x24, 0x1ff][pick(6) as usize];
    // parameters have to be used, where there are fields
    if (kind == 0 || kind == 4) && mask & !0x120 != 0 { return reach(0); }
    if attrs == 2 && (kind == 0 || kind == 3 || kind == 4) { return reach(0); }
    one(kind, attrs, mask, false, wher, name);
}
/// Every subset of the generic parameters.
#[no_mangle]
pub extern "C" fn h_c30_params() {
    let mask = pick(512);
    let wher = [0, 7][pick(2) as usize];
    one(5, 0, mask, pick(2) == 1, wher, "Thing");
}
/// Any name (that is no keyword: it starts with a capital or an underscore, or ends in a digit or an underscore).
fn name(n: usize) -> String {
    let mut b = Vec::new();
    let small = n > 1 && pick(2) == 1;
    for i in 0..n {
        let c = any_u8();
        let up = (c >= b'A') & (c <= b'Z');
        let lo = (c >= b'a') & (c <= b'z');
        let di = (c >= b'0') & (c <= b'9');
        let un = c == b'_';
        assume(if small { if i == 0 { lo } else if i == n - 1 { di | un } else { lo | up | di | un } } else if i == 0 { up | (un & (n > 1)) } else { lo | up | di | un });
        b.push(c);
    }
    if n == 4 { assume(!((b[0] == b'S') & (b[1] == b'e') & (b[2] == b'l') & (b[3] == b'f'))); }
    unsafe { String::from_utf8_unchecked(b) }
}
#[no_mangle]
pub extern "C" fn h_c30_names() {
    let n = 1 + pick(6) as usize;
    let kind = if n <= 3 { [0, 2, 3][pick(3) as usize] } else { 5 };
    one(kind, 0, 0, false, 0, &name(n));
}
