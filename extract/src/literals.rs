//! The literals of the crate's functions, for the search: one line per literal, `function TAB kind TAB value`.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::*;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn walk(key: &str, ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => walk(key, g.stream(), out),
            TokenTree::Literal(l) => match Lit::new(l) {
                Lit::Int(i) => if let Ok(v) = i.base10_parse::<u64>() { out.push(format!("{}\ti\t{}", key, v)) },
                Lit::Byte(b) => out.push(format!("{}\ti\t{}", key, b.value())),
                Lit::Str(s) => out.push(format!("{}\ts\t{}", key, hex(s.value().as_bytes()))),
                Lit::ByteStr(s) => out.push(format!("{}\ts\t{}", key, hex(&s.value()))),
                Lit::Char(c) => out.push(format!("{}\ts\t{}", key, hex(c.value().to_string().as_bytes()))),
                _ => {}
            },
            _ => {}
        }
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let t = a.to_token_stream().to_string(); t.contains("cfg") && t.contains("test") })
}
fn items(v: &[Item], out: &mut Vec<String>) {
    for i in v {
        match i {
            Item::Fn(f) if !is_test(&f.attrs) => walk(&f.sig.ident.to_string(), f.block.to_token_stream(), out),
            Item::Impl(im) => for x in &im.items {
                match x {
                    ImplItem::Fn(f) => walk(&format!("{}::{}", im.self_ty.to_token_stream(), f.sig.ident).replace(' ', ""), f.block.to_token_stream(), out),
                    ImplItem::Const(c) => walk("const", c.expr.to_token_stream(), out),
                    _ => {}
                }
            },
            Item::Trait(t) => for x in &t.items {
                if let TraitItem::Fn(f) = x { if let Some(b) = &f.default { walk(&format!("{}::{}", t.ident, f.sig.ident), b.to_token_stream(), out) } }
            },
            Item::Const(c) => walk("const", c.expr.to_token_stream(), out),
            Item::Static(c) => walk("const", c.expr.to_token_stream(), out),
            Item::Macro(m) => walk("macro", m.mac.tokens.clone(), out),
            Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, x)) = &m.content { items(x, out) },
            _ => {}
        }
    }
}
fn dir(p: &std::path::Path, out: &mut Vec<String>) {
    let mut es: Vec<_> = match std::fs::read_dir(p) { Ok(d) => d.flatten().map(|e| e.path()).collect(), Err(_) => return };
    es.sort();
    for e in es {
        if e.is_dir() { dir(&e, out); continue; }
        let text = match std::fs::read_to_string(&e) { Ok(t) => t, Err(_) => continue };
        match e.extension().and_then(|x| x.to_str()) {
            Some("rs") => if let Ok(f) = parse_file(text.trim_start_matches('\u{feff}')) { items(&f.items, out) },
            // Terminals of the grammar, by rule.
            Some("pest") => for line in text.lines() {
                let rule = line.split('=').next().unwrap_or("").trim().to_string();
                let mut rest = line;
                while let Some(a) = rest.find('"') {
                    let b = match rest[a + 1..].find('"') { Some(b) => a + 1 + b, None => break };
                    out.push(format!("grammar {}\ts\t{}", rule, hex(rest[a + 1..b].as_bytes())));
                    rest = &rest[b + 1..];
                }
            },
            _ => {}
        }
    }
}
pub fn run(repo: &str) {
    let mut out = vec![];
    dir(&std::path::Path::new(repo).join("src"), &mut out);
    for l in out { println!("{}", l); }
}
