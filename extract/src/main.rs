//! Makes the file the verifier checks from the crate's source and the contract files.
//!
//! Every function body in the output is the body in the crate, desugared; see DESIGN.md for the list of steps.
mod unref;
mod contracts;
mod grammar;
mod krate;
mod literals;
mod macros;
mod rewrite;
mod ty;

use contracts::{norm, Contract, Contracts};
use krate::*;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use rewrite::{fix_type, Rw};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;
use syn::*;
use ty::*;

struct Trait {
    name: String,
    item: ItemTrait,
}

struct Blanket {
    trait_name: String,
    param: String,
    item: ItemImpl,
    bounds: HashMap<String, Vec<(String, String)>>,
}

struct Emit {
    key: String,
    owner: Option<String>,
    /// trait and type
    of_trait: Option<(String, String)>,
    sig: Signature,
    block: Block,
    self_ty: String,
    bounds: HashMap<String, Vec<(String, String)>>,
    contract: Contract,
}

struct Done {
    key: String,
    owner: Option<String>,
    of_trait: Option<(String, String)>,
    head: String,
    body: Option<String>,
    status: String,
    missing: Vec<String>,
    inlined: Vec<String>,
    loops: Vec<(usize, String, String)>,
    contract: Contract,
    strs: BTreeSet<String>,
    pre: Vec<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn replace_ident(ts: TokenStream, from: &str, to: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == from => {
                let s: TokenStream = to.parse().unwrap();
                s.into_iter().next().unwrap()
            }
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), from, to));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

fn item_fields(f: &Fields) -> Vec<(String, Ty)> {
    f.iter()
        .enumerate()
        .map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), from_syn(&f.ty, "")))
        .collect()
}

fn fields_text(f: &Fields, vis: bool) -> String {
    let p = if vis { "pub " } else { "" };
    match f {
        Fields::Named(n) => format!("{{ {} }}", n.named.iter().map(|f| format!("{}{}: {}", p, f.ident.as_ref().unwrap(), fix_type(&f.ty).to_token_stream())).collect::<Vec<_>>().join(", ")),
        Fields::Unnamed(n) => format!("({})", n.unnamed.iter().map(|f| format!("{}{}", p, fix_type(&f.ty).to_token_stream())).collect::<Vec<_>>().join(", ")),
        Fields::Unit => String::new(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let repo = get("--repo").unwrap();
    if args.iter().any(|a| a == "--literals") { literals::run(&repo); return; }
    let dir = get("--contracts").unwrap();
    let unit = get("--unit").unwrap();
    let out = get("--out").unwrap();
    let index = get("--index").unwrap();
    let external: BTreeSet<String> = get("--external").map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect()).unwrap_or_default();

    // ---- contracts
    let mut cs = Contracts::default();
    let mut texts: Vec<(String, String)> = vec![];
    for line in std::fs::read_to_string(format!("{}/{}.unit", dir, unit)).unwrap().lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') { continue; }
        let t = std::fs::read_to_string(format!("{}/{}", dir, line)).unwrap_or_else(|e| panic!("{}: {}", line, e));
        if line.ends_with(".rs") { texts.push((line.to_string(), t)) } else { cs.read(&t, line) }
    }

    // ---- the crate
    let mut k = Krate::default();
    let mut types: Vec<Item> = vec![];
    let mut traits: Vec<Trait> = vec![];
    let mut blankets: Vec<Blanket> = vec![];
    let mut impls_traits: Vec<(String, String, ImplItemFn)> = vec![];
    let mut all_text = String::new();
    for f in ["context/mod.rs", "context/api.rs", "context/modify_api.rs", "context/builder.rs", "context/parse.rs", "decode.rs"] {
        let text = std::fs::read_to_string(format!("{}/src/{}", repo, f)).unwrap().replace('\r', "");
        let file = parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", f, e));
        for it in file.items {
            let skipped = cs.skip_files.iter().any(|x| x == f);
            match &it {
                Item::Struct(s) if !is_test(&s.attrs) => {
                    k.structs.insert(s.ident.to_string(), item_fields(&s.fields));
                    if derives(&s.attrs).iter().any(|d| d == "Default") { k.defaults.push(s.ident.to_string()) }
                    if !skipped { types.push(it) }
                }
                Item::Enum(e) if !is_test(&e.attrs) => {
                    k.enums.insert(e.ident.to_string(), e.variants.iter().map(|v| (v.ident.to_string(), item_fields(&v.fields).into_iter().map(|x| x.1).collect())).collect());
                    for v in &e.variants {
                        // struct-like variants, for the types of their fields
                        if let Fields::Named(_) = v.fields { k.structs.insert(format!("{}::{}", e.ident, v.ident), item_fields(&v.fields)); }
                    }
                    if !skipped { types.push(it) }
                }
                Item::Fn(f) if !is_test(&f.attrs) => k.fns.push(FnInfo {
                    key: f.sig.ident.to_string(),
                    self_ty: None,
                    trait_name: None,
                    name: f.sig.ident.to_string(),
                    ret: match &f.sig.output { ReturnType::Type(_, t) => from_syn(t, ""), _ => Ty::Tuple(vec![]) },
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                }),
                Item::Trait(t) if !is_test(&t.attrs) => {
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            k.trait_fns.insert(f.sig.ident.to_string(), match &f.sig.output { ReturnType::Type(_, t) => from_syn(t, "Self"), _ => Ty::Tuple(vec![]) });
                        }
                    }
                    traits.push(Trait { name: t.ident.to_string(), item: t.clone() });
                }
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let st = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), t => t.to_token_stream().to_string() };
                    match &im.trait_ {
                        None => for i in &im.items {
                            if let ImplItem::Fn(f) = i {
                                if is_test(&f.attrs) { continue; }
                                k.fns.push(FnInfo {
                                    key: format!("{}::{}", st, f.sig.ident),
                                    self_ty: Some(st.clone()),
                                    trait_name: None,
                                    name: f.sig.ident.to_string(),
                                    ret: match &f.sig.output { ReturnType::Type(_, t) => from_syn(t, &st), _ => Ty::Tuple(vec![]) },
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                });
                            }
                        },
                        Some((_, tp, _)) => {
                            let tn = tp.segments.last().unwrap().ident.to_string();
                            let is_param = im.generics.type_params().any(|p| p.ident == st);
                            if is_param {
                                let mut bounds: HashMap<String, Vec<(String, String)>> = HashMap::new();
                                for p in im.generics.type_params() {
                                    for b in &p.bounds {
                                        if let TypeParamBound::Trait(t) = b {
                                            let s = t.path.segments.last().unwrap();
                                            if let PathArguments::AngleBracketed(a) = &s.arguments {
                                                if let Some(GenericArgument::Type(x)) = a.args.first() {
                                                    bounds.entry(s.ident.to_string()).or_default().push((p.ident.to_string(), x.to_token_stream().to_string()));
                                                }
                                            }
                                        }
                                    }
                                }
                                blankets.push(Blanket { trait_name: tn, param: st, item: im.clone(), bounds });
                            } else {
                                for i in &im.items { if let ImplItem::Fn(f) = i { impls_traits.push((tn.clone(), st.clone(), f.clone())) } }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        all_text.push_str(&text);
    }
    let flat = norm(&all_text);

    for f in &mut k.fns { unref::run(&mut f.block); }

    // ---- what is emitted
    let mut emits: Vec<Emit> = vec![];
    let mut lost: Vec<String> = vec![];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for f in &k.fns {
        if let Some(c) = cs.fns.get(&f.key) {
            seen.insert(f.key.clone());
            if c.skip || c.inline { continue; }
            emits.push(Emit { key: f.key.clone(), owner: f.self_ty.clone(), of_trait: None, sig: f.sig.clone(), block: f.block.clone(), self_ty: f.self_ty.clone().unwrap_or_default(), bounds: HashMap::new(), contract: c.clone() });
        }
    }
    for b in &blankets {
        let listed = match cs.mono.get(&b.trait_name) { Some(l) => l.clone(), None => continue };
        for i in &b.item.items {
            if let ImplItem::Fn(f) = i {
                let ck = format!("{}::{}", b.trait_name, f.sig.ident);
                let c = match cs.fns.get(&ck) { Some(c) => c.clone(), None => continue };
                seen.insert(ck.clone());
                let takes_self = f.sig.receiver().is_some();
                for t in PRIMS.iter().map(|s| s.to_string()) {
                    let used = flat.contains(&format!("{}::{}(", t, f.sig.ident)) || flat.contains(&format!("{}::{}::{}(", t, b.trait_name, f.sig.ident));
                    if !(if takes_self { listed.contains(&t) } else { used && listed.contains(&t) }) { continue; }
                    let sub = |ts: TokenStream| replace_ident(ts, &b.param, &t);
                    let mut sig = f.sig.clone();
                    for a in &mut sig.inputs { *a = parse2(sub(a.to_token_stream())).unwrap(); }
                    sig.output = parse2(sub(sig.output.to_token_stream())).unwrap();
                    let block: Block = parse2(sub(f.block.to_token_stream())).unwrap();
                    let mut c = cs.fns.get(&format!("{}<{}>", ck, t)).cloned().unwrap_or(c.clone());
                    c.spec = c.spec.replace("$T", &t);
                    for h in c.hints.values_mut() { *h = h.replace("$T", &t); }
                    let mut bounds = b.bounds.clone();
                    bounds.insert(format!("param:{}", b.param), vec![(String::new(), t.clone())]);
                    emits.push(Emit { key: format!("{}<{}>", ck, t), owner: None, of_trait: Some((b.trait_name.clone(), t.clone())), sig, block, self_ty: t.clone(), bounds, contract: c });
                }
            }
        }
    }
    for (key, c) in &cs.fns {
        let base = key.split('<').next().unwrap();
        if !seen.contains(base) && !c.inline { lost.push(key.clone()); }
    }
    lost.sort();

    // ---- bodies
    let with_contract: BTreeSet<String> = cs.fns.iter().filter(|(_, c)| !c.inline).map(|(k, _)| k.clone()).collect();
    let inline_ok = |f: &FnInfo| !with_contract.contains(&f.key);
    let mut dones: Vec<Done> = vec![];
    for e in &emits {
        dones.push(one(&k, e, &inline_ok, external.contains(&e.key)));
    }
    format_bodies(&mut dones);

    // ---- the file
    let mut o = String::new();
    let mut idx: Vec<serde_free::Fun> = vec![];
    o.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_assignments, unreachable_patterns, path_statements, unused_labels, bindings_with_variant_name)]\nuse vstd::prelude::*;\n");
    o.push_str("verus! {\n");
    for (_, t) in texts.iter().filter(|t| t.0.contains("shim")) { o.push_str(t); o.push('\n'); }
    o.push_str("// ---- types of the crate\n");
    for t in &types { emit_type(&mut o, t, &cs, &k); }
    if cs.grammar {
        let text = std::fs::read_to_string(format!("{}/src/proto.pest", repo)).unwrap();
        if let Some(p) = args.iter().position(|a| a == "--facts").and_then(|i| args.get(i + 1)) {
            std::fs::write(p, grammar::parse(&text).and_then(|g| g.facts()).unwrap_or_else(|e| panic!("proto.pest: {}", e))).unwrap();
        }
        o.push_str(&grammar::parse(&text).and_then(|g| g.emit()).unwrap_or_else(|e| panic!("proto.pest: {}", e)));
    }
    for t in &traits {
        if !cs.mono.contains_key(&t.name) { continue; }
        emit_trait(&mut o, t, &cs);
    }
    for (_, t) in texts.iter().filter(|t| !t.0.contains("shim")) { o.push_str(t); o.push('\n'); }
    o.push_str("// ---- functions of the crate\n");
    let mut impl_text: BTreeSet<String> = BTreeSet::new();
    for d in &dones {
        match (&d.owner, &d.of_trait) {
            (Some(t), _) => { let _ = writeln!(o, "impl {} {{", t); }
            (None, Some((tr, t))) => {
                let _ = writeln!(o, "impl {} for {} {{", tr, t);
                if impl_text.insert(format!("{} {}", tr, t)) {
                    if let Some(x) = cs.impls.get(tr) { o.push_str(&x.replace("$T", t)); }
                }
            }
            _ => {}
        }
        let start = o.lines().count() + 1;
        print_fn(&mut o, d);
        let end = o.lines().count();
        if d.owner.is_some() || d.of_trait.is_some() { o.push_str("}\n"); }
        idx.push(serde_free::Fun { key: d.key.clone(), start, end, status: d.status.clone(), missing: d.missing.clone(), inlined: d.inlined.clone(), loops: d.loops.iter().map(|l| format!("{} {}", l.1, l.2)).collect() });
    }
    o.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&out, &o).unwrap();
    std::fs::write(&index, serde_free::json(&idx, &lost)).unwrap();
}

mod serde_free {
    pub struct Fun { pub key: String, pub start: usize, pub end: usize, pub status: String, pub missing: Vec<String>, pub inlined: Vec<String>, pub loops: Vec<String> }
    fn s(x: &str) -> String { format!("\"{}\"", x.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ")) }
    fn l(x: &[String]) -> String { format!("[{}]", x.iter().map(|x| s(x)).collect::<Vec<_>>().join(", ")) }
    pub fn json(f: &[Fun], lost: &[String]) -> String {
        let fs: Vec<String> = f.iter().map(|f| format!("{{\"key\": {}, \"start\": {}, \"end\": {}, \"status\": {}, \"missing\": {}, \"inlined\": {}, \"loops\": {}}}", s(&f.key), f.start, f.end, s(&f.status), l(&f.missing), l(&f.inlined), l(&f.loops))).collect();
        format!("{{\"functions\": [\n{}\n], \"lost\": {}}}\n", fs.join(",\n"), l(lost))
    }
}

fn emit_type(o: &mut String, t: &Item, cs: &Contracts, k: &Krate) {
    let (name, ders, text, simple) = match t {
        Item::Struct(s) => {
            let n = s.ident.to_string();
            let f = fields_text(&s.fields, true);
            let simple = s.fields.iter().all(|f| simple_ty(&from_syn(&f.ty, ""), k));
            (n.clone(), derives(&s.attrs), format!("pub struct {} {}{}", n, f, if matches!(s.fields, Fields::Named(_)) { "" } else { ";" }), simple)
        }
        Item::Enum(e) => {
            let n = e.ident.to_string();
            let v: Vec<String> = e.variants.iter().map(|v| format!("{}{}", v.ident, fields_text(&v.fields, false))).collect();
            let simple = e.variants.iter().all(|v| v.fields.iter().all(|f| simple_ty(&from_syn(&f.ty, ""), k)));
            (n.clone(), derives(&e.attrs), format!("pub enum {} {{ {} }}", n, v.join(", ")), simple)
        }
        _ => return,
    };
    if cs.skip_types.contains(&name) { return; }
    if let Some(a) = cs.type_attrs.get(&name) { o.push_str(a); o.push('\n'); }
    let copy = ders.iter().any(|d| d == "Copy");
    let eq = ders.iter().any(|d| d == "PartialEq") && simple;
    if copy && eq { o.push_str("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"); }
    else if copy { o.push_str("#[derive(Clone, Copy)]\n"); }
    else if eq { o.push_str("#[derive(PartialEq, Eq, Structural)]\n"); }
    o.push_str(&text);
    o.push('\n');
    if eq {
        let _ = writeln!(o, "impl VxEq<{n}> for {n} {{ open spec fn eqv(&self, o: &{n}) -> bool {{ *self == *o }} fn vx_eq(&self, o: &{n}) -> (b: bool) {{ *self == *o }} }}", n = name);
    }
    if copy {
        let _ = writeln!(o, "impl VxClone for {n} {{ open spec fn ceq(&self, o: &{n}) -> bool {{ *self == *o }} fn vx_clone(&self) -> (r: {n}) {{ *self }} }}", n = name);
    }
    if let (Item::Struct(s), true) = (t, ders.iter().any(|d| d == "Default")) {
        let fs: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
        let spec = fs.iter().map(|f| format!("VxDefault::is_def(&self.{})", f)).collect::<Vec<_>>().join(" && ");
        let mk = fs.iter().map(|f| format!("{}: VxDefault::vx_default()", f)).collect::<Vec<_>>().join(", ");
        let _ = writeln!(o, "impl VxDefault for {n} {{ open spec fn is_def(&self) -> bool {{ {} }} fn vx_default() -> (r: {n}) {{ {n} {{ {} }} }} }}", spec, mk, n = name);
    }
}

fn simple_ty(t: &Ty, k: &Krate) -> bool {
    match t {
        Ty::Named(n, a) if a.is_empty() => {
            if n.starts_with('f') && PRIMS.contains(&n.as_str()) { return false; }
            PRIMS.contains(&n.as_str()) || n == "bool" || n == "char" || k.structs.get(n).map(|fs| fs.iter().all(|f| simple_ty(&f.1, k))).unwrap_or(false) || k.enums.get(n).map(|vs| vs.iter().all(|v| v.1.iter().all(|t| simple_ty(t, k)))).unwrap_or(false)
        }
        _ => false,
    }
}

fn emit_trait(o: &mut String, t: &Trait, cs: &Contracts) {
    let _ = writeln!(o, "pub trait {}: Sized {{", t.name);
    if let Some(x) = cs.traits.get(&t.name) { o.push_str(x); }
    for i in &t.item.items {
        if let TraitItem::Fn(f) = i {
            let c = cs.fns.get(&format!("{}::{}", t.name, f.sig.ident)).cloned().unwrap_or_default();
            let _ = writeln!(o, "    {}\n{}    ;", sig_text(&f.sig, &c, false).0, c.spec);
        }
    }
    o.push_str("}\n");
}

/// The head of a function and the statements that make its parameters mutable.
fn sig_text(sig: &Signature, c: &Contract, public: bool) -> (String, Vec<String>) {
    let p = if public { "pub " } else { "" };
    let mut pre = vec![];
    let mut ins = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    pre.push("let mut vx_self = self;".to_string());
                    ins.push("self".to_string());
                } else { ins.push(r.to_token_stream().to_string()); }
            }
            FnArg::Typed(t) => {
                let ty = fix_type(&t.ty).to_token_stream().to_string();
                match &*t.pat {
                    Pat::Ident(i) if i.mutability.is_some() => {
                        pre.push(format!("let mut {} = {};", i.ident, i.ident));
                        ins.push(format!("{}: {}", i.ident, ty));
                    }
                    p => ins.push(format!("{}: {}", p.to_token_stream(), ty)),
                }
            }
        }
    }
    if let Some(s) = &c.sig { return (format!("{}{}", p, s), pre); }
    let ret = match &sig.output { ReturnType::Type(_, t) => format!(" -> (r: {})", fix_type(t).to_token_stream()), _ => String::new() };
    (format!("{}fn {}{}({}){}", p, sig.ident, sig.generics.to_token_stream(), ins.join(", "), ret), pre)
}

fn one(k: &Krate, e: &Emit, inline_ok: &dyn Fn(&FnInfo) -> bool, force_external: bool) -> Done {
    let (head, pre) = sig_text(&e.sig, &e.contract, e.of_trait.is_none());
    let mut d = Done { key: e.key.clone(), owner: e.owner.clone(), of_trait: e.of_trait.clone(), head, body: None, status: String::new(), missing: vec![], inlined: vec![], loops: vec![], contract: e.contract.clone(), strs: BTreeSet::new(), pre };
    if e.contract.external { d.status = "assumed".into(); return d; }
    if force_external { d.status = "external: degraded".into(); return d; }
    let mut env = Env { k, self_ty: e.self_ty.clone(), scopes: vec![HashMap::new()] };
    let mut block = e.block.clone();
    for a in &e.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let t = Ty::named(&e.self_ty);
                let t = if r.reference.is_some() { Ty::Ref(r.mutability.is_some(), Box::new(t)) } else { t };
                env.set("self", t.clone());
                if r.reference.is_none() && r.mutability.is_some() {
                    env.set("vx_self", t);
                    block = parse2(replace_ident(block.to_token_stream(), "self", "vx_self")).unwrap();
                }
            }
            FnArg::Typed(t) => { let ty = from_syn(&t.ty, &e.self_ty); env.bind(&t.pat, &ty) }
        }
    }
    let ret = match &e.sig.output { ReturnType::Type(_, t) => from_syn(t, &e.self_ty), _ => Ty::Tuple(vec![]) };
    let mut rw = Rw {
        env, k, c: &e.contract, ret: ret.clone(), bounds: e.bounds.clone(), macros: HashMap::new(), entry: None, n: 0, loops: vec![], arms: vec![], strs: BTreeSet::new(), used: BTreeSet::new(), inline_ok, inlined: vec![], exits: rewrite::Exits::None, loop_counts: HashMap::new(),
    };
    let r = rw.block_in(&mut block, &ret, true);
    d.inlined = rw.inlined.clone();
    d.loops = rw.loops.clone();
    d.strs = rw.strs.clone();
    if let Err(m) = r {
        d.status = format!("external: {}", m);
        return d;
    }
    // `use ..::Entry` decides which of the two enums is meant
    let mut text = block.to_token_stream();
    if let Some(en) = &rw.entry { text = replace_ident(text, "Entry", en); }
    for (kind, key) in e.contract.hints.keys() {
        if kind.starts_with("loop") {
            if !rw.loops.iter().any(|l| l.1 == *key) { d.missing.push(format!("{} {}", kind, key)) }
        } else if kind == "start" {
        } else if !rw.used.contains(&(kind.clone(), key.clone())) { d.missing.push(format!("{} {}", kind, key)) }
    }
    d.missing.sort();
    d.missing.dedup();
    d.body = Some(text.to_string());
    d.status = "ok".into();
    d
}

fn format_bodies(ds: &mut [Done]) {
    let mut src = String::new();
    for (i, d) in ds.iter().enumerate() {
        if let Some(b) = &d.body { let _ = writeln!(src, "fn vx_f{}() {}", i, b); }
    }
    let mut p = std::process::Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=160,use_small_heuristics=Max"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .unwrap();
    p.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = p.wait_with_output().unwrap();
    let text = String::from_utf8(o.stdout).unwrap();
    assert!(o.status.success(), "rustfmt");
    let mut cur: Option<usize> = None;
    let mut bodies: HashMap<usize, String> = HashMap::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("fn vx_f") {
            let n: usize = r[..r.find('(').unwrap()].parse().unwrap();
            cur = Some(n);
            let rest = &r[r.find('{').unwrap() + 1..];
            let b = bodies.entry(n).or_default();
            if rest.trim() == "}" { cur = None } else if !rest.trim().is_empty() {
                // the whole on one line
                b.push_str(rest.trim().strip_suffix('}').unwrap_or(rest));
                b.push('\n');
                cur = None;
            }
            continue;
        }
        if l == "}" { cur = None; continue; }
        if let Some(n) = cur { let b = bodies.entry(n).or_default(); b.push_str(l); b.push('\n'); }
    }
    for (i, d) in ds.iter_mut().enumerate() {
        if d.body.is_some() { d.body = Some(bodies.remove(&i).unwrap_or_default()); }
    }
}

fn print_fn(o: &mut String, d: &Done) {
    for a in &d.contract.attrs { o.push_str(a); o.push('\n'); }
    let body = match &d.body {
        None => {
            o.push_str("#[verifier::external_body]\n");
            o.push_str(&d.head);
            o.push('\n');
            if d.of_trait.is_none() { o.push_str(&d.contract.spec); }
            o.push_str("{ unimplemented!() }\n");
            return;
        }
        Some(b) => b,
    };
    let hint = |k: &str, key: &str| d.contract.hints.get(&(k.to_string(), key.to_string())).cloned().unwrap_or_default();
    o.push_str("#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    o.push_str(&d.head);
    o.push('\n');
    if d.of_trait.is_none() { o.push_str(&d.contract.spec); }
    o.push_str("{\n");
    for h in d.contract.hide.iter().flat_map(|h| h.split_whitespace()) { let _ = writeln!(o, "    hide({});", h); }
    for p in &d.pre { let _ = writeln!(o, "    {}", p); }
    if !d.strs.is_empty() {
        o.push_str("    proof {");
        for s in &d.strs { let _ = write!(o, " reveal_strlit({});", Lit::Str(LitStr::new(s, Span::call_site())).to_token_stream()); }
        o.push_str(" }\n");
    }
    if std::env::args().any(|a| a == "--vacuity") { o.push_str("    assert(false);\n"); }
    o.push_str(&hint("start", ""));
    let lines: Vec<&str> = body.lines().collect();
    let mut i = 0;
    let num = |l: &str| -> usize { let s: String = l.chars().skip_while(|c| *c != '(').filter(|c| c.is_ascii_digit()).collect(); s.parse().unwrap() };
    let key_of = |n: usize| d.loops.iter().find(|l| l.0 == n).unwrap().1.clone();
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if t == "loop {" && i + 1 < lines.len() && lines[i + 1].trim().starts_with("vx_loop!(") {
            let n = num(lines[i + 1].trim());
            let _ = writeln!(o, "{}", &l[..l.len() - 1]);
            o.push_str(&hint("loop", &key_of(n)));
            o.push_str("{\n");
            i += 2;
            continue;
        }
        if let Some(r) = t.strip_prefix("vx_mark!(") {
            let (kind, key) = r.split_once(',').unwrap();
            let (kind, key) = (kind.trim(), key.trim().trim_end_matches(';').trim_end_matches(')').trim());
            if let Some(lk) = kind.strip_prefix("loop_") {
                o.push_str(&hint(&format!("loop-{}", lk), &key_of(key.parse().unwrap())));
            } else {
                let s: LitStr = parse_str(key).unwrap_or_else(|e| panic!("{}: {}", key, e));
                o.push_str(&hint(kind, &s.value()));
            }
            i += 1;
            continue;
        }
        o.push_str(l);
        o.push('\n');
        i += 1;
    }
    o.push_str("}\n");
}
