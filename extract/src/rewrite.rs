//! Desugaring of function bodies into the subset the verifier accepts.
use crate::contracts::{norm, Contract};
use crate::krate::{FnInfo, Krate};
use crate::macros::LocalMacro;
use crate::ty::*;
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

pub struct Rw<'a> {
    pub env: Env<'a>,
    pub k: &'a Krate,
    pub c: &'a Contract,
    pub ret: Ty,
    /// In a blanket impl: `T: TryInto<X>` and the like.
    pub bounds: HashMap<String, Vec<(String, String)>>,
    pub macros: HashMap<String, LocalMacro>,
    pub entry: Option<String>,
    pub n: usize,
    pub loops: Vec<(usize, String, String)>,
    pub arms: Vec<String>,
    pub strs: BTreeSet<String>,
    pub used: BTreeSet<(String, String)>,
    pub inline_ok: &'a dyn Fn(&FnInfo) -> bool,
    pub inlined: Vec<String>,
    pub exits: Exits,
    pub loop_counts: HashMap<String, usize>,
}

fn contains_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
fn block_exit(b: &Block) -> bool { contains_exit(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: b.clone() })) }
fn stmt_exit(s: &Stmt) -> bool { block_exit(&Block { brace_token: Default::default(), stmts: vec![s.clone()] }) }

fn is_lit_like(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)),
        Expr::Paren(p) => is_lit_like(&p.expr),
        Expr::Unary(u) => is_lit_like(&u.expr),
        _ => false,
    }
}
fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), e => e } }
fn path_str(p: &Path) -> Vec<String> { p.segments.iter().map(|s| s.ident.to_string()).collect() }

fn unit_block(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
fn as_block(e: &Expr) -> Block { match e { Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.clone(), e => unit_block(vec![Stmt::Expr(e.clone(), None)]) } }

/// Which exits of an inlined helper may be exits of its caller.
#[derive(Clone, Copy)]
pub enum Exits { None, Failing, All }
/// Every `return` is one of a failure.
fn only_failing(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            let ok = match r.expr.as_deref() {
                Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")),
                Some(Expr::Path(p)) => p.path.is_ident("None"),
                _ => false,
            };
            self.0 &= ok;
        }
    }
    let mut v = V(true);
    v.visit_block(b);
    v.0
}

/// Where the items of a pipeline come from.
enum Src {
    /// `let mut it = INIT;` and `it.vx_next()`
    It(Expr),
    /// every element of a place, mutably
    MutPlace(Expr),
}
enum Stage {
    Enumerate,
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Copied,
}

impl<'a> Rw<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        Ident::new(&format!("vx_{}{}", p, self.n), Span::call_site())
    }

    // ------------------------------------------------------------ return elimination in closures

    /// The value of a closure body with `return` and `?`, as an expression without them.
    fn elim_body(&mut self, e: &Expr, kind: &str) -> R<Expr> {
        if !contains_exit(e) { return Ok(e.clone()); }
        match e {
            Expr::Block(b) => { let b2 = self.elim_block(&b.block.stmts, kind)?; Ok(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b2 })) }
            Expr::Return(r) => { let v = r.expr.as_ref().ok_or("return without value in a closure")?; self.elim_body(v, kind) }
            Expr::Paren(p) => self.elim_body(&p.expr, kind),
            Expr::Match(m) => {
                if contains_exit(&m.expr) { return self.elim_hoist(e, kind); }
                let mut m = m.clone();
                for a in &mut m.arms { let b = self.elim_body(&a.body, kind)?; a.body = Box::new(b); }
                Ok(Expr::Match(m))
            }
            Expr::If(i) => {
                if contains_exit(&i.cond) { return Err("exit in a condition of a closure".into()); }
                let mut i = i.clone();
                i.then_branch = self.elim_block(&i.then_branch.stmts, kind)?;
                if let Some((_, e)) = &mut i.else_branch { let b = self.elim_body(e, kind)?; **e = b; }
                Ok(Expr::If(i))
            }
            e => self.elim_hoist(e, kind),
        }
    }
    /// A single `?` somewhere in an expression that has no other effects before it.
    fn elim_hoist(&mut self, e: &Expr, kind: &str) -> R<Expr> {
        struct H { found: Option<(Expr, Ident)>, id: Ident }
        impl VisitMut for H {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if self.found.is_some() { return; }
                if let Expr::Closure(_) = e { return; }
                if let Expr::Try(t) = e {
                    if !contains_exit(&t.expr) {
                        let id = self.id.clone();
                        self.found = Some(((*t.expr).clone(), id.clone()));
                        *e = parse_quote!(#id);
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let id = self.fresh("q");
        let mut h = H { found: None, id: id.clone() };
        let mut e2 = e.clone();
        h.visit_expr_mut(&mut e2);
        let (q, id) = h.found.ok_or("exit of a closure that is not supported")?;
        let rest = self.elim_body(&e2, kind)?;
        Ok(self.try_match(&q, parse_quote!(#id), rest, kind))
    }
    fn try_match(&mut self, q: &Expr, pat: Pat, rest: Expr, kind: &str) -> Expr {
        if kind == "Option" { parse_quote!(match #q { Some(#pat) => #rest, None => None }) } else {
            let e = self.fresh("e");
            parse_quote!(match #q { Ok(#pat) => #rest, Err(#e) => Err(#e) })
        }
    }
    fn elim_block(&mut self, stmts: &[Stmt], kind: &str) -> R<Block> {
        let at = match stmts.iter().position(stmt_exit) { Some(i) => i, None => return Ok(unit_block(stmts.to_vec())) };
        let mut out: Vec<Stmt> = stmts[..at].to_vec();
        let rest = &stmts[at + 1..];
        let tail: Expr = match &stmts[at] {
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("let without value")?;
                if init.diverge.is_some() { return Err("let-else with an exit in a closure".into()); }
                match strip_paren(&init.expr) {
                    Expr::Try(t) if !contains_exit(&t.expr) => {
                        let b = self.elim_block(rest, kind)?;
                        let mut pat = l.pat.clone();
                        let mut b = b;
                        if let Pat::Type(pt) = &l.pat { let (p, ty) = (&pt.pat, &pt.ty); let v = self.fresh("v"); b.stmts.insert(0, parse_quote!(let #p: #ty = #v;)); pat = parse_quote!(#v); }
                        self.try_match(&t.expr, pat, Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), kind)
                    }
                    Expr::Match(m) if !contains_exit(&m.expr) => {
                        let mut m = m.clone();
                        for a in &mut m.arms {
                            let body = match &*a.body {
                                Expr::Return(_) => self.elim_body(&a.body, kind)?,
                                Expr::Block(b) if matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) => self.elim_body(&a.body, kind)?,
                                x if !contains_exit(x) => {
                                    let p = &l.pat;
                                    let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #x;)];
                                    v.extend(rest.to_vec());
                                    Expr::Block(ExprBlock { attrs: vec![], label: None, block: self.elim_block(&v, kind)? })
                                }
                                _ => return Err("exit inside a match arm of a closure".into()),
                            };
                            a.body = Box::new(body);
                        }
                        Expr::Match(m)
                    }
                    x => {
                        // Hoist the first `?`.
                        let mut v = vec![];
                        let id = self.fresh("q");
                        let (q, e2) = hoist(x, &id).ok_or("exit in a let of a closure")?;
                        let p = &l.pat;
                        v.push(parse_quote!(let #p = #e2;));
                        v.extend(rest.to_vec());
                        let b = self.elim_block(&v, kind)?;
                        self.try_match(&q, parse_quote!(#id), Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), kind)
                    }
                }
            }
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !contains_exit(&i.cond) && !rest.is_empty() && ends_in_return(&i.then_branch) => {
                let t = self.elim_block(&i.then_branch.stmts, kind)?;
                let r = self.elim_block(rest, kind)?;
                let c = &i.cond;
                parse_quote!(if #c #t else #r)
            }
            Stmt::Expr(Expr::Return(r), _) => { let v = r.expr.as_ref().ok_or("return without value")?; self.elim_body(v, kind)? }
            Stmt::Expr(e, None) if rest.is_empty() => self.elim_body(e, kind)?,
            Stmt::Expr(Expr::Try(t), Some(_)) if !contains_exit(&t.expr) => {
                let b = self.elim_block(rest, kind)?;
                self.try_match(&t.expr, parse_quote!(_), Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), kind)
            }
            s => return Err(format!("exit of a closure in: {}", s.to_token_stream())),
        };
        out.push(Stmt::Expr(tail, None));
        Ok(unit_block(out))
    }

    // ------------------------------------------------------------ closures

    /// A closure or function name as a pattern and an expression over it.
    fn apply(&mut self, f: &Expr, ctx_kind: &str) -> R<(Pat, Expr)> {
        match strip_paren(f) {
            Expr::Closure(c) => {
                if c.inputs.len() > 1 { return Err("closure with several parameters".into()); }
                let p = match c.inputs.first() { Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone(), None => parse_quote!(_) };
                let kind = if ctx_kind.is_empty() { self.kind_of_body(&c.body) } else { ctx_kind.to_string() };
                let b = self.elim_body(&c.body, &kind)?;
                Ok((p, b))
            }
            Expr::Path(p) => { let x = self.fresh("x"); Ok((parse_quote!(#x), parse_quote!(#p(#x)))) }
            _ => Err("a function value that is neither a closure nor a path".into()),
        }
    }
    /// A function without parameters.
    fn apply0(&mut self, f: &Expr, ctx_kind: &str) -> R<Expr> {
        if let Expr::Path(p) = strip_paren(f) { return Ok(parse_quote!(#p())); }
        Ok(self.apply(f, ctx_kind)?.1)
    }
    fn kind_of_body(&self, b: &Expr) -> String {
        // Whichever constructor the body ends in.
        struct V(Option<String>);
        impl<'a> Visit<'a> for V {
            fn visit_expr_call(&mut self, c: &'a ExprCall) {
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident() {
                        if i == "Ok" || i == "Err" { self.0 = Some("Result".into()) } else if i == "Some" { self.0 = Some("Option".into()) }
                    }
                }
                visit::visit_expr_call(self, c);
            }
        }
        let t = self.env.ty(b);
        if matches!(t.head(), "Option" | "Result") { return t.head().to_string(); }
        let mut v = V(None);
        v.visit_expr(b);
        v.0.unwrap_or("Result".into())
    }

    // ------------------------------------------------------------ pipelines

    fn pipeline(&mut self, e: &Expr) -> R<(Src, Vec<Stage>)> {
        let e = strip_paren(e);
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let st = match name.as_str() {
                "enumerate" => Some(Stage::Enumerate),
                "map" => Some(Stage::Map(m.args[0].clone())),
                "filter" => Some(Stage::Filter(m.args[0].clone())),
                "filter_map" => Some(Stage::FilterMap(m.args[0].clone())),
                "flat_map" => Some(Stage::FlatMap(m.args[0].clone())),
                "copied" | "cloned" => Some(Stage::Copied),
                _ => None,
            };
            if let Some(st) = st {
                let (s, mut v) = self.pipeline(&m.receiver)?;
                v.push(st);
                return Ok((s, v));
            }
            let r = &m.receiver;
            match name.as_str() {
                "iter" => return Ok((Src::It(parse_quote!(#r.vx_iter())), vec![])),
                "iter_mut" => return Ok((Src::MutPlace((**r).clone()), vec![])),
                "into_iter" => {
                    return match self.env.ty(r) {
                        Ty::Ref(true, _) => Ok((Src::MutPlace((**r).clone()), vec![])),
                        Ty::Ref(false, _) => Ok((Src::It(parse_quote!(#r.vx_iter())), vec![])),
                        _ => Ok((Src::It(parse_quote!(#r.vx_into_iter())), vec![])),
                    }
                }
                "values" | "keys" | "chars" | "bytes" | "split" | "lines" => {
                    let f = format_ident!("vx_{}", name);
                    let a = &m.args;
                    return Ok((Src::It(parse_quote!(#r.#f(#a))), vec![]));
                }
                "drain" => { if let Expr::Range(x) = &m.args[0] { if x.start.is_none() && x.end.is_none() { return Ok((Src::It(parse_quote!(vx_take(&mut #r).vx_into_iter())), vec![])); } } }
                "rev" | "skip" | "take" if m.args.len() == (name != "rev") as usize => {
                    // on the source itself: adaptors before it give one item for each
                    if let (Src::It(b), v) = self.pipeline(r)? {
                        if v.iter().all(|s| matches!(s, Stage::Copied) || name != "skip" && matches!(s, Stage::Map(_))) {
                            let f = format_ident!("{}", match name.as_str() { "rev" => "vx_rev", "skip" => "vx_skip", _ => "vx_limit" });
                            let a = &m.args;
                            return Ok((Src::It(parse_quote!(#b.#f(#a))), v));
                        }
                    }
                    return Err(format!("{} of such an iterator", name));
                }
                _ => {}
            }
        }
        if let Expr::Reference(r) = e {
            let x = &r.expr;
            return Ok(if r.mutability.is_some() { (Src::MutPlace((**x).clone()), vec![]) } else { (Src::It(parse_quote!(#x.vx_iter())), vec![]) });
        }
        if let Expr::Range(r) = e {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) { return Ok((Src::It(parse_quote!(vx_range(#a, #b))), vec![])); }
            return Err("range".into());
        }
        match self.env.ty(e) {
            Ty::Ref(true, _) => Ok((Src::MutPlace(e.clone()), vec![])),
            Ty::Ref(false, _) => Ok((Src::It(parse_quote!(#e.vx_iter())), vec![])),
            t if t.head() == "Iter" => Ok((Src::It(e.clone()), vec![])),
            _ => Ok((Src::It(parse_quote!((#e).vx_into_iter())), vec![])),
        }
    }

    /// The loop over a pipeline; `sink` makes the statement for the innermost item, a pattern and expression.
    fn run_pipeline(&mut self, form: &str, src: Src, stages: Vec<Stage>, sink: &mut dyn FnMut(&mut Self, Expr) -> R<Vec<Stmt>>) -> R<Vec<Stmt>> {
        let n = self.n;
        self.n += 1;
        let it = format_ident!("vx_it{}", n);
        let _ = it;
        let id = self.loops.len();
        let lk = self.loop_key();
        let names: Vec<&str> = stages.iter().map(|s| match s { Stage::Enumerate => "enumerate", Stage::Map(_) => "map", Stage::Filter(_) => "filter", Stage::FilterMap(_) => "filter_map", Stage::FlatMap(_) => "flat_map", Stage::Copied => "copied" }).chain(std::iter::once(form)).collect();
        let of = match &src {
            Src::It(Expr::MethodCall(m)) if matches!(m.method.to_string().as_str(), "vx_rev" | "vx_skip" | "vx_limit") => "part",
            Src::It(_) => "iter",
            Src::MutPlace(_) => "mut",
        };
        self.loops.push((id, lk, format!("{}.{}", of, names.join("."))));
        let it = format_ident!("vx_it{}", id);
        let idx = format_ident!("vx_i{}", id);
        let item = format_ident!("vx_x{}", id);
        let idl = Index::from(id);
        let enumerates = stages.iter().any(|s| matches!(s, Stage::Enumerate));
        if enumerates && stages.iter().position(|s| matches!(s, Stage::Enumerate)).unwrap() != 0 {
            return Err("enumerate after another adaptor".into());
        }
        let inner = self.stages(&stages, parse_quote!(#item), &idx, sink)?;
        Ok(match src {
            Src::It(init) => {
                let get_idx: Option<Stmt> = if enumerates { Some(parse_quote!(let #idx = #it.vx_pos();)) } else { None };
                let lp: Expr = parse_quote!(loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); #get_idx match #it.vx_next() { Some(#item) => { #(#inner)* vx_mark!(loop_end, #idl); } None => { break; } } });
                vec![parse_quote!(let mut #it = #init;), parse_quote!(vx_mark!(loop_pre, #idl);), Stmt::Expr(lp, None), parse_quote!(vx_mark!(loop_post, #idl);)]
            }
            Src::MutPlace(place) => {
                let get_idx: Option<Stmt> = if enumerates { Some(parse_quote!(let #idx = #it;)) } else { None };
                let place = match place { Expr::Reference(r) => *r.expr, p => p };
                let lp: Expr = parse_quote!(loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); if #it >= #place.len() { break; } #get_idx let #item = &mut #place[#it]; #it += 1; #(#inner)* vx_mark!(loop_end, #idl); });
                vec![parse_quote!(let mut #it: usize = 0;), parse_quote!(vx_mark!(loop_pre, #idl);), Stmt::Expr(lp, None), parse_quote!(vx_mark!(loop_post, #idl);)]
            }
        })
    }
    fn stages(&mut self, st: &[Stage], item: Expr, idx: &Ident, sink: &mut dyn FnMut(&mut Self, Expr) -> R<Vec<Stmt>>) -> R<Vec<Stmt>> {
        let (s, rest) = match st.split_first() { None => return sink(self, item), Some(x) => x };
        match s {
            Stage::Enumerate => self.stages(rest, parse_quote!((#idx, #item)), idx, sink),
            Stage::Copied => self.stages(rest, parse_quote!(*#item), idx, sink),
            Stage::Map(f) => {
                let (p, b) = self.apply(f, "")?;
                let y = self.fresh("y");
                let inner = self.stages(rest, parse_quote!(#y), idx, sink)?;
                let v: Expr = bind_expr(&p, &item, &b);
                let mut out: Vec<Stmt> = vec![parse_quote!(let #y = #v;)];
                out.extend(inner);
                Ok(out)
            }
            Stage::Filter(f) => {
                let (p, b) = self.apply(f, "")?;
                let y = self.fresh("y");
                let inner = self.stages(rest, parse_quote!(#y), idx, sink)?;
                let v: Expr = bind_expr(&p, &parse_quote!(&#y), &b);
                Ok(vec![parse_quote!(let #y = #item;), parse_quote!(if #v { #(#inner)* })])
            }
            Stage::FilterMap(f) => {
                let (p, b) = self.apply(f, "Option")?;
                let y = self.fresh("y");
                let inner = self.stages(rest, parse_quote!(#y), idx, sink)?;
                let v: Expr = bind_expr(&p, &item, &b);
                Ok(vec![parse_quote!(match #v { Some(#y) => { #(#inner)* } None => {} })])
            }
            Stage::FlatMap(f) => {
                if !rest.is_empty() { return Err("flat_map before another adaptor".into()); }
                let (p, b) = self.apply(f, "")?;
                let v: Expr = bind_expr(&p, &item, &b);
                sink(self, v)
            }
        }
    }
    fn loop_key(&mut self) -> String {
        let arm = self.arms.last().cloned().unwrap_or_default();
        let c = self.loop_counts.entry(arm.clone()).or_insert(0);
        let k = format!("{}#{}", norm(&arm), c);
        *c += 1;
        k
    }

    fn collect(&mut self, recv: &Expr, res: bool, in_fn: bool, ty: Option<TokenStream>) -> R<Expr> {
        let (src, st) = self.pipeline(recv)?;
        let flat = matches!(st.last(), Some(Stage::FlatMap(_)));
        let id = self.loops.len();
        let out = format_ident!("vx_out{}", id);
        let err = format_ident!("vx_err{}", id);
        let tyo: Option<TokenStream> = self.c.types.get(&out.to_string()).map(|t| t.parse().unwrap()).or(ty);
        let tyo = tyo.map(|t| quote!(: #t));
        let stmts = self.run_pipeline("collect", src, st, &mut |s, item| {
            if flat { return Ok(vec![parse_quote!(VxFlat::vx_flat(&mut #out, #item);)]); }
            if !res { return Ok(vec![parse_quote!(VxCollect::vx_push(&mut #out, #item);)]); }
            let (v, e) = (s.fresh("v"), s.fresh("e"));
            Ok(if in_fn { vec![parse_quote!(match #item { Ok(#v) => { VxCollect::vx_push(&mut #out, #v); } Err(#e) => { return Err(#e); } })] } else { vec![parse_quote!(match #item { Ok(#v) => { VxCollect::vx_push(&mut #out, #v); } Err(#e) => { #err = Some(#e); break; } })] })
        })?;
        let new: Stmt = syn::parse2(quote!(let mut #out #tyo = VxCollect::vx_new();)).map_err(|e| e.to_string())?;
        let new: Stmt = if flat { syn::parse2(quote!(let mut #out #tyo = VxFlat::vx_fnew();)).map_err(|e| e.to_string())? } else { new };
        if res && !in_fn {
            let e = self.fresh("e");
            return Ok(parse_quote!({ #new let mut #err = None; #(#stmts)* match #err { Some(#e) => Err(#e), None => Ok(#out) } }));
        }
        Ok(parse_quote!({ #new #(#stmts)* #out }))
    }

    // ------------------------------------------------------------ one step at an expression

    fn step(&mut self, e: &Expr, expected: &Ty, tail: bool) -> R<Option<Expr>> {
        if tail {
            if let Some((f, recv, args)) = self.to_inline(e) {
                self.exits = Exits::All;
                return Ok(Some(self.inline(&f, recv.as_ref(), &args)?));
            }
        }
        Ok(match e {
            Expr::Paren(p) if matches!(&*p.expr, Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_)) => Some((*p.expr).clone()),
            Expr::Group(p) => Some((*p.expr).clone()),
            // a boxed error
            Expr::Cast(c) if { let t = c.ty.to_token_stream().to_string(); t.starts_with("Box") && t.contains("dyn") } => match strip_paren(&c.expr) {
                Expr::Call(b) if matches!(&*b.func, Expr::Path(p) if path_str(&p.path) == ["Box", "new"]) => { let x = &b.args[0]; Some(parse_quote!(vx_err(#x))) }
                x => return Err(format!("{} as an error", x.to_token_stream())),
            },
            Expr::Unsafe(u) => Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: u.block.clone() })),
            Expr::Macro(m) => Some(self.mac(&m.mac)?),
            Expr::Try(t) => {
                // collect()? needs no intermediate result
                if let Expr::MethodCall(m) = strip_paren(&t.expr) {
                    if m.method == "collect" && matches!(self.env.ty(&m.receiver).head(), "Iter") {
                        let ety = match expected { Ty::Unk => None, t => ty_tokens(t) };
                        return Ok(Some(self.collect(&m.receiver, true, true, ety)?));
                    }
                }
                let q = &t.expr;
                if let Some((f, recv, args)) = self.to_inline(q) {
                    self.exits = Exits::Failing;
                    let n = self.inline(&f, recv.as_ref(), &args)?;
                    return Ok(Some(parse_quote!((#n)?)));
                }
                let kind = self.env.ty(q);
                let (v, er) = (self.fresh("v"), self.fresh("e"));
                match kind.head() {
                    "Option" => Some(parse_quote!(match #q { Some(#v) => #v, None => return None })),
                    "Result" => Some(parse_quote!(match #q { Ok(#v) => #v, Err(#er) => return Err(#er) })),
                    _ => match self.ret.head() {
                        "Option" => Some(parse_quote!(match #q { Some(#v) => #v, None => return None })),
                        "Result" => Some(parse_quote!(match #q { Ok(#v) => #v, Err(#er) => return Err(#er) })),
                        _ => return Err(format!("? on something of unknown type: {}", q.to_token_stream())),
                    },
                }
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() { return Err("labelled loop".into()); }
                let (src, st) = self.pipeline(&f.expr)?;
                let (pat, body) = (&f.pat, &f.body);
                let stmts = &body.stmts;
                let is_item_moved = matches!(&**pat, Pat::Wild(_));
                let s = self.run_pipeline("for", src, st, &mut |_, item| {
                    let mut v: Vec<Stmt> = if is_item_moved { vec![] } else { vec![parse_quote!(let #pat = #item;)] };
                    v.push(parse_quote!({ #(#stmts)* }));
                    Ok(v)
                })?;
                Some(parse_quote!({ #(#s)* }))
            }
            Expr::While(w) => {
                if w.label.is_some() { return Err("labelled loop".into()); }
                let id = self.loops.len();
                let k = self.loop_key();
                self.loops.push((id, k, "while".into()));
                let idl = Index::from(id);
                let (c, b) = (&w.cond, closed(&w.body.stmts));
                let lp: Expr = match &**c {
                    Expr::Let(l) => { let (p, x) = (&l.pat, &l.expr); parse_quote!(loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); match #x { #p => { #(#b)* vx_mark!(loop_end, #idl); } _ => { break; } } }) }
                    c => parse_quote!(loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); if !(#c) { break; } #(#b)* vx_mark!(loop_end, #idl); }),
                };
                Some(parse_quote!({ vx_mark!(loop_pre, #idl); #lp vx_mark!(loop_post, #idl); }))
            }
            Expr::Loop(l) => {
                if l.label.is_some() { return Err("labelled loop".into()); }
                if let Some(Stmt::Macro(m)) = l.body.stmts.first() { if m.mac.path.is_ident("vx_loop") { return Ok(None); } }
                let id = self.loops.len();
                let k = self.loop_key();
                self.loops.push((id, k, "loop".into()));
                let idl = Index::from(id);
                let mut body = l.body.clone();
                let mut bv = BreakV { depth: 0, found: false, rep: None };
                bv.visit_block_mut(&mut body);
                if bv.found {
                    if tail {
                        let mut bv = BreakV { depth: 0, found: false, rep: Some(None) };
                        bv.visit_block_mut(&mut body);
                        let b = closed(&body.stmts);
                        Some(parse_quote!({ vx_mark!(loop_pre, #idl); loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); #(#b)* vx_mark!(loop_end, #idl); } }))
                    } else {
                        let id2 = format_ident!("vx_brk{}", id);
                        let mut bv = BreakV { depth: 0, found: false, rep: Some(Some(id2.clone())) };
                        bv.visit_block_mut(&mut body);
                        let b = closed(&body.stmts);
                        Some(parse_quote!({ let #id2; vx_mark!(loop_pre, #idl); loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); #(#b)* vx_mark!(loop_end, #idl); } vx_mark!(loop_post, #idl); #id2 }))
                    }
                } else {
                    let b = closed(&body.stmts);
                    let has_break = has_break(&body);
                    if has_break { Some(parse_quote!({ vx_mark!(loop_pre, #idl); loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); #(#b)* vx_mark!(loop_end, #idl); } vx_mark!(loop_post, #idl); })) } else { Some(parse_quote!({ vx_mark!(loop_pre, #idl); loop { vx_loop!(#idl); vx_mark!(loop_start, #idl); #(#b)* vx_mark!(loop_end, #idl); } })) }
                }
            }
            Expr::Match(m) => self.match_step(m)?,
            Expr::If(i) => {
                // if let Some(x) = .. => match, so that there is one form of it
                if let Expr::Let(l) = &*i.cond {
                    let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                    let el: Expr = i.else_branch.as_ref().map(|e| (*e.1).clone()).unwrap_or(parse_quote!({}));
                    Some(parse_quote!(match #x { #p => #t _ => #el }))
                } else { None }
            }
            Expr::Binary(b) => self.bin_step(b)?,
            Expr::Struct(s) => self.struct_step(s)?,
            Expr::MethodCall(m) => self.method_step(m, expected)?,
            Expr::Call(c) => self.call_step(c)?,
            Expr::Closure(_) => return Err("a closure in a place that is not supported".into()),
            Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) | Expr::TryBlock(_) => return Err("unsupported expression".into()),
            _ => None,
        })
    }

    fn bin_step(&mut self, b: &ExprBinary) -> R<Option<Expr>> {
        let ne = match b.op { BinOp::Eq(_) => false, BinOp::Ne(_) => true, _ => return Ok(None) };
        let (tl, tr) = (self.env.ty(&b.left), self.env.ty(&b.right));
        let prim = |t: &Ty| match t { Ty::Named(n, _) => PRIMS.contains(&n.as_str()) || n == "bool" || n == "char" || n == "{integer}" || n == "Rule", _ => false };
        if is_lit_like(&b.left) || is_lit_like(&b.right) || prim(&tl) || prim(&tr) { return Ok(None); }
        let strip = |e: &Expr, t: &Ty| -> Expr { match strip_paren(e) { Expr::Lit(l) => Expr::Lit(l.clone()), e => { let e = e.clone(); if matches!(t, Ty::Ref(_, s) if s.head() == "str") { e } else { parse_quote!(&#e) } } } };
        let (l, r) = (strip(&b.left, &tl), strip(&b.right, &tr));
        let q: Expr = parse_quote!(VxEq::vx_eq(#l, #r));
        Ok(Some(if ne { parse_quote!(!#q) } else { q }))
    }

    fn struct_step(&mut self, s: &ExprStruct) -> R<Option<Expr>> {
        let rest = match &s.rest { Some(r) => r, None => return Ok(None) };
        let n = s.path.segments.last().unwrap().ident.to_string();
        let n = if n == "Self" { self.env.self_ty.clone() } else { n };
        let fs = self.k.structs.get(&n).ok_or("struct update of an unknown type")?.clone();
        let def = matches!(strip_paren(rest), Expr::Call(c) if c.args.is_empty() && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "default"));
        if !def { return Err("struct update with something else than default()".into()); }
        let mut s2 = s.clone();
        s2.rest = None;
        s2.dot2_token = None;
        for (f, _) in fs {
            if s2.fields.iter().any(|x| matches!(&x.member, Member::Named(m) if *m == f)) { continue; }
            let id = format_ident!("{}", f);
            s2.fields.push(FieldValue { attrs: vec![], member: Member::Named(id), colon_token: Some(Default::default()), expr: parse_quote!(VxDefault::vx_default()) });
        }
        Ok(Some(Expr::Struct(s2)))
    }

    fn match_step(&mut self, m: &ExprMatch) -> R<Option<Expr>> {
        // match on string literals
        fn lit_of(p: &Pat) -> Option<Vec<LitStr>> {
            match p {
                Pat::Lit(l) => if let Lit::Str(s) = &l.lit { Some(vec![s.clone()]) } else { None },
                Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lit_of(c)?) } Some(v) }
                Pat::Paren(p) => lit_of(&p.pat),
                _ => None,
            }
        }
        if m.arms.iter().any(|a| lit_of(&a.pat).is_some()) {
            let v = self.fresh("s");
            let mut chain: Option<Expr> = None;
            for a in m.arms.iter().rev() {
                let body = &a.body;
                let guard = a.guard.as_ref().map(|g| &g.1);
                match (lit_of(&a.pat), &a.pat) {
                    (Some(ls), _) => {
                        let mut cond: Expr = { let l = &ls[0]; parse_quote!(vx_streq(#v, #l)) };
                        for l in &ls[1..] { cond = parse_quote!(#cond || vx_streq(#v, #l)); }
                        if let Some(g) = guard { cond = parse_quote!((#cond) && #g); }
                        let els = chain.take().ok_or("match on strings without a default")?;
                        chain = Some(parse_quote!(if #cond { #body } else { #els }));
                    }
                    (None, p) => {
                        if guard.is_some() { return Err("guard on a match on strings".into()); }
                        chain = Some(match p { Pat::Wild(_) => (**body).clone(), p => parse_quote!({ let #p = #v; #body }) });
                    }
                }
            }
            let x = &m.expr;
            let c = chain.unwrap();
            let t = self.env.ty(x);
            let x2: Expr = if matches!(&t, Ty::Ref(_, s) if s.head() == "str") || t == Ty::Unk { parse_quote!(#x) } else { parse_quote!(#x) };
            return Ok(Some(parse_quote!({ let #v = #x2; #c })));
        }
        Ok(None)
    }

    fn kind(&self, e: &Expr) -> String {
        let t = self.env.ty(e);
        t.head().to_string()
    }

    fn method_step(&mut self, m: &ExprMethodCall, expected: &Ty) -> R<Option<Expr>> {
        let name = m.method.to_string();
        if name.starts_with("vx_") { return Ok(None); }
        let r = &m.receiver;
        let kind = self.kind(r);
        let a = |i: usize| &m.args[i];
        let is_crate = self.k.find_method(&kind, &name).is_some();
        // the error with what snafu adds to it
        if !is_crate && name == "context" {
            if let Expr::Struct(x) = strip_paren(a(0)) {
                let v = path_str(&x.path).pop().unwrap();
                let owner = self.k.structs.keys().filter_map(|n| n.split_once("::")).find(|n| n.1 == v).map(|n| n.0.to_string());
                if let Some(en) = owner {
                    let (en, vi, fs) = (Ident::new(&en, Span::call_site()), Ident::new(&v, Span::call_site()), &x.fields);
                    let (o, er) = (self.fresh("v"), self.fresh("e"));
                    return Ok(Some(parse_quote!(match #r { Ok(#o) => Ok(#o), Err(#er) => Err(#en::#vi { source: #er, #fs }) })));
                }
            }
        }
        if !is_crate && (kind == "Option" || kind == "Result") {
            let opt = kind == "Option";
            let er = self.fresh("e");
            match name.as_str() {
                "map" => {
                    let (p, b) = self.apply(a(0), "")?;
                    return Ok(Some(if opt { parse_quote!(match #r { Some(#p) => Some(#b), None => None }) } else { parse_quote!(match #r { Ok(#p) => Ok(#b), Err(#er) => Err(#er) }) }));
                }
                "and_then" => {
                    let (p, b) = self.apply(a(0), &kind)?;
                    return Ok(Some(if opt { parse_quote!(match #r { Some(#p) => #b, None => None }) } else { parse_quote!(match #r { Ok(#p) => #b, Err(#er) => Err(#er) }) }));
                }
                "map_err" => { let (p, b) = self.apply(a(0), "")?; let v = self.fresh("v"); return Ok(Some(parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }))); }
                "map_or" => { let (p, b) = self.apply(a(1), "")?; let d = a(0); return Ok(Some(if opt { parse_quote!(match #r { Some(#p) => #b, None => #d }) } else { parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d }) })); }
                "filter" if opt => { let (p, b) = self.apply(a(0), "")?; let v = self.fresh("v"); let c = bind_expr(&p, &parse_quote!(&#v), &b); return Ok(Some(parse_quote!(match #r { Some(#v) => if #c { Some(#v) } else { None }, None => None }))); }
                "or_else" if opt => { let b = self.apply0(a(0), &kind)?; let v = self.fresh("v"); return Ok(Some(parse_quote!(match #r { Some(#v) => Some(#v), None => #b }))); }
                "unwrap_or_else" => {
                    let (p, b) = if opt { (parse_quote!(_), self.apply0(a(0), "")?) } else { self.apply(a(0), "")? };
                    let v = self.fresh("v");
                    return Ok(Some(if opt { parse_quote!(match #r { Some(#v) => #v, None => #b }) } else { parse_quote!(match #r { Ok(#v) => #v, Err(#p) => #b }) }));
                }
                "unwrap_or" if simple(a(0)) => { let (v, d) = (self.fresh("v"), a(0)); return Ok(Some(if opt { parse_quote!(match #r { Some(#v) => #v, None => #d }) } else { parse_quote!(match #r { Ok(#v) => #v, Err(_) => #d }) })); }
                "unwrap_or" => { let (x, d, v, e) = (self.fresh("x"), self.fresh("d"), self.fresh("v"), a(0)); return Ok(Some(if opt { parse_quote!({ let #x = #r; let #d = #e; match #x { Some(#v) => #v, None => #d } }) } else { parse_quote!({ let #x = #r; let #d = #e; match #x { Ok(#v) => #v, Err(_) => #d } }) })); }
                "unwrap_or_default" => { let v = self.fresh("v"); return Ok(Some(if opt { parse_quote!(match #r { Some(#v) => #v, None => VxDefault::vx_default() }) } else { parse_quote!(match #r { Ok(#v) => #v, Err(_) => VxDefault::vx_default() }) })); }
                "map_or_else" => {
                    let (p, b) = self.apply(a(1), "")?;
                    if opt { let d = self.apply0(a(0), "")?; return Ok(Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))); }
                    let (q, d) = self.apply(a(0), "")?;
                    return Ok(Some(parse_quote!(match #r { Ok(#p) => #b, Err(#q) => #d })));
                }
                "is_some_and" => { let (p, b) = self.apply(a(0), "")?; return Ok(Some(parse_quote!(match #r { Some(#p) => #b, None => false }))); }
                "is_none_or" => { let (p, b) = self.apply(a(0), "")?; return Ok(Some(parse_quote!(match #r { Some(#p) => #b, None => true }))); }
                "is_ok_and" => { let (p, b) = self.apply(a(0), "")?; return Ok(Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }))); }
                "or" if opt && simple(a(0)) => { let (v, d) = (self.fresh("v"), a(0)); return Ok(Some(parse_quote!(match #r { Some(#v) => Some(#v), None => #d }))); }
                "ok_or" if opt && !simple(a(0)) => { let (x, d, v, e) = (self.fresh("x"), self.fresh("d"), self.fresh("v"), a(0)); return Ok(Some(parse_quote!({ let #x = #r; let #d = #e; match #x { Some(#v) => Ok(#v), None => Err(#d) } }))); }
                "unwrap" | "expect" => { let v = self.fresh("v"); return Ok(Some(if opt { parse_quote!(match #r { Some(#v) => #v, None => vx_panic() }) } else { parse_quote!(match #r { Ok(#v) => #v, Err(_) => vx_panic() }) })); }
                "ok_or" if opt && simple(a(0)) => { let (v, d) = (self.fresh("v"), a(0)); return Ok(Some(parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#d) }))); }
                "ok_or_else" if opt => { let b = self.apply0(a(0), "")?; let v = self.fresh("v"); return Ok(Some(parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) }))); }
                "ok" if !opt => { let v = self.fresh("v"); return Ok(Some(parse_quote!(match #r { Ok(#v) => Some(#v), Err(_) => None }))); }
                "as_deref" | "cloned" | "copied" => { let f = format_ident!("vx_{}", name); let args = &m.args; return Ok(Some(parse_quote!(#r.#f(#args)))); }
                "is_some" | "is_none" | "is_ok" | "is_err" | "as_ref" | "as_mut" | "take" => return Ok(None),
                n => return Err(format!("{} on {}", n, kind)),
            }
        }
        if !is_crate && name == "then" && m.args.len() == 1 && matches!(strip_paren(a(0)), Expr::Closure(_)) { let b = self.apply0(a(0), "")?; return Ok(Some(parse_quote!(if #r { Some(#b) } else { None }))); }
        if !is_crate && name == "then_some" && simple(a(0)) { let d = a(0); return Ok(Some(parse_quote!(if #r { Some(#d) } else { None }))); }
        if !is_crate && (kind == "Iter" || (kind == "Pairs" && name != "next")) {
            match name.as_str() {
                "collect" => {
                    let res = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().contains("Result")).unwrap_or(false) || expected.head() == "Result" || self.env.ty(&Expr::MethodCall(m.clone())).head() == "Result";
                    let ety = if res { expected.arg(0) } else { expected.clone() };
                    let ety = match &ety { Ty::Unk => None, t => ty_tokens(t) };
                    return Ok(Some(self.collect(r, res, false, ety)?));
                }
                "find" | "any" | "all" | "position" | "rfind" | "for_each" | "find_map" => {
                    let r2: Expr = if name == "rfind" { parse_quote!(#r.rev()) } else { (**r).clone() };
                    let (src, st) = self.pipeline(&r2)?;
                    let id = self.loops.len();
                    let f = format_ident!("vx_f{}", id);
                    let (p, b) = self.apply(a(0), "")?;
                    let init: Expr = match name.as_str() { "any" => parse_quote!(false), "all" => parse_quote!(true), "for_each" => parse_quote!(()), _ => parse_quote!(None) };
                    let ix = format_ident!("vx_i{}", id);
                    if name == "position" && !st.is_empty() { return Err("position after an adaptor".into()); }
                    let st = if name == "position" { vec![Stage::Enumerate] } else { st };
                    let s = self.run_pipeline(&name, src, st, &mut |s, item| {
                        let y = s.fresh("y");
                        Ok(match name.as_str() {
                            "any" => { let c = bind_expr(&p, &item, &b); vec![parse_quote!(if #c { #f = true; break; })] }
                            "all" => { let c = bind_expr(&p, &item, &b); vec![parse_quote!(if !(#c) { #f = false; break; })] }
                            "for_each" => { let c = bind_expr(&p, &item, &b); vec![parse_quote!(#c;)] }
                            "find_map" => { let c = bind_expr(&p, &item, &b); vec![parse_quote!(match #c { Some(#y) => { #f = Some(#y); break; } None => {} })] }
                            "position" => { let c = bind_expr(&p, &parse_quote!((#item).1), &b); vec![parse_quote!(if #c { #f = Some(#ix); break; })] }
                            _ => { let c = bind_expr(&p, &parse_quote!(&#y), &b); vec![parse_quote!(let #y = #item;), parse_quote!(if #c { #f = Some(#y); break; })] }
                        })
                    })?;
                    let tyo: Option<TokenStream> = self.c.types.get(&f.to_string()).map(|t| t.parse().unwrap()).map(|t: TokenStream| quote!(: #t));
                    let new: Stmt = if name == "for_each" { parse_quote!({}) } else { syn::parse2(quote!(let mut #f #tyo = #init;)).map_err(|e| e.to_string())? };
                    return Ok(Some(if name == "for_each" { parse_quote!({ #(#s)* }) } else { parse_quote!({ #new #(#s)* #f }) }));
                }
                "next" | "count" | "last" => { let f = format_ident!("vx_{}", name); return Ok(Some(parse_quote!(#r.#f()))); }
                "values" | "iter" => {}
                "map" | "filter" | "filter_map" | "enumerate" => return Err("a lazy iterator that is not consumed in place".into()),
                n => return Err(format!("{} on an iterator", n)),
            }
        }
        if !is_crate && name == "next" { return Ok(Some(parse_quote!(#r.vx_next()))); }
        // bounds of a blanket impl decide what try_into means
        if name == "try_into" {
            if let (Expr::Path(p), Some(bs)) = (strip_paren(r), self.bounds.get("TryInto")) {
                if p.path.is_ident("self") { let t: Type = parse_str(&bs[0].1).unwrap(); return Ok(Some(parse_quote!(vx_try_from::<_, #t>(#r)))); }
            }
        }
        if !is_crate {
            let strish = self.env.ty(r).is_strish();
            let rn = match name.as_str() {
                "as_ref" | "to_le_bytes" | "to_be_bytes" | "from_le_bytes" | "try_into" | "to_string" | "clone" | "join" | "parse" | "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "rfind" | "find" | "into" | "values" | "keys" | "to_owned" | "chars" | "trim" | "swap_bytes" | "rsplit_once" | "split_once" | "rposition" | "contains" | "append" | "leading_zeros" | "last_mut" | "dedup" | "to_lowercase" | "to_uppercase" | "as_bytes" => true,
                "iter" | "into_iter" => true,
                "len" | "is_empty" | "split_at" | "push_str" | "get" => strish,
                _ => false,
            };
            if name == "split" && strish { let f = format_ident!("vx_split"); let args = &m.args; return Ok(Some(parse_quote!(#r.#f(#args)))); }
            if rn {
                let f = format_ident!("vx_{}", if strish && (name == "split_at" || name == "len" || name == "is_empty" || name == "get") { format!("str_{}", name) } else { name.clone() });
                let args = &m.args;
                let tf = &m.turbofish;
                return Ok(Some(if tf.is_some() && name != "into" { parse_quote!(#r.#f #tf (#args)) } else { parse_quote!(#r.#f(#args)) }));
            }
        }
        // inline a helper that has no contract
        if let Some(f) = self.k.find_method(&kind, &name) {
            if (self.inline_ok)(f) {
                let f = f.clone();
                return Ok(Some(self.inline(&f, Some(r), &m.args)?));
            }
        }
        Ok(None)
    }

    /// The call of a helper that has no contract.
    fn to_inline(&self, e: &Expr) -> Option<(FnInfo, Option<Expr>, Punctuated<Expr, Token![,]>)> {
        match strip_paren(e) {
            Expr::MethodCall(m) => {
                let f = self.k.find_method(&self.kind(&m.receiver), &m.method.to_string())?;
                if !(self.inline_ok)(f) { return None; }
                Some((f.clone(), Some((*m.receiver).clone()), m.args.clone()))
            }
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) => p, _ => return None };
                let segs = path_str(&p.path);
                let st = if segs.len() >= 2 { let q = segs[segs.len() - 2].as_str(); Some(if q == "Self" { self.env.self_ty.as_str() } else { q }) } else { None };
                let f = self.k.find_fn(st, segs.last()?)?;
                if !(self.inline_ok)(f) { return None; }
                Some((f.clone(), None, c.args.clone()))
            }
            _ => None,
        }
    }

    fn inline(&mut self, f: &FnInfo, recv: Option<&Expr>, args: &Punctuated<Expr, Token![,]>) -> R<Expr> {
        self.inlined.push(f.key.clone());
        if self.inlined.len() > 40 { return Err("too much to inline".into()); }
        if !f.sig.generics.params.iter().all(|g| matches!(g, GenericParam::Lifetime(_))) { return Err(format!("{} is generic and has no contract", f.key)); }
        let whole = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.block.clone() });
        let exits = std::mem::replace(&mut self.exits, Exits::None);
        let body = match self.elim_body(&whole, f.ret.head()) {
            Ok(b) => b,
            // the caller leaves with the same value
            Err(_) if f.ret.head() == self.ret.head() && (matches!(exits, Exits::All) || matches!(exits, Exits::Failing) && only_failing(&f.block)) => whole,
            Err(e) => return Err(e),
        };
        struct S<'b> { id: Ident, ty: &'b str }
        impl<'b> VisitMut for S<'b> {
            fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = self.id.clone() } else if i == "Self" { *i = Ident::new(self.ty, i.span()) } }
            fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(m.tokens.clone()); }
        }
        impl<'b> S<'b> {
            fn tokens(&mut self, ts: TokenStream) -> TokenStream {
                ts.into_iter().map(|t| match t {
                    TokenTree::Ident(mut i) => { self.visit_ident_mut(&mut i); TokenTree::Ident(i) }
                    TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), self.tokens(g.stream())); n.set_span(g.span()); TokenTree::Group(n) }
                    t => t,
                }).collect()
            }
        }
        let sid = self.fresh("self");
        let mut body = body;
        S { id: sid.clone(), ty: f.self_ty.as_deref().unwrap_or("") }.visit_expr_mut(&mut body);
        let mut names: Vec<Pat> = vec![];
        let mut vals: Vec<Expr> = vec![];
        let mut it = args.iter();
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(rc) => {
                    let r = match recv { Some(r) => r.clone(), None => it.next().ok_or("arguments")?.clone() };
                    let is_ref = matches!(self.env.ty(&r), Ty::Ref(..));
                    names.push(parse_quote!(#sid));
                    vals.push(if rc.reference.is_none() { r } else if rc.mutability.is_some() { if is_ref { parse_quote!(&mut *#r) } else { parse_quote!(&mut #r) } } else if matches!(self.env.ty(&r), Ty::Ref(true, _)) { parse_quote!(&*#r) } else if is_ref { r } else { parse_quote!(&#r) });
                }
                FnArg::Typed(t) => {
                    let v = it.next().ok_or("arguments")?.clone();
                    names.push((*t.pat).clone());
                    vals.push(match &*t.ty { Type::Reference(r) if r.mutability.is_some() && !matches!(v, Expr::Reference(_)) => parse_quote!(&mut *#v), Type::Reference(r) if r.mutability.is_none() && matches!(v, Expr::Path(_)) && matches!(self.env.ty(&v), Ty::Ref(true, _)) => parse_quote!(&*#v), _ => v });
                }
            }
        }
        let lets: Vec<Stmt> = if names.len() == 1 { let (n, v) = (&names[0], &vals[0]); vec![parse_quote!(let #n = #v;)] } else if names.is_empty() { vec![] } else { vec![parse_quote!(let (#(#names),*) = (#(#vals),*);)] };
        // Types of the parameters, so that &String as &str is coerced.
        let mut typed: Vec<Stmt> = vec![];
        for p in &f.sig.inputs { if let FnArg::Typed(t) = p { if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.mutability.is_none() { let (i, e) = (&i.ident, &r.elem); let e = fix_type(e); typed.push(parse_quote!(let #i: &#e = #i;)); } } } }
        Ok(parse_quote!({ #(#lets)* #(#typed)* #body }))
    }

    fn call_step(&mut self, c: &ExprCall) -> R<Option<Expr>> {
        let p = match &*c.func { Expr::Path(p) => p, _ => return Err("call of an expression".into()) };
        let segs = path_str(&p.path);
        let last = segs.last().unwrap().as_str();
        if last.starts_with("vx_") { return Ok(None); }
        let args = &c.args;
        let q = if segs.len() >= 2 { segs[segs.len() - 2].as_str() } else { "" };
        let id = |s: &str| Ident::new(s, Span::call_site());
        if segs.len() >= 2 {
            // the parameter of a blanket impl
            let qt = if let Some(bs) = self.bounds.get(&format!("param:{}", q)) { bs[0].1.clone() } else { q.to_string() };
            if PRIMS.contains(&qt.as_str()) && self.k.trait_fn_ret(last).is_none() {
                let t = id(&qt);
                match last {
                    "try_from" => return Ok(Some(parse_quote!(vx_try_from::<_, #t>(#args)))),
                    "from" => return Ok(Some(parse_quote!(vx_from::<_, #t>(#args)))),
                    "default" => return Ok(Some(parse_quote!(<#t as VxDefault>::vx_default()))),
                    _ => { let f = format_ident!("vx_{}_{}", qt, last); return Ok(Some(parse_quote!(#f(#args)))); }
                }
            }
            match (q, last) {
                ("mem", "transmute") => return Ok(Some(parse_quote!(vx_transmute(#args)))),
                ("mem", "take") => return Ok(Some(parse_quote!(vx_take(#args)))),
                ("mem", "replace") => return Ok(Some(parse_quote!(vx_replace(#args)))),
                ("mem", "swap") => return Ok(Some(parse_quote!(vx_swap(#args)))),
                ("String", "from_utf8_lossy") => return Ok(Some(parse_quote!(vx_from_utf8_lossy(#args)))),
                ("String", "from") => return Ok(Some(parse_quote!(vx_string_from(#args)))),
                ("str", "parse") => {
                    let a = args.first().ok_or("arguments")?;
                    let tf = match &p.path.segments.last().unwrap().arguments { PathArguments::AngleBracketed(a) => Some(a.clone()), _ => None };
                    return Ok(Some(match tf { Some(mut t) => { t.colon2_token = Some(Default::default()); parse_quote!(#a.vx_parse #t ()) } None => parse_quote!(#a.vx_parse()) }));
                }
                ("Default", "default") => return Ok(Some(parse_quote!(VxDefault::vx_default()))),
                (t, "default") if self.k.fn_ret(Some(t), "default").is_none() => { let t = id(t); return Ok(Some(parse_quote!(<#t as VxDefault>::vx_default()))); }
                _ => {}
            }
        }
        let st = if segs.len() >= 2 { Some(if q == "Self" { self.env.self_ty.as_str() } else { q }) } else { None };
        if let Some(f) = self.k.find_fn(st, last) {
            if (self.inline_ok)(f) {
                let f = f.clone();
                return Ok(Some(self.inline(&f, None, args)?));
            }
        }
        Ok(None)
    }

    fn mac(&mut self, m: &Macro) -> R<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || -> R<Vec<Expr>> { Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).map(|p| p.into_iter().collect()).map_err(|e| format!("{}!: {}", name, e)) };
        Ok(match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => parse_quote!(vx_panic()),
            "assert" | "debug_assert" => { let a = args()?; let c = &a[0]; parse_quote!(if !(#c) { vx_panic(); }) }
            "assert_eq" | "debug_assert_eq" => { let a = args()?; let (l, r) = (&a[0], &a[1]); parse_quote!(if !(#l == #r) { vx_panic(); }) }
            "assert_ne" | "debug_assert_ne" => { let a = args()?; let (l, r) = (&a[0], &a[1]); parse_quote!(if #l == #r { vx_panic(); }) }
            "matches" => {
                let toks: Vec<_> = m.tokens.clone().into_iter().collect();
                let at = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')).ok_or("matches!")?;
                let e: TokenStream = toks[..at].iter().cloned().collect();
                let p: TokenStream = toks[at + 1..].iter().cloned().collect();
                syn::parse2(quote!(match #e { #p => true, _ => false })).map_err(|e| e.to_string())?
            }
            "vec" => {
                if m.tokens.is_empty() { return Ok(parse_quote!(Vec::new())); }
                let a = args()?;
                let v = self.fresh("v");
                parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v })
            }
            "format" => {
                let a = args()?;
                let f = match &a[0] { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return Err("format!".into()) };
                let mut e: Expr = parse_quote!(vx_fmt());
                let mut rest = f.as_str();
                let mut n = 1;
                while !rest.is_empty() {
                    match rest.find(|c| c == '{' || c == '}') {
                        None => { e = parse_quote!(vx_fmt_lit(#e, #rest)); rest = ""; }
                        Some(i) => {
                            if i > 0 { let l = &rest[..i]; e = parse_quote!(vx_fmt_lit(#e, #l)); }
                            let r = &rest[i..];
                            if r.starts_with("{{") { e = parse_quote!(vx_fmt_lit(#e, "{")); rest = &r[2..]; }
                            else if r.starts_with("}}") { e = parse_quote!(vx_fmt_lit(#e, "}")); rest = &r[2..]; }
                            else if r.starts_with("{}") { let x = a.get(n).ok_or("format! arguments")?; n += 1; e = parse_quote!(vx_fmt_arg(#e, &#x)); rest = &r[2..]; }
                            else if let Some(j) = r.find('}') {
                                let id = &r[1..j];
                                if id.is_empty() || !id.chars().all(|c| c.is_alphanumeric() || c == '_') || id.chars().next().unwrap().is_ascii_digit() { return Err("format! specification".into()); }
                                let id = Ident::new(id, Span::call_site());
                                e = parse_quote!(vx_fmt_arg(#e, &#id));
                                rest = &r[j + 1..];
                            } else { return Err("format!".into()); }
                        }
                    }
                }
                parse_quote!(vx_fmt_end(#e))
            }
            n => match self.macros.get(n).cloned() {
                Some(lm) => {
                    let ts = lm.expand(m.tokens.clone())?;
                    syn::parse2(quote!({ #ts })).map_err(|e| format!("{}!: {}", n, e))?
                }
                None => return Err(format!("macro {}!", n)),
            },
        })
    }

    // ------------------------------------------------------------ the walk

    pub fn expr(&mut self, e: &mut Expr, expected: &Ty, tail: bool) -> R<()> {
        let mut guard = 0;
        while let Some(n) = self.step(e, expected, tail)? {
            *e = n;
            guard += 1;
            if guard > 200 { return Err("the rewriting does not end".into()); }
        }
        let u = Ty::Unk;
        match e {
            Expr::Lit(l) => if let Lit::Str(s) = &l.lit { self.strs.insert(s.value()); },
            Expr::Block(b) => { if b.label.is_some() { return Err("labelled block".into()); } self.block(&mut b.block, expected, tail)? }
            Expr::If(i) => {
                self.expr(&mut i.cond, &u, false)?;
                self.block(&mut i.then_branch, expected, tail)?;
                if let Some((_, e)) = &mut i.else_branch { self.expr(e, expected, tail)?; if !matches!(&**e, Expr::Block(_) | Expr::If(_)) { let x = (**e).clone(); **e = parse_quote!({ #x }); } }
            }
            Expr::Match(m) => {
                let st = self.env.ty(&m.expr);
                self.expr(&mut m.expr, &u, false)?;
                let single = m.arms.len();
                for a in &mut m.arms {
                    self.env.push();
                    self.env.bind(&a.pat, &st);
                    let key = a.pat.to_token_stream().to_string();
                    let outer = single > 3;
                    if outer { self.arms.push(key.clone()); }
                    if let Some((_, g)) = &mut a.guard { self.expr(g, &u, false)?; }
                    self.expr(&mut a.body, expected, tail)?;
                    if outer { self.arms.pop(); }
                    let k = norm(&key);
                    for kind in ["arm", "armend"] {
                        if self.c.hints.contains_key(&(kind.to_string(), k.clone())) {
                            self.used.insert((kind.to_string(), k.clone()));
                            let body = &a.body;
                            let b: Expr = if kind == "arm" { parse_quote!({ vx_mark!(arm, #k); #body }) } else { let v = self.fresh("r"); parse_quote!({ let #v = #body; vx_mark!(armend, #k); #v }) };
                            a.body = Box::new(b);
                        }
                    }
                    a.comma = Some(Default::default());
                    self.env.pop();
                    if let Pat::Lit(_) = a.pat {}
                }
            }
            Expr::Loop(l) => self.block(&mut l.body, &u, false)?,
            Expr::MethodCall(m) => {
                self.expr(&mut m.receiver, &u, false)?;
                for a in &mut m.args { self.expr(a, &u, false)?; }
            }
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) => path_str(&p.path), _ => vec![] };
                let last = p.last().cloned().unwrap_or_default();
                let q = if p.len() >= 2 { p[p.len() - 2].clone() } else { String::new() };
                let exp: Vec<Ty> = match last.as_str() {
                    "Ok" | "Some" => vec![expected.arg(0)],
                    _ => self.k.variant(if q == "Self" { &self.env.self_ty } else { &q }, &last).cloned().unwrap_or_default(),
                };
                for (i, a) in c.args.iter_mut().enumerate() { let x = exp.get(i).cloned().unwrap_or(Ty::Unk); self.expr(a, &x, false)?; }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                let n = if n == "Self" { self.env.self_ty.clone() } else { n };
                for f in &mut s.fields {
                    let t = match &f.member { Member::Named(m) => self.k.field_ty(&n, &m.to_string()).unwrap_or(Ty::Unk), _ => Ty::Unk };
                    let was_path = matches!(f.expr, Expr::Path(_));
                    self.expr(&mut f.expr, &t, false)?;
                    if !was_path { f.colon_token = Some(Default::default()); }
                }
            }
            Expr::Binary(b) => { self.expr(&mut b.left, &u, false)?; self.expr(&mut b.right, &u, false)?; wrap_cast(&mut b.left); wrap_cast(&mut b.right) }
            Expr::Unary(x) => { self.expr(&mut x.expr, &u, false)?; wrap_cast(&mut x.expr) }
            Expr::Reference(x) => self.expr(&mut x.expr, &u, false)?,
            Expr::Paren(x) => self.expr(&mut x.expr, expected, false)?,
            Expr::Field(x) => self.expr(&mut x.base, &u, false)?,
            Expr::Index(x) => {
                let base = self.env.ty(&x.expr);
                self.expr(&mut x.expr, &u, false)?; self.expr(&mut x.index, &u, false)?;
                if base.is_strish() {
                    let b = &x.expr;
                    *e = match &*x.index {
                        Expr::Range(ExprRange { start: Some(a), end: None, .. }) => parse_quote!(*#b.vx_str_from(#a)),
                        Expr::Range(ExprRange { start: None, end: Some(a), limits: RangeLimits::HalfOpen(_), .. }) => parse_quote!(*#b.vx_str_to(#a)),
                        Expr::Range(ExprRange { start: Some(a), end: Some(z), limits: RangeLimits::HalfOpen(_), .. }) => parse_quote!(*#b.vx_str_between(#a, #z)),
                        _ => return Err("index of a text".into()),
                    };
                }
            }
            Expr::Range(x) => { if let Some(a) = &mut x.start { self.expr(a, &u, false)? } if let Some(a) = &mut x.end { self.expr(a, &u, false)? } }
            Expr::Tuple(t) => for a in &mut t.elems { self.expr(a, &u, false)? },
            Expr::Array(t) => for a in &mut t.elems { self.expr(a, &u, false)? },
            Expr::Repeat(t) => self.expr(&mut t.expr, &u, false)?,
            Expr::Return(r) => if let Some(x) = &mut r.expr { let rt = self.ret.clone(); self.expr(x, &rt, true)? },
            Expr::Break(b) => if b.label.is_some() || b.expr.is_some() { return Err("break with a label or value".into()); },
            Expr::Continue(b) => if b.label.is_some() { return Err("continue with a label".into()); },
            Expr::Assign(a) => { let t = self.env.ty(&a.left); self.expr(&mut a.left, &u, false)?; self.expr(&mut a.right, &t, false)? }
            Expr::Cast(c) => {
                self.expr(&mut c.expr, &u, false)?;
                let t = from_syn(&c.ty, "");
                if let Ty::Named(n, _) = &t { if PRIMS.contains(&n.as_str()) && !n.starts_with('f') {
                    let c2 = c.clone();
                    let inner: Expr = Expr::Paren(ExprParen { attrs: vec![parse_quote!(#[verifier::truncate])], paren_token: Default::default(), expr: Box::new(Expr::Cast(c2)) });
                    *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(inner) });
                } }
            }
            Expr::Let(_) => return Err("let in a condition".into()),
            Expr::Path(_) | Expr::Macro(_) => {}
            other => return Err(format!("expression not supported: {}", other.to_token_stream())),
        }
        Ok(())
    }

    fn block(&mut self, b: &mut Block, expected: &Ty, tail: bool) -> R<()> {
        self.env.push();
        let r = self.block_in(b, expected, tail);
        self.env.pop();
        r
    }
    pub fn block_in(&mut self, b: &mut Block, expected: &Ty, tail: bool) -> R<()> {
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let text = norm(&s.to_token_stream().to_string());
            let mut befores = vec![];
            let mut afters = vec![];
            for ((k, key), _) in self.c.hints.iter() {
                if (k == "before" || k == "after") && text.starts_with(key.as_str()) && !self.used.contains(&(k.clone(), key.clone())) {
                    if k == "before" { befores.push(key.clone()) } else { afters.push(key.clone()) }
                }
            }
            for k in befores { self.used.insert(("before".into(), k.clone())); out.push(parse_quote!(vx_mark!(before, #k);)); }
            match &mut s {
                Stmt::Local(l) => {
                    if !l.attrs.is_empty() { l.attrs.clear(); }
                    let mut ann = Ty::Unk;
                    if let Pat::Type(pt) = &mut l.pat {
                        ann = from_syn(&pt.ty, &self.env.self_ty);
                        *pt.ty = fix_type(&pt.ty);
                    }
                    if let Some(init) = &mut l.init {
                        if let Some((_, d)) = &init.diverge {
                            // let P = E else { D };
                            let (p, x) = (&l.pat, &init.expr);
                            let vars = pat_vars(p);
                            if vars.len() != 1 { return Err("let-else with several variables".into()); }
                            let v = &vars[0];
                            let mut e: Expr = parse_quote!(match #x { #p => #v, _ => #d });
                            let t = { let m: ExprMatch = match &e { Expr::Match(m) => m.clone(), _ => unreachable!() }; self.env.ty(&Expr::Match(m)) };
                            self.expr(&mut e, &Ty::Unk, false)?;
                            let mut_ = if has_mut(p) { Some(quote!(mut)) } else { None };
                            out.push(syn::parse2(quote!(let #mut_ #v = #e;)).map_err(|e| e.to_string())?);
                            self.env.set(&v.to_string(), t);
                            continue;
                        }
                        let t = match &ann { Ty::Unk => self.env.ty(&init.expr), t => t.clone() };
                        self.expr(&mut init.expr, &ann, false)?;
                        self.env.bind(&l.pat, &t);
                    } else { self.env.bind(&l.pat, &ann); }
                    // Types from the contract file for variables of the source.
                    if let Pat::Ident(pi) = &l.pat {
                        if let Some(t) = self.c.types.get(&pi.ident.to_string()) {
                            let t: Type = parse_str(t).map_err(|e| e.to_string())?;
                            let p = l.pat.clone();
                            l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
                        }
                    }
                    out.push(s);
                }
                Stmt::Item(Item::Macro(m)) if m.mac.path.is_ident("macro_rules") => {
                    let name = m.ident.as_ref().unwrap().to_string();
                    self.macros.insert(name, LocalMacro::parse(m.mac.tokens.clone())?);
                }
                Stmt::Item(Item::Use(u)) => {
                    let t = u.to_token_stream().to_string();
                    if t.contains("Entry") { self.entry = Some(if t.contains("hash_map") { "HashEntry".into() } else { "BTreeEntry".into() }); }
                }
                Stmt::Item(_) => return Err("an item inside a function".into()),
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name.starts_with("vx_") { out.push(s); continue; }
                    let last = i + 1 == n && m.semi_token.is_none();
                    // A macro as the tail (or a statement that contains the tail of a block).
                    let mut e = self.mac(&m.mac)?;
                    let is_last = i + 1 == n;
                    self.expr(&mut e, if is_last { expected } else { &Ty::Unk }, tail && is_last)?;
                    out.push(Stmt::Expr(e, if last { None } else { Some(Default::default()) }));
                }
                Stmt::Expr(e, semi) => {
                    let is_tail = i + 1 == n && semi.is_none();
                    self.expr(e, if is_tail { expected } else { &Ty::Unk }, tail && is_tail)?;
                    // statements flattened: a block from a loop does not need its braces, but keeps its scope
                    if semi.is_none() && !is_tail && !matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Loop(_)) { *semi = Some(Default::default()); }
                    if is_tail && matches!(e, Expr::Assign(_)) { *semi = Some(Default::default()); }
                    out.push(s);
                }
            }
            for k in afters { self.used.insert(("after".into(), k.clone())); out.push(parse_quote!(vx_mark!(after, #k);)); }
        }
        b.stmts = out;
        Ok(())
    }
}

fn hoist(x: &Expr, id: &Ident) -> Option<(Expr, Expr)> {
    struct H { found: Option<Expr>, id: Ident }
    impl VisitMut for H {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if self.found.is_some() { return; }
            if let Expr::Closure(_) = e { return; }
            if let Expr::Try(t) = e {
                if !contains_exit(&t.expr) { self.found = Some((*t.expr).clone()); let id = &self.id; *e = parse_quote!(#id); return; }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut h = H { found: None, id: id.clone() };
    let mut e = x.clone();
    h.visit_expr_mut(&mut e);
    h.found.map(|q| (q, e))
}
/// Statements that others can follow.
fn closed(b: &[Stmt]) -> Vec<Stmt> {
    let mut v = b.to_vec();
    if let Some(Stmt::Expr(_, semi)) = v.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
    if let Some(Stmt::Macro(m)) = v.last_mut() { m.semi_token = Some(Default::default()); }
    v
}
fn ends_in_return(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) }
fn pat_vars(p: &Pat) -> Vec<Ident> {
    struct V(Vec<Ident>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, i: &'a PatIdent) { if i.ident.to_string().chars().next().unwrap().is_lowercase() { self.0.push(i.ident.clone()) } } }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}
fn has_mut(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, i: &'a PatIdent) { if i.mutability.is_some() { self.0 = true } } }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}
fn bind_expr(p: &Pat, item: &Expr, b: &Expr) -> Expr {
    if let (Pat::Ident(i), Expr::Path(q)) = (p, item) { if i.by_ref.is_none() && q.path.is_ident(&i.ident) { return b.clone(); } }
    if let Pat::Wild(_) = p { return b.clone(); }
    match b {
        Expr::Block(bl) if bl.label.is_none() => { let s = &bl.block.stmts; parse_quote!({ let #p = #item; #(#s)* }) }
        b => parse_quote!({ let #p = #item; #b }),
    }
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Struct(s) => s.fields.iter().all(|f| simple(&f.expr)) && s.rest.is_none(),
        Expr::Unary(u) => simple(&u.expr),
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Call(c) => c.args.iter().all(simple) && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().chars().next().unwrap().is_uppercase()),
        Expr::Tuple(t) => t.elems.iter().all(simple),
        _ => false,
    }
}
fn wrap_cast(e: &mut Expr) { if let Expr::Cast(_) = e { let x = e.clone(); *e = parse_quote!((#x)); } }

struct BreakV { depth: usize, found: bool, rep: Option<Option<Ident>> }
impl VisitMut for BreakV {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; }
            Expr::Closure(_) => {}
            Expr::Break(b) if self.depth == 0 && b.expr.is_some() => {
                self.found = true;
                let v = b.expr.clone().unwrap();
                match &self.rep { None => {} Some(None) => *e = parse_quote!(return #v), Some(Some(id)) => *e = parse_quote!({ #id = #v; break; }) }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn has_break(b: &Block) -> bool {
    struct V(bool, usize);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.1 += 1; visit::visit_expr(self, e); self.1 -= 1 }
                Expr::Break(_) if self.1 == 0 => self.0 = true,
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(false, 0);
    v.visit_block(b);
    v.0
}

/// Types as the verified file names them.
pub fn fix_type(t: &Type) -> Type {
    struct F;
    impl VisitMut for F {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                let last = p.path.segments.last().unwrap().ident.to_string();
                if last == "Box" {
                    let s = p.to_token_stream().to_string();
                    if s.contains("dyn") { *t = parse_quote!(VxErr); return; }
                }
                if last == "Cow" { *t = parse_quote!(VxCow); return; }
                if last == "PathBuf" { *t = parse_quote!(VxPathBuf); return; }
                if p.path.segments.len() > 1 && p.qself.is_none() {
                    let l = p.path.segments.last().unwrap().clone();
                    let mut segs = Punctuated::new();
                    segs.push(l);
                    p.path.segments = segs;
                    p.path.leading_colon = None;
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    let mut t = t.clone();
    F.visit_type_mut(&mut t);
    t
}
pub fn ty_tokens(t: &Ty) -> Option<TokenStream> {
    match t {
        Ty::Unk => Some(quote!(_)),
        Ty::Named(n, a) => {
            if n == "Iter" || n.starts_with('{') { return None; }
            let n = match n.as_str() { "Cow" => "VxCow", n => n };
            let i = Ident::new(n, Span::call_site());
            if a.is_empty() { Some(quote!(#i)) } else { let a: Option<Vec<_>> = a.iter().map(ty_tokens).collect(); let a = a?; Some(quote!(#i<#(#a),*>)) }
        }
        Ty::Ref(m, t) => { let t = ty_tokens(t)?; Some(if *m { quote!(&mut #t) } else { quote!(&#t) }) }
        Ty::Slice(t) => { let t = ty_tokens(t)?; Some(quote!([#t])) }
        Ty::Tuple(a) => { let a: Option<Vec<_>> = a.iter().map(ty_tokens).collect(); let a = a?; Some(quote!((#(#a),*))) }
    }
}
