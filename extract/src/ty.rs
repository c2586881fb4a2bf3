//! Approximate types: enough to tell what a method call is called on.
use crate::krate::Krate;
use std::collections::HashMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unk,
    Named(String, Vec<Ty>),
    Ref(bool, Box<Ty>),
    Slice(Box<Ty>),
    Tuple(Vec<Ty>),
}
use Ty::*;

impl Ty {
    pub fn named(s: &str) -> Ty { Named(s.to_string(), vec![]) }
    pub fn strip(&self) -> &Ty {
        match self {
            Ref(_, t) => t.strip(),
            Named(n, a) if (n == "Box" || n == "Rc" || n == "Arc") && a.len() == 1 => a[0].strip(),
            t => t,
        }
    }
    pub fn head(&self) -> &str {
        match self.strip() { Named(n, _) => n, Slice(_) => "[]", _ => "" }
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self.strip() {
            Named(_, a) => a.get(i).cloned().unwrap_or(Unk),
            Slice(t) => (**t).clone(),
            Tuple(a) => a.get(i).cloned().unwrap_or(Unk),
            _ => Unk,
        }
    }
    pub fn is_strish(&self) -> bool { matches!(self.head(), "str" | "String" | "Cow") }
    pub fn opt(t: Ty) -> Ty { Named("Option".into(), vec![t]) }
    pub fn iter(t: Ty) -> Ty { Named("Iter".into(), vec![t]) }
    pub fn rf(t: Ty) -> Ty { Ref(false, Box::new(t)) }
}

pub const PRIMS: [&str; 14] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"];

pub fn from_syn(t: &Type, self_ty: &str) -> Ty {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            if n == "Self" { return Ty::named(self_ty); }
            let mut args = vec![];
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                for x in &a.args {
                    if let GenericArgument::Type(t) = x { args.push(from_syn(t, self_ty)); }
                }
            }
            Named(n, args)
        }
        Type::Reference(r) => Ref(r.mutability.is_some(), Box::new(from_syn(&r.elem, self_ty))),
        Type::Slice(s) => Slice(Box::new(from_syn(&s.elem, self_ty))),
        Type::Array(s) => Slice(Box::new(from_syn(&s.elem, self_ty))),
        Type::Tuple(t) => Tuple(t.elems.iter().map(|t| from_syn(t, self_ty)).collect()),
        Type::Paren(p) => from_syn(&p.elem, self_ty),
        Type::Group(p) => from_syn(&p.elem, self_ty),
        Type::ImplTrait(i) => {
            for b in &i.bounds {
                if let TypeParamBound::Trait(t) = b {
                    let s = t.path.segments.last().unwrap();
                    if s.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            for x in &a.args {
                                if let GenericArgument::AssocType(t) = x { return Ty::iter(from_syn(&t.ty, self_ty)); }
                            }
                        }
                        return Ty::iter(Unk);
                    }
                }
            }
            Unk
        }
        _ => Unk,
    }
}

pub struct Env<'a> {
    pub k: &'a Krate,
    pub self_ty: String,
    pub scopes: Vec<HashMap<String, Ty>>,
}

impl<'a> Env<'a> {
    pub fn push(&mut self) { self.scopes.push(HashMap::new()); }
    pub fn pop(&mut self) { self.scopes.pop(); }
    pub fn set(&mut self, n: &str, t: Ty) { self.scopes.last_mut().unwrap().insert(n.to_string(), t); }
    pub fn get(&self, n: &str) -> Option<&Ty> { self.scopes.iter().rev().find_map(|s| s.get(n)) }

    pub fn bind(&mut self, p: &Pat, t: &Ty) {
        match p {
            Pat::Ident(i) => {
                self.set(&i.ident.to_string(), t.clone());
                if let Some((_, s)) = &i.subpat { self.bind(s, t); }
            }
            Pat::Type(pt) => { let t = from_syn(&pt.ty, &self.self_ty); self.bind(&pt.pat, &t) }
            Pat::Reference(r) => { let t = t.strip().clone(); self.bind(&r.pat, &t) }
            Pat::Paren(q) => self.bind(&q.pat, t),
            Pat::Tuple(tp) => for (i, q) in tp.elems.iter().enumerate() { let a = t.arg(i); self.bind(q, &a) },
            Pat::Or(o) => for q in &o.cases { self.bind(q, t) },
            Pat::TupleStruct(ts) => {
                let args = self.ctor_args(&ts.path, t);
                for (i, q) in ts.elems.iter().enumerate() {
                    let a = args.get(i).cloned().unwrap_or(Unk);
                    self.bind(q, &a)
                }
            }
            Pat::Struct(s) => for f in &s.fields {
                let a = match &f.member { Member::Named(n) => self.k.field_ty(t.head(), &n.to_string()).unwrap_or(Unk), _ => Unk };
                self.bind(&f.pat, &a)
            },
            _ => {}
        }
    }
    /// The types inside `Some(..)`, `Ok(..)`, `Enum::Variant(..)`.
    fn ctor_args(&self, path: &Path, t: &Ty) -> Vec<Ty> {
        let last = path.segments.last().unwrap().ident.to_string();
        match last.as_str() {
            "Some" => return vec![t.arg(0)],
            "Ok" => return vec![t.arg(0)],
            "Err" => return vec![t.arg(1)],
            _ => {}
        }
        if path.segments.len() >= 2 {
            let mut e = path.segments[path.segments.len() - 2].ident.to_string();
            if e == "Self" { e = self.self_ty.clone(); }
            if let Some(v) = self.k.variant(&e, &last) { return v.clone(); }
        }
        if let Some(s) = self.k.structs.get(&last) { return s.iter().map(|f| f.1.clone()).collect(); }
        vec![]
    }

    pub fn ty(&self, e: &Expr) -> Ty {
        match e {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if let Some(t) = self.get(&n) { return t.clone(); }
                    if n == "None" { return Ty::opt(Unk); }
                    return Unk;
                }
                let s = &p.path.segments;
                let e = s[s.len() - 2].ident.to_string();
                let e = if e == "Self" { self.self_ty.clone() } else { e };
                if self.k.variant(&e, &s.last().unwrap().ident.to_string()).is_some() { return Ty::named(&e); }
                Unk
            }
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Group(p) => self.ty(&p.expr),
            Expr::Reference(r) => Ref(r.mutability.is_some(), Box::new(self.ty(&r.expr))),
            Expr::Unary(u) => match u.op { UnOp::Deref(_) => match self.ty(&u.expr) { Ref(_, t) => *t, Named(n, a) if n == "Box" => a[0].clone(), t => t }, UnOp::Not(_) => self.ty(&u.expr), _ => self.ty(&u.expr) },
            Expr::Lit(l) => match &l.lit {
                Lit::Str(_) => Ty::rf(Ty::named("str")),
                Lit::Bool(_) => Ty::named("bool"),
                Lit::Char(_) => Ty::named("char"),
                Lit::Int(i) => if i.suffix().is_empty() { Ty::named("{integer}") } else { Ty::named(i.suffix()) },
                Lit::ByteStr(_) => Ty::rf(Slice(Box::new(Ty::named("u8")))),
                _ => Unk,
            },
            Expr::Cast(c) => from_syn(&c.ty, &self.self_ty),
            Expr::Field(f) => {
                let b = self.ty(&f.base);
                match &f.member {
                    Member::Named(n) => self.k.field_ty(b.head(), &n.to_string()).unwrap_or(Unk),
                    Member::Unnamed(i) => match b.strip() {
                        Tuple(_) => b.arg(i.index as usize),
                        Named(n, _) => self.k.structs.get(n).and_then(|s| s.get(i.index as usize)).map(|f| f.1.clone()).unwrap_or(Unk),
                        _ => Unk,
                    },
                }
            }
            Expr::Index(i) => {
                let b = self.ty(&i.expr);
                let range = matches!(&*i.index, Expr::Range(_));
                match b.strip() {
                    Named(n, a) if n == "Vec" => if range { Slice(Box::new(a.get(0).cloned().unwrap_or(Unk))) } else { a.get(0).cloned().unwrap_or(Unk) },
                    Slice(t) => if range { Slice(t.clone()) } else { (**t).clone() },
                    Named(n, _) if range && (n == "str" || n == "String") => Ty::named("str"),
                    _ => Unk,
                }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                if n == "Self" { return Ty::named(&self.self_ty); }
                if s.path.segments.len() >= 2 {
                    let e = s.path.segments[s.path.segments.len() - 2].ident.to_string();
                    if self.k.enums.contains_key(&e) { return Ty::named(&e); }
                }
                Ty::named(&n)
            }
            Expr::Tuple(t) => Tuple(t.elems.iter().map(|e| self.ty(e)).collect()),
            Expr::Block(b) => self.block_ty(&b.block),
            Expr::Unsafe(b) => self.block_ty(&b.block),
            Expr::If(i) => {
                let t = self.block_ty(&i.then_branch);
                if t != Unk { return t; }
                i.else_branch.as_ref().map(|e| self.ty(&e.1)).unwrap_or(Unk)
            }
            Expr::Match(m) => {
                let st = self.ty(&m.expr);
                for a in &m.arms {
                    let mut sub = Env { k: self.k, self_ty: self.self_ty.clone(), scopes: self.scopes.clone() };
                    sub.push();
                    sub.bind(&a.pat, &st);
                    let t = sub.ty(&a.body);
                    if t != Unk && !(t.head() == "Option" && t.arg(0) == Unk) { return t; }
                }
                for a in &m.arms {
                    let t = self.ty(&a.body);
                    if t != Unk { return t; }
                }
                Unk
            }
            Expr::Try(t) => self.ty(&t.expr).arg(0),
            Expr::Macro(m) => match m.mac.path.segments.last().unwrap().ident.to_string().as_str() { "format" => Ty::named("String"), "vec" => Named("Vec".into(), vec![Unk]), _ => Unk },
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => Ty::named("bool"),
                BinOp::Shl(_) | BinOp::Shr(_) => self.ty(&b.left),
                _ => { let t = self.ty(&b.left); if matches!(t.head(), "" | "{integer}") { self.ty(&b.right) } else { t } }
            },
            Expr::Call(c) => self.call_ty(c),
            Expr::MethodCall(m) => self.method_ty(m),
            _ => Unk,
        }
    }
    fn block_ty(&self, b: &Block) -> Ty {
        let mut sub = Env { k: self.k, self_ty: self.self_ty.clone(), scopes: self.scopes.clone() };
        sub.push();
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    let t = l.init.as_ref().map(|i| sub.ty(&i.expr)).unwrap_or(Unk);
                    sub.bind(&l.pat, &t);
                }
                Stmt::Expr(e, None) => return sub.ty(e),
                _ => {}
            }
        }
        Tuple(vec![])
    }
    fn call_ty(&self, c: &ExprCall) -> Ty {
        let p = match &*c.func { Expr::Path(p) => p, _ => return Unk };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().as_str();
        match last {
            "Some" => return Ty::opt(self.ty(&c.args[0])),
            "Ok" => return Named("Result".into(), vec![self.ty(&c.args[0]), Unk]),
            "Err" => return Named("Result".into(), vec![Unk, self.ty(&c.args[0])]),
            _ => {}
        }
        if segs.len() >= 2 {
            let q = segs[segs.len() - 2].as_str();
            let q = if q == "Self" { self.self_ty.as_str() } else { q };
            if let Some(t) = self.k.fn_ret(Some(q), last) { return subst_self(t, q); }
            if let Some(t) = self.k.trait_fn_ret(last) { return subst_self(t, q); }
            if self.k.variant(q, last).is_some() { return Ty::named(q); }
            return match (q, last) {
                (_, "try_from") => Named("Result".into(), vec![Ty::named(q), Unk]),
                (_, "from_str_radix") => Named("Result".into(), vec![Ty::named(q), Unk]),
                ("ProtoParser", "parse") => Named("Result".into(), vec![Ty::named("Pairs"), Unk]),
                ("str", "parse") => Named("Result".into(), vec![Unk, Unk]),
                ("mem", "take") => self.ty(&c.args[0]).strip().clone(),
                ("mem", "replace") => self.ty(&c.args[0]).strip().clone(),
                (_, "from") | (_, "new") | (_, "default") | (_, "with_capacity") | (_, "copy_from_slice") | (_, "from_le_bytes") | (_, "from_str") => Ty::named(q),
                ("String", "from_utf8_lossy") => Ty::named("Cow"),
                _ => Unk,
            };
        }
        match last {
            "vx_range" => return Ty::iter(self.ty(&c.args[0])),
            "vx_take" | "vx_replace" => return self.ty(&c.args[0]).strip().clone(),
            "vx_from_utf8_lossy" => return Ty::named("Cow"),
            "vx_fmt_end" | "vx_string_from" => return Ty::named("String"),
            "vx_streq" => return Ty::named("bool"),
            "vx_try_from" | "vx_from" => {
                if let Expr::Path(p) = &*c.func { if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments { if let Some(GenericArgument::Type(t)) = a.args.last() { let t = from_syn(t, ""); return if last == "vx_from" { t } else { Named("Result".into(), vec![t, Unk]) }; } } }
            }
            _ => {}
        }
        if let Some(t) = self.k.fn_ret(None, last) { return t; }
        if self.k.structs.contains_key(last) { return Ty::named(last); }
        Unk
    }
    fn closure_ret(&self, f: &Expr, arg: &Ty) -> Ty {
        match f {
            Expr::Closure(c) => {
                let mut sub = Env { k: self.k, self_ty: self.self_ty.clone(), scopes: self.scopes.clone() };
                sub.push();
                if let Some(p) = c.inputs.first() { sub.bind(p, arg); }
                sub.ty(&c.body)
            }
            Expr::Path(p) => {
                let s = &p.path.segments;
                let last = s.last().unwrap().ident.to_string();
                if s.len() >= 2 {
                    let q = s[s.len() - 2].ident.to_string();
                    if self.k.variant(&q, &last).is_some() { return Ty::named(&q); }
                    if let Some(t) = self.k.fn_ret(Some(&q), &last) { return t; }
                }
                if let Some(t) = self.k.fn_ret(None, &last) { return t; }
                if self.k.structs.contains_key(&last) { return Ty::named(&last); }
                Unk
            }
            _ => Unk,
        }
    }
    fn method_ty(&self, m: &ExprMethodCall) -> Ty {
        let r = self.ty(&m.receiver);
        let name = m.method.to_string();
        let name = name.strip_prefix("vx_").map(|n| n.strip_prefix("str_").unwrap_or(n).to_string()).unwrap_or(name.clone());
        if name == "pos" { return Ty::named("usize"); }
        let head = r.head().to_string();
        if let Some(t) = self.k.fn_ret(Some(&head), &name) { return subst_self(t, &head); }
        if let Some(t) = self.k.trait_fn_ret(&name) { return subst_self(t, &head); }
        let a0 = || m.args.first();
        let t = match (head.as_str(), name.as_str()) {
            ("Option", "map") => Some(Ty::opt(self.closure_ret(a0().unwrap(), &r.arg(0)))),
            ("Option", "and_then") => Some(Ty::opt(self.closure_ret(a0().unwrap(), &r.arg(0)).arg(0))),
            ("Option", "ok_or") | ("Option", "ok_or_else") => Some(Named("Result".into(), vec![r.arg(0), Unk])),
            ("Option", "as_ref") | ("Option", "as_mut") => Some(Ty::opt(Ty::rf(r.arg(0)))),
            ("Option", "as_deref") => Some(Ty::opt(Ty::rf(if r.arg(0).head() == "String" { Ty::named("str") } else { r.arg(0).strip().clone() }))),
            ("Option", "cloned") | ("Option", "copied") => Some(Ty::opt(r.arg(0).strip().clone())),
            ("Option", "filter") | ("Option", "or") | ("Option", "or_else") | ("Option", "take") | ("Option", "replace") => Some(r.strip().clone()),
            ("Option", "unwrap") | ("Option", "expect") | ("Option", "unwrap_or") | ("Option", "unwrap_or_else") | ("Option", "unwrap_or_default") => Some(r.arg(0)),
            ("Result", "map") => Some(Named("Result".into(), vec![self.closure_ret(a0().unwrap(), &r.arg(0)), r.arg(1)])),
            ("Result", "map_err") => Some(Named("Result".into(), vec![r.arg(0), self.closure_ret(a0().unwrap(), &r.arg(1))])),
            ("Result", "and_then") => Some(Named("Result".into(), vec![self.closure_ret(a0().unwrap(), &r.arg(0)).arg(0), r.arg(1)])),
            ("Result", "context" | "with_context") => Some(Named("Result".into(), vec![r.arg(0), Unk])),
            ("Result", "ok") => Some(Ty::opt(r.arg(0))),
            ("Result", "unwrap") | ("Result", "expect") | ("Result", "unwrap_or") | ("Result", "unwrap_or_else") | ("Result", "unwrap_or_default") => Some(r.arg(0)),
            ("Option" | "Result", "map_or") => Some(self.closure_ret(m.args.last().unwrap(), &r.arg(0))),
            ("Option" | "Result", "map_or_else") => Some(self.closure_ret(m.args.last().unwrap(), &r.arg(0))),
            (_, "then") if m.args.len() == 1 => Some(Ty::opt(self.closure_ret(a0().unwrap(), &Unk))),
            (_, "then_some") => Some(Ty::opt(self.ty(a0().unwrap()))),
            ("BTreeMap" | "HashMap", "get") => Some(Ty::opt(Ty::rf(r.arg(1)))),
            ("BTreeMap" | "HashMap", "get_mut") => Some(Ty::opt(Ref(true, Box::new(r.arg(1))))),
            ("BTreeMap" | "HashMap", "insert") | ("BTreeMap" | "HashMap", "remove") => Some(Ty::opt(r.arg(1))),
            ("BTreeMap" | "HashMap", "iter") => Some(Ty::iter(Tuple(vec![Ty::rf(r.arg(0)), Ty::rf(r.arg(1))]))),
            ("BTreeMap" | "HashMap", "into_iter") => Some(Ty::iter(Tuple(vec![r.arg(0), r.arg(1)]))),
            ("BTreeMap" | "HashMap", "values") => Some(Ty::iter(Ty::rf(r.arg(1)))),
            ("BTreeMap" | "HashMap", "keys") => Some(Ty::iter(Ty::rf(r.arg(0)))),
            ("Vec" | "[]", "get" | "first" | "last") => Some(Ty::opt(Ty::rf(r.arg(0)))),
            ("Vec" | "[]", "get_mut" | "first_mut" | "last_mut") => Some(Ty::opt(Ref(true, Box::new(r.arg(0))))),
            ("Vec", "pop") => Some(Ty::opt(r.arg(0))),
            ("Vec" | "[]", "iter") => Some(Ty::iter(Ty::rf(r.arg(0)))),
            ("Vec" | "[]", "iter_mut") => Some(Ty::iter(Ref(true, Box::new(r.arg(0))))),
            ("Vec", "into_iter") => Some(Ty::iter(r.arg(0))),
            ("Vec" | "[]", "join") => Some(Ty::named("String")),
            ("Vec" | "[]", "split_at") => Some(Tuple(vec![r.strip().clone(), r.strip().clone()])),
            ("Vec", "as_slice") => Some(Slice(Box::new(r.arg(0)))),
            ("str" | "String", "split_at") => Some(Tuple(vec![Ty::named("str"), Ty::named("str")])),
            ("str" | "String", "split" | "lines" | "split_whitespace") => Some(Ty::iter(Ty::rf(Ty::named("str")))),
            ("str" | "String", "chars") => Some(Ty::iter(Ty::named("char"))),
            ("str" | "String" | "Cow", "as_str" | "trim") => Some(Ty::rf(Ty::named("str"))),
            ("Iter", "next" | "last" | "next_back") => Some(Ty::opt(r.arg(0))),
            ("Iter", "find" | "rfind" | "max_by_key" | "min_by_key" | "nth") => Some(Ty::opt(r.arg(0))),
            ("Iter", "enumerate") => Some(Ty::iter(Tuple(vec![Ty::named("usize"), r.arg(0)]))),
            ("Iter", "map" | "filter_map" | "flat_map") => {
                let c = self.closure_ret(a0().unwrap(), &r.arg(0));
                Some(Ty::iter(if name == "map" { c } else { c.arg(0) }))
            }
            ("Iter", "filter" | "rev" | "skip" | "take" | "peekable" | "chain") => Some(r.strip().clone()),
            ("Iter", "cloned" | "copied") => Some(Ty::iter(r.arg(0).strip().clone())),
            ("Iter", "collect") => m.turbofish.as_ref().and_then(|t| t.args.first()).map(|a| match a { GenericArgument::Type(t) => from_syn(t, &self.self_ty), _ => Unk }),
            ("Pairs", "next") => Some(Ty::opt(Ty::named("Pair"))),
            ("Pair", "into_inner") => Some(Ty::named("Pairs")),
            ("Pair", "as_rule") => Some(Ty::named("Rule")),
            ("Pair", "as_str") => Some(Ty::rf(Ty::named("str"))),
            ("Pairs", "map" | "filter_map") => { let c = self.closure_ret(a0().unwrap(), &Ty::named("Pair")); Some(Ty::iter(if name == "map" { c } else { c.arg(0) })) }
            _ => None,
        };
        if let Some(t) = t { return t; }
        match name.as_str() {
            "len" | "count" => Ty::named("usize"),
            "is_some_and" | "is_none_or" | "is_ok_and" | "is_empty" | "is_some" | "is_none" | "is_ok" | "is_err" | "any" | "all" | "contains" | "contains_key" | "starts_with" | "ends_with" => Ty::named("bool"),
            "to_string" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" => Ty::named("String"),
            "to_owned" if r.is_strish() => Ty::named("String"),
            "trim_start" | "trim_end" => Ty::rf(Ty::named("str")),
            "as_str" => Ty::rf(Ty::named("str")),
            "clone" => r.strip().clone(),
            "try_into" => Named("Result".into(), vec![Unk, Unk]),
            "parse" => Named("Result".into(), vec![m.turbofish.as_ref().and_then(|t| t.args.first()).map(|a| match a { GenericArgument::Type(t) => from_syn(t, &self.self_ty), _ => Unk }).unwrap_or(Unk), Unk]),
            "ok_or" | "ok_or_else" | "map_err" => Named("Result".into(), vec![Unk, Unk]),
            "strip_prefix" | "strip_suffix" => Ty::opt(Ty::rf(Ty::named("str"))),
            "rfind" => Ty::opt(Ty::named("usize")),
            "find" if r.is_strish() => Ty::opt(Ty::named("usize")),
            "checked_add" | "checked_sub" | "checked_mul" | "checked_shl" | "checked_neg" => Ty::opt(r.strip().clone()),
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "wrapping_neg" | "saturating_add" | "saturating_sub" | "min" | "max" | "wrapping_shl" | "wrapping_shr" | "rotate_left" | "pow" => r.strip().clone(),
            "iter" | "into_iter" | "iter_mut" | "values" | "keys" => Ty::iter(Unk),
            "into_inner" => Ty::named("Pairs"),
            "as_rule" => Ty::named("Rule"),
            "freeze" => Ty::named("Bytes"),
            _ => self.k.any_method_ret(&name).unwrap_or(Unk),
        }
    }
}

fn subst_self(t: Ty, s: &str) -> Ty {
    match t {
        Named(n, a) => if n == "Self" { Ty::named(s) } else { Named(n, a.into_iter().map(|t| subst_self(t, s)).collect()) },
        Ref(m, t) => Ref(m, Box::new(subst_self(*t, s))),
        Slice(t) => Slice(Box::new(subst_self(*t, s))),
        Tuple(a) => Tuple(a.into_iter().map(|t| subst_self(t, s)).collect()),
        t => t,
    }
}
