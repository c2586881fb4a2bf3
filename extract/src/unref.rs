//! Patterns `&x`, which the verifier does not take: `&x` becomes `x` with `let x = *x;` where the pattern's body starts.
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn run(b: &mut Block) { U(0).visit_block_mut(b) }

struct U(usize);
struct Walk<'a> { u: &'a mut U, lets: Vec<Stmt>, plain: Vec<Ident> }
impl<'a> VisitMut for Walk<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() {
                match &*r.pat {
                    Pat::Wild(_) => { *p = parse_quote!(_); return; }
                    Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                        let (n, inner) = (i.ident.clone(), r.pat.clone());
                        self.lets.push(parse_quote!(let #inner = *#n;));
                        self.plain.push(n.clone());
                        *p = parse_quote!(#n);
                        return;
                    }
                    Pat::Tuple(t) if t.elems.iter().all(|e| matches!(e, Pat::Ident(_) | Pat::Wild(_))) => {
                        let n = quote::format_ident!("vx_r{}", self.u.0);
                        self.u.0 += 1;
                        let inner = r.pat.clone();
                        self.lets.push(parse_quote!(let #inner = *#n;));
                        *p = parse_quote!(#n);
                        return;
                    }
                    _ => {}
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
struct Sub<'a>(&'a [Ident]);
impl<'a> VisitMut for Sub<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if self.0.contains(i) { let i = i.clone(); *e = parse_quote!((*#i)); return; } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl U {
    fn pat(&mut self, p: &mut Pat) -> (Vec<Stmt>, Vec<Ident>) {
        let mut w = Walk { u: self, lets: vec![], plain: vec![] };
        w.visit_pat_mut(p);
        (w.lets, w.plain)
    }
}
fn before(lets: Vec<Stmt>, b: &mut Block) { let s = std::mem::take(&mut b.stmts); b.stmts = lets.into_iter().chain(s).collect(); }
fn before_expr(lets: Vec<Stmt>, e: &mut Expr) {
    if lets.is_empty() { return; }
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => before(lets, &mut b.block),
        e => { let x = e.clone(); *e = parse_quote!({ #(#lets)* #x }); }
    }
}
impl VisitMut for U {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut after = vec![];
            if let Stmt::Local(l) = &mut s { after = self.pat(&mut l.pat).0; }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(c) => {
                let mut lets = vec![];
                for p in c.inputs.iter_mut() { lets.extend(self.pat(p).0); }
                before_expr(lets, &mut c.body);
            }
            Expr::ForLoop(f) => { let l = self.pat(&mut f.pat).0; before(l, &mut f.body); }
            Expr::If(i) => if let Expr::Let(l) = &mut *i.cond { let l = self.pat(&mut l.pat).0; before(l, &mut i.then_branch); }
            Expr::While(w) => if let Expr::Let(l) = &mut *w.cond { let l = self.pat(&mut l.pat).0; before(l, &mut w.body); }
            Expr::Match(m) => for a in m.arms.iter_mut() {
                let (l, n) = self.pat(&mut a.pat);
                if let Some((_, g)) = &mut a.guard { Sub(&n).visit_expr_mut(g); }
                before_expr(l, &mut a.body);
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
