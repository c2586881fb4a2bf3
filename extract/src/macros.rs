//! A small engine for function-local `macro_rules!` without repetitions.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone)]
pub struct LocalMacro {
    arms: Vec<(TokenStream, TokenStream)>,
}

impl LocalMacro {
    pub fn parse(body: TokenStream) -> Result<LocalMacro, String> {
        let mut arms = vec![];
        let mut it = body.into_iter().peekable();
        while it.peek().is_some() {
            let matcher = match it.next() {
                Some(TokenTree::Group(g)) => g.stream(),
                _ => return Err("macro_rules: matcher".into()),
            };
            for want in ['=', '>'] {
                match it.next() {
                    Some(TokenTree::Punct(p)) if p.as_char() == want => {}
                    _ => return Err("macro_rules: =>".into()),
                }
            }
            let body = match it.next() {
                Some(TokenTree::Group(g)) => g.stream(),
                _ => return Err("macro_rules: body".into()),
            };
            if let Some(TokenTree::Punct(p)) = it.peek() {
                if p.as_char() == ';' {
                    it.next();
                }
            }
            arms.push((matcher, body));
        }
        Ok(LocalMacro { arms })
    }

    pub fn expand(&self, input: TokenStream) -> Result<TokenStream, String> {
        for (m, b) in &self.arms {
            if let Ok(binds) = match_tokens(m.clone(), input.clone()) {
                return subst(b.clone(), &binds);
            }
        }
        Err("no arm of the local macro matches".into())
    }
}

type Binds = HashMap<String, TokenStream>;

fn match_tokens(m: TokenStream, input: TokenStream) -> Result<Binds, String> {
    let mut binds = Binds::new();
    let mut rest = input;
    let mut it = m.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '$' {
                let name = match it.next() {
                    Some(TokenTree::Ident(i)) => i.to_string(),
                    _ => return Err("repetition".into()),
                };
                it.next(); // :
                let frag = match it.next() {
                    Some(TokenTree::Ident(i)) => i.to_string(),
                    _ => return Err("fragment".into()),
                };
                let (got, r) = take_frag(&frag, rest)?;
                rest = r;
                binds.insert(name, got);
                continue;
            }
        }
        let mut ri = rest.into_iter();
        let got = ri.next().ok_or("input ends")?;
        rest = ri.collect();
        match (&t, &got) {
            (TokenTree::Group(a), TokenTree::Group(b)) if a.delimiter() == b.delimiter() => {
                binds.extend(match_tokens(a.stream(), b.stream())?);
            }
            (a, b) if a.to_string() == b.to_string() => {}
            _ => return Err("mismatch".into()),
        }
    }
    if !rest.is_empty() {
        return Err("left over".into());
    }
    Ok(binds)
}

fn take_frag(frag: &str, input: TokenStream) -> Result<(TokenStream, TokenStream), String> {
    use quote::ToTokens;
    let p = |s: ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
        let got = match frag {
            "ident" => s.parse::<proc_macro2::Ident>()?.into_token_stream(),
            "expr" => {
                // Kept together, as the compiler does.
                let e: syn::Expr = s.parse()?;
                match e {
                    syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Closure(_) | syn::Expr::Block(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_) => e.into_token_stream(),
                    e => TokenTree::Group(Group::new(Delimiter::Parenthesis, e.into_token_stream())).into(),
                }
            }
            "ty" => s.parse::<syn::Type>()?.into_token_stream(),
            "path" => s.parse::<syn::Path>()?.into_token_stream(),
            "literal" => s.parse::<syn::Lit>()?.into_token_stream(),
            "pat" => syn::Pat::parse_multi(s)?.into_token_stream(),
            "block" => s.parse::<syn::Block>()?.into_token_stream(),
            "tt" => s.parse::<TokenTree>()?.into_token_stream(),
            _ => return Err(s.error("fragment")),
        };
        Ok((got, s.parse::<TokenStream>()?))
    };
    p.parse2(input).map_err(|e| e.to_string())
}

fn subst(b: TokenStream, binds: &Binds) -> Result<TokenStream, String> {
    let mut out = vec![];
    let mut it = b.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => match it.next() {
                Some(TokenTree::Ident(i)) => out.extend(binds.get(&i.to_string()).ok_or("unbound macro variable")?.clone()),
                _ => return Err("repetition in a local macro".into()),
            },
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), binds)?))),
            t => out.push(t),
        }
    }
    Ok(out.into_iter().collect())
}
