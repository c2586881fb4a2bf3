//! What proto.pest says about the tree pest makes: for every rule that produces a pair, an over-approximation of its
//! children and, where no white space can be in between, of its text. Written as Verus specifications.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum G {
    Lit(Vec<char>),
    Range(char, char),
    Ref(String),
    Seq(Vec<G>),
    Alt(Vec<G>),
    Opt(Box<G>),
    Star(Box<G>),
    Plus(Box<G>),
    Ahead,
}

pub struct Grammar {
    /// name -> modifier, expression
    pub rules: BTreeMap<String, (char, G)>,
    pub order: Vec<String>,
}

struct P { c: Vec<char>, i: usize }
impl P {
    fn ws(&mut self) {
        loop {
            while self.i < self.c.len() && self.c[self.i].is_whitespace() { self.i += 1; }
            if self.c[self.i..].starts_with(&['/', '/']) { while self.i < self.c.len() && self.c[self.i] != '\n' { self.i += 1; } }
            else if self.c[self.i..].starts_with(&['/', '*']) { while !self.c[self.i..].starts_with(&['*', '/']) { self.i += 1; } self.i += 2; }
            else { return; }
        }
    }
    fn peek(&mut self) -> Option<char> { self.ws(); self.c.get(self.i).copied() }
    fn eat(&mut self, x: char) -> Result<(), String> { if self.peek() == Some(x) { self.i += 1; Ok(()) } else { Err(format!("{} expected at {}", x, self.i)) } }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let s = self.i;
        while self.i < self.c.len() && (self.c[self.i].is_alphanumeric() || self.c[self.i] == '_') { self.i += 1; }
        if self.i > s { Some(self.c[s..self.i].iter().collect()) } else { None }
    }
    fn quoted(&mut self, q: char) -> Result<Vec<char>, String> {
        self.eat(q)?;
        let mut v = vec![];
        loop {
            let x = *self.c.get(self.i).ok_or("end of text")?;
            self.i += 1;
            if x == q { return Ok(v); }
            if x != '\\' { v.push(x); continue; }
            let x = *self.c.get(self.i).ok_or("end of text")?;
            self.i += 1;
            v.push(match x {
                'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', '\\' => '\\', '"' => '"', '\'' => '\'',
                'u' => {
                    self.eat('{')?;
                    let h = self.ident().ok_or("escape")?;
                    self.eat('}')?;
                    char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).ok_or("escape")?
                }
                'x' => { let h: String = self.c[self.i..self.i + 2].iter().collect(); self.i += 2; char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).ok_or("escape")? }
                c => return Err(format!("escape {}", c)),
            });
        }
    }
    fn alt(&mut self) -> Result<G, String> {
        if self.peek() == Some('|') { self.i += 1; }
        let mut v = vec![self.seq()?];
        while self.peek() == Some('|') { self.i += 1; v.push(self.seq()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { G::Alt(v) })
    }
    fn seq(&mut self) -> Result<G, String> {
        let mut v = vec![self.term()?];
        while self.peek() == Some('~') { self.i += 1; v.push(self.term()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { G::Seq(v) })
    }
    fn term(&mut self) -> Result<G, String> {
        let p = self.peek().ok_or("end of text")?;
        if p == '!' || p == '&' { self.i += 1; self.term()?; return Ok(G::Ahead); }
        let mut g = match p {
            '(' => { self.i += 1; let g = self.alt()?; self.eat(')')?; g }
            '"' => G::Lit(self.quoted('"')?),
            '\'' => {
                let a = self.quoted('\'')?;
                self.eat('.')?; self.eat('.')?;
                self.ws();
                let b = self.quoted('\'')?;
                G::Range(a[0], b[0])
            }
            '^' => return Err("case-insensitive text".into()),
            _ => G::Ref(self.ident().ok_or(format!("unexpected {}", p))?),
        };
        loop {
            match self.peek() {
                Some('*') => { self.i += 1; g = G::Star(Box::new(g)) }
                Some('+') => { self.i += 1; g = G::Plus(Box::new(g)) }
                Some('?') => { self.i += 1; g = G::Opt(Box::new(g)) }
                Some('{') => {
                    self.i += 1;
                    let mut a = String::new();
                    while let Some(c) = self.peek() { self.i += 1; if c == '}' { break; } a.push(c); }
                    let (lo, hi) = match a.split_once(',') {
                        None => { let n: usize = a.trim().parse().map_err(|_| "count")?; (n, Some(n)) }
                        Some((l, h)) => (if l.trim().is_empty() { 0 } else { l.trim().parse().map_err(|_| "count")? }, if h.trim().is_empty() { None } else { Some(h.trim().parse::<usize>().map_err(|_| "count")?) }),
                    };
                    let mut v: Vec<G> = (0..lo).map(|_| g.clone()).collect();
                    match hi { None => v.push(G::Star(Box::new(g))), Some(h) => for _ in lo..h { v.push(G::Opt(Box::new(g.clone()))) } }
                    g = G::Seq(v);
                }
                _ => return Ok(g),
            }
        }
    }
}

pub fn parse(text: &str) -> Result<Grammar, String> {
    let mut p = P { c: text.chars().collect(), i: 0 };
    let mut g = Grammar { rules: BTreeMap::new(), order: vec![] };
    while p.peek().is_some() {
        let n = p.ident().ok_or(format!("a rule expected at {}", p.i))?;
        p.eat('=')?;
        let m = match p.peek() { Some(c) if "_@$!".contains(c) => { p.i += 1; c } _ => ' ' };
        p.eat('{')?;
        let e = p.alt()?;
        p.eat('}')?;
        g.order.push(n.clone());
        g.rules.insert(n, (m, e));
    }
    Ok(g)
}

const K: usize = 6;
/// Sequences over some alphabet: the lengths, and what can be at the first and last places.
#[derive(Clone, PartialEq)]
struct L<T: Ord + Clone> { min: usize, max: Option<usize>, all: BTreeSet<T>, f: Vec<BTreeSet<T>>, l: Vec<BTreeSet<T>>, /// at place K and after
    r: BTreeSet<T> }
impl<T: Ord + Clone> L<T> {
    fn empty() -> Self { L { min: 0, max: Some(0), all: BTreeSet::new(), f: vec![BTreeSet::new(); K], l: vec![BTreeSet::new(); K], r: BTreeSet::new() } }
    fn one(s: BTreeSet<T>) -> Self { let mut r = Self::empty(); r.min = 1; r.max = Some(1); r.all = s.clone(); r.f[0] = s.clone(); r.l[0] = s; r }
    fn seq(a: &Self, b: &Self) -> Self {
        let mut r = Self::empty();
        r.min = a.min + b.min;
        r.max = match (a.max, b.max) { (Some(x), Some(y)) => Some(x + y), _ => None };
        r.all = a.all.union(&b.all).cloned().collect();
        r.r = a.r.union(&b.r).cloned().collect();
        for j in K.saturating_sub(a.max.unwrap_or(K))..K { r.r.extend(b.f[j].iter().cloned()) }
        for i in 0..K {
            r.f[i] = a.f[i].clone();
            for n in a.min..=a.max.unwrap_or(i).min(i) { if n <= i { r.f[i].extend(b.f[i - n].iter().cloned()) } }
            r.l[i] = b.l[i].clone();
            for n in b.min..=b.max.unwrap_or(i).min(i) { if n <= i { r.l[i].extend(a.l[i - n].iter().cloned()) } }
        }
        r
    }
    fn alt(a: &Self, b: &Self) -> Self {
        let mut r = a.clone();
        r.min = a.min.min(b.min);
        r.max = match (a.max, b.max) { (Some(x), Some(y)) => Some(x.max(y)), _ => None };
        r.all.extend(b.all.iter().cloned());
        r.r.extend(b.r.iter().cloned());
        for i in 0..K { r.f[i].extend(b.f[i].iter().cloned()); r.l[i].extend(b.l[i].iter().cloned()); }
        r
    }
    fn star(a: &Self, at_least: usize) -> Self {
        let mut r = a.clone();
        if at_least == 0 { r.min = 0 }
        if a.max != Some(0) { r.max = None }
        r.r = a.all.clone();
        for i in 0..K {
            if !(i < a.min) { r.f[i] = a.all.clone(); r.l[i] = a.all.clone(); }
        }
        r
    }
}

impl Grammar {
    fn kids(&self, g: &G, depth: usize) -> Result<L<String>, String> {
        if depth > 40 { return Err("silent rules that go round".into()); }
        Ok(match g {
            G::Lit(_) | G::Range(..) | G::Ahead => L::empty(),
            G::Ref(n) => match self.rules.get(n) {
                Some(('_', e)) => self.kids(e, depth + 1)?,
                Some(_) => L::one([n.clone()].into_iter().collect()),
                None => match n.as_str() {
                    "EOI" => L::one(["EOI".to_string()].into_iter().collect()),
                    "SOI" | "ANY" | "NEWLINE" => L::empty(),
                    x if x.starts_with("ASCII_") => L::empty(),
                    x => return Err(format!("rule {}", x)),
                },
            },
            G::Seq(v) => { let mut r = L::empty(); for x in v { r = L::seq(&r, &self.kids(x, depth)?) } r }
            G::Alt(v) => { let mut r = self.kids(&v[0], depth)?; for x in &v[1..] { r = L::alt(&r, &self.kids(x, depth)?) } r }
            G::Opt(x) => L::alt(&L::empty(), &self.kids(x, depth)?),
            G::Star(x) => L::star(&self.kids(x, depth)?, 0),
            G::Plus(x) => L::star(&self.kids(x, depth)?, 1),
        })
    }
    /// The text, as ranges of characters at each place; `atomic` tells that nothing is skipped in between.
    fn chars(&self, g: &G, atomic: bool, depth: usize) -> Option<L<(u32, u32)>> {
        if depth > 40 { return None; }
        Some(match g {
            G::Ahead => L::empty(),
            G::Lit(v) => { let mut r = L::empty(); for c in v { r = L::seq(&r, &L::one([(*c as u32, *c as u32)].into_iter().collect())) } r }
            G::Range(a, b) => L::one([(*a as u32, *b as u32)].into_iter().collect()),
            G::Ref(n) => match self.rules.get(n) {
                Some((m, e)) => self.chars(e, match m { '@' | '$' => true, '!' => false, _ => atomic }, depth + 1)?,
                None => match n.as_str() { "SOI" | "EOI" => L::empty(), "ANY" => L::one([(0, 0x10ffff)].into_iter().collect()), _ => return None },
            },
            G::Seq(v) => {
                if !atomic && v.iter().filter(|x| !matches!(x, G::Ahead)).count() > 1 { return None; }
                let mut r = L::empty();
                for x in v { r = L::seq(&r, &self.chars(x, atomic, depth)?) }
                r
            }
            G::Alt(v) => { let mut r = self.chars(&v[0], atomic, depth)?; for x in &v[1..] { r = L::alt(&r, &self.chars(x, atomic, depth)?) } r }
            G::Opt(x) => L::alt(&L::empty(), &self.chars(x, atomic, depth)?),
            G::Star(x) | G::Plus(x) => { if !atomic { return None; } L::star(&self.chars(x, atomic, depth)?, matches!(g, G::Plus(_)) as usize) }
        })
    }
    /// Every text there is, when there are few.
    fn words(&self, g: &G, atomic: bool, depth: usize) -> Option<BTreeSet<String>> {
        if depth > 40 { return None; }
        let one = |s: String| Some([s].into_iter().collect::<BTreeSet<String>>());
        let r: BTreeSet<String> = match g {
            G::Ahead => one(String::new())?,
            G::Lit(v) => one(v.iter().collect())?,
            G::Range(a, b) => { if *b as u32 - *a as u32 > 8 { return None; } (*a..=*b).map(|c| c.to_string()).collect() }
            G::Ref(n) => { let (m, e) = self.rules.get(n)?; self.words(e, match m { '@' | '$' => true, '!' => false, _ => atomic }, depth + 1)? }
            G::Seq(v) => {
                if !atomic && v.iter().filter(|x| !matches!(x, G::Ahead)).count() > 1 { return None; }
                let mut r = one(String::new())?;
                for x in v { let w = self.words(x, atomic, depth)?; r = r.iter().flat_map(|a| w.iter().map(move |b| format!("{}{}", a, b))).collect(); if r.len() > 40 { return None; } }
                r
            }
            G::Alt(v) => { let mut r = BTreeSet::new(); for x in v { r.extend(self.words(x, atomic, depth)?) } r }
            G::Opt(x) => { let mut r = self.words(x, atomic, depth)?; r.insert(String::new()); r }
            _ => return None,
        };
        if r.len() > 40 { None } else { Some(r) }
    }
    fn re(&self, g: &G, atomic: bool, depth: usize) -> Option<String> {
        if depth > 40 { return None; }
        let fold = |v: Vec<String>, f: &str| { let mut it = v.into_iter().rev(); let mut r = it.next().unwrap(); for x in it { r = format!("{}({}, {})", f, x, r) } r };
        Some(match g {
            G::Ahead => "re_empty()".into(),
            G::Lit(v) => if v.is_empty() { "re_empty()".into() } else { fold(v.iter().map(|c| format!("re_range({}, {})", *c as u32, *c as u32)).collect(), "re_seq") },
            G::Range(a, b) => format!("re_range({}, {})", *a as u32, *b as u32),
            G::Ref(n) => match self.rules.get(n) { Some((m, e)) => self.re(e, match m { '@' | '$' => true, '!' => false, _ => atomic }, depth + 1)?, None => return None },
            G::Seq(v) => {
                let v: Vec<&G> = v.iter().filter(|x| !matches!(x, G::Ahead)).collect();
                if v.is_empty() { return Some("re_empty()".into()); }
                if !atomic && v.len() > 1 { return None; }
                let mut w = vec![];
                for x in v { w.push(self.re(x, atomic, depth)?) }
                fold(w, "re_seq")
            }
            G::Alt(v) => { let mut w = vec![]; for x in v { w.push(self.re(x, atomic, depth)?) } fold(w, "re_alt") }
            G::Opt(x) => format!("re_alt(re_empty(), {})", self.re(x, atomic, depth)?),
            G::Star(x) => { if !atomic { return None; } format!("re_star({})", self.re(x, atomic, depth)?) }
            G::Plus(x) => { if !atomic { return None; } let r = self.re(x, atomic, depth)?; format!("re_seq({}, re_star({}))", r, r) }
        })
    }

    /// The same facts as `emit` writes, in lines, for testing them against what pest does.
    pub fn facts(&self) -> Result<String, String> {
        let mut o = String::new();
        let names = |s: &BTreeSet<String>| s.iter().cloned().collect::<Vec<_>>().join(",");
        let chars = |s: &BTreeSet<(u32, u32)>| s.iter().map(|(a, b)| format!("{}-{}", a, b)).collect::<Vec<_>>().join(",");
        fn lines<T: Ord + Clone>(o: &mut String, p: &str, l: &L<T>, w: &dyn Fn(&BTreeSet<T>) -> String) {
            let _ = writeln!(o, "{}min {}", p, l.min);
            if let Some(x) = l.max { let _ = writeln!(o, "{}max {}", p, x); }
            for i in 0..K.min(l.max.unwrap_or(K)) { if l.f[i] != l.all || l.max.is_some() { let _ = writeln!(o, "{}f {} {}", p, i, w(&l.f[i])); } }
            for i in 0..K.min(l.max.unwrap_or(K)) { if l.l[i] != l.all { let _ = writeln!(o, "{}l {} {}", p, i, w(&l.l[i])); } }
            if l.max.is_none() { let _ = writeln!(o, "{}all {}", p, w(&l.all)); }
            if l.max.is_none() && l.r != l.all { let _ = writeln!(o, "{}r {} {}", p, K, w(&l.r)); }
        }
        for n in self.order.iter().filter(|n| self.rules[*n].0 != '_' && !["WHITESPACE", "COMMENT"].contains(&n.as_str())) {
            let (m, e) = &self.rules[n];
            let atomic = *m == '@' || *m == '$';
            let _ = writeln!(o, "rule {}", n);
            if *m == '@' { o.push_str("kmax 0\n") } else { lines(&mut o, "k", &self.kids(e, 0)?, &names) }
            if let Some(w) = self.words(e, atomic, 0) {
                let _ = writeln!(o, "words {}", w.iter().map(|x| x.chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(".")).collect::<Vec<_>>().join(","));
            } else if let Some(l) = self.chars(e, atomic, 0) {
                lines(&mut o, "t", &l, &chars);
                if n.as_str() == "floatLit" { let _ = writeln!(o, "re {}", self.re(e, atomic, 0).unwrap_or("re_star(re_range(0, 0x10ffff))".into())); }
            }
        }
        Ok(o)
    }

    /// Rust spells keywords differently, as pest_derive does.
    pub fn emit(&self) -> Result<String, String> {
        let mut o = String::new();
        let names: Vec<&String> = self.order.iter().filter(|n| self.rules[*n].0 != '_' && !["WHITESPACE", "COMMENT"].contains(&n.as_str())).collect();
        o.push_str("// ---- what the grammar says about the tree, from src/proto.pest\n");
        let _ = writeln!(o, "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum Rule {{ EOI, {} }}", names.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(", "));
        o.push_str("impl VxEq<Rule> for Rule { open spec fn eqv(&self, o: &Rule) -> bool { *self == *o } fn vx_eq(&self, o: &Rule) -> (b: bool) { *self == *o } }\n");
        o.push_str("pub struct Tree { pub rule: Rule, pub text: Seq<char>, pub kids: Seq<Tree> }\n");
        let set = |e: &str, s: &BTreeSet<String>| if s.is_empty() { "false".to_string() } else { s.iter().map(|n| format!("{}.rule == Rule::{}", e, n)).collect::<Vec<_>>().join(" || ") };
        let re = self.rules.get("floatLit").and_then(|(m, e)| self.re(e, *m == '@' || *m == '$', 0)).unwrap_or("re_star(re_range(0, 0x10ffff))".into());
        let _ = writeln!(o, "pub open spec fn re_floatLit() -> Re {{\n    {}\n}}", re);
        for n in &names {
            let (m, e) = &self.rules[*n];
            let atomic = *m == '@' || *m == '$';
            let _ = writeln!(o, "pub open spec fn kids_{}(k: Seq<Tree>) -> bool {{", n);
            if *m == '@' { o.push_str("    k.len() == 0\n}\n"); } else {
                let l = self.kids(e, 0)?;
                let _ = writeln!(o, "    &&& k.len() >= {}", l.min);
                if let Some(x) = l.max { let _ = writeln!(o, "    &&& k.len() <= {}", x); }
                for i in 0..K.min(l.max.unwrap_or(K)) { if l.f[i] != l.all || l.max.is_some() { let _ = writeln!(o, "    &&& k.len() > {} ==> ({})", i, set(&format!("k[{}]", i), &l.f[i])); } }
                for i in 0..K.min(l.max.unwrap_or(K)) { if l.l[i] != l.all { let _ = writeln!(o, "    &&& k.len() > {} ==> ({})", i, set(&format!("k[k.len() - {}]", i + 1), &l.l[i])); } }
                if l.max.is_none() { let _ = writeln!(o, "    &&& forall|i: int| 0 <= i < k.len() ==> ({})", set("(#[trigger] k[i])", &l.all)); }
                if l.max.is_none() && l.r != l.all { let _ = writeln!(o, "    &&& forall|i: int| {} <= i < k.len() ==> ({})", K, set("(#[trigger] k[i])", &l.r)); }
                o.push_str("}\n");
            }
            let _ = writeln!(o, "pub open spec fn text_{}(s: Seq<char>) -> bool {{", n);
            if let Some(w) = self.words(e, atomic, 0) {
                let _ = writeln!(o, "    {}", w.iter().map(|x| format!("s == {:?}@", x)).collect::<Vec<_>>().join(" || "));
            } else if let Some(l) = self.chars(e, atomic, 0) {
                let cs = |e: &str, s: &BTreeSet<(u32, u32)>| if s.is_empty() { "false".to_string() } else { s.iter().map(|(a, b)| if *b >= 0x10ffff { format!("{} as u32 >= {}", e, a) } else { format!("{} <= {} as u32 <= {}", a, e, b) }).collect::<Vec<_>>().join(" || ") };
                let _ = writeln!(o, "    &&& s.len() >= {}", l.min);
                if let Some(x) = l.max { let _ = writeln!(o, "    &&& s.len() <= {}", x); }
                for i in 0..K.min(l.max.unwrap_or(K)) { if l.f[i] != l.all || l.max.is_some() { let _ = writeln!(o, "    &&& s.len() > {} ==> ({})", i, cs(&format!("s[{}]", i), &l.f[i])); } }
                for i in 0..K.min(l.max.unwrap_or(K)) { if l.l[i] != l.all { let _ = writeln!(o, "    &&& s.len() > {} ==> ({})", i, cs(&format!("s[s.len() - {}]", i + 1), &l.l[i])); } }
                if l.max.is_none() { let _ = writeln!(o, "    &&& forall|i: int| 0 <= i < s.len() ==> ({})", cs("(#[trigger] s[i])", &l.all)); }
                if l.max.is_none() && l.r != l.all { let _ = writeln!(o, "    &&& forall|i: int| {} <= i < s.len() ==> ({})", K, cs("(#[trigger] s[i])", &l.r)); }
                if n.as_str() == "floatLit" { o.push_str("    &&& re_is(re_floatLit(), s)\n"); }
            } else { o.push_str("    true\n"); }
            o.push_str("}\n");
        }
        o.push_str("pub open spec fn shape(t: Tree) -> bool {\n    match t.rule {\n        Rule::EOI => t.kids.len() == 0,\n");
        for n in &names { let _ = writeln!(o, "        Rule::{n} => kids_{n}(t.kids) && text_{n}(t.text),", n = n); }
        o.push_str("    }\n}\n/// A tree the parser can have made.\npub open spec fn ok(t: Tree) -> bool\n    decreases t,\n{\n    shape(t) && forall|i: int| 0 <= i < t.kids.len() ==> ok(#[trigger] t.kids[i])\n}\n");
        Ok(o)
    }
}
