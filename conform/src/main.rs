//! Tests the contracts that the proofs assume about std, the bytes crate and pest against the real things.
//! usage: conform --facts FILE [--seed N] [--n N]; prints "conform: N evaluations of M assumed contracts" or what fails.
#[allow(dead_code)]
#[path = "../../refuter/src/dict.rs"]
mod dict;
#[allow(dead_code)]
#[path = "../../refuter/src/rng.rs"]
mod rng;
#[allow(dead_code)]
#[path = "../../refuter/src/src.rs"]
mod src;
mod std_contracts;

use pest::iterators::Pair;
use pest::Parser;
use rng::Rng;
use std::collections::BTreeMap;

#[derive(pest_derive::Parser)]
#[grammar = "../../../repo/src/proto.pest"]
struct Proto;

#[derive(Default)]
struct Seqs<T> { min: usize, max: Option<usize>, f: Vec<(usize, Vec<T>)>, l: Vec<(usize, Vec<T>)>, all: Option<Vec<T>>, rest: Option<(usize, Vec<T>)> }
impl<T> Seqs<T> {
    fn check<X>(&self, v: &[X], is: &dyn Fn(&X, &T) -> bool) -> Result<(), String> {
        let n = v.len();
        let among = |x: &X, s: &[T]| s.iter().any(|t| is(x, t));
        if n < self.min { return Err(format!("{} of at least {}", n, self.min)); }
        if self.max.map_or(false, |m| n > m) { return Err(format!("{} of at most {:?}", n, self.max)); }
        for (i, s) in &self.f { if n > *i && !among(&v[*i], s) { return Err(format!("place {}", i)); } }
        for (i, s) in &self.l { if n > *i && !among(&v[n - 1 - *i], s) { return Err(format!("place {} from the end", i)); } }
        if let Some(s) = &self.all { for (i, x) in v.iter().enumerate() { if !among(x, s) { return Err(format!("place {} of all", i)); } } }
        if let Some((k, s)) = &self.rest { for (i, x) in v.iter().enumerate().skip(*k) { if !among(x, s) { return Err(format!("place {} of the rest", i)); } } }
        Ok(())
    }
}
#[derive(Default)]
struct Rul { kids: Seqs<String>, text: Option<Seqs<(u32, u32)>>, words: Option<Vec<String>>, re: Option<Re> }

// the regular expression of a rule, as the specifications write it
enum Re { Empty, Range(u32, u32), Seq(Box<Re>, Box<Re>), Alt(Box<Re>, Box<Re>), Star(Box<Re>) }
fn re(s: &[u8], i: &mut usize) -> Re {
    let st = *i;
    while s[*i].is_ascii_alphabetic() || s[*i] == b'_' { *i += 1 }
    let name = std::str::from_utf8(&s[st..*i]).unwrap().to_string();
    let skip = |i: &mut usize| while *i < s.len() && b"(, )".contains(&s[*i]) { *i += 1 };
    let num = |i: &mut usize| { let a = *i; while s[*i].is_ascii_digit() { *i += 1 } std::str::from_utf8(&s[a..*i]).unwrap().parse::<u32>().unwrap() };
    let r = match name.as_str() {
        "re_empty" => Re::Empty,
        "re_range" => { skip(i); let a = num(i); skip(i); let b = num(i); Re::Range(a, b) }
        "re_star" => { skip(i); Re::Star(Box::new(re(s, i))) }
        n => { skip(i); let a = Box::new(re(s, i)); skip(i); let b = Box::new(re(s, i)); if n == "re_seq" { Re::Seq(a, b) } else { Re::Alt(a, b) } }
    };
    skip(i);
    r
}
/// The lengths of the prefixes of `s` from `at` that the expression describes.
fn ends(r: &Re, s: &[char], at: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = match r {
        Re::Empty => at.to_vec(),
        Re::Range(a, b) => at.iter().filter(|i| **i < s.len() && (*a..=*b).contains(&(s[**i] as u32))).map(|i| i + 1).collect(),
        Re::Seq(x, y) => ends(y, s, &ends(x, s, at)),
        Re::Alt(x, y) => { let mut v = ends(x, s, at); v.extend(ends(y, s, at)); v }
        Re::Star(x) => { let mut v = at.to_vec(); loop { let mut w = v.clone(); w.extend(ends(x, s, &v)); w.sort(); w.dedup(); if w == v { break v; } v = w; } }
    };
    v.sort();
    v.dedup();
    v
}

fn facts(t: &str) -> BTreeMap<String, Rul> {
    let mut m: BTreeMap<String, Rul> = BTreeMap::new();
    let mut cur = String::new();
    fn put<T>(s: &mut Seqs<T>, k: &str, a: &str, p: &dyn Fn(&str) -> Vec<T>) {
        let two = || { let (i, x) = a.split_once(' ').unwrap_or((a, "")); (i.parse::<usize>().unwrap(), p(x)) };
        match k { "min" => s.min = a.parse().unwrap(), "max" => s.max = Some(a.parse().unwrap()), "f" => s.f.push(two()), "l" => s.l.push(two()), "all" => s.all = Some(p(a)), "r" => s.rest = Some(two()), _ => panic!("{}", k) }
    }
    let names = |x: &str| x.split(',').filter(|y| !y.is_empty()).map(String::from).collect::<Vec<_>>();
    let chars = |x: &str| x.split(',').filter(|y| !y.is_empty()).map(|y| { let (a, b) = y.split_once('-').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect::<Vec<(u32, u32)>>();
    for l in t.lines() {
        let (k, a) = l.split_once(' ').unwrap_or((l, ""));
        if k == "rule" { cur = a.into(); m.insert(cur.clone(), Rul::default()); continue; }
        let r = m.get_mut(&cur).unwrap();
        match k {
            "words" => r.words = Some(a.split(',').map(|w| w.split('.').filter(|c| !c.is_empty()).map(|c| char::from_u32(c.parse().unwrap()).unwrap()).collect()).collect()),
            "re" => r.re = Some(re(a.as_bytes(), &mut 0)),
            k if k.starts_with('k') => put(&mut r.kids, &k[1..], a, &names),
            k => put(r.text.get_or_insert_with(Default::default), &k[1..], a, &chars),
        }
    }
    m
}

fn check(m: &BTreeMap<String, Rul>, p: Pair<Rule>, n: &mut u64) -> Result<(), String> {
    *n += 1;
    let name = format!("{:?}", p.as_rule());
    let kids: Vec<Pair<Rule>> = p.clone().into_inner().collect();
    if name == "EOI" { return if kids.is_empty() { Ok(()) } else { Err("EOI with children".into()) }; }
    let r = m.get(&name).or_else(|| m.get(name.trim_end_matches('_'))).or_else(|| m.get(name.trim_start_matches("r#"))).ok_or(format!("no facts about {}", name))?;
    let who = |e: String| format!("rule {}: {} in {:?}", name, e, p.as_str());
    let ks: Vec<String> = kids.iter().map(|k| format!("{:?}", k.as_rule()).trim_start_matches("r#").to_string()).collect();
    r.kids.check(&ks, &|x, t| x == t).map_err(|e| who(format!("children {:?}: {}", ks, e)))?;
    let cs: Vec<char> = p.as_str().chars().collect();
    if let Some(w) = &r.words { if !w.iter().any(|x| x == p.as_str()) { return Err(who("not one of its words".into())); } }
    if let Some(t) = &r.text { t.check(&cs, &|x, (a, b)| (*a..=*b).contains(&(*x as u32))).map_err(|e| who(format!("text: {}", e)))?; }
    if let Some(e) = &r.re { if !ends(e, &cs, &[0]).contains(&cs.len()) { return Err(who("not of its regular expression".into())); } }
    for k in kids { check(m, k, n)?; }
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let n: u64 = get("--n").and_then(|x| x.parse().ok()).unwrap_or(20_000);
    let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut fails: Vec<String> = vec![];
    let (evals, count) = std_contracts::all(seed, n, &mut fails);
    let m = facts(&std::fs::read_to_string(get("--facts").expect("--facts FILE")).expect("the facts"));
    let mut r = Rng::new(seed, 77);
    let (mut nodes, mut trees) = (0, 0);
    'outer: for i in 0..n {
        let c = src::Cfg { conflicts: r.chance(1, 3), options: true, services: true, dangling: true, miskind: true, dup_members: true, max_files: 1 };
        for f in src::gen_files(&mut r, &c) {
            let mut toks = src::tokens(&f);
            if i % 3 == 1 { let k = r.below(toks.len()); toks.remove(k); }
            if i % 3 == 2 { let k = r.below(toks.len()); let t = toks[r.below(toks.len())].clone(); toks[k] = t; }
            let t = src::layout(&mut r, &toks, i % 4 == 0);
            if let Ok(ps) = Proto::parse(Rule::proto, &t) {
                let v: Vec<_> = ps.collect();
                trees += 1;
                if v.len() != 1 || format!("{:?}", v[0].as_rule()) != "proto" { fails.push("a parse does not give one tree of rule proto".into()); break 'outer; }
                for p in v { if let Err(e) = check(&m, p, &mut nodes) { fails.push(format!("what the grammar says about the tree: {}", e)); break 'outer; } }
            }
        }
    }
    for f in &fails { println!("conform: FAILS {}", f); }
    println!("conform: {} evaluations of {} assumed contracts; {} nodes of {} parse trees fit the {} rules", evals, count, nodes, trees, m.len());
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
