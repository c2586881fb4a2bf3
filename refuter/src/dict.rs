//! Numbers and texts that a function of the crate has and the committed list (contracts/literals.txt) does not:
//! an edit that makes the code special at some number or name is tried there. Empty on the unchanged tree.
use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict { pub ints: Vec<u64>, pub texts: Vec<Vec<u8>> }
static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict { DICT.get_or_init(Dict::default) }

/// Lines `i NUMBER` and `s HEX`.
pub fn load(path: &str) {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(n) = l.strip_prefix("i ").and_then(|n| n.parse::<u64>().ok()) {
            for x in [n, n.wrapping_add(1), n.wrapping_sub(1), n.wrapping_neg(), !n, n.wrapping_mul(8)] { d.ints.push(x); }
            if n < 64 { for x in [1u64 << n, (1u64 << n) - 1, (1u64 << n) + 1] { d.ints.push(x); } }
        }
        if let Some(h) = l.strip_prefix("s ") {
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            if !b.is_empty() && b.len() <= 64 { d.texts.push(b); }
        }
    }
    let mut seen = std::collections::HashSet::new();
    d.ints.retain(|x| seen.insert(*x));
    d.ints.truncate(400);
    d.texts.truncate(200);
    let _ = DICT.set(d);
}

pub fn int(r: &mut Rng) -> Option<u64> {
    let d = get();
    if d.ints.is_empty() || !r.chance(1, 4) { return None; }
    Some(*r.pick(&d.ints))
}
/// A number of things, below the limit.
pub fn size(r: &mut Rng, num: usize, den: usize, max: u64) -> Option<usize> {
    let d = get();
    if d.ints.is_empty() || !r.chance(num, den) { return None; }
    let x = *r.pick(&d.ints);
    if x <= max { Some(x as usize) } else { None }
}
pub fn sizes(min: u64, max: u64) -> Vec<usize> {
    let mut v: Vec<usize> = get().ints.iter().filter(|x| **x >= min && **x <= max).map(|x| *x as usize).collect();
    v.sort();
    v.truncate(12);
    v
}
pub fn text(r: &mut Rng) -> Option<&'static [u8]> {
    let d = get();
    if d.texts.is_empty() || !r.chance(1, 4) { return None; }
    Some(r.pick(&d.texts))
}
pub fn utf8(r: &mut Rng) -> Option<&'static str> { text(r).and_then(|t| std::str::from_utf8(t).ok()) }
/// A text of the list that can be a name.
pub fn ident(r: &mut Rng) -> Option<String> {
    let t = utf8(r)?;
    let t = t.trim_matches(|c: char| !(c.is_ascii_alphanumeric() || c == '_'));
    let ok = t.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    if ok && !["true", "false", "inf", "nan"].contains(&t) { Some(t.to_string()) } else { None }
}
