//! The assumed contracts on std and bytes, each evaluated on the real function. A name here is that of the stand-in in
//! contracts/shim.rs or contracts/parse.rs.
use crate::rng::Rng;
use bytes::{BufMut, Bytes, BytesMut};
use std::collections::{BTreeMap, HashMap};
use std::convert::{TryFrom, TryInto};

struct T<'a> { evals: u64, names: Vec<&'static str>, fails: &'a mut Vec<String> }
impl<'a> T<'a> {
    fn is(&mut self, name: &'static str, ok: bool, what: &dyn Fn() -> String) {
        self.evals += 1;
        if !self.names.contains(&name) { self.names.push(name); }
        if !ok && !self.fails.iter().any(|f| f.starts_with(name)) { self.fails.push(format!("{}: {}", name, what())); }
    }
}

fn text(r: &mut Rng) -> String {
    let n = r.below(9);
    (0..n).map(|_| *r.pick(&['a', 'b', '.', '.', 'é', '€', '𝄞', '0', '\u{0}', '\u{feff}', ' ', 'Z', '\u{10ffff}'])).collect()
}
fn edge(r: &mut Rng) -> u64 {
    match r.below(5) { 0 => r.below(5) as u64, 1 => (1u64 << r.below(64)).wrapping_sub(r.below(3) as u64), 2 => u64::MAX - r.below(3) as u64, 3 => (1u64 << 63).wrapping_add(r.below(3) as u64).wrapping_sub(1), _ => r.next() }
}

macro_rules! ints { ($t:expr, $r:expr; $($s:ty)*) => { $( ints!(@ $t, $r, $s; u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128); )* };
    (@ $t:expr, $r:expr, $s:ty; $($d:ty)*) => { $( {
        let v = edge($r) as $s;
        let c: Result<$d, _> = <$d>::try_from(v);
        let fits = v as i128 >= <$d>::MIN as i128 && v as i128 <= <$d>::MAX as i128;
        $t.is("vx_try_from", c.is_ok() == fits && c.map_or(true, |c| c as i128 == v as i128), &|| format!("{} to {}", v, stringify!($d)));
        let c: Result<$d, _> = v.try_into();
        $t.is("vx_try_into of integers", c.is_ok() == fits && c.map_or(true, |c| c as i128 == v as i128), &|| format!("{} to {}", v, stringify!($d)));
    } )* };
}
macro_rules! from { ($t:expr, $r:expr; $($s:ty => $d:ty),*) => { $( { let v = edge($r) as $s; $t.is("vx_from", <$d>::from(v) as i128 == v as i128, &|| format!("{} to {}", v, stringify!($d))); } )* } }

fn le_val(b: &[u8]) -> u128 { if b.is_empty() { 0 } else { b[0] as u128 + 256 * le_val(&b[1..]) } }
fn le_bytes(v: u128, n: usize) -> Vec<u8> { if n == 0 { vec![] } else { let mut r = vec![(v % 256) as u8]; r.extend(le_bytes(v / 256, n - 1)); r } }
fn joined(s: &[String], sep: &str) -> String { if s.is_empty() { String::new() } else if s.len() == 1 { s[0].clone() } else { joined(&s[..s.len() - 1], sep) + sep + s.last().unwrap() } }
fn take(s: &str, k: usize) -> String { s.chars().take(k).collect() }
fn skip(s: &str, k: usize) -> String { s.chars().skip(k).collect() }
fn dig(c: char) -> u32 { match c { '0'..='9' => c as u32 - 48, 'a'..='f' => c as u32 - 87, 'A'..='F' => c as u32 - 55, _ => 99 } }

// as in contracts/parse.rs
fn letter(c: u32, l: u32) -> bool { c == l || c == l - 32 }
fn digit(c: u32) -> bool { (48..=57).contains(&c) }
fn float_step(q: i32, c: u32) -> i32 {
    if q == 0 && (c == 43 || c == 45) { 1 }
    else if q <= 1 && digit(c) { 2 }
    else if q <= 1 && c == 46 { 4 }
    else if q <= 1 && letter(c, 105) { 9 }
    else if q <= 1 && letter(c, 110) { 17 }
    else if q == 2 && digit(c) { 2 }
    else if q == 2 && c == 46 { 3 }
    else if (q == 3 || q == 4 || q == 5) && digit(c) { 5 }
    else if (q == 2 || q == 3 || q == 5) && letter(c, 101) { 6 }
    else if q == 6 && (c == 43 || c == 45) { 7 }
    else if (q == 6 || q == 7 || q == 8) && digit(c) { 8 }
    else if q == 9 && letter(c, 110) { 10 }
    else if q == 10 && letter(c, 102) { 11 }
    else if q == 11 && letter(c, 105) { 12 }
    else if q == 12 && letter(c, 110) { 13 }
    else if q == 13 && letter(c, 105) { 14 }
    else if q == 14 && letter(c, 116) { 15 }
    else if q == 15 && letter(c, 121) { 16 }
    else if q == 17 && letter(c, 97) { 18 }
    else if q == 18 && letter(c, 110) { 19 }
    else { 20 }
}

macro_rules! radix { ($t:expr, $s:expr, $radix:expr, $($d:ty, $name:expr);*) => { $( {
    let s: &str = $s;
    if !s.is_empty() && s.chars().all(|c| dig(c) < $radix) {
        let v = s.chars().fold(0u128, |a, c| a * $radix as u128 + dig(c) as u128);
        let has = v <= <$d>::MAX as u128;
        let r = <$d>::from_str_radix(s, $radix);
        $t.is($name, match &r { Ok(x) => *x as u128 == v, Err(_) => !has }, &|| format!("{:?} radix {}", s, $radix));
        if $radix == 10 { let r = s.parse::<$d>(); $t.is("vx_parse of integers", match &r { Ok(x) => *x as u128 == v, Err(_) => !has }, &|| format!("{:?}", s)); }
    }
} )* } }

fn maps(t: &mut T, r: &mut Rng) {
    let mut b: BTreeMap<String, u32> = BTreeMap::new();
    let mut h: HashMap<String, u32> = HashMap::new();
    let mut n: BTreeMap<i64, u32> = Default::default();
    let mut m: Vec<(String, u32)> = vec![];
    let mut mn: Vec<(i64, u32)> = vec![];
    t.is("BTreeMap::new", b.is_empty() && n.is_empty() && h.is_empty(), &|| "not empty".into());
    for _ in 0..r.below(12) {
        let k = text(r);
        let k = if m.is_empty() || r.chance(2, 3) { k } else { m[r.below(m.len())].0.clone() };
        let v = r.next() as u32;
        let old = m.iter().find(|x| x.0 == k).map(|x| x.1);
        t.is("BTreeMap::contains_key", b.contains_key(&k) == old.is_some() && h.contains_key(&k) == old.is_some(), &|| k.clone());
        t.is("BTreeMap::get", b.get(k.as_str()).copied() == old && h.get(k.as_str()).copied() == old, &|| k.clone());
        match r.below(3) {
            0 => {
                t.is("BTreeMap::insert", b.insert(k.clone(), v) == old && h.insert(k.clone(), v) == old, &|| k.clone());
                match m.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v, None => m.push((k.clone(), v)) }
            }
            1 => {
                use std::collections::{btree_map::Entry as B, hash_map::Entry as H};
                let x = match b.entry(k.clone()) { B::Occupied(o) => old == Some(*o.get()) && *o.key() == k, B::Vacant(x) => { let y = *x.key() == k; x.insert(v); y && old.is_none() } };
                let y = match h.entry(k.clone()) { H::Occupied(o) => old == Some(*o.get()) && *o.key() == k, H::Vacant(x) => { let y = *x.key() == k; x.insert(v); y && old.is_none() } };
                t.is("BTreeMap::entry", x && y, &|| k.clone());
                if old.is_none() { m.push((k.clone(), v)); }
            }
            _ => {
                let x = match b.get_mut(k.as_str()) { Some(p) => { let y = Some(*p) == old; *p = v; y } None => old.is_none() };
                let y = match h.get_mut(k.as_str()) { Some(p) => { let y = Some(*p) == old; *p = v; y } None => old.is_none() };
                t.is("BTreeMap::get_mut", x && y, &|| k.clone());
                if let Some(e) = m.iter_mut().find(|x| x.0 == k) { e.1 = v; }
            }
        }
        let kn = r.below(6) as i64 - 3;
        n.insert(kn, v);
        match mn.iter_mut().find(|x| x.0 == kn) { Some(x) => x.1 = v, None => mn.push((kn, v)) }
    }
    // every entry once, in an order of the keys that is strict
    let e: Vec<(&String, &u32)> = b.iter().collect();
    t.is("BTreeMap::vx_iter", e.len() == m.len() && m.iter().all(|(k, v)| e.iter().any(|x| x.0 == k && x.1 == v)) && e.windows(2).all(|w| w[0].0 < w[1].0), &|| format!("{:?}", m));
    let ks: Vec<&String> = b.keys().collect();
    let vs: Vec<&u32> = b.values().collect();
    t.is("BTreeMap::vx_values", vs.len() == e.len() && e.iter().zip(&vs).all(|(a, b)| a.1 == *b) && ks.iter().zip(&e).all(|(a, b)| *a == b.0), &|| format!("{:?}", m));
    mn.sort();
    t.is("BTreeMap::vx_values of numbers", n.values().copied().collect::<Vec<_>>() == mn.iter().map(|x| x.1).collect::<Vec<_>>(), &|| format!("{:?}", mn));
    let c: BTreeMap<String, u32> = m.iter().cloned().chain(m.iter().take(1).map(|x| (x.0.clone(), 7))).collect();
    t.is("VxCollect for maps", m.iter().enumerate().all(|(i, (k, v))| c[k] == if i == 0 { 7 } else { *v }) && c.len() == m.len(), &|| format!("{:?}", m));
}

pub fn all(seed: u64, n: u64, fails: &mut Vec<String>) -> (u64, usize) {
    let mut r = Rng::new(seed, 99);
    let r = &mut r;
    let mut t = T { evals: 0, names: vec![], fails };
    let t = &mut t;
    for _ in 0..n {
        ints!(t, r; u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
        from!(t, r; u8 => u64, u8 => u32, u32 => u64, i32 => i64, u8 => i64, u32 => i64);
        let u = edge(r);
        t.is("vx_transmute", unsafe { std::mem::transmute::<u64, i64>(u) } as i128 == if u >> 63 == 1 { u as i128 - (1 << 64) } else { u as i128 } && unsafe { std::mem::transmute::<i64, u64>(u as i64) } == u, &|| u.to_string());
        let b8 = u.to_le_bytes();
        let v32 = u as u32;
        let b4 = v32.to_le_bytes();
        t.is("vx_to_le_bytes", b8.to_vec() == le_bytes(u as u128, 8) && b4.to_vec() == le_bytes(v32 as u128, 4)
            && (u as i64).to_le_bytes().to_vec() == le_bytes((u as i64 as i128 as u128) & 0xffff_ffff_ffff_ffff, 8) && (v32 as i32).to_le_bytes().to_vec() == le_bytes(v32 as u128, 4)
            && f32::from_bits(v32).to_le_bytes().to_vec() == le_bytes(v32 as u128, 4) && f64::from_bits(u).to_le_bytes().to_vec() == le_bytes(u as u128, 8), &|| u.to_string());
        t.is("vx_from_le_bytes", u64::from_le_bytes(b8) as u128 == le_val(&b8) && u32::from_le_bytes(b4) as u128 == le_val(&b4) && i64::from_le_bytes(b8) == u as i64 && i32::from_le_bytes(b4) == v32 as i32
            && f32::from_le_bytes(b4).to_bits() as u128 == le_val(&b4) && f64::from_le_bytes(b8).to_bits() as u128 == le_val(&b8), &|| u.to_string());
        let raw: Vec<u8> = (0..r.below(12)).map(|_| r.next() as u8).collect();
        let k8: Result<[u8; 8], _> = (&raw[..]).try_into();
        let k4: Result<[u8; 4], _> = (&raw[..]).try_into();
        t.is("vx_try_into of slices", k8.is_ok() == (raw.len() == 8) && k8.map_or(true, |x| x[..] == raw[..]) && k4.is_ok() == (raw.len() == 4) && k4.map_or(true, |x| x[..] == raw[..]), &|| format!("{:?}", raw));

        // bytes
        let more: Vec<u8> = (0..r.below(5)).map(|_| r.next() as u8).collect();
        let both = [&raw[..], &more[..]].concat();
        let mut m = BytesMut::from(&raw[..]);
        let same = m[..] == raw[..] && BytesMut::new().is_empty() && BytesMut::with_capacity(raw.len()).is_empty() && Bytes::new().is_empty() && Bytes::copy_from_slice(&raw)[..] == raw[..];
        m.extend_from_slice(&more);
        let e = m[..] == both[..];
        let mut p = BytesMut::with_capacity(2);
        p.put_slice(&raw);
        p.put(&more[..]);
        p.put_u8(7);
        let f = p.clone().freeze();
        t.is("Bytes and BytesMut", same && e && p[..p.len() - 1] == both[..] && p[p.len() - 1] == 7 && f[..] == p[..] && f.len() == both.len() + 1 && AsRef::<[u8]>::as_ref(&f) == &p[..], &|| format!("{:?}", both));
        let fl: Bytes = vec![BytesMut::from(&raw[..]), BytesMut::from(&more[..])].into_iter().flatten().collect();
        let flm: BytesMut = vec![raw.clone(), more.clone()].iter().flat_map(|x| BytesMut::from(&x[..])).collect();
        t.is("VxFlat", fl[..] == both[..] && flm[..] == both[..], &|| format!("{:?}", both));

        // text
        let s = text(r);
        let o = text(r);
        let c = *r.pick(&['.', 'a', 'é', '𝄞', '/']);
        t.is("axiom_lossy", String::from_utf8_lossy(s.as_bytes()) == s, &|| s.clone());
        let bytes: usize = s.chars().map(|c| c.len_utf8()).sum();
        t.is("vx_str_len", s.len() == bytes && s.as_bytes().len() == bytes && AsRef::<[u8]>::as_ref(s.as_str()) == s.as_bytes() && s.is_empty() == (s.chars().count() == 0), &|| s.clone());
        let same = s.chars().eq(o.chars());
        t.is("vx_eq", (s == o) == same && (s.as_str() == o.as_str()) == same && (s == *o.as_str()) == same && (*s.as_str() == o) == same && s == s.clone(), &|| format!("{:?} {:?}", s, o));
        t.is("vx_to_string", s.as_str().to_string() == s && s.as_str().to_owned() == s && format!("{}", s) == s && String::from(s.as_str()) == s && String::default().is_empty(), &|| s.clone());
        let parts: Vec<String> = s.split(c).map(String::from).collect();
        t.is("vx_split", !parts.is_empty() && joined(&parts, &c.to_string()) == s && parts.iter().all(|x| !x.contains(c)), &|| s.clone());
        let pr: Vec<&str> = parts.iter().map(|x| x.as_str()).collect();
        t.is("vx_join", parts.join(&o) == joined(&parts, &o) && pr.join(&o) == joined(&parts, &o) && pr[..].join(&o) == joined(&parts, &o), &|| s.clone());
        let pre = s.chars().next() == Some(c);
        t.is("vx_strip_prefix", s.strip_prefix(c).map(String::from) == if pre { Some(skip(&s, 1)) } else { None } && s.starts_with(c) == pre && s.ends_with(c) == (s.chars().last() == Some(c)), &|| s.clone());
        let last = s.chars().enumerate().filter(|x| x.1 == c).map(|x| x.0).last();
        t.is("vx_rfind", s.rfind(c) == last.map(|k| take(&s, k).len()), &|| s.clone());
        let k = r.below(s.chars().count() + 1);
        let at = take(&s, k).len();
        t.is("vx_str_split_at", s.split_at(at) == (take(&s, k).as_str(), skip(&s, k).as_str()), &|| s.clone());
        let asc = s.chars().take_while(|c| *c as u32 <= 127).count();
        let k = r.below(asc + 1);
        t.is("vx_str_from", s[k..] == skip(&s, k), &|| s.clone());
        t.is("vx_fmt", format!("{}.{}", s, o) == s.clone() + "." + &o && format!("x{}y", s.as_str()) == String::from("x") + &s + "y", &|| s.clone());
        let cow: std::borrow::Cow<str> = s.as_str().into();
        let cow2: std::borrow::Cow<str> = s.clone().into();
        let back: String = cow.clone().into();
        t.is("vx_into", *cow == s && *cow2 == s && back == s, &|| s.clone());

        // numbers in text
        let rad = *r.pick(&[8u32, 10, 16]);
        let len = match r.below(4) { 0 => r.below(4), 1 => 1 + r.below(12), _ => 15 + r.below(12) };
        let d: String = (0..len).map(|_| { let x = std::char::from_digit(r.below(rad as usize) as u32, rad).unwrap(); if r.chance(1, 2) { x.to_ascii_uppercase() } else { x } }).collect();
        radix!(t, &d, rad, u64, "vx_u64_from_str_radix"; i64, "vx_i64_from_str_radix"; u32, "vx_u32_from_str_radix"; u8, "vx_u8_from_str_radix");
        let fl: String = match r.below(3) {
            0 => (0..r.below(9)).map(|_| *r.pick(&['0', '9', '.', 'e', 'E', '+', '-', '1'])).collect(),
            1 => { let mut x: Vec<char> = r.pick(&["inf", "-INF", "+nan", "infinity", "NaN", "InFiNiTy", "nan", "-.5e3"]).chars().collect(); if r.chance(1, 3) { let i = r.below(x.len()); x[i] = *r.pick(&['i', 'n', 'y', '.', 'e', '0']); } x.into_iter().collect() }
            _ => format!("{}{}{}", r.pick(&["", "-", "+"]), r.pick(&["1.5", "5.", ".5", "007", "99999999999999999999999999"]), r.pick(&["", "e5", "E-5", "e+999", "e-99999"])),
        };
        let q = fl.chars().fold(0, |q, c| float_step(q, c as u32));
        let yes = [2, 3, 5, 8, 11, 16, 19].contains(&q);
        t.is("vx_parse of f64", !yes || fl.parse::<f64>().is_ok(), &|| fl.clone());

        // vectors and options
        let mut v: Vec<String> = parts.clone();
        let before = v.clone();
        if let Some(x) = v.last_mut() { *x = o.clone(); }
        t.is("vx_last_mut", v.len() == before.len() && v[..v.len() - 1] == before[..v.len() - 1] && v[v.len() - 1] == o && Vec::<u8>::new().last_mut().is_none(), &|| format!("{:?}", before));
        let mut w = vec![o.clone()];
        v.append(&mut w);
        t.is("vx_append", w.is_empty() && v.len() == before.len() + 1 && *v.last().unwrap() == o, &|| format!("{:?}", before));
        let tk = std::mem::take(&mut v);
        t.is("vx_take", v.is_empty() && tk.len() == before.len() + 1, &|| format!("{:?}", before));
        let k = r.below(before.len() + 2);
        let it: Vec<String> = before.clone().into_iter().collect();
        let rv: Vec<&String> = before.iter().rev().collect();
        t.is("vx_into_iter", it == before && rv.iter().enumerate().all(|(i, x)| **x == before[before.len() - 1 - i]) && before.iter().skip(k).count() == before.len().saturating_sub(k)
            && before.iter().skip(k).eq(before.get(k..).unwrap_or(&[]).iter()) && before.iter().take(k).eq(before[..k.min(before.len())].iter()), &|| format!("{:?}", before));
        let us: Vec<usize> = (0..r.below(4)).map(|_| r.next() as usize).collect();
        t.is("vx_clone", us.clone() == us && parts.clone() == parts, &|| format!("{:?}", us));
        if r.chance(1, 8) { maps(t, r); }
    }
    (t.evals, t.names.len())
}
