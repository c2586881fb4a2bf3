//! Independent model of proto sources: generator, printer with free layout, name resolution.
use crate::dict;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Con {
    Ident(String),
    Int(i64),
    Float(u64),
    Str(Vec<u8>),
    Bool(bool),
}
/// An option with the text of its constant as written in the source.
#[derive(Clone, Debug)]
pub struct Opt { pub name: Vec<String>, pub value: Con, pub text: Vec<String> }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Label { None, Optional, Repeated }

#[derive(Clone, Debug, PartialEq)]
pub enum STy { Builtin(&'static str), Named { root: bool, parts: Vec<String> } }

#[derive(Clone, Debug)]
pub struct SField { pub label: Label, pub ty: STy, pub name: String, pub number: u64, pub num_text: String, pub opts: Vec<Opt> }

#[derive(Clone, Debug)]
pub enum OItem { Field(SField), Opt(Opt), Empty }
#[derive(Clone, Debug)]
pub struct SOneof { pub name: String, pub items: Vec<OItem> }

#[derive(Clone, Debug)]
pub enum MItem { Field(SField), Oneof(SOneof), Msg(SMsg), Enum(SEnum), Opt(Opt), Reserved(String), Empty }
#[derive(Clone, Debug)]
pub struct SMsg { pub name: String, pub items: Vec<MItem> }

#[derive(Clone, Debug)]
pub enum EItem { Value { name: String, value: i64, text: Vec<String>, opts: Vec<Opt> }, Opt(Opt), Empty }
#[derive(Clone, Debug)]
pub struct SEnum { pub name: String, pub items: Vec<EItem> }

#[derive(Clone, Debug)]
pub struct SRpc { pub name: String, pub input: (bool, STy), pub output: (bool, STy), pub opts: Vec<Option<Opt>>, pub brace: bool }
#[derive(Clone, Debug)]
pub enum SvItem { Rpc(SRpc), Opt(Opt), Empty }
#[derive(Clone, Debug)]
pub struct SService { pub name: String, pub items: Vec<SvItem> }

#[derive(Clone, Debug)]
pub enum Top { Msg(SMsg), Enum(SEnum), Service(SService), Import(String), Opt(Opt), Empty }
#[derive(Clone, Debug)]
pub struct SFile { pub package: Vec<String>, pub pkg_at: usize, pub tops: Vec<Top> }

pub const BUILTINS: [&str; 15] = ["double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
    "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"];

// ---------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Cfg {
    /// Names come from a tiny pool, so that shadowing and conflicts are common.
    pub conflicts: bool,
    pub options: bool,
    pub services: bool,
    /// Names may be references to nothing.
    pub dangling: bool,
    /// A field may name a service, an rpc an enum or service.
    pub miskind: bool,
    pub dup_members: bool,
    pub max_files: usize,
}

/// Option names that mean something to other tools and nothing special here.
const KNOWN_OPTS: [&str; 10] = ["deprecated", "default", "json_name", "allow_alias", "lazy", "ctype", "jstype", "idempotency_level", "java_package", "packed"];
fn ident(r: &mut Rng) -> String {
    if let Some(t) = dict::ident(r) { return t; }
    match r.below(14) {
        12 => (*r.pick(&KNOWN_OPTS)).to_string(),
        13 => format!("{}{}", r.pick(&["x", "Q_"]), "n".repeat(1 + dict::size(r, 1, 4, 5000).unwrap_or(r.below(70)))),
        0 => (*r.pick(&["optionalX", "repeatedY", "streamZ", "int32x", "bytesFoo", "boolean", "optionA", "trueish", "infinite", "nanny",
            "falsey", "messageX", "enumX", "reservedX", "oneofX", "stringValue", "mapX", "rpcs", "doubled"])).to_string(),
        1 => format!("{}_{}", r.pick(&["a", "Z9", "x_"]), r.below(100)),
        2 => (0..1 + r.below(20)).map(|i| if i == 0 { 'q' } else { *r.pick(&['a', 'B', '_', '7']) }).collect(),
        _ => format!("{}{}", r.pick(&["a", "b", "Foo", "Bar", "x", "Long_name"]), r.below(50)),
    }
}

pub fn float_text(r: &mut Rng) -> String {
    let sign = *r.pick(&["", "", "-", "+"]);
    let d = |r: &mut Rng| (0..1 + r.below(4)).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    let e = |r: &mut Rng| format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "-", "+"]), r.below(30));
    let body = match r.below(7) {
        0 => format!("{}.{}", d(r), d(r)),
        1 => format!("{}.", d(r)),
        2 => format!(".{}", d(r)),
        3 => format!("{}{}", d(r), e(r)),
        4 => format!("{}.{}{}", d(r), d(r), e(r)),
        5 => format!(".{}{}", d(r), e(r)),
        _ => (*r.pick(&["inf", "nan"])).to_string(),
    };
    format!("{}{}", sign, body)
}

pub fn int_text(r: &mut Rng, v: i64) -> Vec<String> {
    let mag = (v as i128).unsigned_abs();
    let t = match r.below(4) {
        0 => format!("0{}{:X}", r.pick(&["x", "X"]), mag),
        1 => format!("0{:o}", mag),
        2 => format!("0x{:x}", mag),
        _ => if mag == 0 { "0".into() } else { mag.to_string() },
    };
    let mut out = vec![];
    if v < 0 { out.push("-".to_string()) } else if r.chance(1, 6) { out.push("+".to_string()) }
    out.push(t);
    out
}
pub fn rand_i64(r: &mut Rng) -> i64 {
    if let Some(n) = dict::int(r) { return n as i64; }
    match r.below(6) {
        0 => *r.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, -1, 0, 1, 7, 8, 9, 10, 15, 16, -8, i32::MIN as i64, i32::MAX as i64]),
        1 => r.next() as i64,
        2 => (r.next() >> r.below(64)) as i64,
        _ => r.below(200) as i64 - 100,
    }
}

/// Text of a string literal and the bytes it stands for.
pub fn str_lit(r: &mut Rng) -> (String, Vec<u8>) {
    let q = *r.pick(&['"', '\'']);
    let mut t = String::new();
    let mut b = vec![];
    t.push(q);
    if let Some(s) = dict::utf8(r) {
        for c in s.chars() {
            if c == q || c == '\\' || c == '\n' || c == '\u{0}' { continue; }
            t.push(c);
            let mut buf = [0; 4];
            b.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
        }
    }
    let n = if r.chance(1, 30) { 20 + r.below(300) } else { r.below(7) };
    let n = dict::size(r, 1, 20, 20000).unwrap_or(n);
    for _ in 0..n {
        match r.below(6) {
            0 => {
                let (e, v) = *r.pick(&[("a", 7u8), ("b", 8), ("f", 12), ("n", 10), ("r", 13), ("t", 9), ("v", 11), ("\\", 92), ("'", 39), ("\"", 34)]);
                t.push('\\');
                t.push_str(e);
                b.push(v);
            }
            1 => {
                let v = r.next() as u8;
                t.push('\\');
                t.push(*r.pick(&['x', 'X']));
                t.push_str(&if r.chance(1, 2) { format!("{:02x}", v) } else { format!("{:02X}", v) });
                b.push(v);
            }
            2 => {
                let v = r.next() as u8;
                t.push_str(&format!("\\{:03o}", v));
                b.push(v);
            }
            3 => {
                // A short octal escape, ended by something that is no octal digit.
                let v = r.below(8) as u8;
                t.push_str(&format!("\\{}z", v));
                b.push(v);
                b.push(b'z');
            }
            _ => {
                let c = *r.pick(&['a', 'Z', '0', '8', ' ', '\t', '/', '*', ';', '{', '}', 'é', '€', '𝄞', '#', '\u{feff}', '\'', '"']);
                if c == q { continue; }
                t.push(c);
                let mut buf = [0; 4];
                b.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
            }
        }
    }
    t.push(q);
    (t, b)
}

pub fn constant(r: &mut Rng) -> (Con, Vec<String>) {
    match r.below(6) {
        0 => {
            let n = 1 + r.below(3);
            let ids: Vec<String> = (0..n).map(|_| ident(r)).collect();
            if ids.len() == 1 && ["true", "false", "inf", "nan"].contains(&ids[0].as_str()) { return (Con::Bool(true), vec!["true".into()]); }
            let mut t = vec![];
            for (i, s) in ids.iter().enumerate() { if i > 0 { t.push(".".into()); } t.push(s.clone()); }
            (Con::Ident(ids.join(".")), t)
        }
        1 => { let v = rand_i64(r); (Con::Int(v), int_text(r, v)) }
        2 => {
            let t = float_text(r);
            let v: f64 = t.parse().unwrap();
            (Con::Float(v.to_bits()), vec![t])
        }
        3 | 4 => { let (t, b) = str_lit(r); (Con::Str(b), vec![t]) }
        _ => { let b = r.chance(1, 2); (Con::Bool(b), vec![b.to_string()]) }
    }
}

fn opt(r: &mut Rng) -> Opt {
    // Name tokens: ident or ( fullIdent ), then . ident
    let mut name = vec![];
    if r.chance(1, 3) {
        name.push("(".to_string());
        for i in 0..1 + r.below(3) { if i > 0 { name.push(".".into()); } name.push(ident(r)); }
        name.push(")".to_string());
    } else {
        name.push(if r.chance(1, 6) { "packed".into() } else if r.chance(1, 6) { (*r.pick(&KNOWN_OPTS)).to_string() } else { ident(r) });
    }
    for _ in 0..r.below(2) { name.push(".".into()); name.push(ident(r)); }
    let (value, text) = constant(r);
    Opt { name, value, text }
}
/// Rarely a dozen, or a number of the dictionary.
fn many(r: &mut Rng, n: usize) -> usize {
    let n = if r.chance(1, 25) { n + r.below(14) } else { n };
    dict::size(r, 1, 15, 300).unwrap_or(n)
}
fn opts(r: &mut Rng, c: &Cfg) -> Vec<Opt> {
    if !c.options || !r.chance(1, 3) { return vec![]; }
    (0..{ let n = 1 + r.below(3); many(r, n) }).map(|_| opt(r)).collect()
}

fn tname(r: &mut Rng, c: &Cfg, used: &mut Vec<String>) -> String {
    loop {
        let n = if c.conflicts {
            (*r.pick(&["A", "B", "C", "AB", "a", "p"])).to_string()
        } else if r.chance(1, 2) {
            (*r.pick(&["A", "B", "C", "D", "AB", "ABC", "a", "p", "q"])).to_string()
        } else { ident(r) };
        if !used.contains(&n) || (c.conflicts && r.chance(1, 12)) {
            used.push(n.clone());
            return n;
        }
        if used.len() > 5 { let n = format!("T{}", r.below(100000)); used.push(n.clone()); return n; }
    }
}

fn field(r: &mut Rng, c: &Cfg, nums: &mut Vec<u64>, names: &mut Vec<String>, oneof: bool) -> SField {
    let number = loop {
        let n = match r.below(8) { 0 => rand_i64(r) as u64, 1 => *r.pick(&[0, (1 << 29) - 1, 19000, 19999, 1 << 29, 1 << 32, u64::MAX]), _ => 1 + r.below(40) as u64 };
        if !nums.contains(&n) || (c.dup_members && r.chance(1, 2)) { break n; }
    };
    nums.push(number);
    let name = loop {
        let mut n = ident(r);
        // The name of another one in other letters is another name.
        if !names.is_empty() && r.chance(1, 10) { let o = r.pick(names).clone(); n = if r.chance(1, 2) { o.to_uppercase() } else { o.to_lowercase() }; }
        if ["true", "false", "inf", "nan"].contains(&n.as_str()) { continue; }
        if !names.contains(&n) || (c.dup_members && r.chance(1, 2)) { break n; }
    };
    names.push(name.clone());
    let num_text = match r.below(5) { 0 => format!("0x{:x}", number), 1 => format!("0{:o}", number), 2 => format!("0X{:X}", number),
        _ => if number == 0 { "0".into() } else { number.to_string() } };
    let label = if oneof { Label::None } else { *r.pick(&[Label::None, Label::None, Label::Optional, Label::Repeated, Label::Repeated]) };
    let ty = if r.chance(1, 2) { STy::Builtin(*r.pick(&BUILTINS)) } else { STy::Named { root: false, parts: vec![] } };
    let mut os = opts(r, c);
    if c.options && label == Label::Repeated && r.chance(1, 3) {
        let at = r.below(os.len() + 1);
        let (v, t) = match r.below(6) { 0 => constant(r), 1 | 2 => (Con::Bool(false), vec!["false".into()]), _ => (Con::Bool(true), vec!["true".into()]) };
        os.insert(at, Opt { name: vec!["packed".into()], value: v, text: t });
    }
    SField { label, ty, name, number, num_text, opts: os }
}

fn gen_enum(r: &mut Rng, c: &Cfg, name: String) -> SEnum {
    let mut items = vec![];
    let mut names: Vec<String> = vec![];
    let mut vals: Vec<i64> = vec![];
    for _ in 0..r.below(5) {
        match r.below(6) {
            0 if c.options => items.push(EItem::Opt(opt(r))),
            1 => items.push(EItem::Empty),
            _ => {
                let name = if r.chance(1, 12) { (*r.pick(&["optional", "repeated", "stream", "int32"])).to_string() } else { ident(r) };
                let value = rand_i64(r);
                if names.contains(&name) || vals.contains(&value) { continue; }
                names.push(name.clone());
                vals.push(value);
                items.push(EItem::Value { name, value, text: int_text(r, value), opts: opts(r, c) });
            }
        }
    }
    SEnum { name, items }
}

fn gen_msg(r: &mut Rng, c: &Cfg, name: String, depth: usize) -> SMsg {
    let mut items = vec![];
    let mut used = vec![];
    let (mut nums, mut names, mut onames): (Vec<u64>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    for _ in 0..r.below(6) {
        match r.below(12) {
            0 if depth > 0 => { let n = tname(r, c, &mut used); items.push(MItem::Enum(gen_enum(r, c, n))) }
            1 | 2 | 3 if depth > 0 => { let n = tname(r, c, &mut used); items.push(MItem::Msg(gen_msg(r, c, n, depth - 1))) }
            4 => {
                let oname = ident(r);
                if onames.contains(&oname) { continue; }
                onames.push(oname.clone());
                let mut oi = vec![];
                for _ in 0..r.below(4) {
                    match r.below(5) {
                        0 if c.options => oi.push(OItem::Opt(opt(r))),
                        1 => oi.push(OItem::Empty),
                        _ => oi.push(OItem::Field(field(r, c, &mut nums, &mut names, true))),
                    }
                }
                items.push(MItem::Oneof(SOneof { name: oname, items: oi }));
            }
            5 if c.options => items.push(MItem::Opt(opt(r))),
            6 => items.push(if r.chance(1, 2) { MItem::Empty } else {
                MItem::Reserved((*r.pick(&["1 to 5", "7", "1,2,5 to max", "foo", "foo, bar", "0x10 to 0x20"])).to_string()) }),
            _ => items.push(MItem::Field(field(r, c, &mut nums, &mut names, false))),
        }
    }
    SMsg { name, items }
}

fn gen_service(r: &mut Rng, c: &Cfg, name: String) -> SService {
    let mut items = vec![];
    let mut names: Vec<String> = vec![];
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 if c.options => items.push(SvItem::Opt(opt(r))),
            1 => items.push(SvItem::Empty),
            _ => {
                let name = ident(r);
                if names.contains(&name) { continue; }
                names.push(name.clone());
                let blank = STy::Named { root: false, parts: vec![] };
                let brace = r.chance(1, 2);
                let os = if brace && c.options { (0..{ let n = r.below(3); many(r, n) }).map(|_| if r.chance(1, 3) { None } else { Some(opt(r)) }).collect() } else { vec![] };
                items.push(SvItem::Rpc(SRpc { name, input: (r.chance(1, 3), blank.clone()), output: (r.chance(1, 3), blank), opts: os, brace }));
            }
        }
    }
    SService { name, items }
}

pub fn gen_files(r: &mut Rng, c: &Cfg) -> Vec<SFile> {
    // A package and a message of the same name can make full names collide.
    loop {
        let files = gen_once(r, c);
        let mut seen = std::collections::BTreeSet::new();
        if c.conflicts || decls(&files).into_iter().all(|d| seen.insert(d.0)) { return files; }
    }
}
fn gen_once(r: &mut Rng, c: &Cfg) -> Vec<SFile> {
    let nf = 1 + r.below(c.max_files);
    let mut files = vec![];
    // Top-level names already used in each package.
    let mut used: Vec<(Vec<String>, Vec<String>)> = vec![];
    for _ in 0..nf {
        let package: Vec<String> = match r.below(6) {
            0 | 1 => vec![],
            2 => vec!["a".into()],
            3 => vec!["a".into(), "A".into()],
            4 => vec!["p".into(), "q".into()],
            _ => (0..1 + { let n = r.below(3); many(r, n) }).map(|_| match dict::ident(r) { Some(t) => t, None => (*r.pick(&["a", "b", "A", "p", "AB"])).to_string() }).collect(),
        };
        let slot = match used.iter().position(|u| u.0 == package) { Some(i) => i, None => { used.push((package.clone(), vec![])); used.len() - 1 } };
        let mut u = std::mem::take(&mut used[slot].1);
        let mut tops = vec![];
        for _ in 0..1 + r.below(5) {
            match r.below(12) {
                0 | 1 => { let n = tname(r, c, &mut u); tops.push(Top::Enum(gen_enum(r, c, n))) }
                2 | 3 if c.services => { let n = tname(r, c, &mut u); tops.push(Top::Service(gen_service(r, c, n))) }
                4 => tops.push(match r.below(3) { 0 => Top::Empty, 1 => Top::Import((*r.pick(&["\"x.proto\"", "public 'y.proto'", "weak \"z\""])).to_string()), _ => Top::Opt(opt(r)) }),
                _ => { let n = tname(r, c, &mut u); tops.push(Top::Msg(gen_msg(r, c, n, 3))) }
            }
        }
        used[slot].1 = u;
        let pkg_at = r.below(tops.len() + 1);
        files.push(SFile { package, pkg_at, tops });
    }
    fill_refs(r, c, &mut files);
    files
}

// ---------------------------------------------------------------- declarations and resolution

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Msg, Enum, Service }

/// All declarations with their full name, in source order.
pub fn decls(files: &[SFile]) -> Vec<(String, Kind)> {
    fn msg(m: &SMsg, path: &str, out: &mut Vec<(String, Kind)>) {
        let full = join(path, &m.name);
        out.push((full.clone(), Kind::Msg));
        for i in &m.items {
            match i {
                MItem::Msg(x) => msg(x, &full, out),
                MItem::Enum(e) => out.push((join(&full, &e.name), Kind::Enum)),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for f in files {
        let p = f.package.join(".");
        for t in &f.tops {
            match t {
                Top::Msg(m) => msg(m, &p, &mut out),
                Top::Enum(e) => out.push((join(&p, &e.name), Kind::Enum)),
                Top::Service(s) => out.push((join(&p, &s.name), Kind::Service)),
                _ => {}
            }
        }
    }
    out
}
pub fn join(p: &str, n: &str) -> String {
    if p.is_empty() { n.to_string() } else { format!("{}.{}", p, n) }
}

/// Scopes of a full name, innermost first: itself, then each prefix, then the root.
fn scopes(scope: &str) -> Vec<String> {
    let parts: Vec<&str> = if scope.is_empty() { vec![] } else { scope.split('.').collect() };
    (0..=parts.len()).rev().map(|n| parts[..n].join(".")).collect()
}

pub fn resolve(ds: &[(String, Kind)], scope: &str, ty: &STy) -> Option<(String, Kind)> {
    let (root, parts) = match ty { STy::Named { root, parts } => (*root, parts.join(".")), _ => return None };
    let cands = if root { vec![parts.clone()] } else { scopes(scope).iter().map(|s| join(s, &parts)).collect() };
    for c in cands {
        if let Some(d) = ds.iter().find(|d| d.0 == c) { return Some(d.clone()); }
    }
    None
}

pub fn ty_text(t: &STy) -> String {
    match t { STy::Builtin(b) => b.to_string(), STy::Named { root, parts } => format!("{}{}", if *root { "." } else { "" }, parts.join(".")) }
}

fn pick_ref(r: &mut Rng, c: &Cfg, ds: &[(String, Kind)], scope: &str, rpc: bool) -> STy {
    for _ in 0..200 {
        let t = if c.dangling && r.chance(1, 25) {
            let n = 1 + r.below(3);
            STy::Named { root: r.chance(1, 6), parts: (0..n).map(|_| (*r.pick(&["A", "B", "C", "a", "p", "AB", "Q"])).to_string()).collect() }
        } else {
            if ds.is_empty() { break; }
            let d = r.pick(ds).0.clone();
            let parts: Vec<String> = d.split('.').map(String::from).collect();
            let k = r.below(parts.len());
            if r.chance(1, 6) { STy::Named { root: true, parts } } else { STy::Named { root: false, parts: parts[k..].to_vec() } }
        };
        // A keyword-like first part could read as something else.
        if let STy::Named { parts, .. } = &t { if parts.is_empty() { continue; } }
        match resolve(ds, scope, &t) {
            None => if c.dangling { return t },
            Some((_, k)) => {
                let ok = if rpc { k == Kind::Msg } else { k != Kind::Service };
                if ok || (c.miskind && r.chance(1, 6)) { return t; }
            }
        }
    }
    if rpc { STy::Named { root: false, parts: vec![] } } else { STy::Builtin("int32") }
}

fn fill_refs(r: &mut Rng, c: &Cfg, files: &mut [SFile]) {
    let ds = decls(files);
    fn msg(r: &mut Rng, c: &Cfg, ds: &[(String, Kind)], m: &mut SMsg, path: &str) {
        let full = join(path, &m.name);
        for i in &mut m.items {
            match i {
                MItem::Msg(x) => msg(r, c, ds, x, &full),
                MItem::Field(f) => if !matches!(f.ty, STy::Builtin(_)) { f.ty = pick_ref(r, c, ds, &full, false) },
                MItem::Oneof(o) => for oi in &mut o.items {
                    if let OItem::Field(f) = oi { if !matches!(f.ty, STy::Builtin(_)) { f.ty = pick_ref(r, c, ds, &full, false) } }
                },
                _ => {}
            }
        }
    }
    for f in files.iter_mut() {
        let p = f.package.join(".");
        for t in &mut f.tops {
            match t {
                Top::Msg(m) => msg(r, c, &ds, m, &p),
                Top::Service(s) => {
                    let full = join(&p, &s.name);
                    for i in &mut s.items {
                        if let SvItem::Rpc(x) = i {
                            x.input.1 = pick_ref(r, c, &ds, &full, true);
                            x.output.1 = pick_ref(r, c, &ds, &full, true);
                        }
                    }
                    // No message to name: no rpcs.
                    s.items.retain(|i| match i { SvItem::Rpc(x) => {
                        let has = |t: &STy| matches!(t, STy::Named { parts, .. } if !parts.is_empty());
                        has(&x.input.1) && has(&x.output.1) }, _ => true });
                }
                _ => {}
            }
        }
    }
}

// ---------------------------------------------------------------- printing

fn p_opt(o: &Opt, out: &mut Vec<String>) {
    out.extend(o.name.iter().cloned());
    out.push("=".into());
    out.extend(o.text.iter().cloned());
}
fn p_opt_stmt(o: &Opt, out: &mut Vec<String>) {
    out.push("option".into());
    p_opt(o, out);
    out.push(";".into());
}
fn p_opts(os: &[Opt], out: &mut Vec<String>) {
    if os.is_empty() { return; }
    out.push("[".into());
    for (i, o) in os.iter().enumerate() {
        if i > 0 { out.push(",".into()); }
        p_opt(o, out);
    }
    out.push("]".into());
}
fn p_ty(t: &STy, out: &mut Vec<String>) {
    match t {
        STy::Builtin(b) => out.push(b.to_string()),
        STy::Named { root, parts } => {
            if *root { out.push(".".into()); }
            for (i, p) in parts.iter().enumerate() { if i > 0 { out.push(".".into()); } out.push(p.clone()); }
        }
    }
}
fn p_field(f: &SField, out: &mut Vec<String>) {
    match f.label { Label::None => {}, Label::Optional => out.push("optional".into()), Label::Repeated => out.push("repeated".into()) }
    p_ty(&f.ty, out);
    out.push(f.name.clone());
    out.push("=".into());
    out.push(f.num_text.clone());
    p_opts(&f.opts, out);
    out.push(";".into());
}
fn p_enum(e: &SEnum, out: &mut Vec<String>) {
    out.extend(["enum".to_string(), e.name.clone(), "{".into()]);
    for i in &e.items {
        match i {
            EItem::Value { name, text, opts, .. } => {
                out.extend([name.clone(), "=".into()]);
                out.extend(text.iter().cloned());
                p_opts(opts, out);
                out.push(";".into());
            }
            EItem::Opt(o) => p_opt_stmt(o, out),
            EItem::Empty => out.push(";".into()),
        }
    }
    out.push("}".into());
}
fn p_msg(m: &SMsg, out: &mut Vec<String>) {
    out.extend(["message".to_string(), m.name.clone(), "{".into()]);
    for i in &m.items {
        match i {
            MItem::Field(f) => p_field(f, out),
            MItem::Oneof(o) => {
                out.extend(["oneof".to_string(), o.name.clone(), "{".into()]);
                for oi in &o.items {
                    match oi { OItem::Field(f) => p_field(f, out), OItem::Opt(o) => p_opt_stmt(o, out), OItem::Empty => out.push(";".into()) }
                }
                out.push("}".into());
            }
            MItem::Msg(x) => p_msg(x, out),
            MItem::Enum(e) => p_enum(e, out),
            MItem::Opt(o) => p_opt_stmt(o, out),
            MItem::Reserved(t) => { out.push("reserved".into()); out.push(t.clone()); out.push(";".into()) }
            MItem::Empty => out.push(";".into()),
        }
    }
    out.push("}".into());
}
pub fn tokens(f: &SFile) -> Vec<String> {
    let mut out: Vec<String> = ["syntax", "=", "\"proto3\"", ";"].iter().map(|s| s.to_string()).collect();
    for i in 0..=f.tops.len() {
        if i == f.pkg_at && !f.package.is_empty() {
            out.push("package".into());
            for (k, p) in f.package.iter().enumerate() { if k > 0 { out.push(".".into()); } out.push(p.clone()); }
            out.push(";".into());
        }
        if let Some(t) = f.tops.get(i) {
            match t {
                Top::Msg(m) => p_msg(m, &mut out),
                Top::Enum(e) => p_enum(e, &mut out),
                Top::Service(s) => {
                    out.extend(["service".to_string(), s.name.clone(), "{".into()]);
                    for i in &s.items {
                        match i {
                            SvItem::Opt(o) => p_opt_stmt(o, &mut out),
                            SvItem::Empty => out.push(";".into()),
                            SvItem::Rpc(x) => {
                                out.extend(["rpc".to_string(), x.name.clone(), "(".into()]);
                                if x.input.0 { out.push("stream".into()); }
                                p_ty(&x.input.1, &mut out);
                                out.extend([")".to_string(), "returns".into(), "(".into()]);
                                if x.output.0 { out.push("stream".into()); }
                                p_ty(&x.output.1, &mut out);
                                out.push(")".into());
                                if x.brace {
                                    out.push("{".into());
                                    for o in &x.opts { match o { Some(o) => p_opt_stmt(o, &mut out), None => out.push(";".into()) } }
                                    out.push("}".into());
                                } else { out.push(";".into()); }
                            }
                        }
                    }
                    out.push("}".into());
                }
                Top::Import(t) => out.extend(["import".to_string(), t.clone(), ";".into()]),
                Top::Opt(o) => p_opt_stmt(o, &mut out),
                Top::Empty => out.push(";".into()),
            }
        }
    }
    out
}

/// Joins tokens with whitespace and comments; `plain` uses single spaces.
pub fn layout(r: &mut Rng, toks: &[String], plain: bool) -> String {
    let mut s = String::new();
    if !plain && r.chance(1, 8) { s.push('\u{feff}'); }
    let wordy = |c: char| c.is_alphanumeric() || c == '_' || c == '.' || c == '-' || c == '+';
    let quiet = plain || r.chance(1, 2);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let a = toks[i - 1].chars().last().unwrap();
            let b = t.chars().next().unwrap();
            // A dot between names is a token of its own and needs no space; a dot in front of a
            // type needs one after a keyword-like word (it would read as part of the word).
            let dotted = (t == "." && toks[i - 1].chars().all(|c| c.is_alphanumeric() || c == '_')) || toks[i - 1] == ".";
            let need = (wordy(a) && wordy(b) && !dotted) || (t == "." && matches!(toks[i - 1].as_str(), "optional" | "repeated" | "stream"));
            // Without separator `1 .` and the like would be one number.
            let digits = toks[i - 1].chars().next().unwrap().is_ascii_digit();
            let mut sep = String::new();
            if need || digits && wordy(b) { sep.push(' '); }
            if !quiet && r.chance(1, 3) {
                for _ in 0..1 + r.below(2) {
                    sep.push_str(*r.pick(&[" ", "\n", "\t", "\r\n", "  ", "// c }\n", "/* { ; */", "/**/", "//\n", "/* * / \n \" */", "/// c\n", "/**c**/", "/*/ c */", "// \u{e9} /* \n", "//\r\n", "/* // */"]));
                }
            } else if plain || r.chance(1, 2) {
                if !(dotted) { sep = " ".into(); }
            }
            s.push_str(&sep);
        }
        s.push_str(t);
    }
    s.push_str(*r.pick(&["", "\n", " ", " // end\n", "/* end */", "// end", "//", "\r\n", "///"]));
    s
}
