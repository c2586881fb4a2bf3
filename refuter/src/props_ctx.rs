//! Bounded search for the properties of parsing and of the context (C10-C18).
use crate::dict;
use crate::rng::Rng;
use crate::run::Run;
use crate::src::*;
use protofish::context::*;
use std::collections::{BTreeMap, BTreeSet};

fn parse(files: &[String]) -> Result<Context, ParseError> { Context::parse(files) }

fn show(files: &[String]) -> String {
    files.iter().enumerate().map(|(i, f)| format!("--- file {} ---\n{}\n", i, f)).collect()
}
fn base() -> Cfg {
    Cfg { conflicts: false, options: false, services: true, dangling: false, miskind: false, dup_members: false, max_files: 3 }
}
fn print(r: &mut Rng, files: &[SFile], plain: bool) -> Vec<String> {
    files.iter().map(|f| layout(r, &tokens(f), plain)).collect()
}
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// ------------------------------------------------------------------ walks over the source model

/// Every message with its full name, the index of its file and the full name of its parent message.
struct MsgAt<'a> { m: &'a SMsg, full: String, file: usize, parent: Option<String> }
struct EnumAt<'a> { e: &'a SEnum, full: String, file: usize, parent: Option<String> }
struct SvcAt<'a> { s: &'a SService, full: String, file: usize }

fn walk(files: &[SFile]) -> (Vec<MsgAt<'_>>, Vec<EnumAt<'_>>, Vec<SvcAt<'_>>) {
    fn msg<'a>(m: &'a SMsg, path: &str, file: usize, parent: Option<String>, ms: &mut Vec<MsgAt<'a>>, es: &mut Vec<EnumAt<'a>>) {
        let full = join(path, &m.name);
        ms.push(MsgAt { m, full: full.clone(), file, parent });
        for i in &m.items {
            match i {
                MItem::Msg(x) => msg(x, &full, file, Some(full.clone()), ms, es),
                MItem::Enum(e) => es.push(EnumAt { e, full: join(&full, &e.name), file, parent: Some(full.clone()) }),
                _ => {}
            }
        }
    }
    let (mut ms, mut es, mut ss) = (vec![], vec![], vec![]);
    for (fi, f) in files.iter().enumerate() {
        let p = f.package.join(".");
        for t in &f.tops {
            match t {
                Top::Msg(m) => msg(m, &p, fi, None, &mut ms, &mut es),
                Top::Enum(e) => es.push(EnumAt { e, full: join(&p, &e.name), file: fi, parent: None }),
                Top::Service(s) => ss.push(SvcAt { s, full: join(&p, &s.name), file: fi }),
                _ => {}
            }
        }
    }
    (ms, es, ss)
}
/// Fields of a message with the name of the oneof they belong to.
fn fields(m: &SMsg) -> Vec<(&SField, Option<&SOneof>)> {
    let mut v = vec![];
    for i in &m.items {
        match i {
            MItem::Field(f) => v.push((f, None)),
            MItem::Oneof(o) => for oi in &o.items { if let OItem::Field(f) = oi { v.push((f, Some(o))) } },
            _ => {}
        }
    }
    v
}
fn rpcs(s: &SService) -> Vec<&SRpc> { s.items.iter().filter_map(|i| if let SvItem::Rpc(r) = i { Some(r) } else { None }).collect() }

/// The full name of the type that a value type refers to.
fn vt_name(ctx: &Context, vt: &ValueType) -> String {
    match vt {
        ValueType::Message(m) => format!("message {}", ctx.resolve_message(*m).full_name),
        ValueType::Enum(e) => format!("enum {}", ctx.resolve_enum(*e).full_name),
        other => format!("{:?}", other).to_lowercase(),
    }
}
fn expect_ty(ds: &[(String, Kind)], scope: &str, t: &STy) -> Option<String> {
    match t {
        STy::Builtin(b) => Some(b.to_string()),
        _ => resolve(ds, scope, t).map(|(n, k)| format!("{} {}", match k { Kind::Msg => "message", Kind::Enum => "enum", Kind::Service => "service" }, n)),
    }
}

fn get_msg<'a>(ctx: &'a Context, full: &str) -> Result<&'a MessageInfo, String> {
    ctx.get_message(full).ok_or_else(|| format!("message {} is not found", full))
}
fn get_enum<'a>(ctx: &'a Context, full: &str) -> Result<&'a EnumInfo, String> {
    match ctx.get_type(full) { Some(TypeInfo::Enum(e)) => Ok(e), _ => Err(format!("enum {} is not found", full)) }
}
fn get_svc<'a>(ctx: &'a Context, full: &str) -> Result<&'a Service, String> {
    ctx.get_service(full).ok_or_else(|| format!("service {} is not found", full))
}

/// Sources of a size: deep nesting, many declarations, long names.
fn big_sources(thorough: bool) -> Vec<(String, Vec<SFile>)> {
    let named = |s: &str| STy::Named { root: s.starts_with('.'), parts: s.trim_start_matches('.').split('.').map(String::from).collect() };
    let field = |label: Label, t: &str, name: String, n: u64| SField { label, ty: match BUILTINS.iter().find(|b| **b == t) { Some(b) => STy::Builtin(*b), None => named(t) }, name, number: n, num_text: n.to_string(), opts: vec![] };
    let val = |name: String, v: i64| EItem::Value { name, value: v, text: if v < 0 { vec!["-".into(), (-v).to_string()] } else { vec![v.to_string()] }, opts: vec![] };
    let en = |name: &str, n: i64| SEnum { name: name.into(), items: (0..n).map(|i| val(format!("v{}", i), i * 7 - 9)).collect() };
    let file = |package: &str, tops: Vec<Top>| SFile { package: package.split('.').filter(|p| !p.is_empty()).map(String::from).collect(), pkg_at: 0, tops };
    let opt = |name: &str, k: i64| Opt { name: vec![name.into()], value: Con::Int(k), text: vec![k.to_string()] };
    let rpc = |name: String, i: &str, o: &str, k: usize| SRpc { name, input: (k % 2 == 1, named(i)), output: (k % 3 == 1, named(o)), opts: (0..k % 3).map(|j| Some(opt("x", j as i64))).collect(), brace: true };
    let mut out = vec![];
    // Nesting: the innermost message uses names of all levels.
    for d in [20usize, 70, 140, 270].into_iter().chain(dict::sizes(4, 300)) {
        for same in [true, false] {
            let nm = |i: usize| if same { "M".to_string() } else { format!("M{}", i) };
            let path = |i: usize| (0..=i).map(&nm).collect::<Vec<_>>().join(".");
            let mut m: Option<SMsg> = None;
            for i in (0..d).rev() {
                let mut items = vec![MItem::Field(field(Label::Repeated, "E", "e".into(), 1)), MItem::Field(field(Label::None, &nm(i), "own".into(), 2))];
                if i == d - 1 {
                    for (k, j) in [0, 1, d / 2, d - 2, d - 1].iter().enumerate() {
                        items.push(MItem::Field(field(Label::Optional, &format!(".p.{}", path(*j)), format!("a{}", k), 10 + k as u64)));
                        if !same { items.push(MItem::Field(field(Label::None, &nm(*j), format!("b{}", k), 20 + k as u64))); items.push(MItem::Field(field(Label::None, &format!("p.{}", path(*j)), format!("c{}", k), 30 + k as u64))); }
                    }
                    items.push(MItem::Enum(en("Inner", 2)));
                    items.push(MItem::Field(field(Label::None, "Inner", "in".into(), 3)));
                }
                if let Some(x) = m.take() { items.push(MItem::Msg(x)); }
                m = Some(SMsg { name: nm(i), items });
            }
            let svc = SService { name: "S".into(), items: vec![SvItem::Rpc(rpc("r".into(), &path(d - 1), &format!(".p.{}", path(d / 2)), 1))] };
            out.push((format!("messages nested {} deep", d), vec![file("p", vec![Top::Service(svc), Top::Msg(m.unwrap()), Top::Enum(en("E", 3))])]));
        }
    }
    for n in (if thorough { vec![129usize, 260, 1030, 5000] } else { vec![129usize, 260, 1030] }).into_iter().chain(dict::sizes(4, 3000)) {
        let t = |i: usize| format!("T{}", i);
        // Many of each kind, each using another one.
        let tops = (0..n).flat_map(|i| vec![
            Top::Msg(SMsg { name: t(i), items: vec![MItem::Field(field(Label::None, &t((i + 1) % n), "next".into(), 1)), MItem::Field(field(Label::Repeated, &format!(".p.E{}", (i * 7) % n), "e".into(), 2))] }),
            Top::Enum(en(&format!("E{}", i), 1)),
            Top::Service(SService { name: format!("S{}", i), items: vec![SvItem::Rpc(rpc("r".into(), &t((i + 5) % n), &t((i * 3) % n), i))] })]).collect();
        out.push((format!("{} messages, enums and services", n), vec![file("p", tops)]));
        let all = ["bool", "int32", "string", "T", "E", "double", "bytes", "sint64"];
        let mut items: Vec<MItem> = (0..n).map(|i| MItem::Field(field([Label::None, Label::Optional, Label::Repeated][i % 3], all[i % 8], format!("f{}", i), (i as u64 * 97) % 65537 + 1))).collect();
        items.extend((0..n / 2).map(|i| MItem::Oneof(SOneof { name: format!("o{}", i), items: (0..i % 3).map(|k| OItem::Field(field(Label::None, all[(i + k) % 8], format!("g{}_{}", i, k), 100_000 + 4 * i as u64 + k as u64))).collect() })));
        items.extend((0..n).map(|i| MItem::Opt(opt("x", i as i64))));
        out.push((format!("a message with {} fields", n), vec![file("", vec![Top::Msg(SMsg { name: "T".into(), items }), Top::Enum(en("E", n as i64))])]));
        let items = (0..n).flat_map(|i| vec![MItem::Msg(SMsg { name: t(i), items: vec![MItem::Field(field(Label::None, &t(n - 1 - i), "a".into(), 1))] }), MItem::Enum(en(&format!("E{}", i), 2))]).collect();
        out.push((format!("a message with {} nested types", n), vec![file("a.b", vec![Top::Msg(SMsg { name: "Outer".into(), items })])]));
        let sv = SService { name: "S".into(), items: (0..n).map(|i| SvItem::Rpc(rpc(format!("r{}", i), ["A", "B"][i % 2], [".B", "A"][i / 2 % 2], i))).collect() };
        out.push((format!("a service with {} rpcs", n), vec![file("", vec![Top::Msg(SMsg { name: "A".into(), items: vec![] }), Top::Service(sv), Top::Msg(SMsg { name: "B".into(), items: vec![] })])]));
        if n <= 300 {
            let files = (0..n).map(|i| { let k = i % (n / 2); file(&if k == 0 { String::new() } else { format!("p{}.q", k) }, vec![Top::Msg(SMsg { name: t(i), items: vec![MItem::Field(field(Label::None, &if i == 0 { "T0".into() } else { format!("T{}", if i >= n / 2 && (n / 2) * 2 > i { i - n / 2 } else { i }) }, "a".into(), 1))] }), Top::Service(SService { name: format!("S{}", i), items: vec![] })]) }).collect();
            out.push((format!("{} files in {} packages", n, n / 2), files));
            let long = "x".repeat(n);
            let pkg = (0..n).map(|i| format!("p{}", i)).collect::<Vec<_>>().join(".");
            out.push((format!("a package of {} parts and names of {} letters", n, n), vec![file(&pkg, vec![Top::Msg(SMsg { name: long.clone(), items: vec![
                MItem::Field(field(Label::None, &long, long.clone(), 1)), MItem::Field(field(Label::None, &format!("{}.{}", pkg, long), format!("{}b", long), 2)), MItem::Field(field(Label::None, &format!("p{}.E", n - 1), "c".into(), 3)),
                MItem::Oneof(SOneof { name: long.clone(), items: vec![OItem::Field(field(Label::None, &format!(".{}.E", pkg), "d".into(), 4))] })] }), Top::Enum(en("E", 1))])]));
        }
    }
    let long = "a".repeat(70_001);
    let mut f = field(Label::Repeated, "int32", format!("b{}", long), u64::MAX);
    f.opts = vec![Opt { name: vec![long.clone()], value: Con::Str(long.clone().into_bytes()), text: vec![format!("\"{}\"", long)] }];
    f.opts.extend((0..300).map(|i| opt(&format!("o{}", i), i)));
    out.push(("names and texts of 70,001 letters".into(), vec![file(&long, vec![Top::Msg(SMsg { name: long.clone(), items: vec![MItem::Field(f), MItem::Field(field(Label::None, &long, "c".into(), 1))] })])]));
    out
}
/// Runs a check on the sources of a size.
fn big(run: &mut Run, f: &dyn Fn(&[String], &[SFile]) -> Result<(), String>) {
    let mut r = Rng::new(run.seed, 999);
    for (what, files) in big_sources(run.thorough) {
        if run.over() { return; }
        let texts = print(&mut r, &files, true);
        run.case(Some(&format!("big {}", what)), &|| format!("{}: {}", what, show(&texts).chars().take(3000).collect::<String>()), || f(&texts, &files).map_err(|e| e.chars().take(2000).collect()));
    }
    run.exhaustive_parts.push("messages nested 20 to 270 deep; 129 to 1030 types, fields, values, oneofs, nested types, rpcs, files, packages; long names".into());
}

// ------------------------------------------------------------------ C10

/// A taken package name leads to the package that has it.
fn check_taken(ctx: &mut Context, files: &[SFile]) -> Result<(), String> {
    let (ms, es, _) = walk(files);
    let mut at: BTreeMap<usize, &str> = BTreeMap::new();
    for (file, full, top) in ms.iter().map(|m| (m.file, m.full.as_str(), m.parent.is_none())).chain(es.iter().map(|e| (e.file, e.full.as_str(), e.parent.is_none()))) { if top { at.insert(file, full); } }
    // Each file may have a package of its own, of the same name as others.
    let mut want: BTreeMap<Option<String>, Vec<PackageRef>> = BTreeMap::new();
    for (i, f) in files.iter().enumerate() {
        let name = if f.package.is_empty() { None } else { Some(f.package.join(".")) };
        match at.get(&i) {
            Some(full) => match ctx.get_type(full).map(|t| t.parent()) { Some(TypeParent::Package(p)) => want.entry(name).or_default().push(p), p => return Err(format!("parent of {} is {:?}", full, p)) },
            // No type leads to this one.
            None => { want.insert(name, vec![]); }
        }
    }
    for (i, f) in files.iter().enumerate() { if !at.contains_key(&i) { want.remove(&if f.package.is_empty() { None } else { Some(f.package.join(".")) }); } }
    for (name, refs) in want {
        let got = ctx.insert_package(Package::new(name.clone()));
        ensure!(matches!(got, Err(p) if refs.contains(&p)), "inserting package {:?} again gives {:?}, it is one of {:?}", name, got, refs);
    }
    Ok(())
}

const SOUP: [&str; 88] = ["syntax", "=", "\"proto3\"", ";", "package", "a", "A", ".", "message", "enum", "service", "rpc", "returns", "stream", "{", "}", "(", ")", "[", "]",
    ",", "option", "optional", "repeated", "int32", "string", "bytes", "map", "<", ">", "oneof", "reserved", "to", "max", "import", "public", "weak", "0", "1", "00", "0x", "0xg",
    "08", "0777", "99999999999999999999", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775808",
    "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "02000000000000000000000", "01777777777777777777777", "-", "+", "-1", "+1", "1.", ".1", "1e5", "1.e", "e5", "1e99999", "-inf", "nan", "inf", "- nan",
    "true", "false", "\"\\x4\"", "\"\\400\"", "\"\\777\"", "\"\\377\"", "\"\\8\"", "\"\\q\"", "\"", "'", "'a\nb'", "\"\u{0}\"", "\\", "\u{feff}", "é", "//", "/*", "*/", "foo", "(a.b).c"];

fn mutate_tokens(r: &mut Rng, toks: &mut Vec<String>) {
    for _ in 0..1 + r.below(3) {
        if toks.is_empty() { return; }
        let i = r.below(toks.len());
        match r.below(7) {
            0 => { toks.remove(i); }
            1 => { let t = toks[i].clone(); toks.insert(i, t) }
            2 => { let j = r.below(toks.len()); toks.swap(i, j) }
            3 | 4 => toks[i] = (*r.pick(&SOUP)).to_string(),
            5 => toks.insert(i, (*r.pick(&SOUP)).to_string()),
            // Numbers and constants specifically: they go through conversions.
            _ => {
                let nums: Vec<usize> = (0..toks.len()).filter(|k| toks[*k].chars().next().map_or(false, |c| c.is_ascii_digit() || c == '"' || c == '\'' || c == '.')).collect();
                if nums.is_empty() { continue; }
                let k = *r.pick(&nums);
                toks[k] = match r.below(8) {
                    0 => (0..1 + r.below(24)).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
                    1 => format!("0x{}", (0..r.below(20)).map(|_| *r.pick(&['0', 'F', 'a', '9', 'g'])).collect::<String>()),
                    2 => format!("0{}", (0..r.below(26)).map(|_| *r.pick(&['0', '7', '1', '8'])).collect::<String>()),
                    3 => format!("\"\\{}\"", (0..r.below(5)).map(|_| *r.pick(&['0', '7', '3', 'x', 'X', 'f', 'n', 'u', '"'])).collect::<String>()),
                    4 => float_text(r),
                    5 => format!("-{}", r.next()),
                    6 => format!("- {}", toks[k]),
                    _ => (*r.pick(&SOUP)).to_string(),
                };
            }
        }
    }
}
fn mutate_text(r: &mut Rng, s: &mut String) {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() { break; }
        let i = r.below(c.len());
        let ch = *r.pick(&['"', '\'', '\\', '{', '}', ';', '.', '0', '9', '-', '+', 'x', 'e', '\n', ' ', '/', '*', 'é', '\u{0}', '\u{feff}', '\u{202e}', '𝄞', '(', ')', '[', ']', '<', ',', '_', 'i']);
        match r.below(5) { 0 => { c.remove(i); } 1 => c.insert(i, ch), 2 => c[i] = ch, 3 => c.truncate(i), _ => { let j = r.below(c.len()); c.swap(i, j) } }
    }
    *s = c.into_iter().collect();
}

pub fn c10(run: &mut Run) {
    big(run, &|t, _| { let c = parse(t).map_err(|e| format!("rejected: {}", e))?; let _ = format!("{:?}", c); Ok(()) });
    let one = |run: &mut Run, files: Vec<String>| {
        let key = files.join("\u{1}");
        run.case(Some(&key), &|| show(&files), || {
            match parse(&files) {
                Ok(c) => { let _ = format!("{:?}", c); }
                Err(e) => { let _ = format!("{} {:?}", e, e); }
            }
            Ok(())
        });
    };
    // Every soup token in every position that takes a constant, a number, a name or a type.
    let slots = [
        "syntax = \"proto3\"; message M { int32 a = @; }",
        "syntax = \"proto3\"; message M { oneof o { int32 a = @; } }",
        "syntax = \"proto3\"; enum E { a = @; }",
        "syntax = \"proto3\"; enum E { a = - @; }",
        "syntax = \"proto3\"; message M { int32 a = 1 [x = @]; }",
        "syntax = \"proto3\"; message M { int32 a = 1 [x = -@]; }",
        "syntax = \"proto3\"; message M { option x = @; }",
        "syntax = \"proto3\"; enum E { a = 1 [x = @]; }",
        "syntax = \"proto3\"; service S { option x = @; }",
        "syntax = \"proto3\"; option x = @;",
        "syntax = \"proto3\"; message M { @ a = 1; }",
        "syntax = \"proto3\"; message M { repeated @ a = 1; }",
        "syntax = \"proto3\"; message M { @ }",
        "syntax = \"proto3\"; message @ { }",
        "syntax = \"proto3\"; package @;",
        "syntax = \"proto3\"; message M { } service S { rpc r(@) returns (M); }",
        "syntax = \"proto3\"; message M { } service S { rpc r(M) returns (stream @) { option @ = 1; } }",
        "syntax = \"proto3\"; service S { @ }",
        "syntax = \"proto3\"; service S { } message M { S x = 1; oneof o { @ } }",
        "syntax = \"proto3\"; enum E { @ }",
        "syntax = \"proto3\"; message M { reserved @; }",
        "syntax = \"proto3\"; message M { map<string, @> x = 1; }",
        "syntax = @;", "@", "syntax = \"proto3\"; @", "\u{feff}@",
    ];
    for s in slots.iter() {
        for t in SOUP.iter() { one(run, vec![s.replace('@', t)]); }
        for b in 0..=255u32 {
            for f in [format!("\"\\{:o}\"", b), format!("\"\\x{:x}\"", b), format!("'{}'", char::from_u32(b).unwrap())] { if s.contains("x = @") { one(run, vec![s.replace('@', &f)]); } }
        }
    }
    for o in 0..512u32 { one(run, vec![format!("syntax = \"proto3\"; message M {{ option x = \"\\{:03o}\"; }}", o)]); }
    for a in SOUP.iter() { for b in SOUP.iter() { one(run, vec![format!("syntax = \"proto3\"; message M {{ option x = {} {}; }}", a, b)]); } }
    // What cannot be represented or is not supported is an error.
    let refused = |run: &mut Run, what: &str, text: String| {
        let files = vec![text];
        let key = files.join("\u{1}");
        run.case(Some(&key), &|| show(&files), || {
            match parse(&files) {
                Ok(_) => Err(format!("{} was accepted, should be an error", what)),
                Err(e) => { let _ = format!("{} {:?}", e, e); Ok(()) }
            }
        });
    };
    let fill = |s: &str, t: &str| format!("syntax = \"proto3\"; {}", s.replace('@', t));
    for s in ["message M { option x = @; }", "message M { int32 a = 1 [x = @]; }", "message M { oneof o { option y = 1; option x = @; int32 a = 1; } }", "enum E { a = 1 [y = 'a', x = @]; }",
        "enum E { option x = @; a = 1; }", "service S { option x = @; }", "message M { } service S { rpc r(M) returns (M) { option x = @; } }", "message A { message B { int32 c = 1 [x = @]; } }"] {
        for o in 256..512u32 { for (p, q) in [("", ""), ("a\\0", "b")] { refused(run, "an octal escape above 255", fill(s, &format!("\"{}\\{:o}{}\"", p, o, q))); } }
        for n in ["9223372036854775808", "+9223372036854775808", "-9223372036854775809", "- 9223372036854775809", "18446744073709551616", "0x8000000000000000", "-0x8000000000000001", "01000000000000000000000", "-01000000000000000000001",
            "99999999999999999999999999999999999999999", "0x10000000000000000", "02000000000000000000001", "-18446744073709551615", "340282366920938463463374607431768211457"] {
            refused(run, "an integer outside 64 bits", fill(s, n));
            refused(run, "an integer outside 64 bits", fill("enum E { z = 0; a = @; }", n));
            refused(run, "an integer outside 64 bits", fill("message M { enum E { a = @ [x = 1]; } }", n));
        }
    }
    for s in ["message M { int32 a = @; }", "message M { repeated A a = @ [packed = true]; } message A { }", "message M { int32 b = 1; oneof o { int32 a = @; } }", "message M { message A { string a = @ [x = 'y']; } }"] {
        for n in ["18446744073709551616", "0x10000000000000000", "02000000000000000000000", "18446744073709551617", "99999999999999999999999999999999999", "0x100000000000000001", "04000000000000000000001", "-1", "+1", "1.0", "''", "true", ""] {
            refused(run, "a number that is none of a field", fill(s, n));
        }
    }
    for m in ["map<string, int32> m = 1;", "map < int32 , M > m = 0x7 [x = 1];", "map<bool,.a.B>m=1;", "group G = 1 { }", "required int32 a = 1;", "extensions 100 to 199;", "extend M { }", "int32 a = 1 [default = ];", "int32 a;", "repeated optional int32 a = 1;",
        "oneof o { repeated int32 a = 1; }", "oneof o { map<string, int32> m = 1; }", "rpc r(M) returns (M);", "import 'a';", "package a;"] {
        for s in ["message M { @ }", "message M { int32 b = 2; @ }", "message M { @ int32 b = 2; reserved 3; ; }", "message A { message M { enum E { Z = 0; } @ } }", "message A { } message M { oneof o { int32 c = 9; } @ } enum E { Z = 0; }"] {
            refused(run, "an unsupported or misplaced construct", fill(s, m));
        }
    }
    for t in ["", "message M { }", "syntax = \"proto2\"; message M { }", "syntax = \"proto3\" message M { }", "syntax = \"proto3\"; extend M { }", "syntax = \"proto3\"; message M { } }", "syntax = \"proto3\"; message M {", "syntax = \"proto3\"; message M { } x",
        "syntax = \"proto3\"; /* message M { }", "syntax = \"proto3\"; syntax = \"proto3\";", "package a; syntax = \"proto3\";", "syntax = \"proto3\"; enum E { A; }", "syntax = \"proto3\"; service S { rpc r(M); } message M { }", "syntax = \"proto3\"; import a;", "syntax = \"proto3\"; package ;"] {
        refused(run, "a text that is no proto3 file", t.to_string());
    }
    run.exhaustive_parts.push("octal escapes 256 to 511 in eight places".into());
    run.exhaustive_parts.push("each token of the pool in each slot of the pool; all 1- to 3-digit octal escapes".into());
    let mut r = Rng::new(run.seed, 10);
    for _ in 0..run.n(12000) {
        if run.over() { break; }
        let c = Cfg { conflicts: r.chance(1, 3), options: true, services: true, dangling: r.chance(1, 2), miskind: r.chance(1, 2), dup_members: r.chance(1, 3), max_files: 2 };
        let files = gen_files(&mut r, &c);
        let texts: Vec<String> = files.iter().map(|f| {
            let mut t = tokens(f);
            let plain = r.chance(1, 3);
            if r.chance(3, 4) { mutate_tokens(&mut r, &mut t) }
            let mut s = layout(&mut r, &t, plain);
            if r.chance(1, 4) { mutate_text(&mut r, &mut s) }
            s
        }).collect();
        one(run, texts);
    }
    for _ in 0..run.n(8000) {
        if run.over() { break; }
        let n = r.below(25);
        let mut t: Vec<String> = if r.chance(2, 3) { ["syntax", "=", "\"proto3\"", ";"].iter().map(|s| s.to_string()).collect() } else { vec![] };
        for _ in 0..n { t.push((*r.pick(&SOUP)).to_string()); }
        let s = if r.chance(1, 2) { t.join(" ") } else { layout(&mut r, &t, false) };
        one(run, vec![s]);
    }
}

// ------------------------------------------------------------------ C11

fn permute(r: &mut Rng, files: &mut Vec<SFile>) {
    fn msg(r: &mut Rng, m: &mut SMsg) {
        r.shuffle(&mut m.items);
        for i in &mut m.items { if let MItem::Msg(x) = i { msg(r, x) } }
    }
    r.shuffle(files);
    for f in files.iter_mut() {
        r.shuffle(&mut f.tops);
        for t in &mut f.tops { match t { Top::Msg(m) => msg(r, m), Top::Service(s) => r.shuffle(&mut s.items), _ => {} } }
    }
}
fn check_refs(ctx: &Context, files: &[SFile]) -> Result<usize, String> {
    let ds = decls(files);
    let (ms, _, ss) = walk(files);
    let mut n = 0;
    for m in &ms {
        let info = get_msg(ctx, &m.full)?;
        for (f, _) in fields(m.m) {
            if matches!(f.ty, STy::Builtin(_)) { continue; }
            n += 1;
            let want = expect_ty(&ds, &m.full, &f.ty).ok_or("generator")?;
            let fi = info.get_field(f.number).ok_or_else(|| format!("{} has no field {}", m.full, f.number))?;
            let got = vt_name(ctx, &fi.field_type);
            ensure!(got == want, "field {} of {} with type '{}' refers to {}, should be {}", f.name, m.full, ty_text(&f.ty), got, want);
        }
    }
    for s in &ss {
        let info = get_svc(ctx, &s.full)?;
        for x in rpcs(s.s) {
            let ri = info.rpc_by_name(&x.name).ok_or_else(|| format!("{} has no rpc {}", s.full, x.name))?;
            for (what, arg, t) in [("input", &ri.input, &x.input.1), ("output", &ri.output, &x.output.1)] {
                n += 1;
                let want = expect_ty(&ds, &s.full, t).ok_or("generator")?;
                let got = format!("message {}", ctx.resolve_message(arg.message).full_name);
                ensure!(got == want, "{} '{}' of rpc {} in {} refers to {}, should be {}", what, ty_text(t), x.name, s.full, got, want);
            }
        }
    }
    Ok(n)
}
pub fn c11(run: &mut Run) {
    big(run, &|t, f| { let ctx = parse(t).map_err(|e| format!("rejected: {}", e))?; check_refs(&ctx, f).map(|_| ()) });
    // Shadowing, exhaustively: which of the declarations of one name exist, and each way to write it.
    let places = ["", "p", "p.q", "p.q.M", "p.q.M.N"];
    for mask in 0..576u32 {
        let (mut rest, mut pl) = (mask, [0u32; 5]);
        for i in 0..5 { let n = if i < 3 { 4 } else { 3 }; pl[i] = rest % n; rest /= n; }
        for (refname, kind) in [("A", 0), (".A", 0), ("p.A", 0), ("q.A", 0), ("M.A", 0), ("N.A", 0), ("q.M.A", 0), (".p.q.A", 0), (".p.A", 0), ("M.N.A", 0), (".q.A", 0), (".M.A", 0), ("A", 1), ("p.A", 1), ("M.A", 1), (".p.q.A", 1)] {
            let a = |i: usize| ["", "message A { }", "enum A { Z = 0; }", "service A { }"][pl[i] as usize];
            let user = format!("{} x = 1;", refname);
            let files = vec![
                format!("syntax = \"proto3\"; {}", a(0)),
                format!("syntax = \"proto3\"; package p; {}", a(1)),
                format!("syntax = \"proto3\"; package p.q; {} message M {{ {} message N {{ {} {} }} {} }} {}", a(2), a(3), a(4), if kind == 0 { &user } else { "" }, "int32 z = 1;",
                    if kind == 1 { format!("service S {{ rpc r({}) returns (M); }}", refname) } else { String::new() }),
            ];
            let scope = if kind == 0 { "p.q.M.N" } else { "p.q.S" };
            let ds: Vec<(String, Kind)> = (0..5).filter(|i| pl[*i] != 0).map(|i| (join(places[i], "A"), [Kind::Msg, Kind::Enum, Kind::Service][pl[i] as usize - 1])).collect();
            let root = refname.starts_with('.');
            let want = resolve(&ds, scope, &STy::Named { root, parts: refname.trim_start_matches('.').split('.').map(String::from).collect() });
            for rev in [false, true] {
                let mut fs = files.clone();
                if rev { fs.reverse(); }
                let key = fs.join("\u{1}");
                run.case(Some(&key), &|| show(&fs), || {
                    let got = match parse(&fs) {
                        Err(ParseError::TypeNotFound { .. }) => None,
                        Err(ParseError::InvalidTypeKind { actual, .. }) => Some(format!("something of kind {:?}", actual)),
                        Err(e) => return Err(format!("unexpected error {:?}", e)),
                        Ok(ctx) => Some(if kind == 0 {
                            vt_name(&ctx, &get_msg(&ctx, "p.q.M.N")?.get_field(1).ok_or("no field")?.field_type)
                        } else {
                            format!("message {}", ctx.resolve_message(get_svc(&ctx, "p.q.S")?.rpc_by_name("r").ok_or("no rpc")?.input.message).full_name)
                        }),
                    };
                    let want = want.as_ref().map(|w| match (w.1, kind) {
                        (Kind::Msg, _) => format!("message {}", w.0),
                        (Kind::Enum, 0) => format!("enum {}", w.0),
                        (Kind::Enum, _) => "something of kind Enum".to_string(),
                        (Kind::Service, _) => "something of kind Service".to_string(),
                    });
                    ensure!(got == want, "type name '{}' used in {} refers to {:?}, should be {:?}", refname, scope, got, want);
                    Ok(())
                });
            }
        }
    }
    run.exhaustive_parts.push("all 576 choices of a message, an enum, a service or nothing of one name in five nested scopes, with 16 ways to refer to it".into());
    let mut r = Rng::new(run.seed, 11);
    for _ in 0..run.n(10000) {
        if run.over() { break; }
        let mut files = gen_files(&mut r, &base());
        let plain = r.chance(2, 3);
        for round in 0..2 {
            if round == 1 { permute(&mut r, &mut files); }
            let texts = print(&mut r, &files, plain);
            let key = texts.join("\u{1}");
            run.case(Some(&key), &|| show(&texts), || {
                let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
                check_refs(&ctx, &files).map(|_| ())
            });
        }
    }
}

// ------------------------------------------------------------------ C12

/// Lists inside the debug form of a package, which has no accessors: the types and the services.
fn pkg_lists(ctx: &Context, p: PackageRef) -> Option<(Vec<String>, Vec<String>)> {
    let d = format!("{:?}", ctx.resolve_package(p));
    let list = |key: &str| -> Option<Vec<String>> {
        let at = d.rfind(&format!(" {}: [", key))? + key.len() + 4;
        let end = d[at..].find(']')? + at;
        let body = d[at..end].trim();
        Some(if body.is_empty() { vec![] } else { body.split(", ").map(|s| s.trim().to_string()).collect() })
    };
    Some((list("types")?, list("services")?))
}
fn tref(t: &TypeInfo) -> TypeRef { match t { TypeInfo::Message(m) => TypeRef::Message(m.self_ref), TypeInfo::Enum(e) => TypeRef::Enum(e.self_ref) } }
fn tref_name(ctx: &Context, t: &TypeRef) -> String {
    match t { TypeRef::Message(m) => ctx.resolve_message(*m).full_name.clone(), TypeRef::Enum(e) => ctx.resolve_enum(*e).full_name.clone() }
}

fn check_intact(ctx: &Context, files: &[SFile]) -> Result<(), String> {
    let (ms, es, ss) = walk(files);
    // File index -> package reference; package reference (debug) -> files.
    let mut pkg_of: BTreeMap<usize, PackageRef> = BTreeMap::new();
    let mut top_types: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    let mut top_svcs: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    let mut children: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let all: Vec<(&str, &str, usize, &Option<String>, bool)> = ms.iter().map(|m| (m.full.as_str(), m.m.name.as_str(), m.file, &m.parent, true))
        .chain(es.iter().map(|e| (e.full.as_str(), e.e.name.as_str(), e.file, &e.parent, false))).collect();
    for (full, name, file, parent, is_msg) in &all {
        let t = ctx.get_type(full).ok_or_else(|| format!("type {} is not found by its full name", full))?;
        ensure!(matches!(t, TypeInfo::Message(_)) == *is_msg, "type {} has the wrong kind", full);
        ensure!(t.full_name() == *full && t.name() == *name, "type {} has name {:?} and full name {:?}", full, t.name(), t.full_name());
        match t {
            TypeInfo::Message(m) => ensure!(std::ptr::eq(ctx.resolve_message(m.self_ref), m), "self reference of {} leads to {}", full, ctx.resolve_message(m.self_ref).full_name),
            TypeInfo::Enum(e) => ensure!(std::ptr::eq(ctx.resolve_enum(e.self_ref), e), "self reference of {} leads to {}", full, ctx.resolve_enum(e.self_ref).full_name),
        }
        match (t.parent(), parent) {
            (TypeParent::Message(m), Some(p)) => {
                ensure!(ctx.resolve_message(m).full_name == *p, "parent of {} is {}", full, ctx.resolve_message(m).full_name);
                children.entry(p.clone()).or_default().push(full.to_string());
            }
            (TypeParent::Package(p), None) => {
                let e = *pkg_of.entry(*file).or_insert(p);
                ensure!(e == p, "{}: items of one file are in different packages", full);
                top_types.entry(*file).or_default().insert(format!("{:?}", tref(t)));
            }
            (p, _) => return Err(format!("parent of {} is {:?}", full, p)),
        }
    }
    for s in &ss {
        let sv = get_svc(ctx, &s.full)?;
        ensure!(sv.name == s.s.name && sv.full_name == s.full, "service {} has name {:?} and full name {:?}", s.full, sv.name, sv.full_name);
        let e = *pkg_of.entry(s.file).or_insert(sv.parent);
        ensure!(e == sv.parent, "service {} is in a different package than its file", s.full);
        top_svcs.entry(s.file).or_default().insert(format!("{:?}", sv.self_ref).chars().filter(|c| c.is_ascii_digit()).collect());
        for x in &sv.rpcs {
            for a in [&x.input, &x.output] {
                let m = ctx.resolve_message(a.message);
                ensure!(std::ptr::eq(get_msg(ctx, &m.full_name)?, m), "rpc argument of {} is no item of the context", s.full);
            }
        }
    }
    let refs: BTreeSet<String> = ss.iter().map(|s| format!("{:?}", ctx.get_service(&s.full).unwrap().self_ref)).collect();
    ensure!(refs.len() == ss.len(), "two services have the same self reference");
    let refs: BTreeSet<String> = all.iter().map(|t| format!("{:?}", tref(ctx.get_type(t.0).unwrap()))).collect();
    ensure!(refs.len() == all.len(), "two types have the same self reference");
    // Packages: the name is that of the file, and the children are those of the files in it.
    let mut by_pkg: BTreeMap<String, (PackageRef, Vec<usize>)> = BTreeMap::new();
    for (f, p) in &pkg_of { by_pkg.entry(format!("{:?}", p)).or_insert((*p, vec![])).1.push(*f); }
    for (_, (p, fs)) in &by_pkg {
        ensure!(fs.iter().all(|f| files[*f].package == files[fs[0]].package), "files of different packages share a package");
        let d = format!("{:?}", ctx.resolve_package(*p));
        let want = files[fs[0]].package.join(".");
        if d.contains("name: Some(") || d.contains("name: None") {
            let want_d = if want.is_empty() { "name: None".to_string() } else { format!("name: Some({:?})", want) };
            ensure!(d.contains(&want_d), "package of {:?} is {}", want, d);
        }
        if let Some((types, services)) = pkg_lists(ctx, *p) {
            let want: BTreeSet<String> = fs.iter().flat_map(|f| top_types.get(f).cloned().unwrap_or_default()).collect();
            let got: BTreeSet<String> = types.iter().cloned().collect();
            if types.iter().all(|t| t.contains("Ref(")) {
                ensure!(got == want && types.len() == want.len(), "package {} lists types {:?}, should list {:?}", d, types, want);
            }
            let want: BTreeSet<String> = fs.iter().flat_map(|f| top_svcs.get(f).cloned().unwrap_or_default()).collect();
            let got: BTreeSet<String> = services.iter().map(|s| s.chars().filter(|c| c.is_ascii_digit()).collect()).collect();
            ensure!(got == want && services.len() == want.len(), "package {} lists services {:?}, should list {:?}", d, services, want);
        }
    }
    for m in &ms {
        let info = get_msg(ctx, &m.full)?;
        let mut got: Vec<String> = info.inner_types.iter().map(|t| tref_name(ctx, t)).collect();
        let mut want = children.get(&m.full).cloned().unwrap_or_default();
        got.sort();
        want.sort();
        ensure!(got == want, "{} lists inner types {:?}, should list {:?}", m.full, got, want);
        for (i, o) in info.oneofs.iter().enumerate() {
            let by_ref = info.get_oneof(o.self_ref).ok_or_else(|| format!("oneof {} of {} is not found by its reference", o.name, m.full))?;
            ensure!(std::ptr::eq(by_ref, o), "self reference of oneof {} (#{}) of {} leads to {}", o.name, i, m.full, by_ref.name);
            let got: BTreeSet<u64> = o.fields.iter().cloned().collect();
            let want: BTreeSet<u64> = info.iter_fields().filter(|f| f.oneof == Some(o.self_ref)).map(|f| f.number).collect();
            ensure!(got == want && o.fields.len() == want.len(), "oneof {} of {} lists {:?}, fields {:?} name it", o.name, m.full, o.fields, want);
        }
        for f in info.iter_fields() {
            if let Some(o) = f.oneof { ensure!(info.get_oneof(o).is_some(), "field {} of {} names a missing oneof", f.name, m.full); }
            let _ = vt_name(ctx, &f.field_type);
            match &f.field_type {
                ValueType::Message(x) => { let t = ctx.resolve_message(*x); ensure!(std::ptr::eq(get_msg(ctx, &t.full_name)?, t), "type of {}.{} is no item of the context", m.full, f.name) }
                ValueType::Enum(x) => { let t = ctx.resolve_enum(*x); ensure!(std::ptr::eq(get_enum(ctx, &t.full_name)?, t), "type of {}.{} is no item of the context", m.full, f.name) }
                _ => {}
            }
        }
        let want: BTreeMap<u64, Option<&str>> = fields(m.m).iter().map(|(f, o)| (f.number, o.map(|o| o.name.as_str()))).collect();
        let got: BTreeMap<u64, Option<&str>> = info.iter_fields().map(|f| (f.number, f.oneof.and_then(|o| info.get_oneof(o)).map(|o| o.name.as_str()))).collect();
        let dup = fields(m.m).len() != want.len();
        ensure!(dup || got == want, "oneof membership in {} is {:?}, should be {:?}", m.full, got, want);
    }
    Ok(())
}
pub fn c12(run: &mut Run) {
    big(run, &|t, f| { let mut ctx = parse(t).map_err(|e| format!("rejected: {}", e))?; check_intact(&ctx, f)?; check_taken(&mut ctx, f) });
    let mut r = Rng::new(run.seed, 12);
    for _ in 0..run.n(15000) {
        if run.over() { break; }
        let c = Cfg { dup_members: r.chance(1, 4), max_files: if r.chance(1, 8) { 24 } else { 4 }, ..base() };
        let files = gen_files(&mut r, &c);
        let texts = print(&mut r, &files, true);
        let key = texts.join("\u{1}");
        run.case(Some(&key), &|| show(&texts), || {
            let mut ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
            check_intact(&ctx, &files)?;
            check_taken(&mut ctx, &files)
        });
    }
}

// ------------------------------------------------------------------ C13

fn check_verdict(texts: &[String], files: &[SFile]) -> Result<(), String> {
    let ds = decls(files);
    let mut seen = BTreeSet::new();
    let dups: BTreeSet<&str> = ds.iter().filter(|d| !seen.insert(d.0.as_str())).map(|d| d.0.as_str()).collect();
    let (ms, _, ss) = walk(files);
    let (mut unknown, mut wrong) = (BTreeSet::new(), BTreeSet::new());
    for m in &ms {
        for (f, _) in fields(m.m) {
            if matches!(f.ty, STy::Builtin(_)) { continue; }
            let n = ty_text(&f.ty).trim_start_matches('.').to_string();
            match resolve(&ds, &m.full, &f.ty) { None => { unknown.insert(n); } Some((_, Kind::Service)) => { wrong.insert(n); } _ => {} }
        }
    }
    for s in &ss {
        for x in rpcs(s.s) {
            for t in [&x.input.1, &x.output.1] {
                let n = ty_text(t).trim_start_matches('.').to_string();
                match resolve(&ds, &s.full, t) { None => { unknown.insert(n); } Some((_, Kind::Msg)) => {} _ => { wrong.insert(n); } }
            }
        }
    }
    match parse(texts) {
        Ok(_) => ensure!(dups.is_empty() && unknown.is_empty() && wrong.is_empty(), "accepted, with duplicates {:?}, unknown {:?}, of the wrong kind {:?}", dups, unknown, wrong),
        Err(ParseError::DuplicateType { name }) => ensure!(dups.contains(name.as_str()), "reports duplicate type {:?}, duplicates are {:?}", name, dups),
        Err(ParseError::TypeNotFound { name, .. }) => ensure!(dups.is_empty() && unknown.contains(name.trim_start_matches('.')), "reports unknown type {:?}; duplicates {:?}, unknown {:?}, of the wrong kind {:?}", name, dups, unknown, wrong),
        Err(ParseError::InvalidTypeKind { type_name, .. }) => ensure!(dups.is_empty() && wrong.contains(type_name.trim_start_matches('.')), "reports type {:?} of the wrong kind; duplicates {:?}, unknown {:?}, of the wrong kind {:?}", type_name, dups, unknown, wrong),
        Err(e) => return Err(format!("unexpected error {}", e)),
    }
    Ok(())
}
pub fn c13(run: &mut Run) {
    big(run, &|t, f| check_verdict(t, f));
    let mut r = Rng::new(run.seed, 13);
    // Each pair of kinds in each pair of places, with equal and with different names.
    let decl = |k: usize, n: &str| match k { 0 => Top::Msg(SMsg { name: n.into(), items: vec![] }), 1 => Top::Enum(SEnum { name: n.into(), items: vec![] }), _ => Top::Service(SService { name: n.into(), items: vec![] }) };
    for k1 in 0..3 { for k2 in 0..3 { for same in [true, false] { for place in 0..5 {
        let n2 = if same { "A" } else { "B" };
        let wrap = |t: Top| match t { Top::Msg(m) => MItem::Msg(m), Top::Enum(e) => MItem::Enum(e), _ => MItem::Empty };
        let f = |package: Vec<&str>, tops: Vec<Top>| SFile { package: package.into_iter().map(String::from).collect(), pkg_at: 0, tops };
        let files = match place {
            0 => vec![f(vec![], vec![decl(k1, "A"), decl(k2, n2)])],
            1 => vec![f(vec!["p"], vec![decl(k1, "A")]), f(vec!["p"], vec![decl(k2, n2)])],
            2 => vec![f(vec!["p"], vec![decl(k1, "A")]), f(vec!["q"], vec![decl(k2, n2)])],
            3 => vec![f(vec![], vec![Top::Msg(SMsg { name: "M".into(), items: vec![wrap(decl(k1, "A")), wrap(decl(k2, n2))] })])],
            // The package of one file is the message of the other.
            _ => vec![f(vec!["p"], vec![Top::Msg(SMsg { name: "M".into(), items: vec![wrap(decl(k1, "A"))] })]), f(vec!["p", "M"], vec![decl(k2, n2)])],
        };
        let texts = print(&mut r, &files, true);
        let key = texts.join("\u{1}");
        run.case(Some(&key), &|| show(&texts), || check_verdict(&texts, &files));
    } } } }
    run.exhaustive_parts.push("each pair of item kinds in five arrangements, with equal and different names".into());
    for _ in 0..run.n(15000) {
        if run.over() { break; }
        let c = Cfg { conflicts: r.chance(1, 3), dangling: r.chance(1, 2), miskind: r.chance(1, 2), ..base() };
        let files = gen_files(&mut r, &c);
        let texts = print(&mut r, &files, true);
        let key = texts.join("\u{1}");
        run.case(Some(&key), &|| show(&texts), || check_verdict(&texts, &files));
    }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug)]
enum Par { Pkg(usize), Msg(usize) }
#[derive(Clone, Debug)]
struct TModel { name: String, full: String, msg: bool, par: Par, nfields: usize, made: Option<(TypeParent, Option<(MessageRef, EnumRef)>)> }

fn some_options(k: u64) -> Vec<ProtoOption> {
    let all = [("packed", Constant::Bool(false)), ("(a.b).c", Constant::Integer(-7)), ("packed", Constant::Ident("x.y".into())), ("", Constant::Float(1.5)), ("deprecated", Constant::Bool(true)), ("s", Constant::String(vec![0u8, 255, 34].into()))];
    all.iter().cycle().skip(k as usize % 7).take((k % 4) as usize).map(|(n, v)| ProtoOption { name: n.to_string(), value: v.clone() }).collect()
}
fn some_type(k: u64, refs: Option<(MessageRef, EnumRef)>) -> ValueType {
    match (k % 6, refs) { (0, _) => ValueType::Bool, (1, _) => ValueType::String, (2, Some((m, _))) => ValueType::Message(m), (3, Some((_, e))) => ValueType::Enum(e), (4, _) => ValueType::SFixed64, _ => ValueType::Int32 }
}
fn some_mult(k: u64) -> Multiplicity { match k % 4 { 0 => Multiplicity::Single, 1 => Multiplicity::Optional, 2 => Multiplicity::Repeated, _ => Multiplicity::RepeatedPacked } }
fn make_type(name: &str, parent: TypeParent, msg: bool, nf: usize, noise: Option<(MessageRef, EnumRef)>) -> TypeInfo {
    if msg {
        let mut m = MessageInfo::new(name.into(), parent);
        let oo = if nf > 1 { let mut o = Oneof::new("oo".into()); o.options = some_options(nf as u64); Some(m.add_oneof(o).unwrap()) } else { None };
        for i in (0..nf as u64).rev() {
            let mut f = MessageField::new(format!("f{}", i), i * 3 + 1, some_type(i + nf as u64, noise));
            f.multiplicity = some_mult(i + 1);
            f.options = some_options(i * 5 + nf as u64);
            if i % 2 == 1 { f.oneof = oo; }
            m.add_field(f).unwrap();
        }
        // What a caller may leave in the public fields is replaced.
        if let Some((mr, _)) = noise { m.full_name = "x.y".into(); m.self_ref = mr; }
        TypeInfo::Message(m)
    } else {
        let mut e = EnumInfo::new(name.into(), parent);
        for i in 0..nf { let mut f = EnumField::new(format!("f{}", i), i as i64 - 1); f.options = some_options(i as u64 * 5 + nf as u64); e.add_field(f).unwrap(); }
        if let Some((_, er)) = noise { e.full_name = "A".into(); e.self_ref = er; }
        TypeInfo::Enum(e)
    }
}
struct Hist { pkgs: Vec<Option<String>>, prefs: Vec<PackageRef>, types: Vec<TModel>, trefs: Vec<TypeRef>, services: Vec<String> }

impl Hist {
    fn check(&self, ctx: &Context) -> Result<(), String> {
        for (i, p) in self.prefs.iter().enumerate() {
            let d = format!("{:?}", ctx.resolve_package(*p));
            let want = format!("name: {:?}", self.pkgs[i]);
            if d.contains("name: ") { ensure!(d.contains(&want), "package {:?} resolves to {}", p, d); }
            if d.contains("self_ref: ") { ensure!(d.contains(&format!("self_ref: {:?}", p)), "self reference of package {:?} is wrong: {}", p, d); }
            if let Some((types, _)) = pkg_lists(ctx, *p) {
                let want: Vec<String> = self.types.iter().zip(&self.trefs).filter(|(t, _)| matches!(t.par, Par::Pkg(k) if k == i)).map(|(_, r)| format!("{:?}", r)).collect();
                let (a, b): (BTreeSet<_>, BTreeSet<_>) = (types.iter().cloned().collect(), want.iter().cloned().collect());
                if types.iter().all(|t| t.contains("Ref(")) { ensure!(a == b && types.len() == want.len(), "package {} lists {:?}, should list {:?}", d, types, want); }
            }
        }
        for (i, t) in self.types.iter().enumerate() {
            let ti = ctx.get_type(&t.full).ok_or_else(|| format!("{} is not found", t.full))?;
            ensure!(tref(ti) == self.trefs[i], "{} is found with reference {:?}, was inserted as {:?}", t.full, tref(ti), self.trefs[i]);
            ensure!(ti.name() == t.name && ti.full_name() == t.full, "{} has name {} and full name {}", t.full, ti.name(), ti.full_name());
            match (ti.parent(), &t.par) {
                (TypeParent::Package(p), Par::Pkg(k)) => ensure!(p == self.prefs[*k], "{} has parent {:?}", t.full, p),
                (TypeParent::Message(m), Par::Msg(k)) => ensure!(TypeRef::Message(m) == self.trefs[*k], "{} has parent {:?}", t.full, m),
                (p, _) => return Err(format!("{} has parent {:?}", t.full, p)),
            }
            match (&self.trefs[i], ti) {
                (TypeRef::Message(m), TypeInfo::Message(info)) => {
                    ensure!(t.msg && std::ptr::eq(ctx.resolve_message(*m), info), "reference of {} resolves to {}", t.full, ctx.resolve_message(*m).full_name);
                    ensure!(ctx.get_message(&t.full).map_or(false, |x| std::ptr::eq(x, info)), "get_message does not find {}", t.full);
                    ensure!(info.iter_fields().count() == t.nfields, "{} has {} fields, should have {}", t.full, info.iter_fields().count(), t.nfields);
                    let want: BTreeSet<String> = self.types.iter().zip(&self.trefs).filter(|(x, _)| matches!(x.par, Par::Msg(k) if k == i)).map(|(_, r)| format!("{:?}", r)).collect();
                    let got: BTreeSet<String> = info.inner_types.iter().map(|r| format!("{:?}", r)).collect();
                    ensure!(got == want && info.inner_types.len() == want.len(), "{} lists {:?}, should list {:?}", t.full, got, want);
                }
                (TypeRef::Enum(e), TypeInfo::Enum(info)) => {
                    ensure!(!t.msg && std::ptr::eq(ctx.resolve_enum(*e), info), "reference of {} resolves to {}", t.full, ctx.resolve_enum(*e).full_name);
                    ensure!(ctx.get_message(&t.full).is_none(), "get_message finds enum {}", t.full);
                    for k in 0..t.nfields { ensure!(info.get_field_by_value(k as i64 - 1).is_some(), "{} lost a field", t.full); }
                }
                (r, _) => return Err(format!("{} has the wrong kind for {:?}", t.full, r)),
            }
            // All of what was inserted is there, and nothing else.
            if let Some((parent, noise)) = t.made {
                let mut want = make_type(&t.name, parent, t.msg, t.nfields, noise);
                match (&mut want, ti, self.trefs[i]) {
                    (TypeInfo::Message(w), TypeInfo::Message(g), TypeRef::Message(m)) => { w.full_name = t.full.clone(); w.self_ref = m; w.inner_types = g.inner_types.clone(); }
                    (TypeInfo::Enum(w), _, TypeRef::Enum(e)) => { w.full_name = t.full.clone(); w.self_ref = e; }
                    _ => {}
                }
                ensure!(*ti == want, "{} became {:?}, was inserted as {:?}", t.full, ti, want);
            }
        }
        for s in &self.services { let sv = get_svc(ctx, s)?; ensure!(sv.full_name == *s, "service {} became {}", s, sv.full_name); }
        for n in ["", "zz", "A.zz", ".A", "A."] {
            if !self.types.iter().any(|t| t.full == n) { ensure!(ctx.get_type(n).is_none(), "{:?} is found", n); }
        }
        Ok(())
    }
}
const C14_SOURCES: [&[&str]; 4] = [
    &[],
    &["syntax = \"proto3\"; message A { message B { enum C { x = 0; } } } enum E { y = 1; } service S { rpc r(A) returns (A); }"],
    &["syntax = \"proto3\"; package p; message A { A a = 1; }", "syntax = \"proto3\"; package q; message A { } service S { }"],
    &["syntax = \"proto3\"; package p; enum A { z = 5; }", "syntax = \"proto3\"; package p; message B { message A { } }", "syntax = \"proto3\"; message p { }"],
];
pub fn c14(run: &mut Run) {
    // Many insertions: packages, siblings, nested.
    for n in [70usize, 300, 1100].into_iter().chain(dict::sizes(6, 3000)) {
        run.case(Some(&format!("many {}", n)), &|| format!("{} packages, {} messages and enums in one package, and {} messages each in the one before", n, n, n), || {
            let mut ctx = Context::new();
            let mut h = Hist { pkgs: vec![], prefs: vec![], types: vec![], trefs: vec![], services: vec![] };
            for i in 0..n {
                let name = if i == 0 { None } else { Some(format!("p{}", i)) };
                h.prefs.push(ctx.insert_package(Package::new(name.clone())).map_err(|_| "package is rejected")?);
                h.pkgs.push(name);
            }
            let ins = |ctx: &mut Context, h: &mut Hist, par: Par, name: String, msg: bool, again: bool| -> Result<(), String> {
                let (parent, full) = match &par {
                    Par::Pkg(k) => (TypeParent::Package(h.prefs[*k]), match &h.pkgs[*k] { Some(p) => format!("{}.{}", p, name), None => name.clone() }),
                    Par::Msg(k) => (match h.trefs[*k] { TypeRef::Message(m) => TypeParent::Message(m), _ => return Err("model".into()) }, format!("{}.{}", h.types[*k].full, name)),
                };
                let got = match make_type(&name, parent, msg, 1, None) { TypeInfo::Message(m) => ctx.insert_message(m).map(TypeRef::Message), TypeInfo::Enum(e) => ctx.insert_enum(e).map(TypeRef::Enum) };
                if again { return if got.is_err() { Ok(()) } else { Err(format!("a second {} is inserted", full)) }; }
                h.trefs.push(got.map_err(|e| format!("{} is rejected: {:?}", full, e))?);
                h.types.push(TModel { name, full, msg, par, nfields: 1, made: Some((parent, None)) });
                Ok(())
            };
            for i in 0..n { ins(&mut ctx, &mut h, Par::Pkg(i % 3), format!("T{}", i), i % 4 != 0, false)?; }
            let first = h.types.len();
            for i in 0..n.min(300) { let par = if i == 0 { Par::Pkg(n - 1) } else { Par::Msg(first + i - 1) }; ins(&mut ctx, &mut h, par, "M".into(), true, false)?; }
            for i in [0, 1, n / 2, n - 1] { ins(&mut ctx, &mut h, Par::Pkg(i % 3), format!("T{}", i), i % 2 == 0, true)?; ensure!(ctx.insert_package(Package::new(h.pkgs[i].clone())) == Err(h.prefs[i]), "a second package {:?} is inserted", h.pkgs[i]); }
            if n <= 300 { h.check(&ctx) } else { for (t, r) in h.types.iter().zip(&h.trefs) { ensure!(ctx.get_type(&t.full).map(tref) == Some(*r), "{} is not found as inserted", t.full); } Ok(()) }
        });
    }
    run.exhaustive_parts.push("70, 300 and 1100 packages and types, nested up to 300 deep".into());
    let mut r = Rng::new(run.seed, 14);
    // Histories of one or two insertions over a small pool, exhaustively, then random longer ones.
    let noise = {
        let c = parse(&["syntax = \"proto3\"; message X { message Y { } } enum Z { a = 1; } enum W { b = 1; }".to_string()]).unwrap();
        let e = match c.get_type("W") { Some(TypeInfo::Enum(e)) => e.self_ref, _ => return };
        (c.get_message("X.Y").unwrap().self_ref, e)
    };
    let names = ["A", "B", "C", "A.B", "", "p", "AA", "a", "A ", "\u{e4}", "S"];
    let pkgs: [Option<&str>; 6] = [None, Some("p"), Some("q"), Some("p.A"), Some("A"), Some("")];
    for it in 0..run.n(25000) {
        if run.over() { break; }
        let src: Vec<String> = C14_SOURCES[r.below(4)].iter().map(|s| s.to_string()).collect();
        let steps = if it % 5 == 0 { 1 + r.below(3) } else { 2 + r.below(12) };
        let seed = r.next();
        let log = std::cell::RefCell::new(vec![]);
        let go = || -> Result<(), String> {
            let mut r = Rng::new(seed, 141);
            log.borrow_mut().clear();
            let make = || -> Result<Context, String> { if src.is_empty() { Ok(Context::new()) } else { parse(&src).map_err(|e| e.to_string()) } };
            let (mut ctx, mut twin) = (make()?, make()?);
            let mut h = Hist { pkgs: vec![], prefs: vec![], types: vec![], trefs: vec![], services: vec![] };
            // The model of the parsed part.
            let mut known: Vec<String> = ["A", "A.B", "A.B.C", "E", "p.A", "q.A", "p.B", "p.B.A", "p"].iter().map(|s| s.to_string()).collect();
            known.sort_by_key(|k| k.matches('.').count());
            let mut pidx: Vec<PackageRef> = vec![];
            for k in &known {
                if let Some(t) = ctx.get_type(k) {
                    let par = match t.parent() {
                        TypeParent::Package(p) => {
                            let at = match pidx.iter().position(|x| *x == p) { Some(i) => i, None => {
                                pidx.push(p);
                                h.prefs.push(p);
                                let pn = k[..k.len() - t.name().len()].trim_end_matches('.').to_string();
                                h.pkgs.push(if pn.is_empty() { None } else { Some(pn) });
                                pidx.len() - 1
                            } };
                            Par::Pkg(at)
                        }
                        TypeParent::Message(m) => Par::Msg(h.trefs.iter().position(|x| *x == TypeRef::Message(m)).ok_or("parent")?),
                    };
                    let nf = match t { TypeInfo::Message(m) => m.iter_fields().count(), _ => 0 };
                    h.types.push(TModel { name: t.name().into(), full: k.clone(), msg: matches!(t, TypeInfo::Message(_)), par, nfields: nf, made: None });
                    h.trefs.push(tref(t));
                }
            }
            for s in ["S", "q.S"] { if ctx.get_service(s).is_some() { h.services.push(s.into()); } }
            h.check(&ctx).map_err(|e| format!("after parsing: {}", e))?;
            for _ in 0..steps {
                if r.chance(1, 4) || h.prefs.is_empty() {
                    let n: Option<String> = dict::utf8(&mut r).or(*r.pick(&pkgs)).map(String::from);
                    log.borrow_mut().push(format!("insert_package({:?})", n));
                    let got = ctx.insert_package(Package::new(n.clone()));
                    // Packages of files without types are not in the model, but in the context.
                    match h.pkgs.iter().position(|x| *x == n) {
                        Some(_) => {
                            let e = match got { Err(e) => e, Ok(p) => return Err(format!("a second package {:?} was inserted as {:?}", n, p)) };
                            ensure!(h.prefs.iter().zip(&h.pkgs).any(|(p, x)| *p == e && *x == n), "the error names {:?}, which is no package {:?}", e, n);
                            ensure!(ctx == twin, "a failed insert_package changed the context");
                        }
                        None => {
                            let p = match got { Ok(p) => p, Err(p) => return Err(format!("package {:?} is rejected, for {:?}", n, p)) };
                            ensure!(!h.prefs.contains(&p), "package {:?} got the reference {:?} of another one", n, p);
                            h.pkgs.push(n.clone());
                            h.prefs.push(p);
                            let p2 = twin.insert_package(Package::new(n)).map_err(|_| "not deterministic")?;
                            ensure!(p == p2, "not deterministic");
                        }
                    }
                } else {
                    let msg = r.chance(2, 3);
                    let msgs: Vec<usize> = (0..h.types.len()).filter(|i| h.types[*i].msg).collect();
                    let par = if !msgs.is_empty() && r.chance(1, 2) { Par::Msg(*r.pick(&msgs)) } else { Par::Pkg(r.below(h.prefs.len())) };
                    let name = dict::utf8(&mut r).unwrap_or(*r.pick(&names));
                    let (parent, full) = match &par {
                        Par::Pkg(k) => (TypeParent::Package(h.prefs[*k]), match &h.pkgs[*k] { Some(p) => format!("{}.{}", p, name), None => name.to_string() }),
                        Par::Msg(k) => (match h.trefs[*k] { TypeRef::Message(m) => TypeParent::Message(m), _ => return Err("model".into()) }, format!("{}.{}", h.types[*k].full, name)),
                    };
                    let nf = r.below(5);
                    let nz = if r.chance(1, 3) { Some(noise) } else { None };
                    log.borrow_mut().push(format!("insert_{}({:?} in {:?}, {} fields, stale references: {})", if msg { "message" } else { "enum" }, name, parent, nf, nz.is_some()));
                    let ins = |c: &mut Context| -> Result<TypeRef, InsertError> {
                        match make_type(name, parent, msg, nf, nz) {
                            TypeInfo::Message(m) => c.insert_message(m).map(TypeRef::Message),
                            TypeInfo::Enum(e) => c.insert_enum(e).map(TypeRef::Enum),
                        }
                    };
                    let got = ins(&mut ctx);
                    match h.types.iter().position(|t| t.full == full) {
                        Some(k) => {
                            let e = match got { Err(InsertError::TypeExists { original }) => original, Err(e) => return Err(format!("unexpected error {:?}", e)),
                                Ok(t) => return Err(format!("a second {:?} was inserted as {:?}", full, t)) };
                            ensure!(e == h.trefs[k], "the error for {:?} names {:?}, should be {:?}", full, e, h.trefs[k]);
                            ensure!(ctx == twin, "a failed insertion of {:?} changed the context", full);
                        }
                        None => {
                            let t = got.map_err(|e| format!("{:?} is rejected: {:?}", full, e))?;
                            ensure!(!h.trefs.contains(&t), "{:?} got the reference of another type", full);
                            h.types.push(TModel { name: name.into(), full, msg, par, nfields: nf, made: Some((parent, nz)) });
                            h.trefs.push(t);
                            let _ = ins(&mut twin).map_err(|_| "not deterministic")?;
                        }
                    }
                }
                h.check(&ctx)?;
            }
            Ok(())
        };
        let key = format!("{}{}", seed, src.len());
        let describe = || format!("{}history (seed {}): {}", show(&src), seed, log.borrow().join("; "));
        run.case(Some(&key), &describe, go);
    }
}

// ------------------------------------------------------------------ C15

pub fn c15(run: &mut Run) {
    let mut r = Rng::new(run.seed, 15);
    let parent = {
        let c = parse(&["syntax = \"proto3\"; message X { }".to_string()]).unwrap();
        c.get_message("X").unwrap().parent
    };
    let refs = {
        let c = parse(&["syntax = \"proto3\"; message X { } enum W { b = 1; }".to_string()]).unwrap();
        let e = match c.get_type("W") { Some(TypeInfo::Enum(e)) => e.self_ref, _ => return };
        (c.get_message("X").unwrap().self_ref, e)
    };
    // References to the oneofs with index 0..8, also those a message does not have.
    let mut donor = MessageInfo::new("D".into(), parent);
    let orefs: Vec<OneofRef> = (0..8).map(|i| donor.add_oneof(Oneof::new(format!("d{}", i))).unwrap()).collect();
    let nums: [u64; 8] = [0, 1, 2, 3, u64::MAX, 1 << 40, 19000, 1 << 29];
    // Many fields, values and oneofs.
    for n in [70u64, 300, 1100].into_iter().chain(dict::sizes(6, 3000).into_iter().map(|n| n as u64)) {
        run.case(Some(&format!("many {}", n)), &|| format!("{} fields, {} oneofs, {} enum values", n, n / 2, n), || {
            let (mut m, mut e) = (MessageInfo::new("M".into(), parent), EnumInfo::new("E".into(), parent));
            let num = |i: u64| (i * 7919) % (1 << 40) + (i % 5) * (1 << 32);
            let mut os: Vec<(OneofRef, u64)> = vec![];
            for i in 0..n {
                let mut f = MessageField::new(format!("f{}", i), num(i), some_type(i, Some(refs)));
                f.options = some_options(i);
                if i % 3 == 0 { f.oneof = os.last().map(|o| o.0); }
                m.add_field(f).map_err(|e| format!("field {} is rejected: {:?}", i, e))?;
                if i % 2 == 1 {
                    let mut o = Oneof::new(format!("o{}", i));
                    if i % 3 != 0 { o.fields = vec![num(i)]; }
                    os.push((m.add_oneof(o).map_err(|e| format!("oneof {} is rejected: {:?}", i, e))?, i));
                }
                let mut v = EnumField::new(format!("v{}", i), (num(i) as i64).wrapping_neg());
                v.options = some_options(i);
                e.add_field(v).map_err(|e| format!("value {} is rejected: {:?}", i, e))?;
            }
            for i in 0..n {
                let f = m.get_field(num(i)).ok_or_else(|| format!("field {} is not found", i))?;
                ensure!(f.name == format!("f{}", i) && f.number == num(i) && f.field_type == some_type(i, Some(refs)) && f.options == some_options(i), "field {} became {:?}", i, f);
                ensure!(m.get_field_by_name(&f.name).map_or(false, |x| std::ptr::eq(x, f)), "field {} is not found by name", i);
                let want = if i % 3 == 0 { os.iter().filter(|o| o.1 < i).last() } else if i % 2 == 1 { os.iter().find(|o| o.1 == i) } else { None };
                ensure!(f.oneof == want.map(|o| o.0), "field {} has oneof {:?}, should be {:?}", i, f.oneof, want);
                ensure!(matches!(m.add_field(MessageField::new("new".into(), num(i), ValueType::Bool)), Err(MemberInsertError::NumberConflict)) && matches!(m.add_field(MessageField::new(format!("f{}", i), 3, ValueType::Bool)), Err(MemberInsertError::NameConflict)), "a second field {} is accepted", i);
                let v = e.get_field_by_value((num(i) as i64).wrapping_neg()).ok_or_else(|| format!("value {} is not found", i))?;
                ensure!(v.name == format!("v{}", i) && v.options == some_options(i), "value {} became {:?}", i, v);
                ensure!(e.add_field(EnumField::new("new".into(), v.value)).is_err(), "a second value is accepted");
                ensure!(e.add_field(EnumField::new(format!("v{}", i), 3)).is_err(), "a second name is accepted");
            }
            for (o, i) in &os {
                let x = m.get_oneof(*o).ok_or("oneof is not found")?;
                let want: Vec<u64> = m.iter_fields().filter(|f| f.oneof == Some(*o)).map(|f| f.number).collect();
                let mut got = x.fields.clone();
                got.sort();
                ensure!(x.name == format!("o{}", i) && x.self_ref == *o && got == want, "oneof {} became {:?}, its fields are {:?}", i, x, want);
                ensure!(m.add_oneof(Oneof::new(format!("o{}", i))).is_err(), "a second oneof is accepted");
            }
            let all: Vec<u64> = m.iter_fields().map(|f| f.number).collect();
            ensure!(all.len() == n as usize && all.windows(2).all(|w| w[0] < w[1]), "the fields are {:?}", all);
            Ok(())
        });
    }
    run.exhaustive_parts.push("70, 300 and 1100 fields and values".into());
    for _ in 0..run.n(30000) {
        if run.over() { break; }
        let seed = r.next();
        let steps = 1 + r.below(12);
        let log = std::cell::RefCell::new(vec![]);
        let go = || -> Result<(), String> {
            let mut r = Rng::new(seed, 151);
            log.borrow_mut().clear();
            let (mut m, mut twin) = (MessageInfo::new("M".into(), parent), MessageInfo::new("M".into(), parent));
            let mut fs: BTreeMap<u64, (String, Option<usize>)> = BTreeMap::new();
            let mut made: BTreeMap<u64, u64> = BTreeMap::new();
            let mut os: Vec<(String, Vec<u64>)> = vec![];
            let mut omade: Vec<u64> = vec![];
            for _ in 0..steps {
                let kind = r.below(1000) as u64;
                if r.chance(2, 3) {
                    let n = dict::int(&mut r).unwrap_or(*r.pick(&nums));
                    let name = dict::utf8(&mut r).unwrap_or(*r.pick(&["a", "b", "c", "d", "", "e", "A", " a", "b ", "\u{e4}"])).to_string();
                    let oo = match r.below(4) { 0 => Some(r.below(8)), 1 if !os.is_empty() => Some(r.below(os.len())), _ => None };
                    let mk = || { let mut f = MessageField::new(name.clone(), n, some_type(kind, Some(refs))); f.oneof = oo.map(|i| orefs[i]); f.multiplicity = some_mult(kind / 6); f.options = some_options(kind / 8); f };
                    log.borrow_mut().push(format!("add_field({:?} = {}, oneof {:?})", name, n, oo));
                    let (nc, mc, oc) = (fs.contains_key(&n), fs.values().any(|f| f.0 == name), oo.map_or(false, |i| i >= os.len()));
                    match m.add_field(mk()) {
                        Ok(()) => {
                            ensure!(!nc && !mc && !oc, "add_field({:?} = {}) succeeds: number taken {}, name taken {}, oneof missing {}", name, n, nc, mc, oc);
                            if let Some(i) = oo { os[i].1.push(n); }
                            fs.insert(n, (name.clone(), oo));
                            made.insert(n, kind);
                            twin.add_field(mk()).map_err(|_| "not deterministic")?;
                        }
                        Err(e) => {
                            let fits = match e { MemberInsertError::NumberConflict => nc, MemberInsertError::NameConflict => mc, MemberInsertError::MissingOneof => oc, _ => false };
                            ensure!(fits, "add_field({:?} = {}) fails with {:?}: number taken {}, name taken {}, oneof missing {}", name, n, e, nc, mc, oc);
                            ensure!(m == twin, "a failed add_field({:?} = {}) changed the message: {:?}, was {:?}", name, n, m, twin);
                        }
                    }
                } else {
                    let name = dict::utf8(&mut r).unwrap_or(*r.pick(&["x", "y", "z", "w", "", "X", " x", "\u{e4}"])).to_string();
                    let mut list: Vec<u64> = vec![];
                    for _ in 0..r.below(4) { let n = if fs.is_empty() || r.chance(1, 5) { *r.pick(&nums) } else { *fs.keys().nth(r.below(fs.len())).unwrap() }; if !list.contains(&n) { list.push(n); } }
                    let stale = r.below(8);
                    let mk = || { let mut o = Oneof::new(name.clone()); o.fields = list.clone(); o.self_ref = orefs[stale]; o.options = some_options(kind); o };
                    log.borrow_mut().push(format!("add_oneof({:?}, {:?})", name, list));
                    let dup = os.iter().any(|o| o.0 == name);
                    let missing: Vec<u64> = list.iter().cloned().filter(|n| !fs.contains_key(n)).collect();
                    let taken: Vec<u64> = list.iter().cloned().filter(|n| fs.get(n).map_or(false, |f| f.1.is_some())).collect();
                    match m.add_oneof(mk()) {
                        Ok(or) => {
                            ensure!(!dup && missing.is_empty() && taken.is_empty(), "add_oneof({:?}, {:?}) succeeds: name taken {}, missing fields {:?}, fields of other oneofs {:?}", name, list, dup, missing, taken);
                            ensure!(orefs[os.len()] == or || !orefs[..os.len()].contains(&or), "oneof {:?} got the reference of another one", name);
                            for n in &list { fs.get_mut(n).unwrap().1 = Some(os.len()); }
                            os.push((name.clone(), list.clone()));
                            omade.push(kind);
                            let _ = twin.add_oneof(mk()).map_err(|_| "not deterministic")?;
                            ensure!(m.get_oneof(or).map_or(false, |o| o.name == name), "oneof {:?} is not found by its reference", name);
                        }
                        Err(e) => {
                            let fits = match &e { OneofInsertError::NameConflict => dup, OneofInsertError::FieldNotFound { field } => missing.contains(field), OneofInsertError::FieldInOneof { field } => taken.contains(field), _ => false };
                            ensure!(fits, "add_oneof({:?}, {:?}) fails with {:?}: name taken {}, missing {:?}, in other oneofs {:?}", name, list, e, dup, missing, taken);
                            ensure!(m == twin, "a failed add_oneof({:?}, {:?}) changed the message: {:?}, was {:?}", name, list, m, twin);
                        }
                    }
                }
                // The whole state against the model.
                let got: Vec<u64> = m.iter_fields().map(|f| f.number).collect();
                ensure!(got == fs.keys().cloned().collect::<Vec<_>>(), "fields are {:?}, should be {:?}", got, fs.keys().collect::<Vec<_>>());
                for (n, (name, oo)) in &fs {
                    let f = m.get_field(*n).ok_or_else(|| format!("field {} is not found", n))?;
                    ensure!(f.name == *name && f.number == *n, "field {} became {:?}", n, f);
                    let kind = made[n];
                    ensure!(f.multiplicity == some_mult(kind / 6) && f.field_type == some_type(kind, Some(refs)) && f.options == some_options(kind / 8), "field {} became {:?}, was added with {:?}, {:?}, {:?}", n, f, some_mult(kind / 6), some_type(kind, Some(refs)), some_options(kind / 8));
                    ensure!(m.get_field_by_name(name).map_or(false, |x| std::ptr::eq(x, f)), "field {:?} is not found by name", name);
                    match (f.oneof, oo) {
                        (None, None) => {}
                        (Some(o), Some(i)) => ensure!(m.get_oneof(o).map_or(false, |x| x.name == os[*i].0), "field {} names a wrong oneof", n),
                        (a, b) => return Err(format!("field {} has oneof {:?}, should be {:?}", n, a, b)),
                    }
                }
                ensure!(m.oneofs.len() == os.len(), "{} oneofs, should be {}", m.oneofs.len(), os.len());
                for (o, kind) in m.oneofs.iter().zip(&omade) { ensure!(o.options == some_options(*kind), "oneof {:?} became {:?}, was added with {:?}", o.name, o, some_options(*kind)); }
                for (o, (name, list)) in m.oneofs.iter().zip(&os) {
                    let (a, b): (BTreeSet<u64>, BTreeSet<u64>) = (o.fields.iter().cloned().collect(), list.iter().cloned().collect());
                    ensure!(o.name == *name && a == b && o.fields.len() == list.len(), "oneof {:?} lists {:?}, should list {:?}", o.name, o.fields, list);
                    ensure!(m.get_oneof(o.self_ref).map_or(false, |x| std::ptr::eq(x, o)), "oneof {:?} is not found by its self reference", name);
                }
                for n in nums.iter() { ensure!(fs.contains_key(n) == m.get_field(*n).is_some(), "lookup of {} is wrong", n); }
                for n in ["a", "b", "c", "d", "", "e"] { ensure!(fs.values().any(|f| f.0 == n) == m.get_field_by_name(n).is_some(), "lookup of {:?} is wrong", n); }
            }
            Ok(())
        };
        run.case(Some(&format!("m{}", seed)), &|| format!("message history (seed {}): {}", seed, log.borrow().join("; ")), go);
        let seed = r.next();
        let log = std::cell::RefCell::new(vec![]);
        let go = || -> Result<(), String> {
            let mut r = Rng::new(seed, 152);
            log.borrow_mut().clear();
            let (mut m, mut twin) = (EnumInfo::new("E".into(), parent), EnumInfo::new("E".into(), parent));
            let mut fs: BTreeMap<i64, String> = BTreeMap::new();
            let mut made: BTreeMap<i64, u64> = BTreeMap::new();
            let vals: [i64; 6] = [0, 1, -1, i64::MIN, i64::MAX, 7];
            for _ in 0..steps {
                let v = dict::int(&mut r).map(|n| n as i64).unwrap_or(*r.pick(&vals));
                let name = dict::utf8(&mut r).unwrap_or(*r.pick(&["a", "b", "c", "d", "", "A", " a", "\u{e4}"])).to_string();
                log.borrow_mut().push(format!("add_field({:?} = {})", name, v));
                let (nc, mc) = (fs.contains_key(&v), fs.values().any(|f| *f == name));
                let kind = r.below(1000) as u64;
                let mk = || { let mut f = EnumField::new(name.clone(), v); f.options = some_options(kind); f };
                match m.add_field(mk()) {
                    Ok(()) => {
                        ensure!(!nc && !mc, "add_field({:?} = {}) succeeds: value taken {}, name taken {}", name, v, nc, mc);
                        fs.insert(v, name.clone());
                        made.insert(v, kind);
                        twin.add_field(mk()).map_err(|_| "not deterministic")?;
                    }
                    Err(e) => {
                        let fits = match e { MemberInsertError::NumberConflict => nc, MemberInsertError::NameConflict => mc, _ => false };
                        ensure!(fits, "add_field({:?} = {}) fails with {:?}: value taken {}, name taken {}", name, v, e, nc, mc);
                        ensure!(m == twin, "a failed add_field({:?} = {}) changed the enum: {:?}, was {:?}", name, v, m, twin);
                    }
                }
                for v in vals.iter() {
                    let got = m.get_field_by_value(*v).map(|f| (f.name.clone(), f.value));
                    ensure!(m.get_field_by_value(*v).map(|f| f.options.clone()) == made.get(v).map(|k| some_options(*k)), "value {} has options {:?}, should be {:?}", v, m.get_field_by_value(*v), made.get(v).map(|k| some_options(*k)));
                    ensure!(got == fs.get(v).map(|n| (n.clone(), *v)), "value {} gives {:?}, should be {:?}", v, got, fs.get(v));
                }
            }
            Ok(())
        };
        run.case(Some(&format!("e{}", seed)), &|| format!("enum history (seed {}): {}", seed, log.borrow().join("; ")), go);
    }
}

// ------------------------------------------------------------------ C16

fn expect_mult(f: &SField, oneof: bool) -> Multiplicity {
    if oneof { return Multiplicity::Single; }
    match f.label {
        Label::None => Multiplicity::Single,
        Label::Optional => Multiplicity::Optional,
        Label::Repeated => match &f.ty {
            STy::Builtin(b) if *b != "string" && *b != "bytes" => match f.opts.iter().find(|o| o.name.concat() == "packed") {
                Some(o) => if o.value == Con::Bool(true) { Multiplicity::RepeatedPacked } else { Multiplicity::Repeated },
                None => Multiplicity::RepeatedPacked,
            },
            _ => Multiplicity::Repeated,
        },
    }
}
fn check_mults(ctx: &Context, files: &[SFile]) -> Result<(), String> {
    for m in walk(files).0 {
        let info = get_msg(ctx, &m.full)?;
        for (f, oo) in fields(m.m) {
            let got = &info.get_field(f.number).ok_or_else(|| format!("{} has no field {}", m.full, f.number))?.multiplicity;
            let want = expect_mult(f, oo.is_some());
            ensure!(*got == want, "multiplicity of {} in {} is {:?}, should be {:?}", f.name, m.full, got, want);
        }
    }
    Ok(())
}
pub fn c16(run: &mut Run) {
    big(run, &|t, f| { let ctx = parse(t).map_err(|e| format!("rejected: {}", e))?; check_mults(&ctx, f) });
    // Label x type x options, exhaustively.
    let o = |name: &str, value: Con, text: &str| Opt { name: name.split(' ').map(String::from).collect(), value, text: vec![text.to_string()] };
    let opt_sets: Vec<Vec<Opt>> = vec![
        vec![], vec![o("packed", Con::Bool(true), "true")], vec![o("packed", Con::Bool(false), "false")],
        vec![o("packed", Con::Int(1), "1")], vec![o("packed", Con::Ident("yes".into()), "yes")], vec![o("packed", Con::Str(b"true".to_vec()), "\"true\"")],
        vec![o("packed", Con::Float(0), "0.5")], vec![o("packed", Con::Ident("trueish".into()), "trueish")],
        vec![o("packed", Con::Bool(true), "true"), o("packed", Con::Bool(false), "false")],
        vec![o("packed", Con::Bool(false), "false"), o("packed", Con::Bool(true), "true")],
        vec![o("other", Con::Bool(false), "false")], vec![o("other", Con::Bool(true), "true"), o("packed", Con::Bool(false), "false")],
        vec![o("packedx", Con::Bool(false), "false")], vec![o("Packed", Con::Bool(false), "false")], vec![o("( packed )", Con::Bool(false), "false")],
        vec![o("packed . x", Con::Bool(false), "false")], vec![o("x . packed", Con::Bool(false), "false")],
        vec![o("deprecated", Con::Bool(true), "true"), o("packed", Con::Bool(true), "true"), o("packed", Con::Bool(false), "false")],
    ];
    let mut types: Vec<STy> = BUILTINS.iter().map(|b| STy::Builtin(*b)).collect();
    types.push(STy::Named { root: false, parts: vec!["M".into()] });
    types.push(STy::Named { root: false, parts: vec!["E".into()] });
    types.push(STy::Named { root: true, parts: vec!["E".into()] });
    let mut r = Rng::new(run.seed, 16);
    for ty in &types { for label in [Label::None, Label::Optional, Label::Repeated] { for os in &opt_sets { for one in [false, true] {
        if one && label != Label::None { continue; }
        let f = SField { label, ty: ty.clone(), name: "f".into(), number: 1, num_text: "1".into(), opts: os.clone() };
        let item = if one { MItem::Oneof(SOneof { name: "o".into(), items: vec![OItem::Field(f.clone())] }) } else { MItem::Field(f.clone()) };
        let file = SFile { package: vec![], pkg_at: 0, tops: vec![Top::Msg(SMsg { name: "M".into(), items: vec![item] }),
            Top::Enum(SEnum { name: "E".into(), items: vec![EItem::Value { name: "z".into(), value: 0, text: vec!["0".into()], opts: vec![] }] })] };
        let texts = print(&mut r, &[file], true);
        let key = texts.join("");
        run.case(Some(&key), &|| show(&texts), || {
            let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
            let got = &get_msg(&ctx, "M")?.get_field(1).ok_or("no field")?.multiplicity;
            let want = expect_mult(&f, one);
            ensure!(*got == want, "multiplicity is {:?}, should be {:?}", got, want);
            Ok(())
        });
    } } } }
    run.exhaustive_parts.push("each label with each type and each of 18 option lists".into());
    for _ in 0..run.n(8000) {
        if run.over() { break; }
        let c = Cfg { options: true, services: false, max_files: 1, ..base() };
        let files = gen_files(&mut r, &c);
        let texts = print(&mut r, &files, true);
        let key = texts.join("\u{1}");
        run.case(Some(&key), &|| show(&texts), || {
            let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
            check_mults(&ctx, &files)
        });
    }
}

// ------------------------------------------------------------------ C17

fn opt_name(o: &Opt) -> String { o.name.concat() }
fn con_of(c: &Constant) -> Con {
    match c {
        Constant::Ident(s) => Con::Ident(s.clone()),
        Constant::Integer(i) => Con::Int(*i),
        Constant::Float(f) => Con::Float(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() }),
        Constant::String(b) => Con::Str(b.to_vec()),
        Constant::Bool(b) => Con::Bool(*b),
    }
}
fn norm(c: &Con) -> Con { match c { Con::Float(b) if f64::from_bits(*b).is_nan() => Con::Float(f64::NAN.to_bits()), c => c.clone() } }
fn cmp_opts(what: &str, got: &[ProtoOption], want: &[&Opt]) -> Result<(), String> {
    let g: Vec<(String, Con)> = got.iter().map(|o| (o.name.clone(), con_of(&o.value))).collect();
    let w: Vec<(String, Con)> = want.iter().map(|o| (opt_name(o), norm(&o.value))).collect();
    ensure!(g == w, "options of {} are {:?}, should be {:?}", what, g, w);
    Ok(())
}
fn check_mirror(ctx: &Context, files: &[SFile]) -> Result<(), String> {
    let ds = decls(files);
    let (ms, es, ss) = walk(files);
    for m in &ms {
        let info = get_msg(ctx, &m.full)?;
        ensure!(info.name == m.m.name, "message {} has name {}", m.full, info.name);
        let fs = fields(m.m);
        let mut want: Vec<u64> = fs.iter().map(|f| f.0.number).collect();
        want.sort();
        let got: Vec<u64> = info.iter_fields().map(|f| f.number).collect();
        ensure!(got == want, "fields of {} are {:?}, should be {:?}", m.full, got, want);
        for (f, oo) in &fs {
            let fi = info.get_field(f.number).ok_or("field")?;
            let what = format!("field {} of {}", f.name, m.full);
            ensure!(fi.name == f.name && fi.number == f.number, "{} is {:?} = {}", what, fi.name, fi.number);
            let want = expect_ty(&ds, &m.full, &f.ty).ok_or("generator")?;
            let got = vt_name(ctx, &fi.field_type);
            ensure!(got == want, "{} has type {}, should be {}", what, got, want);
            let got = match fi.multiplicity { Multiplicity::Single => Label::None, Multiplicity::Optional => Label::Optional, _ => Label::Repeated };
            ensure!(got == f.label, "{} has label {:?}, should be {:?}", what, got, f.label);
            cmp_opts(&what, &fi.options, &f.opts.iter().collect::<Vec<_>>())?;
            let got = fi.oneof.and_then(|o| info.get_oneof(o)).map(|o| o.name.clone());
            ensure!(got == oo.map(|o| o.name.clone()), "{} is in oneof {:?}, should be {:?}", what, got, oo.map(|o| &o.name));
        }
        let want: Vec<&SOneof> = m.m.items.iter().filter_map(|i| if let MItem::Oneof(o) = i { Some(o) } else { None }).collect();
        let got: Vec<&str> = info.oneofs.iter().map(|o| o.name.as_str()).collect();
        ensure!(got == want.iter().map(|o| o.name.as_str()).collect::<Vec<_>>(), "oneofs of {} are {:?}", m.full, got);
        for (o, w) in info.oneofs.iter().zip(&want) {
            let (mut a, mut b): (Vec<u64>, Vec<u64>) = (o.fields.clone(), w.items.iter().filter_map(|i| if let OItem::Field(f) = i { Some(f.number) } else { None }).collect());
            a.sort();
            b.sort();
            ensure!(a == b, "oneof {} of {} lists {:?}, should list {:?}", o.name, m.full, a, b);
            cmp_opts(&format!("oneof {} of {}", o.name, m.full), &o.options, &w.items.iter().filter_map(|i| if let OItem::Opt(o) = i { Some(o) } else { None }).collect::<Vec<_>>())?;
        }
        let mut got: Vec<String> = info.inner_types.iter().map(|t| tref_name(ctx, t)).collect();
        let mut want: Vec<String> = ms.iter().filter(|x| x.parent.as_deref() == Some(&m.full)).map(|x| x.full.clone()).chain(es.iter().filter(|x| x.parent.as_deref() == Some(&m.full)).map(|x| x.full.clone())).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "inner types of {} are {:?}, should be {:?}", m.full, got, want);
    }
    for e in &es {
        let info = get_enum(ctx, &e.full)?;
        ensure!(info.name == e.e.name, "enum {} has name {}", e.full, info.name);
        let mut n = 0;
        for i in &e.e.items {
            if let EItem::Value { name, value, opts, .. } = i {
                n += 1;
                let f = info.get_field_by_value(*value).ok_or_else(|| format!("value {} = {} of {} is missing", name, value, e.full))?;
                ensure!(f.name == *name && f.value == *value, "value {} = {} of {} is {} = {}", name, value, e.full, f.name, f.value);
                cmp_opts(&format!("value {} of {}", name, e.full), &f.options, &opts.iter().collect::<Vec<_>>())?;
            }
        }
        let d = format!("{:?}", info);
        let count = d.matches("EnumField {").count();
        if count > 0 { ensure!(count == n, "enum {} has {} values, should have {}", e.full, count, n); }
    }
    for s in &ss {
        let info = get_svc(ctx, &s.full)?;
        let xs = rpcs(s.s);
        let got: Vec<&str> = info.rpcs.iter().map(|x| x.name.as_str()).collect();
        ensure!(info.name == s.s.name && got == xs.iter().map(|x| x.name.as_str()).collect::<Vec<_>>(), "service {} has rpcs {:?}", s.full, got);
        for (x, w) in info.rpcs.iter().zip(&xs) {
            for (what, a, t) in [("input", &x.input, &w.input), ("output", &x.output, &w.output)] {
                ensure!(a.stream == t.0, "{} of rpc {} in {} has stream {}", what, x.name, s.full, a.stream);
                let want = expect_ty(&ds, &s.full, &t.1).ok_or("generator")?;
                let got = format!("message {}", ctx.resolve_message(a.message).full_name);
                ensure!(got == want, "{} of rpc {} in {} is {}, should be {}", what, x.name, s.full, got, want);
            }
            cmp_opts(&format!("rpc {} of {}", x.name, s.full), &x.options, &w.opts.iter().flatten().collect::<Vec<_>>())?;
        }
        cmp_opts(&format!("service {}", s.full), &info.options, &s.s.items.iter().filter_map(|i| if let SvItem::Opt(o) = i { Some(o) } else { None }).collect::<Vec<_>>())?;
    }
    // Nothing else: the full names in the debug form of the whole context.
    let d = format!("{:?}", ctx);
    let count = d.matches(" full_name: \"").count();
    if count > 0 { ensure!(count == ds.len(), "the context holds {} types and services, should hold {}", count, ds.len()); }
    // Packages.
    for (fi, f) in files.iter().enumerate() {
        let p = ms.iter().filter(|m| m.file == fi && m.parent.is_none()).next().and_then(|m| ctx.get_type(&m.full)).map(|t| t.parent());
        if let Some(TypeParent::Package(p)) = p {
            let d = format!("{:?}", ctx.resolve_package(p));
            let want = if f.package.is_empty() { "name: None".to_string() } else { format!("name: Some({:?})", f.package.join(".")) };
            if d.contains("name: ") { ensure!(d.contains(&want), "package of file {} is {}, should have {}", fi, d, want); }
        }
    }
    Ok(())
}
pub fn c17(run: &mut Run) {
    big(run, &|t, f| { let ctx = parse(t).map_err(|e| format!("rejected: {}", e))?; check_mirror(&ctx, f) });
    let mut r = Rng::new(run.seed, 17);
    // All escapes of one character, in both quotes and all spellings.
    let mut lits: Vec<(String, Con)> = vec![];
    for v in 0..=255u32 {
        let b = Con::Str(vec![v as u8]);
        for q in ["\"", "'"] {
            for t in [format!("\\x{:02x}", v), format!("\\X{:02X}", v), format!("\\{:03o}", v)] { lits.push((format!("{}{}{}", q, t, q), b.clone())); }
            if v < 64 { lits.push((format!("{}\\{:o}{}", q, v, q), b.clone())); }
            let c = char::from_u32(v).unwrap();
            if v != 0 && c != '\n' && c != '\\' && q != c.to_string() { lits.push((format!("{}{}{}", q, c, q), Con::Str(c.to_string().into_bytes()))); }
        }
    }
    for (e, v) in [("a", 7u8), ("b", 8), ("f", 12), ("n", 10), ("r", 13), ("t", 9), ("v", 11), ("\\", 92), ("'", 39), ("\"", 34)] {
        for q in ["\"", "'"] { lits.push((format!("{}\\{}{}", q, e, q), Con::Str(vec![v]))); lits.push((format!("{}x\\{}0{}", q, e, q), Con::Str(vec![b'x', v, b'0']))); }
    }
    for (t, v) in [("0", 0i64), ("00", 0), ("-0", 0), ("+0", 0), ("07", 7), ("010", 8), ("0x10", 16), ("0XfF", 255), ("-0x8000000000000000", i64::MIN), ("-9223372036854775808", i64::MIN),
        ("9223372036854775807", i64::MAX), ("0777777777777777777777", i64::MAX), ("-01000000000000000000000", i64::MIN), ("0x7fffffffffffffff", i64::MAX), ("+5", 5), ("- 5", -5), ("+ /* c */ 5", 5), ("000012", 10)] {
        lits.push((t.into(), Con::Int(v)));
    }
    for t in ["1.5", ".5", "5.", "1e3", "1E-3", "1.5e+3", "inf", "-inf", "nan", "0.0", "-0.0", "1.e2", ".5E1", "0e0", "123456789.125", "+1.5", "1e400", "5e-324", "007.5", "08e1"] {
        lits.push((t.into(), Con::Float(t.parse::<f64>().unwrap().to_bits())));
    }
    for t in ["true", "false"] { lits.push((t.into(), Con::Bool(t == "true"))); }
    for t in ["a", "true_x", "truex", "falsey", "inff", "nand", "a.b", "a . b.c", "_x", "infinity", "nan1", "True", "e5", "x0", "inf.a", "true.b", "TRUE"] {
        let v = t.replace(' ', "");
        if v.starts_with('_') { continue; }
        lits.push((t.into(), Con::Ident(v)));
    }
    for (t, v) in &lits {
        let src = format!("syntax = \"proto3\"; message M {{ int32 a = 1 [ x = {}, (y.z).w = {} ]; oneof o {{ option q = {}; }} }} enum E {{ z = 0 [ x = {} ]; }} service S {{ option s = {}; rpc r(M) returns (M) {{ option t = {}; }} }}", t, t, t, t, t, t);
        let texts = vec![src];
        // `inf.a` and `true.b` may also be read as literals followed by junk: not decided here.
        if t.starts_with("inf.") || t.starts_with("true.") { continue; }
        run.case(Some(t), &|| show(&texts), || {
            let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
            let m = get_msg(&ctx, "M")?;
            let sv = get_svc(&ctx, "S")?;
            let lists: Vec<&[ProtoOption]> = vec![&m.get_field(1).ok_or("field")?.options, &m.oneofs[0].options, &get_enum(&ctx, "E")?.get_field_by_value(0).ok_or("value")?.options, &sv.options, &sv.rpcs[0].options];
            let names: [&[&str]; 5] = [&["x", "(y.z).w"], &["q"], &["x"], &["s"], &["t"]];
            for (l, ns) in lists.iter().zip(names.iter()) {
                ensure!(l.iter().map(|o| o.name.as_str()).collect::<Vec<_>>() == *ns, "options are {:?}, should be named {:?}", l, ns);
                for o in l.iter() { ensure!(con_of(&o.value) == norm(v), "constant {} is {:?}, should be {:?}", t, o.value, v); }
            }
            Ok(())
        });
    }
    // Numbers of fields and values of enums.
    for (t, v) in [("0", 0u64), ("1", 1), ("01", 1), ("017", 15), ("0x1F", 31), ("0XaB", 171), ("18446744073709551615", u64::MAX), ("01777777777777777777777", u64::MAX), ("0xffffffffffffffff", u64::MAX), ("536870911", 536870911)] {
        for pre in ["int32 f", "repeated string f", "optional bool f"] {
            let texts = vec![format!("syntax = \"proto3\"; message M {{ {} = {}; }}", pre, t)];
            run.case(Some(&texts[0]), &|| show(&texts), || {
                let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
                let got: Vec<u64> = get_msg(&ctx, "M")?.iter_fields().map(|f| f.number).collect();
                ensure!(got == [v], "field number {} is {:?}", t, got);
                Ok(())
            });
        }
    }
    run.exhaustive_parts.push("all one-byte strings in each spelling; a list of integer, float, boolean and identifier constants".into());
    for _ in 0..run.n(15000) {
        if run.over() { break; }
        let c = Cfg { options: true, ..base() };
        let files = gen_files(&mut r, &c);
        let plain = r.chance(1, 3);
        let texts = print(&mut r, &files, plain);
        let key = texts.join("\u{1}");
        run.case(Some(&key), &|| show(&texts), || {
            let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
            check_mirror(&ctx, &files)
        });
    }
}

// ------------------------------------------------------------------ C18

fn check_lookups(ctx: &Context, files: &[SFile], probes: &[String]) -> Result<(), String> {
    let ds = decls(files);
    let (ms, es, ss) = walk(files);
    let mut names: BTreeSet<String> = probes.iter().cloned().collect();
    for d in &ds { names.insert(d.0.clone()); }
    for n in &names {
        let d = ds.iter().find(|d| d.0 == *n).map(|d| d.1);
        let t = ctx.get_type(n);
        ensure!(t.is_some() == matches!(d, Some(Kind::Msg) | Some(Kind::Enum)), "get_type({:?}) is {:?}", n, t.map(|t| t.full_name()));
        if let Some(t) = t { ensure!(t.full_name() == n, "get_type({:?}) gives {:?}", n, t.full_name()); }
        let m = ctx.get_message(n);
        ensure!(m.is_some() == (d == Some(Kind::Msg)), "get_message({:?}) is {:?}", n, m.map(|m| &m.full_name));
        if let Some(m) = m { ensure!(m.full_name == *n, "get_message({:?}) gives {:?}", n, m.full_name); }
        let s = ctx.get_service(n);
        ensure!(s.is_some() == (d == Some(Kind::Service)), "get_service({:?}) is {:?}", n, s.map(|s| &s.full_name));
        if let Some(s) = s { ensure!(s.full_name == *n, "get_service({:?}) gives {:?}", n, s.full_name); }
    }
    for m in &ms {
        let info = get_msg(ctx, &m.full)?;
        let (mut nums, mut fnames) = (BTreeSet::new(), BTreeSet::new());
        for (f, _) in fields(m.m) { nums.insert(f.number); fnames.insert(f.name.clone()); }
        let got: Vec<u64> = info.iter_fields().map(|f| f.number).collect();
        ensure!(got == nums.iter().cloned().collect::<Vec<_>>(), "iter_fields of {} gives {:?}, numbers are {:?}", m.full, got, nums);
        for f in info.iter_fields() {
            ensure!(info.get_field(f.number).map_or(false, |x| std::ptr::eq(x, f)), "field {} of {} is not found by number", f.number, m.full);
            let by = info.get_field_by_name(&f.name);
            ensure!(by.map_or(false, |x| x.name == f.name), "field {:?} of {} looked up by name gives {:?}", f.name, m.full, by.map(|x| &x.name));
        }
        let stored: BTreeSet<String> = info.iter_fields().map(|f| f.name.clone()).collect();
        for n in nums.iter().flat_map(|n| vec![n.wrapping_sub(1), n.wrapping_add(1), n ^ (1 << 32), n << 3]).chain(vec![0, 1, u64::MAX]) {
            let g = info.get_field(n);
            ensure!(g.map_or(!nums.contains(&n), |f| f.number == n && nums.contains(&n)), "get_field({}) of {} gives {:?}", n, m.full, g.map(|f| f.number));
        }
        for n in fnames.iter().flat_map(|n| vec![n.clone(), format!("{}x", n), n[..n.len() - 1].to_string(), n.to_uppercase()]).chain(vec![String::new()]) {
            let g = info.get_field_by_name(&n);
            ensure!(g.map_or(!stored.contains(&n), |f| f.name == n), "get_field_by_name({:?}) of {} gives {:?}", n, m.full, g.map(|f| &f.name));
        }
        for o in &info.oneofs {
            ensure!(info.get_oneof(o.self_ref).map_or(false, |x| std::ptr::eq(x, o)), "oneof {} of {} is not found by its reference", o.name, m.full);
        }
        let own: Vec<OneofRef> = info.oneofs.iter().map(|o| o.self_ref).collect();
        for other in &ms {
            for o in &get_msg(ctx, &other.full)?.oneofs {
                if !own.contains(&o.self_ref) { ensure!(info.get_oneof(o.self_ref).is_none(), "get_oneof of {} finds a reference it does not have", m.full); }
            }
        }
        ensure!(std::ptr::eq(ctx.resolve_message(info.self_ref), info), "resolve_message of {} gives another", m.full);
        if let TypeParent::Package(p) = info.parent {
            let d = format!("{:?}", ctx.resolve_package(p));
            if d.contains("self_ref: PackageRef") { ensure!(d.contains(&format!("self_ref: {:?}", p)), "resolve_package({:?}) gives {}", p, d); }
        }
    }
    for e in &es {
        let info = get_enum(ctx, &e.full)?;
        ensure!(std::ptr::eq(ctx.resolve_enum(info.self_ref), info), "resolve_enum of {} gives another", e.full);
        let pairs: Vec<(String, i64)> = e.e.items.iter().filter_map(|i| if let EItem::Value { name, value, .. } = i { Some((name.clone(), *value)) } else { None }).collect();
        for v in pairs.iter().flat_map(|p| vec![p.1, p.1.wrapping_add(1), p.1.wrapping_neg(), p.1 ^ (1 << 32)]).chain(vec![0, -1, i64::MAX]) {
            let g = info.get_field_by_value(v);
            ensure!(g.is_some() == pairs.iter().any(|p| p.1 == v), "get_field_by_value({}) of {} gives {:?}", v, e.full, g);
            if let Some(f) = g { ensure!(f.value == v && pairs.contains(&(f.name.clone(), v)), "get_field_by_value({}) of {} gives {:?}", v, e.full, f); }
        }
    }
    for s in &ss {
        let info = get_svc(ctx, &s.full)?;
        for x in &info.rpcs {
            ensure!(info.rpc_by_name(&x.name).map_or(false, |y| y.name == x.name), "rpc {} of {} is not found", x.name, s.full);
            for n in [format!("{}x", x.name), x.name[..x.name.len() - 1].to_string(), x.name.to_uppercase(), String::new()] {
                let g = info.rpc_by_name(&n);
                ensure!(g.map_or(!info.rpcs.iter().any(|y| y.name == n), |y| y.name == n), "rpc_by_name({:?}) of {} gives {:?}", n, s.full, g.map(|y| &y.name));
            }
        }
    }
    Ok(())
}
pub fn c18(run: &mut Run) {
    big(run, &|t, f| { let ctx = parse(t).map_err(|e| format!("rejected: {}", e))?; check_lookups(&ctx, f, &[]) });
    let mut r = Rng::new(run.seed, 18);
    // Enum aliases and duplicate members: a lookup gives one of those with the key.
    for (src, v, ok) in [("enum E { a = 1; b = 1; }", 1i64, vec!["a", "b"]), ("enum E { a = 1; b = 2; c = 1; }", 1, vec!["a", "c"]), ("enum E { a = -1; b = 2; c = 2; }", -1, vec!["a"])] {
        let texts = vec![format!("syntax = \"proto3\"; {}", src)];
        run.case(Some(src), &|| show(&texts), || {
            let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
            let f = get_enum(&ctx, "E")?.get_field_by_value(v).ok_or("value is missing")?;
            ensure!(f.value == v && ok.contains(&f.name.as_str()), "value {} gives {:?}", v, f);
            Ok(())
        });
    }
    for _ in 0..run.n(15000) {
        if run.over() { break; }
        let c = Cfg { dup_members: r.chance(1, 4), ..base() };
        let files = gen_files(&mut r, &c);
        let texts = print(&mut r, &files, true);
        let mut probes: Vec<String> = ["", ".", "A", "a", ".A", "A.", "p", "p.q", "nope"].iter().map(|s| s.to_string()).collect();
        for d in decls(&files) { probes.extend([format!(".{}", d.0), format!("{}.A", d.0), d.0.rsplit('.').next().unwrap().to_string(), d.0.to_lowercase(), format!("{} ", d.0)]); }
        let key = texts.join("\u{1}");
        run.case(Some(&key), &|| show(&texts), || {
            let ctx = parse(&texts).map_err(|e| format!("rejected: {}", e))?;
            check_lookups(&ctx, &files, &probes)
        });
    }
}
