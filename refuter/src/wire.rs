//! Independent model of proto3 wire data: schemas, a reference decoder and encoder, generators.
//! Written from the property statements, not from the code under test.
use crate::dict;
use crate::rng::Rng;
use bytes::Bytes;
use protofish::context::*;
use protofish::decode::*;
use protofish::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Double, Float, Int32, Int64, UInt32, UInt64, SInt32, SInt64,
    Fixed32, Fixed64, SFixed32, SFixed64, Bool, Str, Bytes,
    Msg(usize),
    Enum(usize),
}
pub const SCALARS: [Ty; 13] = [
    Ty::Double, Ty::Float, Ty::Int32, Ty::Int64, Ty::UInt32, Ty::UInt64, Ty::SInt32, Ty::SInt64,
    Ty::Fixed32, Ty::Fixed64, Ty::SFixed32, Ty::SFixed64, Ty::Bool,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mult { Single, Optional, Repeated, Packed }

#[derive(Clone, Debug)]
pub struct Field { pub num: u64, pub ty: Ty, pub mult: Mult }

impl Field {
    /// A type that cannot be packed is not, whatever the multiplicity says (only the modify API can say it).
    pub fn packed(&self) -> bool { self.mult == Mult::Packed && SCALARS.contains(&self.ty) }
}

#[derive(Clone, Debug, Default)]
pub struct Schema { pub msgs: Vec<Vec<Field>>, pub enums: usize }

pub fn ty_name(t: Ty) -> String {
    match t {
        Ty::Double => "double".into(), Ty::Float => "float".into(),
        Ty::Int32 => "int32".into(), Ty::Int64 => "int64".into(),
        Ty::UInt32 => "uint32".into(), Ty::UInt64 => "uint64".into(),
        Ty::SInt32 => "sint32".into(), Ty::SInt64 => "sint64".into(),
        Ty::Fixed32 => "fixed32".into(), Ty::Fixed64 => "fixed64".into(),
        Ty::SFixed32 => "sfixed32".into(), Ty::SFixed64 => "sfixed64".into(),
        Ty::Bool => "bool".into(), Ty::Str => "string".into(), Ty::Bytes => "bytes".into(),
        Ty::Msg(i) => format!("M{}", i), Ty::Enum(i) => format!("E{}", i),
    }
}

impl Schema {
    pub fn to_proto(&self) -> String {
        let mut s = String::from("syntax = \"proto3\";\n");
        for e in 0..self.enums {
            s.push_str(&format!("enum E{} {{ Z{} = 0; A{} = 1; }}\n", e, e, e));
        }
        for (i, m) in self.msgs.iter().enumerate() {
            s.push_str(&format!("message M{} {{", i));
            for f in m {
                let lab = match f.mult {
                    Mult::Single => "", Mult::Optional => "optional ",
                    Mult::Repeated | Mult::Packed => "repeated ",
                };
                let opt = match f.mult {
                    Mult::Repeated if SCALARS.contains(&f.ty) => " [packed = false]",
                    Mult::Packed if SCALARS.contains(&f.ty) => " [packed = true]",
                    Mult::Packed => " /* multiplicity RepeatedPacked, set with the modify API */",
                    _ => "",
                };
                s.push_str(&format!(" {}{} f{} = {}{};", lab, ty_name(f.ty), f.num, f.num, opt));
            }
            s.push_str(" }\n");
        }
        s
    }
    pub fn build(&self) -> Context {
        if self.msgs.iter().flatten().any(|f| f.mult == Mult::Packed && !f.packed()) {
            return self.build_by_insert(&mut Rng::new(1, 0));
        }
        Context::parse(&[self.to_proto()]).expect("schema parses")
    }
    /// The same schema through the insertion API (fields in random order).
    pub fn build_by_insert(&self, r: &mut Rng) -> Context {
        let mut c = Context::new();
        let pkg = c.insert_package(Package::new(None)).expect("package");
        let mut mrefs = vec![];
        let mut erefs = vec![];
        // Two passes: the references have to exist before the fields that use them, so insert
        // into a throw-away context first to learn them.
        for pass in 0..2 {
            let mut cc = Context::new();
            let p2 = cc.insert_package(Package::new(None)).expect("package");
            let mut nm = vec![];
            let mut ne = vec![];
            for e in 0..self.enums {
                let mut en = EnumInfo::new(format!("E{}", e), TypeParent::Package(p2));
                en.add_field(EnumField::new(format!("Z{}", e), 0)).expect("enum field");
                en.add_field(EnumField::new(format!("A{}", e), 1)).expect("enum field");
                ne.push(cc.insert_enum(en).expect("enum"));
            }
            for (i, m) in self.msgs.iter().enumerate() {
                let mut mi = MessageInfo::new(format!("M{}", i), TypeParent::Package(p2));
                if pass == 1 {
                    let mut fs = m.clone();
                    r.shuffle(&mut fs);
                    for f in &fs {
                        let vt = match f.ty {
                            Ty::Msg(k) => {
                                let v: &Vec<MessageRef> = &mrefs;
                                ValueType::Message(v[k])
                            }
                            Ty::Enum(k) => {
                                let v: &Vec<EnumRef> = &erefs;
                                ValueType::Enum(v[k])
                            }
                            t => scalar_vt(t),
                        };
                        let mut mf = MessageField::new(format!("f{}", f.num), f.num, vt);
                        mf.multiplicity = match f.mult {
                            Mult::Single => Multiplicity::Single,
                            Mult::Optional => Multiplicity::Optional,
                            Mult::Repeated => Multiplicity::Repeated,
                            Mult::Packed => Multiplicity::RepeatedPacked,
                        };
                        mi.add_field(mf).expect("field");
                    }
                }
                nm.push(cc.insert_message(mi).expect("message"));
            }
            mrefs = nm;
            erefs = ne;
            if pass == 1 {
                return cc;
            }
        }
        let _ = pkg;
        c
    }
}

pub fn scalar_vt(t: Ty) -> ValueType {
    match t {
        Ty::Double => ValueType::Double, Ty::Float => ValueType::Float,
        Ty::Int32 => ValueType::Int32, Ty::Int64 => ValueType::Int64,
        Ty::UInt32 => ValueType::UInt32, Ty::UInt64 => ValueType::UInt64,
        Ty::SInt32 => ValueType::SInt32, Ty::SInt64 => ValueType::SInt64,
        Ty::Fixed32 => ValueType::Fixed32, Ty::Fixed64 => ValueType::Fixed64,
        Ty::SFixed32 => ValueType::SFixed32, Ty::SFixed64 => ValueType::SFixed64,
        Ty::Bool => ValueType::Bool, Ty::Str => ValueType::String, Ty::Bytes => ValueType::Bytes,
        _ => unreachable!(),
    }
}

pub struct World {
    pub schema: Schema,
    pub ctx: Context,
    pub mrefs: Vec<MessageRef>,
    pub erefs: Vec<EnumRef>,
    pub proto: String,
}
impl World {
    pub fn new(schema: Schema, ctx: Context) -> World {
        let mrefs = (0..schema.msgs.len())
            .map(|i| ctx.get_message(&format!("M{}", i)).expect("message").self_ref)
            .collect();
        let erefs = (0..schema.enums)
            .map(|i| match ctx.get_type(&format!("E{}", i)) {
                Some(TypeInfo::Enum(e)) => e.self_ref,
                _ => panic!("enum E{} not found", i),
            })
            .collect();
        let proto = schema.to_proto();
        World { schema, ctx, mrefs, erefs, proto }
    }
    pub fn decode(&self, m: usize, b: &[u8]) -> MessageValue {
        self.ctx.resolve_message(self.mrefs[m]).decode(b, &self.ctx)
    }
}

pub fn wt_of(t: Ty) -> u8 {
    match t {
        Ty::Double | Ty::Fixed64 | Ty::SFixed64 => 1,
        Ty::Float | Ty::Fixed32 | Ty::SFixed32 => 5,
        Ty::Str | Ty::Bytes | Ty::Msg(_) => 2,
        _ => 0,
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Equality with floats compared by their bits.
pub fn veq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Packed(PackedArray::Double(x)), Value::Packed(PackedArray::Double(y))) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits())
        }
        (Value::Packed(PackedArray::Float(x)), Value::Packed(PackedArray::Float(y))) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits())
        }
        (Value::Message(x), Value::Message(y)) => meq(x, y),
        _ => a == b,
    }
}
pub fn feq(a: &FieldValue, b: &FieldValue) -> bool {
    a.number == b.number && veq(&a.value, &b.value)
}
pub fn meq(a: &MessageValue, b: &MessageValue) -> bool {
    a.msg_ref == b.msg_ref
        && a.garbage == b.garbage
        && a.fields.len() == b.fields.len()
        && a.fields.iter().zip(&b.fields).all(|(x, y)| feq(x, y))
}

/// Reads a varint of at most ten bytes; bits above the 64th are dropped.
pub fn rd_varint(b: &[u8]) -> Option<(u64, usize)> {
    let mut acc: u128 = 0;
    for (i, x) in b.iter().take(10).enumerate() {
        acc |= ((*x & 0x7f) as u128) << (7 * i);
        if *x < 0x80 {
            return Some((acc as u64, i + 1));
        }
    }
    None
}
pub fn wr_varint(mut v: u64, out: &mut Vec<u8>) {
    while v > 127 {
        out.push((v % 128) as u8 + 128);
        v /= 128;
    }
    out.push(v as u8);
}
fn unzig(u: u64) -> i64 {
    let half = (u / 2) as i128;
    (if u % 2 == 0 { half } else { -half - 1 }) as i64
}
fn zig(v: i64) -> u64 {
    let v = v as i128;
    (if v >= 0 { 2 * v } else { -2 * v - 1 }) as u64
}

/// What the reference decoder made of a field.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class { Scalar, Packed, Message, Unknown, Truncated }

pub struct RField { pub value: FieldValue, pub class: Class, pub start: usize, pub end: usize }
pub struct RMsg { pub fields: Vec<RField>, pub garbage: Option<usize> }

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

fn scalar(w: &World, t: Ty, b: &[u8]) -> Option<(Value, usize)> {
    let fixed = |n: usize| if b.len() >= n { Some((le(&b[..n]), n)) } else { None };
    Some(match t {
        Ty::Double => { let (x, n) = fixed(8)?; (Value::Double(f64::from_bits(x)), n) }
        Ty::Fixed64 => { let (x, n) = fixed(8)?; (Value::Fixed64(x), n) }
        Ty::SFixed64 => { let (x, n) = fixed(8)?; (Value::SFixed64(x as i64), n) }
        Ty::Float => { let (x, n) = fixed(4)?; (Value::Float(f32::from_bits(x as u32)), n) }
        Ty::Fixed32 => { let (x, n) = fixed(4)?; (Value::Fixed32(x as u32), n) }
        Ty::SFixed32 => { let (x, n) = fixed(4)?; (Value::SFixed32(x as u32 as i32), n) }
        Ty::Str | Ty::Bytes => {
            let (l, n) = rd_varint(b)?;
            if l > (b.len() - n) as u64 { return None; }
            let p = &b[n..n + l as usize];
            let v = if t == Ty::Bytes { Value::Bytes(Bytes::copy_from_slice(p)) }
                else { Value::String(String::from_utf8_lossy(p).into_owned()) };
            (v, n + l as usize)
        }
        Ty::Msg(_) => unreachable!(),
        _ => {
            let (u, n) = rd_varint(b)?;
            let v = match t {
                Ty::Int32 => Value::Int32((u & 0xffff_ffff) as u32 as i32),
                Ty::Int64 => Value::Int64(u as i64),
                Ty::UInt32 => Value::UInt32((u & 0xffff_ffff) as u32),
                Ty::UInt64 => Value::UInt64(u),
                Ty::SInt32 => Value::SInt32(unzig(u & 0xffff_ffff) as i32),
                Ty::SInt64 => Value::SInt64(unzig(u)),
                Ty::Bool => Value::Bool(u != 0),
                Ty::Enum(e) => Value::Enum(EnumValue { enum_ref: w.erefs[e], value: u as i64 }),
                _ => unreachable!(),
            };
            (v, n)
        }
    })
}

macro_rules! collect {
    ($vals:expr, $var:ident) => {
        PackedArray::$var($vals.into_iter().map(|v| match v { Value::$var(x) => x, _ => unreachable!() }).collect())
    };
}
pub fn pack(t: Ty, vals: Vec<Value>) -> PackedArray {
    match t {
        Ty::Double => collect!(vals, Double), Ty::Float => collect!(vals, Float),
        Ty::Int32 => collect!(vals, Int32), Ty::Int64 => collect!(vals, Int64),
        Ty::UInt32 => collect!(vals, UInt32), Ty::UInt64 => collect!(vals, UInt64),
        Ty::SInt32 => collect!(vals, SInt32), Ty::SInt64 => collect!(vals, SInt64),
        Ty::Fixed32 => collect!(vals, Fixed32), Ty::Fixed64 => collect!(vals, Fixed64),
        Ty::SFixed32 => collect!(vals, SFixed32), Ty::SFixed64 => collect!(vals, SFixed64),
        Ty::Bool => collect!(vals, Bool),
        _ => unreachable!(),
    }
}

/// Reference decoder for one message, from the property statements.
pub fn ref_decode(w: &World, m: usize, b: &[u8]) -> (MessageValue, RMsg) {
    let out = ref_items(w, m, b);
    let mv = MessageValue {
        msg_ref: w.mrefs[m],
        fields: out.fields.iter().map(|f| f.value.clone()).collect(),
        garbage: out.garbage.map(|g| Bytes::copy_from_slice(&b[g..])),
    };
    (mv, out)
}
fn ref_value(w: &World, m: usize, b: &[u8]) -> MessageValue {
    let out = ref_items(w, m, b);
    MessageValue { msg_ref: w.mrefs[m], garbage: out.garbage.map(|g| Bytes::copy_from_slice(&b[g..])), fields: out.fields.into_iter().map(|f| f.value).collect() }
}
fn ref_items(w: &World, m: usize, b: &[u8]) -> RMsg {
    let mut pos = 0;
    let mut out = RMsg { fields: vec![], garbage: None };
    while pos < b.len() {
        let start = pos;
        let (tag, n) = match rd_varint(&b[pos..]) {
            Some(x) => x,
            None => { out.garbage = Some(pos); break; }
        };
        pos += n;
        let (num, wt) = (tag / 8, (tag % 8) as u8);
        let rest = &b[pos..];
        let decl = w.schema.msgs[m].iter().find(|f| f.num == num);
        let trunc = |bytes: &[u8]| Value::Incomplete(wt, Bytes::copy_from_slice(bytes));
        let known = match decl {
            Some(f) if f.packed() => wt == 2,
            Some(f) => wt_of(f.ty) == wt,
            None => false,
        };
        let (value, used, class) = if !known {
            let r = match wt {
                0 => rd_varint(rest).map(|(u, n)| (UnknownValue::Varint(u as u128), n)),
                1 if rest.len() >= 8 => Some((UnknownValue::Fixed64(le(&rest[..8])), 8)),
                5 if rest.len() >= 4 => Some((UnknownValue::Fixed32(le(&rest[..4]) as u32), 4)),
                1 | 5 => None,
                2 => rd_varint(rest).and_then(|(l, n)| {
                    if l > (rest.len() - n) as u64 { None } else {
                        let e = n + l as usize;
                        Some((UnknownValue::VariableLength(Bytes::copy_from_slice(&rest[n..e])), e))
                    }
                }),
                _ => Some((UnknownValue::Invalid(wt, Bytes::copy_from_slice(rest)), rest.len())),
            };
            match r {
                Some((u, n)) => (Value::Unknown(u), n, Class::Unknown),
                None => (trunc(rest), rest.len(), Class::Truncated),
            }
        } else {
            let f = decl.unwrap();
            if f.packed() {
                match rd_varint(rest) {
                    Some((l, n)) if l <= (rest.len() - n) as u64 => {
                        let e = n + l as usize;
                        let mut p = &rest[n..e];
                        let mut vals = vec![];
                        let mut ok = true;
                        while !p.is_empty() {
                            match scalar(w, f.ty, p) {
                                Some((v, k)) => { vals.push(v); p = &p[k..]; }
                                None => { ok = false; break; }
                            }
                        }
                        if ok { (Value::Packed(pack(f.ty, vals)), e, Class::Packed) }
                        else { (trunc(&rest[..e]), e, Class::Truncated) }
                    }
                    _ => (trunc(rest), rest.len(), Class::Truncated),
                }
            } else if let Ty::Msg(k) = f.ty {
                match rd_varint(rest) {
                    Some((l, n)) if l <= (rest.len() - n) as u64 => {
                        let e = n + l as usize;
                        let inner = ref_value(w, k, &rest[n..e]);
                        (Value::Message(Box::new(inner)), e, Class::Message)
                    }
                    _ => (trunc(rest), rest.len(), Class::Truncated),
                }
            } else {
                match scalar(w, f.ty, rest) {
                    Some((v, n)) => (v, n, Class::Scalar),
                    None => (trunc(rest), rest.len(), Class::Truncated),
                }
            }
        };
        pos += used;
        out.fields.push(RField { value: FieldValue { number: num, value }, class, start, end: pos });
    }
    out
}

pub fn ref_wt(v: &Value) -> u8 {
    match v {
        Value::Double(_) | Value::Fixed64(_) | Value::SFixed64(_) => 1,
        Value::Float(_) | Value::Fixed32(_) | Value::SFixed32(_) => 5,
        Value::String(_) | Value::Bytes(_) | Value::Message(_) | Value::Packed(_) => 2,
        Value::Incomplete(w, _) => *w,
        Value::Unknown(UnknownValue::Varint(_)) => 0,
        Value::Unknown(UnknownValue::Fixed64(_)) => 1,
        Value::Unknown(UnknownValue::VariableLength(_)) => 2,
        Value::Unknown(UnknownValue::Fixed32(_)) => 5,
        Value::Unknown(UnknownValue::Invalid(w, _)) => *w,
        _ => 0,
    }
}

pub fn ref_encode_value(v: &Value, out: &mut Vec<u8>) {
    let mut lenpre = |b: &[u8], out: &mut Vec<u8>| {
        wr_varint(b.len() as u64, out);
        out.extend_from_slice(b);
    };
    match v {
        Value::Double(x) => out.extend_from_slice(&x.to_bits().to_le_bytes()),
        Value::Float(x) => out.extend_from_slice(&x.to_bits().to_le_bytes()),
        Value::Int32(x) => wr_varint(*x as i64 as u64, out),
        Value::Int64(x) => wr_varint(*x as u64, out),
        Value::UInt32(x) => wr_varint(*x as u64, out),
        Value::UInt64(x) => wr_varint(*x, out),
        Value::SInt32(x) => wr_varint(zig(*x as i64), out),
        Value::SInt64(x) => wr_varint(zig(*x), out),
        Value::Fixed32(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::Fixed64(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::SFixed32(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::SFixed64(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::Bool(x) => out.push(*x as u8),
        Value::String(s) => lenpre(s.as_bytes(), out),
        Value::Bytes(s) => lenpre(s, out),
        Value::Enum(e) => wr_varint(e.value as u64, out),
        Value::Message(m) => { let b = ref_encode(m); lenpre(&b, out) }
        Value::Packed(p) => {
            let mut b = vec![];
            macro_rules! each { ($v:expr, $var:ident) => { for x in $v { ref_encode_value(&Value::$var(*x), &mut b) } } }
            match p {
                PackedArray::Double(v) => each!(v, Double), PackedArray::Float(v) => each!(v, Float),
                PackedArray::Int32(v) => each!(v, Int32), PackedArray::Int64(v) => each!(v, Int64),
                PackedArray::UInt32(v) => each!(v, UInt32), PackedArray::UInt64(v) => each!(v, UInt64),
                PackedArray::SInt32(v) => each!(v, SInt32), PackedArray::SInt64(v) => each!(v, SInt64),
                PackedArray::Fixed32(v) => each!(v, Fixed32), PackedArray::Fixed64(v) => each!(v, Fixed64),
                PackedArray::SFixed32(v) => each!(v, SFixed32), PackedArray::SFixed64(v) => each!(v, SFixed64),
                PackedArray::Bool(v) => each!(v, Bool),
            }
            lenpre(&b, out)
        }
        Value::Incomplete(_, b) => out.extend_from_slice(b),
        Value::Unknown(UnknownValue::Varint(u)) => wr_varint(*u as u64, out),
        Value::Unknown(UnknownValue::Fixed64(u)) => out.extend_from_slice(&u.to_le_bytes()),
        Value::Unknown(UnknownValue::Fixed32(u)) => out.extend_from_slice(&u.to_le_bytes()),
        Value::Unknown(UnknownValue::VariableLength(b)) => lenpre(b, out),
        Value::Unknown(UnknownValue::Invalid(_, b)) => out.extend_from_slice(b),
    }
}
pub fn ref_encode(m: &MessageValue) -> Vec<u8> {
    let mut out = vec![];
    for f in &m.fields {
        wr_varint(f.number * 8 + ref_wt(&f.value) as u64, &mut out);
        ref_encode_value(&f.value, &mut out);
    }
    out
}

/// Is every complete item of the input in canonical form (see C04)?
pub fn is_canonical(w: &World, m: usize, b: &[u8]) -> bool {
    let (_, r) = ref_decode(w, m, b);
    for f in &r.fields {
        let item = &b[f.start..f.end];
        let (tag, n) = rd_varint(item).unwrap();
        let mut t = vec![];
        wr_varint(tag, &mut t);
        if t != item[..n] { return false; }
        match &f.value.value {
            Value::Incomplete(..) | Value::Unknown(UnknownValue::Invalid(..)) => {}
            Value::Message(_) => {
                let k = match w.schema.msgs[m].iter().find(|d| d.num == f.value.number).unwrap().ty {
                    Ty::Msg(k) => k, _ => unreachable!() };
                let (l, ln) = rd_varint(&item[n..]).unwrap();
                let mut lb = vec![];
                wr_varint(l, &mut lb);
                if lb != item[n..n + ln] { return false; }
                // Garbage of a nested message is dropped by encode; only the outermost garbage
                // can be appended by the caller.
                let inner = &item[n + ln..];
                let (iv, _) = ref_decode(w, k, inner);
                if has_garbage(&iv) || !is_canonical(w, k, inner) { return false; }
            }
            v => {
                if let Value::String(s) = v {
                    let (_, ln) = rd_varint(&item[n..]).unwrap();
                    if s.as_bytes() != &item[n + ln..] { return false; }
                }
                let mut e = vec![];
                ref_encode_value(v, &mut e);
                if e != item[n..] { return false; }
            }
        }
    }
    true
}
fn has_garbage(m: &MessageValue) -> bool {
    m.garbage.is_some() || m.fields.iter().any(|f| match &f.value { Value::Message(i) => has_garbage(i), _ => false })
}

// ---------------------------------------------------------------- generators

/// One message with a singular field of every type, one with every type packed / repeated /
/// optional, and recursion.
pub fn full_schema() -> Schema {
    let mut s = Schema { msgs: vec![vec![], vec![], vec![]], enums: 2 };
    let all: Vec<Ty> = SCALARS.iter().copied()
        .chain([Ty::Str, Ty::Bytes, Ty::Enum(0), Ty::Enum(1), Ty::Msg(0), Ty::Msg(1), Ty::Msg(2)]).collect();
    for (i, t) in all.iter().enumerate() {
        s.msgs[0].push(Field { num: i as u64 + 1, ty: *t, mult: Mult::Single });
    }
    for (i, t) in SCALARS.iter().enumerate() {
        s.msgs[1].push(Field { num: i as u64 + 1, ty: *t, mult: Mult::Packed });
    }
    for (i, t) in all.iter().enumerate() {
        let mult = if i % 3 == 0 { Mult::Optional } else { Mult::Repeated };
        s.msgs[1].push(Field { num: 20 + i as u64, ty: *t, mult });
    }
    s.msgs[1].push(Field { num: (1 << 29) - 1, ty: Ty::SInt64, mult: Mult::Packed });
    s.msgs[1].push(Field { num: 5000, ty: Ty::Msg(0), mult: Mult::Repeated });
    s
}

pub fn rand_schema(r: &mut Rng) -> Schema {
    let nm = 1 + r.below(4);
    let ne = r.below(3);
    let mut s = Schema { msgs: vec![], enums: ne };
    for _ in 0..nm {
        let mut fs: Vec<Field> = vec![];
        for _ in 0..r.below(7) {
            let num = match r.below(6) {
                _ if r.chance(1, 12) => *r.pick(&[19000, 19999, 1 << 29, 1 << 32, (1 << 61) - 1, 536_870_912 + 7]),
                0 => 1 + r.below(40) as u64,
                1 => 15 + r.below(3) as u64,
                2 => *r.pick(&[2047, 2048, 262143, 262144, (1 << 29) - 1]),
                _ => 1 + r.below(8) as u64,
            };
            let num = dict::int(r).filter(|n| *n >= 1 && *n < 1 << 61).unwrap_or(num);
            if fs.iter().any(|f| f.num == num) { continue; }
            let ty = match r.below(10) {
                0 => Ty::Str,
                1 => Ty::Bytes,
                2 | 3 => Ty::Msg(r.below(nm)),
                4 if ne > 0 => Ty::Enum(r.below(ne)),
                _ => *r.pick(&SCALARS),
            };
            let mult = match r.below(5) {
                0 => Mult::Optional,
                1 => Mult::Repeated,
                2 | 3 => Mult::Packed,
                _ => Mult::Single,
            };
            fs.push(Field { num, ty, mult });
        }
        s.msgs.push(fs);
    }
    s
}

/// NaNs of every kind, infinities, subnormals, and numbers that need all their bits.
pub const NANS32: [u32; 12] = [0x7fc0_0123, 0x7f80_0001, 0xff80_0001, 0x7fbf_ffff, 0xffff_ffff, 0x7f80_0000, 0xff80_0000, 1, 0x8000_0001, 0x007f_ffff, 0x3f80_0001, 0x7f7f_ffff];
pub const NANS64: [u64; 12] = [0x7ff8_0000_0000_0123, 0x7ff0_0000_0000_0001, 0xfff0_0000_0000_0001, 0x7ff7_ffff_ffff_ffff, 0xffff_ffff_ffff_ffff, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 1,
    0x8000_0000_0000_0001, 0x000f_ffff_ffff_ffff, 0x3ff0_0000_0000_0001, 0x7fef_ffff_ffff_ffff];
pub fn rand_u64(r: &mut Rng) -> u64 {
    if let Some(n) = dict::int(r) { return n; }
    match r.below(8) {
        0 => r.below(4) as u64,
        1 => { let k = r.below(64); (1u64 << k).wrapping_sub(r.below(2) as u64) }
        2 => { let k = 7 * r.below(10) as u32; (1u64.checked_shl(k).unwrap_or(0)).wrapping_sub(r.below(3) as u64).wrapping_add(1) }
        3 => *r.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0xffff_fffe, 0x7fff_ffff_ffff_ffff,
                       0x8000_0000_0000_0000, u64::MAX, u64::MAX - 1, 0xffff_ffff_8000_0000, 0xffff_ffff_7fff_ffff,
                       0xffff_ffff_ffff_fffe]),
        4 => r.below(300) as u64,
        5 => r.next() >> r.below(64),
        6 => !(r.next() >> r.below(64)),
        _ => r.next(),
    }
}

/// A varint encoding; `loose` also gives over-long ones and junk in the tenth byte.
pub fn put_varint(r: &mut Rng, v: u64, loose: bool, out: &mut Vec<u8>) {
    let mut b = vec![];
    wr_varint(v, &mut b);
    if loose && r.chance(1, 4) {
        let want = b.len() + 1 + r.below(10usize.saturating_sub(b.len()).max(1));
        while b.len() < want && b.len() < 10 {
            let l = b.len();
            b[l - 1] |= 0x80;
            b.push(0);
        }
        if b.len() == 10 && r.chance(1, 2) {
            b[9] = (b[9] & 1) | (r.next() as u8 & 0x7e);
        }
    }
    out.extend_from_slice(&b);
}

pub fn rand_utf8(r: &mut Rng) -> String {
    if let Some(t) = dict::utf8(r) { return t.to_string(); }
    let n = match r.below(8) { 0 => 127 + r.below(3), _ => r.below(6) };
    let n = dict::size(r, 1, 40, 1 << 21).unwrap_or(n);
    if n < 10000 && r.chance(1, 6) {
        // Runs of one character, at the start or the end.
        let c = *r.pick(&['\u{0}', ' ', 'a', '\n', 'é']);
        let mut s: String = std::iter::repeat(c).take(n / 2 + 1).collect();
        if r.chance(1, 2) { s.push('x') } else { s.insert(0, 'x') }
        return s;
    }
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '\u{0}', 'é', '€', '𝄞', '\u{7f}', '\u{80}'])).collect()
}
pub fn rand_bytes(r: &mut Rng) -> Vec<u8> {
    if let Some(t) = dict::text(r) { return t.to_vec(); }
    let n = match r.below(8) { 0 => 127 + r.below(3), _ => r.below(6) };
    let n = dict::size(r, 1, 40, 1 << 21).unwrap_or(n);
    let mut v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    if r.chance(1, 6) {
        // A run of one byte, at the start or the end.
        let b = *r.pick(&[0u8, 0xff, 0x80, b' ', 1]);
        let k = 1 + r.below(4);
        for _ in 0..k { if k % 2 == 0 { v.insert(0, b) } else { v.push(b) } }
    }
    v
}

#[derive(Clone, Copy)]
pub struct Style {
    pub loose: bool,
    pub unknown: bool,
    pub invalid: bool,
    pub bad_inner: bool,
}

/// Payload of one element of a type, without tag.
pub fn put_scalar(r: &mut Rng, t: Ty, st: Style, out: &mut Vec<u8>) {
    match t {
        Ty::Double | Ty::Fixed64 | Ty::SFixed64 => {
            let v = match r.below(4) { 0 => rand_u64(r), 1 => *r.pick(&NANS64), _ => r.next() };
            out.extend_from_slice(&v.to_le_bytes())
        }
        Ty::Float | Ty::Fixed32 | Ty::SFixed32 => {
            let v = match r.below(4) { 0 => rand_u64(r) as u32, 1 => *r.pick(&NANS32), _ => r.next() as u32 };
            out.extend_from_slice(&v.to_le_bytes())
        }
        Ty::Str => {
            let s = if st.loose && r.chance(1, 3) { rand_bytes(r) } else { rand_utf8(r).into_bytes() };
            put_varint(r, s.len() as u64, st.loose, out);
            out.extend_from_slice(&s);
        }
        Ty::Bytes => {
            let s = rand_bytes(r);
            put_varint(r, s.len() as u64, st.loose, out);
            out.extend_from_slice(&s);
        }
        Ty::Msg(_) => unreachable!(),
        _ => {
            let v = rand_u64(r);
            let v = if st.loose { v } else {
                match t {
                    Ty::Int32 => v as u32 as i32 as i64 as u64,
                    Ty::UInt32 | Ty::SInt32 => v & 0xffff_ffff,
                    Ty::Bool => v & 1,
                    _ => v,
                }
            };
            put_varint(r, v, st.loose, out);
        }
    }
}

pub fn put_known(r: &mut Rng, s: &Schema, f: &Field, depth: usize, st: Style, out: &mut Vec<u8>) {
    if f.packed() {
        put_varint(r, f.num * 8 + 2, st.loose, out);
        let mut p = vec![];
        let n = match r.below(6) { 0 => 0, 1 => 20, _ => 1 + r.below(4) };
        let n = dict::size(r, 1, 20, 20000).unwrap_or(n);
        for _ in 0..n { put_scalar(r, f.ty, st, &mut p); }
        put_varint(r, p.len() as u64, st.loose, out);
        out.extend_from_slice(&p);
    } else {
        put_varint(r, f.num * 8 + wt_of(f.ty) as u64, st.loose, out);
        match f.ty {
            Ty::Msg(k) => {
                let mut p = if depth == 0 { vec![] } else { rand_msg_bytes(r, s, k, depth - 1, st) };
                if st.bad_inner && r.chance(1, 4) { damage(r, &mut p); }
                put_varint(r, p.len() as u64, st.loose, out);
                out.extend_from_slice(&p);
            }
            t => put_scalar(r, t, st, out),
        }
    }
}

pub fn put_unknown(r: &mut Rng, s: &Schema, m: usize, st: Style, out: &mut Vec<u8>) {
    // An undeclared number with any wire type, or a declared one with another wire type.
    let fs = &s.msgs[m];
    let (num, not) = if !fs.is_empty() && r.chance(1, 2) {
        let f = r.pick(fs);
        (f.num, if f.packed() { 2 } else { wt_of(f.ty) })
    } else {
        let mut n = match r.below(5) { 0 => 0, 1 => rand_u64(r) >> 3, 2 => (1 << 61) - 1, 3 if r.chance(1, 4) => *r.pick(&[19000, 19999, 1 << 29, (1 << 29) - 1]), _ => 1 + r.below(60) as u64 };
        if let Some(d) = dict::int(r) { n = d % (1 << 61); }
        while fs.iter().any(|f| f.num == n) { n = (n + 1) % (1 << 61); }
        (n, 9)
    };
    let wts: Vec<u8> = [0u8, 1, 2, 5].iter().copied().filter(|w| *w != not).collect();
    let mut wt = *r.pick(&wts);
    if st.invalid && r.chance(1, 6) { wt = *r.pick(&[3u8, 4, 6, 7]); }
    put_varint(r, num * 8 + wt as u64, st.loose, out);
    match wt {
        0 => { let v = rand_u64(r); put_varint(r, v, st.loose, out) }
        1 => out.extend_from_slice(&r.next().to_le_bytes()),
        5 => out.extend_from_slice(&(r.next() as u32).to_le_bytes()),
        2 => { let b = rand_bytes(r); put_varint(r, b.len() as u64, st.loose, out); out.extend_from_slice(&b) }
        _ => {}
    }
}

pub fn rand_msg_bytes(r: &mut Rng, s: &Schema, m: usize, depth: usize, st: Style) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..r.below(5) {
        let fs = &s.msgs[m];
        if fs.is_empty() || (st.unknown && r.chance(1, 3)) {
            if st.unknown { put_unknown(r, s, m, st, &mut out); }
        } else {
            let f = r.pick(fs).clone();
            put_known(r, s, &f, depth, st, &mut out);
        }
    }
    out
}

pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(5) {
        0 | 1 => { let n = r.below(b.len() + 1); b.truncate(n); }
        2 => { if !b.is_empty() { let i = r.below(b.len()); b[i] = r.next() as u8; } }
        3 => { let n = 1 + r.below(12); for _ in 0..n { b.push(0x80 | r.next() as u8); } }
        _ => { let i = r.below(b.len() + 1); b.insert(i, r.next() as u8); }
    }
}

/// Random value of a declared type.
pub fn rand_value(r: &mut Rng, w: &World, t: Ty, depth: usize) -> Value {
    let u = rand_u64(r);
    match t {
        Ty::Double => Value::Double(f64::from_bits(match r.below(6) { 0 | 1 => u, 2 => *r.pick(&NANS64), _ => r.next() })),
        Ty::Float => Value::Float(f32::from_bits(match r.below(6) { 0 | 1 => u as u32, 2 => *r.pick(&NANS32), _ => r.next() as u32 })),
        Ty::Int32 => Value::Int32(u as i32), Ty::Int64 => Value::Int64(u as i64),
        Ty::UInt32 => Value::UInt32(u as u32), Ty::UInt64 => Value::UInt64(u),
        Ty::SInt32 => Value::SInt32(u as i32), Ty::SInt64 => Value::SInt64(u as i64),
        Ty::Fixed32 => Value::Fixed32(u as u32), Ty::Fixed64 => Value::Fixed64(u),
        Ty::SFixed32 => Value::SFixed32(u as i32), Ty::SFixed64 => Value::SFixed64(u as i64),
        Ty::Bool => Value::Bool(u & 1 == 1),
        Ty::Str => Value::String(rand_utf8(r)), Ty::Bytes => Value::Bytes(Bytes::from(rand_bytes(r))),
        Ty::Enum(e) => Value::Enum(EnumValue { enum_ref: w.erefs[e], value: u as i64 }),
        Ty::Msg(k) => Value::Message(Box::new(rand_conforming(r, w, k, depth.saturating_sub(1)))),
    }
}
pub fn rand_unknown(r: &mut Rng) -> UnknownValue {
    match r.below(4) {
        0 => UnknownValue::Varint(rand_u64(r) as u128),
        1 => UnknownValue::Fixed64(rand_u64(r)),
        2 => UnknownValue::VariableLength(Bytes::from(rand_bytes(r))),
        _ => UnknownValue::Fixed32(rand_u64(r) as u32),
    }
}
pub fn rand_conforming(r: &mut Rng, w: &World, m: usize, depth: usize) -> MessageValue {
    let mut fields = vec![];
    let fs = w.schema.msgs[m].clone();
    for _ in 0..r.below(6) {
        if fs.is_empty() || r.chance(1, 4) {
            let u = rand_unknown(r);
            let wt = ref_wt(&Value::Unknown(u.clone()));
            let number = if !fs.is_empty() && r.chance(1, 2) { r.pick(&fs).num } else { match r.below(3) { 0 => rand_u64(r) >> 3, _ => r.below(70) as u64 } };
            let number = if fs.iter().any(|f| f.num == number) { number } else { dict::int(r).filter(|n| *n < 1 << 61).unwrap_or(number) };
            if let Some(f) = fs.iter().find(|f| f.num == number) {
                let dw = if f.packed() { 2 } else { wt_of(f.ty) };
                if dw == wt { continue; }
            }
            fields.push(FieldValue { number, value: Value::Unknown(u) });
        } else {
            let f = r.pick(&fs).clone();
            if f.packed() {
                let n = match r.below(6) { 0 => 0, 1 => 18, _ => r.below(4) };
                let n = dict::size(r, 1, 20, 20000).unwrap_or(n);
                let v = (0..n).map(|_| rand_value(r, w, f.ty, 0)).collect();
                fields.push(FieldValue { number: f.num, value: Value::Packed(pack(f.ty, v)) });
            } else {
                if matches!(f.ty, Ty::Msg(_)) && depth == 0 { continue; }
                fields.push(FieldValue { number: f.num, value: rand_value(r, w, f.ty, depth) });
            }
        }
    }
    MessageValue { msg_ref: w.mrefs[m], fields, garbage: None }
}
/// Any message value the public types allow, within the limits of C08.
pub fn rand_any(r: &mut Rng, w: &World, depth: usize) -> MessageValue {
    let mut fields = vec![];
    for _ in 0..r.below(6) {
        let number = match r.below(4) { 0 => rand_u64(r) >> 3, 1 => (1 << 61) - 1, _ => r.below(40) as u64 };
        let number = dict::int(r).filter(|n| *n < 1 << 61).unwrap_or(number);
        let value = match r.below(10) {
            0 => Value::Unknown(rand_unknown(r)),
            1 => Value::Unknown(UnknownValue::Invalid(r.below(8) as u8, Bytes::from(rand_bytes(r)))),
            2 => Value::Incomplete(r.below(8) as u8, Bytes::from(rand_bytes(r))),
            3 if depth > 0 => Value::Message(Box::new(rand_any(r, w, depth - 1))),
            4 if !w.erefs.is_empty() => Value::Enum(EnumValue { enum_ref: w.erefs[0], value: rand_u64(r) as i64 }),
            5 | 6 => {
                let t = *r.pick(&SCALARS);
                let n = match r.below(5) { 0 => 0, 1 => 30, _ => r.below(5) };
                let n = dict::size(r, 1, 20, 20000).unwrap_or(n);
                let v = (0..n).map(|_| rand_value(r, w, t, 0)).collect();
                Value::Packed(pack(t, v))
            }
            7 => Value::String(rand_utf8(r)),
            8 => Value::Bytes(Bytes::from(rand_bytes(r))),
            _ => { let t = *r.pick(&SCALARS); rand_value(r, w, t, 0) }
        };
        fields.push(FieldValue { number, value });
    }
    let garbage = if r.chance(1, 5) { Some(Bytes::from(rand_bytes(r))) } else { None };
    MessageValue { msg_ref: w.mrefs[0], fields, garbage }
}
