//! Checks of the wire properties C01-C09 and C19 against the real decoder and encoder.
use crate::dict;
use crate::rng::Rng;
use crate::run::Run;
use crate::wire::*;
use bytes::Bytes;
use protofish::decode::*;
use std::time::{Duration, Instant};

fn desc(w: &World, m: usize, b: &[u8]) -> String {
    format!("message M{} of schema:\n{}bytes: {}", m, w.proto, hex(b))
}
fn desc_v(w: &World, v: &MessageValue) -> String {
    format!("schema:\n{}value: {:?}", w.proto, v)
}

fn class_prop(c: Class) -> &'static str {
    match c {
        Class::Scalar => "C02",
        Class::Packed => "C03",
        Class::Message => "C07",
        Class::Unknown => "C05",
        Class::Truncated => "C06",
    }
}

/// Compares a decoding with the reference decoding; on a difference says which property it breaks.
fn diff(w: &World, m: usize, b: &[u8], got: &MessageValue) -> Option<(&'static str, String)> {
    let (want, r) = ref_decode(w, m, b);
    if meq(&want, got) {
        return None;
    }
    let msg = |i: usize| format!(
        "field #{}: decoded {:?}, expected {:?}", i,
        got.fields.get(i), want.fields.get(i)
    );
    if got.msg_ref != want.msg_ref {
        return Some(("C07", format!("wrong message type {:?}, expected {:?}", got.msg_ref, want.msg_ref)));
    }
    for i in 0..want.fields.len().max(got.fields.len()) {
        let same = match (want.fields.get(i), got.fields.get(i)) {
            (Some(x), Some(y)) => feq(x, y),
            _ => false,
        };
        if same {
            continue;
        }
        // Was the field before consumed properly? Decode the rest on its own.
        let start = r.fields.get(i).map(|f| f.start).or(r.garbage).unwrap_or(b.len());
        if i > 0 {
            let alone = w.decode(m, &b[start..]);
            let (rw, _) = ref_decode(w, m, &b[start..]);
            if meq(&alone, &rw) {
                return Some((class_prop(r.fields[i - 1].class), format!("after field #{}: {}", i - 1, msg(i))));
            }
        }
        // A difference inside a nested message belongs to what differs there.
        if let (Some(x), Some(y)) = (want.fields.get(i), got.fields.get(i)) {
            if let (Value::Message(_), Value::Message(gi)) = (&x.value, &y.value) {
                if x.number == y.number {
                    if let Some(f) = w.schema.msgs[m].iter().find(|f| f.num == x.number) {
                        if let Ty::Msg(k) = f.ty {
                            let item = &b[r.fields[i].start..r.fields[i].end];
                            let n = rd_varint(item).unwrap().1;
                            let ln = rd_varint(&item[n..]).unwrap().1;
                            let inner = &item[n + ln..];
                            let alone = w.decode(k, inner);
                            if meq(&alone, gi) {
                                if let Some(d) = diff(w, k, inner, gi) {
                                    return Some((d.0, format!("in nested field #{}: {}", i, d.1)));
                                }
                            }
                        }
                    }
                }
            }
        }
        let class = r.fields.get(i).map(|f| f.class).unwrap_or(Class::Truncated);
        return Some((class_prop(class), msg(i)));
    }
    Some(("C06", format!("garbage {:?}, expected {:?}", got.garbage, want.garbage)))
}

/// Decodes and reports a difference only if it breaks `prop`.
fn check_diff(prop: &str, w: &World, m: usize, b: &[u8]) -> Result<(), String> {
    let got = w.decode(m, b);
    match diff(w, m, b, &got) {
        Some((p, what)) if p == prop => Err(what),
        _ => Ok(()),
    }
}

fn fixed_world() -> World {
    let s = full_schema();
    let c = s.build();
    World::new(s, c)
}
fn rand_world(r: &mut Rng) -> World {
    let s = rand_schema(r);
    let c = if r.chance(1, 3) { s.build_by_insert(r) } else { s.build() };
    World::new(s, c)
}

const WILD: Style = Style { loose: true, unknown: true, invalid: true, bad_inner: true };
const CANON: Style = Style { loose: false, unknown: true, invalid: true, bad_inner: false };
const SOUND: Style = Style { loose: true, unknown: true, invalid: false, bad_inner: false };

/// Calls `f` with all byte strings up to `len` over an alphabet, as message M of the fixed world.
fn exhaust(run: &mut Run, w: &World, m: usize, len: usize, alpha: &[u8], f: &dyn Fn(&[u8]) -> Result<(), String>) {
    for l in 0..=len {
        let mut idx = vec![0usize; l];
        loop {
            let b: Vec<u8> = idx.iter().map(|i| alpha[*i]).collect();
            run.case(Some(&hex(&b)), &|| desc(w, m, &b), || f(&b));
            if run.failure.is_some() {
                return;
            }
            let mut k = 0;
            while k < l {
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == l {
                break;
            }
        }
    }
    run.exhaustive_parts.push(format!("all byte strings of up to {} bytes over an alphabet of {} as M{} of the full schema", len, alpha.len(), m));
}

/// Schemas with one field of each type and multiplicity, as number 1, next to a sentinel.
fn unit_schemas() -> Vec<(World, Field)> {
    let mut out = vec![];
    let mut tys: Vec<Ty> = SCALARS.to_vec();
    tys.extend([Ty::Str, Ty::Bytes, Ty::Enum(0), Ty::Msg(0), Ty::Msg(1)]);
    for t in tys {
        for mult in [Mult::Single, Mult::Optional, Mult::Repeated, Mult::Packed] {
            let f = Field { num: 1, ty: t, mult };
            let s = Schema {
                msgs: vec![
                    vec![f.clone(), Field { num: 2, ty: Ty::Fixed32, mult: Mult::Single }],
                    vec![Field { num: 1, ty: Ty::SInt32, mult: Mult::Single }, Field { num: 2, ty: Ty::Msg(1), mult: Mult::Repeated }],
                ],
                enums: 1,
            };
            let c = s.build();
            out.push((World::new(s, c), f));
        }
    }
    out
}

const BOUNDARY: [u64; 26] = [
    0, 1, 2, 3, 126, 127, 128, 129, 16383, 16384, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001,
    0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_8000_0000, 0x7fff_ffff_ffff_fffe, 0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000, 0x8000_0000_0000_0001, u64::MAX - 1, u64::MAX, 0xffff_ffff_8000_0000,
];

/// Every complete boundary encoding of a scalar of the type, with over-long forms.
fn boundary_payloads(t: Ty) -> Vec<Vec<u8>> {
    let mut out = vec![];
    match wt_of(t) {
        0 => {
            for v in BOUNDARY {
                let mut b = vec![];
                wr_varint(v, &mut b);
                for pad in 0..=(10 - b.len()) {
                    let mut p = b.clone();
                    for _ in 0..pad {
                        let l = p.len();
                        p[l - 1] |= 0x80;
                        p.push(0);
                    }
                    if p.len() == 10 {
                        let mut q = p.clone();
                        q[9] |= 0x7e;
                        out.push(q);
                    }
                    out.push(p);
                }
            }
            for i in 0..64 {
                let mut b = vec![];
                wr_varint(1u64 << i, &mut b);
                out.push(b);
            }
        }
        1 => {
            for v in BOUNDARY { out.push(v.to_le_bytes().to_vec()); }
            out.push(vec![1, 2, 3, 4, 5, 6, 7, 8]);
            for v in NANS64 { out.push(v.to_le_bytes().to_vec()); }
            for i in 0..64 { out.push((1u64 << i).to_le_bytes().to_vec()); }
        }
        5 => {
            for v in BOUNDARY { out.push((v as u32).to_le_bytes().to_vec()); }
            out.push(vec![1, 2, 3, 4]);
            for v in NANS32 { out.push(v.to_le_bytes().to_vec()); }
            for i in 0..32 { out.push((1u32 << i).to_le_bytes().to_vec()); }
        }
        _ => {
            for s in [&b""[..], b"a", b"\xff", b"\x00\x01", "é€𝄞".as_bytes(), b"\xe2\x82", b"ab\xc3\x28cd", b"\xf0\x9f"] {
                for pad in 0..3 {
                    let mut p = vec![s.len() as u8];
                    for _ in 0..pad { let l = p.len(); p[l - 1] |= 0x80; p.push(0); }
                    p.extend_from_slice(s);
                    out.push(p);
                }
            }
            for n in [126usize, 127, 128, 129, 300, 16383, 16384, 70000] {
                let mut p = vec![];
                wr_varint(n as u64, &mut p);
                p.extend((0..n).map(|i| b'a' + (i % 26) as u8));
                out.push(p);
            }
        }
    }
    out
}

const SENT: [u8; 5] = [0x15, 0xde, 0xad, 0xbe, 0x0f];

pub fn c02(run: &mut Run) {
    for (w, f) in unit_schemas() {
        if matches!(f.ty, Ty::Msg(_)) || f.packed() { continue; }
        for p in boundary_payloads(f.ty) {
            let mut b = vec![];
            wr_varint(8 + wt_of(f.ty) as u64, &mut b);
            b.extend_from_slice(&p);
            for tail in 0..2 {
                let mut bb = b.clone();
                if tail == 1 { bb.extend_from_slice(&SENT); }
                run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(&bb))), &|| desc(&w, 0, &bb), || check_diff("C02", &w, 0, &bb));
                if run.failure.is_some() { return; }
            }
        }
    }
    run.exhaustive_parts.push("each scalar type x label x boundary encodings, with and without a following field".into());
    bulk(run, &|w, m, b| check_diff("C02", w, m, b));
    random_diff(run, "C02", SOUND, 6000, 0);
    random_diff(run, "C02", WILD, 3000, 1);
}

pub fn c03(run: &mut Run) {
    for (w, f) in unit_schemas() {
        if !f.packed() { continue; }
        let ps = boundary_payloads(f.ty);
        for (i, p) in ps.iter().enumerate() {
            for shape in 0..4 {
                let els: Vec<&Vec<u8>> = match shape {
                    0 => vec![p],
                    1 => vec![p, &ps[(i + 1) % ps.len()]],
                    2 => vec![&ps[(i + 7) % ps.len()], p, p],
                    _ => if i > 2 { continue } else { (0..[0, 40, 130][i]).map(|k| &ps[k % ps.len()]).collect() },
                };
                let body: Vec<u8> = els.iter().flat_map(|x| x.iter().copied()).collect();
                let mut b = vec![0x0a];
                wr_varint(body.len() as u64, &mut b);
                b.extend_from_slice(&body);
                b.extend_from_slice(&SENT);
                run.case(Some(&format!("{}{}", ty_name(f.ty), hex(&b))), &|| desc(&w, 0, &b), || check_diff("C03", &w, 0, &b));
                if run.failure.is_some() { return; }
            }
        }
    }
    run.exhaustive_parts.push("each packable type x arrays of boundary elements (0, 1, 2, 3, 40, 130 elements)".into());
    bulk(run, &|w, m, b| check_diff("C03", w, m, b));
    random_diff(run, "C03", SOUND, 6000, 0);
    random_diff(run, "C03", WILD, 3000, 1);
}

/// Long inputs: thresholds on lengths and counts.
fn bulk(run: &mut Run, f: &dyn Fn(&World, usize, &[u8]) -> Result<(), String>) {
    let sizes: &[usize] = if run.thorough { &[1000, 4096, 5000, 10_000, 32_768, 65_537, 70_000, 131_073, 300_000, 1_048_577] } else { &[1000, 4097, 10_001, 70_001, 262_145] };
    let mut sizes: Vec<usize> = sizes.to_vec();
    sizes.splice(0..0, dict::sizes(3, 2_000_000));
    sizes.extend(dict::sizes(2_000_001, 1 << 25).into_iter().take(6));
    for (w, fd) in unit_schemas() {
        for &n in &sizes {
            let full = n <= 70_001;
            if n > 2_000_000 && !matches!(fd.ty, Ty::Str | Ty::Bytes) { continue; }
            let ps = boundary_payloads(fd.ty);
            let mut inputs: Vec<(&str, Vec<u8>)> = vec![];
            let long: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
            match fd.ty {
                Ty::Str | Ty::Bytes => {
                    let mut b = vec![0x0a];
                    wr_varint(n as u64, &mut b);
                    b.extend_from_slice(&long);
                    b.extend_from_slice(&SENT);
                    inputs.push(("a long value", b));
                }
                Ty::Msg(_) => {
                    let mut body = vec![];
                    while body.len() + 2 <= n { body.extend_from_slice(&[8, 6]); }
                    let mut b = vec![0x0a];
                    wr_varint(body.len() as u64, &mut b);
                    b.extend_from_slice(&body);
                    b.extend_from_slice(&SENT);
                    if full { inputs.push(("a long nested message", b)); }
                    // Messages in messages: as deep as 400.
                    if fd.ty == Ty::Msg(0) && n == 1000 {
                        for d in [9usize, 17, 33, 65, 101, 129, 257, 400].into_iter().chain(dict::sizes(3, 400)) {
                            for (innermost, tail) in [(&SENT[..], &SENT[..]), (&[0x15, 1], &SENT), (&[0x0b, 1, 2], &SENT), (&[], &SENT), (&[0x80], &SENT),
                                (&SENT, &[]), (&[0x80], &[]), (&[0x15, 1], &[]), (&[], &[0x80]), (&[0x80], &[0x80]), (&[8, 2], &[0x7a, 5, 1]), (&[], &[0x0b, 1])] {
                                let mut b = innermost.to_vec();
                                for _ in 0..d {
                                    let mut o = vec![0x0a];
                                    wr_varint(b.len() as u64, &mut o);
                                    o.extend_from_slice(&b);
                                    o.extend_from_slice(tail);
                                    b = o;
                                }
                                inputs.push(("messages nested deeply", b));
                            }
                        }
                    }
                }
                _ => {}
            }
            if fd.packed() {
                let mut body = vec![];
                for k in 0..n { body.extend_from_slice(&ps[k % ps.len()]); }
                let mut b = vec![0x0a];
                wr_varint(body.len() as u64, &mut b);
                b.extend_from_slice(&body);
                b.extend_from_slice(&SENT);
                inputs.push(("a packed array of many elements", b));
            }
            if fd.ty == Ty::SInt32 && fd.mult == Mult::Repeated {
                let mut b = vec![];
                for k in 0..n.min(100_000) { b.extend_from_slice(&[8, (k % 128) as u8]); }
                b.extend_from_slice(&SENT);
                inputs.push(("many fields", b));
                let mut b = vec![];
                for k in 0..n.min(100_000) { wr_varint(8 * (3 + k as u64), &mut b); b.push((k % 128) as u8); }
                inputs.push(("many unknown fields", b));
                let mut b = vec![0x7a];
                wr_varint(n as u64, &mut b);
                b.extend_from_slice(&long);
                b.extend_from_slice(&SENT);
                inputs.push(("a long unknown field", b));
                let mut b = vec![0x7a];
                wr_varint(n as u64 + 1, &mut b);
                b.extend_from_slice(&long);
                inputs.push(("a long truncated field", b));
                let mut b = vec![8, 2, 0x7b];
                b.extend_from_slice(&long);
                inputs.push(("a long invalid field", b));
            }
            for (what, b) in inputs {
                if run.over() { return; }
                run.case(Some(&format!("bulk {} {} {} {}", ty_name(fd.ty), n, what, b.len())), &|| format!("{} ({} bytes), {}", what, b.len(), desc(&w, 0, &b)), || f(&w, 0, &b));
            }
        }
    }
    run.exhaustive_parts.push(format!("long values, arrays and messages: {:?} elements; messages nested 9 to 400 deep", sizes));
}
fn random_diff(run: &mut Run, prop: &'static str, st: Style, n: usize, stream: u64) {
    let mut r = Rng::new(run.seed, 100 + stream);
    let fw = fixed_world();
    for _ in 0..run.n(n) {
        if run.over() { return; }
        let rw;
        let w = if r.chance(1, 3) { &fw } else { rw = match mk_world(run, &mut r) { Some(w) => w, None => return }; &rw };
        for _ in 0..8 {
            let m = r.below(w.schema.msgs.len());
            let mut b = rand_msg_bytes(&mut r, &w.schema, m, 3, st);
            if st.bad_inner && r.chance(1, 3) { damage(&mut r, &mut b); }
            run.case(key(&b).as_deref(), &|| desc(w, m, &b), || check_diff(prop, w, m, &b));
        }
    }
}
fn key(b: &[u8]) -> Option<String> {
    if b.len() < 2 { None } else { Some(hex(b)) }
}

/// Building a world runs the real parser or insertion API; if that fails it is not a matter of
/// the wire properties.
fn mk_world(run: &mut Run, r: &mut Rng) -> Option<World> {
    let mut rr = r.clone();
    r.next();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rand_world(&mut rr))) {
        Ok(w) => Some(w),
        Err(_) => {
            run.skipped += 1;
            if run.skipped > 2000 { return None; }
            mk_world(run, r)
        }
    }
}

pub fn c01(run: &mut Run) {
    bulk(run, &|w, m, b| { std::hint::black_box(w.decode(m, b)); Ok(()) });
    let w = fixed_world();
    let timed = |w: &World, m: usize, b: &[u8]| -> Result<(), String> {
        let t = Instant::now();
        let v = w.decode(m, b);
        std::hint::black_box(&v);
        if t.elapsed() > Duration::from_secs(5) { return Err(format!("took {:?}", t.elapsed())); }
        Ok(())
    };
    for (uw, f) in unit_schemas() {
        for p in boundary_payloads(f.ty) {
            for wt in 0..8u8 {
                let mut b = vec![8 + wt];
                b.extend_from_slice(&p);
                run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(&b))), &|| desc(&uw, 0, &b), || timed(&uw, 0, &b));
                for n in [0u64, 1, 2, p.len() as u64, p.len() as u64 + 1, 0xffff_ffff, u64::MAX, u64::MAX - 10, 1 << 63, i64::MAX as u64] {
                    let mut b = vec![0x0a];
                    wr_varint(n, &mut b);
                    b.extend_from_slice(&p);
                    run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(&b))), &|| desc(&uw, 0, &b), || timed(&uw, 0, &b));
                }
                if run.failure.is_some() { return; }
            }
        }
        // Every run of continuation bytes as tag, value, length and element.
        for k in 0..24 {
            for last in [None, Some(0u8), Some(1), Some(2), Some(0x7f)] {
                let mut v = vec![0xffu8; k];
                v.extend(last);
                for pre in [&[][..], &[8], &[0x0a], &[0x0a, 3], &[0x0a, 24], &[0x7a], &[0x78]] {
                    let mut b = pre.to_vec();
                    b.extend_from_slice(&v);
                    run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(&b))), &|| desc(&uw, 0, &b), || timed(&uw, 0, &b));
                }
            }
            if run.failure.is_some() { return; }
        }
    }
    run.exhaustive_parts.push("each type x label x boundary payload x wire type and x extreme lengths; each run of up to 23 continuation bytes".into());
    let alpha = [0u8, 1, 2, 3, 5, 8, 9, 0x0a, 0x0d, 0x12, 0x7f, 0x80, 0x88, 0xa2, 0xff];
    for m in 0..2 {
        exhaust(run, &w, m, if run.thorough { 5 } else { 4 }, &alpha, &|b| timed(&w, m, b));
    }
    let mut r = Rng::new(run.seed, 1);
    for i in 0..run.n(5000) {
        if run.over() { return; }
        let rw = match mk_world(run, &mut r) { Some(w) => w, None => return };
        let w = if i % 3 == 0 { &w } else { &rw };
        for _ in 0..10 {
            let m = r.below(w.schema.msgs.len());
            let mut b = if r.chance(1, 4) {
                (0..r.below(24)).map(|_| if r.chance(1, 2) { r.below(20) as u8 } else { r.next() as u8 }).collect()
            } else {
                rand_msg_bytes(&mut r, &w.schema, m, 4, WILD)
            };
            for _ in 0..r.below(4) { damage(&mut r, &mut b); }
            run.case(key(&b).as_deref(), &|| desc(w, m, &b), || timed(w, m, &b));
        }
    }
}

fn roundtrip_bytes(w: &World, m: usize, b: &[u8]) -> Result<(), String> {
    let v = w.decode(m, b);
    let mut e = v.encode(&w.ctx).to_vec();
    if let Some(g) = &v.garbage { e.extend_from_slice(g); }
    if e != b { Err(format!("re-encoded to {} from {:?}", hex(&e), v)) } else { Ok(()) }
}

pub fn c04(run: &mut Run) {
    bulk(run, &|w, m, b| if is_canonical(w, m, b) { roundtrip_bytes(w, m, b) } else { Ok(()) });
    let w = fixed_world();
    let alpha = [0u8, 1, 2, 3, 5, 8, 9, 0x0a, 0x0d, 0x12, 0x7f, 0x80, 0xa2, 0xff];
    for m in 0..3 {
        exhaust(run, &w, m, if run.thorough { 5 } else { 4 }, &alpha, &|b| if is_canonical(&w, m, b) { roundtrip_bytes(&w, m, b) } else { Ok(()) });
    }
    let mut r = Rng::new(run.seed, 4);
    for i in 0..run.n(4000) {
        if run.over() { return; }
        let rw = match mk_world(run, &mut r) { Some(w) => w, None => return };
        let w = if i % 3 == 0 { &w } else { &rw };
        for _ in 0..6 {
            let m = r.below(w.schema.msgs.len());
            let b = rand_msg_bytes(&mut r, &w.schema, m, 3, CANON);
            let mut cuts = vec![b.len()];
            for _ in 0..4 { cuts.push(r.below(b.len() + 1)); }
            if i % 50 == 0 { cuts = (0..=b.len()).collect(); }
            for c in cuts {
                let bb = &b[..c];
                if !is_canonical(w, m, bb) { continue; }
                run.case(key(bb).as_deref(), &|| desc(w, m, bb), || roundtrip_bytes(w, m, bb));
            }
            let mut d = b.clone();
            damage(&mut r, &mut d);
            if is_canonical(w, m, &d) {
                run.case(key(&d).as_deref(), &|| desc(w, m, &d), || roundtrip_bytes(w, m, &d));
            }
        }
    }
}

pub fn c05(run: &mut Run) {
    bulk(run, &|w, m, b| check_diff("C05", w, m, b));
    // Every declared type x label x every wire type, alone and between sound fields.
    for (w, f) in unit_schemas() {
        for num in [1u64, 3, 0, 16, 2047, (1 << 29) - 1, 1 << 29, (1 << 61) - 1] {
            for wt in 0..8u8 {
                let bodies: Vec<Vec<u8>> = match wt {
                    0 => BOUNDARY.iter().map(|v| { let mut b = vec![]; wr_varint(*v, &mut b); b }).chain([vec![0x80, 0x80, 0], vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f]]).collect(),
                    1 => vec![vec![1, 2, 3, 4, 5, 6, 7, 8], vec![0xff; 8]],
                    5 => vec![vec![1, 2, 3, 4], vec![0xff; 4]],
                    2 => vec![vec![0], vec![2, 8, 1], vec![5, 0xff, 0x80, 0x80, 0x80, 0x80], vec![0x81, 0, 7]],
                    _ => vec![vec![], vec![1, 2, 3], vec![0x80; 12]],
                };
                for body in bodies {
                    let mut b = SENT.to_vec();
                    wr_varint(num * 8 + wt as u64, &mut b);
                    b.extend_from_slice(&body);
                    b.extend_from_slice(&SENT);
                    run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(&b))), &|| desc(&w, 0, &b), || check_diff("C05", &w, 0, &b));
                    if run.failure.is_some() { return; }
                }
            }
        }
    }
    run.exhaustive_parts.push("each type x label x wire type 0-7 x 8 field numbers, between two sound fields".into());
    random_diff(run, "C05", SOUND, 5000, 0);
    random_diff(run, "C05", WILD, 4000, 1);
}

pub fn c06(run: &mut Run) {
    bulk(run, &|w, m, b| check_diff("C06", w, m, b));
    for (w, f) in unit_schemas() {
        let payloads: Vec<Vec<u8>> = if let Ty::Msg(_) = f.ty {
            vec![vec![0], vec![2, 8, 1], vec![4, 0x12, 2, 8, 3]]
        } else {
            boundary_payloads(f.ty).into_iter().filter(|p| p.len() < 200).collect()
        };
        for p in payloads {
            for unk in 0..2 {
                let mut b = SENT.to_vec();
                let wt = wt_of(f.ty);
                if f.packed() {
                    b.push(if unk == 0 { 0x0a } else { 0x1a });
                    wr_varint(2 * p.len() as u64, &mut b);
                    b.extend_from_slice(&p);
                    b.extend_from_slice(&p);
                } else {
                    b.push(if unk == 0 { 8 + wt } else { 0x18 + wt });
                    b.extend_from_slice(&p);
                }
                for cut in 5..b.len() {
                    let bb = &b[..cut];
                    run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(bb))), &|| desc(&w, 0, bb), || check_diff("C06", &w, 0, bb));
                }
                // The same cut inside the declared length of a packed array, more fields after it.
                if f.packed() && unk == 0 {
                    let body: Vec<u8> = p.iter().chain(p.iter()).copied().collect();
                    for cut in 0..body.len() {
                        let mut bb = vec![0x0a];
                        wr_varint(cut as u64, &mut bb);
                        bb.extend_from_slice(&body[..cut]);
                        bb.extend_from_slice(&SENT);
                        bb.extend_from_slice(&SENT);
                        run.case(Some(&format!("{}{}", ty_name(f.ty), hex(&bb))), &|| desc(&w, 0, &bb), || check_diff("C06", &w, 0, &bb));
                    }
                }
                if run.failure.is_some() { return; }
            }
        }
        for k in 9..14 {
            for pre in [&[8u8][..], &[0x0a], &[0x18], &[0x1a], &[], &[0x0a, 12], &[0x0a, 13]] {
                let mut b = SENT.to_vec();
                b.extend_from_slice(pre);
                b.extend(std::iter::repeat(0x81).take(k));
                b.push(1);
                b.extend_from_slice(&SENT);
                run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(&b))), &|| desc(&w, 0, &b), || check_diff("C06", &w, 0, &b));
            }
        }
    }
    run.exhaustive_parts.push("each type x label x boundary payload cut at every byte; varints of 9 to 14 continuation bytes".into());
    let mut r = Rng::new(run.seed, 6);
    let fw = fixed_world();
    for i in 0..run.n(2500) {
        if run.over() { return; }
        let rw = match mk_world(run, &mut r) { Some(w) => w, None => return };
        let w = if i % 3 == 0 { &fw } else { &rw };
        let m = r.below(w.schema.msgs.len());
        let st = if r.chance(1, 2) { SOUND } else { WILD };
        let b = rand_msg_bytes(&mut r, &w.schema, m, 3, st);
        let whole = ref_decode(w, m, &b).1;
        let step = 1 + b.len() / 60;
        let mut cut = 0;
        while cut <= b.len() {
            let bb = &b[..cut];
            run.case(key(bb).as_deref(), &|| desc(w, m, bb), || {
                check_diff("C06", w, m, bb)?;
                // Fields wholly before the cut are those of the whole message (except where the
                // last one takes all that is left).
                let full = w.decode(m, &b);
                let part = w.decode(m, bb);
                for (k, f) in whole.fields.iter().enumerate() {
                    let greedy = matches!(f.value.value, Value::Unknown(UnknownValue::Invalid(..))) || f.class == Class::Truncated;
                    if f.end <= cut && !greedy && k < full.fields.len() {
                        match part.fields.get(k) {
                            Some(p) if feq(p, &full.fields[k]) => {}
                            p => return Err(format!("field #{} became {:?} after the cut, was {:?}", k, p, full.fields[k])),
                        }
                    }
                }
                Ok(())
            });
            cut += step;
        }
    }
}

pub fn c07(run: &mut Run) {
    bulk(run, &|w, m, b| check_diff("C07", w, m, b));
    let fw = fixed_world();
    let mut r = Rng::new(run.seed, 7);
    for i in 0..run.n(6000) {
        if run.over() { return; }
        let rw = match mk_world(run, &mut r) { Some(w) => w, None => return };
        let w = if i % 3 == 0 { &fw } else { &rw };
        let cands: Vec<(usize, Field, usize)> = w.schema.msgs.iter().enumerate()
            .flat_map(|(m, fs)| fs.iter().filter_map(move |f| match f.ty { Ty::Msg(k) => Some((m, f.clone(), k)), _ => None })).collect();
        if cands.is_empty() { continue; }
        for _ in 0..6 {
            let (m, f, k) = r.pick(&cands).clone();
            let pre = rand_msg_bytes(&mut r, &w.schema, m, 1, SOUND);
            let post = rand_msg_bytes(&mut r, &w.schema, m, 1, WILD);
            let mut inner = rand_msg_bytes(&mut r, &w.schema, k, 3, WILD);
            for _ in 0..r.below(3) { damage(&mut r, &mut inner); }
            let mk = |body: &[u8]| {
                let mut b = pre.clone();
                wr_varint(f.num * 8 + 2, &mut b);
                wr_varint(body.len() as u64, &mut b);
                b.extend_from_slice(body);
                b.extend_from_slice(&post);
                b
            };
            let b = mk(&inner);
            let at = ref_decode(w, m, &pre).1.fields.len();
            run.case(key(&b).as_deref(), &|| desc(w, m, &b), || {
                let got = w.decode(m, &b);
                let alone = w.decode(k, &inner);
                let v = match got.fields.get(at) { Some(v) => v, None => return Err(format!("nested field missing in {:?}", got)) };
                // The position is only meaningful if the fields before it came out as they should.
                let before = w.decode(m, &pre);
                if before.fields.len() != at { return Ok(()); }
                match &v.value {
                    Value::Message(x) if v.number == f.num && meq(x, &alone) => {}
                    other => return Err(format!("nested value {:?} (field {}), but its payload alone decodes to {:?}", other, v.number, alone)),
                }
                if alone.msg_ref != w.mrefs[k] { return Err(format!("decoded as {:?}, declared {:?}", alone.msg_ref, w.mrefs[k])); }
                let empty = w.decode(m, &mk(&[]));
                if empty.fields.len() != got.fields.len() || empty.garbage != got.garbage
                    || !empty.fields.iter().zip(&got.fields).enumerate().all(|(j, (x, y))| j == at || feq(x, y)) {
                    return Err(format!("siblings differ: {:?} with an empty payload, {:?} with this one", empty, got));
                }
                check_diff("C07", w, m, &b)
            });
        }
    }
}

pub fn c08(run: &mut Run) {
    let fw = fixed_world();
    let chk = |w: &World, v: &MessageValue| -> Result<(), String> {
        let got = v.encode(&w.ctx);
        let want = ref_encode(v);
        if got[..] != want[..] { Err(format!("encoded to {}, expected {}", hex(&got), hex(&want))) } else { Ok(()) }
    };
    let mut vals: Vec<Value> = vec![];
    for u in BOUNDARY.iter().copied().chain((0..64).map(|i| 1u64 << i)).chain(NANS32.iter().map(|x| *x as u64)).chain(NANS64) {
        vals.extend([
            Value::Int32(u as i32), Value::Int64(u as i64), Value::UInt32(u as u32), Value::UInt64(u),
            Value::SInt32(u as i32), Value::SInt64(u as i64), Value::Fixed32(u as u32), Value::Fixed64(u),
            Value::SFixed32(u as i32), Value::SFixed64(u as i64), Value::Double(f64::from_bits(u)), Value::Float(f32::from_bits(u as u32)),
            Value::Bool(u & 1 == 1), Value::Unknown(UnknownValue::Varint(u as u128)), Value::Unknown(UnknownValue::Fixed64(u)),
            Value::Unknown(UnknownValue::Fixed32(u as u32)),
            Value::Enum(EnumValue { enum_ref: fw.erefs[0], value: u as i64 }),
            Value::Packed(PackedArray::Int32(vec![u as i32, 1])), Value::Packed(PackedArray::Int64(vec![u as i64, -1])),
            Value::Packed(PackedArray::UInt32(vec![u as u32])), Value::Packed(PackedArray::UInt64(vec![u, u])),
            Value::Packed(PackedArray::SInt32(vec![u as i32, -1])), Value::Packed(PackedArray::SInt64(vec![u as i64, 1])),
            Value::Packed(PackedArray::Fixed32(vec![u as u32, 1])), Value::Packed(PackedArray::Fixed64(vec![u, 2])),
            Value::Packed(PackedArray::SFixed32(vec![u as i32, 1])), Value::Packed(PackedArray::SFixed64(vec![u as i64, 2])),
            Value::Packed(PackedArray::Bool(vec![u & 1 == 1, true, false])),
            Value::Packed(PackedArray::Double(vec![f64::from_bits(u), 1.0])), Value::Packed(PackedArray::Float(vec![f32::from_bits(u as u32), 1.0])),
        ]);
    }
    for n in [0usize, 1, 127, 128, 129, 16383, 16384, 70000] {
        vals.push(Value::String("x".repeat(n)));
        vals.push(Value::Bytes(Bytes::from(vec![0xffu8; n])));
        vals.push(Value::Unknown(UnknownValue::VariableLength(Bytes::from(vec![7u8; n]))));
        vals.push(Value::Packed(PackedArray::Bool(vec![true; n])));
        vals.push(Value::Packed(PackedArray::Fixed32(vec![9; n / 4])));
        for wt in 0..8 {
            vals.push(Value::Unknown(UnknownValue::Invalid(wt, Bytes::from(vec![wt; n.min(130)]))));
            vals.push(Value::Incomplete(wt, Bytes::from(vec![wt; n.min(130)])));
        }
        vals.push(Value::Message(Box::new(MessageValue { msg_ref: fw.mrefs[1], garbage: None,
            fields: vec![FieldValue { number: 3, value: Value::String("y".repeat(n)) }] })));
    }
    bulk(run, &|w, m, b| { let (v, _) = ref_decode(w, m, b); chk(w, &v) });
    for v in &vals {
        for number in [0u64, 1, 15, 16, 2047, 2048, (1 << 29) - 1, (1 << 61) - 1] {
            let mv = MessageValue { msg_ref: fw.mrefs[0], garbage: None, fields: vec![
                FieldValue { number, value: v.clone() }, FieldValue { number: 1, value: Value::Bool(true) }] };
            run.case(Some(&format!("{}:{:?}", number, v).chars().take(200).collect::<String>()), &|| desc_v(&fw, &mv), || chk(&fw, &mv));
            if run.failure.is_some() { return; }
        }
    }
    run.exhaustive_parts.push("each kind of value at boundary magnitudes and lengths x 8 field numbers".into());
    let mut r = Rng::new(run.seed, 8);
    for _ in 0..run.n(60000) {
        if run.over() { return; }
        let v = rand_any(&mut r, &fw, 3);
        let k = hex(&ref_encode(&v));
        run.case(if v.fields.is_empty() { None } else { Some(&k) }, &|| desc_v(&fw, &v), || chk(&fw, &v));
    }
}

pub fn c09(run: &mut Run) {
    let fw = fixed_world();
    let chk = |w: &World, m: usize, v: &MessageValue| -> Result<(), String> {
        let e = v.encode(&w.ctx);
        let d = w.decode(m, &e);
        if meq(&d, v) { Ok(()) } else { Err(format!("encoded to {}, decoded to {:?}", hex(&e), d)) }
    };
    bulk(run, &|w, m, b| {
        let (v, _) = ref_decode(w, m, b);
        fn sound(v: &MessageValue) -> bool {
            v.garbage.is_none() && v.fields.iter().all(|f| match &f.value { Value::Incomplete(..) | Value::Unknown(UnknownValue::Invalid(..)) => false, Value::Message(x) => sound(x), _ => true })
        }
        if !sound(&v) { return Ok(()); }
        chk(w, m, &v)
    });
    let mut r = Rng::new(run.seed, 9);
    for (w, f) in unit_schemas() {
        if matches!(f.ty, Ty::Msg(_)) { continue; }
        for p in boundary_payloads(f.ty) {
            // Values come from the reference decoder.
            let mut b = vec![8 + wt_of(f.ty)];
            if f.packed() { b = vec![0x0a]; wr_varint(2 * p.len() as u64, &mut b); b.extend_from_slice(&p); }
            b.extend_from_slice(&p);
            let (v, _) = ref_decode(&w, 0, &b);
            run.case(Some(&format!("{}{:?}{}", ty_name(f.ty), f.mult, hex(&b))), &|| desc_v(&w, &v), || chk(&w, 0, &v));
            if run.failure.is_some() { return; }
        }
    }
    run.exhaustive_parts.push("each scalar type x label x boundary values".into());
    for i in 0..run.n(5000) {
        if run.over() { return; }
        let rw = match mk_world(run, &mut r) { Some(w) => w, None => return };
        let w = if i % 3 == 0 { &fw } else { &rw };
        for _ in 0..8 {
            let m = r.below(w.schema.msgs.len());
            let v = rand_conforming(&mut r, w, m, 3);
            let k = hex(&ref_encode(&v));
            run.case(if v.fields.is_empty() { None } else { Some(&k) }, &|| desc_v(w, &v), || chk(w, m, &v));
        }
    }
}

pub fn c19(run: &mut Run) {
    let fw = fixed_world();
    let chk = |w: &World, m: usize, a: &[u8], b: &[u8]| -> Result<(), String> {
        let da = w.decode(m, a);
        if da.garbage.is_some() || da.fields.iter().any(|f| matches!(f.value, Value::Incomplete(..) | Value::Unknown(UnknownValue::Invalid(..)))) {
            return Ok(());
        }
        let db = w.decode(m, b);
        let mut ab = a.to_vec();
        ab.extend_from_slice(b);
        let d = w.decode(m, &ab);
        let mut want = da;
        want.fields.extend(db.fields);
        want.garbage = db.garbage;
        if meq(&d, &want) { Ok(()) } else { Err(format!("concatenation decodes to {:?}, expected {:?}", d, want)) }
    };
    bulk(run, &|w, m, b| {
        for k in 0..3 {
            let cut = if b.len() > 200 { [2, 4, 6][k] } else { 0 };
            chk(w, m, &b[..cut], &b[cut..])?;
        }
        chk(w, m, b, b)
    });
    let mut r = Rng::new(run.seed, 19);
    for i in 0..run.n(5000) {
        if run.over() { return; }
        let rw = match mk_world(run, &mut r) { Some(w) => w, None => return };
        let w = if i % 3 == 0 { &fw } else { &rw };
        for _ in 0..8 {
            let m = r.below(w.schema.msgs.len());
            let mut a = rand_msg_bytes(&mut r, &w.schema, m, 2, Style { bad_inner: true, ..SOUND });
            let mut b = rand_msg_bytes(&mut r, &w.schema, m, 2, WILD);
            if r.chance(1, 4) { b = a.clone(); }
            if r.chance(1, 4) { damage(&mut r, &mut b); }
            if r.chance(1, 8) { damage(&mut r, &mut a); }
            let k = format!("{}|{}", hex(&a), hex(&b));
            run.case(if a.is_empty() || b.is_empty() { None } else { Some(&k) },
                &|| format!("{} followed by {}", desc(w, m, &a), hex(&b)), || chk(w, m, &a, &b));
        }
    }
    let alpha = [0u8, 1, 2, 5, 8, 0x0a, 0x0d, 0x12, 0x80];
    let tails = [&b""[..], b"\x08\x01", b"\x0a\x02\x08\x01", b"\x15\x01\x02\x03\x04", b"\x80", b"\x0b\x00", b"\x0d\x00"];
    for m in 0..2 {
        exhaust(run, &fw, m, 4, &alpha, &|a| { for t in tails { chk(&fw, m, a, t)?; } Ok(()) });
    }
}
