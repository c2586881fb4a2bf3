// ---- what the wire format means, in mathematics
broadcast use vstd::group_vstd_default;

/// Index one past the last byte of the varint at the start of `b`, looking from byte `i`; at most ten bytes.
#[verifier::opaque]
pub open spec fn vend(b: Seq<u8>, i: nat) -> Option<nat>
    decreases 10 - i,
{
    if i >= 10 || i >= b.len() { None } else if b[i as int] < 128 { Some(i + 1) } else { vend(b, i + 1) }
}
/// The sum of the low seven bits of the first `n` bytes, in base 128, lowest first.
#[verifier::opaque]
pub open spec fn vsum(b: Seq<u8>, n: nat) -> nat
    decreases n,
{
    if n == 0 { 0 } else { vsum(b, (n - 1) as nat) + (b[n - 1] % 128) as nat * pow128((n - 1) as nat) }
}
#[verifier::opaque]
pub open spec fn pow128(n: nat) -> nat
    decreases n,
{
    if n == 0 { 1 } else { 128 * pow128((n - 1) as nat) }
}
pub open spec const TWO64: nat = 0x1_0000_0000_0000_0000;
pub open spec const TWO32: nat = 0x1_0000_0000;
pub open spec const TWO63: nat = 0x8000_0000_0000_0000;
pub open spec const TWO31: nat = 0x8000_0000;
/// The number and the length of the varint at the start of `b`.
#[verifier::opaque]
pub open spec fn varint(b: Seq<u8>) -> Option<(nat, nat)> {
    match vend(b, 0) { Some(n) => Some((vsum(b, n) % TWO64, n)), None => None }
}
#[verifier::opaque]
pub open spec fn enc_varint(v: nat) -> Seq<u8>
    decreases v,
{
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + enc_varint(v / 128) }
}
pub open spec fn s64(u: nat) -> int { if u >= TWO63 { u - TWO64 } else { u as int } }
pub open spec fn s32(u: nat) -> int { if u % TWO32 >= TWO31 { u % TWO32 - TWO32 } else { (u % TWO32) as int } }
pub open spec fn zz(u: nat) -> int { if u % 2 == 0 { (u / 2) as int } else { -((u / 2) as int) - 1 } }
pub open spec fn unzz(v: int) -> nat { if v < 0 { (-2 * v - 1) as nat } else { (2 * v) as nat } }

/// What follows the first `n` bytes (always shorter than a non-empty `b`).
pub open spec fn rest(b: Seq<u8>, n: nat) -> Seq<u8> { if 0 < n <= b.len() { b.skip(n as int) } else { Seq::empty() } }
/// The `l` bytes that follow the first `n`.
pub open spec fn window(b: Seq<u8>, n: nat, l: nat) -> Seq<u8> { if 0 < n && n + l <= b.len() { b.subrange(n as int, (n + l) as int) } else { Seq::empty() } }

// ---- values without pointers
pub ghost enum UV { Varint(nat), Fixed64(nat), Len(Seq<u8>), Fixed32(nat), Invalid(u8, Seq<u8>) }
pub ghost enum VV {
    Double(nat), Float(nat), Int32(int), Int64(int), UInt32(nat), UInt64(nat), SInt32(int), SInt64(int),
    Fixed32(nat), Fixed64(nat), SFixed32(int), SFixed64(int), Bool(bool), Str(Seq<char>), Bytes(Seq<u8>),
    Packed(ValueType, Seq<VV>), Msg(MV), Enum(EnumRef, int), Incomplete(u8, Seq<u8>), Unk(UV),
}
pub ghost struct FV { pub number: nat, pub value: VV }
pub ghost struct MV { pub msg_ref: MessageRef, pub fields: Seq<FV>, pub garbage: Option<Seq<u8>> }

pub open spec fn uv(u: UnknownValue) -> UV {
    match u {
        UnknownValue::Varint(x) => UV::Varint(x as nat),
        UnknownValue::Fixed64(x) => UV::Fixed64(x as nat),
        UnknownValue::VariableLength(b) => UV::Len(b@),
        UnknownValue::Fixed32(x) => UV::Fixed32(x as nat),
        UnknownValue::Invalid(w, b) => UV::Invalid(w, b@),
    }
}
/// The type and the elements of a packed array.
pub open spec fn pv(p: PackedArray) -> VV { VV::Packed(pv_type(p), pv_elems(p)) }
pub open spec fn pv_type(p: PackedArray) -> ValueType {
    match p {
        PackedArray::Double(_) => ValueType::Double, PackedArray::Float(_) => ValueType::Float,
        PackedArray::Int32(_) => ValueType::Int32, PackedArray::Int64(_) => ValueType::Int64,
        PackedArray::UInt32(_) => ValueType::UInt32, PackedArray::UInt64(_) => ValueType::UInt64,
        PackedArray::SInt32(_) => ValueType::SInt32, PackedArray::SInt64(_) => ValueType::SInt64,
        PackedArray::Fixed32(_) => ValueType::Fixed32, PackedArray::Fixed64(_) => ValueType::Fixed64,
        PackedArray::SFixed32(_) => ValueType::SFixed32, PackedArray::SFixed64(_) => ValueType::SFixed64,
        PackedArray::Bool(_) => ValueType::Bool,
    }
}
pub open spec fn pv_elems(p: PackedArray) -> Seq<VV> {
    match p {
        PackedArray::Double(v) => v@.map_values(|x: f64| VV::Double(x.to_bits_spec() as nat)),
        PackedArray::Float(v) => v@.map_values(|x: f32| VV::Float(x.to_bits_spec() as nat)),
        PackedArray::Int32(v) => v@.map_values(|x: i32| VV::Int32(x as int)),
        PackedArray::Int64(v) => v@.map_values(|x: i64| VV::Int64(x as int)),
        PackedArray::UInt32(v) => v@.map_values(|x: u32| VV::UInt32(x as nat)),
        PackedArray::UInt64(v) => v@.map_values(|x: u64| VV::UInt64(x as nat)),
        PackedArray::SInt32(v) => v@.map_values(|x: i32| VV::SInt32(x as int)),
        PackedArray::SInt64(v) => v@.map_values(|x: i64| VV::SInt64(x as int)),
        PackedArray::Fixed32(v) => v@.map_values(|x: u32| VV::Fixed32(x as nat)),
        PackedArray::Fixed64(v) => v@.map_values(|x: u64| VV::Fixed64(x as nat)),
        PackedArray::SFixed32(v) => v@.map_values(|x: i32| VV::SFixed32(x as int)),
        PackedArray::SFixed64(v) => v@.map_values(|x: i64| VV::SFixed64(x as int)),
        PackedArray::Bool(v) => v@.map_values(|x: bool| VV::Bool(x)),
    }
}
pub open spec fn vv(v: Value) -> VV
    decreases v,
{
    match v {
        Value::Double(x) => VV::Double(x.to_bits_spec() as nat),
        Value::Float(x) => VV::Float(x.to_bits_spec() as nat),
        Value::Int32(x) => VV::Int32(x as int),
        Value::Int64(x) => VV::Int64(x as int),
        Value::UInt32(x) => VV::UInt32(x as nat),
        Value::UInt64(x) => VV::UInt64(x as nat),
        Value::SInt32(x) => VV::SInt32(x as int),
        Value::SInt64(x) => VV::SInt64(x as int),
        Value::Fixed32(x) => VV::Fixed32(x as nat),
        Value::Fixed64(x) => VV::Fixed64(x as nat),
        Value::SFixed32(x) => VV::SFixed32(x as int),
        Value::SFixed64(x) => VV::SFixed64(x as int),
        Value::Bool(x) => VV::Bool(x),
        Value::String(x) => VV::Str(x@),
        Value::Bytes(x) => VV::Bytes(x@),
        Value::Packed(p) => pv(p),
        Value::Message(m) => VV::Msg(mv(*m)),
        Value::Enum(e) => VV::Enum(e.enum_ref, e.value as int),
        Value::Incomplete(w, b) => VV::Incomplete(w, b@),
        Value::Unknown(u) => VV::Unk(uv(u)),
    }
}
pub open spec fn mv(m: MessageValue) -> MV
    decreases m,
{
    MV {
        msg_ref: m.msg_ref,
        fields: Seq::new(m.fields@.len(), |i: int| if 0 <= i < m.fields@.len() { FV { number: m.fields@[i].number as nat, value: vv(m.fields@[i].value) } } else { arbitrary() }),
        garbage: match m.garbage { Some(g) => Some(g@), None => None },
    }
}
pub open spec fn fvs(s: Seq<FieldValue>) -> Seq<FV> {
    Seq::new(s.len(), |i: int| FV { number: s[i].number as nat, value: vv(s[i].value) })
}

// ---- decoding
/// The value of a scalar type at the start of `b` and its length, if it is complete.
pub open spec fn scalar(vt: ValueType, b: Seq<u8>) -> Option<(VV, nat)> {
    match vt {
        ValueType::Double => if b.len() >= 8 { Some((VV::Double(le_val(b.take(8))), 8)) } else { None },
        ValueType::Fixed64 => if b.len() >= 8 { Some((VV::Fixed64(le_val(b.take(8))), 8)) } else { None },
        ValueType::SFixed64 => if b.len() >= 8 { Some((VV::SFixed64(s64(le_val(b.take(8)))), 8)) } else { None },
        ValueType::Float => if b.len() >= 4 { Some((VV::Float(le_val(b.take(4))), 4)) } else { None },
        ValueType::Fixed32 => if b.len() >= 4 { Some((VV::Fixed32(le_val(b.take(4))), 4)) } else { None },
        ValueType::SFixed32 => if b.len() >= 4 { Some((VV::SFixed32(s32(le_val(b.take(4)))), 4)) } else { None },
        ValueType::String => match varint(b) { Some((l, n)) => if n + l <= b.len() { Some((VV::Str(lossy(window(b, n, l))), n + l)) } else { None }, None => None },
        ValueType::Bytes => match varint(b) { Some((l, n)) => if n + l <= b.len() { Some((VV::Bytes(window(b, n, l)), n + l)) } else { None }, None => None },
        ValueType::Message(_) => None,
        _ => match varint(b) { Some((u, n)) => Some((of_varint(vt, u), n)), None => None },
    }
}
/// The value a varint stands for.
pub open spec fn of_varint(vt: ValueType, u: nat) -> VV {
    match vt {
        ValueType::Int32 => VV::Int32(s32(u)),
        ValueType::Int64 => VV::Int64(s64(u)),
        ValueType::UInt32 => VV::UInt32(u % TWO32),
        ValueType::UInt64 => VV::UInt64(u),
        ValueType::SInt32 => VV::SInt32(zz(u % TWO32)),
        ValueType::SInt64 => VV::SInt64(zz(u)),
        ValueType::Bool => VV::Bool(u != 0),
        ValueType::Enum(e) => VV::Enum(e, s64(u)),
        _ => arbitrary(),
    }
}
/// The values of the elements of a packed array, unless it ends within one.
#[verifier::opaque]
pub open spec fn elems(vt: ValueType, b: Seq<u8>) -> Option<Seq<VV>>
    decreases b.len(),
{
    if b.len() == 0 { Some(Seq::empty()) } else {
        match scalar(vt, b) {
            Some((v, n)) => match elems(vt, rest(b, n)) { Some(s) => Some(seq![v] + s), None => None },
            None => None,
        }
    }
}
pub open spec fn wire_of(vt: ValueType) -> u8 {
    match vt {
        ValueType::Double | ValueType::Fixed64 | ValueType::SFixed64 => 1,
        ValueType::Float | ValueType::Fixed32 | ValueType::SFixed32 => 5,
        ValueType::String | ValueType::Bytes | ValueType::Message(_) => 2,
        _ => 0,
    }
}
pub open spec fn dec_packed(vt: ValueType, wt: u8, b: Seq<u8>) -> (VV, nat) {
    match varint(b) {
        Some((l, n)) => if n + l <= b.len() {
            match elems(vt, window(b, n, l)) { Some(s) => (VV::Packed(vt, s), n + l), None => (VV::Incomplete(wt, b.take((n + l) as int)), n + l) }
        } else { (VV::Incomplete(wt, b), b.len()) },
        None => (VV::Incomplete(wt, b), b.len()),
    }
}
pub open spec fn dec_unknown(wt: u8, b: Seq<u8>) -> (VV, nat) {
    if wt == 0 {
        match varint(b) { Some((u, n)) => (VV::Unk(UV::Varint(u)), n), None => (VV::Incomplete(wt, b), b.len()) }
    } else if wt == 1 {
        if b.len() >= 8 { (VV::Unk(UV::Fixed64(le_val(b.take(8)))), 8) } else { (VV::Incomplete(wt, b), b.len()) }
    } else if wt == 2 {
        match varint(b) { Some((l, n)) => if n + l <= b.len() { (VV::Unk(UV::Len(window(b, n, l))), n + l) } else { (VV::Incomplete(wt, b), b.len()) }, None => (VV::Incomplete(wt, b), b.len()) }
    } else if wt == 5 {
        if b.len() >= 4 { (VV::Unk(UV::Fixed32(le_val(b.take(4)))), 4) } else { (VV::Incomplete(wt, b), b.len()) }
    } else { (VV::Unk(UV::Invalid(wt, b)), b.len()) }
}
pub open spec fn ctx_msg(ctx: Context, r: MessageRef) -> MessageInfo { ctx.types@[r.0.0 as int]->Message_0 }
pub open spec fn dec_value(vt: ValueType, wt: u8, b: Seq<u8>, ctx: Context) -> (VV, nat)
    decreases b.len(), 0nat,
{
    match vt {
        ValueType::Message(r) => match varint(b) {
            Some((l, n)) => if b.len() > 0 && n + l <= b.len() { (VV::Msg(dec_msg(ctx_msg(ctx, r), window(b, n, l), ctx)), n + l) } else { (VV::Incomplete(wt, b), b.len()) },
            None => (VV::Incomplete(wt, b), b.len()),
        },
        _ => match scalar(vt, b) { Some((v, n)) => (v, n), None => (VV::Incomplete(wt, b), b.len()) },
    }
}
/// The value of the field `number` with wire type `wt` at the start of `b`, and its length.
pub open spec fn dec_field(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, ctx: Context) -> (VV, nat)
    decreases b.len(), 1nat,
{
    if m.fields@.dom().contains(number as u64) {
        let f = m.fields@[number as u64];
        if is_packed(f) {
            if wt == 2 { dec_packed(f.field_type, wt, b) } else { dec_unknown(wt, b) }
        } else if wire_of(f.field_type) == wt { dec_value(f.field_type, wt, b, ctx) } else { dec_unknown(wt, b) }
    } else { dec_unknown(wt, b) }
}
#[verifier::opaque]
pub open spec fn dec_fields(m: MessageInfo, b: Seq<u8>, ctx: Context) -> (Seq<FV>, Option<Seq<u8>>)
    decreases b.len(), 2nat,
{
    if b.len() == 0 { (Seq::empty(), None) } else {
        match varint(b) {
            None => (Seq::empty(), Some(b)),
            Some((t, n)) => {
                let b1 = rest(b, n);
                let (v, c) = dec_field(m, t / 8, (t % 8) as u8, b1, ctx);
                let (fs, g) = dec_fields(m, if c == 0 { b1 } else { rest(b1, c) }, ctx);
                (seq![FV { number: t / 8, value: v }] + fs, g)
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn dec_msg(m: MessageInfo, b: Seq<u8>, ctx: Context) -> MV
    decreases b.len(), 3nat,
{
    let (fs, g) = dec_fields(m, b, ctx);
    MV { msg_ref: m.self_ref, fields: fs, garbage: g }
}

// ---- what decoding asks of a context
pub open spec fn is_msg(ctx: Context, r: MessageRef) -> bool { r.0.0 < ctx.types@.len() && ctx.types@[r.0.0 as int] is Message }
pub open spec fn packable(vt: ValueType) -> bool { !(vt is String || vt is Bytes || vt is Message || vt is Enum) }
/// Whether the field is encoded as a packed array: types that cannot be packed never are, whatever the multiplicity says.
pub open spec fn is_packed(f: MessageField) -> bool { f.multiplicity == Multiplicity::RepeatedPacked && packable(f.field_type) }
pub open spec fn vt_ok(vt: ValueType, ctx: Context) -> bool { vt matches ValueType::Message(r) ==> is_msg(ctx, r) }
pub open spec fn field_ok(f: MessageField, ctx: Context) -> bool {
    vt_ok(f.field_type, ctx) 
}
pub open spec fn msg_ok(m: MessageInfo, ctx: Context) -> bool {
    forall|k: u64| m.fields@.dom().contains(k) ==> field_ok(#[trigger] m.fields@[k], ctx)
}
pub open spec fn ctx_wf(ctx: Context) -> bool {
    forall|i: int| 0 <= i < ctx.types@.len() ==> ((#[trigger] ctx.types@[i]) matches TypeInfo::Message(m) ==> msg_ok(m, ctx))
}

// ---- encoding
pub open spec fn len_pre(b: Seq<u8>) -> Seq<u8> { enc_varint(b.len()) + b }
pub open spec fn enc_unknown(u: UV) -> Seq<u8> {
    match u {
        UV::Varint(x) => enc_varint(x),
        UV::Fixed64(x) => le_bytes(x, 8),
        UV::Len(b) => len_pre(b),
        UV::Fixed32(x) => le_bytes(x, 4),
        UV::Invalid(_, b) => b,
    }
}
pub open spec fn enc_value(v: VV) -> Seq<u8>
    decreases v, 0nat,
{
    match v {
        VV::Double(x) => le_bytes(x, 8),
        VV::Float(x) => le_bytes(x, 4),
        VV::Int32(x) => enc_varint(unsigned64(x)),
        VV::Int64(x) => enc_varint(unsigned64(x)),
        VV::UInt32(x) => enc_varint(x),
        VV::UInt64(x) => enc_varint(x),
        VV::SInt32(x) => enc_varint(unzz(x)),
        VV::SInt64(x) => enc_varint(unzz(x)),
        VV::Fixed32(x) => le_bytes(x, 4),
        VV::Fixed64(x) => le_bytes(x, 8),
        VV::SFixed32(x) => le_bytes(unsigned32(x), 4),
        VV::SFixed64(x) => le_bytes(unsigned64(x), 8),
        VV::Bool(x) => if x { seq![1u8] } else { seq![0u8] },
        VV::Str(s) => len_pre(utf8(s)),
        VV::Bytes(b) => len_pre(b),
        VV::Packed(_, s) => len_pre(enc_elems(s, s.len())),
        VV::Msg(m) => len_pre(enc_fields(m.fields, m.fields.len())),
        VV::Enum(_, x) => enc_varint(unsigned64(x)),
        VV::Incomplete(_, b) => b,
        VV::Unk(u) => enc_unknown(u),
    }
}
/// The first `n` elements of a packed array.
#[verifier::opaque]
pub open spec fn enc_elems(s: Seq<VV>, n: nat) -> Seq<u8>
    decreases s, n,
{
    if n == 0 || n > s.len() { Seq::empty() } else { enc_elems(s, (n - 1) as nat) + enc_value(s[n - 1]) }
}
pub open spec fn wire_v(v: VV) -> u8 {
    match v {
        VV::Double(_) | VV::Fixed64(_) | VV::SFixed64(_) => 1,
        VV::Float(_) | VV::Fixed32(_) | VV::SFixed32(_) => 5,
        VV::Str(_) | VV::Bytes(_) | VV::Packed(..) | VV::Msg(_) => 2,
        VV::Incomplete(w, _) => w,
        VV::Unk(UV::Varint(_)) => 0,
        VV::Unk(UV::Fixed64(_)) => 1,
        VV::Unk(UV::Len(_)) => 2,
        VV::Unk(UV::Fixed32(_)) => 5,
        VV::Unk(UV::Invalid(w, _)) => w,
        _ => 0,
    }
}
/// The first `n` fields.
#[verifier::opaque]
pub open spec fn enc_fields(s: Seq<FV>, n: nat) -> Seq<u8>
    decreases s, n,
{
    if n == 0 || n > s.len() { Seq::empty() } else { enc_fields(s, (n - 1) as nat) + enc_varint((s[n - 1].number * 8 + wire_v(s[n - 1].value)) as nat) + enc_value(s[n - 1].value) }
}
/// What encoding asks of a value.
pub open spec fn enc_ok(v: VV) -> bool
    decreases v,
{
    match v {
        VV::Msg(m) => forall|i: int| 0 <= i < m.fields.len() ==> (#[trigger] m.fields[i]).number < 0x2000_0000_0000_0000 && wire_v(m.fields[i].value) < 8 && enc_ok(m.fields[i].value),
        VV::Unk(UV::Varint(x)) => x < TWO64,
        _ => true,
    }
}

// ---- lemmas about varints
pub proof fn lemma_pow128_table()
    ensures
        pow128(0) == 1, pow128(1) == 0x80, pow128(2) == 0x4000, pow128(3) == 0x20_0000, pow128(4) == 0x1000_0000,
        pow128(5) == 0x8_0000_0000, pow128(6) == 0x400_0000_0000, pow128(7) == 0x2_0000_0000_0000,
        pow128(8) == 0x100_0000_0000_0000, pow128(9) == 0x8000_0000_0000_0000,
{
    reveal_with_fuel(pow128, 11);
}
/// One step of reading a varint: the byte `b` at `i` goes above the `7 * i` bits read so far.
pub proof fn lemma_step(s: Seq<u8>, i: nat, b: u8, r: u64)
    requires i < 10, i < s.len(), b == s[i as int], r as nat == vsum(s, i), r < pow128(i),
    ensures
        i < 9 ==> ((b & 0x7f) as u64) << ((i * 7) as u64) == (b % 128) as nat * pow128(i),
        r + (((b & 0x7f) as u64) << ((i * 7) as u64)) < 0x1_0000_0000_0000_0000,
        i < 9 ==> r + (((b & 0x7f) as u64) << ((i * 7) as u64)) == vsum(s, i + 1) && vsum(s, i + 1) < pow128(i + 1),
        r + (((b & 0x7f) as u64) << ((i * 7) as u64)) == vsum(s, i + 1) % TWO64,
        (b & 0x80 == 0) <==> b < 128,
        b & 0x7f == b % 128,
        r | (((b & 0x7f) as u64) << ((i * 7) as u64)) == r + (((b & 0x7f) as u64) << ((i * 7) as u64)),
        (((b & 0x7f) as u64) << ((i * 7) as u64)) | r == r + (((b & 0x7f) as u64) << ((i * 7) as u64)),
{
    lemma_pow128_table();
    let w = (b & 0x7f) as u64;
    assert(w < 128) by { assert(b & 0x7f < 128) by (bit_vector); }
    if i == 0 { assert(w < 128 && r < 1 ==> r | (w << 0u64) == r + (w << 0u64) && (w << 0u64) | r == r + (w << 0u64)) by (bit_vector); }
    else if i == 1 { assert(w < 128 && r < 0x80 ==> r | (w << 7u64) == r + (w << 7u64) && (w << 7u64) | r == r + (w << 7u64)) by (bit_vector); }
    else if i == 2 { assert(w < 128 && r < 0x4000 ==> r | (w << 14u64) == r + (w << 14u64) && (w << 14u64) | r == r + (w << 14u64)) by (bit_vector); }
    else if i == 3 { assert(w < 128 && r < 0x20_0000 ==> r | (w << 21u64) == r + (w << 21u64) && (w << 21u64) | r == r + (w << 21u64)) by (bit_vector); }
    else if i == 4 { assert(w < 128 && r < 0x1000_0000 ==> r | (w << 28u64) == r + (w << 28u64) && (w << 28u64) | r == r + (w << 28u64)) by (bit_vector); }
    else if i == 5 { assert(w < 128 && r < 0x8_0000_0000 ==> r | (w << 35u64) == r + (w << 35u64) && (w << 35u64) | r == r + (w << 35u64)) by (bit_vector); }
    else if i == 6 { assert(w < 128 && r < 0x400_0000_0000 ==> r | (w << 42u64) == r + (w << 42u64) && (w << 42u64) | r == r + (w << 42u64)) by (bit_vector); }
    else if i == 7 { assert(w < 128 && r < 0x2_0000_0000_0000 ==> r | (w << 49u64) == r + (w << 49u64) && (w << 49u64) | r == r + (w << 49u64)) by (bit_vector); }
    else if i == 8 { assert(w < 128 && r < 0x100_0000_0000_0000 ==> r | (w << 56u64) == r + (w << 56u64) && (w << 56u64) | r == r + (w << 56u64)) by (bit_vector); }
    else { assert(w < 128 && r < 0x8000_0000_0000_0000 ==> r | (w << 63u64) == r + (w << 63u64) && (w << 63u64) | r == r + (w << 63u64)) by (bit_vector); }
    reveal(vsum);
    reveal(pow128);
    assert((b & 0x80 == 0) <==> b < 128) by (bit_vector);
    assert(b & 0x7f == b % 128) by (bit_vector);
    let v = (b % 128) as u64;
    assert(v < 128);
    assert(v << 0u64 == v) by (bit_vector) requires v < 128;
    assert(v << 7u64 == v * 0x80) by (bit_vector) requires v < 128;
    assert(v << 14u64 == v * 0x4000) by (bit_vector) requires v < 128;
    assert(v << 21u64 == v * 0x20_0000) by (bit_vector) requires v < 128;
    assert(v << 28u64 == v * 0x1000_0000) by (bit_vector) requires v < 128;
    assert(v << 35u64 == v * 0x8_0000_0000) by (bit_vector) requires v < 128;
    assert(v << 42u64 == v * 0x400_0000_0000) by (bit_vector) requires v < 128;
    assert(v << 49u64 == v * 0x2_0000_0000_0000) by (bit_vector) requires v < 128;
    assert(v << 56u64 == v * 0x100_0000_0000_0000) by (bit_vector) requires v < 128;
    assert(v << 63u64 == (v % 2) * 0x8000_0000_0000_0000) by (bit_vector) requires v < 128;
    assert(vsum(s, i + 1) == vsum(s, i) + v as nat * pow128(i));
    assert(((b & 0x7f) as u64) == v);
    let p = pow128(i);
    if i < 9 {
        let vi = v as int;
        if i == 0 { assert((i * 7) as u64 == 0u64); assert(p == 1); assert(vi * p == vi) by (nonlinear_arith) requires p == 1; assert(v << 0u64 == v); }
        else if i == 1 { assert(v << 7u64 == vi * 0x80); }
        else if i == 2 { assert(v << 14u64 == vi * 0x4000); }
        else if i == 3 { assert(v << 21u64 == vi * 0x20_0000); }
        else if i == 4 { assert(v << 28u64 == vi * 0x1000_0000); }
        else if i == 5 { assert(v << 35u64 == vi * 0x8_0000_0000); }
        else if i == 6 { assert(v << 42u64 == vi * 0x400_0000_0000); }
        else if i == 7 { assert(v << 49u64 == vi * 0x2_0000_0000_0000); }
        else { assert(i == 8); assert(v << 56u64 == vi * 0x100_0000_0000_0000); }
        assert(v << ((i * 7) as u64) == vi * p);
        assert(r + vi * p < 128 * p) by (nonlinear_arith) requires r < p, vi <= 127, p > 0;
        assert(pow128(i + 1) == 128 * p);
        assert(pow128(i + 1) <= 0x8000_0000_0000_0000);
    } else {
        assert(v as nat * pow128(9) == (v / 2) as nat * TWO64 + (v % 2) as nat * 0x8000_0000_0000_0000) by (nonlinear_arith) requires pow128(9) == 0x8000_0000_0000_0000;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(vsum(s, 10) as int, TWO64 as int, (v / 2) as int, r + (v % 2) * 0x8000_0000_0000_0000);
    }
}
pub proof fn lemma_enc_step(v: u64)
    ensures
        (v & 0x7f) as u8 == v % 128,
        v >> 7 == v / 128,
        v & 0x7f < 128,
        ((v & 0x7f) as u8) | 0x80 == v % 128 + 128,
        enc_varint(v as nat) == (if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + enc_varint((v / 128) as nat) }),
{
    reveal(enc_varint);
    assert(v & 0x7f == v % 128) by (bit_vector);
    assert(v >> 7 == v / 128) by (bit_vector);
    let b = (v % 128) as u8;
    assert(b | 0x80 == b + 128) by (bit_vector) requires b < 128;
}

pub proof fn lemma_vend_bound(b: Seq<u8>, i: nat)
    ensures vend(b, i) matches Some(n) ==> i < n <= 10 && n <= b.len(),
    decreases 10 - i,
{
    reveal(vend);
    if i < 10 && i < b.len() && b[i as int] >= 128 { lemma_vend_bound(b, i + 1); }
}
pub proof fn lemma_varint_bound(b: Seq<u8>)
    ensures varint(b) matches Some((v, n)) ==> 0 < n <= 10 && n <= b.len() && v < TWO64,
{
    reveal(varint);
    lemma_vend_bound(b, 0);
}
pub proof fn lemma_skip_all(b: Seq<u8>)
    ensures
        b.skip(b.len() as int) == Seq::<u8>::empty(),
        b.skip(0) == b,
        forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() ==> #[trigger] b.skip(i).skip(j) == b.skip(i + j),
        forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() ==> #[trigger] b.skip(i).take(j) == b.subrange(i, i + j),
{
    assert(b.skip(b.len() as int) =~= Seq::<u8>::empty());
    assert(b.skip(0) =~= b);
    assert forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() implies #[trigger] b.skip(i).skip(j) == b.skip(i + j) by { assert(b.skip(i).skip(j) =~= b.skip(i + j)); }
    assert forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() implies #[trigger] b.skip(i).take(j) == b.subrange(i, i + j) by { assert(b.skip(i).take(j) =~= b.subrange(i, i + j)); }
}
// ---- packed arrays, element by element
/// `done` are the elements before `left` in the array `all`.
pub open spec fn split(vt: ValueType, all: Seq<u8>, done: Seq<VV>, left: Seq<u8>) -> bool {
    match elems(vt, left) { Some(s) => elems(vt, all) == Some(done + s), None => elems(vt, all) is None }
}
pub proof fn lemma_elems_start(vt: ValueType, all: Seq<u8>)
    ensures split(vt, all, Seq::empty(), all),
{
    reveal(elems);
    if let Some(s) = elems(vt, all) { assert(Seq::<VV>::empty() + s =~= s); }
}
pub proof fn lemma_elems_end(vt: ValueType, all: Seq<u8>, done: Seq<VV>, left: Seq<u8>)
    requires split(vt, all, done, left),
    ensures
        left.len() == 0 ==> elems(vt, all) == Some(done),
        left.len() > 0 && scalar(vt, left) is None ==> elems(vt, all) is None,
{
    reveal(elems);
    assert(done + Seq::<VV>::empty() =~= done);
}
pub proof fn lemma_elems_step(vt: ValueType, all: Seq<u8>, done: Seq<VV>, left: Seq<u8>)
    requires split(vt, all, done, left), left.len() > 0, scalar(vt, left) is Some,
    ensures ({ let (v, n) = scalar(vt, left)->0; split(vt, all, done.push(v), rest(left, n)) }),
{
    reveal(elems);
    let (v, n) = scalar(vt, left)->0;
    if let Some(s) = elems(vt, rest(left, n)) { assert(done + (seq![v] + s) =~= done.push(v) + s); }
}

// ---- casts
/// Casts to narrower integers keep the low bits.
pub proof fn lemma_casts()
    ensures
        forall|v: i64| (#[trigger] (v as i32)) as int == s32(unsigned64(v as int)),
        forall|u: u64| (#[trigger] (u as u32)) as nat == u as nat % TWO32,
        forall|u: u64| #[trigger] (u >> 3) == u / 8,
        forall|u: u64| (#[trigger] (u & 7)) == u % 8,
        forall|a: int, b: int| a == 1 ==> #[trigger] (a * b) == b,
        forall|a: int, b: int| a == -1 ==> #[trigger] (a * b) == -b,
        forall|u: u64| (#[trigger] (u as i64)) as int == s64(u as nat),
        forall|v: i64| (#[trigger] (v as u64)) as nat == unsigned64(v as int),
        forall|u: u64| #[trigger] (u >> 1) == u / 2,
        forall|u: u64| (#[trigger] (u & 1)) == u % 2,
        forall|u: u32| #[trigger] (u >> 1) == u / 2,
        forall|u: u32| (#[trigger] (u & 1)) == u % 2,
        forall|a: u64, b: u64| a < 8 && b < 0x2000_0000_0000_0000 ==> #[trigger] (a | (b << 3)) == a + (b << 3),
        forall|a: u64, b: u64| a < 8 && b < 0x2000_0000_0000_0000 ==> #[trigger] ((b << 3) | a) == a + (b << 3),
        forall|a: i32, b: i32| b == 0 ==> #[trigger] (a ^ b) == a,
        forall|a: i32, b: i32| b == -1 ==> (#[trigger] (a ^ b)) as int == -1 - a,
        forall|a: i64, b: i64| b == 0 ==> #[trigger] (a ^ b) == a,
        forall|a: i64, b: i64| b == -1 ==> (#[trigger] (a ^ b)) as int == -1 - a,
{
    assert forall|u: u64| (#[trigger] (u as i64)) as int == s64(u as nat) by {
        assert((u as i64) as int == (if u < 0x8000_0000_0000_0000 { u as int } else { u as int - 0x1_0000_0000_0000_0000 })) by (bit_vector);
    }
    assert forall|v: i64| (#[trigger] (v as u64)) as nat == unsigned64(v as int) by {
        assert((v as u64) as int == (if v >= 0 { v as int } else { v as int + 0x1_0000_0000_0000_0000 })) by (bit_vector);
    }
    assert forall|u: u64| #[trigger] (u >> 1) == u / 2 by { assert(u >> 1 == u / 2) by (bit_vector); }
    assert forall|u: u64| (#[trigger] (u & 1)) == u % 2 by { assert(u & 1 == u % 2) by (bit_vector); }
    assert forall|u: u32| #[trigger] (u >> 1) == u / 2 by { assert(u >> 1 == u / 2) by (bit_vector); }
    assert forall|u: u32| (#[trigger] (u & 1)) == u % 2 by { assert(u & 1 == u % 2) by (bit_vector); }
    assert forall|a: u64, b: u64| a < 8 && b < 0x2000_0000_0000_0000 implies #[trigger] (a | (b << 3)) == a + (b << 3) by {
        assert(a < 8 && b < 0x2000_0000_0000_0000 ==> (a | (b << 3)) == a + (b << 3)) by (bit_vector);
    }
    assert forall|a: u64, b: u64| a < 8 && b < 0x2000_0000_0000_0000 implies #[trigger] ((b << 3) | a) == a + (b << 3) by {
        assert(a < 8 && b < 0x2000_0000_0000_0000 ==> ((b << 3) | a) == a + (b << 3)) by (bit_vector);
    }
    assert forall|a: i32, b: i32| b == 0 implies #[trigger] (a ^ b) == a by { assert(b == 0 ==> a ^ b == a) by (bit_vector); }
    assert forall|a: i32, b: i32| b == -1 implies (#[trigger] (a ^ b)) as int == -1 - a by { assert(b == -1 ==> (a ^ b) as int == -1 - a as int) by (bit_vector); }
    assert forall|a: i64, b: i64| b == 0 implies #[trigger] (a ^ b) == a by { assert(b == 0 ==> a ^ b == a) by (bit_vector); }
    assert forall|a: i64, b: i64| b == -1 implies (#[trigger] (a ^ b)) as int == -1 - a by { assert(b == -1 ==> (a ^ b) as int == -1 - a as int) by (bit_vector); }
    assert forall|u: u64| #[trigger] (u >> 3) == u / 8 by { assert(u >> 3 == u / 8) by (bit_vector); }
    assert forall|u: u64| (#[trigger] (u & 7)) == u % 8 by { assert(u & 7 == u % 8) by (bit_vector); }
    assert forall|a: int, b: int| a == 1 implies #[trigger] (a * b) == b by { assert(a * b == (if a == 1 { b } else { -b })) by (nonlinear_arith) requires a == 1 || a == -1; }
    assert forall|a: int, b: int| a == -1 implies #[trigger] (a * b) == -b by { assert(a * b == (if a == 1 { b } else { -b })) by (nonlinear_arith) requires a == 1 || a == -1; }
    assert forall|v: i64| (#[trigger] (v as i32)) as int == s32(unsigned64(v as int)) by {
        assert(((v as i32) as int - v as int) % 0x1_0000_0000 == 0) by (bit_vector);
    }
    assert forall|u: u64| (#[trigger] (u as u32)) as nat == u as nat % TWO32 by {
        assert((u as u32) as u64 == u % 0x1_0000_0000u64) by (bit_vector);
    }
}

/// Zigzag with shifts.
pub proof fn lemma_zigzag_shifts()
    ensures
        forall|v: i32| (#[trigger] (((v << 1) ^ (v >> 31)) as u32)) as int == (if v >= 0 { 2 * v as int } else { -2 * v as int - 1 }),
 forall|v: i64| (#[trigger] (((v << 1) ^ (v >> 63)) as u64)) as int == (if v >= 0 { 2 * v as int } else { -2 * v as int - 1 }),
{
 assert forall|v: i32| (#[trigger] (((v << 1) ^ (v >> 31)) as u32)) as int == (if v >= 0 { 2 * v as int } else { -2 * v as int - 1 }) by {
  assert((((v << 1) ^ (v >> 31)) as u32) as int == (if v >= 0 { 2 * v as int } else { -2 * v as int - 1 })) by (bit_vector);
 }
 assert forall|v: i64| (#[trigger] (((v << 1) ^ (v >> 63)) as u64)) as int == (if v >= 0 { 2 * v as int } else { -2 * v as int - 1 }) by {
  assert((((v << 1) ^ (v >> 63)) as u64) as int == (if v >= 0 { 2 * v as int } else { -2 * v as int - 1 })) by (bit_vector);
 }
}

pub proof fn lemma_dec_value_msg(vt: ValueType, wt: u8, b: Seq<u8>, ctx: Context)
    ensures
        vt matches ValueType::Message(r) ==> (varint(b) matches Some((l, n)) ==> (n + l <= b.len() ==> dec_value(vt, wt, b, ctx) == (VV::Msg(dec_msg(ctx_msg(ctx, r), window(b, n, l), ctx)), (n + l) as nat))),
{
    lemma_varint_bound(b);
    reveal(dec_msg);
}

// ---- lemmas about encoding
pub proof fn lemma_enc_small()
    ensures
        enc_varint(0) == seq![0u8],
        enc_varint(1) == seq![1u8],
{
    reveal(enc_varint);
}
pub proof fn lemma_enc_elems_step(s: Seq<VV>, n: nat)
    ensures
        enc_elems(s, 0) == Seq::<u8>::empty(),
        0 < n <= s.len() ==> enc_elems(s, n) == enc_elems(s, (n - 1) as nat) + enc_value(s[n - 1]),
{
    reveal(enc_elems);
}
pub proof fn lemma_enc_fields_step(s: Seq<FV>, n: nat)
    ensures
        enc_fields(s, 0) == Seq::<u8>::empty(),
        0 < n <= s.len() ==> enc_fields(s, n) == enc_fields(s, (n - 1) as nat) + enc_varint((s[n - 1].number * 8 + wire_v(s[n - 1].value)) as nat) + enc_value(s[n - 1].value),
{
    reveal(enc_fields);
}
pub proof fn lemma_shl3(u: u64)
    ensures u < 0x2000_0000_0000_0000 ==> u << 3 == u * 8,
{
    if u < 0x2000_0000_0000_0000 { assert(u << 3 == u * 8) by (bit_vector) requires u < 0x2000_0000_0000_0000; }
}

pub proof fn lemma_enc_msg()
    ensures
        forall|m: MV| #[trigger] enc_value(VV::Msg(m)) == len_pre(enc_fields(m.fields, m.fields.len())),
        forall|t: ValueType, s: Seq<VV>| #[trigger] enc_value(VV::Packed(t, s)) == len_pre(enc_elems(s, s.len())),
{
    reveal(enc_fields);
    reveal(enc_elems);
}
