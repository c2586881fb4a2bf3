// ---- the properties, as lemmas about what the functions are specified to compute
// Each function named prop_* below states a property; the contracts in wire.txt tie the code to these definitions.

pub proof fn lemma_vend_append(b: Seq<u8>, t: Seq<u8>, i: nat)
    ensures vend(b, i) matches Some(n) ==> vend(b + t, i) == Some(n),
    decreases 10 - i,
{
    reveal(vend);
    if i < 10 && i < b.len() {
        assert((b + t)[i as int] == b[i as int]);
        if b[i as int] >= 128 { lemma_vend_append(b, t, i + 1); }
    }
}
pub proof fn lemma_vsum_append(b: Seq<u8>, t: Seq<u8>, n: nat)
    requires n <= b.len(),
    ensures vsum(b + t, n) == vsum(b, n),
    decreases n,
{
    reveal(vsum);
    if n > 0 { lemma_vsum_append(b, t, (n - 1) as nat); assert((b + t)[n - 1] == b[n - 1]); }
}
pub proof fn lemma_varint_append(b: Seq<u8>, t: Seq<u8>)
    ensures varint(b) is Some ==> varint(b + t) == varint(b),
{
    reveal(varint);
    lemma_varint_bound(b);
    lemma_vend_append(b, t, 0);
    if let Some(n) = vend(b, 0) { lemma_vsum_append(b, t, n); }
}
pub proof fn lemma_vsum_front(x: u8, b: Seq<u8>, n: nat)
    requires n <= b.len(),
    ensures vsum(seq![x] + b, n + 1) == (x % 128) as nat + 128 * vsum(b, n),
    decreases n,
{
    reveal_with_fuel(vsum, 3);
    reveal_with_fuel(pow128, 3);
    let c = seq![x] + b;
    if n == 0 {
        assert(vsum(c, 1) == vsum(c, 0) + (c[0] % 128) as nat * pow128(0));
        assert(c[0] == x);
        assert(vsum(b, 0) == 0);
        assert(pow128(0) == 1);
        assert((c[0] % 128) as nat * pow128(0) == (c[0] % 128) as nat) by (nonlinear_arith) requires pow128(0) == 1;
    } else {
        lemma_vsum_front(x, b, (n - 1) as nat);
        assert(c[n as int] == b[n - 1]);
        let q = (b[n - 1] % 128) as nat;
        let p = pow128((n - 1) as nat);
        assert(vsum(b, n) == vsum(b, (n - 1) as nat) + q * p);
        assert(q * (128 * p) == 128 * (q * p)) by (nonlinear_arith);
        assert(vsum(c, n + 1) == vsum(c, n) + q * pow128(n));
    }
}
/// Minimal varints: at most `k` bytes for a number below 128^k, all but the last with the top bit set, the last one not zero unless alone.
pub proof fn lemma_enc_shape(v: nat, k: nat)
    requires v < pow128(k), k > 0,
    ensures
        0 < enc_varint(v).len() <= k,
        forall|i: int| 0 <= i < enc_varint(v).len() - 1 ==> enc_varint(v)[i] >= 128,
        enc_varint(v).last() < 128,
        enc_varint(v).len() > 1 ==> enc_varint(v).last() > 0,
        vsum(enc_varint(v), enc_varint(v).len()) == v,
    decreases k,
{
    reveal(enc_varint);
    reveal(pow128);
    let e = enc_varint(v);
    if v < 128 {
        reveal_with_fuel(vsum, 3);
        assert(pow128(0) == 1);
        assert(vsum(e, 1) == vsum(e, 0) + (e[0] % 128) as nat * pow128(0));
        assert((e[0] % 128) as nat * pow128(0) == (e[0] % 128) as nat) by (nonlinear_arith) requires pow128(0) == 1;
    } else {
        assert(k > 1) by { if k == 1 { assert(pow128(1) == 128 * pow128(0)); } }
        let w = v / 128;
        assert(w < pow128((k - 1) as nat));
        lemma_enc_shape(w, (k - 1) as nat);
        let f = enc_varint(w);
        let x = (v % 128 + 128) as u8;
        assert(e =~= seq![x] + f);
        assert forall|i: int| 0 <= i < e.len() - 1 implies e[i] >= 128 by { if i > 0 { assert(e[i] == f[i - 1]); } }
        assert(e.last() == f.last());
        lemma_vsum_front(x, f, f.len());
        assert(x % 128 == v % 128);
    }
}
pub proof fn lemma_vend_shape(b: Seq<u8>, n: nat, i: nat)
    requires i < n <= 10, n <= b.len(), forall|j: int| 0 <= j < n - 1 ==> b[j] >= 128, b[n - 1] < 128,
    ensures vend(b, i) == Some(n),
    decreases n - i,
{
    reveal(vend);
    if i + 1 < n { lemma_vend_shape(b, n, i + 1); }
}
/// A minimal varint is read back, whatever follows.
pub proof fn lemma_varint_of_enc(v: nat, t: Seq<u8>)
    requires v < TWO64,
    ensures
        varint(enc_varint(v) + t) == Some((v, enc_varint(v).len())),
        varint(enc_varint(v)) == Some((v, enc_varint(v).len())),
        0 < enc_varint(v).len() <= 10,
{
    reveal(varint);
    reveal(pow128);
    lemma_pow128_table();
    assert(pow128(10) == 128 * pow128(9));
    lemma_enc_shape(v, 10);
    let e = enc_varint(v);
    assert forall|j: int| 0 <= j < e.len() - 1 implies (e + t)[j] >= 128 by { assert((e + t)[j] == e[j]); }
    assert((e + t)[e.len() - 1] == e.last());
    lemma_vend_shape(e + t, e.len(), 0);
    lemma_vend_shape(e, e.len(), 0);
    lemma_vsum_append(e, t, e.len());
}
pub open spec fn pow256(n: nat) -> nat
    decreases n,
{
    if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) }
}
pub proof fn lemma_pow256()
    ensures pow256(4) == TWO32, pow256(8) == TWO64,
{
    reveal_with_fuel(pow256, 9);
}
pub proof fn lemma_le_val(b: Seq<u8>)
    ensures le_bytes(le_val(b), b.len()) == b, le_val(b) < pow256(b.len()),
    decreases b.len(),
{
    reveal(le_val);
    reveal(le_bytes);
    if b.len() > 0 {
        let t = b.drop_first();
        lemma_le_val(t);
        assert(le_val(b) % 256 == b[0] as nat);
        assert(le_val(b) / 256 == le_val(t));
        assert(b =~= seq![b[0]] + t);
    } else {
        assert(b =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_le_bytes(v: nat, n: nat)
    ensures le_bytes(v, n).len() == n, v < pow256(n) ==> le_val(le_bytes(v, n)) == v,
    decreases n,
{
    reveal(le_val);
    reveal(le_bytes);
    if n > 0 {
        lemma_le_bytes(v / 256, (n - 1) as nat);
        let b = le_bytes(v, n);
        assert(b.drop_first() =~= le_bytes(v / 256, (n - 1) as nat));
        assert(v < pow256(n) ==> v / 256 < pow256((n - 1) as nat));
    }
}
pub proof fn lemma_rest_append(b: Seq<u8>, t: Seq<u8>)
    ensures
        forall|n: nat| 0 < n <= b.len() ==> #[trigger] rest(b + t, n) == rest(b, n) + t,
        forall|n: nat, l: nat| 0 < n && n + l <= b.len() ==> #[trigger] window(b + t, n, l) == window(b, n, l),
        forall|n: int| 0 <= n <= b.len() ==> #[trigger] (b + t).take(n) == b.take(n),
{
    assert forall|n: nat| 0 < n <= b.len() implies #[trigger] rest(b + t, n) == rest(b, n) + t by { assert(rest(b + t, n) =~= rest(b, n) + t); }
    assert forall|n: nat, l: nat| 0 < n && n + l <= b.len() implies #[trigger] window(b + t, n, l) == window(b, n, l) by { assert(window(b + t, n, l) =~= window(b, n, l)); }
    assert forall|n: int| 0 <= n <= b.len() implies #[trigger] (b + t).take(n) == b.take(n) by { assert((b + t).take(n) =~= b.take(n)); }
}
pub proof fn lemma_scalar_bound(vt: ValueType, b: Seq<u8>)
    ensures scalar(vt, b) matches Some((v, n)) ==> 0 < n <= b.len(),
{
    lemma_varint_bound(b);
}
/// A complete value does not depend on what follows it.
pub proof fn lemma_scalar_append(vt: ValueType, b: Seq<u8>, t: Seq<u8>)
    ensures scalar(vt, b) is Some ==> scalar(vt, b + t) == scalar(vt, b),
{
    lemma_varint_bound(b);
    lemma_varint_append(b, t);
    lemma_rest_append(b, t);
}
pub open spec fn complete(v: VV) -> bool { !(v is Incomplete) && !(v matches VV::Unk(UV::Invalid(..))) }
pub proof fn lemma_field_bound(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, ctx: Context)
    ensures
        dec_field(m, number, wt, b, ctx).1 <= b.len(),
        dec_field(m, number, wt, b, ctx).1 == 0 ==> b.len() == 0,
        complete(dec_field(m, number, wt, b, ctx).0) ==> dec_field(m, number, wt, b, ctx).1 > 0,
{
    lemma_varint_bound(b);
    if m.fields@.dom().contains(number as u64) {
        let f = m.fields@[number as u64];
        lemma_scalar_bound(f.field_type, b);
    }
}
/// A field value that is complete, or that something follows, does not depend on what is appended.
pub proof fn lemma_field_append(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, t: Seq<u8>, ctx: Context)
    ensures
        dec_field(m, number, wt, b, ctx).1 < b.len() || complete(dec_field(m, number, wt, b, ctx).0)
            ==> dec_field(m, number, wt, b + t, ctx) == dec_field(m, number, wt, b, ctx),
{
    lemma_varint_bound(b);
    lemma_varint_append(b, t);
    lemma_rest_append(b, t);
    if m.fields@.dom().contains(number as u64) {
        let f = m.fields@[number as u64];
        lemma_scalar_append(f.field_type, b, t);
        lemma_dec_value_msg(f.field_type, wt, b, ctx);
        lemma_dec_value_msg(f.field_type, wt, b + t, ctx);
    }
}
pub proof fn lemma_dec_fields_nil(m: MessageInfo, ctx: Context)
    ensures dec_fields(m, Seq::empty(), ctx) == (Seq::<FV>::empty(), None::<Seq<u8>>),
{
    reveal(dec_fields);
}
/// One field off the front.
pub proof fn lemma_dec_fields_step(m: MessageInfo, b: Seq<u8>, ctx: Context)
    ensures
        b.len() > 0 && varint(b) is None ==> dec_fields(m, b, ctx) == (Seq::<FV>::empty(), Some(b)),
        varint(b) matches Some((t, n)) ==> ({
            let b1 = rest(b, n);
            let (v, c) = dec_field(m, t / 8, (t % 8) as u8, b1, ctx);
            let b2 = b1.skip(c as int);
            &&& b2.len() < b.len()
            &&& dec_fields(m, b, ctx) == (seq![FV { number: t / 8, value: v }] + dec_fields(m, b2, ctx).0, dec_fields(m, b2, ctx).1)
        }),
{
    reveal(dec_fields);
    lemma_varint_bound(b);
    if let Some((t, n)) = varint(b) {
        let b1 = rest(b, n);
        let (v, c) = dec_field(m, t / 8, (t % 8) as u8, b1, ctx);
        lemma_field_bound(m, t / 8, (t % 8) as u8, b1, ctx);
        lemma_skip_all(b1);
    }
}
/// C19: appending bytes to a message without incomplete or invalid values and without garbage appends their fields.
pub proof fn prop_c19_concatenation(m: MessageInfo, b: Seq<u8>, t: Seq<u8>, ctx: Context)
    requires
        dec_fields(m, b, ctx).1 is None,
        forall|i: int| 0 <= i < dec_fields(m, b, ctx).0.len() ==> complete((#[trigger] dec_fields(m, b, ctx).0[i]).value),
    ensures
        dec_fields(m, b + t, ctx).0 == dec_fields(m, b, ctx).0 + dec_fields(m, t, ctx).0,
        dec_fields(m, b + t, ctx).1 == dec_fields(m, t, ctx).1,
    decreases b.len(),
{
    if b.len() == 0 {
        lemma_dec_fields_nil(m, ctx);
        assert(b =~= Seq::<u8>::empty());
        assert(b + t =~= t);
        assert(Seq::<FV>::empty() + dec_fields(m, t, ctx).0 =~= dec_fields(m, t, ctx).0);
    } else {
        lemma_dec_fields_step(m, b, ctx);
        lemma_dec_fields_step(m, b + t, ctx);
        lemma_varint_bound(b);
        lemma_varint_append(b, t);
        lemma_rest_append(b, t);
        let (g, n) = varint(b)->0;
        let b1 = rest(b, n);
        let (v, c) = dec_field(m, g / 8, (g % 8) as u8, b1, ctx);
        lemma_field_bound(m, g / 8, (g % 8) as u8, b1, ctx);
        let fs = dec_fields(m, b, ctx).0;
        assert(fs[0] == FV { number: g / 8, value: v });
        lemma_field_append(m, g / 8, (g % 8) as u8, b1, t, ctx);
        let b2 = b1.skip(c as int);
        assert((b1 + t).skip(c as int) =~= b2 + t);
        let fs2 = dec_fields(m, b2, ctx).0;
        assert forall|i: int| 0 <= i < fs2.len() implies complete((#[trigger] fs2[i]).value) by { assert(fs[i + 1] == fs2[i]); }
        prop_c19_concatenation(m, b2, t, ctx);
        assert(dec_fields(m, b + t, ctx).0 =~= fs + dec_fields(m, t, ctx).0);
    }
}
/// C06: cutting a message anywhere leaves all fields but the last of the remainder as they were, and the last one too unless it is incomplete or invalid.
pub proof fn prop_c06_prefix(m: MessageInfo, b: Seq<u8>, t: Seq<u8>, ctx: Context, i: int)
    requires
        0 <= i < dec_fields(m, b, ctx).0.len(),
        i < dec_fields(m, b, ctx).0.len() - 1 || dec_fields(m, b, ctx).1 is Some || complete(dec_fields(m, b, ctx).0[i].value),
    ensures
        i < dec_fields(m, b + t, ctx).0.len(),
        dec_fields(m, b + t, ctx).0[i] == dec_fields(m, b, ctx).0[i],
    decreases b.len(),
{
    lemma_dec_fields_step(m, b, ctx);
    lemma_dec_fields_step(m, b + t, ctx);
    lemma_varint_bound(b);
    lemma_varint_append(b, t);
    lemma_rest_append(b, t);
    if b.len() == 0 { lemma_dec_fields_nil(m, ctx); assert(b =~= Seq::<u8>::empty()); }
    let (g, n) = varint(b)->0;
    let b1 = rest(b, n);
    let (v, c) = dec_field(m, g / 8, (g % 8) as u8, b1, ctx);
    lemma_field_bound(m, g / 8, (g % 8) as u8, b1, ctx);
    lemma_field_append(m, g / 8, (g % 8) as u8, b1, t, ctx);
    let b2 = b1.skip(c as int);
    let fs = dec_fields(m, b, ctx).0;
    let fs2 = dec_fields(m, b2, ctx).0;
    assert(fs[0] == FV { number: g / 8, value: v });
    if c == b1.len() {
        assert(b2 =~= Seq::<u8>::empty());
        lemma_dec_fields_nil(m, ctx);
        assert(complete(v));
    }
    assert((b1 + t).skip(c as int) =~= b2 + t);
    if i > 0 {
        assert(fs[i] == fs2[i - 1]);
        prop_c06_prefix(m, b2, t, ctx, i - 1);
    }
}

// ---- C02, C03, C05, C06, C07: what each kind of field decodes to, whatever comes before and after it
/// Decoding a field: its tag (a minimal varint here), its value `b` and whatever follows.
pub proof fn lemma_field_at(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, t: Seq<u8>, ctx: Context)
    requires
        number < 0x2000_0000_0000_0000,
        wt < 8,
        dec_field(m, number, wt, b, ctx).1 == b.len(),
        complete(dec_field(m, number, wt, b, ctx).0),
    ensures
        dec_fields(m, enc_varint((number * 8 + wt) as nat) + b + t, ctx).0 == seq![FV { number, value: dec_field(m, number, wt, b, ctx).0 }] + dec_fields(m, t, ctx).0,
        dec_fields(m, enc_varint((number * 8 + wt) as nat) + b + t, ctx).1 == dec_fields(m, t, ctx).1,
{
    let g = (number * 8 + wt) as nat;
    let e = enc_varint(g);
    lemma_varint_of_enc(g, b + t);
    let a = e + b + t;
    assert(a =~= e + (b + t));
    lemma_dec_fields_step(m, a, ctx);
    assert(rest(a, e.len()) =~= b + t);
    lemma_field_append(m, number, wt, b, t, ctx);
    assert((b + t).skip(b.len() as int) =~= t);
    assert(g / 8 == number && g % 8 == wt as nat);
}
pub open spec fn declared(m: MessageInfo, number: nat) -> bool { number < 0x2000_0000_0000_0000 && m.fields@.dom().contains(number as u64) }
/// C02: a complete value `b` of a declared scalar field.
pub proof fn prop_c02_scalar(m: MessageInfo, number: nat, b: Seq<u8>, t: Seq<u8>, ctx: Context)
    requires
        declared(m, number),
        !is_packed(m.fields@[number as u64]),
        !(m.fields@[number as u64].field_type is Message),
        scalar(m.fields@[number as u64].field_type, b) matches Some((v, n)) && n == b.len(),
    ensures ({
        let vt = m.fields@[number as u64].field_type;
        let d = dec_fields(m, enc_varint((number * 8 + wire_of(vt)) as nat) + b + t, ctx);
        &&& d.0 == seq![FV { number, value: (scalar(vt, b)->0).0 }] + dec_fields(m, t, ctx).0
        &&& d.1 == dec_fields(m, t, ctx).1
    }),
{
    let vt = m.fields@[number as u64].field_type;
    lemma_scalar_bound(vt, b);
    lemma_field_at(m, number, wire_of(vt), b, t, ctx);
}
/// C03: a packed array `p` of a declared packed field.
pub proof fn prop_c03_packed(m: MessageInfo, number: nat, p: Seq<u8>, t: Seq<u8>, ctx: Context)
    requires
        declared(m, number),
        is_packed(m.fields@[number as u64]),
        p.len() < TWO64,
        elems(m.fields@[number as u64].field_type, p) is Some,
    ensures ({
        let vt = m.fields@[number as u64].field_type;
        let d = dec_fields(m, enc_varint((number * 8 + 2) as nat) + len_pre(p) + t, ctx);
        &&& d.0 == seq![FV { number, value: VV::Packed(vt, elems(vt, p)->0) }] + dec_fields(m, t, ctx).0
        &&& d.1 == dec_fields(m, t, ctx).1
    }),
{
    lemma_varint_of_enc(p.len(), p);
    assert(window(len_pre(p), enc_varint(p.len()).len(), p.len()) =~= p);
    lemma_field_at(m, number, 2, len_pre(p), t, ctx);
}
/// C03: the empty array, and one more element at the front.
pub proof fn prop_c03_elements(vt: ValueType, a: Seq<u8>, p: Seq<u8>)
    requires scalar(vt, a) matches Some((v, n)) && n == a.len(),
    ensures
        elems(vt, Seq::empty()) == Some(Seq::<VV>::empty()),
        elems(vt, a + p) == (match elems(vt, p) { Some(s) => Some(seq![(scalar(vt, a)->0).0] + s), None => None }),
{
    reveal_with_fuel(elems, 2);
    lemma_scalar_bound(vt, a);
    lemma_scalar_append(vt, a, p);
    assert(rest(a + p, a.len()) =~= p);
}
pub open spec fn unk_ok(u: UV) -> bool {
    match u { UV::Varint(x) => x < TWO64, UV::Fixed64(x) => x < TWO64, UV::Fixed32(x) => x < TWO32, UV::Len(b) => b.len() < TWO64, UV::Invalid(..) => false }
}
/// What does not fit its declaration.
pub open spec fn mistyped(m: MessageInfo, number: nat, wt: u8) -> bool {
    number < 0x2000_0000_0000_0000 && (m.fields@.dom().contains(number as u64) ==> wt != (if is_packed(m.fields@[number as u64]) { 2 } else { wire_of(m.fields@[number as u64].field_type) }))
}
pub proof fn lemma_dec_unknown(u: UV)
    requires unk_ok(u),
    ensures
        dec_unknown(wire_v(VV::Unk(u)), enc_unknown(u)) == (VV::Unk(u), enc_unknown(u).len()),
{
    match u {
        UV::Varint(x) => { lemma_varint_of_enc(x, Seq::empty()); }
        UV::Fixed64(x) => { lemma_le_bytes(x, 8); lemma_pow256(); assert(le_bytes(x, 8).take(8) =~= le_bytes(x, 8)); }
        UV::Fixed32(x) => { lemma_le_bytes(x, 4); lemma_pow256(); assert(le_bytes(x, 4).take(4) =~= le_bytes(x, 4)); }
        UV::Len(p) => { lemma_varint_of_enc(p.len(), p); assert(window(len_pre(p), enc_varint(p.len()).len(), p.len()) =~= p); }
        UV::Invalid(..) => {}
    }
}
/// C05: a complete value that is not declared, or whose wire type does not fit its declaration.
pub proof fn prop_c05_unknown(m: MessageInfo, number: nat, u: UV, t: Seq<u8>, ctx: Context)
    requires unk_ok(u), mistyped(m, number, wire_v(VV::Unk(u))),
    ensures ({
        let d = dec_fields(m, enc_varint((number * 8 + wire_v(VV::Unk(u))) as nat) + enc_unknown(u) + t, ctx);
        &&& d.0 == seq![FV { number, value: VV::Unk(u) }] + dec_fields(m, t, ctx).0
        &&& d.1 == dec_fields(m, t, ctx).1
    }),
{
    lemma_dec_unknown(u);
    lemma_field_at(m, number, wire_v(VV::Unk(u)), enc_unknown(u), t, ctx);
}
/// C05: an invalid wire type takes all that is left.
pub proof fn prop_c05_invalid(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, ctx: Context)
    requires wt == 3 || wt == 4 || wt == 6 || wt == 7, number < 0x2000_0000_0000_0000,
    ensures dec_fields(m, enc_varint((number * 8 + wt) as nat) + b, ctx) == (seq![FV { number, value: VV::Unk(UV::Invalid(wt, b)) }], None::<Seq<u8>>),
{
    let g = (number * 8 + wt) as nat;
    let e = enc_varint(g);
    lemma_varint_of_enc(g, b);
    let a = e + b;
    lemma_dec_fields_step(m, a, ctx);
    assert(rest(a, e.len()) =~= b);
    assert(b.skip(b.len() as int) =~= Seq::<u8>::empty());
    lemma_dec_fields_nil(m, ctx);
    assert(seq![FV { number, value: VV::Unk(UV::Invalid(wt, b)) }] + Seq::<FV>::empty() =~= seq![FV { number, value: VV::Unk(UV::Invalid(wt, b)) }]);
    assert(g / 8 == number && g % 8 == wt as nat);
}
/// `b` is not a whole value of wire type `wt`.
pub open spec fn cut(wt: u8, b: Seq<u8>) -> bool {
    (wt == 0 && varint(b) is None) || (wt == 1 && b.len() < 8) || (wt == 5 && b.len() < 4)
        || (wt == 2 && (varint(b) matches Some((l, n)) ==> n + l > b.len()))
}
/// C06: a value cut short is the last field, and holds all that follows its tag.
pub proof fn prop_c06_incomplete(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, ctx: Context)
    requires cut(wt, b), number < 0x2000_0000_0000_0000,
    ensures dec_fields(m, enc_varint((number * 8 + wt) as nat) + b, ctx) == (seq![FV { number, value: VV::Incomplete(wt, b) }], None::<Seq<u8>>),
{
    let g = (number * 8 + wt) as nat;
    let e = enc_varint(g);
    lemma_varint_of_enc(g, b);
    let a = e + b;
    lemma_dec_fields_step(m, a, ctx);
    assert(rest(a, e.len()) =~= b);
    assert(b.skip(b.len() as int) =~= Seq::<u8>::empty());
    lemma_dec_fields_nil(m, ctx);
    assert(seq![FV { number, value: VV::Incomplete(wt, b) }] + Seq::<FV>::empty() =~= seq![FV { number, value: VV::Incomplete(wt, b) }]);
    assert(g / 8 == number && g % 8 == wt as nat);
    assert(dec_field(m, number, wt, b, ctx) == (VV::Incomplete(wt, b), b.len()));
}
/// C06: an array that ends within an element is kept as it is, and what follows is decoded as ever.
pub proof fn prop_c06_partial_element(m: MessageInfo, number: nat, p: Seq<u8>, t: Seq<u8>, ctx: Context)
    requires
        declared(m, number),
        is_packed(m.fields@[number as u64]),
        p.len() < TWO64,
        elems(m.fields@[number as u64].field_type, p) is None,
    ensures ({
        let d = dec_fields(m, enc_varint((number * 8 + 2) as nat) + len_pre(p) + t, ctx);
        &&& d.0 == seq![FV { number, value: VV::Incomplete(2, len_pre(p)) }] + dec_fields(m, t, ctx).0
        &&& d.1 == dec_fields(m, t, ctx).1
    }),
{
    let g = (number * 8 + 2) as nat;
    let e = enc_varint(g);
    let b = len_pre(p);
    lemma_varint_of_enc(p.len(), p + t);
    lemma_varint_of_enc(g, b + t);
    assert(window(b + t, enc_varint(p.len()).len(), p.len()) =~= p);
    assert(b + t =~= enc_varint(p.len()) + (p + t));
    let a = e + b + t;
    assert(a =~= e + (b + t));
    lemma_dec_fields_step(m, a, ctx);
    assert(rest(a, e.len()) =~= b + t);
    assert((b + t).skip(b.len() as int) =~= t);
    assert((b + t).take(b.len() as int) =~= b);
    assert(g / 8 == number && g % 8 == 2);
}
/// C06: a message that ends within a tag.
pub proof fn prop_c06_garbage(m: MessageInfo, b: Seq<u8>, ctx: Context)
    requires b.len() > 0, varint(b) is None,
    ensures dec_fields(m, b, ctx) == (Seq::<FV>::empty(), Some(b)),
{
    lemma_dec_fields_step(m, b, ctx);
}
/// C07: a complete nested message decodes to what its payload decodes to on its own, and what follows does not depend on it.
pub proof fn prop_c07_nested(m: MessageInfo, number: nat, r: MessageRef, p: Seq<u8>, t: Seq<u8>, ctx: Context)
    requires
        declared(m, number),
        !is_packed(m.fields@[number as u64]),
        m.fields@[number as u64].field_type == ValueType::Message(r),
        p.len() < TWO64,
    ensures ({
        let d = dec_fields(m, enc_varint((number * 8 + 2) as nat) + len_pre(p) + t, ctx);
        &&& d.0 == seq![FV { number, value: VV::Msg(dec_msg(ctx_msg(ctx, r), p, ctx)) }] + dec_fields(m, t, ctx).0
        &&& d.1 == dec_fields(m, t, ctx).1
    }),
{
    lemma_varint_of_enc(p.len(), p);
    assert(window(len_pre(p), enc_varint(p.len()).len(), p.len()) =~= p);
    lemma_dec_value_msg(ValueType::Message(r), 2, len_pre(p), ctx);
    lemma_field_at(m, number, 2, len_pre(p), t, ctx);
}

pub proof fn lemma_dec_msg(m: MessageInfo, b: Seq<u8>, ctx: Context)
    ensures dec_msg(m, b, ctx) == (MV { msg_ref: m.self_ref, fields: dec_fields(m, b, ctx).0, garbage: dec_fields(m, b, ctx).1 }),
{
    reveal(dec_msg);
    reveal(dec_fields);
}
// ---- encoding from the front
pub proof fn lemma_enc_fields_front(f: FV, s: Seq<FV>, n: nat)
    requires n <= s.len(),
    ensures enc_fields(seq![f] + s, n + 1) == enc_varint((f.number * 8 + wire_v(f.value)) as nat) + enc_value(f.value) + enc_fields(s, n),
    decreases n,
{
    let c = seq![f] + s;
    lemma_enc_fields_step(c, n + 1);
    lemma_enc_fields_step(c, 1);
    lemma_enc_fields_step(s, n);
    if n > 0 {
        lemma_enc_fields_front(f, s, (n - 1) as nat);
        assert(c[n as int] == s[n - 1]);
        assert(enc_fields(c, n + 1) =~= enc_varint((f.number * 8 + wire_v(f.value)) as nat) + enc_value(f.value) + enc_fields(s, n));
    } else {
        assert(c[0] == f);
        assert(enc_fields(c, 1) =~= enc_varint((f.number * 8 + wire_v(f.value)) as nat) + enc_value(f.value) + enc_fields(s, 0));
    }
}
pub proof fn lemma_enc_elems_front(f: VV, s: Seq<VV>, n: nat)
    requires n <= s.len(),
    ensures enc_elems(seq![f] + s, n + 1) == enc_value(f) + enc_elems(s, n),
    decreases n,
{
    let c = seq![f] + s;
    lemma_enc_elems_step(c, n + 1);
    lemma_enc_elems_step(c, 1);
    lemma_enc_elems_step(s, n);
    if n > 0 {
        lemma_enc_elems_front(f, s, (n - 1) as nat);
        assert(c[n as int] == s[n - 1]);
        assert(enc_elems(c, n + 1) =~= enc_value(f) + enc_elems(s, n));
    } else {
        assert(c[0] == f);
        assert(enc_elems(c, 1) =~= enc_value(f) + enc_elems(s, 0));
    }
}
/// C08: the encoding is the concatenation, in order, of tag and value for each field.
pub proof fn prop_c08_concatenation(s: Seq<FV>)
    ensures
        enc_fields(Seq::<FV>::empty(), 0) == Seq::<u8>::empty(),
        s.len() > 0 ==> enc_fields(s, s.len()) == enc_varint((s[0].number * 8 + wire_v(s[0].value)) as nat) + enc_value(s[0].value) + enc_fields(s.drop_first(), (s.len() - 1) as nat),
{
    lemma_enc_fields_step(Seq::<FV>::empty(), 0);
    if s.len() > 0 {
        lemma_enc_fields_front(s[0], s.drop_first(), (s.len() - 1) as nat);
        assert(s =~= seq![s[0]] + s.drop_first());
    }
}
/// C08: varints are minimal; negative 32-bit numbers take ten bytes as 64-bit two's complement.
pub proof fn prop_c08_varints(v: nat, n: int)
    requires v < TWO64, -TWO63 <= n < 0,
    ensures
        0 < enc_varint(v).len() <= 10,
        enc_varint(v).len() > 1 ==> enc_varint(v).last() > 0,
        varint(enc_varint(v)) == Some((v, enc_varint(v).len())),
        enc_varint(unsigned64(n)).len() == 10,
        s64(unsigned64(n)) == n,
        zz(unzz(n)) == n,
        zz(unzz(v as int)) == v,
{
    lemma_pow128_table();
    assert(pow128(10) == 128 * pow128(9)) by { reveal(pow128); }
    lemma_enc_shape(v, 10);
    lemma_varint_of_enc(v, Seq::empty());
    lemma_enc_len(unsigned64(n), 9);
    lemma_varint_of_enc(unsigned64(n), Seq::empty());
}
pub proof fn lemma_enc_len(v: nat, k: nat)
    requires v >= pow128(k),
    ensures enc_varint(v).len() > k,
    decreases k,
{
    reveal(enc_varint);
    reveal(pow128);
    if k > 0 {
        assert(pow128(k) == 128 * pow128((k - 1) as nat));
        assert(pow128((k - 1) as nat) >= 1) by { lemma_pow128_pos((k - 1) as nat); }
        assert(v / 128 >= pow128((k - 1) as nat));
        lemma_enc_len(v / 128, (k - 1) as nat);
    }
}
pub proof fn lemma_pow128_pos(k: nat)
    ensures pow128(k) >= 1,
    decreases k,
{
    reveal(pow128);
    if k > 0 { lemma_pow128_pos((k - 1) as nat); }
}

// ---- C04: bytes in canonical form come back
/// The varint at the start of `b`, if it ends, is minimal.
pub open spec fn min_varint(b: Seq<u8>) -> bool { varint(b) matches Some((v, n)) ==> b.take(n as int) == enc_varint(v) }
pub open spec fn in_range(vt: ValueType, u: nat) -> bool {
    match vt {
        ValueType::Int32 => u < TWO31 || u >= TWO64 - TWO31,
        ValueType::UInt32 | ValueType::SInt32 => u < TWO32,
        ValueType::Bool => u <= 1,
        _ => true,
    }
}
pub open spec fn canon_scalar(vt: ValueType, b: Seq<u8>) -> bool {
    match vt {
        ValueType::Double | ValueType::Fixed64 | ValueType::SFixed64 | ValueType::Float | ValueType::Fixed32 | ValueType::SFixed32 => true,
        ValueType::String => min_varint(b) && (varint(b) matches Some((l, n)) ==> n + l <= b.len() ==> utf8(lossy(window(b, n, l))) == window(b, n, l)),
        ValueType::Bytes => min_varint(b),
        ValueType::Message(_) => true,
        _ => min_varint(b) && (varint(b) matches Some((u, _)) ==> in_range(vt, u)),
    }
}
pub open spec fn canon_elems(vt: ValueType, b: Seq<u8>) -> bool
    decreases b.len(),
{
    b.len() > 0 ==> canon_scalar(vt, b) && (scalar(vt, b) matches Some((v, n)) ==> canon_elems(vt, rest(b, n)))
}
pub open spec fn canon_unknown(wt: u8, b: Seq<u8>) -> bool { wt == 0 || wt == 2 ==> min_varint(b) }
pub open spec fn canon_packed(vt: ValueType, b: Seq<u8>) -> bool {
    min_varint(b) && (varint(b) matches Some((l, n)) ==> n + l <= b.len() ==> canon_elems(vt, window(b, n, l)))
}
pub open spec fn canon_value(vt: ValueType, b: Seq<u8>, ctx: Context) -> bool
    decreases b.len(), 0nat,
{
    match vt {
        ValueType::Message(r) => min_varint(b) && (varint(b) matches Some((l, n)) ==> b.len() > 0 && n + l <= b.len() ==>
            canon_fields(ctx_msg(ctx, r), window(b, n, l), ctx) && dec_fields(ctx_msg(ctx, r), window(b, n, l), ctx).1 is None),
        _ => canon_scalar(vt, b),
    }
}
pub open spec fn canon_field(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, ctx: Context) -> bool
    decreases b.len(), 1nat,
{
    if m.fields@.dom().contains(number as u64) {
        let f = m.fields@[number as u64];
        if is_packed(f) {
            if wt == 2 { canon_packed(f.field_type, b) } else { canon_unknown(wt, b) }
        } else if wire_of(f.field_type) == wt { canon_value(f.field_type, b, ctx) } else { canon_unknown(wt, b) }
    } else { canon_unknown(wt, b) }
}
pub open spec fn canon_fields(m: MessageInfo, b: Seq<u8>, ctx: Context) -> bool
    decreases b.len(), 2nat,
{
    b.len() > 0 ==> min_varint(b) && (varint(b) matches Some((t, n)) ==> ({
        let b1 = rest(b, n);
        let (v, c) = dec_field(m, t / 8, (t % 8) as u8, b1, ctx);
        canon_field(m, t / 8, (t % 8) as u8, b1, ctx) && canon_fields(m, if c == 0 { Seq::empty() } else { rest(b1, c) }, ctx)
    }))
}
pub open spec fn trail(g: Option<Seq<u8>>) -> Seq<u8> { match g { Some(b) => b, None => Seq::empty() } }

pub proof fn lemma_len_pre_back(b: Seq<u8>, l: nat, n: nat)
    requires varint(b) == Some((l, n)), min_varint(b), n + l <= b.len(),
    ensures b.take((n + l) as int) == len_pre(window(b, n, l)),
{
    lemma_varint_bound(b);
    assert(b.take((n + l) as int) =~= b.take(n as int) + window(b, n, l));
}
pub open spec fn is_fixed(vt: ValueType) -> bool { vt is Double || vt is Float || vt is Fixed32 || vt is Fixed64 || vt is SFixed32 || vt is SFixed64 }
pub open spec fn scalar_back(vt: ValueType, b: Seq<u8>) -> bool { let (v, n) = scalar(vt, b)->0; enc_value(v) == b.take(n as int) && wire_v(v) == wire_of(vt) && enc_ok(v) && 0 < n <= b.len() }
#[verifier::spinoff_prover]
proof fn lemma_scalar_back_fixed(vt: ValueType, b: Seq<u8>)
    requires is_fixed(vt), scalar(vt, b) is Some,
    ensures scalar_back(vt, b),
{
    lemma_pow256();
    if b.len() >= 8 { lemma_le_val(b.take(8)); }
    if b.len() >= 4 { lemma_le_val(b.take(4)); }
}
#[verifier::spinoff_prover]
proof fn lemma_scalar_back_len(vt: ValueType, b: Seq<u8>)
    requires vt is String || vt is Bytes, canon_scalar(vt, b), scalar(vt, b) is Some,
    ensures scalar_back(vt, b),
{
    lemma_varint_bound(b);
    if let Some((l, n)) = varint(b) { if n + l <= b.len() { lemma_len_pre_back(b, l, n); } }
}
proof fn lemma_sign_back(l: nat)
    requires l < TWO64,
    ensures unsigned64(s64(l)) == l, unzz(zz(l)) == l,
{
}
#[verifier::spinoff_prover]
proof fn lemma_scalar_back_varint(vt: ValueType, b: Seq<u8>)
    requires !is_fixed(vt), !(vt is String), !(vt is Bytes), canon_scalar(vt, b), scalar(vt, b) is Some,
    ensures scalar_back(vt, b),
{
    lemma_varint_bound(b);
    lemma_enc_small();
    if let Some((l, n)) = varint(b) {
        lemma_sign_back(l);
        if vt is Int32 { assert(unsigned64(s32(l)) == l); }
    }
}
pub proof fn lemma_scalar_back(vt: ValueType, b: Seq<u8>)
    requires canon_scalar(vt, b), scalar(vt, b) is Some,
    ensures ({ let (v, n) = scalar(vt, b)->0; enc_value(v) == b.take(n as int) && wire_v(v) == wire_of(vt) && enc_ok(v) && 0 < n <= b.len() }),
{
    if is_fixed(vt) { lemma_scalar_back_fixed(vt, b); }
    else if vt is String || vt is Bytes { lemma_scalar_back_len(vt, b); }
    else { lemma_scalar_back_varint(vt, b); }
}
pub proof fn lemma_elems_back(vt: ValueType, b: Seq<u8>)
    requires canon_elems(vt, b), elems(vt, b) is Some,
    ensures ({ let s = elems(vt, b)->0; enc_elems(s, s.len()) == b }),
    decreases b.len(),
{
    reveal(elems);
    if b.len() > 0 {
        lemma_scalar_back(vt, b);
        let (v, n) = scalar(vt, b)->0;
        lemma_elems_back(vt, rest(b, n));
        let s = elems(vt, rest(b, n))->0;
        lemma_enc_elems_front(v, s, s.len());
        assert((seq![v] + s).len() == s.len() + 1);
        assert(b =~= b.take(n as int) + rest(b, n));
    } else {
        lemma_enc_elems_step(Seq::empty(), 0);
        assert(b =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_unknown_back(wt: u8, b: Seq<u8>)
    requires canon_unknown(wt, b),
    ensures ({ let (v, c) = dec_unknown(wt, b); enc_value(v) == b.take(c as int) && wire_v(v) == wt && enc_ok(v) && c <= b.len() }),
{
    lemma_varint_bound(b);
    lemma_pow256();
    assert(b.take(b.len() as int) =~= b);
    if b.len() >= 8 { lemma_le_val(b.take(8)); }
    if b.len() >= 4 { lemma_le_val(b.take(4)); }
    if let Some((l, n)) = varint(b) { if n + l <= b.len() && wt == 2 { lemma_len_pre_back(b, l, n); } }
}
pub proof fn lemma_field_back(m: MessageInfo, number: nat, wt: u8, b: Seq<u8>, ctx: Context)
    requires canon_field(m, number, wt, b, ctx), wt < 8,
    ensures ({ let (v, c) = dec_field(m, number, wt, b, ctx); enc_value(v) == b.take(c as int) && wire_v(v) == wt && enc_ok(v) && c <= b.len() }),
    decreases b.len(), 1nat,
{
    lemma_field_bound(m, number, wt, b, ctx);
    lemma_varint_bound(b);
    lemma_enc_msg();
    assert(b.take(b.len() as int) =~= b);
    if m.fields@.dom().contains(number as u64) {
        let f = m.fields@[number as u64];
        let vt = f.field_type;
        if is_packed(f) {
            if wt == 2 {
                if let Some((l, n)) = varint(b) { if n + l <= b.len() {
                    lemma_len_pre_back(b, l, n);
                    if elems(vt, window(b, n, l)) is Some { lemma_elems_back(vt, window(b, n, l)); }
                } }
            } else { lemma_unknown_back(wt, b); }
        } else if wire_of(vt) == wt {
            if let ValueType::Message(r) = vt {
                if let Some((l, n)) = varint(b) { if n + l <= b.len() {
                    let w = window(b, n, l);
                    let mi = ctx_msg(ctx, r);
                    lemma_len_pre_back(b, l, n);
                    lemma_fields_back(mi, w, ctx);
                    lemma_dec_value_msg(vt, wt, b, ctx);
                    lemma_dec_msg(mi, w, ctx);
                    let fs = dec_fields(mi, w, ctx).0;
                    assert(enc_fields(fs, fs.len()) + trail(None) =~= enc_fields(fs, fs.len()));
                } }
            } else if scalar(vt, b) is Some { lemma_scalar_back(vt, b); }
        } else { lemma_unknown_back(wt, b); }
    } else { lemma_unknown_back(wt, b); }
}
/// C04, for the fields of a message.
pub proof fn lemma_fields_back(m: MessageInfo, b: Seq<u8>, ctx: Context)
    requires canon_fields(m, b, ctx),
    ensures ({
        let (fs, g) = dec_fields(m, b, ctx);
        &&& enc_fields(fs, fs.len()) + trail(g) == b
        &&& forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).number < 0x2000_0000_0000_0000 && wire_v(fs[i].value) < 8 && enc_ok(fs[i].value)
    }),
    decreases b.len(), 2nat,
{
    lemma_dec_fields_step(m, b, ctx);
    lemma_varint_bound(b);
    prop_c08_concatenation(Seq::<FV>::empty());
    let (fs, g) = dec_fields(m, b, ctx);
    if b.len() == 0 {
        lemma_dec_fields_nil(m, ctx);
        assert(b =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + trail(None) =~= b);
    } else if varint(b) is None {
        assert(Seq::<u8>::empty() + b =~= b);
    } else {
        let (t, n) = varint(b)->0;
        let b1 = rest(b, n);
        let wt = (t % 8) as u8;
        let (v, c) = dec_field(m, t / 8, wt, b1, ctx);
        lemma_field_bound(m, t / 8, wt, b1, ctx);
        lemma_field_back(m, t / 8, wt, b1, ctx);
        let b2 = b1.skip(c as int);
        if c == 0 { assert(b2 =~= Seq::<u8>::empty()); }
        lemma_fields_back(m, b2, ctx);
        let (fs2, g2) = dec_fields(m, b2, ctx);
        let f = FV { number: t / 8, value: v };
        lemma_enc_fields_front(f, fs2, fs2.len());
        assert(fs =~= seq![f] + fs2);
        assert(t / 8 * 8 + t % 8 == t);
        assert(b =~= b.take(n as int) + b1);
        assert(b1 =~= b1.take(c as int) + b2);
        assert(enc_fields(fs, fs.len()) + trail(g) =~= b.take(n as int) + (b1.take(c as int) + (enc_fields(fs2, fs2.len()) + trail(g2))));
        assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).number < 0x2000_0000_0000_0000 && wire_v(fs[i].value) < 8 && enc_ok(fs[i].value) by { if i > 0 { assert(fs[i] == fs2[i - 1]); } }
    }
}
/// C04: canonical bytes come back, garbage included, and encoding them does not panic.
pub proof fn prop_c04_reencode(m: MessageInfo, b: Seq<u8>, ctx: Context)
    requires canon_fields(m, b, ctx),
    ensures
        enc_ok(VV::Msg(dec_msg(m, b, ctx))),
        enc_fields(dec_msg(m, b, ctx).fields, dec_msg(m, b, ctx).fields.len()) + trail(dec_msg(m, b, ctx).garbage) == b,
{
    lemma_dec_msg(m, b, ctx);
    lemma_fields_back(m, b, ctx);
}

// ---- C09: conforming messages come back
pub open spec fn elem_ok(vt: ValueType, v: VV) -> bool {
    match (vt, v) {
        (ValueType::Double, VV::Double(x)) => x < TWO64,
        (ValueType::Float, VV::Float(x)) => x < TWO32,
        (ValueType::Int32, VV::Int32(x)) => -TWO31 <= x < TWO31,
        (ValueType::Int64, VV::Int64(x)) => -TWO63 <= x < TWO63,
        (ValueType::UInt32, VV::UInt32(x)) => x < TWO32,
        (ValueType::UInt64, VV::UInt64(x)) => x < TWO64,
        (ValueType::SInt32, VV::SInt32(x)) => -TWO31 <= x < TWO31,
        (ValueType::SInt64, VV::SInt64(x)) => -TWO63 <= x < TWO63,
        (ValueType::Fixed32, VV::Fixed32(x)) => x < TWO32,
        (ValueType::Fixed64, VV::Fixed64(x)) => x < TWO64,
        (ValueType::SFixed32, VV::SFixed32(x)) => -TWO31 <= x < TWO31,
        (ValueType::SFixed64, VV::SFixed64(x)) => -TWO63 <= x < TWO63,
        (ValueType::Bool, VV::Bool(_)) => true,
        (ValueType::String, VV::Str(s)) => true,
        (ValueType::Bytes, VV::Bytes(b)) => true,
        (ValueType::Enum(e), VV::Enum(r, x)) => e == r && -TWO63 <= x < TWO63,
        _ => false,
    }
}
pub open spec fn conf_field(m: MessageInfo, f: FV, ctx: Context) -> bool
    decreases f, 0nat,
{
    f.number < 0x2000_0000_0000_0000 && match f.value {
        VV::Unk(u) => unk_ok(u) && mistyped(m, f.number, wire_v(f.value)),
        VV::Packed(vt, s) => m.fields@.dom().contains(f.number as u64) && is_packed(m.fields@[f.number as u64])
            && m.fields@[f.number as u64].field_type == vt && packable(vt) && forall|i: int| 0 <= i < s.len() ==> elem_ok(vt, #[trigger] s[i]),
        VV::Msg(v) => m.fields@.dom().contains(f.number as u64) && !is_packed(m.fields@[f.number as u64])
            && (m.fields@[f.number as u64].field_type matches ValueType::Message(r) && conf_msg(ctx_msg(ctx, r), v, ctx)),
        v => m.fields@.dom().contains(f.number as u64) && !is_packed(m.fields@[f.number as u64])
            && elem_ok(m.fields@[f.number as u64].field_type, v),
    }
}
/// A message value that fits its type.
pub open spec fn conf_msg(m: MessageInfo, v: MV, ctx: Context) -> bool
    decreases v, 1nat,
{
    v.msg_ref == m.self_ref && v.garbage is None && forall|i: int| 0 <= i < v.fields.len() ==> conf_field(m, #[trigger] v.fields[i], ctx)
}
pub proof fn lemma_scalar_forth(vt: ValueType, v: VV, t: Seq<u8>)
    requires elem_ok(vt, v), enc_value(v).len() < TWO64,
    ensures scalar(vt, enc_value(v) + t) == Some((v, enc_value(v).len())), enc_value(v).len() > 0, wire_v(v) == wire_of(vt), complete(v),
{
    let e = enc_value(v);
    lemma_pow256();
    lemma_enc_small();
    match v {
        VV::Double(x) | VV::Fixed64(x) => { lemma_le_bytes(x, 8); assert((e + t).take(8) =~= e); }
        VV::Float(x) | VV::Fixed32(x) => { lemma_le_bytes(x, 4); assert((e + t).take(4) =~= e); }
        VV::SFixed64(x) => { lemma_le_bytes(unsigned64(x), 8); assert((e + t).take(8) =~= e); }
        VV::SFixed32(x) => { lemma_le_bytes(unsigned32(x), 4); assert((e + t).take(4) =~= e); }
        VV::Int32(x) | VV::Int64(x) | VV::Enum(_, x) => { lemma_varint_of_enc(unsigned64(x), t); }
        VV::UInt32(x) | VV::UInt64(x) => { lemma_varint_of_enc(x, t); }
        VV::SInt32(x) | VV::SInt64(x) => { lemma_varint_of_enc(unzz(x), t); }
        VV::Bool(x) => { lemma_varint_of_enc(if x { 1 } else { 0 }, t); }
        VV::Str(s) => { let p = utf8(s); axiom_lossy(s); lemma_varint_of_enc(p.len(), p + t); assert(e + t =~= enc_varint(p.len()) + (p + t)); assert(window(e + t, enc_varint(p.len()).len(), p.len()) =~= p); }
        VV::Bytes(p) => { lemma_varint_of_enc(p.len(), p + t); assert(e + t =~= enc_varint(p.len()) + (p + t)); assert(window(e + t, enc_varint(p.len()).len(), p.len()) =~= p); }
        _ => {}
    }
}
pub proof fn lemma_elems_forth(vt: ValueType, s: Seq<VV>)
    requires packable(vt), forall|i: int| 0 <= i < s.len() ==> elem_ok(vt, #[trigger] s[i]), enc_elems(s, s.len()).len() < TWO64,
    ensures elems(vt, enc_elems(s, s.len())) == Some(s),
    decreases s.len(),
{
    reveal(elems);
    lemma_enc_elems_step(s, 0);
    if s.len() > 0 {
        let q = s.drop_first();
        assert(s =~= seq![s[0]] + q);
        lemma_enc_elems_front(s[0], q, q.len());
        assert forall|i: int| 0 <= i < q.len() implies elem_ok(vt, #[trigger] q[i]) by { assert(q[i] == s[i + 1]); }
        lemma_elems_forth(vt, q);
        let e = enc_value(s[0]);
        let t = enc_elems(q, q.len());
        lemma_scalar_forth(vt, s[0], t);
        assert(rest(e + t, e.len()) =~= t);
    } else {
        assert(s =~= Seq::<VV>::empty());
    }
}
pub proof fn lemma_field_forth(m: MessageInfo, f: FV, ctx: Context)
    requires conf_field(m, f, ctx), enc_value(f.value).len() < TWO64,
    ensures
        dec_field(m, f.number, wire_v(f.value), enc_value(f.value), ctx) == (f.value, enc_value(f.value).len()),
        complete(f.value),
        wire_v(f.value) < 8,
    decreases f, 0nat,
{
    lemma_enc_msg();
    let e = enc_value(f.value);
    match f.value {
        VV::Unk(u) => { lemma_dec_unknown(u); }
        VV::Packed(vt, s) => {
            let p = enc_elems(s, s.len());
            lemma_elems_forth(vt, s);
            lemma_varint_of_enc(p.len(), p);
            assert(window(e, enc_varint(p.len()).len(), p.len()) =~= p);
        }
        VV::Msg(v) => {
            let r = m.fields@[f.number as u64].field_type->Message_0;
            let p = enc_fields(v.fields, v.fields.len());
            prop_c09_roundtrip(ctx_msg(ctx, r), v, ctx);
            lemma_varint_of_enc(p.len(), p);
            assert(window(e, enc_varint(p.len()).len(), p.len()) =~= p);
            lemma_dec_value_msg(ValueType::Message(r), 2, e, ctx);
        }
        v => {
            lemma_scalar_forth(m.fields@[f.number as u64].field_type, v, Seq::empty());
            assert(e + Seq::<u8>::empty() =~= e);
        }
    }
}
pub proof fn lemma_fields_forth(m: MessageInfo, s: Seq<FV>, n: nat, ctx: Context)
    requires
        n <= s.len(),
        forall|i: int| 0 <= i < s.len() ==> conf_field(m, #[trigger] s[i], ctx),
        enc_fields(s, n).len() < TWO64,
    ensures
        dec_fields(m, enc_fields(s, n), ctx) == (s.take(n as int), None::<Seq<u8>>),
        forall|i: int| 0 <= i < n ==> complete((#[trigger] s[i]).value),
    decreases s, n,
{
    lemma_enc_fields_step(s, n);
    if n == 0 {
        lemma_dec_fields_nil(m, ctx);
        assert(s.take(0) =~= Seq::<FV>::empty());
    } else {
        let a = enc_fields(s, (n - 1) as nat);
        let f = s[n - 1];
        let e = enc_value(f.value);
        let g = (f.number * 8 + wire_v(f.value)) as nat;
        assert(enc_fields(s, n) =~= a + (enc_varint(g) + e));
        lemma_fields_forth(m, s, (n - 1) as nat, ctx);
        lemma_field_forth(m, f, ctx);
        lemma_field_at(m, f.number, wire_v(f.value), e, Seq::empty(), ctx);
        lemma_dec_fields_nil(m, ctx);
        assert(enc_varint(g) + e + Seq::<u8>::empty() =~= enc_varint(g) + e);
        assert(seq![f] + Seq::<FV>::empty() =~= seq![f]);
        let done = s.take(n - 1);
        assert forall|i: int| 0 <= i < done.len() implies complete((#[trigger] done[i]).value) by { assert(done[i] == s[i]); }
        prop_c19_concatenation(m, a, enc_varint(g) + e, ctx);
        assert(done + seq![f] =~= s.take(n as int));
    }
}
/// C09: decoding the encoding of a message that fits its type gives it back.
pub proof fn prop_c09_roundtrip(m: MessageInfo, v: MV, ctx: Context)
    requires conf_msg(m, v, ctx), enc_fields(v.fields, v.fields.len()).len() < TWO64,
    ensures dec_msg(m, enc_fields(v.fields, v.fields.len()), ctx) == v,
    decreases v, 1nat,
{
    lemma_dec_msg(m, enc_fields(v.fields, v.fields.len()), ctx);
    lemma_fields_forth(m, v.fields, v.fields.len(), ctx);
    assert(v.fields.take(v.fields.len() as int) =~= v.fields);
}
