// ---- pest: a tree that the grammar allows, and walking over it
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pair<R> { x: core::marker::PhantomData<R> }
impl<R> View for Pair<R> { type V = Tree; uninterp spec fn view(&self) -> Tree; }
impl<R> Pair<R> {
    #[verifier::external_body] pub fn as_str<'i>(&self) -> (r: &'i str) ensures r@ == self@.text { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: Pairs<R>) ensures r.pos == 0, r.s@ == self@.kids { unimplemented!() }
}
impl Pair<Rule> {
    #[verifier::external_body] pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule { unimplemented!() }
}
impl<R> VxClone for Pair<R> { open spec fn ceq(&self, o: &Pair<R>) -> bool { *self == *o } #[verifier::external_body] fn vx_clone(&self) -> (r: Pair<R>) { unimplemented!() } }
#[verifier::reject_recursive_types(R)]
pub struct Pairs<R> { pub s: Ghost<Seq<Tree>>, pub pos: usize, pub x: core::marker::PhantomData<R> }
/// A tree that was handed out.
pub open spec fn seen(t: Tree) -> bool { true }
impl<R> Pairs<R> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<Pair<R>>)
        requires old(self).wf(),
        ensures
            final(self).s == old(self).s,
            final(self).wf(),
            old(self).pos < old(self).s@.len() ==> r is Some && (r->0)@ == old(self).s@[old(self).pos as int] && seen((r->0)@) && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).s@.len() ==> r is None && final(self).pos == old(self).pos,
    { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: Pairs<R>) ensures r == self { self }
}
pub struct VxPestErr { x: () }
/// The tree pest makes of a text with this grammar, if it does.
pub uninterp spec fn parsed(text: Seq<char>) -> Option<Tree>;
impl ProtoParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, input: &str) -> (r: Result<Pairs<Rule>, VxPestErr>)
        requires rule == Rule::proto,
        ensures
            match r {
                Ok(p) => p.pos == 0 && p.s@.len() == 1 && parsed(input@) == Some(p.s@[0]) && p.s@[0].rule == Rule::proto && ok(p.s@[0]),
                Err(_) => parsed(input@) is None,
            },
    { unimplemented!() }
}
/// Errors of any kind, boxed.
#[verifier::external_body]
pub fn vx_err<E>(e: E) -> (r: VxErr) { unimplemented!() }

// ---- numbers and texts of the source
pub open spec fn dig(c: char) -> int { if 48 <= c as u32 <= 57 { c as u32 - 48 } else if 97 <= c as u32 <= 102 { c as u32 - 87 } else if 65 <= c as u32 <= 70 { c as u32 - 55 } else { 99 } }
pub open spec fn digits(s: Seq<char>, radix: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) < radix }
pub open spec fn num(s: Seq<char>, radix: int) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { num(s.drop_last(), radix) * radix + dig(s.last()) }
}
pub struct VxNumErr { x: () }
pub open spec fn num_ok<T: VxInt>(s: Seq<char>, radix: int, r: Result<T, VxNumErr>) -> bool {
    digits(s, radix) ==> match r { Ok(v) => v.int() == num(s, radix), Err(_) => !T::has(num(s, radix)) }
}
#[verifier::external_body]
pub fn vx_u64_from_str_radix(s: &str, radix: u32) -> (r: Result<u64, VxNumErr>)
    requires 2 <= radix <= 36,
    ensures num_ok(s@, radix as int, r),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_i64_from_str_radix(s: &str, radix: u32) -> (r: Result<i64, VxNumErr>)
    requires 2 <= radix <= 36,
    ensures num_ok(s@, radix as int, r),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, VxNumErr>)
    requires 2 <= radix <= 36,
    ensures num_ok(s@, radix as int, r),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u8_from_str_radix(s: &str, radix: u32) -> (r: Result<u8, VxNumErr>)
    requires 2 <= radix <= 36,
    ensures num_ok(s@, radix as int, r),
{ unimplemented!() }
pub trait VxParse: Sized { spec fn parse_ok(s: Seq<char>, r: Result<Self, VxNumErr>) -> bool; }
impl VxParse for u64 { open spec fn parse_ok(s: Seq<char>, r: Result<u64, VxNumErr>) -> bool { num_ok(s, 10, r) } }
impl VxParse for i64 { open spec fn parse_ok(s: Seq<char>, r: Result<i64, VxNumErr>) -> bool { num_ok(s, 10, r) } }
impl VxParse for f64 { open spec fn parse_ok(s: Seq<char>, r: Result<f64, VxNumErr>) -> bool { std_float(s) ==> r == Ok::<f64, VxNumErr>(float_of(s)) } }
/// The number of a text that Rust's `f64::from_str` accepts.
pub uninterp spec fn float_of(s: Seq<char>) -> f64;
pub trait VxSrc {
    spec fn sr(&self) -> Seq<char>;
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxNumErr>) ensures T::parse_ok(self.sr(), r);
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.sr().len() > 0 && self.sr()[0] == c);
    fn vx_ends_with(&self, c: char) -> (r: bool) ensures r == (self.sr().len() > 0 && self.sr().last() == c);
    /// The rest after so many bytes, which must be characters of one byte each.
    fn vx_str_from(&self, n: usize) -> (r: &str)
        requires n <= self.sr().len(), forall|i: int| 0 <= i < n ==> (#[trigger] self.sr()[i]) as u32 <= 127,
        ensures r@ == self.sr().skip(n as int);
    fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == utf8(self.sr());
}
impl VxSrc for str {
    open spec fn sr(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxNumErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_str_from(&self, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// ---- regular texts
pub enum Re { Empty, Range(int, int), Seq(Box<Re>, Box<Re>), Alt(Box<Re>, Box<Re>), Star(Box<Re>) }
pub open spec fn re_empty() -> Re { Re::Empty }
pub open spec fn re_range(a: int, b: int) -> Re { Re::Range(a, b) }
pub open spec fn re_seq(a: Re, b: Re) -> Re { Re::Seq(Box::new(a), Box::new(b)) }
pub open spec fn re_alt(a: Re, b: Re) -> Re { Re::Alt(Box::new(a), Box::new(b)) }
pub open spec fn re_star(a: Re) -> Re { Re::Star(Box::new(a)) }
pub open spec fn cut(k: int) -> bool { true }
/// The text is one of the expression.
pub open spec fn re_is(r: Re, s: Seq<char>) -> bool
    decreases r, s.len(),
{
    match r {
        Re::Empty => s.len() == 0,
        Re::Range(a, b) => s.len() == 1 && a <= s[0] as u32 <= b,
        Re::Seq(x, y) => exists|k: int| #[trigger] cut(k) && 0 <= k <= s.len() && re_is(*x, s.take(k)) && re_is(*y, s.skip(k)),
        Re::Alt(x, y) => re_is(*x, s) || re_is(*y, s),
        Re::Star(x) => s.len() == 0 || exists|k: int| #[trigger] cut(k) && 0 < k <= s.len() && re_is(*x, s.take(k)) && re_is(r, s.skip(k)),
    }
}
// What `f64::from_str` accepts, as its documentation says, by the states of reading it:
// 0 start, 1 sign, 2 digits, 3 digits and point, 4 point only, 5 digits after a point, 6 e, 7 e and sign, 8 exponent,
// 9..11 inf, 12..16 infinity, 17..19 nan, 20 none
pub open spec fn is_digit(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn is_letter(c: int, l: int) -> bool { c == l || c == l - 32 }
pub open spec fn float_step(q: int, c: int) -> int {
    if q == 0 && (c == 43 || c == 45) { 1 }
    else if q <= 1 && is_digit(c) { 2 }
    else if q <= 1 && c == 46 { 4 }
    else if q <= 1 && is_letter(c, 105) { 9 }
    else if q <= 1 && is_letter(c, 110) { 17 }
    else if q == 2 && is_digit(c) { 2 }
    else if q == 2 && c == 46 { 3 }
    else if (q == 3 || q == 4 || q == 5) && is_digit(c) { 5 }
    else if (q == 2 || q == 3 || q == 5) && is_letter(c, 101) { 6 }
    else if q == 6 && (c == 43 || c == 45) { 7 }
    else if (q == 6 || q == 7 || q == 8) && is_digit(c) { 8 }
    else if q == 9 && is_letter(c, 110) { 10 }
    else if q == 10 && is_letter(c, 102) { 11 }
    else if q == 11 && is_letter(c, 105) { 12 }
    else if q == 12 && is_letter(c, 110) { 13 }
    else if q == 13 && is_letter(c, 105) { 14 }
    else if q == 14 && is_letter(c, 116) { 15 }
    else if q == 15 && is_letter(c, 121) { 16 }
    else if q == 17 && is_letter(c, 97) { 18 }
    else if q == 18 && is_letter(c, 110) { 19 }
    else { 20 }
}
pub open spec fn float_end(q: int) -> bool { q == 2 || q == 3 || q == 5 || q == 8 || q == 11 || q == 16 || q == 19 }
pub open spec fn float_run(q: int, s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { q } else { float_step(float_run(q, s.drop_last()), s.last() as u32 as int) }
}
pub open spec fn std_float(s: Seq<char>) -> bool { float_end(float_run(0, s)) }
/// Sets of states, and the states after a text of an expression.
pub open spec fn q_has(v: Seq<int>, q: int) -> bool
    decreases v.len(),
{
    v.len() > 0 && (v.last() == q || q_has(v.drop_last(), q))
}
pub open spec fn q_add(v: Seq<int>, q: int) -> Seq<int> { if q_has(v, q) { v } else { v.push(q) } }
pub open spec fn q_or(v: Seq<int>, w: Seq<int>) -> Seq<int>
    decreases w.len(),
{
    if w.len() == 0 { v } else { q_add(q_or(v, w.drop_last()), w.last()) }
}
pub open spec fn q_sub(v: Seq<int>, w: Seq<int>) -> bool
    decreases v.len(),
{
    v.len() == 0 || q_has(w, v.last()) && q_sub(v.drop_last(), w)
}
pub open spec fn q_all() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20] }
pub open spec fn q_step(v: Seq<int>, c: int) -> Seq<int>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { q_add(q_step(v.drop_last(), c), float_step(v.last(), c)) }
}
pub open spec fn q_range(v: Seq<int>, a: int, b: int) -> Seq<int>
    decreases b - a + 1,
{
    if a > b { Seq::empty() } else if b - a > 200 { q_all() } else { q_or(q_range(v, a, b - 1), q_step(v, b)) }
}
pub open spec fn q_after(r: Re, v: Seq<int>) -> Seq<int>
    decreases r, 0nat,
{
    match r {
        Re::Empty => v,
        Re::Range(a, b) => q_range(v, a, b),
        Re::Seq(x, y) => q_after(*y, q_after(*x, v)),
        Re::Alt(x, y) => q_or(q_after(*x, v), q_after(*y, v)),
        Re::Star(x) => q_star(*x, v, 25),
    }
}
pub open spec fn q_star(x: Re, v: Seq<int>, n: nat) -> Seq<int>
    decreases x, n + 1,
{
    let w = q_after(x, v);
    if q_sub(w, v) { v } else if n == 0 { q_all() } else { q_star(x, q_or(v, w), (n - 1) as nat) }
}
pub open spec fn q_ends(v: Seq<int>) -> bool
    decreases v.len(),
{
    v.len() == 0 || float_end(v.last()) && q_ends(v.drop_last())
}
proof fn lemma_q_or(v: Seq<int>, w: Seq<int>, q: int)
    requires q_has(v, q) || q_has(w, q),
    ensures q_has(q_or(v, w), q),
    decreases w.len(),
{
    if w.len() > 0 {
        if q_has(v, q) || q_has(w.drop_last(), q) { lemma_q_or(v, w.drop_last(), q); }
        lemma_q_add(q_or(v, w.drop_last()), w.last());
        if q_has(q_or(v, w.drop_last()), q) { let u = q_or(v, w.drop_last()); assert(u.push(w.last()).drop_last() =~= u); }
    }
}
proof fn lemma_q_add(v: Seq<int>, q: int)
    ensures q_has(q_add(v, q), q), forall|x: int| q_has(v, x) ==> q_has(q_add(v, q), x),
{
    assert(v.push(q).drop_last() =~= v);
}
proof fn lemma_q_all(q: int)
    requires 0 <= q <= 20,
    ensures q_has(q_all(), q),
{
    reveal_with_fuel(q_has, 22);
}
proof fn lemma_q_sub(v: Seq<int>, w: Seq<int>, q: int)
    requires q_sub(v, w), q_has(v, q),
    ensures q_has(w, q),
    decreases v.len(),
{
    if v.last() != q { lemma_q_sub(v.drop_last(), w, q); }
}
proof fn lemma_q_step(v: Seq<int>, c: int, q: int)
    requires q_has(v, q),
    ensures q_has(q_step(v, c), float_step(q, c)),
    decreases v.len(),
{
    lemma_q_add(q_step(v.drop_last(), c), float_step(v.last(), c));
    if v.last() != q { lemma_q_step(v.drop_last(), c, q); }
}
proof fn lemma_q_range(v: Seq<int>, a: int, b: int, c: int, q: int)
    requires q_has(v, q), a <= c <= b,
    ensures q_has(q_range(v, a, b), float_step(q, c)),
    decreases b - a,
{
    if b - a > 200 { lemma_q_all(float_step(q, c)); }
    else if c == b { lemma_q_step(v, b, q); lemma_q_or(q_range(v, a, b - 1), q_step(v, b), float_step(q, c)); }
    else { lemma_q_range(v, a, b - 1, c, q); lemma_q_or(q_range(v, a, b - 1), q_step(v, b), float_step(q, c)); }
}
proof fn lemma_run_bound(q: int, s: Seq<char>)
    requires 0 <= q <= 20,
    ensures 0 <= float_run(q, s) <= 20,
    decreases s.len(),
{
    if s.len() > 0 { lemma_run_bound(q, s.drop_last()); }
}
proof fn lemma_run_split(q: int, s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures float_run(q, s) == float_run(float_run(q, s.take(k)), s.skip(k)),
    decreases s.len(),
{
    if k == s.len() { assert(s.take(k) =~= s); }
    else {
        lemma_run_split(q, s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
        assert(s.drop_last().skip(k) =~= s.skip(k).drop_last());
    }
}
proof fn lemma_after(r: Re, s: Seq<char>, v: Seq<int>, q: int)
    requires re_is(r, s), q_has(v, q), 0 <= q <= 20,
    ensures q_has(q_after(r, v), float_run(q, s)),
    decreases r, 0nat, 0nat,
{
    lemma_run_bound(q, s);
    match r {
        Re::Empty => {}
        Re::Range(a, b) => {
            assert(s.drop_last().len() == 0);
            assert(float_run(q, s) == float_step(q, s[0] as u32 as int)) by { reveal_with_fuel(float_run, 2); }
            lemma_q_range(v, a, b, s[0] as u32 as int, q);
        }
        Re::Seq(x, y) => {
            let k = choose|k: int| #[trigger] cut(k) && 0 <= k <= s.len() && re_is(*x, s.take(k)) && re_is(*y, s.skip(k));
            lemma_run_bound(q, s.take(k));
            lemma_after(*x, s.take(k), v, q);
            lemma_after(*y, s.skip(k), q_after(*x, v), float_run(q, s.take(k)));
            lemma_run_split(q, s, k);
        }
        Re::Alt(x, y) => {
            if re_is(*x, s) { lemma_after(*x, s, v, q); } else { lemma_after(*y, s, v, q); }
            lemma_q_or(q_after(*x, v), q_after(*y, v), float_run(q, s));
        }
        Re::Star(x) => { lemma_star(*x, s, v, q, 25); }
    }
}
/// `v` grows to what is closed under another round.
proof fn lemma_star(x: Re, s: Seq<char>, v: Seq<int>, q: int, n: nat)
    requires re_is(Re::Star(Box::new(x)), s), q_has(v, q), 0 <= q <= 20,
    ensures q_has(q_star(x, v, n), float_run(q, s)),
    decreases x, 1nat, n,
{
    lemma_run_bound(q, s);
    let w = q_after(x, v);
    if q_sub(w, v) { lemma_round(x, s, v, q); }
    else if n == 0 { lemma_q_all(float_run(q, s)); }
    else { lemma_q_or(v, w, q); lemma_star(x, s, q_or(v, w), q, (n - 1) as nat); }
}
proof fn lemma_round(x: Re, s: Seq<char>, v: Seq<int>, q: int)
    requires re_is(Re::Star(Box::new(x)), s), q_has(v, q), 0 <= q <= 20, q_sub(q_after(x, v), v),
    ensures q_has(v, float_run(q, s)),
    decreases x, 0nat, s.len() + 1,
{
    if s.len() > 0 {
        let k = choose|k: int| #[trigger] cut(k) && 0 < k <= s.len() && re_is(x, s.take(k)) && re_is(Re::Star(Box::new(x)), s.skip(k));
        lemma_run_bound(q, s.take(k));
        lemma_after(x, s.take(k), v, q);
        lemma_q_sub(q_after(x, v), v, float_run(q, s.take(k)));
        lemma_round(x, s.skip(k), v, float_run(q, s.take(k)));
        lemma_run_split(q, s, k);
    }
}
/// Every number with a point or an exponent of the grammar is one that `f64::from_str` accepts.
broadcast proof fn lemma_float(s: Seq<char>)
    requires #[trigger] text_floatLit(s),
    ensures std_float(s),
{
    assert(q_ends(q_after(re_floatLit(), seq![0int]))) by (compute);
    assert(q_has(seq![0int], 0));
    lemma_after(re_floatLit(), s, seq![0int], 0);
    lemma_ends(q_after(re_floatLit(), seq![0int]), float_run(0, s));
}
proof fn lemma_ends(v: Seq<int>, q: int)
    requires q_ends(v), q_has(v, q),
    ensures float_end(q),
    decreases v.len(),
{
    if v.last() != q { lemma_ends(v.drop_last(), q); }
}

// ---- the definitions a tree stands for
pub open spec fn lit_val(t: Tree) -> int { match t.rule { Rule::decimalLit => num(t.text, 10), Rule::octalLit => num(t.text, 8), _ => num(t.text.skip(2), 16) } }
pub open spec fn int_val(t: Tree) -> int { if t.kids[0].rule == Rule::sign { if t.kids[0].text == "-"@ { -lit_val(t.kids[1]) } else { lit_val(t.kids[1]) } } else { lit_val(t.kids[0]) } }
pub open spec fn kid_texts(t: Tree) -> Seq<Seq<char>> { Seq::new(t.kids.len(), |i: int| t.kids[i].text) }
/// A name with dots, the first part of which may be a name in parentheses.
pub open spec fn ident_text(t: Tree) -> Seq<char>
    decreases t,
{
    if t.kids.len() == 0 { Seq::empty() } else {
        let head = if t.kids[0].rule == Rule::ident { t.kids[0].text } else { "("@ + ident_text(t.kids[0]) + ")"@ };
        joined_by(kid_texts(t).update(0, head), "."@)
    }
}
/// A type as written, without what may be between its parts.
pub open spec fn type_text(t: Tree) -> Seq<char>
    decreases t,
{
    match t.rule {
        Rule::type_ => if t.kids.len() > 0 { type_text(t.kids[0]) } else { Seq::empty() },
        Rule::builtinType => t.text,
        _ => if t.text.len() > 0 && t.text[0] == '.' { "."@ + joined_by(kid_texts(t), "."@) } else { joined_by(kid_texts(t), "."@) },
    }
}
pub open spec fn builtin(s: Seq<char>) -> Option<ValueType> {
    if s == "double"@ { Some(ValueType::Double) } else if s == "float"@ { Some(ValueType::Float) }
    else if s == "int32"@ { Some(ValueType::Int32) } else if s == "int64"@ { Some(ValueType::Int64) }
    else if s == "uint32"@ { Some(ValueType::UInt32) } else if s == "uint64"@ { Some(ValueType::UInt64) }
    else if s == "sint32"@ { Some(ValueType::SInt32) } else if s == "sint64"@ { Some(ValueType::SInt64) }
    else if s == "fixed32"@ { Some(ValueType::Fixed32) } else if s == "fixed64"@ { Some(ValueType::Fixed64) }
    else if s == "sfixed32"@ { Some(ValueType::SFixed32) } else if s == "sfixed64"@ { Some(ValueType::SFixed64) }
    else if s == "bool"@ { Some(ValueType::Bool) } else if s == "string"@ { Some(ValueType::String) } else if s == "bytes"@ { Some(ValueType::Bytes) }
    else { None }
}
pub open spec fn is_type(s: Seq<char>, f: FieldTypeBuilder) -> bool { match builtin(s) { Some(v) => f == FieldTypeBuilder::Builtin(v), None => f matches FieldTypeBuilder::Unknown(n) && n@ == s } }
pub open spec fn escaped(s: Seq<char>) -> u8 {
    if s == "a"@ { 7 } else if s == "b"@ { 8 } else if s == "f"@ { 12 } else if s == "n"@ { 10 } else if s == "r"@ { 13 } else if s == "t"@ { 9 } else if s == "v"@ { 11 }
    else if s == "\\"@ { 92 } else if s == "'"@ { 39 } else { 34 }
}
pub open spec fn char_bytes(t: Tree) -> Seq<u8> {
    match t.rule {
        Rule::hexEscape => seq![num(t.kids[0].text, 16) as u8],
        Rule::octEscape => seq![num(t.kids[0].text, 8) as u8],
        Rule::charEscape => seq![escaped(t.kids[0].text)],
        _ => utf8(t.text),
    }
}
/// The bytes of the first `n` characters of a string literal.
pub open spec fn str_bytes(ks: Seq<Tree>, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { str_bytes(ks, (n - 1) as nat) + char_bytes(ks[n - 1].kids[0]) }
}
/// The escapes among the first `n` characters are bytes.
pub open spec fn str_fits(ks: Seq<Tree>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> ((#[trigger] ks[i]).kids[0].rule == Rule::octEscape ==> num(ks[i].kids[0].kids[0].text, 8) <= 255) }
/// There is no map field among the first `n` trees.
pub open spec fn no_maps(ks: Seq<Tree>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] ks[i]).rule != Rule::mapField }
pub open spec fn is_constant(t: Tree, c: Constant) -> bool {
    let k = t.kids[0];
    match k.rule {
        Rule::fullIdent => c matches Constant::Ident(s) && s@ == ident_text(k),
        Rule::intLit => c matches Constant::Integer(v) && v == int_val(k),
        Rule::floatLit => c matches Constant::Float(v) && v == float_of(k.text),
        Rule::strLit => c matches Constant::String(b) && b@ == str_bytes(k.kids, k.kids.len()) && str_fits(k.kids, k.kids.len()),
        _ => c matches Constant::Bool(b) && b == (k.text == "true"@),
    }
}
pub open spec fn is_option(t: Tree, o: ProtoOption) -> bool { o.name@ == ident_text(t.kids[0]) && is_constant(t.kids[1], o.value) }
pub open spec fn opt_rule(r: Rule) -> bool { r == Rule::option || r == Rule::fieldOption || r == Rule::enumValueOption }
/// The options among the first `n` trees, in order.
pub open spec fn is_options(ks: Seq<Tree>, n: nat, v: Seq<ProtoOption>) -> bool
    decreases n,
{
    if n == 0 { v.len() == 0 } else if opt_rule(ks[n - 1].rule) { v.len() > 0 && is_option(ks[n - 1], v.last()) && is_options(ks, (n - 1) as nat, v.drop_last()) } else { is_options(ks, (n - 1) as nat, v) }
}
pub open spec fn is_label(t: Tree, m: Multiplicity) -> bool {
    if t.kids.len() == 0 { m == Multiplicity::Single } else if t.kids[0].kids[0].rule == Rule::optional { m == Multiplicity::Optional } else { m == Multiplicity::Repeated }
}
/// A field; `at` is where its type is, which only the label precedes.
pub open spec fn is_field_at(t: Tree, at: int, f: FieldBuilder) -> bool {
    let k = t.kids;
    &&& is_type(type_text(k[at]), f.field_type)
    &&& f.name@ == k[at + 1].text
    &&& f.number == lit_val(k[at + 2].kids[0])
    &&& if k.len() > at + 3 { is_options(k[at + 3].kids, k[at + 3].kids.len(), f.options@) } else { f.options@.len() == 0 }
}
pub open spec fn is_field(t: Tree, f: FieldBuilder) -> bool { is_label(t.kids[0], f.multiplicity) && is_field_at(t, 1, f) }
pub open spec fn is_oneof_field(t: Tree, f: FieldBuilder) -> bool { f.multiplicity == Multiplicity::Single && is_field_at(t, 0, f) }
pub open spec fn is_fields(ks: Seq<Tree>, n: nat, v: Seq<FieldBuilder>) -> bool
    decreases n,
{
    if n == 0 { v.len() == 0 } else if ks[n - 1].rule == Rule::field { v.len() > 0 && is_field(ks[n - 1], v.last()) && is_fields(ks, (n - 1) as nat, v.drop_last()) } else { is_fields(ks, (n - 1) as nat, v) }
}
pub open spec fn is_oneof_fields(ks: Seq<Tree>, n: nat, v: Seq<FieldBuilder>) -> bool
    decreases n,
{
    if n == 0 { v.len() == 0 } else if ks[n - 1].rule == Rule::oneofField { v.len() > 0 && is_oneof_field(ks[n - 1], v.last()) && is_oneof_fields(ks, (n - 1) as nat, v.drop_last()) } else { is_oneof_fields(ks, (n - 1) as nat, v) }
}
pub open spec fn is_oneof(t: Tree, o: OneofBuilder) -> bool {
    o.name@ == t.kids[0].text && is_oneof_fields(t.kids, t.kids.len(), o.fields@) && is_options(t.kids, t.kids.len(), o.options@)
}
pub open spec fn is_oneofs(ks: Seq<Tree>, n: nat, v: Seq<OneofBuilder>) -> bool
    decreases n,
{
    if n == 0 { v.len() == 0 } else if ks[n - 1].rule == Rule::oneof { v.len() > 0 && is_oneof(ks[n - 1], v.last()) && is_oneofs(ks, (n - 1) as nat, v.drop_last()) } else { is_oneofs(ks, (n - 1) as nat, v) }
}
pub open spec fn is_enum_field(t: Tree, f: EnumField) -> bool { f.name@ == t.kids[0].text && f.value == int_val(t.kids[1]) && is_options(t.kids, t.kids.len(), f.options@) }
pub open spec fn is_enum_fields(ks: Seq<Tree>, n: nat, v: Seq<EnumField>) -> bool
    decreases n,
{
    if n == 0 { v.len() == 0 } else if ks[n - 1].rule == Rule::enumField { v.len() > 0 && is_enum_field(ks[n - 1], v.last()) && is_enum_fields(ks, (n - 1) as nat, v.drop_last()) } else { is_enum_fields(ks, (n - 1) as nat, v) }
}
pub open spec fn is_enum(t: Tree, e: EnumBuilder) -> bool {
    let b = t.kids[1].kids;
    e.name@ == t.kids[0].text && is_enum_fields(b, b.len(), e.fields@) && is_options(b, b.len(), e.options@)
}
pub open spec fn is_message(t: Tree, m: MessageBuilder) -> bool
    decreases t, 0nat,
{
    t.kids.len() == 2 && {
        let b = t.kids[1].kids;
        &&& m.name@ == t.kids[0].text
        &&& is_fields(b, b.len(), m.fields@)
        &&& is_oneofs(b, b.len(), m.oneofs@)
        &&& is_options(b, b.len(), m.options@)
        &&& no_maps(b, b.len())
        &&& is_inner(t.kids[1], b.len(), m.inner_types@)
    }
}
/// The enums and messages among the first `n` children, in order.
pub open spec fn is_inner(b: Tree, n: nat, v: Seq<InnerTypeBuilder>) -> bool
    decreases b, n,
{
    if n == 0 || n > b.kids.len() { n == 0 && v.len() == 0 }
    else if b.kids[n - 1].rule == Rule::enum_ { v.len() > 0 && (v.last() matches InnerTypeBuilder::Enum(e) && is_enum(b.kids[n - 1], e)) && is_inner(b, (n - 1) as nat, v.drop_last()) }
    else if b.kids[n - 1].rule == Rule::message { v.len() > 0 && (v.last() matches InnerTypeBuilder::Message(m) && is_message(b.kids[n - 1], m)) && is_inner(b, (n - 1) as nat, v.drop_last()) }
    else { is_inner(b, (n - 1) as nat, v) }
}
pub open spec fn is_arg(t: Tree, a: RpcArgBuilder) -> bool { a.stream == (t.kids[0].kids.len() > 0) && a.message@ == type_text(t.kids[1]) }
pub open spec fn is_rpc(t: Tree, r: RpcBuilder) -> bool { r.name@ == t.kids[0].text && is_arg(t.kids[1], r.input) && is_arg(t.kids[2], r.output) && is_options(t.kids, t.kids.len(), r.options@) }
pub open spec fn is_rpcs(ks: Seq<Tree>, n: nat, v: Seq<RpcBuilder>) -> bool
    decreases n,
{
    if n == 0 { v.len() == 0 } else if ks[n - 1].rule == Rule::rpc { v.len() > 0 && is_rpc(ks[n - 1], v.last()) && is_rpcs(ks, (n - 1) as nat, v.drop_last()) } else { is_rpcs(ks, (n - 1) as nat, v) }
}
pub open spec fn is_service(t: Tree, s: ServiceBuilder) -> bool { s.name@ == t.kids[0].text && is_rpcs(t.kids, t.kids.len(), s.rpcs@) && is_options(t.kids, t.kids.len(), s.options@) }
pub open spec fn is_item(t: Tree, i: ProtobufItemBuilder) -> bool {
    let k = t.kids[0];
    match k.rule {
        Rule::message => i matches ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(m)) && is_message(k, m),
        Rule::enum_ => i matches ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(e)) && is_enum(k, e),
        _ => i matches ProtobufItemBuilder::Service(s) && is_service(k, s),
    }
}
pub open spec fn is_items(ks: Seq<Tree>, n: nat, v: Seq<ProtobufItemBuilder>) -> bool
    decreases n,
{
    if n == 0 { v.len() == 0 } else if ks[n - 1].rule == Rule::topLevelDef { v.len() > 0 && is_item(ks[n - 1], v.last()) && is_items(ks, (n - 1) as nat, v.drop_last()) } else { is_items(ks, (n - 1) as nat, v) }
}
/// The name of the last package statement.
pub open spec fn is_pkg_name(ks: Seq<Tree>, n: nat, v: Option<String>) -> bool
    decreases n,
{
    if n == 0 { v is None } else if ks[n - 1].rule == Rule::package { v matches Some(s) && s@ == ident_text(ks[n - 1].kids[0]) } else { is_pkg_name(ks, (n - 1) as nat, v) }
}
pub open spec fn is_package(t: Tree, p: PackageBuilder) -> bool { is_pkg_name(t.kids, t.kids.len(), p.name) && is_items(t.kids, t.kids.len(), p.types@) }

// ---- what is not supported, or cannot be represented
pub open spec fn left_out(r: Rule) -> bool { r == Rule::reserved || r == Rule::import || r == Rule::syntax }
pub open spec fn fits(t: Tree) -> bool
    decreases t,
{
    match t.rule {
        Rule::mapField => false,
        Rule::intLit => -0x8000_0000_0000_0000 <= int_val(t) <= 0x7fff_ffff_ffff_ffff,
        Rule::fieldNumber => lit_val(t.kids[0]) <= 0xffff_ffff_ffff_ffff,
        Rule::octEscape => num(t.kids[0].text, 8) <= 255,
        Rule::proto => forall|i: int| 0 <= i < t.kids.len() && t.kids[i].rule == Rule::topLevelDef ==> fits(#[trigger] t.kids[i]),
        r => left_out(r) || forall|i: int| 0 <= i < t.kids.len() ==> fits(#[trigger] t.kids[i]),
    }
}
pub open spec fn not_fit(t: Tree, e: ParseError) -> bool { e is SyntaxError && !fits(t) }
pub open spec fn all_ok(ks: Seq<Tree>) -> bool { forall|i: int| 0 <= i < ks.len() ==> ok(#[trigger] ks[i]) }
pub open spec fn package_of(text: Seq<char>, r: Result<PackageBuilder, ParseError>) -> bool {
    match r { Ok(p) => parsed(text) matches Some(t) && is_package(t, p) && pkg_scalar(p), Err(e) => e is SyntaxError && (parsed(text) matches Some(t) ==> !fits(t)) }
}
/// What building makes of parsed files: the contract of `ContextBuilder::build` in unit build.
pub uninterp spec fn built_of(ps: Seq<PackageBuilder>, r: Result<Context, ParseError>) -> bool;
pub open spec fn context_of(src: Seq<Seq<char>>, r: Result<Context, ParseError>) -> bool {
    ||| r is Err && r->Err_0 is SyntaxError && exists|i: int| 0 <= i < src.len() && (parsed(#[trigger] src[i]) matches Some(t) ==> !fits(t))
    ||| exists|ps: Seq<PackageBuilder>| #[trigger] built_of(ps, r) && ps.len() == src.len() && forall|i: int| 0 <= i < src.len() ==> (parsed(#[trigger] src[i]) matches Some(t) && is_package(t, ps[i]))
}
pub trait VxAsStr: Sized { spec fn src(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.src(); }
pub trait VxFiles<S>: Sized { spec fn files(self) -> Seq<S>; fn vx_into_iter(self) -> (r: VxIntoIter<S>) ensures r.s@ == self.files(), r.pos == 0; }
pub open spec fn sources<S: VxAsStr>(v: Seq<S>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].src()) }

// ---- lemmas
broadcast proof fn lemma_push_drop<A>(s: Seq<A>, x: A)
    ensures #[trigger] s.push(x).drop_last() == s,
{
    assert(s.push(x).drop_last() =~= s);
}
broadcast proof fn lemma_num_pos(s: Seq<char>, radix: int)
    requires digits(s, radix), radix > 0,
    ensures #[trigger] num(s, radix) >= 0,
    decreases s.len(),
{
    if s.len() > 1 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies dig(#[trigger] s.drop_last()[i]) < radix by { assert(s.drop_last()[i] == s[i]); }
        lemma_num_pos(s.drop_last(), radix);
        assert(num(s.drop_last(), radix) * radix >= 0) by (nonlinear_arith) requires num(s.drop_last(), radix) >= 0, radix > 0;
    } else { assert(s.drop_last().len() == 0); assert(num(s.drop_last(), radix) == 0); }
}
broadcast proof fn lemma_num_two(s: Seq<char>)
    requires digits(s, 16), s.len() <= 2,
    ensures #[trigger] num(s, 16) <= 255,
{
    reveal_with_fuel(num, 3);
    if s.len() == 2 { assert(dig(s[0]) < 16); assert(dig(s[1]) < 16); assert(s.drop_last().drop_last().len() == 0); assert(s.drop_last().last() == s[0]); }
    else { assert(s.drop_last().len() == 0); assert(dig(s[0]) < 16); }
}
proof fn lemma_fields_scalar(ks: Seq<Tree>, n: nat, v: Seq<FieldBuilder>)
    requires is_fields(ks, n, v),
    ensures fields_scalar(v),
    decreases n,
{
    if n > 0 {
        if ks[n - 1].rule == Rule::field {
            lemma_fields_scalar(ks, (n - 1) as nat, v.drop_last());
            assert forall|i: int| 0 <= i < v.len() implies ft_scalar((#[trigger] v[i]).field_type) by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } }
        } else { lemma_fields_scalar(ks, (n - 1) as nat, v); }
    }
}
proof fn lemma_oneof_fields_scalar(ks: Seq<Tree>, n: nat, v: Seq<FieldBuilder>)
    requires is_oneof_fields(ks, n, v),
    ensures fields_scalar(v),
    decreases n,
{
    if n > 0 {
        if ks[n - 1].rule == Rule::oneofField {
            lemma_oneof_fields_scalar(ks, (n - 1) as nat, v.drop_last());
            assert forall|i: int| 0 <= i < v.len() implies ft_scalar((#[trigger] v[i]).field_type) by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } }
        } else { lemma_oneof_fields_scalar(ks, (n - 1) as nat, v); }
    }
}
proof fn lemma_oneofs_scalar(ks: Seq<Tree>, n: nat, v: Seq<OneofBuilder>)
    requires is_oneofs(ks, n, v),
    ensures forall|i: int| 0 <= i < v.len() ==> fields_scalar((#[trigger] v[i]).fields@),
    decreases n,
{
    if n > 0 {
        if ks[n - 1].rule == Rule::oneof {
            lemma_oneofs_scalar(ks, (n - 1) as nat, v.drop_last());
            let o = v.last();
            lemma_oneof_fields_scalar(ks[n - 1].kids, ks[n - 1].kids.len(), o.fields@);
            assert forall|i: int| 0 <= i < v.len() implies fields_scalar((#[trigger] v[i]).fields@) by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } }
        } else { lemma_oneofs_scalar(ks, (n - 1) as nat, v); }
    }
}
proof fn lemma_message_scalar(t: Tree, m: MessageBuilder)
    requires is_message(t, m),
    ensures deep_scalar(InnerTypeBuilder::Message(m)),
    decreases t, 0nat,
{
    let b = t.kids[1];
    lemma_fields_scalar(b.kids, b.kids.len(), m.fields@);
    lemma_oneofs_scalar(b.kids, b.kids.len(), m.oneofs@);
    lemma_inner_scalar(b, b.kids.len(), m.inner_types@);
}
proof fn lemma_inner_scalar(b: Tree, n: nat, v: Seq<InnerTypeBuilder>)
    requires is_inner(b, n, v),
    ensures forall|i: int| 0 <= i < v.len() ==> deep_scalar(#[trigger] v[i]),
    decreases b, n,
{
    if n > 0 {
        let k = b.kids[n - 1];
        if k.rule == Rule::enum_ || k.rule == Rule::message {
            lemma_inner_scalar(b, (n - 1) as nat, v.drop_last());
            if k.rule == Rule::message { lemma_message_scalar(k, v.last()->Message_0); }
            assert forall|i: int| 0 <= i < v.len() implies deep_scalar(#[trigger] v[i]) by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } }
        } else { lemma_inner_scalar(b, (n - 1) as nat, v); }
    }
}
proof fn lemma_items_scalar(ks: Seq<Tree>, n: nat, v: Seq<ProtobufItemBuilder>)
    requires is_items(ks, n, v),
    ensures forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]) matches ProtobufItemBuilder::Type(t) ==> deep_scalar(as_inner(t))),
    decreases n,
{
    if n > 0 {
        if ks[n - 1].rule == Rule::topLevelDef {
            lemma_items_scalar(ks, (n - 1) as nat, v.drop_last());
            if let ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(m)) = v.last() { if ks[n - 1].kids[0].rule == Rule::message { lemma_message_scalar(ks[n - 1].kids[0], m); } }
            assert forall|i: int| 0 <= i < v.len() implies ((#[trigger] v[i]) matches ProtobufItemBuilder::Type(t) ==> deep_scalar(as_inner(t))) by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } }
        } else { lemma_items_scalar(ks, (n - 1) as nat, v); }
    }
}
proof fn lemma_no_options(ks: Seq<Tree>, n: nat)
    requires n <= ks.len(), forall|i: int| 0 <= i < n ==> !opt_rule((#[trigger] ks[i]).rule),
    ensures is_options(ks, n, Seq::empty()),
    decreases n,
{
    if n > 0 { lemma_no_options(ks, (n - 1) as nat); }
}
broadcast proof fn lemma_ok_kid(t: Tree, i: int)
    requires ok(t), 0 <= i < t.kids.len(),
    ensures #[trigger] seen(t.kids[i]) ==> ok(t.kids[i]),
{
}
broadcast proof fn lemma_fits_kid(t: Tree, i: int)
    requires
        0 <= i < t.kids.len(),
        t.rule != Rule::mapField, t.rule != Rule::intLit, t.rule != Rule::fieldNumber, t.rule != Rule::octEscape, !left_out(t.rule),
        t.rule == Rule::proto ==> t.kids[i].rule == Rule::topLevelDef,
    ensures #[trigger] seen(t.kids[i]) ==> fits(t) ==> fits(t.kids[i]),
{
}
broadcast proof fn lemma_sign(a: int, b: int)
    requires a == 1 || a == -1,
    ensures #[trigger] (a * b) == if a == 1 { b } else { -b },
{
    assert(a * b == if a == 1 { b } else { -b }) by (nonlinear_arith) requires a == 1 || a == -1;
}
broadcast group group_parse { lemma_sign, lemma_push_drop, lemma_num_pos, lemma_num_two, lemma_float, lemma_ok_kid, lemma_fits_kid }
