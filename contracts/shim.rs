// Stand-ins for the parts of std and of the dependencies that the verifier has no specification of.
// Everything marked external_body below is assumed; it is what DESIGN.md lists as trusted.
use vstd::float::FloatBitsProperties;
use vstd::float::*;
global size_of usize == 8;

// ---- panics are unreachable
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{ panic!() }

// ---- integers
pub open spec fn wrap64(v: int) -> int { if v < 0 { v + 0x1_0000_0000_0000_0000 } else { v } }

pub trait VxInt: Sized + Copy {
    spec fn int(self) -> int;
    spec fn has(v: int) -> bool;
}
macro_rules! vx_int { ($($t:ty)*) => { verus!{ $( impl VxInt for $t {
    open spec fn int(self) -> int { self as int }
    open spec fn has(v: int) -> bool { <$t>::MIN <= v <= <$t>::MAX }
} )* } } }
vx_int!{ u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl VxInt for bool {
    open spec fn int(self) -> int { if self { 1 } else { 0 } }
    open spec fn has(v: int) -> bool { 0 <= v <= 1 }
}

pub struct VxTfErr;
/// `TryFrom`/`TryInto` between primitive integers.
#[verifier::external_body]
pub fn vx_try_from<S: VxInt, T: VxInt>(s: S) -> (r: Result<T, VxTfErr>)
    ensures
        T::has(s.int()) ==> r is Ok,
        r matches Ok(t) ==> t.int() == s.int() && T::has(s.int()),
{ unimplemented!() }
/// `From` between primitive integers, and from bool (the compiler accepts it for widening only).
#[verifier::external_body]
pub fn vx_from<S: VxInt, T: VxInt>(s: S) -> (t: T)
    ensures t.int() == s.int(),
{ unimplemented!() }
pub trait VxTryInto<T>: Sized {
    spec fn ti_ok(self) -> bool;
    spec fn ti_is(self, t: T) -> bool;
    fn vx_try_into(self) -> (r: Result<T, VxTfErr>)
        ensures
            self.ti_ok() ==> r is Ok,
            r matches Ok(t) ==> self.ti_ok() && self.ti_is(t);
}
impl<S: VxInt, T: VxInt> VxTryInto<T> for S {
    open spec fn ti_ok(self) -> bool { T::has(self.int()) }
    open spec fn ti_is(self, t: T) -> bool { t.int() == self.int() }
    fn vx_try_into(self) -> (r: Result<T, VxTfErr>) { vx_try_from::<S, T>(self) }
}
/// `[T]: TryInto<[T; N]>`
pub trait VxSliceInto<const N: usize> {
    spec fn sl(&self) -> Seq<u8>;
    fn vx_try_into(&self) -> (r: Result<[u8; N], VxTfErr>)
        ensures
            self.sl().len() == N ==> r is Ok,
            r matches Ok(a) ==> a@ == self.sl() && self.sl().len() == N;
}
impl<const N: usize> VxSliceInto<N> for [u8] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_try_into(&self) -> (r: Result<[u8; N], VxTfErr>) { unimplemented!() }
}

/// `transmute` between 64-bit integers of either sign.
#[verifier::external_body]
pub fn vx_transmute<S: VxInt, T: VxInt>(s: S) -> (t: T)
    ensures
        S::has(0x7fff_ffff_ffff_ffff) && !S::has(0x1_0000_0000_0000_0000) && T::has(0x7fff_ffff_ffff_ffff) && !T::has(0x1_0000_0000_0000_0000) ==> wrap64(t.int()) == wrap64(s.int()),
{ unimplemented!() }

// ---- bytes of fixed-size numbers
/// The number whose little-endian bytes these are.
#[verifier::opaque]
pub open spec fn le_val(b: Seq<u8>) -> nat
    decreases b.len(),
{
    if b.len() == 0 { 0 } else { b[0] as nat + 256 * le_val(b.drop_first()) }
}
/// The `n` little-endian bytes of a number.
#[verifier::opaque]
pub open spec fn le_bytes(v: nat, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_bytes(v / 256, (n - 1) as nat) }
}
pub open spec fn unsigned32(v: int) -> nat { if v < 0 { (v + 0x1_0000_0000) as nat } else { v as nat } }
pub open spec fn unsigned64(v: int) -> nat { if v < 0 { (v + 0x1_0000_0000_0000_0000) as nat } else { v as nat } }

pub trait VxLe4 { spec fn le4(self) -> nat; fn vx_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == le_bytes(self.le4(), 4); }
pub trait VxLe8 { spec fn le8(self) -> nat; fn vx_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == le_bytes(self.le8(), 8); }
impl VxLe4 for u32 { open spec fn le4(self) -> nat { self as nat } #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 4] { self.to_le_bytes() } }
impl VxLe4 for i32 { open spec fn le4(self) -> nat { unsigned32(self as int) } #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 4] { self.to_le_bytes() } }
impl VxLe4 for f32 { open spec fn le4(self) -> nat { self.to_bits_spec() as nat } #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 4] { self.to_le_bytes() } }
impl VxLe8 for u64 { open spec fn le8(self) -> nat { self as nat } #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 8] { self.to_le_bytes() } }
impl VxLe8 for i64 { open spec fn le8(self) -> nat { unsigned64(self as int) } #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 8] { self.to_le_bytes() } }
impl VxLe8 for f64 { open spec fn le8(self) -> nat { self.to_bits_spec() as nat } #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 8] { self.to_le_bytes() } }
#[verifier::external_body]
pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == le_val(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures unsigned32(r as int) == le_val(b@) { i32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_f32_from_le_bytes(b: [u8; 4]) -> (r: f32) ensures r.to_bits_spec() as nat == le_val(b@) { f32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r as nat == le_val(b@) { u64::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_i64_from_le_bytes(b: [u8; 8]) -> (r: i64) ensures unsigned64(r as int) == le_val(b@) { i64::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_f64_from_le_bytes(b: [u8; 8]) -> (r: f64) ensures r.to_bits_spec() as nat == le_val(b@) { f64::from_le_bytes(b) }

// ---- byte containers of the bytes crate
pub struct Bytes { pub v: Vec<u8> }
pub struct BytesMut { pub v: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.v@ } }
impl View for BytesMut { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.v@ } }
impl core::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { self.v.as_slice() } }
impl core::ops::Deref for BytesMut { type Target = [u8]; fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { self.v.as_slice() } }
pub fn vx_copy(b: &[u8]) -> (r: Vec<u8>)
    ensures r@ == b@,
{
    let mut v: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    while i < b.len()
        invariant i <= b@.len(), v@ == b@.subrange(0, i as int),
        decreases b@.len() - i,
    {
        v.push(b[i]);
        i += 1;
        assert(b@.subrange(0, i as int) =~= b@.subrange(0, i - 1).push(b@[i - 1]));
    }
    assert(b@.subrange(0, i as int) =~= b@);
    v
}
impl Bytes {
    pub fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { Bytes { v: vx_copy(b) } }
    pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { Bytes { v: Vec::new() } }
}
impl BytesMut {
    pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { BytesMut { v: Vec::new() } }
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { BytesMut { v: Vec::new() } }
    pub fn from(b: &[u8]) -> (r: BytesMut) ensures r@ == b@ { BytesMut { v: vx_copy(b) } }
    pub fn extend_from_slice(&mut self, b: &[u8])
        ensures (*final(self))@ == (*old(self))@ + b@,
    {
        let n = vx_copy(b);
        let mut n = n;
        self.v.append(&mut n);
    }
    pub fn put_u8(&mut self, b: u8) ensures (*final(self))@ == (*old(self))@.push(b) { self.v.push(b) }
    pub fn put(&mut self, b: &[u8]) ensures (*final(self))@ == (*old(self))@ + b@ { self.extend_from_slice(b) }
    pub fn put_slice(&mut self, b: &[u8]) ensures (*final(self))@ == (*old(self))@ + b@ { self.extend_from_slice(b) }
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { Bytes { v: self.v } }
}
pub trait VxAsRef<T: ?Sized> { spec fn ar(&self) -> Seq<u8>; fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.ar(); }
impl<const N: usize> VxAsRef<[u8]> for [u8; N] { open spec fn ar(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl VxAsRef<[u8]> for [u8] { open spec fn ar(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> (r: &[u8]) { self } }
impl VxAsRef<[u8]> for Vec<u8> { open spec fn ar(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl VxAsRef<[u8]> for Bytes { open spec fn ar(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> (r: &[u8]) { self.v.as_slice() } }
impl VxAsRef<[u8]> for BytesMut { open spec fn ar(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> (r: &[u8]) { self.v.as_slice() } }

// ---- text
/// The UTF-8 bytes of a text.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
/// The text of some bytes, invalid sequences replaced.
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
/// `String::from_utf8_lossy(s.as_bytes()) == s`
pub axiom fn axiom_lossy(s: Seq<char>) ensures lossy(utf8(s)) == s;
pub struct VxCow { pub s: String }
impl View for VxCow { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
impl core::ops::Deref for VxCow { type Target = str; fn deref(&self) -> (r: &str) ensures r@ == self@ { self.s.as_str() } }
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &[u8]) -> (r: VxCow) ensures r@ == lossy(b@) { unimplemented!() }
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.sv();
    fn vx_str_len(&self) -> (r: usize) ensures r as nat == utf8(self.sv()).len();
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.sv());
    fn vx_str_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn vx_as_str(&self) -> (r: &str) ensures r@ == self.sv();
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() }
    fn vx_to_owned(&self) -> (r: String) { self.vx_to_string() }
    #[verifier::external_body] fn vx_str_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
    #[verifier::external_body] fn vx_str_is_empty(&self) -> (r: bool) { self.is_empty() }
    fn vx_as_str(&self) -> (r: &str) { self }
}
/// What these do to a text is left open: it need not stay as it is.
pub uninterp spec fn worked(s: Seq<char>, how: nat) -> Seq<char>;
pub trait VxWords {
    spec fn wv(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == worked(self.wv(), 0);
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == worked(self.wv(), 1);
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == worked(self.wv(), 2);
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == worked(self.wv(), 3);
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == worked(self.wv(), 4);
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == worked(self.wv(), 5);
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == worked(self.wv(), 6);
}
impl VxWords for str {
    open spec fn wv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { self.to_lowercase() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { self.to_uppercase() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { self.to_ascii_lowercase() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { self.to_ascii_uppercase() }
}
impl VxWords for String {
    open spec fn wv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { self.to_lowercase() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { self.to_uppercase() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { self.to_ascii_lowercase() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { self.to_ascii_uppercase() }
}

// ---- equality, copies, defaults
pub trait VxEq<R: ?Sized> { spec fn eqv(&self, o: &R) -> bool; fn vx_eq(&self, o: &R) -> (b: bool) ensures b == self.eqv(o); }
impl VxEq<str> for str { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (b: bool) { self == o } }
impl VxEq<String> for String { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> (b: bool) { self == o } }
impl VxEq<String> for str { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> (b: bool) { self == o } }
impl VxEq<str> for String { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (b: bool) { self == o } }
impl<T: VxEq<T>> VxEq<Option<T>> for Option<T> {
    open spec fn eqv(&self, o: &Option<T>) -> bool { match (self, o) { (Some(a), Some(b)) => a.eqv(b), (None, None) => true, _ => false } }
    fn vx_eq(&self, o: &Option<T>) -> (b: bool) { match (self, o) { (Some(a), Some(b)) => a.vx_eq(b), (None, None) => true, _ => false } }
}
pub trait VxClone: Sized { spec fn ceq(&self, o: &Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures self.ceq(&r); }
impl VxClone for String { open spec fn ceq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_clone(&self) -> (r: String) { self.clone() } }
impl VxClone for usize { open spec fn ceq(&self, o: &usize) -> bool { *self == *o } fn vx_clone(&self) -> (r: usize) { *self } }
impl VxClone for Vec<usize> { open spec fn ceq(&self, o: &Vec<usize>) -> bool { self@ == o@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Vec<usize>) { self.clone() } }
pub trait VxDefault: Sized { spec fn is_def(&self) -> bool; fn vx_default() -> (r: Self) ensures r.is_def(); }
impl VxDefault for String { open spec fn is_def(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_default() -> (r: String) { String::new() } }
impl VxDefault for usize { open spec fn is_def(&self) -> bool { *self == 0 } fn vx_default() -> (r: usize) { 0 } }
impl VxDefault for bool { open spec fn is_def(&self) -> bool { *self == false } fn vx_default() -> (r: bool) { false } }
impl<T> VxDefault for Vec<T> { open spec fn is_def(&self) -> bool { self@ == Seq::<T>::empty() } fn vx_default() -> (r: Vec<T>) { Vec::new() } }
impl<T> VxDefault for Option<T> { open spec fn is_def(&self) -> bool { *self is None } fn vx_default() -> (r: Option<T>) { None } }
#[verifier::external_body]
pub fn vx_take<T: VxDefault>(x: &mut T) -> (r: T)
    ensures r == *old(x), (*final(x)).is_def(),
{ unimplemented!() }
pub struct VxErr { pub x: () }
pub struct VxPathBuf { pub x: () }
impl VxDefault for VxPathBuf { open spec fn is_def(&self) -> bool { true } fn vx_default() -> (r: VxPathBuf) { VxPathBuf { x: () } } }

// ---- iteration over slices
pub struct VxIter<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> VxIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    pub fn vx_pos(&self) -> (r: usize) ensures r == self.pos { self.pos }
    pub fn vx_next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures
            final(self).s == old(self).s,
            final(self).wf(),
            old(self).pos < old(self).s@.len() ==> r is Some && *r->0 == old(self).s@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).s@.len() ==> r is None && final(self).pos == old(self).pos,
    {
        if self.pos < self.s.len() { let x = &self.s[self.pos]; self.pos = self.pos + 1; Some(x) } else { None }
    }
}
impl<'a, T> VxIter<'a, T> {
    /// The items in the opposite order, as values: where they lie in memory is not modelled.
    #[verifier::external_body] pub fn vx_rev(self) -> (r: VxIter<'a, T>) requires self.pos == 0, ensures r.s@ == self.s@.reverse(), r.pos == 0, { unimplemented!() }
    #[verifier::external_body] pub fn vx_skip(self, n: usize) -> (r: VxIter<'a, T>) requires self.pos == 0, ensures r.s@ == (if n < self.s@.len() { self.s@.skip(n as int) } else { Seq::empty() }), r.pos == 0, { unimplemented!() }
    #[verifier::external_body] pub fn vx_limit(self, n: usize) -> (r: VxIter<'a, T>) requires self.pos == 0, ensures r.s@ == (if n < self.s@.len() { self.s@.take(n as int) } else { self.s@ }), r.pos == 0, { unimplemented!() }
}
pub trait VxSliceIter<T> { spec fn items(&self) -> Seq<T>; fn vx_iter(&self) -> (r: VxIter<'_, T>) ensures r.s@ == self.items(), r.pos == 0; }
impl<T> VxSliceIter<T> for [T] { open spec fn items(&self) -> Seq<T> { self@ } fn vx_iter(&self) -> (r: VxIter<'_, T>) { VxIter { s: self, pos: 0 } } }
impl<T> VxSliceIter<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } fn vx_iter(&self) -> (r: VxIter<'_, T>) { VxIter { s: self.as_slice(), pos: 0 } } }

// ---- collecting
pub trait VxCollect<X>: Sized { spec fn is_new(&self) -> bool; spec fn pushed(&self, x: X, o: &Self) -> bool; fn vx_new() -> (r: Self) ensures r.is_new(); fn vx_push(&mut self, x: X) ensures (*old(self)).pushed(x, final(self)); }
impl<X> VxCollect<X> for Vec<X> {
    open spec fn is_new(&self) -> bool { self@ == Seq::<X>::empty() }
    open spec fn pushed(&self, x: X, o: &Vec<X>) -> bool { o@ == self@.push(x) }
    fn vx_new() -> (r: Vec<X>) { Vec::new() }
    fn vx_push(&mut self, x: X) { self.push(x) }
}
pub trait VxFlat<X>: Sized { spec fn is_fnew(&self) -> bool; spec fn flatted(&self, x: X, o: &Self) -> bool; fn vx_fnew() -> (r: Self) ensures r.is_fnew(); fn vx_flat(&mut self, x: X) ensures (*old(self)).flatted(x, final(self)); }
impl VxFlat<BytesMut> for BytesMut {
    open spec fn is_fnew(&self) -> bool { self@ == Seq::<u8>::empty() }
    open spec fn flatted(&self, x: BytesMut, o: &BytesMut) -> bool { o@ == self@ + x@ }
    fn vx_fnew() -> (r: BytesMut) { BytesMut { v: Vec::new() } }
    fn vx_flat(&mut self, x: BytesMut) { self.extend_from_slice(&x) }
}
impl VxFlat<BytesMut> for Bytes {
    open spec fn is_fnew(&self) -> bool { self@ == Seq::<u8>::empty() }
    open spec fn flatted(&self, x: BytesMut, o: &Bytes) -> bool { o@ == self@ + x@ }
    fn vx_fnew() -> (r: Bytes) { Bytes { v: Vec::new() } }
    fn vx_flat(&mut self, x: BytesMut) { let mut n = vx_copy(&x); self.v.append(&mut n); }
}

/// Iteration that takes the items out.
pub struct VxIntoIter<T> { pub s: Ghost<Seq<T>>, pub pos: usize, pub v: Vec<T> }
impl<T> VxIntoIter<T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    pub fn vx_pos(&self) -> (r: usize) ensures r == self.pos { self.pos }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures
            final(self).s == old(self).s,
            final(self).wf(),
            old(self).pos < old(self).s@.len() ==> r == Some(old(self).s@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).s@.len() ==> r is None && final(self).pos == old(self).pos,
    { unimplemented!() }
}
impl<T> VxIntoIter<T> {
    #[verifier::external_body] pub fn vx_rev(self) -> (r: VxIntoIter<T>) requires self.pos == 0, ensures r.s@ == self.s@.reverse(), r.pos == 0, { unimplemented!() }
    #[verifier::external_body] pub fn vx_skip(self, n: usize) -> (r: VxIntoIter<T>) requires self.pos == 0, ensures r.s@ == (if n < self.s@.len() { self.s@.skip(n as int) } else { Seq::empty() }), r.pos == 0, { unimplemented!() }
    #[verifier::external_body] pub fn vx_limit(self, n: usize) -> (r: VxIntoIter<T>) requires self.pos == 0, ensures r.s@ == (if n < self.s@.len() { self.s@.take(n as int) } else { self.s@ }), r.pos == 0, { unimplemented!() }
}
pub trait VxVec<T>: Sized {
    spec fn vseq(&self) -> Seq<T>;
    fn vx_into_iter(self) -> (r: VxIntoIter<T>) ensures r.s@ == self.vseq(), r.pos == 0;
    fn vx_append(&mut self, o: &mut Self) ensures (*final(self)).vseq() == (*old(self)).vseq() + (*old(o)).vseq(), (*final(o)).vseq() == Seq::<T>::empty();
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures
            match r {
                Some(x) => (*old(self)).vseq().len() > 0 && *x == (*old(self)).vseq().last() && (*final(self)).vseq() == (*old(self)).vseq().update((*old(self)).vseq().len() - 1, *final(x)),
                None => (*old(self)).vseq().len() == 0 && *final(self) == *old(self),
            };
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIntoIter<T>) { unimplemented!() }
    fn vx_append(&mut self, o: &mut Vec<T>) { self.append(o) }
    #[verifier::external_body] fn vx_last_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
}

// ---- parts of texts
/// The texts with the separator between them.
pub open spec fn joined_by(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined_by(s.drop_last(), sep) + sep + s.last() }
}
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
/// The place of the last such character.
pub open spec fn last_pos(s: Seq<char>, c: char) -> Option<int>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s.last() == c { Some(s.len() - 1) } else { last_pos(s.drop_last(), c) }
}
/// The byte offset of the `k`th character.
pub open spec fn byte_pos(s: Seq<char>, k: int) -> nat { utf8(s.take(k)).len() }
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_split(&self, c: char) -> (r: VxIntoIter<&str>) ensures r.pos == 0, r.s@.len() > 0, joined_by(texts(r.s@), seq![c]) == self.tv(), forall|i: int| 0 <= i < r.s@.len() ==> !(#[trigger] r.s@[i])@.contains(c);
    fn vx_strip_prefix(&self, c: char) -> (r: Option<&str>)
        ensures match r { Some(x) => self.tv().len() > 0 && self.tv()[0] == c && x@ == self.tv().skip(1), None => !(self.tv().len() > 0 && self.tv()[0] == c) };
    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures match r { Some(i) => last_pos(self.tv(), c) is Some && i == byte_pos(self.tv(), last_pos(self.tv(), c)->0), None => last_pos(self.tv(), c) is None };
    fn vx_str_split_at(&self, i: usize) -> (r: (&str, &str))
        requires exists|k: int| 0 <= k <= self.tv().len() && #[trigger] byte_pos(self.tv(), k) == i,
        ensures forall|k: int| 0 <= k <= self.tv().len() && #[trigger] byte_pos(self.tv(), k) == i ==> r.0@ == self.tv().take(k) && r.1@ == self.tv().skip(k);
}
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split(&self, c: char) -> (r: VxIntoIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix(&self, c: char) -> (r: Option<&str>) { self.strip_prefix(c) }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { self.rfind(c) }
    #[verifier::external_body] fn vx_str_split_at(&self, i: usize) -> (r: (&str, &str)) { self.split_at(i) }
}
pub trait VxJoin { spec fn parts(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined_by(self.parts(), sep@); }
impl<'a> VxJoin for [&'a str] { open spec fn parts(&self) -> Seq<Seq<char>> { texts(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VxJoin for Vec<&'a str> { open spec fn parts(&self) -> Seq<Seq<char>> { texts(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VxJoin for Vec<String> { open spec fn parts(&self) -> Seq<Seq<char>> { owned_texts(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub open spec fn owned_texts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VxInto<T>: Sized { spec fn into_is(self, t: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_is(r); }
impl<'a> VxInto<VxCow> for &'a str { open spec fn into_is(self, t: VxCow) -> bool { t@ == self@ } fn vx_into(self) -> (r: VxCow) { VxCow { s: self.vx_to_string() } } }
impl VxInto<VxCow> for String { open spec fn into_is(self, t: VxCow) -> bool { t@ == self@ } fn vx_into(self) -> (r: VxCow) { VxCow { s: self } } }
impl<'a> VxInto<String> for &'a str { open spec fn into_is(self, t: String) -> bool { t@ == self@ } fn vx_into(self) -> (r: String) { self.vx_to_string() } }
impl VxInto<String> for VxCow { open spec fn into_is(self, t: String) -> bool { t@ == self@ } fn vx_into(self) -> (r: String) { self.s } }

// ---- format!
pub trait VxDisplay { spec fn disp(&self) -> Seq<char>; fn vx_disp(&self) -> (r: String) ensures r@ == self.disp(); }
impl VxDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { self.to_string() } }
impl VxDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } fn vx_disp(&self) -> (r: String) { VxClone::vx_clone(self) } }
impl<T: VxDisplay + ?Sized> VxDisplay for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_disp(&self) -> (r: String) { (**self).vx_disp() } }
pub fn vx_fmt() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_fmt_lit(f: String, s: &str) -> (r: String) ensures r@ == f@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_arg<T: VxDisplay>(f: String, a: &T) -> (r: String) ensures r@ == f@ + a.disp() { unimplemented!() }
pub fn vx_fmt_end(f: String) -> (r: String) ensures r@ == f@ { f }

// ---- maps

/// Keys of an ordered map.
pub trait VxKey: View { spec fn lt(a: Self::V, b: Self::V) -> bool; }
impl VxKey for u64 { open spec fn lt(a: u64, b: u64) -> bool { a < b } }
impl VxKey for i64 { open spec fn lt(a: i64, b: i64) -> bool { a < b } }
pub uninterp spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool;
impl VxKey for String { open spec fn lt(a: Seq<char>, b: Seq<char>) -> bool { str_lt(a, b) } }
/// `s` holds the values of the map, once each, in ascending order of their keys.
pub open spec fn vals_by<K: VxKey, T>(m: Map<K::V, T>, ks: Seq<K::V>, s: Seq<&T>) -> bool {
    &&& ks.len() == s.len()
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] K::lt(ks[i], ks[j])
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]) && *s[i] == m[ks[i]]
    &&& forall|k: K::V| m.dom().contains(k) ==> ks.contains(k)
}
pub open spec fn vals_of<K: VxKey, T>(m: Map<K::V, T>, s: Seq<&T>) -> bool { exists|ks: Seq<K::V>| vals_by::<K, T>(m, ks, s) }
/// `s` holds the entries of the map, once each, in ascending order of their keys.
pub open spec fn entries_of<K: VxKey, T>(m: Map<K::V, T>, s: Seq<(&K, &T)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> K::lt(#[trigger] s[i].0@, #[trigger] s[j].0@) && s[i].0@ != s[j].0@
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && *s[i].1 == m[s[i].0@]
    &&& forall|k: K::V| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
}
/// An iterator over the values of an ordered map: what is left of them.
pub struct VxValues<'a, T> { pub v: Vec<&'a T> }

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub struct BTreeMap<K, T> { k: std::marker::PhantomData<K>, t: std::marker::PhantomData<T> }
impl<K: View, T> View for BTreeMap<K, T> { type V = Map<K::V, T>; uninterp spec fn view(&self) -> Map<K::V, T>; }
impl<K: View, T> VxDefault for BTreeMap<K, T> { open spec fn is_def(&self) -> bool { self@ == Map::<K::V, T>::empty() } #[verifier::external_body] fn vx_default() -> (r: BTreeMap<K, T>) { unimplemented!() } }
impl<K: View, T> BTreeMap<K, T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&T>)
        ensures
            self@.dom().contains(k@) ==> r is Some && *r->0 == self@[k@],
            !self@.dom().contains(k@) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: View<V = K::V> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut T>)
        ensures
            match r {
                Some(x) => old(self)@.dom().contains(k@) && *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)),
                None => !old(self)@.dom().contains(k@) && *final(self) == *old(self),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, t: T) -> (r: Option<T>)
        ensures
            final(self)@ == old(self)@.insert(k@, t),
            old(self)@.dom().contains(k@) ==> r == Some(old(self)@[k@]),
            !old(self)@.dom().contains(k@) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: BTreeEntry<'_, K, T>)
        ensures
            old(self)@.dom().contains(k@) ==> (r matches BTreeEntry::Occupied(o) && o.k == k && *o.m == *old(self) && *final(o.m) == *final(self)),
            !old(self)@.dom().contains(k@) ==> (r matches BTreeEntry::Vacant(o) && o.k == k && *o.m == *old(self) && *final(o.m) == *final(self)),
    { unimplemented!() }
}
impl<K: VxKey, T> BTreeMap<K, T> {
    /// The entries in the order of their keys.
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIntoIter<(&K, &T)>)
        ensures entries_of::<K, T>(self@, r.s@), r.pos == 0,
    { unimplemented!() }
    /// The values in the order of their keys.
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: VxValues<'_, T>)
        ensures vals_of::<K, T>(self@, r.v@),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub struct BTreeVacant<'a, K, T> { pub m: &'a mut BTreeMap<K, T>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub struct BTreeOccupied<'a, K, T> { pub m: &'a mut BTreeMap<K, T>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub enum BTreeEntry<'a, K, T> { Occupied(BTreeOccupied<'a, K, T>), Vacant(BTreeVacant<'a, K, T>) }
impl<'a, K: View, T> BTreeVacant<'a, K, T> {
    #[verifier::external_body]
    pub fn insert(self, t: T)
        ensures final(self.m)@ == old(self.m)@.insert(self.k@, t),
    { unimplemented!() }
    pub fn key(&self) -> (r: &K) ensures *r == self.k { &self.k }
}
impl<'a, K: View, T> BTreeOccupied<'a, K, T> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &T)
        ensures *r == (*old(self.m))@[self.k@],
    { unimplemented!() }
    pub fn key(&self) -> (r: &K) ensures *r == self.k { &self.k }
}

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub struct HashMap<K, T> { k: std::marker::PhantomData<K>, t: std::marker::PhantomData<T> }
impl<K: View, T> View for HashMap<K, T> { type V = Map<K::V, T>; uninterp spec fn view(&self) -> Map<K::V, T>; }
impl<K: View, T> VxDefault for HashMap<K, T> { open spec fn is_def(&self) -> bool { self@ == Map::<K::V, T>::empty() } #[verifier::external_body] fn vx_default() -> (r: HashMap<K, T>) { unimplemented!() } }
impl<K: View, T> HashMap<K, T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&T>)
        ensures
            self@.dom().contains(k@) ==> r is Some && *r->0 == self@[k@],
            !self@.dom().contains(k@) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: View<V = K::V> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut T>)
        ensures
            match r {
                Some(x) => old(self)@.dom().contains(k@) && *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)),
                None => !old(self)@.dom().contains(k@) && *final(self) == *old(self),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, t: T) -> (r: Option<T>)
        ensures
            final(self)@ == old(self)@.insert(k@, t),
            old(self)@.dom().contains(k@) ==> r == Some(old(self)@[k@]),
            !old(self)@.dom().contains(k@) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: HashEntry<'_, K, T>)
        ensures
            old(self)@.dom().contains(k@) ==> (r matches HashEntry::Occupied(o) && o.k == k && *o.m == *old(self) && *final(o.m) == *final(self)),
            !old(self)@.dom().contains(k@) ==> (r matches HashEntry::Vacant(o) && o.k == k && *o.m == *old(self) && *final(o.m) == *final(self)),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub struct HashVacant<'a, K, T> { pub m: &'a mut HashMap<K, T>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub struct HashOccupied<'a, K, T> { pub m: &'a mut HashMap<K, T>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub enum HashEntry<'a, K, T> { Occupied(HashOccupied<'a, K, T>), Vacant(HashVacant<'a, K, T>) }
impl<'a, K: View, T> HashVacant<'a, K, T> {
    #[verifier::external_body]
    pub fn insert(self, t: T)
        ensures final(self.m)@ == old(self.m)@.insert(self.k@, t),
    { unimplemented!() }
    pub fn key(&self) -> (r: &K) ensures *r == self.k { &self.k }
}
impl<'a, K: View, T> HashOccupied<'a, K, T> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &T)
        ensures *r == (*old(self.m))@[self.k@],
    { unimplemented!() }
    pub fn key(&self) -> (r: &K) ensures *r == self.k { &self.k }
}

impl<K: View, T> VxCollect<(K, T)> for BTreeMap<K, T> {
    open spec fn is_new(&self) -> bool { self@ == Map::<K::V, T>::empty() }
    open spec fn pushed(&self, x: (K, T), o: &BTreeMap<K, T>) -> bool { o@ == self@.insert(x.0@, x.1) }
    fn vx_new() -> (r: BTreeMap<K, T>) { BTreeMap::new() }
    fn vx_push(&mut self, x: (K, T)) { self.insert(x.0, x.1); }
}

impl<K: View, T> VxCollect<(K, T)> for HashMap<K, T> {
    open spec fn is_new(&self) -> bool { self@ == Map::<K::V, T>::empty() }
    open spec fn pushed(&self, x: (K, T), o: &HashMap<K, T>) -> bool { o@ == self@.insert(x.0@, x.1) }
    fn vx_new() -> (r: HashMap<K, T>) { HashMap::new() }
    fn vx_push(&mut self, x: (K, T)) { self.insert(x.0, x.1); }
}
