// ---------------------------------------------------------------------------
// Model of what the extracted code calls outside /repo.  Everything marked
// external_body or axiom here is an assumed contract (the trusted base).
// ---------------------------------------------------------------------------
pub mod vx {
use vstd::prelude::*;
use vstd::utf8::*;

pub struct vx_nothing;

/// One verification covers two questions.  With `strict()` false a panic or
/// exit is allowed anywhere: what is proved is that the code, if it returns,
/// has done what its contract says.  With `strict()` true sources and sinks do
/// not fail and no panic may be reachable: what is proved in addition is that
/// valid input is accepted.  The value is unknown, so both are proved.
pub uninterp spec fn strict() -> bool;

#[verifier::external_body]
pub fn vx_panic() -> ! requires !strict() { panic!() }
#[verifier::external_body]
pub fn vx_exit(code: i32) -> !
    requires
        !strict(),
        (code as int) % 256 != 0, //#C20,C22  the status is the low byte
{ panic!() }
#[verifier::external_body]
pub fn vx_any_bool() -> bool { true }
#[verifier::external_body]
pub fn vx_format() -> String { String::new() }

// ------------------------------------------------------------- byte orders
pub open spec fn le(n: nat, k: nat) -> Seq<u8> decreases k {
    if k == 0 { seq![] } else { seq![(n % 256) as u8] + le(n / 256, (k - 1) as nat) }
}
/// The k-byte representation of n in the given byte order.
pub open spec fn enc(big: bool, n: nat, k: nat) -> Seq<u8> {
    if big { le(n, k).reverse() } else { le(n, k) }
}
pub open spec fn pow256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
pub open spec fn i32_bits(n: i32) -> nat { if n < 0 { (n + 0x1_0000_0000) as nat } else { n as nat } }

pub broadcast proof fn le_len(n: nat, k: nat)
    ensures (#[trigger] le(n, k)).len() == k
    decreases k
{ if k > 0 { le_len(n / 256, (k - 1) as nat); } }
pub broadcast proof fn enc_len(big: bool, n: nat, k: nat)
    ensures (#[trigger] enc(big, n, k)).len() == k
{ le_len(n, k); }
pub proof fn le_inj(a: nat, b: nat, k: nat)
    requires a < pow256(k), b < pow256(k), le(a, k) == le(b, k)
    ensures a == b
    decreases k
{
    if k > 0 {
        let (x, y) = (le(a, k), le(b, k));
        le_len(a / 256, (k - 1) as nat);
        le_len(b / 256, (k - 1) as nat);
        assert(x.skip(1) =~= le(a / 256, (k - 1) as nat));
        assert(y.skip(1) =~= le(b / 256, (k - 1) as nat));
        assert(x[0] == (a % 256) as u8 && y[0] == (b % 256) as u8);
        assert(a < 256 * pow256((k - 1) as nat));
        assert(b < 256 * pow256((k - 1) as nat));
        le_inj(a / 256, b / 256, (k - 1) as nat);
        assert(a == 256 * (a / 256) + a % 256) by(nonlinear_arith);
        assert(b == 256 * (b / 256) + b % 256) by(nonlinear_arith);
    }
}
pub proof fn enc_inj(big: bool, a: nat, b: nat, k: nat)
    requires a < pow256(k), b < pow256(k), enc(big, a, k) == enc(big, b, k)
    ensures a == b
{
    if big {
        assert(le(a, k) =~= le(a, k).reverse().reverse());
        assert(le(b, k) =~= le(b, k).reverse().reverse());
    }
    le_inj(a, b, k);
}
pub proof fn pow256_values()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 9);
}
pub proof fn enc1(big: bool, n: u8)
    ensures enc(big, n as nat, 1) =~= seq![n]
{
    reveal_with_fuel(le, 2);
    assert(n as nat % 256 == n as nat);
}
/// injectivity at the widths in use
pub broadcast proof fn enc_inj4(big: bool, a: nat, b: nat)
    requires a < 0x1_0000_0000, b < 0x1_0000_0000, #[trigger] enc(big, a, 4) == #[trigger] enc(big, b, 4)
    ensures a == b
{ pow256_values(); enc_inj(big, a, b, 4); }
pub broadcast proof fn enc_inj8(big: bool, a: nat, b: nat)
    requires a < 0x1_0000_0000_0000_0000, b < 0x1_0000_0000_0000_0000, #[trigger] enc(big, a, 8) == #[trigger] enc(big, b, 8)
    ensures a == b
{ pow256_values(); enc_inj(big, a, b, 8); }
pub broadcast proof fn enc_inj2(big: bool, a: nat, b: nat)
    requires a < 0x1_0000, b < 0x1_0000, #[trigger] enc(big, a, 2) == #[trigger] enc(big, b, 2)
    ensures a == b
{ pow256_values(); enc_inj(big, a, b, 2); }
/// texts are equal if their characters are
pub mod texts {
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
pub broadcast axiom fn string_str(a: &String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn string_str_eq() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn str_string(a: &str, b: &String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn str_string_eq() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn string_string(a: &String, b: &String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn string_string_eq() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn string_ref<'a>(a: &String, b: &&'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn string_ref_eq<'a>() ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec();
pub broadcast axiom fn ref_string<'a>(a: &&'a str, b: &String) ensures #[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ref_string_eq<'a>() ensures #[trigger] <&'a str as PartialEqSpec<String>>::obeys_eq_spec();
}
pub broadcast group group_enc { enc_len, enc_inj2, enc_inj4, enc_inj8, texts::string_str, texts::string_str_eq, texts::str_string, texts::str_string_eq, texts::string_string, texts::string_string_eq, texts::string_ref, texts::string_ref_eq, texts::ref_string, texts::ref_string_eq }

/// casts between u64 and i64 keep the bits
pub broadcast proof fn cast_u64_i64(r: i64)
    ensures r < 0 ==> #[verifier::truncate] (#[trigger] (r as u64)) == r + 0x1_0000_0000_0000_0000
{
    assert(r < 0 ==> #[verifier::truncate] (r as u64) >= 0x8000_0000_0000_0000u64) by(bit_vector);
    assert(r < 0 ==> (#[verifier::truncate] (r as u64)) - 0x8000_0000_0000_0000u64 == r + 0x8000_0000_0000_0000i128) by(bit_vector);
}
pub broadcast proof fn cast_i64_u64(r: u64)
    ensures r > 0x7fff_ffff_ffff_ffff ==> #[verifier::truncate] (#[trigger] (r as i64)) == r - 0x1_0000_0000_0000_0000
{
    let v = #[verifier::truncate] (r as i64);
    assert(r > 0x7fff_ffff_ffff_ffff ==> v < 0 && #[verifier::truncate] (v as u64) == r) by(bit_vector) requires v == #[verifier::truncate] (r as i64);
    cast_u64_i64(v);
}
pub broadcast proof fn mul_unit(x: int, y: int)
    ensures x == 1 ==> #[trigger] (x * y) == y, x == -1 ==> x * y == -y, y == 1 ==> x * y == x, y == -1 ==> x * y == -x
{
    assert(x == 1 ==> x * y == y) by(nonlinear_arith);
    assert(x == -1 ==> x * y == -y) by(nonlinear_arith);
    assert(y == 1 ==> x * y == x) by(nonlinear_arith);
    assert(y == -1 ==> x * y == -x) by(nonlinear_arith);
}
pub broadcast group group_casts { cast_u64_i64, cast_i64_u64, mul_unit }

pub trait ByteOrder { spec fn big() -> bool; }
pub struct LittleEndian { pub x: u8 }
pub struct BigEndian { pub x: u8 }
impl ByteOrder for LittleEndian { open spec fn big() -> bool { false } }
impl ByteOrder for BigEndian { open spec fn big() -> bool { true } }
pub type NativeEndian = LittleEndian;
pub type LE = LittleEndian;
pub type BE = BigEndian;
pub type NetworkEndian = BigEndian;

// ------------------------------------------------------------------- sinks
pub struct IoError { pub e: int_ }
pub type int_ = u8;

/// `sink()`: the bytes put into the sink by calls that reported success.
pub trait Write {
    spec fn sink(&self) -> Seq<u8>;
    /// may accept only a part
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures
            r is Ok ==> r->Ok_0 <= buf@.len() && final(self).sink() == old(self).sink() + buf@.take(r->Ok_0 as int),
            strict() ==> r is Ok;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>)
        ensures
            r is Ok ==> final(self).sink() == old(self).sink() + buf@,
            strict() ==> r is Ok;
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures
            r is Ok ==> final(self).sink() == old(self).sink(),
            strict() ==> r is Ok;
}
impl Write for Vec<u8> {
    open spec fn sink(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}
pub trait WriteU8: Write {
    fn write_u8(&mut self, n: u8) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sink() == old(self).sink() + seq![n], strict() ==> r is Ok;
}
impl<W: Write + ?Sized> WriteU8 for W {
    #[verifier::external_body]
    fn write_u8(&mut self, n: u8) -> (r: Result<(), IoError>) { unimplemented!() }
}
pub trait WriteBytesExt: Write {
    fn write_u16<T: ByteOrder>(&mut self, n: u16) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sink() == old(self).sink() + enc(T::big(), n as nat, 2), strict() ==> r is Ok;
    fn write_u32<T: ByteOrder>(&mut self, n: u32) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sink() == old(self).sink() + enc(T::big(), n as nat, 4), strict() ==> r is Ok;
    fn write_i32<T: ByteOrder>(&mut self, n: i32) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sink() == old(self).sink() + enc(T::big(), i32_bits(n), 4), strict() ==> r is Ok;
    fn write_u64<T: ByteOrder>(&mut self, n: u64) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sink() == old(self).sink() + enc(T::big(), n as nat, 8), strict() ==> r is Ok;
}
impl<W: Write + ?Sized> WriteBytesExt for W {
    #[verifier::external_body]
    fn write_u16<T: ByteOrder>(&mut self, n: u16) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32<T: ByteOrder>(&mut self, n: u32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_i32<T: ByteOrder>(&mut self, n: i32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u64<T: ByteOrder>(&mut self, n: u64) -> (r: Result<(), IoError>) { unimplemented!() }
}

// ----------------------------------------------------------------- sources
/// `stream()`: everything the source will ever deliver; `taken()`: what has
/// been delivered by calls that reported success.  `tok()` is what a call must
/// leave alone (used by adapters that borrow another source).
pub trait Read {
    type Tok;
    spec fn stream(&self) -> Seq<u8>;
    spec fn taken(&self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn tok(&self) -> Self::Tok;
    fn read<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<usize, IoError>)
        ensures
            final(self).tok() == old(self).tok(), final(self).stream() == old(self).stream(),
            final(buf).bytes().len() == old(buf).bytes().len(),
            r is Ok ==> r->Ok_0 <= old(buf).bytes().len()
                && final(self).taken() == old(self).taken() + final(buf).bytes().take(r->Ok_0 as int)
                && final(self).taken().is_prefix_of(old(self).stream());
    fn read_exact<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<(), IoError>)
        ensures
            final(self).tok() == old(self).tok(), final(self).stream() == old(self).stream(),
            final(buf).bytes().len() == old(buf).bytes().len(),
            r is Ok ==> final(self).taken() == old(self).taken() + final(buf).bytes()
                && final(self).taken().is_prefix_of(old(self).stream()),
            strict() && old(self).stream().len() >= old(self).taken().len() + old(buf).bytes().len() ==> r is Ok;
}
pub trait VxBuf { spec fn bytes(&self) -> Seq<u8>; }
impl VxBuf for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBuf for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl VxBuf for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }

/// what a successful read of k bytes with the value n does
pub open spec fn took<R: Read + ?Sized>(pre: &R, post: &R, b: Seq<u8>) -> bool {
    &&& post.taken() == pre.taken() + b
    &&& post.taken().is_prefix_of(pre.stream())
    &&& post.stream() == pre.stream()
}
pub open spec fn has<R: Read + ?Sized>(pre: &R, k: int) -> bool { pre.stream().len() >= pre.taken().len() + k }

pub trait ReadU8: Read {
    fn read_u8(&mut self) -> (r: Result<u8, IoError>)
        ensures final(self).tok() == old(self).tok(), r is Ok ==> took(old(self), final(self), seq![r->Ok_0]), strict() && has(old(self), 1) ==> r is Ok;
}
impl<R: Read + ?Sized> ReadU8 for R {
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
}
pub trait ReadBytesExt: Read {
    fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16, IoError>)
        ensures final(self).tok() == old(self).tok(), r is Ok ==> took(old(self), final(self), enc(T::big(), r->Ok_0 as nat, 2)), strict() && has(old(self), 2) ==> r is Ok;
    fn read_u32<T: ByteOrder>(&mut self) -> (r: Result<u32, IoError>)
        ensures final(self).tok() == old(self).tok(), r is Ok ==> took(old(self), final(self), enc(T::big(), r->Ok_0 as nat, 4)), strict() && has(old(self), 4) ==> r is Ok;
    fn read_i32<T: ByteOrder>(&mut self) -> (r: Result<i32, IoError>)
        ensures final(self).tok() == old(self).tok(), r is Ok ==> took(old(self), final(self), enc(T::big(), i32_bits(r->Ok_0), 4)), strict() && has(old(self), 4) ==> r is Ok;
    fn read_u64<T: ByteOrder>(&mut self) -> (r: Result<u64, IoError>)
        ensures final(self).tok() == old(self).tok(), r is Ok ==> took(old(self), final(self), enc(T::big(), r->Ok_0 as nat, 8)), strict() && has(old(self), 8) ==> r is Ok;
}
impl<R: Read + ?Sized> ReadBytesExt for R {
    #[verifier::external_body]
    fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<T: ByteOrder>(&mut self) -> (r: Result<u32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_i32<T: ByteOrder>(&mut self) -> (r: Result<i32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u64<T: ByteOrder>(&mut self) -> (r: Result<u64, IoError>) { unimplemented!() }
}

/// `front.chain(inner)`, described for the case that `front` is what was last
/// taken from `inner`: reading the chain re-reads it and then goes on.
#[verifier::reject_recursive_types(R)]
pub struct Chain<'a, R: Read> { base: Ghost<Seq<u8>>, n: Ghost<nat>, stream: Ghost<Seq<u8>>, taken: Ghost<Seq<u8>>, inner: &'a mut R }
impl<'a, R: Read> Chain<'a, R> {
    #[verifier::type_invariant]
    closed spec fn inv(&self) -> bool {
        &&& self.taken@.len() >= self.base@.len() + self.n@ ==> (*self.inner).taken() == self.taken@
        &&& (*self.inner).stream() == self.stream@
    }
    pub closed spec fn base(&self) -> Seq<u8> { self.base@ }
    pub closed spec fn n(&self) -> nat { self.n@ }
    pub closed spec fn inner(&self) -> R { *self.inner }
    #[verifier::prophetic]
    pub closed spec fn fut(&self) -> R { *final(self.inner) }
    #[verifier::prophetic]
    pub closed spec fn itok(&self) -> R::Tok { self.inner.tok() }
    /// once the front part has been read, the inner source is where the chain is
    pub proof fn facts(tracked &self)
        ensures
            self.taken().len() >= self.base().len() + self.n() ==> self.inner().taken() == self.taken(),
            self.inner().stream() == self.stream(),
    { use_type_invariant(self); }
    pub proof fn gone(self)
        ensures has_resolved(self) ==> self.fut() == self.inner(), self.inner().tok() == self.itok(),
    { }
}
impl<'a, R: Read> Read for Chain<'a, R> {
    type Tok = (Seq<u8>, nat, R, R::Tok);
    closed spec fn stream(&self) -> Seq<u8> { self.stream@ }
    closed spec fn taken(&self) -> Seq<u8> { self.taken@ }
    #[verifier::prophetic]
    open spec fn tok(&self) -> Self::Tok { (self.base(), self.n(), self.fut(), self.itok()) }
    #[verifier::external_body]
    fn read<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<(), IoError>) { unimplemented!() }
}
pub trait ReadChain {
    spec fn front(&self) -> Seq<u8>;
    fn chain<'a, R: Read>(self, r: &'a mut R) -> (c: Chain<'a, R>) where Self: Sized
        requires self.front() =~= old(r).taken().skip(old(r).taken().len() - self.front().len()), old(r).taken().len() >= self.front().len(),
        ensures
            c.base() == old(r).taken().take(old(r).taken().len() - self.front().len()),
            c.n() == self.front().len(),
            forall|t: Seq<u8>| old(r).taken() == #[trigger] (t + self.front()) ==> c.base() == t,
            c.taken() == c.base(),
            c.stream() == old(r).stream(),
            c.fut() == *final(r),
            c.itok() == old(r).tok();
}
impl<const N: usize> ReadChain for [u8; N] {
    open spec fn front(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn chain<'a, R: Read>(self, r: &'a mut R) -> (c: Chain<'a, R>) { unimplemented!() }
}

// ------------------------------------------------------------- numeric codes
/// `#[derive(FromPrimitive)]`: the variant whose discriminant is n.
pub trait FromPrimitive: Sized {
    spec fn prim(n: int) -> Option<Self>;
    fn from_u8(n: u8) -> (r: Option<Self>) ensures r == Self::prim(n as int);
    fn from_u16(n: u16) -> (r: Option<Self>) ensures r == Self::prim(n as int);
    fn from_u32(n: u32) -> (r: Option<Self>) ensures r == Self::prim(n as int);
    fn from_u64(n: u64) -> (r: Option<Self>) ensures r == Self::prim(n as int);
    fn from_i8(n: i8) -> (r: Option<Self>) ensures r == Self::prim(n as int);
    fn from_i16(n: i16) -> (r: Option<Self>) ensures r == Self::prim(n as int);
    fn from_i32(n: i32) -> (r: Option<Self>) ensures r == Self::prim(n as int);
    fn from_i64(n: i64) -> (r: Option<Self>) ensures r == Self::prim(n as int);
}

// ---------------------------------------------------------------- sequences
#[verifier::external_body]
pub fn vx_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ vec![x; n] }
#[verifier::external_body]
pub fn vx_arr_to_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { a.into() }
#[verifier::external_body]
pub fn vx_concat<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { let mut a = a; a.extend(b); a }
#[verifier::external_body]
pub fn vx_first<T>(a: Vec<T>) -> (r: Option<T>) ensures r is Some <==> a@.len() > 0, r is Some ==> r->Some_0 == a@[0] { a.into_iter().next() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn vx_end(i: usize, n: usize, len: usize) -> (r: usize)
    requires i <= len
    ensures r == if n < len - i { i + n } else { len as int }
{ if n < len - i { i + n } else { len } }
#[verifier::external_body]
pub fn vx_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { std::mem::replace(a, b) }

/// marks a predicate that contracts about closures are to be used with
pub open spec fn pred<T>(p: spec_fn(T) -> bool) -> bool { true }
/// position of the first element with p, or the length
pub open spec fn first_pos<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if p(s[0]) { 0 } else { 1 + first_pos(s.skip(1), p) }
}
pub broadcast proof fn first_pos_facts<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures
        0 <= #[trigger] first_pos(s, p) <= s.len(),
        first_pos(s, p) < s.len() ==> p(s[first_pos(s, p)]),
        forall|i: int| 0 <= i < first_pos(s, p) ==> !p(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 && !p(s[0]) {
        let t = s.skip(1);
        first_pos_facts(t, p);
        assert forall|i: int| 0 <= i < first_pos(s, p) implies !p(#[trigger] s[i]) by {
            if i > 0 { assert(s[i] == t[i - 1]); }
        }
    }
}
pub proof fn first_pos_is<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !p(#[trigger] s[i]), k < s.len() ==> p(s[k])
    ensures first_pos(s, p) == k
{
    first_pos_facts(s, p);
    let f = first_pos(s, p);
    if f < k { assert(!p(s[f])); } else if f > k { assert(!p(s[k])); }
}
/// the pieces between the elements with p
pub open spec fn split_at_all<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<Seq<T>> decreases s.len() {
    let k = first_pos(s, p);
    if 0 <= k < s.len() { seq![s.take(k)] + split_at_all(s.skip(k + 1), p) } else { seq![s] }
}

// -------------------------------------------------------------- formatting
pub struct FmtError { pub e: u8 }
/// `out()`: what has been printed
#[verifier::external_body]
pub struct Formatter { x: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self).out() == old(self).out() + s@, strict() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write_any(&mut self) -> (r: Result<(), FmtError>) { unimplemented!() }
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self).out() == old(self).out() + s@, strict() ==> r is Ok
    { self.vx_write_str(s) }
}
pub trait Display {
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(f).out() == old(f).out() + self.shown(), strict() ==> r is Ok;
}

// ------------------------------------------------------------------ strings
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as int <= 127 }
pub open spec fn ascii_char(c: char) -> bool { c as int <= 127 }
pub open spec fn ascii_byte(b: u8) -> bool { b <= 127 }
/// the bytes of an ASCII string
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }

pub proof fn ascii_utf8(s: Seq<char>)
    requires ascii(s)
    ensures encode_utf8(s) =~= bytes_of(s)
{
    assert(is_ascii_chars(s));
    is_ascii_chars_encode_utf8(s);
}
pub struct Utf8Error { pub e: u8 }
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: Result<String, Utf8Error>)
    ensures
        r is Ok ==> encode_utf8(r->Ok_0@) == v@,
        (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) <= 127) ==> r is Ok && ascii(r->Ok_0@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_from_utf8<'a>(v: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures
        r is Ok ==> encode_utf8(r->Ok_0@) == v@,
        (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) <= 127) ==> r is Ok && ascii(r->Ok_0@),
{ unimplemented!() }
/// equal encodings, equal strings
pub proof fn utf8_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_opt_str_eq(a: Option<&str>, b: &str) -> (r: bool) ensures r == (a is Some && a->Some_0@ == b@) { a == Some(b) }
pub fn vx_to_string(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }

// --------------------------------------------------- methods, by vx_ names
pub mod t {
use vstd::prelude::*;
use vstd::utf8::*;
use super::*;
pub use super::ReadChain;

pub trait VxAsRef { type O: ?Sized; spec fn ar(&self) -> &Self::O; fn vx_as_ref(&self) -> (r: &Self::O) ensures r == self.ar(); }
impl<T> VxAsRef for [T] { type O = [T]; open spec fn ar(&self) -> &[T] { self } fn vx_as_ref(&self) -> &[T] { self } }
pub trait VxVecAsRef<T> { fn vx_as_ref(&self) -> &[T]; }
impl<T> VxVecAsRef<T> for Vec<T> { fn vx_as_ref(&self) -> (r: &[T]) ensures r@ == self@ { self.as_slice() } }
pub trait VxUnwrap: Sized {
    type Out;
    spec fn good(self) -> bool;
    spec fn val(self) -> Self::Out;
    fn vx_unwrap(self) -> (r: Self::Out)
        requires strict() ==> self.good()
        ensures self.good(), r == self.val();
}
impl<T> VxUnwrap for Option<T> {
    type Out = T;
    open spec fn good(self) -> bool { self is Some }
    open spec fn val(self) -> T { self->Some_0 }
    fn vx_unwrap(self) -> (r: T) { proof { let _g = self.good(); let _v = self.val(); } match self { Some(x) => x, None => vx_panic() } }
}
impl<T, E> VxUnwrap for Result<T, E> {
    type Out = T;
    open spec fn good(self) -> bool { self is Ok }
    open spec fn val(self) -> T { self->Ok_0 }
    fn vx_unwrap(self) -> (r: T) { proof { let _g = self.good(); let _v = self.val(); } match self { Ok(x) => x, Err(_) => vx_panic() } }
}
/// arithmetic modulo a power of two
pub open spec fn low_u(n: int, m: int) -> int { n % m }
pub open spec fn low_i(n: int, m: int) -> int { let r = n % m; if r < m / 2 { r } else { r - m } }
pub trait VxWrap: Sized {
    spec fn wi(self) -> int;
    spec fn low(n: int) -> int;
    fn vx_wrapping_add(self, b: Self) -> (r: Self) ensures r.wi() == Self::low(self.wi() + b.wi());
    fn vx_wrapping_sub(self, b: Self) -> (r: Self) ensures r.wi() == Self::low(self.wi() - b.wi());
    fn vx_wrapping_mul(self, b: Self) -> (r: Self) ensures r.wi() == Self::low(self.wi() * b.wi());
    fn vx_wrapping_neg(self) -> (r: Self) ensures r.wi() == Self::low(-self.wi());
}
impl VxWrap for u64 { open spec fn wi(self) -> int { self as int } open spec fn low(n: int) -> int { low_u(n, 0x1_0000_0000_0000_0000) }
    #[verifier::external_body] fn vx_wrapping_add(self, b: Self) -> Self { self.wrapping_add(b) }
    #[verifier::external_body] fn vx_wrapping_sub(self, b: Self) -> Self { self.wrapping_sub(b) }
    #[verifier::external_body] fn vx_wrapping_mul(self, b: Self) -> Self { self.wrapping_mul(b) }
    #[verifier::external_body] fn vx_wrapping_neg(self) -> Self { self.wrapping_neg() } }
impl VxWrap for i64 { open spec fn wi(self) -> int { self as int } open spec fn low(n: int) -> int { low_i(n, 0x1_0000_0000_0000_0000) }
    #[verifier::external_body] fn vx_wrapping_add(self, b: Self) -> Self { self.wrapping_add(b) }
    #[verifier::external_body] fn vx_wrapping_sub(self, b: Self) -> Self { self.wrapping_sub(b) }
    #[verifier::external_body] fn vx_wrapping_mul(self, b: Self) -> Self { self.wrapping_mul(b) }
    #[verifier::external_body] fn vx_wrapping_neg(self) -> Self { self.wrapping_neg() } }
impl VxWrap for u32 { open spec fn wi(self) -> int { self as int } open spec fn low(n: int) -> int { low_u(n, 0x1_0000_0000) }
    #[verifier::external_body] fn vx_wrapping_add(self, b: Self) -> Self { self.wrapping_add(b) }
    #[verifier::external_body] fn vx_wrapping_sub(self, b: Self) -> Self { self.wrapping_sub(b) }
    #[verifier::external_body] fn vx_wrapping_mul(self, b: Self) -> Self { self.wrapping_mul(b) }
    #[verifier::external_body] fn vx_wrapping_neg(self) -> Self { self.wrapping_neg() } }
impl VxWrap for i32 { open spec fn wi(self) -> int { self as int } open spec fn low(n: int) -> int { low_i(n, 0x1_0000_0000) }
    #[verifier::external_body] fn vx_wrapping_add(self, b: Self) -> Self { self.wrapping_add(b) }
    #[verifier::external_body] fn vx_wrapping_sub(self, b: Self) -> Self { self.wrapping_sub(b) }
    #[verifier::external_body] fn vx_wrapping_mul(self, b: Self) -> Self { self.wrapping_mul(b) }
    #[verifier::external_body] fn vx_wrapping_neg(self) -> Self { self.wrapping_neg() } }
impl VxWrap for u16 { open spec fn wi(self) -> int { self as int } open spec fn low(n: int) -> int { low_u(n, 0x1_0000) }
    #[verifier::external_body] fn vx_wrapping_add(self, b: Self) -> Self { self.wrapping_add(b) }
    #[verifier::external_body] fn vx_wrapping_sub(self, b: Self) -> Self { self.wrapping_sub(b) }
    #[verifier::external_body] fn vx_wrapping_mul(self, b: Self) -> Self { self.wrapping_mul(b) }
    #[verifier::external_body] fn vx_wrapping_neg(self) -> Self { self.wrapping_neg() } }
impl VxWrap for u8 { open spec fn wi(self) -> int { self as int } open spec fn low(n: int) -> int { low_u(n, 0x100) }
    #[verifier::external_body] fn vx_wrapping_add(self, b: Self) -> Self { self.wrapping_add(b) }
    #[verifier::external_body] fn vx_wrapping_sub(self, b: Self) -> Self { self.wrapping_sub(b) }
    #[verifier::external_body] fn vx_wrapping_mul(self, b: Self) -> Self { self.wrapping_mul(b) }
    #[verifier::external_body] fn vx_wrapping_neg(self) -> Self { self.wrapping_neg() } }
pub trait VxOrd: Sized {
    spec fn le_(self, b: Self) -> bool;
    fn vx_min(self, b: Self) -> (r: Self) ensures r == if self.le_(b) { self } else { b };
    fn vx_max(self, b: Self) -> (r: Self) ensures r == if b.le_(self) { self } else { b };
}
impl VxOrd for u8 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for u16 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for u32 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for u64 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for usize { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for i8 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for i16 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for i32 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
impl VxOrd for i64 { open spec fn le_(self, b: Self) -> bool { self <= b }
    fn vx_min(self, b: Self) -> (r: Self) { if b < self { b } else { self } } fn vx_max(self, b: Self) -> (r: Self) { if b < self { self } else { b } } }
pub trait VxOk<T> { fn vx_ok(self) -> Option<T>; }
impl<T, E> VxOk<T> for Result<T, E> {
    fn vx_ok(self) -> (r: Option<T>) ensures r == (match self { Ok(x) => Some(x), Err(_) => None }) { match self { Ok(x) => Some(x), Err(_) => None } }
}

pub trait VxToBytes<const N: usize> {
    spec fn nb(&self) -> nat;
    fn vx_to_le_bytes(&self) -> (r: [u8; N]) ensures r@ == enc(false, self.nb(), N as nat);
    fn vx_to_be_bytes(&self) -> (r: [u8; N]) ensures r@ == enc(true, self.nb(), N as nat);
    fn vx_to_ne_bytes(&self) -> (r: [u8; N]) ensures r@ == enc(false, self.nb(), N as nat);
}
impl VxToBytes<1> for u8 { open spec fn nb(&self) -> nat { *self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> [u8; 1] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> [u8; 1] { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(&self) -> [u8; 1] { self.to_ne_bytes() } }
impl VxToBytes<2> for u16 { open spec fn nb(&self) -> nat { *self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> [u8; 2] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> [u8; 2] { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(&self) -> [u8; 2] { self.to_ne_bytes() } }
impl VxToBytes<4> for u32 { open spec fn nb(&self) -> nat { *self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> [u8; 4] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> [u8; 4] { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(&self) -> [u8; 4] { self.to_ne_bytes() } }
impl VxToBytes<4> for i32 { open spec fn nb(&self) -> nat { i32_bits(*self) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> [u8; 4] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> [u8; 4] { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(&self) -> [u8; 4] { self.to_ne_bytes() } }
impl VxToBytes<8> for u64 { open spec fn nb(&self) -> nat { *self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> [u8; 8] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> [u8; 8] { self.to_be_bytes() }
    #[verifier::external_body] fn vx_to_ne_bytes(&self) -> [u8; 8] { self.to_ne_bytes() } }
pub trait VxFromBytes<const N: usize>: Sized {
    spec fn fb(self) -> nat;
    fn vx_from_le_bytes(b: [u8; N]) -> (r: Self) ensures b@ == enc(false, r.fb(), N as nat);
    fn vx_from_be_bytes(b: [u8; N]) -> (r: Self) ensures b@ == enc(true, r.fb(), N as nat);
}
impl VxFromBytes<2> for u16 { open spec fn fb(self) -> nat { self as nat }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> Self { u16::from_le_bytes(b) }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> Self { u16::from_be_bytes(b) } }
impl VxFromBytes<4> for u32 { open spec fn fb(self) -> nat { self as nat }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> Self { u32::from_le_bytes(b) }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> Self { u32::from_be_bytes(b) } }
impl VxFromBytes<8> for u64 { open spec fn fb(self) -> nat { self as nat }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> Self { u64::from_le_bytes(b) }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> Self { u64::from_be_bytes(b) } }
impl VxFromBytes<4> for i32 { open spec fn fb(self) -> nat { i32_bits(self) }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> Self { i32::from_le_bytes(b) }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> Self { i32::from_be_bytes(b) } }
/// `buf[a..b].copy_from_slice(src)`
pub trait VxCopyRange {
    spec fn cur(&self) -> Seq<u8>;
    fn vx_copy_range(&mut self, a: usize, b: Option<usize>, src: &[u8])
        requires strict() ==> ({ let e = if b is Some { b->Some_0 as int } else { old(self).cur().len() as int }; a <= e <= old(self).cur().len() && src@.len() == e - a })
        ensures ({ let e = if b is Some { b->Some_0 as int } else { old(self).cur().len() as int };
            &&& a <= e <= old(self).cur().len() && src@.len() == e - a
            &&& final(self).cur() == old(self).cur().take(a as int) + src@ + old(self).cur().skip(e) });
}
impl<const N: usize> VxCopyRange for [u8; N] { open spec fn cur(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_copy_range(&mut self, a: usize, b: Option<usize>, src: &[u8]) { unimplemented!() } }
impl VxCopyRange for Vec<u8> { open spec fn cur(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_copy_range(&mut self, a: usize, b: Option<usize>, src: &[u8]) { unimplemented!() } }
pub trait VxExtend { fn vx_extend_from_slice(&mut self, s: &[u8]); }
impl VxExtend for Vec<u8> {
    #[verifier::external_body] fn vx_extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { self.extend_from_slice(s) } }
pub trait VxResize<T> { fn vx_resize(&mut self, n: usize, x: T); }
impl<T: Copy> VxResize<T> for Vec<T> {
    #[verifier::external_body] fn vx_resize(&mut self, n: usize, x: T)
        ensures final(self)@ == old(self)@.take(if n < old(self)@.len() { n as int } else { old(self)@.len() as int })
            + Seq::new(if n > old(self)@.len() { (n - old(self)@.len()) as nat } else { 0 }, |i: int| x)
    { self.resize(n, x) } }
pub trait VxRound: Sized {
    spec fn ri(self) -> int;
    spec fn rtop() -> int;
    fn vx_next_multiple_of(self, m: Self) -> (r: Self)
        requires m.ri() > 0, (self.ri() + m.ri() - 1) / m.ri() * m.ri() <= Self::rtop()
        ensures r.ri() == (self.ri() + m.ri() - 1) / m.ri() * m.ri();
    fn vx_div_ceil(self, m: Self) -> (r: Self)
        requires m.ri() > 0
        ensures r.ri() == (self.ri() + m.ri() - 1) / m.ri();
}
impl VxRound for usize { open spec fn ri(self) -> int { self as int } open spec fn rtop() -> int { usize::MAX as int }
    #[verifier::external_body] fn vx_next_multiple_of(self, m: Self) -> Self { self.next_multiple_of(m) }
    #[verifier::external_body] fn vx_div_ceil(self, m: Self) -> Self { self.div_ceil(m) } }
impl VxRound for u64 { open spec fn ri(self) -> int { self as int } open spec fn rtop() -> int { u64::MAX as int }
    #[verifier::external_body] fn vx_next_multiple_of(self, m: Self) -> Self { self.next_multiple_of(m) }
    #[verifier::external_body] fn vx_div_ceil(self, m: Self) -> Self { self.div_ceil(m) } }
impl VxRound for u32 { open spec fn ri(self) -> int { self as int } open spec fn rtop() -> int { u32::MAX as int }
    #[verifier::external_body] fn vx_next_multiple_of(self, m: Self) -> Self { self.next_multiple_of(m) }
    #[verifier::external_body] fn vx_div_ceil(self, m: Self) -> Self { self.div_ceil(m) } }

pub trait VxLen {
    spec fn vlen(&self) -> nat;
    /// no allocation is larger than isize::MAX bytes (the elements here are not zero-sized)
    spec fn allocated(&self) -> bool;
    fn vx_len(&self) -> (r: usize) ensures r == self.vlen(), self.allocated() ==> r as int <= isize::MAX as int;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vlen() == 0);
}
impl<T> VxLen for Vec<T> {
    open spec fn allocated(&self) -> bool { true }
    open spec fn vlen(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_len(&self) -> usize { proof { let _v = self.vlen(); } self.len() }
    fn vx_is_empty(&self) -> bool { proof { let _v = self.vlen(); } self.len() == 0 }
}
impl<T> VxLen for [T] {
    open spec fn allocated(&self) -> bool { true }
    open spec fn vlen(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_len(&self) -> usize { proof { let _v = self.vlen(); } self.len() }
    fn vx_is_empty(&self) -> bool { proof { let _v = self.vlen(); } self.len() == 0 }
}
impl<T, const N: usize> VxLen for [T; N] {
    open spec fn allocated(&self) -> bool { false }
    open spec fn vlen(&self) -> nat { N as nat }
    fn vx_len(&self) -> usize { proof { let _v = self.vlen(); } N }
    fn vx_is_empty(&self) -> bool { proof { let _v = self.vlen(); } N == 0 }
}
impl VxLen for str {
    open spec fn allocated(&self) -> bool { true }
    open spec fn vlen(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body]
    fn vx_len(&self) -> usize { self.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> bool { self.is_empty() }
}
impl VxLen for String {
    open spec fn allocated(&self) -> bool { true }
    open spec fn vlen(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body]
    fn vx_len(&self) -> usize { self.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> bool { self.is_empty() }
}
/// `.iter()`: the references to the elements, in order
pub trait VxIter { type E; spec fn elems(&self) -> Seq<Self::E>; fn vx_iter(&self) -> (r: Vec<&Self::E>) ensures r@.len() == self.elems().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.elems()[i]; }
impl<T> VxIter for Vec<T> { type E = T; open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> Vec<&T> { self.iter().collect() } }
impl<T> VxIter for [T] { type E = T; open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> Vec<&T> { self.iter().collect() } }
impl<T, const N: usize> VxIter for [T; N] { type E = T; open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> Vec<&T> { self.iter().collect() } }
pub trait VxToVec { type E; spec fn to_vec_(&self) -> Seq<Self::E>; fn vx_to_vec(&self) -> (r: Vec<Self::E>) ensures r@ == self.to_vec_(); }
impl<T: Copy> VxToVec for [T] { type E = T; open spec fn to_vec_(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> Vec<T> { self.to_vec() } }
/// by-value iteration over something that is already a list
pub trait VxIntoList: Sized { type E; fn vx_into_list(self) -> Vec<Self::E>; }
impl<T> VxIntoList for Vec<T> { type E = T; fn vx_into_list(self) -> (r: Vec<T>) ensures r@ == self@ { self } }
impl<T, const N: usize> VxIntoList for [T; N] { type E = T; fn vx_into_list(self) -> (r: Vec<T>) ensures r@ == self@ { vx_arr_to_vec(self) } }
impl<'a, T> VxIntoList for &'a Vec<T> { type E = &'a T; #[verifier::external_body] fn vx_into_list(self) -> (r: Vec<&'a T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { self.iter().collect() } }
impl<'a, T> VxIntoList for &'a [T] { type E = &'a T; #[verifier::external_body] fn vx_into_list(self) -> (r: Vec<&'a T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { self.iter().collect() } }
impl<'a, T, const N: usize> VxIntoList for &'a [T; N] { type E = &'a T; #[verifier::external_body] fn vx_into_list(self) -> (r: Vec<&'a T>) ensures r@.len() == N, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { self.iter().collect() } }

/// `.split(pred)` on slices
pub trait VxSplit<T> {
    spec fn whole(&self) -> Seq<T>;
    fn vx_split_by<F: Fn(&T) -> bool>(&self, f: F) -> (r: Vec<&[T]>)
        requires forall|x: &T| call_requires(f, (x,)),
        ensures
            r@.len() > 0,
            forall|p: spec_fn(T) -> bool| #[trigger] pred(p) && (forall|x: &T, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == p(*x))
                ==> pieces(r@, split_at_all(self.whole(), p)) && r@[0]@ == self.whole().take(first_pos(self.whole(), p));
    fn vx_position_by<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|x: &T| call_requires(f, (x,)),
        ensures
            forall|p: spec_fn(T) -> bool| #[trigger] pred(p) && (forall|x: &T, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == p(*x))
                ==> (match r { Some(k) => k == first_pos(self.whole(), p) && k < self.whole().len(), None => first_pos(self.whole(), p) == self.whole().len() });
}
pub open spec fn pieces<T>(r: Seq<&[T]>, s: Seq<Seq<T>>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == s[i] }
impl<T> VxSplit<T> for [T] {
    open spec fn whole(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_split_by<F: Fn(&T) -> bool>(&self, f: F) -> Vec<&[T]> { unimplemented!() }
    #[verifier::external_body]
    fn vx_position_by<F: Fn(&T) -> bool>(&self, f: F) -> Option<usize> { unimplemented!() }
}
impl<T> VxSplit<T> for Vec<T> {
    open spec fn whole(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_split_by<F: Fn(&T) -> bool>(&self, f: F) -> Vec<&[T]> { unimplemented!() }
    #[verifier::external_body]
    fn vx_position_by<F: Fn(&T) -> bool>(&self, f: F) -> Option<usize> { unimplemented!() }
}
pub trait VxFront {
    fn vx_front_write_u32<E: ByteOrder>(&mut self, n: u32) -> Result<(), IoError>;
}
impl<const N: usize> VxFront for [u8; N] {
    #[verifier::external_body]
    fn vx_front_write_u32<E: ByteOrder>(&mut self, n: u32) -> (r: Result<(), IoError>)
        ensures r is Ok <==> N >= 4, r is Ok ==> final(self)@ == enc(E::big(), n as nat, 4) + old(self)@.skip(4),
            N == 4 ==> final(self)@ == enc(E::big(), n as nat, 4)
    { unimplemented!() }
}
pub trait VxAscii { spec fn is_asc(&self) -> bool; fn vx_is_ascii(&self) -> (r: bool) ensures r == self.is_asc(); }
impl VxAscii for str { open spec fn is_asc(&self) -> bool { ascii(self@) } #[verifier::external_body] fn vx_is_ascii(&self) -> bool { self.is_ascii() } }
impl VxAscii for String { open spec fn is_asc(&self) -> bool { ascii(self@) } #[verifier::external_body] fn vx_is_ascii(&self) -> bool { self.is_ascii() } }
impl VxAscii for char { open spec fn is_asc(&self) -> bool { ascii_char(*self) } fn vx_is_ascii(&self) -> bool { proof { let _v = self.is_asc(); } (*self as u32) <= 127 } }
impl VxAscii for u8 { open spec fn is_asc(&self) -> bool { ascii_byte(*self) } fn vx_is_ascii(&self) -> bool { proof { let _v = self.is_asc(); } *self <= 127 } }
pub trait VxChars { fn vx_chars(&self) -> Vec<char>; }
impl VxChars for str { #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { self.chars().collect() } }
pub trait VxStrBytes { fn vx_bytes(&self) -> Vec<u8>; }
impl VxStrBytes for str { #[verifier::external_body] fn vx_bytes(&self) -> (r: Vec<u8>) ensures r@ == encode_utf8(self@) { self.bytes().collect() } }
pub trait VxStartsWith<T> { spec fn whole_(&self) -> Seq<T>; 
    fn vx_starts_with_seq(&self, p: &[T]) -> (r: bool) ensures r == p@.is_prefix_of(self.whole_());
    fn vx_ends_with_seq(&self, p: &[T]) -> (r: bool) ensures r == p@.is_suffix_of(self.whole_()); }
impl VxStartsWith<u8> for Vec<u8> { open spec fn whole_(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_starts_with_seq(&self, p: &[u8]) -> bool { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with_seq(&self, p: &[u8]) -> bool { self.ends_with(p) } }
impl VxStartsWith<u8> for [u8] { open spec fn whole_(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_starts_with_seq(&self, p: &[u8]) -> bool { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with_seq(&self, p: &[u8]) -> bool { self.ends_with(p) } }
}
}
