// ---------------------------------------------------------------------------
// Model of the text functions of std (str, String, char, BufRead).
// ---------------------------------------------------------------------------
pub mod vxs {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vx::*;

/// the characters `char::is_whitespace` accepts
pub uninterp spec fn ws(c: char) -> bool;
pub open spec fn ascii_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_ws() -> spec_fn(char) -> bool { |c: char| ws(c) }
pub open spec fn is_ch(x: char) -> spec_fn(char) -> bool { |c: char| c == x }
pub open spec fn not(p: spec_fn(char) -> bool) -> spec_fn(char) -> bool { |c: char| !p(c) }

/// std documents White_Space; among ASCII: tab to carriage return, and space
pub broadcast axiom fn ws_ascii(c: char)
    requires c as int <= 127
    ensures #[trigger] ws(c) == (c == ' ' || (9 <= c as int <= 13));

/// s without its longest prefix of characters with p
pub open spec fn skip_while(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> { s.skip(first_pos(s, not(p))) }
/// s without its longest suffix of characters with p
pub open spec fn drop_while(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && p(s.last()) { drop_while(s.drop_last(), p) } else { s }
}
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { drop_while(skip_while(s, is_ws()), is_ws()) }
/// the maximal pieces without white space
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let t = skip_while(s, is_ws());
    if t.len() == 0 || t.len() > s.len() { seq![] } else {
        let k = first_pos(t, is_ws());
        if 0 < k <= t.len() { seq![t.take(k)] + words(t.skip(k)) } else { seq![] }
    }
}
/// position of the first occurrence of p in s, or -1
pub open spec fn find(s: Seq<char>, p: Seq<char>) -> int decreases s.len() {
    if p.is_prefix_of(s) { 0 } else if s.len() == 0 { -1 } else { let k = find(s.skip(1), p); if k < 0 { -1 } else { k + 1 } }
}

// ----------------------------------------------------------------- numbers
pub open spec fn digit(c: char, radix: int) -> int {
    let d = if '0' <= c && c <= '9' { c as int - '0' as int }
        else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
        else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 }
        else { radix };
    if d < radix { d } else { -1 }
}
pub open spec fn all_digits(s: Seq<char>, radix: int) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i], radix) >= 0 }
pub open spec fn digits_val(s: Seq<char>, radix: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { digits_val(s.drop_last(), radix) * radix + digit(s.last(), radix) }
}
/// the number std reads: digits after an optional plus sign
pub open spec fn number(s: Seq<char>, radix: int) -> Option<int> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if t.len() > 0 && all_digits(t, radix) { Some(digits_val(t, radix)) } else { None }
}
pub struct ParseIntError { pub e: u8 }
pub struct TryFromIntError { pub e: u8 }
pub trait VxFromStrRadix: Sized {
    spec fn radix_top() -> int;
    spec fn int_(self) -> int;
    fn vx_from_str_radix(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>)
        requires 2 <= radix <= 36
        ensures
            r is Ok <==> number(s@, radix as int) is Some && number(s@, radix as int)->Some_0 <= Self::radix_top(),
            r is Ok ==> number(s@, radix as int) == Some(r->Ok_0.int_());
}
impl VxFromStrRadix for u64 { open spec fn radix_top() -> int { u64::MAX as int } open spec fn int_(self) -> int { self as int }
    #[verifier::external_body] fn vx_from_str_radix(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>) { unimplemented!() } }
impl VxFromStrRadix for u32 { open spec fn radix_top() -> int { u32::MAX as int } open spec fn int_(self) -> int { self as int }
    #[verifier::external_body] fn vx_from_str_radix(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>) { unimplemented!() } }
impl VxFromStrRadix for u16 { open spec fn radix_top() -> int { u16::MAX as int } open spec fn int_(self) -> int { self as int }
    #[verifier::external_body] fn vx_from_str_radix(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>) { unimplemented!() } }
impl VxFromStrRadix for u8 { open spec fn radix_top() -> int { u8::MAX as int } open spec fn int_(self) -> int { self as int }
    #[verifier::external_body] fn vx_from_str_radix(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>) { unimplemented!() } }
pub trait VxTryFrom<T>: Sized {
    spec fn fits(t: T) -> bool;
    spec fn conv(t: T) -> Self;
    fn vx_try_from(t: T) -> (r: Result<Self, TryFromIntError>)
        ensures r is Ok <==> Self::fits(t), r is Ok ==> r->Ok_0 == Self::conv(t);
}
impl VxTryFrom<u64> for u32 { open spec fn fits(t: u64) -> bool { t <= u32::MAX } open spec fn conv(t: u64) -> Self { t as u32 }
    fn vx_try_from(t: u64) -> (r: Result<Self, TryFromIntError>) { proof { let _ = (Self::fits(t), Self::conv(t)); } if t <= 0xffff_ffff { Ok(t as u32) } else { Err(TryFromIntError { e: 0 }) } } }
impl VxTryFrom<u64> for u16 { open spec fn fits(t: u64) -> bool { t <= u16::MAX } open spec fn conv(t: u64) -> Self { t as u16 }
    fn vx_try_from(t: u64) -> (r: Result<Self, TryFromIntError>) { proof { let _ = (Self::fits(t), Self::conv(t)); } if t <= 0xffff { Ok(t as u16) } else { Err(TryFromIntError { e: 0 }) } } }
impl VxTryFrom<u64> for u8 { open spec fn fits(t: u64) -> bool { t <= u8::MAX } open spec fn conv(t: u64) -> Self { t as u8 }
    fn vx_try_from(t: u64) -> (r: Result<Self, TryFromIntError>) { proof { let _ = (Self::fits(t), Self::conv(t)); } if t <= 0xff { Ok(t as u8) } else { Err(TryFromIntError { e: 0 }) } } }

// ----------------------------------------------------------------- strings
/// `split_whitespace()`: `rest()` are the words still to come
#[verifier::external_body]
pub struct Words<'a> { it: std::str::SplitWhitespace<'a> }
impl<'a> Words<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && r->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { self.it.next() }
    #[verifier::external_body]
    pub fn vx_list(self) -> (r: Vec<&'a str>)
        ensures r@.len() == self.rest().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.rest()[i]
    { self.it.collect() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rest().len() { self.it.count() }
}
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.sv());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == skip_while(self.sv(), is_ws());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == drop_while(self.sv(), is_ws());
    fn vx_split_whitespace<'a>(&'a self) -> (r: Words<'a>) ensures r.rest() == words(self.sv());
    fn vx_split_once_char<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>)
        ensures ({ let k = first_pos(self.sv(), is_ch(c));
            &&& r is Some <==> k < self.sv().len()
            &&& r is Some ==> r->Some_0.0@ == self.sv().take(k) && r->Some_0.1@ == self.sv().skip(k + 1) });
    fn vx_split_once_str<'a>(&'a self, p: &str) -> (r: Option<(&'a str, &'a str)>)
        ensures ({ let k = find(self.sv(), p@);
            &&& r is Some <==> k >= 0
            &&& r is Some ==> r->Some_0.0@ == self.sv().take(k) && r->Some_0.1@ == self.sv().skip(k + p@.len()) });
    fn vx_split_once_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: Option<(&'a str, &'a str)>)
        requires forall|c: char| call_requires(f, (c,)),
        ensures forall|p: spec_fn(char) -> bool| #[trigger] pred(p) && (forall|c: char, b: bool| #[trigger] call_ensures(f, (c,), b) ==> b == p(c))
            ==> ({ let k = first_pos(self.sv(), p);
            &&& r is Some <==> k < self.sv().len()
            &&& r is Some ==> r->Some_0.0@ == self.sv().take(k) && r->Some_0.1@ == self.sv().skip(k + 1) });
    fn vx_trim_start_matches_char(&self, c: char) -> (r: &str) ensures r@ == skip_while(self.sv(), is_ch(c));
    fn vx_trim_end_matches_char(&self, c: char) -> (r: &str) ensures r@ == drop_while(self.sv(), is_ch(c));
    fn vx_trim_start_matches_by<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| call_requires(f, (c,)),
        ensures forall|p: spec_fn(char) -> bool| #[trigger] pred(p) && (forall|c: char, b: bool| #[trigger] call_ensures(f, (c,), b) ==> b == p(c))
            ==> r@ == skip_while(self.sv(), p);
    fn vx_trim_end_matches_by<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| call_requires(f, (c,)),
        ensures forall|p: spec_fn(char) -> bool| #[trigger] pred(p) && (forall|c: char, b: bool| #[trigger] call_ensures(f, (c,), b) ==> b == p(c))
            ==> r@ == drop_while(self.sv(), p);
    fn vx_strip_prefix_char<'a>(&'a self, c: char) -> (r: Option<&'a str>)
        ensures r is Some <==> self.sv().len() > 0 && self.sv()[0] == c, r is Some ==> r->Some_0@ == self.sv().skip(1);
    fn vx_strip_prefix_str<'a>(&'a self, p: &str) -> (r: Option<&'a str>)
        ensures r is Some <==> p@.is_prefix_of(self.sv()), r is Some ==> r->Some_0@ == self.sv().skip(p@.len() as int);
    fn vx_strip_suffix_char<'a>(&'a self, c: char) -> (r: Option<&'a str>)
        ensures r is Some <==> self.sv().len() > 0 && self.sv().last() == c, r is Some ==> r->Some_0@ == self.sv().drop_last();
    fn vx_starts_with_char(&self, c: char) -> (r: bool) ensures r == (self.sv().len() > 0 && self.sv()[0] == c);
    fn vx_starts_with_str(&self, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(self.sv());
    fn vx_ends_with_char(&self, c: char) -> (r: bool) ensures r == (self.sv().len() > 0 && self.sv().last() == c);
    fn vx_ends_with_str(&self, p: &str) -> (r: bool) ensures r == p@.is_suffix_of(self.sv());
    fn vx_contains_char(&self, c: char) -> (r: bool) ensures r == self.sv().contains(c);
    fn vx_contains_str(&self, p: &str) -> (r: bool) ensures r == (find(self.sv(), p@) >= 0);
    /// the first piece of `split(c)`
    fn vx_split_head<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == self.sv().take(first_pos(self.sv(), is_ch(c)));
    fn vx_split_at<'a>(&'a self, k: usize) -> (r: (&'a str, &'a str))
        requires strict() ==> exists|n: int| 0 <= n <= self.sv().len() && #[trigger] encode_utf8(self.sv().take(n)).len() == k
        ensures
            r.0@ + r.1@ == self.sv(), encode_utf8(r.0@).len() == k,
            forall|n: int| 0 <= n <= self.sv().len() && #[trigger] encode_utf8(self.sv().take(n)).len() == k ==> r.0@ == self.sv().take(n) && r.1@ == self.sv().skip(n);
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> &str { self.trim() }
    #[verifier::external_body] fn vx_trim_start(&self) -> &str { self.trim_start() }
    #[verifier::external_body] fn vx_trim_end(&self) -> &str { self.trim_end() }
    #[verifier::external_body] fn vx_split_whitespace<'a>(&'a self) -> Words<'a> { Words { it: self.split_whitespace() } }
    #[verifier::external_body] fn vx_split_once_char<'a>(&'a self, c: char) -> Option<(&'a str, &'a str)> { self.split_once(c) }
    #[verifier::external_body] fn vx_split_once_str<'a>(&'a self, p: &str) -> Option<(&'a str, &'a str)> { self.split_once(p) }
    #[verifier::external_body] fn vx_split_once_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> Option<(&'a str, &'a str)> { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches_char(&self, c: char) -> &str { self.trim_start_matches(c) }
    #[verifier::external_body] fn vx_trim_end_matches_char(&self, c: char) -> &str { self.trim_end_matches(c) }
    #[verifier::external_body] fn vx_trim_start_matches_by<F: Fn(char) -> bool>(&self, f: F) -> &str { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches_by<F: Fn(char) -> bool>(&self, f: F) -> &str { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix_char<'a>(&'a self, c: char) -> Option<&'a str> { self.strip_prefix(c) }
    #[verifier::external_body] fn vx_strip_prefix_str<'a>(&'a self, p: &str) -> Option<&'a str> { self.strip_prefix(p) }
    #[verifier::external_body] fn vx_strip_suffix_char<'a>(&'a self, c: char) -> Option<&'a str> { self.strip_suffix(c) }
    #[verifier::external_body] fn vx_starts_with_char(&self, c: char) -> bool { self.starts_with(c) }
    #[verifier::external_body] fn vx_starts_with_str(&self, p: &str) -> bool { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with_char(&self, c: char) -> bool { self.ends_with(c) }
    #[verifier::external_body] fn vx_ends_with_str(&self, p: &str) -> bool { self.ends_with(p) }
    #[verifier::external_body] fn vx_contains_char(&self, c: char) -> bool { self.contains(c) }
    #[verifier::external_body] fn vx_contains_str(&self, p: &str) -> bool { self.contains(p) }
    #[verifier::external_body] fn vx_split_head<'a>(&'a self, c: char) -> &'a str { self.split(c).next().unwrap() }
    #[verifier::external_body] fn vx_split_at<'a>(&'a self, k: usize) -> (&'a str, &'a str) { self.split_at(k) }
}
pub trait VxChar { spec fn cv(&self) -> char; fn vx_is_whitespace(&self) -> (r: bool) ensures r == ws(self.cv()); fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == ascii_digit(self.cv()); }
impl VxChar for char { open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn vx_is_whitespace(&self) -> bool { self.is_whitespace() }
    #[verifier::external_body] fn vx_is_ascii_digit(&self) -> bool { self.is_ascii_digit() } }

// ------------------------------------------------------------ buffered input
/// what a source still has to deliver
pub open spec fn left<R: Read>(r: &R) -> Seq<u8> { r.stream().skip(r.taken().len() as int) }
/// `Read`, where it is only used to be buffered
pub trait Source { spec fn todo_(&self) -> Seq<u8>; }
impl<R: Read> Source for &mut R { open spec fn todo_(&self) -> Seq<u8> { left::<R>(*self) } }
/// the length of the first line of b, its newline included
pub open spec fn line_len(b: Seq<u8>) -> int { let k = first_pos(b, |x: u8| x == 10); if k < b.len() { k + 1 } else { k } }
#[verifier::accept_recursive_types(R)]
#[verifier::external_body]
pub struct BufReader<R> { r: R }
impl<R: Source> BufReader<R> {
    pub uninterp spec fn todo(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(r: R) -> (b: Self) ensures b.todo() == r.todo_() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_line(&mut self, buf: &mut String) -> (r: Result<usize, IoError>)
        ensures
            r is Ok ==> ({ let n = line_len(old(self).todo());
                &&& r->Ok_0 == n
                &&& valid_utf8(old(self).todo().take(n))
                &&& final(buf)@ == old(buf)@ + decode_utf8(old(self).todo().take(n))
                &&& final(self).todo() == old(self).todo().skip(n) }),
            strict() && valid_utf8(old(self).todo().take(line_len(old(self).todo()))) ==> r is Ok,
    { unimplemented!() }
}
}
