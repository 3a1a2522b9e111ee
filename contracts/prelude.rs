// ======================================================================
// Shim of the standard library and of the external crates. Every function
// marked external_body here is a trusted contract on std or a dependency.
// ======================================================================
pub mod sh {
use ::vstd::prelude::*;
use core::marker::Sized;

// ---------------------------------------------------------------- bytes
//@lex
pub open spec fn is_cont(b: u8) -> bool { 0x80 <= b && b < 0xC0 }
pub open spec fn boundary(s: Seq<u8>, i: int) -> bool {
    i == 0 || i == s.len() || (0 < i && i < s.len() && !is_cont(s[i]))
}
/// `m` continuation bytes and then the end of a character
pub open spec fn at8(s: Seq<u8>, i: int, m: int) -> bool {
    0 <= m <= 3 && 0 <= i && i + m <= s.len() && (forall|j: int| i <= j < i + m ==> is_cont(#[trigger] s[j])) && boundary(s, i + m)
}
/// what the first byte of a character says about its length
#[verifier::opaque]
pub open spec fn utf8(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() && !is_cont(#[trigger] s[i]) ==>
        s[i] < 248 && at8(s, i + 1, if s[i] < 128 { 0 } else if s[i] < 224 { 1 } else if s[i] < 240 { 2 } else { 3 })
}
/// consequences of UTF-8 validity: a continuation byte never follows an ASCII byte and never comes first, and `utf8`
pub open spec fn wf(s: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && is_cont(#[trigger] s[i]) ==> i > 0 && s[i - 1] >= 0x80
    &&& utf8(s)
}
//@end
pub uninterp spec fn code(s: Seq<u8>) -> int;
pub uninterp spec fn upper(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lower(s: Seq<u8>) -> Seq<u8>;
/// the upper case of ASCII text
pub axiom fn ax_upper_ascii(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128
    ensures upper(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] upper(s)[i] == (if 97 <= s[i] && s[i] <= 122 { (s[i] - 32) as u8 } else { s[i] });
/// the lower case of ASCII text
pub axiom fn ax_lower_ascii(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128
    ensures lower(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] lower(s)[i] == (if 65 <= s[i] && s[i] <= 90 { (s[i] + 32) as u8 } else { s[i] });
pub uninterp spec fn cbytes(c: char) -> Seq<u8>;
pub broadcast axiom fn ax_cbytes(c: char)
    ensures (c as u32) < 128 ==> #[trigger] cbytes(c) == seq![c as u8],
        (c as u32) >= 128 ==> cbytes(c).len() >= 2 && !is_cont(cbytes(c)[0]) && forall|i: int| 0 <= i < cbytes(c).len() ==> cbytes(c)[i] >= 0x80;
pub broadcast axiom fn ax_str_wf(s: &str) ensures wf(#[trigger] s@);
pub broadcast axiom fn ax_string_wf(s: String) ensures wf(#[trigger] s@);
pub broadcast axiom fn ax_str_len(s: &str) ensures (#[trigger] s@).len() <= isize::MAX;
pub broadcast axiom fn ax_string_len(s: String) ensures (#[trigger] s@).len() <= isize::MAX;
pub broadcast proof fn ax_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn ax_empty_l(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a
{ assert((Seq::<u8>::empty() + a) =~= a); }
pub broadcast proof fn ax_empty_r(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a
{ assert((a + Seq::<u8>::empty()) =~= a); }
/// without the rewriting of sequence sums
pub broadcast group group_lite { ax_cbytes, ax_str_wf, ax_string_wf, ax_str_len, ax_string_len, ax_empty_l, ax_empty_r, ax_it_start, ax_it_step }
pub broadcast group group_sh { ax_cbytes, ax_str_wf, ax_string_wf, ax_str_len, ax_string_len, ax_assoc, ax_empty_l, ax_empty_r, ax_it_start, ax_it_step, ax_index_b, ax_first, ax_none, ax_splitn2 }

// ---------------------------------------------------------------- strings
#[verifier::external_body]
pub struct String { s: std::string::String }
#[verifier::external_body]
pub struct str { s: std::primitive::str }
impl View for String { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl core::ops::Deref for String {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl core::clone::Clone for String {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait StrLike { spec fn sv(&self) -> Seq<u8>; }
impl StrLike for str { open spec fn sv(&self) -> Seq<u8> { self@ } }
impl StrLike for String { open spec fn sv(&self) -> Seq<u8> { self@ } }
impl<T: StrLike + ?Sized> StrLike for &T { open spec fn sv(&self) -> Seq<u8> { (**self).sv() } }
impl<'a> StrLike for borrow::Cow<'a, str> { open spec fn sv(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn str_eq<A: StrLike + ?Sized, B: StrLike + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.sv() == b.sv())
{ unimplemented!() }
#[verifier::external_body]
pub fn opt_str_eq<A: StrLike + ?Sized, B: StrLike + ?Sized>(a: Option<&A>, b: Option<&B>) -> (r: bool)
    ensures r == ((a is None && b is None) || (a is Some && b is Some && a->0.sv() == b->0.sv()))
{ unimplemented!() }
#[verifier::external_body]
pub fn val_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

pub open spec fn occurs(s: Seq<u8>, t: Seq<u8>, i: int) -> bool {
    0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t
}
/// `std::str::Pattern` for the pattern types in use.
pub trait Pattern: Sized {
    spec fn at(&self, s: Seq<u8>, i: int) -> bool;
    spec fn plen(&self) -> int;
    spec fn none(&self, s: Seq<u8>) -> bool;
    spec fn first(&self, s: Seq<u8>, p: int) -> bool;
}
impl Pattern for char {
    open spec fn at(&self, s: Seq<u8>, i: int) -> bool {
        if (*self as u32) < 128 { 0 <= i && i < s.len() && s[i] == *self as u8 } else { occurs(s, cbytes(*self), i) }
    }
    open spec fn plen(&self) -> int { cbytes(*self).len() as int }
    open spec fn none(&self, s: Seq<u8>) -> bool {
        if (*self as u32) < 128 { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != *self as u8 } else { forall|i: int| !#[trigger] occurs(s, cbytes(*self), i) }
    }
    open spec fn first(&self, s: Seq<u8>, p: int) -> bool {
        if (*self as u32) < 128 { 0 <= p && p < s.len() && s[p] == *self as u8 && forall|i: int| 0 <= i < p ==> #[trigger] s[i] != *self as u8 }
        else { occurs(s, cbytes(*self), p) && forall|i: int| i < p ==> !#[trigger] occurs(s, cbytes(*self), i) }
    }
}
impl Pattern for &str {
    open spec fn at(&self, s: Seq<u8>, i: int) -> bool { occurs(s, self@, i) }
    open spec fn plen(&self) -> int { self@.len() as int }
    open spec fn none(&self, s: Seq<u8>) -> bool { forall|i: int| !#[trigger] occurs(s, self@, i) }
    open spec fn first(&self, s: Seq<u8>, p: int) -> bool { occurs(s, self@, p) && forall|i: int| i < p ==> !#[trigger] occurs(s, self@, i) }
}
impl Pattern for [char; 2] {
    open spec fn at(&self, s: Seq<u8>, i: int) -> bool { self@[0].at(s, i) || self@[1].at(s, i) }
    open spec fn plen(&self) -> int { 1 }
    open spec fn none(&self, s: Seq<u8>) -> bool { self@[0].none(s) && self@[1].none(s) }
    open spec fn first(&self, s: Seq<u8>, p: int) -> bool {
        (self@[0].at(s, p) || self@[1].at(s, p)) && forall|i: int| 0 <= i < p ==> !#[trigger] self.at(s, i)
    }
}
pub open spec fn split_b(s: Seq<u8>, b: u8) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<u8>::empty()] }
    else if s[0] == b { seq![Seq::<u8>::empty()] + split_b(s.drop_first(), b) }
    else { let t = split_b(s.drop_first(), b); t.update(0, seq![s[0]] + t[0]) }
}
pub open spec fn index_b(s: Seq<u8>, b: u8) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == b { 0 } else { 1 + index_b(s.drop_first(), b) }
}
pub broadcast proof fn ax_index_b(s: Seq<u8>, b: u8)
    ensures 0 <= #[trigger] index_b(s, b) <= s.len(), index_b(s, b) < s.len() ==> s[index_b(s, b)] == b,
        forall|i: int| 0 <= i < index_b(s, b) ==> s[i] != b
    decreases s.len()
{
    if s.len() > 0 && s[0] != b {
        ax_index_b(s.drop_first(), b);
        assert forall|i: int| 0 <= i < index_b(s, b) implies s[i] != b by { if i > 0 { assert(s.drop_first()[i - 1] != b); } }
    }
}
pub broadcast proof fn ax_first(c: char, s: Seq<u8>, p: int)
    ensures #[trigger] c.first(s, p) && (c as u32) < 128 ==> index_b(s, c as u8) == p
{ ax_index_b(s, c as u8); }
pub broadcast proof fn ax_none(c: char, s: Seq<u8>)
    ensures #[trigger] c.none(s) && (c as u32) < 128 ==> index_b(s, c as u8) == s.len()
{ ax_index_b(s, c as u8); }
pub broadcast proof fn ax_splitn2(s: Seq<u8>, b: u8)
    ensures #[trigger] splitn_b(s, 2, b) == (if index_b(s, b) >= s.len() { seq![s] } else { seq![s.take(index_b(s, b)), s.skip(index_b(s, b) + 1)] })
{
    let k = index_b(s, b);
    if k < s.len() {
        assert(splitn_b(s.skip(k + 1), 1, b) == seq![s.skip(k + 1)]);
        assert(seq![s.take(k)] + seq![s.skip(k + 1)] =~= seq![s.take(k), s.skip(k + 1)]);
    }
}
pub open spec fn splitn_b(s: Seq<u8>, n: nat, b: u8) -> Seq<Seq<u8>> decreases n {
    if n == 0 { Seq::empty() } else if n == 1 { seq![s] }
    else { let k = index_b(s, b); if k >= s.len() { seq![s] } else { seq![s.take(k)] + splitn_b(s.skip(k + 1), (n - 1) as nat, b) } }
}
/// the characters of a text, each as its own text
pub uninterp spec fn chars_of(s: Seq<u8>) -> Seq<Seq<u8>>;
pub axiom fn ax_chars_of(s: Seq<u8>)
    ensures join_b(chars_of(s), Seq::empty()) == s,
        forall|i: int| 0 <= i < chars_of(s).len() ==> (#[trigger] chars_of(s)[i]).len() > 0,
        s.len() == 0 ==> chars_of(s).len() == 0,
        s.len() > 0 && s[0] < 128 ==> chars_of(s) == seq![seq![s[0]]] + chars_of(s.drop_first());
pub open spec fn svs<T: StrLike>(v: Seq<T>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].sv()) }
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<u8>> { v.map_values(|x: &str| x@) }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|x: String| x@) }

impl str {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_uppercase(&self) -> (r: String) ensures r@ == upper(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_lowercase(&self) -> (r: String) ensures r@ == lower(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find<P: Pattern>(&self, p: P) -> (r: Option<usize>)
        ensures r is None ==> p.none(self@), r is Some ==> p.first(self@, r->0 as int) && r->0 + p.plen() <= self@.len() && boundary(self@, r->0 as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: Pattern>(&self, p: P) -> (r: bool) ensures r == p.at(self@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<P: Pattern>(&self, p: P) -> (r: bool) ensures r == p.at(self@, self@.len() - p.plen()) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: Pattern>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> p.at(self@, 0), r is Some ==> r->0@ == self@.skip(p.plen())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_suffix<P: Pattern>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> p.at(self@, self@.len() - p.plen()), r is Some ==> r->0@ == self@.take(self@.len() - p.plen())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&self, c: char) -> (r: VecIter<&str>)
        requires (c as u32) < 128
        ensures views(r@) == split_b(self@, c as u8), r@.len() == split_b(self@, c as u8).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_b(self@, c as u8)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_split_chars(&self) -> (r: Vec<&str>)
        ensures r@.len() == chars_of(self@).len() + 2, r@[0]@.len() == 0, r@[r@.len() - 1]@.len() == 0,
            forall|i: int| 0 < i < r@.len() - 1 ==> (#[trigger] r@[i])@ == chars_of(self@)[i - 1]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn splitn(&self, n: usize, c: char) -> (r: VecIter<&str>)
        requires (c as u32) < 128
        ensures views(r@) == splitn_b(self@, n as nat, c as u8), r@.len() == splitn_b(self@, n as nat, c as u8).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splitn_b(self@, n as nat, c as u8)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: Chars) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, c: char, with: &str) -> (r: String)
        requires (c as u32) < 128
        ensures r@ == replace_b(self@, c as u8, with@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: str_::FromStr>(&self) -> (r: core::result::Result<T, T::Err>) ensures T::post(self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_from(&self, a: usize) -> (r: &str)
        requires a <= self@.len(), boundary(self@, a as int)
        ensures r@ == self@.skip(a as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to(&self, z: usize) -> (r: &str)
        requires z <= self@.len(), boundary(self@, z as int)
        ensures r@ == self@.take(z as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_range(&self, a: usize, z: usize) -> (r: &str)
        requires a <= z <= self@.len(), boundary(self@, a as int), boundary(self@, z as int)
        ensures r@ == self@.subrange(a as int, z as int)
    { unimplemented!() }
}
pub open spec fn replace_b(s: Seq<u8>, b: u8, w: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s[0] == b { w + replace_b(s.drop_first(), b, w) } else { seq![s[0]] + replace_b(s.drop_first(), b, w) }
}
impl String {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@ + cbytes(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
/// `std::str::Chars`; the view is what is left of the text.
#[verifier::external_body]
pub struct Chars<'a> { s: &'a u8 }
impl<'a> View for Chars<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> Chars<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@,
            r is Some ==> old(self)@ == cbytes(r->0) + final(self)@
    { unimplemented!() }
}

// ---------------------------------------------------------------- conversions
pub mod str_ {
    use ::vstd::prelude::*;
    use super::str;
    /// `std::str::FromStr`; `post` is the contract of the implementation.
    pub trait FromStr: core::marker::Sized {
        type Err;
        spec fn post(s: Seq<u8>, r: core::result::Result<Self, Self::Err>) -> bool;
        fn from_str(s: &str) -> (r: core::result::Result<Self, Self::Err>) ensures Self::post(s@, r);
    }
}
pub trait From<T>: Sized {
    spec fn from_post(v: T, r: Self) -> bool;
    fn vx_from(v: T) -> (r: Self) ensures Self::from_post(v, r);
}
pub trait Into<T>: Sized {
    spec fn into_post(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.into_post(r);
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn into_post(self, r: U) -> bool { U::from_post(self, r) }
    fn vx_into(self) -> (r: U) { U::vx_from(self) }
}
pub trait TryFrom<T>: Sized {
    type Error;
    spec fn try_post(v: T, r: core::result::Result<Self, Self::Error>) -> bool;
    /// what a caller has to know before calling (the conversion panics otherwise)
    open spec fn try_pre(v: T) -> bool { true }
    fn vx_try_from(v: T) -> (r: core::result::Result<Self, Self::Error>) requires Self::try_pre(v) ensures Self::try_post(v, r);
}
/// the text of a borrowed value
pub trait Txt { spec fn txt(&self) -> Seq<u8>; }
impl Txt for str { open spec fn txt(&self) -> Seq<u8> { self@ } }
pub trait AsRef<T: ?Sized + Txt> {
    spec fn ar(&self) -> Seq<u8>;
    spec fn ar_is(&self, r: &T) -> bool;
    fn as_ref(&self) -> (r: &T) ensures r.txt() == self.ar(), self.ar_is(r);
}
impl AsRef<str> for &str {
    open spec fn ar(&self) -> Seq<u8> { (*self)@ }
    open spec fn ar_is(&self, r: &str) -> bool { r@ == (*self)@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl AsRef<str> for String {
    open spec fn ar(&self) -> Seq<u8> { self@ }
    open spec fn ar_is(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl From<&str> for String {
    open spec fn from_post(v: &str, r: Self) -> bool { r@ == v@ }
    #[verifier::external_body]
    fn vx_from(v: &str) -> (r: Self) { unimplemented!() }
}
pub trait VxDefault: Sized { spec fn dpost(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::dpost(r); }
impl VxDefault for String {
    open spec fn dpost(r: Self) -> bool { r@ == Seq::<u8>::empty() }
    fn vx_default() -> (r: Self) { String::new() }
}
impl VxDefault for usize { open spec fn dpost(r: Self) -> bool { r == 0 } fn vx_default() -> (r: Self) { 0 } }
impl VxDefault for u8 { open spec fn dpost(r: Self) -> bool { r == 0 } fn vx_default() -> (r: Self) { 0 } }
impl VxDefault for bool { open spec fn dpost(r: Self) -> bool { !r } fn vx_default() -> (r: Self) { false } }
impl<T> VxDefault for Vec<T> { open spec fn dpost(r: Self) -> bool { r@ == Seq::<T>::empty() } fn vx_default() -> (r: Self) { Vec::new() } }
impl<T> VxDefault for Option<T> { open spec fn dpost(r: Self) -> bool { r is None } fn vx_default() -> (r: Self) { None } }
/// receivers of unwrap_or, unwrap_or_else and unwrap_or_default
pub trait VxOr: Sized { type T; spec fn or_opt(self) -> Option<Self::T>; fn vx_opt(self) -> (r: Option<Self::T>) ensures r == self.or_opt(); }
impl<T> VxOr for Option<T> { type T = T; open spec fn or_opt(self) -> Option<T> { self } fn vx_opt(self) -> (r: Option<T>) { self } }
impl<T, E> VxOr for core::result::Result<T, E> {
    type T = T;
    open spec fn or_opt(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn vx_opt(self) -> (r: Option<T>) { match self { Ok(v) => Some(v), Err(_) => None } }
}
pub fn vx_default<T: VxDefault>() -> (r: T) ensures T::dpost(r) { T::vx_default() }

pub uninterp spec fn int_text(i: int) -> Seq<u8>;
pub uninterp spec fn float_text(f: f64) -> Seq<u8>;
pub uninterp spec fn float_parse(s: Seq<u8>) -> Option<f64>;
/// decimal integers as accepted by `i64::from_str` and friends, before the range check
pub uninterp spec fn int_parse(s: Seq<u8>) -> Option<int>;
/// printing an integer and parsing it back; the text never contains a comma, dot or semicolon
pub axiom fn ax_int(i: int) ensures int_parse(int_text(i)) == Some(i), forall|k: int| 0 <= k < int_text(i).len() ==> (0x30 <= #[trigger] int_text(i)[k] <= 0x39 || int_text(i)[k] == 45);
pub axiom fn ax_float(f: f64) ensures float_parse(float_text(f)) is Some, float_text(float_parse(float_text(f))->0) == float_text(f), forall|k: int| 0 <= k < float_text(f).len() ==> 45 <= #[trigger] float_text(f)[k] <= 122 && float_text(f)[k] != 92;
pub mod num {
    use ::vstd::prelude::*;
    #[verifier::external_body]
    pub struct ParseIntError { x: u8 }
    #[verifier::external_body]
    pub struct ParseFloatError { x: u8 }
}
impl str_::FromStr for u8 {
    type Err = num::ParseIntError;
    open spec fn post(s: Seq<u8>, r: core::result::Result<Self, num::ParseIntError>) -> bool {
        match r { Ok(v) => int_parse(s) == Some(v as int), Err(_) => int_parse(s) is None || !(0 <= int_parse(s)->0 <= u8::MAX) }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: core::result::Result<Self, num::ParseIntError>) { unimplemented!() }
}
impl str_::FromStr for u64 {
    type Err = num::ParseIntError;
    open spec fn post(s: Seq<u8>, r: core::result::Result<Self, num::ParseIntError>) -> bool {
        match r { Ok(v) => int_parse(s) == Some(v as int), Err(_) => int_parse(s) is None || !(0 <= int_parse(s)->0 <= u64::MAX) }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: core::result::Result<Self, num::ParseIntError>) { unimplemented!() }
}
impl str_::FromStr for i64 {
    type Err = num::ParseIntError;
    open spec fn post(s: Seq<u8>, r: core::result::Result<Self, num::ParseIntError>) -> bool {
        match r { Ok(v) => int_parse(s) == Some(v as int), Err(_) => int_parse(s) is None || !(i64::MIN <= int_parse(s)->0 <= i64::MAX) }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: core::result::Result<Self, num::ParseIntError>) { unimplemented!() }
}
impl str_::FromStr for f64 {
    type Err = num::ParseFloatError;
    open spec fn post(s: Seq<u8>, r: core::result::Result<Self, num::ParseFloatError>) -> bool {
        match r { Ok(v) => float_parse(s) == Some(v), Err(_) => float_parse(s) is None }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: core::result::Result<Self, num::ParseFloatError>) { unimplemented!() }
}

// ---------------------------------------------------------------- iteration
/// An iterator over a finite sequence; the view is what is left.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIter<T> { v: std::vec::Vec<T> }
impl<T> View for VecIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecIter<T> {
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires old(self)@.len() > 0
        ensures r == old(self)@[0], final(self)@ == old(self)@.drop_first()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r is None <==> old(self)@.len() == 0, r is None ==> final(self)@ == old(self)@,
            r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.drop_first()
    { unimplemented!() }
}
/// what is left of an iteration over `all`
#[verifier::opaque]
pub open spec fn it_at<T>(left: Seq<T>, all: Seq<T>) -> bool { left.len() <= all.len() && left == all.skip(all.len() - left.len()) }
pub broadcast proof fn ax_it_start<T>(all: Seq<T>) ensures #[trigger] it_at(all, all) { reveal(it_at); assert(all.skip(0) =~= all); }
pub broadcast proof fn ax_it_step<T>(left: Seq<T>, all: Seq<T>)
    requires #[trigger] it_at(left, all)
    ensures left.len() <= all.len(),
        left.len() > 0 ==> left[0] == all[all.len() - left.len()] && it_at(left.drop_first(), all)
{ reveal(it_at); if left.len() > 0 { assert(left.drop_first() =~= all.skip(all.len() - left.drop_first().len())); } }
pub trait IntoSeq: Sized { type Item; spec fn items(self) -> Seq<Self::Item>; }
impl<T> IntoSeq for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } }
impl<'a, T> IntoSeq for &'a Vec<T> { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { self@.map_values(|x: T| &x) } }
impl<'a, T> IntoSeq for &'a [T] { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { self@.map_values(|x: T| &x) } }
impl<T> IntoSeq for VecIter<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn vx_into_iter<I: IntoSeq>(i: I) -> (r: VecIter<I::Item>) ensures r@ == i.items() { unimplemented!() }
pub trait VxSlice { type T; spec fn sl(&self) -> Seq<Self::T>; }
impl<T> VxSlice for Vec<T> { type T = T; open spec fn sl(&self) -> Seq<T> { self@ } }
impl<T> VxSlice for [T] { type T = T; open spec fn sl(&self) -> Seq<T> { self@ } }
impl<V: VxSlice + ?Sized> VxSlice for &V { type T = V::T; open spec fn sl(&self) -> Seq<V::T> { (**self).sl() } }
#[verifier::external_body]
pub fn vx_slice<V: VxSlice + ?Sized>(v: &V) -> (r: &[V::T]) ensures r@ == v.sl() { unimplemented!() }
/// `v[i]` for a slice and an index, and for a text and a range
pub trait VxIndex<I> { type Out: ?Sized; spec fn idx_ok(&self, i: I) -> bool; spec fn idx_post(&self, i: I, r: &Self::Out) -> bool;
    fn vx_index(&self, i: I) -> (r: &Self::Out) requires self.idx_ok(i) ensures self.idx_post(i, r); }
impl<T> VxIndex<usize> for Vec<T> { type Out = T;
    open spec fn idx_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn idx_post(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    fn vx_index(&self, i: usize) -> (r: &T) { &self[i] } }
impl<T> VxIndex<usize> for [T] { type Out = T;
    open spec fn idx_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn idx_post(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    fn vx_index(&self, i: usize) -> (r: &T) { &self[i] } }
impl VxIndex<ops::Range<usize>> for str { type Out = str;
    open spec fn idx_ok(&self, i: ops::Range<usize>) -> bool { i.start <= i.end <= self@.len() && boundary(self@, i.start as int) && boundary(self@, i.end as int) }
    open spec fn idx_post(&self, i: ops::Range<usize>, r: &str) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    fn vx_index(&self, i: ops::Range<usize>) -> (r: &str) { self.vx_range(i.start, i.end) } }
pub fn vx_idx<I, V: VxIndex<I> + ?Sized>(v: &V, i: I) -> (r: &V::Out) requires v.idx_ok(i) ensures v.idx_post(i, r) { v.vx_index(i) }
#[verifier::external_body]
pub fn own_all(v: VecIter<&str>) -> (r: Vec<String>)
    ensures sviews(r@) == views(v@), r@.len() == v@.len()
{ unimplemented!() }
pub fn into_all<S, T: From<S>>(v: Vec<S>) -> (r: Vec<T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> T::from_post(v@[i], #[trigger] r@[i])
{
    let mut v = vx_into_iter(v);
    let ghost all = v@;
    let mut r: Vec<T> = Vec::new();
    while v.has_next()
        invariant r@.len() + v@.len() == all.len(), v@ =~= all.skip(r@.len() as int), forall|i: int| 0 <= i < r@.len() ==> T::from_post(all[i], #[trigger] r@[i])
        decreases v@.len()
    { r.push(T::vx_from(v.take_next())); }
    r
}
pub trait Iterator {
    type Item;
    spec fn it_pre(&self) -> bool;
    spec fn it_post(a: Self, b: Self, r: Option<Self::Item>) -> bool where Self: Sized;
    fn next(&mut self) -> (r: Option<Self::Item>) where Self: Sized requires old(self).it_pre() ensures Self::it_post(*old(self), *final(self), r);
}
#[verifier::external_body]
pub fn vx_collect<T>(v: VecIter<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
/// `join_b` of the first `i` pieces, with a trailing separator while pieces are left
pub open spec fn join_part(v: Seq<Seq<u8>>, sep: Seq<u8>, i: int) -> Seq<u8> {
    join_b(v.take(i), sep) + if 0 < i < v.len() { sep } else { Seq::empty() }
}
pub proof fn lemma_join_push(v: Seq<Seq<u8>>, x: Seq<u8>, sep: Seq<u8>)
    ensures join_b(v.push(x), sep) == if v.len() == 0 { x } else { join_b(v, sep) + (sep + x) }
    decreases v.len()
{
    let w = v.push(x);
    if v.len() == 0 { }
    else if v.len() == 1 { assert(w.drop_first() =~= seq![x]); assert(join_b(seq![x], sep) == x); }
    else {
        lemma_join_push(v.drop_first(), x, sep);
        assert(w.drop_first() =~= v.drop_first().push(x));
        assert(join_b(w, sep) == v[0] + (sep + join_b(w.drop_first(), sep)));
        assert(v[0] + (sep + (join_b(v.drop_first(), sep) + (sep + x))) =~= (v[0] + (sep + join_b(v.drop_first(), sep))) + (sep + x));
    }
}
pub proof fn lemma_join_part(v: Seq<Seq<u8>>, sep: Seq<u8>, i: int)
    requires 0 <= i < v.len()
    ensures join_part(v, sep, i + 1) == join_part(v, sep, i) + (v[i] + if i < v.len() - 1 { sep } else { Seq::empty() }),
        join_part(v, sep, 0) == Seq::<u8>::empty(), join_part(v, sep, v.len() as int) == join_b(v, sep)
{
    lemma_join_push(v.take(i), v[i], sep);
    assert(v.take(i).push(v[i]) =~= v.take(i + 1));
    assert(v.take(v.len() as int) =~= v);
    assert(v.take(0).len() == 0);
    let t: Seq<u8> = if i < v.len() - 1 { sep } else { Seq::empty() };
    if i > 0 { assert((join_b(v.take(i), sep) + (sep + v[i])) + t =~= (join_b(v.take(i), sep) + sep) + (v[i] + t)); }
    assert(join_part(v, sep, v.len() as int) =~= join_b(v, sep));
    assert(join_part(v, sep, 0) =~= Seq::<u8>::empty());
    assert(join_part(v, sep, i + 1) =~= join_part(v, sep, i) + (v[i] + t));
}
pub proof fn lemma_join_end(v: Seq<Seq<u8>>, sep: Seq<u8>)
    ensures join_part(v, sep, v.len() as int) == join_b(v, sep), v.len() == 0 ==> join_b(v, sep) == Seq::<u8>::empty()
{ assert(v.take(v.len() as int) =~= v); assert(join_part(v, sep, v.len() as int) =~= join_b(v, sep)); }
/// the same text with the separator written before every piece but the first
pub open spec fn join_to(v: Seq<Seq<u8>>, sep: Seq<u8>, i: int) -> Seq<u8> { join_b(v.take(i), sep) }
pub proof fn lemma_join_to(v: Seq<Seq<u8>>, sep: Seq<u8>, i: int)
    requires 0 <= i < v.len()
    ensures join_to(v, sep, i + 1) == join_to(v, sep, i) + ((if i > 0 { sep } else { Seq::empty() }) + v[i]),
        join_to(v, sep, 0) == Seq::<u8>::empty(), join_to(v, sep, v.len() as int) == join_b(v, sep),
        i == 0 ==> join_to(v, sep, i + 1) == v[0]
{
    lemma_join_push(v.take(i), v[i], sep);
    assert(v.take(i).push(v[i]) =~= v.take(i + 1));
    assert(v.take(v.len() as int) =~= v);
    assert(v.take(0).len() == 0);
    assert(v.take(i).len() == i);
    if i == 0 { assert(Seq::<u8>::empty() + (Seq::<u8>::empty() + v[i]) =~= v[i]); }
}
pub proof fn lemma_join_to_end(v: Seq<Seq<u8>>, sep: Seq<u8>)
    ensures join_to(v, sep, v.len() as int) == join_b(v, sep), join_to(v, sep, 0) == Seq::<u8>::empty()
{ assert(v.take(v.len() as int) =~= v); assert(v.take(0).len() == 0); }
pub open spec fn join_b(v: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + (sep + join_b(v.drop_first(), sep)) }
}
#[verifier::external_body]
pub fn vx_join<T: StrLike>(v: &Vec<T>, sep: &str) -> (r: String) ensures r@ == join_b(svs(v@), sep@) { unimplemented!() }
/// `contains` of a slice (through a derived `PartialEq`) and of a text
pub trait VxContains<Q> { spec fn has(&self, q: Q) -> bool; fn vx_contains(&self, q: Q) -> (r: bool) ensures r == self.has(q); }
impl<T> VxContains<&T> for [T] { open spec fn has(&self, q: &T) -> bool { self@.contains(*q) } #[verifier::external_body] fn vx_contains(&self, q: &T) -> (r: bool) { unimplemented!() } }
impl<T> VxContains<&T> for Vec<T> { open spec fn has(&self, q: &T) -> bool { self@.contains(*q) } #[verifier::external_body] fn vx_contains(&self, q: &T) -> (r: bool) { unimplemented!() } }
impl<P: Pattern> VxContains<P> for str { open spec fn has(&self, q: P) -> bool { !q.none(self@) } #[verifier::external_body] fn vx_contains(&self, q: P) -> (r: bool) { unimplemented!() } }
pub fn vx_panic<T>() -> T requires false { unreached() }

// ---------------------------------------------------------------- formatting
pub mod fmt {
    use ::vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Formatter<'a> { x: &'a u8 }
    impl<'a> View for Formatter<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl<'a> Formatter<'a> {
        #[verifier::external_body]
        pub fn vx_new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_finish(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    }
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    pub trait Display {
        spec fn disp(&self) -> Seq<u8>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) ensures r is Ok, final(f)@ == old(f)@ + self.disp();
    }
    pub trait Debug {}
    impl<T: Display + ?Sized> Display for &T {
        open spec fn disp(&self) -> Seq<u8> { (**self).disp() }
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { proof { assert(self.disp() == (**self).disp()); } let r = (**self).fmt(f); r }
    }
    impl Display for str {
        open spec fn disp(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for String {
        open spec fn disp(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl<'a> Display for borrow::Cow<'a, str> {
        open spec fn disp(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for char {
        open spec fn disp(&self) -> Seq<u8> { cbytes(*self) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for bool {
        open spec fn disp(&self) -> Seq<u8> { if *self { L"true" } else { L"false" } }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for u8 {
        open spec fn disp(&self) -> Seq<u8> { int_text(*self as int) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for i8 {
        open spec fn disp(&self) -> Seq<u8> { int_text(*self as int) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for u64 {
        open spec fn disp(&self) -> Seq<u8> { int_text(*self as int) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for i64 {
        open spec fn disp(&self) -> Seq<u8> { int_text(*self as int) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    impl Display for f64 {
        open spec fn disp(&self) -> Seq<u8> { float_text(*self) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    /// the text of a Debug rendering is left unspecified
    #[verifier::external_body]
    pub fn vx_debug(f: &mut Formatter<'_>) -> (r: Result) ensures r is Ok { unimplemented!() }
    pub fn vx_ok(r: Result) requires r is Ok { }
}
pub trait ToString { spec fn ts(&self) -> Seq<u8>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.ts(); }
impl<T: fmt::Display + ?Sized> ToString for T {
    open spec fn ts(&self) -> Seq<u8> { self.disp() }
    fn vx_to_string(&self) -> (r: String) {
        let mut f = fmt::Formatter::vx_new();
        let r = self.fmt(&mut f);
        f.vx_finish()
    }
}

// ---------------------------------------------------------------- module paths
pub mod result { pub use core::result::Result; }
pub mod string { pub use super::{String, ToString}; }
pub mod borrow {
    use ::vstd::prelude::*;
    use super::{str, String, str_};
    pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
    impl<'a> View for Cow<'a, str> {
        type V = Seq<u8>;
        open spec fn view(&self) -> Seq<u8> { match self { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ } }
    }
    impl<'a> Cow<'a, str> {
        pub fn into_owned(self) -> (r: String) ensures r@ == self@ { match self { Cow::Borrowed(b) => b.to_owned(), Cow::Owned(o) => o } }
        pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { match self { Cow::Borrowed(b) => b, Cow::Owned(o) => o.as_str() } }
    }
    impl<'a> core::ops::Deref for Cow<'a, str> {
        type Target = str;
        fn deref(&self) -> (r: &str) ensures r@ == self@ { match self { Cow::Borrowed(b) => b, Cow::Owned(o) => o.as_str() } }
    }
}
pub mod ops {
    use ::vstd::prelude::*;
    pub struct Range<T> { pub start: T, pub end: T }
    impl Range<usize> {
        pub fn clone(&self) -> (r: Self) ensures r == *self { Range { start: self.start, end: self.end } }
    }
}
pub mod mem {
    use ::vstd::prelude::*;
    use super::String;
    #[verifier::external_body]
    pub fn take(s: &mut String) -> (r: String) ensures r@ == old(s)@, final(s)@ == Seq::<u8>::empty() { unimplemented!() }
}
pub mod pre {
    pub use super::{VxDefault, VxContains, VxIndex, String, str, From, Into, TryFrom, AsRef, ToString, Iterator};
    pub use super::fmt::Display as _;
}
}
// ======================================================================
// External crates
// ======================================================================
pub mod time {
    use ::vstd::prelude::*;
    use crate::sh::{str, String, fmt};
    pub mod error {
        use ::vstd::prelude::*;
        #[verifier::external_body] pub struct ComponentRange { x: u8 }
        #[verifier::external_body] pub struct Parse { x: u8 }
        #[verifier::external_body] pub struct Format { x: u8 }
        #[verifier::external_body] pub struct InvalidFormatDescription { x: u8 }
    }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Date { x: u8 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Time { x: u8 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct UtcOffset { x: u8 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct OffsetDateTime { x: u8 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct PrimitiveDateTime { x: u8 }
    impl crate::sh::Txt for Date { uninterp spec fn txt(&self) -> Seq<u8>; }
    impl crate::sh::Txt for OffsetDateTime { uninterp spec fn txt(&self) -> Seq<u8>; }
    pub mod format_description {
        use ::vstd::prelude::*;
        use crate::sh::{str, String};
        /// a parsed format description; the view is its source text
        #[verifier::external_body] pub struct Fd { x: u8 }
        impl View for Fd { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
        /// the format descriptions known to be well formed
        pub open spec fn good(s: Seq<u8>) -> bool {
            s == L"[offset_hour sign:mandatory][offset_minute]" || s == L"[offset_hour sign:mandatory]"
            || s == L"[hour][minute][second]" || s == L"[year]-[month]-[day]" || s == L"[year][month][day]"
            || s == L"[year]-[month]" || s == L"[year][month]" || s == L"[year][month][day]T[hour][minute][second]Z"
            || s == L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory][offset_minute]"
            || s == L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory]"
            || s == L"[year][month][day]T[hour][minute][second]"
        }
        #[verifier::external_body]
        pub fn parse(s: &str) -> (r: core::result::Result<Fd, super::error::InvalidFormatDescription>)
            ensures good(s@) ==> r is Ok && r->Ok_0@ == s@
        { unimplemented!() }
        pub mod well_known {
            use ::vstd::prelude::*;
            pub struct Iso8601;
            pub struct Rfc3339;
            impl Iso8601 { pub const DEFAULT: Iso8601 = Iso8601; }
        }
        pub trait AnyFormat { spec fn id(&self) -> Seq<u8>; }
        impl AnyFormat for Fd { open spec fn id(&self) -> Seq<u8> { self@ } }
        impl AnyFormat for well_known::Iso8601 { open spec fn id(&self) -> Seq<u8> { L"Iso8601" } }
        impl AnyFormat for well_known::Rfc3339 { open spec fn id(&self) -> Seq<u8> { L"Rfc3339" } }
    }
    use format_description::AnyFormat;
    // parsing and formatting are functions of the description and the text
    pub uninterp spec fn date_p(f: Seq<u8>, s: Seq<u8>) -> Option<Date>;
    pub uninterp spec fn date_t(f: Seq<u8>, d: Date) -> Seq<u8>;
    pub uninterp spec fn time_p(f: Seq<u8>, s: Seq<u8>) -> Option<Time>;
    pub uninterp spec fn time_t(f: Seq<u8>, d: Time) -> Seq<u8>;
    pub uninterp spec fn off_p(f: Seq<u8>, s: Seq<u8>) -> Option<UtcOffset>;
    pub uninterp spec fn off_t(f: Seq<u8>, d: UtcOffset) -> Seq<u8>;
    pub uninterp spec fn odt_p(f: Seq<u8>, s: Seq<u8>) -> Option<OffsetDateTime>;
    pub uninterp spec fn odt_t(f: Seq<u8>, d: OffsetDateTime) -> Seq<u8>;
    pub uninterp spec fn pdt_p(f: Seq<u8>, s: Seq<u8>) -> Option<PrimitiveDateTime>;
    pub uninterp spec fn odt(d: Date, t: Time, o: UtcOffset) -> OffsetDateTime;
    pub uninterp spec fn pdt(d: Date, t: Time) -> PrimitiveDateTime;
    pub uninterp spec fn odt_date(x: OffsetDateTime) -> Date;
    pub uninterp spec fn odt_time(x: OffsetDateTime) -> Time;
    pub uninterp spec fn odt_off(x: OffsetDateTime) -> UtcOffset;
    pub uninterp spec fn pdt_date(x: PrimitiveDateTime) -> Date;
    pub uninterp spec fn pdt_time(x: PrimitiveDateTime) -> Time;
    pub uninterp spec fn off_hms(o: UtcOffset) -> (int, int, int);
    pub uninterp spec fn utc() -> UtcOffset;
    pub broadcast axiom fn ax_odt(d: Date, t: Time, o: UtcOffset)
        ensures odt_date(#[trigger] odt(d, t, o)) == d, odt_time(odt(d, t, o)) == t, odt_off(odt(d, t, o)) == o;
    pub axiom fn ax_odt_inj(x: OffsetDateTime) ensures x == odt(odt_date(x), odt_time(x), odt_off(x));
    impl UtcOffset {
        pub exec const UTC: UtcOffset ensures UtcOffset::UTC == utc() { UtcOffset::vx_utc() }
        #[verifier::external_body]
        pub const fn vx_utc() -> (r: Self) ensures r == utc() { UtcOffset { x: 0 } }
        #[verifier::external_body]
        pub fn parse<F: AnyFormat>(s: &str, f: &F) -> (r: core::result::Result<Self, error::Parse>)
            ensures r is Ok <==> off_p(f.id(), s@) is Some, r is Ok ==> r->Ok_0 == off_p(f.id(), s@)->0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn format<F: AnyFormat>(&self, f: &F) -> (r: core::result::Result<String, error::Format>)
            ensures r is Ok, r->Ok_0@ == off_t(f.id(), *self)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_hms(&self) -> (r: (i8, i8, i8))
            ensures (r.0 as int, r.1 as int, r.2 as int) == off_hms(*self), -25 <= r.0 <= 25, -59 <= r.1 <= 59, -59 <= r.2 <= 59
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_negative(&self) -> (r: bool) ensures r == (off_hms(*self).0 < 0 || off_hms(*self).1 < 0 || off_hms(*self).2 < 0) { unimplemented!() }
    }
    impl Date {
        #[verifier::external_body]
        pub fn parse<F: AnyFormat>(s: &str, f: &F) -> (r: core::result::Result<Self, error::Parse>)
            ensures r is Ok <==> date_p(f.id(), s@) is Some, r is Ok ==> r->Ok_0 == date_p(f.id(), s@)->0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn format<F: AnyFormat>(&self, f: &F) -> (r: core::result::Result<String, error::Format>)
            ensures r is Ok, r->Ok_0@ == date_t(f.id(), *self)
        { unimplemented!() }
    }
    impl Time {
        #[verifier::external_body]
        pub fn parse<F: AnyFormat>(s: &str, f: &F) -> (r: core::result::Result<Self, error::Parse>)
            ensures r is Ok <==> time_p(f.id(), s@) is Some, r is Ok ==> r->Ok_0 == time_p(f.id(), s@)->0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn format<F: AnyFormat>(&self, f: &F) -> (r: core::result::Result<String, error::Format>)
            ensures r is Ok, r->Ok_0@ == time_t(f.id(), *self)
        { unimplemented!() }
    }
    impl PrimitiveDateTime {
        #[verifier::external_body]
        pub fn parse<F: AnyFormat>(s: &str, f: &F) -> (r: core::result::Result<Self, error::Parse>)
            ensures r is Ok <==> pdt_p(f.id(), s@) is Some, r is Ok ==> r->Ok_0 == pdt_p(f.id(), s@)->0
        { unimplemented!() }
    }
    impl OffsetDateTime {
        #[verifier::external_body]
        pub fn parse<F: AnyFormat>(s: &str, f: &F) -> (r: core::result::Result<Self, error::Parse>)
            ensures r is Ok <==> odt_p(f.id(), s@) is Some, r is Ok ==> r->Ok_0 == odt_p(f.id(), s@)->0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn format<F: AnyFormat>(&self, f: &F) -> (r: core::result::Result<String, error::Format>)
            ensures r is Ok, r->Ok_0@ == odt_t(f.id(), *self)
        { unimplemented!() }
        /// any instant at all, in UTC
        #[verifier::external_body]
        pub fn now_utc() -> (r: Self) ensures odt_off(r) == utc() { unimplemented!() }
        #[verifier::external_body]
        pub fn replace_date(self, d: Date) -> (r: Self) ensures r == odt(d, odt_time(self), odt_off(self)) { unimplemented!() }
        #[verifier::external_body]
        pub fn replace_time(self, t: Time) -> (r: Self) ensures r == odt(odt_date(self), t, odt_off(self)) { unimplemented!() }
        #[verifier::external_body]
        pub fn replace_offset(self, o: UtcOffset) -> (r: Self) ensures r == odt(odt_date(self), odt_time(self), o) { unimplemented!() }
        #[verifier::external_body]
        pub fn replace_date_time(self, p: PrimitiveDateTime) -> (r: Self) ensures r == odt(pdt_date(p), pdt_time(p), odt_off(self)) { unimplemented!() }
        #[verifier::external_body]
        pub fn offset(self) -> (r: UtcOffset) ensures r == odt_off(self) { unimplemented!() }
        #[verifier::external_body]
        pub fn date(self) -> (r: Date) ensures r == odt_date(self) { unimplemented!() }
    }
    impl fmt::Display for Date {
        uninterp spec fn disp(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
    }
    // Facts about the `time` crate used by the round trip lemmas. The bounded
    // part of check C11 tests each of them on the real crate.
    /// a date whose year has four digits
    pub uninterp spec fn year4(d: Date) -> bool;
    /// a time without fractional seconds
    pub uninterp spec fn whole(t: Time) -> bool;
    /// an offset without seconds
    pub uninterp spec fn minutes(o: UtcOffset) -> bool;
}
pub mod uriparse {
    use ::vstd::prelude::*;
    use crate::sh::{str, String, fmt, TryFrom};
    pub mod uri { pub use super::URIError; }
    /// the one variant the crate names; the rest are opaque
    pub enum URIError { NotURI, Other(OtherError) }
    #[verifier::external_body] pub struct OtherError { x: u8 }
    #[verifier::external_body] pub struct URIReferenceError { x: u8 }
    #[verifier::external_body] pub struct URI<'a> { x: &'a u8 }
    #[verifier::external_body] pub struct URIReference<'a> { x: &'a u8 }
    /// the text parses as a URI (as a URI reference that has a scheme)
    pub uninterp spec fn uri_ok(s: Seq<u8>) -> bool;
    pub uninterp spec fn uri_norm(s: Seq<u8>) -> Seq<u8>;
    /// texts for which `URI::try_from(&str)` does not panic
    pub uninterp spec fn uri_calm(s: Seq<u8>) -> bool;
    /// the text parses as a URI reference
    pub uninterp spec fn ref_ok(s: Seq<u8>) -> bool;
    impl<'a> URIReference<'a> {
        pub uninterp spec fn src(&self) -> Seq<u8>;
    }
    impl<'a> View for URI<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl<'a> URI<'a> {
        #[verifier::external_body]
        pub fn into_owned(self) -> (r: URI<'static>) ensures r@ == self@ { unimplemented!() }
    }
    impl<'a> TryFrom<&'a str> for URI<'a> {
        type Error = URIError;
        open spec fn try_post(v: &'a str, r: core::result::Result<Self, URIError>) -> bool {
            (r is Ok <==> uri_ok(v@)) && (r is Ok ==> r->Ok_0@ == uri_norm(v@))
        }
        /// uriparse 0.6.4 panics on schemeless text with a colon in its first segment
        open spec fn try_pre(v: &'a str) -> bool { uri_calm(v@) }
        #[verifier::external_body]
        fn vx_try_from(v: &'a str) -> (r: core::result::Result<Self, URIError>) { unimplemented!() }
    }
    impl<'a> TryFrom<&'a str> for URIReference<'a> {
        type Error = URIReferenceError;
        open spec fn try_post(v: &'a str, r: core::result::Result<Self, URIReferenceError>) -> bool {
            (r is Ok <==> ref_ok(v@)) && (r is Ok ==> r->Ok_0.src() == v@) && (r is Err ==> !uri_ok(v@))
        }
        #[verifier::external_body]
        fn vx_try_from(v: &'a str) -> (r: core::result::Result<Self, URIReferenceError>) { unimplemented!() }
    }
    impl<'a> TryFrom<URIReference<'a>> for URI<'a> {
        type Error = URIError;
        open spec fn try_post(v: URIReference<'a>, r: core::result::Result<Self, URIError>) -> bool {
            (r is Ok <==> uri_ok(v.src())) && (r is Ok ==> r->Ok_0@ == uri_norm(v.src()))
        }
        #[verifier::external_body]
        fn vx_try_from(v: URIReference<'a>) -> (r: core::result::Result<Self, URIError>) { unimplemented!() }
    }
    impl TryFrom<URIReferenceError> for URIError {
        type Error = ();
        open spec fn try_post(v: URIReferenceError, r: core::result::Result<Self, ()>) -> bool { true }
        #[verifier::external_body]
        fn vx_try_from(v: URIReferenceError) -> (r: core::result::Result<Self, ()>) { unimplemented!() }
    }
    impl<'a> fmt::Display for URI<'a> {
        open spec fn disp(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
    }
}
pub mod unicode_segmentation {
    use ::vstd::prelude::*;
    use crate::sh::{str, VecIter, views};
    /// the user-perceived characters of a text: non-empty pieces that make up the text
    pub uninterp spec fn graphemes(s: Seq<u8>) -> Seq<Seq<u8>>;
    pub open spec fn cat(g: Seq<Seq<u8>>) -> Seq<u8> decreases g.len() { if g.len() == 0 { Seq::empty() } else { g[0] + cat(g.drop_first()) } }
    pub axiom fn ax_graphemes(s: Seq<u8>) ensures cat(graphemes(s)) == s, forall|i: int| 0 <= i < graphemes(s).len() ==> (#[trigger] graphemes(s)[i]).len() > 0;
    pub struct UnicodeSegmentation {}
    impl UnicodeSegmentation {
        #[verifier::external_body]
        pub fn graphemes<'a>(s: &'a str, extended: bool) -> (r: VecIter<&'a str>)
            requires extended
            ensures views(r@) == graphemes(s@)
        { unimplemented!() }
    }
}
pub mod aho_corasick {
    use ::vstd::prelude::*;
    use crate::sh::{str, String, occurs};
    #[derive(Debug)] #[verifier::external_body] pub struct BuildError { x: u8 }
    #[verifier::external_body] pub struct AhoCorasick { x: u8 }
    impl View for AhoCorasick { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
    pub open spec fn pick(p: Seq<Seq<u8>>, s: Seq<u8>, k: int) -> int decreases p.len() - k {
        if k < 0 || k >= p.len() { -1 } else if occurs(s, p[k], 0) { k } else { pick(p, s, k + 1) }
    }
    /// non-overlapping replacement from left to right; patterns of one common length
    pub open spec fn repl(p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<u8>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() }
        else {
            let k = pick(p, s, 0);
            if 0 <= k && k < p.len() && k < w.len() && 0 < p[k].len() <= s.len() { w[k] + repl(p, w, s.skip(p[k].len() as int)) }
            else { seq![s[0]] + repl(p, w, s.skip(1)) }
        }
    }
    pub open spec fn same_len(p: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() == p[0].len() && p[i].len() > 0 }
    impl AhoCorasick {
        #[verifier::external_body]
        pub fn new<const N: usize>(p: &[&str; N]) -> (r: core::result::Result<AhoCorasick, BuildError>)
            ensures r is Ok, r->Ok_0@ == p@.map_values(|x: &str| x@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn replace_all<const N: usize>(&self, s: &str, w: &[&str; N]) -> (r: String)
            requires w@.len() == self@.len(), same_len(self@)
            ensures r@ == repl(self@, w@.map_values(|x: &str| x@), s@)
        { unimplemented!() }
    }
}
pub mod base64 {
    use ::vstd::prelude::*;
    #[verifier::external_body] pub struct DecodeError { x: u8 }
    pub uninterp spec fn b64(s: Seq<u8>) -> Option<Seq<u8>>;
    pub struct Engine {}
    pub mod engine { pub mod general_purpose {
        use ::vstd::prelude::*;
        use crate::sh::str;
        pub struct Std {}
        pub const STANDARD: Std = Std {};
        impl Std {
            #[verifier::external_body]
            pub fn decode(&self, s: &str) -> (r: core::result::Result<Vec<u8>, super::super::DecodeError>)
                ensures r is Ok <==> super::super::b64(s@) is Some, r is Ok ==> r->Ok_0@ == super::super::b64(s@)->0
            { unimplemented!() }
        }
    } }
}
pub mod logos {
    use ::vstd::prelude::*;
    use crate::sh::{str, ops::Range};
    /// The generated lexer, as a function of the source and a position.
    /// `crate::spec` states what is assumed about `tok` and `tok_end`.
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Lexer<'s, T> { x: &'s T }
    pub uninterp spec fn tok_of<T>(s: Seq<u8>, p: int) -> core::result::Result<T, crate::error::LexError>;
    pub uninterp spec fn tok_end(s: Seq<u8>, p: int) -> int;
    impl<'s, T> Lexer<'s, T> {
        pub uninterp spec fn src(&self) -> Seq<u8>;
        pub uninterp spec fn st(&self) -> int;
        pub uninterp spec fn en(&self) -> int;
        pub open spec fn ok(&self) -> bool {
            &&& 0 <= self.st() <= self.en() <= self.src().len()
            &&& boundary(self.src(), self.st()) && boundary(self.src(), self.en())
            &&& self.src().len() <= isize::MAX && crate::sh::wf(self.src())
        }
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<core::result::Result<T, crate::error::LexError>>)
            requires old(self).ok()
            ensures final(self).src() == old(self).src(), final(self).ok(), final(self).st() == old(self).en(),
                r is None <==> old(self).en() == old(self).src().len(),
                r is None ==> final(self).en() == old(self).en(),
                r is Some ==> r->0 == tok_of::<T>(old(self).src(), old(self).en()) && final(self).en() == tok_end(old(self).src(), old(self).en()) && final(self).en() > old(self).en()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn span(&self) -> (r: Range<usize>) ensures r.start == self.st(), r.end == self.en() { unimplemented!() }
        #[verifier::external_body]
        pub fn slice(&self) -> (r: &'s str) requires self.ok() ensures r@ == self.src().subrange(self.st(), self.en()) { unimplemented!() }
        #[verifier::external_body]
        pub fn source(&self) -> (r: &'s str) ensures r@ == self.src() { unimplemented!() }
        #[verifier::external_body]
        pub fn remainder(&self) -> (r: &'s str) requires self.ok() ensures r@ == self.src().skip(self.en()) { unimplemented!() }
        #[verifier::external_body]
        pub fn bump(&mut self, n: usize)
            requires old(self).ok(), old(self).en() + n <= old(self).src().len(), boundary(old(self).src(), old(self).en() + n)
            ensures final(self).src() == old(self).src(), final(self).ok(), final(self).st() == old(self).st(), final(self).en() == old(self).en() + n
        { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_lexer(s: &'s str) -> (r: Self) ensures r.ok(), r.src() == s@, r.st() == 0, r.en() == 0 { unimplemented!() }
    }
    use crate::sh::boundary;
    pub trait Logos { }
}
pub mod vx_std {
    use ::vstd::prelude::*;
    pub assume_specification [i8::abs] (x: i8) -> (r: i8) requires x != i8::MIN ensures r == (if x < 0 { -x } else { x as int });
    pub assume_specification<T: core::clone::Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
        ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]);
}
