/// specification of the parser
pub mod spec_p {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::sh::{fmt, fmt::Display, String, From};
use crate::property::*;
use crate::parameter::*;
use crate::sh::str_::FromStr;
use crate::{Vcard, Error, Uri};

pub open spec fn vcard_empty_but_fn(c: Vcard) -> bool {
    c.source@.len() == 0 && c.kind is None && c.xml@.len() == 0 && c.name is None && c.nickname@.len() == 0 && c.photo@.len() == 0 && c.bday is None && c.anniversary is None && c.gender is None && c.url@.len() == 0 && c.address@.len() == 0 && c.tel@.len() == 0 && c.email@.len() == 0 && c.impp@.len() == 0 && c.lang@.len() == 0 && c.title@.len() == 0 && c.role@.len() == 0 && c.logo@.len() == 0 && c.org@.len() == 0 && c.member@.len() == 0 && c.related@.len() == 0 && c.timezone@.len() == 0 && c.geo@.len() == 0 && c.categories@.len() == 0 && c.note@.len() == 0 && c.prod_id is None && c.rev is None && c.sound@.len() == 0 && c.uid is None && c.client_pid_map@.len() == 0 && c.key@.len() == 0 && c.fburl@.len() == 0 && c.cal_adr_uri@.len() == 0 && c.cal_uri@.len() == 0 && c.extensions@.len() == 0
}
/// what `Vcard::validate` accepts
pub open spec fn valid(c: Vcard) -> bool { c.formatted_name@.len() > 0 && (c.member@.len() > 0 ==> c.kind is Some && c.kind->0.value is Group) }
pub open spec fn gender_is(v: Seq<u8>, g: Gender) -> bool { Gender::post(v, Ok(g)) }
pub open spec fn gender_bad(v: Seq<u8>) -> bool { exists|e: Error| #[trigger] Gender::post(v, Err(e)) }
/// a photo that `Vcard::parse_photo_jpeg` extracts
pub open spec fn jpeg(p: TextOrUriProperty) -> bool {
    &&& p is Text && p->Text_0.parameters is Some
    &&& p->Text_0.parameters->0.types is Some && p->Text_0.parameters->0.extensions is Some
    &&& ({ let t = p->Text_0.parameters->0.types->0@; let x = p->Text_0.parameters->0.extensions->0@;
        t.len() > 0 && t[0] is Extension && upper(t[0]->Extension_0@) == L"JPEG" && x.len() > 0 && upper(x[0].0@) == L"ENCODING"
        && x[0].1@.len() > 0 && x[0].1@[0]@ == L"b" })
}
pub open spec fn b64(p: TextOrUriProperty) -> Option<Seq<u8>> { crate::base64::b64(p->Text_0.value@) }
/// the bytes of the JPEG photos among the first `n`
pub open spec fn jpegs_t(v: Seq<TextOrUriProperty>, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { Seq::empty() } else if jpeg(v[n - 1]) { jpegs_t(v, n - 1).push(b64(v[n - 1])->0) } else { jpegs_t(v, n - 1) }
}
pub open spec fn vviews(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
}

/// the lexer and the functions of the parser that only look at tokens
pub mod spec_t {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::logos::{Lexer, tok_of};
pub use crate::logos::tok_end;
use crate::parser::Token;
pub use crate::spec_names::*;
use crate::{Error, error::LexError};
pub type Tok = core::result::Result<Token, LexError>;
pub open spec fn tok(s: Seq<u8>, p: int) -> Tok { tok_of::<Token>(s, p) }
/// the position after the next line feed
pub open spec fn nl(s: Seq<u8>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { s.len() as int } else if s[p] == 10 { p + 1 } else { nl(s, p + 1) }
}
//@lex
pub open spec fn is_ctrl(b: u8) -> bool { (b < 32 && b != 9) || b == 127 }
pub open spec fn nl_at(s: Seq<u8>, p: int) -> bool { s[p] == 10 || (s[p] == 13 && p + 1 < s.len() && s[p + 1] == 10) }
pub open spec fn esc_at(s: Seq<u8>, p: int) -> bool { s[p] == 92 && p + 1 < s.len() && escapable(s[p + 1]) }
/// neither a line break, a control character, an escape nor a delimiter
pub open spec fn calm(b: u8) -> bool { b != 92 && !is_ctrl(b) && b != 59 && b != 34 }
pub open spec fn special(t: Tok) -> bool { t == Tok::Ok(Token::Begin) || t == Tok::Ok(Token::Version) || t == Tok::Ok(Token::End) }
/// What the parser needs to know about a token.
pub open spec fn facts(s: Seq<u8>, p: int) -> bool {
    &&& p < tok_end(s, p) <= s.len()
    &&& boundary(s, tok_end(s, p))
    &&& (nl_at(s, p) <==> tok(s, p) == Tok::Ok(Token::NewLine))
    &&& (s[p] == 10 ==> tok_end(s, p) == p + 1)
    &&& (s[p] == 13 && nl_at(s, p) ==> tok_end(s, p) == p + 2)
    &&& (is_ctrl(s[p]) && !nl_at(s, p) <==> tok(s, p) == Tok::Ok(Token::Control))
    &&& (is_ctrl(s[p]) && !nl_at(s, p) ==> tok_end(s, p) == p + 1)
    &&& (s[p] == 59 <==> tok(s, p) == Tok::Ok(Token::ParameterDelimiter))
    &&& (s[p] == 58 <==> tok(s, p) == Tok::Ok(Token::PropertyDelimiter))
    &&& (s[p] == 34 <==> tok(s, p) == Tok::Ok(Token::DoubleQuote))
    &&& (s[p] == 61 <==> tok(s, p) == Tok::Ok(Token::ValueDelimiter))
    &&& (s[p] == 59 || s[p] == 58 || s[p] == 34 || s[p] == 61 || (s[p] == 92 && !esc_at(s, p)) ==> tok_end(s, p) == p + 1)
    &&& (esc_at(s, p) ==> tok_end(s, p) == p + 2)
    &&& (esc_at(s, p) && s[p + 1] == 92 <==> tok(s, p) == Tok::Ok(Token::EscapedBackSlash))
    &&& (esc_at(s, p) && s[p + 1] == 44 <==> tok(s, p) == Tok::Ok(Token::EscapedComma))
    &&& (esc_at(s, p) && s[p + 1] == 59 <==> tok(s, p) == Tok::Ok(Token::EscapedSemiColon))
    &&& (esc_at(s, p) && (s[p + 1] == 110 || s[p + 1] == 78) <==> tok(s, p) == Tok::Ok(Token::EscapedNewLine))
    &&& (s[p] == 92 && !esc_at(s, p) ==> tok(s, p) == Tok::Ok(Token::Text))
    &&& (calm(s[p]) ==> forall|i: int| p <= i < tok_end(s, p) ==> calm(#[trigger] s[i]))
    &&& (calm(s[p]) && s[p] != 58 && !special(tok(s, p)) ==> forall|i: int| p <= i < tok_end(s, p) ==> #[trigger] s[i] != 58)
    &&& (special(tok(s, p)) ==> calm(s[p]) && s[p] != 58 && exists|i: int| p < i < tok_end(s, p) && #[trigger] s[i] == 58)
}
/// property names, parameter names, extension names and the lines of the frame
pub open spec fn f_name(s: Seq<u8>, p: int, i: int) -> bool {
    0 <= i < names().len() && same(s, p, names()[i]) && pstop(s, p + names()[i].len()) ==> tok(s, p) == Tok::Ok(Token::PropertyName) && tok_end(s, p) == p + names()[i].len()
}
pub open spec fn f_gname(s: Seq<u8>, p: int, d: int, i: int) -> bool {
    0 <= i < names().len() && grp(s, p, d) && same(s, d + 1, names()[i]) && pstop(s, d + 1 + names()[i].len()) ==> tok(s, p) == Tok::Ok(Token::PropertyName) && tok_end(s, p) == d + 1 + names()[i].len()
}
pub open spec fn f_key(s: Seq<u8>, p: int, i: int) -> bool {
    0 <= i < keys().len() && same(s, p, keys()[i]) && p + keys()[i].len() < s.len() && s[p + keys()[i].len()] == 61 ==> tok(s, p) == Tok::Ok(Token::ParameterKey) && tok_end(s, p) == p + keys()[i].len()
}
pub open spec fn f_tz(s: Seq<u8>, p: int) -> bool {
    &&& (same(s, p, tz_s()) && xstop(s, p + 2) ==> tok(s, p) == Tok::Ok(Token::TimeZone) && tok_end(s, p) == p + 2)
    &&& (same(s, p, geo_s()) && xstop(s, p + 3) ==> tok(s, p) == Tok::Ok(Token::Geo) && tok_end(s, p) == p + 3)
}
pub open spec fn f_gtz(s: Seq<u8>, p: int, d: int) -> bool {
    &&& (grp(s, p, d) && same(s, d + 1, tz_s()) && pstop(s, d + 3) ==> tok(s, p) == Tok::Ok(Token::PropertyName) && tok_end(s, p) == d + 3)
    &&& (grp(s, p, d) && same(s, d + 1, geo_s()) && pstop(s, d + 4) ==> tok(s, p) == Tok::Ok(Token::PropertyName) && tok_end(s, p) == d + 4)
}
pub open spec fn f_frame(s: Seq<u8>, p: int) -> bool {
    &&& (same(s, p, begin_s()) && lstop(s, p + 11) ==> tok(s, p) == Tok::Ok(Token::Begin) && tok_end(s, p) == p + 11)
    &&& (same(s, p, end_s()) && lstop(s, p + 9) ==> tok(s, p) == Tok::Ok(Token::End) && tok_end(s, p) == p + 9)
    &&& ((same(s, p, version_s(51)) || same(s, p, version_s(52))) && lstop(s, p + 11) ==> tok(s, p) == Tok::Ok(Token::Version) && tok_end(s, p) == p + 11)
}
pub open spec fn xname(s: Seq<u8>, p: int, e: int) -> bool { 0 <= p && p + 2 < e && e <= s.len() && up1(s[p]) == 88 && s[p + 1] == 45 && gbs(s, p + 2, e) && xstop(s, e) }
pub open spec fn f_ext(s: Seq<u8>, p: int, e: int) -> bool { xname(s, p, e) ==> tok(s, p) == Tok::Ok(Token::ExtensionName) && tok_end(s, p) == e }
pub open spec fn f_gext(s: Seq<u8>, p: int, d: int, e: int) -> bool { grp(s, p, d) && xname(s, d + 1, e) ==> tok(s, p) == Tok::Ok(Token::PropertyName) && tok_end(s, p) == e }
//@end
/// Names, proved in the same place.
pub axiom fn ax_name(s: Seq<u8>, p: int, i: int) requires wf(s), ensures f_name(s, p, i);
pub axiom fn ax_gname(s: Seq<u8>, p: int, d: int, i: int) requires wf(s), ensures f_gname(s, p, d, i);
pub axiom fn ax_key(s: Seq<u8>, p: int, i: int) requires wf(s), ensures f_key(s, p, i);
pub axiom fn ax_tz(s: Seq<u8>, p: int) requires wf(s), ensures f_tz(s, p);
pub axiom fn ax_gtz(s: Seq<u8>, p: int, d: int) requires wf(s), ensures f_gtz(s, p, d);
pub axiom fn ax_frame(s: Seq<u8>, p: int) requires wf(s), ensures f_frame(s, p);
pub axiom fn ax_ext(s: Seq<u8>, p: int, e: int) requires wf(s), ensures f_ext(s, p, e);
pub axiom fn ax_gext(s: Seq<u8>, p: int, d: int, e: int) requires wf(s), ensures f_gext(s, p, d, e);
/// Proved of the lexer that logos generates from `Token` in a second run: `contracts/lex`.
pub axiom fn ax_tok(s: Seq<u8>, p: int)
    requires wf(s), 0 <= p < s.len(), boundary(s, p)
    ensures facts(s, p);

/// where the value that starts at `p` ends: the next line break, unless a control character or the end of the source comes first
pub open spec fn vend(s: Seq<u8>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { -1 } else if nl_at(s, p) { p } else if is_ctrl(s[p]) { -1 } else { vend(s, p + 1) }
}
pub open spec fn no10(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> #[trigger] s[i] != 10 }
pub proof fn lemma_vend(s: Seq<u8>, p: int)
    requires 0 <= p
    ensures vend(s, p) == -1 || (p <= vend(s, p) < s.len() && nl_at(s, vend(s, p)) && no10(s, p, vend(s, p)) && forall|i: int| p <= i < vend(s, p) ==> !is_ctrl(#[trigger] s[i]))
    decreases s.len() - p
{
    if p < s.len() && !nl_at(s, p) && !is_ctrl(s[p]) { lemma_vend(s, p + 1); }
}
pub proof fn lemma_vend_skip(s: Seq<u8>, p: int, e: int)
    requires 0 <= p <= e <= s.len(), forall|i: int| p <= i < e ==> !is_ctrl(#[trigger] s[i])
    ensures vend(s, p) == vend(s, e), no10(s, p, e)
    decreases e - p
{
    if p < e { assert(!is_ctrl(s[p])); lemma_vend_skip(s, p + 1, e); }
}
pub proof fn lemma_nl(s: Seq<u8>, p: int, e: int)
    requires 0 <= p <= e <= s.len(), no10(s, p, e)
    ensures nl(s, p) == nl(s, e), e < s.len() && s[e] == 10 ==> nl(s, p) == e + 1
    decreases e - p
{
    if p < e { lemma_nl(s, p + 1, e); }
}
pub proof fn lemma_dec_calm(a: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 92
    ensures dec(a + t) == a + dec(t)
    decreases a.len()
{
    if a.len() == 0 { assert(a + t =~= t); }
    else {
        assert((a + t)[0] == a[0]);
        assert((a + t).drop_first() =~= a.drop_first() + t);
        lemma_dec_calm(a.drop_first(), t);
        assert(seq![a[0]] + (a.drop_first() + dec(t)) =~= a + dec(t));
    }
}
/// one token of a value that ends at `q`
pub proof fn lemma_tok(s: Seq<u8>, a: int, q: int)
    requires wf(s), 0 <= a < s.len(), boundary(s, a), q == vend(s, a)
    ensures ({ let e = tok_end(s, a); let t = tok(s, a);
        &&& a < e <= s.len() && boundary(s, e)
        &&& t == Tok::Ok(Token::NewLine) <==> q == a
        &&& t == Tok::Ok(Token::NewLine) ==> e == nl(s, a) && s[e - 1] == 10 && no10(s, a, e - 1)
        &&& t == Tok::Ok(Token::Control) ==> q == -1 && no10(s, a, e)
        &&& t != Tok::Ok(Token::NewLine) && t != Tok::Ok(Token::Control) ==> q == vend(s, e) && no10(s, a, e) && (q >= 0 ==> e <= q)
            && (q >= 0 ==> dec(s.subrange(a, q)) == (
                if t == Tok::Ok(Token::EscapedComma) { seq![44u8] } else if t == Tok::Ok(Token::EscapedSemiColon) { seq![59u8] }
                else if t == Tok::Ok(Token::EscapedNewLine) { seq![10u8] } else if t == Tok::Ok(Token::EscapedBackSlash) { seq![92u8] } else { s.subrange(a, e) }
                ) + dec(s.subrange(e, q)))
    })
{
    ax_tok(s, a);
    let e = tok_end(s, a);
    if nl_at(s, a) { if s[a] == 10 { assert(nl(s, a) == a + 1); } else { assert(nl(s, a + 1) == a + 2); } }
    else if is_ctrl(s[a]) { }
    else {
        assert forall|i: int| a <= i < e implies !is_ctrl(#[trigger] s[i]) by {
            if calm(s[a]) { assert(calm(s[i])); }
        }
        lemma_vend_skip(s, a, e);
        lemma_vend(s, e);
        if q >= 0 {
            let v = s.subrange(a, q);
            if esc_at(s, a) {
                assert(v[0] == 92 && v[1] == s[a + 1]);
                assert(v.skip(2) =~= s.subrange(e, q));
            } else if s[a] == 92 {
                assert(v[0] == 92);
                assert(v.drop_first() =~= s.subrange(e, q));
                assert(v.len() >= 2 ==> v[1] == s[a + 1]);
                assert(s.subrange(a, e) =~= seq![92u8]);
            } else {
                assert forall|i: int| 0 <= i < s.subrange(a, e).len() implies #[trigger] s.subrange(a, e)[i] != 92 by {
                    if calm(s[a]) { assert(calm(s[a + i])); }
                }
                assert(v =~= s.subrange(a, e) + s.subrange(e, q));
                lemma_dec_calm(s.subrange(a, e), s.subrange(e, q));
            }
        }
    }
}

/// `v` are the tokens of `s` from `a` to `b`, with their positions
pub open spec fn chain(s: Seq<u8>, v: Seq<(Tok, crate::sh::ops::Range<usize>)>, a: int, b: int) -> bool {
    &&& v.len() == 0 ==> a == b
    &&& v.len() > 0 ==> v[0].1.start == a && v.last().1.end == b
    &&& forall|i: int| 0 <= i < v.len() ==> { let x = #[trigger] v[i]; 0 <= x.1.start < s.len() && boundary(s, x.1.start as int) && x.0 == tok(s, x.1.start as int) && x.1.end == tok_end(s, x.1.start as int)
        && x.0 != Tok::Ok(Token::NewLine) && x.0 != Tok::Ok(Token::Control) }
    &&& forall|i: int| 0 < i < v.len() ==> (#[trigger] v[i]).1.start == v[i - 1].1.end
}
pub open spec fn at_tok(v: Seq<(Tok, crate::sh::ops::Range<usize>)>, k: int, a: int) -> int { if k == 0 { a } else { v[k - 1].1.end as int } }
pub open spec fn is_esc(t: Tok) -> bool { t == Tok::Ok(Token::EscapedComma) || t == Tok::Ok(Token::EscapedSemiColon) || t == Tok::Ok(Token::EscapedNewLine) || t == Tok::Ok(Token::EscapedBackSlash) }
/// the lexer moved on in the same source
pub open spec fn lexed(a: Lexer<'_, Token>, b: Lexer<'_, Token>) -> bool { b.ok() && b.src() == a.src() && a.en() <= b.en() }

pub proof fn lemma_boundary_after(s: Seq<u8>, i: int)
    requires wf(s), 0 <= i < s.len(), s[i] < 128
    ensures boundary(s, i + 1)
{ if i + 1 < s.len() { assert(crate::sh::is_cont(s[i + 1]) ==> s[i + 1 - 1] >= 0x80); } }
pub proof fn lemma_chain_vend(s: Seq<u8>, v: Seq<(Tok, crate::sh::ops::Range<usize>)>, a: int, q: int, k: int)
    requires chain(s, v, a, q), q == vend(s, a), 0 <= a, boundary(s, a), wf(s), 0 <= k <= v.len(), q >= 0
    ensures a <= at_tok(v, k, a) <= q, q < s.len(), vend(s, at_tok(v, k, a)) == q, k == v.len() ==> at_tok(v, k, a) == q, k == 0 ==> at_tok(v, k, a) == a, boundary(s, at_tok(v, k, a)),
        k < v.len() ==> at_tok(v, k, a) < q && v[k].1.start == at_tok(v, k, a) && v[k].0 == tok(s, at_tok(v, k, a)) && v[k].1.end == tok_end(s, at_tok(v, k, a)) && at_tok(v, k + 1, a) == v[k].1.end && v[k].1.end <= q && boundary(s, v[k].1.end as int)
    decreases k
{
    if k > 0 { lemma_chain_vend(s, v, a, q, k - 1); lemma_tok(s, v[k - 1].1.start as int, q); }
    lemma_vend(s, a);
    if k < v.len() { lemma_tok(s, v[k].1.start as int, q); }
}

pub proof fn lemma_chain_0(s: Seq<u8>, a: int) ensures chain(s, Seq::empty(), a, a) { }
pub proof fn lemma_chain_push(s: Seq<u8>, v: Seq<(Tok, crate::sh::ops::Range<usize>)>, x: (Tok, crate::sh::ops::Range<usize>), a: int, b: int, e: int)
    requires chain(s, v, a, b), 0 <= b < s.len(), boundary(s, b), x.1.start == b, x.1.end == e, e == tok_end(s, b), x.0 == tok(s, b), x.0 != Tok::Ok(Token::NewLine), x.0 != Tok::Ok(Token::Control)
    ensures chain(s, v.push(x), a, e)
{ }

pub proof fn lemma_dec0() ensures dec(Seq::empty()) == Seq::<u8>::empty() { }
pub proof fn lemma_chain_plain(s: Seq<u8>, v: Seq<(Tok, crate::sh::ops::Range<usize>)>, a: int, q: int, k: int)
    requires chain(s, v, a, q), q == vend(s, a), 0 <= a, boundary(s, a), wf(s), 0 <= k <= v.len(), q >= 0, forall|i: int| 0 <= i < v.len() ==> !is_esc(#[trigger] v[i].0)
    ensures dec(s.subrange(at_tok(v, k, a), q)) == s.subrange(at_tok(v, k, a), q)
    decreases v.len() - k
{
    hide(dec); hide(vend); hide(chain); hide(at_tok); hide(nl);
    lemma_chain_vend(s, v, a, q, k);
    lemma_dec0();
    let b = at_tok(v, k, a);
    if k < v.len() {
        lemma_chain_plain(s, v, a, q, k + 1);
        lemma_tok(s, b, q);
        let e = tok_end(s, b);
        assert(!is_esc(v[k].0));
        assert(s.subrange(b, e) + s.subrange(e, q) =~= s.subrange(b, q));
    } else { assert(s.subrange(b, q) =~= Seq::<u8>::empty()); }
}

/// the lexer stopped on the line that started at `p0`, having taken at most its line break
pub open spec fn frame(s: Seq<u8>, p0: int, st: int, en: int) -> bool {
    p0 <= st <= en <= s.len() && (no10(s, p0, en) || (p0 < en && en == nl(s, p0) && s[en - 1] == 10 && st < en))
}
/// where an unquoted parameter value that starts at `p` ends
pub open spec fn pend(s: Seq<u8>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { -1 } else if is_ctrl(s[p]) { -1 } else if s[p] == 58 || s[p] == 59 { p } else if esc_at(s, p) { pend(s, p + 2) } else { pend(s, p + 1) }
}
/// where a quoted parameter value ends, `p` being the position after the opening quote
pub open spec fn qend(s: Seq<u8>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { -1 } else if is_ctrl(s[p]) { -1 } else if s[p] == 34 { p } else { qend(s, p + 1) }
}
pub open spec fn is_q(s: Seq<u8>, p: int) -> bool { p < s.len() && s[p] == 34 }
pub open spec fn vbeg(s: Seq<u8>, p: int) -> int { if is_q(s, p) { p + 1 } else { p } }
pub open spec fn xend(s: Seq<u8>, qt: bool, p: int) -> int { if qt { qend(s, p) } else { pend(s, p) } }
/// the parameter value that starts at `p`: its text, whether it is quoted, and the position after the delimiter that follows
pub open spec fn pv(s: Seq<u8>, p: int) -> Option<(Seq<u8>, bool, int)> {
    let q = xend(s, is_q(s, p), vbeg(s, p));
    if q < 0 { None }
    else if is_q(s, p) { if q + 1 < s.len() && (s[q + 1] == 58 || s[q + 1] == 59) { Some((une(s.subrange(p + 1, q)), true, q + 2)) } else { None } }
    else { Some((une(s.subrange(p, q)), false, q + 1)) }
}
pub proof fn lemma_xend(s: Seq<u8>, qt: bool, p: int)
    requires 0 <= p
    ensures xend(s, qt, p) == -1 || (p <= xend(s, qt, p) < s.len() && no10(s, p, xend(s, qt, p)) && (qt ==> s[xend(s, qt, p)] == 34) && (!qt ==> s[xend(s, qt, p)] == 58 || s[xend(s, qt, p)] == 59))
    decreases s.len() - p
{
    if p < s.len() { lemma_xend(s, qt, p + 1); if p + 1 < s.len() { lemma_xend(s, qt, p + 2); } assert(s[p] == 10 ==> is_ctrl(s[p])); assert(esc_at(s, p) ==> s[p + 1] != 10); }
}
/// step over bytes that are neither control characters, delimiters nor backslashes
pub proof fn lemma_xend_skip(s: Seq<u8>, qt: bool, p: int, e: int)
    requires 0 <= p <= e <= s.len(), forall|i: int| p <= i < e ==> calm(#[trigger] s[i]) && (qt || s[i] != 58)
    ensures xend(s, qt, p) == xend(s, qt, e), no10(s, p, e)
    decreases e - p
{
    if p < e { assert(calm(s[p])); lemma_xend_skip(s, qt, p + 1, e); assert(!esc_at(s, p)); }
}
pub proof fn lemma_une_calm(a: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 92
    ensures une(a + t) == a + une(t)
    decreases a.len()
{
    if a.len() == 0 { assert(a + t =~= t); }
    else {
        assert((a + t)[0] == a[0]);
        assert((a + t).drop_first() =~= a.drop_first() + t);
        lemma_une_calm(a.drop_first(), t);
        assert(seq![a[0]] + (a.drop_first() + une(t)) =~= a + une(t));
    }
}
pub proof fn lemma_une_step(s: Seq<u8>, b: int, a: int, e: int, q: int)
    requires 0 <= b <= a <= e <= q <= s.len(), une(s.subrange(b, q)) == s.subrange(b, a) + une(s.subrange(a, q)), une(s.subrange(a, q)) == s.subrange(a, e) + une(s.subrange(e, q))
    ensures une(s.subrange(b, q)) == s.subrange(b, e) + une(s.subrange(e, q))
{ assert(s.subrange(b, a) + (s.subrange(a, e) + une(s.subrange(e, q))) =~= s.subrange(b, e) + une(s.subrange(e, q))); }
pub proof fn lemma_une0(t: Seq<u8>) ensures une(Seq::empty()) == Seq::<u8>::empty(), Seq::<u8>::empty() + t == t { assert(Seq::<u8>::empty() + t =~= t); }
/// one token of a parameter value
pub proof fn lemma_ptok(s: Seq<u8>, qt: bool, a: int)
    requires wf(s), 0 <= a < s.len(), boundary(s, a)
    ensures ({ let e = tok_end(s, a); let t = tok(s, a); let q = xend(s, qt, a);
        &&& a < e <= s.len() && boundary(s, e)
        &&& t == Tok::Ok(Token::NewLine) ==> q == -1 && e == nl(s, a) && s[e - 1] == 10
        &&& t == Tok::Ok(Token::Control) ==> q == -1 && no10(s, a, e)
        &&& t == Tok::Ok(Token::DoubleQuote) <==> s[a] == 34
        &&& t == Tok::Ok(Token::PropertyDelimiter) <==> s[a] == 58
        &&& t == Tok::Ok(Token::ParameterDelimiter) <==> s[a] == 59
        &&& s[a] == 34 || s[a] == 58 || s[a] == 59 ==> e == a + 1 && no10(s, a, e) && t != Tok::Ok(Token::NewLine) && t != Tok::Ok(Token::Control)
        &&& qt && s[a] == 34 ==> q == a
        &&& !qt && (s[a] == 58 || s[a] == 59) ==> q == a
        &&& t != Tok::Ok(Token::NewLine) ==> no10(s, a, e)
    })
{
    ax_tok(s, a);
    if calm(s[a]) { assert forall|i: int| a <= i < tok_end(s, a) implies #[trigger] s[i] != 10 by { assert(calm(s[i])); } }
    if nl_at(s, a) { if s[a] == 10 { assert(nl(s, a) == a + 1); } else { assert(nl(s, a + 1) == a + 2); } }
}
pub open spec fn inner(s: Seq<u8>, qt: bool, a: int) -> bool {
    let t = tok(s, a);
    t != Tok::Ok(Token::NewLine) && t != Tok::Ok(Token::Control) && !(qt && s[a] == 34) && !(!qt && (s[a] == 58 || s[a] == 59 || special(t)))
}
pub proof fn lemma_ptok_in(s: Seq<u8>, qt: bool, a: int)
    requires wf(s), 0 <= a < s.len(), boundary(s, a), inner(s, qt, a)
    ensures ({ let e = tok_end(s, a); let t = tok(s, a); let q = xend(s, qt, a);
        q == xend(s, qt, e) && no10(s, a, e) && (q >= 0 ==> e <= q < s.len())
    })
{
    ax_tok(s, a);
    let e = tok_end(s, a);
    let q = xend(s, qt, a);
    if calm(s[a]) {
        assert forall|i: int| a <= i < e implies calm(#[trigger] s[i]) && (qt || s[i] != 58) by { assert(calm(s[i])); }
        lemma_xend_skip(s, qt, a, e);
    } else if esc_at(s, a) {
        if qt { assert(qend(s, a + 1) == qend(s, a + 2)); }
    }
    lemma_xend(s, qt, e);
}
pub proof fn lemma_ptok_une(s: Seq<u8>, a: int, q: int)
    requires wf(s), 0 <= a < s.len(), boundary(s, a), tok_end(s, a) <= q <= s.len(), !nl_at(s, a), !is_ctrl(s[a]),
        !(esc_at(s, a) && s[a + 1] != 59)
    ensures une(s.subrange(a, q)) == s.subrange(a, tok_end(s, a)) + une(s.subrange(tok_end(s, a), q))
{
    ax_tok(s, a);
    let e = tok_end(s, a);
    let v = s.subrange(a, q);
    if s[a] == 92 {
        assert(v[0] == 92);
        assert(v.len() >= 2 ==> v[1] == s[a + 1]);
        if !esc_at(s, a) { assert(v.drop_first() =~= s.subrange(e, q)); assert(s.subrange(a, e) =~= seq![92u8]); assert(une(v) == seq![92u8] + une(v.drop_first())); }
        else {
            assert(v.drop_first()[0] == 59);
            assert(une(v.drop_first()) == seq![59u8] + une(v.drop_first().drop_first()));
            assert(une(v) == seq![92u8] + une(v.drop_first()));
            assert(v.drop_first().drop_first() =~= s.subrange(e, q));
            assert(s.subrange(a, e) =~= seq![92u8] + seq![59u8]);
            assert(seq![92u8] + (seq![59u8] + une(s.subrange(e, q))) =~= s.subrange(a, e) + une(s.subrange(e, q)));
        }
    } else {
        assert forall|i: int| 0 <= i < s.subrange(a, e).len() implies #[trigger] s.subrange(a, e)[i] != 92 by { if calm(s[a]) { assert(calm(s[a + i])); } }
        assert(v =~= s.subrange(a, e) + s.subrange(e, q));
        lemma_une_calm(s.subrange(a, e), s.subrange(e, q));
    }
}
/// BEGIN:VCARD and the like in an unquoted value: the value ends at the colon
pub proof fn lemma_ptok_sp(s: Seq<u8>, a: int)
    requires wf(s), 0 <= a < s.len(), boundary(s, a), special(tok(s, a))
    ensures ({ let e = tok_end(s, a); let k = index_b(s.subrange(a, e), 58); let c = a + k; let q = xend(s, false, a);
        0 < k < e - a && boundary(s, c) && no10(s, a, c) && s[a] != 34 && s[c] == 58 && q == c && xend(s, false, c) == c && une(s.subrange(a, q)) == s.subrange(a, c) + une(s.subrange(c, q))
    })
{
    ax_tok(s, a);
    let e = tok_end(s, a);
    let w = s.subrange(a, e);
    crate::sh::ax_index_b(w, 58);
    let k = index_b(w, 58);
    let c = a + k;
    let i0 = choose|i: int| a < i < e && #[trigger] s[i] == 58;
    assert(w[i0 - a] == 58);
    assert(k < w.len());
    assert(w[k] == s[c]);
    assert(w[0] == s[a]);
    assert(crate::sh::is_cont(s[c]) == false);
    assert forall|i: int| a <= i < c implies calm(#[trigger] s[i]) && (false || s[i] != 58) by { assert(calm(s[i])); assert(w[i - a] != 58); }
    lemma_xend_skip(s, false, a, c);
    assert(xend(s, false, c) == c);
    let v = s.subrange(a, c);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != 92 by { assert(calm(s[a + i])); }
    lemma_une_calm(v, s.subrange(c, c));
    assert(v + s.subrange(c, c) =~= v);
}

pub proof fn pv_step(s: Seq<u8>, b: int, a: int, q: int)
    requires wf(s), 0 <= b <= a < s.len(), boundary(s, a), tok_end(s, a) <= q <= s.len(), tok(s, a) != Tok::Ok(Token::NewLine) && tok(s, a) != Tok::Ok(Token::Control),
        une(s.subrange(b, q)) == s.subrange(b, a) + une(s.subrange(a, q))
    ensures tok(s, a) != Tok::Ok(Token::EscapedNewLine) && tok(s, a) != Tok::Ok(Token::EscapedComma) && tok(s, a) != Tok::Ok(Token::EscapedBackSlash) ==>
        une(s.subrange(b, q)) == s.subrange(b, tok_end(s, a)) + une(s.subrange(tok_end(s, a), q))
{
    ax_tok(s, a);
    if tok(s, a) != Tok::Ok(Token::EscapedNewLine) && tok(s, a) != Tok::Ok(Token::EscapedComma) && tok(s, a) != Tok::Ok(Token::EscapedBackSlash) {
        lemma_ptok_une(s, a, q);
        lemma_une_step(s, b, a, tok_end(s, a), q);
    }
}

pub proof fn lemma_no10(s: Seq<u8>, a: int, b: int, c: int)
    ensures no10(s, a, b) && no10(s, b, c) ==> no10(s, a, c), no10(s, a, a)
{ }
}
