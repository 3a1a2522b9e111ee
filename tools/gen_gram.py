K=dict(
 TYPE='FN NICKNAME PHOTO ADR TEL EMAIL IMPP LANG TZ GEO TITLE ROLE LOGO ORG RELATED CATEGORIES NOTE SOUND URL KEY FBURL CALADRURI CALURI'.split())
vt='Text text Uri uri Date date Time time DateTime date-time DateAndOrTime date-and-or-time Timestamp timestamp Boolean boolean Integer integer Float float UtcOffset utc-offset LanguageTag language-tag'.split()
vts=list(zip(vt[::2],vt[1::2]))
pf='language value pref alt_id pid types media_type calscale sort_as geo timezone label extensions'.split()
vec='source xml formatted_name nickname photo url address tel email impp lang title role logo org member related timezone geo categories note sound client_pid_map key fburl cal_adr_uri cal_uri extensions'.split()
one='kind name bday anniversary gender prod_id rev uid'.split()
s='''/// the grammar: parameters, properties and cards as functions of the text
pub mod spec_g {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::sh::{fmt, fmt::Display, String, occurs, str_::FromStr};
use crate::property::*;
use crate::parameter::*;
use crate::parser::Token;
use crate::{Vcard, Uri, Error};

// ---------------------------------------------------------------- parameters
pub open spec fn value_of(s: Seq<u8>) -> Option<ValueType> { let l = lower(s); '''+' else '.join(f'if l == L"{b}" {{ Some(ValueType::{a}) }}' for a,b in vts)+''' else { None } }
pub broadcast proof fn ax_value(s: Seq<u8>, r: core::result::Result<ValueType, Error>)
    ensures #[trigger] <ValueType as FromStr>::post(s, r) ==> res_is(r, value_of(s))
{ crate::lits::ax_codes(); if <ValueType as FromStr>::post(s, r) { '''+' '.join(f'assert(ValueType::{a}.disp() == L"{b}");' for a,b in vts)+''' } }
pub open spec fn type_of(s: Seq<u8>) -> TypeParameter { choose|t: TypeParameter| type_is(s, t) }
pub proof fn lemma_tel(a: TelephoneType, b: TelephoneType) ensures a.disp() == b.disp() ==> a == b { crate::lits::ax_codes(); }
pub proof fn lemma_rel(a: RelatedType, b: RelatedType) ensures a.disp() == b.disp() ==> a == b { crate::lits::ax_codes(); }
pub proof fn lemma_type(s: Seq<u8>, a: TypeParameter, b: TypeParameter)
    requires type_is(s, a), type_is(s, b)
    ensures a == b
{
    if a is Telephone && b is Telephone { lemma_tel(a->Telephone_0, b->Telephone_0); }
    if a is Related && b is Related { lemma_rel(a->Related_0, b->Related_0); }
    if a is Extension && b is Extension { ax_str_ext(a->Extension_0, b->Extension_0); }
}
pub broadcast proof fn ax_type(s: Seq<u8>, r: core::result::Result<TypeParameter, Error>)
    ensures #[trigger] <TypeParameter as FromStr>::post(s, r) ==> r == core::result::Result::<TypeParameter, Error>::Ok(type_of(s))
{ if <TypeParameter as FromStr>::post(s, r) { lemma_type(s, r->Ok_0, type_of(s)); } }
pub open spec fn types_of(s: Seq<u8>) -> Seq<TypeParameter> { let p = split_b(s, 44); Seq::new(p.len(), |i: int| type_of(p[i])) }
pub open spec fn pids_of(s: Seq<u8>) -> Option<Vec<Pid>> { list_of(s, |s: Seq<u8>| pid_of(s)) }
pub proof fn lemma_pids(s: Seq<u8>, w: Vec<Pid>)
    requires w@.len() == split_b(s, 44).len(), forall|i: int| 0 <= i < w@.len() ==> pid_of(#[trigger] split_b(s, 44)[i]) == Some(w@[i])
    ensures pids_of(s) == Some(w)
{ let g = |s: Seq<u8>| pid_of(s); assert(pids_of(s) == list_of(s, g)); assert(w@ =~= vals_of(split_b(s, 44), g)); ax_vec_of(w); }
pub broadcast group group_par_val { crate::spec_v::group_val, ax_value, ax_type, crate::sh::ax_it_start, crate::sh::ax_it_step, crate::sh::ax_str_wf, crate::sh::ax_string_wf, crate::sh::ax_str_len }
pub broadcast group group_prop { crate::spec_v::group_val, crate::sh::ax_str_wf, crate::sh::ax_first, crate::sh::ax_none, crate::sh::ax_str_len }
/// the properties that may have TYPE
pub open spec fn typed(u: Seq<u8>) -> bool { '''+' || '.join(f'u == L"{n}"' for n in K['TYPE'])+''' || occurs(u, L"X-", 0) }
pub open spec fn params0() -> Parameters { Parameters { '''+', '.join(f+': None' for f in pf)+''' } }
/// the parameters `a` with one more: `t` and `n` are its name, `v` its value and `u` the name of the property in upper case
pub open spec fn put_par(strict: bool, u: Seq<u8>, t: Tok, n: Seq<u8>, v: Seq<u8>, qt: bool, a: Parameters) -> Option<Parameters> {
    let k = upper(n);
    if t == Tok::Ok(Token::ExtensionName) { Some(add_ext(n, v, a)) }
    else if k == L"LANGUAGE" { Some(Parameters { language: Some(str_of(v)), ..a }) }
    else if k == L"VALUE" { match value_of(v) { Some(x) => Some(Parameters { value: Some(x), ..a }), None => if strict { None } else { Some(a) } } }
    else if k == L"PREF" { match int_parse(v) { Some(i) => if 1 <= i <= 100 { Some(Parameters { pref: Some(i as u8), ..a }) } else { None }, None => None } }
    else if k == L"ALTID" { Some(Parameters { alt_id: Some(str_of(v)), ..a }) }
    else if k == L"PID" { match pids_of(v) { Some(x) => Some(Parameters { pid: Some(x), ..a }), None => None } }
    else if k == L"TYPE" { if typed(u) { Some(Parameters { types: Some(vec_of(match a.types { Some(x) => x@ + types_of(v), None => types_of(v) })), ..a }) } else { None } }
    else if k == L"MEDIATYPE" { Some(Parameters { media_type: Some(str_of(v)), ..a }) }
    else if k == L"CALSCALE" { Some(Parameters { calscale: Some(str_of(v)), ..a }) }
    else if k == L"SORT-AS" { Some(Parameters { sort_as: Some(strs_of(split_b(v, 44))), ..a }) }
    else if k == L"GEO" { if qt { match uri_of(v) { Some(x) => Some(Parameters { geo: Some(x), ..a }), None => None } } else { None } }
    else if k == L"TZ" {
        if qt { match uri_of(v) { Some(x) => Some(Parameters { timezone: Some(TimeZoneParameter::Uri(x)), ..a }), None => None } }
        else { match off_of(v) { Some(x) => Some(Parameters { timezone: Some(TimeZoneParameter::UtcOffset(x)), ..a }), None => Some(Parameters { timezone: Some(TimeZoneParameter::Text(str_of(v))), ..a }) } }
    }
    else if k == L"CHARSET" { if v == L"UTF-8" { Some(a) } else { None } }
    else if k == L"LABEL" { if u == L"ADR" { Some(Parameters { label: Some(str_of(v)), ..a }) } else { None } }
    else if k == L"ENCODING" { Some(add_ext(n, v, a)) }
    else { None }
}
/// tokens that name a parameter
pub open spec fn par_tok(t: Tok) -> bool { t == Tok::Ok(Token::ParameterKey) || t == Tok::Ok(Token::ExtensionName) || t == Tok::Ok(Token::TimeZone) || t == Tok::Ok(Token::Geo) }
/// the parameters that start at `p`, added to `a`, and the position after the colon that ends them
pub open spec fn pars(s: Seq<u8>, p: int, strict: bool, u: Seq<u8>, a: Parameters) -> Option<(Parameters, int)> decreases s.len() - p {
    if p >= s.len() { Some((a, s.len() as int)) }
    else {
        let e = tok_end(s, p);
        if !par_tok(tok(s, p)) || !(e < s.len() && s[e] == 61) { None }
        else {
            match pv(s, e + 1) {
                None => None,
                Some(x) => match put_par(strict, u, tok(s, p), s.subrange(p, e), x.0, x.1, a) {
                    None => None,
                    Some(b) => if s[x.2 - 1] == 58 { Some((b, x.2)) } else if x.2 <= p || x.2 > s.len() { None } else { pars(s, x.2, strict, u, b) },
                },
            }
        }
    }
}
pub proof fn lemma_pars(s: Seq<u8>, p: int, strict: bool, u: Seq<u8>, a: Parameters)
    ensures pars(s, p, strict, u, a) == (
        if p >= s.len() { Some((a, s.len() as int)) }
        else {
            let e = tok_end(s, p);
            if !par_tok(tok(s, p)) || !(e < s.len() && s[e] == 61) { None }
            else {
                match pv(s, e + 1) {
                    None => None,
                    Some(x) => match put_par(strict, u, tok(s, p), s.subrange(p, e), x.0, x.1, a) {
                        None => None,
                        Some(b) => if s[x.2 - 1] == 58 { Some((b, x.2)) } else if x.2 <= p || x.2 > s.len() { None } else { pars(s, x.2, strict, u, b) },
                    },
                }
            }
        })
{ }
/// the value of a parameter ends at a delimiter
pub proof fn lemma_pv(s: Seq<u8>, p: int)
    requires 0 <= p
    ensures pv(s, p) is Some ==> p < (pv(s, p)->0).2 <= s.len() && (s[(pv(s, p)->0).2 - 1] == 58 || s[(pv(s, p)->0).2 - 1] == 59)
{ lemma_xend(s, is_q(s, p), vbeg(s, p)); }
/// a token that does not break a line
pub proof fn lemma_line_tok(s: Seq<u8>, p: int)
    requires wf(s), 0 <= p < s.len(), boundary(s, p)
    ensures p < tok_end(s, p) <= s.len(), boundary(s, tok_end(s, p)), tok(s, p) != Tok::Ok(Token::NewLine) ==> no10(s, p, tok_end(s, p)),
        tok(s, p) == Tok::Ok(Token::NewLine) ==> tok_end(s, p) == nl(s, p) && s[tok_end(s, p) - 1] == 10,
        tok(s, p) == Tok::Ok(Token::ValueDelimiter) <==> s[p] == 61,
        tok(s, p) == Tok::Ok(Token::PropertyDelimiter) <==> s[p] == 58,
        tok(s, p) == Tok::Ok(Token::ParameterDelimiter) <==> s[p] == 59,
        s[p] == 61 || s[p] == 58 || s[p] == 59 ==> tok_end(s, p) == p + 1,
{ ax_tok(s, p); lemma_ptok(s, false, p); }
/// still on the line that starts at `p0`
pub proof fn lemma_frame(s: Seq<u8>, p0: int, p: int, st: int, en: int)
    requires 0 <= p0 <= p <= s.len(), no10(s, p0, p), frame(s, p, st, en)
    ensures frame(s, p0, st, en)
{ lemma_nl(s, p0, p); }

pub proof fn lemma_frames(s: Seq<u8>, p0: int, p: int)
    requires 0 <= p0 <= p <= s.len(), no10(s, p0, p)
    ensures forall|st: int, en: int| #[trigger] frame(s, p, st, en) ==> frame(s, p0, st, en),
        forall|en: int| p < en <= s.len() && no10(s, p, en) ==> #[trigger] frame(s, p0, p, en),
        forall|en: int| p < en <= s.len() && en == nl(s, p) && s[en - 1] == 10 ==> #[trigger] frame(s, p0, p, en),
        frame(s, p0, p, p)
{
    assert forall|st: int, en: int| #[trigger] frame(s, p, st, en) implies frame(s, p0, st, en) by { lemma_frame(s, p0, p, st, en); }
    lemma_nl(s, p0, p);
}
// ---------------------------------------------------------------- properties and cards
pub open spec fn group_of(n: Seq<u8>) -> Gr { let k = index_b(n, 46); if k < n.len() { Some(str_of(n.take(k))) } else { None } }
pub open spec fn name_of(n: Seq<u8>) -> Seq<u8> { let k = index_b(n, 46); if k < n.len() { n.skip(k + 1) } else { n } }
pub open spec fn put_at(s: Seq<u8>, p: int, z: int, q: Pa, a: Vcard) -> Option<Vcard> {
    let n = s.subrange(p, tok_end(s, p));
    if vend(s, z) < 0 { None } else { put(tok(s, p), name_of(n), s.subrange(z, vend(s, z)), q, group_of(n), a) }
}
/// the card `a` with the property whose name starts at `p`
pub open spec fn prop_at(s: Seq<u8>, p: int, strict: bool, a: Vcard) -> Option<Vcard> {
    let e = tok_end(s, p);
    if e >= s.len() { None }
    else if s[e] == 59 { match pars(s, e + 1, strict, upper(name_of(s.subrange(p, e))), params0()) { None => None, Some(x) => put_at(s, p, x.1, Some(x.0), a) } }
    else if s[e] == 58 { put_at(s, p, e + 1, None, a) }
    else { None }
}
/// tokens that name a property
pub open spec fn name_tok(t: Tok) -> bool { t == Tok::Ok(Token::PropertyName) || t == Tok::Ok(Token::ExtensionName) || t == Tok::Ok(Token::TimeZone) || t == Tok::Ok(Token::Geo) }
pub open spec fn line_at(s: Seq<u8>, p: int, strict: bool, a: Vcard) -> Option<Vcard> { if name_tok(tok(s, p)) { prop_at(s, p, strict, a) } else { None } }
/// the card `a` with the properties that start at `p`, and where the END that follows them starts
pub open spec fn props(s: Seq<u8>, p: int, strict: bool, a: Vcard) -> Option<(Vcard, int)> decreases s.len() - p {
    if p < 0 || p >= s.len() { None }
    else if tok(s, p) == Tok::Ok(Token::End) { Some((a, p)) }
    else if tok(s, p) == Tok::Ok(Token::Version) { None }
    else {
        match line_at(s, p, strict, a) {
            Some(b) => if nl(s, p) <= p || nl(s, p) > s.len() { None } else { props(s, nl(s, p), strict, b) },
            None => if strict || tok(s, p) == Tok::Ok(Token::Begin) || nl(s, p) <= p || nl(s, p) > s.len() { None } else { props(s, nl(s, p), strict, a) },
        }
    }
}
pub proof fn lemma_props(s: Seq<u8>, p: int, strict: bool, a: Vcard)
    requires 0 <= p <= s.len()
    ensures p < s.len() ==> p < nl(s, p) <= s.len(), props(s, p, strict, a) == (
        if p >= s.len() { None }
        else if tok(s, p) == Tok::Ok(Token::End) { Some((a, p)) }
        else if tok(s, p) == Tok::Ok(Token::Version) { None }
        else {
            match line_at(s, p, strict, a) {
                Some(b) => props(s, nl(s, p), strict, b),
                None => if strict || tok(s, p) == Tok::Ok(Token::Begin) { None } else { props(s, nl(s, p), strict, a) },
            }
        })
{ lemma_nl_up(s, p); if p < s.len() { lemma_nl_up(s, p + 1); } }
pub proof fn lemma_nl_up(s: Seq<u8>, p: int) requires 0 <= p <= s.len() ensures p <= nl(s, p) <= s.len(), p < s.len() ==> p < nl(s, p) decreases s.len() - p { if p < s.len() { lemma_nl_up(s, p + 1); } }
pub open spec fn vcard0() -> Vcard { Vcard { '''+', '.join(f+': None' for f in one)+', '+', '.join(f+': vec_of(Seq::empty())' for f in vec)+''' } }
pub open spec fn is_nl(s: Seq<u8>, p: int) -> bool { 0 <= p < s.len() && tok(s, p) == Tok::Ok(Token::NewLine) }
pub open spec fn is_ver(s: Seq<u8>, p: int) -> bool { 0 <= p < s.len() && tok(s, p) == Tok::Ok(Token::Version) }
/// the card that starts at `p`: BEGIN, VERSION, the properties and END; and the position of END
pub open spec fn card_at(s: Seq<u8>, p: int, strict: bool) -> Option<(Vcard, int)> {
    let e1 = tok_end(s, p); let e2 = tok_end(s, e1); let e3 = tok_end(s, e2); let e4 = tok_end(s, e3);
    if tok(s, p) == Tok::Ok(Token::Begin) && is_nl(s, e1) && is_ver(s, e2) && is_nl(s, e3) { props(s, e4, strict, vcard0()) } else { None }
}
/// all the cards from `p` on
pub open spec fn cards_at(s: Seq<u8>, p: int, strict: bool) -> Option<Seq<Vcard>> decreases s.len() - p {
    if p < 0 || p >= s.len() { Some(Seq::empty()) }
    else if is_nl(s, p) { if tok_end(s, p) <= p || tok_end(s, p) > s.len() { None } else { cards_at(s, tok_end(s, p), strict) } }
    else {
        match card_at(s, p, strict) {
            None => None,
            Some(x) => if !valid(x.0) || tok_end(s, x.1) <= p || tok_end(s, x.1) > s.len() { None } else { match cards_at(s, tok_end(s, x.1), strict) { None => None, Some(v) => Some(seq![x.0] + v) } },
        }
    }
}
}
'''
open('/verif/contracts/spec_e.rs','w').write(s)
