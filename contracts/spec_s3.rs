/// cards are printed and read back
pub mod spec_z {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_g::*;
use crate::spec_r::*;
use crate::spec_q::*;
use crate::spec_w::*;
use crate::spec_x::*;
use crate::spec_y::*;
use crate::spec_b::*;
use crate::spec_p::valid;
use crate::sh::{wf, utf8, at8, boundary, is_cont, index_b, upper, String, ToString, fmt::Display};
use crate::property::*;
use crate::parameter::*;
use crate::Vcard;

/// a group and parameters that can be written in front of a value
pub open spec fn fit_around(g: Gr, p: Pa, n: Seq<u8>) -> bool { group_ok(g) && (p is Some ==> fit_params(p->0, upper(n))) }
pub proof fn lemma_around<P: Property>(t: P, n: Seq<u8>)
    requires fit_around(t.pgroup(), t.pparams(), n), unctl(t.disp())
    ensures ok(t, n)
{
    hide(fit_params);
    reveal(ok); reveal(par_back);
    if t.pparams() is Some { lemma_fit_params(t.pparams()->0, upper(n)); }
}
pub open spec fn fit_all<P: Property>(v: Seq<P>, n: Seq<u8>, f: spec_fn(P) -> bool) -> bool { forall|i: int| 0 <= i < v.len() ==> fit_around((#[trigger] v[i]).pgroup(), v[i].pparams(), n) && f(v[i]) }
pub open spec fn fit_opt<P: Property>(v: Option<P>, n: Seq<u8>, f: spec_fn(P) -> bool) -> bool { v is Some ==> fit_around((v->0).pgroup(), (v->0).pparams(), n) && f(v->0) }

pub open spec fn fits_source(c: Vcard) -> bool { fit_all(c.source@, L"SOURCE", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_source(c: Vcard)
    requires fits_source(c)
    ensures okf_source(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.source@.len() implies ok_source(#[trigger] c.source@[i]) by { let t = c.source@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"SOURCE"); }
}
pub open spec fn fits_kind(c: Vcard) -> bool { fit_opt(c.kind, L"KIND", |t: KindProperty| fit_kind(t)) }
pub proof fn lemma_fits_kind(c: Vcard)
    requires fits_kind(c)
    ensures okf_kind(c)
{ if c.kind is Some { let t = c.kind->0; lemma_fit_kind(t); lemma_around(t, L"KIND"); } }
pub open spec fn fits_xml(c: Vcard) -> bool { fit_all(c.xml@, L"XML", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_xml(c: Vcard)
    requires fits_xml(c)
    ensures okf_xml(c)
{
    let g = |t: TextProperty| fit_text(t);
    assert forall|i: int| 0 <= i < c.xml@.len() implies ok_xml(#[trigger] c.xml@[i]) by { let t = c.xml@[i]; assert(g(t)); lemma_fit_text(t); lemma_around(t, L"XML"); }
}
pub open spec fn fits_formatted_name(c: Vcard) -> bool { fit_all(c.formatted_name@, L"FN", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_formatted_name(c: Vcard)
    requires fits_formatted_name(c)
    ensures okf_formatted_name(c)
{
    let g = |t: TextProperty| fit_text(t);
    assert forall|i: int| 0 <= i < c.formatted_name@.len() implies ok_formatted_name(#[trigger] c.formatted_name@[i]) by { let t = c.formatted_name@[i]; assert(g(t)); lemma_fit_text(t); lemma_around(t, L"FN"); }
}
pub open spec fn fits_name(c: Vcard) -> bool { fit_opt(c.name, L"N", |t: TextListProperty| fit_semi(t)) }
pub proof fn lemma_fits_name(c: Vcard)
    requires fits_name(c)
    ensures okf_name(c)
{ if c.name is Some { let t = c.name->0; lemma_fit_semi(t); lemma_around(t, L"N"); } }
pub open spec fn fits_nickname(c: Vcard) -> bool { fit_all(c.nickname@, L"NICKNAME", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_nickname(c: Vcard)
    requires fits_nickname(c)
    ensures okf_nickname(c)
{
    let g = |t: TextProperty| fit_text(t);
    assert forall|i: int| 0 <= i < c.nickname@.len() implies ok_nickname(#[trigger] c.nickname@[i]) by { let t = c.nickname@[i]; assert(g(t)); lemma_fit_text(t); lemma_around(t, L"NICKNAME"); }
}
pub open spec fn fits_photo(c: Vcard) -> bool { fit_all(c.photo@, L"PHOTO", |t: TextOrUriProperty| fit_guess(t)) }
pub proof fn lemma_fits_photo(c: Vcard)
    requires fits_photo(c)
    ensures okf_photo(c)
{
    let g = |t: TextOrUriProperty| fit_guess(t);
    assert forall|i: int| 0 <= i < c.photo@.len() implies ok_photo(#[trigger] c.photo@[i]) by { let t = c.photo@[i]; assert(g(t)); lemma_fit_guess(t); lemma_around(t, L"PHOTO"); }
}
pub open spec fn fits_bday(c: Vcard) -> bool { fit_opt(c.bday, L"BDAY", |t: DateTimeOrTextProperty| fit_dot(t)) }
pub proof fn lemma_fits_bday(c: Vcard)
    requires fits_bday(c)
    ensures okf_bday(c)
{ if c.bday is Some { let t = c.bday->0; lemma_fit_dot(t); lemma_around(t, L"BDAY"); } }
pub open spec fn fits_anniversary(c: Vcard) -> bool { fit_opt(c.anniversary, L"ANNIVERSARY", |t: DateTimeOrTextProperty| fit_dot(t)) }
pub proof fn lemma_fits_anniversary(c: Vcard)
    requires fits_anniversary(c)
    ensures okf_anniversary(c)
{ if c.anniversary is Some { let t = c.anniversary->0; lemma_fit_dot(t); lemma_around(t, L"ANNIVERSARY"); } }
pub open spec fn fits_gender(c: Vcard) -> bool { fit_opt(c.gender, L"GENDER", |t: GenderProperty| fit_gender(t)) }
pub proof fn lemma_fits_gender(c: Vcard)
    requires fits_gender(c)
    ensures okf_gender(c)
{ if c.gender is Some { let t = c.gender->0; lemma_fit_gender(t); lemma_around(t, L"GENDER"); } }
pub open spec fn fits_url(c: Vcard) -> bool { fit_all(c.url@, L"URL", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_url(c: Vcard)
    requires fits_url(c)
    ensures okf_url(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.url@.len() implies ok_url(#[trigger] c.url@[i]) by { let t = c.url@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"URL"); }
}
pub open spec fn fits_address(c: Vcard) -> bool { fit_all(c.address@, L"ADR", |t: AddressProperty| fit_adr(t)) }
pub proof fn lemma_fits_address(c: Vcard)
    requires fits_address(c)
    ensures okf_address(c)
{
    let g = |t: AddressProperty| fit_adr(t);
    assert forall|i: int| 0 <= i < c.address@.len() implies ok_address(#[trigger] c.address@[i]) by { let t = c.address@[i]; assert(g(t)); lemma_fit_adr(t); lemma_around(t, L"ADR"); }
}
pub open spec fn fits_title(c: Vcard) -> bool { fit_all(c.title@, L"TITLE", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_title(c: Vcard)
    requires fits_title(c)
    ensures okf_title(c)
{
    let g = |t: TextProperty| fit_text(t);
    assert forall|i: int| 0 <= i < c.title@.len() implies ok_title(#[trigger] c.title@[i]) by { let t = c.title@[i]; assert(g(t)); lemma_fit_text(t); lemma_around(t, L"TITLE"); }
}
pub open spec fn fits_role(c: Vcard) -> bool { fit_all(c.role@, L"ROLE", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_role(c: Vcard)
    requires fits_role(c)
    ensures okf_role(c)
{
    let g = |t: TextProperty| fit_text(t);
    assert forall|i: int| 0 <= i < c.role@.len() implies ok_role(#[trigger] c.role@[i]) by { let t = c.role@[i]; assert(g(t)); lemma_fit_text(t); lemma_around(t, L"ROLE"); }
}
pub open spec fn fits_logo(c: Vcard) -> bool { fit_all(c.logo@, L"LOGO", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_logo(c: Vcard)
    requires fits_logo(c)
    ensures okf_logo(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.logo@.len() implies ok_logo(#[trigger] c.logo@[i]) by { let t = c.logo@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"LOGO"); }
}
pub open spec fn fits_org(c: Vcard) -> bool { fit_all(c.org@, L"ORG", |t: TextListProperty| fit_semi(t)) }
pub proof fn lemma_fits_org(c: Vcard)
    requires fits_org(c)
    ensures okf_org(c)
{
    let g = |t: TextListProperty| fit_semi(t);
    assert forall|i: int| 0 <= i < c.org@.len() implies ok_org(#[trigger] c.org@[i]) by { let t = c.org@[i]; assert(g(t)); lemma_fit_semi(t); lemma_around(t, L"ORG"); }
}
pub open spec fn fits_member(c: Vcard) -> bool { fit_all(c.member@, L"MEMBER", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_member(c: Vcard)
    requires fits_member(c)
    ensures okf_member(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.member@.len() implies ok_member(#[trigger] c.member@[i]) by { let t = c.member@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"MEMBER"); }
}
pub open spec fn fits_related(c: Vcard) -> bool { fit_all(c.related@, L"RELATED", |t: TextOrUriProperty| fit_tou(t)) }
pub proof fn lemma_fits_related(c: Vcard)
    requires fits_related(c)
    ensures okf_related(c)
{
    let g = |t: TextOrUriProperty| fit_tou(t);
    assert forall|i: int| 0 <= i < c.related@.len() implies ok_related(#[trigger] c.related@[i]) by { let t = c.related@[i]; assert(g(t)); lemma_fit_tou(t); lemma_around(t, L"RELATED"); }
}
pub open spec fn fits_tel(c: Vcard) -> bool { fit_all(c.tel@, L"TEL", |t: TextOrUriProperty| fit_tou(t)) }
pub proof fn lemma_fits_tel(c: Vcard)
    requires fits_tel(c)
    ensures okf_tel(c)
{
    let g = |t: TextOrUriProperty| fit_tou(t);
    assert forall|i: int| 0 <= i < c.tel@.len() implies ok_tel(#[trigger] c.tel@[i]) by { let t = c.tel@[i]; assert(g(t)); lemma_fit_tou(t); lemma_around(t, L"TEL"); }
}
pub open spec fn fits_email(c: Vcard) -> bool { fit_all(c.email@, L"EMAIL", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_email(c: Vcard)
    requires fits_email(c)
    ensures okf_email(c)
{
    let g = |t: TextProperty| fit_text(t);
    assert forall|i: int| 0 <= i < c.email@.len() implies ok_email(#[trigger] c.email@[i]) by { let t = c.email@[i]; assert(g(t)); lemma_fit_text(t); lemma_around(t, L"EMAIL"); }
}
pub open spec fn fits_impp(c: Vcard) -> bool { fit_all(c.impp@, L"IMPP", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_impp(c: Vcard)
    requires fits_impp(c)
    ensures okf_impp(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.impp@.len() implies ok_impp(#[trigger] c.impp@[i]) by { let t = c.impp@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"IMPP"); }
}
pub open spec fn fits_lang(c: Vcard) -> bool { fit_all(c.lang@, L"LANG", |t: LanguageProperty| fit_lang(t)) }
pub proof fn lemma_fits_lang(c: Vcard)
    requires fits_lang(c)
    ensures okf_lang(c)
{
    let g = |t: LanguageProperty| fit_lang(t);
    assert forall|i: int| 0 <= i < c.lang@.len() implies ok_lang(#[trigger] c.lang@[i]) by { let t = c.lang@[i]; assert(g(t)); lemma_fit_lang(t); lemma_around(t, L"LANG"); }
}
pub open spec fn fits_timezone(c: Vcard) -> bool { fit_all(c.timezone@, L"TZ", |t: TimeZoneProperty| fit_tz(t)) }
pub proof fn lemma_fits_timezone(c: Vcard)
    requires fits_timezone(c)
    ensures okf_timezone(c)
{
    let g = |t: TimeZoneProperty| fit_tz(t);
    assert forall|i: int| 0 <= i < c.timezone@.len() implies ok_timezone(#[trigger] c.timezone@[i]) by { let t = c.timezone@[i]; assert(g(t)); lemma_fit_tz(t); lemma_around(t, L"TZ"); }
}
pub open spec fn fits_geo(c: Vcard) -> bool { fit_all(c.geo@, L"GEO", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_geo(c: Vcard)
    requires fits_geo(c)
    ensures okf_geo(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.geo@.len() implies ok_geo(#[trigger] c.geo@[i]) by { let t = c.geo@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"GEO"); }
}
pub open spec fn fits_categories(c: Vcard) -> bool { fit_all(c.categories@, L"CATEGORIES", |t: TextListProperty| fit_comma(t)) }
pub proof fn lemma_fits_categories(c: Vcard)
    requires fits_categories(c)
    ensures okf_categories(c)
{
    let g = |t: TextListProperty| fit_comma(t);
    assert forall|i: int| 0 <= i < c.categories@.len() implies ok_categories(#[trigger] c.categories@[i]) by { let t = c.categories@[i]; assert(g(t)); lemma_fit_comma(t); lemma_around(t, L"CATEGORIES"); }
}
pub open spec fn fits_note(c: Vcard) -> bool { fit_all(c.note@, L"NOTE", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_note(c: Vcard)
    requires fits_note(c)
    ensures okf_note(c)
{
    let g = |t: TextProperty| fit_text(t);
    assert forall|i: int| 0 <= i < c.note@.len() implies ok_note(#[trigger] c.note@[i]) by { let t = c.note@[i]; assert(g(t)); lemma_fit_text(t); lemma_around(t, L"NOTE"); }
}
pub open spec fn fits_prod_id(c: Vcard) -> bool { fit_opt(c.prod_id, L"PRODID", |t: TextProperty| fit_text(t)) }
pub proof fn lemma_fits_prod_id(c: Vcard)
    requires fits_prod_id(c)
    ensures okf_prod_id(c)
{ if c.prod_id is Some { let t = c.prod_id->0; lemma_fit_text(t); lemma_around(t, L"PRODID"); } }
pub open spec fn fits_rev(c: Vcard) -> bool { fit_opt(c.rev, L"REV", |t: DateTimeProperty| fit_stamp(t)) }
pub proof fn lemma_fits_rev(c: Vcard)
    requires fits_rev(c)
    ensures okf_rev(c)
{ if c.rev is Some { let t = c.rev->0; lemma_fit_stamp(t); lemma_around(t, L"REV"); } }
pub open spec fn fits_sound(c: Vcard) -> bool { fit_all(c.sound@, L"SOUND", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_sound(c: Vcard)
    requires fits_sound(c)
    ensures okf_sound(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.sound@.len() implies ok_sound(#[trigger] c.sound@[i]) by { let t = c.sound@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"SOUND"); }
}
pub open spec fn fits_uid(c: Vcard) -> bool { fit_opt(c.uid, L"UID", |t: TextOrUriProperty| fit_tou(t)) }
pub proof fn lemma_fits_uid(c: Vcard)
    requires fits_uid(c)
    ensures okf_uid(c)
{ if c.uid is Some { let t = c.uid->0; lemma_fit_tou(t); lemma_around(t, L"UID"); } }
pub open spec fn fits_client_pid_map(c: Vcard) -> bool { fit_all(c.client_pid_map@, L"CLIENTPIDMAP", |t: ClientPidMapProperty| fit_pidmap(t)) }
pub proof fn lemma_fits_client_pid_map(c: Vcard)
    requires fits_client_pid_map(c)
    ensures okf_client_pid_map(c)
{
    let g = |t: ClientPidMapProperty| fit_pidmap(t);
    assert forall|i: int| 0 <= i < c.client_pid_map@.len() implies ok_client_pid_map(#[trigger] c.client_pid_map@[i]) by { let t = c.client_pid_map@[i]; assert(g(t)); lemma_fit_pidmap(t); lemma_around(t, L"CLIENTPIDMAP"); }
}
pub open spec fn fits_key(c: Vcard) -> bool { fit_all(c.key@, L"KEY", |t: TextOrUriProperty| fit_tou(t)) }
pub proof fn lemma_fits_key(c: Vcard)
    requires fits_key(c)
    ensures okf_key(c)
{
    let g = |t: TextOrUriProperty| fit_tou(t);
    assert forall|i: int| 0 <= i < c.key@.len() implies ok_key(#[trigger] c.key@[i]) by { let t = c.key@[i]; assert(g(t)); lemma_fit_tou(t); lemma_around(t, L"KEY"); }
}
pub open spec fn fits_fburl(c: Vcard) -> bool { fit_all(c.fburl@, L"FBURL", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_fburl(c: Vcard)
    requires fits_fburl(c)
    ensures okf_fburl(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.fburl@.len() implies ok_fburl(#[trigger] c.fburl@[i]) by { let t = c.fburl@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"FBURL"); }
}
pub open spec fn fits_cal_adr_uri(c: Vcard) -> bool { fit_all(c.cal_adr_uri@, L"CALADRURI", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_cal_adr_uri(c: Vcard)
    requires fits_cal_adr_uri(c)
    ensures okf_cal_adr_uri(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.cal_adr_uri@.len() implies ok_cal_adr_uri(#[trigger] c.cal_adr_uri@[i]) by { let t = c.cal_adr_uri@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"CALADRURI"); }
}
pub open spec fn fits_cal_uri(c: Vcard) -> bool { fit_all(c.cal_uri@, L"CALURI", |t: UriProperty| fit_uri(t)) }
pub proof fn lemma_fits_cal_uri(c: Vcard)
    requires fits_cal_uri(c)
    ensures okf_cal_uri(c)
{
    let g = |t: UriProperty| fit_uri(t);
    assert forall|i: int| 0 <= i < c.cal_uri@.len() implies ok_cal_uri(#[trigger] c.cal_uri@[i]) by { let t = c.cal_uri@[i]; assert(g(t)); lemma_fit_uri(t); lemma_around(t, L"CALURI"); }
}
pub open spec fn fits_extensions(c: Vcard) -> bool { forall|i: int| 0 <= i < c.extensions@.len() ==> fit_around((#[trigger] c.extensions@[i]).group, c.extensions@[i].parameters, c.extensions@[i].name@) && fit_ext(c.extensions@[i]) }
pub proof fn lemma_fits_extensions(c: Vcard)
    requires fits_extensions(c)
    ensures okf_extensions(c)
{
    hide(fit_ext); hide(w_ext);
    assert forall|i: int| 0 <= i < c.extensions@.len() implies ok_extensions(#[trigger] c.extensions@[i]) by { let t = c.extensions@[i]; lemma_fit_ext(t); lemma_around(t, t.name@); }
}
/// a card that can be written: its groups, parameters and values can
pub open spec fn readable(c: Vcard) -> bool {
    &&& fits_source(c)
    &&& fits_kind(c)
    &&& fits_xml(c)
    &&& fits_formatted_name(c)
    &&& fits_name(c)
    &&& fits_nickname(c)
    &&& fits_photo(c)
    &&& fits_bday(c)
    &&& fits_anniversary(c)
    &&& fits_gender(c)
    &&& fits_url(c)
    &&& fits_address(c)
    &&& fits_title(c)
    &&& fits_role(c)
    &&& fits_logo(c)
    &&& fits_org(c)
    &&& fits_member(c)
    &&& fits_related(c)
    &&& fits_tel(c)
    &&& fits_email(c)
    &&& fits_impp(c)
    &&& fits_lang(c)
    &&& fits_timezone(c)
    &&& fits_geo(c)
    &&& fits_categories(c)
    &&& fits_note(c)
    &&& fits_prod_id(c)
    &&& fits_rev(c)
    &&& fits_sound(c)
    &&& fits_uid(c)
    &&& fits_client_pid_map(c)
    &&& fits_key(c)
    &&& fits_fburl(c)
    &&& fits_cal_adr_uri(c)
    &&& fits_cal_uri(c)
    &&& fits_extensions(c)
}
pub proof fn lemma_readable(c: Vcard)
    requires readable(c)
    ensures okc(c)
{
    lemma_fits_source(c); lemma_fits_kind(c); lemma_fits_xml(c); lemma_fits_formatted_name(c); lemma_fits_name(c); lemma_fits_nickname(c); lemma_fits_photo(c); lemma_fits_bday(c); lemma_fits_anniversary(c); lemma_fits_gender(c); lemma_fits_url(c); lemma_fits_address(c); lemma_fits_title(c); lemma_fits_role(c); lemma_fits_logo(c); lemma_fits_org(c); lemma_fits_member(c); lemma_fits_related(c); lemma_fits_tel(c); lemma_fits_email(c); lemma_fits_impp(c); lemma_fits_lang(c); lemma_fits_timezone(c); lemma_fits_geo(c); lemma_fits_categories(c); lemma_fits_note(c); lemma_fits_prod_id(c); lemma_fits_rev(c); lemma_fits_sound(c); lemma_fits_uid(c); lemma_fits_client_pid_map(c); lemma_fits_key(c); lemma_fits_fburl(c); lemma_fits_cal_adr_uri(c); lemma_fits_cal_uri(c); lemma_fits_extensions(c);
}
/// the number of bytes that follow a first byte
pub open spec fn more(b: u8) -> int { if b < 128 { 0 } else if b < 224 { 1 } else if b < 240 { 2 } else { 3 } }
#[verifier::opaque]
pub open spec fn good(s: Seq<u8>, i: int) -> bool { s[i] < 248 && at8(s, i + 1, more(s[i])) }
pub proof fn lemma_good(s: Seq<u8>, i: int)
    requires utf8(s), 0 <= i < s.len(), !is_cont(s[i])
    ensures good(s, i)
{ reveal(utf8); reveal(good); }
pub proof fn lemma_all_good(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() && !is_cont(#[trigger] s[i]) ==> good(s, i)
    ensures utf8(s)
{
    assert forall|i: int| 0 <= i < s.len() && !is_cont(#[trigger] s[i]) implies s[i] < 248 && at8(s, i + 1, if s[i] < 128 { 0 } else if s[i] < 224 { 1 } else if s[i] < 240 { 2 } else { 3 }) by { assert(good(s, i)); reveal(good); }
    reveal(utf8);
}
/// a character of `a` at `i` is one of `s`, which has `a` from `d` to `e`, if no continuation follows there
pub proof fn lemma_good_in(a: Seq<u8>, i: int, s: Seq<u8>, d: int)
    requires good(a, i), 0 <= i < a.len(), 0 <= d, d + a.len() <= s.len(), s.subrange(d, d + a.len()) == a, d + a.len() < s.len() ==> !is_cont(s[d + a.len()])
    ensures good(s, d + i)
{
    reveal(good);
    let m = more(a[i]); let sub = s.subrange(d, d + a.len());
    assert(sub[i] == s[d + i]);
    assert forall|j: int| d + i + 1 <= j < d + i + 1 + m implies is_cont(#[trigger] s[j]) by { assert(is_cont(a[j - d])); assert(sub[j - d] == s[j]); }
    let z = i + 1 + m;
    assert(boundary(a, z));
    if z < a.len() { assert(sub[z] == s[d + z]); }
}
/// and back
pub proof fn lemma_good_out(s: Seq<u8>, d: int, a: Seq<u8>, i: int)
    requires good(s, d + i), 0 <= i < a.len(), 0 <= d, d + a.len() <= s.len(), s.subrange(d, d + a.len()) == a, boundary(s, d + a.len())
    ensures good(a, i)
{
    reveal(good);
    let m = more(s[d + i]); let sub = s.subrange(d, d + a.len()); let k = d + a.len();
    assert(sub[i] == s[d + i]);
    if k < d + i + 1 + m { assert(is_cont(s[k])); }
    assert forall|j: int| i + 1 <= j < i + 1 + m implies is_cont(#[trigger] a[j]) by { assert(is_cont(s[d + j])); assert(sub[j] == s[d + j]); }
    let z = i + 1 + m;
    assert(boundary(s, d + z));
    if z < a.len() { assert(sub[z] == s[d + z]); }
}
/// text put together from text, and cut between characters, is text
pub proof fn lemma_wf_cat(a: Seq<u8>, b: Seq<u8>)
    requires wf(a), wf(b)
    ensures wf(a + b)
{
    let s = a + b; let n = a.len() as int;
    assert(s.subrange(0, n) == a); assert(s.subrange(n, n + b.len()) == b);
    assert(b.len() > 0 ==> s[n] == b[0]);
    assert forall|i: int| 0 <= i < s.len() && is_cont(#[trigger] s[i]) implies i > 0 && s[i - 1] >= 0x80 by {
        if i < n { assert(is_cont(a[i])); assert(s[i - 1] == a[i - 1]); } else { assert(is_cont(b[i - n])); assert(s[i - 1] == b[i - n - 1]); }
    }
    assert forall|i: int| 0 <= i < s.len() && !is_cont(#[trigger] s[i]) implies good(s, i) by {
        if i < n { assert(a[i] == s[i]); lemma_good(a, i); lemma_good_in(a, i, s, 0); }
        else { assert(b[i - n] == s[i]); lemma_good(b, i - n); lemma_good_in(b, i - n, s, n); }
    }
    lemma_all_good(s);
}
pub proof fn lemma_wf_cut(s: Seq<u8>, k: int)
    requires wf(s), 0 <= k <= s.len(), boundary(s, k)
    ensures wf(s.take(k)), wf(s.skip(k))
{
    let a = s.take(k); let b = s.skip(k);
    assert(s.subrange(0, k) == a); assert(s.subrange(k, k + b.len()) == b);
    assert forall|i: int| 0 <= i < a.len() && is_cont(#[trigger] a[i]) implies i > 0 && a[i - 1] >= 0x80 by { assert(is_cont(s[i])); assert(a[i - 1] == s[i - 1]); }
    assert forall|i: int| 0 <= i < b.len() && is_cont(#[trigger] b[i]) implies i > 0 && b[i - 1] >= 0x80 by { assert(is_cont(s[k + i])); assert(s[k + i - 1] >= 0x80); if i > 0 { assert(b[i - 1] == s[k + i - 1]); } }
    assert forall|i: int| 0 <= i < a.len() && !is_cont(#[trigger] a[i]) implies good(a, i) by { assert(!is_cont(s[i])); lemma_good(s, i); lemma_good_out(s, 0, a, i); }
    assert forall|i: int| 0 <= i < b.len() && !is_cont(#[trigger] b[i]) implies good(b, i) by { assert(!is_cont(s[k + i])); lemma_good(s, k + i); lemma_good_out(s, k, b, i); }
    lemma_all_good(a); lemma_all_good(b);
}
/// taking line folding out of text leaves text
pub proof fn lemma_wf_unf(s: Seq<u8>)
    requires wf(s)
    ensures wf(unf(s))
    decreases s.len()
{
    hide(wf);
    let p = index_b(s, 10);
    if p < s.len() {
        crate::sh::ax_index_b(s, 10);
        assert(s[p] == 10);
        assert(wf(s) ==> !is_cont(s[p]) && boundary(s, p) && boundary(s, p + 1) && (p + 2 <= s.len() && blank(s[p + 1]) ==> boundary(s, p + 2))) by { reveal(wf); }
        lemma_wf_cut(s, p); lemma_wf_cut(s, p + 1);
        if p + 1 < s.len() && blank(s[p + 1]) {
            let a = s.take(p);
            lemma_wf_cut(s, p + 2);
            if a.len() > 0 && a.last() == 13 { assert(boundary(a, a.len() - 1)); lemma_wf_cut(a, a.len() - 1); assert(a.drop_last() == a.take(a.len() - 1)); }
            lemma_wf_unf(s.skip(p + 2));
            lemma_wf_cat(strip_cr(a), unf(s.skip(p + 2)));
        } else {
            lemma_wf_unf(s.skip(p + 1));
            lemma_wf_cat(s.take(p + 1), unf(s.skip(p + 1)));
        }
    }
}

/// C07, C01, C06, C09, C12: a valid, readable card, printed by `Display` and read by `parse`, is the same card
pub fn read_back(c: &Vcard)
    requires readable(*c), valid(*c)
{
    hide(readable); hide(valid); hide(vcard_t); hide(unf); hide(cards_at); hide(wf);
    let s = c.vx_to_string();
    proof { crate::sh::ax_string_wf(s); lemma_wf_unf(vcard_t(*c)); lemma_readable(*c); lemma_readback(*c, true); lemma_readback(*c, false); }
    let r = crate::parse(s.as_str());
    assert(r is Ok && (r->Ok_0)@ == seq![*c]);
    let l = crate::parse_loose(s.as_str());
    assert(l is Ok && (l->Ok_0)@ == seq![*c]);
}
/// there are such cards: whatever `Vcard::new` makes
pub fn read_back_new(name: String)
    requires texty(name@)
{
    hide(valid); hide(vcard_t); hide(unf); hide(cards_at); hide(wf); hide(fit_params);
    let c = Vcard::new(name);
    proof {
        assert(valid(c)) by { reveal(valid); }
        assert forall|i: int| 0 <= i < c.formatted_name@.len() implies fit_text(#[trigger] c.formatted_name@[i]) by { assert(c.formatted_name@[0].value == name); }
        assert(readable(c));
    }
    read_back(&c);
}
}
