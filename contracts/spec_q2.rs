/// printed cards are read back
pub mod spec_w {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_g::*;
use crate::spec_r::*;
use crate::spec_q::*;
use crate::spec_b::*;
use crate::spec_p::valid;
use crate::sh::{wf, boundary, upper, occurs, String, fmt::Display};
use crate::property::*;
use crate::parameter::*;
use crate::parser::Token;
use crate::Vcard;

// ---------------------------------------------------------------- values that are read back
pub open spec fn t_pn() -> Tok { Tok::Ok(Token::PropertyName) }
pub open spec fn w_text(t: TextProperty) -> bool { text_p(dec(t.disp()), t.parameters, t.group) == t }
pub open spec fn w_uri(t: UriProperty) -> bool { uri_p(dec(t.disp()), t.parameters, t.group) == Some(t) }
pub open spec fn w_guess(t: TextOrUriProperty) -> bool { guess_p(dec(t.disp()), t.pparams(), t.pgroup()) == t }
pub open spec fn w_tou(t: TextOrUriProperty) -> bool { tou_p(dec(t.disp()), t.pparams(), t.pgroup()) == Some(t) }
pub open spec fn w_dot(t: DateTimeOrTextProperty) -> bool { dot_p(dec(t.disp()), t.pparams(), t.pgroup()) == Some(t) }
pub open spec fn w_tz(t: TimeZoneProperty) -> bool { tz_p(dec(t.disp()), t.pparams(), t.pgroup()) == Some(t) }
pub open spec fn w_kind(t: KindProperty) -> bool { kind_of(dec(t.disp())) == Some(t.value) }
pub open spec fn w_gender(t: GenderProperty) -> bool { gender_of(dec(t.disp())) == Some(t.value) }
pub open spec fn w_adr(t: AddressProperty) -> bool { adr_of(t.disp()) == Some(t.value) }
pub open spec fn w_semi(t: TextListProperty) -> bool { semi_p(t.disp(), t.parameters, t.group) == t }
pub open spec fn w_comma(t: TextListProperty) -> bool { comma_p(t.disp(), t.parameters, t.group) == t }
pub open spec fn w_lang(t: LanguageProperty) -> bool { str_of(dec(t.disp())) == t.value }
pub open spec fn w_stamp(t: DateTimeProperty) -> bool { stamp_of(dec(t.disp())) == Some(t.value) }
pub open spec fn w_pidmap(t: ClientPidMapProperty) -> bool { pidmap_of(dec(t.disp())) == Some(t.value) && (t.parameters is Some ==> t.parameters->0.pid is None) }
pub open spec fn w_ext(t: ExtensionProperty) -> bool { any_of(dec(t.disp()), vtype(t.parameters)) == Some(t.value) && x_name(t.name@) }
/// what is written around the value is read back
#[verifier::opaque]
pub open spec fn ok<P: Property>(t: P, n: Seq<u8>) -> bool { unctl(t.disp()) && group_ok(t.pgroup()) && par_back(t.pparams(), upper(n)) }

/// the name of a property is not that of an extension
pub proof fn lemma_std(n: Seq<u8>)
    requires n.len() > 0, forall|i: int| 0 <= i < n.len() ==> 65 <= #[trigger] n[i] <= 90
    ensures upper(n) == n, !occurs(n, L"X-", 0)
{
    R"X-";
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] < 128 by { assert(n[i] <= 90); }
    crate::sh::ax_upper_ascii(n);
    assert(upper(n) =~= n) by { assert forall|i: int| 0 <= i < n.len() implies upper(n)[i] == n[i] by { assert(65 <= n[i] <= 90); } }
    if occurs(n, L"X-", 0) { assert(n.subrange(0, 2)[1] == n[1]); assert(n[1] <= 90 && n[1] >= 65); }
}

/// the values of a standard property
#[verifier::opaque]
pub open spec fn put_o(u: Seq<u8>, v: Seq<u8>, raw: Seq<u8>, p: Pa, g: Gr, a: Vcard) -> Option<Vcard> { put_std(u, v, raw, p, g, a) }
/// which property a name stands for
pub proof fn lemma_put_std(v: Seq<u8>, raw: Seq<u8>, p: Pa, g: Gr, a: Vcard)
    ensures put_o(L"SOURCE", v, raw, p, g, a) == put_source(v, raw, p, g, a), put_o(L"KIND", v, raw, p, g, a) == put_kind(v, raw, p, g, a), put_o(L"XML", v, raw, p, g, a) == put_xml(v, raw, p, g, a), put_o(L"FN", v, raw, p, g, a) == put_fn(v, raw, p, g, a), put_o(L"N", v, raw, p, g, a) == put_n(v, raw, p, g, a), put_o(L"NICKNAME", v, raw, p, g, a) == put_nickname(v, raw, p, g, a), put_o(L"PHOTO", v, raw, p, g, a) == put_photo(v, raw, p, g, a), put_o(L"BDAY", v, raw, p, g, a) == put_bday(v, raw, p, g, a), put_o(L"ANNIVERSARY", v, raw, p, g, a) == put_anniversary(v, raw, p, g, a), put_o(L"GENDER", v, raw, p, g, a) == put_gender(v, raw, p, g, a), put_o(L"URL", v, raw, p, g, a) == put_url(v, raw, p, g, a), put_o(L"ADR", v, raw, p, g, a) == put_adr(v, raw, p, g, a), put_o(L"TITLE", v, raw, p, g, a) == put_title(v, raw, p, g, a), put_o(L"ROLE", v, raw, p, g, a) == put_role(v, raw, p, g, a), put_o(L"LOGO", v, raw, p, g, a) == put_logo(v, raw, p, g, a), put_o(L"ORG", v, raw, p, g, a) == put_org(v, raw, p, g, a), put_o(L"MEMBER", v, raw, p, g, a) == put_member(v, raw, p, g, a), put_o(L"RELATED", v, raw, p, g, a) == put_related(v, raw, p, g, a), put_o(L"TEL", v, raw, p, g, a) == put_tel(v, raw, p, g, a), put_o(L"EMAIL", v, raw, p, g, a) == put_email(v, raw, p, g, a), put_o(L"IMPP", v, raw, p, g, a) == put_impp(v, raw, p, g, a), put_o(L"LANG", v, raw, p, g, a) == put_lang(v, raw, p, g, a), put_o(L"TZ", v, raw, p, g, a) == put_tz(v, raw, p, g, a), put_o(L"GEO", v, raw, p, g, a) == put_geo(v, raw, p, g, a), put_o(L"CATEGORIES", v, raw, p, g, a) == put_categories(v, raw, p, g, a), put_o(L"NOTE", v, raw, p, g, a) == put_note(v, raw, p, g, a), put_o(L"PRODID", v, raw, p, g, a) == put_prodid(v, raw, p, g, a), put_o(L"REV", v, raw, p, g, a) == put_rev(v, raw, p, g, a), put_o(L"SOUND", v, raw, p, g, a) == put_sound(v, raw, p, g, a), put_o(L"UID", v, raw, p, g, a) == put_uid(v, raw, p, g, a), put_o(L"CLIENTPIDMAP", v, raw, p, g, a) == put_clientpidmap(v, raw, p, g, a), put_o(L"KEY", v, raw, p, g, a) == put_key(v, raw, p, g, a), put_o(L"FBURL", v, raw, p, g, a) == put_fburl(v, raw, p, g, a), put_o(L"CALADRURI", v, raw, p, g, a) == put_caladruri(v, raw, p, g, a), put_o(L"CALURI", v, raw, p, g, a) == put_caluri(v, raw, p, g, a)
{ reveal(put_o); crate::lits::ax_codes(); }
pub proof fn lemma_words()
    ensures names().len() == 33, names()[0] == L"SOURCE", names()[1] == L"KIND", names()[2] == L"FN", names()[3] == L"N", names()[4] == L"NICKNAME", names()[5] == L"PHOTO", names()[6] == L"BDAY", names()[7] == L"ANNIVERSARY", names()[8] == L"GENDER", names()[9] == L"ADR", names()[10] == L"TEL", names()[11] == L"EMAIL", names()[12] == L"IMPP", names()[13] == L"LANG", names()[14] == L"TITLE", names()[15] == L"ROLE", names()[16] == L"LOGO", names()[17] == L"ORG", names()[18] == L"MEMBER", names()[19] == L"RELATED", names()[20] == L"CATEGORIES", names()[21] == L"NOTE", names()[22] == L"PRODID", names()[23] == L"REV", names()[24] == L"SOUND", names()[25] == L"UID", names()[26] == L"CLIENTPIDMAP", names()[27] == L"URL", names()[28] == L"KEY", names()[29] == L"FBURL", names()[30] == L"CALADRURI", names()[31] == L"CALURI", names()[32] == L"XML", tz_s() == L"TZ", geo_s() == L"GEO", tz_s() != geo_s()
{ R"SOURCE"; assert(names()[0] =~= L"SOURCE"); R"KIND"; assert(names()[1] =~= L"KIND"); R"FN"; assert(names()[2] =~= L"FN"); R"N"; assert(names()[3] =~= L"N"); R"NICKNAME"; assert(names()[4] =~= L"NICKNAME"); R"PHOTO"; assert(names()[5] =~= L"PHOTO"); R"BDAY"; assert(names()[6] =~= L"BDAY"); R"ANNIVERSARY"; assert(names()[7] =~= L"ANNIVERSARY"); R"GENDER"; assert(names()[8] =~= L"GENDER"); R"ADR"; assert(names()[9] =~= L"ADR"); R"TEL"; assert(names()[10] =~= L"TEL"); R"EMAIL"; assert(names()[11] =~= L"EMAIL"); R"IMPP"; assert(names()[12] =~= L"IMPP"); R"LANG"; assert(names()[13] =~= L"LANG"); R"TITLE"; assert(names()[14] =~= L"TITLE"); R"ROLE"; assert(names()[15] =~= L"ROLE"); R"LOGO"; assert(names()[16] =~= L"LOGO"); R"ORG"; assert(names()[17] =~= L"ORG"); R"MEMBER"; assert(names()[18] =~= L"MEMBER"); R"RELATED"; assert(names()[19] =~= L"RELATED"); R"CATEGORIES"; assert(names()[20] =~= L"CATEGORIES"); R"NOTE"; assert(names()[21] =~= L"NOTE"); R"PRODID"; assert(names()[22] =~= L"PRODID"); R"REV"; assert(names()[23] =~= L"REV"); R"SOUND"; assert(names()[24] =~= L"SOUND"); R"UID"; assert(names()[25] =~= L"UID"); R"CLIENTPIDMAP"; assert(names()[26] =~= L"CLIENTPIDMAP"); R"URL"; assert(names()[27] =~= L"URL"); R"KEY"; assert(names()[28] =~= L"KEY"); R"FBURL"; assert(names()[29] =~= L"FBURL"); R"CALADRURI"; assert(names()[30] =~= L"CALADRURI"); R"CALURI"; assert(names()[31] =~= L"CALURI"); R"XML"; assert(names()[32] =~= L"XML"); R"GEO"; assert(tz_s() =~= L"TZ"); assert(geo_s() =~= L"GEO"); assert(tz_s()[0] != geo_s()[0]); }
/// a standard name and its token
#[verifier::opaque]
pub open spec fn std_o(n: Seq<u8>, g: Gr, tk: Tok) -> bool { named(n, g, tk) && n.len() > 0 && tk != Tok::Ok(Token::ExtensionName) && forall|i: int| 0 <= i < n.len() ==> 65 <= #[trigger] n[i] <= 90 }
pub proof fn lemma_std_name(i: int, g: Gr)
    requires 0 <= i < names().len(), group_ok(g)
    ensures std_o(names()[i], g, t_pn())
{ hide(names); reveal(std_o); lemma_names(i); lemma_named(i, g); }
pub open spec fn t_tz(g: Gr) -> Tok { if g is Some { t_pn() } else { Tok::Ok(Token::TimeZone) } }
pub open spec fn t_geo(g: Gr) -> Tok { if g is Some { t_pn() } else { Tok::Ok(Token::Geo) } }
pub proof fn lemma_std_tz(g: Gr)
    requires group_ok(g)
    ensures std_o(tz_s(), g, t_tz(g)), std_o(geo_s(), g, t_geo(g))
{ reveal(std_o); assert(tz_s()[0] != geo_s()[0]); lemma_named_tz(tz_s(), g); lemma_named_tz(geo_s(), g); }
pub proof fn lemma_std_names(g: Gr)
    requires group_ok(g)
    ensures std_o(L"SOURCE", g, t_pn()), std_o(L"KIND", g, t_pn()), std_o(L"FN", g, t_pn()), std_o(L"N", g, t_pn()), std_o(L"NICKNAME", g, t_pn()), std_o(L"PHOTO", g, t_pn()), std_o(L"BDAY", g, t_pn()), std_o(L"ANNIVERSARY", g, t_pn()), std_o(L"GENDER", g, t_pn()), std_o(L"ADR", g, t_pn()), std_o(L"TEL", g, t_pn()), std_o(L"EMAIL", g, t_pn()), std_o(L"IMPP", g, t_pn()), std_o(L"LANG", g, t_pn()), std_o(L"TITLE", g, t_pn()), std_o(L"ROLE", g, t_pn()), std_o(L"LOGO", g, t_pn()), std_o(L"ORG", g, t_pn()), std_o(L"MEMBER", g, t_pn()), std_o(L"RELATED", g, t_pn()), std_o(L"CATEGORIES", g, t_pn()), std_o(L"NOTE", g, t_pn()), std_o(L"PRODID", g, t_pn()), std_o(L"REV", g, t_pn()), std_o(L"SOUND", g, t_pn()), std_o(L"UID", g, t_pn()), std_o(L"CLIENTPIDMAP", g, t_pn()), std_o(L"URL", g, t_pn()), std_o(L"KEY", g, t_pn()), std_o(L"FBURL", g, t_pn()), std_o(L"CALADRURI", g, t_pn()), std_o(L"CALURI", g, t_pn()), std_o(L"XML", g, t_pn()), std_o(L"TZ", g, t_tz(g)), std_o(L"GEO", g, t_geo(g))
{ hide(names); lemma_words(); lemma_std_tz(g); lemma_std_name(0, g); lemma_std_name(1, g); lemma_std_name(2, g); lemma_std_name(3, g); lemma_std_name(4, g); lemma_std_name(5, g); lemma_std_name(6, g); lemma_std_name(7, g); lemma_std_name(8, g); lemma_std_name(9, g); lemma_std_name(10, g); lemma_std_name(11, g); lemma_std_name(12, g); lemma_std_name(13, g); lemma_std_name(14, g); lemma_std_name(15, g); lemma_std_name(16, g); lemma_std_name(17, g); lemma_std_name(18, g); lemma_std_name(19, g); lemma_std_name(20, g); lemma_std_name(21, g); lemma_std_name(22, g); lemma_std_name(23, g); lemma_std_name(24, g); lemma_std_name(25, g); lemma_std_name(26, g); lemma_std_name(27, g); lemma_std_name(28, g); lemma_std_name(29, g); lemma_std_name(30, g); lemma_std_name(31, g); lemma_std_name(32, g); }
/// a property with a standard name
pub proof fn lemma_field<P: Property>(t: P, n: Seq<u8>, tk: Tok, a: Vcard, b: Vcard)
    requires ok(t, n), std_o(n, t.pgroup(), tk), put_o(n, dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a) == Some(b)
    ensures reads(logical_t(t, n), a, b), line_ok(logical_t(t, n))
{
    hide(unctl); hide(par_t); hide(put_std);
    reveal(ok); reveal(std_o); reveal(put_o);
    lemma_std(n);
    lemma_reads(n, tk, t.pgroup(), t.pparams(), t.disp(), a, b);
}
pub proof fn lemma_ok_group<P: Property>(t: P, n: Seq<u8>) requires ok(t, n) ensures group_ok(t.pgroup()) { reveal(ok); }
/// source
pub open spec fn ok_source(t: UriProperty) -> bool { ok(t, L"SOURCE") && w_uri(t) }
pub proof fn lemma_r_source(t: UriProperty, a: Vcard)
    requires ok_source(t)
    ensures reads(logical_t(t, L"SOURCE"), a, Vcard { source: vec_of(a.source@.push(t)), ..a }), line_ok(logical_t(t, L"SOURCE"))
{
    lemma_ok_group(t, L"SOURCE");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"SOURCE", t_pn(), a, Vcard { source: vec_of(a.source@.push(t)), ..a });
}
/// kind
pub open spec fn ok_kind(t: KindProperty) -> bool { ok(t, L"KIND") && w_kind(t) }
pub proof fn lemma_r_kind(t: KindProperty, a: Vcard)
    requires ok_kind(t), a.kind is None
    ensures reads(logical_t(t, L"KIND"), a, Vcard { kind: Some(t), ..a }), line_ok(logical_t(t, L"KIND"))
{
    lemma_ok_group(t, L"KIND");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"KIND", t_pn(), a, Vcard { kind: Some(t), ..a });
}
/// xml
pub open spec fn ok_xml(t: TextProperty) -> bool { ok(t, L"XML") && w_text(t) }
pub proof fn lemma_r_xml(t: TextProperty, a: Vcard)
    requires ok_xml(t)
    ensures reads(logical_t(t, L"XML"), a, Vcard { xml: vec_of(a.xml@.push(t)), ..a }), line_ok(logical_t(t, L"XML"))
{
    lemma_ok_group(t, L"XML");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"XML", t_pn(), a, Vcard { xml: vec_of(a.xml@.push(t)), ..a });
}
/// formatted_name
pub open spec fn ok_formatted_name(t: TextProperty) -> bool { ok(t, L"FN") && w_text(t) }
pub proof fn lemma_r_formatted_name(t: TextProperty, a: Vcard)
    requires ok_formatted_name(t)
    ensures reads(logical_t(t, L"FN"), a, Vcard { formatted_name: vec_of(a.formatted_name@.push(t)), ..a }), line_ok(logical_t(t, L"FN"))
{
    lemma_ok_group(t, L"FN");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"FN", t_pn(), a, Vcard { formatted_name: vec_of(a.formatted_name@.push(t)), ..a });
}
/// name
pub open spec fn ok_name(t: TextListProperty) -> bool { ok(t, L"N") && w_semi(t) }
pub proof fn lemma_r_name(t: TextListProperty, a: Vcard)
    requires ok_name(t), a.name is None
    ensures reads(logical_t(t, L"N"), a, Vcard { name: Some(t), ..a }), line_ok(logical_t(t, L"N"))
{
    lemma_ok_group(t, L"N");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"N", t_pn(), a, Vcard { name: Some(t), ..a });
}
/// nickname
pub open spec fn ok_nickname(t: TextProperty) -> bool { ok(t, L"NICKNAME") && w_text(t) }
pub proof fn lemma_r_nickname(t: TextProperty, a: Vcard)
    requires ok_nickname(t)
    ensures reads(logical_t(t, L"NICKNAME"), a, Vcard { nickname: vec_of(a.nickname@.push(t)), ..a }), line_ok(logical_t(t, L"NICKNAME"))
{
    lemma_ok_group(t, L"NICKNAME");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"NICKNAME", t_pn(), a, Vcard { nickname: vec_of(a.nickname@.push(t)), ..a });
}
/// photo
pub open spec fn ok_photo(t: TextOrUriProperty) -> bool { ok(t, L"PHOTO") && w_guess(t) }
pub proof fn lemma_r_photo(t: TextOrUriProperty, a: Vcard)
    requires ok_photo(t)
    ensures reads(logical_t(t, L"PHOTO"), a, Vcard { photo: vec_of(a.photo@.push(t)), ..a }), line_ok(logical_t(t, L"PHOTO"))
{
    lemma_ok_group(t, L"PHOTO");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"PHOTO", t_pn(), a, Vcard { photo: vec_of(a.photo@.push(t)), ..a });
}
/// bday
pub open spec fn ok_bday(t: DateTimeOrTextProperty) -> bool { ok(t, L"BDAY") && w_dot(t) }
pub proof fn lemma_r_bday(t: DateTimeOrTextProperty, a: Vcard)
    requires ok_bday(t), a.bday is None
    ensures reads(logical_t(t, L"BDAY"), a, Vcard { bday: Some(t), ..a }), line_ok(logical_t(t, L"BDAY"))
{
    lemma_ok_group(t, L"BDAY");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"BDAY", t_pn(), a, Vcard { bday: Some(t), ..a });
}
/// anniversary
pub open spec fn ok_anniversary(t: DateTimeOrTextProperty) -> bool { ok(t, L"ANNIVERSARY") && w_dot(t) }
pub proof fn lemma_r_anniversary(t: DateTimeOrTextProperty, a: Vcard)
    requires ok_anniversary(t), a.anniversary is None
    ensures reads(logical_t(t, L"ANNIVERSARY"), a, Vcard { anniversary: Some(t), ..a }), line_ok(logical_t(t, L"ANNIVERSARY"))
{
    lemma_ok_group(t, L"ANNIVERSARY");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"ANNIVERSARY", t_pn(), a, Vcard { anniversary: Some(t), ..a });
}
/// gender
pub open spec fn ok_gender(t: GenderProperty) -> bool { ok(t, L"GENDER") && w_gender(t) }
pub proof fn lemma_r_gender(t: GenderProperty, a: Vcard)
    requires ok_gender(t), a.gender is None
    ensures reads(logical_t(t, L"GENDER"), a, Vcard { gender: Some(t), ..a }), line_ok(logical_t(t, L"GENDER"))
{
    lemma_ok_group(t, L"GENDER");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"GENDER", t_pn(), a, Vcard { gender: Some(t), ..a });
}
/// url
pub open spec fn ok_url(t: UriProperty) -> bool { ok(t, L"URL") && w_uri(t) }
pub proof fn lemma_r_url(t: UriProperty, a: Vcard)
    requires ok_url(t)
    ensures reads(logical_t(t, L"URL"), a, Vcard { url: vec_of(a.url@.push(t)), ..a }), line_ok(logical_t(t, L"URL"))
{
    lemma_ok_group(t, L"URL");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"URL", t_pn(), a, Vcard { url: vec_of(a.url@.push(t)), ..a });
}
/// address
pub open spec fn ok_address(t: AddressProperty) -> bool { ok(t, L"ADR") && w_adr(t) }
pub proof fn lemma_r_address(t: AddressProperty, a: Vcard)
    requires ok_address(t)
    ensures reads(logical_t(t, L"ADR"), a, Vcard { address: vec_of(a.address@.push(t)), ..a }), line_ok(logical_t(t, L"ADR"))
{
    lemma_ok_group(t, L"ADR");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"ADR", t_pn(), a, Vcard { address: vec_of(a.address@.push(t)), ..a });
}
/// title
pub open spec fn ok_title(t: TextProperty) -> bool { ok(t, L"TITLE") && w_text(t) }
pub proof fn lemma_r_title(t: TextProperty, a: Vcard)
    requires ok_title(t)
    ensures reads(logical_t(t, L"TITLE"), a, Vcard { title: vec_of(a.title@.push(t)), ..a }), line_ok(logical_t(t, L"TITLE"))
{
    lemma_ok_group(t, L"TITLE");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"TITLE", t_pn(), a, Vcard { title: vec_of(a.title@.push(t)), ..a });
}
/// role
pub open spec fn ok_role(t: TextProperty) -> bool { ok(t, L"ROLE") && w_text(t) }
pub proof fn lemma_r_role(t: TextProperty, a: Vcard)
    requires ok_role(t)
    ensures reads(logical_t(t, L"ROLE"), a, Vcard { role: vec_of(a.role@.push(t)), ..a }), line_ok(logical_t(t, L"ROLE"))
{
    lemma_ok_group(t, L"ROLE");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"ROLE", t_pn(), a, Vcard { role: vec_of(a.role@.push(t)), ..a });
}
/// logo
pub open spec fn ok_logo(t: UriProperty) -> bool { ok(t, L"LOGO") && w_uri(t) }
pub proof fn lemma_r_logo(t: UriProperty, a: Vcard)
    requires ok_logo(t)
    ensures reads(logical_t(t, L"LOGO"), a, Vcard { logo: vec_of(a.logo@.push(t)), ..a }), line_ok(logical_t(t, L"LOGO"))
{
    lemma_ok_group(t, L"LOGO");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"LOGO", t_pn(), a, Vcard { logo: vec_of(a.logo@.push(t)), ..a });
}
/// org
pub open spec fn ok_org(t: TextListProperty) -> bool { ok(t, L"ORG") && w_semi(t) }
pub proof fn lemma_r_org(t: TextListProperty, a: Vcard)
    requires ok_org(t)
    ensures reads(logical_t(t, L"ORG"), a, Vcard { org: vec_of(a.org@.push(t)), ..a }), line_ok(logical_t(t, L"ORG"))
{
    lemma_ok_group(t, L"ORG");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"ORG", t_pn(), a, Vcard { org: vec_of(a.org@.push(t)), ..a });
}
/// member
pub open spec fn ok_member(t: UriProperty) -> bool { ok(t, L"MEMBER") && w_uri(t) }
pub proof fn lemma_r_member(t: UriProperty, a: Vcard)
    requires ok_member(t)
    ensures reads(logical_t(t, L"MEMBER"), a, Vcard { member: vec_of(a.member@.push(t)), ..a }), line_ok(logical_t(t, L"MEMBER"))
{
    lemma_ok_group(t, L"MEMBER");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"MEMBER", t_pn(), a, Vcard { member: vec_of(a.member@.push(t)), ..a });
}
/// related
pub open spec fn ok_related(t: TextOrUriProperty) -> bool { ok(t, L"RELATED") && w_tou(t) }
pub proof fn lemma_r_related(t: TextOrUriProperty, a: Vcard)
    requires ok_related(t)
    ensures reads(logical_t(t, L"RELATED"), a, Vcard { related: vec_of(a.related@.push(t)), ..a }), line_ok(logical_t(t, L"RELATED"))
{
    lemma_ok_group(t, L"RELATED");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"RELATED", t_pn(), a, Vcard { related: vec_of(a.related@.push(t)), ..a });
}
/// tel
pub open spec fn ok_tel(t: TextOrUriProperty) -> bool { ok(t, L"TEL") && w_tou(t) }
pub proof fn lemma_r_tel(t: TextOrUriProperty, a: Vcard)
    requires ok_tel(t)
    ensures reads(logical_t(t, L"TEL"), a, Vcard { tel: vec_of(a.tel@.push(t)), ..a }), line_ok(logical_t(t, L"TEL"))
{
    lemma_ok_group(t, L"TEL");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"TEL", t_pn(), a, Vcard { tel: vec_of(a.tel@.push(t)), ..a });
}
/// email
pub open spec fn ok_email(t: TextProperty) -> bool { ok(t, L"EMAIL") && w_text(t) }
pub proof fn lemma_r_email(t: TextProperty, a: Vcard)
    requires ok_email(t)
    ensures reads(logical_t(t, L"EMAIL"), a, Vcard { email: vec_of(a.email@.push(t)), ..a }), line_ok(logical_t(t, L"EMAIL"))
{
    lemma_ok_group(t, L"EMAIL");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"EMAIL", t_pn(), a, Vcard { email: vec_of(a.email@.push(t)), ..a });
}
/// impp
pub open spec fn ok_impp(t: UriProperty) -> bool { ok(t, L"IMPP") && w_uri(t) }
pub proof fn lemma_r_impp(t: UriProperty, a: Vcard)
    requires ok_impp(t)
    ensures reads(logical_t(t, L"IMPP"), a, Vcard { impp: vec_of(a.impp@.push(t)), ..a }), line_ok(logical_t(t, L"IMPP"))
{
    lemma_ok_group(t, L"IMPP");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"IMPP", t_pn(), a, Vcard { impp: vec_of(a.impp@.push(t)), ..a });
}
/// lang
pub open spec fn ok_lang(t: LanguageProperty) -> bool { ok(t, L"LANG") && w_lang(t) }
pub proof fn lemma_r_lang(t: LanguageProperty, a: Vcard)
    requires ok_lang(t)
    ensures reads(logical_t(t, L"LANG"), a, Vcard { lang: vec_of(a.lang@.push(t)), ..a }), line_ok(logical_t(t, L"LANG"))
{
    lemma_ok_group(t, L"LANG");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"LANG", t_pn(), a, Vcard { lang: vec_of(a.lang@.push(t)), ..a });
}
/// timezone
pub open spec fn ok_timezone(t: TimeZoneProperty) -> bool { ok(t, L"TZ") && w_tz(t) }
pub proof fn lemma_r_timezone(t: TimeZoneProperty, a: Vcard)
    requires ok_timezone(t)
    ensures reads(logical_t(t, L"TZ"), a, Vcard { timezone: vec_of(a.timezone@.push(t)), ..a }), line_ok(logical_t(t, L"TZ"))
{
    lemma_ok_group(t, L"TZ");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"TZ", t_tz(t.pgroup()), a, Vcard { timezone: vec_of(a.timezone@.push(t)), ..a });
}
/// geo
pub open spec fn ok_geo(t: UriProperty) -> bool { ok(t, L"GEO") && w_uri(t) }
pub proof fn lemma_r_geo(t: UriProperty, a: Vcard)
    requires ok_geo(t)
    ensures reads(logical_t(t, L"GEO"), a, Vcard { geo: vec_of(a.geo@.push(t)), ..a }), line_ok(logical_t(t, L"GEO"))
{
    lemma_ok_group(t, L"GEO");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"GEO", t_geo(t.pgroup()), a, Vcard { geo: vec_of(a.geo@.push(t)), ..a });
}
/// categories
pub open spec fn ok_categories(t: TextListProperty) -> bool { ok(t, L"CATEGORIES") && w_comma(t) }
pub proof fn lemma_r_categories(t: TextListProperty, a: Vcard)
    requires ok_categories(t)
    ensures reads(logical_t(t, L"CATEGORIES"), a, Vcard { categories: vec_of(a.categories@.push(t)), ..a }), line_ok(logical_t(t, L"CATEGORIES"))
{
    lemma_ok_group(t, L"CATEGORIES");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"CATEGORIES", t_pn(), a, Vcard { categories: vec_of(a.categories@.push(t)), ..a });
}
/// note
pub open spec fn ok_note(t: TextProperty) -> bool { ok(t, L"NOTE") && w_text(t) }
pub proof fn lemma_r_note(t: TextProperty, a: Vcard)
    requires ok_note(t)
    ensures reads(logical_t(t, L"NOTE"), a, Vcard { note: vec_of(a.note@.push(t)), ..a }), line_ok(logical_t(t, L"NOTE"))
{
    lemma_ok_group(t, L"NOTE");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"NOTE", t_pn(), a, Vcard { note: vec_of(a.note@.push(t)), ..a });
}
/// prod_id
pub open spec fn ok_prod_id(t: TextProperty) -> bool { ok(t, L"PRODID") && w_text(t) }
pub proof fn lemma_r_prod_id(t: TextProperty, a: Vcard)
    requires ok_prod_id(t), a.prod_id is None
    ensures reads(logical_t(t, L"PRODID"), a, Vcard { prod_id: Some(t), ..a }), line_ok(logical_t(t, L"PRODID"))
{
    lemma_ok_group(t, L"PRODID");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"PRODID", t_pn(), a, Vcard { prod_id: Some(t), ..a });
}
/// rev
pub open spec fn ok_rev(t: DateTimeProperty) -> bool { ok(t, L"REV") && w_stamp(t) }
pub proof fn lemma_r_rev(t: DateTimeProperty, a: Vcard)
    requires ok_rev(t), a.rev is None
    ensures reads(logical_t(t, L"REV"), a, Vcard { rev: Some(t), ..a }), line_ok(logical_t(t, L"REV"))
{
    lemma_ok_group(t, L"REV");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"REV", t_pn(), a, Vcard { rev: Some(t), ..a });
}
/// sound
pub open spec fn ok_sound(t: UriProperty) -> bool { ok(t, L"SOUND") && w_uri(t) }
pub proof fn lemma_r_sound(t: UriProperty, a: Vcard)
    requires ok_sound(t)
    ensures reads(logical_t(t, L"SOUND"), a, Vcard { sound: vec_of(a.sound@.push(t)), ..a }), line_ok(logical_t(t, L"SOUND"))
{
    lemma_ok_group(t, L"SOUND");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"SOUND", t_pn(), a, Vcard { sound: vec_of(a.sound@.push(t)), ..a });
}
/// uid
pub open spec fn ok_uid(t: TextOrUriProperty) -> bool { ok(t, L"UID") && w_tou(t) }
pub proof fn lemma_r_uid(t: TextOrUriProperty, a: Vcard)
    requires ok_uid(t), a.uid is None
    ensures reads(logical_t(t, L"UID"), a, Vcard { uid: Some(t), ..a }), line_ok(logical_t(t, L"UID"))
{
    lemma_ok_group(t, L"UID");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"UID", t_pn(), a, Vcard { uid: Some(t), ..a });
}
/// client_pid_map
pub open spec fn ok_client_pid_map(t: ClientPidMapProperty) -> bool { ok(t, L"CLIENTPIDMAP") && w_pidmap(t) }
pub proof fn lemma_r_client_pid_map(t: ClientPidMapProperty, a: Vcard)
    requires ok_client_pid_map(t)
    ensures reads(logical_t(t, L"CLIENTPIDMAP"), a, Vcard { client_pid_map: vec_of(a.client_pid_map@.push(t)), ..a }), line_ok(logical_t(t, L"CLIENTPIDMAP"))
{
    lemma_ok_group(t, L"CLIENTPIDMAP");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"CLIENTPIDMAP", t_pn(), a, Vcard { client_pid_map: vec_of(a.client_pid_map@.push(t)), ..a });
}
/// key
pub open spec fn ok_key(t: TextOrUriProperty) -> bool { ok(t, L"KEY") && w_tou(t) }
pub proof fn lemma_r_key(t: TextOrUriProperty, a: Vcard)
    requires ok_key(t)
    ensures reads(logical_t(t, L"KEY"), a, Vcard { key: vec_of(a.key@.push(t)), ..a }), line_ok(logical_t(t, L"KEY"))
{
    lemma_ok_group(t, L"KEY");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"KEY", t_pn(), a, Vcard { key: vec_of(a.key@.push(t)), ..a });
}
/// fburl
pub open spec fn ok_fburl(t: UriProperty) -> bool { ok(t, L"FBURL") && w_uri(t) }
pub proof fn lemma_r_fburl(t: UriProperty, a: Vcard)
    requires ok_fburl(t)
    ensures reads(logical_t(t, L"FBURL"), a, Vcard { fburl: vec_of(a.fburl@.push(t)), ..a }), line_ok(logical_t(t, L"FBURL"))
{
    lemma_ok_group(t, L"FBURL");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"FBURL", t_pn(), a, Vcard { fburl: vec_of(a.fburl@.push(t)), ..a });
}
/// cal_adr_uri
pub open spec fn ok_cal_adr_uri(t: UriProperty) -> bool { ok(t, L"CALADRURI") && w_uri(t) }
pub proof fn lemma_r_cal_adr_uri(t: UriProperty, a: Vcard)
    requires ok_cal_adr_uri(t)
    ensures reads(logical_t(t, L"CALADRURI"), a, Vcard { cal_adr_uri: vec_of(a.cal_adr_uri@.push(t)), ..a }), line_ok(logical_t(t, L"CALADRURI"))
{
    lemma_ok_group(t, L"CALADRURI");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"CALADRURI", t_pn(), a, Vcard { cal_adr_uri: vec_of(a.cal_adr_uri@.push(t)), ..a });
}
/// cal_uri
pub open spec fn ok_cal_uri(t: UriProperty) -> bool { ok(t, L"CALURI") && w_uri(t) }
pub proof fn lemma_r_cal_uri(t: UriProperty, a: Vcard)
    requires ok_cal_uri(t)
    ensures reads(logical_t(t, L"CALURI"), a, Vcard { cal_uri: vec_of(a.cal_uri@.push(t)), ..a }), line_ok(logical_t(t, L"CALURI"))
{
    lemma_ok_group(t, L"CALURI");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"CALURI", t_pn(), a, Vcard { cal_uri: vec_of(a.cal_uri@.push(t)), ..a });
}
/// extensions
pub open spec fn ok_extensions(t: ExtensionProperty) -> bool { ok(t, t.name@) && w_ext(t) }
pub proof fn lemma_r_extensions(t: ExtensionProperty, a: Vcard)
    requires ok_extensions(t)
    ensures reads(logical_t(t, t.name@), a, Vcard { extensions: vec_of(a.extensions@.push(t)), ..a }), line_ok(logical_t(t, t.name@))
{
    hide(any_of); hide(put_std); hide(par_t);
    reveal(ok);
    let n = t.name@; let tk = if t.group is Some { t_pn() } else { Tok::Ok(Token::ExtensionName) };
    lemma_named_x(n, t.group);
    ax_str_of(t.name);
    assert(is_x(tk, upper(n))) by {
        R"X-";
        assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] < 128 by { assert(gb(n[i])); }
        crate::sh::ax_upper_ascii(n);
        assert(upper(n).subrange(0, 2) =~= L"X-");
    }
    lemma_reads(n, tk, t.group, t.parameters, t.disp(), a, Vcard { extensions: vec_of(a.extensions@.push(t)), ..a });
}

// ---------------------------------------------------------------- the lines of a card
pub open spec fn ls<P: Property>(v: Seq<P>, n: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| logical_t(v[i], n)) }
pub open spec fn lx(v: Seq<ExtensionProperty>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| logical_t(v[i], v[i].name@)) }
pub open spec fn lo<P: Property>(o: Option<P>, n: Seq<u8>) -> Seq<Seq<u8>> { match o { Some(p) => seq![logical_t(p, n)], None => Seq::empty() } }
pub proof fn lemma_fl_cat(v: Seq<Seq<u8>>, w: Seq<Seq<u8>>)
    ensures fl(v + w) == fl(v) + fl(w)
    decreases v.len()
{
    hide(fold_t);
    if v.len() == 0 { assert(v + w =~= w); assert(fl(v) + fl(w) =~= fl(w)); }
    else {
        lemma_fl_cat(v.drop_first(), w);
        assert((v + w).drop_first() =~= v.drop_first() + w);
        let x = fold_t(v[0], 75) + L"\r\n";
        assert(x + (fl(v.drop_first()) + fl(w)) =~= (x + fl(v.drop_first())) + fl(w));
    }
}
pub proof fn lemma_fl_push(v: Seq<Seq<u8>>, l: Seq<u8>)
    ensures fl(v.push(l)) == fl(v) + (fold_t(l, 75) + L"\r\n")
{
    hide(fold_t);
    let w = seq![l];
    lemma_fl_cat(v, w);
    assert(v + w =~= v.push(l));
    assert(w.drop_first() =~= Seq::<Seq<u8>>::empty());
    assert(fl(w) =~= fold_t(l, 75) + L"\r\n") by { reveal_with_fuel(fl, 2); }
}
/// the lines `v`, printed as `t`, make the card `b` of the card `a`
#[verifier::opaque]
pub open spec fn did(v: Seq<Seq<u8>>, t: Seq<u8>, a: Vcard, b: Vcard) -> bool { lines_ok(v) && steps(v, a, b) && fl(v) == t }
pub proof fn lemma_did0(a: Vcard) ensures did(Seq::empty(), Seq::empty(), a, a) { reveal(did); }
pub proof fn lemma_did_push(v: Seq<Seq<u8>>, t: Seq<u8>, a: Vcard, b: Vcard, l: Seq<u8>, c: Vcard)
    requires did(v, t, a, b), reads(l, b, c), line_ok(l)
    ensures did(v.push(l), t + (fold_t(l, 75) + L"\r\n"), a, c)
{
    hide(fold_t); hide(steps); hide(fl); reveal(did);
    lemma_fl_push(v, l); lemma_steps_push(v, l, a, b, c);
}
pub proof fn lemma_did_cat(v: Seq<Seq<u8>>, t: Seq<u8>, a: Vcard, b: Vcard, w: Seq<Seq<u8>>, u: Seq<u8>, c: Vcard)
    requires did(v, t, a, b), did(w, u, b, c)
    ensures did(v + w, t + u, a, c)
{
    hide(fl); hide(steps); reveal(did);
    lemma_fl_cat(v, w); lemma_steps_cat(v, w, a, b, c);
}
pub proof fn lemma_ls_push<P: Property>(v: Seq<P>, n: Seq<u8>, k: int)
    requires 0 < k <= v.len()
    ensures ls(v.take(k), n) == ls(v.take(k - 1), n).push(logical_t(v[k - 1], n))
{ hide(logical_t); assert(ls(v.take(k), n) =~= ls(v.take(k - 1), n).push(logical_t(v[k - 1], n))); }
pub proof fn lemma_lx_push(v: Seq<ExtensionProperty>, k: int)
    requires 0 < k <= v.len()
    ensures lx(v.take(k)) == lx(v.take(k - 1)).push(logical_t(v[k - 1], v[k - 1].name@))
{ hide(logical_t); assert(lx(v.take(k)) =~= lx(v.take(k - 1)).push(logical_t(v[k - 1], v[k - 1].name@))); }

pub open spec fn okf_source(c: Vcard) -> bool { forall|i: int| 0 <= i < c.source@.len() ==> ok_source(#[trigger] c.source@[i]) }
pub proof fn lemma_t_source(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_source(#[trigger] v@[i]), a.source == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"SOURCE"), lines_t(v@, L"SOURCE", k), a, Vcard { source: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"SOURCE") =~= Seq::empty());
    } else {
        lemma_t_source(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { source: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_source(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"SOURCE", k);
        lemma_did_push(ls(v@.take(k - 1), L"SOURCE"), lines_t(v@, L"SOURCE", k - 1), a, b, logical_t(t, L"SOURCE"), Vcard { source: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_source(c: Vcard, a: Vcard)
    requires okf_source(c), a.source == vec_of(Seq::empty())
    ensures did(ls(c.source@, L"SOURCE"), crate::spec_b::v_source(c), a, Vcard { source: c.source, ..a })
{
    let v = c.source;
    lemma_t_source(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_kind(c: Vcard) -> bool { c.kind is Some ==> ok_kind(c.kind->0) }
pub proof fn lemma_s_kind(c: Vcard, a: Vcard)
    requires okf_kind(c), a.kind is None
    ensures did(lo(c.kind, L"KIND"), crate::spec_b::v_kind(c), a, Vcard { kind: c.kind, ..a })
{
    let n = L"KIND"; lemma_did0(a);
    if c.kind is Some {
        let t = c.kind->0; let l = logical_t(t, n);
        lemma_r_kind(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { kind: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.kind, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.kind, n));
    } else { assert(Vcard { kind: c.kind, ..a } == a); }
}
pub open spec fn okf_xml(c: Vcard) -> bool { forall|i: int| 0 <= i < c.xml@.len() ==> ok_xml(#[trigger] c.xml@[i]) }
pub proof fn lemma_t_xml(v: Vec<TextProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_xml(#[trigger] v@[i]), a.xml == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"XML"), lines_t(v@, L"XML", k), a, Vcard { xml: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"XML") =~= Seq::empty());
    } else {
        lemma_t_xml(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { xml: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_xml(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"XML", k);
        lemma_did_push(ls(v@.take(k - 1), L"XML"), lines_t(v@, L"XML", k - 1), a, b, logical_t(t, L"XML"), Vcard { xml: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_xml(c: Vcard, a: Vcard)
    requires okf_xml(c), a.xml == vec_of(Seq::empty())
    ensures did(ls(c.xml@, L"XML"), crate::spec_b::v_xml(c), a, Vcard { xml: c.xml, ..a })
{
    let v = c.xml;
    lemma_t_xml(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_formatted_name(c: Vcard) -> bool { forall|i: int| 0 <= i < c.formatted_name@.len() ==> ok_formatted_name(#[trigger] c.formatted_name@[i]) }
pub proof fn lemma_t_formatted_name(v: Vec<TextProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_formatted_name(#[trigger] v@[i]), a.formatted_name == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"FN"), lines_t(v@, L"FN", k), a, Vcard { formatted_name: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"FN") =~= Seq::empty());
    } else {
        lemma_t_formatted_name(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { formatted_name: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_formatted_name(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"FN", k);
        lemma_did_push(ls(v@.take(k - 1), L"FN"), lines_t(v@, L"FN", k - 1), a, b, logical_t(t, L"FN"), Vcard { formatted_name: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_formatted_name(c: Vcard, a: Vcard)
    requires okf_formatted_name(c), a.formatted_name == vec_of(Seq::empty())
    ensures did(ls(c.formatted_name@, L"FN"), crate::spec_b::v_formatted_name(c), a, Vcard { formatted_name: c.formatted_name, ..a })
{
    let v = c.formatted_name;
    lemma_t_formatted_name(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_name(c: Vcard) -> bool { c.name is Some ==> ok_name(c.name->0) }
pub proof fn lemma_s_name(c: Vcard, a: Vcard)
    requires okf_name(c), a.name is None
    ensures did(lo(c.name, L"N"), crate::spec_b::v_name(c), a, Vcard { name: c.name, ..a })
{
    let n = L"N"; lemma_did0(a);
    if c.name is Some {
        let t = c.name->0; let l = logical_t(t, n);
        lemma_r_name(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { name: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.name, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.name, n));
    } else { assert(Vcard { name: c.name, ..a } == a); }
}
pub open spec fn okf_nickname(c: Vcard) -> bool { forall|i: int| 0 <= i < c.nickname@.len() ==> ok_nickname(#[trigger] c.nickname@[i]) }
pub proof fn lemma_t_nickname(v: Vec<TextProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_nickname(#[trigger] v@[i]), a.nickname == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"NICKNAME"), lines_t(v@, L"NICKNAME", k), a, Vcard { nickname: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"NICKNAME") =~= Seq::empty());
    } else {
        lemma_t_nickname(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { nickname: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_nickname(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"NICKNAME", k);
        lemma_did_push(ls(v@.take(k - 1), L"NICKNAME"), lines_t(v@, L"NICKNAME", k - 1), a, b, logical_t(t, L"NICKNAME"), Vcard { nickname: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_nickname(c: Vcard, a: Vcard)
    requires okf_nickname(c), a.nickname == vec_of(Seq::empty())
    ensures did(ls(c.nickname@, L"NICKNAME"), crate::spec_b::v_nickname(c), a, Vcard { nickname: c.nickname, ..a })
{
    let v = c.nickname;
    lemma_t_nickname(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_photo(c: Vcard) -> bool { forall|i: int| 0 <= i < c.photo@.len() ==> ok_photo(#[trigger] c.photo@[i]) }
pub proof fn lemma_t_photo(v: Vec<TextOrUriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_photo(#[trigger] v@[i]), a.photo == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"PHOTO"), lines_t(v@, L"PHOTO", k), a, Vcard { photo: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"PHOTO") =~= Seq::empty());
    } else {
        lemma_t_photo(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { photo: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_photo(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"PHOTO", k);
        lemma_did_push(ls(v@.take(k - 1), L"PHOTO"), lines_t(v@, L"PHOTO", k - 1), a, b, logical_t(t, L"PHOTO"), Vcard { photo: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_photo(c: Vcard, a: Vcard)
    requires okf_photo(c), a.photo == vec_of(Seq::empty())
    ensures did(ls(c.photo@, L"PHOTO"), crate::spec_b::v_photo(c), a, Vcard { photo: c.photo, ..a })
{
    let v = c.photo;
    lemma_t_photo(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_bday(c: Vcard) -> bool { c.bday is Some ==> ok_bday(c.bday->0) }
pub proof fn lemma_s_bday(c: Vcard, a: Vcard)
    requires okf_bday(c), a.bday is None
    ensures did(lo(c.bday, L"BDAY"), crate::spec_b::v_bday(c), a, Vcard { bday: c.bday, ..a })
{
    let n = L"BDAY"; lemma_did0(a);
    if c.bday is Some {
        let t = c.bday->0; let l = logical_t(t, n);
        lemma_r_bday(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { bday: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.bday, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.bday, n));
    } else { assert(Vcard { bday: c.bday, ..a } == a); }
}
pub open spec fn okf_anniversary(c: Vcard) -> bool { c.anniversary is Some ==> ok_anniversary(c.anniversary->0) }
pub proof fn lemma_s_anniversary(c: Vcard, a: Vcard)
    requires okf_anniversary(c), a.anniversary is None
    ensures did(lo(c.anniversary, L"ANNIVERSARY"), crate::spec_b::v_anniversary(c), a, Vcard { anniversary: c.anniversary, ..a })
{
    let n = L"ANNIVERSARY"; lemma_did0(a);
    if c.anniversary is Some {
        let t = c.anniversary->0; let l = logical_t(t, n);
        lemma_r_anniversary(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { anniversary: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.anniversary, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.anniversary, n));
    } else { assert(Vcard { anniversary: c.anniversary, ..a } == a); }
}
pub open spec fn okf_gender(c: Vcard) -> bool { c.gender is Some ==> ok_gender(c.gender->0) }
pub proof fn lemma_s_gender(c: Vcard, a: Vcard)
    requires okf_gender(c), a.gender is None
    ensures did(lo(c.gender, L"GENDER"), crate::spec_b::v_gender(c), a, Vcard { gender: c.gender, ..a })
{
    let n = L"GENDER"; lemma_did0(a);
    if c.gender is Some {
        let t = c.gender->0; let l = logical_t(t, n);
        lemma_r_gender(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { gender: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.gender, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.gender, n));
    } else { assert(Vcard { gender: c.gender, ..a } == a); }
}
pub open spec fn okf_url(c: Vcard) -> bool { forall|i: int| 0 <= i < c.url@.len() ==> ok_url(#[trigger] c.url@[i]) }
pub proof fn lemma_t_url(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_url(#[trigger] v@[i]), a.url == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"URL"), lines_t(v@, L"URL", k), a, Vcard { url: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"URL") =~= Seq::empty());
    } else {
        lemma_t_url(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { url: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_url(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"URL", k);
        lemma_did_push(ls(v@.take(k - 1), L"URL"), lines_t(v@, L"URL", k - 1), a, b, logical_t(t, L"URL"), Vcard { url: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_url(c: Vcard, a: Vcard)
    requires okf_url(c), a.url == vec_of(Seq::empty())
    ensures did(ls(c.url@, L"URL"), crate::spec_b::v_url(c), a, Vcard { url: c.url, ..a })
{
    let v = c.url;
    lemma_t_url(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_address(c: Vcard) -> bool { forall|i: int| 0 <= i < c.address@.len() ==> ok_address(#[trigger] c.address@[i]) }
pub proof fn lemma_t_address(v: Vec<AddressProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_address(#[trigger] v@[i]), a.address == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"ADR"), lines_t(v@, L"ADR", k), a, Vcard { address: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"ADR") =~= Seq::empty());
    } else {
        lemma_t_address(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { address: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_address(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"ADR", k);
        lemma_did_push(ls(v@.take(k - 1), L"ADR"), lines_t(v@, L"ADR", k - 1), a, b, logical_t(t, L"ADR"), Vcard { address: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_address(c: Vcard, a: Vcard)
    requires okf_address(c), a.address == vec_of(Seq::empty())
    ensures did(ls(c.address@, L"ADR"), crate::spec_b::v_address(c), a, Vcard { address: c.address, ..a })
{
    let v = c.address;
    lemma_t_address(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_title(c: Vcard) -> bool { forall|i: int| 0 <= i < c.title@.len() ==> ok_title(#[trigger] c.title@[i]) }
pub proof fn lemma_t_title(v: Vec<TextProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_title(#[trigger] v@[i]), a.title == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"TITLE"), lines_t(v@, L"TITLE", k), a, Vcard { title: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"TITLE") =~= Seq::empty());
    } else {
        lemma_t_title(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { title: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_title(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"TITLE", k);
        lemma_did_push(ls(v@.take(k - 1), L"TITLE"), lines_t(v@, L"TITLE", k - 1), a, b, logical_t(t, L"TITLE"), Vcard { title: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_title(c: Vcard, a: Vcard)
    requires okf_title(c), a.title == vec_of(Seq::empty())
    ensures did(ls(c.title@, L"TITLE"), crate::spec_b::v_title(c), a, Vcard { title: c.title, ..a })
{
    let v = c.title;
    lemma_t_title(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_role(c: Vcard) -> bool { forall|i: int| 0 <= i < c.role@.len() ==> ok_role(#[trigger] c.role@[i]) }
pub proof fn lemma_t_role(v: Vec<TextProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_role(#[trigger] v@[i]), a.role == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"ROLE"), lines_t(v@, L"ROLE", k), a, Vcard { role: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"ROLE") =~= Seq::empty());
    } else {
        lemma_t_role(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { role: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_role(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"ROLE", k);
        lemma_did_push(ls(v@.take(k - 1), L"ROLE"), lines_t(v@, L"ROLE", k - 1), a, b, logical_t(t, L"ROLE"), Vcard { role: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_role(c: Vcard, a: Vcard)
    requires okf_role(c), a.role == vec_of(Seq::empty())
    ensures did(ls(c.role@, L"ROLE"), crate::spec_b::v_role(c), a, Vcard { role: c.role, ..a })
{
    let v = c.role;
    lemma_t_role(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_logo(c: Vcard) -> bool { forall|i: int| 0 <= i < c.logo@.len() ==> ok_logo(#[trigger] c.logo@[i]) }
pub proof fn lemma_t_logo(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_logo(#[trigger] v@[i]), a.logo == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"LOGO"), lines_t(v@, L"LOGO", k), a, Vcard { logo: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"LOGO") =~= Seq::empty());
    } else {
        lemma_t_logo(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { logo: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_logo(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"LOGO", k);
        lemma_did_push(ls(v@.take(k - 1), L"LOGO"), lines_t(v@, L"LOGO", k - 1), a, b, logical_t(t, L"LOGO"), Vcard { logo: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_logo(c: Vcard, a: Vcard)
    requires okf_logo(c), a.logo == vec_of(Seq::empty())
    ensures did(ls(c.logo@, L"LOGO"), crate::spec_b::v_logo(c), a, Vcard { logo: c.logo, ..a })
{
    let v = c.logo;
    lemma_t_logo(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_org(c: Vcard) -> bool { forall|i: int| 0 <= i < c.org@.len() ==> ok_org(#[trigger] c.org@[i]) }
pub proof fn lemma_t_org(v: Vec<TextListProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_org(#[trigger] v@[i]), a.org == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"ORG"), lines_t(v@, L"ORG", k), a, Vcard { org: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"ORG") =~= Seq::empty());
    } else {
        lemma_t_org(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { org: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_org(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"ORG", k);
        lemma_did_push(ls(v@.take(k - 1), L"ORG"), lines_t(v@, L"ORG", k - 1), a, b, logical_t(t, L"ORG"), Vcard { org: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_org(c: Vcard, a: Vcard)
    requires okf_org(c), a.org == vec_of(Seq::empty())
    ensures did(ls(c.org@, L"ORG"), crate::spec_b::v_org(c), a, Vcard { org: c.org, ..a })
{
    let v = c.org;
    lemma_t_org(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_member(c: Vcard) -> bool { forall|i: int| 0 <= i < c.member@.len() ==> ok_member(#[trigger] c.member@[i]) }
pub proof fn lemma_t_member(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_member(#[trigger] v@[i]), a.member == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"MEMBER"), lines_t(v@, L"MEMBER", k), a, Vcard { member: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"MEMBER") =~= Seq::empty());
    } else {
        lemma_t_member(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { member: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_member(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"MEMBER", k);
        lemma_did_push(ls(v@.take(k - 1), L"MEMBER"), lines_t(v@, L"MEMBER", k - 1), a, b, logical_t(t, L"MEMBER"), Vcard { member: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_member(c: Vcard, a: Vcard)
    requires okf_member(c), a.member == vec_of(Seq::empty())
    ensures did(ls(c.member@, L"MEMBER"), crate::spec_b::v_member(c), a, Vcard { member: c.member, ..a })
{
    let v = c.member;
    lemma_t_member(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_related(c: Vcard) -> bool { forall|i: int| 0 <= i < c.related@.len() ==> ok_related(#[trigger] c.related@[i]) }
pub proof fn lemma_t_related(v: Vec<TextOrUriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_related(#[trigger] v@[i]), a.related == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"RELATED"), lines_t(v@, L"RELATED", k), a, Vcard { related: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"RELATED") =~= Seq::empty());
    } else {
        lemma_t_related(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { related: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_related(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"RELATED", k);
        lemma_did_push(ls(v@.take(k - 1), L"RELATED"), lines_t(v@, L"RELATED", k - 1), a, b, logical_t(t, L"RELATED"), Vcard { related: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_related(c: Vcard, a: Vcard)
    requires okf_related(c), a.related == vec_of(Seq::empty())
    ensures did(ls(c.related@, L"RELATED"), crate::spec_b::v_related(c), a, Vcard { related: c.related, ..a })
{
    let v = c.related;
    lemma_t_related(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_tel(c: Vcard) -> bool { forall|i: int| 0 <= i < c.tel@.len() ==> ok_tel(#[trigger] c.tel@[i]) }
pub proof fn lemma_t_tel(v: Vec<TextOrUriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_tel(#[trigger] v@[i]), a.tel == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"TEL"), lines_t(v@, L"TEL", k), a, Vcard { tel: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"TEL") =~= Seq::empty());
    } else {
        lemma_t_tel(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { tel: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_tel(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"TEL", k);
        lemma_did_push(ls(v@.take(k - 1), L"TEL"), lines_t(v@, L"TEL", k - 1), a, b, logical_t(t, L"TEL"), Vcard { tel: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_tel(c: Vcard, a: Vcard)
    requires okf_tel(c), a.tel == vec_of(Seq::empty())
    ensures did(ls(c.tel@, L"TEL"), crate::spec_b::v_tel(c), a, Vcard { tel: c.tel, ..a })
{
    let v = c.tel;
    lemma_t_tel(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_email(c: Vcard) -> bool { forall|i: int| 0 <= i < c.email@.len() ==> ok_email(#[trigger] c.email@[i]) }
pub proof fn lemma_t_email(v: Vec<TextProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_email(#[trigger] v@[i]), a.email == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"EMAIL"), lines_t(v@, L"EMAIL", k), a, Vcard { email: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"EMAIL") =~= Seq::empty());
    } else {
        lemma_t_email(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { email: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_email(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"EMAIL", k);
        lemma_did_push(ls(v@.take(k - 1), L"EMAIL"), lines_t(v@, L"EMAIL", k - 1), a, b, logical_t(t, L"EMAIL"), Vcard { email: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_email(c: Vcard, a: Vcard)
    requires okf_email(c), a.email == vec_of(Seq::empty())
    ensures did(ls(c.email@, L"EMAIL"), crate::spec_b::v_email(c), a, Vcard { email: c.email, ..a })
{
    let v = c.email;
    lemma_t_email(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_impp(c: Vcard) -> bool { forall|i: int| 0 <= i < c.impp@.len() ==> ok_impp(#[trigger] c.impp@[i]) }
pub proof fn lemma_t_impp(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_impp(#[trigger] v@[i]), a.impp == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"IMPP"), lines_t(v@, L"IMPP", k), a, Vcard { impp: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"IMPP") =~= Seq::empty());
    } else {
        lemma_t_impp(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { impp: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_impp(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"IMPP", k);
        lemma_did_push(ls(v@.take(k - 1), L"IMPP"), lines_t(v@, L"IMPP", k - 1), a, b, logical_t(t, L"IMPP"), Vcard { impp: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_impp(c: Vcard, a: Vcard)
    requires okf_impp(c), a.impp == vec_of(Seq::empty())
    ensures did(ls(c.impp@, L"IMPP"), crate::spec_b::v_impp(c), a, Vcard { impp: c.impp, ..a })
{
    let v = c.impp;
    lemma_t_impp(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_lang(c: Vcard) -> bool { forall|i: int| 0 <= i < c.lang@.len() ==> ok_lang(#[trigger] c.lang@[i]) }
pub proof fn lemma_t_lang(v: Vec<LanguageProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_lang(#[trigger] v@[i]), a.lang == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"LANG"), lines_t(v@, L"LANG", k), a, Vcard { lang: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"LANG") =~= Seq::empty());
    } else {
        lemma_t_lang(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { lang: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_lang(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"LANG", k);
        lemma_did_push(ls(v@.take(k - 1), L"LANG"), lines_t(v@, L"LANG", k - 1), a, b, logical_t(t, L"LANG"), Vcard { lang: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_lang(c: Vcard, a: Vcard)
    requires okf_lang(c), a.lang == vec_of(Seq::empty())
    ensures did(ls(c.lang@, L"LANG"), crate::spec_b::v_lang(c), a, Vcard { lang: c.lang, ..a })
{
    let v = c.lang;
    lemma_t_lang(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_timezone(c: Vcard) -> bool { forall|i: int| 0 <= i < c.timezone@.len() ==> ok_timezone(#[trigger] c.timezone@[i]) }
pub proof fn lemma_t_timezone(v: Vec<TimeZoneProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_timezone(#[trigger] v@[i]), a.timezone == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"TZ"), lines_t(v@, L"TZ", k), a, Vcard { timezone: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"TZ") =~= Seq::empty());
    } else {
        lemma_t_timezone(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { timezone: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_timezone(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"TZ", k);
        lemma_did_push(ls(v@.take(k - 1), L"TZ"), lines_t(v@, L"TZ", k - 1), a, b, logical_t(t, L"TZ"), Vcard { timezone: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_timezone(c: Vcard, a: Vcard)
    requires okf_timezone(c), a.timezone == vec_of(Seq::empty())
    ensures did(ls(c.timezone@, L"TZ"), crate::spec_b::v_timezone(c), a, Vcard { timezone: c.timezone, ..a })
{
    let v = c.timezone;
    lemma_t_timezone(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_geo(c: Vcard) -> bool { forall|i: int| 0 <= i < c.geo@.len() ==> ok_geo(#[trigger] c.geo@[i]) }
pub proof fn lemma_t_geo(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_geo(#[trigger] v@[i]), a.geo == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"GEO"), lines_t(v@, L"GEO", k), a, Vcard { geo: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"GEO") =~= Seq::empty());
    } else {
        lemma_t_geo(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { geo: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_geo(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"GEO", k);
        lemma_did_push(ls(v@.take(k - 1), L"GEO"), lines_t(v@, L"GEO", k - 1), a, b, logical_t(t, L"GEO"), Vcard { geo: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_geo(c: Vcard, a: Vcard)
    requires okf_geo(c), a.geo == vec_of(Seq::empty())
    ensures did(ls(c.geo@, L"GEO"), crate::spec_b::v_geo(c), a, Vcard { geo: c.geo, ..a })
{
    let v = c.geo;
    lemma_t_geo(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_categories(c: Vcard) -> bool { forall|i: int| 0 <= i < c.categories@.len() ==> ok_categories(#[trigger] c.categories@[i]) }
pub proof fn lemma_t_categories(v: Vec<TextListProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_categories(#[trigger] v@[i]), a.categories == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"CATEGORIES"), lines_t(v@, L"CATEGORIES", k), a, Vcard { categories: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"CATEGORIES") =~= Seq::empty());
    } else {
        lemma_t_categories(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { categories: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_categories(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"CATEGORIES", k);
        lemma_did_push(ls(v@.take(k - 1), L"CATEGORIES"), lines_t(v@, L"CATEGORIES", k - 1), a, b, logical_t(t, L"CATEGORIES"), Vcard { categories: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_categories(c: Vcard, a: Vcard)
    requires okf_categories(c), a.categories == vec_of(Seq::empty())
    ensures did(ls(c.categories@, L"CATEGORIES"), crate::spec_b::v_categories(c), a, Vcard { categories: c.categories, ..a })
{
    let v = c.categories;
    lemma_t_categories(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_note(c: Vcard) -> bool { forall|i: int| 0 <= i < c.note@.len() ==> ok_note(#[trigger] c.note@[i]) }
pub proof fn lemma_t_note(v: Vec<TextProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_note(#[trigger] v@[i]), a.note == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"NOTE"), lines_t(v@, L"NOTE", k), a, Vcard { note: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"NOTE") =~= Seq::empty());
    } else {
        lemma_t_note(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { note: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_note(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"NOTE", k);
        lemma_did_push(ls(v@.take(k - 1), L"NOTE"), lines_t(v@, L"NOTE", k - 1), a, b, logical_t(t, L"NOTE"), Vcard { note: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_note(c: Vcard, a: Vcard)
    requires okf_note(c), a.note == vec_of(Seq::empty())
    ensures did(ls(c.note@, L"NOTE"), crate::spec_b::v_note(c), a, Vcard { note: c.note, ..a })
{
    let v = c.note;
    lemma_t_note(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_prod_id(c: Vcard) -> bool { c.prod_id is Some ==> ok_prod_id(c.prod_id->0) }
pub proof fn lemma_s_prod_id(c: Vcard, a: Vcard)
    requires okf_prod_id(c), a.prod_id is None
    ensures did(lo(c.prod_id, L"PRODID"), crate::spec_b::v_prod_id(c), a, Vcard { prod_id: c.prod_id, ..a })
{
    let n = L"PRODID"; lemma_did0(a);
    if c.prod_id is Some {
        let t = c.prod_id->0; let l = logical_t(t, n);
        lemma_r_prod_id(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { prod_id: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.prod_id, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.prod_id, n));
    } else { assert(Vcard { prod_id: c.prod_id, ..a } == a); }
}
pub open spec fn okf_rev(c: Vcard) -> bool { c.rev is Some ==> ok_rev(c.rev->0) }
pub proof fn lemma_s_rev(c: Vcard, a: Vcard)
    requires okf_rev(c), a.rev is None
    ensures did(lo(c.rev, L"REV"), crate::spec_b::v_rev(c), a, Vcard { rev: c.rev, ..a })
{
    let n = L"REV"; lemma_did0(a);
    if c.rev is Some {
        let t = c.rev->0; let l = logical_t(t, n);
        lemma_r_rev(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { rev: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.rev, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.rev, n));
    } else { assert(Vcard { rev: c.rev, ..a } == a); }
}
pub open spec fn okf_sound(c: Vcard) -> bool { forall|i: int| 0 <= i < c.sound@.len() ==> ok_sound(#[trigger] c.sound@[i]) }
pub proof fn lemma_t_sound(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_sound(#[trigger] v@[i]), a.sound == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"SOUND"), lines_t(v@, L"SOUND", k), a, Vcard { sound: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"SOUND") =~= Seq::empty());
    } else {
        lemma_t_sound(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { sound: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_sound(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"SOUND", k);
        lemma_did_push(ls(v@.take(k - 1), L"SOUND"), lines_t(v@, L"SOUND", k - 1), a, b, logical_t(t, L"SOUND"), Vcard { sound: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_sound(c: Vcard, a: Vcard)
    requires okf_sound(c), a.sound == vec_of(Seq::empty())
    ensures did(ls(c.sound@, L"SOUND"), crate::spec_b::v_sound(c), a, Vcard { sound: c.sound, ..a })
{
    let v = c.sound;
    lemma_t_sound(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_uid(c: Vcard) -> bool { c.uid is Some ==> ok_uid(c.uid->0) }
pub proof fn lemma_s_uid(c: Vcard, a: Vcard)
    requires okf_uid(c), a.uid is None
    ensures did(lo(c.uid, L"UID"), crate::spec_b::v_uid(c), a, Vcard { uid: c.uid, ..a })
{
    let n = L"UID"; lemma_did0(a);
    if c.uid is Some {
        let t = c.uid->0; let l = logical_t(t, n);
        lemma_r_uid(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, Vcard { uid: Some(t), ..a });
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.uid, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\r\n") =~= line_o(c.uid, n));
    } else { assert(Vcard { uid: c.uid, ..a } == a); }
}
pub open spec fn okf_client_pid_map(c: Vcard) -> bool { forall|i: int| 0 <= i < c.client_pid_map@.len() ==> ok_client_pid_map(#[trigger] c.client_pid_map@[i]) }
pub proof fn lemma_t_client_pid_map(v: Vec<ClientPidMapProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_client_pid_map(#[trigger] v@[i]), a.client_pid_map == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"CLIENTPIDMAP"), lines_t(v@, L"CLIENTPIDMAP", k), a, Vcard { client_pid_map: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"CLIENTPIDMAP") =~= Seq::empty());
    } else {
        lemma_t_client_pid_map(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { client_pid_map: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_client_pid_map(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"CLIENTPIDMAP", k);
        lemma_did_push(ls(v@.take(k - 1), L"CLIENTPIDMAP"), lines_t(v@, L"CLIENTPIDMAP", k - 1), a, b, logical_t(t, L"CLIENTPIDMAP"), Vcard { client_pid_map: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_client_pid_map(c: Vcard, a: Vcard)
    requires okf_client_pid_map(c), a.client_pid_map == vec_of(Seq::empty())
    ensures did(ls(c.client_pid_map@, L"CLIENTPIDMAP"), crate::spec_b::v_client_pid_map(c), a, Vcard { client_pid_map: c.client_pid_map, ..a })
{
    let v = c.client_pid_map;
    lemma_t_client_pid_map(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_key(c: Vcard) -> bool { forall|i: int| 0 <= i < c.key@.len() ==> ok_key(#[trigger] c.key@[i]) }
pub proof fn lemma_t_key(v: Vec<TextOrUriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_key(#[trigger] v@[i]), a.key == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"KEY"), lines_t(v@, L"KEY", k), a, Vcard { key: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"KEY") =~= Seq::empty());
    } else {
        lemma_t_key(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { key: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_key(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"KEY", k);
        lemma_did_push(ls(v@.take(k - 1), L"KEY"), lines_t(v@, L"KEY", k - 1), a, b, logical_t(t, L"KEY"), Vcard { key: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_key(c: Vcard, a: Vcard)
    requires okf_key(c), a.key == vec_of(Seq::empty())
    ensures did(ls(c.key@, L"KEY"), crate::spec_b::v_key(c), a, Vcard { key: c.key, ..a })
{
    let v = c.key;
    lemma_t_key(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_fburl(c: Vcard) -> bool { forall|i: int| 0 <= i < c.fburl@.len() ==> ok_fburl(#[trigger] c.fburl@[i]) }
pub proof fn lemma_t_fburl(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_fburl(#[trigger] v@[i]), a.fburl == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"FBURL"), lines_t(v@, L"FBURL", k), a, Vcard { fburl: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"FBURL") =~= Seq::empty());
    } else {
        lemma_t_fburl(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { fburl: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_fburl(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"FBURL", k);
        lemma_did_push(ls(v@.take(k - 1), L"FBURL"), lines_t(v@, L"FBURL", k - 1), a, b, logical_t(t, L"FBURL"), Vcard { fburl: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_fburl(c: Vcard, a: Vcard)
    requires okf_fburl(c), a.fburl == vec_of(Seq::empty())
    ensures did(ls(c.fburl@, L"FBURL"), crate::spec_b::v_fburl(c), a, Vcard { fburl: c.fburl, ..a })
{
    let v = c.fburl;
    lemma_t_fburl(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_cal_adr_uri(c: Vcard) -> bool { forall|i: int| 0 <= i < c.cal_adr_uri@.len() ==> ok_cal_adr_uri(#[trigger] c.cal_adr_uri@[i]) }
pub proof fn lemma_t_cal_adr_uri(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_cal_adr_uri(#[trigger] v@[i]), a.cal_adr_uri == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"CALADRURI"), lines_t(v@, L"CALADRURI", k), a, Vcard { cal_adr_uri: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"CALADRURI") =~= Seq::empty());
    } else {
        lemma_t_cal_adr_uri(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { cal_adr_uri: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_cal_adr_uri(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"CALADRURI", k);
        lemma_did_push(ls(v@.take(k - 1), L"CALADRURI"), lines_t(v@, L"CALADRURI", k - 1), a, b, logical_t(t, L"CALADRURI"), Vcard { cal_adr_uri: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_cal_adr_uri(c: Vcard, a: Vcard)
    requires okf_cal_adr_uri(c), a.cal_adr_uri == vec_of(Seq::empty())
    ensures did(ls(c.cal_adr_uri@, L"CALADRURI"), crate::spec_b::v_cal_adr_uri(c), a, Vcard { cal_adr_uri: c.cal_adr_uri, ..a })
{
    let v = c.cal_adr_uri;
    lemma_t_cal_adr_uri(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_cal_uri(c: Vcard) -> bool { forall|i: int| 0 <= i < c.cal_uri@.len() ==> ok_cal_uri(#[trigger] c.cal_uri@[i]) }
pub proof fn lemma_t_cal_uri(v: Vec<UriProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_cal_uri(#[trigger] v@[i]), a.cal_uri == vec_of(Seq::empty())
    ensures did(ls(v@.take(k), L"CALURI"), lines_t(v@, L"CALURI", k), a, Vcard { cal_uri: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(ls(v@.take(k), L"CALURI") =~= Seq::empty());
    } else {
        lemma_t_cal_uri(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { cal_uri: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_cal_uri(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_ls_push(v@, L"CALURI", k);
        lemma_did_push(ls(v@.take(k - 1), L"CALURI"), lines_t(v@, L"CALURI", k - 1), a, b, logical_t(t, L"CALURI"), Vcard { cal_uri: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_cal_uri(c: Vcard, a: Vcard)
    requires okf_cal_uri(c), a.cal_uri == vec_of(Seq::empty())
    ensures did(ls(c.cal_uri@, L"CALURI"), crate::spec_b::v_cal_uri(c), a, Vcard { cal_uri: c.cal_uri, ..a })
{
    let v = c.cal_uri;
    lemma_t_cal_uri(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
pub open spec fn okf_extensions(c: Vcard) -> bool { forall|i: int| 0 <= i < c.extensions@.len() ==> ok_extensions(#[trigger] c.extensions@[i]) }
pub proof fn lemma_t_extensions(v: Vec<ExtensionProperty>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_extensions(#[trigger] v@[i]), a.extensions == vec_of(Seq::empty())
    ensures did(lx(v@.take(k)), exts_lines_t(v@, k), a, Vcard { extensions: vec_of(v@.take(k)), ..a })
    decreases k
{
    if k <= 0 {
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert(lx(v@.take(k)) =~= Seq::empty());
    } else {
        lemma_t_extensions(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = Vcard { extensions: vec_of(v@.take(k - 1)), ..a }; let t = v@[k - 1];
        lemma_r_extensions(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        lemma_lx_push(v@, k);
        lemma_did_push(lx(v@.take(k - 1)), exts_lines_t(v@, k - 1), a, b, logical_t(t, t.name@), Vcard { extensions: vec_of(v@.take(k)), ..a });
    }
}
pub proof fn lemma_s_extensions(c: Vcard, a: Vcard)
    requires okf_extensions(c), a.extensions == vec_of(Seq::empty())
    ensures did(lx(c.extensions@), crate::spec_b::v_extensions(c), a, Vcard { extensions: c.extensions, ..a })
{
    let v = c.extensions;
    lemma_t_extensions(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}
/// every property of a card is read back
pub open spec fn okc(c: Vcard) -> bool {
    &&& okf_source(c)
    &&& okf_kind(c)
    &&& okf_xml(c)
    &&& okf_formatted_name(c)
    &&& okf_name(c)
    &&& okf_nickname(c)
    &&& okf_photo(c)
    &&& okf_bday(c)
    &&& okf_anniversary(c)
    &&& okf_gender(c)
    &&& okf_url(c)
    &&& okf_address(c)
    &&& okf_title(c)
    &&& okf_role(c)
    &&& okf_logo(c)
    &&& okf_org(c)
    &&& okf_member(c)
    &&& okf_related(c)
    &&& okf_tel(c)
    &&& okf_email(c)
    &&& okf_impp(c)
    &&& okf_lang(c)
    &&& okf_timezone(c)
    &&& okf_geo(c)
    &&& okf_categories(c)
    &&& okf_note(c)
    &&& okf_prod_id(c)
    &&& okf_rev(c)
    &&& okf_sound(c)
    &&& okf_uid(c)
    &&& okf_client_pid_map(c)
    &&& okf_key(c)
    &&& okf_fburl(c)
    &&& okf_cal_adr_uri(c)
    &&& okf_cal_uri(c)
    &&& okf_extensions(c)
}
/// the lines of a card make the card
pub proof fn lemma_body_lines(c: Vcard) -> (v: Seq<Seq<u8>>)
    requires okc(c)
    ensures did(v, body_t(c), vcard0(), c)
{
    let a0 = vcard0(); let l0 = Seq::<Seq<u8>>::empty(); let t0 = Seq::<u8>::empty(); lemma_did0(a0);
    let p = ls(c.source@, L"SOURCE"); let a1 = Vcard { source: c.source, ..a0 }; lemma_s_source(c, a0); lemma_did_cat(l0, t0, a0, a0, p, crate::spec_b::v_source(c), a1); let l1 = l0 + p; let t1 = t0 + crate::spec_b::v_source(c);
    let p = lo(c.kind, L"KIND"); let a2 = Vcard { kind: c.kind, ..a1 }; lemma_s_kind(c, a1); lemma_did_cat(l1, t1, a0, a1, p, crate::spec_b::v_kind(c), a2); let l2 = l1 + p; let t2 = t1 + crate::spec_b::v_kind(c);
    let p = ls(c.xml@, L"XML"); let a3 = Vcard { xml: c.xml, ..a2 }; lemma_s_xml(c, a2); lemma_did_cat(l2, t2, a0, a2, p, crate::spec_b::v_xml(c), a3); let l3 = l2 + p; let t3 = t2 + crate::spec_b::v_xml(c);
    let p = ls(c.formatted_name@, L"FN"); let a4 = Vcard { formatted_name: c.formatted_name, ..a3 }; lemma_s_formatted_name(c, a3); lemma_did_cat(l3, t3, a0, a3, p, crate::spec_b::v_formatted_name(c), a4); let l4 = l3 + p; let t4 = t3 + crate::spec_b::v_formatted_name(c);
    let p = lo(c.name, L"N"); let a5 = Vcard { name: c.name, ..a4 }; lemma_s_name(c, a4); lemma_did_cat(l4, t4, a0, a4, p, crate::spec_b::v_name(c), a5); let l5 = l4 + p; let t5 = t4 + crate::spec_b::v_name(c);
    let p = ls(c.nickname@, L"NICKNAME"); let a6 = Vcard { nickname: c.nickname, ..a5 }; lemma_s_nickname(c, a5); lemma_did_cat(l5, t5, a0, a5, p, crate::spec_b::v_nickname(c), a6); let l6 = l5 + p; let t6 = t5 + crate::spec_b::v_nickname(c);
    let p = ls(c.photo@, L"PHOTO"); let a7 = Vcard { photo: c.photo, ..a6 }; lemma_s_photo(c, a6); lemma_did_cat(l6, t6, a0, a6, p, crate::spec_b::v_photo(c), a7); let l7 = l6 + p; let t7 = t6 + crate::spec_b::v_photo(c);
    let p = lo(c.bday, L"BDAY"); let a8 = Vcard { bday: c.bday, ..a7 }; lemma_s_bday(c, a7); lemma_did_cat(l7, t7, a0, a7, p, crate::spec_b::v_bday(c), a8); let l8 = l7 + p; let t8 = t7 + crate::spec_b::v_bday(c);
    let p = lo(c.anniversary, L"ANNIVERSARY"); let a9 = Vcard { anniversary: c.anniversary, ..a8 }; lemma_s_anniversary(c, a8); lemma_did_cat(l8, t8, a0, a8, p, crate::spec_b::v_anniversary(c), a9); let l9 = l8 + p; let t9 = t8 + crate::spec_b::v_anniversary(c);
    let p = lo(c.gender, L"GENDER"); let a10 = Vcard { gender: c.gender, ..a9 }; lemma_s_gender(c, a9); lemma_did_cat(l9, t9, a0, a9, p, crate::spec_b::v_gender(c), a10); let l10 = l9 + p; let t10 = t9 + crate::spec_b::v_gender(c);
    let p = ls(c.url@, L"URL"); let a11 = Vcard { url: c.url, ..a10 }; lemma_s_url(c, a10); lemma_did_cat(l10, t10, a0, a10, p, crate::spec_b::v_url(c), a11); let l11 = l10 + p; let t11 = t10 + crate::spec_b::v_url(c);
    let p = ls(c.address@, L"ADR"); let a12 = Vcard { address: c.address, ..a11 }; lemma_s_address(c, a11); lemma_did_cat(l11, t11, a0, a11, p, crate::spec_b::v_address(c), a12); let l12 = l11 + p; let t12 = t11 + crate::spec_b::v_address(c);
    let p = ls(c.title@, L"TITLE"); let a13 = Vcard { title: c.title, ..a12 }; lemma_s_title(c, a12); lemma_did_cat(l12, t12, a0, a12, p, crate::spec_b::v_title(c), a13); let l13 = l12 + p; let t13 = t12 + crate::spec_b::v_title(c);
    let p = ls(c.role@, L"ROLE"); let a14 = Vcard { role: c.role, ..a13 }; lemma_s_role(c, a13); lemma_did_cat(l13, t13, a0, a13, p, crate::spec_b::v_role(c), a14); let l14 = l13 + p; let t14 = t13 + crate::spec_b::v_role(c);
    let p = ls(c.logo@, L"LOGO"); let a15 = Vcard { logo: c.logo, ..a14 }; lemma_s_logo(c, a14); lemma_did_cat(l14, t14, a0, a14, p, crate::spec_b::v_logo(c), a15); let l15 = l14 + p; let t15 = t14 + crate::spec_b::v_logo(c);
    let p = ls(c.org@, L"ORG"); let a16 = Vcard { org: c.org, ..a15 }; lemma_s_org(c, a15); lemma_did_cat(l15, t15, a0, a15, p, crate::spec_b::v_org(c), a16); let l16 = l15 + p; let t16 = t15 + crate::spec_b::v_org(c);
    let p = ls(c.member@, L"MEMBER"); let a17 = Vcard { member: c.member, ..a16 }; lemma_s_member(c, a16); lemma_did_cat(l16, t16, a0, a16, p, crate::spec_b::v_member(c), a17); let l17 = l16 + p; let t17 = t16 + crate::spec_b::v_member(c);
    let p = ls(c.related@, L"RELATED"); let a18 = Vcard { related: c.related, ..a17 }; lemma_s_related(c, a17); lemma_did_cat(l17, t17, a0, a17, p, crate::spec_b::v_related(c), a18); let l18 = l17 + p; let t18 = t17 + crate::spec_b::v_related(c);
    let p = ls(c.tel@, L"TEL"); let a19 = Vcard { tel: c.tel, ..a18 }; lemma_s_tel(c, a18); lemma_did_cat(l18, t18, a0, a18, p, crate::spec_b::v_tel(c), a19); let l19 = l18 + p; let t19 = t18 + crate::spec_b::v_tel(c);
    let p = ls(c.email@, L"EMAIL"); let a20 = Vcard { email: c.email, ..a19 }; lemma_s_email(c, a19); lemma_did_cat(l19, t19, a0, a19, p, crate::spec_b::v_email(c), a20); let l20 = l19 + p; let t20 = t19 + crate::spec_b::v_email(c);
    let p = ls(c.impp@, L"IMPP"); let a21 = Vcard { impp: c.impp, ..a20 }; lemma_s_impp(c, a20); lemma_did_cat(l20, t20, a0, a20, p, crate::spec_b::v_impp(c), a21); let l21 = l20 + p; let t21 = t20 + crate::spec_b::v_impp(c);
    let p = ls(c.lang@, L"LANG"); let a22 = Vcard { lang: c.lang, ..a21 }; lemma_s_lang(c, a21); lemma_did_cat(l21, t21, a0, a21, p, crate::spec_b::v_lang(c), a22); let l22 = l21 + p; let t22 = t21 + crate::spec_b::v_lang(c);
    let p = ls(c.timezone@, L"TZ"); let a23 = Vcard { timezone: c.timezone, ..a22 }; lemma_s_timezone(c, a22); lemma_did_cat(l22, t22, a0, a22, p, crate::spec_b::v_timezone(c), a23); let l23 = l22 + p; let t23 = t22 + crate::spec_b::v_timezone(c);
    let p = ls(c.geo@, L"GEO"); let a24 = Vcard { geo: c.geo, ..a23 }; lemma_s_geo(c, a23); lemma_did_cat(l23, t23, a0, a23, p, crate::spec_b::v_geo(c), a24); let l24 = l23 + p; let t24 = t23 + crate::spec_b::v_geo(c);
    let p = ls(c.categories@, L"CATEGORIES"); let a25 = Vcard { categories: c.categories, ..a24 }; lemma_s_categories(c, a24); lemma_did_cat(l24, t24, a0, a24, p, crate::spec_b::v_categories(c), a25); let l25 = l24 + p; let t25 = t24 + crate::spec_b::v_categories(c);
    let p = ls(c.note@, L"NOTE"); let a26 = Vcard { note: c.note, ..a25 }; lemma_s_note(c, a25); lemma_did_cat(l25, t25, a0, a25, p, crate::spec_b::v_note(c), a26); let l26 = l25 + p; let t26 = t25 + crate::spec_b::v_note(c);
    let p = lo(c.prod_id, L"PRODID"); let a27 = Vcard { prod_id: c.prod_id, ..a26 }; lemma_s_prod_id(c, a26); lemma_did_cat(l26, t26, a0, a26, p, crate::spec_b::v_prod_id(c), a27); let l27 = l26 + p; let t27 = t26 + crate::spec_b::v_prod_id(c);
    let p = lo(c.rev, L"REV"); let a28 = Vcard { rev: c.rev, ..a27 }; lemma_s_rev(c, a27); lemma_did_cat(l27, t27, a0, a27, p, crate::spec_b::v_rev(c), a28); let l28 = l27 + p; let t28 = t27 + crate::spec_b::v_rev(c);
    let p = ls(c.sound@, L"SOUND"); let a29 = Vcard { sound: c.sound, ..a28 }; lemma_s_sound(c, a28); lemma_did_cat(l28, t28, a0, a28, p, crate::spec_b::v_sound(c), a29); let l29 = l28 + p; let t29 = t28 + crate::spec_b::v_sound(c);
    let p = lo(c.uid, L"UID"); let a30 = Vcard { uid: c.uid, ..a29 }; lemma_s_uid(c, a29); lemma_did_cat(l29, t29, a0, a29, p, crate::spec_b::v_uid(c), a30); let l30 = l29 + p; let t30 = t29 + crate::spec_b::v_uid(c);
    let p = ls(c.client_pid_map@, L"CLIENTPIDMAP"); let a31 = Vcard { client_pid_map: c.client_pid_map, ..a30 }; lemma_s_client_pid_map(c, a30); lemma_did_cat(l30, t30, a0, a30, p, crate::spec_b::v_client_pid_map(c), a31); let l31 = l30 + p; let t31 = t30 + crate::spec_b::v_client_pid_map(c);
    let p = ls(c.key@, L"KEY"); let a32 = Vcard { key: c.key, ..a31 }; lemma_s_key(c, a31); lemma_did_cat(l31, t31, a0, a31, p, crate::spec_b::v_key(c), a32); let l32 = l31 + p; let t32 = t31 + crate::spec_b::v_key(c);
    let p = ls(c.fburl@, L"FBURL"); let a33 = Vcard { fburl: c.fburl, ..a32 }; lemma_s_fburl(c, a32); lemma_did_cat(l32, t32, a0, a32, p, crate::spec_b::v_fburl(c), a33); let l33 = l32 + p; let t33 = t32 + crate::spec_b::v_fburl(c);
    let p = ls(c.cal_adr_uri@, L"CALADRURI"); let a34 = Vcard { cal_adr_uri: c.cal_adr_uri, ..a33 }; lemma_s_cal_adr_uri(c, a33); lemma_did_cat(l33, t33, a0, a33, p, crate::spec_b::v_cal_adr_uri(c), a34); let l34 = l33 + p; let t34 = t33 + crate::spec_b::v_cal_adr_uri(c);
    let p = ls(c.cal_uri@, L"CALURI"); let a35 = Vcard { cal_uri: c.cal_uri, ..a34 }; lemma_s_cal_uri(c, a34); lemma_did_cat(l34, t34, a0, a34, p, crate::spec_b::v_cal_uri(c), a35); let l35 = l34 + p; let t35 = t34 + crate::spec_b::v_cal_uri(c);
    let p = lx(c.extensions@); let a36 = Vcard { extensions: c.extensions, ..a35 }; lemma_s_extensions(c, a35); lemma_did_cat(l35, t35, a0, a35, p, crate::spec_b::v_extensions(c), a36); let l36 = l35 + p; let t36 = t35 + crate::spec_b::v_extensions(c);
    assert(a36 == c);
    crate::spec_c::lemma_body(t0, c); assert(t0 + body_t(c) =~= body_t(c));
    l36
}
/// a card is printed and read back
pub proof fn lemma_readback(c: Vcard, strict: bool)
    requires okc(c), valid(c), wf(unf(vcard_t(c)))
    ensures cards_at(unf(vcard_t(c)), 0, strict) == Some(seq![c])
{
    hide(okc); hide(body_t); hide(valid); hide(steps); hide(fl); hide(unf); hide(cards_at);
    let v = lemma_body_lines(c);
    reveal(did);
    assert(head_t() + (fl(v) + tail_t()) =~= vcard_t(c));
    lemma_doc_lines(v, c, strict);
}
}
