out=[]
w=out.append
w('''/// what the parser makes of one property: a function of the text
pub mod spec_v {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::sh::{fmt, fmt::Display, String, occurs};
use crate::property::*;
use crate::parameter::*;
use crate::time::{Time, UtcOffset};
use crate::{Vcard, Uri, Date, DateTime};
use crate::uriparse::{URI, uri_ok, uri_norm};

// ---------------------------------------------------------------- values with the same content are the same value
pub axiom fn ax_str_ext(a: String, b: String) ensures a@ == b@ ==> a == b;
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
pub axiom fn ax_uri_ext(a: URI<'static>, b: URI<'static>) ensures a@ == b@ ==> a == b;
pub open spec fn str_of(s: Seq<u8>) -> String { choose|x: String| #[trigger] x@ == s }
pub open spec fn vec_of<T>(s: Seq<T>) -> Vec<T> { choose|x: Vec<T>| #[trigger] x@ == s }
pub broadcast proof fn ax_str_of(s: String) ensures str_of(#[trigger] s@) == s { ax_str_ext(str_of(s@), s); }
pub broadcast proof fn ax_vec_of<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v { ax_vec_ext(vec_of(v@), v); }
pub open spec fn strs_of(v: Seq<Seq<u8>>) -> Vec<String> { vec_of(Seq::new(v.len(), |i: int| str_of(v[i]))) }
pub broadcast proof fn ax_strs_of(v: Vec<String>) ensures strs_of(#[trigger] sviews(v@)) == v {
    assert forall|i: int| 0 <= i < v@.len() implies str_of(sviews(v@)[i]) == v@[i] by { ax_str_of(v@[i]); }
    assert(Seq::new(sviews(v@).len(), |i: int| str_of(sviews(v@)[i])) =~= v@);
    ax_vec_of(v);
}
pub open spec fn uri_of(s: Seq<u8>) -> Option<Uri> { if uri_ok(s) { Some(choose|u: Uri| #[trigger] u.0@ == uri_norm(s)) } else { None } }
pub proof fn lemma_uri(s: Seq<u8>, r: core::result::Result<Uri, crate::Error>)
    requires <Uri as crate::sh::str_::FromStr>::post(s, r)
    ensures res_is(r, uri_of(s))
{ if r is Ok { let u = choose|u: Uri| #[trigger] u.0@ == uri_norm(s); assert(r->Ok_0.0@ == uri_norm(s)); ax_uri_ext(u.0, r->Ok_0.0); } }
pub broadcast proof fn ax_uri(s: Seq<u8>, r: core::result::Result<Uri, crate::Error>)
    ensures #[trigger] <Uri as crate::sh::str_::FromStr>::post(s, r) ==> res_is(r, uri_of(s))
{ if <Uri as crate::sh::str_::FromStr>::post(s, r) { lemma_uri(s, r); } }
pub broadcast group group_ext { ax_str_of, ax_vec_of, ax_strs_of, ax_uri }

// ---------------------------------------------------------------- enumerated values
pub open spec fn kind_of(s: Seq<u8>) -> Option<Kind> { if s == L"individual" { Some(Kind::Individual) } else if s == L"group" { Some(Kind::Group) } else if s == L"org" { Some(Kind::Org) } else if s == L"location" { Some(Kind::Location) } else { None } }
pub open spec fn sex_of(s: Seq<u8>) -> Option<Sex> { if s == L"" { Some(Sex::None) } else if s == L"M" { Some(Sex::Male) } else if s == L"F" { Some(Sex::Female) } else if s == L"O" { Some(Sex::Other) } else if s == L"N" { Some(Sex::NotApplicable) } else if s == L"U" { Some(Sex::Unknown) } else { None } }
pub open spec fn gender_of(s: Seq<u8>) -> Option<Gender> {
    let k = index_b(s, 59);
    if k < s.len() { match sex_of(s.take(k)) { Some(x) => Some(Gender { sex: x, identity: Some(str_of(s.skip(k + 1))) }), None => None } }
    else { match sex_of(s) { Some(x) => Some(Gender { sex: x, identity: None }), None => None } }
}
pub open spec fn opt_of(c: Seq<u8>) -> Option<String> { if c.len() > 0 { Some(str_of(c)) } else { None } }
pub open spec fn adr_of(s: Seq<u8>) -> Option<DeliveryAddress> {
    let c = split_dec(s, 59, 7);
    if c.len() == 7 { Some(DeliveryAddress { po_box: opt_of(c[0]), extended_address: opt_of(c[1]), street_address: opt_of(c[2]), locality: opt_of(c[3]), region: opt_of(c[4]), postal_code: opt_of(c[5]), country_name: opt_of(c[6]) }) }
    else { None }
}
pub open spec fn pidmap_of(s: Seq<u8>) -> Option<ClientPidMap> {
    let k = index_b(s, 59);
    let n = int_parse(s.take(k));
    if k < s.len() && n is Some && 0 < n->0 <= u64::MAX && uri_ok(s.skip(k + 1)) { Some(ClientPidMap { source: n->0 as u64, uri: uri_of(s.skip(k + 1))->0 }) } else { None }
}
pub broadcast proof fn ax_kind(s: Seq<u8>, r: core::result::Result<Kind, crate::Error>)
    ensures #[trigger] <Kind as crate::sh::str_::FromStr>::post(s, r) ==> res_is(r, kind_of(s))
{ crate::lits::ax_codes(); if <Kind as crate::sh::str_::FromStr>::post(s, r) { assert(Kind::Individual.disp() == L"individual" && Kind::Group.disp() == L"group" && Kind::Org.disp() == L"org" && Kind::Location.disp() == L"location"); } }
pub proof fn lemma_sex(s: Seq<u8>, x: Sex)
    ensures x.disp() == s ==> sex_of(s) == Some(x), sex_of(s) is Some ==> (sex_of(s)->0).disp() == s
{ crate::lits::ax_codes(); }
pub broadcast proof fn ax_gender(s: Seq<u8>, r: core::result::Result<Gender, crate::Error>)
    ensures #[trigger] <Gender as crate::sh::str_::FromStr>::post(s, r) ==> res_is(r, gender_of(s))
{
    if <Gender as crate::sh::str_::FromStr>::post(s, r) {
        let k = index_b(s, 59);
        let sx = if k < s.len() { s.take(k) } else { s };
        if r is Ok { lemma_sex(sx, r->Ok_0.sex); if k < s.len() { ax_str_of(r->Ok_0.identity->0); } }
        if sex_of(sx) is Some { lemma_sex(sx, sex_of(sx)->0); }
    }
}
pub broadcast proof fn ax_adr(s: Seq<u8>, r: core::result::Result<DeliveryAddress, crate::Error>)
    ensures #[trigger] <DeliveryAddress as crate::sh::str_::FromStr>::post(s, r) ==> res_is(r, adr_of(s))
{ broadcast use ax_str_of; }
pub broadcast proof fn ax_pidmap(s: Seq<u8>, r: core::result::Result<ClientPidMap, crate::Error>)
    ensures #[trigger] <ClientPidMap as crate::sh::str_::FromStr>::post(s, r) ==> res_is(r, pidmap_of(s))
{
    if <ClientPidMap as crate::sh::str_::FromStr>::post(s, r) && r is Ok { let t = s.skip(index_b(s, 59) + 1); let u = choose|u: Uri| #[trigger] u.0@ == uri_norm(t); assert(r->Ok_0.uri.0@ == uri_norm(t)); ax_uri_ext(u.0, r->Ok_0.uri.0); }
}
pub broadcast group group_val { ax_str_of, ax_vec_of, ax_strs_of, ax_uri, ax_kind, ax_gender, ax_adr, ax_pidmap, ax_list, ax_dates }

// ---------------------------------------------------------------- lists
pub open spec fn all_of<T>(p: Seq<Seq<u8>>, g: spec_fn(Seq<u8>) -> Option<T>) -> bool { forall|i: int| 0 <= i < p.len() ==> g(#[trigger] p[i]) is Some }
pub open spec fn vals_of<T>(p: Seq<Seq<u8>>, g: spec_fn(Seq<u8>) -> Option<T>) -> Seq<T> { Seq::new(p.len(), |i: int| g(p[i])->0) }
pub open spec fn list_of<T>(s: Seq<u8>, g: spec_fn(Seq<u8>) -> Option<T>) -> Option<Vec<T>> {
    let p = split_b(s, 44);
    if all_of(p, g) { Some(vec_of(vals_of(p, g))) } else { None }
}
pub broadcast proof fn ax_list<T>(r: core::result::Result<Vec<T>, crate::Error>, s: Seq<u8>, g: spec_fn(Seq<u8>) -> Option<T>)
    ensures #[trigger] list_is(r, s, g) ==> res_is(r, list_of(s, g))
{
    if list_is(r, s, g) && r is Ok { assert(r->Ok_0@ =~= vals_of(split_b(s, 44), g)); ax_vec_of(r->Ok_0); }
}
pub open spec fn dates_of(v: Seq<crate::time::Date>) -> Seq<Date> { Seq::new(v.len(), |i: int| Date(v[i])) }
pub broadcast proof fn ax_dates(v: Vec<crate::time::Date>, r: Vec<Date>)
    ensures #![trigger v@, r@] r@.len() == v@.len() && (forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == v@[i]) ==> r == vec_of(dates_of(v@))
{ if r@.len() == v@.len() && (forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == v@[i]) {
    assert forall|i: int| 0 <= i < r@.len() implies r@[i] == dates_of(v@)[i] by { assert(r@[i].0 == v@[i]); }
    assert(r@ =~= dates_of(v@)); ax_vec_of(r); } }
pub open spec fn dts_of(s: Seq<u8>) -> Option<Vec<DateAndOrTime>> { list_of(s, |s: Seq<u8>| dt_of(s)) }

// ---------------------------------------------------------------- properties
pub type Pa = Option<Parameters>;
pub type Gr = Option<String>;
pub open spec fn vtype(p: Pa) -> Option<ValueType> { match p { Some(x) => x.value, None => None } }
pub open spec fn text_p(v: Seq<u8>, p: Pa, g: Gr) -> TextProperty { TextProperty { value: str_of(v), parameters: p, group: g } }
pub open spec fn uri_p(v: Seq<u8>, p: Pa, g: Gr) -> Option<UriProperty> { match uri_of(v) { Some(u) => Some(UriProperty { value: u, parameters: p, group: g }), None => None } }
/// a value that is a URI if it can be
pub open spec fn guess_p(v: Seq<u8>, p: Pa, g: Gr) -> TextOrUriProperty { match uri_of(v) { Some(u) => TextOrUriProperty::Uri(UriProperty { value: u, parameters: p, group: g }), None => TextOrUriProperty::Text(text_p(v, p, g)) } }
pub open spec fn tou_p(v: Seq<u8>, p: Pa, g: Gr) -> Option<TextOrUriProperty> {
    match vtype(p) {
        None => Some(guess_p(v, p, g)),
        Some(ValueType::Text) => Some(TextOrUriProperty::Text(text_p(v, p, g))),
        Some(ValueType::Uri) => match uri_of(v) { Some(u) => Some(TextOrUriProperty::Uri(UriProperty { value: u, parameters: p, group: g })), None => None },
        Some(_) => None,
    }
}
pub open spec fn dot_p(v: Seq<u8>, p: Pa, g: Gr) -> Option<DateTimeOrTextProperty> {
    match vtype(p) {
        Some(ValueType::Text) => Some(DateTimeOrTextProperty::Text(text_p(v, p, g))),
        None | Some(ValueType::DateAndOrTime) => match dts_of(v) { Some(l) => Some(DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { value: l, parameters: p, group: g })), None => None },
        Some(_) => None,
    }
}
pub open spec fn tz_p(v: Seq<u8>, p: Pa, g: Gr) -> Option<TimeZoneProperty> {
    match vtype(p) {
        None | Some(ValueType::Text) => Some(TimeZoneProperty::Text(text_p(v, p, g))),
        Some(ValueType::UtcOffset) => match off_of(v) { Some(o) => Some(TimeZoneProperty::UtcOffset(UtcOffsetProperty { value: o, parameters: p, group: g })), None => None },
        Some(ValueType::Uri) => match uri_of(v) { Some(u) => Some(TimeZoneProperty::Uri(UriProperty { value: u, parameters: p, group: g })), None => None },
        Some(_) => None,
    }
}
pub open spec fn opt_map<T>(o: Option<T>, f: spec_fn(T) -> AnyProperty) -> Option<AnyProperty> { match o { Some(x) => Some(f(x)), None => None } }
/// the value of an extension property: typed by VALUE, text by default
pub open spec fn any_of(v: Seq<u8>, t: Option<ValueType>) -> Option<AnyProperty> {
    match t {
        None | Some(ValueType::Text) => Some(AnyProperty::Text(str_of(v))),
        Some(ValueType::Integer) => match list_of(v, |s: Seq<u8>| i64_of(s)) { Some(x) => Some(AnyProperty::Integer(x)), None => None },
        Some(ValueType::Float) => match list_of(v, |s: Seq<u8>| float_parse(s)) { Some(x) => Some(AnyProperty::Float(x)), None => None },
        Some(ValueType::Boolean) => match bool_of(v) { Some(x) => Some(AnyProperty::Boolean(x)), None => None },
        Some(ValueType::Date) => match list_of(v, |s: Seq<u8>| date_of(s)) { Some(x) => Some(AnyProperty::Date(vec_of(dates_of(x@)))), None => None },
        Some(ValueType::DateTime) => match list_of(v, |s: Seq<u8>| dtime_of(s)) { Some(x) => Some(AnyProperty::DateTime(x)), None => None },
        Some(ValueType::Time) => match list_of(v, |s: Seq<u8>| time_of(s)) { Some(x) => Some(AnyProperty::Time(x)), None => None },
        Some(ValueType::DateAndOrTime) => match dts_of(v) { Some(x) => Some(AnyProperty::DateAndOrTime(x)), None => None },
        Some(ValueType::Timestamp) => match list_of(v, |s: Seq<u8>| stamp_of(s)) { Some(x) => Some(AnyProperty::Timestamp(x)), None => None },
        Some(ValueType::LanguageTag) => Some(AnyProperty::Language(str_of(v))),
        Some(ValueType::UtcOffset) => match off_of(v) { Some(x) => Some(AnyProperty::UtcOffset(x)), None => None },
        Some(ValueType::Uri) => match uri_of(v) { Some(x) => Some(AnyProperty::Uri(x)), None => None },
    }
}
pub open spec fn ext_p(name: Seq<u8>, v: Seq<u8>, p: Pa, g: Gr) -> Option<ExtensionProperty> {
    match any_of(v, vtype(p)) { Some(x) => Some(ExtensionProperty { name: str_of(name), value: x, parameters: p, group: g }), None => None }
}
pub open spec fn put_ext(name: Seq<u8>, v: Seq<u8>, p: Pa, g: Gr, a: Vcard) -> Option<Vcard> {
    match ext_p(name, v, p, g) { Some(x) => Some(Vcard { extensions: vec_of(a.extensions@.push(x)), ..a }), None => None }
}
pub open spec fn semi_p(raw: Seq<u8>, p: Pa, g: Gr) -> TextListProperty { TextListProperty { value: strs_of(split_dec(raw, 59, usize::MAX as int)), parameters: p, group: g, delimiter: TextListDelimiter::SemiColon } }
pub open spec fn comma_p(raw: Seq<u8>, p: Pa, g: Gr) -> TextListProperty { TextListProperty { value: strs_of(split_dec(raw, 44, usize::MAX as int)), parameters: p, group: g, delimiter: TextListDelimiter::Comma } }
/// the property is a private extension
pub open spec fn is_x(t: Tok, u: Seq<u8>) -> bool { t == Tok::Ok(crate::parser::Token::ExtensionName) || occurs(u, L"X-", 0) }
''')
V=dict
multi_text='XML:xml FN:formatted_name NICKNAME:nickname EMAIL:email TITLE:title ROLE:role NOTE:note'
multi_uri='SOURCE:source IMPP:impp GEO:geo LOGO:logo MEMBER:member SOUND:sound URL:url FBURL:fburl CALADRURI:cal_adr_uri CALURI:cal_uri'
order='SOURCE KIND XML FN N NICKNAME PHOTO BDAY ANNIVERSARY GENDER ADR TEL EMAIL IMPP LANG TZ GEO TITLE ROLE LOGO ORG MEMBER RELATED CATEGORIES NOTE PRODID REV SOUND UID CLIENTPIDMAP URL KEY FBURL CALADRURI CALURI'.split()
mt=dict(x.split(':') for x in multi_text.split()); mu=dict(x.split(':') for x in multi_uri.split())
def opt(f,e,mk): return f'match {e} {{ Some(x) => Some(Vcard {{ {f}: {mk}, ..a }}), None => None }}'
def push(f,x): return f'vec_of(a.{f}@.push({x}))'
def once(f,body): return f'if a.{f} is Some {{ None }} else {{ {body} }}'
def st(T): return T+' { value: x, parameters: p, group: g }'
def case(n):
    if n in mt: f=mt[n]; return f'Some(Vcard {{ {f}: {push(f,"text_p(v, p, g)")}, ..a }})'
    if n in mu: f=mu[n]; return opt(f,'uri_p(v, p, g)',push(f,'x'))
    d={
    'KIND': once('kind',opt('kind','kind_of(v)','Some(%s)'%st('KindProperty'))),
    'N': once('name','Some(Vcard { name: Some(semi_p(raw, p, g)), ..a })'),
    'PHOTO': 'Some(Vcard { photo: %s, ..a })'%push('photo','guess_p(v, p, g)'),
    'BDAY': once('bday',opt('bday','dot_p(v, p, g)','Some(x)')),
    'ANNIVERSARY': once('anniversary',opt('anniversary','dot_p(v, p, g)','Some(x)')),
    'GENDER': once('gender',opt('gender','gender_of(v)','Some(%s)'%st('GenderProperty'))),
    'ADR': opt('address','adr_of(raw)',push('address',st('AddressProperty'))),
    'TEL': opt('tel','tou_p(v, p, g)',push('tel','x')),
    'LANG': 'Some(Vcard { lang: %s, ..a })'%push('lang','LanguageProperty { value: str_of(v), parameters: p, group: g }'),
    'TZ': opt('timezone','tz_p(v, p, g)',push('timezone','x')),
    'ORG': 'Some(Vcard { org: %s, ..a })'%push('org','semi_p(raw, p, g)'),
    'RELATED': opt('related','tou_p(v, p, g)',push('related','x')),
    'CATEGORIES': 'Some(Vcard { categories: %s, ..a })'%push('categories','comma_p(raw, p, g)'),
    'PRODID': once('prod_id','Some(Vcard { prod_id: Some(text_p(v, p, g)), ..a })'),
    'REV': once('rev',opt('rev','stamp_of(v)','Some(%s)'%st('DateTimeProperty'))),
    'UID': once('uid',opt('uid','tou_p(v, p, g)','Some(x)')),
    'CLIENTPIDMAP': 'if p is Some && p->0.pid is Some { None } else { %s }'%opt('client_pid_map','pidmap_of(v)',push('client_pid_map',st('ClientPidMapProperty'))),
    'KEY': opt('key','tou_p(v, p, g)',push('key','x')),
    }
    return d[n]
for n in order:
    w(f'pub open spec fn put_{n.lower()}(v: Seq<u8>, raw: Seq<u8>, p: Pa, g: Gr, a: Vcard) -> Option<Vcard> {{ {case(n)} }}')
w('/// a standard property, `u` being its name in upper case')
w('pub open spec fn put_std(u: Seq<u8>, v: Seq<u8>, raw: Seq<u8>, p: Pa, g: Gr, a: Vcard) -> Option<Vcard> {')
w('    '+' else '.join(f'if u == L"{n}" {{ put_{n.lower()}(v, raw, p, g, a) }}\n   ' for n in order)+' else { None }')
w('}')
w('''/// the parameters `a` with an extension parameter
pub open spec fn add_ext(n: Seq<u8>, v: Seq<u8>, a: Parameters) -> Parameters {
    let e = match a.extensions { Some(e) => e@, None => Seq::empty() };
    Parameters { extensions: Some(vec_of(e.push((str_of(n), strs_of(split_b(v, 44)))))), ..a }
}
/// the card `a` with the property `name` whose value is written `raw`
pub open spec fn put(t: Tok, name: Seq<u8>, raw: Seq<u8>, p: Pa, g: Gr, a: Vcard) -> Option<Vcard> {
    if is_x(t, upper(name)) { put_ext(name, dec(raw), p, g, a) } else { put_std(upper(name), dec(raw), raw, p, g, a) }
}
}''')
open('/verif/contracts/spec_d.rs','w').write('\n'.join(out)+'\n')
