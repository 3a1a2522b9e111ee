/// what the values of a card must be like to be read back
pub mod spec_x {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_g::*;
use crate::spec_r::*;
use crate::spec_q::*;
use crate::spec_w::*;
use crate::parser::Token;
use crate::sh::{upper, String, fmt::Display};
use crate::property::*;
use crate::parameter::*;
use crate::uriparse::{uri_ok, uri_norm};
use crate::{Uri, Vcard};

/// text without escapes
pub proof fn lemma_dec_id(s: Seq<u8>)
    requires without(s, 92)
    ensures dec(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert(s[0] != 92);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 92 by { assert(t[i] == s[i + 1]); }
        lemma_dec_id(t);
        assert(seq![s[0]] + t =~= s);
    } else { assert(dec(s) =~= s); }
}
/// neither control characters nor backslashes
pub open spec fn clear(s: Seq<u8>) -> bool { unctl(s) && without(s, 92) }
/// a URI in the form in which the parser keeps it
pub open spec fn fit_u(u: Uri) -> bool { clear(u.disp()) && uri_ok(u.disp()) && uri_norm(u.disp()) == u.disp() }
pub proof fn lemma_fit_u(u: Uri)
    requires fit_u(u)
    ensures unctl(u.disp()), uri_of(dec(u.disp())) == Some(u)
{
    let s = u.disp();
    lemma_dec_id(s);
    assert(u.0@ == uri_norm(s));
    let x = choose|x: Uri| #[trigger] x.0@ == uri_norm(s);
    assert(x.0@ == uri_norm(s));
    ax_uri_ext(x.0, u.0);
}
pub open spec fn fit_text(t: TextProperty) -> bool { texty(t.value@) }
pub proof fn lemma_fit_text(t: TextProperty)
    requires fit_text(t)
    ensures unctl(t.disp()), w_text(t), str_of(dec(t.disp())) == t.value
{ lemma_esc_plain(t.value@, false); lemma_dec_esc(t.value@, false); ax_str_of(t.value); }
pub open spec fn fit_uri(t: UriProperty) -> bool { fit_u(t.value) }
pub proof fn lemma_fit_uri(t: UriProperty)
    requires fit_uri(t)
    ensures unctl(t.disp()), w_uri(t)
{ lemma_fit_u(t.value); }
/// a photo's text must not look like a URI
pub open spec fn fit_guess(t: TextOrUriProperty) -> bool { match t { TextOrUriProperty::Text(v) => fit_text(v) && !uri_ok(v.value@), TextOrUriProperty::Uri(v) => fit_uri(v) } }
pub proof fn lemma_fit_guess(t: TextOrUriProperty)
    requires fit_guess(t)
    ensures unctl(t.disp()), w_guess(t)
{
    match t {
        TextOrUriProperty::Text(v) => { lemma_fit_text(v); lemma_dec_esc(v.value@, false); }
        TextOrUriProperty::Uri(v) => { lemma_fit_u(v.value); }
    }
}
/// VALUE=text, VALUE=uri, or no VALUE and no doubt
pub open spec fn fit_tou(t: TextOrUriProperty) -> bool {
    let k = vtype(t.pparams());
    match t { TextOrUriProperty::Text(v) => fit_text(v) && (k == Some(ValueType::Text) || (k is None && !uri_ok(v.value@))), TextOrUriProperty::Uri(v) => fit_uri(v) && (k is None || k == Some(ValueType::Uri)) }
}
pub proof fn lemma_fit_tou(t: TextOrUriProperty)
    requires fit_tou(t)
    ensures unctl(t.disp()), w_tou(t)
{
    match t {
        TextOrUriProperty::Text(v) => { lemma_fit_text(v); lemma_dec_esc(v.value@, false); }
        TextOrUriProperty::Uri(v) => { lemma_fit_u(v.value); }
    }
}
/// VALUE=text, or dates and times
pub open spec fn fit_dot(t: DateTimeOrTextProperty) -> bool {
    match t { DateTimeOrTextProperty::Text(v) => fit_text(v) && vtype(v.parameters) == Some(ValueType::Text), DateTimeOrTextProperty::DateTime(v) => crate::spec_i::fit_dts(v.value@) && (vtype(v.parameters) is None || vtype(v.parameters) == Some(ValueType::DateAndOrTime)) }
}
pub proof fn lemma_fit_dot(t: DateTimeOrTextProperty)
    requires fit_dot(t)
    ensures unctl(t.disp()), w_dot(t)
{ match t { DateTimeOrTextProperty::Text(v) => { lemma_fit_text(v); lemma_dec_esc(v.value@, false); } DateTimeOrTextProperty::DateTime(v) => { crate::spec_i::lemma_dts(v.value); } } }
pub open spec fn fit_tz(t: TimeZoneProperty) -> bool {
    let k = vtype(t.pparams());
    match t {
        TimeZoneProperty::Text(v) => fit_text(v) && (k is None || k == Some(ValueType::Text)),
        TimeZoneProperty::Uri(v) => fit_uri(v) && k == Some(ValueType::Uri),
        TimeZoneProperty::UtcOffset(v) => crate::time::minutes(v.value) && k == Some(ValueType::UtcOffset),
    }
}
pub proof fn lemma_fit_tz(t: TimeZoneProperty)
    requires fit_tz(t)
    ensures unctl(t.disp()), w_tz(t)
{
    match t {
        TimeZoneProperty::Text(v) => { lemma_fit_text(v); lemma_dec_esc(v.value@, false); }
        TimeZoneProperty::Uri(v) => { lemma_fit_u(v.value); }
        TimeZoneProperty::UtcOffset(v) => { crate::spec_i::ax_off(v.value); crate::spec_i::lemma_off(v.value); crate::spec_i::lemma_clock(t.disp()); lemma_dec_id(t.disp()); }
    }
}
pub open spec fn fit_kind(t: KindProperty) -> bool { true }
pub proof fn lemma_fit_kind(t: KindProperty)
    ensures unctl(t.disp()), w_kind(t)
{
    crate::lits::ax_codes();
    R"individual"; R"group"; R"org"; R"location";
    assert(clear(t.disp()));
    lemma_dec_id(t.disp());
}
pub open spec fn fit_gender(t: GenderProperty) -> bool { t.value.identity is Some ==> texty(t.value.identity->0@) }
pub proof fn lemma_sex_text(x: Sex)
    ensures clear(x.disp()), without(x.disp(), 59), sex_of(x.disp()) == Some(x)
{ crate::lits::ax_codes(); lemma_sex(x.disp(), x); }
/// the first delimiter
pub proof fn lemma_index_at(a: Seq<u8>, b: u8, r: Seq<u8>)
    requires without(a, b)
    ensures index_b(a + (seq![b] + r), b) == a.len(), index_b(a, b) == a.len()
    decreases a.len()
{
    let x = a + (seq![b] + r);
    if a.len() > 0 {
        let t = a.drop_first();
        assert(a[0] != b);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != b by { assert(t[i] == a[i + 1]); }
        lemma_index_at(t, b, r);
        assert(x.drop_first() =~= t + (seq![b] + r));
    } else { assert(x[0] == b); }
}
/// the escapes of text in front of escaped text
pub proof fn lemma_dec_front(a: Seq<u8>, r: Seq<u8>)
    requires without(a, 92)
    ensures dec(a + r) == a + dec(r)
    decreases a.len()
{
    let x = a + r;
    if a.len() > 0 {
        let t = a.drop_first();
        assert(a[0] != 92);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 92 by { assert(t[i] == a[i + 1]); }
        lemma_dec_front(t, r);
        assert(x.drop_first() =~= t + r);
        assert(seq![a[0]] + (t + dec(r)) =~= a + dec(r));
    } else { assert(x =~= r); assert(a + dec(r) =~= dec(r)); }
}
pub proof fn lemma_unctl_cat(a: Seq<u8>, b: Seq<u8>)
    requires unctl(a), unctl(b)
    ensures unctl(a + b)
{ let x = a + b; assert forall|i: int| 0 <= i < x.len() implies !is_ctrl(#[trigger] x[i]) by { if i < a.len() { assert(!is_ctrl(a[i])); } else { assert(!is_ctrl(b[i - a.len()])); } } }
pub proof fn lemma_fit_gender(t: GenderProperty)
    requires fit_gender(t)
    ensures unctl(t.disp()), w_gender(t)
{
    let g = t.value; let d = g.sex.disp();
    lemma_sex_text(g.sex);
    if g.identity is Some {
        let i = g.identity->0@; let e = esc(i, true);
        lemma_esc_plain(i, true); lemma_dec_esc(i, true); ax_str_of(g.identity->0);
        assert(L";" =~= seq![59u8]);
        assert(t.disp() == d + (L";" + e));
        lemma_unctl_cat(L";", e); lemma_unctl_cat(d, L";" + e);
        lemma_dec_front(d, L";" + e); lemma_dec_front(L";", e);
        let x = d + (seq![59u8] + i);
        assert(dec(t.disp()) == x);
        lemma_index_at(d, 59, i);
        assert(x.take(d.len() as int) =~= d);
        assert(x.skip((d.len() + 1) as int) =~= i);
    } else { lemma_dec_id(d); lemma_index_at(d, 59, Seq::empty()); }
}
/// the components of a printed list; commas are enough when the list is split at commas
pub proof fn lemma_split_one2(s: Seq<u8>, r: Seq<u8>, d: u8, limit: int, semi: bool)
    requires d == 44 || (d == 59 && semi), r.len() == 0 || (r[0] == d && limit > 1)
    ensures split_dec(esc(s, semi) + r, d, limit) =~= if r.len() == 0 { seq![s] } else { seq![s] + split_dec(r.drop_first(), d, limit - 1) }
    decreases s.len()
{
    let x = esc(s, semi) + r;
    lemma_split_len(r, d, limit);
    if s.len() == 0 {
        assert(x =~= r);
        assert(s =~= Seq::<u8>::empty());
    } else {
        let t = s.drop_first(); let a = esc1(s[0], semi); let y = esc(t, semi) + r;
        lemma_split_one2(t, r, d, limit, semi);
        assert(x =~= a + y);
        assert(seq![s[0]] + t =~= s);
        if a.len() == 2 { assert(x.skip(2) =~= y); } else { assert(x.drop_first() =~= y); }
        let w = split_dec(y, d, limit);
        assert(split_dec(x, d, limit) == pre1(seq![s[0]], w));
        assert(w[0] == t);
    }
}
pub open spec fn escn(v: Seq<Seq<u8>>, semi: bool) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| esc(v[i], semi)) }
pub proof fn lemma_split_join2(v: Seq<Seq<u8>>, d: u8, limit: int, semi: bool)
    requires d == 44 || (d == 59 && semi), 1 <= v.len() <= limit
    ensures split_dec(join_b(escn(v, semi), seq![d]), d, limit) == v
    decreases v.len()
{
    let e = escn(v, semi);
    if v.len() == 1 {
        lemma_split_one2(v[0], Seq::empty(), d, limit, semi);
        assert(esc(v[0], semi) + Seq::<u8>::empty() =~= esc(v[0], semi));
        assert(seq![v[0]] =~= v);
    } else {
        let w = v.drop_first();
        lemma_split_join2(w, d, limit - 1, semi);
        assert(e.drop_first() =~= escn(w, semi));
        let r = seq![d] + join_b(escn(w, semi), seq![d]);
        lemma_split_one2(v[0], r, d, limit, semi);
        assert(r.drop_first() =~= join_b(escn(w, semi), seq![d]));
        assert(seq![v[0]] + w =~= v);
    }
}
/// joined text without control characters
pub proof fn lemma_unctl_join(v: Seq<Seq<u8>>, d: Seq<u8>)
    requires unctl(d), forall|i: int| 0 <= i < v.len() ==> unctl(#[trigger] v[i])
    ensures unctl(join_b(v, d))
    decreases v.len()
{
    if v.len() > 0 { assert(unctl(v[0])); }
    if v.len() > 1 {
        let w = v.drop_first();
        assert forall|i: int| 0 <= i < w.len() implies unctl(#[trigger] w[i]) by { assert(unctl(v[i + 1])); }
        lemma_unctl_join(w, d);
        lemma_unctl_cat(d, join_b(w, d)); lemma_unctl_cat(v[0], d + join_b(w, d));
    }
}
/// one component or more, with the delimiter of the property
pub open spec fn fit_list(t: TextListProperty) -> bool { 1 <= t.value@.len() <= usize::MAX && forall|i: int| 0 <= i < t.value@.len() ==> texty((#[trigger] t.value@[i])@) }
pub open spec fn fit_semi(t: TextListProperty) -> bool { fit_list(t) && t.delimiter is SemiColon }
pub open spec fn fit_comma(t: TextListProperty) -> bool { fit_list(t) && t.delimiter is Comma }
pub proof fn lemma_fit_list(t: TextListProperty)
    requires fit_list(t)
    ensures unctl(t.disp()), strs_of(split_dec(t.disp(), if t.delimiter is SemiColon { 59u8 } else { 44u8 }, usize::MAX as int)) == t.value
{
    let semi = t.delimiter is SemiColon; let v = sviews(t.value@); let d = if semi { 59u8 } else { 44u8 };
    assert(escn(v, semi) =~= escs(t.value@, semi));
    assert(L";" =~= seq![59u8]); assert(L"," =~= seq![44u8]);
    lemma_split_join2(v, d, usize::MAX as int, semi);
    assert forall|i: int| 0 <= i < v.len() implies unctl(#[trigger] escn(v, semi)[i]) by { assert(texty(t.value@[i]@)); lemma_esc_plain(v[i], semi); }
    lemma_unctl_join(escn(v, semi), seq![d]);
    ax_strs_of(t.value);
}
pub proof fn lemma_fit_semi(t: TextListProperty) requires fit_semi(t) ensures unctl(t.disp()), w_semi(t) { lemma_fit_list(t); }
pub proof fn lemma_fit_comma(t: TextListProperty) requires fit_comma(t) ensures unctl(t.disp()), w_comma(t) { lemma_fit_list(t); }
/// a component of an address: absent or not empty
pub open spec fn fit_o(o: Option<String>) -> bool { o is Some ==> o->0@.len() > 0 && texty(o->0@) }
pub open spec fn txt_o(o: Option<String>) -> Seq<u8> { match o { Some(s) => s@, None => Seq::empty() } }
pub open spec fn fit_adr(t: AddressProperty) -> bool { let a = t.value; fit_o(a.po_box) && fit_o(a.extended_address) && fit_o(a.street_address) && fit_o(a.locality) && fit_o(a.region) && fit_o(a.postal_code) && fit_o(a.country_name) }
pub proof fn lemma_fit_o(o: Option<String>)
    requires fit_o(o)
    ensures unctl(esc_o(o)), esc_o(o) == esc(txt_o(o), true), opt_of(txt_o(o)) == o
{ if o is Some { lemma_esc_plain(o->0@, true); ax_str_of(o->0); } else { assert(esc(Seq::<u8>::empty(), true) =~= Seq::<u8>::empty()); } }
pub proof fn lemma_join_step(a: Seq<u8>, v: Seq<Seq<u8>>, d: Seq<u8>)
    requires v.len() > 0
    ensures join_b(seq![a] + v, d) == a + (d + join_b(v, d))
{ assert((seq![a] + v).drop_first() =~= v); }
pub proof fn lemma_fit_adr(t: AddressProperty)
    requires fit_adr(t)
    ensures unctl(t.disp()), w_adr(t)
{
    let a = t.value;
    let v = seq![txt_o(a.po_box), txt_o(a.extended_address), txt_o(a.street_address), txt_o(a.locality), txt_o(a.region), txt_o(a.postal_code), txt_o(a.country_name)];
    let e = escn(v, true); let d = seq![59u8];
    assert(L";" =~= d);
    lemma_fit_o(a.po_box); lemma_fit_o(a.extended_address); lemma_fit_o(a.street_address); lemma_fit_o(a.locality); lemma_fit_o(a.region); lemma_fit_o(a.postal_code); lemma_fit_o(a.country_name);
    assert(join_b(e, d) == t.disp()) by {
        let z = seq![e[6]];
        assert(join_b(z, d) == e[6]);
        let y = seq![e[5]] + z; lemma_join_step(e[5], z, d);
        let x = seq![e[4]] + y; lemma_join_step(e[4], y, d);
        let w = seq![e[3]] + x; lemma_join_step(e[3], x, d);
        let u = seq![e[2]] + w; lemma_join_step(e[2], w, d);
        let q = seq![e[1]] + u; lemma_join_step(e[1], u, d);
        lemma_join_step(e[0], q, d);
        assert(seq![e[0]] + q =~= e);
    }
    lemma_split_join2(v, 59, 7, true);
    assert forall|i: int| 0 <= i < e.len() implies unctl(#[trigger] e[i]) by { }
    lemma_unctl_join(e, d);
}
pub open spec fn fit_lang(t: LanguageProperty) -> bool { clear(t.value@) }
pub proof fn lemma_fit_lang(t: LanguageProperty)
    requires fit_lang(t)
    ensures unctl(t.disp()), w_lang(t)
{ lemma_dec_id(t.value@); ax_str_of(t.value); }
/// timestamps are read back one by one (C11)
pub open spec fn fit_stamp(t: DateTimeProperty) -> bool { crate::spec_i::fit_x(t.value) }
pub proof fn lemma_fit_stamp(t: DateTimeProperty) requires fit_stamp(t) ensures unctl(t.disp()), w_stamp(t) { crate::spec_i::lemma_stamp(t.value); crate::spec_i::lemma_dtime(t.value); crate::spec_i::lemma_clock(t.disp()); lemma_dec_id(t.disp()); }
pub proof fn lemma_int_text(n: int)
    ensures clear(int_text(n)), without(int_text(n), 59), without(int_text(n), 44), without(int_text(n), 46), int_parse(int_text(n)) == Some(n)
{ crate::sh::ax_int(n); let t = int_text(n); assert forall|i: int| 0 <= i < t.len() implies 45 <= #[trigger] t[i] <= 57 && t[i] != 46 by { assert(0x30 <= t[i] <= 0x39 || t[i] == 45); } }
pub open spec fn fit_pidmap(t: ClientPidMapProperty) -> bool { t.value.source > 0 && fit_u(t.value.uri) && (t.parameters is Some ==> t.parameters->0.pid is None) }
pub proof fn lemma_fit_pidmap(t: ClientPidMapProperty)
    requires fit_pidmap(t)
    ensures unctl(t.disp()), w_pidmap(t)
{
    let n = int_text(t.value.source as int); let u = t.value.uri.disp();
    lemma_int_text(t.value.source as int);
    assert(L";" =~= seq![59u8]);
    lemma_fit_u(t.value.uri); lemma_dec_id(u);
    lemma_unctl_cat(L";", u); lemma_unctl_cat(n, L";" + u);
    lemma_dec_front(n, L";" + u); lemma_dec_front(L";", u);
    let x = n + (seq![59u8] + u);
    lemma_index_at(n, 59, u);
    assert(x.take(n.len() as int) =~= n);
    assert(x.skip((n.len() + 1) as int) =~= u);
}
/// the value has the type that VALUE says
pub open spec fn fit_ext(t: ExtensionProperty) -> bool {
    let k = vtype(t.parameters);
    x_name(t.name@) && match t.value {
        AnyProperty::Text(v) => texty(v@) && (k is None || k == Some(ValueType::Text)),
        AnyProperty::Uri(v) => fit_u(v) && k == Some(ValueType::Uri),
        AnyProperty::Language(v) => clear(v@) && k == Some(ValueType::LanguageTag),
        _ => crate::spec_i::fit_any(t.value, k),
    }
}
pub proof fn lemma_fit_ext(t: ExtensionProperty)
    requires fit_ext(t)
    ensures unctl(t.disp()), w_ext(t)
{
    match t.value {
        AnyProperty::Text(v) => { lemma_esc_plain(v@, false); lemma_dec_esc(v@, false); ax_str_of(v); }
        AnyProperty::Uri(v) => { lemma_fit_u(v); }
        AnyProperty::Language(v) => { lemma_dec_id(v@); ax_str_of(v); }
        _ => { crate::spec_i::lemma_any(t.value, vtype(t.parameters)); }
    }
}
}
