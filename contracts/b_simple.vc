//# ------------------------------------------------------------------ dates
@impl date_time::<DateTime as From<OffsetDateTime>>
open spec fn from_post(v: OffsetDateTime, r: Self) -> bool { r.0 == v }
@impl date_time::<OffsetDateTime as From<DateTime>>
open spec fn from_post(v: DateTime, r: Self) -> bool { r == v.0 }
@impl date_time::<DateTime as AsRef<OffsetDateTime>>
open spec fn ar(&self) -> Seq<u8> { crate::sh::Txt::txt(&self.0) }
open spec fn ar_is(&self, r: &OffsetDateTime) -> bool { *r == self.0 }
@fn date_time::<DateTime as AsRef<OffsetDateTime>>::as_ref
@ghost start
assert(self.ar_is(&self.0) && crate::sh::Txt::txt(&self.0) == self.ar());
@impl date_time::<DateTime as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool {
    (r is Ok <==> crate::time::odt_p(L"Rfc3339", s) is Some) && (r is Ok ==> (r->Ok_0).0 == crate::time::odt_p(L"Rfc3339", s)->0)
}
@impl date_time::<Date as From<time::Date>>
open spec fn from_post(v: crate::time::Date, r: Self) -> bool { r.0 == v }
@impl date_time::<time::Date as From<Date>>
open spec fn from_post(v: Date, r: Self) -> bool { r == v.0 }
@impl date_time::<Date as AsRef<time::Date>>
open spec fn ar(&self) -> Seq<u8> { crate::sh::Txt::txt(&self.0) }
open spec fn ar_is(&self, r: &crate::time::Date) -> bool { *r == self.0 }
@fn date_time::<Date as AsRef<time::Date>>::as_ref
@ghost start
assert(self.ar_is(&self.0) && crate::sh::Txt::txt(&self.0) == self.ar());
@impl date_time::<Date as Display>
open spec fn disp(&self) -> Seq<u8> { self.0.disp() }
@impl date_time::<Date as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool {
    (r is Ok <==> crate::time::odt_p(L"Rfc3339", s) is Some) && (r is Ok ==> (r->Ok_0).0 == crate::time::odt_date(crate::time::odt_p(L"Rfc3339", s)->0))
}

//# ------------------------------------------------------------------ uri
@impl uri::<Uri as Display>
open spec fn disp(&self) -> Seq<u8> { self.0@ }
@impl uri::<Uri as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool {
    (r is Ok <==> crate::uriparse::uri_ok(s)) && (r is Ok ==> (r->Ok_0).0@ == crate::uriparse::uri_norm(s))
}

//# ------------------------------------------------------------------ properties: conversions
@impl property::<AddressProperty as From<DeliveryAddress>>
open spec fn from_post(v: DeliveryAddress, r: Self) -> bool { r.value == v && r.group is None && r.parameters is None }
@impl property::<LanguageProperty as From<String>>
open spec fn from_post(v: String, r: Self) -> bool { r.value == v && r.group is None && r.parameters is None }
@impl property::<DateTimeProperty as From<DateTime>>
open spec fn from_post(v: DateTime, r: Self) -> bool { r.value == v && r.group is None && r.parameters is None }
@impl property::<DateAndOrTime as From<Date>>
open spec fn from_post(v: Date, r: Self) -> bool { r == DateAndOrTime::Date(v) }
@impl property::<DateAndOrTime as From<DateTime>>
open spec fn from_post(v: DateTime, r: Self) -> bool { r == DateAndOrTime::DateTime(v) }
@impl property::<DateAndOrTime as From<(Time,UtcOffset)>>
open spec fn from_post(v: (Time, UtcOffset), r: Self) -> bool { r == DateAndOrTime::Time(v) }
@impl property::<DateAndOrTimeProperty as From<Date>>
open spec fn from_post(v: Date, r: Self) -> bool { r.value@ == seq![DateAndOrTime::Date(v)] && r.group is None && r.parameters is None }
@impl property::<DateAndOrTimeProperty as From<DateTime>>
open spec fn from_post(v: DateTime, r: Self) -> bool { r.value@ == seq![DateAndOrTime::DateTime(v)] && r.group is None && r.parameters is None }
@impl property::<DateAndOrTimeProperty as From<(Time,UtcOffset)>>
open spec fn from_post(v: (Time, UtcOffset), r: Self) -> bool { r.value@ == seq![DateAndOrTime::Time(v)] && r.group is None && r.parameters is None }
@impl property::<TextOrUriProperty as From<String>>
open spec fn from_post(v: String, r: Self) -> bool { r == TextOrUriProperty::Text(TextProperty { group: None, value: v, parameters: None }) }
@impl property::<TextOrUriProperty as From<Uri>>
open spec fn from_post(v: Uri, r: Self) -> bool { r == TextOrUriProperty::Uri(UriProperty { group: None, value: v, parameters: None }) }
@impl property::<DateTimeOrTextProperty as From<String>>
open spec fn from_post(v: String, r: Self) -> bool { r == DateTimeOrTextProperty::Text(TextProperty { group: None, value: v, parameters: None }) }
@impl property::<DateTimeOrTextProperty as From<Date>>
open spec fn from_post(v: Date, r: Self) -> bool { r is DateTime && DateAndOrTimeProperty::from_post(v, r->DateTime_0) }
@impl property::<DateTimeOrTextProperty as From<DateTime>>
open spec fn from_post(v: DateTime, r: Self) -> bool { r is DateTime && DateAndOrTimeProperty::from_post(v, r->DateTime_0) }
@impl property::<DateTimeOrTextProperty as From<(Time,UtcOffset)>>
open spec fn from_post(v: (Time, UtcOffset), r: Self) -> bool { r is DateTime && DateAndOrTimeProperty::from_post(v, r->DateTime_0) }
@impl property::<UtcOffsetProperty as From<UtcOffset>>
open spec fn from_post(v: UtcOffset, r: Self) -> bool { r.value == v && r.group is None && r.parameters is None }
@impl property::<TimeZoneProperty as From<String>>
open spec fn from_post(v: String, r: Self) -> bool { r == TimeZoneProperty::Text(TextProperty { group: None, value: v, parameters: None }) }
@impl property::<TimeZoneProperty as From<Uri>>
open spec fn from_post(v: Uri, r: Self) -> bool { r == TimeZoneProperty::Uri(UriProperty { group: None, value: v, parameters: None }) }
@impl property::<TimeZoneProperty as From<UtcOffset>>
open spec fn from_post(v: UtcOffset, r: Self) -> bool { r == TimeZoneProperty::UtcOffset(UtcOffsetProperty { group: None, value: v, parameters: None }) }
@impl property::<TextProperty as From<String>>
open spec fn from_post(v: String, r: Self) -> bool { r == (TextProperty { group: None, value: v, parameters: None }) }
@impl property::<UriProperty as From<Uri>>
open spec fn from_post(v: Uri, r: Self) -> bool { r == (UriProperty { group: None, value: v, parameters: None }) }
@impl property::<UriProperty as TryFrom<&str>>
open spec fn try_post(v: &str, r: core::result::Result<Self, Error>) -> bool {
    (r is Ok <==> crate::uriparse::uri_ok(v@)) && (r is Ok ==> (r->Ok_0.value).0@ == crate::uriparse::uri_norm(v@) && r->Ok_0.group is None && r->Ok_0.parameters is None)
}
@impl property::<KindProperty as From<Kind>>
open spec fn from_post(v: Kind, r: Self) -> bool { r == (KindProperty { group: None, value: v, parameters: None }) }
@impl property::<GenderProperty as From<Gender>>
open spec fn from_post(v: Gender, r: Self) -> bool { r == (GenderProperty { group: None, value: v, parameters: None }) }

@fn property::TextListProperty::new_semi_colon
ensures r.value == value, r.group is None, r.parameters is None, r.delimiter is SemiColon
@fn property::TextListProperty::new_comma
ensures r.value == value, r.group is None, r.parameters is None, r.delimiter is Comma

//# ------------------------------------------------------------------ properties: group and parameters
@impl property::Property
spec fn pgroup(&self) -> Option<String>;
spec fn pparams(&self) -> Option<Parameters>;
@fn property::Property::group
@decl
ensures r is Some <==> self.pgroup() is Some, r is Some ==> *r->0 == self.pgroup()->0
@fn property::Property::parameters
@decl
ensures r is Some <==> self.pparams() is Some, r is Some ==> *r->0 == self.pparams()->0
@impl property::<{AddressProperty, UriProperty, KindProperty, TextProperty, LanguageProperty, DateTimeProperty, DateAndOrTimeProperty, ClientPidMapProperty, GenderProperty, ExtensionProperty, TextListProperty, UtcOffsetProperty} as Property>
open spec fn pgroup(&self) -> Option<String> { self.group }
open spec fn pparams(&self) -> Option<Parameters> { self.parameters }
@impl property::<TextOrUriProperty as Property>
open spec fn pgroup(&self) -> Option<String> { match self { TextOrUriProperty::Text(v) => v.group, TextOrUriProperty::Uri(v) => v.group } }
open spec fn pparams(&self) -> Option<Parameters> { match self { TextOrUriProperty::Text(v) => v.parameters, TextOrUriProperty::Uri(v) => v.parameters } }
@impl property::<DateTimeOrTextProperty as Property>
open spec fn pgroup(&self) -> Option<String> { match self { DateTimeOrTextProperty::Text(v) => v.group, DateTimeOrTextProperty::DateTime(v) => v.group } }
open spec fn pparams(&self) -> Option<Parameters> { match self { DateTimeOrTextProperty::Text(v) => v.parameters, DateTimeOrTextProperty::DateTime(v) => v.parameters } }
@impl property::<TimeZoneProperty as Property>
open spec fn pgroup(&self) -> Option<String> { match self { TimeZoneProperty::Text(v) => v.group, TimeZoneProperty::Uri(v) => v.group, TimeZoneProperty::UtcOffset(v) => v.group } }
open spec fn pparams(&self) -> Option<Parameters> { match self { TimeZoneProperty::Text(v) => v.parameters, TimeZoneProperty::Uri(v) => v.parameters, TimeZoneProperty::UtcOffset(v) => v.parameters } }

//# ------------------------------------------------------------------ properties: printed values
@impl property::<{AddressProperty, UriProperty, KindProperty, LanguageProperty, ClientPidMapProperty, GenderProperty, ExtensionProperty} as Display>
open spec fn disp(&self) -> Seq<u8> { self.value.disp() }
@impl property::<TextProperty as Display>
open spec fn disp(&self) -> Seq<u8> { esc(self.value@, false) }
@impl property::<DateTimeProperty as Display>
open spec fn disp(&self) -> Seq<u8> { dt_t(self.value) }
@impl property::<DateAndOrTime as Display>
open spec fn disp(&self) -> Seq<u8> { match self { DateAndOrTime::Date(v) => date_t(*v), DateAndOrTime::DateTime(v) => dt_t(*v), DateAndOrTime::Time(v) => tm_t(*v) } }
@impl property::<DateAndOrTimeProperty as Display>
open spec fn disp(&self) -> Seq<u8> { join_b(dts_t(self.value@), L",") }
@impl property::<TextOrUriProperty as Display>
open spec fn disp(&self) -> Seq<u8> { match self { TextOrUriProperty::Text(v) => v.disp(), TextOrUriProperty::Uri(v) => v.disp() } }
@impl property::<DateTimeOrTextProperty as Display>
open spec fn disp(&self) -> Seq<u8> { match self { DateTimeOrTextProperty::Text(v) => v.disp(), DateTimeOrTextProperty::DateTime(v) => v.disp() } }
@impl property::<TimeZoneProperty as Display>
open spec fn disp(&self) -> Seq<u8> { match self { TimeZoneProperty::Text(v) => v.disp(), TimeZoneProperty::Uri(v) => v.disp(), TimeZoneProperty::UtcOffset(v) => v.disp() } }
@impl property::<UtcOffsetProperty as Display>
open spec fn disp(&self) -> Seq<u8> { hm_t(crate::time::off_hms(self.value)) }
@impl property::<DateAndOrTime as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { res_is(r, dt_of(s)) }
@impl property::<UtcOffsetProperty as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool {
    (r is Ok <==> off_of(s) is Some) && (r is Ok ==> r->Ok_0 == (UtcOffsetProperty { group: None, value: off_of(s)->0, parameters: None }))
}
@impl property::<DeliveryAddress as Display>
open spec fn disp(&self) -> Seq<u8> {
    esc_o(self.po_box) + (L";" + (esc_o(self.extended_address) + (L";" + (esc_o(self.street_address) + (L";" + (esc_o(self.locality) + (L";" + (esc_o(self.region) + (L";" + (esc_o(self.postal_code) + (L";" + esc_o(self.country_name))))))))))))
}
@impl property::<DeliveryAddress as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool {
    let c = split_dec(s, 59, 7);
    (r is Ok <==> c.len() == 7) && (r is Ok ==> {
        let a = r->Ok_0;
        opt_is(a.po_box, c[0]) && opt_is(a.extended_address, c[1]) && opt_is(a.street_address, c[2]) && opt_is(a.locality, c[3])
        && opt_is(a.region, c[4]) && opt_is(a.postal_code, c[5]) && opt_is(a.country_name, c[6])
    })
}
@fn property::<DeliveryAddress as FromStr>::from_str
@ghost start
proof { lemma_split_max(s@, 59, 7); }
@ghost let it 0 after
let ghost all = it@;
proof { assert(forall|i: int| 0 <= i < all.len() ==> sviews(all)[i] == (#[trigger] all[i])@); }
@impl property::<ClientPidMap as Display>
open spec fn disp(&self) -> Seq<u8> { int_text(self.source as int) + (L";" + self.uri.disp()) }
@impl property::<ClientPidMap as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool {
    let k = index_b(s, 59);
    let n = int_parse(s.take(k));
    (r is Ok <==> k < s.len() && n is Some && 0 < n->0 <= u64::MAX && crate::uriparse::uri_ok(s.skip(k + 1)))
    && (r is Ok ==> r->Ok_0.source == n->0 && (r->Ok_0.uri).0@ == crate::uriparse::uri_norm(s.skip(k + 1)))
}
@impl property::<Gender as Display>
open spec fn disp(&self) -> Seq<u8> { match self.identity { Some(i) => self.sex.disp() + (L";" + esc(i@, true)), None => self.sex.disp() } }
@impl property::<Gender as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool {
    let k = index_b(s, 59);
    let sx = if k < s.len() { s.take(k) } else { s };
    &&& r is Ok ==> r->Ok_0.sex.disp() == sx && (k < s.len() ==> r->Ok_0.identity is Some && r->Ok_0.identity->0@ == s.skip(k + 1)) && (k >= s.len() ==> r->Ok_0.identity is None)
    &&& (exists|x: Sex| #[trigger] x.disp() == sx) ==> r is Ok
}
@fn property::<Gender as FromStr>::from_str
@ghost start
proof { assert(s@.len() == 0 ==> s@ =~= Seq::<u8>::empty()); }
@impl property::<AnyProperty as Display>
open spec fn disp(&self) -> Seq<u8> {
    match self {
        AnyProperty::Text(v) => esc(v@, false),
        AnyProperty::Integer(v) => join_b(disps(v@), L","),
        AnyProperty::Float(v) => join_b(disps(v@), L","),
        AnyProperty::Boolean(v) => v.disp(),
        AnyProperty::Date(v) => join_b(dates_t(v@), L","),
        AnyProperty::DateTime(v) => join_b(dtimes_t(v@), L","),
        AnyProperty::Time(v) => join_b(times_t(v@), L","),
        AnyProperty::DateAndOrTime(v) => join_b(dts_t(v@), L","),
        AnyProperty::Timestamp(v) => join_b(dtimes_t(v@), L","),
        AnyProperty::UtcOffset(v) => off_t(*v),
        AnyProperty::Uri(v) => v.disp(),
        AnyProperty::Language(v) => v@,
    }
}
@impl property::<TextListProperty as Display>
open spec fn disp(&self) -> Seq<u8> {
    let semi = self.delimiter is SemiColon;
    join_b(escs(self.value@, semi), if semi { L";" } else { L"," })
}
@fn property::<TextListProperty as Display>::fmt
@loop 0
invariant __s_0@ == self.value@, f@ == old(f)@ + join_part(escs(self.value@, self.delimiter is SemiColon), if self.delimiter is SemiColon { L";" } else { L"," }, __i_0 as int)
@ghost loop 0 start
proof { lemma_join_part(escs(self.value@, self.delimiter is SemiColon), if self.delimiter is SemiColon { L";" } else { L"," }, __i_0 - 1); }
@ghost loop 0 after
proof { lemma_join_end(escs(self.value@, self.delimiter is SemiColon), if self.delimiter is SemiColon { L";" } else { L"," }); }
