//# ------------------------------------------------------------------ builder
@fn vcard::Vcard::new
ensures r.formatted_name@ == seq![crate::property::TextProperty { group: None, value: formatted_name, parameters: None }], crate::spec::vcard_empty_but_fn(r)
@fn builder::VcardBuilder::new
ensures r.card.formatted_name@ == seq![crate::property::TextProperty { group: None, value: formatted_name, parameters: None }], crate::spec::vcard_empty_but_fn(r.card)
@fn builder::VcardBuilder::finish
ensures r == self.card
@fn builder::VcardBuilder::source
ensures r.card == (Vcard { source: r.card.source, ..self.card }), r.card.source@.drop_last() == self.card.source@, r.card.source@.len() == self.card.source@.len() + 1, crate::property::UriProperty::from_post(value, r.card.source@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.source@.drop_last() =~= c0.source@);
@fn builder::VcardBuilder::xml
ensures r.card == (Vcard { xml: r.card.xml, ..self.card }), r.card.xml@.drop_last() == self.card.xml@, r.card.xml@.len() == self.card.xml@.len() + 1, crate::property::TextProperty::from_post(value, r.card.xml@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.xml@.drop_last() =~= c0.xml@);
@fn builder::VcardBuilder::formatted_name
ensures r.card == (Vcard { formatted_name: r.card.formatted_name, ..self.card }), r.card.formatted_name@.drop_last() == self.card.formatted_name@, r.card.formatted_name@.len() == self.card.formatted_name@.len() + 1, crate::property::TextProperty::from_post(value, r.card.formatted_name@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.formatted_name@.drop_last() =~= c0.formatted_name@);
@fn builder::VcardBuilder::nickname
ensures r.card == (Vcard { nickname: r.card.nickname, ..self.card }), r.card.nickname@.drop_last() == self.card.nickname@, r.card.nickname@.len() == self.card.nickname@.len() + 1, crate::property::TextProperty::from_post(value, r.card.nickname@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.nickname@.drop_last() =~= c0.nickname@);
@fn builder::VcardBuilder::photo
ensures r.card == (Vcard { photo: r.card.photo, ..self.card }), r.card.photo@.drop_last() == self.card.photo@, r.card.photo@.len() == self.card.photo@.len() + 1, crate::property::TextOrUriProperty::from_post(value, r.card.photo@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.photo@.drop_last() =~= c0.photo@);
@fn builder::VcardBuilder::address
ensures r.card == (Vcard { address: r.card.address, ..self.card }), r.card.address@.drop_last() == self.card.address@, r.card.address@.len() == self.card.address@.len() + 1, crate::property::AddressProperty::from_post(value, r.card.address@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.address@.drop_last() =~= c0.address@);
@fn builder::VcardBuilder::telephone
ensures r.card == (Vcard { tel: r.card.tel, ..self.card }), r.card.tel@.drop_last() == self.card.tel@, r.card.tel@.len() == self.card.tel@.len() + 1, crate::property::TextOrUriProperty::from_post(value, r.card.tel@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.tel@.drop_last() =~= c0.tel@);
@fn builder::VcardBuilder::email
ensures r.card == (Vcard { email: r.card.email, ..self.card }), r.card.email@.drop_last() == self.card.email@, r.card.email@.len() == self.card.email@.len() + 1, crate::property::TextProperty::from_post(value, r.card.email@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.email@.drop_last() =~= c0.email@);
@fn builder::VcardBuilder::impp
ensures r.card == (Vcard { impp: r.card.impp, ..self.card }), r.card.impp@.drop_last() == self.card.impp@, r.card.impp@.len() == self.card.impp@.len() + 1, crate::property::UriProperty::from_post(value, r.card.impp@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.impp@.drop_last() =~= c0.impp@);
@fn builder::VcardBuilder::lang
ensures r.card == (Vcard { lang: r.card.lang, ..self.card }), r.card.lang@.drop_last() == self.card.lang@, r.card.lang@.len() == self.card.lang@.len() + 1, crate::property::LanguageProperty::from_post(value, r.card.lang@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.lang@.drop_last() =~= c0.lang@);
@fn builder::VcardBuilder::timezone
ensures r.card == (Vcard { timezone: r.card.timezone, ..self.card }), r.card.timezone@.drop_last() == self.card.timezone@, r.card.timezone@.len() == self.card.timezone@.len() + 1, crate::property::TimeZoneProperty::from_post(value, r.card.timezone@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.timezone@.drop_last() =~= c0.timezone@);
@fn builder::VcardBuilder::geo
ensures r.card == (Vcard { geo: r.card.geo, ..self.card }), r.card.geo@.drop_last() == self.card.geo@, r.card.geo@.len() == self.card.geo@.len() + 1, crate::property::UriProperty::from_post(value, r.card.geo@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.geo@.drop_last() =~= c0.geo@);
@fn builder::VcardBuilder::title
ensures r.card == (Vcard { title: r.card.title, ..self.card }), r.card.title@.drop_last() == self.card.title@, r.card.title@.len() == self.card.title@.len() + 1, crate::property::TextProperty::from_post(value, r.card.title@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.title@.drop_last() =~= c0.title@);
@fn builder::VcardBuilder::role
ensures r.card == (Vcard { role: r.card.role, ..self.card }), r.card.role@.drop_last() == self.card.role@, r.card.role@.len() == self.card.role@.len() + 1, crate::property::TextProperty::from_post(value, r.card.role@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.role@.drop_last() =~= c0.role@);
@fn builder::VcardBuilder::logo
ensures r.card == (Vcard { logo: r.card.logo, ..self.card }), r.card.logo@.drop_last() == self.card.logo@, r.card.logo@.len() == self.card.logo@.len() + 1, crate::property::UriProperty::from_post(value, r.card.logo@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.logo@.drop_last() =~= c0.logo@);
@fn builder::VcardBuilder::member
ensures r.card == (Vcard { member: r.card.member, ..self.card }), r.card.member@.drop_last() == self.card.member@, r.card.member@.len() == self.card.member@.len() + 1, crate::property::UriProperty::from_post(value, r.card.member@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.member@.drop_last() =~= c0.member@);
@fn builder::VcardBuilder::related
ensures r.card == (Vcard { related: r.card.related, ..self.card }), r.card.related@.drop_last() == self.card.related@, r.card.related@.len() == self.card.related@.len() + 1, crate::property::TextOrUriProperty::from_post(value, r.card.related@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.related@.drop_last() =~= c0.related@);
@fn builder::VcardBuilder::note
ensures r.card == (Vcard { note: r.card.note, ..self.card }), r.card.note@.drop_last() == self.card.note@, r.card.note@.len() == self.card.note@.len() + 1, crate::property::TextProperty::from_post(value, r.card.note@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.note@.drop_last() =~= c0.note@);
@fn builder::VcardBuilder::sound
ensures r.card == (Vcard { sound: r.card.sound, ..self.card }), r.card.sound@.drop_last() == self.card.sound@, r.card.sound@.len() == self.card.sound@.len() + 1, crate::property::UriProperty::from_post(value, r.card.sound@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.sound@.drop_last() =~= c0.sound@);
@fn builder::VcardBuilder::url
ensures r.card == (Vcard { url: r.card.url, ..self.card }), r.card.url@.drop_last() == self.card.url@, r.card.url@.len() == self.card.url@.len() + 1, crate::property::UriProperty::from_post(value, r.card.url@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.url@.drop_last() =~= c0.url@);
@fn builder::VcardBuilder::key
ensures r.card == (Vcard { key: r.card.key, ..self.card }), r.card.key@.drop_last() == self.card.key@, r.card.key@.len() == self.card.key@.len() + 1, crate::property::TextOrUriProperty::from_post(value, r.card.key@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.key@.drop_last() =~= c0.key@);
@fn builder::VcardBuilder::fburl
ensures r.card == (Vcard { fburl: r.card.fburl, ..self.card }), r.card.fburl@.drop_last() == self.card.fburl@, r.card.fburl@.len() == self.card.fburl@.len() + 1, crate::property::UriProperty::from_post(value, r.card.fburl@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.fburl@.drop_last() =~= c0.fburl@);
@fn builder::VcardBuilder::cal_adr_uri
ensures r.card == (Vcard { cal_adr_uri: r.card.cal_adr_uri, ..self.card }), r.card.cal_adr_uri@.drop_last() == self.card.cal_adr_uri@, r.card.cal_adr_uri@.len() == self.card.cal_adr_uri@.len() + 1, crate::property::UriProperty::from_post(value, r.card.cal_adr_uri@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.cal_adr_uri@.drop_last() =~= c0.cal_adr_uri@);
@fn builder::VcardBuilder::cal_uri
ensures r.card == (Vcard { cal_uri: r.card.cal_uri, ..self.card }), r.card.cal_uri@.drop_last() == self.card.cal_uri@, r.card.cal_uri@.len() == self.card.cal_uri@.len() + 1, crate::property::UriProperty::from_post(value, r.card.cal_uri@.last())
@ghost start
let ghost c0 = self.card;
@ghost call push 0 after
assert(__self.card.cal_uri@.drop_last() =~= c0.cal_uri@);
@fn builder::VcardBuilder::kind
ensures r.card == (Vcard { kind: r.card.kind, ..self.card }), r.card.kind is Some, crate::property::KindProperty::from_post(value, r.card.kind->0)
@fn builder::VcardBuilder::birthday
ensures r.card == (Vcard { bday: r.card.bday, ..self.card }), r.card.bday is Some, crate::property::DateTimeOrTextProperty::from_post(value, r.card.bday->0)
@fn builder::VcardBuilder::anniversary
ensures r.card == (Vcard { anniversary: r.card.anniversary, ..self.card }), r.card.anniversary is Some, crate::property::DateTimeOrTextProperty::from_post(value, r.card.anniversary->0)
@fn builder::VcardBuilder::prod_id
ensures r.card == (Vcard { prod_id: r.card.prod_id, ..self.card }), r.card.prod_id is Some, crate::property::TextProperty::from_post(value, r.card.prod_id->0)
@fn builder::VcardBuilder::rev
ensures r.card == (Vcard { rev: r.card.rev, ..self.card }), r.card.rev is Some, crate::property::DateTimeProperty::from_post(value, r.card.rev->0)
@fn builder::VcardBuilder::uid
ensures r.card == (Vcard { uid: r.card.uid, ..self.card }), r.card.uid is Some, crate::property::TextOrUriProperty::from_post(value, r.card.uid->0)
@fn builder::VcardBuilder::gender
ensures r.card == (Vcard { gender: r.card.gender, ..self.card }), (r.card.gender == self.card.gender && crate::spec::gender_bad(value@)) || (r.card.gender is Some && r.card.gender->0.group is None && r.card.gender->0.parameters is None && crate::spec::gender_is(value@, r.card.gender->0.value))
@fn builder::VcardBuilder::name
ensures r.card == (Vcard { name: r.card.name, ..self.card }), r.card.name is Some, r.card.name->0.value@ =~= value@, r.card.name->0.group is None, r.card.name->0.parameters is None, r.card.name->0.delimiter is SemiColon
@fn builder::VcardBuilder::org
ensures r.card == (Vcard { org: r.card.org, ..self.card }), r.card.org@ == self.card.org@.push(crate::property::TextListProperty { value: value, group: None, parameters: None, delimiter: crate::property::TextListDelimiter::SemiColon })
@fn builder::VcardBuilder::categories
ensures r.card == (Vcard { categories: r.card.categories, ..self.card }), r.card.categories@ == self.card.categories@.push(crate::property::TextListProperty { value: value, group: None, parameters: None, delimiter: crate::property::TextListDelimiter::Comma })
