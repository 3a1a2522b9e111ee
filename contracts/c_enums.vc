//# generated once by hand from the tables of RFC 6350; the text of an enumerated value
@impl property::<Kind as Display>
open spec fn disp(&self) -> Seq<u8> { match self { Kind::Individual => L"individual", Kind::Group => L"group", Kind::Org => L"org", Kind::Location => L"location" } }
@impl property::<Kind as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { (r is Ok ==> r->Ok_0.disp() == s) && (forall|v: Kind| (#[trigger] v.disp()) == s ==> r is Ok) }
@fn property::<Kind as FromStr>::from_str
@ghost start
proof { crate::lits::ax_codes(); }
@impl property::<Sex as Display>
open spec fn disp(&self) -> Seq<u8> { match self { Sex::None => L"", Sex::Male => L"M", Sex::Female => L"F", Sex::Other => L"O", Sex::NotApplicable => L"N", Sex::Unknown => L"U" } }
@impl property::<Sex as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { (r is Ok ==> r->Ok_0.disp() == s) && (forall|v: Sex| (#[trigger] v.disp()) == s ==> r is Ok) }
@fn property::<Sex as FromStr>::from_str
@ghost start
proof { crate::lits::ax_codes(); }
@impl parameter::<RelatedType as Display>
open spec fn disp(&self) -> Seq<u8> { match self { RelatedType::Contact => L"contact", RelatedType::Acquaintance => L"acquaintance", RelatedType::Friend => L"friend", RelatedType::Met => L"met", RelatedType::CoWorker => L"co-worker", RelatedType::Colleague => L"colleague", RelatedType::CoResident => L"co-resident", RelatedType::Neighbor => L"neighbor", RelatedType::Child => L"child", RelatedType::Parent => L"parent", RelatedType::Sibling => L"sibling", RelatedType::Spouse => L"spouse", RelatedType::Kin => L"kin", RelatedType::Muse => L"muse", RelatedType::Crush => L"crush", RelatedType::Date => L"date", RelatedType::Sweetheart => L"sweetheart", RelatedType::Me => L"me", RelatedType::Agent => L"agent", RelatedType::Emergency => L"emergency" } }
@impl parameter::<RelatedType as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { (r is Ok ==> r->Ok_0.disp() == lower(s)) && (forall|v: RelatedType| (#[trigger] v.disp()) == lower(s) ==> r is Ok) }
@fn parameter::<RelatedType as FromStr>::from_str
@ghost start
proof { crate::lits::ax_codes(); }
@impl parameter::<TelephoneType as Display>
open spec fn disp(&self) -> Seq<u8> { match self { TelephoneType::Text => L"text", TelephoneType::Voice => L"voice", TelephoneType::Fax => L"fax", TelephoneType::Cell => L"cell", TelephoneType::Video => L"video", TelephoneType::Pager => L"pager", TelephoneType::TextPhone => L"textphone" } }
@impl parameter::<TelephoneType as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { (r is Ok ==> r->Ok_0.disp() == lower(s)) && (forall|v: TelephoneType| (#[trigger] v.disp()) == lower(s) ==> r is Ok) }
@fn parameter::<TelephoneType as FromStr>::from_str
@ghost start
proof { crate::lits::ax_codes(); }
@impl parameter::<ValueType as Display>
open spec fn disp(&self) -> Seq<u8> { match self { ValueType::Text => L"text", ValueType::Uri => L"uri", ValueType::Date => L"date", ValueType::Time => L"time", ValueType::DateTime => L"date-time", ValueType::DateAndOrTime => L"date-and-or-time", ValueType::Timestamp => L"timestamp", ValueType::Boolean => L"boolean", ValueType::Integer => L"integer", ValueType::Float => L"float", ValueType::UtcOffset => L"utc-offset", ValueType::LanguageTag => L"language-tag" } }
@impl parameter::<ValueType as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { (r is Ok ==> r->Ok_0.disp() == lower(s)) && (forall|v: ValueType| (#[trigger] v.disp()) == lower(s) ==> r is Ok) }
@fn parameter::<ValueType as FromStr>::from_str
@ghost start
proof { crate::lits::ax_codes(); }
@impl parameter::<TypeParameter as Display>
open spec fn disp(&self) -> Seq<u8> { match self { TypeParameter::Home => L"home", TypeParameter::Work => L"work", TypeParameter::Telephone(t) => t.disp(), TypeParameter::Related(t) => t.disp(), TypeParameter::Extension(x) => L"X-" + x@ } }
@impl parameter::<TypeParameter as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { r is Ok && type_is(s, r->Ok_0) }
@fn parameter::<TypeParameter as FromStr>::from_str
@ghost start
proof { crate::lits::ax_codes(); lemma_xdash(s@); }
@impl parameter::<Pid as Display>
open spec fn disp(&self) -> Seq<u8> { match self.source { Some(x) => int_text(self.local as int) + (L"." + int_text(x as int)), None => int_text(self.local as int) } }
@impl parameter::<Pid as FromStr>
open spec fn post(s: Seq<u8>, r: core::result::Result<Self, Error>) -> bool { res_is(r, pid_of(s)) }
@fn parameter::Pid::new
ensures r.local == local, r.source == source
