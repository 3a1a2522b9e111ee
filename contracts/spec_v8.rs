/// C08: enumerated values are printed and read back
pub mod spec_j {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_v::*;
use crate::spec_y::{fit_type, lemma_type_text, lemma_tel_text, lemma_rel_text, small, lemma_small, lemma_clear, item};
use crate::sh::{lower, str, String, ToString, fmt::Display, str_::FromStr};
use crate::property::*;
use crate::parameter::*;

/// different values, different words
pub proof fn lemma_kind_differ(a: Kind, b: Kind)
    requires a.disp() == b.disp()
    ensures a == b
{ crate::lits::ax_codes(); }
pub fn kind_back(v: Kind) {
    let s = v.vx_to_string();
    let r = Kind::from_str(s.as_str());
    proof {  lemma_kind_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// and no other word is read
pub fn kind_other(s: &str)
    requires forall|v: Kind| (#[trigger] v.disp()) != s@
{
    let r = Kind::from_str(s);
    proof { if r is Ok { assert((r->Ok_0).disp() == s@); } }
    assert(r is Err);
}
/// different values, different words
pub proof fn lemma_sex_differ(a: Sex, b: Sex)
    requires a.disp() == b.disp()
    ensures a == b
{ crate::lits::ax_codes(); }
pub fn sex_back(v: Sex) {
    let s = v.vx_to_string();
    let r = Sex::from_str(s.as_str());
    proof {  lemma_sex_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// and no other word is read
pub fn sex_other(s: &str)
    requires forall|v: Sex| (#[trigger] v.disp()) != s@
{
    let r = Sex::from_str(s);
    proof { if r is Ok { assert((r->Ok_0).disp() == s@); } }
    assert(r is Err);
}
/// different values, different words
pub proof fn lemma_telephonetype_differ(a: TelephoneType, b: TelephoneType)
    requires a.disp() == b.disp()
    ensures a == b
{ crate::lits::ax_codes(); }
pub proof fn lemma_telephonetype_lower(v: TelephoneType)
    ensures lower(v.disp()) == v.disp()
{
    let s = v.disp();
    R"text"; R"voice"; R"fax"; R"cell"; R"video"; R"pager"; R"textphone";
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 && !(65 <= s[i] && s[i] <= 90) by { }
    crate::sh::ax_lower_ascii(s);
    assert(lower(s) =~= s);
}
pub fn telephonetype_back(v: TelephoneType) {
    let s = v.vx_to_string();
    let r = TelephoneType::from_str(s.as_str());
    proof { lemma_telephonetype_lower(v); lemma_telephonetype_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// in any letter case
pub fn telephonetype_case(v: TelephoneType, s: &str)
    requires lower(s@) == v.disp()
{
    let r = TelephoneType::from_str(s);
    proof { lemma_telephonetype_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// and no other word is read
pub fn telephonetype_other(s: &str)
    requires forall|v: TelephoneType| (#[trigger] v.disp()) != lower(s@)
{
    let r = TelephoneType::from_str(s);
    proof { if r is Ok { assert((r->Ok_0).disp() == lower(s@)); } }
    assert(r is Err);
}
/// different values, different words
pub proof fn lemma_relatedtype_differ(a: RelatedType, b: RelatedType)
    requires a.disp() == b.disp()
    ensures a == b
{ crate::lits::ax_codes(); }
pub proof fn lemma_relatedtype_lower(v: RelatedType)
    ensures lower(v.disp()) == v.disp()
{
    let s = v.disp();
    R"contact"; R"acquaintance"; R"friend"; R"met"; R"co-worker"; R"colleague"; R"co-resident"; R"neighbor"; R"child"; R"parent"; R"sibling"; R"spouse"; R"kin"; R"muse"; R"crush"; R"date"; R"sweetheart"; R"agent"; R"emergency";
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 && !(65 <= s[i] && s[i] <= 90) by { }
    crate::sh::ax_lower_ascii(s);
    assert(lower(s) =~= s);
}
pub fn relatedtype_back(v: RelatedType) {
    let s = v.vx_to_string();
    let r = RelatedType::from_str(s.as_str());
    proof { lemma_relatedtype_lower(v); lemma_relatedtype_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// in any letter case
pub fn relatedtype_case(v: RelatedType, s: &str)
    requires lower(s@) == v.disp()
{
    let r = RelatedType::from_str(s);
    proof { lemma_relatedtype_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// and no other word is read
pub fn relatedtype_other(s: &str)
    requires forall|v: RelatedType| (#[trigger] v.disp()) != lower(s@)
{
    let r = RelatedType::from_str(s);
    proof { if r is Ok { assert((r->Ok_0).disp() == lower(s@)); } }
    assert(r is Err);
}
/// different values, different words
pub proof fn lemma_valuetype_differ(a: ValueType, b: ValueType)
    requires a.disp() == b.disp()
    ensures a == b
{ crate::lits::ax_codes(); }
pub proof fn lemma_valuetype_lower(v: ValueType)
    ensures lower(v.disp()) == v.disp()
{
    let s = v.disp();
    R"text"; R"uri"; R"date"; R"time"; R"date-time"; R"date-and-or-time"; R"timestamp"; R"boolean"; R"integer"; R"float"; R"utc-offset"; R"language-tag";
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 && !(65 <= s[i] && s[i] <= 90) by { }
    crate::sh::ax_lower_ascii(s);
    assert(lower(s) =~= s);
}
pub fn valuetype_back(v: ValueType) {
    let s = v.vx_to_string();
    let r = ValueType::from_str(s.as_str());
    proof { lemma_valuetype_lower(v); lemma_valuetype_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// in any letter case
pub fn valuetype_case(v: ValueType, s: &str)
    requires lower(s@) == v.disp()
{
    let r = ValueType::from_str(s);
    proof { lemma_valuetype_differ(r->Ok_0, v); }
    assert(r is Ok && r->Ok_0 == v);
}
/// and no other word is read
pub fn valuetype_other(s: &str)
    requires forall|v: ValueType| (#[trigger] v.disp()) != lower(s@)
{
    let r = ValueType::from_str(s);
    proof { if r is Ok { assert((r->Ok_0).disp() == lower(s@)); } }
    assert(r is Err);
}
pub fn type_back(v: &TypeParameter)
    requires fit_type(*v)
{
    let s = v.vx_to_string();
    let r = TypeParameter::from_str(s.as_str());
    proof { lemma_type_text(*v); crate::spec_g::ax_type(s@, r); }
    assert(r is Ok && r->Ok_0 == *v);
}
/// home and work in any letter case
pub fn type_case(s: &str)
    requires lower(s@) == L"home" || lower(s@) == L"work"
{
    let r = TypeParameter::from_str(s);
    proof { crate::lits::ax_codes(); R"home"; R"work"; }
    assert(r is Ok && (r->Ok_0 is Home || r->Ok_0 is Work) && (r->Ok_0 is Home <==> lower(s@) == L"home"));
}
/// an unknown word is an extension that carries the word
pub fn type_other(s: &str)
    requires lower(s@) != L"home", lower(s@) != L"work", !xdash(s@), forall|x: TelephoneType| (#[trigger] x.disp()) != lower(s@), forall|x: RelatedType| (#[trigger] x.disp()) != lower(s@)
{
    let r = TypeParameter::from_str(s);
    assert(r is Ok && r->Ok_0 is Extension && (r->Ok_0)->Extension_0@ == s@);
}
}
