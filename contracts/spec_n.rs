/// the names of RFC 6350 and what the lexer has to make of them
pub mod spec_names {
use ::vstd::prelude::*;
//@lex
/// property names (VERSION, TZ and GEO have tokens of their own)
pub open spec fn names() -> Seq<Seq<u8>> { seq![
    seq![83u8,79,85,82,67,69] /* SOURCE */,
    seq![75u8,73,78,68] /* KIND */,
    seq![70u8,78] /* FN */,
    seq![78u8] /* N */,
    seq![78u8,73,67,75,78,65,77,69] /* NICKNAME */,
    seq![80u8,72,79,84,79] /* PHOTO */,
    seq![66u8,68,65,89] /* BDAY */,
    seq![65u8,78,78,73,86,69,82,83,65,82,89] /* ANNIVERSARY */,
    seq![71u8,69,78,68,69,82] /* GENDER */,
    seq![65u8,68,82] /* ADR */,
    seq![84u8,69,76] /* TEL */,
    seq![69u8,77,65,73,76] /* EMAIL */,
    seq![73u8,77,80,80] /* IMPP */,
    seq![76u8,65,78,71] /* LANG */,
    seq![84u8,73,84,76,69] /* TITLE */,
    seq![82u8,79,76,69] /* ROLE */,
    seq![76u8,79,71,79] /* LOGO */,
    seq![79u8,82,71] /* ORG */,
    seq![77u8,69,77,66,69,82] /* MEMBER */,
    seq![82u8,69,76,65,84,69,68] /* RELATED */,
    seq![67u8,65,84,69,71,79,82,73,69,83] /* CATEGORIES */,
    seq![78u8,79,84,69] /* NOTE */,
    seq![80u8,82,79,68,73,68] /* PRODID */,
    seq![82u8,69,86] /* REV */,
    seq![83u8,79,85,78,68] /* SOUND */,
    seq![85u8,73,68] /* UID */,
    seq![67u8,76,73,69,78,84,80,73,68,77,65,80] /* CLIENTPIDMAP */,
    seq![85u8,82,76] /* URL */,
    seq![75u8,69,89] /* KEY */,
    seq![70u8,66,85,82,76] /* FBURL */,
    seq![67u8,65,76,65,68,82,85,82,73] /* CALADRURI */,
    seq![67u8,65,76,85,82,73] /* CALURI */,
    seq![88u8,77,76] /* XML */
] }
/// parameter names (TZ and GEO have tokens of their own)
pub open spec fn keys() -> Seq<Seq<u8>> { seq![
    seq![76u8,65,78,71,85,65,71,69] /* LANGUAGE */,
    seq![86u8,65,76,85,69] /* VALUE */,
    seq![80u8,82,69,70] /* PREF */,
    seq![65u8,76,84,73,68] /* ALTID */,
    seq![80u8,73,68] /* PID */,
    seq![84u8,89,80,69] /* TYPE */,
    seq![77u8,69,68,73,65,84,89,80,69] /* MEDIATYPE */,
    seq![67u8,65,76,83,67,65,76,69] /* CALSCALE */,
    seq![83u8,79,82,84,45,65,83] /* SORT-AS */,
    seq![67u8,72,65,82,83,69,84] /* CHARSET */,
    seq![76u8,65,66,69,76] /* LABEL */,
    seq![69u8,78,67,79,68,73,78,71] /* ENCODING */
] }
pub open spec fn begin_s() -> Seq<u8> { seq![66u8,69,71,73,78,58,86,67,65,82,68] }
pub open spec fn end_s() -> Seq<u8> { seq![69u8,78,68,58,86,67,65,82,68] }
pub open spec fn version_s(b: u8) -> Seq<u8> { seq![86u8,69,82,83,73,79,78,58].push(b).push(46u8).push(48u8) }
pub open spec fn tz_s() -> Seq<u8> { seq![84u8,90] }
pub open spec fn geo_s() -> Seq<u8> { seq![71u8,69,79] }
pub open spec fn up1(b: u8) -> u8 { if 97 <= b && b <= 122 { (b - 32) as u8 } else { b } }
/// the text at `p` is `n` in some letter case
pub open spec fn same(s: Seq<u8>, p: int, n: Seq<u8>) -> bool { 0 <= p && p + n.len() <= s.len() && forall|i: int| #![trigger n[i]] 0 <= i < n.len() ==> up1(s[p + i]) == n[i] }
/// a letter, a digit or a hyphen
pub open spec fn gb(b: u8) -> bool { b == 45 || (48 <= b && b <= 57) || (65 <= b && b <= 90) || (97 <= b && b <= 122) }
pub open spec fn gbs(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> gb(#[trigger] s[i]) }
/// a group: `p..d`, then a period
pub open spec fn grp(s: Seq<u8>, p: int, d: int) -> bool { 0 <= p < d && d < s.len() && s[d] == 46 && gbs(s, p, d) }
/// the byte after a property name
pub open spec fn pstop(s: Seq<u8>, e: int) -> bool { 0 <= e < s.len() && (s[e] == 58 || s[e] == 59) }
pub open spec fn xstop(s: Seq<u8>, e: int) -> bool { 0 <= e < s.len() && (s[e] == 58 || s[e] == 59 || s[e] == 61) }
pub open spec fn lstop(s: Seq<u8>, e: int) -> bool { 0 <= e < s.len() && (s[e] == 10 || s[e] == 13) }
//@end
}
