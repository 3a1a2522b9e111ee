// ---------------------------------------------------------------- content lines, folding and cards
pub mod spec_b {
use ::vstd::prelude::*;
pub use crate::spec_c::*;
use crate::spec::*;
use crate::sh::{fmt, fmt::Display, String};
use crate::property::*;
use crate::parameter::*;
use crate::Vcard;
pub use crate::unicode_segmentation::{graphemes, cat, ax_graphemes};
broadcast use crate::sh::group_sh;

/// the physical lines a logical line is folded into, after its first `i` user-perceived characters
pub open spec fn fold_ps(gs: Seq<Seq<u8>>, w: int, i: int) -> Seq<Seq<u8>> decreases i {
    if i <= 0 { seq![Seq::<u8>::empty()] }
    else {
        let p = fold_ps(gs, w, i - 1);
        if p.last().len() + gs[i - 1].len() > w { p.push(L" " + gs[i - 1]) } else { p.drop_last().push(p.last() + gs[i - 1]) }
    }
}
/// physical lines joined by CRLF
pub open spec fn crlf_join(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { crlf_join(p.drop_last()) + L"\r\n" + p.last() }
}
pub open spec fn fold_t(s: Seq<u8>, w: int) -> Seq<u8> { crlf_join(fold_ps(graphemes(s), w, graphemes(s).len() as int)) }
/// one step of the folding loop
pub proof fn lemma_fold_step(gs: Seq<Seq<u8>>, w: int, i: int)
    requires 0 <= i < gs.len()
    ensures fold_ps(gs, w, i).len() > 0, fold_ps(gs, w, i + 1).len() > 0,
        fold_ps(gs, w, i).last().len() + gs[i].len() > w ==> crlf_join(fold_ps(gs, w, i + 1)) == crlf_join(fold_ps(gs, w, i)) + L"\r\n " + gs[i] && fold_ps(gs, w, i + 1).last().len() == 1 + gs[i].len(),
        fold_ps(gs, w, i).last().len() + gs[i].len() <= w ==> crlf_join(fold_ps(gs, w, i + 1)) == crlf_join(fold_ps(gs, w, i)) + gs[i] && fold_ps(gs, w, i + 1).last().len() == fold_ps(gs, w, i).last().len() + gs[i].len(),
    decreases i
{
    if i > 0 { lemma_fold_step(gs, w, i - 1); }
    let p = fold_ps(gs, w, i);
    R"\r\n "; R"\r\n"; R" ";
    if p.last().len() + gs[i].len() > w {
        let q = p.push(L" " + gs[i]);
        assert(q.drop_last() =~= p);
        assert(L"\r\n " =~= L"\r\n" + L" ");
    } else {
        let q = p.drop_last().push(p.last() + gs[i]);
        assert(q.drop_last() =~= p.drop_last());
        if p.len() == 1 { assert(crlf_join(q) == q[0]); }
    }
}
/// no physical line is longer than `w` bytes, unless a single user-perceived character is
pub proof fn lemma_fold_width(gs: Seq<Seq<u8>>, w: int, i: int)
    requires 0 <= i <= gs.len(), w >= 0
    ensures forall|k: int| 0 <= k < fold_ps(gs, w, i).len() ==> (#[trigger] fold_ps(gs, w, i)[k]).len() <= w || exists|j: int| 0 <= j < gs.len() && fold_ps(gs, w, i)[k] == L" " + #[trigger] gs[j]
    decreases i
{
    if i > 0 {
        lemma_fold_width(gs, w, i - 1);
        let p = fold_ps(gs, w, i - 1);
        lemma_fold_step(gs, w, i - 1);
        if i > 1 { lemma_fold_step(gs, w, i - 2); }
        assert forall|k: int| 0 <= k < fold_ps(gs, w, i).len() implies (#[trigger] fold_ps(gs, w, i)[k]).len() <= w || exists|j: int| 0 <= j < gs.len() && fold_ps(gs, w, i)[k] == L" " + #[trigger] gs[j] by {
            if k < p.len() - 1 { assert(fold_ps(gs, w, i)[k] == p[k]); }
            else if k < p.len() && p.last().len() + gs[i - 1].len() > w { assert(fold_ps(gs, w, i)[k] == p[k]); }
            else if p.last().len() + gs[i - 1].len() > w { assert(fold_ps(gs, w, i)[k] == L" " + gs[i - 1]); }
        }
    }
}

/// a line break followed by a blank is removed, together with that blank
pub open spec fn unf(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    let p = index_b(s, 10);
    if p < 0 || p >= s.len() { s }
    else if p + 1 < s.len() && blank(s[p + 1]) { strip_cr(s.take(p)) + unf(s.skip(p + 2)) }
    else { s.take(p + 1) + unf(s.skip(p + 1)) }
}
pub open spec fn blank(b: u8) -> bool { b == 32 || b == 9 }
pub open spec fn strip_cr(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s.last() == 13 { s.drop_last() } else { s } }
pub open spec fn no_nl(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 10 }
pub proof fn lemma_no_nl(s: Seq<u8>) ensures no_nl(s) <==> index_b(s, 10) == s.len(), no_nl(s) ==> unf(s) == s { }
/// text without a folded line is unchanged
pub proof fn lemma_unf_id(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() - 1 && s[i] == 10 ==> !blank(#[trigger] s[i + 1])
    ensures unf(s) == s
    decreases s.len()
{
    let p = index_b(s, 10);
    if p < s.len() {
        let t = s.skip(p + 1);
        assert forall|i: int| 0 <= i < t.len() - 1 && t[i] == 10 implies !blank(#[trigger] t[i + 1]) by { assert(s[p + 1 + i + 1] == t[i + 1]); }
        lemma_unf_id(t);
        assert(s.take(p + 1) + t =~= s);
    }
}
pub proof fn lemma_unf_none(s: Seq<u8>)
    ensures (forall|i: int| !#[trigger] crate::sh::occurs(s, L"\n ", i)) && (forall|i: int| !#[trigger] crate::sh::occurs(s, L"\n\t", i)) ==> unf(s) == s
{
    R"\n "; R"\n\t";
    if (forall|i: int| !#[trigger] crate::sh::occurs(s, L"\n ", i)) && (forall|i: int| !#[trigger] crate::sh::occurs(s, L"\n\t", i)) {
        assert forall|i: int| 0 <= i < s.len() - 1 && s[i] == 10 implies !blank(#[trigger] s[i + 1]) by {
            assert(s.subrange(i, i + 2) =~= seq![s[i], s[i + 1]]);
            assert(!crate::sh::occurs(s, L"\n ", i));
            assert(!crate::sh::occurs(s, L"\n\t", i));
            if s[i + 1] == 32 { assert(s.subrange(i, i + 2) =~= L"\n "); }
            if s[i + 1] == 9 { assert(s.subrange(i, i + 2) =~= L"\n\t"); }
        }
        lemma_unf_id(s);
    }
}
pub proof fn lemma_unf_step(s: Seq<u8>)
    ensures ({ let p = index_b(s, 10);
        unf(s) == if p >= s.len() { s } else if p + 1 < s.len() && blank(s[p + 1]) { strip_cr(s.take(p)) + unf(s.skip(p + 2)) } else { s.take(p + 1) + unf(s.skip(p + 1)) } })
{ }
/// a fold added at the end of a text is removed again
pub proof fn lemma_unf_fold(x: Seq<u8>, b: Seq<u8>)
    requires no_nl(b)
    ensures unf(x + (L"\r\n " + b)) == unf(x) + b
    decreases x.len()
{
    R"\r\n ";
    let y = x + (L"\r\n " + b);
    let p = index_b(x, 10);
    if p >= x.len() {
        assert(y[x.len() as int] == 13 && y[x.len() as int + 1] == 10 && y[x.len() as int + 2] == 32);
        assert(index_b(y, 10) == x.len() + 1);
        assert(y.take(x.len() as int + 1) =~= x.push(13));
        assert(x.push(13).drop_last() =~= x);
        assert(y.skip(x.len() as int + 3) =~= b);
        lemma_no_nl(b);
    } else {
        assert(y[p] == 10);
        assert(index_b(y, 10) == p);
        if p + 1 < x.len() && blank(x[p + 1]) {
            assert(y.take(p) =~= x.take(p));
            assert(y.skip(p + 2) =~= x.skip(p + 2) + (L"\r\n " + b));
            lemma_unf_fold(x.skip(p + 2), b);
        } else {
            assert(y[p + 1] == if p + 1 < x.len() { x[p + 1] } else { 13 });
            assert(y.take(p + 1) =~= x.take(p + 1));
            assert(y.skip(p + 1) =~= x.skip(p + 1) + (L"\r\n " + b));
            lemma_unf_fold(x.skip(p + 1), b);
        }
    }
}
/// more text on the last line
pub proof fn lemma_unf_more(x: Seq<u8>, b: Seq<u8>)
    requires no_nl(b), x.len() > 0 ==> x.last() != 10
    ensures unf(x + b) == unf(x) + b
    decreases x.len()
{
    let y = x + b;
    let p = index_b(x, 10);
    if p >= x.len() {
        assert(no_nl(y)) by { assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] != 10 by { if i >= x.len() { assert(y[i] == b[i - x.len()]); } } }
        lemma_no_nl(y);
        lemma_no_nl(x);
    } else {
        assert(y[p] == 10 && p + 1 < x.len());
        assert(index_b(y, 10) == p);
        assert(y[p + 1] == x[p + 1]);
        if blank(x[p + 1]) {
            assert(y.take(p) =~= x.take(p));
            assert(y.skip(p + 2) =~= x.skip(p + 2) + b);
            lemma_unf_more(x.skip(p + 2), b);
        } else {
            assert(y.take(p + 1) =~= x.take(p + 1));
            assert(y.skip(p + 1) =~= x.skip(p + 1) + b);
            lemma_unf_more(x.skip(p + 1), b);
        }
    }
}
pub proof fn lemma_cat_push(g: Seq<Seq<u8>>, x: Seq<u8>) ensures cat(g.push(x)) == cat(g) + x decreases g.len() {
    if g.len() == 0 { assert(g.push(x).drop_first() =~= Seq::empty()); assert(cat(g.push(x)) == x + cat(Seq::empty())); }
    else { assert(g.push(x).drop_first() =~= g.drop_first().push(x)); lemma_cat_push(g.drop_first(), x); }
}
pub proof fn lemma_cat_in(g: Seq<Seq<u8>>, i: int) requires 0 <= i < g.len(), no_nl(cat(g)) ensures no_nl(g[i]) decreases g.len() {
    let c = cat(g);
    if i == 0 { assert forall|k: int| 0 <= k < g[0].len() implies #[trigger] g[0][k] != 10 by { assert(c[k] == g[0][k]); } }
    else {
        let d = cat(g.drop_first());
        assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] != 10 by { assert(c[g[0].len() + k] == d[k]); }
        lemma_cat_in(g.drop_first(), i - 1);
    }
}
/// folding a logical line and unfolding it again gives it back
pub proof fn lemma_fold_roundtrip(s: Seq<u8>, w: int)
    requires no_nl(s)
    ensures unf(fold_t(s, w)) == s
{
    ax_graphemes(s);
    let gs = graphemes(s);
    lemma_fold_roundtrip_i(gs, w, gs.len() as int);
    assert(gs.take(gs.len() as int) =~= gs);
}
pub proof fn lemma_fold_roundtrip_i(gs: Seq<Seq<u8>>, w: int, i: int)
    requires 0 <= i <= gs.len(), no_nl(cat(gs)), forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).len() > 0
    ensures unf(crlf_join(fold_ps(gs, w, i))) == cat(gs.take(i)), crlf_join(fold_ps(gs, w, i)).len() > 0 ==> crlf_join(fold_ps(gs, w, i)).last() != 10
    decreases i
{
    if i <= 0 {
        assert(gs.take(0) =~= Seq::empty());
        lemma_no_nl(Seq::<u8>::empty());
    } else {
        lemma_fold_roundtrip_i(gs, w, i - 1);
        lemma_fold_step(gs, w, i - 1);
        let g = gs[i - 1];
        let x = crlf_join(fold_ps(gs, w, i - 1));
        lemma_cat_in(gs, i - 1);
        assert(g.last() == g[g.len() - 1] && g.last() != 10);
        lemma_cat_push(gs.take(i - 1), g);
        assert(gs.take(i - 1).push(g) =~= gs.take(i));
        if fold_ps(gs, w, i - 1).last().len() + g.len() > w { lemma_unf_fold(x, g); assert((x + L"\r\n " + g).last() == g.last()); }
        else { lemma_unf_more(x, g); assert((x + g).last() == g.last()); }
    }
}

// ---------------------------------------------------------------- content lines
pub open spec fn qual_t(g: Option<String>, name: Seq<u8>) -> Seq<u8> { match g { Some(g) => g@ + (L"." + name), None => name } }
pub open spec fn par_t(p: Option<Parameters>) -> Seq<u8> { match p { Some(p) => p.disp(), None => Seq::empty() } }
/// one logical line: group, name, parameters, value
pub open spec fn logical_t<P: Property>(p: P, name: Seq<u8>) -> Seq<u8> { qual_t(p.pgroup(), name) + (par_t(p.pparams()) + (L":" + p.disp())) }
pub open spec fn line_t<P: Property>(p: P, name: Seq<u8>) -> Seq<u8> { fold_t(logical_t(p, name), 75) + L"\r\n" }
pub open spec fn line_o<P: Property>(p: Option<P>, name: Seq<u8>) -> Seq<u8> { match p { Some(p) => line_t(p, name), None => Seq::empty() } }
pub open spec fn lines_t<P: Property>(p: Seq<P>, name: Seq<u8>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { Seq::empty() } else { lines_t(p, name, i - 1) + line_t(p[i - 1], name) }
}
pub open spec fn exts_lines_t(p: Seq<ExtensionProperty>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { Seq::empty() } else { exts_lines_t(p, i - 1) + line_t(p[i - 1], p[i - 1].name@) }
}
pub broadcast proof fn ax_line(s: Seq<u8>, x: Seq<u8>, w: int)
    ensures #[trigger] ((s + fold_t(x, w)) + L"\r\n") == s + (fold_t(x, w) + L"\r\n")
{ }
pub open spec fn refs<'a, T>(v: Seq<T>) -> Seq<&'a T> { v.map_values(|x: T| &x) }
pub proof fn lemma_vcard(s: Seq<u8>, c: Vcard)
    ensures s + vcard_t(c) == (((((s + L"BEGIN:VCARD") + L"\r\n") + L"VERSION:4.0") + L"\r\n") + body_t(c)) + L"END:VCARD" + L"\r\n"
{ hide(body_t); }
pub open spec fn vcard_t(c: Vcard) -> Seq<u8> { L"BEGIN:VCARD" + (L"\r\n" + (L"VERSION:4.0" + (L"\r\n" + (body_t(c) + (L"END:VCARD" + L"\r\n"))))) }
/// the lines of a card between VERSION and END: every value held, once, under its own name
pub open spec fn v_source(c: Vcard) -> Seq<u8> { lines_t(c.source@, L"SOURCE", c.source@.len() as int) }
pub open spec fn v_kind(c: Vcard) -> Seq<u8> { line_o(c.kind, L"KIND") }
pub open spec fn v_xml(c: Vcard) -> Seq<u8> { lines_t(c.xml@, L"XML", c.xml@.len() as int) }
pub open spec fn v_formatted_name(c: Vcard) -> Seq<u8> { lines_t(c.formatted_name@, L"FN", c.formatted_name@.len() as int) }
pub open spec fn v_name(c: Vcard) -> Seq<u8> { line_o(c.name, L"N") }
pub open spec fn v_nickname(c: Vcard) -> Seq<u8> { lines_t(c.nickname@, L"NICKNAME", c.nickname@.len() as int) }
pub open spec fn v_photo(c: Vcard) -> Seq<u8> { lines_t(c.photo@, L"PHOTO", c.photo@.len() as int) }
pub open spec fn v_bday(c: Vcard) -> Seq<u8> { line_o(c.bday, L"BDAY") }
pub open spec fn v_anniversary(c: Vcard) -> Seq<u8> { line_o(c.anniversary, L"ANNIVERSARY") }
pub open spec fn v_gender(c: Vcard) -> Seq<u8> { line_o(c.gender, L"GENDER") }
pub open spec fn v_url(c: Vcard) -> Seq<u8> { lines_t(c.url@, L"URL", c.url@.len() as int) }
pub open spec fn v_address(c: Vcard) -> Seq<u8> { lines_t(c.address@, L"ADR", c.address@.len() as int) }
pub open spec fn v_title(c: Vcard) -> Seq<u8> { lines_t(c.title@, L"TITLE", c.title@.len() as int) }
pub open spec fn v_role(c: Vcard) -> Seq<u8> { lines_t(c.role@, L"ROLE", c.role@.len() as int) }
pub open spec fn v_logo(c: Vcard) -> Seq<u8> { lines_t(c.logo@, L"LOGO", c.logo@.len() as int) }
pub open spec fn v_org(c: Vcard) -> Seq<u8> { lines_t(c.org@, L"ORG", c.org@.len() as int) }
pub open spec fn v_member(c: Vcard) -> Seq<u8> { lines_t(c.member@, L"MEMBER", c.member@.len() as int) }
pub open spec fn v_related(c: Vcard) -> Seq<u8> { lines_t(c.related@, L"RELATED", c.related@.len() as int) }
pub open spec fn v_tel(c: Vcard) -> Seq<u8> { lines_t(c.tel@, L"TEL", c.tel@.len() as int) }
pub open spec fn v_email(c: Vcard) -> Seq<u8> { lines_t(c.email@, L"EMAIL", c.email@.len() as int) }
pub open spec fn v_impp(c: Vcard) -> Seq<u8> { lines_t(c.impp@, L"IMPP", c.impp@.len() as int) }
pub open spec fn v_lang(c: Vcard) -> Seq<u8> { lines_t(c.lang@, L"LANG", c.lang@.len() as int) }
pub open spec fn v_timezone(c: Vcard) -> Seq<u8> { lines_t(c.timezone@, L"TZ", c.timezone@.len() as int) }
pub open spec fn v_geo(c: Vcard) -> Seq<u8> { lines_t(c.geo@, L"GEO", c.geo@.len() as int) }
pub open spec fn v_categories(c: Vcard) -> Seq<u8> { lines_t(c.categories@, L"CATEGORIES", c.categories@.len() as int) }
pub open spec fn v_note(c: Vcard) -> Seq<u8> { lines_t(c.note@, L"NOTE", c.note@.len() as int) }
pub open spec fn v_prod_id(c: Vcard) -> Seq<u8> { line_o(c.prod_id, L"PRODID") }
pub open spec fn v_rev(c: Vcard) -> Seq<u8> { line_o(c.rev, L"REV") }
pub open spec fn v_sound(c: Vcard) -> Seq<u8> { lines_t(c.sound@, L"SOUND", c.sound@.len() as int) }
pub open spec fn v_uid(c: Vcard) -> Seq<u8> { line_o(c.uid, L"UID") }
pub open spec fn v_client_pid_map(c: Vcard) -> Seq<u8> { lines_t(c.client_pid_map@, L"CLIENTPIDMAP", c.client_pid_map@.len() as int) }
pub open spec fn v_key(c: Vcard) -> Seq<u8> { lines_t(c.key@, L"KEY", c.key@.len() as int) }
pub open spec fn v_fburl(c: Vcard) -> Seq<u8> { lines_t(c.fburl@, L"FBURL", c.fburl@.len() as int) }
pub open spec fn v_cal_adr_uri(c: Vcard) -> Seq<u8> { lines_t(c.cal_adr_uri@, L"CALADRURI", c.cal_adr_uri@.len() as int) }
pub open spec fn v_cal_uri(c: Vcard) -> Seq<u8> { lines_t(c.cal_uri@, L"CALURI", c.cal_uri@.len() as int) }
pub open spec fn v_extensions(c: Vcard) -> Seq<u8> { exts_lines_t(c.extensions@, c.extensions@.len() as int) }
pub open spec fn body_t(c: Vcard) -> Seq<u8> { (((((((((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)) + v_client_pid_map(c)) + v_key(c)) + v_fburl(c)) + v_cal_adr_uri(c)) + v_cal_uri(c)) + v_extensions(c)) }
}
/// lemmas that must not see the sequence lemmas
pub mod spec_c {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::Vcard;
#[verifier::spinoff_prover]
pub proof fn lemma_body(s: Seq<u8>, c: Vcard) ensures ((((((((((((((((((((((((((((((((((((s + v_source(c)) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)) + v_client_pid_map(c)) + v_key(c)) + v_fburl(c)) + v_cal_adr_uri(c)) + v_cal_uri(c)) + v_extensions(c)) == s + body_t(c)
{
    hide(v_source); hide(v_kind); hide(v_xml); hide(v_formatted_name); hide(v_name); hide(v_nickname); hide(v_photo); hide(v_bday); hide(v_anniversary); hide(v_gender); hide(v_url); hide(v_address); hide(v_title); hide(v_role); hide(v_logo); hide(v_org); hide(v_member); hide(v_related); hide(v_tel); hide(v_email); hide(v_impp); hide(v_lang); hide(v_timezone); hide(v_geo); hide(v_categories); hide(v_note); hide(v_prod_id); hide(v_rev); hide(v_sound); hide(v_uid); hide(v_client_pid_map); hide(v_key); hide(v_fburl); hide(v_cal_adr_uri); hide(v_cal_uri); hide(v_extensions);
    lemma_assoc(s, v_source(c), v_kind(c));
    lemma_assoc(s, (v_source(c) + v_kind(c)), v_xml(c));
    lemma_assoc(s, ((v_source(c) + v_kind(c)) + v_xml(c)), v_formatted_name(c));
    lemma_assoc(s, (((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)), v_name(c));
    lemma_assoc(s, ((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)), v_nickname(c));
    lemma_assoc(s, (((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)), v_photo(c));
    lemma_assoc(s, ((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)), v_bday(c));
    lemma_assoc(s, (((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)), v_anniversary(c));
    lemma_assoc(s, ((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)), v_gender(c));
    lemma_assoc(s, (((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)), v_url(c));
    lemma_assoc(s, ((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)), v_address(c));
    lemma_assoc(s, (((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)), v_title(c));
    lemma_assoc(s, ((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)), v_role(c));
    lemma_assoc(s, (((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)), v_logo(c));
    lemma_assoc(s, ((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)), v_org(c));
    lemma_assoc(s, (((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)), v_member(c));
    lemma_assoc(s, ((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)), v_related(c));
    lemma_assoc(s, (((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)), v_tel(c));
    lemma_assoc(s, ((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)), v_email(c));
    lemma_assoc(s, (((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)), v_impp(c));
    lemma_assoc(s, ((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)), v_lang(c));
    lemma_assoc(s, (((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)), v_timezone(c));
    lemma_assoc(s, ((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)), v_geo(c));
    lemma_assoc(s, (((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)), v_categories(c));
    lemma_assoc(s, ((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)), v_note(c));
    lemma_assoc(s, (((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)), v_prod_id(c));
    lemma_assoc(s, ((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)), v_rev(c));
    lemma_assoc(s, (((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)), v_sound(c));
    lemma_assoc(s, ((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)), v_uid(c));
    lemma_assoc(s, (((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)), v_client_pid_map(c));
    lemma_assoc(s, ((((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)) + v_client_pid_map(c)), v_key(c));
    lemma_assoc(s, (((((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)) + v_client_pid_map(c)) + v_key(c)), v_fburl(c));
    lemma_assoc(s, ((((((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)) + v_client_pid_map(c)) + v_key(c)) + v_fburl(c)), v_cal_adr_uri(c));
    lemma_assoc(s, (((((((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)) + v_client_pid_map(c)) + v_key(c)) + v_fburl(c)) + v_cal_adr_uri(c)), v_cal_uri(c));
    lemma_assoc(s, ((((((((((((((((((((((((((((((((((v_source(c) + v_kind(c)) + v_xml(c)) + v_formatted_name(c)) + v_name(c)) + v_nickname(c)) + v_photo(c)) + v_bday(c)) + v_anniversary(c)) + v_gender(c)) + v_url(c)) + v_address(c)) + v_title(c)) + v_role(c)) + v_logo(c)) + v_org(c)) + v_member(c)) + v_related(c)) + v_tel(c)) + v_email(c)) + v_impp(c)) + v_lang(c)) + v_timezone(c)) + v_geo(c)) + v_categories(c)) + v_note(c)) + v_prod_id(c)) + v_rev(c)) + v_sound(c)) + v_uid(c)) + v_client_pid_map(c)) + v_key(c)) + v_fburl(c)) + v_cal_adr_uri(c)) + v_cal_uri(c)), v_extensions(c));
}
}
