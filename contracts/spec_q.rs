/// printed lines and cards are read back
pub mod spec_q {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_g::*;
use crate::spec_r::*;
use crate::spec_b::*;
use crate::spec_p::valid;
use crate::sh::{wf, boundary, upper, occurs, String, fmt::Display};
use crate::property::*;
use crate::parameter::*;
use crate::parser::Token;
use crate::Vcard;

// ---------------------------------------------------------------- names
pub open spec fn chk(i: int, k: int) -> bool decreases k { if k <= 0 { true } else { ({ let b = names()[i][k - 1]; 65 <= b && b <= 90 }) && chk(i, k - 1) } }
pub open spec fn chks(i: int) -> bool decreases i { if i <= 0 { true } else { names()[i - 1].len() > 0 && chk(i - 1, names()[i - 1].len() as int) && chks(i - 1) } }
pub proof fn lemma_chk(i: int, k: int, j: int) requires chk(i, k), 0 <= j < k ensures 65 <= names()[i][j] <= 90 decreases k { if j < k - 1 { lemma_chk(i, k - 1, j); } }
pub proof fn lemma_chks(i: int, j: int) requires chks(i), 0 <= j < i ensures names()[j].len() > 0, chk(j, names()[j].len() as int) decreases i { if j < i - 1 { lemma_chks(i - 1, j); } }
pub proof fn lemma_chk33() ensures names().len() == 33, chks(33) { assert(names().len() == 33) by (compute_only); assert(chks(33)) by (compute_only); }
/// the names consist of capital letters
pub proof fn lemma_names(i: int)
    requires 0 <= i < names().len()
    ensures names()[i].len() > 0, forall|j: int| 0 <= j < names()[i].len() ==> 65 <= #[trigger] names()[i][j] <= 90
{
    hide(names);
    lemma_chk33();
    lemma_chks(33, i);
    assert forall|j: int| 0 <= j < names()[i].len() implies 65 <= #[trigger] names()[i][j] <= 90 by { lemma_chk(i, names()[i].len() as int, j); }
}

// ---------------------------------------------------------------- lines
/// neither control characters nor line breaks
pub open spec fn unctl(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ctrl(#[trigger] s[i]) }
/// a group that can be written: letters, digits and hyphens
pub open spec fn group_ok(g: Option<String>) -> bool { g is Some ==> g->0@.len() > 0 && gbs(g->0@, 0, g->0@.len() as int) }
/// the line `l`, wherever it stands, makes the card `b` of the card `a`
#[verifier::opaque]
pub open spec fn reads(l: Seq<u8>, a: Vcard, b: Vcard) -> bool {
    forall|s: Seq<u8>, p: int, strict: bool| wf(s) && 0 <= p && p + l.len() < s.len() && s.subrange(p, p + l.len()) == l && nl_at(s, p + l.len()) ==> #[trigger] line_at(s, p, strict, a) == Some(b)
}
/// `t` stands at `p`
pub open spec fn at(s: Seq<u8>, p: int, t: Seq<u8>) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) == t }
pub proof fn lemma_at(s: Seq<u8>, p: int, t: Seq<u8>, u: Seq<u8>)
    requires at(s, p, t + u)
    ensures at(s, p, t), at(s, p + t.len(), u)
{
    let m = p + t.len(); let x = s.subrange(p, m + u.len());
    assert(x.len() == t.len() + u.len());
    assert(s.subrange(p, m) =~= t) by { assert forall|k: int| 0 <= k < t.len() implies s.subrange(p, m)[k] == t[k] by { assert(x[k] == (t + u)[k]); } }
    assert(s.subrange(m, m + u.len()) =~= u) by { assert forall|k: int| 0 <= k < u.len() implies s.subrange(m, m + u.len())[k] == u[k] by { assert(x[t.len() + k] == (t + u)[t.len() + k]); } }
}
pub proof fn lemma_at_byte(s: Seq<u8>, p: int, t: Seq<u8>, k: int) requires at(s, p, t), 0 <= k < t.len() ensures s[p + k] == t[k] { assert(s.subrange(p, p + t.len())[k] == t[k]); }
/// the printed parameters are read back, as parameters of the property `u`
#[verifier::opaque]
pub open spec fn par_back(pa: Pa, u: Seq<u8>) -> bool {
    pa is Some ==> par_t(pa).len() > 0 && par_t(pa)[0] == 59 && unctl(par_t(pa))
        && forall|s: Seq<u8>, q: int, strict: bool| wf(s) && at(s, q - 1, par_t(pa) + L":") ==> #[trigger] pars(s, q, strict, u, params0()) == Some((pa->0, (q + par_t(pa).len()) as int))
}
/// the name `n`, with the group `g` in front, is one token
#[verifier::opaque]
pub open spec fn named(n: Seq<u8>, g: Option<String>, t: Tok) -> bool {
    &&& group_ok(g) && n.len() > 0 && without(n, 46) && name_tok(t) && unctl(qual_t(g, n)) && !blank(qual_t(g, n)[0])
    &&& forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, qual_t(g, n)) && pstop(s, p + qual_t(g, n).len()) ==> tok(s, p) == t && tok_end(s, p) == p + qual_t(g, n).len()
}
pub proof fn lemma_plain_gb(s: Seq<u8>) requires gbs(s, 0, s.len() as int) ensures unctl(s), without(s, 46) { assert forall|i: int| 0 <= i < s.len() implies !is_ctrl(#[trigger] s[i]) && s[i] != 46 by { assert(gb(s[i])); } }
pub proof fn lemma_qual(n: Seq<u8>, g: Option<String>)
    requires group_ok(g), n.len() > 0, gbs(n, 0, n.len() as int)
    ensures without(n, 46), unctl(qual_t(g, n)), !blank(qual_t(g, n)[0])
{
    R".";
    let q = qual_t(g, n);
    lemma_plain_gb(n);
    assert(gb(n[0]));
    if g is Some { let h = g->0@; lemma_plain_gb(h); assert(gb(h[0])); assert forall|i: int| 0 <= i < q.len() implies !is_ctrl(#[trigger] q[i]) by { if i < h.len() { assert(q[i] == h[i]); } else if i > h.len() { assert(q[i] == n[i - h.len() - 1]); } } }
}
/// a group in front of a name
pub proof fn lemma_grp(s: Seq<u8>, p: int, h: Seq<u8>, n: Seq<u8>)
    requires at(s, p, h + (L"." + n)), h.len() > 0, gbs(h, 0, h.len() as int)
    ensures grp(s, p, p + h.len()), at(s, p + h.len() + 1, n)
{
    R".";
    let d = p + h.len();
    lemma_at(s, p, h, L"." + n); lemma_at(s, d, L".", n); lemma_at_byte(s, d, L".", 0);
    assert forall|k: int| p <= k < d implies gb(#[trigger] s[k]) by { lemma_at_byte(s, p, h, k - p); assert(gb(h[k - p])); }
}
/// the standard names
pub proof fn lemma_named(i: int, g: Option<String>)
    requires 0 <= i < names().len(), group_ok(g)
    ensures named(names()[i], g, Tok::Ok(Token::PropertyName))
{
    hide(names); hide(wf);
    reveal(named);
    lemma_names(i);
    let n = names()[i]; let q = qual_t(g, n);
    lemma_qual(n, g);
    assert forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, q) && pstop(s, p + q.len()) implies tok(s, p) == Tok::Ok(Token::PropertyName) && tok_end(s, p) == p + q.len() by {
        match g {
            None => { lemma_same(s, p, n); ax_name(s, p, i); }
            Some(h) => { lemma_grp(s, p, h@, n); lemma_same(s, p + h@.len() + 1, n); ax_gname(s, p, p + h@.len(), i); R"."; assert(q.len() == h@.len() + 1 + n.len()); }
        }
    }
}
/// TZ and GEO, which have tokens of their own
pub proof fn lemma_named_tz(n: Seq<u8>, g: Option<String>)
    requires n == tz_s() || n == geo_s(), group_ok(g)
    ensures named(n, g, if g is Some { Tok::Ok(Token::PropertyName) } else if n == tz_s() { Tok::Ok(Token::TimeZone) } else { Tok::Ok(Token::Geo) })
{
    hide(wf);
    reveal(named);
    let q = qual_t(g, n);
    assert(tz_s()[0] != geo_s()[0]);
    lemma_qual(n, g);
    assert forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, q) && pstop(s, p + q.len()) implies tok_end(s, p) == p + q.len() && tok(s, p) == (if g is Some { Tok::Ok(Token::PropertyName) } else if n == tz_s() { Tok::Ok(Token::TimeZone) } else { Tok::Ok(Token::Geo) }) by {
        match g {
            None => { lemma_same(s, p, n); ax_tz(s, p); }
            Some(h) => { lemma_grp(s, p, h@, n); lemma_same(s, p + h@.len() + 1, n); ax_gtz(s, p, p + h@.len()); R"."; assert(q.len() == h@.len() + 1 + n.len()); }
        }
    }
}
/// names of extensions
pub open spec fn x_name(n: Seq<u8>) -> bool { n.len() > 2 && up1(n[0]) == 88 && n[1] == 45 && gbs(n, 0, n.len() as int) }
pub proof fn lemma_named_x(n: Seq<u8>, g: Option<String>)
    requires x_name(n), group_ok(g)
    ensures named(n, g, if g is Some { Tok::Ok(Token::PropertyName) } else { Tok::Ok(Token::ExtensionName) })
{
    hide(wf);
    reveal(named);
    let q = qual_t(g, n);
    lemma_qual(n, g);
    assert forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, q) && pstop(s, p + q.len()) implies tok_end(s, p) == p + q.len() && tok(s, p) == (if g is Some { Tok::Ok(Token::PropertyName) } else { Tok::Ok(Token::ExtensionName) }) by {
        match g {
            None => { lemma_xname(s, p, n); ax_ext(s, p, p + n.len()); }
            Some(h) => { R"."; lemma_grp(s, p, h@, n); let d = p + h@.len(); assert(q.len() == h@.len() + 1 + n.len()); lemma_xname(s, d + 1, n); ax_gext(s, p, d, d + 1 + n.len()); }
        }
    }
}
pub proof fn lemma_xname(s: Seq<u8>, p: int, n: Seq<u8>)
    requires x_name(n), at(s, p, n), xstop(s, p + n.len())
    ensures xname(s, p, p + n.len())
{
    lemma_at_byte(s, p, n, 0); lemma_at_byte(s, p, n, 1);
    assert forall|k: int| p + 2 <= k < p + n.len() implies gb(#[trigger] s[k]) by { lemma_at_byte(s, p, n, k - p); assert(gb(n[k - p])); }
}
/// the text of a line
pub open spec fn line(n: Seq<u8>, g: Option<String>, pa: Pa, v: Seq<u8>) -> Seq<u8> { qual_t(g, n) + (par_t(pa) + (L":" + v)) }
/// the name is one token, the parameters follow, and the value extends to the end of the line
pub proof fn lemma_line_name(s: Seq<u8>, p: int, n: Seq<u8>, tk: Tok, g: Option<String>, pa: Pa, v: Seq<u8>, strict: bool, a: Vcard)
    requires wf(s), named(n, g, tk), unctl(v), par_back(pa, upper(n)), at(s, p, line(n, g, pa, v)), ({ let z = p + line(n, g, pa, v).len(); z < s.len() && nl_at(s, z) })
    ensures line_at(s, p, strict, a) == put(tk, n, v, pa, g, a)
{
    hide(put); hide(vend); hide(index_b); hide(pars); hide(wf); hide(params0); hide(par_t);
    reveal(named); reveal(par_back);
    R":"; R".";
    let q = qual_t(g, n); let t = par_t(pa); let l = q + (t + (L":" + v)); let e = p + q.len();
    let z = p + l.len();
    lemma_at(s, p, q, t + (L":" + v)); lemma_at(s, e, t, L":" + v); lemma_at(s, e + t.len(), L":", v);
    lemma_at_byte(s, e + t.len(), L":", 0);
    if pa is Some { lemma_at_byte(s, e, t, 0); } else { reveal(par_t); assert(t.len() == 0); }
    assert(s[e] == 58 || s[e] == 59);
    assert(pstop(s, e));
    assert(tok_end(s, p) == e && tok(s, p) == tk);
    let m = s.subrange(p, e);
    assert(m == q);
    crate::sh::ax_index_b(m, 46);
    let k = index_b(m, 46);
    match g {
        None => { if k < m.len() { assert(n[k] != 46); } }
        Some(h) => {
            assert(m[h@.len() as int] == 46);
            assert(k <= h@.len()) by { if k > h@.len() { assert(m[h@.len() as int] != 46); } }
            assert(k == h@.len()) by { if k < h@.len() { assert(gb(h@[k])); assert(m[k] == h@[k]); } }
            assert(m.take(k) =~= h@);
            assert(m.skip(k + 1) =~= n);
            ax_str_of(h);
        }
    }
    assert(name_of(m) == n && group_of(m) == g);
    let y = e + t.len() + 1;
    assert forall|k: int| y <= k < z implies !is_ctrl(#[trigger] s[k]) by { lemma_at_byte(s, y, v, k - y); assert(!is_ctrl(v[k - y])); }
    lemma_vend_at(s, y, z);
    assert(s.subrange(y, z) == v);
    match pa {
        None => { assert(s[e] == 58); }
        Some(x) => {
            assert(t + (L":" + v) =~= (t + L":") + v);
            lemma_at(s, e, t + L":", v);
            assert(pars(s, e + 1, strict, upper(n), params0()) == Some((x, (e + 1 + t.len()) as int)));
        }
    }
}
/// a line is read back when its parameters and its value are
pub proof fn lemma_reads(n: Seq<u8>, tk: Tok, g: Option<String>, pa: Pa, v: Seq<u8>, a: Vcard, b: Vcard)
    requires named(n, g, tk), unctl(v), par_back(pa, upper(n)), put(tk, n, v, pa, g, a) == Some(b)
    ensures reads(line(n, g, pa, v), a, b), line_ok(line(n, g, pa, v))
{
    hide(put); hide(line_at); hide(line); hide(unctl);
    reveal(reads);
    let l = line(n, g, pa, v);
    assert forall|s: Seq<u8>, p: int, strict: bool| wf(s) && 0 <= p && p + l.len() < s.len() && s.subrange(p, p + l.len()) == l && nl_at(s, p + l.len()) implies #[trigger] line_at(s, p, strict, a) == Some(b) by {
        lemma_line_name(s, p, n, tk, g, pa, v, strict, a);
    }
    lemma_line_ok(n, tk, g, pa, v);
}
pub proof fn lemma_line_ok(n: Seq<u8>, tk: Tok, g: Option<String>, pa: Pa, v: Seq<u8>)
    requires named(n, g, tk), unctl(v), par_back(pa, upper(n))
    ensures line_ok(line(n, g, pa, v))
{
    reveal(named); reveal(par_back); reveal(line_ok);
    R":";
    let q = qual_t(g, n); let t = par_t(pa); let l = line(n, g, pa, v);
    assert(q.len() > 0);
    assert(l[0] == q[0]);
    assert forall|i: int| 0 <= i < l.len() implies !is_ctrl(#[trigger] l[i]) by {
        if i < q.len() { assert(l[i] == q[i]); } else if i < q.len() + t.len() { assert(l[i] == t[i - q.len()]); } else if i > q.len() + t.len() { assert(l[i] == v[i - q.len() - t.len() - 1]); }
    }
}

// ---------------------------------------------------------------- C02: folded lines one after the other
/// text before a line that does not start with a blank is unfolded on its own
pub proof fn lemma_unf_cat(x: Seq<u8>, y: Seq<u8>)
    requires x.len() > 0 ==> x.last() == 10, y.len() > 0 ==> !blank(y[0])
    ensures unf(x + y) == unf(x) + unf(y)
    decreases x.len()
{
    hide(index_b);
    let z = x + y;
    if x.len() == 0 { assert(z =~= y); lemma_unf_step(x); crate::sh::ax_index_b(x, 10); assert(unf(x) + unf(y) =~= unf(y)); }
    else {
        lemma_unf_step(x); lemma_unf_step(z);
        crate::sh::ax_index_b(x, 10); crate::sh::ax_index_b(z, 10);
        let p = index_b(x, 10); let q = index_b(z, 10);
        assert(z[x.len() - 1] == 10);
        if p >= x.len() { assert(x[x.len() - 1] != 10); }
        assert(z[p] == 10);
        if q < p { assert(z[q] == x[q]); }
        if p < q { assert(z[p] != 10); }
        if p + 1 < x.len() && blank(x[p + 1]) {
            let t = x.skip(p + 2);
            assert(z.take(p) =~= x.take(p));
            assert(z.skip(p + 2) =~= t + y);
            assert(t.len() > 0) by { if t.len() == 0 { assert(x.last() == x[p + 1]); } }
            assert(t.last() == x.last());
            lemma_unf_cat(t, y);
            assert(strip_cr(x.take(p)) + (unf(t) + unf(y)) =~= (strip_cr(x.take(p)) + unf(t)) + unf(y));
        } else {
            let t = x.skip(p + 1);
            assert(z.take(p + 1) =~= x.take(p + 1));
            assert(z.skip(p + 1) =~= t + y);
            assert(t.len() > 0 ==> t.last() == x.last());
            if p + 1 < z.len() { assert(z[p + 1] == if p + 1 < x.len() { x[p + 1] } else { y[0] }); }
            lemma_unf_cat(t, y);
            assert(x.take(p + 1) + (unf(t) + unf(y)) =~= (x.take(p + 1) + unf(t)) + unf(y));
        }
    }
}
/// the line break that ends a text stays
pub proof fn lemma_unf_end(x: Seq<u8>)
    requires x.len() > 0 ==> x.last() != 10
    ensures unf(x + L"\r\n") == unf(x) + L"\r\n"
    decreases x.len()
{
    hide(index_b);
    R"\r\n";
    let z = x + L"\r\n";
    lemma_unf_step(x); lemma_unf_step(z);
    crate::sh::ax_index_b(x, 10); crate::sh::ax_index_b(z, 10);
    let p = index_b(x, 10); let q = index_b(z, 10);
    assert(z[x.len() as int] == 13 && z[x.len() as int + 1] == 10);
    if p >= x.len() {
        assert(q == x.len() + 1) by { if q < x.len() { assert(z[q] == x[q]); assert(x[q] != 10); } if q > x.len() + 1 { assert(z[x.len() as int + 1] != 10); } }
        assert(z.take(q + 1) =~= z);
        assert(z.skip(q + 1) =~= Seq::<u8>::empty());
        lemma_unf_step(Seq::<u8>::empty());
        assert(z + Seq::<u8>::empty() =~= z);
    } else {
        assert(z[p] == 10);
        if q < p { assert(z[q] == x[q]); }
        if p < q { assert(z[p] != 10); }
        assert(p + 1 < x.len());
        assert(z[p + 1] == x[p + 1]);
        if blank(x[p + 1]) {
            let t = x.skip(p + 2);
            assert(z.take(p) =~= x.take(p));
            assert(z.skip(p + 2) =~= t + L"\r\n");
            assert(t.len() > 0 ==> t.last() == x.last());
            lemma_unf_end(t);
            assert(strip_cr(x.take(p)) + (unf(t) + L"\r\n") =~= (strip_cr(x.take(p)) + unf(t)) + L"\r\n");
        } else {
            let t = x.skip(p + 1);
            assert(z.take(p + 1) =~= x.take(p + 1));
            assert(z.skip(p + 1) =~= t + L"\r\n");
            assert(t.len() > 0 ==> t.last() == x.last());
            lemma_unf_end(t);
            assert(x.take(p + 1) + (unf(t) + L"\r\n") =~= (x.take(p + 1) + unf(t)) + L"\r\n");
        }
    }
}
/// lines, folded and not
pub open spec fn fl(v: Seq<Seq<u8>>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { fold_t(v[0], 75) + L"\r\n" + fl(v.drop_first()) } }
pub open spec fn ul(v: Seq<Seq<u8>>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { v[0] + L"\r\n" + ul(v.drop_first()) } }
/// a line that can be folded: not empty, no control characters, no blank in front
#[verifier::opaque]
pub open spec fn line_ok(l: Seq<u8>) -> bool { l.len() > 0 && !blank(l[0]) && unctl(l) }
pub open spec fn lines_ok(v: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < v.len() ==> line_ok(#[trigger] v[i]) }
/// folding starts with the first byte of the line, or with a line break
pub proof fn lemma_fold_first(gs: Seq<Seq<u8>>, w: int, i: int)
    requires 1 <= i <= gs.len(), forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).len() > 0
    ensures ({ let t = crlf_join(fold_ps(gs, w, i)); t.len() > 0 && (t[0] == 13 || t[0] == gs[0][0]) })
    decreases i
{
    R"\r\n ";
    lemma_fold_step(gs, w, i - 1);
    if i > 1 { lemma_fold_first(gs, w, i - 1); } else { assert(crlf_join(fold_ps(gs, w, 0)) =~= Seq::<u8>::empty()); }
    assert(gs[i - 1].len() > 0);
}
/// one folded line
pub proof fn lemma_fold_line(l: Seq<u8>)
    requires line_ok(l)
    ensures ({ let t = fold_t(l, 75); t.len() > 0 && !blank(t[0]) && t.last() != 10 && unf(t) == l })
{
    hide(fold_ps); hide(unf); hide(crlf_join);
    reveal(line_ok);
    ax_graphemes(l);
    let gs = graphemes(l);
    assert(no_nl(l)) by { assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != 10 by { assert(!is_ctrl(l[i])); } }
    lemma_fold_roundtrip(l, 75);
    lemma_fold_roundtrip_i(gs, 75, gs.len() as int);
    assert(gs.len() > 0);
    lemma_fold_first(gs, 75, gs.len() as int);
    assert(gs[0][0] == cat(gs)[0]);
}
pub proof fn lemma_fl_first(v: Seq<Seq<u8>>)
    requires lines_ok(v), v.len() > 0
    ensures fl(v).len() > 0, !blank(fl(v)[0])
{ hide(fold_t); assert(line_ok(v[0])); lemma_fold_line(v[0]); }
/// folded lines, unfolded
pub proof fn lemma_unf_lines(v: Seq<Seq<u8>>, e: Seq<u8>)
    requires lines_ok(v), e.len() > 0 ==> !blank(e[0])
    ensures unf(fl(v) + e) == ul(v) + unf(e)
    decreases v.len()
{
    hide(fold_t); hide(unf);
    R"\r\n";
    if v.len() == 0 { assert(fl(v) + e =~= e); assert(ul(v) + unf(e) =~= unf(e)); }
    else {
        let w = v.drop_first(); let t = fold_t(v[0], 75);
        assert(line_ok(v[0]));
        lemma_fold_line(v[0]);
        assert forall|i: int| 0 <= i < w.len() implies line_ok(#[trigger] w[i]) by { assert(line_ok(v[i + 1])); }
        lemma_unf_lines(w, e);
        lemma_unf_end(t);
        let y = fl(w) + e;
        if w.len() > 0 { lemma_fl_first(w); assert(y[0] == fl(w)[0]); } else { assert(y =~= e); }
        assert((t + L"\r\n").last() == 10);
        lemma_unf_cat(t + L"\r\n", y);
        assert(fl(v) + e =~= (t + L"\r\n") + y);
        assert((v[0] + L"\r\n") + (ul(w) + unf(e)) =~= ul(v) + unf(e));
    }
}

// ---------------------------------------------------------------- C07, C14: cards
/// the lines `v` make the card `b` of the card `a`
pub open spec fn steps(v: Seq<Seq<u8>>, a: Vcard, b: Vcard) -> bool decreases v.len() {
    if v.len() == 0 { a == b } else { exists|m: Vcard| #[trigger] reads(v[0], a, m) && steps(v.drop_first(), m, b) }
}
pub proof fn lemma_steps_cat(v: Seq<Seq<u8>>, w: Seq<Seq<u8>>, a: Vcard, b: Vcard, c: Vcard)
    requires steps(v, a, b), steps(w, b, c)
    ensures steps(v + w, a, c)
    decreases v.len()
{
    if v.len() == 0 { assert(v + w =~= w); }
    else {
        let m = choose|m: Vcard| #[trigger] reads(v[0], a, m) && steps(v.drop_first(), m, b);
        lemma_steps_cat(v.drop_first(), w, m, b, c);
        assert((v + w).drop_first() =~= v.drop_first() + w);
        assert((v + w)[0] == v[0]);
        assert(reads((v + w)[0], a, m));
    }
}
pub proof fn lemma_steps_push(v: Seq<Seq<u8>>, l: Seq<u8>, a: Vcard, b: Vcard, c: Vcard)
    requires steps(v, a, b), reads(l, b, c)
    ensures steps(v.push(l), a, c)
{
    let w = seq![l];
    assert(w.drop_first() =~= Seq::<Seq<u8>>::empty());
    assert(reads(w[0], b, c) && steps(w.drop_first(), c, c));
    lemma_steps_cat(v, w, a, b, c);
    assert(v + w =~= v.push(l));
}
/// one line
pub proof fn lemma_one_line(s: Seq<u8>, p: int, l: Seq<u8>, a: Vcard, b: Vcard, strict: bool)
    requires wf(s), at(s, p, l + L"\r\n"), unctl(l), reads(l, a, b)
    ensures line_at(s, p, strict, a) == Some(b), nl(s, p) == p + l.len() + 2
{
    hide(line_at);
    reveal(reads);
    R"\r\n";
    lemma_at(s, p, l, L"\r\n");
    let r = p + l.len();
    lemma_at_byte(s, r, L"\r\n", 0); lemma_at_byte(s, r, L"\r\n", 1);
    assert(nl_at(s, r));
    assert forall|k: int| p <= k < r + 1 implies #[trigger] s[k] != 10 by { if k < r { lemma_at_byte(s, p, l, k - p); assert(!is_ctrl(l[k - p])); } }
    lemma_nl(s, p, r + 1);
}
/// lines up to the END
pub proof fn lemma_props_lines(s: Seq<u8>, p: int, v: Seq<Seq<u8>>, a: Vcard, b: Vcard, strict: bool)
    requires wf(s), lines_ok(v), steps(v, a, b), at(s, p, ul(v)), ({ let q = p + ul(v).len(); q < s.len() && tok(s, q) == Tok::Ok(Token::End) })
    ensures props(s, p, strict, a) == Some((b, (p + ul(v).len()) as int))
    decreases v.len()
{
    hide(nl); hide(line_at); hide(props);
    lemma_props(s, p, strict, a);
    reveal(line_ok);
    if v.len() > 0 {
        let w = v.drop_first(); let l = v[0];
        assert(line_ok(l));
        let m = choose|m: Vcard| #[trigger] reads(v[0], a, m) && steps(v.drop_first(), m, b);
        assert forall|i: int| 0 <= i < w.len() implies line_ok(#[trigger] w[i]) by { assert(line_ok(v[i + 1])); }
        R"\r\n";
        lemma_at(s, p, l + L"\r\n", ul(w));
        lemma_one_line(s, p, l, a, m, strict);
        assert(name_tok(tok(s, p))) by { reveal(line_at); }
        lemma_props_lines(s, p + l.len() + 2, w, m, b, strict);
    }
}
pub open spec fn head_t() -> Seq<u8> { L"BEGIN:VCARD" + (L"\r\n" + (L"VERSION:4.0" + L"\r\n")) }
pub open spec fn tail_t() -> Seq<u8> { L"END:VCARD" + L"\r\n" }
pub proof fn lemma_frame_words()
    ensures L"BEGIN:VCARD" == begin_s(), L"END:VCARD" == end_s(), L"VERSION:4.0" == version_s(52)
{ R"BEGIN:VCARD"; R"END:VCARD"; R"VERSION:4.0"; assert(L"BEGIN:VCARD" =~= begin_s()); assert(L"END:VCARD" =~= end_s()); assert(L"VERSION:4.0" =~= version_s(52)); }
pub proof fn lemma_same(s: Seq<u8>, p: int, n: Seq<u8>)
    requires at(s, p, n), forall|k: int| 0 <= k < n.len() ==> !(97 <= #[trigger] n[k] <= 122)
    ensures same(s, p, n)
{ assert forall|k: int| #![trigger n[k]] 0 <= k < n.len() implies up1(s[p + k]) == n[k] by { lemma_at_byte(s, p, n, k); } }
/// a frame word and its line break
pub proof fn lemma_crlf(s: Seq<u8>, p: int)
    requires wf(s), at(s, p, L"\r\n")
    ensures is_nl(s, p), tok_end(s, p) == p + 2, lstop(s, p), p < s.len()
{ R"\r\n"; lemma_at_byte(s, p, L"\r\n", 0); lemma_at_byte(s, p, L"\r\n", 1); assert(boundary(s, p)); ax_tok(s, p); lemma_ptok(s, false, p); }
/// a whole card
pub proof fn lemma_card_lines(s: Seq<u8>, p: int, v: Seq<Seq<u8>>, b: Vcard, strict: bool)
    requires wf(s), lines_ok(v), steps(v, vcard0(), b), at(s, p, head_t() + (ul(v) + tail_t()))
    ensures !is_nl(s, p), ({ let q = p + head_t().len() + ul(v).len(); card_at(s, p, strict) == Some((b, q as int)) && tok_end(s, q as int) == q + 9 && is_nl(s, q as int + 9) && tok_end(s, q as int + 9) == q + 11 })
{
    hide(props); hide(vcard0);
    lemma_frame_words();
    R"\r\n";
    let bw = L"BEGIN:VCARD"; let vw = L"VERSION:4.0"; let ew = L"END:VCARD"; let c = L"\r\n";
    assert(bw.len() == 11 && vw.len() == 11 && ew.len() == 9);
    lemma_at(s, p, head_t(), ul(v) + tail_t());
    lemma_at(s, p, bw, c + (vw + c)); lemma_at(s, p + 11, c, vw + c); lemma_at(s, p + 13, vw, c);
    let q = p + 26 + ul(v).len();
    lemma_at(s, p + 26, ul(v), tail_t()); lemma_at(s, q, ew, c);
    lemma_crlf(s, p + 11); lemma_crlf(s, p + 24); lemma_crlf(s, q + 9);
    lemma_same(s, p, bw); lemma_same(s, p + 13, vw); lemma_same(s, q, ew);
    ax_frame(s, p); ax_frame(s, p + 13); ax_frame(s, q);
    lemma_props_lines(s, p + 26, v, vcard0(), b, strict);
}

/// the frame is not folded
pub proof fn lemma_frame_unf()
    ensures unf(head_t()) == head_t(), unf(tail_t()) == tail_t(), head_t().len() == 26, head_t().last() == 10, tail_t().len() == 11, tail_t()[0] == 69, tail_t()[9] == 13
{
    hide(unf);
    R"\r\n"; R"BEGIN:VCARD"; R"END:VCARD"; R"VERSION:4.0";
    let h = head_t(); let t = tail_t();
    assert(h.len() == 26 && t.len() == 11);
    assert forall|i: int| 0 <= i < h.len() - 1 && h[i] == 10 implies !blank(#[trigger] h[i + 1]) by { assert(h[13] == 86); }
    lemma_unf_id(h); lemma_unf_id(t);
}
/// a printed card, unfolded
pub proof fn lemma_unf_card(v: Seq<Seq<u8>>)
    requires lines_ok(v)
    ensures unf(head_t() + (fl(v) + tail_t())) == head_t() + (ul(v) + tail_t())
{
    hide(unf); hide(fl); hide(ul); hide(head_t); hide(tail_t);
    let h = head_t(); let t = tail_t();
    lemma_frame_unf();
    lemma_unf_lines(v, t);
    let y = fl(v) + t;
    assert(!blank(y[0])) by { if v.len() > 0 { lemma_fl_first(v); assert(y[0] == fl(v)[0]); } else { reveal(fl); assert(y =~= t); } }
    lemma_unf_cat(h, y);
}
/// a printed card is read back when its lines are
pub proof fn lemma_doc_lines(v: Seq<Seq<u8>>, b: Vcard, strict: bool)
    requires lines_ok(v), steps(v, vcard0(), b), valid(b), wf(unf(head_t() + (fl(v) + tail_t())))
    ensures cards_at(unf(head_t() + (fl(v) + tail_t())), 0, strict) == Some(seq![b])
{
    hide(card_at); hide(unf); hide(fl); hide(ul); hide(valid); hide(vcard0); hide(steps); hide(cards_at); hide(head_t); hide(tail_t); hide(wf); hide(is_nl);
    let h = head_t(); let t = tail_t(); let s = h + (ul(v) + t);
    lemma_unf_card(v); lemma_frame_unf();
    assert(s.subrange(0, s.len() as int) =~= s);
    lemma_card_lines(s, 0, v, b, strict);
    let q = 26int + ul(v).len();
    assert(s.len() == q + 11);
    assert(card_at(s, 0, strict) == Some((b, q)));
    assert(boundary(s, q + 11));
    assert(s[q + 9] == t[9]);
    assert(boundary(s, q + 9));
    crate::spec_k::lemma_cards(s, 0, strict);
    crate::spec_k::lemma_cards(s, q + 9, strict);
    crate::spec_k::lemma_cards(s, q + 11, strict);
    assert(seq![b] + Seq::<Vcard>::empty() =~= seq![b]);
}
}
