#!/usr/bin/env python3
"""Writes contracts/spec_s2.rs: printed parameters are read back (module spec_y)."""
o=[]
w=o.append
w('''/// printed parameters are read back
pub mod spec_y {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_g::*;
use crate::spec_r::*;
use crate::spec_q::*;
use crate::spec_w::*;
use crate::spec_x::*;
use crate::spec_b::*;
use crate::sh::{wf, upper, occurs, lower, String, fmt::Display};
use crate::property::*;
use crate::parameter::*;
use crate::parser::Token;
use crate::unicode_segmentation::cat;
use crate::{Uri, Vcard};

// ---------------------------------------------------------------- names
/// the name `n`, followed by an equals sign, is one token
#[verifier::opaque]
pub open spec fn keyed(n: Seq<u8>, t: Tok) -> bool {
    &&& n.len() > 0 && unctl(n) && par_tok(t)
    &&& forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, n) && p + n.len() < s.len() && s[p + n.len()] == 61 ==> tok(s, p) == t && tok_end(s, p) == p + n.len()
}
pub open spec fn capital(n: Seq<u8>) -> bool { n.len() > 0 && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == 45 || 65 <= n[i] <= 90 }
pub proof fn lemma_capital(n: Seq<u8>)
    requires capital(n)
    ensures upper(n) == n, unctl(n)
{
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] < 128 by { assert(n[i] == 45 || 65 <= n[i] <= 90); }
    crate::sh::ax_upper_ascii(n);
    assert(upper(n) =~= n) by { assert forall|i: int| 0 <= i < n.len() implies upper(n)[i] == n[i] by { assert(n[i] == 45 || 65 <= n[i] <= 90); } }
    assert forall|i: int| 0 <= i < n.len() implies !is_ctrl(#[trigger] n[i]) by { assert(n[i] == 45 || 65 <= n[i] <= 90); }
}
pub proof fn lemma_keyed(i: int)
    requires 0 <= i < keys().len(), capital(keys()[i])
    ensures keyed(keys()[i], Tok::Ok(Token::ParameterKey))
{
    hide(keys); hide(wf);
    reveal(keyed);
    let n = keys()[i];
    lemma_capital(n);
    assert forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, n) && p + n.len() < s.len() && s[p + n.len()] == 61 implies tok(s, p) == Tok::Ok(Token::ParameterKey) && tok_end(s, p) == p + n.len() by {
        assert forall|k: int| 0 <= k < n.len() implies !(97 <= #[trigger] n[k] <= 122) by { assert(n[k] == 45 || 65 <= n[k] <= 90); }
        lemma_same(s, p, n); ax_key(s, p, i);
    }
}
pub proof fn lemma_keyed_tz(n: Seq<u8>)
    requires n == tz_s() || n == geo_s()
    ensures keyed(n, if n == tz_s() { Tok::Ok(Token::TimeZone) } else { Tok::Ok(Token::Geo) })
{
    hide(wf);
    reveal(keyed);
    assert(tz_s()[0] != geo_s()[0]);
    assert(capital(n));
    lemma_capital(n);
    assert forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, n) && p + n.len() < s.len() && s[p + n.len()] == 61 implies tok_end(s, p) == p + n.len() && tok(s, p) == (if n == tz_s() { Tok::Ok(Token::TimeZone) } else { Tok::Ok(Token::Geo) }) by { lemma_same(s, p, n); ax_tz(s, p); }
}
pub proof fn lemma_keyed_x(n: Seq<u8>)
    requires x_name(n)
    ensures keyed(n, Tok::Ok(Token::ExtensionName))
{
    hide(wf);
    reveal(keyed);
    lemma_plain_gb(n);
    assert forall|s: Seq<u8>, p: int| wf(s) && #[trigger] at(s, p, n) && p + n.len() < s.len() && s[p + n.len()] == 61 implies tok(s, p) == Tok::Ok(Token::ExtensionName) && tok_end(s, p) == p + n.len() by { lemma_xname(s, p, n); ax_ext(s, p, p + n.len()); }
}

// ---------------------------------------------------------------- values
/// `x`, followed by a delimiter, is read as the value `v`
#[verifier::opaque]
pub open spec fn vals(x: Seq<u8>, v: Seq<u8>, qt: bool) -> bool {
    &&& unctl(x)
    &&& forall|s: Seq<u8>, p: int| #![trigger pv(s, p)] at(s, p, x) && pstop(s, p + x.len()) ==> pv(s, p) == Some((v, qt, (p + x.len() + 1) as int))
}
/// escaping leaves no control character and adds no quote and no delimiter
pub proof fn lemma_escp_plain(v: Seq<u8>)
    requires texty(v)
    ensures unctl(escp(v)), without(v, 34) ==> without(escp(v), 34), without(v, 58) ==> without(escp(v), 58), without(v, 59) ==> without(escp(v), 59)
    decreases v.len()
{
    let e = escp(v);
    if v.len() > 0 {
        let t = v.drop_first(); let a = escp1(v[0]); let r = escp(t);
        assert forall|i: int| 0 <= i < t.len() implies !is_ctrl(#[trigger] t[i]) || t[i] == 10 by { assert(t[i] == v[i + 1]); }
        assert forall|b: u8| without(v, b) implies #[trigger] without(t, b) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != b by { assert(t[i] == v[i + 1]); } }
        lemma_escp_plain(t);
        assert forall|i: int| 0 <= i < e.len() implies !is_ctrl(#[trigger] e[i]) by { if i >= a.len() { assert(e[i] == r[i - a.len()]); } else { assert(e[i] == a[i]); assert(!is_ctrl(v[0]) || v[0] == 10); } }
        if without(v, 34) { assert(v[0] != 34); assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 34 by { if i >= a.len() { assert(e[i] == r[i - a.len()]); } else { assert(e[i] == a[i]); } } }
        if without(v, 58) { assert(v[0] != 58); assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 58 by { if i >= a.len() { assert(e[i] == r[i - a.len()]); } else { assert(e[i] == a[i]); } } }
        if without(v, 59) { assert(v[0] != 59); assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 59 by { if i >= a.len() { assert(e[i] == r[i - a.len()]); } else { assert(e[i] == a[i]); } } }
    }
}
/// escaping delimiters does not hide them
pub proof fn lemma_escp_has(v: Seq<u8>, b: u8)
    requires without(escp(v), b), b != 92, b != 10
    ensures without(v, b)
    decreases v.len()
{
    if v.len() > 0 {
        let t = v.drop_first(); let e = escp(v); let a = escp1(v[0]); let r = escp(t);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != b by { assert(e[i + a.len()] == r[i]); }
        lemma_escp_has(t, b);
        assert(v[0] != b) by { assert(e[0] == a[0]); }
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != b by { if i > 0 { assert(t[i - 1] == v[i]); } }
    }
}
/// text without backslashes and line feeds is not changed
pub proof fn lemma_escp_id(v: Seq<u8>)
    requires without(v, 92), without(v, 10)
    ensures escp(v) == v
    decreases v.len()
{
    if v.len() > 0 {
        let t = v.drop_first();
        assert(v[0] != 92 && v[0] != 10);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 92 && t[i] != 10 by { assert(t[i] == v[i + 1]); }
        lemma_escp_id(t);
        assert(seq![v[0]] + t =~= v);
    } else { assert(escp(v) =~= v); }
}
pub proof fn lemma_qend(s: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q < s.len(), s[q] == 34, forall|i: int| p <= i < q ==> !is_ctrl(#[trigger] s[i]) && s[i] != 34
    ensures qend(s, p) == q
    decreases q - p
{ if p < q { assert(!is_ctrl(s[p])); lemma_qend(s, p + 1, q); } }
/// a value in quotes
pub proof fn lemma_val_q(v: Seq<u8>)
    requires texty(v), without(v, 34)
    ensures vals(L"\\"" + (escp(v) + L"\\""), v, true)
{
    R"\\"";
    let e = escp(v); let x = L"\\"" + (e + L"\\"");
    lemma_escp_plain(v); lemma_une_escp(v);
    reveal(vals);
    lemma_unctl_cat(e, L"\\""); lemma_unctl_cat(L"\\"", e + L"\\"");
    assert forall|s: Seq<u8>, p: int| #![trigger pv(s, p)] at(s, p, x) && pstop(s, p + x.len()) implies pv(s, p) == Some((v, true, (p + x.len() + 1) as int)) by {
        lemma_at(s, p, L"\\"", e + L"\\""); lemma_at(s, p + 1, e, L"\\"");
        let q = p + 1 + e.len();
        lemma_at_byte(s, p, L"\\"", 0); lemma_at_byte(s, q, L"\\"", 0);
        assert forall|i: int| p + 1 <= i < q implies !is_ctrl(#[trigger] s[i]) && s[i] != 34 by { lemma_at_byte(s, p + 1, e, i - p - 1); assert(!is_ctrl(e[i - p - 1]) && e[i - p - 1] != 34); }
        lemma_qend(s, p + 1, q);
        assert(s.subrange(p + 1, q) == e);
    }
}
/// a value without quotes ends at the delimiter
pub proof fn lemma_pend(s: Seq<u8>, p: int, v: Seq<u8>)
    requires texty(v), without(v, 58), without(v, 59), at(s, p, escp(v)), pstop(s, p + escp(v).len())
    ensures pend(s, p) == p + escp(v).len()
    decreases v.len()
{
    let e = escp(v);
    if v.len() > 0 {
        let t = v.drop_first(); let a = escp1(v[0]); let r = escp(t);
        assert(v[0] != 58 && v[0] != 59 && (!is_ctrl(v[0]) || v[0] == 10));
        assert forall|i: int| 0 <= i < t.len() implies (!is_ctrl(#[trigger] t[i]) || t[i] == 10) && t[i] != 58 && t[i] != 59 by { assert(t[i] == v[i + 1]); assert(v[i + 1] != 58 && v[i + 1] != 59 && (!is_ctrl(v[i + 1]) || v[i + 1] == 10)); }
        lemma_at(s, p, a, r);
        lemma_at_byte(s, p, a, 0);
        if a.len() == 2 { lemma_at_byte(s, p, a, 1); assert(esc_at(s, p)); } else { assert(s[p] == v[0] && v[0] != 92); assert(!esc_at(s, p)); }
        lemma_pend(s, p + a.len(), t);
    }
}
pub proof fn lemma_val_p(v: Seq<u8>)
    requires texty(v), without(v, 58), without(v, 59), v.len() > 0 ==> v[0] != 34
    ensures vals(escp(v), v, false)
{
    let e = escp(v);
    lemma_escp_plain(v); lemma_une_escp(v);
    reveal(vals);
    assert forall|s: Seq<u8>, p: int| #![trigger pv(s, p)] at(s, p, e) && pstop(s, p + e.len()) implies pv(s, p) == Some((v, false, (p + e.len() + 1) as int)) by {
        lemma_pend(s, p, v);
        if v.len() > 0 { lemma_at_byte(s, p, e, 0); assert(e[0] == escp1(v[0])[0]); }
        assert(!is_q(s, p));
        assert(s.subrange(p, p + e.len()) == e);
    }
}
/// a value that is quoted when it has to be
pub open spec fn quoted(v: Seq<u8>) -> bool { let e = escp(v); index_b(e, 59) < e.len() || index_b(e, 58) < e.len() }
pub proof fn lemma_index_none(s: Seq<u8>, b: u8)
    requires index_b(s, b) >= s.len()
    ensures without(s, b)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_index_none(t, b);
        assert(s[0] != b);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != b by { if i > 0 { assert(t[i - 1] == s[i]); } }
    }
}
pub proof fn lemma_val(v: Seq<u8>)
    requires texty(v), without(v, 34)
    ensures vals(quote_par(v), v, quoted(v))
{
    hide(index_b);
    lemma_escp(v);
    let e = escp(v);
    if quoted(v) { lemma_val_q(v); }
    else {
        lemma_index_none(e, 59); lemma_index_none(e, 58);
        lemma_escp_has(v, 59); lemma_escp_has(v, 58);
        if v.len() > 0 { assert(v[0] != 34); }
        lemma_val_p(v);
    }
}
/// a value that needs neither escapes nor quotes
pub open spec fn simple(v: Seq<u8>) -> bool { clear(v) && without(v, 58) && without(v, 59) && without(v, 34) }
pub proof fn lemma_clear(v: Seq<u8>)
    requires clear(v)
    ensures texty(v), escp(v) == v, esc_par(v) == v
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != 10 by { assert(!is_ctrl(v[i])); }
    assert forall|i: int| 0 <= i < v.len() implies !is_ctrl(#[trigger] v[i]) || v[i] == 10 by { assert(!is_ctrl(v[i])); }
    lemma_escp_id(v); lemma_escp(v);
}
pub proof fn lemma_val_s(v: Seq<u8>)
    requires simple(v)
    ensures vals(v, v, false)
{ lemma_clear(v); if v.len() > 0 { assert(v[0] != 34); } lemma_val_p(v); }

// ---------------------------------------------------------------- one parameter
/// the printed parameter `x`, wherever it stands, makes the parameters `b` of `a`
#[verifier::opaque]
pub open spec fn preads(x: Seq<u8>, u: Seq<u8>, a: Parameters, b: Parameters) -> bool {
    &&& x.len() > 1 && x[0] == 59 && unctl(x)
    &&& forall|s: Seq<u8>, q: int, strict: bool| #![trigger pars(s, q, strict, u, a)] wf(s) && at(s, q - 1, x) && pstop(s, q - 1 + x.len())
        ==> pars(s, q, strict, u, a) == (if s[q - 1 + x.len()] == 58 { Some((b, (q + x.len()) as int)) } else { pars(s, (q + x.len()) as int, strict, u, b) })
}
#[verifier::opaque]
pub open spec fn puts(u: Seq<u8>, t: Tok, n: Seq<u8>, v: Seq<u8>, qt: bool, a: Parameters, b: Parameters) -> bool { put_par(true, u, t, n, v, qt, a) == Some(b) && put_par(false, u, t, n, v, qt, a) == Some(b) }
pub proof fn lemma_pread(n: Seq<u8>, t: Tok, x: Seq<u8>, v: Seq<u8>, qt: bool, u: Seq<u8>, a: Parameters, b: Parameters)
    requires keyed(n, t), vals(x, v, qt), puts(u, t, n, v, qt, a, b)
    ensures preads(par(n, x), u, a, b)
{
    hide(put_par); hide(pars); hide(pv); hide(wf);
    R";"; R"=";
    reveal(keyed); reveal(vals); reveal(puts); reveal(preads);
    let y = par(n, x);
    lemma_unctl_cat(L"=", x); lemma_unctl_cat(n, L"=" + x); lemma_unctl_cat(L";", n + (L"=" + x));
    assert forall|s: Seq<u8>, q: int, strict: bool| #![trigger pars(s, q, strict, u, a)] wf(s) && at(s, q - 1, y) && pstop(s, q - 1 + y.len())
        implies pars(s, q, strict, u, a) == (if s[q - 1 + y.len()] == 58 { Some((b, (q + y.len()) as int)) } else { pars(s, (q + y.len()) as int, strict, u, b) }) by {
        lemma_at(s, q - 1, L";", n + (L"=" + x)); lemma_at(s, q, n, L"=" + x);
        let e = q + n.len();
        lemma_at(s, e, L"=", x); lemma_at_byte(s, e, L"=", 0);
        assert(tok_end(s, q) == e && tok(s, q) == t);
        assert(s.subrange(q, e) == n);
        assert(pv(s, e + 1) == Some((v, qt, (e + 1 + x.len() + 1) as int)));
        lemma_pars(s, q, strict, u, a);
    }
}
pub proof fn lemma_parq(n: Seq<u8>, x: Seq<u8>)
    ensures parq(n, x) == par(n, L"\\"" + (x + L"\\""))
{ R"=\\""; R"="; R"\\""; assert(L"=\\"" + (x + L"\\"") =~= L"=" + (L"\\"" + (x + L"\\""))); }
// ---------------------------------------------------------------- all parameters
pub open spec fn psteps(v: Seq<Seq<u8>>, u: Seq<u8>, a: Parameters, b: Parameters) -> bool decreases v.len() {
    if v.len() == 0 { a == b } else { exists|m: Parameters| #[trigger] preads(v[0], u, a, m) && psteps(v.drop_first(), u, m, b) }
}
pub proof fn lemma_psteps_cat(v: Seq<Seq<u8>>, w: Seq<Seq<u8>>, u: Seq<u8>, a: Parameters, b: Parameters, c: Parameters)
    requires psteps(v, u, a, b), psteps(w, u, b, c)
    ensures psteps(v + w, u, a, c)
    decreases v.len()
{
    if v.len() == 0 { assert(v + w =~= w); }
    else {
        let m = choose|m: Parameters| #[trigger] preads(v[0], u, a, m) && psteps(v.drop_first(), u, m, b);
        lemma_psteps_cat(v.drop_first(), w, u, m, b, c);
        assert((v + w).drop_first() =~= v.drop_first() + w);
        assert((v + w)[0] == v[0]);
        assert(preads((v + w)[0], u, a, m));
    }
}
pub proof fn lemma_cat_cat(v: Seq<Seq<u8>>, w: Seq<Seq<u8>>)
    ensures cat(v + w) == cat(v) + cat(w)
    decreases v.len()
{
    if v.len() == 0 { assert(v + w =~= w); assert(cat(v) + cat(w) =~= cat(w)); }
    else {
        lemma_cat_cat(v.drop_first(), w);
        assert((v + w).drop_first() =~= v.drop_first() + w);
        assert(v[0] + (cat(v.drop_first()) + cat(w)) =~= (v[0] + cat(v.drop_first())) + cat(w));
    }
}
/// the parameters printed as `t` make the parameters `b` of `a`
#[verifier::opaque]
pub open spec fn pdid(t: Seq<u8>, u: Seq<u8>, a: Parameters, b: Parameters) -> bool { exists|v: Seq<Seq<u8>>| #[trigger] cat(v) == t && psteps(v, u, a, b) }
pub proof fn lemma_pdid0(u: Seq<u8>, a: Parameters) ensures pdid(Seq::empty(), u, a, a) { reveal(pdid); let v = Seq::<Seq<u8>>::empty(); assert(cat(v) == Seq::<u8>::empty()); assert(psteps(v, u, a, a)); }
pub proof fn lemma_pdid1(x: Seq<u8>, u: Seq<u8>, a: Parameters, b: Parameters)
    requires preads(x, u, a, b)
    ensures pdid(x, u, a, b)
{
    reveal(pdid);
    let v = seq![x];
    assert(v.drop_first() =~= Seq::<Seq<u8>>::empty());
    assert(cat(v.drop_first()) == Seq::<u8>::empty());
    assert(cat(v) =~= x);
    assert(preads(v[0], u, a, b) && psteps(v.drop_first(), u, b, b));
}
pub proof fn lemma_pdid_cat(t: Seq<u8>, w: Seq<u8>, u: Seq<u8>, a: Parameters, b: Parameters, c: Parameters)
    requires pdid(t, u, a, b), pdid(w, u, b, c)
    ensures pdid(t + w, u, a, c)
{
    reveal(pdid);
    let x = choose|v: Seq<Seq<u8>>| #[trigger] cat(v) == t && psteps(v, u, a, b);
    let y = choose|v: Seq<Seq<u8>>| #[trigger] cat(v) == w && psteps(v, u, b, c);
    lemma_cat_cat(x, y); lemma_psteps_cat(x, y, u, a, b, c);
}
pub proof fn lemma_unctl_pars(v: Seq<Seq<u8>>, u: Seq<u8>, a: Parameters, b: Parameters)
    requires psteps(v, u, a, b)
    ensures unctl(cat(v)), v.len() > 0 ==> cat(v).len() > 0 && cat(v)[0] == 59
    decreases v.len()
{
    if v.len() > 0 {
        let m = choose|m: Parameters| #[trigger] preads(v[0], u, a, m) && psteps(v.drop_first(), u, m, b);
        reveal(preads);
        lemma_unctl_pars(v.drop_first(), u, m, b);
        lemma_unctl_cat(v[0], cat(v.drop_first()));
    }
}
pub proof fn lemma_pars_chain(s: Seq<u8>, q: int, strict: bool, v: Seq<Seq<u8>>, u: Seq<u8>, a: Parameters, b: Parameters)
    requires wf(s), v.len() > 0, psteps(v, u, a, b), at(s, q - 1, cat(v) + L":")
    ensures pars(s, q, strict, u, a) == Some((b, (q + cat(v).len()) as int))
    decreases v.len()
{
    hide(pars); hide(wf);
    R":";
    let m = choose|m: Parameters| #[trigger] preads(v[0], u, a, m) && psteps(v.drop_first(), u, m, b);
    let w = v.drop_first(); let x = v[0];
    assert(cat(v) + L":" =~= x + (cat(w) + L":"));
    lemma_at(s, q - 1, x, cat(w) + L":");
    let e = q - 1 + x.len();
    lemma_at_byte(s, e, cat(w) + L":", 0);
    lemma_unctl_pars(w, u, m, b);
    if w.len() > 0 { assert((cat(w) + L":")[0] == 59); } else { assert(cat(w) == Seq::<u8>::empty()); assert((cat(w) + L":")[0] == 58); }
    assert(pars(s, q, strict, u, a) == (if s[e] == 58 { Some((m, (q + x.len()) as int)) } else { pars(s, (q + x.len()) as int, strict, u, m) })) by { reveal(preads); }
    if w.len() > 0 { lemma_pars_chain(s, q + x.len(), strict, w, u, m, b); }
}
/// printed parameters are read back
pub proof fn lemma_par_back(p: Parameters, u: Seq<u8>)
    requires pdid(p.disp(), u, params0(), p), p.disp().len() > 0
    ensures par_back(Some(p), u)
{
    hide(pars); hide(wf); hide(params_t);
    reveal(pdid); reveal(par_back);
    let v = choose|v: Seq<Seq<u8>>| #[trigger] cat(v) == p.disp() && psteps(v, u, params0(), p);
    lemma_unctl_pars(v, u, params0(), p);
    if v.len() == 0 { assert(cat(v) == Seq::<u8>::empty()); }
    assert forall|s: Seq<u8>, q: int, strict: bool| wf(s) && at(s, q - 1, par_t(Some(p)) + L":") implies #[trigger] pars(s, q, strict, u, params0()) == Some((p, (q + par_t(Some(p)).len()) as int)) by { lemma_pars_chain(s, q, strict, v, u, params0(), p); }
}
''')
K="LANGUAGE VALUE PREF ALTID PID TYPE MEDIATYPE CALSCALE SORT-AS CHARSET LABEL ENCODING".split()
used=[k for k in K if k!='CHARSET']
w('pub proof fn lemma_keys()\n    ensures keys().len() == 12, '+', '.join(f'keys()[{i}] == L"{k}" && capital(L"{k}")' for i,k in enumerate(K) if k in used)+', tz_s() == L"TZ", geo_s() == L"GEO", tz_s() != geo_s(), capital(L"TZ"), capital(L"GEO")\n{ '+' '.join(f'R"{k}"; assert(keys()[{i}] =~= L"{k}");' for i,k in enumerate(K) if k in used)+' R"GEO"; assert(tz_s() =~= L"TZ"); assert(geo_s() =~= L"GEO"); assert(tz_s()[0] != geo_s()[0]); }')
w('''/// the tokens of the parameter names
pub open spec fn k_tok() -> Tok { Tok::Ok(Token::ParameterKey) }
pub proof fn lemma_key_toks()
    ensures '''+', '.join(f'keyed(L"{k}", k_tok())' for k in used)+''', keyed(L"TZ", Tok::Ok(Token::TimeZone)), keyed(L"GEO", Tok::Ok(Token::Geo))
{ hide(keys); lemma_keys(); '''+' '.join(f'lemma_keyed({i});' for i,k in enumerate(K) if k in used)+''' lemma_keyed_tz(tz_s()); lemma_keyed_tz(geo_s()); }
pub proof fn lemma_key_names()
    ensures '''+', '.join(f'upper(L"{k}") == L"{k}"' for k in used+['TZ','GEO'])+'''
{ hide(keys); lemma_keys(); '''+' '.join(f'lemma_capital(L"{k}");' for k in used+['TZ','GEO'])+''' }''')
# put lemmas and fields
def txt(v): return f'texty({v}) && without({v}, 34)'
P=[]
def field(f, T, fit, key, tok, x, v, qt, b, pre, val):
    """one optional parameter"""
    P.append((f))
    w(f'''/// {key}
pub open spec fn fit_p_{f}(p: Parameters, u: Seq<u8>) -> bool {{ p.{f} is Some ==> ({{ let t = p.{f}->0; {fit} }}) }}
pub proof fn lemma_p_{f}(p: Parameters, u: Seq<u8>, a: Parameters)
    requires fit_p_{f}(p, u), a.{f} is None
    ensures pdid(p_{f}(p), u, a, Parameters {{ {f}: p.{f}, ..a }})
{{
    if p.{f} is Some {{
        let t = p.{f}->0; let b = Parameters {{ {f}: p.{f}, ..a }};
{pre}
        assert(puts(u, {tok}, L"{key}", {v}, {qt}, a, b)) by {{ reveal(puts); lemma_key_names(); crate::lits::ax_codes(); {val} }}
        lemma_key_toks();
        lemma_pread(L"{key}", {tok}, {x}, {v}, {qt}, u, a, b);
        lemma_pdid1(p_{f}(p), u, a, b);
    }} else {{ assert(Parameters {{ {f}: p.{f}, ..a }} == a); lemma_pdid0(u, a); }}
}}''')
q=lambda e: f'L"\\"" + ({e} + L"\\"")'
for f,key in [('language','LANGUAGE'),('media_type','MEDIATYPE'),('calscale','CALSCALE')]:
    field(f,'',txt('t@'),key,'k_tok()','quote_par(t@)','t@','quoted(t@)','','        lemma_val(t@); ax_str_of(t);','')
for f,key,ex in [('alt_id','ALTID',''),('label','LABEL',' && u == L"ADR"')]:
    field(f,'',txt('t@')+ex,key,'k_tok()',q('escp(t@)'),'t@','true','','        lemma_val_q(t@); ax_str_of(t); lemma_escp(t@); lemma_parq(L"'+key+'", escp(t@));','')
w('''/// the words of VALUE
pub proof fn lemma_value_text(t: ValueType)
    ensures simple(t.disp()), value_of(t.disp()) == Some(t)
{
    crate::lits::ax_codes();
'''+''.join(f'    R"{x}";\n' for x in 'text uri date time date-time date-and-or-time timestamp boolean integer float utc-offset language-tag'.split())+'''    let d = t.disp();
    assert(small(d));
    lemma_small(d);
}
/// small letters and hyphens
pub open spec fn small(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 45 || 97 <= s[i] <= 122 }
pub proof fn lemma_small(s: Seq<u8>)
    requires small(s)
    ensures lower(s) == s, simple(s), without(s, 44)
{
    assert forall|i: int| 0 <= i < s.len() implies 45 <= #[trigger] s[i] < 127 && s[i] != 92 && s[i] != 58 && s[i] != 59 by { assert(s[i] == 45 || 97 <= s[i] <= 122); }
    crate::sh::ax_lower_ascii(s);
    assert(lower(s) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies lower(s)[i] == s[i] by { assert(s[i] == 45 || 97 <= s[i] <= 122); } }
}''')
field('value','','true','VALUE','k_tok()','t.disp()','t.disp()','false','','        lemma_value_text(t); lemma_val_s(t.disp());','')
w('''pub proof fn lemma_int_simple(n: int)
    ensures simple(int_text(n))
{ lemma_int_text(n); let t = int_text(n); crate::sh::ax_int(n); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 58 && t[i] != 59 && t[i] != 34 by { assert(0x30 <= t[i] <= 0x39 || t[i] == 45); } }''')
field('pref','','1 <= t <= 100','PREF','k_tok()','t.disp()','t.disp()','false','','        lemma_int_simple(t as int); lemma_int_text(t as int); lemma_val_s(t.disp());','')
w('''/// joined values
pub proof fn lemma_join_without(v: Seq<Seq<u8>>, d: Seq<u8>, b: u8)
    requires without(d, b), forall|i: int| 0 <= i < v.len() ==> without(#[trigger] v[i], b)
    ensures without(join_b(v, d), b)
    decreases v.len()
{
    if v.len() > 0 { assert(without(v[0], b)); }
    if v.len() > 1 {
        let w = v.drop_first();
        assert forall|i: int| 0 <= i < w.len() implies without(#[trigger] w[i], b) by { assert(without(v[i + 1], b)); }
        lemma_join_without(w, d, b);
        let x = join_b(v, d); let y = d + join_b(w, d);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != b by { if i < v[0].len() { assert(x[i] == v[0][i]); } else if i < v[0].len() + d.len() { assert(x[i] == d[i - v[0].len()]); } else { assert(x[i] == join_b(w, d)[i - v[0].len() - d.len()]); } }
    }
}
pub proof fn lemma_join_texty(v: Seq<Seq<u8>>, d: Seq<u8>)
    requires texty(d), forall|i: int| 0 <= i < v.len() ==> texty(#[trigger] v[i])
    ensures texty(join_b(v, d))
    decreases v.len()
{
    if v.len() > 0 { assert(texty(v[0])); }
    if v.len() > 1 {
        let w = v.drop_first();
        assert forall|i: int| 0 <= i < w.len() implies texty(#[trigger] w[i]) by { assert(texty(v[i + 1])); }
        lemma_join_texty(w, d);
        let x = join_b(v, d);
        assert forall|i: int| 0 <= i < x.len() implies !is_ctrl(#[trigger] x[i]) || x[i] == 10 by { if i < v[0].len() { assert(x[i] == v[0][i]); assert(!is_ctrl(v[0][i]) || v[0][i] == 10); } else if i < v[0].len() + d.len() { assert(x[i] == d[i - v[0].len()]); } else { let j = i - v[0].len() - d.len(); assert(x[i] == join_b(w, d)[j]); assert(!is_ctrl(join_b(w, d)[j]) || join_b(w, d)[j] == 10); } }
    }
}
/// text that can stand in a list
pub open spec fn item(s: Seq<u8>) -> bool { texty(s) && without(s, 34) && without(s, 44) }
pub proof fn lemma_items(v: Seq<Seq<u8>>)
    requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> item(#[trigger] v[i])
    ensures split_b(join_b(v, L","), 44) == v, texty(join_b(v, L",")), without(join_b(v, L","), 34)
{
    assert(L"," =~= seq![44u8]);
    assert forall|i: int| 0 <= i < v.len() implies texty(#[trigger] v[i]) && without(v[i], 34) && without(v[i], 44) by { assert(item(v[i])); }
    lemma_split_b_join(v, 44);
    lemma_join_texty(v, L","); lemma_join_without(v, L",", 34);
}
pub proof fn lemma_pid(t: Pid)
    ensures clear(t.disp()), without(t.disp(), 34), without(t.disp(), 44), without(t.disp(), 58), without(t.disp(), 59), pid_of(t.disp()) == Some(t)
{
    let l = int_text(t.local as int);
    lemma_int_text(t.local as int); lemma_int_simple(t.local as int);
    if t.source is Some {
        let x = int_text(t.source->0 as int); let d = t.disp();
        lemma_int_text(t.source->0 as int); lemma_int_simple(t.source->0 as int);
        assert(L"." =~= seq![46u8]);
        assert(d == l + (seq![46u8] + x));
        lemma_index_at(l, 46, x);
        assert(d.take(l.len() as int) =~= l); assert(d.skip((l.len() + 1) as int) =~= x);
        assert forall|i: int| 0 <= i < d.len() implies !is_ctrl(#[trigger] d[i]) && d[i] != 92 && d[i] != 34 && d[i] != 44 && d[i] != 58 && d[i] != 59 by { if i < l.len() { assert(d[i] == l[i]); assert(!is_ctrl(l[i])); } else if i > l.len() { assert(d[i] == x[i - l.len() - 1]); assert(!is_ctrl(x[i - l.len() - 1])); } }
    } else { lemma_index_at(l, 46, Seq::empty()); }
}
pub proof fn lemma_pid_list(v: Vec<Pid>)
    requires v@.len() > 0
    ensures simple(list_t(v@)), pids_of(list_t(v@)) == Some(v)
{
    let e = disps(v@); let t = list_t(v@);
    R",";
    assert forall|i: int| 0 <= i < e.len() implies clear(#[trigger] e[i]) && unctl(e[i]) && without(e[i], 92) && without(e[i], 34) && without(e[i], 44) && without(e[i], 58) && without(e[i], 59) && pid_of(e[i]) == Some(v@[i]) by { lemma_pid(v@[i]); }
    assert(L"," =~= seq![44u8]);
    lemma_split_b_join(e, 44);
    lemma_unctl_join(e, L",");
    lemma_join_without(e, L",", 92); lemma_join_without(e, L",", 34); lemma_join_without(e, L",", 58); lemma_join_without(e, L",", 59);
    lemma_pids(t, v);
}''')
field('pid','','t@.len() > 0','PID','k_tok()','list_t(t@)','list_t(t@)','false','','        lemma_pid_list(t); lemma_val_s(list_t(t@));','')
w('''/// a TYPE that is read back: a word, or an extension of letters, digits and the like
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub open spec fn fit_type(t: TypeParameter) -> bool { t is Extension ==> ascii(t->Extension_0@) && item(t->Extension_0@) }
pub proof fn lemma_tel_text(t: TelephoneType)
    ensures small(t.disp()), t.disp().len() > 1, t.disp()[1] != 45, t.disp() != L"home", t.disp() != L"work"
{ crate::lits::ax_codes(); '''+' '.join(f'R"{x}";' for x in 'text voice fax cell video pager textphone'.split())+''' }
pub proof fn lemma_rel_text(t: RelatedType)
    ensures small(t.disp()), t.disp().len() > 1, t.disp()[1] != 45, t.disp() != L"home", t.disp() != L"work", forall|x: TelephoneType| (#[trigger] x.disp()) != t.disp()
{ crate::lits::ax_codes(); '''+' '.join(f'R"{x}";' for x in 'contact acquaintance friend met co-worker colleague co-resident neighbor child parent sibling spouse kin muse crush date sweetheart agent emergency'.split())+''' }
pub proof fn lemma_type_text(t: TypeParameter)
    requires fit_type(t)
    ensures item(t.disp()), type_of(t.disp()) == t
{
    let d = t.disp();
    assert(type_is(d, t) && item(d)) by {
        match t {
            TypeParameter::Home => { R"home"; R"work"; crate::lits::ax_codes(); lemma_small(d); lemma_clear(d); }
            TypeParameter::Work => { R"home"; R"work"; crate::lits::ax_codes(); lemma_small(d); lemma_clear(d); }
            TypeParameter::Telephone(x) => { lemma_tel_text(x); lemma_small(d); lemma_clear(d); }
            TypeParameter::Related(x) => { lemma_rel_text(x); lemma_small(d); lemma_clear(d); }
            TypeParameter::Extension(x) => {
                R"X-"; R"home"; R"work";
                assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < 128 by { if i >= 2 { assert(d[i] == x@[i - 2]); assert(x@[i - 2] < 128); } }
                crate::sh::ax_lower_ascii(d);
                assert(lower(d)[1] == 45);
                assert(d.skip(2) =~= x@);
                assert forall|i: int| 0 <= i < d.len() implies (!is_ctrl(#[trigger] d[i]) || d[i] == 10) && d[i] != 34 && d[i] != 44 by { if i >= 2 { assert(d[i] == x@[i - 2]); assert(!is_ctrl(x@[i - 2]) || x@[i - 2] == 10); assert(x@[i - 2] != 34 && x@[i - 2] != 44); } }
            }
        }
    }
    lemma_type(d, t, type_of(d));
}
pub proof fn lemma_type_list(v: Vec<TypeParameter>)
    requires v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> fit_type(#[trigger] v@[i])
    ensures texty(list_t(v@)), without(list_t(v@), 34), vec_of(types_of(list_t(v@))) == v
{
    let e = disps(v@);
    assert forall|i: int| 0 <= i < e.len() implies item(#[trigger] e[i]) && type_of(e[i]) == v@[i] by { assert(fit_type(v@[i])); lemma_type_text(v@[i]); }
    lemma_items(e);
    assert(types_of(list_t(v@)) =~= v@);
    ax_vec_of(v);
}''')
field('types','','typed(u) && t@.len() > 0 && forall|i: int| 0 <= i < t@.len() ==> fit_type(#[trigger] t@[i])','TYPE','k_tok()','quote_par(list_t(t@))','list_t(t@)','quoted(list_t(t@))','','        lemma_type_list(t); lemma_val(list_t(t@));','')
w('''pub open spec fn items_ok(v: Seq<String>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> item((#[trigger] v[i])@) }
pub proof fn lemma_str_list(v: Vec<String>)
    requires items_ok(v@)
    ensures texty(list_t(v@)), without(list_t(v@), 34), strs_of(split_b(list_t(v@), 44)) == v
{
    let e = disps(v@);
    assert forall|i: int| 0 <= i < e.len() implies item(#[trigger] e[i]) by { assert(item(v@[i]@)); }
    lemma_items(e);
    assert(e =~= sviews(v@));
    ax_strs_of(v);
}''')
field('sort_as','','items_ok(t@)','SORT-AS','k_tok()',q('escp(list_t(t@))'),'list_t(t@)','true','','        lemma_str_list(t); lemma_val_q(list_t(t@)); lemma_escp(list_t(t@)); lemma_parq(L"SORT-AS", escp(list_t(t@)));','')
w('''pub open spec fn fit_pu(u: Uri) -> bool { fit_u(u) && without(u.disp(), 34) }
pub proof fn lemma_val_u(t: Uri)
    requires fit_pu(t)
    ensures vals(L"\\"" + (t.disp() + L"\\""), t.disp(), true), uri_of(t.disp()) == Some(t)
{ lemma_fit_u(t); lemma_dec_id(t.disp()); lemma_clear(t.disp()); lemma_val_q(t.disp()); }''')
field('geo','','fit_pu(t)','GEO','Tok::Ok(Token::Geo)',q('t.disp()'),'t.disp()','true','','        lemma_val_u(t); lemma_parq(L"GEO", t.disp());','')
P.append('timezone')
w('''/// TZ: text that is neither an offset nor needs quotes; an offset is read back when its text is (C11)
pub open spec fn fit_p_timezone(p: Parameters, u: Seq<u8>) -> bool {
    p.timezone is Some ==> match p.timezone->0 {
        TimeZoneParameter::Text(t) => texty(t@) && without(t@, 58) && without(t@, 59) && (t@.len() > 0 ==> t@[0] != 34) && off_of(t@) is None,
        TimeZoneParameter::UtcOffset(t) => simple(off_t(t)) && off_of(off_t(t)) == Some(t),
        TimeZoneParameter::Uri(t) => fit_pu(t),
    }
}
pub proof fn lemma_p_timezone(p: Parameters, u: Seq<u8>, a: Parameters)
    requires fit_p_timezone(p, u), a.timezone is None
    ensures pdid(p_timezone(p), u, a, Parameters { timezone: p.timezone, ..a })
{
    let b = Parameters { timezone: p.timezone, ..a };
    let k = Tok::Ok(Token::TimeZone);
    lemma_key_toks();
    if p.timezone is Some {
        match p.timezone->0 {
            TimeZoneParameter::Text(t) => {
                lemma_val_p(t@); ax_str_of(t); lemma_escp(t@);
                assert(puts(u, k, L"TZ", t@, false, a, b)) by { reveal(puts); lemma_key_names(); crate::lits::ax_codes(); }
                lemma_pread(L"TZ", k, escp(t@), t@, false, u, a, b);
            }
            TimeZoneParameter::UtcOffset(t) => {
                lemma_val_s(off_t(t));
                assert(puts(u, k, L"TZ", off_t(t), false, a, b)) by { reveal(puts); lemma_key_names(); crate::lits::ax_codes(); }
                lemma_pread(L"TZ", k, off_t(t), off_t(t), false, u, a, b);
            }
            TimeZoneParameter::Uri(t) => {
                lemma_val_u(t); lemma_parq(L"TZ", t.disp());
                assert(puts(u, k, L"TZ", t.disp(), true, a, b)) by { reveal(puts); lemma_key_names(); crate::lits::ax_codes(); }
                lemma_pread(L"TZ", k, L"\\"" + (t.disp() + L"\\""), t.disp(), true, u, a, b);
            }
        }
        lemma_pdid1(p_timezone(p), u, a, b);
    } else { assert(b == a); lemma_pdid0(u, a); }
}
/// extension parameters and ENCODING
pub open spec fn fit_x(x: (String, Vec<String>)) -> bool { (x_name(x.0@) || x.0@ == L"ENCODING") && items_ok(x.1@) }
pub open spec fn fit_p_extensions(p: Parameters, u: Seq<u8>) -> bool { p.extensions is Some ==> p.extensions->0@.len() > 0 && forall|i: int| 0 <= i < p.extensions->0@.len() ==> fit_x(#[trigger] p.extensions->0@[i]) }
/// the first `k` of them
pub open spec fn exts_k(v: Vec<(String, Vec<String>)>, k: int) -> Option<Vec<(String, Vec<String>)>> { if k <= 0 { None } else { Some(vec_of(v@.take(k))) } }
pub proof fn lemma_x1(v: Vec<(String, Vec<String>)>, u: Seq<u8>, a: Parameters, k: int)
    requires 0 < k <= v@.len(), fit_x(v@[k - 1])
    ensures pdid(parq(v@[k - 1].0@, esc_par(list_t(v@[k - 1].1@))), u, Parameters { extensions: exts_k(v, k - 1), ..a }, Parameters { extensions: exts_k(v, k), ..a })
{
    let x = v@[k - 1]; let n = x.0@; let l = list_t(x.1@);
    let t = if x_name(n) { Tok::Ok(Token::ExtensionName) } else { k_tok() };
    let b = Parameters { extensions: exts_k(v, k - 1), ..a }; let c = Parameters { extensions: exts_k(v, k), ..a };
    lemma_str_list(x.1); lemma_val_q(l); lemma_escp(l); lemma_parq(n, escp(l));
    ax_str_of(x.0);
    if k > 1 { ax_vec_front(v, k - 1); }
    assert(v@.take(k - 1).push(x) =~= v@.take(k));
    assert(k == 1 ==> v@.take(k - 1) =~= Seq::empty());
    assert(add_ext(n, l, b) == c);
    assert(puts(u, t, n, l, true, b, c)) by { reveal(puts); if !x_name(n) { lemma_key_names(); crate::lits::ax_codes(); } }
    assert(keyed(n, t)) by { if x_name(n) { lemma_keyed_x(n); } else { lemma_key_toks(); } }
    lemma_pread(n, t, L"\\"" + (escp(l) + L"\\""), l, true, u, b, c);
    lemma_pdid1(parq(n, esc_par(l)), u, b, c);
}
pub proof fn lemma_xs(v: Vec<(String, Vec<String>)>, u: Seq<u8>, a: Parameters, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> fit_x(#[trigger] v@[i]), a.extensions is None
    ensures pdid(exts_t(v@, k), u, a, Parameters { extensions: exts_k(v, k), ..a })
    decreases k
{
    if k <= 0 { lemma_pdid0(u, a); assert(Parameters { extensions: exts_k(v, k), ..a } == a); }
    else {
        lemma_xs(v, u, a, k - 1);
        assert(fit_x(v@[k - 1]));
        lemma_x1(v, u, a, k);
        lemma_pdid_cat(exts_t(v@, k - 1), parq(v@[k - 1].0@, esc_par(list_t(v@[k - 1].1@))), u, a, Parameters { extensions: exts_k(v, k - 1), ..a }, Parameters { extensions: exts_k(v, k), ..a });
    }
}
pub proof fn lemma_p_extensions(p: Parameters, u: Seq<u8>, a: Parameters)
    requires fit_p_extensions(p, u), a.extensions is None
    ensures pdid(p_extensions(p), u, a, Parameters { extensions: p.extensions, ..a })
{
    if p.extensions is Some {
        let v = p.extensions->0;
        lemma_xs(v, u, a, v@.len() as int);
        assert(v@.take(v@.len() as int) =~= v@);
        ax_vec_of(v);
    } else { lemma_pdid0(u, a); assert(Parameters { extensions: p.extensions, ..a } == a); }
}''')
O="language value pref alt_id pid types media_type calscale sort_as geo timezone label extensions".split()
w('/// parameters, at least one of them, that the property `u` can have and that can be written\npub open spec fn fit_params(p: Parameters, u: Seq<u8>) -> bool {\n    &&& p.disp().len() > 0\n'+'\n'.join(f'    &&& fit_p_{f}(p, u)' for f in O)+'\n}')
b=['    let a0 = params0(); let t0 = Seq::<u8>::empty(); lemma_pdid0(u, a0);']
for j,f in enumerate(O):
    b.append(f'    let a{j+1} = Parameters {{ {f}: p.{f}, ..a{j} }}; lemma_p_{f}(p, u, a{j}); lemma_pdid_cat(t{j}, p_{f}(p), u, a0, a{j}, a{j+1}); let t{j+1} = t{j} + p_{f}(p);')
b.append(f'    assert(a{len(O)} == p);')
b.append('    lemma_params(t0, p); assert(t0 + params_t(p) =~= params_t(p));')
w('/// parameters are printed and read back\npub proof fn lemma_fit_params(p: Parameters, u: Seq<u8>)\n    requires fit_params(p, u)\n    ensures par_back(Some(p), u)\n{\n'+'\n'.join(b)+'\n    lemma_par_back(p, u);\n}')
w('}')
open(__file__.rsplit('/',2)[0]+'/contracts/spec_s2.rs','w').write('\n'.join(o)+'\n')
