/// what is printed is read back
pub mod spec_r {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::sh::{wf, boundary, upper, String};

// ---------------------------------------------------------------- C01: escaped text
/// undoing the escapes gives back the escaped text
pub proof fn lemma_dec_esc(s: Seq<u8>, semi: bool)
    ensures dec(esc(s, semi)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); let e = esc(s, semi); let r = esc(t, semi);
        lemma_dec_esc(t, semi);
        assert(esc1(s[0], semi).len() == 2 ==> e.skip(2) =~= r);
        assert(esc1(s[0], semi).len() == 1 ==> e.drop_first() =~= r);
        assert(dec(e) =~= seq![s[0]] + t);
        assert(seq![s[0]] + t =~= s);
    } else { assert(dec(esc(s, semi)) =~= s); }
}
/// text without ASCII control characters, newline and tab excepted
pub open spec fn texty(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ctrl(#[trigger] s[i]) || s[i] == 10 }
/// escaping leaves no control character
pub proof fn lemma_esc_plain(s: Seq<u8>, semi: bool)
    requires texty(s)
    ensures forall|i: int| 0 <= i < esc(s, semi).len() ==> !is_ctrl(#[trigger] esc(s, semi)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); let a = esc1(s[0], semi); let e = esc(s, semi);
        assert forall|i: int| 0 <= i < t.len() implies !is_ctrl(#[trigger] t[i]) || t[i] == 10 by { assert(t[i] == s[i + 1]); }
        lemma_esc_plain(t, semi);
        assert forall|i: int| 0 <= i < e.len() implies !is_ctrl(#[trigger] e[i]) by { if i >= a.len() { assert(e[i] == esc(t, semi)[i - a.len()]); } else { assert(e[i] == a[i]); assert(!is_ctrl(s[0]) || s[0] == 10); } }
    }
}
/// a value ends at the first line break
pub proof fn lemma_vend_at(x: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q < x.len(), nl_at(x, q), forall|i: int| p <= i < q ==> !is_ctrl(#[trigger] x[i])
    ensures vend(x, p) == q
    decreases q - p
{ if p < q { assert(!is_ctrl(x[p])); lemma_vend_at(x, p + 1, q); } }
/// a text value, printed and followed by a line break, is read back
pub proof fn lemma_text_value(x: Seq<u8>, p: int, v: Seq<u8>, semi: bool)
    requires texty(v), 0 <= p, p + esc(v, semi).len() < x.len(), x.subrange(p, p + esc(v, semi).len()) == esc(v, semi), nl_at(x, p + esc(v, semi).len())
    ensures vend(x, p) == p + esc(v, semi).len(), dec(x.subrange(p, vend(x, p))) == v
{
    let e = esc(v, semi);
    lemma_esc_plain(v, semi); lemma_dec_esc(v, semi);
    assert forall|i: int| p <= i < p + e.len() implies !is_ctrl(#[trigger] x[i]) by { assert(x[i] == x.subrange(p, p + e.len())[i - p]); assert(!is_ctrl(e[i - p])); }
    lemma_vend_at(x, p, p + e.len());
}

// ---------------------------------------------------------------- C12: components
pub open spec fn escq(v: Seq<Seq<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| esc(v[i], true)) }
/// one component, up to its delimiter or the end of the value
pub proof fn lemma_split_one(s: Seq<u8>, r: Seq<u8>, d: u8, limit: int)
    requires d == 44 || d == 59, r.len() == 0 || (r[0] == d && limit > 1)
    ensures split_dec(esc(s, true) + r, d, limit) =~= if r.len() == 0 { seq![s] } else { seq![s] + split_dec(r.drop_first(), d, limit - 1) }
    decreases s.len()
{
    let x = esc(s, true) + r;
    lemma_split_len(r, d, limit);
    if s.len() == 0 {
        assert(x =~= r);
        assert(s =~= Seq::<u8>::empty());
    } else {
        let t = s.drop_first(); let a = esc1(s[0], true); let y = esc(t, true) + r;
        lemma_split_one(t, r, d, limit);
        assert(x =~= a + y);
        assert(seq![s[0]] + t =~= s);
        if a.len() == 2 { assert(x.skip(2) =~= y); } else { assert(x.drop_first() =~= y); }
        let w = split_dec(y, d, limit);
        assert(split_dec(x, d, limit) == pre1(seq![s[0]], w));
        assert(w[0] == t);
    }
}
/// printed components are read back, whatever they contain
pub proof fn lemma_split_join(v: Seq<Seq<u8>>, d: u8, limit: int)
    requires d == 44 || d == 59, 1 <= v.len() <= limit
    ensures split_dec(join_b(escq(v), seq![d]), d, limit) =~= v
    decreases v.len()
{
    let e = escq(v);
    if v.len() == 1 {
        lemma_split_one(v[0], Seq::empty(), d, limit);
        assert(esc(v[0], true) + Seq::<u8>::empty() =~= esc(v[0], true));
    } else {
        let w = v.drop_first();
        lemma_split_join(w, d, limit - 1);
        assert(e.drop_first() =~= escq(w));
        let r = seq![d] + join_b(escq(w), seq![d]);
        lemma_split_one(v[0], r, d, limit);
        assert(r.drop_first() =~= join_b(escq(w), seq![d]));
        assert(seq![v[0]] + w =~= v);
    }
}

// ---------------------------------------------------------------- C11, C09: plain lists
pub open spec fn without(s: Seq<u8>, b: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != b }
pub proof fn lemma_split1(s: Seq<u8>, r: Seq<u8>, b: u8)
    requires without(s, b), r.len() == 0 || r[0] == b
    ensures split_b(s + r, b) =~= if r.len() == 0 { seq![s] } else { seq![s] + split_b(r.drop_first(), b) }
    decreases s.len()
{
    let x = s + r;
    if s.len() == 0 { assert(x =~= r); assert(s =~= Seq::<u8>::empty()); }
    else {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != b by { assert(t[i] == s[i + 1]); }
        lemma_split1(t, r, b);
        assert(x.drop_first() =~= t + r);
        assert(seq![s[0]] + t =~= s);
        assert(x[0] == s[0] && s[0] != b);
    }
}
/// a list joined with a delimiter that none of its items contains is split into the same items
pub proof fn lemma_split_b_join(v: Seq<Seq<u8>>, b: u8)
    requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> without(#[trigger] v[i], b)
    ensures split_b(join_b(v, seq![b]), b) =~= v
    decreases v.len()
{
    assert(without(v[0], b));
    if v.len() == 1 { lemma_split1(v[0], Seq::empty(), b); assert(v[0] + Seq::<u8>::empty() =~= v[0]); }
    else {
        let w = v.drop_first(); let r = seq![b] + join_b(w, seq![b]);
        assert forall|i: int| 0 <= i < w.len() implies without(#[trigger] w[i], b) by { assert(w[i] == v[i + 1]); }
        lemma_split_b_join(w, b);
        lemma_split1(v[0], r, b);
        assert(r.drop_first() =~= join_b(w, seq![b]));
        assert(seq![v[0]] + w =~= v);
    }
}

// ---------------------------------------------------------------- C09: parameter values
/// the escape of one byte of a parameter value
pub open spec fn escp1(b: u8) -> Seq<u8> { if b == 92 { seq![92u8, 92u8] } else if b == 10 { seq![92u8, 110u8] } else { seq![b] } }
pub open spec fn escp(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { escp1(s[0]) + escp(s.drop_first()) } }
pub proof fn lemma_replace_cat(a: Seq<u8>, c: Seq<u8>, b: u8, w: Seq<u8>)
    ensures replace_b(a + c, b, w) == replace_b(a, b, w) + replace_b(c, b, w)
    decreases a.len()
{
    if a.len() == 0 { assert(a + c =~= c); assert(replace_b(a, b, w) + replace_b(c, b, w) =~= replace_b(c, b, w)); }
    else {
        lemma_replace_cat(a.drop_first(), c, b, w);
        assert((a + c).drop_first() =~= a.drop_first() + c);
        let h = if a[0] == b { w } else { seq![a[0]] };
        assert(h + (replace_b(a.drop_first(), b, w) + replace_b(c, b, w)) =~= (h + replace_b(a.drop_first(), b, w)) + replace_b(c, b, w));
    }
}
/// the two replacements of `escape_parameter` are one pass
pub proof fn lemma_escp(s: Seq<u8>)
    ensures esc_par(s) == escp(s)
    decreases s.len()
{
    R"\\"; R"\n"; R"\\\\"; R"\\n";
    let a = L"\\\\"; let n = L"\\n";
    if s.len() > 0 {
        let t = s.drop_first(); lemma_escp(t);
        let h = if s[0] == 92 { a } else { seq![s[0]] };
        lemma_replace_cat(h, replace_b(t, 92, a), 10, n);
        let e = Seq::<u8>::empty();
        if s[0] == 92 {
            assert(a =~= seq![92u8, 92u8]);
            assert(a.drop_first() =~= seq![92u8]); assert(a.drop_first().drop_first() =~= e);
            assert(replace_b(e, 10, n) =~= e);
            assert(replace_b(seq![92u8], 10, n) =~= seq![92u8]) by { assert(seq![92u8].drop_first() =~= e); }
            assert(replace_b(a, 10, n) =~= a);
        } else {
            assert(h.drop_first() =~= e); assert(replace_b(e, 10, n) =~= e);
            assert(replace_b(h, 10, n) =~= if s[0] == 10 { n } else { h });
            assert(n =~= seq![92u8, 110u8]);
        }
    } else { assert(esc_par(s) =~= escp(s)); }
}
pub proof fn lemma_une_escp(s: Seq<u8>)
    ensures une(escp(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); let e = escp(s); let r = escp(t);
        lemma_une_escp(t);
        assert(escp1(s[0]).len() == 2 ==> e.skip(2) =~= r);
        assert(escp1(s[0]).len() == 1 ==> e.drop_first() =~= r);
        assert(une(e) =~= seq![s[0]] + t);
        assert(seq![s[0]] + t =~= s);
    } else { assert(une(escp(s)) =~= s); }
}
}
