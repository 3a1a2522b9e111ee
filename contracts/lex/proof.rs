/// the lexer: what the parser relies on
pub mod lexproof {
use ::vstd::prelude::*;
use crate::sh::*;
use crate::lexer::*;

pub open spec fn tok(s: Seq<u8>, p: int) -> Tok { token(go(s, root(), p).0) }
pub open spec fn tok_end(s: Seq<u8>, p: int) -> int { go(s, root(), p).1 }
//@shared

// ---------------------------------------------------------------- what the checks mean
pub open spec fn calm_r(s: Seq<u8>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> calm(#[trigger] s[j]) }
pub open spec fn no58(s: Seq<u8>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> #[trigger] s[j] != 58 }
pub open spec fn flag(s: Seq<u8>, a: int, b: int, c: int) -> bool { (c == 0 && no58(s, a, b)) || (c == 1 && exists|j: int| a <= j < b && #[trigger] s[j] == 58) }
/// between states
#[verifier::opaque]
pub open spec fn inv(s: Seq<u8>, p: int, q: int, e: int) -> bool {
    let t = st(q);
    &&& 0 <= q < nst() && ck(q)
    &&& 0 <= p <= e && p < s.len() && p + 1 <= e + t.k + (if t.lab == 101 { 1int } else { 0 }) && (p < e || t.z == 1) && e + t.k <= s.len() && s[p] != 58
    &&& at8(s, e, t.me) && (t.lab < 0 ==> at8(s, e + t.k, t.mk))
    &&& calm_r(s, p, e + t.k)
    &&& flag(s, p, e, t.ce) && (t.lab < 0 ==> flag(s, e, e + t.k, t.ck))
    &&& t.lab == 101 ==> e < s.len() && calm(s[e]) && s[e] != 58
}
pub open spec fn post(s: Seq<u8>, p: int, r: (int, int)) -> bool {
    &&& 0 <= r.0 <= 101 && plain_n(r.0) && p < r.1 <= s.len() && boundary(s, r.1) && calm_r(s, p, r.1)
    &&& flag(s, p, r.1, if special_n(r.0) { 1 } else { 0 })
}

// ---------------------------------------------------------------- ranges of checks
pub proof fn lemma_ckr(lo: int, hi: int, q: int)
    requires ckr(lo, hi), lo <= q < hi
    ensures aside(q) || ck(q)
    decreases hi - lo
{
    if hi - lo > 1 { if q < (lo + hi) / 2 { lemma_ckr(lo, (lo + hi) / 2, q); } else { lemma_ckr((lo + hi) / 2, hi, q); } }
}
pub proof fn lemma_rootck(lo: int, hi: int, b: int)
    requires rootck(lo, hi), lo <= b < hi
    ensures root1(b)
    decreases hi - lo
{
    if hi - lo > 1 { if b < (lo + hi) / 2 { lemma_rootck(lo, (lo + hi) / 2, b); } else { lemma_rootck((lo + hi) / 2, hi, b); } }
}
pub proof fn lemma_crck(q: int, lo: int, hi: int, b: int)
    requires crck(q, lo, hi), lo <= b < hi
    ensures cr1(q, b)
    decreases hi - lo
{
    if hi - lo > 1 { if b < (lo + hi) / 2 { lemma_crck(q, lo, (lo + hi) / 2, b); } else { lemma_crck(q, (lo + hi) / 2, hi, b); } }
}
pub proof fn lemma_bsck(q: int, lo: int, hi: int, b: int)
    requires bsck(q, lo, hi), lo <= b < hi
    ensures bs1(q, b)
    decreases hi - lo
{
    if hi - lo > 1 { if b < (lo + hi) / 2 { lemma_bsck(q, lo, (lo + hi) / 2, b); } else { lemma_bsck(q, (lo + hi) / 2, hi, b); } }
}
// ---------------------------------------------------------------- sets
pub proof fn lemma_within(r: Seq<(int, int)>, i: int, lo: int, hi: int, b: int)
    requires within(r, i, lo, hi), inset(r, i, b)
    ensures lo <= b <= hi
    decreases r.len() - i
{
    if 0 <= i < r.len() && !(r[i].0 <= b && b <= r[i].1) { lemma_within(r, i + 1, lo, hi, b); }
}
pub proof fn lemma_avoids(r: Seq<(int, int)>, i: int, lo: int, hi: int, b: int)
    requires avoids(r, i, lo, hi), inset(r, i, b)
    ensures b < lo || hi < b
    decreases r.len() - i
{
    if 0 <= i < r.len() && !(r[i].0 <= b && b <= r[i].1) { lemma_avoids(r, i + 1, lo, hi, b); }
}
pub proof fn lemma_setcalm(r: Seq<(int, int)>, b: u8)
    requires setcalm(r), inset(r, 0, b as int)
    ensures calm(b)
{
    lemma_avoids(r, 0, 0, 8, b as int); lemma_avoids(r, 0, 10, 31, b as int); lemma_avoids(r, 0, 127, 127, b as int);
    lemma_avoids(r, 0, 92, 92, b as int); lemma_avoids(r, 0, 59, 59, b as int); lemma_avoids(r, 0, 34, 34, b as int);
}
/// the byte at `i` of well-formed text
pub proof fn lemma_at8(s: Seq<u8>, i: int)
    requires wf(s), 0 <= i < s.len(), boundary(s, i)
    ensures !is_cont(s[i]), s[i] < 248, at8(s, i + 1, if s[i] < 128 { 0 } else if s[i] < 224 { 1 } else if s[i] < 240 { 2 } else { 3 })
{
    assert(!is_cont(s[i]));
    reveal(utf8);
}
pub proof fn lemma_mstep(s: Seq<u8>, a: int, r: Seq<(int, int)>, m: int)
    requires wf(s), 0 <= a < s.len(), at8(s, a, m), inset(r, 0, s[a] as int), mstep(m, r) <= 3
    ensures at8(s, a + 1, mstep(m, r))
{
    let b = s[a] as int;
    if m > 0 { lemma_within(r, 0, 128, 191, b); assert(is_cont(s[a])); }
    else {
        lemma_at8(s, a);
        if within(r, 0, 0, 127) { lemma_within(r, 0, 0, 127, b); }
        else if within(r, 0, 192, 223) { lemma_within(r, 0, 192, 223, b); }
        else if within(r, 0, 224, 239) { lemma_within(r, 0, 224, 239, b); }
        else { lemma_within(r, 0, 240, 247, b); }
    }
}
pub proof fn lemma_hit(s: Seq<u8>, a: int, pt: Seq<Seq<(int, int)>>, i: int, e: int, m: int, c: int)
    requires wf(s), 0 <= i <= pt.len(), 0 <= e <= a, a + pt.len() - i <= s.len(), at8(s, a, m), hit(pt, i, s, a), calms(pt, i),
        mfold(pt, i, m) <= 3, cfold(pt, i, c) <= 1, flag(s, e, a, c)
    ensures ({ let b = a + pt.len() - i; at8(s, b, mfold(pt, i, m)) && calm_r(s, a, b) && flag(s, e, b, cfold(pt, i, c)) })
    decreases pt.len() - i
{
    if i < pt.len() {
        let r = pt[i];
        lemma_mstep(s, a, r, m);
        lemma_setcalm(r, s[a]);
        let c2 = cstep(c, r);
        if avoids(r, 0, 58, 58) { lemma_avoids(r, 0, 58, 58, s[a] as int); assert(s[a] != 58); assert(flag(s, e, a + 1, c2)); }
        else { assert(r.len() == 1 && r[0] == (58int, 58int)); assert(inset(r, 1, s[a] as int) == false); assert(s[a] == 58); assert(flag(s, e, a + 1, c2)); }
        lemma_hit(s, a + 1, pt, i + 1, e, mstep(m, r), c2);
    }
}
pub proof fn lemma_pick(ed: Seq<Ed>, i: int, s: Seq<u8>, a: int)
    requires 0 <= i
    ensures pick(ed, i, s, a) >= 0 ==> i <= pick(ed, i, s, a) < ed.len() && hit(pat(ed[pick(ed, i, s, a)].p), 0, s, a)
    decreases ed.len() - i
{
    if i < ed.len() && !hit(pat(ed[i].p), 0, s, a) { lemma_pick(ed, i + 1, s, a); }
}
pub proof fn lemma_ecks(t: St, q: int, i: int, j: int)
    requires ecks(t, q, i), 0 <= i <= j < t.ed.len()
    ensures eck(t, q, t.ed[j])
    decreases j - i
{
    if i < j { lemma_ecks(t, q, i + 1, j); }
}
pub proof fn lemma_fb(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= fb(s, i) <= s.len(), boundary(s, fb(s, i)), forall|j: int| i <= j < fb(s, i) ==> is_cont(#[trigger] s[j])
    decreases s.len() - i
{
    if i < s.len() && !boundary(s, i) { lemma_fb(s, i + 1); }
}
pub proof fn lemma_flag_join(s: Seq<u8>, a: int, b: int, c: int, x: int, y: int)
    requires a <= b <= c, flag(s, a, b, x), flag(s, b, c, y)
    ensures flag(s, a, c, if x == 1 { 1 } else { y })
{
}
pub proof fn lemma_step(s: Seq<u8>, p: int, q: int, e: int)
    requires wf(s), inv(s, p, q, e), st(q).lab < 0, ckr(0, nst())
    ensures ({ let (to, b) = step(s, q, e); inv(s, p, to, e + b) && ((b == 0 && q < to && to < nst()) || (b > 0 && e + b <= s.len())) })
{
    reveal(inv);
    let t = st(q);
    let (to, b) = step(s, q, e);
    lemma_ckr(0, nst(), t.none);
    lemma_ckr(0, nst(), t.dflt);
    if e + t.k + t.need <= s.len() {
        lemma_pick(t.ed, 0, s, e + t.k);
        let j = pick(t.ed, 0, s, e + t.k);
        if j >= 0 {
            let d = t.ed[j];
            lemma_ecks(t, q, 0, j);
            lemma_ckr(0, nst(), d.to);
            lemma_hit(s, e + t.k, pat(d.p), 0, e, t.mk, t.ck);
            if b > 0 { lemma_flag_join(s, p, e, e + b, t.ce, pc(d.p, t.ck)); }
        }
    }
}
pub proof fn lemma_go(s: Seq<u8>, p: int, q: int, e: int)
    requires wf(s), inv(s, p, q, e), ckr(0, nst())
    ensures post(s, p, go(s, q, e))
    decreases s.len() - e, nst() - q
{
    let t = st(q);
    if t.lab < 0 {
        lemma_step(s, p, q, e);
        let (to, b) = step(s, q, e);
        assert(0 <= q < nst() && e <= s.len()) by { reveal(inv); }
        lemma_go(s, p, to, e + b);
    } else {
        reveal(inv);
        if t.lab == 100 { lemma_fb(s, e); }
        if t.lab == 101 { lemma_fb(s, e + 1); }
    }
}
pub proof fn lemma_pick1(ed: Seq<Ed>, i: int, s: Seq<u8>, a: int)
    requires 0 <= i, 0 <= a < s.len(), pick1(ed, i, s[a] as int) != -2
    ensures pick(ed, i, s, a) == pick1(ed, i, s[a] as int)
    decreases ed.len() - i
{
    if i < ed.len() {
        let r = pat(ed[i].p);
        assert(hit(r, 1, s, a + 1));
        assert(hit(r, 0, s, a) == inset(r[0], 0, s[a] as int));
        if !hit(r, 0, s, a) { lemma_pick1(ed, i + 1, s, a); }
    }
}
pub proof fn lemma_one(s: Seq<u8>, q: int, e: int)
    requires one(q), 0 <= e < s.len(), to1(q, s[e] as int).0 >= 0
    ensures step(s, q, e) == to1(q, s[e] as int)
{
    if pick1(st(q).ed, 0, s[e] as int) != -2 { lemma_pick1(st(q).ed, 0, s, e); }
}
/// a byte after which the token is known
pub proof fn lemma_sets(s: Seq<u8>, q: int, e: int, lab: int, n: int)
    requires one(q), 0 <= e < s.len(), 0 <= q < nst(), sets(q, s[e] as int, lab, n), 0 <= lab < 100, 0 <= n <= 1
    ensures go(s, q, e) == (lab, e + n)
{
    lemma_one(s, q, e);
    let x = to1(q, s[e] as int);
    assert(go(s, x.0, e + n) == (lab, e + n));
}
/// what follows a carriage return or a backslash
pub proof fn lemma_miss(s: Seq<u8>, q: int, lab: int)
    requires two(q, lab), 0 <= lab < 100
    ensures go(s, q, s.len() as int) == (lab, s.len() as int)
{
    let t = st(q);
    assert(step(s, q, s.len() as int) == (t.none, 0int));
    assert(go(s, t.none, s.len() as int) == (lab, s.len() as int));
}
pub proof fn lemma_mstep1(b: int)
    requires 0 <= b < 248, !(128 <= b && b < 192)
    ensures mstep(0, seq![(b, b)]) == (if b < 128 { 0int } else if b < 224 { 1 } else if b < 240 { 2 } else { 3 })
{
    let r = seq![(b, b)];
    assert(within(r, 1, 0, 127) && within(r, 1, 192, 223) && within(r, 1, 224, 239) && within(r, 1, 240, 247));
    assert(r[0] == (b, b));
}
pub proof fn ax_tok(s: Seq<u8>, p: int)
    requires wf(s), 0 <= p < s.len(), boundary(s, p)
    ensures facts(s, p)
{
    lemma_first(); lemma_states();
    lemma_at8(s, p);
    let b = s[p] as int;
    lemma_rootck(0, 248, b);
    lemma_one(s, root(), p);
    let x = to1(root(), b);
    if b == 10 { lemma_sets(s, root(), p, n_NewLine(), 1); }
    else if b == 13 {
        assert(go(s, root(), p) == go(s, x.0, p + 1));
        if p + 1 < s.len() {
            let c = s[p + 1] as int;
            lemma_crck(x.0, 0, 256, c);
            if c == 10 { lemma_sets(s, x.0, p + 1, n_NewLine(), 1); } else { lemma_sets(s, x.0, p + 1, n_Control(), 0); }
        } else { lemma_miss(s, x.0, n_Control()); }
    }
    else if b == 92 {
        assert(go(s, root(), p) == go(s, x.0, p + 1));
        if p + 1 < s.len() {
            let c = s[p + 1] as int;
            lemma_bsck(x.0, 0, 256, c);
            if c == 92 { lemma_sets(s, x.0, p + 1, n_EscapedBackSlash(), 1); }
            else if c == 44 { lemma_sets(s, x.0, p + 1, n_EscapedComma(), 1); }
            else if c == 59 { lemma_sets(s, x.0, p + 1, n_EscapedSemiColon(), 1); }
            else if c == 110 || c == 78 { lemma_sets(s, x.0, p + 1, n_EscapedNewLine(), 1); }
            else { lemma_sets(s, x.0, p + 1, n_Text(), 0); }
        } else { lemma_miss(s, x.0, n_Text()); }
    }
    else if ctrl(b) { lemma_sets(s, root(), p, n_Control(), 1); }
    else if b == 59 { lemma_sets(s, root(), p, n_ParameterDelimiter(), 1); }
    else if b == 58 { lemma_sets(s, root(), p, n_PropertyDelimiter(), 1); }
    else if b == 34 { lemma_sets(s, root(), p, n_DoubleQuote(), 1); }
    else if b == 61 { lemma_sets(s, root(), p, n_ValueDelimiter(), 1); }
    else {
        let u = st(x.0);
        lemma_ckr(0, nst(), x.0);
        assert(go(s, root(), p) == go(s, x.0, p + x.1));
        lemma_mstep1(b);
        assert(inv(s, p, x.0, p + x.1)) by {
            reveal(inv);
            let e = p + x.1;
            assert(ck(x.0));
            assert(calm(s[p]));
            assert(at8(s, p, 0));
            if 128 <= b && u.lab == 101 { assert(u.k == 0); assert(flag(s, p, e, u.ce)); assert(inv(s, p, x.0, p + x.1)); }
            else if x.1 == 0 { assert(at8(s, e + u.k, u.mk)); assert(flag(s, p, e, u.ce)); assert(flag(s, e, e + u.k, u.ck)); assert(e + u.k <= s.len()); assert(inv(s, p, x.0, p + x.1)); }
            else { assert(at8(s, e, u.me)); assert(flag(s, p, e, u.ce)); assert(u.lab < 0 ==> flag(s, e, e + u.k, u.ck)); assert(e + u.k <= s.len()); assert(inv(s, p, x.0, p + x.1)); }
        }
        lemma_go(s, p, x.0, p + x.1);
    }
}
}
