/// the lexer: names
pub mod lexnames {
use ::vstd::prelude::*;
use crate::sh::*;
use crate::lexer::*;
use crate::lexproof::*;

pub open spec fn matches(s: Seq<u8>, w: int, e: int, x: int) -> bool {
    forall|y: int| #![trigger cls(w, y)] x <= y <= lst(w) ==> 0 <= e + y - x < s.len() && inset(cls(w, y), 0, s[e + y - x] as int)
}
/// the end of a run of letters, digits and hyphens
pub open spec fn lx(s: Seq<u8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && gb(s[i]) { lx(s, i + 1) } else { i } }
pub open spec fn res(s: Seq<u8>, w: int, a: int) -> (int, int) { if isx(w) { (lab(w), lx(s, a)) } else { (lab(w), a) } }
pub open spec fn okx(s: Seq<u8>, w: int, a: int) -> bool { isx(w) ==> 0 <= a && xstop(s, lx(s, a)) }
pub proof fn lemma_gset(b: u8) ensures inset(gset(), 0, b as int) == gb(b) { reveal_with_fuel(inset, 6); }
pub proof fn lemma_covers1(r: Seq<(int, int)>, i: int, x: (int, int), b: int)
    requires covers1(r, i, x), x.0 <= b <= x.1
    ensures inset(r, i, b)
    decreases r.len() - i
{
    if 0 <= i < r.len() && !(r[i].0 <= x.0 && x.1 <= r[i].1) { lemma_covers1(r, i + 1, x, b); }
}
pub proof fn lemma_covers(r: Seq<(int, int)>, c: Seq<(int, int)>, i: int, b: int)
    requires covers(r, c, i), inset(c, i, b)
    ensures inset(r, 0, b)
    decreases c.len() - i
{
    if c[i].0 <= b <= c[i].1 { lemma_covers1(r, 0, c[i], b); } else { lemma_covers(r, c, i + 1, b); }
}
pub proof fn lemma_disj(r: Seq<(int, int)>, c: Seq<(int, int)>, i: int, b: int)
    requires disj(r, c, i), inset(c, i, b)
    ensures !inset(r, 0, b)
    decreases c.len() - i
{
    if c[i].0 <= b <= c[i].1 { if inset(r, 0, b) { lemma_avoids2(r, 0, c[i].0, c[i].1, b); } } else { lemma_disj(r, c, i + 1, b); }
}
pub proof fn lemma_avoids2(r: Seq<(int, int)>, i: int, lo: int, hi: int, b: int)
    requires avoids(r, i, lo, hi), lo <= b <= hi
    ensures !inset(r, i, b)
    decreases r.len() - i
{
    if 0 <= i < r.len() { lemma_avoids2(r, i + 1, lo, hi, b); }
}
pub proof fn lemma_missw(p: Seq<Seq<(int, int)>>, i: int, w: int, y: int, s: Seq<u8>, a: int)
    requires missw(p, i, w, y), 0 <= i,
        forall|z: int| #![trigger cls(w, z)] y <= z <= lst(w) && z < y + p.len() - i ==> inset(cls(w, z), 0, s[a + z - y] as int)
    ensures !hit(p, i, s, a)
    decreases p.len() - i
{
    assert(inset(cls(w, y), 0, s[a + y - y] as int));
    if disj(p[i], cls(w, y), 0) { lemma_disj(p[i], cls(w, y), 0, s[a] as int); }
    else { lemma_missw(p, i + 1, w, y + 1, s, a + 1); }
}
pub proof fn lemma_hitw(p: Seq<Seq<(int, int)>>, i: int, w: int, y: int, s: Seq<u8>, a: int)
    requires hitw(p, i, w, y), 0 <= i,
        forall|z: int| #![trigger cls(w, z)] y <= z <= lst(w) && z < y + p.len() - i ==> inset(cls(w, z), 0, s[a + z - y] as int)
    ensures hit(p, i, s, a)
    decreases p.len() - i
{
    if i < p.len() {
        assert(inset(cls(w, y), 0, s[a + y - y] as int));
        lemma_covers(p[i], cls(w, y), 0, s[a] as int);
        lemma_hitw(p, i + 1, w, y + 1, s, a + 1);
    }
}
pub proof fn lemma_exb(q: int, x: int, w: int, lo: int, hi: int, b: int)
    requires exb(q, x, w, lo, hi), lo <= b <= hi
    ensures ({ let (to, n) = to1(q, b); to >= 0 && ok(q, to, x, n, w) })
    decreases hi - lo
{
    if lo < b { lemma_exb(q, x, w, lo + 1, hi, b); }
}
pub proof fn lemma_exs(q: int, x: int, w: int, i: int, b: int)
    requires exs(q, x, w, i), inset(cls(w, x + st(q).k), i, b)
    ensures ({ let (to, n) = to1(q, b); to >= 0 && ok(q, to, x, n, w) })
    decreases cls(w, x + st(q).k).len() - i
{
    let c = cls(w, x + st(q).k);
    if c[i].0 <= b <= c[i].1 { lemma_exb(q, x, w, c[i].0, c[i].1, b); } else { lemma_exs(q, x, w, i + 1, b); }
}
pub proof fn lemma_exe(s: Seq<u8>, q: int, e: int, x: int, w: int, i: int)
    requires exe(q, x, w, i), matches(s, w, e, x), 0 <= i, st(q).k >= 0
    ensures ({ let t = st(q); let j = pick(t.ed, i, s, e + t.k); if j < 0 { ok(q, t.dflt, x, 0, w) } else { j < t.ed.len() && ok(q, t.ed[j].to, x, t.ed[j].b, w) } })
    decreases st(q).ed.len() - i
{
    let t = st(q);
    if i < t.ed.len() {
        let d = t.ed[i]; let y = x + t.k; let p = pat(d.p);
        assert forall|z: int| #![trigger cls(w, z)] y <= z <= lst(w) && z < y + p.len() implies inset(cls(w, z), 0, s[e + t.k + z - y] as int) by { assert(e + t.k + z - y == e + z - x); }
        if mw(d.p, w, y) { lemma_missw(p, 0, w, y, s, e + t.k); lemma_exe(s, q, e, x, w, i + 1); }
        else if hw(d.p, w, y) { lemma_hitw(p, 0, w, y, s, e + t.k); }
        else if !hit(p, 0, s, e + t.k) { lemma_exe(s, q, e, x, w, i + 1); }
    }
}
pub proof fn lemma_lb(q: int, lo: int, hi: int, b: int)
    requires lb(q, lo, hi), lo <= b <= hi
    ensures to1(q, b) == (q, 1int)
    decreases hi - lo
{
    if lo < b { lemma_lb(q, lo + 1, hi, b); }
}
pub proof fn lemma_ls(q: int, c: Seq<(int, int)>, i: int, b: int)
    requires ls(q, c, i), inset(c, i, b)
    ensures to1(q, b) == (q, 1int)
    decreases c.len() - i
{
    if c[i].0 <= b <= c[i].1 { lemma_lb(q, c[i].0, c[i].1, b); } else { lemma_ls(q, c, i + 1, b); }
}
pub proof fn lemma_loopq(s: Seq<u8>, q: int, e: int, l: int)
    requires loopq(q, l), 0 <= q < nst(), 0 <= e, xstop(s, lx(s, e)), 0 <= l < 100
    ensures go(s, q, e) == (l, lx(s, e))
    decreases s.len() - e
{
    if e < s.len() && gb(s[e]) {
        lemma_gset(s[e]);
        lemma_ls(q, gset(), 0, s[e] as int);
        lemma_one(s, q, e);
        lemma_loopq(s, q, e + 1, l);
    } else { lemma_sets(s, q, e, l, 0); }
}
pub proof fn lemma_ex(s: Seq<u8>, q: int, e: int, x: int, w: int)
    requires 0 <= w < nw(), ex(q, x, w), matches(s, w, e, x), 0 <= e <= s.len(), okx(s, w, e + wl(w) + 1 - x), x <= wl(w) + 1, 0 <= q < nst(), 0 <= lab(w) < 100
    ensures go(s, q, e) == res(s, w, e + wl(w) + 1 - x)
    decreases s.len() - e, nst() - q
{
    let t = st(q); let c = x + t.k; let n = wl(w) + 1;
    if t.lab >= 0 { }
    else if isx(w) && x == n { lemma_loopq(s, q, e, lab(w)); }
    else {
        let (to, b) = step(s, q, e);
        if t.need == 1 && c <= lst(w) {
            assert(inset(cls(w, c), 0, s[e + c - x] as int));
            lemma_exs(q, x, w, 0, s[e + t.k] as int);
            lemma_step1(s, q, e);
        } else {
            lemma_exe(s, q, e, x, w, 0);
            if c + t.need - 1 <= lst(w) { assert(inset(cls(w, c + t.need - 1), 0, s[e + (c + t.need - 1) - x] as int)); }
        }
        assert(ok(q, to, x, b, w));
        assert(b >= 0);
        assert(ex(to, x + b, w));
        assert forall|y: int| #![trigger cls(w, y)] x + b <= y <= lst(w) implies 0 <= e + b + y - (x + b) < s.len() && inset(cls(w, y), 0, s[e + b + y - (x + b)] as int) by { assert(x <= y); assert(inset(cls(w, y), 0, s[e + y - x] as int)); assert(e + b + y - (x + b) == e + y - x); }
        if x + b - 1 >= x { assert(x + b - 1 <= lst(w)); assert(inset(cls(w, x + b - 1), 0, s[e + (x + b - 1) - x] as int)); }
        lemma_ex(s, to, e + b, x + b, w);
    }
}
/// `one`, at an offset
pub proof fn lemma_step1(s: Seq<u8>, q: int, e: int)
    requires st(q).lab < 0, st(q).need == 1, 0 <= e + st(q).k < s.len(), to1(q, s[e + st(q).k] as int).0 >= 0
    ensures step(s, q, e) == to1(q, s[e + st(q).k] as int)
{
    lemma_pick1x(st(q).ed, 0, s, e + st(q).k);
}
pub proof fn lemma_pick1x(ed: Seq<Ed>, i: int, s: Seq<u8>, a: int)
    requires 0 <= i, 0 <= a < s.len()
    ensures pick1(ed, i, s[a] as int) != -2 ==> pick(ed, i, s, a) == pick1(ed, i, s[a] as int)
{
    if pick1(ed, i, s[a] as int) != -2 { lemma_pick1(ed, i, s, a); }
}
/// reading letters, digits and hyphens
pub proof fn lemma_fb1(q: int, lo: int, hi: int, b: int)
    requires fb1(q, lo, hi), lo <= b <= hi
    ensures ({ let (to, n) = to1(q, b); fok(q, to, n) })
    decreases hi - lo
{
    if lo < b { lemma_fb1(q, lo + 1, hi, b); }
}
pub proof fn lemma_fs(q: int, c: Seq<(int, int)>, i: int, b: int)
    requires fs(q, c, i), inset(c, i, b)
    ensures ({ let (to, n) = to1(q, b); fok(q, to, n) })
    decreases c.len() - i
{
    if c[i].0 <= b <= c[i].1 { lemma_fb1(q, c[i].0, c[i].1, b); } else { lemma_fs(q, c, i + 1, b); }
}
pub proof fn lemma_fe(s: Seq<u8>, q: int, a: int, i: int, n: int)
    requires fe(q, i), 0 <= i, 0 <= a, a + n <= s.len(), gbs(s, a, a + n), n < 50, 0 <= lst(0), n == st(q).need
    ensures ({ let t = st(q); let j = pick(t.ed, i, s, a); if j < 0 { fok(q, t.dflt, 0) } else { j < t.ed.len() && fok(q, t.ed[j].to, t.ed[j].b) } })
    decreases st(q).ed.len() - i
{
    let t = st(q);
    if i < t.ed.len() {
        let p = pat(t.ed[i].p);
        if mw(t.ed[i].p, 0, -100) {
            assert forall|z: int| #![trigger cls(0, z)] -100 <= z <= lst(0) && z < -100 + p.len() implies inset(cls(0, z), 0, s[a + z + 100] as int) by { lemma_gset(s[a + z + 100]); }
            lemma_missw(p, 0, 0, -100, s, a);
            lemma_fe(s, q, a, i + 1, n);
        } else if !hit(p, 0, s, a) { lemma_fe(s, q, a, i + 1, n); }
    }
}
pub proof fn lemma_far1(lo: int, hi: int, w: int, q: int)
    requires far1(lo, hi, w), lo <= q <= hi
    ensures if w < 0 { farck(q) } else { farw(q, 0, w) }
    decreases hi - lo
{
    if lo < q { lemma_far1(lo + 1, hi, w, q); }
}
pub proof fn lemma_fars(i: int, w: int, q: int)
    requires fars(i, w), 0 <= i, inset(farset(), i, q)
    ensures if w < 0 { farck(q) } else { farw(q, 0, w) }
    decreases farset().len() - i
{
    if farset()[i].0 <= q <= farset()[i].1 { lemma_far1(farset()[i].0, farset()[i].1, w, q); } else { lemma_fars(i + 1, w, q); }
}
pub proof fn lemma_farw(q: int, j: int, w: int, k: int)
    requires farw(q, j, w), 0 <= j <= k < st(q).need
    ensures ex(q, -(st(q).k + k), w)
    decreases k - j
{
    if j < k { lemma_farw(q, j + 1, w, k); }
}
/// the rest of a group, the period and a word
pub proof fn lemma_gmatches(s: Seq<u8>, e: int, x: int, w: int)
    requires x <= 0, 0 <= e, e - x < s.len(), gbs(s, e, e - x), s[e - x] == 46, matches(s, w, e - x + 1, 1)
    ensures matches(s, w, e, x)
{
    assert forall|y: int| #![trigger cls(w, y)] x <= y <= lst(w) implies 0 <= e + y - x < s.len() && inset(cls(w, y), 0, s[e + y - x] as int) by {
        if y < 0 { lemma_gset(s[e + y - x]); }
        else if y == 0 { lemma_dot(w); }
        else { lemma_at(s, w, e - x + 1, 1, y); assert(e - x + 1 + y - 1 == e + y - x); }
    }
}
pub proof fn lemma_at(s: Seq<u8>, w: int, e: int, x: int, y: int)
    requires matches(s, w, e, x), x <= y <= lst(w)
    ensures 0 <= e + y - x < s.len(), inset(cls(w, y), 0, s[e + y - x] as int)
{ let c = cls(w, y); }
pub proof fn lemma_dot(w: int) ensures inset(cls(w, 0), 0, 46) { assert(cls(w, 0) == seq![(46int, 46int)]); reveal_with_fuel(inset, 3); }
#[verifier::spinoff_prover] pub proof fn lemma_far_go(s: Seq<u8>, q: int, e: int, r: int, w: int)
    requires 0 <= w < nw(), isfar(q), 0 <= q < nst(), fars(0, -1), fars(0, w), st(q).k <= r, 0 <= e, e + r < s.len(), gbs(s, e, e + r), s[e + r] == 46, matches(s, w, e + r + 1, 1),
        okx(s, w, e + r + 1 + wl(w)), 0 <= lab(w) < 100, wl(w) >= 1, ckr(0, nst()), lst(0) >= 0
    ensures go(s, q, e) == res(s, w, e + r + 1 + wl(w))
    decreases s.len() - e, nst() - q
{
    let t = st(q);
    lemma_fars(0, -1, q);
    lemma_fars(0, w, q);
    if r - t.k < t.need {
        lemma_farw(q, 0, w, r - t.k);
        lemma_gmatches(s, e, -r, w);
        lemma_ex(s, q, e, -r, w);
    } else {
        let (to, b) = step(s, q, e);
        if t.need == 1 {
            lemma_gset(s[e + t.k]);
            lemma_fs(q, gset(), 0, s[e + t.k] as int);
            lemma_step1(s, q, e);
        } else {
            lemma_fe(s, q, e + t.k, 0, t.need);
        }
        assert(fok(q, to, b));
        lemma_far_go(s, to, e + b, r - b, w);
    }
}
pub proof fn lemma_wcks(lo: int, hi: int, w: int)
    requires wcks(lo, hi), lo <= w < hi
    ensures wck(w)
    decreases hi - lo
{
    if lo < w { lemma_wcks(lo + 1, hi, w); }
}
pub proof fn lemma_wck(w: int)
    requires 0 <= w < nw()
    ensures wck(w), wck(0)
{
    if part(0) <= w < part(1) { lemma_names_0(); lemma_wcks(part(0), part(1), w); }
    if part(1) <= w < part(2) { lemma_names_1(); lemma_wcks(part(1), part(2), w); }
    if part(2) <= w < part(3) { lemma_names_2(); lemma_wcks(part(2), part(3), w); }
    if part(3) <= w < part(4) { lemma_names_3(); lemma_wcks(part(3), part(4), w); }
    if part(4) <= w < part(5) { lemma_names_4(); lemma_wcks(part(4), part(5), w); }
    if part(5) <= w < part(6) { lemma_names_5(); lemma_wcks(part(5), part(6), w); }
    if part(6) <= w < part(7) { lemma_keys(); lemma_wcks(part(6), part(7), w); }
    if part(7) <= w < part(8) { lemma_tzgeo(); lemma_wcks(part(7), part(8), w); }
    if part(8) <= w < part(9) { lemma_frame(); lemma_wcks(part(8), part(9), w); }
    if part(9) <= w < part(10) { lemma_ext(); lemma_wcks(part(9), part(10), w); }
    lemma_names_0(); lemma_wcks(part(0), part(1), 0);
}
/// a word, and a word after a group
pub proof fn lemma_word(s: Seq<u8>, p: int, w: int)
    requires 0 <= w < nw(), plainw(w), 0 <= p <= s.len(), matches(s, w, p, 1), okx(s, w, p + wl(w))
    ensures go(s, root(), p) == res(s, w, p + wl(w))
{
    lemma_first(); lemma_states();
    lemma_wck(w);
    lemma_ex(s, root(), p, 1, w);
}
#[verifier::spinoff_prover] pub proof fn lemma_gword(s: Seq<u8>, p: int, d: int, w: int)
    requires 0 <= w < nw(), grouped(w), grp(s, p, d), matches(s, w, d + 1, 1), okx(s, w, d + 1 + wl(w))
    ensures go(s, root(), p) == res(s, w, d + 1 + wl(w))
{
    lemma_first(); lemma_states();
    lemma_far();
    lemma_wck(w);
    lemma_gset(s[p]);
    lemma_fs(root(), gset(), 0, s[p] as int);
    lemma_one(s, root(), p);
    let (to, b) = step(s, root(), p);
    assert(fok(root(), to, b));
    lemma_far_go(s, to, p + b, d - p - b, w);
}
/// from letters to places
#[verifier::spinoff_prover] pub proof fn lemma_same(s: Seq<u8>, p: int, w: int)
    requires 0 <= w < nw(), !isx(w), same(s, p, word(w)), p + wl(w) < s.len(), inset(cls(w, wl(w) + 1), 0, s[p + wl(w)] as int)
    ensures matches(s, w, p, 1)
{
    reveal_with_fuel(inset, 4);
    assert forall|y: int| #![trigger cls(w, y)] 1 <= y <= lst(w) implies 0 <= p + y - 1 < s.len() && inset(cls(w, y), 0, s[p + y - 1] as int) by {
        if y <= wl(w) { let c = word(w)[y - 1]; assert(up1(s[p + (y - 1)]) == c); }
    }
}
pub proof fn lemma_lx(s: Seq<u8>, a: int, e: int)
    requires 0 <= a <= e < s.len(), gbs(s, a, e), !gb(s[e])
    ensures lx(s, a) == e
    decreases e - a
{
    if a < e { lemma_lx(s, a + 1, e); }
}
#[verifier::spinoff_prover] pub proof fn lemma_xname(s: Seq<u8>, p: int, e: int, w: int)
    requires 0 <= w < nw(), isx(w), xname(s, p, e)
    ensures matches(s, w, p, 1), lx(s, p + 3) == e, wl(w) == 3
{
    reveal_with_fuel(inset, 6);
    lemma_lx(s, p + 3, e);
    assert(word(w) == seq![88u8, 45, 0]);
    lemma_gset(s[p + 2]);
    assert(up1(s[p]) == 88 && s[p + 1] == 45 && gb(s[p + 2]));
    assert forall|y: int| #![trigger cls(w, y)] 1 <= y <= lst(w) implies 0 <= p + y - 1 < s.len() && inset(cls(w, y), 0, s[p + y - 1] as int) by {
        if y == 1 { assert(cls(w, 1) == seq![(88int, 88int), (120int, 120int)]); } else if y == 2 { assert(cls(w, 2) == seq![(45int, 45int)]); } else { assert(y == 3); assert(cls(w, 3) == gset()); }
    }
}
pub proof fn ax_name(s: Seq<u8>, p: int, i: int) requires wf(s), ensures f_name(s, p, i)
{
    if 0 <= i < names().len() && same(s, p, names()[i]) && pstop(s, p + names()[i].len()) { reveal_with_fuel(inset, 3); lemma_same(s, p, i); lemma_word(s, p, i); }
}
pub proof fn ax_gname(s: Seq<u8>, p: int, d: int, i: int) requires wf(s), ensures f_gname(s, p, d, i)
{
    if 0 <= i < names().len() && grp(s, p, d) && same(s, d + 1, names()[i]) && pstop(s, d + 1 + names()[i].len()) { reveal_with_fuel(inset, 3); lemma_same(s, d + 1, i); lemma_gword(s, p, d, i); }
}
pub proof fn ax_key(s: Seq<u8>, p: int, i: int) requires wf(s), ensures f_key(s, p, i)
{
    if 0 <= i < keys().len() && same(s, p, keys()[i]) && p + keys()[i].len() < s.len() && s[p + keys()[i].len()] == 61 {
        reveal_with_fuel(inset, 3);
        let w = nn() + i;
        assert(word(w) == keys()[i]);
        lemma_same(s, p, w); lemma_word(s, p, w);
    }
}
#[verifier::spinoff_prover] pub proof fn ax_tz(s: Seq<u8>, p: int) requires wf(s), ensures f_tz(s, p)
{
    reveal_with_fuel(inset, 4);
    let w = nn() + nk();
    if same(s, p, tz_s()) && xstop(s, p + 2) { lemma_same(s, p, w); lemma_word(s, p, w); }
    if same(s, p, geo_s()) && xstop(s, p + 3) { lemma_same(s, p, w + 1); lemma_word(s, p, w + 1); }
}
#[verifier::spinoff_prover] pub proof fn ax_gtz(s: Seq<u8>, p: int, d: int) requires wf(s), ensures f_gtz(s, p, d)
{
    reveal_with_fuel(inset, 4);
    let w = nn() + nk() + 2;
    if grp(s, p, d) && same(s, d + 1, tz_s()) && pstop(s, d + 3) { lemma_same(s, d + 1, w); lemma_gword(s, p, d, w); }
    if grp(s, p, d) && same(s, d + 1, geo_s()) && pstop(s, d + 4) { lemma_same(s, d + 1, w + 1); lemma_gword(s, p, d, w + 1); }
}
#[verifier::spinoff_prover] pub proof fn ax_frame(s: Seq<u8>, p: int) requires wf(s), ensures f_frame(s, p)
{
    reveal_with_fuel(inset, 4);
    let w = nn() + nk() + 4;
    if same(s, p, begin_s()) && lstop(s, p + 11) { lemma_same(s, p, w); lemma_word(s, p, w); }
    if same(s, p, end_s()) && lstop(s, p + 9) { lemma_same(s, p, w + 1); lemma_word(s, p, w + 1); }
    if same(s, p, version_s(51)) && lstop(s, p + 11) { lemma_same(s, p, w + 2); lemma_word(s, p, w + 2); }
    if same(s, p, version_s(52)) && lstop(s, p + 11) { lemma_same(s, p, w + 3); lemma_word(s, p, w + 3); }
}
pub proof fn ax_ext(s: Seq<u8>, p: int, e: int) requires wf(s), ensures f_ext(s, p, e)
{
    let w = nn() + nk() + 8;
    if xname(s, p, e) { lemma_xname(s, p, e, w); lemma_word(s, p, w); }
}
pub proof fn ax_gext(s: Seq<u8>, p: int, d: int, e: int) requires wf(s), ensures f_gext(s, p, d, e)
{
    let w = nn() + nk() + 9;
    if grp(s, p, d) && xname(s, d + 1, e) { lemma_xname(s, d + 1, e, w); lemma_gword(s, p, d, w); }
}
}
