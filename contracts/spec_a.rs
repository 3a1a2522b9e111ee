// ======================================================================
// Specification functions and lemmas used by the contracts
// ======================================================================
pub mod spec {
use ::vstd::prelude::*;
pub use crate::spec_b::*;
pub use crate::spec_p::*;
pub use crate::spec_t::*;
pub use crate::spec_v::*;
pub use crate::spec_g::*;
pub use crate::spec_k::*;
pub use crate::spec_r::*;
pub use crate::sh::{join_b, join_part, lemma_join_part, lemma_join_end, split_b, splitn_b, index_b, int_text, int_parse, float_text, float_parse, upper, lower, wf, boundary, replace_b, views, sviews, chars_of, ax_chars_of, cbytes};
use crate::sh::{fmt, fmt::Display, String, str};
use crate::{Error, Result, Date, DateTime};
use crate::property::*;
use crate::parameter::*;
use crate::time::{self, Time, UtcOffset};
use crate::aho_corasick::{pick, repl};
use crate::sh::occurs;
broadcast use crate::sh::group_sh;

pub open spec fn res_is<T, E>(r: core::result::Result<T, E>, o: Option<T>) -> bool { (r is Ok <==> o is Some) && (r is Ok ==> r->Ok_0 == o->0) }
pub open spec fn disps<T: fmt::Display>(s: Seq<T>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].disp()) }
pub open spec fn opt_is(o: Option<String>, c: Seq<u8>) -> bool { match o { Some(v) => v@ == c && c.len() > 0, None => c.len() == 0 } }

// ---------------------------------------------------------------- text escapes
pub open spec fn esc1(b: u8, semi: bool) -> Seq<u8> {
    if b == 92 { seq![92u8, 92u8] } else if b == 10 { seq![92u8, 110u8] } else if b == 44 { seq![92u8, 44u8] } else if b == 59 && semi { seq![92u8, 59u8] } else { seq![b] }
}
pub open spec fn esc(s: Seq<u8>, semi: bool) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { esc1(s[0], semi) + esc(s.drop_first(), semi) }
}
pub open spec fn escs(v: Seq<String>, semi: bool) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| esc(v[i]@, semi)) }
pub open spec fn esc_o(o: Option<String>) -> Seq<u8> { match o { Some(s) => esc(s@, true), None => Seq::empty() } }
/// the bytes that may follow a backslash
//@lex
pub open spec fn escapable(b: u8) -> bool { b == 92 || b == 44 || b == 59 || b == 110 || b == 78 }
//@end
pub open spec fn unesc1(b: u8) -> u8 { if b == 110 || b == 78 { 10 } else { b } }
/// undo the escapes \\ \, \; \n \N and nothing else
pub open spec fn dec(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == 92 && s.len() >= 2 && escapable(s[1]) { seq![unesc1(s[1])] + dec(s.skip(2)) }
    else { seq![s[0]] + dec(s.drop_first()) }
}
/// prepend to the first component
pub open spec fn pre1(p: Seq<u8>, v: Seq<Seq<u8>>) -> Seq<Seq<u8>> { v.update(0, p + v[0]) }
/// the components of a structured value: split at unescaped delimiters (at most `limit` components), each unescaped
pub open spec fn split_dec(s: Seq<u8>, d: u8, limit: int) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<u8>::empty()] }
    else if s[0] == 92 && s.len() >= 2 && escapable(s[1]) { pre1(seq![unesc1(s[1])], split_dec(s.skip(2), d, limit)) }
    else if s[0] == d && limit > 1 { seq![Seq::<u8>::empty()] + split_dec(s.drop_first(), d, limit - 1) }
    else { pre1(seq![s[0]], split_dec(s.drop_first(), d, limit)) }
}

/// undo the escapes \ \, \n \N and nothing else (a plain text value)
pub open spec fn une(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == 92 && s.len() >= 2 && escapable(s[1]) && s[1] != 59 { seq![unesc1(s[1])] + une(s.skip(2)) }
    else { seq![s[0]] + une(s.drop_first()) }
}
/// `k` entries of a replacement table, looked at one by one
pub open spec fn all8(n: int, f: spec_fn(int) -> bool) -> bool {
    n <= 6 && (n > 0 ==> f(0)) && (n > 1 ==> f(1)) && (n > 2 ==> f(2)) && (n > 3 ==> f(3)) && (n > 4 ==> f(4)) && (n > 5 ==> f(5))
}
pub open spec fn any8(n: int, f: spec_fn(int) -> bool) -> bool {
    (n > 0 && f(0)) || (n > 1 && f(1)) || (n > 2 && f(2)) || (n > 3 && f(3)) || (n > 4 && f(4)) || (n > 5 && f(5))
}
pub open spec fn esc_table(p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, semi: bool) -> bool {
    &&& p.len() == w.len()
    &&& all8(p.len() as int, |i: int| p[i].len() == 1 && w[i] == esc1(p[i][0], semi))
    &&& any8(p.len() as int, |i: int| p[i][0] == 92) && any8(p.len() as int, |i: int| p[i][0] == 10) && any8(p.len() as int, |i: int| p[i][0] == 44)
    &&& semi ==> any8(p.len() as int, |i: int| p[i][0] == 59)
}
pub proof fn lemma_pick(p: Seq<Seq<u8>>, s: Seq<u8>, k: int)
    requires 0 <= k <= p.len()
    ensures pick(p, s, k) == -1 || (k <= pick(p, s, k) < p.len() && occurs(s, p[pick(p, s, k)], 0)),
        pick(p, s, k) == -1 ==> forall|i: int| k <= i < p.len() ==> !occurs(s, #[trigger] p[i], 0)
    decreases p.len() - k
{
    if k < p.len() { lemma_pick(p, s, k + 1); }
}
pub proof fn lemma_occ1(s: Seq<u8>, a: Seq<u8>)
    requires s.len() > 0
    ensures a.len() == 1 ==> (occurs(s, a, 0) <==> a[0] == s[0]),
        a.len() == 2 && s.len() > 1 ==> (occurs(s, a, 0) <==> a[0] == s[0] && a[1] == s[1])
{
    if a.len() == 1 { assert(s.subrange(0, 1) =~= seq![s[0]]); assert(a =~= seq![a[0]]); assert(seq![s[0]][0] == s[0]); }
    if a.len() == 2 && s.len() > 1 { let t = s.subrange(0, 2); assert(t[0] == s[0] && t[1] == s[1]); if a[0] == s[0] && a[1] == s[1] { assert(t =~= a); } }
}
pub proof fn lemma_esc1(p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<u8>, semi: bool)
    requires esc_table(p, w, semi)
    ensures repl(p, w, s) == esc(s, semi)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_pick(p, s, 0);
        let k = pick(p, s, 0);
        lemma_esc1(p, w, s.drop_first(), semi);
        assert(s.skip(1) =~= s.drop_first());
        if k >= 0 {
            assert(p[k].len() == 1 && w[k] == esc1(p[k][0], semi));
            lemma_occ1(s, p[k]);
        } else {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i])[0] != s[0] by { assert(p[i].len() == 1); lemma_occ1(s, p[i]); }
            assert(esc1(s[0], semi) == seq![s[0]]);
        }
    }
}
/// the table of a call to `replace_all` escapes every byte that needs it
pub proof fn lemma_esc(semi: bool)
    ensures forall|p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<u8>| esc_table(p, w, semi) ==> #[trigger] repl(p, w, s) == esc(s, semi),
{
    assert forall|p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<u8>| esc_table(p, w, semi) implies #[trigger] repl(p, w, s) == esc(s, semi) by { lemma_esc1(p, w, s, semi); }
}
pub open spec fn une_table(p: Seq<Seq<u8>>, w: Seq<Seq<u8>>) -> bool {
    &&& p.len() == w.len()
    &&& all8(p.len() as int, |i: int| p[i].len() == 2 && p[i][0] == 92 && escapable(p[i][1]) && p[i][1] != 59 && w[i] == seq![unesc1(p[i][1])])
    &&& any8(p.len() as int, |i: int| p[i][1] == 92) && any8(p.len() as int, |i: int| p[i][1] == 110) && any8(p.len() as int, |i: int| p[i][1] == 78)
    &&& any8(p.len() as int, |i: int| p[i][1] == 44)
}
pub proof fn lemma_une2(p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<u8>)
    requires une_table(p, w)
    ensures repl(p, w, s) == une(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_pick(p, s, 0);
        let k = pick(p, s, 0);
        lemma_une2(p, w, s.drop_first());
        assert(s.skip(1) =~= s.drop_first());
        if s.len() > 1 {
            lemma_une2(p, w, s.skip(2));
            if k >= 0 { assert(p[k].len() == 2 && w[k] == seq![unesc1(p[k][1])]); lemma_occ1(s, p[k]); }
            else {
                assert forall|i: int| 0 <= i < p.len() implies !((#[trigger] p[i])[0] == s[0] && p[i][1] == s[1]) by { assert(p[i].len() == 2); lemma_occ1(s, p[i]); }
            }
        } else if k >= 0 { assert(p[k].len() == 2); }
    }
}
pub proof fn lemma_une()
    ensures forall|p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<u8>| une_table(p, w) ==> #[trigger] repl(p, w, s) == une(s),
{
    assert forall|p: Seq<Seq<u8>>, w: Seq<Seq<u8>>, s: Seq<u8>| une_table(p, w) implies #[trigger] repl(p, w, s) == une(s) by { lemma_une2(p, w, s); }
}

/// bytes of a character outside ASCII are neither a backslash nor a delimiter
pub open spec fn plain(c: Seq<u8>, d: u8) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != 92 && c[i] != d }
pub proof fn lemma_split_len(s: Seq<u8>, d: u8, limit: int)
    ensures split_dec(s, d, limit).len() >= 1
    decreases s.len()
{
    if s.len() == 0 { }
    else if s[0] == 92 && s.len() >= 2 && escapable(s[1]) { lemma_split_len(s.skip(2), d, limit); }
    else if s[0] == d && limit > 1 { lemma_split_len(s.drop_first(), d, limit - 1); }
    else { lemma_split_len(s.drop_first(), d, limit); }
}
pub proof fn lemma_split_max(s: Seq<u8>, d: u8, limit: int)
    requires limit >= 1
    ensures split_dec(s, d, limit).len() <= limit
    decreases s.len()
{
    if s.len() == 0 { }
    else if s[0] == 92 && s.len() >= 2 && escapable(s[1]) { lemma_split_max(s.skip(2), d, limit); lemma_split_len(s.skip(2), d, limit); }
    else if s[0] == d && limit > 1 { lemma_split_max(s.drop_first(), d, limit - 1); }
    else { lemma_split_max(s.drop_first(), d, limit); lemma_split_len(s.drop_first(), d, limit); }
}
pub proof fn lemma_pre1(p: Seq<u8>, q: Seq<u8>, v: Seq<Seq<u8>>)
    requires v.len() >= 1
    ensures pre1(p, pre1(q, v)) == pre1(p + q, v), pre1(Seq::empty(), v) == v
{
    assert(pre1(p, pre1(q, v)) =~= pre1(p + q, v));
    assert(pre1(Seq::empty(), v) =~= v);
}
pub proof fn lemma_split_plain(c: Seq<u8>, t: Seq<u8>, d: u8, limit: int)
    requires plain(c, d)
    ensures split_dec(c + t, d, limit) == pre1(c, split_dec(t, d, limit))
    decreases c.len()
{
    lemma_split_len(t, d, limit);
    if c.len() == 0 { lemma_pre1(c, c, split_dec(t, d, limit)); assert(c + t =~= t); }
    else {
        assert((c + t)[0] == c[0]);
        assert((c + t).drop_first() =~= c.drop_first() + t);
        assert(plain(c.drop_first(), d)) by { assert forall|i: int| 0 <= i < c.drop_first().len() implies #[trigger] c.drop_first()[i] != 92 && c.drop_first()[i] != d by { assert(c[i + 1] != 92 && c[i + 1] != d); } }
        lemma_split_plain(c.drop_first(), t, d, limit);
        lemma_pre1(seq![c[0]], c.drop_first(), split_dec(t, d, limit));
        assert(seq![c[0]] + c.drop_first() =~= c);
    }
}
/// one step of a scan for components: the next character and what follows it
pub proof fn lemma_split_step(c: char, t: Seq<u8>, d: u8, limit: int)
    requires d == 44 || d == 59
    ensures
        c != '\\' && (c as u32 != d as u32 || limit <= 1) ==> split_dec(cbytes(c) + t, d, limit) == pre1(cbytes(c), split_dec(t, d, limit)),
        c as u32 == d as u32 && limit > 1 ==> split_dec(cbytes(c) + t, d, limit) == seq![Seq::<u8>::empty()] + split_dec(t, d, limit - 1),
        t.len() == 0 && c == '\\' ==> split_dec(cbytes(c) + t, d, limit) == pre1(seq![92u8], split_dec(t, d, limit)),
{
    let s = cbytes(c) + t;
    lemma_split_len(t, d, limit);
    if (c as u32) < 128 {
        assert(s[0] == c as u8);
        assert(s.drop_first() =~= t);
    } else {
        assert(plain(cbytes(c), d));
        lemma_split_plain(cbytes(c), t, d, limit);
    }
}
/// a backslash and the character after it
pub proof fn lemma_split_esc(c: char, t: Seq<u8>, d: u8, limit: int)
    requires d == 44 || d == 59
    ensures
        (c == 'n' || c == 'N') ==> split_dec(seq![92u8] + (cbytes(c) + t), d, limit) == pre1(seq![10u8], split_dec(t, d, limit)),
        (c == ',' || c == ';' || c == '\\') ==> split_dec(seq![92u8] + (cbytes(c) + t), d, limit) == pre1(cbytes(c), split_dec(t, d, limit)),
        (c != 'n' && c != 'N' && c != ',' && c != ';' && c != '\\') ==> split_dec(seq![92u8] + (cbytes(c) + t), d, limit) == pre1(seq![92u8] + cbytes(c), split_dec(t, d, limit)),
{
    let u = cbytes(c) + t;
    let s = seq![92u8] + u;
    lemma_split_len(t, d, limit);
    assert(s[0] == 92);
    assert(s.drop_first() =~= u);
    if (c as u32) < 128 {
        assert(u[0] == c as u8);
        assert(s[1] == c as u8);
        assert(s.skip(2) =~= t);
    } else {
        assert(s[1] == cbytes(c)[0]);
    }
    if c != 'n' && c != 'N' && c != ',' && c != ';' && c != '\\' {
        lemma_split_step(c, t, d, limit);
        lemma_pre1(seq![92u8], cbytes(c), split_dec(t, d, limit));
    }
}
pub proof fn lemma_split_all(d: u8, limit: int)
    requires d == 44 || d == 59
    ensures
        forall|c: char, t: Seq<u8>| #![trigger cbytes(c) + t] {
            &&& c != '\\' && (c as u32 != d as u32 || limit <= 1) ==> split_dec(cbytes(c) + t, d, limit) == pre1(cbytes(c), split_dec(t, d, limit))
            &&& c as u32 == d as u32 && limit > 1 ==> split_dec(cbytes(c) + t, d, limit) == seq![Seq::<u8>::empty()] + split_dec(t, d, limit - 1)
            &&& t.len() == 0 && c == '\\' ==> split_dec(cbytes(c) + t, d, limit) == pre1(seq![92u8], split_dec(t, d, limit))
        },
        forall|b: char, c: char, t: Seq<u8>| #![trigger cbytes(b) + (cbytes(c) + t)] b == '\\' ==> {
            &&& (c == 'n' || c == 'N') ==> split_dec(cbytes(b) + (cbytes(c) + t), d, limit) == pre1(seq![10u8], split_dec(t, d, limit))
            &&& (c == ',' || c == ';' || c == '\\') ==> split_dec(cbytes(b) + (cbytes(c) + t), d, limit) == pre1(cbytes(c), split_dec(t, d, limit))
            &&& (c != 'n' && c != 'N' && c != ',' && c != ';' && c != '\\') ==> split_dec(cbytes(b) + (cbytes(c) + t), d, limit) == pre1(seq![92u8] + cbytes(c), split_dec(t, d, limit))
        },
{
    assert(cbytes('\\') == seq![92u8]);
    assert forall|c: char, t: Seq<u8>| #![trigger cbytes(c) + t] {
            &&& c != '\\' && (c as u32 != d as u32 || limit <= 1) ==> split_dec(cbytes(c) + t, d, limit) == pre1(cbytes(c), split_dec(t, d, limit))
            &&& c as u32 == d as u32 && limit > 1 ==> split_dec(cbytes(c) + t, d, limit) == seq![Seq::<u8>::empty()] + split_dec(t, d, limit - 1)
            &&& t.len() == 0 && c == '\\' ==> split_dec(cbytes(c) + t, d, limit) == pre1(seq![92u8], split_dec(t, d, limit))
        } by { lemma_split_step(c, t, d, limit); }
    assert forall|b: char, c: char, t: Seq<u8>| #![trigger cbytes(b) + (cbytes(c) + t)] b == '\\' implies {
            &&& (c == 'n' || c == 'N') ==> split_dec(cbytes(b) + (cbytes(c) + t), d, limit) == pre1(seq![10u8], split_dec(t, d, limit))
            &&& (c == ',' || c == ';' || c == '\\') ==> split_dec(cbytes(b) + (cbytes(c) + t), d, limit) == pre1(cbytes(c), split_dec(t, d, limit))
            &&& (c != 'n' && c != 'N' && c != ',' && c != ';' && c != '\\') ==> split_dec(cbytes(b) + (cbytes(c) + t), d, limit) == pre1(seq![92u8] + cbytes(c), split_dec(t, d, limit))
        } by { lemma_split_esc(c, t, d, limit); }
}
pub proof fn lemma_skip_all(a: Seq<u8>)
    ensures forall|b: Seq<u8>| #![trigger a + b] (a + b).skip(a.len() as int) == b && (a + b).len() == a.len() + b.len()
{
    assert forall|b: Seq<u8>| #![trigger a + b] (a + b).skip(a.len() as int) == b by { assert((a + b).skip(a.len() as int) =~= b); }
}
/// the components found so far, the unfinished one and what is left to read
#[verifier::opaque]
pub open spec fn split_inv(done: Seq<Seq<u8>>, cur: Seq<u8>, rest: Seq<u8>, all: Seq<u8>, d: u8, limit: int) -> bool {
    done + pre1(cur, split_dec(rest, d, limit - done.len())) == split_dec(all, d, limit)
}
pub proof fn lemma_split_start(s: Seq<u8>, d: u8, limit: int)
    ensures split_inv(Seq::empty(), Seq::empty(), s, s, d, limit)
{
    reveal(split_inv);
    lemma_split_len(s, d, limit);
    lemma_pre1(Seq::empty(), Seq::empty(), split_dec(s, d, limit));
    assert(Seq::<Seq<u8>>::empty() + split_dec(s, d, limit) =~= split_dec(s, d, limit));
}
/// a piece of the unfinished component was read
pub proof fn lemma_split_more(done: Seq<Seq<u8>>, cur: Seq<u8>, x: Seq<u8>, old_rest: Seq<u8>, rest: Seq<u8>, all: Seq<u8>, d: u8, limit: int)
    requires split_inv(done, cur, old_rest, all, d, limit), split_dec(old_rest, d, limit - done.len()) == pre1(x, split_dec(rest, d, limit - done.len()))
    ensures split_inv(done, cur + x, rest, all, d, limit)
{
    reveal(split_inv);
    lemma_split_len(rest, d, limit - done.len());
    lemma_pre1(cur, x, split_dec(rest, d, limit - done.len()));
}
/// a delimiter was read
pub proof fn lemma_split_next(done: Seq<Seq<u8>>, cur: Seq<u8>, old_rest: Seq<u8>, rest: Seq<u8>, all: Seq<u8>, d: u8, limit: int)
    requires split_inv(done, cur, old_rest, all, d, limit), split_dec(old_rest, d, limit - done.len()) == seq![Seq::<u8>::empty()] + split_dec(rest, d, limit - done.len() - 1)
    ensures split_inv(done.push(cur), Seq::empty(), rest, all, d, limit)
{
    reveal(split_inv);
    let t = split_dec(rest, d, limit - done.len() - 1);
    lemma_split_len(rest, d, limit - done.len() - 1);
    lemma_pre1(Seq::empty(), Seq::empty(), t);
    assert(done + pre1(cur, seq![Seq::<u8>::empty()] + t) =~= done.push(cur) + t);
}
pub proof fn lemma_split_done(done: Seq<Seq<u8>>, cur: Seq<u8>, all: Seq<u8>, d: u8, limit: int)
    requires split_inv(done, cur, Seq::empty(), all, d, limit)
    ensures done.push(cur) == split_dec(all, d, limit)
{
    reveal(split_inv);
    assert(done + pre1(cur, seq![Seq::<u8>::empty()]) =~= done.push(cur));
}

// ---------------------------------------------------------------- dates and times
pub open spec fn date_t(d: Date) -> Seq<u8> { time::date_t(L"[year][month][day]", d.0) }
pub open spec fn off_t(o: UtcOffset) -> Seq<u8> { time::off_t(L"[offset_hour sign:mandatory][offset_minute]", o) }
pub open spec fn tm_t(v: (Time, UtcOffset)) -> Seq<u8> { time::time_t(L"[hour][minute][second]", v.0) + off_t(v.1) }
pub open spec fn dt_t(d: DateTime) -> Seq<u8> {
    if time::odt_off(d.0) == time::utc() { time::odt_t(L"[year][month][day]T[hour][minute][second]Z", d.0) }
    else { time::odt_t(L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory][offset_minute]", d.0) }
}
pub open spec fn dates_t(v: Seq<Date>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| date_t(v[i])) }
pub open spec fn dtimes_t(v: Seq<DateTime>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| dt_t(v[i])) }
pub open spec fn times_t(v: Seq<(Time, UtcOffset)>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| tm_t(v[i])) }
pub open spec fn dts_t(v: Seq<DateAndOrTime>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].disp()) }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn two(x: int) -> Seq<u8> { if x < 10 { L"0" + int_text(x) } else { int_text(x) } }
/// an offset given as hours, minutes and seconds of one sign
pub open spec fn hm_t(v: (int, int, int)) -> Seq<u8> {
    (if v.0 < 0 || v.1 < 0 || v.2 < 0 { seq![45u8] } else { seq![43u8] }) + (two(iabs(v.0)) + two(iabs(v.1)))
}
pub open spec fn off_of(s: Seq<u8>) -> Option<UtcOffset> {
    if s == L"Z" { Some(time::utc()) }
    else {
        let a = time::off_p(L"[offset_hour sign:mandatory][offset_minute]", s);
        if a is Some { a } else { time::off_p(L"[offset_hour sign:mandatory]", s) }
    }
}
/// a `-` in the place of a component stands for its smallest value
pub open spec fn fillc(c: Seq<Seq<u8>>, i: int, w: Seq<u8>) -> Seq<Seq<u8>> { if 0 <= i < c.len() && c[i] == L"-" { c.update(i, w) } else { c } }
pub open spec fn no_z(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[s.len() - 1] == 90 { s.take(s.len() - 1) } else { s } }
pub open spec fn off_pos(s: Seq<u8>) -> int { if index_b(s, 45) < s.len() { index_b(s, 45) } else { index_b(s, 43) } }
#[verifier::opaque]
pub open spec fn do_time(s: Seq<u8>) -> Option<(Time, UtcOffset)> {
    let k = off_pos(s);
    let o = if k < s.len() { off_of(s.skip(k)) } else { Some(time::utc()) };
    let t = time::time_p(L"Iso8601", no_z(if k < s.len() { s.take(k) } else { s }));
    if o is Some && t is Some { Some((t->0, o->0)) } else { None }
}
#[verifier::opaque]
pub open spec fn time_of(s: Seq<u8>) -> Option<(Time, UtcOffset)> {
    if s.len() > 0 && s[0] == 45 {
        let c = chars_of(s);
        if c.len() < 2 { None } else { do_time(join_b(fillc(fillc(c, 0, L"00"), 1, L"00"), Seq::empty())) }
    } else { do_time(s) }
}
#[verifier::opaque]
pub open spec fn do_date(s: Seq<u8>) -> Option<time::Date> {
    let a = time::date_p(L"[year]-[month]-[day]", s);
    let b = time::date_p(L"[year][month][day]", s);
    let c = time::date_p(L"[year]-[month]", s);
    let d = time::date_p(L"[year][month]", s);
    if a is Some { a } else if b is Some { b } else if c is Some { c } else if d is Some { d } else { time::date_p(L"Iso8601", s) }
}
#[verifier::opaque]
pub open spec fn date_of(s: Seq<u8>) -> Option<time::Date> {
    if s.len() > 0 && s[0] == 45 { do_date(join_b(fillc(fillc(fillc(chars_of(s), 0, L"00"), 1, L"00"), 2, L"01"), Seq::empty())) }
    else if s.len() == 7 { do_date(s + L"-01") }
    else if s.len() == 4 { do_date(s + L"-01-01") }
    else { do_date(s) }
}
pub open spec fn dtime_of(s: Seq<u8>) -> Option<DateTime> {
    let k = index_b(s, 84);
    if k >= s.len() { None }
    else {
        let d = date_of(s.take(k));
        let t = time_of(s.skip(k + 1));
        if d is Some && t is Some { Some(DateTime(time::odt(d->0, (t->0).0, (t->0).1))) } else { None }
    }
}
pub open spec fn dt_of(s: Seq<u8>) -> Option<DateAndOrTime> {
    if s.len() > 0 && s[0] == 84 { match time_of(s.skip(1)) { Some(t) => Some(DateAndOrTime::Time(t)), None => None } }
    else if dtime_of(s) is Some { Some(DateAndOrTime::DateTime(dtime_of(s)->0)) }
    else if date_of(s) is Some { Some(DateAndOrTime::Date(Date(date_of(s)->0))) }
    else { match time_of(s) { Some(t) => Some(DateAndOrTime::Time(t)), None => None } }
}
pub open spec fn stamp_of(s: Seq<u8>) -> Option<DateTime> {
    let a = time::odt_p(L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory][offset_minute]", s);
    let b = time::odt_p(L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory]", s);
    let c = time::pdt_p(L"[year][month][day]T[hour][minute][second]Z", s);
    let d = time::pdt_p(L"[year][month][day]T[hour][minute][second]", s);
    if a is Some { Some(DateTime(a->0)) } else if b is Some { Some(DateTime(b->0)) }
    else if c is Some { Some(DateTime(time::odt(time::pdt_date(c->0), time::pdt_time(c->0), time::utc()))) }
    else if d is Some { Some(DateTime(time::odt(time::pdt_date(d->0), time::pdt_time(d->0), time::utc()))) }
    else { None }
}
pub proof fn lemma_pieces(v: Seq<&str>, c: Seq<Seq<u8>>)
    requires v.len() == c.len() + 2, v[0]@.len() == 0, v[v.len() - 1]@.len() == 0, forall|i: int| 0 <= i < c.len() ==> v[i + 1]@ == #[trigger] c[i]
    ensures join_b(crate::sh::svs(v), Seq::empty()) == join_b(c, Seq::empty())
{
    let e = Seq::<u8>::empty();
    let w = crate::sh::svs(v);
    assert(v[0]@ =~= e);
    assert(v[v.len() - 1]@ =~= e);
    assert(w =~= (seq![e] + c).push(e));
    crate::sh::lemma_join_push(seq![e] + c, e, e);
    assert((seq![e] + c).drop_first() =~= c);
    assert(join_b(seq![e] + c, e) =~= join_b(c, e));
    assert(join_b(w, e) =~= join_b(c, e));
}
pub open spec fn bool_of(s: Seq<u8>) -> Option<bool> { if lower(s) == L"true" { Some(true) } else if lower(s) == L"false" { Some(false) } else { None } }
pub open spec fn i64_of(s: Seq<u8>) -> Option<i64> { match int_parse(s) { Some(i) => if i64::MIN <= i <= i64::MAX { Some(i as i64) } else { None }, None => None } }
/// the comma separated items of `s`, each read by `g`
pub open spec fn list_is<T, E>(r: core::result::Result<Vec<T>, E>, s: Seq<u8>, g: spec_fn(Seq<u8>) -> Option<T>) -> bool {
    let p = split_b(s, 44);
    &&& r is Ok <==> forall|i: int| 0 <= i < p.len() ==> g(#[trigger] p[i]) is Some
    &&& r is Ok ==> r->Ok_0@.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> r->Ok_0@[i] == g(#[trigger] p[i])->0
}

// ---------------------------------------------------------------- parameters
pub open spec fn u64_of(s: Seq<u8>) -> Option<u64> { match int_parse(s) { Some(i) => if 0 <= i <= u64::MAX { Some(i as u64) } else { None }, None => None } }
pub open spec fn pid_of(s: Seq<u8>) -> Option<Pid> {
    let k = index_b(s, 46);
    if k >= s.len() { match u64_of(s) { Some(l) => Some(Pid { local: l, source: None }), None => None } }
    else if u64_of(s.take(k)) is Some && u64_of(s.skip(k + 1)) is Some { Some(Pid { local: u64_of(s.take(k))->0, source: Some(u64_of(s.skip(k + 1))->0) }) }
    else { None }
}
/// backslash and newline of a parameter value are escaped
pub open spec fn esc_par(s: Seq<u8>) -> Seq<u8> { replace_b(replace_b(s, 92, L"\\\\"), 10, L"\\n") }
/// a parameter value that holds a delimiter is quoted
pub open spec fn quote_par(s: Seq<u8>) -> Seq<u8> {
    let e = esc_par(s);
    if index_b(e, 59) < e.len() || index_b(e, 58) < e.len() { L"\"" + (e + L"\"") } else { e }
}
pub open spec fn par(name: Seq<u8>, v: Seq<u8>) -> Seq<u8> { L";" + (name + (L"=" + v)) }
pub open spec fn parq(name: Seq<u8>, v: Seq<u8>) -> Seq<u8> { L";" + (name + (L"=\"" + (v + L"\""))) }
pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { }
pub broadcast proof fn ax_par(s: Seq<u8>, n: Seq<u8>, v: Seq<u8>)
    ensures #[trigger] ((((s + L";") + n) + L"=") + v) == s + par(n, v)
{ }
pub broadcast proof fn ax_parq(s: Seq<u8>, n: Seq<u8>, v: Seq<u8>)
    ensures #[trigger] (((((s + L";") + n) + L"=\"") + v) + L"\"") == s + parq(n, v)
{ }
pub broadcast group group_line { crate::spec_b::ax_line, crate::sh::ax_empty_l, crate::sh::ax_empty_r, crate::sh::ax_it_start, crate::sh::ax_it_step }
pub broadcast group group_par { ax_par, ax_parq, crate::sh::ax_empty_l, crate::sh::ax_empty_r, crate::sh::ax_it_start, crate::sh::ax_it_step }
pub open spec fn list_t<T: fmt::Display>(v: Seq<T>) -> Seq<u8> { join_b(disps(v), L",") }
pub open spec fn p_language(p: Parameters) -> Seq<u8> { match p.language { Some(v) => par(L"LANGUAGE", quote_par(v@)), None => Seq::empty() } }
pub open spec fn p_value(p: Parameters) -> Seq<u8> { match p.value { Some(v) => par(L"VALUE", v.disp()), None => Seq::empty() } }
pub open spec fn p_pref(p: Parameters) -> Seq<u8> { match p.pref { Some(v) => par(L"PREF", v.disp()), None => Seq::empty() } }
pub open spec fn p_alt_id(p: Parameters) -> Seq<u8> { match p.alt_id { Some(v) => parq(L"ALTID", esc_par(v@)), None => Seq::empty() } }
pub open spec fn p_pid(p: Parameters) -> Seq<u8> { match p.pid { Some(v) => par(L"PID", list_t(v@)), None => Seq::empty() } }
pub open spec fn p_types(p: Parameters) -> Seq<u8> { match p.types { Some(v) => par(L"TYPE", quote_par(list_t(v@))), None => Seq::empty() } }
pub open spec fn p_media_type(p: Parameters) -> Seq<u8> { match p.media_type { Some(v) => par(L"MEDIATYPE", quote_par(v@)), None => Seq::empty() } }
pub open spec fn p_calscale(p: Parameters) -> Seq<u8> { match p.calscale { Some(v) => par(L"CALSCALE", quote_par(v@)), None => Seq::empty() } }
pub open spec fn p_sort_as(p: Parameters) -> Seq<u8> { match p.sort_as { Some(v) => parq(L"SORT-AS", esc_par(list_t(v@))), None => Seq::empty() } }
pub open spec fn p_geo(p: Parameters) -> Seq<u8> { match p.geo { Some(v) => parq(L"GEO", v.disp()), None => Seq::empty() } }
pub open spec fn p_timezone(p: Parameters) -> Seq<u8> {
    match p.timezone {
        Some(TimeZoneParameter::Text(v)) => par(L"TZ", esc_par(v@)),
        Some(TimeZoneParameter::UtcOffset(v)) => par(L"TZ", off_t(v)),
        Some(TimeZoneParameter::Uri(v)) => parq(L"TZ", v.disp()),
        None => Seq::empty(),
    }
}
pub open spec fn p_label(p: Parameters) -> Seq<u8> { match p.label { Some(v) => parq(L"LABEL", esc_par(v@)), None => Seq::empty() } }
/// the first `i` extension parameters
pub open spec fn exts_t(v: Seq<(String, Vec<String>)>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { Seq::empty() } else { exts_t(v, i - 1) + parq(v[i - 1].0@, esc_par(list_t(v[i - 1].1@))) }
}
pub open spec fn p_extensions(p: Parameters) -> Seq<u8> { match p.extensions { Some(v) => exts_t(v@, v@.len() as int), None => Seq::empty() } }
/// every parameter that is set, once, under its own name
pub open spec fn params_t(p: Parameters) -> Seq<u8> {
    p_language(p) + p_value(p) + p_pref(p) + p_alt_id(p) + p_pid(p) + p_types(p) + p_media_type(p) + p_calscale(p) + p_sort_as(p) + p_geo(p) + p_timezone(p) + p_label(p) + p_extensions(p)
}
#[verifier::spinoff_prover]
pub proof fn lemma_params(s: Seq<u8>, p: Parameters)
    ensures (((((((((((((s + p_language(p)) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)) + p_media_type(p)) + p_calscale(p)) + p_sort_as(p)) + p_geo(p)) + p_timezone(p)) + p_label(p)) + p_extensions(p)) == s + params_t(p)
{
    hide(p_language); hide(p_value); hide(p_pref); hide(p_alt_id); hide(p_pid); hide(p_types); hide(p_media_type); hide(p_calscale); hide(p_sort_as); hide(p_geo); hide(p_timezone); hide(p_label); hide(p_extensions);
    lemma_assoc(s, p_language(p), p_value(p));
    lemma_assoc(s, (p_language(p) + p_value(p)), p_pref(p));
    lemma_assoc(s, ((p_language(p) + p_value(p)) + p_pref(p)), p_alt_id(p));
    lemma_assoc(s, (((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)), p_pid(p));
    lemma_assoc(s, ((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)), p_types(p));
    lemma_assoc(s, (((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)), p_media_type(p));
    lemma_assoc(s, ((((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)) + p_media_type(p)), p_calscale(p));
    lemma_assoc(s, (((((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)) + p_media_type(p)) + p_calscale(p)), p_sort_as(p));
    lemma_assoc(s, ((((((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)) + p_media_type(p)) + p_calscale(p)) + p_sort_as(p)), p_geo(p));
    lemma_assoc(s, (((((((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)) + p_media_type(p)) + p_calscale(p)) + p_sort_as(p)) + p_geo(p)), p_timezone(p));
    lemma_assoc(s, ((((((((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)) + p_media_type(p)) + p_calscale(p)) + p_sort_as(p)) + p_geo(p)) + p_timezone(p)), p_label(p));
    lemma_assoc(s, (((((((((((p_language(p) + p_value(p)) + p_pref(p)) + p_alt_id(p)) + p_pid(p)) + p_types(p)) + p_media_type(p)) + p_calscale(p)) + p_sort_as(p)) + p_geo(p)) + p_timezone(p)) + p_label(p)), p_extensions(p));
}
/// the text starts with `x-` in any letter case
pub open spec fn xdash(s: Seq<u8>) -> bool { s.len() >= 2 && (s[0] == 120 || s[0] == 88) && s[1] == 45 }
pub proof fn lemma_xdash(s: Seq<u8>)
    ensures xdash(s) <==> (crate::sh::occurs(s, L"x-", 0) || crate::sh::occurs(s, L"X-", 0)), s.len() == 2 ==> s.skip(2) == Seq::<u8>::empty()
{
    if s.len() == 2 { assert(s.skip(2) =~= Seq::<u8>::empty()); }
    R"x-"; R"X-";
    if s.len() >= 2 {
        assert(s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]);
        if s[0] == 120 && s[1] == 45 { assert(s.subrange(0, 2) =~= L"x-"); }
        if s[0] == 88 && s[1] == 45 { assert(s.subrange(0, 2) =~= L"X-"); }
    }
}
/// the TYPE value a word stands for
pub open spec fn type_is(s: Seq<u8>, t: TypeParameter) -> bool {
    let l = lower(s);
    if l == L"home" { t is Home }
    else if l == L"work" { t is Work }
    else if xdash(s) { t is Extension && t->Extension_0@ == s.skip(2) }
    else if t is Telephone { t->Telephone_0.disp() == l }
    else if t is Related { t->Related_0.disp() == l && forall|x: TelephoneType| (#[trigger] x.disp()) != l }
    else { t is Extension && t->Extension_0@ == s && (forall|x: TelephoneType| (#[trigger] x.disp()) != l) && (forall|x: RelatedType| (#[trigger] x.disp()) != l) }
}
}
