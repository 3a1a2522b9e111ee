/// the lexer: what the table of the generated code (`lextab`, written by the extraction) means, and what the parser relies on
pub mod lexer {
use ::vstd::prelude::*;
use crate::sh::*;
pub use crate::lextab::*;
pub struct LexError;
pub type Tok = core::result::Result<Token, LexError>;

/// an edge: the bytes read have to be in the sets of pattern `p`; the end of the token moves by `b`; control goes to state `to`
pub struct Ed { pub p: int, pub b: int, pub to: int }
/// a function of the generated lexer. `lab >= 0`: it sets a token (100: `lex.error()`, 101: `_error(lex)`, 102: `_end(lex)`).
/// Otherwise it reads `need` bytes at offset `k` from the end of the token; `none`: too few bytes left; `dflt`: no edge fits.
/// `z`, `me`, `mk`, `ce`, `ck`: what is known when it is entered (found by the extraction, checked by `ck` below): the token is still empty,
/// continuation bytes still to come at the end of the token and at the offset, a colon in the token and in the bytes read ahead.
pub struct St { pub lab: int, pub k: int, pub need: int, pub none: int, pub dflt: int, pub ed: Seq<Ed>, pub z: int, pub me: int, pub mk: int, pub ce: int, pub ck: int }

// ---------------------------------------------------------------- meaning
pub open spec fn inset(r: Seq<(int, int)>, i: int, b: int) -> bool decreases r.len() - i {
    if i < 0 || i >= r.len() { false } else { (r[i].0 <= b && b <= r[i].1) || inset(r, i + 1, b) }
}
pub open spec fn hit(p: Seq<Seq<(int, int)>>, i: int, s: Seq<u8>, a: int) -> bool decreases p.len() - i {
    if i < 0 || i >= p.len() { true } else { inset(p[i], 0, s[a] as int) && hit(p, i + 1, s, a + 1) }
}
pub open spec fn pick(ed: Seq<Ed>, i: int, s: Seq<u8>, a: int) -> int decreases ed.len() - i {
    if i < 0 || i >= ed.len() { -1 } else if hit(pat(ed[i].p), 0, s, a) { i } else { pick(ed, i + 1, s, a) }
}
/// `find_boundary`
pub open spec fn fb(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if i >= s.len() || i < 0 || boundary(s, i) { i } else { fb(s, i + 1) }
}
/// the state that follows `q` and how far the end of the token moves
pub open spec fn step(s: Seq<u8>, q: int, e: int) -> (int, int) {
    let t = st(q);
    if e + t.k + t.need > s.len() { (t.none, 0) } else {
        let j = pick(t.ed, 0, s, e + t.k);
        if j < 0 { (t.dflt, 0) } else { (t.ed[j].to, t.ed[j].b) }
    }
}
/// the token that is set and its end
pub open spec fn go(s: Seq<u8>, q: int, e: int) -> (int, int) decreases s.len() - e, nst() - q {
    let t = st(q);
    if t.lab >= 0 { (t.lab, if t.lab == 100 { fb(s, e) } else if t.lab == 101 { fb(s, e + 1) } else { e }) } else {
        let (to, b) = step(s, q, e);
        if (b == 0 && q < to && to < nst()) || (b > 0 && e + b <= s.len()) { go(s, to, e + b) } else { (-1, e) }
    }
}

// ---------------------------------------------------------------- the checks that are computed
pub open spec fn within(r: Seq<(int, int)>, i: int, lo: int, hi: int) -> bool decreases r.len() - i {
    if i < 0 || i >= r.len() { true } else { lo <= r[i].0 && r[i].1 <= hi && within(r, i + 1, lo, hi) }
}
pub open spec fn avoids(r: Seq<(int, int)>, i: int, lo: int, hi: int) -> bool decreases r.len() - i {
    if i < 0 || i >= r.len() { true } else { (r[i].1 < lo || hi < r[i].0) && avoids(r, i + 1, lo, hi) }
}
pub open spec fn setcalm(r: Seq<(int, int)>) -> bool {
    avoids(r, 0, 0, 8) && avoids(r, 0, 10, 31) && avoids(r, 0, 127, 127) && avoids(r, 0, 92, 92) && avoids(r, 0, 59, 59) && avoids(r, 0, 34, 34)
}
pub open spec fn mstep(m: int, r: Seq<(int, int)>) -> int {
    if m > 0 { if within(r, 0, 128, 191) { m - 1 } else { 9 } }
    else if within(r, 0, 0, 127) { 0 } else if within(r, 0, 192, 223) { 1 } else if within(r, 0, 224, 239) { 2 } else if within(r, 0, 240, 247) { 3 } else { 9 }
}
pub open spec fn cstep(c: int, r: Seq<(int, int)>) -> int {
    if avoids(r, 0, 58, 58) { c } else if r.len() == 1 && r[0].0 == 58 && r[0].1 == 58 { 1 } else { 9 }
}
pub open spec fn mfold(p: Seq<Seq<(int, int)>>, i: int, m: int) -> int decreases p.len() - i {
    if i < 0 || i >= p.len() { m } else if mstep(m, p[i]) > 3 { 9 } else { mfold(p, i + 1, mstep(m, p[i])) }
}
pub open spec fn cfold(p: Seq<Seq<(int, int)>>, i: int, c: int) -> int decreases p.len() - i {
    if i < 0 || i >= p.len() { c } else if cstep(c, p[i]) > 1 { 9 } else { cfold(p, i + 1, cstep(c, p[i])) }
}
pub open spec fn calms(p: Seq<Seq<(int, int)>>, i: int) -> bool decreases p.len() - i {
    if i < 0 || i >= p.len() { true } else { setcalm(p[i]) && calms(p, i + 1) }
}
#[verifier::memoize] pub open spec fn pn(p: int) -> int { pat(p).len() as int }
#[verifier::memoize] pub open spec fn pm(p: int, m: int) -> int { mfold(pat(p), 0, m) }
#[verifier::memoize] pub open spec fn pc(p: int, c: int) -> int { cfold(pat(p), 0, c) }
#[verifier::memoize] pub open spec fn pcalm(p: int) -> bool { calms(pat(p), 0) }
/// a token of several characters, or one that does not stand for a delimiter, an escape, a line break or a control character
pub open spec fn special_n(lab: int) -> bool { lab == n_Begin() || lab == n_Version() || lab == n_End() }
pub open spec fn plain_n(lab: int) -> bool {
    lab != n_NewLine() && lab != n_Control() && lab != n_ParameterDelimiter() && lab != n_PropertyDelimiter() && lab != n_DoubleQuote()
        && lab != n_ValueDelimiter() && lab != n_EscapedBackSlash() && lab != n_EscapedComma() && lab != n_EscapedSemiColon() && lab != n_EscapedNewLine()
}
/// a miss
pub open spec fn fck(t: St, q: int, to: int) -> bool {
    let u = st(to);
    q < to && to < nst() && !aside(to) && u.ce == t.ce && u.me == t.me && u.z == t.z && (t.z == 1 ==> u.lab == 101 || (u.lab < 0 && u.k > 0)) &&
    (if u.lab == 101 { u.k == 0 && t.k >= 1 && t.ck == 0 } else if u.k == 0 { u.mk == u.me && u.ck == 0 } else { u.k == t.k && u.mk == t.mk && u.ck == t.ck })
}
/// a hit
pub open spec fn eck(t: St, q: int, d: Ed) -> bool {
    let u = st(d.to); let n = pn(d.p); let m = pm(d.p, t.mk); let c = pc(d.p, t.ck);
    1 <= n && n <= t.need && 0 <= d.to && d.to < nst() && !aside(d.to) && pcalm(d.p) && m <= 3 && c <= 1 && u.lab != 101 &&
    (if d.b == 0 { q < d.to && u.z == t.z && (t.z == 1 ==> u.lab < 0) && u.k == t.k + n && u.me == t.me && u.mk == m && u.ce == t.ce && u.ck == c }
     else { d.b == t.k + n && u.z == 0 && u.k == 0 && u.me == m && u.mk == m && u.ck == 0 && u.ce == (if t.ce == 1 { 1 } else { c }) })
}
pub open spec fn ecks(t: St, q: int, i: int) -> bool decreases t.ed.len() - i {
    if i < 0 || i >= t.ed.len() { true } else { eck(t, q, t.ed[i]) && ecks(t, q, i + 1) }
}
/// the states that follow the first byte of a token that starts with neither a delimiter nor a control character nor a backslash
pub open spec fn main_q(q: int) -> bool { st(q).lab < 0 || (plain_n(st(q).lab) && (st(q).lab < 100 ==> special_n(st(q).lab) == (st(q).ce == 1))) }
pub open spec fn ck(q: int) -> bool {
    let t = st(q);
    0 <= t.k && 0 <= t.me && t.me <= 3 && 0 <= t.mk && t.mk <= 3 && 0 <= t.ce && t.ce <= 1 && 0 <= t.ck && t.ck <= 1 && 0 <= t.z && t.z <= 1 && (t.z == 1 ==> t.ce == 0 && t.me == 0) &&
    (if t.lab >= 0 { t.k == 0 && t.lab <= 101 && (if t.lab >= 100 { t.ce == 0 } else { t.me == 0 && plain_n(t.lab) && special_n(t.lab) == (t.ce == 1) }) }
     else { 1 <= t.need && (t.k == 0 ==> t.mk == t.me && t.ck == 0) && fck(t, q, t.none) && fck(t, q, t.dflt) && ecks(t, q, 0) })
}
/// `ck` for the states that the main entry leads to (those for other first bytes are looked at one by one in `rootck`)
pub open spec fn ckr(lo: int, hi: int) -> bool decreases hi - lo {
    if hi <= lo { true } else if hi - lo == 1 { aside(lo) || ck(lo) } else { ckr(lo, (lo + hi) / 2) && ckr((lo + hi) / 2, hi) }
}
pub open spec fn pick1(ed: Seq<Ed>, i: int, b: int) -> int decreases ed.len() - i {
    if i < 0 || i >= ed.len() { -1 } else if pn(ed[i].p) != 1 { -2 } else if inset(pat(ed[i].p)[0], 0, b) { i } else { pick1(ed, i + 1, b) }
}
pub open spec fn to1(q: int, b: int) -> (int, int) { let t = st(q); let j = pick1(t.ed, 0, b); if j == -1 { (t.dflt, 0) } else if j < 0 { (-1, 0) } else { (t.ed[j].to, t.ed[j].b) } }
pub open spec fn one(q: int) -> bool { let t = st(q); t.lab < 0 && t.k == 0 && t.need == 1 }
/// reading `b` in state `q` sets token `lab` with the end moved by `n`
pub open spec fn sets(q: int, b: int, lab: int, n: int) -> bool { let x = to1(q, b); 0 <= x.0 && x.0 < nst() && x.1 == n && (n == 0 ==> q < x.0) && st(x.0).lab == lab }
pub open spec fn ctrl(b: int) -> bool { (b < 32 && b != 9) || b == 127 }
pub open spec fn cr1(q: int, b: int) -> bool { if b == 10 { sets(q, b, n_NewLine(), 1) } else { sets(q, b, n_Control(), 0) } }
pub open spec fn crck(q: int, lo: int, hi: int) -> bool decreases hi - lo { if hi <= lo { true } else if hi - lo == 1 { cr1(q, lo) } else { crck(q, lo, (lo + hi) / 2) && crck(q, (lo + hi) / 2, hi) } }
pub open spec fn bs1(q: int, b: int) -> bool {
    if b == 92 { sets(q, b, n_EscapedBackSlash(), 1) } else if b == 44 { sets(q, b, n_EscapedComma(), 1) } else if b == 59 { sets(q, b, n_EscapedSemiColon(), 1) }
    else if b == 110 || b == 78 { sets(q, b, n_EscapedNewLine(), 1) } else { sets(q, b, n_Text(), 0) }
}
pub open spec fn bsck(q: int, lo: int, hi: int) -> bool decreases hi - lo { if hi <= lo { true } else if hi - lo == 1 { bs1(q, lo) } else { bsck(q, lo, (lo + hi) / 2) && bsck(q, (lo + hi) / 2, hi) } }
#[verifier::memoize] pub open spec fn cr_q() -> int { to1(root(), 13).0 }
#[verifier::memoize] pub open spec fn bs_q() -> int { to1(root(), 92).0 }
pub open spec fn two(q: int, miss: int) -> bool { 0 <= q && q < nst() && one(q) && q < st(q).none && st(q).none < nst() && st(st(q).none).lab == miss }
/// the first byte
pub open spec fn root1(b: int) -> bool {
    let x = to1(root(), b); let u = st(x.0);
    if b == 10 { sets(root(), b, n_NewLine(), 1) }
    else if b == 13 { x.1 == 1 && two(x.0, n_Control()) && crck(x.0, 0, 256) }
    else if b == 92 { x.1 == 1 && two(x.0, n_Text()) && bsck(x.0, 0, 256) }
    else if ctrl(b) { sets(root(), b, n_Control(), 1) }
    else if b == 59 { sets(root(), b, n_ParameterDelimiter(), 1) }
    else if b == 58 { sets(root(), b, n_PropertyDelimiter(), 1) }
    else if b == 34 { sets(root(), b, n_DoubleQuote(), 1) }
    else if b == 61 { sets(root(), b, n_ValueDelimiter(), 1) }
    else if 128 <= b && b < 192 { true }
    else if 128 <= b && u.lab == 101 { 0 <= x.0 && x.0 < nst() && !aside(x.0) && x.1 == 0 && u.z == 1 && root() < x.0 }
    else if x.1 == 0 { 0 <= x.0 && x.0 < nst() && !aside(x.0) && root() < x.0 && u.lab < 0 && u.z == 1 && u.k == 1 && u.ce == 0 && u.ck == 0 && u.me == 0 && u.mk == mstep(0, seq![(b, b)]) }
    else { 0 <= x.0 && x.0 < nst() && !aside(x.0) && x.1 == 1 && u.z == 0 && u.lab != 101 && u.k == 0 && u.ce == 0 && u.me == u.mk && u.me == mstep(0, seq![(b, b)]) }
}
pub open spec fn rootck(lo: int, hi: int) -> bool decreases hi - lo { if hi <= lo { true } else if hi - lo == 1 { root1(lo) } else { rootck(lo, (lo + hi) / 2) && rootck((lo + hi) / 2, hi) } }
/// states that are not entered from a main state
#[verifier::memoize] pub open spec fn aside(q: int) -> bool { q == root() || q == cr_q() || q == bs_q() || (st(q).lab >= 0 && st(q).lab < 100 && !plain_n(st(q).lab)) || (st(q).lab == 102) }


// ---------------------------------------------------------------- names: computed
/// number of property names and of parameter names
pub open spec fn nn() -> int { names().len() as int }
pub open spec fn nk() -> int { keys().len() as int }
/// words: property names; parameter names; TZ and GEO as parameter or property, and after a group; lines of the frame; extension names (0 stands for a letter,
/// digit or hyphen) without and with a group
#[verifier::memoize] pub open spec fn word(w: int) -> Seq<u8> {
    let i = w - nn() - nk();
    if w < nn() { names()[w] } else if i < 0 { keys()[w - nn()] }
    else if i == 0 || i == 2 { tz_s() } else if i == 1 || i == 3 { geo_s() }
    else if i == 4 { begin_s() } else if i == 5 { end_s() } else if i == 6 { version_s(51) } else if i == 7 { version_s(52) }
    else { seq![88u8, 45, 0] }
}
pub open spec fn nw() -> int { nn() + nk() + 10 }
#[verifier::memoize] pub open spec fn wl(w: int) -> int { word(w).len() as int }
/// the last place of which something is known
#[verifier::memoize] pub open spec fn lst(w: int) -> int { if isx(w) { wl(w) } else { wl(w) + 1 } }
pub open spec fn isx(w: int) -> bool { w >= nn() + nk() + 8 }
#[verifier::memoize] pub open spec fn lab(w: int) -> int {
    let i = w - nn() - nk();
    if w < nn() { n_PropertyName() } else if i < 0 { n_ParameterKey() }
    else if i == 0 { n_TimeZone() } else if i == 1 { n_Geo() } else if i == 2 || i == 3 || i == 9 { n_PropertyName() }
    else if i == 4 { n_Begin() } else if i == 5 { n_End() } else if i == 6 || i == 7 { n_Version() } else { n_ExtensionName() }
}
pub open spec fn gset() -> Seq<(int, int)> { seq![(45, 45), (48, 57), (65, 90), (97, 122)] }
/// the bytes that may stand at place `y`: places below 0 are the group, 0 is the period, the word starts at 1, and one more byte follows it
#[verifier::memoize] pub open spec fn cls(w: int, y: int) -> Seq<(int, int)> {
    let i = w - nn() - nk();
    if y < 0 { gset() } else if y == 0 { seq![(46, 46)] }
    else if y <= wl(w) { let c = word(w)[y - 1] as int; if isx(w) && c == 0 { gset() } else if 65 <= c && c <= 90 { seq![(c, c), (c + 32, c + 32)] } else { seq![(c, c)] } }
    else if w < nn() || i == 2 || i == 3 { seq![(58, 59)] } else if i < 0 { seq![(61, 61)] } else if 4 <= i && i <= 7 { seq![(10, 10), (13, 13)] }
    else { seq![(58, 59), (61, 61)] }
}
/// every range of `c` lies in one range of `r`
pub open spec fn covers1(r: Seq<(int, int)>, i: int, x: (int, int)) -> bool decreases r.len() - i { if i < 0 || i >= r.len() { false } else { (r[i].0 <= x.0 && x.1 <= r[i].1) || covers1(r, i + 1, x) } }
pub open spec fn covers(r: Seq<(int, int)>, c: Seq<(int, int)>, i: int) -> bool decreases c.len() - i { if i < 0 || i >= c.len() { true } else { covers1(r, 0, c[i]) && covers(r, c, i + 1) } }
pub open spec fn disj(r: Seq<(int, int)>, c: Seq<(int, int)>, i: int) -> bool decreases c.len() - i { if i < 0 || i >= c.len() { true } else { avoids(r, 0, c[i].0, c[i].1) && disj(r, c, i + 1) } }
#[verifier::memoize] pub open spec fn tm(q: int, b: int) -> (int, int) { to1(q, b) }
/// some byte cannot be in its set / all bytes are in their sets
pub open spec fn missw(p: Seq<Seq<(int, int)>>, i: int, w: int, y: int) -> bool decreases p.len() - i { if i < 0 || i >= p.len() || y > lst(w) { false } else { disj(p[i], cls(w, y), 0) || missw(p, i + 1, w, y + 1) } }
pub open spec fn hitw(p: Seq<Seq<(int, int)>>, i: int, w: int, y: int) -> bool decreases p.len() - i { if i < 0 || i >= p.len() { true } else { y <= lst(w) && covers(p[i], cls(w, y), 0) && hitw(p, i + 1, w, y + 1) } }
#[verifier::memoize] pub open spec fn mw(p: int, w: int, y: int) -> bool { missw(pat(p), 0, w, y) }
#[verifier::memoize] pub open spec fn hw(p: int, w: int, y: int) -> bool { hitw(pat(p), 0, w, y) }
/// a state that reads letters, digits and hyphens until something else comes, and then sets `l`
#[verifier::memoize] pub open spec fn loopq(q: int, l: int) -> bool {
    one(q) && ls(q, gset(), 0) && sets(q, 58, l, 0) && sets(q, 59, l, 0) && sets(q, 61, l, 0)
}
pub open spec fn lb(q: int, lo: int, hi: int) -> bool decreases hi + 1 - lo { if hi < lo { true } else { to1(q, lo) == (q, 1int) && lb(q, lo + 1, hi) } }
pub open spec fn ls(q: int, c: Seq<(int, int)>, i: int) -> bool decreases c.len() - i { if i < 0 || i >= c.len() { true } else { lb(q, c[i].0, c[i].1) && ls(q, c, i + 1) } }
/// from state `q` with the end of the token at place `x`, the lexer sets the word's token at its end
#[verifier::memoize] pub open spec fn ex(q: int, x: int, w: int) -> bool decreases wl(w) + 2 - x, nst() - q, 2int, 0int {
    let t = st(q); let c = x + t.k; let n = wl(w) + 1;
    if q < 0 || q >= nst() || x > n || t.k < 0 || t.need < 1 && t.lab < 0 { false }
    else if t.lab >= 0 { t.lab == lab(w) && x == n && !isx(w) }
    else if isx(w) && x == n { t.k == 0 && loopq(q, lab(w)) }
    else if t.need == 1 && c <= lst(w) { exs(q, x, w, 0) }
    else { (c + t.need - 1 <= lst(w) || ok(q, t.none, x, 0, w)) && exe(q, x, w, 0) }
}
pub open spec fn ok(q: int, to: int, x: int, b: int, w: int) -> bool decreases wl(w) + 2 - x, nst() - q, 0int, 0int {
    if (b == 0 && q < to && to < nst()) || (b > 0 && x + b <= wl(w) + 1) { ex(to, x + b, w) } else { false }
}
pub open spec fn exs(q: int, x: int, w: int, i: int) -> bool decreases wl(w) + 2 - x, nst() - q, 1int, cls(w, x + st(q).k).len() - i {
    let c = cls(w, x + st(q).k);
    if i < 0 || i >= c.len() { true } else { exb(q, x, w, c[i].0, c[i].1) && exs(q, x, w, i + 1) }
}
pub open spec fn exb(q: int, x: int, w: int, lo: int, hi: int) -> bool decreases wl(w) + 2 - x, nst() - q, 0int, hi + 1 - lo {
    if hi < lo { true } else { let (to, b) = tm(q, lo); to >= 0 && ok(q, to, x, b, w) && exb(q, x, w, lo + 1, hi) }
}
pub open spec fn exe(q: int, x: int, w: int, i: int) -> bool decreases wl(w) + 2 - x, nst() - q, 1int, st(q).ed.len() - i {
    let t = st(q);
    if i < 0 || i >= t.ed.len() { ok(q, t.dflt, x, 0, w) } else {
        let d = t.ed[i]; let y = x + t.k;
        if mw(d.p, w, y) { exe(q, x, w, i + 1) }
        else if y + pn(d.p) - 1 > lst(w) { false }
        else { ok(q, d.to, x, d.b, w) && (hw(d.p, w, y) || exe(q, x, w, i + 1)) }
    }
}
/// states that are entered after a part of a group has been read
#[verifier::memoize] pub open spec fn isfar(q: int) -> bool { inset(farset(), 0, q) }
/// reading letters, digits and hyphens stays among them
pub open spec fn fok(q: int, to: int, b: int) -> bool {
    let t = st(q); let u = st(to);
    0 <= to && to < nst() && isfar(to) && (b > 0 || (b == 0 && q < to)) && u.lab < 0 && 0 <= u.k && u.k + b <= t.k + t.need
}
pub open spec fn fb1(q: int, lo: int, hi: int) -> bool decreases hi + 1 - lo { if hi < lo { true } else { let (to, b) = tm(q, lo); fok(q, to, b) && fb1(q, lo + 1, hi) } }
pub open spec fn fs(q: int, c: Seq<(int, int)>, i: int) -> bool decreases c.len() - i { if i < 0 || i >= c.len() { true } else { fb1(q, c[i].0, c[i].1) && fs(q, c, i + 1) } }
pub open spec fn fe(q: int, i: int) -> bool decreases st(q).ed.len() - i {
    let t = st(q);
    if i < 0 || i >= t.ed.len() { fok(q, t.dflt, 0) } else {
        pn(t.ed[i].p) <= t.need && (mw(t.ed[i].p, 0, -100) || fok(q, t.ed[i].to, t.ed[i].b)) && fe(q, i + 1)
    }
}
pub open spec fn farck(q: int) -> bool { let t = st(q); t.lab < 0 && 0 <= t.k && 1 <= t.need && t.need < 50 && (if t.need == 1 { fs(q, gset(), 0) } else { fe(q, 0) }) }
pub open spec fn farw(q: int, j: int, w: int) -> bool decreases st(q).need - j { if j < 0 || j >= st(q).need { true } else { ex(q, -(st(q).k + j), w) && farw(q, j + 1, w) } }
pub open spec fn far1(lo: int, hi: int, w: int) -> bool decreases hi + 1 - lo { if hi < lo { true } else { (if w < 0 { farck(lo) } else { farw(lo, 0, w) }) && far1(lo + 1, hi, w) } }
/// `w < 0`: the states themselves; otherwise: the word after the period
pub open spec fn fars(i: int, w: int) -> bool decreases farset().len() - i { if i < 0 || i >= farset().len() { true } else { far1(farset()[i].0, farset()[i].1, w) && fars(i + 1, w) } }
pub open spec fn grouped(w: int) -> bool { w < nn() || w == nn() + nk() + 2 || w == nn() + nk() + 3 || w == nn() + nk() + 9 }
pub open spec fn plainw(w: int) -> bool { !(w == nn() + nk() + 2 || w == nn() + nk() + 3 || w == nn() + nk() + 9) }
pub open spec fn wck(w: int) -> bool { wl(w) >= 1 && 0 <= lab(w) && lab(w) < 100 && (plainw(w) ==> ex(root(), 1, w)) && (grouped(w) ==> fars(0, w)) }
pub open spec fn wcks(lo: int, hi: int) -> bool decreases hi - lo { if hi <= lo { true } else { wck(lo) && wcks(lo + 1, hi) } }
/// the first byte of a group
pub open spec fn rootfar() -> bool { one(root()) && fs(root(), gset(), 0) }
/// where the words of a kind start: six slices of the property names; parameter names; TZ and GEO; the frame; extension names
pub open spec fn part(k: int) -> int { if k <= 6 { nn() * k / 6 } else if k == 7 { nn() + nk() } else if k == 8 { nn() + nk() + 4 } else if k == 9 { nn() + nk() + 8 } else { nw() } }
}
