/// documents: cards, the iterator, strict and loose parsing compared
pub mod spec_k {
use ::vstd::prelude::*;
use crate::spec_g::*;
use crate::spec_v::*;
use crate::spec_t::*;
use crate::spec_p::*;
use crate::spec_b::*;
use crate::sh::{wf, boundary, upper};
use crate::parser::Token;
use crate::vcard::Vcard;
use crate::parameter::Parameters;
broadcast use crate::sh::group_sh;

pub proof fn lemma_nl_boundary(s: Seq<u8>, p: int)
    requires wf(s), 0 <= p <= s.len()
    ensures boundary(s, nl(s, p)), p <= nl(s, p) <= s.len(), p < s.len() ==> p < nl(s, p)
    decreases s.len() - p
{ lemma_nl_up(s, p); if p < s.len() { if s[p] == 10 { lemma_boundary_after(s, p); } else { lemma_nl_boundary(s, p + 1); } } }
/// the END of a card lies inside the source
pub proof fn lemma_props_in(s: Seq<u8>, p: int, strict: bool, a: Vcard)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures props(s, p, strict, a) is Some ==> p <= (props(s, p, strict, a)->0).1 < s.len() && boundary(s, (props(s, p, strict, a)->0).1) && tok(s, (props(s, p, strict, a)->0).1) == Tok::Ok(Token::End)
    decreases s.len() - p
{
    hide(props); hide(nl); hide(line_at);
    lemma_props(s, p, strict, a);
    if p < s.len() {
        lemma_nl_boundary(s, p);
        match line_at(s, p, strict, a) { Some(b) => { lemma_props_in(s, nl(s, p), strict, b); } None => { lemma_props_in(s, nl(s, p), strict, a); } }
    }
}
pub proof fn lemma_card_in(s: Seq<u8>, p: int, strict: bool)
    requires wf(s), 0 <= p < s.len(), boundary(s, p)
    ensures p < tok_end(s, p) <= s.len() && boundary(s, tok_end(s, p)),
        card_at(s, p, strict) is Some ==> ({ let x = (card_at(s, p, strict)->0).1; p < x < tok_end(s, x) <= s.len() && boundary(s, tok_end(s, x)) && tok(s, x) == Tok::Ok(Token::End) })
{
    hide(props);
    lemma_line_tok(s, p);
    let e1 = tok_end(s, p);
    if is_nl(s, e1) {
        lemma_line_tok(s, e1); let e2 = tok_end(s, e1);
        if is_ver(s, e2) {
            lemma_line_tok(s, e2); let e3 = tok_end(s, e2);
            if is_nl(s, e3) {
                lemma_line_tok(s, e3); let e4 = tok_end(s, e3);
                lemma_props_in(s, e4, strict, vcard0());
                if props(s, e4, strict, vcard0()) is Some { lemma_line_tok(s, (props(s, e4, strict, vcard0())->0).1); }
            }
        }
    }
}
pub proof fn lemma_cards(s: Seq<u8>, p: int, strict: bool)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures cards_at(s, p, strict) == (
        if p >= s.len() { Some(Seq::empty()) }
        else if is_nl(s, p) { cards_at(s, tok_end(s, p), strict) }
        else {
            match card_at(s, p, strict) {
                None => None,
                Some(x) => if !valid(x.0) { None } else { match cards_at(s, tok_end(s, x.1), strict) { None => None, Some(v) => Some(seq![x.0] + v) } },
            }
        })
{ hide(card_at); if p < s.len() { lemma_card_in(s, p, strict); } }

/// the cards `a` followed by the cards of the rest
pub open spec fn after(a: Seq<Vcard>, o: Option<Seq<Vcard>>) -> Option<Seq<Vcard>> { match o { None => None, Some(v) => Some(a + v) } }
pub proof fn lemma_after(a: Seq<Vcard>, c: Vcard, o: Option<Seq<Vcard>>)
    ensures after(a, match o { None => None, Some(v) => Some(seq![c] + v) }) == after(a.push(c), o)
{ if o is Some { assert(a + (seq![c] + o->0) =~= a.push(c) + o->0); } }
pub proof fn lemma_after_end(a: Seq<Vcard>)
    ensures after(a, Some(Seq::empty())) == Some(a)
{ assert(a + Seq::<Vcard>::empty() =~= a); }

// ---------------------------------------------------------------- the iterator
/// the first position from `p` on that does not start with a newline
pub open spec fn skip_nl(s: Seq<u8>, p: int) -> int decreases s.len() - p {
    if !is_nl(s, p) || tok_end(s, p) <= p || tok_end(s, p) > s.len() { p } else { skip_nl(s, tok_end(s, p)) }
}
/// the position after the first END at the start of a line; the end of the source without one
pub open spec fn skip_end(s: Seq<u8>, p: int, line_start: bool) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() || tok_end(s, p) <= p || tok_end(s, p) > s.len() { s.len() as int }
    else if line_start && tok(s, p) == Tok::Ok(Token::End) { tok_end(s, p) }
    else { skip_end(s, tok_end(s, p), tok(s, p) == Tok::Ok(Token::NewLine)) }
}
/// the card that starts at `p`, when it is valid, and the position after it
pub open spec fn next_card(s: Seq<u8>, p: int, strict: bool) -> Option<(Vcard, int)> {
    match card_at(s, p, strict) { None => None, Some(x) => if valid(x.0) { Some((x.0, tok_end(s, x.1))) } else { None } }
}
/// the item an iterator at `p` yields and where it stands afterwards
pub open spec fn step(s: Seq<u8>, p: int, strict: bool) -> (Option<Option<Vcard>>, int) {
    let q = skip_nl(s, p);
    if q >= s.len() { (None, q) } else { match next_card(s, q, strict) { Some(x) => (Some(Some(x.0)), x.1), None => (Some(None), skip_end(s, q, true)) } }
}
/// everything an iterator at `p` yields
pub open spec fn items(s: Seq<u8>, p: int, strict: bool) -> Seq<Option<Vcard>> decreases s.len() - p {
    let (x, q) = step(s, p, strict);
    if x is None || p < 0 || q <= p || q > s.len() { Seq::empty() } else { seq![x->0] + items(s, q, strict) }
}
pub proof fn lemma_skip_nl(s: Seq<u8>, p: int)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures p <= skip_nl(s, p) <= s.len(), boundary(s, skip_nl(s, p)), !is_nl(s, skip_nl(s, p)), skip_nl(s, p) == if is_nl(s, p) { skip_nl(s, tok_end(s, p)) } else { p },
    decreases s.len() - p
{ if is_nl(s, p) { lemma_line_tok(s, p); lemma_skip_nl(s, tok_end(s, p)); } }
pub proof fn lemma_skip_end(s: Seq<u8>, p: int, ls: bool)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures p <= skip_end(s, p, ls) <= s.len(), p < s.len() ==> p < skip_end(s, p, ls), boundary(s, skip_end(s, p, ls)),
        skip_end(s, p, ls) == (if p >= s.len() { s.len() as int } else if ls && tok(s, p) == Tok::Ok(Token::End) { tok_end(s, p) } else { skip_end(s, tok_end(s, p), tok(s, p) == Tok::Ok(Token::NewLine)) }),
    decreases s.len() - p
{ if p < s.len() { lemma_line_tok(s, p); lemma_skip_end(s, tok_end(s, p), tok(s, p) == Tok::Ok(Token::NewLine)); } }
/// an iterator always moves on, and stays inside the source
pub proof fn lemma_step(s: Seq<u8>, p: int, strict: bool)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures ({ let (x, q) = step(s, p, strict); p <= q <= s.len() && boundary(s, q) && (x is Some ==> p < q) && (x is None ==> q == s.len()) }),
        items(s, p, strict) == ({ let (x, q) = step(s, p, strict); if x is None { Seq::empty() } else { seq![x->0] + items(s, q, strict) } }),
{ hide(card_at); hide(skip_nl); hide(skip_end); lemma_skip_nl(s, p); let q = skip_nl(s, p); lemma_skip_end(s, q, true); if q < s.len() { lemma_card_in(s, q, strict); } }

// ---------------------------------------------------------------- C03: the iterator ends
/// at most one item per byte of source
pub proof fn lemma_items_len(s: Seq<u8>, p: int, strict: bool)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures items(s, p, strict).len() <= s.len() - p
    decreases s.len() - p
{ hide(step); hide(items); lemma_step(s, p, strict); let (x, q) = step(s, p, strict); if x is Some { lemma_items_len(s, q, strict); } }

// ---------------------------------------------------------------- C04: iterating gives the cards of the whole document
pub open spec fn all_some(v: Seq<Option<Vcard>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Some }
pub open spec fn oks(v: Seq<Vcard>) -> Seq<Option<Vcard>> { Seq::new(v.len(), |i: int| Some(v[i])) }
pub proof fn lemma_cards_skip(s: Seq<u8>, p: int, strict: bool)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures cards_at(s, p, strict) == cards_at(s, skip_nl(s, p), strict)
    decreases s.len() - p
{ hide(cards_at); lemma_cards(s, p, strict); lemma_skip_nl(s, p); if is_nl(s, p) { lemma_line_tok(s, p); lemma_cards_skip(s, tok_end(s, p), strict); } }
/// the document parses as a whole exactly if iterating reports no error, and then both give the same cards
pub proof fn lemma_iter_cards(s: Seq<u8>, p: int, strict: bool)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures cards_at(s, p, strict) is Some <==> all_some(items(s, p, strict)),
        cards_at(s, p, strict) is Some ==> items(s, p, strict) =~= oks(cards_at(s, p, strict)->0)
    decreases s.len() - p
{
    hide(cards_at); hide(items); hide(card_at); hide(skip_nl); hide(skip_end); hide(valid);
    let q = skip_nl(s, p);
    lemma_cards_skip(s, p, strict); lemma_skip_nl(s, p); lemma_cards(s, q, strict); lemma_step(s, p, strict);
    let (x, e) = step(s, p, strict);
    if x is Some {
        lemma_card_in(s, q, strict);
        lemma_iter_cards(s, e, strict);
        let v = items(s, p, strict); let w = items(s, e, strict);
        assert(v[0] == x->0);
        assert(forall|i: int| 0 <= i < w.len() ==> v[i + 1] == w[i]);
        if all_some(v) { assert(v[0] is Some); assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Some by { assert(v[i + 1] == w[i]); } }
        if all_some(w) && x->0 is Some { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]) is Some by { if i > 0 { assert(v[i] == w[i - 1]); } } }
        if cards_at(s, p, strict) is Some { let c = cards_at(s, p, strict)->0; let d = cards_at(s, e, strict)->0; assert(c =~= seq![x->0->0] + d); assert(v =~= oks(c)) by { assert forall|i: int| 0 <= i < v.len() implies v[i] == oks(c)[i] by { if i > 0 { assert(v[i] == w[i - 1]); assert(w[i - 1] == oks(d)[i - 1]); } } } }
    } else { assert(items(s, p, strict) =~= Seq::empty()); assert(cards_at(s, q, strict)->0 =~= Seq::empty()); }
}

// ---------------------------------------------------------------- C05: every card of a document is valid
pub proof fn lemma_cards_valid(s: Seq<u8>, p: int, strict: bool)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures cards_at(s, p, strict) is Some ==> forall|i: int| 0 <= i < (cards_at(s, p, strict)->0).len() ==> valid(#[trigger] (cards_at(s, p, strict)->0)[i])
    decreases s.len() - p
{
    hide(cards_at); hide(card_at); hide(valid); lemma_cards(s, p, strict);
    if p < s.len() { lemma_card_in(s, p, strict); if is_nl(s, p) { lemma_cards_valid(s, tok_end(s, p), strict); } else if card_at(s, p, strict) is Some { lemma_cards_valid(s, tok_end(s, (card_at(s, p, strict)->0).1), strict); } }
}

// ---------------------------------------------------------------- C13: strict parsing, loosely
pub proof fn lemma_par_loose(u: Seq<u8>, t: Tok, n: Seq<u8>, v: Seq<u8>, qt: bool, a: Parameters)
    ensures put_par(true, u, t, n, v, qt, a) is Some ==> put_par(false, u, t, n, v, qt, a) == put_par(true, u, t, n, v, qt, a)
{ }
/// parameters that parse strictly parse loosely, to the same
pub proof fn lemma_pars_loose(s: Seq<u8>, p: int, u: Seq<u8>, a: Parameters)
    ensures pars(s, p, true, u, a) is Some ==> pars(s, p, false, u, a) == pars(s, p, true, u, a)
    decreases s.len() - p
{
    hide(pv); hide(put_par); hide(pars);
    lemma_pars(s, p, true, u, a); lemma_pars(s, p, false, u, a);
    if p < s.len() {
        let e = tok_end(s, p);
        match pv(s, e + 1) {
            Some(x) => { lemma_par_loose(u, tok(s, p), s.subrange(p, e), x.0, x.1, a); match put_par(true, u, tok(s, p), s.subrange(p, e), x.0, x.1, a) { Some(b) => { if p < x.2 <= s.len() { lemma_pars_loose(s, x.2, u, b); } } None => {} } }
            None => {}
        }
    }
}
pub proof fn lemma_line_loose(s: Seq<u8>, p: int, a: Vcard)
    ensures line_at(s, p, true, a) is Some ==> line_at(s, p, false, a) == line_at(s, p, true, a)
{ hide(pars); hide(put_at); lemma_pars_loose(s, tok_end(s, p) + 1, upper(name_of(s.subrange(p, tok_end(s, p)))), params0()); }
pub proof fn lemma_props_loose(s: Seq<u8>, p: int, a: Vcard)
    requires wf(s), 0 <= p <= s.len()
    ensures props(s, p, true, a) is Some ==> props(s, p, false, a) == props(s, p, true, a)
    decreases s.len() - p
{
    hide(props); hide(line_at); hide(nl);
    lemma_props(s, p, true, a); lemma_props(s, p, false, a);
    if p < s.len() { lemma_line_loose(s, p, a); match line_at(s, p, true, a) { Some(b) => { lemma_props_loose(s, nl(s, p), b); } None => {} } }
}
pub proof fn lemma_card_loose(s: Seq<u8>, p: int)
    requires wf(s), 0 <= p < s.len(), boundary(s, p)
    ensures card_at(s, p, true) is Some ==> card_at(s, p, false) == card_at(s, p, true)
{
    hide(props);
    lemma_line_tok(s, p); let e1 = tok_end(s, p);
    if is_nl(s, e1) { lemma_line_tok(s, e1); let e2 = tok_end(s, e1); if is_ver(s, e2) { lemma_line_tok(s, e2); let e3 = tok_end(s, e2); if is_nl(s, e3) { lemma_line_tok(s, e3); lemma_props_loose(s, tok_end(s, e3), vcard0()); } } }
}
/// a document that parses strictly parses loosely, to the same cards
pub proof fn lemma_cards_loose(s: Seq<u8>, p: int)
    requires wf(s), 0 <= p <= s.len(), boundary(s, p)
    ensures cards_at(s, p, true) is Some ==> cards_at(s, p, false) == cards_at(s, p, true)
    decreases s.len() - p
{
    hide(cards_at); hide(card_at); hide(valid); lemma_cards(s, p, true); lemma_cards(s, p, false);
    if p < s.len() { lemma_card_in(s, p, true); lemma_card_loose(s, p); if is_nl(s, p) { lemma_cards_loose(s, tok_end(s, p)); } else if card_at(s, p, true) is Some { lemma_cards_loose(s, tok_end(s, (card_at(s, p, true)->0).1)); } }
}
}
