@fn parser::VcardParser::parse
@group crate::spec_v::group_val
@hide vend nl cards_at card_at valid
ensures ({ let o = cards_at(self.source@, 0, self.strict);
    &&& r is Ok <==> o is Some && (o->0).len() > 0
    &&& r is Ok ==> (r->Ok_0)@ == o->0 })
@ghost loop 0 before
let ghost s = lex.src(); let ghost strict = self.strict; let ghost all = cards_at(s, 0, strict);
proof { assert(cards@ =~= Seq::<Vcard>::empty()); assert(after(cards@, all) == all) by { if all is Some { assert(Seq::<Vcard>::empty() + all->0 =~= all->0); } } }
@loop 0
invariant_except_break all == after(cards@, cards_at(s, lex.en(), strict))
invariant lex.ok(), lex.src() == s, s == self.source@, strict == self.strict, all == cards_at(s, 0, strict),
ensures all == Some(cards@)
decreases s.len() - lex.en()
@ghost loop 0 top
let ghost p = lex.en();
proof { lemma_cards(s, p, strict); if p < s.len() { lemma_card_in(s, p, strict); if card_at(s, p, strict) is Some { lemma_after(cards@, (card_at(s, p, strict)->0).0, cards_at(s, tok_end(s, (card_at(s, p, strict)->0).1), strict)); } } else { lemma_after_end(cards@); } }
@fn iter::VcardIterator::new
ensures r.parser.source@ == unf(source@), r.parser.strict == strict, r.offset == 0, r.it_pre()
@fn iter::VcardIterator::skip_newlines
requires offset <= self.parser.source@.len(), boundary(self.parser.source@, offset as int)
ensures r == skip_nl(self.parser.source@, offset as int)
@ghost loop 0 before
let ghost s = self.parser.source@; let ghost all = skip_nl(s, offset as int);
@loop 0
invariant_except_break start == lex.en(), all == skip_nl(s, lex.en())
invariant lex.ok(), lex.src() == s, s == self.parser.source@,
ensures start == all
decreases s.len() - lex.en()
@ghost loop 0 top
proof { lemma_skip_nl(s, lex.en()); }
@fn iter::VcardIterator::skip_card
@hide skip_end
requires offset <= self.parser.source@.len(), boundary(self.parser.source@, offset as int)
ensures r == skip_end(self.parser.source@, offset as int, true)
@ghost loop 0 before
let ghost s = self.parser.source@; let ghost all = skip_end(s, offset as int, true);
@loop 0
invariant_except_break all == skip_end(s, lex.en(), line_start)
invariant lex.ok(), lex.src() == s, s == self.parser.source@, all == skip_end(s, offset as int, true)
ensures all == s.len()
decreases s.len() - lex.en()
@ghost loop 0 top
proof { lemma_skip_end(s, lex.en(), line_start); }
@fn iter::VcardIterator::parse_next
@hide card_at valid
requires offset <= self.parser.source@.len(), boundary(self.parser.source@, offset as int)
ensures ({ let o = if offset < self.parser.source@.len() { next_card(self.parser.source@, offset as int, self.parser.strict) } else { None };
    &&& r is Ok <==> o is Some
    &&& r is Ok ==> (r->Ok_0).0 == (o->0).0 && (r->Ok_0).1.end == (o->0).1 })
@impl iter::<VcardIterator as Iterator>
open spec fn it_pre(&self) -> bool { self.offset <= self.parser.source@.len() && boundary(self.parser.source@, self.offset as int) && wf(self.parser.source@) }
open spec fn it_post(a: Self, b: Self, r: Option<Result<Vcard>>) -> bool {
    let (x, q) = step(a.parser.source@, a.offset as int, a.parser.strict);
    &&& b.it_pre() && b.parser == a.parser && b.offset == q
    &&& (r is Some <==> x is Some)
    &&& r is Some ==> (r->0 is Ok <==> x->0 is Some) && (r->0 is Ok ==> r->0->Ok_0 == x->0->0)
}
@fn iter::<VcardIterator as Iterator>::next
@hide step skip_nl skip_end next_card items
@ghost start
let ghost s = self.parser.source@; let ghost strict = self.parser.strict; proof { reveal(step); lemma_step(s, self.offset as int, strict); lemma_skip_nl(s, self.offset as int); }
@fn parse
@hide cards_at unf
ensures ({ let o = cards_at(unf(input.ar()), 0, true);
    &&& r is Ok <==> o is Some && (o->0).len() > 0
    &&& r is Ok ==> (r->Ok_0)@ == o->0 })
@fn parse_loose
@hide cards_at unf
ensures ({ let o = cards_at(unf(input.ar()), 0, false);
    &&& r is Ok <==> o is Some && (o->0).len() > 0
    &&& r is Ok ==> (r->Ok_0)@ == o->0 })
@fn iter
@hide unf
ensures r.parser.source@ == unf(source@), r.parser.strict == strict, r.offset == 0, r.it_pre()
@impl vcard::<Vcard as TryFrom<&str>>
open spec fn try_post(v: &str, r: Result<Self>) -> bool { let x = step(unf(v@), 0, true).0; (r is Ok <==> x is Some && x->0 is Some) && (r is Ok ==> r->Ok_0 == x->0->0) }
