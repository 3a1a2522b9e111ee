//# ------------------------------------------------------------------ parameters, properties, cards
@fn parser::VcardParser::parse_parameters
@group crate::spec_g::group_par_val
@hide pars pv nl no10 wf boundary
requires old(lex).ok()
ensures lexed(*old(lex), *final(lex)), final(lex).st() >= old(lex).en(),
  ({ let (s, p) = (old(lex).src(), old(lex).en()); let o = pars(s, p, self.strict, upper(name@), params0());
    &&& r is Ok <==> o is Some
    &&& r is Ok ==> r->Ok_0 == (o->0).0 && final(lex).en() == (o->0).1 && no10(s, p, final(lex).en())
    &&& r is Err ==> frame(s, p, final(lex).st(), final(lex).en()) })
@ghost start
let ghost s = lex.src(); let ghost p0 = lex.en(); let ghost u = upper(name@); let ghost strict = self.strict; let ghost all = pars(s, p0, strict, u, params0());
proof { crate::lits::ax_codes(); lemma_no10(s, p0, p0, p0); if p0 < s.len() { lemma_line_tok(s, p0); } lemma_pars(s, p0, strict, u, params0()); }
@ghost loop 0 before
assert(params == params0());
@loop 0
invariant_except_break lex.ok(), lex.src() == s, p0 <= lex.st(), next is None ==> lex.en() == s.len() && all == Some((params, s.len() as int)) && no10(s, p0, lex.en()),
  next is Some ==> lex.st() < s.len() && next->0 == tok(s, lex.st()) && lex.en() == tok_end(s, lex.st()) && no10(s, p0, lex.st()) && all == pars(s, lex.st(), strict, u, params),
invariant s == old(lex).src(), p0 == old(lex).en(), u == upper(name@), strict == self.strict, all == pars(s, p0, strict, u, params0()), u == property_upper_name@, wf(s), 0 <= p0 <= s.len(),
ensures lex.ok(), lex.src() == s, p0 <= lex.st(), all == Some((params, lex.en())), no10(s, p0, lex.en()),
decreases 2 * (s.len() - lex.en()) + (if next is Some { 1int } else { 0 })
@ghost loop 0 top
let ghost a0 = params; let ghost p = lex.st(); let ghost e = lex.en(); 
proof { if next is Some { lemma_line_tok(s, p); lemma_pars(s, p, strict, u, params); lemma_no10(s, p0, p, e); lemma_frames(s, p0, p); if tok(s, p) != Tok::Ok(Token::NewLine) { lemma_frames(s, p0, e); lemma_no10(s, p0, e, e + 1); if e < s.len() && s[e] == 61 { lemma_line_tok(s, e); lemma_frames(s, p0, e + 1); } } if e < s.len() { lemma_line_tok(s, e); } lemma_pv(s, e + 1); } }
@ghost call split 0 before
let ghost vt = value@;
@loop 1
invariant lex.ok(), lex.src() == s, p0 <= lex.st(), s == old(lex).src(), p0 == old(lex).en(), u == upper(name@), strict == self.strict, all == pars(s, p0, strict, u, params0()), frame(s, p0, lex.st(), lex.en()),
  pids_of(vt) is None ==> all is None, __all_1.len() == split_b(vt, 44).len(), forall|i: int| 0 <= i < __all_1.len() ==> (#[trigger] __all_1[i])@ == split_b(vt, 44)[i],
  pids@.len() == __all_1.len() - __it_1@.len(), forall|i: int| 0 <= i < pids@.len() ==> pid_of(#[trigger] split_b(vt, 44)[i]) == Some(pids@[i])
@ghost loop 1 start
proof { assert(value@ == split_b(vt, 44)[__all_1.len() - __it_1@.len() - 1]); }
@ghost loop 1 after
proof { lemma_pids(vt, pids); }
@loop 2
invariant __all_2.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_2.len() ==> (#[trigger] __all_2[i])@ == split_b(value@, 44)[i],
  type_params@.len() == __all_2.len() - __it_2@.len(), forall|i: int| 0 <= i < type_params@.len() ==> type_of(#[trigger] split_b(value@, 44)[i]) == type_params@[i]
@ghost loop 2 after
proof { assert(type_params@ =~= types_of(value@)); }
@ghost call parse_parameter_value 0 after
proof { lemma_no10(s, p0, e + 1, lex.en()); lemma_line_tok(s, lex.st()); if lex.en() < s.len() { lemma_line_tok(s, lex.en()); } }
@ghost loop 0 end
proof { if next is None { lemma_pars(s, lex.en(), strict, u, params); } }
@fn parser::VcardParser::parse_property
@group crate::spec_g::group_prop
@hide vend nl dec split_dec pars put no10 wf
requires old(lex).ok(), old(lex).st() < old(lex).en(), old(lex).en() == tok_end(old(lex).src(), old(lex).st()), token == tok(old(lex).src(), old(lex).st()), token != Tok::Ok(Token::NewLine)
ensures lexed(*old(lex), *final(lex)),
  ({ let (s, p) = (old(lex).src(), old(lex).st()); let o = prop_at(s, p, self.strict, *old(card));
    &&& r is Ok <==> o is Some
    &&& r is Ok ==> *final(card) == o->0 && final(lex).en() == nl(s, p)
    &&& r is Err ==> *final(card) == *old(card) && frame(s, p, final(lex).st(), final(lex).en()) })
@ghost start
let ghost s = lex.src(); let ghost p = lex.st(); let ghost e = lex.en();
proof { lemma_line_tok(s, p); lemma_nl(s, p, e); lemma_frames(s, p, e); if e < s.len() { lemma_line_tok(s, e); lemma_no10(s, p, e, tok_end(s, e)); if s[e] == 58 || s[e] == 59 { lemma_frames(s, p, e + 1); lemma_nl(s, p, e + 1); } } }
@ghost let group_name 0 before
proof { lemma_boundary_after(name@, pos as int); }
@ghost call parse_parameters 0 after
proof { lemma_no10(s, p, e + 1, lex.en()); lemma_frames(s, p, lex.en()); lemma_nl(s, p, lex.en()); }
@fn parser::VcardParser::parse_properties
@group crate::spec_v::group_val
@hide vend nl props prop_at
requires old(lex).ok()
ensures lexed(*old(lex), *final(lex)),
  ({ let (s, p) = (old(lex).src(), old(lex).en()); let o = props(s, p, self.strict, *old(card));
    &&& r is Ok <==> o is Some
    &&& r is Ok ==> *final(card) == (o->0).0 && final(lex).st() == (o->0).1 && final(lex).en() == tok_end(s, (o->0).1) && (o->0).1 < s.len() })
@ghost start
let ghost s = lex.src(); let ghost p0 = lex.en(); let ghost all = props(s, p0, self.strict, *card);
@loop 0
invariant_except_break all == props(s, lex.en(), self.strict, *card)
invariant lex.ok(), lex.src() == s, s == old(lex).src(), p0 == old(lex).en(), p0 <= lex.en(), all == props(s, p0, self.strict, *old(card)),
ensures all is None
decreases s.len() - lex.en()
@ghost loop 0 top
let ghost p = lex.en();
proof { lemma_props(s, p, self.strict, *card); if p < s.len() { lemma_line_tok(s, p); lemma_frames(s, p, p); } }
@ghost call skip_line 0 before
proof { if no10(s, p, lex.en()) { lemma_nl(s, p, lex.en()); } }
@fn parser::VcardParser::parse_one
@group crate::spec_v::group_val
@hide vend nl props
requires old(lex).ok(), first is Some, old(lex).st() < old(lex).en(), old(lex).en() == tok_end(old(lex).src(), old(lex).st()), first->0 == tok(old(lex).src(), old(lex).st())
ensures lexed(*old(lex), *final(lex)),
  ({ let (s, p) = (old(lex).src(), old(lex).st()); let o = card_at(s, p, self.strict);
    &&& r is Ok <==> o is Some
    &&& r is Ok ==> (r->Ok_0).0 == (o->0).0 && (r->Ok_0).1.start == (o->0).1 && (r->Ok_0).1.end == tok_end(s, (o->0).1) && final(lex).en() == tok_end(s, (o->0).1) })
@ghost call parse_properties 0 before
proof { assert(card == vcard0()); }
