//# ------------------------------------------------------------------ tokens
@fn parser::VcardParser::lexer
ensures r.ok(), r.src() == self.source@, r.st() == 0, r.en() == 0
@fn parser::VcardParser::new
ensures r.source@ == unf(source@), r.strict == strict
@fn parser::VcardParser::assert_token
ensures r is Ok <==> value is Some && (*value->0) is Ok && expected@.contains((*value->0)->Ok_0)
@fn parser::VcardParser::skip_line
requires old(lex).ok()
ensures final(lex).ok(), final(lex).src() == old(lex).src(), final(lex).st() == old(lex).st(),
  final(lex).en() == (if old(lex).st() < old(lex).en() && old(lex).src()[old(lex).en() - 1] == 10 { old(lex).en() } else { nl(old(lex).src(), old(lex).en()) })
@ghost start
proof { let (s, p) = (lex.src(), lex.en()); let t = s.skip(p); crate::sh::ax_index_b(t, 10); let k = index_b(t, 10);
  assert forall|i: int| p <= i < p + k implies #[trigger] s[i] != 10 by { assert(t[i - p] != 10); }
  lemma_nl(s, p, p + k); assert(k < t.len() ==> s[p + k] == t[k]);
  if k < t.len() { lemma_boundary_after(s, p + k); } }
@fn parser::VcardParser::parse_property_value
requires old(lex).ok()
ensures lexed(*old(lex), *final(lex)), final(lex).st() >= old(lex).en(),
  r is Ok <==> vend(old(lex).src(), old(lex).en()) >= 0,
  r is Ok ==> final(lex).st() < final(lex).en() && old(lex).src()[final(lex).en() - 1] == 10 && final(lex).en() == nl(old(lex).src(), old(lex).en()) && (r->Ok_0).1@ == old(lex).src().subrange(old(lex).en(), vend(old(lex).src(), old(lex).en()))
    && (r->Ok_0).0@ == dec((r->Ok_0).1@),
  r is Err ==> no10(old(lex).src(), old(lex).en(), final(lex).en())
@ghost start
let ghost s = lex.src(); let ghost p = lex.en(); let ghost q = vend(s, p); proof { lemma_vend(s, p); lemma_chain_0(s, p); lemma_no10(s, p, p, p); }
@hide dec vend nl chain at_tok wf no10
@group crate::sh::group_lite
@loop 0
invariant_except_break lex.ok(), lex.src() == s, p <= lex.en(), last_range is None, first_range is Some || lex.en() == p, first_range is Some ==> first_range->0.start == p,
  lex.st() >= p || lex.en() == p, chain(s, tokens@, p, lex.en()), q == vend(s, lex.en()), no10(s, p, lex.en()), q >= 0 ==> lex.en() <= q,
  !needs_transform ==> forall|i: int| 0 <= i < tokens@.len() ==> !is_esc(#[trigger] tokens@[i].0),
invariant s == old(lex).src(), p == old(lex).en(), q == vend(s, p), wf(s),
ensures lex.ok(), lex.src() == s, p <= lex.en(), lex.st() >= p, last_range is None ==> q < 0 && no10(s, p, lex.en()),
  last_range is Some ==> first_range is Some && first_range->0.start == p && q >= 0 && last_range->0.start == q && lex.en() == nl(s, q) && lex.st() < lex.en() && s[lex.en() - 1] == 10 && chain(s, tokens@, p, q),
  !needs_transform ==> forall|i: int| 0 <= i < tokens@.len() ==> !is_esc(#[trigger] tokens@[i].0),
decreases s.len() - lex.en()
@ghost loop 0 top
let ghost e0 = lex.en(); proof { lemma_vend(s, e0); if e0 < s.len() { lemma_tok(s, e0, q); lemma_no10(s, p, e0, tok_end(s, e0)); lemma_no10(s, p, e0, tok_end(s, e0) - 1); } }
@ghost call push 0 before
proof { lemma_chain_push(s, tokens@, (token, span), p, e0, lex.en()); }
@ghost loop 1 before
let ghost all = tokens@; proof { lemma_chain_vend(s, all, p, q, 0); }
@loop 1
invariant __all_1 == all, chain(s, all, p, q), wf(s), p <= q, boundary(s, p), 0 <= p, lex.ok(), lex.src() == s, q <= s.len(), q == vend(s, p), boundary(s, q),
  at_tok(all, __all_1.len() - __it_1@.len(), p) <= q, dec(s.subrange(p, q)) == value@ + dec(s.subrange(at_tok(all, __all_1.len() - __it_1@.len(), p), q)),
@ghost loop 1 top
let ghost k = __all_1.len() - __it_1@.len() - 1; let ghost a = at_tok(all, k, p);
let ghost v0 = value@;
proof { lemma_chain_vend(s, all, p, q, k); lemma_tok(s, a, q); let e = tok_end(s, a); let t = dec(s.subrange(e, q));
  lemma_assoc(v0, seq![44u8], t); lemma_assoc(v0, seq![59u8], t); lemma_assoc(v0, seq![10u8], t); lemma_assoc(v0, seq![92u8], t); lemma_assoc(v0, s.subrange(a, e), t); }
@ghost loop 1 after
proof { lemma_chain_vend(s, all, p, q, all.len() as int); assert(s.subrange(q, q) =~= Seq::<u8>::empty()); assert(value@ == dec(raw@)); }
@ghost let raw 0 after
proof { lemma_vend(s, p); lemma_nl(s, p, q); if !needs_transform { lemma_chain_plain(s, tokens@, p, q, 0); lemma_chain_vend(s, tokens@, p, q, 0); } assert(lex.en() == nl(s, p)); assert(raw@ == s.subrange(p, q)); assert(!needs_transform ==> dec(raw@) == raw@); lemma_dec0(); }
@fn parser::VcardParser::parse_parameter_value
requires old(lex).ok()
ensures lexed(*old(lex), *final(lex)),
  r is Ok <==> pv(old(lex).src(), old(lex).en()) is Some,
  r is Ok ==> ({ let v = pv(old(lex).src(), old(lex).en())->0; (r->Ok_0).0@ == v.0 && (r->Ok_0).2 == v.1 && final(lex).en() == v.2 && (r->Ok_0).1 == tok(old(lex).src(), v.2 - 1)
    && no10(old(lex).src(), old(lex).en(), v.2) && final(lex).st() == v.2 - 1 && old(lex).en() < v.2 }),
  r is Err ==> frame(old(lex).src(), old(lex).en(), final(lex).st(), final(lex).en())
@hide une pend qend xend nl boundary esc_at no10 wf is_ctrl escapable
@group crate::sh::group_lite
@ghost start
let ghost s = lex.src(); let ghost p = lex.en(); let ghost b = vbeg(s, p); let ghost qt = is_q(s, p); let ghost q = xend(s, qt, b);
proof { lemma_xend(s, qt, b); lemma_no10(s, p, p, p); if qt { lemma_ptok(s, qt, p); } lemma_une0(une(s.subrange(b, q))); assert(s.subrange(b, b) =~= Seq::<u8>::empty()); }
@loop 0
invariant_except_break lex.ok(), lex.src() == s, p <= lex.en(), no10(s, p, lex.en()),
  first_range is None ==> lex.en() == p && !quoted && !is_escaped,
  first_range is Some ==> first_range->0.start == p && quoted == qt && b <= lex.en() && q == xend(s, qt, lex.en()) && (q >= 0 ==> lex.en() <= q),
  first_range is Some && !is_escaped && q >= 0 ==> une(s.subrange(b, q)) == s.subrange(b, lex.en()) + une(s.subrange(lex.en(), q)),
invariant s == old(lex).src(), p == old(lex).en(), q == xend(s, qt, b), qt == is_q(s, p), b == vbeg(s, p), wf(s), boundary(s, p), boundary(s, b), q >= 0 ==> b <= q, q < s.len(), 0 <= p, p <= b,
ensures lex.ok(), lex.src() == s, p <= lex.en(), q < 0, no10(s, p, lex.en()), lex.st() == lex.en(),
decreases s.len() - lex.en()
@ghost loop 0 top
let ghost e0 = lex.en();
proof { lemma_xend(s, qt, e0); if e0 < s.len() {
  lemma_ptok(s, qt, e0);
  lemma_no10(s, p, e0, tok_end(s, e0)); lemma_nl(s, p, e0); let c = e0 + index_b(s.subrange(e0, tok_end(s, e0)), 58); if special(tok(s, e0)) && !qt { lemma_no10(s, p, e0, c); }
  if inner(s, qt, e0) { lemma_ptok_in(s, qt, e0); if q >= 0 && !is_escaped && e0 >= b { pv_step(s, b, e0, q); } }
  if special(tok(s, e0)) && !qt { lemma_ptok_sp(s, e0); }
  } }
@ghost let length 0 before
proof { let w = s.subrange(e0, lex.en()); crate::sh::ax_none(':', w); assert forall|x: int| #[trigger] crate::sh::Pattern::first(&':', w, x) implies index_b(w, 58) == x by { crate::sh::ax_first(':', w, x); } }
@ghost call next 1 before
let ghost e1 = lex.en();
proof { if e1 < s.len() { lemma_ptok(s, false, e1); lemma_no10(s, p, e1, tok_end(s, e1)); lemma_nl(s, p, e1); } }
@ghost let source 0 before
proof { assert(s.subrange(q, q) =~= Seq::<u8>::empty()); assert(e0 == q); lemma_une0(une(s.subrange(b, q))); assert(s.subrange(b, q) + Seq::<u8>::empty() =~= s.subrange(b, q)); assert(!is_escaped ==> une(s.subrange(b, q)) == s.subrange(b, q)); }
