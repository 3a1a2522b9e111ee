//# ------------------------------------------------------------------ escapes
@fn escape_value
ensures r@ == esc(value@, semi_colons)
@ghost start
proof { R"\\"; R"\n"; R","; R";"; R"\\\\"; R"\\n"; R"\\,"; R"\\;"; lemma_esc(semi_colons); }
@fn unescape_value
ensures r@ == une(value@)
@ghost start
proof { R"\\"; R"\n"; R","; R"\\\\"; R"\\n"; R"\\N"; R"\\,"; lemma_une(); }
@fn split_escaped
requires delimiter == ',' || delimiter == ';'
ensures sviews(r@) == split_dec(value@, delimiter as u8, limit as int)
@loop 0
invariant delimiter == ',' || delimiter == ';', components@.len() + chars@.len() <= value@.len(),
  split_inv(sviews(components@), component@, chars@, value@, delimiter as u8, limit as int),
ensures chars@.len() == 0
decreases chars@.len()
@hide split_dec pre1
@ghost start
@ghost loop 0 before
proof { lemma_split_start(value@, delimiter as u8, limit as int); assert(sviews(components@) =~= Seq::<Seq<u8>>::empty()); }
@ghost loop 0 top
let ghost (r0, c0, v0) = (chars@, component@, components@);
proof { assert(delimiter as u8 as u32 == delimiter as u32); lemma_skip_all(c0); lemma_split_all(delimiter as u8, limit - components@.len()); }
@ghost loop 0 end
proof {
  if components@.len() == v0.len() {
    let x = component@.skip(c0.len() as int);
    assert(component@ == c0 + x);
    assert(split_dec(r0, delimiter as u8, limit - v0.len()) == pre1(x, split_dec(chars@, delimiter as u8, limit - v0.len())));
    lemma_split_more(sviews(v0), c0, x, r0, chars@, value@, delimiter as u8, limit as int);
  } else {
    lemma_split_next(sviews(v0), c0, r0, chars@, value@, delimiter as u8, limit as int);
    assert(sviews(components@) =~= sviews(v0).push(c0));
  }
}
@ghost loop 0 after
proof { assert(chars@ =~= Seq::<u8>::empty()); lemma_split_done(sviews(components@), component@, value@, delimiter as u8, limit as int); assert(sviews(components@.push(component)) =~= sviews(components@).push(component@)); }
