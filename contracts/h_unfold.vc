//# ------------------------------------------------------------------ unfolding
@fn parser::unfold
ensures r@ == unf(source@)
@hide unf
@group crate::sh::group_lite
@ghost start
proof { if L"\n ".len() > 0 { lemma_unf_none(source@); } }
@loop 0
invariant_except_break unf(source@) == value@ + unf(rest@),
ensures unf(source@) == value@ + unf(rest@), no_nl(rest@),
decreases rest@.len()
@ghost loop 0 top
let ghost r0 = rest@; let ghost v0 = value@;
proof { lemma_unf_step(rest@); lemma_no_nl(rest@); }
@ghost let next 0 after
proof { assert(crate::sh::Pattern::first(&'\n', r0, pos as int)); crate::sh::ax_first('\n', r0, pos as int); assert(index_b(r0, 10) == pos); }
@ghost call push_str 0 before
proof { crate::sh::ax_cbytes('\r'); }
@ghost call push_str 0 after
proof {
    assert(line@ == r0.take(pos as int));
    assert(value@ == v0 + strip_cr(line@));
    assert(unf(r0) == strip_cr(r0.take(pos as int)) + unf(r0.skip(pos + 2)));
    assert(r0.skip(pos + 1).skip(1) =~= r0.skip(pos + 2));
    lemma_assoc(v0, strip_cr(line@), unf(r0.skip(pos + 2)));
}
@ghost if starts_with 0 after
proof { lemma_assoc(v0, r0.take(pos + 1), unf(r0.skip(pos + 1))); }
@ghost loop 0 after
proof { lemma_no_nl(rest@); }
