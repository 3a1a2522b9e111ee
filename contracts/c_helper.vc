@fn helper::parse_utc_offset
ensures res_is(r, off_of(value@))
@fn helper::format_utc_offset
ensures r is Ok, final(f)@ == old(f)@ + off_t(*val)
@fn helper::parse_time_list
ensures list_is(r, value@, |s: Seq<u8>| time_of(s))
@loop 0
invariant __all_0.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_0.len() ==> (#[trigger] __all_0[i])@ == split_b(value@, 44)[i],
  values@.len() == __all_0.len() - __it_0@.len(), forall|i: int| 0 <= i < values@.len() ==> time_of(#[trigger] split_b(value@, 44)[i]) == Some(values@[i])
@fn helper::parse_date_list
ensures list_is(r, value@, |s: Seq<u8>| date_of(s))
@loop 0
invariant __all_0.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_0.len() ==> (#[trigger] __all_0[i])@ == split_b(value@, 44)[i],
  values@.len() == __all_0.len() - __it_0@.len(), forall|i: int| 0 <= i < values@.len() ==> date_of(#[trigger] split_b(value@, 44)[i]) == Some(values@[i])
@fn helper::parse_date_time_list
ensures list_is(r, value@, |s: Seq<u8>| dtime_of(s))
@loop 0
invariant __all_0.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_0.len() ==> (#[trigger] __all_0[i])@ == split_b(value@, 44)[i],
  values@.len() == __all_0.len() - __it_0@.len(), forall|i: int| 0 <= i < values@.len() ==> dtime_of(#[trigger] split_b(value@, 44)[i]) == Some(values@[i])
@fn helper::parse_timestamp_list
ensures list_is(r, value@, |s: Seq<u8>| stamp_of(s))
@loop 0
invariant __all_0.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_0.len() ==> (#[trigger] __all_0[i])@ == split_b(value@, 44)[i],
  values@.len() == __all_0.len() - __it_0@.len(), forall|i: int| 0 <= i < values@.len() ==> stamp_of(#[trigger] split_b(value@, 44)[i]) == Some(values@[i])
@fn helper::parse_date_and_or_time_list
ensures list_is(r, value@, |s: Seq<u8>| dt_of(s))
@loop 0
invariant __all_0.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_0.len() ==> (#[trigger] __all_0[i])@ == split_b(value@, 44)[i],
  values@.len() == __all_0.len() - __it_0@.len(), forall|i: int| 0 <= i < values@.len() ==> dt_of(#[trigger] split_b(value@, 44)[i]) == Some(values@[i])
@fn helper::parse_integer_list
ensures list_is(r, value@, |s: Seq<u8>| i64_of(s))
@loop 0
invariant __all_0.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_0.len() ==> (#[trigger] __all_0[i])@ == split_b(value@, 44)[i],
  values@.len() == __all_0.len() - __it_0@.len(), forall|i: int| 0 <= i < values@.len() ==> i64_of(#[trigger] split_b(value@, 44)[i]) == Some(values@[i])
@fn helper::parse_float_list
ensures list_is(r, value@, |s: Seq<u8>| float_parse(s))
@loop 0
invariant __all_0.len() == split_b(value@, 44).len(), forall|i: int| 0 <= i < __all_0.len() ==> (#[trigger] __all_0[i])@ == split_b(value@, 44)[i],
  values@.len() == __all_0.len() - __it_0@.len(), forall|i: int| 0 <= i < values@.len() ==> float_parse(#[trigger] split_b(value@, 44)[i]) == Some(values@[i])
@fn helper::parse_boolean
ensures res_is(r, bool_of(value@))
@fn helper::parse_time
ensures res_is(r, time_of(value@))
@ghost start
reveal(time_of);
proof { ax_chars_of(value@); }
let ghost src = value@;
@ghost let parts 0 after
let ghost p0 = parts@;
@ghost call join 0 before
proof {
    let c = chars_of(src);
    assert(p0.len() == c.len() + 2);
    assert(c.len() > 1) by { if c.len() == 1 { assert(p0[2]@.len() == 0); } }
    let w = fillc(fillc(c, 0, L"00"), 1, L"00");
    assert(parts@.len() == p0.len());
    assert forall|i: int| 0 <= i < w.len() implies parts@[i + 1]@ == #[trigger] w[i] by { assert(p0[i + 1]@ == c[i]); }
    lemma_pieces(parts@, w);
}
@fn helper::do_parse_time
ensures res_is(r, do_time(value@))
@ghost start
reveal(do_time);
@fn helper::parse_date
@attr #[verifier::rlimit(150)]
ensures res_is(r, date_of(value@))
@ghost start
reveal(date_of);
proof { ax_chars_of(value@); }
let ghost src = value@;
@ghost let parts 0 after
let ghost p0 = parts@;
@ghost call join 0 before
proof {
    let c = chars_of(src);
    let w = fillc(fillc(fillc(c, 0, L"00"), 1, L"00"), 2, L"01");
    assert(parts@.len() == p0.len() && w.len() == c.len());
    assert forall|i: int| 0 <= i < w.len() implies parts@[i + 1]@ == #[trigger] w[i] by { assert(p0[i + 1]@ == c[i]); }
    assert(parts@[parts@.len() - 1]@.len() == 0);
    lemma_pieces(parts@, w);
}
@fn helper::do_parse_date
ensures res_is(r, do_date(s@))
@ghost start
reveal(do_date);
@fn helper::parse_date_time
ensures res_is(r, dtime_of(value@))
@ghost start
broadcast use crate::time::ax_odt;
@fn helper::parse_timestamp
ensures res_is(r, stamp_of(value@))
@fn helper::format_time
ensures r is Ok, r->Ok_0@ == tm_t(*value)
@fn helper::format_date
ensures r is Ok, r->Ok_0@ == date_t(*value)
@fn helper::format_date_time
ensures r is Ok, r->Ok_0@ == dt_t(*d)
@fn helper::format_time_list
ensures r is Ok, final(f)@ == old(f)@ + join_b(times_t(val@), L",")
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + join_part(times_t(val@), L",", __i_0 as int)
@ghost loop 0 start
proof { lemma_join_part(times_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { lemma_join_end(times_t(val@), L","); }
@fn helper::format_date_list
ensures r is Ok, final(f)@ == old(f)@ + join_b(dates_t(val@), L",")
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + join_part(dates_t(val@), L",", __i_0 as int)
@ghost loop 0 start
proof { lemma_join_part(dates_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { lemma_join_end(dates_t(val@), L","); }
@fn helper::{format_date_time_list, format_timestamp_list}
ensures r is Ok, final(f)@ == old(f)@ + join_b(dtimes_t(val@), L",")
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + join_part(dtimes_t(val@), L",", __i_0 as int)
@ghost loop 0 start
proof { lemma_join_part(dtimes_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { lemma_join_end(dtimes_t(val@), L","); }
@fn helper::format_date_and_or_time_list
ensures r is Ok, final(f)@ == old(f)@ + join_b(dts_t(val@), L",")
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + join_part(dts_t(val@), L",", __i_0 as int)
@ghost loop 0 start
proof { lemma_join_part(dts_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { lemma_join_end(dts_t(val@), L","); }
@fn helper::{format_integer_list, format_float_list}
ensures r is Ok, final(f)@ == old(f)@ + join_b(disps(val@), L",")
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + join_part(disps(val@), L",", __i_0 as int)
@ghost loop 0 start
proof { lemma_join_part(disps(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { lemma_join_end(disps(val@), L","); }
