//# ------------------------------------------------ alternative loop forms (tried only when the first form fails)
//# the separator written before every item but the first
@alt helper::format_time_list
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + crate::sh::join_to(times_t(val@), L",", __i_0 as int)
@ghost start
proof { crate::sh::lemma_join_to_end(times_t(val@), L","); }
@ghost loop 0 start
proof { crate::sh::lemma_join_to(times_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { crate::sh::lemma_join_to_end(times_t(val@), L","); }
@alt helper::format_date_list
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + crate::sh::join_to(dates_t(val@), L",", __i_0 as int)
@ghost start
proof { crate::sh::lemma_join_to_end(dates_t(val@), L","); }
@ghost loop 0 start
proof { crate::sh::lemma_join_to(dates_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { crate::sh::lemma_join_to_end(dates_t(val@), L","); }
@alt helper::{format_date_time_list, format_timestamp_list}
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + crate::sh::join_to(dtimes_t(val@), L",", __i_0 as int)
@ghost start
proof { crate::sh::lemma_join_to_end(dtimes_t(val@), L","); }
@ghost loop 0 start
proof { crate::sh::lemma_join_to(dtimes_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { crate::sh::lemma_join_to_end(dtimes_t(val@), L","); }
@alt helper::format_date_and_or_time_list
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + crate::sh::join_to(dts_t(val@), L",", __i_0 as int)
@ghost start
proof { crate::sh::lemma_join_to_end(dts_t(val@), L","); }
@ghost loop 0 start
proof { crate::sh::lemma_join_to(dts_t(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { crate::sh::lemma_join_to_end(dts_t(val@), L","); }
@alt helper::{format_integer_list, format_float_list}
@loop 0
invariant __s_0@ == val@, f@ == old(f)@ + crate::sh::join_to(disps(val@), L",", __i_0 as int)
@ghost start
proof { crate::sh::lemma_join_to_end(disps(val@), L","); }
@ghost loop 0 start
proof { crate::sh::lemma_join_to(disps(val@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { crate::sh::lemma_join_to_end(disps(val@), L","); }
@alt parameter::comma_delimited
@hide join_b
@loop 0
invariant __s_0@ == items@, value@ == crate::sh::join_to(disps(items@), L",", __i_0 as int)
@ghost start
proof { crate::sh::lemma_join_to_end(disps(items@), L","); }
@ghost loop 0 start
proof { crate::sh::lemma_join_to(disps(items@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { crate::sh::lemma_join_to_end(disps(items@), L","); }
@alt property::<TextListProperty as Display>::fmt
@loop 0
invariant __s_0@ == self.value@, f@ == old(f)@ + crate::sh::join_to(escs(self.value@, self.delimiter is SemiColon), if self.delimiter is SemiColon { L";" } else { L"," }, __i_0 as int)
@ghost start
proof { crate::sh::lemma_join_to_end(escs(self.value@, self.delimiter is SemiColon), if self.delimiter is SemiColon { L";" } else { L"," }); }
@ghost loop 0 start
proof { crate::sh::lemma_join_to(escs(self.value@, self.delimiter is SemiColon), if self.delimiter is SemiColon { L";" } else { L"," }, __i_0 - 1); }
@ghost loop 0 after
proof { crate::sh::lemma_join_to_end(escs(self.value@, self.delimiter is SemiColon), if self.delimiter is SemiColon { L";" } else { L"," }); }
