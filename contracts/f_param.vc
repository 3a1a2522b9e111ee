//# ------------------------------------------------------------------ parameters
@fn parameter::escape_parameter
ensures r@ == esc_par(s@)
@fn parameter::quote_parameter
ensures r@ == quote_par(value.disp())
@fn parameter::comma_delimited
ensures r@ == list_t(items@)
@hide join_b join_part
@loop 0
invariant __s_0@ == items@, value@ == join_part(disps(items@), L",", __i_0 as int)
@ghost loop 0 before
proof { if items@.len() == 0 { lemma_join_end(disps(items@), L","); } else { lemma_join_part(disps(items@), L",", 0); } }
@ghost loop 0 start
proof { lemma_join_part(disps(items@), L",", __i_0 - 1); }
@ghost loop 0 after
proof { lemma_join_end(disps(items@), L","); }
@impl parameter::<Parameters as Display>
open spec fn disp(&self) -> Seq<u8> { params_t(*self) }
@fn parameter::<Parameters as Display>::fmt
@group crate::spec::group_par
@hide esc_par quote_par list_t off_t par parq
@ghost start
let ghost f_0 = f@;
@ghost if language 0 isolate
f@ == f_0, ensures f@ == f_0 + p_language(*self),
@ghost if language 0 after
 let ghost f_1 = f@;
@ghost if value 0 isolate
f@ == f_1, ensures f@ == f_1 + p_value(*self),
@ghost if value 0 after
 let ghost f_2 = f@;
@ghost if pref 0 isolate
f@ == f_2, ensures f@ == f_2 + p_pref(*self),
@ghost if pref 0 after
 let ghost f_3 = f@;
@ghost if alt_id 0 isolate
f@ == f_3, ensures f@ == f_3 + p_alt_id(*self),
@ghost if alt_id 0 after
 let ghost f_4 = f@;
@ghost if pid 0 isolate
f@ == f_4, ensures f@ == f_4 + p_pid(*self),
@ghost if pid 0 after
 let ghost f_5 = f@;
@ghost if types 0 isolate
f@ == f_5, ensures f@ == f_5 + p_types(*self),
@ghost if types 0 after
 let ghost f_6 = f@;
@ghost if media_type 0 isolate
f@ == f_6, ensures f@ == f_6 + p_media_type(*self),
@ghost if media_type 0 after
 let ghost f_7 = f@;
@ghost if calscale 0 isolate
f@ == f_7, ensures f@ == f_7 + p_calscale(*self),
@ghost if calscale 0 after
 let ghost f_8 = f@;
@ghost if sort_as 0 isolate
f@ == f_8, ensures f@ == f_8 + p_sort_as(*self),
@ghost if sort_as 0 after
 let ghost f_9 = f@;
@ghost if geo 0 isolate
f@ == f_9, ensures f@ == f_9 + p_geo(*self),
@ghost if geo 0 after
 let ghost f_10 = f@;
@ghost if timezone 0 isolate
f@ == f_10, ensures f@ == f_10 + p_timezone(*self),
@ghost if timezone 0 after
 let ghost f_11 = f@;
@ghost if label 0 isolate
f@ == f_11, ensures f@ == f_11 + p_label(*self),
@ghost if label 0 after
 let ghost f_12 = f@;
@ghost if extensions 0 isolate
f@ == f_12, ensures f@ == f_12 + p_extensions(*self),
@ghost if extensions 0 after
 let ghost f_13 = f@;
proof { lemma_params(f_0, *self); }
@loop 0
invariant __all_0 == extensions@.map_values(|x: (String, Vec<String>)| &x), f@ == g0 + exts_t(extensions@, __all_0.len() - __it_0@.len())
@ghost loop 0 before
let ghost g0 = f@;
@ghost loop 0 end
proof { let k = __all_0.len() - __it_0@.len(); lemma_assoc(g0, exts_t(extensions@, k - 1), parq(extensions@[k - 1].0@, esc_par(list_t(extensions@[k - 1].1@)))); }
