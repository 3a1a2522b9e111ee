//# ------------------------------------------------------------------ content lines and cards
@fn vcard::qualified_name
ensures r@ == qual_t(prop.pgroup(), prop_name@)
@fn vcard::fold_line
requires wrap_at <= 1000
ensures r@ == fold_t(line@, wrap_at as int)
@loop 0
invariant views(__all_0) == graphemes(line@), length <= wrap_at || length <= 1 + isize::MAX, wrap_at <= 1000,
  length == fold_ps(graphemes(line@), wrap_at as int, __all_0.len() - __it_0@.len()).last().len(),
  folded_line@ == crlf_join(fold_ps(graphemes(line@), wrap_at as int, __all_0.len() - __it_0@.len()))
@ghost loop 0 start
proof { lemma_fold_step(graphemes(line@), wrap_at as int, __all_0.len() - __it_0@.len() - 1); assert(views(__all_0)[__all_0.len() - __it_0@.len() - 1] == grapheme@); }
@fn vcard::content_line
ensures r@ == fold_t(logical_t(*prop, prop_name@), 75)
@impl vcard::<Vcard as Display>
open spec fn disp(&self) -> Seq<u8> { vcard_t(*self) }
@fn vcard::<Vcard as Display>::fmt
@group crate::spec::group_line
@ghost start
let ghost f0 = f@;
@ghost loop 0 before
let ghost f_0 = f@;
@loop 0
invariant __all_0 == refs(self.source@), f@ == f_0 + lines_t(self.source@, L"SOURCE", __all_0.len() - __it_0@.len())
@ghost loop 0 end
proof { let k = __all_0.len() - __it_0@.len(); lemma_assoc(f_0, lines_t(self.source@, L"SOURCE", k - 1), line_t(self.source@[k - 1], L"SOURCE")); }
@ghost loop 0 after
assert(f@ == f_0 + v_source(*self)); let ghost f_1 = f@;
@ghost if kind 0 isolate
f@ == f_1, ensures f@ == f_1 + v_kind(*self),
@ghost if kind 0 after
let ghost f_2 = f@;
@loop 1
invariant __all_1 == refs(self.xml@), f@ == f_2 + lines_t(self.xml@, L"XML", __all_1.len() - __it_1@.len())
@ghost loop 1 end
proof { let k = __all_1.len() - __it_1@.len(); lemma_assoc(f_2, lines_t(self.xml@, L"XML", k - 1), line_t(self.xml@[k - 1], L"XML")); }
@ghost loop 1 after
assert(f@ == f_2 + v_xml(*self)); let ghost f_3 = f@;
@loop 2
invariant __all_2 == refs(self.formatted_name@), f@ == f_3 + lines_t(self.formatted_name@, L"FN", __all_2.len() - __it_2@.len())
@ghost loop 2 end
proof { let k = __all_2.len() - __it_2@.len(); lemma_assoc(f_3, lines_t(self.formatted_name@, L"FN", k - 1), line_t(self.formatted_name@[k - 1], L"FN")); }
@ghost loop 2 after
assert(f@ == f_3 + v_formatted_name(*self)); let ghost f_4 = f@;
@ghost if name 0 isolate
f@ == f_4, ensures f@ == f_4 + v_name(*self),
@ghost if name 0 after
let ghost f_5 = f@;
@loop 3
invariant __all_3 == refs(self.nickname@), f@ == f_5 + lines_t(self.nickname@, L"NICKNAME", __all_3.len() - __it_3@.len())
@ghost loop 3 end
proof { let k = __all_3.len() - __it_3@.len(); lemma_assoc(f_5, lines_t(self.nickname@, L"NICKNAME", k - 1), line_t(self.nickname@[k - 1], L"NICKNAME")); }
@ghost loop 3 after
assert(f@ == f_5 + v_nickname(*self)); let ghost f_6 = f@;
@loop 4
invariant __all_4 == refs(self.photo@), f@ == f_6 + lines_t(self.photo@, L"PHOTO", __all_4.len() - __it_4@.len())
@ghost loop 4 end
proof { let k = __all_4.len() - __it_4@.len(); lemma_assoc(f_6, lines_t(self.photo@, L"PHOTO", k - 1), line_t(self.photo@[k - 1], L"PHOTO")); }
@ghost loop 4 after
assert(f@ == f_6 + v_photo(*self)); let ghost f_7 = f@;
@ghost if bday 0 isolate
f@ == f_7, ensures f@ == f_7 + v_bday(*self),
@ghost if bday 0 after
let ghost f_8 = f@;
@ghost if anniversary 0 isolate
f@ == f_8, ensures f@ == f_8 + v_anniversary(*self),
@ghost if anniversary 0 after
let ghost f_9 = f@;
@ghost if gender 0 isolate
f@ == f_9, ensures f@ == f_9 + v_gender(*self),
@ghost if gender 0 after
let ghost f_10 = f@;
@loop 5
invariant __all_5 == refs(self.url@), f@ == f_10 + lines_t(self.url@, L"URL", __all_5.len() - __it_5@.len())
@ghost loop 5 end
proof { let k = __all_5.len() - __it_5@.len(); lemma_assoc(f_10, lines_t(self.url@, L"URL", k - 1), line_t(self.url@[k - 1], L"URL")); }
@ghost loop 5 after
assert(f@ == f_10 + v_url(*self)); let ghost f_11 = f@;
@loop 6
invariant __all_6 == refs(self.address@), f@ == f_11 + lines_t(self.address@, L"ADR", __all_6.len() - __it_6@.len())
@ghost loop 6 end
proof { let k = __all_6.len() - __it_6@.len(); lemma_assoc(f_11, lines_t(self.address@, L"ADR", k - 1), line_t(self.address@[k - 1], L"ADR")); }
@ghost loop 6 after
assert(f@ == f_11 + v_address(*self)); let ghost f_12 = f@;
@loop 7
invariant __all_7 == refs(self.title@), f@ == f_12 + lines_t(self.title@, L"TITLE", __all_7.len() - __it_7@.len())
@ghost loop 7 end
proof { let k = __all_7.len() - __it_7@.len(); lemma_assoc(f_12, lines_t(self.title@, L"TITLE", k - 1), line_t(self.title@[k - 1], L"TITLE")); }
@ghost loop 7 after
assert(f@ == f_12 + v_title(*self)); let ghost f_13 = f@;
@loop 8
invariant __all_8 == refs(self.role@), f@ == f_13 + lines_t(self.role@, L"ROLE", __all_8.len() - __it_8@.len())
@ghost loop 8 end
proof { let k = __all_8.len() - __it_8@.len(); lemma_assoc(f_13, lines_t(self.role@, L"ROLE", k - 1), line_t(self.role@[k - 1], L"ROLE")); }
@ghost loop 8 after
assert(f@ == f_13 + v_role(*self)); let ghost f_14 = f@;
@loop 9
invariant __all_9 == refs(self.logo@), f@ == f_14 + lines_t(self.logo@, L"LOGO", __all_9.len() - __it_9@.len())
@ghost loop 9 end
proof { let k = __all_9.len() - __it_9@.len(); lemma_assoc(f_14, lines_t(self.logo@, L"LOGO", k - 1), line_t(self.logo@[k - 1], L"LOGO")); }
@ghost loop 9 after
assert(f@ == f_14 + v_logo(*self)); let ghost f_15 = f@;
@loop 10
invariant __all_10 == refs(self.org@), f@ == f_15 + lines_t(self.org@, L"ORG", __all_10.len() - __it_10@.len())
@ghost loop 10 end
proof { let k = __all_10.len() - __it_10@.len(); lemma_assoc(f_15, lines_t(self.org@, L"ORG", k - 1), line_t(self.org@[k - 1], L"ORG")); }
@ghost loop 10 after
assert(f@ == f_15 + v_org(*self)); let ghost f_16 = f@;
@loop 11
invariant __all_11 == refs(self.member@), f@ == f_16 + lines_t(self.member@, L"MEMBER", __all_11.len() - __it_11@.len())
@ghost loop 11 end
proof { let k = __all_11.len() - __it_11@.len(); lemma_assoc(f_16, lines_t(self.member@, L"MEMBER", k - 1), line_t(self.member@[k - 1], L"MEMBER")); }
@ghost loop 11 after
assert(f@ == f_16 + v_member(*self)); let ghost f_17 = f@;
@loop 12
invariant __all_12 == refs(self.related@), f@ == f_17 + lines_t(self.related@, L"RELATED", __all_12.len() - __it_12@.len())
@ghost loop 12 end
proof { let k = __all_12.len() - __it_12@.len(); lemma_assoc(f_17, lines_t(self.related@, L"RELATED", k - 1), line_t(self.related@[k - 1], L"RELATED")); }
@ghost loop 12 after
assert(f@ == f_17 + v_related(*self)); let ghost f_18 = f@;
@loop 13
invariant __all_13 == refs(self.tel@), f@ == f_18 + lines_t(self.tel@, L"TEL", __all_13.len() - __it_13@.len())
@ghost loop 13 end
proof { let k = __all_13.len() - __it_13@.len(); lemma_assoc(f_18, lines_t(self.tel@, L"TEL", k - 1), line_t(self.tel@[k - 1], L"TEL")); }
@ghost loop 13 after
assert(f@ == f_18 + v_tel(*self)); let ghost f_19 = f@;
@loop 14
invariant __all_14 == refs(self.email@), f@ == f_19 + lines_t(self.email@, L"EMAIL", __all_14.len() - __it_14@.len())
@ghost loop 14 end
proof { let k = __all_14.len() - __it_14@.len(); lemma_assoc(f_19, lines_t(self.email@, L"EMAIL", k - 1), line_t(self.email@[k - 1], L"EMAIL")); }
@ghost loop 14 after
assert(f@ == f_19 + v_email(*self)); let ghost f_20 = f@;
@loop 15
invariant __all_15 == refs(self.impp@), f@ == f_20 + lines_t(self.impp@, L"IMPP", __all_15.len() - __it_15@.len())
@ghost loop 15 end
proof { let k = __all_15.len() - __it_15@.len(); lemma_assoc(f_20, lines_t(self.impp@, L"IMPP", k - 1), line_t(self.impp@[k - 1], L"IMPP")); }
@ghost loop 15 after
assert(f@ == f_20 + v_impp(*self)); let ghost f_21 = f@;
@loop 16
invariant __all_16 == refs(self.lang@), f@ == f_21 + lines_t(self.lang@, L"LANG", __all_16.len() - __it_16@.len())
@ghost loop 16 end
proof { let k = __all_16.len() - __it_16@.len(); lemma_assoc(f_21, lines_t(self.lang@, L"LANG", k - 1), line_t(self.lang@[k - 1], L"LANG")); }
@ghost loop 16 after
assert(f@ == f_21 + v_lang(*self)); let ghost f_22 = f@;
@loop 17
invariant __all_17 == refs(self.timezone@), f@ == f_22 + lines_t(self.timezone@, L"TZ", __all_17.len() - __it_17@.len())
@ghost loop 17 end
proof { let k = __all_17.len() - __it_17@.len(); lemma_assoc(f_22, lines_t(self.timezone@, L"TZ", k - 1), line_t(self.timezone@[k - 1], L"TZ")); }
@ghost loop 17 after
assert(f@ == f_22 + v_timezone(*self)); let ghost f_23 = f@;
@loop 18
invariant __all_18 == refs(self.geo@), f@ == f_23 + lines_t(self.geo@, L"GEO", __all_18.len() - __it_18@.len())
@ghost loop 18 end
proof { let k = __all_18.len() - __it_18@.len(); lemma_assoc(f_23, lines_t(self.geo@, L"GEO", k - 1), line_t(self.geo@[k - 1], L"GEO")); }
@ghost loop 18 after
assert(f@ == f_23 + v_geo(*self)); let ghost f_24 = f@;
@loop 19
invariant __all_19 == refs(self.categories@), f@ == f_24 + lines_t(self.categories@, L"CATEGORIES", __all_19.len() - __it_19@.len())
@ghost loop 19 end
proof { let k = __all_19.len() - __it_19@.len(); lemma_assoc(f_24, lines_t(self.categories@, L"CATEGORIES", k - 1), line_t(self.categories@[k - 1], L"CATEGORIES")); }
@ghost loop 19 after
assert(f@ == f_24 + v_categories(*self)); let ghost f_25 = f@;
@loop 20
invariant __all_20 == refs(self.note@), f@ == f_25 + lines_t(self.note@, L"NOTE", __all_20.len() - __it_20@.len())
@ghost loop 20 end
proof { let k = __all_20.len() - __it_20@.len(); lemma_assoc(f_25, lines_t(self.note@, L"NOTE", k - 1), line_t(self.note@[k - 1], L"NOTE")); }
@ghost loop 20 after
assert(f@ == f_25 + v_note(*self)); let ghost f_26 = f@;
@ghost if prod_id 0 isolate
f@ == f_26, ensures f@ == f_26 + v_prod_id(*self),
@ghost if prod_id 0 after
let ghost f_27 = f@;
@ghost if rev 0 isolate
f@ == f_27, ensures f@ == f_27 + v_rev(*self),
@ghost if rev 0 after
let ghost f_28 = f@;
@loop 21
invariant __all_21 == refs(self.sound@), f@ == f_28 + lines_t(self.sound@, L"SOUND", __all_21.len() - __it_21@.len())
@ghost loop 21 end
proof { let k = __all_21.len() - __it_21@.len(); lemma_assoc(f_28, lines_t(self.sound@, L"SOUND", k - 1), line_t(self.sound@[k - 1], L"SOUND")); }
@ghost loop 21 after
assert(f@ == f_28 + v_sound(*self)); let ghost f_29 = f@;
@ghost if uid 0 isolate
f@ == f_29, ensures f@ == f_29 + v_uid(*self),
@ghost if uid 0 after
let ghost f_30 = f@;
@loop 22
invariant __all_22 == refs(self.client_pid_map@), f@ == f_30 + lines_t(self.client_pid_map@, L"CLIENTPIDMAP", __all_22.len() - __it_22@.len())
@ghost loop 22 end
proof { let k = __all_22.len() - __it_22@.len(); lemma_assoc(f_30, lines_t(self.client_pid_map@, L"CLIENTPIDMAP", k - 1), line_t(self.client_pid_map@[k - 1], L"CLIENTPIDMAP")); }
@ghost loop 22 after
assert(f@ == f_30 + v_client_pid_map(*self)); let ghost f_31 = f@;
@loop 23
invariant __all_23 == refs(self.key@), f@ == f_31 + lines_t(self.key@, L"KEY", __all_23.len() - __it_23@.len())
@ghost loop 23 end
proof { let k = __all_23.len() - __it_23@.len(); lemma_assoc(f_31, lines_t(self.key@, L"KEY", k - 1), line_t(self.key@[k - 1], L"KEY")); }
@ghost loop 23 after
assert(f@ == f_31 + v_key(*self)); let ghost f_32 = f@;
@loop 24
invariant __all_24 == refs(self.fburl@), f@ == f_32 + lines_t(self.fburl@, L"FBURL", __all_24.len() - __it_24@.len())
@ghost loop 24 end
proof { let k = __all_24.len() - __it_24@.len(); lemma_assoc(f_32, lines_t(self.fburl@, L"FBURL", k - 1), line_t(self.fburl@[k - 1], L"FBURL")); }
@ghost loop 24 after
assert(f@ == f_32 + v_fburl(*self)); let ghost f_33 = f@;
@loop 25
invariant __all_25 == refs(self.cal_adr_uri@), f@ == f_33 + lines_t(self.cal_adr_uri@, L"CALADRURI", __all_25.len() - __it_25@.len())
@ghost loop 25 end
proof { let k = __all_25.len() - __it_25@.len(); lemma_assoc(f_33, lines_t(self.cal_adr_uri@, L"CALADRURI", k - 1), line_t(self.cal_adr_uri@[k - 1], L"CALADRURI")); }
@ghost loop 25 after
assert(f@ == f_33 + v_cal_adr_uri(*self)); let ghost f_34 = f@;
@loop 26
invariant __all_26 == refs(self.cal_uri@), f@ == f_34 + lines_t(self.cal_uri@, L"CALURI", __all_26.len() - __it_26@.len())
@ghost loop 26 end
proof { let k = __all_26.len() - __it_26@.len(); lemma_assoc(f_34, lines_t(self.cal_uri@, L"CALURI", k - 1), line_t(self.cal_uri@[k - 1], L"CALURI")); }
@ghost loop 26 after
assert(f@ == f_34 + v_cal_uri(*self)); let ghost f_35 = f@;
@loop 27
invariant __all_27 == refs(self.extensions@), f@ == f_35 + exts_lines_t(self.extensions@, __all_27.len() - __it_27@.len())
@ghost loop 27 end
proof { let k = __all_27.len() - __it_27@.len(); lemma_assoc(f_35, exts_lines_t(self.extensions@, k - 1), line_t(self.extensions@[k - 1], self.extensions@[k - 1].name@)); }
@ghost loop 27 after
assert(f@ == f_35 + v_extensions(*self)); let ghost f_36 = f@;
proof { lemma_body(f_0, *self); }
@ghost end
proof { lemma_vcard(f0, *self); }
