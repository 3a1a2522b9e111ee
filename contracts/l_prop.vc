//# ------------------------------------------------------------------ properties from text
@fn parser::parse_language_tag
ensures r is Ok, (r->Ok_0)@ == value@
@fn parser::parse_media_type
ensures r is Ok, final(params).media_type is Some, final(params).media_type->0 == value, *final(params) == (crate::parameter::Parameters { media_type: Some(value), ..*old(params) })
@fn parser::parse_date_time_or_text
@group crate::spec_v::group_val
ensures res_is(r, dot_p(value@, parameters, group))
@fn parser::VcardParser::parse_text_or_uri
@group crate::spec_v::group_val
ensures res_is(r, tou_p(value.ar(), parameters, group))
@fn parser::VcardParser::parse_extension_property_by_name
@group crate::spec_v::group_val
ensures r is Ok <==> put_ext(name@, value@, parameters, group, *old(card)) is Some,
  r is Ok ==> *final(card) == put_ext(name@, value@, parameters, group, *old(card))->0,
  r is Err ==> *final(card) == *old(card)
@fn parser::VcardParser::add_extension_parameter
@group crate::spec_v::group_val
ensures *final(params) == add_ext(parameter_name@, value@, *old(params))
@fn parser::VcardParser::parse_property_by_name
@group crate::spec_v::group_val
@hide vend nl dec split_dec
requires old(lex).ok()
ensures lexed(*old(lex), *final(lex)), final(lex).st() >= old(lex).en(),
  ({ let (s, e) = (old(lex).src(), old(lex).en()); let q = vend(s, e); let o = put(token, name@, s.subrange(e, q), parameters, group, *old(card));
    &&& r is Ok <==> q >= 0 && o is Some
    &&& r is Ok ==> final(lex).en() == nl(s, e) && *final(card) == o->0
    &&& r is Err ==> *final(card) == *old(card) && frame(s, e, final(lex).st(), final(lex).en()) })
@ghost start
proof { crate::lits::ax_codes(); }
