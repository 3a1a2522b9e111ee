//# ------------------------------------------------------------------ cards
@fn vcard::Vcard::validate
ensures r is Ok <==> valid(*self)
@fn vcard::Vcard::parse_photo_jpeg
ensures r is Ok ==> vviews((r->Ok_0)@) == jpegs_t(self.photo@, self.photo@.len() as int),
  r is Ok <==> forall|i: int| 0 <= i < self.photo@.len() && jpeg(#[trigger] self.photo@[i]) ==> b64(self.photo@[i]) is Some
@ghost start
proof { R"JPEG"; R"ENCODING"; }
@ghost loop 0 before
assert(vviews(jpegs@) =~= Seq::<Seq<u8>>::empty());
@loop 0
invariant __all_0 == refs(self.photo@), vviews(jpegs@) == jpegs_t(self.photo@, __all_0.len() - __it_0@.len()),
  forall|i: int| 0 <= i < __all_0.len() - __it_0@.len() && jpeg(#[trigger] self.photo@[i]) ==> b64(self.photo@[i]) is Some
@ghost loop 0 start
let ghost j0 = jpegs@;
proof { assert(*photo == self.photo@[__all_0.len() - __it_0@.len() - 1]); }
@ghost loop 0 end
proof { if jpegs@.len() > j0.len() { assert(vviews(jpegs@) =~= vviews(j0).push(jpegs@.last()@)); } }
