F="""source SOURCE V UriProperty uri
kind KIND O KindProperty kind
xml XML V TextProperty text
formatted_name FN V TextProperty text
name N O TextListProperty semi
nickname NICKNAME V TextProperty text
photo PHOTO V TextOrUriProperty guess
bday BDAY O DateTimeOrTextProperty dot
anniversary ANNIVERSARY O DateTimeOrTextProperty dot
gender GENDER O GenderProperty gender
url URL V UriProperty uri
address ADR V AddressProperty adr
title TITLE V TextProperty text
role ROLE V TextProperty text
logo LOGO V UriProperty uri
org ORG V TextListProperty semi
member MEMBER V UriProperty uri
related RELATED V TextOrUriProperty tou
tel TEL V TextOrUriProperty tou
email EMAIL V TextProperty text
impp IMPP V UriProperty uri
lang LANG V LanguageProperty lang
timezone TZ V TimeZoneProperty tz
geo GEO V UriProperty uri
categories CATEGORIES V TextListProperty comma
note NOTE V TextProperty text
prod_id PRODID O TextProperty text
rev REV O DateTimeProperty stamp
sound SOUND V UriProperty uri
uid UID O TextOrUriProperty tou
client_pid_map CLIENTPIDMAP V ClientPidMapProperty pidmap
key KEY V TextOrUriProperty tou
fburl FBURL V UriProperty uri
cal_adr_uri CALADRURI V UriProperty uri
cal_uri CALURI V UriProperty uri
extensions X V ExtensionProperty ext"""
F=[l.split() for l in F.split('\n')]
N="SOURCE KIND FN N NICKNAME PHOTO BDAY ANNIVERSARY GENDER ADR TEL EMAIL IMPP LANG TITLE ROLE LOGO ORG MEMBER RELATED CATEGORIES NOTE PRODID REV SOUND UID CLIENTPIDMAP URL KEY FBURL CALADRURI CALURI XML".split()
o=[]
w=o.append
w('''/// printed cards are read back
pub mod spec_w {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_g::*;
use crate::spec_r::*;
use crate::spec_q::*;
use crate::spec_b::*;
use crate::spec_p::valid;
use crate::sh::{wf, boundary, upper, occurs, String, fmt::Display};
use crate::property::*;
use crate::parameter::*;
use crate::parser::Token;
use crate::Vcard;

// ---------------------------------------------------------------- values that are read back
pub open spec fn t_pn() -> Tok { Tok::Ok(Token::PropertyName) }
pub open spec fn w_text(t: TextProperty) -> bool { text_p(dec(t.disp()), t.parameters, t.group) == t }
pub open spec fn w_uri(t: UriProperty) -> bool { uri_p(dec(t.disp()), t.parameters, t.group) == Some(t) }
pub open spec fn w_guess(t: TextOrUriProperty) -> bool { guess_p(dec(t.disp()), t.pparams(), t.pgroup()) == t }
pub open spec fn w_tou(t: TextOrUriProperty) -> bool { tou_p(dec(t.disp()), t.pparams(), t.pgroup()) == Some(t) }
pub open spec fn w_dot(t: DateTimeOrTextProperty) -> bool { dot_p(dec(t.disp()), t.pparams(), t.pgroup()) == Some(t) }
pub open spec fn w_tz(t: TimeZoneProperty) -> bool { tz_p(dec(t.disp()), t.pparams(), t.pgroup()) == Some(t) }
pub open spec fn w_kind(t: KindProperty) -> bool { kind_of(dec(t.disp())) == Some(t.value) }
pub open spec fn w_gender(t: GenderProperty) -> bool { gender_of(dec(t.disp())) == Some(t.value) }
pub open spec fn w_adr(t: AddressProperty) -> bool { adr_of(t.disp()) == Some(t.value) }
pub open spec fn w_semi(t: TextListProperty) -> bool { semi_p(t.disp(), t.parameters, t.group) == t }
pub open spec fn w_comma(t: TextListProperty) -> bool { comma_p(t.disp(), t.parameters, t.group) == t }
pub open spec fn w_lang(t: LanguageProperty) -> bool { str_of(dec(t.disp())) == t.value }
pub open spec fn w_stamp(t: DateTimeProperty) -> bool { stamp_of(dec(t.disp())) == Some(t.value) }
pub open spec fn w_pidmap(t: ClientPidMapProperty) -> bool { pidmap_of(dec(t.disp())) == Some(t.value) && (t.parameters is Some ==> t.parameters->0.pid is None) }
pub open spec fn w_ext(t: ExtensionProperty) -> bool { any_of(dec(t.disp()), vtype(t.parameters)) == Some(t.value) && x_name(t.name@) }
/// what is written around the value is read back
#[verifier::opaque]
pub open spec fn ok<P: Property>(t: P, n: Seq<u8>) -> bool { unctl(t.disp()) && group_ok(t.pgroup()) && par_back(t.pparams(), upper(n)) }

/// the name of a property is not that of an extension
pub proof fn lemma_std(n: Seq<u8>)
    requires n.len() > 0, forall|i: int| 0 <= i < n.len() ==> 65 <= #[trigger] n[i] <= 90
    ensures upper(n) == n, !occurs(n, L"X-", 0)
{
    R"X-";
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] < 128 by { assert(n[i] <= 90); }
    crate::sh::ax_upper_ascii(n);
    assert(upper(n) =~= n) by { assert forall|i: int| 0 <= i < n.len() implies upper(n)[i] == n[i] by { assert(65 <= n[i] <= 90); } }
    if occurs(n, L"X-", 0) { assert(n.subrange(0, 2)[1] == n[1]); assert(n[1] <= 90 && n[1] >= 65); }
}
''')
PS=[n.lower() for f,n,k,T,v in F if v!='ext']
hid='; '.join(f'hide(put_{x})' for x in PS)
w('/// the values of a standard property\n#[verifier::opaque]\npub open spec fn put_o(u: Seq<u8>, v: Seq<u8>, raw: Seq<u8>, p: Pa, g: Gr, a: Vcard) -> Option<Vcard> { put_std(u, v, raw, p, g, a) }')
w('/// which property a name stands for\npub proof fn lemma_put_std(v: Seq<u8>, raw: Seq<u8>, p: Pa, g: Gr, a: Vcard)\n    ensures '+', '.join(f'put_o(L"{x.upper()}", v, raw, p, g, a) == put_{x}(v, raw, p, g, a)' for x in PS)+'\n{ reveal(put_o); crate::lits::ax_codes(); }')
w('pub proof fn lemma_words()\n    ensures names().len() == 33, '+', '.join(f'names()[{i}] == L"{x}"' for i,x in enumerate(N))+', tz_s() == L"TZ", geo_s() == L"GEO", tz_s() != geo_s()\n{ '+' '.join(f'R"{x}"; assert(names()[{i}] =~= L"{x}");' for i,x in enumerate(N))+' R"GEO"; assert(tz_s() =~= L"TZ"); assert(geo_s() =~= L"GEO"); assert(tz_s()[0] != geo_s()[0]); }')
w('''/// a standard name and its token
#[verifier::opaque]
pub open spec fn std_o(n: Seq<u8>, g: Gr, tk: Tok) -> bool { named(n, g, tk) && n.len() > 0 && tk != Tok::Ok(Token::ExtensionName) && forall|i: int| 0 <= i < n.len() ==> 65 <= #[trigger] n[i] <= 90 }
pub proof fn lemma_std_name(i: int, g: Gr)
    requires 0 <= i < names().len(), group_ok(g)
    ensures std_o(names()[i], g, t_pn())
{ hide(names); reveal(std_o); lemma_names(i); lemma_named(i, g); }
pub open spec fn t_tz(g: Gr) -> Tok { if g is Some { t_pn() } else { Tok::Ok(Token::TimeZone) } }
pub open spec fn t_geo(g: Gr) -> Tok { if g is Some { t_pn() } else { Tok::Ok(Token::Geo) } }
pub proof fn lemma_std_tz(g: Gr)
    requires group_ok(g)
    ensures std_o(tz_s(), g, t_tz(g)), std_o(geo_s(), g, t_geo(g))
{ reveal(std_o); assert(tz_s()[0] != geo_s()[0]); lemma_named_tz(tz_s(), g); lemma_named_tz(geo_s(), g); }''')
w('pub proof fn lemma_std_names(g: Gr)\n    requires group_ok(g)\n    ensures '+', '.join(f'std_o(L"{x}", g, t_pn())' for x in N)+', std_o(L"TZ", g, t_tz(g)), std_o(L"GEO", g, t_geo(g))\n{ hide(names); lemma_words(); lemma_std_tz(g); '+' '.join(f'lemma_std_name({i}, g);' for i in range(33))+' }')
w('''/// a property with a standard name
pub proof fn lemma_field<P: Property>(t: P, n: Seq<u8>, tk: Tok, a: Vcard, b: Vcard)
    requires ok(t, n), std_o(n, t.pgroup(), tk), put_o(n, dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a) == Some(b)
    ensures reads(logical_t(t, n), a, b), line_ok(logical_t(t, n))
{
    hide(unctl); hide(par_t); hide(put_std);
    reveal(ok); reveal(std_o); reveal(put_o);
    lemma_std(n);
    lemma_reads(n, tk, t.pgroup(), t.pparams(), t.disp(), a, b);
}
pub proof fn lemma_ok_group<P: Property>(t: P, n: Seq<u8>) requires ok(t, n) ensures group_ok(t.pgroup()) { reveal(ok); }''')
def upd(f,k,t,base):
    return f'Vcard {{ {f}: '+(f'vec_of({base}.{f}@.push({t}))' if k=='V' else f'Some({t})')+f', ..{base} }}'
for j,(f,n,k,T,v) in enumerate(F):
    if v=='ext':
        w(f"""/// {f}
pub open spec fn ok_{f}(t: {T}) -> bool {{ ok(t, t.name@) && w_{v}(t) }}
pub proof fn lemma_r_{f}(t: {T}, a: Vcard)
    requires ok_{f}(t)
    ensures reads(logical_t(t, t.name@), a, {upd(f,k,'t','a')}), line_ok(logical_t(t, t.name@))
{{
    hide(any_of); hide(put_std); hide(par_t);
    reveal(ok);
    let n = t.name@; let tk = if t.group is Some {{ t_pn() }} else {{ Tok::Ok(Token::ExtensionName) }};
    lemma_named_x(n, t.group);
    ax_str_of(t.name);
    assert(is_x(tk, upper(n))) by {{
        R"X-";
        assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] < 128 by {{ assert(gb(n[i])); }}
        crate::sh::ax_upper_ascii(n);
        assert(upper(n).subrange(0, 2) =~= L"X-");
    }}
    lemma_reads(n, tk, t.group, t.parameters, t.disp(), a, {upd(f,k,'t','a')});
}}""")
    else:
        tk='t_tz(t.pgroup())' if n=='TZ' else 't_geo(t.pgroup())' if n=='GEO' else 't_pn()'
        w(f"""/// {f}
pub open spec fn ok_{f}(t: {T}) -> bool {{ ok(t, L"{n}") && w_{v}(t) }}
pub proof fn lemma_r_{f}(t: {T}, a: Vcard)
    requires ok_{f}(t)"""+(f', a.{f} is None' if k=='O' else '')+f"""
    ensures reads(logical_t(t, L"{n}"), a, {upd(f,k,'t','a')}), line_ok(logical_t(t, L"{n}"))
{{
    lemma_ok_group(t, L"{n}");
    lemma_std_names(t.pgroup()); lemma_put_std(dec(t.disp()), t.disp(), t.pparams(), t.pgroup(), a);
    lemma_field(t, L"{n}", {tk}, a, {upd(f,k,'t','a')});
}}""")

w('''
// ---------------------------------------------------------------- the lines of a card
pub open spec fn ls<P: Property>(v: Seq<P>, n: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| logical_t(v[i], n)) }
pub open spec fn lx(v: Seq<ExtensionProperty>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| logical_t(v[i], v[i].name@)) }
pub open spec fn lo<P: Property>(o: Option<P>, n: Seq<u8>) -> Seq<Seq<u8>> { match o { Some(p) => seq![logical_t(p, n)], None => Seq::empty() } }
pub proof fn lemma_fl_cat(v: Seq<Seq<u8>>, w: Seq<Seq<u8>>)
    ensures fl(v + w) == fl(v) + fl(w)
    decreases v.len()
{
    hide(fold_t);
    if v.len() == 0 { assert(v + w =~= w); assert(fl(v) + fl(w) =~= fl(w)); }
    else {
        lemma_fl_cat(v.drop_first(), w);
        assert((v + w).drop_first() =~= v.drop_first() + w);
        let x = fold_t(v[0], 75) + L"\\r\\n";
        assert(x + (fl(v.drop_first()) + fl(w)) =~= (x + fl(v.drop_first())) + fl(w));
    }
}
pub proof fn lemma_fl_push(v: Seq<Seq<u8>>, l: Seq<u8>)
    ensures fl(v.push(l)) == fl(v) + (fold_t(l, 75) + L"\\r\\n")
{
    hide(fold_t);
    let w = seq![l];
    lemma_fl_cat(v, w);
    assert(v + w =~= v.push(l));
    assert(w.drop_first() =~= Seq::<Seq<u8>>::empty());
    assert(fl(w) =~= fold_t(l, 75) + L"\\r\\n") by { reveal_with_fuel(fl, 2); }
}
/// the lines `v`, printed as `t`, make the card `b` of the card `a`
#[verifier::opaque]
pub open spec fn did(v: Seq<Seq<u8>>, t: Seq<u8>, a: Vcard, b: Vcard) -> bool { lines_ok(v) && steps(v, a, b) && fl(v) == t }
pub proof fn lemma_did0(a: Vcard) ensures did(Seq::empty(), Seq::empty(), a, a) { reveal(did); }
pub proof fn lemma_did_push(v: Seq<Seq<u8>>, t: Seq<u8>, a: Vcard, b: Vcard, l: Seq<u8>, c: Vcard)
    requires did(v, t, a, b), reads(l, b, c), line_ok(l)
    ensures did(v.push(l), t + (fold_t(l, 75) + L"\\r\\n"), a, c)
{
    hide(fold_t); hide(steps); hide(fl); reveal(did);
    lemma_fl_push(v, l); lemma_steps_push(v, l, a, b, c);
}
pub proof fn lemma_did_cat(v: Seq<Seq<u8>>, t: Seq<u8>, a: Vcard, b: Vcard, w: Seq<Seq<u8>>, u: Seq<u8>, c: Vcard)
    requires did(v, t, a, b), did(w, u, b, c)
    ensures did(v + w, t + u, a, c)
{
    hide(fl); hide(steps); reveal(did);
    lemma_fl_cat(v, w); lemma_steps_cat(v, w, a, b, c);
}
pub proof fn lemma_ls_push<P: Property>(v: Seq<P>, n: Seq<u8>, k: int)
    requires 0 < k <= v.len()
    ensures ls(v.take(k), n) == ls(v.take(k - 1), n).push(logical_t(v[k - 1], n))
{ hide(logical_t); assert(ls(v.take(k), n) =~= ls(v.take(k - 1), n).push(logical_t(v[k - 1], n))); }
pub proof fn lemma_lx_push(v: Seq<ExtensionProperty>, k: int)
    requires 0 < k <= v.len()
    ensures lx(v.take(k)) == lx(v.take(k - 1)).push(logical_t(v[k - 1], v[k - 1].name@))
{ hide(logical_t); assert(lx(v.take(k)) =~= lx(v.take(k - 1)).push(logical_t(v[k - 1], v[k - 1].name@))); }
''')
for j,(f,n,k,T,v) in enumerate(F):
    nf=lambda val: f'Vcard {{ {f}: {val}, ..a }}'
    if k=='O':
        w(f"""pub open spec fn okf_{f}(c: Vcard) -> bool {{ c.{f} is Some ==> ok_{f}(c.{f}->0) }}
pub proof fn lemma_s_{f}(c: Vcard, a: Vcard)
    requires okf_{f}(c), a.{f} is None
    ensures did(lo(c.{f}, L"{n}"), crate::spec_b::v_{f}(c), a, {nf('c.'+f)})
{{
    let n = L"{n}"; lemma_did0(a);
    if c.{f} is Some {{
        let t = c.{f}->0; let l = logical_t(t, n);
        lemma_r_{f}(t, a);
        lemma_did_push(Seq::empty(), Seq::empty(), a, a, l, {nf('Some(t)')});
        assert(Seq::<Seq<u8>>::empty().push(l) =~= lo(c.{f}, n));
        assert(Seq::<u8>::empty() + (fold_t(l, 75) + L"\\r\\n") =~= line_o(c.{f}, n));
    }} else {{ assert({nf('c.'+f)} == a); }}
}}""")
    else:
        x = v=='ext'
        lsf=(lambda e: f'lx({e})') if x else (lambda e: f'ls({e}, L"{n}")')
        nm=(lambda e: f'{e}.name@') if x else (lambda e: f'L"{n}"')
        lt=(lambda k: f'exts_lines_t(v@, {k})') if x else (lambda k: f'lines_t(v@, L"{n}", {k})')
        w(f"""pub open spec fn okf_{f}(c: Vcard) -> bool {{ forall|i: int| 0 <= i < c.{f}@.len() ==> ok_{f}(#[trigger] c.{f}@[i]) }}
pub proof fn lemma_t_{f}(v: Vec<{T}>, a: Vcard, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> ok_{f}(#[trigger] v@[i]), a.{f} == vec_of(Seq::empty())
    ensures did({lsf('v@.take(k)')}, {lt('k')}, a, {nf('vec_of(v@.take(k))')})
    decreases k
{{
    if k <= 0 {{
        lemma_did0(a);
        assert(v@.take(k) =~= Seq::empty());
        assert({lsf('v@.take(k)')} =~= Seq::empty());
    }} else {{
        lemma_t_{f}(v, a, k - 1);
        ax_vec_front(v, k - 1);
        let b = {nf('vec_of(v@.take(k - 1))')}; let t = v@[k - 1];
        lemma_r_{f}(t, b);
        assert(v@.take(k - 1).push(t) =~= v@.take(k));
        {'lemma_lx_push(v@, k);' if x else f'lemma_ls_push(v@, L"{n}", k);'}
        lemma_did_push({lsf('v@.take(k - 1)')}, {lt('k - 1')}, a, b, logical_t(t, {nm('t')}), {nf('vec_of(v@.take(k))')});
    }}
}}
pub proof fn lemma_s_{f}(c: Vcard, a: Vcard)
    requires okf_{f}(c), a.{f} == vec_of(Seq::empty())
    ensures did({lsf('c.'+f+'@')}, crate::spec_b::v_{f}(c), a, {nf('c.'+f)})
{{
    let v = c.{f};
    lemma_t_{f}(v, a, v@.len() as int);
    assert(v@.take(v@.len() as int) =~= v@);
    ax_vec_of(v);
}}""")
w('/// every property of a card is read back\npub open spec fn okc(c: Vcard) -> bool {\n'+'\n'.join(f'    &&& okf_{f}(c)' for f,*_ in F)+'\n}')
def part(f,n,k,v): return f'lo(c.{f}, L"{n}")' if k=='O' else f'lx(c.{f}@)' if v=='ext' else f'ls(c.{f}@, L"{n}")'
hl=' '.join(f'hide(okf_{f}); hide(crate::spec_b::v_{f});' for f,*_ in F)
b=[f'    let a0 = vcard0(); let l0 = Seq::<Seq<u8>>::empty(); let t0 = Seq::<u8>::empty(); lemma_did0(a0);']
for j,(f,n,k,T,v) in enumerate(F):
    b.append(f'    let p = {part(f,n,k,v)}; let a{j+1} = Vcard {{ {f}: c.{f}, ..a{j} }}; lemma_s_{f}(c, a{j}); lemma_did_cat(l{j}, t{j}, a0, a{j}, p, crate::spec_b::v_{f}(c), a{j+1}); let l{j+1} = l{j} + p; let t{j+1} = t{j} + crate::spec_b::v_{f}(c);')
b.append(f'    assert(a{len(F)} == c);')
b.append('    crate::spec_c::lemma_body(t0, c); assert(t0 + body_t(c) =~= body_t(c));')
b.append(f'    l{len(F)}')
w('/// the lines of a card make the card\npub proof fn lemma_body_lines(c: Vcard) -> (v: Seq<Seq<u8>>)\n    requires okc(c)\n    ensures did(v, body_t(c), vcard0(), c)\n{\n'+'\n'.join(b)+'\n}')
w("""/// a card is printed and read back
pub proof fn lemma_readback(c: Vcard, strict: bool)
    requires okc(c), valid(c), wf(unf(vcard_t(c)))
    ensures cards_at(unf(vcard_t(c)), 0, strict) == Some(seq![c])
{
    hide(okc); hide(body_t); hide(valid); hide(steps); hide(fl); hide(unf); hide(cards_at);
    let v = lemma_body_lines(c);
    reveal(did);
    assert(head_t() + (fl(v) + tail_t()) =~= vcard_t(c));
    lemma_doc_lines(v, c, strict);
}""")
w('}')

open(__file__.rsplit('/',2)[0]+'/contracts/spec_q2.rs','w').write('\n'.join(o)+'\n')
