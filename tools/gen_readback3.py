#!/usr/bin/env python3
"""Writes contracts/spec_s3.rs: every card with readable values is printed and read back (module spec_z)."""
import os,sys
sys.argv=['x']
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'gen_readback.py')).read()
ns={}
exec(src.split("\nN=")[0],ns)
F=ns['F']
o=[]
w=o.append
w('''/// cards are printed and read back
pub mod spec_z {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_g::*;
use crate::spec_r::*;
use crate::spec_q::*;
use crate::spec_w::*;
use crate::spec_x::*;
use crate::spec_y::*;
use crate::spec_b::*;
use crate::spec_p::valid;
use crate::sh::{wf, utf8, at8, boundary, is_cont, index_b, upper, String, ToString, fmt::Display};
use crate::property::*;
use crate::parameter::*;
use crate::Vcard;

/// a group and parameters that can be written in front of a value
pub open spec fn fit_around(g: Gr, p: Pa, n: Seq<u8>) -> bool { group_ok(g) && (p is Some ==> fit_params(p->0, upper(n))) }
pub proof fn lemma_around<P: Property>(t: P, n: Seq<u8>)
    requires fit_around(t.pgroup(), t.pparams(), n), unctl(t.disp())
    ensures ok(t, n)
{
    hide(fit_params);
    reveal(ok); reveal(par_back);
    if t.pparams() is Some { lemma_fit_params(t.pparams()->0, upper(n)); }
}
pub open spec fn fit_all<P: Property>(v: Seq<P>, n: Seq<u8>, f: spec_fn(P) -> bool) -> bool { forall|i: int| 0 <= i < v.len() ==> fit_around((#[trigger] v[i]).pgroup(), v[i].pparams(), n) && f(v[i]) }
pub open spec fn fit_opt<P: Property>(v: Option<P>, n: Seq<u8>, f: spec_fn(P) -> bool) -> bool { v is Some ==> fit_around((v->0).pgroup(), (v->0).pparams(), n) && f(v->0) }
''')
for f,n,k,T,v in F:
    if v=='ext':
        w(f'''pub open spec fn fits_{f}(c: Vcard) -> bool {{ forall|i: int| 0 <= i < c.{f}@.len() ==> fit_around((#[trigger] c.{f}@[i]).group, c.{f}@[i].parameters, c.{f}@[i].name@) && fit_ext(c.{f}@[i]) }}
pub proof fn lemma_fits_{f}(c: Vcard)
    requires fits_{f}(c)
    ensures okf_{f}(c)
{{
    hide(fit_ext); hide(w_ext);
    assert forall|i: int| 0 <= i < c.{f}@.len() implies ok_{f}(#[trigger] c.{f}@[i]) by {{ let t = c.{f}@[i]; lemma_fit_ext(t); lemma_around(t, t.name@); }}
}}''')
    elif k=='V':
        w(f'''pub open spec fn fits_{f}(c: Vcard) -> bool {{ fit_all(c.{f}@, L"{n}", |t: {T}| fit_{v}(t)) }}
pub proof fn lemma_fits_{f}(c: Vcard)
    requires fits_{f}(c)
    ensures okf_{f}(c)
{{
    let g = |t: {T}| fit_{v}(t);
    assert forall|i: int| 0 <= i < c.{f}@.len() implies ok_{f}(#[trigger] c.{f}@[i]) by {{ let t = c.{f}@[i]; assert(g(t)); lemma_fit_{v}(t); lemma_around(t, L"{n}"); }}
}}''')
    else:
        w(f'''pub open spec fn fits_{f}(c: Vcard) -> bool {{ fit_opt(c.{f}, L"{n}", |t: {T}| fit_{v}(t)) }}
pub proof fn lemma_fits_{f}(c: Vcard)
    requires fits_{f}(c)
    ensures okf_{f}(c)
{{ if c.{f} is Some {{ let t = c.{f}->0; lemma_fit_{v}(t); lemma_around(t, L"{n}"); }} }}''')
w('/// a card that can be written: its groups, parameters and values can\npub open spec fn readable(c: Vcard) -> bool {\n'+'\n'.join(f'    &&& fits_{f}(c)' for f,*_ in F)+'\n}')
w('pub proof fn lemma_readable(c: Vcard)\n    requires readable(c)\n    ensures okc(c)\n{\n    '+' '.join(f'lemma_fits_{f}(c);' for f,*_ in F)+'\n}')
w('''/// the number of bytes that follow a first byte
pub open spec fn more(b: u8) -> int { if b < 128 { 0 } else if b < 224 { 1 } else if b < 240 { 2 } else { 3 } }
#[verifier::opaque]
pub open spec fn good(s: Seq<u8>, i: int) -> bool { s[i] < 248 && at8(s, i + 1, more(s[i])) }
pub proof fn lemma_good(s: Seq<u8>, i: int)
    requires utf8(s), 0 <= i < s.len(), !is_cont(s[i])
    ensures good(s, i)
{ reveal(utf8); reveal(good); }
pub proof fn lemma_all_good(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() && !is_cont(#[trigger] s[i]) ==> good(s, i)
    ensures utf8(s)
{
    assert forall|i: int| 0 <= i < s.len() && !is_cont(#[trigger] s[i]) implies s[i] < 248 && at8(s, i + 1, if s[i] < 128 { 0 } else if s[i] < 224 { 1 } else if s[i] < 240 { 2 } else { 3 }) by { assert(good(s, i)); reveal(good); }
    reveal(utf8);
}
/// a character of `a` at `i` is one of `s`, which has `a` from `d` to `e`, if no continuation follows there
pub proof fn lemma_good_in(a: Seq<u8>, i: int, s: Seq<u8>, d: int)
    requires good(a, i), 0 <= i < a.len(), 0 <= d, d + a.len() <= s.len(), s.subrange(d, d + a.len()) == a, d + a.len() < s.len() ==> !is_cont(s[d + a.len()])
    ensures good(s, d + i)
{
    reveal(good);
    let m = more(a[i]); let sub = s.subrange(d, d + a.len());
    assert(sub[i] == s[d + i]);
    assert forall|j: int| d + i + 1 <= j < d + i + 1 + m implies is_cont(#[trigger] s[j]) by { assert(is_cont(a[j - d])); assert(sub[j - d] == s[j]); }
    let z = i + 1 + m;
    assert(boundary(a, z));
    if z < a.len() { assert(sub[z] == s[d + z]); }
}
/// and back
pub proof fn lemma_good_out(s: Seq<u8>, d: int, a: Seq<u8>, i: int)
    requires good(s, d + i), 0 <= i < a.len(), 0 <= d, d + a.len() <= s.len(), s.subrange(d, d + a.len()) == a, boundary(s, d + a.len())
    ensures good(a, i)
{
    reveal(good);
    let m = more(s[d + i]); let sub = s.subrange(d, d + a.len()); let k = d + a.len();
    assert(sub[i] == s[d + i]);
    if k < d + i + 1 + m { assert(is_cont(s[k])); }
    assert forall|j: int| i + 1 <= j < i + 1 + m implies is_cont(#[trigger] a[j]) by { assert(is_cont(s[d + j])); assert(sub[j] == s[d + j]); }
    let z = i + 1 + m;
    assert(boundary(s, d + z));
    if z < a.len() { assert(sub[z] == s[d + z]); }
}
/// text put together from text, and cut between characters, is text
pub proof fn lemma_wf_cat(a: Seq<u8>, b: Seq<u8>)
    requires wf(a), wf(b)
    ensures wf(a + b)
{
    let s = a + b; let n = a.len() as int;
    assert(s.subrange(0, n) == a); assert(s.subrange(n, n + b.len()) == b);
    assert(b.len() > 0 ==> s[n] == b[0]);
    assert forall|i: int| 0 <= i < s.len() && is_cont(#[trigger] s[i]) implies i > 0 && s[i - 1] >= 0x80 by {
        if i < n { assert(is_cont(a[i])); assert(s[i - 1] == a[i - 1]); } else { assert(is_cont(b[i - n])); assert(s[i - 1] == b[i - n - 1]); }
    }
    assert forall|i: int| 0 <= i < s.len() && !is_cont(#[trigger] s[i]) implies good(s, i) by {
        if i < n { assert(a[i] == s[i]); lemma_good(a, i); lemma_good_in(a, i, s, 0); }
        else { assert(b[i - n] == s[i]); lemma_good(b, i - n); lemma_good_in(b, i - n, s, n); }
    }
    lemma_all_good(s);
}
pub proof fn lemma_wf_cut(s: Seq<u8>, k: int)
    requires wf(s), 0 <= k <= s.len(), boundary(s, k)
    ensures wf(s.take(k)), wf(s.skip(k))
{
    let a = s.take(k); let b = s.skip(k);
    assert(s.subrange(0, k) == a); assert(s.subrange(k, k + b.len()) == b);
    assert forall|i: int| 0 <= i < a.len() && is_cont(#[trigger] a[i]) implies i > 0 && a[i - 1] >= 0x80 by { assert(is_cont(s[i])); assert(a[i - 1] == s[i - 1]); }
    assert forall|i: int| 0 <= i < b.len() && is_cont(#[trigger] b[i]) implies i > 0 && b[i - 1] >= 0x80 by { assert(is_cont(s[k + i])); assert(s[k + i - 1] >= 0x80); if i > 0 { assert(b[i - 1] == s[k + i - 1]); } }
    assert forall|i: int| 0 <= i < a.len() && !is_cont(#[trigger] a[i]) implies good(a, i) by { assert(!is_cont(s[i])); lemma_good(s, i); lemma_good_out(s, 0, a, i); }
    assert forall|i: int| 0 <= i < b.len() && !is_cont(#[trigger] b[i]) implies good(b, i) by { assert(!is_cont(s[k + i])); lemma_good(s, k + i); lemma_good_out(s, k, b, i); }
    lemma_all_good(a); lemma_all_good(b);
}
/// taking line folding out of text leaves text
pub proof fn lemma_wf_unf(s: Seq<u8>)
    requires wf(s)
    ensures wf(unf(s))
    decreases s.len()
{
    hide(wf);
    let p = index_b(s, 10);
    if p < s.len() {
        crate::sh::ax_index_b(s, 10);
        assert(s[p] == 10);
        assert(wf(s) ==> !is_cont(s[p]) && boundary(s, p) && boundary(s, p + 1) && (p + 2 <= s.len() && blank(s[p + 1]) ==> boundary(s, p + 2))) by { reveal(wf); }
        lemma_wf_cut(s, p); lemma_wf_cut(s, p + 1);
        if p + 1 < s.len() && blank(s[p + 1]) {
            let a = s.take(p);
            lemma_wf_cut(s, p + 2);
            if a.len() > 0 && a.last() == 13 { assert(boundary(a, a.len() - 1)); lemma_wf_cut(a, a.len() - 1); assert(a.drop_last() == a.take(a.len() - 1)); }
            lemma_wf_unf(s.skip(p + 2));
            lemma_wf_cat(strip_cr(a), unf(s.skip(p + 2)));
        } else {
            lemma_wf_unf(s.skip(p + 1));
            lemma_wf_cat(s.take(p + 1), unf(s.skip(p + 1)));
        }
    }
}
''')
w('''/// C07, C01, C06, C09, C12: a valid, readable card, printed by `Display` and read by `parse`, is the same card
pub fn read_back(c: &Vcard)
    requires readable(*c), valid(*c)
{
    hide(readable); hide(valid); hide(vcard_t); hide(unf); hide(cards_at); hide(wf);
    let s = c.vx_to_string();
    proof { crate::sh::ax_string_wf(s); lemma_wf_unf(vcard_t(*c)); lemma_readable(*c); lemma_readback(*c, true); lemma_readback(*c, false); }
    let r = crate::parse(s.as_str());
    assert(r is Ok && (r->Ok_0)@ == seq![*c]);
    let l = crate::parse_loose(s.as_str());
    assert(l is Ok && (l->Ok_0)@ == seq![*c]);
}
/// there are such cards: whatever `Vcard::new` makes
pub fn read_back_new(name: String)
    requires texty(name@)
{
    hide(valid); hide(vcard_t); hide(unf); hide(cards_at); hide(wf); hide(fit_params);
    let c = Vcard::new(name);
    proof {
        assert(valid(c)) by { reveal(valid); }
        assert forall|i: int| 0 <= i < c.formatted_name@.len() implies fit_text(#[trigger] c.formatted_name@[i]) by { assert(c.formatted_name@[0].value == name); }
        assert(readable(c));
    }
    read_back(&c);
}
}''')
open(__file__.rsplit('/',2)[0]+'/contracts/spec_s3.rs','w').write('\n'.join(o)+'\n')
