/// C11: dates, times, offsets and lists are printed and read back
pub mod spec_i {
use ::vstd::prelude::*;
use crate::spec::*;
use crate::spec_t::*;
use crate::spec_v::*;
use crate::spec_r::*;
use crate::spec_q::*;
use crate::spec_x::*;
use crate::sh::{fmt::Display, float_text, lower};
use crate::property::*;
use crate::parameter::*;
use crate::time;
use crate::time::{Time, UtcOffset, year4, whole, minutes, odt, odt_date, odt_time, odt_off};
use crate::{Date, DateTime};

pub open spec fn dg(b: u8) -> bool { 48 <= b && b <= 57 }
pub open spec fn dgs(s: Seq<u8>, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> dg(#[trigger] s[i]) }
pub open spec fn ymd(d: time::Date) -> Seq<u8> { time::date_t(L"[year][month][day]", d) }
pub open spec fn hms(t: Time) -> Seq<u8> { time::time_t(L"[hour][minute][second]", t) }
pub open spec fn zs() -> Seq<u8> { seq![90u8] }
pub open spec fn ts() -> Seq<u8> { seq![84u8] }
// Facts about the `time` crate (section 4 of DESIGN.md); the replay of C11 tests them on the real crate.
pub axiom fn ax_ymd(d: time::Date) requires year4(d)
    ensures dgs(ymd(d), 8), time::date_p(L"[year][month][day]", ymd(d)) == Some(d), time::date_p(L"[year]-[month]-[day]", ymd(d)) is None;
pub axiom fn ax_hms(t: Time) requires whole(t)
    ensures dgs(hms(t), 6), time::time_p(L"Iso8601", hms(t)) == Some(t);
pub axiom fn ax_off(o: UtcOffset) requires minutes(o)
    ensures off_t(o).len() == 5, off_t(o)[0] == 43 || off_t(o)[0] == 45, dgs(off_t(o).skip(1), 4),
        time::off_p(L"[offset_hour sign:mandatory][offset_minute]", off_t(o)) == Some(o), hm_t(time::off_hms(o)) == off_t(o);
/// a description made of others is formatted part by part, and what it formats it parses
pub axiom fn ax_odt_o(x: time::OffsetDateTime) requires year4(odt_date(x)), whole(odt_time(x)), minutes(odt_off(x))
    ensures ({ let f = L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory][offset_minute]"; let s = time::odt_t(f, x);
        s == ymd(odt_date(x)) + (ts() + (hms(odt_time(x)) + off_t(odt_off(x)))) && time::odt_p(f, s) == Some(x) });
pub axiom fn ax_odt_z(x: time::OffsetDateTime) requires year4(odt_date(x)), whole(odt_time(x))
    ensures ({ let f = L"[year][month][day]T[hour][minute][second]Z"; let s = time::odt_t(f, x); let p = time::pdt_p(f, s);
        &&& s == ymd(odt_date(x)) + (ts() + (hms(odt_time(x)) + zs()))
        &&& time::odt_p(L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory][offset_minute]", s) is None
        &&& time::odt_p(L"[year][month][day]T[hour][minute][second][offset_hour sign:mandatory]", s) is None
        &&& p is Some && time::pdt_date(p->0) == odt_date(x) && time::pdt_time(p->0) == odt_time(x) });
/// a time with its offset is no date
pub axiom fn ax_no_date(t: Time, o: UtcOffset) requires whole(t), minutes(o)
    ensures ({ let s = hms(t) + off_t(o);
        &&& time::date_p(L"[year]-[month]-[day]", s) is None && time::date_p(L"[year][month][day]", s) is None && time::date_p(L"[year]-[month]", s) is None
        &&& time::date_p(L"[year][month]", s) is None && time::date_p(L"Iso8601", s) is None });

// ---------------------------------------------------------------- one value
/// digits, signs, T and Z
pub open spec fn clock(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> dg(#[trigger] s[i]) || s[i] == 43 || s[i] == 45 || s[i] == 84 || s[i] == 90 }
pub proof fn lemma_clock(s: Seq<u8>) requires clock(s) ensures clear(s), without(s, 44) { }
pub open spec fn fit_d(d: time::Date) -> bool { year4(d) }
pub open spec fn fit_t(v: (Time, UtcOffset)) -> bool { whole(v.0) && minutes(v.1) }
pub open spec fn fit_x(x: DateTime) -> bool { year4(odt_date(x.0)) && whole(odt_time(x.0)) && minutes(odt_off(x.0)) }
pub open spec fn fit_dt(v: DateAndOrTime) -> bool { match v { DateAndOrTime::Date(d) => fit_d(d.0), DateAndOrTime::DateTime(x) => fit_x(x), DateAndOrTime::Time(t) => fit_t(t) } }
pub proof fn lemma_no_index(s: Seq<u8>, b: u8) requires without(s, b) ensures index_b(s, b) == s.len() { crate::sh::ax_index_b(s, b); }
pub proof fn lemma_index_is(s: Seq<u8>, b: u8, k: int) requires 0 <= k < s.len(), s[k] == b, forall|i: int| 0 <= i < k ==> s[i] != b ensures index_b(s, b) == k { crate::sh::ax_index_b(s, b); }
pub proof fn lemma_date(d: time::Date)
    requires fit_d(d)
    ensures date_of(ymd(d)) == Some(d), clock(ymd(d))
{ reveal(date_of); reveal(do_date); ax_ymd(d); assert(dg(ymd(d)[0])); }
pub proof fn lemma_off(o: UtcOffset)
    requires minutes(o)
    ensures off_of(off_t(o)) == Some(o), clock(off_t(o)), forall|i: int| 1 <= i < 5 ==> dg(#[trigger] off_t(o)[i]), off_t(o).len() == 5, off_t(o)[0] == 43 || off_t(o)[0] == 45
{
    ax_off(o);
    let s = off_t(o);
    assert forall|i: int| 1 <= i < 5 implies dg(#[trigger] s[i]) by { assert(s.skip(1)[i - 1] == s[i]); assert(dg(s.skip(1)[i - 1])); }
    R"Z";
    assert(L"Z".len() == 1);
}
/// a time with an offset, or with Z in UTC
pub proof fn lemma_time(v: (Time, UtcOffset))
    requires fit_t(v)
    ensures time_of(hms(v.0) + off_t(v.1)) == Some(v), v.1 == time::utc() ==> time_of(hms(v.0) + zs()) == Some(v), clock(hms(v.0) + off_t(v.1)), clock(hms(v.0) + zs())
{
    reveal(time_of); reveal(do_time);
    let h = hms(v.0); let o = off_t(v.1); let s = h + o; let z = h + zs();
    ax_hms(v.0); lemma_off(v.1);
    assert(dg(h[0])); assert(s[0] == h[0]); assert(z[0] == h[0]);
    assert forall|i: int| 0 <= i < s.len() implies (dg(#[trigger] s[i]) || i == 6) by { if i < 6 { assert(dg(h[i])); } else if i > 6 { assert(dg(o[i - 6])); } }
    assert(s[6] == o[0]);
    assert(s.len() == 11);
    if o[0] == 45 { lemma_index_is(s, 45, 6); } else { lemma_no_index(s, 45); lemma_index_is(s, 43, 6); }
    assert(off_pos(s) == 6);
    assert(s.skip(6) =~= o); assert(s.take(6) =~= h);
    assert(dg(h[5]));
    assert(no_z(h) == h);
    assert forall|i: int| 0 <= i < 6 implies dg(#[trigger] z[i]) by { assert(dg(h[i])); }
    assert(z[6] == 90 && z.len() == 7);
    lemma_no_index(z, 45); lemma_no_index(z, 43);
    assert(z.take(6) =~= h);
    assert(no_z(z) == h);
}
pub proof fn lemma_dtime(x: DateTime)
    requires fit_x(x)
    ensures dtime_of(dt_t(x)) == Some(x), clock(dt_t(x)), dt_t(x).len() > 8, dg(dt_t(x)[0])
{
    let d = odt_date(x.0); let t = odt_time(x.0); let o = odt_off(x.0);
    let s = dt_t(x); let y = ymd(d);
    ax_odt_o(x.0); ax_odt_z(x.0); lemma_date(d); lemma_time((t, o)); ax_ymd(d); time::ax_odt_inj(x.0);
    let r = if o == time::utc() { hms(t) + zs() } else { hms(t) + off_t(o) };
    assert(s == y + (ts() + r));
    assert forall|i: int| 0 <= i < 8 implies dg(#[trigger] s[i]) by { assert(dg(y[i])); }
    assert(s[8] == 84);
    lemma_index_is(s, 84, 8);
    assert(s.take(8) =~= y); assert(s.skip(9) =~= r);
    assert forall|i: int| 0 <= i < s.len() implies (dg(#[trigger] s[i]) || s[i] == 43 || s[i] == 45 || s[i] == 84 || s[i] == 90) by { if i > 8 { assert(s[i] == r[i - 9]); } }
}
pub proof fn lemma_stamp(x: DateTime)
    requires fit_x(x)
    ensures stamp_of(dt_t(x)) == Some(x)
{ ax_odt_o(x.0); ax_odt_z(x.0); time::ax_odt_inj(x.0); }
pub proof fn lemma_dt(v: DateAndOrTime)
    requires fit_dt(v)
    ensures dt_of(v.disp()) == Some(v), clock(v.disp())
{
    let s = v.disp();
    match v {
        DateAndOrTime::Date(d) => {
            lemma_date(d.0); ax_ymd(d.0); assert(dg(s[0]));
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 84 by { assert(dg(s[i])); }
            lemma_no_index(s, 84);
        }
        DateAndOrTime::DateTime(x) => { lemma_dtime(x); }
        DateAndOrTime::Time(t) => {
            lemma_time(t); ax_hms(t.0); lemma_off(t.1); ax_no_date(t.0, t.1);
            let h = hms(t.0); let o = off_t(t.1);
            assert(s == h + o);
            assert(dg(h[0])); assert(s[0] == h[0]);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 84 by { if i < 6 { assert(dg(h[i])); } else { assert(s[i] == o[i - 6]); } }
            lemma_no_index(s, 84);
            reveal(date_of); reveal(do_date);
        }
    }
}

// ---------------------------------------------------------------- lists
pub proof fn lemma_without_join(v: Seq<Seq<u8>>, d: Seq<u8>, b: u8)
    requires without(d, b), forall|i: int| 0 <= i < v.len() ==> without(#[trigger] v[i], b)
    ensures without(join_b(v, d), b)
    decreases v.len()
{
    if v.len() > 0 { assert(without(v[0], b)); }
    if v.len() > 1 {
        let w = v.drop_first();
        assert forall|i: int| 0 <= i < w.len() implies without(#[trigger] w[i], b) by { assert(without(v[i + 1], b)); }
        lemma_without_join(w, d, b);
    }
}
/// a list of values whose texts are read back, one by one
pub proof fn lemma_list<T>(v: Seq<T>, x: Vec<T>, e: Seq<Seq<u8>>, g: spec_fn(Seq<u8>) -> Option<T>)
    requires x@ == v, e.len() == v.len(), v.len() > 0, forall|i: int| 0 <= i < v.len() ==> clear(#[trigger] e[i]) && without(e[i], 44) && g(e[i]) == Some(v[i])
    ensures unctl(join_b(e, L",")), list_of(dec(join_b(e, L",")), g) == Some(x)
{
    assert(L"," =~= seq![44u8]);
    let j = join_b(e, L",");
    lemma_unctl_join(e, L","); lemma_without_join(e, L",", 92);
    lemma_dec_id(j);
    lemma_split_b_join(e, 44);
    assert(split_b(j, 44) == e);
    assert(vals_of(e, g) =~= v);
    ax_vec_of(x);
}
/// as many dates as there are in a vector make a vector
pub axiom fn ax_vec_dates(v: Vec<Date>) ensures vec_of(Seq::new(v@.len(), |i: int| v@[i].0))@ == Seq::new(v@.len(), |i: int| v@[i].0);
pub proof fn lemma_list_dates(v: Vec<Date>)
    requires v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> fit_d((#[trigger] v@[i]).0)
    ensures unctl(join_b(dates_t(v@), L",")), any_of(dec(join_b(dates_t(v@), L",")), Some(ValueType::Date)) == Some(AnyProperty::Date(v))
{
    let w = Seq::new(v@.len(), |i: int| v@[i].0); let x = vec_of(w); let e = dates_t(v@);
    ax_vec_dates(v);
    assert forall|i: int| 0 <= i < w.len() implies clear(#[trigger] e[i]) && without(e[i], 44) && (|s: Seq<u8>| date_of(s))(e[i]) == Some(w[i]) by { assert(fit_d(v@[i].0)); lemma_date(v@[i].0); lemma_clock(e[i]); }
    lemma_list(w, x, e, |s: Seq<u8>| date_of(s));
    assert(dates_of(w) =~= v@) by { assert forall|i: int| 0 <= i < w.len() implies dates_of(w)[i] == v@[i] by { } }
    ax_vec_of(v);
}
pub open spec fn fit_dts(v: Seq<DateAndOrTime>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> fit_dt(#[trigger] v[i]) }
pub proof fn lemma_dts(v: Vec<DateAndOrTime>)
    requires fit_dts(v@)
    ensures unctl(join_b(dts_t(v@), L",")), dts_of(dec(join_b(dts_t(v@), L","))) == Some(v)
{
    let e = dts_t(v@);
    assert forall|i: int| 0 <= i < v@.len() implies clear(#[trigger] e[i]) && without(e[i], 44) && (|s: Seq<u8>| dt_of(s))(e[i]) == Some(v@[i]) by { lemma_dt(v@[i]); lemma_clock(e[i]); }
    lemma_list(v@, v, e, |s: Seq<u8>| dt_of(s));
}
/// the values of extension properties that are not text, URIs or language tags
pub open spec fn fit_any(t: AnyProperty, k: Option<ValueType>) -> bool {
    match t {
        AnyProperty::Integer(v) => k == Some(ValueType::Integer) && v@.len() > 0,
        AnyProperty::Float(v) => k == Some(ValueType::Float) && v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> float_parse(float_text(#[trigger] v@[i])) == Some(v@[i]),
        AnyProperty::Boolean(v) => k == Some(ValueType::Boolean),
        AnyProperty::Date(v) => k == Some(ValueType::Date) && v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> fit_d((#[trigger] v@[i]).0),
        AnyProperty::DateTime(v) => k == Some(ValueType::DateTime) && v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> fit_x(#[trigger] v@[i]),
        AnyProperty::Timestamp(v) => k == Some(ValueType::Timestamp) && v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> fit_x(#[trigger] v@[i]),
        AnyProperty::Time(v) => k == Some(ValueType::Time) && v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> fit_t(#[trigger] v@[i]),
        AnyProperty::DateAndOrTime(v) => k == Some(ValueType::DateAndOrTime) && fit_dts(v@),
        AnyProperty::UtcOffset(v) => k == Some(ValueType::UtcOffset) && minutes(v),
        _ => false,
    }
}
pub proof fn lemma_any_integer(v: Vec<i64>)
    requires fit_any(AnyProperty::Integer(v), Some(ValueType::Integer))
    ensures unctl(AnyProperty::Integer(v).disp()), any_of(dec(AnyProperty::Integer(v).disp()), Some(ValueType::Integer)) == Some(AnyProperty::Integer(v))
{
    let e = disps(v@);
    assert forall|i: int| 0 <= i < v@.len() implies clear(#[trigger] e[i]) && without(e[i], 44) && (|s: Seq<u8>| i64_of(s))(e[i]) == Some(v@[i]) by { lemma_int_text(v@[i] as int); }
    lemma_list(v@, v, e, |s: Seq<u8>| i64_of(s));
}
pub proof fn lemma_any_float(v: Vec<f64>)
    requires fit_any(AnyProperty::Float(v), Some(ValueType::Float))
    ensures unctl(AnyProperty::Float(v).disp()), any_of(dec(AnyProperty::Float(v).disp()), Some(ValueType::Float)) == Some(AnyProperty::Float(v))
{
    let e = disps(v@);
    assert forall|i: int| 0 <= i < v@.len() implies clear(#[trigger] e[i]) && without(e[i], 44) && (|s: Seq<u8>| float_parse(s))(e[i]) == Some(v@[i]) by { crate::sh::ax_float(v@[i]); assert(float_parse(float_text(v@[i])) == Some(v@[i])); }
    lemma_list(v@, v, e, |s: Seq<u8>| float_parse(s));
}
pub proof fn lemma_any_boolean(v: bool)
    requires fit_any(AnyProperty::Boolean(v), Some(ValueType::Boolean))
    ensures unctl(AnyProperty::Boolean(v).disp()), any_of(dec(AnyProperty::Boolean(v).disp()), Some(ValueType::Boolean)) == Some(AnyProperty::Boolean(v))
{
    let s = AnyProperty::Boolean(v).disp();
    R"true"; R"false";
    assert forall|i: int| 0 <= i < s.len() implies 97 <= #[trigger] s[i] <= 122 by { }
    assert(clear(s)); lemma_dec_id(s);
    crate::sh::ax_lower_ascii(s);
    assert(lower(s) =~= s);
    assert(L"true".len() != L"false".len());
}
pub proof fn lemma_any_datetime(v: Vec<DateTime>)
    requires fit_any(AnyProperty::DateTime(v), Some(ValueType::DateTime))
    ensures unctl(AnyProperty::DateTime(v).disp()), any_of(dec(AnyProperty::DateTime(v).disp()), Some(ValueType::DateTime)) == Some(AnyProperty::DateTime(v))
{
    let e = dtimes_t(v@);
    assert forall|i: int| 0 <= i < v@.len() implies clear(#[trigger] e[i]) && without(e[i], 44) && (|s: Seq<u8>| dtime_of(s))(e[i]) == Some(v@[i]) by { lemma_dtime(v@[i]); lemma_clock(e[i]); }
    lemma_list(v@, v, e, |s: Seq<u8>| dtime_of(s));
}
pub proof fn lemma_any_timestamp(v: Vec<DateTime>)
    requires fit_any(AnyProperty::Timestamp(v), Some(ValueType::Timestamp))
    ensures unctl(AnyProperty::Timestamp(v).disp()), any_of(dec(AnyProperty::Timestamp(v).disp()), Some(ValueType::Timestamp)) == Some(AnyProperty::Timestamp(v))
{
    let e = dtimes_t(v@);
    assert forall|i: int| 0 <= i < v@.len() implies clear(#[trigger] e[i]) && without(e[i], 44) && (|s: Seq<u8>| stamp_of(s))(e[i]) == Some(v@[i]) by { lemma_dtime(v@[i]); lemma_stamp(v@[i]); lemma_clock(e[i]); }
    lemma_list(v@, v, e, |s: Seq<u8>| stamp_of(s));
}
pub proof fn lemma_any_time(v: Vec<(Time, UtcOffset)>)
    requires fit_any(AnyProperty::Time(v), Some(ValueType::Time))
    ensures unctl(AnyProperty::Time(v).disp()), any_of(dec(AnyProperty::Time(v).disp()), Some(ValueType::Time)) == Some(AnyProperty::Time(v))
{
    let e = times_t(v@);
    assert forall|i: int| 0 <= i < v@.len() implies clear(#[trigger] e[i]) && without(e[i], 44) && (|s: Seq<u8>| time_of(s))(e[i]) == Some(v@[i]) by { lemma_time(v@[i]); lemma_clock(e[i]); }
    lemma_list(v@, v, e, |s: Seq<u8>| time_of(s));
}
pub proof fn lemma_any(t: AnyProperty, k: Option<ValueType>)
    requires fit_any(t, k)
    ensures unctl(t.disp()), any_of(dec(t.disp()), k) == Some(t)
{
    match t {
        AnyProperty::Integer(v) => { lemma_any_integer(v); }
        AnyProperty::Float(v) => { lemma_any_float(v); }
        AnyProperty::Boolean(v) => { lemma_any_boolean(v); }
        AnyProperty::Date(v) => { lemma_list_dates(v); }
        AnyProperty::DateTime(v) => { lemma_any_datetime(v); }
        AnyProperty::Timestamp(v) => { lemma_any_timestamp(v); }
        AnyProperty::Time(v) => { lemma_any_time(v); }
        AnyProperty::DateAndOrTime(v) => { lemma_dts(v); }
        AnyProperty::UtcOffset(v) => { lemma_off(v); lemma_clock(off_t(v)); lemma_dec_id(off_t(v)); }
        _ => {}
    }
}
}
