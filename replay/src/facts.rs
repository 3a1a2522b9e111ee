//! The facts about the `time` crate that the proof of C11 takes for granted (contracts/spec_u.rs), on the real crate.
use vcard4::time::format_description::{self, well_known::Iso8601, BorrowedFormatItem};
use vcard4::time::{Date, Month, OffsetDateTime, PrimitiveDateTime, Time, UtcOffset};

fn p(s: &'static str) -> Vec<BorrowedFormatItem<'static>> {
    format_description::parse(s).unwrap()
}
fn digits(s: &str, n: usize) -> bool {
    s.len() == n && s.bytes().all(|b| b.is_ascii_digit())
}
/// ax_ymd, for every date of the years `from..to`
pub fn dates(from: i32, to: i32) -> Result<(), String> {
    let (ymd, dashed) = (p("[year][month][day]"), p("[year]-[month]-[day]"));
    let mut d = Date::from_calendar_date(from, Month::January, 1).unwrap();
    while d.year() < to {
        let s = d.format(&ymd).unwrap();
        if !digits(&s, 8) || Date::parse(&s, &ymd).ok() != Some(d) || Date::parse(&s, &dashed).is_ok() {
            return Err(format!("ax_ymd does not hold of {s}"));
        }
        match d.next_day() {
            Some(n) => d = n,
            None => break,
        }
    }
    Ok(())
}
/// ax_off, for every offset of whole minutes
pub fn offsets() -> Result<(), String> {
    let off = p("[offset_hour sign:mandatory][offset_minute]");
    for m in -(25 * 60 + 59)..=25 * 60 + 59 {
        let o = UtcOffset::from_whole_seconds(m * 60).unwrap();
        let s = o.format(&off).unwrap();
        let (h, n, _) = o.as_hms();
        let e = format!("{}{:02}{:02}", if o.is_negative() { '-' } else { '+' }, h.abs(), n.abs());
        if s != e || !digits(&s[1..], 4) || UtcOffset::parse(&s, &off).ok() != Some(o) {
            return Err(format!("ax_off does not hold of {o:?}: {s}"));
        }
    }
    Ok(())
}
/// ax_hms for every time of an hour; ax_odt_o, ax_odt_z and ax_no_date with `n` dates and offsets each
pub fn times(h: u8, n: usize) -> Result<(), String> {
    let off = p("[offset_hour sign:mandatory][offset_minute]");
    let (ymd, dashed, ym, ym_dashed) = (p("[year][month][day]"), p("[year]-[month]-[day]"), p("[year][month]"), p("[year]-[month]"));
    let hms = p("[hour][minute][second]");
    let fz = p("[year][month][day]T[hour][minute][second]Z");
    let fo = p("[year][month][day]T[hour][minute][second][offset_hour sign:mandatory][offset_minute]");
    let fh = p("[year][month][day]T[hour][minute][second][offset_hour sign:mandatory]");
    let mut k = h as i32;
    for (m, s) in (0..60u8).flat_map(|m| (0..60u8).map(move |s| (m, s))) {
        let t = Time::from_hms(h, m, s).unwrap();
        let x = t.format(&hms).unwrap();
        if !digits(&x, 6) || Time::parse(&x, &Iso8601::DEFAULT).ok() != Some(t) {
            return Err(format!("ax_hms does not hold of {t}"));
        }
        for _ in 0..n {
            k = (k + 7919) % (3119 * 9973);
            let o = UtcOffset::from_whole_seconds((k % 3119 - 1559) * 60).unwrap();
            let d = Date::from_ordinal_date(k % 9973, 1 + (k % 365) as u16).unwrap();
            let (y, z) = (d.format(&ymd).unwrap(), o.format(&off).unwrap());
            let v = OffsetDateTime::new_in_offset(d, t, o);
            let a = v.format(&fo).unwrap();
            let b = OffsetDateTime::parse(&a, &fo).map(|w| (w.date(), w.time(), w.offset()));
            if a != format!("{y}T{x}{z}") || b.ok() != Some((d, t, o)) {
                return Err(format!("ax_odt_o does not hold of {v}"));
            }
            let a = OffsetDateTime::new_in_offset(d, t, UtcOffset::UTC).format(&fz).unwrap();
            let b = PrimitiveDateTime::parse(&a, &fz).map(|w| (w.date(), w.time()));
            if a != format!("{y}T{x}Z") || b.ok() != Some((d, t)) || OffsetDateTime::parse(&a, &fo).is_ok() || OffsetDateTime::parse(&a, &fh).is_ok() {
                return Err(format!("ax_odt_z does not hold of {a}"));
            }
            let a = format!("{x}{z}");
            if [&dashed, &ymd, &ym_dashed, &ym].iter().any(|f| Date::parse(&a, *f).is_ok()) || Date::parse(&a, &Iso8601::DEFAULT).is_ok() {
                return Err(format!("ax_no_date does not hold of {a}"));
            }
        }
    }
    Ok(())
}
