//! Random cards, lines and documents.
use crate::refp::{self, *};
use crate::rng::Rng;
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::time::{self, Month, OffsetDateTime, Time, UtcOffset};
use vcard4::{DateTime, Uri, Vcard};

const PIECES: &[&str] = &[
    "a", "b", "Z", "N", "n", "0", "7", " ", " ", "\\", "\\", ",", ",", ";", ";", ":", ".", "=", "-", "+", "\n", "\t",
    "é", "漢", "👩‍👩‍👧", "e\u{301}", "🇩🇪", "ß", "\u{a0}", "\u{2028}", "İ", "\\n", "\\N", "\\,", "\\;", "\\\\", "x-",
    "X-", "T", "VERSION:4.0", "END:VCARD", "BEGIN:VCARD", "\n ", "\n\t", "TEL", "FN:", "TYPE=", "http://e.org/", "'", "%", "#", "\u{85}", "\u{200d}", "text",
    "end", "begin", "version", "\u{915}\u{93f}", "\u{600}",
];

/// Any text without control characters other than newline and tab.
pub fn text(r: &mut Rng) -> String {
    if r.one_in(80) {
        // characters the case insensitive name expressions take for s and k
        return format!("a{}", r.pick(&["\u{17f}", "\u{212a}"]));
    }
    match r.below(8) {
        0 => String::new(),
        1..=5 => {
            let n = r.range(1, 8);
            (0..n).map(|_| r.pick(PIECES)).collect()
        }
        _ => long(r),
    }
}
/// Text whose printed line length is around a folding boundary.
pub fn long(r: &mut Rng) -> String {
    let fill = ["a", "é", "漢", " ", "👩‍👩‍👧", "e\u{301}", "\\", ",", "🇩🇪", "\t", "\u{915}\u{93f}", "\u{e01}\u{e33}", "👍🏽"];
    let mut s = String::new();
    let target = [60, 66, 70, 74, 140, 148, 220, 300][r.below(8)] + r.below(9);
    let base = r.below(3);
    while s.len() < target {
        if base == 0 { s.push('x') } else if r.one_in(6) { s.push_str(r.pick(PIECES)) } else { s.push_str(r.pick(&fill)) }
    }
    if r.one_in(12) {
        // one user-perceived character longer than a line
        s.push('o');
        for _ in 0..60 {
            s.push('\u{301}');
        }
    }
    s
}
/// Parameter text: no double quotes, no control characters but newline and tab.
pub fn ptext(r: &mut Rng) -> String {
    text(r)
}
pub fn nocomma(r: &mut Rng) -> String {
    ptext(r).replace(',', "")
}
pub fn word(r: &mut Rng) -> String {
    let w = ["a", "Foo", "x9", "home", "WORK", "b-c", "cell", "n", "end"];
    let mut s = r.pick(&w).to_string();
    if r.one_in(3) {
        s.push_str(r.pick(&w));
    }
    s
}
pub fn group(r: &mut Rng) -> Option<String> {
    r.opt(3, |r| r.pick(&["item1", "A", "x-y", "0", "-", "fn", "TZ", "x-", "Work", "1st", "-a-", "begin", "End", "lan", "caladr", "X-a--b"]).to_string())
}
pub const URIS: &[&str] = &[
    "http://example.com/a?b=c;d,e#f", "mailto:a@b.c", "urn:uuid:4fbe8971-0bc3-424c-9c26-36c3e1eff6b1", "tel:+1-555-555;ext=5",
    "geo:37.386013,-122.082932", "data:text/plain;base64,AAAA", "HTTP://Ex.COM/%7e", "xmpp:a@b", "a:b", "ftp://h/p;q=1,2",
    "http://[::1]:80/", "sip:u@h;t=x", "version:4.0", "end:vcard", "BEGIN:VCARD",
    "http://example.com/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
];
pub fn gen_uri(r: &mut Rng) -> Uri {
    refp::uri(r.pick(URIS)).unwrap()
}
pub fn date(r: &mut Rng) -> time::Date {
    loop {
        let y = match r.below(6) {
            0 => r.below(10000) as i32,
            1 => [0, 1, 9, 99, 999, 1000, 9999][r.below(7)],
            _ => 1900 + r.below(200) as i32,
        };
        let d = match r.below(4) {
            0 => [1, 28, 29, 30, 31][r.below(5)],
            _ => 1 + r.below(31) as u8,
        };
        if let Ok(d) = time::Date::from_calendar_date(y, Month::try_from(1 + r.below(12) as u8).unwrap(), d) {
            return d;
        }
    }
}
pub fn clock(r: &mut Rng) -> Time {
    Time::from_hms(
        [0, 1, 9, 10, 12, 23][r.below(6)],
        [0, 1, 9, 10, 30, 59][r.below(6)],
        [0, 1, 9, 10, 30, 59][r.below(6)],
    )
    .unwrap()
}
pub fn off(r: &mut Rng) -> UtcOffset {
    let s = if r.one_in(2) { 1 } else { -1 };
    let h = [0, 0, 1, 5, 9, 10, 12, 14, 23][r.below(9)];
    let m = [0, 0, 1, 9, 15, 30, 45, 59][r.below(8)];
    UtcOffset::from_hms(s * h, s * m, 0).unwrap()
}
pub fn dt(r: &mut Rng) -> DateTime {
    let o = if r.one_in(3) { UtcOffset::UTC } else { off(r) };
    OffsetDateTime::new_in_offset(date(r), clock(r), o).into()
}
pub fn daot(r: &mut Rng) -> DateAndOrTime {
    match r.below(3) {
        0 => DateAndOrTime::Date(date(r).into()),
        1 => DateAndOrTime::DateTime(dt(r)),
        _ => DateAndOrTime::Time((clock(r), off(r))),
    }
}
pub fn list1<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    let n = if r.one_in(2) { 1 } else { r.range(1, 4) };
    (0..n).map(|_| f(r)).collect()
}
pub fn type_of(r: &mut Rng) -> TypeParameter {
    match r.below(5) {
        0 => TypeParameter::Home,
        1 => TypeParameter::Work,
        2 => TypeParameter::Telephone(TEL[r.below(TEL.len())].1.clone()),
        3 => TypeParameter::Related(REL[r.below(REL.len())].1.clone()),
        _ => TypeParameter::Extension(nocomma(r)),
    }
}
pub fn xname(r: &mut Rng) -> String {
    r.pick(&["X-FOO", "x-bar", "X-1", "x--", "X-TYPE", "X-Begin", "X-GEO", "x-n"]).to_string()
}
#[cfg(not(feature = "full"))]
pub fn gen_lang(r: &mut Rng, wild: bool) -> Lang {
    if wild { ptext(r) } else { r.pick(&["en", "fr-CA", "x;y", "de"]).to_string() }
}
#[cfg(feature = "full")]
pub fn gen_lang(r: &mut Rng, _: bool) -> Lang {
    refp::lang(r.pick(&["en", "fr-CA", "de", "zh-Hant"])).unwrap()
}
#[cfg(not(feature = "full"))]
pub fn gen_media(r: &mut Rng) -> Media {
    if r.one_in(2) { ptext(r) } else { r.pick(&["text/plain", "text/plain;charset=utf-8", "a/b"]).to_string() }
}
#[cfg(feature = "full")]
pub fn gen_media(r: &mut Rng) -> Media {
    refp::media(r.pick(&["text/plain", "text/plain;charset=utf-8", "image/png"])).unwrap()
}

/// Parameters a property of this name may carry.
pub fn params(r: &mut Rng, name: &str, value: Option<ValueType>, density: usize) -> Option<Parameters> {
    let mut p = Parameters::default();
    p.value = value;
    let d = density;
    if r.one_in(d) { p.language = Some(gen_lang(r, true)) }
    if r.one_in(d) { p.pref = Some(r.range(1, 100) as u8) }
    if r.one_in(d) { p.alt_id = Some(ptext(r)) }
    if r.one_in(d) && name != "CLIENTPIDMAP" {
        p.pid = Some(list1(r, |r| Pid::new([0, 1, 42, u64::MAX][r.below(4)], r.opt(2, |r| [0, 3, u64::MAX][r.below(3)]))))
    }
    if r.one_in(d) && (TYPED.contains(&name) || name.starts_with("X-") || name.starts_with("x-")) {
        p.types = Some(list1(r, type_of))
    }
    if r.one_in(d) { p.media_type = Some(gen_media(r)) }
    if r.one_in(d) { p.calscale = Some(ptext(r)) }
    if r.one_in(d) { p.sort_as = Some(list1(r, nocomma)) }
    if r.one_in(d) { p.geo = Some(gen_uri(r)) }
    if r.one_in(d) {
        p.timezone = Some(match r.below(3) {
            0 => TimeZoneParameter::Uri(gen_uri(r)),
            1 => TimeZoneParameter::UtcOffset(off(r)),
            // text with a delimiter: see known-findings.txt
            _ => {
                let t = ptext(r).replace([';', ':'], "");
                TimeZoneParameter::Text(if refp::offset(&t).is_ok() { "tz".into() } else { t })
            }
        })
    }
    if r.one_in(d) && name == "ADR" { p.label = Some(ptext(r)) }
    if r.one_in(d) {
        p.extensions = Some(list1(r, |r| (if r.one_in(5) { "ENCODING".into() } else { xname(r) }, list1(r, nocomma))))
    }
    if p == Parameters::default() { None } else { Some(p) }
}

pub struct Opt {
    /// One entry in this many fields is set.
    pub fields: usize,
    /// One in this many parameters is set (0: none).
    pub params: usize,
    /// Text generator.
    pub text: fn(&mut Rng) -> String,
}

pub fn any(r: &mut Rng, o: &Opt) -> (AnyProperty, Option<ValueType>) {
    use ValueType as V;
    match r.below(12) {
        0 => (AnyProperty::Integer(list1(r, |r| [0, -1, 7, i64::MAX, i64::MIN][r.below(5)])), Some(V::Integer)),
        1 => (
            AnyProperty::Float(list1(r, |r| [0.0, -0.5, 1e300, 1.0 / 3.0, -2e-7, 12345678.9, f64::MIN_POSITIVE][r.below(7)])),
            Some(V::Float),
        ),
        2 => (AnyProperty::Boolean(r.one_in(2)), Some(V::Boolean)),
        3 => (AnyProperty::Date(list1(r, |r| date(r).into())), Some(V::Date)),
        4 => (AnyProperty::DateTime(list1(r, dt)), Some(V::DateTime)),
        5 => (AnyProperty::Time(list1(r, |r| (clock(r), off(r)))), Some(V::Time)),
        6 => (AnyProperty::DateAndOrTime(list1(r, daot)), Some(V::DateAndOrTime)),
        7 => (AnyProperty::Timestamp(list1(r, dt)), Some(V::Timestamp)),
        8 => (AnyProperty::Uri(gen_uri(r)), Some(V::Uri)),
        9 => (AnyProperty::UtcOffset(off(r)), Some(V::UtcOffset)),
        10 => (AnyProperty::Language(gen_lang(r, false)), Some(V::LanguageTag)),
        _ => {
            let t = (o.text)(r);
            (AnyProperty::Text(t), r.opt(2, |_| V::Text))
        }
    }
}

/// A valid card whose printed form determines it.
pub fn card(r: &mut Rng, o: &Opt) -> Vcard {
    let mut c = Vcard::default();
    let t = o.text;
    let f = o.fields;
    let ps = |r: &mut Rng, n: &str, v: Option<ValueType>| -> Option<Parameters> {
        if o.params == 0 {
            v.map(|v| {
                let mut p = Parameters::default();
                p.value = Some(v);
                p
            })
        } else {
            params(r, n, v, o.params)
        }
    };
    macro_rules! fill {
        ($n:expr, $r:ident, $e:expr) => {{
            let mut v = Vec::new();
            if $r.one_in(f) {
                for _ in 0..$r.range(1, 2) {
                    v.push($e);
                }
            }
            v
        }};
    }
    macro_rules! textp {
        ($n:expr, $r:ident, $v:expr) => {{
            let value = t($r);
            TextProperty { value, group: group($r), parameters: ps($r, $n, $v) }
        }};
    }
    macro_rules! urip {
        ($n:expr, $r:ident, $v:expr) => {
            UriProperty { value: gen_uri($r), group: group($r), parameters: ps($r, $n, $v) }
        };
    }
    macro_rules! tou {
        ($n:expr, $r:ident) => {
            if $r.one_in(2) {
                let v = if $r.one_in(2) { Some(ValueType::Uri) } else { None };
                TextOrUriProperty::Uri(urip!($n, $r, v))
            } else {
                TextOrUriProperty::Text(textp!($n, $r, Some(ValueType::Text)))
            }
        };
    }
    macro_rules! dot {
        ($n:expr, $r:ident) => {
            if $r.one_in(3) {
                DateTimeOrTextProperty::Text(textp!($n, $r, Some(ValueType::Text)))
            } else {
                let v = $r.opt(2, |_| ValueType::DateAndOrTime);
                DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty {
                    // a bare time is only read back from a list of times without ambiguity
                    value: list1($r, daot_rt),
                    group: group($r),
                    parameters: ps($r, $n, v),
                })
            }
        };
    }
    macro_rules! tl {
        ($n:expr, $r:ident, $d:expr) => {
            TextListProperty { value: list1($r, t), group: group($r), parameters: ps($r, $n, None), delimiter: $d }
        };
    }
    c.source = fill!("SOURCE", r, urip!("SOURCE", r, None));
    if r.one_in(f) {
        c.kind = Some(KindProperty { value: KINDS[r.below(4)].1.clone(), group: group(r), parameters: ps(r, "KIND", None) });
    }
    c.xml = fill!("XML", r, textp!("XML", r, None));
    c.formatted_name.push(textp!("FN", r, None));
    if r.one_in(f) { c.formatted_name.push(textp!("FN", r, None)) }
    if r.one_in(f) { c.name = Some(tl!("N", r, TextListDelimiter::SemiColon)) }
    c.nickname = fill!("NICKNAME", r, textp!("NICKNAME", r, None));
    c.photo = fill!("PHOTO", r, if r.one_in(2) {
        TextOrUriProperty::Uri(urip!("PHOTO", r, None))
    } else {
        let mut p = textp!("PHOTO", r, None);
        if refp::uriref(&p.value[..]).is_some() { p.value.insert(0, ' ') }
        TextOrUriProperty::Text(p)
    });
    if r.one_in(f) { c.bday = Some(dot!("BDAY", r)) }
    if r.one_in(f) { c.anniversary = Some(dot!("ANNIVERSARY", r)) }
    if r.one_in(f) {
        c.gender = Some(GenderProperty {
            value: Gender { sex: SEXES[r.below(6)].1.clone(), identity: r.opt(2, t) },
            group: group(r),
            parameters: ps(r, "GENDER", None),
        });
    }
    c.url = fill!("URL", r, urip!("URL", r, None));
    c.address = fill!("ADR", r, {
        let mut n = || r.opt(2, |r| { let s = t(r); if s.is_empty() { "x".into() } else { s } });
        let value = DeliveryAddress { po_box: n(), extended_address: n(), street_address: n(), locality: n(), region: n(), postal_code: n(), country_name: n() };
        AddressProperty { value, group: group(r), parameters: ps(r, "ADR", None) }
    });
    c.title = fill!("TITLE", r, textp!("TITLE", r, None));
    c.role = fill!("ROLE", r, textp!("ROLE", r, None));
    c.logo = fill!("LOGO", r, urip!("LOGO", r, None));
    c.org = fill!("ORG", r, tl!("ORG", r, TextListDelimiter::SemiColon));
    if matches!(&c.kind, Some(k) if k.value == Kind::Group) {
        c.member = fill!("MEMBER", r, urip!("MEMBER", r, None));
    }
    c.related = fill!("RELATED", r, tou!("RELATED", r));
    c.tel = fill!("TEL", r, tou!("TEL", r));
    c.email = fill!("EMAIL", r, textp!("EMAIL", r, None));
    c.impp = fill!("IMPP", r, urip!("IMPP", r, None));
    c.lang = fill!("LANG", r, LanguageProperty { value: gen_lang(r, false), group: group(r), parameters: ps(r, "LANG", None) });
    c.timezone = fill!("TZ", r, match r.below(3) {
        0 => TimeZoneProperty::Uri(urip!("TZ", r, Some(ValueType::Uri))),
        1 => TimeZoneProperty::UtcOffset(UtcOffsetProperty { value: off(r), group: group(r), parameters: ps(r, "TZ", Some(ValueType::UtcOffset)) }),
        _ => { let v = r.opt(2, |_| ValueType::Text); TimeZoneProperty::Text(textp!("TZ", r, v)) }
    });
    c.geo = fill!("GEO", r, urip!("GEO", r, None));
    c.categories = fill!("CATEGORIES", r, tl!("CATEGORIES", r, TextListDelimiter::Comma));
    c.note = fill!("NOTE", r, textp!("NOTE", r, None));
    if r.one_in(f) { c.prod_id = Some(textp!("PRODID", r, None)) }
    if r.one_in(f) { c.rev = Some(DateTimeProperty { value: dt(r), group: group(r), parameters: ps(r, "REV", None) }) }
    c.sound = fill!("SOUND", r, urip!("SOUND", r, None));
    if r.one_in(f) { c.uid = Some(tou!("UID", r)) }
    c.client_pid_map = fill!("CLIENTPIDMAP", r, ClientPidMapProperty {
        value: ClientPidMap { source: [1, 7, u64::MAX][r.below(3)], uri: gen_uri(r) }, group: group(r), parameters: ps(r, "CLIENTPIDMAP", None) });
    c.key = fill!("KEY", r, tou!("KEY", r));
    c.fburl = fill!("FBURL", r, urip!("FBURL", r, None));
    c.cal_adr_uri = fill!("CALADRURI", r, urip!("CALADRURI", r, None));
    c.cal_uri = fill!("CALURI", r, urip!("CALURI", r, None));
    c.extensions = fill!("X", r, {
        let (value, vt) = any(r, o);
        let value = if let AnyProperty::DateAndOrTime(_) = value { AnyProperty::DateAndOrTime(list1(r, daot_rt)) } else { value };
        ExtensionProperty { name: xname(r), value, group: group(r), parameters: ps(r, "X-", vt) }
    });
    c
}

/// Dates and times whose printed form is read back by DateAndOrTime:
/// every one of them, a time is printed with its offset.
pub fn daot_rt(r: &mut Rng) -> DateAndOrTime {
    daot(r)
}

// Source text

/// A word that is almost `s`.
pub fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let at = r.below(c.len() + 1);
    match r.below(4) {
        0 => c.extend(r.pick(&["s", "S", "-", "_", "1", "x", "A", ".", "é", " ", "0"]).chars()),
        1 => c.insert(at, r.pick(&["-", "x", "1", " ", "E", "."]).chars().next().unwrap()),
        2 if at < c.len() => { c.remove(at); }
        3 if at < c.len() => { let d = c[at]; c.insert(at, d); }
        _ => c.push('x'),
    }
    c.into_iter().collect()
}
pub fn case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.chars().map(|c| if r.one_in(2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        _ => s.to_string(),
    }
}
const DATES: &[&str] = &[
    "19850412", "1985-04-12", "1985-04", "1985", "--0412", "---12", "20000229", "19000229", "19851301", "1985043x", "x", "",
    "2024-2-1", "00000101", "99991231", "--1301", "---32", "---00",
];
const TIMES: &[&str] = &[
    "102200", "1022", "10", "-2200", "--00", "-22", "102200Z", "102200-0800", "102200+0530", "102200-08", "250000", "102200-0030", "--59", "--60",
    "10x", "1022-0030", "10+01", "000000Z", "235959", "-5959", "-60", "102260", "106000",
];
fn date_time_text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.pick(DATES).to_string(),
        1 => format!("T{}", r.pick(TIMES)),
        2 => format!("{}T{}", r.pick(DATES), r.pick(TIMES)),
        3 => p_dt(&dt(r)),
        4 => p_daot(&daot(r)),
        _ => format!("{}T{}", p_date(&date(r)), r.pick(&["102200Z", "000000", "235959-0500", "010203+01", "102200-0030"])),
    }
}
/// Text that needs no decoding, mostly.
pub fn raw_text(r: &mut Rng) -> String {
    let s = text(r).replace('\n', "\\n");
    if r.one_in(40) { s + "\u{7}" } else if r.one_in(60) { s + "\r" } else { s }
}
fn commas(r: &mut Rng, f: impl Fn(&mut Rng) -> String) -> String {
    let v = list1(r, f);
    v.join(r.pick(&[",", ",", ",", "\\,"]))
}

/// Parameter text as it may be written.
pub fn param_text(r: &mut Rng, name: &str) -> String {
    let key = if r.one_in(5) { xname(r) } else { r.pick(KEYS).to_string() };
    param_of(r, name, key)
}
pub fn param_of(r: &mut Rng, name: &str, key: String) -> String {
    let q = |r: &mut Rng, s: String| if r.one_in(3) { format!("\"{}\"", s.replace('"', "")) } else { s };
    let v = match &key.to_ascii_uppercase()[..] {
        "LANGUAGE" => { let s = r.pick(&["en", "fr-CA", "de"]).to_string(); q(r, s) }
        "VALUE" => {
            let s = if r.one_in(12) { "foo" } else { VAL[r.below(VAL.len())].0 };
            let s = if r.one_in(24) { near(r, s) } else { case(r, s) };
            q(r, s)
        }
        "PREF" => { let s = r.pick(&["1", "50", "100", "0", "101", "255", "256", "-1", "x", "", "+5", "007"]).to_string(); q(r, s) }
        "PID" => { let s = r.pick(&["1", "1.2", "1,2.3", "x", "1.", ".1", "1.2.3", "", "0.0", "18446744073709551615", "18446744073709551616"]).to_string(); q(r, s) }
        "TYPE" => {
            let s = list1(r, |r| {
                let s = match r.below(4) {
                    0 => TEL[r.below(TEL.len())].0.to_string(),
                    1 => REL[r.below(REL.len())].0.to_string(),
                    2 => r.pick(&["home", "work", "x-foo", "X-", "x", "pref", "é", "", "homé", "x-home"]).to_string(),
                    _ => word(r),
                };
                if r.one_in(24) { near(r, &s) } else { case(r, &s) }
            }).join(",");
            q(r, s)
        }
        "GEO" => { let s = if r.one_in(6) { "nope nope".into() } else { gen_uri(r).to_string() }; if r.one_in(8) { s } else { format!("\"{s}\"") } }
        "TZ" => {
            let s = r.pick(&["Z", "+0500", "-0030", "-08", "Raleigh/North America", "+9900", "é", "", "http://tz.org/x", "BEGIN", "xversion:4.0"]).to_string();
            q(r, s)
        }
        "CHARSET" => { let s = r.pick(&["UTF-8", "UTF-8", "utf-8", "ASCII", ""]).to_string(); let s = if r.one_in(5) { near(r, &s) } else { s }; q(r, s) }
        "MEDIATYPE" => { let s = r.pick(&["text/plain", "image/png", "text/plain;charset=utf-8"]).to_string(); if s.contains(';') { format!("\"{s}\"") } else { q(r, s) } }
        _ => {
            let s = text(r).replace('\n', "\\n");
            if s.contains([';', ':']) && !r.one_in(4) { format!("\"{s}\"") } else { q(r, s) }
        }
    };
    let _ = name;
    let v = if r.one_in(100) { v + "\u{1}" } else { v };
    let key = if r.one_in(60) { near(r, &key) } else { case(r, &key) };
    format!("{}={}", key, v)
}

/// Parameters of a line for a property, with a leading semicolon each.
pub fn param_list(r: &mut Rng, name: &str, max: usize) -> String {
    let n = r.below(max + 1);
    let mut out = String::new();
    for _ in 0..n {
        let p = param_text(r, name);
        let again = r.one_in(4).then(|| p.split('=').next().unwrap_or_default().to_string());
        out = format!("{out};{p}");
        // the same parameter once more
        if let Some(key) = again {
            out = format!("{out};{}", param_of(r, name, key));
        }
    }
    out
}

pub fn value_for(r: &mut Rng, name: &str, vt: Option<&str>) -> String {
    match name {
        "SOURCE" | "URL" | "IMPP" | "LOGO" | "MEMBER" | "SOUND" | "FBURL" | "CALADRURI" | "CALURI" | "GEO" => {
            if r.one_in(12) { raw_text(r) } else { gen_uri(r).to_string() }
        }
        "KIND" => if r.one_in(8) { r.pick(&["Group", "application", ""]).to_string() } else { KINDS[r.below(4)].0.to_string() },
        "GENDER" => r.pick(&["M", "F", "O", "N", "U", "", "M;x", ";it's", "F;a\\;b\\,c", "X", "m", "M;", "U;a;b", "Male"]).to_string(),
        "BDAY" | "ANNIVERSARY" => commas(r, date_time_text),
        "REV" => match r.below(4) { 0 => date_time_text(r), 1 => format!("{}T{}", r.pick(DATES), r.pick(TIMES)), _ => p_dt(&dt(r)) },
        "ADR" => { let n = if r.one_in(6) { r.range(1, 6) } else { r.range(7, 9) }; (0..n).map(|_| raw_text(r).replace(';', "\\;")).collect::<Vec<_>>().join(";") }
        "CLIENTPIDMAP" => format!("{};{}", r.pick(&["1", "2", "42", "0", "-1", "x", "", "18446744073709551615", "+3"]), if r.one_in(6) { "nope".into() } else { gen_uri(r).to_string() }),
        "PHOTO" | "TEL" | "RELATED" | "UID" | "KEY" => if r.one_in(2) { gen_uri(r).to_string() } else { raw_text(r) },
        "LANG" => r.pick(&["en", "fr-CA", "de"]).to_string(),
        "TZ" => match r.below(3) { 0 => gen_uri(r).to_string(), 1 => r.pick(&["+0500", "-0030", "Z", "-08", "nope"]).to_string(), _ => raw_text(r) },
        n if is_ext(n) => match vt.map(|s| s.to_ascii_lowercase()).as_deref() {
            Some("integer") => commas(r, |r| r.pick(&["1", "-1", "0", "9223372036854775807", "9223372036854775808", "x", "", "007", "+2"]).to_string()),
            Some("float") => commas(r, |r| r.pick(&["1.5", "-0", "1e9", "x", "3", ".5", "0.1", ""]).to_string()),
            Some("boolean") => r.pick(&["true", "FALSE", "True", "yes", "", "false"]).to_string(),
            Some("date") => commas(r, |r| r.pick(DATES).to_string()),
            Some("time") => commas(r, |r| r.pick(TIMES).to_string()),
            Some("date-time") => commas(r, |r| format!("{}T{}", r.pick(DATES), r.pick(TIMES))),
            Some("timestamp") => commas(r, |r| p_dt(&dt(r))),
            Some("date-and-or-time") => commas(r, date_time_text),
            Some("utc-offset") => r.pick(&["+0500", "-0030", "Z", "-08", "nope"]).to_string(),
            Some("uri") => if r.one_in(6) { raw_text(r) } else { gen_uri(r).to_string() },
            Some("language-tag") => "en".into(),
            _ => raw_text(r),
        },
        _ => raw_text(r),
    }
}
fn is_ext(s: &str) -> bool {
    s.get(..2).is_some_and(|x| x.eq_ignore_ascii_case("x-"))
}

/// A property line, without its line break.
pub fn line(r: &mut Rng, names: &[&str], max_params: usize) -> String {
    let name = if r.one_in(60) {
        if r.one_in(2) { let n = r.pick(NAMES); near(r, n) } else { r.pick(&["FOO", "", "X-", "VERSION", "FNX", "NOTE-", "A.B", "LABEL", "BEGIN"]).to_string() }
    } else if names.is_empty() {
        if r.one_in(6) { xname(r) } else { r.pick(NAMES).to_string() }
    } else {
        let n = r.pick(names).to_string();
        if n == "X-" { xname(r) } else { n }
    };
    let mut ps = String::new();
    let mut vt: Option<String> = None;
    if max_params > 0 {
        if r.one_in(3) {
            let want: &[&str] = match &name[..] {
                "BDAY" | "ANNIVERSARY" => &["text", "date-and-or-time", "date"],
                "TZ" => &["text", "uri", "utc-offset", "date"],
                n if is_ext(n) => &["text", "integer", "float", "boolean", "date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset", "uri", "language-tag", "foo"],
                _ => &["text", "uri", "date"],
            };
            let v = r.pick(want);
            vt = Some(v.to_string());
            ps.push_str(&format!(";{}={}", case(r, "VALUE"), case(r, v)));
        }
        if r.one_in(2) {
            let more = param_list(r, &name, max_params);
            if r.one_in(2) { ps = more + &ps } else { ps.push_str(&more) }
        }
    }
    let v = value_for(r, &name, vt.as_deref());
    let g = group(r).map(|g| g + ".").unwrap_or_default();
    let d = if r.one_in(60) { "" } else { ":" };
    format!("{}{}{}{}{}", g, case(r, &name), ps, d, v)
}

pub fn eol(r: &mut Rng) -> &'static str {
    if r.one_in(3) { "\n" } else { "\r\n" }
}
fn frame_lines(r: &mut Rng, lines: &[String], out: &mut String, wild: usize) {
    let pick = |r: &mut Rng, s: &str| case(r, s);
    let e = eol(r);
    let w = |r: &mut Rng| wild > 0 && r.one_in(wild);
    if !w(r) { out.push_str(&pick(r, "BEGIN:VCARD")); out.push_str(e) } else if r.one_in(2) { out.push_str(&near(r, "BEGIN:VCARD")); out.push_str(e) }
    if w(r) && r.one_in(2) {
        out.push_str(&near(r, "VERSION:4.0"));
        out.push_str(e);
    } else if w(r) {
        out.push_str(r.pick(&["VERSION:2.1\n", "NOTE:x\n", "\n", "VERSION:4.0", "VERSION:4.0;X\n", "FN:a\nVERSION:4.0\n"]));
    } else {
        out.push_str(r.pick(&["VERSION:4.0", "VERSION:4.0", "version:3.0"]));
        out.push_str(e);
    }
    for l in lines {
        out.push_str(l);
        out.push_str(if r.one_in(30) { "\n" } else { e });
        if w(r) {
            out.push_str(r.pick(&["\n", "VERSION:4.0\n", "BEGIN:VCARD\r\n", "junk\n", "FN\n", "\u{7}\n", "VERSION:9\n", "é\n", "NOTE;X-A=\"b:c\n", "END\n"]));
        }
    }
    if !w(r) {
        out.push_str(&pick(r, "END:VCARD"));
        if !w(r) { out.push_str(e) }
    } else if r.one_in(2) {
        out.push_str(&near(r, "END:VCARD"));
        out.push_str(e);
    }
    if w(r) { out.push_str(r.pick(&["\n", "\r\n\r\n", "x\n", "NOTE:a\n", "END:VCARD\n", " \n"])) }
}
/// A document; `wild` > 0: one in so many framing steps goes wrong.
pub fn doc(r: &mut Rng, cards: usize, names: &[&str], max_params: usize, wild: usize, max_lines: usize) -> String {
    let mut out = String::new();
    if r.one_in(4) { out.push_str(r.pick(&["\n", "\r\n", "\n\n\r\n"])) }
    for _ in 0..cards {
        let n = r.below(max_lines + 1);
        let mut lines: Vec<String> = (0..n).map(|_| line(r, names, max_params)).collect();
        if !(wild > 0 && r.one_in(wild)) {
            let at = r.below(lines.len() + 1);
            lines.insert(at, format!("{}:{}", case(r, "FN"), word(r)));
        }
        frame_lines(r, &lines, &mut out, wild);
        if r.one_in(4) { out.push_str(r.pick(&["\n", "\r\n", "\n\n"])) }
    }
    out
}

/// Small edits of a text.
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        if cs.is_empty() { break }
        let i = r.below(cs.len());
        match r.below(5) {
            0 => { cs.remove(i); }
            1 => { for (k, c) in r.pick(PIECES).chars().enumerate() { cs.insert(i + k, c) } }
            2 => cs.truncate(i),
            3 => { let j = r.below(cs.len()); cs.swap(i, j) }
            _ => cs.insert(i, ['\n', '\r', '"', ':', ';', '=', '\\', ' ', '\t', '\u{0}', '\u{7f}', 'é'][r.below(12)]),
        }
    }
    cs.into_iter().collect()
}
/// Fold a document at random places.
pub fn fold(r: &mut Rng, s: &str, n: usize) -> String {
    let mut at: Vec<usize> = s.char_indices().map(|(i, _)| i).filter(|&i| i > 0 && !(s.as_bytes()[i - 1] == b'\r')).collect();
    let mut cuts = Vec::new();
    for _ in 0..n {
        if at.is_empty() { break }
        cuts.push(at.swap_remove(r.below(at.len())));
    }
    cuts.sort();
    let mut o = String::new();
    let mut p = 0;
    for c in cuts {
        o.push_str(&s[p..c]);
        o.push_str(r.pick(&["\r\n ", "\r\n\t", "\n ", "\n\t"]));
        p = c;
    }
    o.push_str(&s[p..]);
    o
}
