//! Reference reading of a vCard document, written from the property
//! statements; used as the oracle of the bounded replay runs.
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::time::{self, Month, OffsetDateTime, Time, UtcOffset};
use vcard4::{Date, DateTime, Uri, Vcard};

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// The reference has no opinion on this text.
    Unknown,
    No,
}
pub type R<T> = Result<T, Bad>;

#[cfg(not(feature = "full"))]
pub type Lang = String;
#[cfg(not(feature = "full"))]
pub type Media = String;
#[cfg(feature = "full")]
pub type Lang = language_tags::LanguageTag;
#[cfg(feature = "full")]
pub type Media = mime::Mime;

#[cfg(not(feature = "full"))]
pub fn lang(s: &str) -> R<Lang> {
    Ok(s.to_string())
}
#[cfg(not(feature = "full"))]
pub fn media(s: &str) -> R<Media> {
    Ok(s.to_string())
}
#[cfg(feature = "full")]
pub fn lang(s: &str) -> R<Lang> {
    language_tags::LanguageTag::parse(s).map_err(|_| Bad::No)
}
#[cfg(feature = "full")]
pub fn media(s: &str) -> R<Media> {
    s.parse::<mime::Mime>().map_err(|_| Bad::No)
}

/// `URI::try_from(&str)` panics on schemeless text with a colon in its first segment
pub fn uriref(s: &str) -> Option<uriparse::URI<'_>> {
    uriparse::URIReference::try_from(s).ok().and_then(|r| uriparse::URI::try_from(r).ok())
}
pub fn uri(s: &str) -> R<Uri> {
    match uriref(s).ok_or(()) {
        Ok(u) => {
            let r: Uri = s.parse().unwrap_or_else(|_| panic!("uri rejected: {s:?}"));
            assert_eq!(r.to_string(), u.to_string(), "uri text changed");
            Ok(r)
        }
        Err(_) => Err(Bad::No),
    }
}

/// Remove each line break followed by a space or a tab.
pub fn unfold(s: &str) -> String {
    let b = s.as_bytes();
    let mut out: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\n' && i + 1 < b.len() && (b[i + 1] == b' ' || b[i + 1] == b'\t') {
            if i > 0 && b[i - 1] == b'\r' {
                out.pop();
            }
            i += 2;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap()
}

pub fn esc(s: &str, semi: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            ',' => o.push_str("\\,"),
            ';' if semi => o.push_str("\\;"),
            c => o.push(c),
        }
    }
    o
}

pub fn split_dec(s: &str, d: Option<char>, limit: usize) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![String::new()];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '\\' && i + 1 < cs.len() && "\\,;nN".contains(cs[i + 1]) {
            let e = cs[i + 1];
            out.last_mut().unwrap().push(if e == 'n' || e == 'N' { '\n' } else { e });
            i += 2;
        } else if Some(c) == d && out.len() < limit {
            out.push(String::new());
            i += 1;
        } else {
            out.last_mut().unwrap().push(c);
            i += 1;
        }
    }
    out
}
pub fn dec(s: &str) -> String {
    split_dec(s, None, 1).pop().unwrap()
}
/// Parameter text: the escapes \\ \n \N \, are undone, \; is not.
pub fn dec_param(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && i + 1 < cs.len() && "\\,nN".contains(cs[i + 1]) {
            let e = cs[i + 1];
            o.push(if e == 'n' || e == 'N' { '\n' } else { e });
            i += 2;
        } else {
            o.push(cs[i]);
            i += 1;
        }
    }
    o
}

fn digits(s: &str) -> Option<u32> {
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None }
}
fn at<'a>(s: &'a str, a: usize, b: usize) -> &'a str {
    s.get(a..b).unwrap_or("?")
}

pub fn offset(s: &str) -> R<UtcOffset> {
    if s == "Z" {
        return Ok(UtcOffset::UTC);
    }
    let (sign, r) = match s.as_bytes().first() {
        Some(b'+') => (1, &s[1..]),
        Some(b'-') => (-1, &s[1..]),
        _ => return Err(Bad::No),
    };
    let (h, m) = match r.len() {
        4 => (digits(at(r, 0, 2)).ok_or(Bad::No)?, digits(at(r, 2, 4)).ok_or(Bad::No)?),
        2 => (digits(r).ok_or(Bad::No)?, 0),
        _ => return Err(Bad::No),
    };
    if h > 23 || m > 59 {
        return Err(if h <= 25 && m <= 59 { Bad::Unknown } else { Bad::No });
    }
    UtcOffset::from_hms(sign * h as i8, sign * m as i8, 0).map_err(|_| Bad::No)
}

fn month(m: u32) -> R<Month> {
    Month::try_from(u8::try_from(m).map_err(|_| Bad::No)?).map_err(|_| Bad::No)
}
/// Text that no reading of a date or time accepts.
fn hopeless(s: &str) -> bool {
    s.is_empty() || s.chars().any(|c| "xyz!_;\\".contains(c))
}
fn junk<T>(s: &str) -> R<T> {
    Err(if hopeless(s) { Bad::No } else { Bad::Unknown })
}

pub fn date(s: &str) -> R<time::Date> {
    let mk = |y: u32, m: u32, d: u32| {
        time::Date::from_calendar_date(y as i32, month(m)?, u8::try_from(d).map_err(|_| Bad::No)?)
            .map_err(|_| Bad::No)
    };
    if !s.is_ascii() {
        return junk(s);
    }
    let n = |a, b| digits(at(s, a, b));
    match s.len() {
        8 if digits(s).is_some() => mk(n(0, 4).unwrap(), n(4, 6).unwrap(), n(6, 8).unwrap()),
        10 if n(0, 4).is_some() && at(s, 4, 5) == "-" && n(5, 7).is_some() && at(s, 7, 8) == "-" && n(8, 10).is_some() => {
            mk(n(0, 4).unwrap(), n(5, 7).unwrap(), n(8, 10).unwrap())
        }
        7 if n(0, 4).is_some() && at(s, 4, 5) == "-" && n(5, 7).is_some() => mk(n(0, 4).unwrap(), n(5, 7).unwrap(), 1),
        4 if digits(s).is_some() => mk(n(0, 4).unwrap(), 1, 1),
        6 if at(s, 0, 2) == "--" && n(2, 6).is_some() => mk(0, n(2, 4).unwrap(), n(4, 6).unwrap()),
        5 if at(s, 0, 3) == "---" && n(3, 5).is_some() => mk(0, 1, n(3, 5).unwrap()),
        _ => junk(s),
    }
}

pub fn time_of(s: &str) -> R<(Time, UtcOffset)> {
    if !s.is_ascii() {
        return junk(s);
    }
    let mk = |h: u32, m: u32, sec: u32| Time::from_hms(h as u8, m as u8, sec as u8).map_err(|_| Bad::No);
    if let Some(r) = s.strip_prefix('-') {
        // truncated: -MMSS, -MM, --SS
        if let Some(r) = r.strip_prefix('-') {
            return match (r.len(), digits(r)) {
                (2, Some(x)) => Ok((mk(0, 0, x)?, UtcOffset::UTC)),
                _ => junk(s),
            };
        }
        return match (r.len(), digits(r)) {
            (4, Some(x)) => Ok((mk(0, x / 100, x % 100)?, UtcOffset::UTC)),
            (2, Some(x)) => Ok((mk(0, x, 0)?, UtcOffset::UTC)),
            _ => junk(s),
        };
    }
    let p = s.find(['-', '+']);
    let (body, off) = match p {
        // more than one sign
        Some(p) if s[p + 1..].contains(['-', '+']) => return junk(s),
        Some(p) => (&s[..p], offset(&s[p..]).map_err(|e| if hopeless(s) { Bad::No } else if e == Bad::No { Bad::No } else { e })?),
        None => (s.strip_suffix('Z').unwrap_or(s), UtcOffset::UTC),
    };
    let t = match (body.len(), digits(body)) {
        (6, Some(x)) => mk(x / 10000, x / 100 % 100, x % 100)?,
        (4, Some(x)) => mk(x / 100, x % 100, 0)?,
        (2, Some(x)) => mk(x, 0, 0)?,
        _ => return junk(s),
    };
    Ok((t, off))
}

pub fn date_time(s: &str) -> R<DateTime> {
    let Some(p) = s.find('T') else { return Err(Bad::No) };
    let d = date(&s[..p])?;
    let (t, o) = time_of(&s[p + 1..])?;
    Ok(OffsetDateTime::new_in_offset(d, t, o).into())
}
pub fn timestamp(s: &str) -> R<DateTime> {
    if !s.is_ascii() || s.len() < 15 || at(s, 8, 9) != "T" || digits(at(s, 0, 8)).is_none() || digits(at(s, 9, 15)).is_none() {
        return junk(s);
    }
    let d = date(at(s, 0, 8))?;
    let (t, _) = time_of(at(s, 9, 15))?;
    let o = match &s[15..] {
        "" | "Z" => UtcOffset::UTC,
        r => match offset(r) {
            Ok(o) => o,
            Err(Bad::No) => return Err(Bad::No),
            e => return Err(e.unwrap_err()),
        },
    };
    Ok(OffsetDateTime::new_in_offset(d, t, o).into())
}
pub fn daot(s: &str) -> R<DateAndOrTime> {
    if let Some(t) = s.strip_prefix('T') {
        return time_of(t).map(DateAndOrTime::Time);
    }
    if s.contains('T') {
        // a date and time, or nothing
        return match date_time(s) {
            Ok(v) => Ok(DateAndOrTime::DateTime(v)),
            Err(_) => junk(s),
        };
    }
    match date(s) {
        Ok(d) => Ok(DateAndOrTime::Date(d.into())),
        Err(Bad::No) => match time_of(s) {
            Ok(t) => Ok(DateAndOrTime::Time(t)),
            e => Err(e.unwrap_err()),
        },
        Err(Bad::Unknown) => match time_of(s) {
            // a form only the time reading knows
            Ok(t) if s.len() == 4 || s.len() == 2 || s.contains('Z') || s.starts_with('-') && s.len() != 5 => Ok(DateAndOrTime::Time(t)),
            _ => Err(Bad::Unknown),
        },
    }
}
pub fn list<T>(s: &str, f: impl Fn(&str) -> R<T>) -> R<Vec<T>> {
    let mut unknown = false;
    let mut out = Vec::new();
    for p in s.split(',') {
        match f(p) {
            Ok(v) => out.push(v),
            Err(Bad::No) => return Err(Bad::No),
            Err(Bad::Unknown) => unknown = true,
        }
    }
    if unknown { Err(Bad::Unknown) } else { Ok(out) }
}

pub const TEL: &[(&str, TelephoneType)] = &[
    ("text", TelephoneType::Text),
    ("voice", TelephoneType::Voice),
    ("fax", TelephoneType::Fax),
    ("cell", TelephoneType::Cell),
    ("video", TelephoneType::Video),
    ("pager", TelephoneType::Pager),
    ("textphone", TelephoneType::TextPhone),
];
pub const REL: &[(&str, RelatedType)] = &[
    ("contact", RelatedType::Contact),
    ("acquaintance", RelatedType::Acquaintance),
    ("friend", RelatedType::Friend),
    ("met", RelatedType::Met),
    ("co-worker", RelatedType::CoWorker),
    ("colleague", RelatedType::Colleague),
    ("co-resident", RelatedType::CoResident),
    ("neighbor", RelatedType::Neighbor),
    ("child", RelatedType::Child),
    ("parent", RelatedType::Parent),
    ("sibling", RelatedType::Sibling),
    ("spouse", RelatedType::Spouse),
    ("kin", RelatedType::Kin),
    ("muse", RelatedType::Muse),
    ("crush", RelatedType::Crush),
    ("date", RelatedType::Date),
    ("sweetheart", RelatedType::Sweetheart),
    ("me", RelatedType::Me),
    ("agent", RelatedType::Agent),
    ("emergency", RelatedType::Emergency),
];
pub const VAL: &[(&str, ValueType)] = &[
    ("text", ValueType::Text),
    ("uri", ValueType::Uri),
    ("date", ValueType::Date),
    ("time", ValueType::Time),
    ("date-time", ValueType::DateTime),
    ("date-and-or-time", ValueType::DateAndOrTime),
    ("timestamp", ValueType::Timestamp),
    ("boolean", ValueType::Boolean),
    ("integer", ValueType::Integer),
    ("float", ValueType::Float),
    ("utc-offset", ValueType::UtcOffset),
    ("language-tag", ValueType::LanguageTag),
];
pub const KINDS: &[(&str, Kind)] = &[
    ("individual", Kind::Individual),
    ("group", Kind::Group),
    ("org", Kind::Org),
    ("location", Kind::Location),
];
pub const SEXES: &[(&str, Sex)] = &[
    ("", Sex::None),
    ("M", Sex::Male),
    ("F", Sex::Female),
    ("O", Sex::Other),
    ("N", Sex::NotApplicable),
    ("U", Sex::Unknown),
];
pub fn look<T: Clone>(t: &[(&str, T)], s: &str, fold: bool) -> Option<T> {
    t.iter()
        .find(|(n, _)| if fold { n.eq_ignore_ascii_case(s) } else { *n == s })
        .map(|(_, v)| v.clone())
}
pub fn type_param(s: &str) -> TypeParameter {
    if s.eq_ignore_ascii_case("home") {
        TypeParameter::Home
    } else if s.eq_ignore_ascii_case("work") {
        TypeParameter::Work
    } else if s.len() >= 2 && s.is_char_boundary(2) && s[..2].eq_ignore_ascii_case("x-") {
        TypeParameter::Extension(s[2..].to_string())
    } else if let Some(t) = look(TEL, s, true) {
        TypeParameter::Telephone(t)
    } else if let Some(t) = look(REL, s, true) {
        TypeParameter::Related(t)
    } else {
        TypeParameter::Extension(s.to_string())
    }
}
pub fn pid(s: &str) -> R<Pid> {
    let n = |x: &str| x.parse::<u64>().map_err(|_| Bad::No);
    Ok(match s.find('.') {
        Some(p) => Pid::new(n(&s[..p])?, Some(n(&s[p + 1..])?)),
        None => Pid::new(n(s)?, None),
    })
}
pub fn gender(s: &str) -> R<Gender> {
    let (a, b) = match s.find(';') {
        Some(p) => (&s[..p], Some(s[p + 1..].to_string())),
        None => (s, None),
    };
    Ok(Gender { sex: look(SEXES, a, false).ok_or(Bad::No)?, identity: b })
}
pub fn address(raw: &str) -> R<DeliveryAddress> {
    let v = split_dec(raw, Some(';'), 7);
    if v.len() < 7 {
        return Err(Bad::No);
    }
    let mut it = v.into_iter().map(|s| if s.is_empty() { None } else { Some(s) });
    let mut n = || it.next().unwrap();
    Ok(DeliveryAddress {
        po_box: n(),
        extended_address: n(),
        street_address: n(),
        locality: n(),
        region: n(),
        postal_code: n(),
        country_name: n(),
    })
}
pub fn cpm(s: &str) -> R<ClientPidMap> {
    let p = s.find(';').ok_or(Bad::No)?;
    let source: u64 = s[..p].parse().map_err(|_| Bad::No)?;
    if source == 0 {
        return Err(Bad::No);
    }
    Ok(ClientPidMap { source, uri: uri(&s[p + 1..])? })
}

pub const TYPED: &[&str] = &[
    "FN", "NICKNAME", "PHOTO", "ADR", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "TITLE", "ROLE", "LOGO", "ORG",
    "RELATED", "CATEGORIES", "NOTE", "SOUND", "URL", "KEY", "FBURL", "CALADRURI", "CALURI",
];
pub const NAMES: &[&str] = &[
    "SOURCE", "KIND", "FN", "N", "NICKNAME", "PHOTO", "BDAY", "ANNIVERSARY", "GENDER", "ADR", "TEL", "EMAIL", "IMPP",
    "LANG", "TITLE", "ROLE", "LOGO", "ORG", "MEMBER", "RELATED", "CATEGORIES", "NOTE", "PRODID", "REV", "SOUND", "UID",
    "CLIENTPIDMAP", "URL", "KEY", "FBURL", "CALADRURI", "CALURI", "XML", "TZ", "GEO",
];
pub const KEYS: &[&str] = &[
    "LANGUAGE", "VALUE", "PREF", "ALTID", "PID", "TYPE", "MEDIATYPE", "CALSCALE", "SORT-AS", "CHARSET", "LABEL",
    "ENCODING", "TZ", "GEO",
];

fn add_ext(p: &mut Parameters, name: &str, v: &str) {
    p.extensions
        .get_or_insert_with(Vec::new)
        .push((name.to_string(), v.split(',').map(|s| s.to_string()).collect()));
}

fn is_x(s: &str) -> bool {
    s.len() > 2 && s[..2].eq_ignore_ascii_case("x-")
}
fn run(s: &str) -> &str {
    let n = s.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'-').count();
    &s[..n]
}
fn ctl(s: &str) -> bool {
    s.bytes().any(|b| b.is_ascii_control() && b != b'\t' && b != b'\n')
}

pub struct Line {
    pub name: String,
    pub group: Option<String>,
    pub params: Option<Parameters>,
    pub raw: String,
}

/// Read one content line (without its line break).
pub fn line(s: &str, strict: bool) -> R<Line> {
    let a = run(s);
    let mut rest = &s[a.len()..];
    let (group, name) = if !a.is_empty() && rest.starts_with('.') {
        let n = run(&rest[1..]);
        rest = &rest[1 + n.len()..];
        (Some(a.to_string()), n)
    } else {
        (None, a)
    };
    let up = name.to_ascii_uppercase();
    if !is_x(name) && !NAMES.contains(&&up[..]) {
        return Err(Bad::No);
    }
    let mut params = None;
    let mut unknown = false;
    if rest.starts_with(';') {
        let mut p = Parameters::default();
        loop {
            rest = &rest[1..];
            let key = run(rest);
            let k = key.to_ascii_uppercase();
            if !is_x(key) && !KEYS.contains(&&k[..]) {
                return Err(Bad::No);
            }
            rest = rest[key.len()..].strip_prefix('=').ok_or(Bad::No)?;
            let quoted = rest.starts_with('"');
            let raw;
            if quoted {
                let e = rest[1..].find('"').ok_or(Bad::No)?;
                raw = &rest[1..1 + e];
                rest = &rest[e + 2..];
                if !rest.starts_with([':', ';']) {
                    return Err(Bad::No);
                }
            } else {
                let b = rest.as_bytes();
                let mut i = 0;
                loop {
                    if i >= b.len() {
                        return Err(Bad::No);
                    }
                    if b[i] == b'\\' && i + 1 < b.len() && b"\\,;nN".contains(&b[i + 1]) {
                        i += 2;
                    } else if b[i] == b':' || b[i] == b';' {
                        break;
                    } else {
                        i += 1;
                    }
                }
                raw = &rest[..i];
                rest = &rest[i..];
            }
            if ctl(raw) {
                return Err(Bad::No);
            }
            let v = dec_param(raw);
            let mut step = || -> R<()> {
                if is_x(key) || k == "ENCODING" {
                    add_ext(&mut p, key, &v);
                    return Ok(());
                }
                match &k[..] {
                    "LANGUAGE" => p.language = Some(lang(&v)?),
                    "VALUE" => match look(VAL, &v, true) {
                        Some(t) => p.value = Some(t),
                        None if strict => return Err(Bad::No),
                        None => {}
                    },
                    "PREF" => {
                        let n: u8 = v.parse().map_err(|_| Bad::No)?;
                        if n < 1 || n > 100 {
                            return Err(Bad::No);
                        }
                        p.pref = Some(n);
                    }
                    "ALTID" => p.alt_id = Some(v.clone()),
                    "PID" => p.pid = Some(list(&v, pid)?),
                    "TYPE" => {
                        if !is_x(name) && !TYPED.contains(&&up[..]) {
                            return Err(Bad::No);
                        }
                        let t = p.types.get_or_insert_with(Vec::new);
                        t.extend(v.split(',').map(type_param));
                    }
                    "MEDIATYPE" => p.media_type = Some(media(&v)?),
                    "CALSCALE" => p.calscale = Some(v.clone()),
                    "SORT-AS" => p.sort_as = Some(v.split(',').map(|s| s.to_string()).collect()),
                    "GEO" => {
                        if !quoted {
                            return Err(Bad::No);
                        }
                        p.geo = Some(uri(&v)?);
                    }
                    "TZ" => {
                        p.timezone = Some(if quoted {
                            TimeZoneParameter::Uri(uri(&v)?)
                        } else {
                            match offset(&v) {
                                Ok(o) => TimeZoneParameter::UtcOffset(o),
                                Err(Bad::No) => TimeZoneParameter::Text(v.clone()),
                                Err(e) => return Err(e),
                            }
                        })
                    }
                    "CHARSET" => {
                        if v != "UTF-8" {
                            return Err(Bad::No);
                        }
                    }
                    "LABEL" => {
                        if up != "ADR" {
                            return Err(Bad::No);
                        }
                        p.label = Some(v.clone());
                    }
                    _ => unreachable!(),
                }
                Ok(())
            };
            match step() {
                Ok(()) => {}
                Err(Bad::No) => return Err(Bad::No),
                Err(Bad::Unknown) => unknown = true,
            }
            if rest.starts_with(':') {
                break;
            }
        }
        params = Some(p);
    }
    let raw = rest.strip_prefix(':').ok_or(Bad::No)?;
    if ctl(raw) {
        return Err(Bad::No);
    }
    if unknown {
        return Err(Bad::Unknown);
    }
    Ok(Line { name: name.to_string(), group, params, raw: raw.to_string() })
}

fn text(l: &Line) -> TextProperty {
    TextProperty { value: dec(&l.raw), group: l.group.clone(), parameters: l.params.clone() }
}
fn urip(l: &Line) -> R<UriProperty> {
    Ok(UriProperty { value: uri(&dec(&l.raw))?, group: l.group.clone(), parameters: l.params.clone() })
}
fn tlist(l: &Line, d: char) -> TextListProperty {
    TextListProperty {
        value: split_dec(&l.raw, Some(d), usize::MAX),
        group: l.group.clone(),
        parameters: l.params.clone(),
        delimiter: if d == ',' { TextListDelimiter::Comma } else { TextListDelimiter::SemiColon },
    }
}
fn text_or_uri(l: &Line) -> R<TextOrUriProperty> {
    match l.params.as_ref().and_then(|p| p.value.clone()) {
        None => Ok(match urip(l) {
            Ok(u) => TextOrUriProperty::Uri(u),
            Err(_) => TextOrUriProperty::Text(text(l)),
        }),
        Some(ValueType::Text) => Ok(TextOrUriProperty::Text(text(l))),
        Some(ValueType::Uri) => Ok(TextOrUriProperty::Uri(urip(l)?)),
        _ => Err(Bad::No),
    }
}
fn date_or_text(l: &Line) -> R<DateTimeOrTextProperty> {
    match l.params.as_ref().and_then(|p| p.value.clone()) {
        Some(ValueType::Text) => Ok(DateTimeOrTextProperty::Text(text(l))),
        None | Some(ValueType::DateAndOrTime) => Ok(DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty {
            value: list(&dec(&l.raw), daot)?,
            group: l.group.clone(),
            parameters: l.params.clone(),
        })),
        _ => Err(Bad::No),
    }
}

fn once<T>(slot: &mut Option<T>, v: impl FnOnce() -> R<T>) -> R<()> {
    if slot.is_some() {
        return Err(Bad::No);
    }
    *slot = Some(v()?);
    Ok(())
}

/// Put a line in its field.
pub fn apply(c: &mut Vcard, l: &Line) -> R<()> {
    let value = dec(&l.raw);
    let (g, p) = (l.group.clone(), l.params.clone());
    let vt = l.params.as_ref().and_then(|p| p.value.clone());
    if is_x(&l.name) {
        let v = match vt {
            None | Some(ValueType::Text) => AnyProperty::Text(value),
            Some(ValueType::Integer) => AnyProperty::Integer(list(&value, |s| s.parse().map_err(|_| Bad::No))?),
            Some(ValueType::Float) => AnyProperty::Float(list(&value, |s| s.parse().map_err(|_| Bad::No))?),
            Some(ValueType::Boolean) => AnyProperty::Boolean(if value.eq_ignore_ascii_case("true") {
                true
            } else if value.eq_ignore_ascii_case("false") {
                false
            } else {
                return Err(Bad::No);
            }),
            Some(ValueType::Date) => AnyProperty::Date(list(&value, |s| date(s).map(Date::from))?),
            Some(ValueType::DateTime) => AnyProperty::DateTime(list(&value, date_time)?),
            Some(ValueType::Time) => AnyProperty::Time(list(&value, time_of)?),
            Some(ValueType::DateAndOrTime) => AnyProperty::DateAndOrTime(list(&value, daot)?),
            Some(ValueType::Timestamp) => AnyProperty::Timestamp(list(&value, timestamp)?),
            Some(ValueType::LanguageTag) => AnyProperty::Language(lang(&value)?),
            Some(ValueType::UtcOffset) => AnyProperty::UtcOffset(offset(&value)?),
            Some(ValueType::Uri) => AnyProperty::Uri(uri(&value)?),
        };
        c.extensions.push(ExtensionProperty { name: l.name.clone(), value: v, group: g, parameters: p });
        return Ok(());
    }
    match &l.name.to_ascii_uppercase()[..] {
        "SOURCE" => c.source.push(urip(l)?),
        "KIND" => once(&mut c.kind, || {
            Ok(KindProperty { value: look(KINDS, &value, false).ok_or(Bad::No)?, group: g, parameters: p })
        })?,
        "XML" => c.xml.push(text(l)),
        "FN" => c.formatted_name.push(text(l)),
        "N" => once(&mut c.name, || Ok(tlist(l, ';')))?,
        "NICKNAME" => c.nickname.push(text(l)),
        "PHOTO" => c.photo.push(match urip(l) {
            Ok(u) => TextOrUriProperty::Uri(u),
            Err(_) => TextOrUriProperty::Text(text(l)),
        }),
        "BDAY" => once(&mut c.bday, || date_or_text(l))?,
        "ANNIVERSARY" => once(&mut c.anniversary, || date_or_text(l))?,
        "GENDER" => once(&mut c.gender, || Ok(GenderProperty { value: gender(&value)?, group: g, parameters: p }))?,
        "ADR" => c.address.push(AddressProperty { value: address(&l.raw)?, group: g, parameters: p }),
        "TEL" => c.tel.push(text_or_uri(l)?),
        "EMAIL" => c.email.push(text(l)),
        "IMPP" => c.impp.push(urip(l)?),
        "LANG" => c.lang.push(LanguageProperty { value: lang(&value)?, group: g, parameters: p }),
        "TZ" => c.timezone.push(match vt {
            None | Some(ValueType::Text) => TimeZoneProperty::Text(text(l)),
            Some(ValueType::Uri) => TimeZoneProperty::Uri(urip(l)?),
            Some(ValueType::UtcOffset) => {
                TimeZoneProperty::UtcOffset(UtcOffsetProperty { value: offset(&value)?, group: g, parameters: p })
            }
            _ => return Err(Bad::No),
        }),
        "GEO" => c.geo.push(urip(l)?),
        "TITLE" => c.title.push(text(l)),
        "ROLE" => c.role.push(text(l)),
        "LOGO" => c.logo.push(urip(l)?),
        "ORG" => c.org.push(tlist(l, ';')),
        "MEMBER" => c.member.push(urip(l)?),
        "RELATED" => c.related.push(text_or_uri(l)?),
        "CATEGORIES" => c.categories.push(tlist(l, ',')),
        "NOTE" => c.note.push(text(l)),
        "PRODID" => once(&mut c.prod_id, || Ok(text(l)))?,
        "REV" => once(&mut c.rev, || Ok(DateTimeProperty { value: timestamp(&value)?, group: g, parameters: p }))?,
        "SOUND" => c.sound.push(urip(l)?),
        "UID" => once(&mut c.uid, || text_or_uri(l))?,
        "CLIENTPIDMAP" => {
            if l.params.as_ref().is_some_and(|p| p.pid.is_some()) {
                return Err(Bad::No);
            }
            c.client_pid_map.push(ClientPidMapProperty { value: cpm(&value)?, group: g, parameters: p })
        }
        "URL" => c.url.push(urip(l)?),
        "KEY" => c.key.push(text_or_uri(l)?),
        "FBURL" => c.fburl.push(urip(l)?),
        "CALADRURI" => c.cal_adr_uri.push(urip(l)?),
        "CALURI" => c.cal_uri.push(urip(l)?),
        _ => return Err(Bad::No),
    }
    Ok(())
}

pub fn valid(c: &Vcard) -> bool {
    !c.formatted_name.is_empty()
        && (c.member.is_empty() || matches!(&c.kind, Some(k) if matches!(k.value, Kind::Group)))
}

fn kw(s: &str, k: &str) -> bool {
    s.len() >= k.len() && s.as_bytes()[..k.len()].eq_ignore_ascii_case(k.as_bytes())
}
fn nl(s: &str) -> usize {
    if s.starts_with('\n') { 1 } else if s.starts_with("\r\n") { 2 } else { 0 }
}
fn version(s: &str) -> bool {
    kw(s, "VERSION:4.0") || kw(s, "VERSION:3.0")
}

/// One card of unfolded text; gives the card and the rest of the text.
pub fn card<'a>(mut s: &'a str, strict: bool) -> R<(Vcard, &'a str)> {
    if !kw(s, "BEGIN:VCARD") {
        return Err(Bad::No);
    }
    s = &s[11..];
    let n = nl(s);
    if n == 0 || !version(&s[n..]) {
        return Err(Bad::No);
    }
    s = &s[n + 11..];
    let n = nl(s);
    if n == 0 {
        return Err(Bad::No);
    }
    s = &s[n..];
    let mut c = Vcard::default();
    let mut unknown = false;
    loop {
        if s.is_empty() {
            return Err(if unknown { Bad::Unknown } else { Bad::No });
        }
        if kw(s, "END:VCARD") {
            return if unknown { Err(Bad::Unknown) } else { Ok((c, &s[9..])) };
        }
        if version(s) || kw(s, "BEGIN:VCARD") {
            return Err(if unknown { Bad::Unknown } else { Bad::No });
        }
        let e = s.find('\n');
        let body = &s[..e.unwrap_or(s.len())];
        let body = if e.is_some() { body.strip_suffix('\r').unwrap_or(body) } else { body };
        let r = if e.is_none() { Err(Bad::No) } else { line(body, strict).and_then(|l| apply(&mut c, &l)) };
        match r {
            Ok(()) => {}
            Err(Bad::Unknown) => unknown = true,
            Err(Bad::No) => {
                if strict {
                    return Err(if unknown { Bad::Unknown } else { Bad::No });
                }
            }
        }
        s = &s[e.map(|e| e + 1).unwrap_or(s.len())..];
    }
}

fn skip_nl(mut s: &str) -> &str {
    while nl(s) > 0 {
        s = &s[nl(s)..];
    }
    s
}

pub fn document(src: &str, strict: bool) -> R<Vec<Vcard>> {
    let u = unfold(src);
    if u.contains(['\u{17f}', '\u{212a}']) {
        return Err(Bad::Unknown);
    }
    let mut s = &u[..];
    let mut out = Vec::new();
    loop {
        s = skip_nl(s);
        if s.is_empty() {
            break;
        }
        let (c, r) = card(s, strict)?;
        if !valid(&c) {
            return Err(Bad::No);
        }
        out.push(c);
        s = r;
    }
    if out.is_empty() { Err(Bad::No) } else { Ok(out) }
}

/// The items of an iteration.
pub fn items(src: &str, strict: bool) -> R<Vec<Option<Vcard>>> {
    let u = unfold(src);
    if u.contains(['\u{17f}', '\u{212a}']) {
        return Err(Bad::Unknown);
    }
    let mut s = &u[..];
    let mut out = Vec::new();
    loop {
        s = skip_nl(s);
        if s.is_empty() {
            return Ok(out);
        }
        match card(s, strict) {
            Ok((c, r)) if valid(&c) => {
                out.push(Some(c));
                s = r;
            }
            Err(Bad::Unknown) => return Err(Bad::Unknown),
            _ => {
                out.push(None);
                loop {
                    if kw(s, "END:VCARD") {
                        s = &s[9..];
                        break;
                    }
                    match s.find('\n') {
                        Some(p) => s = &s[p + 1..],
                        None => {
                            s = "";
                            break;
                        }
                    }
                }
            }
        }
    }
}

// Printing

pub fn p_date(d: &time::Date) -> String {
    format!("{:04}{:02}{:02}", d.year(), d.month() as u8, d.day())
}
pub fn p_off(o: &UtcOffset) -> String {
    let t = o.whole_seconds();
    format!("{}{:02}{:02}", if t < 0 { '-' } else { '+' }, t.abs() / 3600, t.abs() / 60 % 60)
}
pub fn p_time(t: &(Time, UtcOffset)) -> String {
    format!("{:02}{:02}{:02}{}", t.0.hour(), t.0.minute(), t.0.second(), p_off(&t.1))
}
pub fn p_dt(d: &DateTime) -> String {
    let d: &OffsetDateTime = d.as_ref();
    let t = format!("{}T{:02}{:02}{:02}", p_date(&d.date()), d.hour(), d.minute(), d.second());
    if d.offset() == UtcOffset::UTC { t + "Z" } else { t + &p_off(&d.offset()) }
}
pub fn p_daot(d: &DateAndOrTime) -> String {
    match d {
        DateAndOrTime::Date(d) => p_date(d.as_ref()),
        DateAndOrTime::DateTime(d) => p_dt(d),
        DateAndOrTime::Time(t) => p_time(t),
    }
}
pub fn join<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(",")
}
pub fn p_any(v: &AnyProperty) -> String {
    match v {
        AnyProperty::Text(t) => esc(t, false),
        AnyProperty::Integer(v) => join(v, |x| x.to_string()),
        AnyProperty::Float(v) => join(v, |x| x.to_string()),
        AnyProperty::Boolean(b) => b.to_string(),
        AnyProperty::Date(v) => join(v, |d| p_date(d.as_ref())),
        AnyProperty::DateTime(v) | AnyProperty::Timestamp(v) => join(v, p_dt),
        AnyProperty::Time(v) => join(v, p_time),
        AnyProperty::DateAndOrTime(v) => join(v, p_daot),
        AnyProperty::Uri(u) => u.to_string(),
        AnyProperty::UtcOffset(o) => p_off(o),
        AnyProperty::Language(l) => l.to_string(),
    }
}

/// (name, group, parameters, printed value) of every entry, in no
/// particular order across properties.
pub fn entries(c: &Vcard) -> Vec<(String, Option<String>, Option<Parameters>, String)> {
    let mut v = Vec::new();
    macro_rules! put {
        ($n:expr, $p:expr, $t:expr) => {{
            let p = $p;
            v.push(($n.to_string(), p.group.clone(), p.parameters.clone(), $t(&p.value)));
        }};
    }
    let t = |s: &String| esc(s, false);
    let u = |s: &Uri| s.to_string();
    macro_rules! tou {
        ($n:expr, $x:expr) => {
            match $x {
                TextOrUriProperty::Text(p) => put!($n, p, t),
                TextOrUriProperty::Uri(p) => put!($n, p, u),
            }
        };
    }
    macro_rules! dot {
        ($n:expr, $x:expr) => {
            match $x {
                DateTimeOrTextProperty::Text(p) => put!($n, p, t),
                DateTimeOrTextProperty::DateTime(p) => put!($n, p, |v: &Vec<DateAndOrTime>| join(v, p_daot)),
            }
        };
    }
    let name = |s: &'static [(&str, Kind)], k: &Kind| s.iter().find(|x| &x.1 == k).unwrap().0.to_string();
    for x in &c.source { put!("SOURCE", x, u) }
    for x in &c.kind { put!("KIND", x, |k: &Kind| name(KINDS, k)) }
    for x in &c.xml { put!("XML", x, t) }
    for x in &c.formatted_name { put!("FN", x, t) }
    let tl = |d: &TextListDelimiter| {
        let semi = matches!(d, TextListDelimiter::SemiColon);
        move |v: &Vec<String>| v.iter().map(|s| esc(s, semi)).collect::<Vec<_>>().join(if semi { ";" } else { "," })
    };
    for x in &c.name { put!("N", x, tl(&x.delimiter)) }
    for x in &c.nickname { put!("NICKNAME", x, t) }
    for x in &c.photo { tou!("PHOTO", x) }
    for x in &c.bday { dot!("BDAY", x) }
    for x in &c.anniversary { dot!("ANNIVERSARY", x) }
    for x in &c.gender {
        put!("GENDER", x, |g: &Gender| {
            let s = SEXES.iter().find(|y| y.1 == g.sex).unwrap().0.to_string();
            match &g.identity {
                Some(i) => s + ";" + &esc(i, true),
                None => s,
            }
        })
    }
    for x in &c.url { put!("URL", x, u) }
    for x in &c.address {
        put!("ADR", x, |a: &DeliveryAddress| {
            [&a.po_box, &a.extended_address, &a.street_address, &a.locality, &a.region, &a.postal_code, &a.country_name]
                .iter()
                .map(|o| o.as_ref().map(|s| esc(s, true)).unwrap_or_default())
                .collect::<Vec<_>>()
                .join(";")
        })
    }
    for x in &c.title { put!("TITLE", x, t) }
    for x in &c.role { put!("ROLE", x, t) }
    for x in &c.logo { put!("LOGO", x, u) }
    for x in &c.org { put!("ORG", x, tl(&x.delimiter)) }
    for x in &c.member { put!("MEMBER", x, u) }
    for x in &c.related { tou!("RELATED", x) }
    for x in &c.tel { tou!("TEL", x) }
    for x in &c.email { put!("EMAIL", x, t) }
    for x in &c.impp { put!("IMPP", x, u) }
    for x in &c.lang { put!("LANG", x, |l: &Lang| l.to_string()) }
    for x in &c.timezone {
        match x {
            TimeZoneProperty::Text(p) => put!("TZ", p, t),
            TimeZoneProperty::Uri(p) => put!("TZ", p, u),
            TimeZoneProperty::UtcOffset(p) => put!("TZ", p, p_off),
        }
    }
    for x in &c.geo { put!("GEO", x, u) }
    for x in &c.categories { put!("CATEGORIES", x, tl(&x.delimiter)) }
    for x in &c.note { put!("NOTE", x, t) }
    for x in &c.prod_id { put!("PRODID", x, t) }
    for x in &c.rev { put!("REV", x, p_dt) }
    for x in &c.sound { put!("SOUND", x, u) }
    for x in &c.uid { tou!("UID", x) }
    for x in &c.client_pid_map { put!("CLIENTPIDMAP", x, |m: &ClientPidMap| format!("{};{}", m.source, m.uri)) }
    for x in &c.key { tou!("KEY", x) }
    for x in &c.fburl { put!("FBURL", x, u) }
    for x in &c.cal_adr_uri { put!("CALADRURI", x, u) }
    for x in &c.cal_uri { put!("CALURI", x, u) }
    for x in &c.extensions { put!(x.name, x, p_any) }
    v
}
