//! The oracle of each property.
use crate::gens::{self, Opt};
use crate::refp::{self, *};
use crate::rng::Rng;
use crate::case;
use unicode_segmentation::UnicodeSegmentation;
use vcard4::helper::*;
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::time::{self, UtcOffset};
use vcard4::{DateTime, Uri, Vcard, VcardBuilder, iter, parse, parse_loose};

pub enum Stop {
    Skip,
    Fail(String),
}
/// Ok(trivial)
pub type Out = Result<bool, Stop>;

pub struct Check {
    random: fn(&mut Rng) -> Out,
    fixed: Vec<Box<dyn Fn() -> Out>>,
}
impl Check {
    pub fn random(&self, r: &mut Rng) -> Out {
        (self.random)(r)
    }
    pub fn fixed(&self) -> usize {
        self.fixed.len()
    }
    pub fn fixed_case(&self, i: usize) -> Out {
        (self.fixed[i])()
    }
}

macro_rules! fail {
    ($($a:tt)*) => { return Err(Stop::Fail(format!($($a)*))) };
}
macro_rules! same {
    ($a:expr, $b:expr, $($w:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            fail!("{}\n  got:      {:?}\n  expected: {:?}", format!($($w)*), a, b);
        }
    }};
}

fn norm_p(p: &mut Option<Parameters>) {
    if let Some(x) = p && *x == Parameters::default() {
        *p = None;
    }
}
fn norm(c: &mut Vcard) {
    macro_rules! each { ($($f:ident),*) => { $( for x in c.$f.iter_mut() { norm_p(&mut x.parameters) } )* } }
    each!(source, kind, xml, formatted_name, name, nickname, gender, url, address, email, impp, lang, title, role, logo,
        org, member, geo, categories, note, prod_id, rev, sound, client_pid_map, fburl, cal_adr_uri, cal_uri, extensions);
}

fn show(r: &vcard4::Result<Vec<Vcard>>) -> String {
    match r {
        Ok(v) => format!("Ok({} cards) {:?}", v.len(), v),
        Err(e) => format!("Err({e})"),
    }
}
fn shown(r: &R<Vec<Vcard>>) -> String {
    match r {
        Ok(v) => format!("Ok({} cards) {:?}", v.len(), v),
        Err(e) => format!("{e:?}"),
    }
}

/// The whole document reads as the reference reads it.
pub fn agree(src: &str, strict: bool) -> Out {
    let want = document(src, strict);
    let got = if strict { parse(src) } else { parse_loose(src) };
    match (&got, &want) {
        (_, Err(Bad::Unknown)) => return Err(Stop::Skip),
        (Ok(a), Ok(b)) if a == b => Ok(false),
        (Err(_), Err(_)) => Ok(true),
        _ => {
            let mut h = String::new();
            if let (Ok(a), Ok(b)) = (&got, &want) {
                for (x, y) in a.iter().zip(b) {
                    if x != y {
                        h = format!("\n  first difference: {:?}\n  vs {:?}", diff(x, y).0, diff(x, y).1);
                        break;
                    }
                }
            }
            fail!("strict={strict}: the parse differs from the reference{h}\n  got:      {}\n  expected: {}", show(&got), shown(&want))
        }
    }
}
fn diff(a: &Vcard, b: &Vcard) -> (String, String) {
    let (x, y) = (format!("{a:#?}"), format!("{b:#?}"));
    for (p, q) in x.lines().zip(y.lines()) {
        if p != q {
            return (p.into(), q.into());
        }
    }
    (String::new(), String::new())
}
fn round(c: &Vcard) -> Out {
    let p = c.to_string();
    case(p.clone());
    match parse(&p) {
        Ok(v) if v.len() == 1 => {
            let mut w = v[0].clone();
            let mut c = c.clone();
            norm(&mut w);
            norm(&mut c);
            if w != c {
                let d = diff(&w, &c);
                fail!("the card read back differs\n  got:      {}\n  expected: {}", d.0, d.1);
            }
            Ok(false)
        }
        Ok(v) => fail!("{} cards were read back", v.len()),
        Err(e) => fail!("the printed card does not parse: {e}"),
    }
}
fn wrap(lines: &str) -> String {
    format!("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n{lines}END:VCARD\r\n")
}
fn wrap0(lines: &str) -> String {
    format!("BEGIN:VCARD\r\nVERSION:4.0\r\n{lines}END:VCARD\r\n")
}

// C01

const TEXT_NAMES: &[&str] = &["FN", "NOTE", "NICKNAME", "EMAIL", "TITLE", "ROLE", "PRODID", "XML", "X-", "PHOTO"];
fn c01(r: &mut Rng) -> Out {
    match r.below(4) {
        0 => {
            let raw = gens::raw_text(r);
            let name = r.pick(TEXT_NAMES);
            let name = if name == "X-" { "X-T" } else { name };
            let src = wrap(&format!("{name}:{raw}\r\n"));
            case(src.clone());
            agree(&src, true)
        }
        1 => c01_text(&gens::text(r)),
        _ => round(&gens::card(r, &Opt { fields: 4, params: 0, text: gens::text })),
    }
}
fn tp(s: &str) -> TextProperty {
    s.to_string().into()
}
fn with_value(s: &str, v: ValueType) -> TextProperty {
    let mut t = tp(s);
    let mut p = Parameters::default();
    p.value = Some(v);
    t.parameters = Some(p);
    t
}
/// One text in every text property, checked literally as well.
fn c01_text(s: &str) -> Out {
    let mut c = Vcard::new(s.to_string());
    c.note.push(tp(s));
    c.nickname.push(tp(s));
    c.email.push(tp(s));
    c.title.push(tp(s));
    c.role.push(tp(s));
    c.prod_id = Some(tp(s));
    c.xml.push(tp(s));
    c.timezone.push(TimeZoneProperty::Text(tp(s)));
    if refp::uriref(s).is_none() {
        c.photo.push(TextOrUriProperty::Text(tp(s)));
        c.tel.push(TextOrUriProperty::Text(tp(s)));
        c.related.push(TextOrUriProperty::Text(tp(s)));
        c.key.push(TextOrUriProperty::Text(tp(s)));
    }
    c.uid = Some(TextOrUriProperty::Text(with_value(s, ValueType::Text)));
    c.bday = Some(DateTimeOrTextProperty::Text(with_value(s, ValueType::Text)));
    c.anniversary = Some(DateTimeOrTextProperty::Text(with_value(s, ValueType::Text)));
    c.extensions.push(ExtensionProperty { name: "X-T".into(), group: None, value: AnyProperty::Text(s.into()), parameters: None });
    round(&c)?;
    let printed = unfold(&c.to_string());
    case(printed.clone());
    let want = format!("NOTE:{}\r\n", esc(s, false));
    if !printed.contains(&want) {
        fail!("the printed text is not escaped as expected, no line {want:?}");
    }
    Ok(s.is_empty())
}

// C02

fn physical(printed: &str) -> Out {
    for l in printed.split("\r\n") {
        let body = l.strip_prefix(' ').unwrap_or(l);
        if l.len() > 75 && body.graphemes(true).count() > 1 {
            fail!("a physical line of {} bytes: {l:?}", l.len());
        }
    }
    Ok(false)
}
fn c02(r: &mut Rng) -> Out {
    if r.one_in(2) {
        let pd = if r.one_in(2) { 8 } else { 0 };
        let c = gens::card(r, &Opt { fields: 6, params: pd, text: gens::long });
        let p = c.to_string();
        case(p.clone());
        physical(&p)?;
        // the folds lie between user-perceived characters and nothing is lost
        let mut logical: Vec<String> = Vec::new();
        for l in p.strip_suffix("\r\n").unwrap_or(&p).split("\r\n") {
            match l.strip_prefix(' ') {
                Some(rest) if !logical.is_empty() => {
                    let last = logical.last_mut().unwrap();
                    let cut = last.len();
                    last.push_str(rest);
                    let _ = cut;
                }
                _ => logical.push(l.to_string()),
            }
        }
        // fold positions against the graphemes of the whole line
        let mut phys = p.split("\r\n").peekable();
        for full in &logical {
            let bounds: std::collections::HashSet<usize> = full.grapheme_indices(true).map(|(i, _)| i).collect();
            let mut pos = phys.next().unwrap_or("").len();
            while let Some(n) = phys.peek() {
                if !n.starts_with(' ') {
                    break;
                }
                if !bounds.contains(&pos) {
                    fail!("a fold at byte {pos} splits a character of {full:?}");
                }
                pos += n.len() - 1;
                phys.next();
            }
        }
        let mut want: Vec<String> = entries(&c).into_iter().map(|e| e.3).collect();
        let mut got: Vec<String> = Vec::new();
        for l in &logical[2..logical.len() - 1] {
            match line(l, true) {
                Ok(x) => got.push(x.raw),
                Err(_) => fail!("an unfolded line does not read back: {l:?}"),
            }
        }
        want.sort();
        got.sort();
        same!(got, want, "the unfolded values");
        return Ok(logical.iter().all(|l| l.len() <= 75));
    }
    let cards = r.range(1, 2);
    let w = if r.one_in(4) { 10 } else { 0 };
    let d = gens::doc(r, cards, &[], 2, w, 5);
    let d = if r.one_in(5) { gens::mutate(r, &d) } else { d };
    let u = unfold(&d);
    if unfold(&u) != u || u.is_empty() {
        return Err(Stop::Skip);
    }
    let n = if r.one_in(3) { 1 } else { r.range(1, 30) };
    let f = gens::fold(r, &u, n);
    if unfold(&f) != u {
        return Err(Stop::Skip);
    }
    case(f.clone());
    for strict in [true, false] {
        let (a, b) = if strict { (parse(&f), parse(&u)) } else { (parse_loose(&f), parse_loose(&u)) };
        if a.is_ok() != b.is_ok() || (a.is_ok() && a.as_ref().unwrap() != b.as_ref().unwrap()) {
            fail!("strict={strict}: folded and unfolded parse differ\n  folded:   {}\n  unfolded: {}", show(&a), show(&b));
        }
        let i: Vec<Option<Vcard>> = iter(&f, strict).map(|x| x.ok()).collect();
        let j: Vec<Option<Vcard>> = iter(&u, strict).map(|x| x.ok()).collect();
        same!(i, j, "strict={strict}: iterating folded and unfolded");
    }
    agree(&f, true).or_else(|e| if matches!(e, Stop::Skip) { Ok(true) } else { Err(e) })
}
fn c02_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    // every length around the boundaries, for characters of every width
    for unit in ["a", "é", "漢", "👩‍👩‍👧", "e\u{301}", "🇩🇪", "\u{915}\u{93f}", "\u{e01}\u{e33}", "\u{600}a", "👍🏽", "\u{1112}\u{1161}\u{11ab}", "☺\u{fe0f}"] {
        for n in 0..160usize {
            v.push(Box::new(move || {
                let s = format!("{}{}", "x".repeat(n), unit.repeat(30));
                let c = Vcard::new(s.clone());
                let p = c.to_string();
                case(p.clone());
                physical(&p)?;
                for l in p.split("\r\n ").skip(1) {
                    if unit.graphemes(true).next() != l.graphemes(true).next() && !l.starts_with('x') {
                        fail!("a fold splits a character: {l:?}");
                    }
                }
                same!(p.replace("\r\n ", ""), format!("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:{s}\r\nEND:VCARD\r\n"), "unfolded");
                Ok(false)
            }));
        }
    }
    // a fold at every position of a document
    let d = "BEGIN:VCARD\r\nVERSION:4.0\r\nitem1.FN;LANGUAGE=en;X-A=\"q;r\":Joé \\n\\, \\\\x\r\nN:a\\;b;c;;;\r\nEND:VCARD\r\n";
    for (i, _) in d.char_indices().filter(|(i, _)| *i > 0 && d.as_bytes()[i - 1] != b'\r') {
        for f in ["\r\n ", "\n\t"] {
            v.push(Box::new(move || {
                let x = format!("{}{}{}", &d[..i], f, &d[i..]);
                case(x.clone());
                match (parse(&x), parse(d)) {
                    (Ok(a), Ok(b)) => same!(a, b, "folded at {i}"),
                    (a, _) => fail!("folded at {i}: {}", show(&a)),
                }
                Ok(false)
            }));
        }
    }
    v
}

// C03

fn poke(s: &str) {
    let _ = parse_utc_offset(s);
    let _ = parse_time_list(s);
    let _ = parse_time(s);
    let _ = parse_date_list(s);
    let _ = parse_date(s);
    let _ = parse_date_time_list(s);
    let _ = parse_date_time(s);
    let _ = parse_timestamp(s);
    let _ = parse_timestamp_list(s);
    let _ = parse_date_and_or_time_list(s);
    let _ = parse_boolean(s);
    let _ = parse_integer_list(s);
    let _ = parse_float_list(s);
    let _ = s.parse::<DateTime>();
    let _ = s.parse::<vcard4::Date>();
    let _ = s.parse::<Uri>();
    let _ = s.parse::<Kind>();
    let _ = s.parse::<Sex>();
    let _ = s.parse::<Gender>();
    let _ = s.parse::<DeliveryAddress>();
    let _ = s.parse::<ClientPidMap>();
    let _ = s.parse::<DateAndOrTime>();
    let _ = s.parse::<UtcOffsetProperty>();
    let _ = s.parse::<TypeParameter>();
    let _ = s.parse::<TelephoneType>();
    let _ = s.parse::<RelatedType>();
    let _ = s.parse::<ValueType>();
    let _ = s.parse::<Pid>();
    let _ = UriProperty::try_from(s);
}
/// Print; an error is fine.
fn printed(d: &dyn std::fmt::Display) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let _ = write!(s, "{d}");
    s
}
fn exercise(s: &str) {
    for strict in [true, false] {
        let r = if strict { parse(s) } else { parse_loose(s) };
        if let Ok(v) = r {
            for c in v {
                printed(&c);
                let _ = c.validate();
                let _ = c.parse_photo_jpeg();
            }
        }
        let mut n = 0;
        for x in iter(s, strict) {
            if let Ok(c) = x {
                printed(&c);
            }
            n += 1;
            assert!(n <= s.len() + 1, "the iteration does not end");
        }
    }
    let _ = Vcard::try_from(s);
}
fn odd(r: &mut Rng) -> String {
    let bits = [
        "-", "--", "---", "T", "Z", "+", ",", "é", "漢", "0", "1", "12", "2024", "05", "\u{301}", ".", ";", ":", "x-", "e", "inf", "NaN", "İ", "\\", "99", "-0", "W", " ",
    ];
    (0..r.below(9)).map(|_| r.pick(&bits)).collect()
}
fn c03(r: &mut Rng) -> Out {
    match r.below(6) {
        0 => {
            let s = if r.one_in(2) { odd(r) } else { gens::text(r) };
            case(s.clone());
            poke(&s);
            Ok(s.is_empty())
        }
        1 => {
            // any value in any property
            let n = gens::line(r, &[], 3);
            let s = wrap(&format!("{n}{}\r\n", odd(r)));
            case(s.clone());
            exercise(&s);
            Ok(false)
        }
        2 => {
            let mut c = gens::card(r, &Opt { fields: 3, params: 5, text: gens::text });
            // values no parse produces
            let d = time::Date::from_ordinal_date([-9999, -1, 9999, 0][r.below(4)], 1 + r.below(365) as u16).unwrap();
            let o = UtcOffset::from_whole_seconds([-93599, -59, -1, 0, 1, 59, 3601, 93599][r.below(8)]).unwrap();
            let t = time::Time::from_hms_nano(23, 59, 59, 999_999_999).unwrap();
            let dt: DateTime = time::OffsetDateTime::new_in_offset(d, t, o).into();
            c.bday = Some(vcard4::Date::from(d).into());
            c.rev = Some(dt.clone().into());
            c.timezone.push(o.into());
            let push = |c: &mut Vcard, v| c.extensions.push(ExtensionProperty { name: "X-".into(), group: None, value: v, parameters: None });
            push(&mut c, AnyProperty::Time(vec![(t, o)]));
            push(&mut c, AnyProperty::Timestamp(vec![dt.clone()]));
            push(&mut c, AnyProperty::Date(vec![]));
            push(&mut c, AnyProperty::Float(vec![f64::NAN, f64::INFINITY]));
            push(&mut c, AnyProperty::Text("\u{0}\u{1b}\r".into()));
            c.name = Some(TextListProperty::new_semi_colon(vec![]));
            if r.one_in(3) {
                let mut p = Parameters::default();
                p.types = Some(vec![]);
                p.pid = Some(vec![]);
                p.sort_as = Some(vec![]);
                p.extensions = Some(vec![("".into(), vec![]), ("".into(), vec!["".into()])]);
                p.pref = Some(0);
                c.formatted_name[0].parameters = Some(p);
            }
            case(format!("{c:?}"));
            let s = printed(&c);
            let _ = (c.validate(), c.parse_photo_jpeg(), printed(&dt), printed(&vcard4::Date::from(d)));
            exercise(&s);
            Ok(false)
        }
        3 => {
            let w = ["BEGIN:VCARD", "END:VCARD", "VERSION:4.0", "\n", "\r\n", "FN", ":", ";", "\"", "=", "\\", "X-A", "TYPE", "a.", "TZ", "GEO", "é", "\u{7}", " ", "\n ", "VALUE=", "date", "BDAY", "N", "ADR", ","];
            let s: String = (0..r.below(25)).map(|_| r.pick(&w)).collect();
            case(s.clone());
            exercise(&s);
            Ok(s.is_empty())
        }
        _ => {
            let k = r.range(1, 3);
            let d = gens::doc(r, k, &[], 3, 8, 6);
            let mut s = gens::mutate(r, &d);
            if r.one_in(3) {
                s = gens::fold(r, &s, 5);
            }
            case(s.clone());
            exercise(&s);
            Ok(false)
        }
    }
}
fn c03_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    // all short strings over an alphabet of delicate characters
    let alphabet: &'static [&str] = &["-", "T", "0", "é", ",", ";", "\\", ":", "Z", "+", "x", "\n", "\"", ".", " "];
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    for first in 0..alphabet.len() {
        v.push(Box::new(move || {
            let mut stack = vec![alphabet[first].to_string()];
            while let Some(s) = stack.pop() {
                case(s.clone());
                poke(&s);
                if s.chars().count() < 3 {
                    exercise(&s);
                    let t = wrap(&format!("FN{s}\n"));
                    case(t.clone());
                    exercise(&t);
                    for n in ["BDAY:", "N:", "ADR:", "GENDER:", "X-A;VALUE=time:", "REV:", "CLIENTPIDMAP:"] {
                        let t = wrap(&format!("{n}{s}\n"));
                        case(t.clone());
                        exercise(&t);
                    }
                }
                if s.chars().count() < 4 {
                    for a in alphabet {
                        stack.push(format!("{s}{a}"));
                    }
                }
            }
            Ok(false)
        }));
    }
    v
}

// C04

fn iterate(src: &str, strict: bool) -> Out {
    let mut got = Vec::new();
    for x in iter(src, strict) {
        got.push(x.ok());
        if got.len() > src.len() + 1 {
            fail!("the iteration does not end");
        }
    }
    let whole = if strict { parse(src) } else { parse_loose(src) };
    if let Ok(v) = &whole {
        let v: Vec<Option<Vcard>> = v.iter().cloned().map(Some).collect();
        same!(got, v, "strict={strict}: iterated and parsed cards");
    } else if !got.is_empty() && got.iter().all(|x| x.is_some()) {
        fail!("strict={strict}: the iteration reports no error but the parse does: {}", show(&whole));
    }
    let mut again = iter(src, strict);
    for _ in 0..got.len() {
        again.next();
    }
    if again.next().is_some() || again.next().is_some() {
        fail!("the iteration goes on after its end");
    }
    if strict {
        let first = Vcard::try_from(src);
        match (got.first(), first) {
            (Some(Some(a)), Ok(b)) => same!(b, *a, "the conversion and the first item"),
            (Some(None), Err(_)) | (None, Err(_)) => {}
            (a, b) => fail!("the conversion differs from the first item: {a:?} {b:?}"),
        }
    }
    match items(src, strict) {
        Err(_) => Err(Stop::Skip),
        Ok(want) => {
            same!(got, want, "strict={strict}: items against the reference");
            Ok(false)
        }
    }
}
fn c04(r: &mut Rng) -> Out {
    let w = [0, 0, 12, 5][r.below(4)];
    let k = r.below(5);
    let mut d = gens::doc(r, k, &["NOTE", "N", "KIND", "MEMBER", "X-", "TEL", "UID", "UID"], 1, w, 3);
    if r.one_in(6) {
        d = gens::mutate(r, &d);
    }
    case(d.clone());
    let a = iterate(&d, true);
    if matches!(a, Err(Stop::Fail(_))) {
        return a;
    }
    iterate(&d, false)
}

// C05

fn c05(r: &mut Rng) -> Out {
    let names = ["KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID", "MEMBER", "FN", "NOTE"];
    if r.one_in(4) {
        let mut c = gens::card(r, &Opt { fields: 3, params: 0, text: gens::word });
        if r.one_in(2) {
            c.formatted_name.clear();
        }
        if r.one_in(2) {
            c.member.push(gens::gen_uri(r).into());
        }
        if r.one_in(3) {
            c.kind = r.opt(2, |r| KINDS[r.below(4)].1.clone().into());
        }
        case(format!("{c:?}"));
        same!(c.validate().is_ok(), valid(&c), "validate");
        return Ok(false);
    }
    let k = r.range(1, 3);
    let mut d = String::new();
    for _ in 0..k {
        let mut ls: Vec<String> = (0..r.below(4)).map(|_| {
            let n = r.pick(&names);
            let vals: &[&str] = match n {
                "KIND" => &["group", "individual", "org"],
                "N" => &["a;b;c;d;e", "f;g;;;"],
                "BDAY" | "ANNIVERSARY" => &["19850412", "--0412"],
                "GENDER" => &["M", "F;x"],
                "REV" => &["19951031T222710Z", "20000101T000000Z"],
                "MEMBER" | "UID" => &["urn:uuid:1", "http://e.org/2"],
                _ => &["a", "b"],
            };
            let g = gens::group(r).map(|g| g + ".").unwrap_or_default();
            format!("{g}{}{}:{}\r\n", gens::case(r, n), if r.one_in(5) { ";PREF=1" } else { "" }, r.pick(vals))
        }).collect();
        if !r.one_in(3) {
            let at = r.below(ls.len() + 1);
            ls.insert(at, "FN:me\r\n".into());
        }
        if r.one_in(3) && !ls.is_empty() {
            let l = ls[r.below(ls.len())].clone();
            let at = r.below(ls.len() + 1);
            ls.insert(at, l);
        }
        d.push_str(&wrap0(&ls.concat()));
    }
    case(d.clone());
    for strict in [true, false] {
        agree(&d, strict)?;
        for c in (if strict { parse(&d) } else { parse_loose(&d) }).unwrap_or_default() {
            if !valid(&c) {
                fail!("parse gave an invalid card: {c:?}");
            }
        }
        for c in iter(&d, strict).flatten() {
            if !valid(&c) {
                fail!("iter gave an invalid card: {c:?}");
            }
        }
        let got: Vec<_> = iter(&d, strict).map(|x| x.ok()).collect();
        same!(Ok(got), items(&d, strict), "strict={strict}: items");
    }
    if let Ok(c) = Vcard::try_from(&d[..]) && !valid(&c) {
        fail!("the conversion gave an invalid card: {c:?}");
    }
    Ok(false)
}

// C06

fn c06(r: &mut Rng) -> Out {
    let n = r.range(1, 6);
    let mut ls = String::new();
    for _ in 0..n {
        let l = gens::line(r, &[], 2);
        let one = wrap(&format!("{l}\r\n"));
        case(one.clone());
        // each line alone
        let a = agree(&one, true);
        if let Err(Stop::Fail(_)) = a {
            return a;
        }
        if a.is_ok() {
            ls.push_str(&l);
            ls.push_str(gens::eol(r));
        }
    }
    let d = wrap(&ls);
    case(d.clone());
    let a = agree(&d, true);
    if let Err(Stop::Fail(_)) = a {
        return a;
    }
    agree(&d, false)
}
fn c06_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    let vals: &'static [&str] = &[
        "http://e.org/a", "group", "plain text", "a;b;c;d;e;f;g", "19850412", "19951031T222710Z", "M;x", "1;urn:a:b", "en", "+0530", "true", "12", "1.5", "102200", "", "a\\,b\\;c\\nd\\\\e,f;g",
    ];
    for name in NAMES.iter().chain(["X-Foo", "x-bar", "BOGUS", "VERSION", "FNN", "LABEL"].iter()) {
        for pre in ["", "g1.", "X-.", "TZ."] {
            for par in [
                "", ";VALUE=text", ";VALUE=uri", ";VALUE=Date-And-Or-Time", ";VALUE=UTC-OFFSET", ";VALUE=integer", ";VALUE=float", ";VALUE=boolean",
                ";VALUE=date", ";VALUE=time", ";VALUE=date-time", ";VALUE=timestamp", ";VALUE=language-tag", ";X-P=1,2;PREF=3", ";TYPE=home,Work;ALTID=\"a;b\"", ";pid=1.2",
            ] {
                v.push(Box::new(move || {
                    let mut known = false;
                    for val in vals {
                        for low in [false, true] {
                            let n = if low { name.to_ascii_lowercase() } else { name.to_string() };
                            let d = wrap(&format!("{pre}{n}{par}:{val}\r\n"));
                            case(d.clone());
                            for strict in [true, false] {
                                match agree(&d, strict) {
                                    Err(Stop::Skip) => {}
                                    Ok(_) => known = true,
                                    e => return e,
                                }
                            }
                        }
                    }
                    Ok(!known)
                }));
            }
        }
    }
    v
}

// C07

fn logical(p: &str) -> Result<Vec<String>, Stop> {
    let Some(body) = p.strip_suffix("\r\n") else { fail!("the printed card does not end with CRLF") };
    let mut v: Vec<String> = Vec::new();
    for l in body.split("\r\n") {
        if l.contains('\n') || l.contains('\r') {
            fail!("a bare line break in {l:?}");
        }
        match (l.strip_prefix(' '), v.last_mut()) {
            (Some(x), Some(last)) => last.push_str(x),
            _ => v.push(l.to_string()),
        }
    }
    Ok(v)
}
fn frame(c: &Vcard) -> Out {
    let p = c.to_string();
    case(p.clone());
    let ls = logical(&p)?;
    if ls.len() < 3 || ls[0] != "BEGIN:VCARD" || ls[1] != "VERSION:4.0" || ls[ls.len() - 1] != "END:VCARD" {
        fail!("the frame is wrong: {ls:?}");
    }
    let mut got: Vec<(String, Option<String>, String, Option<Parameters>)> = Vec::new();
    for l in &ls[2..ls.len() - 1] {
        match line(l, true) {
            Ok(x) => got.push((x.name, x.group, x.raw, x.params)),
            Err(e) => fail!("a printed line is malformed ({e:?}): {l:?}"),
        }
    }
    let mut want: Vec<_> = entries(c).into_iter().map(|(n, g, mut p, v)| {
        norm_p(&mut p);
        (n, g, v, p)
    }).collect();
    // the order of the properties is free, the order within one is not
    got.sort_by(|a, b| a.0.cmp(&b.0));
    want.sort_by(|a, b| a.0.cmp(&b.0));
    if got != want {
        for (a, b) in got.iter().zip(&want) {
            if a != b {
                fail!("a printed line differs\n  got:      {a:?}\n  expected: {b:?}");
            }
        }
        fail!("{} lines instead of {}", got.len(), want.len());
    }
    Ok(false)
}
fn c07(r: &mut Rng) -> Out {
    let o = Opt { fields: [1, 2, 8][r.below(3)], params: [0, 6, 20][r.below(3)], text: if r.one_in(2) { gens::word } else { gens::text } };
    frame(&gens::card(r, &o))
}

// C08

fn inverse<T: PartialEq + std::fmt::Debug + std::fmt::Display + std::str::FromStr + Clone + 'static>(
    t: &'static [(&'static str, T)],
    fold: bool,
    v: &mut Vec<Box<dyn Fn() -> Out>>,
) where
    T: Sync,
{
    for i in 0..t.len() {
        v.push(Box::new(move || {
            let (w, x) = &t[i];
            case(format!("{x:?}"));
            same!(x.to_string(), *w, "printed form of {x:?}");
            match x.to_string().parse::<T>() {
                Ok(y) => same!(y, *x, "parse of the printed form of {x:?}"),
                Err(_) => fail!("{:?} does not parse", x.to_string()),
            }
            for j in 0..t.len() {
                if i != j && t[j].1.to_string() == x.to_string() {
                    fail!("{x:?} and {:?} print the same", t[j].1);
                }
            }
            // every letter case of the word
            let letters: Vec<usize> = w.char_indices().filter(|c| c.1.is_ascii_alphabetic()).map(|c| c.0).collect();
            let n = 1u64 << letters.len().min(10);
            for m in 0..n {
                let mut b = w.as_bytes().to_vec();
                for (k, &at) in letters.iter().enumerate() {
                    let up = m >> (k % 10) & 1 == 1;
                    b[at] = if up { b[at].to_ascii_uppercase() } else { b[at].to_ascii_lowercase() };
                }
                let s = String::from_utf8(b).unwrap();
                case(s.clone());
                same!(s.parse::<T>().ok(), look(t, &s, fold), "parse of {s:?}");
            }
            // neighbours of the word
            for c in ["a", "x", "-", " ", "s", "0", "é"] {
                for p in 0..=w.len() {
                    let s = format!("{}{}{}", &w[..p], c, &w[p..]);
                    case(s.clone());
                    same!(s.parse::<T>().ok(), look(t, &s, fold), "parse of {s:?}");
                }
            }
            for p in 0..w.len() {
                let s = format!("{}{}", &w[..p], &w[p + 1..]);
                case(s.clone());
                same!(s.parse::<T>().ok(), look(t, &s, fold), "parse of {s:?}");
            }
            Ok(false)
        }));
    }
}
fn c08_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let mut v = Vec::new();
    inverse(TEL, true, &mut v);
    inverse(REL, true, &mut v);
    inverse(VAL, true, &mut v);
    inverse(KINDS, false, &mut v);
    inverse(SEXES, false, &mut v);
    let mut all: Vec<TypeParameter> = vec![TypeParameter::Home, TypeParameter::Work];
    all.extend(TEL.iter().map(|x| TypeParameter::Telephone(x.1.clone())));
    all.extend(REL.iter().map(|x| TypeParameter::Related(x.1.clone())));
    for w in ["", "foo", "home", "x-y", "X-", "é", "cell"] {
        all.push(TypeParameter::Extension(w.into()));
    }
    let words: Vec<String> = all.iter().map(|x| x.to_string()).collect();
    for (i, x) in all.clone().into_iter().enumerate() {
        let words = words.clone();
        v.push(Box::new(move || {
            case(format!("{x:?}"));
            for (j, w) in words.iter().enumerate() {
                if i != j && *w == words[i] {
                    fail!("{x:?} prints as another value does: {w:?}");
                }
            }
            match words[i].parse::<TypeParameter>() {
                Ok(y) => same!(y, x, "parse of the printed form of {x:?}"),
                Err(e) => fail!("{e}"),
            }
            Ok(false)
        }));
    }
    v
}
fn c08(r: &mut Rng) -> Out {
    let s = match r.below(4) {
        0 => gens::text(r),
        1 => gens::word(r),
        2 => { let w = TEL[r.below(TEL.len())].0; gens::case(r, w) }
        _ => { let w = REL[r.below(REL.len())].0; let c = gens::case(r, w); if r.one_in(2) { gens::mutate(r, &c) } else { c } }
    };
    // Unicode case folding maps a few characters into ASCII
    if s.contains(['ſ', 'K', 'İ']) {
        return Err(Stop::Skip);
    }
    case(s.clone());
    match s.parse::<TypeParameter>() {
        Ok(y) => same!(y, type_param(&s), "TYPE value {s:?}"),
        Err(e) => fail!("{s:?}: {e}"),
    }
    let t = TypeParameter::Extension(s.clone());
    match t.to_string().parse::<TypeParameter>() {
        Ok(y) => same!(y, t, "extension {s:?}"),
        Err(e) => fail!("{e}"),
    }
    same!(s.parse::<TelephoneType>().ok(), look(TEL, &s, true), "telephone type");
    same!(s.parse::<RelatedType>().ok(), look(REL, &s, true), "relation type");
    same!(s.parse::<ValueType>().ok(), look(VAL, &s, true), "value type");
    same!(s.parse::<Kind>().ok(), look(KINDS, &s, false), "kind");
    same!(s.parse::<Sex>().ok(), look(SEXES, &s, false), "sex");
    Ok(s.is_empty())
}

// C09

fn c09(r: &mut Rng) -> Out {
    let c = if r.one_in(2) {
        let mut c = Vcard::new("x".into());
        let d = r.range(1, 6);
        c.formatted_name[0].parameters = gens::params(r, "FN", None, d);
        if r.one_in(2) {
            let mut a: AddressProperty = DeliveryAddress::default().into();
            a.parameters = gens::params(r, "ADR", None, d);
            c.address.push(a);
        }
        if r.one_in(4) {
            c.formatted_name[0].value = r.pick(&["vcard", "4.0", "VCARD", "3.0"]).to_string();
        }
        c
    } else {
        gens::card(r, &Opt { fields: 4, params: 4, text: gens::word })
    };
    round(&c)?;
    // each set parameter once, under its own name
    let p = c.to_string();
    for l in logical(&p)? {
        let head = strip_quoted(&l);
        let Some(colon) = head.find(':') else { continue };
        let mut keys: Vec<String> = head[..colon].split(';').skip(1).map(|k| k.split('=').next().unwrap().to_string()).collect();
        let n = keys.len();
        keys.retain(|k| !k.to_ascii_uppercase().starts_with("X-") && k != "ENCODING");
        let m = keys.len();
        keys.sort();
        keys.dedup();
        if keys.len() != m {
            fail!("a parameter is printed twice: {l:?}");
        }
        let _ = n;
    }
    let want: Vec<usize> = {
        let mut w: Vec<usize> = entries(&c).iter().map(|e| e.2.as_ref().map(count).unwrap_or(0)).collect();
        w.sort();
        w
    };
    let mut got: Vec<usize> = Vec::new();
    let ls = logical(&p)?;
    for l in &ls[2..ls.len() - 1] {
        let h = strip_quoted(l);
        let colon = h.find(':').unwrap_or(h.len());
        got.push(h[..colon].matches(';').count());
    }
    got.sort();
    same!(got, want, "number of printed parameters");
    Ok(false)
}
fn strip_quoted(l: &str) -> String {
    let mut o = String::new();
    let (mut q, mut e) = (false, false);
    for c in l.chars() {
        if q {
            if c == '"' { q = false }
            continue;
        }
        if e {
            e = false;
            o.push('_');
            continue;
        }
        match c {
            '"' => q = true,
            '\\' => e = true,
            ':' => { o.push(c); return o }
            c => o.push(c),
        }
    }
    o
}
fn count(p: &Parameters) -> usize {
    let mut n = 0;
    let mut add = |b: bool| n += b as usize;
    add(p.language.is_some());
    add(p.value.is_some());
    add(p.pref.is_some());
    add(p.alt_id.is_some());
    add(p.pid.is_some());
    add(p.types.is_some());
    add(p.media_type.is_some());
    add(p.calscale.is_some());
    add(p.sort_as.is_some());
    add(p.geo.is_some());
    add(p.timezone.is_some());
    add(p.label.is_some());
    n + p.extensions.as_ref().map(|e| e.len()).unwrap_or(0)
}

// C10

fn c10(r: &mut Rng) -> Out {
    let n = r.range(1, 4);
    let names = if r.one_in(3) { vec!["ADR", "FN", "CLIENTPIDMAP", "UID", "X-"] } else { vec![] };
    let name = if names.is_empty() { if r.one_in(6) { gens::xname(r) } else { r.pick(NAMES).to_string() } } else { r.pick(&names).to_string() };
    let name = if name == "X-" { gens::xname(r) } else { name };
    let mut ps = String::new();
    for _ in 0..n {
        ps.push(';');
        if r.one_in(15) {
            ps.push_str(r.pick(&["FOO=1", "N=1", "X-=1", "=1", "TYPE", "VERSION=1", "a.TYPE=home", "TYPE==x", "PREF:1", "LABEL", "", "ENCODINGX=b", "PIDD=1"]));
        } else {
            ps.push_str(&gens::param_text(r, &name));
        }
    }
    let v = match &name[..] {
        "KIND" => "group", "BDAY" | "ANNIVERSARY" => "19850412", "REV" => "19951031T222710Z", "ADR" => ";;;;;;", "GENDER" => "M",
        "CLIENTPIDMAP" => "1;urn:a:b", "LANG" => "en", _ => "urn:a:b",
    };
    let g = gens::group(r).map(|g| g + ".").unwrap_or_default();
    let d = wrap(&format!("{g}{}{ps}:{v}\r\n", gens::case(r, &name)));
    case(d.clone());
    let a = agree(&d, true);
    if let Err(Stop::Fail(_)) = a {
        return a;
    }
    agree(&d, false)
}
fn c10_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    let rules: &'static [&str] = &[
        "PREF=0", "PREF=101", "PREF=100", "PREF=1", "PREF=256", "PREF=-1", "PREF=\"0\"", "PREF=\"50\"", "TYPE=home", "TYPE=\"x,y\"", "LABEL=a", "LABEL=\"a:b\"", "CHARSET=UTF-8", "CHARSET=utf-8",
        "CHARSET=ASCII", "CHARSET=UTF-80", "CHARSET=UTF-8-X", "CHARSET=XUTF-8", "CHARSET=\"ASCII\"", "GEO=geo:1,2", "GEO=\"geo:1,2\"", "GEO=\"nope\"", "VALUE=foo", "VALUE=text", "VALUE=uri", "PID=x", "PID=1.x", "PID=1,x", "PID=1.2,3", "FOO=1", "SOURCE=1",
        "X-FOO=1", "ENCODING=b", "TZ=\"nope\"", "TZ=nope", "TZ=\"urn:a:b\"", "SORT-AS=a,b", "ALTID=1", "CALSCALE=gregorian", "MEDIATYPE=text/plain", "LANGUAGE=en",
    ];
    for name in NAMES.iter().chain(["X-FOO", "x-foo"].iter()) {
        for rule in rules {
            v.push(Box::new(move || {
                let val = match *name {
                    "KIND" => "group", "BDAY" | "ANNIVERSARY" => "19850412", "REV" => "19951031T222710Z", "ADR" => ";;;;;;", "GENDER" => "M",
                    "CLIENTPIDMAP" => "1;urn:a:b", "LANG" => "en", _ => "urn:a:b",
                };
                let low = rule.split_once('=').map(|(a, b)| format!("{}={}", a.to_ascii_lowercase(), b)).unwrap();
                for p in [rule.to_string(), low.clone(), format!("X-A=\"q\";{rule}"), format!("{rule};X-A=1"), format!("ALTID=\"a;b\";{low};X-A=\"1\"")] {
                    for n in [name.to_string(), name.to_ascii_lowercase(), format!("g.{name}")] {
                        let d = wrap(&format!("{n};{p}:{val}\r\n"));
                        case(d.clone());
                        for strict in [true, false] {
                            match agree(&d, strict) {
                                Err(Stop::Skip) => {}
                                Ok(_) => {}
                                e => return e,
                            }
                        }
                    }
                }
                Ok(false)
            }));
        }
    }
    v
}

// C11

fn ext(v: AnyProperty, t: ValueType) -> Vcard {
    let mut c = Vcard::new("x".into());
    let mut p = Parameters::default();
    p.value = Some(t);
    c.extensions.push(ExtensionProperty { name: "X-V".into(), group: None, value: v, parameters: Some(p) });
    c
}
fn c11(r: &mut Rng) -> Out {
    use ValueType as V;
    let c = match r.below(13) {
        0 => ext(AnyProperty::Date(gens::list1(r, |r| gens::date(r).into())), V::Date),
        1 => ext(AnyProperty::DateTime(gens::list1(r, gens::dt)), V::DateTime),
        2 => ext(AnyProperty::Timestamp(gens::list1(r, gens::dt)), V::Timestamp),
        3 => ext(AnyProperty::Time(gens::list1(r, |r| (gens::clock(r), gens::off(r)))), V::Time),
        4 => ext(AnyProperty::DateAndOrTime(gens::list1(r, gens::daot)), V::DateAndOrTime),
        5 => ext(AnyProperty::Integer(gens::list1(r, |r| if r.one_in(2) { r.next() as i64 } else { r.next() as i64 >> (r.below(63) + 1) })), V::Integer),
        6 => ext(
            AnyProperty::Float(gens::list1(r, |r| {
                let f = f64::from_bits(r.next());
                if f.is_finite() { f } else { 0.5 }
            })),
            V::Float,
        ),
        7 => ext(AnyProperty::Boolean(r.one_in(2)), V::Boolean),
        8 => ext(AnyProperty::UtcOffset(gens::off(r)), V::UtcOffset),
        9 => {
            let mut c = Vcard::new("x".into());
            let mut p = Parameters::default();
            p.value = Some(V::UtcOffset);
            p.timezone = Some(TimeZoneParameter::UtcOffset(gens::off(r)));
            c.timezone.push(TimeZoneProperty::UtcOffset(UtcOffsetProperty { value: gens::off(r), group: None, parameters: Some(p) }));
            c.rev = Some(gens::dt(r).into());
            c
        }
        10 => {
            let mut c = Vcard::new("x".into());
            c.bday = Some(DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { value: gens::list1(r, gens::daot), group: None, parameters: None }));
            c.anniversary = Some(DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { value: gens::list1(r, gens::daot), group: None, parameters: None }));
            c
        }
        _ => {
            // text forms
            let vt = r.pick(&["date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset", "integer", "float", "boolean"]);
            let v = gens::value_for(r, "X-V", Some(vt));
            let d = wrap(&format!("X-V;VALUE={vt}:{v}\r\n"));
            case(d.clone());
            return agree(&d, true);
        }
    };
    round(&c)?;
    // the same instant, and the same offset
    let w = parse(c.to_string()).map_err(|e| Stop::Fail(e.to_string()))?.remove(0);
    let offs = |c: &Vcard| -> Vec<i32> {
        let mut v = Vec::new();
        for e in &c.extensions {
            match &e.value {
                AnyProperty::DateTime(l) | AnyProperty::Timestamp(l) => v.extend(l.iter().map(|d| d.as_ref().offset().whole_seconds())),
                AnyProperty::DateAndOrTime(l) => v.extend(l.iter().map(|d| if let DateAndOrTime::DateTime(d) = d { d.as_ref().offset().whole_seconds() } else { 0 })),
                AnyProperty::Time(l) => v.extend(l.iter().map(|d| d.1.whole_seconds())),
                AnyProperty::Float(l) => v.extend(l.iter().map(|f| f.to_bits() as i32)),
                _ => {}
            }
        }
        if let Some(d) = &c.rev {
            v.push(d.value.as_ref().offset().whole_seconds());
        }
        v
    };
    same!(offs(&w), offs(&c), "offsets");
    Ok(false)
}
fn c11_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    // every offset of whole minutes
    for h in -23i8..=23 {
        v.push(Box::new(move || {
            for m in 0..60i8 {
                for s in if h == 0 { vec![1, -1] } else { vec![h.signum()] } {
                    let o = UtcOffset::from_hms(h, s * m, 0).unwrap();
                    case(format!("{o:?}"));
                    round(&ext(AnyProperty::UtcOffset(o), ValueType::UtcOffset))?;
                    let p: UtcOffsetProperty = o.into();
                    same!(p.to_string(), p_off(&o), "printed offset");
                    same!(p.to_string().parse::<UtcOffsetProperty>().ok().map(|x| x.value), Some(o), "offset property {o:?}");
                    same!(parse_utc_offset(&p_off(&o)).ok(), Some(o), "parse_utc_offset");
                    let t = time::Time::from_hms(1, 2, 3).unwrap();
                    round(&ext(AnyProperty::Time(vec![(t, o)]), ValueType::Time))?;
                    let d = time::Date::from_calendar_date(2024, time::Month::February, 29).unwrap();
                    round(&ext(AnyProperty::DateTime(vec![time::OffsetDateTime::new_in_offset(d, t, o).into()]), ValueType::DateTime))?;
                    round(&ext(AnyProperty::Timestamp(vec![time::OffsetDateTime::new_in_offset(d, t, o).into()]), ValueType::Timestamp))?;
                }
            }
            Ok(false)
        }));
    }
    // the facts about the time crate that the proof uses: all dates, offsets and times
    let fact = |r: Result<(), String>| r.map(|_| false).map_err(Stop::Fail);
    for y in 0..20 {
        v.push(Box::new(move || {
            case(format!("dates of the years from {}", y * 500));
            fact(crate::facts::dates(y * 500, y * 500 + 500))
        }));
    }
    v.push(Box::new(move || {
        case("offsets");
        fact(crate::facts::offsets())
    }));
    for h in 0..24 {
        v.push(Box::new(move || {
            case(format!("times of hour {h}"));
            fact(crate::facts::times(h, 4))
        }));
    }
    // every day of some years and every year
    for y in [0, 1, 1582, 1900, 2000, 2023, 2024, 9999] {
        v.push(Box::new(move || {
            let mut d = time::Date::from_calendar_date(y, time::Month::January, 1).unwrap();
            while d.year() == y {
                case(format!("{d}"));
                round(&ext(AnyProperty::Date(vec![d.into()]), ValueType::Date))?;
                same!(parse_date(&p_date(&d)).ok(), Some(d), "parse_date of {}", p_date(&d));
                let s = format!("{:04}-{:02}-{:02}", d.year(), d.month() as u8, d.day());
                same!(parse_date(&s).ok(), Some(d), "parse_date of {s}");
                let s = format!("--{:02}{:02}", d.month() as u8, d.day());
                same!(parse_date(&s).ok(), d.replace_year(0).ok(), "parse_date of {s}");
                match d.next_day() {
                    Some(n) => d = n,
                    None => break,
                }
            }
            for m in 1..=12 {
                let s = format!("{y:04}-{m:02}");
                same!(parse_date(&s).ok(), refp::date(&s).ok(), "parse_date of {s}");
            }
            Ok(false)
        }));
    }
    v.push(Box::new(|| {
        for y in 0..10000 {
            let s = format!("{y:04}");
            case(s.clone());
            same!(parse_date(&s).ok(), refp::date(&s).ok(), "parse_date of {s}");
        }
        for d in 0..40 {
            let s = format!("---{d:02}");
            case(s.clone());
            same!(parse_date(&s).ok(), refp::date(&s).ok(), "parse_date of {s}");
        }
        for x in 0..100 {
            for s in [format!("{x:02}"), format!("--{x:02}"), format!("-{x:02}")] {
                case(s.clone());
                same!(parse_time(&s).ok(), refp::time_of(&s).ok(), "parse_time of {s}");
            }
        }
        for x in 0..2400 {
            for s in [format!("{x:04}"), format!("-{x:04}"), format!("{x:04}59"), format!("12{x:04}"), format!("{x:04}-0030"), format!("{x:04}30+01"), format!("{x:04}Z")] {
                case(s.clone());
                if let Err(Bad::Unknown) = refp::time_of(&s) {
                    continue;
                }
                same!(parse_time(&s).ok(), refp::time_of(&s).ok(), "parse_time of {s}");
            }
        }
        Ok(false)
    }));
    v
}

// C12

fn c12(r: &mut Rng) -> Out {
    let t = gens::text;
    match r.below(4) {
        0 => {
            let (name, d) = [("N", ';'), ("ORG", ';'), ("CATEGORIES", ',')][r.below(3)];
            let _ = d;
            let raw = gens::raw_text(r);
            let s = wrap(&format!("{name}:{raw}\r\n"));
            case(s.clone());
            agree(&s, true)
        }
        1 => {
            let name = r.pick(&["ADR", "GENDER", "CLIENTPIDMAP"]);
            let v = gens::value_for(r, name, None);
            let s = wrap(&format!("{name}:{v}\r\n"));
            case(s.clone());
            agree(&s, true)
        }
        _ => {
            let mut c = Vcard::new("x".into());
            let l = |r: &mut Rng| { let n = if r.one_in(4) { 1 } else { r.range(1, 7) }; (0..n).map(|_| if r.one_in(4) { String::new() } else { t(r) }).collect::<Vec<_>>() };
            c.name = Some(TextListProperty::new_semi_colon(l(r)));
            c.org.push(TextListProperty::new_semi_colon(l(r)));
            c.categories.push(TextListProperty::new_comma(l(r)));
            c.gender = Some(Gender { sex: SEXES[r.below(6)].1.clone(), identity: r.opt(2, t) }.into());
            let mut n = || r.opt(2, |r| { let s = t(r); if s.is_empty() { ";".into() } else { s } });
            c.address.push(DeliveryAddress { po_box: n(), extended_address: n(), street_address: n(), locality: n(), region: n(), postal_code: n(), country_name: n() }.into());
            c.client_pid_map.push(ClientPidMapProperty {
                value: ClientPidMap { source: [1, 2, u64::MAX][r.below(3)], uri: gens::gen_uri(r) }, group: None, parameters: None });
            round(&c)
        }
    }
}
fn c12_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    // every short raw value over the delicate characters
    let al: &'static [&str] = &["\\", ",", ";", "n", "N", "a", "é"];
    for first in 0..al.len() {
        v.push(Box::new(move || {
            let mut stack = vec![al[first].to_string()];
            while let Some(s) = stack.pop() {
                let d = wrap(&format!("N:{s}\r\nORG:{s}\r\nCATEGORIES:{s}\r\nADR:{s};;;;;;\r\nNOTE:{s}\r\nGENDER:M;{s}\r\n"));
                case(d.clone());
                agree(&d, true)?;
                let mut c = Vcard::new("x".into());
                c.name = Some(TextListProperty::new_semi_colon(vec![s.clone(), "b".into(), s.clone()]));
                c.categories.push(TextListProperty::new_comma(vec![s.clone(), String::new(), s.clone()]));
                c.gender = Some(Gender { sex: Sex::Other, identity: Some(s.clone()) }.into());
                let mut a = DeliveryAddress::default();
                a.po_box = Some(s.clone());
                a.locality = Some(s.clone());
                a.country_name = Some(s.clone());
                c.address.push(a.into());
                round(&c)?;
                if s.chars().count() < 4 {
                    for a in al {
                        stack.push(format!("{s}{a}"));
                    }
                }
            }
            Ok(false)
        }));
    }
    v
}

// C13

/// An unknown VALUE put anywhere among the parameters of a line changes nothing.
fn c13_value(r: &mut Rng) -> Out {
    let n = r.range(1, 4);
    let (mut with, mut without) = (String::new(), String::new());
    for _ in 0..n {
        let name = if r.one_in(3) { gens::xname(r) } else { r.pick(&["BDAY", "ANNIVERSARY", "TZ", "TEL", "RELATED", "UID", "KEY", "NOTE", "X-A"]).to_string() };
        let mut ps: Vec<String> = Vec::new();
        for _ in 0..r.below(4) {
            let key = if r.one_in(2) { "VALUE".to_string() } else { r.pick(&["PREF", "ALTID", "PID", "TYPE", "X-B", "LANGUAGE"]).to_string() };
            let p = gens::param_of(r, &name, key);
            if !p.contains([':', ';', '\\']) {
                ps.push(format!(";{p}"));
            }
        }
        let vt = ps.iter().rev().find_map(|p| p.to_ascii_lowercase().strip_prefix(";value=").map(|v| v.trim_matches('"').to_string()));
        let v = gens::value_for(r, &name, vt.as_deref());
        let at = r.below(ps.len() + 1);
        let odd = format!(";{}={}", gens::case(r, "VALUE"), r.pick(&["what", "foo", "texts", "x-type", "\"date time\"", "-", "uri2"]));
        let e = gens::eol(r);
        without.push_str(&format!("{name}{}:{v}{e}", ps.concat()));
        ps.insert(at, odd);
        with.push_str(&format!("{name}{}:{v}{e}", ps.concat()));
    }
    let (a, b) = (wrap(&with), wrap(&without));
    case(a.clone());
    match (parse_loose(&a), parse_loose(&b)) {
        (Ok(x), Ok(y)) => {
            // (no parameters and default parameters are the same here)
            let none = format!("Some({:?})", Parameters::default());
            let text = |c: &Vec<Vcard>| format!("{c:?}").replace(&none, "None");
            same!(text(&x), text(&y), "with and without an unknown VALUE")
        }
        (Err(_), Err(_)) => {}
        (x, y) => fail!("with an unknown VALUE: {}\n  without: {}\n  {b:?}", show(&x), show(&y)),
    }
    Ok(true)
}
fn c13(r: &mut Rng) -> Out {
    if r.one_in(4) {
        return c13_value(r);
    }
    // lines in order; each is kept if the strict parse accepts it after the ones kept so far
    let n = r.range(1, 7);
    let mut kept = String::new();
    let mut all = String::new();
    let mut dropped = 0;
    for _ in 0..n {
        let l = if r.one_in(4) {
            r.pick(&["FOO:x", "NOTE", "FN;PREF=0:x", "junk junk", "BDAY:xyz", "N;TYPE=home:a", "é", "NOTE:a\u{7}b", "TEL;X-A=\"q:x", "KIND:bogus", "\u{7}", "", ":", ";", "VERSION:5.0", "g.VERSION:4.0", "UID;VALUE=date:x", "NOTE;X-A=\"END:VCARD\";:x", "FN:a\rb", "X-A;VALUE=integer:x", "TEL;LABEL=x:1", "\"", "NOTE;TYPE=a\\", "END", "GEO;GEO=geo:1,2:geo:1,2"]).to_string()
        } else {
            gens::line(r, &[], 2)
        };
        let l = l + gens::eol(r);
        // a line with an unknown VALUE is not in error here; one that starts with a blank continues another
        // and one that starts with BEGIN:VCARD, VERSION:4.0 or END:VCARD is framing, which is enforced in both modes
        if odd_value(&l) || l.starts_with([' ', '\t']) || framing(&l) {
            continue;
        }
        all.push_str(&l);
        // (cards are validated after their lines, so that error is not the line's)
        if parse(wrap(&format!("{kept}{l}"))).map_or_else(|e| e.to_string().starts_with("member property"), |_| true) {
            kept.push_str(&l);
        } else {
            dropped += 1;
        }
    }
    let k = wrap(&kept);
    let a = wrap(&all);
    let (a, k) = if r.one_in(3) { (format!("{a}{a}"), format!("{k}{k}")) } else { (a, k) };
    case(a.clone());
    let (x, y) = (parse_loose(&a), parse(&k));
    match (&x, &y) {
        (Ok(p), Ok(q)) => {
            if p != q {
                let d = p.iter().zip(q).find(|(a, b)| a != b).map(|(a, b)| diff(a, b));
                fail!("loose parse differs from the strict parse without the failing lines: {d:?}\n  without: {k:?}");
            }
        }
        (Err(_), Err(_)) => {}
        _ => fail!("loose parse: {}\n  strict parse without the failing lines: {}\n  {k:?}", show(&x), show(&y)),
    }
    if let Ok(v) = parse(&a) {
        same!(parse_loose(&a).ok(), Some(v), "strict and loose");
    }
    match agree(&a, false) {
        Err(Stop::Skip) => Ok(dropped == 0),
        Err(e) => Err(e),
        Ok(_) => Ok(dropped == 0),
    }
}
fn framing(l: &str) -> bool {
    let l = l.replace('ſ', "s").to_ascii_lowercase();
    ["begin:vcard", "version:4.0", "end:vcard"].iter().any(|p| l.starts_with(p))
}
/// An unknown VALUE (perhaps) in the line.
fn odd_value(l: &str) -> bool {
    const KNOWN: [&str; 12] = ["text", "uri", "date", "time", "date-time", "date-and-or-time", "timestamp", "boolean", "integer", "float", "utc-offset", "language-tag"];
    let l = refp::unfold(l).to_ascii_lowercase();
    l.match_indices("value=").any(|(i, _)| {
        let v = &l[i + 6..];
        let v = v.strip_prefix('"').unwrap_or(v);
        !KNOWN.iter().any(|k| v.strip_prefix(k).is_some_and(|r| r.starts_with([':', ';', '"'])))
    })
}
// C14

/// A control character other than a tab or a newline in a debug text.
fn debug_control(s: &str) -> bool {
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '\\' {
            match i.next() {
                Some('0' | 'r') => return true,
                Some('u') => {
                    let h: String = i.by_ref().skip(1).take_while(|c| *c != '}').collect();
                    if u32::from_str_radix(&h, 16).is_ok_and(|v| v < 32 || v == 127) {
                        return true;
                    }
                }
                _ => {}
            }
        }
    }
    false
}
fn c14(r: &mut Rng) -> Out {
    let k = r.below(4);
    let w = [3, 6, 12][r.below(3)];
    let mut d = gens::doc(r, k, &["NOTE", "TEL", "N", "X-"], 1, w, 3);
    if r.one_in(3) {
        d = gens::mutate(r, &d);
    }
    if r.one_in(4) && !d.is_empty() {
        // a control character anywhere
        let at = r.below(d.len());
        if d.is_char_boundary(at) {
            let c = ["\u{0}", "\u{1}", "\u{8}", "\u{b}", "\u{c}", "\u{e}", "\u{1b}", "\u{1f}", "\u{7f}", "\r"];
            d.insert_str(at, r.pick(&c));
        }
    }
    case(d.clone());
    for strict in [true, false] {
        match agree(&d, strict) {
            Err(Stop::Skip) => {}
            Err(e) => return Err(e),
            Ok(_) => {}
        }
        let got = if strict { parse(&d) } else { parse_loose(&d) };
        for c in got.unwrap_or_default() {
            let s = format!("{c:?}");
            if debug_control(&s)
            {
                fail!("a control character ended up in a card: {s}");
            }
        }
    }
    Ok(false)
}
fn c14_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    let parts: &'static [&str] = &["BEGIN:VCARD\n", "VERSION:4.0\r\n", "FN:a\r\n", "END:VCARD\n", "\n", "NOTE:b\n", "end:vcard", "junk", "FN\n"];
    for first in 0..parts.len() {
        v.push(Box::new(move || {
            let mut stack = vec![vec![first]];
            while let Some(s) = stack.pop() {
                let d: String = s.iter().map(|&i| parts[i]).collect();
                case(d.clone());
                agree(&d, true)?;
                agree(&d, false)?;
                if s.len() < 5 {
                    for i in 0..parts.len() {
                        let mut t = s.clone();
                        t.push(i);
                        stack.push(t);
                    }
                }
            }
            Ok(false)
        }));
    }
    // every control character in every place of a line
    for c in (0u8..32).chain([127]) {
        v.push(Box::new(move || {
            let c = c as char;
            let base = "g.TEL;TYPE=\"home\";X-A=b;ALTID=x\\,y:v1\\nv2";
            for i in 0..=base.len() {
                let l = format!("{}{}{}", &base[..i], c, &base[i..]);
                let d = wrap(&format!("{l}\r\n"));
                case(d.clone());
                agree(&d, true)?;
                agree(&d, false)?;
                if c != '\t' && c != '\n' && !(c == '\r' && i == base.len()) && parse(&d).is_ok() {
                    fail!("control character {c:?} at {i} accepted");
                }
            }
            Ok(false)
        }));
    }
    v.push(Box::new(|| {
        for d in ["", "\n", "\r\n\r\n", "BEGIN:VCARD", "BEGIN:VCARD\nVERSION:4.0\nFN:a", "BEGIN:VCARD\nVERSION:4.0\nFN:a\n", "BEGIN:VCARD\nFN:a\nVERSION:4.0\nEND:VCARD\n"] {
            case(d);
            if parse(d).is_ok() || parse_loose(d).is_ok() {
                fail!("{d:?} is accepted");
            }
        }
        Ok(false)
    }));
    v
}

// C15

fn c15(r: &mut Rng) -> Out {
    let first = gens::text(r);
    let mut b = VcardBuilder::new(first.clone());
    let mut c = Vcard::default();
    c.formatted_name.push(tp(&first));
    let mut log = String::new();
    for _ in 0..r.below(12) {
        let k = r.below(34);
        let s = gens::text(r);
        let u = gens::gen_uri(r);
        let l: Vec<String> = (0..r.below(4)).map(|_| gens::text(r)).collect();
        log.push_str(&format!("{k} {s:?} {u} {l:?}\n"));
        case(log.clone());
        let semi = |v: Vec<String>| TextListProperty { value: v, group: None, parameters: None, delimiter: TextListDelimiter::SemiColon };
        let up = |u: &Uri| UriProperty { value: u.clone(), group: None, parameters: None };
        macro_rules! uri { ($m:ident, $f:ident) => {{ c.$f.push(up(&u)); b.$m(u) }} }
        macro_rules! txt { ($m:ident, $f:ident) => {{ c.$f.push(TextProperty { value: s.clone(), group: None, parameters: None }); b.$m(s) }} }
        let dd = |d: time::Date| DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { value: vec![DateAndOrTime::Date(d.into())], group: None, parameters: None });
        b = match k {
            0 => { let kd = KINDS[r.below(4)].1.clone(); c.kind = Some(KindProperty { value: kd.clone(), group: None, parameters: None }); b.kind(kd) }
            1 => uri!(source, source),
            2 => txt!(xml, xml),
            3 => txt!(formatted_name, formatted_name),
            4 => {
                let a: [String; 5] = std::array::from_fn(|_| gens::text(r));
                c.name = Some(semi(a.to_vec()));
                b.name(a)
            }
            5 => txt!(nickname, nickname),
            6 => { c.photo.push(TextOrUriProperty::Uri(up(&u))); b.photo(u) }
            7 => { let d = gens::date(r); c.bday = Some(dd(d)); b.birthday(d.into()) }
            8 => { let d = gens::date(r); c.anniversary = Some(dd(d)); b.anniversary(d.into()) }
            9 => {
                let g = gens::value_for(r, "GENDER", None);
                if let Ok(x) = gender(&g) {
                    c.gender = Some(GenderProperty { value: x, group: None, parameters: None });
                }
                b.gender(&g)
            }
            10 => {
                let mut a = DeliveryAddress::default();
                a.po_box = Some(s.clone());
                a.locality = Some(u.to_string());
                c.address.push(AddressProperty { value: a.clone(), group: None, parameters: None });
                b.address(a)
            }
            11 => { c.tel.push(TextOrUriProperty::Text(tp(&s))); b.telephone(s) }
            12 => txt!(email, email),
            13 => uri!(impp, impp),
            14 => { let x = gens::gen_lang(r, true); c.lang.push(LanguageProperty { value: x.clone(), group: None, parameters: None }); b.lang(x) }
            15 => { c.timezone.push(TimeZoneProperty::Text(tp(&s))); b.timezone(s) }
            16 => uri!(geo, geo),
            17 => txt!(title, title),
            18 => txt!(role, role),
            19 => uri!(logo, logo),
            20 => { c.org.push(semi(l.clone())); b.org(l) }
            21 => uri!(member, member),
            22 => { c.related.push(TextOrUriProperty::Uri(up(&u))); b.related(u) }
            23 => { c.categories.push(TextListProperty { value: l.clone(), group: None, parameters: None, delimiter: TextListDelimiter::Comma }); b.categories(l) }
            24 => txt!(note, note),
            25 => { c.prod_id = Some(tp(&s)); b.prod_id(s) }
            26 => { let d = gens::dt(r); c.rev = Some(DateTimeProperty { value: d.clone(), group: None, parameters: None }); b.rev(d) }
            27 => uri!(sound, sound),
            28 => { c.uid = Some(TextOrUriProperty::Uri(up(&u))); b.uid(u) }
            29 => uri!(url, url),
            30 => { c.key.push(TextOrUriProperty::Uri(up(&u))); b.key(u) }
            31 => uri!(fburl, fburl),
            32 => uri!(cal_adr_uri, cal_adr_uri),
            _ => uri!(cal_uri, cal_uri),
        };
    }
    let got = b.finish();
    if got != c {
        let d = diff(&got, &c);
        fail!("the built card differs\n  got:      {}\n  expected: {}", d.0, d.1);
    }
    Ok(log.is_empty())
}

// C16

fn c16(r: &mut Rng) -> Out {
    use base64::Engine;
    use base64::engine::general_purpose::STANDARD;
    let mut c = Vcard::new("x".into());
    let mut want: Option<Vec<Vec<u8>>> = Some(vec![]);
    for _ in 0..r.below(4) {
        let bytes: Vec<u8> = (0..r.below(40)).map(|_| r.next() as u8).collect();
        let mut text = STANDARD.encode(&bytes);
        let mut ok = true;
        if r.one_in(12) {
            text.push('!');
            ok = false;
        }
        let mut p = Parameters::default();
        let jp = r.pick(&["JPEG", "jpeg", "Jpeg", "JPG", "PNG", "JPEGX"]).to_string();
        let mut types = vec![TypeParameter::Extension(jp.clone())];
        let mut first_jpeg = jp.eq_ignore_ascii_case("jpeg");
        if r.one_in(6) { types.insert(0, TypeParameter::Home); first_jpeg = false }
        if r.one_in(6) { types.push(TypeParameter::Work) }
        if r.one_in(10) { types.clear(); first_jpeg = false }
        if r.one_in(10) { first_jpeg = false } else { p.types = Some(types) }
        let en = r.pick(&["ENCODING", "encoding", "Encoding", "X-ENC", "ENCODINGS"]).to_string();
        let ev = r.pick(&["b", "b", "b", "B", "q", ""]).to_string();
        let mut enc = en.eq_ignore_ascii_case("encoding") && ev == "b";
        let mut ex = vec![(en, vec![ev])];
        if r.one_in(6) { ex.insert(0, ("X-ABC".into(), vec!["b".into()])); enc = false }
        if r.one_in(6) { ex.push(("X-ABC".into(), vec![])) }
        if r.one_in(6) { ex[0].1.push("c".into()) }
        if r.one_in(10) { ex[0].1.insert(0, "zz".into()); enc = false }
        if r.one_in(12) { ex.clear(); enc = false }
        if r.one_in(10) { enc = false } else { p.extensions = Some(ex) }
        let hit = first_jpeg && enc;
        let mut prop = TextProperty { value: text, group: None, parameters: Some(p) };
        let hit = if r.one_in(15) { prop.parameters = None; false } else { hit };
        if r.one_in(8) {
            let mut u: UriProperty = gens::gen_uri(r).into();
            u.parameters = prop.parameters.clone();
            c.photo.push(TextOrUriProperty::Uri(u));
            continue;
        }
        c.photo.push(TextOrUriProperty::Text(prop));
        if hit {
            if ok { if let Some(w) = want.as_mut() { w.push(bytes) } } else { want = None }
        }
    }
    case(c.to_string());
    same!(c.parse_photo_jpeg().ok(), want, "extracted photos");
    // and from source text
    let d = wrap("PHOTO;ENCODING=b;TYPE=JPEG:AQID\r\nPHOTO;TYPE=jpeg;encoding=b:\r\nPHOTO:http://e.org/a.jpg\r\n");
    match parse(&d) {
        Ok(v) => same!(v[0].parse_photo_jpeg().ok(), Some(vec![vec![1u8, 2, 3], vec![]]), "photos of {d:?}"),
        Err(e) => fail!("{e}"),
    }
    Ok(c.photo.is_empty())
}

pub fn find(p: &str) -> Check {
    let (random, fixed): (fn(&mut Rng) -> Out, Vec<Box<dyn Fn() -> Out>>) = match p {
        "C01" => (c01, c01_fixed()),
        "C02" => (c02, c02_fixed()),
        "C03" => (c03, c03_fixed()),
        "C04" => (c04, vec![]),
        "C05" => (c05, vec![]),
        "C06" => (c06, c06_fixed()),
        "C07" => (c07, vec![]),
        "C08" => (c08, c08_fixed()),
        "C09" => (c09, vec![]),
        "C10" => (c10, c10_fixed()),
        "C11" => (c11, c11_fixed()),
        "C12" => (c12, c12_fixed()),
        "C13" => (c13, vec![]),
        "C14" => (c14, c14_fixed()),
        "C15" => (c15, vec![]),
        "C16" => (c16, vec![]),
        _ => panic!("no such property"),
    };
    Check { random, fixed }
}
fn c01_fixed() -> Vec<Box<dyn Fn() -> Out>> {
    let al: &'static [&str] = &["\\", ",", ";", "n", "N", "\n", "a", "é", " ", "\""];
    let mut v: Vec<Box<dyn Fn() -> Out>> = Vec::new();
    for first in 0..al.len() {
        v.push(Box::new(move || {
            let mut stack = vec![al[first].to_string()];
            while let Some(s) = stack.pop() {
                let n = s.chars().count();
                if n <= 2 { c01_text(&s)?; } else { let mut c = Vcard::new(s.clone()); c.note.push(tp(&s)); round(&c)?; }
                if !s.contains('\n') {
                    let d = wrap(&format!("NOTE:{s}\r\nX-T:{s}\r\n"));
                    case(d.clone());
                    agree(&d, true)?;
                }
                if n < 4 {
                    for a in al {
                        stack.push(format!("{s}{a}"));
                    }
                }
            }
            Ok(false)
        }));
    }
    v
}

/// known-findings.txt: a TZ parameter whose text contains a delimiter does not survive printing
pub fn known_tz_param_text() -> bool {
    let mut c = Vcard::new("x".into());
    let mut p = Parameters::default();
    p.timezone = Some(TimeZoneParameter::Text("a;b".into()));
    c.formatted_name[0].parameters = Some(p);
    !matches!(parse(c.to_string()), Ok(v) if v == vec![c])
}
