//! The reference model: what parsing, classification and formatting mean in
//! terms of the numbering plan.  Written from the libphonenumber rules the
//! library documents, over `Plan` only.

use crate::meta::{Fmt, Kind, Plan, Terr};
use crate::rx::expand;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    FixedLine,
    Mobile,
    FixedLineOrMobile,
    TollFree,
    PremiumRate,
    SharedCost,
    PersonalNumber,
    Voip,
    Pager,
    Uan,
    Voicemail,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Src {
    Plus,
    Idd,
    Number,
    Default,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Num {
    pub code: u16,
    pub src: Src,
    pub nsn: String,
    pub ext: Option<String>,
    pub carrier: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    NoNumber,
    InvalidCountryCode,
    TooShortNsn,
    TooShortAfterIdd,
    TooLong,
    MalformedInteger,
}

pub const MIN_NSN: usize = 2;
pub const MAX_NSN: usize = 17;

pub fn classify(t: &Terr, nsn: &str) -> Ty {
    if !t.general.matches(nsn) || !t.lens_ok(nsn) {
        return Ty::Unknown;
    }
    let m = |k: Kind| t.descs.get(&k).map(|d| d.matches(nsn)).unwrap_or(false);
    for (k, ty) in [
        (Kind::PremiumRate, Ty::PremiumRate),
        (Kind::TollFree, Ty::TollFree),
        (Kind::SharedCost, Ty::SharedCost),
        (Kind::Voip, Ty::Voip),
        (Kind::PersonalNumber, Ty::PersonalNumber),
        (Kind::Pager, Ty::Pager),
        (Kind::Uan, Ty::Uan),
        (Kind::Voicemail, Ty::Voicemail),
    ] {
        if m(k) {
            return ty;
        }
    }
    match (m(Kind::FixedLine), m(Kind::Mobile)) {
        (true, true) => Ty::FixedLineOrMobile,
        (true, false) => {
            let same = match (t.descs.get(&Kind::FixedLine), t.descs.get(&Kind::Mobile)) {
                (Some(a), Some(b)) => a.rx.src == b.rx.src,
                _ => false,
            };
            if same { Ty::FixedLineOrMobile } else { Ty::FixedLine }
        }
        (false, true) => Ty::Mobile,
        (false, false) => Ty::Unknown,
    }
}

impl Terr {
    fn lens_ok(&self, _nsn: &str) -> bool {
        true
    }
}

/// The region a national number belongs to.
pub fn region<'a>(p: &'a Plan, code: u16, nsn: &str) -> Option<&'a Terr> {
    let mut it = p.regions(code);
    if p.by_code.get(&code).map(|v| v.len()) == Some(1) {
        return it.next();
    }
    it.find(|t| match &t.leading {
        Some(l) => l.run(nsn),
        None => classify(t, nsn) != Ty::Unknown,
    })
}

pub fn number_type(p: &Plan, code: u16, nsn: &str) -> Ty {
    region(p, code, nsn).map(|t| classify(t, nsn)).unwrap_or(Ty::Unknown)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Len {
    Possible,
    Local,
    TooShort,
    TooLong,
    Invalid,
}

pub fn length(t: &Terr, nsn: &str) -> Len {
    let n = nsn.len() as u16;
    if t.lens.is_empty() {
        // a plan that lists no lengths rules none out
        return Len::Possible;
    }
    if t.local.contains(&n) {
        Len::Local
    } else if t.lens.contains(&n) {
        Len::Possible
    } else if n < t.lens[0] {
        Len::TooShort
    } else if n > *t.lens.last().unwrap() {
        Len::TooLong
    } else {
        Len::Invalid
    }
}

/// Strip the trunk prefix / carrier code of `t` from a national number.
pub fn strip_np(t: &Terr, n: &str) -> (String, Option<String>) {
    let keep = (n.to_string(), None);
    let Some(rx) = &t.npfp else { return keep };
    let Some(caps) = rx.looking_at(n) else { return keep };
    let viable = t.general.matches(n);
    let last = caps[rx.groups];
    let g = |i: usize| caps.get(i).copied().flatten().map(|(a, b)| n[a..b].to_string());
    let end = caps[0].unwrap().1;
    match (&t.transform, last) {
        (Some(tr), Some(_)) => {
            let out = format!("{}{}", expand(tr, n, &caps), &n[end..]);
            if viable && !t.general.matches(&out) {
                return keep;
            }
            (out, if rx.groups > 1 { g(1) } else { None })
        }
        _ => {
            let out = n[end..].to_string();
            if viable && !t.general.matches(&out) {
                return keep;
            }
            (out, if rx.groups > 0 && last.is_some() { g(1) } else { None })
        }
    }
}

/// Digit-level parse: `plus` says whether the number was written with `+`.
pub fn parse_digits(p: &Plan, hint: Option<&Terr>, plus: bool, digits: &str) -> Result<Num, E> {
    let mut s = digits;
    let mut src = if plus { Src::Plus } else { Src::Default };
    // international dialling prefix
    let idd_end = match hint {
        Some(t) => t.idd.as_ref().and_then(|r| r.looking_at(s)).map(|c| c[0].unwrap().1),
        None => s.starts_with("00").then_some(2),
    };
    // calling codes do not start with 0, so after a plus only such digits can be a
    // (misplaced) dialling prefix
    if let Some(e) = idd_end.filter(|_| !plus || s.starts_with('0')) {
        if !s[e..].starts_with('0') {
            s = &s[e..];
            if !plus {
                src = Src::Idd;
            }
        }
    }
    let code;
    let rest;
    let meta;
    if src != Src::Default {
        if s.len() <= MIN_NSN {
            return Err(E::TooShortAfterIdd);
        }
        if s.starts_with('0') {
            return Err(E::InvalidCountryCode);
        }
        let l = (1..=3)
            .find(|&l| p.by_code.contains_key(&s[..l].parse().unwrap()))
            .ok_or(E::InvalidCountryCode)?;
        code = s[..l].parse().unwrap();
        rest = s[l..].to_string();
        meta = region(p, code, rest.trim_start_matches('0')).or(p.main(code));
    } else {
        let t = hint.ok_or(E::InvalidCountryCode)?;
        code = t.code;
        let cs = code.to_string();
        let mut r = s.to_string();
        if let Some(tail) = s.strip_prefix(cs.as_str()) {
            let (pot, _) = strip_np(t, tail);
            if (!t.general.matches(s) && t.general.matches(&pot)) || length(t, s) == Len::TooLong {
                r = tail.to_string();
                src = Src::Number;
            }
        }
        rest = r;
        meta = if src == Src::Default { Some(t) } else { region(p, code, rest.trim_start_matches('0')).or(p.main(code)) };
    }
    let (mut nsn, mut carrier) = (rest.clone(), None);
    if let Some(t) = meta {
        let (pot, c) = strip_np(t, &rest);
        if !matches!(length(t, &pot), Len::TooShort | Len::Local | Len::Invalid) {
            nsn = pot;
            carrier = c;
        }
    }
    if nsn.len() < MIN_NSN {
        return Err(E::TooShortNsn);
    }
    if nsn.len() > MAX_NSN {
        return Err(E::TooLong);
    }
    if nsn.parse::<u64>().unwrap() >= 1 << 56 {
        return Err(E::TooLong);
    }
    Ok(Num { code, src, nsn, ext: None, carrier })
}

// ------------------------------------------------------------- formatting

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    E164,
    International,
    National,
    Rfc3966,
}
pub const MODES: [Mode; 4] = [Mode::E164, Mode::International, Mode::National, Mode::Rfc3966];

pub fn pick<'a>(fs: &'a [Fmt], nsn: &str) -> Option<&'a Fmt> {
    fs.iter().find(|f| f.applies(nsn))
}

fn apply(f: &Fmt, nsn: &str, tpl: &str) -> String {
    expand(tpl, nsn, &f.pattern.full_caps(nsn).unwrap())
}

pub fn is_sep(c: char) -> bool {
    matches!(c, '-' | 'x' | '\u{2010}'..='\u{2015}' | '\u{2212}' | '\u{30FC}' | '\u{FF0D}'..='\u{FF0F}' | ' '
        | '\u{A0}' | '\u{AD}' | '\u{200B}' | '\u{2060}' | '\u{3000}' | '(' | ')' | '\u{FF08}' | '\u{FF09}'
        | '\u{FF3B}' | '\u{FF3D}' | '.' | '[' | ']' | '/' | '~' | '\u{2053}' | '\u{223C}' | '\u{FF5E}')
}

/// Grouped national number in international style (no trunk prefix).
pub fn grouped_intl(t: &Terr, nsn: &str, given: Option<&Fmt>) -> String {
    let fs = if t.intl.is_empty() { &t.formats } else { &t.intl };
    match given.or_else(|| pick(fs, nsn)) {
        Some(f) => apply(f, nsn, &f.format),
        None => nsn.to_string(),
    }
}

pub fn grouped_natl(t: &Terr, nsn: &str, carrier: Option<&str>, given: Option<&Fmt>) -> String {
    let Some(f) = given.or_else(|| pick(&t.formats, nsn)) else { return nsn.to_string() };
    let rule = match (carrier, &f.cc_rule) {
        (Some(_), Some(r)) => Some(r),
        _ => f.np_rule.as_ref(),
    };
    // the first group the format itself uses
    let at = f.format.as_bytes().windows(2).position(|w| w[0] == b'$' && w[1].is_ascii_digit());
    let tpl = match (rule, at) {
        (None, _) | (_, None) => f.format.clone(),
        (Some(r), Some(i)) => {
            let first = &f.format[i..i + 2];
            let r = r
                .replace("$NP", t.np.as_deref().unwrap_or(""))
                .replace("$FG", first)
                .replace("$CC", carrier.unwrap_or(""));
            format!("{}{}{}", &f.format[..i], r, &f.format[i + 2..])
        }
    };
    apply(f, nsn, &tpl)
}

pub fn format(p: &Plan, n: &Num, mode: Mode) -> Option<String> {
    format_as(p, n, mode, None)
}

/// With a given format (whose pattern fits the number) rather than the plan's choice.
pub fn format_as(p: &Plan, n: &Num, mode: Mode, given: Option<&Fmt>) -> Option<String> {
    let t = p.main(n.code)?;
    let ext = |s: String| match &n.ext {
        Some(e) => format!("{s}{}{e}", t.ext_prefix.as_deref().unwrap_or(" ext. ")),
        None => s,
    };
    Some(match mode {
        Mode::E164 => format!("+{}{}", n.code, n.nsn),
        Mode::International => ext(format!("+{} {}", n.code, grouped_intl(t, &n.nsn, given))),
        Mode::National => ext(grouped_natl(t, &n.nsn, n.carrier.as_deref(), given)),
        Mode::Rfc3966 => {
            let g = grouped_intl(t, &n.nsn, given);
            let mut out = format!("tel:+{}-", n.code);
            let mut in_sep = false;
            for c in g.chars() {
                if is_sep(c) {
                    if !in_sep {
                        out.push('-');
                    }
                    in_sep = true;
                } else {
                    out.push(c);
                    in_sep = false;
                }
            }
            if let Some(e) = &n.ext {
                out.push_str(";ext=");
                out.push_str(e);
            }
            out
        }
    })
}
