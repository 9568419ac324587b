//! Properties about moving between text and numbers: round trips, hint
//! independence, international dialling prefixes, and what formats look like.

use crate::imp::{self, Boom};
use crate::meta::Terr;
use crate::run::Ctx;
use crate::spec::{self, Mode, Num};
use crate::univ::{hints, own_hints, Univ};

fn same(a: &Num, b: &Num) -> bool {
    (a.code, &a.nsn, &a.ext) == (b.code, &b.nsn, &b.ext)
}

const EXTS: [&str; 6] = ["", "5", "07", "123", "004567", "9999999"];

/// C02: E.164, international and RFC3966 output is read back as the number.
pub fn intl(ctx: &Ctx) {
    let salts = if ctx.quick() { 3 } else { 8 };
    for salt in 0..salts {
        let u = Univ::salted(ctx, false, ctx.seed as usize + salt);
        let hs = hints(&u.plan);
        let words: Vec<(usize, (u16, String))> = u.valid().into_iter().enumerate().collect();
        ctx.bound("valid numbers only; without extension and with one of 5 extensions; read back without a hint, with every region of the calling code, and with a rotating foreign region");
        ctx.par(&words, |(i, (c, w))| {
            for ext in ["", EXTS[1 + i % 5]] {
                let s = if ext.is_empty() { format!("+{c}{w}") } else { format!("+{c}{w} ext. {ext}") };
                let bad = |d: String| ctx.violation(s.clone(), d);
                let n = match imp::parse(None, &s) {
                    Ok(Ok(n)) => n,
                    Ok(Err(e)) => {
                        bad(format!("a valid number is rejected: {e:?}"));
                        continue;
                    }
                    Err(Boom(p)) => {
                        bad(p);
                        continue;
                    }
                };
                let a = imp::num(&n);
                if a.ext.as_deref().unwrap_or("") != ext {
                    bad(format!("extension {:?} instead of {ext:?}", a.ext));
                }
                for mode in [Mode::E164, Mode::International, Mode::Rfc3966] {
                    let t = match imp::format(&n, mode) {
                        Ok(t) => t,
                        Err(Boom(p)) => {
                            bad(p);
                            continue;
                        }
                    };
                    let mut want = a.clone();
                    if mode == Mode::E164 {
                        want.ext = None;
                    }
                    let mut hh = own_hints(&u.plan, *c);
                    hh.push(hs[i % hs.len()]);
                    for (h, _) in hh {
                        ctx.trace(1);
                        match imp::parse(h, &t) {
                            Ok(Ok(b)) if same(&want, &imp::num(&b)) => {
                                let again = imp::format(&b, mode);
                                if again.as_ref() != Ok(&t) || b.is_valid() != n.is_valid() {
                                    ctx.violation(format!("{}|{mode:?}", imp::case(h, &s)), format!("{mode:?} gives {t:?}; that read back prints as {again:?} and is valid: {}", b.is_valid()));
                                }
                            }
                            r => ctx.violation(format!("{}|{mode:?}", imp::case(h, &s)), format!("{mode:?} gives {t:?}, which is read back as {:?}, not {want:?}", r.map(|r| r.map(|n| imp::num(&n))))),
                        }
                    }
                }
            }
        });
        ctx.sample(|| words[words.len() / 3].1 .1.clone());
    }
    // only a tel: link can bring an extension of more than seven digits, and it
    // must do so both ways
    let u = Univ::new(ctx, false);
    let long: Vec<(u16, String)> = u.picks();
    ctx.bound(format!("{} numbers with extensions of 1 to 20 digits as tel: links", long.len()));
    ctx.par(&long, |(c, w)| {
        for l in 1..=20 {
            let ext = &"01234567890123456789"[20 - l..];
            let s = format!("tel:+{c}-{w};ext={ext}");
            ctx.trace(1);
            match imp::parse(None, &s) {
                Ok(Ok(n)) => {
                    let a = imp::num(&n);
                    for mode in [Mode::Rfc3966, Mode::International, Mode::E164] {
                        let t = imp::format(&n, mode).unwrap_or_else(|Boom(p)| p);
                        let mut want = a.clone();
                        if mode == Mode::E164 {
                            want.ext = None;
                        }
                        if mode == Mode::International && l > 7 {
                            continue;
                        }
                        match imp::parse(None, &t) {
                            Ok(Ok(b)) if a.ext.as_deref() == Some(ext) && same(&want, &imp::num(&b)) => (),
                            r => ctx.violation(format!("{s}|{mode:?}"), format!("{mode:?} gives {t:?}, read back as {:?}", r.map(|r| r.map(|n| imp::num(&n))))),
                        }
                    }
                }
                r => ctx.violation(s, format!("a valid number with an extension gives {:?}", r.map(|r| r.map(|_| ())))),
            }
        }
    });
    super::custom::rounds(ctx, super::custom::Way::Intl);
}

/// C03: the national format is read back in the number's own region.
pub fn national(ctx: &Ctx) {
    let salts = if ctx.quick() { 4 } else { 16 };
    for salt in 0..salts {
        let u = Univ::salted(ctx, false, ctx.seed as usize + salt);
        let words: Vec<(usize, (u16, String))> = u.valid().into_iter().enumerate().collect();
        ctx.bound("valid numbers of geographic regions, written internationally, formatted nationally, read back with their region as the hint");
        ctx.par(&words, |(i, (c, w))| {
            let ext = EXTS[i % 6];
            let s = if ext.is_empty() { format!("+{c}{w}") } else { format!("+{c}{w} ext. {ext}") };
            let Ok(Ok(n)) = imp::parse(None, &s) else {
                return ctx.violation(s, "a valid number is rejected");
            };
            let a = imp::num(&n);
            let Some(t) = spec::region(&u.plan, a.code, &a.nsn).filter(|t| t.id != "001") else { return };
            let h = Some(imp::id(&t.id));
            let text = match imp::format(&n, Mode::National) {
                Ok(t) => t,
                Err(Boom(p)) => return ctx.violation(s, p),
            };
            ctx.trace(1);
            // the plan itself can give the digits of the national format another
            // meaning (a Thai 001 800 number looks like 001, then calling code 800)
            let natl = spec::grouped_natl(u.plan.main(a.code).unwrap(), &a.nsn, a.carrier.as_deref(), None);
            let digits: String = natl.chars().filter(|c| c.is_ascii_digit()).collect();
            if !matches!(spec::parse_digits(&u.plan, Some(t), false, &digits), Ok(m) if (m.code, &m.nsn) == (a.code, &a.nsn)) {
                ctx.count("ambiguous_in_the_plan", 1);
                if std::env::var("MC_DEBUG").is_ok() {
                    println!("ambiguous {} {} {text}", t.id, a.nsn);
                }
                return;
            }
            match imp::pnum(h, &text) {
                Ok(Ok(b)) if same(&a, &b) => (),
                r => ctx.violation(s, format!("{a:?} nationally is {text:?}, which in {} is read as {r:?}", t.id)),
            }
        });
    }
    // numbers dialled with a carrier code keep it as well
    let u = Univ::salted(ctx, true, ctx.seed as usize);
    let mut words: Vec<(String, String)> = vec![];
    let valid = u.picks();
    let depth = if ctx.quick() { 4 } else { 5 };
    for t in u.plan.terr.iter().filter(|t| t.id != "001" && t.npfp.as_ref().is_some_and(|r| r.groups > 0)) {
        let dfa = crate::rx::Dfa::new(t.npfp.as_ref().unwrap(), true);
        let mut own: Vec<&str> = valid.iter().filter(|(c, _)| *c == t.code).map(|(_, w)| w.as_str()).collect();
        own.dedup();
        for len in 1..=depth {
            for i in 0..10u64.pow(len as u32) {
                let before = format!("{i:0len$}");
                if t.npfp.as_ref().unwrap().looking_at(&format!("{before}{}", own[0])).is_some() || dfa.run(&before) {
                    words.extend(own.iter().map(|w| (t.id.clone(), format!("{before}{w}"))));
                }
            }
        }
    }
    ctx.bound(format!("{} numbers behind everything of up to {depth} digits that a trunk prefix rule with groups applies to; those read with a carrier code formatted nationally and read back in their region", words.len()));
    ctx.par(&words, |(id, w)| {
        let t = u.plan.by_id(id).unwrap();
        let h = Some(imp::id(id));
        let Ok(Ok(n)) = imp::parse(h, w) else { return };
        let a = imp::num(&n);
        if a.carrier.is_none() || !n.is_valid() || spec::region(&u.plan, a.code, &a.nsn).map(|r| &r.id) != Some(id) {
            return;
        }
        let case = imp::case(h, w);
        let text = match imp::format(&n, Mode::National) {
            Ok(t) => t,
            Err(Boom(p)) => return ctx.violation(case, p),
        };
        ctx.trace(1);
        let natl = spec::grouped_natl(u.plan.main(a.code).unwrap(), &a.nsn, a.carrier.as_deref(), None);
        let digits: String = natl.chars().filter(|c| c.is_ascii_digit()).collect();
        let want = match spec::parse_digits(&u.plan, Some(t), false, &digits) {
            Ok(m) if (m.code, &m.nsn) == (a.code, &a.nsn) => m,
            _ => return ctx.count("ambiguous_in_the_plan", 1),
        };
        ctx.count("with_carrier", 1);
        ctx.count("carrier_kept", want.carrier.is_some() as u64);
        match imp::pnum(h, &text) {
            Ok(Ok(b)) if same(&a, &b) && b.carrier == want.carrier => (),
            r => ctx.violation(case, format!("{a:?} nationally is {text:?}, which in {id} is read as {r:?}")),
        }
    });
    super::custom::rounds(ctx, super::custom::Way::National);
}

/// Ways to write a number with its calling code.
fn plus_forms(c: u16, w: &str) -> Vec<String> {
    let k = w.len() / 2;
    let full: String = w.chars().map(|d| char::from_u32(0xFF10 + d as u32 - '0' as u32).unwrap()).collect();
    vec![
        format!("+{c}{w}"),
        format!("\u{FF0B}{c} {w}"),
        format!("++{c}-{w}"),
        format!("+ {c} ({}) {}", &w[..k], &w[k..]),
        format!("(+{c}) {full}"),
        format!("+{c} (0) {w}"),
        format!("call +{c}.{w}!"),
        format!("+{c} {w} ext. 123"),
        format!("+{c}{w} x05"),
        format!("+{c}{w}ABC"),
        format!("+{c}{w}ab"),
        format!("tel:+{c}-{w}"),
        format!("tel:+{c}{w};ext=45"),
        format!("tel:{w};phone-context=+{c}"),
        format!("{w};isub=1;phone-context={c}"),
        format!("tel:{};phone-context=+{c}{}", &w[k..], &w[..k]),
        format!("tel:+{c}{w};phone-context=example.com"),
    ]
}

/// C05: a hint makes no difference to a number with its calling code.
pub fn hint(ctx: &Ctx) {
    let u = Univ::new(ctx, false);
    let hs = hints(&u.plan);
    let words = if ctx.quick() { u.codes.iter().flat_map(|(&c, e)| e.valid.iter().map(move |w| (c, w.clone()))).collect() } else { u.words() };
    ctx.bound(format!("numbers with + under all {} hints", hs.len()));
    let all = |s: &str, valid: bool| {
        let base = imp::parse(None, s);
        if valid && !matches!(base, Ok(Ok(_))) {
            return ctx.violation(s, format!("a valid number gives {:?}", base.map(|r| r.map(|_| ()))));
        }
        for (h, _) in &hs {
            ctx.trace(1);
            let r = imp::parse(*h, s);
            let same = match (&r, &base) {
                (Ok(Ok(n)), Ok(Ok(b))) => n == b && imp::num(n) == imp::num(b),
                (Ok(Err(e)), Ok(Err(b))) => e == b,
                _ => false,
            };
            if !same {
                ctx.violation(imp::case(*h, s), format!("{:?} instead of {:?}", r.map(|r| r.map(|n| imp::num(&n))), base.as_ref().map(|r| r.as_ref().map(imp::num))));
            }
        }
    };
    let valid: std::collections::HashSet<_> = u.valid().into_iter().collect();
    ctx.par(&words, |(c, w)| all(&format!("+{c}{w}"), valid.contains(&(*c, w.clone()))));
    // in every other form, and numbers too short or too long, or of no plan
    let mut picks = u.picks();
    for c in u.codes.keys() {
        for l in [1, 2, 3, 4, 14, 16, 17, 18] {
            picks.push((*c, "123456789012345678"[..l].into()));
            picks.push((*c, "000000000000000000"[..l].into()));
        }
    }
    ctx.bound(format!("17 ways to write {} numbers, some of them invalid, under all hints", picks.len()));
    ctx.par(&picks, |(c, w)| {
        for s in plus_forms(*c, w) {
            all(&s, false);
        }
    });
    ctx.sample(|| format!("{:?}", words[words.len() / 2]));
    super::custom::rounds(ctx, super::custom::Way::Hint);
}

/// C06: an international dialling prefix means the same as a plus sign.
pub fn idd(ctx: &Ctx) {
    let u = Univ::new(ctx, false);
    let all: Vec<(u16, String)> = u.codes.iter().flat_map(|(&c, e)| e.valid.iter().map(move |w| (c, w.clone()))).collect();
    let mut idds: Vec<(imp::Hint, String)> = vec![(None, "00".into())];
    for t in u.plan.terr.iter().filter(|t| t.id != "001") {
        let Some(r) = &t.idd else { continue };
        let lang = crate::rx::Dfa::new(r, false).language(12);
        ctx.add(lang.len() as u64, lang.len() as u64);
        idds.extend(lang.into_iter().map(|i| (Some(imp::id(&t.id)), i)));
    }
    ctx.bound(format!("all {} dialling prefixes of all regions before valid numbers of all calling codes", idds.len()));
    ctx.count("dialling_prefixes", idds.len() as u64);
    let idx: Vec<usize> = (0..all.len()).collect();
    ctx.par(&idx, |&i| {
        let (c, w) = &all[i];
        let plus = format!("+{c}{w}");
        let base = match imp::parse(None, &plus) {
            Ok(Ok(n)) => n,
            r => return ctx.violation(plus, format!("a valid number gives {:?}", r.map(|r| r.map(|_| ())))),
        };
        for (k, (h, idd)) in idds.iter().enumerate() {
            let t = h.map(|h| u.plan.by_id(h.as_ref()).unwrap());
            // the prefix pattern decides where the prefix ends
            let digits = format!("{idd}{c}{w}");
            if t.is_some_and(|t| t.idd.as_ref().unwrap().looking_at(&digits).unwrap()[0].unwrap().1 != idd.len()) {
                continue;
            }
            let spaced = || idd.chars().flat_map(|c| [c, ' ']).collect::<String>();
            let s = match (i + k) % 7 {
                0 | 1 => digits,
                2 => format!("{idd} {c} {w}"),
                3 => format!("{idd}-{c}-{w}"),
                4 => format!("({idd}) {c} {w}"),
                5 => format!("{}{c}.{w}", spaced()),
                _ => digits.chars().map(|d| char::from_u32(0x660 + d as u32 - '0' as u32).unwrap()).collect(),
            };
            ctx.trace(1);
            match imp::parse(*h, &s) {
                Ok(Ok(n)) if n == base && imp::src(n.code().source()) == spec::Src::Idd => (),
                r => ctx.violation(imp::case(*h, &s), format!("{:?} instead of {:?}", r.map(|r| r.map(|n| imp::num(&n))), imp::num(&base))),
            }
        }
    });
    // numbers that are too short, too long or of no plan, with extensions and
    // letters: the same outcome either way
    let mut odd: Vec<(u16, String)> = vec![(999, "12345".into()), (2, "1".into()), (21, "12345678".into())];
    for c in u.codes.keys().copied() {
        odd.extend([1, 2, 3, 4, 15, 17, 18].map(|l| (c, "234567890123456789"[..l].into())));
        odd.push((c, String::new()));
        odd.push((c, "0012".into()));
        odd.push((c, "2345678 ext 05".into()));
        odd.push((c, "23456FLOWER".into()));
    }
    ctx.bound(format!("all dialling prefixes before {} numbers that are short, long, of no plan, or with extension or letters", odd.len()));
    ctx.par(&odd, |(c, w)| {
        let base = imp::parse(None, &format!("+{c}{w}"));
        for (h, idd) in &idds {
            let t = h.map(|h| u.plan.by_id(h.as_ref()).unwrap());
            let digits = format!("{idd}{c}{}", w.split(|c: char| !c.is_ascii_digit()).next().unwrap());
            if t.is_some_and(|t| t.idd.as_ref().unwrap().looking_at(&digits).unwrap()[0].unwrap().1 != idd.len()) {
                continue;
            }
            let s = format!("{idd}{c}{w}");
            ctx.trace(1);
            let r = imp::parse(*h, &s);
            let same = match (&r, &base) {
                (Ok(Ok(n)), Ok(Ok(b))) => n == b && imp::src(n.code().source()) == spec::Src::Idd,
                (Ok(Err(_)), Ok(Err(_))) => true,
                _ => false,
            };
            if !same {
                ctx.violation(imp::case(*h, &s), format!("{:?}; with a plus {:?}", r.map(|r| r.map(|n| imp::num(&n))), base.as_ref().map(|r| r.as_ref().map(imp::num))));
            }
        }
    });
    ctx.sample(|| format!("{:?} {:?}", &idds[..8], &all[..4]));
    super::custom::rounds(ctx, super::custom::Way::Idd);
}

/// All numbers with extensions and carriers to format: (input, hint).
fn formatted(ctx: &Ctx, check: impl Fn(&Univ, &imp::ph::PhoneNumber, &Num) -> Option<String> + Sync) {
    let salts = if ctx.quick() { 2 } else { 8 };
    for salt in 0..salts {
        let u = Univ::salted(ctx, true, ctx.seed as usize + salt);
        let words: Vec<(usize, (u16, String))> = u.words().into_iter().enumerate().collect();
        ctx.bound("every explored number (valid or not) that can be read, written internationally and nationally under every region of its code, without and with an extension");
        ctx.par(&words, |(i, (c, w))| {
            for (h, _) in own_hints(&u.plan, *c) {
                let base = if h.is_none() { format!("+{c}{w}") } else { w.clone() };
                for ext in ["", EXTS[1 + i % 5]] {
                    let s = if ext.is_empty() { base.clone() } else { format!("{base} ext {ext}") };
                    let Ok(Ok(n)) = imp::parse(h, &s) else { continue };
                    ctx.trace(1);
                    let m = imp::num(&n);
                    match crate::run::guard(&s, || check(&u, &n, &m)) {
                        Ok(None) => (),
                        Ok(Some(d)) => ctx.violation(imp::case(h, &s), d),
                        Err(p) => ctx.violation(imp::case(h, &s), p),
                    }
                }
            }
        });
        ctx.sample(|| format!("{:?}", words[words.len() / 3].1));
    }
}

/// C11: grouping, trunk prefix, carrier and extension as the metadata says.
pub fn grouping(ctx: &Ctx) {
    formatted(ctx, |u, n, m| {
        for mode in [Mode::International, Mode::National, Mode::Rfc3966] {
            let got = n.format().mode(imp::mode(mode)).to_string();
            let want = spec::format(&u.plan, m, mode);
            let with = n.format_with(&imp::ph::metadata::DATABASE).mode(imp::mode(mode)).to_string();
            if Some(&got) != want.as_ref() || with != got {
                return Some(format!("{m:?} {mode:?}: {got:?} (with the database {with:?}), the metadata says {want:?}"));
            }
        }
        // a format the caller gives
        let main = u.plan.main(m.code).and_then(|t| Some((imp::ph::metadata::DATABASE.by_code(&m.code)?[0], t)));
        for (meta, t) in main {
            for (fs, ts) in [(meta.formats(), &t.formats), (meta.international_formats(), &t.intl)] {
                if fs.len() != ts.len() {
                    continue;
                }
                for (f, tf) in fs.iter().zip(ts).filter(|f| f.1.pdfa.run(&m.nsn)) {
                    for mode in spec::MODES {
                        let want = spec::format_as(&u.plan, m, mode, Some(tf));
                        let got = n.format().with(f).mode(imp::mode(mode)).to_string();
                        let with = n.format().mode(imp::mode(mode)).with(f).database(&imp::ph::metadata::DATABASE).to_string();
                        if Some(&got) != want.as_ref() || with != got {
                            return Some(format!("{m:?} {mode:?} with the format {}: {got:?} (other order {with:?}), the metadata says {want:?}", f.format()));
                        }
                    }
                }
            }
        }
        None
    });
    super::custom::formatting(ctx);
    super::custom::wide(ctx, false);
    super::custom::templates(ctx);
}

/// C12: shape of the international formats, without looking at metadata.
pub fn shape(ctx: &Ctx) {
    formatted(ctx, |u, n, m| {
        let e = n.format().to_string();
        let want = format!("+{}{}", m.code, m.nsn);
        let all = [e.clone(), n.format().mode(imp::ph::Mode::E164).to_string(), n.to_string(), imp::ph::format(n).to_string()];
        if all.iter().any(|x| *x != want) {
            return Some(format!("E.164 is {all:?}, not {want:?}"));
        }
        shaped(u.plan.main(m.code), m, &|x| n.format().mode(x).to_string())
    });
    super::custom::rounds(ctx, super::custom::Way::Shape);
    super::custom::wide(ctx, true);
}

/// What every form of a number has to look like.
pub fn shaped(t: Option<&Terr>, m: &Num, f: &dyn Fn(imp::ph::Mode) -> String) -> Option<String> {
    if f(imp::ph::Mode::E164) != format!("+{}{}", m.code, m.nsn) {
        return Some(format!("E.164 of {m:?} is {:?}", f(imp::ph::Mode::E164)));
    }
    let i = f(imp::ph::Mode::International);
    let ok = (|| {
        let rest = i.strip_prefix(&format!("+{} ", m.code))?;
        let body = match &m.ext {
            Some(x) => rest.strip_suffix(x.as_str())?.trim_end_matches(|c: char| !c.is_ascii_digit()),
            None => rest,
        };
        let d: String = body.chars().filter(|c| c.is_ascii_digit()).collect();
        (d == m.nsn && body.chars().all(|c| c.is_ascii_digit() || spec::is_sep(c)) && body.ends_with(|c: char| c.is_ascii_digit())).then_some(())
    })();
    if ok.is_none() {
        return Some(format!("international format of {m:?} is {i:?}"));
    }
    let r = f(imp::ph::Mode::Rfc3966);
    let ok = (|| {
        let rest = r.strip_prefix(&format!("tel:+{}-", m.code))?;
        let (body, ext) = match rest.split_once(";ext=") {
            Some((a, b)) => (a, Some(b.to_string())),
            None => (rest, None),
        };
        let d: String = body.chars().filter(|c| c.is_ascii_digit()).collect();
        let clean = body.chars().all(|c| c.is_ascii_digit() || c == '-')
            && !body.contains("--")
            && !body.starts_with('-')
            && !body.ends_with('-');
        (d == m.nsn && clean && ext == m.ext).then_some(())
    })();
    if ok.is_none() {
        return Some(format!("RFC3966 format of {m:?} is {r:?}"));
    }
    let n = f(imp::ph::Mode::National);
    if t.is_some_and(|t| !natl_shape(t, m, &n)) {
        return Some(format!("national format of {m:?} is {n:?}"));
    }
    None
}

/// National output has all digits in order behind the trunk prefix and carrier,
/// unless the format itself leaves some out, adds some or moves them.
fn natl_shape(t: &Terr, m: &Num, text: &str) -> bool {
    let body = match &m.ext {
        Some(x) => match text.strip_suffix(x.as_str()) {
            Some(b) => b.trim_end_matches(|c: char| !c.is_ascii_digit()),
            None => return false,
        },
        None => text,
    };
    let Some(f) = spec::pick(&t.formats, &m.nsn) else { return body == m.nsn };
    let groups: Vec<char> = f.format.split('$').skip(1).filter_map(|s| s.chars().next()).collect();
    let literal: String = f.format.split('$').enumerate().map(|(i, s)| if i == 0 { s } else { &s[1..] }).collect();
    let caps = f.pattern.full_caps(&m.nsn).unwrap();
    let all: String = (1..caps.len()).filter_map(|i| caps[i].map(|(a, b)| &m.nsn[a..b])).collect();
    let rules = [f.np_rule.as_deref(), f.cc_rule.as_deref()];
    let plain = |r: &str| r.split_once("$FG").is_some_and(|(a, b)| !b.contains('$') && !b.contains(|c: char| c.is_ascii_digit()) && !a.replace("$NP", "").replace("$CC", "").contains(|c: char| c.is_ascii_digit() || c == '$'));
    if groups.iter().enumerate().any(|(i, &c)| c as usize != '1' as usize + i)
        || literal.contains(|c: char| c.is_ascii_digit())
        || all != m.nsn
        || groups.len() + 1 != caps.len()
        || !rules.into_iter().flatten().all(plain)
    {
        return true;
    }
    if body.contains(|c: char| !c.is_ascii_digit() && !spec::is_sep(c)) {
        return false;
    }
    let digits: String = body.chars().filter(|c| c.is_ascii_digit()).collect();
    let Some(front) = digits.strip_suffix(m.nsn.as_str()) else { return false };
    let np = t.np.as_deref().unwrap_or("");
    let cc = m.carrier.as_deref().unwrap_or("");
    [String::new(), np.to_string(), cc.to_string(), format!("{np}{cc}"), format!("{cc}{np}")].iter().any(|s| s == front)
}
