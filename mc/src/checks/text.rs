//! Properties about what a text may look like: totality, equivalent spellings,
//! extensions, letters, tel: URIs, viability.

use crate::imp::{self, ph, Boom, Hint};
use crate::meta::Plan;
use crate::run::{guard, Ctx};
use crate::spec::{self, Num, Src};
use crate::univ::{hints, own_hints, Univ, XML};

// ------------------------------------------------------------------ C01

const CHARS: [&str; 36] = [
    "0", "1", "2", "4", "5", "9", "+", "＋", " ", "-", ".", "(", ")", "/", "\\", "x", "e", "t", "A", ";", "=", ":", "#",
    "*", "~", ",", "٣", "５", "é", "\u{301}", "\u{200B}", "\n", "@", "[", "👍", "%",
];

const TOKENS: [&str; 44] = [
    "tel:", "Tel:", "+", "1", "44", "39", "0", "00", "011", "810", "2", "650253", "0000", "123456789", "999",
    "12345678901234567890", "ext", "ext. ", ";ext=", ";phone-context=", ";isub=", "+1", "x", "#", " ", "-", "(", ")",
    "AA", "FLOWERS", "example.com", ",", "/", "\\", "*", "５", "٣", "᠑", "ａ", ";", "=", "é", "\u{301}", "\u{1D7CE}",
];

/// Everything a caller can do with a text.
fn exercise(hint: Hint, s: &str) {
    let _ = ph::is_viable(s);
    if let Ok(n) = ph::parse(hint, s) {
        use_number(&n);
    }
}

fn use_number(n: &ph::PhoneNumber) {
    let db: &ph::metadata::Database = &ph::metadata::DATABASE;
    use std::fmt::Write;
    for m in spec::MODES {
        let mut s = String::new();
        let _ = write!(s, "{}", n.format().mode(imp::mode(m)));
        let _ = write!(s, "{}", n.format_with(db).mode(imp::mode(m)));
    }
    let _ = (n.is_valid(), n.number_type(), n.country().id(), n.country().code(), n.metadata(db).is_some());
    let _ = (n.code().value(), n.code().source(), n.national().value(), n.national().zeros(), n.national().to_string());
    let _ = (n.extension().map(|e| e.to_string()), n.carrier().map(|e| e.to_string()));
    let _ = format!("{n:?}");
}

pub fn totality(ctx: &Ctx) {
    let plan = Plan::load(XML);
    let all: Vec<Hint> = hints(&plan).into_iter().map(|h| h.0).collect();
    let some: Vec<Hint> = vec![None, Some(imp::id("US")), Some(imp::id("AR")), Some(imp::id("BR")), Some(imp::id("IT"))];
    let run = |hs: &[Hint], s: &str| {
        for &h in hs {
            ctx.trace(1);
            if let Err(p) = guard(s, || exercise(h, s)) {
                ctx.violation(imp::case(h, s), p);
            }
        }
    };
    let seqs = |alpha: &[&str], len: u32, hs: &[Hint]| {
        let k = alpha.len() as u64;
        ctx.add(k.pow(len), k.pow(len));
        ctx.bound(format!("all sequences of {len} of {k} symbols under {} hints", hs.len()));
        ctx.par_range(k.pow(len), 4096, |lo, hi| {
            let mut s = String::new();
            for i in lo..hi {
                s.clear();
                let mut j = i;
                for _ in 0..len {
                    s.push_str(alpha[(j % k) as usize]);
                    j /= k;
                }
                run(hs, &s);
                if ctx.stopped() {
                    return;
                }
            }
        });
    };
    run(&all, "");
    for len in 1..=2 {
        seqs(&TOKENS, len, &all);
        seqs(&CHARS, len, &all);
    }
    for len in 3..=if ctx.quick() { 4 } else { 5 } {
        seqs(&CHARS, len, if len < 5 { &some } else { &some[..3] });
        seqs(&TOKENS, len, if len < 5 { &some } else { &some[..2] });
    }
    if !ctx.quick() {
        seqs(&TOKENS, 3, &all);
    }
    // after something that is nearly a number, so that all later stages are reached
    let heads = ["+1650253000", "165025300", "+390236618", "0015555", "+54911234", "tel:+1-650-253-000", "tel:253-0000;phone-context=+1650", "+800"];
    for h in heads {
        let tails: Vec<&str> = TOKENS.iter().chain(CHARS.iter()).copied().collect();
        let k = tails.len() as u64;
        let len = if ctx.quick() { 2 } else { 3 };
        ctx.add(k.pow(len), k.pow(len));
        ctx.par_range(k.pow(len), 256, |lo, hi| {
            for i in lo..hi {
                let mut s = h.to_string();
                let mut j = i;
                for _ in 0..len {
                    s.push_str(tails[(j % k) as usize]);
                    j /= k;
                }
                run(&some, &s);
            }
        });
    }
    ctx.bound(format!("{} beginnings of numbers followed by all sequences of up to 2 (thorough: 3) of {} symbols", heads.len(), TOKENS.len() + CHARS.len()));
    // before and in the middle of something that is a number without it
    let frames = [("", "16502530000"), ("+1", "6502530000"), ("+165025", "30000"), ("", "0390236618"), ("011", "390236618"), ("tel:", "+1-650-253-0000"), ("tel:253-0000;phone-context=", "+1650"), ("tel:253-0000;phone-context=+1", "650;ext=1"), ("+39 02 3661", "8300 ext. 12")];
    let inner: Vec<&str> = TOKENS.iter().chain(CHARS.iter()).copied().collect();
    for (a, b) in frames {
        let k = inner.len() as u64;
        let len = if ctx.quick() { 2 } else { 3 };
        ctx.add(k.pow(len), k.pow(len));
        ctx.par_range(k.pow(len), 256, |lo, hi| {
            for i in lo..hi {
                let mut s = a.to_string();
                let mut j = i;
                for _ in 0..len {
                    s.push_str(inner[(j % k) as usize]);
                    j /= k;
                }
                s += b;
                run(&some, &s);
            }
        });
    }
    let fronts = ["+", "＋", "0", "00", "011", " ", "-", "(", "/", "１", "1"];
    for len in 1..=if ctx.quick() { 5u32 } else { 6 } {
        let k = fronts.len() as u64;
        ctx.add(k.pow(len), k.pow(len));
        ctx.par_range(k.pow(len), 256, |lo, hi| {
            for i in lo..hi {
                let mut s = String::new();
                let mut j = i;
                for _ in 0..len {
                    s.push_str(fronts[(j % k) as usize]);
                    j /= k;
                }
                s += "16502530000";
                run(&some[..3], &s);
            }
        });
    }
    ctx.bound(format!("all sequences of 2 (thorough: 3) of {} symbols at {} places of complete numbers, all sequences of up to {} of {} plus signs, prefixes and separators before one", inner.len(), frames.len(), if ctx.quick() { 5 } else { 6 }, fronts.len()));
    // long inputs
    let mut long = vec![];
    for n in (1..=300).chain([511, 512, 1000, 4096, 65535, 65536, 70000]) {
        for unit in ["0", "1", "9", "+", " ", "-", "(", "x", "A", "#", "５", "*", ";ext=1", "/x", "+1", "00"] {
            for head in ["", "+", "+1", "+39", "tel:+1", "tel:1;phone-context=+", "+1650253 ext. ", "1 "] {
                long.push((head, unit, n));
            }
        }
    }
    ctx.add(long.len() as u64, long.len() as u64);
    ctx.bound("repetitions of 16 units after 8 beginnings, every count up to 300 and some up to 70,000");
    ctx.par(&long, |(head, unit, n)| {
        let s = format!("{head}{}", unit.repeat(*n));
        for &h in &some {
            ctx.trace(1);
            if let Err(p) = guard(&format!("{head:?} + {unit:?} * {n}"), || exercise(h, &s)) {
                ctx.violation(format!("{}|{head:?} + {unit:?} * {n}", imp::case(h, "")), p);
            }
        }
    });
    // every classified number too
    let u = Univ::new(ctx, true);
    let words = u.words();
    ctx.par(&words, |(c, w)| {
        run(&[None], &format!("+{c}{w}"));
        for (h, _) in own_hints(&u.plan, *c).into_iter().skip(1) {
            run(&[h], w);
        }
    });
    ctx.sample(|| format!("{:?}", [imp::case(some[1], "tel:+ext. #"), imp::case(some[2], "+54911234;ext=５")]));
}

// ------------------------------------------------------------------ C04

/// Separators that say nothing (the ones that can also announce an extension
/// are in the second list).
pub const SEPS: [&str; 32] = [
    "-", "\u{2010}", "\u{2011}", "\u{2012}", "\u{2013}", "\u{2014}", "\u{2015}", "\u{2212}", "\u{30FC}", "\u{FF0D}",
    "\u{FF0E}", "\u{FF0F}", " ", "\u{A0}", "\u{AD}", "\u{200B}", "\u{2060}", "\u{3000}", "(", ")", "\u{FF08}",
    "\u{FF09}", "\u{FF3B}", "\u{FF3D}", ".", "[", "]", "/", "\u{2053}", "\u{223C}", "*", "  ",
];
const MARKS: [&str; 3] = ["x", "~", "\u{FF5E}"];
const ZEROS: [u32; 15] = [
    0x0660, 0x06F0, 0x07C0, 0x0966, 0x09E6, 0x0A66, 0x0AE6, 0x0B66, 0x0BE6, 0x0C66, 0x0CE6, 0x0D66, 0x0E50, 0x0ED0, 0xFF10,
];
const LEADING: [&str; 10] = ["", " ", "Tel: ", "(", "call ", "\n", "é: ", "[", "☎", "-"];
const TRAILING: [&str; 12] = ["", " ", ".", ")", "!", " \n", "]", "☎", ",", "?\"", "...", "\u{200B}"];

/// (text, hint, meaning) of numbers to respell.
fn bases(u: &Univ, picks: &[(u16, String)]) -> Vec<(String, Hint, Num)> {
    let mut out = vec![];
    for (c, w) in picks {
        let d = format!("{c}{w}");
        if let Ok(n) = spec::parse_digits(&u.plan, None, true, &d) {
            out.push((format!("+{d}"), None, n));
        }
        if let Some(t) = spec::region(&u.plan, *c, w).filter(|t| t.id != "001") {
            let d = format!("{}{w}", t.np.as_deref().unwrap_or(""));
            if let Ok(n) = spec::parse_digits(&u.plan, Some(t), false, &d) {
                out.push((d, Some(imp::id(&t.id)), n));
            }
        }
    }
    out
}

fn pick_some(u: &Univ, quick: bool) -> Vec<(u16, String)> {
    let p = u.picks();
    if quick {
        // one per calling code and national number length, and leading zeros
        let mut seen = std::collections::HashSet::new();
        p.into_iter().filter(|(c, w)| seen.insert((*c, w.len(), w.starts_with('0')))).collect()
    } else {
        p
    }
}

pub fn spelling(ctx: &Ctx) {
    let u = Univ::new(ctx, false);
    let picks = pick_some(&u, ctx.quick());
    let bases = bases(&u, &picks);
    ctx.count("numbers", bases.len() as u64);
    ctx.bound("each number in its international and national spelling; every separator at every position, every pair of separators, every bracketing of a digit range, every subset of gaps, every digit script (whole and one digit at a time), every leading and trailing filler");
    let check = |s: &str, h: Hint, n: &Num| {
        ctx.trace(1);
        match imp::pnum(h, s) {
            Ok(Ok(g)) if g == *n => true,
            r => {
                ctx.violation(imp::case(h, s), format!("{r:?} instead of {n:?}"));
                false
            }
        }
    };
    let idx: Vec<usize> = (0..bases.len()).collect();
    ctx.par(&idx, |&bi| {
        let (s, h, n) = &bases[bi];
        let len = s.len();
        let digits_after = |i: usize| s[i..].bytes().filter(|b| b.is_ascii_digit()).count();
        check(s, *h, n);
        // every separator at every gap
        for i in 1..len {
            for sep in SEPS.iter().chain(MARKS.iter().filter(|_| digits_after(i) > 7)) {
                check(&format!("{}{sep}{}", &s[..i], &s[i..]), *h, n);
            }
        }
        // pairs of separators, both in one gap and in two
        for (k, a) in SEPS.iter().enumerate() {
            for (l, b) in SEPS.iter().enumerate() {
                let i = 1 + (bi + k * 3 + l) % (len - 1);
                let j = i + (bi + l) % (len - i);
                check(&format!("{}{a}{}{b}{}", &s[..i], &s[i..j], &s[j..]), *h, n);
            }
        }
        // bracketed ranges
        for i in 0..len {
            for j in i + 1..=len {
                for (a, b) in [("(", ")"), ("[", "]"), ("\u{FF08}", "\u{FF09}"), (" (", ") ")] {
                    check(&format!("{}{a}{}{b}{}", &s[..i], &s[i..j], &s[j..]), *h, n);
                }
            }
        }
        // every subset of gaps
        let gaps = len - 1;
        let max = if ctx.quick() { 7 } else { 12 };
        for set in 0..1u32 << gaps.min(max) {
            let sep = SEPS[(set as usize + bi) % SEPS.len()];
            let mut t = String::new();
            for (i, ch) in s.chars().enumerate() {
                // spread the chosen gaps over the whole text
                if i > 0 && i * max.min(gaps) / gaps.max(1) < 32 && set >> ((i - 1) * max.min(gaps) / gaps) & 1 == 1 {
                    t.push_str(sep);
                }
                t.push(ch);
            }
            check(&t, *h, n);
        }
        // digit scripts
        for z in ZEROS {
            let other = |c: char| c.to_digit(10).map_or(c, |d| char::from_u32(z + d).unwrap());
            check(&s.chars().map(other).collect::<String>(), *h, n);
            for i in 0..len {
                check(&s.char_indices().map(|(k, c)| if k == i { other(c) } else { c }).collect::<String>(), *h, n);
                check(&s.char_indices().map(|(k, c)| if k < i { other(c) } else { c }).collect::<String>(), *h, n);
            }
        }
        // plus signs
        if let Some(d) = s.strip_prefix('+') {
            for p in ["＋", "++", "+＋", "＋＋+", "+ ", "+(", "+-"] {
                check(&format!("{p}{d}"), *h, n);
            }
        }
        // surroundings
        for a in LEADING {
            for b in TRAILING {
                check(&format!("{a}{s}{b}"), *h, n);
                // an extension is read past what closes the text as well
                let e = ["5", "0042", "1234567"][bi % 3];
                let with = Num { ext: Some(e.into()), ..n.clone() };
                for w in [" ext. ", " x", " int ", ";ext=", "#"] {
                    check(&format!("{a}{s}{w}{e}{b}"), *h, &with);
                }
            }
        }
        // stray letters: fewer than three are ignored once three digits are out
        for i in 4..len {
            for l in ["a", "B", "ab"] {
                check(&format!("{}{l}{}", &s[..i], &s[i..]), *h, n);
            }
        }
    });
    // any character at all in front of a number, and any but letters and numbers behind it
    let few: Vec<_> = ["+1", "+39", "+44", "+49"].iter().filter_map(|c| bases.iter().find(|b| b.0.starts_with(c) && b.0.len() > 9)).chain(["US", "IT", "GB", "DE"].iter().filter_map(|r| bases.iter().find(|b| b.1 == Some(imp::id(r)) && b.0.len() > 7))).collect();
    ctx.bound(format!("every Unicode character before and (letters, numbers and # excepted) after {} numbers, all pairs of ASCII ones, all pairs of separators in all pairs of gaps, runs of up to 1000 separators, texts of up to 5000 characters around them", few.len()));
    let before = |c: char| !is_digit(c) && !c.is_numeric() && c != '+' && c != '\u{FF0B}';
    let after = |c: char| !c.is_alphanumeric() && c != '#' && c != '\u{FF03}';
    ctx.add(0x11_0000, 0x11_0000 * few.len() as u64);
    ctx.par_range(0x11_0000, 1 << 12, |lo, hi| {
        for c in (lo..hi).filter_map(|c| char::from_u32(c as u32)) {
            for (s, h, n) in &few {
                if before(c) {
                    check(&format!("{c}{s}"), *h, n);
                    check(&format!("{c} {s}"), *h, n);
                }
                if after(c) {
                    check(&format!("{s}{c}"), *h, n);
                    check(&format!("{s} {c}"), *h, n);
                }
            }
        }
    });
    let ascii: Vec<char> = (0..128u8).map(|b| b as char).collect();
    ctx.add(1 << 14, (1 << 14) * few.len() as u64);
    ctx.par(&ascii, |&a| {
        for &b in &ascii {
            for (s, h, n) in &few {
                if before(a) && before(b) {
                    check(&format!("{a}{b}{s}"), *h, n);
                }
                if after(a) && after(b) {
                    check(&format!("{s}{a}{b}"), *h, n);
                }
                if before(a) && after(b) {
                    check(&format!("{a}{s}{b}"), *h, n);
                    check(&format!("{a} {s} {b}"), *h, n);
                }
            }
        }
    });
    // all pairs of separators in all pairs of gaps
    let seps: Vec<(&str, &str)> = SEPS.iter().flat_map(|&a| SEPS.iter().map(move |&b| (a, b))).collect();
    ctx.add(seps.len() as u64, seps.len() as u64);
    ctx.par(&seps, |(a, b)| {
        for (s, h, n) in &few {
            for i in 1..s.len() {
                for j in i..s.len() {
                    check(&format!("{}{a}{}{b}{}", &s[..i], &s[i..j], &s[j..]), *h, n);
                }
            }
            // everywhere
            let both: String = s.char_indices().map(|(i, c)| if i == 0 { c.to_string() } else { format!("{}{c}", if i % 2 == 0 { a } else { b }) }).collect();
            check(&both, *h, n);
            for z in ZEROS {
                let other = |c: char| c.to_digit(10).map_or(c, |d| char::from_u32(z + d).unwrap());
                check(&both.chars().map(other).collect::<String>(), *h, n);
            }
        }
    });
    // long runs
    let runs: Vec<(&str, usize)> = SEPS.iter().flat_map(|&a| [2, 3, 5, 8, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 249, 251, 257, 511, 1000].map(|k| (a, k))).collect();
    ctx.add(runs.len() as u64, runs.len() as u64);
    ctx.par(&runs, |(a, k)| {
        let run = a.repeat(*k);
        for (s, h, n) in &few {
            for i in 1..s.len() {
                check(&format!("{}{run}{}", &s[..i], &s[i..]), *h, n);
            }
            for (x, y) in [("call ", ""), ("", " or write"), (".", "."), ("(", ")"), ("Tel: ", "!")] {
                check(&format!("{}{s}", x.repeat(*k)), *h, n);
                if after(y.chars().last().unwrap_or('.')) {
                    check(&format!("{}{s}{}", x.repeat(*k), y.repeat(*k)), *h, n);
                }
            }
        }
    });
    let per = 1024;
    ctx.add(bases.len() as u64 * per, bases.len() as u64 * per);
    ctx.sample(|| format!("{:?}", &bases[bases.len() / 2]));
}

// ------------------------------------------------------------------ C13

/// The words that announce an extension.
const ANNOUNCE: [&str; 11] = ["ext", "xt", "extn", "xtn", "extensio", "xtensio", "extension", "xtension", "x", "int", "anexo"];

/// Where the word starts that announces an extension at the end of these letters.
fn announced(w: &str) -> Option<usize> {
    (0..w.len()).find(|&i| ANNOUNCE.contains(&&w[i..]))
}

pub fn extensions(ctx: &Ctx) {
    let u = Univ::new(ctx, false);
    let picks = pick_some(&u, ctx.quick());
    let bases = bases(&u, &picks);
    let words = [
        "ext", "EXT", "Ext", "xt", "extn", "EXTN", "xtn", "extensio", "extension", "Extension", "extensión", "extensio\u{301}n",
        "extensió", "x", "X", "ｘ", "＃", "#", ",", ";", "~", "\u{FF5E}", "int", "INT", "Int", "anexo", "Anexo", "ｅｘｔｎ", "ｘｔｎ", "ｉｎｔ",
    ];
    let before = ["", " ", "  ", "\u{A0}", "\t", ", "];
    let after = ["", ":", ".", "．", ": ", ". ", " ", "\t", " - ", "-", ".\u{A0}", ", "];
    let ends = ["", "#"];
    let digits: Vec<String> = {
        let mut v: Vec<String> = ["0", "7", "00", "42", "007", "123", "0000", "1234", "00001", "12345", "123456", "000000", "1234567", "9999999", "0000007"]
            .map(|s| s.to_string())
            .to_vec();
        v.extend((0..10).map(|d| d.to_string()));
        v.sort();
        v.dedup();
        v
    };
    ctx.bound(format!("{} ways to announce an extension x {} spacings x {} extensions of 1 to 7 digits, over all numbers", words.len() + 4, before.len() * after.len() * 2, digits.len()));
    let check = |s: &str, h: Hint, n: &Num, ext: &str| {
        ctx.trace(1);
        let want = Num { ext: Some(ext.to_string()), ..n.clone() };
        match imp::parse(h, s) {
            Ok(Ok(g)) if imp::num(&g) == want => {
                // it is kept by every format but E.164
                for m in spec::MODES {
                    let f = match imp::format(&g, m) {
                        Ok(f) => f,
                        Err(Boom(p)) => return ctx.violation(imp::case(h, s), p),
                    };
                    let kept = f.ends_with(ext) && f.len() > ext.len();
                    if (m == spec::Mode::E164 && f != format!("+{}{}", n.code, n.nsn)) || (m != spec::Mode::E164 && !kept) {
                        ctx.violation(imp::case(h, s), format!("extension {ext} formats as {f:?} in {m:?}"));
                    }
                }
            }
            r => ctx.violation(imp::case(h, s), format!("{:?} instead of {want:?}", r.map(|r| r.map(|n| imp::num(&n))))),
        }
    };
    // every spelling on some numbers, some spellings on every number
    let mut forms: Vec<(String, usize)> = vec![];
    for w in words {
        for b in before {
            for a in after {
                for e in ends {
                    for (k, d) in digits.iter().enumerate() {
                        forms.push((format!("{b}{w}{a}{d}{e}"), k));
                    }
                }
            }
        }
    }
    for (k, d) in digits.iter().enumerate() {
        forms.push((format!(";ext={d}"), k));
        if d.len() <= 5 {
            for b in [" ", "-", " - ", "--"] {
                forms.push((format!("{b}{d}#"), k));
            }
        }
    }
    // fullwidth and Arabic digits
    for (k, d) in digits.iter().enumerate() {
        for z in ZEROS {
            let o: String = d.chars().map(|c| char::from_u32(z + c.to_digit(10).unwrap()).unwrap()).collect();
            forms.push((format!(" ext. {o}"), k));
        }
    }
    ctx.add((forms.len() + bases.len()) as u64, (forms.len() + bases.len()) as u64);
    let few: Vec<&(String, Hint, Num)> = bases.iter().filter(|b| ["+1", "+39", "+49", "+6"].iter().any(|c| b.0.starts_with(c)) || b.1 == Some(imp::id("GB"))).take(if ctx.quick() { 12 } else { 60 }).collect();
    ctx.par(&forms, |(f, k)| {
        for (s, h, n) in &few {
            check(&format!("{s}{f}"), *h, n, &digits[*k]);
        }
    });
    let idx: Vec<usize> = (0..bases.len()).collect();
    ctx.par(&idx, |&i| {
        let (s, h, n) = &bases[i];
        for k in 0..if ctx.quick() { 60 } else { 600 } {
            let (f, d) = &forms[(i * 97 + k * 131) % forms.len()];
            check(&format!("{s}{f}"), *h, n, &digits[*d]);
        }
    });
    // all extensions of up to 3 (thorough: 4) digits
    let max = if ctx.quick() { 3 } else { 5 };
    let all: Vec<String> = (1..=max).flat_map(|l| (0..10u32.pow(l)).map(move |i| format!("{i:0l$}", l = l as usize))).collect();
    ctx.bound(format!("all extensions of up to {max} digits"));
    ctx.par(&all, |d| {
        for (i, (s, h, n)) in few.iter().take(3).enumerate() {
            let f = [" ext. ", " x", ";ext="][i % 3];
            check(&format!("{s}{f}{d}"), *h, n, d);
        }
    });
    // no other character announces one
    let none: Vec<&(String, Hint, Num)> = few.iter().copied().filter(|b| b.0.len() > 8).take(3).collect();
    ctx.bound("every Unicode character between a number and a digit; all words of up to 5 letters of e x t n s i o a, and all one-letter changes of every announcing word, there");
    ctx.add(0x11_0000, 0x11_0000);
    ctx.par_range(0x11_0000, 1 << 12, |lo, hi| {
        for c in (lo..hi).filter_map(|c| char::from_u32(c as u32)) {
            let announces = matches!(c, ',' | ';' | 'x' | 'X' | '\u{FF58}' | '\u{FF38}' | '#' | '\u{FF03}' | '~' | '\u{FF5E}');
            for (s, h, n) in &none {
                for t in [format!("{s}{c}5"), format!("{s} {c} 5"), format!("{s}{c}")] {
                    ctx.trace(1);
                    match imp::pnum(*h, &t) {
                        Ok(Ok(g)) => {
                            let want = (announces && t.ends_with('5')).then_some("5");
                            if g.ext.as_deref() != want || announces && g.nsn != n.nsn {
                                ctx.violation(imp::case(*h, &t), format!("{g:?} instead of extension {want:?} of {n:?}"));
                            }
                        }
                        Ok(Err(e)) => {
                            if announces {
                                ctx.violation(imp::case(*h, &t), format!("{e:?}"));
                            }
                        }
                        Err(Boom(e)) => ctx.violation(imp::case(*h, &t), e),
                    }
                }
            }
        }
    });
    let mut near: std::collections::BTreeSet<String> = [String::new()].into();
    for _ in 0..5 {
        let longer: Vec<String> = near.iter().flat_map(|w| "extnsioa".chars().map(move |c| format!("{w}{c}"))).collect();
        near.extend(longer);
    }
    for w in ANNOUNCE {
        for i in 0..=w.len() {
            for c in "extnsioagd".chars() {
                near.insert(format!("{}{c}{}", &w[..i], &w[i..]));
                if i < w.len() {
                    near.insert(format!("{}{c}{}", &w[..i], &w[i + 1..]));
                    near.insert(format!("{}{}", &w[..i], &w[i + 1..]));
                }
            }
        }
    }
    let near: Vec<String> = near.into_iter().collect();
    ctx.add(near.len() as u64, near.len() as u64);
    ctx.par(&near, |w| {
        let upper = w.to_uppercase();
        for (s, h, n) in &none {
            for (k, (a, b)) in [("", ""), (" ", " "), (".", ". "), ("-", "-")].iter().enumerate() {
                let w = if k == 2 { &upper } else { w };
                let t = format!("{s}{a}{w}{b}5");
                ctx.trace(1);
                let got = imp::pnum(*h, &t);
                let Ok(Ok(g)) = got else {
                    // only more digits than there can be are refused
                    let letters = w.chars().filter(|c| c.is_alphabetic()).count();
                    if announced(&w.to_lowercase()).is_some_and(|i| i < 3) || letters < 3 || !matches!(got, Ok(Err(spec::E::TooLong))) {
                        ctx.violation(imp::case(*h, &t), format!("{got:?}"));
                    }
                    continue;
                };
                match announced(&w.to_lowercase()) {
                    // fewer letters in front of the word than make a vanity number
                    Some(i) if i < 3 => {
                        if g.ext.as_deref() != Some("5") || g.nsn != n.nsn {
                            ctx.violation(imp::case(*h, &t), format!("{g:?} instead of extension 5 of {n:?}"));
                        }
                    }
                    Some(_) => {
                        if g.ext.as_deref() != Some("5") {
                            ctx.violation(imp::case(*h, &t), format!("{g:?} without extension 5"));
                        }
                    }
                    None => {
                        if g.ext.is_some() != false {
                            ctx.violation(imp::case(*h, &t), format!("{g:?} has an extension"));
                        }
                    }
                }
            }
        }
    });
    // announced, but no digits: no extension
    for w in words {
        if let Some((s, h, n)) = few.first() {
            for t in [format!("{s} {w}"), format!("{s} {w} ")] {
                if let Ok(Ok(g)) = imp::pnum(*h, &t) {
                    if g.ext.is_some() || g.nsn != n.nsn {
                        ctx.violation(imp::case(*h, &t), format!("{g:?} has an extension or other digits"));
                    }
                }
            }
        }
    }
    ctx.sample(|| format!("{}{}", few[0].0, forms[forms.len() / 2].0));
}

// ------------------------------------------------------------------ C14

fn key(c: char) -> char {
    match c.to_ascii_lowercase() {
        'a'..='c' => '2',
        'd'..='f' => '3',
        'g'..='i' => '4',
        'j'..='l' => '5',
        'm'..='o' => '6',
        'p'..='s' => '7',
        't'..='v' => '8',
        _ => '9',
    }
}

/// Whether the part after the last digit, or the last digits, read as an extension.
fn looks_like_extension(s: &str) -> bool {
    let low = s.to_ascii_lowercase();
    let t = low.trim_end_matches('#');
    let head = t.trim_end_matches(|c: char| c.is_ascii_digit());
    let digits = t.len() - head.len();
    let head = head.trim_end_matches([' ', '-']);
    digits <= 7 && ["ext", "xt", "extn", "xtn", "x", "int", "anexo", "extensio", "extension"].iter().any(|m| head.ends_with(m))
}

pub fn letters(ctx: &Ctx) {
    let letters: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    let check = |h: Hint, s: &str, digits: &str, plan: &Plan| {
        if looks_like_extension(s) {
            return;
        }
        ctx.trace(1);
        let t = h.map(|h| plan.by_id(h.as_ref()).unwrap());
        let want = spec::parse_digits(plan, t, digits.starts_with('+'), digits.trim_start_matches('+'));
        let got = imp::pnum(h, s);
        if got != Ok(want.clone()) {
            ctx.violation(imp::case(h, s), format!("{got:?}, the keypad gives {digits} which is {want:?}"));
        }
    };
    let plan = Plan::load(XML);
    let us = Some(imp::id("US"));
    // all words of 3 (thorough: 4) letters, at the end and in the middle
    let len = if ctx.quick() { 3 } else { 4 };
    let k = letters.len() as u64;
    ctx.bound(format!("all words of {len} letters of both cases at the end and in the middle of a number; all one- and two-letter changes to words of up to 7 letters; several regions"));
    ctx.add(k.pow(len), k.pow(len));
    ctx.par_range(k.pow(len), 1024, |lo, hi| {
        for i in lo..hi {
            let mut w = String::new();
            let mut j = i;
            for _ in 0..len {
                w.push(letters[(j % k) as usize]);
                j /= k;
            }
            let d: String = w.chars().map(key).collect();
            let fill = &"2530000"[..7 - len as usize];
            check(None, &format!("+1800{fill}{w}"), &format!("+1800{fill}{d}"), &plan);
            check(us, &format!("(800) {fill}-{w}"), &format!("800{fill}{d}"), &plan);
            check(us, &format!("1-800-{w}-{fill}"), &format!("1800{d}{fill}"), &plan);
            check(None, &format!("+64 800 {w}{fill}"), &format!("+64800{d}{fill}"), &plan);
        }
    });
    // words
    let nz = Some(imp::id("NZ"));
    for word in ["FLOWERS", "flowers", "pizza", "PIZZAS", "ABCDEFG", "JKLMNOP", "QRSTUVW", "WXYZwxyz", "zzz", "aaa", "DDA"] {
        let chars: Vec<char> = word.chars().collect();
        let mut words = vec![word.to_string()];
        for i in 0..chars.len() {
            for &a in &letters {
                for l in std::iter::once(None).chain((i + 1..chars.len()).map(Some)) {
                    let mut c = chars.clone();
                    c[i] = a;
                    match l {
                        None => words.push(c.iter().collect()),
                        Some(l) => {
                            for &b in if ctx.quick() { &letters[..7] } else { &letters[..] } {
                                c[l] = b;
                                words.push(c.iter().collect());
                            }
                        }
                    }
                }
            }
        }
        ctx.add(words.len() as u64, words.len() as u64);
        ctx.par(&words, |w| {
            let d: String = w.chars().map(key).collect();
            check(None, &format!("+1 800-{w}"), &format!("+1800{d}"), &plan);
            check(us, &format!("1-800-{w}"), &format!("1800{d}"), &plan);
            check(nz, &format!("0800 {w}"), &format!("0800{d}"), &plan);
            check(None, &format!("+49 800 {w} 12"), &format!("+49800{d}12"), &plan);
            for i in 1..w.len() {
                check(us, &format!("800 {}-{}", &w[..i], &w[i..]), &format!("800{d}"), &plan);
                check(us, &format!("800 {}5{}", &w[..i], &w[i..]), &format!("800{}5{}", &d[..i], &d[i..]), &plan);
            }
        });
    }
    // one or two letters are not a word
    ctx.bound("one letter, and two letters together or apart, at every place of three numbers after their first three digits");
    let mut few: Vec<(char, Option<char>)> = vec![];
    for &a in &letters {
        few.push((a, None));
        few.extend(letters.iter().map(|&b| (a, Some(b))));
    }
    ctx.add(few.len() as u64, few.len() as u64);
    ctx.par(&few, |&(a, b)| {
        for (h, n) in [(None, "+18003569377"), (us, "8003569377"), (nz, "0800356937")] {
            let first = if n.starts_with('+') { 4 } else { 3 };
            for i in first..n.len() {
                match b {
                    None => check(h, &format!("{}{a}{}", &n[..i], &n[i..]), n, &plan),
                    Some(b) => {
                        check(h, &format!("{}{a}{b}{}", &n[..i], &n[i..]), n, &plan);
                        for j in i + 1..n.len() {
                            check(h, &format!("{}{a}{}{b}{}", &n[..i], &n[i..j], &n[j..]), n, &plan);
                        }
                    }
                }
            }
        }
    });
    // three letters apart, at every three places, and four
    let some = ['a', 'C', 'f', 'G', 'l', 'O', 'q', 'S', 'v', 'Z', 'x', 'E'];
    let mut places = vec![];
    for i in 3..9usize {
        for j in i..9 {
            for k in j..9 {
                places.push((i, j, k));
            }
        }
    }
    ctx.bound(format!("three letters out of {} at all {} places of four numbers, with an extension as well", some.len(), places.len()));
    ctx.add((places.len() * some.len().pow(3)) as u64, (places.len() * some.len().pow(3)) as u64);
    ctx.par(&places, |&(i, j, k)| {
        for a in some {
            for b in some {
                for c in some {
                    for (h, n) in [(None, "+180025300"), (us, "800253000"), (nz, "080025300"), (Some(imp::id("GB")), "080025300")] {
                        let o = n.starts_with('+') as usize;
                        let (p, q, r, t) = (&n[..i + o], &n[i + o..j + o], &n[j + o..k + o], &n[k + o..]);
                        let d = format!("{p}{}{q}{}{r}{}{t}", key(a), key(b), key(c));
                        check(h, &format!("{p}{a}{q}{b}{r}{c}{t}"), &d, &plan);
                        check(h, &format!("{p}-{a}{q}{b} {r}({c}){t}"), &d, &plan);
                    }
                }
            }
        }
    });
    // any number with its last digits spelt out
    let u = Univ::new(ctx, false);
    let picks = pick_some(&u, false);
    let bases = bases(&u, &picks);
    ctx.bound(format!("{} numbers of all regions with their last digits spelt out from every place on", bases.len()));
    ctx.add(bases.len() as u64, bases.len() as u64);
    let idx: Vec<usize> = (0..bases.len()).collect();
    ctx.par(&idx, |&x| {
        let (s, h, n) = &bases[x];
        let o = s.starts_with('+') as usize;
        for i in 3 + o..s.len() {
            for salt in 0..3 {
                let mut t = String::from(&s[..i]);
                let mut count = 0;
                for (k, c) in s[i..].chars().enumerate() {
                    let on: Vec<char> = letters.iter().copied().filter(|&l| key(l) == c).collect();
                    match on.get((x + k * 3 + salt * 5) % on.len().max(1)) {
                        Some(l) => {
                            t.push(*l);
                            count += 1;
                        }
                        None => t.push(c),
                    }
                }
                if count < 3 || looks_like_extension(&t) {
                    continue;
                }
                for (u, e) in [(t.clone(), None), (format!("{}-{}", &t[..i], &t[i..]), None), (format!("{t} ext. 12"), Some("12")), (format!("call {t}!"), None)] {
                    let want = Num { ext: e.map(|e: &str| e.to_string()), ..n.clone() };
                    ctx.trace(1);
                    let got = imp::pnum(*h, &u);
                    if got != Ok(Ok(want.clone())) {
                        ctx.violation(imp::case(*h, &u), format!("{got:?} instead of {want:?}"));
                    }
                }
            }
        }
    });
    ctx.sample(|| "+1 800-FLOWERS == +18003569377".into());
}

// ------------------------------------------------------------------ C15

pub fn uris(ctx: &Ctx) {
    let u = Univ::new(ctx, false);
    let picks = pick_some(&u, ctx.quick());
    let mut bases = vec![];
    for (c, w) in &picks {
        if let Ok(n) = spec::parse_digits(&u.plan, None, true, &format!("{c}{w}")) {
            bases.push((*c, w.clone(), n));
        }
    }
    let us = Some(imp::id("US"));
    let de = Some(imp::id("DE"));
    let hs: [Hint; 3] = [None, us, de];
    ctx.bound("global and local tel: URIs of all picked numbers; every place where a phone-context can end; separators at every gap; all orders of up to 3 parameters");
    let check = |s: &str, hs: &[Hint], n: &Num, ext: Option<&str>| {
        let want = Num { ext: ext.map(|e| e.to_string()), src: Src::Plus, ..n.clone() };
        for &h in hs {
            ctx.trace(1);
            let got = imp::pnum(h, s);
            if got != Ok(Ok(want.clone())) {
                ctx.violation(imp::case(h, s), format!("{got:?} instead of {want:?}"));
            }
        }
    };
    let params: [(&str, Option<&str>); 16] = [
        (";ext=123", Some("123")),
        (";ext=0", Some("0")),
        (";ext=12345678", Some("12345678")),
        (";isub=12345", None),
        (";a=%A1", None),
        (";tsp=a.b", None),
        (";x-y=1-2.3", None),
        (";isub=ab_c!~*'()", None),
        (";x2y=1", None),
        (";9z=:[]/&+$", None),
        (";isup", None),
        (";a-b2", None),
        (";EXT=77", Some("77")),
        (";Ext=1-(2.3)", Some("123")),
        (";c=", None),
        (";-=%20%3b", None),
    ];
    // orders of up to three parameters with at most one extension
    let mut tails: Vec<(String, Option<&str>)> = vec![(String::new(), None)];
    for (i, a) in params.iter().enumerate() {
        tails.push((a.0.into(), a.1));
        for (j, b) in params.iter().enumerate() {
            if i == j || (a.1.is_some() && b.1.is_some()) {
                continue;
            }
            tails.push((format!("{}{}", a.0, b.0), a.1.or(b.1)));
            for (k, c) in params.iter().enumerate() {
                let exts = [a.1, b.1, c.1].iter().filter(|e| e.is_some()).count();
                if k == i || k == j || exts > 1 {
                    continue;
                }
                tails.push((format!("{}{}{}", a.0, b.0, c.0), a.1.or(b.1).or(c.1)));
            }
        }
    }
    ctx.add((bases.len() * tails.len()) as u64, (bases.len() * tails.len()) as u64);
    let idx: Vec<usize> = (0..bases.len()).collect();
    ctx.par(&idx, |&i| {
        let (c, w, n) = &bases[i];
        let (h, w_) = (&hs[..], w.as_str());
        // spread: every number sees some tails with every shape, the first few all
        let step = if i % 64 == 0 || !ctx.quick() { 1 } else { 7 };
        for k in (i % step..tails.len()).step_by(step) {
            let (t, e) = &tails[k];
            let scheme = ["tel:", "", "TEL:", "Tel:"][(i + k) % 4];
            let sep = ["-", ".", "("][(i + k) % 3];
            check(&format!("{scheme}+{c}{sep}{w_}{t}"), &hs[..1 + i % 3], n, *e);
            let pc = ["phone-context", "Phone-Context", "PHONE-CONTEXT", "phone-context"][(i + k / 4) % 4];
            check(&format!("{scheme}{w_};{pc}=+{c}{t}"), &hs[..1 + i % 3], n, *e);
            check(&format!("{scheme}{w_}{t};{pc}=+{c}"), &hs[..1 + i % 3], n, *e);
        }
        // a context that includes the first digits of the national number
        for k in 0..w.len().saturating_sub(1) {
            check(&format!("tel:{};phone-context=+{c}{}", &w[k..], &w[..k]), h, n, None);
            check(&format!("tel:{};phone-context=+{c}-{}", &w[k..], &w[..k]), h, n, None);
            check(&format!("tel:{};ext=7;phone-context=+{c}{}", &w[k..], &w[..k]), h, n, Some("7"));
        }
        // separators
        let d = format!("{c}{w}");
        for k in 1..d.len() {
            for sep in ["-", ".", "(", ")", "--", ").("] {
                check(&format!("tel:+{}{sep}{}", &d[..k], &d[k..]), h, n, None);
                check(&format!("tel:+{}{sep}{};ext=9", &d[..k], &d[k..]), h, n, Some("9"));
                for l in k + 1..d.len() {
                    check(&format!("tel:+{}{sep}{}-{}", &d[..k], &d[k..l], &d[l..]), &h[..1], n, None);
                }
            }
        }
        for k in 1..w.len() {
            for sep in ["-", ".", "(", ")", "--"] {
                check(&format!("tel:{}{sep}{};phone-context=+{c}", &w[..k], &w[k..]), h, n, None);
            }
        }
    });
    // contexts that are neither a number nor a domain give no number
    for b in ["", "+", "-", "+a", "+999", "999", "+0", "0", "+210", ".", "+-", "()"] {
        for h in hs {
            for s in [format!("tel:6502530000;phone-context={b}"), format!("650-253-0000;phone-context={b};ext=4")] {
                ctx.trace(1);
                match imp::pnum(h, &s) {
                    Ok(Err(_)) => (),
                    r => ctx.violation(imp::case(h, &s), format!("{r:?} although the context is no number")),
                }
            }
        }
    }
    // domains add nothing: what is left is read for the hint
    let max = if ctx.quick() { 5 } else { 7 };
    let mut names = vec![String::new()];
    let mut all: Vec<String> = vec![];
    for _ in 0..max {
        names = names.iter().flat_map(|w| "aE1-.".chars().map(move |c| format!("{w}{c}"))).collect();
        all.extend(names.iter().filter(|w| w.contains(['a', 'E'])).cloned());
    }
    all.extend(["example.com", "example.com.", "www.example.com", "1.example.com", "123.example.com", "1234.a", "44.uk", "a1.example", "4you.com", "x", "phone", "ext", "tel", "1-800.com", "0.a"].map(|s| s.to_string()));
    ctx.bound(format!("all domain names of up to {max} of a E 1 - . as the context of local numbers of four regions"));
    ctx.add(all.len() as u64, all.len() as u64);
    let domain = |s: &str| {
        let s = s.strip_suffix('.').unwrap_or(s);
        let ok = |l: &str| !l.is_empty() && !l.starts_with('-') && !l.ends_with('-');
        s.split('.').all(ok) && s.rsplit('.').next().unwrap().starts_with(|c: char| c.is_ascii_alphabetic())
    };
    let local: Vec<(Hint, &str)> = vec![(us, "6502530000"), (us, "650-253-0000"), (de, "(030)123456"), (Some(imp::id("IT")), "0236618300"), (None, "6502530000"), (Some(imp::id("GB")), "020.7031.3000")];
    ctx.par(&all, |d| {
        for (h, s) in &local {
            let plain = imp::pnum(*h, s);
            for (k, t) in ["tel:@;phone-context=#", "@;phone-context=#", "TEL:@;ext=7;phone-context=#", "tel:@;a=1;Phone-Context=#;ext=7"].iter().enumerate() {
                let t = t.replace('@', s).replace('#', d);
                let mut want = plain.clone();
                if let (2.., Ok(Ok(n))) = (k, &mut want) {
                    n.ext = Some("7".into());
                }
                ctx.trace(1);
                let got = imp::pnum(*h, &t);
                // what is no domain may be refused as well
                if got != want && (domain(d) || !matches!(got, Ok(Err(_)))) {
                    ctx.violation(imp::case(*h, &t), format!("{got:?} instead of {want:?}"));
                }
            }
        }
    });
    // every national number with a domain, for its own region
    let regional: Vec<(String, Hint, Num)> = self::bases(&u, &picks).into_iter().filter(|b| b.1.is_some()).collect();
    ctx.add(regional.len() as u64, regional.len() as u64);
    ctx.par(&regional, |(s, h, n)| {
        for (d, e) in [("example.com", None), ("a1.b2", Some("44")), ("1.xyz", None)] {
            let t = format!("tel:{s};phone-context={d}{}", e.map(|e| format!(";ext={e}")).unwrap_or_default());
            let want = Num { ext: e.map(|e: &str| e.to_string()), ..n.clone() };
            ctx.trace(1);
            let got = imp::pnum(*h, &t);
            if got != Ok(Ok(want.clone())) {
                ctx.violation(imp::case(*h, &t), format!("{got:?} instead of {want:?}"));
            }
        }
    });
    // names and values of other parameters, all of them short ones
    let unreserved = "aZ09-_.!~*'()[]/:&+$%";
    let mut values = vec![String::new()];
    for c in unreserved.chars() {
        values.push(c.to_string());
        values.extend(unreserved.chars().map(|d| format!("{c}{d}")));
    }
    let pnames = ["a", "Z", "-", "9", "a9", "9a", "a-", "-a", "exta", "aext", "ex", "ext-", "xt", "phone-contex", "phone-context-", "phonecontext", "context", "isub", "tsp", "e", "x"];
    let jobs: Vec<(&str, &String)> = pnames.iter().flat_map(|p| values.iter().map(move |v| (*p, v))).collect();
    ctx.bound(format!("{} parameters with a name like those that count and any value of up to two characters, before and behind these", jobs.len()));
    ctx.add(jobs.len() as u64, jobs.len() as u64);
    let base = spec::parse_digits(&u.plan, None, true, "16502530000").unwrap();
    ctx.par(&jobs, |(p, v)| {
        for q in [format!(";{p}={v}"), format!(";{p}={v};{p}={v}")] {
            check(&format!("tel:+1-650-253-0000{q}"), &hs, &base, None);
            check(&format!("tel:+1-650-253-0000{q};ext=12"), &hs, &base, Some("12"));
            check(&format!("tel:+1-650-253-0000;ext=12{q}"), &hs, &base, Some("12"));
            check(&format!("tel:650-253-0000{q};phone-context=+1;ext=12"), &hs, &base, Some("12"));
            check(&format!("650-253-0000;phone-context=+1{q};ext=12"), &hs, &base, Some("12"));
            check(&format!("tel:253-0000;ext=12{q};phone-context=+1-650"), &hs, &base, Some("12"));
        }
    });
    // many of them, and long ones
    for k in [4, 10, 31, 64, 100, 300] {
        for q in [";a=b".repeat(k), (0..k).map(|i| format!(";p{i}={i}")).collect::<String>(), format!(";{}={}", "n".repeat(k), "v".repeat(k)), format!(";a={}", "%41".repeat(k)), (0..k).map(|i| format!(";p{i}")).collect::<String>()] {
            check(&format!("tel:+1-650-253-0000{q}"), &hs, &base, None);
            check(&format!("tel:+1-650-253-0000{q};ext=12"), &hs, &base, Some("12"));
            check(&format!("tel:+1-650-253-0000;ext=12{q}"), &hs, &base, Some("12"));
            check(&format!("tel:650-253-0000{q};phone-context=+1;ext=12"), &hs, &base, Some("12"));
            check(&format!("tel:650-253-0000;phone-context=+1{q};ext=12"), &hs, &base, Some("12"));
            check(&format!("tel:253-0000{q};ext=12{q};phone-context=+1(650)"), &hs, &base, Some("12"));
        }
        check(&format!("tel:+1{}650-253-0000", "-".repeat(k)), &hs, &base, None);
        check(&format!("tel:650-{}253-0000;phone-context=+1{}", ".".repeat(k), "-".repeat(k)), &hs, &base, None);
    }
    ctx.sample(|| format!("tel:{};ext=7;phone-context=+{}", bases[0].1, bases[0].0));
}

// ------------------------------------------------------------------ C17

fn is_punct(c: char) -> bool {
    spec::is_sep(c)
}

fn is_digit(c: char) -> bool {
    c.is_ascii_digit() || ZEROS.iter().any(|&z| (z..z + 10).contains(&(c as u32)))
}

/// The shape of a phone number: two digits, or leading pluses and then at
/// least three digits among punctuation and stars before the first letter.
fn viable(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() == 2 && cs.iter().all(|&c| is_digit(c)) {
        return true;
    }
    let rest: Vec<char> = cs.iter().copied().skip_while(|&c| c == '+' || c == '\u{FF0B}').collect();
    let mut digits = 0;
    for c in rest {
        if is_digit(c) {
            digits += 1;
        } else if is_punct(c) || c == '*' {
        } else if c.is_ascii_alphabetic() && digits >= 3 {
        } else {
            return false;
        }
    }
    digits >= 3
}

pub fn viability(ctx: &Ctx) {
    // one symbol per class the definition distinguishes, and some outside
    let alpha = ["5", "0", "٥", "+", "＋", "-", "x", "a", "Z", "*", "(", "\u{3000}", "@", "#", "é", ";"];
    let max = if ctx.quick() { 7 } else { 8 };
    let check = |s: &str| {
        ctx.trace(1);
        let want = viable(s);
        match guard(s, || ph::is_viable(s)) {
            Ok(g) if g == want => (),
            r => ctx.violation(s, format!("viable: {r:?}, should be {want}")),
        }
    };
    check("");
    let k = alpha.len() as u64;
    for len in 1..=max {
        ctx.add(k.pow(len), k.pow(len));
        ctx.bound(format!("all strings of {len} of {k} symbols"));
        ctx.par_range(k.pow(len), 1 << 14, |lo, hi| {
            let mut s = String::new();
            for i in lo..hi {
                s.clear();
                let mut j = i;
                for _ in 0..len {
                    s.push_str(alpha[(j % k) as usize]);
                    j /= k;
                }
                check(&s);
            }
        });
    }
    // every character, in the places that matter
    let chars: Vec<char> = ('\0'..=char::MAX).filter(|c| !c.is_numeric() || is_digit(*c)).collect();
    ctx.add(chars.len() as u64, chars.len() as u64);
    ctx.bound("every Unicode character other than digits of unsupported scripts, alone, before, between and after digits");
    ctx.par(&chars, |c| {
        for s in [format!("{c}"), format!("{c}{c}"), format!("{c}123"), format!("1{c}23"), format!("12{c}3"), format!("123{c}"), format!("123{c}4"), format!("+{c}12"), format!("123a{c}4")] {
            check(&s);
        }
    });
    // longer ones
    for n in 0..=40usize {
        for s in ["1", "12", "*1", "-", "+", "a", "1a", "５"] {
            for h in ["", "+", "123", "12", "++(1"] {
                check(&format!("{h}{}", s.repeat(n)));
            }
        }
    }
    ctx.sample(|| "0800-4-pizza".into());
}
