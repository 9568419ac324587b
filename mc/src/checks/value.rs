//! Properties of the value types: national numbers, equality and storage,
//! country identifiers.

use crate::imp::{self, Boom};
use crate::run::{guard, Ctx};
use crate::spec;
use crate::univ::{self, Univ};
use phonenumber::{country, Carrier, Extension, NationalNumber, PhoneNumber};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

const LIMIT: u64 = 1 << 56;

/// Values at and around every boundary of the representation.
fn boundary() -> Vec<u64> {
    let mut v: BTreeSet<u64> = (0..=1000).collect();
    let mut around = |x: u64| v.extend([x.saturating_sub(1), x, x.saturating_add(1)]);
    (0..20).for_each(|e| around(10u64.pow(e)));
    (0..64).for_each(|e| around(1 << e));
    around(u64::MAX);
    for d in 1..=9u64 {
        for n in 1..=19 {
            around((0..n).fold(0u64, |a, _| a.wrapping_mul(10).wrapping_add(d)));
        }
    }
    v.into_iter().collect()
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// C18: the value and the leading zeros of a national number are exact.
pub fn national(ctx: &Ctx) {
    let vals = boundary();
    let zeros: Vec<u8> = (0..=255).collect();
    ctx.bound(format!("{} values at the boundaries of the representation with each of 0..=255 leading zeros", vals.len()));
    ctx.add((vals.len() * zeros.len()) as u64, (vals.len() * zeros.len()) as u64);
    ctx.par(&zeros, |&z| {
        for &v in &vals {
            ctx.trace(1);
            let case = format!("new({v}, {z})");
            let r = guard(&case, || {
                let n = match NationalNumber::new(v, z) {
                    Ok(n) => n,
                    Err(imp::ph::ParseError::TooLong) if v >= LIMIT => return None,
                    Err(e) => return Some(format!("{e:?}")),
                };
                if v >= LIMIT {
                    return Some(format!("accepted as {n:?}"));
                }
                if n.value() != v || n.zeros() != z {
                    return Some(format!("value {} zeros {}", n.value(), n.zeros()));
                }
                let want = format!("{}{v}", "0".repeat(z as usize));
                if n.to_string() != want {
                    return Some(format!("written as {n}"));
                }
                {
                    match want.parse::<NationalNumber>() {
                        Ok(m) if m == n && hash(&m) == hash(&n) => (),
                        m => return Some(format!("{want} read back as {m:?}")),
                    }
                }
                if z == 0 && u64::from(n) != v {
                    return Some(format!("converted to {}", u64::from(n)));
                }
                None
            });
            match r {
                Ok(None) => (),
                Ok(Some(d)) | Err(d) => ctx.violation(case, d),
            }
        }
    });
    // distinct numbers are distinct
    let few: Vec<(u64, u8)> = vals
        .iter()
        .filter(|&&v| v < LIMIT && (v < 12 || v > 990))
        .flat_map(|&v| [0u8, 1, 2, 3, 127, 128, 254, 255].map(|z| (v, z)))
        .collect();
    ctx.add(0, (few.len() * few.len()) as u64);
    ctx.par(&few, |a| {
        let n = NationalNumber::new(a.0, a.1).ok();
        for b in &few {
            let m = NationalNumber::new(b.0, b.1).ok();
            ctx.trace(1);
            if (n == m) != (a == b) {
                ctx.violation(format!("{a:?} == {b:?}"), format!("{}", n == m));
            }
        }
    });
    // every digit string
    let max = if ctx.quick() { 6 } else { 8 };
    ctx.bound(format!("all digit strings of up to {max} digits, and all of up to 19 digits with at most two digits other than the first repeated one"));
    for len in 1..=max {
        let n = 10u64.pow(len);
        ctx.add(n, n);
        ctx.par_range(n, 1 << 12, |a, b| {
            for i in a..b {
                digits(ctx, &format!("{i:0len$}", len = len as usize));
            }
        });
    }
    let mut long = vec![];
    for len in (max as usize + 1)..=19 {
        for base in ['0', '1', '7', '9'] {
            for i in 0..len {
                for j in i..len {
                    for d in "01279".chars() {
                        let mut s: Vec<char> = vec![base; len];
                        s[i] = d;
                        s[j] = if d == '9' { '1' } else { '9' };
                        long.push(s.into_iter().collect::<String>());
                    }
                }
            }
        }
    }
    for z in [253usize, 254, 255, 256, 257, 300, 511, 512, 513, 65536] {
        for v in ["1", "7", "123456789", "72057594037927935"] {
            long.push(format!("{}{v}", "0".repeat(z)));
        }
    }
    ctx.add(long.len() as u64, long.len() as u64);
    ctx.par(&long, |s| digits(ctx, s));
    ctx.sample(|| format!("{:?}", &long[..6]));
    // through the parser, for national numbers that keep their zeros
    let zero_kept = [("+39", "IT"), ("+225", "CI"), ("+242", "CG"), ("+241", "GA"), ("+379", "VA")];
    let mut texts = vec![];
    for (cc, _) in zero_kept {
        for z in 0..=16usize {
            for v in [1u64, 9, 10, 99, 612345678, 312345678, 999999999999, 99999999999999, LIMIT - 1, LIMIT, 99999999999999999] {
                texts.push((cc, format!("{}{v}", "0".repeat(z))));
            }
        }
    }
    ctx.add(texts.len() as u64, texts.len() as u64);
    ctx.par(&texts, |(cc, d)| {
        let s = format!("{cc}{d}");
        ctx.trace(1);
        match imp::parse(None, &s) {
            Ok(Ok(n)) => {
                let t = n.national().to_string();
                // either all of it, or all of it after a national prefix
                let v = d.trim_start_matches('0').parse::<u64>().unwrap();
                if !d.ends_with(&t) || n.national().value() % 1_000_000 != v % 1_000_000 || v >= LIMIT || d.len() > spec::MAX_NSN + 1 {
                    ctx.violation(s, format!("became {t}"));
                }
            }
            Ok(Err(_)) => (),
            Err(Boom(p)) => ctx.violation(s, p),
        }
    });
}

fn digits(ctx: &Ctx, s: &str) {
    ctx.trace(1);
    let r = guard(s, || {
        // the last digit counts as the value
        let z = s[..s.len() - 1].bytes().take_while(|&b| b == b'0').count();
        let v = s[z..].parse::<u64>().ok();
        match (s.parse::<NationalNumber>(), v) {
            (Ok(n), Some(v)) => {
                if n.to_string() != s || n.value() != v || n.zeros() as usize != z {
                    return Some(format!("value {} zeros {} written {n}", n.value(), n.zeros()));
                }
                None
            }
            (Ok(n), None) => Some(format!("accepted as {n:?}")),
            (Err(e), Some(v)) if v < LIMIT && z <= 255 => Some(format!("{e:?}")),
            (Err(imp::ph::ParseError::TooLong), Some(_)) => None,
            (Err(e), Some(_)) => Some(format!("{e:?} instead of TooLong")),
            (Err(_), None) => None,
        }
    });
    match r {
        Ok(None) => (),
        Ok(Some(d)) | Err(d) => ctx.violation(format!("\"{s}\""), d),
    }
}

/// C19: equality, hashing, copies and storage of numbers.
pub fn storage(ctx: &Ctx) {
    let u = Univ::new(ctx, false);
    // numbers of every region, type and length, written in every way that
    // gives another source, extension or carrier
    let picks = u.picks();
    let mut all: Vec<(String, PhoneNumber)> = vec![];
    for (c, w) in &picks {
        let mut forms = vec![];
        for (h, t) in univ::own_hints(&u.plan, *c) {
            forms.push((h, format!("+{c}{w}")));
            match t {
                None => forms.push((h, format!("00{c}{w}"))),
                Some(t) => {
                    forms.push((h, w.to_string()));
                    forms.push((h, format!("{c}{w}")));
                    if let Some(np) = &t.np {
                        forms.push((h, format!("{np}{w}")));
                        // carrier codes
                        forms.push((h, format!("{np}15{w}")));
                        forms.push((h, format!("{np}21{w}")));
                    }
                }
            }
            if forms.len() > 24 {
                break;
            }
        }
        for (h, s) in forms {
            for e in ["", " ext 7", " ext 07", ";ext=70"] {
                let s = format!("{s}{e}");
                if let Ok(Ok(n)) = imp::parse(h, &s) {
                    all.push((imp::case(h, &s), n));
                }
            }
        }
    }
    ctx.count("numbers", all.len() as u64);
    ctx.sample(|| format!("{:?}", all.iter().step_by(all.len() / 8).map(|x| &x.0).collect::<Vec<_>>()));
    ctx.par(&all, |(s, n)| {
        ctx.trace(1);
        match guard(s, || stored(n)) {
            Ok(None) => (),
            Ok(Some(d)) | Err(d) => ctx.violation(s.clone(), d),
        }
    });
    // all pairs of numbers of one calling code, and one per code across codes
    let key = |n: &PhoneNumber| {
        let m = imp::num(n);
        (m.code, m.nsn, m.ext, m.carrier)
    };
    let mut groups: std::collections::BTreeMap<u16, Vec<&(String, PhoneNumber)>> = Default::default();
    for a in &all {
        groups.entry(a.1.code().value()).or_default().push(a);
    }
    let across: Vec<&(String, PhoneNumber)> = groups.values().flat_map(|g| g.iter().take(6).copied()).collect();
    let cap = if ctx.quick() { 1500 } else { 6000 };
    let mut sets: Vec<Vec<&(String, PhoneNumber)>> = groups.into_values().collect();
    for g in sets.iter_mut() {
        g.truncate(cap);
    }
    sets.push(across);
    ctx.bound(format!("all pairs among the (at most {cap}) explored numbers of each calling code, and among numbers of all codes"));
    let jobs: Vec<(usize, usize)> = sets.iter().enumerate().flat_map(|(i, g)| (0..g.len()).map(move |j| (i, j))).collect();
    let keys: Vec<Vec<_>> = sets.iter().map(|g| g.iter().map(|a| (key(&a.1), hash(&a.1))).collect()).collect();
    ctx.par(&jobs, |&(i, j)| {
        let a = sets[i][j];
        let (ka, ha) = &keys[i][j];
        for (b, (kb, hb)) in sets[i][j..].iter().zip(&keys[i][j..]) {
            let want = ka == kb;
            let got = a.1 == b.1;
            if got != want || (b.1 == a.1) != want || (a.1 != b.1) == want {
                ctx.violation(format!("{} == {}", a.0, b.0), format!("{got}, of {ka:?} and {kb:?}"));
            } else if want && ha != hb {
                ctx.violation(format!("{} == {}", a.0, b.0), "equal with different hashes");
            }
        }
        ctx.add(1, (sets[i].len() - j) as u64);
        ctx.trace((sets[i].len() - j) as u64);
    });
    // the parts
    for v in [country::Source::Plus, country::Source::Idd, country::Source::Number, country::Source::Default] {
        let s = serde_json::to_string(&v).unwrap();
        if serde_json::from_str::<country::Source>(&s).ok() != Some(v) {
            ctx.violation(format!("{v:?}"), format!("stored as {s}"));
        }
    }
    use imp::ph::Type::*;
    let types = [FixedLine, Mobile, FixedLineOrMobile, TollFree, PremiumRate, SharedCost, PersonalNumber, Voip, Pager, Uan,
        Emergency, Voicemail, ShortCode, StandardRate, Carrier, NoInternational, Unknown];
    let mut seen = BTreeSet::new();
    for v in types {
        let s = serde_json::to_string(&v).unwrap();
        if serde_json::from_str::<imp::ph::Type>(&s).ok() != Some(v) || !seen.insert(s.clone()) {
            ctx.violation(format!("{v:?}"), format!("stored as {s}"));
        }
    }
}

fn stored(n: &PhoneNumber) -> Option<String> {
    let same = |m: &PhoneNumber, how: &str| {
        if *m != *n || imp::num(m) != imp::num(n) || hash(m) != hash(n) || m.national() != n.national() {
            return Some(format!("{:?} after {how} is {:?}", imp::num(n), imp::num(m)));
        }
        for mode in spec::MODES {
            if imp::format(m, mode) != imp::format(n, mode) {
                return Some(format!("{:?} formats differently after {how}", imp::num(n)));
            }
        }
        None
    };
    let copy = n.clone();
    if let Some(d) = same(&copy, "copying") {
        return Some(d);
    }
    let json = match serde_json::to_string(n) {
        Ok(j) => j,
        Err(e) => return Some(e.to_string()),
    };
    match serde_json::from_str::<PhoneNumber>(&json) {
        Ok(m) => {
            if let Some(d) = same(&m, &format!("reading {json}")) {
                return Some(d);
            }
            if serde_json::to_string(&m).ok().as_ref() != Some(&json) {
                return Some(format!("{json} stored differently the second time"));
            }
        }
        Err(e) => return Some(format!("{json} can not be read: {e}")),
    }
    let value = serde_json::to_value(n).unwrap();
    match serde_json::from_value::<PhoneNumber>(value) {
        Ok(m) => {
            if let Some(d) = same(&m, "storing") {
                return Some(d);
            }
        }
        Err(e) => return Some(format!("can not be read: {e}")),
    }
    match postcard::to_stdvec(n).map(|b| postcard::from_bytes::<PhoneNumber>(&b)) {
        Ok(Ok(m)) => {
            if let Some(d) = same(&m, "storing in binary") {
                return Some(d);
            }
        }
        e => return Some(format!("can not be stored in binary: {e:?}")),
    }
    if let Some(e) = n.extension() {
        let f = Extension::from(e.to_string());
        if f != *e || hash(&f) != hash(e) || &**e != e.to_string() || AsRef::<str>::as_ref(e) != e.to_string() {
            return Some(format!("extension {e:?}"));
        }
    }
    if let Some(e) = n.carrier() {
        let f = Carrier::from(e.to_string());
        if f != *e || hash(&f) != hash(e) || &**e != e.to_string() || AsRef::<str>::as_ref(e) != e.to_string() {
            return Some(format!("carrier {e:?}"));
        }
    }
    None
}

/// C25: country identifiers are their two-letter codes.
pub fn ids(ctx: &Ctx) {
    let u = crate::meta::Plan::load(univ::XML);
    let known: BTreeSet<&str> = u.terr.iter().map(|t| t.id.as_str()).filter(|&i| i != "001").collect();
    let alpha: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain(" -_".chars()).collect();
    let max = if ctx.quick() { 3 } else { 4 };
    ctx.bound(format!("all strings of up to {max} letters, digits, spaces, dashes and underscores"));
    let n = alpha.len() as u64;
    for len in 0..=max {
        let total = n.pow(len);
        ctx.add(total, total);
        ctx.par_range(total, 1 << 12, |a, b| {
            for i in a..b {
                let mut s = String::new();
                let mut k = i;
                for _ in 0..len {
                    s.push(alpha[(k % n) as usize]);
                    k /= n;
                }
                ctx.trace(1);
                let r = guard(&s, || one_id(&s, &known));
                match r {
                    Ok(None) => (),
                    Ok(Some(d)) | Err(d) => ctx.violation(format!("\"{s}\""), d),
                }
            }
        });
    }
    ctx.sample(|| format!("{known:?}"));
    // distinct
    let ids: Vec<country::Id> = known.iter().filter_map(|s| s.parse().ok()).collect();
    for a in &ids {
        for b in &ids {
            ctx.trace(1);
            if (a == b) != (a.as_ref() == b.as_ref()) || (a == b && hash(a) != hash(b)) {
                ctx.violation(format!("{a:?} == {b:?}"), format!("{}", a == b));
            }
        }
    }
}

fn one_id(s: &str, known: &BTreeSet<&str>) -> Option<String> {
    let json = serde_json::to_string(s).unwrap();
    let stored = serde_json::from_str::<country::Id>(&json).ok();
    match s.parse::<country::Id>() {
        Ok(id) => {
            if id.as_ref() != s {
                return Some(format!("is written {}", id.as_ref()));
            }
            if format!("{id:?}") != s {
                return Some(format!("is shown as {id:?}"));
            }
            if stored != Some(id) || serde_json::to_string(&id).ok().as_ref() != Some(&json) {
                return Some(format!("is stored as {:?} and read as {stored:?}", serde_json::to_string(&id)));
            }
            None
        }
        Err(_) if known.contains(s) => Some("a territory of the metadata, but not known".into()),
        Err(_) if stored.is_some() => Some("read from storage, but not known".into()),
        Err(_) => None,
    }
}
