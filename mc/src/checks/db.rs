//! Properties of the metadata database: contents, lookups, loading.

use crate::imp::{self, ph};
use crate::run::{guard, Ctx};
use crate::rx::{Dfa, Rx};
use crate::spec;
use crate::univ::{Univ, XML};
use crate::xml::{self, El};
use ph::metadata::{loader, Database, Descriptor, Metadata, DATABASE};
use regex::Regex;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, BufRead, Read};

// ------------------------------------------------------- content comparison

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Strings that tell an automaton from every other one of about its size:
/// every transition followed by every distinguishing suffix.
fn probes(d: &Dfa) -> Vec<String> {
    let n = d.next.len();
    let mut access: Vec<Option<String>> = vec![None; n];
    access[d.start as usize] = Some(String::new());
    let mut q = std::collections::VecDeque::from([d.start]);
    while let Some(s) = q.pop_front() {
        for x in 0..10 {
            let t = d.next[s as usize][x];
            if access[t as usize].is_none() {
                access[t as usize] = Some(format!("{}{x}", access[s as usize].as_ref().unwrap()));
                q.push_back(t);
            }
        }
    }
    // one distinguishing suffix per pair that is not told apart yet
    let mut suffixes = vec![String::new()];
    let run = |mut s: u32, w: &str| {
        for b in w.bytes() {
            s = d.next[s as usize][(b - b'0') as usize];
        }
        d.acc[s as usize]
    };
    for a in 0..n as u32 {
        for b in 0..a {
            if suffixes.iter().any(|w| run(a, w) != run(b, w)) {
                continue;
            }
            let mut seen = std::collections::HashSet::from([(a, b)]);
            let mut q = std::collections::VecDeque::from([(a, b, String::new())]);
            while let Some((x, y, w)) = q.pop_front() {
                if d.acc[x as usize] != d.acc[y as usize] {
                    suffixes.push(w);
                    break;
                }
                for k in 0..10 {
                    let t = (d.next[x as usize][k], d.next[y as usize][k]);
                    if seen.insert(t) {
                        q.push_back((t.0, t.1, format!("{w}{k}")));
                    }
                }
            }
        }
    }
    let mut out = vec![];
    for a in access.into_iter().flatten() {
        for s in &suffixes {
            out.push(format!("{a}{s}"));
            for k in 0..10 {
                out.push(format!("{a}{k}{s}"));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Does a compiled pattern say what the document says?
fn same_rx(re: &Regex, raw: &str) -> bool {
    thread_local!(static CACHE: RefCell<HashMap<(String, String), bool>> = Default::default());
    let (a, b) = (squeeze(re.as_str()), squeeze(raw));
    if a == b || a == format!("^(?:{b})$") {
        return true;
    }
    let key = (a, b);
    if let Some(r) = CACHE.with(|c| c.borrow().get(&key).copied()) {
        return r;
    }
    let r = (|| {
        let rx = Rx::new(raw).ok()?;
        let full = Regex::new(&format!("^(?:{})$", key.0)).ok()?;
        let ok = full.captures_len() == rx.groups + 1
            && probes(&Dfa::new(&rx, false)).iter().all(|w| full.is_match(w) == rx.full(w));
        Some(ok)
    })()
    .unwrap_or(false);
    CACHE.with(|c| c.borrow_mut().insert(key, r));
    r
}

fn opt_rx(what: &str, re: Option<&Regex>, raw: Option<&str>) -> Option<String> {
    match (re, raw) {
        (None, None) => None,
        (Some(a), Some(b)) if same_rx(a, b) => None,
        (a, b) => Some(format!("{what} is {:?}, the document says {b:?}", a.map(|r| r.as_str()))),
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Option<String> {
    (a != b).then(|| format!("{what} is {a:?}, the document says {b:?}"))
}

fn desc_differs(what: &str, d: Option<&Descriptor>, e: Option<&El>) -> Option<String> {
    let (d, e) = match (d, e) {
        (None, None) => return None,
        (Some(d), Some(e)) => (d, e),
        _ => return Some(format!("{what}: present {} instead of {}", d.is_some(), e.is_some())),
    };
    let l = |n: &str| e.kid("possibleLengths").and_then(|l| l.attr(n)).map(|v| crate::meta::lengths(v).unwrap()).unwrap_or_default();
    opt_rx(what, Some(d.national_number()), e.kid("nationalNumberPattern").map(|k| k.text.as_str()))
        .or_else(|| eq(&format!("{what}: lengths"), d.possible_length().to_vec(), l("national")))
        .or_else(|| eq(&format!("{what}: local lengths"), d.possible_local_length().to_vec(), l("localOnly")))
        .or_else(|| eq(&format!("{what}: example"), d.example(), e.kid("exampleNumber").map(|k| k.text.as_str())))
}

pub const DESCS: [(&str, fn(&Metadata) -> Option<&Descriptor>); 13] = [
    ("fixedLine", |m| m.descriptors().fixed_line()),
    ("mobile", |m| m.descriptors().mobile()),
    ("tollFree", |m| m.descriptors().toll_free()),
    ("premiumRate", |m| m.descriptors().premium_rate()),
    ("sharedCost", |m| m.descriptors().shared_cost()),
    ("personalNumber", |m| m.descriptors().personal_number()),
    ("voip", |m| m.descriptors().voip()),
    ("pager", |m| m.descriptors().pager()),
    ("uan", |m| m.descriptors().uan()),
    ("emergency", |m| m.descriptors().emergency()),
    ("voicemail", |m| m.descriptors().voicemail()),
    ("noInternationalDialling", |m| m.descriptors().no_international()),
    ("", |m| {
        let d = m.descriptors();
        d.short_code().or(d.standard_rate()).or(d.carrier())
    }),
];

/// The descriptor of a type that is not the one its own accessor gives.
fn by_type_differs(m: &Metadata) -> Option<String> {
    use ph::Type::*;
    let d = m.descriptors();
    let all: [(ph::Type, Option<&Descriptor>); 17] = [
        (Unknown, Some(d.general())),
        (FixedLine, d.fixed_line()),
        (FixedLineOrMobile, d.fixed_line()),
        (Mobile, d.mobile()),
        (TollFree, d.toll_free()),
        (PremiumRate, d.premium_rate()),
        (SharedCost, d.shared_cost()),
        (PersonalNumber, d.personal_number()),
        (Voip, d.voip()),
        (Pager, d.pager()),
        (Uan, d.uan()),
        (Emergency, d.emergency()),
        (Voicemail, d.voicemail()),
        (ShortCode, d.short_code()),
        (StandardRate, d.standard_rate()),
        (Carrier, d.carrier()),
        (NoInternational, d.no_international()),
    ];
    let at = |x: Option<&Descriptor>| x.map(|x| x as *const Descriptor);
    all.iter().find(|(t, x)| at(d.get(*t)) != at(*x)).map(|(t, _)| format!("the descriptor of {t:?} is another one's"))
}

fn format_differs(what: &str, f: &ph::metadata::Format, e: &El, text: &str, t: &El) -> Option<String> {
    let at = |n: &'static str| e.attr(n).or(t.attr(n));
    let leading: Vec<&El> = e.kids("leadingDigits").collect();
    opt_rx(&format!("{what}: pattern"), Some(f.pattern()), e.attr("pattern"))
        .or_else(|| eq(&format!("{what}: format"), f.format(), text))
        .or_else(|| eq(&format!("{what}: leading digits"), f.leading_digits().len(), leading.len()))
        .or_else(|| {
            f.leading_digits()
                .iter()
                .zip(&leading)
                .find_map(|(a, b)| opt_rx(&format!("{what}: leading digits"), Some(a), Some(&b.text)))
        })
        .or_else(|| eq(&format!("{what}: national prefix"), f.national_prefix(), at("nationalPrefixFormattingRule")))
        .or_else(|| {
            eq(
                &format!("{what}: optional national prefix"),
                f.is_national_prefix_optional(),
                at("nationalPrefixOptionalWhenFormatting") == Some("true"),
            )
        })
        .or_else(|| eq(&format!("{what}: carrier"), f.domestic_carrier(), at("carrierCodeFormattingRule")))
}

/// What of a territory's metadata is not what its element says.
pub fn differs(m: &Metadata, e: &El) -> Option<String> {
    let flag = |n: &str| e.attr(n) == Some("true");
    let fs: Vec<&El> = e.kid("availableFormats").map(|a| a.kids("numberFormat").collect()).unwrap_or_default();
    let intl: Vec<(&El, &str)> = fs
        .iter()
        .filter_map(|f| match f.kid("intlFormat").map(|k| k.text.as_str()) {
            Some("NA") => None,
            Some(t) => Some((*f, t)),
            None => f.kid("format").map(|k| (*f, k.text.as_str())),
        })
        .collect();
    eq("id", m.id(), e.attr("id").unwrap_or(""))
        .or_else(|| eq("code", Some(m.country_code().to_string()), e.attr("countryCode").map(|s| s.to_string())))
        .or_else(|| opt_rx("international prefix", m.international_prefix(), e.attr("internationalPrefix")))
        .or_else(|| eq("preferred international prefix", m.preferred_international_prefix(), e.attr("preferredInternationalPrefix")))
        .or_else(|| eq("national prefix", m.national_prefix(), e.attr("nationalPrefix")))
        .or_else(|| eq("extension prefix", m.preferred_extension_prefix(), e.attr("preferredExtnPrefix")))
        .or_else(|| opt_rx("national prefix for parsing", m.national_prefix_for_parsing(), e.attr("nationalPrefixForParsing")))
        .or_else(|| eq("transform rule", m.national_prefix_transform_rule(), e.attr("nationalPrefixTransformRule")))
        .or_else(|| eq("main country", m.is_main_country_for_code(), flag("mainCountryForCode")))
        .or_else(|| opt_rx("leading digits", m.leading_digits(), e.attr("leadingDigits")))
        .or_else(|| eq("portable", m.is_mobile_number_portable(), flag("mobileNumberPortableRegion")))
        .or_else(|| desc_differs("generalDesc", Some(m.descriptors().general()), e.kid("generalDesc")))
        .or_else(|| DESCS.iter().find_map(|(n, f)| desc_differs(n, f(m), e.kid(n))))
        .or_else(|| by_type_differs(m))
        .or_else(|| eq("formats", m.formats().len(), fs.len()))
        .or_else(|| eq("international formats", m.international_formats().len(), intl.len()))
        .or_else(|| {
            m.formats().iter().zip(&fs).enumerate().find_map(|(i, (f, x))| {
                format_differs(&format!("format {i}"), f, x, &x.kid("format").map(|k| k.text.clone()).unwrap_or_default(), e)
            })
        })
        .or_else(|| {
            m.international_formats()
                .iter()
                .zip(&intl)
                .enumerate()
                .find_map(|(i, (f, x))| format_differs(&format!("international format {i}"), f, x.0, x.1, e))
        })
}

/// The territories of a document per calling code, in lookup order.
fn order(root: &El) -> BTreeMap<u16, Vec<&El>> {
    let mut by: BTreeMap<u16, Vec<&El>> = BTreeMap::new();
    for t in root.kids("territories").flat_map(|t| t.kids("territory")) {
        let v = by.entry(t.attr("countryCode").unwrap().parse().unwrap()).or_default();
        if t.attr("mainCountryForCode") == Some("true") {
            v.insert(0, t);
        } else {
            v.push(t);
        }
    }
    by
}

/// What of a database is not what the document says.
pub fn db_differs(db: &Database, root: &El) -> Option<String> {
    for (code, ts) in order(root) {
        let ms = db.by_code(&code).unwrap_or_default();
        if ms.len() != ts.len() {
            return Some(format!("{} entries for +{code} instead of {}", ms.len(), ts.len()));
        }
        for (m, t) in ms.iter().zip(&ts) {
            if let Some(d) = differs(m, t) {
                return Some(format!("{} of +{code}: {d}", t.attr("id").unwrap_or("?")));
            }
        }
    }
    None
}

/// What of the lookups is not consistent with the document.
fn lookups_differ(db: &Database, root: &El, codes: impl Iterator<Item = u16>, ids: &[String]) -> Option<String> {
    let by = order(root);
    let name = |e: &El| e.attr("id").unwrap_or("").to_string();
    for c in codes {
        let want = by.get(&c).map(|v| v.iter().map(|e| name(e)).collect::<Vec<_>>());
        let got = db.by_code(&c).map(|v| v.iter().map(|m| m.id().to_string()).collect::<Vec<_>>());
        if got != want {
            return Some(format!("entries for +{c}: {got:?} instead of {want:?}"));
        }
        let got = db.region(&c).map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        if got != want {
            return Some(format!("regions of +{c}: {got:?} instead of {want:?}"));
        }
        if let Some(m) = db.by_code(&c).into_iter().flatten().find(|m| m.country_code() != c) {
            return Some(format!("entry for +{c} has +{}", m.country_code()));
        }
    }
    let mut per: BTreeMap<String, Vec<&El>> = BTreeMap::new();
    by.values().flatten().for_each(|e| per.entry(name(e)).or_default().push(e));
    for id in ids {
        match (db.by_id(id.as_str()), per.get(id)) {
            (None, None) => (),
            (Some(m), Some(v)) if m.id() == id && v.iter().any(|e| differs(m, e).is_none()) => (),
            (m, v) => return Some(format!("entry for {id:?}: {:?}, the document has {}", m.map(|m| m.id()), v.map_or(0, |v| v.len()))),
        }
    }
    let mut all: Vec<(u16, String)> = db.iter().map(|m| (m.country_code(), m.id().to_string())).collect();
    all.sort();
    let mut want: Vec<(u16, String)> = by.iter().flat_map(|(c, v)| v.iter().map(|e| (*c, name(e)))).collect();
    want.sort();
    if all != want {
        return Some(format!("iterates over {} entries instead of {}: {:?}", all.len(), want.len(), all.iter().take(8).collect::<Vec<_>>()));
    }
    None
}

// ------------------------------------------------------------- documents

fn doc(territories: &str) -> String {
    format!("<phoneNumberMetadata><territories>{territories}</territories></phoneNumberMetadata>")
}

/// Load a document both ways and compare the result with it.
fn faithful(ctx: &Ctx, case: &str, text: &str) {
    ctx.trace(1);
    let r = guard(case, || {
        let root = match xml::parse(text) {
            Ok(r) => r,
            Err(e) => panic!("harness: {e} in {text}"),
        };
        match Database::parse(text) {
            Ok(db) => db_differs(&db, &root),
            Err(e) => Some(format!("rejected: {e}")),
        }
    });
    match r {
        Ok(None) => (),
        Ok(Some(d)) | Err(d) => ctx.violation(case, format!("{d} -- {text}")),
    }
}

const GENERAL: &str = "<generalDesc><nationalNumberPattern>[1-9]\\d{5}</nationalNumberPattern></generalDesc>";

/// C20: a database says what the document it is made from says.
pub fn contents(ctx: &Ctx) {
    // the database everybody uses
    let text = std::fs::read_to_string(XML).unwrap();
    let root = xml::parse(&text).unwrap();
    let n: usize = order(&root).values().map(|v| v.len()).sum();
    let sources: [(&str, Box<dyn Fn() -> Result<Database, String> + Sync>); 4] = [
        ("embedded", Box::new(|| Ok(DATABASE.clone()))),
        ("load", Box::new(|| Database::load(XML).map_err(|e| e.to_string()))),
        ("parse", Box::new(|| Database::parse(&text).map_err(|e| e.to_string()))),
        ("from", Box::new(|| Database::from(loader::load(text.as_bytes()).map_err(|e| e.to_string())?).map_err(|e| e.to_string()))),
    ];
    ctx.par(&[0usize, 1, 2, 3], |&i| {
        let (name, f) = &sources[i];
        ctx.trace(n as u64);
        ctx.add(n as u64, n as u64);
        match guard(name, || f().map(|db| db_differs(&db, &root))) {
            Ok(Ok(None)) => (),
            Ok(Ok(Some(d))) | Ok(Err(d)) | Err(d) => ctx.violation(*name, d),
        }
    });
    // ... and what its descriptors match
    let u = Univ::new(ctx, false);
    let words = u.words();
    ctx.par(&words, |(c, w)| {
        ctx.trace(1);
        let r = guard(w, || {
            let ms = DATABASE.by_code(c).unwrap_or_default();
            for (m, t) in ms.iter().zip(u.plan.regions(*c)) {
                if m.descriptors().general().is_match(w) != t.general.matches(w) {
                    return Some(format!("{}: general", t.id));
                }
                for (k, name) in crate::meta::KINDS {
                    let f = DESCS.iter().find(|d| d.0 == name).unwrap().1;
                    if f(m).map(|d| d.is_match(w)) != t.descs.get(&k).map(|d| d.matches(w)) {
                        return Some(format!("{}: {name}", t.id));
                    }
                }
            }
            None
        });
        match r {
            Ok(None) => (),
            Ok(Some(d)) | Err(d) => ctx.violation(format!("+{c} {w}"), d),
        }
    });
    // all subsets of a territory's attributes
    const ATTRS: [(&str, &str); 10] = [
        ("internationalPrefix", "00|1[1-3]"),
        ("preferredInternationalPrefix", "011"),
        ("nationalPrefix", "8"),
        ("preferredExtnPrefix", " x"),
        ("nationalPrefixForParsing", "8(1\\d)?"),
        ("nationalPrefixTransformRule", "9$1"),
        ("leadingDigits", "[2-5]"),
        ("nationalPrefixFormattingRule", "$NP$FG"),
        ("nationalPrefixOptionalWhenFormatting", "true"),
        ("carrierCodeFormattingRule", "$NP $CC $FG"),
    ];
    let n = (1 << ATTRS.len()) * 9;
    ctx.add(n, n);
    ctx.bound("documents with all subsets of the territory attributes");
    ctx.par_range(n, 64, |a, b| {
        for i in a..b {
            let mut s = String::from("<territory id=\"US\" countryCode=\"1\"");
            for (k, (n, v)) in ATTRS.iter().enumerate() {
                if i >> k & 1 == 1 {
                    s += &format!(" {n}=\"{v}\"");
                }
            }
            let flag = |n: &str, v: u64| ["".into(), format!(" {n}=\"true\""), format!(" {n}=\"false\"")][v as usize % 3].clone();
            s += &flag("mainCountryForCode", (i >> ATTRS.len()) % 3);
            s += &flag("mobileNumberPortableRegion", (i >> ATTRS.len()) / 3);
            s += &format!(">{GENERAL}<availableFormats><numberFormat pattern=\"(\\d{{3}})(\\d{{3}})\"><format>$1 $2</format></numberFormat></availableFormats></territory>");
            faithful(ctx, &format!("attributes {i}"), &doc(&s));
        }
    });
    // all subsets of the descriptors, with several shapes of descriptor
    let shapes: [&str; 4] = [
        "",
        "<possibleLengths national=\"6\"/>",
        "<possibleLengths national=\"[5-7],9\" localOnly=\"4\"/><exampleNumber>223456</exampleNumber>",
        "<possibleLengths localOnly=\"3,4\"/>",
    ];
    ctx.bound("documents with all subsets of the number categories, in several shapes and both orders");
    let n = (1 << 12) * shapes.len() as u64 * 2;
    ctx.add(n, n);
    ctx.par_range(n, 64, |a, b| {
        for i in a..b {
            let (set, shape, rev) = (i % (1 << 12), (i >> 12) as usize % shapes.len(), (i >> 12) as usize / shapes.len());
            let mut parts = vec![GENERAL.to_string()];
            for (k, (n, _)) in DESCS[..12].iter().enumerate() {
                if set >> k & 1 == 1 {
                    parts.push(format!(
                        "<{n}><nationalNumberPattern>{}{}\\d{{4}}</nationalNumberPattern>{}</{n}>",
                        k / 6 + 1,
                        k % 6,
                        shapes[(shape + k) % shapes.len()]
                    ));
                }
            }
            if rev == 1 {
                parts.reverse();
            }
            let s = format!("<territory id=\"FR\" countryCode=\"33\">{}</territory>", parts.concat());
            faithful(ctx, &format!("categories {i}"), &doc(&s));
        }
    });
    // all lists of lengths
    let alpha = ['1', '2', '9', '[', ']', '-', ','];
    let max = if ctx.quick() { 6 } else { 8 };
    ctx.bound(format!("all length lists of up to {max} characters"));
    for len in 1..=max {
        let n = (alpha.len() as u64).pow(len);
        ctx.add(n, n);
        ctx.par_range(n, 1 << 10, |a, b| {
            for i in a..b {
                let mut k = i as usize;
                let v: String = (0..len)
                    .map(|_| {
                        let c = alpha[k % alpha.len()];
                        k /= alpha.len();
                        c
                    })
                    .collect();
                // ranges of descending or huge lengths say nothing sensible
                if v.contains("999") || v.contains("99-") {
                    continue;
                }
                let want = crate::meta::lengths(&v);
                let text = doc(&format!(
                    "<territory id=\"FR\" countryCode=\"33\"><generalDesc><nationalNumberPattern>\\d</nationalNumberPattern><possibleLengths national=\"{v}\"/></generalDesc></territory>"
                ));
                ctx.trace(1);
                let r = guard(&v, || match (loader::load(text.as_bytes()), &want) {
                    (Ok(m), Ok(w)) => eq("lengths", &m[0].general.as_ref().unwrap().possible_length, w),
                    (Err(_), Err(_)) => None,
                    (Ok(m), Err(_)) => Some(format!("read as {:?}", m[0].general.as_ref().unwrap().possible_length)),
                    (Err(e), Ok(_)) => Some(format!("rejected: {e}")),
                });
                match r {
                    Ok(None) => (),
                    Ok(Some(d)) | Err(d) => ctx.violation(format!("lengths {v}"), d),
                }
            }
        });
    }
    // all pairs of formats
    let mut one: Vec<String> = vec![];
    for lead in ["", "<leadingDigits>2</leadingDigits>", "<leadingDigits>3</leadingDigits><leadingDigits>3[1-4]</leadingDigits>"] {
        for intl in ["", "<intlFormat>NA</intlFormat>", "<intlFormat>$1-$2</intlFormat>"] {
            for np in ["", " nationalPrefixFormattingRule=\"($NP$FG)\"", " nationalPrefixFormattingRule=\"$FG\""] {
                for o in ["", " nationalPrefixOptionalWhenFormatting=\"true\"", " nationalPrefixOptionalWhenFormatting=\"false\""] {
                    for cc in ["", " carrierCodeFormattingRule=\"$FG-$CC\""] {
                        one.push(format!("<numberFormat pattern=\"(\\d{{3}})(\\d{{3}})\"{np}{o}{cc}>{lead}<format>$1 $2</format>{intl}</numberFormat>"));
                    }
                }
            }
        }
    }
    let n1 = one.len() as u64;
    let total = n1 * n1 * 8;
    ctx.bound(format!("documents with all pairs of {n1} kinds of format and all defaults for them"));
    let step = if ctx.quick() { 5 } else { 1 };
    ctx.add(total / step, total / step);
    ctx.par_range(total / step, 64, |a, b| {
        for i in a..b {
            let i = i * step;
            let (x, y, d) = (i % n1, i / n1 % n1, i / n1 / n1);
            let mut at = String::new();
            for (k, s) in [" nationalPrefixFormattingRule=\"$NP $FG\"", " nationalPrefixOptionalWhenFormatting=\"true\"", " carrierCodeFormattingRule=\"$CC $FG\""].iter().enumerate() {
                if d >> k & 1 == 1 {
                    at += s;
                }
            }
            let s = format!(
                "<territory id=\"FR\" countryCode=\"33\" nationalPrefix=\"0\"{at}><availableFormats>{}{}</availableFormats>{GENERAL}</territory>",
                one[x as usize], one[y as usize]
            );
            faithful(ctx, &format!("formats {i}"), &doc(&s));
        }
    });
    if step > 1 {
        ctx.bound("quick: every 5th of those (all kinds of format in both places with every default)");
    }
    // comments, white space and quoting wherever they may be
    let tokens = base_tokens();
    let plain: String = tokens.concat();
    ctx.sample(|| plain.clone());
    let fill = [" ", "\n\t", "<!-- <territory> -->", "<!---->\n<!-- > -->", "<?a <b/>?>"];
    let may: Vec<usize> = (0..=tokens.len()).filter(|&i| i == 0 || i == tokens.len() || !(tokens[i - 1].ends_with('>') && !tokens[i].starts_with('<') || !tokens[i - 1].ends_with('>'))).collect();
    let n = (may.len() * may.len() * fill.len() * fill.len()) as u64;
    ctx.add(n, n);
    ctx.bound("comments and white space between all pairs of elements");
    ctx.par_range(n, 64, |a, b| {
        for i in a..b {
            let i = i as usize;
            let (f, g) = (i % fill.len(), i / fill.len() % fill.len());
            let (x, y) = (may[i / fill.len() / fill.len() % may.len()], may[i / fill.len() / fill.len() / may.len()]);
            let mut s = String::new();
            for k in 0..=tokens.len() {
                if k == x {
                    s += fill[f];
                }
                if k == y {
                    s += fill[g];
                }
                if k < tokens.len() {
                    s += &tokens[k];
                }
            }
            faithful(ctx, &format!("fillers {i}"), &s);
        }
    });
    for (i, s) in [
        format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n{plain}"),
        format!("<!-- x --><!DOCTYPE phoneNumberMetadata [\n<!ELEMENT a (b)>\n]>{plain}"),
        format!("<?xml version=\"1.0\"?><!-- - --><!DOCTYPE phoneNumberMetadata [\n<!ATTLIST a b CDATA #IMPLIED>]>\n\n{plain}\n"),
        plain.replace('"', "'"),
        plain.replace(" countryCode", "\n      countryCode"),
        plain.replace("=\"", " = \""),
        plain.replace("\\d", "\n   \\d"),
        plain.replace("[1-9]", " [1-9] "),
    ]
    .iter()
    .enumerate()
    {
        ctx.add(1, 1);
        faithful(ctx, &format!("spelling {i}"), s);
    }
    // every character of every attribute as a reference
    let plain = plain.replace("countryCode=\"1\" leading", "countryCode=\"1\" preferredExtnPrefix=\" x&#39;&amp;&lt; é\" leading");
    let mut refs: Vec<(usize, usize)> = vec![];
    let mut inside = false;
    for (i, c) in plain.char_indices() {
        if c == '"' {
            inside = !inside;
        } else if inside && c != '&' {
            refs.push((i, c.len_utf8()));
        }
    }
    let n = refs.len() as u64 * 4;
    ctx.add(n, n);
    ctx.bound("every character of every attribute written as a reference, in four ways");
    ctx.par_range(n, 16, |a, b| {
        for i in a..b {
            let (at, len) = refs[i as usize / 4];
            let c = plain[at..at + len].chars().next().unwrap() as u32;
            // not within a reference
            let before = &plain[..at];
            if before.rfind('&').is_some_and(|k| !before[k..].contains(';')) {
                continue;
            }
            let r = [format!("&#{c};"), format!("&#x{c:x};"), format!("&#x{c:04X};"), format!("&#0{c};")][i as usize % 4].clone();
            faithful(ctx, &format!("reference {i}"), &format!("{before}{r}{}", &plain[at + len..]));
        }
    });
    // every place of every text interrupted, every character written another way
    let plain: String = tokens.concat();
    let mut places: Vec<(usize, String)> = vec![];
    let mut at = 0;
    for (k, t) in tokens.iter().enumerate() {
        if !t.starts_with('<') {
            let el = tokens[k - 1].trim_matches(['<', '>']).to_string();
            places.extend(t.char_indices().map(|(i, _)| (at + i, el.clone())));
        }
        at += t.len();
    }
    let ways = ["<!-- x -->@", "<!---->@", "<?x y?>@", "<![CDATA[]]>@", "<![CDATA[@]]>", "<![CDATA[@]]><!--]]>-->", "@<?x @ > ?>", "&#d;", "&#x;", "&amp;@"];
    let jobs: Vec<(usize, usize, usize, usize)> = (0..places.len()).flat_map(|i| (0..ways.len()).map(move |a| (i, a))).flat_map(|(i, a)| [(i, a, i, a), (i, a, (i + 1) % places.len(), 4), (i, a, (i + 7) % places.len(), 0), (i, a, (i + 3) % places.len(), 2)]).collect();
    ctx.add(jobs.len() as u64, jobs.len() as u64);
    ctx.bound(format!("a comment, an instruction or a marked section at every place of every text, every character of every text in a marked section or as a reference ({} documents)", jobs.len()));
    ctx.par(&jobs, |&(i, a, j, b)| {
        let mut s = plain.clone();
        let mut todo = vec![(i, a)];
        if j != i {
            todo.push((j, b));
        }
        todo.sort();
        for &(i, a) in todo.iter().rev() {
            let at = places[i].0;
            let c = &plain[at..at + 1];
            let n = c.chars().next().unwrap() as u32;
            let w = ways[a].replace("&#d;", &format!("&#{n};")).replace("&#x;", &format!("&#x{n:X};")).replace('@', c);
            s.replace_range(at..at + 1, &w);
        }
        let el = &places[i].1;
        if a < 7 || el == "sourceUrl" {
            return faithful(ctx, &format!("text of {el}: {}", ways[a]), &s);
        }
        // a reference
        if matches!(guard(el, || Database::parse(&s)), Ok(Err(_))) {
            return ctx.violation(format!("a reference in the text of {el}"), format!("refused: {s}"));
        }
        faithful(ctx, &format!("text of {el}: {}", ways[a]), &s);
    });
    // what nobody asked for
    let junk = ["x", "&amp;", "&#38;", "<![CDATA[<y>]]>", "<!-- <a> -->", "<?p q?>", "<z/>", "<z k=\"v>\"/>", "<z>&lt;</z>", "<territory id=\"FR\"><z></z></territory>", "\n"];
    let n = junk.len() as u64;
    ctx.add(n * n * n, n * n * n);
    ctx.bound(format!("all triples of {n} kinds of content in an element that is of no interest"));
    ctx.par_range(n * n * n, 32, |a, b| {
        for i in a..b {
            let i = i as usize;
            let k = junk.len();
            let x = [junk[i % k], junk[i / k % k], junk[i / k / k]].concat();
            let (outer, inner) = [("territories", "alternateFormats"), ("phoneNumberMetadata", "other")][i % 2];
            let mut s = plain.replace("http://x/y", &x);
            if i % 3 == 0 {
                s = s.replacen(&format!("<{outer}>"), &format!("<{outer}><{inner}>{x}</{inner}>"), 1);
            }
            faithful(ctx, &format!("of no interest: {x:?} {}", i % 6), &s);
        }
    });
    // attributes in any order
    let many = [
        "id=\"FR\"", "countryCode=\"33\"", "internationalPrefix=\"00\"", "nationalPrefix=\"0\"", "nationalPrefixForParsing=\"0(1\\d)?\"",
        "nationalPrefixFormattingRule=\"$NP$FG\"", "leadingDigits=\"1\"",
    ];
    let mut orders = vec![vec![]];
    for _ in 0..many.len() {
        orders = orders.into_iter().flat_map(|o: Vec<usize>| (0..many.len()).filter(|i| !o.contains(i)).map(|i| [&o[..], &[i]].concat()).collect::<Vec<_>>()).collect();
    }
    ctx.add(orders.len() as u64, orders.len() as u64);
    ctx.bound("all orders of seven attributes");
    ctx.par(&orders, |o| {
        let attrs: String = o.iter().map(|&i| format!(" {}", many[i])).collect();
        let s = format!("<territory{attrs}><availableFormats><numberFormat pattern=\"(\\d)(\\d+)\"><format>$1 $2</format></numberFormat></availableFormats>{GENERAL}</territory>");
        faithful(ctx, &format!("orders {o:?}"), &doc(&s));
    });
}

/// A document with everything in it, in pieces.
fn base_tokens() -> Vec<String> {
    let text = concat!(
        "<phoneNumberMetadata><territories>",
        "<territory id=\"US\" countryCode=\"1\" mainCountryForCode=\"true\" internationalPrefix=\"011\" nationalPrefix=\"1\" nationalPrefixForParsing=\"1(9\\d)?\" nationalPrefixOptionalWhenFormatting=\"true\" mobileNumberPortableRegion=\"true\">",
        "<references><sourceUrl>http://x/y</sourceUrl></references>",
        "<availableFormats><numberFormat pattern=\"(\\d{3})(\\d{4})\" nationalPrefixFormattingRule=\"$NP$FG\"><leadingDigits>[2-4]</leadingDigits><format>$1-$2</format><intlFormat>$1 $2</intlFormat></numberFormat>",
        "<numberFormat pattern=\"(\\d)(\\d{4})\"><format>$1 $2</format><intlFormat>NA</intlFormat></numberFormat></availableFormats>",
        "<generalDesc><nationalNumberPattern>[1-9]\\d{4,6}</nationalNumberPattern><possibleLengths national=\"5,7\" localOnly=\"4\"/></generalDesc>",
        "<fixedLine><nationalNumberPattern>[23]\\d{6}</nationalNumberPattern><possibleLengths national=\"[6-7]\"/><exampleNumber>2345678</exampleNumber></fixedLine>",
        "<mobile><nationalNumberPattern>[45]\\d{4,6}</nationalNumberPattern></mobile>",
        "</territory>",
        "<territory id=\"CA\" countryCode=\"1\" leadingDigits=\"4\" carrierCodeFormattingRule=\"$CC $FG\"><generalDesc><nationalNumberPattern>4\\d{6}</nationalNumberPattern></generalDesc></territory>",
        "</territories></phoneNumberMetadata>"
    );
    let mut out: Vec<String> = vec![];
    for part in text.split_inclusive('>') {
        let i = part.find('<').unwrap();
        if i > 0 {
            out.push(part[..i].into());
        }
        out.push(part[i..].into());
    }
    out
}

/// C21: all ways to look something up agree.
pub fn lookups(ctx: &Ctx) {
    let text = std::fs::read_to_string(XML).unwrap();
    let root = xml::parse(&text).unwrap();
    let alpha: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').collect();
    let mut ids = vec![String::new()];
    for a in &alpha {
        ids.push(a.to_string());
        for b in &alpha {
            ids.push(format!("{a}{b}"));
        }
    }
    ids.extend(["001", "USA", "us ", " US", "800"].map(String::from));
    ctx.bound("every 16-bit calling code and every identifier of up to two letters or digits, on the default database");
    ctx.add(65536 + ids.len() as u64, 65536 + ids.len() as u64);
    ctx.trace(65536 + ids.len() as u64);
    match guard("lookups", || lookups_differ(&DATABASE, &root, 0..=u16::MAX, &ids)) {
        Ok(None) => (),
        Ok(Some(d)) | Err(d) => ctx.violation("default database", d),
    }
    // all small databases: territories in all orders, with all assignments of
    // codes and main flags
    let names = ["US", "CA", "BS", "001", "ZZ"];
    let codes = [1u16, 44, 999];
    let max = if ctx.quick() { 4 } else { 5 };
    let ids: Vec<String> = names.iter().map(|s| s.to_string()).chain(["".into(), "us".into(), "FR".into()]).collect();
    let mut jobs: Vec<Vec<(usize, usize, bool)>> = vec![];
    fn rec(k: usize, n: usize, codes: usize, cur: &mut Vec<(usize, usize, bool)>, out: &mut Vec<Vec<(usize, usize, bool)>>) {
        out.push(cur.clone());
        if k == 0 {
            return;
        }
        for t in 0..n {
            // an identifier once, except for the one of non-geographical codes
            if t != 3 && cur.iter().any(|c| c.0 == t) {
                continue;
            }
            for c in 0..codes {
                for m in [false, true] {
                    if m && cur.iter().any(|x| x.1 == c && x.2) {
                        continue;
                    }
                    cur.push((t, c, m));
                    rec(k - 1, n, codes, cur, out);
                    cur.pop();
                }
            }
        }
    }
    rec(max, names.len(), codes.len(), &mut vec![], &mut jobs);
    // codes with many regions, in many orders
    let names: Vec<&str> = names.into_iter().chain(["DE", "AG", "GB", "BB", "TT", "AI", "VI", "KY", "JM", "DM", "GU", "MS", "PR", "BM", "SX", "LC", "AT", "VC", "MP", "KN", "TC", "DO", "AS", "GD", "VG", "IT"]).collect();
    let ids: Vec<String> = ids.into_iter().chain(names.iter().map(|s| s.to_string())).collect();
    let most = names.len();
    for n in (5..=most).step_by(if ctx.quick() { 3 } else { 1 }) {
        let sorted = |rev: bool| {
            let mut v: Vec<usize> = (0..n).collect();
            v.sort_by_key(|&i| names[i]);
            if rev {
                v.reverse();
            }
            v
        };
        for order in [(0..n).collect(), (0..n).rev().collect(), sorted(false), sorted(true), (0..n).map(|i| (i * 2) % n + (n % 2 == 0 && i >= n / 2) as usize).collect::<Vec<_>>()] {
            for main in 0..=n {
                for two in [false, true] {
                    jobs.push(order.iter().enumerate().map(|(k, &i)| (i, if two { k % 2 } else { 0 }, k == main)).collect());
                }
            }
        }
    }
    ctx.bound(format!("up to {most} territories of one or two calling codes in five orders, each of them the main one"));
    ctx.bound(format!("all databases of up to {max} territories over {} identifiers and {} calling codes, in every order and with every choice of main territories", names.len(), codes.len()));
    ctx.add(jobs.len() as u64, jobs.len() as u64);
    ctx.sample(|| format!("{:?}", &jobs[jobs.len() / 2]));
    ctx.par(&jobs, |job| {
        let ts: String = job
            .iter()
            .map(|&(t, c, m)| format!("<territory id=\"{}\" countryCode=\"{}\"{}>{}</territory>", names[t], codes[c], if m { " mainCountryForCode=\"true\"" } else { "" }, GENERAL))
            .collect();
        let text = doc(&ts);
        let case = format!("{job:?}");
        ctx.trace(1);
        let r = guard(&case, || {
            let root = xml::parse(&text).unwrap();
            let db = match Database::parse(&text) {
                Ok(db) => db,
                Err(e) => return Some(format!("rejected: {e}")),
            };
            lookups_differ(&db, &root, codes.into_iter().chain([0, 2, 4, 9, 65535]), &ids)
                .or_else(|| lookups_differ(&db.clone(), &root, codes.into_iter(), &ids).map(|d| format!("a copy: {d}")))
        });
        match r {
            Ok(None) => (),
            Ok(Some(d)) | Err(d) => ctx.violation(case, d),
        }
    });
}

// ---------------------------------------------------------------- robustness

/// A reader that hands out chunks of a size and fails at some position.
struct Faulty<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    fault: Option<(usize, io::ErrorKind)>,
    once: bool,
}

impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Faulty<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let mut end = (self.pos + self.chunk).min(self.data.len());
        if let Some((at, kind)) = self.fault {
            if self.pos >= at {
                if self.once {
                    self.fault = None;
                }
                return Err(kind.into());
            }
            end = end.min(at);
        }
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

/// Use a database for everything it can be used for.
pub fn exercise(db: &Database) -> usize {
    let mut n = 0;
    for m in db.iter() {
        n += m.id().len();
    }
    for h in [None, Some(imp::id("US")), Some(imp::id("CA")), Some(imp::id("FR"))] {
        for s in ["+12345678", "2345678", "12345678", "1915555678", "0111 2345678", "4445678", "+4445678", "234567 ext 5", "45678", "+33 1", "+999123456", "tel:+1-234-5678;ext=3"] {
            if let Ok(p) = ph::parse_with(db, h, s) {
                for mode in spec::MODES {
                    n += p.format_with(db).mode(imp::mode(mode)).to_string().len();
                }
                n += ph::is_valid_with(db, &p) as usize;
                n += format!("{:?}", p.number_type_with(db)).len();
                n += p.metadata(db).map_or(0, |m| m.id().len());
            }
        }
    }
    n
}

fn load(data: &[u8]) -> Result<Database, String> {
    loader::load(data).and_then(Database::from).map_err(|e| e.to_string())
}

fn repeats(e: &El) -> bool {
    let many = ["territory", "territories", "numberFormat", "leadingDigits", "references"];
    e.kids.iter().enumerate().any(|(i, k)| {
        repeats(k) || !many.contains(&k.name.as_str()) && e.kids[..i].iter().any(|o| o.name == k.name)
    })
}

/// C22: no document and no reader makes loading misbehave.
/// All names one letter away from another.
fn near(name: &str, quick: bool) -> Vec<String> {
    let b: Vec<char> = name.chars().collect();
    let letters: Vec<char> = if quick { "aensxES1_".chars().collect() } else { ('a'..='z').chain('A'..='Z').chain("019_-.".chars()).collect() };
    let mut out = vec![];
    let mut put = |v: Vec<char>| {
        if v.first().is_some_and(|c| c.is_ascii_alphabetic() || *c == '_') {
            out.push(v.into_iter().collect::<String>());
        }
    };
    for i in 0..=b.len() {
        for &l in &letters {
            put([&b[..i], &[l], &b[i..]].concat());
            if i < b.len() {
                put([&b[..i], &[l], &b[i + 1..]].concat());
            }
        }
        if i < b.len() {
            put([&b[..i], &b[i + 1..]].concat());
            let c = b[i];
            let swapped = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            put([&b[..i], &[swapped], &b[i + 1..]].concat());
        }
        if i + 1 < b.len() {
            put([&b[..i], &[b[i + 1], b[i]], &b[i + 2..]].concat());
        }
    }
    out.sort();
    out.dedup();
    out.retain(|n| n != name);
    out
}

pub fn robustness(ctx: &Ctx) {
    let base: String = base_tokens().concat();
    let bytes = base.as_bytes().to_vec();
    let root = xml::parse(&base).unwrap();
    ctx.sample(|| base.clone());
    // cut off anywhere
    ctx.bound("the document cut off at every byte");
    let cuts: Vec<usize> = (0..bytes.len()).collect();
    ctx.add(cuts.len() as u64, cuts.len() as u64);
    ctx.par(&cuts, |&n| {
        ctx.trace(3);
        let case = format!("cut at {n}");
        let r = guard(&case, || {
            let f = Faulty { data: &bytes[..n], pos: 0, chunk: 7, fault: None, once: false };
            load(&bytes[..n]).is_ok() || loader::load(f).is_ok() || std::str::from_utf8(&bytes[..n]).is_ok_and(|s| Database::parse(s).is_ok())
        });
        match r {
            Ok(false) => (),
            Ok(true) => ctx.violation(case, "a document that is cut off is accepted"),
            Err(d) => ctx.violation(case, d),
        }
    });
    // the same for the metadata everybody uses, at every line and around every tag of some territories
    let real = std::fs::read(XML).unwrap();
    let end = real.len() - b"</phoneNumberMetadata>\n".len();
    let mut cuts: Vec<usize> = vec![];
    let lines: Vec<usize> = (0..end).filter(|&i| real[i] == b'\n').collect();
    let step = if ctx.quick() { 400 } else { 20 };
    cuts.extend(lines.iter().step_by(step).copied());
    cuts.extend((end - 40..end).step_by(if ctx.quick() { 6 } else { 1 }));
    ctx.bound(format!("the default metadata cut off at {} places", cuts.len()));
    ctx.add(cuts.len() as u64, cuts.len() as u64);
    ctx.par(&cuts, |&n| {
        ctx.trace(1);
        let case = format!("default metadata cut at {n}");
        match guard(&case, || loader::load(&real[..n]).is_ok()) {
            Ok(false) => (),
            Ok(true) => ctx.violation(case, "a document that is cut off is accepted"),
            Err(d) => ctx.violation(case, d),
        }
    });
    // every way to hand out the bytes, and every failure of the reader
    ctx.bound("every buffer size up to 64 bytes; a read error of every kind at every byte, lasting or passing");
    let kinds = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData, io::ErrorKind::BrokenPipe];
    let n = (bytes.len() * (kinds.len() * 2 + 1) + 64) as u64;
    ctx.add(n, n);
    let chunks: Vec<usize> = (1..=64).collect();
    ctx.par(&chunks, |&chunk| {
        ctx.trace(1);
        let case = format!("buffer of {chunk}");
        let r = guard(&case, || {
            let f = Faulty { data: &bytes, pos: 0, chunk, fault: None, once: false };
            match loader::load(f).and_then(Database::from) {
                Ok(db) => db_differs(&db, &root),
                Err(e) => Some(format!("rejected: {e}")),
            }
        });
        match r {
            Ok(None) => (),
            Ok(Some(d)) | Err(d) => ctx.violation(case, d),
        }
    });
    let ats: Vec<usize> = (0..bytes.len()).collect();
    ctx.par(&ats, |&at| {
        for kind in kinds {
            for once in [false, true] {
                ctx.trace(1);
                let case = format!("{kind:?} at {at}{}", if once { " once" } else { "" });
                let f = Faulty { data: &bytes, pos: 0, chunk: 16, fault: Some((at, kind)), once };
                match guard(&case, || loader::load(f).is_ok()) {
                    Ok(false) => (),
                    Ok(true) => ctx.violation(case, "accepted in spite of a read error"),
                    Err(d) => ctx.violation(case, d),
                }
            }
        }
        // an interrupted read is no failure
        ctx.trace(1);
        let case = format!("interrupted at {at}");
        let r = guard(&case, || {
            let f = Faulty { data: &bytes, pos: 0, chunk: 16, fault: Some((at, io::ErrorKind::Interrupted)), once: true };
            match loader::load(f).and_then(Database::from) {
                Ok(db) => db_differs(&db, &root),
                Err(_) => None,
            }
        });
        match r {
            Ok(None) => (),
            Ok(Some(d)) | Err(d) => ctx.violation(case, d),
        }
    });
    // every change of one byte, every byte left out or doubled
    let subst: Vec<u8> = if ctx.quick() { b"<>/\"'=&$([{|?*+\\ -,09aA!;\0\n\x80\xff\xc3".to_vec() } else { (0..=255).collect() };
    let n = bytes.len() as u64 * (subst.len() as u64 * 2 + 2);
    ctx.bound(format!("the document with every byte replaced by and every position filled with each of {} bytes, left out or doubled", subst.len()));
    ctx.add(n, n);
    ctx.par(&ats, |&at| {
        let mut docs: Vec<(String, Vec<u8>)> = vec![];
        for &b in &subst {
            let mut d = bytes.clone();
            d[at] = b;
            docs.push((format!("byte {at} set to {b}"), d));
            let mut d = bytes.clone();
            d.insert(at, b);
            docs.push((format!("byte {b} inserted at {at}"), d));
        }
        let mut d = bytes.clone();
        d.remove(at);
        docs.push((format!("byte {at} left out"), d));
        let mut d = bytes.clone();
        d.insert(at, bytes[at]);
        docs.push((format!("byte {at} doubled"), d));
        for (case, d) in docs {
            ctx.trace(1);
            let r = guard(&case, || {
                if let Ok(db) = load(&d) {
                    exercise(&db);
                }
            });
            if let Err(p) = r {
                ctx.violation(case, format!("{p} -- {}", String::from_utf8_lossy(&d)));
            }
        }
    });
    // wrong values, missing parts, unknown things: all must be reported
    let mut bad: Vec<(String, String)> = vec![];
    let swap = |bad: &mut Vec<(String, String)>, a: &str, b: &str| {
        assert!(base.contains(a), "{a}");
        bad.push((format!("{b} for {a}"), base.replacen(a, b, 1)));
    };
    for v in ["", "x", "1x", "-1", "65536", "999999999999999999999", "1 1", "1.0", "0x1", "１"] {
        swap(&mut bad, "countryCode=\"1\"", &format!("countryCode=\"{v}\""));
    }
    for v in ["", "TRUE", "True", "1", "yes", "tru", "truee", "fals", "on"] {
        swap(&mut bad, "mainCountryForCode=\"true\"", &format!("mainCountryForCode=\"{v}\""));
        swap(&mut bad, "nationalPrefixOptionalWhenFormatting=\"true\"", &format!("nationalPrefixOptionalWhenFormatting=\"{v}\""));
        swap(&mut bad, "mobileNumberPortableRegion=\"true\"", &format!("mobileNumberPortableRegion=\"{v}\""));
    }
    for v in ["(", ")", "[", "*", "\\", "(?<a)", "a{2,1}", "[9-0]", "\\q"] {
        for (a, b) in [
            ("internationalPrefix=\"011\"", "internationalPrefix=\"@\""),
            ("nationalPrefixForParsing=\"1(9\\d)?\"", "nationalPrefixForParsing=\"@\""),
            ("leadingDigits=\"4\"", "leadingDigits=\"@\""),
            ("<leadingDigits>[2-4]</leadingDigits>", "<leadingDigits>@</leadingDigits>"),
            ("pattern=\"(\\d{3})(\\d{4})\"", "pattern=\"@\""),
            ("<nationalNumberPattern>[1-9]\\d{4,6}</nationalNumberPattern>", "<nationalNumberPattern>@</nationalNumberPattern>"),
            ("<nationalNumberPattern>[23]\\d{6}</nationalNumberPattern>", "<nationalNumberPattern>@</nationalNumberPattern>"),
        ] {
            swap(&mut bad, a, &b.replace('@', if v == "(?<a)" { "(?&lt;a)" } else { v }));
        }
    }
    for v in ["", "x", "[", "[]", "[1]", "[1-]", "[-1]", "[1-2", "1-2", "1,,2", ",", "5,", "[1-2]3", "70000", "-1", "[a-b]"] {
        swap(&mut bad, "national=\"5,7\"", &format!("national=\"{v}\""));
        swap(&mut bad, "localOnly=\"4\"", &format!("localOnly=\"{v}\""));
    }
    for v in ["&", "& ", "&;", "&foo;", "&#;", "&#x;", "&#xg;", "&#0;", "&#xD800;", "&#99999999;", "&amp", "&#49"] {
        for a in [" internationalPrefix=\"", " nationalPrefix=\"", " pattern=\"", " nationalPrefixFormattingRule=\"", " national=\""] {
            swap(&mut bad, a, &format!("{a}{v}"));
        }
    }
    swap(&mut bad, " id=\"US\"", "");
    swap(&mut bad, " countryCode=\"1\"", "");
    swap(&mut bad, " pattern=\"(\\d{3})(\\d{4})\"", "");
    swap(&mut bad, "<format>$1-$2</format>", "");
    swap(&mut bad, "<nationalNumberPattern>[1-9]\\d{4,6}</nationalNumberPattern>", "");
    swap(&mut bad, "<nationalNumberPattern>[23]\\d{6}</nationalNumberPattern>", "");
    swap(&mut bad, "<generalDesc><nationalNumberPattern>4\\d{6}</nationalNumberPattern></generalDesc>", "");
    for (a, b) in [
        ("countryCode=", "countrycode="),
        (" internationalPrefix=", " internationalPrefixes="),
        (" pattern=", " Pattern="),
        (" national=", " nationals="),
        ("<exampleNumber>2345678</exampleNumber>", "<example>2345678</example>"),
        ("<leadingDigits>[2-4]</leadingDigits>", "<leadingDigit>[2-4]</leadingDigit>"),
        ("<mobile><nationalNumberPattern>[45]\\d{4,6}</nationalNumberPattern></mobile>", "<mobiles><nationalNumberPattern>[45]\\d{4,6}</nationalNumberPattern></mobiles>"),
        (" id=\"US\"", " id=\"US\" id=\"CA\""),
        (" nationalPrefix=\"1\"", " nationalPrefix=1"),
        ("</mobile>", "</fixedLine>"),
        ("</territories>", ""),
        ("</territory>", "</territories>"),
        ("</numberFormat>", "</availableFormats>"),
    ] {
        swap(&mut bad, a, b);
    }
    ctx.bound(format!("{} documents with a wrong value, a missing part or something unknown", bad.len()));
    ctx.add(bad.len() as u64, bad.len() as u64);
    ctx.par(&bad, |(case, text)| {
        ctx.trace(2);
        match guard(case, || load(text.as_bytes()).is_ok() || Database::parse(text).is_ok()) {
            Ok(false) => (),
            Ok(true) => ctx.violation(case.clone(), format!("accepted: {text}")),
            Err(p) => ctx.violation(case.clone(), p),
        }
    });
    // every name somebody could have written instead of each one there is
    let known_el: Vec<&str> = ["generalDesc", "emergency", "noInternationalDialling", "availableFormats", "numberFormat", "leadingDigits", "format", "intlFormat", "nationalNumberPattern", "exampleNumber", "possibleLengths", "references", "areaCodeOptional", "fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan", "voicemail"].into();
    let attrs: [(&str, &[&str]); 3] = [
        (" id=\"US\"", &["id", "countryCode", "internationalPrefix", "preferredInternationalPrefix", "nationalPrefix", "preferredExtnPrefix", "nationalPrefixForParsing", "nationalPrefixTransformRule", "mainCountryForCode", "leadingDigits", "mobileNumberPortableRegion", "nationalPrefixFormattingRule", "nationalPrefixOptionalWhenFormatting", "carrierCodeFormattingRule"]),
        (" pattern=\"(\\d)(\\d{4})\"", &["pattern", "nationalPrefixFormattingRule", "nationalPrefixOptionalWhenFormatting", "carrierCodeFormattingRule"]),
        (" national=\"5,7\"", &["national", "localOnly"]),
    ];
    let mut names: Vec<(String, String)> = vec![];
    for (place, known) in attrs {
        assert!(base.contains(place));
        // names of the other places as well
        let others = attrs.iter().flat_map(|a| a.1).map(|n| n.to_string());
        let mut odd: Vec<String> = known.iter().flat_map(|n| near(n, ctx.quick())).chain(others).filter(|n| !known.contains(&n.as_str())).collect();
        odd.sort();
        odd.dedup();
        for n in odd {
            for v in ["1", "true"] {
                names.push((format!("{n}={v} besides{place}"), base.replacen(place, &format!("{place} {n}=\"{v}\""), 1)));
            }
        }
    }
    for e in &known_el {
        let mut odd = near(e, ctx.quick());
        odd.retain(|n| !known_el.contains(&n.as_str()));
        let (before, after) = match *e {
            "numberFormat" => ("<availableFormats>", "</availableFormats>"),
            "leadingDigits" | "format" | "intlFormat" => ("<availableFormats><numberFormat pattern=\"(1)\"><format>$1</format>", "</numberFormat></availableFormats>"),
            "nationalNumberPattern" | "exampleNumber" | "possibleLengths" => ("<voip><nationalNumberPattern>1</nationalNumberPattern>", "</voip>"),
            _ => ("", ""),
        };
        let inside = match *e {
            "numberFormat" => "<format>$1</format>",
            "availableFormats" => "<numberFormat pattern=\"(1)\"><format>$1</format></numberFormat>",
            "leadingDigits" | "format" | "intlFormat" | "nationalNumberPattern" | "exampleNumber" => "1",
            "possibleLengths" | "references" | "areaCodeOptional" => "",
            _ => "<nationalNumberPattern>1</nationalNumberPattern>",
        };
        for n in odd {
            names.push((format!("<{n}> for <{e}>"), doc(&format!("<territory id=\"US\" countryCode=\"1\">{before}<{n} pattern=\"(1)\">{inside}</{n}>{after}{GENERAL}</territory>"))));
            names.push((format!("<{n}/> for <{e}/>"), doc(&format!("<territory id=\"US\" countryCode=\"1\">{before}<{n} national=\"1\"/>{after}{GENERAL}</territory>"))));
        }
    }
    ctx.bound(format!("{} documents with a name one letter away from each of the names of elements and attributes", names.len()));
    ctx.add(names.len() as u64, names.len() as u64);
    ctx.par(&names, |(case, text)| {
        ctx.trace(1);
        match guard(case, || load(text.as_bytes()).is_ok()) {
            Ok(false) => (),
            Ok(true) => ctx.violation(case.clone(), format!("accepted: {text}")),
            Err(p) => ctx.violation(case.clone(), p),
        }
    });
    // all short sequences of tags in every place
    let tags = ["<territories>", "</territories>", "<territory id=\"US\" countryCode=\"1\">", "</territory>", "<generalDesc>", "</generalDesc>",
        "<nationalNumberPattern>", "</nationalNumberPattern>", "\\d", "<references>", "</references>", "<possibleLengths national=\"5\"/>", "<x>", "</x>"];
    let places: [(&str, &str); 7] = [
        ("", ""),
        ("<phoneNumberMetadata>", "</phoneNumberMetadata>"),
        ("<phoneNumberMetadata><territories>", "</territories></phoneNumberMetadata>"),
        ("<phoneNumberMetadata><territories><territory id=\"FR\" countryCode=\"33\">", "</territory></territories></phoneNumberMetadata>"),
        ("<phoneNumberMetadata><territories><territory id=\"FR\" countryCode=\"33\"><generalDesc>", "</generalDesc></territory></territories></phoneNumberMetadata>"),
        ("<phoneNumberMetadata><territories><territory id=\"FR\" countryCode=\"33\"><generalDesc><nationalNumberPattern>", "</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>"),
        ("<phoneNumberMetadata><references>", "</references><territories></territories></phoneNumberMetadata>"),
    ];
    let max = if ctx.quick() { 4 } else { 6 };
    ctx.bound(format!("all sequences of up to {max} of {} tags in {} places of a document", tags.len(), places.len()));
    for (pi, (pre, post)) in places.iter().enumerate() {
        for len in 0..=max {
            let n = (tags.len() as u64).pow(len);
            ctx.add(n, n);
            ctx.par_range(n, 1 << 10, |a, b| {
                for i in a..b {
                    let mut s = String::from(*pre);
                    let mut k = i as usize;
                    for _ in 0..len {
                        s += tags[k % tags.len()];
                        k /= tags.len();
                    }
                    s += post;
                    ctx.trace(1);
                    let case = format!("tags {pi}/{len}/{i}");
                    let r = guard(&s, || {
                        let Ok(db) = load(s.as_bytes()) else { return None };
                        // accepted: it is one document and says what is in the database
                        let end = s.find("</phoneNumberMetadata>").map(|e| e + 22).unwrap_or(s.len());
                        match xml::parse(&s[..end]) {
                            // (which one of two equal elements counts is not defined)
                            Ok(root) if repeats(&root) => None,
                            Ok(root) => db_differs(&db, &root),
                            Err(e) => Some(format!("accepted, although it is no document ({e})")),
                        }
                    });
                    match r {
                        Ok(None) => (),
                        Ok(Some(d)) | Err(d) => ctx.violation(case, format!("{d} -- {s}")),
                    }
                }
            });
        }
    }
    // deeply nested and long documents
    for depth in [10usize, 1000, 100_000, 1_000_000] {
        for place in ["references", "root", "open"] {
            let (o, c) = ("<a>".repeat(depth), "</a>".repeat(depth));
            let s = match place {
                "references" => doc(&format!("<territory id=\"US\" countryCode=\"1\"><references>{o}{c}</references>{GENERAL}</territory>")),
                "root" => format!("<phoneNumberMetadata>{o}{c}<territories></territories></phoneNumberMetadata>"),
                _ => format!("<phoneNumberMetadata>{o}"),
            };
            ctx.trace(1);
            ctx.add(1, 1);
            let case = format!("{depth} elements in {place}");
            match guard(&case, || load(s.as_bytes()).is_ok()) {
                Ok(ok) if ok == (place != "open") => (),
                Ok(ok) => ctx.violation(case, if ok { "accepted" } else { "rejected" }),
                Err(p) => ctx.violation(case, p),
            }
        }
    }
}
