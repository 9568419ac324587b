//! C23: a custom database is the only thing that decides what numbers mean.

use super::plan::want;
use crate::imp::{self, ph, Boom, Hint};
use crate::meta::{Plan, Terr};
use crate::product::Product;
use crate::run::{guard, Ctx};
use crate::spec;
use crate::xml::{self, El};
use ph::metadata::Database;

/// What of the results is compared.
#[derive(Clone, Copy)]
pub struct Look {
    pub split: bool,
    pub carrier: bool,
    pub error: bool,
    pub ty: bool,
    pub region: bool,
    pub format: bool,
}

pub const NONE: Look = Look { split: false, carrier: false, error: false, ty: false, region: false, format: false };
pub const ALL: Look = Look { split: true, carrier: true, error: true, ty: true, region: true, format: true };

struct World {
    look: Look,
    name: String,
    text: String,
    plan: Plan,
    db: Database,
}

fn world(ctx: &Ctx, look: Look, name: String, territories: &str) -> Option<World> {
    let text = format!("<phoneNumberMetadata><territories>{territories}</territories></phoneNumberMetadata>");
    let plan = Plan::read(&text).unwrap_or_else(|e| panic!("harness: {e}: {text}"));
    match guard(&name, || Database::parse(&text)) {
        Ok(Ok(db)) => Some(World { look, name, text, plan, db }),
        Ok(Err(e)) => {
            ctx.violation(name, format!("rejected: {e} -- {text}"));
            None
        }
        Err(p) => {
            ctx.violation(name, p);
            None
        }
    }
}

impl World {
    fn hint(&self, h: Option<&str>) -> (Hint, Option<&Terr>) {
        match h {
            None => (None, None),
            Some(h) => (Some(imp::id(h)), self.plan.by_id(h)),
        }
    }

    fn fail(&self, ctx: &Ctx, what: String, d: String) {
        ctx.violation(format!("{}|{what}", self.name), format!("{d} -- {}", self.text));
    }

    /// Whether a worldwide entry shares the code with regions.
    fn mixed(&self, code: u16) -> bool {
        let t = &self.plan.by_code[&code];
        t.len() > 1 && t.iter().any(|&i| self.plan.terr[i].id == "001")
    }

    /// Parse one digit string and look at everything the result says.
    fn check(&self, ctx: &Ctx, h: Option<&str>, plus: bool, digits: &str, formats: bool) {
        let (hint, t) = self.hint(h);
        if h.is_some() && t.is_none() {
            return;
        }
        let s = if plus { format!("+{digits}") } else { digits.to_string() };
        let want = want(&self.plan, t, plus, digits);
        let n = match imp::parse_with(&self.db, hint, &s) {
            Ok(r) => {
                let got = r.as_ref().map(imp::num).map_err(|e| *e);
                let l = self.look;
                let same = match (&got, &want) {
                    (Ok(a), Ok(b)) => (!l.split || (a.code, &a.nsn, a.src) == (b.code, &b.nsn, b.src)) && (!l.carrier || a.carrier == b.carrier),
                    (Err(a), Err(b)) => !l.error || a == b,
                    _ => !l.error && !l.split,
                };
                // how a worldwide entry among regions reads a number is not decided here
                if !same && !self.plan.by_code.keys().any(|&c| self.mixed(c)) {
                    return self.fail(ctx, imp::case(hint, &s), format!("parsed as {got:?}, the plan says {want:?}"));
                }
                match r {
                    Ok(n) => n,
                    Err(_) => return,
                }
            }
            Err(Boom(p)) => return self.fail(ctx, imp::case(hint, &s), p),
        };
        // what is reported has to fit the number that was read, whatever was written
        let m = imp::num(&n);
        let look = self.look;
        // nor what it claims
        if spec::region(&self.plan, m.code, &m.nsn).is_some_and(|t| t.id == "001") && self.mixed(m.code) {
            return;
        }
        let r = guard(&s, || {
            let ty = spec::number_type(&self.plan, m.code, &m.nsn);
            let got = n.number_type_with(&self.db);
            if look.ty && imp::ty(got) != Some(ty) {
                return Some(format!("type {got:?}, the plan says {ty:?}"));
            }
            let valid = ty != spec::Ty::Unknown;
            if look.ty && (n.is_valid_with(&self.db) != valid || ph::is_valid_with(&self.db, &n) != valid) {
                return Some(format!("valid {}, the plan says {valid}", !valid));
            }
            let region = spec::region(&self.plan, m.code, &m.nsn).map(|t| t.id.as_str());
            let got = n.metadata(&self.db).map(|m| m.id());
            if look.region && got != region {
                return Some(format!("region {got:?}, the plan says {region:?}"));
            }
            if formats && look.format {
                for mode in spec::MODES {
                    let want = spec::format(&self.plan, &m, mode).unwrap();
                    let got = n.format_with(&self.db).mode(imp::mode(mode)).to_string();
                    let again = ph::format_with(&self.db, &n).mode(imp::mode(mode)).to_string();
                    if got != want || again != want {
                        return Some(format!("{mode:?} {got:?}, the plan says {want:?}"));
                    }
                }
            }
            None
        });
        match r {
            Ok(None) => (),
            Ok(Some(d)) | Err(d) => self.fail(ctx, imp::case(hint, &s), format!("{m:?}: {d}")),
        }
    }
}

impl World {
    /// Parse one digit string under a hint that is no region of this plan: what
    /// is written with its calling code needs none, the rest means nothing.
    fn stranger(&self, ctx: &Ctx, h: &str, plus: bool, digits: &str) {
        if self.plan.by_id(h).is_some() || !(self.look.split || self.look.error) {
            return;
        }
        let hint = Some(imp::id(h));
        let s = if plus { format!("+{digits}") } else { digits.to_string() };
        let got = match imp::parse_with(&self.db, hint, &s) {
            Ok(r) => r.as_ref().map(imp::num).map_err(|e| *e),
            Err(Boom(p)) => return self.fail(ctx, imp::case(hint, &s), p),
        };
        if plus && !digits.starts_with('0') {
            let want = want(&self.plan, None, true, digits);
            if (self.look.split || got.is_err() && want.is_err()) && got != want {
                self.fail(ctx, imp::case(hint, &s), format!("parsed as {got:?}, the plan says {want:?}"));
            }
        } else if self.look.split && got.is_ok() {
            self.fail(ctx, imp::case(hint, &s), format!("parsed as {got:?}, but the plan does not know the region"));
        }
    }
}

fn strings(alpha: &[u8], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for &a in alpha {
                let s = format!("{}{}", out[i], a as char);
                out.push(s);
            }
        }
        from = to;
    }
    out
}

/// Long strings: every beginning of up to three digits, continued to every length.
fn longs() -> Vec<String> {
    let starts = strings(b"0123", 3);
    let tails = ["2130213021302130213", "0000000000000000000", "3122331212133221123"];
    let mut v = std::collections::BTreeSet::new();
    for s in &starts {
        for t in tails {
            v.extend((8..=19).map(|n| format!("{s}{}", &t[..n - s.len()])));
        }
    }
    v.into_iter().collect()
}

pub fn custom(ctx: &Ctx) {
    dialling(ctx, ALL);
    transforms(ctx, ALL);
    patterns(ctx, ALL);
    shared(ctx, ALL);
    worldwide(ctx, ALL);
    codes(ctx, ALL);
    categories(ctx, ALL);
    formatting(ctx);
    testing(ctx);
}

/// All ways to dial in small regions of every kind.
pub fn dialling(ctx: &Ctx, look: Look) {
    let prefixes = [
        "",
        " nationalPrefix=\"0\"",
        " nationalPrefix=\"0\" nationalPrefixForParsing=\"0(1\\d)?\"",
        " nationalPrefixForParsing=\"0|(2\\d{2})$\" nationalPrefixTransformRule=\"3$1\"",
        " nationalPrefix=\"1\" nationalPrefixForParsing=\"(1\\d)?2\"",
        " nationalPrefix=\"0\" nationalPrefixForParsing=\"0?(?:(2\\d)1)?\" nationalPrefixTransformRule=\"3$1\"",
        " nationalPrefix=\"0\" nationalPrefixForParsing=\"(0|1)?(2)?\" nationalPrefixTransformRule=\"$2\"",
    ];
    let generals = ["[23]\\d{2,4}", "\\d{3,5}", "0?[1-9]\\d{2,3}"];
    let lengths = ["<possibleLengths national=\"[3-5]\"/>", "<possibleLengths national=\"3,5\"/>", "<possibleLengths national=\"[4-5]\" localOnly=\"3\"/>", ""];
    let idds = [" internationalPrefix=\"00\"", " internationalPrefix=\"0(?:0|1[12])\"", ""];
    let mut worlds = vec![];
    for (a, p) in prefixes.iter().enumerate() {
        for (b, g) in generals.iter().enumerate() {
            for (c, l) in lengths.iter().enumerate() {
                for (d, i) in idds.iter().enumerate() {
                    worlds.extend(world(
                        ctx,
                        look,
                        format!("dialling {a}{b}{c}{d}"),
                        &format!(
                            "<territory id=\"FR\" countryCode=\"3\"{i}{p}><generalDesc><nationalNumberPattern>{g}</nationalNumberPattern>{l}</generalDesc><mobile><nationalNumberPattern>3\\d{{2,4}}</nationalNumberPattern></mobile><fixedLine><nationalNumberPattern>[12]\\d{{3}}</nationalNumberPattern></fixedLine></territory><territory id=\"US\" countryCode=\"1\" internationalPrefix=\"011\" nationalPrefix=\"1\"><generalDesc><nationalNumberPattern>[23]\\d{{3}}</nationalNumberPattern><possibleLengths national=\"4\" localOnly=\"3\"/></generalDesc></territory>"
                        ),
                    ));
                }
            }
        }
    }
    let mut words = strings(b"0123", if ctx.quick() { 7 } else { 9 });
    ctx.bound(format!("{} regions (prefixes x patterns x lengths x dialling prefixes), each with all strings of up to {} of the digits 0 to 3, with and without +, with both hints and none", worlds.len(), words.last().unwrap().len()));
    let long = longs();
    ctx.bound(format!("each also with {} strings of 8 to 19 digits: every beginning of up to three digits, continued in three ways", long.len()));
    words.extend(long);
    ctx.sample(|| worlds[worlds.len() / 2].text.clone());
    ctx.add((worlds.len() * words.len()) as u64, (worlds.len() * words.len()) as u64);
    let jobs: Vec<(usize, usize)> = (0..worlds.len()).flat_map(|w| (0..words.len()).step_by(256).map(move |k| (w, k))).collect();
    ctx.par(&jobs, |&(w, k)| {
        for s in &words[k..(k + 256).min(words.len())] {
            for h in [None, Some("FR"), Some("US")] {
                for plus in [false, true] {
                    worlds[w].check(ctx, h, plus, s, false);
                }
            }
            for h in ["AU", "RU", "CU"] {
                for plus in [false, true] {
                    worlds[w].stranger(ctx, h, plus, s);
                }
            }
            ctx.trace(12);
        }
    });
}

/// All small patterns, as the prefix to dial abroad and as the national one.
pub fn patterns(ctx: &Ctx, look: Look) {
    let toks = ["0", "1", "\\d", "0?", "(1)?", "[02]", "(\\d)"];
    let mut words: Vec<Vec<String>> = vec![vec![String::new()]];
    for k in 0..3 {
        let next = words[k].iter().flat_map(|a| toks.iter().map(move |t| format!("{a}{t}"))).collect();
        words.push(next);
    }
    let q = ctx.quick();
    let mut pats: Vec<String> = words[1..].concat();
    let two = words[1..if q { 2 } else { 3 }].concat();
    for a in &words[1..3].concat() {
        for b in &two {
            pats.push(format!("{a}|{b}"));
            pats.push(format!("{b}|{a}"));
            pats.push(format!("(?:{a}|{b})1"));
        }
    }
    pats.sort();
    pats.dedup();
    let strs = strings(b"0123", if q { 5 } else { 6 });
    ctx.bound(format!("all {} patterns of up to three of seven elements and of alternatives of them as the prefix to dial abroad and as the national prefix, each with all strings of up to {} of the digits 0 to 3", pats.len(), if q { 5 } else { 6 }));
    let jobs: Vec<(usize, usize)> = (0..pats.len()).flat_map(|p| (0..2).map(move |r| (p, r))).collect();
    ctx.add((jobs.len() * strs.len()) as u64, (jobs.len() * strs.len()) as u64);
    ctx.par(&jobs, |&(p, r)| {
        let general = ["[23]\\d{2,4}", "\\d{3,5}", "[03]\\d{1,3}"][(p + r) % 3];
        let with = [format!("internationalPrefix=\"{}\" nationalPrefix=\"0\"", pats[p]), format!("internationalPrefix=\"00\" nationalPrefixForParsing=\"{}\"", pats[p])];
        let Some(w) = world(
            ctx,
            look,
            format!("patterns {}/{r}", pats[p]),
            &format!(
                "<territory id=\"FR\" countryCode=\"3\" {}><generalDesc><nationalNumberPattern>{general}</nationalNumberPattern><possibleLengths national=\"[3-5]\"/></generalDesc></territory>",
                with[r]
            ),
        ) else {
            return;
        };
        for s in &strs {
            w.check(ctx, Some("FR"), false, s, false);
            if s.len() < 4 {
                w.check(ctx, Some("FR"), true, s, false);
                w.check(ctx, None, true, s, false);
            }
        }
        ctx.trace(strs.len() as u64);
    });
}

/// All ways to write what becomes of a national prefix.
pub fn transforms(ctx: &Ctx, look: Look) {
    let prefixes = ["0", "0(1\\d)?", "(0)(\\d)", "0(?:(1)|(2))", "(\\d)3", "0(\\d)?(\\d)", "(0)?(1)?(2)?", "(0|1)|(2)", "0|12", "(?:0(1))?(2|3)"];
    let toks = ["$0", "$1", "$2", "$3", "3", "2", "0"];
    let mut rules: Vec<String> = vec![];
    let mut level = vec![String::new()];
    for _ in 0..3 {
        level = level.iter().flat_map(|a| toks.iter().map(move |t| format!("{a}{t}"))).collect();
        rules.extend(level.iter().cloned());
    }
    let q = ctx.quick();
    let words = strings(b"0123", if q { 5 } else { 7 });
    let jobs: Vec<(usize, usize)> = (0..prefixes.len()).flat_map(|p| (0..rules.len()).map(move |r| (p, r))).collect();
    ctx.bound(format!("{} prefixes with {} rules for what becomes of them (every one of up to three of seven elements), each with all strings of up to {} of the digits 0 to 3, with and without +, with a hint and none", prefixes.len(), rules.len(), if q { 5 } else { 7 }));
    ctx.add((jobs.len() * words.len()) as u64, (jobs.len() * words.len() * 3) as u64);
    ctx.par(&jobs, |&(p, r)| {
        let general = ["[23]\\d{2,4}", "\\d{3,5}"][(p + r) % 2];
        let Some(w) = world(
            ctx,
            look,
            format!("transforms {p}/{r}"),
            &format!(
                "<territory id=\"FR\" countryCode=\"3\" internationalPrefix=\"00\" nationalPrefixForParsing=\"{}\" nationalPrefixTransformRule=\"{}\"><generalDesc><nationalNumberPattern>{general}</nationalNumberPattern><possibleLengths national=\"[3-5]\"/></generalDesc></territory>",
                prefixes[p], rules[r]
            ),
        ) else {
            return;
        };
        for s in &words {
            w.check(ctx, Some("FR"), false, s, false);
            if s.len() < 5 {
                w.check(ctx, Some("FR"), true, &format!("3{s}"), false);
                w.check(ctx, None, true, &format!("3{s}"), false);
            }
        }
        ctx.trace(words.len() as u64 * 3);
    });
}

/// All ways to share a calling code.
pub fn shared(ctx: &Ctx, look: Look) {
    let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let leads = ["", " leadingDigits=\"2\"", " leadingDigits=\"[23]|12\""];
    let mut worlds = vec![];
    // a worldwide entry next to regions as well
    for (a, order) in orders.iter().chain(&orders).enumerate() {
        let ids = [["US", "CA", "BS"], ["001", "CA", "BS"]][a / 6];
        for main in 0..4 {
            for l1 in 0..3 {
                for l2 in 0..3 {
                    for g in ["[123]\\d{3}", "[13]\\d{2,3}"] {
                        let terr: Vec<String> = (0..3)
                            .map(|i| {
                                let lead = [leads[0], leads[l1], leads[l2]][i];
                                let pat = [g, "2\\d{2,3}", "(?:12|3\\d)\\d{2}"][i];
                                let main = if main == i + 1 { " mainCountryForCode=\"true\"" } else { "" };
                                format!("<territory id=\"{}\" countryCode=\"1\" internationalPrefix=\"00\" nationalPrefix=\"0\"{lead}{main}><generalDesc><nationalNumberPattern>{pat}</nationalNumberPattern><possibleLengths national=\"{}\"/></generalDesc><fixedLine><nationalNumberPattern>{pat}</nationalNumberPattern></fixedLine></territory>", ids[i], ["[3-4]", "3,4", "4"][i])
                            })
                            .collect();
                        let text: String = order.iter().map(|&i| terr[i].as_str()).collect();
                        worlds.extend(world(ctx, look, format!("shared {a}{main}{l1}{l2}{g}"), &text));
                    }
                }
            }
        }
    }
    let words = strings(b"0123", if ctx.quick() { 5 } else { 7 });
    ctx.bound(format!("{} databases of three regions (one of them worldwide in half) sharing a calling code (orders x main region x leading digits), each with all strings of up to {} of the digits 0 to 3", worlds.len(), words.last().unwrap().len()));
    ctx.add((worlds.len() * words.len()) as u64, (worlds.len() * words.len()) as u64);
    ctx.par(&worlds, |w| {
        for s in &words {
            w.check(ctx, None, true, &format!("1{s}"), false);
            for h in ["US", "CA", "BS"] {
                w.check(ctx, Some(h), false, s, false);
            }
            ctx.trace(4);
        }
    });
}

/// Calling codes that begin with others.
pub fn codes(ctx: &Ctx, look: Look) {
    let all = ["1", "2", "3", "12", "21", "31", "121", "213", "312"];
    let ids = ["FR", "DE", "GB"];
    let mut worlds = vec![];
    for a in 0..all.len() {
        for b in a + 1..all.len() {
            for c in b + 1..all.len() {
                for k in 0..if ctx.quick() { 2 } else { 4 } {
                    let own = [a, b, c];
                    let text: String = (0..3)
                        .map(|i| {
                            let len = ["4,6", "[2-5]", "5", "[3-4]"][(a + i + k) % 4];
                            let pat = ["\\d{4}(?:\\d\\d)?", "[12]\\d{1,4}", "\\d{5}", "[23]\\d{2,3}"][(a + i + k) % 4];
                            let np = ["", " nationalPrefix=\"0\"", " nationalPrefix=\"1\""][(b + i) % 3];
                            let lead = ["", " leadingDigits=\"3\""][(c + i) % 2];
                            format!("<territory id=\"{}\" countryCode=\"{}\" internationalPrefix=\"{}\"{np}{lead}><generalDesc><nationalNumberPattern>{pat}</nationalNumberPattern><possibleLengths national=\"{len}\"/></generalDesc></territory>", ids[i], all[own[(i + k) % 3]], ["00", "0[12]", "30"][(c + i) % 3])
                        })
                        .collect();
                    worlds.extend(world(ctx, look, format!("codes {} {} {} {k}", all[a], all[b], all[c]), &text));
                }
            }
        }
    }
    let mut words = strings(b"0123", if ctx.quick() { 6 } else { 8 });
    ctx.bound(format!("{} databases of three regions whose calling codes can begin with one another, each with all strings of up to {} of the digits 0 to 3", worlds.len(), words.last().unwrap().len()));
    let long = longs();
    ctx.bound(format!("each also with {} strings of 8 to 19 digits: every beginning of up to three digits, continued in three ways", long.len()));
    words.extend(long);
    ctx.add((worlds.len() * words.len()) as u64, (worlds.len() * words.len()) as u64);
    ctx.par(&worlds, |w| {
        for s in &words {
            w.check(ctx, None, true, s, false);
            w.check(ctx, None, false, s, false);
            for h in ids {
                w.check(ctx, Some(h), false, s, false);
            }
            w.check(ctx, Some("FR"), true, s, false);
            ctx.trace(6);
        }
    });
}

/// Calling codes that belong to no region, next to one that does.
pub fn worldwide(ctx: &Ctx, look: Look) {
    // codes the built-in database gives to nobody in particular, to regions, to nobody
    let codes = [("800", "979"), ("979", "883"), ("33", "808"), ("888", "1"), ("800", "800"), ("999", "87")];
    let cats = ["tollFree", "premiumRate", "sharedCost", "voip", "uan", "mobile", ""];
    let pats = ["[123]\\d{3}", "1\\d{2,3}|2\\d{3}", "0\\d{3}|[12]\\d{2}"];
    let lens = ["<possibleLengths national=\"3,4\"/>", "<possibleLengths national=\"4\"/>", "<possibleLengths national=\"[3-4]\" localOnly=\"2\"/>"];
    let leads = ["", " leadingDigits=\"2\""];
    let prefixes = ["", " nationalPrefix=\"0\"", " nationalPrefix=\"0\" nationalPrefixForParsing=\"0?(3)?\" internationalPrefix=\"00\""];
    let mut worlds = vec![];
    let entry = |id: &str, code: &str, i: usize| {
        let desc = |name: &str, pat: &str, len: &str| format!("<{name}>{len}<nationalNumberPattern>{pat}</nationalNumberPattern></{name}>");
        let cat = cats[i % cats.len()];
        // lengths are listed in one place: what both together, or none at all, say is open
        let len = lens[(i / 4) % 3];
        let (gl, cl) = if cat.is_empty() { (len, "") } else { ("", len) };
        let cat = if cat.is_empty() { String::new() } else { desc(cat, pats[(i / 2) % 3], cl) };
        let formats = ["", "<availableFormats><numberFormat pattern=\"(\\d)(\\d{3})\"><format>$1 $2</format></numberFormat></availableFormats>", "<availableFormats><numberFormat pattern=\"(\\d{2})(\\d{1,2})\"><leadingDigits>[12]</leadingDigits><format>$1-$2</format><intlFormat>$1 $2</intlFormat></numberFormat></availableFormats>"][(i / 3) % 3];
        format!("<territory id=\"{id}\" countryCode=\"{code}\"{}{}>{formats}{}{cat}</territory>", leads[(i / 5) % 2], prefixes[i % 3], desc("generalDesc", pats[i % 3], gl))
    };
    for (a, b) in codes {
        for i in 0..42 {
            let one = entry("001", a, i);
            // an entry there is already would take the place of this one
            let two = if a == b { String::new() } else { entry("001", b, i * 5 + 2) };
            let fr = if [a, b].contains(&"33") { entry("GB", "44", i + 1) } else { entry("FR", "33", i + 1) };
            for (o, text) in [format!("{one}{two}{fr}"), format!("{fr}{two}{one}")].iter().enumerate() {
                worlds.extend(world(ctx, look, format!("worldwide {a} {b} {i} {o}"), text).map(|w| (w, a, b)));
            }
        }
    }
    let mut words = strings(b"0123", if ctx.quick() { 4 } else { 6 });
    ctx.bound(format!("{} databases with worldwide calling codes and a region, each with all strings of up to {} of the digits 0 to 3 in each of them", worlds.len(), words.last().unwrap().len()));
    let long = longs();
    ctx.bound(format!("each also with {} strings of 8 to 19 digits: every beginning of up to three digits, continued in three ways", long.len()));
    words.extend(long);
    ctx.add((worlds.len() * words.len()) as u64, (worlds.len() * words.len()) as u64);
    ctx.par(&worlds, |(w, a, b)| {
        for s in &words {
            for c in [a, b] {
                w.check(ctx, None, true, &format!("{c}{s}"), true);
                for h in ["FR", "GB"] {
                    w.check(ctx, Some(h), true, &format!("{c}{s}"), false);
                    w.check(ctx, Some(h), false, &format!("00{c}{s}"), false);
                }
            }
            for h in ["FR", "GB"] {
                w.check(ctx, Some(h), false, s, true);
            }
            ctx.trace(8);
        }
    });
}

/// All ways in which the categories of a region can overlap.
pub fn categories(ctx: &Ctx, look: Look) {
    const CATS: [&str; 10] = ["fixedLine", "mobile", "pager", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "uan", "voicemail"];
    // a category that means nothing for the type of a number
    const OTHER: [&str; 3] = ["emergency", "noInternationalDialling", ""];
    let mut worlds = vec![];
    let cat = |name: &str, pat: &str, len: &str| format!("<{name}>{len}<nationalNumberPattern>{pat}</nationalNumberPattern></{name}>");
    for (i, a) in CATS.iter().enumerate() {
        for (j, b) in CATS.iter().enumerate() {
            if i == j {
                continue;
            }
            // overlapping, nested, the same; general wider, narrower or apart
            for (k, (pa, pb)) in [("1\\d{2}", "[12]\\d{2}"), ("[12]\\d{1,2}", "1[12]"), ("[12]\\d{2}", "[12]\\d{2}"), ("1|12", "1|12\\d"), ("0?1\\d", "01\\d")].iter().enumerate() {
                for (l, g) in ["\\d{1,4}", "1\\d{2}", "2|3\\d{2}"].iter().enumerate() {
                    let m = (i + j + k + l) % 3;
                    let len = ["", "<possibleLengths national=\"3\"/>", "<possibleLengths national=\"1,3\"/>", "<possibleLengths national=\"[2-3]\" localOnly=\"1\"/>", "<possibleLengths national=\"2,4\"/>"][(i * 3 + j + k + l) % 5];
                    let wide = ["", "<possibleLengths national=\"[1-4]\"/>", "<possibleLengths national=\"2,4\"/>", "<possibleLengths national=\"1,[3-4]\" localOnly=\"2\"/>"][(i + j * 3 + k) % 4];
                    let gen = ["", "<possibleLengths national=\"[1-4]\"/>", "<possibleLengths national=\"1,3\"/>"][(i + j + k / 2) % 3];
                    let other = if OTHER[m].is_empty() { String::new() } else { cat(OTHER[m], "\\d+", "") };
                    let text = format!("<territory id=\"FR\" countryCode=\"33\"><generalDesc>{gen}<nationalNumberPattern>{g}</nationalNumberPattern></generalDesc>{}{other}{}</territory>", cat(a, pa, len), cat(b, pb, wide));
                    worlds.extend(world(ctx, look, format!("categories {a} {b} {k}{l}"), &text));
                }
            }
        }
    }
    let words = strings(b"0123", if ctx.quick() { 4 } else { 5 });
    ctx.bound(format!("{} regions (pairs of categories x overlaps x general patterns), each with all strings of up to {} of the digits 0 to 3", worlds.len(), words.last().unwrap().len()));
    ctx.add((worlds.len() * words.len()) as u64, (worlds.len() * words.len()) as u64);
    ctx.par(&worlds, |w| {
        for s in &words {
            w.check(ctx, None, true, &format!("33{s}"), false);
        }
        ctx.trace(words.len() as u64);
    });
}

/// What a number moves through.
#[derive(Clone, Copy, PartialEq)]
pub enum Way {
    Intl,
    National,
    Hint,
    Idd,
    Shape,
}

/// Round trips in small regions of every kind.
pub fn rounds(ctx: &Ctx, way: Way) {
    let prefixes = [
        "",
        " nationalPrefix=\"0\"",
        " nationalPrefix=\"0\" nationalPrefixForParsing=\"0(1\\d)?\"",
        " nationalPrefixForParsing=\"(2\\d{2})$\" nationalPrefixTransformRule=\"3$1\"",
        " nationalPrefix=\"1\"",
        " nationalPrefix=\"0\" nationalPrefixForParsing=\"0?(?:(2\\d)1)?\" nationalPrefixTransformRule=\"3$1\"",
        " nationalPrefix=\"0\" nationalPrefixForParsing=\"0(?:15(\\d{2}))?\" nationalPrefixTransformRule=\"3$1\"",
        " nationalPrefix=\"02\" nationalPrefixForParsing=\"0(?:2|3(1))\"",
    ];
    let generals = ["[23]\\d{2,4}", "\\d{3,5}", "0?[1-9]\\d{2,3}"];
    let lengths = ["<possibleLengths national=\"[3-5]\"/>", "<possibleLengths national=\"3,5\"/>", "<possibleLengths national=\"[4-5]\" localOnly=\"3\"/>"];
    let formats = [
        "",
        "<numberFormat pattern=\"(\\d)(\\d{2,3})\" nationalPrefixFormattingRule=\"$NP$FG\"><format>$1 $2</format></numberFormat>",
        "<numberFormat pattern=\"(\\d{2})(\\d{2,3})\" nationalPrefixFormattingRule=\"($NP$FG)\"><leadingDigits>[02]</leadingDigits><format>$1-$2</format></numberFormat><numberFormat pattern=\"(\\d)(\\d)(\\d+)\"><format>$1/$2 $3</format></numberFormat>",
        "<numberFormat pattern=\"(\\d{2})(\\d)(\\d+)\" nationalPrefixFormattingRule=\"$NP $FG\" carrierCodeFormattingRule=\"$NP $CC ($FG)\"><format>$1 $2$3</format><intlFormat>$1.$2-$3</intlFormat></numberFormat>",
        "<numberFormat pattern=\"(3)(2\\d)(\\d+)\" nationalPrefixFormattingRule=\"$NP$FG\"><format>$2 1-$3</format><intlFormat>$1 $2 $3</intlFormat></numberFormat><numberFormat pattern=\"(\\d+)\"><format>$1</format><intlFormat>NA</intlFormat></numberFormat>",
    ];
    let mut worlds = vec![];
    for (a, p) in prefixes.iter().enumerate() {
        for (b, g) in generals.iter().enumerate() {
            for (c, l) in lengths.iter().enumerate() {
                for (d, f) in formats.iter().enumerate() {
                    let idd = [" internationalPrefix=\"00\"", " internationalPrefix=\"0(?:0|1[12])\"", " internationalPrefix=\"1(?:1|2\\d)|000\"", ""][(a + b + c + d) % 4];
                    let ext = ["", " preferredExtnPrefix=\" x\"", " preferredExtnPrefix=\"#\""][(a + c + d) % 3];
                    let code = [3, 33, 210][(b + c + d) % 3];
                    worlds.extend(world(
                        ctx,
                        ALL,
                        format!("rounds {a}{b}{c}{d}"),
                        &format!(
                            "<territory id=\"FR\" countryCode=\"{code}\"{idd}{p}{ext}><availableFormats>{f}</availableFormats><generalDesc><nationalNumberPattern>{g}</nationalNumberPattern>{l}</generalDesc><mobile><nationalNumberPattern>[03]\\d{{2,4}}</nationalNumberPattern></mobile><fixedLine><nationalNumberPattern>[12]\\d{{2,3}}</nationalNumberPattern></fixedLine></territory><territory id=\"US\" countryCode=\"1\" internationalPrefix=\"011\" nationalPrefix=\"1\"><generalDesc><nationalNumberPattern>[23]\\d{{3}}</nationalNumberPattern><possibleLengths national=\"4\" localOnly=\"3\"/></generalDesc><fixedLine><nationalNumberPattern>2\\d+</nationalNumberPattern></fixedLine></territory>"
                        ),
                    ));
                }
            }
        }
    }
    let words = strings(b"0123", if ctx.quick() { 6 } else { 8 });
    ctx.bound(format!("{} custom regions (prefixes x patterns x lengths x formats), each with every valid number that any string of up to {} of the digits 0 to 3 is read as", worlds.len(), words.last().unwrap().len()));
    ctx.add((worlds.len() * words.len()) as u64, (worlds.len() * words.len()) as u64);
    let jobs: Vec<(usize, usize)> = (0..worlds.len()).flat_map(|w| (0..words.len()).step_by(512).map(move |k| (w, k))).collect();
    ctx.par(&jobs, |&(w, k)| {
        let w = &worlds[w];
        let fr = &w.plan.terr[0];
        for (i, s) in words[k..(k + 512).min(words.len())].iter().enumerate() {
            for (h, text) in [(None, format!("+{}{s}", fr.code)), (Some("FR"), s.clone())] {
                let h: Hint = h.map(imp::id);
                let ext = ["", "", " ext 4", " x0123"][(i / 5) % 4];
                let text = format!("{text}{ext}");
                let Ok(Ok(n)) = imp::parse_with(&w.db, h, &text) else { continue };
                let a = imp::num(&n);
                // only a number its plan reads in this way and finds valid
                if a.code != fr.code || spec::number_type(&w.plan, a.code, &a.nsn) == spec::Ty::Unknown {
                    continue;
                }
                ctx.trace(1);
                if let Some(d) = round(ctx, w, way, &n, &a) {
                    w.fail(ctx, imp::case(h, &text), format!("{a:?}: {d}"));
                }
            }
        }
    });
}

fn round(ctx: &Ctx, w: &World, way: Way, n: &ph::PhoneNumber, a: &spec::Num) -> Option<String> {
    let fr = &w.plan.terr[0];
    let same = |b: &spec::Num| (a.code, &a.nsn) == (b.code, &b.nsn);
    let digits = format!("{}{}", a.code, a.nsn);
    let reads = |t: Option<&Terr>, plus: bool, d: &str| matches!(spec::parse_digits(&w.plan, t, plus, d), Ok(m) if same(&m));
    let hints = [(None, None), (Some(imp::id("FR")), Some(fr)), (Some(imp::id("US")), w.plan.by_id("US"))];
    match way {
        Way::Intl => {
            for mode in [spec::Mode::E164, spec::Mode::International, spec::Mode::Rfc3966] {
                let text = match imp::format_with(&w.db, n, mode) {
                    Ok(t) => t,
                    Err(Boom(p)) => return Some(p),
                };
                for (h, t) in hints {
                    if !reads(t, true, &digits) {
                        ctx.count("ambiguous_in_the_plan", 1);
                        continue;
                    }
                    match imp::parse_with(&w.db, h, &text) {
                        Ok(Ok(b)) if same(&imp::num(&b)) && (mode == spec::Mode::E164 || imp::num(&b).ext == a.ext) => {
                            let again = imp::format_with(&w.db, &b, mode);
                            if again.as_ref() != Ok(&text) || !b.is_valid_with(&w.db) {
                                return Some(format!("{mode:?} gives {text:?}, read back that prints as {again:?} and is valid: {}", b.is_valid_with(&w.db)));
                            }
                        }
                        r => return Some(format!("{mode:?} gives {text:?}, read back under {h:?} as {:?}", r.map(|r| r.map(|n| imp::num(&n))))),
                    }
                }
            }
        }
        Way::National => {
            let text = match imp::format_with(&w.db, n, spec::Mode::National) {
                Ok(t) => t,
                Err(Boom(p)) => return Some(p),
            };
            let natl = spec::grouped_natl(fr, &a.nsn, a.carrier.as_deref(), None);
            let natl: String = natl.chars().filter(|c| c.is_ascii_digit()).collect();
            if !reads(Some(fr), false, &natl) {
                ctx.count("ambiguous_in_the_plan", 1);
                return None;
            }
            match imp::parse_with(&w.db, Some(imp::id("FR")), &text) {
                Ok(Ok(b)) if same(&imp::num(&b)) && imp::num(&b).ext == a.ext => (),
                r => return Some(format!("nationally {text:?}, read back as {:?}", r.map(|r| r.map(|n| imp::num(&n))))),
            }
        }
        Way::Hint => {
            let text = format!("+{digits}");
            let base = imp::parse_with(&w.db, None, &text).map(|r| r.map(|n| imp::num(&n)));
            for (h, _) in hints {
                let got = imp::parse_with(&w.db, h, &text).map(|r| r.map(|n| imp::num(&n)));
                if got != base {
                    return Some(format!("{text} is read under {h:?} as {got:?}, without as {base:?}"));
                }
            }
        }
        Way::Idd => {
            let text = format!("+{digits}");
            let base = imp::parse_with(&w.db, None, &text);
            for (h, t) in hints {
                let idds = match t {
                    None => vec!["00".to_string()],
                    Some(t) => t.idd.iter().flat_map(|r| crate::rx::Dfa::new(r, false).language(4)).collect(),
                };
                for idd in idds {
                    let dialled = format!("{idd}{digits}");
                    if t.is_some_and(|t| t.idd.as_ref().unwrap().looking_at(&dialled).unwrap()[0].unwrap().1 != idd.len()) {
                        continue;
                    }
                    let got = imp::parse_with(&w.db, h, &dialled);
                    let ok = match (&got, &base) {
                        (Ok(Ok(g)), Ok(Ok(b))) => g == b && imp::src(g.code().source()) == spec::Src::Idd,
                        (Ok(Err(g)), Ok(Err(b))) => g == b,
                        _ => false,
                    };
                    if !ok {
                        return Some(format!("{dialled} is read under {h:?} as {:?}, {text} as {:?}", got.map(|r| r.map(|n| imp::num(&n))), base.map(|r| r.map(|n| imp::num(&n)))));
                    }
                }
            }
        }
        Way::Shape => match guard("shape", || super::trip::shaped(Some(fr), a, &|m| n.format_with(&w.db).mode(m).to_string())) {
            Ok(r) => return r,
            Err(p) => return Some(p),
        },
    }
    None
}

/// All kinds of formats.
pub fn formatting(ctx: &Ctx) {
    let mut kinds = vec![];
    for pat in ["(\\d)(\\d{2,3})", "(\\d{2})(\\d{3})", "(\\d{2})(\\d)(\\d{1,2})"] {
        for lead in ["", "<leadingDigits>2</leadingDigits>", "<leadingDigits>[23]</leadingDigits><leadingDigits>[23]1</leadingDigits>"] {
            for rule in ["", " nationalPrefixFormattingRule=\"$NP$FG\"", " nationalPrefixFormattingRule=\"($NP $FG)\"", " nationalPrefixFormattingRule=\"$FG\"", " nationalPrefixFormattingRule=\"$NP$FG\" nationalPrefixOptionalWhenFormatting=\"true\""] {
                for cc in ["", " carrierCodeFormattingRule=\"$NP$CC $FG\""] {
                    for (f, intl) in [("$1 $2", ""), ("$2-$1", "<intlFormat>NA</intlFormat>"), ("$1 $2", "<intlFormat>$1-$2</intlFormat>")] {
                        let f = if pat.ends_with("2})") && pat.len() > 16 { format!("{f}/$3") } else { f.to_string() };
                        kinds.push(format!("<numberFormat pattern=\"{pat}\"{rule}{cc}>{lead}<format>{f}</format>{intl}</numberFormat>"));
                    }
                }
            }
        }
    }
    let second: Vec<usize> = if ctx.quick() { (0..kinds.len()).step_by(43).collect() } else { (0..kinds.len()).collect() };
    let nsns: Vec<String> = strings(b"123", 5).into_iter().filter(|s| s.len() >= 3).collect();
    ctx.bound(format!("all pairs of one of {} kinds of format and one of {} others, with all numbers of 3 to 5 of the digits 1 to 3, in every mode, with and without carrier and extension", kinds.len(), second.len()));
    let jobs: Vec<(usize, usize)> = (0..kinds.len()).flat_map(|i| second.iter().map(move |&j| (i, j))).collect();
    ctx.add((jobs.len() * nsns.len()) as u64, (jobs.len() * nsns.len() * 4) as u64);
    ctx.sample(|| kinds[77].clone());
    ctx.par(&jobs, |&(i, j)| {
        let ext = ["", " preferredExtnPrefix=\"#\""][(i + j) % 2];
        let def = ["", " nationalPrefixFormattingRule=\"$NP-$FG\"", " carrierCodeFormattingRule=\"$CC/$FG\"", " nationalPrefixOptionalWhenFormatting=\"true\""][(i + j) % 4];
        let Some(w) = world(
            ctx,
            ALL,
            format!("formats {i}/{j}"),
            &format!("<territory id=\"FR\" countryCode=\"33\" internationalPrefix=\"00\" nationalPrefix=\"0\" nationalPrefixForParsing=\"0(4\\d)?\"{ext}{def}><availableFormats>{}{}</availableFormats><generalDesc><nationalNumberPattern>\\d{{3,5}}</nationalNumberPattern><possibleLengths national=\"[3-5]\"/></generalDesc></territory>", kinds[i], kinds[j]),
        ) else {
            return;
        };
        let hint = Some(imp::id("FR"));
        for nsn in &nsns {
            for (text, carrier, ext) in [(format!("+33{nsn}"), None, None), (format!("045{nsn}"), Some("45"), None), (format!("0{nsn} ext 12"), None, Some("12"))] {
                let src = if text.starts_with('+') { spec::Src::Plus } else { spec::Src::Default };
                let want = spec::Num { code: 33, src, nsn: nsn.clone(), ext: ext.map(String::from), carrier: carrier.map(String::from) };
                ctx.trace(4);
                let n = match imp::parse_with(&w.db, hint, &text) {
                    Ok(Ok(n)) if imp::num(&n) == want => n,
                    r => {
                        w.fail(ctx, text, format!("parsed as {:?} instead of {want:?}", r.map(|r| r.map(|n| imp::num(&n)))));
                        continue;
                    }
                };
                for mode in spec::MODES {
                    let want = spec::format(&w.plan, &want, mode).unwrap();
                    match imp::format_with(&w.db, &n, mode) {
                        Ok(got) if got == want => (),
                        got => w.fail(ctx, format!("{text}|{mode:?}"), format!("{got:?}, the plan says {want:?}")),
                    }
                }
                // a format the caller gives, and all orders to say things in
                let m = &want;
                let Some(meta) = w.db.by_id("FR") else { continue };
                let t = &w.plan.terr[0];
                for (f, tf) in meta.formats().iter().zip(&t.formats).chain(meta.international_formats().iter().zip(&t.intl)) {
                    if !tf.pdfa.run(&m.nsn) {
                        continue;
                    }
                    for mode in spec::MODES {
                        let want = spec::format_as(&w.plan, m, mode, Some(tf)).unwrap();
                        let k = imp::mode(mode);
                        let got = guard("format", || {
                            [
                                n.format_with(&w.db).with(f).mode(k).to_string(),
                                n.format_with(&w.db).mode(k).with(f).to_string(),
                                n.format().with(f).database(&w.db).mode(k).to_string(),
                                n.format().mode(k).database(&w.db).with(f).to_string(),
                                ph::format_with(&w.db, &n).with(f).mode(k).to_string(),
                                ph::format(&n).with(f).mode(k).database(&w.db).to_string(),
                            ]
                        });
                        match got {
                            Ok(g) if g.iter().all(|g| *g == want) => (),
                            got => w.fail(ctx, format!("{text}|{mode:?}|given {}", f.format()), format!("{got:?}, the plan says {want:?}")),
                        }
                    }
                }
            }
        }
    });
}

/// Formats with up to nine groups in numbers of up to seventeen digits: all
/// divisions of short numbers, even ones of long numbers, with every kind of
/// separator between them; with or without looking at the plan.
pub fn wide(ctx: &Ctx, shape: bool) {
    let mut cuts: Vec<Vec<usize>> = vec![];
    for n in 3..=8usize {
        for bits in 0..1u32 << (n - 1) {
            let mut v = vec![1];
            for i in 0..n - 1 {
                if bits >> i & 1 == 1 {
                    v.push(1);
                } else {
                    *v.last_mut().unwrap() += 1;
                }
            }
            cuts.push(v);
        }
    }
    for n in 9..=17usize {
        for k in 1..=9 {
            cuts.push((0..k).map(|i| (n + i) / k).collect());
            cuts.push((0..k).map(|i| (n + k - 1 - i) / k).collect());
        }
    }
    let seps = [" ", "-", "/", ".", "", " - ", "\u{2013}", "~", "\u{3000}", ") ", "\u{AD}"];
    let rules = ["", " nationalPrefixFormattingRule=\"$NP$FG\"", " nationalPrefixFormattingRule=\"($NP $FG)\"", " carrierCodeFormattingRule=\"$NP-$CC/$FG\"", " nationalPrefixFormattingRule=\"$NP$FG\" carrierCodeFormattingRule=\"$CC $FG\""];
    let jobs: Vec<(usize, usize)> = (0..cuts.len()).flat_map(|i| (0..if ctx.quick() { 3 } else { 22 }).map(move |j| (i, j))).collect();
    ctx.bound(format!("{} divisions of 3 to 17 digits into groups with {} choices of separators and rules each, each with numbers of 0 to 3 leading zeros, in every mode, with and without carrier and extension of 1 to 7 digits", cuts.len(), jobs.len() / cuts.len()));
    ctx.add(jobs.len() as u64 * 16, jobs.len() as u64 * 64);
    ctx.par(&jobs, |&(i, j)| {
        let cut = &cuts[i];
        let n: usize = cut.iter().sum();
        let pat: String = cut.iter().map(|l| format!("(\\d{{{l}}})")).collect();
        let tpl = |o: usize| {
            // a bracket at the beginning only at home
            let open = if seps[(i + o) % seps.len()] == ") " && o == j && (i + j) % 3 == 2 { "(" } else { "" };
            let mut f = format!("{open}$1");
            for g in 2..=cut.len() {
                let s = if open.is_empty() { seps[(i + o + (g - 2) * (1 + o % 3)) % seps.len()] } else { [") ", "-", " "][(g - 2).min(2)] };
                f += if s == ") " && open.is_empty() { " " } else { s };
                f += &format!("${g}");
            }
            f
        };
        let intl = ["", "<intlFormat>NA</intlFormat>", "@"][(i + j) % 3].replace('@', &format!("<intlFormat>{}</intlFormat>", tpl(j + 5)));
        let lead = ["", "<leadingDigits>[0-5]</leadingDigits>", "<leadingDigits>9</leadingDigits><leadingDigits>[0-9]\\d</leadingDigits>"][(i / 2 + j) % 3];
        let np = ["0", "8", "06", "1"][(i + j) % 4];
        let ext = ["", " preferredExtnPrefix=\"#\"", " preferredExtnPrefix=\" x\"", " preferredExtnPrefix=\" int. \""][(i / 3 + j) % 4];
        let Some(w) = world(
            ctx,
            ALL,
            format!("wide {i}/{j}"),
            &format!("<territory id=\"FR\" countryCode=\"33\" internationalPrefix=\"00\" nationalPrefix=\"{np}\" nationalPrefixForParsing=\"77(1\\d)?\"{ext}><availableFormats><numberFormat pattern=\"{pat}\"{}>{lead}<format>{}</format>{intl}</numberFormat></availableFormats><generalDesc><nationalNumberPattern>[0-6]\\d{{{}}}</nationalNumberPattern><possibleLengths national=\"{n}\"/></generalDesc><mobile><nationalNumberPattern>[0-6]\\d{{{}}}</nationalNumberPattern></mobile></territory>", rules[(i + j) % 5], tpl(j), n - 1, n - 1),
        ) else {
            return;
        };
        for z in 0..4.min(n) {
            let nsn: String = format!("{}{}", "000".get(..z).unwrap(), &"23456543216543265"[..n - z]);
            for carrier in [None, Some("15")] {
                // behind the trunk prefix there have to be 17 digits at most
                for el in [0, 1 + (i + j + z) % 7] {
                    let ext = &"0123456"[7 - el..];
                    let text = match carrier {
                        Some(c) => format!("77{c}{nsn}"),
                        None => format!("+33{nsn}"),
                    };
                    let text = if el > 0 { format!("{text} ext. {ext}") } else { text };
                    let src = if carrier.is_none() { spec::Src::Plus } else { spec::Src::Default };
                    let want = spec::Num { code: 33, src, nsn: nsn.clone(), ext: (el > 0).then(|| ext.to_string()), carrier: carrier.map(String::from) };
                    ctx.trace(4);
                    let n = match imp::parse_with(&w.db, Some(imp::id("FR")), &text) {
                        Ok(Ok(n)) if imp::num(&n) == want => n,
                        r => {
                            w.fail(ctx, text, format!("parsed as {:?} instead of {want:?}", r.map(|r| r.map(|n| imp::num(&n)))));
                            continue;
                        }
                    };
                    if shape {
                        let r = guard("shape", || super::trip::shaped(w.plan.terr.first(), &want, &|m| n.format_with(&w.db).mode(m).to_string()));
                        if let Ok(Some(d)) | Err(d) = r {
                            w.fail(ctx, text, d);
                        }
                        continue;
                    }
                    for mode in spec::MODES {
                        let want = spec::format(&w.plan, &want, mode).unwrap();
                        match imp::format_with(&w.db, &n, mode) {
                            Ok(got) if got == want => (),
                            got => w.fail(ctx, format!("{text}|{mode:?}"), format!("{got:?}, the plan says {want:?}")),
                        }
                    }
                }
            }
        }
    });
}

/// All ways to write a format and the rule for what precedes its first group, for
/// patterns of every kind.
pub fn templates(ctx: &Ctx) {
    let words = |toks: &[&str], max: usize, keep: &dyn Fn(&str) -> bool| -> Vec<String> {
        let mut out: Vec<String> = vec![];
        let mut level = vec![String::new()];
        for _ in 0..max {
            level = level.iter().flat_map(|a| toks.iter().map(move |t| format!("{a}{t}"))).collect();
            out.extend(level.iter().filter(|s| keep(s) && s.trim() == s.as_str()).cloned());
        }
        out.sort();
        out.dedup();
        out
    };
    let q = ctx.quick();
    let group = |s: &str| s.as_bytes().windows(2).any(|w| w[0] == b'$' && w[1].is_ascii_digit());
    let formats = words(&["$1", "$2", "$3", " ", "-", "5", "a", "_", "("], if q { 4 } else { 5 }, &group);
    let rules = words(&["$NP", "$FG", "$CC", " ", "5", "a", "("], if q { 3 } else { 5 }, &|_| true);
    let patterns = [
        r"(\d{2})(\d{2})(\d{2})",
        r"(\d{3})(\d{3})",
        r"(\d)(\d{2,5})",
        r"(\d+)",
        r"\d(\d)\d{2}(\d\d)",
        r"(\d{2})(\d{2})|(\d{3})(\d{3})",
        r"(\d|\d\d)(\d{2}|\d{4})(\d?)",
        r"(\d{2})(\d{2})?(\d{3})?",
        r"(?:(\d{4})|(\d{2}))(\d+)|(\d)(\d{5})",
        r"((\d{2})\d{2})(\d{2})",
        r"(\d{5})(\d{5})",
        r"(\d{2})(\d{3})",
    ];
    let short = ["$1 $2", "$2-$1", "$1", "($1) $2", "$3 $2", "15 $2", "$1a$2", "$25"];
    // (pattern, format, rule, carrier rule)
    let mut kinds: Vec<(usize, String, Option<String>, Option<String>)> = vec![];
    for (i, f) in formats.iter().enumerate() {
        kinds.push((i % 2, f.clone(), [None, Some("$NP$FG".into()), Some("($NP $FG)".into())][i % 3].clone(), [None, Some("$NP-$CC $FG".into())][i / 3 % 2].clone()));
    }
    for (i, r) in rules.iter().enumerate() {
        for (j, f) in short.iter().enumerate() {
            if !r.contains("$CC") {
                // the carrier is for the rule that has it
                kinds.push(((i + j) % patterns.len(), f.to_string(), Some(r.clone()), None));
            }
            kinds.push(((i + j) % 2, f.to_string(), [None, Some("$NP$FG".into())][i % 2].clone(), Some(r.clone())));
        }
    }
    for i in 0..patterns.len() {
        for f in words(&["$0", "$1", "$2", "$3", "$4", "$5", " ", "5"], 3, &group) {
            kinds.push((i, f, Some("$NP$FG".into()), None));
        }
    }
    // every format has numbers of its own
    let docs: Vec<&[(usize, String, Option<String>, Option<String>)]> = kinds.chunks(10).collect();
    ctx.bound(format!("{} ways to write a format (every one of up to {} of nine elements), {} ways to write a rule (every one of up to {} of seven elements) in {} formats, {} kinds of pattern with {} formats each, all with numbers of 4 to 6 digits, in every mode, with and without carrier", formats.len(), if q { 4 } else { 5 }, rules.len(), if q { 3 } else { 5 }, short.len(), patterns.len(), kinds.len() / patterns.len()));
    ctx.add(kinds.len() as u64 * 6, kinds.len() as u64 * 24);
    ctx.par(&docs, |d| {
        let attr = |n: &str, r: &Option<String>| r.as_ref().map_or(String::new(), |r| format!(" {n}=\"{r}\""));
        let np = ["0", "8", "06", ""][d.len() % 4];
        let fs: String = d
            .iter()
            .enumerate()
            .map(|(k, (p, f, r, c))| {
                format!(
                    "<numberFormat pattern=\"{}\"{}{}><leadingDigits>{}</leadingDigits><format>{f}</format></numberFormat>",
                    patterns[*p],
                    attr("nationalPrefixFormattingRule", r),
                    attr("carrierCodeFormattingRule", c),
                    k + 100
                )
            })
            .collect();
        let Some(w) = world(
            ctx,
            ALL,
            format!("templates from {:?}", d[0]),
            &format!("<territory id=\"FR\" countryCode=\"33\" internationalPrefix=\"00\" nationalPrefix=\"{np}\" nationalPrefixForParsing=\"77(1\\d)?\"><availableFormats>{fs}</availableFormats><generalDesc><nationalNumberPattern>\\d{{4,6}}</nationalNumberPattern></generalDesc></territory>"),
        ) else {
            return;
        };
        for k in 0..d.len() {
            for rest in ["4", "46", "469"] {
                for carrier in [None, Some("15")] {
                    let nsn = format!("{}{rest}", k + 100);
                    let text = match carrier {
                        Some(c) => format!("77{c}{nsn}"),
                        None => format!("+33{nsn}"),
                    };
                    let src = if carrier.is_none() { spec::Src::Plus } else { spec::Src::Default };
                    let want = spec::Num { code: 33, src, nsn, ext: None, carrier: carrier.map(String::from) };
                    ctx.trace(4);
                    let n = match imp::parse_with(&w.db, Some(imp::id("FR")), &text) {
                        Ok(Ok(n)) if imp::num(&n) == want => n,
                        r => {
                            w.fail(ctx, text, format!("parsed as {:?} instead of {want:?}", r.map(|r| r.map(|n| imp::num(&n)))));
                            continue;
                        }
                    };
                    for mode in spec::MODES {
                        let want = spec::format(&w.plan, &want, mode).unwrap();
                        match imp::format_with(&w.db, &n, mode) {
                            Ok(got) if got == want => (),
                            got => ctx.violation(format!("{:?}|{text}|{mode:?}", d[k]), format!("{got:?}, the plan says {want:?}")),
                        }
                    }
                }
            }
        }
    });
}

fn write(e: &El, out: &mut String) {
    let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
    out.push_str(&format!("<{}", e.name));
    for (k, v) in &e.attrs {
        out.push_str(&format!(" {k}=\"{}\"", esc(v)));
    }
    if e.kids.is_empty() && e.name == "possibleLengths" {
        out.push_str("/>");
        return;
    }
    out.push('>');
    if e.kids.is_empty() {
        out.push_str(&esc(&e.text));
    }
    e.kids.iter().for_each(|k| write(k, out));
    out.push_str(&format!("</{}>", e.name));
}

/// The numbering plans libphonenumber is tested with.
fn testing(ctx: &Ctx) {
    let text = std::fs::read_to_string("/repo/assets/PhoneNumberMetadataForTesting.xml").unwrap();
    let mut root = xml::parse(&text).unwrap();
    // categories without a pattern are not loadable
    let ts = root.kids.iter_mut().find(|k| k.name == "territories").unwrap();
    for t in ts.kids.iter_mut() {
        t.kids.retain(|k| !["generalDesc", "availableFormats", "references"].contains(&k.name.as_str()) && k.kid("nationalNumberPattern").is_some() || ["generalDesc", "availableFormats"].contains(&k.name.as_str()));
    }
    ts.kids.retain(|t| !t.attr("nationalPrefix").is_some_and(|p| p.contains('~')) && t.kid("generalDesc").is_some_and(|g| g.kid("nationalNumberPattern").is_some()));
    let mut out = String::new();
    ts.kids.iter().for_each(|t| write(t, &mut out));
    let Some(w) = world(ctx, ALL, "testing".into(), &out) else { return };
    let codes: Vec<u16> = w.plan.by_code.keys().copied().collect();
    ctx.bound(format!("the plans of libphonenumber's own test metadata ({} calling codes), explored like the default ones", codes.len()));
    let w = World { text: "(test metadata)".into(), ..w };
    let salts = if ctx.quick() { 1 } else { 8 };
    for salt in 0..salts {
        ctx.par(&codes, |&c| {
            let max = w.plan.regions(c).flat_map(|t| t.lens.last()).max().map_or(15, |&m| m as usize) + 2;
            let e = Product::for_code(&w.plan, c, true).explore(max.min(18), ctx.seed as usize + salt);
            ctx.add(e.states, e.transitions);
            let regions: Vec<&str> = w.plan.regions(c).map(|t| t.id.as_str()).filter(|&i| i != "001").collect();
            for s in e.all() {
                w.check(ctx, None, true, &format!("{c}{s}"), true);
                for r in &regions {
                    ctx.trace(4);
                    w.check(ctx, Some(r), false, &s, true);
                    w.check(ctx, Some(r), false, &format!("{c}{s}"), true);
                    w.check(ctx, Some(r), true, &format!("{c}{s}"), false);
                    if let Some(np) = w.plan.by_id(r).and_then(|t| t.np.as_ref()) {
                        w.check(ctx, Some(r), false, &format!("{np}{s}"), true);
                    }
                }
            }
        });
    }
    let short = strings(b"0123456789", if ctx.quick() { 3 } else { 5 });
    ctx.add(short.len() as u64, short.len() as u64);
    ctx.par(&short, |s| {
        for r in std::iter::once(None).chain(w.plan.terr.iter().filter(|t| t.id != "001").map(|t| Some(t.id.as_str()))) {
            for plus in [false, true] {
                ctx.trace(1);
                w.check(ctx, r, plus, s, false);
            }
        }
    });
}
