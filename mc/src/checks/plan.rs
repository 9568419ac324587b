//! Properties decided against the numbering-plan model: what a number's digits
//! mean (splitting, carrier, type, region).

use super::custom;
use crate::imp::{self, Boom};
use crate::run::Ctx;
use crate::spec::{self, E};
use crate::univ::{hints, own_hints, Univ};

/// What the reference says about a written digit string; `written` is what
/// stands in the text, so that the minimum of three digits applies to it.
pub fn want(
    p: &crate::meta::Plan,
    t: Option<&crate::meta::Terr>,
    plus: bool,
    digits: &str,
) -> Result<spec::Num, E> {
    if digits.len() < 2 || (digits.len() == 2 && plus) {
        return Err(E::NoNumber);
    }
    spec::parse_digits(p, t, plus, digits)
}

/// The ways to write the national number `w` of `code` in digits, with hints.
fn forms<'a>(u: &'a Univ, code: u16, w: &str) -> Vec<(imp::Hint, Option<&'a crate::meta::Terr>, bool, String)> {
    let mut out = vec![];
    for (h, t) in own_hints(&u.plan, code) {
        out.push((h, t, true, format!("{code}{w}")));
        if let Some(t) = t {
            out.push((h, Some(t), false, w.to_string()));
            out.push((h, Some(t), false, format!("{code}{w}")));
            if let Some(np) = &t.np {
                out.push((h, Some(t), false, format!("{np}{w}")));
                out.push((h, Some(t), false, format!("{code}{np}{w}")));
                out.push((h, Some(t), true, format!("{code}{np}{w}")));
            }
        } else {
            out.push((h, t, false, format!("00{code}{w}")));
            if let Some(np) = u.plan.main(code).and_then(|t| t.np.as_ref()) {
                out.push((h, t, true, format!("{code}{np}{w}")));
            }
        }
    }
    out
}

fn text(plus: bool, digits: &str) -> String {
    if plus {
        format!("+{digits}")
    } else {
        digits.to_string()
    }
}

fn conform(ctx: &Ctx, same: impl Fn(&Result<spec::Num, E>, &Result<spec::Num, E>) -> bool + Sync) {
    let salts = if ctx.quick() { 2 } else { 8 };
    for salt in 0..salts {
        let u = Univ::salted(ctx, true, ctx.seed as usize + salt);
        let words = u.words();
        ctx.par(&words, |(c, w)| {
            for (h, t, plus, digits) in forms(&u, *c, w) {
                let s = text(plus, &digits);
                let want = want(&u.plan, t, plus, &digits);
                ctx.trace(1);
                match imp::pnum(h, &s) {
                    Ok(got) if same(&got, &want) => (),
                    Ok(got) => ctx.violation(imp::case(h, &s), format!("parsed as {got:?}, the plan says {want:?}")),
                    Err(Boom(p)) => ctx.violation(imp::case(h, &s), p),
                }
            }
        });
        ctx.sample(|| format!("{:?}", forms(&u, 44, "2070313000").iter().map(|f| imp::case(f.0, &text(f.2, &f.3))).collect::<Vec<_>>()));
    }
    let agree = |h: imp::Hint, t: Option<&crate::meta::Terr>, u: &crate::meta::Plan, plus: bool, d: &str| {
        let s = text(plus, d);
        let want = want(u, t, plus, d);
        ctx.trace(1);
        match imp::pnum(h, &s) {
            Ok(got) if same(&got, &want) => (),
            Ok(got) => ctx.violation(imp::case(h, &s), format!("parsed as {got:?}, the plan says {want:?}")),
            Err(Boom(p)) => ctx.violation(imp::case(h, &s), p),
        }
    };
    // full numbers under every hint, and behind everything short enough to be a
    // trunk prefix with a carrier code
    let u = Univ::salted(ctx, false, ctx.seed as usize);
    let picks = u.picks();
    let hs = hints(&u.plan);
    ctx.bound(format!("{} valid numbers written in six ways under all {} hints", picks.len(), hs.len()));
    ctx.par(&picks, |(c, w)| {
        for (h, t) in &hs {
            let np = u.plan.main(*c).and_then(|t| t.np.as_deref()).unwrap_or("0");
            for (plus, d) in [
                (false, w.clone()),
                (false, format!("{c}{w}")),
                (false, format!("00{c}{w}")),
                (false, format!("011{c}{np}{w}")),
                (false, format!("{np}{w}")),
                (true, format!("{c}{np}{w}")),
            ] {
                agree(*h, *t, &u.plan, plus, &d);
            }
        }
    });
    let mut before: Vec<(&crate::meta::Terr, usize, u64)> = vec![];
    let depth = |t: &crate::meta::Terr| match (t.npfp.as_ref().is_some_and(|r| r.groups > 0), ctx.quick()) {
        (true, true) => 4,
        (true, false) => 6,
        (false, true) => 2,
        (false, false) => 4,
    };
    for t in u.plan.terr.iter().filter(|t| t.id != "001") {
        for len in 1..=depth(t) {
            before.extend((0..10u64.pow(len as u32)).step_by(100).map(|i| (t, len, i)));
        }
    }
    let mut own: std::collections::HashMap<&str, Vec<&str>> = Default::default();
    for (c, w) in &picks {
        if let Some(t) = spec::region(&u.plan, *c, w) {
            own.entry(&t.id).or_default().push(w);
        }
    }
    ctx.bound("all strings of up to 2 (thorough: 4) digits in front of full numbers of each region, of up to 4 (6) where the trunk prefix rule has groups");
    ctx.par(&before, |&(t, len, i)| {
        let Some(own) = own.get(t.id.as_str()) else { return };
        let h = Some(imp::id(&t.id));
        for i in i..(i + 100).min(10u64.pow(len as u32)) {
            // one number of each length and kind in turn
            for (k, w) in own.iter().enumerate() {
                if len > 2 && (k + i as usize) % 4 != 0 {
                    continue;
                }
                agree(h, Some(t), &u.plan, false, &format!("{i:0len$}{w}"));
                if k % 2 == 0 {
                    agree(None, None, &u.plan, true, &format!("{}{i:0len$}{w}", t.code));
                }
            }
        }
    });
    // all short digit strings under every hint
    let u = crate::meta::Plan::load(crate::univ::XML);
    let max = if ctx.quick() { 4 } else { 6 };
    let mut short: Vec<String> = vec![];
    for len in 1..=max {
        short.extend((0..10u64.pow(len)).map(|i| format!("{i:0len$}", len = len as usize)));
    }
    let hs = hints(&u);
    ctx.bound(format!("all digit strings of up to {max} digits, with and without +, under every region hint and none"));
    ctx.add(short.len() as u64 + 1, short.len() as u64);
    ctx.par(&short, |d| {
        for (h, t) in &hs {
            for plus in [true, false] {
                let s = text(plus, d);
                let want = want(&u, *t, plus, d);
                ctx.trace(1);
                match imp::pnum(*h, &s) {
                    Ok(got) if same(&got, &want) => (),
                    Ok(got) => ctx.violation(imp::case(*h, &s), format!("parsed as {got:?}, the plan says {want:?}")),
                    Err(Boom(p)) => ctx.violation(imp::case(*h, &s), p),
                }
            }
        }
    });
}

/// C07: calling code, national number and source.
pub fn splitting(ctx: &Ctx) {
    conform(ctx, |a, b| match (a, b) {
        (Ok(a), Ok(b)) => (a.code, &a.nsn, a.src) == (b.code, &b.nsn, b.src),
        (Err(_), Err(_)) => true,
        _ => false,
    });
    custom::dialling(ctx, custom::Look { split: true, ..custom::NONE });
    custom::transforms(ctx, custom::Look { split: true, ..custom::NONE });
    custom::patterns(ctx, custom::Look { split: true, ..custom::NONE });
    custom::worldwide(ctx, custom::Look { split: true, ..custom::NONE });
    custom::codes(ctx, custom::Look { split: true, ..custom::NONE });
}

/// C08: the carrier code.
pub fn carriers(ctx: &Ctx) {
    conform(ctx, |a, b| match (a, b) {
        (Ok(a), Ok(b)) => a.carrier == b.carrier,
        _ => true,
    });
    custom::dialling(ctx, custom::Look { carrier: true, ..custom::NONE });
    custom::transforms(ctx, custom::Look { carrier: true, ..custom::NONE });
    custom::patterns(ctx, custom::Look { carrier: true, ..custom::NONE });
}

/// C16: which error.
pub fn errors(ctx: &Ctx) {
    conform(ctx, |a, b| match (a, b) {
        (Ok(_), Ok(_)) => true,
        (a, b) => a.as_ref().err() == b.as_ref().err(),
    });
    custom::dialling(ctx, custom::Look { error: true, ..custom::NONE });
    custom::transforms(ctx, custom::Look { error: true, ..custom::NONE });
    custom::patterns(ctx, custom::Look { error: true, ..custom::NONE });
    custom::worldwide(ctx, custom::Look { error: true, ..custom::NONE });
    custom::codes(ctx, custom::Look { error: true, ..custom::NONE });
}

fn classified(ctx: &Ctx, check: impl Fn(&Univ, &imp::ph::PhoneNumber, &spec::Num) -> Option<String> + Sync) {
    let salts = if ctx.quick() { 6 } else { 24 };
    for salt in 0..salts {
        let u = Univ::salted(ctx, false, ctx.seed as usize + salt);
        let words = u.words();
        ctx.par(&words, |(c, w)| {
            let s = format!("+{c}{w}");
            let n = match imp::parse(None, &s) {
                Ok(Ok(n)) => n,
                _ => return,
            };
            ctx.trace(1);
            let m = imp::num(&n);
            match crate::run::guard(&s, || check(&u, &n, &m)) {
                Ok(None) => (),
                Ok(Some(d)) => ctx.violation(s, d),
                Err(p) => ctx.violation(s, p),
            }
        });
        ctx.sample(|| format!("{:?}", &words[words.len() / 2..words.len() / 2 + 5]));
    }
}

/// C09: number type and validity.
pub fn types(ctx: &Ctx) {
    classified(ctx, |u, n, m| {
        let want = spec::number_type(&u.plan, m.code, &m.nsn);
        let got = n.number_type();
        let got_with = n.number_type_with(&imp::ph::metadata::DATABASE);
        let valid = [n.is_valid(), imp::ph::is_valid(n), n.is_valid_with(&imp::ph::metadata::DATABASE),
            imp::ph::is_valid_with(&imp::ph::metadata::DATABASE, n)];
        if imp::ty(got) != Some(want) || got != got_with {
            return Some(format!("+{} {}: type {got:?} (with the database {got_with:?}), the plan says {want:?}", m.code, m.nsn));
        }
        if valid.iter().any(|&v| v != (want != spec::Ty::Unknown)) {
            return Some(format!("+{} {}: valid {valid:?} but type {want:?}", m.code, m.nsn));
        }
        None
    });
    custom::categories(ctx, custom::Look { ty: true, ..custom::NONE });
    custom::shared(ctx, custom::Look { ty: true, ..custom::NONE });
    custom::worldwide(ctx, custom::Look { ty: true, ..custom::NONE });
}

/// C10: the region.
pub fn regions(ctx: &Ctx) {
    classified(ctx, |u, n, m| {
        let want = spec::region(&u.plan, m.code, &m.nsn);
        let got = n.metadata(&imp::ph::metadata::DATABASE);
        let wid = want.map(|t| t.id.as_str());
        if got.map(|g| g.id()) != wid || got.is_some_and(|g| g.country_code() != m.code) {
            return Some(format!("+{} {}: metadata of {:?}, the plan says {wid:?}", m.code, m.nsn, got.map(|g| (g.id(), g.country_code()))));
        }
        let cid = match n.country().id() {
            Ok(Some(i)) => Some(i.as_ref().to_string()),
            Ok(None) => None,
            Err(_) => Some("001".into()),
        };
        if cid.as_deref() != wid || n.country().code() != m.code {
            return Some(format!("+{} {}: country {cid:?} ({}), the plan says {wid:?}", m.code, m.nsn, n.country().code()));
        }
        None
    });
    custom::shared(ctx, custom::Look { region: true, ..custom::NONE });
    custom::worldwide(ctx, custom::Look { region: true, ..custom::NONE });
}
