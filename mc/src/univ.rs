//! The numbers to explore: the plan of the default database and, per calling
//! code, the explored product automaton.

use crate::imp::{self, Hint};
use crate::meta::{Plan, Terr};
use crate::product::{Explored, Product};
use crate::run::Ctx;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const XML: &str = "/repo/assets/PhoneNumberMetadata.xml";

pub struct Univ {
    pub plan: Plan,
    pub codes: BTreeMap<u16, Explored>,
}

impl Univ {
    /// Explore every calling code up to two digits more than its longest number.
    pub fn new(ctx: &Ctx, prefixes: bool) -> Univ {
        Univ::salted(ctx, prefixes, ctx.seed as usize)
    }

    pub fn salted(ctx: &Ctx, prefixes: bool, salt: usize) -> Univ {
        let plan = Plan::load(XML);
        let codes: Vec<u16> = plan.by_code.keys().copied().collect();
        let out = Mutex::new(BTreeMap::new());
        ctx.par(&codes, |&c| {
            let max = plan.regions(c).flat_map(|t| t.lens.last()).max().map_or(15, |&m| m as usize) + 2;
            let e = Product::for_code(&plan, c, prefixes).explore(max.min(18), salt);
            ctx.add(e.states, e.transitions);
            out.lock().unwrap().insert(c, e);
        });
        ctx.bound(format!(
            "every national number of every calling code up to its longest possible length + 2, modulo the classes the {} metadata patterns distinguish; one string per class, per transition and (valid) through each transition",
            if prefixes { "number, format, region and national-prefix" } else { "number, format and region" }
        ));
        Univ { plan, codes: out.into_inner().unwrap() }
    }

    /// (code, national number) for all explored strings.
    pub fn words(&self) -> Vec<(u16, String)> {
        self.codes.iter().flat_map(|(&c, e)| e.all().into_iter().map(move |w| (c, w))).collect()
    }

    /// (code, national number) for all explored valid numbers.
    pub fn valid(&self) -> Vec<(u16, String)> {
        self.codes.iter().flat_map(|(&c, e)| e.all_valid().into_iter().map(move |w| (c, w))).collect()
    }

    /// A few valid numbers per code: one per region, type and length.
    pub fn picks(&self) -> Vec<(u16, String)> {
        picks(&self.plan, &self.valid())
    }
}

pub fn picks(plan: &Plan, valid: &[(u16, String)]) -> Vec<(u16, String)> {
    let mut seen = std::collections::HashSet::new();
    valid
        .iter()
        .filter(|(c, w)| {
            let r = crate::spec::region(plan, *c, w).map(|t| t.id.as_str()).unwrap_or("").to_string();
            let zeros = w.bytes().take_while(|&b| b == b'0').count();
            seen.insert((*c, r, crate::spec::number_type(plan, *c, w), w.len(), zeros))
        })
        .cloned()
        .collect()
}

/// No hint, and every region.
pub fn hints(plan: &Plan) -> Vec<(Hint, Option<&Terr>)> {
    let mut v: Vec<(Hint, Option<&Terr>)> = vec![(None, None)];
    v.extend(plan.terr.iter().filter(|t| t.id != "001").map(|t| (Some(imp::id(&t.id)), Some(t))));
    v
}

/// No hint, and the regions of one calling code.
pub fn own_hints(plan: &Plan, code: u16) -> Vec<(Hint, Option<&Terr>)> {
    let mut v: Vec<(Hint, Option<&Terr>)> = vec![(None, None)];
    v.extend(plan.regions(code).filter(|t| t.id != "001").map(|t| (Some(imp::id(&t.id)), Some(t))));
    v
}
