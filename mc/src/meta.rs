//! The reference model's own view of the numbering-plan metadata.

use crate::rx::{Dfa, Rx};
use crate::xml::{self, El};
use std::collections::BTreeMap;

/// Number categories in the order the library tests them.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    PremiumRate,
    TollFree,
    SharedCost,
    Voip,
    PersonalNumber,
    Pager,
    Uan,
    Voicemail,
    FixedLine,
    Mobile,
    NoIntl,
}
pub const KINDS: [(Kind, &str); 11] = [
    (Kind::PremiumRate, "premiumRate"),
    (Kind::TollFree, "tollFree"),
    (Kind::SharedCost, "sharedCost"),
    (Kind::Voip, "voip"),
    (Kind::PersonalNumber, "personalNumber"),
    (Kind::Pager, "pager"),
    (Kind::Uan, "uan"),
    (Kind::Voicemail, "voicemail"),
    (Kind::FixedLine, "fixedLine"),
    (Kind::Mobile, "mobile"),
    (Kind::NoIntl, "noInternationalDialling"),
];

#[derive(Clone, Debug)]
pub struct Desc {
    pub raw: String,
    pub rx: Rx,
    pub dfa: Dfa,
    pub lens: Vec<u16>,
    pub local: Vec<u16>,
    pub example: Option<String>,
}

impl Desc {
    pub fn matches(&self, s: &str) -> bool {
        (self.lens.is_empty() || self.lens.contains(&(s.len() as u16))) && self.dfa.run(s)
    }
}

#[derive(Clone, Debug)]
pub struct Fmt {
    pub raw_pattern: String,
    pub pattern: Rx,
    pub pdfa: Dfa,
    pub raw_leading: Vec<String>,
    pub leading: Option<Dfa>,
    pub format: String,
    pub np_rule: Option<String>,
    pub np_optional: bool,
    pub cc_rule: Option<String>,
}

impl Fmt {
    pub fn applies(&self, nsn: &str) -> bool {
        self.leading.as_ref().map(|d| d.run(nsn)).unwrap_or(true) && self.pdfa.run(nsn)
    }
}

#[derive(Clone, Debug)]
pub struct Terr {
    pub id: String,
    pub code: u16,
    pub main: bool,
    pub idd_raw: Option<String>,
    pub idd: Option<Rx>,
    pub preferred_idd: Option<String>,
    pub np: Option<String>,
    pub npfp_raw: Option<String>,
    pub npfp: Option<Rx>,
    pub transform: Option<String>,
    pub ext_prefix: Option<String>,
    pub leading_raw: Option<String>,
    pub leading: Option<Dfa>,
    pub portable: bool,
    pub general: Desc,
    /// Possible lengths over all categories (sorted), and local-only ones.
    pub lens: Vec<u16>,
    pub local: Vec<u16>,
    pub descs: BTreeMap<Kind, Desc>,
    pub formats: Vec<Fmt>,
    pub intl: Vec<Fmt>,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub terr: Vec<Terr>,
    /// Territory indices per code, main first, then document order.
    pub by_code: BTreeMap<u16, Vec<usize>>,
}

pub fn lengths(v: &str) -> Result<Vec<u16>, String> {
    let mut out = vec![];
    for p in v.split(',') {
        let p = p.trim();
        if let Some(r) = p.strip_prefix('[') {
            let r = r.strip_suffix(']').ok_or("range")?;
            let (a, b) = r.split_once('-').ok_or("range")?;
            let a: u16 = a.parse().map_err(|_| "len")?;
            let b: u16 = b.parse().map_err(|_| "len")?;
            out.extend(a..=b);
        } else {
            out.push(p.parse().map_err(|_| "len")?);
        }
    }
    Ok(out)
}

fn desc(e: &El) -> Result<Desc, String> {
    let raw = e.kid("nationalNumberPattern").ok_or("no pattern")?.text.clone();
    let rx = Rx::new(&raw)?;
    let (mut lens, mut local) = (vec![], vec![]);
    if let Some(l) = e.kid("possibleLengths") {
        if let Some(n) = l.attr("national") {
            lens = lengths(n)?;
        }
        if let Some(n) = l.attr("localOnly") {
            local = lengths(n)?;
        }
    }
    let dfa = Dfa::new(&rx, false);
    Ok(Desc { raw, rx, dfa, lens, local, example: e.kid("exampleNumber").map(|x| x.text.clone()) })
}

impl Plan {
    pub fn read(xml_text: &str) -> Result<Plan, String> {
        let root = xml::parse(xml_text)?;
        let ts = root.kid("territories").ok_or("territories")?;
        let mut terr = vec![];
        for t in ts.kids("territory") {
            terr.push(territory(t).map_err(|e| format!("{:?}: {e}", t.attr("id")))?);
        }
        let mut by_code: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
        for (i, t) in terr.iter().enumerate() {
            let v = by_code.entry(t.code).or_default();
            if t.main {
                v.insert(0, i);
            } else {
                v.push(i);
            }
        }
        Ok(Plan { terr, by_code })
    }

    pub fn load(path: &str) -> Plan {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        Plan::read(&s).unwrap_or_else(|e| panic!("{path}: {e}"))
    }

    pub fn by_id(&self, id: &str) -> Option<&Terr> {
        self.terr.iter().find(|t| t.id == id)
    }
    pub fn regions(&self, code: u16) -> impl Iterator<Item = &Terr> {
        self.by_code.get(&code).into_iter().flatten().map(move |&i| &self.terr[i])
    }
    pub fn main(&self, code: u16) -> Option<&Terr> {
        self.regions(code).next()
    }
}

fn own(s: Option<&str>) -> Option<String> {
    s.map(|s| s.to_string())
}

fn territory(t: &El) -> Result<Terr, String> {
    let d_np = own(t.attr("nationalPrefixFormattingRule"));
    let d_opt = t.attr("nationalPrefixOptionalWhenFormatting") == Some("true");
    let d_cc = own(t.attr("carrierCodeFormattingRule"));
    let mut formats = vec![];
    let mut intl = vec![];
    if let Some(af) = t.kid("availableFormats") {
        for f in af.kids("numberFormat") {
            let raw_pattern = f.attr("pattern").ok_or("pattern")?.to_string();
            let pattern = Rx::new(&raw_pattern)?;
            let pdfa = Dfa::new(&pattern, false);
            let raw_leading: Vec<String> = f.kids("leadingDigits").map(|l| l.text.clone()).collect();
            let leading = match raw_leading.last() {
                Some(l) => Some(Dfa::new(&Rx::new(l)?, true)),
                None => None,
            };
            let fmt = Fmt {
                raw_pattern,
                pattern,
                pdfa,
                raw_leading,
                leading,
                format: f.kid("format").ok_or("format")?.text.clone(),
                np_rule: own(f.attr("nationalPrefixFormattingRule")).or(d_np.clone()),
                np_optional: f
                    .attr("nationalPrefixOptionalWhenFormatting")
                    .map(|v| v == "true")
                    .unwrap_or(d_opt),
                cc_rule: own(f.attr("carrierCodeFormattingRule")).or(d_cc.clone()),
            };
            match f.kid("intlFormat").map(|e| e.text.as_str()) {
                Some("NA") => (),
                Some(x) => {
                    let mut g = fmt.clone();
                    g.format = x.to_string();
                    intl.push(g);
                }
                None => intl.push(fmt.clone()),
            }
            formats.push(fmt);
        }
    }
    let general = desc(t.kid("generalDesc").ok_or("generalDesc")?)?;
    let mut descs = BTreeMap::new();
    let mut lens = vec![];
    let mut local = vec![];
    for (k, n) in KINDS {
        if let Some(e) = t.kid(n) {
            let d = desc(e)?;
            if k != Kind::NoIntl {
                lens.extend(d.lens.iter().copied());
                local.extend(d.local.iter().copied());
            }
            descs.insert(k, d);
        }
    }
    if !general.lens.is_empty() {
        lens = general.lens.clone();
    }
    if !general.local.is_empty() {
        local = general.local.clone();
    }
    lens.sort_unstable();
    lens.dedup();
    local.sort_unstable();
    local.dedup();
    local.retain(|l| !lens.contains(l));
    let rx = |s: Option<&str>| -> Result<Option<Rx>, String> { s.map(Rx::new).transpose() };
    Ok(Terr {
        id: t.attr("id").ok_or("id")?.to_string(),
        code: t.attr("countryCode").ok_or("code")?.parse().map_err(|_| "code")?,
        main: t.attr("mainCountryForCode") == Some("true"),
        idd_raw: own(t.attr("internationalPrefix")),
        idd: rx(t.attr("internationalPrefix"))?,
        preferred_idd: own(t.attr("preferredInternationalPrefix")),
        np: own(t.attr("nationalPrefix")),
        npfp_raw: own(t.attr("nationalPrefixForParsing")),
        npfp: rx(t.attr("nationalPrefixForParsing").or(t.attr("nationalPrefix")))?,
        transform: own(t.attr("nationalPrefixTransformRule")),
        ext_prefix: own(t.attr("preferredExtnPrefix")),
        leading_raw: own(t.attr("leadingDigits")),
        leading: match t.attr("leadingDigits") {
            Some(l) => Some(Dfa::new(&Rx::new(l)?, true)),
            None => None,
        },
        portable: t.attr("mobileNumberPortableRegion") == Some("true"),
        general,
        lens,
        local,
        descs,
        formats,
        intl,
    })
}
