//! Product automaton of everything the metadata can say about the national
//! numbers of one calling code.  Its reachable states (paired with the length)
//! partition *all* digit strings up to the bound into classes the numbering
//! plan cannot tell apart; every class gets a concrete witness string.

use crate::meta::Plan;
use crate::rx::Dfa;
use crate::spec;
use std::borrow::Cow;
use std::collections::{BTreeSet, HashMap};

pub struct Product<'a> {
    plan: &'a Plan,
    code: u16,
    comps: Vec<Cow<'a, Dfa>>,
}

/// One layer of the state graph: all states reachable with strings of one length.
struct Layer {
    wit: Vec<String>,
    next: Vec<[u32; 10]>,
}

pub struct Explored {
    pub states: u64,
    pub transitions: u64,
    /// One string per (state, length).
    pub witness: Vec<String>,
    /// The strings of `witness` that are valid numbers.
    pub valid: Vec<String>,
    /// One string per transition out of each state ...
    pub edges: Vec<String>,
    /// ... and, where there is one, a valid number going through it.
    pub through: Vec<String>,
}

impl Explored {
    /// All distinct strings.
    pub fn all(&self) -> Vec<String> {
        let mut s: BTreeSet<&String> = self.witness.iter().collect();
        s.extend(&self.edges);
        s.extend(&self.through);
        s.into_iter().cloned().collect()
    }
    /// All distinct valid numbers.
    pub fn all_valid(&self) -> Vec<String> {
        let mut s: BTreeSet<&String> = self.valid.iter().collect();
        s.extend(&self.through);
        s.into_iter().cloned().collect()
    }
}

impl<'a> Product<'a> {
    pub fn for_code(plan: &'a Plan, code: u16, with_prefixes: bool) -> Product<'a> {
        use Cow::*;
        let mut comps: Vec<Cow<'a, Dfa>> = vec![];
        for t in plan.regions(code) {
            comps.push(Borrowed(&t.general.dfa));
            comps.extend(t.descs.values().map(|d| Borrowed(&d.dfa)));
            comps.extend(t.leading.iter().map(Borrowed));
            if with_prefixes {
                comps.extend(t.npfp.iter().map(|r| Owned(Dfa::new(r, true))));
            }
        }
        if let Some(t) = plan.main(code) {
            for f in &t.formats {
                comps.extend(f.leading.iter().map(Borrowed));
                comps.push(Borrowed(&f.pdfa));
            }
        }
        // drop components with identical tables
        let mut seen = std::collections::HashSet::new();
        comps.retain(|c| seen.insert((c.start, c.next.clone(), c.acc.clone())));
        Product { plan, code, comps }
    }

    pub fn explore(&self, max: usize, salt: usize) -> Explored {
        let start: Vec<u32> = self.comps.iter().map(|c| c.start).collect();
        let mut layers: Vec<Layer> = vec![];
        let mut keys: Vec<Vec<u32>> = vec![start];
        let mut wits = vec![String::new()];
        let (mut states, mut transitions) = (0u64, 0u64);
        for len in 0..=max {
            let mut ids: HashMap<Vec<u32>, u32> = HashMap::new();
            let (mut nk, mut nw) = (vec![], vec![]);
            let mut next = vec![[u32::MAX; 10]; keys.len()];
            if len < max {
                for (i, q) in keys.iter().enumerate() {
                    for k in 0..10 {
                        let d = (k + len * 3 + i + salt + 1) % 10;
                        let t: Vec<u32> =
                            q.iter().zip(&self.comps).map(|(&s, c)| c.next[s as usize][d]).collect();
                        transitions += 1;
                        let n = ids.len() as u32;
                        let id = *ids.entry(t.clone()).or_insert(n);
                        if id == n {
                            nk.push(t);
                            nw.push(format!("{}{d}", wits[i]));
                        }
                        next[i][d] = id;
                    }
                }
            }
            states += keys.len() as u64;
            layers.push(Layer { wit: std::mem::replace(&mut wits, nw), next });
            keys = nk;
        }
        // shortest completions to a valid number, from the back
        let ok = |s: &str| spec::number_type(self.plan, self.code, s) != spec::Ty::Unknown;
        let mut valid = vec![];
        let mut tails: Vec<Vec<Option<String>>> = vec![vec![]; layers.len()];
        for l in (0..layers.len()).rev() {
            let t: Vec<Option<String>> = (0..layers[l].wit.len())
                .map(|i| {
                    if ok(&layers[l].wit[i]) {
                        valid.push(layers[l].wit[i].clone());
                        return Some(String::new());
                    }
                    if l + 1 == layers.len() {
                        return None;
                    }
                    (0..10)
                        .map(|k| (k + salt * 7 + i + l) % 10)
                        .filter_map(|d| {
                            tails[l + 1][layers[l].next[i][d] as usize].as_ref().map(|t| format!("{d}{t}"))
                        })
                        .min_by_key(|t| t.len())
                })
                .collect();
            tails[l] = t;
        }
        let (mut edges, mut through) = (vec![], vec![]);
        for l in 0..layers.len() - 1 {
            for i in 0..layers[l].wit.len() {
                for d in 0..10 {
                    let n = layers[l].next[i][d] as usize;
                    let w = format!("{}{d}", layers[l].wit[i]);
                    if let Some(t) = &tails[l + 1][n] {
                        through.push(format!("{w}{t}"));
                    }
                    edges.push(w);
                }
            }
        }
        let witness = layers.into_iter().flat_map(|l| l.wit).filter(|w| !w.is_empty()).collect();
        Explored { states, transitions, witness, valid, edges, through }
    }
}
