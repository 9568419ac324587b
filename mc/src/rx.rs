//! A small regex engine over decimal-digit strings, written for the reference
//! model only (it shares no code with the `regex` crate the library uses).
//!
//! Supported syntax: digits, `\d`, `[...]`, `(...)`, `(?:...)`, `|`, `?`, `*`,
//! `+`, `{m}`, `{m,}`, `{m,n}`, `$`.  Whitespace is ignored (the metadata is
//! written in verbose mode).

#[derive(Clone, Debug)]
pub enum Node {
    Empty,
    Class(u16),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(Box<Node>, usize, Option<usize>),
    Group(usize, Box<Node>),
    End,
}

#[derive(Clone, Debug)]
pub struct Rx {
    pub node: Node,
    pub groups: usize,
    pub src: String,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    pub groups: usize,
}

impl<'a> P<'a> {
    fn alt(&mut self) -> Result<Node, String> {
        let mut v = vec![self.cat()?];
        while self.i < self.s.len() && self.s[self.i] == b'|' {
            self.i += 1;
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
    }
    fn cat(&mut self) -> Result<Node, String> {
        let mut v = Vec::new();
        while self.i < self.s.len() && self.s[self.i] != b'|' && self.s[self.i] != b')' {
            let a = self.atom()?;
            v.push(self.rep(a)?);
        }
        Ok(match v.len() {
            0 => Node::Empty,
            1 => v.pop().unwrap(),
            _ => Node::Cat(v),
        })
    }
    fn rep(&mut self, mut a: Node) -> Result<Node, String> {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'?' => {
                    self.i += 1;
                    a = Node::Rep(Box::new(a), 0, Some(1));
                }
                b'*' => {
                    self.i += 1;
                    a = Node::Rep(Box::new(a), 0, None);
                }
                b'+' => {
                    self.i += 1;
                    a = Node::Rep(Box::new(a), 1, None);
                }
                b'{' => {
                    let e = self.s[self.i..].iter().position(|&c| c == b'}').ok_or("no }")? + self.i;
                    let body = std::str::from_utf8(&self.s[self.i + 1..e]).unwrap();
                    self.i = e + 1;
                    let (lo, hi) = match body.split_once(',') {
                        None => {
                            let n: usize = body.parse().map_err(|_| "bad {}")?;
                            (n, Some(n))
                        }
                        Some((l, "")) => (l.parse().map_err(|_| "bad {}")?, None),
                        Some((l, h)) => (
                            l.parse().map_err(|_| "bad {}")?,
                            Some(h.parse().map_err(|_| "bad {}")?),
                        ),
                    };
                    a = Node::Rep(Box::new(a), lo, hi);
                }
                _ => break,
            }
        }
        Ok(a)
    }
    fn atom(&mut self) -> Result<Node, String> {
        let c = self.s[self.i];
        self.i += 1;
        match c {
            b'0'..=b'9' => Ok(Node::Class(1 << (c - b'0'))),
            b'\\' => {
                let d = *self.s.get(self.i).ok_or("trailing \\")?;
                self.i += 1;
                if d == b'd' {
                    Ok(Node::Class(0x3ff))
                } else {
                    Err(format!("escape {}", d as char))
                }
            }
            b'[' => {
                let mut m = 0u16;
                let mut prev: Option<u8> = None;
                loop {
                    let d = *self.s.get(self.i).ok_or("no ]")?;
                    self.i += 1;
                    match d {
                        b']' => break,
                        b'0'..=b'9' => {
                            m |= 1 << (d - b'0');
                            prev = Some(d);
                        }
                        b'\\' => {
                            if self.s.get(self.i) != Some(&b'd') {
                                return Err("class escape".into());
                            }
                            self.i += 1;
                            m |= 0x3ff;
                            prev = None;
                        }
                        b'-' => {
                            let lo = prev.ok_or("bad range")?;
                            let hi = *self.s.get(self.i).ok_or("bad range")?;
                            self.i += 1;
                            if !hi.is_ascii_digit() || hi < lo {
                                return Err("bad range".into());
                            }
                            for x in lo..=hi {
                                m |= 1 << (x - b'0');
                            }
                            prev = None;
                        }
                        _ => return Err(format!("class char {}", d as char)),
                    }
                }
                Ok(Node::Class(m))
            }
            b'(' => {
                let cap = if self.s[self.i..].starts_with(b"?:") {
                    self.i += 2;
                    None
                } else if self.s[self.i..].starts_with(b"?") {
                    return Err("unsupported group".into());
                } else {
                    self.groups += 1;
                    Some(self.groups)
                };
                let n = self.alt()?;
                if self.s.get(self.i) != Some(&b')') {
                    return Err("no )".into());
                }
                self.i += 1;
                Ok(match cap {
                    Some(g) => Node::Group(g, Box::new(n)),
                    None => n,
                })
            }
            b'$' => Ok(Node::End),
            _ => Err(format!("char {:?}", c as char)),
        }
    }
}

pub type Caps = Vec<Option<(usize, usize)>>;

impl Rx {
    pub fn new(src: &str) -> Result<Rx, String> {
        let clean: String = src.chars().filter(|c| !c.is_whitespace()).collect();
        let mut p = P { s: clean.as_bytes(), i: 0, groups: 0 };
        let node = p.alt()?;
        if p.i != p.s.len() {
            return Err(format!("trailing input in {clean}"));
        }
        let groups = p.groups;
        Ok(Rx { node, groups, src: clean })
    }

    /// Leftmost-first match anchored at the start; captures[0] is the whole.
    pub fn looking_at(&self, s: &str) -> Option<Caps> {
        let mut caps: Caps = vec![None; self.groups + 1];
        let mut end = None;
        let b = s.as_bytes();
        let mut out: Option<Caps> = None;
        m(&self.node, b, 0, &mut caps, &mut |p, c| {
            end = Some(p);
            out = Some(c.clone());
            true
        });
        out.map(|mut c| {
            c[0] = Some((0, end.unwrap()));
            c
        })
    }

    pub fn full(&self, s: &str) -> bool {
        let mut caps: Caps = vec![None; self.groups + 1];
        let b = s.as_bytes();
        m(&self.node, b, 0, &mut caps, &mut |p, _| p == b.len())
    }

    /// Full match with captures.
    pub fn full_caps(&self, s: &str) -> Option<Caps> {
        let mut caps: Caps = vec![None; self.groups + 1];
        let b = s.as_bytes();
        let mut out = None;
        m(&self.node, b, 0, &mut caps, &mut |p, c| {
            if p == b.len() {
                let mut c = c.clone();
                c[0] = Some((0, p));
                out = Some(c);
                true
            } else {
                false
            }
        });
        out
    }
}

fn m(n: &Node, s: &[u8], p: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match n {
        Node::Empty => k(p, caps),
        Node::Class(mask) => {
            if p < s.len() && s[p].is_ascii_digit() && mask >> (s[p] - b'0') & 1 == 1 {
                k(p + 1, caps)
            } else {
                false
            }
        }
        Node::End => {
            if p == s.len() {
                k(p, caps)
            } else {
                false
            }
        }
        Node::Cat(v) => cat(v, s, p, caps, k),
        Node::Alt(v) => {
            for a in v {
                if m(a, s, p, caps, k) {
                    return true;
                }
            }
            false
        }
        Node::Group(g, a) => {
            let old = caps[*g];
            if m(a, s, p, caps, &mut |q, c| {
                let prev = c[*g];
                c[*g] = Some((p, q));
                if k(q, c) {
                    true
                } else {
                    c[*g] = prev;
                    false
                }
            }) {
                true
            } else {
                caps[*g] = old;
                false
            }
        }
        Node::Rep(a, lo, hi) => rep(a, *lo, *hi, s, p, caps, k),
    }
}

fn cat(v: &[Node], s: &[u8], p: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match v.split_first() {
        None => k(p, caps),
        Some((a, rest)) => m(a, s, p, caps, &mut |q, c| cat(rest, s, q, c, k)),
    }
}

fn rep(
    a: &Node,
    lo: usize,
    hi: Option<usize>,
    s: &[u8],
    p: usize,
    caps: &mut Caps,
    k: &mut dyn FnMut(usize, &mut Caps) -> bool,
) -> bool {
    if hi == Some(0) {
        return k(p, caps);
    }
    // greedy
    if m(a, s, p, caps, &mut |q, c| {
        if q == p && lo == 0 {
            return false;
        }
        rep(a, lo.saturating_sub(1), hi.map(|h| h - 1), s, q, c, k)
    }) {
        return true;
    }
    if lo == 0 {
        k(p, caps)
    } else {
        false
    }
}

/// Expand a replacement template (`$1`, `$12`, `$$`) against captures.
pub fn expand(tpl: &str, s: &str, caps: &Caps) -> String {
    let b = tpl.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'$' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let g = (b[i + 1] - b'0') as usize;
            if let Some(Some((x, y))) = caps.get(g) {
                out.push_str(&s[*x..*y]);
            }
            i += 2;
        } else {
            let ch = tpl[i..].chars().next().unwrap();
            out.push(ch);
            i += ch.len_utf8();
        }
    }
    out
}

// ---------------------------------------------------------------- automata

/// A minimised complete DFA over digits.
#[derive(Clone, Debug)]
pub struct Dfa {
    pub start: u32,
    pub next: Vec<[u32; 10]>,
    pub acc: Vec<bool>,
}

struct Nfa {
    eps: Vec<Vec<usize>>,
    on: Vec<Option<(u16, usize)>>,
    end: Vec<Option<usize>>, // edge enabled only at end of input
}

impl Nfa {
    fn new_state(&mut self) -> usize {
        self.eps.push(vec![]);
        self.on.push(None);
        self.end.push(None);
        self.eps.len() - 1
    }
    fn build(&mut self, n: &Node, from: usize) -> usize {
        match n {
            Node::Empty => from,
            Node::Class(m) => {
                let t = self.new_state();
                let f = self.new_state();
                self.eps[from].push(f);
                self.on[f] = Some((*m, t));
                t
            }
            Node::End => {
                let t = self.new_state();
                let f = self.new_state();
                self.eps[from].push(f);
                self.end[f] = Some(t);
                t
            }
            Node::Cat(v) => v.iter().fold(from, |f, a| self.build(a, f)),
            Node::Alt(v) => {
                let t = self.new_state();
                for a in v {
                    let s = self.new_state();
                    self.eps[from].push(s);
                    let e = self.build(a, s);
                    self.eps[e].push(t);
                }
                t
            }
            Node::Group(_, a) => self.build(a, from),
            Node::Rep(a, lo, hi) => {
                let mut f = from;
                for _ in 0..*lo {
                    f = self.build(a, f);
                }
                match hi {
                    Some(h) => {
                        let t = self.new_state();
                        for _ in *lo..*h {
                            self.eps[f].push(t);
                            f = self.build(a, f);
                        }
                        self.eps[f].push(t);
                        t
                    }
                    None => {
                        let l = self.new_state();
                        self.eps[f].push(l);
                        let e = self.build(a, l);
                        self.eps[e].push(l);
                        l
                    }
                }
            }
        }
    }
    fn closure(&self, set: &mut Vec<usize>, at_end: bool) {
        let mut seen = vec![false; self.eps.len()];
        let mut st = std::mem::take(set);
        for &x in &st {
            seen[x] = true;
        }
        while let Some(x) = st.pop() {
            set.push(x);
            let e = if at_end { self.end[x] } else { None };
            for &y in self.eps[x].iter().chain(e.iter()) {
                if !seen[y] {
                    seen[y] = true;
                    st.push(y);
                }
            }
        }
        set.sort_unstable();
    }
}

impl Dfa {
    /// `prefix`: accept every string that has a matching prefix.
    pub fn new(rx: &Rx, prefix: bool) -> Dfa {
        let mut nfa = Nfa { eps: vec![], on: vec![], end: vec![] };
        let s = nfa.new_state();
        let f = nfa.build(&rx.node, s);
        let mut ids = std::collections::HashMap::new();
        let mut sets: Vec<Vec<usize>> = vec![];
        let mut next: Vec<[u32; 10]> = vec![];
        let mut acc = vec![];
        let mut start = vec![s];
        nfa.closure(&mut start, false);
        ids.insert(start.clone(), 0u32);
        sets.push(start);
        let mut i = 0;
        while i < sets.len() {
            let set = sets[i].clone();
            let absorbed = prefix && set.contains(&f);
            let mut e = set.clone();
            nfa.closure(&mut e, true);
            acc.push(e.contains(&f));
            let mut row = [0u32; 10];
            for d in 0..10 {
                let mut t: Vec<usize> = if absorbed {
                    vec![f]
                } else {
                    set.iter()
                        .filter_map(|&x| nfa.on[x].and_then(|(m, t)| (m >> d & 1 == 1).then_some(t)))
                        .collect()
                };
                t.sort_unstable();
                t.dedup();
                nfa.closure(&mut t, false);
                let n = ids.len() as u32;
                let id = *ids.entry(t.clone()).or_insert(n);
                if id == n {
                    sets.push(t);
                }
                row[d] = id;
            }
            next.push(row);
            i += 1;
        }
        Dfa { start: 0, next, acc }.minimise()
    }

    fn minimise(self) -> Dfa {
        let n = self.next.len();
        let mut cls: Vec<u32> = self.acc.iter().map(|&a| a as u32).collect();
        let mut count = 0;
        loop {
            let mut ids = std::collections::HashMap::new();
            let mut new = vec![0u32; n];
            for q in 0..n {
                let mut sig = [0u32; 11];
                sig[10] = cls[q];
                for d in 0..10 {
                    sig[d] = cls[self.next[q][d] as usize];
                }
                let k = ids.len() as u32;
                new[q] = *ids.entry(sig).or_insert(k);
            }
            let c = ids.len();
            cls = new;
            if c == count {
                break;
            }
            count = c;
        }
        let mut next = vec![[0u32; 10]; count];
        let mut acc = vec![false; count];
        for q in 0..n {
            let c = cls[q] as usize;
            acc[c] = self.acc[q];
            for d in 0..10 {
                next[c][d] = cls[self.next[q][d] as usize];
            }
        }
        Dfa { start: cls[self.start as usize], next, acc }
    }

    /// All accepted strings of up to `max` digits.
    pub fn language(&self, max: usize) -> Vec<String> {
        let mut out = vec![];
        let mut todo = vec![(self.start, String::new())];
        // states from which nothing is accepted any more
        let mut live = self.acc.clone();
        loop {
            let n = live.iter().filter(|&&l| l).count();
            for q in 0..live.len() {
                live[q] |= self.next[q].iter().any(|&t| live[t as usize]);
            }
            if live.iter().filter(|&&l| l).count() == n {
                break;
            }
        }
        while let Some((q, w)) = todo.pop() {
            if self.acc[q as usize] {
                out.push(w.clone());
            }
            if w.len() < max {
                for d in 0..10 {
                    let t = self.next[q as usize][d];
                    if live[t as usize] {
                        todo.push((t, format!("{w}{d}")));
                    }
                }
            }
        }
        out.sort();
        out
    }

    pub fn run(&self, s: &str) -> bool {
        let mut q = self.start;
        for b in s.bytes() {
            if !b.is_ascii_digit() {
                return false;
            }
            q = self.next[q as usize][(b - b'0') as usize];
        }
        self.acc[q as usize]
    }
}
