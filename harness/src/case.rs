//! Cases: what one evaluation of a property consists of, in a form that can be
//! written to a replay file and shrunk.

use serde::{Deserialize, Serialize};

pub use norm::fzf::FzfScheme;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Case {
    Sensitive,
    Insensitive,
    Smart,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Scheme {
    Default,
    Path,
    History,
}

pub const CASES: [Case; 3] = [Case::Sensitive, Case::Insensitive, Case::Smart];
pub const SCHEMES: [Scheme; 3] = [Scheme::Default, Scheme::Path, Scheme::History];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cfg {
    pub case: Case,
    pub norm: bool,
    pub scheme: Scheme,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { case: Case::Smart, norm: false, scheme: Scheme::Default }
    }
}

impl Cfg {
    pub fn all() -> Vec<Cfg> {
        let mut v = Vec::new();
        for case in CASES {
            for norm in [false, true] {
                for scheme in SCHEMES {
                    v.push(Cfg { case, norm, scheme });
                }
            }
        }
        v
    }
}

/// One query against one candidate.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Qc {
    pub query: String,
    /// Parsed with `parse_not_extended`.
    pub plain: bool,
    pub cand: String,
    pub cfg: Cfg,
}

impl Qc {
    pub fn expr(&self) -> crate::model::Expr {
        if self.plain {
            crate::model::parse_plain(&self.query)
        } else {
            crate::model::parse(&self.query)
        }
    }
    pub fn cand_chars(&self) -> Vec<char> {
        self.cand.chars().collect()
    }
}

// ------------------------------------------------------------- shrinking

/// Smaller variants of a string: chunks removed, then characters simplified.
pub fn shrink_str(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    shrink_vec(&cs, |c| shrink_char(*c)).into_iter().map(|v| v.into_iter().collect()).collect()
}

/// Smaller numbers, the smallest first.
pub fn shrink_usize(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, n / 2, n - n / 4, n - n / 16, n - n / 64, n - n / 256, n - n / 1024];
    v.extend((1..=4).map(|k| n.saturating_sub(k)));
    v.retain(|m| *m < n);
    v.sort();
    v.dedup();
    v
}

pub fn shrink_char(c: char) -> Vec<char> {
    let order = ['a', 'b', 'A', '0', ' ', '/', '_', 'é'];
    // Only ever towards the front of `order`, so that shrinking terminates.
    match order.iter().position(|&o| o == c) {
        Some(i) => order[..i].to_vec(),
        None => order.to_vec(),
    }
}

/// Smaller variants of a sequence.
pub fn shrink_vec<T: Clone>(v: &[T], one: impl Fn(&T) -> Vec<T>) -> Vec<Vec<T>> {
    let n = v.len();
    let mut out = Vec::new();
    if n == 0 {
        return out;
    }
    let mut size = n;
    // Long sequences lose whole chunks first, or there would be too many variants.
    let least = if n > 1500 { n / 64 } else { 1 };
    while size >= least {
        let mut at = 0;
        while at < n {
            let end = (at + size).min(n);
            let mut w = v[..at].to_vec();
            w.extend_from_slice(&v[end..]);
            out.push(w);
            at += size;
        }
        size /= 2;
    }
    if n <= 200 {
        for i in 0..n {
            for x in one(&v[i]) {
                let mut w = v.to_vec();
                w[i] = x;
                out.push(w);
            }
        }
    }
    out
}

pub fn shrink_cfg(c: Cfg) -> Vec<Cfg> {
    let mut out = Vec::new();
    if c.case != Case::Smart {
        out.push(Cfg { case: Case::Smart, ..c });
        if c.case == Case::Insensitive {
            out.push(Cfg { case: Case::Sensitive, ..c });
        }
    }
    if c.norm {
        out.push(Cfg { norm: false, ..c });
    }
    if c.scheme != Scheme::Default {
        out.push(Cfg { scheme: Scheme::Default, ..c });
        if c.scheme == Scheme::History {
            out.push(Cfg { scheme: Scheme::Path, ..c });
        }
    }
    out
}

pub fn shrink_qc(q: &Qc) -> Vec<Qc> {
    let mut out = Vec::new();
    for s in shrink_str(&q.cand) {
        out.push(Qc { cand: s, ..q.clone() });
    }
    for s in shrink_str(&q.query) {
        out.push(Qc { query: s, ..q.clone() });
    }
    for c in shrink_cfg(q.cfg) {
        out.push(Qc { cfg: c, ..q.clone() });
    }
    // The same replacement in both strings keeps them matching.
    let used: std::collections::BTreeSet<char> = q.query.chars().collect();
    for c in used {
        for r in shrink_char(c) {
            let rep = |s: &str| s.replace(c, &r.to_string());
            out.push(Qc { query: rep(&q.query), cand: rep(&q.cand), ..q.clone() });
        }
    }
    if q.query.len() + q.cand.len() < 200 {
        // Remove one character from both.
        let qs: Vec<char> = q.query.chars().collect();
        let cs: Vec<char> = q.cand.chars().collect();
        for i in 0..qs.len() {
            for j in 0..cs.len() {
                if qs[i] == cs[j] {
                    let mut a = qs.clone();
                    a.remove(i);
                    let mut b = cs.clone();
                    b.remove(j);
                    out.push(Qc {
                        query: a.into_iter().collect(),
                        cand: b.into_iter().collect(),
                        ..q.clone()
                    });
                }
            }
        }
    }
    out
}
