//! C25: where there is only one alignment, the two metrics agree.

use crate::case::*;
use crate::driver::{Obs, Prop};
use crate::gen::{self, Src};
use crate::model::{self, Algo, Kind};
use crate::sut;
use serde::{Deserialize, Serialize};

pub struct Single;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SingleCase {
    pub groups: Vec<Vec<(bool, Kind, String)>>,
    pub cand: String,
    pub cfg: Cfg,
}

fn print(groups: &[Vec<(bool, Kind, String)>]) -> String {
    groups
        .iter()
        .map(|g| {
            g.iter()
                .map(|(neg, kind, text)| gen::print_term(*neg, *kind, &text.chars().collect::<Vec<_>>()))
                .collect::<Vec<_>>()
                .join(" | ")
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Where each character of a fuzzy term is, if it is at exactly one place and
/// the gaps never cost more than the characters before them are worth.
fn only_alignment(cfg: Cfg, text: &[char], cand: &[char]) -> Option<Vec<usize>> {
    let sens = model::sensitive(cfg, text);
    let mut pos = Vec::new();
    let mut worth = 0i64;
    for &q in text {
        let mut at = cand.iter().enumerate().filter(|(_, &c)| model::ch_eq(cfg, sens, q, c)).map(|x| x.0);
        let (i, None) = (at.next()?, at.next()) else { return None };
        if let Some(&last) = pos.last() {
            if i <= last {
                return None;
            }
            if i > last + 1 {
                worth -= 3 + (i - last - 2) as i64;
            }
            if worth < 0 {
                return None;
            }
        }
        worth += 16;
        pos.push(i);
    }
    Some(pos)
}

/// `n` characters no two of which can equal each other.
fn distinct(s: &mut Src, n: usize) -> Vec<char> {
    const POOL: &[char] = &[
        'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x',
        'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '/', '_', '-', '.', ',', ':', '\t', ' ', '@', '#', 'я', 'ж',
        'д', 'ы', 'λ', 'σ', 'ω', '日', '本', '語', '🦀', '😀', '٣', '²', 'ⅷ', 'ª', '—', '\u{3000}',
    ];
    let ascii = s.chance(1, 2);
    let mut v: Vec<char> = POOL.iter().copied().filter(|c| !ascii || c.is_ascii()).collect();
    for i in 0..n.min(v.len()) {
        let j = s.range(i, v.len() - 1);
        v.swap(i, j);
    }
    v.truncate(n);
    // Beyond those, ideographs.
    let first = 0x5000 + s.below(0x1000) as u32;
    for i in 0..n.saturating_sub(v.len()) {
        v.push(char::from_u32(first + i as u32).unwrap());
    }
    let keep = v.len().min(4);
    for i in 0..keep {
        let j = s.below(v.len());
        v.swap(i, j);
    }
    for c in &mut v {
        if s.chance(1, 4) {
            *c = gen::flip_case(*c);
        }
    }
    v
}

fn case(s: &mut Src, long: bool) -> SingleCase {
    let cfg = gen::cfg(s);
    let k = match s.weighted(&[if long { 40 } else { 90 }, 20, if long { 60 } else { 2 }]) {
        0 => s.range(1, 10),
        1 => s.range(8, 40),
        _ if long => s.range(60, 1200),
        _ => s.range(60, 140),
    };
    // Whether gaps are few and runs are long.
    let few = s.chance(1, 4);
    let all = distinct(s, k + 4);
    let (text, gap) = all.split_at(k);
    let mut cand = Vec::new();
    let fill = |s: &mut Src, n: usize, cand: &mut Vec<char>| {
        for _ in 0..n {
            cand.push(*s.pick(gap));
        }
    };
    let far = long && k <= 40;
    let lead = if far && s.chance(1, 2) { s.range(65_500, 70_000) } else { s.range(0, 6) };
    fill(s, lead, &mut cand);
    for (i, &c) in text.iter().enumerate() {
        if i > 0 && if few { s.chance(2, k) } else { s.chance(1, 2) } {
            let n = match s.below(8) {
                0..=4 => s.range(1, 3),
                5 | 6 => s.range(2, 14),
                _ => s.range(10, 60),
            };
            fill(s, n, &mut cand);
        }
        cand.push(if s.chance(1, 5) { gen::flip_case(c) } else { c });
    }
    let tail = if far && s.chance(1, 2) { s.range(65_500, 70_000) } else { s.range(0, 6) };
    fill(s, tail, &mut cand);
    // Every other query character, or all, or a run of them.
    let mut groups: Vec<Vec<(bool, Kind, Vec<char>)>> = Vec::new();
    for _ in 0..s.weighted(&[0, 6, 2, 1]) {
        let t: Vec<char> = match s.below(4) {
            0 | 1 => text.to_vec(),
            2 => text.iter().copied().filter(|_| s.chance(2, 3)).collect(),
            _ => {
                let a = s.below(text.len());
                text[a..s.range(a, text.len() - 1) + 1].to_vec()
            }
        };
        let mut g = vec![(false, Kind::Fuzzy, t)];
        if s.chance(1, 6) {
            g.insert(s.below(2), gen::term(s, if long { &cand[..cand.len().min(40)] } else { &cand }));
        }
        groups.push(g);
    }
    if s.chance(1, 4) {
        groups.push(vec![gen::term(s, if long { &cand[cand.len() - cand.len().min(40)..] } else { &cand })]);
    }
    for g in &mut groups {
        g.retain(|(n, k, t)| gen::printable(*n, *k, t));
    }
    groups.retain(|g| !g.is_empty());
    SingleCase {
        groups: groups
            .into_iter()
            .map(|g| g.into_iter().map(|(n, k, t)| (n, k, t.into_iter().collect())).collect())
            .collect(),
        cand: cand.into_iter().collect(),
        cfg,
    }
}

impl Prop for Single {
    type Case = SingleCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "Case: an AND of ORs of terms of any kind, a candidate, a configuration. Fuzzy terms are made of distinct characters that the candidate contains once each, between other characters; cases with a term that can be aligned in several ways, or whose gaps could cost more than what precedes them, are not judged (nor counted as non-trivial). The two metrics must give the same verdict, score and ranges. Non-trivial: judged, a match, and a fuzzy term of two characters or more."
    }
    fn fuzz_runs(&self) -> usize {
        25_000
    }
    fn quick(&self) -> usize {
        60_000
    }
    fn gen(&self, s: &mut Src) -> SingleCase {
        case(s, false)
    }
    fn huge(&self, s: &mut Src) -> Option<SingleCase> {
        Some(case(s, true))
    }
    fn check(&self, c: &SingleCase) -> Result<Obs, String> {
        let cand: Vec<char> = c.cand.chars().collect();
        let (mut gaps, mut long) = (false, false);
        for (neg, kind, text) in c.groups.iter().flatten() {
            let t: Vec<char> = text.chars().collect();
            if !gen::printable(*neg, *kind, &t) {
                return Ok(Obs::default());
            }
            if *kind == Kind::Fuzzy && !neg {
                match only_alignment(c.cfg, &t, &cand) {
                    Some(p) => {
                        long |= p.len() > 1;
                        gaps |= p[p.len() - 1] - p[0] + 1 > p.len();
                    }
                    // What cannot be aligned at all is agreed upon, too.
                    None if !model::accepts_positive(c.cfg, *kind, &t, &cand) => {}
                    None => return Ok(Obs::default()),
                }
            }
        }
        let query = print(&c.groups);
        let [a, b] = [Algo::V1, Algo::V2].map(|a| {
            sut::run(a, c.cfg, &query, false, &c.cand).map(|(s, mut r)| {
                r.sort_by_key(|x| x.start);
                (s, r)
            })
        });
        if a != b {
            return Err(format!("{:?}: query {query:?} candidate {:?}: V1 gives {a:?}, V2 gives {b:?}", c.cfg, c.cand));
        }
        let hit = a.is_some();
        Ok(Obs::new(hit && long)
            .label(hit && gaps, "gaps")
            .label(hit && c.groups.len() > 1, "several terms")
            .label(hit && c.cand.is_ascii(), "ASCII")
            .label(!hit, "no match"))
    }
    fn shrink(&self, c: &SingleCase) -> Vec<SingleCase> {
        let mut out = Vec::new();
        for i in 0..c.groups.len() {
            let mut d = c.clone();
            d.groups.remove(i);
            out.push(d);
            for j in 0..c.groups[i].len() {
                if c.groups[i].len() > 1 {
                    let mut d = c.clone();
                    d.groups[i].remove(j);
                    out.push(d);
                }
                for t in shrink_str(&c.groups[i][j].2) {
                    let mut d = c.clone();
                    d.groups[i][j].2 = t;
                    out.push(d);
                }
            }
        }
        for cand in shrink_str(&c.cand) {
            out.push(SingleCase { cand, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(SingleCase { cfg, ..c.clone() });
        }
        out
    }
}
