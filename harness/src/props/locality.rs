//! C24: only matching characters and the classes around them matter.

use super::basic::ALGOS;
use crate::case::*;
use crate::driver::{Obs, Prop};
use crate::gen::{self, Src};
use crate::model::{self, Kind};
use crate::normtable;
use crate::sut::{self, Ranges};
use serde::{Deserialize, Serialize};

pub struct Locality;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LocalCase {
    pub groups: Vec<Vec<(bool, Kind, String)>>,
    pub cand: String,
    pub cfg: Cfg,
    /// Put in front of the candidate, each followed by `edge`.
    pub fronts: [String; 2],
    pub edge: char,
    pub tail: String,
    /// What candidate characters that match nothing are replaced with.
    pub pool: String,
    /// A permutation of the alphabet: the letter `i` becomes `i * mul + add`.
    pub mul: u8,
    pub add: u8,
    /// Where a long stretch of `edge` is inserted, and by how much it is then
    /// made longer.
    #[serde(default)]
    pub stretch: Option<(usize, usize)>,
}

/// Longer than any alignment of a term can pay for.
fn unaffordable(c: &LocalCase) -> usize {
    c.groups.iter().flatten().map(|t| t.2.chars().count()).max().unwrap_or(0) * 26 + 20
}

const POOL: &[char] = &[
    'q', 'z', 'w', 'k', 'm', 'x', 'Q', 'Z', 'W', 'K', '7', '8', '9', '²', '٣', '½', '-', '_', '.', '%', '#', '~', '\u{1}',
    '(', '/', ',', ':', ';', '|', '\t', '\n', '\u{a0}', '\u{2003}', 'é', 'ß', 'ñ', 'É', 'Ñ', 'я', 'Я', 'ж', 'Ж', '日', '本',
    '語', 'ª', 'ǅ', '🦀', '😀', '—', '\u{301}', '𐐀', '𐐨', 'ⅷ', 'Ⅷ', '１', ' ',
];

fn print(groups: &[Vec<(bool, Kind, String)>], f: impl Fn(char) -> char) -> String {
    groups
        .iter()
        .map(|g| {
            g.iter()
                .map(|(neg, kind, text)| {
                    gen::print_term(*neg, *kind, &text.chars().map(&f).collect::<Vec<_>>())
                })
                .collect::<Vec<_>>()
                .join(" | ")
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Whether a candidate character matches none of the query's, under any case
/// rule.
fn foreign(c: &LocalCase, text: &[char], x: char) -> bool {
    text.iter().all(|&q| !model::ch_eq(c.cfg, false, q, x) && !model::ch_eq(c.cfg, true, q, x))
}

fn query_chars(c: &LocalCase) -> Vec<char> {
    let mut v: Vec<char> = c.groups.iter().flatten().flat_map(|t| t.2.chars()).collect();
    v.sort_unstable();
    v.dedup();
    v
}

fn ok(c: &LocalCase) -> bool {
    let q = query_chars(c);
    c.fronts.iter().chain([&c.tail]).all(|s| s.chars().all(|x| foreign(c, &q, x)))
        && foreign(c, &q, c.edge)
        && (c.mul as usize) % 2 == 1
        && c.mul as usize % 13 != 0
        && c.groups.iter().all(|g| {
            !g.is_empty()
                && g.iter().all(|(neg, kind, t)| gen::printable(*neg, *kind, &t.chars().collect::<Vec<_>>()))
        })
}

fn fill(s: &mut Src, c: &mut LocalCase, long: bool) {
    let q = query_chars(c);
    let free: Vec<char> = POOL.iter().copied().filter(|&x| foreign(c, &q, x)).collect();
    c.edge = *s.pick(&free);
    let junk = |s: &mut Src| -> String {
        let a: Vec<char> = (0..s.range(1, 4)).map(|_| *s.pick(&free)).collect();
        let n = match s.weighted(&[4, 3, 1]) {
            0 => s.range(0, 4),
            1 => s.range(0, 40),
            _ => s.range(0, 300),
        };
        let n = if long && s.chance(1, 2) { s.range(60_000, 70_000) } else { n };
        (0..n).map(|_| *s.pick(&a)).collect()
    };
    c.fronts = [junk(s), junk(s)];
    c.tail = junk(s);
    c.pool = (0..s.range(1, 12)).map(|_| *s.pick(&free)).collect();
    if s.chance(1, 3) && unaffordable(c) < 1100 {
        let n = c.cand.chars().count();
        let at = if s.chance(1, 2) {
            // The candidate once more, with matches on both sides.
            let mut again: String = c.cand.chars().map(|x| if s.chance(1, 8) { gen::flip_case(x) } else { x }).collect();
            if s.chance(1, 2) {
                again.insert(0, *s.pick(&['/', ' ', '-', 'x']));
            }
            c.cand.push_str(&again);
            n
        } else {
            s.range(0, n)
        };
        let extra = if long { s.range(4000, 70_000) } else { s.range(1, 40) };
        c.stretch = Some((at, extra));
    }
    c.mul = *s.pick(&[1, 3, 5, 7, 9, 11, 15, 17, 19, 21, 23, 25]);
    c.add = s.below(26) as u8;
}

fn sorted(mut r: Ranges) -> Ranges {
    r.sort_by_key(|x| x.start);
    r
}

fn run(a: model::Algo, cfg: Cfg, q: &str, cand: &str) -> Option<(i64, Ranges)> {
    sut::run(a, cfg, q, false, cand).map(|(s, r)| (s, sorted(r)))
}

impl Prop for Locality {
    type Case = LocalCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "Case: an AND of ORs of terms, a candidate, a configuration. Five edits that leave verdict, score and matched characters as they were: (1) characters that match no query character appended (no suffix or equality term); (2) two different such strings with the same last character put in front (no prefix or equality term; compared with each other); (3) candidate characters that match no query character replaced by others of the same class; (4) letters and digits permuted alike in query and candidate (no character that folds or normalizes to an ASCII letter); (5) a stretch of one such character, already longer than any alignment can pay for, made longer (FzfV1 pays for it once for each fuzzy term spanning it). Some cases with strings of 60000 characters. Non-trivial: the candidate matches a query with text and an edit changed it."
    }
    fn fuzz_runs(&self) -> usize {
        20_000
    }
    fn quick(&self) -> usize {
        60_000
    }
    fn gen(&self, s: &mut Src) -> LocalCase {
        let cand: Vec<char> = gen::candidate(s).chars().collect();
        let n = match s.weighted(&[6, 3, 1]) {
            0 => 1,
            1 => 2,
            _ => s.range(3, 5),
        };
        let groups = (0..n)
            .map(|_| {
                (0..if s.chance(1, 5) { 2 } else { 1 })
                    .map(|_| gen::term(s, &cand))
                    .filter(|(neg, kind, t)| gen::printable(*neg, *kind, t))
                    .map(|(neg, kind, t)| (neg, kind, t.into_iter().collect()))
                    .collect::<Vec<_>>()
            })
            .filter(|g: &Vec<_>| !g.is_empty())
            .collect();
        let mut c = LocalCase {
            groups,
            cand: cand.into_iter().collect(),
            cfg: gen::cfg(s),
            fronts: Default::default(),
            edge: '日',
            tail: String::new(),
            pool: String::new(),
            mul: 1,
            add: 0,
            stretch: None,
        };
        fill(s, &mut c, false);
        c
    }
    fn huge(&self, s: &mut Src) -> Option<LocalCase> {
        if s.chance(1, 2) {
            let mut c = self.gen(s);
            fill(s, &mut c, true);
            return Some(c);
        }
        let (groups, cand) = gen::huge_groups(s);
        let mut c = LocalCase {
            groups: groups
                .into_iter()
                .map(|g| g.into_iter().map(|(n, k, t)| (n, k, t.into_iter().collect())).collect())
                .collect(),
            cand: cand.into_iter().collect(),
            cfg: gen::cfg(s),
            fronts: Default::default(),
            edge: '日',
            tail: String::new(),
            pool: String::new(),
            mul: 1,
            add: 0,
            stretch: None,
        };
        fill(s, &mut c, true);
        Some(c)
    }
    fn check(&self, c: &LocalCase) -> Result<Obs, String> {
        if !ok(c) {
            return Ok(Obs::default());
        }
        let query = print(&c.groups, |x| x);
        let text = query_chars(c);
        let has = |k: &[Kind]| c.groups.iter().flatten().any(|t| k.contains(&t.1));
        let pool: Vec<char> = c.pool.chars().collect();
        let swapped: String = c
            .cand
            .chars()
            .enumerate()
            .map(|(i, x)| {
                if pool.is_empty() || x == ' ' || !foreign(c, &text, x) {
                    return x;
                }
                let class = model::class(c.cfg.scheme, x);
                (0..pool.len())
                    .map(|k| pool[(i + k) % pool.len()])
                    .find(|&y| y != ' ' && y != x && foreign(c, &text, y) && model::class(c.cfg.scheme, y) == class)
                    .unwrap_or(x)
            })
            .collect();
        // A character that equals an ASCII letter or digit only if that letter
        // is the right one would not survive a permutation.
        let tied = |x: char| {
            !x.is_ascii() && (normtable::base(x) != x || normtable::base(model::lower(x)).is_ascii() || x.to_lowercase().chain(x.to_uppercase()).any(|y| y.is_ascii()))
        };
        let permute = !c.cand.chars().chain(text.iter().copied()).any(tied);
        let perm = |x: char| match x {
            'a'..='z' => (b'a' + ((x as u8 - b'a') as usize * c.mul as usize + c.add as usize).rem_euclid(26) as u8) as char,
            'A'..='Z' => (b'A' + ((x as u8 - b'A') as usize * c.mul as usize + c.add as usize).rem_euclid(26) as u8) as char,
            '0'..='9' => (b'0' + ((x as u8 - b'0' + c.add) % 10)) as char,
            x => x,
        };
        let (mut hit, mut appended, mut prepended, mut replaced, mut renamed, mut lengthened) = (false, false, false, false, false, false);
        for a in ALGOS {
            let base = run(a, c.cfg, &query, &c.cand);
            let matched = base.is_some();
            hit |= matched;
            let at = |q: &str, cand: &str, got: &dyn std::fmt::Debug, than: &str, old: &dyn std::fmt::Debug| {
                format!("{a:?} {:?}: query {query:?} candidate {than:?} gives {old:?}, query {q:?} candidate {cand:?} gives {got:?}", c.cfg)
            };
            if !c.tail.is_empty() && !has(&[Kind::Suffix, Kind::Equal]) {
                let cand = format!("{}{}", c.cand, c.tail);
                let got = run(a, c.cfg, &query, &cand);
                if got != base {
                    return Err(at(&query, &cand, &got, &c.cand, &base));
                }
                appended |= matched;
            }
            if c.fronts[0] != c.fronts[1] && !has(&[Kind::Prefix, Kind::Equal]) {
                let full = [0, 1].map(|i| format!("{}{}{}", c.fronts[i], c.edge, c.cand));
                let got = [0, 1].map(|i| run(a, c.cfg, &query, &full[i]));
                let rel = [0, 1].map(|i| {
                    let n = c.fronts[i].len() + c.edge.len_utf8();
                    got[i].as_ref().map(|(s, r)| {
                        (*s, r.iter().map(|x| x.start.wrapping_sub(n)..x.end.wrapping_sub(n)).collect::<Vec<_>>())
                    })
                });
                if rel[0] != rel[1] {
                    return Err(at(&query, &full[1], &got[1], &full[0], &got[0]));
                }
                prepended |= got[0].is_some();
            }
            let cover = |cand: &str, got: &Option<(i64, Ranges)>| got.as_ref().map(|(s, r)| (*s, sut::covered(cand, r)));
            if swapped != c.cand {
                let got = run(a, c.cfg, &query, &swapped);
                if cover(&swapped, &got) != cover(&c.cand, &base) {
                    return Err(at(&query, &swapped, &got, &c.cand, &base));
                }
                replaced |= matched;
            }
            if let Some((pos, extra)) = c.stretch {
                let long = unaffordable(c);
                let chars: Vec<char> = c.cand.chars().collect();
                let pos = pos.min(chars.len());
                let full = [long, long + extra].map(|n| {
                    let (x, y) = chars.split_at(pos);
                    x.iter().chain(&vec![c.edge; n]).chain(y).collect::<String>()
                });
                let got = [0, 1].map(|i| run(a, c.cfg, &query, &full[i]));
                let chars_of = |i: usize| {
                    got[i].as_ref().map(|(_, r)| {
                        sut::covered(&full[i], r).map(|v| {
                            v.into_iter().map(|x| if x >= pos + long { x.wrapping_sub(i * extra) } else { x }).collect::<Vec<_>>()
                        })
                    })
                };
                let score = |i: usize| got[i].as_ref().map_or(0, |x| x.0);
                // FzfV1 pays for it once for each term that spans it.
                let paid = score(0) - score(1);
                let most = if a == model::Algo::V1 {
                    c.groups.iter().filter(|g| g.iter().any(|t| t.1 == Kind::Fuzzy && !t.0)).count()
                } else {
                    0
                };
                let fair = paid % extra.max(1) as i64 == 0 && (0..=most as i64).contains(&(paid / extra.max(1) as i64));
                if chars_of(0) != chars_of(1) || !fair {
                    return Err(at(&query, &full[1], &got[1], &full[0], &got[0]));
                }
                lengthened |= got[0].is_some();
            }
            if permute {
                let (q, cand) = (print(&c.groups, perm), c.cand.chars().map(perm).collect::<String>());
                let got = run(a, c.cfg, &q, &cand);
                if cover(&cand, &got) != cover(&c.cand, &base) {
                    return Err(at(&q, &cand, &got, &c.cand, &base));
                }
                renamed |= matched && cand != c.cand;
            }
        }
        Ok(Obs::new(hit && !text.is_empty() && (appended || prepended || replaced || renamed || lengthened))
            .label(appended, "appended")
            .label(prepended, "put in front")
            .label(replaced, "replaced")
            .label(renamed, "renamed")
            .label(lengthened, "stretch made longer"))
    }
    fn shrink(&self, c: &LocalCase) -> Vec<LocalCase> {
        let mut out = Vec::new();
        for i in 0..c.groups.len() {
            let mut d = c.clone();
            d.groups.remove(i);
            out.push(d);
            for j in 0..c.groups[i].len() {
                if c.groups[i].len() > 1 {
                    let mut d = c.clone();
                    d.groups[i].remove(j);
                    out.push(d);
                }
                for t in shrink_str(&c.groups[i][j].2) {
                    let mut d = c.clone();
                    d.groups[i][j].2 = t;
                    out.push(d);
                }
            }
        }
        for cand in shrink_str(&c.cand) {
            out.push(LocalCase { cand, ..c.clone() });
        }
        for tail in shrink_str(&c.tail) {
            out.push(LocalCase { tail, ..c.clone() });
        }
        for pool in shrink_str(&c.pool) {
            out.push(LocalCase { pool, ..c.clone() });
        }
        for i in 0..2 {
            for f in shrink_str(&c.fronts[i]) {
                let mut d = c.clone();
                d.fronts[i] = f;
                out.push(d);
            }
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(LocalCase { cfg, ..c.clone() });
        }
        if let Some((at, extra)) = c.stretch {
            out.push(LocalCase { stretch: None, ..c.clone() });
            out.extend(shrink_usize(extra).into_iter().filter(|&e| e > 0).map(|e| LocalCase { stretch: Some((at, e)), ..c.clone() }));
            out.extend((at > 0).then(|| LocalCase { stretch: Some((at - 1, extra)), ..c.clone() }));
        }
        if c.mul != 1 {
            out.push(LocalCase { mul: 1, ..c.clone() });
        }
        if c.add != 0 {
            out.push(LocalCase { add: 0, ..c.clone() });
        }
        out.retain(ok);
        out
    }
}
