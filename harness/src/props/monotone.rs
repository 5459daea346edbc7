//! C26: what a weaker query accepts includes what a stronger one accepts.

use super::basic::ALGOS;
use crate::case::*;
use crate::driver::{Obs, Prop};
use crate::gen::{self, Src};
use crate::model::{Algo, Kind};
use crate::sut;
use serde::{Deserialize, Serialize};

pub struct Monotone;

type Groups = Vec<Vec<(bool, Kind, String)>>;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Edit {
    /// A group (modulo their number) left out.
    DropGroup(usize),
    /// An alternative left out of a group of several: the query gets stronger.
    DropAlternative(usize, usize),
    /// A group repeated, or another put behind it: stronger.
    AddGroup(Vec<(bool, Kind, String)>),
    AddAlternative(usize, (bool, Kind, String)),
    /// A term that asks for less: a character fewer, or a freer kind of match.
    Shorter(usize, usize, usize),
    Freer(usize, usize, Kind),
    /// Configurations that let more characters match.
    FreerCase(Case),
    Normalize,
    /// Characters put into the candidate: anywhere, at the start, at the end.
    Insert(usize, String),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MonoCase {
    pub groups: Groups,
    pub cand: String,
    pub cfg: Cfg,
    pub edits: Vec<Edit>,
}

/// Whether everything accepted before is accepted after (`Up`), the other way
/// round (`Down`), or neither.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Dir {
    Up,
    Down,
}

impl Dir {
    fn of(neg: bool) -> Dir {
        if neg {
            Dir::Down
        } else {
            Dir::Up
        }
    }
}

fn fits(t: &(bool, Kind, String)) -> bool {
    gen::printable(t.0, t.1, &t.2.chars().collect::<Vec<_>>())
}

/// The kinds that accept all this one accepts.
fn freer(k: Kind) -> &'static [Kind] {
    match k {
        Kind::Fuzzy => &[],
        Kind::Exact => &[Kind::Fuzzy],
        Kind::Prefix | Kind::Suffix => &[Kind::Exact, Kind::Fuzzy],
        Kind::Equal => &[Kind::Prefix, Kind::Suffix, Kind::Exact, Kind::Fuzzy],
    }
}

/// All terms positive or all negated.
fn polarity(g: &Groups) -> Option<Dir> {
    let mut neg = g.iter().flatten().map(|t| t.0);
    let first = neg.next()?;
    neg.all(|n| n == first).then_some(Dir::of(first))
}

fn apply(c: &MonoCase, e: &Edit) -> Option<(Groups, String, Cfg, Dir)> {
    let (mut g, mut cand, mut cfg) = (c.groups.clone(), c.cand.clone(), c.cfg);
    if g.is_empty() {
        return None;
    }
    let n = g.len();
    let dir = match e {
        Edit::DropGroup(i) => {
            g.remove(i % n);
            Dir::Up
        }
        Edit::DropAlternative(i, j) => {
            let group = &mut g[i % n];
            if group.len() < 2 {
                return None;
            }
            let j = j % group.len();
            group.remove(j);
            Dir::Down
        }
        Edit::AddGroup(x) => {
            if x.is_empty() || !x.iter().all(fits) {
                return None;
            }
            g.push(x.clone());
            Dir::Down
        }
        Edit::AddAlternative(i, t) => {
            if !fits(t) {
                return None;
            }
            g[i % n].push(t.clone());
            Dir::Up
        }
        Edit::Shorter(i, j, k) => {
            let group = &mut g[i % n];
            let j = j % group.len();
            let t = &mut group[j];
            let mut text: Vec<char> = t.2.chars().collect();
            if text.len() < 2 {
                return None;
            }
            let k = match t.1 {
                Kind::Fuzzy => k % text.len(),
                Kind::Exact => (k % 2) * (text.len() - 1),
                Kind::Prefix => text.len() - 1,
                Kind::Suffix => 0,
                Kind::Equal => return None,
            };
            text.remove(k);
            t.2 = text.into_iter().collect();
            if !fits(t) {
                return None;
            }
            Dir::of(t.0)
        }
        Edit::Freer(i, j, kind) => {
            let group = &mut g[i % n];
            let j = j % group.len();
            let t = &mut group[j];
            if !freer(t.1).contains(kind) {
                return None;
            }
            t.1 = *kind;
            if !fits(t) {
                return None;
            }
            Dir::of(t.0)
        }
        Edit::FreerCase(case) => {
            if !matches!((cfg.case, case), (Case::Sensitive, _) | (Case::Smart, Case::Insensitive)) || cfg.case == *case {
                return None;
            }
            cfg.case = *case;
            polarity(&g)?
        }
        Edit::Normalize => {
            if cfg.norm {
                return None;
            }
            cfg.norm = true;
            polarity(&g)?
        }
        Edit::Insert(at, text) => {
            let has = |k: &[Kind]| g.iter().flatten().any(|t| k.contains(&t.1));
            let chars: Vec<char> = cand.chars().collect();
            let at = if has(&[Kind::Equal]) || (has(&[Kind::Prefix]) && has(&[Kind::Suffix])) {
                return None;
            } else if has(&[Kind::Prefix]) {
                chars.len()
            } else if has(&[Kind::Suffix]) {
                0
            } else if has(&[Kind::Exact]) {
                (at % 2) * chars.len()
            } else {
                at % (chars.len() + 1)
            };
            cand = chars[..at].iter().copied().chain(text.chars()).chain(chars[at..].iter().copied()).collect();
            polarity(&g)?
        }
    };
    Some((g, cand, cfg, dir))
}

fn print(groups: &Groups) -> String {
    groups
        .iter()
        .map(|g| {
            g.iter()
                .map(|(neg, kind, text)| gen::print_term(*neg, *kind, &text.chars().collect::<Vec<_>>()))
                .collect::<Vec<_>>()
                .join(" | ")
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn string((n, k, t): (bool, Kind, Vec<char>)) -> (bool, Kind, String) {
    (n, k, t.into_iter().collect())
}

fn edit(s: &mut Src, groups: &Groups, cand: &[char], long: bool) -> Edit {
    let (i, j) = (s.below(groups.len().max(1)), s.below(4));
    match s.below(12) {
        0 => Edit::DropGroup(i),
        1 => Edit::DropAlternative(i, j),
        2 => {
            let n = s.range(1, 2);
            Edit::AddGroup((0..n).map(|_| string(gen::term(s, cand))).collect())
        }
        3 => Edit::AddAlternative(i, string(gen::term(s, cand))),
        4 | 5 => Edit::Shorter(i, j, s.below(64)),
        6 | 7 => Edit::Freer(i, j, *s.pick(&[Kind::Prefix, Kind::Suffix, Kind::Exact, Kind::Fuzzy])),
        8 => Edit::FreerCase(*s.pick(&[Case::Smart, Case::Insensitive])),
        9 => Edit::Normalize,
        _ => {
            let n = if long && s.chance(1, 2) {
                s.range(60_000, 70_000)
            } else if s.chance(1, 10) {
                s.range(1, 300)
            } else {
                s.range(1, 4)
            };
            let a = gen::alphabet(s);
            // A long gap that nothing in it can shorten.
            if !long && s.chance(1, 12) {
                let gap: String = s.pick(&['-', ' ', 'x', '/', 'é', '中']).to_string();
                return Edit::Insert(s.below(512), gap.repeat(s.range(100, 3000)));
            }
            let text = (0..n).map(|_| if !cand.is_empty() && s.chance(1, 3) { *s.pick(cand) } else { *s.pick(&a) }).collect();
            Edit::Insert(s.below(512), text)
        }
    }
}

impl Prop for Monotone {
    type Case = MonoCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "Case: an AND of ORs of terms, a candidate, a configuration, 1..4 edits of them. Each edit says which way acceptance may change: a group left out, an alternative added, a shorter or freer positive term (equal to prefix or suffix, those to exact, exact to fuzzy), case sensitive to smart to insensitive, normalization, or characters inserted where they cannot displace a match keep a match (with negated terms a rejection); the opposite edits keep a rejection. Both metrics, with and without ranges. Non-trivial: the kept verdict was there before the edit."
    }
    fn fuzz_runs(&self) -> usize {
        20_000
    }
    fn quick(&self) -> usize {
        60_000
    }
    fn gen(&self, s: &mut Src) -> MonoCase {
        let cand: Vec<char> = gen::candidate(s).chars().collect();
        let n = match s.weighted(&[6, 3, 1]) {
            0 => 1,
            1 => 2,
            _ => s.range(3, 5),
        };
        let one_way = s.chance(2, 3);
        let negated = s.chance(1, 6);
        let groups: Groups = (0..n)
            .map(|_| {
                (0..if s.chance(1, 5) { s.range(2, 3) } else { 1 })
                    .map(|_| {
                        let (neg, kind, t) = gen::term(s, &cand);
                        string((if one_way { negated } else { neg }, kind, t))
                    })
                    .filter(fits)
                    .collect::<Vec<_>>()
            })
            .filter(|g: &Vec<_>| !g.is_empty())
            .collect();
        let edits = (0..s.range(1, 4)).map(|_| edit(s, &groups, &cand, false)).collect();
        MonoCase { groups, cand: cand.into_iter().collect(), cfg: gen::cfg(s), edits }
    }
    fn huge(&self, s: &mut Src) -> Option<MonoCase> {
        let (groups, cand) = gen::huge_groups(s);
        let groups: Groups = groups.into_iter().map(|g| g.into_iter().map(string).collect()).collect();
        let part = &cand[..cand.len().min(60)];
        let edits = (0..s.range(1, 3)).map(|_| edit(s, &groups, part, true)).collect();
        Some(MonoCase { groups, cand: cand.iter().collect(), cfg: gen::cfg(s), edits })
    }
    fn check(&self, c: &MonoCase) -> Result<Obs, String> {
        if c.groups.iter().any(|g| g.is_empty() || !g.iter().all(fits)) {
            return Ok(Obs::default());
        }
        let query = print(&c.groups);
        let base = ALGOS.map(|a| verdict(a, c.cfg, &query, &c.cand));
        let mut kept = [false; 2];
        let mut kinds = [false; 4];
        for e in &c.edits {
            let Some((g, cand, cfg, dir)) = apply(c, e) else { continue };
            let n = cand.chars().count();
            if g.iter().flatten().any(|t| t.1 == Kind::Fuzzy && t.2.chars().count() * n > 8_000_000) {
                // FzfV2's matrix would not fit.
                continue;
            }
            let q = print(&g);
            for (a, (was, _)) in ALGOS.into_iter().zip(&base) {
                let (now, with_ranges) = verdict(a, cfg, &q, &cand);
                let broken = match dir {
                    Dir::Up => *was && !(now && with_ranges),
                    Dir::Down => !*was && (now || with_ranges),
                };
                if broken {
                    return Err(format!(
                        "{a:?}: query {query:?} candidate {:?} in {:?} is {}, but query {q:?} candidate {cand:?} in {cfg:?} is {} (with ranges {})",
                        c.cand,
                        c.cfg,
                        word(*was),
                        word(now),
                        word(with_ranges)
                    ));
                }
                let premise = *was == (dir == Dir::Up);
                if premise && (q != query || cand != c.cand || cfg != c.cfg) {
                    kept[(dir == Dir::Down) as usize] = true;
                    kinds[match e {
                        Edit::Insert(..) => 0,
                        Edit::Shorter(..) | Edit::Freer(..) => 1,
                        Edit::FreerCase(_) | Edit::Normalize => 2,
                        _ => 3,
                    }] = true;
                }
            }
        }
        Ok(Obs::new(kept[0] || kept[1])
            .label(kept[0], "match kept")
            .label(kept[1], "rejection kept")
            .label(kinds[0], "longer candidate")
            .label(kinds[1], "weaker term")
            .label(kinds[2], "freer configuration")
            .label(kinds[3], "terms added or removed"))
    }
    fn shrink(&self, c: &MonoCase) -> Vec<MonoCase> {
        let mut out: Vec<MonoCase> = shrink_vec(&c.edits, |e| match e {
            Edit::Insert(at, t) => shrink_str(t).into_iter().map(|t| Edit::Insert(*at, t)).collect(),
            Edit::Shorter(i, j, k) if *k > 0 => vec![Edit::Shorter(*i, *j, k - 1)],
            _ => vec![],
        })
        .into_iter()
        .map(|edits| MonoCase { edits, ..c.clone() })
        .collect();
        for i in 0..c.groups.len() {
            let mut d = c.clone();
            d.groups.remove(i);
            out.push(d);
            for j in 0..c.groups[i].len() {
                if c.groups[i].len() > 1 {
                    let mut d = c.clone();
                    d.groups[i].remove(j);
                    out.push(d);
                }
                for t in shrink_str(&c.groups[i][j].2) {
                    let mut d = c.clone();
                    d.groups[i][j].2 = t;
                    out.push(d);
                }
            }
        }
        for cand in shrink_str(&c.cand) {
            out.push(MonoCase { cand, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(MonoCase { cfg, ..c.clone() });
        }
        out
    }
}

fn verdict(a: Algo, cfg: Cfg, q: &str, cand: &str) -> (bool, bool) {
    (sut::score(a, cfg, q, false, cand).is_some(), sut::run(a, cfg, q, false, cand).is_some())
}

fn word(b: bool) -> &'static str {
    if b {
        "matched"
    } else {
        "rejected"
    }
}
