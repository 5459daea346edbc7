//! C18: the distance is an order that ranks better matches first.

use super::basic::ALGOS;
use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::Kind;
use crate::sut::{self, Fz};
use norm::fzf::{FzfDistance, FzfParser};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

pub struct Order;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct OrderCase {
    pub query: String,
    pub plain: bool,
    pub cands: Vec<String>,
    pub cfg: Cfg,
    /// Appended to candidates in the ranking laws.
    pub tail: String,
}

impl Prop for Order {
    type Case = OrderCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Case: a query, 2..6 candidates, a configuration, a tail. The distances of all candidates (both metrics) are compared pairwise: cmp, partial_cmp, the operators, ==, min, max and clamp agree with each other and with the scores (higher score, smaller distance), sorting of any kind is by descending score, the default distance equals the empty query's. Ranking laws on one fuzzy term: a candidate that starts with a query of word characters has the smallest distance of all candidates; appending to a candidate never makes V2's distance larger and leaves V1's unchanged. Exhaustive part: exact terms of up to 1.2 million characters and gaps of up to 9 million, so that scores are millions apart. Non-trivial: at least two candidates match with different distances, or a ranking law applied to a match."
    }
    fn fuzz_runs(&self) -> usize {
        10_000
    }
    fn quick(&self) -> usize {
        72_000
    }
    fn gen(&self, s: &mut Src) -> OrderCase {
        let q = match s.weighted(&[3, 5, 1]) {
            0 => gen::qc(s),
            1 => gen::qc_fuzzy(s),
            _ => gen::qc_contiguous(s),
        };
        let cc = q.cand_chars();
        let mut cands = vec![q.cand.clone()];
        for _ in 0..s.range(1, 4) {
            let mut v = cc.clone();
            for _ in 0..s.range(1, 4) {
                let i = s.below(v.len() + 1);
                v.insert(i, *s.pick(&[' ', '/', '_', 'x', 'A', '1', 'é']));
            }
            cands.push(v.into_iter().collect());
        }
        if s.chance(1, 3) {
            cands.push(gen::candidate(s));
        }
        let a = gen::alphabet(s);
        let tail = (0..s.range(1, 12)).map(|_| *s.pick(&a)).collect();
        OrderCase { query: q.query, plain: q.plain, cands, cfg: q.cfg, tail }
    }
    fn huge(&self, s: &mut Src) -> Option<OrderCase> {
        let q = gen::huge(s);
        let cc = q.cand_chars();
        let mut cands = vec![q.cand];
        for _ in 0..2 {
            let mut v = cc.clone();
            for _ in 0..s.range(1, 300) {
                let i = s.below(v.len() + 1);
                v.insert(i, *s.pick(&[' ', '/', '_', 'x', 'A', '1', 'é']));
            }
            cands.push(v.into_iter().collect());
        }
        // Without the repetitions: the gaps become short.
        let mut v = cc.clone();
        v.dedup();
        cands.push(v.into_iter().collect());
        let n = *s.pick(&[1, 300, 66_000]);
        Some(OrderCase { query: q.query, plain: q.plain, cands, cfg: q.cfg, tail: "-".repeat(n) })
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        8
    }
    /// Scores that are millions apart.
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<OrderCase> {
        let mut out = Vec::new();
        for (k, n) in [70_000, 200_000, 600_000, 1_200_000].into_iter().enumerate() {
            for (l, (unit, kind)) in [("a", "'"), ("aB", "^"), ("é ", "'")].into_iter().enumerate() {
                if (k + 4 * l) % 8 != part {
                    continue;
                }
                let t = unit.repeat(n / unit.chars().count());
                let query = format!("{kind}{} | 'a | é", t.replace(' ', "\\ "));
                let half = t.chars().take(n / 2).collect();
                out.push(OrderCase { query, plain: false, cands: vec![t, "xa".into(), "-é".into(), half], cfg: Cfg::all()[3 * k + l], tail: "-".into() });
            }
        }
        if part < 4 {
            let gap = [70_000, 600_000, 3_000_000, 9_000_000][part];
            let cands = vec![format!("a{}b", "-".repeat(gap)), format!("a{}b", "-".repeat(gap / 3)), "ab".into(), "xaxb".into()];
            out.push(OrderCase { query: "ab".into(), plain: part % 2 == 0, cands, cfg: Cfg::all()[part], tail: "x".into() });
        }
        out
    }
    fn check(&self, c: &OrderCase) -> Result<Obs, String> {
        let e = if c.plain { crate::model::parse_plain(&c.query) } else { crate::model::parse(&c.query) };
        // What shrinking may bring about: matrices that do not fit in memory, and
        // exact terms that take quadratic time.
        let longest = c.cands.iter().map(|x| x.len() + c.tail.len()).max().unwrap_or(0);
        for t in e.groups.iter().flatten() {
            let slow = |x: &String| x.len() >= t.text.len() && !t.text.iter().copied().eq(x.chars().take(t.text.len()));
            let most = if t.kind == Kind::Fuzzy { 40_000_000 } else { 1_000_000_000 };
            if t.text.len().saturating_mul(longest) > most && (t.kind == Kind::Fuzzy || c.cands.iter().any(slow)) {
                return Ok(Obs::default());
            }
        }
        let mut parser = FzfParser::new();
        let query = sut::parse(&mut parser, &c.query, c.plain);
        let mut empty = FzfParser::new();
        let none = empty.parse("");
        let (mut distinct, mut law) = (false, false);
        for a in ALGOS {
            let mut f = Fz::new(a, c.cfg);
            let at = |w: String| format!("{a:?} {:?} query {:?}: {w}", c.cfg, c.query);
            let mut ds: Vec<(FzfDistance, i64, &str)> = Vec::new();
            for cand in &c.cands {
                if let Some(d) = f.dist(query, cand) {
                    ds.push((d, d.into_score(), cand));
                }
            }
            if let Some(d) = f.dist(none, &c.cands[0]) {
                if d != FzfDistance::default() || d.cmp(&FzfDistance::default()) != Ordering::Equal {
                    return Err(at(format!("empty query gives {d:?}")));
                }
                ds.push((d, d.into_score(), "<empty query>"));
            } else {
                return Err(at(format!("the empty query does not match {:?}", c.cands[0])));
            }
            ds.push((FzfDistance::default(), 0, "<default>"));
            for x in &ds {
                for y in &ds {
                    let want = y.1.cmp(&x.1);
                    let agree = x.0.cmp(&y.0) == want
                        && x.0.partial_cmp(&y.0) == Some(want)
                        && (x.0 < y.0) == (want == Ordering::Less)
                        && (x.0 <= y.0) == (want != Ordering::Greater)
                        && (x.0 > y.0) == (want == Ordering::Greater)
                        && (x.0 >= y.0) == (want != Ordering::Less)
                        && (x.0 == y.0) == (want == Ordering::Equal)
                        && (x.0 != y.0) == (want != Ordering::Equal)
                        && (Some(x.0) < Some(y.0)) == (want == Ordering::Less)
                        && Some(x.0).cmp(&Some(y.0)) == want
                        && x.0.min(y.0) == if want == Ordering::Greater { y.0 } else { x.0 }
                        && x.0.max(y.0) == if want == Ordering::Greater { x.0 } else { y.0 };
                    if !agree {
                        return Err(at(format!("{:?} and {:?} (scores {} and {}) do not compare as {want:?}", x.2, y.2, x.1, y.1)));
                    }
                    distinct |= want != Ordering::Equal && !x.2.starts_with('<') && !y.2.starts_with('<');
                }
            }
            // Between two bounds.
            for x in &ds {
                for y in ds.iter().filter(|y| y.1 <= x.1) {
                    for z in &ds {
                        let got = z.0.clamp(x.0, y.0).into_score();
                        if got != z.1.clamp(y.1, x.1) {
                            return Err(at(format!("score {} clamped between {} and {} gives {got}", z.1, y.1, x.1)));
                        }
                    }
                }
            }
            let mut scores: Vec<i64> = ds.iter().map(|d| d.1).collect();
            scores.sort_by(|x, y| y.cmp(x));
            let all: Vec<FzfDistance> = ds.iter().map(|d| d.0).collect();
            let (mut sorted, mut unstable) = (all.clone(), all.clone());
            sorted.sort();
            unstable.sort_unstable();
            let heap = all.iter().copied().collect::<std::collections::BinaryHeap<_>>().into_sorted_vec();
            for got in [sorted, unstable, heap] {
                let got: Vec<i64> = got.into_iter().map(|d| d.into_score()).collect();
                if got != scores {
                    return Err(at(format!("sorting the distances gives the scores {got:?}, not {scores:?}")));
                }
            }
            if all.iter().min().map(|d| d.into_score()) != scores.first().copied()
                || all.iter().max().map(|d| d.into_score()) != scores.last().copied()
            {
                return Err(at(format!("the smallest and largest of the distances are not those of the scores {scores:?}")));
            }
            let mut by_d = ds.clone();
            by_d.sort_by_key(|x| x.0);
            if by_d.windows(2).any(|w| w[0].1 < w[1].1) {
                return Err(at("sorting by distance is not by descending score".into()));
            }
            // Ranking laws.
            let single = e.groups.len() == 1 && e.groups[0].len() == 1;
            if !single || e.groups[0][0].neg || e.groups[0][0].kind != Kind::Fuzzy {
                continue;
            }
            let t: String = e.groups[0][0].text.iter().collect();
            if t.chars().all(|c| c.is_alphanumeric()) && t.chars().all(|c| c.is_ascii() || c.is_alphabetic()) {
                let cand = format!("{t}{}", c.tail);
                let Some(best) = f.dist(query, &cand) else {
                    return Err(at(format!("does not match {cand:?}, which starts with it")));
                };
                law = true;
                for (d, s, other) in ds.iter().filter(|d| !d.2.starts_with('<')) {
                    if d < &best {
                        return Err(at(format!("{other:?} (score {s}) ranks before {cand:?} (score {})", best.into_score())));
                    }
                }
            }
            for (d, s, cand) in ds.iter().filter(|d| !d.2.starts_with('<')) {
                let longer = format!("{cand}{}", c.tail);
                let Some(l) = f.dist(query, &longer) else {
                    return Err(at(format!("matches {cand:?} but not {longer:?}")));
                };
                law = true;
                let ok = match a {
                    crate::model::Algo::V1 => l == *d,
                    crate::model::Algo::V2 => l <= *d,
                };
                if !ok {
                    return Err(at(format!("{cand:?} scores {s}, {longer:?} scores {}", l.into_score())));
                }
            }
        }
        Ok(Obs::new(distinct || law)
            .label(distinct, "different distances")
            .label(law, "ranking law"))
    }
    fn shrink(&self, c: &OrderCase) -> Vec<OrderCase> {
        let mut out = Vec::new();
        if c.cands.len() > 1 {
            for i in 0..c.cands.len() {
                let mut d = c.clone();
                d.cands.remove(i);
                out.push(d);
            }
        }
        for (i, x) in c.cands.iter().enumerate() {
            for y in shrink_str(x) {
                let mut d = c.clone();
                d.cands[i] = y;
                out.push(d);
            }
        }
        for query in shrink_str(&c.query) {
            out.push(OrderCase { query, ..c.clone() });
        }
        for tail in shrink_str(&c.tail) {
            out.push(OrderCase { tail, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(OrderCase { cfg, ..c.clone() });
        }
        out
    }
}
