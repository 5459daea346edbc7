//! C09, C10, C11: scores and alignments of V1, V2 and the contiguous terms.

use super::all_strings;
use super::basic::describe;
use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::{self, Algo, Kind};
use crate::sut::{self, Fz};
use norm::fzf::FzfParser;

fn shrink_keep(c: &Qc) -> Vec<Qc> {
    shrink_qc(c)
}

/// Compares one metric with the reference on score and covered characters.
fn against_model(a: Algo, q: &Qc) -> Result<Option<model::Hit>, String> {
    let cc = q.cand_chars();
    let want = model::eval(a, q.cfg, &q.expr(), &cc);
    let mut p = FzfParser::new();
    let query = sut::parse(&mut p, &q.query, q.plain);
    let mut f = Fz::new(a, q.cfg);
    let score = f.dist(query, &q.cand).map(|d| d.into_score());
    let mut r = vec![];
    let score_r = f.dist_ranges(query, &q.cand, &mut r).map(|d| d.into_score());
    if score != want.as_ref().map(|h| h.score) || score_r != score {
        return Err(format!(
            "{}: score {score:?} (with ranges {score_r:?}), reference {:?}",
            describe(a, q),
            want.as_ref().map(|h| (h.score, &h.pos))
        ));
    }
    if let Some(w) = &want {
        let ranges = model::byte_ranges(&cc, &w.pos);
        let mut got = r.clone();
        got.sort_by_key(|x| x.start);
        if got != ranges {
            return Err(format!(
                "{}: ranges {r:?}, the reference aligns with {:?} = {ranges:?}",
                describe(a, q),
                w.pos
            ));
        }
    }
    Ok(want)
}

/// Every text × every candidate of a small scope, spread over `parts`.
fn small_scope(part: usize, parts: usize, alpha: &[char], tmax: usize, cmax: usize, cfgs: &[Cfg]) -> Vec<Qc> {
    let mut out = Vec::new();
    let texts = all_strings(&['a', 'b'], 1, tmax);
    for (i, cand) in all_strings(alpha, 1, cmax).into_iter().enumerate() {
        if i % parts != part {
            continue;
        }
        for t in &texts {
            for &cfg in cfgs {
                out.push(Qc { query: t.clone(), plain: true, cand: cand.clone(), cfg });
            }
        }
    }
    out
}

fn scheme_cfgs() -> Vec<Cfg> {
    SCHEMES.iter().map(|&scheme| Cfg { scheme, ..Cfg::default() }).collect()
}

/// Fuzzy queries with long gaps, several possible alignments and interacting bonuses.
fn gappy(s: &mut Src) -> Qc {
    let seps = ['_', ' ', '/', '-', 'x', '.', ',', 'X', '1', 'é'];
    let k = s.range(2, 5);
    let letters: Vec<char> = (0..k).map(|_| *s.pick(&['a', 'b', 'c', 'A', 'B', '1', 'é'])).collect();
    let mut cand = String::new();
    let rounds = s.range(1, 3);
    for _ in 0..rounds {
        for &l in &letters {
            if s.chance(1, 12) {
                continue;
            }
            match s.weighted(&[4, 3, 2, 1]) {
                0 => {}
                1 => {
                    for _ in 0..s.range(1, 3) {
                        cand.push(*s.pick(&seps));
                    }
                }
                2 => {
                    let f = *s.pick(&seps);
                    for _ in 0..s.range(2, 9) {
                        cand.push(f);
                    }
                }
                _ => {
                    let f = *s.pick(&['x', 'z', '_']);
                    for _ in 0..s.range(8, 45) {
                        cand.push(f);
                    }
                }
            }
            cand.push(if s.chance(1, 6) { gen::flip_case(l) } else { l });
            if s.chance(1, 6) {
                cand.push(l);
            }
        }
    }
    if s.chance(1, 3) {
        for _ in 0..s.range(1, 6) {
            cand.push(*s.pick(&seps));
        }
    }
    if s.chance(1, 8) {
        cand.push('日');
    }
    let query: String = letters.into_iter().collect();
    Qc { query, plain: true, cand, cfg: gen::cfg(s) }
}

fn gen_fuzzy(s: &mut Src) -> Qc {
    if s.chance(1, 60) {
        let (text, cand) = gen::runs(s, false);
        Qc { query: text.into_iter().collect(), plain: true, cand: cand.into_iter().collect(), cfg: gen::cfg(s) }
    } else if s.chance(2, 5) {
        gappy(s)
    } else {
        gen::qc_fuzzy(s)
    }
}

fn fuzzy_obs(hit: &Option<model::Hit>) -> Obs {
    let gaps = hit.as_ref().map_or(0, |h| h.pos.windows(2).filter(|w| w[0] + 1 < w[1]).count());
    let n = hit.as_ref().map_or(0, |h| h.pos.len());
    Obs::new(n >= 2)
        .label(n >= 2 && gaps == 0, "one run")
        .label(gaps == 1, "one gap")
        .label(gaps > 1, "several gaps")
        .label(n == 1, "single character")
}

// ------------------------------------------------------------------- C09

pub struct V1Score;

impl Prop for V1Score {
    type Case = Qc;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "Case: a fuzzy query, a candidate dense in partial matches, a configuration; score and ranges of FzfV1 against the reference (earliest end, latest start for that end, greedy alignment inside, score of that alignment). Exhaustive part: every text of length 1..3 over {a,b} against every candidate of length 1..6 over {a,b,x,_} (thorough: 1..7 and {a,b,B,x,/}), three schemes. Non-trivial: a match of two or more characters."
    }
    fn fuzz_runs(&self) -> usize {
        45_000
    }
    fn quick(&self) -> usize {
        350_000
    }
    fn gen(&self, s: &mut Src) -> Qc {
        gen_fuzzy(s)
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        32
    }
    fn exhaustive(&self, part: usize, t: Tier) -> Vec<Qc> {
        let mut v = small_scope(part, 32, &['a', 'b', 'x', '_'], 3, 6, &scheme_cfgs());
        if t == Tier::Thorough {
            v.extend(small_scope(part, 32, &['a', 'b', 'B', 'x', '/'], 3, 7, &[Cfg::default()]));
        }
        v
    }
    fn huge(&self, s: &mut Src) -> Option<Qc> {
        Some(gen::huge_fuzzy(s))
    }
    fn check(&self, q: &Qc) -> Result<Obs, String> {
        Ok(fuzzy_obs(&against_model(Algo::V1, q)?))
    }
    fn shrink(&self, c: &Qc) -> Vec<Qc> {
        shrink_keep(c)
    }
}

// ------------------------------------------------------------------- C10

pub struct V2Score;

/// The best score any alignment reachable by fzf's recurrence can have is
/// bounded by the best over all alignments under the most generous bonuses.
fn upper_bound(cfg: Cfg, text: &[char], cand: &[char]) -> i64 {
    let b = model::bonuses(cfg.scheme, cand);
    let top = b.iter().copied().max().unwrap_or(0).max(4);
    16 * text.len() as i64 + 2 * top + (text.len() as i64 - 1) * top
}

impl Prop for V2Score {
    type Case = Qc;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "Case: as C09 for FzfV2, against a reference that fills fzf's two matrices over the whole candidate without windowing, skipping or reused memory, and backtracks as fzf does; for texts of up to 4 characters also: the score never exceeds a bound on all alignments and the covered characters spell the text. Exhaustive part: every text of length 1..3 over {a,b} against every candidate of length 1..7 over {a,b,_} and 1..5 over {a,b,B,x,/}, three schemes (thorough: lengths to 9 and 7). Non-trivial: a match of two or more characters."
    }
    fn fuzz_runs(&self) -> usize {
        45_000
    }
    fn quick(&self) -> usize {
        180_000
    }
    fn gen(&self, s: &mut Src) -> Qc {
        gen_fuzzy(s)
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        32
    }
    fn exhaustive(&self, part: usize, t: Tier) -> Vec<Qc> {
        let (l1, l2) = if t == Tier::Thorough { (9, 7) } else { (7, 5) };
        let mut v = small_scope(part, 32, &['a', 'b', '_'], 3, l1, &scheme_cfgs());
        v.extend(small_scope(part, 32, &['a', 'b', 'B', 'x', '/'], 3, l2, &scheme_cfgs()));
        v
    }
    fn huge(&self, s: &mut Src) -> Option<Qc> {
        Some(gen::huge_fuzzy(s))
    }
    fn check(&self, q: &Qc) -> Result<Obs, String> {
        let hit = against_model(Algo::V2, q)?;
        if let Some(h) = &hit {
            let e = q.expr();
            if let [g] = &e.groups[..] {
                let t = &g[0].text;
                let ub = upper_bound(q.cfg, t, &q.cand_chars());
                if h.score > ub || h.score <= 0 {
                    return Err(format!("{}: score {} outside 1..={ub}", describe(Algo::V2, q), h.score));
                }
            }
        }
        Ok(fuzzy_obs(&hit))
    }
    fn shrink(&self, c: &Qc) -> Vec<Qc> {
        shrink_keep(c)
    }
}

// ------------------------------------------------------------------- C11

pub struct Contiguous;

/// A contiguous term with several occurrences at different places.
fn repeated(s: &mut Src) -> Qc {
    let a: Vec<char> = gen::alphabet(s);
    let n = s.range(1, 4);
    let text: Vec<char> = (0..n).map(|_| *s.pick(&a)).collect();
    let kind = gen::KINDS[1 + s.weighted(&[50, 18, 18, 14])];
    let mut cand: Vec<char> = Vec::new();
    let pre = |s: &mut Src, c: &mut Vec<char>| {
        for _ in 0..s.weighted(&[3, 3, 2, 1]) {
            c.push(*s.pick(&[' ', '/', '_', 'x', 'X', '1', '-', 'é', '.', 'a']));
        }
    };
    for _ in 0..s.range(1, 5) {
        pre(s, &mut cand);
        match s.weighted(&[5, 2, 1]) {
            0 => cand.extend(&text),
            1 => {
                // A failed attempt: a proper prefix of the text.
                let l = s.below(text.len());
                cand.extend(&text[..l]);
            }
            _ => cand.extend(text.iter().map(|&c| gen::flip_case(c))),
        }
    }
    if s.chance(1, 2) {
        pre(s, &mut cand);
    }
    let mut t = text;
    if !gen::printable(false, kind, &t) {
        t.retain(|c| !"!'^$|\\".contains(*c));
        if t.is_empty() {
            t.push('a');
        }
    }
    Qc { query: gen::print_term(false, kind, &t), plain: false, cand: cand.into_iter().collect(), cfg: gen::cfg(s) }
}

impl Prop for Contiguous {
    type Case = Qc;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "Case: one exact, prefix, suffix or equality term and a candidate holding it (or failed attempts at it) several times after different characters; both metrics against the reference (all occurrences enumerated: first with a boundary bonus, else first with the best bonus; anchored terms at their only place), and the two metrics against each other. Exhaustive part: every text of length 1..2 over {a,b,space} in the four forms against every candidate of length 0..6 over {a,b,space} and 0..4 over {a,b,B,/,1}, three schemes. Non-trivial: the candidate matches, or holds the text's first character at least twice."
    }
    fn fuzz_runs(&self) -> usize {
        45_000
    }
    fn quick(&self) -> usize {
        224_000
    }
    fn gen(&self, s: &mut Src) -> Qc {
        if s.chance(1, 2) {
            repeated(s)
        } else {
            gen::qc_contiguous(s)
        }
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        32
    }
    fn exhaustive(&self, part: usize, t: Tier) -> Vec<Qc> {
        let extra = if t == Tier::Thorough { 1 } else { 0 };
        let mut out = Vec::new();
        let mut scopes = vec![(all_strings(&['a', 'b', ' '], 1, 2), all_strings(&['a', 'b', ' '], 0, 6 + extra))];
        scopes.push((all_strings(&['a', 'b'], 1, 2), all_strings(&['a', 'b', 'B', '/', '1'], 0, 4 + extra)));
        for (texts, cands) in scopes {
            for (i, cand) in cands.into_iter().enumerate() {
                if i % 32 != part {
                    continue;
                }
                for t in &texts {
                    let t: Vec<char> = t.chars().collect();
                    for kind in &gen::KINDS[1..] {
                        let query = gen::print_term(false, *kind, &t);
                        for cfg in scheme_cfgs() {
                            out.push(Qc { query: query.clone(), plain: false, cand: cand.clone(), cfg });
                        }
                    }
                }
            }
        }
        out
    }
    fn huge(&self, s: &mut Src) -> Option<Qc> {
        Some(gen::huge(s))
    }
    fn check(&self, q: &Qc) -> Result<Obs, String> {
        let h1 = against_model(Algo::V1, q)?;
        let h2 = against_model(Algo::V2, q)?;
        let e = q.expr();
        let contiguous = e.groups.iter().flatten().all(|t| t.kind != Kind::Fuzzy);
        if contiguous && h1 != h2 {
            return Err(format!("{}: V1 {h1:?}, V2 {h2:?}", describe(Algo::V1, q)));
        }
        let cc = q.cand_chars();
        let first = e.groups.first().and_then(|g| g.first()).map(|t| t.text[0]);
        let repeats = first.map_or(0, |f| cc.iter().filter(|&&c| model::ch_eq(q.cfg, false, f, c)).count());
        let kind = e.groups.first().and_then(|g| g.first()).map(|t| t.kind);
        Ok(Obs::new(h1.is_some() || repeats >= 2)
            .label(h1.is_some() && kind == Some(Kind::Exact), "exact match")
            .label(h1.is_some() && kind == Some(Kind::Prefix), "prefix match")
            .label(h1.is_some() && kind == Some(Kind::Suffix), "suffix match")
            .label(h1.is_some() && kind == Some(Kind::Equal), "equality match")
            .label(h1.is_none(), "no match"))
    }
    fn shrink(&self, c: &Qc) -> Vec<Qc> {
        shrink_keep(c)
    }
}
