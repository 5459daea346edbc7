//! C12, C13: how terms combine, and what the query syntax means.

use super::basic::ALGOS;
use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::{self, Kind};
use crate::sut::{self, Fz};
use norm::fzf::FzfParser;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct T {
    pub neg: bool,
    pub kind: Kind,
    pub text: String,
}

impl T {
    fn chars(&self) -> Vec<char> {
        self.text.chars().collect()
    }
    fn ok(&self) -> bool {
        gen::printable(self.neg, self.kind, &self.chars())
    }
    fn print(&self) -> String {
        gen::print_term(self.neg, self.kind, &self.chars())
    }
    fn model(&self) -> model::Term {
        model::Term { neg: self.neg, kind: self.kind, text: self.chars(), raw: self.print() }
    }
}

fn shrink_t(t: &T) -> Vec<T> {
    let mut out: Vec<T> = shrink_str(&t.text).into_iter().map(|text| T { text, ..t.clone() }).collect();
    if t.neg {
        out.push(T { neg: false, ..t.clone() });
    }
    if t.kind != Kind::Fuzzy && !t.neg {
        out.push(T { kind: Kind::Fuzzy, ..t.clone() });
    }
    out.retain(|t| t.ok());
    out
}

type Groups = Vec<Vec<T>>;

fn shrink_groups(g: &Groups) -> Vec<Groups> {
    let mut out = Vec::new();
    for i in 0..g.len() {
        if g.len() > 1 {
            let mut h = g.clone();
            h.remove(i);
            out.push(h);
        }
        for j in 0..g[i].len() {
            if g[i].len() > 1 {
                let mut h = g.clone();
                h[i].remove(j);
                out.push(h);
            }
            for t in shrink_t(&g[i][j]) {
                let mut h = g.clone();
                h[i][j] = t;
                out.push(h);
            }
        }
    }
    out
}

fn gen_groups(s: &mut Src, cand: &[char]) -> Groups {
    if s.chance(1, 25) {
        return gen::many_groups(s, cand)
            .into_iter()
            .map(|g| {
                g.into_iter()
                    .map(|(neg, kind, text)| T { neg, kind, text: text.into_iter().collect() })
                    .filter(|t| t.ok())
                    .collect::<Vec<_>>()
            })
            .filter(|g| !g.is_empty())
            .collect();
    }
    let n = match s.weighted(&[20, 40, 30, 10]) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => s.range(4, 7),
    };
    (0..n)
        .map(|_| {
            let alts = match s.weighted(&[60, 25, 15]) {
                0 => 1,
                1 => 2,
                _ => s.range(3, 4),
            };
            (0..alts)
                .map(|_| {
                    let (neg, kind, text) = gen::term(s, cand);
                    T { neg, kind, text: text.into_iter().collect() }
                })
                .filter(|t| t.ok())
                .collect::<Vec<_>>()
        })
        .filter(|g: &Vec<T>| !g.is_empty())
        .collect()
}

fn print(groups: &[Vec<T>]) -> String {
    groups
        .iter()
        .map(|g| g.iter().map(T::print).collect::<Vec<_>>().join(" | "))
        .collect::<Vec<_>>()
        .join(" ")
}

/// (score, covered characters) on fresh instances.
fn run(a: model::Algo, cfg: Cfg, query: &str, cand: &str) -> Result<Option<(i64, BTreeSet<usize>)>, String> {
    match sut::run(a, cfg, query, false, cand) {
        None => Ok(None),
        Some((s, r)) => match sut::covered(cand, &r) {
            Some(c) => Ok(Some((s, c.into_iter().collect()))),
            None => Err(format!("{a:?} {cfg:?} query {query:?} candidate {cand:?}: invalid ranges {r:?}")),
        },
    }
}

// ------------------------------------------------------------------- C12

pub struct Compose;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ComposeCase {
    pub groups: Groups,
    pub cand: String,
    pub cfg: Cfg,
    /// Keys that order the groups (and, reversed, the alternatives).
    pub keys: Vec<u8>,
    pub dup: usize,
}

impl Prop for Compose {
    type Case = ComposeCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Case: 1..7 groups of 1..4 alternatives of generated terms, a candidate they are cut from, a configuration, an order and a group to repeat. On both metrics the query's answer is compared with the sum of what its terms answer when queried alone (first satisfied alternative of each group), with the same groups in another order, with one group repeated, and with the alternatives reordered; a negated term alone is compared with its positive form; the reference model is a further opinion. Non-trivial: two or more terms, and the query matches or at least one of its groups does."
    }
    fn fuzz_runs(&self) -> usize {
        7_000
    }
    fn quick(&self) -> usize {
        36_000
    }
    fn gen(&self, s: &mut Src) -> ComposeCase {
        let cand = gen::candidate(s);
        let cc: Vec<char> = cand.chars().collect();
        let groups = gen_groups(s, &cc);
        let keys = (0..8).map(|_| s.below(256) as u8).collect();
        ComposeCase { groups, cand, cfg: gen::cfg(s), keys, dup: s.below(8) }
    }
    fn huge(&self, s: &mut Src) -> Option<ComposeCase> {
        let (groups, cand) = gen::huge_groups(s);
        let groups: Groups = groups
            .into_iter()
            .map(|g| g.into_iter().map(|(neg, kind, t)| T { neg, kind, text: t.into_iter().collect() }).collect())
            .collect();
        let keys = (0..groups.len()).map(|_| s.below(256) as u8).collect();
        let dup = s.below(groups.len().max(1));
        Some(ComposeCase { groups, cand: cand.into_iter().collect(), cfg: gen::cfg(s), keys, dup })
    }
    fn check(&self, c: &ComposeCase) -> Result<Obs, String> {
        let query = print(&c.groups);
        let cc: Vec<char> = c.cand.chars().collect();
        let (mut matched, mut partly, mut via_alt, mut neg_ok) = (false, false, false, false);
        for a in ALGOS {
            let at = |what: String| format!("{a:?} {:?} query {query:?} candidate {:?}: {what}", c.cfg, c.cand);
            let got = run(a, c.cfg, &query, &c.cand)?;
            let mut want = Some((0, BTreeSet::new()));
            let mut group_scores = Vec::new();
            for g in &c.groups {
                let mut first = None;
                for (k, t) in g.iter().enumerate() {
                    let alone = run(a, c.cfg, &t.print(), &c.cand)?;
                    if t.neg {
                        if let Some((s, cov)) = &alone {
                            if *s != 0 || !cov.is_empty() {
                                return Err(at(format!("negated term {:?} alone scores {s} and covers {cov:?}", t.print())));
                            }
                        }
                        let pos = T { neg: false, ..t.clone() };
                        if pos.ok() {
                            let p = run(a, c.cfg, &pos.print(), &c.cand)?;
                            if p.is_some() == alone.is_some() {
                                return Err(at(format!(
                                    "{:?} and its negation {:?} both {}",
                                    pos.print(),
                                    t.print(),
                                    if p.is_some() { "match" } else { "fail" }
                                )));
                            }
                        }
                    }
                    if first.is_none() && alone.is_some() {
                        via_alt |= k > 0;
                        neg_ok |= t.neg;
                        first = alone;
                    }
                }
                group_scores.push(first.as_ref().map(|f| f.0));
                partly |= first.is_some();
                want = match (want, first) {
                    (Some((s, mut cov)), Some((t, more))) => {
                        cov.extend(more);
                        Some((s + t, cov))
                    }
                    _ => None,
                };
            }
            if got != want {
                return Err(at(format!("answers {got:?}, its terms add up to {want:?}")));
            }
            // Another order of the groups.
            let mut order: Vec<usize> = (0..c.groups.len()).collect();
            order.sort_by_key(|&i| c.keys.get(i).copied().unwrap_or(0));
            let other: Groups = order.iter().map(|&i| c.groups[i].clone()).collect();
            let perm = run(a, c.cfg, &print(&other), &c.cand)?;
            if perm != got {
                return Err(at(format!("answers {got:?}, but {perm:?} as {:?}", print(&other))));
            }
            // One group repeated.
            if !c.groups.is_empty() {
                let d = c.dup % c.groups.len();
                let mut twice = c.groups.clone();
                twice.push(c.groups[d].clone());
                let rep = run(a, c.cfg, &print(&twice), &c.cand)?;
                let want = got.clone().map(|(s, cov)| (s + group_scores[d].unwrap(), cov));
                if rep != want {
                    return Err(at(format!("as {:?} answers {rep:?}, expected {want:?}", print(&twice))));
                }
            }
            // Alternatives reordered.
            let rev: Groups = c
                .groups
                .iter()
                .map(|g| {
                    let mut idx: Vec<usize> = (0..g.len()).collect();
                    idx.sort_by_key(|&i| std::cmp::Reverse(c.keys.get(i).copied().unwrap_or(0)));
                    idx.into_iter().map(|i| g[i].clone()).collect()
                })
                .collect();
            let r = run(a, c.cfg, &print(&rev), &c.cand)?;
            if r.is_some() != got.is_some() {
                return Err(at(format!("match: {}, but {} as {:?}", got.is_some(), r.is_some(), print(&rev))));
            }
            // The reference.
            let e = model::Expr { groups: c.groups.iter().map(|g| g.iter().map(T::model).collect()).collect() };
            let m = model::eval(a, c.cfg, &e, &cc).map(|h| (h.score, h.pos.into_iter().collect()));
            if m != got {
                return Err(at(format!("answers {got:?}, reference {m:?}")));
            }
            matched |= got.is_some();
        }
        let n: usize = c.groups.iter().map(|g| g.len()).sum();
        Ok(Obs::new(n >= 2 && (matched || partly))
            .label(matched && c.groups.len() > 1, "several groups match")
            .label(matched && via_alt, "later alternative")
            .label(matched && neg_ok, "negation satisfied")
            .label(!matched && partly, "some groups match"))
    }
    fn shrink(&self, c: &ComposeCase) -> Vec<ComposeCase> {
        let mut out: Vec<ComposeCase> =
            shrink_groups(&c.groups).into_iter().map(|groups| ComposeCase { groups, ..c.clone() }).collect();
        for cand in shrink_str(&c.cand) {
            out.push(ComposeCase { cand, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(ComposeCase { cfg, ..c.clone() });
        }
        out
    }
}

// ------------------------------------------------------------------- C13

pub struct Syntax;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SyntaxCase {
    pub groups: Groups,
    /// Number of extra spaces per gap, and junk words per gap, in turn.
    pub extra: Vec<u8>,
    pub junk: Vec<u8>,
    /// Whether quoted terms are followed by a `$`, which says nothing more.
    #[serde(default)]
    pub dollar: bool,
    /// Text given to the not-extended parser.
    pub literal: String,
    pub cand: String,
    pub cfg: Cfg,
}

const JUNK: [&str; 10] = ["", "'", "^", "!", "!'", "!^", "'$", "^$", "!'$", "!^$"];

impl SyntaxCase {
    fn query(&self) -> String {
        let mut out = String::new();
        let (mut i, mut j) = (0, 0);
        // The separation between two words: spaces, maybe a word without text.
        let mut gap = |out: &mut String, min: usize| {
            let e = self.extra.get(i).copied().unwrap_or(0) as usize % 4;
            i += 1;
            out.push_str(&" ".repeat(min + e));
            let w = JUNK[self.junk.get(j).copied().unwrap_or(0) as usize % JUNK.len()];
            j += 1;
            if !w.is_empty() && (min > 0 || out.is_empty() || e > 0) {
                out.push_str(w);
                out.push(' ');
            }
        };
        gap(&mut out, 0);
        for (k, g) in self.groups.iter().enumerate() {
            if k > 0 {
                gap(&mut out, 1);
            }
            for (l, t) in g.iter().enumerate() {
                if l > 0 {
                    gap(&mut out, 1);
                    out.push('|');
                    gap(&mut out, 1);
                }
                out.push_str(&t.print());
                if self.dollar && matches!((t.neg, t.kind), (false, Kind::Exact) | (true, Kind::Fuzzy)) {
                    out.push('$');
                }
            }
        }
        gap(&mut out, 0);
        out
    }
}

impl Prop for Syntax {
    type Case = SyntaxCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Case: an AND of ORs of terms as a data structure, printed with generated spacing, escapes and operator-only words in the gaps, parsed by FzfParser::parse and run on a candidate; score and ranges are compared with the reference evaluation of the data structure itself (the printed text is never parsed by the reference). A generated literal goes through parse_not_extended and is compared with one fuzzy term of exactly that text, and with what parse makes of the operator-free words. Exhaustive part: every term form × every text of length 1..3 over {a,space,!,',^,$,|,backslash} that has a printed form. Non-trivial: two or more terms or a text with an operator or space in it, and the query matches on one metric."
    }
    fn fuzz_runs(&self) -> usize {
        14_000
    }
    fn quick(&self) -> usize {
        72_000
    }
    fn gen(&self, s: &mut Src) -> SyntaxCase {
        let cand = gen::candidate(s);
        let mut cc: Vec<char> = cand.chars().collect();
        if s.chance(1, 3) {
            // Operators in the candidate, so that literal ones are found.
            for _ in 0..s.range(1, 4) {
                let i = s.below(cc.len() + 1);
                cc.insert(i, *s.pick(&['!', '\'', '^', '$', '|', '\\', ' ']));
            }
        }
        let groups = gen_groups(s, &cc);
        let extra = (0..12).map(|_| if s.chance(1, 3) { s.below(4) as u8 } else { 0 }).collect();
        let junk = (0..12).map(|_| if s.chance(1, 8) { s.below(JUNK.len()) as u8 } else { 0 }).collect();
        let literal = if s.chance(1, 2) {
            gen::text_from(s, &cc, None).into_iter().collect()
        } else {
            gen::ext_query(s, &cc, 4)
        };
        let dollar = s.chance(1, 6);
        SyntaxCase { groups, extra, junk, dollar, literal, cand: cc.into_iter().collect(), cfg: gen::cfg(s) }
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        8
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<SyntaxCase> {
        let mut out = Vec::new();
        let texts = super::all_strings(&['a', ' ', '!', '\'', '^', '$', '|', '\\'], 1, 3);
        for text in super::part_of(texts, part, 8) {
            for kind in gen::KINDS {
                for neg in [false, true] {
                    let t = T { neg, kind, text: text.clone() };
                    if !t.ok() {
                        continue;
                    }
                    for cand in [format!("x{text}y"), text.clone(), format!("b{text}"), "zz".into()] {
                        for dollar in [false, true] {
                            out.push(SyntaxCase {
                                groups: vec![vec![t.clone()]],
                                extra: vec![],
                                junk: vec![],
                                dollar,
                                literal: t.print(),
                                cand: cand.clone(),
                                cfg: Cfg::default(),
                            });
                        }
                    }
                }
            }
        }
        out
    }
    fn huge(&self, s: &mut Src) -> Option<SyntaxCase> {
        let (groups, cand) = gen::huge_groups(s);
        let groups: Groups = groups
            .into_iter()
            .map(|g| g.into_iter().map(|(neg, kind, t)| T { neg, kind, text: t.into_iter().collect() }).collect())
            .collect();
        let literal = if s.chance(1, 2) { groups.first()?.first()?.text.clone() } else { gen::huge(s).query };
        let literal = literal.chars().take(2600).collect();
        let extra = (0..64).map(|_| if s.chance(1, 3) { s.below(4) as u8 } else { 0 }).collect();
        let junk = (0..64).map(|_| if s.chance(1, 8) { s.below(JUNK.len()) as u8 } else { 0 }).collect();
        let dollar = s.chance(1, 6);
        Some(SyntaxCase { groups, extra, junk, dollar, literal, cand: cand.into_iter().take(5000).collect(), cfg: gen::cfg(s) })
    }
    fn check(&self, c: &SyntaxCase) -> Result<Obs, String> {
        let cc: Vec<char> = c.cand.chars().collect();
        let query = c.query();
        let e = model::Expr { groups: c.groups.iter().map(|g| g.iter().map(T::model).collect()).collect() };
        let lit = model::parse_plain(&c.literal);
        let mut hit = false;
        for a in ALGOS {
            let mut p = FzfParser::new();
            for (q, plain, e) in [(&query, false, &e), (&c.literal, true, &lit)] {
                let parsed = sut::parse(&mut p, q, plain);
                let mut r = vec![];
                let got = Fz::new(a, c.cfg).dist_ranges(parsed, &c.cand, &mut r).map(|d| d.into_score());
                let want = model::eval(a, c.cfg, e, &cc);
                let ranges = want.as_ref().map_or(vec![], |w| model::byte_ranges(&cc, &w.pos));
                r.sort_by_key(|x| x.start);
                if got != want.as_ref().map(|h| h.score) || r != ranges {
                    return Err(format!(
                        "{a:?} {:?} query {q:?}{} candidate {:?}: score {got:?} ranges {r:?}, expected {:?} {ranges:?} for {:?}",
                        c.cfg,
                        if plain { " (plain)" } else { "" },
                        c.cand,
                        want.map(|h| h.score),
                        e.groups.iter().map(|g| g.iter().map(|t| (t.neg, t.kind, t.text.iter().collect::<String>())).collect::<Vec<_>>()).collect::<Vec<_>>()
                    ));
                }
                hit |= got.is_some() && !plain;
            }
        }
        let n: usize = c.groups.iter().map(|g| g.len()).sum();
        let ops = c.groups.iter().flatten().any(|t| t.text.contains(['!', '\'', '^', '$', '|', '\\', ' ']));
        Ok(Obs::new((n >= 2 || ops) && hit)
            .label(hit && ops, "literal operator or space")
            .label(c.groups.iter().any(|g| g.len() > 1), "alternatives")
            .label(c.groups.len() > 1, "several groups")
            .label(c.groups.iter().flatten().any(|t| t.neg), "negation"))
    }
    fn shrink(&self, c: &SyntaxCase) -> Vec<SyntaxCase> {
        let mut out: Vec<SyntaxCase> = Vec::new();
        if !c.groups.is_empty() {
            out.push(SyntaxCase { groups: vec![], ..c.clone() });
        }
        for groups in shrink_groups(&c.groups) {
            out.push(SyntaxCase { groups, ..c.clone() });
        }
        if c.extra.iter().any(|&x| x > 0) {
            out.push(SyntaxCase { extra: vec![], ..c.clone() });
        }
        if c.dollar {
            out.push(SyntaxCase { dollar: false, ..c.clone() });
        }
        if c.junk.iter().any(|&x| x > 0) {
            out.push(SyntaxCase { junk: vec![], ..c.clone() });
        }
        for literal in shrink_str(&c.literal) {
            out.push(SyntaxCase { literal, ..c.clone() });
        }
        for cand in shrink_str(&c.cand) {
            out.push(SyntaxCase { cand, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(SyntaxCase { cfg, ..c.clone() });
        }
        out
    }
}
