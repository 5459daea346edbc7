//! C01..C06: totality, acceptance, the ranges buffer, agreement of the two calls.

use super::{all_strings, part_of};
use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::{self, Algo, Kind};
use crate::sut::{self, Fz, Ranges};
use norm::fzf::FzfParser;
use serde::{Deserialize, Serialize};

pub const ALGOS: [Algo; 2] = [Algo::V1, Algo::V2];

pub fn describe(a: Algo, q: &Qc) -> String {
    format!("{a:?} {:?} query {:?}{} candidate {:?}", q.cfg, q.query, if q.plain { " (plain)" } else { "" }, q.cand)
}

// ------------------------------------------------------------------- C01

pub struct Total;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct QcBuf {
    pub qc: Qc,
    pub prior: Vec<(usize, usize)>,
}

pub fn gen_prior(s: &mut Src) -> Vec<(usize, usize)> {
    match s.weighted(&[160, 120, 120, 40, 12, 3]) {
        0 => vec![],
        4 => (0..s.range(7, 70)).map(|i| (3 * i, 3 * i + s.range(1, 2))).collect(),
        5 => {
            // As long as a buffer gets that many results are appended to.
            let n = *s.pick(&[127, 255, 256, 1000, 4096]) + s.below(3);
            let step = s.range(1, 2000);
            (0..n).map(|i| (i * step, i * step + s.range(1, step))).collect()
        }
        1 => {
            let mut at = 0;
            (0..s.range(1, 5))
                .map(|_| {
                    let a = at + s.below(4);
                    let b = a + s.range(1, 5);
                    at = b + 1;
                    (a, b)
                })
                .collect()
        }
        2 => (0..s.range(1, 6))
            .map(|_| {
                let a = s.below(30);
                (a, a + s.below(20))
            })
            .collect(),
        _ => vec![(usize::MAX - 1, usize::MAX), (5, 2), (0, usize::MAX), (0, 0)],
    }
}

pub fn to_ranges(p: &[(usize, usize)]) -> Ranges {
    p.iter().map(|&(a, b)| a..b).collect()
}

pub fn shrink_qcbuf(c: &QcBuf) -> Vec<QcBuf> {
    let mut v: Vec<QcBuf> = shrink_vec(&c.prior, |_| vec![])
        .into_iter()
        .map(|prior| QcBuf { prior, ..c.clone() })
        .collect();
    v.extend(shrink_qc(&c.qc).into_iter().map(|qc| QcBuf { qc, ..c.clone() }));
    v
}

/// Long and awkward inputs around the sizes of preallocated buffers.
fn stress(s: &mut Src) -> Qc {
    let around = |s: &mut Src| match s.below(7) {
        0 => s.range(62, 67),
        1 => s.range(126, 131),
        2 => s.range(254, 259),
        3 => s.range(30, 34),
        4 => s.range(500, 1100),
        5 => s.range(1, 20),
        _ => s.range(60, 300),
    };
    let a = gen::alphabet(s);
    let qn = around(s);
    let style = s.below(4);
    let mut query = String::new();
    for i in 0..qn {
        match style {
            0 => query.push(*s.pick(&a)),
            1 => {
                // Many one-letter words.
                query.push(if i % 2 == 0 { 'a' } else { ' ' })
            }
            2 => query.push(*s.pick(&['|', ' ', 'a', '\\', '!'])),
            _ => query.push(gen::any_char(s)),
        }
    }
    let cn = around(s);
    let mut cand = String::new();
    if s.chance(1, 3) {
        // The query inside the candidate, with padding.
        for c in query.chars() {
            cand.push(c);
            for _ in 0..s.below(3) {
                cand.push(*s.pick(&a));
            }
        }
    } else {
        for _ in 0..cn {
            cand.push(*s.pick(&a));
        }
    }
    if s.chance(1, 3) {
        cand.push(*s.pick(gen::UNI));
    }
    Qc { query, plain: s.chance(1, 2), cand, cfg: gen::cfg(s) }
}

/// One short text repeated very often, as the query or as the candidate:
/// whatever is done once per character, word, term or alternative by way of the
/// stack, or counted narrowly, comes to its limit.
fn repeated(s: &mut Src) -> Qc {
    let unit = match s.below(3) {
        0 => s.pick(UNITS).to_string(),
        1 => format!("{}{}", s.pick(UNITS), s.pick(UNITS)),
        _ => (0..s.range(1, 4)).map(|_| *s.pick(&['a', ' ', '|', '!', '\\', '\'', '^', '$', 'é', 'B'])).collect(),
    };
    let many = unit.repeat(*s.pick(&[30_000, 66_000, 100_000]));
    let other = s.pick(&["", "a", "ab", "é", " ", "a é B", "xx"]).to_string();
    let (query, cand) = if s.chance(2, 3) { (many, other) } else { (other, many) };
    Qc { query, plain: s.chance(1, 4), cand, cfg: gen::cfg(s) }
}

const UNITS: &[&str] = &[
    "a", "a ", "' ", "! ", "^ ", "$ ", "!' ", "| ", "a | ", "a| ", "\\ ", "\\ a", "\\", "!b ", "'a ", "^a ", "a$ ", "^a$ ", " ",
    "!", "'", "^", "$", "|", "é ", "aé", "A", "!a | ", "b | a ", "日", "a\\ b ",
];

const LONG: &[(&str, &str)] = &[
    ("ab", "-"), ("'b", "é"), ("ab", "é"), ("b$", "a"), ("b !c", "x/"), ("ab", "aA_ "), ("^a !^b", " "), ("a b | c", "日/"),
];

impl Prop for Total {
    type Case = QcBuf;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "Case: a query (extended syntax, raw operator soup, plain text, or stress inputs around 64/128/256 and up to ~1100 chars), a candidate, one of 18 configurations and prior buffer contents; all four calls on both metrics and all Debug outputs are evaluated; very long inputs (a short text repeated up to 100 000 times, and others) also by a build with debug assertions, overflow checks and no optimisations. Exhaustive part: 31 short texts repeated 100 000 times, as query and candidate; 8 candidates of one to two million characters; every query of up to 4 characters over an operator alphabet against 6 candidates in both modes. Non-trivial: query and candidate both non-empty."
    }
    fn fuzz_runs(&self) -> usize {
        2_000
    }
    fn quick(&self) -> usize {
        11_700
    }
    fn gen(&self, s: &mut Src) -> QcBuf {
        let qc = match s.weighted(&[5, 2, 1, 1]) {
            0 => gen::qc(s),
            1 => stress(s),
            2 => gen::qc_fuzzy(s),
            _ => gen::qc_contiguous(s),
        };
        QcBuf { qc, prior: gen_prior(s) }
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        16
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<QcBuf> {
        let mut out = Vec::new();
        let qs = all_strings(&['a', ' ', '!', '^', '$', '\'', '|', '\\', 'é'], 0, 4);
        for unit in part_of(UNITS.iter(), part, 16) {
            for plain in [false, true] {
                let qc = Qc { query: unit.repeat(100_000), plain, cand: "a é".into(), cfg: Cfg::default() };
                out.push(QcBuf { qc, prior: vec![] });
            }
            let qc = Qc { query: "a".into(), plain: true, cand: unit.repeat(100_000), cfg: Cfg::default() };
            out.push(QcBuf { qc, prior: vec![] });
        }
        // Candidates and windows of more than a million characters.
        for (query, unit) in part_of(LONG.iter(), part, 16) {
            let cand = format!("a{}b", unit.repeat((1_100_000 << (part & 1)) / unit.chars().count()));
            let cfg = Cfg::all()[part % 18];
            out.push(QcBuf { qc: Qc { query: (*query).into(), plain: false, cand, cfg }, prior: vec![] });
        }
        for query in part_of(qs, part, 16) {
            for cand in ["", "a", " a ", "aé a", "\\^$|'! a", "   "] {
                for plain in [false, true] {
                    out.push(QcBuf {
                        qc: Qc { query: query.clone(), plain, cand: cand.into(), cfg: Cfg::default() },
                        prior: vec![],
                    });
                }
            }
        }
        out
    }
    fn huge(&self, s: &mut Src) -> Option<QcBuf> {
        let qc = if s.chance(1, 3) { repeated(s) } else { gen::huge(s) };
        Some(QcBuf { qc, prior: gen_prior(s) })
    }
    fn check(&self, c: &QcBuf) -> Result<Obs, String> {
        let q = &c.qc;
        let mut hits = 0;
        // The build without optimisations has more to check, and a deeper stack.
        let in_debug = q.query.len() + q.cand.len() > 10_000
            && q.query.len().max(1) * q.cand.len().max(1) < 4_000_000
            && super::builds::in_debug(q)?;
        let mut parser = FzfParser::new();
        let _ = format!("{parser:?}");
        let query = sut::parse(&mut parser, &q.query, q.plain);
        let _ = format!("{query:?} {query:#?}");
        for a in ALGOS {
            let mut f = Fz::new(a, q.cfg);
            let d1 = f.dist(query, &q.cand);
            let mut r = to_ranges(&c.prior);
            let d2 = f.dist_ranges(query, &q.cand, &mut r);
            let mut r2 = vec![];
            let _ = f.dist_ranges(query, &q.cand, &mut r2);
            hits += d1.is_some() as usize + d2.is_some() as usize;
            let _ = format!("{d1:?} {d2:?} {}", f.debug());
        }
        let long = q.query.len() > 64 || q.cand.len() > 128;
        Ok(Obs::new(!q.query.is_empty() && !q.cand.is_empty())
            .label(hits > 0, "matched")
            .label(in_debug, "also by a debug build")
            .label(q.plain, "plain")
            .label(!q.cand.is_ascii(), "unicode candidate")
            .label(long, "beyond preallocated sizes"))
    }
    fn shrink(&self, c: &QcBuf) -> Vec<QcBuf> {
        shrink_qcbuf(c)
    }
}

// ------------------------------------------------------------------- C02

pub struct Accept;

impl Prop for Accept {
    type Case = Qc;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Case: query, candidate, configuration; both metrics' verdicts (with and without ranges) against the reference acceptance. Exhaustive part: every term text of length 1..3 over {a,b,A} in all ten term forms against every candidate of length 0..4 over {a,b,A,space}, in three case modes. Non-trivial: at least one term, candidate non-empty, and either the candidate is accepted or it contains some but not all of the query's letters."
    }
    fn fuzz_runs(&self) -> usize {
        35_000
    }
    fn quick(&self) -> usize {
        192_000
    }
    fn gen(&self, s: &mut Src) -> Qc {
        match s.weighted(&[5, 2, 3]) {
            0 => gen::qc(s),
            1 => gen::qc_fuzzy(s),
            _ => gen::qc_contiguous(s),
        }
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        30
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<Qc> {
        let mut out = Vec::new();
        let cands = all_strings(&['a', 'b', 'A', ' '], 0, 4);
        for (i, text) in all_strings(&['a', 'b', 'A'], 1, 3).iter().enumerate() {
            if i % 10 != part / 3 {
                continue;
            }
            let cfg = Cfg { case: CASES[part % 3], ..Cfg::default() };
            let t: Vec<char> = text.chars().collect();
            for kind in gen::KINDS {
                for neg in [false, true] {
                    let query = gen::print_term(neg, kind, &t);
                    for cand in &cands {
                        out.push(Qc { query: query.clone(), plain: false, cand: cand.clone(), cfg });
                    }
                }
            }
        }
        out
    }
    fn huge(&self, s: &mut Src) -> Option<Qc> {
        Some(gen::huge(s))
    }
    fn check(&self, q: &Qc) -> Result<Obs, String> {
        let e = q.expr();
        let cc = q.cand_chars();
        let want = model::accepts(q.cfg, &e, &cc);
        let mut p = FzfParser::new();
        let query = sut::parse(&mut p, &q.query, q.plain);
        for a in ALGOS {
            let mut f = Fz::new(a, q.cfg);
            let got = f.dist(query, &q.cand).is_some();
            let got_r = f.dist_ranges(query, &q.cand, &mut vec![]).is_some();
            if got != want || got_r != want {
                return Err(format!(
                    "{}: expected {}, distance says {got}, distance_and_ranges says {got_r}",
                    describe(a, q),
                    if want { "a match" } else { "no match" }
                ));
            }
        }
        let terms: Vec<_> = e.groups.iter().flatten().collect();
        let some = terms.iter().any(|t| t.text.iter().any(|&x| cc.iter().any(|&y| model::ch_eq(q.cfg, false, x, y))));
        Ok(Obs::new(!terms.is_empty() && !cc.is_empty() && (want || some))
            .label(want, "accepted")
            .label(!want, "rejected")
            .label(terms.iter().any(|t| t.neg), "negated term")
            .label(terms.len() > 1, "several terms"))
    }
    fn shrink(&self, c: &Qc) -> Vec<Qc> {
        shrink_qc(c)
    }
}

// ------------------------------------------------------------------- C03

pub struct Buffer;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BufCase {
    pub query: String,
    pub plain: bool,
    pub cfg: Cfg,
    pub prior: Vec<(usize, usize)>,
    pub cands: Vec<String>,
}

impl Prop for Buffer {
    type Case = BufCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Case: a query, a sequence of 1..5 candidates matched one after the other into the same buffer, and arbitrary prior contents (sorted, overlapping the matches, unsorted, inverted or extreme ranges). Non-trivial: some candidate matches with ranges while the buffer is non-empty, or is rejected although one of the query's terms matches it."
    }
    fn fuzz_runs(&self) -> usize {
        25_000
    }
    fn quick(&self) -> usize {
        120_000
    }
    fn gen(&self, s: &mut Src) -> BufCase {
        let mut q = gen::qc(s);
        let cc = q.cand_chars();
        if !q.plain && s.chance(1, 2) {
            // A late failing condition after matching ones.
            let a = gen::alphabet(s);
            let junk: Vec<char> = (0..s.range(1, 3)).map(|_| *s.pick(&a)).collect();
            let (neg, kind) = (s.chance(1, 3), *s.pick(&gen::KINDS));
            let text = if neg { gen::text_from(s, &cc, None) } else { junk };
            if gen::printable(neg, kind, &text) {
                q.query = format!("{} {}", q.query.trim_end_matches('\\'), gen::print_term(neg, kind, &text));
            }
        }
        let mut cands = vec![q.cand.clone()];
        for _ in 0..s.below(5) {
            cands.push(if s.chance(1, 2) {
                // A variant of the first candidate.
                let mut v = cc.clone();
                if !v.is_empty() {
                    let i = s.below(v.len());
                    if s.chance(1, 2) {
                        v.remove(i);
                    } else {
                        v.insert(i, *s.pick(&['a', ' ', 'é', '/']));
                    }
                }
                v.into_iter().collect()
            } else {
                gen::candidate(s)
            });
        }
        BufCase { query: q.query, plain: q.plain, cfg: q.cfg, prior: gen_prior(s), cands }
    }
    fn huge(&self, s: &mut Src) -> Option<BufCase> {
        let q = gen::huge(s);
        let mut cands = vec![q.cand];
        if s.chance(1, 2) {
            // Shorter, by one character or a lot.
            let cc: Vec<char> = cands[0].chars().collect();
            let n = if s.chance(1, 2) { cc.len() - 1 } else { cc.len() / 2 };
            cands.push(cc[..n].iter().collect());
        }
        let prior = if s.chance(1, 3) {
            // Hundreds of earlier ranges.
            (0..s.range(200, 400)).map(|i| (i * 3, i * 3 + 2)).collect()
        } else {
            gen_prior(s)
        };
        Some(BufCase { query: q.query, plain: q.plain, cfg: q.cfg, prior, cands })
    }
    fn check(&self, c: &BufCase) -> Result<Obs, String> {
        let mut p = FzfParser::new();
        let query = sut::parse(&mut p, &c.query, c.plain);
        let e = if c.plain { model::parse_plain(&c.query) } else { model::parse(&c.query) };
        let (mut appended, mut partial) = (false, false);
        for a in ALGOS {
            let mut f = Fz::new(a, c.cfg);
            let mut buf = to_ranges(&c.prior);
            for cand in &c.cands {
                let before = buf.clone();
                let d = f.dist_ranges(query, cand, &mut buf);
                let what = || format!("{a:?} {:?} query {:?} candidate {cand:?} buffer {before:?} -> {buf:?}", c.cfg, c.query);
                if d.is_none() {
                    if buf != before {
                        return Err(format!("buffer changed on a non-match: {}", what()));
                    }
                    let cc: Vec<char> = cand.chars().collect();
                    if !e.groups.is_empty() && e.groups[0].iter().any(|t| !t.neg && model::accepts_term(c.cfg, t, &cc)) {
                        partial = true;
                    }
                    continue;
                }
                if buf.len() < before.len() || buf[..before.len()] != before[..] {
                    return Err(format!("earlier contents changed: {}", what()));
                }
                let mut alone = Vec::new();
                Fz::new(a, c.cfg).dist_ranges(query, cand, &mut alone);
                if buf[before.len()..] != alone[..] {
                    return Err(format!("appended ranges differ from those for an empty buffer {alone:?}: {}", what()));
                }
                appended |= !alone.is_empty() && !before.is_empty();
            }
        }
        Ok(Obs::new(appended || partial)
            .label(appended, "appended to non-empty")
            .label(partial, "rejected after a partial match"))
    }
    fn shrink(&self, c: &BufCase) -> Vec<BufCase> {
        let mut v = Vec::new();
        for cands in shrink_vec(&c.cands, |x| shrink_str(x)) {
            if !cands.is_empty() {
                v.push(BufCase { cands, ..c.clone() });
            }
        }
        for prior in shrink_vec(&c.prior, |_| vec![]) {
            v.push(BufCase { prior, ..c.clone() });
        }
        for query in shrink_str(&c.query) {
            v.push(BufCase { query, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            v.push(BufCase { cfg, ..c.clone() });
        }
        v
    }
}

// ------------------------------------------------------------------- C04

/// Queries whose terms overlap, nest and abut in the candidate.
pub fn overlapping(s: &mut Src) -> Qc {
    let cand = gen::candidate(s);
    let cc: Vec<char> = cand.chars().collect();
    if cc.is_empty() {
        return gen::qc(s);
    }
    let mut q = String::new();
    // A window of the candidate from which all terms are taken.
    let w = s.range(1, 14).min(cc.len());
    let at = s.below(cc.len() - w + 1);
    for _ in 0..s.range(2, 7) {
        let a = at + s.below(w);
        let b = a + s.range(1, w.min(at + w - a));
        let (kind, text): (Kind, Vec<char>) = match s.weighted(&[4, 4, 1, 1, 1]) {
            0 => (Kind::Exact, cc[a..b].to_vec()),
            1 => {
                let mut t: Vec<char> = cc[a..at + w].iter().copied().filter(|_| s.chance(1, 2)).collect();
                if t.is_empty() {
                    t.push(cc[a]);
                }
                (Kind::Fuzzy, t)
            }
            2 => (Kind::Prefix, cc[..b.min(cc.len())].to_vec()),
            3 => (Kind::Suffix, cc[a..].to_vec()),
            _ => (Kind::Equal, cc.clone()),
        };
        let text = if text.len() > 60 { text[..60].to_vec() } else { text };
        if gen::printable(false, kind, &text) {
            if !q.is_empty() {
                q.push(' ');
            }
            q.push_str(&gen::print_term(false, kind, &text));
        }
    }
    Qc { query: q, plain: false, cand, cfg: gen::cfg(s) }
}

fn qc_ranges(s: &mut Src) -> Qc {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => overlapping(s),
        1 => gen::qc(s),
        2 => gen::qc_fuzzy(s),
        _ => gen::qc_contiguous(s),
    }
}

pub struct WellFormed;

impl Prop for WellFormed {
    type Case = Qc;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "Case: query (40% built from several terms cut from one window of the candidate so that their matches nest, overlap and abut), candidate, configuration; both metrics. Every appended range is checked for bounds, non-emptiness and character boundaries, and all pairs for overlap and adjacency. Non-trivial: at least one range was appended for a candidate that is non-ASCII, or by a query of two or more terms, or at least two ranges."
    }
    fn fuzz_runs(&self) -> usize {
        32_000
    }
    fn quick(&self) -> usize {
        252_000
    }
    fn gen(&self, s: &mut Src) -> Qc {
        qc_ranges(s)
    }
    fn huge(&self, s: &mut Src) -> Option<Qc> {
        Some(gen::huge(s))
    }
    fn check(&self, q: &Qc) -> Result<Obs, String> {
        let terms = q.expr().groups.len();
        let (mut multi, mut any) = (false, false);
        for a in ALGOS {
            let Some((_, r)) = sut::run(a, q.cfg, &q.query, q.plain, &q.cand) else { continue };
            for x in &r {
                if x.start >= x.end || x.end > q.cand.len() || !q.cand.is_char_boundary(x.start) || !q.cand.is_char_boundary(x.end) {
                    return Err(format!("{}: range {x:?} of {r:?} is empty, out of bounds or cuts a character", describe(a, q)));
                }
            }
            let mut sorted = r.clone();
            sorted.sort_by_key(|x| x.start);
            for w in sorted.windows(2) {
                if w[0].end >= w[1].start {
                    return Err(format!("{}: ranges {:?} and {:?} overlap or touch in {r:?}", describe(a, q), w[0], w[1]));
                }
            }
            any |= !r.is_empty();
            multi |= r.len() > 1;
        }
        Ok(Obs::new(any && (multi || terms > 1 || !q.cand.is_ascii()))
            .label(multi, "several ranges")
            .label(any && !q.cand.is_ascii(), "unicode candidate")
            .label(any && terms > 1, "several terms"))
    }
    fn shrink(&self, c: &Qc) -> Vec<Qc> {
        shrink_qc(c)
    }
}

// ------------------------------------------------------------------- C05

pub struct Witness;

/// Whether `pos` is a witness of the (positive) term on the candidate.
fn is_witness(cfg: Cfg, t: &model::Term, cc: &[char], pos: &[usize]) -> bool {
    let sens = model::sensitive(cfg, &t.text);
    let n = t.text.len();
    if pos.len() != n || !pos.iter().zip(&t.text).all(|(&p, &x)| model::ch_eq(cfg, sens, x, cc[p])) {
        return false;
    }
    let contiguous = pos.windows(2).all(|w| w[0] + 1 == w[1]);
    let blank = |r: &[char]| r.iter().all(|&c| c == ' ');
    match t.kind {
        Kind::Fuzzy => true,
        Kind::Exact => contiguous,
        Kind::Prefix => contiguous && blank(&cc[..pos[0]]),
        Kind::Suffix => contiguous && blank(&cc[pos[n - 1] + 1..]),
        Kind::Equal => contiguous && blank(&cc[..pos[0]]) && blank(&cc[pos[n - 1] + 1..]),
    }
}

impl Prop for Witness {
    type Case = Qc;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "Case as in C04. The covered characters are compared with the reference alignment, with the union of what each satisfied term covers when queried alone on the same metric, and each of those is checked to be a witness of its term (spells it, contiguous and anchored where the term demands it). Non-trivial: a match with at least two covered characters."
    }
    fn fuzz_runs(&self) -> usize {
        25_000
    }
    fn quick(&self) -> usize {
        108_000
    }
    fn gen(&self, s: &mut Src) -> Qc {
        qc_ranges(s)
    }
    fn huge(&self, s: &mut Src) -> Option<Qc> {
        Some(gen::huge(s))
    }
    fn check(&self, q: &Qc) -> Result<Obs, String> {
        let e = q.expr();
        let cc = q.cand_chars();
        let (mut n, mut terms) = (0, 0);
        for a in ALGOS {
            let got = sut::run(a, q.cfg, &q.query, q.plain, &q.cand);
            let want = model::eval(a, q.cfg, &e, &cc);
            let (Some((_, r)), Some(w)) = (got, want) else { continue };
            let Some(cov) = sut::covered(&q.cand, &r) else {
                return Err(format!("{}: invalid ranges {r:?}", describe(a, q)));
            };
            // Characters partly covered would be lost by `covered`.
            let bytes: usize = cov.iter().map(|&i| cc[i].len_utf8()).sum();
            let union: usize = r.iter().map(|x| x.len()).sum();
            if bytes != union {
                return Err(format!("{}: ranges {r:?} cover {union} bytes but whole characters of {bytes} bytes", describe(a, q)));
            }
            let mut expect = std::collections::BTreeSet::new();
            for g in &e.groups {
                let t = g.iter().find(|t| model::accepts_term(q.cfg, t, &cc)).unwrap();
                if t.neg {
                    continue;
                }
                terms += 1;
                let single = if q.plain || t.raw.ends_with('\\') || (e.groups.len() == 1 && g.len() == 1) {
                    Some(r.clone())
                } else {
                    sut::run(a, q.cfg, &t.raw, false, &q.cand).map(|x| x.1)
                };
                if q.plain || !t.raw.ends_with('\\') {
                    let pos = single.as_ref().and_then(|s| sut::covered(&q.cand, s));
                    match pos {
                        Some(p) if is_witness(q.cfg, t, &cc, &p) => expect.extend(p),
                        other => {
                            return Err(format!(
                                "{}: term {:?} alone covers {other:?} (ranges {single:?}), which does not witness it",
                                describe(a, q),
                                t.raw
                            ))
                        }
                    }
                } else {
                    expect.extend(model::match_term(a, q.cfg, t, &cc).unwrap().pos);
                }
            }
            let expect: Vec<usize> = expect.into_iter().collect();
            if cov != expect {
                return Err(format!(
                    "{}: ranges {r:?} cover characters {cov:?}, the terms' own matches {expect:?}",
                    describe(a, q)
                ));
            }
            if cov != w.pos {
                return Err(format!("{}: ranges {r:?} cover {cov:?}, reference alignment {:?}", describe(a, q), w.pos));
            }
            n = n.max(cov.len());
        }
        Ok(Obs::new(n >= 2).label(n >= 2, "two or more characters").label(terms > 2, "several positive terms"))
    }
    fn shrink(&self, c: &Qc) -> Vec<Qc> {
        shrink_qc(c)
    }
}

// ------------------------------------------------------------------- C06

pub struct Agree;

impl Prop for Agree {
    type Case = QcBuf;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "Case: query, candidate, configuration, prior buffer contents; on fresh metrics the two calls are made in both orders and with empty and non-empty buffers, and all results compared. Non-trivial: the candidate matches a non-empty query."
    }
    fn fuzz_runs(&self) -> usize {
        13_000
    }
    fn quick(&self) -> usize {
        112_000
    }
    fn gen(&self, s: &mut Src) -> QcBuf {
        QcBuf { qc: qc_ranges(s), prior: gen_prior(s) }
    }
    fn huge(&self, s: &mut Src) -> Option<QcBuf> {
        Some(QcBuf { qc: gen::huge(s), prior: gen_prior(s) })
    }
    fn check(&self, c: &QcBuf) -> Result<Obs, String> {
        let q = &c.qc;
        let mut p = FzfParser::new();
        let query = sut::parse(&mut p, &q.query, q.plain);
        let mut hit = false;
        for a in ALGOS {
            let mut f = Fz::new(a, q.cfg);
            let mut g = Fz::new(a, q.cfg);
            let plain = f.dist(query, &q.cand);
            let first = g.dist_ranges(query, &q.cand, &mut vec![]);
            let mut prior = to_ranges(&c.prior);
            let others = [
                f.dist_ranges(query, &q.cand, &mut prior),
                f.dist(query, &q.cand),
                g.dist(query, &q.cand),
                g.dist_ranges(query, &q.cand, &mut to_ranges(&c.prior)),
                g.dist_ranges(query, &q.cand, &mut prior),
                first,
            ];
            if let Some(i) = others.iter().position(|o| *o != plain) {
                return Err(format!("{}: distance gives {plain:?}, call {i} gives {:?}", describe(a, q), others[i]));
            }
            hit |= plain.is_some();
        }
        Ok(Obs::new(hit && !q.query.is_empty())
            .label(hit && q.cand.chars().count() > 20, "long candidate")
            .label(hit && q.expr().groups.len() > 1, "several terms"))
    }
    fn shrink(&self, c: &QcBuf) -> Vec<QcBuf> {
        shrink_qcbuf(c)
    }
}
