//! C15, C17: normalization of Latin letters; character classes and bonuses.

use super::basic::{describe, ALGOS};
use super::part_of;
use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::{self, lower, Algo, Kind};
use crate::normtable;
use crate::sut::{self, Fz};
use norm::fzf::FzfParser;
use serde::{Deserialize, Serialize};

fn same_as_model(a: Algo, q: &Qc) -> Result<Option<model::Hit>, String> {
    let cc = q.cand_chars();
    let want = model::eval(a, q.cfg, &q.expr(), &cc);
    let got = sut::run(a, q.cfg, &q.query, q.plain, &q.cand).map(|(s, mut r)| {
        r.sort_by_key(|x| x.start);
        (s, r)
    });
    let wr = want.as_ref().map(|h| (h.score, model::byte_ranges(&cc, &h.pos)));
    if got != wr {
        return Err(format!("{}: {got:?}, reference {wr:?}", describe(a, q)));
    }
    Ok(want)
}

const BLOCK: u32 = 256;
const BLOCKS: u32 = 0x110000 / BLOCK;

fn block(n: u32) -> impl Iterator<Item = char> {
    (n * BLOCK..(n + 1) * BLOCK).filter_map(char::from_u32)
}

// ------------------------------------------------------------------- C15

pub struct Normalize;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum NormCase {
    /// Query, candidate, and the metamorphic relations on them.
    Pair(Qc),
    /// A block of 256 code points: characters outside fzf's table match no
    /// ASCII letter or digit, and every character matches itself.
    Block(u32),
}

/// The candidate with the letters of the table (in Insensitive mode also
/// letters whose lowercase is in the table) replaced.
fn map_table(s: &str, insensitive: bool, f: impl Fn(char) -> char) -> String {
    s.chars()
        .map(|c| {
            let b = normtable::base(c);
            let bl = normtable::base(lower(c));
            if b != c {
                f(b)
            } else if insensitive && !c.is_ascii() && bl.is_ascii() && bl != lower(c) {
                f(bl)
            } else {
                c
            }
        })
        .collect()
}

/// Whether the lowercase of a table letter normalizes to another letter than
/// the letter itself (then no single base stands for it).
fn ambiguous(c: char) -> bool {
    let (b, bl) = (normtable::base(c), normtable::base(lower(c)));
    b != c && bl.is_ascii() && !b.eq_ignore_ascii_case(&bl)
}

fn check_block(n: u32) -> Result<Obs, String> {
    let all: Vec<char> = block(n).collect();
    if all.is_empty() {
        return Ok(Obs::default());
    }
    let letters = ('a'..='z').chain('A'..='Z').chain('0'..='9');
    // Characters no ASCII letter may match, under any configuration.
    let inert: String = all
        .iter()
        .copied()
        .filter(|&c| !c.is_ascii() && normtable::base(c) == c && !normtable::base(lower(c)).is_ascii())
        .collect();
    let mut parser = FzfParser::new();
    for case in CASES {
        for norm in [false, true] {
            let cfg = Cfg { case, norm, scheme: Scheme::Default };
            for a in ALGOS {
                let mut f = Fz::new(a, cfg);
                for l in letters.clone() {
                    let q = sut::parse(&mut parser, &l.to_string(), true);
                    if f.dist(q, &inert).is_some() {
                        let culprit =
                            inert.chars().find(|c| f.dist(q, &c.to_string()).is_some()).unwrap_or('?');
                        return Err(format!("{a:?} {cfg:?}: query {l:?} matches candidate {culprit:?} ({:#x})", culprit as u32));
                    }
                }
                for &c in &all {
                    let t = c.to_string();
                    let q = sut::parse(&mut parser, &t, true);
                    let mut r = vec![];
                    let d = f.dist_ranges(q, &t, &mut r);
                    if d.is_none() || r != [0..t.len()] {
                        return Err(format!("{a:?} {cfg:?}: query {t:?} on itself ({:#x}) gives {d:?} {r:?}", c as u32));
                    }
                }
            }
        }
    }
    Ok(Obs::new(!inert.is_empty()).label(true, "block of code points"))
}

/// Accents on some of the letters.
fn accents(s: &mut Src, text: &str) -> String {
    let density = s.range(1, 4);
    let mut same: std::collections::BTreeMap<char, Vec<char>> = Default::default();
    for &(c, b) in normtable::TABLE {
        same.entry(b.to_ascii_lowercase()).or_default().push(c);
    }
    text.chars()
        .map(|c| match same.get(&c.to_ascii_lowercase()) {
            Some(v) if s.chance(density, 5) => *s.pick(v),
            _ => c,
        })
        .collect()
}

impl Prop for Normalize {
    type Case = NormCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Case: a query and a candidate with accented letters; both metrics against the reference with an independent copy of fzf's table; with normalization on and an ASCII query, acceptance (and V1's alignment, for one fuzzy term) equals that on the candidate with its table letters replaced by their base letters; with it off, table letters behave like any foreign letter for an ASCII query. Exhaustive part: all 1,112,064 scalar values in blocks (no ASCII letter or digit matches a character outside the table; every character matches itself; all configurations) and every table letter × {base, base in the other case, itself, unrelated letters} × every term form × configuration. Non-trivial: the candidate has a letter of the table (or the block is not all table letters) and the query has text."
    }
    fn fuzz_runs(&self) -> usize {
        13_000
    }
    fn quick(&self) -> usize {
        48_000
    }
    fn gen(&self, s: &mut Src) -> NormCase {
        let mut qc = match s.weighted(&[4, 3, 3]) {
            0 => gen::qc(s),
            1 => gen::qc_fuzzy(s),
            _ => gen::qc_contiguous(s),
        };
        qc.cand = accents(s, &qc.cand);
        if s.chance(1, 2) {
            qc.query = qc.query.chars().map(normtable::base).filter(|c| c.is_ascii()).collect();
        }
        NormCase::Pair(qc)
    }
    fn huge(&self, s: &mut Src) -> Option<NormCase> {
        let mut qc = gen::huge(s);
        qc.cand = accents(s, &qc.cand);
        qc.cfg.norm = true;
        if s.chance(1, 2) {
            qc.query = qc.query.chars().map(normtable::base).filter(|c| c.is_ascii()).collect();
        }
        (qc.query.len() * qc.cand.len() < 30_000_000).then_some(NormCase::Pair(qc))
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        64
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<NormCase> {
        let mut out: Vec<NormCase> =
            part_of(0..BLOCKS, part, 64).into_iter().map(NormCase::Block).collect();
        for &(c, b) in part_of(normtable::TABLE.iter(), part, 64) {
            let other = if b == 'z' { 'y' } else { (b as u8 + 1) as char };
            let other = if other.is_ascii_alphabetic() { other } else { 'q' };
            for q in [b, gen::flip_case(b), c, gen::flip_case(c), other] {
                for kind in gen::KINDS {
                    for case in CASES {
                        for norm in [false, true] {
                            for cand in [c.to_string(), gen::flip_case(c).to_string(), format!("-{c}{c}_")] {
                                out.push(NormCase::Pair(Qc {
                                    query: gen::print_term(false, kind, &[q]),
                                    plain: false,
                                    cand,
                                    cfg: Cfg { case, norm, scheme: Scheme::Default },
                                }));
                            }
                        }
                    }
                }
            }
        }
        out
    }
    fn check(&self, c: &NormCase) -> Result<Obs, String> {
        let q = match c {
            NormCase::Block(n) => return check_block(*n),
            NormCase::Pair(q) => q,
        };
        let e = q.expr();
        let terms: Vec<_> = e.groups.iter().flatten().collect();
        let mut hit = false;
        for a in ALGOS {
            for norm in [false, true] {
                let q = Qc { cfg: Cfg { norm, ..q.cfg }, ..q.clone() };
                let h = same_as_model(a, &q)?;
                hit |= norm && h.is_some();
                if !q.query.is_ascii() || q.cfg.case == Case::Smart || q.cand.chars().any(ambiguous) {
                    continue;
                }
                let insensitive = q.cfg.case == Case::Insensitive;
                let base = Qc {
                    cand: map_table(&q.cand, norm && insensitive, |b| if norm { b } else { '日' }),
                    ..q.clone()
                };
                let x = sut::run(a, q.cfg, &q.query, q.plain, &q.cand);
                let y = sut::run(a, q.cfg, &base.query, q.plain, &base.cand);
                if x.is_some() != y.is_some() {
                    return Err(format!("{}: match {}, but {} on {:?}", describe(a, &q), x.is_some(), y.is_some(), base.cand));
                }
                if let (Some((_, r)), Some((_, s)), Algo::V1, [t]) = (x, y, a, &terms[..]) {
                    let (p, o) = (sut::covered(&q.cand, &r), sut::covered(&base.cand, &s));
                    if t.kind == Kind::Fuzzy && !t.neg && p != o {
                        return Err(format!("{}: covers {p:?}, but {o:?} on {:?}", describe(a, &q), base.cand));
                    }
                }
            }
        }
        let table = q.cand.chars().any(|c| normtable::base(c) != c);
        Ok(Obs::new(table && !terms.is_empty())
            .label(table && hit, "accented candidate matches")
            .label(!q.query.is_ascii(), "non-ASCII query")
            .label(terms.iter().any(|t| t.kind != Kind::Fuzzy), "contiguous term"))
    }
    fn shrink(&self, c: &NormCase) -> Vec<NormCase> {
        match c {
            NormCase::Pair(q) => shrink_qc(q).into_iter().map(NormCase::Pair).collect(),
            NormCase::Block(_) => vec![],
        }
    }
}

// ------------------------------------------------------------------- C17

pub struct Bonuses;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum BonusCase {
    Pair(Qc),
    /// A block of 256 code points: the bonus of each after a lowercase letter,
    /// and of a letter after each.
    Block(u32),
    /// A word after a separator: the ranking of separators.
    Ranking { word: String, filler: String, scheme: Scheme },
}

fn check_class_block(n: u32) -> Result<Obs, String> {
    let mut parser = FzfParser::new();
    let all: Vec<char> = block(n).filter(|&c| c != 'a' && c != 'b').collect();
    for scheme in SCHEMES {
        let cfg = Cfg { case: Case::Sensitive, norm: false, scheme };
        for a in ALGOS {
            let mut f = Fz::new(a, cfg);
            for &c in &all {
                let cand = format!("a{c}b");
                let cc = ['a', c, 'b'];
                let b = model::bonuses(scheme, &cc);
                for (j, ch) in [(1, c), (2, 'b')] {
                    let q = sut::parse(&mut parser, &ch.to_string(), true);
                    let got = f.dist(q, &cand).map(|d| d.into_score());
                    let want = 16 + 2 * b[j];
                    if got != Some(want) {
                        return Err(format!(
                            "{a:?} {scheme:?}: query {ch:?} candidate {cand:?} ({:#x} is {:?}): score {got:?}, expected {want}",
                            c as u32,
                            model::class(scheme, c)
                        ));
                    }
                }
            }
        }
    }
    Ok(Obs::new(!all.is_empty()).label(true, "block of code points"))
}

/// The best distances come first.
fn check_ranking(word: &str, filler: &str, scheme: Scheme) -> Result<Obs, String> {
    // Places a word can start at, best first; equal ranks may tie.
    let seps: &[&[&str]] = match scheme {
        Scheme::Default => &[&[" ", "\t", "\u{3000}"], &["/", ",", ":", ";", "|"], &["-", "_", ".", "\\", "("], &[""]],
        Scheme::Path => &[&["/"], &[" ", "-", "_", ",", "\\", ":"], &[""]],
        Scheme::History => &[&[" ", "/", "-", "_", ",", "\\"], &[""]],
    };
    let cfg = Cfg { case: Case::Sensitive, norm: false, scheme };
    for a in ALGOS {
        for plain in [true, false] {
            let query = if plain { word.to_string() } else { format!("'{word}") };
            let mut prev: Option<(i64, String)> = None;
            for rank in seps {
                let mut here: Option<(i64, String)> = None;
                for sep in *rank {
                    let cand = format!("{filler}{sep}{word}");
                    let Some(sc) = sut::score(a, cfg, &query, plain, &cand) else {
                        return Err(format!("{a:?} {scheme:?}: query {query:?} does not match {cand:?}"));
                    };
                    if let Some((s, c)) = &here {
                        if *s != sc {
                            return Err(format!("{a:?} {scheme:?}: query {query:?}: {cand:?} scores {sc}, {c:?} {s}"));
                        }
                    }
                    if let Some((s, c)) = &prev {
                        if sc >= *s {
                            return Err(format!("{a:?} {scheme:?}: query {query:?}: {cand:?} scores {sc}, not below {s} of {c:?}"));
                        }
                    }
                    here = Some((sc, cand));
                }
                prev = here;
            }
        }
    }
    Ok(Obs::new(!word.is_empty()).label(true, "ranking of separators"))
}

impl Prop for Bonuses {
    type Case = BonusCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Case: a term of any kind and a candidate mixing character classes (up to 300 characters, beyond 65536 in huge cases), several terms, or a word placed after different separators (ranking law of each scheme); scores of both metrics against the reference's bonus table. Exhaustive part: every ordered pair of ASCII characters and every single ASCII character, alone and behind other text, as candidate with the last as query; all scalar values in blocks as 'a<c>b' with the queries <c> and 'b'; three schemes each. Non-trivial: the query matches."
    }
    fn fuzz_runs(&self) -> usize {
        50_000
    }
    fn quick(&self) -> usize {
        150_000
    }
    fn gen(&self, s: &mut Src) -> BonusCase {
        if s.chance(1, 5) {
            let w: Vec<char> = "qwe".chars().collect();
            let word: String = (0..s.range(1, 5)).map(|_| *s.pick(&w)).collect();
            let f: Vec<char> = "xyz".chars().collect();
            let filler: String = (0..s.range(1, 12)).map(|_| *s.pick(&f)).collect();
            return BonusCase::Ranking { word, filler, scheme: *s.pick(&SCHEMES) };
        }
        let pool: Vec<char> = "abAB12 /-_,:;|.\t\u{b}\u{c}\n\u{a0}éÉЖжǅª²１½日🦀\u{2003}".chars().collect();
        if s.chance(1, 8) {
            // Several terms, and candidates of all kinds.
            return BonusCase::Pair(if s.chance(1, 2) { gen::qc(s) } else { gen::qc_contiguous(s) });
        }
        let n = match s.weighted(&[80, 12, 6, 2]) {
            0 => s.range(1, 9),
            1 => s.range(8, 40),
            2 => s.range(30, 140),
            _ => s.range(250, 300),
        };
        let cand: Vec<char> = (0..n).map(|_| *s.pick(&pool)).collect();
        let a = s.below(n);
        let len = s.range(1, 3).min(n - a);
        let mut text: Vec<char> = cand[a..a + len].to_vec();
        let kind = *s.pick(&[Kind::Fuzzy, Kind::Fuzzy, Kind::Exact, Kind::Prefix, Kind::Suffix, Kind::Equal]);
        match kind {
            Kind::Prefix => text = cand[..len].to_vec(),
            Kind::Suffix => text = cand[n - len..].to_vec(),
            Kind::Equal => text = cand.clone(),
            Kind::Fuzzy if s.chance(1, 3) => {
                // With gaps.
                let keep = s.range(1, 4);
                text = cand.iter().copied().filter(|_| s.chance(keep, 5)).collect();
                if text.is_empty() {
                    text.push(cand[a]);
                }
            }
            _ => {}
        }
        let cfg = gen::cfg(s);
        let plain = kind == Kind::Fuzzy || !gen::printable(false, kind, &text);
        let query = if plain { text.iter().collect() } else { gen::print_term(false, kind, &text) };
        BonusCase::Pair(Qc { query, plain, cand: cand.into_iter().collect(), cfg })
    }
    fn huge(&self, s: &mut Src) -> Option<BonusCase> {
        let qc = gen::huge(s);
        (qc.query.len() * qc.cand.len() < 30_000_000).then_some(BonusCase::Pair(qc))
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        64
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<BonusCase> {
        let mut out: Vec<BonusCase> =
            part_of(0..BLOCKS, part, 64).into_iter().map(BonusCase::Block).collect();
        for p in part_of(0..=128u8, part, 64) {
            for c in 0..128u8 {
                for scheme in SCHEMES {
                    for lead in ["", "é-", "xx"] {
                        let mut cand = lead.to_string();
                        if p < 128 {
                            cand.push(p as char);
                        }
                        cand.push(c as char);
                        out.push(BonusCase::Pair(Qc {
                            query: (c as char).to_string(),
                            plain: true,
                            cand,
                            cfg: Cfg { case: Case::Sensitive, norm: false, scheme },
                        }));
                    }
                }
            }
        }
        out
    }
    fn check(&self, c: &BonusCase) -> Result<Obs, String> {
        match c {
            BonusCase::Block(n) => check_class_block(*n),
            BonusCase::Ranking { word, filler, scheme } => check_ranking(word, filler, *scheme),
            BonusCase::Pair(q) => {
                let mut hit = false;
                for a in ALGOS {
                    hit |= same_as_model(a, q)?.is_some();
                }
                Ok(Obs::new(hit).label(hit, "pair").label(!q.cand.is_ascii(), "unicode"))
            }
        }
    }
    fn shrink(&self, c: &BonusCase) -> Vec<BonusCase> {
        match c {
            BonusCase::Pair(q) => shrink_qc(q).into_iter().map(BonusCase::Pair).collect(),
            BonusCase::Block(_) => vec![],
            BonusCase::Ranking { word, filler, scheme } => {
                let mut out = Vec::new();
                for w in shrink_vec(&word.chars().collect::<Vec<_>>(), |_| vec![]) {
                    if !w.is_empty() {
                        out.push(BonusCase::Ranking { word: w.into_iter().collect(), filler: filler.clone(), scheme: *scheme });
                    }
                }
                for f in shrink_vec(&filler.chars().collect::<Vec<_>>(), |_| vec![]) {
                    if !f.is_empty() {
                        out.push(BonusCase::Ranking { word: word.clone(), filler: f.into_iter().collect(), scheme: *scheme });
                    }
                }
                out
            }
        }
    }
}
