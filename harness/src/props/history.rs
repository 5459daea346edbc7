//! C07, C08: a metric or parser that has been used before behaves like a new one.

use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::Algo;
use crate::sut::{self, Fz};
use norm::fzf::FzfParser;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------- C07

pub struct MetricHistory;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    /// A new metric, by `new` or by `default`.
    New(bool),
    Set(Cfg),
    Case(Case),
    Norm(bool),
    Scheme(Scheme),
    /// Indices into the query and candidate pools (modulo their sizes).
    Dist(usize, usize),
    Ranges(usize, usize),
    /// Ranges into the buffer left by the previous Ranges operation.
    Append(usize, usize),
    /// Go on with a clone; the original is kept and compared at the end.
    Clone,
    /// The same, but the clone is made into a metric used before, if there is one.
    CloneInto,
    /// The same call again and again, with and without ranges in turns.
    Many(usize, usize, usize),
}

/// Numbers of repetitions: around the sizes of small counters and fractions of
/// them, or anything.
fn many(s: &mut Src, most: usize) -> usize {
    let large = most > 100_000;
    let n = match s.weighted(&[1, 1, 1, if large { 4 } else { 1 }]) {
        0 => s.range(2, 300),
        1 => s.range(250, 258),
        2 => *s.pick(&[64, 85, 128, 512, 768, 1024]) + s.range(0, 4) - 2,
        _ => *s.pick(&[4096, 16384, 21845, 32768, 65536, 131072]) + s.range(0, 8) - 4,
    };
    if n > most {
        n % most
    } else {
        n
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct History {
    pub v2: bool,
    pub queries: Vec<(String, bool)>,
    pub cands: Vec<String>,
    pub ops: Vec<Op>,
    /// In which operations (modulo 32) the query is parsed anew by a parser used
    /// before and the candidate is written where the one before was: the texts
    /// differ, where they are does not.
    #[serde(default)]
    pub in_place: u32,
}

/// Another text of the same length: some characters replaced by others of as
/// many bytes, or swapped.
fn twin(s: &mut Src, text: &str) -> String {
    let mut t: Vec<char> = text.chars().collect();
    for _ in 0..s.range(1, 3) {
        if t.is_empty() {
            break;
        }
        let (i, j) = (s.below(t.len()), s.below(t.len()));
        match s.below(3) {
            0 => t.swap(i, j),
            1 if t[i].len_utf8() == t[j].len_utf8() => t[i] = t[j],
            _ => {
                let c = *s.pick(&['a', 'b', 'A', '/', ' ', 'é', 'É', '日', '本']);
                if c.len_utf8() == t[i].len_utf8() {
                    t[i] = c;
                }
            }
        }
    }
    t.into_iter().collect()
}

/// What a user who is on the way to this query, or changes it, has typed: parts of
/// it, more than it, other operators.
fn edits(s: &mut Src, text: &str) -> Vec<String> {
    let mut t: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut at = s.below(t.len() + 1);
    if s.chance(1, 2) {
        t.truncate(at);
    }
    let full: Vec<char> = text.chars().collect();
    for _ in 0..s.range(1, 4) {
        match s.below(8) {
            0..=2 => {
                // Goes on.
                for _ in 0..s.range(1, 3) {
                    at = t.len();
                    t.push(if full.starts_with(&t) && at < full.len() { full[at] } else { *s.pick(&['a', 'b', 'B', ' ', '|', '\\', '$', '/', 'é']) });
                }
            }
            3 => {
                for _ in 0..s.range(1, 3) {
                    t.pop();
                }
            }
            4 if !t.is_empty() && "!^'".contains(t[0]) => {
                t.remove(0);
            }
            4 => t.insert(0, *s.pick(&['!', '^', '\''])),
            5 => match t.last() {
                Some('$') => {
                    t.pop();
                }
                _ => t.push('$'),
            },
            6 if !t.is_empty() => {
                let i = s.below(t.len());
                t[i] = if t[i].is_uppercase() { t[i].to_lowercase().next().unwrap() } else { t[i].to_uppercase().next().unwrap() };
            }
            _ => {
                let i = s.below(t.len() + 1);
                t.insert(i, *s.pick(&[' ', '|', '\\', 'a', 'é']));
            }
        }
        out.push(t.iter().collect());
    }
    out
}

/// Pool of queries and candidates of very different sizes that match each other.
fn pools(s: &mut Src) -> (Vec<(String, bool)>, Vec<String>) {
    let mut queries = Vec::new();
    let mut cands = Vec::new();
    // Of each query.
    let mut homes = Vec::new();
    for _ in 0..s.range(2, 4) {
        let q = match s.weighted(&[4, 3, 2]) {
            0 => gen::qc(s),
            1 => gen::qc_fuzzy(s),
            _ => gen::qc_contiguous(s),
        };
        queries.push((q.query, q.plain));
        homes.push(cands.len());
        cands.push(q.cand);
    }
    // A pair far larger than the others, and a long candidate for a short query.
    if s.chance(1, 2) {
        let a = gen::alphabet(s);
        let n = s.range(20, 130);
        let q: String = (0..n).map(|_| *s.pick(&a)).collect();
        let mut c = String::new();
        for ch in q.chars() {
            c.push(ch);
            for _ in 0..s.below(4) {
                c.push(*s.pick(&a));
            }
        }
        queries.push((q, true));
        homes.push(cands.len());
        cands.push(c);
    }
    if s.chance(1, 3) {
        let c = s.pick(&cands).clone();
        cands.push(c.repeat(s.range(2, 6)).chars().take(1500).collect());
    }
    // Unicode twins of ASCII candidates and the reverse.
    if s.chance(1, 2) {
        let mut c = s.pick(&cands).clone();
        if c.is_ascii() {
            c.push('日');
        } else {
            c = c.chars().filter(|c| c.is_ascii()).collect();
        }
        cands.push(c);
    }
    // Others of the same length.
    for _ in 0..s.below(3) {
        let i = s.below(cands.len());
        let c = twin(s, &cands[i]);
        cands.push(c);
    }
    if s.chance(1, 3) {
        let i = s.below(queries.len());
        let q = (twin(s, &queries[i].0), queries[i].1);
        queries.push(q);
        homes.push(homes[i]);
    }
    if s.chance(1, 2) {
        let i = s.below(queries.len());
        for t in edits(s, &queries[i].0) {
            queries.push((t, queries[i].1 != s.chance(1, 8)));
            homes.push(homes[i]);
        }
    }
    // Each query has its candidate at its own index.
    let mut all: Vec<String> = homes.into_iter().map(|h| cands[h].clone()).collect();
    all.extend(cands);
    (queries, all)
}

fn in_place(s: &mut Src) -> u32 {
    match s.below(3) {
        0 => 0,
        1 => u32::MAX,
        _ => s.u64() as u32,
    }
}

/// Calls, a very large number of a small call, and the same calls again.
fn long_lived(s: &mut Src, mut queries: Vec<(String, bool)>, mut cands: Vec<String>) -> History {
    let (a, b) = (*s.pick(&['a', 'x', '1', 'é']), *s.pick(&['a', 'b', '/', 'я']));
    queries.push((a.to_string(), s.chance(1, 2)));
    cands.push(format!("{b}{}", if s.chance(2, 3) { a } else { b }));
    let small = (queries.len() - 1, cands.len() - 1);
    let calls: Vec<Op> = (0..s.range(1, 4))
        .map(|_| {
            let q = s.below(queries.len());
            let c = if s.chance(2, 3) { q } else { s.below(cands.len()) };
            s.pick(&[Op::Dist(q, c), Op::Ranges(q, c)]).clone()
        })
        .collect();
    let mut ops = Vec::new();
    if s.chance(1, 3) {
        ops.push(Op::Set(gen::cfg(s)));
    }
    ops.extend(calls.iter().cloned());
    for _ in 0..s.range(1, 2) {
        ops.push(Op::Many(many(s, 200_000), small.0, small.1));
        if s.chance(1, 4) {
            ops.push(Op::Set(gen::cfg(s)));
        }
        let from = s.below(calls.len());
        ops.extend(calls[from..].iter().cloned());
        for _ in 0..s.below(3) {
            let (q, c) = (s.below(queries.len()), s.below(cands.len()));
            ops.push(s.pick(&[Op::Dist(q, c), Op::Ranges(q, c)]).clone());
        }
    }
    History { v2: s.chance(2, 3), queries, cands, ops, in_place: in_place(s) }
}

impl Prop for MetricHistory {
    type Case = History;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "Case: 2..24 operations (new, default, setters, distance, distance_and_ranges with an empty or a used buffer, clone, clone_from, the same small call up to a thousand, in huge cases 131076 times) on one metric over a pool of queries and candidates of very different or of the same sizes, or of a query as it is typed and edited on the same candidate, in part parsed anew by one parser and read from the place of the one before; exhaustively, calls on two candidates 251..259 and 65531..65539 small calls apart; after every measuring operation the answer is compared with that of a metric made for this one call. Non-trivial: at least two measuring operations, one of them a match, after an operation that changed the configuration or measured something else."
    }
    fn fuzz_runs(&self) -> usize {
        11_000
    }
    fn quick(&self) -> usize {
        19_200
    }
    fn gen(&self, s: &mut Src) -> History {
        let (queries, cands) = pools(s);
        let mut ops = Vec::new();
        for _ in 0..s.range(2, 24) {
            let (q, c) = if s.chance(2, 3) {
                let i = s.below(queries.len());
                (i, i)
            } else {
                (s.below(queries.len()), s.below(cands.len()))
            };
            ops.push(match s.weighted(&[2, 4, 4, 4, 4, 16, 16, 8, 2, 1, 2]) {
                0 => Op::New(s.chance(1, 2)),
                1 => Op::Set(gen::cfg(s)),
                2 => Op::Case(*s.pick(&CASES)),
                3 => Op::Norm(s.chance(1, 2)),
                4 => Op::Scheme(*s.pick(&SCHEMES)),
                5 => Op::Dist(q, c),
                6 => Op::Ranges(q, c),
                7 => Op::Append(q, c),
                8 => Op::Clone,
                10 => Op::CloneInto,
                // Of small calls.
                _ if queries[q].0.len() * cands[c].len() < 400 => Op::Many(many(s, 1100), q, c),
                _ => Op::Dist(q, c),
            });
        }
        History { v2: s.chance(2, 3), queries, cands, ops, in_place: in_place(s) }
    }
    fn huge(&self, s: &mut Src) -> Option<History> {
        let (mut queries, mut cands) = pools(s);
        if s.chance(1, 2) {
            return Some(long_lived(s, queries, cands));
        }
        for _ in 0..s.range(1, 2) {
            let q = gen::huge(s);
            cands.insert(queries.len(), q.cand);
            queries.push((q.query, q.plain));
        }
        let mut ops = Vec::new();
        for _ in 0..s.range(3, 9) {
            let i = if s.chance(1, 3) { queries.len() - 1 } else { s.below(queries.len()) };
            let c = i;
            ops.push(match s.weighted(&[1, 3, 4, 2, 1, 1]) {
                0 => Op::Set(gen::cfg(s)),
                1 => Op::Dist(i, c),
                2 => Op::Ranges(i, c),
                3 => Op::Append(i, c),
                4 => Op::CloneInto,
                _ => Op::Clone,
            });
        }
        Some(History { v2: s.chance(2, 3), queries, cands, ops, in_place: in_place(s) })
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        16
    }
    /// Counters of 8 and 16 bits that come round: two calls with the same query on
    /// two candidates, and in between as many small calls as bring the second of
    /// them to the counter's value at the first.
    fn exhaustive(&self, part: usize, tier: Tier) -> Vec<History> {
        let mut out = Vec::new();
        let mut counts: Vec<usize> = vec![];
        for n in [1usize << 8, 1 << 16].into_iter().chain((tier == Tier::Thorough).then_some(1 << 17)) {
            counts.extend(n - 5..n + 4);
        }
        let first = [("a///b", "axxxb", "ab"), ("ab/xxb", "aab/bb", "ab"), ("xxaxxbxxc", "abcabcabc", "abc")];
        for (k, n) in counts.into_iter().enumerate() {
            for (l, (x, y, q)) in first.into_iter().enumerate() {
                for (m, small) in [("x", "xy"), ("xy", "xy")].into_iter().enumerate() {
                    for v2 in [false, true] {
                        for ranges in [false, true] {
                            if (k + l + 3 * m) % 16 != part {
                                continue;
                            }
                            let call = |c| if ranges { Op::Ranges(0, c) } else { Op::Dist(0, c) };
                            out.push(History {
                                v2,
                                queries: vec![(q.to_string(), false), (small.0.to_string(), false)],
                                cands: vec![x.to_string(), y.to_string(), small.1.to_string()],
                                ops: vec![call(0), Op::Many(n, 1, 2), call(1), call(0)],
                                in_place: if n < 1 << 10 { n as u32 } else { 0 },
                            });
                        }
                    }
                }
            }
        }
        out
    }
    fn check(&self, h: &History) -> Result<Obs, String> {
        let algo = if h.v2 { Algo::V2 } else { Algo::V1 };
        if h.queries.is_empty() || h.cands.is_empty() {
            return Ok(Obs::default());
        }
        let mut metric = Fz::fresh(algo);
        let mut cfg = Cfg::default();
        let mut parsers: Vec<FzfParser> = h.queries.iter().map(|_| FzfParser::new()).collect();
        let queries: Vec<_> =
            parsers.iter_mut().zip(&h.queries).map(|(p, (q, plain))| sut::parse(p, q, *plain)).collect();
        let mut clones: Vec<(Fz, Cfg)> = Vec::new();
        let mut buf = Vec::new();
        let (mut measured, mut hits, mut resized, mut repeated) = (0, 0, 0, 0);
        let mut last = None;
        let mut parser = FzfParser::new();
        let mut place = String::with_capacity(h.cands.iter().map(|c| c.len()).max().unwrap());
        let mut one = |m: &mut Fz, cfg: Cfg, i: usize, q: usize, c: usize, ranges: Option<&mut sut::Ranges>, at: String| {
            let (k, cand) = (q % queries.len(), &h.cands[c % h.cands.len()]);
            let q = queries[k];
            let mut fresh = Fz::new(m.algo(), cfg);
            place.clear();
            place.push_str(cand);
            let (used_q, used) = if h.in_place >> (i % 32) & 1 == 1 {
                (sut::parse(&mut parser, &h.queries[k].0, h.queries[k].1), &place)
            } else {
                (q, cand)
            };
            match ranges {
                None => {
                    let got = m.dist(used_q, used);
                    let want = fresh.dist(q, cand);
                    if got != want {
                        return Err(format!("{at}: distance gives {got:?}, a new metric {want:?}"));
                    }
                    Ok(got.is_some())
                }
                Some(buf) => {
                    let n = buf.len();
                    let got = m.dist_ranges(used_q, used, buf);
                    let mut alone = Vec::new();
                    let want = fresh.dist_ranges(q, cand, &mut alone);
                    let added = buf.get(n.min(buf.len())..).unwrap().to_vec();
                    if got != want || (got.is_some() && added != alone) {
                        return Err(format!(
                            "{at}: distance_and_ranges gives {got:?} {added:?}, a new metric {want:?} {alone:?}"
                        ));
                    }
                    Ok(got.is_some())
                }
            }
        };
        for (i, op) in h.ops.iter().enumerate() {
            let at = format!("operation {i} {op:?}");
            let pair = match op {
                Op::New(default) => {
                    metric = if *default { Fz::default(algo) } else { Fz::fresh(algo) };
                    cfg = Cfg::default();
                    continue;
                }
                Op::Set(c) => {
                    metric.set(*c);
                    cfg = *c;
                    continue;
                }
                Op::Case(c) => {
                    metric.set_case(*c);
                    cfg.case = *c;
                    continue;
                }
                Op::Norm(n) => {
                    metric.set_norm(*n);
                    cfg.norm = *n;
                    continue;
                }
                Op::Scheme(x) => {
                    metric.set_scheme(*x);
                    cfg.scheme = *x;
                    continue;
                }
                Op::Clone => {
                    let c = metric.clone();
                    clones.push((std::mem::replace(&mut metric, c), cfg));
                    continue;
                }
                Op::CloneInto => {
                    let mut c = clones.pop().map_or_else(|| Fz::default(algo), |c| c.0);
                    c.clone_from(&metric);
                    clones.push((std::mem::replace(&mut metric, c), cfg));
                    continue;
                }
                Op::Dist(q, c) => {
                    hits += one(&mut metric, cfg, i, *q, *c, None, at)? as usize;
                    (*q, *c)
                }
                Op::Ranges(q, c) => {
                    buf.clear();
                    hits += one(&mut metric, cfg, i, *q, *c, Some(&mut buf), at)? as usize;
                    (*q, *c)
                }
                Op::Append(q, c) => {
                    hits += one(&mut metric, cfg, i, *q, *c, Some(&mut buf), at)? as usize;
                    (*q, *c)
                }
                Op::Many(n, q, c) => {
                    let (query, cand) = (queries[q % queries.len()], &h.cands[c % h.cands.len()]);
                    let mut want_r = Vec::new();
                    let want = Fz::new(algo, cfg).dist_ranges(query, cand, &mut want_r);
                    let mut got_r = Vec::new();
                    for k in 0..*n {
                        let (got, same) = if k % 2 == 0 {
                            (metric.dist(query, cand), true)
                        } else {
                            got_r.clear();
                            let got = metric.dist_ranges(query, cand, &mut got_r);
                            (got, got_r == want_r || got.is_none())
                        };
                        if got != want || !same {
                            return Err(format!(
                                "{at}, call {k}: gives {got:?} {got_r:?}, a new metric {want:?} {want_r:?}"
                            ));
                        }
                    }
                    hits += want.is_some() as usize;
                    repeated += n;
                    (*q, *c)
                }
            };
            measured += 1;
            if last.is_some_and(|l| l != pair) {
                resized += 1;
            }
            last = Some(pair);
        }
        // Clones share nothing with the metric that went on.
        for (k, (mut m, c)) in clones.into_iter().enumerate() {
            for i in 0..h.queries.len().min(h.cands.len()) {
                one(&mut m, c, i, i, i, Some(&mut Vec::new()), format!("clone {k}, pair {i}"))?;
            }
        }
        // The configuration shown is the one set.
        let mut want = Fz::fresh(algo);
        want.set(cfg);
        if metric.debug() != want.debug() {
            return Err(format!("{} after the history, a new metric with the same settings shows {}", metric.debug(), want.debug()));
        }
        Ok(Obs::new(measured >= 2 && hits >= 1 && resized >= 1)
            .label(hits >= 2, "two or more matches")
            .label(h.v2, "v2")
            .label(repeated > 0, "hundreds of calls")
            .label(repeated >= 65_000, "more than 65000 calls")
            .label(h.in_place != 0, "texts in the place of others")
            .label(resized >= 2, "different sizes"))
    }
    fn shrink(&self, h: &History) -> Vec<History> {
        let mut out: Vec<History> =
            [0, u32::MAX].into_iter().filter(|x| h.in_place.count_ones() % 32 != 0 && *x != h.in_place).map(|in_place| History { in_place, ..h.clone() }).collect();
        out.extend(
            shrink_vec(&h.ops, |o| match o {
                Op::Many(n, q, c) => shrink_usize(*n).into_iter().map(|n| Op::Many(n, *q, *c)).collect(),
                _ => vec![],
            })
            .into_iter()
            .map(|ops| History { ops, ..h.clone() }));
        for (i, c) in h.cands.iter().enumerate() {
            for x in shrink_str(c) {
                let mut g = h.clone();
                g.cands[i] = x;
                out.push(g);
            }
        }
        for (i, (q, _)) in h.queries.iter().enumerate() {
            for x in shrink_str(q) {
                let mut g = h.clone();
                g.queries[i].0 = x;
                out.push(g);
            }
        }
        out
    }
}

// ------------------------------------------------------------------- C08

pub struct ParserHistory;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Parses {
    /// (query, plain, clone the parser first)
    pub ops: Vec<(String, bool, bool)>,
    pub cands: Vec<String>,
    pub cfg: Cfg,
    /// Before which operation how often which query (extended or not) is parsed.
    #[serde(default)]
    pub many: Vec<(usize, usize, String, bool)>,
}

fn sized_query(s: &mut Src, cand: &[char]) -> String {
    match s.weighted(&[5, 2, 2, 1]) {
        0 => gen::ext_query(s, cand, 90),
        1 => {
            // Around the sizes of the parser's buffers.
            let n = *s.pick(&[1, 31, 32, 62, 63, 64, 65, 66, 127, 128, 129, 130, 200, 300]);
            let a = gen::alphabet(s);
            (0..n).map(|_| *s.pick(&a)).collect()
        }
        2 => {
            // Many words.
            let n = s.range(1, 140);
            let mut q = String::new();
            for i in 0..n {
                if i > 0 {
                    q.push_str(if s.chance(1, 5) { " | " } else { " " });
                }
                q.push(*s.pick(&['a', 'b', 'A', 'é']));
            }
            q
        }
        _ => gen::text_from(s, cand, None).into_iter().collect(),
    }
}

impl Prop for ParserHistory {
    type Case = Parses;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "Case: 2..13 parses (extended or not, from nothing to several hundred characters or words, sometimes on a clone, which may be made into a parser used before, sometimes after up to a thousand, in huge cases 131076 parses of a short query), sometimes of a query as it is typed and edited, all read from the same place, on one parser; after each, the query's Debug form and its results on 1..4 candidates with both metrics are compared with those of the same string parsed by a new parser. Non-trivial: two or more parses of different non-empty strings, one matching a candidate. Exhaustive part: every ordered pair from 24 queries at buffer-size edges, in all four mode combinations."
    }
    fn fuzz_runs(&self) -> usize {
        11_000
    }
    fn quick(&self) -> usize {
        22_500
    }
    fn gen(&self, s: &mut Src) -> Parses {
        let cands: Vec<String> = (0..s.range(1, 4)).map(|_| gen::candidate(s)).collect();
        let cc: Vec<char> = cands[0].chars().collect();
        let ops: Vec<_> = (0..s.range(2, 8)).map(|_| (sized_query(s, &cc), s.chance(1, 3), s.chance(1, 8))).collect();
        let mut ops = ops;
        if s.chance(1, 3) {
            let i = s.below(ops.len());
            let other = (twin(s, &ops[i].0), ops[i].1 != s.chance(1, 6), false);
            ops.insert(i + 1, other);
        }
        if s.chance(1, 3) {
            let i = s.below(ops.len());
            let mut at = i + 1;
            for t in edits(s, &ops[i].0) {
                at += s.chance(1, 4) as usize;
                at = at.min(ops.len());
                ops.insert(at, (t, ops[i].1 != s.chance(1, 8), s.chance(1, 16)));
                at += 1;
            }
        }
        let many = if s.chance(1, 12) { self.many(s, ops.len(), 1100) } else { vec![] };
        Parses { ops, cands, cfg: gen::cfg(s), many }
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        8
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<Parses> {
        let mut qs: Vec<String> = Vec::new();
        for n in [0usize, 1, 32, 63, 64, 65, 128, 129, 257] {
            qs.push("a".repeat(n));
            qs.push("é".repeat(n / 2));
        }
        for n in [1usize, 32, 33, 64, 65, 130] {
            qs.push(vec!["b"; n].join(" "));
        }
        let mut out = Vec::new();
        for (i, x) in qs.iter().enumerate() {
            if i % 8 != part {
                continue;
            }
            for y in &qs {
                for (p, r) in [(false, false), (false, true), (true, false), (true, true)] {
                    out.push(Parses {
                        ops: vec![(x.clone(), p, false), (y.clone(), r, false)],
                        cands: vec!["a".repeat(300), "b".into(), format!("{}é", "b ".repeat(150)), "é".repeat(130)],
                        cfg: Cfg::default(),
                        many: vec![],
                    });
                }
            }
        }
        out
    }
    fn huge(&self, s: &mut Src) -> Option<Parses> {
        let mut ops = Vec::new();
        let mut cands = Vec::new();
        for _ in 0..s.range(1, 2) {
            let q = gen::huge(s);
            ops.push((q.query, q.plain, s.chance(1, 8)));
            cands.push(q.cand);
        }
        for _ in 0..s.range(1, 3) {
            let q = gen::qc(s);
            let at = s.below(ops.len() + 1);
            ops.insert(at, (q.query, q.plain, s.chance(1, 8)));
            cands.push(q.cand);
        }
        let many = if s.chance(1, 3) { self.many(s, ops.len(), 200_000) } else { vec![] };
        Some(Parses { ops, cands, cfg: gen::cfg(s), many })
    }
    fn check(&self, h: &Parses) -> Result<Obs, String> {
        let mut parser = if h.ops.len() % 2 == 0 { FzfParser::new() } else { FzfParser::default() };
        let mut spare = FzfParser::new();
        let mut hits = 0;
        // All texts are read from the same place.
        let mut place = String::with_capacity(h.ops.iter().map(|o| o.0.len()).max().unwrap_or(0));
        for (i, (text, plain, clone)) in h.ops.iter().enumerate() {
            if *clone && i % 2 == 0 {
                parser = parser.clone();
            } else if *clone {
                // Into a parser used before.
                spare.clone_from(&parser);
                std::mem::swap(&mut spare, &mut parser);
            }
            for (_, n, text, plain) in h.many.iter().filter(|m| m.0 == i) {
                let want = format!("{:?}", sut::parse(&mut FzfParser::new(), text, *plain));
                for k in 0..*n {
                    let query = sut::parse(&mut parser, text, *plain);
                    if k % 61 == 0 || k + 1 == *n {
                        let got = format!("{query:?}");
                        if got != want {
                            return Err(format!("before operation {i}, parse {k} of {text:?}: {got}, a new parser gives {want}"));
                        }
                    }
                }
            }
            place.clear();
            place.push_str(text);
            let query = sut::parse(&mut parser, &place, *plain);
            let mut other = FzfParser::new();
            let want_q = sut::parse(&mut other, text, *plain);
            let at = format!("parse {i} of {text:?}{}", if *plain { " (plain)" } else { "" });
            let (a, b) = (format!("{query:?}"), format!("{want_q:?}"));
            if a != b {
                return Err(format!("{at}: {a}, a new parser gives {b}"));
            }
            for algo in super::basic::ALGOS {
                for cand in &h.cands {
                    let (mut r1, mut r2) = (vec![], vec![]);
                    let d1 = Fz::new(algo, h.cfg).dist_ranges(query, cand, &mut r1);
                    let d2 = Fz::new(algo, h.cfg).dist_ranges(want_q, cand, &mut r2);
                    if d1 != d2 || r1 != r2 {
                        return Err(format!(
                            "{at}: {algo:?} {:?} on {cand:?} gives {d1:?} {r1:?}, the query of a new parser {d2:?} {r2:?}",
                            h.cfg
                        ));
                    }
                    hits += d1.is_some() as usize;
                }
            }
        }
        let texts: std::collections::BTreeSet<_> = h.ops.iter().filter(|o| !o.0.is_empty()).map(|o| &o.0).collect();
        Ok(Obs::new(texts.len() >= 2 && hits > 0)
            .label(h.ops.iter().any(|o| o.0.chars().count() > 64), "more than 64 characters")
            .label(!h.many.is_empty(), "hundreds of parses")
            .label(h.many.iter().any(|m| m.1 > 65_000), "more than 65000 parses")
            .label(h.ops.iter().any(|o| o.1) && h.ops.iter().any(|o| !o.1), "both modes")
            .label(hits > 1, "matches"))
    }
    fn shrink(&self, h: &Parses) -> Vec<Parses> {
        let mut out: Vec<Parses> =
            shrink_vec(&h.ops, |_| vec![]).into_iter().map(|ops| Parses { ops, ..h.clone() }).collect();
        out.extend(
            shrink_vec(&h.many, |(i, n, t, p)| {
                shrink_usize(*n).into_iter().map(|n| (*i, n, t.clone(), *p)).chain((*i > 0).then(|| (i - 1, *n, t.clone(), *p))).collect()
            })
            .into_iter()
            .map(|many| Parses { many, ..h.clone() }),
        );
        for i in 0..h.cands.len() {
            let mut g = h.clone();
            g.cands.remove(i);
            out.push(g);
        }
        for (i, o) in h.ops.iter().enumerate() {
            for x in shrink_str(&o.0) {
                let mut g = h.clone();
                g.ops[i].0 = x;
                out.push(g);
            }
        }
        for (i, c) in h.cands.iter().enumerate() {
            for x in shrink_str(c) {
                let mut g = h.clone();
                g.cands[i] = x;
                out.push(g);
            }
        }
        for cfg in shrink_cfg(h.cfg) {
            out.push(Parses { cfg, ..h.clone() });
        }
        out
    }
}

impl ParserHistory {
    fn many(&self, s: &mut Src, ops: usize, most: usize) -> Vec<(usize, usize, String, bool)> {
        (0..s.range(1, 2))
            .map(|_| {
                let text = *s.pick(&["", "a", "a b", "a | b", "é", "!a 'b ^c", "\\ "]);
                (s.below(ops), many(s, most), text.to_string(), s.chance(1, 3))
            })
            .collect()
    }
}
