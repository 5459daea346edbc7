//! C23: the memory held is bounded by the largest inputs, not by how many.

use crate::alloc::{live, peak};
use crate::case::*;
use crate::driver::{Obs, Prop};
use crate::gen::{self, Src};
use crate::model::Algo;
use crate::sut::{self, Fz};
use norm::fzf::FzfParser;
use serde::{Deserialize, Serialize};

pub struct Heap;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Step {
    /// Parse a query with one of the parsers, then use it: (metric, candidate,
    /// with ranges).
    Use(usize, usize, Vec<(usize, usize, bool)>),
    /// Go on with a clone.
    CloneParser(usize),
    CloneMetric(usize),
    NewMetric(usize),
    Set(usize, Cfg),
    /// That many different queries and candidates, made from a short pair:
    /// (parser, query, metric, candidate, number).
    Many(usize, String, usize, String, usize),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Run {
    pub queries: Vec<(String, bool)>,
    pub cands: Vec<String>,
    pub steps: Vec<Step>,
}

const PARSERS: usize = 2;
const METRICS: [Algo; 3] = [Algo::V1, Algo::V2, Algo::V2];

/// Bytes allowed: for new objects, per byte of the longest query (parsers), per
/// byte of the longest candidate (metrics, the ranges), per cell of the matrix.
/// At least twice what was seen to be used.
const FIXED: usize = 128 * 1024;
const PER_QUERY: usize = 800;
const PER_CAND: usize = 300;
const PER_CELL: usize = 60;

struct World {
    parsers: Vec<FzfParser>,
    metrics: Vec<Fz>,
}

impl World {
    fn new() -> World {
        World {
            parsers: (0..PARSERS).map(|_| FzfParser::new()).collect(),
            metrics: METRICS.iter().map(|a| Fz::fresh(*a)).collect(),
        }
    }
    /// Performs the steps once and returns the largest rise during a call.
    fn round(&mut self, r: &Run, matches: &mut usize) -> (isize, String) {
        let mut worst = (0, String::new());
        let mut note = |rise: isize, what: &dyn Fn() -> String| {
            if rise > worst.0 {
                worst = (rise, what());
            }
        };
        for (n, s) in r.steps.iter().enumerate() {
            match s {
                Step::Use(p, q, uses) => {
                    let (text, plain) = &r.queries[q % r.queries.len()];
                    let parser = &mut self.parsers[p % PARSERS];
                    let (query, rise) = peak(|| sut::parse(parser, text, *plain));
                    note(rise, &|| format!("step {n}, parsing"));
                    for (m, c, ranges) in uses {
                        let cand = &r.cands[c % r.cands.len()];
                        let metric = &mut self.metrics[m % METRICS.len()];
                        let (hit, rise) = peak(|| {
                            if *ranges {
                                metric.dist_ranges(query, cand, &mut Vec::new()).is_some()
                            } else {
                                metric.dist(query, cand).is_some()
                            }
                        });
                        *matches += hit as usize;
                        note(rise, &|| format!("step {n}, metric {m} on candidate {c}"));
                    }
                }
                Step::CloneParser(p) => {
                    let i = p % PARSERS;
                    self.parsers[i] = self.parsers[i].clone();
                }
                Step::CloneMetric(m) => {
                    let i = m % METRICS.len();
                    self.metrics[i] = self.metrics[i].clone();
                }
                Step::NewMetric(m) => {
                    let i = m % METRICS.len();
                    self.metrics[i] = Fz::fresh(METRICS[i]);
                }
                Step::Set(m, cfg) => self.metrics[m % METRICS.len()].set(*cfg),
                Step::Many(p, q, m, c, n) => {
                    let metric = &mut self.metrics[m % METRICS.len()];
                    let mut ranges = Vec::new();
                    for k in 0..*n {
                        let query = sut::parse(&mut self.parsers[p % PARSERS], &format!("{q}{}", k / 8), k % 3 == 0);
                        let cand = format!("{c}{k}");
                        let hit = if k % 2 == 0 {
                            metric.dist(query, &cand)
                        } else {
                            ranges.clear();
                            metric.dist_ranges(query, &cand, &mut ranges)
                        };
                        *matches += hit.is_some() as usize;
                    }
                }
            }
        }
        worst
    }
}

impl Prop for Heap {
    type Case = Run;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "Case: 1..12 steps (parse and match with and without ranges, set, clone, new) on two parsers and three metrics over queries and candidates of very different sizes, performed four times while this thread's heap is counted. Held after each round and allocated during any call: at most a constant plus so much per byte of the longest query and candidate and, per metric, per cell of the largest query by candidate; the rounds after the second hold no more than it (or not more and more); after dropping everything nothing is held. Huge cases: thousands of characters, or up to 40000 different queries and candidates a round. Non-trivial: a match and two steps that use different queries or candidates, or a thousand of them."
    }
    fn quick(&self) -> usize {
        3000
    }
    fn gen(&self, s: &mut Src) -> Run {
        let (mut queries, mut cands) = (Vec::new(), Vec::new());
        for _ in 0..s.range(1, 4) {
            let q = match s.below(4) {
                0 => gen::qc(s),
                1 => gen::qc_contiguous(s),
                _ => gen::qc_fuzzy(s),
            };
            queries.push((q.query, q.plain));
            cands.push(q.cand);
        }
        if s.chance(1, 3) {
            let n = *s.pick(&[63, 65, 129, 200, 260]);
            let a = gen::alphabet(s);
            let q: String = (0..n).map(|_| *s.pick(&a)).collect();
            cands.push(q.chars().flat_map(|c| [c, *s.pick(&a)]).collect());
            queries.push((q, s.chance(1, 2)));
        }
        self.steps(s, queries, cands, 12)
    }
    fn huge(&self, s: &mut Src) -> Option<Run> {
        let (mut queries, mut cands) = (Vec::new(), Vec::new());
        let q = gen::huge(s);
        queries.push((q.query, q.plain));
        cands.push(q.cand);
        let q = gen::qc(s);
        queries.push((q.query, q.plain));
        cands.push(q.cand);
        let long_lived = s.chance(1, 2);
        if long_lived {
            queries.remove(0);
            cands.remove(0);
        }
        let mut r = self.steps(s, queries, cands, 4);
        if long_lived {
            for _ in 0..s.range(1, 2) {
                let q = s.pick(&["", "a", "a b", "'a | ^b ", "é", "!"]).to_string();
                let c = s.pick(&["", "a", "b/a", "é", "Ab"]).to_string();
                let n = if s.chance(1, 4) { s.range(10_000, 40_000) } else { s.range(1000, 10_000) };
                r.steps.push(Step::Many(s.below(PARSERS), q, s.below(METRICS.len()), c, n));
            }
        }
        Some(r)
    }
    fn check(&self, r: &Run) -> Result<Obs, String> {
        if r.queries.is_empty() || r.cands.is_empty() {
            return Ok(Obs::default());
        }
        let used = |f: &dyn Fn(&Step) -> bool| r.steps.iter().any(|s| f(s));
        if !used(&|s| matches!(s, Step::Use(..) | Step::Many(..))) {
            return Ok(Obs::default());
        }
        let mut q = r.queries.iter().map(|q| q.0.len()).max().unwrap();
        let mut c = r.cands.iter().map(|c| c.len()).max().unwrap();
        for step in &r.steps {
            if let Step::Many(_, text, _, cand, n) = step {
                let digits = n.to_string().len();
                q = q.max(text.len() + digits);
                c = c.max(cand.len() + digits);
            }
        }
        let cells = q * c;
        let bound = (FIXED + PARSERS * PER_QUERY * q + METRICS.len() * PER_CAND * c + METRICS.len() * PER_CELL * cells) as isize;
        // What the crate builds once for the whole process is not counted.
        World::new().round(r, &mut 0);
        let mut held = Vec::with_capacity(16);
        let mut matches = 0;
        let start = live();
        {
            let mut w = World::new();
            for round in 0..4 {
                let (rise, what) = w.round(r, &mut matches);
                if rise > bound {
                    return Err(format!("round {round}, {what}: {rise} bytes are allocated at once (at most {bound} expected for queries of {q} and candidates of {c} bytes)"));
                }
                drop(what);
                let now = live() - start;
                if now > bound {
                    return Err(format!("after round {round} {now} bytes are held (at most {bound} expected for queries of {q} and candidates of {c} bytes)"));
                }
                held.push(now);
            }
            // More in every further round: the memory grows with the number of calls.
            if held[3] > held[1] {
                for _ in 0..8 {
                    w.round(r, &mut matches);
                    held.push(live() - start);
                }
                if held.windows(2).skip(3).all(|w| w[1] > w[0]) {
                    return Err(format!("performing the same steps again and again holds more and more memory: {held:?} bytes"));
                }
            }
        }
        let left = live() - start;
        if left > 0 {
            return Err(format!("{left} bytes are still held after every parser and metric was dropped"));
        }
        let uses: std::collections::BTreeSet<_> = r
            .steps
            .iter()
            .flat_map(|s| match s {
                Step::Use(_, q, v) => v.iter().map(|x| (q % r.queries.len(), x.1 % r.cands.len())).collect(),
                _ => vec![],
            })
            .collect();
        let many = used(&|s| matches!(s, Step::Many(_, _, _, _, n) if *n >= 1000));
        Ok(Obs::new(matches > 0 && (uses.len() >= 2 || many))
            .label(many, "thousands of queries and candidates")
            .label(used(&|s| matches!(s, Step::CloneMetric(_) | Step::CloneParser(_))), "clones")
            .label(bound as usize > 4 * FIXED, "large")
            .label(matches > 0, "matches"))
    }
    fn shrink(&self, r: &Run) -> Vec<Run> {
        let mut out: Vec<Run> = shrink_vec(&r.steps, |s| match s {
            Step::Use(p, q, v) => shrink_vec(v, |_| vec![]).into_iter().map(|v| Step::Use(*p, *q, v)).collect(),
            Step::Many(p, q, m, c, n) => {
                shrink_usize(*n).into_iter().map(|n| Step::Many(*p, q.clone(), *m, c.clone(), n)).collect()
            }
            _ => vec![],
        })
        .into_iter()
        .map(|steps| Run { steps, ..r.clone() })
        .collect();
        for (i, c) in r.cands.iter().enumerate() {
            for x in shrink_str(c) {
                let mut g = r.clone();
                g.cands[i] = x;
                out.push(g);
            }
        }
        for (i, (q, _)) in r.queries.iter().enumerate() {
            for x in shrink_str(q) {
                let mut g = r.clone();
                g.queries[i].0 = x;
                out.push(g);
            }
        }
        out
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["What is allocated and freed on the calling thread is counted; the constants allow at least twice what was seen to be used."]
    }
}

impl Heap {
    fn steps(&self, s: &mut Src, queries: Vec<(String, bool)>, cands: Vec<String>, most: usize) -> Run {
        let steps = (0..s.range(1, most))
            .map(|_| match s.weighted(&[10, 1, 1, 1, 1]) {
                0 => {
                    let q = s.below(queries.len());
                    let uses = (0..s.range(0, 3))
                        .map(|_| {
                            let c = if s.chance(2, 3) { q } else { s.below(cands.len()) };
                            (s.below(METRICS.len()), c, s.chance(1, 2))
                        })
                        .collect();
                    Step::Use(s.below(PARSERS), q, uses)
                }
                1 => Step::CloneParser(s.below(PARSERS)),
                2 => Step::CloneMetric(s.below(METRICS.len())),
                3 => Step::NewMetric(s.below(METRICS.len())),
                _ => Step::Set(s.below(METRICS.len()), gen::cfg(s)),
            })
            .collect();
        Run { queries, cands, steps }
    }
}
