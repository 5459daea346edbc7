//! The system under test, behind one small uniform interface. Only public API.

use crate::case::{Case, Cfg, Scheme};
use crate::model::Algo;
use norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfScheme, FzfV1, FzfV2};
use norm::{CaseSensitivity, Metric};
use std::ops::Range;

pub enum Fz {
    V1(FzfV1),
    V2(FzfV2),
}

impl Clone for Fz {
    fn clone(&self) -> Fz {
        match self {
            Fz::V1(f) => Fz::V1(f.clone()),
            Fz::V2(f) => Fz::V2(f.clone()),
        }
    }
    fn clone_from(&mut self, other: &Fz) {
        match (self, other) {
            (Fz::V1(f), Fz::V1(g)) => f.clone_from(g),
            (Fz::V2(f), Fz::V2(g)) => f.clone_from(g),
            (f, g) => *f = g.clone(),
        }
    }
}

pub fn case_of(c: Case) -> CaseSensitivity {
    match c {
        Case::Sensitive => CaseSensitivity::Sensitive,
        Case::Insensitive => CaseSensitivity::Insensitive,
        Case::Smart => CaseSensitivity::Smart,
    }
}

pub fn scheme_of(s: Scheme) -> FzfScheme {
    match s {
        Scheme::Default => FzfScheme::Default,
        Scheme::Path => FzfScheme::Path,
        Scheme::History => FzfScheme::History,
    }
}

pub type Ranges = Vec<Range<usize>>;

impl Fz {
    pub fn fresh(a: Algo) -> Fz {
        match a {
            Algo::V1 => Fz::V1(FzfV1::new()),
            Algo::V2 => Fz::V2(FzfV2::new()),
        }
    }
    /// By way of Default.
    pub fn default(a: Algo) -> Fz {
        match a {
            Algo::V1 => Fz::V1(FzfV1::default()),
            Algo::V2 => Fz::V2(FzfV2::default()),
        }
    }
    pub fn new(a: Algo, cfg: Cfg) -> Fz {
        let mut f = Fz::fresh(a);
        f.set(cfg);
        f
    }
    pub fn algo(&self) -> Algo {
        match self {
            Fz::V1(_) => Algo::V1,
            Fz::V2(_) => Algo::V2,
        }
    }
    pub fn set(&mut self, cfg: Cfg) {
        self.set_case(cfg.case);
        self.set_norm(cfg.norm);
        self.set_scheme(cfg.scheme);
    }
    pub fn set_case(&mut self, c: Case) {
        match self {
            Fz::V1(f) => f.set_case_sensitivity(case_of(c)).touch(),
            Fz::V2(f) => f.set_case_sensitivity(case_of(c)).touch(),
        }
    }
    pub fn set_norm(&mut self, n: bool) {
        match self {
            Fz::V1(f) => f.set_candidate_normalization(n).touch(),
            Fz::V2(f) => f.set_candidate_normalization(n).touch(),
        }
    }
    pub fn set_scheme(&mut self, s: Scheme) {
        match self {
            Fz::V1(f) => f.set_scoring_scheme(scheme_of(s)).touch(),
            Fz::V2(f) => f.set_scoring_scheme(scheme_of(s)).touch(),
        }
    }
    pub fn dist(&mut self, q: FzfQuery<'_>, cand: &str) -> Option<FzfDistance> {
        match self {
            Fz::V1(f) => f.distance(q, cand),
            Fz::V2(f) => f.distance(q, cand),
        }
    }
    pub fn dist_ranges(&mut self, q: FzfQuery<'_>, cand: &str, r: &mut Ranges) -> Option<FzfDistance> {
        match self {
            Fz::V1(f) => f.distance_and_ranges(q, cand, r),
            Fz::V2(f) => f.distance_and_ranges(q, cand, r),
        }
    }
    pub fn debug(&self) -> String {
        match self {
            Fz::V1(f) => format!("{f:?}"),
            Fz::V2(f) => format!("{f:?}"),
        }
    }
}

trait Touch {
    fn touch(&mut self) {}
}
impl Touch for FzfV1 {}
impl Touch for FzfV2 {}

pub fn parse<'a>(p: &'a mut FzfParser, query: &str, plain: bool) -> FzfQuery<'a> {
    if plain {
        p.parse_not_extended(query)
    } else {
        p.parse(query)
    }
}

/// (score, appended ranges) from fresh instances of everything.
pub fn run(a: Algo, cfg: Cfg, query: &str, plain: bool, cand: &str) -> Option<(i64, Ranges)> {
    let mut p = FzfParser::new();
    let q = parse(&mut p, query, plain);
    let mut r = Vec::new();
    let d = Fz::new(a, cfg).dist_ranges(q, cand, &mut r);
    d.map(|d| (d.into_score(), r))
}

pub fn score(a: Algo, cfg: Cfg, query: &str, plain: bool, cand: &str) -> Option<i64> {
    let mut p = FzfParser::new();
    let q = parse(&mut p, query, plain);
    Fz::new(a, cfg).dist(q, cand).map(|d| d.into_score())
}

/// Char indices of `cand` covered by byte ranges; `None` if a range is not a
/// valid slice of the candidate.
pub fn covered(cand: &str, ranges: &[Range<usize>]) -> Option<Vec<usize>> {
    let mut out = std::collections::BTreeSet::new();
    for r in ranges {
        if r.start > r.end || cand.get(r.clone()).is_none() {
            return None;
        }
    }
    let offsets: Vec<usize> = cand.char_indices().map(|x| x.0).chain([cand.len()]).collect();
    for r in ranges {
        let first = offsets.partition_point(|&o| o < r.start);
        for i in first..offsets.len() - 1 {
            if offsets[i + 1] > r.end {
                break;
            }
            out.insert(i);
        }
    }
    Some(out.into_iter().collect())
}
