//! C14: case sensitivity.

use super::basic::{describe, ALGOS};
use super::part_of;
use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::{self, lower, Algo, Kind};
use crate::normtable;
use crate::sut;
use serde::{Deserialize, Serialize};

pub struct CaseModes;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CaseCase {
    pub qc: Qc,
    /// Which characters of query and candidate change case (bits, cyclic).
    pub flips: Vec<u8>,
}

/// Whether flipping the case of `c` leaves every character it can be equal to
/// under a case-insensitive comparison unchanged.
fn flippable(c: char, norm: bool) -> bool {
    let f = gen::flip_case(c);
    if f == c {
        return false;
    }
    if c.is_ascii() {
        return true;
    }
    let same = |a: char, b: char| lower(a) == lower(b) && a.to_lowercase().eq(b.to_lowercase());
    if f.is_ascii() || !same(c, f) {
        return false;
    }
    let bases = |x: char| {
        let mut v: Vec<char> = [normtable::base(x), normtable::base(lower(x))]
            .into_iter()
            .filter(|b| b.is_ascii())
            .map(|b| b.to_ascii_lowercase())
            .collect();
        v.sort();
        v.dedup();
        v
    };
    !norm || bases(c) == bases(f)
}

fn flip(text: &str, flips: &[u8], from: usize, norm: bool) -> String {
    if flips.is_empty() {
        return text.to_string();
    }
    text.chars()
        .enumerate()
        .map(|(i, c)| {
            let k = from + i;
            if flips[(k / 8) % flips.len()] >> (k % 8) & 1 == 1 && flippable(c, norm) {
                gen::flip_case(c)
            } else {
                c
            }
        })
        .collect()
}

fn accepts(a: Algo, cfg: Cfg, q: &Qc) -> bool {
    sut::score(a, cfg, &q.query, q.plain, &q.cand).is_some()
}

/// All pairs of different characters of which one is the simple lowercase of the other.
pub fn case_pairs() -> Vec<(char, char)> {
    let mut v = Vec::new();
    for u in 0..=0x10FFFFu32 {
        let Some(c) = char::from_u32(u) else { continue };
        let l = lower(c);
        if l != c {
            v.push((c, l));
        }
        let mut it = c.to_uppercase();
        if let (Some(x), None) = (it.next(), it.next()) {
            if x != c && lower(x) != c {
                v.push((x, c));
            }
        }
    }
    v
}

impl Prop for CaseModes {
    type Case = CaseCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Case: query, candidate, configuration and a set of characters whose case is flipped. Insensitive: acceptance is the same before and after the flips in query and candidate. Smart: a query in which every term has (no term has) an uppercase letter answers exactly as Sensitive (Insensitive). All modes: acceptance equals the reference's, and Sensitive accepting implies Insensitive accepting when nothing is negated. Exhaustive part: every pair of characters related by a simple case mapping in the whole of Unicode, both ways round, in every term form, three modes, normalization on and off. Non-trivial: a cased character in the query, and the candidate is accepted in at least one mode."
    }
    fn fuzz_runs(&self) -> usize {
        20_000
    }
    fn quick(&self) -> usize {
        60_000
    }
    fn gen(&self, s: &mut Src) -> CaseCase {
        let mut qc = match s.weighted(&[5, 3, 3]) {
            0 => gen::qc(s),
            1 => gen::qc_fuzzy(s),
            _ => gen::qc_contiguous(s),
        };
        if s.chance(1, 3) {
            // A query in one case only.
            let up = s.chance(1, 2);
            qc.query = qc
                .query
                .chars()
                .map(|c| if if up { c.is_lowercase() } else { c.is_uppercase() } { gen::flip_case(c) } else { c })
                .collect();
        }
        CaseCase { qc, flips: (0..s.range(1, 8)).map(|_| s.below(256) as u8).collect() }
    }
    fn exhaustive_parts(&self, _: Tier) -> usize {
        16
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<CaseCase> {
        let mut out = Vec::new();
        for (u, l) in part_of(case_pairs(), part, 16) {
            for (q, c) in [(u, l), (l, u), (u, u), (l, l)] {
                for kind in gen::KINDS {
                    let query = gen::print_term(false, kind, &[q]);
                    for case in CASES {
                        for norm in [false, true] {
                            let qc = Qc {
                                query: query.clone(),
                                plain: false,
                                cand: c.to_string(),
                                cfg: Cfg { case, norm, scheme: Scheme::Default },
                            };
                            out.push(CaseCase { qc, flips: vec![0xff] });
                        }
                    }
                }
            }
        }
        out
    }
    fn huge(&self, s: &mut Src) -> Option<CaseCase> {
        Some(CaseCase { qc: gen::huge(s), flips: vec![s.below(256) as u8, 0, s.below(256) as u8] })
    }
    fn check(&self, c: &CaseCase) -> Result<Obs, String> {
        let q = &c.qc;
        let e = q.expr();
        let cc = q.cand_chars();
        let up = |t: &model::Term| t.text.iter().any(|c| c.is_uppercase());
        let terms: Vec<_> = e.groups.iter().flatten().collect();
        let all_up = terms.iter().all(|t| up(t));
        let none_up = !terms.iter().any(|t| up(t));
        let neg = terms.iter().any(|t| t.neg);
        let (mut some, mut differ) = (false, false);
        for a in ALGOS {
            let with = |case| Cfg { case, ..q.cfg };
            let ins = accepts(a, with(Case::Insensitive), q);
            let sens = accepts(a, with(Case::Sensitive), q);
            let smart = accepts(a, with(Case::Smart), q);
            for (case, got) in [(Case::Insensitive, ins), (Case::Sensitive, sens), (Case::Smart, smart)] {
                let want = model::accepts(with(case), &e, &cc);
                if got != want {
                    return Err(format!("{} in mode {case:?}: match {got}, reference {want}", describe(a, q)));
                }
            }
            if sens && !ins && !neg {
                return Err(format!("{}: matches in Sensitive but not in Insensitive mode", describe(a, q)));
            }
            // Insensitive: the case of letters is ignored.
            let f = Qc {
                query: flip(&q.query, &c.flips, 0, q.cfg.norm),
                cand: flip(&q.cand, &c.flips, 13, q.cfg.norm),
                ..q.clone()
            };
            let got = accepts(a, with(Case::Insensitive), &f);
            if got != ins {
                return Err(format!(
                    "{} in Insensitive mode: match {ins}, but {got} for query {:?} candidate {:?}",
                    describe(a, q),
                    f.query,
                    f.cand
                ));
            }
            // Smart is one of the other two.
            if !terms.is_empty() && (all_up || none_up) {
                let same = with(if all_up { Case::Sensitive } else { Case::Insensitive });
                let x = sut::run(a, with(Case::Smart), &q.query, q.plain, &q.cand);
                let y = sut::run(a, same, &q.query, q.plain, &q.cand);
                if x != y {
                    return Err(format!("{}: Smart gives {x:?}, {:?} gives {y:?}", describe(a, q), same.case));
                }
            }
            some |= ins || sens || smart;
            differ |= ins != sens;
        }
        let cased = terms.iter().any(|t| t.text.iter().any(|&c| gen::flip_case(c) != c));
        Ok(Obs::new(cased && some)
            .label(differ, "modes differ")
            .label(some && !none_up, "uppercase in query")
            .label(some && !q.query.is_ascii(), "non-ASCII query")
            .label(some && !all_up && !none_up, "mixed terms")
            .label(terms.iter().any(|t| t.kind != Kind::Fuzzy), "contiguous term"))
    }
    fn shrink(&self, c: &CaseCase) -> Vec<CaseCase> {
        let mut out: Vec<CaseCase> =
            shrink_qc(&c.qc).into_iter().map(|qc| CaseCase { qc, ..c.clone() }).collect();
        if c.flips.len() > 1 {
            out.push(CaseCase { flips: c.flips[..c.flips.len() / 2].to_vec(), ..c.clone() });
        }
        out
    }
}
