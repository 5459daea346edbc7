//! C16: the ASCII fast path and the Unicode path give the same answers.

use super::basic::ALGOS;
use crate::case::*;
use crate::driver::{Obs, Prop};
use crate::gen::{self, Src};
use crate::model::{self, Kind};
use crate::sut::{self, Ranges};
use serde::{Deserialize, Serialize};

pub struct Representations;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Script {
    Cyrillic,
    Fullwidth,
    Deseret,
}

impl Script {
    /// A letter or digit of the same class in another script; other characters
    /// stay as they are.
    fn map(self, c: char) -> char {
        let (lo, up, dg) = match self {
            Script::Cyrillic => (0x430, 0x410, 0x660),
            Script::Fullwidth => (0xFF41, 0xFF21, 0xFF10),
            Script::Deseret => (0x10428, 0x10400, 0x1D7CE),
        };
        let m = |base: u32, from: char| char::from_u32(base + c as u32 - from as u32).unwrap();
        match c {
            'a'..='z' => m(lo, 'a'),
            'A'..='Z' => m(up, 'A'),
            '0'..='9' => m(dg, '0'),
            c => c,
        }
    }
    fn map_str(self, s: &str) -> String {
        s.chars().map(|c| self.map(c)).collect()
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RepCase {
    /// ASCII only.
    pub groups: Vec<Vec<(bool, Kind, String)>>,
    pub cand: String,
    pub cfg: Cfg,
    pub script: Script,
    /// Foreign characters put after the candidate.
    pub suffix: String,
    /// Foreign characters put in front of it, before a separator.
    #[serde(default = "front")]
    pub front: String,
}

fn front() -> String {
    "日".into()
}

const FOREIGN: &[char] = &[
    '日', '本', '🦀', '語', '\u{a0}', '\u{85}', '\u{2003}', '\u{3000}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}',
    '\u{10000}', '\u{10ffff}', '\u{feff}', '\u{301}', '\u{200d}', '\u{ad}', '\u{e000}', '—', '»', '×', 'я', 'Ж', 'λ', '٣',
    '½', '𐐀', '𐐨', 'ⅷ', 'ǅ', 'ß', 'µ', 'ª', '\u{212a}', '\u{130}', 'ı', 'ſ', 'ﬀ', '１', 'ａ', 'é', 'Ñ',
];

/// Characters that match none of the query's.
fn foreign(s: &mut Src, cfg: Cfg, query: &[char], n: usize) -> String {
    (0..n)
        .map(|_| {
            let c = if s.chance(3, 4) {
                *s.pick(FOREIGN)
            } else {
                char::from_u32(s.range(0x80, 0x10ffff) as u32).unwrap_or('日')
            };
            if is_foreign(cfg, query, c) {
                c
            } else {
                '語'
            }
        })
        .collect()
}

fn is_foreign(cfg: Cfg, query: &[char], c: char) -> bool {
    !c.is_ascii() && query.iter().all(|&q| !model::ch_eq(cfg, false, q, c) && !model::ch_eq(cfg, true, q, c))
}

fn query_chars(groups: &[Vec<(bool, Kind, String)>]) -> Vec<char> {
    let mut v: Vec<char> = groups.iter().flatten().flat_map(|t| t.2.chars()).collect();
    v.sort_unstable();
    v.dedup();
    v
}

fn print(groups: &[Vec<(bool, Kind, String)>], script: Option<Script>) -> String {
    groups
        .iter()
        .map(|g| {
            g.iter()
                .map(|(neg, kind, text)| {
                    let t: Vec<char> = text.chars().map(|c| script.map_or(c, |s| s.map(c))).collect();
                    gen::print_term(*neg, *kind, &t)
                })
                .collect::<Vec<_>>()
                .join(" | ")
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn ok(c: &RepCase) -> bool {
    c.cand.is_ascii()
        && !c.suffix.is_empty()
        && !c.front.is_empty()
        && {
            let q = query_chars(&c.groups);
            c.suffix.chars().chain(c.front.chars()).all(|x| is_foreign(c.cfg, &q, x))
        }
        && c.groups.iter().all(|g| {
            !g.is_empty()
                && g.iter().all(|(neg, kind, t)| {
                    t.is_ascii() && gen::printable(*neg, *kind, &t.chars().collect::<Vec<_>>())
                })
        })
}

fn sorted(mut r: Ranges) -> Ranges {
    r.sort_by_key(|x| x.start);
    r
}

impl Prop for Representations {
    type Case = RepCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "Case: an ASCII query (AND of ORs of terms), an ASCII candidate, a configuration. Three changes of representation: (1) foreign characters appended to the candidate (no suffix or equality term): same score and byte ranges; (2) letters and digits of query and candidate transliterated into a script of 2-, 3- or 4-byte characters of the same classes: same score and covered characters; (3) foreign characters (1..140, in huge cases 70000) and the scheme's initial separator put in front (no prefix or equality term, separator not in the query): same score, ranges shifted. Non-trivial: the original matches and the query has text."
    }
    fn fuzz_runs(&self) -> usize {
        26_000
    }
    fn quick(&self) -> usize {
        81_000
    }
    fn gen(&self, s: &mut Src) -> RepCase {
        let ascii = |c: char| if c.is_ascii() { c } else { 'e' };
        let cand: Vec<char> = gen::candidate(s).chars().map(ascii).collect();
        let n = match s.weighted(&[6, 3, 1]) {
            0 => 1,
            1 => 2,
            _ => s.range(3, 5),
        };
        let groups = (0..n)
            .map(|_| {
                (0..if s.chance(1, 5) { 2 } else { 1 })
                    .map(|_| {
                        let (neg, kind, t) = gen::term(s, &cand);
                        let t: Vec<char> = t.into_iter().map(ascii).collect();
                        (neg, kind, t)
                    })
                    .filter(|(neg, kind, t)| gen::printable(*neg, *kind, t))
                    .map(|(neg, kind, t)| (neg, kind, t.into_iter().collect()))
                    .collect::<Vec<_>>()
            })
            .filter(|g: &Vec<_>| !g.is_empty())
            .collect();
        let groups: Vec<Vec<_>> = groups;
        let (cfg, q) = (gen::cfg(s), query_chars(&groups));
        let n = s.range(1, 3);
        let suffix = foreign(s, cfg, &q, n);
        let n = if s.chance(1, 8) { s.range(4, 140) } else { s.range(1, 3) };
        let front = foreign(s, cfg, &q, n);
        RepCase {
            groups,
            cand: cand.into_iter().collect(),
            cfg,
            front,
            script: *s.pick(&[Script::Cyrillic, Script::Fullwidth, Script::Deseret]),
            suffix,
        }
    }
    fn huge(&self, s: &mut Src) -> Option<RepCase> {
        let ascii = |c: char| if c.is_ascii() { c } else { 'e' };
        let (groups, cand) = gen::huge_groups(s);
        let groups = groups
            .into_iter()
            .map(|g| g.into_iter().map(|(n, k, t)| (n, k, t.into_iter().map(ascii).collect())).collect())
            .collect();
        Some(RepCase {
            groups,
            cand: cand.into_iter().map(ascii).collect(),
            cfg: gen::cfg(s),
            script: *s.pick(&[Script::Cyrillic, Script::Fullwidth, Script::Deseret]),
            suffix: "日".repeat(s.range(1, 3)),
            front: "語日🦀".chars().cycle().take(if s.chance(1, 2) { s.range(1, 4) } else { s.range(1, 70_000) }).collect(),
        })
    }
    fn check(&self, c: &RepCase) -> Result<Obs, String> {
        if !ok(c) {
            return Ok(Obs::default());
        }
        let query = print(&c.groups, None);
        let has = |k: &[Kind]| c.groups.iter().flatten().any(|t| k.contains(&t.1));
        let mut hit = false;
        let (mut appended, mut prepended) = (false, false);
        for a in ALGOS {
            let base = sut::run(a, c.cfg, &query, false, &c.cand).map(|(s, r)| (s, sorted(r)));
            hit |= base.is_some();
            let at = |q: &str, cand: &str, got: &dyn std::fmt::Debug| {
                format!(
                    "{a:?} {:?}: query {query:?} candidate {:?} gives {base:?}, query {q:?} candidate {cand:?} gives {got:?}",
                    c.cfg, c.cand
                )
            };
            if !has(&[Kind::Suffix, Kind::Equal]) {
                appended = true;
                let cand = format!("{}{}", c.cand, c.suffix);
                let got = sut::run(a, c.cfg, &query, false, &cand).map(|(s, r)| (s, sorted(r)));
                if got != base {
                    return Err(at(&query, &cand, &got));
                }
            }
            {
                let (q, cand) = (print(&c.groups, Some(c.script)), c.script.map_str(&c.cand));
                let got = sut::run(a, c.cfg, &q, false, &cand);
                let x = base.as_ref().map(|(s, r)| (*s, sut::covered(&c.cand, r)));
                let y = got.as_ref().map(|(s, r)| (*s, sut::covered(&cand, r)));
                if x != y {
                    return Err(at(&q, &cand, &got));
                }
            }
            let sep = if c.cfg.scheme == Scheme::Path { '/' } else { ' ' };
            if !has(&[Kind::Prefix, Kind::Equal])
                && !c.groups.iter().flatten().any(|t| t.2.contains(sep))
                && (sep != ' ' || !has(&[Kind::Suffix]) || !c.cand.trim_matches(' ').is_empty())
            {
                prepended = true;
                let front = format!("{}{sep}", c.front);
                let cand = format!("{front}{}", c.cand);
                let got = sut::run(a, c.cfg, &query, false, &cand)
                    .map(|(s, r)| (s, sorted(r)))
                    .map(|(s, r)| {
                        (s, r.into_iter().map(|x| x.start.wrapping_sub(front.len())..x.end.wrapping_sub(front.len())).collect::<Ranges>())
                    });
                if got != base {
                    return Err(at(&query, &cand, &got));
                }
            }
        }
        Ok(Obs::new(hit && !c.groups.is_empty())
            .label(hit && appended, "suffix appended")
            .label(hit && prepended, "prefix put in front")
            .label(hit && c.script == Script::Deseret, "4-byte letters"))
    }
    fn shrink(&self, c: &RepCase) -> Vec<RepCase> {
        let mut out = Vec::new();
        for i in 0..c.groups.len() {
            let mut d = c.clone();
            d.groups.remove(i);
            out.push(d);
            for j in 0..c.groups[i].len() {
                if c.groups[i].len() > 1 {
                    let mut d = c.clone();
                    d.groups[i].remove(j);
                    out.push(d);
                }
                for t in shrink_str(&c.groups[i][j].2) {
                    let mut d = c.clone();
                    d.groups[i][j].2 = t;
                    out.push(d);
                }
            }
        }
        for cand in shrink_str(&c.cand) {
            out.push(RepCase { cand, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(RepCase { cfg, ..c.clone() });
        }
        if c.suffix != "日" {
            out.push(RepCase { suffix: "日".into(), ..c.clone() });
        }
        for front in shrink_str(&c.front) {
            out.push(RepCase { front, ..c.clone() });
        }
        out.retain(ok);
        out
    }
}
