//! C21: executed instructions, counted by callgrind, stay within the
//! documented bounds.

use crate::case::*;
use crate::driver::{Obs, Prop};
use crate::gen::{self, Src};
use crate::normtable;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

pub struct Cost;

/// A long string in a short form: head, body repeated, another one repeated,
/// tail.
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Long {
    pub head: String,
    pub body: String,
    pub reps: usize,
    #[serde(default)]
    pub then: (String, usize),
    pub tail: String,
}

impl Long {
    fn text(&self) -> String {
        format!("{}{}{}{}", self.head, self.body.repeat(self.reps), self.then.0.repeat(self.then.1), self.tail)
    }
    fn chars(&self) -> u64 {
        let n = |s: &str| s.chars().count();
        (n(&self.head) + n(&self.body) * self.reps + n(&self.then.0) * self.then.1 + n(&self.tail)) as u64
    }
    fn of(body: String, reps: usize) -> Long {
        Long { head: String::new(), body, reps, then: (String::new(), 0), tail: String::new() }
    }
    fn none() -> Long {
        Long::of(String::new(), 0)
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    V1,
    V2,
    Parse,
    ParsePlain,
    /// An extended query: terms of any kind, any number of them.
    V1Query,
    V2Query,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CostCase {
    pub op: Op,
    pub ranges: bool,
    pub cfg: Cfg,
    /// A call the metric or parser served before.
    pub warm: (Long, Long),
    pub query: Long,
    pub cand: Long,
}

struct Callgrind {
    child: Child,
    dir: PathBuf,
    n: usize,
}

impl Callgrind {
    fn start() -> Callgrind {
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("vh-cost-{}-{k}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let bin = std::env::var_os("VH_COST").unwrap_or_else(|| "/verif/cost/target/release/norm-cost".into());
        let child = Command::new("valgrind")
            .args(["--tool=callgrind", "--vgdb=no", "-q"])
            .arg(format!("--callgrind-out-file={}", dir.join("out").display()))
            .arg(bin)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start valgrind");
        Callgrind { child, dir, n: 0 }
    }
    /// (matched, instructions)
    fn run(&mut self, req: &[u8]) -> std::io::Result<(bool, u64)> {
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(req)?;
        i.flush()?;
        let mut b = [0];
        self.child.stdout.as_mut().unwrap().read_exact(&mut b)?;
        self.n += 1;
        let f = self.dir.join(format!("out.{}", self.n));
        let text = std::fs::read_to_string(&f).expect("callgrind's dump");
        let _ = std::fs::remove_file(&f);
        let total = text
            .lines()
            .filter_map(|l| l.strip_prefix("totals:").or(l.strip_prefix("summary:")))
            .next_back()
            .expect("the total of callgrind's dump");
        Ok((b[0] == 1, total.trim().parse().expect("a number of instructions")))
    }
}

impl Drop for Callgrind {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        if self.dir.starts_with(std::env::temp_dir()) && self.dir != Path::new("/") {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

thread_local! {
    static CG: RefCell<Option<Callgrind>> = const { RefCell::new(None) };
}

impl CostCase {
    /// (units, what they are, instructions allowed per unit)
    fn bound(&self, matched: bool) -> (u64, &'static str, u64) {
        let (q, n) = (self.query.chars(), self.cand.chars());
        match (self.op, matched) {
            (Op::Parse | Op::ParsePlain, _) => (q, "query length", PER_CHAR),
            (Op::V1, _) | (Op::V2, false) => (q + n, "query length + candidate length", PER_CHAR),
            (Op::V2, true) | (Op::V1Query | Op::V2Query, _) => (q * n + q + n, "query length x candidate length", PER_CELL),
        }
    }
    fn scaled_down(&self) -> CostCase {
        let f = |l: &Long| Long { reps: l.reps.div_ceil(8), then: (l.then.0.clone(), l.then.1.div_ceil(8)), ..l.clone() };
        CostCase { query: f(&self.query), cand: f(&self.cand), ..self.clone() }
    }
    fn encode(&self) -> Vec<u8> {
        let mut b = vec![
            self.op as u8,
            self.ranges as u8,
            CASES.iter().position(|c| *c == self.cfg.case).unwrap() as u8,
            self.cfg.norm as u8,
            SCHEMES.iter().position(|c| *c == self.cfg.scheme).unwrap() as u8,
        ];
        for s in [&self.warm.0, &self.warm.1, &self.query, &self.cand] {
            let s = s.text();
            b.extend((s.len() as u32).to_le_bytes());
            b.extend(s.as_bytes());
        }
        let mut out = (b.len() as u32).to_le_bytes().to_vec();
        out.extend(b);
        out
    }
}

/// Instructions for fixed work, and per unit of the bound. About eight times
/// what any case was seen to need, so that only growth beyond the bound, not a
/// different constant, exceeds them at the sizes generated.
const FIXED: u64 = 100_000;
const PER_CHAR: u64 = 10_000;
const PER_CELL: u64 = 6_000;
/// How much faster than the bound the cost may grow over a factor of eight in
/// size; one more factor of the length would be a growth of eight.
/// With FzfV2's matrix the shape itself shifts a little, and one more factor
/// is eight or sixty-four.
/// Growth counts only above these costs, which no case reached within the
/// bounds: below them the two sizes may just be served by different loops (a
/// vectorised search for an ASCII character, say, and one for any character).
const GROWTH: u64 = 2;
const FLOOR_PARSE: u64 = 600;
const FLOOR_CHAR: u64 = 1_600;
const FLOOR_CELL: u64 = 1_000;
const FLOOR_QUERY: u64 = 1_000;
const GROWTH_CELLS: u64 = 5;

fn word(s: &mut Src, a: &[char], max: usize) -> String {
    (0..s.range(1, max)).map(|_| *s.pick(a)).collect()
}

fn long(s: &mut Src, a: &[char], chars: usize) -> Long {
    let body = word(s, a, 6);
    let head = if s.chance(1, 2) { word(s, a, 4) } else { String::new() };
    let tail = if s.chance(1, 2) { word(s, a, 4) } else { String::new() };
    let reps = chars / body.chars().count();
    Long { head, tail, ..Long::of(body, reps) }
}

fn size(s: &mut Src, max: usize) -> usize {
    let n = *s.pick(&[1, 30, 300, 1000, 3000, 10_000, 20_000]);
    n.min(max)
}

/// Turns plain text into an extended query, of one term or of many.
fn extended(s: &mut Src, q: &mut Long) {
    let one = s.chance(2, 3);
    for t in [&mut q.head, &mut q.body, &mut q.then.0, &mut q.tail] {
        // A space within a term is escaped.
        *t = t.replace(' ', "\\ ");
    }
    if one {
        q.head = format!("{}{}", s.pick(&["'", "'", "!", "!'", "^", "!^", ""]), q.head);
        if s.chance(1, 4) {
            q.tail.push('$');
        }
    } else {
        q.body = format!("{}{}{}", s.pick(&["", "'", "!", "^"]), q.body, s.pick(&[" ", " ", " | ", "$ "]));
    }
}

impl Prop for Cost {
    type Case = CostCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Case: one distance, distance_and_ranges, parse or parse_not_extended of long periodic strings (head, repeated body, another one repeated, tail over small alphabets, up to 20000 characters; queries related to the candidate: parts of its period, its letters plus one that is missing, or unrelated), on an object that may have served a large call before. The instructions executed by that call (callgrind) must not exceed fixed + constant x bound, nor, when they exceed about what any call was seen to need per unit, grow by more than twice (FzfV2's matrix: five times) the growth of the bound from the same shape at an eighth of the size; the bound is the length of query and candidate for FzfV1, for FzfV2 on non-matches and for parsing, query x candidate for FzfV2 on matches and for extended queries (contiguous, anchored, negated terms, and many terms). Non-trivial: bound of 1000 units or more."
    }
    fn quick(&self) -> usize {
        250
    }
    fn thorough(&self) -> usize {
        self.quick() * 20
    }
    fn gen(&self, s: &mut Src) -> CostCase {
        let mut a: Vec<char> = match s.below(6) {
            0 => vec!['a'],
            1 => vec!['a', 'b'],
            2 => vec!['a', 'b', ' ', '/'],
            3 => vec!['a', 'A', 'é', 'É', '日'],
            4 => vec!['a', 'b', 'ä', 'Ä', '_', '1'],
            _ => gen::alphabet(s),
        };
        if s.chance(1, 5) {
            a.push(*s.pick(gen::UNI));
        }
        let op = *s.pick(&[Op::V1, Op::V1, Op::V2, Op::V2, Op::V2, Op::Parse, Op::ParsePlain, Op::V1Query, Op::V2Query]);
        let mut cfg = gen::cfg(s);
        if s.chance(1, 3) {
            cfg.case = Case::Insensitive;
        }
        let n = size(s, 20_000);
        let mut cand = long(s, &a, n);
        // Something that is missing, so that the whole candidate is searched in vain.
        let missing = (!matches!(op, Op::Parse | Op::ParsePlain) && s.chance(1, 3)).then(|| *s.pick(&['z', '€', 'Z']));
        // Keep matching FzfV2 calls to about 60000 cells.
        let qmax = match op {
            Op::V2 if missing.is_some() => 20_000,
            Op::V2 | Op::V1Query | Op::V2Query => (60_000 / n.max(1)).max(1),
            _ => 20_000,
        };
        let m = size(s, qmax.min(20_000));
        let (m, op_parse) = (m, matches!(op, Op::Parse | Op::ParsePlain));
        let mut query = match s.below(4) {
            _ if op_parse => {
                let b: &[char] = &['a', 'b', ' ', '|', '!', '\'', '^', '$', '\\', 'é'];
                let b = if s.chance(1, 2) { b.to_vec() } else { a.clone() };
                long(s, &b, m)
            }
            0 => Long { tail: cand.tail.clone(), ..Long::of(cand.body.clone(), m / cand.body.chars().count()) },
            1 => long(s, &a, m),
            2 => {
                let c: Vec<char> = cand.body.chars().collect();
                let body: String = c.iter().filter(|_| s.chance(1, 2)).collect();
                let body = if body.is_empty() { c[0].to_string() } else { body };
                let n = body.chars().count();
                Long::of(body, m / n)
            }
            _ => {
                let c: Vec<char> = format!("{}{}{}", cand.head, cand.body, cand.tail).chars().take(8).collect();
                let l = Long::of(s.pick(&c).to_string(), m);
                Long { head: c.first().copied().into_iter().collect(), tail: c.last().copied().into_iter().collect(), ..l }
            }
        };
        query.tail.extend(missing);
        // What the query is found in comes before or after something else.
        if n > 1 && s.chance(1, 2) {
            let body = if s.chance(1, 2) { s.pick(&["x", "-", "é", "日", " ", "Z"]).to_string() } else { word(s, &a, 3) };
            let share = *s.pick(&[2, 2, 10]);
            let reps = (n - n / share) / body.chars().count();
            cand.reps = cand.reps.div_ceil(share);
            cand.then = (body, reps);
            if s.chance(1, 2) {
                let body = std::mem::take(&mut cand.body);
                let (then, k) = (std::mem::take(&mut cand.then.0), cand.then.1);
                cand.then = (body, cand.reps);
                (cand.body, cand.reps) = (then, k);
            }
        }
        // Whether it is missing indeed.
        let is = |x: char| missing.is_some_and(|m| [x, normtable::base(x)].iter().any(|x| x.eq_ignore_ascii_case(&m)));
        let sections = [&cand.head, &cand.body, &cand.then.0, &cand.tail];
        if op == Op::V2 && sections.into_iter().any(|t| t.chars().any(is)) {
            query.reps = query.reps.min(60_000 / n.max(1));
        }
        if !op_parse && s.chance(1, 6) {
            query.body = query.body.chars().map(gen::flip_case).collect();
        }
        if matches!(op, Op::V1Query | Op::V2Query) {
            extended(s, &mut query);
        }
        let warm = if s.chance(1, 3) {
            let n = s.range(1, 1500);
            let c = long(s, &a, n);
            (Long::of(c.body.clone(), (50 / c.body.len().max(1)).min(c.reps)), c)
        } else {
            (Long::none(), Long::none())
        };
        CostCase { op, ranges: s.chance(1, 2), cfg, warm, query, cand }
    }
    fn check(&self, c: &CostCase) -> Result<Obs, String> {
        CG.with(|cg| {
            let mut cg = cg.borrow_mut();
            let mut measure = |c: &CostCase| {
                let r = cg.get_or_insert_with(Callgrind::start).run(&c.encode());
                if r.is_err() {
                    *cg = None;
                }
                r.map_err(|_| "the process performing the call died".to_string())
            };
            let (matched, ir) = measure(c)?;
            let (bound, what, unit) = c.bound(matched);
            let verdict = if matched { "match" } else { "no match" };
            let (q, n) = (c.query.chars(), c.cand.chars());
            let limit = FIXED + unit * bound;
            if ir > limit {
                return Err(format!(
                    "{:?} on a query of {q} and a candidate of {n} characters ({verdict}) executes {ir} instructions: more than {FIXED} + {unit} x {what} = {limit}",
                    c.op,
                ));
            }
            // The same shape at an eighth of the size.
            let small = c.scaled_down();
            let mut compared = false;
            if c.query.reps.max(c.cand.reps).max(c.cand.then.1) >= 400 {
                let (m2, ir2) = measure(&small)?;
                let bound2 = small.bound(m2).0;
                // FzfV2 treats a query of one character differently.
                let same_regime = small.query == c.query || small.query.chars() >= 4;
                if m2 == matched && bound2 > 0 && same_regime {
                    compared = true;
                    let growth = if unit == PER_CELL { GROWTH_CELLS } else { GROWTH };
                    let limit = FIXED + growth * ir2 * bound / bound2;
                    if std::env::var_os("VH_COST_TRACE").is_some() {
                        println!("TRACE {} {} {} {matched} {:?}", ir / bound.max(1), ir, (ir.saturating_sub(FIXED) * 100) * bound2 / (ir2 * bound), c);
                    }
                    let floor = match c.op {
                        Op::Parse | Op::ParsePlain => FLOOR_PARSE,
                        Op::V1Query | Op::V2Query => FLOOR_QUERY,
                        _ if unit == PER_CELL => FLOOR_CELL,
                        _ => FLOOR_CHAR,
                    };
                    if ir > limit.max(FIXED + floor * bound) {
                        return Err(format!(
                            "{:?} ({verdict}): a query of {} and a candidate of {} characters take {ir2} instructions, {q} and {n} take {ir}: more than {growth} times the growth of {what}",
                            c.op,
                            small.query.chars(),
                            small.cand.chars(),
                        ));
                    }
                }
            }
            Ok(Obs::new(bound >= 1000)
                .label(compared, "compared with an eighth of the size")
                .label(matched && c.op == Op::V1, "FzfV1 match")
                .label(!matched && c.op == Op::V1, "FzfV1 non-match")
                .label(matched && c.op == Op::V2, "FzfV2 match")
                .label(!matched && c.op == Op::V2, "FzfV2 non-match")
                .label(matches!(c.op, Op::V1Query | Op::V2Query), if matched { "extended query, match" } else { "extended query, non-match" })
                .label(c.op == Op::Parse, "parse")
                .label(c.op == Op::ParsePlain, "parse_not_extended"))
        })
    }
    fn shrink(&self, c: &CostCase) -> Vec<CostCase> {
        let mut out = Vec::new();
        if c.warm.0 != Long::none() {
            out.push(CostCase { warm: (Long::none(), Long::none()), ..c.clone() });
        }
        for reps in [c.query.reps / 2, c.query.reps.saturating_sub(1)] {
            if reps < c.query.reps {
                out.push(CostCase { query: Long { reps, ..c.query.clone() }, ..c.clone() });
            }
        }
        for reps in [c.cand.reps / 2, c.cand.reps.saturating_sub(1)] {
            if reps < c.cand.reps {
                out.push(CostCase { cand: Long { reps, ..c.cand.clone() }, ..c.clone() });
            }
        }
        for k in [0, c.cand.then.1 / 2, c.cand.then.1.saturating_sub(1)] {
            if k < c.cand.then.1 {
                out.push(CostCase { cand: Long { then: (c.cand.then.0.clone(), k), ..c.cand.clone() }, ..c.clone() });
            }
        }
        for (i, get) in [(0, &c.query), (1, &c.cand)] {
            for (j, part) in [&get.head, &get.body, &get.tail].into_iter().enumerate() {
                for t in shrink_str(part) {
                    let mut l = get.clone();
                    *[&mut l.head, &mut l.body, &mut l.tail][j] = t;
                    out.push(if i == 0 { CostCase { query: l, ..c.clone() } } else { CostCase { cand: l, ..c.clone() } });
                }
            }
        }
        if c.ranges {
            out.push(CostCase { ranges: false, ..c.clone() });
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(CostCase { cfg, ..c.clone() });
        }
        out
    }
}
