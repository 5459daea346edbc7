//! C19: no undefined behaviour through the safe API.
//!
//! Three engines behind one property: generated call sequences in this process
//! (check.sh builds it with AddressSanitizer), generated call sequences
//! interpreted by Miri, and generated client programs given to the compiler.

use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::Algo;
use crate::sut::{self, Fz};
use norm::fzf::{FzfParser, FzfQuery};
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::Command;

// ------------------------------------------------------- call sequences

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Outer {
    /// Indices are modulo the sizes of the pools.
    NewParser,
    CloneParser(usize),
    /// Into another one, by clone_from.
    CloneParserInto(usize, usize),
    DropParser(usize),
    SwapParsers(usize, usize),
    NewMetric(bool),
    /// Parse with one parser (and optionally others, so that several queries
    /// are alive together), then use the queries.
    Session(Vec<(usize, usize, bool)>, Vec<Inner>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Inner {
    /// query, metric, candidate, with ranges
    Match(usize, usize, usize, bool),
    Set(usize, Cfg),
    CloneMetric(usize),
    CloneMetricInto(usize, usize),
    DropMetric(usize),
    ShowQuery(usize),
    /// The ranges buffer is dropped and replaced by one with no capacity.
    FreshBuffer,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Calls {
    pub queries: Vec<String>,
    pub cands: Vec<String>,
    pub ops: Vec<Outer>,
}

const POOL: usize = 6;

/// Performs the calls. With `oracle`, every answer is compared with that of
/// new objects.
pub fn perform(c: &Calls, oracle: bool) -> Result<(usize, usize), String> {
    if c.queries.is_empty() || c.cands.is_empty() {
        return Ok((0, 0));
    }
    let mut parsers: Vec<Box<FzfParser>> = vec![Box::new(FzfParser::new())];
    let mut metrics: Vec<(Fz, Cfg)> = Vec::new();
    let mut buf: sut::Ranges = Vec::new();
    let (mut matches, mut parses) = (0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            Outer::NewParser if parsers.len() < POOL => parsers.push(Box::new(FzfParser::new())),
            Outer::CloneParser(i) if parsers.len() < POOL => {
                let p = parsers[i % parsers.len()].clone();
                parsers.push(p);
            }
            Outer::CloneParserInto(i, j) => {
                let (i, j) = (i % parsers.len(), j % parsers.len());
                let mut p = std::mem::take(&mut *parsers[j]);
                if i != j {
                    p.clone_from(&parsers[i]);
                }
                *parsers[j] = p;
            }
            Outer::DropParser(i) if parsers.len() > 1 => {
                let i = i % parsers.len();
                parsers.remove(i);
            }
            Outer::SwapParsers(i, j) => {
                let (i, j) = (i % parsers.len(), j % parsers.len());
                let a = std::mem::take(&mut *parsers[i]);
                let b = std::mem::replace(&mut *parsers[j], a);
                *parsers[i] = b;
            }
            Outer::NewMetric(v2) if metrics.len() < POOL => {
                metrics.push((Fz::fresh(if *v2 { Algo::V2 } else { Algo::V1 }), Cfg::default()))
            }
            Outer::Session(start, inner) => {
                // Each parser gives one query; all of them are alive below.
                let len = parsers.len();
                let mut free: Vec<Option<&mut FzfParser>> = parsers.iter_mut().map(|p| Some(&mut **p)).collect();
                let mut alive: Vec<(FzfQuery<'_>, usize, bool, String)> = Vec::new();
                for (p, q, plain) in start {
                    if let Some(p) = free[p % len].take() {
                        let qi = q % c.queries.len();
                        // The string goes away before the query is used.
                        let text: Box<str> = c.queries[qi].clone().into_boxed_str();
                        let q = sut::parse(p, &text, *plain);
                        drop(text);
                        let shown = if oracle { format!("{q:?}") } else { String::new() };
                        alive.push((q, qi, *plain, shown));
                        parses += 1;
                    }
                }
                if alive.is_empty() {
                    continue;
                }
                for i in inner {
                    match i {
                        Inner::Match(q, m, cand, ranges) => {
                            if metrics.is_empty() {
                                metrics.push((Fz::fresh(Algo::V2), Cfg::default()));
                            }
                            let (q, qi, plain, _) = &alive[q % alive.len()];
                            let m = m % metrics.len();
                            let cfg = metrics[m].1;
                            // A block of exactly the candidate's size.
                            let cand: Box<str> = c.cands[cand % c.cands.len()].clone().into_boxed_str();
                            let n0 = buf.len();
                            let d = if *ranges {
                                buf.shrink_to_fit();
                                metrics[m].0.dist_ranges(*q, &cand, &mut buf)
                            } else {
                                metrics[m].0.dist(*q, &cand)
                            };
                            matches += d.is_some() as usize;
                            for r in &buf[n0.min(buf.len())..] {
                                if cand.get(r.clone()).is_none() {
                                    return Err(format!("operation {n}: range {r:?} is not a slice of the candidate {cand:?}"));
                                }
                            }
                            if oracle {
                                let mut p = FzfParser::new();
                                let fq = sut::parse(&mut p, &c.queries[*qi], *plain);
                                let mut r = Vec::new();
                                let want = Fz::new(metrics[m].0.algo(), cfg).dist_ranges(fq, &cand, &mut r);
                                if d != want || (*ranges && d.is_some() && buf[n0..] != r[..]) {
                                    return Err(format!(
                                        "operation {n}: {d:?} {:?}, new objects give {want:?} {r:?}",
                                        &buf[n0..]
                                    ));
                                }
                            }
                        }
                        Inner::Set(m, cfg) if !metrics.is_empty() => {
                            let m = m % metrics.len();
                            metrics[m].0.set(*cfg);
                            metrics[m].1 = *cfg;
                        }
                        Inner::CloneMetric(m) if !metrics.is_empty() && metrics.len() < POOL => {
                            let m = metrics[m % metrics.len()].clone();
                            metrics.push(m);
                        }
                        Inner::CloneMetricInto(m, k) if !metrics.is_empty() => {
                            let (m, k) = (m % metrics.len(), k % metrics.len());
                            if m != k {
                                let (from, cfg) = (metrics[m].0.clone(), metrics[m].1);
                                metrics[k].0.clone_from(&from);
                                metrics[k].1 = cfg;
                            }
                        }
                        Inner::DropMetric(m) if !metrics.is_empty() => {
                            let m = m % metrics.len();
                            metrics.swap_remove(m);
                        }
                        Inner::ShowQuery(q) => {
                            let (q, _, _, shown) = &alive[q % alive.len()];
                            let now = format!("{q:?}");
                            if oracle && now != *shown {
                                return Err(format!("operation {n}: the query changed from {shown} to {now}"));
                            }
                        }
                        Inner::FreshBuffer => buf = Vec::new(),
                        _ => {}
                    }
                }
                if oracle {
                    for (q, _, _, shown) in &alive {
                        let now = format!("{q:?}");
                        if now != *shown {
                            return Err(format!("operation {n}: the query changed from {shown} to {now}"));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok((matches, parses))
}

/// `small`: for the interpreter, which is slow.
fn calls(s: &mut Src, small: bool) -> Calls {
    let (mut queries, mut cands) = (Vec::new(), Vec::new());
    for _ in 0..s.range(2, 5) {
        let mut q = match s.below(3) {
            0 => gen::qc(s),
            1 => gen::qc_fuzzy(s),
            _ => gen::qc_contiguous(s),
        };
        if small {
            let n = *s.pick(&[3, 8, 16, 24]);
            q.query = q.query.chars().take(n).collect();
            let m = *s.pick(&[4, 12, 24, 40]);
            q.cand = q.cand.chars().take(m).collect();
        }
        queries.push(q.query);
        cands.push(q.cand);
    }
    // Around the initial sizes of the buffers.
    if s.chance(1, if small { 6 } else { 2 }) {
        let n = *s.pick(&[63, 64, 65, 127, 128, 129, 130, 200]);
        let a = gen::alphabet(s);
        let w = s.chance(1, 2);
        let mut q = String::new();
        for i in 0..n {
            q.push(if w && i % 2 == 1 { ' ' } else { *s.pick(&a) });
        }
        queries.push(q);
    }
    if s.chance(1, if small { 6 } else { 2 }) {
        let n = *s.pick(&[63, 64, 65, 127, 128, 129, 130, 255, 256, 257]);
        let a = gen::alphabet(s);
        cands.push((0..n).map(|_| *s.pick(&a)).collect());
    }
    let mut ops = vec![Outer::NewMetric(s.chance(2, 3))];
    for _ in 0..s.range(1, if small { 6 } else { 14 }) {
        let (a, b) = (s.below(16), s.below(16));
        ops.push(match s.weighted(&[1, 1, 1, 1, 1, 10, 1]) {
            0 => Outer::NewParser,
            1 => Outer::CloneParser(a),
            2 => Outer::DropParser(a),
            3 => Outer::SwapParsers(a, b),
            4 => Outer::NewMetric(s.chance(1, 2)),
            6 => Outer::CloneParserInto(a, b),
            _ => {
                let start = (0..s.range(1, 3)).map(|_| (s.below(8), s.below(queries.len()), s.chance(1, 4))).collect();
                let inner = (0..s.range(1, if small { 4 } else { 8 }))
                    .map(|_| {
                        let (q, m, c) = (s.below(8), s.below(8), s.below(cands.len()));
                        match s.weighted(&[10, 2, 1, 1, 2, 1, 1]) {
                            0 => Inner::Match(q, m, c, s.chance(2, 3)),
                            1 => Inner::Set(m, gen::cfg(s)),
                            2 => Inner::CloneMetric(m),
                            3 => Inner::DropMetric(m),
                            4 => Inner::ShowQuery(q),
                            5 => Inner::CloneMetricInto(m, q),
                            _ => Inner::FreshBuffer,
                        }
                    })
                    .collect();
                Outer::Session(start, inner)
            }
        });
    }
    Calls { queries, cands, ops }
}

fn shrink_calls(c: &Calls) -> Vec<Calls> {
    let mut out: Vec<Calls> = shrink_vec(&c.ops, |o| match o {
        Outer::Session(start, inner) => {
            let mut v = Vec::new();
            for s in shrink_vec(start, |_| vec![]) {
                v.push(Outer::Session(s, inner.clone()));
            }
            for i in shrink_vec(inner, |_| vec![]) {
                v.push(Outer::Session(start.clone(), i));
            }
            v
        }
        _ => vec![],
    })
    .into_iter()
    .map(|ops| Calls { ops, ..c.clone() })
    .collect();
    for (i, x) in c.queries.iter().enumerate() {
        for y in shrink_str(x) {
            let mut d = c.clone();
            d.queries[i] = y;
            out.push(d);
        }
    }
    for (i, x) in c.cands.iter().enumerate() {
        for y in shrink_str(x) {
            let mut d = c.clone();
            d.cands[i] = y;
            out.push(d);
        }
    }
    out
}

// ------------------------------------------------------- client programs

/// A statement of a client program. Parsers and queries are numbered.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum St {
    /// parser, query, plain, from a `String` that is dropped right away
    Parse(usize, usize, bool, bool),
    /// to = from
    Copy(usize, usize),
    /// query, one of the ways to use it
    Use(usize, usize),
    /// parser, one of the ways to invalidate what it gave
    Touch(usize, usize),
    /// The statements run in a block with its own parser (number 2).
    Block(Vec<St>),
}

const PARSERS: usize = 2;
const QUERIES: usize = 3;

/// What the borrow checker must say, found by simulating the program: a use of
/// a query whose parser was used, replaced, moved or dropped since is an error.
/// Programs using an unset query or a moved parser are not generated.
#[derive(Clone)]
struct Sim {
    /// For each query: the parser and its epoch when it was made.
    made: [Option<(usize, u64)>; QUERIES],
    epoch: [u64; PARSERS + 1],
    alive: [bool; PARSERS + 1],
    bad: bool,
    stale_uses: usize,
}

impl Sim {
    fn new() -> Sim {
        Sim { made: [None; QUERIES], epoch: [0; PARSERS + 1], alive: [true, true, false], bad: false, stale_uses: 0 }
    }
    fn valid(&self, q: usize) -> bool {
        self.made[q].is_some_and(|(p, e)| self.alive[p] && self.epoch[p] == e)
    }
    /// Whether the statement may be generated here.
    fn allowed(&self, st: &St) -> bool {
        match st {
            St::Parse(p, ..) | St::Touch(p, _) => self.alive[*p],
            St::Copy(_, from) => self.made[*from].is_some(),
            St::Use(q, _) => self.made[*q].is_some(),
            St::Block(_) => !self.alive[PARSERS],
        }
    }
    fn step(&mut self, st: &St) {
        match st {
            St::Parse(p, q, ..) => {
                self.epoch[*p] += 1;
                self.made[*q] = Some((*p, self.epoch[*p]));
            }
            St::Copy(to, from) => {
                // Copying out of a stale query is a use of it.
                self.bad |= !self.valid(*from);
                self.made[*to] = self.made[*from];
            }
            St::Use(q, _) => {
                if !self.valid(*q) {
                    self.bad = true;
                    self.stale_uses += 1;
                }
            }
            St::Touch(p, how) => {
                self.epoch[*p] += 1;
                if matches!(how % TOUCHES, 4 | 5 | 6) {
                    self.alive[*p] = false;
                }
            }
            St::Block(v) => {
                self.alive[PARSERS] = true;
                self.epoch[PARSERS] += 1;
                for s in v {
                    self.step(s);
                }
                self.alive[PARSERS] = false;
                self.epoch[PARSERS] += 1;
            }
        }
    }
}

const TOUCHES: usize = 10;
const USES: usize = 7;

fn print_st(st: &St, out: &mut String) {
    match st {
        St::Parse(p, q, plain, owned) => {
            let f = if *plain { "parse_not_extended" } else { "parse" };
            let _ = if *owned {
                writeln!(out, "let s = String::from(\"ab\"); q{q} = p{p}.{f}(&s); drop(s);")
            } else {
                writeln!(out, "q{q} = p{p}.{f}(\"^a !b | 'c\");")
            };
        }
        St::Copy(to, from) => {
            let _ = writeln!(out, "q{to} = q{from};");
        }
        St::Use(q, how) => {
            let _ = match how % USES {
                0 => writeln!(out, "let _ = v1.distance(q{q}, \"abc\");"),
                1 => writeln!(out, "let _ = v2.distance(q{q}, \"abc\");"),
                2 => writeln!(out, "let _ = v1.distance_and_ranges(q{q}, \"abc\", &mut r);"),
                3 => writeln!(out, "{{ let c = String::from(\"abc\"); let d = v2.distance_and_ranges(q{q}, &c, &mut r); drop(c); let _ = d; }}"),
                4 => writeln!(out, "let _ = format!(\"{{:?}}\", q{q});"),
                5 => writeln!(out, "keep(q{q});"),
                _ => writeln!(out, "let _ = v2.clone().distance(q{q}, \"abc\");"),
            };
        }
        St::Touch(p, how) => {
            let _ = match how % TOUCHES {
                0 => writeln!(out, "let _ = p{p}.parse(\"x\");"),
                1 => writeln!(out, "let _ = p{p}.parse_not_extended(\"x\");"),
                2 => writeln!(out, "p{p} = FzfParser::new();"),
                3 => writeln!(out, "let _ = std::mem::take(&mut p{p});"),
                4 => writeln!(out, "drop(p{p});"),
                5 => writeln!(out, "let b = Box::new(p{p}); drop(b);"),
                6 => writeln!(out, "moved(p{p});"),
                7 => writeln!(out, "reuse(&mut p{p});"),
                8 => writeln!(out, "std::mem::swap(&mut p{p}, &mut FzfParser::default());"),
                _ => writeln!(out, "{{ let mut f = || {{ let _ = p{p}.parse(\"y\"); }}; f(); }}"),
            };
        }
        St::Block(v) => {
            out.push_str("{\nlet mut p2 = FzfParser::new();\n");
            for s in v {
                print_st(s, out);
            }
            out.push_str("}\n");
        }
    }
}

/// Fixed shapes the statements cannot express: (text, must be rejected).
const SHAPES: &[(&str, bool)] = &[
    ("pub fn NAME() -> FzfQuery<'static> { let mut p = FzfParser::new(); p.parse(\"a\") }", true),
    ("pub fn NAME() -> FzfQuery<'static> { let mut p = FzfParser::new(); p.parse_not_extended(\"a\") }", true),
    ("pub fn NAME(p: &mut FzfParser) -> FzfQuery<'static> { p.parse(\"a\") }", true),
    ("pub fn NAME(p: &mut FzfParser) -> FzfQuery<'static> { p.parse_not_extended(\"a\") }", true),
    ("pub fn NAME(p: &mut FzfParser) -> FzfQuery<'_> { p.parse(\"a\") }", false),
    ("pub fn NAME(p: &mut FzfParser) -> FzfQuery<'_> { p.parse_not_extended(\"a\") }", false),
    ("pub fn NAME<'a>(p: &'a mut FzfParser, s: &str) -> FzfQuery<'a> { p.parse(s) }", false),
    ("pub fn NAME<'a>(p: &'a mut FzfParser, s: &str) -> FzfQuery<'a> { p.parse_not_extended(s) }", false),
    ("pub fn NAME<'a, 'b>(p: &'a mut FzfParser, s: &'b str) -> FzfQuery<'b> { p.parse(s) }", true),
    ("pub fn NAME<'a, 'b>(p: &'a mut FzfParser, s: &'b str) -> FzfQuery<'b> { p.parse_not_extended(s) }", true),
    ("pub fn NAME<'a, 'b: 'a>(q: FzfQuery<'b>) -> FzfQuery<'a> { q }", false),
    ("pub fn NAME<'a, 'b: 'a>(q: FzfQuery<'a>) -> FzfQuery<'b> { q }", true),
    ("pub fn NAME() { let mut v: Vec<FzfQuery<'_>> = Vec::new(); let mut p = FzfParser::new(); v.push(p.parse(\"a\")); v.push(p.parse(\"b\")); println!(\"{:?}\", v); }", true),
    ("pub fn NAME() { let mut p = FzfParser::new(); let mut o = FzfParser::new(); let mut v: Vec<FzfQuery<'_>> = Vec::new(); v.push(p.parse(\"a\")); v.push(o.parse(\"b\")); println!(\"{:?}\", v); }", false),
    ("pub fn NAME() { let mut p = FzfParser::new(); let v: Vec<FzfQuery<'_>> = [\"a\", \"b\"].iter().map(|s| p.parse(s)).collect(); drop(v); }", true),
    ("pub fn NAME() { let q; { let mut p = FzfParser::new(); q = p.parse(\"a\"); } println!(\"{:?}\", q); }", true),
    ("pub fn NAME() { let q = FzfParser::new().parse(\"a\"); println!(\"{:?}\", q); }", true),
    ("pub fn NAME() { let q = FzfParser::new().parse_not_extended(\"a\"); println!(\"{:?}\", q); }", true),
    ("pub fn NAME() { println!(\"{:?}\", FzfParser::new().parse(\"a\")); }", false),
    ("pub fn NAME() { let mut p = FzfParser::new(); let q = p.parse(\"a\"); let c = p.clone(); println!(\"{:?} {:?}\", q, c); }", true),
    ("pub fn NAME() { let mut p = FzfParser::new(); let mut c = p.clone(); let q = p.parse(\"a\"); let k = c.parse(\"b\"); println!(\"{:?} {:?}\", q, k); }", false),
    ("pub struct NAME<'a> { pub p: FzfParser, pub q: Option<FzfQuery<'a>> } impl<'a> NAME<'a> { pub fn set(&'a mut self) { self.q = Some(self.p.parse(\"a\")); } pub fn twice(mut s: NAME<'a>) { s.set(); s.set(); } }", true),
    ("pub fn NAME(m: &mut FzfV2, p: &mut FzfParser, c: String) -> Option<norm::fzf::FzfDistance> { let d = m.distance(p.parse(\"a\"), &c); drop(c); p.parse(\"b\"); d }", false),
    ("pub fn NAME(m: &mut FzfV1, p: &mut FzfParser, c: String) -> Option<norm::fzf::FzfDistance> { let d = m.distance(p.parse(\"a\"), &c); drop(c); p.parse(\"b\"); d }", false),
    ("pub fn NAME() { let mut p = FzfParser::new(); let mut q = p.parse(\"a\"); for _ in 0..2 { println!(\"{:?}\", q); q = p.parse(\"b\"); } println!(\"{:?}\", q); }", false),
    ("pub fn NAME() { let mut p = FzfParser::new(); let q = p.parse(\"a\"); for _ in 0..2 { println!(\"{:?}\", q); p.parse(\"b\"); } }", true),
    ("pub fn NAME() { let mut p = FzfParser::new(); let q = p.parse(\"a\"); std::thread::spawn(move || { println!(\"{:?}\", q); }); }", true),
];

fn print_program(prog: &[St], name: &str) -> String {
    let mut out = format!(
        "pub fn {name}() {{\nlet mut p0 = FzfParser::new();\nlet mut p1 = FzfParser::new();\nlet (mut q0, mut q1, mut q2);\nlet mut v1 = FzfV1::new();\nlet mut v2 = FzfV2::new();\nlet mut r: Vec<std::ops::Range<usize>> = Vec::new();\n"
    );
    for st in prog {
        print_st(st, &mut out);
    }
    out.push_str("let _ = (&mut v1, &mut v2, &mut r);\n}\n");
    out
}

fn program(s: &mut Src) -> Vec<St> {
    // Start with a query in every variable, so that all of them have a type.
    let mut v = vec![St::Parse(0, 0, s.chance(1, 2), s.chance(1, 3)), St::Parse(1, 1, s.chance(1, 2), s.chance(1, 3)), St::Copy(2, s.below(2))];
    let mut sim = Sim::new();
    v.iter().for_each(|x| sim.step(x));
    fn some(s: &mut Src, sim: &Sim, inside: bool) -> St {
        let np = if inside { PARSERS + 1 } else { PARSERS };
        match s.weighted(&[4, 2, 7, 4]) {
            0 => St::Parse(if inside { np - 1 - s.below(2) } else { s.below(np) }, s.below(QUERIES), s.chance(1, 2), s.chance(1, 3)),
            1 => {
                let to = s.below(QUERIES);
                // Mostly from a query that is still usable.
                let ok: Vec<usize> = (0..QUERIES).filter(|q| sim.valid(*q) && *q != to).collect();
                if ok.is_empty() { St::Use(to, s.below(USES)) } else { St::Copy(to, *s.pick(&ok)) }
            }
            2 => {
                let ok: Vec<usize> = (0..QUERIES).filter(|q| sim.valid(*q)).collect();
                // Mostly valid uses, so that whole programs stay valid often.
                if !ok.is_empty() && s.chance(9, 10) { St::Use(*s.pick(&ok), s.below(USES)) } else { St::Use(s.below(QUERIES), s.below(USES)) }
            }
            _ => St::Touch(s.below(np), s.below(TOUCHES)),
        }
    }
    for _ in 0..s.range(2, 9) {
        if s.chance(1, 8) {
            let mut inner = Vec::new();
            let mut sim2 = sim.clone();
            sim2.alive[PARSERS] = true;
            sim2.epoch[PARSERS] += 1;
            for _ in 0..s.range(1, 4) {
                let st = some(s, &sim2, true);
                // Moving an outer parser inside a block is a move all the same.
                if sim2.allowed(&st) {
                    sim2.step(&st);
                    inner.push(st);
                }
            }
            let b = St::Block(inner);
            sim.step(&b);
            v.push(b);
        } else {
            let st = some(s, &sim, false);
            if sim.allowed(&st) {
                sim.step(&st);
                v.push(st);
            }
        }
    }
    v
}

fn well_formed(p: &[St]) -> bool {
    fn go(sim: &mut Sim, v: &[St], inside: bool) -> bool {
        for st in v {
            let ok = match st {
                St::Block(b) => {
                    if inside {
                        return false;
                    }
                    let mut s2 = sim.clone();
                    s2.alive[PARSERS] = true;
                    s2.epoch[PARSERS] += 1;
                    go(&mut s2, b, true)
                }
                st => sim.allowed(st),
            };
            if !ok {
                return false;
            }
            sim.step(st);
        }
        true
    }
    let mut seen = [false; QUERIES];
    for st in p {
        match st {
            St::Parse(_, q, ..) => seen[*q] = true,
            St::Copy(t, _) => seen[*t] = true,
            _ => {}
        }
    }
    seen.iter().all(|x| *x) && go(&mut Sim::new(), p, false)
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Shape(pub usize);

/// Compiles the functions as one crate and returns, for each, the error codes
/// rustc gave inside it.
pub(super) fn compile(functions: &[String]) -> Vec<Vec<String>> {
    let mut text = String::from(
        "#![allow(unused, unused_assignments)]\nuse norm::fzf::*;\nuse norm::Metric;\nfn keep(_: FzfQuery<'_>) {}\nfn moved(_: FzfParser) {}\nfn reuse(p: &mut FzfParser) { let _ = p.parse(\"z\"); }\n",
    );
    let mut starts = Vec::new();
    for f in functions {
        starts.push(text.lines().count() + 1);
        text.push_str(f);
        text.push('\n');
    }
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = std::env::temp_dir().join(format!(
        "vh-client-{}-{}",
        std::process::id(),
        NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
    ));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let src = dir.join("client.rs");
    std::fs::write(&src, &text).unwrap();
    let deps: PathBuf = std::env::var_os("VH_RLIBS").map(PathBuf::from).unwrap_or_else(|| "/verif/cost/target/release/deps".into());
    let rlib = std::fs::read_dir(&deps)
        .expect("compiled norm")
        .map(|e| e.unwrap().path())
        .filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("libnorm-") && p.extension().is_some_and(|e| e == "rlib"))
        .max_by_key(|p| std::fs::metadata(p).unwrap().modified().unwrap())
        .expect("compiled norm");
    let out = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json", "--out-dir"])
        .arg(&dir)
        .arg("-L")
        .arg(format!("dependency={}", deps.display()))
        .arg("--extern")
        .arg(format!("norm={}", rlib.display()))
        .arg(&src)
        .output()
        .expect("rustc");
    let _ = std::fs::remove_dir_all(&dir);
    let mut codes: Vec<Vec<String>> = functions.iter().map(|_| Vec::new()).collect();
    let mut any = false;
    for l in String::from_utf8_lossy(&out.stderr).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if v["level"] != "error" {
            continue;
        }
        any = true;
        let code = v["code"]["code"].as_str().unwrap_or("").to_string();
        for sp in v["spans"].as_array().into_iter().flatten() {
            if sp["is_primary"] == true {
                let line = sp["line_start"].as_u64().unwrap() as usize;
                let i = starts.partition_point(|s| *s <= line);
                assert!(i > 0, "rustc rejects the prelude: {}", v["rendered"]);
                codes[i - 1].push(code.clone());
            }
        }
    }
    // "aborting due to" has no span; anything else must have been attributed.
    assert!(any != out.status.success(), "rustc: {}", String::from_utf8_lossy(&out.stderr));
    codes
}

/// Errors of the borrow checker (and of lifetime checking).
fn is_borrow_error(code: &str) -> bool {
    matches!(
        code,
        "E0499" | "E0502" | "E0503" | "E0505" | "E0506" | "E0515" | "E0521" | "E0597" | "E0621" | "E0713" | "E0716" | "E0373" | "E0700" | "E0495" | "E0623" | ""
    )
}

// ------------------------------------------------------------------ Miri

fn miri(batch: &[Calls]) -> Result<(), String> {
    interpret(&serde_json::to_vec(&("calls", batch)).unwrap(), None)
}

/// Has Miri interpret `miri_main` on this input.
pub(super) fn interpret(input: &[u8], seed: Option<u64>) -> Result<(), String> {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let k = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let f = std::env::temp_dir().join(format!("vh-miri-{}-{k}.json", std::process::id()));
    std::fs::write(&f, input).unwrap();
    let mut cmd = match std::env::var("VH_MIRI") {
        Ok(s) => {
            let mut w = s.split_whitespace();
            let mut c = Command::new(w.next().unwrap());
            c.args(w);
            c
        }
        Err(_) => panic!("VH_MIRI is not set"),
    };
    if let Some(seed) = seed {
        let flags = std::env::var("MIRIFLAGS").unwrap_or_default();
        cmd.env("MIRIFLAGS", format!("{flags} -Zmiri-seed={seed} -Zmiri-preemption-rate=0.1"));
    }
    let out = cmd.arg(&f).output().expect("cannot run Miri");
    let _ = std::fs::remove_file(&f);
    let (so, se) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    if out.status.success() && so.contains("all calls performed") {
        return Ok(());
    }
    if let Some(l) = se.lines().find(|l| l.contains("Undefined Behavior")) {
        let at = se.lines().find(|l| l.trim_start().starts_with("--> ")).unwrap_or("");
        return Err(format!("Miri: {} {}", l.trim(), at.trim()));
    }
    if let Some(l) = se.lines().find(|l| l.contains("panicked at")) {
        let i = se.lines().position(|x| x == l).unwrap();
        return Err(format!("under Miri: {} {}", l, se.lines().nth(i + 1).unwrap_or("")));
    }
    if let Some(l) = so.lines().find(|l| l.starts_with("violated: ")) {
        return Err(format!("under Miri: {l}"));
    }
    panic!("Miri did not run: {}\n{so}\n{}", out.status, &se[..se.len().min(3000)]);
}

/// The program Miri interprets.
pub fn miri_main(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap();
    let (kind, batch): (String, serde_json::Value) = serde_json::from_str(&text).unwrap();
    let answers: Vec<Result<(), String>> = if kind == "threads" {
        let b: Vec<super::threads::Team> = serde_json::from_value(batch).unwrap();
        b.iter().map(|t| super::threads::perform(t).map(|_| ())).collect()
    } else {
        let b: Vec<Calls> = serde_json::from_value(batch).unwrap();
        b.iter().map(|c| perform(c, false).map(|_| ())).collect()
    };
    for (i, a) in answers.into_iter().enumerate() {
        if let Err(m) = a {
            println!("violated: case {i}: {m}");
            return 1;
        }
    }
    println!("all calls performed");
    0
}

// -------------------------------------------------------------- property

pub struct Memory;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum MemCase {
    Calls(Calls),
    Miri(Vec<Calls>),
    Programs(Vec<Vec<St>>),
    Shapes(Vec<usize>),
}

impl Prop for Memory {
    type Case = MemCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Calls: 2..15 operations on pools of parsers and metrics (new, clone, drop, swap, set) and sessions in which up to three queries of different parsers are alive and used; strings in blocks of exactly their size, query strings freed right after parsing; run in this process, built with AddressSanitizer and debug assertions, every answer compared with that of new objects. Miri: batches of smaller such sequences interpreted by Miri. Programs: batches of client functions of 5..12 statements (parse, copy, use, reuse, move, replace and drop parsers, blocks) plus fixed shapes, compiled by rustc; those that use a query after its parser was touched must be rejected with a borrow error, the others accepted. Non-trivial: a match and two parses; a batch; both verdicts in the batch."
    }
    fn quick(&self) -> usize {
        4_000
    }
    fn exhaustive_parts(&self, t: Tier) -> usize {
        // The slow engines, spread over the threads.
        match t {
            Tier::Quick => 32,
            Tier::Thorough => 400,
        }
    }
    fn exhaustive(&self, part: usize, _t: Tier) -> Vec<MemCase> {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut s = Src::seeded(seed.wrapping_mul(0x5851_F42D_4C95_7F2D) ^ part as u64);
        let mut v = vec![];
        if part == 0 {
            v.push(MemCase::Shapes((0..SHAPES.len()).collect()));
        }
        if part % 4 == 0 {
            v.push(MemCase::Programs((0..300).map(|_| program(&mut s)).collect()));
        }
        v.push(MemCase::Miri((0..8).map(|_| calls(&mut s, true)).collect()));
        v
    }
    fn hang_secs(&self) -> u64 {
        400
    }
    fn gen(&self, s: &mut Src) -> MemCase {
        MemCase::Calls(calls(s, false))
    }
    fn check(&self, c: &MemCase) -> Result<Obs, String> {
        match c {
            MemCase::Calls(c) => {
                let (matches, parses) = perform(c, true)?;
                Ok(Obs::new(matches >= 1 && parses >= 2)
                    .label(true, "calls")
                    .label(matches >= 1 && parses >= 2, "calls with a match and two parses"))
            }
            MemCase::Miri(b) => {
                miri(b)?;
                Ok(Obs::new(true).label(true, "Miri batch"))
            }
            MemCase::Programs(ps) => {
                if !ps.iter().all(|p| well_formed(p)) {
                    return Ok(Obs::default());
                }
                let text: Vec<String> = ps.iter().enumerate().map(|(i, p)| print_program(p, &format!("f{i}"))).collect();
                let want: Vec<bool> = ps
                    .iter()
                    .map(|p| {
                        let mut sim = Sim::new();
                        p.iter().for_each(|st| sim.step(st));
                        sim.bad
                    })
                    .collect();
                self.judge_programs(&text, &want, false)
            }
            MemCase::Shapes(v) => {
                let v: Vec<usize> = v.iter().copied().filter(|i| *i < SHAPES.len()).collect();
                let text: Vec<String> = v.iter().map(|i| SHAPES[*i].0.replace("NAME", &format!("f{i}"))).collect();
                let want: Vec<bool> = v.iter().map(|i| SHAPES[*i].1).collect();
                self.judge_programs(&text, &want, true)
            }
        }
    }
    fn shrink(&self, c: &MemCase) -> Vec<MemCase> {
        match c {
            MemCase::Calls(c) => shrink_calls(c).into_iter().map(MemCase::Calls).collect(),
            MemCase::Miri(b) if b.len() > 1 => {
                let h = b.len() / 2;
                let mut out = vec![MemCase::Miri(b[..h].to_vec()), MemCase::Miri(b[h..].to_vec())];
                out.extend(b.iter().map(|c| MemCase::Miri(vec![c.clone()])));
                out
            }
            MemCase::Miri(b) => b
                .iter()
                .flat_map(|c| {
                    let mut v = vec![MemCase::Calls(c.clone())];
                    v.extend(shrink_calls(c).into_iter().map(|c| MemCase::Miri(vec![c])));
                    v
                })
                .collect(),
            MemCase::Programs(ps) if ps.len() > 1 => {
                let h = ps.len() / 2;
                vec![MemCase::Programs(ps[..h].to_vec()), MemCase::Programs(ps[h..].to_vec())]
            }
            MemCase::Programs(ps) => ps
                .iter()
                .flat_map(|p| shrink_vec(p, |st| match st {
                    St::Block(b) => shrink_vec(b, |_| vec![]).into_iter().map(St::Block).collect(),
                    _ => vec![],
                }))
                .map(|p| MemCase::Programs(vec![p]))
                .collect(),
            MemCase::Shapes(v) if v.len() > 1 => v.iter().map(|i| MemCase::Shapes(vec![*i])).collect(),
            MemCase::Shapes(_) => vec![],
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "AddressSanitizer does not instrument the precompiled standard library; Miri interprets it.",
            "Aliasing is judged by Miri's Tree Borrows model.",
        ]
    }
}

impl Memory {
    /// `strict`: the programs that need not be rejected must be accepted. (The
    /// borrow checker may reject valid ones of the generated programs: it does
    /// not tell apart the loans a reused variable held at different times.)
    fn judge_programs(&self, text: &[String], want: &[bool], strict: bool) -> Result<Obs, String> {
        let codes = compile(text);
        let (mut rejected, mut accepted, mut conservative) = (0, 0, 0);
        for ((t, reject), codes) in text.iter().zip(want).zip(&codes) {
            if let Some(c) = codes.iter().find(|c| !is_borrow_error(c)) {
                panic!("client program rejected with {c}, not by the borrow checker:\n{t}");
            }
            match (reject, codes.is_empty()) {
                (true, true) => {
                    return Err(format!("the compiler accepts a program using a query after its parser was reused or dropped:\n{t}"))
                }
                (false, false) if !strict => conservative += 1,
                (false, false) => panic!("a valid client program is rejected ({codes:?}):\n{t}"),
                (true, false) => rejected += 1,
                (false, true) => accepted += 1,
            }
        }
        if text.len() >= 100 {
            assert!(rejected >= 10 && accepted >= 10 && conservative <= accepted, "{rejected} {accepted} {conservative}");
        }
        Ok(Obs::new(rejected > 0 && accepted > 0)
            .label(true, "client programs batch"))
    }
}
