//! C22: objects do not influence each other, on one thread or on several.

use crate::case::*;
use crate::driver::{Obs, Prop, Tier};
use crate::gen::{self, Src};
use crate::model::Algo;
use crate::sut::{self, Fz};
use norm::fzf::{FzfDistance, FzfParser, FzfQuery};
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

pub struct Threads;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Origin {
    /// Made on the thread.
    Own,
    /// Made here, moved to the thread.
    Moved,
    /// A clone of a metric that stays here, made on the thread.
    Cloned,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Member {
    pub v2: bool,
    pub cfg: Cfg,
    pub origin: Origin,
    /// (query, candidate, with ranges, parse it again with an own parser)
    pub ops: Vec<(usize, usize, bool, bool)>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Team {
    pub queries: Vec<(String, bool)>,
    pub cands: Vec<String>,
    pub members: Vec<Member>,
    /// How often each thread performs its operations.
    pub rounds: usize,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum TeamCase {
    Team(Team),
    /// Interpreted by Miri with this seed, which detects data races.
    Miri(u64, Vec<Team>),
    /// Performed in order by one new process, and each alone by another.
    Process(Vec<Call>),
    /// The client program that requires the types to be Send and Sync.
    Program,
}

/// One call on new objects.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Call {
    pub v2: bool,
    pub qc: Qc,
    pub ranges: bool,
}

/// So that the harness compiles whatever the types of norm implement; that they
/// are Send and Sync is what `PROGRAM` decides.
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

type Answer = (Option<FzfDistance>, sut::Ranges);

fn op(m: &mut Fz, q: FzfQuery<'_>, cand: &str, ranges: bool) -> Answer {
    let mut r = Vec::new();
    let d = if ranges { m.dist_ranges(q, cand, &mut r) } else { m.dist(q, cand) };
    (d, r)
}

fn fresh(v2: bool, cfg: Cfg) -> Fz {
    Fz::new(if v2 { Algo::V2 } else { Algo::V1 }, cfg)
}

/// Returns how many answers were matches.
pub fn perform(t: &Team) -> Result<usize, String> {
    if t.queries.is_empty() || t.cands.is_empty() || t.members.is_empty() {
        return Ok(0);
    }
    let mut parsers: Vec<FzfParser> = t.queries.iter().map(|_| FzfParser::new()).collect();
    let queries: Vec<FzfQuery<'_>> = parsers.iter_mut().zip(&t.queries).map(|(p, (q, plain))| sut::parse(p, q, *plain)).collect();
    let (nq, nc) = (queries.len(), t.cands.len());
    // What each member answers on its own: everything new, for one call.
    let want: Vec<Vec<Answer>> = t
        .members
        .iter()
        .map(|m| {
            m.ops
                .iter()
                .map(|(q, c, ranges, _)| {
                    let mut p = FzfParser::new();
                    let (text, plain) = &t.queries[q % nq];
                    let q = sut::parse(&mut p, text, *plain);
                    op(&mut fresh(m.v2, m.cfg), q, &t.cands[c % nc], *ranges)
                })
                .collect()
        })
        .collect();
    let matches = want.iter().flatten().filter(|a| a.0.is_some()).count();
    // All of them in turns on this thread.
    let mut metrics: Vec<Fz> = t.members.iter().map(|m| fresh(m.v2, m.cfg)).collect();
    let longest = t.members.iter().map(|m| m.ops.len()).max().unwrap_or(0);
    for k in 0..longest {
        for (i, m) in t.members.iter().enumerate() {
            if let Some((q, c, ranges, _)) = m.ops.get(k) {
                let got = op(&mut metrics[i], queries[q % nq], &t.cands[c % nc], *ranges);
                if got != want[i][k] {
                    return Err(format!("in turns with the others, operation {k} of member {i} gives {got:?}, alone {:?}", want[i][k]));
                }
            }
        }
    }
    // The queries parsed after each other by one parser each, all still alive,
    // were not disturbed by any of this.
    let barrier = Barrier::new(t.members.len());
    let shared: Any<&[FzfQuery<'_>]> = Any(&queries);
    let keep: Vec<Any<Fz>> = t.members.iter().map(|m| Any(fresh(m.v2, m.cfg))).collect();
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let handles: Vec<_> = t
            .members
            .iter()
            .enumerate()
            .map(|(i, m)| {
                let (barrier, shared, keep, want) = (&barrier, &shared, &keep[i], &want[i]);
                let want = Any(want);
                let moved = match m.origin {
                    Origin::Moved => Some(Any(keep.get().clone())),
                    _ => None,
                };
                sc.spawn(move || crate::driver::guarded(&|| format!("thread {i} of {t:?}"), move || {
                    let (moved, want) = (moved.map(Any::take), want.take());
                    barrier.wait();
                    let mut metric = match m.origin {
                        Origin::Own => fresh(m.v2, m.cfg),
                        Origin::Cloned => keep.get().clone(),
                        Origin::Moved => moved.unwrap(),
                    };
                    let mut parser = FzfParser::new();
                    for round in 0..t.rounds.max(1) {
                        for (k, (q, c, ranges, own)) in m.ops.iter().enumerate() {
                            let cand = &t.cands[c % nc];
                            let got = if *own {
                                let (text, plain) = &t.queries[q % nq];
                                op(&mut metric, sut::parse(&mut parser, text, *plain), cand, *ranges)
                            } else {
                                op(&mut metric, shared.get()[q % nq], cand, *ranges)
                            };
                            if got != want[k] {
                                return Err(format!(
                                    "thread {i}, round {round}, operation {k}: {got:?}, alone {:?}",
                                    want[k]
                                ));
                            }
                        }
                    }
                    Ok(())
                }))
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap().and_then(|r| r)).collect()
    });
    results.into_iter().collect::<Result<Vec<()>, String>>()?;
    Ok(matches)
}

/// `vh calls`: performs the calls read from stdin, one answer a line.
pub fn calls_main() -> i32 {
    let calls: Vec<Call> = serde_json::from_reader(std::io::stdin()).expect("calls");
    for c in &calls {
        let mut p = FzfParser::new();
        let q = sut::parse(&mut p, &c.qc.query, c.qc.plain);
        println!("{:?}", op(&mut fresh(c.v2, c.qc.cfg), q, &c.qc.cand, c.ranges));
    }
    0
}

/// What a new process answers to these calls.
fn process(calls: &[Call]) -> Result<Vec<String>, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("calls")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn vh calls");
    let mut stdin = child.stdin.take().unwrap();
    // The child reads everything before it writes anything.
    stdin.write_all(&serde_json::to_vec(calls).unwrap()).expect("vh calls reads");
    drop(stdin);
    let out = child.wait_with_output().expect("vh calls ends");
    if !out.status.success() {
        return Err(format!("{}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let lines: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect();
    assert_eq!(lines.len(), calls.len());
    Ok(lines)
}

fn processes(calls: &[Call]) -> Result<usize, String> {
    let together = process(calls)?;
    for (k, (c, got)) in calls.iter().zip(&together).enumerate() {
        let alone = process(std::slice::from_ref(c))?.remove(0);
        if *got != alone {
            return Err(format!("call {k} of the process gives {got}, as its first call {alone}: {c:?}"));
        }
    }
    Ok(together.iter().filter(|a| !a.starts_with("(None")).count())
}

fn calls(s: &mut Src) -> Vec<Call> {
    let mut out = Vec::new();
    for _ in 0..s.range(1, 2) {
        let qc = match s.below(3) {
            0 => gen::qc(s),
            1 => gen::qc_contiguous(s),
            _ => gen::qc_fuzzy(s),
        };
        for _ in 0..s.range(2, 6) {
            let cfg = if s.chance(1, 4) { Cfg::default() } else { gen::cfg(s) };
            let plain = if s.chance(7, 8) { qc.plain } else { !qc.plain };
            let qc = Qc { cfg, plain, ..qc.clone() };
            out.push(Call { v2: s.chance(1, 2), qc, ranges: s.chance(1, 2) });
        }
    }
    for k in (1..out.len()).rev() {
        out.swap(k, s.below(k + 1));
    }
    out
}

const PROGRAM: &str = "
fn send<T: Send + 'static>() {}
fn sync<T: Sync + 'static>() {}
fn both<T: Send + Sync>(_: T) {}
pub fn f0() { send::<FzfParser>(); }
pub fn f1() { sync::<FzfParser>(); }
pub fn f2() { send::<FzfV1>(); }
pub fn f3() { sync::<FzfV1>(); }
pub fn f4() { send::<FzfV2>(); }
pub fn f5() { sync::<FzfV2>(); }
pub fn f6() { send::<FzfDistance>(); }
pub fn f7() { sync::<FzfDistance>(); }
pub fn f8() { send::<FzfQuery<'static>>(); }
pub fn f9() { sync::<FzfQuery<'static>>(); }
pub fn f10<'a>(q: FzfQuery<'a>) { both(q); }
pub fn f11(p: &mut FzfParser) { let q = p.parse(\"a\"); std::thread::scope(|s| { for _ in 0..2 { s.spawn(move || { FzfV2::new().distance(q, \"a\") }); } }); }
pub fn f12(p: &mut FzfParser) { let q = p.parse_not_extended(\"a\"); std::thread::scope(|s| { for _ in 0..2 { s.spawn(|| { FzfV1::new().distance(q, \"a\") }); } }); }
pub fn f13(mut m: FzfV2) { std::thread::spawn(move || { let mut p = FzfParser::new(); m.distance(p.parse(\"a\"), \"a\") }); }
pub fn f14(mut m: FzfV1, mut p: FzfParser) { std::thread::spawn(move || { m.distance(p.parse(\"a\"), \"a\") }); }
pub fn f15() { send::<norm::CaseSensitivity>(); sync::<norm::CaseSensitivity>(); send::<FzfScheme>(); sync::<FzfScheme>(); }
";

fn team(s: &mut Src, small: bool) -> Team {
    let (mut queries, mut cands) = (Vec::new(), Vec::new());
    for _ in 0..s.range(1, 3) {
        let mut q = match s.below(3) {
            0 => gen::qc(s),
            1 => gen::qc_contiguous(s),
            _ => gen::qc_fuzzy(s),
        };
        if small {
            q.query = q.query.chars().take(*s.pick(&[3, 8, 16])).collect();
            q.cand = q.cand.chars().take(*s.pick(&[6, 12, 24])).collect();
        }
        queries.push((q.query, q.plain));
        cands.push(q.cand);
    }
    let members = (0..s.range(2, if small { 3 } else { 4 }))
        .map(|_| Member {
            v2: s.chance(1, 2),
            cfg: if s.chance(1, 3) { Cfg::default() } else { gen::cfg(s) },
            origin: [Origin::Own, Origin::Moved, Origin::Cloned][s.below(3)].clone(),
            ops: (0..s.range(1, if small { 3 } else { 5 }))
                .map(|_| {
                    let q = s.below(queries.len());
                    (q, if s.chance(3, 4) { q } else { s.below(cands.len()) }, s.chance(1, 2), s.chance(1, 3))
                })
                .collect(),
        })
        .collect();
    Team { queries, cands, members, rounds: if small { 1 } else { *s.pick(&[1, 4, 16]) } }
}

fn shrink_team(t: &Team) -> Vec<Team> {
    let mut out: Vec<Team> = shrink_vec(&t.members, |m| {
        let mut v: Vec<Member> = shrink_vec(&m.ops, |_| vec![]).into_iter().map(|ops| Member { ops, ..m.clone() }).collect();
        v.extend(shrink_cfg(m.cfg).into_iter().map(|cfg| Member { cfg, ..m.clone() }));
        v
    })
    .into_iter()
    .map(|members| Team { members, ..t.clone() })
    .collect();
    for (i, c) in t.cands.iter().enumerate() {
        for x in shrink_str(c) {
            let mut g = t.clone();
            g.cands[i] = x;
            out.push(g);
        }
    }
    for (i, (q, _)) in t.queries.iter().enumerate() {
        for x in shrink_str(q) {
            let mut g = t.clone();
            g.queries[i].0 = x;
            out.push(g);
        }
    }
    out
}

impl Prop for Threads {
    type Case = TeamCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "Team: 2..4, in huge cases up to 304 metrics of both kinds with settings of their own (made on their thread, moved to it or cloned from a metric shared by reference) perform 1..5 operations each, up to 16 times, with shared copies of the same queries or their own parsers: first in turns on one thread, then on as many threads at once; every answer is compared with that of new objects used for one call. Miri: batches of smaller teams interpreted by Miri with a random schedule, which reports data races. Process: 2..12 calls on new objects with different settings on one or two pairs of query and candidate, performed in order by one new process; every answer is compared with that of a new process that performs this call only. Program: functions requiring the public types to be Send and Sync, which must compile. Non-trivial: two members, a match; two calls, a match; a batch."
    }
    fn quick(&self) -> usize {
        1200
    }
    fn exhaustive_parts(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 16,
            Tier::Thorough => 300,
        }
    }
    fn exhaustive(&self, part: usize, _: Tier) -> Vec<TeamCase> {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut s = Src::seeded(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ part as u64);
        let mut v = vec![];
        if part == 0 {
            v.push(TeamCase::Program);
        }
        v.push(TeamCase::Miri(s.below(1 << 20) as u64, (0..8).map(|_| team(&mut s, true)).collect()));
        for _ in 0..8 {
            v.push(TeamCase::Process(calls(&mut s)));
        }
        v
    }
    fn gen(&self, s: &mut Src) -> TeamCase {
        TeamCase::Team(team(s, false))
    }
    fn huge(&self, s: &mut Src) -> Option<TeamCase> {
        let mut t = team(s, false);
        if s.chance(1, 3) {
            // Many metrics at once.
            for _ in 0..s.range(4, 300) {
                let m = s.pick(&t.members).clone();
                let cfg = if s.chance(1, 2) { m.cfg } else { gen::cfg(s) };
                t.members.push(Member { v2: s.chance(1, 2), cfg, ..m });
            }
            t.rounds = 2;
            return Some(TeamCase::Team(t));
        }
        let q = gen::huge(s);
        if q.query.len() * q.cand.len() > 10_000_000 {
            return None;
        }
        t.queries.push((q.query, q.plain));
        t.cands.push(q.cand);
        let (nq, nc) = (t.queries.len() - 1, t.cands.len() - 1);
        for m in &mut t.members {
            let at = s.below(m.ops.len() + 1);
            m.ops.insert(at, (nq, nc, s.chance(1, 2), s.chance(1, 3)));
        }
        t.rounds = 2;
        Some(TeamCase::Team(t))
    }
    fn hang_secs(&self) -> u64 {
        400
    }
    fn check(&self, c: &TeamCase) -> Result<Obs, String> {
        match c {
            TeamCase::Team(t) => {
                let n = perform(t)?;
                Ok(Obs::new(n > 0 && t.members.len() >= 2)
                    .label(t.members.iter().any(|m| m.cfg != t.members[0].cfg), "different settings")
                    .label(n > 0, "team with a match"))
            }
            TeamCase::Miri(seed, b) => {
                if !b.is_empty() {
                    super::memory::interpret(&serde_json::to_vec(&("threads", b)).unwrap(), Some(*seed))?;
                }
                Ok(Obs::new(true).label(true, "Miri batch"))
            }
            TeamCase::Process(calls) => {
                let n = processes(calls)?;
                Ok(Obs::new(n > 0 && calls.len() >= 2).label(n > 0, "process with a match"))
            }
            TeamCase::Program => {
                let lines: Vec<String> = PROGRAM.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
                let codes = super::memory::compile(&lines);
                for (l, codes) in lines.iter().zip(&codes) {
                    if codes.iter().any(|c| c == "E0277") {
                        return Err(format!("the compiler rejects sending or sharing: {l}"));
                    }
                    assert!(codes.is_empty(), "{l}: {codes:?}");
                }
                Ok(Obs::new(true).label(true, "client program"))
            }
        }
    }
    fn shrink(&self, c: &TeamCase) -> Vec<TeamCase> {
        match c {
            TeamCase::Team(t) => shrink_team(t).into_iter().map(TeamCase::Team).collect(),
            TeamCase::Miri(seed, b) if b.len() > 1 => {
                let h = b.len() / 2;
                let mut out = vec![TeamCase::Miri(*seed, b[..h].to_vec()), TeamCase::Miri(*seed, b[h..].to_vec())];
                out.extend(b.iter().map(|c| TeamCase::Miri(*seed, vec![c.clone()])));
                out
            }
            TeamCase::Miri(seed, b) => b
                .iter()
                .flat_map(|t| {
                    let mut v = vec![TeamCase::Team(t.clone())];
                    v.extend(shrink_team(t).into_iter().map(|t| TeamCase::Miri(*seed, vec![t])));
                    v
                })
                .collect(),
            TeamCase::Process(calls) => shrink_vec(calls, |c| {
                let mut v: Vec<Call> = shrink_qc(&c.qc).into_iter().map(|qc| Call { qc, ..c.clone() }).collect();
                if c.ranges {
                    v.push(Call { ranges: false, ..c.clone() });
                }
                v
            })
            .into_iter()
            .map(TeamCase::Process)
            .collect(),
            TeamCase::Program => vec![],
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Threads are scheduled by the operating system in the native runs; data races are decided by Miri, on the schedules it explored."]
    }
}
