//! C20: every build of the crate (feature set x profile) answers alike.

use crate::case::*;
use crate::driver::{Obs, Prop};
use crate::gen::{self, Src};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};

pub struct Builds;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BuildCase {
    pub cfg: Cfg,
    pub queries: Vec<(String, bool)>,
    pub cands: Vec<String>,
}

/// Where check.sh puts the workers, one per build, named after it.
fn dir() -> PathBuf {
    crate::driver::root().join("builds/bin")
}

struct Worker {
    name: String,
    child: Child,
}

thread_local! {
    static POOL: RefCell<Vec<Worker>> = const { RefCell::new(Vec::new()) };
}

fn spawn(p: &PathBuf) -> Worker {
    Worker {
        name: p.file_name().unwrap().to_string_lossy().into_owned(),
        child: Command::new(p)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a worker"),
    }
}

fn start() -> Vec<Worker> {
    let mut names: Vec<PathBuf> =
        std::fs::read_dir(dir()).expect("the workers' directory").map(|e| e.unwrap().path()).collect();
    names.sort();
    assert!(names.len() >= 2, "no workers in {}", dir().display());
    names.iter().map(spawn).collect()
}

/// Whether the debug build (if check.sh names one) gets to the end of this.
pub fn in_debug(q: &Qc) -> Result<bool, String> {
    let Some(path) = std::env::var_os("VH_DEBUG_WORKER") else { return Ok(false) };
    let c = BuildCase { cfg: q.cfg, queries: vec![(q.query.clone(), q.plain)], cands: vec![q.cand.clone()] };
    let mut w = spawn(&path.into());
    let sent = w.child.stdin.as_mut().unwrap().write_all(&c.encode()).and_then(|_| w.child.stdin.as_mut().unwrap().flush());
    let o = w.child.stdout.as_mut().unwrap();
    let answer = sent.and_then(|_| Ok([section(o)?, section(o)?]));
    match answer {
        Ok(texts) => match texts.iter().flatten().find(|t| t.ends_with("panicked\n")) {
            Some(_) => Err("a debug build panics".into()),
            None => Ok(true),
        },
        Err(_) => Err(format!("a debug build dies: {:?}", w.child.wait())),
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn section(r: &mut impl Read) -> std::io::Result<Option<String>> {
    let mut n = [0; 4];
    r.read_exact(&mut n)?;
    let n = u32::from_le_bytes(n);
    if n == u32::MAX {
        return Ok(None);
    }
    let mut b = vec![0; n as usize];
    r.read_exact(&mut b)?;
    Ok(Some(String::from_utf8_lossy(&b).into_owned()))
}

impl BuildCase {
    fn encode(&self) -> Vec<u8> {
        let mut b = Vec::new();
        let str = |b: &mut Vec<u8>, s: &str| {
            b.extend((s.len() as u32).to_le_bytes());
            b.extend(s.as_bytes());
        };
        b.push(CASES.iter().position(|c| *c == self.cfg.case).unwrap() as u8);
        b.push(self.cfg.norm as u8);
        b.push(SCHEMES.iter().position(|c| *c == self.cfg.scheme).unwrap() as u8);
        b.extend((self.queries.len() as u32).to_le_bytes());
        for (q, plain) in &self.queries {
            b.push(*plain as u8);
            str(&mut b, q);
        }
        b.extend((self.cands.len() as u32).to_le_bytes());
        for c in &self.cands {
            str(&mut b, c);
        }
        let mut out = (b.len() as u32).to_le_bytes().to_vec();
        out.extend(b);
        out
    }
}

impl Prop for Builds {
    type Case = BuildCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Case: 1..3 queries and 1..4 candidates of all kinds and sizes under one configuration, answered (distance, distance_and_ranges into one buffer, Debug forms, sort order) by a process of every build: features {fzf-v1}, {fzf-v2}, {both}, {both, __into-score}, {__tests}, each in the debug and the release profile. All builds having a metric must give the same text. Non-trivial: at least one match."
    }
    fn quick(&self) -> usize {
        6_000
    }
    fn gen(&self, s: &mut Src) -> BuildCase {
        let cfg = gen::cfg(s);
        let (mut queries, mut cands) = (Vec::new(), Vec::new());
        for _ in 0..s.range(1, 3) {
            let q = match s.weighted(&[4, 3, 2]) {
                0 => gen::qc(s),
                1 => gen::qc_fuzzy(s),
                _ => gen::qc_contiguous(s),
            };
            queries.push((q.query, q.plain));
            cands.push(q.cand.chars().take(600).collect());
        }
        if s.chance(1, 3) {
            cands.push(gen::candidate(s).chars().take(600).collect());
        }
        BuildCase { cfg, queries, cands }
    }
    fn huge(&self, s: &mut Src) -> Option<BuildCase> {
        // The debug builds take a while, all the more with wide matrices.
        for _ in 0..10 {
            let q = gen::huge(s);
            if q.query.len() * q.cand.len() < 4_000_000 {
                return Some(BuildCase { cfg: q.cfg, queries: vec![(q.query, q.plain)], cands: vec![q.cand] });
            }
        }
        None
    }
    fn check(&self, c: &BuildCase) -> Result<Obs, String> {
        let req = c.encode();
        POOL.with(|pool| {
            let mut pool = pool.borrow_mut();
            if pool.is_empty() {
                *pool = start();
            }
            let mut broken = None;
            for w in pool.iter_mut() {
                let i = w.child.stdin.as_mut().unwrap();
                if i.write_all(&req).and_then(|_| i.flush()).is_err() {
                    broken = Some(w.name.clone());
                }
            }
            let mut answers: Vec<(String, [Option<String>; 2])> = Vec::new();
            for w in pool.iter_mut() {
                let o = w.child.stdout.as_mut().unwrap();
                match section(o).and_then(|a| section(o).map(|b| [a, b])) {
                    Ok(a) => answers.push((w.name.clone(), a)),
                    Err(_) => broken = Some(w.name.clone()),
                }
            }
            if let Some(name) = broken {
                pool.clear();
                return Err(format!("the build {name} died"));
            }
            let mut matched = false;
            for (k, metric) in ["FzfV1", "FzfV2"].iter().enumerate() {
                let have: Vec<(&String, &String)> =
                    answers.iter().filter_map(|(n, a)| a[k].as_ref().map(|t| (n, t))).collect();
                assert!(have.len() >= 2, "{metric} is in fewer than two builds");
                matched |= have[0].1.contains(": Some(");
                for (n, t) in &have[1..] {
                    if *t != have[0].1 {
                        let (a, b) = have[0]
                            .1
                            .lines()
                            .chain(std::iter::repeat("<end>"))
                            .zip(t.lines().chain(std::iter::repeat("<end>")))
                            .find(|(a, b)| a != b)
                            .unwrap();
                        let cut = |s: &str| s.chars().take(300).collect::<String>();
                        return Err(format!(
                            "{metric}: build {} answers {:?}, build {n} answers {:?}",
                            have[0].0,
                            cut(a),
                            cut(b)
                        ));
                    }
                }
            }
            Ok(Obs::new(matched).label(c.cands.iter().any(|c| !c.is_ascii()), "non-ASCII candidate"))
        })
    }
    fn shrink(&self, c: &BuildCase) -> Vec<BuildCase> {
        let mut out = Vec::new();
        for i in 0..c.queries.len() {
            if c.queries.len() > 1 {
                let mut d = c.clone();
                d.queries.remove(i);
                out.push(d);
            }
        }
        for i in 0..c.cands.len() {
            if c.cands.len() > 1 {
                let mut d = c.clone();
                d.cands.remove(i);
                out.push(d);
            }
        }
        for (i, x) in c.cands.iter().enumerate() {
            for y in shrink_str(x) {
                let mut d = c.clone();
                d.cands[i] = y;
                out.push(d);
            }
        }
        for (i, x) in c.queries.iter().enumerate() {
            for y in shrink_str(&x.0) {
                let mut d = c.clone();
                d.queries[i].0 = y;
                out.push(d);
            }
        }
        for cfg in shrink_cfg(c.cfg) {
            out.push(BuildCase { cfg, ..c.clone() });
        }
        out
    }
}
