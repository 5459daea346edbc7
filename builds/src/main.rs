//! Answers requests on stdin with whatever this build of norm gives.
//!
//! Request:  u32 length, then: case, norm, scheme (u8 each), u32 number of
//!           queries, each (u8 plain, u32 length, bytes), u32 number of
//!           candidates, each (u32 length, bytes).
//! Response: two sections (V1, V2), each u32 length (u32::MAX: this build does
//!           not have the metric) and text. All integers little-endian.

use norm::fzf::{FzfParser, FzfScheme};
use norm::{CaseSensitivity, Metric};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.0[0];
        self.0 = &self.0[1..];
        v
    }
    fn u32(&mut self) -> usize {
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        u32::from_le_bytes(a.try_into().unwrap()) as usize
    }
    fn str(&mut self) -> &'a str {
        let n = self.u32();
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        std::str::from_utf8(a).unwrap()
    }
}

#[allow(dead_code)]
struct Job<'a> {
    case: CaseSensitivity,
    norm: bool,
    scheme: FzfScheme,
    queries: Vec<(bool, &'a str)>,
    cands: Vec<&'a str>,
}

#[allow(unused_macros)]
macro_rules! section {
    ($ty:ty, $job:expr) => {{
        let job: &Job = $job;
        let mut out = String::new();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut m = <$ty>::new();
            m.set_case_sensitivity(job.case);
            m.set_candidate_normalization(job.norm);
            m.set_scoring_scheme(job.scheme);
            let mut parser = FzfParser::new();
            let mut buf = Vec::new();
            let mut all = Vec::new();
            for (i, (plain, q)) in job.queries.iter().enumerate() {
                let q = if *plain { parser.parse_not_extended(q) } else { parser.parse(q) };
                writeln!(out, "query {i}: {q:?}").unwrap();
                for (j, c) in job.cands.iter().enumerate() {
                    let d = m.distance(q, c);
                    let n = buf.len();
                    let e = m.distance_and_ranges(q, c, &mut buf);
                    writeln!(out, "{i},{j}: {d:?} {e:?} {:?}", buf.get(n..)).unwrap();
                    all.push((d, (i, j)));
                }
            }
            // The order of the distances, not only their Debug form.
            all.sort_by(|a, b| a.0.cmp(&b.0));
            let order: Vec<_> = all.iter().map(|x| x.1).collect();
            writeln!(out, "order {order:?} metric {m:?}").unwrap();
        }));
        if r.is_err() {
            out.push_str("panicked\n");
        }
        Some(out)
    }};
}

fn v1(_job: &Job) -> Option<String> {
    #[cfg(feature = "v1")]
    return section!(norm::fzf::FzfV1, _job);
    #[cfg(not(feature = "v1"))]
    None
}

fn v2(_job: &Job) -> Option<String> {
    #[cfg(feature = "v2")]
    return section!(norm::fzf::FzfV2, _job);
    #[cfg(not(feature = "v2"))]
    None
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut stdin, mut stdout) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut len = [0; 4];
        if stdin.read_exact(&mut len).is_err() {
            return;
        }
        let mut req = vec![0; u32::from_le_bytes(len) as usize];
        stdin.read_exact(&mut req).unwrap();
        let mut r = In(&req);
        let job = Job {
            case: match r.u8() {
                0 => CaseSensitivity::Sensitive,
                1 => CaseSensitivity::Insensitive,
                _ => CaseSensitivity::Smart,
            },
            norm: r.u8() == 1,
            scheme: match r.u8() {
                0 => FzfScheme::Default,
                1 => FzfScheme::Path,
                _ => FzfScheme::History,
            },
            queries: (0..r.u32()).map(|_| (r.u8() == 1, r.str())).collect(),
            cands: (0..r.u32()).map(|_| r.str()).collect(),
        };
        let mut resp = Vec::new();
        for s in [v1(&job), v2(&job)] {
            match s {
                None => resp.extend(u32::MAX.to_le_bytes()),
                Some(t) => {
                    resp.extend((t.len() as u32).to_le_bytes());
                    resp.extend(t.as_bytes());
                }
            }
        }
        if stdout.write_all(&resp).and_then(|_| stdout.flush()).is_err() {
            return;
        }
    }
}
