//! Runs under `valgrind --tool=callgrind`: for each request on stdin, performs
//! one operation of norm and has callgrind write the number of instructions it
//! took (a dump file per request).
//!
//! Request:  u32 length, then u8 operation (0: FzfV1, 1: FzfV2, 2: parse,
//!           3: parse_not_extended, 4: FzfV1 on an extended query, 5: FzfV2
//!           on one), u8 with ranges, u8 case, u8 norm,
//!           u8 scheme, then four strings (u32 length, bytes): query and
//!           candidate of a preceding call on the same object, query, candidate.
//! Response: u8, 1 if matched.

use norm::fzf::{FzfParser, FzfScheme, FzfV1, FzfV2};
use norm::{CaseSensitivity, Metric};
use std::hint::black_box;
use std::io::{Read, Write};

/// valgrind.h's client request, for x86-64.
#[inline(never)]
fn request(code: u64) {
    let args: [u64; 6] = [code, 0, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") 0u64 => _,
        );
    }
}

const BASE: u64 = ((b'C' as u64) << 24) | ((b'T' as u64) << 16);

fn zero() {
    request(BASE + 1)
}

fn dump() {
    request(BASE)
}

struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.0[0];
        self.0 = &self.0[1..];
        v
    }
    fn str(&mut self) -> &'a str {
        let (a, b) = self.0.split_at(4);
        let n = u32::from_le_bytes(a.try_into().unwrap()) as usize;
        let (a, b) = b.split_at(n);
        self.0 = b;
        std::str::from_utf8(a).unwrap()
    }
}

macro_rules! measure {
    ($ty:ty, $parse:ident, $cfg:expr, $ranges:expr, $warm:expr, $query:expr, $cand:expr) => {{
        let (case, norm, scheme) = $cfg;
        let mut m = <$ty>::new();
        m.set_case_sensitivity(case);
        m.set_candidate_normalization(norm);
        m.set_scoring_scheme(scheme);
        let mut p = FzfParser::new();
        let mut buf = Vec::new();
        if !$warm.0.is_empty() {
            black_box(m.distance_and_ranges(p.parse_not_extended($warm.0), $warm.1, &mut buf));
            buf = Vec::new();
        }
        let q = p.$parse($query);
        if $ranges {
            zero();
            let d = black_box(m.distance_and_ranges(q, black_box($cand), &mut buf));
            dump();
            d.is_some()
        } else {
            zero();
            let d = black_box(m.distance(q, black_box($cand)));
            dump();
            d.is_some()
        }
    }};
}

fn main() {
    let (mut stdin, mut stdout) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut len = [0; 4];
        if stdin.read_exact(&mut len).is_err() {
            return;
        }
        let mut req = vec![0; u32::from_le_bytes(len) as usize];
        stdin.read_exact(&mut req).unwrap();
        let mut r = In(&req);
        let op = r.u8();
        let ranges = r.u8() == 1;
        let case = match r.u8() {
            0 => CaseSensitivity::Sensitive,
            1 => CaseSensitivity::Insensitive,
            _ => CaseSensitivity::Smart,
        };
        let norm = r.u8() == 1;
        let scheme = match r.u8() {
            0 => FzfScheme::Default,
            1 => FzfScheme::Path,
            _ => FzfScheme::History,
        };
        let cfg = (case, norm, scheme);
        let warm = (r.str(), r.str());
        let (query, cand) = (r.str(), r.str());
        let matched = match op {
            0 => measure!(FzfV1, parse_not_extended, cfg, ranges, warm, query, cand),
            1 => measure!(FzfV2, parse_not_extended, cfg, ranges, warm, query, cand),
            4 => measure!(FzfV1, parse, cfg, ranges, warm, query, cand),
            5 => measure!(FzfV2, parse, cfg, ranges, warm, query, cand),
            op => {
                let mut p = FzfParser::new();
                if !warm.0.is_empty() {
                    black_box(p.parse(warm.0));
                    black_box(p.parse_not_extended(warm.0));
                }
                if op == 2 {
                    zero();
                    black_box(p.parse(black_box(query)));
                    dump();
                } else {
                    zero();
                    black_box(p.parse_not_extended(black_box(query)));
                    dump();
                }
                true
            }
        };
        if stdout.write_all(&[matched as u8]).and_then(|_| stdout.flush()).is_err() {
            return;
        }
    }
}
