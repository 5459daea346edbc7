//! Structured generators. They draw from a `Src`, which is either a seeded
//! PRNG (random testing) or a byte string (coverage-guided fuzzing).

use crate::case::*;
use crate::model::Kind;
use crate::normtable;

pub enum Src<'a> {
    Rng([u64; 4]),
    Bytes(&'a [u8], usize),
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64) -> Src<'static> {
        let mut s = seed;
        Src::Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn bytes(b: &'a [u8]) -> Src<'a> {
        Src::Bytes(b, 0)
    }
    /// Whether a byte source is used up (random sources never are).
    pub fn exhausted(&self) -> bool {
        match self {
            Src::Rng(_) => false,
            Src::Bytes(b, i) => *i >= b.len(),
        }
    }
    fn byte(&mut self) -> u64 {
        match self {
            Src::Rng(_) => self.u64() & 255,
            Src::Bytes(b, i) => {
                let v = b.get(*i).copied().unwrap_or(0);
                *i += 1;
                v as u64
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self {
            Src::Rng(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Src::Bytes(..) => (0..8).fold(0, |a, _| (a << 8) | self.byte()),
        }
    }
    /// Uniform-ish in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        match self {
            Src::Rng(_) => ((self.u64() >> 32) as usize * n) >> 32,
            Src::Bytes(..) => {
                let mut v = self.byte();
                if n > 256 {
                    v = (v << 8) | self.byte();
                }
                if n > 65536 {
                    v = (v << 8) | self.byte();
                }
                v as usize % n
            }
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
}

// ------------------------------------------------------------- alphabets

pub const SEPS: &[char] = &[' ', '/', '_', '-', '.', ',', ':', ';', '|', '\\', '(', '\t', '@'];
pub const UNI: &[char] = &[
    'é', 'É', 'ö', 'Ö', 'ß', 'ƒ', 'ñ', 'Ñ', 'ā', 'Ā', 'ſ', 'ı', 'İ', 'ø', 'Ø', 'ł', 'Ł', 'ä', 'Ç',
    'я', 'Я', 'ж', 'Ж', 'λ', 'Λ', 'σ', 'ς', 'Σ', '日', '本', 'ǅ', 'ª', 'ⅷ', 'Ⅷ', '１', '٣', '²', '½',
    '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}', '\u{301}', '—', '€', '🦀', '😀', '𝒜', '𐐀', '𐐨',
    '\u{1D00}', '\u{2184}', 'Ɔ', 'ɐ', '\u{212A}', '\u{10FFFF}', '\u{200B}', 'Ⱥ', 'ⱥ', 'ᾳ',
];
pub const WORDS: &[&str] = &[
    "foo", "bar", "baz", "src", "main", "lib", "test", "fooBar", "HTTPServer", "x86", "utf8", "README",
    "v2", "a1b2", "core", "fzf", "Norm", "util", "io", "A", "aa", "abab", "zzz", "Über", "café", "naïve",
    "2024", "rs", "md", "toml", "cargo", "aBc", "XyZ",
];

pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => (s.range(0x20, 0x7e) as u8) as char,
        1 => *s.pick(UNI),
        2 => s.pick(normtable::TABLE).0,
        _ => loop {
            let v = match s.below(4) {
                0 => s.range(0, 0x7f),
                1 => s.range(0x80, 0x7ff),
                2 => s.range(0x800, 0xffff),
                _ => s.range(0x10000, 0x10ffff),
            };
            if let Some(c) = char::from_u32(v as u32) {
                break c;
            }
            if s.exhausted() {
                break 'a';
            }
        },
    }
}

/// An alphabet to draw a whole string from.
pub fn alphabet(s: &mut Src) -> Vec<char> {
    let base: &[char] = match s.weighted(&[4, 4, 4, 3, 3, 2]) {
        0 => &['a', 'b'],
        1 => &['a', 'b', 'A', 'B', '_'],
        2 => &['a', 'b', 'A', '1', ' ', '/', '_', 'c', 'B', '2'],
        3 => &['a', 'A', 'é', 'É', 'ö', ' ', '日', '🦀', '/', 'b'],
        4 => &['a', 'b', '!', '^', '$', '\'', '|', '\\', ' '],
        _ => &['f', 'o', 'O', 'F', '.', ' '],
    };
    let mut v = base.to_vec();
    if s.chance(1, 4) {
        for _ in 0..s.range(1, 4) {
            v.push(any_char(s));
        }
    }
    v
}

pub fn length(s: &mut Src) -> usize {
    match s.weighted(&[30, 30, 20, 10, 4, 3, 3]) {
        0 => s.range(0, 8),
        1 => s.range(4, 20),
        2 => s.range(15, 50),
        3 => s.range(40, 120),
        4 => s.range(124, 132),
        5 => s.range(250, 262),
        _ => s.range(130, 700),
    }
}

fn spaces(s: &mut Src) -> usize {
    match s.weighted(&[30, 1, 1]) {
        0 => s.range(1, 4),
        1 => *s.pick(&[15, 31, 63, 127, 255]) + s.below(4),
        _ => s.range(5, 300),
    }
}

/// A candidate string.
pub fn candidate(s: &mut Src) -> String {
    let mut out = String::new();
    match s.weighted(&[30, 30, 14, 14, 4, 4, 4]) {
        0 => {
            let a = alphabet(s);
            for _ in 0..length(s) {
                out.push(*s.pick(&a));
            }
        }
        1 => {
            // Words with separators.
            let mut n = s.range(1, 7);
            if s.chance(1, 30) {
                n = s.range(20, 120);
            }
            let sep = s.below(4);
            for i in 0..n {
                if i > 0 || s.chance(1, 8) {
                    match sep {
                        0 => out.push(' '),
                        1 => out.push('/'),
                        2 => out.push(*s.pick(SEPS)),
                        _ => {
                            if s.chance(1, 2) {
                                out.push(*s.pick(SEPS))
                            }
                        }
                    }
                }
                out.push_str(s.pick(WORDS));
            }
        }
        2 => {
            // Runs: long gaps and repeated letters.
            let a = alphabet(s);
            for _ in 0..s.range(1, 12) {
                let c = *s.pick(&a);
                let n = match s.below(5) {
                    0 | 1 => 1,
                    2 => s.range(1, 4),
                    3 => s.range(3, 14),
                    _ => s.range(10, 45),
                };
                for _ in 0..n {
                    out.push(c);
                }
            }
        }
        3 => {
            for _ in 0..length(s).min(60) {
                if s.chance(1, 2) {
                    out.push(*s.pick(UNI));
                } else {
                    out.push(*s.pick(&['a', 'b', 'A', 'o', 'e', '1', ' ', '/', '-', 's']));
                }
            }
        }
        4 => {
            for _ in 0..length(s).min(80) {
                out.push(s.range(0, 0x7f) as u8 as char);
            }
        }
        5 => {
            for _ in 0..length(s).min(80) {
                out.push(any_char(s));
            }
        }
        _ => {
            let n = s.range(0, 6);
            for _ in 0..n {
                out.push(*s.pick(&[' ', ' ', ' ', 'a', '\t']));
            }
        }
    }
    if s.chance(1, 6) {
        out = " ".repeat(spaces(s)) + &out;
    }
    if s.chance(1, 6) {
        out.push_str(&" ".repeat(spaces(s)));
    }
    if s.chance(1, 40) {
        // Beyond every preallocated size.
        let n = s.range(2, 10);
        out = out.repeat(n);
    }
    out.chars().take(2500).collect()
}

pub fn flip_case(c: char) -> char {
    let simple = |mut it: Box<dyn Iterator<Item = char>>| -> char {
        let f = it.next().unwrap();
        if it.next().is_some() {
            c
        } else {
            f
        }
    };
    if c.is_lowercase() {
        simple(Box::new(c.to_uppercase()))
    } else if c.is_uppercase() {
        simple(Box::new(c.to_lowercase()))
    } else {
        c
    }
}

/// Text related to a candidate in a chosen way.
pub fn text_from(s: &mut Src, cand: &[char], kind: Option<Kind>) -> Vec<char> {
    let n = cand.len();
    let trimmed = |c: &[char]| -> (usize, usize) {
        let a = c.iter().take_while(|&&x| x == ' ').count();
        let b = c.iter().rev().take_while(|&&x| x == ' ').count();
        if a + b > c.len() {
            (0, c.len())
        } else {
            (a, c.len() - b)
        }
    };
    let shape = match kind {
        Some(Kind::Fuzzy) => s.weighted(&[60, 12, 4, 4, 3, 12]),
        Some(Kind::Exact) => s.weighted(&[3, 70, 8, 8, 5, 12]),
        Some(Kind::Prefix) => s.weighted(&[2, 10, 70, 2, 10, 12]),
        Some(Kind::Suffix) => s.weighted(&[2, 10, 2, 70, 10, 12]),
        Some(Kind::Equal) => s.weighted(&[2, 6, 6, 6, 70, 12]),
        None => s.weighted(&[40, 20, 8, 8, 8, 12]),
    };
    let mut t: Vec<char> = Vec::new();
    match shape {
        _ if n == 0 => {}
        0 => {
            let want = match s.weighted(&[20, 50, 20, 6, 2]) {
                0 => 1,
                1 => s.range(2, 5),
                2 => s.range(4, 14),
                3 => s.range(10, 40),
                _ => s.range(40, 200),
            };
            if s.chance(1, 3) {
                // Walk with random gaps.
                let gap = s.range(1, 30);
                let mut j = s.below(n);
                while j < n && t.len() < want {
                    t.push(cand[j]);
                    j += if s.chance(1, 2) { 1 } else { 1 + s.below(gap) };
                }
            } else {
                let mut idx: Vec<usize> = (0..want.min(n)).map(|_| s.below(n)).collect();
                idx.sort();
                idx.dedup();
                t = idx.into_iter().map(|i| cand[i]).collect();
            }
        }
        1 => {
            let a = s.below(n);
            let l = s.range(1, 6).min(n - a);
            t = cand[a..a + l].to_vec();
        }
        2 | 3 | 4 => {
            let (a, b) = if s.chance(4, 5) { trimmed(cand) } else { (0, n) };
            if a < b {
                let l = s.range(1, 6).min(b - a);
                let l = if s.chance(1, 6) { s.range(1, b - a) } else { l };
                t = match shape {
                    2 => cand[a..a + l].to_vec(),
                    3 => cand[b - l..b].to_vec(),
                    _ => cand[a..b].to_vec(),
                };
                // Sometimes ask for some of the surrounding spaces.
                if shape != 3 && a > 0 && s.chance(1, 3) {
                    let k = s.range(1, a);
                    let mut v = vec![' '; k];
                    v.extend(t);
                    t = v;
                }
                if shape != 2 && b < n && s.chance(1, 3) {
                    t.extend(std::iter::repeat(' ').take(s.range(1, n - b)));
                }
            } else {
                t = vec![' '; s.range(1, n)];
            }
        }
        _ => {
            let a = alphabet(s);
            for _ in 0..s.range(1, 5) {
                t.push(*s.pick(&a));
            }
        }
    }
    if t.is_empty() {
        let a = alphabet(s);
        for _ in 0..s.range(1, 4) {
            t.push(*s.pick(&a));
        }
    }
    // Mutations.
    if s.chance(1, 4) {
        for c in t.iter_mut() {
            if s.chance(1, 2) {
                *c = flip_case(*c);
            }
        }
    }
    if s.chance(1, 4) {
        t = t.iter().map(|&c| flip_lower(c)).collect();
    }
    if s.chance(1, 4) {
        for c in t.iter_mut() {
            *c = normtable::base(*c);
        }
    }
    if s.chance(1, 12) {
        let i = s.below(t.len());
        let a = alphabet(s);
        t[i] = *s.pick(&a);
    }
    if s.chance(1, 20) {
        let i = s.below(t.len() + 1);
        let a = alphabet(s);
        t.insert(i, *s.pick(&a));
    }
    t
}

fn flip_lower(c: char) -> char {
    if c.is_uppercase() {
        flip_case(c)
    } else {
        c
    }
}

pub fn cfg(s: &mut Src) -> Cfg {
    Cfg { case: *s.pick(&CASES), norm: s.chance(1, 2), scheme: *s.pick(&SCHEMES) }
}

// --------------------------------------------------------------- queries

/// Whether `text` as a term of this form can be written in the syntax (the
/// word is not the last of the query, so it must not end with a backslash).
pub fn printable(neg: bool, kind: Kind, text: &[char]) -> bool {
    if text.is_empty() || *text.last().unwrap() == '\\' {
        return false;
    }
    let first_op = |ops: &[char]| ops.contains(&text[0]);
    let dollar = *text.last().unwrap() == '$';
    match (neg, kind) {
        (false, Kind::Fuzzy) => {
            !first_op(&['!', '\'', '^']) && !(dollar && text.len() > 1) && text != ['|']
        }
        (true, Kind::Exact) => !first_op(&['\'', '^']) && !(dollar && text.len() > 1),
        (false, Kind::Exact) | (true, Kind::Fuzzy) => !dollar,
        (_, Kind::Prefix) => !dollar,
        (false, Kind::Suffix) => !first_op(&['!', '\'', '^']),
        (true, Kind::Suffix) => !first_op(&['\'', '^']),
        (_, Kind::Equal) => true,
    }
}

pub fn print_term(neg: bool, kind: Kind, text: &[char]) -> String {
    let mut w = String::new();
    if neg {
        w.push('!');
    }
    match (neg, kind) {
        (false, Kind::Exact) | (true, Kind::Fuzzy) => w.push('\''),
        (_, Kind::Prefix) | (_, Kind::Equal) => w.push('^'),
        _ => {}
    }
    for &c in text {
        if c == ' ' {
            w.push('\\');
        }
        w.push(c);
    }
    if matches!(kind, Kind::Suffix | Kind::Equal) {
        w.push('$');
    }
    w
}

pub const KINDS: [Kind; 5] = [Kind::Fuzzy, Kind::Exact, Kind::Prefix, Kind::Suffix, Kind::Equal];

/// (neg, kind, text) that can be printed.
pub fn term(s: &mut Src, cand: &[char]) -> (bool, Kind, Vec<char>) {
    let neg = s.chance(1, 6);
    let kind = KINDS[s.weighted(&[40, 25, 14, 14, 7])];
    let mut text = if neg && s.chance(2, 3) {
        let a = alphabet(s);
        (0..s.range(1, 4)).map(|_| *s.pick(&a)).collect()
    } else {
        text_from(s, cand, Some(kind))
    };
    if !printable(neg, kind, &text) {
        text.retain(|c| !"!'^$|\\".contains(*c));
        if text.is_empty() {
            text.push('a');
        }
    }
    (neg, kind, text)
}

/// A term the candidate most likely satisfies in whatever configuration.
pub fn sure_term(s: &mut Src, cand: &[char]) -> (bool, Kind, Vec<char>) {
    if !cand.is_empty() && s.chance(5, 6) {
        let kind = KINDS[s.weighted(&[50, 35, 6, 6, 0])];
        let n = s.range(1, 4).min(cand.len());
        let at = match kind {
            Kind::Prefix => 0,
            Kind::Suffix => cand.len() - n,
            _ => s.below(cand.len() - n + 1),
        };
        let text = cand[at..at + n].to_vec();
        if printable(false, kind, &text) {
            return (false, kind, text);
        }
    }
    (true, KINDS[s.below(KINDS.len())], vec!['q'; s.range(1, 3)])
}

/// A group that fails until its last alternative, if at all.
pub fn late_group(s: &mut Src, cand: &[char], alts: usize) -> Vec<GenTerm> {
    let mut g: Vec<GenTerm> = (1..alts)
        .map(|_| match s.below(5) {
            0 => (false, KINDS[s.below(KINDS.len())], vec!['q']),
            1 if !cand.is_empty() => (false, Kind::Exact, vec!['q', cand[s.below(cand.len())], 'q']),
            2 => term(s, cand),
            _ => {
                let (neg, kind, text) = sure_term(s, cand);
                if printable(!neg, kind, &text) {
                    (!neg, kind, text)
                } else {
                    (false, Kind::Exact, vec!['q'])
                }
            }
        })
        .collect();
    g.push(if s.chance(14, 15) { sure_term(s, cand) } else { term(s, cand) });
    g
}

/// Groups by the dozen, most of them satisfied.
pub fn many_groups(s: &mut Src, cand: &[char]) -> Vec<Vec<GenTerm>> {
    let few = s.chance(1, 4);
    let most = *s.pick(&[12, 20, 40, 80]);
    let n = if few { s.range(1, 3) } else { s.range(5, most) };
    let most = *s.pick(&[8, 20, 40]);
    let sure = s.chance(2, 3);
    (0..n)
        .map(|_| {
            let alts = if few {
                s.range(3, most)
            } else if s.chance(1, 8) {
                s.range(2, 5)
            } else {
                1
            };
            if alts > 1 {
                late_group(s, cand, alts)
            } else if sure || s.chance(14, 15) {
                vec![sure_term(s, cand)]
            } else {
                vec![term(s, cand)]
            }
        })
        .collect()
}

pub fn ext_query(s: &mut Src, cand: &[char], max_groups: usize) -> String {
    if s.chance(1, 14) {
        // Raw soup.
        let mut q = String::new();
        for _ in 0..s.range(0, 14) {
            if !cand.is_empty() && s.chance(1, 2) {
                q.push(*s.pick(cand));
            } else {
                q.push(*s.pick(&['!', '^', '$', '\'', '|', '\\', ' ', ' ', 'a', 'b', 'é']));
            }
        }
        return q;
    }
    if max_groups > 40 && s.chance(1, 25) {
        return many_groups(s, cand)
            .iter()
            .map(|g| g.iter().map(|(n, k, t)| print_term(*n, *k, t)).collect::<Vec<_>>().join(" | "))
            .collect::<Vec<_>>()
            .join(" ");
    }
    let groups = match s.weighted(&[40, 25, 20, 10, 3]) {
        0 => 1,
        1 => 2,
        2 => s.range(2, 4),
        3 => s.range(3, 7),
        _ => s.range(1, max_groups.max(2)),
    }
    .min(max_groups.max(1));
    let mut q = String::new();
    let gap = |s: &mut Src, q: &mut String, min: usize| {
        let n = if s.chance(1, 6) { s.range(min, 4) } else { min };
        for _ in 0..n {
            q.push(' ');
        }
    };
    gap(s, &mut q, 0);
    for g in 0..groups {
        if g > 0 {
            gap(s, &mut q, 1);
        }
        let alts = match s.weighted(&[75, 18, 7]) {
            0 => 1,
            1 => 2,
            _ => s.range(2, 5),
        };
        for a in 0..alts {
            if a > 0 {
                gap(s, &mut q, 1);
                q.push('|');
                gap(s, &mut q, 1);
            }
            if s.chance(1, 40) {
                q.push_str(s.pick(&["'", "^", "!", "|", "!'", "!^", "'$", "^$"]));
                gap(s, &mut q, 1);
            }
            let (neg, kind, text) = term(s, cand);
            q.push_str(&print_term(neg, kind, &text));
        }
    }
    if s.chance(1, 20) {
        q.push_str(" |");
    }
    gap(s, &mut q, 0);
    q
}

/// Any query against any candidate.
pub fn qc(s: &mut Src) -> Qc {
    let cand = candidate(s);
    let cc: Vec<char> = cand.chars().collect();
    let cfg = cfg(s);
    let plain = s.chance(1, 5);
    let query = if plain {
        if s.chance(1, 12) {
            String::new()
        } else {
            text_from(s, &cc, None).into_iter().collect()
        }
    } else {
        ext_query(s, &cc, 90)
    };
    Qc { query, plain, cand, cfg }
}

/// A single fuzzy term against a candidate dense in partial matches.
pub fn qc_fuzzy(s: &mut Src) -> Qc {
    let cand = candidate(s);
    let cc: Vec<char> = cand.chars().collect();
    let cfg = cfg(s);
    let text = text_from(s, &cc, Some(Kind::Fuzzy));
    let plain = !printable(false, Kind::Fuzzy, &text) || s.chance(1, 2);
    let query =
        if plain { text.into_iter().collect() } else { print_term(false, Kind::Fuzzy, &text) };
    Qc { query, plain, cand, cfg }
}

/// A single contiguous term.
pub fn qc_contiguous(s: &mut Src) -> Qc {
    let cand = candidate(s);
    let cc: Vec<char> = cand.chars().collect();
    let cfg = cfg(s);
    let kind = KINDS[1 + s.weighted(&[50, 18, 18, 14])];
    let mut text = text_from(s, &cc, Some(kind));
    if !printable(false, kind, &text) {
        text.retain(|c| !"!'^$|\\".contains(*c));
        if text.is_empty() {
            text.push('a');
        }
    }
    Qc { query: print_term(false, kind, &text), plain: false, cand, cfg }
}

// ------------------------------------------------------------ huge inputs

pub type GenTerm = (bool, Kind, Vec<char>);

fn huge_len(s: &mut Src) -> usize {
    let base = *s.pick(&[256usize, 1024, 4096, 32_768, 65_536, 65_536, 70_000, 100_000]);
    base - 3 + s.below(7)
}

/// A text made of long runs, and a candidate with the runs a little apart:
/// counters of consecutive characters pass 6, 7, 8 bits and more, and what
/// follows a gap begins anew.
pub fn runs(s: &mut Src, large: bool) -> (Vec<char>, Vec<char>) {
    let letters = *s.pick(&[&['a'][..], &['a', 'b'], &['a', 'b', 'c', 'A', 'é', '2'], &['я', 'a', '日']]);
    let filler = *s.pick(&['-', 'x', '/', '日', 'X', '1', '_', ' ', ',']);
    let (mut text, mut cand) = (Vec::new(), Vec::new());
    for i in 0..s.range(2, if large { 5 } else { 3 }) {
        if i > 0 {
            let n = if s.chance(1, 6) { s.range(4, 60) } else { s.range(1, 3) };
            cand.extend(std::iter::repeat(filler).take(n));
        }
        let n = match s.weighted(&[5, 3, 2, if large { 6 } else { 0 }]) {
            0 => s.range(1, 4),
            1 => *s.pick(&[16, 32, 64, 128]) - 2 + s.below(5),
            2 => s.range(5, 140),
            _ => *s.pick(&[256, 256, 512, 1024]) - 3 + s.below(8),
        };
        for _ in 0..n {
            let c = *s.pick(letters);
            text.push(c);
            cand.push(if s.chance(1, 40) { flip_case(c) } else { c });
        }
    }
    if s.chance(1, 3) {
        cand.insert(0, filler);
    }
    if s.chance(1, 3) {
        // More than one way to align it.
        cand.push(filler);
        let n = text.len().min(s.range(1, 70));
        cand.extend(&text[..n]);
    }
    (text, cand)
}

/// Terms (an AND of ORs) and a candidate far beyond ordinary sizes: past every
/// width a position, a gap, a count or a score could be stored in.
pub fn huge_groups(s: &mut Src) -> (Vec<Vec<GenTerm>>, Vec<char>) {
    let filler = *s.pick(&['-', 'x', '/', 'é', '日', 'X', '1', '_', ' ', ',']);
    let word = |s: &mut Src, n: usize| -> Vec<char> {
        (0..n).map(|_| *s.pick(&['a', 'b', 'c', 'A', 'é', '2'])).collect()
    };
    let mut cand: Vec<char> = Vec::new();
    let mut groups: Vec<Vec<GenTerm>> = Vec::new();
    match s.below(8) {
        7 => {
            let (text, c) = runs(s, true);
            cand = c;
            groups.push(vec![(false, Kind::Fuzzy, text)]);
        }
        0 => {
            // The match begins (or ends) far into the candidate.
            let n = s.range(1, 4);
            let w = word(s, n);
            let kind = *s.pick(&KINDS);
            let fill = if matches!(kind, Kind::Prefix | Kind::Equal) { ' ' } else { filler };
            if s.chance(1, 3) {
                cand.extend(word(s, 2));
            }
            cand.extend(std::iter::repeat(fill).take(huge_len(s)));
            if s.chance(1, 3) {
                // A first chance to go wrong.
                cand.push(w[0]);
                cand.push(fill);
            }
            cand.extend(&w);
            if s.chance(1, 2) {
                let tail = if matches!(kind, Kind::Suffix | Kind::Equal) { ' ' } else { filler };
                let n = if s.chance(1, 2) { s.range(1, 3) } else { huge_len(s) };
                cand.extend(std::iter::repeat(tail).take(n));
            }
            let neg = s.chance(1, 8);
            groups.push(vec![(neg, kind, w)]);
        }
        1 => {
            // Gaps wider than the score can pay for.
            let n = s.range(2, 3);
            let w = word(s, n);
            for (i, &c) in w.iter().enumerate() {
                if i > 0 && (i == 1 || s.chance(1, 2)) {
                    cand.extend(std::iter::repeat(filler).take(huge_len(s)));
                }
                cand.push(c);
            }
            if s.chance(1, 3) {
                cand.push(filler);
                cand.extend(&w);
            }
            groups.push(vec![(false, Kind::Fuzzy, w)]);
        }
        2 => {
            // Scores beyond 15 and 16 bits.
            let sep = s.chance(1, 3);
            let n = if sep { s.range(1000, 1600) } else { s.range(1100, 2650) };
            let w = word(s, n);
            if s.chance(1, 3) {
                cand.push(filler);
            }
            for &c in &w {
                if sep && s.chance(4, 5) {
                    cand.push(*s.pick(&[' ', '/', '_']));
                }
                cand.push(c);
            }
            let kind = if sep { Kind::Fuzzy } else { KINDS[s.weighted(&[4, 2, 1, 1, 1])] };
            groups.push(vec![(false, kind, w)]);
        }
        3 if s.chance(1, 3) => {
            // Hundreds of alternatives, only the last of which is satisfied.
            let n = s.range(3, 60);
            cand = word(s, n);
            for _ in 0..s.range(1, 3) {
                let mut g: Vec<GenTerm> = (0..*s.pick(&[15, 16, 31, 63, 127, 255, 256, 400]) + s.below(4))
                    .map(|_| match s.below(3) {
                        0 => (false, KINDS[s.below(KINDS.len())], vec!['q']),
                        1 => (false, Kind::Exact, vec![cand[s.below(n)], 'q']),
                        _ => (true, Kind::Exact, vec![cand[s.below(n)]]),
                    })
                    .collect();
                if s.chance(3, 4) {
                    let a = s.below(n - 2);
                    g.push((false, KINDS[s.below(2)], cand[a..a + s.range(1, 3)].to_vec()));
                }
                groups.push(g);
            }
        }
        3 => {
            // Hundreds of terms.
            let n = s.range(150, 600);
            cand = word(s, n);
            let count = if s.chance(1, 2) { s.range(60, 520) } else { *s.pick(&[63, 127, 255]) + s.range(0, 3) };
            for _ in 0..count {
                let mut g = Vec::new();
                for k in 0..if s.chance(1, 20) { s.range(2, 20) } else { 1 } {
                    let (neg, kind, text) = if s.chance(1, 12) || (k > 0 && s.chance(1, 2)) {
                        (s.chance(1, 2), Kind::Exact, vec!['q', 'q'])
                    } else {
                        let a = s.below(cand.len());
                        let l = s.range(1, 3).min(cand.len() - a);
                        let kind = if s.chance(1, 2) { Kind::Fuzzy } else { Kind::Exact };
                        (false, kind, cand[a..a + l].to_vec())
                    };
                    g.push((neg, kind, text));
                }
                if s.chance(9, 10) {
                    // Always satisfied in the end.
                    g.push((false, Kind::Fuzzy, vec![cand[0]]));
                }
                groups.push(g);
            }
        }
        4 => {
            // One run of a letter, as long as a text can get.
            let n = *s.pick(&[255, 256, 257, 1023, 4096, 32_768, 65_535, 65_536, 65_537, 70_000]);
            let c = *s.pick(&['a', 'A', 'é']);
            cand.extend(std::iter::repeat(c).take(n + s.below(3)));
            if s.chance(1, 2) {
                cand.insert(0, ' ');
            }
            let kind = KINDS[1 + s.below(4)];
            let mut text = vec![c; n];
            if kind == Kind::Exact && n > 5000 {
                // Attempts at every place would take quadratic time.
                text[0] = 'b';
                let at = (cand[0] == ' ') as usize;
                cand[at] = 'b';
            }
            groups.push(vec![(false, kind, text)]);
        }
        5 => {
            // Dense partial matches.
            let a = [&['a', 'b'][..], &['a', 'b', '_', 'A'], &['a', 'é', ' ', 'b', '/']][s.below(3)];
            let n = s.range(15_000, 70_000);
            cand = (0..n).map(|_| *s.pick(a)).collect();
            let m = if s.chance(1, 6) { s.range(90, 300) } else { s.range(2, 90) };
            let w: Vec<char> = (0..m).map(|_| *s.pick(&['a', 'b'])).collect();
            groups.push(vec![(false, Kind::Fuzzy, w)]);
        }
        _ => {
            // Two terms, far apart, in either order, with an earlier near miss.
            let (x, y) = (word(s, 3), word(s, 2));
            cand.extend(&x[..2]);
            cand.extend(std::iter::repeat(filler).take(huge_len(s)));
            cand.extend(&x);
            cand.extend(std::iter::repeat(filler).take(huge_len(s)));
            cand.extend(&y);
            let k = |s: &mut Src| KINDS[s.below(2)];
            groups.push(vec![(false, k(s), y)]);
            groups.push(vec![(false, Kind::Exact, vec!['q']), (false, k(s), x)]);
        }
    }
    if s.chance(1, 5) {
        // A difference in case at the very end.
        if let Some(c) = cand.last_mut() {
            *c = flip_case(*c);
        }
    }
    if s.chance(1, 8) {
        if let Some((_, _, t)) = groups.last_mut().and_then(|g| g.last_mut()) {
            let c = t.last_mut().unwrap();
            *c = flip_case(*c);
        }
    }
    if s.chance(1, 6) {
        cand.push('🦀');
    }
    for g in &mut groups {
        g.retain(|(n, k, t)| printable(*n, *k, t));
    }
    groups.retain(|g| !g.is_empty());
    (groups, cand)
}

pub fn huge(s: &mut Src) -> Qc {
    let (groups, cand) = huge_groups(s);
    let single = groups.len() == 1 && groups[0].len() == 1 && groups[0][0].1 == Kind::Fuzzy && !groups[0][0].0;
    let plain = single && s.chance(1, 2);
    let query = if plain {
        groups[0][0].2.iter().collect()
    } else {
        groups
            .iter()
            .map(|g| g.iter().map(|(n, k, t)| print_term(*n, *k, t)).collect::<Vec<_>>().join(" | "))
            .collect::<Vec<_>>()
            .join(" ")
    };
    Qc { query, plain, cand: cand.into_iter().collect(), cfg: cfg(s) }
}

/// A huge case of one fuzzy term.
pub fn huge_fuzzy(s: &mut Src) -> Qc {
    for _ in 0..20 {
        let q = huge(s);
        if q.plain || matches!(&q.expr().groups[..], [g] if g.len() == 1 && g[0].kind == Kind::Fuzzy && !g[0].neg) {
            return q;
        }
    }
    qc_fuzzy(s)
}
