//! A deliberately naive reference model of the behaviour norm documents.
//!
//! It works on `Vec<char>` only, has no fast paths, no reused memory and no
//! windowing: whole matrices, whole strings, declarative definitions where
//! there is one. It shares no code with /repo.

use crate::case::{Case as CaseMode, Cfg, Scheme};
use crate::normtable;

// ---------------------------------------------------------------- syntax

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    Fuzzy,
    Exact,
    Prefix,
    Suffix,
    Equal,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Term {
    pub neg: bool,
    pub kind: Kind,
    pub text: Vec<char>,
    /// The word of the query this term was read from, escapes included.
    pub raw: String,
}

/// AND of ORs.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Expr {
    pub groups: Vec<Vec<Term>>,
}

/// Splits a query into words: (text with escapes resolved, raw text).
pub fn words(query: &str) -> Vec<(Vec<char>, String)> {
    let mut out = Vec::new();
    let mut cur: Vec<char> = Vec::new();
    let mut raw = String::new();
    // Whether the previous *raw* character of the current word is a backslash.
    let mut after_backslash = false;
    for c in query.chars() {
        if c == ' ' {
            if after_backslash {
                // `\ ` stands for a space that is part of the word.
                *cur.last_mut().unwrap() = ' ';
                raw.push(' ');
                after_backslash = false;
            } else if !raw.is_empty() {
                out.push((std::mem::take(&mut cur), std::mem::take(&mut raw)));
            }
        } else {
            cur.push(c);
            raw.push(c);
            after_backslash = c == '\\';
        }
    }
    if !raw.is_empty() {
        out.push((cur, raw));
    }
    out
}

/// Reads the operators of one word. `None` if nothing is left to search for.
pub fn term(word: &[char], raw: &str) -> Option<Term> {
    let mut t = word;
    let mut neg = false;
    let mut kind = Kind::Fuzzy;
    if t.first() == Some(&'!') {
        neg = true;
        kind = Kind::Exact;
        t = &t[1..];
    }
    if t.len() > 1 && t.last() == Some(&'$') {
        kind = Kind::Suffix;
        t = &t[..t.len() - 1];
    }
    match t.first() {
        Some('\'') => {
            kind = if neg { Kind::Fuzzy } else { Kind::Exact };
            t = &t[1..];
        }
        Some('^') => {
            kind = if kind == Kind::Suffix { Kind::Equal } else { Kind::Prefix };
            t = &t[1..];
        }
        _ => {}
    }
    if t.is_empty() {
        return None;
    }
    Some(Term { neg, kind, text: t.to_vec(), raw: raw.to_string() })
}

pub fn parse(query: &str) -> Expr {
    let mut groups: Vec<Vec<Term>> = Vec::new();
    // Whether the last thing read was a term (so that a following term starts
    // a new AND-ed group unless a `|` comes in between).
    let mut after_term = false;
    for (text, raw) in words(query) {
        if text == ['|'] {
            after_term = false;
            continue;
        }
        let Some(t) = term(&text, &raw) else { continue };
        if after_term || groups.is_empty() {
            groups.push(vec![t]);
        } else {
            groups.last_mut().unwrap().push(t);
        }
        after_term = true;
    }
    Expr { groups }
}

/// `parse_not_extended`.
pub fn parse_plain(query: &str) -> Expr {
    let text: Vec<char> = query.chars().collect();
    if text.is_empty() {
        return Expr::default();
    }
    Expr { groups: vec![vec![Term { neg: false, kind: Kind::Fuzzy, text, raw: String::new() }]] }
}

// ------------------------------------------------------------ characters

pub fn sensitive(cfg: Cfg, text: &[char]) -> bool {
    match cfg.case {
        CaseMode::Sensitive => true,
        CaseMode::Insensitive => false,
        CaseMode::Smart => text.iter().any(|c| c.is_uppercase()),
    }
}

/// Equality of two characters under a case mode. ASCII letters only ever fold
/// to ASCII letters.
pub fn case_eq(sens: bool, q: char, c: char) -> bool {
    if q == c {
        return true;
    }
    if sens || q.is_ascii() != c.is_ascii() {
        return false;
    }
    if q.is_ascii() {
        q.to_ascii_lowercase() == c.to_ascii_lowercase()
    } else {
        q.to_lowercase().eq(c.to_lowercase())
    }
}

/// The lowercase of a character when it is a single character.
pub fn lower(c: char) -> char {
    let mut it = c.to_lowercase();
    match (it.next(), it.next()) {
        (Some(l), None) => l,
        _ => c,
    }
}

/// Whether query character `q` matches candidate character `c`.
pub fn ch_eq(cfg: Cfg, sens: bool, q: char, c: char) -> bool {
    if case_eq(sens, q, c) {
        return true;
    }
    // Normalization only ever yields ASCII letters.
    cfg.norm
        && (case_eq(sens, q, normtable::base(c))
            || (!sens && case_eq(sens, q, normtable::base(lower(c)))))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Class {
    White,
    NonWord,
    Delim,
    Lower,
    Upper,
    Letter,
    Number,
}

pub fn class(s: Scheme, c: char) -> Class {
    let delim = match s {
        Scheme::Default | Scheme::History => "/,:;|".contains(c),
        Scheme::Path => c == '/',
    };
    if c.is_lowercase() && (!c.is_ascii() || c.is_ascii_lowercase()) {
        Class::Lower
    } else if c.is_uppercase() {
        Class::Upper
    } else if c.is_numeric() {
        Class::Number
    } else if c.is_alphabetic() {
        Class::Letter
    } else if c.is_whitespace() {
        Class::White
    } else if delim {
        Class::Delim
    } else {
        Class::NonWord
    }
}

/// (whitespace, delimiter, class assumed before the first character)
pub fn scheme(s: Scheme) -> (i64, i64, Class) {
    match s {
        Scheme::Default => (10, 9, Class::White),
        Scheme::Path => (8, 9, Class::Delim),
        Scheme::History => (8, 8, Class::White),
    }
}

pub fn bonus_classes(s: Scheme, prev: Class, cur: Class) -> i64 {
    let (white, delim, _) = scheme(s);
    match cur {
        Class::NonWord => 8,
        Class::White => white,
        _ => match prev {
            Class::White => white,
            Class::Delim => delim,
            Class::NonWord => 8,
            Class::Lower if cur == Class::Upper => 7,
            p if cur == Class::Number && p != Class::Number => 7,
            _ => 0,
        },
    }
}

pub fn bonuses(s: Scheme, cand: &[char]) -> Vec<i64> {
    let mut prev = scheme(s).2;
    cand.iter()
        .map(|&c| {
            let cur = class(s, c);
            let b = bonus_classes(s, prev, cur);
            prev = cur;
            b
        })
        .collect()
}

// -------------------------------------------------------------- matching

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hit {
    pub score: i64,
    /// Char indices covered, ascending.
    pub pos: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Algo {
    V1,
    V2,
}

struct Ctx<'a> {
    cfg: Cfg,
    sens: bool,
    text: &'a [char],
    cand: &'a [char],
}

impl Ctx<'_> {
    fn eq(&self, i: usize, j: usize) -> bool {
        ch_eq(self.cfg, self.sens, self.text[i], self.cand[j])
    }
    /// Leftmost embedding of the term into cand[from..to].
    fn embed(&self, from: usize, to: usize) -> Option<Vec<usize>> {
        let mut pos = Vec::with_capacity(self.text.len());
        let mut j = from;
        for i in 0..self.text.len() {
            while j < to && !self.eq(i, j) {
                j += 1;
            }
            if j >= to {
                return None;
            }
            pos.push(j);
            j += 1;
        }
        Some(pos)
    }
    fn occurs_at(&self, start: usize) -> bool {
        start + self.text.len() <= self.cand.len()
            && (0..self.text.len()).all(|i| self.eq(i, start + i))
    }
}

/// fzf's score of an alignment given by ascending positions.
pub fn alignment_score(s: Scheme, cand: &[char], pos: &[usize]) -> i64 {
    let b = bonuses(s, cand);
    let mut total = 0;
    let mut run_bonus = 0;
    for (k, &p) in pos.iter().enumerate() {
        let mut bonus = b[p];
        if k > 0 && pos[k - 1] + 1 == p {
            if bonus >= 8 && bonus > run_bonus {
                run_bonus = bonus;
            }
            bonus = bonus.max(run_bonus).max(4);
        } else {
            run_bonus = bonus;
            if k > 0 {
                let gap = (p - pos[k - 1] - 1) as i64;
                total -= 3 + (gap - 1);
            }
        }
        total += 16 + if k == 0 { 2 * bonus } else { bonus };
    }
    total
}

fn v1(c: &Ctx) -> Option<Hit> {
    // The earliest end: one past the last position of the leftmost embedding.
    let end = *c.embed(0, c.cand.len())?.last().unwrap() + 1;
    // The latest start that still completes the term by `end`.
    let start = latest_start(c, end);
    let pos = c.embed(start, end).unwrap();
    Some(Hit { score: alignment_score(c.cfg.scheme, c.cand, &pos), pos })
}

fn latest_start(c: &Ctx, end: usize) -> usize {
    // Rightmost embedding ending before `end`, computed from the right.
    let mut j = end;
    for i in (0..c.text.len()).rev() {
        loop {
            j -= 1;
            if c.eq(i, j) {
                break;
            }
        }
    }
    j
}

/// fzf's FuzzyMatchV2 on whole, unwindowed matrices.
fn v2(c: &Ctx) -> Option<Hit> {
    let (m, n) = (c.text.len(), c.cand.len());
    let b = bonuses(c.cfg.scheme, c.cand);
    if m == 1 {
        let mut best: Option<(i64, usize)> = None;
        for j in 0..n {
            if c.eq(0, j) {
                let sc = 16 + 2 * b[j];
                if best.map_or(true, |(s, _)| sc > s) {
                    best = Some((sc, j));
                }
            }
        }
        return best.map(|(score, j)| Hit { score, pos: vec![j] });
    }
    // first[i]: the earliest column at which the i-th character can match.
    let first = c.embed(0, n)?;
    let last = (0..n).rev().find(|&j| c.eq(m - 1, j)).unwrap();
    let w = last + 1;
    let mut h = vec![vec![0i64; w]; m];
    let mut k = vec![vec![0usize; w]; m];
    let mut best = (0i64, 0usize);
    for i in 0..m {
        let mut in_gap = false;
        for j in first[i]..w {
            let left = if j == first[i] { 0 } else { h[i][j - 1] };
            let s2 = left - if in_gap { 1 } else { 3 };
            let mut s1 = 0;
            let mut run = 0;
            let matched = c.eq(i, j);
            if matched {
                if i == 0 {
                    s1 = 16 + 2 * b[j];
                    run = 1;
                } else {
                    s1 = h[i - 1][j - 1] + 16;
                    let mut bonus = b[j];
                    run = k[i - 1][j - 1] + 1;
                    if run > 1 {
                        let fb = b[j + 1 - run];
                        if bonus >= 8 && bonus > fb {
                            run = 1;
                        } else {
                            bonus = bonus.max(4).max(fb);
                        }
                    }
                    if s1 + bonus < s2 {
                        s1 += b[j];
                        run = 0;
                    } else {
                        s1 += bonus;
                    }
                }
            }
            if i == 0 {
                if matched {
                    h[0][j] = s1;
                    in_gap = false;
                } else {
                    h[0][j] = s2.max(0);
                    in_gap = true;
                }
            } else {
                in_gap = s1 < s2;
                h[i][j] = s1.max(s2).max(0);
            }
            k[i][j] = run;
            if matched && i == m - 1 && h[i][j] > best.0 {
                best = (h[i][j], j);
            }
        }
    }
    // Backtrace.
    let mut pos = Vec::new();
    let (mut i, mut j) = (m - 1, best.1);
    let mut prefer = true;
    loop {
        let s = h[i][j];
        let diag = if i > 0 && j >= first[i] && j > 0 { h[i - 1][j - 1] } else { 0 };
        let left = if j > first[i] { h[i][j - 1] } else { 0 };
        let take = s > diag && (s > left || (s == left && prefer));
        prefer = k[i][j] > 1 || (i + 1 < m && j + 1 < w && k[i + 1][j + 1] > 0);
        if take {
            pos.push(j);
            if i == 0 {
                break;
            }
            i -= 1;
        }
        if j == 0 {
            break;
        }
        j -= 1;
    }
    pos.reverse();
    Some(Hit { score: best.0, pos })
}

fn run(c: &Ctx, start: usize) -> Hit {
    let pos: Vec<usize> = (start..start + c.text.len()).collect();
    Hit { score: alignment_score(c.cfg.scheme, c.cand, &pos), pos }
}

fn exact(c: &Ctx) -> Option<Hit> {
    let b = bonuses(c.cfg.scheme, c.cand);
    let starts: Vec<usize> = (0..c.cand.len()).filter(|&s| c.occurs_at(s)).collect();
    let best = match starts.iter().find(|&&s| b[s] >= 8) {
        Some(&s) => s,
        None => {
            let top = starts.iter().map(|&s| b[s]).max()?;
            *starts.iter().find(|&&s| b[s] == top).unwrap()
        }
    };
    Some(run(c, best))
}

fn spaces<'a>(it: impl Iterator<Item = &'a char>) -> usize {
    it.take_while(|&&c| c == ' ').count()
}

/// Candidate spaces at the start that the term does not itself ask for.
fn skip_leading(c: &Ctx) -> Option<usize> {
    spaces(c.cand.iter()).checked_sub(spaces(c.text.iter()))
}

fn skip_trailing(c: &Ctx) -> Option<usize> {
    spaces(c.cand.iter().rev()).checked_sub(spaces(c.text.iter().rev()))
}

fn prefix(c: &Ctx) -> Option<Hit> {
    let s = skip_leading(c)?;
    c.occurs_at(s).then(|| run(c, s))
}

fn suffix(c: &Ctx) -> Option<Hit> {
    let end = c.cand.len() - skip_trailing(c)?;
    let s = end.checked_sub(c.text.len())?;
    c.occurs_at(s).then(|| run(c, s))
}

fn equal(c: &Ctx) -> Option<Hit> {
    let s = skip_leading(c)?;
    let end = c.cand.len() - skip_trailing(c)?;
    (end > s && end - s == c.text.len() && c.occurs_at(s)).then(|| run(c, s))
}

/// What a term, negation aside, does on a candidate.
pub fn match_positive(algo: Algo, cfg: Cfg, kind: Kind, text: &[char], cand: &[char]) -> Option<Hit> {
    let c = Ctx { cfg, sens: sensitive(cfg, text), text, cand };
    match (kind, algo) {
        (Kind::Fuzzy, Algo::V1) => v1(&c),
        (Kind::Fuzzy, Algo::V2) => v2(&c),
        (Kind::Exact, _) => exact(&c),
        (Kind::Prefix, _) => prefix(&c),
        (Kind::Suffix, _) => suffix(&c),
        (Kind::Equal, _) => equal(&c),
    }
}

/// Acceptance alone, written without any alignment.
pub fn accepts_positive(cfg: Cfg, kind: Kind, text: &[char], cand: &[char]) -> bool {
    let c = Ctx { cfg, sens: sensitive(cfg, text), text, cand };
    match kind {
        Kind::Fuzzy => {
            let mut i = 0;
            for j in 0..cand.len() {
                if i < text.len() && c.eq(i, j) {
                    i += 1;
                }
            }
            i == text.len()
        }
        Kind::Exact => (0..cand.len()).any(|s| c.occurs_at(s)),
        Kind::Prefix => prefix(&c).is_some(),
        Kind::Suffix => suffix(&c).is_some(),
        Kind::Equal => equal(&c).is_some(),
    }
}

pub fn accepts_term(cfg: Cfg, t: &Term, cand: &[char]) -> bool {
    accepts_positive(cfg, t.kind, &t.text, cand) != t.neg
}

pub fn accepts(cfg: Cfg, e: &Expr, cand: &[char]) -> bool {
    e.groups.iter().all(|g| g.iter().any(|t| accepts_term(cfg, t, cand)))
}

pub fn match_term(algo: Algo, cfg: Cfg, t: &Term, cand: &[char]) -> Option<Hit> {
    let hit = match_positive(algo, cfg, t.kind, &t.text, cand);
    match (t.neg, hit) {
        (false, h) => h,
        (true, Some(_)) => None,
        (true, None) => Some(Hit { score: 0, pos: vec![] }),
    }
}

/// The whole thing: total score and union of covered char indices.
pub fn eval(algo: Algo, cfg: Cfg, e: &Expr, cand: &[char]) -> Option<Hit> {
    let mut score = 0;
    let mut covered = vec![false; cand.len()];
    for g in &e.groups {
        let hit = g.iter().find_map(|t| match_term(algo, cfg, t, cand))?;
        score += hit.score;
        for p in hit.pos {
            covered[p] = true;
        }
    }
    let pos = (0..cand.len()).filter(|&i| covered[i]).collect();
    Some(Hit { score, pos })
}

/// Byte ranges of maximal runs of ascending char positions.
pub fn byte_ranges(cand: &[char], pos: &[usize]) -> Vec<std::ops::Range<usize>> {
    let mut offs = Vec::with_capacity(cand.len() + 1);
    let mut o = 0;
    for c in cand {
        offs.push(o);
        o += c.len_utf8();
    }
    offs.push(o);
    let mut out: Vec<std::ops::Range<usize>> = Vec::new();
    for &p in pos {
        let r = offs[p]..offs[p + 1];
        match out.last_mut() {
            Some(l) if l.end == r.start => l.end = r.end,
            _ => out.push(r),
        }
    }
    out
}
