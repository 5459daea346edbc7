//! One module per property (or family of closely related properties).

use crate::driver::Prop;

pub mod ascii;
pub mod basic;
pub mod builds;
pub mod case_mode;
pub mod compose;
pub mod cost;
pub mod heap;
pub mod history;
pub mod locality;
pub mod memory;
pub mod monotone;
pub mod order;
pub mod scoring;
pub mod single;
pub mod table;
pub mod threads;

pub trait Visit {
    type Out;
    fn visit<P: Prop>(self, p: &P) -> Self::Out;
}

macro_rules! registry {
    ($($id:literal => $p:expr),* $(,)?) => {
        pub const IDS: &[&str] = &[$($id),*];
        pub fn with<V: Visit>(id: &str, v: V) -> Option<V::Out> {
            match id {
                $($id => Some(v.visit(&$p)),)*
                _ => None,
            }
        }
    };
}

registry! {
    "C01" => basic::Total,
    "C02" => basic::Accept,
    "C03" => basic::Buffer,
    "C04" => basic::WellFormed,
    "C05" => basic::Witness,
    "C06" => basic::Agree,
    "C07" => history::MetricHistory,
    "C08" => history::ParserHistory,
    "C09" => scoring::V1Score,
    "C10" => scoring::V2Score,
    "C11" => scoring::Contiguous,
    "C12" => compose::Compose,
    "C13" => compose::Syntax,
    "C14" => case_mode::CaseModes,
    "C15" => table::Normalize,
    "C16" => ascii::Representations,
    "C17" => table::Bonuses,
    "C18" => order::Order,
    "C19" => memory::Memory,
    "C20" => builds::Builds,
    "C21" => cost::Cost,
    "C22" => threads::Threads,
    "C23" => heap::Heap,
    "C24" => locality::Locality,
    "C25" => single::Single,
    "C26" => monotone::Monotone,
}

/// All strings over an alphabet with a length in a range.
pub fn all_strings(alpha: &[char], min: usize, max: usize) -> Vec<String> {
    let mut out = Vec::new();
    let mut layer = vec![String::new()];
    for len in 0..=max {
        if len >= min {
            out.extend(layer.iter().cloned());
        }
        if len == max {
            break;
        }
        layer = layer
            .iter()
            .flat_map(|s| {
                alpha.iter().map(move |&c| {
                    let mut t = s.clone();
                    t.push(c);
                    t
                })
            })
            .collect();
    }
    out
}

/// Every `parts`-th element, starting at `part`.
pub fn part_of<T>(v: impl IntoIterator<Item = T>, part: usize, parts: usize) -> Vec<T> {
    v.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, x)| x).collect()
}
