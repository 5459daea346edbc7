//! Coverage-guided search (libFuzzer): the input bytes are the choices of the
//! generator of property VH_FUZZ_ID. A case that violates the property ends
//! the process; libFuzzer keeps the bytes, and `vh` judges them again.
#![no_main]

use libfuzzer_sys::fuzz_target;
use norm_verif::driver::{self, Prop, Verdict};
use norm_verif::gen::Src;
use norm_verif::props;
use std::sync::OnceLock;

static ID: OnceLock<String> = OnceLock::new();

struct One<'a>(&'a [u8]);

impl props::Visit for One<'_> {
    type Out = ();
    fn visit<P: Prop>(self, p: &P) {
        let case = p.gen(&mut Src::bytes(self.0));
        if let Verdict::Violated(m) = driver::judge(p, &case) {
            eprintln!("violated: {m}");
            std::process::abort();
        }
    }
}

fuzz_target!(
    init: {
        driver::install_hook();
        ID.set(std::env::var("VH_FUZZ_ID").expect("VH_FUZZ_ID")).unwrap();
    },
    |data: &[u8]| {
        props::with(ID.get().unwrap(), One(data)).expect("known property");
    }
);
