use norm_verif::driver::{self, Limits, Prop, Tier};
use norm_verif::props;
use std::path::Path;
use std::time::Duration;

fn limits() -> Limits {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs = std::env::var("VH_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 300,
        Tier::Thorough => 3600,
    });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    Limits { tier, seed, deadline: Duration::from_secs(secs), threads }
}

struct Cmd<'a>(&'a str, Option<&'a Path>);

impl props::Visit for Cmd<'_> {
    type Out = i32;
    fn visit<P: Prop>(self, p: &P) -> i32 {
        let lim = limits();
        match self.0 {
            "check" => driver::check(p, &lim),
            "child" => {
                let j = std::env::var_os("VH_JOURNAL");
                driver::run(p, &lim, j.as_ref().map(Path::new))
            }
            _ => driver::replay(p, self.1.unwrap()),
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1..).unwrap_or(&[]) {
        ["check", id] => props::with(id, Cmd("check", None)),
        ["child", id] => props::with(id, Cmd("child", None)),
        ["replay-one", id, f] => props::with(id, Cmd("replay", Some(Path::new(f)))),
        ["replay", f] => {
            let s = std::fs::read_to_string(f).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay file");
            let id = v["property"].as_str().expect("replay file names its property").to_string();
            Some(driver::replay_supervised(&id, Path::new(f)))
        }
        ["miri", f] => Some(props::memory::miri_main(f)),
        ["calls"] => Some(props::threads::calls_main()),
        ["list"] => {
            println!("{}", props::IDS.join("\n"));
            Some(0)
        }
        _ => {
            eprintln!("usage: vh check ID | vh replay FILE | vh list");
            Some(2)
        }
    };
    std::process::exit(code.unwrap_or_else(|| {
        eprintln!("unknown property");
        2
    }));
}
