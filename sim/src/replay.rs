//! Replay files: property, tapes (or a seed sequence), expected outcome.
use crate::exec::{Outcome, child, tapes_text};
use rt::Tapes;

pub struct Replay {
    pub prop: String,
    pub seed: String,
    pub tapes: Option<Tapes>,
    pub seeds: Vec<u64>,
    /// run without the fixed warm-up runs
    pub cold: bool,
    pub o: Outcome,
}

impl Replay {
    pub fn text(&self) -> String {
        let mut t = String::from("cgar-sim replay 1\n");
        t.push_str(&format!("property {}\nfound-by {}\nclass {}\ndetail {}\ndigest {}\n", self.prop, self.seed, self.o.class, self.o.detail, self.o.digest));
        if self.cold {
            t.push_str("warm 0\n");
        }
        match &self.tapes {
            Some(x) => t.push_str(&tapes_text(x)),
            None => t.push_str(&format!("seeds {}\n", self.seeds.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" "))),
        }
        t.push_str("# trace of the minimised run\n");
        for l in &self.o.trace {
            t.push_str(&format!("# {l}\n"));
        }
        t
    }
}

/// Exit 1 if the recorded violation happens again exactly, 0 if the run is
/// clean, 2 if something else happens.
pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (prop, class, digest) = (get("property "), get("class "), get("digest "));
    let seeds = get("seeds ");
    if get("warm ") == "0" {
        unsafe { std::env::set_var("CGAR_SIM_WARM", "0") };
    }
    let mut args = vec![prop.clone()];
    if seeds.is_empty() {
        args.push(file.to_string());
    } else {
        args.push("-".into());
        args.extend(seeds.split_whitespace().map(|s| s.to_string()));
    }
    args.push("trace".into());
    let o = child(&args);
    for t in &o.trace {
        println!("# {t}");
    }
    if o.class.is_empty() {
        println!("run is clean (digest {}): the recorded violation does not occur on this tree", o.digest);
        return 0;
    }
    println!("{}: {} (digest {})", o.class, o.detail, o.digest);
    if o.class == class && o.digest == digest {
        println!("reproduced exactly");
        println!("VIOLATION property={prop} replay={file}");
        1
    } else {
        println!("differs from the recorded run: class {class} digest {digest}");
        2
    }
}
