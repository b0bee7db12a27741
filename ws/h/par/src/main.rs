//! The same work under several schedules and builds.
//!
//! With threads: every case is worked in pools of several sizes, and by a
//! program built without threads, and everything that came out is compared.
//! Without: prints what came out.

mod work;

use sha2::Digest;
use vh::{main_with, sc, Case, Property};

/// What came out, by name.
#[derive(Default)]
pub struct Out(pub Vec<(String, String)>);

impl Out {
    pub fn put(&mut self, name: impl Into<String>, bytes: &[u8]) {
        let h = sha2::Sha256::digest(bytes);
        self.0.push((name.into(), h[..12].iter().map(|b| format!("{b:02x}")).collect()));
    }
}

#[cfg(feature = "parallel")]
fn run(c: &mut Case, scenario: &str, f: fn(&mut Case, &mut Out)) {
    use std::process::Command;
    let rng = c.rng.clone();
    let mut all: Vec<(String, Out)> = vec![];
    for n in [1usize, 2, 3, 8] {
        c.rng = rng.clone();
        let mut o = Out::default();
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("threads");
        pool.install(|| f(c, &mut o));
        all.push((format!("{n} threads"), o));
    }
    // the program without threads
    let seq = std::env::var("VH_SEQ").unwrap_or_else(|_| {
        eprintln!("VH_SEQ does not name the sequential program");
        std::process::exit(2)
    });
    let r = Command::new(&seq).args(["X01", "--replay", scenario, &c.idx.to_string()]).output();
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot run {seq}: {e}");
            std::process::exit(2)
        },
    };
    let text = String::from_utf8_lossy(&r.stdout).to_string();
    match r.status.code() {
        Some(0) => {},
        Some(1) => {
            c.fail("sequential_failed", text.lines().take(4).collect::<Vec<_>>().join(" "));
            return;
        },
        _ => {
            eprintln!("{seq} ended with {}: {}", r.status, String::from_utf8_lossy(&r.stderr));
            std::process::exit(2)
        },
    }
    let o = text
        .lines()
        .filter_map(|l| l.strip_prefix("OUT "))
        .filter_map(|l| l.rsplit_once(' '))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
    all.push(("no threads".into(), Out(o)));
    let (who, first) = &all[0];
    c.ev_n("results", first.0.len() as u64);
    c.ev_n("runs compared", all.len() as u64 - 1);
    c.check(!first.0.is_empty(), "nothing", || "no results".into());
    for (name, o) in &all[1..] {
        c.check(o.0.len() == first.0.len(), "results_differ", || format!("{} with {name}, {} with {who}", o.0.len(), first.0.len()));
        for (a, b) in first.0.iter().zip(&o.0) {
            c.check(a == b, "results_differ", || format!("{} is {} with {who}, {} is {} with {name}", a.0, a.1, b.0, b.1));
        }
    }
}

#[cfg(not(feature = "parallel"))]
fn run(c: &mut Case, _: &str, f: fn(&mut Case, &mut Out)) {
    let mut o = Out::default();
    f(c, &mut o);
    c.ev("run");
    for (a, b) in o.0 {
        println!("OUT {a} {b}");
    }
}

macro_rules! scenarios {
    ($($name:ident)*) => { $(fn $name(c: &mut Case) { run(c, stringify!($name), work::$name) })* };
}
scenarios! { slices pcs pcs_roots multilinear circuit curve_gadget encryption proofs }

fn main() {
    main_with(vec![Property {
        id: "X01",
        rule: "a case is one piece of work done in pools of 1, 2, 3 and 8 threads and by a build without threads; it counts when its kind or size differs from those of other cases",
        assumptions: &["schedules are those the thread pools happen to take"],
        scenarios: vec![
            sc("slices", 20, 400, slices),
            sc("pcs", 12, 300, pcs),
            sc("pcs_roots", 12, 300, pcs_roots),
            sc("multilinear", 8, 200, multilinear),
            sc("circuit", 10, 300, circuit),
            sc("curve_gadget", 8, 200, curve_gadget),
            sc("encryption", 16, 400, encryption),
            sc("proofs", 8, 200, proofs),
        ],
    }]);
}
