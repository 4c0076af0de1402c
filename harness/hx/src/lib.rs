//! Shared driver of the native harnesses: seeded random cases, reporting, replay.
pub mod flat;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.next().to_le_bytes();
            v.extend_from_slice(&x);
        }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    /// boundary biased value
    pub fn edge(&mut self, max: u64) -> u64 {
        match self.below(6) {
            0 => 0,
            1 => max,
            2 => max.saturating_sub(1),
            3 => 1.min(max),
            _ => self.below(max.saturating_add(1).max(1)),
        }
    }
}

/// One case: records what it did and can fail
pub struct Case {
    pub rng: Rng,
    pub trace: Vec<String>,
    pub hash: u64,
    pub nontrivial: bool,
    pub verbose: bool,
}
pub type Res = Result<(), String>;
impl Case {
    pub fn note<S: Into<String>>(&mut self, s: S) {
        let s = s.into();
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if self.verbose {
            println!("  {}", s);
        }
        if self.trace.len() < 4000 {
            self.trace.push(s);
        }
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local!(static AT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

pub type Runner = fn(&str, &mut Case) -> Res;

fn one(runner: Runner, prop: &str, seed: u64, verbose: bool) -> (Case, Res) {
    let mut c = Case { rng: Rng(seed), trace: vec![], hash: 0xcbf29ce484222325, nontrivial: false, verbose };
    let r = catch_unwind(AssertUnwindSafe(|| runner(prop, &mut c)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {}{}", m, AT.with(|a| a.borrow().clone())))
        }
    };
    (c, r)
}

/// main of every harness:  run PROP SEED SECONDS MAXCASES | case PROP CASESEED
/// a case seed below 4096 selects a fixed scenario first where the harness has some
pub fn main(runner: Runner, fixed: fn(&str) -> u64) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            AT.with(|a| *a.borrow_mut() = format!(" at {}:{}", l.file(), l.line()));
        }
    }));
    if a.len() >= 4 && a[1] == "case" {
        let seed: u64 = a[3].parse().unwrap();
        let (_c, r) = one(runner, &a[2], seed, true);
        match r {
            Ok(()) => {
                println!("case {} of {}: ok", seed, a[2]);
            }
            Err(m) => {
                println!("case {} of {}: FAILED: {}", seed, a[2], m);
                std::process::exit(1);
            }
        }
        return;
    }
    if a.len() < 6 || a[1] != "run" {
        eprintln!("usage: run PROP SEED SECONDS MAXCASES | case PROP CASESEED");
        std::process::exit(2);
    }
    let (prop, seed, secs, max): (String, u64, f64, u64) = (a[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let start = Instant::now();
    let mut distinct = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let (mut n, mut viol) = (0u64, None);
    let mut base = Rng(seed ^ 0x5eed);
    let nfixed = fixed(&prop);
    while n < max + nfixed && (n < nfixed || start.elapsed() < Duration::from_secs_f64(secs)) {
        let cs = if n < nfixed { n } else { (base.next() >> 12) | 4096 };
        let (c, r) = one(runner, &prop, cs, false);
        n += 1;
        if c.nontrivial {
            distinct.insert(c.hash);
        }
        if samples.len() < 3 && c.nontrivial && !c.trace.is_empty() {
            samples.push(format!("case {}: {}", cs, c.trace.iter().take(12).cloned().collect::<Vec<_>>().join(" | ")));
        }
        if let Err(m) = r {
            viol = Some((cs, m, c.trace));
            break;
        }
    }
    let s: Vec<String> = samples.iter().map(|s| esc(&s.chars().take(600).collect::<String>())).collect();
    let v = match &viol {
        None => "null".to_string(),
        Some((cs, m, t)) => format!(
            "{{\"case\":{},\"message\":{},\"trace\":[{}]}}",
            cs,
            esc(m),
            t.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        ),
    };
    println!(
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"violation\":{},\"wall_s\":{:.3}}}",
        esc(&prop), n, distinct.len(), s.join(","), v, start.elapsed().as_secs_f64()
    );
    std::process::exit(if viol.is_some() { 1 } else { 0 });
}
